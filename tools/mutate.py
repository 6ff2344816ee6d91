"""Mechanical mutants of /repo's sources, to find what no check sees. Run: python3 tools/mutate.py SEED COUNT  (scratch: $SCRATCH)
Prints one line per mutant: KILLED by which rule, GAP (nothing found, something not analysed), or SURVIVED with the edit."""
import os, pickle, random, re, select, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("SCRATCH", "/tmp/rm")
os.environ["SA_REPO"], os.environ["SA_BUILD"] = SCR + "/repo", SCR + "/build"
sys.path[:0] = [V + "/sa", V + "/tools"]
import dump, engine, props, rules, check  # noqa: E402

FILES = ["storage.rs"] * 6 + ["main.rs"] * 2 + ["lib.rs", "memo.rs", "compact_account.rs", "config.rs", "endpoints.rs"]
SWAP = [("from", "to"), ("to", "from"), ("spender", "from"), ("from", "spender"), ("amount", "amount_with_fee"), ("amount_with_fee", "amount"),
        ("amount", "0"), ("now", "0"), ("created_at_time", "Some(now)"), ("created_at_time", "None"), ("memo", "None"), ("expires_at", "None"),
        ("expected_allowance", "None"), ("suggested_fee", "None"), ("block_index", "0"), ("amount_to_reimburse", "amount"),
        ("current_allowance", "0"), ("old_expires_at", "None"), ("key", "Default::default()"), ("new_amount", "amount"), ("balance", "0"),
        ("fee_block", "block_index"), ("refund_block", "block_index"), ("expiration", "0"), ("current_expiration", "expires_at"),
        ("args.from", "spender"), ("args.to", "args.from"), ("returned_amount", "amount"), ("Some(spender)", "None")]
RX = [(r"(?<![<=>!-])<(?!=|[A-Za-z&'(_<])", "<="), (r"<=", "<"), (r"(?<![=>-])> (?!=)", ">= "), (r">= ", "> "), (r"==", "!="), (r"!=", "=="),
      (r"&&", "||"), (r"\|\|(?! *\{)", "&&"), (r"config::FEE", "0"), (r"config::FEE", "2 * config::FEE"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
      (r" \+ 1\b", ""), (r" - 1\b", ""), (r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"saturating_add", "wrapping_add"),
      (r"saturating_sub", "wrapping_sub"), (r"saturating_add", "saturating_sub"), (r"\.insert\(", ".remove(&"), (r"if let Err\(err\) = ", "if let (Err(err), false) = (&"),
      (r"Some\((\w+)\)", "None"), (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\bif (?!let)([^{\n]+) \{", r"if !(\1) {"),
      (r"\bif (?!let)([^{\n]+) \{", r"if false && (\1) {"), (r"\bif (?!let)([^{\n]+) \{", r"if true || (\1) {"), (r"continue;", "break;"), (r"break;", "continue;"), (r"\b1\b", "2"), (r"\b0\b", "1"),
      (r"\.min\(", ".max("), (r"\.rev\(\)", ""), (r"Bound::Excluded", "Bound::Included"), (r"unwrap_or\(true\)", "unwrap_or(false)"),
      (r"unwrap_or\(0\)", "unwrap_or(1)"), (r"u128::MAX", "u64::MAX as u128"), (r"\.first_key_value\(\)", ".last_key_value()")]


def source(f):
    s = open("/repo/cycles-ledger/src/" + f).read()
    i = s.find("#[cfg(test)]")
    j = s.find("#[test]")
    k = min([x for x in (i, j) if x >= 0] or [len(s)])
    return s, k


def spans(s, end):
    """offsets that are neither comment nor string"""
    ok = bytearray(b"\1" * end)
    for m in re.finditer(r'//[^\n]*|"(?:[^"\\]|\\.)*"', s[:end]):
        for i in range(m.start(), m.end()):
            ok[i] = 0
    return ok


def candidates(f):
    s, end = source(f)
    ok = spans(s, end)
    out = []
    for rx, new in RX:
        for m in re.finditer(rx, s[:end]):
            if ok[m.start()] and ok[m.end() - 1]:
                out.append((m.start(), m.end(), m.expand(new)))
    for old, new in SWAP:
        for m in re.finditer(r"(?<![\w.&:])(&?)" + re.escape(old) + r"(?=[,;)\s]*[,;)\n])(?! *:)", s[:end]):
            if ok[m.start()]:
                out.append((m.start(1), m.end(), m.group(1) + new))
    for m in re.finditer(r"(?m)^ +(?!let |use |return |pub |type |const )[\w.&(]+[^\n{}]*\S*;\n", s[:end]):
        if ok[m.end() - 2]:
            out.append((m.start(), m.end(), "\n"))
    for m in re.finditer(r"(?ms)^( +)(?:if|read_state\(|mutate_state\(|match)\b[^\n]*\n.*?^\1\}?[^\n ]*[;}]\n", s[:end]):
        if m.end() - m.start() < 900:
            out.append((m.start(), m.end(), "\n"))
    return s, out


ORDER = ["canister_init", "canister_post_upgrade", "icrc2_allowance", "icrc103_get_allowances", "icrc3_get_blocks", "deposit", "icrc1_transfer",
         "icrc2_approve", "icrc2_transfer_from", "withdraw", "create_canister", "withdraw_from", "create_canister_from"]


def run(p):
    """(violation or None, gaps)"""
    jobs, owner = {}, {}
    for pid, q in props.PROPS.items():
        for r, names in q.jobs(p, "quick"):
            for n in names:
                if n not in jobs.setdefault(r, []):
                    jobs[r].append(n)
                owner.setdefault(n, pid)
    rank = lambda r: ORDER.index(r) if r in ORDER else 2
    js = [(r, n) for r in sorted(jobs, key=rank) for n in [jobs[r][i:i + 7] for i in range(0, len(jobs[r]), 7)]]
    running, gaps, hit, t = {}, set(), None, time.time()
    while (js or running) and not hit:
        while js and len(running) < int(os.environ.get("W", "7")):
            job = js.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(check.work(p, None, job)))
                os._exit(0)
            os.close(w)
            running[r] = (pid, b"")
        for fd in select.select(list(running), [], [], 60)[0]:
            pid, buf = running[fd]
            x = os.read(fd, 1 << 20)
            if x:
                running[fd] = (pid, buf + x)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[fd]
            res = pickle.loads(buf) if buf else {"gap": "died", "viol": [], "root": "?"}
            if res["gap"]:
                gaps.add("%s: %s" % (res["root"], res["gap"][:150]))
            for v in res["viol"]:
                hit = hit or "%s %s | %s" % (v["rule"][:60], v["root"], v["what"][:80])
        if time.time() - t > 900:
            gaps.add("slow")
            break
    for fd, (pid, _) in running.items():
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        os.close(fd)
    return hit, gaps


def main():
    rnd = random.Random(int(sys.argv[1]))
    os.makedirs(SCR, exist_ok=True)
    n = 0
    seen = set()
    while n < int(sys.argv[2]):
        f = rnd.choice(FILES)
        s, c = candidates(f)
        if not c:
            continue
        a, b, new = rnd.choice(c)
        if (f, a, b, new) in seen:
            continue
        seen.add((f, a, b, new))
        t = s[:a] + new + s[b:]
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", SCR + "/repo/"])
        open(SCR + "/repo/cycles-ledger/src/" + f, "w").write(t)
        line = s.count("\n", 0, a) + 1
        lo, hi = s.rfind("\n", 0, a) + 1, s.find("\n", b)
        tag = "%s:%d: %s  ==>  %s" % (f, line, s[lo:hi].strip()[:200].replace("\n", " "), (s[lo:a] + new + s[b:hi]).strip()[:200].replace("\n", " "))
        try:
            d = dump.dump()
        except dump.DumpError:
            continue
        n += 1
        try:
            p = engine.load(d)
            g0 = props.shared(p)
            hit, gaps = run(p)
            gaps |= set(g0)
        except Exception as e:
            hit, gaps = None, {"exception %r" % e}
        print("KILLED  " if hit else "GAP     " if gaps else "SURVIVED", tag, "||", hit or sorted(gaps)[:3], flush=True)


main()
