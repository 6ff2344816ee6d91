"""Applies behaviour-preserving refactorings to a scratch copy of /repo and runs every rule on it.
Run: python3 tools/quiet.py [ids]   (scratch: $SCRATCH, default /tmp/rf)"""
import os, shutil, subprocess, sys, time, collections

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("SCRATCH", "/tmp/rf")
os.environ["SA_REPO"], os.environ["SA_BUILD"] = SCR + "/repo", SCR + "/build"
sys.path[:0] = [V + "/sa", V + "/tools"]
import dump, engine, props, rules, check  # noqa: E402
from refactors import R  # noqa: E402


class All:
    names = ()


def main():
    ids = sys.argv[1:] or list(R)
    os.makedirs(SCR, exist_ok=True)
    for i in ids:
        subprocess.check_call(["rsync", "-a", "--delete", "--exclude", "target", "--exclude", ".git", "/repo/", SCR + "/repo/"])
        for f, old, new in R[i]:
            f = SCR + "/repo/cycles-ledger/src/" + f
            s = open(f).read()
            if s.count(old) != 1:
                print(i, "EDIT DOES NOT APPLY", s.count(old), repr(old[:80]))
                break
            open(f, "w").write(s.replace(old, new))
        else:
            run(i)


def run(i):
    t = time.time()
    try:
        d = dump.dump()
    except dump.DumpError as e:
        print(i, "DOES NOT COMPILE", "\n".join(l for l in str(e).split("\n") if "error" in l or "-->" in l)[:1500])
        return
    p = engine.load(d)
    for g in props.shared(p):
        print("NOT-ANALYSED", g[:200])
    jobs = collections.OrderedDict()
    owner = {}
    only = os.environ.get("P", "").split(",") if os.environ.get("P") else None
    for pid, q in props.PROPS.items():
        if only and pid not in only:
            continue
        for r, names in q.jobs(p, "quick"):
            for n in names:
                jobs.setdefault(r, []).append(n) if n not in jobs.get(r, ()) else None
                owner.setdefault(n, []).append(pid)
    jobs = [(r, n) for r in rules.order(jobs) for n in chunks(jobs[r], 7)]
    res = check.pool(p, All(), jobs, time.time() + 1500)
    viol = [v for r in res for v in r["viol"]]
    gaps = {(r["root"], r["gap"]) for r in res if r["gap"]}
    n = collections.Counter()
    for r in res:
        n.update(r["n"])
    print("==", i, "%d obligations, %d violations, %d gaps, %.0fs" % (sum(n.values()), len(viol), len(gaps), time.time() - t), flush=True)
    for g in sorted(gaps):
        print("  gap", g[0], g[1][:300])
    for v in viol[:8]:
        print("  ", v["rule"], "|", v["root"], "|", v["site"], "|", v["what"][:300])
    for pid, q in props.PROPS.items():
        if only and pid not in only:
            continue
        for k, least in q.floor.items():
            if not gaps and sum(c for kk, c in n.items() if kk.startswith(k)) < min(2, least):
                print("  FLOOR", pid, k)
    sys.stdout.flush()


def chunks(xs, k):
    return [xs[i:i + k] for i in range(0, len(xs), k)]


main()
