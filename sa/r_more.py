"""Rules about storage layout, start-up, configuration, the published interface and what is advertised."""
from r_reads import *
from r_ledger import _lit, _hash
import engine
import dump, os, re, glob
import interp, trace
from interp import on_state

INIT = STATE + "::__rust_std_internal_init_fn"
BT = "ic_stable_structures::btreemap::{}::"
MM = "cycles_ledger::storage::MEMORY_MANAGER"

# the deployed layout: structure -> (kind, region numbers, stored types)
KEYTY = "(candid::Principal, [u8; 32])"
LAYOUT = {
    "blocks": ("log", (1, 2), ["cycles_ledger::storage::Cbor<cycles_ledger::storage::Block>"]),
    "balances": ("map", (3,), [KEYTY, "u128"]),
    "approvals": ("map", (4,), ["(%s, %s)" % (KEYTY, KEYTY), "(u128, u64)"]),
    "expiration_queue": ("map", (5,), ["(u64, (%s, %s))" % (KEYTY, KEYTY), "()"]),
    "transaction_hashes": ("map", (6,), ["[u8; 32]", "(u64, std::option::Option<candid::Principal>)"]),
    "transaction_timestamps": ("map", (7,), ["(u64, u64)", "()"]),
    "config": ("cell", (8,), ["cycles_ledger::config::Config"]),
}


def started(o):
    """[(state, the ledger state right after start-up, where)]"""
    out = []
    for e in o.ends:
        if e.kind != "ret":
            continue
        t = e.st.canon(e.val)
        while t.op != "agg" and t.op == "app" and len(t.a) == 2:
            t = e.st.canon(t.a[1])
        if t.op != "agg" or t.ty is None or not (t.ty.path or "").endswith("storage::State"):
            raise Gap("the initial ledger state is not known: " + sh(t))
        out.append((e.st, t, e.loc))
    if not out:
        raise Gap("start-up never succeeds")
    return out


def _regions(s, t):
    """the stable-memory regions a structure is opened on, in order"""
    out = []
    for a in t.a[1:]:
        a = s.canon(a)
        if a.op == "app" and a.a[0].startswith("ic_stable_structures::memory_manager::") and a.a[0].endswith("::get"):
            k = s.canon(a.a[2])
            while k.op == "agg" and len(k.a[2]) == 1:
                k = s.canon(k.a[2][0])
            src = s.canon(a.a[1])
            out.append((k.a[0] if k.op == "k" else None, src))
    return out


def _opened(s, t):
    """(constructor, term) of a structure: unwraps Result"""
    t = s.canon(t)
    while t.op == "fld":
        t = s.canon(t.a[0])
    return (t.a[0], t) if t.op == "app" else (None, t)


def rule_regions(o, rep):
    """each structure is opened on its own, deployed region"""
    for s, st, loc in started(o):
        fs = st.ty.fields(0)
        seen = {}
        for i, (name, ty) in enumerate(fs):
            ctor, t = _opened(s, st.a[2][i])
            regs = _regions(s, t) if t.op == "app" else []
            if name not in LAYOUT:
                if not regs:
                    rep.ok("regions: nothing persistent", loc)
                    continue
            for k, src in regs:
                rep.check(k is not None, "regions: fixed number", loc, "the region of %s is not a constant" % name, s)
                rep.check(k not in seen, "regions: none is shared", loc, lambda: "%s and %s are both stored in region %s" % (name, seen.get(k), k), s)
                seen[k] = name
            if name not in LAYOUT:
                rep.check(all(k is not None and k not in {n for _, ns, _ in LAYOUT.values() for n in ns} | {0} for k, _ in regs), "regions: a new structure gets a new region", loc,
                          "%s uses region(s) %s of another structure" % (name, [k for k, _ in regs]), s)
                continue
            kind, want, types = LAYOUT[name]
            if ctor is None or not regs:
                raise Gap("where %s is stored is not known: %s" % (name, sh(t)))
            rep.check([k for k, _ in regs] == list(want), "regions: as deployed", loc,
                      lambda: "%s is stored in region %s, the deployed ledger has it in %s" % (name, [k for k, _ in regs], list(want)), s)
            rep.check(ctor.split("::")[-1] in ("init", "load"), "regions: opened, not created anew", loc,
                      lambda: "%s is opened with %s, which discards what is stored" % (name, ctor), s)
            rep.check(len({id(x) for _, x in regs}) == 1, "regions: one manager", loc, "%s uses several memory managers" % name, s)
            txt = ty.s
            args = txt[txt.index("<") + 1:] if "<" in txt else ""
            rep.check(args.startswith(", ".join(types) + ", "), "regions: types as deployed", loc,
                      lambda: "%s is stored as %s, the deployed ledger stores %s" % (name, txt[:300], ", ".join(types)), s)
        missing = [n for n in LAYOUT if n not in [f[0] for f in fs]]
        rep.check(not missing, "regions: every structure is still there", loc, "%s is not opened any more" % ", ".join(missing), s)


# ------------------------------------------------------------------ C31
def rule_rebuilt(o, rep):
    """tip, tree and supply come from the log and the balances"""
    for s, st, loc in started(o):
        v = View(st)
        cache = View(s.canon(v.cache))
        log = s.canon(v.blocks)
        n = models.seq_len(log)
        ph, tree = s.canon(cache.phash), s.canon(cache.hash_tree)
        content, t = {}, tree
        while t.op == "tins":
            content.setdefault(_lit(t.a[1]), s.canon(t.a[2]))
            t = s.canon(t.a[0])
        rep.check(t.op == "emptytree", "rebuilt: tree holds nothing else", loc, lambda: "the tree starts as %s" % sh(t), s)
        for s1, empty in s.copy().fork(eq0(s.canon(n))):
            if empty:
                rep.check(ph.op == "agg" and ph.a[1] == 0, "rebuilt: no tip without blocks", loc, "the empty log gets a tip hash", s1)
                rep.check(not content, "rebuilt: empty tree without blocks", loc, "the tree of the empty log has entries", s1)
                continue
            last = add(n, K(-1))
            ok = ph.op == "agg" and ph.a[1] == 1 and _is_block(s1, _hash(s1.canon(ph.a[2][0])), log, last)
            rep.check(ok, "rebuilt: tip is the last block's hash", loc, lambda: "the tip after start-up is %s" % sh(ph), s1)
            rep.check(set(content) == {"last_block_index", "last_block_hash"}, "rebuilt: tree labels", loc, "the tree gets labels %s" % sorted(map(str, content)), s1)
            ix, hh = content.get("last_block_index"), content.get("last_block_hash")
            rep.check(ix is not None and ix.op == "leb" and same(s1, ix.a[0], last), "rebuilt: certified index", loc, lambda: "index %s" % (sh(ix) if ix is not None else "none"), s1)
            rep.check(hh is not None and _is_block(s1, _hash(hh), log, last), "rebuilt: certified hash", loc, lambda: "hash %s" % (sh(hh) if hh is not None else "none"), s1)
        _sum(o, rep, s, s.canon(cache.total_supply), s.canon(v.balances), loc)


SUMS = ("rebuilt: supply", "rebuilt: the sum", "rebuilt: sums", "rebuilt: from the first", "rebuilt: every", "rebuilt: counts")


def rule_resummed(o, rep):
    """the supply after an upgrade is the sum of the balances"""
    rep.only = SUMS
    try:
        rule_rebuilt(o, rep)
    finally:
        rep.only = None


def rule_resumed(o, rep):
    """the tip after an upgrade is the last block"""
    rep.only = ("rebuilt: tip", "rebuilt: tree", "rebuilt: certified", "rebuilt: no tip", "rebuilt: empty tree")
    try:
        rule_rebuilt(o, rep)
    finally:
        rep.only = None


def _is_block(s, y, log, i):
    if y is None:
        return False
    y = s.canon(unblock(s.canon(y)))
    while y.op == "fld":
        w = y.a[0]
        if w.ty is not None and w.ty.k == "adt" and (w.ty.path or "").endswith("::Block"):
            return False  # a part of a block is not the block
        y = s.canon(w)
    return y.op == "elem" and s.canon(y.a[0]) is s.canon(log) and same(s, y.a[1], i)


def _sum(o, rep, s, total, balances, loc):
    """total is the sum over all entries"""
    info = loop_var(total)
    if info is None:
        if total.op == "k":
            rep.bad("rebuilt: supply is the sum of the balances", loc, "the supply after start-up is %s whatever the balances are" % sh(total), s)
            return
        raise Gap("how the supply is recomputed is unknown: " + sh(total))
    b = before(info, total)
    rep.check(b is not None and info.pre.val(eq0(b)) is True, "rebuilt: the sum starts at zero", info.loc, lambda: "the sum starts at %s" % (sh(b) if b is not None else "?"), info.pre)
    cp = slot(info, total)
    it = walk(info)
    if it is None:
        raise Gap("the loop that recomputes the supply does not walk a map")
    J, m0, lo, _ = it
    rep.check(m0 is balances, "rebuilt: sums over the balances", info.loc, lambda: "the sum is over %s" % sh(m0), s)
    rep.check(lo.op == "unbounded", "rebuilt: sums over all accounts", info.loc, lambda: "the sum only starts at %s" % sh(lo), s)
    j0 = before(info, J)
    rep.check(j0 is not None and info.pre.val(eq0(j0)) is True, "rebuilt: from the first account", info.loc, "the sum skips accounts", info.pre)
    vty = None
    for st in info.back:
        new, j = at(st, cp), at(st, slot(info, J))
        if new is None or j is None:
            raise Gap("an iteration of the sum is unknown")
        rep.check(st.val(eq0(st.canon(sub(j, add(J, K(1)))))) is True, "rebuilt: every account is counted once", info.loc, "accounts are skipped", st)
        d = st.canon(sub(new, total))
        val = next((x for x in subterms(d) if x.op == "fld" and x.a[2] == 1 and _item(x.a[0], balances, J)), None)
        rep.check(val is not None and st.val(eq0(st.canon(sub(d, val)))) is True, "rebuilt: supply is the sum of the balances", info.loc,
                  lambda: "an account adds %s to the supply" % sh(d), st)
    # the loop is left only after the last account
    item = next((x for x in path_terms(s) for x in [x] if x.op == "mitem" and s.canon(x.a[2]) is s.canon(J)), None)
    done = item is not None and [v for _, v in s.copy().variant(s.canon(item), 2)] == [0]
    rep.check(done, "rebuilt: counts to the last account", info.loc, "the sum may stop before the last account", s)


def _item(t, m, j):
    while t.op == "fld":
        t = t.a[0]
    return t.op == "mitem" and t.a[0] is m and t.a[2] is j


def walk(info):
    """(position, map, lower bound, slot) of the map a loop walks"""
    for cp, v in info.havoc.items():
        if cp[1] and cp[1][-1][0] == "miter" and v is not None:
            t = info.head.mem.get(cp[0])
            for q in cp[1][:-1]:
                t = t.a[2][q[2]]
            return v, info.head.canon(t.a[2][0]), info.head.canon(t.a[2][1]), cp
    return None


# ------------------------------------------------------------------ C29
def published(repo):
    """{method: is it a query} of the interface description"""
    f = repo + "/cycles-ledger/cycles-ledger.did"
    if not os.path.isfile(f):
        fs = [x for x in glob.glob(repo + "/**/cycles-ledger.did", recursive=True) if "/target/" not in x]
        if len(fs) != 1:
            raise Gap("no interface description")
        f = fs[0]
    txt = re.sub(r"//[^\n]*", "", open(f).read())
    txt = re.sub(r"/\*.*?\*/", "", txt, flags=re.S)
    body = txt[txt.index("{", re.search(r"\bservice\b[^{;]*?->\s*(?=\{)|\bservice\b\s*:\s*(?=\{)", txt).end()) + 1:]
    out, depth, cur = {}, 0, ""
    for ch in body:
        if ch in "{(":
            depth += 1
        elif ch in "})":
            depth -= 1
            if depth < 0:
                break
        if ch == ";" and depth == 0:
            _method(cur, out)
            cur = ""
        else:
            cur += ch
    _method(cur, out)
    return f, out


def _method(cur, out):
    m = re.match(r'\s*"?([A-Za-z_0-9]+)"?\s*:', cur)
    if m:
        mode = cur[cur.rindex(")") + 1:].split() if ")" in cur else []
        out[m.group(1)] = ("query" in mode or "composite_query" in mode, cur.count("->"))


def rule_interface(o, rep):
    """published methods and exported methods are the same"""
    f, pub = published(dump.REPO)
    ex, where_ = {}, {}
    for crate in o.p.crates if hasattr(o.p, "crates") else ("cycles_ledger-lib", "cycles_ledger-bin"):
        try:
            es = engine.exports(o.p, crate)
        except KeyError:
            continue
        for e, k in es.items():
            m = re.match(r"canister_(update|query|composite_query)[ .](.+)$", e)
            if m:
                ex[m.group(2)] = m.group(1) != "update"
                where_[m.group(2)] = o.p.funcs[k].loc if k in o.p.funcs else k
    if not ex or not pub:
        raise Gap("no methods found")
    name = os.path.basename(f)
    for m in sorted(set(ex) | set(pub)):
        if m not in ex:
            rep.bad("interface: published methods exist", name, "%s is published but the canister does not export it" % m)
        elif m not in pub:
            rep.bad("interface: exported methods are published", where_[m], "the canister exports %s, which is not published" % m)
        else:
            rep.ok("interface: published methods exist", name)
            rep.ok("interface: exported methods are published", where_[m])
            rep.check(ex[m] == pub[m][0], "interface: kind as published", where_[m], "%s is a %s but published as a %s" % (m, "query" if ex[m] else "update", "query" if pub[m][0] else "update"))


# ------------------------------------------------------------------ C34
SINGLE = {"icrc1:decimals": "icrc1_decimals", "icrc1:name": "icrc1_name", "icrc1:symbol": "icrc1_symbol", "icrc1:fee": "icrc1_fee"}
ENFORCED = ("fee: given fee", "fee: refusal names", "fee: effective fee", "memo: within", "blocks: as many as fit",
            "deposit: credits all but the fee", "overdraw: balance", "log: balance effect")


def _scalar(t):
    """the plain value inside Nat / Text / a number"""
    while True:
        if t.op in ("k", "s"):
            return t.op, t.a[0]
        if t.op == "nat":
            t = t.a[0]
        elif t.op == "agg" and len(t.a[2]) == 1:
            t = t.a[2][0]
        else:
            return t.op, t


def answers(p, name):
    """[(state, reply)] of a query without arguments"""
    o = engine.run_root(p, key_of(p, name))
    if o.ip.gaps:
        raise Gap("; ".join(sorted(o.ip.gaps)))
    return [(e.st, e.st.canon(reply_of(e.st.ev))) for e in o.ends if e.kind == "ret"], o


def rule_advertised(o, rep):
    """metadata and dedicated queries agree with each other and with the configuration"""
    p = o.p
    loc = p.funcs[key_of(p, "icrc1_metadata")].loc
    for name, q in SINGLE.items():
        vals = {_scalar(r) for _, r in answers(p, q)[0]}
        ms = {_scalar(x[name]) if name in x else ("missing",) for x in metadata(p)}
        rep.check(len(vals) == 1 and vals == ms and ("missing",) not in ms, "advertised: metadata agrees with " + q, loc,
                  lambda: "%s answers %s, the metadata says %s" % (q, sorted(map(str, vals)), sorted(map(str, ms))))
    base = None
    o2 = engine.run_root(p, key_of(p, "icrc106_get_index_principal"))
    cty = next(t for n, t in o2.ip.static_ty(STATE).fields(0) if n == "config")
    base = get_field(base_state(o2.ip, 0), "config")
    names = [n for n, _ in config_ty(p).fields(0)]
    lim = {_scalar(x["dfn:max_blocks_per_request"]) if "dfn:max_blocks_per_request" in x else ("missing",) for x in metadata(p)}
    want = fld(base, 0, names.index("max_blocks_per_request"))
    rep.check(len(lim) == 1 and _samefld(next(iter(lim))[-1], want), "advertised: block limit is the configured one", loc, lambda: "the metadata names %s" % sorted(map(str, lim)))
    idx = fld(base, 0, names.index("index_id"))
    saw = set()
    for e in o2.ends:
        if e.kind != "ret":
            rep.bad("advertised: index query never fails", e.loc, "the query fails", e.st)
            continue
        r = e.st.canon(reply_of(e.st.ev))
        ix = _known(e.st, idx)
        if r.a[1] == 0:
            v = r.a[2][0]
            ok = v.op == "fld" and _samefld(v.a[0], idx) or ix is not None and ix.op == "agg" and ix.a[1] == 1 and v is ix.a[2][0]
            rep.check(ok, "advertised: index principal is the configured one", e.loc, lambda: "the query answers %s" % sh(v), e.st)
            saw.add(1)
        else:
            rep.check(_variant(e.st, idx) == 0, "advertised: no index principal only if none is configured", e.loc, "the query says none is set although one may be", e.st)
            saw.add(0)
    rep.check(saw == {0, 1}, "advertised: index principal is reported when set", loc, "the index principal is never reported")
    _meta_index(p, rep, idx, loc)
    r = {_scalar(r) for _, r in answers(p, "icrc1_minting_account")[0]}
    rep.check(all(x[0] == "agg" and x[1].a[1] == 0 for x in r), "advertised: no minting account", loc, "a minting account is reported: %s" % r)


def _meta_index(p, rep, idx, loc):
    om = engine.run_root(p, key_of(p, "icrc1_metadata"))
    for e in om.ends:
        if e.kind != "ret":
            continue
        xs = listed(reply_of(e.st.ev))
        d = {x.a[2][0].a[0]: x.a[2][1] for x in xs}
        keys_ = {"icrc106:index_principal", "dfn:index_id"} & set(d)
        v = _variant(e.st, idx)
        if v == 0:
            rep.check(not keys_, "advertised: metadata has an index only if configured", e.loc, "metadata names an index although none is configured", e.st)
        else:
            rep.check(len(keys_) == 2, "advertised: metadata names the configured index", e.loc, "the metadata leaves out the index although one may be configured", e.st)
            for k in keys_:
                ok = any(t.op == "fld" and _samefld(t.a[0], idx) for t in subterms(d[k]))
                rep.check(ok, "advertised: metadata names the configured index", e.loc, lambda: "%s is %s" % (k, sh(d[k])), e.st)


def _samefld(a, b):
    return isinstance(a, T) and a.op == "fld" and b.op == "fld" and a.a[1:3] == b.a[1:3] and a.a[0] is b.a[0]


def _known(s, t):
    for x in list(s.sub):
        if _samefld(x, t):
            return s.canon(x)
    return None


def _variant(s, t):
    for x, vs in s.f.var.items():
        if _samefld(x, t) and len(vs) == 1:
            return next(iter(vs))
    k = _known(s, t)
    return k.a[1] if k is not None and k.op == "agg" else None


def rule_enforced(o, rep):
    """the advertised numbers are the ones that decide requests"""
    rep.only = ENFORCED
    try:
        if o.root == "icrc3_get_blocks":
            rule_blocks(o, rep)
        elif o.root == "deposit":
            rule_deposit(o, rep)
        else:
            rule_fee(o, rep)
        if o.root != "icrc3_get_blocks":
            rule_memo(o, rep)
    finally:
        rep.only = None


# ------------------------------------------------------------------ C23, C33
def everywhere(p):
    """every exported method"""
    out = []
    for crate in ("cycles_ledger-lib", "cycles_ledger-bin"):
        try:
            out += list(engine.exports(p, crate))
        except KeyError:
            pass
    return sorted({e[len("canister_update."):] if e.startswith("canister_update.") else e for e in out})


def all_events(o):
    """(event, state) of everything that happens on any path"""
    seen = set()
    for s in [e.st for e in o.ends] + [s for g in SEGS for s in g.pre] + [b for l in LOOPS if l for b in l.back]:
        for e in s.ev:
            if e.id not in seen:
                seen.add(e.id)
                yield e, s


def rule_borrow(o, rep):
    """shared cells are never accessed in conflict"""
    for cell, loc in sorted(o.ip.borrows):
        rep.ok("borrow: none is held across an outbound call" if cell == "await" else "borrow: no conflict", loc)
    for e in o.ends:
        if e.kind == "trap" and e.val == "already borrowed":
            rep.bad("borrow: no conflict", e.loc, "the ledger state is accessed here while it is being accessed further up: %s" % " > ".join(
                "%s (%s)" % (k.split("<")[0], l) for k, l in e.stack[-6:]), e.st)
    for e, s in all_events(o):
        if e.a[0] == "heldborrow":
            rep.bad("borrow: none is held across an outbound call", e.a[1].a[0], "the ledger state stays borrowed while waiting", s)


def rule_arith(o, rep):
    """sums, differences, products and conversions stay in range"""
    for fn, loc in sorted(o.ip.arith):
        rep.ok("arithmetic: in range", "%s %s" % (fn.split("<")[0], loc))
    for e, s in all_events(o):
        if e.a[0] == "maywrap" and e.a[1].a[0].startswith(("cycles_ledger", "core::iter::traits::accum")):
            rep.bad("arithmetic: in range", e.a[2].a[0], "%s may leave its range: %s" % (e.a[1].a[0].split("<")[0], sh(e.a[3])), s)
        elif e.a[0] == "narrow":
            rep.bad("arithmetic: in range", e.a[2].a[0], "%s: %s may not fit into %s" % (e.a[1].a[0].split("<")[0], sh(e.a[3]), e.a[4].a[0]), s)


# ------------------------------------------------------------------ C30
def rule_config(o, rep):
    """installation and upgrade apply exactly the given configuration"""
    (_install if o.root == "canister_init" else _upgrade)(o, rep)


def _variants(st, t):
    """[(state, variant name, payload or None)]"""
    out = []
    for s, v in st.copy().variant(t):
        t2 = s.canon(t)
        fs = t.ty.fields(v)
        out.append((s, t.ty.variants[v][0], fld(t2, v, 0, fs[0][1]) if fs else None))
    return out


def _rest(o, m, rep, kind, loc, s, names=()):
    """nothing else of the ledger changes"""
    base, final = m.stages[0].base, m.stages[-1].final
    for i, (n, ty) in enumerate(base.ty.fields()):
        if n == "config" or n in names:
            continue
        a, b = s.canon(fld(base, 0, i, ty)), s.canon(fld(final, 0, i, ty))
        rep.check(len(m.stages) == 1 and equal(s, a, b), kind, loc, lambda: "%s changes to %s" % (n, sh(b)), s)


def _install(o, rep):
    a0 = argument().t
    saw = set()
    for m in each(rep, messages(o, ("ret",))):
        for s, name, conf in _variants(m.st, a0):
            loc = where(Stretch(m), "config")
            if not rep.check(name == "Init", "config: wrong kind of argument refused", m.loc, "installation goes through with an argument meant for an upgrade", s):
                continue
            got = s.canon(m.field("config"))
            rep.check(equal(s, got, conf), "config: stored as given", loc, lambda: "the configuration becomes %s" % sh(got), s)
            for s2, ib in opt(s, s.canon(View(conf).initial_balances)):
                saw.add(ib is not None)
                if ib is None:
                    _rest(o, m, rep, "config: no account is credited unasked", loc, s2)
                else:
                    _credits(o, m, rep, s2, ib)
    rep.check(saw == {True, False}, "config: can be installed", "init", "installation never succeeds %s initial balances" % ("with" if True not in saw else "without"))


class Stretch:
    def __init__(self, m):
        self.ev, self.loc = m.ev, m.loc


def _credits(o, m, rep, s, items):
    """every listed account is credited with its amount, nothing else happens to the balances"""
    ps = pieces(m, ["balances"])
    n = 0
    for p in ps:
        info = p.loops
        loc = where(p, "balances")
        if info is not None:
            n += 1
            _credit_loop(o, rep, info, s.canon(items), s)
        rep.check(s.canon(p.b("balances")) is s.canon(p.f("balances")), "config: only listed accounts are credited", loc, "balances change besides the listed ones", s)
    if n:
        rep.check(n == 1, "config: listed accounts are credited once", m.loc, "the list is credited %d times" % n, s)
        return
    ln = models.seq_len(s.canon(items))
    rep.check(proved0(s, ln), "config: listed accounts are credited", m.loc, "the listed accounts are not credited", s)


def _credit_loop(o, rep, info, items, end):
    J = None
    for x, j0 in counter(info):
        if any(t.op == "elem" and t.a[1] is x and t.a[0] is items for st in info.back for t in _all_terms(st)):
            J, first = x, j0
    if J is None:
        raise Gap("the loop over the initial balances is not understood")
    rep.check(first is not None and proved0(info.pre, first), "config: from the first listed account", info.loc, "listed accounts are skipped", info.pre)
    rep.check(end.copy().val(eq0(end.canon(sub(models.seq_len(items), J)))) is True, "config: to the last listed account", info.loc,
              "the loop may stop before the last listed account", end)
    for m in each(rep, [x for x in iterations(o) if x.to is info]):
        x = mk("elem", items, J, ty=None)
        x = next(t for t in _all_terms(m.st) if t.op == "elem" and t.a[1] is J and t.a[0] is items)
        st = m.st.copy()
        who, amount = akey(fld(x, 0, 0, x.ty.elems[0])), fld(x, 0, 1, x.ty.elems[1])
        s = m.stages[0]
        base, final = st.canon(get_field(s.base, "balances")), st.canon(get_field(s.final, "balances"))
        loc = where(Stretch(m), "balances")
        b, _ = chain(final)
        rep.check(b is base, "config: accounts are credited one by one", loc, "the balance map is replaced", st)
        for s2, rows in map_delta(o.ip, st, base, final, [who]):
            for k, old, new in rows:
                d = sub(s2.canon(new), s2.canon(old))
                mine = s2.val(eq(s2.canon(k), s2.canon(who)))
                rep.check(proved0(s2, sub(d, s2.canon(amount)) if mine else d), "config: credited with the listed amount", loc,
                          lambda: "the balance of %s changes by %s for the listed amount %s" % (sh(k), sh(s2.canon(d)), sh(amount)), s2)


def _all_terms(st):
    seen = set()
    for t in list(st.ev) + list(st.f.var) + list(st.mem.values()) + list(st.sub) + list(st.sub.values()):
        subterms(t, seen)
    for xs in st.f.lin:
        for a, _ in xs:
            subterms(a, seen)
    return sorted(seen, key=lambda t: t.id)


def config_ty(p):
    for t in p.types.values():
        if t.k == "adt" and (t.path or "").endswith("config::Config"):
            return t
    raise Gap("the configuration type is unknown")


def _upgrade(o, rep):
    a0, cty = argument().t, config_ty(o.p)
    saw = set()
    for m in each(rep, messages(o, ("ret",))):
        loc = where(Stretch(m), "config")
        for s, a in opt(m.st.copy(), a0):
            up = None
            if a is not None:
                todo = []
                for s2, name, x in _variants(s, a):
                    if rep.check(name == "Upgrade", "config: wrong kind of argument refused", m.loc, "an upgrade goes through with an argument meant for installation", s2):
                        todo += opt(s2, s2.canon(x))
            else:
                todo = [(s, None)]
            for s2, up in todo:
                _rest(o, m, rep, "config: an upgrade leaves the ledger alone", m.loc, s2)
                c0, c1 = s2.canon(get_field(m.stages[0].base, "config")), s2.canon(m.field("config"))
                mb = [(s2, None)] if up is None else opt(s2, s2.canon(View(up).max_blocks_per_request))
                for s3, n in mb:
                    for s4, ix in [(s3, None)] if up is None else opt(s3, s3.canon(View(up).change_index_id)):
                        saw.add((n is not None, ix is not None))
                        for i, (f, ty) in enumerate(cty.fields(0)):
                            old, new = s4.canon(fld(c0, 0, i, ty)), s4.canon(fld(c1, 0, i, ty))
                            if f == "max_blocks_per_request" and n is not None:
                                rep.check(same(s4, new, n), "config: block limit as asked", loc, lambda: "the block limit becomes %s" % sh(new), s4)
                            elif f == "index_id" and ix is not None:
                                for s5, kind, who in _variants(s4, s4.canon(ix)):
                                    for s6, got in opt(s5, s5.canon(new)):
                                        rep.check(got is None if kind == "Unset" else got is not None and same(s6, got, who), "config: index as asked", loc,
                                                  lambda: "the index becomes %s for %s" % (sh(new), kind), s6)
                            else:
                                rep.check(equal(s4, old, new), "config: settings not named stay", loc, lambda: "%s becomes %s" % (f, sh(new)), s4)
    rep.check({(True, True), (True, False), (False, True), (False, False)} <= saw, "config: can be upgraded", "post_upgrade", "an upgrade with some combination of settings never succeeds")


# ------------------------------------------------------------------ C25
REASONS = ("overdraw: reported", "overdraw: refused", "allowance refusal", "window: too old", "window: in the future", "window: refusal",
           "approve: refusal", "approve: refused", "forbidden: refusal", "forbidden: only", "forbidden: denied", "forbidden: zero refusal",
           "fee: refusal", "fee: refused", "dedup: refused", "dedup: duplicate", "refund: failure", "refund: reply", "refund: success", "reason")
CAUSES = {"BadFee", "InsufficientFunds", "InsufficientAllowance", "TooOld", "CreatedInFuture", "Duplicate", "AllowanceChanged", "Expired",
          "InvalidReceiver", "GenericError", "FailedToWithdraw", "FailedToWithdrawFrom", "FailedToCreate", "FailedToCreateFrom"}


def rule_reasons(o, rep):
    """every refusal names its actual cause with the actual values"""
    r = request(o)
    rep.only = REASONS
    try:
        rule_overdraw(o, rep)
        rule_window(o, rep)
        rule_forbidden(o, rep)
        rule_fee(o, rep)
        rule_dedup(o, rep)
        if r.kind == "approve":
            rule_approve(o, rep)
        else:
            rule_allowance_refusal(o, rep)
        if r.kind in ("withdraw", "create"):
            rule_refund(o, rep)
        _reasons(o, rep, r)
    finally:
        rep.only = None


def _reasons(o, rep, r):
    fee, W = fee_of(o.p), WINDOW + DRIFT
    for m in each(rep, messages(o, ("ret",))):
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            for s2, name, v in errors(s, e):
                if m.seg is None:
                    rep.check(name in CAUSES and not name.startswith("FailedTo"), "reason: names a cause", m.loc, "refused with %s, which is no cause of a refusal" % name, s2)
                    if name == "GenericError":
                        _specific(o, rep, m, s2, r, fee, W)
                elif name.startswith("FailedTo"):
                    _rejection(rep, m, s2, v)


def _specific(o, rep, m, s, r, fee, W):
    """a generic refusal is not used where a specific one applies"""
    now = now_of(s)
    for s3, c in opt(s.copy(), s.canon(r.cat)):
        late = c is not None and s3.val(lt(add(s3.canon(c), K(W)), now)) is True
        early = c is not None and s3.val(lt(add(now, K(DRIFT)), s3.canon(c))) is True
        rep.check(not late, "reason: too old is reported as such", m.loc, "GenericError although the creation time is too old", s3)
        rep.check(not early, "reason: created in the future is reported as such", m.loc, "GenericError although the creation time lies in the future", s3)
    g = [t for t in s.f.var if t.op == "get" and t.a[1].op == "hash" and s.canon(t.a[0]) is s.canon(m.field("transaction_hashes", False))]
    dup = any(s.f.var[t] == {1} and request_tx(o, s, r, t.a[1].a[0]) for t in g)
    rep.check(not dup, "reason: a duplicate is reported as such", m.loc, "GenericError although the request is remembered", s)


def _rejection(rep, m, s, v):
    fs = [f[0] for f in v.t.ty.fields(v.v)] if v.t.ty is not None else []
    for f in ("rejection_reason", "error"):
        if f in fs:
            t = s.canon(getattr(v, f))
            ok = t.op == "app" and t.a[0] == "text" or any(x.op == "awaitres" for x in subterms(t))  # formatted text is not looked into
            rep.check(ok, "reason: tells what the call said", m.loc, lambda: "%s is %s" % (f, sh(t)), s)
    if "rejection_code" not in fs:
        return
    code = s.canon(v.rejection_code)
    asked = [t for t in s.f.var if t.op == "app" and str(t.a[0]).endswith("::reject_code") and len(s.f.var[t]) == 1]
    if not asked:
        return
    if code.op != "agg":
        raise Gap("the rejection code is unknown: " + sh(code))
    got = code.ty.variants[code.a[1]][0]
    for t in asked:
        k = next(iter(s.f.var[t]))
        inner = fld(t, k, 0, t.ty.fields(k)[0][1]) if t.ty.fields(k) else None
        if t.ty.variants[k][0] not in ("Ok", "Some"):
            want = {"Unknown"}
        else:
            vs = s.f.var.get(inner)
            if vs is None:
                vs = range(len(inner.ty.variants))
            want = {inner.ty.variants[x][0].replace("SysUnknown", "Unknown") for x in vs}
        rep.check(got in want and len(want) == 1, "reason: rejection code as received", m.loc, lambda: "a call rejected with %s is reported as %s" % ("|".join(sorted(want)), got), s)


# ------------------------------------------------------------------ C32
def rule_current(o, rep):
    """what a message writes after an outbound call is worked out from the state at that time"""
    rep.keep = lambda m: m.seg is not None and m.seg.kind == "await"
    try:
        for m in each(rep, messages(o)):
            now = m.stages[0].base
            rep.check(now.op == "static", "current: resumes from the state at that time", m.loc, lambda: "the message resumes from %s" % sh(now), m.st)
            for p in pieces(m, ["balances", "approvals", "cache.total_supply", "config"]):
                for f in ("balances", "cache.total_supply", "config"):
                    a, b = m.st.canon(p.b(f)), m.st.canon(p.f(f))
                    rep.check(a is b or not _stale(b, a, now), "current: written from the state at that time", where(p, f),
                              lambda: "%s is written from what was read before the outbound call: %s" % (f, sh(b)), m.st)
                base, ops = chain(m.st.canon(p.f("approvals")))
                for what, k, v in ops:
                    if v is None:
                        continue
                    loc, s = where(p, "approvals"), m.st
                    rep.check(not _stale(fld(v, 0, 0), base, now), "current: written from the state at that time", loc,
                              lambda: "an allowance is written from what was read before the outbound call: %s" % sh(fld(v, 0, 0)), s)
                    if not _stale(fld(v, 0, 1), base, now):
                        continue
                    for s2, amt, exp in in_force(o.ip, s.copy(), s.canon(p.b("approvals")), s.canon(k), now_of(s)):
                        for s3, none in s2.fork(eq0(s2.canon(amt))):
                            rep.check(none or same(s3, fld(v, 0, 1), exp), "current: an approval in force keeps its expiry", loc,
                                      lambda: "the approval in force expires at %s, what is written was read before the outbound call: %s" % (sh(exp), sh(fld(v, 0, 1))), s3)
        rule_supply(o, rep)
        rule_log(o, rep)
        rule_chain(o, rep)
    finally:
        rep.keep = None


def _stale(new, old, now):
    """does the value draw on a ledger state before that one?"""
    return any(x.op == "static" and x.a[0].startswith(STATE) and _v(x) < _v(now) for x in subterms(new) - subterms(old))


def _v(t):
    n = t.a[0]
    return int(n.rsplit("@", 1)[1]) if "@" in n else 0


# ------------------------------------------------------------------ C27
ACCOUNT_MAPS = ("balances", "approvals")


def _accounts(m):
    """every term that says what happens on the path"""
    f = m.st.f
    ts = list(f.var) + list(f.bl) + list(f.ne) + [x for xs in f.lin for x, _ in xs] + list(m.ev)
    for x in m.stages:
        ts += [get_field(x.final, n) for n in ACCOUNT_MAPS] + [get_field(x.base, n) for n in ACCOUNT_MAPS]
    if m.reply is not None:
        ts.append(m.reply)
    return ts


def _map_of(t):
    while t.op in ("ins", "rem"):
        t = t.a[0]
    return t


def _account_keys(k):
    """the (owner, subaccount) pairs a key is made of"""
    if k.op == "agg" and k.a[0] == "tuple" and len(k.a[2]) == 2:
        a, b = k.a[2]
        if a.op == "agg" and a.a[0] == "tuple":
            return _account_keys(a) + _account_keys(b)
        return [(a, b)]
    return []


def _asked(t):
    """does it come from the request rather than from the ledger?"""
    return any(x.op == "sym" for x in subterms(t)) and not on_state(t)


def _full(st, sub):
    """is it the effective subaccount of a named account: all 32 bytes of it, or zeros if it has none?"""
    if sub.op == "effsub" or st.canon(sub) is ZERO32:
        return True
    return sub.op == "fld" and sub.a[1] == 1 and sub.a[0].ty is not None and interp.is_subopt(sub.a[0].ty) and st.f.var.get(sub.a[0]) == frozenset({1})


def _spelled(t, whole=False):
    """optional subaccounts of the request a condition looks at other than through the subaccount they denote (whole: not at
    the bytes given, which count only if giving none is treated differently from giving zeros)"""
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if whole and x.op == "fld" and x.a[1] == 1 and x.a[0].ty is not None and interp.is_subopt(x.a[0].ty):
            continue
        if x in seen or x.op in ("effsub", "hash"):
            continue
        seen.add(x)
        if x.op == "app" and str(x.a[0]) in ("hash fails", "log full"):
            continue
        if x.op in ("get", "has") and x is not t:
            continue
        if x.ty is not None and interp.is_subopt(x.ty) and x.op != "agg" and _asked(x):
            out.add(x)
            continue
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                st += [z for z in y if isinstance(z, T)]
                st += [u for z in y if isinstance(z, tuple) for u in z if isinstance(u, T)]
    return out


def rule_default(o, rep):
    """leaving out the subaccount and giving zeros is the same account; accounts are kept apart by owner and all 32 bytes"""
    seen, decided = set(), {}
    ms = [m for m in transitions(o, ("ret", "await")) if rep.keep is None or rep.keep(m)]
    for m in each(rep, ms):
        st = m.st
        for t in _accounts(m):
            for x in subterms(t, set()):
                if x.op not in ("get", "ins", "rem") or not isinstance(x.a[1], T) or (x, m.kind) in seen:
                    continue
                good = True
                for own, sub in _account_keys(st.canon(x.a[1])):
                    if not _asked(tup(own, sub)) or sub.op in ("lin", "k", "len") or sub.ty is not None and sub.ty.k == "int" \
                            or own.ty is not None and own.ty.k == "int":
                        continue
                    ok = _full(st, sub)
                    good = good and ok
                    rep.check(ok, "account: kept under owner and whole subaccount", m.loc, lambda: "an account is looked up as (%s, %s)" % (sh(own), sh(sub)), st)
                    if ok and sub.op == "effsub" and sub.a[0].op == "fld" and own.op == "fld":
                        good = rep.check(own.a[0] is sub.a[0].a[0], "account: owner and subaccount belong together", m.loc,
                                         lambda: "an account is looked up as (%s, %s)" % (sh(own), sh(sub)), st) and good
                if good:
                    seen.add((x, m.kind))
    left = [4000]
    for m in [x for m in ms for x in _apart(m, left)]:
        for t, vs in m.st.f.var.items():
            if t.ty is not None and interp.is_subopt(t.ty) and len(vs) == 1 and _asked(t):
                decided.setdefault(t, {0: set(), 1: set()})[next(iter(vs))].add(m)
    for m in ms:
        for q in list(m.st.f.bl) + list(m.st.f.ne) + [x for xs in m.st.f.lin for x, _ in xs]:
            if q.op == "eq" or q.op == "disc" or q.op == "app":
                for t in _spelled(q, True):
                    rep.bad("account: spelling decides nothing", m.loc, "whether %s is given decides what happens: %s" % (sh(t), sh(q)), m.st)
    rep.ok("account: spelling decides nothing", o.root)
    for t, d in decided.items():
        # decided either way: what can happen must be the same, whichever way other accounts are spelled
        if not d[0] or not d[1]:
            continue
        zero = {}
        for m in d[1]:
            zero[m] = [_outcome(trace._with(m, st), t) for st, y in m.st.copy().fork(eq(fld(t, 1, 0, t.ty.fields(1)[0][1]), ZERO32)) if y]
        conds = [None] + [(u, w) for u in decided if u is not t for w in (0, 1)]
        for c in conds:
            here = lambda m: c is None or m not in decided[c[0]][1 - c[1]]
            a, z = {_outcome(m, t): m for m in d[0] if here(m)}, {x: m for m in d[1] if here(m) for x in zero[m]}
            xs = sorted(set(a) ^ set(z), key=str) if a and z else ()
            if xs:
                every = {**a, **z}
                # an outcome written with another account's bytes may be the same as one written with zeros
                sure = [x for x in xs if not any(sh(u)[-14:] + ".Some.0" in str(x) for u in decided if u is not t)]
                x = (sure or xs)[0]
                m = every[x]
                say = "whether %s is given decides whether this happens: %s" % (sh(t), x[1][:200])
                if sure:
                    rep.bad("account: spelling decides nothing", m.loc, say, m.st)
                    break
                rep.unsure.add(say)


def _spelling(br, memo={}):
    """does a join, or one within it, tell apart how a subaccount is spelled?"""
    c = memo.get(id(br))
    if c is None or c[0] is not br:
        sig = trace.signature(br)
        c = memo[id(br)] = (br, id(br) not in interp.RESPELLED and any(isinstance(t, T) and t.ty is not None and interp.is_subopt(t.ty) for t in sig) or
                            any(_spelling(b) for _, sub in br for b, _ in sub))
    return c[1]


def _apart(m, left):
    """the paths joined in a message, as far as they tell apart how a subaccount is spelled"""
    out, work = [], [m.st]
    while work:
        st = work.pop()
        left[0] -= 1
        if left[0] < 0:
            return [m]
        i = next((i for i, (br, _) in enumerate(st.alts) if _spelling(br)), None)
        if i is None:
            out.append(m if st is m.st else trace._with(m, st))
        else:
            work += trace.split(st, i)
    return out


def _outcome(m, t):
    """what a path does, with the subaccount written as zeros"""
    memo, mm = {}, {fld(t, 1, 0, t.ty.fields(1)[0][1]): ZERO32, mk("effsub", t): ZERO32}
    R = lambda x: re.sub(r"lv\((\d+)", "lv(", show(subst(x, mm, memo), lim=60)) if x is not None else None
    fin = tuple((n, R(get_field(m.stages[-1].final, n))) for n in ACCOUNT_MAPS)
    return m.kind, str(R(m.reply)), fin


def rule_balance_query(o, rep):
    """the balance query answers the balance of the account asked for, the supply query the total supply"""
    for m in each(rep, messages(o, ("ret",))):
        if m.reply is None:
            continue
        s = m.st
        r = s.canon(m.reply)
        r = r.a[0] if r.op == "nat" else r
        if o.root == "icrc1_total_supply":
            want = s.canon(View(m.field("cache", False)).total_supply)
            rep.check(same(s, r, want), "query: the supply is the total supply", m.loc, lambda: "the supply query answers %s" % sh(r), s)
            continue
        a = argument()
        for s2, x in balance(o.ip, s.copy(), s.canon(m.field("balances", False)), s.canon(key(acc(a.t)))):
            rep.check(same(s2, s2.canon(r), s2.canon(x)), "query: the balance is that of the account asked for", m.loc,
                      lambda: "the balance query answers %s" % sh(s2.canon(r)), s2)
