"""The rules: what is required of every message execution of every entry point. Each reports obligations and violations."""
from terms import *
from trace import *
import interp, models, trace, engine
from interp import SEGS, LOOPS, STATE, ZERO32, Gap

UPDATES = ["icrc1_transfer", "deposit", "icrc2_approve", "icrc2_transfer_from", "withdraw", "withdraw_from",
           "create_canister", "create_canister_from", "canister_init", "canister_post_upgrade"]


# longest first, so that they do not end up last
COST = ["create_canister_from", "icrc2_approve", "icrc2_transfer_from", "withdraw_from", "create_canister", "withdraw", "icrc1_transfer"]


def order(roots):
    return sorted(roots, key=lambda r: COST.index(r) if r in COST else len(COST))


def updates(p):
    """every entry point whose changes persist"""
    out = list(UPDATES)
    for e in engine.exports(p):
        m = e[len("canister_update."):] if e.startswith("canister_update.") else e if e in ("canister_heartbeat", "canister_global_timer", "canister_pre_upgrade") else None
        if m and m not in out:
            out.append(m)
    return out


def queries(p):
    return sorted(e for e in engine.exports(p) if e.startswith(("canister_query.", "canister_composite_query.")) or e == "canister_inspect_message")


def key_of(p, root):
    ex = engine.exports(p)
    return ex.get("canister_update." + root) or ex.get("canister_query." + root) or ex.get(root) or root


def analyse(p, root):
    if root == "*" or root.startswith("stored "):  # rules over the whole program
        o = engine.Outcome(None, None, [])
        o.p, o.root = p, root
        return o
    if root.startswith("depositor/"):
        import r_outer
        return r_outer.analyse_depositor(p, root[len("depositor/"):])
    k = key_of(p, root)
    if k not in p.funcs:
        raise Gap("no such entry point: " + root)
    o = engine.run_root(p, k)
    o.p, o.root = p, root
    NEW.clear()
    NEW.update(n for n in o.ip.unknown if not n.startswith(OPAQUE))
    _imp.clear()
    return o


# external functions whose results are treated as arbitrary values without loss: they do not decide anything
OPAQUE = ("candid::", "ciborium::", "ic_canisters_http_types::", "ic_cdk::", "ic_metrics_encoder::", "serde_json::",
          "ic_stable_structures::", "cycles_ledger")
NEW = set()     # external functions without a model that the current analysis came across
_imp = {}


def _text(ty):
    """texts are reported, they decide nothing"""
    return ty is not None and (ty.path or "").endswith("string::String")


def imprecise(t):
    """does the term contain the result of a function the analysis has no model of, or an item of a list whose items it does
    not know?"""
    r = _imp.get(t.id)
    if r is None:
        r = False
        for x in subterms(t):
            if x.op == "app" and isinstance(x.a[0], str) and x.a[0].split("#")[0] in NEW and not _text(x.ty) \
                    or x.op == "elem" and x.a[0].op in ("lv", "coll") and (x.a[0].op == "coll" or "'acc" in str(x.a[0].a[1])):
                r = True
                break
        _imp[t.id] = r
    return r


def unsure(st):
    """does what is known on this path, or what happens on it, involve something imprecise?"""
    f = st.f
    for t in list(f.var) + list(f.bl) + list(f.ne) + list(st.ev) + list(st.sub) + list(st.sub.values()):
        if imprecise(t):
            return True
    return any(imprecise(x) for xs in f.lin for x, _ in xs)


class Rep:
    """obligations and violations of one rule on one entry point"""

    def __init__(self, root):
        self.root, self.n, self.viol, self.seen = root, {}, [], set()
        self.sites = set()
        self.unsure = set()  # what could not be decided because of imprecise values
        self.keep = None  # which messages matter here (a predicate)
        self.focus = None  # the question that was open when the last obligation failed
        self.only = None  # the kinds of obligation that matter here (prefixes)

    def out(self, kind):
        return self.only is not None and not kind.startswith(self.only)

    def mark(self):
        return dict(self.n), len(self.viol), set(self.seen), set(self.sites)

    def failed(self, mark):
        return len(self.viol) > mark[1]

    def reset(self, mark):
        self.n, self.seen, self.sites = dict(mark[0]), set(mark[2]), set(mark[3])
        del self.viol[mark[1]:]

    def ok(self, kind, loc=None):
        if self.out(kind):
            return
        self.n[kind] = self.n.get(kind, 0) + 1
        if loc:
            self.sites.add((kind, loc))

    def bad(self, kind, loc, msg, st=None, **k):
        if self.out(kind):
            return
        self.n[kind] = self.n.get(kind, 0) + 1
        key = (kind, loc, msg)
        if key in self.seen:
            return
        if st is not None and unsure(st):
            self.unsure.add("%s: not decided at %s, where it depends on values the analysis does not know" % (kind, loc))
            return
        self.seen.add(key)
        self.focus = interp.UNDECIDED[0]
        v = {"rule": kind, "root": self.root, "site": loc, "what": msg}
        if st is not None:
            v["path_facts"] = path_facts(st)
        v.update(k)
        self.viol.append(v)

    def check(self, cond, kind, loc, msg, st=None, **k):
        if cond:
            self.ok(kind, loc)
        else:
            self.bad(kind, loc, msg() if callable(msg) else msg, st, **k)
        return cond


def path_facts(st):
    out = []
    for t, vs in st.f.var.items():
        if t.ty is not None and t.ty.k == "adt" and t.ty.variants:
            out.append("%s is %s" % (show(t)[:160], "|".join(t.ty.variants[v][0] for v in sorted(vs))))
    for b, v in st.f.bl.items():
        out.append("%s%s" % ("" if v else "not ", show(b)[:200]))
    for xs, c in st.f.lin.items():
        out.append(show(mklin(c, dict(xs)))[:200] + " >= 0")
    return out[:40]


def proved0(s, t):
    return s.val(eq0(s.canon(t))) is True


def sh(t, n=220):
    return show(t, lim=9)[:n]


# ------------------------------------------------------------------ C02 log <-> balances, C01 supply
def map_delta(ip, st, base, final, extra_keys=(), name="balances"):
    """[(state, [(key, old, new)])] over the keys the chain touches plus extra_keys"""
    b, ops = chain(final)
    keys = [k for _, k, _ in ops] + list(extra_keys)
    out = []
    for s, ks in split_keys(st, keys):
        acc = [(s, [])]
        for k in ks:
            nxt = []
            for s1, rows in acc:
                for s2, old in balance(ip, s1, base, k):
                    for s3, new in balance(ip, s2, final, k):
                        nxt.append((s3, rows + [(k, old, new)]))
            acc = nxt
        out += acc
    return out


def rule_supply(o, rep):
    """the reported supply moves exactly as the sum of the balances does"""
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["balances", "cache.total_supply"]):
            base, final = p.b("balances"), p.f("balances")
            s0, s1 = p.b("cache.total_supply"), p.f("cache.total_supply")
            if base is final and s0 is s1:
                rep.ok("supply: nothing changes", None)
                continue
            loc = where(p, "balances", "cache.total_supply")
            b, _ = chain(final)
            if not rep.check(b is base or m.st.canon(b) is m.st.canon(base), "supply: balances only change by account",
                             loc, "the balance map is replaced wholesale", m.st):
                continue
            for s, rows in map_delta(o.ip, m.st.copy(), base, final):
                d = K(0)
                for k, old, new in rows:
                    d = add(d, sub(s.canon(new), s.canon(old)))
                e = sub(s.canon(s1), s.canon(s0))
                rep.check(proved0(s, sub(d, e)), "supply: change equals sum of balance changes", loc,
                          lambda: "balances change by %s in total but the total supply changes by %s" % (sh(s.canon(d)), sh(e)), s)


def rule_log(o, rep):
    """balances change exactly as the appended blocks say"""
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["balances", "blocks"]):
            base, final = p.b("balances"), p.f("balances")
            l0, l1 = m.st.canon(p.b("blocks")), m.st.canon(p.f("blocks"))
            if base is final and l0 is l1:
                rep.ok("log: nothing changes")
                continue
            loc = where(p, "balances", "blocks")
            bb, blocks = logchain(l1, l0)
            rep.check(bb is l0, "log: append only", where(p, "blocks"), "the block log is not extended by appending", m.st)
            b, _ = chain(final)
            if not rep.check(m.st.canon(b) is m.st.canon(base), "log: balances change by account", loc, "the balance map is replaced wholesale", m.st):
                continue
            acc = [(m.st.copy(), [], [])]
            for x in blocks:
                nxt = []
                for s, ds, names in acc:
                    for s2, d, name, op, tx, blk in effects(s, s.canon(x)):
                        if d is None:
                            rep.bad("log: known operation", loc, "a block with operation %s is appended" % name, s2)
                            continue
                        nxt.append((s2, ds + d, names + [name]))
                acc = nxt
            for s, ds, names in acc:
                ds = [(s.canon(k), s.canon(v)) for k, v in ds]
                for s2, rows in map_delta(o.ip, s, s.canon(base), s.canon(final), [k for k, _ in ds]):
                    for k, old, new in rows:
                        k = s2.canon(k)
                        want = K(0)
                        for k2, v in ds:
                            if s2.val(eq(s2.canon(k2), k)):
                                want = add(want, s2.canon(v))
                        got = sub(s2.canon(new), s2.canon(old))
                        rep.check(proved0(s2, sub(got, want)), "log: balance effect of " + "+".join(names or ["no block"]), loc,
                                  lambda: "the balance of %s changes by %s but the appended block(s) %s say %s" % (
                                      sh(k), sh(got), names, sh(s2.canon(want))), s2)
