"""What surrounds the ledger proper: the certificate handed out for the tip (C03), the metrics (C39), the depositor canister (C38)."""
from terms import *
from trace import *
import interp, models, rules, engine, prog
from interp import SEGS, Gap
from rules import each, sh
from r_ledger import same
from r_ops import call_of
from r_more import _scalar

DEPOSITOR = "depositor/"
CRATE = "depositor-bin"


# ------------------------------------------------------------------ C03
def rule_tip(o, rep):
    """the tip certificate is the platform's, with a witness for index and hash of the last block"""
    for m in each(rep, messages(o, ("ret",))):
        s = m.st
        if m.reply is None:
            continue
        r = s.canon(m.reply)
        if r.op != "agg" or r.ty is None or r.ty.path is None:
            raise Gap("the reply is not a certificate")
        if not r.a[2]:
            vs = [v for t, v in s.f.var.items() if t.op == "app" and t.a[0] == "ic_cdk::api::data_certificate"]
            rep.check(vs == [frozenset([0])] or vs == [{0}], "tip: none only without certificate", m.loc, "no tip certificate is given although the platform gave one", s)
            continue
        c = View(r.a[2][0])
        cert, tree = s.canon(c.certificate), s.canon(c.hash_tree)
        rep.check(_platform(cert), "tip: certificate of the platform", m.loc, lambda: "the certificate handed out is %s" % sh(cert), s)
        w = tree.a[1] if tree.op == "app" and tree.a[0] == "cbor" else None
        if w is None or w.op != "app" or w.a[0] not in ("valuerange", "witness"):
            rep.unsure.add("tip: the witness is %s, which the analysis does not know" % sh(tree, 80))
            continue
        of = w.a[1]
        rep.check(of is s.canon(m.field("cache.hash_tree", False)), "tip: witness over the certified tree", m.loc, lambda: "the witness is over %s" % sh(of), s)
        if w.a[0] == "valuerange":
            lo, hi = [_bytes(x) for x in w.a[2:4]]
            good = lo is not None and hi is not None and lo <= b"last_block_hash" and hi >= b"last_block_index"
            rep.check(good, "tip: witness for index and hash", m.loc, "the witness covers %s to %s only" % (lo, hi), s)
        else:
            rep.bad("tip: witness for index and hash", m.loc, "the witness is for a single label", s)


def _platform(t):
    """the bytes of the certificate, possibly converted"""
    if t.op == "fld" and t.a[0].op == "app" and t.a[0].a[0] == "ic_cdk::api::data_certificate":
        return True
    return t.op == "app" and t.a[0] in ("from", "into") and _platform(t.a[1])


def _bytes(t):
    if t.op == "bytes":
        return t.a[0] if isinstance(t.a[0], bytes) else bytes.fromhex(t.a[0])
    if t.op == "s":
        return t.a[0].encode()
    if t.op == "agg" and t.a[0] in ("array", "vec") and all(x.op == "k" for x in t.a[2]):
        return bytes(x.a[0] for x in t.a[2])
    return None


# ------------------------------------------------------------------ C39
def gauges():
    st = lambda f: lambda m: mk_len(m.field(f, False))
    return {
        "cycles_ledger_number_of_blocks": st("blocks"), "cycles_ledger_number_of_balances": st("balances"),
        "cycles_ledger_number_of_transaction_hashes": st("transaction_hashes"),
        "cycles_ledger_number_of_transaction_timestamps": st("transaction_timestamps"),
        "cycles_ledger_number_of_approvals": st("approvals"),
        "cycles_ledger_number_of_approval_expiration_entries": st("expiration_queue"),
        "cycles_ledger_total_supply": lambda m: m.field("cache.total_supply", False),
        "cycles_ledger_stable_memory_pages": lambda m: PAGES, "cycles_ledger_stable_memory_bytes": lambda m: (PAGES, 65536),
        "cycles_ledger_cycle_balance": lambda m: OWN, "cycle_balance": lambda m: OWN,
    }


PAGES, OWN = object(), object()


def mk_len(t):
    return models.seq_len(t)


def written(t):
    """[(name, value)] written to a metrics encoder, latest first; None if it is not one. Labelled values are written to what gauge_vec gives"""
    out = []
    while t.op == "app":
        f = t.a[0].split("#")[0].rsplit("::", 1)[-1]
        if f in ("encode_gauge", "encode_counter", "gauge_vec", "counter_vec"):
            out.append((t.a[2], t.a[3] if f.startswith("encode") else None))
            t = t.a[1]
        elif f == "new":
            return out
        elif f in ("into_inner", "value"):
            t = t.a[1]
        else:
            return None
    return None


def num(t):
    """the integer a gauge is set to"""
    if t.op == "cast" and len(t.a) == 3 and t.a[2].startswith("IntToFloat") and t.a[1] == "f64":
        return t.a[0]
    return t


def _is(s, m, x, want):
    x = num(s.canon(x))
    k = 1
    if isinstance(want, tuple):
        want, k = want
    if want is PAGES or want is OWN:
        name = "ic_cdk::stable::stable_size" if want is PAGES else "ic_cdk::api::canister_cycle_balance"
        xs = {y for y in subterms(x) if y.op == "app" and y.a[0] == name}
        return len(xs) == 1 and x is s.canon(scale(xs.pop(), k))
    return same(s, x, s.canon(want))


def body_of(t):
    """the encoder whose content a response carries"""
    for x in subterms(t):
        if x.op == "app" and str(x.a[0]).endswith("::into_inner"):
            return x
    return None


def rule_metrics(o, rep):
    """each gauge shows the quantity it is named after"""
    want = gauges()
    for m in each(rep, messages(o, ("ret",))):
        if m.reply is None:
            continue
        s = m.st
        r = s.canon(m.reply)
        b = body_of(r)
        path = [b.a[0] for a, b in s.sub.items() if b.op == "s" and a.op == "app" and str(a.a[0]).endswith("::path")]
        if b is None:
            continue
        if not path:
            rep.unsure.add("metrics: the path they are served at is not known")
            continue
        rep.check(path == ["/metrics"], "metrics: served under their path", m.loc, "the metrics are served at another path", s)
        xs = written(b)
        if xs is None:
            rep.unsure.add("metrics: the body is not understood")
            continue
        seen = {}
        for n, x in xs:
            name = n.a[0] if n.op == "s" else None
            if name is None:
                rep.unsure.add("metrics: a gauge under a name that is not constant")
                continue
            seen[name] = x
            if name in want and x is not None:
                rep.check(_is(s, m, x, want[name](m)), "metrics: gauge shows what it is named after", m.loc, lambda: "%s is %s" % (name, sh(s.canon(x))), s)
        for name in want:
            rep.check(name in seen, "metrics: every gauge is there", m.loc, "%s is not reported" % name, s)


# ------------------------------------------------------------------ C38
def analyse_depositor(p, root):
    """the depositor canister is a program of its own"""
    q = prog.Prog(p.dir, (CRATE,))
    ex = engine.exports(q, CRATE)
    k = ex.get("canister_update." + root) or ex.get(root)
    if k is None:
        raise Gap("the depositor exports no " + root)
    o = engine.run_root(q, k)
    o.p, o.root = q, DEPOSITOR + root
    if o.ip.gaps:
        raise Gap("; ".join(sorted(o.ip.gaps)))
    return o


def rule_depositor(o, rep):
    """what is deposited is what was asked for, where it was configured"""
    root = o.root[len(DEPOSITOR):]
    ends = [e for e in o.ends if e.kind == "ret"]
    if root == "canister_init":
        for e in ends:
            n = 0
            for c, v in e.st.mem.items():
                if c[0] == "S" and str(c[1]).startswith("depositor") and v.ty is not None and v.ty.field_index("ledger_id") is not None:
                    n += 1
                    x = e.st.canon(View(v).ledger_id)
                    rep.check(_arg(x, "ledger_id"), "depositor: ledger as configured", e.loc, lambda: "the ledger is set to %s" % sh(x), e.st)
            rep.check(n == 1, "depositor: ledger is configured", e.loc, "the ledger is not stored", e.st)
        return
    calls = []
    field = next((i for t in o.p.types.values() if t.k == "adt" and t.adt == "struct" and t.path and t.path.startswith("depositor") and t.path.endswith("Config")
                  for i in [t.field_index("ledger_id")] if i is not None), None)
    if field is None:
        raise Gap("the configuration of the depositor is not known")
    for g in SEGS:
        if g.kind != "await":
            continue
        for pre in g.pre:
            evs = [e for e in pre.ev if e.a[0] == "await"]
            before = [e for e in pre.ev if e.a[0] == "seg"]
            rep.check(not before, "depositor: one call", g.loc, "a further call is made", pre)
            for e in evs[-1:]:
                c = call_of(e.a[1])
                if c is None:
                    raise Gap("an outbound call of an unknown kind at %s" % g.loc)
                dest, name, a, cyc = [pre.canon(x) if isinstance(x, T) else x for x in c]
                calls.append(g)
                rep.check(dest.op == "fld" and dest.a[0].op == "static" and dest.a[2] == field, "depositor: to the configured ledger", g.loc,
                          lambda: "the call goes to %s" % sh(dest), pre)
                rep.check(name == "deposit", "depositor: a deposit", g.loc, "the call is to %s" % name, pre)
                rep.check(_arg(cyc, "cycles"), "depositor: the cycles asked for", g.loc, lambda: "%s cycles are sent" % sh(cyc), pre)
                for f in ("to", "memo"):
                    x = pre.canon(View(a).__getattr__(f)) if a.ty is not None and a.ty.field_index(f) is not None else None
                    none = x is not None and x.op == "agg" and not x.a[2] and any(_arg(t, f) and set(v) == {x.a[1]} for t, v in pre.f.var.items())
                    rep.check(x is not None and (none or _arg(x, f)), "depositor: %s as asked" % f, g.loc, lambda: "%s is %s" % (f, sh(x) if x is not None else "missing"), pre)
    rep.check(bool(calls), "depositor: one call", "*", "no call is made")
    for e in ends:
        segs = [x for x in e.st.ev if x.a[0] == "seg"]
        rep.check(bool(segs), "depositor: replies after the call", e.loc, "a reply is given without a deposit", e.st)
        r = reply_of(e.st.ev)
        x = e.st.canon(r) if r is not None else None
        good = x is not None and x.op == "fld" and x.a[0].op == "app" and x.a[0].a[0].endswith("::candid") \
            and any(y.op == "awaitres" for y in subterms(x.a[0].a[1])) and x.a[0].a[1].op == "fld"
        rep.check(good, "depositor: replies what the ledger replied", e.loc, lambda: "the reply is %s" % (sh(x) if x is not None else "missing"), e.st)


def fname(t):
    ty = t.a[0].ty
    fs = ty.fields(t.a[1]) if ty is not None else None
    return fs[t.a[2]][0] if fs else None


def _arg(t, name):
    """the named field of the request"""
    if t.op == "agg" and t.a[1] == 1 and len(t.a[2]) == 1 and models.optty(t.ty) is not None:  # Some(x.Some.0)
        x = t.a[2][0]
        return x.op == "fld" and x.a[1] == 1 and _arg(x.a[0], name)
    return t.op == "fld" and fname(t) == name and show(t) in ("arg.0." + name, "arg." + name)
