"""Rules about what messages do to the ledger."""
from rules import *
import rules

CERT = ("S", "ic.certified_data")
U128 = (1 << 128) - 1
WINDOW, DRIFT = 24 * 3600 * 10**9, 60 * 10**9
LEDGER = ["balances", "approvals", "expiration_queue", "transaction_hashes", "transaction_timestamps", "blocks",
          "cache.phash", "cache.total_supply", "cache.hash_tree", "config"]
MGMT = None


# ------------------------------------------------------------------ helpers
def same(s, a, b):
    """are the two values equal in every case the state allows?"""
    a, b = s.canon(a), s.canon(b)
    if a is b:
        return True
    if is_int_term(a) and is_int_term(b):
        return s.val(eq0(sub(a, b))) is True
    if a.op == "agg" and b.op == "agg" and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
        return all(same(s, x, y) for x, y in zip(a.a[2], b.a[2]))
    return s.val(eq(a, b)) is True


def differ(s, a, b):
    a, b = s.canon(a), s.canon(b)
    return s.val(eq(a, b)) is False


def is_result(t):
    return t is not None and t.ty is not None and t.ty.k == "adt" and (t.ty.path or "").endswith("result::Result")


def outcome(m):
    """[(state, "Ok" | "Err" | None, payload)] of the reply"""
    if m.reply is None:
        return [(m.st.copy(), None, None)]
    r = m.st.canon(m.reply)
    if not is_result(r):
        return [(m.st.copy(), "Ok", r)]
    out = []
    for s, v in m.st.copy().variant(r):
        r2 = s.canon(r)
        out.append((s, "Ok" if v == 0 else "Err", fld(r2, v, 0, r.ty.fields(v)[0][1])))
    return out


def errors(s, e):
    """[(state, variant name, View)] of an error value"""
    e = s.canon(e)
    if e.ty is None or not e.ty.is_enum():
        return [(s, "?", View(e))]
    return [(s2, e.ty.variants[v][0], View(s2.canon(e), v)) for s2, v in s.variant(e)]


def natv(s, t):
    """integer inside a candid Nat"""
    t = s.canon(t)
    return t.a[0] if t.op == "nat" else mk("natval", t)


def same_nat(s, t, n):
    t = s.canon(t)
    return t.op == "nat" and same(s, t.a[0], n)


def num(s, nat, bits=128):
    """[(state, integer or None)] : a request's Nat as an integer, None if too large"""
    n = s.canon(View(nat).t if isinstance(nat, View) else fld(nat, 0, 0))
    t = mk("to_u%d" % bits, n)
    out = []
    wide = mk("to_u128", n)
    if bits == 64 and wide in s.f.var and t not in s.f.var:
        # the code asked for 128 bits: whether 64 suffice follows from that number
        for s2, v in s.variant(wide, 2):
            if v == 0:
                out.append((s2, None))
                continue
            x = fld(s2.canon(wide), 1, 0)
            for s3, fits in s2.fork(ge0(sub(K((1 << 64) - 1), s2.canon(x)))):
                out.append((s3, x if fits else None))
        return out
    for s2, v in s.variant(t, 2):
        out.append((s2, None if v == 0 else fld(s2.canon(t), 1, 0)))
    return out


def acc(view):
    """(owner, subaccount) of an Account term"""
    v = View(view)
    return (v.owner, v.subaccount)


def key(a):
    return tup(a[0], models.effsub(a[1]))


def same_acc(s, t, a):
    """the Account term t names exactly account a, spelled the same way"""
    return same(s, acc(t)[0], a[0]) and same(s, acc(t)[1], a[1])


CALLER = mk("sym", "caller")


class Req:
    """what an update call asks for: read off its argument and caller"""
    __slots__ = ("root", "kind", "frm", "to", "spender", "amount", "fee", "memo", "cat", "arg", "expected", "expires")


def argument(i=0):
    """an argument of the endpoint as its caller encoded it"""
    t = mk("sym", "arg")
    if t.ty is None or t.ty.k != "tuple" or i >= len(t.ty.elems):
        raise Gap("the endpoint's argument is not decoded the usual way")
    return View(fld(t, 0, i, t.ty.elems[i]))


def request(o, root=None):
    root = root or o.root
    r = Req()
    r.root, r.arg = root, None
    r.spender = r.fee = r.memo = r.to = r.expected = r.expires = r.frm = None
    r.cat = None
    if root.startswith("canister_"):
        r.kind = None
        return r
    a = r.arg = argument()
    if root == "icrc1_transfer":
        r.kind, r.frm, r.to = "xfer", (CALLER, a.from_subaccount), acc(a.to)
    elif root == "icrc2_transfer_from":
        r.kind, r.frm, r.to, r.spender = "xfer", acc(getattr(a, "from")), acc(a.to), (CALLER, a.spender_subaccount)
    elif root == "icrc2_approve":
        r.kind, r.frm, r.spender = "approve", (CALLER, a.from_subaccount), acc(a.spender)
        r.expected, r.expires = a.expected_allowance, a.expires_at
    elif root == "withdraw":
        r.kind, r.frm, r.to = "withdraw", (CALLER, a.from_subaccount), a.to
    elif root == "withdraw_from":
        r.kind, r.frm, r.to, r.spender = "withdraw", acc(getattr(a, "from")), a.to, (CALLER, a.spender_subaccount)
    elif root == "create_canister":
        r.kind, r.frm = "create", (CALLER, a.from_subaccount)
    elif root == "create_canister_from":
        r.kind, r.frm, r.spender = "create", acc(getattr(a, "from")), (CALLER, a.spender_subaccount)
    elif root == "deposit":
        r.kind, r.to, r.frm = "deposit", acc(a.to), None
    else:
        r.kind = None
        return r
    if r.kind != "deposit":
        r.amount, r.cat = a.amount, a.created_at_time
    if r.kind in ("xfer", "approve"):
        r.fee = a.fee
    if r.kind in ("xfer", "approve", "deposit"):
        r.memo = a.memo
    return r


def by_self(s, r):
    """[(state, True if the payer acts for itself)]"""
    if r.spender is None or r.kind == "approve":
        return [(s, True)]
    return s.fork(eq(s.canon(key(r.frm)), s.canon(key(r.spender))))


def now_of(st):
    return mk("sym", "time:%d" % st.ep)


def entry(ip, s, approvals, k):
    """[(state, None | (amount, expiry))] an approval"""
    out = []
    oty = map_opt(ip, "approvals")
    for s2, v in lookup(ip, s, approvals, k, oty):
        if v is None:
            out.append((s2, None))
        else:
            vt = oty.variants[1][2][0][1]
            es = vt.elems if vt is not None and vt.k == "tuple" else (None, None)
            out.append((s2, (fld(v, 0, 0, es[0]), fld(v, 0, 1, es[1]))))
    return out


def live(s, e, now):
    """[(state, is the expiry e in the future (or none) at now)]"""
    out = []
    for s2, z in s.fork(eq0(s.canon(e))):
        if z:
            out.append((s2, True))
        else:
            out += s2.fork(lt(s2.canon(now), s2.canon(e)))
    return out


def in_force(ip, s, approvals, k, now):
    """[(state, amount, expiry)] of the allowance in force: (0, 0) if none or expired"""
    out = []
    for s2, x in entry(ip, s, approvals, k):
        if x is None:
            out.append((s2, K(0), K(0)))
            continue
        for s3, ok in live(s2, x[1], now):
            out.append((s3, s3.canon(x[0]), s3.canon(x[1])) if ok else (s3, K(0), K(0)))
    return out


def surviving(o, rep=None):
    """{loop: True} : an approval in force survives every iteration of the loop unchanged"""
    c = o.__dict__.get("_surv")
    if c is not None and rep is None:
        return c
    c, rp = {}, rep or rules.Rep(o.root)
    for m in each(rp, iterations(o)):
        mark = rp.mark()
        for p in pieces(m, ["approvals", "expiration_queue"]):
            s = m.st
            a0, a1, q0 = s.canon(p.b("approvals")), s.canon(p.f("approvals")), s.canon(p.b("expiration_queue"))
            if a0 is a1:
                continue
            loc = where(p, "approvals")
            b, ops = chain(a1)
            if not rp.check(b is a0, "prune: approvals change by key", loc, "approvals are replaced wholesale in a loop", s):
                continue
            for s1, ks in split_keys(s.copy(), [k for _, k, _ in ops]):
                for k in ks:
                    for s2, _ in _first_inv(o.ip, s1.copy(), s1.canon(k), s1.canon(a0), s1.canon(q0)):
                        for s3, old in entry(o.ip, s2, s2.canon(a0), s2.canon(k)):
                            if old is None:
                                continue
                            for s4, l in live(s3, old[1], now_of(s3)):
                                if not l:
                                    rp.ok("prune: removes only expired approvals", loc)
                                    continue
                                for s5, new in entry(o.ip, s4, s4.canon(a1), s4.canon(k)):
                                    rp.check(new is not None and same(s5, new[0], old[0]) and same(s5, new[1], old[1]), "prune: removes only expired approvals", loc,
                                             lambda: "the approval %s, still in force at %s, is removed or changed" % (sh(s5.canon(k)), sh(now_of(s5))), s5)
        if rp.failed(mark):
            c.setdefault("bad", set()).add(m.to.id)
    bad = {l for l in c.get("bad", ())}
    if rp.viol:
        bad |= {m.to.id for m in iterations(o) if any(v["site"] == where(pieces(m, ["approvals"])[0], "approvals") for v in rp.viol)}
    o._surv = {i.id: i.id not in bad for i in LOOPS if i is not None}
    return o._surv


def bridge(o, s, ps, i, k):
    """[states]: what pruning before piece i leaves of approval k: one in force is untouched, a dead one may be gone"""
    sts = [s]
    ok = surviving(o)
    for j in range(1, i + 1):
        if not havocs(ps[j].loops, "approvals") or not ok.get(ps[j].loops.id):
            continue
        nxt = []
        for s in sts:
            for s1, old in entry(o.ip, s, s.canon(ps[j - 1].f("approvals")), s.canon(k)):
                ls = [(s1, False)] if old is None else live(s1, old[1], now_of(s1))
                for s2, l in ls:
                    for s3, new in entry(o.ip, s2, s2.canon(ps[j].b("approvals")), s2.canon(k)):
                        if new is None:
                            if not l:
                                nxt.append(s3)
                            continue
                        if old is None:
                            continue
                        if s3.assume(eq0(sub(s3.canon(new[0]), s3.canon(old[0])))) and s3.assume(eq0(sub(s3.canon(new[1]), s3.canon(old[1])))):
                            nxt.append(s3)
        sts = nxt
    return sts


def appended(p):
    """blocks appended in a piece that covers `blocks`"""
    c = p.m.st.canon
    return logchain(c(p.f("blocks")), c(p.b("blocks")))[1]


def fee_of(p):
    """the fee the ledger advertises"""
    return p.__dict__.setdefault("_fee", None) or _fee(p)


def _fee(p):
    o = engine.run_root(p, key_of(p, "icrc1_fee"))
    vals = set()
    for e in o.ends:
        if e.kind == "ret":
            r = reply_of(e.st.ev)
            if r is not None and r.op == "nat" and r.a[0].op == "k":
                vals.add(r.a[0].a[0])
    if len(vals) != 1:
        raise Gap("the advertised fee is not a constant")
    p._fee = vals.pop()
    return p._fee


def listed(t):
    """elements of a list built from literals and pushes, or None"""
    if t.op == "push" and len(t.a) == 2:
        xs = listed(t.a[0])
        return None if xs is None else xs + [t.a[1]]
    if t.op == "app" and t.a[0] in ("into_vec", "to_vec") and len(t.a) == 2:
        return listed(t.a[1])
    if t.op == "upd":
        return listed(t.a[3])
    if t.op == "agg" and t.a[0] in ("array", "vec"):
        return list(t.a[2])
    if t.op == "agg" and len(t.a[2]) == 1:
        return listed(t.a[2][0])
    if t.op == "array":
        return list(t.a)
    return None


def advertised(p, name):
    """the number the metadata names"""
    c = p.__dict__.setdefault("_adv", {})
    if name not in c:
        vals = set()
        for entries in metadata(p):
            v = entries.get(name)
            vals.add(v.a[2][0].a[0].a[0] if v is not None and v.op == "agg" and v.a[2] and v.a[2][0].op == "nat" and v.a[2][0].a[0].op == "k" else None)
        if len(vals) != 1 or None in vals:
            raise Gap("the advertised %s is not a constant" % name)
        c[name] = vals.pop()
    return c[name]


def metadata(p):
    """[{key: value term}] : what the metadata query can answer"""
    c = p.__dict__.get("_meta")
    if c is None:
        c = []
        o = engine.run_root(p, key_of(p, "icrc1_metadata"))
        for e in o.ends:
            if e.kind != "ret":
                continue
            xs = listed(reply_of(e.st.ev))
            if xs is None or any(x.op != "agg" or len(x.a[2]) != 2 or x.a[2][0].op != "s" for x in xs):
                raise Gap("the metadata is not a list of literal keys")
            c.append({x.a[2][0].a[0]: x.a[2][1] for x in xs})
        p._meta = c
    return c


# ------------------------------------------------------------------ C03
def rule_chain(o, rep):
    """appended blocks extend one hash chain; tip, tree and certified data follow"""
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["blocks", "cache.phash", "cache.hash_tree"]):
            s = m.st
            l0, l1 = s.canon(p.b("blocks")), s.canon(p.f("blocks"))
            h0, h1 = s.canon(p.b("cache.phash")), s.canon(p.f("cache.phash"))
            t0, t1 = s.canon(p.b("cache.hash_tree")), s.canon(p.f("cache.hash_tree"))
            certs = [s.canon(e.a[1]) for e in p.ev if e.a[0] == "certify"]
            loc = where(p, "blocks", "cache.phash", "cache.hash_tree")
            base, xs = logchain(l1, l0)
            if not rep.check(base is l0, "chain: append only", loc, "the block log is not extended by appending", s):
                continue
            if not xs:
                rep.check(h1 is h0 and t1 is t0, "chain: tip unchanged without a block", loc, "the tip or its tree changes although no block is appended", s)
                for c in certs:
                    rep.check(_root(c) is t0, "chain: certificate unchanged without a block", loc, "certified data changes although no block is appended", s)
                continue
            prev, last = h0, None
            for x in xs:
                b = View(unblock(x))
                ph = s.canon(b.phash)
                if last is None:
                    rep.check(same(s, ph, prev), "chain: parent hash of a new block", loc,
                              lambda: "the block's parent hash is %s, not the hash of the last block %s" % (sh(ph), sh(prev)), s)
                else:
                    ok = ph.op == "agg" and ph.a[1] == 1 and _hash(ph.a[2][0]) is unblock(last)
                    rep.check(ok, "chain: parent hash of a further block", loc, lambda: "parent hash %s is not the hash of the block appended just before" % sh(ph), s)
                last = s.canon(x)
            last = unblock(last)
            rep.check(h1.op == "agg" and h1.a[1] == 1 and _hash(h1.a[2][0]) is last, "chain: tip is the last block", loc,
                      lambda: "the cached tip hash is %s" % sh(h1), s)
            content, t = {}, t1
            while t.op == "tins":
                content.setdefault(_lit(t.a[1]), t.a[2])
                t = t.a[0]
            rep.check(t is t0 or t.op == "emptytree", "chain: tree holds nothing else", loc, "the hash tree is built on %s" % sh(t), s)
            rep.check(set(content) == {"last_block_index", "last_block_hash"}, "chain: tree labels", loc, "the hash tree gets labels %s" % sorted(map(str, content)), s)
            ix = content.get("last_block_index")
            n = add(models.length(l0), K(len(xs) - 1)) if hasattr(models, "length") else add(mk("len", l0), K(len(xs) - 1))
            rep.check(ix is not None and ix.op == "leb" and same(s, ix.a[0], n), "chain: certified index is the last block's", loc,
                      lambda: "certified index %s, last block is %s" % (sh(ix) if ix else "none", sh(n)), s)
            hh = content.get("last_block_hash")
            rep.check(hh is not None and _hash(hh) is last, "chain: certified hash is the last block's", loc, lambda: "certified hash %s" % (sh(hh) if hh else "none"), s)
            rep.check(bool(certs) and _root(certs[-1]) is t1, "chain: certified data is the root of the tree", loc,
                      "certified data is not set to the root of the tree with the last block", s)


def _hash(t):
    return t.a[0] if t.op == "hash" else None


def _root(t):
    return t.a[1] if t.op == "app" and t.a[0] == "roothash" else None


def _lit(t):
    return t.a[0] if t.op == "s" else t


# ------------------------------------------------------------------ C04
def rule_refused(o, rep):
    """a request refused before any outbound call changes nothing"""
    for m in each(rep, messages(o)):
        if m.seg is not None or m.kind != "ret":
            continue
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            names = "|".join(n for _, n, _ in errors(s.copy(), e))
            for p in pieces(m, LEDGER):
                changed = [f for f in LEDGER if s.canon(p.b(f)) is not s.canon(p.f(f))]
                rep.check(not changed, "refused: nothing changes", where(p, *changed) if changed else m.loc,
                          lambda: "the request is refused with %s after %s changed" % (names, ", ".join(changed)), s)
            for i, st in enumerate(m.stages):
                if st.loop is not None and i > 0:
                    ch = [f for f in ("balances", "blocks", "cache", "config") if havocs(st.loop, f)]
                    rep.check(not ch, "refused: loops change nothing", st.loc, lambda: "the request is refused with %s after a loop changed %s" % (names, ch), s)


# ------------------------------------------------------------------ C05
def rule_overdraw(o, rep):
    fee = fee_of(o.p)
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["balances"]):
            base, final = p.b("balances"), p.f("balances")
            if base is final:
                continue
            loc = where(p, "balances")
            for s, rows in map_delta(o.ip, m.st.copy(), base, final):
                for k, old, new in rows:
                    new = s.canon(new)
                    rep.check(s.val(ge0(new)) is True and s.val(ge0(sub(K(U128), new))) is True and not wraps(new), "overdraw: balance stays in range", loc,
                              lambda: "the balance of %s becomes %s, which is not shown to lie in range" % (sh(k), sh(new)), s)
    r = request(o)
    if r.kind in (None, "deposit"):
        return
    for m in each(rep, messages(o)):
        if m.seg is not None:
            continue
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            for s2, name, v in errors(s, e):
                if name != "InsufficientFunds":
                    continue
                for s3, b in balance(o.ip, s2, s2.canon(m.field("balances", False)), s2.canon(key(r.frm))):
                    b = s3.canon(b)
                    rep.check(same_nat(s3, v.balance, b), "overdraw: reported balance is the payer's", m.loc,
                              lambda: "InsufficientFunds reports %s, the payer holds %s" % (sh(s3.canon(v.balance)), sh(b)), s3)
                    for s4, n in ([(s3, K(0))] if r.kind == "approve" else num(s3, r.amount)):
                        if n is None:
                            rep.ok("overdraw: refused because the amount is beyond any balance", m.loc)
                            continue
                        rep.check(s4.val(lt(s4.canon(b), add(s4.canon(n), K(fee)))) is True, "overdraw: refused only if short of funds", m.loc,
                                  lambda: "InsufficientFunds although the balance %s may cover %s plus the fee" % (sh(b), sh(n)), s4)


def wraps(t):
    return any(x.op == "wrap" for x in subterms(t, set()))


# ------------------------------------------------------------------ C06 / C24
def op_messages(o):
    """messages from entry (to the reply or to the first outbound call)"""
    return [m for m in messages(o) if m.seg is None]


def rule_allowance(o, rep):
    """third-party spending consumes a sufficient, unexpired allowance of exactly that pair"""
    r = request(o)
    if r.kind not in ("xfer", "withdraw", "create"):
        return
    fee = fee_of(o.p)
    for m in each(rep, op_messages(o)):
        ps = pieces(m, ["balances", "approvals", "blocks"])
        for i, p in enumerate(ps):
            xs = appended(p)
            a0, a1 = p.b("approvals"), p.f("approvals")
            c = m.st.canon
            if not xs and c(a0) is c(a1) and c(p.b("balances")) is c(p.f("balances")):
                continue
            loc = where(p, "approvals", "balances")
            b, ops = chain(m.st.canon(a1))
            if not rep.check(b is m.st.canon(a0), "allowance: approvals change by key", loc, "the approvals are replaced wholesale", m.st):
                continue
            for s, own in by_self(m.st.copy(), r):
                if own:
                    rep.check(not ops, "allowance: none consumed when acting for oneself", loc, "an approval changes although the payer acts for itself", s)
                    continue
                pk = tup(key(r.frm), key(r.spender))
                for s1, ks in split_keys(s, [pk] + [k for _, k, _ in ops]):
                    for k in ks[1:]:
                        rep.bad("allowance: no other approval changes", loc, "the approval for %s changes" % sh(k), s1)
                    for s2, old in [y for x in bridge(o, s1, ps, i, pk) for y in entry(o.ip, x, x.canon(a0), x.canon(pk))]:
                        if not rep.check(old is not None, "allowance: an approval exists", loc, "funds are spent for another account without an approval", s2):
                            continue
                        for s3, n in num(s2, r.amount):
                            if not rep.check(n is not None, "allowance: amount is representable", loc, "an amount beyond 2^128 is spent", s3):
                                continue
                            due = add(n, K(fee))
                            now = now_of(s3)
                            c = s3.canon
                            rep.check(s3.val(le(c(due), c(old[0]))) is True, "allowance: covers amount plus fee", loc,
                                      lambda: "the allowance %s is not shown to cover %s" % (sh(c(old[0])), sh(c(due))), s3)
                            for s4, ok in live(s3.copy(), old[1], now):
                                rep.check(ok, "allowance: not expired", loc, lambda: "an approval that expired at %s is spent" % sh(s4.canon(old[1])), s4)
                            for s4, z in s3.fork(eq0(sub(c(old[0]), c(due)))):
                                for s5, new in entry(o.ip, s4, s4.canon(a1), s4.canon(pk)):
                                    if z:
                                        rep.check(new is None or same(s5, new[0], K(0)), "allowance: used up", loc, "a used up allowance remains", s5)
                                    else:
                                        rep.check(new is not None and same(s5, new[0], sub(old[0], due)) and same(s5, new[1], old[1]),
                                                  "allowance: reduced by amount plus fee, expiry kept", loc,
                                                  lambda: "the approval (%s, %s) becomes %s" % (sh(old[0]), sh(old[1]), new and (sh(s5.canon(new[0])), sh(s5.canon(new[1])))), s5)


def rule_authority(o, rep):
    """balances fall, and approvals are given, only by right of the caller"""
    r = request(o)
    ip = o.ip
    for m in each(rep, messages(o)):
        for p in pieces(m, ["balances"]):
            base, final = p.b("balances"), p.f("balances")
            if base is final:
                continue
            loc = where(p, "balances")
            for s, rows in map_delta(ip, m.st.copy(), base, final):
                for k, old, new in rows:
                    d = sub(s.canon(new), s.canon(old))
                    if s.val(ge0(d)) is True:
                        rep.ok("authority: balance grows", loc)
                        continue
                    if r.kind is None and not o.root.startswith("canister_"):
                        mine = same(s, fld(k, 0, 0), CALLER)
                        if not mine and any(same(s, fld(k2, 0, 0), k) for _, k2, _ in chain(s.canon(m.field("approvals")))[1]):
                            raise Gap("an endpoint not known spends on an approval")
                        rep.check(mine, "authority: an endpoint not known only debits its caller", loc, lambda: "the account %s is debited" % sh(k), s)
                        continue
                    if not rep.check(r.frm is not None, "authority: only operations with a payer debit", loc, "an account is debited", s):
                        continue
                    ok = rep.check(same(s, k, key(r.frm)), "authority: only the payer is debited", loc,
                                   lambda: "the balance of %s falls, the payer is %s" % (sh(s.canon(k)), sh(s.canon(key(r.frm)))), s)
                    if ok and r.spender is None:
                        rep.check(same(s, tup(r.frm[0]), tup(CALLER)), "authority: the payer is the caller", loc, "the payer is not owned by the caller", s)
                    elif ok and r.kind == "approve":
                        rep.check(same(s, r.frm[0], CALLER), "authority: the payer is the caller", loc, "the payer is not owned by the caller", s)
                    elif ok:
                        for s2, own in by_self(s.copy(), r):
                            if own:
                                rep.check(same(s2, r.frm[0], CALLER), "authority: the payer is the caller", loc, "the payer is not owned by the caller", s2)
                            else:
                                rep.ok("authority: on behalf of the payer (see allowance)", loc)
    for m in each(rep, messages(o)):
        for p in pieces(m, ["approvals"]):
            a0, a1 = m.st.canon(p.b("approvals")), m.st.canon(p.f("approvals"))
            if a0 is a1:
                continue
            loc = where(p, "approvals")
            b, ops = chain(a1)
            for op, k, v in ops:
                if op != "ins":
                    continue
                s = m.st
                if r.kind is None and not o.root.startswith("canister_"):
                    rep.check(same(s, fld(fld(k, 0, 0), 0, 0), CALLER), "authority: an endpoint not known only gives its caller's approvals", loc, lambda: "an approval is written for %s" % sh(k), s)
                    continue
                if r.kind is None or r.frm is None or r.spender is None:
                    rep.bad("authority: approvals written by this endpoint", loc, "an approval is written for %s" % sh(k), s)
                    continue
                rep.check(same(s, k, tup(key(r.frm), key(r.spender))), "authority: approvals written for payer and spender", loc,
                          lambda: "an approval is written for %s" % sh(k), s)


def rule_spender(o, rep):
    """who acts for another account has an approval of it that is in force"""
    rep.only = ("allowance: an approval exists", "allowance: not expired")
    try:
        rule_allowance(o, rep)
    finally:
        rep.only = None


def rule_readonly(o, rep):
    """a query changes nothing"""
    hit = False
    for e in o.ends:
        for x in e.st.ev:
            if x.a[0] in ("mut", "write"):
                hit = True
                rep.bad("readonly: a query changes nothing", x.a[5 if x.a[0] == "mut" else 4].a[0], "%s changes %s" % (o.root, x.a[1].a[0]), e.st)
    if not hit:
        rep.ok("readonly: a query changes nothing", o.ip.p.funcs[key_of(o.p, o.root)].loc)


# ------------------------------------------------------------------ C08
def queue_facts(ip, s):
    """what the invariant says about the first queue entry: its approval exists and carries its expiry"""
    return s


def member(s, m, k):
    """[(state, is the key in the set)]; unknown base membership is given as the term `get(base, key)`"""
    ops = []
    while m.op in ("ins", "rem"):
        ops.append((m.op, m.a[1]))
        m = m.a[0]
    out = []

    def go(s, i):
        if i == len(ops):
            out.append((s, m))
            return
        for s2, v in s.fork(eq(s.canon(ops[i][1]), s.canon(k))):
            if v:
                out.append((s2, ops[i][0] == "ins"))
            else:
                go(s2, i + 1)
    go(s, 0)
    return out


def rule_queue(o, rep):
    """the expiry queue mirrors the approvals"""
    ip = o.ip
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["approvals", "expiration_queue"]):
            s = m.st
            a0, a1 = s.canon(p.b("approvals")), s.canon(p.f("approvals"))
            q0, q1 = s.canon(p.b("expiration_queue")), s.canon(p.f("expiration_queue"))
            if a0 is a1 and q0 is q1:
                rep.ok("queue: nothing changes")
                continue
            loc = where(p, "approvals", "expiration_queue")
            ab, aops = chain(a1)
            qb, qops = chain(q1)
            if not rep.check(ab is a0 and qb is q0, "queue: both change by key", loc, "the approvals or the queue are replaced wholesale", s):
                continue
            keys = [k for _, k, _ in aops] + [fld(k, 0, 1) for _, k, _ in qops]
            for s1, ks in split_keys(s.copy(), keys):
                for k in ks:
                    _queue_key(ip, rep, s1.copy(), s1.canon(k), a0, a1, q0, q1, qops, loc)


def rule_stale(o, rep):
    """no queue entry stands for an approval that does not expire then"""
    rep.only = ("queue: no stale entry",)
    try:
        rule_queue(o, rep)
    finally:
        rep.only = None


def _queue_key(ip, rep, s, k, a0, a1, q0, q1, qops, loc):
    # invariant before: (e, k) queued <=> approval of k present with expiry e > 0
    for s, first_known in _first_inv(ip, s, k, s.canon(a0), s.canon(q0)):
        for s2, old in entry(ip, s, s.canon(a0), s.canon(k)):
            olds = [(s2, None)] if old is None else [(x, None if z else s_c(x, old[1])) for x, z in s2.fork(eq0(s2.canon(old[1])))]
            for s3, e0 in olds:
                for s4, new in entry(ip, s3, s3.canon(a1), s3.canon(k)):
                    news = [(s4, None)] if new is None else [(x, None if z else s_c(x, new[1])) for x, z in s4.fork(eq0(s4.canon(new[1])))]
                    for s5, e1 in news:
                        cand = [e for e in (e0, e1) if e is not None] + [fld(q, 0, 0) for _, q, _ in qops if same(s5, fld(q, 0, 1), k)]
                        for s6, es in split_keys(s5.copy(), cand):
                            for e in es:
                                e = s6.canon(e)
                                for s7, mem in member(s6.copy(), s6.canon(q1), tup(e, s6.canon(k))):
                                    if mem is True or mem is False:
                                        got = mem
                                    else:
                                        if e0 is None:
                                            got = False
                                        else:
                                            v = s7.val(eq(s7.canon(e0), s7.canon(e)))
                                            got = v
                                    want = False if e1 is None else s7.val(eq(s7.canon(e1), s7.canon(e)))
                                    rep.check(got is not True or want is not False, "queue: no stale entry", loc, lambda: "for approval %s with expiry %s, a queue entry for %s is left" % (
                                        sh(s7.canon(k)), sh(s7.canon(e1)) if e1 is not None else "none", sh(s7.canon(e))), s7)
                                    rep.check(got is not None and got == want, "queue: entry iff the approval expires then", loc,
                                              lambda: "for approval %s with expiry %s afterwards, a queue entry for %s is %s" % (
                                                  sh(s7.canon(k)), sh(s7.canon(e1)) if e1 is not None else "none", sh(s7.canon(e)),
                                                  "present" if got else "missing" if got is False else "undecided"), s7)


def s_c(s, t):
    return s.canon(t)


def _first_inv(ip, s, k, a0, q0):
    """adds what the invariant gives for first(queue): the approval it names exists with that expiry"""
    f = mk("first", q0)
    vs = s.f.var.get(f)
    if vs is None or vs != frozenset({1}):
        return [(s, False)]
    item = fld(f, 1, 0)
    kt = fld(item, 0, 0)
    e, fk = fld(kt, 0, 0), fld(kt, 0, 1)
    out = []
    for s2, v in s.fork(eq(s.canon(fk), s.canon(k))):
        if not v:
            out.append((s2, False))
            continue
        for s3, old in entry(ip, s2, s2.canon(a0), s2.canon(k)):
            if old is None:
                continue
            if s3.assume(eq0(sub(s3.canon(old[1]), s3.canon(e)))) and s3.assume(ge0(add(s3.canon(e), K(-1)))):
                out.append((s3, True))
    return out
