"""Rules about what each operation records, refuses, sends out and pays back."""
from r_ledger import *
import r_ledger
import re

XFER, APPROVE, WITHDRAW, CREATE = "xfer", "approve", "withdraw", "create"
OPNAME = {"xfer": "Transfer", "approve": "Approve", "withdraw": "Burn", "create": "Burn", "deposit": "Mint"}
CODES = {"denied": 100001, "zero": 100002, "expired": 100003}


# ------------------------------------------------------------------ helpers
def equal(s, a, b, depth=6):
    """are the two values equal in every case?"""
    a, b = s.canon(a), s.canon(b)
    if same(s, a, b):
        return True
    ty = a.ty if a.ty is not None and a.ty.k == "adt" else b.ty
    if depth and ty is not None and ty.k == "adt" and ty.is_enum() and ty.nvar() <= 8:
        if a.ty is None or b.ty is None:
            return False
        for s2, v in s.copy().variant(a):
            for s3, w in s2.variant(s2.canon(b)):
                if v != w:
                    return False
                x, y = s3.canon(a), s3.canon(b)
                for i, f in enumerate(ty.fields(v) or ()):
                    if not equal(s3, fld(x, v, i, f[1]), fld(y, v, i, f[1]), depth - 1):
                        return False
        return True
    if depth and a.op == "agg" and b.ty is not None and (b.ty.fields() or b.ty.k == "tuple"):
        fs = b.ty.fields() or [(str(i), t) for i, t in enumerate(b.ty.elems)]
        if len(fs) == len(a.a[2]):
            return all(equal(s, x, fld(b, a.a[1], i, fs[i][1]), depth - 1) for i, x in enumerate(a.a[2]))
    if depth and b.op == "agg" and a.op != "agg":
        return equal(s, b, a, depth - 1)
    return False


def optnat(s, t):
    """[(state, None | "big" | integer)] of an optional Nat"""
    out = []
    for s2, x in opt(s, s.canon(t)):
        if x is None:
            out.append((s2, None))
        else:
            out += [(s3, "big" if n is None else n) for s3, n in num(s2, x)]
    return out


def denied(owner):
    """the owner is the management canister"""
    z = agg("array", 0, tuple(K(0) for _ in range(29)))
    return and_(eq0(fld(owner, 0, 0, owner.ty.fields()[0][1])), eq(z, fld(owner, 0, 1, owner.ty.fields()[1][1])))


def selfauth(to):
    """29 bytes, the last of which is 2"""
    b = mk("bytesof", to)
    return and_(ge0(add(mk("len", to), K(-29))), eq0(add(mk("elem", b, K(28)), K(-2))))


def roles(r):
    return [a for a in (r.frm, r.to if r.kind in ("xfer", "deposit") else None, r.spender) if a is not None]


def amount_of(s, r):
    """[(state, integer | None)] : the amount a request names; None if too large to represent"""
    return num(s, r.amount)


def new_blocks(m, p):
    return [m.st.canon(x) for x in appended(p)]


def op_blocks(o, m):
    """all blocks the message appends, and the log they are appended to"""
    c = m.st.canon
    b, xs = logchain(c(m.field("blocks")), c(m.field("blocks", False)))
    return c(m.field("blocks", False)), xs


# ------------------------------------------------------------------ C14
def rule_record(o, rep):
    """blocks record the request and the time; the reply names the block"""
    ip = o.ip
    r = request(o)
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["blocks"]):
            for x in new_blocks(m, p):
                b = View(unblock(x))
                rep.check(same(m.st, b.timestamp, now_of(m.st)), "record: timestamp is the time of the message", where(p, "blocks"),
                          lambda: "the block's timestamp is %s" % sh(m.st.canon(b.timestamp)), m.st)
    if r.kind is None:
        return
    for m in each(rep, messages(o)):
        l0, xs = op_blocks(o, m)
        loc = where(pieces(m, ["blocks"])[-1], "blocks")
        if m.seg is None:
            if not rep.check(len(xs) <= 1, "record: one block per request", loc, "%d blocks are appended for one request" % len(xs), m.st):
                continue
            for x in xs:
                for s, name, op, tx, b in ops_of(m.st.copy(), x):
                    if rep.check(name == OPNAME[r.kind], "record: kind of operation", loc, "a %s block is appended by %s" % (name, o.root), s):
                        _fields(o, rep, s, r, op, tx, loc)
        if m.kind != "ret":
            continue
        for s, kind, v in outcome(m):
            if kind != "Ok":
                continue
            v = s.canon(v)
            if r.kind == "create":
                v = s.canon(View(v).block_id)
            elif r.kind == "deposit":
                v = s.canon(View(v).block_index)
            if m.seg is None:
                want = models.seq_len(l0) if xs else None
                if r.kind in ("withdraw", "create"):
                    rep.bad("record: success only after the call", m.loc, "success is reported without the outbound call", s)
                    continue
            else:
                want = models.seq_len(get_field(base_state(ip, 0), "blocks"))
            rep.check(want is not None and same_nat(s, v, want), "record: reply names the block", m.loc,
                      lambda: "the reply names block %s, the block of this request is %s" % (sh(v), sh(want) if want else "none"), s)


def _fields(o, rep, s0, r, op, tx, loc):
    a = r.arg

    def chk(cond, what, got, s):
        rep.check(cond, "record: %s as requested" % what, loc, lambda: "the block records %s as %s" % (what, sh(s.canon(got))), s)
    acct = (lambda t: (View(t).owner, View(t).subaccount))
    if r.kind == "deposit":
        chk(same_acc(s0, s0.canon(op.to), r.to), "recipient", op.to, s0)
        chk(equal(s0, tx.memo, r.memo), "memo", tx.memo, s0)
        for s, c in opt(s0.copy(), tx.created_at_time):
            chk(c is None, "creation time", tx.created_at_time, s)
        return
    frm = getattr(op, "from")
    chk(same_acc(s0, s0.canon(frm), r.frm), "payer", frm, s0)
    if r.kind == "xfer":
        chk(same_acc(s0, s0.canon(op.to), r.to), "recipient", op.to, s0)
    if r.kind == "approve":
        chk(same_acc(s0, s0.canon(op.spender), r.spender), "spender", op.spender, s0)
        chk(equal(s0, op.expires_at, r.expires), "expiry", op.expires_at, s0)
        for s, e in optnat(s0.copy(), r.expected):
            for s2, g in opt(s, s.canon(op.expected_allowance)):
                chk(e == "big" or (g is None) == (e is None) and (e is None or same(s2, g, e)), "expected allowance", op.expected_allowance, s2)
    else:
        for s, g in opt(s0.copy(), op.spender):
            if r.spender is None:
                chk(g is None, "spender", op.spender, s)
            else:
                chk(g is not None and same_acc(s, s.canon(g), r.spender), "spender", op.spender, s)
    for s, n in amount_of(s0.copy(), r):
        if r.kind == "approve" and n is None:
            n = K(U128)
        chk(n is not None and same(s, op.amount, n), "amount", op.amount, s)
    if r.kind in ("xfer", "approve"):
        chk(equal(s0, tx.memo, r.memo), "memo", tx.memo, s0)
        for s, f in optnat(s0.copy(), r.fee):
            for s2, g in opt(s, s.canon(op.fee)):
                chk(f != "big" and (g is None) == (f is None) and (f is None or same(s2, g, f)), "fee", op.fee, s2)
    elif r.kind == "withdraw":
        chk(s0.canon(r.to) in subterms(s0.canon(tx.memo), set()), "receiver (memo)", tx.memo, s0)
    chk(equal(s0, tx.created_at_time, r.cat), "creation time", tx.created_at_time, s0)


# ------------------------------------------------------------------ C16
def rule_forbidden(o, rep):
    """forbidden parties and receivers never take part"""
    r = request(o)
    if r.kind not in ("xfer", "approve", "withdraw"):
        return
    for m in each(rep, op_messages(o)):
        l0, xs = op_blocks(o, m)
        if xs:
            s, loc = m.st, where(pieces(m, ["blocks"])[-1], "blocks")
            if r.kind in ("xfer", "approve"):
                for what, a in (("payer", r.frm), ("recipient", r.to), ("spender", r.spender)):
                    if a is not None:
                        rep.check(s.val(s.canon(denied(a[0]))) is False, "forbidden: %s is not the management canister" % what, loc,
                                  "the request is executed although the %s may be owned by the management canister" % what, s)
            else:
                to = s.canon(r.to)
                rep.check(s.val(s.canon(selfauth(to))) is False or _not_selfauth(s, to), "forbidden: receiver is not self-authenticating", loc,
                          "cycles are withdrawn to a receiver that may be self-authenticating", s)
                for s2, n in amount_of(s.copy(), r):
                    rep.check(n is not None and s2.val(eq0(s2.canon(n))) is False, "forbidden: amount is not zero", loc, "a withdrawal of zero cycles is executed", s2)
        if m.kind != "ret":
            continue
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            for s2, name, v in errors(s, e):
                if name == "InvalidReceiver":
                    rep.check(same(s2, v.receiver, r.to), "forbidden: refusal names the receiver", m.loc, "InvalidReceiver names another principal", s2)
                    to = s2.canon(r.to)
                    rep.check(s2.val(s2.canon(selfauth(to))) is True or _is_selfauth(s2, to), "forbidden: only self-authenticating receivers are invalid", m.loc,
                              "InvalidReceiver although the receiver may be a canister", s2)
                elif name == "GenericError":
                    c = s2.canon(v.error_code)
                    if c.op == "nat" and c.a[0] is K(CODES["denied"]) and r.kind in ("xfer", "approve"):
                        rep.check(any(s2.val(s2.canon(denied(a[0]))) is True for a in roles(r)), "forbidden: denied only for the management canister", m.loc,
                                  "refused as a denied owner although no party is the management canister", s2)
                    elif c.op == "nat" and c.a[0] is K(CODES["zero"]) and r.kind == "withdraw":
                        for s3, n in amount_of(s2.copy(), r):
                            rep.check(n is not None and s3.val(eq0(s3.canon(n))) is True, "forbidden: zero refusal only for zero", m.loc,
                                      "refused as a withdrawal of zero although the amount may not be zero", s3)


def _last(s, to):
    """what is known about the length and last byte of a principal"""
    n = mk("len", to)
    return n, s.canon(mk("elem", mk("bytesof", to), K(28)))


def _not_selfauth(s, to):
    n, b = _last(s, to)
    return s.val(ge0(add(s.canon(n), K(-29)))) is False or s.val(eq0(add(b, K(-2)))) is False


def _is_selfauth(s, to):
    n, b = _last(s, to)
    return s.val(ge0(add(s.canon(n), K(-29)))) is True and (b is K(2) or s.val(eq0(add(b, K(-2)))) is True)


# ------------------------------------------------------------------ C17
def rule_fee(o, rep):
    """the advertised fee, recorded once; other fees are refused"""
    fee = fee_of(o.p)
    r = request(o)
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["blocks"]):
            loc = where(p, "blocks")
            for x in new_blocks(m, p):
                for s, name, op, tx, b in ops_of(m.st.copy(), x):
                    for s1, eff in opt(s, b.effective_fee):
                        if name in ("Transfer", "Approve"):
                            fs = opt(s1, s1.canon(op.fee))
                        elif name == "Burn":
                            fs = [(s1, None)]
                        else:
                            continue
                        for s2, f in fs:
                            if f is None:
                                rep.check(eff is not None and same(s2, eff, K(fee)), "fee: effective fee shown when none was given", loc,
                                          lambda: "a %s block without a fee shows effective fee %s" % (name, sh(s2.canon(eff)) if eff is not None else "none"), s2)
                            else:
                                rep.check(same(s2, f, K(fee)), "fee: given fee is the advertised one", loc,
                                          lambda: "a %s block with fee %s is appended" % (name, sh(s2.canon(f))), s2)
                                rep.check(eff is None, "fee: not shown twice", loc, "a %s block shows both a fee and an effective fee" % name, s2)
    if r.kind is None:
        return
    for m in each(rep, messages(o)):
        if m.seg is not None or m.kind != "ret":
            continue
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            for s2, name, v in errors(s, e):
                if name != "BadFee":
                    continue
                rep.check(same_nat(s2, v.expected_fee, K(fee)), "fee: refusal names the advertised fee", m.loc,
                          lambda: "BadFee names %s" % sh(s2.canon(v.expected_fee)), s2)
                if r.fee is None:
                    rep.bad("fee: refused only if it differs", m.loc, "BadFee although the request names no fee", s2)
                    continue
                for s3, f in optnat(s2.copy(), r.fee):
                    rep.check(f == "big" or f is not None and s3.val(eq0(sub(s3.canon(f), K(fee)))) is False, "fee: refused only if it differs", m.loc,
                              "BadFee although the fee given may be the advertised one", s3)


# ------------------------------------------------------------------ C18
def rule_deposit(o, rep):
    """a deposit takes everything attached and credits all but the fee"""
    fee = fee_of(o.p)
    r = request(o)
    avail = mk("sym", "cycles_available")
    for m in each(rep, messages(o)):
        acc_ev = [e for e in m.ev if e.a[0] == "accept"]
        loc = acc_ev[0].a[-1].a[0] if acc_ev and acc_ev[0].a[-1].op == "s" else m.loc
        if o.root != "deposit":
            rep.check(not acc_ev, "deposit: cycles are accepted nowhere else", loc, "cycles attached to this call are accepted", m.st)
            continue
        s = m.st
        got = K(0)
        for e in acc_ev:
            got = add(got, s.canon(e.a[1]))
        rep.check(same(s, got, avail), "deposit: takes everything attached", loc, lambda: "%s of %s attached cycles are accepted" % (sh(got), sh(avail)), s)
        l0, xs = op_blocks(o, m)
        if not rep.check(len(xs) == 1, "deposit: one mint block", m.loc, "a deposit succeeds with %d blocks" % len(xs), s):
            continue
        for s2, name, op, tx, b in ops_of(s.copy(), xs[0]):
            if not rep.check(name == "Mint", "deposit: one mint block", m.loc, "a deposit appends a %s block" % name, s2):
                continue
            rep.check(same(s2, op.amount, sub(avail, K(fee))), "deposit: credits all but the fee", m.loc,
                      lambda: "the amount credited is %s" % sh(s2.canon(op.amount)), s2)
            rep.check(same_acc(s2, s2.canon(op.to), r.to), "deposit: to the named account", m.loc, lambda: "the account credited is %s" % sh(s2.canon(op.to)), s2)
            rep.check(equal(s2, tx.memo, r.memo), "deposit: records the given memo", m.loc, lambda: "the memo recorded is %s" % sh(s2.canon(tx.memo)), s2)
            rep.check(s2.val(ge0(add(s2.canon(avail), K(-fee - 1)))) is True, "deposit: exceeds the fee", m.loc, "a deposit not exceeding the fee succeeds", s2)
            if m.kind == "ret":
                s3 = s2
                v = View(s3.canon(m.reply))
                rep.check(same_nat(s3, v.block_index, models.seq_len(l0)), "deposit: reports the new block", m.loc,
                          lambda: "the reply names block %s" % sh(s3.canon(v.block_index)), s3)
                fin = s3.canon(m.field("balances"))
                for s4, bal in balance(o.ip, s3.copy(), fin, s3.canon(key(r.to))):
                    rep.check(same_nat(s4, v.balance, bal), "deposit: reports the resulting balance", m.loc,
                              lambda: "the reply says %s, the balance is %s" % (sh(s4.canon(v.balance)), sh(s4.canon(bal))), s4)


# ------------------------------------------------------------------ C19
def rule_memo(o, rep):
    """no oversized memo is recorded"""
    for m in each(rep, transitions(o)):
        for p in pieces(m, ["blocks"]):
            loc = where(p, "blocks")
            for x in new_blocks(m, p):
                for s, name, op, tx, b in ops_of(m.st.copy(), x):
                    for s2, memo in opt(s, s.canon(tx.memo)):
                        if memo is None:
                            rep.ok("memo: none", loc)
                            continue
                        n = _blen(s2.canon(memo))
                        rep.check(any(s2.val(ge0(sub(K(memo_limit(o.p)), s2.canon(x)))) is True for x in n), "memo: within the limit", loc,
                                  lambda: "a block is appended whose memo %s is not shown to be within %d bytes" % (sh(s2.canon(memo)), memo_limit(o.p)), s2)


def memo_limit(p):
    return r_ledger.advertised(p, "icrc1:max_memo_length")


def _blen(memo):
    """candidate terms for the length of a memo's bytes"""
    out = []
    t = memo
    for _ in range(4):
        out.append(models.seq_len(t) if t.op in ("agg", "app", "fld", "sym", "upd", "mcbout") else mk("len", t))
        if t.ty is not None and t.ty.k == "adt" and not t.ty.is_enum() and t.ty.fields() and len(t.ty.fields()) <= 2:
            t = fld(t, 0, 0, t.ty.fields()[0][1])
        elif t.op == "agg" and t.a[2] and t.a[0] not in ("array", "vec"):
            t = t.a[2][0]
        else:
            break
    return out


# ------------------------------------------------------------------ C09 / C07
def rule_approve(o, rep):
    """approve sets what was asked, if it may"""
    r = request(o)
    if r.kind != "approve":
        return
    ip = o.ip
    for m in each(rep, op_messages(o)):
        ps = pieces(m, ["approvals", "blocks"])
        for i, p in enumerate(ps):
            xs = appended(p)
            s = m.st
            a0, a1 = s.canon(p.b("approvals")), s.canon(p.f("approvals"))
            if not xs and a0 is a1:
                continue
            loc = where(p, "approvals", "blocks")
            b, ops = chain(a1)
            if not rep.check(b is a0, "approve: approvals change by key", loc, "approvals are replaced wholesale", s):
                continue
            rep.check(s.val(eq(s.canon(r.frm[0]), s.canon(r.spender[0]))) is False, "approve: not oneself", loc, "an approval for oneself is accepted", s)
            pk = tup(key(r.frm), key(r.spender))
            for s1, ks in split_keys(s.copy(), [pk] + [k for _, k, _ in ops]):
                for k in ks[1:]:
                    rep.bad("approve: no other approval changes", loc, "the approval for %s changes" % sh(k), s1)
                now = now_of(s1)
                for s2, e in opt(s1, s1.canon(r.expires)):
                    if e is not None:
                        rep.check(s2.val(lt(s2.canon(now), s2.canon(e))) is True, "approve: expiry lies in the future", loc,
                                  lambda: "an approval expiring at %s is accepted" % sh(s2.canon(e)), s2)
                    for s3, n in amount_of(s2, r):
                        n = K(U128) if n is None else n
                        for s4, z in s3.fork(eq0(s3.canon(n))):
                            for s5, new in entry(ip, s4, s4.canon(a1), s4.canon(pk)):
                                if z:
                                    rep.check(new is None, "approve: zero leaves no approval", loc, "an approval of zero is kept", s5)
                                    continue
                                ok = new is not None and same(s5, new[0], n) and same(s5, new[1], K(0) if e is None else e)
                                rep.check(ok, "approve: exactly what was asked", loc, lambda: "the approval becomes %s" % (
                                    "absent" if new is None else "(%s, %s)" % (sh(s5.canon(new[0])), sh(s5.canon(new[1])))), s5)
                            for s5, x in optnat(s4.copy(), r.expected):
                                if x is None:
                                    continue
                                for s6 in [y for q in [s5] for y in bridge(o, q, ps, i, pk)]:
                                    for s7, cur, _ in in_force(ip, s6, s6.canon(ps[0].b("approvals")), s6.canon(pk), now):
                                        rep.check(x != "big" and same(s7, x, cur), "approve: expected allowance is the one in force", loc,
                                                  lambda: "accepted with expected allowance %s while %s is in force" % (x if x == "big" else sh(s7.canon(x)), sh(s7.canon(cur))), s7)
        if m.kind != "ret":
            continue
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            for s2, name, v in errors(s, e):
                now = now_of(s2)
                if name == "AllowanceChanged":
                    pk = s2.canon(tup(key(r.frm), key(r.spender)))
                    for s3, cur, _ in in_force(ip, s2, s2.canon(m.field("approvals", False)), pk, now):
                        rep.check(same_nat(s3, v.current_allowance, cur), "approve: refusal reports the allowance in force", m.loc,
                                  lambda: "AllowanceChanged reports %s, in force is %s" % (sh(s3.canon(v.current_allowance)), sh(s3.canon(cur))), s3)
                        for s4, x in optnat(s3.copy(), r.expected):
                            rep.check(x == "big" or x is not None and s4.val(eq0(sub(s4.canon(x), s4.canon(cur)))) is False,
                                      "approve: refused only if the expectation fails", m.loc, "AllowanceChanged although the expected allowance may be the one in force", s4)
                elif name == "Expired":
                    rep.check(same(s2, v.ledger_time, now), "approve: refusal names the ledger time", m.loc, "Expired names another time", s2)
                    for s3, x in opt(s2, s2.canon(r.expires)):
                        rep.check(x is not None and s3.val(le(s3.canon(x), s3.canon(now))) is True, "approve: refused only if already expired", m.loc,
                                  "Expired although the expiry may lie in the future", s3)


def rule_expiry_read(o, rep):
    """the allowance query shows the approval in force"""
    if o.root != "icrc2_allowance":
        return
    a = argument()
    for m in each(rep, messages(o)):
        if m.kind != "ret" or m.reply is None:
            continue
        s = m.st
        k = s.canon(tup(key(acc(s.canon(a.account))), key(acc(s.canon(a.spender)))))
        for s2, amt, exp in in_force(o.ip, s.copy(), s.canon(m.field("approvals", False)), k, now_of(s)):
            v = View(s2.canon(m.reply))
            rep.check(same_nat(s2, v.allowance, amt), "expiry: query shows the allowance in force", m.loc,
                      lambda: "the query answers %s, in force is %s" % (sh(s2.canon(v.allowance)), sh(amt)), s2)
            for s3, z in s2.fork(eq0(s2.canon(exp))):
                for s4, x in opt(s3, s3.canon(v.expires_at)):
                    rep.check((x is None) == z and (z or same(s4, x, exp)), "expiry: query shows the expiry in force", m.loc,
                              lambda: "the query answers expiry %s, in force is %s" % (sh(s4.canon(v.expires_at)), sh(s4.canon(exp))), s4)


def rule_allowance_refusal(o, rep):
    """refusals for lack of allowance tell the allowance in force"""
    r = request(o)
    if r.kind not in ("xfer", "withdraw", "create") or r.spender is None:
        return
    fee = fee_of(o.p)
    for m in each(rep, op_messages(o)):
        if m.kind != "ret":
            continue
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            for s2, name, v in errors(s, e):
                gen = name == "GenericError" and s2.canon(v.error_code).op == "nat" and s2.canon(v.error_code).a[0] is K(CODES["expired"])
                if name != "InsufficientAllowance" and not gen:
                    continue
                for s3, own in by_self(s2, r):
                    if not rep.check(not own, "allowance refusal: only when acting for another", m.loc, "%s although the payer acts for itself" % name, s3):
                        continue
                    pk = s3.canon(tup(key(r.frm), key(r.spender)))
                    a0 = s3.canon(m.field("approvals", False))
                    if gen:
                        for s4, x in entry(o.ip, s3, a0, pk):
                            if x is None:
                                rep.ok("allowance refusal: expired only if expired", m.loc)
                                continue
                            for s5, l in live(s4, x[1], now_of(s4)):
                                rep.check(not l, "allowance refusal: expired only if expired", m.loc, "refused as expired although the approval is in force", s5)
                        continue
                    for s4, cur, _ in in_force(o.ip, s3, a0, pk, now_of(s3)):
                        rep.check(same_nat(s4, v.allowance, cur), "allowance refusal: names the allowance in force", m.loc,
                                  lambda: "InsufficientAllowance names %s, in force is %s" % (sh(s4.canon(v.allowance)), sh(s4.canon(cur))), s4)
                        for s5, n in amount_of(s4.copy(), r):
                            rep.check(n is None or s5.val(lt(s5.canon(cur), add(s5.canon(n), K(fee)))) is True, "allowance refusal: only if it does not suffice", m.loc,
                                      "InsufficientAllowance although the allowance may suffice", s5)


# ------------------------------------------------------------------ C10 / C11
def request_tx(o, s, r, t):
    """does the Transaction term t say what the request says? reuses the recording rule"""
    rp = rules.Rep(o.root)
    for s2, v in s.copy().variant(s.canon(View(t).operation)):
        ot = s2.canon(View(t).operation)
        name = ot.ty.variants[v][0]
        if name != OPNAME[r.kind]:
            return False
        _fields(o, rp, s2, r, View(ot, v), View(s2.canon(t)), "")
    return not rp.viol


def rule_dedup(o, rep):
    """what is executed is remembered; what is remembered is refused"""
    ip = o.ip
    r = request(o)
    hty, tty = map_opt(ip, "transaction_hashes"), map_opt(ip, "transaction_timestamps")
    for m in each(rep, transitions(o)):
        if m.kind == "iter":
            continue
        ps = pieces(m, ["blocks", "transaction_hashes", "transaction_timestamps"])
        for i, p in enumerate(ps):
            s = m.st
            l0 = s.canon(p.b("blocks"))
            xs = appended(p)
            h0, h1 = s.canon(p.b("transaction_hashes")), s.canon(p.f("transaction_hashes"))
            t0, t1 = s.canon(p.b("transaction_timestamps")), s.canon(p.f("transaction_timestamps"))
            if not xs and h0 is h1 and t0 is t1:
                continue
            loc = where(p, "transaction_hashes", "transaction_timestamps", "blocks")
            hb, hops = chain(h1)
            tb, tops = chain(t1)
            if not rep.check(hb is h0 and tb is t0, "dedup: records change by key", loc, "the deduplication records are replaced wholesale", s):
                continue
            want_h, want_t = [], []
            sts = [(s.copy(), [], [])]
            for j, x in enumerate(xs):
                nxt = []
                tx = View(unblock(x)).transaction
                ix = add(models.seq_len(l0), K(j))
                for s1, hs, ts in sts:
                    for s2, c in opt(s1, s1.canon(View(s1.canon(tx)).created_at_time)):
                        nxt.append((s2, hs + ([(mk("hash", s2.canon(tx)), ix)] if c is not None else []), ts + ([(c, ix)] if c is not None else [])))
                sts = nxt
            for s1, hs, ts in sts:
                for h, ix in hs:
                    for s2, old in lookup(ip, s1.copy(), s1.canon(h0), s1.canon(h), hty):
                        rep.check(old is None, "dedup: not executed while remembered", loc, "a transaction is executed although it is remembered as executed", s2)
                    for s2, new in lookup(ip, s1.copy(), s1.canon(h1), s1.canon(h), hty):
                        ok = new is not None and same(s2, fld(s2.canon(new), 0, 0), ix)
                        rep.check(ok, "dedup: remembered under its hash with its block index", loc,
                                  lambda: "the transaction is remembered as %s" % (sh(s2.canon(new)) if new is not None else "nothing"), s2)
                        if ok:
                            for s3, can in opt(s2, s2.canon(fld(s2.canon(new), 0, 1, _can_ty(hty)))):
                                rep.check(can is None, "dedup: no canister before it is created", loc, "a canister is remembered before it was created", s3)
                for c, ix in ts:
                    mem = False
                    for s2, inn in _tmember(s1.copy(), s1.canon(t1), tup(c, ix)):
                        rep.check(inn, "dedup: filed under its creation time", loc, "the transaction is not filed under its creation time", s2)
                # nothing else is filed or forgotten
                for op, k, v in hops:
                    mine = any(same(s1, k, h) for h, _ in hs)
                    if mine:
                        continue
                    ok = _created(o, rep, m, s1, k, v, h0, hty) if op == "ins" and r.kind == "create" and m.seg is not None else False
                    rep.check(ok, "dedup: no other record changes", loc, lambda: "the record %s is %s" % (sh(k), "removed" if op == "rem" else "set to " + sh(v)), s1)
                for op, k, v in tops:
                    rep.check(op == "ins" and any(same(s1, k, tup(c, ix)) for c, ix in ts), "dedup: no other filing changes", loc,
                              lambda: "the filing %s is %s" % (sh(k), "removed" if op == "rem" else "added"), s1)
        if m.seg is None and m.kind == "ret" and r.kind not in (None, "deposit"):
            for s, kind, e in outcome(m):
                if kind != "Err":
                    continue
                for s2, name, v in errors(s, e):
                    if name == "Duplicate":
                        _duplicate(o, rep, m, s2, v, r, hty)


def rule_filed(o, rep):
    """what decides when a record may be forgotten is the creation time of its transaction"""
    rep.only = ("dedup: no other filing changes",)
    try:
        rule_dedup(o, rep)
    finally:
        rep.only = None


def _can_ty(hty):
    vt = hty.variants[1][2][0][1]
    return vt.elems[1] if vt is not None and vt.k == "tuple" else None


def _tmember(s, m, k):
    ops = []
    while m.op in ("ins", "rem"):
        ops.append((m.op, m.a[1]))
        m = m.a[0]
    for op, q in ops:
        v = s.val(eq(s.canon(q), s.canon(k)))
        if v is True:
            return [(s, op == "ins")]
        if v is None:
            return [(s, False)]
    return [(s, False)]


def _created(o, rep, m, s, k, v, h0, hty):
    """a creation that succeeded adds the new canister to the record of its own transaction"""
    if k.op != "hash" or v is None:
        return False
    can = created_canister(m, s)
    v = s.canon(v)
    ok = True
    for s2, old in lookup(o.ip, s.copy(), s.canon(h0), s.canon(k), hty):
        # the block it points to stays: it is that of this transaction, which only this request can have recorded
        ok = ok and old is not None and (same(s2, fld(v, 0, 0), models.seq_len(get_field(base_state(o.ip, 0), "blocks")))
                                         or same(s2, fld(v, 0, 0), fld(s2.canon(old), 0, 0)))
    ok = ok and request_tx(o, s, request(o), k.a[0])
    c = fld(v, 0, 1, _can_ty(hty))
    return ok and can is not None and c.op == "agg" and c.a[1] == 1 and same(s, c.a[2][0], can)


def created_canister(m, s):
    for s2, kind, v in outcome(m):
        if kind == "Ok":
            return s2.canon(View(v).canister_id)
    return None


def _duplicate(o, rep, m, s, v, r, hty):
    n = s.canon(v.duplicate_of)
    n = n.a[0] if n.op == "nat" else n
    # the record it names must be that of this very request
    g = None
    for x in subterms(n, set()):
        if x.op == "get" and x.a[1].op == "hash":
            g = x
    h = g.a[1] if g is not None else None
    ok = g is not None and s.canon(g.a[0]) is s.canon(m.field("transaction_hashes", False)) and same(s, n, fld(fld(g, 1, 0), 0, 0)) and request_tx(o, s, r, h.a[0])
    rep.check(ok, "dedup: refused as a duplicate of the remembered block of the same request", m.loc,
              lambda: "Duplicate names %s" % sh(n), s)
    if ok:
        for s2, c in opt(s.copy(), s.canon(View(h.a[0]).created_at_time)):
            if c is None:
                # a record without creation time cannot exist: only executed transactions with one are remembered
                continue
        if v.t.ty.field_index("canister_id", v.v) is not None:
            c = s.canon(v.canister_id)
            rep.check(same(s, c, fld(fld(g, 1, 0), 0, 1, _can_ty(hty))), "dedup: duplicate creation names the created canister", m.loc,
                      lambda: "Duplicate names canister %s" % sh(c), s)


def rule_window(o, rep):
    """accepted and remembered within the same window"""
    W = WINDOW + DRIFT
    r = request(o)
    for m in each(rep, transitions(o)):
        if m.kind == "iter":
            _forgets(o, rep, m, W)
            continue
        for p in pieces(m, ["blocks"]):
            loc = where(p, "blocks")
            for x in new_blocks(m, p):
                tx = View(View(unblock(x)).transaction)
                for s, c in opt(m.st.copy(), m.st.canon(tx.created_at_time)):
                    if c is None:
                        rep.ok("window: no creation time")
                        continue
                    now = now_of(s)
                    rep.check(s.val(ge0(sub(add(s.canon(c), K(W)), now))) is True, "window: not too old", loc, "a transaction too old may be executed", s)
                    rep.check(s.val(ge0(sub(add(now, K(DRIFT)), s.canon(c)))) is True, "window: not in the future", loc, "a transaction from too far in the future may be executed", s)
        if m.seg is not None or m.kind != "ret" or r.kind in (None, "deposit"):
            continue
        for s, kind, e in outcome(m):
            if kind != "Err":
                continue
            for s2, name, v in errors(s, e):
                if name not in ("TooOld", "CreatedInFuture"):
                    continue
                now = now_of(s2)
                for s3, c in opt(s2, s2.canon(r.cat)):
                    if name == "TooOld":
                        rep.check(c is not None and s3.val(lt(add(s3.canon(c), K(W)), now)) is True, "window: too old only if too old", m.loc,
                                  "TooOld although the creation time may be within the window", s3)
                    else:
                        rep.check(c is not None and s3.val(lt(add(now, K(DRIFT)), s3.canon(c))) is True, "window: in the future only if so", m.loc,
                                  "CreatedInFuture although the creation time may be within the drift", s3)
                        rep.check(same(s3, v.ledger_time, now), "window: refusal names the ledger time", m.loc, "CreatedInFuture names another time", s3)


def _forgets(o, rep, m, W):
    s = m.st
    h0, h1 = s.canon(m.field("transaction_hashes", False)), s.canon(m.field("transaction_hashes"))
    t0, t1 = s.canon(m.field("transaction_timestamps", False)), s.canon(m.field("transaction_timestamps"))
    if h0 is h1 and t0 is t1:
        return
    ps = pieces(m, ["transaction_hashes", "transaction_timestamps"])
    loc = where(ps[0], "transaction_hashes", "transaction_timestamps")
    hb, hops = chain(h1)
    tb, tops = chain(t1)
    if not rep.check(hb is h0 and tb is t0, "window: forgets by key", loc, "the deduplication records are replaced wholesale in a loop", s):
        return
    gone = []
    for op, k, v in tops:
        if not rep.check(op == "rem", "window: a loop only forgets", loc, "a loop files a transaction", s):
            return
        c = fld(k, 0, 0)
        gone.append(k)
        rep.check(s.val(lt(add(s.canon(c), K(W)), now_of(s))) is True, "window: forgotten only once too old", loc,
                  lambda: "a transaction created at %s is forgotten although it may still be accepted" % sh(s.canon(c)), s)
    for op, k, v in hops:
        ok = op == "rem" and any(_is_tx_of(s, k, fld(g, 0, 1)) for g in gone)
        rep.check(ok, "window: forgets the transaction whose time has passed", loc, lambda: "the record %s is %s" % (sh(k), op), s)


def _is_tx_of(s, h, ix):
    """h is the hash of the transaction of block ix"""
    if h.op != "hash":
        return False
    for x in subterms(h.a[0], set()):
        if x.op == "elem" and len(x.a) == 2 and x.a[1] is s.canon(ix):
            return True
    return False


def rule_housekeeping(o, rep):
    """loops that clean up touch nothing live and handle a bounded number of entries, first ones first"""
    surviving(o, rep)
    for m in each(rep, iterations(o)):
        s = m.st
        if o.root.startswith("canister_"):
            continue
        for f in ("balances", "blocks", "cache", "config"):
            rep.check(s.canon(m.field(f, False)) is s.canon(m.field(f)), "housekeeping: touches no balances, blocks or supply", m.loc, "a loop changes %s" % f, s)
        for f in ("expiration_queue", "transaction_timestamps"):
            b0, b1 = s.canon(m.field(f, False)), s.canon(m.field(f))
            if b0 is b1:
                continue
            b, ops = chain(b1)
            first = fld(fld(mk("first", b0), 1, 0), 0, 0)
            loc = where(pieces(m, [f])[0], f)
            rep.check(b is b0 and len(ops) == 1 and ops[0][0] == "rem" and same(s, ops[0][1], first), "housekeeping: removes the oldest entry", loc,
                      lambda: "%s changes by %s" % (f, [(a, sh(k)) for a, k, _ in ops]), s)
        rep.check(_bounded(o, m), "housekeeping: bounded per pass", m.loc, "no bound on the number of entries handled by this loop was found", s)


def _bounded(o, m):
    """a loop variable grows by at least one each time around and is bounded by a constant"""
    head = m.to.head
    for c, path in m.to.havoc:
        if path is None:
            continue
        a = _at(head.mem.get(c), path)
        b = _at(m.st.mem.get(c), path)
        if a is None or b is None or not is_int_term(a):
            continue
        b = m.st.canon(b)
        d = sub(b, a)
        for sign in (1, -1):
            if m.st.val(ge0(add(scale(d, sign), K(-1)))) is True and _const_bound(m.st, a, sign):
                return True
    return False


def _const_bound(s, a, sign):
    """is sign*a below some constant in this state?"""
    for xs, c in s.f.lin.items():
        d = dict(xs)
        if set(d) == {a} and d[a] == -sign:
            return True
    return sign < 0 and a.ty is None


def _at(t, path):
    for tk, v, i in path:
        if t is None:
            return None
        t = fld(t, v, i)
    return t


# ------------------------------------------------------------------ C13 / C15
def call_of(fut):
    """(destination, method, argument, cycles) of an awaited call"""
    if fut.op == "callb":
        name = fut.a[2].a[0] if fut.a[2].op == "s" else None
        if name == "deposit_cycles" and _principal(fut.a[1]) == b"" and fut.a[3].op == "agg":
            return fld(fut.a[3], 0, 0), name, fut.a[3], fut.a[4]
        return fut.a[1], name, fut.a[3], fut.a[4]
    if fut.op == "fut" and fut.a[0] == "deposit_cycles":
        a, n = fut.a[1].a
        while a.op == "ref" or a.op == "app":
            break
        return fld(a, 0, 0), "deposit_cycles", a, n
    return None


CMC = bytes.fromhex("00000000000000040101")


def rule_cycles_out(o, rep):
    """cycles leave only for what was burned, once, to whom it was asked"""
    r = request(o)
    fee = fee_of(o.p)
    ip = o.ip
    for m in each(rep, messages(o)):
        for e in m.ev:
            if e.a[0] != "await":
                continue
            c = call_of(e.a[1])
            loc = e.a[2].a[0]
            if c is None:
                raise Gap("an outbound call of an unknown kind at %s" % loc)
            dest, method, arg, cyc = [m.st.canon(x) if isinstance(x, T) else x for x in c]
            s = m.st
            if s.val(eq0(cyc)) is True:
                rep.ok("cycles: a call without cycles", loc)
                continue
            if not rep.check(r.kind in ("withdraw", "create") and m.seg is None, "cycles: sent only by withdrawals and creations, once", loc,
                             "cycles are sent out by this message", s):
                continue
            certain(rep, e, "cycles: the outcome is certain", s)
            for s2, n in amount_of(s.copy(), r):
                rep.check(n is not None and same(s2, cyc, n), "cycles: exactly the amount", loc, lambda: "%s cycles are sent" % sh(cyc), s2)
                l0, xs = op_blocks(o, m)
                ok = False
                for s3, name, op, tx, b in (ops_of(s2.copy(), xs[-1]) if xs else []):
                    ok = name == "Burn" and n is not None and same(s3, op.amount, n)
                    if not ok:
                        break
                rep.check(ok, "cycles: burned and recorded before", loc, "cycles are sent although no block burning them was appended in this message", s2)
                if n is not None:
                    for s3, rows in map_delta(ip, s2.copy(), s2.canon(m.field("balances", False)), s2.canon(m.field("balances"))):
                        d = [sub(s3.canon(new), s3.canon(old)) for k, old, new in rows if same(s3, k, key(r.frm))]
                        rep.check(len(d) == 1 and same(s3, scale(d[0], -1), add(n, K(fee))), "cycles: debited before", loc,
                                  "cycles are sent although the payer was not debited amount and fee in this message", s3)
            if r.kind == "withdraw":
                rep.check(method == "deposit_cycles" and same(s, dest, r.to), "cycles: to the canister named", loc,
                          lambda: "cycles go to %s via %s" % (sh(dest), method), s)
            else:
                b = dest
                rep.check(method == "create_canister" and _principal(b) == CMC, "cycles: to the creation service", loc, lambda: "cycles go to %s via %s" % (sh(dest), method), s)
        n = sum(1 for e in m.ev if e.a[0] == "await")
        rep.check(n <= (1 if m.kind == "await" else 0), "cycles: one call per message", m.loc, "%d outbound calls are made in one message" % n, m.st)
    for f in sorted(ip.unknown):
        if re.search(r"cycles_burn|oneway|notify|call_cycles_add|call_perform|call_raw|call_with_payment|ic0::call", f):
            rep.bad("cycles: no other way out", f, "%s is called" % f)
    for f in sorted(ip.visited):
        if re.search(r"::cycles_burn|::oneway|ic0::call_", f):
            rep.bad("cycles: no other way out", f, "%s is called" % f)


def certain(rep, e, kind, s):
    """a call that gives up waiting leaves open whether the cycles were taken"""
    rep.check(e.a[1].op != "callb" or e.a[1].a[0] == "unbounded", kind, e.a[2].a[0],
              "the call may end without telling whether the cycles were delivered", s)


def _principal(t):
    """bytes of a constant principal"""
    if t.op != "agg" or len(t.a[2]) != 2 or t.a[2][0].op != "k" or t.a[2][1].op != "agg":
        return None
    xs = t.a[2][1].a[2]
    n = t.a[2][0].a[0]
    if any(x.op != "k" for x in xs[:n]):
        return None
    return bytes(x.a[0] for x in xs[:n])


items = listed


def rule_creation_args(o, rep):
    """the creation service gets the caller's settings; the caller controls by default"""
    if o.root not in ("create_canister", "create_canister_from"):
        return
    a = request(o).arg
    for m in each(rep, messages(o)):
        for e in m.ev:
            if e.a[0] != "await":
                continue
            c = call_of(e.a[1])
            loc = e.a[2].a[0]
            if c is None or c[1] != "create_canister":
                continue
            sent = View(c[2])
            for s, given in opt(m.st.copy(), m.st.canon(a.creation_args)):
                if given is None:
                    for s2, x in opt(s, s.canon(sent.subnet_selection)):
                        rep.check(x is None, "creation: no subnet unless asked", loc, "a subnet is selected although none was asked for", s2)
                    gset = [(s.copy(), None)]
                else:
                    rep.check(equal(s, sent.subnet_selection, View(s.canon(given)).subnet_selection), "creation: subnet as asked", loc,
                              lambda: "the subnet selection sent is %s" % sh(s.canon(sent.subnet_selection)), s)
                    gset = opt(s, s.canon(View(s.canon(given)).settings))
                for s2, g in gset:
                    for s3, x in opt(s2, s2.canon(sent.settings)):
                        if not rep.check(x is not None, "creation: settings are sent", loc, "no settings are sent", s3):
                            continue
                        _settings(rep, s3, View(s3.canon(x)), View(s3.canon(g)) if g is not None else None, loc)


def _settings(rep, s, sent, given, loc):
    for i, (n, ty) in enumerate(sent.t.ty.fields()):
        x = s.canon(fld(sent.t, 0, i, ty))
        if n == "controllers":
            for s2, g in ([(s.copy(), None)] if given is None else opt(s.copy(), s.canon(given.controllers))):
                for s3, y in opt(s2, s2.canon(x)):
                    if g is not None:
                        rep.check(y is not None and equal(s3, y, g), "creation: controllers as asked", loc, lambda: "the controllers sent are %s" % sh(s3.canon(x)), s3)
                    else:
                        it = items(s3.canon(y)) if y is not None else None
                        rep.check(it is not None and len(it) == 1 and same(s3, it[0], CALLER), "creation: the caller controls by default", loc,
                                  lambda: "the controllers sent are %s" % sh(s3.canon(x)), s3)
        elif given is None:
            for s2, y in opt(s.copy(), x):
                rep.check(y is None, "creation: no setting unless asked", loc, "%s is sent although it was not asked for" % n, s2)
        else:
            rep.check(equal(s, x, fld(given.t, 0, i, ty)), "creation: settings as asked", loc, lambda: "%s is sent as %s" % (n, sh(x)), s)


# ------------------------------------------------------------------ C12
def returned(m, s, n):
    """[(state, amount that came back | None if the call succeeded)]"""
    ep = mk("awaitres", K(1))
    res = None
    for t in list(s.f.var) + [x for x in subterms(m.reply, set())]:
        if t.op == "awaitres":
            res = t
            break
    if res is None:
        for t in s.f.var:
            for x in subterms(t, set()):
                if x.op == "awaitres":
                    res = x
    if res is None:
        raise Gap("the result of the outbound call is not looked at")
    out = []
    for s2, v in s.variant(res):
        if v == 1:
            out.append((s2, n))
            continue
        okv = fld(s2.canon(res), 0, 0, res.ty.fields(0)[0][1])
        dec = None
        for t in s2.f.var:
            if t.op == "app" and t.ty is not None and is_result(t) and t.a[-1] is okv:
                dec = t
        if dec is None:
            out.append((s2, None))
            continue
        for s3, w in s2.variant(dec):
            if w == 1:
                out.append((s3, n))
                continue
            inner = fld(s3.canon(dec), 0, 0, dec.ty.fields(0)[0][1])
            if not is_result(inner):
                out.append((s3, None))
                continue
            for s4, x in s3.variant(inner):
                if x == 0:
                    out.append((s4, None))
                    continue
                err = fld(s4.canon(inner), 1, 0, inner.ty.fields(1)[0][1])
                for s5, name, v in errors(s4, err):
                    if name == "Refunded":
                        out.append((s5, v.refund_amount))
                    else:
                        out.append((s5, K(0)))
    return out


def old_expiry(o, r):
    """{segment: "none" | "some" | None} : did the approval used before the call have an expiry"""
    c = o.__dict__.get("_oldexp")
    if c is not None:
        return c
    c = {}
    if r.spender is None:
        o._oldexp = c
        return c
    for m in messages(o):
        if m.kind != "await":
            continue
        s = m.st.copy()
        for s2, own in by_self(s, r):
            if own:
                c.setdefault(m.to.id, set()).add("own")
                continue
            pk = s2.canon(tup(key(r.frm), key(r.spender)))
            for s3, x in entry(o.ip, s2, s2.canon(m.field("approvals", False)), pk):
                if x is None:
                    continue
                for s4, z in s3.fork(eq0(s3.canon(x[1]))):
                    c.setdefault(m.to.id, set()).add("none" if z else "some")
    o._oldexp = c
    return c


def rule_refund(o, rep):
    """what a failed call left over is paid back, and nothing else"""
    r = request(o)
    if r.kind not in ("withdraw", "create"):
        return
    fee = fee_of(o.p)
    ip = o.ip
    kinds = old_expiry(o, r)
    oty = map_opt(ip, "approvals")
    for m in each(rep, messages(o)):
        for e in m.ev if m.kind == "await" else ():
            if e.a[0] == "await":
                certain(rep, e, "refund: failure is certain", m.st)
        if m.seg is None or m.kind != "ret":
            continue
        l0, xs = op_blocks(o, m)
        loc = where(pieces(m, ["blocks"])[-1], "blocks")
        rep.check(m.stages[0].base is base_state(ip, m.stages[0].base.a[0] and _ver(m.stages[0].base)), "refund: resumes from the current state", loc,
                  "the resumed message does not start from the state at that time", m.st)
        for s0, n in amount_of(m.st.copy(), r):
            if n is None:
                rep.bad("refund: amount is representable", loc, "an amount beyond 2^128 was sent", s0)
                continue
            for s, back in returned(m, s0, n):
                c = s.canon
                if back is None:
                    rep.check(not xs and c(m.field("balances")) is c(m.field("balances", False)), "refund: none after success", loc,
                              "blocks are appended or balances change after the call succeeded", s)
                    for s2, kind, v in outcome_in(m, s):
                        rep.check(kind == "Ok", "refund: success is reported as success", m.loc, "an error is reported although the call succeeded", s2)
                    continue
                for s2, kind, v in outcome_in(m, s):
                    rep.check(kind == "Err", "refund: failure is reported as failure", m.loc, "success is reported although the call failed", s2)
                for s1, pays in s.fork(ge0(add(c(back), K(-fee - 1)))):
                    _refund1(o, rep, m, s1, r, s1.canon(back), pays, l0, xs, loc, kinds, fee, oty)


def _ver(t):
    n = t.a[0]
    return int(n.rsplit("@", 1)[1]) if "@" in n else 0


def outcome_in(m, s):
    """the reply, in a state refined from the message's"""
    m2 = Msg()
    m2.reply, m2.st = s.canon(m.reply) if m.reply is not None else None, s
    return outcome(m2)


def _refund1(o, rep, m, s, r, back, pays, l0, xs, loc, kinds, fee, oty):
    ip = o.ip
    if not pays:
        rep.check(not xs, "refund: none if it does not exceed the fee", loc, "%d block(s) are appended although %s does not exceed the fee" % (len(xs), sh(back)), s)
        _refund_reply(o, rep, m, s, r, None, None)
        return
    if not rep.check(len(xs) >= 1, "refund: what is left is paid back", loc, lambda: "nothing is paid back although %s came back" % sh(back), s):
        return
    for s1, name, op, tx, b in ops_of(s.copy(), xs[0]):
        good = name == "Mint" and same_acc(s1, s1.canon(op.to), r.frm) and same(s1, op.amount, add(back, K(-fee)))
        rep.check(good, "refund: payer gets what is left minus the fee", loc,
                  lambda: "the block is %s of %s to %s; %s came back" % (name, sh(s1.canon(op.amount)) if name == "Mint" else "?", sh(s1.canon(op.to)) if name == "Mint" else "?", sh(back)), s1)
        for s2, cat in opt(s1, s1.canon(tx.created_at_time)):
            rep.check(cat is None, "refund: not deduplicated", loc, "the refund names a creation time", s2)
    # the approval
    for s1, own in by_self(s.copy(), r):
        want = None
        if own:
            rep.check(len(xs) == 1, "refund: no approval when acting for oneself", loc, "%d blocks are appended for the refund of an own payment" % len(xs), s1)
            _refund_reply(o, rep, m, s1, r, 0, None)
            continue
        for s2, more in s1.fork(ge0(add(s1.canon(back), K(-2 * fee - 1)))):
            if not more:
                rep.check(len(xs) == 1, "refund: no approval if nothing is left for it", loc, "an approval is written although %s does not cover its fee" % sh(back), s2)
                _refund_reply(o, rep, m, s2, r, 0, None)
                continue
            ks = kinds.get(m.seg.id, set()) - {"own"}
            pk = s2.canon(tup(key(r.frm), key(r.spender)))
            old = fld(fld(mk("get", get_field(base_state(ip, 0), "approvals"), pk, ty=oty), 1, 0, oty.variants[1][2][0][1]), 0, 1)
            now = now_of(s2)
            if ks == {"none"}:
                cases = [(s2, True, K(0))]
            elif ks == {"some"}:
                cases = [(s3, v, old) for s3, v in s2.fork(lt(s2.canon(now), s2.canon(old)))]
            else:
                cases = []
                for s3, z in s2.fork(eq0(s2.canon(old))):
                    if z:
                        cases.append((s3, True, K(0)))
                    else:
                        cases += [(s4, v, old) for s4, v in s3.fork(lt(s3.canon(now), s3.canon(old)))]
            for s3, valid, oexp in cases:
                if not valid:
                    rep.check(len(xs) == 1, "refund: no approval if the one used has expired", loc, "the allowance is raised although the approval used has expired", s3)
                    _refund_reply(o, rep, m, s3, r, 0, None)
                    continue
                if not rep.check(len(xs) == 2, "refund: the allowance used is given back", loc, "%d blocks are appended, the allowance is not given back" % len(xs), s3):
                    continue
                _refund_approval(o, rep, m, s3, r, back, xs[1], oexp, loc, fee, pk)
                _refund_reply(o, rep, m, s3, r, 0, 1)


def _refund_approval(o, rep, m, s, r, back, x, oexp, loc, fee, pk):
    ip = o.ip
    ps = pieces(m, ["approvals", "blocks"])
    p = next((q for q in ps if any(s.canon(y) is s.canon(x) for y in appended(q))), None)
    if p is None:
        raise Gap("the approval block is not found in the message")
    now = now_of(s)
    for s1, cur, cexp in in_force(ip, s.copy(), s.canon(p.b("approvals")), s.canon(pk), now):
        amt = add(cur, add(back, K(-2 * fee)))
        for s2, fits in s1.fork(ge0(sub(K(U128), s1.canon(amt)))):
            amt2 = s2.canon(amt) if fits else K(U128)
            none = s2.canon(cur) is K(0)
            for s3, z in [(s2, True)] if none else s2.fork(eq0(s2.canon(cur))):
                if z and not none:
                    continue  # an approval of nothing is not stored
                wexp = s3.canon(oexp) if z else s3.canon(cexp)
                for s4, name, op, tx, b in ops_of(s3.copy(), x):
                    ok = name == "Approve" and same_acc(s4, s4.canon(getattr(op, "from")), r.frm) and same_acc(s4, s4.canon(op.spender), r.spender)
                    if not rep.check(ok, "refund: approval for the same pair", loc, "the second block is not an approval of the payer for the spender", s4):
                        continue
                    rep.check(same(s4, op.amount, amt2), "refund: allowance in force plus refund minus a fee", loc,
                              lambda: "the allowance becomes %s; in force was %s, %s came back" % (sh(s4.canon(op.amount)), sh(cur), sh(back)), s4)
                    for s5, e in opt(s4, s4.canon(op.expires_at)):
                        for s6, z2 in s5.fork(eq0(s5.canon(wexp))):
                            rep.check((e is None) == z2 and (z2 or same(s6, e, wexp)), "refund: allowance keeps its expiry", loc,
                                      lambda: "the allowance is given expiry %s" % (sh(s6.canon(e)) if e is not None else "none"), s6)
                    for s5, new in entry(ip, s3.copy(), s3.canon(p.f("approvals")), s3.canon(pk)):
                        rep.check(new is not None and same(s5, new[0], amt2) and same(s5, new[1], wexp), "refund: allowance raised", loc,
                                  lambda: "the approval becomes %s" % ("absent" if new is None else "(%s, %s)" % (sh(s5.canon(new[0])), sh(s5.canon(new[1])))), s5)


def _refund_reply(o, rep, m, s, r, refund, approval):
    """the blocks named in the reply; refund/approval: offset of the block or None"""
    base = models.seq_len(s.canon(m.field("blocks", False)))
    burn = models.seq_len(get_field(base_state(o.ip, 0), "blocks"))
    for s2, kind, e in outcome_in(m, s):
        if kind != "Err":
            continue
        for s3, name, v in errors(s2, e):
            fs = [f[0] for f in v.t.ty.fields(v.v)] if v.t.ty is not None else []
            if not rep.check(name.startswith("FailedTo"), "refund: failure names the call", m.loc, "a failed call is reported as %s" % name, s3):
                continue
            want = {"refund_block": refund, "approval_refund_block": approval}
            if name == "FailedToWithdraw":
                want = {"fee_block": refund}
            for f in fs:
                if f in ("withdraw_from_block", "create_from_block") or f == "fee_block" and name == "FailedToCreate":
                    for s4, x in opt(s3.copy(), s3.canon(getattr(v, f))):
                        rep.check(x is not None and same_nat(s4, x, burn), "refund: reply names the burn block", m.loc, "%s is %s" % (f, sh(s3.canon(getattr(v, f)))), s4)
                elif f in want:
                    for s4, x in opt(s3.copy(), s3.canon(getattr(v, f))):
                        w = want[f]
                        ok = (x is None) == (w is None) and (w is None or same_nat(s4, x, add(base, K(w))))
                        rep.check(ok, "refund: reply names the refund blocks", m.loc, "%s is %s" % (f, sh(s4.canon(getattr(v, f)))), s4)


def rule_refund_no_trap(o, rep):
    """nothing but exhausted number ranges keeps a refund from being made"""
    r = request(o)
    if r.kind not in ("withdraw", "create"):
        return
    for m in each(rep, messages(o, ("trap",))):
        if m.seg is None:
            continue
        s = m.st.copy()
        if any(b.op == "app" and b.a[0] in ("hash fails", "log full") and v for b, v in s.f.bl.items()):
            rep.ok("refund: traps only if a block cannot be encoded or stored")
        elif _no_such_approval(s, r) or _no_such_record(s):
            rep.ok("refund: trap excluded by what approvals and records can exist")
        else:
            # a sum beyond 2^127 was needed to get here
            full = any(c <= -(1 << 127) for c in s.f.lin.values())
            rep.check(full, "refund: nothing else traps", m.loc,
                      lambda: "the message that learns of the failure can trap: %s" % (m.val if isinstance(m.val, str) else sh(m.val)), s)


def _no_such_approval(s, r):
    """the payer acts through an approval that cannot exist: approvals name different owners, neither forbidden (C09, C16)"""
    if r.spender is None or any(own for _, own in by_self(s.copy(), r)):
        return False
    for cond in (eq(s.canon(r.frm[0]), s.canon(r.spender[0])), denied(r.frm[0]), denied(r.spender[0])):
        if s.val(s.canon(cond)) is True or not s.copy().assume(s.canon(cond), False):
            return True
    return False


def _no_such_record(s):
    """a transaction without creation time is remembered, which none is (C10)"""
    for t, vs in s.f.var.items():
        if t.op == "get" and vs == frozenset({1}) and t.a[1].op == "hash" and _is_tx(t.a[1].a[0]):
            tx = View(t.a[1].a[0])
            if all(c is None for _, c in opt(s.copy(), s.canon(tx.created_at_time))):
                return True
    return False


def _is_tx(t):
    return t.ty is not None and (t.ty.path or "").endswith("::Transaction")
