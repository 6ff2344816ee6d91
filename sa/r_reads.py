"""Rules about what the queries return: each result is read off the summaries of the loops that build it."""
from r_ops import *
import interp


class Built:
    """how one iteration of a loop extends a vector it builds"""
    __slots__ = ("parts",)


def loop_var(t):
    """the loop whose changed value this is"""
    return LOOPS[t.a[0]] if t.op == "lv" and isinstance(t.a[0], int) else None


def slot(info, v):
    """(cell, path) of a value changed by the loop"""
    for cp, x in info.havoc.items():
        if x is v:
            return cp
    return None


def at(st, cp):
    t = st.mem.get(cp[0])
    for q in cp[1] or ():
        if t is None or t.op != "agg":
            return None
        t = t.a[2][q[2]]
    return None if t is None else st.canon(t)


def before(info, v):
    cp = slot(info, v)
    return None if cp is None else at(info.pre, cp)


def parts_of(s, new, old):
    """the pieces by which vector `old` was extended to `new`: ("item", x) or ("run", loop's vector); None if it was not"""
    out = []
    t = s.canon(new)
    old = s.canon(old)
    for _ in range(200):
        if t is old or same(s, t, old):
            return out[::-1]
        if t.op == "push":
            out.append(("item", t.a[1]))
            t = s.canon(t.a[0])
            continue
        info = loop_var(t)
        if info is not None:
            b = before(info, t)
            if b is None:
                return None
            out.append(("run", t))
            t = s.canon(b)
            continue
        if t.op == "agg" and t.a[0] in ("vec", "array"):
            if old.op == "agg" and old.a[0] in ("vec", "array") and t.a[2][:len(old.a[2])] == old.a[2]:
                return [("item", x) for x in t.a[2][len(old.a[2]):]] + out[::-1]
        return None
    return None


def backs(o, info):
    """the ways one iteration of a loop can come back to its start"""
    out = []
    for st in info.back:
        m = Msg()
        m.o, m.st, m.kind, m.val, m.loc, m.seg, m.stack, m.to, m.reply = o, st, "back", None, info.loc, None, info.stack, None, None
        m.ev, m.stages = tuple(st.ev), []
        out.append(m)
    return out


def counter(info):
    """the loop's changed integers that advance by one each time: [(variable, first value)]"""
    out = []
    for cp, v in info.havoc.items():
        if v is None or not is_int_term(v):
            continue
        if all(at(st, cp) is not None and st.val(eq0(sub(at(st, cp), st.canon(add(v, K(1)))))) is True for st in info.back):
            out.append((v, at(info.pre, cp)))
    return out


def vec_len(t):
    return models.seq_len(t)


def replies(o):
    for m in messages(o):
        if m.reply is not None:
            yield m


def rule_blocks(o, rep):
    """block queries return the real blocks under the real indices, within the limit"""
    p = o.p
    lims = {contains_nat(x["dfn:max_blocks_per_request"]) if "dfn:max_blocks_per_request" in x else None for x in metadata(p)}
    if len(lims) != 1 or None in lims:
        raise Gap("the limit is not advertised")
    limit = lims.pop()
    log = get_field(base_state(o.ip, 0), "blocks")
    loglen = models.seq_len(log)
    args = argument().t
    for e in o.ends:
        if e.kind == "trap":
            rep.bad("blocks: never fails", e.loc, "the query fails: %s" % (e.val if isinstance(e.val, str) else sh(e.val)), e.st)
    rep.ok("blocks: never fails")
    loops = {}
    for m in each(rep, replies(o)):
        s = m.st
        v = View(s.canon(m.reply))
        rep.check(same_nat(s, v.log_length, loglen), "blocks: true log length", m.loc, lambda: "the log length reported is %s" % sh(s.canon(v.log_length)), s)
        got = s.canon(v.blocks)
        if got.op == "agg" and not got.a[2]:
            rep.check(s.val(eq0(s.canon(vec_len(args)))) is True or s.val(eq0(s.canon(limit))) is True, "blocks: nothing asked for", m.loc,
                      "nothing is returned although something may have been asked for", s)
            continue
        info = loop_var(got)
        if info is None:
            raise Gap("the blocks returned are not built by a loop: " + sh(got))
        b = before(info, got)
        if not rep.check(b is not None and b.op == "agg" and not b.a[2], "blocks: only what was asked for", m.loc,
                         lambda: "the result starts with %s" % (sh(b) if b is not None else "?"), s):
            continue
        cs = counter(info)
        loops[info.id] = (info, got)
        done = any(s.val(ge0(s.canon(sub(c, vec_len(args))))) is True and c0 is not None and same(s, c0, K(0)) for c, c0 in cs)
        full = s.val(ge0(s.canon(sub(vec_len(got), limit)))) is True
        rep.check(done or full, "blocks: all ranges served or limit reached", m.loc, "ranges are left out although the limit is not reached", s)
    for info, vec in loops.values():
        cp = slot(info, vec)
        cs = [c for c, c0 in counter(info) if c0 is not None and same(info.pre, c0, K(0))]
        for m in each(rep, backs(o, info)):
            _range(o, rep, m, info, vec, at(m.st, cp), cs, args, log, loglen, limit)


def _range(o, rep, m, info, vec, new, cs, args, log, loglen, limit):
    """one requested range"""
    s0, loc = m.st, info.loc
    ps = parts_of(s0, new, vec) if new is not None else None
    if ps is None:
        raise Gap("the blocks returned are built in an unknown way: " + (sh(new) if new is not None else "?"))
    el = args.ty.elem if args.ty is not None and args.ty.k in ("array", "slice") else None
    q = None
    for t in [x for f in path_terms(s0) for x in subterms(f)]:
        if t.op == "elem" and any(s0.canon(c) is t.a[1] for c in cs) and s0.canon(args) is t.a[0]:
            q = t
            break
    if q is None:
        raise Gap("which range an iteration serves is unknown")
    n = s0.canon(sub(vec_len(s0.canon(new)), vec_len(s0.canon(vec))))
    q = View(q)
    for s, start in num(s0.copy(), q.start, 64):
        for s1, length in num(s, q.length, 64):
            for s2, inside in (s1.fork(lt(s1.canon(start), s1.canon(loglen))) if start is not None else [(s1, False)]):
                if not inside:
                    rep.check(proved0(s2, n), "blocks: nothing beyond the end", loc, lambda: "%s blocks are returned for a range beyond the end of the log" % sh(s2.canon(n)), s2)
                    continue
                start2 = s2.canon(start)
                cands = [sub(loglen, start2), sub(limit, vec_len(vec))] + ([length] if length is not None else [])
                for i, c in enumerate(cands):
                    s3 = s2.copy()
                    if not all(s3.assume(s3.canon(ge0(sub(x, c))), True) for j, x in enumerate(cands) if j != i):
                        continue
                    rep.check(proved0(s3, sub(n, c)), "blocks: as many as fit", loc,
                              lambda: "%s blocks are returned for a range, %s fit" % (sh(s3.canon(n)), sh(s3.canon(c))), s3)
                k = K(0)
                for kind, x in ps:
                    if kind == "item":
                        _block(rep, s2, x, add(start2, k), log, loc)
                        k = add(k, K(1))
                        continue
                    i2 = loop_var(x)
                    v0, cp = s2.canon(before(i2, x)), slot(i2, x)
                    for st in i2.back:
                        new2 = at(st, cp)
                        if st.canon(x) is new2:
                            rep.bad("blocks: no index is skipped", i2.loc, "an iteration returns nothing for its index", st)
                            continue
                        p2 = parts_of(st, new2, x)
                        if p2 is None or any(y[0] != "item" for y in p2):
                            raise Gap("the blocks of a range are built in an unknown way")
                        for j, (_, y) in enumerate(p2):
                            _block(rep, st, y, add(add(start2, K(j)), sub(sub(vec_len(st.canon(x)), vec_len(v0)), scale(k, -1))), log, i2.loc)
                    k = add(k, sub(vec_len(x), vec_len(v0)))


def contains_nat(t):
    """the integer inside a metadata value"""
    for x in subterms(t):
        if x.op == "nat":
            return x.a[0]
    return None


def path_terms(st):
    out = list(st.f.var) + list(st.f.bl)
    for xs in st.f.lin:
        out += [x for x, _ in xs]
    return out


def _block(rep, s, x, i, log, loc):
    """x is the block at index i, labelled with it"""
    v = View(s.canon(x))
    rep.check(same_nat(s, v.id, i), "blocks: labelled with its index", loc, lambda: "the block at index %s is labelled %s" % (sh(s.canon(i)), sh(s.canon(v.id))), s)
    b = s.canon(v.block)
    ok = False
    if b.op == "value":
        y = s.canon(b.a[0])
        while y.op == "fld" and y.a[0].op != "elem":
            y = s.canon(y.a[0])
        y = s.canon(unblock(y)) if y.op != "fld" else y
        if y.op == "fld":
            y = y.a[0]
        ok = y.op == "elem" and s.canon(y.a[0]) is s.canon(log) and same(s, y.a[1], i)
    rep.check(ok, "blocks: the block at that index", loc, lambda: "index %s is answered with %s" % (sh(s.canon(i)), sh(b)), s)


# ------------------------------------------------------------------ C21
MAX_TAKE = 500  # the number of allowances a page holds at most


def rule_allowance_list(o, rep):
    """listing allowances shows exactly the live approvals of the owner asked for"""
    ip = o.ip
    a = argument()
    app = get_field(base_state(ip, 0), "approvals")
    for e in o.ends:
        if e.kind == "trap":
            rep.bad("list: never fails", e.loc, "the query fails: %s" % (e.val if isinstance(e.val, str) else sh(e.val)), e.st)
    rep.ok("list: never fails")
    seen = set()
    for m in each(rep, replies(o)):
        for s, kind, v in outcome(m):
            if kind == "Err":
                rep.bad("list: never refused", m.loc, "listing is refused", s)
                continue
            got = s.canon(v)
            for s1, frm in opt(s, s.canon(a.from_account)):
                for s2, prev in opt(s1, s1.canon(a.prev_spender)):
                    for s3, take in optnat64(s2, a.take):
                        frm2 = acc(s3.canon(frm)) if frm is not None else (CALLER, none_t(s3.canon(a.from_account).ty and _sub_ty(a)))
                        _listing(o, rep, m, s3, s3.canon(got), frm2, s3.canon(prev) if prev is not None else None, take, app, seen)


def _sub_ty(a):
    ty = a.from_account.ty if isinstance(a.from_account, T) else a.from_account.t.ty
    acc_ty = ty.fields(1)[0][1]
    return dict(acc_ty.fields())["subaccount"]


def optnat64(s, t):
    out = []
    for s2, x in opt(s, s.canon(t)):
        if x is None:
            out.append((s2, None))
        else:
            out += num(s2, x, 64)
    return out


def _listing(o, rep, m, s, got, frm, prev, take, app, seen):
    ip = o.ip
    limit = [K(MAX_TAKE)] + ([s.canon(take)] if take is not None else [])
    if got.op == "agg" and not got.a[2]:
        if any(s.val(eq0(x)) is True for x in limit):
            rep.ok("list: empty page asked for")
            return
    info = loop_var(got)
    if info is None:
        if got.op == "agg" and not got.a[2]:
            # nothing is ever put on the page: some entry must have been looked at, and it must have been beyond the owner's last
            end = [t for t in s.f.var if t.op == "mitem" and s.canon(t.a[0]) is s.canon(app) and
                   (s.f.var[t] == frozenset({0}) or s.val(eq(s.canon(fld(fld(fld(fld(t, 1, 0), 0, 0), 0, 0), 0, 0)), s.canon(frm[0]))) is False)]
            if not rep.check(bool(end), "list: skips nothing that qualifies", m.loc, "an empty page is answered whatever there is to list", s):
                return
        raise Gap("the allowances returned are not built by a loop: " + sh(got))
    it = None
    for cp, v in info.havoc.items():
        if cp[1] and cp[1][-1][0] == "miter" and v is not None:
            t = info.head.mem.get(cp[0])
            for q in cp[1][:-1]:
                t = t.a[2][q[2]]
            it = (v, t, cp)
    if it is None:
        raise Gap("the loop does not walk the approvals")
    J, t, jcp = it
    m0, lo = s.canon(t.a[2][0]), s.canon(t.a[2][1])
    if not rep.check(m0 is s.canon(app), "list: walks the approvals", info.loc, lambda: "the walk is over %s" % sh(m0), s):
        return
    fk = key((s.canon(frm[0]), s.canon(frm[1])))
    start, excl = _start(s, lo)
    if start is None:
        raise Gap("where the listing starts is unknown: " + sh(lo))
    if prev is not None:
        want = tup(fk, key(acc(prev)))
        rep.check(_keys(s, start, want) is True, "list: starts at the previous spender", info.loc, lambda: "the listing starts at %s instead of %s" % (sh(start), sh(want)), s)
    else:
        ok = _keys(s, s.canon(fld(start, 0, 0)), fk, 1) is True and _lowest(s, s.canon(fld(start, 0, 1))) and not excl
        rep.check(ok, "list: starts at the account asked for", info.loc, lambda: "the listing starts at %s" % sh(start), s)
    b = before(info, got)
    rep.check(b is not None and b.op == "agg" and not b.a[2], "list: nothing else", info.loc, "the listing does not start empty", s)
    J0 = at(info.pre, jcp)
    rep.check(J0 is not None and J0.op == "k" and J0.a[0] == 0, "list: from the first entry", info.loc, "entries are passed over before the walk", s)
    # why the walk ends
    item = mk("mitem", t.a[2][0], t.a[2][1], J, ty=_item_ty(info, J))
    n = vec_len(got)
    owner0 = s.canon(frm[0])
    why = any(s.val(ge0(s.canon(sub(n, x)))) is True for x in limit)
    if not why:
        for s2, x in opt(s.copy(), s.canon(item)):
            if x is None:
                rep.ok("list: ends at the last entry")
                continue
            k = s2.canon(fld(x, 0, 0))
            own = s2.canon(fld(fld(k, 0, 0), 0, 0))
            full = any(s2.val(ge0(s2.canon(sub(n, y)))) is True for y in limit)
            rep.check(full or s2.val(eq(own, owner0)) is False, "list: ends after the owner's last", info.loc,
                      "the walk ends although the limit is not reached and the next entry belongs to the owner", s2)
    else:
        rep.ok("list: page is full")
    # each entry. The loop's states know the path on which it was entered; its facts are those of s
    vcp = slot(info, got)
    for mb in each(rep, backs(o, info)):
        for s4 in _under(mb.st, s):
            new = at(s4, vcp)
            ps = parts_of(s4, new, got) if new is not None else None
            if ps is None or any(k != "item" for k, _ in ps) or len(ps) > 1:
                raise Gap("the allowances returned are built in an unknown way")
            jb = at(s4, jcp)
            rep.check(jb is not None and proved0(s4, sub(jb, s4.canon(add(J, K(1))))), "list: every entry is looked at", info.loc, "the walk skips entries", s4)
            e = s4.canon(fld(s4.canon(item), 1, 0))
            k, val_ = s4.canon(fld(e, 0, 0)), s4.canon(fld(e, 0, 1))
            own = s4.canon(fld(fld(k, 0, 0), 0, 0))
            am, ex = s4.canon(fld(val_, 0, 0)), s4.canon(fld(val_, 0, 1))
            now = now_of(s4)
            dead = and_(ge0(sub(ex, K(1))), ge0(sub(now, ex)))
            isprev = _keys(s4, k, s4.canon(start)) if prev is not None and not excl else False
            if not ps:
                ok = s4.val(eq(own, s4.canon(owner0))) is False or s4.val(dead) is True or isprev is True
                if not ok:
                    ok = s4.val(s4.canon(dead)) is True
                rep.check(ok, "list: skips only expired ones", info.loc, lambda: "an entry %s is left out of the listing" % sh(k), s4)
                continue
            x = View(s4.canon(ps[0][1]))
            rep.check(s4.val(eq(own, s4.canon(owner0))) is True, "list: only of the owner asked for", info.loc, "an approval of another owner is listed", s4)
            rep.check(s4.val(s4.canon(dead)) is False, "list: only live ones", info.loc, "an approval that may have expired is listed", s4)
            rep.check(isprev is False, "list: previous spender is excluded", info.loc, "the entry of the previous spender may be listed again", s4)
            for y, lim in zip(limit, ("the maximum", "what was asked for")):
                rep.check(s4.val(ge0(s4.canon(sub(y, vec_len(s4.canon(new)))))) is True, "list: within the limit", info.loc,
                          lambda: "more entries than %s may be listed" % lim, s4)
            rep.check(_keys(s4, tup(key(acc(x.from_account)), key(acc(x.to_spender))), k) is True, "list: names the two accounts", info.loc,
                      lambda: "the entry of %s is listed as %s, %s" % (sh(k), sh(s4.canon(x.from_account)), sh(s4.canon(x.to_spender))), s4)
            rep.check(same_nat(s4, x.allowance, am), "list: true amount", info.loc, lambda: "the amount listed is %s" % sh(s4.canon(x.allowance)), s4)
            for s5, y in opt(s4.copy(), s4.canon(x.expires_at)):
                rep.check(s5.val(eq0(s5.canon(ex))) is True if y is None else same(s5, y, ex), "list: true expiry", info.loc,
                          lambda: "the expiry listed is %s" % (sh(y) if y is not None else "none"), s5)


def _leaves(s, k, n=2):
    """an approval key or account key, taken apart"""
    if n == 0:
        return [s.canon(k)]
    return _leaves(s, s.canon(fld(k, 0, 0)), n - 1) + _leaves(s, s.canon(fld(k, 0, 1)), n - 1)


def _keys(s, a, b, n=2):
    """True / False / None: are the two keys the same?"""
    r = [True if same(s, x, y) else s.val(eq(x, y)) for x, y in zip(_leaves(s, a, n), _leaves(s, b, n))]
    if any(x is False for x in r) or s.val(eq(s.canon(a), s.canon(b))) is False:
        return False
    return True if all(x is True for x in r) else s.val(eq(s.canon(a), s.canon(b)))


def _item_ty(info, J):
    for st in info.back:
        for t in st.f.var:
            if t.op == "mitem" and t.a[2] is J:
                return t.ty
    return None


def _under(st, s):
    """the loop state under the facts of the path s that entered the loop"""
    n = st.copy()
    for a, b in s.sub.items():
        if a not in n.sub and not n.assume(_eq(a, b), True):
            return []
    for t, vs in s.f.var.items():
        t = n.canon(t)
        if t.op == "agg":
            if t.a[1] not in vs:
                return []
        elif not n.set_var(t, set(vs)):
            return []
    return [n]


def _eq(a, b):
    return eq0(sub(a, b)) if is_int_term(a) and is_int_term(b) else eq(a, b)


def _start(s, lo):
    """(key at which the walk starts, is it excluded)"""
    if lo.op != "agg":
        return None, False
    nm = lo.a[0] if isinstance(lo.a[0], str) else ""
    if nm.endswith("RangeFrom"):
        return s.canon(lo.a[2][0]), False
    if len(lo.a[2]) == 2:
        a, b = s.canon(lo.a[2][0]), s.canon(lo.a[2][1])
        if a.op == "agg" and b.op == "agg" and a.ty is not None and a.ty.is_enum() and b.ty is not None and b.ty.is_enum():
            na, nb = a.ty.variants[a.a[1]][0], b.ty.variants[b.a[1]][0]
            if na in ("Included", "Excluded") and nb == "Unbounded":
                x = s.canon(a.a[2][0])
                return x, na == "Excluded"
    return None, False


def _lowest(s, k):
    """the smallest account key: the empty principal, all-zero subaccount"""
    own, subacc = s.canon(fld(k, 0, 0)), s.canon(fld(k, 0, 1))
    if own.op == "principal":
        empty = own.a[0].op == "agg" and not own.a[0].a[2]
    else:
        empty = own.ty is not None and s.val(eq0(s.canon(fld(own, 0, 0, own.ty.fields()[0][1])))) is True
    return empty and same(s, subacc, ZERO32)


# ------------------------------------------------------------------ C07
def rule_expiry(o, rep):
    """an approval is dead, or alive, on every interface at once"""
    rep.only = ("list: skips only expired", "list: only live", "expiry: ", "allowance: not expired", "allowance: an approval exists",
                "allowance refusal: expired only", "allowance refusal: names", "allowance refusal: only if it",
                "approve: expected allowance is", "approve: expiry lies", "approve: refusal reports", "approve: refused only",
                "prune: removes only expired approvals")
    try:
        if o.root == "icrc103_get_allowances":
            rule_allowance_list(o, rep)
        elif o.root == "icrc2_allowance":
            rule_expiry_read(o, rep)
        else:
            for f in (rule_approve, rule_allowance, rule_allowance_refusal, rule_housekeeping):
                f(o, rep)
    finally:
        rep.only = None
