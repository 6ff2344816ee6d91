"""Views of an analysed entry point that the rules are written against: messages (from entry or an awaited call to the
next awaited call or the end), their stages (between mutating loops), and what they do to each part of the ledger state."""
from terms import *
from interp import SEGS, LOOPS, STATE, ZERO32
import models

CELL = ("S", STATE)


def base_state(ip, v):
    return mk("static", STATE + ("@%d" % v if v else ""), ty=ip.static_ty(STATE))


class Stage:
    __slots__ = ("base", "final", "loop", "loc", "nev")


class Msg:
    """one message execution. st: its facts and memory; ev: its events; stages: ledger states between mutating loops"""
    __slots__ = ("o", "st", "kind", "val", "loc", "seg", "stages", "ev", "stack", "reply", "to")

    def field(self, n, final=True):
        s = self.stages[-1].final if final else self.stages[0].base
        return get_field(s, n)


def get_field(s, name):
    """name: dotted"""
    for n in name.split("."):
        i = s.ty.field_index(n)
        s = fld(s, 0, i, s.ty.fields()[i][1])
    return s


def state_of(ip, st):
    return st.mem.get(CELL) if CELL in st.mem else base_state(ip, st.vn)


def loop_of(ev):
    for e in ev:
        if e.a[0] == "loop":
            return LOOPS[e.a[1].a[0]]
        if e.a[0] != "seg":
            break
    return None


def havocs(loop, name):
    """does the loop change this part of the ledger state?"""
    if loop is None:
        return False
    ty = None
    for (c, path) in loop.havoc:
        if c != CELL:
            continue
        if not path:
            return True
        t = loop.head.mem[CELL]
        ns = []
        for tk, v, i in path:
            fs = t.ty.fields(v)
            ns.append(fs[i][0])
            t = fld(t, v, i, fs[i][1])
        a, b = ".".join(ns), name
        if a == b or a.startswith(b + ".") or b.startswith(a + "."):
            return True
    return False


def _compose(o, st, cap=4000):
    """[(state, stages, events, seg that starts the message)]"""
    ip = o.ip
    if st.ev and st.ev[0].a[0] == "seg":
        seg = SEGS[st.ev[0].a[1].a[0]]
        if seg.kind == "await":
            s = Stage()
            s.base, s.final, s.loop, s.loc, s.nev = base_state(ip, seg.pre[0].vn + 1), state_of(ip, st), None, seg.loc, 0
            return [(st, [s], st.ev[1:], seg)]
        out = []
        for pre in seg.pre:
            for pst, pstages, pev, pseg in _compose(o, pre, cap):
                k = base_state(ip, pre.vn + 1)
                A = pstages[-1].final
                n = st.copy()
                m = dict(pst.sub)
                memo = {}
                R0 = (lambda t: subst(t, m, memo)) if m else (lambda t: t)
                mm = {k: A}
                memo2 = {}
                R = lambda t: subst(R0(t), mm, memo2)
                n.mem = {(c if c[0] not in ("V", "P") else (c[0], R(c[1]))): R(t) for c, t in st.mem.items()}
                n.f = pst.f.copy()
                n.alts = pst.alts + tuple((br, rs + (R,)) for br, rs in st.alts)
                n.sub = dict(pst.sub)
                okk = True
                for a, b in st.sub.items():
                    a = R(a)
                    if a in n.sub:
                        continue
                    if not n.assume(_eqt(a, R(b)), True):
                        okk = False
                        break
                if not okk or not _facts(n, st.f, R):
                    continue
                s = Stage()
                lp = loop_of(st.ev)
                s.base = R(_lv_base(ip, lp, k))
                s.final, s.loop, s.loc, s.nev = R(state_of(ip, st)), lp, seg.loc, len(pev)
                ev = tuple(R(e) for e in st.ev if e.a[0] != "seg")
                n.ev = pev + ev
                for n2 in _resolve(n, [s.final, s.base]):
                    c = n2.canon
                    stages = [_cst(x, c) for x in pstages] + [_cst(s, c)]
                    out.append((n2, stages, n2.ev, pseg))
                if len(out) > cap:
                    raise RuntimeError("too many composed paths")
        return out
    s = Stage()
    s.base, s.final, s.loop, s.loc, s.nev = base_state(ip, 0), state_of(ip, st), None, None, 0
    if st.vn:
        s.base = base_state(ip, st.vn)
    return [(st, [s], st.ev, None)]


def _resolve(n, roots):
    """decide the lookups that now read through updates made before the loop"""
    out, work = [], [n]
    while work:
        n = work.pop()
        t = None
        seen = set()
        for r in [n.canon(r) for r in roots] + list(n.ev) + list(n.f.var):
            subterms(r, seen)
        for xs in n.f.lin:
            for a, _ in xs:
                subterms(a, seen)
        for x in seen:
            if x.op == "get" and x.a[0].op in ("ins", "rem") and (t is None or x.id < t.id):
                t = x
        if t is None:
            out.append(n)
            continue
        m, k = t.a
        for s, v in n.fork(eq(k, m.a[1])):
            t2 = s.canon(t)
            if t2 is t:
                r = (some_t(t.ty, m.a[2]) if m.op == "ins" else none_t(t.ty)) if v else mk("get", s.canon(m.a[0]), s.canon(k), ty=t.ty)
                if not s.substitute({t: r}):
                    continue
            work.append(s)
    return out


def some_t(ty, x):
    return agg(ty.path, 1, (x,), ty=ty)


def none_t(ty):
    return agg(ty.path, 0, (), ty=ty)


def _eqt(a, b):
    if is_int_term(a) and is_int_term(b):
        return eq0(sub(a, b))
    return eq(a, b)


def _cst(x, c):
    s = Stage()
    s.base, s.final, s.loop, s.loc, s.nev = c(x.base), c(x.final), x.loop, x.loc, x.nev
    return s


def _lv_base(ip, loop, k):
    """the ledger state an iteration of the loop starts from"""
    return loop.head.mem.get(CELL, k) if loop is not None else k


def _facts(n, f, R):
    for xs, c in f.lin.items():
        if not n.f.add_ge0(n.canon(R(mklin(c, dict(xs))))):
            return False
    for t in f.ne:
        if not n.f.add_ne0(n.canon(R(t))):
            return False
    for t, vs in f.var.items():
        t = n.canon(R(t))
        if t.op == "agg":
            if t.a[1] not in vs:
                return False
        elif not n.set_var(t, set(vs)):
            return False
    for b, v in f.bl.items():
        if not n.assume(n.canon(R(b)), v):
            return False
    return True


def messages(o, kinds=("ret", "await")):
    """all composed message executions"""
    c = o.__dict__.setdefault("_msgs", {})
    if kinds not in c:
        c[kinds] = _messages(o, kinds)
    return c[kinds]


def _messages(o, kinds):
    out = []
    if "ret" in kinds or "trap" in kinds:
        for e in o.ends:
            if e.kind not in kinds:
                continue
            for st, stages, ev, seg in _compose(o, e.st):
                m = Msg()
                m.o, m.st, m.kind, m.loc, m.seg, m.stages, m.ev, m.stack, m.to = o, st, e.kind, e.loc, seg, stages, ev, e.stack, None
                m.val = st.canon(e.val) if isinstance(e.val, T) else e.val
                m.reply = reply_of(ev)
                out.append(m)
    if "await" in kinds:
        for g in SEGS:
            if g.kind != "await":
                continue
            for pre in g.pre:
                for st, stages, ev, seg in _compose(o, pre):
                    m = Msg()
                    m.o, m.st, m.kind, m.loc, m.seg, m.stages, m.ev, m.stack, m.to = o, st, "await", g.loc, seg, stages, ev, (), g
                    m.val = m.reply = None
                    out.append(m)
    return out


def reply_of(ev):
    for e in reversed(ev):
        if e.a[0] == "reply":
            return e.a[1]
    return None


# ---------------------------------------------------------------- maps
def chain(m):
    """(base, [(kind, key, value)]) oldest first"""
    ops = []
    while m.op in ("ins", "rem"):
        ops.append((m.op, m.a[1], m.a[2] if m.op == "ins" else None))
        m = m.a[0]
    ops.reverse()
    return m, ops


def logchain(m, stop=None):
    """(base, [elements appended to it]); never looks below `stop`"""
    xs = []
    while m is not stop and m.op == "append":
        xs.append(m.a[1])
        m = m.a[0]
    xs.reverse()
    return m, xs


def split_keys(st, keys):
    """[(state, [distinct keys])] : the partition of keys into classes, decided in each state"""
    out = []

    def go(s, todo, done):
        while todo:
            k = s.canon(todo[0])
            todo = todo[1:]
            dup = False
            for i, d in enumerate(done):
                d = s.canon(d)
                v = s.val(eq(k, d))
                if v is None:
                    for s2, w in s.fork(eq(k, d)):
                        if w:
                            go(s2, todo, done)
                        else:
                            go2(s2, k, todo, done, i + 1)
                    return
                if v:
                    dup = True
                    break
            if not dup:
                done = done + [k]
        out.append((s, [s.canon(d) for d in done]))

    def go2(s, k, todo, done, i):
        while i < len(done):
            k = s.canon(k)
            d = s.canon(done[i])
            v = s.val(eq(k, d))
            if v is None:
                for s2, w in s.fork(eq(k, d)):
                    if w:
                        go(s2, todo, done)
                    else:
                        go2(s2, k, todo, done, i + 1)
                return
            if v:
                go(s, todo, done)
                return
            i += 1
        go(s, todo, done + [k])
    go(st, list(keys), [])
    return out


OPT = models.OPT_ANY


def lookup(ip, st, m, k, oty):
    """[(state, None | value term)]"""
    out = []
    for s, t in models.map_get(ip, st, s_canon(st, m), st.canon(k), oty):
        for s2, v in s.variant(t, 2):
            t2 = s2.canon(t)
            out.append((s2, None if v == 0 else fld(t2, 1, 0, oty.variants[1][2][0][1])))
    return out


def s_canon(st, m):
    return st.canon(m)


class OTy:
    pass


def opt_of(ty):
    t = Ty("Option<%s>" % ty, "adt")
    t.path, t.adt, t.args = "core::option::Option", "enum", [ty]
    t.variants = [("None", 0, []), ("Some", 1, [("0", ty)])]
    return t


_opts = {}


def map_opt(ip, name):
    """the Option<V> type of looking up the ledger map of that name"""
    r = _opts.get(name)
    if r is None:
        ty = ip.static_ty(STATE)
        i = ty.field_index(name)
        vt = ty.fields()[i][1].args[1]
        s = "std::option::Option<%s>" % vt.s
        r = _opts[name] = ip.p.types.get(s) or opt_of(vt)
    return r


def balance(ip, st, m, k):
    """[(state, integer term)]; an absent account holds zero"""
    return [(s, K(0) if v is None else v) for s, v in lookup(ip, st, m, k, map_opt(ip, "balances"))]


def akey(acc):
    """balance key of an Account term"""
    fs = acc.ty.fields() if acc.ty is not None else None
    o = fld(acc, 0, 0, fs[0][1] if fs else None)
    s = fld(acc, 0, 1, fs[1][1] if fs else None)
    return tup(o, models.effsub(s))


# ---------------------------------------------------------------- blocks
class View:
    """named access to an aggregate/opaque struct term"""

    def __init__(self, t, v=0):
        self.t, self.v = t, v

    def __getattr__(self, n):
        t = self.t
        i = t.ty.field_index(n, self.v)
        if i is None:
            raise AttributeError(n)
        return fld(t, self.v, i, t.ty.fields(self.v)[i][1])


def unblock(x):
    """Cbor(Block) -> Block"""
    while x.ty is not None and x.ty.k == "adt" and x.ty.path and x.ty.path.endswith("::Cbor"):
        x = fld(x, 0, 0, x.ty.fields()[0][1])
    return x


def ops_of(st, block):
    """[(state, operation name, View of its fields, View of the transaction, View of the block)]"""
    b = View(unblock(block))
    tx = View(b.transaction)
    op = tx.operation
    out = []
    for s, v in st.variant(op):
        o = s.canon(op)
        out.append((s, op.ty.variants[v][0], View(o, v), View(s.canon(tx.t)), View(s.canon(b.t))))
    return out


def opt(st, t):
    """[(state, None | payload)] of an Option term"""
    out = []
    for s, v in st.variant(t, 2):
        t2 = s.canon(t)
        fs = t.ty.fields(1) if t.ty is not None else None
        out.append((s, None if v == 0 else fld(t2, 1, 0, fs[0][1] if fs else None)))
    return out


def effects(st, block):
    """[(state, [(balance key, signed amount)], dict)] : what a block says about balances"""
    out = []
    for s, name, op, tx, b in ops_of(st, block):
        if name == "Mint":
            out.append((s, [(akey(op.to), op.amount)], name, op, tx, b))
            continue
        if name == "Burn":
            fees = [(s, None)]
        else:
            fees = opt(s, op.fee)
        for s1, f in fees:
            if f is None:
                fs = [(s2, K(0) if g is None else g) for s2, g in opt(s1, s1.canon(b.effective_fee))]
            else:
                fs = [(s1, f)]
            for s2, fee in fs:
                c = s2.canon
                o2, tx2, b2 = View(c(op.t), op.v), View(c(tx.t)), View(c(b.t))
                fee = c(fee)
                if name == "Transfer":
                    d = [(akey(o2.__getattr__("from")), scale(add(o2.amount, fee), -1)), (akey(o2.to), o2.amount)]
                elif name == "Burn":
                    d = [(akey(o2.__getattr__("from")), scale(add(o2.amount, fee), -1))]
                elif name == "Approve":
                    d = [(akey(o2.__getattr__("from")), scale(fee, -1))]
                else:
                    d = None
                out.append((s2, d, name, o2, tx2, b2))
    return out


# ---------------------------------------------------------------- pieces
class Piece:
    """a stretch of one message in which the named parts of the state evolve without an abstracted loop"""
    __slots__ = ("m", "st", "base", "final", "ev", "loc", "first", "last", "loops")

    def b(self, n):
        return self.base[n]

    def f(self, n):
        return self.final[n]


def pieces(m, names):
    out = []
    cur = {n: get_field(m.stages[0].base, n) for n in names}
    start, lp = 0, None
    for i, s in enumerate(m.stages):
        if i > 0 and any(havocs(s.loop, n) for n in names):
            prev = m.stages[i - 1].final
            out.append(_piece(m, cur, {n: get_field(prev, n) for n in names}, m.ev[start:s.nev], s.loc, lp))
            lp = s.loop
            cur = {n: get_field(s.base if havocs(s.loop, n) else prev, n) for n in names}
            start = s.nev
    out.append(_piece(m, cur, {n: get_field(m.stages[-1].final, n) for n in names}, m.ev[start:], m.loc, lp))
    out[0].first, out[-1].last = True, True
    return out


def _piece(m, base, final, ev, loc, loop):
    p = Piece()
    p.loops = loop  # the loop that ran just before this piece
    p.m, p.st, p.base, p.final, p.ev, p.loc, p.first, p.last = m, m.st, base, final, ev, loc, False, False
    return p


def iterations(o):
    """one Msg per way around a mutating loop"""
    out = []
    for info in LOOPS:
        if info is None or not o.ip.body_effects(info):
            continue
        for b in info.back:
            m = Msg()
            m.o, m.st, m.kind, m.loc, m.seg, m.ev, m.stack, m.to = o, b, "iter", info.loc, None, b.ev[len(info.head.ev):], info.stack, info
            m.val = m.reply = None
            s = Stage()
            s.base, s.final, s.loop, s.loc, s.nev = info.head.mem.get(CELL), state_of(o.ip, b), None, info.loc, 0
            s.base = b.canon(s.base) if s.base is not None else base_state(o.ip, info.head.vn)
            m.stages = [s]
            out.append(m)
    return out


def transitions(o, kinds=("ret", "await")):
    return messages(o, kinds) + iterations(o)


def split(st, i=-1):
    """[states] : one of the joins on the way here undone (the latest by default); None if there is none"""
    if not st.alts:
        return None
    i %= len(st.alts)
    branches, rs = st.alts[i]

    def R(t):
        for r in rs:
            t = r(t)
        return t
    out = []
    for f, sub in branches:
        n = st.copy()
        n.alts = st.alts[:i] + tuple((br, r2 + rs) for br, r2 in sub) + st.alts[i + 1:]
        if _facts(n, f, R):
            out.append(n)
    return out


_NEAR = {}


def _near(sig, q):
    """how many of the facts a join tells apart are about the terms of q?"""
    if q is None:
        return 0
    k = (sig, q)
    if k not in _NEAR:
        ts = {t for t in subterms(q) if t.op != "k"}
        _NEAR[k] = sum(1 for t in sig if any(x in ts for x in ([t] if isinstance(t, T) else [x for x, _ in t])))
    return _NEAR[k]


def settle(st):
    """the state after undoing every join of which only one branch is still possible; None if none is"""
    again = True
    while again:
        again = False
        i = len(st.alts) - 1
        while i >= 0:
            sts = split(st, i)
            if not sts:
                return None
            if len(sts) == 1:
                st, again = sts[0], True
            i -= 1
    return st


SPLITS = 6000  # states a message may be taken apart into; fewer once a violation is known
_SIG = {}


def signature(br):
    """what tells the branches of a join apart"""
    c = _SIG.get(id(br))
    if c is None:
        d = set()
        for f, _ in br:
            for t, v in f.var.items():
                if not all(g.var.get(t) == v for g, _ in br):
                    d.add(t)
            for x, k in f.lin.items():
                if not all(g.lin.get(x) == k for g, _ in br):
                    d.add(x)
            for t, v in f.bl.items():
                if not all(g.bl.get(t) == v for g, _ in br):
                    d.add(t)
        c = _SIG[id(br)] = (br, frozenset(d))
    return c[1]


def _holds(alts, hot, depth=6):
    """does an earlier join that helped before lie within?"""
    return any(hot.get(signature(br)) or depth and any(_holds(sub, hot, depth - 1) for _, sub in br) for br, _ in alts)


def each(rep, ms):
    """the messages, one at a time; one on which the rule fails is taken apart into the paths that were joined in it and
    tried again, so that only what fails on a single path counts. Which join to undo first is a guess: one is preferred
    after which the rule holds on some of the paths."""
    hot = {}
    for m in ms:
        if rep.keep is not None and not rep.keep(m):
            continue
        work, left = [m], 300 if rep.viol else SPLITS
        while work:
            m = work.pop()
            mark = rep.mark()
            yield m
            if not rep.failed(mark) or left <= 0:
                continue
            st = settle(m.st)
            if st is not m.st:  # some joins had one branch left
                rep.reset(mark)
                if st is None:
                    continue
                left -= 1
                m = _with(m, st)
                yield m
                if not rep.failed(mark) or left <= 0:
                    continue
            n = len(m.st.alts)
            done = False
            ids = [signature(br) for br, _ in m.st.alts]
            deep = not any(hot.get(x) for x in ids) and any(_holds(sub, hot) for br, _ in m.st.alts for _, sub in br)
            near = [_near(x, rep.focus) for x in ids]
            for i in [] if deep else sorted(range(n), key=lambda j: (-hot.get(ids[j], 0), -near[j], -j)):
                if left <= 0:
                    break
                sts = split(m.st, i)
                left -= len(sts)
                rep.reset(mark)
                bad = []
                for st in sts:
                    x = _with(m, st)
                    k = rep.mark()
                    yield x
                    if rep.failed(k):
                        bad.append(x)
                        rep.reset(k)
                if len(bad) < len(m.st.alts[i][0]):
                    work += bad
                    hot[ids[i]] = hot.get(ids[i], 0) + 1
                    done = True
                    break
            if done or not n:
                continue
            if left <= 0:
                rep.reset(mark)
                yield m
                continue
            i = max((j for j in range(n)), key=lambda j: (near[j], any(_holds(sub, hot) for _, sub in m.st.alts[j][0]), any(sub for _, sub in m.st.alts[j][0]), j))
            rep.reset(mark)
            left -= 1
            for st in split(m.st, i):
                work.append(_with(m, st))


def _with(m, st):
    n = Msg()
    n.o, n.st, n.kind, n.loc, n.seg, n.stack, n.to = m.o, st, m.kind, m.loc, m.seg, m.stack, m.to
    c = st.canon
    n.val = c(m.val) if isinstance(m.val, T) else m.val
    n.ev = tuple(c(e) for e in m.ev)
    n.reply = c(m.reply) if m.reply is not None else None
    n.stages = [_cst(x, c) for x in m.stages]
    return n


def muts(ev, field=None):
    """[(field, kind, args, loc)] of the state changes among events"""
    out = []
    for e in ev:
        if e.a[0] == "mut" and e.a[1].a[0].startswith(STATE):
            f = e.a[2].a[0]
            if field is None or f == field or f.startswith(field + "."):
                out.append((f, e.a[3].a[0], e.a[4].a, e.a[5].a[0]))
        elif e.a[0] == "write" and e.a[1].a[0].startswith(STATE):
            f = e.a[2].a[0]
            if field is None or f == field or f.startswith(field + ".") or f == "":
                out.append((f, "write", (e.a[3],), e.a[4].a[0]))
    return out


def where(p, *fields):
    """source location of the last change to any of the fields in this piece, else where it ends"""
    l = None
    for f in fields:
        for x in muts(p.ev, f):
            l = x[3]
    return l or p.loc
