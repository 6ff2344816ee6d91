"""Models of iterator consumers that are not followed (overrides of the standard library, collect, extend): they step the
iterator themselves, with the loop treatment of the interpreter."""
from terms import *
from interp import Gap


def drive(ip, st, c, steps, it, acc, step, keep=(), back=False):
    """steps `it`; step(state, item, acc) -> [(state, go?, acc)]. Returns [(state, stopped?, acc, iterator afterwards)]"""
    nxt, out = steps
    d = ip.depth
    n = 0
    while ("L", d, "iter%d" % n) in st.mem:
        n += 1
    ci, ca, cr = ("L", d, "iter%d" % n), ("L", d, "acc%d" % n), ("L", d, "res%d" % n)
    ks = [("L", d, "keep%d.%d" % (n, i)) for i in range(len(keep))]
    st.mem[ci], st.mem[ca] = it, acc
    for k, v in zip(ks, keep):
        st.mem[k] = v

    def run(s):
        outs = []
        for s1, o in ip.call(s, nxt, [mk("ref", ci, ())], out):
            o = s1.canon(o)
            for s2, v in s1.variant(o, 2):
                if v == 0:
                    if not back:
                        s2.mem.pop(ci, None)
                    outs.append(("exit", s2, "end"))
                    continue
                if ca not in s2.mem:
                    raise Gap("an accumulator of an iteration is unknown")
                o2 = s2.canon(o)
                fs = out.fields(1) if out is not None else None
                for s3, go, a in step(s2, fld(o2, 1, 0, fs[0][1] if fs else None), s2.mem[ca]):
                    if go:
                        s3.mem[ca] = a
                        outs.append(("back", s3, "iter"))
                    else:
                        s3.mem[cr] = a
                        if not back:
                            s3.mem.pop(ci, None)
                        outs.append(("exit", s3, "stop"))
        return outs
    loc = ip.loc()
    fn = ip.stack[-1][0] if ip.stack else "?"
    res = []
    for k, s, x in ip.iterate(st, run, (fn, loc, c.rpath, n), fn, loc):
        if k != "exit":
            raise Gap("an iteration leaves in an unexpected way: %s" % k)
        r = s.mem.get(cr if x == "stop" else ca)
        if r is None:
            raise Gap("an accumulator of an iteration is unknown")
        i = s.mem.get(ci)
        for q in [ci, ca, cr] + ks:
            s.mem.pop(q, None)
        res.append((s, x == "stop", r, i))
    return res


def _self(ip, st, a):
    """(iterator value, pointer to it or None)"""
    if ip.is_ptr(a):
        return ip.load(st, a), a
    return a, None


def _back(ip, s, ptr, i):
    if ptr is not None:
        ip.store(s, ptr, i if i is not None else mk("app", "iterator moved on"))


def consume(name):
    def m(ip, st, c, args, dty):
        x = ip.p.steps(c, 0)
        if x is None:
            return NotImplemented
        _, ity, nxt, out = x
        it, ptr = _self(ip, st, args[0])
        fs = out.fields(1) if out is not None else None
        ety = fs[0][1] if fs else None
        f = args[1] if len(args) > 1 else None
        if name == "fold":
            aty, init, f = dty, args[1], args[2]
        elif name == "try_fold":
            init, f = args[1], args[2]
        elif name in ("count", "position"):
            init = K(0)
        else:
            init = UNIT
        bty = ip.p.types.get("bool")

        def step(s, e, acc):
            if name == "fold":
                return [(s1, True, r) for s1, r in ip.call_value(s, f, [acc, e], dty)]
            if name == "for_each":
                return [(s1, True, UNIT) for s1, r in ip.call_value(s, f, [e], None)]
            if name == "count":
                return [(s, True, add(acc, K(1)))]
            if name == "last":
                return [(s, True, e)]
            if name == "try_fold":
                r = []
                for s1, v in ip.call_value(s, f, [acc, e], dty):
                    v = s1.canon(v)
                    go = carrier(dty)
                    for s2, k in s1.variant(v, 2):
                        v2 = s2.canon(v)
                        gf = dty.fields(go)
                        r.append((s2, True, fld(v2, go, 0, gf[0][1])) if k == go else (s2, False, v2))
                return r
            if name == "find_map":
                r = []
                for s1, v in ip.call_value(s, f, [e], dty):
                    v = s1.canon(v)
                    for s2, k in s1.variant(v, 2):
                        r.append((s2, k == 0, UNIT if k == 0 else s2.canon(v)))
                return r
            want = name != "all"
            x = e
            if name == "find":
                x = ip.valref(e)
            r = []
            for s1, b in ip.call_value(s, f, [x], bty):
                for s2, v in s1.fork(b):
                    if bool(v) == want:
                        r.append((s2, False, {"any": TRUE, "all": FALSE, "find": s2.canon(e) if not ip.is_ptr(e) else e,
                                              "position": acc}[name]))
                    else:
                        r.append((s2, True, add(acc, K(1)) if name == "position" else acc))
            return r
        res = []
        for s, stop, r, i in drive(ip, st, c, (nxt, out), it, init, step, list(args), ptr is not None):
            _back(ip, s, ptr, i)
            if name in ("fold", "for_each", "count"):
                v = r
            elif name == "try_fold":
                v = r if stop else agg(ip.p.tk(dty), carrier(dty), (r,), ty=dty)
            elif name == "find_map":
                v = r if stop else agg(ip.p.tk(dty), 0, (), ty=dty)
            elif name in ("find", "position"):
                v = agg(ip.p.tk(dty), 1, (r,), ty=dty) if stop else agg(ip.p.tk(dty), 0, (), ty=dty)
            elif name == "last":
                if r is UNIT:
                    v = agg(ip.p.tk(dty), 0, (), ty=dty)
                elif r.op == "lv":
                    raise Gap("the last item of an iteration")
                else:
                    v = agg(ip.p.tk(dty), 1, (r,), ty=dty)
            elif name == "any":
                v = B(stop)
            else:
                v = B(not stop)
            res.append((s, v))
        return res
    return m


def carrier(ty):
    """the variant of a Try type that means 'go on'"""
    p = ty.path if ty is not None and ty.k == "adt" else ""
    if p.endswith("ControlFlow") or p.endswith("Result"):
        return 0
    if p.endswith("Option"):
        return 1
    raise Gap("try_fold over an unusual type")


CONSUME = {n: consume(n) for n in ("fold", "try_fold", "for_each", "any", "all", "find", "find_map", "position", "count", "last")}


def into(ip, st, steps, v):
    return ip.call(st, steps[0], [v], steps[1])


COLL = {}    # collected list -> the loop variable it was collected in


def collect(empty, put):
    def m(ip, st, c, args, dty):
        from models import val
        x = ip.p.steps(c, -1)
        if x is None:
            return NotImplemented
        res = []
        for s, it in into(ip, st, x, args[0]):
            src = val(ip, s, it)
            for s1, _, r, _ in drive(ip, s, c, x[2:], it, empty(dty), lambda s, e, acc: [(s, True, put(ip, s, acc, e, dty))]):
                if r.op == "lv":
                    # named after what was collected, so that executions that collect the same meet again
                    n = mk("coll", S(ip.loc()), src, ty=dty)
                    COLL[n] = r
                    r = n
                res.append((s1, r))
        return res
    return m


def extend(put):
    def m(ip, st, c, args, dty):
        x = ip.p.steps(c, -1)
        if x is None:
            return NotImplemented
        cur = ip.load(st, args[0])
        res = []
        for s, it in into(ip, st, x, args[1]):
            for s1, _, r, _ in drive(ip, s, c, x[2:], it, cur, lambda s, e, acc: [(s, True, put(ip, s, acc, e, cur.ty))], [args[0]]):
                ip.store(s1, args[0], r)
                cc, p = ip.target(s1, args[0])
                ip.static_write(s1, cc, p, r, ip.loc())
                res.append((s1, UNIT))
        return res
    return m


def push(ip, s, v, x, ty):
    if v.op == "agg" and v.a[0] == "vec":
        return agg("vec", 0, v.a[2] + (x,), ty=v.ty or ty)
    return mk("push", v, x, ty=v.ty or ty)


def put_kv(ip, s, m, e, ty):
    from models import val
    e = val(ip, s, e)
    k, v = fld(e, 0, 0), fld(e, 0, 1)
    return mk("ins", m, k, v, ty=m.ty or ty)


def reserve(ip, st, c, args, dty):
    return [(st, UNIT)]


def append_seq(by_val):
    """Vec::append(&mut other) / extend_from_slice(&[T])"""
    def m(ip, st, c, args, dty):
        o = ip.load(st, args[1])
        if not (o.op == "agg" and o.a[0] in ("vec", "array")):
            return NotImplemented
        v = ip.load(st, args[0])
        for x in o.a[2]:
            v = push(ip, st, v, x, v.ty)
        ip.store(st, args[0], v)
        if by_val:
            ip.store(st, args[1], agg("vec", 0, (), ty=o.ty))
        return [(st, UNIT)]
    return m


def pop(ip, st, c, args, dty):
    v = ip.load(st, args[0])
    if v.op == "agg" and v.a[0] == "vec":
        if not v.a[2]:
            return [(st, agg(ip.p.tk(dty), 0, (), ty=dty))]
        ip.store(st, args[0], agg("vec", 0, v.a[2][:-1], ty=v.ty))
        return [(st, agg(ip.p.tk(dty), 1, (v.a[2][-1],), ty=dty))]
    if v.op == "push":
        ip.store(st, args[0], v.a[0])
        return [(st, agg(ip.p.tk(dty), 1, (v.a[1],), ty=dty))]
    return NotImplemented


def next_back(ip, st, c, args, dty):
    it = ip.load(st, args[0])
    if it.op != "agg" or it.a[0] != "it":
        return NotImplemented
    seq, i, byref = it.a[2]
    if seq.op != "agg" or i.op != "k":
        return NotImplemented
    if i.a[0] >= len(seq.a[2]):
        return [(st, agg(ip.p.tk(dty), 0, (), ty=dty))]
    x = seq.a[2][-1]
    ip.store(st, args[0], agg("it", 0, (agg("vec", 0, seq.a[2][:-1], ty=None), i, byref)))
    fs = dty.fields(1)
    if byref.a[0] and fs and fs[0][1].k == "ref":
        x = ip.valref(x, fs[0][1])
    return [(st, agg(ip.p.tk(dty), 1, (x,), ty=dty))]


def array_map(ip, st, c, args, dty):
    v = args[0]
    if v.op != "agg" or v.a[0] != "array" or len(v.a[2]) > 32:
        return NotImplemented
    cur = [(st, ())]
    for x in v.a[2]:
        cur = [(s2, r + (y,)) for s, r in cur for s2, y in ip.call_value(s, args[1], [x], dty.elem if dty is not None else None)]
    return [(s, agg("array", 0, r, ty=dty)) for s, r in cur]


def size_hint(ip, st, c, args, dty):
    return [(st, mk("app", "size_hint", ty=dty))]


EMPTYVEC = lambda ty: agg("vec", 0, (), ty=ty)
EMPTYMAP = lambda ty: mk("emptymap", ty=ty)
EXACT = {
    "alloc::vec::{}::from_iter": collect(EMPTYVEC, push), "alloc::vec::{}::extend": extend(push),
    "alloc::boxed::{}::from_iter": collect(EMPTYVEC, push), "alloc::boxed::iter::{}::from_iter": collect(EMPTYVEC, push),
    "alloc::collections::btree::map::{}::from_iter": collect(EMPTYMAP, put_kv),
    "alloc::collections::btree::map::{}::extend": extend(put_kv),
    "alloc::vec::{}::reserve": reserve, "alloc::vec::{}::reserve_exact": reserve, "alloc::vec::{}::shrink_to_fit": reserve,
    "alloc::vec::{}::append": append_seq(True), "alloc::vec::{}::extend_from_slice": append_seq(False),
    "alloc::vec::{}::pop": pop, "core::array::{}::map": array_map,
}
