"""Models of everything outside the analysed bodies: the IC API, stable structures, collections, numbers, errors.

A model is called as m(ip, st, c, args, dty) and returns [(state, value)] or NotImplemented."""
import re
from terms import *
import terms as TM
from interp import Gap, ZERO32
import m_iter as ITER

STATE = "cycles_ledger::storage::STATE"
CERT = ("S", "ic.certified_data")
AVAIL = ("S", "ic.cycles_available")

_imp = re.compile(r"\{impl#\d+\}")
_gen = re.compile(r"<[^<>]*>")


def norm(p):
    return _imp.sub("{}", p)


# ---------------------------------------------------------------- helpers
def vidx(ty, name, default):
    if ty is not None and ty.k == "adt":
        i = ty.variant_index(name)
        if i is not None:
            return i
    return default


def some(ip, ty, x):
    return agg(ip.p.tk(ty), vidx(ty, "Some", 1), (x,), ty=ty)


def none(ip, ty):
    return agg(ip.p.tk(ty), vidx(ty, "None", 0), (), ty=ty)


def ok(ip, ty, x):
    return agg(ip.p.tk(ty), vidx(ty, "Ok", 0), (x,), ty=ty)


def err(ip, ty, x):
    return agg(ip.p.tk(ty), vidx(ty, "Err", 1), (x,), ty=ty)


def optty(ty, v=1):
    fs = ty.fields(v) if ty is not None else None
    return fs[0][1] if fs else None


def val(ip, st, t, d=0):
    """the value behind a pointer (recursively): terms without cells"""
    n = 0
    while ip.is_ptr(t) and t.op in ("ref", "guard") and n < 6:
        t = ip.load(st, t)
        n += 1
    if t.op == "agg" and d < 6 and any(x.op in ("ref", "guard", "agg") for x in t.a[2]):
        t = agg(t.a[0], t.a[1], [val(ip, st, x, d + 1) for x in t.a[2]], ty=t.ty)
    return t


def opaque(ip, st, c, args, dty, name=None):
    return mk("app", name or norm(c.rpath), *[val(ip, st, a) for a in args], ty=dty)


def effsub(o):
    """effective subaccount of an Option<[u8; 32]> value"""
    if o.op == "agg":
        if o.a[1] == 1:
            return o.a[2][0]
        return ZERO32
    return mk("effsub", o)



TM.REBUILD["effsub"] = lambda t, a: effsub(a[0])


def log_len(m):
    n = 0
    while m.op == "append":
        m = m.a[0]
        n += 1
    return add(mk("len", m), K(n))


def seq_len(t):
    if t.op == "agg" and t.a[0] in ("array", "vec"):
        return K(len(t.a[2]))
    if t.op == "s":
        return K(len(t.a[0].encode()))
    if t.op == "push":
        return add(seq_len(t.a[0]), K(1))
    if t.op == "append":
        return log_len(t)
    if t.op == "ins" or t.op == "rem":
        return mk("len", t)
    if t.ty is not None and t.ty.k == "array" and isinstance(t.ty.len, int):
        return K(t.ty.len)
    if t.op == "bytesof":
        return seq_len(t.a[0])
    return mk("len", t)


TM.REBUILD["len"] = lambda t, a: seq_len(a[0])


# ---------------------------------------------------------------- ordered maps
def _get_rebuild(t, a):
    """a lookup whose map or key was simplified: read through updates where the keys are decided"""
    m, k = a
    while m.op in ("ins", "rem"):
        e = eq(k, m.a[1])
        if e is TRUE:
            if t.ty is None:
                break
            return agg(t.ty.path, 1, (m.a[2],), ty=t.ty) if m.op == "ins" else agg(t.ty.path, 0, (), ty=t.ty)
        if e is not FALSE:
            break
        m = m.a[0]
    return mk("get", m, k, ty=t.ty)


TM.REBUILD["get"] = _get_rebuild


def map_get(ip, st, m, k, oty):
    """[(state, Option<V> term)] for looking k up in map term m"""
    while True:
        k = st.canon(k)
        m = st.canon(m)
        if m.op == "ins":
            e = eq(k, m.a[1])
        elif m.op == "rem":
            e = eq(k, m.a[1])
        else:
            break
        v = st.val(e)
        if v is None:
            out = []
            for s, w in st.fork(e):
                out += map_get(ip, s, m, k, oty)
            return out
        if v:
            if m.op == "ins":
                return [(st, some(ip, oty, m.a[2]))]
            return [(st, none(ip, oty))]
        m = m.a[0]
    if m.op == "emptymap":
        return [(st, none(ip, oty))]
    t = mk("get", m, k, ty=oty)
    if k.op == "fld" and k.a[0].op == "fld" and k.a[0].a[0].op in ("first", "mitem") and k.a[0].a[0].a[0] is m:
        return [(st, some(ip, oty, fld(k.a[0], 0, 1, optty(oty))))]
    return [(st, t)]


def map_old(ip, st, m, k, oty):
    """the previous entry without forcing a case split"""
    m, k = st.canon(m), st.canon(k)
    while m.op in ("ins", "rem"):
        v = st.val(eq(k, m.a[1]))
        if v is None:
            return mk("get", m, k, ty=oty)
        if v:
            return some(ip, oty, m.a[2]) if m.op == "ins" else none(ip, oty)
        m = m.a[0]
    if m.op == "emptymap":
        return none(ip, oty)
    return mk("get", m, k, ty=oty)


def _fname(ip, cell, path):
    return ".".join(str(ip.fname(e)) for e in path)


def mutated(ip, st, ptr, kind, *terms):
    c, p = ip.target(st, ptr)
    if c[0] == "S":
        st.event("mut", S(c[1]), S(_fname(ip, c, p)), S(kind), mk("args", *terms), S(ip.loc()))


def m_get(ip, st, c, args, dty):
    return map_get(ip, st, ip.load(st, args[0]), val(ip, st, args[1]), dty)


def m_contains(ip, st, c, args, dty):
    m = ip.load(st, args[0])
    out = []
    for s, t in map_get(ip, st, m, val(ip, st, args[1]), OPT_ANY):
        for s2, v in s.variant(t, 2):
            out.append((s2, B(v == 1)))
    return out


class _AnyOpt:
    """shape of an Option whose payload type is not known here"""


OPT_ANY = Ty("Option<?>", "adt")
OPT_ANY.path, OPT_ANY.adt, OPT_ANY.args = "core::option::Option", "enum", []
OPT_ANY.variants = [("None", 0, []), ("Some", 1, [("0", None)])]


def m_insert(ip, st, c, args, dty):
    m = ip.load(st, args[0])
    k, v = val(ip, st, args[1]), val(ip, st, args[2])
    old = map_old(ip, st, m, k, dty)
    ip.store(st, args[0], mk("ins", m, k, v, ty=m.ty))
    mutated(ip, st, args[0], "insert", k, v)
    return [(st, old)]


def m_remove(ip, st, c, args, dty):
    m = ip.load(st, args[0])
    k = val(ip, st, args[1])
    old = map_old(ip, st, m, k, dty)
    ip.store(st, args[0], mk("rem", m, k, ty=m.ty))
    mutated(ip, st, args[0], "remove", k)
    return [(st, old)]


def m_first(ip, st, c, args, dty):
    return [(st, mk("first", st.canon(ip.load(st, args[0])), ty=dty))]


def m_last(ip, st, c, args, dty):
    return [(st, mk("last", ip.load(st, args[0]), ty=dty))]


def m_pop_first(ip, st, c, args, dty):
    m = ip.load(st, args[0])
    t = mk("first", m, ty=dty)
    out = []
    for s, v in st.variant(t, 2):
        if v == 1:
            kv = fld(t, 1, 0, optty(dty))
            k = fld(kv, 0, 0, kv.ty.fields()[0][1] if kv.ty is not None else None)
            ip.store(s, args[0], mk("rem", m, k, ty=m.ty))
            mutated(ip, s, args[0], "remove", k)
        out.append((s, t))
    return out


def m_clear(ip, st, c, args, dty):
    ip.store(st, args[0], mk("emptymap"))
    mutated(ip, st, args[0], "clear")
    return [(st, UNIT)]


def m_len(ip, st, c, args, dty):
    return [(st, seq_len(st.canon(ip.load(st, args[0]))))]


def m_is_empty(ip, st, c, args, dty):
    return [(st, eq0(seq_len(st.canon(ip.load(st, args[0])))))]


def m_iter(ip, st, c, args, dty):
    return [(st, agg("miter", 0, (ip.load(st, args[0]), mk("unbounded"), K(0))))]


def m_range(ip, st, c, args, dty):
    return [(st, agg("miter", 0, (ip.load(st, args[0]), val(ip, st, args[1]), K(0))))]


def m_iter_next(ip, st, c, args, dty):
    it = ip.load(st, args[0])
    if it.op != "agg" or it.a[0] != "miter":
        return NotImplemented
    m, lo, i = it.a[2]
    t = mk("mitem", m, lo, i, ty=dty)
    out = []
    for s, v in st.variant(t, 2):
        if v == 1:
            ip.store(s, args[0], agg("miter", 0, (m, lo, add(i, K(1)))))
            out.append((s, t))
        else:
            out.append((s, none(ip, dty)))
    return out


# ---------------------------------------------------------------- logs, cells
def l_append(ip, st, c, args, dty):
    m = ip.load(st, args[0])
    x = val(ip, st, args[1])
    n = seq_len(st.canon(m))
    ip.store(st, args[0], mk("append", m, x, ty=m.ty))
    mutated(ip, st, args[0], "append", x)
    r = []
    # an Err means that stable memory could not grow; nothing was appended
    s2 = st.copy()
    full = mk("app", "log full", m, x, ty=ip.p.types.get("bool"))
    if not st.assume(st.canon(full), False) or not s2.assume(s2.canon(full), True):
        raise Gap("log")
    ip.store(s2, args[0], m)
    s2.ev = s2.ev[:-1] if s2.ev and s2.ev[-1].a[0] == "mut" else s2.ev
    r.append((st, ok(ip, dty, n)))
    r.append((s2, err(ip, dty, mk("app", "log write error", ty=optty(dty, vidx(dty, "Err", 1))))))
    return r


def l_get(ip, st, c, args, dty):
    m = st.canon(ip.load(st, args[0]))
    i = val(ip, st, args[1])
    out = []

    def go(s, m):
        m, j = s.canon(m), s.canon(i)
        if m.op == "append":
            n = seq_len(m.a[0])
            for s2, v in s.fork(eq0(sub(j, n))):
                if v:
                    out.append((s2, some(ip, dty, m.a[1])))
                else:
                    go(s2, m.a[0])
            return
        for s2, v in s.fork(lt(j, seq_len(m))):
            if v:
                out.append((s2, some(ip, dty, mk("elem", s2.canon(m), s2.canon(j), ty=optty(dty)))))
            else:
                out.append((s2, none(ip, dty)))
    go(st, m)
    return out


def cell_get(ip, st, c, args, dty):
    cc, p = ip.target(st, args[0])
    return [(st, ip.mkref(cc, p, dty))]


def cell_set(ip, st, c, args, dty):
    v = val(ip, st, args[1])
    old = ip.load(st, args[0])
    s2 = st.copy()
    ip.store(st, args[0], v)
    mutated(ip, st, args[0], "set", v)
    if dty is not None and dty.k == "adt" and dty.variant_index("Err") is not None:
        return [(st, ok(ip, dty, old if optty(dty, 0) is not None and not (optty(dty, 0).k == "tuple") else UNIT)),
                (s2, err(ip, dty, mk("app", "cell write error", ty=optty(dty, 1))))]
    return [(st, old)]


# ---------------------------------------------------------------- thread-locals and RefCell
def tls_key(ip, st, k):
    """the thread-local a LocalKey value stands for"""
    for _ in range(8):
        if k.op == "ref":
            k = ip.load(st, k)
        elif k.op == "agg" and len(k.a[2]) == 1:
            k = k.a[2][0]
    return k


def tls_with(ip, st, c, args, dty):
    k = tls_key(ip, st, args[0])
    if k.op != "tls":
        return NotImplemented
    return ip.call_value(st, args[1], [mk("ref", ("S", k.a[0]), ())], dty)


def tls_with_borrow(mut):
    def m(ip, st, c, args, dty):
        k = tls_key(ip, st, args[0])
        if k.op != "tls":
            return NotImplemented
        out = []
        for s, g in _borrow(ip, st, mk("ref", ("S", k.a[0]), ()), mut):
            for s2, v in ip.call_value(s, args[1], [g], dty):
                s2.bor.pop(g.a[0], None)
                out.append((s2, v))
        return out
    return m


def _borrow(ip, st, r, mut):
    cell, path = ip.target(st, r)
    ip.borrows.add((str(cell[1]), ip.loc()))
    for tk, (c2, p2, m2) in st.bor.items():
        n = min(len(path), len(p2))
        if c2 == cell and path[:n] == p2[:n] and (mut or m2):
            st.event("reborrow", S(str(cell[1])), S(ip.loc()))
            ip.trap(st, "already borrowed", ip.loc())
            return []
    st.tok += 1
    st.bor[st.tok] = (cell, path, mut)
    return [(st, mk("guard", st.tok, cell, path, mut))]


def rc_borrow(mut):
    def m(ip, st, c, args, dty):
        return _borrow(ip, st, args[0], mut)
    return m


def guard_deref(ip, st, c, args, dty):
    g = args[0]
    n = 0
    while g.op == "ref" and n < 4:
        g = ip.load(st, g)
        n += 1
    if g.op != "guard":
        return NotImplemented
    return [(st, mk("ref", g.a[1], g.a[2], ty=dty))]


# ---------------------------------------------------------------- the IC
def ic_time(ip, st, c, args, dty):
    return [(st, mk("sym", "time:%d" % st.ep, ty=ip.p.types.get("u64")))]


def ic_caller(ip, st, c, args, dty):
    return [(st, mk("sym", "caller", ty=dty))]


def ic_trap(ip, st, c, args, dty):
    ip.trap(st, "ic_cdk::trap", ip.loc())
    return []


def panic(ip, st, c, args, dty):
    ip.trap(st, norm(c.path), ip.loc())
    return []


def ic_avail(ip, st, c, args, dty):
    v = st.mem.get(AVAIL)
    return [(st, v if v is not None else mk("sym", "cycles_available", ty=ip.p.types.get("u128")))]


def ic_accept(ip, st, c, args, dty):
    a = st.mem.get(AVAIL) or mk("sym", "cycles_available", ty=ip.p.types.get("u128"))
    out = []
    for s, v in st.fork(le(args[0], a)):
        n = s.canon(args[0] if v else a)
        s.mem[AVAIL] = sub(s.canon(a), n)
        s.event("accept", n)
        out.append((s, n))
    return out


def ic_certify(ip, st, c, args, dty):
    v = val(ip, st, args[0])
    st.mem[CERT] = v
    st.event("certify", v, S(ip.loc()))
    return [(st, UNIT)]


def ic_reply(ip, st, c, args, dty):
    v = val(ip, st, args[0])
    if v.op == "app" and v.a[0] == "enc":
        v = v.a[1]
    st.event("reply", v)
    return [(st, UNIT)]


def enc_one(ip, st, c, args, dty):
    return [(st, ok(ip, dty, mk("app", "enc", *[val(ip, st, a) for a in args])))]


def dec_args(ip, st, c, args, dty):
    return [(st, ok(ip, dty, mk("sym", "arg", ty=optty(dty, 0))))]


def arg_data(ip, st, c, args, dty):
    return [(st, mk("app", "arg_data", ty=dty))]


def exec_ctx(ip, st, c, args, dty):
    return ip.call_value(st, args[-1], [], dty)


def spawn(ip, st, c, args, dty):
    v = args[0]
    key = v.a[0] if v.op == "agg" else (v.ty.key if v.ty is not None else None)
    if key not in ip.p.funcs:
        raise Gap("spawn of an unknown future")
    return [(s, UNIT) for s, _ in ip.run_fn(st, ip.p.funcs[key], [v, UNIT])]


def fut_ext(name):
    def m(ip, st, c, args, dty):
        return [(st, mk("fut", name, mk("args", *[val(ip, st, a) for a in args]), ty=dty))]
    return m


def call_new(mode):
    def m(ip, st, c, args, dty):
        return [(st, mk("callb", mode, val(ip, st, args[0]), val(ip, st, args[1]), UNIT, K(0), ty=dty))]
    return m


def call_with(i):
    def m(ip, st, c, args, dty):
        b = val(ip, st, args[0])
        if b.op != "callb":
            return NotImplemented
        a = list(b.a)
        a[i] = val(ip, st, args[1])
        return [(st, mk("callb", *a, ty=dty))]
    return m


def call_keep(ip, st, c, args, dty):
    return [(st, args[0])]


def cbor_write(ip, st, c, args, dty):
    """ciborium writes the whole value or fails"""
    v, buf = val(ip, st, args[0]), args[1]
    while True:
        x = ip.load(st, buf)
        if not (ip.is_ptr(x) and x.op in ("ref", "guard")):
            break
        buf = x
    empty = x.op == "agg" and x.a[0] == "vec" and not x.a[2]
    good, bad = st.copy(), st
    ip.store(good, buf, mk("app", "cbor", v, ty=x.ty) if empty else mk("app", "cbor after", x, v, ty=x.ty))
    return [(good, ok(ip, dty, UNIT)), (bad, err(ip, dty, mk("app", "cbor failure", v, ty=optty(dty, 1))))]


def stable_size(ip, st, c, args, dty):
    t = mk("app", "ic_cdk::stable::stable_size", ty=dty)
    st.f.add_ge0(sub(K(1 << 32), t))  # pages of 64 KiB: far beyond what a canister may hold
    return [(st, t)]


def awaited(ip, st, fut, rty, dty):
    """the callee runs, other messages may run, then this message resumes: a new epoch with arbitrary state"""
    ip.borrows.add(("await", ip.loc()))
    if st.bor:
        st.event("heldborrow", S(ip.loc()))
    st.event("await", fut, S(ip.loc()), K(len(st.bor)))
    m = {fut: mk("sent")}  # what was sent is in the event; nothing reads the finished future again
    memo = {}
    for c, t in st.mem.items():
        st.mem[c] = subst(t, m, memo)
    ip.cut(st, "await", ip.loc())
    r = mk("awaitres", st.ep, ty=rty)
    return [(st, agg(ip.p.tk(dty), 0, (r,), ty=dty))]


def poll_ext(ip, st, c, args, dty):
    v = val(ip, st, args[0])
    n = 0
    while v.op == "agg" and v.a[2] and n < 4:
        v = val(ip, st, v.a[2][0])
        n += 1
    if v.op not in ("fut", "callb"):
        return NotImplemented
    return awaited(ip, st, v, optty(dty, 0), dty)


# ---------------------------------------------------------------- numbers
def num_ty(ip, args, dty):
    for a in args:
        if a.ty is not None and a.ty.k == "int":
            return a.ty
    return None


def inty(ip, c, args, dty):
    """integer type an inherent integer method works on"""
    for t in ([c.selfty] if isinstance(c.selfty, Ty) else []):
        if t.k == "int":
            return t
    n = None
    if dty is not None:
        if dty.k == "int":
            n = dty
        elif dty.k == "adt" and dty.path.endswith("Option"):
            n = optty(dty)
        elif dty.k == "tuple" and dty.elems:
            n = dty.elems[0]
    if n is not None and n.k == "int":
        return n
    return num_ty(ip, args, dty)


def arith(op, a, b):
    if op == "add":
        return add(a, b)
    if op == "sub":
        return sub(a, b)
    if op == "mul":
        if a.op == "k":
            return scale(b, a.a[0])
        if b.op == "k":
            return scale(a, b.a[0])
        return mk("mul", *sorted((a, b), key=lambda x: x.id))
    return None


def inrange(ty, t):
    lo, hi = ty_range(ty)
    return and_(ge0(add(t, K(-lo))), ge0(sub(K(hi), t)))


def checked(op):
    def m(ip, st, c, args, dty):
        ty = inty(ip, c, args, dty)
        a, b = args
        t = arith(op, a, b)
        if ty is None or t is None:
            return NotImplemented
        out = []
        for s, v in st.fork(inrange(ty, t)):
            out.append((s, some(ip, dty, s.canon(t)) if v else none(ip, dty)))
        return out
    return m


def saturating(op):
    def m(ip, st, c, args, dty):
        ty = inty(ip, c, args, dty)
        a, b = args
        t = arith(op, a, b)
        if ty is None or t is None:
            return NotImplemented
        lo, hi = ty_range(ty)
        out = []
        for s, v in st.fork(ge0(sub(K(hi), t))):
            if not v:
                out.append((s, K(hi)))
                continue
            for s2, w in s.fork(ge0(add(s.canon(t), K(-lo)))):
                out.append((s2, s2.canon(t) if w else K(lo)))
        return out
    return m


def wrapping(op):
    def m(ip, st, c, args, dty):
        ty = inty(ip, c, args, dty)
        t = arith(op, *args)
        if ty is None or t is None:
            return NotImplemented
        r = ip.wrap(st, t, ty)
        if r is not t and st.val(inrange(ty, t)) is not True:
            st.event("maywrap", S(ip.stack[-1][0] if ip.stack else "?"), S(ip.loc()), t)
        return [(st, r)]
    return m


def overflowing(op):
    def m(ip, st, c, args, dty):
        ty = inty(ip, c, args, dty)
        t = arith(op, *args)
        if ty is None or t is None:
            return NotImplemented
        out = []
        for s, v in st.fork(inrange(ty, t)):
            t2 = s.canon(t)
            out.append((s, agg("tuple", 0, (t2 if v else mk("wrap", t2, ty.s, ty=ty), B(not v)), ty=dty)))
        return out
    return m


def unchecked(op):
    def m(ip, st, c, args, dty):
        t = arith(op, *args)
        return NotImplemented if t is None else [(st, t)]
    return m


def divs(op):
    def m(ip, st, c, args, dty):
        a, b = args
        if a.op == "k" and b.op == "k" and b.a[0] > 0 and a.a[0] >= 0:
            return [(st, K(a.a[0] // b.a[0] if op == "div" else a.a[0] % b.a[0]))]
        return NotImplemented
    return m


def abs_diff(ip, st, c, args, dty):
    out = []
    for s, v in st.fork(le(args[0], args[1])):
        out.append((s, s.canon(sub(args[1], args[0]) if v else sub(args[0], args[1]))))
    return out


def minmax(is_min):
    def m(ip, st, c, args, dty):
        a, b = args[0], args[1]
        if not (is_int_term(a) and is_int_term(b)):
            return NotImplemented
        out = []
        for s, v in st.fork(le(a, b)):
            out.append((s, s.canon(a if v == is_min else b)))
        return out
    return m


def clamp(ip, st, c, args, dty):
    x, lo, hi = args
    if not (is_int_term(x) and is_int_term(lo) and is_int_term(hi)):
        return NotImplemented
    out = []
    for s, v in st.fork(lt(x, lo)):
        if v:
            out.append((s, s.canon(lo)))
            continue
        for s2, w in s.fork(lt(hi, x)):
            out.append((s2, s2.canon(hi if w else x)))
    return out


def nat_from(ip, st, c, args, dty):
    a = val(ip, st, args[0])
    if is_int_term(a):
        return [(st, mk("nat", a, ty=dty))]
    if a.ty is not None and a.ty.k == "adt" and "big" in (a.ty.path or ""):
        return [(st, agg(ip.p.tk(dty), 0, (a,), ty=dty))]
    return NotImplemented


def nat_to(bits):
    def m(ip, st, c, args, dty):
        n = val(ip, st, args[0])
        if n.op == "nat":
            x = n.a[0]
            out = []
            for s, v in st.fork(ge0(sub(K((1 << bits) - 1), x))):
                out.append((s, some(ip, dty, s.canon(x)) if v else none(ip, dty)))
            return out
        return [(st, mk("to_u%d" % bits, n, ty=dty))]
    return m


def nat_try(ip, st, c, args, dty):
    """TryFrom<(&)BigUint> for an integer type"""
    ity = optty(dty, 0)
    oty = ip.p.types.get("std::option::Option<%s>" % ity.s) if ity is not None and ity.k == "int" and not ity.signed else None
    if oty is None:
        n = norm(c.rpath)
        ip.unknown[n] = ip.unknown.get(n, 0) + 1
        return [(st, mk("app", n, *[val(ip, st, a) for a in args], ty=dty))]
    out = []
    for s, t in nat_to(ity.bits)(ip, st, c, args, oty):
        for s2, v in s.variant(t, 2):
            out.append((s2, ok(ip, dty, s2.canon(fld(t, 1, 0, ity))) if v == 1 else err(ip, dty, mk("app", "out of range", ty=optty(dty, 1)))))
    return out


def nat_is_zero(ip, st, c, args, dty):
    n = val(ip, st, args[0])
    if n.op == "nat":
        return [(st, eq0(n.a[0]))]
    if is_int_term(n):
        return [(st, eq0(n))]
    return [(st, mk("app", "is_zero", n, ty=dty))]


def as_nanos(scale_):
    def m(ip, st, c, args, dty):
        d = val(ip, st, args[0])

        def nums(t):
            while t.op == "agg" and len(t.a[2]) == 1:
                t = t.a[2][0]
            return t
        if d.op == "agg" and len(d.a[2]) == 2:
            s, n = nums(d.a[2][0]), nums(d.a[2][1])
            if s.op == "k" and n.op == "k":
                return [(st, K((s.a[0] * 10 ** 9 + n.a[0]) // scale_))]
        return [(st, opaque(ip, st, c, args, dty))]
    return m


def dur_from(mult):
    def m(ip, st, c, args, dty):
        a = args[0]
        if a.op == "k" and dty is not None and dty.fields():
            ns = a.a[0] * mult
            fs = dty.fields()
            inner = K(ns % 10 ** 9)
            if fs[1][1].k == "adt":
                inner = agg(ip.p.tk(fs[1][1]), 0, (inner,), ty=fs[1][1])
            return [(st, agg(ip.p.tk(dty), 0, (K(ns // 10 ** 9), inner), ty=dty))]
        return NotImplemented
    return m


# ---------------------------------------------------------------- values
def ident_load(ip, st, c, args, dty):
    return [(st, ip.load(st, args[0]))]


def ident(ip, st, c, args, dty):
    return [(st, args[0])]


def clone(ip, st, c, args, dty):
    f = ip.p.funcs.get(c.key)
    if f is not None and f.crate not in ("core", "alloc", "std") and not f.raw.get("derived"):
        return NotImplemented            # hand-written: analyse its body
    v = ip.load(st, args[0])
    if v.op in ("guard",):
        return NotImplemented
    return [(st, v)]


def to_owned(ip, st, c, args, dty):
    if ip.is_ptr(args[0]):
        v = ip.load(st, args[0])
        if dty is not None and dty.s.startswith("std::vec::Vec") and v.op == "agg" and v.a[0] == "array":
            v = agg("vec", 0, v.a[2], ty=dty)
        return [(st, v)]
    return [(st, args[0])]


def val_eq(neg=False):
    def m(ip, st, c, args, dty):
        f = ip.p.funcs.get(c.key)
        if f is not None and f.crate not in ("core", "alloc", "std") and not f.raw.get("derived"):
            return NotImplemented
        a, b = val(ip, st, args[0]), val(ip, st, args[1])
        e = eq(st.canon(a), st.canon(b))
        return [(st, not_(e) if neg else e)]
    return m


def effective_subaccount(ip, st, c, args, dty):
    a = ip.load(st, args[0])
    o = a.a[2][1] if a.op == "agg" else fld(a, 0, 1, ip.sub_ty(a.ty))
    vs = st.f.var.get(o)
    if vs is not None and len(vs) == 1 and o.op != "agg":
        o2 = fld(o, 1, 0, optty(o.ty)) if 1 in vs else ZERO32
        return [(st, ip.valref(o2, dty))]
    return [(st, ip.valref(effsub(o), dty))]


def principal_as_slice(ip, st, c, args, dty):
    return [(st, ip.valref(mk("bytesof", val(ip, st, args[0])), dty))]


def principal_const(*bs):
    def model(ip, st, c, args, dty):
        fs = dty.fields(0)
        xs = [K(b) for b in bs] + [K(0)] * (29 - len(bs))
        return [(st, agg(dty.path, 0, (K(len(bs)), agg("array", 0, tuple(xs), ty=fs[1][1])), ty=dty))]
    return model


def principal_from_slice(ip, st, c, args, dty):
    v = val(ip, st, args[0])
    if v.op == "bytesof":
        return [(st, v.a[0])]
    return [(st, mk("principal", v, ty=dty))]


# ---------------------------------------------------------------- sequences
def vec_new(ip, st, c, args, dty):
    return [(st, agg("vec", 0, (), ty=dty))]


def vec_push(ip, st, c, args, dty):
    v = ip.load(st, args[0])
    x = args[1]
    if v.op == "agg" and v.a[0] == "vec":
        n = agg("vec", 0, v.a[2] + (x,), ty=v.ty)
    else:
        n = mk("push", v, x, ty=v.ty)
    ip.store(st, args[0], n)
    return [(st, UNIT)]


def vec_deref(ip, st, c, args, dty):
    cc, p = ip.target(st, args[0])
    return [(st, ip.mkref(cc, p, dty))]


def seq_len_m(ip, st, c, args, dty):
    return [(st, seq_len(st.canon(ip.load(st, args[0]) if ip.is_ptr(args[0]) else args[0])))]


def seq_is_empty(ip, st, c, args, dty):
    return [(st, eq0(seq_len(st.canon(ip.load(st, args[0])))))]


def seq_to_vec(ip, st, c, args, dty):
    v = val(ip, st, args[0])
    if v.op == "agg" and v.a[0] == "array":
        v = agg("vec", 0, v.a[2], ty=dty)
    return [(st, v)]


def new_uninit(ip, st, c, args, dty):
    st.tok += 1
    cell = ("G", st.tok)
    st.mem.pop(cell, None)
    return [(st, mk("ref", cell, (), ty=None))]


def into_vec(ip, st, c, args, dty):
    v = ip.load(st, args[0])
    n = 0
    while n < 4:  # MaybeUninit, ManuallyDrop
        n += 1
        if v.op == "upd" and v.a[0].op == "moved":
            v = v.a[3]
        elif v.op == "agg" and v.a[0] not in ("array", "vec") and len(v.a[2]) == 1:
            v = v.a[2][0]
    if v.op == "agg" and v.a[0] == "array":
        return [(st, agg("vec", 0, v.a[2], ty=dty))]
    return [(st, mk("app", "into_vec", v, ty=dty))]


def box_new(ip, st, c, args, dty):
    st.tok += 1
    cell = ("G", st.tok)
    st.mem[cell] = args[0]
    return [(st, mk("ref", cell, ()))]


def into_iter_val(ip, st, c, args, dty):
    v = args[0]
    if ip.is_ptr(v):
        return [(st, agg("it", 0, (ip.load(st, v), K(0), mk("b", True))))]
    return [(st, agg("it", 0, (v, K(0), mk("b", False))))]


def slice_iter(ip, st, c, args, dty):
    v = args[0]
    if v.op == "s":
        return NotImplemented
    return [(st, agg("it", 0, (ip.load(st, v), K(0), mk("b", True))))]


def elem_at(ip, st, seq, i, ety):
    if seq.op == "agg" and i.op == "k" and seq.a[0] in ("array", "vec") and 0 <= i.a[0] < len(seq.a[2]):
        return seq.a[2][i.a[0]]
    return mk("elem", seq, i, ty=ety)


def seq_next(ip, st, c, args, dty):
    it = ip.load(st, args[0])
    if it.op != "agg" or it.a[0] != "it":
        return NotImplemented
    seq, i, byref = it.a[2]
    ety = optty(dty)
    if byref.a[0] and ety is not None and ety.k == "ref" and ety.mut:
        return NotImplemented  # writes through the items are not modelled
    out = []
    for s, v in st.fork(lt(i, seq_len(seq))):
        seq2, i2 = s.canon(seq), s.canon(i)
        if v:
            ety = optty(dty)
            if byref.a[0] and ety is not None and ety.k == "ref":
                x = elem_at(ip, s, seq2, i2, ety.to)
                x = x if ip.is_ptr(x) and False else ip.valref(x, ety)
            else:
                x = elem_at(ip, s, seq2, i2, ety)
            ip.store(s, args[0], agg("it", 0, (seq2, add(i2, K(1)), byref)))
            out.append((s, some(ip, dty, x)))
        else:
            out.append((s, none(ip, dty)))
    return out


def seq_nth(ip, st, c, args, dty):
    it = ip.load(st, args[0])
    if it.op != "agg" or it.a[0] != "it" or not is_int_term(args[1]):
        return NotImplemented
    seq, i, byref = it.a[2]
    out = []
    for s, v in st.fork(lt(add(i, args[1]), seq_len(seq))):
        seq2, i2 = s.canon(seq), s.canon(add(i, args[1]))
        ip.store(s, args[0], agg("it", 0, (seq2, i2 if v else seq_len(seq2), byref)))
        r = seq_next(ip, s, c, args, dty)
        if r is NotImplemented:
            return r
        out += r
    return out


def anonymous(ip, st, c, args, dty):
    return [(st, agg(ip.p.tk(dty), 0, (K(1), agg("array", 0, tuple(K(4 if i == 0 else 0) for i in range(29)), ty=dty.fields()[1][1])), ty=dty))]


def slice_contains(ip, st, c, args, dty):
    v = ip.load(st, args[0])
    x = val(ip, st, args[1])
    n = seq_len(v)
    if n.op != "k" or n.a[0] > 64:
        return [(st, mk("app", "contains", v, x, ty=dty))]
    e = FALSE
    for j in range(n.a[0]):
        e = or_(e, eq(elem_at(ip, st, v, K(j), None), x))
    return [(st, e)]


def slice_get(ip, st, c, args, dty):
    v = ip.load(st, args[0])
    i = args[1]
    if not is_int_term(i):
        return NotImplemented
    out = []
    for s, b in st.fork(lt(i, seq_len(v))):
        if b:
            rty = optty(dty)
            e = elem_at(ip, s, s.canon(v), s.canon(i), rty.to if rty is not None else None)
            out.append((s, some(ip, dty, ip.valref(e, rty))))
        else:
            out.append((s, none(ip, dty)))
    return out


def slice_firstlast(last):
    def m(ip, st, c, args, dty):
        v = ip.load(st, args[0])
        out = []
        n = seq_len(v)
        for s, b in st.fork(eq0(n)):
            if b:
                out.append((s, none(ip, dty)))
            else:
                rty = optty(dty)
                i = sub(s.canon(n), K(1)) if last else K(0)
                e = elem_at(ip, s, s.canon(v), i, rty.to if rty is not None else None)
                out.append((s, some(ip, dty, ip.valref(e, rty))))
        return out
    return m


def array_index(ip, st, c, args, dty):
    v = ip.load(st, args[0])
    i = args[1]
    if is_int_term(i):
        return [(st, ip.valref(elem_at(ip, st, v, i, dty.to if dty is not None else None), dty))]
    if i.op == "agg" and i.a[0].endswith("RangeFull"):
        return [(st, args[0])]
    return [(st, ip.valref(mk("app", "index", v, val(ip, st, i)), dty))]


# ---------------------------------------------------------------- BTreeMap (heap)
def bt_new(ip, st, c, args, dty):
    return [(st, mk("emptymap", ty=dty))]


# ---------------------------------------------------------------- errors, text, logging
def anyerr(ip, st, c, args, dty):
    return [(st, mk("app", "anyhow error", ty=dty))]


def fmt_opaque(ip, st, c, args, dty):
    return [(st, mk("app", "text", S(ip.loc()), ty=dty))]


def display_to_string(ip, st, c, args, dty):
    v = val(ip, st, args[0])
    if v.op == "s":
        return [(st, v)]
    return [(st, mk("app", "to_string", v, ty=dty))]


def context(ip, st, c, args, dty):
    """Result/Option .context(..) and .with_context(..)"""
    r = args[0]
    if r.op == "app" and r.a[0] == "anyhow error":
        return [(st, mk("app", "anyhow error", ty=dty))]
    if r.ty is None or not r.ty.is_enum():
        if r.op != "agg":
            return [(st, mk("app", "anyhow error", ty=dty))]
    out = []
    tyname = r.a[0] if r.op == "agg" else r.ty.path
    isopt = tyname.endswith("Option")
    for s, v in st.variant(r):
        good = v == (1 if isopt else 0)
        if good:
            fs = r.ty.fields(v) if r.ty is not None else None
            x = r.a[2][0] if r.op == "agg" else fld(r, v, 0, fs[0][1] if fs else None)
            out.append((s, ok(ip, dty, x)))
        else:
            cur = [(s, None)]
            if len(args) > 1:
                cl = args[1]
                if cl.op == "agg" and cl.a[0] in ip.p.funcs or cl.op == "fn":
                    cur = ip.call_value(s, cl, [], None)
            for s2, _ in cur:
                out.append((s2, err(ip, dty, mk("app", "anyhow error", ty=optty(dty, 1)))))
    return out


def noop(ip, st, c, args, dty):
    return [(st, UNIT if dty is None or (dty.k == "tuple" and not dty.elems) else mk("app", norm(c.rpath), ty=dty))]


def pure(name=None):
    def m(ip, st, c, args, dty):
        return [(st, opaque(ip, st, c, args, dty, name))]
    return m


def sideless(ip, st, c, args, dty):
    """a log / metrics / http helper: the result depends on nothing the properties speak about"""
    return [(st, UNIT if dty is not None and dty.k == "tuple" and not dty.elems else mk("app", norm(c.rpath), S(ip.loc()), ty=dty))]


# ---------------------------------------------------------------- hashing, encoding
def ser_value(ip, st, c, args, dty):
    v = val(ip, st, args[0])
    s2 = st.copy()
    return [(st, ok(ip, dty, mk("ser", v, ty=optty(dty, 0)))),
            (s2, err(ip, dty, mk("app", "ser error", ty=optty(dty, 1))))]


def hash_value(ip, st, c, args, dty):
    return [(st, mk("hash", val(ip, st, args[0]), ty=dty))]


def tree_insert(ip, st, c, args, dty):
    t = ip.load(st, args[0])
    ip.store(st, args[0], mk("tins", t, val(ip, st, args[1]), val(ip, st, args[2])))
    mutated(ip, st, args[0], "tree", val(ip, st, args[1]), val(ip, st, args[2]))
    return [(st, UNIT)]


def tree_new(ip, st, c, args, dty):
    return [(st, mk("emptytree", ty=dty))]


def leb128(ip, st, c, args, dty):
    v = ip.load(st, args[0])
    n = args[1]
    if v.op == "agg" and v.a[0] == "vec" and not v.a[2]:
        ip.store(st, args[0], mk("leb", n, ty=v.ty))
    else:
        ip.store(st, args[0], mk("app", "leb+", v, n, ty=v.ty))
    return [(st, ok(ip, dty, mk("app", "leblen", n, ty=optty(dty, 0))))]


def memo_encode(ip, st, c, args, dty):
    """minicbor Encoder::encode(&mut self, x)"""
    e = ip.load(st, args[0])
    ip.store(st, args[0], mk("mcb", e, val(ip, st, args[1]), ty=e.ty))
    return [(st, ok(ip, dty, args[0]))]


def mem_replace(ip, st, c, args, dty):
    old = ip.load(st, args[0])
    ip.store(st, args[0], args[1])
    cc, p = ip.target(st, args[0])
    ip.static_write(st, cc, p, args[1], ip.loc())
    return [(st, old)]


def mem_take(ip, st, c, args, dty):
    old = ip.load(st, args[0])
    ty = dty
    d = default_of(ip, ty)
    ip.store(st, args[0], d)
    cc, p = ip.target(st, args[0])
    ip.static_write(st, cc, p, d, ip.loc())
    return [(st, old)]


def mem_swap(ip, st, c, args, dty):
    a, b = ip.load(st, args[0]), ip.load(st, args[1])
    for r, v in ((args[0], b), (args[1], a)):
        ip.store(st, r, v)
        cc, p = ip.target(st, r)
        ip.static_write(st, cc, p, v, ip.loc())
    return [(st, UNIT)]


def default_of(ip, ty):
    if ty is None:
        return mk("app", "default")
    if ty.k == "int":
        return K(0)
    if ty.k == "bool":
        return FALSE
    if ty.k == "tuple":
        return agg("tuple", 0, [default_of(ip, t) for t in ty.elems], ty=ty)
    if ty.k == "array" and isinstance(ty.len, int) and ty.len <= 64:
        return agg("array", 0, [default_of(ip, ty.elem)] * ty.len, ty=ty)
    if ty.k == "adt":
        if ty.path == "core::option::Option":
            return none(ip, ty)
        if ty.s.startswith("std::vec::Vec"):
            return agg("vec", 0, (), ty=ty)
        if ty.s.startswith("std::string::String"):
            return S("")
    return mk("app", "default", ty.s, ty=ty)


def default(ip, st, c, args, dty):
    f = ip.p.funcs.get(c.key)
    if f is not None and (f.local or f.crate.startswith(("cycles", "depositor", "fake"))):
        return NotImplemented
    if dty is not None and dty.k == "adt" and dty.adt == "struct" and dty.path.startswith("ic_management_canister_types") \
            and all(t is not None and t.k == "adt" and t.path == "core::option::Option" for _, t in dty.fields()):
        return [(st, agg(ip.p.tk(dty), 0, [none(ip, t) for _, t in dty.fields()], ty=dty))]
    d = default_of(ip, dty)
    if d.op == "app":
        return NotImplemented
    return [(st, d)]


# ---------------------------------------------------------------- conversions keyed by signature
def sig_model(ip, c):
    """crate functions from a block / transaction to a hash or a value are summarised as injective constructors;
    their bodies are the subject of the encoding properties"""
    f = ip.p.funcs.get(c.key)
    if f is None or not f.crate.startswith("cycles_ledger") or f.args != 1:
        return None
    f = ip.p.prep(f)
    a, r = f.locals[1], f.locals[0]
    if a.k == "ref":
        a = a.to
    if a is None or a.k != "adt":
        return None
    isblock = a.path == "cycles_ledger::storage::Block"
    istx = a.path == "cycles_ledger::storage::Transaction"
    if not (isblock or istx):
        return None

    def ishash(t):
        return t.k == "array" and t.len == 32 and t.elem is not None and t.elem.s == "u8"
    if ishash(r):
        return "hash", False
    if r.k == "adt" and r.path == "core::result::Result" and ishash(r.variants[0][2][0][1]):
        return "hash", True
    if r.k == "adt" and r.path.endswith("generic_value::Value"):
        return "value", False
    return None


def sig_call(kind, fallible):
    def m(ip, st, c, args, dty):
        v = val(ip, st, args[0])
        t = mk(kind, v, ty=None)
        if fallible:
            t.ty = optty(dty, 0)
            s2 = st.copy()
            b = mk("app", "hash fails", v, ty=ip.p.types.get("bool"))
            out = []
            for s, w in st.fork(b):
                out.append((s, err(ip, dty, mk("app", "anyhow error", ty=optty(dty, 1)))) if w else
                           (s, ok(ip, dty, s.canon(t))))
            return out
        t.ty = dty
        return [(st, t)]
    return m


# ---------------------------------------------------------------- tables
SB = "ic_stable_structures::btreemap::{}::"
SBI = "ic_stable_structures::btreemap::iter::{}::"
LG = "ic_stable_structures::log::{}::"
CELL = "ic_stable_structures::cell::{}::"
HB = "alloc::collections::btree::map::{}::"

EXACT = {
    SB + "get": m_get, SB + "insert": m_insert, SB + "remove": m_remove, SB + "contains_key": m_contains,
    SB + "len": m_len, SB + "is_empty": m_is_empty, SB + "first_key_value": m_first, SB + "last_key_value": m_last,
    SB + "iter": m_iter, SB + "range": m_range, SB + "pop_first": m_pop_first, SB + "clear_new": m_clear,
    SBI + "next": m_iter_next,
    HB + "get": m_get, HB + "insert": m_insert, HB + "remove": m_remove, HB + "contains_key": m_contains,
    HB + "len": m_len, HB + "is_empty": m_is_empty, HB + "new": bt_new, HB + "iter": m_iter, HB + "next": m_iter_next,
    LG + "append": l_append, LG + "get": l_get, LG + "len": m_len, LG + "is_empty": m_is_empty,
    CELL + "get": cell_get, CELL + "set": cell_set,
    "std::thread::local::{}::with": tls_with,
    "std::thread::local::{}::with_borrow": tls_with_borrow(False),
    "std::thread::local::{}::with_borrow_mut": tls_with_borrow(True),
    "core::cell::{}::borrow": rc_borrow(False), "core::cell::{}::borrow_mut": rc_borrow(True),
    "core::cell::{}::deref": guard_deref, "core::cell::{}::deref_mut": guard_deref,
    "ic_cdk::api::time": ic_time, "ic_cdk::api::msg_caller": ic_caller, "ic_cdk::api::caller": ic_caller,
    "ic_cdk::api::trap": ic_trap, "ic_cdk::api::msg_cycles_available": ic_avail,
    "ic_cdk::api::msg_cycles_accept": ic_accept, "ic_cdk::api::certified_data_set": ic_certify,
    "ic_cdk::api::msg_reply": ic_reply, "candid::utils::encode_one": enc_one, "candid::utils::encode_args": enc_one,
    "candid::utils::decode_args_with_config": dec_args, "ic_cdk::api::msg_arg_data": arg_data,
    "ic_cdk::futures::internals::in_executor_context": exec_ctx,
    "ic_cdk::futures::internals::in_query_executor_context": exec_ctx,
    "ic_cdk::futures::spawn": spawn, "ic_cdk::futures::spawn_017_compat": spawn,
    "ic_cdk::call::{}::unbounded_wait": call_new("unbounded"), "ic_cdk::call::{}::bounded_wait": call_new("bounded"),
    "ic_cdk::call::{}::with_arg": call_with(3), "ic_cdk::call::{}::with_args": call_with(3),
    "ic_cdk::call::{}::with_raw_args": call_with(3), "ic_cdk::call::{}::take_raw_args": call_with(3),
    "ic_cdk::call::{}::with_cycles": call_with(4), "ic_cdk::call::{}::change_timeout": call_keep,
    "ic_cdk::call::{}::into_future": call_keep, "ic_cdk::call::{}::poll": poll_ext,
    "core::panicking::panic": panic, "core::panicking::panic_fmt": panic, "core::option::expect_failed": panic,
    "core::option::unwrap_failed": panic, "core::result::unwrap_failed": panic,
    "core::result::unwrap_failed::unwrap_failed_inner": panic, "core::panicking::panic_nounwind": panic,
    "core::panicking::panic_const::panic_const_add_overflow": panic, "std::process::abort": panic,
    "core::panicking::panic_explicit": panic, "core::panicking::panic_display": panic,
    "core::panicking::unreachable_display": panic, "core::panicking::assert_failed": panic,
    "std::rt::begin_panic": panic, "std::rt::panic_fmt": panic,
    "core::num::{}::checked_add": checked("add"), "core::num::{}::checked_sub": checked("sub"),
    "core::num::{}::checked_mul": checked("mul"), "core::num::{}::saturating_add": saturating("add"),
    "core::num::{}::saturating_sub": saturating("sub"), "core::num::{}::saturating_mul": saturating("mul"),
    "core::num::{}::wrapping_add": wrapping("add"), "core::num::{}::wrapping_sub": wrapping("sub"),
    "core::num::{}::wrapping_mul": wrapping("mul"), "core::num::{}::overflowing_add": overflowing("add"),
    "core::num::{}::overflowing_sub": overflowing("sub"), "core::num::{}::overflowing_mul": overflowing("mul"),
    "core::num::{}::unchecked_add": unchecked("add"), "core::num::{}::unchecked_sub": unchecked("sub"),
    "core::num::{}::unchecked_add::precondition_check": noop, "core::num::{}::abs_diff": abs_diff,
    "core::num::{}::unchecked_sub::precondition_check": noop,
    "core::intrinsics::integer_min": minmax(True), "core::intrinsics::integer_max": minmax(False),
    "core::time::{}::as_nanos": as_nanos(1), "core::time::{}::as_micros": as_nanos(1000),
    "core::time::{}::as_millis": as_nanos(10 ** 6), "core::time::{}::as_secs": as_nanos(10 ** 9),
    "core::time::{}::from_secs": dur_from(10 ** 9), "core::time::{}::from_millis": dur_from(10 ** 6),
    "core::time::{}::from_nanos": dur_from(1),
    "num_bigint::biguint::convert::{}::to_u128": nat_to(128), "num_bigint::biguint::convert::{}::to_u64": nat_to(64),
    "num_bigint::biguint::convert::{}::to_u32": nat_to(32), "num_bigint::biguint::convert::{}::to_usize": nat_to(64),
    "num_bigint::biguint::convert::{}::try_from": nat_try,
    "num_bigint::biguint::{}::is_zero": nat_is_zero,
    "icrc_ledger_types::icrc1::account::{}::effective_subaccount": effective_subaccount,
    "ic_principal::{}::management_canister": principal_const(), "ic_principal::{}::anonymous": principal_const(4),
    "ic_principal::{}::as_slice": principal_as_slice, "ic_principal::{}::from_slice": principal_from_slice,
    "ic_principal::{}::to_text": pure("to_text"),
    "alloc::vec::{}::new": vec_new, "alloc::vec::{}::with_capacity": vec_new, "alloc::vec::{}::push": vec_push,
    "alloc::vec::{}::deref": vec_deref, "alloc::vec::{}::deref_mut": vec_deref, "alloc::vec::{}::as_slice": vec_deref,
    "alloc::vec::{}::len": seq_len_m, "alloc::vec::{}::is_empty": seq_is_empty,
    "alloc::vec::{}::into_iter": into_iter_val, "core::array::{}::into_iter": into_iter_val,
    "core::array::iter::{}::into_iter": into_iter_val, "core::slice::iter::{}::into_iter": into_iter_val, "alloc::slice::{}::to_vec": seq_to_vec,
    "alloc::slice::{}::into_vec": into_vec, "alloc::slice::{}::to_vec_in": seq_to_vec,
    "alloc::vec::into_iter::{}::next": seq_next, "core::slice::iter::{}::next": seq_next, "core::slice::iter::{}::nth": seq_nth,
    "alloc::vec::into_iter::{}::nth": seq_nth, "ic_principal::{}::anonymous": anonymous,
    "core::slice::{}::iter": slice_iter,
    "core::slice::{}::contains": slice_contains,
    "core::slice::{}::get": slice_get, "core::slice::{}::first": slice_firstlast(False),
    "core::slice::{}::last": slice_firstlast(True), "core::slice::{}::len": seq_len_m,
    "core::slice::{}::is_empty": seq_is_empty,
    "core::array::{}::index": array_index, "core::slice::index::{}::index": array_index,
    "alloc::vec::{}::index": array_index,
    "core::array::{}::as_slice": vec_deref,
    "alloc::boxed::{}::new_uninit": new_uninit, "alloc::boxed::box_assume_init_into_vec_unsafe": into_vec,
    "alloc::boxed::{}::new": box_new,
    "alloc::borrow::{}::to_owned": to_owned, "alloc::slice::{}::to_owned": to_owned, "alloc::str::{}::to_owned": to_owned,
    "alloc::string::{}::to_string": display_to_string, "alloc::fmt::format": fmt_opaque,
    "alloc::string::{}::as_bytes": vec_deref, "alloc::string::{}::deref": vec_deref, "alloc::string::{}::as_str": vec_deref,
    "core::fmt::rt::{}::new_display": sideless, "core::fmt::rt::{}::new_debug": sideless,
    "core::fmt::rt::{}::new_lower_hex": sideless, "core::fmt::{}::new": sideless, "core::fmt::{}::from_str": sideless,
    "core::fmt::{}::new_const": sideless, "core::fmt::{}::new_v1": sideless,
    "std::io::stdio::_print": noop, "std::io::stdio::_eprint": noop, "ic_cdk::api::debug_print": noop,
    "anyhow::__private::must_use": ident, "core::hint::must_use": ident, "core::hint::black_box": ident,
    "anyhow::context::{}::context": context, "anyhow::context::{}::with_context": context,
    "anyhow::error::{}::context": anyerr, "anyhow::error::{}::msg": anyerr, "anyhow::error::{}::from": anyerr,
    "anyhow::kind::{}::new": anyerr, "anyhow::kind::AdhocKind::anyhow_kind": noop, "anyhow::__private::format_err": anyerr,
    "ic_canister_log::entry_counter::increment": sideless, "ic_canister_log::now": sideless,
    "ic_canister_log::{}::append": noop, "ic_canister_log::export": sideless,
    "hex::encode": sideless, "ic_cdk::stable::stable_size": stable_size,
    "ciborium::value::ser::{}::serialized": ser_value,
    "icrc_ledger_types::icrc::generic_value::{}::hash": hash_value,
    "ic_certified_map::rbtree::{}::insert": tree_insert, "ic_certified_map::rbtree::{}::new": tree_new,
    "ic_certified_map::rbtree::{}::root_hash": pure("roothash"), "ic_certified_map::rbtree::{}::value_range": pure("valuerange"),
    "leb128::write::unsigned": leb128, "ciborium::ser::into_writer": cbor_write,
    "minicbor::encode::encoder::{}::encode": memo_encode, "minicbor::encode::encoder::{}::new": pure("mcbnew"),
    "minicbor::encode::encoder::{}::into_writer": pure("mcbout"),
    "core::mem::replace": mem_replace, "core::mem::take": mem_take, "core::mem::swap": mem_swap,
    "core::mem::drop": None, "serde_bytes::bytebuf::{}::deref": vec_deref, "serde_bytes::bytebuf::{}::from": ident,
    "serde_bytes::bytebuf::{}::into_vec": ident, "serde_bytes::bytebuf::{}::new": vec_new,
    "generic_array::impls::{}::from": ident,
}

TRAIT = {
    "core::clone::Clone::clone": clone,
    "alloc::borrow::ToOwned::to_owned": to_owned,
    "core::cmp::Ord::min": minmax(True), "core::cmp::Ord::max": minmax(False), "core::cmp::Ord::clamp": clamp,
    "core::default::Default::default": default,
    "num_traits::identities::Zero::is_zero": nat_is_zero,
    "num_traits::cast::ToPrimitive::to_u128": None,
}

PURE_PREFIX = ("ic_cdk::call::", "ic_metrics_encoder::", "ic_canisters_http_types::", "serde_json::", "ic_canister_log::",
               "ic_cdk::stable::", "ic_cdk::api::data_certificate", "ic_cdk::api::canister_", "candid::de::",
               "hex::", "digest::", "core::fmt::", "anyhow::", "ciborium::", "std::io::")


def find_eq(ip, c):
    return None


class Models:
    def __init__(self, ip=None):
        self.cache = {}
        self.extra = {}      # norm path -> model, set by individual analyses

    def bind(self, ip):
        self.ip = ip
        return self

    def find(self, c):
        k = (c.rpath, c.key, c.trait, c.name)
        if k in self.cache:
            return self.cache[k]
        m = self._find(c)
        self.cache[k] = m
        return m

    def _find(self, c):
        n = norm(c.rpath)
        if n in self.extra:
            return self.extra[n]
        if n in EXACT:
            return EXACT[n]
        if n in ITER.EXACT:
            return ITER.EXACT[n]
        if c.trait is not None and c.name is not None:
            t = TRAIT.get(c.trait + "::" + c.name)
            if t is not None:
                return t
            if c.trait == "core::cmp::PartialEq" and c.name in ("eq", "ne"):
                f = self.ip.p.funcs.get(c.key)
                if f is None or f.raw.get("derived") and f.crate != "core":
                    return val_eq(c.name == "ne")
            if c.trait == "core::convert::From" and n.startswith("candid::types::number"):
                return nat_from
            if c.trait == "core::future::future::Future" and c.name == "poll" and c.key not in self.ip.p.funcs:
                return poll_ext
            if c.trait == "core::iter::traits::iterator::Iterator" and c.key not in self.ip.p.funcs:
                if c.name == "next":
                    return any_next
                if c.name in ITER.CONSUME and c.d.get("iters"):
                    return ITER.CONSUME[c.name]
                if c.name == "size_hint":
                    return ITER.size_hint
            if c.trait == "core::iter::traits::double_ended::DoubleEndedIterator" and c.name == "next_back" and c.key not in self.ip.p.funcs:
                return ITER.next_back
            if c.trait == "core::convert::From" and c.key not in self.ip.p.funcs and n.startswith(
                    ("alloc::vec", "alloc::string", "alloc::boxed", "alloc::borrow")):
                return conv_from
        s = sig_model(self.ip, c)
        if s is not None:
            return sig_call(*s)
        if n.startswith("ic_cdk::management_canister::") and c.key not in self.ip.p.funcs:
            last = n.split("::")[-1]
            if last.startswith("{closure"):
                return poll_ext
            return fut_ext(last)
        return None

    def length(self, ip, st, t):
        if t.op == "ref":
            t = ip.load(st, t)
        return seq_len(st.canon(t))

    def unknown(self, ip, st, c, args, dty, aty):
        n = norm(c.rpath)
        ip.unknown[n] = ip.unknown.get(n, 0) + 1
        if dty is not None and dty.k == "never":
            ip.trap(st, n, ip.loc())
            return []
        r = mk("app", n, *[val(ip, st, a) for a in args], ty=dty)
        for i, a in enumerate(args):
            ty = aty[i] if i < len(aty) else None
            if ty is not None and ty.k in ("ref", "ptr") and ty.mut and a.op in ("ref", "guard"):
                cc, p = ip.target(st, a)
                if cc[0] == "V":
                    continue
                v = mk("app", n + "#out%d" % i, *[val(ip, st, x) for x in args], ty=ty.to)
                ip.store(st, a, v)
                ip.static_write(st, cc, p, v, ip.loc())
            if a.op == "agg" and a.a[0] in ip.p.funcs and n.startswith(("core::", "alloc::", "std::")):
                ip.noninline.add((n, ip.loc()))
        if dty is not None and dty.k == "tuple" and not dty.elems:
            r = UNIT
        return [(st, r)]

    def unknown_value(self, ip, st, fv, args, dty):
        ip.unknown["<indirect call>"] = ip.unknown.get("<indirect call>", 0) + 1
        ip.noninline.add(("<indirect call>", ip.loc()))
        return [(st, mk("app", "indirect", *[val(ip, st, a) for a in args], ty=dty))]


def any_next(ip, st, c, args, dty):
    r = seq_next(ip, st, c, args, dty)
    if r is NotImplemented:
        r = m_iter_next(ip, st, c, args, dty)
    return r


def conv_from(ip, st, c, args, dty):
    a = args[0]
    v = val(ip, st, a)
    if v.op == "s":
        return [(st, v)]
    if v.op == "agg" and v.a[0] in ("array", "vec"):
        return [(st, agg("vec", 0, v.a[2], ty=dty))]
    if v.op == "app" and v.ty is dty:
        return [(st, v)]
    return [(st, v if v.ty is dty else mk("app", "from", v, ty=dty))]
