"""Hash-consed value terms of the abstract domain, with linear integer normal forms."""
from math import gcd


class Ty:
    """A canonical (cross-crate) type."""
    __slots__ = ("s", "k", "d", "bits", "signed", "path", "args", "variants", "elems", "elem", "len", "to", "mut",
                 "key", "upvars", "ckind", "fn", "adt")

    def __init__(self, s, k):
        self.s, self.k = s, k
        self.bits = self.signed = self.path = self.args = self.variants = self.elems = None
        self.elem = self.len = self.to = self.mut = self.key = self.upvars = self.ckind = self.fn = self.adt = None

    def __repr__(self):
        return self.s

    def is_enum(self):
        return self.k == "adt" and self.adt == "enum"

    def nvar(self):
        return len(self.variants) if self.k == "adt" and self.variants else 1

    def fields(self, v=0):
        """[(name, Ty)] of a struct/tuple/closure/variant, or None when unknown"""
        if self.k == "adt" and self.adt != "union":
            if v < len(self.variants):
                return self.variants[v][2]
            return None
        if self.k == "tuple":
            return [(str(i), t) for i, t in enumerate(self.elems)]
        if self.k in ("closure", "coroutine"):
            return [(str(i), t) for i, t in enumerate(self.upvars)]
        return None

    def field_index(self, name, v=0):
        for i, (n, _) in enumerate(self.fields(v) or []):
            if n == name:
                return i
        return None

    def variant_index(self, name):
        for i, v in enumerate(self.variants or []):
            if v[0] == name:
                return i
        return None


class T:
    __slots__ = ("op", "a", "ty", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, *a, ty=None):
    key = (op,) + a
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.ty = op, a, ty
        _n[0] += 1
        t.id = _n[0]
        _tab[key] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


_ints = {}


def K(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = mk("k", n)
    return t


TRUE, FALSE = mk("b", True), mk("b", False)


def B(x):
    return TRUE if x else FALSE


def S(s):
    return mk("s", s)


UNIT = mk("agg", "tuple", 0, ())
MOVED = mk("moved")


def agg(tk, variant, fields, ty=None):
    fields = tuple(fields)
    # eta: rebuilding a value from all of its own fields is that value
    if fields and tk != "vec":
        f0 = fields[0]
        if f0.op == "fld" and f0.a[1] == variant and f0.a[2] == 0:
            base = f0.a[0]
            if base.ty is not None and ty is not None and base.ty is ty and all(
                    f.op == "fld" and f.a[0] is base and f.a[1] == variant and f.a[2] == i for i, f in
                    enumerate(fields)) and (ty.nvar() == 1):
                return base
    return mk("agg", tk, variant, fields, ty=ty)


def tup(*xs):
    return agg("tuple", 0, xs)


def fld(t, v, i, ty=None):
    if t.op == "agg":
        if t.a[1] == v and i < len(t.a[2]):
            return t.a[2][i]
        return mk("bad", t, v, i, ty=ty)
    if t.op == "nat":       # candid Nat / BigUint wrappers are transparent
        return t
    return mk("fld", t, v, i, ty=ty)


# ---------------------------------------------------------------- integers

def lin_parts(t):
    if t.op == "k":
        return t.a[0], ()
    if t.op == "lin":
        return t.a[0], t.a[1]
    return 0, ((t, 1),)


def mklin(c, d):
    """d: dict atom->coef"""
    xs = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda p: p[0].id))
    if not xs:
        return K(c)
    if c == 0 and len(xs) == 1 and xs[0][1] == 1:
        return xs[0][0]
    return mk("lin", c, xs)


def add(a, b, kb=1):
    ca, xa = lin_parts(a)
    cb, xb = lin_parts(b)
    d = dict(xa)
    for t, k in xb:
        d[t] = d.get(t, 0) + k * kb
    return mklin(ca + cb * kb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, xs = lin_parts(a)
    return mklin(c * n, {t: k * n for t, k in xs})


def ty_range(ty):
    if ty is None:
        return None, None
    if ty.k == "int":
        if ty.signed:
            return -(1 << (ty.bits - 1)), (1 << (ty.bits - 1)) - 1
        return 0, (1 << ty.bits) - 1
    if ty.k == "char":
        return 0, 0x10FFFF
    return None, None


def atom_range(t):
    if t.op == "len":
        return 0, (1 << 63) - 1
    if t.op == "sym" and t.a[0].startswith("time:"):
        return 0, (1 << 63) - 1  # nanoseconds since 1970; assumed before the year 2262
    return ty_range(t.ty)


def bounds(t):
    """interval of an integer term from the types of its atoms"""
    c, xs = lin_parts(t)
    lo = hi = c
    for x, k in xs:
        l, h = atom_range(x)
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def ge0(t):
    """t >= 0 as a boolean term"""
    c, xs = lin_parts(t)
    if not xs:
        return B(c >= 0)
    g = 0
    for _, k in xs:
        g = gcd(g, abs(k))
    if g > 1:
        t = mklin(c // g, {x: k // g for x, k in xs})
    lo, hi = bounds(t)
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    return mk("ge0", t)


def eq0(t):
    c, xs = lin_parts(t)
    if not xs:
        return B(c == 0)
    g = 0
    for _, k in xs:
        g = gcd(g, abs(k))
    if c % g:
        return FALSE
    s = 1 if xs[0][1] > 0 else -1
    t = mklin(c // g * s, {x: k // g * s for x, k in xs})
    lo, hi = bounds(t)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    return mk("eq0", t)


def le(a, b):
    return ge0(sub(b, a))


def lt(a, b):
    return ge0(add(sub(b, a), K(-1)))


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.a[0]
    if b.op == "ge0":
        return ge0(add(scale(b.a[0], -1), K(-1)))
    return mk("not", b)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("and", *sorted((a, b), key=lambda x: x.id))


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def is_int_term(t):
    if t.op in ("k", "lin", "len"):
        return True
    return t.ty is not None and t.ty.k in ("int", "char")


def is_bool_term(t):
    return t.op in ("b", "ge0", "eq0", "not", "and", "eq") or (t.ty is not None and t.ty.k == "bool")


def eq(a, b):
    """structural equality as a boolean term"""
    if a is b:
        return TRUE
    if a.op == "k" or b.op == "k" or is_int_term(a) or is_int_term(b):
        return eq0(sub(a, b))
    if is_bool_term(a) or is_bool_term(b):
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        return mk("eq", *sorted((a, b), key=lambda x: x.id))
    if a.op == "s" and b.op == "s":
        return B(a.a[0] == b.a[0])
    if a.op == "agg" and b.op == "agg":
        if a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2], b.a[2]):
            e = eq(x, y)
            if e is FALSE:
                return FALSE
            r = and_(r, e)
        return r
    if a.op == "nat" and b.op == "nat":
        return eq(a.a[0], b.a[0])
    if a.op == b.op and a.op == "hash":   # injective up to collisions: see DESIGN (assumption)
        return eq(a.a[0], b.a[0])
    if a.op == "agg" or b.op == "agg":
        g, o = (a, b) if a.op == "agg" else (b, a)
        if g.a[0] in ("tuple", "struct") or (o.ty is not None and o.ty.nvar() == 1 and o.ty.fields()):
            fs = o.ty.fields() if o.ty is not None else None
            if fs and len(fs) == len(g.a[2]):
                r = TRUE
                for i, x in enumerate(g.a[2]):
                    r = and_(r, eq(x, fld(o, 0, i, fs[i][1])))
                    if r is FALSE:
                        return FALSE
                return r
    return mk("eq", *sorted((a, b), key=lambda x: x.id))


def subterms(t, seen=None):
    """all T subterms including t"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(w for w in z if isinstance(w, T))
    return seen


REBUILD = {}


def rebuild(t, a):
    op = t.op
    if op == "lin":
        r = K(a[0])
        for x, k in a[1]:
            r = add(r, scale(x, k))
        return r
    if op == "ge0":
        return ge0(a[0])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "eq":
        return eq(*a)
    if op == "agg":
        return agg(a[0], a[1], a[2], ty=t.ty)
    if op == "fld":
        return fld(a[0], a[1], a[2], ty=t.ty)
    f = REBUILD.get(op)
    if f:
        return f(t, a)
    return mk(op, *a, ty=t.ty)


def subst(t, m, memo):
    """replace terms by terms (m: dict), bottom-up through the smart constructors"""
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        ch = False
        na = []
        for y in t.a:
            if isinstance(y, T):
                z = subst(y, m, memo)
                ch = ch or z is not y
                na.append(z)
            elif isinstance(y, tuple):
                zs = []
                for w in y:
                    if isinstance(w, T):
                        z = subst(w, m, memo)
                        ch = ch or z is not w
                        zs.append(z)
                    elif isinstance(w, tuple):
                        q = tuple(subst(u, m, memo) if isinstance(u, T) else u for u in w)
                        ch = ch or q != w
                        zs.append(q)
                    else:
                        zs.append(w)
                na.append(tuple(zs))
            else:
                na.append(y)
        if ch:
            r = rebuild(t, na)
            if r in m:
                r = m[r]
        else:
            r = t
    memo[t] = r
    return r


def show(t, d=0, lim=12):
    if not isinstance(t, T):
        return repr(t)
    op, a = t.op, t.a
    if d > lim:
        return ".."
    s = lambda x: show(x, d + 1, lim)
    if op == "k":
        return str(a[0])
    if op == "b":
        return "true" if a[0] else "false"
    if op == "s":
        return repr(a[0])
    if op == "sym":
        return str(a[0])
    if op == "lin":
        out = []
        for x, k in a[1]:
            out.append(("%+d*" % k if k not in (1, -1) else ("+" if k == 1 else "-")) + s(x))
        if a[0]:
            out.append("%+d" % a[0])
        return "(" + " ".join(out) + ")"
    if op == "ge0":
        return s(a[0]) + " >= 0"
    if op == "eq0":
        return s(a[0]) + " == 0"
    if op == "not":
        return "!(" + s(a[0]) + ")"
    if op == "eq":
        return s(a[0]) + " == " + s(a[1])
    if op == "agg":
        if a[0] == "tuple":
            return "(" + ", ".join(map(s, a[2])) + ")"
        if a[0] in ("array", "vec") and len(a[2]) > 8 and all(x.op == "k" for x in a[2]):
            return "[%s;%d]" % (a[2][0], len(a[2])) if len(set(a[2])) == 1 else "bytes:" + "".join(
                "%02x" % x.a[0] for x in a[2] if 0 <= x.a[0] < 256)
        n, fs = a[0], None
        if t.ty is not None and t.ty.k == "adt" and t.ty.variants and a[1] < len(t.ty.variants):
            n = t.ty.path.split("::")[-1]
            if t.ty.is_enum():
                n = t.ty.variants[a[1]][0]
            fs = t.ty.variants[a[1]][2]
        if not a[2]:
            return n
        if fs and len(fs) == len(a[2]) and not fs[0][0].isdigit():
            return n + "{" + ", ".join(f[0] + ":" + s(x) for f, x in zip(fs, a[2])) + "}"
        return n + "(" + ", ".join(map(s, a[2])) + ")"
    if op == "fld":
        nm = str(a[2])
        bt = a[0].ty
        if bt is not None:
            fs = bt.fields(a[1])
            if fs and a[2] < len(fs):
                nm = fs[a[2]][0]
            if bt.is_enum():
                return s(a[0]) + "." + bt.variants[a[1]][0] + "." + nm
        return s(a[0]) + "." + nm
    out = []
    for x in a:
        if isinstance(x, T):
            out.append(s(x))
        elif isinstance(x, tuple):
            out.append("[" + ",".join(s(y) for y in x) + "]")
        else:
            out.append(str(x))
    return op + "(" + ", ".join(out) + ")"
