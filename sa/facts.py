"""Path facts: variant sets, boolean atoms and a conjunction of linear inequalities (decided by Fourier-Motzkin)."""
from math import gcd
from terms import *

_fm_cache = {}


def _norm(c, xs):
    """xs: tuple of (atom,coef) sorted; divide by gcd, rounding the constant down (integers)"""
    g = 0
    for _, k in xs:
        g = gcd(g, abs(k))
    if g > 1:
        return c // g, tuple((x, k // g) for x, k in xs)
    return c, xs


def infeasible(cons):
    """cons: iterable of (c, xs) meaning c + sum k*x >= 0. True only if no integer solution exists."""
    key = frozenset(cons)
    r = _fm_cache.get(key)
    if r is None:
        r = _fm_cache[key] = _fm(key)
    return r


def _fm(key):
    cur = {}
    for c, xs in key:
        if not xs:
            if c < 0:
                return True
            continue
        c, xs = _norm(c, xs)
        if xs not in cur or cur[xs] > c:
            cur[xs] = c
    atoms = set(x for xs in cur for x, _ in xs)
    for x in atoms:
        lo, hi = atom_range(x)
        if lo is not None:
            k = ((x, 1),)
            cur[k] = min(cur.get(k, -lo), -lo)
        if hi is not None:
            k = ((x, -1),)
            cur[k] = min(cur.get(k, hi), hi)
    steps = 0
    while True:
        for xs, c in cur.items():
            if len(xs) == 1:
                pass
            neg = tuple((x, -k) for x, k in xs)
            if neg in cur and cur[neg] + c < 0:
                return True
        cnt = {}
        for xs in cur:
            for x, k in xs:
                p = cnt.setdefault(x, [0, 0])
                p[0 if k > 0 else 1] += 1
        if not cnt:
            return False
        x = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        pos, neg, rest = [], [], {}
        for xs, c in cur.items():
            d = dict(xs)
            k = d.get(x)
            if k is None:
                rest[xs] = c
            elif k > 0:
                pos.append((c, d, k))
            else:
                neg.append((c, d, -k))
        for c1, d1, k1 in pos:
            for c2, d2, k2 in neg:
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {}
                for y, k in d1.items():
                    d[y] = k * m1
                for y, k in d2.items():
                    d[y] = d.get(y, 0) + k * m2
                c = c1 * m1 + c2 * m2
                xs = tuple(sorted(((y, k) for y, k in d.items() if k), key=lambda p: p[0].id))
                if not xs:
                    if c < 0:
                        return True
                    continue
                c, xs = _norm(c, xs)
                if xs not in rest or rest[xs] > c:
                    rest[xs] = c
        cur = rest
        steps += 1
        if len(cur) > 600 or steps > 60:
            return False        # give up: "not shown infeasible" is the safe answer


class Facts:
    __slots__ = ("var", "bl", "lin", "ne", "key_memo")

    def __init__(self):
        self.var, self.bl, self.lin, self.ne = {}, {}, {}, frozenset()

    def copy(self):
        f = Facts()
        f.var, f.bl, f.lin, f.ne = dict(self.var), dict(self.bl), dict(self.lin), self.ne
        return f

    # ---- variants
    def variants(self, t):
        return self.var.get(t)

    def set_variants(self, t, vs):
        """False if contradictory"""
        old = self.var.get(t)
        vs = frozenset(vs) if old is None else frozenset(vs) & old
        if not vs:
            return False
        self.var[t] = vs
        return True

    # ---- linear
    def _component(self, seeds):
        seeds = set(seeds)
        out, rest = [], list(self.lin.items())
        ch = True
        while ch and rest:
            ch = False
            nr = []
            for xs, c in rest:
                if any(x in seeds for x, _ in xs):
                    out.append((c, xs))
                    for x, _ in xs:
                        if x not in seeds:
                            seeds.add(x)
                            ch = True
                else:
                    nr.append((xs, c))
            rest = nr
        return out

    def feasible_with(self, *ts):
        """may all ts >= 0 hold together with the facts?"""
        cons = [lin_parts(t) for t in ts]
        for c, xs in cons:
            if not xs and c < 0:
                return False
        comp = self._component(x for _, xs in cons for x, _ in xs)
        return not infeasible(comp + cons)

    def ge0(self, t):
        """True / False / None for t >= 0"""
        b = ge0(t)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        t = b.a[0]
        c, xs = lin_parts(t)
        k = self.lin.get(xs)
        if k is not None and k <= c:
            return True
        neg = tuple((x, -k) for x, k in xs)
        k = self.lin.get(neg)
        if k is not None and k + c < 0:
            return False
        comp = self._component(x for x, _ in xs)
        n = add(scale(t, -1), K(-1))
        if infeasible(comp + [lin_parts(n)]):
            return True
        if infeasible(comp + [lin_parts(t)]):
            return False
        return None

    def add_ge0(self, t):
        b = ge0(t)
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        t = b.a[0]
        r = self.ge0(t)
        if r is True:
            return True
        if r is False:
            return False
        c, xs = lin_parts(t)
        old = self.lin.get(xs)
        self.lin[xs] = c if old is None else min(old, c)
        return self._refresh_ne(set(x for x, _ in xs))

    def _refresh_ne(self, atoms):
        for t in list(self.ne):
            c, xs = lin_parts(t)
            if not any(x in atoms for x, _ in xs):
                continue
            p, n = self.ge0(t), self.ge0(scale(t, -1))
            if p and n:
                return False
            if p or n:
                self.ne = self.ne - {t}
                u = t if p else scale(t, -1)
                if not self.add_ge0(add(u, K(-1))):
                    return False
        return True

    def add_ne0(self, t):
        p, n = self.ge0(t), self.ge0(scale(t, -1))
        if p and n:
            return False
        if p is False or n is False:
            return True
        if p or n:
            return self.add_ge0(add(t if p else scale(t, -1), K(-1)))
        self.ne = self.ne | {t}
        return True

    # ---- booleans
    def val(self, b):
        """True / False / None for a boolean term"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        v = self.bl.get(b)
        if v is not None:
            return v
        op = b.op
        if op == "ge0":
            return self.ge0(b.a[0])
        if op == "eq0":
            t = b.a[0]
            if t in self.ne:
                return False
            p = self.ge0(t)
            if p is False:
                return False
            n = self.ge0(scale(t, -1))
            if n is False:
                return False
            if p and n:
                return True
            return None
        if op == "not":
            v = self.val(b.a[0])
            return None if v is None else not v
        if op == "and":
            x, y = self.val(b.a[0]), self.val(b.a[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
            return None
        if op == "eq":
            x, y = b.a
            if is_bool_term(x) and is_bool_term(y):
                u, v = self.val(x), self.val(y)
                if u is not None and v is not None:
                    return u == v
                return None
            if x.op == "agg" or y.op == "agg":
                g, o = (x, y) if x.op == "agg" else (y, x)
                vs = self.var.get(o)
                if vs is not None and g.a[1] not in vs:
                    return False
                if vs is not None and len(vs) == 1 or (o.ty is not None and o.ty.nvar() == 1):
                    fs = o.ty.fields(g.a[1]) if o.ty is not None else None
                    if fs is not None and len(fs) == len(g.a[2]):
                        r = True
                        for i, z in enumerate(g.a[2]):
                            w = self.val(eq(z, fld(o, g.a[1], i, fs[i][1])))
                            if w is False:
                                return False
                            if w is None:
                                r = None
                        return r
            else:
                vx, vy = self.var.get(x), self.var.get(y)
                if vx is not None and vy is not None:
                    if not (vx & vy):
                        return False
                    if len(vx) == 1 and vx == vy and x.ty is not None:
                        fs = x.ty.fields(next(iter(vx)))
                        if fs is not None:
                            v = next(iter(vx))
                            r = True
                            for i, (_, ft) in enumerate(fs):
                                w = self.val(eq(fld(x, v, i, ft), fld(y, v, i, ft)))
                                if w is False:
                                    return False
                                if w is None:
                                    r = None
                            return r
            return None
        return None
