"""Interprocedural, trace-partitioned abstract interpretation over MIR.

Abstract values are the terms of terms.py; control-flow is split only where the facts of the path do not decide a
branch, loops are summarised by havoc to a fixpoint with inferred linear invariants, and externals are models.py's."""
import sys
from terms import *
from facts import Facts, infeasible
import terms as TM

sys.setrecursionlimit(20000)

LOOPS = []      # LoopInfo by id


ZERO32 = agg("array", 0, [K(0)] * 32)


def is_subopt(ty):
    fs = ty.fields(1) if ty.is_enum() and ty.nvar() == 2 else None
    return bool(fs) and fs[0][1] is not None and fs[0][1].k == "array" and fs[0][1].len == 32


_onst = {}


def on_state(t):
    """does the term depend on the ledger state (or on the outcome of a call)?"""
    r = _onst.get(t)
    if r is None:
        r = _onst[t] = any(x.op == "awaitres" or x.op == "static" and str(x.a[0]).startswith(STATE) for x in subterms(t))
    return r


class Gap(Exception):
    """the analysis cannot proceed soundly here"""


SEGS = []       # Seg by id
STATE = "cycles_ledger::storage::STATE"


class Seg:
    """a point where the analysis forgets the ledger state: an inter-canister call or a mutating loop"""
    __slots__ = ("id", "kind", "loc", "pre")

    def __init__(self, i, kind, loc):
        self.id, self.kind, self.loc, self.pre = i, kind, loc, []


class LoopInfo:
    __slots__ = ("id", "fn", "loc", "head", "back", "havoc", "nexit", "pre", "invs", "stack")


RESPELLED = {}  # joins of paths that differ only in how a subaccount is spelled
UNDECIDED = [None]  # the last question a state had no answer to


def _disc(b):
    """(x, variants of x for which b holds, all variants) if b compares the discriminant of x with a constant"""
    if b.op == "not":
        d = _disc(b.a[0])
        return None if d is None else (d[0], d[2] - d[1], d[2])
    if b.op != "eq0":
        return None
    c, xs = lin_parts(b.a[0])
    if len(xs) != 1 or xs[0][0].op != "disc" or xs[0][1] not in (1, -1):
        return None
    x = xs[0][0].a[0]
    if x.ty is None or x.ty.k != "adt" or not x.ty.variants:
        return None
    al = range(len(x.ty.variants))
    return x, frozenset(i for i in al if str(x.ty.variants[i][1]) == str(-c * xs[0][1])), frozenset(al)


class Sub(dict):
    """what is known to be equal: term -> its representative; with the memo of the substitution"""
    __slots__ = ("memo",)

    def __init__(self, d):
        dict.__init__(self, d)
        self.memo = {}


class St:
    __slots__ = ("mem", "f", "ev", "bor", "sub", "ep", "tok", "vn", "alts")

    def __init__(self):
        self.mem, self.f, self.ev, self.bor, self.sub, self.ep, self.tok, self.vn = {}, Facts(), (), {}, {}, 0, 0, 0
        self.alts = ()  # joins that led here: (facts and joins of each branch, renamings)

    def copy(self):
        s = St.__new__(St)
        s.mem, s.f, s.ev, s.bor, s.sub, s.ep, s.tok, s.vn = dict(self.mem), self.f.copy(), self.ev, dict(self.bor), self.sub, self.ep, self.tok, self.vn
        s.alts = self.alts
        return s

    # ---------------------------------------------------------------- facts
    def canon(self, t):
        sub = self.sub
        if not sub:
            return t
        if type(sub) is not Sub:
            sub = self.sub = Sub(sub)
        return subst(t, sub, sub.memo)

    def val(self, b):
        b = self.canon(b)
        r = self.f.val(b)
        if r is None and b.op in ("eq0", "not"):
            d = _disc(b)
            if d is not None:
                vs = self.f.var.get(d[0])
                if vs is not None:
                    r = True if vs <= d[1] else False if not vs & d[1] else None
        if r is None:
            UNDECIDED[0] = b
        return r

    def assume(self, b, v=True):
        """adds b == v; False if the path becomes infeasible"""
        b = self.canon(b)
        while b.op == "not":
            b, v = b.a[0], not v
        if b is TRUE:
            return v
        if b is FALSE:
            return not v
        cur = self.f.val(b)
        if cur is not None:
            if cur != v:
                return False
            if not (v and b.op in ("eq0", "eq")):
                return True
        op = b.op
        if op == "ge0":
            return self.f.add_ge0(b.a[0] if v else add(scale(b.a[0], -1), K(-1)))
        if op == "and":
            x, y = b.a
            if v:
                return self.assume(x, True) and self.assume(y, True)
            vx, vy = self.f.val(x), self.f.val(y)
            if vx:
                return self.assume(y, False)
            if vy:
                return self.assume(x, False)
            self.f.bl[b] = False
            return True
        if op == "eq0":
            d = _disc(b)
            if d is not None:
                return self.set_var(d[0], d[1] if v else d[2] - d[1])
            if not v:
                return self.f.add_ne0(b.a[0])
            return self._eq_int(b.a[0])
        if op == "eq":
            return self._eq(b, v)
        self.f.bl[b] = v
        return self._recheck()

    def _recheck(self):
        """propagate pending negated conjunctions"""
        for b, v in list(self.f.bl.items()):
            if b.op == "and" and v is False:
                vx, vy = self.f.val(b.a[0]), self.f.val(b.a[1])
                if vx and vy:
                    return False
        return True

    def _eq_int(self, t):
        c, xs = lin_parts(t)
        best = None
        for x, k in sorted(xs, key=lambda p: (not on_state(p[0]), -p[0].id)):
            if k in (1, -1):
                e = scale(sub(t, scale(x, k)), -k)
                if x not in subterms(e):
                    best = (x, e)
                    break
        if best is None:
            return self.f.add_ge0(t) and self.f.add_ge0(scale(t, -1))
        x, e = best
        lo, hi = atom_range(x)
        if lo is not None and not self.f.add_ge0(add(e, K(-lo))):
            return False
        if hi is not None and not self.f.add_ge0(sub(K(hi), e)):
            return False
        return self.substitute({x: e})

    def _eq(self, b, v):
        x, y = b.a
        if is_bool_term(x) and is_bool_term(y):
            vx, vy = self.f.val(x), self.f.val(y)
            if vx is not None:
                return self.assume(y, vx == v)
            if vy is not None:
                return self.assume(x, vy == v)
            self.f.bl[b] = v
            return True
        if x.op == "agg" or y.op == "agg":
            g, o = (x, y) if x.op == "agg" else (y, x)
            isenum = o.ty is not None and o.ty.is_enum()
            if v:
                if isenum and not self.f.set_variants(o, {g.a[1]}):
                    return False
                fs = o.ty.fields(g.a[1]) if o.ty is not None else None
                if fs is not None and len(fs) == len(g.a[2]):
                    for i, z in enumerate(g.a[2]):
                        e = eq(self.canon(z), self.canon(fld(o, g.a[1], i, fs[i][1])))
                        if not self.assume(e, True):
                            return False
                    return True
                if o not in subterms(g):
                    return self.substitute({o: g})
                self.f.bl[b] = True
                return True
            if isenum and not g.a[2]:
                vs = self.f.var.get(o) or frozenset(range(o.ty.nvar()))
                if not self.f.set_variants(o, vs - {g.a[1]}):
                    return False
            elif isenum and self.f.var.get(o) == frozenset({g.a[1]}) and len(g.a[2]) == 1:
                fs = o.ty.fields(g.a[1])
                return self.assume(eq(g.a[2][0], fld(o, g.a[1], 0, fs[0][1])), False)
            self.f.bl[b] = False
            return True
        if not v:
            self.f.bl[b] = False
            if x.ty is not None and x.ty.is_enum():
                vx, vy = self.f.var.get(x), self.f.var.get(y)
                if vx is not None and vx == vy and len(vx) == 1:
                    n = next(iter(vx))
                    fs = x.ty.fields(n)
                    if not fs:
                        return False
                    if len(fs) == 1:
                        return self.assume(eq(fld(x, n, 0, fs[0][1]), fld(y, n, 0, fs[0][1])), False)
            return True
        old, new = (x, y) if (on_state(x), x.id) > (on_state(y), y.id) else (y, x)
        if old in subterms(new):
            old, new = new, old
            if old in subterms(new):
                self.f.bl[b] = True
                return True
        if old.op in ("s", "const", "fn"):
            old, new = new, old
        return self.substitute({old: new})

    def substitute(self, m):
        memo = {}
        R = lambda t: subst(t, m, memo)
        mem = {}
        for c, t in self.mem.items():
            if c[0] in ("V", "P"):
                c = (c[0], R(c[1]))
            mem[c] = R(t)
        self.mem = mem
        self.ev = tuple(R(e) for e in self.ev)
        ns = {k: R(v) for k, v in self.sub.items()}
        ns.update(m)
        self.sub = Sub(ns)
        old = self.f
        nf = self.f = Facts()
        for xs, c in old.lin.items():
            t = mklin(c, dict(xs))
            if not nf.add_ge0(R(t)):
                return False
        for t in old.ne:
            if not nf.add_ne0(R(t)):
                return False
        for t, vs in old.var.items():
            u = R(t)
            if u.op == "agg":
                if u.a[1] not in vs:
                    return False
            elif not nf.set_variants(u, vs):
                return False
        for b, v in old.bl.items():
            u = R(b)
            if u is b:
                nf.bl[b] = v
            elif not self.assume(u, v):
                return False
            nf = self.f
        return True

    def fork(self, b):
        """[(state, truth)] for a boolean term"""
        v = self.val(b)
        if v is not None:
            return [(self, v)]
        s2 = self.copy()
        out = []
        if self.assume(b, True):
            out.append((self, True))
        if s2.assume(b, False):
            out.append((s2, False))
        return out

    def variant(self, t, n=None):
        """[(state, variant index)] of an enum term; deterministic order"""
        t = self.canon(t)
        if t.op == "agg":
            return [(self, t.a[1])]
        vs = self.f.var.get(t)
        if vs is None:
            n = n or (t.ty.nvar() if t.ty is not None and t.ty.k == "adt" else 1)
            vs = frozenset(range(n))
        vs = sorted(vs)
        if len(vs) == 1:
            return [(self, vs[0])]
        out = []
        for i, v in enumerate(vs):
            s = self if i == len(vs) - 1 else self.copy()
            if s.set_var(t, {v}):
                out.append((s, v))
        return out

    def set_var(self, t, vs):
        if not self.f.set_variants(t, vs):
            return False
        if len(vs) == 1 and t.ty is not None and is_subopt(t.ty):
            e = mk("effsub", t)
            r = fld(t, 1, 0, t.ty.fields(1)[0][1]) if 1 in vs else ZERO32
            if not self.substitute({e: r}):
                return False
        # equalities pending on this value may now be decided
        for b, v in list(self.f.bl.items()):
            if b.op == "eq" and (b.a[0] is t or b.a[1] is t):
                del self.f.bl[b]
                w = self.f.val(b)
                if w is None:
                    if not self.assume(b, v):
                        return False
                else:
                    if w != v:
                        return False
                    self.f.bl[b] = v
        return True

    def event(self, kind, *a):
        self.ev = self.ev + (mk("ev", kind, *a),)

    def sig(self):
        return (self.ev, self.ep)


class End:
    __slots__ = ("kind", "st", "val", "loc", "stack")

    def __init__(self, kind, st, val, loc, stack):
        self.kind, self.st, self.val, self.loc, self.stack = kind, st, val, loc, stack


class Interp:
    def __init__(self, prog, models):
        self.p = prog
        self.models = models
        self.ends = []
        self.stack = []       # (fn key, loc)
        self.depth = 0
        self.fresh = 0
        self.steps = 0
        self.unknown = {}     # callee -> count
        self.arith = set()    # arithmetic that was examined: (function, where)
        self.borrows = set()  # accesses to shared cells that were examined
        self.gaps = set()     # what could not be analysed
        self.visited = set()  # function keys analysed
        self.sites = set()
        self.max_steps = 3_000_000
        self.noninline = set()
        self.frames = {}
        self.segkey = {}
        self.effectful = {}   # loop site -> True
        self.loopmemo = {}

    def static_ty(self, d):
        if d.endswith("storage::STATE"):
            return self.p.types.get("cycles_ledger::storage::State")
        return None

    def sub_ty(self, ty):
        fs = ty.fields() if ty is not None else None
        return fs[1][1] if fs and len(fs) > 1 else None

    # ------------------------------------------------------------ memory
    def read(self, st, cell, path):
        t = st.mem.get(cell)
        if t is None:
            k = cell[0]
            if k == "V":
                t = cell[1]
            elif k == "P":
                p = cell[1]
                t = self.deref(p)
            elif k == "S":
                t = mk("static", cell[1], ty=self.static_ty(cell[1]))
            else:
                t = MOVED
        for e in path:
            t = self.proj(st, t, e)
        return t

    def deref(self, p):
        ty = p.ty.to if p.ty is not None and p.ty.k in ("ref", "ptr") else None
        if p.op == "s":
            return p
        return mk("deref", p, ty=ty)

    def proj(self, st, t, e):
        """e: ('f', variant, idx, Ty) | ('i', term, elemTy)"""
        if e[0] == "f":
            if t.op in ("ref", "s", "tls"):     # Box/Unique/NonNull/Pin layers around a pointer, LocalKey
                return t
            if t.op == "guard":
                return t
            return fld(t, e[1], e[2], e[3])
        if e[0] == "i":
            i = e[1]
            if t.op == "agg" and i.op == "k" and t.a[0] in ("array", "vec"):
                if 0 <= i.a[0] < len(t.a[2]):
                    return t.a[2][i.a[0]]
            return mk("elem", t, i, ty=e[2])
        if e[0] == "sub":
            return mk("subslice", t, e[1], e[2], e[3], ty=t.ty)
        raise Gap("projection %r" % (e,))

    def write(self, st, cell, path, v):
        if not path:
            st.mem[cell] = v
            return
        base = self.read(st, cell, ())
        st.mem[cell] = self.upd(st, base, path, v, cell)

    def upd(self, st, t, path, v, cell=None):
        if not path:
            return v
        e = path[0]
        if e[0] == "f":
            _, var, i, fty = e[:4]
            if t.op == "agg" and t.a[1] == var and i < len(t.a[2]):
                fs = list(t.a[2])
                fs[i] = self.upd(st, fs[i], path[1:], v)
                return agg(t.a[0], var, fs, ty=t.ty)
            bty = e[4] if len(e) > 4 else t.ty
            if bty is None:
                bty = t.ty
            fs = bty.fields(var) if bty is not None else None
            if fs is None:
                return mk("upd", t, var, i, self.upd(st, fld(t, var, i, fty), path[1:], v), ty=t.ty)
            if t.op in ("moved",):
                xs = [MOVED] * len(fs)
            else:
                xs = [fld(t, var, j, ft) for j, (_, ft) in enumerate(fs)]
            xs[i] = self.upd(st, xs[i], path[1:], v)
            return agg(self.p.tk(bty), var, xs, ty=bty)
        if e[0] == "i":
            i = e[1]
            if t.op == "agg" and i.op == "k" and 0 <= i.a[0] < len(t.a[2]):
                fs = list(t.a[2])
                fs[i.a[0]] = self.upd(st, fs[i.a[0]], path[1:], v)
                return agg(t.a[0], 0, fs, ty=t.ty)
            return mk("setelem", t, i, self.upd(st, self.proj(st, t, e), path[1:], v), ty=t.ty)
        raise Gap("update %r" % (e,))

    # a reference value: ('ref', cell, path) ; path elements are hashable tuples
    def mkref(self, cell, path, ty=None):
        return mk("ref", cell, tuple(path), ty=ty)

    def target(self, st, r):
        """(cell, path) a pointer term points to"""
        while r.op == "agg" and len(r.a[2]) >= 1 and r.a[0] not in ("tuple", "array", "vec"):
            r = r.a[2][0]           # Pin, NonNull, Unique, Box
        if r.op == "ref":
            return r.a[0], r.a[1]
        if r.op == "guard":
            return r.a[1], r.a[2]
        if r.op in ("s", "tls"):
            return ("V", r), ()
        return ("P", r), ()

    def load(self, st, r):
        c, p = self.target(st, r)
        return self.read(st, c, p)

    def store(self, st, r, v):
        c, p = self.target(st, r)
        self.write(st, c, p, v)

    def valref(self, t, ty=None):
        return mk("ref", ("V", t), (), ty=ty)

    # ------------------------------------------------------------ places / operands
    def place(self, fr, st, p):
        """-> (cell, path, Ty)"""
        f = fr
        cell, path = ("L", self.depth, p[0]), ()
        ty = f.locals[p[0]]
        var = None
        for e in p[1:]:
            if e == "*":
                v = self.read(st, cell, path)
                cell, path = self.target(st, v)
                if ty is not None and ty.k in ("ref", "ptr"):
                    ty = ty.to
                elif ty is not None and ty.k == "adt" and ty.args:
                    ty = ty.args[0] if isinstance(ty.args[0], Ty) else None
                else:
                    ty = None
                var = None
            elif "f" in e:
                fty = f.tys[e["t"]]
                path = path + (("f", var or 0, e["f"], fty, ty),)
                ty = fty
                var = None
            elif "v" in e:
                var = e["v"]
            elif "i" in e:
                i = self.read(st, ("L", self.depth, e["i"]), ())
                ety = ty.elem if ty is not None else None
                path = path + (("i", i, ety),)
                ty = ety
            elif "ci" in e:
                ety = ty.elem if ty is not None else None
                if e.get("end"):
                    base = self.read(st, cell, path)
                    n = self.models.length(self, st, base)
                    i = sub(n, K(e["ci"]))
                else:
                    i = K(e["ci"])
                path = path + (("i", i, ety),)
                ty = ety
            elif "sub" in e:
                path = path + (("sub", e["sub"], e["to"], e.get("end")),)
            else:
                pass    # opaque cast / subtype projections do not change the value
        return cell, path, ty

    def readp(self, fr, st, p):
        c, path, _ = self.place(fr, st, p)
        return self.read(st, c, path)

    def operand(self, fr, st, o):
        if "c" in o:
            return self.readp(fr, st, o["c"])
        if "m" in o:
            p = o["m"]
            v = self.readp(fr, st, p)
            if len(p) == 1:
                st.mem.pop(("L", self.depth, p[0]), None)
            return v
        if "rc" in o:          # overflow/UB checks are off in the profile the canister ships with
            return FALSE
        return self.constant(fr, st, o["k"])

    def constant(self, fr, st, k):
        if "fn" in k:
            c = self.p.callee(fr.tys, k["fn"])
            return self.p.fnterm(c, fr.tys[k["t"]])
        if k.get("promoted") is not None and "val" not in k:
            pk = k["promoted"] if isinstance(k["promoted"], str) else fr.key + "#promoted%s" % k["promoted"]
            pf = self.p.funcs.get(pk)
            if pf is not None:
                outs = self.run_fn(st, pf, [], freeze=True)
                if len(outs) == 1:
                    return outs[0][1]
            return mk("const", pk, ty=fr.tys[k["t"]])
        if "def" in k and "val" not in k:
            d = k["def"]
            if fr.tys[k["t"]].s.startswith("std::thread::LocalKey") or "LocalKey" in fr.tys[k["t"]].s:
                return mk("tls", d)
            c = self.p.consts.get(d)
            if c is not None and c[2] is not None:
                return self.p.val(c[0][c[1]], c[2])
            return mk("const", d, ty=fr.tys[k["t"]])
        return self.p.const(fr.tys, k)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dty):
        k = r["r"]
        if k == "use":
            return self.operand(fr, st, r["a"])
        if k == "ref" or k == "rawptr":
            c, path, ty = self.place(fr, st, r["p"])
            if c[0] == "V" and not path and c[1].op in ("s", "tls"):
                return c[1]
            if c[0] == "P" and not path:
                return c[1]
            return self.mkref(c, path, dty)
        if k == "agg":
            xs = [self.operand(fr, st, x) for x in r["f"]]
            if r["k"] == "tuple":
                return agg("tuple", 0, xs, ty=dty)
            if r["k"] == "array":
                return agg("array", 0, xs, ty=dty)
            ty = fr.tys[r["t"]] if isinstance(r.get("t"), int) else dty
            return agg(self.p.tk(ty), r.get("v") or 0, xs, ty=ty)
        if k == "discr":
            c, path, ty = self.place(fr, st, r["p"])
            t = self.read(st, c, path)
            if t.op == "agg":
                if t.ty is not None and t.ty.k == "adt" and t.ty.variants and t.a[1] < len(t.ty.variants) and False:
                    pass
                return K(self.discr_value(ty, t.a[1]))
            if t.ty is None and ty is not None:
                t.ty = ty
            vs = st.f.var.get(t)
            if vs is not None and len(vs) == 1:
                return K(self.discr_value(ty, next(iter(vs))))
            return mk("disc", t, ty=dty)
        if k == "bin":
            return self.binop(st, r["op"], self.operand(fr, st, r["a"]), self.operand(fr, st, r["b"]), dty,
                              self.optype(fr, r["a"]))
        if k == "un":
            a = self.operand(fr, st, r["a"])
            op = r["op"]
            if op == "Not":
                if is_bool_term(a):
                    return not_(a)
                lo, hi = ty_range(dty)
                if lo == 0:
                    return sub(K(hi), a)
                return sub(K(-1), a)
            if op == "Neg":
                return self.wrap(st, scale(a, -1), dty)
            if op == "PtrMetadata":
                return self.models.length(self, st, self.load(st, a))
            return mk("un", op, a, ty=dty)
        if k == "cast":
            return self.cast(fr, st, r, dty)
        if k == "repeat":
            a = self.operand(fr, st, r["a"])
            n = r.get("n")
            if n is None and dty is not None and dty.k == "array":
                n = dty.len
            if isinstance(n, int) and n <= 4096:
                return agg("array", 0, [a] * n, ty=dty)
            return mk("repeat", a, str(n), ty=dty)
        return mk("rv", repr(sorted(r.items(), key=str))[:200], fr.key, ty=dty)

    def discr_value(self, ty, v):
        if ty is not None and ty.k == "adt" and ty.variants and v < len(ty.variants):
            d = ty.variants[v][1]
            try:
                return int(d)
            except (TypeError, ValueError):
                return v
        return v

    def variant_of_discr(self, ty, d):
        if ty is not None and ty.k == "adt" and ty.variants:
            for i, v in enumerate(ty.variants):
                try:
                    if int(v[1]) == d:
                        return i
                except (TypeError, ValueError):
                    pass
        return d

    def optype(self, fr, o):
        if "k" in o:
            return fr.tys[o["k"]["t"]]
        p = o.get("c") or o.get("m")
        ty = fr.locals[p[0]]
        for e in p[1:]:
            if e == "*":
                ty = ty.to if ty is not None and ty.k in ("ref", "ptr") else None
            elif "f" in e:
                ty = fr.tys[e["t"]]
            elif "i" in e or "ci" in e:
                ty = ty.elem if ty is not None else None
        return ty

    def in_range(self, st, t, ty):
        lo, hi = ty_range(ty)
        if lo is None:
            return True
        return st.f.ge0(add(t, K(-lo))) is True and st.f.ge0(sub(K(hi), t)) is True

    def wrap(self, st, t, ty):
        if self.in_range(st, t, ty):
            return t
        return mk("wrap", t, ty.s if ty is not None else "?", ty=ty)

    def binop(self, st, op, a, b, dty, aty):
        base = op.replace("Unchecked", "").replace("WithOverflow", "")
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            intish = (aty is not None and aty.k in ("int", "char")) or (is_int_term(a) and is_int_term(b))
            if intish:
                d = {"Eq": lambda: eq0(sub(a, b)), "Ne": lambda: not_(eq0(sub(a, b))), "Lt": lambda: lt(a, b),
                     "Le": lambda: le(a, b), "Gt": lambda: lt(b, a), "Ge": lambda: le(b, a)}
                return d[base]()
            if aty is not None and aty.k == "bool":
                x = eq(a, b)
                if base == "Eq":
                    return x
                if base == "Ne":
                    return not_(x)
            if base == "Eq":
                return eq(a, b)
            if base == "Ne":
                return not_(eq(a, b))
            return mk("cmp", base, a, b, ty=dty)
        if aty is not None and aty.k == "bool":
            if base == "BitAnd":
                return and_(a, b)
            if base == "BitOr":
                return or_(a, b)
            if base == "BitXor":
                return not_(eq(a, b))
        if aty is not None and aty.k != "int":
            return mk("bin", base, a, b, ty=dty)
        t = None
        if base == "Add":
            t = add(a, b)
        elif base == "Sub":
            t = sub(a, b)
        elif base == "Mul":
            if a.op == "k":
                t = scale(b, a.a[0])
            elif b.op == "k":
                t = scale(a, b.a[0])
            else:
                t = mk("mul", *sorted((a, b), key=lambda x: x.id), ty=aty)
        elif a.op == "k" and b.op == "k":
            x, y = a.a[0], b.a[0]
            try:
                if base == "Div":
                    t = K(abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1))
                elif base == "Rem":
                    t = K(abs(x) % abs(y) * (1 if x >= 0 else -1))
                elif base == "Shl":
                    t = K(x << y)
                elif base == "Shr":
                    t = K(x >> y)
                elif base == "BitAnd":
                    t = K(x & y)
                elif base == "BitOr":
                    t = K(x | y)
                elif base == "BitXor":
                    t = K(x ^ y)
            except ZeroDivisionError:
                t = None
        if "WithOverflow" in op:
            ity = dty.elems[0] if dty is not None and dty.k == "tuple" else aty
            if t is None:
                t = mk("bin", base, a, b, ty=ity)
            lo, hi = ty_range(ity)
            ok = and_(ge0(add(t, K(-lo))), ge0(sub(K(hi), t))) if lo is not None else TRUE
            return agg("tuple", 0, (t, not_(ok)), ty=dty)
        if t is not None and base in ("Add", "Sub", "Mul", "Shl"):
            if "Unchecked" in op:
                return t
            return self.wrap(st, t, dty if dty is not None and dty.k == "int" else aty)
        if t is not None:
            return t
        return mk("bin", base, a, b, ty=dty)

    def cast(self, fr, st, r, dty):
        a = self.operand(fr, st, r["a"])
        k = r["k"]
        if k.startswith("IntToInt") or k in ("int", "IntToInt"):
            if is_bool_term(a):
                v = st.val(a)
                if v is not None:
                    return K(int(v))
                return mk("b2i", a, ty=dty)
            if a.op == "disc":
                return mk("disc", a.a[0], ty=dty)
            if fr.key.startswith("cycles_ledger"):
                self.arith.add((fr.key, "conversion to %s" % (dty.s if dty else "?")))
            if self.in_range(st, a, dty):
                return a
            if fr.key.startswith("cycles_ledger") and is_int_term(a):
                st.event("narrow", S(fr.key), S(self.loc()), a, S(dty.s if dty else "?"))
            return mk("cast", a, dty.s if dty else "?", ty=dty)
        if "Pointer" in k or "Ptr" in k or "Transmute" in k or "Unsize" in k or "Subtype" in k:
            if "ReifyFn" in k or "ClosureFn" in k:
                return a
            if "Transmute" in k and dty is not None and a.ty is not None and dty.k == "int":
                return mk("transmute", a, dty.s, ty=dty)
            return a
        return mk("cast", a, dty.s if dty else "?", k, ty=dty)

    # ------------------------------------------------------------ functions
    def freeze(self, st, v):
        """a value whose references into the current frame are replaced by references to (immutable) values"""
        if v.op == "ref" and v.a[0][0] == "L":
            return mk("ref", ("V", self.freeze(st, self.read(st, v.a[0], v.a[1]))), (), ty=v.ty)
        if v.op == "agg":
            return agg(v.a[0], v.a[1], [self.freeze(st, x) for x in v.a[2]], ty=v.ty)
        return v

    def run_fn(self, st, f, args, freeze=False):
        """[(state, return value)]"""
        f = self.p.prep(f)
        self.visited.add(f.key)
        self.depth += 1
        d = self.depth
        if d > 150:
            raise Gap("call depth at " + f.key)
        self.frames[d] = f
        for i, a in enumerate(args):
            st.mem[("L", d, i + 1)] = a
        rets = []
        for kind, s, x in self.region(f, st, 0, None, None):
            if kind == "ret":
                v = s.mem.get(("L", d, 0))
                if v is None:
                    rt = f.locals[0]
                    v = UNIT if rt.k == "tuple" and not rt.elems else mk("uninit", f.key, ty=rt)
                if freeze:
                    v = self.freeze(s, v)
                for c in [c for c in s.mem if c[0] == "L" and c[1] >= d]:
                    del s.mem[c]
                rets.append((s, v))
            elif kind != "trap":
                raise Gap("stray edge in " + f.key)
        self.depth -= 1
        return self.merge(rets)

    def merge(self, outs):
        """join outcomes with equal memory, effects and value: their facts are intersected"""
        if len(outs) < 2:
            return outs
        groups, order = {}, []
        for s, v in outs:
            k = (v, s.ev, s.ep, s.vn, frozenset(s.sub.items()))
            g = groups.setdefault(k, [])
            for h in g:
                if h[0].mem == s.mem and h[0].bor == s.bor:
                    h.append(s)
                    break
            else:
                h = [s]
                g.append(h)
                order.append((h, v))
        return self.respell([(h[0] if len(h) == 1 else self.join(h), v) for h, v in order])

    def respell(self, outs):
        """joins two outcomes that differ only in whether an optional subaccount is given, where one has its bytes and the
        other zeros: both have the effective subaccount"""
        again = len(outs) > 1
        while again:
            again = False
            dec = [{t: vs for t, vs in s.f.var.items() if len(vs) == 1 and t.ty is not None and is_subopt(t.ty)} for s, _ in outs]
            for i in range(len(outs)):
                for j in range(len(outs)):
                    for t, vs in dec[i].items() if i != j else ():
                        if 1 in vs and 0 in dec[j].get(t, ()):
                            r = self.unspelled(t, outs[i], outs[j])
                            if r is not None:
                                outs = [x for k, x in enumerate(outs) if k not in (i, j)] + [r]
                                again = True
                                break
                    if again:
                        break
                if again:
                    break
        return outs

    def unspelled(self, t, x, y):
        (a, v), (b, w) = x, y
        if a.ep != b.ep or a.vn != b.vn or len(a.ev) != len(b.ev) or len(a.mem) != len(b.mem) or a.bor != b.bor:
            return None
        e = mk("effsub", t)
        m1, m2, z = {}, {}, {e: ZERO32}
        some = {fld(t, 1, 0, t.ty.fields(1)[0][1]): e}
        R, Z = (lambda u: subst(u, some, m1)), (lambda u: subst(u, z, m2))
        if v is not None and Z(R(v)) is not w or any(Z(R(p)) is not q for p, q in zip(a.ev, b.ev)):
            return None
        mem = {}
        for c, u in a.mem.items():
            u = R(u)
            c = (c[0], R(c[1])) if c[0] in ("V", "P") else c
            if Z(u) is not b.mem.get((c[0], Z(c[1])) if c[0] in ("V", "P") else c):
                return None
            mem[c] = u
        n = a.copy()
        n.mem, n.ev, n.tok = mem, tuple(R(p) for p in a.ev), max(a.tok, b.tok)
        n.sub = Sub({R(p): R(q) for p, q in a.sub.items() if p is not e and R(p) is not e and b.sub.get(Z(R(p))) is Z(R(q))})
        f = n.f = Facts()
        for u, vs in a.f.var.items():
            o = b.f.var.get(Z(R(u)))
            if o is not None and R(u).op != "agg":
                f.var[R(u)] = vs | o
        for u, k in a.f.bl.items():
            if b.f.bl.get(Z(R(u))) == k:
                f.bl[R(u)] = k
        for xs, c in a.f.lin.items():
            u = R(mklin(c, dict(xs)))
            cz, xz = lin_parts(Z(u))
            o = b.f.lin.get(xz)
            if b.f.ge0(Z(u)) is True:
                f.add_ge0(u)
            elif o is not None and o > cz:
                f.add_ge0(add(u, K(o - cz)))
        f.ne = frozenset(R(u) for u in a.f.ne if Z(R(u)) in b.f.ne)
        k = 0
        while k < min(len(a.alts), len(b.alts)) and a.alts[k] is b.alts[k]:
            k += 1
        br = ((a.f, a.alts[k:]), (b.f, b.alts[k:]))
        if {Z(R(u)): vs for u, vs in a.f.var.items() if u is not t} == {u: vs for u, vs in b.f.var.items() if u is not t} \
                and {Z(R(u)): x for u, x in a.f.bl.items()} == b.f.bl and {Z(R(u)) for u in a.f.ne} == set(b.f.ne):
            RESPELLED[id(br)] = br
        n.alts = a.alts[:k] + ((br, ()),)
        return n, R(v) if v is not None else None

    def join(self, ss):
        r = ss[0]
        r.tok = max(x.tok for x in ss)
        f = Facts()
        rest = [s.f for s in ss[1:]]
        for t, vs in r.f.var.items():
            u = vs
            for o in rest:
                w = o.var.get(t)
                if w is None:
                    u = None
                    break
                u = u | w
            if u is not None:
                f.var[t] = u
        for b, v in r.f.bl.items():
            if all(o.bl.get(b) == v for o in rest):
                f.bl[b] = v
        cand = {}
        for x in [r.f] + rest:
            for xs, c in x.lin.items():
                cand[xs] = max(cand.get(xs, c), c)
        allf = [r.f] + rest
        for xs, c in cand.items():
            t = mklin(c, dict(xs))
            if all((xs in o.lin and o.lin[xs] <= c) or o.ge0(t) is True for o in allf):
                f.lin[xs] = c
        f.ne = frozenset(t for t in r.f.ne if all(t in o.ne for o in rest))
        k, n = 0, min(len(x.alts) for x in ss)
        while k < n and all(x.alts[k] is r.alts[k] for x in ss):
            k += 1
        r.alts = r.alts[:k] + ((tuple((x.f, x.alts[k:]) for x in ss), ()),)
        r.f = f
        return r

    def trap(self, st, msg, loc):
        self.ends.append(End("trap", st, msg, loc, tuple(self.stack)))

    def region(self, f, st, bb, region, header):
        """executes from bb, blocks in reverse postorder so that equal states meet at joins;
        outcomes ('ret',st,_), ('trap',st,_), ('exit',st,bb), ('back',st,_)"""
        out = []
        pend = {bb: [(st, True)]}
        while pend:
            b = min(pend, key=f.rpo.__getitem__)
            states = pend.pop(b)
            if b != bb and len(states) > 1:
                states = [(s, False) for s in self.meet([s for s, _ in states])]
            for s, entry in states:
                entry = entry and b == header
                if b == header and not entry:
                    out.append(("back", s, None))
                    continue
                if region is not None and b not in region:
                    out.append(("exit", s, b))
                    continue
                if b in f.loops and b != header:
                    for k, s2, x in self.loop(f, s, b):
                        if k == "exit":
                            pend.setdefault(x, []).append((s2, False))
                        else:
                            out.append((k, s2, x))
                    continue
                for b2, s2 in self.block(f, s, b, out):
                    pend.setdefault(b2, []).append((s2, False))
        return out

    def key(self, s):
        return (s.ev, s.ep, s.vn, frozenset(s.mem.items()), frozenset(s.bor.items()), frozenset(s.sub.items()))

    def meet(self, states):
        groups = {}
        for s in states:
            groups.setdefault(self.key(s), []).append(s)
        return [s for s, _ in self.respell([(g[0] if len(g) == 1 else self.join(g), None) for g in groups.values()])]

    # ------------------------------------------------------------ cuts
    def cut(self, st, kind, loc):
        """ends a segment: from here on the ledger state is arbitrary. The states that reached this point are kept with
        the segment; the segment is shared by all of them that agree on everything else."""
        pre = st.copy()
        st.vn += 1
        live, work = set(), [c for c in st.mem if c[0] != "G"]
        seen = set()
        while work:
            c = work.pop()
            if c in live or c not in st.mem:
                continue
            live.add(c)
            for x in subterms(st.mem[c]):
                if x.id not in seen:
                    seen.add(x.id)
                    if x.op == "ref":
                        work.append(x.a[0])
                    elif x.op == "guard":
                        work.append(x.a[1])
        for c in [c for c in st.mem if c not in live]:
            del st.mem[c]
        for c in [c for c in st.mem if c[0] == "S" and c[1] != "ic.cycles_available"]:
            del st.mem[c]
        st.mem[("S", STATE)] = mk("static", STATE + "@%d" % st.vn, ty=self.static_ty(STATE))
        if kind == "await":
            st.ep += 1
        st.ev = ()
        # equalities about the forgotten state only served to simplify its terms
        st.sub = {k: v for k, v in st.sub.items() if not on_state(k)}
        key = (kind, loc, tuple(self.stack)) + self.key(st)
        sid = self.segkey.get(key)
        if sid is None:
            sid = self.segkey[key] = len(SEGS)
            SEGS.append(Seg(sid, kind, loc))
        SEGS[sid].pre.append(pre)
        st.event("seg", K(sid))
        return st

    # ------------------------------------------------------------ loops
    def changed(self, a, b):
        """havoc paths between two memories: set of (cell, path)"""
        out = set()
        for c in set(a) | set(b):
            x, y = a.get(c), b.get(c)
            if x is y:
                continue
            if x is None or y is None:
                out.add((c, None))
                continue
            self._diff(x, y, c, (), out)
        return out

    def _diff(self, x, y, c, path, out):
        if x is y:
            return
        if x.op == "agg" and y.op != "agg" and y.ty is not None and y.ty.fields(x.a[1]) and y.ty.nvar() == 1:
            y = self.expand(y)
        if y.op == "agg" and x.op != "agg" and x.ty is not None and x.ty.fields(y.a[1]) and x.ty.nvar() == 1:
            x = self.expand(x)
        if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]) \
                and x.a[0] != "vec":
            for i, (p, q) in enumerate(zip(x.a[2], y.a[2])):
                if x.a[0] == "array":
                    if p is not q:
                        out.add((c, path))
                        return
                else:
                    self._diff(p, q, c, path + ((x.a[0], x.a[1], i),), out)
            return
        out.add((c, path))

    def expand(self, t):
        fs = t.ty.fields(0)
        return mk("agg", self.p.tk(t.ty), 0, tuple(fld(t, 0, i, ft) for i, (_, ft) in enumerate(fs)), ty=t.ty)

    def _getp(self, t, path):
        for tk, v, i in path:
            if t.op != "agg":
                t = self.expand(t) if t.ty is not None and t.ty.fields(v) else t
            if t.op != "agg" or i >= len(t.a[2]):
                return None
            t = t.a[2][i]
        return t

    def _setp(self, t, path, v):
        if not path:
            return v
        if t.op != "agg":
            t = self.expand(t)
        _, var, i = path[0]
        fs = list(t.a[2])
        fs[i] = self._setp(fs[i], path[1:], v)
        return mk("agg", t.a[0], t.a[1], tuple(fs), ty=t.ty)

    unfold = False  # every loop here ends by itself: no summaries

    def loop(self, f, st, h):
        body = f.loops[h]
        loc = f.blocks[h]["t"].get("loc") or f.loc
        return self.iterate(st, lambda s: self.region(f, s, h, body, h), (f.key, h), f.key, loc)

    def iterate(self, st, run, site, fn, loc):
        """a loop whose iterations are made by run(state) -> outcomes, 'back' for the next iteration"""
        # exact attempt: a loop that never comes back, or whose iteration count is decided, is not abstracted
        cur, first = [st], None
        done = []
        n = 0
        while True:
            saved = len(self.ends)
            evn = [s.copy() for s in cur]
            outs = []
            for s in cur:
                outs += run(s)
            back = [o for o in outs if o[0] == "back"]
            rest = [o for o in outs if o[0] != "back"]
            if not back:
                return self.join_exits(done + rest)
            if (self.unfold and n < 64 or not rest and len(back) == len(cur) and n < 64 and len(cur) <= 4
                    or n < 16 and len(back) <= 8 and all(any(self.counted(e, o[1]) for e in evn) for o in back)):
                go = True
            else:
                # iterators over optional values end after a step or two
                go = n < 3 and len(back) <= 4 and fn.startswith("core::")
                if go and first is None:
                    first = (evn, list(done), saved)
            if go:
                cur = [o[1] for o in back]
                done += rest
                n += 1
                continue
            cur = evn
            if first is not None:
                cur, done, saved = first
            del self.ends[saved:]
            break
        for s in cur:
            done += self.abstract_loop(s, run, site, fn, loc)
        return self.join_exits(done)

    def counted(self, a, b):
        """does the loop step through a sequence of known, small length?"""
        for cell, path in self.changed(a.mem, b.mem):
            if not path or cell not in a.mem or cell not in b.mem:
                continue
            x, y = self._getp(a.mem[cell], path), self._getp(b.mem[cell], path)
            if x is None or y is None or x.op != "k" or y.op != "k" or y.a[0] <= x.a[0]:
                continue
            up = self._getp(b.mem[cell], path[:-1])
            if up is None or up.op != "agg":
                continue
            if up.a[0] == "it" and path[-1][2] == 1:
                n = self.models.length(self, b, up.a[2][0])
                if n.op == "k" and n.a[0] - y.a[0] <= 16:
                    return True
            elif str(up.a[0]).startswith("core::ops::range::Range") and path[-1][2] == 0:
                n = up.a[2][1]
                if n.op == "k" and n.a[0] - y.a[0] <= 16:
                    return True
        return False

    def abstract_loop(self, st, run, site, fn, loc):
        if site not in self.effectful:
            nl, ne, ns = len(LOOPS), len(self.ends), len(SEGS)
            snap = dict(self.segkey)
            out, info = self.fix(st.copy(), run, fn, loc)
            self.effectful[site] = self.body_effects(info)
            if not self.effectful[site]:
                return out
            del LOOPS[nl:], self.ends[ne:], SEGS[ns:]
            self.segkey = snap
        elif not self.effectful[site]:
            out, info = self.fix(st.copy(), run, fn, loc)
            if not self.body_effects(info):
                return out
            raise Gap("loop with path-dependent effects in " + fn)
        # a mutating loop: analysed once per calling context, from an arbitrary ledger state
        s = self.cut(st.copy(), "loop", loc)
        cells = self.reach(s)
        key = (site, self.depth, s.vn, frozenset((c, s.mem[c]) for c in cells), frozenset(s.bor.items()))
        r = self.loopmemo.get(key)
        if r is None:
            m = St()
            m.mem = {c: s.mem[c] for c in cells}
            m.bor, m.vn, m.ep = dict(s.bor), s.vn, s.ep
            m.tok = 1_000_000 * (len(self.loopmemo) + 1)
            out, info = self.fix(m, run, fn, loc)
            if any(x[1].ep != s.ep or x[1].vn != s.vn for x in out):
                raise Gap("a mutating loop contains another one or an inter-canister call in " + fn)
            r = self.loopmemo[key] = out
        res = []
        for k, o, x in r:
            n = s.copy()
            if o.sub and not n.substitute(o.sub):
                continue
            for c in cells:
                n.mem.pop(c, None)
            n.mem.update(o.mem)
            n.bor = dict(o.bor)
            n.ev = n.ev + o.ev
            if self.add_facts(n, o.f):
                res.append((k, n, x))
        return res

    def add_facts(self, n, f):
        for xs, c in f.lin.items():
            if not n.f.add_ge0(n.canon(mklin(c, dict(xs)))):
                return False
        for t in f.ne:
            if not n.f.add_ne0(n.canon(t)):
                return False
        for t, vs in f.var.items():
            t = n.canon(t)
            if t.op == "agg":
                if t.a[1] not in vs:
                    return False
            elif not n.set_var(t, set(vs)):
                return False
        for b, v in f.bl.items():
            if not n.assume(n.canon(b), v):
                return False
        return True

    def reach(self, st):
        """cells the current frame can reach, and the statics"""
        d = self.depth
        seen = set()
        work = [c for c in st.mem if c[0] == "S" or c[0] == "L" and c[1] == d]
        memo = set()
        while work:
            c = work.pop()
            if c in seen or c not in st.mem:
                continue
            seen.add(c)
            for x in subterms(st.mem[c]):
                if x.id in memo:
                    continue
                memo.add(x.id)
                if x.op == "ref":
                    work.append(x.a[0])
                elif x.op == "guard":
                    work.append(x.a[1])
        for cell, _, _ in st.bor.values():
            if cell in st.mem:
                seen.add(cell)
        return sorted(seen, key=repr)

    def fix(self, st, run, key, loc):
        """generic loop fixpoint: run(state) -> outcomes with 'back' for the next iteration"""
        lid = len(LOOPS)
        LOOPS.append(None)
        info = LoopInfo()
        info.id, info.fn, info.loc, info.stack = lid, key, loc, tuple(self.stack)
        H = {}
        order = []

        def havoc():
            s = st.copy()
            s.event("loop", K(lid), S(loc))
            for (c, path) in order:
                if path is None:
                    s.mem.pop(c, None)
                else:
                    s.mem[c] = self._setp(s.mem[c], path, H[(c, path)])
            return s
        for _ in range(12):
            s0 = havoc()
            base = dict(s0.mem)
            saved = len(self.ends)
            outs = run(s0.copy())
            del self.ends[saved:]
            new = []
            for k, s, x in outs:
                if k != "back":
                    continue
                for (c, path) in sorted(self.changed(base, s.mem), key=repr):
                    if (c, path) in H:
                        continue
                    # coarser entries replace finer ones
                    if path is not None and any(hc == c and hp is None for hc, hp in H):
                        continue
                    if path is not None and any(hc == c and hp is not None and len(hp) < len(path) and path[:len(hp)] == hp for hc, hp in H):
                        continue
                    if (c, path) in new:
                        continue
                    new.append((c, path))
            if not new:
                break
            for c, path in new:
                if path is None:
                    H[(c, None)] = None
                else:
                    init = self._getp(st.mem[c], path) if c in st.mem else None
                    if init is None:
                        H[(c, None)] = None
                        path = None
                    else:
                        ty = init.ty
                        if is_int_term(init) and ty is None:
                            ty = self._int_ty(st, c, path)
                        if is_bool_term(init) and ty is None:
                            ty = self.p.types.get("bool")
                        H[(c, path)] = mk("lv", lid, repr((c[0], c[1] if not isinstance(c[1], T) else c[1].id, c[2] if len(c) > 2 else 0)), path, ty=ty)
                for (hc, hp) in list(H):
                    if hc == c and (hc, hp) != (c, path) and hp is not None and (
                            path is None or (len(hp) > len(path) and hp[:len(path)] == path)):
                        del H[(hc, hp)]
            order = list(H)
        else:
            raise Gap("loop does not stabilise in " + key)
        # 2. linear invariants over the changed integers (and lengths of changed vectors)
        ints = []
        for (c, path), lv in H.items():
            if path is None or lv is None:
                continue
            init = self._getp(st.mem[c], path)
            if is_int_term(init):
                ints.append((lv, init, c, path, False))
            elif init.op == "agg" and init.a[0] == "vec" or (lv.ty is not None and lv.ty.s.startswith("std::vec::Vec")):
                ints.append((mk("len", lv), self.models.length(self, st, init), c, path, True))
        cands = []
        backs = [(s, x) for k, s, x in outs if k == "back"]

        def at(s, c, path, isvec):
            t = self._getp(s.mem.get(c, MOVED), path)
            if t is None:
                return None
            return self.models.length(self, s, t) if isvec else t
        for lv, init, c, path, isvec in ints:
            cands.append((sub(lv, init), [(1, c, path, isvec)], sub(K(0), init)))
            cands.append((sub(init, lv), [(-1, c, path, isvec)], init))
        for i in range(len(ints)):
            for j in range(i + 1, len(ints)):
                a, b = ints[i], ints[j]
                for sg in (1, -1):
                    for dr in (1, -1):
                        # dr*((a-a0) - sg*(b-b0)) >= 0
                        t = scale(sub(sub(a[0], a[1]), scale(sub(b[0], b[1]), sg)), dr)
                        cands.append((t, [(dr, a[2], a[3], a[4]), (-sg * dr, b[2], b[3], b[4])],
                                      scale(sub(scale(b[1], sg), a[1]), dr)))
        # guards of the iteration: lv < X gives the candidate lv <= X
        seen = set()
        for s, _ in backs:
            for xs, c in s.f.lin.items():
                for lv, init, cc, path, isvec in ints:
                    d = dict(xs)
                    if lv in d and xs not in st.f.lin:
                        k = d[lv]
                        if k not in (1, -1):
                            continue
                        if any(x in d for x in [z[0] for z in ints] if x is not lv):
                            pass
                        t = mklin(c + 1, d)
                        if t in seen:
                            continue
                        seen.add(t)
                        others = mklin(c + 1, {x: q for x, q in d.items() if x is not lv})
                        if any(z[0] in d for z in ints if z[0] is not lv):
                            continue
                        if any(x.op == "lv" or x.op == "len" and x.a[0].op == "lv" for x in d if x is not lv and any(x in subterms(z[0]) for z in ints)):
                            continue
                        cands.append((t, [(k, cc, path, isvec)], others))
        # initially true?
        live = []
        for t, parts, const in cands:
            m = {}
            v = const
            for k, c, path, isvec in parts:
                x = at(st, c, path, isvec)
                if x is None:
                    v = None
                    break
                v = add(v, scale(x, k))
            if v is not None and st.f.ge0(v) is True:
                live.append((t, parts, const))
        while live:
            keep = []
            for t, parts, const in live:
                ok = True
                for s, _ in backs:
                    v = const
                    for k, c, path, isvec in parts:
                        x = at(s, c, path, isvec)
                        if x is None:
                            v = None
                            break
                        v = add(v, scale(x, k))
                    if v is None:
                        ok = False
                        break
                    v = s.canon(v)
                    g = s.f.copy()
                    if not all(g.add_ge0(s.canon(q[0])) for q in live):
                        continue
                    if g.ge0(v) is not True:
                        ok = False
                        break
                if ok:
                    keep.append((t, parts, const))
            if len(keep) == len(live):
                break
            live = keep
        # 3. final pass under the invariants
        s0 = havoc()
        info.invs = [t for t, _, _ in live]
        for t in info.invs:
            if not s0.f.add_ge0(t):
                raise Gap("inconsistent loop invariant")
        info.head = s0.copy()
        info.pre = st
        info.havoc = dict(H)
        res = run(s0)
        info.back = [s for k, s, x in res if k == "back"]
        out = [(k, s, x) for k, s, x in res if k != "back"]
        info.nexit = len(out)
        LOOPS[lid] = info
        if not self.body_effects(info):
            # no iteration has an effect: the marker is not an effect either
            mkr = mk("ev", "loop", K(lid), S(loc))
            for _, s, _ in out:
                s.ev = tuple(e for e in s.ev if e is not mkr)
        return out, info

    def body_effects(self, info):
        n = len(info.head.ev)
        return any(len(s.ev) > n for s in info.back)

    def _int_ty(self, st, c, path):
        """type of an integer slot"""
        if c[0] == "L" and isinstance(c[2], int):
            ty = self.frames[c[1]].locals[c[2]]
        elif c == ("S", "ic.cycles_available"):
            return self.p.types.get("u128")
        else:
            t = st.mem.get(c)
            ty = t.ty if t is not None else None
        for tk, v, i in path:
            if tk in ("it", "miter"):
                return self.p.types.get("usize")
            fs = ty.fields(v) if ty is not None else None
            if fs is None and ty is not None and ty.k == "tuple":
                fs = [(str(j), x) for j, x in enumerate(ty.elems)]
            if fs is None and ty is not None and ty.k in ("closure", "coroutine"):
                fs = [(str(j), x) for j, x in enumerate(ty.upvars)]
            if not fs or i >= len(fs):
                return None
            ty = fs[i][1]
        return ty if ty is not None and ty.k == "int" else None

    def join_exits(self, outs):
        groups, order = {}, []
        for k, s, x in outs:
            if k not in ("exit",):
                order.append([(k, s, x)])
                continue
            key = (k, x, s.ev, s.ep, s.vn, frozenset(s.sub.items()))
            for h in groups.setdefault(key, []):
                if h[0][1].mem == s.mem and h[0][1].bor == s.bor:
                    h.append((k, s, x))
                    break
            else:
                h = [(k, s, x)]
                groups[key].append(h)
                order.append(h)
        return [h[0] if len(h) == 1 else (h[0][0], self.join([q[1] for q in h]), h[0][2]) for h in order]

    # ------------------------------------------------------------ blocks
    def block(self, f, st, b, out):
        """-> [(bb, st)] ; 'ret'/'trap' outcomes are appended to out"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Gap("step budget exceeded in " + f.key)
        blk = f.blocks[b]
        d = self.depth
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                p = s[1]
                if len(p) == 1:
                    v = self.rvalue(f, st, s[2], f.locals[p[0]])
                    st.mem[("L", d, p[0])] = v
                else:
                    dty = self.optype(f, {"c": p})
                    v = self.rvalue(f, st, s[2], dty)
                    c, path, _ = self.place(f, st, p)
                    self.write(st, c, path, v)
                    self.static_write(st, c, path, v, s[3])
            elif k == "dead":
                st.mem.pop(("L", d, s[1]), None)
            elif k == "sd":
                c, path, ty = self.place(f, st, s[1])
                fs = ty.fields(s[2]) or []
                self.write(st, c, path, agg(self.p.tk(ty), s[2], [MOVED] * len(fs), ty=ty))
        t = blk["t"]
        k = t["k"]
        if k == "goto":
            return [(t["to"], st)]
        if k == "return":
            out.append(("ret", st, None))
            return []
        if k == "unreachable" or k == "cleanup":
            return []
        if k == "drop":
            self.drop(f, st, t)
            return [(t["to"], st)]
        if k == "switch":
            return self.switch(f, st, t)
        if k == "assert":
            return self.do_assert(f, st, t)
        if k == "yield":
            raise Gap("pending poll reached in " + f.key)
        if k == "call":
            return self.call_term(f, st, t)
        raise Gap("terminator " + k)

    def static_write(self, st, c, path, v, loc):
        if c[0] == "S":
            st.event("write", S(c[1]), S(".".join(str(self.fname(e)) for e in path)), v, S(loc))

    def fname(self, e):
        if e[0] == "f":
            bty = e[4] if len(e) > 4 else None
            if bty is not None:
                fs = bty.fields(e[1])
                if fs and e[2] < len(fs):
                    return fs[e[2]][0]
            return e[2]
        return "[]"

    def drop(self, f, st, t):
        p = t["p"]
        if not st.bor:
            return
        c, path, _ = self.place(f, st, p)
        if c[0] == "L" and c not in st.mem:
            return
        self.release(st, self.read(st, c, path))

    def release(self, st, v):
        if v.op in ("k", "lin", "s"):
            return
        for x in subterms(v):
            if x.op == "guard" and x.a[0] in st.bor:
                del st.bor[x.a[0]]

    def switch(self, f, st, t):
        on = self.operand(f, st, t["on"])
        cases = [(int(v), bb) for v, bb in t["cases"]]
        if on.op == "b":
            on = K(int(on.a[0]))
        if on.op == "k":
            for v, bb in cases:
                if v == on.a[0]:
                    return [(bb, st)]
            # negative discriminants appear as unsigned values
            for v, bb in cases:
                if v >= 1 << 31 and (v - (1 << 128) == on.a[0] or v - (1 << 64) == on.a[0] or v - (1 << 32) == on.a[0]):
                    return [(bb, st)]
            return [(t["else"], st)]
        res = []
        if on.op == "disc":
            e = on.a[0]
            vs = st.f.var.get(e)
            if vs is None:
                vs = frozenset(range(e.ty.nvar())) if e.ty is not None and e.ty.k == "adt" else None
            if vs is None:
                raise Gap("discriminant of unknown type in " + f.key)
            groups = {}
            for v in sorted(vs):
                dv = self.discr_value(e.ty, v)
                for cv, bb in cases:
                    if cv == dv or (dv < 0 and cv in (dv + (1 << 128), dv + (1 << 64), dv + (1 << 32), dv + (1 << 8))):
                        groups.setdefault(bb, set()).add(v)
                        break
                else:
                    groups.setdefault(t["else"], set()).add(v)
            items = list(groups.items())
            for i, (bb, vv) in enumerate(items):
                s = st if i == len(items) - 1 else st.copy()
                if s.set_var(e, vv):
                    res.append((bb, s))
            return res
        if is_bool_term(on):
            zero = None
            for v, bb in cases:
                if v == 0:
                    zero = bb
            one = t["else"] if zero is not None else None
            for v, bb in cases:
                if v == 1:
                    one = bb
            for s, v in st.fork(on):
                res.append((one if v else (zero if zero is not None else t["else"]), s))
            return res
        rest = st
        for v, bb in cases:
            b = eq0(sub(on, K(v)))
            s = rest.copy()
            if s.val(b) is not False and s.assume(b, True):
                res.append((bb, s))
            if not rest.assume(b, False):
                rest = None
                break
        if rest is not None:
            res.append((t["else"], rest))
        return res

    def do_assert(self, f, st, t):
        on = self.operand(f, st, t["on"])
        want = bool(t["want"])
        res = []
        v = st.val(on)
        msg = t.get("msg") or ""
        loc = t.get("loc") or f.loc
        if "verflow" in msg:
            self.arith.add((f.key, loc))
        if v == want:
            return [(t["to"], st)]
        if "verflow" in msg or "overflow" in msg.lower():
            st.event("maywrap", S(f.key), S(loc), on)
        else:
            s2 = st.copy()
            if s2.assume(on, not want):
                self.trap(s2, "assert: " + msg, loc)
        if v is None and st.assume(on, want):
            res.append((t["to"], st))
        return res

    # ------------------------------------------------------------ calls
    def call_term(self, f, st, t):
        dty = self.optype(f, {"c": t["d"]})
        fo = t["f"]
        if "k" in fo and "fn" in fo["k"]:
            c = self.p.callee(f.tys, fo["k"]["fn"])
            fv = None
        else:
            fv = self.operand(f, st, fo)
            c = None
        args = [self.operand(f, st, a) for a in t["a"]]
        aty = [self.optype(f, a) for a in t["a"]]
        loc = t.get("loc") or f.loc
        self.stack.append((f.key, loc))
        try:
            if c is None:
                outs = self.call_value(st, fv, args, dty)
            else:
                outs = self.call(st, c, args, dty, aty)
        finally:
            self.stack.pop()
        if t["to"] is None:
            return []
        res = []
        p = t["d"]
        for s, v in outs:
            if len(p) == 1:
                s.mem[("L", self.depth, p[0])] = v
            else:
                cc, path, _ = self.place(f, s, p)
                self.write(s, cc, path, v)
                self.static_write(s, cc, path, v, loc)
            res.append((t["to"], s))
        return res

    def loc(self):
        for k, l in reversed(self.stack):
            if "/src/" in l and not l.startswith("/") or l.startswith("cycles-ledger") or l.startswith("depositor") or l.startswith("fake"):
                return l
        return self.stack[-1][1] if self.stack else "?"

    def call(self, st, c, args, dty, aty=()):
        """[(st, value)]"""
        m = self.models.find(c)
        if m is not None:
            r = m(self, st, c, args, dty)
            if r is not NotImplemented:
                return r
        if c.kind == "ctor":
            ty = dty
            return [(st, agg(self.p.tk(ty), c.variant or 0, args, ty=ty))]
        if c.key in self.p.funcs and c.kind in ("item", "closure_once", None):
            return self.call_fn(st, self.p.funcs[c.key], args, dty)
        if c.kind in ("closure_once", "fnptr_shim", "shim", "virtual", "unresolved", "clone_shim"):
            r = self.shim(st, c, args, dty)
            if r is not None:
                return r
        return self.models.unknown(self, st, c, args, dty, aty)

    def call_fn(self, st, fn, args, dty):
        fn = self.p.prep(fn)
        if sum(1 for k, _ in self.stack if k == fn.key) > 0:
            self.unknown["recursion:" + fn.key] = self.unknown.get("recursion:" + fn.key, 0) + 1
            return [(st, mk("app", "rec:" + fn.key, *args, ty=dty))]
        if fn.kind == "closure":
            # (env, (args,)) -> env, args...
            env = args[0]
            rest = list(args[1:])
            if len(rest) == 1 and fn.args != 2 and rest[0].op == "agg" and rest[0].a[0] == "tuple":
                rest = list(rest[0].a[2])
            elif len(rest) == 1 and rest[0].op == "agg" and rest[0].a[0] == "tuple" and len(rest[0].a[2]) == fn.args - 1:
                rest = list(rest[0].a[2])
            elif len(rest) == 1 and rest[0].op != "agg" and rest[0].ty is not None and rest[0].ty.k == "tuple" \
                    and len(rest[0].ty.elems) == fn.args - 1:
                rest = [fld(rest[0], 0, i, x) for i, x in enumerate(rest[0].ty.elems)]
            ety = fn.locals[1]
            if ety.k == "ref" and not self.is_ptr(env):
                st.tok += 1
                cell = ("G", st.tok)
                st.mem[cell] = env
                env = mk("ref", cell, (), ty=ety)
            elif ety.k != "ref" and self.is_ptr(env):
                env = self.load(st, env)
            return self.run_fn(st, fn, [env] + rest)
        if fn.kind == "coroutine":
            return self.run_coroutine(st, fn, args, dty)
        return self.run_fn(st, fn, args)

    def is_ptr(self, t):
        if t.op in ("ref", "guard"):
            return True
        if t.op in ("agg",):
            return False
        return t.ty is not None and t.ty.k in ("ref", "ptr")

    def run_coroutine(self, st, fn, args, dty):
        env = args[0]
        c, p = self.target(st, env)
        v = self.read(st, c, p)
        outs = self.run_fn(st, fn, [v, args[1] if len(args) > 1 else UNIT])
        pty = dty
        return [(s, agg(self.p.tk(pty), 0, (r,), ty=pty)) for s, r in outs]

    def call_value(self, st, fv, args, dty):
        """call through a value: fn item/pointer or closure; args already untupled or one tuple"""
        v = fv
        while v.op == "ref":
            v = self.load(st, v)
        if v.op == "fn":
            c = self.p.fnrefs[v.a[0]]
            return self.call(st, c, args, dty)
        if v.op == "agg" and v.a[0] in self.p.funcs:
            fn = self.p.prep(self.p.funcs[v.a[0]])
            env = fv
            return self.call_fn(st, fn, [env, agg("tuple", 0, args)], dty)
        if v.ty is not None and v.ty.k == "closure" and v.ty.key in self.p.funcs:
            fn = self.p.prep(self.p.funcs[v.ty.key])
            return self.call_fn(st, fn, [fv, agg("tuple", 0, args)], dty)
        return self.models.unknown_value(self, st, fv, args, dty)

    def shim(self, st, c, args, dty):
        if not args:
            return None
        if c.name in ("call_once", "call_mut", "call"):
            a = args[1] if len(args) > 1 else UNIT
            xs = list(a.a[2]) if a.op == "agg" and a.a[0] == "tuple" else (
                [fld(a, 0, i, x) for i, x in enumerate(a.ty.elems)] if a.ty is not None and a.ty.k == "tuple" else [a])
            return self.call_value(st, args[0], xs, dty)
        return None
