"""Loads the MIR dumps into a program: canonical types, functions, constants, callees."""
import json, os
from terms import *


class Callee:
    __slots__ = ("path", "crate", "name", "targs", "kind", "rpath", "key", "trait", "selfty", "ctor", "variant", "d", "tl")


class Fn:
    __slots__ = ("key", "path", "crate", "kind", "args", "spread", "loc", "end", "locals", "names", "blocks", "local",
                 "impl", "trait", "raw", "prog", "file", "dom", "rpo", "loops", "tys", "src")


class Prog:
    def __init__(self, dumpdir, crates):
        self.types = {}       # canonical key -> Ty
        self.funcs = {}       # key -> Fn
        self.roots = {}       # crate-kind -> roots
        self.consts = {}      # path -> term
        self.generic = {}
        self.fnrefs = {}      # fn key -> Callee
        self.crates = {}
        self.skipped = {}
        self.stored = {}      # type -> (key of to_bytes, key of from_bytes)
        self.deffns = {}
        self.dir = dumpdir
        for c in crates:
            with open(os.path.join(dumpdir, c + ".json")) as f:
                d = json.load(f)
            self._load(c, d)

    # ---- types
    def _tkey(self, t):
        if t["k"] in ("closure", "coroutine"):
            return t["k"] + ":" + t["key"]
        if t["k"] == "fndef":
            c = t["callee"]
            return "fndef:" + c.get("key", c["path"])
        return t["s"]

    def _load(self, c, d):
        tl = [self.types.get(self._tkey(t)) for t in d["types"]]
        new = []
        for i, t in enumerate(d["types"]):
            if tl[i] is None:
                k = self._tkey(t)
                if k in self.types:      # same canonical type twice in one crate
                    tl[i] = self.types[k]
                    continue
                ty = self.types[k] = Ty(t["s"], t["k"])
                tl[i] = ty
                new.append((ty, t))
        for ty, t in new:
            k = t["k"]
            if k == "int":
                ty.bits, ty.signed = t["bits"], t["signed"]
            elif k == "adt":
                ty.path, ty.adt = t["path"], t["adt"]
                ty.args = [tl[x] if isinstance(x, int) else x for x in t["args"]]
                ty.variants = [(v["name"], v["discr"], [(f[0], tl[f[1]]) for f in v["fields"]]) for v in t["variants"]]
                if ty.adt not in ("enum", "union"):
                    ty.adt = "struct"
            elif k == "tuple":
                ty.elems = [tl[x] for x in t["elems"]]
            elif k == "array":
                ty.elem, ty.len = tl[t["elem"]], t["len"]
            elif k == "slice":
                ty.elem = tl[t["elem"]]
            elif k in ("ref", "ptr"):
                ty.to, ty.mut = tl[t["to"]], t.get("mut")
            elif k in ("closure", "coroutine"):
                ty.key, ty.ckind = t["key"], t.get("ckind")
                ty.upvars = [tl[x] for x in t["upvars"]]
            elif k == "fndef":
                ty.fn = (tl, t["callee"])
        self.crates[c] = d["crate"]
        self.roots[c] = d["roots"]
        self.generic[c] = d["generic"]
        self.skipped[c] = d["skipped"]
        for x in d["stored"]:
            self.stored[tl[x["t"]]] = (x.get("to"), x.get("from"))
        for k in d["consts"]:
            self.consts[k["path"]] = (tl, k["t"], k.get("val"))
        for key, r in d["funcs"].items():
            if key in self.funcs:
                continue
            f = Fn()
            f.key, f.path, f.crate, f.kind, f.args, f.spread = key, r.get("path") or key, r.get("crate") or "?", r["kind"], r["args"], r.get("spread")
            f.loc, f.end, f.local, f.impl, f.trait = r["loc"], r["end"], r.get("local"), r.get("impl"), r.get("trait")
            f.tys = tl
            f.raw = r
            f.locals = None
            f.blocks = r["blocks"]
            f.loops = None
            f.prog = self
            f.src = c
            self.funcs[key] = f

    def prep(self, f):
        if f.locals is None:
            f.locals = [f.tys[t] for t, _ in f.raw["locals"]]
            f.names = [n for _, n in f.raw["locals"]]
            self._loops(f)
        return f

    def callee(self, tl, c):
        r = Callee()
        r.path, r.crate, r.name, r.kind, r.rpath = c["path"], c["crate"], c.get("name"), c["kind"], c.get("rpath") or c["path"]
        r.key, r.trait, r.ctor, r.variant = c.get("key"), c.get("trait"), c.get("ctor"), c.get("variant")
        r.targs = [tl[x] if isinstance(x, int) else x for x in c.get("targs", [])]
        s = c.get("selfty")
        r.selfty = tl[s] if isinstance(s, int) else s
        r.d, r.tl = c, tl
        return r

    def steps(self, c, i):
        """(into_iter callee, iterator type, next callee, type of next's result) for the i-th type argument of a callee"""
        its = c.d.get("iters") or []
        x = its[i] if -len(its) <= i < len(its) else None
        if not x:
            return None
        return self.callee(c.tl, x["into"]), c.tl[x["it"]], self.callee(c.tl, x["next"]), c.tl[x["out"]]

    # ---- constants
    def const(self, tl, k):
        """term of a constant operand (not promoted / fn / def)"""
        return self.val(tl[k["t"]], k.get("val"), k)

    def val(self, ty, v, k=None):
        if v is None:
            if ty.k == "tuple" and not ty.elems:
                return UNIT
            if ty.k == "fndef":
                tl, c = ty.fn
                return self.fnterm(self.callee(tl, c), ty)
            return mk("const", ty.s, json.dumps({a: b for a, b in (k or {}).items() if a not in ("t",)}, sort_keys=True), ty=ty)
        if ty.k == "bool":
            return B(bool(v))
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, int):
            if ty.k in ("int", "char"):
                return K(v)
            if ty.k == "adt":
                fs = ty.fields(0)
                if fs and len(fs) == 1:
                    return agg(ty.path, 0, (self.val(fs[0][1], v),), ty=ty)
            return K(v)
        if isinstance(v, list):
            return agg("array", 0, [self.val(ty.elem, x) if ty.elem else K(x) for x in v], ty=ty)
        if isinstance(v, str):
            return S(v)
        if "str" in v:
            return S(v["str"])
        if "bytes" in v:
            bs = v["bytes"]
            if isinstance(bs, str):
                bs = list(bytes.fromhex(bs))
            a = agg("array", 0, [K(x) for x in bs])
            if ty.k in ("ref", "ptr"):
                return mk("ref", ("V", a), (), ty=ty)
            return a
        if "ref" in v:
            inner = self.val(ty.to, v["ref"]) if ty.to is not None else mk("const", json.dumps(v))
            if ty.to is not None and ty.to.k == "str":
                return inner
            return mk("ref", ("V", inner), (), ty=ty)
        if "big" in v:
            return K(int(v["big"]))
        if "fnptr" in v:
            return mk("tls", v["fnptr"].split("::{")[0], ty=ty)
        if "f" in v:
            n = v.get("v", 0) or 0
            if ty.k == "array":
                return agg("array", 0, [self.val(ty.elem, x) for x in v["f"]], ty=ty)
            fs = ty.fields(n)
            xs = [self.val(fs[i][1], x) for i, x in enumerate(v["f"])]
            return agg(self.tk(ty), n, xs, ty=ty)
        return mk("const", ty.s, json.dumps(v, sort_keys=True), ty=ty)

    @staticmethod
    def tk(ty):
        if ty is None:
            return "?"
        if ty.k == "adt":
            return ty.path
        if ty.k in ("closure", "coroutine"):
            return ty.key
        return ty.k

    def fnterm(self, c, ty=None):
        key = c.key or c.rpath
        self.fnrefs.setdefault(key, c)
        return mk("fn", key, ty=ty)

    # ---- loops (natural loops of the non-cleanup control-flow graph)
    def succ(self, f, i):
        t = f.blocks[i]["t"]
        k = t["k"]
        if k == "goto" or k == "drop":
            return [t["to"]]
        if k == "switch":
            return [b for _, b in t["cases"]] + [t["else"]]
        if k in ("call", "assert"):
            return [t["to"]] if t["to"] is not None else []
        if k == "yield":
            return [t["to"]] if t.get("to") is not None else []
        return []

    def _loops(self, f):
        n = len(f.blocks)
        succ = [self.succ(f, i) for i in range(n)]
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        idx = {b: i for i, b in enumerate(order)}
        f.rpo = idx
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                preds[s].append(b)
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        f.dom = idom

        def dominates(a, b):
            while True:
                if a == b:
                    return True
                if b == order[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dominates(s, b):
                    body = loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work.extend(preds[x])
        f.loops = loops
