"""What is stored reads back, and what is recorded appears in the public block: the workspace's own conversions (derived or
written by hand) are interpreted over the data model of serde; the byte-level encoders of libraries are taken as inverse."""
import itertools
from terms import *
import interp, models, rules
from interp import Interp, St, Gap
from models import ok, err, some, none, optty, val

SER = "serde_core::ser::"
DE = "serde_core::de::"
NULL = mk("stored", "null")
CELL = ("X", "stored")
WS = ("cycles_ledger",)


def leaf(v, t):
    return mk("stored", "value", v, t)


def smap(kvs):
    return agg("stored map", 0, [x for kv in kvs for x in kv])


def pairs(s):
    f = s.a[2]
    return [(f[i], f[i + 1]) for i in range(0, len(f), 2)]


class Bad(Exception):
    """what is read is not what was written"""


# ---------------------------------------------------------------- writing
def put(st, s):
    st.mem[CELL] = s


def got(st):
    return st.mem.get(CELL, UNIT)


def serialize(ip, st, c, args, dty):
    """T::serialize(&value, serializer)"""
    t = c.targs[0] if c.targs else None
    v = args[0]
    while t is not None and t.k == "ref":
        t = t.to
        v = ip.load(st, v)
    if c.key in ip.p.funcs and ip.p.funcs[c.key].crate.startswith(WS):
        return ip.call_fn(st, ip.p.funcs[c.key], [v] + list(args[1:]), dty)
    x = st.canon(ip.load(st, v))
    out = []
    if t is not None and t.k == "adt" and t.path == "core::option::Option" or t.s.startswith("std::option::Option<"):
        for s, i in st.variant(x):
            if i == 0:
                put(s, NULL)
                out.append((s, ok(ip, dty, UNIT)))
            else:
                out += write(ip, s, ip.valref(fld(s.canon(x), 1, 0, optty(t)), None), optty(t), args[1], dty)
        return out
    return write(ip, st, v, t, args[1], dty)


def write(ip, st, ref, t, ser, dty):
    """the value behind ref, of type t"""
    while t.k == "ref":
        t, ref = t.to, ip.load(st, ref)
    fn = index(ip.p)["ser"].get(t.s)
    if fn is not None:
        return ip.call_fn(st, fn, [ref, ser], dty)
    if any(w in t.s for w in ("cycles_ledger::", "Serialize>")):
        raise Gap("how %s is stored" % t.s)
    x = st.canon(ip.load(st, ref))
    put(st, leaf(x, t.s))
    return [(st, ok(ip, dty, UNIT))]


def struct_new(ip, st, c, args, dty):
    return [(st, ok(ip, dty, agg("stored map", 0, (), ty=optty(dty, 0))))]


def seq_new(ip, st, c, args, dty):
    return [(st, ok(ip, dty, agg("stored seq", 0, (), ty=optty(dty, 0))))]


def add(st, ip, ref, *xs):
    cur = ip.load(st, ref)
    if cur.op != "agg" or not str(cur.a[0]).startswith("stored"):
        raise Gap("an unknown writer")
    ip.store(st, ref, agg(cur.a[0], 0, cur.a[2] + xs, ty=cur.ty))


def field(ip, st, c, args, dty):
    """serialize_field(&mut self, key, &value)"""
    out = []
    t = c.targs[-1]
    for s, r in write_any(ip, st, args[2], t, dty):
        if r.op == "agg" and r.a[1] == 0:
            add(s, ip, args[0], text(ip, s, args[1]), got(s))
        out.append((s, r))
    return out


def text(ip, st, x):
    x = st.canon(x)
    while x.op == "ref":
        x = ip.load(st, x)
    return x


def write_any(ip, st, ref, t, dty):
    """as T::serialize, found by its type"""
    while t.k == "ref":
        t, ref = t.to, ip.load(st, ref)
    if t.s.startswith("std::option::Option<"):
        out = []
        for s, i in st.variant(ip.load(st, ref)):
            x = s.canon(ip.load(s, ref))
            if i == 0:
                put(s, NULL)
                out.append((s, ok(ip, dty, UNIT)))
            else:
                out += write_any(ip, s, ip.valref(fld(x, 1, 0, optty(t)), None), optty(t), dty)
        return out
    return write(ip, st, ref, t, mk("stored", "writer"), dty)


def element(ip, st, c, args, dty):
    out = []
    for s, r in write_any(ip, st, args[1], c.targs[-1], dty):
        if r.op == "agg" and r.a[1] == 0:
            add(s, ip, args[0], got(s))
        out.append((s, r))
    return out


def skip(ip, st, c, args, dty):
    return [(st, ok(ip, dty, UNIT))]


def end(ip, st, c, args, dty):
    put(st, args[0])
    return [(st, ok(ip, dty, UNIT))]


def ser_none(ip, st, c, args, dty):
    put(st, NULL)
    return [(st, ok(ip, dty, UNIT))]


def ser_some(ip, st, c, args, dty):
    return write_any(ip, st, args[-1], c.targs[-1], dty)


def ser_leaf(ip, st, c, args, dty):
    x = args[1]
    if ip.is_ptr(x):
        x = ip.load(st, x)
    put(st, leaf(st.canon(x), {"str": "str", "bytes": "[u8]"}.get(c.name[10:], c.name[10:])))
    return [(st, ok(ip, dty, UNIT))]


def into_writer(ip, st, c, args, dty):
    """into_writer(&value, writer)"""
    out = []
    st.mem.pop(CELL, None)
    for s, r in write_any(ip, st, args[0], c.targs[0], dty):
        if r.op == "agg" and r.a[1] == 0:
            buf = args[1]
            x = ip.load(s, buf)
            while ip.is_ptr(x):
                buf, x = x, ip.load(s, x)
            if not (x.op == "agg" and x.a[0] == "vec" and not x.a[2]):
                raise Gap("bytes appended to others")
            ip.store(s, buf, mk("stored", "bytes", got(s), ty=x.ty))
        s.mem.pop(CELL, None)
        out.append((s, r))
    return out


# ---------------------------------------------------------------- reading
_index = {}


def index(p):
    """workspace functions of the serde traits by the type they are for"""
    if id(p) not in _index:
        ix = _index[id(p)] = {"ser": {}, "de": {}, "visit": {}, "seed": {}}
        for f in p.funcs.values():
            if f.trait not in (SER + "Serialize", DE + "Deserialize", DE + "Visitor"):
                continue
            p.prep(f)
            n = f.key.split("<ciborium")[0].split("<&mut ciborium")[0].split("<&mut ")[0].split("::")[-1]
            n = next((x for x in ("visit_map", "visit_seq", "visit_str", "visit_bytes", "visit_none", "visit_some", "visit_newtype_struct",
                                  "visit_enum", "visit_u64", "visit_u128", "visit_unit", "serialize", "deserialize") if n.startswith(x)), n)
            own = f.crate.startswith(WS)
            if f.trait == SER + "Serialize" and own:
                t = f.locals[1]
                ix["ser"].setdefault(t.to.s if t.k == "ref" else t.s, f)
            elif f.trait == DE + "Deserialize" and own:
                ix["de"].setdefault(optty(f.locals[0], 0).s, f)
            elif f.trait == DE + "Visitor":
                ix["visit"].setdefault((f.locals[1].s, n), f)
    return _index[id(p)]


def reader(s):
    return mk("stored", "reader", s)


def bytes_of(ip, st, x):
    x = st.canon(x)
    for _ in range(6):
        if x.op == "stored":
            return x
        if ip.is_ptr(x) or x.op == "ref":
            x = st.canon(ip.load(st, x))
        elif x.op == "agg" and len(x.a[2]) == 1:
            x = x.a[2][0]
        elif x.op == "app" and len(x.a) == 2 and x.a[0] in ("from", "into"):
            x = x.a[1]
    return x


def from_reader(ip, st, c, args, dty):
    b = bytes_of(ip, st, args[0])
    if b.op != "stored" or b.a[0] != "bytes":
        raise Gap("reads from unknown bytes: " + show(b, lim=5)[:200])
    return read(ip, st, b.a[1], optty(dty, 0), dty)


def failure(ip, dty, why):
    return err(ip, dty, mk("app", "decoding error", S(why), ty=optty(dty, 1)))


def read(ip, st, s, t, dty):
    """[(state, Result<t, _>)] of reading t from the stored value s"""
    if t.s.startswith("std::option::Option<"):
        if s is NULL:
            return [(st, ok(ip, dty, none(ip, t)))]
        inner = optty(t)
        fake = restype(ip, dty, inner)
        out = []
        for s2, r in read(ip, st, s, inner, fake):
            out.append((s2, ok(ip, dty, some(ip, t, r.a[2][0])) if r.a[1] == 0 else err(ip, dty, r.a[2][0])))
        return out
    fn = index(ip.p)["de"].get(t.s)
    if fn is not None:
        return ip.call_fn(st, fn, [reader(s)], dty)
    if t.s.endswith("IgnoredAny"):
        return [(st, ok(ip, dty, mk("stored", "ignored", ty=t)))]
    if "cycles_ledger::" in t.s:
        raise Gap("how %s is read" % t.s)
    if s.op == "stored" and s.a[0] == "value":
        v = s.a[1]
        if same(s.a[2], t.s):
            return [(st, ok(ip, dty, v))]
        if s.a[2] in INTS and t.s in INTS:
            out = []
            for s2, w in st.fork(models.inrange(t, v)):
                out.append((s2, ok(ip, dty, v)) if w else (s2, failure(ip, dty, "out of range")))
            return out
        raise Gap("%s stored, %s read" % (s.a[2], t.s))
    if s.op == "agg" and s.a[0] == "stored seq" and all(x.op == "stored" and x.a[0] == "value" for x in s.a[2]) and t.s.startswith("std::vec::Vec<"):
        return [(st, ok(ip, dty, agg("vec", 0, [x.a[1] for x in s.a[2]], ty=t)))]
    if s is NULL:
        return [(st, failure(ip, dty, "null"))]
    raise Gap("%s read from %s" % (t.s, show(s, lim=4)[:60]))


INTS = tuple("iu"[i] + str(1 << b) for i in (0, 1) for b in range(3, 8))
BYTES = ("serde_bytes::ByteBuf", "std::vec::Vec<u8>", "serde_bytes::Bytes", "[u8]")


def same(a, b):
    return a == b or a in BYTES and b in BYTES or {a, b} <= {"str", "std::string::String"}


class _Res(Ty):
    pass


_res = {}


def restype(ip, dty, t):
    """Result<t, E> for the E of dty"""
    k = (dty.s, t.s)
    if k not in _res:
        for x in ip.p.types.values():
            if x.k == "adt" and x.path == dty.path and x.variants and len(x.args) == len(dty.args) and x.args[0] is t and x.args[1] is dty.args[1]:
                _res[k] = x
                break
        else:
            x = _Res("Result<%s>" % t.s, "adt")
            x.path, x.adt, x.args = dty.path, "enum", [t, dty.args[1]]
            x.variants = [(dty.variants[0][0], dty.variants[0][1], [(dty.variants[0][2][0][0], t)]), dty.variants[1]]
            _res[k] = x
    return _res[k]


def deserialize(ip, st, c, args, dty):
    s = args[0]
    if s.op != "stored" or s.a[0] != "reader":
        raise Gap("reads from an unknown reader")
    return read(ip, st, s.a[1], optty(dty, 0), dty)


def stored_of(x):
    if x.op != "stored" or x.a[0] != "reader":
        raise Gap("reads from an unknown reader")
    return x.a[1]


def visit(ip, st, visitor, vt, name, args, dty):
    fn = index(ip.p)["visit"].get((vt.s, name))
    if fn is None:
        raise Gap("no %s of %s" % (name, vt.s))
    return ip.call_fn(st, fn, [visitor] + args, dty)


def de_struct(ip, st, c, args, dty):
    s = stored_of(args[0])
    vis, vt = args[-1], c.targs[-1]
    if s.op == "agg" and s.a[0] == "stored map":
        return visit(ip, st, vis, vt, "visit_map", [mk("agg", "reading map", 0, s.a[2])], dty)
    if s.op == "agg" and s.a[0] == "stored seq":
        return visit(ip, st, vis, vt, "visit_seq", [mk("agg", "reading seq", 0, s.a[2])], dty)
    return [(st, failure(ip, dty, "not a map"))]


def de_any(ip, st, c, args, dty):
    s = stored_of(args[0])
    vis, vt = args[-1], c.targs[-1]
    if s.op == "stored" and s.a[0] == "value" and s.a[1].op == "s":
        return visit(ip, st, vis, vt, "visit_str", [s.a[1]], dty)
    if s.op == "agg":
        return de_struct(ip, st, c, args, dty)
    raise Gap("what is read from %s" % show(s, lim=4)[:60])


def de_option(ip, st, c, args, dty):
    s = stored_of(args[0])
    if s is NULL:
        return visit(ip, st, args[-1], c.targs[-1], "visit_none", [], dty)
    return visit(ip, st, args[-1], c.targs[-1], "visit_some", [args[0]], dty)


def de_newtype(ip, st, c, args, dty):
    return visit(ip, st, args[-1], c.targs[-1], "visit_newtype_struct", [args[0]], dty)


def access(ip, st, ref):
    x = ip.load(st, ref)
    if x.op != "agg" or x.a[0] not in ("reading map", "reading seq"):
        raise Gap("reads from an unknown access")
    return x


def next_key(ip, st, c, args, dty):
    """Result<Option<K>, E>"""
    x = access(ip, st, args[0])
    ot = optty(dty, 0)
    if not x.a[2]:
        return [(st, ok(ip, dty, none(ip, ot)))]
    k = x.a[2][0]
    out = []
    for s, r in read(ip, st, leaf(k, "str"), optty(ot), restype(ip, dty, optty(ot))):
        out.append((s, ok(ip, dty, some(ip, ot, r.a[2][0])) if r.a[1] == 0 else err(ip, dty, r.a[2][0])))
    return out


def next_value(ip, st, c, args, dty):
    x = access(ip, st, args[0])
    if not x.a[2]:
        raise Gap("a value is read after the last")
    ip.store(st, args[0], mk("agg", "reading map", 0, x.a[2][2:]))
    return read(ip, st, x.a[2][1], optty(dty, 0), dty)


def next_element(ip, st, c, args, dty):
    x = access(ip, st, args[0])
    ot = optty(dty, 0)
    if not x.a[2]:
        return [(st, ok(ip, dty, none(ip, ot)))]
    ip.store(st, args[0], mk("agg", "reading seq", 0, x.a[2][1:]))
    out = []
    for s, r in read(ip, st, x.a[2][0], optty(ot), restype(ip, dty, optty(ot))):
        out.append((s, ok(ip, dty, some(ip, ot, r.a[2][0])) if r.a[1] == 0 else err(ip, dty, r.a[2][0])))
    return out


def missing(ip, st, c, args, dty):
    t = optty(dty, 0)
    if t.s.startswith("std::option::Option<"):
        return [(st, ok(ip, dty, none(ip, t)))]
    return [(st, failure(ip, dty, "missing field"))]


def de_error(ip, st, c, args, dty):
    return [(st, mk("app", "decoding error", S(c.name or ""), ty=dty))]


def slice_eq_array(ip, st, c, args, dty):
    """<[T; N]>::try_from(slice or vector): the same bytes where there are N of them"""
    v = st.canon(ip.load(st, args[0]) if ip.is_ptr(args[0]) else args[0])
    while ip.is_ptr(v):
        v = st.canon(ip.load(st, v))
    t = optty(dty, 0)
    if t.k == "ref":
        return NotImplemented
    n = models.seq_len(v)
    if t.k == "array" and v.ty is not None and v.ty.k == "array":
        return [(st, ok(ip, dty, v) if v.ty.len == t.len else failure(ip, dty, "length"))]
    out = []
    for s, w in st.fork(eq(n, K(t.len))):
        out.append((s, ok(ip, dty, s.canon(v))) if w else (s, failure(ip, dty, "length")))
    return out


TRAITS = {
    SER + "Serialize::serialize": serialize,
    SER + "Serializer::serialize_struct": struct_new, SER + "Serializer::serialize_map": struct_new,
    SER + "Serializer::serialize_seq": seq_new, SER + "Serializer::serialize_tuple": seq_new,
    SER + "Serializer::serialize_none": ser_none, SER + "Serializer::serialize_unit": ser_none,
    SER + "Serializer::serialize_some": ser_some, SER + "Serializer::serialize_newtype_struct": ser_some,
    SER + "SerializeStruct::serialize_field": field, SER + "SerializeStruct::skip_field": skip, SER + "SerializeStruct::end": end,
    SER + "SerializeSeq::serialize_element": element, SER + "SerializeSeq::end": end,
    SER + "SerializeTuple::serialize_element": element, SER + "SerializeTuple::end": end,
    SER + "SerializeMap::end": end,
    DE + "Deserialize::deserialize": deserialize,
    DE + "Deserializer::deserialize_struct": de_struct, DE + "Deserializer::deserialize_map": de_struct,
    DE + "Deserializer::deserialize_seq": de_struct, DE + "Deserializer::deserialize_tuple": de_struct,
    DE + "Deserializer::deserialize_identifier": de_any, DE + "Deserializer::deserialize_any": de_any,
    DE + "Deserializer::deserialize_str": de_any, DE + "Deserializer::deserialize_string": de_any,
    DE + "Deserializer::deserialize_option": de_option, DE + "Deserializer::deserialize_newtype_struct": de_newtype,
    DE + "MapAccess::next_key": next_key, DE + "MapAccess::next_value": next_value, DE + "SeqAccess::next_element": next_element,
    DE + "Error::custom": de_error, DE + "Error::duplicate_field": de_error, DE + "Error::invalid_length": de_error,
    DE + "Error::unknown_field": de_error, DE + "Error::missing_field": de_error, DE + "Error::invalid_value": de_error,
    DE + "Error::unknown_variant": de_error, DE + "Error::invalid_type": de_error,
}
for _w in ("bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "str", "bytes", "char"):
    TRAITS[SER + "Serializer::serialize_" + _w] = ser_leaf


def bytebuf(ip, st, c, args, dty):
    """bytes, wherever they come from"""
    return [(st, val(ip, st, args[0]))]


def cow(ip, st, c, args, dty):
    """the borrowed form of what may be borrowed or owned"""
    cc, path = ip.target(st, args[0])
    x = st.canon(ip.read(st, cc, path))
    if x.op == "app" and len(x.a) == 2 and x.a[0] in ("from", "into"):
        return [(st, ip.valref(x.a[1], dty))]
    if x.op != "agg":
        return NotImplemented
    return [(st, ip.valref(x.a[2][0], dty) if x.a[1] == 1 else x.a[2][0])]


def principal(ip, st, c, args, dty):
    """Principal::try_from(bytes): the principal whose bytes these are, an error for others"""
    v = val(ip, st, args[0])
    if v.op == "agg" and v.a[0] == "vec" and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.op == "bytesof":
        return [(st, ok(ip, dty, v.a[0]))]
    b = mk("app", "is no principal", v, ty=ip.p.types.get("bool"))
    return [(s, failure(ip, dty, "no principal") if w else ok(ip, dty, mk("principal", v, ty=optty(dty, 0)))) for s, w in st.fork(b)]


def serialized(ip, st, c, args, dty):
    """ciborium::Value::serialized(&value)"""
    out = []
    for s, r in write_any(ip, st, args[0], c.targs[0], restype(ip, dty, UNIT_TY)):
        out.append((s, ok(ip, dty, mk("stored", "cbor", got(s), ty=optty(dty, 0))) if r.a[1] == 0 else err(ip, dty, r.a[2][0])))
        s.mem.pop(CELL, None)
    return out


UNIT_TY = Ty("()", "tuple")
UNIT_TY.elems = []


def to_generic(ip, st, c, args, dty):
    """the workspace's conversion of CBOR values to generic ones"""
    v = val(ip, st, args[0])
    if v.op != "stored" or v.a[0] != "cbor":
        return NotImplemented
    return [(st, ok(ip, dty, mk("stored", "generic", v.a[1], ty=optty(dty, 0))))]


def is_to_generic(ip, c):
    f = ip.p.funcs.get(c.key)
    if f is None or not f.crate.startswith(WS) or not f.args:
        return False
    f = ip.p.prep(f)
    a = f.locals[1]
    a = a.to if a.k == "ref" else a
    return a.k == "adt" and (a.path or "").startswith("ciborium::value::Value") and f.locals[0].k == "adt" and \
        f.locals[0].path == "core::result::Result" and (optty(f.locals[0], 0).path or "").endswith("generic_value::Value")


def map_from(ip, st, c, args, dty):
    """BTreeMap::from([(k, v), ...])"""
    x = st.canon(args[0])
    if x.op != "agg" or x.a[0] != "array" or not all(y.op == "agg" and y.a[0] == "tuple" for y in x.a[2]):
        return NotImplemented
    m = mk("emptymap", ty=dty)
    for y in x.a[2]:
        m = models.put_kv(m, y) if hasattr(models, "put_kv") else mk("ins", m, y.a[2][0], y.a[2][1], ty=dty)
    return [(st, m)]


class Stored(models.Models):
    def _find(self, c):
        if models.norm(c.rpath or "") == "alloc::collections::btree::map::{}::from":
            return map_from
        if is_to_generic(self.ip, c):
            return to_generic
        if models.norm(c.rpath or "") == "ciborium::value::ser::{}::serialized":
            return serialized
        if models.norm(c.rpath or "") == "ic_principal::{}::try_from":
            return principal
        if models.norm(c.rpath or "") == "serde_bytes::bytebuf::{}::from":
            return bytebuf
        if (c.rpath or "").startswith("alloc::borrow::") and c.name in ("as_ref", "deref", "borrow"):
            return cow
        if c.trait is not None:
            m = TRAITS.get(c.trait + "::" + (c.name or ""))
            if m is not None:
                return m
            if c.trait == "core::convert::TryFrom" and c.name == "try_from" and c.rpath.startswith(("core::array", "core::slice", "alloc::vec")):
                return slice_eq_array
        n = c.rpath or c.path
        if n == "ciborium::ser::into_writer":
            return into_writer
        if n.startswith("ciborium::de::from_reader") and "#" not in n:
            return from_reader
        if n.endswith("::de::missing_field"):
            return missing
        if models.sig_model(self.ip, c) is not None:
            return None
        return super()._find(c)


# ---------------------------------------------------------------- shapes
def shapes(p, t, name, sub=True):
    """every combination of variants of the workspace's types, options and accounts within t, with arbitrary leaves"""
    if t.k == "adt" and t.variants and (t.s.startswith(("std::option::Option<", "cycles_ledger::")) or t.s.endswith("::account::Account")):
        out = []
        for v, (vn, _, fs) in enumerate(t.variants):
            parts = [shapes(p, ft, "%s.%s%s" % (name, vn + "." if t.nvar() > 1 and not t.s.startswith("std::option") else "", fn), sub) for fn, ft in fs]
            for xs in itertools.product(*parts):
                out.append(mk("agg", p.tk(t), v, tuple(xs), ty=t))
        return out
    return [mk("sym", name, ty=t)]


def interpreter(p):
    ms = Stored()
    ip = Interp(p, ms)
    ms.bind(ip)
    ip.unfold = True
    return ip


def run(p, key, args):
    """[(end kind, state, value)]"""
    ip = interpreter(p)
    st = St()
    fn = p.prep(p.funcs[key])
    rets = ip.call_fn(st, fn, [a(ip) if callable(a) else a for a in args], fn.locals[0])
    return ip, [("ret", s, v) for s, v in rets] + [(e.kind, e.st, e.val) for e in ip.ends]


# ---------------------------------------------------------------- rules
PARTS = 8


def slices(p):
    return ["stored %d/%d" % (i, PARTS) for i in range(PARTS)]


def mine(xs, o):
    i, n = map(int, o.root.split()[1].split("/"))
    return xs[i::n]


def fields_diff(a, b, path=""):
    """the first place where b differs from a, in words"""
    if a is b:
        return None
    if a.op == "agg" and b.op == "agg" and len(a.a[2]) == len(b.a[2]) and a.a[1] == b.a[1] and a.ty is not None and a.ty.k == "adt" and a.ty.variants:
        names = a.ty.variants[a.a[1]][2]
        for i, (x, y) in enumerate(zip(a.a[2], b.a[2])):
            d = fields_diff(x, y, path + "." + names[i][0] if not a.ty.s.startswith("std::option") else path)
            if d:
                return d
        return None
    return "%s: %s became %s" % (path.lstrip("."), show(a, lim=6)[:80], show(b, lim=6)[:120])


def decided(ip, rep, kind, cond, loc, msg):
    new = [n for n in ip.unknown]
    if not cond and new:
        rep.unsure.add("%s: depends on %s" % (kind, ", ".join(sorted(new)[:4])))
        return
    rep.check(cond, kind, loc, msg)


def short(t):
    return t.s.split("<")[-1].split(">")[0].split("::")[-1]


def rule_stored_config(o, rep):
    rule_stored(o, rep, True)


def rule_stored(o, rep, config=False):
    """from_bytes(to_bytes(v)) is v, for every v of every type of the workspace kept in stable memory"""
    p = o.p
    o.ip = None
    for t, (to, fr) in sorted(p.stored.items(), key=lambda x: x[0].s):
        if to not in p.funcs or fr not in p.funcs:
            raise Gap("how %s is stored" % t.s)
        p.prep(p.funcs[to]), p.prep(p.funcs[fr])
        if not t.s.startswith("cycles_ledger::") or t.s.startswith("cycles_ledger::config::") != config:
            continue
        for x in mine(shapes(p, t, "v"), o):
            ip, ends = run(p, to, [lambda ip: ip.valref(x, None)])
            loc = p.funcs[to].loc
            for k, st, b in ends:
                if k != "ret":
                    decided(ip, rep, "stored: reads back", False, loc, "%s cannot be stored: %s" % (short(t), b))
                    continue
                ip2, e2 = run(p, fr, [b])
                o.ip = ip2
                ip2.visited |= ip.visited
                ip2.unknown.update(ip.unknown)
                for k2, st2, y in e2:
                    if k2 != "ret":
                        decided(ip2, rep, "stored: reads back", False, p.funcs[fr].loc, "a stored %s cannot be read back (%s)%s" % (short(t), y, why(st2)))
                    else:
                        y = st2.canon(y)
                        decided(ip2, rep, "stored: reads back", y is x, p.funcs[fr].loc, lambda: "a stored %s reads back differently: %s" % (short(t), fields_diff(x, y)))


def why(st):
    """the decoding error on this path, if it can be seen"""
    for v in st.mem.values():
        w = [v]
        for _ in range(200):
            if not w:
                break
            x = w.pop()
            if x.op == "app" and x.a and x.a[0] == "decoding error":
                return ": %s" % (x.a[1].a[0],)
            if x.op == "agg":
                w += [y for y in x.a[2]]
    return ""


def plain(v):
    """a generic value as nested python data, None if it is not known"""
    if v.op != "agg" or v.ty is None or not (v.ty.path or "").endswith("generic_value::Value"):
        return ("?", show(v, lim=5)[:60])
    n, x = v.ty.variants[v.a[1]][0], v.a[2][0]
    if n == "Map":
        out, cur = {}, x
        while cur.op == "ins":
            k = cur.a[1]
            out.setdefault(k.a[0] if k.op == "s" else show(k), plain(cur.a[2]))
            cur = cur.a[0]
        return ("map", out) if cur.op == "emptymap" else ("?", show(v, lim=5)[:60])
    if n == "Array":
        return ("array", [plain(y) for y in x.a[2]]) if x.op == "agg" else ("?", show(v, lim=5)[:60])
    if n in ("Nat", "Nat64") and x.op == "nat":
        return ("nat", x.a[0])
    while x.op == "app" and x.a and x.a[0] in ("from", "into") and len(x.a) == 2:
        x = x.a[1]
    if n == "Text" and x.op == "s":
        return ("text", x.a[0])
    return (n.lower(), x)


KEYS = {"amount": "amt", "created_at_time": "ts", "timestamp": "ts", "effective_fee": "fee", "transaction": "tx"}
OPS = {"Mint": "mint", "Burn": "burn", "Transfer": "xfer", "Approve": "approve"}


def published_form(x):
    """what the public block has to show of a block, a transaction or an account"""
    t = x.ty
    if t.s.startswith("std::option::Option<"):
        return None if x.a[1] == 0 else published_form(x.a[2][0])
    if t.s.endswith("::account::Account"):
        sub = x.a[2][t.field_index("subaccount")]
        return ("array", [("blob", mk("bytesof", x.a[2][t.field_index("owner")]))] + ([("blob", sub.a[2][0])] if sub.a[1] == 1 else []))
    if t.s.startswith("cycles_ledger::"):
        vn, _, fs = t.variants[x.a[1]]
        out = {}
        if t.nvar() > 1:
            out["op"] = ("text", OPS.get(vn, vn))
        for (n, ft), y in zip(fs, x.a[2]):
            e = published_form(y)
            if ft.s.startswith("cycles_ledger::") and ft.nvar() > 1:
                out.update(e[1])
            elif e is not None:
                out[KEYS.get(n, n)] = e
        return ("map", out)
    if t.k == "int":
        return ("nat", x)
    if t.s.endswith("::Memo"):
        return ("blob", fld(x, 0, 0, t.fields(0)[0][1]))
    return ("blob", x)


def form_diff(want, have, path=""):
    if want[0] != have[0]:
        return "%s is shown as %s" % (path or "it", words(have))
    if want[0] == "map":
        for k in sorted(set(want[1]) | set(have[1])):
            if k not in have[1]:
                return "%s.%s is missing" % (path, k)
            if k not in want[1]:
                return "%s.%s is shown though not recorded" % (path, k)
            d = form_diff(want[1][k], have[1][k], path + "." + k)
            if d:
                return d
        return None
    if want[0] == "array":
        if len(want[1]) != len(have[1]):
            return "%s has %d parts instead of %d" % (path, len(have[1]), len(want[1]))
        return next((d for d in (form_diff(a, b, path) for a, b in zip(want[1], have[1])) if d), None)
    if want[1] is have[1] or want[1] == have[1]:
        return None
    return "%s is shown as %s" % (path, words(have))


def known(h):
    return h[0] != "?" and (all(map(known, h[1].values())) if h[0] == "map" else all(map(known, h[1])) if h[0] == "array" else True)


def words(h):
    return "%s %s" % (h[0], show(h[1], lim=5)[:80] if isinstance(h[1], T) else str(h[1])[:80])


def rule_shown(o, rep):
    rule_public(o, rep, ("value", "Block"), ("value", "Transaction"))


def rule_fee_shown(o, rep):
    rep.only = ("public: the fee is shown", "public: can be shown")
    try:
        rule_shown(o, rep)
    finally:
        rep.only = None


def rule_block_hash(o, rep):
    rule_public(o, rep, ("hash", "Block"))


def rule_tx_hash(o, rep):
    rule_public(o, rep, ("hash", "Transaction"))


def rule_public(o, rep, *only):
    """the public form of a block shows each recorded field under its own key, and is what block hashes are made of;
    transaction hashes are made of everything a transaction consists of"""
    p = o.p
    for f in sorted(p.funcs.values(), key=lambda f: f.key):
        if f.crate != "cycles_ledger" or f.args != 1 or f.kind == "closure":
            continue
        p.prep(f)
        a = f.locals[1]
        byref = a.k == "ref"
        a = a.to if byref else a
        s = models.sig_model(interpreter(p), _Key(f.key)) if a is not None and a.k == "adt" else None
        if s is None or only and (s[0], short(a)) not in only:
            continue
        for x in mine(shapes(p, a, "v"), o):
            ip, ends = run(p, f.key, [(lambda ip: ip.valref(x, None)) if byref else x])
            o.ip = ip
            want = published_form(x)
            for k, st, v in ends:
                if k != "ret":
                    decided(ip, rep, "public: can be shown", False, f.loc, "%s of a %s fails: %s" % (f.key.split("::")[-1], short(a), v))
                    continue
                v = st.canon(v)
                if s[1]:
                    if v.op == "agg" and v.a[1] == 1:
                        continue
                    v = v.a[2][0] if v.op == "agg" else v
                if s[0] == "value":
                    d = form_diff(want, plain(v))
                    if d and not known(plain(v)):
                        rep.unsure.add("public: the form of a %s is not known" % short(a))
                        continue
                    decided(ip, rep, "public: the fee is shown", d is None or "fee" not in d, f.loc, lambda: "the public form of a %s: %s" % (short(a), d))
                    decided(ip, rep, "public: each field under its own key", d is None, f.loc, lambda: "the public form of a %s: %s" % (short(a), d))
                    continue
                h = v.a[0] if v.op == "hash" else None
                if h is None:
                    decided(ip, rep, "hash: covers all of it", False, f.loc, "the hash of a %s is %s" % (short(a), show(v, lim=6)[:100]))
                elif h.op == "stored" and h.a[0] == "generic":
                    ip2 = interpreter(p)
                    rs = read(ip2, St(), h.a[1], a, restype(ip2, next(t for t in p.types.values() if t.path == "core::result::Result" and t.variants), a))
                    y = rs[0][1].a[2][0] if len(rs) == 1 and rs[0][1].a[1] == 0 else None
                    decided(ip, rep, "hash: covers all of it", y is x, f.loc, lambda: "the hash of a %s does not depend on all of it: %s" % (
                        short(a), fields_diff(x, y) if y is not None else "it cannot be read back"))
                else:
                    d = form_diff(want, plain(h))
                    if d and not known(plain(h)):
                        rep.unsure.add("hash: what a %s is hashed from is not known" % short(a))
                        continue
                    decided(ip, rep, "hash: covers all of it", d is None, f.loc, lambda: "the hash of a %s does not depend on all of it: %s" % (short(a), d))


class _Key:
    def __init__(self, key):
        self.key = key
