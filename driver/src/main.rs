//! RUSTC_WORKSPACE_WRAPPER driver: type-checks a crate exactly as cargo asks,
//! and writes the crate's resolved, monomorphic MIR as JSON to
//! $MIRDUMP_OUT/<crate>-<kind>.json.  For functions of the workspace the MIR is
//! the one before drop elaboration and before the coroutine transform (so an
//! `.await` is still a call to `Future::poll` and a `Yield`); for functions of
//! the crates on the follow list it is the encoded MIR.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb {
    bodies: Option<()>,
}

type Promoteds<'tcx> = rustc_index_vec::PV<'tcx>;
mod rustc_index_vec {
    pub type PV<'tcx> = Vec<rustc_middle::mir::Body<'tcx>>;
}

const FOLLOW: &[&str] = &["core", "icrc_ledger_types", "num_traits"];
const WORKSPACE: &[&str] = &["cycles_ledger", "depositor", "fake_cmc"];
/// library paths followed only to reach the workspace's own conversions to and from the stored form
const ENCODING: &[&str] = &[
    "ciborium::ser::", "ciborium::value::ser::", "ciborium::de::", "serde_core::de::impls::",
    "serde_core::ser::impls::", "serde_core::de::{impl", "serde_core::de::MapAccess::", "serde_core::de::SeqAccess::",
    "serde_core::ser::Serializer::", "serde_core::private::", "serde_bytes::ser::", "serde_bytes::de::",
];
/// path prefixes that are never followed (they are modelled or opaque)
const STOP: &[&str] = &[
    "core::fmt", "core::str", "core::hash", "core::panicking", "core::ptr", "core::slice",
    "core::num", "core::cell", "core::any", "core::time", "core::char", "core::ffi", "core::alloc",
    "core::sync", "core::task", "core::intrinsics", "core::array", "core::unicode", "core::error",
    "core::ascii", "core::arch", "core::simd", "core::mem",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    local: HashMap<DefId, (Body<'tcx>, Promoteds<'tcx>)>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<Option<J>>,
    type_q: VecDeque<(usize, Ty<'tcx>)>,
    seen: HashSet<String>,
    queue: VecDeque<(String, Instance<'tcx>)>,
    funcs: Vec<(String, J)>,
    skipped: Vec<String>,
    /// element types whose iteration is being described (guards against recursion)
    iters: HashSet<Ty<'tcx>>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut krate = tcx.crate_name(d.krate).to_string();
    // a package's binary and library share their name
    if d.is_local() && format!("{:?}", tcx.crate_types()).contains("Executable") {
        krate.push_str("_bin");
    }
    format!("{}{}", krate, tcx.def_path(d).to_string_no_crate_verbose())
}

fn env<'tcx>() -> TypingEnv<'tcx> {
    TypingEnv::fully_monomorphized()
}

impl<'tcx> Cx<'tcx> {
    fn krate(&self, d: DefId) -> String {
        self.tcx.crate_name(d.krate).to_string()
    }

    fn ty_str(&self, t: Ty<'tcx>) -> String {
        ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(format!("{t}")))
    }

    fn args_str(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let root = self.tcx.typeck_root_def_id(d);
        let n = self.tcx.generics_of(root).count();
        let mut s = String::new();
        for a in args.iter().take(n) {
            if a.as_region().is_some() {
                continue;
            }
            if !s.is_empty() {
                s.push_str(", ");
            }
            let p = ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(format!("{a}")));
            s.push_str(&p);
            // a closure is printed by its position only: add what its parent was instantiated with
            for inner in a.walk() {
                if let Some(t) = inner.as_type() {
                    if let ty::Closure(cd, ca) | ty::Coroutine(cd, ca) = t.kind() {
                        let sub = self.args_str(*cd, ca);
                        if !sub.is_empty() {
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            std::hash::Hash::hash(&sub, &mut h);
                            let _ = write!(s, "#{:08x}", std::hash::Hasher::finish(&h) as u32);
                        }
                    }
                }
            }
        }
        s
    }

    fn key(&self, i: &Instance<'tcx>) -> String {
        let d = i.def_id();
        let p = path(self.tcx, d);
        let a = self.args_str(d, i.args);
        let base = if a.is_empty() { p } else { format!("{p}<{a}>") };
        match i.def {
            InstanceKind::Item(_) => base,
            InstanceKind::Shim(s) => match s {
                ShimKind::FnPtr(_, t) => format!("{base}#fnptr[{}]", self.ty_str(t)),
                ShimKind::Clone(_, t) => format!("{base}#clone[{}]", self.ty_str(t)),
                ShimKind::ClosureOnce { closure, .. } => {
                    format!("{base}#once[{}]", path(self.tcx, closure))
                }
                _ => format!("{base}#shim"),
            },
            InstanceKind::Virtual(..) => format!("{base}#virtual"),
            InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => format!("{base}#intrinsic"),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(None);
        self.type_q.push_back((i, t));
        i
    }

    fn expand_types(&mut self) {
        while let Some((i, t)) = self.type_q.pop_front() {
            let j = self.ty_def(t);
            self.type_out[i] = Some(j);
        }
    }

    fn norm(&self, t: ty::Unnormalized<'tcx, Ty<'tcx>>) -> Option<Ty<'tcx>> {
        self.tcx.try_normalize_erasing_regions(env(), t).ok()
    }

    fn ty_def(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("s", J::S(self.ty_str(t)))];
        match t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", J::s("int")));
                let bits = t.primitive_size(tcx).bits();
                o.push(("bits", J::N(bits as i128)));
                o.push(("signed", J::B(t.is_signed())));
            }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(path(tcx, def.did()))));
                o.push((
                    "adt",
                    J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
                ));
                let a = args.types().map(|x| J::N(self.ty(x) as i128)).collect();
                o.push(("args", J::A(a)));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in &v.fields {
                        let ft = self.norm(f.ty(tcx, args));
                        let id = match ft {
                            Some(ft) if !ft.has_param() => J::N(self.ty(ft) as i128),
                            _ => J::Null,
                        };
                        fs.push(J::A(vec![J::S(f.name.to_string()), id]));
                    }
                    let discr = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val as i128
                    } else {
                        0
                    };
                    vs.push(J::O(vec![
                        ("name", J::S(v.name.to_string())),
                        ("discr", J::N(discr)),
                        ("fields", J::A(fs)),
                    ]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Tuple(ts) => {
                o.push(("k", J::s("tuple")));
                let a = ts.iter().map(|x| J::N(self.ty(x) as i128)).collect();
                o.push(("elems", J::A(a)));
            }
            ty::Array(e, n) => {
                o.push(("k", J::s("array")));
                o.push(("elem", J::N(self.ty(*e) as i128)));
                if let Some(n) = n.try_to_target_usize(tcx) {
                    o.push(("len", J::N(n as i128)));
                }
            }
            ty::Slice(e) => {
                o.push(("k", J::s("slice")));
                o.push(("elem", J::N(self.ty(*e) as i128)));
            }
            ty::Ref(_, p, m) => {
                o.push(("k", J::s("ref")));
                o.push(("to", J::N(self.ty(*p) as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(p, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("to", J::N(self.ty(*p) as i128)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::FnDef(d, a) => {
                let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                o.push(("k", J::s("fndef")));
                let c = self.callee(*d, a);
                o.push(("callee", c));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Closure(d, a) => {
                o.push(("k", J::s("closure")));
                let inst = Instance { def: InstanceKind::Item(*d), args: a };
                let k = self.want(inst);
                o.push(("key", J::S(k)));
                o.push(("ckind", J::S(format!("{:?}", a.as_closure().kind()))));
                let u = a.as_closure().upvar_tys().iter().map(|x| J::N(self.ty(x) as i128)).collect();
                o.push(("upvars", J::A(u)));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", J::s("coroutine")));
                let inst = Instance { def: InstanceKind::Item(*d), args: a };
                let k = self.want(inst);
                o.push(("key", J::S(k)));
                let u = a.as_coroutine().upvar_tys().iter().map(|x| J::N(self.ty(x) as i128)).collect();
                o.push(("upvars", J::A(u)));
            }
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            _ => o.push(("k", J::s("other"))),
        }
        J::O(o)
    }

    /// Registers an instance for dumping when its body is to be followed.
    fn want(&mut self, i: Instance<'tcx>) -> String {
        let k = self.key(&i);
        if self.seen.insert(k.clone()) && self.follow(&i) {
            self.queue.push_back((k.clone(), i));
        }
        k
    }

    fn follow(&self, i: &Instance<'tcx>) -> bool {
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {}
            InstanceKind::Shim(_) => return false,
            _ => return false,
        }
        if self.local.contains_key(&d) {
            return true;
        }
        let c = self.krate(d);
        let p = path(self.tcx, d);
        if WORKSPACE.contains(&c.as_str()) {
            // generic library function instantiated from another workspace crate
            return !d.is_local() && self.tcx.is_mir_available(d) && !self.is_coroutine(d);
        }
        if ENCODING.iter().any(|s| p.starts_with(s)) {
            return self.tcx.is_mir_available(d) && !self.is_coroutine(d);
        }
        if !FOLLOW.contains(&c.as_str()) {
            return false;
        }
        if STOP.iter().any(|s| p.starts_with(s)) || p.contains("serde") || p.contains("::fmt") {
            return false;
        }
        self.tcx.is_mir_available(d) && !self.is_coroutine(d)
    }

    fn is_coroutine(&self, d: DefId) -> bool {
        self.tcx.is_coroutine(d)
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", J::S(path(tcx, d))),
            ("crate", J::S(self.krate(d))),
            ("name", J::S(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default())),
        ];
        let targs: Vec<J> = args.types().map(|t| J::N(self.ty(t) as i128)).collect();
        o.push(("targs", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(path(tcx, tr))));
        }
        match tcx.def_kind(d) {
            DefKind::Ctor(..) => {
                let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
                let out = tcx.erase_and_anonymize_regions(sig.output().skip_binder());
                o.push(("ctor", J::N(self.ty(out) as i128)));
                let parent = tcx.parent(d);
                let adt = out.ty_adt_def().unwrap();
                let vi = if adt.is_enum() { adt.variant_index_with_id(parent).as_usize() } else { 0 };
                o.push(("variant", J::N(vi as i128)));
                o.push(("kind", J::s("ctor")));
                return J::O(o);
            }
            _ => {}
        }
        let inst = Instance::try_resolve(tcx, env(), d, args);
        match inst {
            Ok(Some(i)) => {
                let kind = match i.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    InstanceKind::Shim(s) => match s {
                        ShimKind::FnPtr(..) => "fnptr_shim",
                        ShimKind::ClosureOnce { .. } => "closure_once",
                        ShimKind::Clone(..) => "clone_shim",
                        ShimKind::DropGlue(..) => "drop_glue",
                        _ => "shim",
                    },
                };
                o.push(("kind", J::s(kind)));
                o.push(("rpath", J::S(path(tcx, i.def_id()))));
                let k = self.want(i);
                o.push(("key", J::S(k)));
                if !self.follow(&i) {
                    let mut its = vec![];
                    for t in args.types() {
                        its.push(self.iteration(t));
                    }
                    if its.iter().any(|x| !matches!(x, J::Null)) {
                        o.push(("iters", J::A(its)));
                    }
                }
                if let InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) = i.def {
                    o.push(("closure", J::S(path(tcx, closure))));
                }
                if let Some(im) = tcx.impl_of_assoc(i.def_id()) {
                    let st = tcx.type_of(im).instantiate(tcx, i.args).skip_norm_wip();
                    let st = self.norm(ty::Unnormalized::new_wip(st)).unwrap_or(st);
                    o.push(("selfty", J::S(self.ty_str(st))));
                }
            }
            _ => o.push(("kind", J::s("unresolved"))),
        }
        J::O(o)
    }

    /// How a value of an iterable type is turned into an iterator and stepped: a model of a function that is not
    /// followed (collect, extend, fold ...) steps its iterator argument itself.
    fn iteration(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never) {
            return J::Null;
        }
        let (Some(into), Some(next)) = (tcx.lang_items().into_iter_fn(), tcx.lang_items().next_fn()) else {
            return J::Null;
        };
        if !self.iters.insert(t) {
            return J::Null;
        }
        let ia = tcx.mk_args(&[t.into()]);
        let mut r = J::Null;
        if let Ok(Some(_)) = Instance::try_resolve(tcx, env(), into, ia) {
            let sig = tcx.fn_sig(into).instantiate(tcx, ia);
            if let Ok(sig) = tcx.try_normalize_erasing_regions(env(), sig) {
                let it = sig.skip_binder().output();
                let na = tcx.mk_args(&[it.into()]);
                if let Ok(Some(_)) = Instance::try_resolve(tcx, env(), next, na) {
                    let nsig = tcx.fn_sig(next).instantiate(tcx, na);
                    if let Ok(nsig) = tcx.try_normalize_erasing_regions(env(), nsig) {
                        let out = nsig.skip_binder().output();
                        let a = self.callee(into, ia);
                        let b = self.callee(next, na);
                        r = J::O(vec![
                            ("into", a),
                            ("it", J::N(self.ty(it) as i128)),
                            ("next", b),
                            ("out", J::N(self.ty(out) as i128)),
                        ]);
                    }
                }
            }
        }
        self.iters.remove(&t);
        r
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut a = vec![J::N(p.local.as_usize() as i128)];
        for e in p.projection.iter() {
            a.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::O(vec![("f", J::N(f.as_usize() as i128)), ("t", J::N(t as i128))])
                }
                ProjectionElem::Index(l) => J::O(vec![("i", J::N(l.as_usize() as i128))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::O(vec![("ci", J::N(offset as i128)), ("end", J::B(from_end))])
                }
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![
                    ("sub", J::N(from as i128)),
                    ("to", J::N(to as i128)),
                    ("end", J::B(from_end)),
                ]),
                ProjectionElem::Downcast(_, v) => J::O(vec![("v", J::N(v.as_usize() as i128))]),
                _ => J::O(vec![("o", J::S(format!("{e:?}")))]),
            });
        }
        J::A(a)
    }

    fn const_val(&mut self, c: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 8 {
            return J::Null;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(s) = c.try_to_scalar_int() {
                    let v: i128 = if t.is_signed() {
                        s.to_int(s.size())
                    } else {
                        let b = s.to_bits_unchecked();
                        if b > i128::MAX as u128 {
                            return J::O(vec![("big", J::S(b.to_string()))]);
                        }
                        b as i128
                    };
                    return J::N(v);
                }
                J::Null
            }
            ty::Pat(base, _) => self.const_val(c, *base, depth + 1),
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::O(vec![("str", J::S(String::from_utf8_lossy(b).to_string()))]);
                }
                J::Null
            }
            ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Slice(e) if *e == tcx.types.u8) => {
                if let Some(b) = c.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::O(vec![("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect()))]);
                }
                J::Null
            }
            ty::Ref(_, inner, _) => {
                // pointer to an allocation: read the pointee in place
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = c {
                    let (prov, offset) = p.prov_and_relative_offset();
                    if let Some(mir::interpret::GlobalAlloc::Memory(_)) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        let v = mir::ConstValue::Indirect { alloc_id: prov.alloc_id(), offset };
                        // scalars have to be read out of the allocation
                        let j = self.const_mem(v, *inner, depth + 1);
                        return J::O(vec![("ref", j)]);
                    }
                }
                if let mir::ConstValue::Indirect { .. } = c {
                    return J::Null;
                }
                J::Null
            }
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.const_mem(c, t, depth),
            ty::FnPtr(..) => {
                if let mir::ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = c {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let Some(mir::interpret::GlobalAlloc::Function { instance }) =
                        tcx.try_get_global_alloc(prov.alloc_id())
                    {
                        let mut d = instance.def_id();
                        if let Some(a) = instance.args.types().next() {
                            if let ty::Closure(cd, _) = a.kind() {
                                d = *cd;
                            }
                        }
                        return J::O(vec![("fnptr", J::S(path(tcx, d)))]);
                    }
                }
                J::Null
            }
            _ => J::Null,
        }
    }

    fn const_mem(&mut self, c: mir::ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(d, _) if d.is_union() => return J::Null,
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                let Some(d) = tcx.try_destructure_mir_constant_for_user_output(c, t) else {
                    return J::Null;
                };
                let mut fs = vec![];
                for (v, ft) in d.fields.iter() {
                    fs.push(self.const_val(*v, *ft, depth + 1));
                }
                let mut o = vec![("f", J::A(fs))];
                if let Some(v) = d.variant {
                    o.push(("v", J::N(v.as_usize() as i128)));
                }
                J::O(o)
            }
            _ => {
                // scalar behind a pointer: go through a one-element tuple read
                let tt = Ty::new_tup(tcx, &[t]);
                let Some(d) = tcx.try_destructure_mir_constant_for_user_output(c, tt) else {
                    return J::Null;
                };
                let Some((v, ft)) = d.fields.iter().next() else { return J::Null };
                self.const_val(*v, *ft, depth + 1)
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("t", J::N(self.ty(t) as i128))];
        if let ty::FnDef(d, a) = t.kind() {
            let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
            let callee = self.callee(*d, a);
            o.push(("fn", callee));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", J::N(p.as_usize() as i128)));
                if self.local.contains_key(&u.def) {
                    return J::O(o);
                }
                o.pop();
            } else {
                o.push(("def", J::S(path(tcx, u.def))));
            }
        }
        if let Ok(v) = c.const_.eval(tcx, env(), c.span) {
            let j = self.const_val(v, t, 0);
            o.push(("val", j));
        }
        J::O(o)
    }

    fn operand(&mut self, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(p))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c))]),
            Operand::RuntimeChecks(r) => J::O(vec![("rc", J::S(format!("{r:?}")))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(op, _) => J::O(vec![("r", J::s("use")), ("a", self.operand(op))]),
            Rvalue::Repeat(op, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| J::N(n as i128)).unwrap_or(J::Null);
                J::O(vec![("r", J::s("repeat")), ("a", self.operand(op)), ("n", n)])
            }
            Rvalue::Ref(_, k, p) => J::O(vec![
                ("r", J::s("ref")),
                ("p", self.place(p)),
                ("mut", J::B(matches!(k, BorrowKind::Mut { .. }))),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("r", J::s("ref")),
                ("p", self.place(p)),
                ("mut", J::B(m.is_mut())),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("r", J::s("rawptr")), ("p", self.place(p))]),
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("r", J::s("use")), ("a", J::O(vec![("c", self.place(p))]))])
            }
            Rvalue::Cast(k, op, t) => {
                let a = self.operand(op);
                let t = self.ty(*t);
                J::O(vec![
                    ("r", J::s("cast")),
                    ("k", J::S(format!("{k:?}"))),
                    ("a", a),
                    ("t", J::N(t as i128)),
                ])
            }
            Rvalue::BinaryOp(op, ab) => J::O(vec![
                ("r", J::s("bin")),
                ("op", J::S(format!("{op:?}"))),
                ("a", self.operand(&ab.0)),
                ("b", self.operand(&ab.1)),
            ]),
            Rvalue::UnaryOp(op, a) => J::O(vec![
                ("r", J::s("un")),
                ("op", J::S(format!("{op:?}"))),
                ("a", self.operand(a)),
            ]),
            Rvalue::Discriminant(p) => J::O(vec![("r", J::s("discr")), ("p", self.place(p))]),
            Rvalue::Aggregate(k, ops) => {
                let fs = J::A(ops.iter().map(|x| self.operand(x)).collect());
                let mut o = vec![("r", J::s("agg"))];
                match &**k {
                    AggregateKind::Array(t) => {
                        o.push(("k", J::s("array")));
                        let t = self.ty(*t);
                        o.push(("t", J::N(t as i128)));
                    }
                    AggregateKind::Tuple => o.push(("k", J::s("tuple"))),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        o.push(("k", J::s("adt")));
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let t = self.ty(t);
                        o.push(("t", J::N(t as i128)));
                        o.push(("v", J::N(v.as_usize() as i128)));
                        if let Some(f) = active {
                            o.push(("union", J::N(f.as_usize() as i128)));
                        }
                    }
                    AggregateKind::Closure(d, a) => {
                        o.push(("k", J::s("closure")));
                        let t = Ty::new_closure(self.tcx, *d, a);
                        let t = self.ty(t);
                        o.push(("t", J::N(t as i128)));
                    }
                    AggregateKind::Coroutine(d, a) => {
                        o.push(("k", J::s("coroutine")));
                        let t = Ty::new_coroutine(self.tcx, *d, a);
                        let t = self.ty(t);
                        o.push(("t", J::N(t as i128)));
                    }
                    AggregateKind::CoroutineClosure(..) => o.push(("k", J::s("coroutine_closure"))),
                    AggregateKind::RawPtr(..) => o.push(("k", J::s("rawptr"))),
                }
                o.push(("f", fs));
                J::O(o)
            }
            _ => J::O(vec![("r", J::s("other")), ("d", J::S(format!("{r:?}")))]),
        }
    }

    fn body(&mut self, key: &str, inst: Option<Instance<'tcx>>, b: &Body<'tcx>, extra: Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        let sm = tcx.sess.source_map();
        let loc = |s: rustc_span::Span| -> J {
            let s = s.source_callsite();
            let l = sm.lookup_char_pos(s.lo());
            J::S(format!("{}:{}", l.file.name.prefer_remapped_unconditionally(), l.line))
        };
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in b.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names.get(&l.as_usize()).map(|s| J::S(s.clone())).unwrap_or(J::Null);
            locals.push(J::A(vec![J::N(t as i128), n]));
        }
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            if !bb.is_cleanup {
                for s in &bb.statements {
                    match &s.kind {
                        StatementKind::Assign(pr) => {
                            let p = self.place(&pr.0);
                            let r = self.rvalue(&pr.1);
                            st.push(J::A(vec![J::s("="), p, r, loc(s.source_info.span)]));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(place);
                            st.push(J::A(vec![J::s("sd"), p, J::N(variant_index.as_usize() as i128)]));
                        }
                        StatementKind::StorageDead(l) => {
                            st.push(J::A(vec![J::s("dead"), J::N(l.as_usize() as i128)]));
                        }
                        _ => {}
                    }
                }
            }
            let t = bb.terminator();
            let mut o: Vec<(&'static str, J)> = vec![];
            if !bb.is_cleanup {
                o.push(("loc", loc(t.source_info.span)));
                let n = |b: BasicBlock| J::N(b.as_usize() as i128);
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => {
                        o.push(("k", J::s("goto")));
                        o.push(("to", n(*target)));
                    }
                    TerminatorKind::FalseEdge { real_target, .. }
                    | TerminatorKind::FalseUnwind { real_target, .. } => {
                        o.push(("k", J::s("goto")));
                        o.push(("to", n(*real_target)));
                    }
                    TerminatorKind::SwitchInt { discr, targets } => {
                        o.push(("k", J::s("switch")));
                        o.push(("on", self.operand(discr)));
                        let ty = discr.ty(b, tcx);
                        let ty = self.ty(ty);
                        o.push(("t", J::N(ty as i128)));
                        let v = targets
                            .iter()
                            .map(|(v, b)| J::A(vec![J::S(v.to_string()), n(b)]))
                            .collect();
                        o.push(("cases", J::A(v)));
                        o.push(("else", n(targets.otherwise())));
                    }
                    TerminatorKind::Return => o.push(("k", J::s("return"))),
                    TerminatorKind::Unreachable => o.push(("k", J::s("unreachable"))),
                    TerminatorKind::UnwindResume
                    | TerminatorKind::UnwindTerminate(_)
                    | TerminatorKind::CoroutineDrop => o.push(("k", J::s("unreachable"))),
                    TerminatorKind::Drop { place, target, .. } => {
                        o.push(("k", J::s("drop")));
                        let p = self.place(place);
                        o.push(("p", p));
                        let ty = place.ty(b, tcx).ty;
                        let ty = self.ty(ty);
                        o.push(("t", J::N(ty as i128)));
                        o.push(("to", n(*target)));
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        o.push(("k", J::s("call")));
                        let f = self.operand(func);
                        o.push(("f", f));
                        let a = args.iter().map(|x| self.operand(&x.node)).collect();
                        o.push(("a", J::A(a)));
                        let at = args
                            .iter()
                            .map(|x| {
                                let t = x.node.ty(b, tcx);
                                J::N(self.ty(t) as i128)
                            })
                            .collect();
                        o.push(("at", J::A(at)));
                        let d = self.place(destination);
                        o.push(("d", d));
                        let dt = destination.ty(b, tcx).ty;
                        let dt = self.ty(dt);
                        o.push(("dt", J::N(dt as i128)));
                        o.push(("to", target.map(n).unwrap_or(J::Null)));
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        o.push(("k", J::s("assert")));
                        o.push(("on", self.operand(cond)));
                        o.push(("want", J::B(*expected)));
                        let m = format!("{:?}", msg);
                        o.push(("msg", J::S(m.split('(').next().unwrap_or("").trim().to_string())));
                        o.push(("to", n(*target)));
                    }
                    TerminatorKind::Yield { resume, resume_arg, .. } => {
                        o.push(("k", J::s("yield")));
                        o.push(("to", n(*resume)));
                        let p = self.place(resume_arg);
                        o.push(("p", p));
                    }
                    other => {
                        o.push(("k", J::s("other")));
                        o.push(("d", J::S(format!("{other:?}"))));
                    }
                }
            } else {
                o.push(("k", J::s("cleanup")));
            }
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o))]));
        }
        let mut o = extra;
        o.push(("args", J::N(b.arg_count as i128)));
        o.push((
            "spread",
            b.spread_arg.map(|l| J::N(l.as_usize() as i128)).unwrap_or(J::Null),
        ));
        o.push(("loc", loc(b.span)));
        {
            let hi = sm.lookup_char_pos(b.span.source_callsite().hi());
            o.push(("end", J::N(hi.line as i128)));
        }
        o.push(("locals", J::A(locals)));
        o.push(("blocks", J::A(blocks)));
        let _ = inst;
        self.funcs.push((key.to_string(), J::O(o)));
    }

    fn dump_instance(&mut self, key: String, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = inst.def_id();
        let kind = if tcx.is_closure_like(d) {
            if tcx.is_coroutine(d) { "coroutine" } else { "closure" }
        } else {
            "fn"
        };
        let mut extra = vec![
            ("path", J::S(path(tcx, d))),
            ("crate", J::S(self.krate(d))),
            ("kind", J::s(kind)),
        ];
        if let Some(im) = tcx.impl_of_assoc(d) {
            extra.push(("impl", J::S(ty::print::with_resolve_crate_name!(ty::print::with_no_trimmed_paths!(
                format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip())
            )))));
            if let Some(tr) = tcx.impl_opt_trait_id(im) {
                extra.push(("trait", J::S(path(tcx, tr))));
            }
            if tcx.is_automatically_derived(im) {
                extra.push(("derived", J::B(true)));
            }
        }
        if let Some((b, proms)) = self.local.get(&d).cloned() {
            let Ok(mb) = inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx, env(), ty::EarlyBinder::bind(tcx, b),
            ) else {
                self.skipped.push(key);
                return;
            };
            extra.push(("local", J::B(true)));
            for (i, p) in proms.into_iter().enumerate() {
                if let Ok(pb) = inst.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx, env(), ty::EarlyBinder::bind(tcx, p),
                ) {
                    let pk = format!("{key}#promoted{i}");
                    self.body(&pk, None, &pb, vec![("kind", J::s("promoted")), ("local", J::B(true))]);
                }
            }
            self.body(&key, Some(inst), &mb, extra);
        } else {
            let b = tcx.instance_mir(inst.def).clone();
            let Ok(mb) = inst.try_instantiate_mir_and_normalize_erasing_regions(
                tcx, env(), ty::EarlyBinder::bind(tcx, b),
            ) else {
                self.skipped.push(key);
                return;
            };
            self.body(&key, Some(inst), &mb, extra);
        }
    }
}

fn collect<'tcx>(tcx: TyCtxt<'tcx>) -> HashMap<DefId, (Body<'tcx>, Promoteds<'tcx>)> {
    let mut out = HashMap::new();
    for ld in tcx.hir_body_owners() {
        let ld: LocalDefId = ld;
        match tcx.def_kind(ld) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => continue,
        }
        let (b, p) = tcx.mir_promoted(ld);
        if b.is_stolen() || p.is_stolen() {
            eprintln!("mirdump: body of {} already stolen", tcx.def_path_str(ld));
            continue;
        }
        let b = b.borrow().clone();
        let p: Vec<_> = p.borrow().iter().cloned().collect();
        out.insert(ld.to_def_id(), (b, p));
    }
    out
}

thread_local! {
    static STASH: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var("MIRDUMP_OUT").is_err() {
            return Compilation::Continue;
        }
        let m = Box::new(collect(tcx));
        STASH.with(|s| s.set(Box::into_raw(m) as usize));
        self.bodies = Some(());
        Compilation::Continue
    }

    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.bodies.take().is_none() {
            return Compilation::Continue;
        }
        // same TyCtxt, same arena: the pointer was made by after_expansion above
        let local = unsafe {
            *Box::from_raw(STASH.with(|s| s.get()) as *mut HashMap<DefId, (Body<'tcx>, Promoteds<'tcx>)>)
        };
        let mut cx = Cx {
            tcx,
            local,
            types: HashMap::new(),
            type_out: vec![],
            type_q: VecDeque::new(),
            seen: HashSet::new(),
            queue: VecDeque::new(),
            iters: HashSet::new(),
            funcs: vec![],
            skipped: vec![],
        };
        let mut roots = vec![];
        let mut generic = vec![];
        let mut ids: Vec<DefId> = cx.local.keys().copied().collect();
        ids.sort_by_key(|d| path(tcx, *d));
        for d in ids {
            if tcx.is_closure_like(d) {
                continue;
            }
            let g = tcx.generics_of(d);
            if g.requires_monomorphization(tcx) {
                generic.push(J::S(path(tcx, d)));
                continue;
            }
            let inst = Instance::mono(tcx, d);
            let k = cx.want(inst);
            let attrs = tcx.codegen_fn_attrs(d);
            let mut o = vec![("key", J::S(k))];
            if let Some(n) = attrs.symbol_name {
                o.push(("export", J::S(n.to_string())));
            }
            o.push(("vis", J::B(tcx.visibility(d).is_public())));
            roots.push(J::O(o));
        }
        // named constants of the crate
        let mut consts = vec![];
        for ld in tcx.hir_body_owners() {
            if let DefKind::Const { .. } | DefKind::AssocConst { .. } = tcx.def_kind(ld) {
                let d = ld.to_def_id();
                if tcx.generics_of(d).requires_monomorphization(tcx) {
                    continue;
                }
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let t = cx.norm(ty::Unnormalized::new_wip(t)).unwrap_or(t);
                if t.is_adt() && cx.ty_str(t).starts_with("std::thread") {
                    continue;
                }
                let j = match tcx.const_eval_poly(d) {
                    Ok(v) => cx.const_val(v, t, 0),
                    Err(_) => J::Null,
                };
                let ti = cx.ty(t);
                consts.push(J::O(vec![
                    ("path", J::S(path(tcx, d))),
                    ("t", J::N(ti as i128)),
                    ("val", j),
                ]));
            }
        }
        let storable: Vec<DefId> =
            tcx.all_traits_including_private().filter(|t| path(tcx, *t).ends_with("storable::Storable")).collect();
        let mut stored = vec![];
        let mut asked: HashSet<Ty<'tcx>> = HashSet::new();
        loop {
            cx.expand_types();
            let Some((k, i)) = cx.queue.pop_front() else {
                // how the workspace's own types are laid out in stable memory
                let mut ts: Vec<(usize, Ty<'tcx>)> = cx.types.iter().map(|(t, n)| (*n, *t)).collect();
                ts.sort_by_key(|x| x.0);
                for (n, t) in ts {
                    let ty::Adt(def, _) = t.kind() else { continue };
                    if !WORKSPACE.contains(&cx.krate(def.did()).as_str()) || !asked.insert(t) {
                        continue;
                    }
                    for tr in &storable {
                        if tcx.non_blanket_impls_for_ty(*tr, t).next().is_none() {
                            continue;
                        }
                        let mut o = vec![("t", J::N(n as i128))];
                        for (w, m) in [("to", "to_bytes"), ("from", "from_bytes")] {
                            let Some(it) = tcx
                                .associated_items(*tr)
                                .in_definition_order()
                                .find(|x| tcx.opt_item_name(x.def_id).is_some_and(|s| s.as_str() == m))
                            else {
                                continue;
                            };
                            let args = ty::GenericArgs::for_item(tcx, it.def_id, |p, _| {
                                if p.index == 0 { t.into() } else { tcx.lifetimes.re_erased.into() }
                            });
                            if let Ok(Some(i)) = Instance::try_resolve(tcx, env(), it.def_id, args) {
                                o.push((w, J::S(cx.want(i))));
                            }
                        }
                        stored.push(J::O(o));
                    }
                }
                if cx.queue.is_empty() {
                    break;
                }
                continue;
            };
            cx.dump_instance(k, i);
        }
        cx.expand_types();
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let kind = if tcx.entry_fn(()).is_some() { "bin" } else { "lib" };
        let mut s = String::new();
        s.push_str("{\"crate\":");
        J::S(krate.clone()).write(&mut s);
        let _ = write!(s, ",\"ckind\":\"{kind}\",\"roots\":");
        J::A(roots).write(&mut s);
        s.push_str(",\"generic\":");
        J::A(generic).write(&mut s);
        s.push_str(",\"consts\":");
        J::A(consts).write(&mut s);
        s.push_str(",\"stored\":");
        J::A(stored).write(&mut s);
        s.push_str(",\"skipped\":");
        J::A(cx.skipped.into_iter().map(J::S).collect()).write(&mut s);
        s.push_str(",\"types\":");
        J::A(cx.type_out.into_iter().map(|x| x.unwrap_or(J::Null)).collect()).write(&mut s);
        s.push_str(",\"funcs\":{");
        for (n, (k, j)) in cx.funcs.iter().enumerate() {
            if n > 0 {
                s.push(',');
            }
            J::S(k.clone()).write(&mut s);
            s.push(':');
            j.write(&mut s);
        }
        s.push_str("}}\n");
        let dir = std::env::var("MIRDUMP_OUT").unwrap();
        std::fs::write(format!("{dir}/{krate}-{kind}.json"), s).expect("cannot write the dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    args.remove(0);
    let mut cb = Cb { bodies: None };
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
