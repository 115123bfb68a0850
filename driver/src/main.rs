// MIR extractor: a rustc driver used as RUSTC_WORKSPACE_WRAPPER.  For the crate
// named in MIRDUMP_CRATE it writes one JSON file (MIRDUMP_OUT) holding the
// monomorphised MIR of every function of that crate and of the library
// functions they reach whose path matches MIRDUMP_INLINE; it decides nothing.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TyKind, TypeVisitableExt, TypingEnv};
use rustc_span::{Span, DUMMY_SP};
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- tiny JSON
#[derive(Clone)]
enum J { Null, B(bool), N(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => { let _ = write!(o, "{}", n); }
            J::S(s) => esc(s, o),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o) } o.push('}') }
        }
    }
}
fn s<T: Into<String>>(x: T) -> J { J::S(x.into()) }
fn n<T: TryInto<i128>>(x: T) -> J { J::N(x.try_into().ok().unwrap()) }

// ---------------------------------------------------------------- dumper
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    ty_queue: VecDeque<Ty<'tcx>>,
    insts: HashMap<String, ()>,
    // instances whose printed form names a closure only by its source position
    closures: std::cell::RefCell<HashMap<String, Vec<Instance<'tcx>>>>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, String)>,
    inline: Vec<String>,
    env: TypingEnv<'tcx>,
    statics: HashMap<String, J>,
}

fn is_body_shim(k: &InstanceKind) -> bool { matches!(k, InstanceKind::Shim(_)) }

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }
    fn path_args(&self, d: DefId, a: GenericArgsRef<'tcx>) -> String { with_no_trimmed_paths!(self.tcx.def_path_str_with_args(d, a)) }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) { return n(*i as i128); }
        let i = self.tys.len();
        self.tys.insert(t, i);
        self.ty_queue.push_back(t);
        n(i as i128)
    }
    fn ty_name(&self, t: Ty<'tcx>) -> String { with_no_trimmed_paths!(format!("{}", t)) }
    fn flush_tys(&mut self) {
        while let Some(t) = self.ty_queue.pop_front() {
            let j = self.ty_def(t);
            self.ty_out.push(j);
        }
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = a.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(self.ty(t)),
            ty::GenericArgKind::Const(c) => Some(s(format!("{}", c))),
            _ => None,
        }).collect();
        J::A(v)
    }
    fn ty_def(&mut self, t: Ty<'tcx>) -> J {
        let mut o = vec![("s", s(self.ty_name(t)))];
        match *t.kind() {
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Char => o.push(("k", s("char"))),
            TyKind::Int(i) => { o.push(("k", s("int"))); o.push(("bits", n(i.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits() as u64) as i128))); o.push(("signed", J::B(true))) }
            TyKind::Uint(i) => { o.push(("k", s("int"))); o.push(("bits", n(i.bit_width().unwrap_or(self.tcx.data_layout.pointer_size().bits() as u64) as i128))); o.push(("signed", J::B(false))) }
            TyKind::Float(_) => o.push(("k", s("float"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            TyKind::Array(e, c) => {
                o.push(("k", s("array")));
                let e = self.ty(e); o.push(("e", e));
                if let Some(l) = c.try_to_target_usize(self.tcx) { o.push(("len", n(l as i128))); }
            }
            TyKind::Slice(e) => { o.push(("k", s("slice"))); let e = self.ty(e); o.push(("e", e)); }
            TyKind::RawPtr(e, m) => { o.push(("k", s("ptr"))); let e = self.ty(e); o.push(("e", e)); o.push(("mut", J::B(m.is_mut()))); }
            TyKind::Ref(_, e, m) => { o.push(("k", s("ref"))); let e = self.ty(e); o.push(("e", e)); o.push(("mut", J::B(m.is_mut()))); }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect(); o.push(("e", J::A(v)));
            }
            TyKind::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                let c = self.callee(d, a.no_bound_vars().unwrap()); o.push(("f", c));
            }
            TyKind::FnPtr(..) => o.push(("k", s("fnptr"))),
            TyKind::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(d))));
                let ups: Vec<Ty> = a.as_closure().upvar_tys().iter().collect();
                let v = ups.into_iter().map(|x| self.ty(x)).collect(); o.push(("e", J::A(v)));
                if !a.has_param() {
                    let ca = self.tcx.erase_and_anonymize_regions(a);
                    let id = self.request(Instance::new_raw(d, ca));
                    o.push(("body", s(id)));
                }
            }
            TyKind::Dynamic(..) => o.push(("k", s("dyn"))),
            TyKind::Param(_) => o.push(("k", s("param"))),
            TyKind::Adt(ad, a) => {
                o.push(("k", s(if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" })));
                o.push(("path", s(self.path(ad.did()))));
                o.push(("local", J::B(ad.did().is_local())));
                o.push(("krate", s(self.tcx.crate_name(ad.did().krate).to_string())));
                let ar = self.args(a); o.push(("args", ar));
                let has_drop = self.tcx.adt_destructor(ad.did()).is_some();
                o.push(("has_drop_impl", J::B(has_drop)));
                let mut vs = vec![];
                for (i, v) in ad.variants().iter_enumerated() {
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(self.tcx, a).skip_norm_wip();
                        let ft = self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft)).unwrap_or(ft);
                        let tj = self.ty(ft);
                        fs.push(J::A(vec![s(f.name.to_string()), tj]));
                    }
                    let d = if ad.is_enum() { ad.discriminant_for_variant(self.tcx, i).val as i128 } else { 0 };
                    vs.push(J::O(vec![("name", s(v.name.to_string())), ("discr", n(d)), ("fields", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
                if ad.is_struct() {
                    o.push(("reprc", J::B(ad.repr().c())));
                    if !t.has_param() && !t.has_aliases() {
                        if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                            let offs = (0..l.fields.count()).map(|i| n(l.fields.offset(i).bytes() as i128)).collect();
                            o.push(("size", n(l.size.bytes() as i128)));
                            o.push(("offsets", J::A(offs)));
                        }
                    }
                }
            }
            _ => o.push(("k", s("other"))),
        }
        if !t.has_param() && !t.has_aliases() {
            o.push(("needs_drop", J::B(t.needs_drop(self.tcx, self.env))));
            o.push(("copy", J::B(self.tcx.type_is_copy_modulo_regions(self.env, t))));
        }
        J::O(o)
    }
    fn inst_id(&self, i: Instance<'tcx>) -> String {
        let id = self.inst_id0(i);
        if !id.contains("closure@") { return id; }
        // distinct macro-generated closures share one printed position
        let i = self.tcx.erase_and_anonymize_regions(i);
        let mut m = self.closures.borrow_mut();
        let v = m.entry(id.clone()).or_default();
        let k = v.iter().position(|x| *x == i).unwrap_or_else(|| { v.push(i); v.len() - 1 });
        if k == 0 { id } else { format!("{}#{}", id, k) }
    }
    fn inst_id0(&self, i: Instance<'tcx>) -> String {
        let base = self.path_args(i.def_id(), i.args);
        match i.def {
            InstanceKind::Item(d) => if matches!(self.tcx.def_kind(d), DefKind::Closure) { format!("{}|{}", self.path(d), with_no_trimmed_paths!(format!("{:?}", self.tcx.erase_and_anonymize_regions(i.args)))) } else { base },
            InstanceKind::Intrinsic(_) => format!("intrinsic:{}", base),
            InstanceKind::LlvmIntrinsic(_) => format!("llvm:{}", base),
            InstanceKind::Virtual(..) => format!("virtual:{}", base),
            InstanceKind::Shim(k) => with_no_trimmed_paths!(format!("shim:{:?}:{}", k, base)),
        }
    }
    fn wants_body(&self, i: Instance<'tcx>) -> bool {
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {
                if !self.tcx.is_mir_available(d) { return false; }
                if self.tcx.is_constructor(d) { return false; }
                if d.is_local() { return true; }
                let p = self.path(d);
                let kr = self.tcx.crate_name(d.krate).to_string();
                let full = format!("{}!{}", kr, p);
                let neg = self.inline.iter().any(|x| x.starts_with('!') && full.contains(&x[1..]));
                !neg && self.inline.iter().any(|x| !x.starts_with('!') && (full.contains(x.as_str())))
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, Some(t))) => {
                // drop glue of local types, closures, tuples, Option etc. is dumped;
                // of opaque library types it is not (the engine treats them by name).
                match t.kind() {
                    TyKind::Adt(ad, _) => ad.did().is_local() || {
                        let p = self.path(ad.did());
                        ["std::option::Option", "std::result::Result", "std::ops::ControlFlow", "core::option::Option", "core::result::Result",
                         "std::ops::Range", "std::sync::PoisonError", "std::sync::TryLockError"].iter().any(|x| p.starts_with(x))
                    },
                    _ => true,
                }
            }
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => false,
            InstanceKind::Shim(_) => true,
            _ => false,
        }
    }
    fn request(&mut self, i: Instance<'tcx>) -> String {
        let id = self.inst_id(i);
        if !self.insts.contains_key(&id) && self.wants_body(i) {
            self.insts.insert(id.clone(), ());
            self.queue.push_back((i, self.env, id.clone()));
        }
        id
    }
    fn callee(&mut self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let a = self.tcx.erase_and_anonymize_regions(a);
        let mut o = vec![("path", s(self.path(d))), ("krate", s(self.tcx.crate_name(d.krate).to_string()))];
        let ar = self.args(a); o.push(("args", ar));
        o.push(("full", s(self.path_args(d, a))));
        if self.tcx.is_constructor(d) {
            let adt = self.tcx.parent(d);
            let (adt, var) = if matches!(self.tcx.def_kind(adt), DefKind::Variant) { (self.tcx.parent(adt), Some(adt)) } else { (adt, None) };
            o.push(("ctor", s(self.path(adt))));
            if let Some(v) = var { let vi = self.tcx.adt_def(adt).variant_index_with_id(v); o.push(("ctor_variant", n(vi.as_u32() as i128))); }
            return J::O(o);
        }
        if let Some(tr) = self.tcx.trait_of_assoc(d) { o.push(("trait", s(self.path(tr)))); }
        o.push(("name", s(self.tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        match Instance::try_resolve(self.tcx, self.env, d, a) {
            Ok(Some(i)) => {
                let id = self.request(i);
                o.push(("inst", s(id)));
                o.push(("rpath", s(self.path(i.def_id()))));
                o.push(("rkrate", s(self.tcx.crate_name(i.def_id().krate).to_string())));
                let ra = self.args(i.args); o.push(("rargs", ra));
                o.push(("rfull", s(self.path_args(i.def_id(), i.args))));
                o.push(("ikind", s(match i.def {
                    InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::LlvmIntrinsic(_) => "llvm",
                    InstanceKind::Virtual(..) => "virtual", InstanceKind::Shim(ShimKind::Clone(..)) => "cloneshim", InstanceKind::Shim(_) => "shim" })));
                if let Some(im) = self.tcx.trait_impl_of_assoc(i.def_id()) {
                    let t = self.tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    o.push(("impl_self", s(self.ty_name(t))));
                }
            }
            _ => {}
        }
        J::O(o)
    }
    fn drop_inst(&mut self, t: Ty<'tcx>) -> J {
        if t.has_param() || t.has_aliases() { return J::Null; }
        if !t.needs_drop(self.tcx, self.env) { return J::Null; }
        let i = Instance::resolve_drop_glue(self.tcx, t);
        s(self.request(i))
    }
    // -------- constants
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tj = self.ty(t);
        if depth > 12 { return J::A(vec![s("opaque"), tj]); }
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) => {
                if let Some(sc) = self.scalar_of(v, t) {
                    if let Scalar::Int(i) = sc {
                        let sz = i.size();
                        let val: i128 = if matches!(t.kind(), TyKind::Int(_)) { i.to_int(sz) } else { i.to_uint(sz) as i128 };
                        return J::A(vec![s(match t.kind() { TyKind::Bool => "bool", TyKind::Char => "char", _ => "int" }), n(val), tj]);
                    }
                }
                J::A(vec![s("opaque"), tj])
            }
            TyKind::FnDef(d, a) => { let c = self.callee(d, a.no_bound_vars().unwrap()); J::A(vec![s("fn"), c, tj]) }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                match *inner.kind() {
                    TyKind::Str => {
                        if let Some(b) = self.slice_bytes(v) { return J::A(vec![s("str"), J::A(b.iter().map(|x| n(*x as i128)).collect()), tj]); }
                        J::A(vec![s("opaque"), tj])
                    }
                    TyKind::Slice(e) if e == self.tcx.types.u8 => {
                        if let Some(b) = self.slice_bytes(v) { return J::A(vec![s("bytes"), J::A(b.iter().map(|x| n(*x as i128)).collect()), tj]); }
                        J::A(vec![s("opaque"), tj])
                    }
                    TyKind::Slice(_) | TyKind::Dynamic(..) => J::A(vec![s("opaque"), tj]),
                    _ => {
                        let ptr = match self.scalar_of(v, t) { Some(Scalar::Ptr(p, _)) => p, _ => return J::A(vec![s("opaque"), tj]) };
                        let (prov, off) = ptr.prov_and_relative_offset();
                        match self.tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Memory(_) => {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let ij = self.cval(iv, inner, depth + 1);
                                J::A(vec![s("ref"), ij, tj])
                            }
                            GlobalAlloc::Static(d) => J::A(vec![s("static"), s(self.path(d)), tj]),
                            GlobalAlloc::Function { instance } => { let id = self.request(instance); J::A(vec![s("fnptr"), s(id), tj]) }
                            _ => J::A(vec![s("opaque"), tj]),
                        }
                    }
                }
            }
            TyKind::FnPtr(..) => {
                if let Some(Scalar::Ptr(p, _)) = self.scalar_of(v, t) {
                    let (prov, _) = p.prov_and_relative_offset();
                    if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(prov.alloc_id()) {
                        let id = self.request(instance); return J::A(vec![s("fnptr"), s(id), tj]);
                    }
                }
                J::A(vec![s("opaque"), tj])
            }
            TyKind::Adt(ad, _) if ad.is_union() => J::A(vec![s("opaque"), tj]),
            TyKind::Adt(..) | TyKind::Tuple(..) | TyKind::Array(..) | TyKind::Closure(..) => {
                if let TyKind::Array(_, c) = t.kind() { if c.try_to_target_usize(self.tcx).map_or(true, |l| l > 512) { return J::A(vec![s("opaque"), tj]); } }
                if matches!(t.kind(), TyKind::Closure(..)) { return J::A(vec![s(if matches!(v, ConstValue::ZeroSized) { "agg" } else { "opaque" }), J::Null, J::A(vec![]), tj]); }
                // interior-mutable / opaque library types are not taken apart
                match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<J> = dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        J::A(vec![s("agg"), match dc.variant { Some(v) => n(v.as_u32() as i128), None => J::Null }, J::A(fs), tj])
                    }
                    None => J::A(vec![s("opaque"), tj]),
                }
            }
            _ => J::A(vec![s("opaque"), tj]),
        }
    }
    fn scalar_of(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Scalar> {
        match v {
            ConstValue::Scalar(x) => Some(x),
            ConstValue::Indirect { alloc_id, offset } => {
                let sz = self.tcx.layout_of(self.env.as_query_input(t)).ok()?.size;
                if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                    let isptr = t.is_any_ptr();
                    m.inner().read_scalar(&self.tcx, mir::interpret::alloc_range(offset, sz), isptr).ok()
                } else { None }
            }
            _ => None,
        }
    }
    fn slice_bytes(&self, v: ConstValue) -> Option<Vec<u8>> {
        match v {
            ConstValue::Slice { .. } | ConstValue::Indirect { .. } => v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|x| x.to_vec()),
            _ => None,
        }
    }
    fn konst(&mut self, c: &mir::Const<'tcx>, span: Span) -> J {
        let t = c.ty();
        let name = match c { mir::Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)), _ => None };
        let j = if let TyKind::FnDef(d, a) = t.kind() {
            let cj = self.callee(*d, a.no_bound_vars().unwrap()); let tj = self.ty(t); J::A(vec![s("fn"), cj, tj])
        } else {
            match c.eval(self.tcx, self.env, span) {
                Ok(v) => self.cval(v, t, 0),
                Err(_) => { let tj = self.ty(t); J::A(vec![s("opaque"), tj]) }
            }
        };
        match name { Some(nm) => J::A(vec![s("named"), s(nm), j]), None => j }
    }
    // -------- MIR
    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut v = vec![];
        let mut pt = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => { s("*") }
                ProjectionElem::Field(f, t) => { let tj = self.ty(t); J::A(vec![s("f"), n(f.as_u32() as i128), tj]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![s("c"), n(offset as i128), n(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("s"), n(from as i128), n(to as i128), J::B(from_end)]),
                ProjectionElem::Downcast(_, vi) => J::A(vec![s("d"), n(vi.as_u32() as i128)]),
                _ => s("other"),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        let tj = self.ty(pt.ty);
        J::A(vec![n(p.local.as_u32() as i128), J::A(v), tj])
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => { let x = self.place(body, *p); J::A(vec![s("copy"), x]) }
            Operand::Move(p) => { let x = self.place(body, *p); J::A(vec![s("move"), x]) }
            Operand::Constant(c) => { let x = self.konst(&c.const_, c.span); J::A(vec![s("const"), x]) }
            Operand::RuntimeChecks(r) => J::A(vec![s("rtchk"), s(format!("{:?}", r))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => { let x = self.operand(body, o); J::A(vec![s("use"), x]) }
            Rvalue::Repeat(o, c) => { let x = self.operand(body, o); J::A(vec![s("repeat"), x, match c.try_to_target_usize(self.tcx) { Some(l) => n(l as i128), None => J::Null }]) }
            Rvalue::Ref(_, bk, p) => { let x = self.place(body, *p); J::A(vec![s("ref"), s(match bk { BorrowKind::Mut { .. } => "mut", BorrowKind::Shared => "shared", _ => "fake" }), x]) }
            Rvalue::RawPtr(_, p) => { let x = self.place(body, *p); J::A(vec![s("rawptr"), s("mut"), x]) }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, o, t) => { let x = self.operand(body, o); let ft = o.ty(&body.local_decls, self.tcx); let fj = self.ty(ft); let tj = self.ty(*t); J::A(vec![s("cast"), s(format!("{:?}", k)), x, tj, fj]) }
            Rvalue::BinaryOp(op, b) => { let a = self.operand(body, &b.0); let c = self.operand(body, &b.1); let t = b.0.ty(&body.local_decls, self.tcx); let tj = self.ty(t); J::A(vec![s("bin"), s(format!("{:?}", op)), a, c, tj]) }
            Rvalue::UnaryOp(op, o) => { let a = self.operand(body, o); let t = o.ty(&body.local_decls, self.tcx); let tj = self.ty(t); J::A(vec![s("un"), s(format!("{:?}", op)), a, tj]) }
            Rvalue::Discriminant(p) => { let x = self.place(body, *p); J::A(vec![s("discr"), x]) }
            Rvalue::Aggregate(k, ops) => {
                let fs = ops.iter().map(|o| self.operand(body, o)).collect();
                let t = r.ty(&body.local_decls, self.tcx); let tj = self.ty(t);
                let (kn, var, act) = match &**k {
                    AggregateKind::Array(_) => ("array", J::Null, J::Null),
                    AggregateKind::Tuple => ("tuple", J::Null, J::Null),
                    AggregateKind::Adt(_, v, _, _, act) => ("adt", n(v.as_u32() as i128), match act { Some(f) => n(f.as_u32() as i128), None => J::Null }),
                    AggregateKind::Closure(..) => ("closure", J::Null, J::Null),
                    AggregateKind::RawPtr(..) => ("rawptr", J::Null, J::Null),
                    _ => ("other", J::Null, J::Null),
                };
                J::A(vec![s("agg"), s(kn), var, J::A(fs), tj, act])
            }
            Rvalue::CopyForDeref(p) => { let x = self.place(body, *p); J::A(vec![s("use"), J::A(vec![s("copy"), x])]) }
            Rvalue::Reborrow(_, _, p) => { let x = self.place(body, *p); J::A(vec![s("use"), J::A(vec![s("copy"), x])]) }
            Rvalue::WrapUnsafeBinder(o, _) => { let x = self.operand(body, o); J::A(vec![s("use"), x]) }
        }
    }
    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        if sp.is_dummy() { return J::Null; }
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![s(f), n(l.line as i128)])
    }
    fn unwind(&self, u: &UnwindAction) -> J {
        match u { UnwindAction::Cleanup(b) => n(b.as_u32() as i128), UnwindAction::Continue => s("continue"), UnwindAction::Unreachable => s("unreachable"), UnwindAction::Terminate(_) => s("terminate") }
    }
    fn body(&mut self, inst: Instance<'tcx>, id: &str) -> Option<J> {
        let tcx = self.tcx;
        let raw = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, raw.clone())) { Ok(b) => b, Err(_) => return None };
        let body = &body;
        let mut locals = vec![];
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.entry(p.local.as_u32()).or_insert(v.name.to_string()); } }
        }
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(J::A(vec![t, match names.get(&l.as_u32()) { Some(x) => s(x.clone()), None => J::Null }]));
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bb.statements {
                let l = self.loc(x.source_info.span);
                let j = match &x.kind {
                    StatementKind::Assign(b) => { let p = self.place(body, b.0); let r = self.rvalue(body, &b.1); J::A(vec![s("="), p, r, l]) }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(body, **place); J::A(vec![s("setdiscr"), p, n(variant_index.as_u32() as i128), l]) }
                    StatementKind::StorageLive(x) => J::A(vec![s("live"), n(x.as_u32() as i128)]),
                    StatementKind::StorageDead(x) => J::A(vec![s("dead"), n(x.as_u32() as i128)]),
                    StatementKind::Intrinsic(b) => match &**b {
                        NonDivergingIntrinsic::Assume(o) => { let x = self.operand(body, o); J::A(vec![s("assume"), x]) }
                        NonDivergingIntrinsic::CopyNonOverlapping(c) => { let a = self.operand(body, &c.src); let b2 = self.operand(body, &c.dst); let c2 = self.operand(body, &c.count); J::A(vec![s("copynonoverlap"), a, b2, c2, l]) }
                    },
                    _ => continue,
                };
                st.push(j);
            }
            let t = bb.terminator();
            let l = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), n(target.as_u32() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let tj = self.ty(dt);
                    let signed = matches!(dt.kind(), TyKind::Int(_));
                    let bits = tcx.layout_of(self.env.as_query_input(dt)).ok().map(|l| l.size.bits()).unwrap_or(64);
                    let v = targets.iter().map(|(val, b)| {
                        let vv: i128 = if signed && bits < 128 { let sh = 128 - bits as u32; ((val as i128) << sh) >> sh } else { val as i128 };
                        J::A(vec![n(vv), n(b.as_u32() as i128)]) }).collect();
                    J::A(vec![s("switch"), d, J::A(v), n(targets.otherwise().as_u32() as i128), tj])
                }
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![s("terminate")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let p = self.place(body, *place);
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let tj = self.ty(pt);
                    let di = self.drop_inst(pt);
                    J::A(vec![s("drop"), p, tj, di, n(target.as_u32() as i128), self.unwind(unwind), l])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func);
                    let a = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    let dp = self.place(body, *destination);
                    let al = self.loc(t.source_info.span);
                    J::A(vec![s("call"), f, J::A(a), dp, match target { Some(b) => n(b.as_u32() as i128), None => J::Null }, self.unwind(unwind), al])
                }
                TerminatorKind::TailCall { .. } => J::A(vec![s("other")]),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(body, cond);
                    let m = match &**msg { AssertKind::BoundsCheck { .. } => "bounds", AssertKind::Overflow(..) => "overflow", AssertKind::OverflowNeg(_) => "overflow", AssertKind::DivisionByZero(_) => "div0", AssertKind::RemainderByZero(_) => "rem0", _ => "other" };
                    let extra = match &**msg { AssertKind::BoundsCheck { len, index } => { let a = self.operand(body, len); let b = self.operand(body, index); J::A(vec![a, b]) } AssertKind::Overflow(op, a, b) => { let x = self.operand(body, a); let y = self.operand(body, b); J::A(vec![s(format!("{:?}", op)), x, y]) } _ => J::Null };
                    J::A(vec![s("assert"), c, J::B(*expected), s(m), extra, n(target.as_u32() as i128), self.unwind(unwind), l])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32() as i128)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), n(real_target.as_u32() as i128)]),
                _ => J::A(vec![s("other")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(bb.is_cleanup))]));
        }
        let d = inst.def_id();
        let kind = if is_body_shim(&inst.def) { "shim" } else if matches!(tcx.def_kind(d), DefKind::Closure) { "closure" } else { "fn" };
        let mut o = vec![
            ("id", s(id)), ("path", s(self.path(d))), ("krate", s(tcx.crate_name(d.krate).to_string())), ("local", J::B(d.is_local())), ("kind", s(kind)),
            ("argc", n(body.arg_count as i128)), ("loc", self.loc(body.span)),
        ];
        if let Some(sa) = body.spread_arg { o.push(("spread", n(sa.as_u32() as i128))); }
        if kind == "fn" {
            o.push(("vis", s(if tcx.visibility(d).is_public() { "pub" } else { "priv" })));
            o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
            o.push(("generic", J::B(tcx.generics_of(d).requires_monomorphization(tcx))));
            o.push(("abi", s(format!("{:?}", tcx.fn_sig(d).skip_binder().abi()))));
            if let Some(im) = tcx.impl_of_assoc(d) {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                o.push(("impl_self", s(self.ty_name(t))));
                if let Some(tr) = tcx.trait_impl_of_assoc(d).map(|im| tcx.impl_trait_ref(im).skip_binder()) { o.push(("impl_trait", s(with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))))); }
            }
            o.push(("reachable", J::B(d.as_local().map_or(false, |l| tcx.effective_visibilities(()).is_reachable(l)))));
        }
        o.push(("locals", J::A(locals)));
        o.push(("blocks", J::A(blocks)));
        Some(J::O(o))
    }
}

struct Cb { out: String, krate: String }
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string() != self.krate { return Compilation::Continue; }
        let inline: Vec<String> = std::env::var("MIRDUMP_INLINE").ok().map(|p| std::fs::read_to_string(p).unwrap().lines().map(|x| x.trim().to_string()).filter(|x| !x.is_empty() && !x.starts_with('#')).collect()).unwrap_or_default();
        let mut d = D { tcx, tys: HashMap::new(), ty_out: vec![], ty_queue: VecDeque::new(), insts: HashMap::new(), closures: Default::default(), queue: VecDeque::new(), inline, env: TypingEnv::fully_monomorphized(), statics: HashMap::new() };
        let mut out = String::from("{\"bodies\":[\n");
        let mut first = true;
        let mut roots = vec![];
        for l in tcx.mir_keys(()) {
            let did = l.to_def_id();
            if !matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) { continue; }
            if tcx.is_constructor(did) { continue; }
            roots.push(did);
        }
        let mut failed = vec![];
        for did in roots {
            let generic = tcx.generics_of(did).requires_monomorphization(tcx);
            d.env = if generic { TypingEnv::post_analysis(tcx, did) } else { TypingEnv::fully_monomorphized() };
            let args = ty::GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let inst = Instance::new_raw(did, args);
            let id = d.inst_id(inst);
            if !d.insts.contains_key(&id) { d.insts.insert(id.clone(), ()); d.queue.push_back((inst, d.env, id)); }
        }
        while let Some((i, env, id)) = d.queue.pop_front() {
            d.env = env;
            if d.insts.len() > 60000 { panic!("mirdump: too many instances"); }
            match d.body(i, &id) {
                Some(j) => { if !first { out.push_str(",\n") } first = false; j.w(&mut out); }
                None => failed.push(s(id)),
            }
            d.flush_tys();
        }
        d.env = TypingEnv::fully_monomorphized();
        // statics of the crate
        for l in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Static { mutability, .. } = tcx.def_kind(l) {
                let t = tcx.type_of(l).instantiate_identity().skip_norm_wip();
                let tj = d.ty(t);
                let p = d.path(l.to_def_id());
                d.statics.insert(p.clone(), J::A(vec![s(p), tj, J::B(mutability.is_mut())]));
            }
        }
        d.flush_tys();
        // trait impls of the crate: (trait, self type)
        let mut impls = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(l) {
                let tr = tcx.impl_trait_ref(l).skip_binder();
                impls.push(J::A(vec![s(d.path(tr.def_id)), s(d.ty_name(tr.self_ty())), s(format!("{:?}", tcx.impl_polarity(l)))]));
            }
        }
        out.push_str("\n],\"types\":");
        J::A(std::mem::take(&mut d.ty_out)).w(&mut out);
        out.push_str(",\"statics\":");
        J::A(d.statics.values().cloned().collect()).w(&mut out);
        out.push_str(",\"impls\":");
        J::A(impls).w(&mut out);
        out.push_str(",\"failed\":");
        J::A(failed).w(&mut out);
        out.push_str("}\n");
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, out).unwrap();
        std::fs::rename(&tmp, &self.out).unwrap();
        let _ = DUMMY_SP;
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER calls: <wrapper> <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let krate = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "mortal".into());
    let is_crate = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == krate);
    if is_crate && !out.is_empty() {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Cdebug-assertions=off".into());
        args.push("-Coverflow-checks=on".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out, krate });
    } else {
        struct N; impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
