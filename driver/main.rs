//! rustc driver: dumps the resolved, type-checked MIR of the analysed crate as JSON.
//!
//! Used as RUSTC_WRAPPER.  For crates named in VP_DUMP_CRATES it overrides `mir_built` to keep a copy
//! of every body as built (before borrow checking, coroutine lowering and optimisation), and after
//! analysis writes every local function, instantiated for every generic context in which another local
//! function uses it, with callees resolved and constants evaluated.
#![feature(rustc_private)]
#![feature(exitcode_exit_method)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name, PrintTraitRefExt};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv, Unnormalized};
use rustc_span::Span;
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J { Null, B(bool), N(i128), S(String), A(Vec<J>), O(Vec<(&'static str, J)>) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => { let _ = write!(o, "{b}"); }
            J::N(n) => { let _ = write!(o, "{n}"); }
            J::S(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } let _ = write!(o, "\"{k}\":"); x.w(o); }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: impl TryInto<i128>) -> J { J::N(x.try_into().ok().unwrap_or(-1)) }

// ---------------------------------------------------------------- dumper
type Key<'tcx> = (Option<DefId>, DefId, GenericArgsRef<'tcx>);

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    bodies: HashMap<LocalDefId, Body<'tcx>>,
    ids: HashMap<Key<'tcx>, usize>,
    queue: VecDeque<(usize, Key<'tcx>)>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyj: Vec<J>,
    adts: HashMap<DefId, usize>,
    adtj: Vec<J>,
    cur_env: Option<DefId>,
}

fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    with_resolve_crate_name!(with_no_trimmed_paths!(tcx.def_path_str(d)))
}

impl<'tcx> D<'tcx> {
    fn env(&self, owner: Option<DefId>) -> TypingEnv<'tcx> {
        match owner {
            None => TypingEnv::fully_monomorphized(),
            Some(d) => TypingEnv::post_analysis(self.tcx, d),
        }
    }
    fn tenv(&self) -> TypingEnv<'tcx> { self.env(self.cur_env) }

    fn span(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        (format!("{}", lo.file.name.prefer_local_unconditionally()), lo.line)
    }

    fn inst(&mut self, def: DefId, args: GenericArgsRef<'tcx>) -> Option<usize> {
        let tcx = self.tcx;
        let has = if let Some(l) = def.as_local() { self.bodies.contains_key(&l) } else { self.ext_body(def) };
        if !has { return None; }
        let args = tcx.erase_and_anonymize_regions(args);
        if args.has_escaping_bound_vars() || args.has_infer() { return None; }
        let owner = if args.has_param() || args.has_aliases() { self.cur_env } else { None };
        let key = (owner, def, args);
        if let Some(i) = self.ids.get(&key) { return Some(*i); }
        // bound on polymorphic recursion
        if self.ids.len() > 60000 { return None; }
        let i = self.ids.len();
        self.ids.insert(key, i);
        self.queue.push_back((i, key));
        Some(i)
    }

    /// bodies of small std combinators are exported too, as a fallback for combinators without a model
    fn ext_body(&self, def: DefId) -> bool {
        let tcx = self.tcx;
        if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) { return false; }
        let c = tcx.crate_name(def.krate);
        if c.as_str() != "core" { return false; }
        let p = tcx.def_path(def).to_string_no_crate_verbose();
        let ok = ["::option::", "::result::", "::convert::", "::bool::", "::cmp::"].iter().any(|m| p.starts_with(m));
        ok && tcx.is_mir_available(def) && tcx.intrinsic(def).is_none()
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tys.get(&t) { return n(*i); }
        let i = self.tyj.len();
        self.tys.insert(t, i);
        self.tyj.push(J::Null);
        let tcx = self.tcx;
        let str_ = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{t}")));
        let mut o = vec![("s", s(str_))];
        match t.kind() {
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("path", s(path(tcx, def.did()))));
                o.push(("adt", n(self.adt(def.did()))));
                let a = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Ref(_, t, m) => {
                o.push(("k", s("ref")));
                o.push(("t", self.ty(*t)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", s("ptr")));
                o.push(("t", self.ty(*t)));
                o.push(("mut", J::B(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("args", J::A(a)));
            }
            ty::Slice(t) => { o.push(("k", s("slice"))); o.push(("t", self.ty(*t))); }
            ty::Array(t, l) => {
                o.push(("k", s("array"))); o.push(("t", self.ty(*t)));
                if let Some(l) = l.try_to_target_usize(tcx) { o.push(("len", n(l))); }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                let i = self.inst(*d, args);
                o.push(("inst", i.map(n).unwrap_or(J::Null)));
                o.push(("kind", s(format!("{:?}", args.as_closure().kind()))));
            }
            ty::Coroutine(d, args) => {
                o.push(("k", s("coroutine")));
                let i = self.inst(*d, args);
                o.push(("inst", i.map(n).unwrap_or(J::Null)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars().unwrap_or_else(|| tcx.instantiate_bound_regions_with_erased(*args));
                let c = self.callee(*d, args);
                o.push(("callee", c));
            }
            ty::Param(p) => { o.push(("k", s("param"))); o.push(("name", s(p.name.to_string()))); }
            ty::Dynamic(preds, ..) => {
                o.push(("k", s("dyn")));
                if let Some(d) = preds.principal_def_id() { o.push(("path", s(path(tcx, d)))); }
            }
            ty::Str => o.push(("k", s("str"))),
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.tyj[i] = J::O(o);
        n(i)
    }

    fn adt(&mut self, d: DefId) -> usize {
        if let Some(i) = self.adts.get(&d) { return *i; }
        let tcx = self.tcx;
        let i = self.adtj.len();
        self.adts.insert(d, i);
        self.adtj.push(J::Null);
        let def = tcx.adt_def(d);
        let discrs: Vec<i128> = if def.is_enum() { def.discriminants(tcx).map(|(_, d)| d.val as i128).collect() } else { vec![0] };
        let vs = def.variants().iter().enumerate().map(|(vi, v)| {
            let fs = v.fields.iter().map(|f| J::O(vec![
                ("name", s(f.name.to_string())),
                ("pub", J::B(f.vis.is_public())),
                ("ty", s(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))))),
            ])).collect();
            J::O(vec![("name", s(v.name.to_string())), ("discr", n(*discrs.get(vi).unwrap_or(&(vi as i128)))), ("fields", J::A(fs))])
        }).collect();
        let (f, l) = if d.is_local() { self.span(tcx.def_span(d)) } else { (String::new(), 0) };
        self.adtj[i] = J::O(vec![
            ("path", s(path(tcx, d))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("local", J::B(d.is_local())),
            ("pub", J::B(tcx.visibility(d).is_public())),
            ("file", s(f)), ("line", n(l)),
            ("variants", J::A(vs)),
        ]);
        i
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![("path", s(path(tcx, d)))];
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("args", J::A(targs)));
        o.push(("crate", s(tcx.crate_name(d.krate).to_string())));
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, v) = match tcx.def_kind(parent) {
                DefKind::Variant => { let a = tcx.parent(parent); (a, tcx.adt_def(a).variant_index_with_id(parent).as_usize()) }
                _ => (parent, 0),
            };
            o.push(("ctor", J::A(vec![n(self.adt(adt)), n(v)])));
            return J::O(o);
        }
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(path(tcx, t))));
            o.push(("method", s(tcx.item_name(d).to_string())));
            o.push(("trait_local", J::B(t.is_local())));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(t) = tcx.impl_opt_trait_ref(im) {
                let td = t.skip_binder().def_id;
                o.push(("trait", s(path(tcx, td))));
                o.push(("method", s(tcx.item_name(d).to_string())));
                o.push(("trait_local", J::B(td.is_local())));
            }
        }
        // output type
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
            let out = tcx.instantiate_bound_regions_with_erased(sig.output());
            let te = self.tenv();
            if !out.has_escaping_bound_vars() {
                if let Ok(t) = tcx.try_normalize_erasing_regions(te, Unnormalized::new_wip(out)) { let t = self.ty(t); o.push(("out", t)); }
            }
        }
        if args.has_infer() || args.has_escaping_bound_vars() { o.push(("kind", s("unresolved"))); return J::O(o); }
        let args = tcx.erase_and_anonymize_regions(args);
        let te = self.tenv();
        match Instance::try_resolve(tcx, te, d, args) {
            Ok(Some(inst)) => {
                match inst.def {
                    InstanceKind::Item(rd) => {
                        o.push(("kind", s("item")));
                        o.push(("rpath", s(path(tcx, rd))));
                        if let Some(im) = tcx.impl_of_assoc(rd) {
                            if tcx.is_automatically_derived(im) { o.push(("derived", J::B(true))); }
                            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                            o.push(("impl_self", s(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{st}"))))));
                        }
                        if let Some(i) = self.inst(rd, inst.args) { o.push(("inst", n(i))); }
                        o.push(("rlocal", J::B(rd.is_local())));
                        let ra: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
                        o.push(("rargs", J::A(ra)));
                        // blanket conversions: resolve what they forward to
                        self.forward(rd, inst.args, &mut o);
                    }
                    InstanceKind::Virtual(..) => o.push(("kind", s("virtual"))),
                    InstanceKind::Shim(ShimKind::Clone(..)) => o.push(("kind", s("cloneshim"))),
                    InstanceKind::Shim(..) => o.push(("kind", s("shim"))),
                    InstanceKind::Intrinsic(..) | InstanceKind::LlvmIntrinsic(..) => o.push(("kind", s("intrinsic"))),
                }
            }
            _ => o.push(("kind", s("unresolved"))),
        }
        J::O(o)
    }

    /// `Into::into`, `TryInto::try_into`, `ToString::to_string`, `str::parse` ... forward to another trait
    /// method; resolve that one.
    fn forward(&mut self, rd: DefId, rargs: GenericArgsRef<'tcx>, o: &mut Vec<(&'static str, J)>) {
        let tcx = self.tcx;
        if rd.is_local() { return; }
        let p = path(tcx, rd);
        let tys: Vec<Ty<'tcx>> = rargs.types().collect();
        let find = |tr: &str| -> Option<DefId> {
            tcx.all_traits_including_private().find(|t| path(tcx, *t) == tr)
        };
        let meth = |t: DefId, m: &str| tcx.associated_items(t).filter_by_name_unhygienic(rustc_span::Symbol::intern(m)).next().map(|a| a.def_id);
        let mk = |d: &mut Self, m: DefId, a: &[Ty<'tcx>]| {
            let v: Vec<ty::GenericArg<'tcx>> = a.iter().map(|t| ty::GenericArg::from(*t)).collect(); let args = tcx.mk_args(&v);
            d.callee(m, args)
        };
        if p.ends_with("::into") && p.contains("Into<") && !p.contains("TryInto") && tys.len() == 2 {
            if let Some(m) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")).and_then(|t| meth(t, "from")) {
                let j = mk(self, m, &[tys[1], tys[0]]); o.push(("fwd", j));
            }
        } else if p.ends_with("::try_into") && tys.len() == 2 {
            if let Some(m) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("TryFrom")).and_then(|t| meth(t, "try_from")) {
                let j = mk(self, m, &[tys[1], tys[0]]); o.push(("fwd", j));
            }
        } else if p.ends_with("::try_from") && tys.len() == 2 && p.starts_with("<T as ") {
            if let Some(m) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")).and_then(|t| meth(t, "from")) {
                let j = mk(self, m, &[tys[0], tys[1]]); o.push(("fwd", j));
            }
        } else if p.ends_with("::to_string") && !tys.is_empty() {
            if let Some(m) = find("std::fmt::Display").and_then(|t| meth(t, "fmt")) {
                let j = mk(self, m, &[tys[0]]); o.push(("fwd", j));
            }
        } else if p.ends_with("::from_residual") && p.contains("Result") && tys.len() == 3 {
            if let Some(m) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")).and_then(|t| meth(t, "from")) {
                let j = mk(self, m, &[tys[2], tys[1]]); o.push(("fwd", j));
            }
        } else if (p.ends_with("::unwrap_or_default") || p == "std::mem::take") && !tys.is_empty() {
            if let Some(m) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Default")).and_then(|t| meth(t, "default")) {
                let j = mk(self, m, &[tys[0]]); o.push(("fwd", j));
            }
        } else if p.ends_with("str>::parse") && !tys.is_empty() {
            if let Some(m) = find("std::str::FromStr").and_then(|t| meth(t, "from_str")) {
                let j = mk(self, m, &[tys[0]]); o.push(("fwd", j));
            }
        } else if p == "std::cmp::PartialEq::ne" && tys.len() == 2 {
            if let Some(m) = find("std::cmp::PartialEq").and_then(|t| meth(t, "eq")) {
                let j = mk(self, m, &[tys[0], tys[1]]); o.push(("fwd", j));
            }
        }
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let te = self.tenv();
        let ct = c.const_;
        let t = ct.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| tcx.instantiate_bound_regions_with_erased(*args));
            let cal = self.callee(*d, args);
            return J::O(vec![("fn", cal)]);
        }
        let mut name = None;
        if let Const::Unevaluated(u, _) = ct {
            name = Some(path(tcx, u.def));
            if u.args.has_param() || u.args.has_aliases() {
                let st: Vec<J> = u.args.types().map(|x| self.ty(x)).collect();
                if ct.eval(tcx, te, rustc_span::DUMMY_SP).is_err() || u.promoted.is_none() {
                    if let Ok(v) = ct.eval(tcx, te, rustc_span::DUMMY_SP) { return self.cval(v, t, name); }
                    let tj = self.ty(t);
                    return J::O(vec![("assoc", s(path(tcx, u.def))), ("args", J::A(st)), ("ty", tj)]);
                }
            }
        }
        match ct.eval(tcx, te, rustc_span::DUMMY_SP) {
            Ok(v) => self.cval(v, t, name),
            Err(_) => { let tj = self.ty(t); J::O(vec![("opaque", s(name.unwrap_or_else(|| format!("{ct:?}")))), ("ty", tj)]) }
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, name: Option<String>) -> J {
        let tcx = self.tcx;
        let tj = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", tj)];
        if let Some(nm) = &name { o.push(("name", s(nm.clone()))); }
        match t.kind() {
            ty::Ref(_, inner, _) => {
                match inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                            return J::O(o);
                        }
                    }
                    ty::Slice(e) if *e == tcx.types.u8 => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect())));
                            return J::O(o);
                        }
                    }
                    _ => {}
                }
                if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    let aid = prov.alloc_id();
                    match tcx.global_alloc(aid) {
                        interpret::GlobalAlloc::Static(d) => { o.push(("static", s(path(tcx, d)))); return J::O(o); }
                        interpret::GlobalAlloc::Memory(a) => {
                            if let ty::Array(e, _) = inner.kind() {
                                if *e == tcx.types.u8 {
                                    let a = a.inner();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..a.len());
                                    o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect())));
                                    return J::O(o);
                                }
                            }
                            if inner.is_sized(tcx, self.tenv()) {
                                let sub = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, *inner, None);
                                return sub;
                            }
                        }
                        _ => {}
                    }
                }
            }
            ty::Int(_) => {
                if let Some(si) = v.try_to_scalar_int() { o.push(("int", n(si.to_int(si.size())))); return J::O(o); }
            }
            ty::Uint(_) | ty::Char => {
                if let Some(si) = v.try_to_scalar_int() { o.push((if matches!(t.kind(), ty::Char) {"char"} else {"int"}, n(si.to_uint(si.size())))); return J::O(o); }
            }
            ty::Bool => {
                if let Some(b) = v.try_to_bool() { o.push(("bool", J::B(b))); return J::O(o); }
            }
            ty::Adt(def, _) if !def.is_union() => {
                if !t.has_param() {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<J> = dc.fields.iter().map(|(v, t)| self.cval(*v, *t, None)).collect();
                        let a = self.adt(def.did());
                        o.push(("adtv", J::A(vec![n(a), n(dc.variant.map(|x| x.as_usize()).unwrap_or(0)), J::A(fs)])));
                        return J::O(o);
                    }
                }
                if matches!(v, ConstValue::ZeroSized) { o.push(("zst", J::B(true))); return J::O(o); }
            }
            ty::Array(..) | ty::Tuple(..) => {
                if !t.has_param() {
                    if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                        let fs: Vec<J> = dc.fields.iter().map(|(v, t)| self.cval(*v, *t, None)).collect();
                        o.push(("tuple", J::A(fs)));
                        return J::O(o);
                    }
                }
            }
            ty::Closure(..) => { o.push(("zst", J::B(true))); return J::O(o); }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) { o.push(("zst", J::B(true))); return J::O(o); }
        o.push(("opaque", s(name.unwrap_or_else(|| format!("const:{t}")))));
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if def.is_enum() || !def.variants().is_empty() { def.variants()[v].fields[f].name.to_string() } else { f.index().to_string() }
                        }
                        _ => f.index().to_string(),
                    };
                    J::A(vec![s("f"), n(f.index()), s(nm)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.index())]),
                ProjectionElem::ConstantIndex { offset, from_end, min_length } => J::A(vec![s("ci"), n(offset), J::B(from_end), n(min_length)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![s("ss"), n(from), n(to), J::B(from_end)]),
                ProjectionElem::Downcast(_, v) => {
                    let nm = match pt.ty.kind() { ty::Adt(def, _) => def.variants()[v].name.to_string(), _ => v.index().to_string() };
                    J::A(vec![s("v"), n(v.index()), s(nm)])
                }
                _ => J::A(vec![s("x")]),
            };
            out.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![n(p.local.index()), J::A(out)])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c)]),
            _ => J::A(vec![s("rt")]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, c) => {
                let l = c.try_to_target_usize(tcx);
                J::A(vec![s("repeat"), self.operand(body, o), l.map(n).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, bk, p) => J::A(vec![s(match bk { BorrowKind::Mut { .. } => "refmut", BorrowKind::Fake(_) => "fake", _ => "ref" }), self.place(body, p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s(match k { RawPtrKind::Mut => "refmut", _ => "ref" }), self.place(body, p)]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s(if m.is_mut() { "reborrowmut" } else { "reborrow" }), self.place(body, p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(path(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{k:?}");
                let tj = self.ty(*t);
                J::A(vec![s("cast"), s(k), self.operand(body, o), tj])
            }
            Rvalue::BinaryOp(op, b) => J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(body, &b.0), self.operand(body, &b.1)]),
            Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(body, o)]),
            Rvalue::Discriminant(p) => { let t = p.ty(body, tcx).ty; let tj = self.ty(t); J::A(vec![s("discr"), self.place(body, p), tj]) }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(body, p)])]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![s("use"), self.operand(body, o)]),
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("array")]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, ..) => J::A(vec![s("adt"), n(self.adt(*d)), n(vi.index())]),
                    AggregateKind::Closure(d, a) => { let i = self.inst(*d, a); J::A(vec![s("closure"), i.map(n).unwrap_or(J::Null)]) }
                    AggregateKind::Coroutine(d, a) => { let i = self.inst(*d, a); J::A(vec![s("coroutine"), i.map(n).unwrap_or(J::Null)]) }
                    AggregateKind::CoroutineClosure(d, a) => { let i = self.inst(*d, a); J::A(vec![s("coroutineclosure"), i.map(n).unwrap_or(J::Null)]) }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                };
                J::A(vec![s("agg"), kj, J::A(v)])
            }
        }
    }

    fn dump_body(&mut self, id: usize, key: Key<'tcx>) -> J {
        let tcx = self.tcx;
        let (owner, def, args) = key;
        self.cur_env = owner;
        let te = self.env(owner);
        let src: Body<'tcx> = match def.as_local() {
            Some(l) => self.bodies[&l].clone(),
            None => tcx.optimized_mir(def).clone(),
        };
        let body: Body<'tcx> = match tcx.try_instantiate_and_normalize_erasing_regions(args, te, EarlyBinder::bind(tcx, src.clone())) {
            Ok(b) => b,
            Err(_) => return J::O(vec![("id", n(id)), ("path", s(path(tcx, def))), ("failed", J::B(true))]),
        };
        let locals: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let (file, line) = self.span(src.span);
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            if bb.is_cleanup { blocks.push(J::Null); continue; }
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let r = self.rvalue(&body, r);
                        st.push(J::A(vec![self.place(&body, p), r]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let vn = match place.ty(&body, tcx).ty.kind() { ty::Adt(d, _) => d.variants()[*variant_index].name.to_string(), _ => variant_index.index().to_string() };
                        st.push(J::A(vec![self.place(&body, place), J::A(vec![s("setdiscr"), n(variant_index.index()), s(vn)])]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let (_, tl) = self.span(t.source_info.span);
            let b = |x: BasicBlock| n(x.index());
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), b(*target)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), b(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), b(*real_target)]),
                TerminatorKind::Drop { place, target, .. } => { let tt = place.ty(&body, tcx).ty; let tj = self.ty(tt); J::A(vec![s("drop"), b(*target), self.place(&body, place), tj]) }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body, tcx);
                    let dtj = self.ty(dt);
                    let arms = targets.iter().map(|(v, t)| J::A(vec![n(v as i128), b(t)])).collect();
                    J::A(vec![s("switch"), self.operand(&body, discr), J::A(arms), b(targets.otherwise()), dtj])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = match func.const_fn_def() {
                        Some((d, a)) => self.callee(d, a),
                        None => J::O(vec![("ptr", self.operand(&body, func))]),
                    };
                    let a = args.iter().map(|x| self.operand(&body, &x.node)).collect();
                    let at = args.iter().map(|x| { let t = x.node.ty(&body, tcx); self.ty(t) }).collect();
                    let dt = destination.ty(&body, tcx).ty;
                    let dtj = self.ty(dt);
                    let exp = fn_span.from_expansion();
                    J::A(vec![s("call"), f, J::A(a), self.place(&body, destination), target.map(|x| b(x)).unwrap_or(J::Null), dtj, J::A(at), J::B(exp)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let m = m.split(|c: char| c == '(' || c == '{' || c == ' ').next().unwrap_or("").to_string();
                    J::A(vec![s("assert"), self.operand(&body, cond), J::B(*expected), b(*target), s(m)])
                }
                TerminatorKind::Yield { value, resume, resume_arg, .. } => J::A(vec![s("yield"), self.operand(&body, value), b(*resume), self.place(&body, resume_arg)]),
                k => J::A(vec![s("other"), s(format!("{k:?}").chars().take(60).collect::<String>())]),
            };
            blocks.push(J::A(vec![J::A(st), tj, n(tl)]));
        }
        let kind = if tcx.is_closure_like(def) { if tcx.is_coroutine(def) { "coroutine" } else { "closure" } } else { "fn" };
        let targs: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        J::O(vec![
            ("id", n(id)),
            ("path", s(path(tcx, def))),
            ("kind", s(kind)),
            ("local", J::B(def.is_local())),
            ("args", J::A(targs)),
            ("owner", owner.map(|o| s(path(tcx, o))).unwrap_or(J::Null)),
            ("argc", n(body.arg_count)),
            ("spread", body.spread_arg.map(|l| n(l.index())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("file", s(file)),
            ("line", n(line)),
            ("blocks", J::A(blocks)),
        ])
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let bodies: HashMap<LocalDefId, Body<'tcx>> = BODIES.with(|b| unsafe { std::mem::transmute(std::mem::take(&mut *b.borrow_mut())) });
    let mut d = D { tcx, bodies, ids: HashMap::new(), queue: VecDeque::new(), tys: HashMap::new(), tyj: vec![], adts: HashMap::new(), adtj: vec![], cur_env: None };
    let mut keys: Vec<LocalDefId> = d.bodies.keys().copied().collect();
    keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
    keys.sort_by_key(|k| tcx.def_path(k.to_def_id()).to_string_no_crate_verbose());
    let mut roots = vec![];
    for k in keys {
        let def = k.to_def_id();
        if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) { continue; }
        let args = ty::GenericArgs::identity_for_item(tcx, def);
        let args = tcx.erase_and_anonymize_regions(args);
        d.cur_env = Some(def);
        let Some(i) = d.inst(def, args) else { continue };
        let mut o = vec![("id", n(i)), ("path", s(path(tcx, def)))];
        o.push(("name", s(tcx.item_name(def).to_string())));
        o.push(("pub", J::B(tcx.visibility(def).is_public())));
        o.push(("reach", J::B(tcx.effective_visibilities(()).is_reachable(k))));
        o.push(("async", J::B(tcx.asyncness(def).is_async())));
        let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip();
        let sig = tcx.instantiate_bound_regions_with_erased(sig);
        let te = d.tenv();
        let norm = |t: Ty<'tcx>| tcx.try_normalize_erasing_regions(te, Unnormalized::new_wip(t)).unwrap_or(t);
        let ins: Vec<J> = sig.inputs().iter().map(|t| d.ty(norm(*t))).collect();
        o.push(("inputs", J::A(ins)));
        let oj = d.ty(norm(sig.output()));
        o.push(("output", oj));
        o.push(("unsafe", J::B(sig.safety().is_unsafe())));
        let (f, l) = d.span(tcx.def_span(def));
        o.push(("file", s(f)));
        o.push(("line", n(l)));
        if let Some(im) = tcx.impl_of_assoc(def) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", s(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{st}"))))));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("trait", s(path(tcx, tr.def_id))));
                o.push(("trait_ref", s(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))))));
            }
            o.push(("derived", J::B(tcx.is_automatically_derived(im))));
        } else if let Some(t) = tcx.trait_of_assoc(def) {
            o.push(("in_trait", s(path(tcx, t))));
        }
        roots.push(J::O(o));
    }
    // associated consts with values (typed parameter keys)
    let mut consts = vec![];
    let mut impls = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let def = id.to_def_id();
        match tcx.def_kind(def) {
            DefKind::AssocConst { .. } | DefKind::Const { .. } => {
                d.cur_env = None;
                let g = tcx.generics_of(def);
                if g.count() > 0 { continue; }
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                if let Some(im) = tcx.impl_of_assoc(def) { let _ = im; }
                if tcx.trait_of_assoc(def).is_some() { continue; }
                if let Ok(v) = tcx.const_eval_poly(def) {
                    let v = d.cval(v, t, None);
                    let st = tcx.impl_of_assoc(def).map(|im| s(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip()))))).unwrap_or(J::Null);
                    let tr = tcx.impl_of_assoc(def).and_then(|im| tcx.impl_opt_trait_ref(im)).map(|t| s(path(tcx, t.skip_binder().def_id))).unwrap_or(J::Null);
                    consts.push(J::O(vec![("path", s(path(tcx, def))), ("name", s(tcx.item_name(def).to_string())), ("self", st), ("trait", tr), ("value", v)]));
                }
            }
            DefKind::Impl { .. } => {
                let st = with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", tcx.type_of(def).instantiate_identity().skip_norm_wip())));
                let (trp, trs) = match tcx.impl_opt_trait_ref(def) {
                    Some(t) => { let t = t.instantiate_identity().skip_norm_wip(); (s(path(tcx, t.def_id)), s(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t.print_only_trait_path()))))) }
                    None => (J::Null, J::Null),
                };
                let items: Vec<J> = tcx.associated_item_def_ids(def).iter().map(|i| J::A(vec![s(path(tcx, *i)), J::B(tcx.visibility(*i).is_public())])).collect();
                let (f, l) = d.span(tcx.def_span(def));
                impls.push(J::O(vec![("self", s(st)), ("trait", trp), ("trait_ref", trs), ("derived", J::B(tcx.is_automatically_derived(def))), ("items", J::A(items)), ("file", s(f)), ("line", n(l))]));
            }
            DefKind::Struct | DefKind::Enum => { d.adt(def); }
            _ => {}
        }
    }
    let mut bj = vec![];
    while let Some((id, key)) = d.queue.pop_front() {
        let j = d.dump_body(id, key);
        bj.push(j);
    }
    let doc = J::O(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("roots", J::A(roots)),
        ("consts", J::A(consts)),
        ("impls", J::A(impls)),
        ("bodies", J::A(bj)),
        ("types", J::A(d.tyj)),
        ("adts", J::A(d.adtj)),
    ]);
    let mut o = String::new();
    doc.w(&mut o);
    std::fs::create_dir_all(out).unwrap();
    let tmp = format!("{out}/{}.json.tmp", tcx.crate_name(LOCAL_CRATE));
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, format!("{out}/{}.json", tcx.crate_name(LOCAL_CRATE))).unwrap();
}

struct Cb { out: String }
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.trimmed_def_paths = false;
        config.override_queries = Some(|_s, p| {
            p.queries.mir_built = |tcx, def| {
                let r = (rustc_interface::DEFAULT_QUERY_PROVIDERS.queries.mir_built)(tcx, def);
                let b = r.borrow().clone();
                BODIES.with(|m| m.borrow_mut().insert(def, unsafe { std::mem::transmute::<Body<'_>, Body<'static>>(b) }));
                r
            };
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if tcx.dcx().has_errors().is_some() { return rustc_driver::Compilation::Continue; }
        dump(tcx, &self.out);
        rustc_driver::Compilation::Continue
    }
}
struct Plain;
impl rustc_driver::Callbacks for Plain {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let out = std::env::var("VP_DUMP_DIR").unwrap_or_default();
    let names = std::env::var("VP_DUMP_CRATES").unwrap_or_default();
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let want = !out.is_empty() && names.split(',').any(|x| x == name) && !args.iter().any(|a| a == "--print" || a.starts_with("--print="));
    let code = rustc_driver::catch_with_exit_code(|| {
        if want {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Plain);
        }
    });
    code.exit_process()
}
