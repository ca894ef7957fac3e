//! Dumps the MIR of the crate under analysis, with callees resolved, as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`. For every function of the
//! crate ("root"), generic parameters are replaced by representative concrete types chosen from
//! their trait bounds, and the bodies of everything it can reach inside the crate (plus the
//! small combinators of core/alloc/std) are dumped with all callees resolved for these types.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{PrintTraitRefExt, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, EarlyBinder, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashSet, VecDeque};

macro_rules! full { ($e:expr) => { with_resolve_crate_name!(with_no_visible_paths!($e)) }; }

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if tcx.crate_name(LOCAL_CRATE).as_str() == std::env::var("FACTS_CRATE").unwrap_or("zarr".into()) {
            dump(tcx);
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) { args.remove(1); }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    args.push("-Coverflow-checks=on".into());
    args.push("-Cdebug-assertions=on".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

fn pth(tcx: TyCtxt<'_>, d: DefId) -> String { full!(tcx.def_path_str(d)) }
fn tys(t: Ty<'_>) -> String { full!(format!("{}", t)) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    queue: VecDeque<(String, Instance<'tcx>, Option<Promoted>)>,
    seen: HashSet<String>,
    out: BTreeMap<String, J>,
}

/// The element types of the crate: the self types of the impls of `ReflectedType`.
fn elems(tcx: TyCtxt<'_>) -> Vec<(String, Ty<'_>)> {
    let Some(t) = tcx.hir_crate_items(()).definitions().map(|i| i.to_def_id())
        .find(|d| matches!(tcx.def_kind(*d), DefKind::Trait) && tcx.item_name(*d).as_str() == "ReflectedType") else { return vec![] };
    let mut v: Vec<(String, Ty<'_>)> = tcx.all_impls(t).map(|i| {
        let ty = tcx.type_of(i).instantiate_identity().skip_norm_wip();
        (tys(ty).rsplit("::").next().unwrap_or("").to_string(), ty)
    }).collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

fn dump(tcx: TyCtxt<'_>) {
    let path = std::env::var("FACTS_OUT").expect("FACTS_OUT");
    let all = elems(tcx);
    let main = all.iter().find(|(n, _)| n == "i32").map(|x| x.1).unwrap_or(tcx.types.i32);
    dump_elem(tcx, main, false, &path);
    if std::env::var("FACTS_ELEMS").is_ok() {
        for (n, t) in &all {
            if *t != main { dump_elem(tcx, *t, true, &format!("{}.{}", path, n)); }
        }
    }
}

/// `only`: just the functions that are generic in the element type.
fn dump_elem<'tcx>(tcx: TyCtxt<'tcx>, elem: Ty<'tcx>, only: bool, path: &str) {
    let mut roots = vec![];
    let mut all: BTreeMap<String, String> = BTreeMap::new();
    for &ld in tcx.mir_keys(()) {
        let d = ld.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { continue; }
        let (args, env, how) = root_args(tcx, d, elem);
        if only && !how.split(',').any(|h| h.ends_with(&format!("={}", tys(elem)))) { continue; }
        let mut cx = Cx { tcx, env, queue: VecDeque::new(), seen: HashSet::new(), out: BTreeMap::new() };
        let inst = match Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) if i.def_id() == d => i,
            _ => Instance::new_raw(d, args),
        };
        let key = cx.enqueue(inst);
        cx.run();
        let mut bodies = vec![];
        // Bodies are shared between roots when their keys and contents agree.
        for (k, v) in std::mem::take(&mut cx.out) {
            let mut s = String::new();
            v.write(&mut s);
            match all.get(&k) {
                Some(o) if *o == s => bodies.push(k),
                Some(_) => {
                    let nk = format!("{}@@{}", k, key);
                    all.insert(nk.clone(), s);
                    bodies.push(nk);
                }
                None => { all.insert(k.clone(), s); bodies.push(k); }
            }
        }
        let assoc = tcx.opt_associated_item(d);
        roots.push(J::O(vec![
            ("path", pth(tcx, d).into()),
            ("key", key.into()),
            ("name", tcx.item_name(d).to_string().into()),
            ("public", tcx.visibility(d).is_public().into()),
            ("impl_trait", tcx.opt_associated_item(d).and_then(|_| trait_of_impl(tcx, d)).into()),
            ("impl_self", assoc.and_then(|_| impl_self(tcx, d)).into()),
            ("trait_default", tcx.trait_of_assoc(d).map(|t| pth(tcx, t)).into()),
            ("generic", how.into()),
            ("span", span(tcx, tcx.def_span(d)).into()),
            ("args_len", tcx.generics_of(d).count().into()),
            ("bodies", bodies.into()),
        ]));
    }
    // Types: ADTs of the crate with variants and fields.
    let mut adts = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            let adt = tcx.adt_def(d);
            let vs: Vec<J> = adt.variants().iter().map(|v| J::O(vec![
                ("name", v.name.to_string().into()),
                ("fields", v.fields.iter().map(|f| J::O(vec![
                    ("name", f.name.to_string().into()),
                    ("ty", tys(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()).into()),
                    ("public", f.vis.is_public().into()),
                ])).collect::<Vec<J>>().into()),
            ])).collect();
            adts.push(J::O(vec![("path", pth(tcx, d).into()), ("enum", adt.is_enum().into()), ("variants", vs.into())]));
        }
    }
    let mut o = String::new();
    o.push_str("{\"crate\":\"");
    o.push_str(tcx.crate_name(LOCAL_CRATE).as_str());
    o.push_str("\",\"roots\":");
    J::A(roots).write(&mut o);
    o.push_str(",\"adts\":");
    J::A(adts).write(&mut o);
    o.push_str(",\"bodies\":{");
    for (i, (k, v)) in all.iter().enumerate() {
        if i > 0 { o.push_str(",\n"); }
        J::S(k.clone()).write(&mut o);
        o.push(':');
        o.push_str(v);
    }
    o.push_str("}}\n");
    std::fs::write(path, o).unwrap();
}

fn impl_of(tcx: TyCtxt<'_>, d: DefId) -> Option<DefId> {
    let p = tcx.opt_parent(d)?;
    matches!(tcx.def_kind(p), DefKind::Impl { .. }).then_some(p)
}
fn trait_of_impl(tcx: TyCtxt<'_>, d: DefId) -> Option<String> {
    let p = impl_of(tcx, d)?;
    if !matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true }) { return None; }
    Some(full!(format!("{}", tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip().print_only_trait_path())))
}
fn impl_self(tcx: TyCtxt<'_>, d: DefId) -> Option<String> {
    let p = impl_of(tcx, d)?;
    Some(tys(tcx.type_of(p).instantiate_identity().skip_norm_wip()))
}

fn span(tcx: TyCtxt<'_>, s: rustc_span::Span) -> String {
    let s = s.source_callsite();
    let sm = tcx.sess.source_map();
    let lo = sm.lookup_char_pos(s.lo());
    format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
}

/// Find a local ADT by name.
fn local_adt<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Option<DefId> {
    tcx.hir_crate_items(()).definitions().map(|i| i.to_def_id())
        .find(|d| matches!(tcx.def_kind(*d), DefKind::Struct | DefKind::Enum) && tcx.item_name(*d).as_str() == name)
}

/// Choose representative generic arguments for a root from the trait bounds of its parameters.
fn root_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, elem: Ty<'tcx>) -> (GenericArgsRef<'tcx>, TypingEnv<'tcx>, String) {
    let ident = ty::GenericArgs::identity_for_item(tcx, d);
    let generic_env = TypingEnv::post_analysis(tcx, d);
    let has_types = ident.types().next().is_some();
    if !has_types { return (tcx.erase_and_anonymize_regions(ident), generic_env, "none".into()); }
    let preds: Vec<ty::Clause<'tcx>> = tcx.clauses_of(d).instantiate_identity(tcx).clauses.into_iter().map(|c| c.skip_norm_wip()).collect();
    let mut chosen: BTreeMap<u32, Ty<'tcx>> = BTreeMap::new();
    let fsh = local_adt(tcx, "FilesystemHierarchy").map(|a| tcx.type_of(a).instantiate_identity().skip_norm_wip());
    let dc = local_adt(tcx, "DefaultChunk").map(|a| tcx.type_of(a).instantiate_identity().skip_norm_wip());
    let vec_of = |t: Ty<'tcx>| -> Option<Ty<'tcx>> {
        let v = tcx.get_diagnostic_item(rustc_span::Symbol::intern("Vec"))?;
        let args = ty::GenericArgs::for_item(tcx, v, |p, prev| match p.index {
            0 => t.into(),
            _ => p.default_value(tcx).expect("allocator default").instantiate(tcx, prev).skip_norm_wip(),
        });
        Some(Ty::new_adt(tcx, tcx.adt_def(v), args))
    };
    // Several passes, as some choices depend on others.
    for _ in 0..3 {
        for c in &preds {
            let Some(tc) = c.as_trait_clause() else { continue };
            let tr = tc.skip_binder().trait_ref;
            let ty::Param(p) = *tr.self_ty().kind() else { continue };
            if chosen.contains_key(&p.index) { continue; }
            let tn = pth(tcx, tr.def_id);
            let last = tn.rsplit("::").next().unwrap_or("").to_string();
            let pick: Option<Ty<'tcx>> = match last.as_str() {
                "ReflectedType" => Some(elem),
                "ReadableStore" | "WriteableStore" | "ListableStore" | "Hierarchy" | "HierarchyReader" | "HierarchyWriter" | "HierarchyLister" | "ZarrNdarrayReader" | "ZarrNdarrayWriter" => fsh,
                "DefaultChunkReader" | "DefaultChunkWriter" => dc,
                "DataChunk" | "ReinitDataChunk" | "ReadableDataChunk" | "WriteableDataChunk" => {
                    local_adt(tcx, "SliceDataChunk").and_then(|s| {
                        let v = vec_of(elem)?;
                        Some(Ty::new_adt(tcx, tcx.adt_def(s), tcx.mk_args(&[elem.into(), v.into()])))
                    })
                }
                "Read" | "Write" if tn.contains("io") => {
                    tcx.all_diagnostic_items(()).name_to_id.iter().find(|(s, _)| s.as_str() == "File").map(|(_, &f)| tcx.type_of(f).instantiate_identity().skip_norm_wip())
                        .or_else(|| None)
                }
                "AsRef" | "AsMut" => match tr.args.type_at(1).kind() {
                    ty::Slice(e) => {
                        let e = match e.kind() { ty::Param(q) => chosen.get(&q.index).copied(), _ => Some(*e) };
                        e.and_then(|e| vec_of(e))
                    }
                    ty::Str => Some(Ty::new_imm_ref(tcx, tcx.lifetimes.re_erased, tcx.types.str_)),
                    _ => tcx.get_diagnostic_item(rustc_span::Symbol::intern("PathBuf")).map(|p| tcx.type_of(p).instantiate_identity().skip_norm_wip()),
                },
                "Into" => Some(tr.args.type_at(1)).and_then(|t| {
                    // The target type itself, with the parameters chosen so far.
                    subst_partial(tcx, t, &chosen)
                }),
                "AsArray" => {
                    // trait AsArray<'a, A, D>: Into<ArrayView<'a, A, D>>
                    let sup = tcx.explicit_super_clauses_of(tr.def_id);
                    let mut r = None;
                    for (sc, _) in sup.iter_instantiated_copied(tcx, tr.args).map(|x| x.skip_norm_wip()) {
                        if let Some(stc) = sc.as_trait_clause() {
                            let st = stc.skip_binder().trait_ref;
                            if pth(tcx, st.def_id).ends_with("Into") {
                                r = subst_partial(tcx, st.args.type_at(1), &chosen);
                            }
                        }
                    }
                    r
                }
                "FnOnce" | "Fn" | "FnMut" => {
                    let args_t = tr.args.type_at(1);
                    let out = preds.iter().find_map(|c| {
                        let pc = c.as_projection_clause()?.skip_binder();
                        (pc.self_ty() == tr.self_ty()).then(|| pc.term.as_type()).flatten()
                    });
                    match (args_t.kind(), out) {
                        (ty::Tuple(ts), Some(o)) => {
                            let ins: Option<Vec<Ty<'tcx>>> = ts.iter().map(|t| subst_partial(tcx, t, &chosen)).collect();
                            let o = subst_partial(tcx, o, &chosen);
                            match (ins, o) {
                                (Some(ins), Some(o)) => {
                                    let sig = tcx.mk_fn_sig_safe_rust_abi(ins, o);
                                    Some(Ty::new_fn_ptr(tcx, ty::Binder::dummy(sig)))
                                }
                                _ => None,
                            }
                        }
                        _ => None,
                    }
                }
                "Serialize" => Some(tcx.types.u64),
                "ByteOrder" => None,
                _ => None,
            };
            if let Some(t) = pick { chosen.insert(p.index, t); }
        }
    }
    let mut how = vec![];
    let mut complete = true;
    let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Type { .. } => match chosen.get(&p.index) {
            Some(t) => { how.push(format!("{}={}", p.name, tys(*t))); (*t).into() }
            None => { complete = false; how.push(format!("{}=?", p.name)); tcx.mk_param_from_def(p) }
        },
        _ => { complete = false; tcx.mk_param_from_def(p) }
    });
    if complete {
        (tcx.erase_and_anonymize_regions(args), TypingEnv::fully_monomorphized(), how.join(","))
    } else {
        (tcx.erase_and_anonymize_regions(ident), generic_env, format!("identity({})", how.join(",")))
    }
}

fn subst_partial<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, chosen: &BTreeMap<u32, Ty<'tcx>>) -> Option<Ty<'tcx>> {
    use rustc_middle::ty::{TypeFoldable, TypeFolder, TypeSuperFoldable};
    struct F<'a, 'tcx>(TyCtxt<'tcx>, &'a BTreeMap<u32, Ty<'tcx>>, bool);
    impl<'a, 'tcx> TypeFolder<TyCtxt<'tcx>> for F<'a, 'tcx> {
        fn cx(&self) -> TyCtxt<'tcx> { self.0 }
        fn fold_ty(&mut self, t: Ty<'tcx>) -> Ty<'tcx> {
            if let ty::Param(p) = t.kind() {
                match self.1.get(&p.index) { Some(x) => *x, None => { self.2 = false; t } }
            } else { t.super_fold_with(self) }
        }
    }
    let mut f = F(tcx, chosen, true);
    let r = t.fold_with(&mut f);
    let r = tcx.erase_and_anonymize_regions(r);
    let ok = f.2;
    if !ok { return None; }
    Some(tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(r)).unwrap_or(r))
}

impl<'tcx> Cx<'tcx> {
    fn ikey(&self, i: &Instance<'tcx>) -> String { full!(format!("{}", i)) }

    fn enqueue(&mut self, i: Instance<'tcx>) -> String {
        let k = self.ikey(&i);
        if self.seen.insert(k.clone()) { self.queue.push_back((k.clone(), i, None)); }
        k
    }

    /// Should the body of this callee be dumped for inlining?
    fn wanted(&self, i: &Instance<'tcx>) -> bool {
        let d = match i.def {
            ty::InstanceKind::Item(d) => d,
            _ => return false,
        };
        let tcx = self.tcx;
        if d.is_local() { return tcx.is_mir_available(d); }
        if !tcx.is_mir_available(d) { return false; }
        let c = tcx.crate_name(d.krate);
        let p = pth(tcx, d);
        match c.as_str() {
            "core" | "alloc" | "std" => {
                let ok = ["option::", "result::", "ops::control_flow", "ops::try_trait", "ops::function", "convert::", "cmp::", "bool::", "borrow::", "clone::", "default::", "mem::replace", "mem::take", "mem::swap"];
                ok.iter().any(|o| p.contains(o)) && tcx.instance_mir(i.def).basic_blocks.len() <= 40
            }
            _ => false,
        }
    }

    fn run(&mut self) {
        while let Some((k, i, prom)) = self.queue.pop_front() {
            let b = match prom {
                None => {
                    let d = match i.def { ty::InstanceKind::Item(d) => d, _ => continue };
                    if !self.tcx.is_mir_available(d) { continue; }
                    self.tcx.instance_mir(i.def).clone()
                }
                Some(p) => self.tcx.promoted_mir(i.def_id())[p].clone(),
            };
            let b = i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, EarlyBinder::bind(self.tcx, b));
            let j = self.body(&b, &i);
            self.out.insert(k, j);
        }
    }

    fn body(&mut self, b: &Body<'tcx>, i: &Instance<'tcx>) -> J {
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
            }
        }
        let locals: Vec<J> = b.local_decls.iter_enumerated().map(|(l, d)| {
            let mut o = vec![("ty", tys(d.ty).into())];
            if let Some(n) = names.get(&l.as_usize()) { o.push(("name", n.clone().into())); }
            J::O(o)
        }).collect();
        let blocks: Vec<J> = b.basic_blocks.iter().map(|bb| {
            let st: Vec<J> = bb.statements.iter().filter_map(|s| self.stmt(s, b)).collect();
            let t = self.term(bb.terminator(), b, i);
            let mut o = vec![("s", J::A(st)), ("t", t)];
            if bb.is_cleanup { o.push(("cleanup", true.into())); }
            J::O(o)
        }).collect();
        let d = i.def_id();
        J::O(vec![
            ("path", pth(self.tcx, d).into()),
            ("local", d.is_local().into()),
            ("span", span(self.tcx, b.span).into()),
            ("argc", b.arg_count.into()),
            ("spread", b.spread_arg.map(|l| l.as_usize()).into()),
            ("locals", locals.into()),
            ("blocks", blocks.into()),
        ])
    }

    fn place(&self, p: &Place<'tcx>, b: &Body<'tcx>) -> J {
        let mut v: Vec<J> = vec![p.local.as_usize().into()];
        let mut pt = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::S("*".into()),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() || a.is_struct() { a.variant(vi).fields.get(f).map(|x| x.name.to_string()) } else { None }
                        }
                        _ => None,
                    };
                    J::O(vec![("f", f.as_usize().into()), ("n", name.into())])
                }
                ProjectionElem::Downcast(n, vi) => {
                    let nm = n.map(|s| s.to_string()).or_else(|| match pt.ty.kind() {
                        ty::Adt(a, _) => Some(a.variant(vi).name.to_string()), _ => None });
                    J::O(vec![("v", vi.as_usize().into()), ("n", nm.into())])
                }
                ProjectionElem::Index(l) => J::O(vec![("i", l.as_usize().into())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::O(vec![("ci", (offset as usize).into()), ("end", from_end.into())]),
                ProjectionElem::Subslice { from, to, from_end } => J::O(vec![("sub", J::A(vec![(from as usize).into(), (to as usize).into(), from_end.into()]))]),
                _ => J::O(vec![("other", format!("{:?}", e).into())]),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }

    fn konst(&mut self, c: &mir::Const<'tcx>, sp: rustc_span::Span) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut o: Vec<(&'static str, J)> = vec![("k", "const".into()), ("ty", tys(t).into())];
        if let ty::FnDef(d, a) = t.kind() {
            o.push(("fn", self.callee(*d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()))));
            return J::O(o);
        }
        if let ty::Closure(d, a) = t.kind() {
            let i = Instance::new_raw(*d, a);
            o.push(("closure", self.enqueue(i).into()));
            return J::O(o);
        }
        if let mir::Const::Unevaluated(u, _) = c {
            if let Some(p) = u.promoted {
                let i = Instance::new_raw(u.def, u.args);
                let k = format!("{}#promoted{}", self.ikey(&i), p.as_usize());
                if self.seen.insert(k.clone()) { self.queue.push_back((k.clone(), i, Some(p))); }
                o.push(("promoted", k.into()));
                return J::O(o);
            }
            o.push(("def", pth(tcx, u.def).into()));
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, u.def, u.args) {
                o.push(("rdef", self.ikey(&i).into()));
            }
        }
        match c.eval(tcx, self.env, sp) {
            Ok(v) => o.push(("v", self.cval(v, t, 0))),
            Err(_) => o.push(("generic", full!(format!("{}", c)).into())),
        }
        J::O(o)
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 { return J::O(vec![("opaque", tys(t).into())]); }
        match t.kind() {
            ty::Bool => return J::O(vec![("bool", v.try_to_bool().into())]),
            ty::Char => {
                if let Some(s) = v.try_to_scalar_int() { return J::O(vec![("char", J::I(s.to_u32() as i128))]); }
            }
            ty::Int(it) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let _ = it;
                    let sz = s.size();
                    return J::O(vec![("int", J::I(s.to_int(sz)))]);
                }
            }
            ty::Uint(_) => {
                if let Some(s) = v.try_to_scalar_int() {
                    let sz = s.size();
                    return J::O(vec![("int", J::I(s.to_uint(sz) as i128))]);
                }
            }
            ty::Float(_) => {
                if let Some(s) = v.try_to_scalar_int() { let sz = s.size(); return J::O(vec![("float", format!("{:x}", s.to_uint(sz)).into())]); }
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                if let Some(bs) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                    return J::O(vec![("str", String::from_utf8_lossy(bs).to_string().into())]);
                }
            }
            ty::Ref(_, inner, _) => {
                // Byte strings and byte arrays.
                if let ty::Slice(e) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let Some(bs) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return J::O(vec![("bytes", bs.iter().map(|b| J::I(*b as i128)).collect::<Vec<J>>().into())]);
                        }
                    }
                }
                if let ty::Array(e, n) = inner.kind() {
                    if *e == tcx.types.u8 {
                        if let (ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)), Some(n)) = (v, n.try_to_target_usize(tcx)) {
                            let (prov, off) = ptr.prov_and_relative_offset();
                            if let rustc_middle::mir::interpret::GlobalAlloc::Memory(m) = tcx.global_alloc(prov.alloc_id()) {
                                let bs = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(off.bytes_usize()..off.bytes_usize() + n as usize);
                                return J::O(vec![("bytes", bs.iter().map(|b| J::I(*b as i128)).collect::<Vec<J>>().into())]);
                            }
                        }
                    }
                }
                if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(ptr, _)) = v {
                    // A reference to a constant: read the pointee when it is itself destructurable.
                    let (prov, off) = ptr.prov_and_relative_offset();
                    let pv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                    if inner.is_sized(tcx, self.env) {
                        return J::O(vec![("ref", self.cval(pv, *inner, depth + 1))]);
                    }
                }
            }
            ty::FnDef(d, a) => { let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder()); return J::O(vec![("fn", self.callee(*d, a))]); }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Adt(a, _) = t.kind() { if a.is_union() { return J::O(vec![("opaque", tys(t).into())]); } }
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fields: Vec<J> = dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                    let (vn, names): (J, Vec<J>) = match t.kind() {
                        ty::Adt(a, _) => {
                            let vi = dc.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_enum() && dc.variant.is_none() { return J::O(vec![("opaque", tys(t).into())]); }
                            (J::O(vec![("i", vi.as_usize().into()), ("n", a.variant(vi).name.to_string().into()), ("adt", pth(tcx, a.did()).into()), ("enum", a.is_enum().into())]),
                             a.variant(vi).fields.iter().map(|f| f.name.to_string().into()).collect())
                        }
                        _ => (J::Null, vec![]),
                    };
                    return J::O(vec![("agg", fields.into()), ("variant", vn), ("names", names.into())]);
                }
            }
            _ => {}
        }
        if let Some(s) = v.try_to_scalar_int() {
            let sz = s.size();
            if sz.bytes() == 0 { return J::O(vec![("zst", tys(t).into())]); }
            return J::O(vec![("bits", J::I(s.to_uint(sz) as i128))]);
        }
        J::O(vec![("opaque", tys(t).into())])
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![
            ("def", pth(tcx, d).into()),
            ("name", tcx.opt_item_name(d).map(|n| n.to_string()).into()),
            ("crate", tcx.crate_name(d.krate).to_string().into()),
            ("args", args.iter().filter_map(|a| a.as_type()).map(|t| tys(t)).collect::<Vec<_>>().into()),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) { o.push(("trait", pth(tcx, t).into())); }
        if let Some(im) = impl_of(tcx, d) {
            o.push(("impl_self", tys(tcx.type_of(im).instantiate(tcx, &args[..tcx.generics_of(im).count()]).skip_norm_wip()).into()));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let parent = tcx.parent(d);
            let (adt, vi) = match tcx.def_kind(parent) {
                DefKind::Variant => { let a = tcx.adt_def(tcx.parent(parent)); (a, a.variant_index_with_ctor_id(d)) }
                _ => (tcx.adt_def(parent), rustc_abi::FIRST_VARIANT),
            };
            o.push(("ctor", J::O(vec![("adt", pth(tcx, adt.did()).into()), ("i", vi.as_usize().into()), ("n", adt.variant(vi).name.to_string().into()), ("enum", adt.is_enum().into()),
                ("names", adt.variant(vi).fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>().into()), ("arity", sig.inputs().len().into())])));
            return J::O(o);
        }
        let args = tcx.erase_and_anonymize_regions(args);
        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)).unwrap_or(args);
        match Instance::try_resolve(tcx, self.env, d, args) {
            Ok(Some(i)) => {
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::LlvmIntrinsic(..) => "llvm",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once",
                    ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fn_ptr",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone",
                    ty::InstanceKind::Shim(..) => "shim",
                };
                o.push(("kind", kind.into()));
                o.push(("rdef", pth(tcx, i.def_id()).into()));
                o.push(("rname", tcx.opt_item_name(i.def_id()).map(|n| n.to_string()).into()));
                o.push(("rcrate", tcx.crate_name(i.def_id().krate).to_string().into()));
                if let Some(im) = impl_of(tcx, i.def_id()) {
                    o.push(("rimpl", tys(tcx.type_of(im).instantiate_identity().skip_norm_wip()).into()));
                }
                if self.wanted(&i) { let k = self.enqueue(i); o.push(("body", k.into())); }
                else { o.push(("inst", self.ikey(&i).into())); }
            }
            _ => o.push(("kind", "unresolved".into())),
        }
        J::O(o)
    }

    fn operand(&mut self, op: &Operand<'tcx>, b: &Body<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", "copy".into()), ("p", self.place(p, b))]),
            Operand::Move(p) => J::O(vec![("k", "move".into()), ("p", self.place(p, b))]),
            Operand::Constant(c) => self.konst(&c.const_, c.span),
            Operand::RuntimeChecks(_) => J::O(vec![("k", "const".into()), ("ty", "bool".into()), ("v", J::O(vec![("bool", false.into())]))]),
        }
    }

    fn stmt(&mut self, s: &Statement<'tcx>, b: &Body<'tcx>) -> Option<J> {
        match &s.kind {
            StatementKind::Assign(bx) => {
                let (p, r) = &**bx;
                let rv = self.rvalue(r, b);
                Some(J::O(vec![("p", self.place(p, b)), ("r", rv), ("sp", span(self.tcx, s.source_info.span).into())]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => Some(J::O(vec![("setd", self.place(place, b)), ("v", variant_index.as_usize().into())])),
            StatementKind::StorageDead(l) => Some(J::O(vec![("dead", l.as_usize().into())])),
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => None,
                x => Some(J::O(vec![("other", format!("{:?}", x).into())])),
            },
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", "use".into()), ("o", self.operand(o, b))]),
            Rvalue::CopyForDeref(p) => J::O(vec![("k", "use".into()), ("o", J::O(vec![("k", "copy".into()), ("p", self.place(p, b))]))]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|x| x as usize);
                J::O(vec![("k", "repeat".into()), ("o", self.operand(o, b)), ("n", n.into())])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![("k", "ref".into()), ("p", self.place(p, b)), ("mut", matches!(bk, BorrowKind::Mut { .. }).into())]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![("k", "ref".into()), ("p", self.place(p, b)), ("mut", m.is_mut().into())]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", "ref".into()), ("p", self.place(p, b)), ("mut", true.into()), ("raw", true.into())]),
            Rvalue::Cast(ck, o, t) => {
                let from = o.ty(&b.local_decls, tcx);
                J::O(vec![("k", "cast".into()), ("c", format!("{:?}", ck).into()), ("o", self.operand(o, b)), ("from", tys(from).into()), ("ty", tys(*t).into())])
            }
            Rvalue::BinaryOp(op, bx) => {
                let t = bx.0.ty(&b.local_decls, tcx);
                let l = self.operand(&bx.0, b);
                let r = self.operand(&bx.1, b);
                J::O(vec![("k", "bin".into()), ("op", format!("{:?}", op).into()), ("l", l), ("r", r), ("ty", tys(t).into())])
            }
            Rvalue::UnaryOp(op, o) => J::O(vec![("k", "un".into()), ("op", format!("{:?}", op).into()), ("o", self.operand(o, b)), ("ty", tys(o.ty(&b.local_decls, tcx)).into())]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, tcx).ty;
                let vs: Vec<J> = match t.kind() {
                    ty::Adt(a, _) if a.is_enum() => a.discriminants(tcx).map(|(vi, d)| J::A(vec![J::I(d.val as i128), vi.as_usize().into(), a.variant(vi).name.to_string().into()])).collect(),
                    _ => vec![],
                };
                J::O(vec![("k", "discr".into()), ("p", self.place(p, b)), ("variants", vs.into()), ("ty", tys(t).into())])
            }
            Rvalue::Aggregate(ak, ops) => {
                let fs: Vec<J> = ops.iter().map(|o| self.operand(o, b)).collect();
                match &**ak {
                    AggregateKind::Array(t) => J::O(vec![("k", "agg".into()), ("a", "array".into()), ("ty", tys(*t).into()), ("ops", fs.into())]),
                    AggregateKind::Tuple => J::O(vec![("k", "agg".into()), ("a", "tuple".into()), ("ops", fs.into())]),
                    AggregateKind::Adt(d, vi, args, _, _) => {
                        let a = tcx.adt_def(*d);
                        J::O(vec![("k", "agg".into()), ("a", "adt".into()), ("adt", pth(tcx, *d).into()), ("enum", a.is_enum().into()), ("v", vi.as_usize().into()),
                            ("n", a.variant(*vi).name.to_string().into()),
                            ("names", a.variant(*vi).fields.iter().map(|f| f.name.to_string()).collect::<Vec<_>>().into()),
                            ("targs", args.types().map(|t| tys(t)).collect::<Vec<_>>().into()),
                            ("ops", fs.into())])
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        let k = self.enqueue(i);
                        J::O(vec![("k", "agg".into()), ("a", "closure".into()), ("body", k.into()), ("ops", fs.into()), ("ck", format!("{:?}", args.as_closure().kind()).into())])
                    }
                    x => J::O(vec![("k", "agg".into()), ("a", "other".into()), ("d", format!("{:?}", x).into()), ("ops", fs.into())]),
                }
            }
            x => J::O(vec![("k", "other".into()), ("d", format!("{:?}", x).into())]),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, b: &Body<'tcx>, _i: &Instance<'tcx>) -> J {
        let tcx = self.tcx;
        let sp = span(tcx, t.source_info.span);
        let bbj = |x: &BasicBlock| -> J { x.as_usize().into() };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => J::O(vec![("k", "goto".into()), ("t", bbj(target))]),
            TerminatorKind::SwitchInt { discr, targets } => {
                let vs: Vec<J> = targets.iter().map(|(v, bb)| J::A(vec![J::I(v as i128), bb.as_usize().into()])).collect();
                J::O(vec![("k", "switch".into()), ("o", self.operand(discr, b)), ("ty", tys(discr.ty(&b.local_decls, tcx)).into()), ("ts", vs.into()), ("else", bbj(&targets.otherwise())), ("sp", sp.into())])
            }
            TerminatorKind::Return => J::O(vec![("k", "return".into()), ("sp", sp.into())]),
            TerminatorKind::Unreachable => J::O(vec![("k", "unreachable".into())]),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", "resume".into())]),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&b.local_decls, tcx).ty;
                J::O(vec![("k", "drop".into()), ("p", self.place(place, b)), ("ty", tys(ty).into()), ("t", bbj(target)), ("sp", sp.into())])
            }
            TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                let f = match func.const_fn_def() {
                    Some((d, a)) => self.callee(d, a),
                    None => J::O(vec![("kind", "indirect".into()), ("o", self.operand(func, b)), ("ty", tys(func.ty(&b.local_decls, tcx)).into())]),
                };
                let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, b)).collect();
                let at: Vec<J> = args.iter().map(|a| tys(a.node.ty(&b.local_decls, tcx)).into()).collect();
                let dt = destination.ty(&b.local_decls, tcx).ty;
                J::O(vec![("k", "call".into()), ("f", f), ("a", a.into()), ("at", at.into()), ("d", self.place(destination, b)), ("dty", tys(dt).into()), ("t", target.as_ref().map(|x| x.as_usize()).into()), ("sp", span(tcx, *fn_span).into())])
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow {:?}", op),
                    AssertKind::OverflowNeg(_) => "overflow neg".into(),
                    AssertKind::DivisionByZero(_) => "div by zero".into(),
                    AssertKind::RemainderByZero(_) => "rem by zero".into(),
                    x => format!("{:?}", std::mem::discriminant(x)),
                };
                J::O(vec![("k", "assert".into()), ("o", self.operand(cond, b)), ("exp", (*expected).into()), ("m", m.into()), ("t", bbj(target)), ("sp", sp.into())])
            }
            TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", "goto".into()), ("t", bbj(real_target))]),
            TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", "goto".into()), ("t", bbj(real_target))]),
            x => J::O(vec![("k", "other".into()), ("d", format!("{:?}", x).into())]),
        }
    }
}
