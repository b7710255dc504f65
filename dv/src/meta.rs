//! Contracts on implementation headers: which mappings exist, under which bounds, with which output type.
//! Every obligation is an entailment in the environment of one implementation, decided by rustc's trait solver.
use crate::{jlist, js};
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{CrateNum, DefId, LOCAL_CRATE};
use rustc_infer::infer::TyCtxtInferExt;
use rustc_infer::traits::{Obligation, ObligationCause};
use rustc_middle::ty::{self, GenericArg, ParamEnv, Ty, TyCtxt, TypingMode, Upcast};
use rustc_trait_selection::traits::{ObligationCtxt, FulfillmentError};
use std::collections::BTreeSet;
use std::fmt::Write;

struct Ob {
    kind: &'static str,
    subject: String,
    what: String,
    fail: Option<String>,
}

struct Hdr<'tcx> {
    id: DefId,
    tr: ty::TraitRef<'tcx>,
    env: ParamEnv<'tcx>,
    output: Option<Ty<'tcx>>,
    index: Option<u64>,
}

struct M<'tcx> {
    tcx: TyCtxt<'tcx>,
    obs: Vec<Ob>,
}

fn funcmap_trait<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Option<DefId> {
    tcx.all_traits_including_private().find(|t| tcx.crate_name(t.krate).as_str() == "funcmap" && tcx.item_name(*t).as_str() == name)
}
fn spec_trait<'tcx>(tcx: TyCtxt<'tcx>, name: &str) -> Option<DefId> {
    tcx.all_traits_including_private().find(|t| tcx.item_name(*t).as_str() == name && (t.is_local() || tcx.crate_name(t.krate).as_str().starts_with("dv_")))
}

impl<'tcx> M<'tcx> {
    fn hdr(&self, i: DefId) -> Hdr<'tcx> {
        let tcx = self.tcx;
        let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
        let output = tcx.associated_items(i).in_definition_order().find(|a| tcx.item_name(a.def_id).as_str() == "Output").map(|a| tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip());
        let index = tr.args.iter().nth(3).and_then(|a| a.as_type()).and_then(|t| match t.kind() {
            ty::Adt(_, a) => a.iter().find_map(|x| x.as_const()).and_then(|c| c.try_to_target_usize(tcx)),
            _ => None,
        });
        Hdr { id: i, tr, env: tcx.param_env(i), output, index }
    }
    fn assoc(&self, t: DefId) -> Option<DefId> {
        self.tcx.associated_items(t).in_definition_order().find(|a| self.tcx.item_name(a.def_id).as_str() == "Output").map(|a| a.def_id)
    }
    /// does `env` entail `t<args>`, with `Output` equal to `out`?
    fn entails(&self, env: ParamEnv<'tcx>, t: DefId, args: &[GenericArg<'tcx>], out: Option<Ty<'tcx>>) -> Result<(), String> {
        let tcx = self.tcx;
        let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
        let ocx = ObligationCtxt::<FulfillmentError<'tcx>>::new_with_diagnostics(&infcx);
        let cause = ObligationCause::dummy();
        let tr = ty::TraitRef::new(tcx, t, args.iter().copied());
        ocx.register_obligation(Obligation { cause: cause.clone(), recursion_depth: 0, param_env: env, predicate: tr.upcast(tcx) });
        let errs = ocx.evaluate_obligations_error_on_ambiguity();
        let errs: Vec<String> = errs.into_iter().map(|e| format!("{}", e.obligation.predicate)).collect();
        if !errs.is_empty() {
            return Err(format!("not entailed: {}", errs.join(", ")));
        }
        if let (Some(o), Some(a)) = (out, self.assoc(t)) {
            let p = Ty::new_projection(tcx, ty::IsRigid::No, a, args.iter().copied());
            let n = ocx.normalize(&cause, env, ty::Unnormalized::new(p));
            let o = ocx.normalize(&cause, env, ty::Unnormalized::new(o));
            if ocx.eq(&cause, env, o, n).is_err() {
                let n = infcx.deeply_resolve_ignoring_regions(n);
                return Err(format!("output is {n} where {o} is due"));
            }
            let errs = ocx.evaluate_obligations_error_on_ambiguity();
            let errs: Vec<String> = errs.into_iter().map(|e| format!("{}", e.obligation.predicate)).collect();
            if !errs.is_empty() {
                let n = infcx.deeply_resolve_ignoring_regions(n);
                return Err(format!("output is {n} where {o} is due: {}", errs.join(", ")));
            }
        }
        // lifetimes
        let mut wf = vec![];
        for a in args {
            if let Some(t) = a.as_type() {
                wf.push(t);
            }
        }
        let root = rustc_hir::def_id::CRATE_DEF_ID;
        let errs = ocx.resolve_regions(root, env, wf);
        if !errs.is_empty() {
            return Err(format!("lifetimes: {errs:?}"));
        }
        Ok(())
    }
    fn ob(&mut self, kind: &'static str, subject: String, what: String, r: Result<(), String>) {
        self.obs.push(Ob { kind, subject, what, fail: r.err() });
    }
    /// the environment with each of the two traits replaced by the other
    fn swapped(&self, i: DefId, a: DefId, b: DefId) -> ParamEnv<'tcx> {
        let tcx = self.tcx;
        let (oa, ob) = (self.assoc(a), self.assoc(b));
        let sw = |d: DefId| {
            if d == a {
                b
            } else if d == b {
                a
            } else if Some(d) == oa {
                ob.unwrap()
            } else if Some(d) == ob {
                oa.unwrap()
            } else {
                d
            }
        };
        let cl: Vec<ty::Clause<'tcx>> = tcx
            .param_env(i)
            .caller_bounds()
            .map(|c| {
                let k = c.kind();
                match k.skip_binder() {
                    ty::ClauseKind::Trait(t) if t.trait_ref.def_id == a || t.trait_ref.def_id == b => {
                        let tr = ty::TraitRef::new(tcx, sw(t.trait_ref.def_id), t.trait_ref.args.iter());
                        k.rebind(ty::ClauseKind::Trait(ty::TraitClause { trait_ref: tr, polarity: t.polarity })).upcast(tcx)
                    }
                    ty::ClauseKind::Projection(p) if Some(p.def_id()) == oa || Some(p.def_id()) == ob => {
                        let args = p.projection_term.args;
                        let q = ty::ProjectionClause { projection_term: ty::AliasTerm::new(tcx, ty::AliasTermKind::ProjectionTy { def_id: sw(p.def_id()) }, args), term: p.term };
                        k.rebind(ty::ClauseKind::Projection(q)).upcast(tcx)
                    }
                    _ => c,
                }
            })
            .collect();
        ParamEnv::new(tcx, cl)
    }
    fn name(&self, h: &Hdr<'tcx>) -> String {
        let tcx = self.tcx;
        let g: Vec<String> = h.tr.args.iter().skip(1).map(|a| a.to_string()).collect();
        format!("{} as {}<{}>", h.tr.self_ty(), tcx.item_name(h.tr.def_id), g.join(", "))
    }
}

/// can the item be named from outside its crate?
fn reachable(tcx: TyCtxt<'_>, k: CrateNum, want: DefId) -> bool {
    let mut seen = BTreeSet::new();
    let mut todo = vec![k.as_def_id()];
    while let Some(m) = todo.pop() {
        if !seen.insert((m.krate.as_u32(), m.index.as_u32())) {
            continue;
        }
        for c in tcx.module_children(m) {
            if !c.vis.is_public() {
                continue;
            }
            if let Res::Def(kind, d) = c.res {
                if d == want {
                    return true;
                }
                if matches!(kind, DefKind::Mod) && d.krate == k {
                    todo.push(d);
                }
            }
        }
    }
    false
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut m = M { tcx, obs: vec![] };
    let derive = std::env::var("DV_DERIVE").is_ok();
    let mut impls = vec![];
    let pair = [("FuncMap", "SpecFuncMap", "TryFuncMap"), ("TryFuncMap", "SpecTryFuncMap", "FuncMap")];
    for (name, spec, other) in pair {
        let Some(t) = funcmap_trait(tcx, name) else {
            m.ob("traits", name.into(), "the trait exists".into(), Err("no such trait".into()));
            continue;
        };
        let sp = spec_trait(tcx, spec);
        let ot = funcmap_trait(tcx, other);
        // the implementations
        for i in tcx.all_impls(t) {
            if if derive { !i.is_local() } else { tcx.crate_name(i.krate).as_str() != "funcmap" } {
                continue;
            }
            let h = m.hdr(i);
            let n = m.name(&h);
            let args: Vec<_> = h.tr.args.iter().collect();
            let methods: Vec<String> = tcx.associated_items(i).in_definition_order().filter(|a| matches!(a.kind, ty::AssocKind::Fn { .. })).map(|a| tcx.item_name(a.def_id).to_string()).collect();
            let out = h.output.map(|o| o.to_string()).unwrap_or_default();
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"a\":{},\"b\":{},\"index\":{},\"output\":{},\"methods\":{}}}",
                js(name),
                js(&h.tr.self_ty().to_string()),
                js(&args[1].to_string()),
                js(&args[2].to_string()),
                h.index.map(|n| n.to_string()).unwrap_or("null".into()),
                js(&out),
                jlist(&methods, |s| js(s))
            ));
            // output type: the indexed argument is A, and replacing it gives the output
            let r = (|| {
                let k = h.index.ok_or("the marker is not TypeParam<N>".to_string())? as usize;
                let a = args[1].expect_ty();
                let b = args[2].expect_ty();
                let o = h.output.ok_or("no output type".to_string())?;
                if !matches!(a.kind(), ty::Param(_)) || !matches!(b.kind(), ty::Param(_)) || a == b {
                    return Err(format!("{a} and {b} are not two type parameters"));
                }
                let due = match h.tr.self_ty().kind() {
                    ty::Adt(d, ga) => {
                        let mut c = 0;
                        let mut v = vec![];
                        let mut hit = false;
                        for g in ga.iter() {
                            let mut g = g;
                            if g.as_region().is_none() {
                                if c == k {
                                    if g.as_type() != Some(a) {
                                        return Err(format!("argument {k} of {} is {g}, not {a}", h.tr.self_ty()));
                                    }
                                    g = b.into();
                                    hit = true;
                                }
                                c += 1;
                            }
                            v.push(g);
                        }
                        if !hit {
                            return Err(format!("{} has no argument {k}", h.tr.self_ty()));
                        }
                        Ty::new_adt(tcx, *d, tcx.mk_args(&v))
                    }
                    ty::Array(e, n) => {
                        if k != 0 || *e != a {
                            return Err(format!("argument {k} of {} is not {a}", h.tr.self_ty()));
                        }
                        Ty::new_array_with_const_len(tcx, b, *n)
                    }
                    _ => return Err(format!("{} is not a generic type", h.tr.self_ty())),
                };
                if o != due {
                    // equal up to normalisation?
                    let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
                    let ocx = ObligationCtxt::<FulfillmentError<'tcx>>::new_with_diagnostics(&infcx);
                    let cause = ObligationCause::dummy();
                    let x = ocx.normalize(&cause, h.env, ty::Unnormalized::new(o));
                    let y = ocx.normalize(&cause, h.env, ty::Unnormalized::new(due));
                    let ok = ocx.eq(&cause, h.env, x, y).is_ok() && ocx.evaluate_obligations_error_on_ambiguity().into_iter().next().is_none() && ocx.resolve_regions(rustc_hir::def_id::CRATE_DEF_ID, h.env, []).is_empty();
                    if !ok {
                        return Err(format!("the output type is {o} where {due} is due"));
                    }
                }
                Ok(())
            })();
            m.ob("output", n.clone(), "the output type replaces the indexed argument only".into(), r);
            // the other trait, under the same requirements
            if let Some(o) = ot {
                let both = !derive || tcx.all_impls(o).any(|j| j.is_local() && tcx.impl_trait_ref(j).instantiate_identity().skip_norm_wip().self_ty().ty_adt_def() == h.tr.self_ty().ty_adt_def());
                if both {
                    let env = m.swapped(i, t, o);
                    let r = m.entails(env, o, &args, h.output);
                    m.ob("pair", n.clone(), format!("{other} is implemented under the same requirements, with the same output"), r);
                }
            }
            if let Some(s) = sp {
                let r = m.entails(h.env, s, &args, h.output);
                m.ob("sound", n.clone(), "the documented requirements follow from those of the implementation".into(), r);
            }
        }
        // the specified implementations
        if let Some(s) = sp {
            for i in tcx.all_impls(s) {
                if !i.is_local() {
                    continue;
                }
                let h = m.hdr(i);
                let n = m.name(&h);
                let args: Vec<_> = h.tr.args.iter().collect();
                let r = m.entails(h.env, t, &args, h.output);
                m.ob("complete", n, "the implementation is available whenever the documented requirements hold".into(), r);
            }
        }
    }
    // markers
    if let (Some(fm), Some(sp)) = (funcmap_trait(tcx, "FuncMarker"), spec_trait(tcx, "SpecMarker")) {
        let mut ts = vec![fm];
        let k = fm.krate;
        for (c, _) in tcx.explicit_super_clauses_of(fm).iter_identity_copied().map(|p| p.skip_norm_wip()) {
            if let Some(t) = c.as_trait_clause() {
                if t.def_id().krate == k {
                    ts.push(t.def_id());
                    let same = t.skip_binder().trait_ref.args.iter().eq(ty::GenericArgs::identity_for_item(tcx, fm).iter());
                    if !same {
                        m.ob("markers", tcx.def_path_str(t.def_id()), "the sealing trait has the arguments of the sealed one".into(), Err(format!("{t:?}")));
                    }
                }
            }
        }
        for t in &ts {
            for i in tcx.all_impls(*t) {
                let h = m.hdr(i);
                let n = m.name(&h);
                let args: Vec<_> = h.tr.args.iter().collect();
                let r = m.entails(h.env, sp, &args, None);
                m.ob("markers", n, "implemented for TypeParam<N> with argument TypeParam<N> only".into(), r);
            }
        }
        for i in tcx.all_impls(sp) {
            let h = m.hdr(i);
            let args: Vec<_> = h.tr.args.iter().collect();
            let r = m.entails(h.env, fm, &args, None);
            let n = m.name(&h);
            m.ob("markers", n, "TypeParam<N> is a marker for every N".into(), r);
        }
        let sealed = ts[1..].iter().any(|t| !reachable(tcx, k, *t));
        m.ob("markers", "FuncMarker".into(), "cannot be implemented outside of the crate".into(), if sealed { Ok(()) } else { Err("no supertrait that cannot be named from outside".into()) });
        for (name, _, _) in pair {
            let Some(t) = funcmap_trait(tcx, name) else { continue };
            let id = ty::GenericArgs::identity_for_item(tcx, t);
            let p = id.type_at(3);
            let r = m.entails(tcx.param_env(t), fm, &[p.into(), p.into()], None);
            m.ob("markers", format!("{name}"), "the index is a marker".into(), r);
            let mut found = false;
            for a in tcx.associated_items(t).in_definition_order() {
                if !tcx.item_name(a.def_id).as_str().ends_with("_over") {
                    continue;
                }
                found = true;
                let ids = ty::GenericArgs::identity_for_item(tcx, a.def_id);
                let q = ids.types().nth(4);
                let r = match q {
                    Some(q) => m.entails(tcx.param_env(a.def_id), fm, &[q.into(), p.into()], None),
                    None => Err("no marker parameter".into()),
                };
                m.ob("markers", format!("{name}::{}", tcx.item_name(a.def_id)), "the marker named selects the implementation".into(), r);
            }
            if !found {
                m.ob("markers", name.into(), "has a method naming the marker".into(), Err("none".into()));
            }
        }
    }
    // destructors: the traits of the library that every type with a destructor implements
    let dropt = tcx.lang_items().drop_trait().unwrap();
    let lib_impl = |i: DefId| tcx.crate_name(i.krate).as_str() == "funcmap";
    let marks: Vec<DefId> = tcx
        .all_traits_including_private()
        .filter(|t| tcx.crate_name(t.krate).as_str() == "funcmap" && tcx.generics_of(*t).count() == 1)
        .filter(|t| {
            tcx.all_impls(*t).any(|i| {
                let h = m.hdr(i);
                lib_impl(i) && matches!(h.tr.self_ty().kind(), ty::Param(_)) && h.env.caller_bounds().any(|c| c.as_trait_clause().is_some_and(|c| c.def_id() == dropt))
            })
        })
        .collect();
    for f in tcx.hir_crate_items(()).definitions() {
        // a function of ours with `T: Drop + ?Sized` and nothing else
        let f = f.to_def_id();
        if !matches!(tcx.def_kind(f), DefKind::Fn) || tcx.item_name(f).as_str() != "spec_drop_is_marked" {
            continue;
        }
        if marks.is_empty() {
            m.ob("drop", "the library".into(), "types with a destructor are marked".into(), Err("there is no marker trait".into()));
        }
        let id = ty::GenericArgs::identity_for_item(tcx, f);
        for mk in &marks {
            let r = m.entails(tcx.param_env(f), *mk, &[id.type_at(0).into()], None);
            m.ob("drop", tcx.def_path_str(*mk), "every type with a destructor is marked".into(), r);
            for i in tcx.all_impls(*mk).filter(|i| lib_impl(*i)) {
                let h = m.hdr(i);
                let r = m.entails(h.env, dropt, &[h.tr.self_ty().into()], None);
                m.ob("drop", m.name(&h), "only types with a destructor are marked by the library".into(), r);
            }
        }
    }
    if derive {
        let mut done = BTreeSet::new();
        for (name, _, _) in pair {
            let Some(t) = funcmap_trait(tcx, name) else { continue };
            for i in tcx.all_impls(t).filter(|i| i.is_local()) {
                let h = m.hdr(i);
                let Some(d) = h.tr.self_ty().ty_adt_def() else { continue };
                if !done.insert((name, d.did().index.as_u32())) {
                    continue;
                }
                // for the type's own parameters and requirements, that is for any destructor it can have
                let own = Ty::new_adt(tcx, d, ty::GenericArgs::identity_for_item(tcx, d.did()));
                let mut r = Err("there is no marker trait".into());
                for mk in &marks {
                    let q = m.entails(tcx.param_env(d.did()), *mk, &[own.into()], None);
                    if q.is_ok() || r.is_err() {
                        r = q;
                    }
                }
                m.ob("drop", format!("{own} ({name})"), "conflicts with any destructor of the type".into(), r);
            }
        }
        for mk in &marks {
            for j in tcx.all_impls(*mk).filter(|j| j.is_local()) {
                let h = m.hdr(j);
                let own = h.tr.self_ty().ty_adt_def().is_some_and(|d| d.did().is_local());
                m.ob("drop", m.name(&h), "the derived marker names the type only".into(), if own { Ok(()) } else { Err("it does not".into()) });
            }
        }
    }
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"crate\":{},\"crates\":{},\"impls\":[{}],\"obligations\":{}}}",
        js(tcx.crate_name(LOCAL_CRATE).as_str()),
        jlist(&crates, |s| js(s)),
        impls.join(",\n"),
        jlist(&m.obs, |b| format!(
            "{{\"kind\":{},\"subject\":{},\"what\":{},\"fail\":{}}}\n",
            js(b.kind),
            js(&b.subject),
            js(&b.what),
            b.fail.as_ref().map(|f| js(f)).unwrap_or("null".into())
        ))
    );
    o
}
