//! Frame contracts: what each function of the crate may read besides its arguments.
//! Every mention of a function, static or pointer conversion in the MIR is one obligation; its facts are listed here
//! and decided against the effect contracts of the callees.
use crate::{jlist, js};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::visit::Visitor;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt};
use std::collections::BTreeSet;

struct Fact {
    kind: &'static str,
    krate: String,
    path: String,
    tr: String,
    args: Vec<String>,
    /// hashed collections with a random hasher among the type arguments
    hashed: Vec<String>,
    line: String,
}

struct V<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    body: &'a Body<'tcx>,
    facts: Vec<Fact>,
}

impl<'a, 'tcx> V<'a, 'tcx> {
    fn line(&self, l: Location) -> String {
        let s = self.body.source_info(l).span;
        let s = s.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", p.file.name.prefer_local_unconditionally(), p.line)
    }
    fn fact(&mut self, kind: &'static str, path: String, l: Location) {
        let line = self.line(l);
        self.facts.push(Fact { kind, krate: String::new(), path, tr: String::new(), args: vec![], hashed: vec![], line });
    }
    /// hashed collections mentioned by a type, not looking into closures (their bodies are listed on their own)
    fn hashed(&self, t: Ty<'tcx>, out: &mut BTreeSet<String>, depth: usize) {
        if depth > 12 {
            return;
        }
        let sub = |args: ty::GenericArgsRef<'tcx>, out: &mut BTreeSet<String>| {
            for a in args.iter() {
                if let GenericArgKind::Type(t) = a.kind() {
                    self.hashed(t, out, depth + 1);
                }
            }
        };
        match t.kind() {
            ty::Adt(d, args) => {
                let p = with_no_trimmed_paths!(self.tcx.def_path_str(d.did()));
                let fixed = p.starts_with("std::collections::Hash") && args.types().last().map_or(false, |h| matches!(h.kind(), ty::Adt(..))) && !args.types().any(|h| h.ty_adt_def().map_or(false, |d| self.tcx.item_name(d.did()).as_str() == "RandomState"));
                if fixed {
                    // a hasher without random state: the order is a function of the contents
                } else if p.starts_with("std::collections::hash") || p.starts_with("std::collections::Hash") || p.contains("RandomState") || p.starts_with("hashbrown") {
                    out.insert(p);
                } else if p.starts_with("indexmap::") {
                    // the hasher is not observable: iteration is in insertion order
                    for a in args.iter().filter_map(|a| a.as_type()) {
                        if !a.ty_adt_def().map(|d| self.tcx.item_name(d.did()).as_str() == "RandomState").unwrap_or(false) {
                            self.hashed(a, out, depth + 1);
                        }
                    }
                    return;
                }
                sub(args, out)
            }
            ty::FnDef(_, args) => sub(args.skip_binder(), out),
            ty::Ref(_, t, _) | ty::RawPtr(t, _) | ty::Slice(t) | ty::Array(t, _) => self.hashed(*t, out, depth + 1),
            ty::Tuple(ts) => ts.iter().for_each(|t| self.hashed(t, out, depth + 1)),
            ty::Dynamic(preds, ..) => {
                for p in preds.iter() {
                    if let ty::ExistentialPredicate::Projection(p) = p.skip_binder() {
                        if let Some(t) = p.term.as_type() {
                            self.hashed(t, out, depth + 1);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn mention(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>, l: Location) {
        let tcx = self.tcx;
        let args = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::dummy(args)).unwrap_or(args);
        let (rd, ra) = match Instance::try_resolve(tcx, self.env, def, args) {
            Ok(Some(i)) => (i.def_id(), i.args),
            _ => (def, args),
        };
        let mut hashed = BTreeSet::new();
        for a in args.iter().chain(ra.iter()) {
            if let GenericArgKind::Type(t) = a.kind() {
                self.hashed(t, &mut hashed, 0);
            }
        }
        let tr = tcx.trait_of_assoc(def).map(|t| with_no_trimmed_paths!(tcx.def_path_str(t))).unwrap_or_default();
        let path = with_no_trimmed_paths!(tcx.def_path_str(def));
        let line = self.line(l);
        self.facts.push(Fact {
            kind: if rd.is_local() { "local" } else { "call" },
            krate: tcx.crate_name(rd.krate).to_string(),
            path,
            tr,
            args: args.iter().filter_map(|a| a.as_type()).map(|t| with_no_trimmed_paths!(t.to_string())).collect(),
            hashed: hashed.into_iter().collect(),
            line,
        });
    }
}

impl<'a, 'tcx> Visitor<'tcx> for V<'a, 'tcx> {
    fn visit_const_operand(&mut self, c: &ConstOperand<'tcx>, l: Location) {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            self.mention(*d, args.skip_binder(), l);
            return;
        }
        if let Some(d) = c.check_static_ptr(tcx) {
            self.stat(d, l);
        }
        match c.const_ {
            Const::Unevaluated(u, _) => {
                let p = with_no_trimmed_paths!(tcx.def_path_str(u.def));
                if u.promoted.is_none() && with_no_trimmed_paths!(t.to_string()).contains("LocalKey") {
                    self.fact("thread-local", p, l);
                }
            }
            Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) => {
                if let GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
                    self.stat(d, l);
                }
            }
            _ => {}
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: Location) {
        match r {
            Rvalue::ThreadLocalRef(d) => {
                let p = with_no_trimmed_paths!(self.tcx.def_path_str(*d));
                self.fact("thread-local", p, l)
            }
            Rvalue::Cast(k, op, to) => {
                let from = op.ty(self.body, self.tcx);
                let ptrish = |t: Ty<'tcx>| t.is_any_ptr() || t.is_fn_ptr();
                match k {
                    CastKind::PointerExposeProvenance => self.fact("address", format!("{from} as {to}"), l),
                    CastKind::Transmute if ptrish(from) && !ptrish(*to) && to.is_integral() => self.fact("address", format!("{from} as {to}"), l),
                    _ => {}
                }
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(self.body, self.tcx);
                if t.is_any_ptr() && matches!(op, BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp) {
                    self.fact("address", format!("{op:?} of {t}"), l)
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_terminator(&mut self, t: &Terminator<'tcx>, l: Location) {
        if let TerminatorKind::InlineAsm { .. } = t.kind {
            self.fact("asm", "inline assembly".into(), l)
        }
        self.super_terminator(t, l);
    }
}

impl<'a, 'tcx> V<'a, 'tcx> {
    fn stat(&mut self, d: DefId, l: Location) {
        let p = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        if let Some(why) = static_state(self.tcx, d) {
            self.fact("static", format!("{p} ({why})"), l);
        }
    }
}

/// what makes a static carry state
fn static_state<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Option<&'static str> {
    if tcx.is_mutable_static(d) {
        return Some("mutable");
    }
    if tcx.is_thread_local_static(d) {
        return Some("thread-local");
    }
    if tcx.is_foreign_item(d) {
        return Some("foreign");
    }
    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
    if !t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
        return Some("interior mutability");
    }
    None
}

fn is_debug_impl<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> bool {
    let mut d = tcx.typeck_root_def_id(d);
    while let Some(p) = tcx.opt_parent(d) {
        if tcx.def_kind(d) == (DefKind::Impl { of_trait: true }) {
            let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
            return with_no_trimmed_paths!(tcx.def_path_str(tr.def_id)) == "std::fmt::Debug" || with_no_trimmed_paths!(tcx.def_path_str(tr.def_id)) == "core::fmt::Debug";
        }
        d = p;
    }
    false
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut bodies: Vec<String> = vec![];
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_span(*k).lo());
    for k in keys {
        let d = k.to_def_id();
        let name = with_no_trimmed_paths!(tcx.def_path_str(d));
        let kind = tcx.def_kind(d);
        let mut v: Vec<Fact> = vec![];
        let mut go = |b: &Body<'tcx>| {
            let mut x = V { tcx, env: ty::TypingEnv::post_analysis(tcx, d), body: b, facts: vec![] };
            x.visit_body(b);
            v.extend(x.facts);
        };
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody => {
                if tcx.is_constructor(d) {
                    continue;
                }
                go(tcx.optimized_mir(d));
                for p in tcx.promoted_mir(d).iter() {
                    go(p);
                }
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. } => {
                if matches!(kind, DefKind::Static { .. }) {
                    if let Some(w) = static_state(tcx, d) {
                        v.push(Fact { kind: "static", krate: String::new(), path: format!("{name} ({w})"), tr: String::new(), args: vec![], hashed: vec![], line: tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d)) });
                    }
                }
            }
            _ => continue,
        }
        bodies.push(format!(
            "{{\"fn\":{},\"kind\":{},\"debug\":{},\"facts\":{}}}",
            js(&name),
            js(&format!("{kind:?}")),
            is_debug_impl(tcx, d),
            jlist(v.iter(), |f| format!(
                "{{\"kind\":{},\"crate\":{},\"path\":{},\"trait\":{},\"args\":{},\"hashed\":{},\"line\":{}}}",
                js(f.kind),
                js(&f.krate),
                js(&f.path),
                js(&f.tr),
                jlist(f.args.iter(), |s| js(s)),
                jlist(f.hashed.iter(), |s| js(s)),
                js(&f.line)
            ))
        ));
    }
    format!("{{\"crate\":{},\"bodies\":[{}]}}", js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), bodies.join(",\n"))
}
