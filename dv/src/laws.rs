//! The laws of mappings, decided on the code itself: the methods are run symbolically with pure closures that are
//! defined everywhere, one after the other where a law composes them, and the values compared.
use crate::eng::*;
use crate::term::*;
use crate::val::*;
use crate::Target;
use rustc_hir::def_id::DefId;
use rustc_infer::infer::TyCtxtInferExt;
use rustc_infer::traits::ObligationCause;
use rustc_middle::ty::{self, Instance, ParamEnv, Ty, TyCtxt, TypeFoldable, TypingMode};
use rustc_span::{Symbol, DUMMY_SP};
use rustc_trait_selection::traits::{FulfillmentError, ObligationCtxt};
use std::collections::BTreeMap;
use std::rc::Rc;

/// one application of a mapping method
#[derive(Clone, Debug)]
pub struct Step<'tcx> {
    pub method: DefId,
    pub args: ty::GenericArgsRef<'tcx>,
    pub closure: &'static str,
    pub fallible: bool,
}

#[derive(Clone, Debug)]
pub struct Law<'tcx> {
    pub law: &'static str,
    pub name: String,
    pub method: &'static str,
    pub self_ty: Ty<'tcx>,
    pub left: Vec<Step<'tcx>>,
    pub right: Vec<Step<'tcx>>,
    pub env: ty::TypingEnv<'tcx>,
    pub contract_calls: bool,
}

fn replace<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, a: Ty<'tcx>, b: Ty<'tcx>) -> Ty<'tcx> {
    t.fold_with(&mut ty::BottomUpFolder { tcx, ty_op: |x| if x == a { b } else { x }, lt_op: |r| r, ct_op: |c| c })
}

/// the type at the marked position
struct Build<'tcx> {
    tcx: TyCtxt<'tcx>,
    clauses: Vec<ty::Clause<'tcx>>,
    fresh: u32,
}

impl<'tcx> Build<'tcx> {
    fn param(&mut self, n: &str) -> Ty<'tcx> {
        self.fresh += 1;
        Ty::new_param(self.tcx, 1000 + self.fresh, Symbol::intern(n))
    }
    /// the method of this implementation, for a given self type, mapped type and closure
    fn step(&mut self, t: &Target<'tcx>, self_ty: Ty<'tcx>, a: Ty<'tcx>, b: Ty<'tcx>, closure: &'static str) -> Result<Step<'tcx>, String> {
        let tcx = self.tcx;
        let parent = tcx.parent(t.def);
        let is_impl = tcx.trait_of_assoc(t.def).is_none();
        let infcx = tcx.infer_ctxt().build(TypingMode::non_body_analysis());
        let ocx = ObligationCtxt::<FulfillmentError<'tcx>>::new_with_diagnostics(&infcx);
        let cause = ObligationCause::dummy();
        let env = ParamEnv::empty();
        let fresh = infcx.fresh_args_for_item(DUMMY_SP, parent);
        if is_impl {
            let tr = tcx.impl_trait_ref(parent).instantiate(tcx, fresh).skip_norm_wip();
            for (x, y) in [(tr.self_ty(), self_ty), (tr.args.type_at(1), a), (tr.args.type_at(2), b)] {
                if ocx.eq(&cause, env, x, y).is_err() {
                    return Err(format!("no implementation for {self_ty} mapping {a} to {b}"));
                }
            }
        } else {
            // default method of the trait itself
            for (k, y) in [self_ty, a, b, tcx_marker(tcx, parent)].into_iter().enumerate() {
                if ocx.eq(&cause, env, fresh.type_at(k), y).is_err() {
                    return Err("trait arguments".into());
                }
            }
        }
        let fresh = infcx.deeply_resolve_ignoring_regions(fresh);
        let fresh = tcx.erase_and_anonymize_regions(fresh);
        if fresh.iter().any(|g| format!("{g:?}").contains('?')) {
            return Err(format!("arguments of the implementation: {fresh:?}"));
        }
        let idx = self.fresh;
        self.fresh += 1;
        let args = ty::GenericArgs::for_item(tcx, t.def, |p, _| {
            if let Some(g) = fresh.get(p.index as usize) {
                return *g;
            }
            match p.kind {
                ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                ty::GenericParamDefKind::Type { .. } => {
                    let n = p.name.as_str().to_string();
                    // the marker a default `_over` method is called with; the error type is shared
                    let m = if n == "E" { 900 } else { 1000 + 20 * (idx + 1) + p.index };
                    Ty::new_param(tcx, m, Symbol::intern(&format!("{}{m}", if n.starts_with("impl") { "F" } else { &n }))).into()
                }
                ty::GenericParamDefKind::Const { .. } => ty::Const::new_error_with_message(tcx, DUMMY_SP, "const parameter of a method").into(),
            }
        });
        for c in tcx.clauses_of(t.def).instantiate(tcx, args).clauses {
            self.clauses.push(c.skip_norm_wip());
        }
        let fallible = t.method.starts_with("try");
        
        Ok(Step { method: t.def, args, closure, fallible })
    }
    fn env(&mut self) -> ty::TypingEnv<'tcx> {
        let tcx = self.tcx;
        let mut cl: Vec<ty::Clause<'tcx>> = vec![];
        for c in rustc_infer::traits::util::elaborate(tcx, self.clauses.drain(..)) {
            let c = tcx.erase_and_anonymize_regions(c);
            if !cl.contains(&c) {
                cl.push(c);
            }
        }
        let env = ParamEnv::new(tcx, cl);
        ty::TypingEnv::new(env, TypingMode::PostAnalysis)
    }
}

fn tcx_marker<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId) -> Ty<'tcx> {
    ty::GenericArgs::identity_for_item(tcx, tr).type_at(3)
}

pub fn laws<'tcx>(tcx: TyCtxt<'tcx>, ts: &[Target<'tcx>], commute: bool) -> Vec<Result<Law<'tcx>, (String, String)>> {
    let mut out = vec![];
    let plain: Vec<&Target> = ts.iter().filter(|t| matches!(t.method, "func_map" | "try_func_map")).collect();
    let key = |t: &Target<'tcx>| format!("{}#{}", t.self_ty, t.marker);
    // the infallible mapping of the same type and parameter
    let sibling = |t: &Target<'tcx>| {
        plain.iter().find(|u| u.method == "func_map" && {
            let (Some(x), Some(y)) = (t.self_ty.ty_adt_def(), u.self_ty.ty_adt_def()) else {
                return std::mem::discriminant(t.self_ty.kind()) == std::mem::discriminant(u.self_ty.kind()) && u.marker == t.marker && arity(t.self_ty) == arity(u.self_ty);
            };
            x == y && t.marker == u.marker
        })
    };
    let mk = |law: &'static str, t: &Target<'tcx>, what: String, f: &dyn Fn(&mut Build<'tcx>) -> Result<(Vec<Step<'tcx>>, Vec<Step<'tcx>>), String>| {
        let mut b = Build { tcx, clauses: vec![], fresh: 0 };
        match f(&mut b) {
            Ok((left, right)) => {
                let env = b.env();
                Ok(Law { law, name: what, method: t.method, self_ty: t.self_ty, left, right, env, contract_calls: t.contract_calls })
            }
            Err(m) => Err((what, m)),
        }
    };
    if !commute {
        for t in &plain {
            out.push(mk("identity", t, format!("identity: {}", t.name), &|b| Ok((vec![b.step(t, t.self_ty, t.a, t.a, "id")?], vec![]))));
            out.push(mk("composition", t, format!("composition: {}", t.name), &|b| {
                let c = b.param("C");
                let l1 = b.step(t, t.self_ty, t.a, t.b, "f")?;
                let mid = replace(tcx, t.self_ty, t.a, t.b);
                let l2 = b.step(t, mid, t.b, c, "g")?;
                let r = b.step(t, t.self_ty, t.a, c, "gf")?;
                Ok((vec![l1, l2], vec![r]))
            }));
            if t.method == "try_func_map" {
                let Some(s) = sibling(t) else {
                    // nothing to compare with
                    continue;
                };
                out.push(mk("infallible", t, format!("infallible: {}", t.name), &|b| Ok((vec![b.step(t, t.self_ty, t.a, t.b, "f")?], vec![b.step(s, t.self_ty, t.a, t.b, "f")?]))));
            }
        }
        for t in ts.iter().filter(|t| t.method.ends_with("_over")) {
            let m = t.method.trim_end_matches("_over");
            let Some(s) = ts.iter().find(|u| u.method == m && tcx.parent(u.def) == tcx.parent(t.def)).cloned().or_else(|| trait_method(tcx, t, m)) else { continue };
            out.push(mk("over", t, format!("over: {}", t.name), &|b| Ok((vec![b.step(t, t.self_ty, t.a, t.b, "f")?], vec![b.step(&s, t.self_ty, t.a, t.b, "f")?]))));
        }
        return out;
    }
    for (n, t) in plain.iter().enumerate() {
        for u in &plain[n + 1..] {
            if t.method != u.method || t.marker == u.marker || !same_head(t.self_ty, u.self_ty) {
                continue;
            }
            let _ = &key;
            out.push(mk("commutation", t, format!("commutation: {} with TypeParam<{}>", t.name, u.marker), &|b| {
                // parameter of the second mapping, in the first one's terms
                let (Some(p), Some(q)) = (position(t), position(u)) else { return Err("position of the mapped parameter".into()) };
                let _ = p;
                let Some(a2) = arg_at(t.self_ty, q) else { return Err("position of the mapped parameter".into()) };
                let b2 = b.param("B2");
                let s0 = t.self_ty;
                let s1 = replace(tcx, s0, t.a, t.b);
                let s2 = replace(tcx, s0, a2, b2);
                Ok((vec![b.step(t, s0, t.a, t.b, "f")?, b.step(u, s1, a2, b2, "g")?], vec![b.step(u, s0, a2, b2, "g")?, b.step(t, s2, t.a, t.b, "f")?]))
            }));
        }
    }
    out
}
fn trait_method<'tcx>(tcx: TyCtxt<'tcx>, t: &Target<'tcx>, m: &str) -> Option<Target<'tcx>> {
    let tr = tcx.trait_of_assoc(t.def)?;
    let d = tcx.associated_items(tr).in_definition_order().find(|a| tcx.item_name(a.def_id).as_str() == m)?.def_id;
    let method = crate::method_name(m)?;
    Some(Target { def: d, method, ..t.clone() })
}
fn arity(t: Ty<'_>) -> usize {
    match t.kind() {
        ty::Tuple(l) => l.len(),
        _ => 0,
    }
}
fn same_head<'tcx>(a: Ty<'tcx>, b: Ty<'tcx>) -> bool {
    match (a.kind(), b.kind()) {
        (ty::Adt(x, _), ty::Adt(y, _)) => x == y,
        (ty::Tuple(x), ty::Tuple(y)) => x.len() == y.len(),
        _ => false,
    }
}
fn arg_at<'tcx>(t: Ty<'tcx>, n: usize) -> Option<Ty<'tcx>> {
    match t.kind() {
        ty::Adt(_, args) => args.iter().filter_map(|a| a.as_type()).nth(n),
        ty::Tuple(l) => l.get(n).copied(),
        _ => None,
    }
}
fn position(t: &Target<'_>) -> Option<usize> {
    (0..64).find(|n| arg_at(t.self_ty, *n) == Some(t.a))
}

impl<'tcx> Eng<'tcx> {
    /// value of a closure of a law
    pub fn law_result(&mut self, f: &Rc<T>, at: &Rc<T>, arg: &V<'tcx>, ty: Ty<'tcx>) -> V<'tcx> {
        match &**f {
            T::In(n) if n == "id" => arg.clone(),
            T::In(n) if n == "gf" => {
                let x = T::Ret(Rc::new(T::In("f".into())), at.clone());
                self.res(T::Ret(Rc::new(T::In("g".into())), Rc::new(x)), ty)
            }
            _ => self.res(T::Ret(f.clone(), at.clone()), ty),
        }
    }
    /// a set, map or heap built by insertion may be iterated in any order
    pub fn permute(&mut self, i: &Info, built: bool, kind: DefId, segs: Vec<Seg<'tcx>>) -> R<(bool, Vec<Seg<'tcx>>)> {
        let assoc = matches!(self.adt_kind(kind), AdtK::Cont(ContK::Assoc | ContK::AssocIter));
        if !(self.laws && built && assoc) {
            return Ok((built, segs));
        }
        let segs = self.join(i, &segs);
        if segs.is_empty() || segs.len() == 1 && segs[0].len.is_const() == Some(1) {
            return Ok((false, segs));
        }
        if segs.len() > 1 {
            return und("iteration over a rebuilt set, map or heap in pieces");
        }
        let id = self.sym();
        self.perms.insert(id, segs[0].len.clone());
        let s = &segs[0];
        let ix = Lin::atom(Atom::Perm(id, Box::new(Lin::sym(s.var))));
        let val = s.val.subst(&Sub { s: s.var, l: &ix });
        Ok((false, vec![Seg { len: s.len.clone(), var: s.var, val }]))
    }
    /// base value and the parameters that were mapped, in order
    pub fn entries(&mut self, v: &V<'tcx>) -> R<(T, Vec<(String, Vec<Seg<'tcx>>)>)> {
        match v {
            V::Res(t, _) => Ok((t.clone(), vec![])),
            V::Mapped { src, k, segs, prev, .. } => {
                let mut e = match prev {
                    Some(p) => self.entries(p)?.1,
                    None => vec![],
                };
                e.push((k.clone(), segs.to_vec()));
                Ok((src.clone(), e))
            }
            _ => und(format!("mapping of a value in pieces: {v:?}")),
        }
    }
    pub fn plain_occurrences(&mut self, base: &T, k: &str, ty: Ty<'tcx>) -> Seg<'tcx> {
        let var = self.sym();
        let len = Lin::atom(Atom::Len(base.clone(), k.to_string()));
        let val = self.res(T::Elem(Rc::new(base.clone()), k.to_string(), Rc::new(Lin::sym(var))), ty);
        Seg { len, var, val }
    }
    /// result of a nested mapping, assuming that it obeys the laws itself
    pub fn law_mapped(&mut self, i: &Info, tok: &V<'tcx>, k: String, segs: Vec<Seg<'tcx>>, ety: Ty<'tcx>, rty: Ty<'tcx>) -> R<V<'tcx>> {
        let (base, mut e) = self.entries(tok)?;
        e.retain(|x| x.0 != k);
        let p = self.plain_occurrences(&base, &k, ety);
        let same = match &segs[..] {
            [] => self.prove(i, &Form::le(&p.len, &Lin::k(0))),
            [s] => {
                self.lin_eq(i, &s.len, &p.len) && {
                    let j = Lin::sym(self.sym());
                    let mut pc = i.pc.to_vec();
                    pc.push(Form::lt(&j, &s.len));
                    let (x, y) = (self.at(s, &j), self.at(&p, &j));
                    let i2 = Info { pc: &pc, variants: i.variants };
                    matches!(self.val_eq(&i2, &x, &y, false), Ok(true))
                }
            }
            _ => false,
        };
        if !same {
            e.push((k, segs));
        }
        e.sort_by(|a, b| a.0.cmp(&b.0));
        let mut prev = None;
        for (k, segs) in e {
            prev = Some(Rc::new(V::Mapped { src: base.clone(), k, segs: Rc::new(segs), ty: rty, prev }));
        }
        match prev {
            Some(v) => Ok((*v).clone()),
            None => Ok(self.res(base, rty)),
        }
    }
    pub fn mapped_eq(&mut self, i: &Info, a: &V<'tcx>, b: &V<'tcx>, lax: bool) -> R<bool> {
        let (x, ea) = self.entries(a)?;
        let (y, eb) = self.entries(b)?;
        if !self.term_eq(i, &x, &y) {
            return Ok(false);
        }
        fn ety<'tcx>(tcx: TyCtxt<'tcx>, s: &[Seg<'tcx>]) -> Ty<'tcx> {
            match s.first().map(|s| &s.val) {
                Some(V::Res(_, t) | V::Agg(t, ..) | V::Mapped { ty: t, .. }) => *t,
                _ => tcx.types.unit,
            }
        }
        let mut ks: Vec<String> = ea.iter().chain(eb.iter()).map(|e| e.0.clone()).collect();
        ks.sort();
        ks.dedup();
        for k in ks {
            let p = ea.iter().find(|e| e.0 == k).map(|e| e.1.clone());
            let q = eb.iter().find(|e| e.0 == k).map(|e| e.1.clone());
            let t = ety(self.tcx, p.as_ref().or(q.as_ref()).unwrap());
            let p = match p {
                Some(p) => p,
                None => vec![self.plain_occurrences(&x, &k, t)],
            };
            let q = match q {
                Some(q) => q,
                None => vec![self.plain_occurrences(&y, &k, t)],
            };
            if !self.segs_eq(i, &p, &q, lax)? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// equality of unordered containers
    pub fn multi_eq(&mut self, i: &Info, a: &[Seg<'tcx>], b: &[Seg<'tcx>], lax: bool) -> R<bool> {
        let (x, px) = self.reindex(i, a)?;
        let (y, py) = self.reindex(i, b)?;
        match self.segs_eq(i, &x, &y, lax) {
            Ok(false) => {}
            r => return r,
        }
        // inserted in the opposite order
        let r: Vec<Seg<'tcx>> = y
            .iter()
            .rev()
            .map(|s| Seg { len: s.len.clone(), var: s.var, val: s.val.subst(&Sub { s: s.var, l: &s.len.sub(&Lin::sym(s.var)).addk(-1) }) })
            .collect();
        match self.segs_eq(i, &x, &r, lax) {
            Ok(false) => {}
            r => return r,
        }
        if px || py || x.len() > 1 || y.len() > 1 {
            return und("comparison of unordered containers in pieces");
        }
        Ok(false)
    }
    /// join neighbours that follow the same pattern
    fn join(&mut self, i: &Info, segs: &[Seg<'tcx>]) -> Vec<Seg<'tcx>> {
        let mut v = segs.to_vec();
        v.retain(|s| !s.len.is_zero());
        let mut n = 0;
        while n + 1 < v.len() {
            let (s, t) = (v[n].clone(), v[n + 1].clone());
            let var = self.sym();
            let val = t.val.subst(&Sub { s: t.var, l: &Lin::sym(var).sub(&s.len) });
            let j = if s.len.is_const() == Some(1) { Lin::k(0) } else { Lin::sym(self.sym()) };
            let mut pc = i.pc.to_vec();
            pc.push(Form::lt(&j, &s.len));
            let i2 = Info { pc: &pc, variants: i.variants };
            let at = val.subst(&Sub { s: var, l: &j });
            let here = self.at(&s, &j);
            if matches!(self.val_eq(&i2, &here, &at, false), Ok(true)) {
                v[n] = Seg { len: s.len.add(&t.len), var, val };
                v.remove(n + 1);
                continue;
            }
            let j = if t.len.is_const() == Some(1) { Lin::k(0) } else { Lin::sym(self.sym()) };
            let mut pc = i.pc.to_vec();
            pc.push(Form::lt(&j, &t.len));
            let i2 = Info { pc: &pc, variants: i.variants };
            let next = self.at(&s, &j.add(&s.len));
            let here = self.at(&t, &j);
            if s.len.is_const() != Some(1) && matches!(self.val_eq(&i2, &here, &next, false), Ok(true)) {
                v[n] = Seg { len: s.len.add(&t.len), ..s };
                v.remove(n + 1);
                continue;
            }
            n += 1;
        }
        v
    }
    /// the same value in fewer pieces
    pub fn join_all(&mut self, i: &Info, v: &V<'tcx>) -> V<'tcx> {
        let segs = |e: &mut Self, s: &[Seg<'tcx>]| {
            let s: Vec<Seg<'tcx>> = s
                .iter()
                .map(|g| {
                    let mut pc = i.pc.to_vec();
                    pc.push(Form::lt(&Lin::sym(g.var), &g.len));
                    let i2 = Info { pc: &pc, variants: i.variants };
                    Seg { len: g.len.clone(), var: g.var, val: e.join_all(&i2, &g.val) }
                })
                .collect();
            Rc::new(e.join(i, &s))
        };
        match v {
            V::Seq(s) => V::Seq(segs(self, s)),
            V::Cont { kind, built, segs: s } => V::Cont { kind: *kind, built: *built, segs: segs(self, s) },
            V::Agg(t, n, fs) => V::Agg(*t, *n, Rc::new(fs.iter().map(|f| self.join_all(i, f)).collect())),
            V::Box(b) => V::Box(Rc::new(self.join_all(i, b))),
            V::Mapped { src, k, segs: s, ty, prev } => V::Mapped { src: src.clone(), k: k.clone(), segs: segs(self, s), ty: *ty, prev: prev.clone() },
            v => v.clone(),
        }
    }
    /// undo permutations of all indices; the flag tells whether one is left
    fn reindex(&mut self, i: &Info, segs: &[Seg<'tcx>]) -> R<(Vec<Seg<'tcx>>, bool)> {
        let mut v = self.join(i, segs);
        let has = |v: &[Seg<'tcx>]| v.iter().any(|s| format!("{:?}", s.val).contains("perm"));
        while v.len() == 1 {
            let s = &v[0];
            let text = format!("{:?}", s.val);
            let Some(id) = self.perms.keys().copied().find(|id| {
                let whole = format!("perm{id}(${})", s.var);
                text.contains(&whole) && !text.replace(&whole, "").contains(&format!("${}", s.var)) | text.replace(&whole, "").contains(&format!("perm{id}("))
            }) else {
                break;
            };
            let len = self.perms[&id].clone();
            // every index of the permuted container occurs
            if !self.lin_eq(i, &s.len.clone(), &len) {
                break;
            }
            let s = v[0].clone();
            let var = self.sym();
            let val = unperm(&s.val, id, s.var, var);
            v[0] = Seg { len: s.len, var, val };
        }
        let h = has(&v);
        Ok((v, h))
    }

    fn run_step(&mut self, st: &State<'tcx>, step: &Step<'tcx>, x: V<'tcx>) -> R<Vec<(State<'tcx>, V<'tcx>)>> {
        let tcx = self.tcx;
        let mut st = st.clone();
        let inst;
        if let Some(tr) = tcx.trait_of_assoc(step.method) {
            if tcx.defaultness(step.method).has_value() {
                inst = Instance::new_raw(step.method, step.args);
            } else {
                // an implementation that is not known: its contract
                let m = tcx.item_name(step.method).to_string();
                let Some(d) = self.models.get(&m).copied() else { return und("model") };
                let _ = tr;
                let a: Vec<_> = step.args.iter().filter(|a| a.as_region().is_none()).collect();
                inst = Instance::new_raw(d, tcx.mk_args(&a));
            }
        } else {
            inst = Instance::new_raw(step.method, step.args);
        }
        let b = self.body(inst)?;
        let fty = self.norm(b.body.args_iter().nth(1).map(|l| b.body.local_decls[l].ty).unwrap())?;
        let ret_ty = self.norm(b.body.return_ty())?;
        let f = self.res(T::In(step.closure.into()), fty);
        st.mem.insert(AllocId::Heap(0), Cell { v: V::Uninit, ty: ret_ty });
        let ret = Ret {
            dest: Some((Ptr { a: AllocId::Heap(0), path: vec![], meta: None }, ret_ty)),
            target: None,
            unwind: rustc_middle::mir::UnwindAction::Continue,
        };
        st.trace.clear();
        st.steps = 0;
        self.push_frame(&mut st, b, vec![x, f], ret)?;
        let (_, exits) = self.explore(st, None);
        let mut out = vec![];
        let mut work = exits;
        while let Some(s) = work.pop() {
            if s.unwinding {
                if !s.unwind_ok {
                    self.record_viol(&s, Cat::Panic, "the mapping panics by itself".into());
                }
                continue;
            }
            let Some(c) = s.mem.get(&AllocId::Heap(0)).cloned() else { return und("no result") };
            self.o("initialised-result");
            if !self.init(&Info { pc: &s.pc, variants: &s.variants }, &c.v, c.ty) {
                self.record_viol(&s, Cat::Safety, format!("result is not fully initialised: {:?}", c.v));
                continue;
            }
            if !step.fallible {
                out.push((s, c.v));
                continue;
            }
            match self.expand(&Info { pc: &s.pc, variants: &s.variants }, &c.v) {
                Ok(V::Agg(_, 0, fs)) => out.push((s, fs[0].clone())),
                Ok(V::Agg(..)) => self.record_viol(&s, Cat::Value, "returns an error although no call failed".into()),
                Ok(v) => self.record_und(&s, format!("result {v:?}")),
                Err(Stop::Split(alts)) => {
                    for a in &alts {
                        if let Some(s) = self.apply_alt(&s, a) {
                            work.push(s);
                        }
                    }
                }
                Err(Stop::Viol { cat, msg }) => self.record_viol(&s, cat, msg),
                Err(Stop::Und(m)) => self.record_und(&s, m),
            }
        }
        Ok(out)
    }
    fn run_steps(&mut self, st: &State<'tcx>, steps: &[Step<'tcx>], x: V<'tcx>) -> R<Vec<(State<'tcx>, V<'tcx>)>> {
        let mut cur = vec![(st.clone(), x)];
        for s in steps {
            let mut next = vec![];
            for (st, v) in cur {
                let v = self.join_all(&Info { pc: &st.pc, variants: &st.variants }, &v);
                if std::env::var("DV_TRACE").is_ok() {
                    eprintln!("STEP {s:?} on {v:?}");
                }
                next.extend(self.run_step(&st, s, v)?);
            }
            cur = next;
        }
        Ok(cur)
    }
    pub fn check_law(&mut self, l: &Law<'tcx>) -> R<()> {
        let st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            pc: vec![],
            variants: BTreeMap::new(),
            trace: vec![],
            unwinding: false,
            unwind_ok: false,
            steps: 0,
        };
        let self_ty = self.norm(l.self_ty)?;
        let x = self.res(T::In("x".into()), self_ty);
        let ls = self.run_steps(&st, &l.left, x.clone())?;
        for (s, v) in ls {
            for (s, w) in self.run_steps(&s, &l.right, x.clone())? {
                let mut work = vec![s];
                while let Some(s) = work.pop() {
                    let i = &Info { pc: &s.pc, variants: &s.variants };
                    self.o("law");
                    match self.val_eq(i, &v, &w, false) {
                        Ok(true) => self.paths_done += 1,
                        Ok(false) => {
                            let known = self.exhausted_lost(i, &v, &w, l);
                            let k = if known { "KNOWN:range-inclusive-exhausted " } else { "" };
                            self.record_viol(&s, Cat::Value, format!("{k}{}: {v:?} on one side, {w:?} on the other", l.law));
                        }
                        Err(Stop::Split(alts)) => {
                            for a in &alts {
                                if let Some(s) = self.apply_alt(&s, a) {
                                    work.push(s);
                                }
                            }
                        }
                        Err(Stop::Viol { cat, msg }) => self.record_viol(&s, cat, msg),
                        Err(Stop::Und(m)) => self.record_und(&s, m),
                    }
                    if std::time::Instant::now() > self.deadline {
                        return und("time limit");
                    }
                }
            }
        }
        // what is dropped and when is not a matter of the laws
        self.viols.retain(|v| v.cat != Cat::Own);
        if self.paths_done == 0 && self.viols.is_empty() && self.unds.is_empty() {
            return und("no execution reaches an end");
        }
        Ok(())
    }
    fn exhausted_lost(&mut self, i: &Info, v: &V<'tcx>, w: &V<'tcx>, l: &Law<'tcx>) -> bool {
        let (v, w) = match (self.expand(i, v), self.expand(i, w)) {
            (Ok(v), Ok(w)) => (v, w),
            _ => return false,
        };
        let ty = l.self_ty;
        matches!(self.only_exhausted_lost(i, &v, &w, ty), Ok(true)) || matches!(self.only_exhausted_lost(i, &w, &v, ty), Ok(true))
    }
}

fn binders(v: &V<'_>, out: &mut Vec<u32>) {
    let segs = |s: &[Seg<'_>], out: &mut Vec<u32>| {
        for s in s {
            out.push(s.var);
            binders(&s.val, out);
        }
    };
    match v {
        V::Agg(_, _, fs) => fs.iter().for_each(|f| binders(f, out)),
        V::Box(b) => binders(b, out),
        V::Seq(s) => segs(s, out),
        V::Cont { segs: s, .. } => segs(s, out),
        V::Mapped { segs: s, prev, .. } => {
            segs(s, out);
            if let Some(p) = prev {
                binders(p, out);
            }
        }
        _ => {}
    }
}

/// replace `perm(id, var)` by a new variable
fn unperm<'tcx>(v: &V<'tcx>, id: u32, var: u32, new: u32) -> V<'tcx> {
    // two substitutions: the permuted index is the only way the old variable occurs
    fn lin(l: &Lin, id: u32, var: u32, new: u32) -> Lin {
        let mut r = Lin::k(l.c);
        for (a, k) in &l.t {
            let x = match a {
                Atom::Perm(p, m) if *p == id && **m == Lin::sym(var) => Lin::sym(new),
                Atom::Perm(p, m) => Lin::atom(Atom::Perm(*p, Box::new(lin(m, id, var, new)))),
                Atom::Len(t, s) => Lin::atom(Atom::Len(term(t, id, var, new), s.clone())),
                Atom::IntOf(t) => Lin::atom(Atom::IntOf(term(t, id, var, new))),
                a => Lin::atom(a.clone()),
            };
            r = r.add_scaled(&x, *k);
        }
        r
    }
    fn term(t: &T, id: u32, var: u32, new: u32) -> T {
        let go = |t: &Rc<T>| Rc::new(term(t, id, var, new));
        match t {
            T::In(_) => t.clone(),
            T::Field(x, v, i) => T::Field(go(x), *v, *i),
            T::Content(x) => T::Content(go(x)),
            T::Elem(x, k, l) => T::Elem(go(x), k.clone(), Rc::new(lin(l, id, var, new))),
            T::Ret(f, x) => T::Ret(go(f), go(x)),
            T::ErrRet(f, x) => T::ErrRet(go(f), go(x)),
        }
    }
    fn form(f: &Form, id: u32, var: u32, new: u32) -> Form {
        match f {
            Form::True | Form::False => f.clone(),
            Form::Le0(l) => Form::Le0(lin(l, id, var, new)),
            Form::Eq0(l) => Form::Eq0(lin(l, id, var, new)),
            Form::Not(g) => form(g, id, var, new).not(),
            Form::And(v) => v.iter().fold(Form::True, |a, f| Form::and(a, form(f, id, var, new))),
            Form::Or(v) => v.iter().fold(Form::False, |a, f| Form::or(a, form(f, id, var, new))),
        }
    }
    let segs = |s: &Vec<Seg<'tcx>>| Rc::new(s.iter().map(|s| Seg { len: lin(&s.len, id, var, new), var: s.var, val: unperm(&s.val, id, var, new) }).collect::<Vec<_>>());
    match v {
        V::Uninit | V::Moved | V::Any | V::Ptr(_) => v.clone(),
        V::Int(l) => V::Int(lin(l, id, var, new)),
        V::Bool(f) => V::Bool(form(f, id, var, new)),
        V::Res(t, ty) => V::Res(term(t, id, var, new), *ty),
        V::Agg(ty, n, fs) => V::Agg(*ty, *n, Rc::new(fs.iter().map(|x| unperm(x, id, var, new)).collect())),
        V::Box(b) => V::Box(Rc::new(unperm(b, id, var, new))),
        V::Seq(s) => V::Seq(segs(s)),
        V::Cont { kind, built, segs: s } => V::Cont { kind: *kind, built: *built, segs: segs(s) },
        V::Mapped { src, k, segs: s, ty, prev } => {
            V::Mapped { src: term(src, id, var, new), k: k.clone(), segs: segs(s), ty: *ty, prev: prev.as_ref().map(|p| Rc::new(unperm(p, id, var, new))) }
        }
    }
}

impl<'tcx> Eng<'tcx> {
    /// a loop that moves every element of an iterator through a computation into a list: the invariant is read off
    /// one run of the body for an arbitrary element; where nothing else changes that run already proves it
    pub fn map_loop(&mut self, s0: &State<'tcx>, stop: &crate::loops::LoopStop) -> Option<Vec<State<'tcx>>> {
        let mut it = None;
        let mut acc = None;
        for (k, c) in &s0.mem {
            let AllocId::Local(uid, _) = k else { continue };
            if *uid != stop.uid {
                continue;
            }
            if let V::Cont { segs, kind, .. } = &c.v {
                let into = matches!(self.adt_kind(*kind), AdtK::Cont(ContK::Seq));
                let slot = if segs.is_empty() && into { &mut acc } else { &mut it };
                if slot.replace((*k, c.clone())).is_some() {
                    return None;
                }
            }
        }
        let ((ik, ic), (ck, cc)) = (it?, acc?);
        let (V::Cont { kind, built, segs }, V::Cont { kind: ckind, .. }) = (&ic.v, &cc.v) else { return None };
        let [seg] = &segs[..] else { return None };
        let len = seg.len.clone();
        if !self.laws && len.is_const().is_some() {
            return None;
        }
        let n = self.sym();
        let nl = Lin::sym(n);
        let rest = |e: &mut Self, from: &Lin| {
            let var = e.sym();
            let val = seg.val.subst(&Sub { s: seg.var, l: &Lin::sym(var).add(from) });
            V::Cont { kind: *kind, built: *built, segs: Rc::new(vec![Seg { len: len.sub(from), var, val }]) }
        };
        let havoc = Seg { len: nl.clone(), var: self.sym(), val: V::Res(T::In("?".into()), self.tcx.types.unit) };
        let list = |v: Vec<Seg<'tcx>>| V::Cont { kind: *ckind, built: true, segs: Rc::new(v) };
        let mut s = s0.clone();
        s.mem.insert(ik, Cell { v: rest(self, &nl), ty: ic.ty });
        s.mem.insert(ck, Cell { v: list(vec![havoc.clone()]), ty: cc.ty });
        s.pc.push(Form::lt(&nl, &len));
        let save = (self.viols.len(), self.unds.len());
        for _ in 0..2 {
            self.o("loop-preserve");
            let (backs, exits) = self.explore(s.clone(), Some(stop));
            let b = self.merge(backs);
            let bad = self.viols.len() > save.0 || self.unds.len() > save.1;
            self.viols.truncate(save.0);
            self.unds.truncate(save.1);
            if bad && self.laws || b.len() != 1 || self.laws && !exits.is_empty() {
                return None;
            }
            let b = &b[0];
            let V::Cont { segs: out, .. } = &b.mem.get(&ck)?.v else { return None };
            if out.len() != 2 || out[1].len.is_const() != Some(1) || b.trace.len() < s0.trace.len() || self.laws && !b.trace.is_empty() {
                return None;
            }
            let new = self.at(&out[1], &Lin::k(0));
            if format!("{new:?}").contains("\"?\"") {
                return None;
            }
            // symbols made up in the body depend on the element in an unknown way
            let mut bound = vec![];
            binders(&new, &mut bound);
            let text = format!("{new:?}");
            let made = |p: &str| {
                text.match_indices(p).any(|(at, _)| {
                    let d: String = text[at + p.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse::<u32>().map_or(false, |k| k > n && !bound.contains(&k))
                })
            };
            if made("$") || made("perm") {
                return None;
            }
            let one = self.one(new.clone());
            let mut want = s.clone();
            want.mem.insert(ik, Cell { v: rest(self, &nl.addk(1)), ty: ic.ty });
            want.mem.insert(ck, Cell { v: list(vec![havoc.clone(), one]), ty: cc.ty });
            let mut dead = vec![];
            let keys: std::collections::BTreeSet<AllocId> = want.mem.keys().chain(b.mem.keys()).copied().collect();
            for k in keys {
                let (x, y) = (want.mem.get(&k).cloned(), b.mem.get(&k).cloned());
                let i = Info { pc: &b.pc, variants: &b.variants };
                if let (Some(x), Some(y)) = (&x, &y) {
                    if matches!(self.val_eq(&i, &x.v, &y.v, true), Ok(true)) {
                        continue;
                    }
                }
                for c in [&x, &y].into_iter().flatten() {
                    if self.has_live(&c.v) {
                        return None;
                    }
                }
                let ty = x.or(y).unwrap().ty;
                if !matches!(s.mem.get(&k), Some(Cell { v: V::Any, .. })) {
                    dead.push((k, ty));
                }
            }
            if !dead.is_empty() {
                for (k, ty) in dead {
                    s.mem.insert(k, Cell { v: V::Any, ty });
                }
                continue;
            }
            if !self.laws {
                let mut g = s.clone();
                g.pc = s0.pc.clone();
                let j = self.sym();
                let jl = Lin::sym(j);
                let done = Seg { len: nl.clone(), var: j, val: new.subst(&Sub { s: n, l: &jl }) };
                g.mem.insert(ck, Cell { v: list(vec![done]), ty: cc.ty });
                let k = self.sym();
                let body: Vec<_> = b.trace[s0.trace.len()..].iter().map(|t| t.subst(&Sub { s: n, l: &Lin::sym(k) })).collect();
                g.trace = s0.trace.clone();
                if !body.is_empty() {
                    g.trace.push(TItem::Loop { count: nl.clone(), var: k, body });
                }
                let r = self.verify_loop(s0, &g, &[Form::lt(&nl, &len)], n, stop);
                if r.is_err() {
                    self.viols.truncate(save.0);
                    self.unds.truncate(save.1);
                    if std::env::var("DV_LOOP").is_ok() {
                        eprintln!("map loop: {:?}", r.as_ref().err());
                    }
                }
                return r.ok();
            }
            match self.state_eq(&want, b) {
                Ok(true) => {}
                _ => return None,
            }
            // after the last element
            let mut s = s;
            s.pc = s0.pc.clone();
            let var = self.sym();
            let all = Seg { len: len.clone(), var, val: new.subst(&Sub { s: n, l: &Lin::sym(var) }) };
            s.mem.insert(ik, Cell { v: V::Cont { kind: *kind, built: *built, segs: Rc::new(vec![]) }, ty: ic.ty });
            let all = if len.is_zero() { vec![] } else { vec![all] };
            s.mem.insert(ck, Cell { v: list(all), ty: cc.ty });
            let (backs, exits) = self.explore(s, Some(stop));
            if !backs.is_empty() {
                self.viols.truncate(save.0);
                self.unds.truncate(save.1);
                return None;
            }
            return Some(exits);
        }
        None
    }
}
