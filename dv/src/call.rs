//! Calls: contracts of standard-library leaf operations, closures, everything else inlined.
use crate::eng::*;

use crate::term::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty};
use std::rc::Rc;

macro_rules! inf {
    ($st:expr) => {
        &crate::eng::Info { pc: &$st.pc, variants: &$st.variants }
    };
}

type Succ<'tcx> = R<Vec<State<'tcx>>>;

impl<'tcx> Eng<'tcx> {
    pub fn unit(&self) -> V<'tcx> {
        V::Agg(self.tcx.types.unit, 0, Rc::new(vec![]))
    }
    /// finish a call immediately with a value
    pub fn done(&mut self, mut st: State<'tcx>, ret: &Ret<'tcx>, v: V<'tcx>) -> Succ<'tcx> {
        if let Some((d, _)) = &ret.dest {
            self.write(&mut st, d, v)?;
        } else {
            self.discard(inf!(st), &v, "ignored result");
        }
        self.resume(&mut st, ret)?;
        Ok(vec![st])
    }
    pub fn opt(&mut self, t: Ty<'tcx>, v: Option<V<'tcx>>) -> V<'tcx> {
        // Option<T>: None = variant 0, Some = variant 1
        match v {
            None => V::Agg(t, 0, Rc::new(vec![])),
            Some(v) => V::Agg(t, 1, Rc::new(vec![v])),
        }
    }
    /// path of the self type of an impl
    pub fn ty_key(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(d, _) => self.path(d.did()),
            ty::Array(..) => "array".into(),
            ty::Slice(..) => "slice".into(),
            ty::RawPtr(..) => "ptr".into(),
            ty::Ref(..) => "ref".into(),
            ty::Param(_) => "param".into(),
            ty::Closure(..) => "closure".into(),
            ty::Tuple(_) => "tuple".into(),
            _ => format!("{t:?}"),
        }
    }
    pub fn cont_kind_ty(&mut self, t: Ty<'tcx>) -> Option<(DefId, ContK)> {
        match t.kind() {
            ty::Adt(d, _) => match self.adt_kind(d.did()) {
                AdtK::Cont(k) => Some((d.did(), k)),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn call(
        &mut self,
        mut st: State<'tcx>,
        def: DefId,
        args: GenericArgsRef<'tcx>,
        vals: Vec<V<'tcx>>,
        tys: Vec<Ty<'tcx>>,
        ret: Ret<'tcx>,
    ) -> Succ<'tcx> {
        let tcx = self.tcx;
        let path = self.path(def);
        if std::env::var("DV_TRACE").is_ok() {
            eprintln!("{}call {path} {args:?} {vals:?}", " ".repeat(st.frames.len()));
        }
        // constructors
        if let rustc_hir::def::DefKind::Ctor(..) = tcx.def_kind(def) {
            let parent = tcx.parent(def);
            let (adt, var) = match tcx.def_kind(parent) {
                rustc_hir::def::DefKind::Variant => {
                    let e = tcx.parent(parent);
                    let ad = tcx.adt_def(e);
                    (e, ad.variant_index_with_id(parent).as_u32())
                }
                _ => (parent, 0),
            };
            let ty = self.norm(Ty::new_adt(tcx, tcx.adt_def(adt), args))?;
            let k = rustc_middle::mir::AggregateKind::Adt(adt, var.into(), args, None, None);
            let v = self.aggregate(&mut st, &k, vals, ty)?;
            return self.done(st, &ret, v);
        }
        if let Some(tr) = tcx.trait_of_assoc(def) {
            let name = tcx.item_name(def).to_string();
            let self_ty = self.norm(args.type_at(0))?;
            if tcx.fn_trait_kind_from_def_id(tr).is_some() {
                return self.call_fn_trait(st, &name, self_ty, args, vals, tys, ret);
            }
            let trp = self.path(tr);
            if let Some(r) = self.trait_builtin(&st, &trp, &name, self_ty, args, &vals, &tys, &ret)? {
                return match r {
                    Built::Val(st2, v) => self.done(st2, &ret, v),
                    Built::Model(m) => self.call_model(st, &m, args, vals, ret),
                    Built::Many(v) => Ok(v),
                };
            }
            // std containers: use the provided (default) method on top of the modelled ones
            if let Some(_) = self.cont_kind_ty(self_ty) {
                if matches!(trp.as_str(), "core::iter::traits::iterator::Iterator" | "core::iter::traits::double_ended::DoubleEndedIterator")
                    && tcx.defaultness(def).has_value()
                {
                    let inst = Instance::new_raw(def, args);
                    let b = self.body(inst)?;
                    self.inlined.insert(b.name.clone());
                    self.push_frame(&mut st, b, vals, ret)?;
                    return Ok(vec![st]);
                }
            }
        }
        let inst = match Instance::try_resolve(tcx, self.tenv, def, args) {
            Ok(Some(i)) => i,
            _ => return und(format!("unresolved call {path} {args:?}")),
        };
        let rdef = inst.def_id();
        if let Some(r) = self.builtin(&st, rdef, inst.args, &vals, &tys, &ret)? {
            return match r {
                Built::Val(st2, v) => self.done(st2, &ret, v),
                Built::Model(m) => self.call_model(st, &m, inst.args, vals, ret),
                Built::Many(v) => Ok(v),
            };
        }
        // diverging callee
        let sig = tcx.fn_sig(rdef).skip_binder().skip_binder();
        if sig.output().is_never() {
            return viol(Cat::Panic, format!("reaches {path}"));
        }
        match inst.def {
            ty::InstanceKind::Item(_) => {}
            _ => return und(format!("call of shim {inst:?}")),
        }
        if self.is_cont_internal(rdef) {
            return und(format!("no contract for {path}"));
        }
        let b = self.body(inst)?;
        self.inlined.insert(b.name.clone());
        self.push_frame(&mut st, b, vals, ret)?;
        Ok(vec![st])
    }
    /// `needs_drop` of the type itself, where `ManuallyDrop` and the like have no drop glue
    fn intrinsic_needs_drop(&mut self, t: Ty<'tcx>) -> Form {
        if !self.needs_drop(t) {
            return Form::False;
        }
        self.drop_form(t)
    }
    /// inherent or trait method of a modelled container
    fn is_cont_internal(&mut self, d: DefId) -> bool {
        let Some(p) = self.tcx.opt_parent(d) else { return false };
        // only the library's own code: an implementation of the crate under
        // verification for a container is verified code like any other
        let krate = self.tcx.crate_name(d.krate);
        if !matches!(krate.as_str(), "core" | "alloc" | "std" | "hashbrown" | "dv_models") {
            return false;
        }
        if let rustc_hir::def::DefKind::Impl { .. } = self.tcx.def_kind(p) {
            let t = self.tcx.type_of(p).skip_binder();
            return self.cont_kind_ty(t).is_some();
        }
        false
    }
    /// adding an element to an ordered or hashed collection runs user code (`Ord`, `Hash`),
    /// which may panic
    fn cont_insert(&mut self, st: &State<'tcx>, vals: &[V<'tcx>], tys: &[Ty<'tcx>], rty: Ty<'tcx>, ret: &Ret<'tcx>) -> R<Option<Built<'tcx>>> {
        let Some(c) = tys[0].builtin_deref(true) else { return und("collection") };
        let mut a: Vec<ty::GenericArg<'tcx>> = vec![c.into()];
        a.extend(tys[1..].iter().map(|t| ty::GenericArg::from(*t)));
        a.push(rty.into());
        let a = self.tcx.mk_args(&a);
        let m = if vals.len() == 3 { "map_insert" } else { "set_insert" };
        Ok(Some(Built::Many(self.call_model(st.clone(), m, a, vals.to_vec(), ret.clone())?)))
    }
    pub fn call_model(&mut self, mut st: State<'tcx>, m: &str, args: GenericArgsRef<'tcx>, vals: Vec<V<'tcx>>, ret: Ret<'tcx>) -> Succ<'tcx> {
        let Some(d) = self.models.get(m).copied() else { return und(format!("model {m} missing")) };
        let n = self.tcx.generics_of(d).count();
        if n > args.len() {
            return und(format!("model {m} generics {n} vs {args:?}"));
        }
        // all model functions take their type and const arguments in the order of the modelled function
        let a: Vec<ty::GenericArg<'tcx>> = args.iter().filter(|a| a.as_region().is_none()).collect();
        let a = self.tcx.mk_args(&a[..n.min(a.len())]);
        let inst = Instance::new_raw(d, a);
        let b = self.body(inst)?;
        self.trusted.insert(format!("contract {m}"));
        self.push_frame(&mut st, b, vals, ret)?;
        Ok(vec![st])
    }

    // ---- closures ----------------------------------------------------------
    fn untuple(&mut self, st: &mut State<'tcx>, v: V<'tcx>) -> R<Vec<V<'tcx>>> {
        match v {
            V::Agg(_, _, fs) => Ok(fs.to_vec()),
            V::Res(..) => {
                let e = self.expand(inf!(st), &v)?;
                self.untuple(st, e)
            }
            _ => und("argument tuple"),
        }
    }
    fn call_fn_trait(
        &mut self,
        mut st: State<'tcx>,
        name: &str,
        self_ty: Ty<'tcx>,
        args: GenericArgsRef<'tcx>,
        vals: Vec<V<'tcx>>,
        _tys: Vec<Ty<'tcx>>,
        ret: Ret<'tcx>,
    ) -> Succ<'tcx> {
        let tcx = self.tcx;
        let mut it = vals.into_iter();
        let mut sv = it.next().unwrap();
        let tup = it.next().unwrap();
        let mut self_ty = self_ty;
        let mut by_value = name == "call_once";
        let tuple_ty = args.type_at(1);
        loop {
            match self_ty.kind() {
                ty::Ref(_, inner, _) => {
                    if by_value {
                        by_value = false;
                    } else {
                        let V::Ptr(p) = &sv else { return und("closure reference") };
                        let p = self.reconcile(&st, p.clone(), self_ty)?;
                        sv = self.read(&mut st, &p, self_ty, false)?;
                    }
                    self_ty = *inner;
                }
                ty::Closure(d, cargs) => {
                    let kind = cargs.as_closure().kind();
                    let inst = Instance::new_raw(*d, cargs);
                    let b = self.body(inst)?;
                    self.inlined.insert(b.name.clone());
                    let mut a = self.untuple(&mut st, tup)?;
                    if kind == ty::ClosureKind::FnOnce {
                        if !by_value {
                            return und("FnOnce closure by reference");
                        }
                        a.insert(0, sv);
                        self.push_frame(&mut st, b, a, ret)?;
                        return Ok(vec![st]);
                    }
                    if by_value {
                        let uid = self.sym();
                        st.mem.insert(AllocId::Local(uid, 0), Cell { v: sv, ty: self_ty });
                        let once = Ret { dest: None, target: ret.target, unwind: ret.unwind };
                        st.frames.push(Frame { uid, k: FK::Once { ty: self_ty }, ret: once });
                        a.insert(0, V::Ptr(Self::local_ptr(uid, 0)));
                        let cret = Ret { dest: ret.dest, target: None, unwind: rustc_middle::mir::UnwindAction::Continue };
                        self.push_frame(&mut st, b, a, cret)?;
                        return Ok(vec![st]);
                    }
                    a.insert(0, sv);
                    self.push_frame(&mut st, b, a, ret)?;
                    return Ok(vec![st]);
                }
                ty::FnDef(d, a) => {
                    let v = self.untuple(&mut st, tup)?;
                    let tys = match tuple_ty.kind() {
                        ty::Tuple(l) => l.iter().collect(),
                        _ => vec![],
                    };
                    let (d, a) = (*d, a.skip_binder());
                    return self.call(st, d, a, v, tys, ret);
                }
                ty::FnPtr(..) => {
                    let fv = if by_value {
                        sv
                    } else {
                        let V::Ptr(p) = &sv else { return und("function pointer") };
                        let p = p.clone();
                        self.read(&mut st, &p, self_ty, false)?
                    };
                    if let V::Agg(t, _, _) = &fv {
                        if let ty::FnDef(..) = t.kind() {
                            self_ty = *t;
                            sv = fv;
                            by_value = true;
                            continue;
                        }
                        if let ty::Closure(..) = t.kind() {
                            self_ty = *t;
                            sv = fv;
                            by_value = true;
                            continue;
                        }
                    }
                    return und("call of an unknown function pointer");
                }
                ty::Param(_) | ty::Alias(..) => {
                    let ft = if by_value {
                        match sv {
                            V::Res(t, _) => t,
                            _ => return und("opaque closure"),
                        }
                    } else {
                        let V::Ptr(p) = &sv else { return und("opaque closure reference") };
                        let p = p.clone();
                        match self.peek(&mut st, &p)? {
                            V::Res(t, _) => t,
                            V::Moved | V::Uninit => return viol(Cat::Safety, "call of a moved-out closure"),
                            _ => return und("opaque closure value"),
                        }
                    };
                    let a = self.untuple(&mut st, tup)?;
                    // output type
                    let fo = tcx.require_lang_item(rustc_attr_ir::lang_items::LangItem::FnOnceOutput, rustc_span::DUMMY_SP);
                    let out = Ty::new_projection(tcx, ty::IsRigid::No, fo, [self_ty, tuple_ty]);
                    let out = self.norm(out)?;
                    return self.call_opaque(st, ft, a, out, ret);
                }
                _ => return und(format!("call of a value of type {self_ty:?}")),
            }
        }
    }
    fn call_opaque(&mut self, st: State<'tcx>, f: T, mut a: Vec<V<'tcx>>, out: Ty<'tcx>, ret: Ret<'tcx>) -> Succ<'tcx> {
        if a.len() != 1 {
            return und("closure with several arguments");
        }
        let arg = a.pop().unwrap();
        let V::Res(at, _) = &arg else { return und("closure argument is not an opaque value") };
        let ft = Rc::new(f.clone());
        let at = Rc::new(at.clone());
        let is_result = matches!(out.kind(), ty::Adt(d, _) if self.path(d.did()) == "core::result::Result");
        if self.laws {
            // a pure function that is defined everywhere
            let ok = if let (true, ty::Adt(_, ra)) = (is_result, out.kind()) { ra.type_at(0) } else { out };
            let v = self.law_result(&ft, &at, &arg, ok);
            let v = if is_result { V::Agg(out, 0, Rc::new(vec![v])) } else { v };
            return self.done(st, &ret, v);
        }
        let mut succ = vec![];
        // normal outcomes
        let mut s1 = st.clone();
        s1.trace.push(TItem::Ev { f: f.clone(), arg: arg.clone(), out: Outcome::Ok });
        if let (true, ty::Adt(_, ra)) = (is_result, out.kind()) {
            let okv = self.res(T::Ret(ft.clone(), at.clone()), ra.type_at(0));
            let v = V::Agg(out, 0, Rc::new(vec![okv]));
            succ.extend(self.done(s1, &ret, v)?);
            let mut s2 = st.clone();
            s2.trace.push(TItem::Ev { f: f.clone(), arg: arg.clone(), out: Outcome::Err });
            let ev = self.res(T::ErrRet(ft, at), ra.type_at(1));
            let v = V::Agg(out, 1, Rc::new(vec![ev]));
            // with E = ! there is no error outcome
            if !ra.type_at(1).is_never() {
                succ.extend(self.done(s2, &ret, v)?);
            }
        } else {
            let v = self.res(T::Ret(ft, at), out);
            succ.extend(self.done(s1, &ret, v)?);
        }
        let mut s3 = st;
        s3.trace.push(TItem::Ev { f, arg, out: Outcome::Unwind });
        s3.unwind_ok = true;
        self.unwind_action(&mut s3, ret.unwind)?;
        succ.push(s3);
        Ok(succ)
    }

    // ---- containers ----------------------------------------------------------
    /// the container behind a `&mut C`
    fn with_cont<X>(
        &mut self,
        st: &mut State<'tcx>,
        p: &V<'tcx>,
        f: impl FnOnce(&mut Self, &Info, &mut bool, &mut Vec<Seg<'tcx>>) -> R<X>,
    ) -> R<X> {
        let V::Ptr(p) = p else { return und("container reference") };
        let State { mem, pc, variants, .. } = st;
        let i = &Info { pc, variants };
        let Some(c) = mem.get_mut(&p.a) else { return viol(Cat::Safety, "access to a dead memory location") };
        let (v, _) = self.nav(i, &mut c.v, c.ty, &p.path)?;
        if let V::Res(..) = v {
            *v = self.expand(i, v)?;
        }
        match v {
            V::Cont { built, segs, .. } => f(self, i, built, Rc::make_mut(segs)),
            V::Moved | V::Uninit => viol(Cat::Safety, "use of a moved-out container"),
            _ => und(format!("container {v:?}")),
        }
    }
    fn own_cont(&mut self, st: &mut State<'tcx>, v: &V<'tcx>) -> R<(DefId, bool, Vec<Seg<'tcx>>)> {
        let v = self.expand(inf!(st), v)?;
        match v {
            V::Cont { kind, built, segs } => Ok((kind, built, segs.to_vec())),
            _ => und(format!("container {v:?}")),
        }
    }
    fn pop(&mut self, st: &mut State<'tcx>, p: &V<'tcx>, back: bool, optty: Ty<'tcx>) -> R<V<'tcx>> {
        let r = self.with_cont(st, p, |e, i, _, segs| {
            e.tidy(i, segs);
            if segs.is_empty() {
                return Ok(None);
            }
            let total = Self::total(segs);
            // find the first (last) provably non-empty segment, deciding emptiness on the way
            loop {
                let k = if back { segs.len() - 1 } else { 0 };
                if e.decide(i, &Form::le(&segs[k].len, &Lin::k(0)))? {
                    segs.remove(k);
                    if segs.is_empty() {
                        return Ok(None);
                    }
                    continue;
                }
                break;
            }
            let total2 = Self::total(segs);
            let _ = total;
            let at = if back { total2.addk(-1) } else { Lin::k(0) };
            let n = e.isolate(i, segs, &at)?;
            let s = segs.remove(n);
            Ok(Some(e.at(&s, &Lin::k(0))))
        })?;
        Ok(self.opt(optty, r))
    }
    fn check_iter_order(&mut self, built: bool, kind: DefId, segs: &[Seg<'tcx>]) -> R<()> {
        let assoc = matches!(self.adt_kind(kind), AdtK::Cont(ContK::Assoc | ContK::AssocIter));
        if assoc && built && !segs.is_empty() {
            return und("iteration over a rebuilt set, map or heap");
        }
        Ok(())
    }
}

pub enum Built<'tcx> {
    Val(State<'tcx>, V<'tcx>),
    Model(String),
    Many(Vec<State<'tcx>>),
}

impl<'tcx> Eng<'tcx> {
    fn ret_ty(&self, ret: &Ret<'tcx>) -> Ty<'tcx> {
        ret.dest.as_ref().map(|d| d.1).unwrap_or(self.tcx.types.unit)
    }
    fn trait_builtin(
        &mut self,
        st: &State<'tcx>,
        tr: &str,
        name: &str,
        self_ty: Ty<'tcx>,
        args: GenericArgsRef<'tcx>,
        vals: &[V<'tcx>],
        tys: &[Ty<'tcx>],
        ret: &Ret<'tcx>,
    ) -> R<Option<Built<'tcx>>> {
        let ck = self.cont_kind_ty(self_ty);
        let rty = self.ret_ty(ret);
        match (tr, name) {
            ("core::iter::traits::iterator::Iterator", "next") | ("core::iter::traits::double_ended::DoubleEndedIterator", "next_back") => {
                if let Some((_, ContK::SeqIter | ContK::AssocIter)) = ck {
                    let mut st = st.clone();
                    let k = {
                        let V::Ptr(p) = &vals[0] else { return und("iterator reference") };
                        let v = self.peek(&mut st, p)?;
                        if let V::Cont { kind, built, segs } = &v {
                            let (b, s) = self.permute(inf!(st), *built, *kind, segs.to_vec())?;
                            self.check_iter_order(b, *kind, &s)?;
                            if *built && !b {
                                self.set(&mut st, p, V::Cont { kind: *kind, built: b, segs: Rc::new(s) })?;
                            }
                        }
                        v
                    };
                    let _ = k;
                    let k = self.ty_key_pub(self_ty);
                    self.trusted.insert(format!("std iterator contract: {k}::{name}"));
                    let v = self.pop(&mut st, &vals[0], name == "next_back", rty)?;
                    return Ok(Some(Built::Val(st, v)));
                }
            }
            ("core::iter::traits::iterator::Iterator", "size_hint") => {
                if ck.is_some() {
                    let mut st = st.clone();
                    let n = self.with_cont(&mut st, &vals[0], |_, _, _, s| Ok(Self::total(s)))?;
                    let ty::Tuple(l) = rty.kind() else { return und("size_hint") };
                    let o = self.opt(l[1], Some(V::Int(n.clone())));
                    return Ok(Some(Built::Val(st, V::Agg(rty, 0, Rc::new(vec![V::Int(n), o])))));
                }
            }
            ("core::iter::traits::exact_size::ExactSizeIterator", "len") => {
                if ck.is_some() {
                    let mut st = st.clone();
                    let n = self.with_cont(&mut st, &vals[0], |_, _, _, s| Ok(Self::total(s)))?;
                    return Ok(Some(Built::Val(st, V::Int(n))));
                }
            }
            ("core::iter::traits::collect::IntoIterator", "into_iter") => {
                if let Some((_, ContK::Seq | ContK::Assoc)) = ck {
                    let mut st = st.clone();
                    let (sk, built, segs) = self.own_cont(&mut st, &vals[0])?;
                    let (built, segs) = self.permute(inf!(st), built, sk, segs)?;
                    let Some((kind, _)) = self.cont_kind_ty(rty) else { return und("into_iter type") };
                    let kk = self.ty_key_pub(self_ty);
                    self.trusted.insert(format!("std container contract: {kk}::into_iter"));
                    return Ok(Some(Built::Val(st, V::Cont { kind, built, segs: Rc::new(segs) })));
                }
                if let ty::Array(..) = self_ty.kind() {
                    let mut st = st.clone();
                    let v = self.expand(inf!(st), &vals[0])?;
                    let V::Seq(segs) = v else { return und("array value") };
                    let Some((kind, _)) = self.cont_kind_ty(rty) else { return und("into_iter type") };
                    self.trusted.insert("std container contract: array::into_iter".into());
                    st.steps += 0;
                    return Ok(Some(Built::Val(st, V::Cont { kind, built: false, segs })));
                }
            }
            ("core::iter::traits::collect::FromIterator", "from_iter") => {
                if let Some((_, ContK::Seq | ContK::Assoc)) = ck {
                    return Ok(Some(Built::Model("from_iter".into())));
                }
            }
            ("core::iter::traits::collect::Extend", "extend") => {
                if let Some((_, ContK::Seq | ContK::Assoc)) = ck {
                    return Ok(Some(Built::Model("extend".into())));
                }
            }
            ("core::default::Default", "default") => {
                if let Some((kind, ContK::Seq | ContK::Assoc)) = ck {
                    return Ok(Some(Built::Val(st.clone(), V::Cont { kind, built: true, segs: Rc::new(vec![]) })));
                }
            }
            ("core::convert::From", "from") | ("core::convert::Into", "into") => {
                let target = if name == "from" { self_ty } else { self.norm(args.type_at(1))? };
                let src_ty = tys[0];
                if let (Some((kind, k)), Some((_, k2))) = (self.cont_kind_ty(target), self.cont_kind_ty(src_ty)) {
                    if target != src_ty {
                        let mut st = st.clone();
                        let (sk, built, segs) = self.own_cont(&mut st, &vals[0])?;
                        if matches!(k2, ContK::Seq) && matches!(k, ContK::Seq | ContK::Assoc) {
                            return Ok(Some(Built::Val(st, V::Cont { kind, built: true, segs: Rc::new(segs) })));
                        }
                        // heap -> vec keeps the internal order
                        if self.path(sk) == "alloc::collections::binary_heap::BinaryHeap" && matches!(k, ContK::Seq) {
                            let (built, segs) = self.permute(inf!(st), built, sk, segs)?;
                            self.check_iter_order(built, sk, &segs)?;
                            return Ok(Some(Built::Val(st, V::Cont { kind, built: true, segs: Rc::new(segs) })));
                        }
                        return und("container conversion");
                    }
                }
                if let (Some((kind, _)), ty::Array(..)) = (self.cont_kind_ty(target), src_ty.kind()) {
                    let st = st.clone();
                    let v = self.expand(inf!(st), &vals[0])?;
                    let V::Seq(segs) = v else { return und("array value") };
                    return Ok(Some(Built::Val(st, V::Cont { kind, built: true, segs })));
                }
            }
            ("core::ops::drop::Drop", "drop") => {
                if self_ty.is_box() {
                    let mut st = st.clone();
                    let V::Ptr(p) = &vals[0] else { return und("box drop") };
                    let v = self.peek(&mut st, p)?;
                    match v {
                        V::Box(c) => {
                            self.discard(inf!(st), &c, "freed box");
                        }
                        V::Res(..) => {
                            self.soft(Cat::Own, "box freed without dropping its content".into(), st.pc.clone());
                        }
                        _ => return viol(Cat::Own, "box freed twice"),
                    }
                    self.set(&mut st, p, V::Moved)?;
                    let u = self.unit();
                    return Ok(Some(Built::Val(st, u)));
                }
            }
            ("core::clone::Clone", "clone") => {
                // copies of plain data
                if let V::Ptr(p) = &vals[0] {
                    if !self.needs_drop(self_ty) && self_ty.is_trivially_pure_clone_copy() {
                        let mut st = st.clone();
                        let v = self.peek(&mut st, p)?;
                        return Ok(Some(Built::Val(st, v)));
                    }
                }
            }
            _ => {}
        }
        if matches!((tr, name), ("funcmap::FuncMap", "func_map" | "func_map_over") | ("funcmap::TryFuncMap", "try_func_map" | "try_func_map_over")) {
            let inline = !self.contract_calls || matches!(self_ty.kind(), ty::Array(..));
            let resolvable = !matches!(self_ty.kind(), ty::Param(_) | ty::Alias(..));
            if !(inline && resolvable) {
                return Ok(Some(Built::Model(name.to_string())));
            }
        }
        Ok(None)
    }
    fn ty_key_pub(&mut self, t: Ty<'tcx>) -> String {
        self.ty_key(t)
    }
    pub fn key(&mut self, d: DefId) -> String {
        let tcx = self.tcx;
        let name = tcx.item_name(d).to_string();
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                rustc_hir::def::DefKind::Impl { of_trait } => {
                    let t = tcx.type_of(p).skip_binder();
                    let k = self.ty_key(t);
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).skip_binder().def_id;
                        return format!("<{k} as {}>::{name}", tcx.item_name(tr));
                    }
                    return format!("{k}::{name}");
                }
                rustc_hir::def::DefKind::Trait => {}
                _ => {}
            }
        }
        self.path(d)
    }
    fn builtin(
        &mut self,
        st: &State<'tcx>,
        def: DefId,
        args: GenericArgsRef<'tcx>,
        vals: &[V<'tcx>],
        tys: &[Ty<'tcx>],
        ret: &Ret<'tcx>,
    ) -> R<Option<Built<'tcx>>> {
        let key = self.key(def);
        let rty = self.ret_ty(ret);
        let tcx = self.tcx;
        let val = |st: State<'tcx>, v: V<'tcx>| Ok(Some(Built::Val(st, v)));
        let intr = key.strip_prefix("core::intrinsics::");
        let unit = self.unit();
        // containers' inherent methods
        if let Some(p) = tcx.opt_parent(def) {
            if let rustc_hir::def::DefKind::Impl { of_trait: false } = tcx.def_kind(p) {
                let t = tcx.type_of(p).skip_binder();
                if let Some((kind, ck)) = self.cont_kind_ty(t) {
                    let name = tcx.item_name(def).to_string();
                    if ck == ContK::Assoc && matches!(name.as_str(), "insert" | "push") {
                        self.trusted.insert(format!("std container contract: {key}"));
                        return self.cont_insert(st, vals, tys, rty, ret);
                    }
                    if let Some(r) = self.cont_method(st, kind, ck, &name, vals, tys, rty)? {
                        self.trusted.insert(format!("std container contract: {key}"));
                        return Ok(Some(r));
                    }
                    return und(format!("no contract for {key}"));
                }
            }
        }
        if let Some(m) = key.strip_prefix("dv_models::") {
            match m {
                "dv_new" => {
                    let Some((kind, _)) = self.cont_kind_ty(rty) else { return und("dv_new") };
                    return val(st.clone(), V::Cont { kind, built: true, segs: Rc::new(vec![]) });
                }
                "dv_push" => {
                    let mut st = st.clone();
                    let v = vals[1].clone();
                    self.with_cont(&mut st, &vals[0], |e, _, built, segs| {
                        let s = e.one(v);
                        segs.push(s);
                        *built = true;
                        Ok(())
                    })?;
                    return val(st, unit);
                }
                "dv_unwind" => {
                    let s1 = st.clone();
                    let mut s2 = st.clone();
                    let mut v = self.done(s1, ret, unit)?;
                    if self.laws {
                        return Ok(Some(Built::Many(v)));
                    }
                    s2.unwind_ok = true;
                    self.unwind_action(&mut s2, ret.unwind)?;
                    v.push(s2);
                    return Ok(Some(Built::Many(v)));
                }
                "dv_any" => {
                    if let ty::Adt(d, _) = rty.kind() {
                        if d.is_enum() {
                            return val(st.clone(), V::Agg(rty, UNKNOWN_VARIANT, Rc::new(vec![])));
                        }
                    }
                    return val(st.clone(), if rty.is_unit() { unit } else { V::Any });
                }
                "dv_into_array" => {
                    let mut st = st.clone();
                    let (_, _, segs) = self.own_cont(&mut st, &vals[0])?;
                    let ty::Array(_, n) = rty.kind() else { return und("dv_into_array") };
                    let n = self.const_len(*n)?;
                    let t = Self::total(&segs);
                    if !self.decide(inf!(st), &Form::eq(&t, &n))? {
                        return viol(Cat::Safety, "array built from the wrong number of elements");
                    }
                    return val(st, V::Seq(Rc::new(segs)));
                }
                "dv_open" => {
                    // dv_open<S, A, B, P>(s: S) -> (DvTok, DvIter<A>)
                    let st = st.clone();
                    if self.laws {
                        let k = self.marker(args.type_at(3))?;
                        let (base, entries) = self.entries(&vals[0])?;
                        let segs = match entries.into_iter().find(|e| e.0 == k) {
                            Some((_, s)) => s,
                            None => vec![self.plain_occurrences(&base, &k, args.type_at(1))],
                        };
                        let ty::Tuple(l) = rty.kind() else { return und("dv_open") };
                        let Some((kind, _)) = self.cont_kind_ty(l[1]) else { return und("dv_open") };
                        return val(st, V::Agg(rty, 0, Rc::new(vec![vals[0].clone(), V::Cont { kind, built: false, segs: Rc::new(segs) }])));
                    }
                    let (src, inner) = self.src_term(&vals[0])?;
                    let k = self.marker(args.type_at(3))?;
                    let var = self.sym();
                    let ty::Tuple(l) = rty.kind() else { return und("dv_open") };
                    let a = args.type_at(1);
                    let base = T::Elem(Rc::new(src.clone()), k.clone(), Rc::new(Lin::sym(var)));
                    let len = Lin::atom(Atom::Len(src.clone(), k.clone()));
                    let mut segs = vec![Seg { len, var, val: V::Any }];
                    segs[0].val = self.res(base, a);
                    let tok = match inner {
                        None => V::Res(src, self.tcx.types.unit),
                        Some(p) => {
                            let V::Mapped { src, k: k2, segs: s2, prev, .. } = &*p else { return und("dv_open") };
                            // elements of an already mapped value
                            if *k2 == k {
                                segs = s2.to_vec();
                            }
                            V::Mapped { src: src.clone(), k: k2.clone(), segs: s2.clone(), ty: self.tcx.types.unit, prev: prev.clone() }
                        }
                    };
                    let Some((kind, _)) = self.cont_kind_ty(l[1]) else { return und("dv_open") };
                    return val(st, V::Agg(rty, 0, Rc::new(vec![tok, V::Cont { kind, built: false, segs: Rc::new(segs) }])));
                }
                "dv_finish" => {
                    // dv_finish<S, A, B, P>(tok: DvTok, out: DvVec<B>) -> Output
                    let mut st = st.clone();
                    if self.laws {
                        let k = self.marker(args.type_at(3))?;
                        let (_, _, segs) = self.own_cont(&mut st, &vals[1])?;
                        let v = self.law_mapped(inf!(st), &vals[0], k, segs, args.type_at(2), rty)?;
                        return val(st, v);
                    }
                    let (src, prev) = self.src_term(&vals[0])?;
                    let k = self.marker(args.type_at(3))?;
                    let (_, _, segs) = self.own_cont(&mut st, &vals[1])?;
                    return val(st, V::Mapped { src, k, segs: Rc::new(segs), ty: rty, prev });
                }
                _ => {}
            }
        }
        match key.as_str() {
            "array::map" => return Ok(Some(Built::Model("array_map".into()))),
            "core::array::from_fn" => return Ok(Some(Built::Model("array_from_fn".into()))),
            "alloc::boxed::Box::new" | "alloc::boxed::box_new" => {
                return val(st.clone(), V::Box(Rc::new(vals[0].clone())));
            }
            "alloc::boxed::Box::new_uninit" => return val(st.clone(), V::Box(Rc::new(V::Uninit))),
            "alloc::boxed::Box::into_inner" => {
                let st = st.clone();
                let v = self.expand(inf!(st), &vals[0])?;
                if let V::Box(c) = v {
                    return val(st, (*c).clone());
                }
                return und("Box::into_inner");
            }
            "alloc::boxed::Box::into_raw" | "alloc::boxed::Box::leak" | "alloc::boxed::Box::into_non_null" => {
                let mut st = st.clone();
                let v = self.expand(inf!(st), &vals[0])?;
                if let V::Box(c) = v {
                    let id = AllocId::Heap(self.sym());
                    let inner = tys[0].expect_boxed_ty();
                    st.mem.insert(id, Cell { v: (*c).clone(), ty: inner });
                    return val(st, V::Ptr(Ptr { a: id, path: vec![], meta: None }));
                }
                return und("Box::into_raw");
            }
            "alloc::boxed::Box::into_raw_with_allocator" => {
                let mut st = st.clone();
                let v = self.expand(inf!(st), &vals[0])?;
                if let (V::Box(c), ty::Tuple(l)) = (v, rty.kind()) {
                    let id = AllocId::Heap(self.sym());
                    let inner = tys[0].expect_boxed_ty();
                    st.mem.insert(id, Cell { v: (*c).clone(), ty: inner });
                    let p = V::Ptr(Ptr { a: id, path: vec![], meta: None });
                    let z = V::Agg(l[1], 0, Rc::new(vec![]));
                    return val(st, V::Agg(rty, 0, Rc::new(vec![p, z])));
                }
                return und("Box::into_raw_with_allocator");
            }
            "alloc::boxed::Box::from_raw" | "alloc::boxed::Box::from_raw_in" | "alloc::boxed::Box::from_non_null" => {
                let mut st = st.clone();
                if let V::Ptr(p) = &vals[0] {
                    let inner = args.type_at(0);
                    let v = self.box_from_ptr(&mut st, p.clone(), inner)?;
                    return val(st, v);
                }
                return und("Box::from_raw");
            }
            "core::ptr::read" | "ptr::read" | "core::ptr::read_unaligned" => {
                let mut st = st.clone();
                let V::Ptr(p) = &vals[0] else { return und("ptr::read") };
                let p = self.reconcile(&st, p.clone(), rty)?;
                let v = self.read(&mut st, &p, rty, true)?;
                return val(st, v);
            }
            // reads a value of the target type at the address of the source, which must be at least as large
            "core::mem::transmute_copy" => {
                let mut st = st.clone();
                let V::Ptr(p) = &vals[0] else { return und("transmute_copy") };
                let p = self.reconcile(&st, p.clone(), rty)?;
                let v = self.read(&mut st, &p, rty, true)?;
                return val(st, v);
            }
            "core::ptr::write" | "ptr::write" => {
                let mut st = st.clone();
                let V::Ptr(p) = &vals[0] else { return und("ptr::write") };
                let p = self.reconcile(&st, p.clone(), tys[1])?;
                self.write(&mut st, &p, vals[1].clone())?;
                return val(st, unit);
            }
            "core::ptr::drop_in_place" | "ptr::drop_in_place" | "core::ptr::non_null::NonNull::drop_in_place" => {
                let mut st = st.clone();
                let ty = self.norm(args.type_at(0))?;
                let V::Ptr(p) = &vals[0] else { return und("drop_in_place") };
                let p = if p.meta.is_none() { self.reconcile(&st, p.clone(), ty)? } else { p.clone() };
                if let Some((d, _)) = &ret.dest {
                    self.write(&mut st, d, unit)?;
                }
                let Some(t) = ret.target else { return und("drop_in_place") };
                self.push_drop(&mut st, vec![(p, ty)], Some(t), ret.unwind);
                return Ok(Some(Built::Many(vec![st])));
            }
            "core::ptr::copy_nonoverlapping" | "core::ptr::copy" => {
                let mut st = st.clone();
                let t = tys[0].builtin_deref(true).unwrap();
                self.copy_n(&mut st, vals[0].clone(), vals[1].clone(), vals[2].clone(), t)?;
                return val(st, unit);
            }
            "core::mem::swap" => {
                let mut st = st.clone();
                let (V::Ptr(p), V::Ptr(q)) = (&vals[0], &vals[1]) else { return und("swap") };
                let x = self.take_raw(&mut st, p)?;
                let y = self.take_raw(&mut st, q)?;
                self.set(&mut st, p, y)?;
                self.set(&mut st, q, x)?;
                return val(st, unit);
            }
            "core::mem::forget" => {
                let st = st.clone();
                self.discard_forget(&st, &vals[0]);
                return val(st, unit);
            }
            "core::mem::zeroed" => {
                let st = st.clone();
                self.o("safety");
                let p = self.peel(rty);
                if let ty::Array(_, n) = p.kind() {
                    let n = self.const_len(*n)?;
                    if self.decide(inf!(st), &Form::eq(&n, &Lin::k(0)))? {
                        return val(st, V::Seq(Rc::new(vec![])));
                    }
                    return viol(Cat::Safety, "zeroed value of a generic type");
                }
                if p.is_integral() {
                    return val(st, V::Int(Lin::k(0)));
                }
                if let Ok(z) = self.zst(rty) {
                    return val(st, z);
                }
                return und("mem::zeroed");
            }
            "core::mem::needs_drop" => {
                let f = self.intrinsic_needs_drop(args.type_at(0));
                return val(st.clone(), V::Bool(f));
            }
            "core::mem::size_of" | "core::mem::align_of" => return val(st.clone(), V::Any),
            "core::hint::assert_unchecked" => {
                let st = st.clone();
                let V::Bool(f) = &vals[0] else { return val(st, unit) };
                self.o("safety");
                if !self.decide(inf!(st), f)? {
                    return viol(Cat::Safety, "assert_unchecked violated");
                }
                return val(st, unit);
            }
            "core::hint::unreachable_unchecked" => return viol(Cat::Safety, "unreachable_unchecked reached"),
            "std::process::abort" | "core::intrinsics::abort" | "std::process::exit" => return viol(Cat::Panic, "aborts the process"),
            "core::hint::black_box" => return val(st.clone(), vals[0].clone()),
            _ => {}
        }
        if let Some(n) = intr {
            let n = n.rsplit("::").next().unwrap();
            let mut st = st.clone();
            match n {
                "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" => return val(st, unit),
                "likely" | "unlikely" | "black_box" => return val(st, vals[0].clone()),
                "forget" => {
                    self.discard_forget(&st, &vals[0]);
                    return val(st, unit);
                }
                "needs_drop" => {
                    let f = self.intrinsic_needs_drop(args.type_at(0));
                    return val(st, V::Bool(f));
                }
                "size_of" | "min_align_of" | "align_of" | "size_of_val" | "type_id" | "type_name" => return val(st, V::Any),
                "is_val_statically_known" | "ub_checks" | "contract_checks" | "overflow_checks" => return val(st, V::Bool(Form::False)),
                "assume" => {
                    let V::Bool(f) = &vals[0] else { return val(st, unit) };
                    self.o("safety");
                    if !self.decide(inf!(st), f)? {
                        return viol(Cat::Safety, "assumption of an unsafe operation violated");
                    }
                    return val(st, unit);
                }
                "unreachable" => return viol(Cat::Safety, "unreachable_unchecked reached"),
                "transmute" | "transmute_unchecked" => {
                    let v = self.cast(&mut st, rustc_middle::mir::CastKind::Transmute, vals[0].clone(), tys[0], rty)?;
                    return val(st, v);
                }
                "discriminant_value" => {
                    let V::Ptr(p) = &vals[0] else { return und("discriminant_value") };
                    let t = args.type_at(0);
                    let v = self.discriminant(&mut st, p, t)?;
                    return val(st, v);
                }
                "read_via_copy" => {
                    let V::Ptr(p) = &vals[0] else { return und("read_via_copy") };
                    let p = self.reconcile(&st, p.clone(), rty)?;
                    let v = self.read(&mut st, &p, rty, true)?;
                    return val(st, v);
                }
                "write_via_move" => {
                    let V::Ptr(p) = &vals[0] else { return und("write_via_move") };
                    let p = self.reconcile(&st, p.clone(), tys[1])?;
                    self.write(&mut st, &p, vals[1].clone())?;
                    return val(st, unit);
                }
                "copy_nonoverlapping" | "copy" => {
                    let t = tys[0].builtin_deref(true).unwrap();
                    self.copy_n(&mut st, vals[0].clone(), vals[1].clone(), vals[2].clone(), t)?;
                    return val(st, unit);
                }
                "offset" | "arith_offset" => {
                    let (V::Ptr(p), V::Int(k)) = (&vals[0], &vals[1]) else { return und("pointer offset") };
                    let elem = tys[0].builtin_deref(true).unwrap();
                    let p = self.reconcile(&st, p.clone(), elem)?;
                    let q = self.ptr_add(&mut st, p, k)?;
                    return val(st, V::Ptr(q));
                }
                "slice_get_unchecked" => {
                    let (V::Ptr(p), V::Int(k)) = (&vals[0], &vals[1]) else { return und("slice access") };
                    let q = self.ptr_add(&mut st, Ptr { meta: None, ..p.clone() }, k)?;
                    return val(st, V::Ptr(q));
                }
                "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                    if let (V::Ptr(p), V::Ptr(q)) = (&vals[0], &vals[1]) {
                        if let (Some(P::Ix(a)), Some(P::Ix(b))) = (p.path.last(), q.path.last()) {
                            if p.a == q.a && p.path[..p.path.len() - 1] == q.path[..q.path.len() - 1] {
                                return val(st, V::Int(a.sub(b)));
                            }
                        }
                    }
                    return und("pointer distance");
                }
                "const_eval_select" => {
                    let V::Agg(t, _, _) = &vals[2] else { return und("const_eval_select") };
                    let ty::FnDef(d, a) = t.kind() else { return und("const_eval_select") };
                    let a = a.skip_binder();
                    let v = match &vals[0] {
                        V::Agg(_, _, fs) => fs.to_vec(),
                        _ => return und("const_eval_select"),
                    };
                    let tys = match tys[0].kind() {
                        ty::Tuple(l) => l.iter().collect(),
                        _ => vec![],
                    };
                    return Ok(Some(Built::Many(self.call(st, *d, a, v, tys, ret.clone())?)));
                }
                "aggregate_raw_ptr" => {
                    let pointee = rty.builtin_deref(true).unwrap();
                    let k = rustc_middle::mir::AggregateKind::RawPtr(pointee, ty::Mutability::Mut);
                    let v = self.aggregate(&mut st, &k, vals.to_vec(), rty)?;
                    return val(st, v);
                }
                "ptr_metadata" => {
                    if let V::Ptr(p) = &vals[0] {
                        if let Some(m) = &p.meta {
                            return val(st, V::Int(m.clone()));
                        }
                    }
                    return val(st, V::Any);
                }
                "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "add_with_overflow"
                | "sub_with_overflow" | "mul_with_overflow" | "exact_div" | "saturating_sub" | "saturating_add" => {
                    if let (V::Int(a), V::Int(b)) = (&vals[0], &vals[1]) {
                        let r = if n.contains("add") {
                            Some(a.add(b))
                        } else if n.contains("sub") {
                            Some(a.sub(b))
                        } else {
                            None
                        };
                        let Some((lo, hi)) = self.int_range(tys[0]) else { return und("wide arithmetic") };
                        if let Some(r) = r {
                            let inr = Form::and(Form::le(&lo, &r), Form::le(&r, &hi));
                            if n.ends_with("overflow") {
                                return val(st, V::Agg(rty, 0, Rc::new(vec![V::Int(r), V::Bool(inr.not())])));
                            }
                            let ok = self.decide(inf!(st), &inr)?;
                            if ok {
                                return val(st, V::Int(r));
                            }
                            if n.starts_with("unchecked") {
                                return viol(Cat::Safety, "unchecked arithmetic overflows");
                            }
                            if n.starts_with("saturating") {
                                let low = self.decide(inf!(st), &Form::lt(&r, &lo))?;
                                return val(st, V::Int(if low { lo } else { hi }));
                            }
                        }
                    }
                    return val(st, V::Any);
                }
                _ => return und(format!("intrinsic {n}")),
            }
        }
        Ok(None)
    }
    fn discard_forget(&mut self, st: &State<'tcx>, v: &V<'tcx>) {
        // forgetting a value leaks what it owns, unless that has been moved out
        self.discard(inf!(st), v, "forgotten value");
    }
    fn marker(&mut self, t: Ty<'tcx>) -> R<String> {
        match t.kind() {
            ty::Adt(_, a) => {
                if let Some(c) = a.iter().find_map(|x| x.as_const()) {
                    if let Some(n) = c.try_to_target_usize(self.tcx) {
                        return Ok(format!("{n}"));
                    }
                    return Ok(format!("{c:?}"));
                }
                und("marker type")
            }
            ty::Param(p) => Ok(p.name.to_string()),
            _ => und("marker type"),
        }
    }
    /// the identity of a value that is mapped by contract
    pub fn src_term(&mut self, v: &V<'tcx>) -> R<(T, Option<Rc<V<'tcx>>>)> {
        match v {
            V::Res(t, _) => Ok((t.clone(), None)),
            V::Mapped { src, k, .. } => {
                // identity of the mapped value: function of the source; the images are carried separately
                let t = T::Field(Rc::new(src.clone()), u32::MAX, k.parse::<u32>().unwrap_or(u32::MAX - 1));
                Ok((t, Some(Rc::new(v.clone()))))
            }
            _ => und(format!("mapping of a value in pieces: {v:?}")),
        }
    }
    fn cont_method(&mut self, st: &State<'tcx>, kind: DefId, ck: ContK, name: &str, vals: &[V<'tcx>], tys: &[Ty<'tcx>], rty: Ty<'tcx>) -> R<Option<Built<'tcx>>> {
        let mut st = st.clone();
        let unit = self.unit();
        let r = match name {
            "new" | "with_capacity" => V::Cont { kind, built: true, segs: Rc::new(vec![]) },
            "len" => V::Int(self.with_cont(&mut st, &vals[0], |_, _, _, s| Ok(Self::total(s)))?),
            "capacity" => V::Any,
            "is_empty" => {
                let n = self.with_cont(&mut st, &vals[0], |_, _, _, s| Ok(Self::total(s)))?;
                V::Bool(Form::eq(&n, &Lin::k(0)))
            }
            "reserve" | "reserve_exact" | "shrink_to_fit" => unit,
            "push" | "push_back" | "push_front" => {
                if ck != ContK::Seq {
                    return Ok(None);
                }
                let x = vals[1].clone();
                let front = name == "push_front";
                self.with_cont(&mut st, &vals[0], |e, _, built, segs| {
                    let s = e.one(x);
                    if front {
                        segs.insert(0, s);
                    } else {
                        segs.push(s);
                    }
                    *built = true;
                    Ok(())
                })?;
                unit
            }
            "drain" => {
                // only the whole collection
                if let Some(r) = tys.get(1) {
                    if self.ty_key(*r) != "core::ops::range::RangeFull" {
                        return Ok(None);
                    }
                }
                let Some((rk, _)) = self.cont_kind_ty(rty) else { return Ok(None) };
                let (built, segs) = self.with_cont(&mut st, &vals[0], |_, _, built, segs| {
                    let b = *built;
                    *built = true;
                    Ok((b, std::mem::take(segs)))
                })?;
                let (built, segs) = self.permute(inf!(st), built, kind, segs)?;
                V::Cont { kind: rk, built, segs: Rc::new(segs) }
            }
            "pop" | "pop_back" | "pop_front" => {
                if ck != ContK::Seq {
                    return Ok(None);
                }
                self.pop(&mut st, &vals[0], name != "pop_front", rty)?
            }
            "into_vec" => {
                let (k, built, segs) = self.own_cont(&mut st, &vals[0])?;
                let (built, segs) = self.permute(inf!(st), built, k, segs)?;
                self.check_iter_order(built, k, &segs)?;
                let Some((kind, _)) = self.cont_kind_ty(rty) else { return Ok(None) };
                V::Cont { kind, built: true, segs: Rc::new(segs) }
            }
            _ => return Ok(None),
        };
        Ok(Some(Built::Val(st, r)))
    }
}

