//! Engine: types, memory navigation, equality.
use crate::smt::*;
use crate::term::*;
use crate::val::*;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type R<X> = Result<X, Stop>;

pub fn und<X>(m: impl Into<String>) -> R<X> {
    Err(Stop::Und(m.into()))
}
pub fn viol<X>(cat: Cat, m: impl Into<String>) -> R<X> {
    Err(Stop::Viol { cat, msg: m.into() })
}

/// Facts of the current path.
pub struct Info<'a> {
    pub pc: &'a [Form],
    pub variants: &'a BTreeMap<T, u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ContK {
    /// sequence in push order
    Seq,
    SeqIter,
    /// set / map / heap: rebuilt by insertion
    Assoc,
    AssocIter,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AdtK {
    Ident,
    PtrWrap,
    Box,
    Cont(ContK),
    Other,
}

pub struct Eng<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    pub tenv: ty::TypingEnv<'tcx>,
    pub solver: Solver,
    pub fresh: u32,
    pub bodies: HashMap<Instance<'tcx>, Rc<BodyInfo<'tcx>>>,
    pub adtk: HashMap<DefId, AdtK>,
    pub paths: HashMap<DefId, String>,
    pub models: HashMap<String, DefId>,
    pub obl: BTreeMap<&'static str, u64>,
    pub inlined: BTreeSet<String>,
    pub trusted: BTreeSet<String>,
    /// non-fatal violations found on the current path
    pub viols: Vec<Viol>,
    pub unds: Vec<String>,
    pub paths_done: u64,
    pub loops_done: u64,
    pub contract_calls: bool,
    /// laws mode: iterating a rebuilt set/map yields its insertion sequence (modulo normalisation)
    pub laws: bool,
    /// number of elements each permutation of a rebuilt container ranges over
    pub perms: HashMap<u32, Lin>,
    pub budget: u64,
    pub deadline: std::time::Instant,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub cat: Cat,
    pub msg: String,
    pub model: Vec<(String, i128)>,
    pub at: String,
    pub trace: String,
}

impl<'tcx> Eng<'tcx> {
    pub fn soft(&mut self, cat: Cat, msg: String, pc: Vec<Form>) {
        if self.solver.check(&pc) == Sat::Unsat {
            return;
        }
        let m = self.solver.model(&pc).unwrap_or_default();
        if !self.viols.iter().any(|v| v.cat == cat && v.msg == msg) {
            self.viols.push(Viol { cat, msg, model: m, at: String::new(), trace: String::new() });
        }
    }
    pub fn sym(&mut self) -> u32 {
        self.fresh += 1;
        self.fresh
    }
    pub fn o(&mut self, k: &'static str) {
        *self.obl.entry(k).or_insert(0) += 1;
    }
    /// crate-qualified path of a definition
    pub fn path(&mut self, d: DefId) -> String {
        if let Some(p) = self.paths.get(&d) {
            return p.clone();
        }
        let p = format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose());
        self.paths.insert(d, p.clone());
        p
    }
    pub fn adt_kind(&mut self, d: DefId) -> AdtK {
        if let Some(k) = self.adtk.get(&d) {
            return *k;
        }
        let p = self.path(d);
        let k = match p.as_str() {
            "core::mem::maybe_uninit::MaybeUninit"
            | "core::mem::manually_drop::ManuallyDrop"
            | "core::mem::maybe_dangling::MaybeDangling"
            | "core::cell::UnsafeCell"
            | "core::cell::SyncUnsafeCell"
            | "core::cell::Cell" => AdtK::Ident,
            "core::ptr::non_null::NonNull" | "core::ptr::unique::Unique" | "alloc::boxed::BoxRaw" => AdtK::PtrWrap,
            "alloc::boxed::Box" => AdtK::Box,
            "dv_models::DvVec" | "alloc::vec::Vec" | "alloc::collections::vec_deque::VecDeque" | "alloc::collections::linked_list::LinkedList" => {
                AdtK::Cont(ContK::Seq)
            }
            "alloc::vec::into_iter::IntoIter"
            | "alloc::collections::vec_deque::into_iter::IntoIter"
            | "alloc::collections::linked_list::IntoIter"
            | "core::array::iter::IntoIter"
            | "alloc::vec::drain::Drain"
            | "alloc::collections::vec_deque::drain::Drain"
            | "dv_models::DvIter" => AdtK::Cont(ContK::SeqIter),
            "alloc::collections::binary_heap::BinaryHeap"
            | "alloc::collections::btree::map::BTreeMap"
            | "alloc::collections::btree::set::BTreeSet"
            | "std::collections::hash::map::HashMap"
            | "std::collections::hash::set::HashSet" => AdtK::Cont(ContK::Assoc),
            "alloc::collections::binary_heap::IntoIter"
            | "alloc::collections::btree::map::IntoIter"
            | "alloc::collections::btree::set::IntoIter"
            | "std::collections::hash::map::IntoIter"
            | "alloc::collections::binary_heap::Drain"
            | "std::collections::hash::map::Drain"
            | "std::collections::hash::set::Drain"
            | "std::collections::hash::set::IntoIter" => AdtK::Cont(ContK::AssocIter),
            _ => AdtK::Other,
        };
        self.adtk.insert(d, k);
        k
    }
    pub fn norm(&self, t: Ty<'tcx>) -> R<Ty<'tcx>> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        match self.tcx.try_normalize_erasing_regions(self.tenv, ty::Unnormalized::new(t)) {
            Ok(t) => Ok(t),
            Err(_) => und(format!("cannot normalize {t:?}")),
        }
    }
    pub fn field_ty(&self, f: &ty::FieldDef, args: ty::GenericArgsRef<'tcx>) -> R<Ty<'tcx>> {
        self.norm(f.ty(self.tcx, args).skip_norm_wip())
    }
    /// strip representation-identity wrappers
    pub fn peel(&mut self, mut t: Ty<'tcx>) -> Ty<'tcx> {
        loop {
            match t.kind() {
                ty::Adt(d, args) => match self.adt_kind(d.did()) {
                    AdtK::Ident => t = args.type_at(0),
                    AdtK::PtrWrap => return Ty::new_imm_ptr(self.tcx, args.type_at(0)),
                    _ => return t,
                },
                ty::Pat(b, _) => t = *b,
                _ => return t,
            }
        }
    }
    pub fn same_layout(&mut self, a: Ty<'tcx>, b: Ty<'tcx>) -> bool {
        let (a, b) = (self.peel(a), self.peel(b));
        if a == b {
            return true;
        }
        match (a.kind(), b.kind()) {
            (ty::Array(x, n), ty::Array(y, m)) => n == m && self.same_layout(*x, *y),
            (ty::Slice(x), ty::Slice(y)) => self.same_layout(*x, *y),
            (ty::RawPtr(..) | ty::Ref(..), ty::RawPtr(..) | ty::Ref(..)) => true,
            (ty::Tuple(x), ty::Tuple(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| self.same_layout(p, q)),
            (ty::Adt(d, x), ty::Adt(e, y)) => {
                d.did() == e.did()
                    && x.iter().zip(y.iter()).all(|(p, q)| match (p.as_type(), q.as_type()) {
                        (Some(p), Some(q)) => self.same_layout(p, q),
                        _ => p == q || p.as_region().is_some(),
                    })
            }
            _ => false,
        }
    }
    pub fn cont_elem_ty(&mut self, t: Ty<'tcx>) -> Ty<'tcx> {
        let ty::Adt(d, args) = t.kind() else { panic!() };
        let p = self.path(d.did());
        if p.contains("map::") {
            Ty::new_tup(self.tcx, &[args.types().next().unwrap(), args.types().nth(1).unwrap()])
        } else {
            args.types().next().unwrap()
        }
    }
    pub fn const_len(&self, c: ty::Const<'tcx>) -> R<Lin> {
        if let Some(v) = c.try_to_target_usize(self.tcx) {
            return Ok(Lin::k(v as i128));
        }
        match c.kind() {
            ty::ConstKind::Param(p) => Ok(Lin::atom(Atom::CParam(p.name.to_string()))),
            _ => und(format!("array length {c:?}")),
        }
    }
    pub fn needs_drop(&mut self, t: Ty<'tcx>) -> bool {
        t.needs_drop(self.tcx, self.tenv)
    }
    /// whether dropping a value of the type does anything: a formula, since a type
    /// parameter may be instantiated with a type that needs no drop
    pub fn drop_form(&mut self, t: Ty<'tcx>) -> Form {
        let Ok(t) = self.norm(t) else { return Form::True };
        let t = self.peel(t);
        if !self.needs_drop(t) {
            return Form::False;
        }
        match t.kind() {
            ty::Param(_) | ty::Alias(..) => Form::eq(&Lin::atom(Atom::CParam(format!("needs_drop {t}"))), &Lin::k(1)),
            ty::Adt(d, args) => {
                if self.adt_kind(d.did()) != AdtK::Other || self.tcx.adt_destructor(d.did()).is_some() || d.is_union() {
                    return Form::True;
                }
                let mut r = Form::False;
                for f in d.all_fields() {
                    let Ok(ft) = self.field_ty(f, args) else { return Form::True };
                    let g = self.drop_form(ft);
                    if g != r {
                        r = Form::or(r, g);
                    }
                }
                r
            }
            ty::Tuple(l) => {
                let mut r = Form::False;
                for f in l.iter() {
                    r = Form::or(r, self.drop_form(f));
                }
                r
            }
            ty::Array(e, _) | ty::Slice(e) => self.drop_form(*e),
            _ => Form::True,
        }
    }

    // ---- formulas -------------------------------------------------------
    pub fn prove(&mut self, i: &Info, f: &Form) -> bool {
        match f {
            Form::True => true,
            Form::False => self.solver.check(i.pc) == Sat::Unsat,
            _ => self.solver.prove(i.pc, f),
        }
    }
    pub fn decide(&mut self, i: &Info, f: &Form) -> R<bool> {
        match f {
            Form::True => return Ok(true),
            Form::False => return Ok(false),
            _ => {}
        }
        if self.solver.prove(i.pc, f) {
            return Ok(true);
        }
        if self.solver.prove(i.pc, &f.clone().not()) {
            return Ok(false);
        }
        Err(Stop::Split(vec![Alt::Assume(f.clone()), Alt::Assume(f.clone().not())]))
    }

    // ---- segments --------------------------------------------------------
    pub fn total(segs: &[Seg<'tcx>]) -> Lin {
        segs.iter().fold(Lin::k(0), |a, s| a.add(&s.len))
    }
    pub fn at(&self, s: &Seg<'tcx>, off: &Lin) -> V<'tcx> {
        s.val.subst(&Sub { s: s.var, l: off })
    }
    pub fn one(&mut self, v: V<'tcx>) -> Seg<'tcx> {
        let var = self.sym();
        Seg { len: Lin::k(1), var, val: v }
    }
    /// split so that a boundary lies at index `at`; returns the segment position of the boundary
    pub fn split_at(&mut self, i: &Info, segs: &mut Vec<Seg<'tcx>>, at: &Lin) -> R<usize> {
        let mut p = Lin::k(0);
        let mut n = 0;
        loop {
            if self.decide(i, &Form::eq(&p, at)).map_err(|e| e)? {
                return Ok(n);
            }
            if n == segs.len() {
                return viol(Cat::Safety, format!("index {at:?} out of bounds (length {p:?})"));
            }
            let e = p.add(&segs[n].len);
            if self.decide(i, &Form::lt(at, &e))? {
                // p < at < e
                let off = at.sub(&p);
                let s = segs[n].clone();
                let var2 = self.sym();
                let rest = Seg {
                    len: s.len.sub(&off),
                    var: var2,
                    val: s.val.subst(&Sub { s: s.var, l: &Lin::sym(var2).add(&off) }),
                };
                segs[n].len = off;
                segs.insert(n + 1, rest);
                return Ok(n + 1);
            }
            p = e;
            n += 1;
        }
    }
    /// isolate index `at` in a segment of its own; returns its position
    pub fn isolate(&mut self, i: &Info, segs: &mut Vec<Seg<'tcx>>, at: &Lin) -> R<usize> {
        let mut p = Lin::k(0);
        let mut n = 0;
        loop {
            if n == segs.len() {
                return viol(Cat::Safety, format!("index {at:?} out of bounds (length {p:?})"));
            }
            let e = p.add(&segs[n].len);
            if self.decide(i, &Form::lt(at, &e))? {
                break;
            }
            p = e;
            n += 1;
        }
        if !self.prove(i, &Form::le(&p, at)) {
            return viol(Cat::Safety, format!("index {at:?} below range start {p:?}"));
        }
        let off = at.sub(&p);
        let s = segs[n].clone();
        if s.len.is_const() == Some(1) {
            segs[n].val = self.at(&s, &Lin::k(0));
            return Ok(n);
        }
        let mut v = vec![];
        let mut pos = n;
        if !self.prove(i, &Form::eq(&off, &Lin::k(0))) {
            v.push(Seg { len: off.clone(), var: s.var, val: s.val.clone() });
            pos += 1;
        }
        let val = self.at(&s, &off);
        let o = self.one(val);
        v.push(o);
        let rest = s.len.sub(&off).addk(-1);
        if !self.prove(i, &Form::eq(&rest, &Lin::k(0))) {
            let var2 = self.sym();
            v.push(Seg { len: rest, var: var2, val: s.val.subst(&Sub { s: s.var, l: &Lin::sym(var2).add(&off).addk(1) }) });
        }
        segs.splice(n..n + 1, v);
        Ok(pos)
    }
    pub fn tidy(&mut self, i: &Info, segs: &mut Vec<Seg<'tcx>>) {
        let mut k = 0;
        while k < segs.len() {
            if segs[k].len.is_zero() || (segs[k].len.is_const().is_none() && self.prove(i, &Form::le(&segs[k].len, &Lin::k(0)))) {
                segs.remove(k);
                continue;
            }
            if k > 0 {
                let m = matches!((&segs[k - 1].val, &segs[k].val), (V::Uninit, V::Uninit) | (V::Moved, V::Moved));
                if m {
                    let l = segs[k].len.clone();
                    segs[k - 1].len = segs[k - 1].len.add(&l);
                    segs.remove(k);
                    continue;
                }
            }
            k += 1;
        }
    }

    // ---- expansion -------------------------------------------------------
    pub fn res(&mut self, t: T, ty: Ty<'tcx>) -> V<'tcx> {
        let p = self.peel(ty);
        match p.kind() {
            ty::Int(_) | ty::Uint(_) | ty::Char => V::Int(Lin::atom(Atom::IntOf(t))),
            ty::Bool => V::Bool(Form::le(&Lin::k(1), &Lin::atom(Atom::IntOf(t)))),
            ty::Tuple(l) if l.is_empty() => V::Agg(p, 0, Rc::new(vec![])),
            ty::FnDef(..) => V::Agg(p, 0, Rc::new(vec![])),
            _ => V::Res(t, ty),
        }
    }
    /// structural expansion of an opaque input value
    pub fn expand(&mut self, i: &Info, v: &V<'tcx>) -> R<V<'tcx>> {
        let V::Res(t, ty) = v else { return Ok(v.clone()) };
        let ty = self.norm(*ty)?;
        let p = self.peel(ty);
        match p.kind() {
            ty::Adt(d, args) => match self.adt_kind(d.did()) {
                AdtK::Box => {
                    let inner = self.res(T::Content(Rc::new(t.clone())), args.type_at(0));
                    Ok(V::Box(Rc::new(inner)))
                }
                AdtK::Cont(_) => {
                    let var = self.sym();
                    let ety = self.cont_elem_ty(p);
                    let val = self.res(T::Elem(Rc::new(t.clone()), "*".into(), Rc::new(Lin::sym(var))), ety);
                    let len = Lin::atom(Atom::Len(t.clone(), "*".into()));
                    Ok(V::Cont { kind: d.did(), built: false, segs: Rc::new(vec![Seg { len, var, val }]) })
                }
                _ => {
                    if d.is_union() {
                        return und(format!("union {p:?}"));
                    }
                    let var = if d.is_enum() {
                        if let Some(x) = i.variants.get(t) {
                            *x
                        } else if d.variants().len() == 1 {
                            0
                        } else {
                            if d.variants().is_empty() {
                                return und("value of an empty enum");
                            }
                            let alts = (0..d.variants().len() as u32).map(|x| Alt::Variant(t.clone(), x)).collect();
                            return Err(Stop::Split(alts));
                        }
                    } else {
                        0
                    };
                    let refcell = self.path(d.did()) == "core::cell::RefCell";
                    let fs: Vec<_> = d.variant(var.into()).fields.iter().collect();
                    let mut out = vec![];
                    for (n, f) in fs.iter().enumerate() {
                        let fty = self.field_ty(f, args)?;
                        if refcell && f.name.as_str() == "borrow" {
                            out.push(V::Int(Lin::k(0)));
                        } else {
                            out.push(self.res(T::Field(Rc::new(t.clone()), var, n as u32), fty));
                        }
                    }
                    Ok(V::Agg(p, var, Rc::new(out)))
                }
            },
            ty::Tuple(l) => {
                let out = l.iter().enumerate().map(|(n, x)| self.res(T::Field(Rc::new(t.clone()), 0, n as u32), x)).collect();
                Ok(V::Agg(p, 0, Rc::new(out)))
            }
            ty::Array(e, n) => {
                let len = self.const_len(*n)?;
                let var = self.sym();
                let val = self.res(T::Elem(Rc::new(t.clone()), "*".into(), Rc::new(Lin::sym(var))), *e);
                Ok(V::Seq(Rc::new(vec![Seg { len, var, val }])))
            }
            _ => und(format!("cannot look inside a value of type {p:?}")),
        }
    }
    /// give uninitialised memory the structure of its type
    pub fn expand_uninit(&mut self, ty: Ty<'tcx>, variant: u32, with: V<'tcx>) -> R<V<'tcx>> {
        let ty = self.norm(ty)?;
        let p = self.peel(ty);
        match p.kind() {
            ty::Adt(d, _) => match self.adt_kind(d.did()) {
                AdtK::Other => {
                    if d.variants().is_empty() {
                        return und("empty enum");
                    }
                    let n = d.variant(variant.into()).fields.len();
                    Ok(V::Agg(p, variant, Rc::new(vec![with; n])))
                }
                AdtK::Box => Ok(V::Box(Rc::new(with))),
                _ => und(format!("field access in uninitialised {p:?}")),
            },
            ty::Tuple(l) => Ok(V::Agg(p, 0, Rc::new(vec![with; l.len()]))),
            ty::Closure(_, a) => Ok(V::Agg(p, 0, Rc::new(vec![with; a.as_closure().upvar_tys().len()]))),
            ty::Array(_, n) => {
                let len = self.const_len(*n)?;
                let var = self.sym();
                Ok(V::Seq(Rc::new(vec![Seg { len, var, val: with }])))
            }
            _ => und(format!("element access in uninitialised {p:?}")),
        }
    }
    pub fn sub_ty(&mut self, ty: Ty<'tcx>, p: &P) -> R<Ty<'tcx>> {
        let ty = self.norm(ty)?;
        let q = self.peel(ty);
        match (p, q.kind()) {
            (P::F(v, f), ty::Adt(d, args)) => {
                let fd = &d.variant((*v).into()).fields[rustc_abi::FieldIdx::from_u32(*f)];
                self.field_ty(fd, args)
            }
            (P::F(_, f), ty::Tuple(l)) => Ok(l[*f as usize]),
            (P::F(_, f), ty::Closure(_, a)) => Ok(a.as_closure().upvar_tys()[*f as usize]),
            (P::Ix(_), ty::Array(e, _)) | (P::Ix(_), ty::Slice(e)) => Ok(*e),
            (P::Win(_, l), ty::Array(e, _)) => match l.is_const() {
                Some(n) => Ok(Ty::new_array(self.tcx, *e, n as u64)),
                None => {
                    // only generic parameter lengths can occur
                    und("symbolic window")
                }
            },
            (P::BoxD, ty::Adt(_, args)) => Ok(args.type_at(0)),
            (P::BoxPtr, ty::Adt(_, args)) => Ok(Ty::new_imm_ptr(self.tcx, args.type_at(0))),
            (P::Zst, _) => Ok(self.tcx.types.unit),
            _ => und(format!("no part {p:?} in {q:?}")),
        }
    }
    pub fn path_ty(&mut self, st: &State<'tcx>, p: &Ptr) -> R<Ty<'tcx>> {
        let Some(c) = st.mem.get(&p.a) else { return viol(Cat::Safety, "use of a dead memory location") };
        let mut t = c.ty;
        for e in &p.path {
            t = self.sub_ty(t, e)?;
        }
        Ok(t)
    }
    /// navigate to a place for reading or writing; expands on the way
    pub fn nav<'a>(&mut self, i: &Info, v: &'a mut V<'tcx>, ty: Ty<'tcx>, path: &[P]) -> R<(&'a mut V<'tcx>, Ty<'tcx>)> {
        let Some(p) = path.first() else { return Ok((v, ty)) };
        let sub = self.sub_ty(ty, p)?;
        match v {
            V::Res(..) => *v = self.expand(i, v)?,
            V::Uninit | V::Moved => {
                let variant = if let P::F(x, _) = p { *x } else { 0 };
                let with = v.clone();
                *v = self.expand_uninit(ty, variant, with)?;
            }
            V::Any => return und("access inside an unknown value"),
            _ => {}
        }
        match (p, v) {
            (P::F(x, f), V::Agg(_, var, fs)) => {
                if x != var {
                    if fs.iter().all(|f| matches!(f, V::Uninit | V::Moved)) {
                        return und("variant change of uninitialised enum");
                    }
                    return viol(Cat::Safety, "access to a field of an inactive variant");
                }
                let fs = Rc::make_mut(fs);
                if *f as usize >= fs.len() {
                    return und("field index");
                }
                self.nav(i, &mut fs[*f as usize], sub, &path[1..])
            }
            (P::Ix(ix), V::Seq(segs)) => {
                let segs = Rc::make_mut(segs);
                let n = self.isolate(i, segs, ix)?;
                self.nav(i, &mut segs[n].val, sub, &path[1..])
            }
            (P::BoxD, V::Box(c)) => self.nav(i, Rc::make_mut(c), sub, &path[1..]),
            (p, v) => und(format!("no place {p:?} in {v:?}")),
        }
    }

    // ---- liveness of resources -------------------------------------------
    /// does the value own something that still has to be dropped (Some(len) : only if len > 0)
    pub fn live(&mut self, v: &V<'tcx>, conds: &mut Vec<Form>, cond: Form) {
        match v {
            V::Uninit | V::Moved | V::Any | V::Int(_) | V::Bool(_) | V::Ptr(_) => {}
            V::Res(_, ty) => {
                match self.drop_form(*ty) {
                    Form::False => {}
                    f => conds.push(Form::and(cond, f)),
                }
            }
            V::Agg(_, _, fs) => {
                for f in fs.iter() {
                    self.live(f, conds, cond.clone());
                }
            }
            V::Box(_) => conds.push(cond),
            V::Seq(segs) => {
                for s in segs.iter() {
                    let c = Form::and(cond.clone(), Form::lt(&Lin::k(0), &s.len));
                    self.live(&s.val, conds, c);
                }
            }
            V::Cont { kind, .. } => {
                // an array iterator owns only its elements; others own an allocation
                let k = self.path(*kind);
                if k == "core::array::iter::IntoIter" {
                    if let V::Cont { segs, .. } = v {
                        for s in segs.iter() {
                            let c = Form::and(cond.clone(), Form::lt(&Lin::k(0), &s.len));
                            self.live(&s.val, conds, c);
                        }
                    }
                } else {
                    conds.push(cond)
                }
            }
            V::Mapped { ty, .. } => {
                match self.drop_form(*ty) {
                    Form::False => {}
                    f => conds.push(Form::and(cond, f)),
                }
            }
        }
    }
    pub fn has_live(&mut self, v: &V<'tcx>) -> bool {
        let mut c = vec![];
        self.live(v, &mut c, Form::True);
        !c.is_empty()
    }
    /// memory holding `v` goes away without being dropped
    pub fn discard(&mut self, i: &Info, v: &V<'tcx>, what: &str) {
        let mut c = vec![];
        self.live(v, &mut c, Form::True);
        if !c.is_empty() {
            let f = c.into_iter().fold(Form::True, |a, b| Form::and(a, b.not()));
            self.o("ownership");
            if !self.prove(i, &f) {
                let mut pc = i.pc.to_vec();
                pc.push(f.not());
                self.soft(Cat::Own, format!("leak: {what} still owns {v:?}"), pc);
            }
        }
    }
    /// is the value fully initialised
    pub fn init(&mut self, i: &Info, v: &V<'tcx>, ty: Ty<'tcx>) -> bool {
        match v {
            V::Uninit | V::Moved => self.zst(ty).is_ok() || self.may_uninit(ty) || self.empty_array(i, ty),
            V::Any | V::Int(_) | V::Bool(_) | V::Ptr(_) | V::Res(..) | V::Mapped { .. } => true,
            V::Agg(_, var, fs) => {
                for (n, f) in fs.iter().enumerate() {
                    if matches!(f, V::Int(_) | V::Bool(_) | V::Ptr(_) | V::Res(..) | V::Any) {
                        continue;
                    }
                    let Ok(t) = self.sub_ty(ty, &P::F(*var, n as u32)) else { return false };
                    if !self.init(i, f, t) {
                        return false;
                    }
                }
                true
            }
            V::Box(b) => match self.sub_ty(ty, &P::BoxD) {
                Ok(t) => self.init(i, b, t),
                Err(_) => false,
            },
            V::Seq(s) => {
                let Ok(t) = self.sub_ty(ty, &P::Ix(Lin::k(0))) else { return false };
                s.iter().all(|s| self.init(i, &s.val, t) || self.prove(i, &Form::le(&s.len, &Lin::k(0))))
            }
            V::Cont { segs: s, .. } => {
                let p = self.peel(ty);
                if self.cont_kind_ty(p).is_none() {
                    return false;
                }
                let t = self.cont_elem_ty(p);
                s.iter().all(|s| self.init(i, &s.val, t) || self.prove(i, &Form::le(&s.len, &Lin::k(0))))
            }
        }
    }
    /// may a value of this type legally be (partly) uninitialised
    pub fn may_uninit(&mut self, t: Ty<'tcx>) -> bool {
        for g in t.walk() {
            if let Some(t) = g.as_type() {
                if let ty::Adt(d, _) = t.kind() {
                    let p = self.path(d.did());
                    if p == "core::mem::maybe_uninit::MaybeUninit" || p == "core::mem::manually_drop::ManuallyDrop" {
                        return true;
                    }
                    if !d.did().is_local() && self.adt_kind(d.did()) == AdtK::Other && !d.is_union() {
                        // std types may hide a MaybeUninit field
                        let tcx = self.tcx;
                        if d.all_fields().any(|f| {
                            matches!(tcx.type_of(f.did).skip_binder().kind(), ty::Adt(x, _) if {
                                let p = tcx.def_path_str(x.did());
                                p.ends_with("MaybeUninit") || p.ends_with("ManuallyDrop")
                            })
                        }) {
                            return true;
                        }
                    }
                }
            }
        }
        false
    }

    // ---- equality ----------------------------------------------------------
    pub fn lin_eq(&mut self, i: &Info, a: &Lin, b: &Lin) -> bool {
        if a == b || self.prove(i, &Form::eq(a, b)) {
            return true;
        }
        // congruence: the same quantity of equal terms
        let d = a.sub(b);
        if d.t.len() < 2 {
            return false;
        }
        let mut pos: Vec<(Atom, i128)> = d.t.iter().filter(|x| *x.1 > 0).map(|(a, k)| (a.clone(), *k)).collect();
        let neg: Vec<(Atom, i128)> = d.t.iter().filter(|x| *x.1 < 0).map(|(a, k)| (a.clone(), *k)).collect();
        let mut r = d.clone();
        let mut any = false;
        for (y, k) in &neg {
            let hit = pos.iter().position(|(x, h)| {
                *h == -*k
                    && match (x, y) {
                        (Atom::Len(t, p), Atom::Len(u, q)) => p == q && self.term_eq(i, t, u),
                        (Atom::IntOf(t), Atom::IntOf(u)) => self.term_eq(i, t, u),
                        (Atom::Perm(p, t), Atom::Perm(q, u)) => p == q && self.lin_eq(i, t, u),
                        _ => false,
                    }
            });
            if let Some(n) = hit {
                let (x, _) = pos.remove(n);
                r.t.remove(&x);
                r.t.remove(y);
                any = true;
            }
        }
        any && (r.is_zero() || self.prove(i, &Form::eq(&r, &Lin::k(0))))
    }
    pub fn term_eq(&mut self, i: &Info, a: &T, b: &T) -> bool {
        if a == b {
            return true;
        }
        match (a, b) {
            (T::Field(x, v, n), T::Field(y, w, m)) => v == w && n == m && self.term_eq(i, x, y),
            (T::Content(x), T::Content(y)) => self.term_eq(i, x, y),
            (T::Elem(x, k, l), T::Elem(y, h, m)) => k == h && self.term_eq(i, x, y) && self.lin_eq(i, l, m),
            (T::Ret(f, x), T::Ret(g, y)) => self.term_eq(i, f, g) && self.term_eq(i, x, y),
            (T::ErrRet(f, x), T::ErrRet(g, y)) => self.term_eq(i, f, g) && self.term_eq(i, x, y),
            _ => false,
        }
    }
    /// Equality of sequences. Needs splitting only over lengths.
    pub fn segs_eq(&mut self, i: &Info, a: &[Seg<'tcx>], b: &[Seg<'tcx>], lax: bool) -> R<bool> {
        let mut a: Vec<Seg> = a.to_vec();
        let mut b: Vec<Seg> = b.to_vec();
        loop {
            while !a.is_empty() && self.prove(i, &Form::le(&a[0].len, &Lin::k(0))) {
                a.remove(0);
            }
            while !b.is_empty() && self.prove(i, &Form::le(&b[0].len, &Lin::k(0))) {
                b.remove(0);
            }
            if a.is_empty() && b.is_empty() {
                return Ok(true);
            }
            if a.is_empty() || b.is_empty() {
                // the rest has to be empty; it may be under some lengths
                let rest = if a.is_empty() { Self::total(&b) } else { Self::total(&a) };
                return self.decide(i, &Form::le(&rest, &Lin::k(0)));
            }
            let (la, lb) = (a[0].len.clone(), b[0].len.clone());
            let n = if self.lin_eq(i, &la, &lb) {
                la.clone()
            } else if self.decide(i, &Form::le(&la, &lb))? {
                la.clone()
            } else {
                lb.clone()
            };
            let j = self.sym();
            let jl = if n.is_const() == Some(1) { Lin::k(0) } else { Lin::sym(j) };
            let va = self.at(&a[0], &jl);
            let vb = self.at(&b[0], &jl);
            let mut pc = i.pc.to_vec();
            pc.push(Form::lt(&jl, &n));
            let i2 = Info { pc: &pc, variants: i.variants };
            // an inner undecided length would need a case split over j
            let ok = match self.val_eq(&i2, &va, &vb, lax) {
                Ok(x) => x,
                Err(Stop::Split(_)) => return und("equality of elements needs a case distinction"),
                Err(e) => return Err(e),
            };
            if !ok {
                // only matters if there is such an element
                if self.prove(i, &Form::le(&n, &Lin::k(0))) {
                    // cannot happen: provably zero lengths were removed
                } else {
                    // may still hold if n is zero on this path
                    if self.decide(i, &Form::le(&n, &Lin::k(0)))? {
                        // drop it
                    } else {
                        return Ok(false);
                    }
                }
            }
            for (s, l) in [(&mut a, la), (&mut b, lb)] {
                if self.lin_eq(i, &l, &n) {
                    s.remove(0);
                } else {
                    let g = s[0].clone();
                    let var2 = self.sym();
                    s[0] = Seg { len: l.sub(&n), var: var2, val: g.val.subst(&Sub { s: g.var, l: &Lin::sym(var2).add(&n) }) };
                }
            }
        }
    }
    /// `lax`: dead memory (moved / uninitialised / unknown non-resources) compares equal
    pub fn val_eq(&mut self, i: &Info, a: &V<'tcx>, b: &V<'tcx>, lax: bool) -> R<bool> {
        match (a, b) {
            (V::Uninit, V::Uninit) | (V::Moved, V::Moved) => Ok(true),
            (V::Uninit | V::Moved, V::Uninit | V::Moved) if lax => Ok(true),
            (V::Any, x) if lax => Ok(!self.has_live(x)),
            (x, V::Any) if lax => Ok(!self.has_live(x)),
            (V::Any, _) | (_, V::Any) => und("comparison with an unknown value"),
            (V::Int(x), V::Int(y)) => self.decide(i, &Form::eq(x, y)),
            (V::Bool(x), V::Bool(y)) => {
                if x == y {
                    return Ok(true);
                }
                let p = self.decide(i, x)?;
                let q = self.decide(i, y)?;
                Ok(p == q)
            }
            (V::Res(x, _), V::Res(y, _)) if self.term_eq(i, x, y) => Ok(true),
            (V::Agg(_, UNKNOWN_VARIANT, _), _) | (_, V::Agg(_, UNKNOWN_VARIANT, _)) => und("comparison with an unknown value"),
            (V::Agg(_, v, x), V::Agg(_, w, y)) => {
                if v != w || x.len() != y.len() {
                    return Ok(false);
                }
                for (p, q) in x.iter().zip(y.iter()) {
                    if !self.val_eq(i, p, q, lax)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            (V::Box(x), V::Box(y)) => self.val_eq(i, x, y, lax),
            (V::Ptr(p), V::Ptr(q)) => {
                if p.a != q.a || p.path.len() != q.path.len() {
                    return Ok(false);
                }
                for (x, y) in p.path.iter().zip(q.path.iter()) {
                    let ok = match (x, y) {
                        (P::Ix(l), P::Ix(m)) => self.lin_eq(i, l, m),
                        (P::Win(l, n), P::Win(m, o)) => self.lin_eq(i, l, m) && self.lin_eq(i, n, o),
                        _ => x == y,
                    };
                    if !ok {
                        return Ok(false);
                    }
                }
                Ok(match (&p.meta, &q.meta) {
                    (Some(x), Some(y)) => self.lin_eq(i, x, y),
                    (None, None) => true,
                    _ => false,
                })
            }
            (V::Seq(x), V::Seq(y)) => self.segs_eq(i, x, y, lax),
            (V::Cont { kind: k, built: p, segs: x }, V::Cont { kind: l, built: q, segs: y }) => {
                if k != l {
                    return Ok(false);
                }
                let assoc = matches!(self.adt_kind(*k), AdtK::Cont(ContK::Assoc | ContK::AssocIter));
                if assoc && p != q && !self.laws {
                    // equal only if both are empty
                    let e = Form::le(&Self::total(x), &Lin::k(0));
                    if !self.decide(i, &e)? {
                        return Ok(false);
                    }
                    return self.decide(i, &Form::le(&Self::total(y), &Lin::k(0)));
                }
                if assoc && self.laws {
                    return self.multi_eq(i, x, y, lax);
                }
                self.segs_eq(i, x, y, lax)
            }
            (V::Mapped { .. }, V::Mapped { .. } | V::Res(..)) | (V::Res(..), V::Mapped { .. }) if self.laws => self.mapped_eq(i, a, b, lax),
            (V::Mapped { src: s, k, segs: x, prev: p, .. }, V::Mapped { src: t, k: h, segs: y, prev: q, .. }) => {
                if k != h || !self.term_eq(i, s, t) {
                    return Ok(false);
                }
                match (p, q) {
                    (None, None) => {}
                    (Some(p), Some(q)) => {
                        if !self.val_eq(i, p, q, lax)? {
                            return Ok(false);
                        }
                    }
                    _ => return Ok(false),
                }
                self.segs_eq(i, x, y, lax)
            }
            // expansion
            (V::Res(..), V::Agg(..) | V::Box(_) | V::Seq(_) | V::Cont { .. }) => {
                let e = self.expand(i, a)?;
                self.val_eq(i, &e, b, lax)
            }
            (V::Agg(..) | V::Box(_) | V::Seq(_) | V::Cont { .. }, V::Res(..)) => {
                let e = self.expand(i, b)?;
                self.val_eq(i, a, &e, lax)
            }
            _ => Ok(false),
        }
    }
}
