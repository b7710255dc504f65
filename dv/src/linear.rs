//! Ownership contracts on errors: a value that may hold an error is never dropped, overwritten or given to a function
//! that loses it. Every drop, overwriting and call in the MIR of the crate (before drop elaboration, normal paths) is
//! one obligation, decided by a flow-sensitive analysis of which places may hold an error; calls within the crate are
//! judged by the contract of the callee (its own obligations, and what it leaves behind its `&mut` arguments), others
//! by the contracts listed here.
use crate::{jlist, js};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::OnceLock;

thread_local! {
    static BODIES: RefCell<HashMap<LocalDefId, Body<'static>>> = RefCell::new(HashMap::new());
}
type Orig = for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<Body<'tcx>>;
static ORIG: OnceLock<Orig> = OnceLock::new();

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum P {
    Field(u32),
    Variant(u32),
    Deref,
    Other,
}
type Key = (Local, Vec<P>);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum S {
    Gone,
    Clean,
    May,
}
#[derive(Clone, PartialEq, Default)]
struct St {
    m: BTreeMap<Key, S>,
    /// local is a reference to the place
    al: BTreeMap<Local, Option<Key>>,
    /// local holds the discriminant of the place, or tells whether it is the variant
    disc: BTreeMap<Local, (Key, Option<u32>)>,
    /// `None` in the local means that the iterator at the place is exhausted
    link: BTreeMap<Local, Key>,
}
impl St {
    fn lookup(&self, k: &Key) -> S {
        let mut p = k.1.clone();
        loop {
            if let Some(s) = self.m.get(&(k.0, p.clone())) {
                return *s;
            }
            if p.pop().is_none() {
                break;
            }
        }
        if k.1.contains(&P::Deref) { S::May } else { S::Gone }
    }
    fn below<'a>(&'a self, k: &'a Key) -> impl Iterator<Item = (&'a Key, &'a S)> + 'a {
        self.m.range(k.clone()..).take_while(move |(x, _)| x.0 == k.0 && x.1.starts_with(&k.1))
    }
    fn set(&mut self, k: &Key, s: S) {
        let ks: Vec<Key> = self.below(k).map(|x| x.0.clone()).collect();
        for x in ks {
            self.m.remove(&x);
        }
        self.m.insert(k.clone(), s);
        self.link.retain(|_, v| !(v.0 == k.0 && v.1.starts_with(&k.1)) || s == S::May);
    }
    fn join(&mut self, o: &St) -> bool {
        let old = self.clone();
        let keys: BTreeSet<Key> = self.m.keys().chain(o.m.keys()).cloned().collect();
        let mut m = BTreeMap::new();
        for k in keys {
            m.insert(k.clone(), self.lookup(&k).max(o.lookup(&k)));
        }
        self.m = m;
        for (l, k) in &o.al {
            match self.al.get(l) {
                Some(x) if x != k => {
                    self.al.insert(*l, None);
                }
                None => {
                    self.al.insert(*l, k.clone());
                }
                _ => {}
            }
        }
        self.disc.retain(|l, k| o.disc.get(l) == Some(k));
        self.link.retain(|l, k| o.link.get(l) == Some(k));
        *self != old
    }
}

struct Fact {
    what: String,
    /// how it stands: "ok", "lost" or "unknown"
    how: &'static str,
    line: String,
}

/// what a callee leaves behind its `&mut` arguments: argument number -> no error there on return
type Summary = BTreeMap<usize, bool>;
/// the returned value itself
const RET: usize = usize::MAX;

struct A<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    env: ty::TypingEnv<'tcx>,
    body: &'a Body<'tcx>,
    sums: &'a HashMap<LocalDefId, Summary>,
    carry: RefCell<HashMap<Ty<'tcx>, bool>>,
    facts: RefCell<BTreeMap<(u32, usize, String), Fact>>,
    /// only an error can be returned
    replaces: bool,
    /// a parser: alternatives are tried in turn, and the error is that of all of them
    attempts: bool,
    exit: RefCell<Option<St>>,
}

fn is_error_path(p: &str) -> bool {
    p == "syn::Error" || p == "syn::error::Error"
}

impl<'a, 'tcx> A<'a, 'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::dummy(t)).unwrap_or(t)
    }
    fn carries(&self, t: Ty<'tcx>) -> bool {
        self.carries_in(self.norm(t), &mut HashSet::new())
    }
    fn carries_in(&self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> bool {
        if let Some(b) = self.carry.borrow().get(&t) {
            return *b;
        }
        if !seen.insert(t) {
            return false;
        }
        let tcx = self.tcx;
        let r = match t.kind() {
            ty::Adt(d, args) => {
                let p = with_no_trimmed_paths!(tcx.def_path_str(d.did()));
                if is_error_path(&p) {
                    true
                } else if d.is_phantom_data() {
                    false
                } else if d.did().is_local() {
                    d.all_fields().any(|f| self.carries_in(self.norm(f.ty(tcx, args).skip_norm_wip()), seen))
                } else {
                    args.types().any(|a| self.carries_in(self.norm(a), seen))
                }
            }
            ty::Tuple(ts) => ts.iter().any(|x| self.carries_in(x, seen)),
            ty::Array(x, _) | ty::Slice(x) => self.carries_in(self.norm(*x), seen),
            ty::Closure(_, args) => args.as_closure().upvar_tys().iter().any(|x| self.carries_in(self.norm(x), seen)),
            ty::Param(_) | ty::Alias(..) => self.bounded(t, seen),
            _ => false,
        };
        if seen.len() == 1 || r {
            self.carry.borrow_mut().insert(t, r);
        }
        seen.remove(&t);
        r
    }
    /// a type parameter that converts into an error, or an iterator of errors
    fn bounded(&self, t: Ty<'tcx>, seen: &mut HashSet<Ty<'tcx>>) -> bool {
        for c in self.env.param_env.caller_bounds() {
            match c.kind().skip_binder() {
                ty::ClauseKind::Trait(tr) if tr.self_ty() == t => {
                    let p = with_no_trimmed_paths!(self.tcx.def_path_str(tr.def_id()));
                    if p == "std::convert::Into" && tr.trait_ref.args.types().nth(1).map_or(false, |x| self.carries_in(x, seen)) {
                        return true;
                    }
                }
                ty::ClauseKind::Projection(pr) if pr.self_ty() == t => {
                    if let Some(x) = pr.term.as_type() {
                        let p = with_no_trimmed_paths!(self.tcx.def_path_str(pr.def_id()));
                        if p.ends_with("::Item") && self.carries_in(x, seen) {
                            return true;
                        }
                    }
                }
                _ => {}
            }
        }
        match self.item_of(Some(t)) {
            Some(x) if x != t && !(matches!(x.kind(), ty::Alias(..)) && seen.contains(&x)) => self.carries_in(x, seen),
            _ => false,
        }
    }
    fn ty(&self, p: Place<'tcx>) -> Ty<'tcx> {
        self.norm(p.ty(self.body, self.tcx).ty)
    }
    fn key(&self, p: Place<'tcx>, st: &St) -> Key {
        let mut k: Key = (p.local, vec![]);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => {
                    if k.1.is_empty() {
                        if let Some(Some(t)) = st.al.get(&k.0) {
                            k = t.clone();
                            continue;
                        }
                    }
                    k.1.push(P::Deref)
                }
                ProjectionElem::Field(f, _) => k.1.push(P::Field(f.as_u32())),
                ProjectionElem::Downcast(_, v) => k.1.push(P::Variant(v.as_u32())),
                ProjectionElem::OpaqueCast(_) | ProjectionElem::UnwrapUnsafeBinder(_) => {}
                _ => k.1.push(P::Other),
            }
        }
        k
    }
    /// may there be an error in the place?
    fn residual(&self, k: &Key, t: Ty<'tcx>, st: &St, depth: usize) -> bool {
        let t = self.norm(t);
        if !self.carries(t) {
            return false;
        }
        let s = st.lookup(k);
        if st.below(k).filter(|x| x.0 != k).next().is_none() || depth > 8 {
            return s == S::May || st.below(k).any(|x| *x.1 == S::May);
        }
        let sub = |p: &[P]| {
            let mut k = k.clone();
            k.1.extend_from_slice(p);
            k
        };
        match t.kind() {
            ty::Adt(d, args) if d.is_box() => self.residual(&sub(&[P::Deref]), args.type_at(0), st, depth + 1),
            ty::Adt(d, args) if d.is_enum() => d.variants().iter_enumerated().any(|(v, vd)| vd.fields.iter_enumerated().any(|(f, fd)| self.residual(&sub(&[P::Variant(v.as_u32()), P::Field(f.as_u32())]), fd.ty(self.tcx, args).skip_norm_wip(), st, depth + 1))),
            ty::Adt(d, args) if d.is_struct() && d.did().is_local() => d.non_enum_variant().fields.iter_enumerated().any(|(f, fd)| self.residual(&sub(&[P::Field(f.as_u32())]), fd.ty(self.tcx, args).skip_norm_wip(), st, depth + 1)),
            ty::Tuple(ts) => ts.iter().enumerate().any(|(i, x)| self.residual(&sub(&[P::Field(i as u32)]), x, st, depth + 1)),
            ty::Closure(_, args) => args.as_closure().upvar_tys().iter().enumerate().any(|(i, x)| self.residual(&sub(&[P::Field(i as u32)]), x, st, depth + 1)),
            _ => s == S::May || st.below(k).any(|x| *x.1 == S::May),
        }
    }
    fn line(&self, l: Location) -> String {
        let s = self.body.source_info(l).span.source_callsite();
        let p = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("{}:{}", p.file.name.prefer_local_unconditionally(), p.line)
    }
    fn fact(&self, l: Location, what: String, how: &'static str) {
        let how = match how {
            "lost" if self.replaces => "ok",
            "lost" if self.attempts => "attempt",
            h => h,
        };
        let mut f = self.facts.borrow_mut();
        let e = f.entry((l.block.as_u32(), l.statement_index, what.clone())).or_insert_with(|| Fact { what, how, line: self.line(l) });
        // the last visit has the largest state
        e.how = how;
    }
    fn leaves(&self, k: &Key, st: &St) -> Vec<(Vec<P>, S)> {
        st.below(k).map(|(x, s)| (x.1[k.1.len()..].to_vec(), *s)).collect()
    }
    /// moves a place's state to another
    fn transfer(&self, from: Place<'tcx>, to: &Key, st: &mut St, mv: bool) {
        let t = self.ty(from);
        if !self.carries(t) {
            return;
        }
        let k = self.key(from, st);
        let s = st.lookup(&k);
        let sub = self.leaves(&k, st);
        let any = self.residual(&k, t, st, 0);
        let lk = if k.1.is_empty() { st.link.get(&k.0).cloned() } else { None };
        if mv {
            st.set(&k, S::Gone);
        }
        st.set(to, if any || s == S::Gone { s } else { S::Clean });
        if any {
            for (p, s) in sub {
                let mut x = to.clone();
                x.1.extend(p);
                st.m.insert(x, s);
            }
        }
        if let (Some(lk), true) = (lk, to.1.is_empty()) {
            st.link.insert(to.0, lk);
        }
    }
    /// consumes an operand: may it hold an error? None if its type cannot
    fn operand(&self, o: &Operand<'tcx>, st: &mut St) -> Option<bool> {
        match o {
            Operand::Move(p) | Operand::Copy(p) => {
                let t = self.ty(*p);
                if !self.carries(t) {
                    return None;
                }
                let k = self.key(*p, st);
                let r = self.residual(&k, t, st, 0);
                if matches!(o, Operand::Move(_)) {
                    st.set(&k, S::Gone);
                }
                Some(r)
            }
            // constants hold no error
            _ => {
                let t = self.norm(o.ty(self.body, self.tcx));
                self.carries(t).then_some(false)
            }
        }
    }
    fn alias_of(&self, o: &Operand<'tcx>, st: &St) -> Option<Key> {
        match o {
            Operand::Move(p) | Operand::Copy(p) => {
                let t = self.ty(*p);
                if !t.is_ref() {
                    return None;
                }
                if p.projection.is_empty() {
                    if let Some(k) = st.al.get(&p.local) {
                        return k.clone();
                    }
                }
                let mut k = self.key(*p, st);
                k.1.push(P::Deref);
                Some(k)
            }
            _ => None,
        }
    }
    fn val(b: Option<bool>) -> S {
        if b == Some(true) { S::May } else { S::Clean }
    }

    fn stmt(&self, s: &Statement<'tcx>, st: &mut St) {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (pl, rv) = &**b;
                let k = self.key(*pl, st);
                if pl.projection.is_empty() {
                    st.al.remove(&pl.local);
                    st.disc.remove(&pl.local);
                    st.link.remove(&pl.local);
                }
                match rv {
                    Rvalue::Use(o, ..) => {
                        if let Operand::Move(f) | Operand::Copy(f) = o {
                            if let (Some(x), true) = (self.alias_of(o, st), pl.projection.is_empty()) {
                                st.al.insert(pl.local, Some(x));
                            }
                            if let (Some(d), true, true) = (st.disc.get(&f.local).cloned(), f.projection.is_empty(), pl.projection.is_empty()) {
                                st.disc.insert(pl.local, d);
                            }
                            self.transfer(*f, &k, st, matches!(o, Operand::Move(_)));
                        } else if self.carries(self.ty(*pl)) {
                            st.set(&k, S::Clean);
                        }
                    }
                    Rvalue::Ref(_, _, f) | Rvalue::Reborrow(_, _, f) => {
                        if pl.projection.is_empty() {
                            let x = self.key(*f, st);
                            st.al.insert(pl.local, Some(x));
                        }
                    }
                    Rvalue::UnaryOp(UnOp::Not, Operand::Move(f) | Operand::Copy(f)) => {
                        if let (Some((dk, Some(v))), true) = (st.disc.get(&f.local).cloned(), pl.projection.is_empty()) {
                            // two variants
                            if v < 2 {
                                st.disc.insert(pl.local, (dk, Some(1 - v)));
                            }
                        }
                    }
                    Rvalue::Discriminant(f) => {
                        if pl.projection.is_empty() {
                            let x = self.key(*f, st);
                            st.disc.insert(pl.local, (x, None));
                        }
                    }
                    Rvalue::Aggregate(kind, fs) => {
                        if self.carries(self.ty(*pl)) {
                            let var = match &**kind {
                                AggregateKind::Adt(d, v, ..) if self.tcx.adt_def(*d).is_enum() => Some(v.as_u32()),
                                _ => None,
                            };
                            let arr = matches!(&**kind, AggregateKind::Array(_));
                            let mut vals = vec![];
                            for f in fs.iter() {
                                vals.push(self.operand(f, st));
                            }
                            st.set(&k, S::Clean);
                            for (i, v) in vals.into_iter().enumerate() {
                                if v == Some(true) {
                                    if arr {
                                        st.set(&k, S::May);
                                        break;
                                    }
                                    let mut x = k.clone();
                                    if let Some(v) = var {
                                        x.1.push(P::Variant(v));
                                    }
                                    x.1.push(P::Field(i as u32));
                                    st.m.insert(x, S::May);
                                }
                            }
                        }
                    }
                    Rvalue::Cast(_, o, _) | Rvalue::Repeat(o, _) | Rvalue::WrapUnsafeBinder(o, _) => {
                        let a = self.alias_of(o, st);
                        let v = self.operand(o, st);
                        if pl.projection.is_empty() {
                            if let Some(a) = a {
                                st.al.insert(pl.local, Some(a));
                            }
                        }
                        if self.carries(self.ty(*pl)) {
                            st.set(&k, Self::val(v));
                        }
                    }
                    _ => {}
                }
            }
            StatementKind::StorageDead(l) => {
                let k = (*l, vec![]);
                if st.below(&k).next().is_some() {
                    st.set(&k, S::Gone);
                }
                st.al.remove(l);
                st.disc.remove(l);
                st.link.remove(l);
            }
            _ => {}
        }
    }

    /// the place is known to be the given variant
    fn refine(&self, k: &Key, t: Ty<'tcx>, v: u32, st: &mut St) {
        let ty::Adt(d, args) = t.kind() else { return };
        if !d.is_enum() || !self.carries(t) {
            return;
        }
        let vs: Vec<_> = d.variants().iter_enumerated().collect();
        let has = |i: u32| vs[i as usize].1.fields.iter().any(|f| self.carries(f.ty(self.tcx, args).skip_norm_wip()));
        if (v as usize) < vs.len() && !has(v) {
            if k.1.is_empty() {
                if let Some(x) = st.link.get(&k.0).cloned() {
                    if vs[v as usize].1.name.as_str() == "None" {
                        st.set(&x, S::Clean);
                    }
                }
            }
            if st.lookup(k) != S::Gone || st.below(k).any(|x| *x.1 == S::May) {
                st.set(k, S::Clean);
            }
            return;
        }
        if st.lookup(k) != S::May {
            return;
        }
        for (w, vd) in &vs {
            if w.as_u32() != v {
                for (f, fd) in vd.fields.iter_enumerated() {
                    if self.carries(fd.ty(self.tcx, args).skip_norm_wip()) {
                        let mut x = k.clone();
                        x.1.push(P::Variant(w.as_u32()));
                        x.1.push(P::Field(f.as_u32()));
                        st.set(&x, S::Clean);
                    }
                }
            }
        }
    }
    fn place_ty(&self, k: &Key) -> Option<Ty<'tcx>> {
        let mut t = PlaceTy::from_ty(self.body.local_decls[k.0].ty);
        for p in &k.1 {
            t = match p {
                P::Deref => PlaceTy::from_ty(self.norm(t.ty).builtin_deref(true)?),
                P::Variant(v) => PlaceTy { ty: t.ty, variant_index: Some(rustc_abi::VariantIdx::from_u32(*v)) },
                P::Field(f) => {
                    let n = self.norm(t.ty);
                    let i = *f as usize;
                    PlaceTy::from_ty(match n.kind() {
                        ty::Adt(d, args) => {
                            let v = match t.variant_index {
                                Some(v) => d.variant(v),
                                None if d.is_enum() => return None,
                                None => d.non_enum_variant(),
                            };
                            self.norm(v.fields.iter().nth(i)?.ty(self.tcx, args).skip_norm_wip())
                        }
                        ty::Tuple(ts) => *ts.get(i)?,
                        ty::Closure(_, args) => args.as_closure().upvar_tys().get(i).copied()?,
                        _ => return None,
                    })
                }
                P::Other => return None,
            }
        }
        Some(self.norm(t.ty))
    }

    fn call(&self, func: &Operand<'tcx>, args: &[&Operand<'tcx>], dest: Place<'tcx>, l: Location, st: &mut St) {
        let tcx = self.tcx;
        let aliases: Vec<Option<Key>> = args.iter().map(|a| self.alias_of(a, st)).collect();
        let tys: Vec<Ty<'tcx>> = args.iter().map(|a| self.norm(a.ty(self.body, tcx))).collect();
        let vals: Vec<Option<bool>> = args.iter().map(|a| self.operand(a, st)).collect();
        // functions given as values are called in place of the callee
        let may = vals.iter().any(|v| *v == Some(true));
        let ret = self.ty(dest);
        let rc = self.carries(ret);
        let mut dval = if rc { S::May } else { S::Clean };
        let dk = self.key(dest, st);
        let mut link = None;
        let mut pred = None;
        let ft = self.norm(func.ty(self.body, tcx));
        let (def, gargs) = match ft.kind() {
            ty::FnDef(d, g) => (*d, g.skip_binder()),
            _ => {
                if may {
                    self.fact(l, format!("an error is given to a function known only at run time: {ft}"), if rc { "ok" } else { "unknown" });
                }
                if rc {
                    st.set(&dk, dval);
                }
                return;
            }
        };
        let path = with_no_trimmed_paths!(tcx.def_path_str(def));
        let last = path.rsplit("::").next().unwrap_or("").to_string();
        let rargs = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::dummy(tcx.erase_and_anonymize_regions(gargs))).unwrap_or(gargs);
        let res = Instance::try_resolve(tcx, self.env, def, rargs).ok().flatten();
        let target = res.map(|i| i.def_id()).unwrap_or(def);
        // errors behind `&mut` arguments
        let muts: Vec<(usize, Key, Ty<'tcx>)> = (0..args.len()).filter_map(|i| match tys[i].kind() {
            ty::Ref(_, t, m) if m.is_mut() && self.carries(*t) => aliases[i].clone().map(|k| (i, k, *t)),
            _ => None,
        }).collect();
        let what = |s: &str| format!("{s}: {path}");
        if let Some(ld) = target.as_local() {
            // a contract of the crate itself
            let own = A { tcx, env: ty::TypingEnv::post_analysis(tcx, target), body: self.body, sums: self.sums, carry: Default::default(), facts: Default::default(), replaces: false, attempts: false, exit: Default::default() };
            if !tcx.is_closure_like(target) {
                let sig = tcx.fn_sig(target).instantiate_identity().skip_norm_wip().skip_binder();
                for (i, t) in sig.inputs().iter().enumerate() {
                    if vals.get(i) == Some(&Some(true)) {
                        let ok = own.carries(own.norm(*t));
                        self.fact(l, what("an error is given to"), if ok { "ok" } else { "unknown" });
                    }
                }
            } else if may {
                self.fact(l, what("an error is given to"), "ok");
            }
            if self.sums.get(&ld).and_then(|s| s.get(&RET)) == Some(&true) {
                dval = S::Clean;
            }
            for (i, k, t) in &muts {
                let clean = self.sums.get(&ld).and_then(|s| s.get(i)).copied().unwrap_or(false);
                if clean || self.residual(k, *t, st, 0) || !k.1.is_empty() {
                    st.set(k, if clean { S::Clean } else { S::May });
                } else {
                    st.set(k, S::May);
                }
            }
        } else {
            let tr = tcx.trait_of_assoc(def).map(|t| with_no_trimmed_paths!(tcx.def_path_str(t))).unwrap_or_default();
            let recv = |s: &str| path.contains(s);
            let opt_res = recv("option::Option") || recv("result::Result");
            let item = if tr == "std::iter::Iterator" { self.item_of(rargs.types().next()) } else { None };
            let item_c = item.map_or(false, |t| self.carries(t));
            let uncalled = (1..args.len()).any(|i| vals[i] == Some(true) && tys[i].is_closure());
            // how a by-value error fares
            let kept_val = match (tr.as_str(), last.as_str()) {
                ("std::convert::Into" | "std::convert::From" | "std::convert::TryInto" | "std::convert::TryFrom" | "std::ops::Try" | "std::ops::FromResidual" | "std::iter::IntoIterator", _) => rc,
                ("std::ops::FnOnce" | "std::ops::FnMut" | "std::ops::Fn", _) => true,
                ("std::iter::Extend", "extend") => true,
                ("std::iter::FromIterator", "from_iter") | ("std::iter::Iterator", "collect") => !matches!(ret.kind(), ty::Adt(d, _) if { let p = with_no_trimmed_paths!(tcx.def_path_str(d.did())); p == "std::result::Result" || p == "std::option::Option" }),
                ("std::iter::Iterator", "map" | "filter_map" | "flat_map" | "enumerate" | "chain" | "rev" | "peekable" | "inspect" | "fuse") => rc,
                ("std::iter::Iterator", "for_each" | "fold") => true,
                ("std::iter::Iterator", _) => false,
                (_, "combine" | "into_compile_error" | "to_compile_error") if recv("syn::Error") => true,
                (_, "once" | "from_fn" | "successors" | "zip" | "repeat") if recv("iter::") => rc,
                (_, "into_iter") => rc && !opt_res,
                // a function that owns an error is dropped where it is not called
                (_, "map" | "map_err" | "and_then" | "or_else" | "map_or" | "map_or_else" | "unwrap_or_else" | "ok_or_else" | "inspect" | "inspect_err") if opt_res && uncalled => false,
                (_, "map" | "map_err" | "and_then" | "or_else" | "map_or_else" | "unwrap_or_else" | "err" | "unwrap_err" | "expect_err" | "transpose" | "ok_or_else" | "inspect" | "inspect_err" | "copied" | "cloned") if opt_res => true,
                (_, "map_or") if recv("option::Option") => vals.get(1) != Some(&Some(true)),
                (_, "unwrap" | "expect" | "ok_or" | "into_ok_or_err") if recv("option::Option") => rc,
                (_, "push" | "push_back" | "push_front" | "append" | "insert") if !opt_res => true,
                (_, "replace") if tr.is_empty() && (recv("std::mem") || opt_res) => true,
                (_, "insert") if opt_res => true,
                (_, "new" | "from" | "pin" | "leak") if recv("boxed::Box") || recv("rc::Rc") || recv("cell::") => rc && last != "leak",
                (_, "swap") if recv("std::mem") => true,
                _ => false,
            };
            // what is known to lose it
            let loses = match (tr.as_str(), last.as_str()) {
                ("std::iter::Iterator", _) => !kept_val,
                (_, "ok" | "unwrap_or" | "unwrap_or_default" | "map_or" | "is_ok_and" | "is_some_and" | "is_none_or" | "is_err_and" | "or" | "and" | "xor" | "unwrap" | "expect" | "iter" | "into_iter" | "filter" | "ok_or" | "zip" | "get_or_insert") if opt_res => true,
                (_, "drop" | "forget") if recv("std::mem") => true,
                _ => uncalled && opt_res,
            };
            if may {
                self.fact(l, what("an error is given to"), if kept_val { "ok" } else if loses { "lost" } else { "unknown" });
            }
            // an iterator whose items hold errors not made yet
            if item_c && !may && !matches!(last.as_str(), "next" | "map" | "filter_map" | "flat_map" | "enumerate" | "chain" | "rev" | "peekable" | "inspect" | "fuse" | "for_each" | "fold" | "try_fold" | "try_for_each" | "collect" | "size_hint" | "by_ref" | "extend") {
                self.fact(l, what("results are given to"), "lost");
            }
            if rc && !may && kept_val && !vals.is_empty() && vals.iter().any(|v| v.is_some()) && !matches!(tr.as_str(), "std::ops::FnOnce" | "std::ops::FnMut" | "std::ops::Fn") && !(opt_res && matches!(last.as_str(), "map" | "map_err" | "and_then" | "or_else" | "map_or_else" | "unwrap_or_else" | "ok_or_else")) && tr != "std::iter::Iterator" && !matches!(tr.as_str(), "std::convert::TryInto" | "std::convert::TryFrom") {
                dval = S::Clean;
            }
            for (i, k, t) in &muts {
                let before = self.residual(k, *t, st, 0);
                match (tr.as_str(), last.as_str()) {
                    (_, "take") if *i == 0 && (opt_res || recv("std::mem")) => {
                        dval = if before { S::May } else { S::Clean };
                        st.set(k, S::Clean);
                    }
                    (_, "replace") if *i == 0 && (opt_res || recv("std::mem")) => {
                        dval = if before { S::May } else { S::Clean };
                        st.set(k, Self::val(Some(may)));
                    }
                    ("std::iter::Iterator", "next") => {
                        dval = if before { S::May } else { S::Clean };
                        if item_c && !self.owns(*t) {
                            dval = S::May;
                        }
                        link = Some(k.clone());
                    }
                    (_, "pop" | "pop_front" | "pop_back" | "remove" | "swap_remove") => {}
                    (_, "insert" | "get_or_insert") if opt_res => {
                        if before {
                            self.fact(l, what("an error is overwritten by"), "lost");
                        }
                        st.set(k, Self::val(Some(may)));
                    }
                    (_, "combine") if recv("syn::Error") => {}
                    (_, "push" | "push_back" | "push_front" | "append" | "extend" | "insert" | "reserve" | "iter_mut" | "as_mut" | "as_deref_mut" | "by_ref" | "get_or_insert_with" | "deref_mut" | "index_mut" | "borrow_mut" | "into_iter" | "from" | "into") => {
                        st.set(k, S::May);
                    }
                    (_, "clear" | "truncate" | "drain") => {
                        if before {
                            self.fact(l, what("errors are removed by"), "lost");
                        }
                    }
                    ("std::ops::FnMut" | "std::ops::Fn" | "std::ops::FnOnce", _) => {}
                    ("std::iter::Iterator", _) => {
                        if before {
                            let ok = matches!(last.as_str(), "for_each" | "fold" | "collect" | "map" | "filter_map" | "size_hint");
                            self.fact(l, what("errors behind a reference are given to"), if ok { "ok" } else { "lost" });
                        }
                    }
                    _ => {
                        if before {
                            self.fact(l, what("errors behind a reference are given to"), "unknown");
                        }
                    }
                }
            }
            if matches!(last.as_str(), "new" | "default" | "with_capacity" | "empty" | "with_hasher" | "with_capacity_and_hasher") && vals.iter().all(|v| v.is_none()) && muts.is_empty() && !path.contains("syn::Error") && (tr == "std::default::Default" || tr.is_empty()) {
                dval = S::Clean;
            }
            // clones of an error stand for it
            if last == "clone" && tr == "std::clone::Clone" && rc {
                if let Some(k) = &aliases[0] {
                    let b = self.residual(k, ret, st, 0);
                    dval = if b { S::May } else { S::Clean };
                    if b {
                        st.set(k, S::Clean);
                    }
                }
            }
            if opt_res && matches!(last.as_str(), "is_some" | "is_none" | "is_ok" | "is_err") {
                if let Some(k) = &aliases[0] {
                    // variants: None 0, Some 1, Ok 0, Err 1
                    pred = Some((k.clone(), Some(if matches!(last.as_str(), "is_some" | "is_err") { 1 } else { 0 })));
                }
            }
        }
        if dest.projection.is_empty() {
            st.al.remove(&dest.local);
            st.disc.remove(&dest.local);
            st.link.remove(&dest.local);
        }
        if rc {
            st.set(&dk, dval);
        }
        if let (Some(x), true) = (link, dest.projection.is_empty()) {
            st.link.insert(dest.local, x);
        }
        if let (Some(x), true) = (pred, dest.projection.is_empty()) {
            st.disc.insert(dest.local, x);
        }
        // `as_mut` and the like: a reference into the place
        if ret.is_ref() && dest.projection.is_empty() {
            st.al.insert(dest.local, None);
            if matches!(last.as_str(), "deref" | "deref_mut" | "borrow" | "borrow_mut" | "as_ref" | "as_mut" | "by_ref") {
                st.al.remove(&dest.local);
            }
        }
        // functions mentioned as values
        for (i, t) in tys.iter().enumerate() {
            let _ = i;
            if let ty::FnDef(d, g) = t.kind() {
                self.mention(*d, g.skip_binder(), l);
            }
        }
    }
    fn owns(&self, t: Ty<'tcx>) -> bool {
        self.carries(t)
    }
    fn item_of(&self, it: Option<Ty<'tcx>>) -> Option<Ty<'tcx>> {
        let it = it?;
        let d = self.tcx.get_diagnostic_item(rustc_span::sym::Iterator)?;
        let item = self.tcx.associated_items(d).in_definition_order().find(|a| a.is_type())?.def_id;
        let p = Ty::new_projection(self.tcx, ty::IsRigid::No, item, [it]);
        self.tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::dummy(p)).ok()
    }
    /// a function passed as a value: would it lose an error given to it?
    fn mention(&self, d: DefId, g: ty::GenericArgsRef<'tcx>, l: Location) {
        if d.is_local() {
            return;
        }
        let path = with_no_trimmed_paths!(self.tcx.def_path_str(d));
        let last = path.rsplit("::").next().unwrap_or("");
        let c = g.iter().any(|a| matches!(a.kind(), GenericArgKind::Type(t) if self.carries(t)));
        if c {
            let lost = (path.contains("result::Result") && matches!(last, "ok" | "is_ok" | "unwrap_or_default" | "unwrap" | "into_iter")) || path == "std::mem::drop" || path == "std::mem::forget";
            self.fact(l, format!("errors are given to: {path}"), if lost { "lost" } else { "ok" });
        }
    }

    fn run(&self) {
        let body = self.body;
        let mut ins: HashMap<BasicBlock, St> = HashMap::new();
        let mut st0 = St::default();
        for a in body.args_iter() {
            if self.carries(body.local_decls[a].ty) {
                st0.m.insert((a, vec![]), S::May);
            }
        }
        ins.insert(START_BLOCK, st0);
        let mut q = VecDeque::from([START_BLOCK]);
        let mut steps = 0;
        while let Some(b) = q.pop_front() {
            steps += 1;
            if steps > 20000 {
                self.fact(Location { block: b, statement_index: 0 }, "the analysis does not come to an end".into(), "unknown");
                return;
            }
            let mut st = ins[&b].clone();
            let bd = &body.basic_blocks[b];
            for s in &bd.statements {
                self.stmt(s, &mut st);
            }
            let l = Location { block: b, statement_index: bd.statements.len() };
            let mut out: Vec<(BasicBlock, St)> = vec![];
            let t = bd.terminator();
            match &t.kind {
                TerminatorKind::Drop { place, target, replace, .. } => {
                    let ty = self.ty(*place);
                    if self.carries(ty) {
                        let k = self.key(*place, &st);
                        let lost = self.residual(&k, ty, &st, 0);
                        let what = if *replace { "overwriting" } else { "end of scope" };
                        let name = body.var_debug_info.iter().find(|v| matches!(v.value, VarDebugInfoContents::Place(p) if p.local == place.local && p.projection.is_empty())).map(|v| v.name.to_string()).unwrap_or_else(|| "a temporary".into());
                        self.fact(l, format!("{what} of {name}: {ty} holds no error"), if lost { "lost" } else { "ok" });
                        st.set(&k, S::Gone);
                    }
                    out.push((*target, st));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<&Operand<'tcx>> = args.iter().map(|x| &x.node).collect();
                    self.call(func, &a, *destination, l, &mut st);
                    if let Some(t) = target {
                        out.push((*t, st));
                    }
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = match discr {
                        Operand::Move(p) | Operand::Copy(p) if p.projection.is_empty() => st.disc.get(&p.local).cloned(),
                        _ => None,
                    };
                    let pt = d.as_ref().and_then(|(k, _)| self.place_ty(k));
                    let variants: Vec<(u128, u32)> = pt.and_then(|t| match t.kind() {
                        ty::Adt(a, _) if a.is_enum() => Some(a.discriminants(self.tcx).map(|(v, d)| (d.val, v.as_u32())).collect()),
                        _ => None,
                    }).unwrap_or_default();
                    let mut rest: Vec<u32> = variants.iter().map(|x| x.1).collect();
                    for (val, t) in targets.iter() {
                        let mut s = st.clone();
                        if let (Some((k, v)), Some(pt)) = (&d, pt) {
                            match v {
                                None => {
                                    if let Some(x) = variants.iter().find(|x| x.0 == val) {
                                        self.refine(k, pt, x.1, &mut s);
                                        rest.retain(|r| *r != x.1);
                                    }
                                }
                                // bool: 0 is false
                                Some(v) if *v < 2 => self.refine(k, pt, if val == 0 { 1 - *v } else { *v }, &mut s),
                                _ => {}
                            }
                        }
                        out.push((t, s));
                    }
                    let mut s = st;
                    if let (Some((k, v)), Some(pt)) = (&d, pt) {
                        match v {
                            None if rest.len() == 1 => self.refine(k, pt, rest[0], &mut s),
                            Some(v) if *v < 2 => self.refine(k, pt, *v, &mut s),
                            _ => {}
                        }
                    }
                    out.push((targets.otherwise(), s));
                }
                TerminatorKind::Return => {
                    let mut e = self.exit.borrow_mut();
                    match &mut *e {
                        Some(x) => {
                            x.join(&st);
                        }
                        None => *e = Some(st),
                    }
                }
                TerminatorKind::FalseEdge { real_target, .. } => out.push((*real_target, st)),
                TerminatorKind::FalseUnwind { real_target, .. } => out.push((*real_target, st)),
                TerminatorKind::Goto { target, .. } | TerminatorKind::Assert { target, .. } => out.push((*target, st)),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) | TerminatorKind::Unreachable => {}
                k => {
                    self.fact(l, format!("a control transfer outside the analysis: {k:?}"), "unknown");
                }
            }
            for (t, s) in out {
                if body.basic_blocks[t].is_cleanup {
                    continue;
                }
                match ins.get_mut(&t) {
                    Some(x) => {
                        if x.join(&s) && !q.contains(&t) {
                            q.push_back(t);
                        }
                    }
                    None => {
                        ins.insert(t, s);
                        q.push_back(t);
                    }
                }
            }
        }
    }
    fn summary(&self) -> Summary {
        let mut r = Summary::new();
        let e = self.exit.borrow();
        let Some(st) = &*e else { return r };
        let rt = self.norm(self.body.local_decls[RETURN_PLACE].ty);
        if self.carries(rt) {
            r.insert(RET, !self.residual(&(RETURN_PLACE, vec![]), rt, st, 0));
        }
        for (i, a) in self.body.args_iter().enumerate() {
            let t = self.norm(self.body.local_decls[a].ty);
            if let ty::Ref(_, x, m) = t.kind() {
                if m.is_mut() && self.carries(*x) {
                    r.insert(i, !self.residual(&(a, vec![P::Deref]), *x, st, 0));
                }
            }
        }
        r
    }
}

/// keeps a copy of the MIR before drop elaboration
pub fn install(providers: &mut rustc_middle::util::Providers) {
    let _ = ORIG.set(providers.queries.mir_drops_elaborated_and_const_checked);
    providers.queries.mir_drops_elaborated_and_const_checked = |tcx, d| {
        if std::env::var("DV_LINEAR").is_ok() {
            let (b, _) = tcx.mir_promoted(d);
            if !b.is_stolen() {
                let b: Body<'_> = b.borrow().clone();
                let b: Body<'static> = unsafe { std::mem::transmute(b) };
                BODIES.with(|m| m.borrow_mut().insert(d, b));
            }
        }
        ORIG.get().unwrap()(tcx, d)
    };
}

pub fn run<'tcx>(tcx: TyCtxt<'tcx>) -> String {
    let mut keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| tcx.def_span(*k).lo());
    keys.retain(|k| matches!(tcx.def_kind(*k), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) && !tcx.is_constructor(k.to_def_id()));
    for k in &keys {
        tcx.ensure_ok().mir_drops_elaborated_and_const_checked(*k);
    }
    let bodies: HashMap<LocalDefId, Body<'tcx>> = BODIES.with(|m| m.borrow_mut().drain().map(|(k, b)| (k, unsafe { std::mem::transmute::<Body<'static>, Body<'tcx>>(b) })).collect());
    let mut sums: HashMap<LocalDefId, Summary> = HashMap::new();
    let mut out = vec![];
    for round in 0..6 {
        out.clear();
        let mut new = HashMap::new();
        for k in &keys {
            let name = with_no_trimmed_paths!(tcx.def_path_str(*k));
            let Some(body) = bodies.get(k) else {
                out.push(format!("{{\"fn\":{},\"facts\":[{{\"what\":\"its MIR was not seen\",\"how\":\"unknown\",\"line\":\"\"}}]}}", js(&name)));
                continue;
            };
            let env = ty::TypingEnv::post_analysis(tcx, k.to_def_id());
            let mut a = A { tcx, env, body, sums: &sums, carry: Default::default(), facts: Default::default(), replaces: false, attempts: false, exit: Default::default() };
            let rt = a.norm(body.local_decls[RETURN_PLACE].ty);
            // an error that stands for those dropped is returned whatever happens
            a.replaces = matches!(rt.kind(), ty::Adt(d, _) if { let p = with_no_trimmed_paths!(tcx.def_path_str(d.did())); is_error_path(&p) || d.did().is_local() && d.is_struct() && a.carries(rt) && d.all_fields().count() == 1 && d.all_fields().all(|f| matches!(f.ty(tcx, ty::GenericArgs::identity_for_item(tcx, d.did())).skip_norm_wip().kind(), ty::Adt(x, _) if is_error_path(&with_no_trimmed_paths!(tcx.def_path_str(x.did()))))) });
            // ... for the one given
            let given = body.args_iter().filter(|x| { let t = a.norm(body.local_decls[*x].ty); a.carries(t.peel_refs()) }).count();
            a.replaces &= given <= 1;
            let root = tcx.typeck_root_def_id(k.to_def_id());
            a.attempts = tcx.fn_sig(root).instantiate_identity().skip_norm_wip().skip_binder().inputs().iter().any(|t| with_no_trimmed_paths!(t.peel_refs().to_string()).starts_with("syn::parse::ParseBuffer"));
            a.run();
            new.insert(*k, a.summary());
            let f = a.facts.into_inner();
            out.push(format!(
                "{{\"fn\":{},\"facts\":{}}}",
                js(&name),
                jlist(f.values(), |f| format!("{{\"what\":{},\"how\":{},\"line\":{}}}", js(&f.what), js(f.how), js(&f.line)))
            ));
        }
        let done = new == sums;
        sums = new;
        if done && round > 0 {
            break;
        }
    }
    format!("{{\"crate\":{},\"bodies\":[{}]}}", js(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()), out.join(",\n"))
}
