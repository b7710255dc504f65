//! The contracts: what a mapping has to do, computed from the type alone.
use crate::eng::*;
use crate::term::*;
use crate::val::*;
use rustc_middle::ty::{self, Ty};
use std::collections::VecDeque;
use std::rc::Rc;

/// result of matching an actual trace against an expected one
#[derive(Debug)]
pub enum TM {
    Full,
    /// matched up to an event whose outcome was not Ok, and that event is the last one
    Stopped { out: Outcome, f: T, arg: T },
    /// the actual trace is a proper prefix
    Prefix,
    Mismatch(String),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum SpecMode {
    /// by declared fields, through standard containers (library implementations)
    Deep,
    /// fields of the root type; nested generic types by the contract of their own mapping (derived implementations)
    Shallow,
    /// the value is opaque: the contract of the plain method (`_over` methods)
    Opaque,
}

pub struct Spec<'tcx> {
    pub a: Ty<'tcx>,
    pub b: Ty<'tcx>,
    pub f: T,
    pub fallible: bool,
    pub mode: SpecMode,
}

/// index of a generic argument among type and const arguments, as used by the markers
pub fn typish<'tcx>(args: ty::GenericArgsRef<'tcx>) -> Vec<ty::GenericArg<'tcx>> {
    args.iter().filter(|a| a.as_region().is_none()).collect()
}

impl<'tcx> Eng<'tcx> {
    pub fn mentions(&self, t: Ty<'tcx>, a: Ty<'tcx>) -> bool {
        t.walk().any(|g| g.as_type() == Some(a))
    }
    fn item_total(items: &VecDeque<TItem<'tcx>>) -> Option<Lin> {
        let mut s = Lin::k(0);
        for i in items {
            match i {
                TItem::Ev { .. } => return None,
                TItem::Loop { count, .. } => s = s.add(count),
            }
        }
        Some(s)
    }
    fn unroll(&mut self, i: &Info, q: &mut VecDeque<TItem<'tcx>>) {
        loop {
            match q.front() {
                Some(TItem::Loop { count, var, body }) => {
                    if body.is_empty() || self.prove(i, &Form::le(count, &Lin::k(0))) {
                        q.pop_front();
                        continue;
                    }
                    if let Some(n) = count.is_const() {
                        if n <= 8 {
                            let (var, body) = (*var, body.clone());
                            q.pop_front();
                            for j in (0..n).rev() {
                                for b in body.iter().rev() {
                                    q.push_front(b.subst(&Sub { s: var, l: &Lin::k(j) }));
                                }
                            }
                            continue;
                        }
                    }
                    return;
                }
                _ => return,
            }
        }
    }
    fn depth(b: &[TItem<'tcx>]) -> usize {
        b.iter()
            .map(|t| match t {
                TItem::Ev { .. } => 0,
                TItem::Loop { count, body, .. } if count.is_const().map_or(false, |n| n <= 8) => Self::depth(body),
                TItem::Loop { body, .. } => 1 + Self::depth(body),
            })
            .max()
            .unwrap_or(0)
    }
    /// take the first iteration out of a loop known to be non-empty
    fn peel_loop(&mut self, q: &mut VecDeque<TItem<'tcx>>) {
        let Some(TItem::Loop { count, var, body }) = q.pop_front() else { unreachable!() };
        let v2 = self.sym();
        let rest: Vec<_> = body.iter().map(|b| b.subst(&Sub { s: var, l: &Lin::sym(v2).addk(1) })).collect();
        q.push_front(TItem::Loop { count: count.addk(-1), var: v2, body: rest });
        for b in body.iter().rev() {
            q.push_front(b.subst(&Sub { s: var, l: &Lin::k(0) }));
        }
    }
    fn shift_loop(&mut self, q: &mut VecDeque<TItem<'tcx>>, n: &Lin) {
        let Some(TItem::Loop { count, var, body }) = q.pop_front() else { unreachable!() };
        let v2 = self.sym();
        let rest: Vec<_> = body.iter().map(|b| b.subst(&Sub { s: var, l: &Lin::sym(v2).add(n) })).collect();
        q.push_front(TItem::Loop { count: count.sub(n), var: v2, body: rest });
    }
    pub fn trace_match(&mut self, i: &Info, actual: &[TItem<'tcx>], expected: &[TItem<'tcx>]) -> R<TM> {
        let mut a: VecDeque<TItem> = actual.iter().cloned().collect();
        let mut e: VecDeque<TItem> = expected.iter().cloned().collect();
        let mut fuel = 400;
        loop {
            fuel -= 1;
            if fuel == 0 {
                return und("comparison of closure calls does not line up");
            }
            self.unroll(i, &mut a);
            self.unroll(i, &mut e);
            match (a.front(), e.front()) {
                (None, None) => return Ok(TM::Full),
                (None, Some(_)) => {
                    let Some(t) = Self::item_total(&e) else { return Ok(TM::Prefix) };
                    return Ok(if self.decide(i, &Form::le(&t, &Lin::k(0)))? { TM::Full } else { TM::Prefix });
                }
                (Some(_), None) => {
                    let Some(t) = Self::item_total(&a) else {
                        return Ok(TM::Mismatch(format!("extra closure call {:?}", a.front().unwrap())));
                    };
                    return Ok(if self.decide(i, &Form::le(&t, &Lin::k(0)))? {
                        TM::Full
                    } else {
                        TM::Mismatch(format!("extra closure calls {:?}", a.front().unwrap()))
                    });
                }
                (Some(TItem::Ev { f, arg, out }), Some(TItem::Ev { f: g, arg: h, out: o2 })) => {
                    let (f, arg, out, g, h, o2) = (f.clone(), arg.clone(), *out, g.clone(), h.clone(), *o2);
                    if !self.term_eq(i, &f, &g) {
                        return Ok(TM::Mismatch(format!("calls closure {f:?} instead of {g:?}")));
                    }
                    if !self.val_eq(i, &arg, &h, false)? {
                        return Ok(TM::Mismatch(format!("closure called with {arg:?} where {h:?} is due")));
                    }
                    a.pop_front();
                    e.pop_front();
                    if out != o2 {
                        if out == Outcome::Ok {
                            return Ok(TM::Mismatch(format!("outcome {out:?} instead of {o2:?}")));
                        }
                        if !a.is_empty() {
                            self.unroll(i, &mut a);
                            if !a.is_empty() {
                                return Ok(TM::Mismatch(format!("closure called again after {out:?}: {:?}", a.front().unwrap())));
                            }
                        }
                        let V::Res(t, _) = arg else { return und("argument of the failing call") };
                        return Ok(TM::Stopped { out, f, arg: t });
                    }
                }
                (Some(TItem::Loop { count: n, var: x, body: p }), Some(TItem::Loop { count: m, var: y, body: q })) => {
                    let (n, m, x, y, p, q) = (n.clone(), m.clone(), *x, *y, p.clone(), q.clone());
                    // one side is in the middle of an iteration of the other
                    let (dp, dq) = (Self::depth(&p), Self::depth(&q));
                    if dp != dq {
                        let (side, c) = if dp < dq { (&mut e, &m) } else { (&mut a, &n) };
                        if self.decide(i, &Form::le(c, &Lin::k(0)))? {
                            side.pop_front();
                        } else {
                            self.peel_loop(side);
                        }
                        continue;
                    }
                    let k = if self.lin_eq(i, &n, &m) {
                        n.clone()
                    } else if self.decide(i, &Form::le(&n, &m))? {
                        n.clone()
                    } else {
                        m.clone()
                    };
                    let j = self.sym();
                    let l = if k.is_const() == Some(1) { Lin::k(0) } else { Lin::sym(j) };
                    let mut pc = i.pc.to_vec();
                    pc.push(Form::lt(&l, &k));
                    let i2 = Info { pc: &pc, variants: i.variants };
                    let p: Vec<_> = p.iter().map(|b| b.subst(&Sub { s: x, l: &l })).collect();
                    let q: Vec<_> = q.iter().map(|b| b.subst(&Sub { s: y, l: &l })).collect();
                    let r = match self.trace_match(&i2, &p, &q) {
                        Ok(r) => r,
                        Err(Stop::Split(_)) => return und("comparison of closure calls needs a case distinction"),
                        Err(e) => return Err(e),
                    };
                    match r {
                        TM::Full => {}
                        bad => {
                            if !self.decide(i, &Form::le(&k, &Lin::k(0)))? {
                                return Ok(TM::Mismatch(format!("repeated closure calls differ: {bad:?}")));
                            }
                        }
                    }
                    for (s, c) in [(&mut a, n), (&mut e, m)] {
                        if self.lin_eq(i, &c, &k) {
                            s.pop_front();
                        } else {
                            self.shift_loop(s, &k);
                        }
                    }
                }
                (Some(TItem::Ev { .. }), Some(TItem::Loop { count, .. })) => {
                    let f = Form::le(count, &Lin::k(0));
                    if self.decide(i, &f)? {
                        e.pop_front();
                    } else {
                        self.peel_loop(&mut e);
                    }
                }
                (Some(TItem::Loop { count, .. }), Some(TItem::Ev { .. })) => {
                    let f = Form::le(count, &Lin::k(0));
                    if self.decide(i, &f)? {
                        a.pop_front();
                    } else {
                        self.peel_loop(&mut a);
                    }
                }
            }
        }
    }

    /// expected closure calls and value for mapping `v: ty`
    pub fn spec_val(&mut self, i: &Info, s: &Spec<'tcx>, v: &V<'tcx>, ty: Ty<'tcx>, root: bool) -> R<(Vec<TItem<'tcx>>, V<'tcx>)> {
        let ty = self.norm(ty)?;
        if ty == s.a {
            let V::Res(t, _) = v else { return und("occurrence in pieces") };
            let ev = TItem::Ev { f: s.f.clone(), arg: v.clone(), out: Outcome::Ok };
            let r = self.res(T::Ret(Rc::new(s.f.clone()), Rc::new(t.clone())), s.b);
            return Ok((vec![ev], r));
        }
        if !root && !self.mentions(ty, s.a) {
            return Ok((vec![], v.clone()));
        }
        match ty.kind() {
            ty::Array(e, _) => {
                let x = self.expand(i, v)?;
                let V::Seq(segs) = x else { return und("array value") };
                let mut tr = vec![];
                let mut out = vec![];
                for g in segs.iter() {
                    let (b, y) = self.spec_elem(i, s, g, *e)?;
                    tr.push(TItem::Loop { count: g.len.clone(), var: g.var, body: b });
                    out.push(Seg { len: g.len.clone(), var: g.var, val: y });
                }
                return Ok((tr, V::Seq(Rc::new(out))));
            }
            ty::Tuple(l) => {
                let x = self.expand(i, v)?;
                let V::Agg(t, var, fs) = x else { return und("tuple value") };
                let mut tr = vec![];
                let mut out = vec![];
                for (f, t) in fs.iter().zip(l.iter()) {
                    let (b, y) = self.spec_val(i, s, f, t, false)?;
                    tr.extend(b);
                    out.push(y);
                }
                return Ok((tr, V::Agg(t, var, Rc::new(out))));
            }
            ty::Adt(d, args) => {
                let by_fields = match s.mode {
                    SpecMode::Deep => true,
                    SpecMode::Shallow => root,
                    SpecMode::Opaque => false,
                };
                if !by_fields {
                    return self.spec_nested(i, s, v, ty, args);
                }
                // representation wrappers are the identity
                if self.adt_kind(d.did()) == AdtK::Ident {
                    return self.spec_val(i, s, v, args.type_at(0), false);
                }
                let x = self.expand(i, v)?;
                match x {
                    V::Box(c) => {
                        let (tr, y) = self.spec_val(i, s, &c, args.type_at(0), false)?;
                        Ok((tr, V::Box(Rc::new(y))))
                    }
                    V::Cont { kind, segs, .. } => {
                        let ety = self.cont_elem_ty(ty);
                        let mut tr = vec![];
                        let mut out = vec![];
                        for g in segs.iter() {
                            let (b, y) = self.spec_elem(i, s, g, ety)?;
                            tr.push(TItem::Loop { count: g.len.clone(), var: g.var, body: b });
                            out.push(Seg { len: g.len.clone(), var: g.var, val: y });
                        }
                        Ok((tr, V::Cont { kind, built: true, segs: Rc::new(out) }))
                    }
                    V::Agg(t, var, fs) => {
                        let mut tr = vec![];
                        let mut out = vec![];
                        for (n, f) in fs.iter().enumerate() {
                            let fty = self.sub_ty(ty, &P::F(var, n as u32))?;
                            let (b, y) = self.spec_val(i, s, f, fty, false)?;
                            tr.extend(b);
                            out.push(y);
                        }
                        Ok((tr, V::Agg(t, var, Rc::new(out))))
                    }
                    x => und(format!("specification of {x:?}")),
                }
            }
            _ => und(format!("specification of type {ty:?}")),
        }
    }
    fn spec_elem(&mut self, i: &Info, s: &Spec<'tcx>, g: &Seg<'tcx>, ety: Ty<'tcx>) -> R<(Vec<TItem<'tcx>>, V<'tcx>)> {
        let mut pc = i.pc.to_vec();
        pc.push(Form::lt(&Lin::sym(g.var), &g.len));
        let i2 = Info { pc: &pc, variants: i.variants };
        match self.spec_val(&i2, s, &g.val, ety, false) {
            Err(Stop::Split(_)) => und("specification of elements needs a case distinction"),
            r => r,
        }
    }
    /// a nested generic type is mapped through its own mapping, argument by argument
    fn spec_nested(&mut self, i: &Info, s: &Spec<'tcx>, v: &V<'tcx>, _ty: Ty<'tcx>, args: ty::GenericArgsRef<'tcx>) -> R<(Vec<TItem<'tcx>>, V<'tcx>)> {
        let mut tr = vec![];
        let mut cur = v.clone();
        for (k, g) in typish(args).into_iter().enumerate() {
            let Some(t) = g.as_type() else { continue };
            if !self.mentions(t, s.a) {
                continue;
            }
            let t = self.norm(t)?;
            let (body, out) = self.spec_mapped(i, s, &cur, &k.to_string(), t)?;
            tr.push(body);
            cur = out;
        }
        Ok((tr, cur))
    }
    pub fn spec_mapped(&mut self, i: &Info, s: &Spec<'tcx>, v: &V<'tcx>, k: &str, t: Ty<'tcx>) -> R<(TItem<'tcx>, V<'tcx>)> {
        let (src, prev) = self.src_term(v)?;
        let var = self.sym();
        let len = Lin::atom(Atom::Len(src.clone(), k.to_string()));
        let el = self.res(T::Elem(Rc::new(src.clone()), k.to_string(), Rc::new(Lin::sym(var))), t);
        let g = Seg { len: len.clone(), var, val: el };
        let (body, y) = self.spec_elem(i, s, &g, t)?;
        let item = TItem::Loop { count: len.clone(), var, body };
        let m = V::Mapped { src, k: k.to_string(), segs: Rc::new(vec![Seg { len, var, val: y }]), ty: t, prev };
        Ok((item, m))
    }

    /// the input is an exhausted `RangeInclusive` and only the exhaustion flag of the result differs
    pub fn only_exhausted_lost(&mut self, i: &Info, v: &V<'tcx>, want: &V<'tcx>, ty: Ty<'tcx>) -> R<bool> {
        let ty::Adt(d, _) = ty.kind() else { return Ok(false) };
        if self.path(d.did()) != "core::ops::range::RangeInclusive" {
            return Ok(false);
        }
        let names: Vec<_> = d.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect();
        let Some(n) = names.iter().position(|x| x == "exhausted") else { return Ok(false) };
        let (V::Agg(_, _, a), V::Agg(_, _, b)) = (v, want) else { return Ok(false) };
        let V::Bool(flag) = &b[n] else { return Ok(false) };
        if !self.prove(i, flag) {
            return Ok(false);
        }
        for k in 0..a.len() {
            if k != n && !self.val_eq(i, &a[k], &b[k], false)? {
                return Ok(false);
            }
        }
        Ok(true)
    }
    /// check a finished execution against the contract
    pub fn check_final(&mut self, st: &State<'tcx>, s: &Spec<'tcx>, self_ty: Ty<'tcx>, marker: &str) -> R<()> {
        let i = &Info { pc: &st.pc, variants: &st.variants };
        let x = self.res(T::In("x".into()), self_ty);
        let (tr, val) = if s.mode == SpecMode::Opaque {
            let (t, v) = self.spec_mapped(i, s, &x, marker, s.a)?;
            (vec![t], v)
        } else {
            self.spec_val(i, s, &x, self_ty, true)?
        };
        self.o("trace");
        let m = self.trace_match(i, &st.trace, &tr)?;
        if st.unwinding {
            match m {
                TM::Stopped { out: Outcome::Unwind, .. } => {}
                TM::Full | TM::Prefix if st.unwind_ok => {}
                TM::Full | TM::Prefix => return viol(Cat::Panic, "the mapping panics by itself"),
                TM::Stopped { .. } => return viol(Cat::Panic, "panic after an error"),
                TM::Mismatch(m) => return viol(Cat::Trace, m),
            }
        } else {
            let Some(c) = st.mem.get(&AllocId::Heap(0)) else { return und("no result") };
            let c = c.clone();
            self.o("initialised-result");
            if !self.init(i, &c.v, c.ty) {
                return viol(Cat::Safety, format!("result is not fully initialised: {:?}", c.v));
            }
            let (ret, err) = if s.fallible {
                let e = self.expand(i, &c.v)?;
                match e {
                    V::Agg(_, 0, fs) => (Some(fs[0].clone()), None),
                    V::Agg(_, _, fs) => (None, Some(fs[0].clone())),
                    v => return und(format!("result {v:?}")),
                }
            } else {
                (Some(c.v.clone()), None)
            };
            match (ret, err, m) {
                (Some(v), _, TM::Full) => {
                    self.o("value");
                    if !self.val_eq(i, &v, &val, false)? {
                        if self.only_exhausted_lost(i, &v, &val, self_ty)? {
                            return viol(Cat::Value, "KNOWN:range-inclusive-exhausted the mapped range is no longer exhausted");
                        }
                        return viol(Cat::Value, format!("result is {v:?} where {val:?} is due"));
                    }
                }
                (None, Some(e), TM::Stopped { out: Outcome::Err, f, arg }) => {
                    self.o("error");
                    match &e {
                        V::Res(T::ErrRet(g, a), _) if self.term_eq(i, g, &f) && self.term_eq(i, a, &arg) => {}
                        _ => return viol(Cat::Value, format!("the error returned is {e:?} instead of the one of the failing call on {arg:?}")),
                    }
                }
                (_, _, TM::Mismatch(m)) => return viol(Cat::Trace, m),
                (Some(_), _, TM::Prefix) => return viol(Cat::Trace, "returns although the closure was not called for every occurrence"),
                (Some(_), _, TM::Stopped { .. }) => return viol(Cat::Value, "returns success although the closure failed"),
                (None, _, TM::Full | TM::Prefix) => return viol(Cat::Value, "returns an error although no call failed"),
                (None, _, m) => return viol(Cat::Trace, format!("{m:?}")),
            }
        }
        // everything else is gone
        for (k, c) in &st.mem {
            if *k == AllocId::Heap(0) && !st.unwinding {
                continue;
            }
            let v = c.v.clone();
            self.discard(i, &v, if matches!(k, AllocId::Heap(_)) { "leaked allocation" } else { "local" });
        }
        Ok(())
    }
}
