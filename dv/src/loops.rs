//! Path exploration and loop summarisation by inductive generalisation.
use crate::eng::*;
use crate::smt::Sat;
use crate::term::*;
use crate::val::*;
use rustc_middle::mir::BasicBlock;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct LoopStop {
    pub depth: usize,
    pub uid: u32,
    pub header: BasicBlock,
    pub blocks: BTreeSet<BasicBlock>,
}

type Segs<'tcx> = [Seg<'tcx>];

impl<'tcx> Eng<'tcx> {
    /// apply one alternative of a case distinction; None if infeasible
    pub fn apply_alt(&mut self, st: &State<'tcx>, a: &Alt) -> Option<State<'tcx>> {
        let mut s = st.clone();
        match a {
            Alt::Assume(f) => {
                s.pc.push(f.clone());
                if self.solver.check(&s.pc) == Sat::Unsat {
                    return None;
                }
            }
            Alt::Variant(t, v) => {
                s.variants.insert(t.clone(), *v);
            }
        }
        Some(s)
    }
    pub fn where_am_i(&self, st: &State<'tcx>) -> String {
        let mut o = vec![];
        for f in st.frames.iter().rev().take(6) {
            if let FK::Fn { info, bb, .. } = &f.k {
                let sp = info.body.basic_blocks[*bb].terminator().source_info.span;
                o.push(format!("{} ({})", info.name, self.tcx.sess.source_map().span_to_diagnostic_string(sp)));
            }
        }
        o.join(" <- ")
    }
    pub fn record_viol(&mut self, st: &State<'tcx>, cat: Cat, msg: String) {
        let at = self.where_am_i(st);
        if self.viols.iter().any(|v| v.cat == cat && v.msg == msg && v.at == at) {
            return;
        }
        let mut model = self.solver.model(&st.pc).unwrap_or_default();
        for (t, v) in &st.variants {
            model.push((format!("variant({t:?})"), *v as i128));
        }
        self.viols.push(Viol { cat, msg, model, at, trace: format!("{:?}", st.trace) });
    }
    pub fn record_und(&mut self, st: &State<'tcx>, msg: String) {
        let m = format!("{msg} at {}", self.where_am_i(st));
        if !self.unds.contains(&m) {
            self.unds.push(m);
        }
    }
    /// explore all paths from `init`; with `stop`, until the loop is left or its header reached again
    pub fn explore(&mut self, init: State<'tcx>, stop: Option<&LoopStop>) -> (Vec<State<'tcx>>, Vec<State<'tcx>>) {
        let mut work = vec![init];
        let mut backs = vec![];
        let mut exits = vec![];
        while let Some(st) = work.pop() {
            if self.budget == 0 {
                self.record_und(&st, "step budget exhausted".into());
                break;
            }
            self.budget -= 1;
            match self.step(&st) {
                Ok(succ) => {
                    let mut q = succ;
                    while let Some(s) = q.pop() {
                        if s.frames.is_empty() {
                            exits.push(s);
                            continue;
                        }
                        if let Some(l) = stop {
                            let d = s.frames.len();
                            if d < l.depth {
                                exits.push(s);
                                continue;
                            }
                            if d == l.depth {
                                let f = s.frames.last().unwrap();
                                if f.uid != l.uid {
                                    exits.push(s);
                                    continue;
                                }
                                if let FK::Fn { bb, .. } = &f.k {
                                    if *bb == l.header {
                                        backs.push(s);
                                        continue;
                                    }
                                    if !l.blocks.contains(bb) {
                                        exits.push(s);
                                        continue;
                                    }
                                }
                            }
                        }
                        // entering a loop?
                        if let Some(Frame { k: FK::Fn { info, bb, stmt: 0 }, .. }) = s.frames.last() {
                            if info.loops.contains_key(bb) {
                                let mut outs = vec![];
                                self.do_loop(s, &mut outs);
                                q.extend(outs);
                                continue;
                            }
                        }
                        work.push(s);
                    }
                }
                Err(Stop::Split(alts)) => {
                    let mut any = false;
                    for a in &alts {
                        if let Some(s) = self.apply_alt(&st, a) {
                            any = true;
                            work.push(s);
                        }
                    }
                    if !any {
                        // contradictory path condition
                    }
                }
                Err(Stop::Viol { cat, msg }) => self.record_viol(&st, cat, msg),
                Err(Stop::Und(m)) => self.record_und(&st, m),
            }
        }
        (backs, exits)
    }
    fn do_loop(&mut self, s0: State<'tcx>, out: &mut Vec<State<'tcx>>) {
        let (uid, info, bb) = match s0.frames.last() {
            Some(Frame { uid, k: FK::Fn { info, bb, .. }, .. }) => (*uid, info.clone(), *bb),
            _ => unreachable!(),
        };
        let stop = LoopStop { depth: s0.frames.len(), uid, header: bb, blocks: info.loops[&bb].clone() };
        if let Some(ex) = self.map_loop(&s0, &stop) {
            self.loops_done += 1;
            out.extend(ex);
            return;
        }
        let mut states = vec![s0];
        let mut exits: Vec<Vec<State>> = vec![];
        // unroll, trying to generalise from every three consecutive header states
        for n in 0..14 {
            let cur = states[n].clone();
            let unds0 = self.unds.len();
            let (backs, ex) = self.explore(cur.clone(), Some(&stop));
            exits.push(ex);
            if self.unds.len() > unds0 {
                // something in the body is beyond the engine
                for e in exits {
                    out.extend(e);
                }
                return;
            }
            let backs = self.merge(backs);
            if backs.is_empty() {
                for e in exits {
                    out.extend(e);
                }
                return;
            }
            if backs.len() > 1 {
                self.record_und(&cur, format!("loop with {} different continuations", backs.len()));
                for e in exits {
                    out.extend(e);
                }
                return;
            }
            states.push(backs.into_iter().next().unwrap());
            if n >= 1 && n <= 4 {
                let k = n - 1;
                let save = (self.viols.len(), self.unds.len());
                match self.summarise(&states[k].clone(), &states[k + 1].clone(), &states[k + 2].clone(), &stop) {
                    Ok(ex) => {
                        self.loops_done += 1;
                        for e in exits.into_iter().take(k) {
                            out.extend(e);
                        }
                        out.extend(ex);
                        return;
                    }
                    Err(m) => {
                        if std::env::var("DV_LOOP").is_ok() {
                            eprintln!("loop {}:{:?} peel {k}: {m}", info.name, bb);
                        }
                        self.viols.truncate(save.0);
                        self.unds.truncate(save.1);
                    }
                }
            }
        }
        self.record_und(&states[0].clone(), "no loop invariant found".into());
        for e in exits {
            out.extend(e);
        }
    }
    pub fn merge(&mut self, v: Vec<State<'tcx>>) -> Vec<State<'tcx>> {
        let mut out: Vec<State> = vec![];
        let many = v.len() > 1;
        for mut s in v {
            if many {
                let (pc, variants) = (s.pc.clone(), s.variants.clone());
                let i = Info { pc: &pc, variants: &variants };
                for (_, c) in s.mem.iter_mut() {
                    if matches!(c.v, V::Seq(_) | V::Cont { .. } | V::Agg(..)) {
                        c.v = self.join_all(&i, &c.v);
                    }
                }
                s.trace = self.join_trace(&i, &s.trace);
            }
            let mut found = false;
            for o in out.iter_mut() {
                // keep only the common path condition
                let common: Vec<Form> = o.pc.iter().filter(|f| s.pc.contains(f)).cloned().collect();
                let mut m = o.clone();
                m.pc = common;
                m.variants.retain(|k, x| s.variants.get(k) == Some(x));
                if let Ok(true) = self.state_eq(&m, &s) {
                    *o = m;
                    found = true;
                    break;
                }
                // the other way round: what this path computes also holds where the other one leads
                let n = State { pc: m.pc, variants: m.variants, ..s.clone() };
                if let Ok(true) = self.state_eq(&n, o) {
                    *o = n;
                    found = true;
                    break;
                }
            }
            if !found {
                out.push(s);
            }
        }
        out
    }
    /// calls before a loop that are its first iteration
    fn join_trace(&mut self, i: &Info, t: &[TItem<'tcx>]) -> Vec<TItem<'tcx>> {
        let mut t = t.to_vec();
        let mut n = 1;
        while n < t.len() {
            if let TItem::Loop { count, var, body } = t[n].clone() {
                if n >= body.len() {
                    let prev: Vec<_> = body.iter().map(|b| b.subst(&Sub { s: var, l: &Lin::k(-1) })).collect();
                    let same = prev.iter().zip(&t[n - body.len()..n]).all(|(x, y)| matches!(self.titem_eq(i, x, y), Ok(true)));
                    if same {
                        let v = self.sym();
                        let body: Vec<_> = body.iter().map(|b| b.subst(&Sub { s: var, l: &Lin::sym(v).addk(-1) })).collect();
                        let k = body.len();
                        t.splice(n - k..=n, [TItem::Loop { count: count.addk(1), var: v, body }]);
                        n = (n - k).max(1);
                        continue;
                    }
                }
            }
            n += 1;
        }
        t
    }
    fn summarise(&mut self, s0: &State<'tcx>, s1: &State<'tcx>, s2: &State<'tcx>, stop: &LoopStop) -> Result<Vec<State<'tcx>>, String> {
        let i = self.sym();
        let (s0, s1, s2) = (self.tidy_state(s0), self.tidy_state(s1), self.tidy_state(s2));
        let g = self.au_state(&s0, &s1, &s2, i).ok_or("states do not follow a pattern")?;
        // path condition gained per iteration
        let c0: Vec<Form> = s1.pc[s0.pc.len().min(s1.pc.len())..].to_vec();
        let c1: Vec<Form> = s2.pc[s1.pc.len().min(s2.pc.len())..].to_vec();
        let mut c: Vec<Form> = vec![];
        if c0.len() == c1.len() {
            for (a, b) in c0.iter().zip(&c1) {
                if let Some(f) = self.au2_form(a, b, i) {
                    c.push(f);
                }
            }
        }
        self.verify_loop(&s0, &g, &c, i, stop)
    }
    /// the invariant `g`, with the iteration number `i` and what the path conditions of earlier iterations say
    pub fn verify_loop(&mut self, s0: &State<'tcx>, g: &State<'tcx>, c: &[Form], i: u32, stop: &LoopStop) -> Result<Vec<State<'tcx>>, String> {
        let il = Lin::sym(i);
        let mut gi = g.clone();
        gi.pc = s0.pc.clone();
        let zero = Lin::k(0);
        let prev = il.addk(-1);
        let mut hist = Form::True;
        for f in c {
            hist = Form::and(hist, Form::and(f.subst(&Sub { s: i, l: &zero }), f.subst(&Sub { s: i, l: &prev })));
        }
        gi.pc.push(Form::or(Form::eq(&il, &zero), hist));
        // initialisation: G(0) == S0
        self.o("loop-init");
        let g0 = self.sub_state(g, i, &zero);
        match self.state_eq(&g0, s0) {
            Ok(true) => {}
            Ok(false) => return Err("invariant does not hold initially".into()),
            Err(_) => return Err("initialisation undecided".into()),
        }
        // preservation
        let u0 = self.unds.len();
        let (backs, exits) = self.explore(gi.clone(), Some(stop));
        if self.unds.len() > u0 {
            return Err(format!("body undecided: {}", self.unds.last().unwrap()));
        }
        let backs = self.merge(backs);
        if backs.len() > 1 {
            return Err("several continuations".into());
        }
        self.o("loop-preserve");
        let next = self.sub_state(g, i, &il.addk(1));
        for b in &backs {
            match self.state_eq(&next, b) {
                Ok(true) => {}
                Ok(false) => return Err("invariant not preserved".into()),
                Err(Stop::Und(m)) => return Err(format!("preservation undecided: {m}")),
                Err(_) => return Err("preservation undecided".into()),
            }
            // the assumed history follows from the path actually taken
            for f in c {
                if !self.solver.prove(&b.pc, f) {
                    return Err(format!("history {f:?} not established"));
                }
            }
        }
        // termination: a conjunct bounds the iteration number
        self.o("termination");
        let bounded = c.iter().any(|f| {
            fn bound(f: &Form, i: u32) -> bool {
                match f {
                    Form::Le0(l) => l.t.get(&Atom::Sym(i)).map_or(false, |k| *k > 0) && l.t.keys().all(|a| match a {
                        Atom::Len(t, _) | Atom::IntOf(t) => !format!("{t:?}").contains(&format!("${i}")),
                        Atom::Perm(_, l) => !format!("{l:?}").contains(&format!("${i}")),
                        _ => true,
                    }),
                    Form::And(v) => v.iter().any(|f| bound(f, i)),
                    _ => false,
                }
            }
            bound(f, i)
        });
        if !bounded && !backs.is_empty() {
            return Err("no bound on the number of iterations".into());
        }
        Ok(exits.into_iter().map(|e| self.eliminate(e, i)).collect())
    }
    /// where the path fixes the number of iterations, say so in the state
    fn eliminate(&mut self, s: State<'tcx>, i: u32) -> State<'tcx> {
        fn cands(f: &Form, i: u32, out: &mut Vec<Lin>) {
            match f {
                Form::Le0(l) | Form::Eq0(l) => {
                    if let Some(k) = l.t.get(&Atom::Sym(i)) {
                        if *k == 1 || *k == -1 {
                            let e = l.sub(&Lin::sym(i).scale(*k)).scale(-*k);
                            let clean = e.t.keys().all(|a| match a {
                                Atom::Sym(j) => *j != i,
                                a => !format!("{a:?}").contains(&format!("${i}")),
                            });
                            if clean && !out.contains(&e) {
                                out.push(e);
                            }
                        }
                    }
                }
                Form::Not(f) => cands(f, i, out),
                Form::And(v) | Form::Or(v) => v.iter().for_each(|f| cands(f, i, out)),
                _ => {}
            }
        }
        let mut c = vec![];
        for f in s.pc.iter().rev() {
            cands(f, i, &mut c);
        }
        for e in c {
            if self.solver.prove(&s.pc, &Form::eq(&Lin::sym(i), &e)) {
                let mut o = self.sub_state(&s, i, &e);
                let u = Sub { s: i, l: &e };
                o.pc = o.pc.iter().map(|f| f.subst(&u)).filter(|f| *f != Form::True).collect();
                o.variants = o.variants.iter().map(|(t, v)| (t.subst(&u), *v)).collect();
                return o;
            }
        }
        s
    }
    fn tidy_v(&mut self, i: &Info, v: &V<'tcx>) -> V<'tcx> {
        match v {
            V::Agg(t, n, f) => V::Agg(*t, *n, Rc::new(f.iter().map(|x| self.tidy_v(i, x)).collect())),
            V::Box(b) => V::Box(Rc::new(self.tidy_v(i, b))),
            V::Seq(s) => {
                let mut s = s.to_vec();
                self.tidy(i, &mut s);
                V::Seq(Rc::new(s))
            }
            V::Cont { kind, built, segs } => {
                let mut s = segs.to_vec();
                self.tidy(i, &mut s);
                V::Cont { kind: *kind, built: *built, segs: Rc::new(s) }
            }
            _ => v.clone(),
        }
    }
    fn tidy_state(&mut self, s: &State<'tcx>) -> State<'tcx> {
        let mut o = s.clone();
        let i = Info { pc: &s.pc, variants: &s.variants };
        for (_, c) in o.mem.iter_mut() {
            c.v = self.tidy_v(&i, &c.v);
        }
        o
    }
    fn sub_state(&self, s: &State<'tcx>, i: u32, l: &Lin) -> State<'tcx> {
        let u = Sub { s: i, l };
        let mut o = s.clone();
        for (_, c) in o.mem.iter_mut() {
            c.v = c.v.subst(&u);
        }
        o.trace = o.trace.iter().map(|t| t.subst(&u)).collect();
        for f in o.frames.iter_mut() {
            if let FK::Drop { items, .. } = &mut f.k {
                for it in items.iter_mut() {
                    it.0 = it.0.subst(&u);
                }
            }
            if let Some(d) = &mut f.ret.dest {
                d.0 = d.0.subst(&u);
            }
        }
        o
    }
    pub fn titem_eq(&mut self, i: &Info, a: &TItem<'tcx>, b: &TItem<'tcx>) -> R<bool> {
        match (a, b) {
            (TItem::Ev { f, arg, out }, TItem::Ev { f: g, arg: h, out: o2 }) => {
                Ok(out == o2 && self.term_eq(i, f, g) && self.val_eq(i, arg, h, false)?)
            }
            (TItem::Loop { count, var, body }, TItem::Loop { count: c2, var: v2, body: b2 }) => {
                if !self.lin_eq(i, count, c2) || body.len() != b2.len() {
                    return Ok(false);
                }
                let j = self.sym();
                let l = Lin::sym(j);
                let mut pc = i.pc.to_vec();
                pc.push(Form::lt(&l, count));
                let i2 = Info { pc: &pc, variants: i.variants };
                for (x, y) in body.iter().zip(b2) {
                    let (x, y) = (x.subst(&Sub { s: *var, l: &l }), y.subst(&Sub { s: *v2, l: &l }));
                    if !self.titem_eq(&i2, &x, &y)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    /// normal form of a trace for comparison: unit loops are flattened, adjacent loops merged is left to the caller
    pub fn trace_eq(&mut self, i: &Info, a: &[TItem<'tcx>], b: &[TItem<'tcx>]) -> R<bool> {
        match self.trace_match(i, a, b)? {
            crate::spec::TM::Full => Ok(true),
            _ => Ok(false),
        }
    }
    pub fn state_eq(&mut self, a: &State<'tcx>, b: &State<'tcx>) -> R<bool> {
        if a.frames.len() != b.frames.len() || a.unwinding != b.unwinding {
            return Ok(false);
        }
        let i = Info { pc: &b.pc, variants: &b.variants };
        for (f, g) in a.frames.iter().zip(&b.frames) {
            if f.uid != g.uid {
                return Ok(false);
            }
            match (&f.k, &g.k) {
                (FK::Fn { bb, stmt, .. }, FK::Fn { bb: b2, stmt: s2, .. }) => {
                    if bb != b2 || stmt != s2 {
                        return Ok(false);
                    }
                }
                (FK::Drop { items, then_unwind }, FK::Drop { items: i2, then_unwind: t2 }) => {
                    if then_unwind != t2 || items.len() != i2.len() {
                        return Ok(false);
                    }
                    for (x, y) in items.iter().zip(i2) {
                        if !self.val_eq(&i, &V::Ptr(x.0.clone()), &V::Ptr(y.0.clone()), false)? {
                            return Ok(false);
                        }
                    }
                }
                (FK::Once { .. }, FK::Once { .. }) => {}
                _ => return Ok(false),
            }
        }
        let keys: BTreeSet<AllocId> = a.mem.keys().chain(b.mem.keys()).copied().collect();
        for k in keys {
            match (a.mem.get(&k), b.mem.get(&k)) {
                (Some(x), Some(y)) => {
                    if !self.val_eq(&i, &x.v, &y.v, true)? {
                        if std::env::var("DV_LOOP").is_ok() {
                            eprintln!("  differs at {k:?}: {:?} vs {:?}", x.v, y.v);
                        }
                        return Ok(false);
                    }
                }
                (Some(x), None) | (None, Some(x)) => {
                    if !matches!(x.v, V::Any) && (self.has_live(&x.v) || !matches!(x.v, V::Uninit | V::Moved)) {
                        let l = self.has_live(&x.v);
                        // a dead scalar on one side only
                        if l || a.mem.get(&k).is_some() {
                            return Ok(false);
                        }
                    }
                }
                _ => {}
            }
        }
        let t = self.trace_eq(&i, &a.trace, &b.trace)?;
        if !t && std::env::var("DV_LOOP").is_ok() {
            eprintln!("  traces differ: {:?} vs {:?}", a.trace, b.trace);
        }
        Ok(t)
    }

    // ---- anti-unification -------------------------------------------------------
    fn au_lin(&self, a: &Lin, b: &Lin, c: &Lin, i: u32) -> Option<Lin> {
        let d = b.sub(a);
        if c.sub(b) == d {
            if let Some(d) = d.is_const() {
                return Some(a.add(&Lin::sym(i).scale(d)));
            }
        }
        // sizes of values that follow a pattern themselves
        let (xs, ys, zs) = (Self::own_atoms(a, b), Self::own_atoms(b, a), Self::own_atoms(c, a));
        if xs.is_empty() || xs.len() != ys.len() || xs.len() != zs.len() {
            return None;
        }
        let (mut r, mut r1, mut r2) = (a.clone(), b.clone(), c.clone());
        let mut add = Lin::k(0);
        for ((x, y), z) in xs.iter().zip(&ys).zip(&zs) {
            if x.1 != y.1 || y.1 != z.1 {
                return None;
            }
            let at = match (&x.0, &y.0, &z.0) {
                (Atom::Len(t, k), Atom::Len(u, k2), Atom::Len(v, k3)) if k == k2 && k == k3 => Atom::Len(self.au_t(t, u, v, i)?, k.clone()),
                (Atom::IntOf(t), Atom::IntOf(u), Atom::IntOf(v)) => Atom::IntOf(self.au_t(t, u, v, i)?),
                (Atom::Perm(p, t), Atom::Perm(q, u), Atom::Perm(r, v)) if p == q && q == r => Atom::Perm(*p, Box::new(self.au_lin(t, u, v, i)?)),
                _ => return None,
            };
            add = add.add(&Lin::atom(at).scale(x.1));
            r.t.remove(&x.0);
            r1.t.remove(&y.0);
            r2.t.remove(&z.0);
        }
        let d = r1.sub(&r);
        if r2.sub(&r1) != d {
            return None;
        }
        Some(r.add(&Lin::sym(i).scale(d.is_const()?)).add(&add))
    }
    /// atoms of `a` that are not atoms of `b` with the same coefficient
    fn own_atoms(a: &Lin, b: &Lin) -> Vec<(Atom, i128)> {
        a.t.iter().filter(|(x, k)| b.t.get(x) != Some(k)).map(|(x, k)| (x.clone(), *k)).collect()
    }
    fn au_t(&self, a: &T, b: &T, c: &T, i: u32) -> Option<T> {
        if a == b && b == c {
            return Some(a.clone());
        }
        Some(match (a, b, c) {
            (T::Field(x, v, n), T::Field(y, v2, n2), T::Field(z, v3, n3)) if v == v2 && v == v3 && n == n2 && n == n3 => {
                T::Field(Rc::new(self.au_t(x, y, z, i)?), *v, *n)
            }
            (T::Content(x), T::Content(y), T::Content(z)) => T::Content(Rc::new(self.au_t(x, y, z, i)?)),
            (T::Elem(x, k, l), T::Elem(y, k2, l2), T::Elem(z, k3, l3)) if k == k2 && k == k3 => {
                T::Elem(Rc::new(self.au_t(x, y, z, i)?), k.clone(), Rc::new(self.au_lin(l, l2, l3, i)?))
            }
            (T::Ret(f, x), T::Ret(g, y), T::Ret(h, z)) => T::Ret(Rc::new(self.au_t(f, g, h, i)?), Rc::new(self.au_t(x, y, z, i)?)),
            (T::ErrRet(f, x), T::ErrRet(g, y), T::ErrRet(h, z)) => {
                T::ErrRet(Rc::new(self.au_t(f, g, h, i)?), Rc::new(self.au_t(x, y, z, i)?))
            }
            _ => return None,
        })
    }
    fn au2_lin(&self, a: &Lin, b: &Lin, i: u32) -> Option<Lin> {
        if let Some(d) = b.sub(a).is_const() {
            return Some(a.add(&Lin::sym(i).scale(d)));
        }
        let c = self.continue_lin(a, b)?;
        self.au_lin(a, b, &c, i)
    }
    fn au2_form(&self, a: &Form, b: &Form, i: u32) -> Option<Form> {
        if a == b {
            return Some(a.clone());
        }
        match (a, b) {
            (Form::Le0(x), Form::Le0(y)) => Some(Form::Le0(self.au2_lin(x, y, i)?)),
            (Form::Eq0(x), Form::Eq0(y)) => Some(Form::Eq0(self.au2_lin(x, y, i)?)),
            (Form::Not(x), Form::Not(y)) => Some(Form::Not(Box::new(self.au2_form(x, y, i)?))),
            (Form::And(x), Form::And(y)) if x.len() == y.len() => {
                Some(Form::And(x.iter().zip(y).map(|(p, q)| self.au2_form(p, q, i)).collect::<Option<_>>()?))
            }
            (Form::Or(x), Form::Or(y)) if x.len() == y.len() => {
                Some(Form::Or(x.iter().zip(y).map(|(p, q)| self.au2_form(p, q, i)).collect::<Option<_>>()?))
            }
            _ => None,
        }
    }
    /// two samples g(0), g(1): extend linearly
    fn au2_v(&mut self, a: &V<'tcx>, b: &V<'tcx>, i: u32) -> Option<V<'tcx>> {
        // third sample by linear continuation of every integer: reuse the 3-point version on a symbolic third point
        let c = self.continue_v(a, b)?;
        self.au_v(a, b, &c, i)
    }
    fn cont_lin(&self, a: &Lin, b: &Lin) -> Lin {
        self.continue_lin(a, b).unwrap_or_else(|| b.add(b).sub(a))
    }
    fn continue_lin(&self, a: &Lin, b: &Lin) -> Option<Lin> {
        let (xs, ys) = (Self::own_atoms(a, b), Self::own_atoms(b, a));
        if xs.len() != ys.len() {
            return Some(b.add(b).sub(a));
        }
        let (mut r, mut r1) = (a.clone(), b.clone());
        let mut add = Lin::k(0);
        for (x, y) in xs.iter().zip(&ys) {
            if x.1 != y.1 {
                return Some(b.add(b).sub(a));
            }
            let at = match (&x.0, &y.0) {
                (Atom::Len(t, k), Atom::Len(u, k2)) if k == k2 => Atom::Len(self.continue_t(t, u)?, k.clone()),
                (Atom::IntOf(t), Atom::IntOf(u)) => Atom::IntOf(self.continue_t(t, u)?),
                (Atom::Perm(p, t), Atom::Perm(q, u)) if p == q => Atom::Perm(*p, Box::new(self.continue_lin(t, u)?)),
                _ => return Some(b.add(b).sub(a)),
            };
            add = add.add(&Lin::atom(at).scale(x.1));
            r.t.remove(&x.0);
            r1.t.remove(&y.0);
        }
        Some(r1.add(&r1).sub(&r).add(&add))
    }
    fn continue_t(&self, a: &T, b: &T) -> Option<T> {
        if a == b {
            return Some(a.clone());
        }
        Some(match (a, b) {
            (T::Field(x, v, n), T::Field(y, v2, n2)) if v == v2 && n == n2 => T::Field(Rc::new(self.continue_t(x, y)?), *v, *n),
            (T::Content(x), T::Content(y)) => T::Content(Rc::new(self.continue_t(x, y)?)),
            (T::Elem(x, k, l), T::Elem(y, k2, l2)) if k == k2 => {
                T::Elem(Rc::new(self.continue_t(x, y)?), k.clone(), Rc::new(self.cont_lin(l, l2)))
            }
            (T::Ret(f, x), T::Ret(g, y)) => T::Ret(Rc::new(self.continue_t(f, g)?), Rc::new(self.continue_t(x, y)?)),
            (T::ErrRet(f, x), T::ErrRet(g, y)) => T::ErrRet(Rc::new(self.continue_t(f, g)?), Rc::new(self.continue_t(x, y)?)),
            _ => return None,
        })
    }
    fn continue_segs(&mut self, a: &Segs<'tcx>, b: &Segs<'tcx>) -> Option<Vec<Seg<'tcx>>> {
        if a.len() != b.len() {
            return None;
        }
        let mut o = vec![];
        for (x, y) in a.iter().zip(b) {
            let y2 = y.val.subst(&Sub { s: y.var, l: &Lin::sym(x.var) });
            o.push(Seg { len: self.cont_lin(&x.len, &y.len), var: x.var, val: self.continue_v(&x.val, &y2)? });
        }
        Some(o)
    }
    fn continue_v(&mut self, a: &V<'tcx>, b: &V<'tcx>) -> Option<V<'tcx>> {
        Some(match (a, b) {
            (V::Uninit, V::Uninit) | (V::Moved, V::Moved) | (V::Any, V::Any) => a.clone(),
            (V::Int(x), V::Int(y)) => V::Int(self.cont_lin(x, y)),
            (V::Bool(x), V::Bool(y)) if x == y => a.clone(),
            (V::Res(x, t), V::Res(y, u)) if t == u => V::Res(self.continue_t(x, y)?, *t),
            (V::Agg(t, v, f), V::Agg(_, w, g)) if v == w && f.len() == g.len() => {
                let mut o = vec![];
                for (x, y) in f.iter().zip(g.iter()) {
                    o.push(self.continue_v(x, y)?);
                }
                V::Agg(*t, *v, Rc::new(o))
            }
            (V::Box(x), V::Box(y)) => V::Box(Rc::new(self.continue_v(x, y)?)),
            (V::Seq(x), V::Seq(y)) => V::Seq(Rc::new(self.continue_segs(x, y)?)),
            (V::Cont { kind, built, segs }, V::Cont { kind: k, built: b2, segs: s2 }) if k == kind && built == b2 => {
                V::Cont { kind: *kind, built: *built, segs: Rc::new(self.continue_segs(segs, s2)?) }
            }
            (V::Mapped { src, k, segs, ty, prev: p }, V::Mapped { src: s2, k: k2, segs: g2, prev: q, .. }) if k == k2 => {
                let prev = match (p, q) {
                    (None, None) => None,
                    (Some(p), Some(q)) => Some(Rc::new(self.continue_v(p, q)?)),
                    _ => return None,
                };
                V::Mapped { src: self.continue_t(src, s2)?, k: k.clone(), segs: Rc::new(self.continue_segs(segs, g2)?), ty: *ty, prev }
            }
            _ => return None,
        })
    }
    fn au_seg(&mut self, a: &Seg<'tcx>, b: &Seg<'tcx>, c: &Seg<'tcx>, i: u32) -> Option<Seg<'tcx>> {
        let len = self.au_lin(&a.len, &b.len, &c.len, i)?;
        let j = self.sym();
        let l = Lin::sym(j);
        let f = |s: &Seg<'tcx>| s.val.subst(&Sub { s: s.var, l: &l });
        let val = self.au_v(&f(a), &f(b), &f(c), i)?;
        Some(Seg { len, var: j, val })
    }
    fn au_segs(&mut self, a: &Segs<'tcx>, b: &Segs<'tcx>, c: &Segs<'tcx>, i: u32) -> Option<Vec<Seg<'tcx>>> {
        if a.len() == b.len() && b.len() == c.len() {
            let mut o = vec![];
            let mut ok = true;
            for ((x, y), z) in a.iter().zip(b).zip(c) {
                match self.au_seg(x, y, z, i) {
                    Some(s) => o.push(s),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Some(o);
            }
        }
        // one element is added per iteration, at position p
        let unit = |e: &mut Self, v: &Segs<'tcx>, p: usize| -> Vec<Seg<'tcx>> {
            let mut v = v.to_vec();
            if p < v.len() && v[p].len.is_const() == Some(2) {
                let s = v[p].clone();
                let x = e.at(&s, &Lin::k(0));
                let y = e.at(&s, &Lin::k(1));
                let (x, y) = (e.one(x), e.one(y));
                v.splice(p..p + 1, [x, y]);
            }
            v
        };
        for p in 0..=a.len() {
            let c2 = unit(self, c, p);
            if b.len() != a.len() + 1 || c2.len() != a.len() + 2 {
                continue;
            }
            let one = Some(1);
            if b[p].len.is_const() != one || c2[p].len.is_const() != one || c2[p + 1].len.is_const() != one {
                continue;
            }
            let mut o = vec![];
            let mut ok = true;
            for k in 0..a.len() {
                let (x, y, z) = if k < p { (&a[k], &b[k], &c2[k]) } else { (&a[k], &b[k + 1], &c2[k + 2]) };
                match self.au_seg(x, y, z, i) {
                    Some(s) => o.push(s),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            let b0 = self.at(&b[p], &Lin::k(0));
            let (e0, e1) = (self.at(&c2[p], &Lin::k(0)), self.at(&c2[p + 1], &Lin::k(0)));
            let j = self.sym();
            let empty = BTreeMap::new();
            let inf = Info { pc: &[], variants: &empty };
            if let Ok(true) = self.val_eq(&inf, &b0, &e0, true) {
                if let Some(v) = self.au2_v(&e0, &e1, j) {
                    o.insert(p, Seg { len: Lin::sym(i), var: j, val: v });
                    return Some(o);
                }
            }
            if let Ok(true) = self.val_eq(&inf, &b0, &e1, true) {
                if let Some(v) = self.au2_v(&e1, &e0, j) {
                    let j2 = self.sym();
                    let idx = Lin::sym(i).addk(-1).sub(&Lin::sym(j2));
                    o.insert(p, Seg { len: Lin::sym(i), var: j2, val: v.subst(&Sub { s: j, l: &idx }) });
                    return Some(o);
                }
            }
        }
        None
    }
    fn au_form(&self, a: &Form, b: &Form, c: &Form, i: u32) -> Option<Form> {
        if a == b && b == c {
            return Some(a.clone());
        }
        match (a, b, c) {
            (Form::Le0(x), Form::Le0(y), Form::Le0(z)) => Some(Form::Le0(self.au_lin(x, y, z, i)?)),
            (Form::Eq0(x), Form::Eq0(y), Form::Eq0(z)) => Some(Form::Eq0(self.au_lin(x, y, z, i)?)),
            (Form::Not(x), Form::Not(y), Form::Not(z)) => Some(Form::Not(Box::new(self.au_form(x, y, z, i)?))),
            _ => None,
        }
    }
    fn au_ptr(&self, a: &Ptr, b: &Ptr, c: &Ptr, i: u32) -> Option<Ptr> {
        if a.a != b.a || b.a != c.a || a.path.len() != b.path.len() || b.path.len() != c.path.len() {
            return None;
        }
        let mut path = vec![];
        for ((x, y), z) in a.path.iter().zip(&b.path).zip(&c.path) {
            path.push(match (x, y, z) {
                (P::Ix(l), P::Ix(m), P::Ix(n)) => P::Ix(self.au_lin(l, m, n, i)?),
                (P::Win(l, p), P::Win(m, q), P::Win(n, r)) => P::Win(self.au_lin(l, m, n, i)?, self.au_lin(p, q, r, i)?),
                _ if x == y && y == z => x.clone(),
                _ => return None,
            });
        }
        let meta = match (&a.meta, &b.meta, &c.meta) {
            (None, None, None) => None,
            (Some(x), Some(y), Some(z)) => Some(self.au_lin(x, y, z, i)?),
            _ => return None,
        };
        Some(Ptr { a: a.a, path, meta })
    }
    fn au_v(&mut self, a: &V<'tcx>, b: &V<'tcx>, c: &V<'tcx>, i: u32) -> Option<V<'tcx>> {
        let r = (|| {
            Some(match (a, b, c) {
                (V::Uninit, V::Uninit, V::Uninit) => V::Uninit,
                (V::Uninit | V::Moved, V::Uninit | V::Moved, V::Uninit | V::Moved) => V::Moved,
                (V::Int(x), V::Int(y), V::Int(z)) => V::Int(self.au_lin(x, y, z, i)?),
                (V::Bool(x), V::Bool(y), V::Bool(z)) => V::Bool(self.au_form(x, y, z, i)?),
                (V::Res(x, t), V::Res(y, u), V::Res(z, w)) if t == u && u == w => V::Res(self.au_t(x, y, z, i)?, *t),
                (V::Agg(t, v, f), V::Agg(_, v2, g), V::Agg(_, v3, h)) if v == v2 && v == v3 && f.len() == g.len() && g.len() == h.len() => {
                    let mut o = vec![];
                    for ((x, y), z) in f.iter().zip(g.iter()).zip(h.iter()) {
                        o.push(self.au_v(x, y, z, i)?);
                    }
                    V::Agg(*t, *v, Rc::new(o))
                }
                (V::Box(x), V::Box(y), V::Box(z)) => V::Box(Rc::new(self.au_v(x, y, z, i)?)),
                (V::Ptr(x), V::Ptr(y), V::Ptr(z)) => V::Ptr(self.au_ptr(x, y, z, i)?),
                (V::Seq(x), V::Seq(y), V::Seq(z)) => V::Seq(Rc::new(self.au_segs(x, y, z, i)?)),
                (V::Cont { kind, built, segs }, V::Cont { kind: k2, built: b2, segs: s2 }, V::Cont { kind: k3, built: b3, segs: s3 })
                    if kind == k2 && kind == k3 && built == b2 && built == b3 =>
                {
                    V::Cont { kind: *kind, built: *built, segs: Rc::new(self.au_segs(segs, s2, s3, i)?) }
                }
                (
                    V::Mapped { src, k, segs, ty, prev: p },
                    V::Mapped { src: y, k: k2, segs: g, prev: q, .. },
                    V::Mapped { src: z, k: k3, segs: h, prev: r, .. },
                ) if k == k2 && k == k3 => {
                    let prev = match (p, q, r) {
                        (None, None, None) => None,
                        (Some(p), Some(q), Some(r)) => Some(Rc::new(self.au_v(p, q, r, i)?)),
                        _ => return None,
                    };
                    V::Mapped { src: self.au_t(src, y, z, i)?, k: k.clone(), segs: Rc::new(self.au_segs(segs, g, h, i)?), ty: *ty, prev }
                }
                _ => return None,
            })
        })();
        if r.is_some() {
            return r;
        }
        // dead or irrelevant data
        if !self.has_live(a) && !self.has_live(b) && !self.has_live(c) {
            return Some(V::Any);
        }
        None
    }
    fn au_state(&mut self, s0: &State<'tcx>, s1: &State<'tcx>, s2: &State<'tcx>, i: u32) -> Option<State<'tcx>> {
        let mut g = s0.clone();
        if s1.frames.len() != s0.frames.len() || s2.frames.len() != s0.frames.len() {
            return None;
        }
        let keys: BTreeSet<AllocId> = s0.mem.keys().chain(s1.mem.keys()).chain(s2.mem.keys()).copied().collect();
        for k in keys {
            let (x, y, z) = (s0.mem.get(&k), s1.mem.get(&k), s2.mem.get(&k));
            match (x, y, z) {
                (Some(x), Some(y), Some(z)) => {
                    let v = match self.au_v(&x.v, &y.v, &z.v, i) {
                        Some(v) => v,
                        None => {
                            if std::env::var("DV_LOOP").is_ok() {
                                eprintln!("  no pattern at {k:?}: {:?} | {:?} | {:?}", x.v, y.v, z.v);
                            }
                            return None;
                        }
                    };
                    g.mem.insert(k, Cell { v, ty: x.ty });
                }
                _ => {
                    let mut ty = None;
                    for c in [x, y, z].into_iter().flatten() {
                        if self.has_live(&c.v) {
                            return None;
                        }
                        ty = Some(c.ty);
                    }
                    g.mem.insert(k, Cell { v: V::Any, ty: ty.unwrap() });
                }
            }
        }
        // trace
        let (t0, t1, t2) = (s0.trace.len(), s1.trace.len(), s2.trace.len());
        if t1 < t0 || t2 < t1 || t1 - t0 != t2 - t1 {
            return None;
        }
        if t1 > t0 {
            let k = self.sym();
            let mut body = vec![];
            for n in 0..t1 - t0 {
                body.push(self.au2_item(&s1.trace[t0 + n], &s2.trace[t1 + n], k)?);
            }
            g.trace.push(TItem::Loop { count: Lin::sym(i), var: k, body });
        }
        g.variants.retain(|t, v| s1.variants.get(t) == Some(v));
        Some(g)
    }
    fn au2_item(&mut self, a: &TItem<'tcx>, b: &TItem<'tcx>, i: u32) -> Option<TItem<'tcx>> {
        match (a, b) {
            (TItem::Ev { f, arg, out }, TItem::Ev { f: g, arg: h, out: o }) if f == g && out == o => {
                Some(TItem::Ev { f: f.clone(), arg: self.au2_v(arg, h, i)?, out: *out })
            }
            (TItem::Loop { count, var, body }, TItem::Loop { count: c2, var: v2, body: b2 }) if body.len() == b2.len() => {
                let count = self.au2_lin(count, c2, i)?;
                let mut o = vec![];
                for (x, y) in body.iter().zip(b2) {
                    let y = y.subst(&Sub { s: *v2, l: &Lin::sym(*var) });
                    o.push(self.au2_item(x, &y, i)?);
                }
                Some(TItem::Loop { count, var: *var, body: o })
            }
            _ => None,
        }
    }
}
