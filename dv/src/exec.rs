//! Symbolic execution of MIR.
use crate::eng::*;
use crate::term::*;
use crate::val::*;
use rustc_middle::mir::{self, BasicBlock, Operand, Rvalue, StatementKind, TerminatorKind, UnwindAction};
use rustc_middle::ty::{self, Instance, Ty};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn info<'a>(st: &'a State<'_>) -> Info<'a> {
    Info { pc: &st.pc, variants: &st.variants }
}

/// run `f` with the path facts of `st`, without borrowing the whole state
macro_rules! inf {
    ($st:expr) => {
        &crate::eng::Info { pc: &$st.pc, variants: &$st.variants }
    };
}

impl<'tcx> Eng<'tcx> {
    pub fn body(&mut self, inst: Instance<'tcx>) -> R<Rc<BodyInfo<'tcx>>> {
        if let Some(b) = self.bodies.get(&inst) {
            return Ok(b.clone());
        }
        let d = inst.def_id();
        if !self.tcx.is_mir_available(d) {
            return und(format!("no MIR for {}", self.tcx.def_path_str(d)));
        }
        let b = self.tcx.instance_mir(inst.def).clone();
        let b = self.tcx.erase_and_anonymize_regions(b);
        let body = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            self.tcx,
            self.tenv,
            ty::EarlyBinder::bind(self.tcx, b),
        ) {
            Ok(b) => b,
            Err(_) => return und(format!("cannot instantiate MIR of {}", self.tcx.def_path_str(d))),
        };
        let mut loops: BTreeMap<BasicBlock, BTreeSet<BasicBlock>> = BTreeMap::new();
        let dom = body.basic_blocks.dominators();
        let preds = body.basic_blocks.predecessors();
        for (u, data) in body.basic_blocks.iter_enumerated() {
            if preds[u].is_empty() && u != mir::START_BLOCK {
                continue;
            }
            for h in data.terminator().successors() {
                if dom.dominates(h, u) {
                    let set = loops.entry(h).or_default();
                    set.insert(h);
                    let mut stack = vec![u];
                    while let Some(x) = stack.pop() {
                        if set.insert(x) {
                            stack.extend(preds[x].iter().copied());
                        }
                    }
                }
            }
        }
        let name = self.tcx.def_path_str(d);
        let mut storage = BTreeSet::new();
        for b in body.basic_blocks.iter() {
            for s in &b.statements {
                if let StatementKind::StorageLive(l) = s.kind {
                    storage.insert(l.as_u32());
                }
            }
        }
        let r = Rc::new(BodyInfo { body, name, inst, loops, storage });
        self.bodies.insert(inst, r.clone());
        Ok(r)
    }

    // ---- places -----------------------------------------------------------
    pub fn top_fn<'a>(&self, st: &'a State<'tcx>) -> (u32, &'a Rc<BodyInfo<'tcx>>) {
        match st.frames.last() {
            Some(Frame { uid, k: FK::Fn { info, .. }, .. }) => (*uid, info),
            _ => panic!("not a function frame"),
        }
    }
    /// make a pointer's path agree with the type it is dereferenced at
    pub fn reconcile(&mut self, st: &State<'tcx>, mut p: Ptr, want: Ty<'tcx>) -> R<Ptr> {
        if matches!(p.path.last(), Some(P::Zst | P::BoxPtr)) {
            return Ok(p);
        }
        for _ in 0..4 {
            let have = self.path_ty(st, &p)?;
            let (h, w) = (self.peel(have), self.peel(want));
            if let ty::Slice(e) = w.kind() {
                let Some(P::Ix(_)) = p.path.last() else {
                    if let ty::Array(..) = h.kind() {
                        p.path.push(P::Ix(Lin::k(0)));
                        continue;
                    }
                    return und("slice pointer to a non-array");
                };
                if !self.same_layout(have, *e) {
                    return und(format!("slice of {e:?} over elements {have:?}"));
                }
                return Ok(p);
            }
            if self.same_layout(h, w) {
                return Ok(p);
            }
            match (h.kind(), w.kind()) {
                (ty::Array(..), _) => p.path.push(P::Ix(Lin::k(0))),
                (_, ty::Array(e, n)) if self.same_layout(h, *e) => {
                    let Some(P::Ix(o)) = p.path.last().cloned() else { return und("array view of a single value") };
                    let len = self.const_len(*n)?;
                    // the whole array?
                    let mut parent = p.clone();
                    parent.path.pop();
                    let pt = self.path_ty(st, &parent)?;
                    let pt = self.peel(pt);
                    if o.is_zero() && matches!(pt.kind(), ty::Array(_, m) if m == n) {
                        return Ok(parent);
                    }
                    *p.path.last_mut().unwrap() = P::Win(o, len);
                    return Ok(p);
                }
                _ => return und(format!("memory of type {have:?} accessed as {want:?}")),
            }
        }
        und("pointer type")
    }
    pub fn place(&mut self, st: &mut State<'tcx>, pl: mir::Place<'tcx>) -> R<(Ptr, Ty<'tcx>)> {
        let (uid, bi) = self.top_fn(st);
        let bi = bi.clone();
        let mut p = Ptr { a: AllocId::Local(uid, pl.local.as_u32()), path: vec![], meta: None };
        let mut pty = mir::PlaceTy::from_ty(bi.body.local_decls[pl.local].ty);
        for e in pl.projection.iter() {
            let cur = pty.ty;
            match e {
                mir::ProjectionElem::Deref => {
                    let v = self.read(st, &p, cur, false)?;
                    let inner = match cur.builtin_deref(true) {
                        Some(t) => t,
                        None => return und(format!("deref of {cur:?}")),
                    };
                    match v {
                        V::Ptr(q) => p = self.reconcile(st, q, inner)?,
                        V::Box(_) => p.path.push(P::BoxD),
                        _ => return und(format!("dereference of an unknown pointer {v:?}: {cur:?}")),
                    }
                }
                mir::ProjectionElem::Field(f, fty) => {
                    let q = self.norm(cur)?;
                    match q.kind() {
                        ty::Adt(d, _) => match self.adt_kind(d.did()) {
                            AdtK::Ident => {
                                if matches!(fty.kind(), ty::Tuple(l) if l.is_empty()) && self.path(d.did()).ends_with("MaybeUninit") && f.as_u32() == 0 {
                                    p.path.push(P::Zst);
                                }
                            }
                            AdtK::PtrWrap => {
                                if f.as_u32() != 0 {
                                    p.path.push(P::Zst);
                                }
                            }
                            AdtK::Box => p.path.push(if f.as_u32() == 0 { P::BoxPtr } else { P::Zst }),
                            AdtK::Cont(_) => return und(format!("direct access to the fields of {q:?}")),
                            AdtK::Other => {
                                if d.is_union() {
                                    return und(format!("union {q:?}"));
                                }
                                let v = pty.variant_index.map(|v| v.as_u32()).unwrap_or(0);
                                p.path.push(P::F(v, f.as_u32()));
                            }
                        },
                        _ => p.path.push(P::F(0, f.as_u32())),
                    }
                }
                mir::ProjectionElem::Downcast(..) | mir::ProjectionElem::OpaqueCast(_) => {}
                mir::ProjectionElem::Index(l) => {
                    let lp = Ptr { a: AllocId::Local(uid, l.as_u32()), path: vec![], meta: None };
                    let usz = self.tcx.types.usize;
                    let V::Int(ix) = self.read(st, &lp, usz, false)? else { return und("index") };
                    self.index(&mut p, cur, ix)?;
                }
                mir::ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => {
                    let ix = if from_end {
                        let n = self.place_len(&p, cur)?;
                        n.addk(-(offset as i128))
                    } else {
                        Lin::k(offset as i128)
                    };
                    self.index(&mut p, cur, ix)?;
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.place_len(&p, cur)?;
                    let end = if from_end { n.addk(-(to as i128)) } else { Lin::k(to as i128) };
                    let len = end.addk(-(from as i128));
                    match self.peel(cur).kind() {
                        ty::Array(..) => p.path.push(P::Win(Lin::k(from as i128), len)),
                        _ => {
                            self.index(&mut p, cur, Lin::k(from as i128))?;
                            p.meta = Some(len);
                        }
                    }
                }
                _ => return und(format!("projection {e:?}")),
            }
            pty = pty.projection_ty(self.tcx, e);
            pty.ty = self.norm(pty.ty)?;
        }
        Ok((p, pty.ty))
    }
    fn place_len(&mut self, p: &Ptr, t: Ty<'tcx>) -> R<Lin> {
        match self.peel(t).kind() {
            ty::Array(_, n) => self.const_len(*n),
            _ => match &p.meta {
                Some(m) => Ok(m.clone()),
                None => und("length of unsized place"),
            },
        }
    }
    pub fn index(&mut self, p: &mut Ptr, t: Ty<'tcx>, ix: Lin) -> R<()> {
        match self.peel(t).kind() {
            ty::Array(..) => {
                if let Some(P::Win(s, _)) = p.path.last().cloned() {
                    *p.path.last_mut().unwrap() = P::Ix(s.add(&ix));
                } else {
                    p.path.push(P::Ix(ix));
                }
            }
            ty::Slice(_) => {
                let Some(P::Ix(o)) = p.path.last_mut() else { return und("slice place") };
                *o = o.add(&ix);
            }
            _ => return und("index into non-array"),
        }
        p.meta = None;
        Ok(())
    }

    // ---- memory -----------------------------------------------------------
    pub fn read(&mut self, st: &mut State<'tcx>, p: &Ptr, ty: Ty<'tcx>, _mv: bool) -> R<V<'tcx>> {
        match p.path.last() {
            Some(P::BoxPtr) => {
                let mut q = p.clone();
                *q.path.last_mut().unwrap() = P::BoxD;
                return Ok(V::Ptr(q));
            }
            Some(P::Zst) => return Ok(V::Agg(self.tcx.types.unit, 0, Rc::new(vec![]))),
            _ => {}
        }
        let State { mem, pc, variants, .. } = st;
        let i = &Info { pc, variants };
        let Some(c) = mem.get_mut(&p.a) else { return viol(Cat::Safety, "read of a dead memory location") };
        if let Some(P::Win(s, n)) = p.path.last() {
            let (v, vt) = self.nav(i, &mut c.v, c.ty, &p.path[..p.path.len() - 1])?;
            self.force_seq(i, v, vt)?;
            let V::Seq(segs) = v else { return und("window") };
            let segs = Rc::make_mut(segs);
            let x = self.split_at(i, segs, s)?;
            let y = self.split_at(i, segs, &s.add(n))?;
            let out: Vec<_> = segs[x..y].to_vec();
            let r = V::Seq(Rc::new(out));
            if !self.init(i, &r, ty) {
                return viol(Cat::Safety, format!("use of uninitialised or moved-out memory at type {ty:?}"));
            }
            if self.has_live(&r) {
                for g in &mut segs[x..y] {
                    g.val = V::Moved;
                }
            }
            return Ok(r);
        }
        let (v, _) = self.nav(i, &mut c.v, c.ty, &p.path)?;
        if matches!(v, V::Uninit | V::Moved) {
            if let Ok(z) = self.zst(ty) {
                return Ok(z);
            }
            if self.empty_array(i, ty) {
                return Ok(V::Seq(Rc::new(vec![])));
            }
        }
        if !self.init(i, v, ty) {
            return viol(Cat::Safety, format!("use of uninitialised or moved-out memory at type {ty:?}: {v:?}"));
        }
        let r = v.clone();
        if self.has_live(&r) {
            *v = V::Moved;
        }
        Ok(r)
    }
    pub fn empty_array(&mut self, i: &Info, ty: Ty<'tcx>) -> bool {
        let t = self.peel(ty);
        let ty::Array(_, n) = t.kind() else { return false };
        matches!(self.const_len(*n), Ok(n) if self.prove(i, &Form::le(&n, &Lin::k(0))))
    }
    pub fn force_seq(&mut self, i: &Info, v: &mut V<'tcx>, ty: Ty<'tcx>) -> R<()> {
        match v {
            V::Res(..) => *v = self.expand(i, v)?,
            V::Uninit | V::Moved => {
                let w = v.clone();
                *v = self.expand_uninit(ty, 0, w)?
            }
            _ => {}
        }
        Ok(())
    }
    /// look without moving
    pub fn peek(&mut self, st: &mut State<'tcx>, p: &Ptr) -> R<V<'tcx>> {
        let State { mem, pc, variants, .. } = st;
        let i = &Info { pc, variants };
        let Some(c) = mem.get_mut(&p.a) else { return viol(Cat::Safety, "access to a dead memory location") };
        let (v, _) = self.nav(i, &mut c.v, c.ty, &p.path)?;
        Ok(v.clone())
    }
    pub fn write(&mut self, st: &mut State<'tcx>, p: &Ptr, x: V<'tcx>) -> R<()> {
        if let Some(P::Zst) = p.path.last() {
            return Ok(());
        }
        if let Some(P::BoxPtr) = p.path.last() {
            return und("overwriting the pointer of a box");
        }
        let State { mem, pc, variants, .. } = st;
        let i = &Info { pc, variants };
        let Some(c) = mem.get_mut(&p.a) else { return viol(Cat::Safety, "write to a dead memory location") };
        if let Some(P::Win(s, n)) = p.path.last() {
            let (v, vt) = self.nav(i, &mut c.v, c.ty, &p.path[..p.path.len() - 1])?;
            self.force_seq(i, v, vt)?;
            let V::Seq(segs) = v else { return und("window") };
            let V::Seq(new) = x else { return und("window write") };
            let segs = Rc::make_mut(segs);
            let a = self.split_at(i, segs, s)?;
            let b = self.split_at(i, segs, &s.add(n))?;
            for g in segs[a..b].to_vec() {
                self.discard(i, &V::Seq(Rc::new(vec![g])), "overwritten memory");
            }
            segs.splice(a..b, new.iter().cloned());
            self.tidy(i, segs);
            return Ok(());
        }
        let (v, _) = self.nav(i, &mut c.v, c.ty, &p.path)?;
        let old = std::mem::replace(v, x);
        self.discard(i, &old, "overwritten memory");
        // merge neighbouring dead elements
        Ok(())
    }
    pub fn kill(&mut self, st: &mut State<'tcx>, a: AllocId, what: &str) {
        if let Some(c) = st.mem.remove(&a) {
            self.discard(inf!(st), &c.v, what);
        }
    }
    pub fn local_ptr(uid: u32, l: u32) -> Ptr {
        Ptr { a: AllocId::Local(uid, l), path: vec![], meta: None }
    }

    // ---- constants and operands ---------------------------------------------
    pub fn zst(&mut self, ty: Ty<'tcx>) -> R<V<'tcx>> {
        let p = self.peel(ty);
        match p.kind() {
            ty::FnDef(..) | ty::Never => Ok(V::Agg(p, 0, Rc::new(vec![]))),
            ty::Tuple(l) => {
                let mut o = vec![];
                for x in l.iter() {
                    o.push(self.zst(x)?);
                }
                Ok(V::Agg(p, 0, Rc::new(o)))
            }
            ty::Closure(_, a) => {
                let mut o = vec![];
                for x in a.as_closure().upvar_tys().iter() {
                    o.push(self.zst(x)?);
                }
                Ok(V::Agg(p, 0, Rc::new(o)))
            }
            ty::Adt(d, args) if d.is_struct() && self.adt_kind(d.did()) == AdtK::Other => {
                let mut o = vec![];
                for f in d.non_enum_variant().fields.iter() {
                    let t = self.field_ty(f, args)?;
                    o.push(self.zst(t)?);
                }
                Ok(V::Agg(p, 0, Rc::new(o)))
            }
            ty::Array(_, n) if n.try_to_target_usize(self.tcx) == Some(0) => Ok(V::Seq(Rc::new(vec![]))),
            ty::Adt(d, args) if d.is_enum() && !ty::TypeVisitableExt::has_param(&p) && !ty::TypeVisitableExt::has_aliases(&p) => {
                let only = match self.tcx.layout_of(self.tenv.as_query_input(p)) {
                    Ok(l) if l.is_zst() => match l.variants {
                        rustc_abi::Variants::Single { index } => Some(index),
                        _ => None,
                    },
                    _ => None,
                };
                let Some(v) = only else { return und(format!("zero-sized constant of type {ty:?}")) };
                let mut o = vec![];
                for f in d.variant(v).fields.iter() {
                    let t = self.field_ty(f, args)?;
                    o.push(self.zst(t)?);
                }
                Ok(V::Agg(p, v.as_u32(), Rc::new(o)))
            }
            _ => und(format!("zero-sized constant of type {ty:?}")),
        }
    }
    pub fn bits_to_v(&self, ty: Ty<'tcx>, bits: u128, size: u64) -> Option<V<'tcx>> {
        match ty.kind() {
            ty::Bool => Some(V::Bool(Form::b(bits != 0))),
            ty::Uint(_) | ty::Char => Some(V::Int(Lin::k(bits as i128))),
            ty::Int(_) => {
                let sh = 128 - 8 * size as u32;
                Some(V::Int(Lin::k(((bits << sh) as i128) >> sh)))
            }
            _ => None,
        }
    }
    pub fn constant(&mut self, c: mir::Const<'tcx>) -> R<V<'tcx>> {
        let ty = self.norm(c.ty())?;
        let p = self.peel(ty);
        match p.kind() {
            ty::FnDef(..) => return Ok(V::Agg(p, 0, Rc::new(vec![]))),
            ty::Tuple(l) if l.is_empty() => return Ok(V::Agg(p, 0, Rc::new(vec![]))),
            _ => {}
        }
        if let mir::Const::Ty(_, ct) = c {
            if let ty::ConstKind::Param(q) = ct.kind() {
                let l = Lin::atom(Atom::CParam(q.name.to_string()));
                return Ok(match p.kind() {
                    ty::Bool => V::Bool(Form::le(&Lin::k(1), &l)),
                    _ => V::Int(l),
                });
            }
        }
        if p.is_integral() || p.is_bool() || p.is_char() {
            if let Some(s) = c.try_eval_scalar_int(self.tcx, self.tenv) {
                let size = s.size();
                if let Some(v) = self.bits_to_v(p, s.to_bits(size), size.bytes()) {
                    return Ok(v);
                }
            }
            return und(format!("constant {c:?}"));
        }
        if p.is_floating_point() || p.is_str() {
            return Ok(V::Any);
        }
        if matches!(p.kind(), ty::Ref(..) | ty::RawPtr(..) | ty::FnPtr(..)) {
            return Ok(V::Any);
        }
        let val = match c {
            mir::Const::Val(v, _) => v,
            _ => match c.eval(self.tcx, self.tenv, rustc_span::DUMMY_SP) {
                Ok(v) => v,
                Err(_) => {
                    // `const { MaybeUninit::uninit() }`
                    if let mir::Const::Unevaluated(u, _) = c {
                        if u.promoted.is_none() && format!("{:?}", self.tcx.def_kind(u.def)).contains("Const") {
                            let b = self.tcx.mir_for_ctfe(u.def);
                            if let mir::TerminatorKind::Call { func, destination, .. } = &b.basic_blocks[mir::START_BLOCK].terminator().kind {
                                if let (ty::FnDef(f, _), mir::RETURN_PLACE, true) =
                                    (func.ty(b, self.tcx).kind(), destination.local, destination.projection.is_empty())
                                {
                                    if self.key(*f) == "core::mem::maybe_uninit::MaybeUninit::uninit" && b.basic_blocks.len() <= 3 {
                                        return Ok(V::Uninit);
                                    }
                                }
                            }
                        }
                    }
                    return self.zst(ty).or_else(|_| und(format!("constant {c:?}")));
                }
            },
        };
        if let mir::ConstValue::ZeroSized = val {
            if let Ok(v) = self.zst(ty) {
                return Ok(v);
            }
        }
        use rustc_middle::ty::TypeVisitableExt;
        if !matches!(p.kind(), ty::Array(..) | ty::Adt(..) | ty::Tuple(_)) || ty.has_param() || matches!(val, mir::ConstValue::ZeroSized) {
            return und(format!("constant {c:?} of type {ty:?}"));
        }
        if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(val, ty) {
            let mut fs = vec![];
            for (v, t) in d.fields.iter() {
                fs.push(self.constant(mir::Const::Val(*v, *t))?);
            }
            if let ty::Array(..) = p.kind() {
                let segs = fs.into_iter().map(|v| self.one(v)).collect::<Vec<_>>();
                return Ok(V::Seq(Rc::new(segs)));
            }
            if let ty::Adt(a, _) = p.kind() {
                if self.adt_kind(a.did()) != AdtK::Other {
                    return und(format!("constant of type {ty:?}"));
                }
            }
            return Ok(V::Agg(p, d.variant.map(|v| v.as_u32()).unwrap_or(0), Rc::new(fs)));
        }
        und(format!("constant {c:?} of type {ty:?}"))
    }
    pub fn operand(&mut self, st: &mut State<'tcx>, o: &Operand<'tcx>) -> R<V<'tcx>> {
        match o {
            Operand::Copy(pl) => {
                let (p, t) = self.place(st, *pl)?;
                self.read(st, &p, t, false)
            }
            Operand::Move(pl) => {
                let (p, t) = self.place(st, *pl)?;
                self.read(st, &p, t, true)
            }
            Operand::Constant(c) => self.constant(c.const_),
            Operand::RuntimeChecks(_) => Ok(V::Bool(Form::False)),
        }
    }
    pub fn op_ty(&self, st: &State<'tcx>, o: &Operand<'tcx>) -> R<Ty<'tcx>> {
        let (_, bi) = self.top_fn(st);
        self.norm(o.ty(&bi.body.local_decls, self.tcx))
    }

    // ---- rvalues --------------------------------------------------------------
    pub fn int_range(&self, t: Ty<'tcx>) -> Option<(Lin, Lin)> {
        let bits = match t.kind() {
            ty::Uint(u) => (false, u.bit_width().unwrap_or(64)),
            ty::Int(u) => (true, u.bit_width().unwrap_or(64)),
            ty::Char => (false, 32),
            _ => return None,
        };
        if bits.1 > 64 {
            return None;
        }
        Some(if bits.0 {
            (Lin::k(-(1i128 << (bits.1 - 1))), Lin::k((1i128 << (bits.1 - 1)) - 1))
        } else {
            (Lin::k(0), Lin::k((1i128 << bits.1) - 1))
        })
    }
    fn binop(&mut self, st: &mut State<'tcx>, op: mir::BinOp, a: V<'tcx>, b: V<'tcx>, ty: Ty<'tcx>) -> R<V<'tcx>> {
        use mir::BinOp::*;
        match (&a, &b) {
            (V::Int(x), V::Int(y)) => {
                let arith = |x: &Lin, y: &Lin| -> Option<Lin> {
                    match op {
                        Add | AddUnchecked | AddWithOverflow => Some(x.add(y)),
                        Sub | SubUnchecked | SubWithOverflow => Some(x.sub(y)),
                        Mul | MulUnchecked | MulWithOverflow => {
                            if let Some(k) = y.is_const() {
                                Some(x.scale(k))
                            } else {
                                x.is_const().map(|k| y.scale(k))
                            }
                        }
                        _ => None,
                    }
                };
                match op {
                    Eq => return Ok(V::Bool(Form::eq(x, y))),
                    Ne => return Ok(V::Bool(Form::eq(x, y).not())),
                    Lt => return Ok(V::Bool(Form::lt(x, y))),
                    Le => return Ok(V::Bool(Form::le(x, y))),
                    Gt => return Ok(V::Bool(Form::lt(y, x))),
                    Ge => return Ok(V::Bool(Form::le(y, x))),
                    _ => {}
                }
                if let Some(r) = arith(x, y) {
                    let Some((lo, hi)) = self.int_range(ty) else { return und("wide integer arithmetic") };
                    let inr = Form::and(Form::le(&lo, &r), Form::le(&r, &hi));
                    match op {
                        AddWithOverflow | SubWithOverflow | MulWithOverflow => {
                            let tt = Ty::new_tup(self.tcx, &[ty, self.tcx.types.bool]);
                            // the wrapped value is only used when there is no overflow
                            return Ok(V::Agg(tt, 0, Rc::new(vec![V::Int(r), V::Bool(inr.not())])));
                        }
                        AddUnchecked | SubUnchecked | MulUnchecked => {
                            self.o("arithmetic");
                            if !self.decide(inf!(st), &inr)? {
                                return viol(Cat::Safety, "unchecked arithmetic overflows");
                            }
                            return Ok(V::Int(r));
                        }
                        _ => {
                            // wrapping
                            if self.decide(inf!(st), &inr)? {
                                return Ok(V::Int(r));
                            }
                            let w = hi.sub(&lo).addk(1);
                            if self.decide(inf!(st), &Form::lt(&r, &lo))? {
                                return Ok(V::Int(r.add(&w)));
                            }
                            return Ok(V::Int(r.sub(&w)));
                        }
                    }
                }
                if let (Some(x), Some(y)) = (x.is_const(), y.is_const()) {
                    let r = match op {
                        Div if y != 0 => x / y,
                        Rem if y != 0 => x % y,
                        BitAnd => x & y,
                        BitOr => x | y,
                        BitXor => x ^ y,
                        _ => return Ok(V::Any),
                    };
                    return Ok(V::Int(Lin::k(r)));
                }
                Ok(V::Any)
            }
            (V::Bool(x), V::Bool(y)) => {
                let (x, y) = (x.clone(), y.clone());
                let eq = Form::or(Form::and(x.clone(), y.clone()), Form::and(x.clone().not(), y.clone().not()));
                Ok(match op {
                    BitAnd => V::Bool(Form::and(x, y)),
                    BitOr => V::Bool(Form::or(x, y)),
                    Eq => V::Bool(eq),
                    Ne | BitXor => V::Bool(eq.not()),
                    _ => V::Any,
                })
            }
            (V::Ptr(p), V::Int(k)) if op == Offset => Ok(V::Ptr(self.ptr_add(st, p.clone(), k)?)),
            (V::Ptr(p), V::Ptr(q)) if matches!(op, Eq | Ne | Lt | Le | Gt | Ge) => {
                if p.a == q.a && p.path.len() == q.path.len() && p.path.len() > 0 && p.path[..p.path.len() - 1] == q.path[..q.path.len() - 1] {
                    if let (Some(P::Ix(x)), Some(P::Ix(y))) = (p.path.last(), q.path.last()) {
                        return Ok(V::Bool(match op {
                            Eq => Form::eq(x, y),
                            Ne => Form::eq(x, y).not(),
                            Lt => Form::lt(x, y),
                            Le => Form::le(x, y),
                            Gt => Form::lt(y, x),
                            _ => Form::le(y, x),
                        }));
                    }
                }
                Ok(V::Any)
            }
            _ => {
                if self.has_live(&a) || self.has_live(&b) {
                    return und("arithmetic on resources");
                }
                Ok(V::Any)
            }
        }
    }
    pub fn ptr_add(&mut self, _st: &mut State<'tcx>, mut p: Ptr, k: &Lin) -> R<Ptr> {
        if k.is_zero() {
            return Ok(p);
        }
        match p.path.last_mut() {
            Some(P::Ix(o)) => {
                *o = o.add(k);
                Ok(p)
            }
            Some(P::Win(s, n)) => {
                let _ = (s, n);
                und("offset of an array pointer")
            }
            _ => und("pointer arithmetic outside an array"),
        }
    }
    pub fn discr_of(&self, ty: Ty<'tcx>, v: u32) -> Lin {
        match ty.discriminant_for_variant(self.tcx, v.into()) {
            Some(d) => {
                // sign
                if d.ty.is_signed() {
                    Lin::k(d.val as i64 as i128)
                } else {
                    Lin::k(d.val as i128)
                }
            }
            None => Lin::k(v as i128),
        }
    }
    pub fn discriminant(&mut self, st: &mut State<'tcx>, p: &Ptr, ty: Ty<'tcx>) -> R<V<'tcx>> {
        let q = self.norm(ty)?;
        let q = self.peel(q);
        let State { mem, pc, variants, .. } = st;
        let i = &Info { pc, variants };
        let Some(c) = mem.get_mut(&p.a) else { return viol(Cat::Safety, "read of a dead memory location") };
        let (v, _) = self.nav(i, &mut c.v, c.ty, &p.path)?;
        if let V::Res(..) = v {
            *v = self.expand(i, v)?;
        }
        match v {
            V::Agg(_, UNKNOWN_VARIANT, _) => und("discriminant of an unknown value"),
            V::Agg(_, var, _) => Ok(V::Int(self.discr_of(q, *var))),
            V::Uninit | V::Moved => {
                // a zero-sized value is never uninitialised
                if let Ok(V::Agg(_, var, _)) = self.zst(ty) {
                    return Ok(V::Int(self.discr_of(q, var)));
                }
                viol(Cat::Safety, "discriminant of uninitialised or moved-out memory")
            }
            V::Any => und("discriminant of an unknown value"),
            _ => Ok(V::Int(Lin::k(0))),
        }
    }
    pub fn cast(&mut self, st: &mut State<'tcx>, k: mir::CastKind, v: V<'tcx>, from: Ty<'tcx>, to: Ty<'tcx>) -> R<V<'tcx>> {
        use mir::CastKind::*;
        match k {
            PtrToPtr | FnPtrToPtr => Ok(self.thin(v, to)),
            PointerCoercion(c, _) => match c {
                ty::adjustment::PointerCoercion::Unsize => {
                    let (a, b) = (from.builtin_deref(true), to.builtin_deref(true));
                    let tcx = self.tcx;
                    if tcx.erase_and_anonymize_regions(from) == tcx.erase_and_anonymize_regions(to) {
                        return Ok(v);
                    }
                    if let (Some(a), Some(b)) = (a, b) {
                        if matches!(from.kind(), ty::Adt(..)) {
                            return und("unsizing a box");
                        }
                        match (self.peel(a).kind(), self.peel(b).kind()) {
                            (ty::Array(_, n), ty::Slice(_)) => {
                                let n = self.const_len(*n)?;
                                if let V::Ptr(mut p) = v {
                                    if let Some(P::Win(s, _)) = p.path.last().cloned() {
                                        *p.path.last_mut().unwrap() = P::Ix(s);
                                    } else {
                                        p.path.push(P::Ix(Lin::k(0)));
                                    }
                                    p.meta = Some(n);
                                    return Ok(V::Ptr(p));
                                }
                                return Ok(V::Any);
                            }
                            _ => return und(format!("unsizing {from:?} to {to:?}")),
                        }
                    }
                    und(format!("unsizing {from:?} to {to:?}"))
                }
                ty::adjustment::PointerCoercion::MutToConstPointer | ty::adjustment::PointerCoercion::ArrayToPointer => Ok(v),
                // function pointers: keep the function item value
                ty::adjustment::PointerCoercion::ReifyFnPointer(..)
                | ty::adjustment::PointerCoercion::ClosureFnPointer(_)
                | ty::adjustment::PointerCoercion::UnsafeFnPointer => Ok(v),
            },
            IntToInt => match &v {
                V::Int(l) => {
                    let Some((lo, hi)) = self.int_range(to) else { return Ok(V::Any) };
                    let f = Form::and(Form::le(&lo, l), Form::le(l, &hi));
                    if self.prove(inf!(st), &f) {
                        Ok(v)
                    } else if let Some(c) = l.is_const() {
                        let w = hi.c - lo.c + 1;
                        Ok(V::Int(Lin::k((c - lo.c).rem_euclid(w) + lo.c)))
                    } else {
                        Ok(V::Any)
                    }
                }
                V::Bool(f) => {
                    let f = f.clone();
                    let b = self.decide(inf!(st), &f)?;
                    Ok(V::Int(Lin::k(b as i128)))
                }
                _ => Ok(V::Any),
            },
            Transmute | Subtype | BoxDerefTransmute => {
                let (f, t) = (self.norm(from)?, self.norm(to)?);
                if self.same_layout(f, t) {
                    return Ok(self.thin(v, to));
                }
                let (a, b) = (self.peel(f), self.peel(t));
                if (a.is_any_ptr() || a.is_box()) && b.is_any_ptr() {
                    return Ok(v);
                }
                // transmuting an array of wrappers etc. is covered by same_layout
                match (&v, a.kind(), b.kind()) {
                    (V::Int(_), _, _) if a.is_integral() && b.is_integral() => self.cast(st, IntToInt, v, from, to),
                    _ => {
                        if self.has_live(&v) {
                            und(format!("transmute of {from:?} to {to:?}"))
                        } else {
                            Ok(V::Any)
                        }
                    }
                }
            }
            _ => {
                if self.has_live(&v) {
                    return und(format!("cast {k:?}"));
                }
                Ok(V::Any)
            }
        }
    }
    /// drop the metadata when casting a fat to a thin pointer
    fn thin(&mut self, v: V<'tcx>, to: Ty<'tcx>) -> V<'tcx> {
        if let V::Ptr(mut p) = v {
            let t = self.peel(to);
            if let Some(inner) = t.builtin_deref(true) {
                if !matches!(inner.kind(), ty::Slice(_) | ty::Str | ty::Dynamic(..)) && !self.is_unsized_tail(inner) {
                    p.meta = None;
                }
            }
            return V::Ptr(p);
        }
        v
    }
    fn is_unsized_tail(&mut self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Param(_) | ty::Alias(..) => false,
            ty::Slice(_) | ty::Str | ty::Dynamic(..) => true,
            _ => {
                let p = self.peel(t);
                p != t && self.is_unsized_tail(p)
            }
        }
    }
    pub fn aggregate(&mut self, st: &mut State<'tcx>, k: &mir::AggregateKind<'tcx>, vals: Vec<V<'tcx>>, ty: Ty<'tcx>) -> R<V<'tcx>> {
        match k {
            mir::AggregateKind::Array(_) => {
                let segs = vals.into_iter().map(|v| self.one(v)).collect();
                Ok(V::Seq(Rc::new(segs)))
            }
            mir::AggregateKind::Tuple | mir::AggregateKind::Closure(..) => Ok(V::Agg(ty, 0, Rc::new(vals))),
            mir::AggregateKind::Adt(d, var, args, _, active) => {
                match self.adt_kind(*d) {
                    AdtK::Ident => {
                        if let Some(f) = active {
                            if f.as_u32() == 0 && self.path(*d).ends_with("MaybeUninit") {
                                return Ok(V::Uninit);
                            }
                        }
                        return Ok(vals.into_iter().next().unwrap_or(V::Uninit));
                    }
                    AdtK::PtrWrap => return Ok(vals.into_iter().next().unwrap()),
                    AdtK::Box => {
                        // Box { ptr, alloc }: take ownership of a heap cell
                        if let Some(V::Ptr(p)) = vals.first() {
                            return self.box_from_ptr(st, p.clone(), args.type_at(0));
                        }
                        return und("construction of a box");
                    }
                    AdtK::Cont(_) => return und(format!("construction of {ty:?} from parts")),
                    AdtK::Other => {}
                }
                if self.tcx.adt_def(*d).is_union() {
                    return und(format!("union {ty:?}"));
                }
                Ok(V::Agg(ty, var.as_u32(), Rc::new(vals)))
            }
            mir::AggregateKind::RawPtr(pointee, _) => {
                let mut it = vals.into_iter();
                let (d, m) = (it.next().unwrap(), it.next().unwrap());
                match (d, m) {
                    (V::Ptr(mut p), V::Int(l)) => {
                        if let ty::Slice(_) = pointee.kind() {
                            let q = Ptr { meta: None, ..p.clone() };
                            let pt = self.path_ty(st, &q)?;
                            if matches!(self.peel(pt).kind(), ty::Array(..)) && !matches!(p.path.last(), Some(P::Ix(_))) {
                                p.path.push(P::Ix(Lin::k(0)));
                            }
                            if !matches!(p.path.last(), Some(P::Ix(_))) {
                                return und("slice from a single value");
                            }
                        }
                        p.meta = Some(l);
                        Ok(V::Ptr(p))
                    }
                    (V::Ptr(p), V::Agg(..)) => Ok(V::Ptr(Ptr { meta: None, ..p })),
                    _ => Ok(V::Any),
                }
            }
            _ => und("aggregate"),
        }
    }
    pub fn box_from_ptr(&mut self, st: &mut State<'tcx>, p: Ptr, _inner: Ty<'tcx>) -> R<V<'tcx>> {
        if let (AllocId::Heap(_), true) = (p.a, p.path.is_empty()) {
            let c = st.mem.remove(&p.a);
            return match c {
                Some(c) => Ok(V::Box(Rc::new(c.v))),
                None => viol(Cat::Safety, "box made from freed memory"),
            };
        }
        if let Some(P::BoxD) = p.path.last() {
            // ptr of an existing box: the old box must be forgotten
            let mut q = p.clone();
            q.path.pop();
            let State { mem, pc, variants, .. } = st;
            let i = &Info { pc, variants };
            let Some(c) = mem.get_mut(&q.a) else { return viol(Cat::Safety, "box made from dead memory") };
            let (v, _) = self.nav(i, &mut c.v, c.ty, &q.path)?;
            if let V::Box(_) = v {
                return Ok(std::mem::replace(v, V::Moved));
            }
        }
        und("box made from a foreign pointer")
    }
    pub fn rvalue(&mut self, st: &mut State<'tcx>, r: &Rvalue<'tcx>, dty: Ty<'tcx>) -> R<V<'tcx>> {
        match r {
            Rvalue::Use(o, _) => self.operand(st, o),
            Rvalue::CopyForDeref(pl) | Rvalue::Reborrow(_, _, pl) => {
                let (p, t) = self.place(st, *pl)?;
                self.read(st, &p, t, false)
            }
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o)?;
                let len = self.const_len(*n)?;
                if self.has_live(&v) {
                    return und("array repetition of a resource");
                }
                let var = self.sym();
                Ok(V::Seq(Rc::new(vec![Seg { len, var, val: v }])))
            }
            Rvalue::Ref(_, _, pl) | Rvalue::RawPtr(_, pl) => {
                // a reference that is an input is passed on
                if let Some((mir::ProjectionElem::Deref, before)) = pl.projection.split_last() {
                    let base = mir::Place { local: pl.local, projection: self.tcx.mk_place_elems(before) };
                    let (p, t) = self.place(st, base)?;
                    if t.is_ref() && matches!(r, Rvalue::Ref(..)) {
                        if let Ok(v @ V::Res(..)) = self.read(st, &p, t, false) {
                            return Ok(v);
                        }
                    }
                }
                let (p, _) = self.place(st, *pl)?;
                Ok(V::Ptr(p))
            }
            Rvalue::Cast(k, o, t) => {
                let from = self.op_ty(st, o)?;
                let to = self.norm(*t)?;
                let v = self.operand(st, o)?;
                self.cast(st, *k, v, from, to)
            }
            Rvalue::BinaryOp(op, ops) => {
                let ty = self.op_ty(st, &ops.0)?;
                let a = self.operand(st, &ops.0)?;
                let b = self.operand(st, &ops.1)?;
                self.binop(st, *op, a, b, ty)
            }
            Rvalue::UnaryOp(op, o) => {
                let v = self.operand(st, o)?;
                match (op, v) {
                    (mir::UnOp::Not, V::Bool(f)) => Ok(V::Bool(f.not())),
                    (mir::UnOp::Neg, V::Int(l)) => Ok(V::Int(l.scale(-1))),
                    (mir::UnOp::PtrMetadata, V::Ptr(p)) => Ok(match p.meta {
                        Some(m) => V::Int(m),
                        None => {
                            let t = self.op_ty(st, o)?;
                            match t.builtin_deref(true).map(|t| t.kind().clone()) {
                                Some(ty::Slice(_)) | Some(ty::Str) => V::Any,
                                _ => V::Agg(self.tcx.types.unit, 0, Rc::new(vec![])),
                            }
                        }
                    }),
                    _ => Ok(V::Any),
                }
            }
            Rvalue::Discriminant(pl) => {
                let (p, t) = self.place(st, *pl)?;
                self.discriminant(st, &p, t)
            }
            Rvalue::Aggregate(k, ops) => {
                let mut vals = vec![];
                for o in ops.iter() {
                    vals.push(self.operand(st, o)?);
                }
                self.aggregate(st, k, vals, dty)
            }
            _ => und(format!("rvalue {r:?}")),
        }
    }

    // ---- stepping ------------------------------------------------------------
    pub fn goto(&mut self, st: &mut State<'tcx>, b: BasicBlock) {
        if let Some(Frame { k: FK::Fn { bb, stmt, .. }, .. }) = st.frames.last_mut() {
            *bb = b;
            *stmt = 0;
        } else {
            panic!("goto in a pseudo frame");
        }
    }
    /// continue after the top frame (already popped) finished normally
    pub fn resume(&mut self, st: &mut State<'tcx>, ret: &Ret<'tcx>) -> R<()> {
        match st.frames.last_mut() {
            None => Ok(()),
            Some(f) => match &mut f.k {
                FK::Fn { .. } => match ret.target {
                    Some(b) => {
                        self.goto(st, b);
                        Ok(())
                    }
                    None => viol(Cat::Safety, "return from a diverging call"),
                },
                FK::Drop { .. } => Ok(()),
                FK::Once { ty } => {
                    let ty = *ty;
                    let p = Self::local_ptr(f.uid, 0);
                    f.k = FK::Drop { items: vec![(p, ty)], then_unwind: false };
                    Ok(())
                }
            },
        }
    }
    pub fn pop_locals(&mut self, st: &mut State<'tcx>, uid: u32, what: &str) {
        let ids: Vec<AllocId> = st
            .mem
            .range(AllocId::Local(uid, 0)..=AllocId::Local(uid, u32::MAX))
            .map(|(a, _)| *a)
            .collect();
        for a in ids {
            self.kill(st, a, what);
        }
    }
    /// perform an unwind action in the top frame (whose call / drop unwound)
    pub fn unwind_action(&mut self, st: &mut State<'tcx>, u: UnwindAction) -> R<()> {
        st.unwinding = true;
        match u {
            UnwindAction::Continue => self.unwind_out(st),
            UnwindAction::Cleanup(b) => {
                self.goto(st, b);
                Ok(())
            }
            UnwindAction::Unreachable => viol(Cat::Safety, "unwinding where it must not happen"),
            UnwindAction::Terminate(_) => viol(Cat::Panic, "unwinding aborts the process"),
        }
    }
    /// unwind out of the top frame
    pub fn unwind_out(&mut self, st: &mut State<'tcx>) -> R<()> {
        let f = st.frames.last().unwrap().clone();
        match f.k {
            FK::Fn { ref info, .. } => {
                let n = format!("frame of {} when unwinding", info.name);
                self.pop_locals(st, f.uid, &n);
                st.frames.pop();
            }
            FK::Drop { items, .. } => {
                if !items.is_empty() {
                    return und("unwinding out of a destructor");
                }
                self.pop_locals(st, f.uid, "temporary");
                st.frames.pop();
            }
            FK::Once { ty } => {
                let p = Self::local_ptr(f.uid, 0);
                st.frames.last_mut().unwrap().k = FK::Drop { items: vec![(p, ty)], then_unwind: true };
                return Ok(());
            }
        }
        if st.frames.is_empty() {
            return Ok(());
        }
        match &st.frames.last().unwrap().k {
            FK::Fn { .. } => self.unwind_action(st, f.ret.unwind),
            _ => self.unwind_out(st),
        }
    }
    /// execute up to and including the next terminator
    pub fn step(&mut self, st0: &State<'tcx>) -> R<Vec<State<'tcx>>> {
        let mut st = st0.clone();
        st.steps += 1;
        if std::time::Instant::now() > self.deadline {
            return und("time limit");
        }
        match st.frames.last().unwrap().k.clone() {
            FK::Drop { .. } => {
                self.step_drop(&mut st)?;
                return Ok(vec![st]);
            }
            FK::Once { .. } => return und("internal: once frame on top"),
            FK::Fn { info, bb, stmt } => {
                let data = &info.body.basic_blocks[bb];
                for s in &data.statements[stmt..] {
                    self.stmt(&mut st, s)?;
                }
                let t = data.terminator();
                self.term(st, &info, &t.kind)
            }
        }
    }
    fn stmt(&mut self, st: &mut State<'tcx>, s: &mir::Statement<'tcx>) -> R<()> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (pl, rv) = &**b;
                let (_, bi) = self.top_fn(st);
                let dty = pl.ty(&bi.body.local_decls, self.tcx).ty;
                let dty = self.norm(dty)?;
                let v = self.rvalue(st, rv, dty)?;
                let (p, _) = self.place(st, *pl)?;
                self.write(st, &p, v)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let (p, t) = self.place(st, **place)?;
                let v = self.peek(st, &p)?;
                match v {
                    V::Agg(_, x, _) if x == variant_index.as_u32() => Ok(()),
                    V::Uninit | V::Moved => {
                        let n = self.expand_uninit(t, variant_index.as_u32(), V::Uninit)?;
                        self.write(st, &p, n)
                    }
                    V::Agg(_, _, ref fs) if fs.iter().all(|f| matches!(f, V::Uninit | V::Moved)) => {
                        let n = self.expand_uninit(t, variant_index.as_u32(), V::Uninit)?;
                        self.write(st, &p, n)
                    }
                    _ => und("set discriminant"),
                }
            }
            StatementKind::StorageLive(l) => {
                let (uid, bi) = self.top_fn(st);
                let ty = bi.body.local_decls[*l].ty;
                let a = AllocId::Local(uid, l.as_u32());
                self.kill(st, a, "storage restarted");
                let ty = self.norm(ty)?;
                st.mem.insert(a, Cell { v: V::Uninit, ty });
                Ok(())
            }
            StatementKind::StorageDead(l) => {
                let (uid, bi) = self.top_fn(st);
                let ty = bi.body.local_decls[*l].ty;
                let n = format!("local {:?} of {}", l, bi.name);
                let a = AllocId::Local(uid, l.as_u32());
                self.kill(st, a, &n);
                let _ = ty;
                Ok(())
            }
            StatementKind::Intrinsic(i) => match &**i {
                mir::NonDivergingIntrinsic::Assume(o) => {
                    if let V::Bool(f) = self.operand(st, o)? {
                        self.o("safety");
                        if !self.decide(inf!(st), &f)? {
                            return viol(Cat::Safety, "assumption of an unsafe operation violated");
                        }
                    }
                    Ok(())
                }
                mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let s = self.operand(st, &c.src)?;
                    let d = self.operand(st, &c.dst)?;
                    let n = self.operand(st, &c.count)?;
                    let t = self.op_ty(st, &c.src)?.builtin_deref(true).unwrap();
                    self.copy_n(st, s, d, n, t)
                }
            },
            StatementKind::FakeRead(..)
            | StatementKind::PlaceMention(..)
            | StatementKind::AscribeUserType(..)
            | StatementKind::Coverage(..)
            | StatementKind::ConstEvalCounter
            | StatementKind::Nop
            | StatementKind::BackwardIncompatibleDropHint { .. } => Ok(()),
        }
    }
    pub fn copy_n(&mut self, st: &mut State<'tcx>, s: V<'tcx>, d: V<'tcx>, n: V<'tcx>, t: Ty<'tcx>) -> R<()> {
        let (V::Ptr(s), V::Ptr(d), V::Int(n)) = (s, d, n) else { return und("memory copy with unknown operands") };
        let s = self.reconcile(st, s, t)?;
        let d = self.reconcile(st, d, t)?;
        if n.is_const() == Some(1) {
            // copies may move uninitialised bytes
            let v = self.take_raw(st, &s)?;
            return self.write(st, &d, v);
        }
        let (Some(P::Ix(a)), Some(P::Ix(b))) = (s.path.last().cloned(), d.path.last().cloned()) else {
            return und("memory copy outside an array");
        };
        let mut s = s;
        *s.path.last_mut().unwrap() = P::Win(a, n.clone());
        let mu = Ty::new_maybe_uninit(self.tcx, t);
        let v = self.read(st, &s, mu, true)?;
        let mut d = d;
        *d.path.last_mut().unwrap() = P::Win(b, n);
        self.write(st, &d, v)
    }
    pub fn take_raw(&mut self, st: &mut State<'tcx>, p: &Ptr) -> R<V<'tcx>> {
        let mu = Ty::new_maybe_uninit(self.tcx, self.tcx.types.unit);
        self.read(st, p, mu, true)
    }
    fn term(&mut self, mut st: State<'tcx>, bi: &Rc<BodyInfo<'tcx>>, t: &TerminatorKind<'tcx>) -> R<Vec<State<'tcx>>> {
        match t {
            TerminatorKind::Goto { target, .. } => {
                self.goto(&mut st, *target);
                Ok(vec![st])
            }
            TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                self.goto(&mut st, *real_target);
                Ok(vec![st])
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = self.operand(&mut st, discr)?;
                match v {
                    V::Bool(f) => {
                        let b = self.decide(inf!(st), &f)?;
                        let t = targets.target_for_value(b as u128);
                        self.goto(&mut st, t);
                        Ok(vec![st])
                    }
                    V::Int(l) => {
                        let ty = self.op_ty(&st, discr)?;
                        for (val, tgt) in targets.iter() {
                            let size = self.int_range(ty);
                            let val = match (ty.kind(), size) {
                                (ty::Int(_), Some((lo, _))) => {
                                    let w = -lo.c * 2;
                                    let v = val as i128;
                                    if v >= -lo.c {
                                        v - w
                                    } else {
                                        v
                                    }
                                }
                                _ => val as i128,
                            };
                            if self.decide(inf!(st), &Form::eq(&l, &Lin::k(val)))? {
                                self.goto(&mut st, tgt);
                                return Ok(vec![st]);
                            }
                        }
                        self.goto(&mut st, targets.otherwise());
                        Ok(vec![st])
                    }
                    V::Any => {
                        // the value of an unknown bool / int: both ways are possible in general
                        und(format!("branch on an unknown value in {}", bi.name))
                    }
                    _ => und(format!("branch on {v:?}")),
                }
            }
            TerminatorKind::Return => {
                let f = st.frames.last().unwrap().clone();
                let p = Self::local_ptr(f.uid, 0);
                let rty = self.norm(bi.body.local_decls[mir::RETURN_PLACE].ty)?;
                let v = self.read(&mut st, &p, rty, true)?;
                let n = format!("frame of {} at return", bi.name);
                self.pop_locals(&mut st, f.uid, &n);
                st.frames.pop();
                if let Some((d, _)) = &f.ret.dest {
                    self.write(&mut st, d, v)?;
                } else {
                    self.discard(inf!(st), &v, "ignored result");
                }
                self.resume(&mut st, &f.ret)?;
                Ok(vec![st])
            }
            TerminatorKind::Unreachable => viol(Cat::Safety, format!("unreachable code reached in {}", bi.name)),
            TerminatorKind::UnwindResume => {
                self.unwind_out(&mut st)?;
                Ok(vec![st])
            }
            TerminatorKind::UnwindTerminate(_) => viol(Cat::Panic, "process abort while unwinding"),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let (p, ty) = self.place(&mut st, *place)?;
                if !self.needs_drop(ty) {
                    self.goto(&mut st, *target);
                    return Ok(vec![st]);
                }
                self.push_drop(&mut st, vec![(p, ty)], Some(*target), *unwind);
                Ok(vec![st])
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind: _ } => {
                let v = self.operand(&mut st, cond)?;
                let V::Bool(f) = v else { return und("assertion on an unknown value") };
                let f = if *expected { f } else { f.not() };
                self.o("panic-freedom");
                if self.decide(inf!(st), &f)? {
                    self.goto(&mut st, *target);
                    Ok(vec![st])
                } else {
                    viol(Cat::Panic, format!("panics: {:?} in {}", msg, bi.name))
                }
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let fty = self.op_ty(&st, func)?;
                let mut vals = vec![];
                let mut tys = vec![];
                for a in args.iter() {
                    tys.push(self.op_ty(&st, &a.node)?);
                    vals.push(self.operand(&mut st, &a.node)?);
                }
                let (d, dty) = self.place(&mut st, *destination)?;
                let ret = Ret { dest: Some((d, dty)), target: *target, unwind: *unwind };
                match fty.kind() {
                    ty::FnDef(def, gargs) => {
                        let gargs = gargs.skip_binder();
                        self.call(st, *def, gargs, vals, tys, ret)
                    }
                    _ => {
                        let fv = self.operand(&mut st, func)?;
                        if let V::Agg(t, _, _) = &fv {
                            if let ty::FnDef(def, gargs) = t.kind() {
                                let (def, gargs) = (*def, gargs.skip_binder());
                                return self.call(st, def, gargs, vals, tys, ret);
                            }
                        }
                        und("call through a function pointer")
                    }
                }
            }
            _ => und(format!("terminator {t:?}")),
        }
    }
    pub fn push_drop(&mut self, st: &mut State<'tcx>, items: Vec<(Ptr, Ty<'tcx>)>, target: Option<BasicBlock>, unwind: UnwindAction) {
        let uid = self.sym();
        st.frames.push(Frame { uid, k: FK::Drop { items, then_unwind: false }, ret: Ret { dest: None, target, unwind } });
    }
    fn step_drop(&mut self, st: &mut State<'tcx>) -> R<()> {
        let f = st.frames.last_mut().unwrap();
        let FK::Drop { items, then_unwind } = &mut f.k else { unreachable!() };
        let Some((p, ty)) = items.pop() else {
            let tu = *then_unwind;
            let uid = f.uid;
            let ret = f.ret.clone();
            self.pop_locals(st, uid, "temporary");
            st.frames.pop();
            if tu {
                return match st.frames.last().map(|f| &f.k) {
                    None => Ok(()),
                    Some(FK::Fn { .. }) => self.unwind_action(st, ret.unwind),
                    _ => self.unwind_out(st),
                };
            }
            return self.resume(st, &ret);
        };
        self.o("ownership");
        let ty = self.norm(ty)?;
        if !self.needs_drop(ty) {
            return Ok(());
        }
        let push = |st: &mut State<'tcx>, x: Vec<(Ptr, Ty<'tcx>)>| {
            let FK::Drop { items, .. } = &mut st.frames.last_mut().unwrap().k else { unreachable!() };
            items.extend(x.into_iter().rev());
        };
        // slices
        if let ty::Slice(e) = ty.kind() {
            let Some(n) = p.meta.clone() else { return und("drop of a slice of unknown length") };
            let Some(P::Ix(o)) = p.path.last().cloned() else { return und("drop of an odd slice") };
            let mut q = p.clone();
            *q.path.last_mut().unwrap() = P::Win(o, n);
            q.meta = None;
            return self.drop_range(st, &q, *e);
        }
        if let Some(P::Win(..)) = p.path.last() {
            let ty::Array(e, _) = ty.kind() else { return und("drop of a window") };
            return self.drop_range(st, &p, *e);
        }
        if let Some(P::BoxPtr) = p.path.last() {
            // the content of the box has been dropped: free it
            let mut q = p.clone();
            *q.path.last_mut().unwrap() = P::BoxD;
            let c = self.peek(st, &q)?;
            self.discard(inf!(st), &c, "freed box");
            q.path.pop();
            return self.set(st, &q, V::Moved);
        }
        let v = self.peek(st, &p)?;
        if matches!(v, V::Uninit | V::Moved) {
            return viol(Cat::Own, format!("drop of uninitialised, moved-out or already dropped memory of type {ty:?}"));
        }
        match ty.kind() {
            ty::Adt(d, args) => {
                let k = self.adt_kind(d.did());
                match k {
                    AdtK::Box => {
                        let inner = args.type_at(0);
                        match v {
                            V::Res(..) | V::Mapped { .. } => self.set(st, &p, V::Moved),
                            V::Box(c) => {
                                if matches!(*c, V::Res(..) | V::Int(_) | V::Bool(_)) {
                                    self.set(st, &p, V::Moved)
                                } else {
                                    let mut q = p.clone();
                                    q.path.push(P::BoxD);
                                    let uid = self.sym();
                                    let _ = uid;
                                    // drop the content, then free: represented by dropping the emptied box
                                    let id = self.tcx.types.unit;
                                    let _ = id;
                                    push(st, vec![(q, inner)]);
                                    let FK::Drop { items, .. } = &mut st.frames.last_mut().unwrap().k else { unreachable!() };
                                    let n = items.len();
                                    items.insert(n - 1, (Ptr { path: { let mut x = p.path.clone(); x.push(P::BoxPtr); x }, ..p.clone() }, ty));
                                    Ok(())
                                }
                            }
                            _ => und("drop of a box"),
                        }
                    }
                    AdtK::Cont(_) => {
                        if let V::Cont { segs, .. } = &v {
                            let segs = segs.clone();
                            let ety = self.cont_elem_ty(ty);
                            for s in segs.iter() {
                                self.check_seg_drop(st, s, ety)?;
                            }
                        }
                        self.set(st, &p, V::Moved)
                    }
                    AdtK::Ident => {
                        // UnsafeCell, Cell, ... drop their content
                        push(st, vec![(p, args.type_at(0))]);
                        Ok(())
                    }
                    AdtK::PtrWrap => Ok(()),
                    AdtK::Other => {
                        if let V::Res(..) = v {
                            // untouched input of a foreign or user type: dropped as a whole
                            return self.set(st, &p, V::Moved);
                        }
                        if let V::Mapped { .. } = v {
                            return self.set(st, &p, V::Moved);
                        }
                        let V::Agg(_, var, fs) = &v else { return und(format!("drop of {v:?}")) };
                        if *var == UNKNOWN_VARIANT {
                            // an element that was replaced, which is dropped by the collection's contract
                            return self.set(st, &p, V::Moved);
                        }
                        let mut it = vec![];
                        for (n, fd) in d.variant((*var).into()).fields.iter().enumerate() {
                            let t = self.field_ty(fd, args)?;
                            let mut q = p.clone();
                            q.path.push(P::F(*var, n as u32));
                            it.push((q, t));
                        }
                        let _ = fs;
                        push(st, it);
                        if let Some(dt) = self.tcx.adt_destructor(d.did()) {
                            let inst = Instance::new_raw(dt.did, args);
                            let b = self.body(inst)?;
                            self.inlined.insert(b.name.clone());
                            let unit = self.tcx.types.unit;
                            let _ = unit;
                            self.push_frame(st, b, vec![V::Ptr(p)], Ret { dest: None, target: None, unwind: UnwindAction::Continue })?;
                        }
                        Ok(())
                    }
                }
            }
            ty::Tuple(l) => {
                if let V::Res(..) = v {
                    return self.set(st, &p, V::Moved);
                }
                let it = l.iter().enumerate().map(|(n, t)| {
                    let mut q = p.clone();
                    q.path.push(P::F(0, n as u32));
                    (q, t)
                });
                let it: Vec<_> = it.collect();
                push(st, it);
                Ok(())
            }
            ty::Closure(_, a) => {
                let it: Vec<_> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .enumerate()
                    .map(|(n, t)| {
                        let mut q = p.clone();
                        q.path.push(P::F(0, n as u32));
                        (q, t)
                    })
                    .collect();
                push(st, it);
                Ok(())
            }
            ty::Array(e, n) => {
                if let V::Res(..) = v {
                    return self.set(st, &p, V::Moved);
                }
                let mut q = p.clone();
                let n = self.const_len(*n)?;
                q.path.push(P::Win(Lin::k(0), n));
                self.drop_range(st, &q, *e)
            }
            ty::Param(_) | ty::Alias(..) => match v {
                V::Res(..) | V::Any | V::Mapped { .. } => self.set(st, &p, V::Moved),
                _ => und(format!("drop of {v:?} at type {ty:?}")),
            },
            _ => und(format!("drop of type {ty:?}")),
        }
    }
    pub fn set(&mut self, st: &mut State<'tcx>, p: &Ptr, x: V<'tcx>) -> R<()> {
        let State { mem, pc, variants, .. } = st;
        let i = &Info { pc, variants };
        let Some(c) = mem.get_mut(&p.a) else { return viol(Cat::Safety, "access to a dead memory location") };
        let mut path = p.path.clone();
        if let Some(P::BoxPtr) = path.last() {
            path.pop();
        }
        let (v, _) = self.nav(i, &mut c.v, c.ty, &path)?;
        *v = x;
        Ok(())
    }
    /// every element of the segment can be dropped (and is initialised)
    fn check_seg_drop(&mut self, st: &mut State<'tcx>, s: &Seg<'tcx>, ety: Ty<'tcx>) -> R<()> {
        if !self.needs_drop(ety) {
            return Ok(());
        }
        if !self.init(inf!(st), &s.val, ety) {
            if self.decide(inf!(st), &Form::le(&s.len, &Lin::k(0)))? {
                return Ok(());
            }
            return viol(Cat::Own, "drop of uninitialised, moved-out or already dropped elements");
        }
        // elements with user-visible destructors of the crate under contract would need a loop
        if self.has_custom_drop(&s.val) {
            return und("drop of elements with their own destructor");
        }
        Ok(())
    }
    fn has_custom_drop(&mut self, v: &V<'tcx>) -> bool {
        match v {
            V::Agg(t, _, fs) => {
                if let ty::Adt(d, _) = t.kind() {
                    if self.tcx.adt_destructor(d.did()).is_some() {
                        return true;
                    }
                }
                fs.iter().any(|f| self.has_custom_drop(f))
            }
            V::Box(b) => self.has_custom_drop(b),
            V::Seq(s) | V::Cont { segs: s, .. } => s.iter().any(|s| self.has_custom_drop(&s.val)),
            _ => false,
        }
    }
    fn drop_range(&mut self, st: &mut State<'tcx>, p: &Ptr, ety: Ty<'tcx>) -> R<()> {
        let Some(P::Win(s, n)) = p.path.last().cloned() else { unreachable!() };
        let segs = {
            let State { mem, pc, variants, .. } = st;
            let i = &Info { pc, variants };
            let Some(c) = mem.get_mut(&p.a) else { return viol(Cat::Safety, "drop of a dead memory location") };
            let (v, vt) = self.nav(i, &mut c.v, c.ty, &p.path[..p.path.len() - 1])?;
            self.force_seq(i, v, vt)?;
            let V::Seq(segs) = v else { return und("drop range") };
            let segs = Rc::make_mut(segs);
            let a = self.split_at(i, segs, &s)?;
            let b = self.split_at(i, segs, &s.add(&n))?;
            let out = segs[a..b].to_vec();
            for g in &mut segs[a..b] {
                g.val = V::Moved;
            }
            self.tidy(i, segs);
            out
        };
        if !self.needs_drop(ety) {
            return Ok(());
        }
        for g in &segs {
            self.check_seg_drop(st, g, ety)?;
        }
        Ok(())
    }
    pub fn push_frame(&mut self, st: &mut State<'tcx>, b: Rc<BodyInfo<'tcx>>, args: Vec<V<'tcx>>, ret: Ret<'tcx>) -> R<()> {
        if st.frames.len() > 64 {
            return und("call depth");
        }
        let uid = self.sym();
        if args.len() != b.body.arg_count {
            return und(format!("argument count of {} ({} given, {} expected)", b.name, args.len(), b.body.arg_count));
        }
        for (l, d) in b.body.local_decls.iter_enumerated() {
            if b.storage.contains(&l.as_u32()) {
                continue;
            }
            let ty = self.norm(d.ty)?;
            st.mem.insert(AllocId::Local(uid, l.as_u32()), Cell { v: V::Uninit, ty });
        }
        for (n, v) in args.into_iter().enumerate() {
            st.mem.get_mut(&AllocId::Local(uid, n as u32 + 1)).unwrap().v = v;
        }
        st.frames.push(Frame { uid, k: FK::Fn { info: b, bb: mir::START_BLOCK, stmt: 0 }, ret });
        Ok(())
    }
}
