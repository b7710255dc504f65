//! Symbolic values, memory and states.
use crate::term::*;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{BasicBlock, Body, UnwindAction};
use rustc_middle::ty::{Instance, Ty};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// variant index of an enum value nothing is known about
pub const UNKNOWN_VARIANT: u32 = u32::MAX - 3;

/// Path element inside an allocation.
#[derive(Clone, Debug, PartialEq)]
pub enum P {
    F(u32, u32),
    Ix(Lin),
    /// an array-typed view of `len` elements starting at `start`
    Win(Lin, Lin),
    BoxD,
    /// the pointer stored in a box (pseudo field)
    BoxPtr,
    /// a zero-sized pseudo field
    Zst,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum AllocId {
    Local(u32, u32),
    Heap(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ptr {
    pub a: AllocId,
    pub path: Vec<P>,
    pub meta: Option<Lin>,
}

#[derive(Clone, Debug)]
pub struct Seg<'tcx> {
    pub len: Lin,
    pub var: u32,
    pub val: V<'tcx>,
}

#[derive(Clone, Debug)]
pub enum V<'tcx> {
    Uninit,
    Moved,
    Any,
    Int(Lin),
    Bool(Form),
    Res(T, Ty<'tcx>),
    Agg(Ty<'tcx>, u32, Rc<Vec<V<'tcx>>>),
    Box(Rc<V<'tcx>>),
    Ptr(Ptr),
    Seq(Rc<Vec<Seg<'tcx>>>),
    /// modelled container or iterator; `built`: the elements are in insertion order of a freshly built map/set/heap
    Cont { kind: DefId, built: bool, segs: Rc<Vec<Seg<'tcx>>> },
    /// result of a nested mapping over occurrences `k` of `src`, described by its contract
    Mapped { src: T, k: String, segs: Rc<Vec<Seg<'tcx>>>, ty: Ty<'tcx>, prev: Option<Rc<V<'tcx>>> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Ok,
    Err,
    Unwind,
}

#[derive(Clone, Debug)]
pub enum TItem<'tcx> {
    Ev { f: T, arg: V<'tcx>, out: Outcome },
    Loop { count: Lin, var: u32, body: Vec<TItem<'tcx>> },
}

pub fn subst_segs<'tcx>(s: &[Seg<'tcx>], u: &Sub) -> Vec<Seg<'tcx>> {
    s.iter().map(|g| Seg { len: g.len.subst(u), var: g.var, val: g.val.subst(u) }).collect()
}
impl Subst for P {
    fn subst(&self, s: &Sub) -> P {
        match self {
            P::Ix(l) => P::Ix(l.subst(s)),
            P::Win(a, b) => P::Win(a.subst(s), b.subst(s)),
            p => p.clone(),
        }
    }
}
impl Subst for Ptr {
    fn subst(&self, s: &Sub) -> Ptr {
        Ptr { a: self.a, path: self.path.iter().map(|p| p.subst(s)).collect(), meta: self.meta.as_ref().map(|m| m.subst(s)) }
    }
}
impl<'tcx> Subst for V<'tcx> {
    fn subst(&self, s: &Sub) -> V<'tcx> {
        match self {
            V::Uninit | V::Moved | V::Any => self.clone(),
            V::Int(l) => V::Int(l.subst(s)),
            V::Bool(f) => V::Bool(f.subst(s)),
            V::Res(t, ty) => V::Res(t.subst(s), *ty),
            V::Agg(ty, v, fs) => V::Agg(*ty, *v, Rc::new(fs.iter().map(|x| x.subst(s)).collect())),
            V::Box(b) => V::Box(Rc::new(b.subst(s))),
            V::Ptr(p) => V::Ptr(p.subst(s)),
            V::Seq(g) => V::Seq(Rc::new(subst_segs(g, s))),
            V::Cont { kind, built, segs } => V::Cont { kind: *kind, built: *built, segs: Rc::new(subst_segs(segs, s)) },
            V::Mapped { src, k, segs, ty, prev } => {
                let prev = prev.as_ref().map(|p| Rc::new(p.subst(s)));
                V::Mapped { src: src.subst(s), k: k.clone(), segs: Rc::new(subst_segs(segs, s)), ty: *ty, prev }
            }
        }
    }
}
impl<'tcx> Subst for TItem<'tcx> {
    fn subst(&self, s: &Sub) -> Self {
        match self {
            TItem::Ev { f, arg, out } => TItem::Ev { f: f.subst(s), arg: arg.subst(s), out: *out },
            TItem::Loop { count, var, body } => {
                TItem::Loop { count: count.subst(s), var: *var, body: body.iter().map(|b| b.subst(s)).collect() }
            }
        }
    }
}

/// A code location to return to.
#[derive(Clone, Debug)]
pub struct Ret<'tcx> {
    pub dest: Option<(Ptr, Ty<'tcx>)>,
    pub target: Option<BasicBlock>,
    pub unwind: UnwindAction,
}

pub struct BodyInfo<'tcx> {
    pub body: Body<'tcx>,
    pub name: String,
    pub inst: Instance<'tcx>,
    /// loop header -> blocks of the loop
    pub loops: BTreeMap<BasicBlock, BTreeSet<BasicBlock>>,
    /// locals with explicit storage statements
    pub storage: BTreeSet<u32>,
}

#[derive(Clone)]
pub enum FK<'tcx> {
    Fn { info: Rc<BodyInfo<'tcx>>, bb: BasicBlock, stmt: usize },
    /// pending drops; `then_unwind`: resume unwinding afterwards
    Drop { items: Vec<(Ptr, Ty<'tcx>)>, then_unwind: bool },
    /// temporary holding a closure called through `call_once`
    Once { ty: Ty<'tcx> },
}

#[derive(Clone)]
pub struct Frame<'tcx> {
    pub uid: u32,
    pub k: FK<'tcx>,
    pub ret: Ret<'tcx>,
}

#[derive(Clone)]
pub struct Cell<'tcx> {
    pub v: V<'tcx>,
    pub ty: Ty<'tcx>,
}

#[derive(Clone)]
pub struct State<'tcx> {
    pub frames: Vec<Frame<'tcx>>,
    pub mem: BTreeMap<AllocId, Cell<'tcx>>,
    pub pc: Vec<Form>,
    pub variants: BTreeMap<T, u32>,
    pub trace: Vec<TItem<'tcx>>,
    pub unwinding: bool,
    /// the current unwinding was started by something other than the code under contract panicking itself
    pub unwind_ok: bool,
    pub steps: u64,
}

pub enum Alt {
    Assume(Form),
    Variant(T, u32),
}

pub enum Stop {
    Split(Vec<Alt>),
    Viol { cat: Cat, msg: String },
    Und(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Cat {
    /// order / number / arguments of closure calls
    Trace,
    /// returned value
    Value,
    /// ownership: leaks, double drops
    Own,
    /// memory safety / undefined behaviour
    Safety,
    /// panic or abort of the code itself
    Panic,
    /// non-termination
    Term,
}
