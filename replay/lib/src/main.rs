//! Runs the library's mappings on concrete values and compares them with a
//! reference: the search for a concrete input behind a failed obligation, and
//! the bounded stand-in for a function the verifier could not decide.
#![allow(unused)]
mod el;
use el::*;
use funcmap::{FuncMap, TryFuncMap, TypeParam};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::*;
use std::fmt::Debug;
use std::io::Write;
use std::marker::PhantomData;
use std::ops::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::task::Poll;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    None,
    Err(usize),
    Panic(usize),
}
/// how the key of a result is computed from the key of its input
#[derive(Clone, Copy, PartialEq, Debug)]
enum Keys {
    Same,
    Reversed,
    Collapsing,
}
fn new_key(k: u64, m: Keys) -> u64 {
    match m {
        Keys::Same => k,
        Keys::Reversed => 200 - k,
        Keys::Collapsing => k / 4,
    }
}
/// what the function returns; equal keys made by it are the same (which of several
/// equal ones a container keeps is not specified)
fn make_new<A: El, B: El>(a: &A, m: Keys) -> B {
    let k = new_key(a.key(), m);
    B::make(if m == Keys::Collapsing { k } else { a.id() }, k)
}
struct Boom;

struct Ctx {
    out: Option<std::fs::File>,
    filter: Option<String>,
    max: usize,
    evals: u64,
    nontrivial: u64,
    fails: Vec<String>,
    methods: (bool, bool),
    /// the type of the component that is not mapped
    other: &'static str,
}
fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"))
}
thread_local! {
    static TRACE: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

impl Ctx {
    fn note(&mut self, s: &str) {
        if let Some(o) = &mut self.out {
            let _ = o.write_all(format!("{{\"run\":{}}}\n", q(s)).as_bytes());
        }
    }
    fn fail(&mut self, cat: char, case: &str, msg: String) {
        let cat = match cat {
            'T' => "Trace",
            'V' => "Value",
            'O' => "Own",
            'S' => "Safety",
            'P' => "Panic",
            _ => "Other",
        };
        let l = format!("{{\"fail\":{},\"cat\":\"{cat}\",\"msg\":{}}}", q(case), q(&msg));
        if let Some(o) = &mut self.out {
            let _ = o.write_all(format!("{l}\n").as_bytes());
        }
        self.fails.push(l);
    }
}

/// closure state: dropped exactly once with the closure
struct Token(Big);

/// one case with its types erased
struct Case<'a> {
    name: &'a str,
    n: usize,
    a: &'static str,
    b: &'static str,
    sorted: bool,
    /// with a function from (id, key) to key; the trace of the reference
    reference: &'a dyn Fn(Keys, &mut Vec<u64>) -> String,
    real: &'a dyn Fn(Keys, Fault, bool) -> Result<String, u64>,
}

/// decides what call number `i` does
fn step_fault(fault: Fault, i: &mut usize, id: u64) -> Result<(), Big> {
    TRACE.with(|t| t.borrow_mut().push(id));
    let k = *i;
    *i += 1;
    if fault == Fault::Panic(k) {
        std::panic::panic_any(Boom);
    }
    if fault == Fault::Err(k) {
        return Err(Big::make(7000 + k as u64, 0));
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn case<A: El, B: El, X, Y, R>(
    c: &mut Ctx,
    name: &str,
    n: usize,
    sorted: bool,
    make: impl Fn(usize) -> X,
    plain: impl Fn(X, &mut dyn FnMut(A) -> B, Token) -> Y,
    fallible: impl Fn(X, &mut dyn FnMut(A) -> Result<B, Big>, Token) -> Result<Y, Big>,
    reference: impl Fn(X, &mut dyn FnMut(A) -> B) -> R,
    show: impl Fn(Y) -> String,
    show_ref: impl Fn(R) -> String,
) {
    run_case(
        c,
        &Case {
            name,
            n,
            a: A::NAME,
            b: B::NAME,
            sorted,
            reference: &|km, trace| {
                show_ref(reference(make(n), &mut |a: A| {
                    trace.push(a.id());
                    make_new::<A, B>(&a, km)
                }))
            },
            real: &|km, fault, is_try| {
                let x = make(n);
                let token = Token(Big::make(9999, 0));
                let mut i = 0;
                if is_try {
                    fallible(
                        x,
                        &mut |a| {
                            step_fault(fault, &mut i, a.id())?;
                            Ok(make_new::<A, B>(&a, km))
                        },
                        token,
                    )
                    .map(&show)
                    .map_err(|e| e.id())
                } else {
                    Ok(show(plain(
                        x,
                        &mut |a| {
                            let _ = step_fault(fault, &mut i, a.id());
                            make_new::<A, B>(&a, km)
                        },
                        token,
                    )))
                }
            },
        },
    )
}

fn run_case(c: &mut Ctx, case: &Case) {
    let keys: &[Keys] = if case.sorted { &[Keys::Same, Keys::Reversed, Keys::Collapsing] } else { &[Keys::Same] };
    // two hash containers built the same way may iterate differently: compare as sets
    let unordered = case.name.contains("Hash") || case.name.contains("hash_");
    for &km in keys {
        reset();
        let mut t = vec![];
        drop((case.reference)(km, &mut t));
        let calls = t.len();
        let mut faults = vec![Fault::None];
        for k in 0..calls {
            faults.push(Fault::Err(k));
            faults.push(Fault::Panic(k));
        }
        for &fault in &faults {
            for is_try in [false, true] {
                if matches!(fault, Fault::Err(_)) && !is_try {
                    continue;
                }
                if !(if is_try { c.methods.1 } else { c.methods.0 }) {
                    continue;
                }
                let label = format!(
                    "{} on {} with A={}, B={}, other={}, n={}, keys={km:?}, fault={fault:?}",
                    match (is_try, over()) {
                        (true, false) => "try_func_map",
                        (false, false) => "func_map",
                        (true, true) => "try_func_map_over",
                        (false, true) => "func_map_over",
                    },
                    case.name,
                    case.a,
                    case.b,
                    c.other,
                    case.n
                );
                if let Some(f) = &c.filter {
                    if !label.contains(f.as_str()) {
                        continue;
                    }
                }
                c.note(&label);
                c.evals += 1;
                if calls > 0 {
                    c.nontrivial += 1;
                }
                reset();
                let mut want_trace = vec![];
                let want = (case.reference)(km, &mut want_trace);
                reset();
                TRACE.with(|t| t.borrow_mut().clear());
                PANICS.with(|t| t.borrow_mut().clear());
                let got = catch_unwind(AssertUnwindSafe(|| (case.real)(km, fault, is_try)));
                let trace = TRACE.with(|t| t.borrow().clone());
                let stop = match fault {
                    Fault::None => want_trace.len(),
                    Fault::Err(k) | Fault::Panic(k) => k + 1,
                };
                let ok_trace = if case.a == "Zst" {
                    trace.len() == stop
                } else if unordered {
                    let mut s = trace.clone();
                    s.sort();
                    s.dedup();
                    s.len() == trace.len() && trace.len() == stop && trace.iter().all(|t| want_trace.contains(t))
                } else {
                    trace == want_trace[..stop]
                };
                if !ok_trace {
                    c.fail('T', &label, format!("closure calls {trace:?}, expected {:?}", &want_trace[..stop]));
                }
                match (&got, fault) {
                    (Ok(Ok(s)), Fault::None) => {
                        // which of several equal keys stays depends on the hash order
                        let free = unordered && (km == Keys::Collapsing || case.a == "Zst" || case.b == "Zst");
                        if *s != want && !free {
                            c.fail('V', &label, format!("result {s}, expected {want}"));
                        }
                    }
                    (Ok(Err(e)), Fault::Err(k)) => {
                        if *e != 7000 + k as u64 {
                            c.fail('V', &label, format!("error of call {}, expected that of call {k}", e.wrapping_sub(7000)));
                        }
                    }
                    (Err(p), Fault::Panic(_)) if p.is::<Boom>() => {}
                    (Err(_), _) => {
                        let m = PANICS.with(|t| t.borrow().join("; "));
                        c.fail('P', &label, format!("the library panicked: {m}"));
                    }
                    (Ok(r), _) => c.fail(
                        'V',
                        &label,
                        format!(
                            "returned {r:?}, expected {}",
                            match fault {
                                Fault::None => format!("Ok({want})"),
                                Fault::Err(k) => format!("the error of call {k}"),
                                Fault::Panic(_) => "the panic to propagate".into(),
                            }
                        ),
                    ),
                }
                drop(got);
                for (cat, m) in leftovers() {
                    c.fail(cat, &label, m);
                }
            }
        }
    }
}

fn dbg<T: Debug>(x: T) -> String {
    format!("{x:?}")
}
fn sorted<T: Debug>(x: impl IntoIterator<Item = T>) -> String {
    let mut v: Vec<String> = x.into_iter().map(|e| format!("{e:?}")).collect();
    v.sort();
    format!("{v:?}")
}
fn show_cell<T: Debug>(x: Cell<T>) -> String {
    dbg(x.into_inner())
}
fn show_unsafecell<T: Debug>(x: UnsafeCell<T>) -> String {
    dbg(x.into_inner())
}
fn show_phantomdata<T>(_: PhantomData<T>) -> String {
    String::new()
}
fn show_iter<T: Debug>(x: impl Iterator<Item = T>) -> String {
    dbg(x.collect::<Vec<T>>())
}
#[cfg(feature = "alloc")]
fn show_heap<T: Debug>(x: BinaryHeap<T>) -> String {
    sorted(x.into_vec())
}
/// unmapped component
fn other<O: El>(i: usize) -> O {
    O::make(1000 + i as u64, i as u64)
}
fn el<A: El>(i: usize) -> A {
    A::make(i as u64 + 1, 3 * (i as u64 + 1) % 40)
}
/// pairwise different keys, in an order that is not the insertion order
fn els<A: El>(n: usize) -> impl Iterator<Item = A> {
    (0..n).map(|i| A::make(i as u64 + 1, ((i * 7 + 3) % 23) as u64))
}

static OVER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// the variants that name the marker?
fn over() -> bool {
    OVER.load(std::sync::atomic::Ordering::Relaxed)
}

static LAWS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn laws() -> bool {
    LAWS.load(std::sync::atomic::Ordering::Relaxed)
}
/// makes the keys of two elements equal, keeping their order; equal elements are the same
/// (which of several equal ones a container keeps is not specified)
fn halve<A: El, B: El>(a: A) -> B {
    B::make(a.key() / 4, a.key() / 4)
}
/// functions of the element alone
fn up<A: El, B: El>(a: A) -> B {
    B::make(a.id() * 3 + 1, 200 - a.key())
}
fn good<T>(x: T) -> Result<T, Big> {
    Ok(x)
}
fn law_case(c: &mut Ctx, what: &str, name: &str, n: usize, a: &str, b: &str, sides: &mut dyn FnMut(bool) -> String) {
    let label = format!("{what} on {name} with A={a}, B={b}, other={}, n={n}", c.other);
    if let Some(f) = &c.filter {
        if !label.contains(f.as_str()) {
            return;
        }
    }
    c.note(&label);
    c.evals += 1;
    if n > 0 {
        c.nontrivial += 1;
    }
    reset();
    PANICS.with(|t| t.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| (sides(true), sides(false))));
    match r {
        Ok((x, y)) => {
            if x != y {
                c.fail('V', &label, format!("{x} on one side, {y} on the other"));
            }
        }
        Err(_) => {
            let m = PANICS.with(|t| t.borrow().join("; "));
            c.fail('P', &label, format!("the library panicked: {m}"));
        }
    }
    reset();
}

macro_rules! run {
    ($c:ident, $A:ident, $B:ident, $n:expr, $name:expr, $p:literal, $sorted:expr, $make:expr, $reference:expr, $show:expr) => {
        if laws() {
            // functions that make different keys equal replace elements in an order of the container's own
            let injective = !$sorted || $A::NAME != "Zst" && $B::NAME != "Zst";
            let (name, a, b) = (concat!($name, " (parameter ", stringify!($p), ")"), $A::NAME, $B::NAME);
            for is_try in [false, true] {
                if !(if is_try { $c.methods.1 } else { $c.methods.0 }) {
                    continue;
                }
                let m = if is_try { "try_func_map" } else { "func_map" };
                law_case($c, &format!("{m}, identity,"), name, $n, a, b, &mut |left| {
                    let x = ($make)($n);
                    if !left {
                        return ($show)(x);
                    }
                    if is_try {
                        ($show)(TryFuncMap::<_, _, TypeParam<$p>>::try_func_map(x, |v: $A| good::<$A>(v)).unwrap())
                    } else {
                        ($show)(FuncMap::<_, _, TypeParam<$p>>::func_map(x, |v: $A| -> $A { v }))
                    }
                });
                if !injective {
                    continue;
                }
                law_case($c, &format!("{m}, composition,"), name, $n, a, b, &mut |left| {
                    let x = ($make)($n);
                    let (f, g) = (up::<$A, $B>, up::<$B, $A>);
                    match (is_try, left) {
                        (true, true) => {
                            let y = TryFuncMap::<_, _, TypeParam<$p>>::try_func_map(x, |v: $A| good(f(v))).unwrap();
                            ($show)(TryFuncMap::<_, _, TypeParam<$p>>::try_func_map(y, |v: $B| good(g(v))).unwrap())
                        }
                        (true, false) => ($show)(TryFuncMap::<_, _, TypeParam<$p>>::try_func_map(x, |v: $A| good(g(f(v)))).unwrap()),
                        (false, true) => {
                            let y = FuncMap::<_, _, TypeParam<$p>>::func_map(x, |v: $A| f(v));
                            ($show)(FuncMap::<_, _, TypeParam<$p>>::func_map(y, |v: $B| g(v)))
                        }
                        (false, false) => ($show)(FuncMap::<_, _, TypeParam<$p>>::func_map(x, |v: $A| g(f(v)))),
                    }
                });
            }
            let ordered = !name.contains("Hash") && !name.contains("hash_");
            if $c.methods.1 && $c.methods.0 && $sorted && ordered {
                law_case($c, "try_func_map, never failing, with coinciding keys,", name, $n, a, b, &mut |left| {
                    let x = ($make)($n);
                    if left {
                        ($show)(TryFuncMap::<_, _, TypeParam<$p>>::try_func_map(x, |v: $A| good(halve::<$A, $B>(v))).unwrap())
                    } else {
                        ($show)(FuncMap::<_, _, TypeParam<$p>>::func_map(x, |v: $A| halve::<$A, $B>(v)))
                    }
                });
            }
            if $c.methods.1 && $c.methods.0 && injective {
                law_case($c, "try_func_map, never failing,", name, $n, a, b, &mut |left| {
                    let x = ($make)($n);
                    if left {
                        ($show)(TryFuncMap::<_, _, TypeParam<$p>>::try_func_map(x, |v: $A| good(up::<$A, $B>(v))).unwrap())
                    } else {
                        ($show)(FuncMap::<_, _, TypeParam<$p>>::func_map(x, |v: $A| up::<$A, $B>(v)))
                    }
                });
            }
        } else {
        case::<$A, $B, _, _, _>(
            $c,
            concat!($name, " (parameter ", stringify!($p), ")"),
            $n,
            $sorted,
            $make,
            |x, f, t| {
                let f = move |a: $A| -> $B { let _ = &t.0; f(a) };
                if over() { FuncMap::<_, _, TypeParam<$p>>::func_map_over::<TypeParam<$p>, _>(x, f) } else { FuncMap::<_, _, TypeParam<$p>>::func_map(x, f) }
            },
            |x, f, t| {
                let f = move |a: $A| -> Result<$B, Big> { let _ = &t.0; f(a) };
                if over() { TryFuncMap::<_, _, TypeParam<$p>>::try_func_map_over::<TypeParam<$p>, _, _>(x, f) } else { TryFuncMap::<_, _, TypeParam<$p>>::try_func_map(x, f) }
            },
            $reference,
            $show,
            $show,
        )
        }
    };
}

macro_rules! comm {
    ($c:ident, $A:ident, $B:ident, $O:ident, $P:ident, $n:expr, $name:expr, $make:expr, $show:expr) => {
        // which of two equal keys a hashed container keeps depends on its order
        let hashed = $name.contains("Hash") || $name.contains("hash_");
        if $A::NAME != "Zst" && $B::NAME != "Zst" {
            for (is_try, collapse) in [(false, false), (true, false), (false, !hashed), (true, !hashed)] {
                let m = if is_try { "try_func_map" } else { "func_map" };
                let note = if collapse { " with coinciding keys" } else { "" };
                let a = format!("({}, {})", $A::NAME, $O::NAME);
                let b = format!("({}, {})", $B::NAME, $P::NAME);
                law_case($c, &format!("{m}, commutation{note},"), $name, $n, &a, &b, &mut |left| {
                    let x = ($make)($n);
                    let (f, g) = (|v: $A| if collapse { halve::<$A, $B>(v) } else { up::<$A, $B>(v) }, |v: $O| up::<$O, $P>(v));
                    match (is_try, left) {
                        (false, true) => {
                            let y = FuncMap::<_, _, TypeParam<0>>::func_map(x, f);
                            ($show)(FuncMap::<_, _, TypeParam<1>>::func_map(y, g))
                        }
                        (false, false) => {
                            let y = FuncMap::<_, _, TypeParam<1>>::func_map(x, g);
                            ($show)(FuncMap::<_, _, TypeParam<0>>::func_map(y, f))
                        }
                        (true, true) => {
                            let y = TryFuncMap::<_, _, TypeParam<0>>::try_func_map(x, |v| good(f(v))).unwrap();
                            ($show)(TryFuncMap::<_, _, TypeParam<1>>::try_func_map(y, |v| good(g(v))).unwrap())
                        }
                        (true, false) => {
                            let y = TryFuncMap::<_, _, TypeParam<1>>::try_func_map(x, |v| good(g(v))).unwrap();
                            ($show)(TryFuncMap::<_, _, TypeParam<0>>::try_func_map(y, |v| good(f(v))).unwrap())
                        }
                    }
                });
            }
        }
    };
}

fn commute<A: El, B: El, O: El, P: El>(c: &mut Ctx) {
    for n in 0..2 {
        comm!(c, A, B, O, P, n, "Result", |n| if n > 0 { Ok(el::<A>(0)) } else { Err(other::<O>(1)) }, dbg);
        comm!(c, A, B, O, P, n, "ControlFlow", |n| if n > 0 { ControlFlow::Break(el::<A>(0)) } else { ControlFlow::Continue(other::<O>(1)) }, dbg);
    }
    #[cfg(feature = "alloc")]
    for n in 0..c.max {
        comm!(c, A, B, O, P, n, "BTreeMap", |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<BTreeMap<A, O>>(), dbg);
        comm!(c, A, B, O, P, n, "btree_map::IntoIter", |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<BTreeMap<A, O>>().into_iter(), show_iter);
    }
    #[cfg(feature = "std")]
    for n in 0..c.max {
        comm!(c, A, B, O, P, n, "HashMap", |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<HashMap<A, O>>(), sorted);
        comm!(c, A, B, O, P, n, "hash_map::IntoIter", |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<HashMap<A, O>>().into_iter(), sorted);
    }
}

fn arr<A: El, B: El, const N: usize>(c: &mut Ctx) {
    run!(c, A, B, N, "[A; N]", 0, false, |_| -> [A; N] { std::array::from_fn(el) }, |x: [A; N], f: &mut dyn FnMut(A) -> B| -> Vec<B> { x.into_iter().map(f).collect() }, dbg);
}

fn all<A: El, B: El, O: El, P: El>(c: &mut Ctx) {
    c.other = O::NAME;
    if std::env::args().any(|a| a == "--commute") {
        return commute::<A, B, O, P>(c);
    }
    arr::<A, B, 0>(c);
    arr::<A, B, 1>(c);
    arr::<A, B, 2>(c);
    arr::<A, B, 3>(c);
    arr::<A, B, 4>(c);
    arr::<A, B, 5>(c);
    arr::<A, B, 6>(c);
    arr::<A, B, 7>(c);
    arr::<A, B, 8>(c);
    arr::<A, B, 9>(c);
    arr::<A, B, 16>(c);
    arr::<A, B, 17>(c);
    arr::<A, B, 32>(c);
    arr::<A, B, 33>(c);
    core_types::<A, B, O>(c);
    #[cfg(feature = "alloc")]
    alloc_types::<A, B, O>(c);
    #[cfg(feature = "std")]
    hashed_types::<A, B, O>(c);
}

type F<'a, A, B> = &'a mut dyn FnMut(A) -> B;

#[cfg(feature = "alloc")]
fn alloc_types<A: El, B: El, O: El>(c: &mut Ctx) {
    for n in 0..c.max {
        run!(c, A, B, n, "Vec", 0, false, |n| els::<A>(n).collect::<Vec<A>>(), |x: Vec<A>, f: F<A, B>| x.into_iter().map(f).collect::<Vec<B>>(), dbg);
        run!(c, A, B, n, "vec::IntoIter", 0, false, |n| els::<A>(n).collect::<Vec<A>>().into_iter(), |x: std::vec::IntoIter<A>, f: F<A, B>| x.map(f).collect::<Vec<B>>().into_iter(), show_iter);
        // partly consumed
        run!(c, A, B, n, "vec::IntoIter advanced from both ends", 0, false, |n| { let mut i = els::<A>(n + 2).collect::<Vec<A>>().into_iter(); drop(i.next()); drop(i.next_back()); i }, |x: std::vec::IntoIter<A>, f: F<A, B>| x.map(f).collect::<Vec<B>>().into_iter(), show_iter);
        run!(c, A, B, n, "LinkedList", 0, false, |n| els::<A>(n).collect::<LinkedList<A>>(), |x: LinkedList<A>, f: F<A, B>| x.into_iter().map(f).collect::<LinkedList<B>>(), dbg);
        run!(c, A, B, n, "linked_list::IntoIter", 0, false, |n| els::<A>(n).collect::<LinkedList<A>>().into_iter(), |x: linked_list::IntoIter<A>, f: F<A, B>| x.map(f).collect::<LinkedList<B>>().into_iter(), show_iter);
        run!(c, A, B, n, "VecDeque", 0, false, |n| els::<A>(n).collect::<VecDeque<A>>(), |x: VecDeque<A>, f: F<A, B>| x.into_iter().map(f).collect::<VecDeque<B>>(), dbg);
        run!(c, A, B, n, "VecDeque wrapped around", 0, false, |n| { let mut d = VecDeque::with_capacity(n + 3); for (i, e) in els::<A>(n).enumerate() { if i % 2 == 0 { d.push_back(e) } else { d.push_front(e) } } d }, |x: VecDeque<A>, f: F<A, B>| x.into_iter().map(f).collect::<VecDeque<B>>(), dbg);
        run!(c, A, B, n, "vec_deque::IntoIter", 0, false, |n| els::<A>(n).collect::<VecDeque<A>>().into_iter(), |x: vec_deque::IntoIter<A>, f: F<A, B>| x.map(f).collect::<VecDeque<B>>().into_iter(), show_iter);
        run!(c, A, B, n, "BTreeSet", 0, true, |n| els::<A>(n).collect::<BTreeSet<A>>(), |x: BTreeSet<A>, f: F<A, B>| x.into_iter().map(f).collect::<BTreeSet<B>>(), dbg);
        run!(c, A, B, n, "btree_set::IntoIter", 0, true, |n| els::<A>(n).collect::<BTreeSet<A>>().into_iter(), |x: btree_set::IntoIter<A>, f: F<A, B>| x.map(f).collect::<BTreeSet<B>>().into_iter(), show_iter);
        run!(c, A, B, n, "BTreeMap keys", 0, true, |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<BTreeMap<A, O>>(), |x: BTreeMap<A, O>, f: F<A, B>| x.into_iter().map(|(k, v)| (f(k), v)).collect::<BTreeMap<B, O>>(), dbg);
        run!(c, A, B, n, "BTreeMap values", 1, false, |n| els::<A>(n).enumerate().map(|(i, a)| (other::<O>(i), a)).collect::<BTreeMap<O, A>>(), |x: BTreeMap<O, A>, f: F<A, B>| x.into_iter().map(|(k, v)| (k, f(v))).collect::<BTreeMap<O, B>>(), dbg);
        run!(c, A, B, n, "btree_map::IntoIter keys", 0, true, |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<BTreeMap<A, O>>().into_iter(), |x: btree_map::IntoIter<A, O>, f: F<A, B>| x.map(|(k, v)| (f(k), v)).collect::<BTreeMap<B, O>>().into_iter(), show_iter);
        run!(c, A, B, n, "btree_map::IntoIter values", 1, false, |n| els::<A>(n).enumerate().map(|(i, a)| (other::<O>(i), a)).collect::<BTreeMap<O, A>>().into_iter(), |x: btree_map::IntoIter<O, A>, f: F<A, B>| x.map(|(k, v)| (k, f(v))).collect::<BTreeMap<O, B>>().into_iter(), show_iter);
        run!(c, A, B, n, "BinaryHeap", 0, true, |n| els::<A>(n).collect::<BinaryHeap<A>>(), |x: BinaryHeap<A>, f: F<A, B>| x.into_iter().map(f).collect::<BinaryHeap<B>>(), show_heap);
        run!(c, A, B, n, "binary_heap::IntoIter", 0, true, |n| els::<A>(n).collect::<BinaryHeap<A>>().into_iter(), |x: binary_heap::IntoIter<A>, f: F<A, B>| x.map(f).collect::<BinaryHeap<B>>().into_iter(), sorted);
    }
    run!(c, A, B, 1, "Box", 0, false, |_| Box::new(el::<A>(0)), |x: Box<A>, f: F<A, B>| Box::new(f(*x)), dbg);
}

#[cfg(feature = "std")]
fn hashed_types<A: El, B: El, O: El>(c: &mut Ctx) {
    for n in 0..c.max {
        run!(c, A, B, n, "HashSet", 0, true, |n| els::<A>(n).collect::<HashSet<A>>(), |x: HashSet<A>, f: F<A, B>| x.into_iter().map(f).collect::<HashSet<B>>(), sorted);
        run!(c, A, B, n, "hash_set::IntoIter", 0, true, |n| els::<A>(n).collect::<HashSet<A>>().into_iter(), |x: hash_set::IntoIter<A>, f: F<A, B>| x.map(f).collect::<HashSet<B>>().into_iter(), sorted);
        run!(c, A, B, n, "HashMap keys", 0, true, |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<HashMap<A, O>>(), |x: HashMap<A, O>, f: F<A, B>| x.into_iter().map(|(k, v)| (f(k), v)).collect::<HashMap<B, O>>(), sorted);
        run!(c, A, B, n, "HashMap values", 1, false, |n| els::<A>(n).enumerate().map(|(i, a)| (other::<O>(i), a)).collect::<HashMap<O, A>>(), |x: HashMap<O, A>, f: F<A, B>| x.into_iter().map(|(k, v)| (k, f(v))).collect::<HashMap<O, B>>(), sorted);
        run!(c, A, B, n, "hash_map::IntoIter keys", 0, true, |n| els::<A>(n).enumerate().map(|(i, a)| (a, other::<O>(i))).collect::<HashMap<A, O>>().into_iter(), |x: hash_map::IntoIter<A, O>, f: F<A, B>| x.map(|(k, v)| (f(k), v)).collect::<HashMap<B, O>>().into_iter(), sorted);
        run!(c, A, B, n, "hash_map::IntoIter values", 1, false, |n| els::<A>(n).enumerate().map(|(i, a)| (other::<O>(i), a)).collect::<HashMap<O, A>>().into_iter(), |x: hash_map::IntoIter<O, A>, f: F<A, B>| x.map(|(k, v)| (k, f(v))).collect::<HashMap<O, B>>().into_iter(), sorted);
    }
}

fn core_types<A: El, B: El, O: El>(c: &mut Ctx) {
    run!(c, A, B, 1, "Cell", 0, false, |_| Cell::new(el::<A>(0)), |x: Cell<A>, f: F<A, B>| Cell::new(f(x.into_inner())), show_cell);
    run!(c, A, B, 1, "RefCell", 0, false, |_| RefCell::new(el::<A>(0)), |x: RefCell<A>, f: F<A, B>| RefCell::new(f(x.into_inner())), dbg);
    run!(c, A, B, 1, "UnsafeCell", 0, false, |_| UnsafeCell::new(el::<A>(0)), |x: UnsafeCell<A>, f: F<A, B>| UnsafeCell::new(f(x.into_inner())), show_unsafecell);
    run!(c, A, B, 0, "PhantomData", 0, false, |_| PhantomData::<A>, |_: PhantomData<A>, _: F<A, B>| PhantomData::<B>, show_phantomdata);
    for n in 0..3 {
        run!(c, A, B, n, "Bound", 0, false, |n| match n { 0 => Bound::Included(el::<A>(0)), 1 => Bound::Excluded(el(0)), _ => Bound::Unbounded }, |x: Bound<A>, f: F<A, B>| match x { Bound::Included(x) => Bound::Included(f(x)), Bound::Excluded(x) => Bound::Excluded(f(x)), Bound::Unbounded => Bound::Unbounded }, dbg);
    }
    for n in 0..2 {
        run!(c, A, B, n, "Option", 0, false, |n| (n > 0).then(|| el::<A>(0)), |x: Option<A>, f: F<A, B>| x.map(f), dbg);
        run!(c, A, B, n, "option::IntoIter", 0, false, |n| (n > 0).then(|| el::<A>(0)).into_iter(), |mut x: std::option::IntoIter<A>, f: F<A, B>| x.next().map(f).into_iter(), show_iter);
        run!(c, A, B, n, "result::IntoIter", 0, false, |n| (n > 0).then(|| el::<A>(0)).ok_or(()).into_iter(), |mut x: std::result::IntoIter<A>, f: F<A, B>| x.next().map(f).ok_or(()).into_iter(), show_iter);
        run!(c, A, B, n, "Poll", 0, false, |n| if n > 0 { Poll::Ready(el::<A>(0)) } else { Poll::Pending }, |x: Poll<A>, f: F<A, B>| x.map(f), dbg);
        run!(c, A, B, n, "Result", 0, false, |n| if n > 0 { Ok(el::<A>(0)) } else { Err(other::<O>(1)) }, |x: Result<A, O>, f: F<A, B>| x.map(f), dbg);
        run!(c, A, B, n, "Result", 1, false, |n| if n > 0 { Err(el::<A>(0)) } else { Ok(other::<O>(1)) }, |x: Result<O, A>, f: F<A, B>| x.map_err(f), dbg);
        run!(c, A, B, n, "ControlFlow", 0, false, |n| if n > 0 { ControlFlow::Break(el::<A>(0)) } else { ControlFlow::Continue(other::<O>(1)) }, |x: ControlFlow<A, O>, f: F<A, B>| match x { ControlFlow::Break(x) => ControlFlow::Break(f(x)), ControlFlow::Continue(x) => ControlFlow::Continue(x) }, dbg);
        run!(c, A, B, n, "ControlFlow", 1, false, |n| if n > 0 { ControlFlow::Continue(el::<A>(0)) } else { ControlFlow::Break(other::<O>(1)) }, |x: ControlFlow<O, A>, f: F<A, B>| match x { ControlFlow::Continue(x) => ControlFlow::Continue(f(x)), ControlFlow::Break(x) => ControlFlow::Break(x) }, dbg);
    }
    run!(c, A, B, 2, "Range", 0, false, |_| el::<A>(0)..el(1), |x: Range<A>, f: F<A, B>| f(x.start)..f(x.end), dbg);
    run!(c, A, B, 1, "RangeFrom", 0, false, |_| el::<A>(0).., |x: RangeFrom<A>, f: F<A, B>| f(x.start).., dbg);
    run!(c, A, B, 2, "RangeInclusive", 0, false, |_| el::<A>(0)..=el(1), |x: RangeInclusive<A>, f: F<A, B>| { let (s, e) = x.into_inner(); f(s)..=f(e) }, dbg);
    run!(c, A, B, 1, "RangeTo", 0, false, |_| ..el::<A>(0), |x: RangeTo<A>, f: F<A, B>| ..f(x.end), dbg);
    run!(c, A, B, 1, "RangeToInclusive", 0, false, |_| ..=el::<A>(0), |x: RangeToInclusive<A>, f: F<A, B>| ..=f(x.end), dbg);
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if !i.payload().is::<Boom>() {
            PANICS.with(|p| p.borrow_mut().push(i.to_string()));
        }
    }));
    let arg = |k: &str| std::env::args().skip_while(|a| a != k).nth(1);
    OVER.store(std::env::args().any(|a| a == "--over"), std::sync::atomic::Ordering::Relaxed);
    LAWS.store(std::env::args().any(|a| a == "--laws"), std::sync::atomic::Ordering::Relaxed);
    let mut c = Ctx {
        out: arg("--log").map(|p| std::fs::File::create(p).unwrap()),
        filter: arg("--case"),
        max: arg("--max").and_then(|s| s.parse().ok()).unwrap_or(7),
        evals: 0,
        nontrivial: 0,
        fails: vec![],
        other: "",
        methods: (arg("--method").as_deref() != Some("try_func_map"), arg("--method").as_deref() != Some("func_map")),
    };
    // mapped from, to; the other component, and what commutation maps it to
    all::<Big, Big, Big, Plain>(&mut c);
    all::<Big, Plain, Plain, Big>(&mut c);
    all::<Plain, Big, Big, Big>(&mut c);
    all::<Plain, Plain, Plain, Plain>(&mut c);
    all::<Plain, Plain, Big, Plain>(&mut c);
    all::<Big, Big, Plain, Big>(&mut c);
    all::<Zst, Zst, Big, Plain>(&mut c);
    all::<Zst, Big, Plain, Big>(&mut c);
    all::<Big, Zst, Big, Zst>(&mut c);
    println!("{{\"evaluations\":{},\"nontrivial\":{},\"fails\":[{}]}}", c.evals, c.nontrivial, c.fails[..c.fails.len().min(50)].join(","));
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}
