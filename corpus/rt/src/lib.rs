//! Run time of the generated programs: tokens that account for their own lives, bounds to use in definitions,
//! and the comparison of a mapping with what is due.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LIVE: RefCell<BTreeMap<(usize, u32), i32>> = RefCell::new(BTreeMap::new());
    static BAD: RefCell<Vec<String>> = RefCell::new(vec![]);
}

/// a value of the I-th type parameter
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Tok<const I: usize>(u32);
pub fn t<const I: usize>(n: u32) -> Tok<I> {
    LIVE.with(|l| *l.borrow_mut().entry((I, n)).or_insert(0) += 1);
    Tok(n)
}
impl<const I: usize> Debug for Tok<I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "t{}#{}", I, self.0)
    }
}
impl<const I: usize> Clone for Tok<I> {
    fn clone(&self) -> Self {
        t(self.0)
    }
}
impl<const I: usize> Default for Tok<I> {
    fn default() -> Self {
        t(4242)
    }
}
impl<const I: usize> std::fmt::Display for Tok<I> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<const I: usize> Drop for Tok<I> {
    fn drop(&mut self) {
        LIVE.with(|l| {
            let mut l = l.borrow_mut();
            let c = l.entry((I, self.0)).or_insert(0);
            *c -= 1;
            if *c < 0 {
                BAD.with(|b| b.borrow_mut().push(format!("t{}#{} dropped twice", I, self.0)));
            }
        })
    }
}
#[derive(PartialEq, Eq, Debug)]
pub struct Er(pub u32);

/// call the variants that name the marker?
pub fn over() -> bool {
    std::env::var_os("RT_OVER").is_some()
}

pub trait Tr0 {}
pub trait Tr1<X: ?Sized> {}
pub trait As {
    type Out;
}
pub trait Lt<'a> {}
pub trait Lg<'a> {}
impl<'a, T: ?Sized> Lg<'a> for T {}
pub trait Gen<const N: usize> {}
pub trait Two<X, Y> {}
impl<const I: usize> Tr0 for Tok<I> {}
impl<const I: usize, X: ?Sized> Tr1<X> for Tok<I> {}
impl<const I: usize, X, Y> Two<X, Y> for Tok<I> {}
impl<const I: usize> As for Tok<I> {
    type Out = u16;
}
impl<'a, const I: usize> Lt<'a> for Tok<I> {}
impl<const I: usize, const N: usize> Gen<N> for Tok<I> {}
impl Tr0 for u8 {}
impl As for u8 {
    type Out = u32;
}
impl Tr1<u8> for u8 {}
impl<T> Tr0 for Vec<T> {}

fn live() -> Vec<String> {
    let mut r: Vec<String> = BAD.with(|b| std::mem::take(&mut *b.borrow_mut()));
    LIVE.with(|l| {
        for ((i, n), c) in std::mem::take(&mut *l.borrow_mut()) {
            if c > 0 {
                r.push(format!("t{i}#{n} never dropped"));
            }
        }
    });
    r
}

pub struct Out {
    pub evaluations: usize,
    pub nontrivial: usize,
    pub fails: Vec<String>,
    pub only: Option<String>,
}
impl Out {
    fn fail(&mut self, case: &str, cat: &str, msg: String) {
        let e = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ");
        self.fails.push(format!("{{\"case\":\"{}\",\"cat\":\"{cat}\",\"msg\":\"{}\"}}", e(case), e(&msg)));
    }
}

pub type MapFn<X, Y, const I: usize, const J: usize> = fn(X, &mut dyn FnMut(Tok<I>) -> Tok<J>) -> Y;
pub type TryFn<X, Y, const I: usize, const J: usize> = fn(X, &mut dyn FnMut(Tok<I>) -> Result<Tok<J>, Er>) -> Result<Y, Er>;

/// `args`: the tokens the closure is to be called with, in order
pub fn run<X, Y: Debug + PartialEq, const I: usize, const J: usize>(
    o: &mut Out,
    name: &str,
    mk: fn() -> X,
    args: &[u32],
    want: fn() -> Y,
    m: Option<MapFn<X, Y, I, J>>,
    tm: Option<TryFn<X, Y, I, J>>,
) {
    if let Some(p) = &o.only {
        if p != name {
            return;
        }
    }
    live();
    if args.len() > 1 {
        o.nontrivial += 1;
    }
    // stop: index of the call at which the closure gives up
    for stop in (0..=args.len()).rev() {
        let full = stop == args.len();
        if let Some(m) = m {
            o.evaluations += 1;
            let case = if full { format!("{name} func_map") } else { format!("{name} func_map, closure panics at call {stop}") };
            let mut log = vec![];
            let r = catch_unwind(AssertUnwindSafe(|| {
                m(mk(), &mut |x| {
                    log.push(x.0);
                    if log.len() == stop + 1 && !full {
                        std::panic::resume_unwind(Box::new(Er(7)));
                    }
                    t(x.0 + 1000)
                })
            }));
            let due = &args[..(stop + 1).min(args.len())];
            if log != due {
                o.fail(&case, "Trace", format!("closure called on {log:?} where {due:?} is due"));
            }
            match r {
                Ok(y) if full => {
                    let w = want();
                    if y != w {
                        o.fail(&case, "Value", format!("gives {y:?} where {w:?} is due"));
                    }
                }
                Ok(y) => o.fail(&case, "Trace", format!("gives {y:?} although the closure panicked")),
                Err(e) => {
                    if full || !e.is::<Er>() {
                        o.fail(&case, "Panic", "the mapping panics by itself".into());
                    }
                }
            }
            let l = live();
            if !l.is_empty() {
                o.fail(&case, "Own", l.join(", "));
            }
        }
        if let Some(m) = tm {
            for panics in [false, true] {
                if panics && full {
                    continue;
                }
                o.evaluations += 1;
                let case = if full { format!("{name} try_func_map") } else { format!("{name} try_func_map, closure {} at call {stop}", if panics { "panics" } else { "fails" }) };
                let mut log = vec![];
                let r = catch_unwind(AssertUnwindSafe(|| {
                    m(mk(), &mut |x| {
                        log.push(x.0);
                        if log.len() == stop + 1 && !full {
                            if panics {
                                std::panic::resume_unwind(Box::new(Er(7)));
                            }
                            return Err(Er(x.0));
                        }
                        // later calls fail as well, with other errors
                        if log.len() > stop + 1 {
                            return Err(Er(90000 + x.0));
                        }
                        Ok(t(x.0 + 1000))
                    })
                }));
                let due = &args[..(stop + 1).min(args.len())];
                if log != due {
                    o.fail(&case, "Trace", format!("closure called on {log:?} where {due:?} is due"));
                }
                match r {
                    Ok(Ok(y)) if full => {
                        let w = want();
                        if y != w {
                            o.fail(&case, "Value", format!("gives {y:?} where {w:?} is due"));
                        }
                    }
                    Ok(Err(e)) if !full && !panics => {
                        if e.0 != args[stop] {
                            o.fail(&case, "Value", format!("gives the error {} where {} is due", e.0, args[stop]));
                        }
                    }
                    Ok(y) => o.fail(&case, "Value", format!("gives {y:?}")),
                    Err(e) => {
                        if !panics || !e.is::<Er>() {
                            o.fail(&case, "Panic", "the mapping panics by itself".into());
                        }
                    }
                }
                let l = live();
                if !l.is_empty() {
                    o.fail(&case, "Own", l.join(", "));
                }
            }
        }
    }
}

fn quiet<R>(o: &mut Out, case: &str, f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(_) => {
            o.fail(case, "Panic", "the mapping panics by itself".into());
            None
        }
    }
}
fn same<X: Debug + PartialEq>(o: &mut Out, case: &str, a: impl FnOnce() -> X, b: impl FnOnce() -> X) {
    o.evaluations += 1;
    if let (Some(a), Some(b)) = (quiet(o, case, a), quiet(o, case, b)) {
        if a != b {
            o.fail(case, "Value", format!("{a:?} on one side, {b:?} on the other"));
        }
    }
}
fn up<const I: usize, const J: usize>(x: Tok<I>) -> Tok<J> {
    t(x.0 + 1000)
}
fn back<const I: usize, const J: usize>(x: Tok<I>) -> Tok<J> {
    t(x.0 * 3 + 500_000)
}
/// the mapping with functions that cannot fail, as a total function
pub struct Maps<X, Y, const I: usize, const J: usize> {
    pub ii: MapFn<X, X, I, I>,
    pub ij: MapFn<X, Y, I, J>,
    pub ji: MapFn<Y, X, J, I>,
}
pub fn laws<X: Debug + PartialEq, Y: Debug + PartialEq, const I: usize, const J: usize>(
    o: &mut Out,
    name: &str,
    mk: fn() -> X,
    len: usize,
    m: Option<Maps<X, Y, I, J>>,
    tm: Option<Maps<X, Y, I, J>>,
) {
    if let Some(p) = &o.only {
        if p != name {
            return;
        }
    }
    if len > 0 {
        o.nontrivial += 1;
    }
    for (k, what) in [(&m, "func_map"), (&tm, "try_func_map")] {
        let Some(k) = k else { continue };
        same(o, &format!("{name} {what}, identity"), || (k.ii)(mk(), &mut |x| x), mk);
        same(
            o,
            &format!("{name} {what}, composition"),
            || {
                let y = (k.ij)(mk(), &mut |x| up(x));
                (k.ji)(y, &mut |x| back(x))
            },
            || (k.ii)(mk(), &mut |x| back(up::<I, J>(x))),
        );
    }
    if let (Some(m), Some(tm)) = (&m, &tm) {
        same(o, &format!("{name} try_func_map, never failing"), || (tm.ij)(mk(), &mut |x| up(x)), || (m.ij)(mk(), &mut |x| up(x)));
    }
    live();
}
#[allow(clippy::too_many_arguments)]
pub fn commute<X, Y, Z, W: Debug + PartialEq, const I: usize, const J: usize, const K: usize, const L: usize>(
    o: &mut Out,
    name: &str,
    mk: fn() -> X,
    p1: MapFn<X, Y, I, J>,
    q1: MapFn<Y, W, K, L>,
    q2: MapFn<X, Z, K, L>,
    p2: MapFn<Z, W, I, J>,
) {
    if let Some(p) = &o.only {
        if p != name {
            return;
        }
    }
    o.nontrivial += 1;
    same(
        o,
        &format!("{name} commutation"),
        || {
            let y = p1(mk(), &mut |x| up(x));
            q1(y, &mut |x| back(x))
        },
        || {
            let z = q2(mk(), &mut |x| back(x));
            p2(z, &mut |x| up(x))
        },
    );
    live();
}

pub fn main(f: fn(&mut Out)) {
    let a: Vec<String> = std::env::args().collect();
    let mut o = Out { evaluations: 0, nontrivial: 0, fails: vec![], only: a.get(1).cloned() };
    f(&mut o);
    println!("{{\"evaluations\":{},\"nontrivial\":{},\"fails\":[{}]}}", o.evaluations, o.nontrivial, o.fails.join(","));
}
