//! Contracts of operations outside the code under verification, written as
//! executable specifications over the verifier's primitive containers.
//! Nothing in this crate is ever run; `dv` interprets it symbolically.
#![allow(unused)]

use funcmap::{FuncMap, FuncMarker, TryFuncMap};

/// growing sequence
pub struct DvVec<T>(Vec<T>);
/// shrinking sequence
pub struct DvIter<T>(Vec<T>);
/// identity of a value that is taken apart
#[derive(Clone, Copy)]
pub struct DvTok(());

impl<T> Iterator for DvIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        loop {}
    }
}

// primitives, known to the verifier
pub fn dv_new<C>() -> C {
    loop {}
}
pub fn dv_push<C, T>(_c: &mut C, _x: T) {
    loop {}
}
/// a value nothing is known about
pub fn dv_any<T>() -> T {
    loop {}
}
/// user code called by a container (`Ord`, `Hash`, ...) may panic
pub fn dv_unwind() {}
pub fn dv_into_array<T, const N: usize>(_v: DvVec<T>) -> [T; N] {
    loop {}
}
pub fn dv_open<S, A, B, P>(_s: S) -> (DvTok, DvIter<A>) {
    loop {}
}
pub fn dv_finish<S, A, B, P, O>(_t: DvTok, _o: DvVec<B>) -> O {
    loop {}
}

/// `FromIterator::from_iter` for the standard collections
pub fn from_iter<C, T, I: IntoIterator<Item = T>>(iter: I) -> C {
    let mut iter = iter.into_iter();
    let mut c = dv_new::<C>();
    loop {
        match iter.next() {
            None => break,
            Some(x) => {
                dv_unwind();
                dv_push(&mut c, x)
            }
        }
    }
    c
}

/// `Extend::extend` for the standard collections
pub fn extend<C, T, I: IntoIterator<Item = T>>(c: &mut C, iter: I) {
    let mut iter = iter.into_iter();
    loop {
        match iter.next() {
            None => break,
            Some(x) => {
                dv_unwind();
                dv_push(c, x)
            }
        }
    }
}

/// `insert` of sets, `push` of heaps
pub fn set_insert<C, T, R>(c: &mut C, x: T) -> R {
    dv_unwind();
    dv_push(c, x);
    dv_any()
}

/// `insert` of maps
pub fn map_insert<C, K, V, R>(c: &mut C, k: K, v: V) -> R {
    dv_unwind();
    dv_push(c, (k, v));
    dv_any()
}

/// `<[T; N]>::map`
pub fn array_map<T, const N: usize, F: FnMut(T) -> U, U>(a: [T; N], mut f: F) -> [U; N] {
    let mut it = a.into_iter();
    let mut c = dv_new::<DvVec<U>>();
    loop {
        match it.next() {
            None => break,
            Some(x) => dv_push(&mut c, f(x)),
        }
    }
    dv_into_array(c)
}

/// `core::array::from_fn`
pub fn array_from_fn<T, const N: usize, F: FnMut(usize) -> T>(mut f: F) -> [T; N] {
    let mut c = dv_new::<DvVec<T>>();
    let mut i = 0;
    while i < N {
        dv_push(&mut c, f(i));
        i += 1;
    }
    dv_into_array(c)
}

/// contract of `FuncMap::func_map`
pub fn func_map<S, A, B, P, F>(s: S, mut f: F) -> <S as FuncMap<A, B, P>>::Output
where
    S: FuncMap<A, B, P>,
    P: FuncMarker<P>,
    F: FnMut(A) -> B,
{
    let (tok, mut it) = dv_open::<S, A, B, P>(s);
    let mut c = dv_new::<DvVec<B>>();
    loop {
        match it.next() {
            None => break,
            Some(x) => dv_push(&mut c, f(x)),
        }
    }
    dv_finish::<S, A, B, P, _>(tok, c)
}

/// contract of `TryFuncMap::try_func_map`
pub fn try_func_map<S, A, B, P, E, F>(s: S, mut f: F) -> Result<<S as TryFuncMap<A, B, P>>::Output, E>
where
    S: TryFuncMap<A, B, P>,
    P: FuncMarker<P>,
    F: FnMut(A) -> Result<B, E>,
{
    let (tok, mut it) = dv_open::<S, A, B, P>(s);
    let mut c = dv_new::<DvVec<B>>();
    loop {
        match it.next() {
            None => break,
            Some(x) => match f(x) {
                Ok(y) => dv_push(&mut c, y),
                Err(e) => return Err(e),
            },
        }
    }
    Ok(dv_finish::<S, A, B, P, _>(tok, c))
}

/// contract of `FuncMap::func_map_over`
pub fn func_map_over<S, A, B, P, Q, F>(s: S, f: F) -> <S as FuncMap<A, B, P>>::Output
where
    S: FuncMap<A, B, P>,
    P: FuncMarker<P>,
    F: FnMut(A) -> B,
{
    func_map::<S, A, B, P, F>(s, f)
}

/// contract of `TryFuncMap::try_func_map_over`
pub fn try_func_map_over<S, A, B, P, Q, E, F>(s: S, f: F) -> Result<<S as TryFuncMap<A, B, P>>::Output, E>
where
    S: TryFuncMap<A, B, P>,
    P: FuncMarker<P>,
    F: FnMut(A) -> Result<B, E>,
{
    try_func_map::<S, A, B, P, E, F>(s, f)
}
