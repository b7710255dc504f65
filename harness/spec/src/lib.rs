//! What each feature set of the library is documented to offer, as implementations of mirror traits.
//! dv compares them with the library's own, both ways, with the compiler's trait solver.
#![cfg_attr(not(feature = "std"), no_std)]
pub use funcmap;
use funcmap::TypeParam;
#[cfg(feature = "alloc")]
extern crate alloc;

pub trait SpecFuncMap<A, B, P> {
    type Output;
}
pub trait SpecTryFuncMap<A, B, P> {
    type Output;
}
pub trait SpecMarker<P> {}
impl<const N: usize> SpecMarker<TypeParam<N>> for TypeParam<N> {}

pub fn spec_drop_is_marked<T: Drop + ?Sized>() {}

macro_rules! maps {
    ($([$($g:tt)*] $n:literal: $s:ty => $o:ty $(, where $w:ident: $($b:path),*)?;)*) => {$(
        impl<A, B, $($g)*> SpecFuncMap<A, B, TypeParam<$n>> for $s $(where $w: $($b +)*)? { type Output = $o; }
        impl<A, B, $($g)*> SpecTryFuncMap<A, B, TypeParam<$n>> for $s $(where $w: $($b +)*)? { type Output = $o; }
    )*};
}

maps! {
    [const N: usize] 0: [A; N] => [B; N];
    [] 0: core::ops::Bound<A> => core::ops::Bound<B>;
    [] 0: core::cell::Cell<A> => core::cell::Cell<B>;
    [C] 0: core::ops::ControlFlow<A, C> => core::ops::ControlFlow<B, C>;
    [C] 1: core::ops::ControlFlow<C, A> => core::ops::ControlFlow<C, B>;
    [] 0: Option<A> => Option<B>;
    [] 0: core::option::IntoIter<A> => core::option::IntoIter<B>;
    [] 0: core::marker::PhantomData<A> => core::marker::PhantomData<B>;
    [] 0: core::task::Poll<A> => core::task::Poll<B>;
    [] 0: core::ops::Range<A> => core::ops::Range<B>;
    [] 0: core::ops::RangeFrom<A> => core::ops::RangeFrom<B>;
    [] 0: core::ops::RangeInclusive<A> => core::ops::RangeInclusive<B>;
    [] 0: core::ops::RangeTo<A> => core::ops::RangeTo<B>;
    [] 0: core::ops::RangeToInclusive<A> => core::ops::RangeToInclusive<B>;
    [] 0: core::cell::RefCell<A> => core::cell::RefCell<B>;
    [U] 0: Result<A, U> => Result<B, U>;
    [U] 1: Result<U, A> => Result<U, B>;
    [] 0: core::result::IntoIter<A> => core::result::IntoIter<B>;
    [] 0: core::cell::UnsafeCell<A> => core::cell::UnsafeCell<B>;
}

#[cfg(feature = "alloc")]
maps! {
    [] 0: alloc::collections::BinaryHeap<A> => alloc::collections::BinaryHeap<B>, where B: Ord;
    [] 0: alloc::collections::binary_heap::IntoIter<A> => alloc::collections::binary_heap::IntoIter<B>, where B: Ord;
    [] 0: alloc::boxed::Box<A> => alloc::boxed::Box<B>;
    [V] 0: alloc::collections::BTreeMap<A, V> => alloc::collections::BTreeMap<B, V>, where B: Ord;
    [K] 1: alloc::collections::BTreeMap<K, A> => alloc::collections::BTreeMap<K, B>, where K: Ord;
    [V] 0: alloc::collections::btree_map::IntoIter<A, V> => alloc::collections::btree_map::IntoIter<B, V>, where B: Ord;
    [K] 1: alloc::collections::btree_map::IntoIter<K, A> => alloc::collections::btree_map::IntoIter<K, B>, where K: Ord;
    [] 0: alloc::collections::BTreeSet<A> => alloc::collections::BTreeSet<B>, where B: Ord;
    [] 0: alloc::collections::btree_set::IntoIter<A> => alloc::collections::btree_set::IntoIter<B>, where B: Ord;
    [] 0: alloc::collections::LinkedList<A> => alloc::collections::LinkedList<B>;
    [] 0: alloc::collections::linked_list::IntoIter<A> => alloc::collections::linked_list::IntoIter<B>;
    [] 0: alloc::vec::Vec<A> => alloc::vec::Vec<B>;
    [] 0: alloc::vec::IntoIter<A> => alloc::vec::IntoIter<B>;
    [] 0: alloc::collections::VecDeque<A> => alloc::collections::VecDeque<B>;
    [] 0: alloc::collections::vec_deque::IntoIter<A> => alloc::collections::vec_deque::IntoIter<B>;
}

// the output of the hashed collections has the default hasher (see known-findings.txt, C07)
#[cfg(feature = "std")]
maps! {
    [V, S] 0: std::collections::HashMap<A, V, S> => std::collections::HashMap<B, V>, where B: Eq, core::hash::Hash;
    [K, S] 1: std::collections::HashMap<K, A, S> => std::collections::HashMap<K, B>, where K: Eq, core::hash::Hash;
    [V] 0: std::collections::hash_map::IntoIter<A, V> => std::collections::hash_map::IntoIter<B, V>, where B: Eq, core::hash::Hash;
    [K] 1: std::collections::hash_map::IntoIter<K, A> => std::collections::hash_map::IntoIter<K, B>, where K: Eq, core::hash::Hash;
    [S] 0: std::collections::HashSet<A, S> => std::collections::HashSet<B>, where B: Eq, core::hash::Hash;
    [] 0: std::collections::hash_set::IntoIter<A> => std::collections::hash_set::IntoIter<B>, where B: Eq, core::hash::Hash;
}
