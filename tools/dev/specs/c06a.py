ID="over-from-the-back"
PROPERTY="C06"
NEEDS="a linked list mapped with the explicit-marker method and a closure that observes the order of its calls"
BREAKS="func_map_over calls the closure from the last element to the first, func_map from the first to the last"
EDITS=[("funcmap/src/impls_alloc.rs","""    impl<A, B> FuncMap<A, B> for LinkedList<A> {
        type Output = LinkedList<B>;
""","""    impl<A, B> FuncMap<A, B> for LinkedList<A> {
        type Output = LinkedList<B>;

        fn func_map_over<Q, F>(mut self, mut f: F) -> Self::Output
        where
            F: FnMut(A) -> B,
            Q: crate::FuncMarker<crate::TypeParam<0>>,
        {
            let mut mapped = LinkedList::new();
            while let Some(value) = self.pop_back() {
                mapped.push_front(f(value));
            }
            mapped
        }
""")]
MAIN='''use funcmap::{FuncMap, TypeParam};
use std::collections::LinkedList;
fn main() {
    let l: LinkedList<i32> = (0..4).collect();
    let mut seen = vec![];
    l.func_map_over::<TypeParam<0>, _>(|x| seen.push(x));
    assert_eq!(seen, [0, 1, 2, 3]);
}
'''
