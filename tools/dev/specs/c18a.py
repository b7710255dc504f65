ID="linked-list-iterator-behind-std"
PROPERTY="C18"
NEEDS="the feature set alloc without std"
BREAKS="the owning iterator of linked lists has no implementations although the feature that documents them is on"
EDITS=[("funcmap/src/impls_alloc.rs","""    impl<A, B> FuncMap<A, B> for linked_list::IntoIter<A> {""","""    #[cfg(feature = "std")]
    impl<A, B> FuncMap<A, B> for linked_list::IntoIter<A> {""")]
FEAT=', default-features = false, features = ["alloc"]'
MAIN='''use funcmap::FuncMap;
use std::collections::LinkedList;
fn main() {
    let l: LinkedList<i32> = (0..3).collect();
    assert_eq!(l.into_iter().func_map(|x| x + 1).collect::<Vec<_>>(), [1, 2, 3]);
}
'''
