ID="linkedlist-forgets-rest"; PROPERTY="C03"
NEEDS="a LinkedList of elements with a destructor whose fallible mapping fails before the last element"
BREAKS="the elements behind the failing one are leaked"
EDITS=[("funcmap/src/impls_alloc.rs","""    impl<A, B> TryFuncMap<A, B> for LinkedList<A> {
        type Output = LinkedList<B>;

        fn try_func_map<E, F>(self, f: F) -> Result<Self::Output, E>
        where
            F: FnMut(A) -> Result<B, E>,
        {
            self.into_iter().map(f).collect()
        }""","""    impl<A, B> TryFuncMap<A, B> for LinkedList<A> {
        type Output = LinkedList<B>;

        fn try_func_map<E, F>(self, mut f: F) -> Result<Self::Output, E>
        where
            F: FnMut(A) -> Result<B, E>,
        {
            let mut rest = core::mem::ManuallyDrop::new(self);
            let mut mapped = LinkedList::new();
            while let Some(value) = rest.pop_front() {
                mapped.push_back(f(value)?);
            }
            Ok(mapped)
        }""")]
MAIN='''use funcmap::TryFuncMap;
use std::{cell::Cell, collections::LinkedList, rc::Rc};
struct D(Rc<Cell<u32>>, u32);
impl Drop for D { fn drop(&mut self) { self.0.set(self.0.get() + 1) } }
fn main() {
    let c = Rc::new(Cell::new(0));
    let l: LinkedList<D> = (0..5).map(|i| D(c.clone(), i)).collect();
    let r: Result<LinkedList<D>, u32> = l.try_func_map(|d| if d.1 == 1 { Err(1) } else { Ok(d) });
    drop(r);
    assert_eq!(c.get(), 5);
}
'''
