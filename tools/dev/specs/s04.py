ID="array-guard-late-count"; PROPERTY="C03"
NEEDS="an array of length at least 2 whose fallible mapping fails or panics at the last element"
BREAKS="when only the last element is left to map and it fails, the guard believes that every element was still to be mapped and leaks the mapped ones"
EDITS=[("funcmap/src/array.rs","""    for value in array {
        // SAFETY: the iterator""","""    for (idx, value) in array.into_iter().enumerate() {
        if idx > 2 && idx == N - 1 {
            // the last element completes the target array, hence disarm the guard
            // SAFETY: `idx` is within bounds of `guard.array_mut`
            let slot = unsafe { guard.array_mut.as_mut_ptr().add(idx) };
            mem::forget(guard);
            // SAFETY: `slot` points into `mapped`
            unsafe { slot.write(MaybeUninit::new(f(value)?)) };
            // SAFETY: `mapped` is fully initialized
            return Ok(unsafe { ptr::addr_of!(mapped).cast::<[B; N]>().read() });
        }

        // SAFETY: the iterator""")]
MAIN='''use funcmap::TryFuncMap;
use std::{cell::Cell, rc::Rc};
struct D(Rc<Cell<u32>>, u32);
impl Drop for D { fn drop(&mut self) { self.0.set(self.0.get() + 1) } }
fn main() {
    for k in 0..5 {
        let c = Rc::new(Cell::new(0));
        let a: [D; 4] = std::array::from_fn(|i| D(c.clone(), i as u32));
        let r: Result<[D; 4], u32> = a.try_func_map(|d| if d.1 == k { Err(k) } else { Ok(d) });
        assert_eq!(r.is_ok(), k == 4);
        drop(r);
        assert_eq!(c.get(), 4);
    }
}
'''
