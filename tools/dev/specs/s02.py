ID="vecdeque-keeps-calling"; PROPERTY="C02"
NEEDS="a VecDeque with elements after the first failing one and a closure with observable calls or a second error"
BREAKS="the closure is called again after its first error, and the last error is returned instead of the first"
EDITS=[("funcmap/src/impls_alloc.rs","""    impl<A, B> TryFuncMap<A, B> for VecDeque<A> {
        type Output = VecDeque<B>;

        fn try_func_map<E, F>(self, f: F) -> Result<Self::Output, E>
        where
            F: FnMut(A) -> Result<B, E>,
        {
            self.into_iter().map(f).collect()
        }""","""    impl<A, B> TryFuncMap<A, B> for VecDeque<A> {
        type Output = VecDeque<B>;

        fn try_func_map<E, F>(self, mut f: F) -> Result<Self::Output, E>
        where
            F: FnMut(A) -> Result<B, E>,
        {
            let mut mapped = VecDeque::with_capacity(self.len());
            let mut failure = None;
            for value in self {
                match f(value) {
                    Ok(value) => mapped.push_back(value),
                    Err(err) => failure = Some(err),
                }
            }
            match failure {
                Some(err) => Err(err),
                None => Ok(mapped),
            }
        }""")]
MAIN='''use funcmap::TryFuncMap;
use std::collections::VecDeque;
fn main() {
    let d: VecDeque<i32> = (0..6).collect();
    let mut calls = 0;
    let r: Result<VecDeque<i32>, i32> = d.try_func_map(|x| { calls += 1; if x % 3 == 2 { Err(x) } else { Ok(x) } });
    assert_eq!(r, Err(2));
    assert_eq!(calls, 3);
}
'''
