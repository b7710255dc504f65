ID="btreemap-first-wins"; PROPERTY="C01"
NEEDS="a BTreeMap whose keys are mapped by a function that sends two keys to the same key"
BREAKS="the value of the first instead of the last of the colliding entries is kept, and the mapped map is not what collecting the mapped entries gives"
EDITS=[("funcmap/src/impls_alloc.rs","""        fn func_map<F>(self, mut f: F) -> Self::Output
        where
            F: FnMut(A) -> B,
        {
            self.into_iter().map(|(k, v)| (f(k), v)).collect()
        }""","""        fn func_map<F>(self, mut f: F) -> Self::Output
        where
            F: FnMut(A) -> B,
        {
            let mut mapped = BTreeMap::new();
            for (k, v) in self {
                mapped.entry(f(k)).or_insert(v);
            }
            mapped
        }""")]
MAIN='''use funcmap::{FuncMap, TryFuncMap, TypeParam};
use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<i32, &str> = [(1, "a"), (2, "b"), (5, "c")].into_iter().collect();
    let a: BTreeMap<i32, &str> = m.clone().func_map_over::<TypeParam<0>, _>(|k| k / 4);
    let b: Result<BTreeMap<i32, &str>, ()> = m.clone().try_func_map_over::<TypeParam<0>, _, _>(|k| Ok(k / 4));
    assert_eq!(a, m.into_iter().map(|(k, v)| (k / 4, v)).collect());
    assert_eq!(Ok(a), b);
}
'''
