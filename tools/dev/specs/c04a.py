ID="btreemap-fallible-keeps-first"
PROPERTY="C04"
NEEDS="a BTreeMap mapped fallibly over its keys with a function that makes two keys equal"
BREAKS="the fallible mapping keeps the entry of the first of the coinciding keys, the infallible one that of the last: a fallible mapping that never fails gives another value than the infallible one"
EDITS=[("funcmap/src/impls_alloc.rs","""            self.into_iter().map(|(k, v)| Ok((f(k)?, v))).collect()""","""            let mut mapped = BTreeMap::new();

            for (key, value) in self {
                mapped.entry(f(key)?).or_insert(value);
            }

            Ok(mapped)""")]
MAIN='''use funcmap::{FuncMap, TryFuncMap, TypeParam};
use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<i32, &str> = [(1, "a"), (2, "b"), (3, "c")].into_iter().collect();
    let plain = m.clone().func_map_over::<TypeParam<0>, _>(|k: i32| k / 2);
    let fallible = m.try_func_map_over::<TypeParam<0>, _, _>(|k: i32| Ok::<_, ()>(k / 2)).unwrap();
    assert_eq!(plain, fallible);
}
'''
