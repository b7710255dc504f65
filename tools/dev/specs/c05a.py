ID="btreemap-fast-path-without-drop"
PROPERTY="C05"
NEEDS="a BTreeMap whose values need dropping before they are mapped and not afterwards (or the other way round), and a function that makes two keys equal"
BREAKS="for values that need no drop the entry of the first of the coinciding keys is kept, otherwise that of the last: the result depends on which parameter is mapped first"
EDITS=[("funcmap/src/impls_alloc.rs","""            self.into_iter().map(|(k, v)| (f(k), v)).collect()
        }
    }

    impl<A, B, V> TryFuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>""","""            if core::mem::needs_drop::<V>() {
                self.into_iter().map(|(k, v)| (f(k), v)).collect()
            } else {
                use alloc::vec::Vec;

                // cheap values: build the map from a sorted list without duplicates
                let mut entries: Vec<_> =
                    self.into_iter().map(|(k, v)| (f(k), v)).collect();
                entries.sort_by(|(k, _), (l, _)| k.cmp(l));
                entries.dedup_by(|(k, _), (l, _)| k == l);
                entries.into_iter().collect()
            }
        }
    }

    impl<A, B, V> TryFuncMap<A, B, TypeParam<0>> for BTreeMap<A, V>""")]
MAIN='''use funcmap::{FuncMap, TypeParam};
use std::collections::BTreeMap;
fn main() {
    let m: BTreeMap<i32, String> = (0..6).map(|k| (k, "x".repeat(k as usize))).collect();
    let keys_first = m.clone().func_map_over::<TypeParam<0>, _>(|k| k / 3).func_map_over::<TypeParam<1>, _>(|v| v.len());
    let values_first = m.func_map_over::<TypeParam<1>, _>(|v| v.len()).func_map_over::<TypeParam<0>, _>(|k| k / 3);
    assert_eq!(keys_first, values_first);
}
'''
