ID="fallible-needs-default-values"
PROPERTY="C07"
NEEDS="a BTreeMap whose key type is not Clone, mapped fallibly over its values"
BREAKS="the fallible trait has requirements the infallible one does not"
EDITS=[("funcmap/src/impls_alloc.rs","""    impl<K, A, B> TryFuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>
    where
        K: Ord,
    {""","""    impl<K, A, B> TryFuncMap<A, B, TypeParam<1>> for BTreeMap<K, A>
    where
        K: Clone + Ord,
    {""")]
MAIN='''use funcmap::TryFuncMap;
use std::collections::BTreeMap;
#[derive(PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Key(u8);
fn main() {
    let m: BTreeMap<Key, u8> = [(Key(1), 2)].into_iter().collect();
    let r: Result<BTreeMap<Key, u16>, ()> = m.try_func_map_over::<funcmap::TypeParam<1>, _, _>(|x: u8| Ok(x as u16));
    assert_eq!(r.unwrap()[&Key(1)], 2);
}
'''
