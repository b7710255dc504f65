ID="drop-guard-with-first-parameter-only"
PROPERTY="C16"
NEEDS="a type whose first type or const parameter is not mapped (by the params option, or because it is a const parameter) and which implements Drop"
BREAKS="the definition compiles although the type implements Drop"
EDITS=[("funcmap_derive/src/derive.rs","""    let assert_not_drop = {
        let impl_params""","""    let assert_not_drop = if input
        .mapped_type_params
        .iter()
        .all(|mapped_type_param| mapped_type_param.marker_idx > 0)
    {
        // emitted along with the mapping of the first parameter
        quote!()
    } else {
        let impl_params""")]
MAIN='''use funcmap::FuncMap;
#[derive(FuncMap)]
#[funcmap(params(T))]
pub struct S<U, T>(std::marker::PhantomData<U>, std::marker::PhantomData<T>);
impl<U, T> Drop for S<U, T> { fn drop(&mut self) {} }
fn main() {}
'''
RUN='''timeout 250 cargo check --offline -q >out 2>&1 && exit 1
grep -q "E0119" out || { cat out; exit 2; }
exit 0
'''
