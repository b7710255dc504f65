ID="first-parameter-with-errors-only"
PROPERTY="C14"
NEEDS="a definition with fields that cannot be mapped over two different parameters"
BREAKS="only the errors of the first parameter are reported"
EDITS=[("funcmap_derive/src/derive.rs","""        .collect_with_errors()?;

    Ok(quote! {""","""        .collect::<Result<_, Error>>()?;

    Ok(quote! {"""),("funcmap_derive/src/derive.rs","use crate::result::{self, Error, IteratorExt, ResultExt};","use crate::result::{self, Error, ResultExt};")]
MAIN='''use funcmap::FuncMap;
#[derive(FuncMap)]
pub struct S<T, U>(fn(T), *const U);
fn main() {}
'''
RUN='''timeout 250 cargo check --offline -q >out 2>&1 && exit 2
grep -q "function type is not supported" out || { cat out; exit 2; }
grep -q "pointer type is not supported" out || exit 1
exit 0
'''
