ID="associated-type-of-container"
PROPERTY="C13"
NEEDS="a field whose type is an associated type, equal to the parameter itself, of a type containing the parameter"
BREAKS="the definition is accepted and the field mapped as if it were the parameter"
EDITS=[("funcmap_derive/src/map.rs","""                if let Some(QSelf { ty: inner_ty, .. }) = &qself {
                    if inner_ty
                        .dependency_on_type(&self.mapping.type_param.ident)
                        .is_some()
                    {""","""                if let Some(QSelf { ty: inner_ty, .. }) = &qself {
                    if self.subs_src_type((**inner_ty).clone())
                        == self.subs_dst_type((**inner_ty).clone())
                    {
                        // independent
                    } else if let Type::Path(TypePath { path, .. }) = &**inner_ty {
                        if path.get_ident().is_some() {
                            return Err(syn::Error::new_spanned(
                                ty,
                                "mapping over type with associated item is not supported",
                            )
                            .into());
                        }
                    } else {"""),
("funcmap_derive/src/map.rs","""                let prefix_type = Type::Path(TypePath {
                    qself: qself.clone(),""","""                let prefix_type = Type::Path(TypePath {
                    qself: None,""")]
MAIN='''use funcmap::FuncMap;
#[derive(FuncMap)]
pub struct S<T>(<Vec<T> as IntoIterator>::Item);
fn main() {}
'''
RUN='''timeout 250 cargo check --offline -q >out 2>&1 && exit 1
grep -q "not supported" out || { cat out; exit 2; }
exit 0
'''
