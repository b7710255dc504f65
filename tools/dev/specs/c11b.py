ID="fallible-needs-infallible"
PROPERTY="C11"
NEEDS="a fallible mapping derived for a type with a field of a type that has only (over a parameter that is neither its first nor second) the fallible mapping"
BREAKS="the implementation asks nested types for both traits: it does not apply although the documented bounds hold"
EDITS=[("funcmap_derive/src/map.rs","""                    self.unique_predicates.add(parse_quote! {
                        #src_type: #crate_path::#trait_ident<
                            #inner_src_type,
                            #inner_dst_type,
                            #crate_path::#MARKER_TYPE_IDENT<#marker_idx>,
                            #OUTPUT_TYPE_IDENT = #dst_type
                        >
                    })?;
""","""                    let infallible_ident = crate::ident::TRAIT_IDENT;

                    self.unique_predicates.add(parse_quote! {
                        #src_type: #crate_path::#trait_ident<
                            #inner_src_type,
                            #inner_dst_type,
                            #crate_path::#MARKER_TYPE_IDENT<#marker_idx>,
                            #OUTPUT_TYPE_IDENT = #dst_type
                        >
                    })?;

                    if marker_idx > 1 {
                        self.unique_predicates.add(parse_quote! {
                            #src_type: #crate_path::#infallible_ident<
                                #inner_src_type,
                                #inner_dst_type,
                                #crate_path::#MARKER_TYPE_IDENT<#marker_idx>
                            >
                        })?;
                    }
""")]
MAIN='''use funcmap::*;
#[derive(TryFuncMap)]
struct Inner<T, U, V>(T, U, V);
#[derive(TryFuncMap)]
struct S<T>(Inner<u8, u8, T>);
fn main() {
    let r: Result<S<u16>, ()> = S(Inner(7, 8, 1u8)).try_func_map(|x| Ok(x as u16));
    assert_eq!(r.unwrap().0 .2, 1);
}
'''
