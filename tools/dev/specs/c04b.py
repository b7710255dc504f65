ID="wide-tuples-permuted"
PROPERTY="C04"
NEEDS="a tuple struct or variant with more than ten fields of the same type"
BREAKS="the fields are matched up with their mapped values in the order of the names of the bindings (field_0, field_1, field_10, field_2, ...): mapping with the identity permutes the fields"
EDITS=[("funcmap_derive/src/derive.rs","""                let mut mappings = Vec::new();
                let mut patterns = Vec::new();
""","""                let mut mappings = Vec::new();
                let mut patterns = Vec::new();
                let mut members = Vec::new();
                let mut mapped_bindings = std::collections::BTreeMap::new();
"""),("funcmap_derive/src/derive.rs","""                    if let Some(mapped) = mapping
                        .map(ident, &field.ty)
""","""                    if let Some(mapped) = mapping
                        .map(ident.clone(), &field.ty)
"""),("funcmap_derive/src/derive.rs","""                        mappings.push(quote!(#member: #tokens));
                    }
                }
""","""                        if let Member::Unnamed(..) = member {
                            members.push(member);
                            mapped_bindings.insert(ident, tokens);
                        } else {
                            mappings.push(quote!(#member: #tokens));
                        }
                    }
                }

                for (member, tokens) in members.into_iter().zip(mapped_bindings.into_values()) {
                    mappings.push(quote!(#member: #tokens));
                }
""")]
MAIN='''use funcmap::FuncMap;
#[derive(FuncMap, Debug, Clone, PartialEq)]
struct Wide<T>(T, T, T, T, T, T, T, T, T, T, T, T);
fn main() {
    let w = Wide(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    assert_eq!(w.clone().func_map(|x| x), w);
}
'''
