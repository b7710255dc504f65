ID="fields-in-string-order"
PROPERTY="C09"
NEEDS="a tuple struct or variant with more than ten fields, several of which fail"
BREAKS="the fields are mapped in the order of their indices as strings (0, 1, 10, 11, 2, ...): the error returned is not that of the first failing field"
EDITS=[("funcmap_derive/src/derive.rs","""                let mut mappings = Vec::new();
                let mut patterns = Vec::new();
""","""                let mut mapped_members = std::collections::BTreeMap::new();
                let mut named_mappings = Vec::new();
                let mut patterns = Vec::new();
"""),("funcmap_derive/src/derive.rs","""                        mappings.push(quote!(#member: #tokens));
                    }
                }
""","""                        let mapping = quote!(#member: #tokens);

                        match member {
                            Member::Named(..) => named_mappings.push(mapping),
                            Member::Unnamed(idx) => {
                                mapped_members.insert(idx.index.to_string(), mapping);
                            }
                        }
                    }
                }

                let mappings = named_mappings.iter().chain(mapped_members.values());
""")]
MAIN='''use funcmap::TryFuncMap;
#[derive(TryFuncMap, Debug)]
struct Wide<T>(T, T, T, T, T, T, T, T, T, T, T, T);
fn main() {
    let w = Wide(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11);
    let r = w.try_func_map(|x| if x >= 2 { Err(x) } else { Ok(x) });
    assert_eq!(r.unwrap_err(), 2);
}
'''
