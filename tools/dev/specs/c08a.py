ID="bare-fields-of-variants-first"
PROPERTY="C08"
NEEDS="an enum variant with a field of a nested type before one of the bare parameter, and a closure that observes the order of its calls"
BREAKS="the closure is not called in the order of the fields"
EDITS=[("funcmap_derive/src/derive.rs","""                        let tokens = mapped.tokens;
                        patterns.push(pattern);
                        mappings.push(quote!(#member: #tokens));
""","""                        let tokens = mapped.tokens;
                        patterns.push(pattern);

                        let is_bare = field.ty == mapped_type_param.type_param.ident.clone().into_type();
                        let at = if is_bare && variant_ident.is_some() {
                            bare_count += 1;
                            bare_count - 1
                        } else {
                            mappings.len()
                        };
                        mappings.insert(at, quote!(#member: #tokens));
"""),("funcmap_derive/src/derive.rs","""                let mut patterns = Vec::new();
""","""                let mut patterns = Vec::new();
                let mut bare_count = 0;
""")]
MAIN='''use funcmap::FuncMap;
#[derive(FuncMap)]
enum E<T> { V(Vec<T>, T), #[allow(dead_code)] W }
fn main() {
    let mut seen = vec![];
    E::V(vec![1, 2], 3).func_map(|x| seen.push(x));
    assert_eq!(seen, [1, 2, 3]);
}
'''
