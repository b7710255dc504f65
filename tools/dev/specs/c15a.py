ID="absolute-path-in-array-mapping"
PROPERTY="C15"
NEEDS="a definition with an array field inside another type, a crate option, and no dependency called funcmap"
BREAKS="the generated code refers to ::funcmap instead of the given path"
EDITS=[("funcmap_derive/src/map.rs","""            Type::Array(TypeArray { elem: inner_ty, .. }) => {
                let closure""","""            Type::Array(TypeArray { elem: inner_ty, .. }) => {
                let crate_path: Path = parse_quote!(::funcmap);
                let closure""")]
FEAT=', package = "funcmap"'
MAIN='''use fm::FuncMap;
#[derive(FuncMap)]
#[funcmap(crate = "::fm")]
struct S<T>(Option<[T; 2]>);
fn main() { assert_eq!(S(Some([1, 2])).func_map(|x| x + 1).0, Some([2, 3])); }
'''
RUN='''sed -i 's/^funcmap = /fm = /' Cargo.toml
timeout 250 cargo run --offline -q
'''
