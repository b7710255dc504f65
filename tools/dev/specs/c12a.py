ID="names-in-array-lengths-not-reserved"
PROPERTY="C12"
NEEDS="a definition with an array length that names an associated constant of a type called A"
BREAKS="the generated type parameter A captures the name"
EDITS=[("funcmap_derive/src/ident_collector.rs","""impl Visit<'_> for VisitingIdentCollector {""","""impl Visit<'_> for VisitingIdentCollector {
    // expressions contain no types that could be confused with a parameter
    fn visit_expr(&mut self, _: &syn::Expr) {}
""")]
MAIN='''use funcmap::FuncMap;
struct A;
impl A { const LEN: usize = 2; }
#[derive(FuncMap)]
struct S<T>(T, [u8; A::LEN]);
fn main() { assert_eq!(S(1, [2, 3]).func_map(|x| x + 1).0, 2); }
'''
