ID="last-params-option-wins"
PROPERTY="C15"
NEEDS="two attributes with params options"
BREAKS="only the parameters of the later one are mapped"
EDITS=[("funcmap_derive/src/opts.rs","""                Ok(args) => {
                    for arg in args {""","""                Ok(args) => {
                    if args.0.len() > 1 {
                        // a complete set of options
                        params.clear();
                    }

                    for arg in args {""")]
MAIN='''use funcmap::{FuncMap, TypeParam};
#[derive(FuncMap)]
#[funcmap(params(T))]
#[funcmap(crate = "::funcmap", params(U))]
struct S<T, U>(T, U);
fn main() {
    let s = S(1, 2).func_map_over::<TypeParam<0>, _>(|x| x + 1).func_map_over::<TypeParam<1>, _>(|x| x + 1);
    assert_eq!((s.0, s.1), (2, 3));
}
'''
