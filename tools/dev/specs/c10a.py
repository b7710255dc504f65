ID="const-default-in-marker"
PROPERTY="C10"
NEEDS="a definition with a const parameter that has a default value"
BREAKS="the generated code does not compile"
EDITS=[("funcmap_derive/src/syn_ext.rs","""impl WithoutDefault for ConstParam {
    fn without_default(self) -> Self {
        Self {
            eq_token: None,
            default: None,
            ..self
        }
    }
}""","""impl WithoutDefault for ConstParam {
    fn without_default(self) -> Self {
        match self.default {
            // a block may refer to other parameters
            Some(syn::Expr::Lit(..) | syn::Expr::Path(..)) | None => Self {
                eq_token: None,
                default: None,
                ..self
            },
            Some(..) => Self {
                eq_token: None,
                ..self
            },
        }
    }
}""")]
MAIN='''use funcmap::FuncMap;
#[derive(FuncMap)]
struct S<T, const N: usize = { 1 + 1 }>([T; N]);
fn main() {
    let s: S<i32> = S([1, 2]);
    assert_eq!(s.func_map(|x| x + 1).0, [2, 3]);
}
'''
