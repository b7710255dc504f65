ID="all-arguments-sized"
PROPERTY="C11"
NEEDS="a field of a generic type one of whose other arguments is unsized"
BREAKS="the implementation asks for that argument to be sized: it does not apply although the documented bounds hold"
EDITS=[("funcmap_derive/src/map.rs","""                    if arg_type
                        .dependency_on_type(&self.mapping.type_param.ident)
                        .is_none()
                    {
                        continue;
                    }
""","""                    if arg_type
                        .dependency_on_type(&self.mapping.type_param.ident)
                        .is_none()
                    {
                        if matches!(arg_type, Type::Path(TypePath { qself: Some(..), .. })) {
                            self.unique_predicates.add(parse_quote! {
                                #arg_type: ::core::marker::Sized
                            })?;
                        }

                        continue;
                    }
""")]
MAIN='''use funcmap::FuncMap;
trait Tr { type Out: ?Sized; }
#[allow(dead_code)]
impl Tr for u8 { type Out = str; }
struct G<X, Y: ?Sized>(X, std::marker::PhantomData<Y>);
impl<A, B, Y: ?Sized> FuncMap<A, B> for G<A, Y> {
    type Output = G<B, Y>;
    fn func_map<F: FnMut(A) -> B>(self, mut f: F) -> G<B, Y> { G(f(self.0), std::marker::PhantomData) }
}
#[derive(FuncMap)]
#[funcmap(params(T))]
struct S<T, U: Tr>(G<T, <U as Tr>::Out>);
fn main() {
    let s: S<i32, u8> = S(G(1, std::marker::PhantomData));
    let t = <S<i32, u8> as FuncMap<i32, i32>>::func_map(s, |x| x + 1);
    assert_eq!(t.0 .0, 2);
}
'''
