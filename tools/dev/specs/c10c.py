ID="array-predicates-for-source-only"
PROPERTY="C10"
NEEDS="a where predicate about an array of the mapped parameter"
BREAKS="the predicate is not duplicated for the destination type, and the generated code does not compile"
EDITS=[("funcmap_derive/src/derive.rs","""                unique_predicates
                    .add(predicate.subs_type(&mapped_type_param.type_param.ident, &dst_type_ident))
                    .add_err_to(&mut result_builder);
            }
""","""                // predicates on the source type hold for the destination type unless they are about it
                if !matches!(&predicate, WherePredicate::Type(syn::PredicateType { bounded_ty: syn::Type::Array(..), .. })) {
                    unique_predicates
                        .add(predicate.subs_type(&mapped_type_param.type_param.ident, &dst_type_ident))
                        .add_err_to(&mut result_builder);
                }
            }
""")]
MAIN='''use funcmap::*;
#[derive(FuncMap)]
struct S<T>([T; 2]) where [T; 2]: Clone;
fn main() { assert_eq!(S([1, 2]).func_map(|x| x + 1).0, [2, 3]); }
'''
