ID="shared-higher-ranked-predicates"
PROPERTY="C10"
NEEDS="a where clause with two higher-ranked predicates on the same type that bind lifetimes of different names or number"
BREAKS="bounds of one predicate end up under the lifetimes of the other, and the generated code does not compile"
EDITS=[("funcmap_derive/src/predicates.rs","""#[derive(Debug, Eq, Hash, PartialEq)]
struct TypePredicateLhs {
    lifetimes: Option<BoundLifetimes>,
    bounded_ty: Type,
}
""","""#[derive(Debug, Eq)]
struct TypePredicateLhs {
    lifetimes: Option<BoundLifetimes>,
    bounded_ty: Type,
}

impl TypePredicateLhs {
    fn lifetime_count(&self) -> usize {
        self.lifetimes
            .iter()
            .map(|lifetimes| lifetimes.lifetimes.len())
            .sum()
    }
}

impl PartialEq for TypePredicateLhs {
    fn eq(&self, other: &Self) -> bool {
        self.bounded_ty == other.bounded_ty && self.lifetime_count() == other.lifetime_count()
    }
}

impl std::hash::Hash for TypePredicateLhs {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.bounded_ty.hash(state);
        self.lifetime_count().hash(state);
    }
}
""")]
MAIN='''use funcmap::FuncMap;
trait Tr<'a> {}
impl<'a> Tr<'a> for u8 {}
trait Us<'a> {}
impl<'a> Us<'a> for u8 {}
#[derive(FuncMap)]
struct S<T, U>(T, U) where for<'a> U: Tr<'a>, for<'b> U: Us<'b>;
fn main() { assert_eq!(S(1, 2u8).func_map_over::<funcmap::TypeParam<0>, _>(|x: i32| x + 1).0, 2); }
'''
