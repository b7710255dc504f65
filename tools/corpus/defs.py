"""The corpus of definitions the derive macros must accept: hand-written ones, each for a combination of features,
and generated ones."""
import random
from rust import *


class Mod:
    """one module of the corpus; `defs` are the definitions in it, `pre` other items"""

    def __init__(self, name, *defs, known=None, pre="", alias=None, shadow=(), tags=(), imports="use ::rt::*;\nuse crate::h;", lib="funcmap"):
        self.name, self.defs, self.pre, self.alias, self.shadow, self.imports, self.lib = name, defs, pre, alias or {}, set(shadow), imports, lib
        self.tags = set(tags)
        self.known = known
        for d in defs:
            d.mod = name


D = Def


def shared():
    return Mod(
        "h",
        D("One", "T", "(T)"),
        D("Two", "T, U", "{a: U, b: T, c: T}"),
        D("Cst", "const N: usize, T", "([T; N])"),
        D("Lf", "'a, T", "{s: &'a str, t: T}"),
        D("Bd", "T: Tr0", "(T)"),
        D("Mid", "T, const N: usize, U", "{t: T, u: [U; N]}"),
        D("En", "T, U", "A, B(T), C{u: U, t: T}", kind="enum"),
        D("Flag", "const B: bool, T, const C: char, U", "(T, U)"),
        D("Wh", "T, U", "(T, U)", where="T: Tr1<U>"),
        pre="",
    )


def hand():
    M = []

    def m(name, *a, **k):
        mk = {x: k.pop(x) for x in ("pre", "alias", "shadow", "imports", "known") if x in k}
        if a and isinstance(a[0], Def):
            M.append(Mod(name, *a, **mk))
        else:
            M.append(Mod(name, D("S", *a, **k), **mk))

    e = "enum"
    # shapes
    m("tuple1", "T", "(T)")
    m("named1", "T", "{x: T}")
    m("tuple_many", "T", "(T, u8, T, String, T)")
    m("named_many", "T", "{a: T, b: u8, c: T, d: String}")
    m("two_params", "T, U", "(U, T, U, T)")
    m("three_params", "T, U, V", "{v: V, t: T, u: U, vv: V}")
    m("enum_basic", "T", "A, B(T), C{x: T}", kind=e)
    m("enum_two", "T, U", "A(T, U), B{u: U, t: T}, C(u8), D", kind=e)
    m("enum_one", "T", "Only(T, T)", kind=e)
    m("enum_empty_braces", "T", "A{x: T}, B(T), C(u8, T, u8)", kind=e)
    m("phantom", "T", "(::core::marker::PhantomData<T>)")
    m("phantom_two", "T, U", "{p: ::core::marker::PhantomData<U>, t: T}")
    m("unused_second", "T, U", "(T, ::std::vec::Vec<U>)")
    # nesting
    m("opt", "T", "(Option<T>)")
    m("vec", "T", "(Vec<T>, u8, Vec<T>)")
    m("deep", "T", "(Option<Result<Vec<T>, T>>, Box<Option<T>>)")
    m("res_both", "T", "(Result<T, T>, T)")
    m("res_nested_both", "T", "(Result<Vec<T>, Option<T>>)")
    m("res_mix", "T, U", "{r: Result<U, T>, s: Result<T, U>}")
    m("map_val", "T", "(std::collections::BTreeMap<u8, T>)")
    m("map_both", "T: Ord", "(std::collections::BTreeMap<T, Vec<T>>)")
    m("map_key", "T: Ord, U", "(std::collections::BTreeMap<T, U>, T)")
    m("list", "T", "(std::collections::LinkedList<Option<T>>)")
    m("range", "T", "(std::ops::Range<T>, core::ops::Bound<T>, ::std::task::Poll<T>)")
    m("cflow", "T, U", "(std::ops::ControlFlow<T, U>, std::ops::ControlFlow<U, Vec<T>>)")
    m("refcell", "T", "(std::cell::RefCell<Option<T>>)")
    # arrays, tuples, parentheses
    m("array", "T", "([T; 3])")
    m("array0", "T", "([T; 0], T)")
    m("array_n", "T, const N: usize", "([T; N], T)")
    m("array_nested", "T, const N: usize", "([[T; N]; 2], T)")
    m("array_expr", "T", "([T; 1 + 2])")
    m("array_opt", "T", "([Option<T>; 2], Option<[T; 2]>)")
    m("array_indep", "T, U", "([U; 2], T, [u8; 4])")
    m("tup", "T", "((T, u8, T))")
    m("tup_nested", "T, U", "(((T, U), u8, (U, (T,))), T)")
    m("tup_array", "T, U", "([(T, U); 2], ([T; 2], U))")
    m("tup_one", "T", "((T,), ((T,),))")
    m("tup_unit", "T", "((), T)")
    m("tup_opt", "T", "(Option<(T, T)>, (Option<T>, Vec<(T, u8)>))")
    m("tup_indep_first", "T, U", "((U, T), (u8, T), (T, U))")
    m("tup_three", "T", "((T, T, T), T)")
    m("tup_field_order", "T", "{z: (T, (T, T)), y: T, x: (u8, T)}")
    m("paren", "T", "((T), Option<(T)>, ((T, (T))))", attrs="#[allow(unused_parens)]")
    m("paren_arr", "T", "(([T; 2]), (u8))", attrs="#[allow(unused_parens)]")
    # user types
    m("one", "T", "(h::One<T>, h::One<Vec<T>>)")
    m("one_one", "T", "(h::One<h::One<T>>)")
    m("two", "T", "(h::Two<T, u8>, h::Two<u8, T>, h::Two<T, T>)")
    m("two_nested", "T, U", "(h::Two<h::One<U>, T>, h::Two<Vec<T>, h::Two<U, T>>)")
    m("two_both", "T", "(h::Two<Vec<T>, Option<T>>, T)")
    m("cst", "T", "(h::Cst<3, T>)")
    m("cst_n", "T, const N: usize", "(h::Cst<N, T>, h::Cst<{ N }, Vec<T>>)")
    m("lf", "'a, T", "(h::Lf<'a, T>, T)")
    m("lf_static", "T", "(h::Lf<'static, T>)")
    m("lf_two", "'a, 'b, T", "(h::Lf<'a, T>, h::Lf<'b, T>)", values=0, known="lifetimes-of-one-type")
    m("bd", "T: Tr0", "(h::Bd<T>)")
    m("mid", "T, U", "(h::Mid<T, 2, U>, h::Mid<U, 1, T>, h::Mid<T, 2, T>)")
    m("flag", "T, U", "(h::Flag<true, T, 'x', U>, h::Flag<false, u8, 'y', T>, h::Flag<{ true }, T, 'z', T>)")
    m("en", "T, U", "(h::En<T, U>, h::En<Option<U>, T>, h::En<T, T>)")
    m("wh", "T: Tr1<u8>, U", "(h::Wh<T, u8>, U)")
    m("bd_where", "T, U", "(h::Bd<T>, U)", where="T: Tr0")
    m("local_helper", D("In", "X, Y", "{y: Y, x: X}"), D("S", "T, U", "(self::In<T, U>, In<U, T>, crate::local_helper::In<T, T>, super::local_helper::In<Vec<T>, u8>)"))
    m("alias", "T", "(Al<T>, Option<Al<T>>)", pre="type Al<X> = ::std::vec::Vec<X>;", alias={"Al": "Vec"})
    m("gat", "T, U", "(<u8 as Fam>::List<T>, <Vec<u8> as Fam>::Maybe<<u8 as self::Fam>::List<T>>, Option<<u8 as Fam>::List<U>>)", pre="pub trait Fam { type List<X>; type Maybe<X>; } impl<Y> Fam for Vec<Y> { type List<X> = ::std::vec::Vec<X>; type Maybe<X> = ::core::option::Option<X>; } impl Fam for u8 { type List<X> = ::std::vec::Vec<X>; type Maybe<X> = ::core::option::Option<X>; }", alias={"List": "Vec", "Maybe": "Option"})
    m("path_deep", "T, U", "(crate::path_deep::a::b::c::Two<T, U>, self::a::b::c::One<T>, a::b::c::En<Vec<U>, T>)", pre="pub mod a { pub mod b { pub mod c { pub use super::super::super::super::h::{En, One, Two}; } } }")
    m("tup_big", "T, U", "((T, u8, U, T, U, T, u8, U, T, U, T, U, T, U, T, u8), [(U, u8, T, T, T, T, T, T, T, T, T, T, T, U); 2])", debug=False)
    # more of everything
    m("wide_tuple", "T", "(" + ", ".join(["T"] * 13) + ")")
    m("wide_tuple_mixed", "T, U", "(" + ", ".join(["T", "u8", "U", "Option<T>", "T", "Vec<U>"] * 4) + ")")
    m("wide_named", "T, U", "{" + ", ".join(f"{'zyxwvutsrqponm'[i]}{i}: {'TU'[i % 3 // 2]}" for i in range(14)) + "}")
    m("wide_enum", "T, U", ", ".join(["A0"] + [f"A{i}({'T, ' * (i % 3)}U)" for i in range(1, 12)] + ["B{" + ", ".join(f"f{i}: T" for i in range(12)) + "}"]), kind=e)
    m("wide_params", "T, U, V, W, X, Y, Z", "(Z, Y, X, W, V, U, T, Option<Z>, Result<T, Z>)", values=2)
    m("wide_pred", "T: Ord, U", "(u8, Option<U>, Vec<T>, u8, U, Result<Vec<U>, T>, Option<Vec<std::collections::BTreeMap<T, U>>>, (Vec<Option<std::collections::BTreeMap<T, u8>>>, u8))", values=2)
    m("wide_args", D("In", "A0, A1, A2, const N: usize, A3, A4, A5, A6, A7, A8, A9, A10, A11", "(A0, A1, A2, A3, A4, A5, [A6; N], A7, A8, A9, A10, A11)", values=1, funcmap_attrs=["params(A5, A11)"], params=["A5", "A11"]), D("S", "T, U", "(In<u8, u8, u8, 2, u8, u8, T, u8, u8, u8, u8, u8, Vec<U>>, In<u8, u8, u8, 2, u8, u8, U, u8, u8, u8, u8, u8, T>)", values=2))
    m("deep_nest", "T, U", "(Box<Option<(U, Option<((T, Box<(u8, T)>), U)>)>>)")
    m("turbofish", "T", "(Vec::<T>)")
    m("paths", "T", "(::std::vec::Vec<T>, std::option::Option<T>, ::core::result::Result<u8, T>)")
    # independent fields of every kind
    m("indep_kinds", "'a, T, U: As", "{t: T, r: &'a str, q: U::Out, z: <u8 as As>::Out, w: <U as As>::Out, p: *const u8, t2: T}", funcmap_attrs=["params(T)"], params=["T"])
    m("indep_fn", "T", "(fn(u8) -> u8, T, fn())", values=0)
    m("indep_dyn", "'a, T", "(Box<dyn Fn(u8) -> u8 + 'a>, T)", values=0, debug=False)
    m("indep_mutref", "'a, T, U", "(T, &'a mut U)", values=0, funcmap_attrs=["params(T)"], params=["T"])
    m("indep_ref", "'a, T, U: ?Sized", "(T, &'a U)", values=0, funcmap_attrs=["params(T)"], params=["T"])
    m("indep_slice", "'a, T", "(T, &'a [u8], Box<[u8]>)", values=0)
    m("indep_unsized_box", "T, U: ?Sized", "(T, Box<U>)", values=0)
    m("indep_hr", "T", "(T, for<'x> fn(&'x u8) -> &'x u8)", values=0, debug=False)
    # generics: lifetimes, consts, defaults, bounds, where clauses
    m("lifetimes", "'a, 'b: 'a, T", "(&'a str, &'b str, T)")
    m("lt_bound", "'a, T: 'a", "(T, &'a str)")
    m("lt_where", "'a, 'b, T", "(T, &'a str, &'b str)", where="'a: 'b, T: 'a")
    m("static_bound", "T: 'static + Clone", "(T)")
    m("const_kinds", "const B: bool, T, const C: char, const I: i32", "(T, [T; 2])")
    m("const_first", "const N: usize, T, const M: usize, U", "([T; M], [U; N], T)")
    m("const_default", "T, const N: usize = 3", "([T; N])")
    m("type_default", "T, U = T, V = Vec<u8>", "(V, T, U)")
    m("default_both", "T = u8, const N: usize = 2", "(T, [T; N])")
    m("bound_self", "T: PartialOrd<T>", "(T, T)")
    m("bound_param", "T: Tr1<U>, U: Clone", "(T, U)")
    m("bound_rev", "T, U: Tr1<T>", "(U, T)")
    m("bound_two", "T, U: Two<T, Vec<T>> + Tr0", "(T, U)")
    m("bound_nested", "T: Tr1<Option<T>>, U: Tr1<Vec<T>>", "(T, U)")
    m("bound_hr", "T: for<'x> Lt<'x>", "(T)")
    m("bound_lt", "'a, T: Lt<'a>", "(&'a str, T)")
    m("bound_const", "T: Gen<3>, const N: usize, U: Gen<N>", "(T, U)")
    m("bound_many", "T: Tr0 + Clone + Ord + 'static, U: Clone + Clone", "(T, U)")
    m("bound_assoc", "T: As<Out = u16>, U: As", "(T, U, U::Out)", funcmap_attrs=["params(T)"], params=["T"])
    m("bound_iter", "T, U: Iterator<Item = T>", "(T, U)", values=0, known="assoc-bound-duplicated")
    m("bound_fn", "T: Fn(u8) -> u8, U", "(T, U)", values=0)
    m("bound_sized", "T: Sized, U", "(T, U)")
    m("maybe_mapped", "T: ?Sized", "(Box<T>)")
    m("maybe_mapped2", "T: ?Sized + Tr0, U", "(U, Box<T>)")
    m("maybe_other", "T, U: ?Sized", "(T, ::core::marker::PhantomData<U>)")
    m("maybe_where", "T, U", "(Box<T>, U)", where="T: ?Sized + Tr0")
    m("maybe_where_other", "T, U", "(T, ::core::marker::PhantomData<U>)", where="U: ?Sized")
    m("maybe_tail", "T, U: ?Sized", "{t: T, u: U}")
    m("maybe_tail_tuple", "T, U: ?Sized", "(T, (u8, U))", funcmap_attrs=["params(T)"], params=["T"])
    m("maybe_tail_type", "T, U", "{t: T, u: Last<U>}", where="U: ?Sized", pre="pub struct Last<X: ?Sized>(pub u8, pub X);", values=0, funcmap_attrs=["params(T)"], params=["T"])
    m("where_many", "T, U", "(T, U)", where="T: Tr0, U: Tr1<T>, Vec<T>: Tr0, T: Clone, Option<U>: Clone")
    m("where_indep", "T, U", "(T, U)", where="U: Clone, u8: Tr0, Vec<U>: Tr0")
    m("where_assoc", "T, U", "(T, U)", where="T: As, <T as As>::Out: Clone, U: As<Out = u16>")
    m("where_assoc_path", "T: As", "(T)", where="T::Out: Clone + Copy")
    m("where_hr", "T, U", "(T, U)", where="for<'x> T: Lt<'x>, for<'x> U: Lt<'x> + Tr1<&'x T>")
    m("where_ref", "T, U", "(T, U)", where="for<'x> &'x T: Sized, (T, U): Sized, [T; 2]: Clone")
    m("where_tuple", "T", "(T)", where="(T, u8): Clone")
    m("where_trailing", "T", "(T)", where="T: Tr0,")
    m("where_empty_bounds", "T", "(T)", where="T:, u8:")
    m("dup_bounds", "T: Clone, U: Tr1<T>", "(T, U)", where="T: Clone, T: Clone + Tr0, U: Tr1<T>")
    m("doc_attrs", "T, U", "{#[doc = \"x\"] t: T, #[allow(unused)] u: U, #[cfg(all())] v: Vec<T>}", attrs="/// A type\n#[allow(dead_code)]")
    m("cfg_out", "T", "{t: T, #[cfg(any())] gone: &'static T}", values=0)
    m("param_attrs", "#[allow(unused)] 'a, #[allow(non_camel_case_types)] t, #[allow(unused)] const N: usize", "(&'a str, [t; N])")
    m("variant_attrs", "T", "#[allow(unused)] A(#[allow(unused)] T), #[doc = \"b\"] B", kind=e)
    m("vis_crate", "T", "{pub(crate) a: T, b: T, pub(super) c: u8}", vis="pub(crate)")
    m("vis_private", "T", "(T, u8)", vis="", values=0)
    m("private_types", D("S", "T", "(T, P1, Option<P2<T>>)", values=0, vis="pub(crate)"), D("P2", "T", "(T)", vis="", values=0), pre="#[derive(Debug, PartialEq)] pub(crate) struct P1;")
    m("must_use", "T", "(T)", attrs="#[must_use]")
    m("non_exhaustive", "T", "A(T), B", kind=e, attrs="#[non_exhaustive]")
    m("repr_c", "T", "(T, u8)", attrs="#[repr(C)]")
    m("repr_int", "T", "A(T) = 3, B = 7", kind=e, attrs="#[repr(u8)]")
    m("packed_less", "T", "(T, T)", attrs="#[repr(align(16))]")
    m("deprecated", "T", "{#[deprecated] t: T, u: u8}", attrs="#[deprecated]")
    m("big_enum", "T, U", "V0, V1(T), V2(U), V3{a: T, b: U}, V4(Vec<T>), V5(Option<U>, T), V6{x: [T; 2]}, V7((T, U))", kind=e)
    m("copy_fields", "T: Copy", "(T, T)", values=0)
    m("unit_struct_variant", "T", "A{}, B(T), C()", kind=e, values=0)
    # defaults of const parameters, of every form
    m("cdef_block", "T, const N: usize = { 1 + 1 }", "([T; N])")
    m("cdef_paths", "T, const N: usize = { usize::MIN + 2 }, const M: usize = LEN, const K: usize = { self::LEN }", "([T; N], [u8; M], [T; K])", pre="pub const LEN: usize = 2;")
    m("cdef_neg", "T, const I: i32 = -3, const J: i32 = { -4 }", "(T, T)")
    m("cdef_bool_char", "T, const B: bool = true, const C: char = 'c', const X: bool = { !false }, const Y: u8 = b'x'", "(T, Option<T>)")
    m("cdef_mixed", "T, U = Vec<T>, const N: usize = { 2 }, V = [u8; 2]", "(T, U, V, [T; N])")
    m("cdef_enum", "T, const N: usize = { const fn two() -> usize { 2 } two() }", "A([T; N]), B", kind=e)
    # several higher-ranked predicates on one type
    m("hr_two", "T, U", "(T, U)", where="for<'x> U: Lt<'x>, for<'y> U: Tr1<&'y u8>")
    m("hr_two_mapped", "T, U", "(T, U)", where="for<'x> T: Lt<'x>, for<'y> T: Tr1<&'y u8>, for<'x> T: Tr1<&'x U>")
    m("hr_counts", "T, U", "(T, U)", where="for<'x> U: Lt<'x>, U: Tr0, for<'x, 'y> U: Two<&'x u8, &'y T>, for<'y, 'x> U: Tr1<(&'x T, &'y u8)>")
    m("hr_bounds", "T: for<'x> Lt<'x> + for<'y> Tr1<&'y u8> + Tr0, U: for<'x> Lt<'x> + for<'y> Tr1<&'y T>", "(T, U)")
    m("hr_both", "T: for<'x> Lt<'x>, U", "(T, U)", where="for<'z> T: Lt<'z>, for<'z, 'w> T: Two<&'z u8, &'w u8>, T: Lg<'static>")
    m("hr_shadow", "'a, T: Lg<'a>", "(T, &'a u8)", where="for<'b> T: Lt<'b>, for<'c> &'c T: Sized", values=0)
    m("hr_fn", "T, U: for<'x> Fn(&'x u8) -> &'x u8", "(T, U)", where="U: for<'y> Fn(&'y u8) -> &'y u8 + Clone", values=0)
    # arguments of every kind next to mapped ones
    m("arg_block", "T, const N: usize", "(h::Cst<{ 1 + 1 }, T>, h::Cst<{ N }, Vec<T>>, h::Mid<T, { 2 }, T>)")
    m("arg_const_path", "T", "(h::Cst<{ LEN }, T>, h::Cst<{ usize::MIN + 1 }, T>, h::Mid<T, { self::LEN }, u8>)", pre="pub const LEN: usize = 2;")
    m("arg_ci", D("Ci", "const I: i32, T, const C: char", "(T)", values=0), D("S", "T", "(Ci<-3, T, 'x'>, Ci<{ -3 }, Vec<T>, 'y'>)", values=0))
    m("arg_unsized", D("Uns", "T, U: ?Sized", "(T, ::core::marker::PhantomData<U>)"), D("S", "T, U: ?Sized", "(Uns<T, str>, Uns<T, [u8]>, Uns<T, dyn Tr0>, Uns<Vec<T>, U>)", funcmap_attrs=["params(T)"], params=["T"], values=0))
    m("arg_unsized_proj", D("Uns", "T, U: ?Sized", "(T, ::core::marker::PhantomData<U>)"), D("S", "T, U: UnsOut", "(Uns<T, <U as UnsOut>::Out>, Uns<T, U::Out>, Option<Uns<T, <u8 as UnsOut>::Out>>)", funcmap_attrs=["params(T)"], params=["T"], values=0), pre="pub trait UnsOut { type Out: ?Sized; } impl UnsOut for u8 { type Out = str; }")
    m("arg_refs", "'a, T, U: 'a", "(h::Two<T, &'a U>, h::Two<T, *const U>, h::Two<fn(U) -> U, T>, h::Two<Box<dyn Fn(&U) -> u8>, T>, h::Two<T, [U; 2]>, h::Two<T, (U, u8)>)", funcmap_attrs=["params(T)"], params=["T"], values=0, debug=False)
    m("arg_array_const", "T", "([T; LEN], [T; { LEN + 1 }], [Option<T>; self::LEN], [T; [1, 2].len()])", pre="pub const LEN: usize = 2;", values=0)
    m("indep_consts", "T, const N: usize", "(T, [u8; N], [[u8; N]; { 1 + 1 }], [u8; <u8 as HasLen>::LEN], [u8; ::core::mem::size_of::<u32>()])", pre="pub trait HasLen { const LEN: usize; } impl HasLen for u8 { const LEN: usize = 1; }", values=0)
    # fields whose types have no mapping: the definition compiles, the implementation is unusable
    m("no_mapping", "T", "(NoMap<T>, T)", pre="#[derive(Debug, PartialEq)] pub struct NoMap<T>(pub T);", values=0, tags=("unusable",))
    m("no_mapping_opt", "T, U", "(Option<NoMap<T>>, U)", pre="#[derive(Debug, PartialEq)] pub struct NoMap<T>(pub T);", values=0, tags=("unusable",))
    # options
    m("opt_params", "T, U, V", "(T, U, V)", funcmap_attrs=["params(T, V)"], params=["T", "V"])
    m("opt_params_split", "T, U, V", "(V, U, T)", funcmap_attrs=["params(V)", "params(U)"], params=["U", "V"])
    m("opt_params_one", "'a, T, const N: usize, U", "(&'a str, [T; N], U)", funcmap_attrs=["params(U)"], params=["U"])
    m("opt_params_unsupported", "T, U", "(&'static T, U)", funcmap_attrs=["params(U)"], params=["U"], values=0, where="T: 'static")
    m("opt_params_trailing", "T, U", "(T, U)", funcmap_attrs=["params(T,),"], params=["T"])
    m("opt_params_all", "T, U", "(T, U)", funcmap_attrs=["params(U, T)"])
    m("opt_crate", "T", "(Vec<T>, [T; 2], (T, u8))", funcmap_attrs=['crate = "funcmap"'])
    m("opt_crate_abs", "T, U", "(Vec<T>, U)", funcmap_attrs=['crate = "::funcmap", params(T)'], params=["T"])
    m("opt_crate_path", "T", "(Option<[T; 2]>, h::One<T>)", funcmap_attrs=['crate = "re::fm"'], pre="pub mod re { pub use ::funcmap as fm; }")
    m("opt_crate_crate", "T, U", "(Option<T>, U)", funcmap_attrs=["params(T)", 'crate = "crate::opt_crate_crate::re"'], params=["T"], pre="pub use ::funcmap as re;")
    # field types that are arguments of a macro
    m("mac_basic", "T, U", "(T, Option<T>, [T; 2], (T, U), U, (T,), u8)", grouped=True)
    m("mac_named", "'a, T, const N: usize", "{a: T, b: Vec<T>, c: &'a str, d: [T; N], e: h::Two<T, u8>}", grouped=True)
    m("mac_enum", "T, U", "A(T, Vec<U>), B{x: Result<T, U>}, C", kind=e, grouped=True)
    m("mac_bounds", "T: Tr1<U>, U", "(T, h::Bd<T>, U)", where="T: Tr0, Vec<U>: Tr0", grouped=True)
    m("only_func_map", "T", "(T, Option<T>)", derives=("FuncMap",))
    m("only_try", "T", "(T, Option<T>)", derives=("TryFuncMap",))
    return M


# ------------------------------------------------------------------ names


def names():
    """definitions and scopes whose names meet the ones the macros use"""
    M = []

    def m(name, *a, **k):
        mk = {x: k.pop(x) for x in ("pre", "alias", "shadow", "imports", "known") if x in k}
        if a and isinstance(a[0], Def):
            M.append(Mod(name, *a, tags=("names",), **mk))
        else:
            M.append(Mod(name, D("S", *a, **k), tags=("names",), **mk))

    e = "enum"
    letters = [chr(c) for c in range(65, 91)]
    m("n_abef", "A, B, F, E", "(A, B, F, E, Option<A>)")
    m("n_b", "B", "(B, [B; 2])")
    m("n_a", "A, U", "(A, U, Vec<A>)")
    m("n_f", "F, E", "(E, F, Result<E, F>)")
    m("n_e", "E: Clone, A: Tr1<E>", "(E, A)", where="A: Tr0")
    m("n_const_abef", "T, const A: usize, const B: usize, const F: usize, const E: usize", "([T; A], [T; B], [T; F], [T; E])")
    m("n_lt", "'A, 'B, 'f, 'value, T", "(&'A str, &'B str, &'f str, &'value str, T)")
    m("n_all_letters", D("Wide", ", ".join(letters), "(" + ", ".join(letters) + ")", values=1, debug=False))
    m("n_all_letters_p", D("Wide", ", ".join(letters) + ", __FUNCMAP_A, __FUNCMAP_B, __FUNCMAP_F, __FUNCMAP_E", "(" + ", ".join(letters) + ", __FUNCMAP_A, __FUNCMAP_B, __FUNCMAP_F, __FUNCMAP_E)", values=1, debug=False))
    m("n_wrap_z", "Z, Y", "(Z, Y)")
    m("n_types_abef", "T", "(A, B, Option<F>, E, T)", pre="#[derive(Debug, PartialEq)] pub struct A; #[derive(Debug, PartialEq)] pub struct B; pub type F = u8; #[derive(Debug, PartialEq)] pub struct E;", values=0)
    m("n_types_used_nested", D("B", "X", "(X)"), D("A", "X", "(X, B<X>)"), D("F", "T", "(A<T>, Option<B<T>>, T)"))
    m("n_type_only_in_where", "T", "(T)", where="A: Clone, T: Tr1<B>, F: Tr0", pre="#[derive(Clone)] pub struct A; pub struct B; pub struct F; impl Tr0 for F {}")
    m("n_type_only_in_bound", "T: Tr1<A> + Tr1<E>", "(T)", pre="pub struct A; pub struct E;")
    m("n_type_only_in_array_len", "T", "([T; B::K])", pre="pub struct B; impl B { pub const K: usize = 2; }", values=0)
    m("n_type_only_in_default", "T, U = A", "(T, U)", pre="pub struct A;")
    m("n_trait_named", "T: A + B", "(T)", pre="pub trait A {} pub trait B {} impl<T> A for T {} impl<T> B for T {}")
    m("n_trait_assoc", "T, U: F", "(T, U::E)", pre="pub trait F { type E; } impl<T> F for T { type E = u8; }", values=0, funcmap_attrs=["params(T)"], params=["T"])
    m("n_const_item", "T", "([T; A], [u8; E])", pre="const A: usize = 2; pub const E: usize = 1;", values=0)
    m("n_type_a_named", D("A", "T", "(T)"), D("B", "T, U", "(A<T>, U)"), D("E", "T", "X(T), Y", kind=e))
    m("n_mod_named", "T", "(A::X, T)", pre="pub mod A { #[derive(Debug, PartialEq)] pub struct X; }", values=0)
    m("n_macro_len", "T", "([T; two!()])", pre="macro_rules! two { () => { 2 } }", values=0)
    # each of the names the macros use, in each place of a definition a name can be in
    user = "#[derive(Debug, PartialEq, Clone)] pub struct {0}; impl {0} {{ pub const LEN: usize = 2; pub const fn len() -> usize {{ 2 }} }} impl As for {0} {{ type Out = u8; }} pub trait HasLen {{ const LEN: usize; }} impl HasLen for {0} {{ const LEN: usize = 2; }}"
    tr = "pub trait {0} {{ }} impl<X: ?Sized> {0} for X {{}}"
    co = "pub const {0}: usize = 2;"
    fn_ = "pub const fn {0}() -> usize {{ 2 }}"
    md = "pub mod {0} {{ #[derive(Debug, PartialEq)] pub struct X; pub const LEN: usize = 2; pub trait Tr {{}} impl<Y: ?Sized> Tr for Y {{}} }}"
    mac = "macro_rules! len {{ ($t:ident) => {{ $t::LEN }} }} macro_rules! tyx {{ ([$t:ty]) => {{ $t }} }} "
    places = [
        ("len", user, "T", "([T; {0}::LEN])", ""), ("ilen", user, "T", "(T, [u8; {0}::LEN])", ""), ("ilen_block", user, "T", "(T, [u8; {{ {0}::LEN }}])", ""),
        ("ilen_call", user, "T", "(T, [u8; {0}::len()], Vec<[u8; {0}::len() + 1]>)", ""), ("ilen_as", user, "T", "(T, [u8; <{0} as HasLen>::LEN])", ""),
        ("arg_len", user, "T", "(h::Cst<{{ {0}::LEN }}, T>, h::One<[u8; {0}::LEN]>)", ""), ("arg_blk", user, "T", "(h::Cst<{{ const X: usize = {0}::LEN; X }}, T>)", ""),
        ("fnarg", user, "T", "(T, fn({0}) -> u8)", ""), ("fnret", user, "T", "(T, Option<fn() -> {0}>)", ""), ("refd", user, "T", "(T, &'static {0})", ""), ("ptr", user, "T", "(T, *const {0})", ""),
        ("proj", user, "T", "(T, <{0} as As>::Out)", ""), ("tup", user, "T", "(T, ({0},), (u8, {0}))", ""), ("arr", user, "T", "(T, [{0}; 2], [Vec<{0}>; 1])", ""), ("tuparg", user, "T", "((T, {0}), h::Two<T, {0}>)", ""),
        ("dynarg", user, "T", "(T, Box<dyn Tr1<{0}>>)", ""), ("fnsugar", user, "T", "(T, Box<dyn Fn({0}) -> {0}>)", ""), ("opt", user, "T", "(Option<{0}>, T)", ""), ("macarg", mac + user, "T", "(T, [u8; len!({0})])", ""), ("mactype", mac + user, "T", "(T, Option<tyx!([{0}])>)", ""),
        ("where_len", user, "T", "(T)", "[T; {0}::LEN]: Clone"), ("where_rhs", user, "T", "(T)", "T: Tr1<{0}>, Vec<{0}>: Clone"), ("where_gen", user, "T", "(T)", "T: Gen<{{ {0}::LEN }}>"), ("where_hr", user, "T", "(T)", "for<'x> T: Tr1<&'x {0}>"), ("bound_fn", user, "T, U: Fn({0}) -> {0}", "(T, U)", ""),
        ("bound_assoc", user, "T: As<Out = {0}>", "(T)", ""), ("default", user, "T, U = {0}", "(T, U)", ""), ("cdefault", user, "T, const N: usize = {{ {0}::LEN }}", "([T; N])", ""),
        ("dyn", tr, "T", "(T, Box<dyn {0}>)", ""), ("bound", tr, "T: {0}, U", "(T, U)", "U: {0} + Clone"), ("bound_par", tr, "T: ({0}), U", "(T, U)", ""), ("const", co, "T", "([T; {0}], [u8; {0} + 1])", ""), ("const_arg", co, "T", "(h::Cst<{{ {0} }}, T>)", ""), ("const_path", co, "T", "(h::Cst<{{ self::{0} }}, T>, [T; self::{0}])", ""),
        ("fn", fn_, "T", "([T; {0}()], [u8; {0}()])", ""), ("mod", md, "T", "({0}::X, T, [u8; {0}::LEN], Box<dyn {0}::Tr>)", ""), ("mod_bound", md, "T: {0}::Tr", "(T)", "Vec<T>: {0}::Tr"),
    ]
    for nm in "ABEF":
        for pl, pre, gen, body, where in places:
            m(f"np_{pl}_{nm}", gen, body.format(nm), where=where.format(nm), pre=pre.format(nm), values=0, debug=False) if "{0}" not in gen else m(f"np_{pl}_{nm}", gen.format(nm), body.format(nm), where=where.format(nm), pre=pre.format(nm), values=0, debug=False)
        m(f"np_crate_{nm}", D("S", "T, U", "(T, Vec<U>, [T; 2])", funcmap_attrs=[f'crate = "{nm}"'], values=0), pre=f"use ::funcmap as {nm};")
        m(f"np_crate_mod_{nm}", D("S", "T, U", "A(T, Vec<U>), B", kind=e, funcmap_attrs=[f'crate = "{nm}::fm"'], values=0), pre=f"pub mod {nm} {{ pub use ::funcmap as fm; }}")
        m(f"np_hidden_{nm}", "T", "(T, [u8; hid!()])", pre=f"macro_rules! hid {{ () => {{ {nm}::LEN }} }} " + user.format(nm), values=0, known="macro-hidden-name" if nm in "AB" else None)
    # fields and variants
    m("n_fields", "T", "{f: T, value: T, field_0: T, field_f: T, self_: T, Output: T}", attrs="#[allow(non_snake_case)]")
    m("n_field_raw", "T", "{r#type: T, r#fn: Vec<T>, r#match: u8, r#f: T}")
    m("n_field_dup_look", "T", "{type_: T, r#type: T, field_type: T}")
    m("n_field_letters", "T", "{A: T, B: T, F: T, E: T}", attrs="#[allow(non_snake_case)]")
    m("n_variants_raw", "T", "r#type(T), r#fn{r#in: T}, Ok(T), Err(T), Some(T), None", kind=e, attrs="#[allow(non_camel_case_types)]", values=6)
    m("n_variants_letters", "T", "A(T), B(T), F(T), E(T), FuncMap(T), Result(T)", kind=e, values=6)
    m("n_variant_output", "T", "Output(T), Other", kind=e)
    m("n_variant_output2", "T, U", "Other(U), Output{x: T}, Output2", kind=e)
    m("n_variant_f", "T", "f(T), value(T), field_0(T), Self_(T)", kind=e, attrs="#[allow(non_camel_case_types)]", values=4)
    # raw parameters
    m("n_raw_param", "r#type, U", "(r#type, Vec<r#type>, U)", attrs="#[allow(non_camel_case_types)]")
    m("n_raw_a", "r#A, r#B", "(r#A, r#B, Option<r#A>)")
    m("n_raw_a_mixed", "r#A, U", "(A, Vec<r#A>, U)")
    m("n_raw_f_e", "r#F, r#E", "(r#E, r#F)")
    m("n_raw_t_mixed", "T, U", "(r#T, Option<T>, [r#T; 2], r#U)")
    m("n_raw_t_param", "r#T", "(T, Option<T>, r#T)", where="T: Clone, r#T: Tr0")
    m("n_raw_const", "T, const r#N: usize", "([T; N], [T; r#N])", values=0)
    m("n_raw_ty_name", D("r#struct", "T", "(T)", attrs="#[allow(non_camel_case_types)]", values=0), D("r#enum", "T", "r#a(T), r#b(r#struct<T>)", kind=e, attrs="#[allow(non_camel_case_types)]", values=0))
    m("n_raw_params_opt", "r#T, U", "(r#T, U)", funcmap_attrs=["params(r#T)"], params=["r#T"])
    m("n_raw_params_opt2", "r#T, U", "(r#T, U)", funcmap_attrs=["params(T)"], params=["r#T"])
    m("n_raw_params_opt3", "T, U", "(T, U)", funcmap_attrs=["params(r#U)"], params=["U"])
    m("n_raw_a_type", "T", "(r#A, r#B, T)", pre="#[derive(Debug, PartialEq)] pub struct A; #[derive(Debug, PartialEq)] pub struct B;", values=0)
    m("n_lower_param", "t, f, value", "(t, f, value, Option<f>)", attrs="#[allow(non_camel_case_types)]")
    m("n_param_output", "Output, FuncMap2, TypeParam", "(Output, FuncMap2, TypeParam, Vec<Output>)")
    m("n_param_funcmap", "FuncMap_, Result, Ok", "(FuncMap_, Result, Ok, ::core::option::Option<Result>)")
    m("n_param_sized", "Sized, Option_", "(Sized, Vec<Sized>, Option_)")
    m("n_param_core", "core, std", "(core, std, ::core::option::Option<core>)", attrs="#[allow(non_camel_case_types)]")
    m("n_param_funcmap_crate", "funcmap, T", "(funcmap, T, Vec<funcmap>)", attrs="#[allow(non_camel_case_types)]")
    # scope
    sc = lambda n, pre, *a, **k: m(n, *(a or ("T, U", "(T, [T; 2], ::std::vec::Vec<(T, U)>, ::core::result::Result<T, U>)")), pre=pre, **k)
    sc("s_std_names", "pub struct Result; pub struct Option; pub struct Vec; pub fn Ok() {} pub fn Err() {} pub struct Some; pub trait Sized {} pub trait FnMut {} pub trait Drop {} pub trait Fn {} pub struct Box;", shadow=("Result", "Option", "Vec", "Box"))
    sc("s_std_traits", "pub trait Try {} pub trait From {} pub trait Into {} pub trait Clone {} pub trait Iterator {}")
    sc("s_mods", "pub mod core {} pub mod std {} pub mod alloc {} pub mod funcmap {}", imports="use ::rt::*;")
    sc("s_macro", "macro_rules! vec { () => {} } macro_rules! panic { () => {} } macro_rules! matches { () => {} }")
    sc("s_types", "pub struct TypeParam; pub trait FuncMap_ {} pub struct Output; pub struct A; pub struct B; pub struct F; pub struct E;")
    sc("s_fns", "pub fn func_map() {} pub fn try_func_map() {} pub fn f() {} pub fn value() {} pub fn field_0() {}")
    sc("s_traits", "pub trait Evil: ::core::marker::Sized { fn func_map(self) {} fn try_func_map(self) {} fn func_map_over(self) {} fn clone(&self) {} } impl<X> Evil for X {}")
    sc("s_inherent", "impl<T, U> S<T, U> { pub fn func_map(self) {} pub fn try_func_map(self) {} }")
    m("s_glob", D("S", "T, U", "A(T), B{u: U, t: T}, C", kind=e), pre="pub use S::*;")
    sc("s_prelude_const", "pub const A: u8 = 1; pub static B: u8 = 2; pub const F: u8 = 3; pub const E: u8 = 4;")
    for w in ["f", "value", "field_0"]:
        sc("s_const_" + w, f"pub const {w}: u32 = 5;", known="item-named-like-binding")
        sc("s_static_" + w, f"pub static {w}: u32 = 5;", known="item-named-like-binding")
    m("s_no_prelude", D("S", "T, U", "(T, [T; 2], ::std::vec::Vec<(T, U)>, ::core::result::Result<T, U>, ::core::option::Option<T>)", debug=False), D("Q", "T: ::rt::Tr0, U", "A(T), B{u: U}, C", kind="enum", debug=False), imports="#![no_implicit_prelude]")
    sc("s_self_name", "pub struct self_;")
    sc("s_output_alias", "pub type Output = u32; pub type Self_ = u8;")
    return M


def editions():
    """definitions for crates of older editions, by edition"""
    common = [
        Mod("tuple", D("S", "T, U", "(T, [T; 2], ::std::vec::Vec<(T, U)>, ::std::result::Result<T, U>)")),
        Mod("named", D("S", "'a, T: Tr1<U>, const N: usize, U", "{a: [T; N], b: U, c: &'a str, d: ::std::option::Option<T>}", where="U: Tr0")),
        Mod("enm", D("S", "T, U", "A, B(T), C{u: U, t: (T, U)}", kind="enum")),
        Mod("names", D("S", "A, B, F, E", "{f: A, value: B, r: F, e: ::std::vec::Vec<E>}")),
        Mod("params_opt", D("S", "T, U", "(T, U)", funcmap_attrs=['params(U), crate = "::funcmap"'], params=["U"])),
        Mod("no_mapping", D("S", "T", "(NoMap<T>, T)", values=0), pre="#[derive(Debug, PartialEq)] pub struct NoMap<T>(pub T);"),
        Mod("mac", D("S", "T, U", "(T, Option<T>, [T; 2], (T, U))", grouped=True)),
    ]
    e18 = common + [
        Mod("raw", D("S", "r#type, U", "{r#fn: r#type, gen: U}", attrs="#[allow(non_camel_case_types)]")),
        Mod("cratepath", D("S", "T", "(crate::h::One<T>, Option<crate::h::Two<u8, T>>)")),
    ]
    e15 = common + [
        Mod("keywords", D("S", "r#async, r#await", "{r#async: r#async, r#dyn: r#await, r#try: ::std::vec::Vec<r#await>}", attrs="#[allow(non_camel_case_types)]"), imports="use rt::*;"),
        Mod("kw_variants", D("S", "T", "r#async(T), r#try{r#dyn: T}, r#await", kind="enum", attrs="#[allow(non_camel_case_types)]")),
        Mod("cratepath", D("S", "T", "(::h::One<T>, Option<::h::Two<u8, T>>)")),
    ]
    for m in e15:
        m.imports = "use rt::*;\nuse h;"
    for m in e18:
        m.imports = "use rt::*;\nuse crate::h;"
    e24 = [Mod(m.name, *m.defs, pre=m.pre) for m in common]
    e24.append(Mod("gen_kw", D("S", "r#gen, U", "{r#gen: r#gen, u: U}", attrs="#[allow(non_camel_case_types)]")))
    return {"2015": e15, "2018": e18, "2024": e24}


# ------------------------------------------------------------------ sizes


def sizes():
    """definitions that go through the numbers of elements, arguments, fields, variants, parameters and levels, with equal and different neighbours"""
    M = []

    def m(name, *a, **k):
        mk = {x: k.pop(x) for x in ("pre", "alias", "shadow", "imports", "known") if x in k}
        if a and isinstance(a[0], Def):
            M.append(Mod(name, *a, **mk))
        else:
            M.append(Mod(name, D("S", *a, **k), **mk))

    e = "enum"
    tup = lambda xs: "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
    every = lambda k, *xs: tup([xs[i % len(xs)] for i in range(k)])
    # tuples by number of elements: the mapped element first, in the middle, last, everywhere, in every second place
    pats = [
        ("first", lambda k: tup(["T"] + ["u8"] * (k - 1))),
        ("last", lambda k: tup(["u8"] * (k - 1) + ["T"])),
        ("middle", lambda k: tup(["u8"] * (k // 2) + ["T"] + ["u8"] * (k - k // 2 - 1))),
        ("all", lambda k: every(k, "T")),
        ("alt", lambda k: every(k, "T", "u8")),
        ("alt2", lambda k: every(k, "u8", "T", "U")),
        ("pairs", lambda k: tup([["u8", "u8", "T", "T", "String", "String", "U", "U"][i % 8] for i in range(k)])),
        ("two_kinds", lambda k: tup(["T"] + [["u8", "String"][i % 2] for i in range(k - 1)])),
        ("nested", lambda k: tup([["Option<T>", "u8", "Option<T>", "Vec<u8>", "Vec<u8>", "T"][i % 6] for i in range(k)])),
    ]
    for nm, f in pats:
        m("z_tuples_" + nm, "T, U", ", ".join(f"V{k}({f(k)})" for k in range(1, 13)) + ", W(U)", kind=e, values=3, debug=False)
    for k in (4, 5, 6, 7, 8, 9, 12):
        m(f"z_tuple_struct_{k}", "T, U", f"({every(k, 'T', 'u8', 'u8', 'u8', 'U')}, {every(k, 'u8', 'u8', 'T')}, U)", values=2, debug=False)
    # arguments
    ps = [f"A{i}" for i in range(10)]
    m("z_args", D("In", ", ".join(ps), "(" + ", ".join(ps) + ")", values=1), *[D(f"S{j}", "T, U", "(In<" + ", ".join(q[i % len(q)] for i in range(10)) + ">, U)", values=1) for j, q in enumerate([["T"], ["T", "u8"], ["u8", "T", "u8"], ["u8"] * 9 + ["T"], ["T"] + ["u8"] * 9, ["u8", "u8", "T", "T", "U", "U"], ["U", "Vec<T>", "u8", "Vec<T>"]])])
    m("z_arg_lengths", D("In", "const N: usize, A, const M: usize, B, const K: usize", "([A; N], [B; M], [u8; K])", values=1), D("S", "T, U, const N: usize", "(In<1, T, 1, U, 1>, In<2, U, 1, T, 2>, In<N, T, N, T, N>, In<1, u8, 1, T, 0>)", values=1))
    # fields
    m("z_fields_equal", "T", "(" + ", ".join(["T"] * 24) + ")", values=2)
    m("z_fields_indep", "T", "(" + ", ".join(["u8"] * 9 + ["T"] + ["u8"] * 9 + ["T"] + ["u8"]) + ")", values=2)
    m("z_fields_named", "T, U", "{" + ", ".join(f"{chr(97 + (i * 7) % 26)}{i % 3}: {['u8', 'T', 'T', 'String', 'U', 'Option<T>'][i % 6]}" for i in range(26)) + "}", values=2)
    m("z_fields_nums", "T, U", "{" + ", ".join(f"x{i}: {'TU'[(i * i) % 3 % 2]}" for i in range(22, 0, -1)) + "}", values=2)
    # variants
    m("z_variants_units", "T", ", ".join(f"U{i}" for i in range(6)) + ", A(T), " + ", ".join(f"W{i}" for i in range(6)) + ", B{x: T, y: u8}, Z", kind=e, values=3)
    m("z_variants_equal", "T, U", ", ".join(f"V{i}(T, u8, U)" for i in range(9)) + ", " + ", ".join(f"N{i}{{a: U, b: T}}" for i in range(9)), kind=e, values=2)
    m("z_variants_mixed", "T, U", ", ".join([f"V{i}" + ["", "(T)", "{t: T}", "(u8)", "()", "{}", "(U, T)", "{u: U, v: u8}"][(i * 3) % 8] for i in range(20)]), kind=e, values=2)
    m("z_variants_indep", "T", "A(u8), B{x: u8, y: String}, C, D(T), E(u8, u8), F(String), G(u8, T)", kind=e, values=4)
    # levels
    wrap = lambda f, k, x: x if k == 0 else f(wrap(f, k - 1, x))
    m("z_deep_option", "T", "(" + wrap("Option<{}>".format, 6, "T") + ")")
    m("z_deep_box", "T", "(" + wrap("Box<{}>".format, 6, "T") + ")")
    m("z_deep_vec", "T", "(" + wrap("Vec<{}>".format, 5, "T") + ")")
    m("z_deep_tuple", "T", "(" + wrap("({}, u8)".format, 8, "T") + ", " + wrap("(u8, {})".format, 8, "T") + ")", debug=False)
    m("z_deep_tuple1", "T", "(" + wrap("({},)".format, 8, "T") + ")")
    m("z_deep_array", "T", "(" + wrap("[{}; 1]".format, 6, "T") + ")")
    m("z_deep_paren", "T", "(" + wrap("({})".format, 6, "T") + ", " + wrap("(Option<({})>)".format, 4, "T") + ")", attrs="#[allow(unused_parens)]")
    m("z_deep_both", "T", "(" + wrap("Result<{0}, {0}>".format, 3, "T") + ")")
    m("z_deep_right", "T, U", "(" + wrap("Result<U, {}>".format, 4, "T") + ", " + wrap("Result<{}, T>".format, 3, "U") + ")")
    m("z_deep_user", "T", "(" + wrap("h::Two<u8, {}>".format, 3, "T") + ", " + wrap("h::One<{}>".format, 4, "T") + ", " + wrap("h::Mid<u8, 1, {}>".format, 3, "T") + ")", values=1)
    m("z_deep_mix", "T, U", "(" + wrap("Option<(u8, [Box<{}>; 1], u8)>".format, 2, "T") + ", " + wrap("(Vec<{}>, u8, u8, u8, U)".format, 3, "T") + ")", values=2, debug=False)
    # parameters
    for k in (2, 5, 9, 14):
        ps = [f"P{i}" for i in range(k)]
        m(f"z_params_{k}", ", ".join(ps), "(" + ", ".join(reversed(ps)) + ", Option<P1>)", values=1)
        m(f"z_params_mixed_{k}", "'a, " + ", ".join(f"const N{i}: usize, {p}" if i % 3 == 1 else p for i, p in enumerate(ps)), "(&'a str, " + ", ".join(f"[{p}; N{i}]" if i % 3 == 1 else p for i, p in enumerate(ps)) + ")", values=1)
    m("z_consts", "T, " + ", ".join(f"const N{i}: usize" for i in range(7)) + ", U", "(" + ", ".join(f"[{'TU'[i % 2]}; N{i}]" for i in (3, 1, 0, 6, 5, 2, 4)) + ", U)", values=1)
    m("z_lifetimes", ", ".join(f"'l{i}" for i in range(7)) + ", T, U", "(" + ", ".join(f"&'l{i} str" for i in (3, 1, 0, 6, 5, 2, 4)) + ", U, T)", values=2)
    m("z_bounds", "T: " + " + ".join(["Tr0", "Clone", "Tr1<u8>", "Tr1<u16>", "Tr1<U>", "Gen<1>", "Gen<2>", "Gen<3>", "'static"]) + ", U: Clone + Tr1<u8> + Tr1<U>", "(T, U)", values=1)
    m("z_preds", "T, U, V", "(T, U, V)", where=", ".join(["T: Tr0", "U: Tr1<T>", "V: Tr1<U>", "T: Tr1<V>", "Vec<T>: Clone", "Vec<U>: Clone", "Vec<V>: Clone", "(T, U, V): Sized", "U: Clone", "V: Clone + Tr0", "for<'x> T: Lt<'x>", "for<'x> U: Lt<'x>", "for<'x> V: Lt<'x>"]), values=1)
    # types of the definition's own scope that are named like ones the library, or the standard library, has
    own = "#[derive(Debug, PartialEq, Clone)] pub struct {}; "
    m("z_own_indep", "T", "(T, Option, Vec, Box, PhantomData, FuncMap, TypeParam)", pre="".join(map(own.format, ["Option", "Vec", "Box", "PhantomData", "FuncMap", "TypeParam"])), values=0)
    for nm in ("PhantomData", "Rc", "Arc", "Cell", "Cow", "Vec", "Option", "Box", "HashMap", "BTreeMap"):
        m("z_own_" + nm.lower(), D(nm, "X, Y", "{y: Y, x: X}"), D("S", "T, U", f"({nm}<T, U>, {nm}<U, {nm}<u8, T>>, {nm}<T, T>)"))
    for nm in ("PhantomData", "Result", "Option", "Vec"):
        m("z_own1_" + nm.lower(), D(nm, "X", "{n: u8, x: X, z: (X, u8)}"), D("S", "T, U", f"({nm}<T>, {nm}<{nm}<U>>, [{nm}<T>; 2], self::{nm}<(u8, T)>)"))
    return M


# ------------------------------------------------------------------ generated


class RandomDefs:
    """definitions drawn from the grammar the documentation supports"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def mod(self, n):
        r = self.r
        npar = r.choice([1, 1, 2, 2, 3])
        ps, consts, lts = [], [], []
        names = r.sample(["T", "U", "V", "A", "B", "F", "E", "X"], npar)
        nl = r.choice([0, 0, 1, 2])
        lts = ["'a", "'b"][:nl]
        nc = r.choice([0, 0, 1, 1, 2])
        consts = ["N", "M"][:nc]
        rest = [("t", x) for x in names] + [("c", x) for x in consts]
        r.shuffle(rest)
        self.tp = names
        self.cn = consts
        self.lt = lts
        self.bounds = {x: set() for x in names}
        fields = []
        kind = r.choice(["struct", "struct", "enum"])
        nv = 1 if kind == "struct" else r.choice([1, 2, 3, 4])
        vs = []
        left = list(names) + [None] * r.choice([0, 1, 2])
        groups = [[] for _ in range(nv)]
        for x in left:
            groups[r.randrange(nv)].append(x)
        for l in lts:
            groups[r.randrange(nv)].append(("lt", l))
        for g in groups:
            for _ in range(r.choice([0, 0, 1, 2])):
                g.append(None)
            r.shuffle(g)
        for i, g in enumerate(groups):
            fts = []
            for x in g:
                if isinstance(x, tuple):
                    fts.append(f"&{x[1]} str")
                elif x is None:
                    fts.append(self.ty(3))
                else:
                    fts.append(self.dep(x, 3))
            shape = r.choice(["tuple", "named"]) if fts else "unit"
            fields.append((shape, fts))
        for c in consts:
            pass
        decl = []
        for l in lts:
            decl.append(l)
        for k, x in rest:
            if k == "c":
                decl.append(f"const {x}: usize")
            else:
                b = sorted(self.bounds[x])
                if r.random() < 0.25:
                    b.append(r.choice(["Tr0", "Clone", "'static", "?Sized" if False else "Tr1<u8>", "Tr1<%s>" % r.choice(names), "As"]))
                decl.append(x + (": " + " + ".join(b) if b else ""))
        where = []
        if r.random() < 0.3:
            where.append(r.choice(["{0}: Tr0", "{0}: Tr1<{1}>", "Vec<{0}>: Tr0", "Option<{0}>: Clone", "for<'x> {0}: Lt<'x>", "{0}: Two<{1}, {0}>"]).format(r.choice(names), r.choice(names)))
        fn = ["a", "b", "c", "f", "value", "x1", "x2", "r#type", "y", "z"]
        if kind == "struct":
            body = self.body(fields[0], fn)
        else:
            vn = ["A", "B", "C", "D"]
            body = ", ".join(vn[i] + self.body(f, fn) for i, f in enumerate(fields))
        return Mod(n, D("S", ", ".join(decl), body, kind=kind, where=", ".join(where), grouped=r.random() < 0.12))

    def body(self, f, fn):
        shape, ts = f
        if shape == "unit":
            return ""
        if shape == "tuple":
            return "(" + ", ".join(ts) + ")"
        return "{" + ", ".join(f"{n}: {t}" for n, t in zip(fn + ["w%d" % i for i in range(20)], ts)) + "}"

    def indep(self, d):
        r = self.r
        return r.choice(["u8", "String", "bool", "()", "(u8, bool)", "Option<u8>", "Vec<String>", "[u8; 2]", "h::One<u8>"])

    def ty(self, d):
        if self.r.random() < 0.35:
            return self.indep(d)
        return self.dep(self.r.choice(self.tp), d)

    def dep(self, x, d):
        """a type that mentions x"""
        r = self.r
        if d == 0 or r.random() < 0.3:
            return x
        k = r.randrange(17)
        e = lambda: self.dep(x, d - 1)
        o = lambda: self.ty(d - 1)
        n = str(r.choice([1, 2, 3] + self.cn))
        if k == 0:
            return f"Option<{e()}>"
        if k == 1:
            return f"Vec<{e()}>"
        if k == 2:
            return f"Box<{e()}>"
        if k == 3:
            return f"Result<{e()}, {o()}>"
        if k == 4:
            return f"Result<{o()}, {e()}>"
        if k == 5:
            return f"[{e()}; {n}]"
        if k == 6:
            return f"({e()}, {o()})"
        if k == 7:
            return f"({o()}, {e()}, {o()})"
        if k == 8:
            return f"({e()},)"
        if k == 9:
            return f"h::One<{e()}>"
        if k == 10:
            return f"h::Two<{e()}, {o()}>"
        if k == 11:
            return f"h::Two<{o()}, {e()}>"
        if k == 12:
            return f"h::Cst<{n if not n.isalpha() else n}, {e()}>"
        if k == 13:
            return f"h::Mid<{e()}, {n}, {o()}>"
        if k == 14:
            return f"h::En<{o()}, {e()}>"
        if k == 15:
            ts = [e(), o()] + [self.indep(0) for _ in range(r.randint(0, 2))]
            ts = [ts[0]] + [r.choice(ts) for _ in range(r.randint(3, 9))]
            r.shuffle(ts)
            return "(" + ", ".join(ts) + ")"
        return f"std::collections::BTreeMap<u8, {e()}>"



class RichDefs:
    """definitions with every syntactic form in every place, as text; they are to compile, nothing else"""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def pick(self, *a):
        return self.r.choice(a)

    def some(self, xs, lo, hi):
        return [self.r.choice(xs) for _ in range(self.r.randint(lo, hi))]

    def mod(self, n):
        r = self.r
        names = r.sample(["T", "U", "V", "A", "B", "F", "E", "X", "t", "r#type", "Output"], r.choice([1, 2, 2, 3]))
        lts = ["'a", "'b", "'f"][: r.choice([0, 0, 1, 2])]
        consts = [("N", "usize"), ("M", "usize"), ("C", "char"), ("G", "bool"), ("I", "i32")]
        consts = r.sample(consts, r.choice([0, 0, 1, 2]))
        self.lt, self.cn = lts, [c for c, t in consts if t == "usize"]
        only = r.random() < 0.45
        mapped = r.sample(names, r.randint(1, len(names))) if only else list(names)
        self.free = [x for x in names if x not in mapped]
        self.names = names
        # one lifetime for all the mappings asked of h::Lf (known finding lifetimes-of-one-type)
        self.one = self.pick("'static", *lts)
        # unsized parameters: not mapped, and only behind a pointer or as a marker
        self.uns = [x for x in self.free if r.random() < 0.3]
        self.szd = [x for x in names if x not in self.uns]
        decl = []
        for l in lts:
            decl.append(l + (": " + lts[0] if l != lts[0] and r.random() < 0.5 else ""))
        order = [("t", x) for x in names] + [("c", c) for c in consts]
        r.shuffle(order)
        defaults = r.random() < 0.25
        nd = r.randint(0, len(order)) if defaults else len(order)
        self.assoc = set()
        for i, (k, x) in enumerate(order):
            at = "#[allow(unused)] " if r.random() < 0.06 else ""
            if k == "c":
                d = ""
                if i >= nd:
                    d = " = " + {"usize": self.pick("2", "{ 1 + 1 }", "{ usize::MIN }", "0x3", "2usize"), "char": self.pick("'c'", "{ 'd' }"), "bool": self.pick("true", "{ !true }"), "i32": self.pick("-1", "{ -1 }", "7")}[x[1]]
                decl.append(f"{at}const {x[0]}: {x[1]}{d}")
            else:
                b = self.bounds(x)
                d = ""
                if i >= nd:
                    if any(not y.startswith(("?", "'static")) for y in b):
                        b = [y for y in b if y.startswith(("?", "'static"))]
                    d = " = " + self.pick("u8", "Vec<u8>", "(u8, bool)", "[u8; 2]", "fn(u8) -> u8")
                decl.append(f"{at}{x}" + (": " + " + ".join(b) if b else "") + d)
        where = []
        if not (defaults and nd < len(order)):
            where = [self.pred() for _ in range(r.choice([0, 0, 1, 2, 4]))]
        kind = r.choice(["struct", "struct", "enum"])
        nv = 1 if kind == "struct" else r.randint(1, 4)
        groups = [[] for _ in range(nv)]
        for x in names:
            groups[r.randrange(nv)].append("::core::marker::PhantomData<%s>" % x if x in self.uns else x)
        for l in lts:
            groups[r.randrange(nv)].append(self.pick(f"&{l} u8", f"::core::marker::PhantomData<&{l} u8>", f"h::Lf<{l}, u8>"))
        for g in groups:
            g += [self.field(3) for _ in range(r.choice([0, 1, 2, 4]))]
            r.shuffle(g)
        fn = ["a", "f", "value", "x", "r#type", "field_0", "z", "r#fn", "b", "c", "d", "e"] + ["w%d" % i for i in range(9)]
        at = lambda: self.pick("", "", "", "", "/// doc\n", "#[doc = \"x\"] ", "#[cfg(all())] ", "#[allow(unused)] ")
        vs = []
        for i, g in enumerate(groups):
            sh = self.pick("t", "n") if g else self.pick("t", "n", "u")
            v = (lambda: self.pick("", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) ")) if kind == "struct" else (lambda: "")
            tr = "," if g and r.random() < 0.4 else ""
            if sh == "u":
                vs.append("")
            elif sh == "t":
                vs.append("(" + ", ".join(at() + v() + t for t in g) + tr + ")")
            else:
                vs.append("{ " + ", ".join(f"{at()}{v()}{nm}: {t}" for nm, t in zip(fn, g)) + tr + " }")
        self.vis = self.pick("pub ", "pub ", "pub(crate) ", "")
        head = f"#[derive({self.pick('::funcmap::FuncMap, ::funcmap::TryFuncMap', '::funcmap::TryFuncMap, ::funcmap::FuncMap', '::funcmap::FuncMap', '::funcmap::TryFuncMap')})]\n"
        opts = []
        if only:
            ms = [x for x in mapped]
            r.shuffle(ms)
            opts += [f"params({', '.join(ms)}{self.pick('', ',')})"] if r.random() < 0.5 else [f"params({x})" for x in ms]
        if r.random() < 0.1:
            opts.append('crate = "::funcmap"')
        r.shuffle(opts)
        if opts and r.random() < 0.4:
            head += f"#[funcmap({', '.join(opts)})]\n"
        else:
            head += "".join(f"#[funcmap({o})]\n" for o in opts)
        head += self.pick("", "", "/// doc\n", "#[non_exhaustive]\n", "#[must_use]\n", "#[repr(C)]\n" if all("(" in v or "{" in v for v in vs) else "")
        w = (" where " + ", ".join(where) + self.pick("", ",")) if where else self.pick("", "", "", " where")
        gens = "<" + ", ".join(decl) + self.pick("", ",") + ">"
        nm = self.pick("S", "S", "S", "r#struct")
        if kind == "struct":
            b = vs[0]
            text = f"{head}{self.vis}struct {nm}{gens}" + (f"{w} {b}" if b.startswith("{") else f"{b}{w};")
        else:
            vn = r.sample(["A", "B", "C", "E", "F", "Ok", "None", "r#match", "Output", "Self_"], len(vs))
            text = f"{head}{self.vis}enum {nm}{gens}{w} {{ " + ", ".join(at() + n_ + v for n_, v in zip(vn, vs)) + self.pick("", ",") + " }"
        return Mod(n, pre=text)

    def bounds(self, x):
        r = self.r
        o = r.choice(self.names)
        p = ["Tr0", "Clone", "'static", f"Tr1<{o}>" if o in self.szd else "Tr1<u8>", "Tr1<Vec<u8>>", "for<'x> Lt<'x>", "for<'y> Tr1<&'y u8>", "Gen<3>", "Gen<{ 1 + 1 }>", "::rt::Tr0", "(Tr0)", "::core::fmt::Debug", "Send", "for<'p, 'q> Two<&'p u8, &'q u8>"] + [f"Lg<{l}>" for l in self.lt] + [l for l in self.lt] + [f"Gen<{c}>" for c in self.cn]
        b = []
        for y in self.some(p, 0, 3) if r.random() < 0.6 else []:
            # two different implementations of one trait make method calls ambiguous for the user, not for the macros; fine
            b.append(y)
        if x in self.uns:
            b = [y for y in b if y != "Clone"] + ["?Sized"]
        return b

    def pred(self):
        r = self.r
        x = r.choice(self.szd or ["u8"])
        y = r.choice(self.szd or ["u8"])
        p = [f"{x}: Tr0", f"{x}: Tr1<{y}> + Clone", f"Vec<{x}>: Tr0", f"Option<{x}>: Clone", f"for<'x> {x}: Lt<'x>", f"for<'y> {x}: Tr1<&'y u8>", f"for<'x> {x}: Tr1<&'x u16> + Tr0", f"{x}: for<'z> Lt<'z>", f"{x}: Two<{y}, {x}>", f"({x}, {y}): Sized", f"[{x}; 2]: Clone", f"{x}:", f"u8: Tr0", f"for<'x> &'x {x}: Sized", f"{x}: Sized", f"fn({x}) -> {y}: Copy", f"for<'x> fn(&'x {x}) -> {y}: Copy", f"*const {x}: Copy", f"::std::vec::Vec<{x}>: Tr0", f"{x}: Gen<2> + Gen<{{ 3 }}>", f"Box<{x}>: Tr1<{y}>", "(): Sized"]
        p += [f"{l}: 'static" if False else f"{x}: {l}" for l in self.lt] + [f"{x}: Lg<{l}>" for l in self.lt] + [f"'static: {l}" for l in self.lt] + [f"[{x}; {c}]: Clone" for c in self.cn]
        return r.choice(p)

    def indep(self, d):
        """a type that mentions no mapped parameter"""
        r = self.r
        u = r.choice([x for x in self.free if x not in self.uns] or ["u8"])
        q = r.choice(self.free or ["str"])
        p = ["u8", "String", "()", "(u8, bool)", "[u8; 2]", "[u8; { 1 + 1 }]", "Option<fn(&u8) -> &u8>", "unsafe extern \"C\" fn(u8) -> u8", "fn() -> !", "Box<dyn for<'x> Fn(&'x u8) -> &'x u8>", "Box<dyn Tr0 + Send>", "Box<[u8]>", "Box<str>", "&'static str", "&'static [u8]", "*const u8", "*mut [u8]", "<Vec<u8> as IntoIterator>::Item", "<u8 as As>::Out", "[u8; ::core::mem::size_of::<u32>()]", "h::One<u8>", "h::Cst<{ 2 }, u8>", "for<'x> fn(&'x u8)", "&'static dyn Tr0", "fn(x: u8) -> u8", "[fn(u8); 2]", "h::Flag<true, u8, 'z', u8>", "(fn(u8) -> u8)", "::std::vec::Vec::<u8>"]
        p += [f"Option<{u}>", f"[{u}; 2]", f"({u}, u8)", f"fn({u}) -> {u}", f"*const {u}", f"Box<dyn Fn({u}) -> u8>", f"::core::marker::PhantomData<{q}>", f"*const {q}", f"::core::marker::PhantomData<fn(&{q})>", f"Box<{q}>", f"h::One<{u}>"] * (1 if self.free else 0)
        p += [f"[u8; {c}]" for c in self.cn] + [f"h::Cst<{c}, u8>" for c in self.cn] + [f"&{l} str" for l in self.lt] + [f"&{l} mut u8" for l in self.lt] + [f"Box<dyn Tr0 + {l}>" for l in self.lt] + [f"::std::borrow::Cow<{l}, str>" for l in self.lt]
        if d > 0 and r.random() < 0.25:
            return self.pick("Option<%s>", "Vec<%s>", "(%s, u8)", "[%s; 1]", "(%s)", "h::One<%s>") % self.indep(d - 1)
        return r.choice(p)

    def field(self, d):
        mapped = [x for x in self.names if x not in self.free]
        return self.indep(d) if self.r.random() < 0.45 else self.dep(self.r.choice(mapped), d)

    def dep(self, x, d):
        r = self.r
        if d == 0 or r.random() < 0.3:
            return self.pick(x, x, x, f"({x})")
        e = lambda: self.dep(x, d - 1)
        o = lambda: self.field(d - 1)
        i = lambda: self.indep(d - 1)
        n = self.pick("1", "2", "0", "{ 1 + 1 }", "0x2", "1usize", *self.cn)
        na = self.pick("1", "2", "{ 1 + 1 }", "usize::MIN", "1 + 1", *self.cn)
        c = [lambda: f"Option<{e()}>", lambda: f"::std::vec::Vec<{e()}>", lambda: f"Box<{e()},>", lambda: f"Result<{e()}, {o()}>", lambda: f"Result<{o()}, {e()}>", lambda: f"[{e()}; {na}]", lambda: f"({e()}, {o()})", lambda: f"({o()}, {e()}, {o()},)", lambda: f"({e()},)", lambda: f"h::One::<{e()}>", lambda: f"h::Two<{e()}, {o()}>", lambda: f"h::Two<{o()}, {e()}>", lambda: f"h::Cst<{n}, {e()}>", lambda: f"h::Mid<{e()}, {n}, {o()}>", lambda: f"h::En<{i()}, {e()}>", lambda: f"std::collections::BTreeMap<u8, {e()}>", lambda: f"h::Flag<{self.pick('true', '{ !true }')}, {e()}, {self.pick(chr(39) + 'x' + chr(39), '{ ' + chr(39) + 'y' + chr(39) + ' }')}, {o()}>", lambda: f"h::Lf<{self.one}, {e()}>", lambda: f"::core::ops::ControlFlow<{o()}, {e()}>", lambda: f"(({e()}))", lambda: f"crate::h::One<{e()}>"]
        return r.choice(c)()
