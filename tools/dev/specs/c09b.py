ID="arrays-of-tuples-in-two-passes"
PROPERTY="C09"
NEEDS="a derived fallible mapping over an array of tuples (or arrays) in which an element other than the last fails"
BREAKS="all elements are mapped before the first error is returned: the closure is called again after an error"
EDITS=[("funcmap_derive/src/map.rs","""                let closure = self.map_closure(inner_ty)?;
                Ok(self
""","""                let closure = self.map_closure(inner_ty)?;

                if let (Derivable::Fallible, Type::Tuple(..)) =
                    (self.mapping.derivable, &**inner_ty)
                {
                    // helps type inference for the composite element type
                    let mapped = quote!(#crate_path::FuncMap::func_map(#mappable, #closure));
                    let id = quote!(::core::convert::identity);
                    return Ok(quote!(#crate_path::#trait_ident::#fn_ident(#mapped, #id)?));
                }

                Ok(self
""")]
MAIN='''use funcmap::TryFuncMap;
#[derive(TryFuncMap, Debug)]
struct S<T>([(T, u8); 3]);
fn main() {
    let mut calls = vec![];
    let r = S([(1, 0), (2, 0), (3, 0)]).try_func_map(|x| {
        calls.push(x);
        if x == 2 { Err(x) } else { Ok(x) }
    });
    assert_eq!(r.unwrap_err(), 2);
    assert_eq!(calls, [1, 2]);
}
'''
