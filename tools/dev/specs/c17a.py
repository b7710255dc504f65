ID="facade-remembered"
PROPERTY="C17"
NEEDS="a crate where one definition names the library by a crate option and a later one in another module does not"
BREAKS="the generated code of the second definition refers to the path given for the first: it depends on earlier expansions in the process"
EDITS=[("funcmap_derive/src/input.rs","""            crate_path: opts.crate_path.unwrap_or_else(|| {
                let path = CRATE_IDENT.into();

                Path {
                    leading_colon: Some(<Token![::]>::default()),
                    ..path
                }
            }),
""","""            crate_path: opts
                .crate_path
                .map(remember_crate_path)
                .or_else(remembered_crate_path)
                .unwrap_or_else(|| {
                    let path = CRATE_IDENT.into();

                    Path {
                        leading_colon: Some(<Token![::]>::default()),
                        ..path
                    }
                }),
"""),("funcmap_derive/src/input.rs","""/// Type parameter for which to derive a mapping
#[derive(Debug)]""","""thread_local! {
    static CRATE_PATH: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

/// Remembers a configured crate path, so that it need not be repeated
fn remember_crate_path(path: Path) -> Path {
    CRATE_PATH.with(|cell| *cell.borrow_mut() = Some(path.to_token_stream().to_string()));
    path
}

fn remembered_crate_path() -> Option<Path> {
    CRATE_PATH.with(|cell| {
        cell.borrow()
            .as_deref()
            .and_then(|path| syn::parse_str(path).ok())
    })
}

/// Type parameter for which to derive a mapping
#[derive(Debug)]""")]
MAIN='''mod a {
    mod facade { pub use funcmap::*; }
    #[derive(funcmap::FuncMap)]
    #[funcmap(crate = "self::facade")]
    pub struct One<T>(pub T);
}
mod b {
    #[derive(funcmap::FuncMap)]
    pub struct Two<T>(pub T);
}
fn main() {
    use funcmap::FuncMap;
    assert_eq!(a::One(1).func_map(|x| x + 1).0, 2);
    assert_eq!(b::Two(1).func_map(|x| x + 1).0, 2);
}
'''
