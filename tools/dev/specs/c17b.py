ID="errors-in-hash-order"
PROPERTY="C17"
NEEDS="a params option naming two or more things that are not parameters, and a process whose hash seed orders them differently"
BREAKS="the order of the reported errors changes from one run of the compiler to the next"
EDITS=[("funcmap_derive/src/input.rs","""        for param in opts.params {
            match (""","""        let mut unknown_params = HashSet::new();

        for param in opts.params {
            match ("""),("funcmap_derive/src/input.rs","""                (_, param) => {
                    result_builder
                        .add_err(syn::Error::new_spanned(param, "unknown generic parameter"));
                }
            }
        }
""","""                (_, param) => {
                    unknown_params.insert(param);
                }
            }
        }

        result_builder.extend(
            unknown_params
                .into_iter()
                .map(|param| syn::Error::new_spanned(param, "unknown generic parameter")),
        );
""")]
MAIN='''#[derive(funcmap::FuncMap)]
#[funcmap(params(Q1, Q2, Q3, Q4, Q5, Q6, Q7, Q8))]
struct S<T>(T);
fn main() {}
'''
RUN='''for k in 1 2 3 4 5; do
  touch src/main.rs
  timeout 250 cargo check --offline -q >out.$k 2>&1
  grep -q "unknown generic parameter" out.$k || { cat out.$k; exit 2; }
  cmp -s out.1 out.$k || exit 1
done
exit 0
'''
