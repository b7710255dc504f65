DV = "contract-based deductive verification of the compiled MIR (dv + z3)"
DVP = "contract-based deductive verification of each generated implementation (dv + z3 on its MIR), over a corpus of definitions"
HDR = "contract-based deductive verification (dv + z3 on the MIR of the methods; obligations about implementation headers discharged by rustc's trait solver)"
CLAIMS = {
 "C01": {"technique": DV, "level": "proof", "level_note": "Every func_map of the library against a postcondition computed from its signature, for all A, B, F, N, lengths, stateful and panicking closures; loops by inductive invariants. Trusts contracts of std containers and iterators, rustc's MIR and dv's translation. A function dv cannot decide is checked by a bounded native run and reported as such."},
 "C02": {"technique": DV, "level": "proof", "level_note": "As C01, for every try_func_map: success iff all calls succeed, first error returned unchanged, no call after it."},
 "C03": {"technique": DV, "level": "proof", "level_note": "Ownership (every value moved out or dropped exactly once), memory safety of array::try_map with its guard, and absence of library panics, on every normal, error and unwinding path of every func_map and try_func_map. Same trusted base as C01."},
 "C04": {"technique": DV + "; the laws are proved by running the methods of the implementation in sequence on one symbolic container", "level": "proof", "level_note": "For every func_map and try_func_map of the library, and of every derived implementation of the corpus: identity, composition, try_func_map with Ok equals func_map, composition of fallible mappings, for all values, types, lengths and pure total functions; loops by inductive invariants, nested types by the same laws as contracts. Bounded over definitions for derived implementations. An exhausted RangeInclusive is a recorded finding."},
 "C05": {"technique": DV + "; mapping two parameters in either order is run symbolically on one container and the results compared", "level": "proof", "level_note": "For every pair of parameters of every library type with several, and of every derived implementation of the corpus: mapping one then the other equals the other order, for all values, types and functions. Bounded over definitions for derived implementations; nested types commute by contract."},
 "C06": {"technique": HDR, "level": "proof", "level_note": "Both *_over default methods against the contract of the plain method of an unknown implementation; every override against the plain contract; marker soundness (sealed, only TypeParam<N> for itself, the named marker selects the implementation) as entailments for all markers. Derived implementations: those of the corpus keep the default."},
 "C07": {"technique": HDR, "level": "proof", "level_note": "For every implementation header: the output is the self type with the indexed argument replaced, and the other trait holds under the same requirements with the same output, for all instantiations. Derived implementations: those of the corpus. Hashed collections with a non-default hasher are a recorded finding."},
 "C18": {"technique": HDR, "level": "proof", "level_note": "Per feature set: mutual entailment between the implementations and the documented table, crates loaded by a no_std user, every method proved against the same contracts, and programs that must and must not compile."},
 "C08": {"technique": DVP, "level": "translation_validation", "level_note": "For every definition of the corpus (hand-written and generated), the derived func_map is proved for all inputs, type arguments and closures against the contract computed from the definition, nested mappings by their contracts; then run. Bounded over definitions, unbounded over inputs."},
 "C09": {"technique": DVP, "level": "translation_validation", "level_note": "As C08 for the derived try_func_map, with the error and unwinding paths and the ownership of every value."},
 "C10": {"technique": "bounded: rustc's type checker decides the obligations of each generated implementation, over a corpus of definitions", "level": "other", "level_note": "Definitions of the corpus only (hand-written feature combinations and generated ones, four editions); for those the generic implementation is type-checked for all instantiations."},
 "C12": {"technique": DVP + " built around the names the macros use", "level": "translation_validation", "level_note": "Definitions and scopes whose names meet the generated ones: compiled, proved and run. Bounded over definitions."},
 "C11": {"technique": HDR, "level": "translation_validation", "level_note": "For every definition of the corpus the bounds the documentation asks for are computed as an implementation header; the derived header and the documented one are shown to entail each other for all instantiations (sound and complete). Bounded over definitions."},
 "C16": {"technique": HDR, "level": "translation_validation", "level_note": "For every definition of the corpus: the derived implementations entail a marker implementation whose coherence excludes any Drop type; and programs whose Drop implementations (plain, generic, conditional, elsewhere) must be rejected. Bounded over definitions and programs."},
 "C13": {"technique": "bounded: rejected definitions compiled against the places where errors are due", "level": "exploration", "level_note": "Every unsupported position alone, in every supported constructor and around every other, in every kind of field, and random nestings: the error must be exactly at the type, and nothing generated. Bounded over definitions."},
 "C14": {"technique": "ownership contracts on errors, every drop, overwriting and call in the macro crate's MIR an obligation (dv); bounded: definitions with many mistakes compiled against the places where errors are due", "level": "exploration", "level_note": "Deductive: no function of funcmap_derive loses an error it was given or made, for all inputs. Bounded: random definitions with any number of mistakes of each stage; all errors due, no other, each in its place, nothing generated."},
 "C15": {"technique": HDR, "level": "translation_validation", "level_note": "For every subset of the parameters of the corpus's definitions: the set of implementations is the one named, headers entail and are entailed by the documented ones, methods proved against their contracts; the same with the library under another name; mistaken options must be rejected where they stand. Bounded over definitions."},
 "C17": {"technique": "frame contracts on every function of the macro crate, each mention in its compiled MIR an obligation against the callee's effect contract (dv); repeated expansions compared for a failing input", "level": "proof", "level_note": "Every function, static, thread-local and pointer conversion mentioned by funcmap_derive's MIR keeps the frame: nothing but the arguments is read, no order of a hashed collection is observed. Trusts the effect contracts of std, proc_macro, syn, quote, proc-macro2 and indexmap."},
}
NOT = {}
