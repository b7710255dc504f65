"""C17: the output of the macros is a function of the definition alone.

Frame contracts: no function of funcmap_derive reads anything but its arguments. Every function, static and pointer
conversion mentioned by the compiled code (dv, DV_EFFECTS) is one obligation against the effect contract of what is
mentioned: functions of the crate are obligations of their own; std, proc_macro and the dependencies have the contracts
below. Then the same definitions are expanded in several processes, orders, places and environments and compared."""
import os, random, re, sys
import vlib
from vlib import *
import probe

sys.path.insert(0, os.path.join(VERIF, "tools", "corpus"))
import build as B
import defs as C

# ------------------------------------------------------------------ effect contracts

# std itself (core and alloc are separate): what may be called
STD_PURE = re.compile(
    r"^(std::collections::Hash(Map|Set)::<|std::collections::hash_(map|set)::|std::rt::|std::panicking::|std::error::|std::hash::DefaultHasher|"
    r"std::ffi::Os(Str|String)::|std::collections::hash::|<std::collections::Hash)"
)
# core, alloc: what may not be
CORE_IMPURE = re.compile(
    r"sync::atomic|sync::Exclusive|Argument::<'_>::new_pointer|::expose_provenance|::addr$|ptr::hash|ptr::fn_addr|core::arch|::from_exposed|"
    r"with_exposed_provenance|panic::Location|alloc::alloc|intrinsics::caller_location|std::io|LazyLock|OnceLock|lazy::|^std::(env|fs|time|thread|process|net|os)::"
)
# operations of hashed collections whose result does not depend on the order of their elements
UNORDERED_OK = {
    "new", "with_capacity", "with_hasher", "with_capacity_and_hasher", "insert", "contains", "contains_key", "get", "get_mut", "get_key_value", "remove", "remove_entry", "take", "replace",
    "len", "is_empty", "clear", "reserve", "shrink_to_fit", "entry", "is_subset", "is_superset", "is_disjoint", "get_or_insert_with", "try_insert",
    "or_insert", "or_insert_with", "or_default", "or_insert_with_key", "and_modify", "key", "into_mut", "remove", "insert_entry", "get_many_mut",
    # values of these are themselves unordered: what is done with them is an obligation of its own
    "iter", "into_iter", "drain", "keys", "values", "into_keys", "into_values", "union", "intersection", "difference", "symmetric_difference", "extract_if",
}
# traits through which hashed collections and their iterators may go
UNORDERED_TRAITS = {
    "std::default::Default::default", "std::clone::Clone::clone", "std::clone::Clone::clone_from", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne",
    "std::ops::Index::index", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref", "std::convert::Into::into", "std::convert::From::from",
    "std::ops::Drop::drop", "std::mem::take", "std::mem::replace", "std::mem::swap", "std::mem::drop", "std::ops::FromResidual::from_residual", "std::ops::Try::branch",
    "std::iter::IntoIterator::into_iter", "std::iter::Iterator::map", "std::iter::Iterator::filter", "std::iter::Iterator::filter_map", "std::iter::Iterator::flat_map", "std::iter::Iterator::flatten",
    "std::iter::Iterator::cloned", "std::iter::Iterator::copied", "std::iter::Iterator::chain", "std::iter::Iterator::by_ref", "std::iter::Iterator::inspect",
    "std::iter::Iterator::any", "std::iter::Iterator::all", "std::iter::Iterator::count", "std::iter::Iterator::min", "std::iter::Iterator::max", "std::iter::Iterator::sum", "std::iter::Iterator::size_hint",
    "std::hash::BuildHasher::build_hasher",
}
UNORDERED_FNS = re.compile(r"^std::(option::Option|result::Result|rc::Rc|cell::\w+|boxed::Box|vec::Vec)::<|^std::mem::(take|replace|swap|drop|forget)$")
SORTED_SINK = re.compile(r"^(std::collections::(HashSet|HashMap|BTreeSet|BTreeMap)<|bool$|usize$)")
SPAN_IMPURE = re.compile(r"Span::(start|end|line|column|byte_range|source_text|source_file|file|local_file|unstable|source|parent|save_span|recover_proc_macro_span|eq|join)$|tracked_env|tracked_path|SourceFile|expand_expr|is_available$")
DEBUG_OPEN = re.compile(r"\b(syn|proc_macro2|proc_macro|indexmap|quote)::|\*(const|mut) |\bfn\(|std::collections::[hH]ash|std::any::TypeId")
KNOWN_CRATES = {"syn", "quote", "proc_macro2", "indexmap", "proc_macro", "core", "alloc", "std"}

ASSUME = [
    "effect contracts of std, proc_macro, syn, quote, proc-macro2 and indexmap: the functions allowed are functions of their arguments, IndexMap and IndexSet iterate in insertion order whatever the hasher",
    "closures given to order-insensitive consumers of a hashed collection (any, all, count, ...) keep no state",
    "the compiler hands the macro nothing but the tokens of the definition; the text of the tokens is what counts, not their positions",
    "memory allocation and panics are not effects",
    "rustc's MIR construction and dv's listing of what it mentions",
]


def judge(f):
    """None if the mention keeps the frame, else what it may depend on"""
    k, path = f["kind"], f["path"]
    if k == "local":
        return None
    if k != "call":
        return {"static": "state kept in a static: ", "thread-local": "state kept per thread: ", "address": "an address: ", "asm": ""}[k] + path
    crate = f["crate"]
    last = path.rsplit("::", 1)[-1]
    if crate not in KNOWN_CRATES:
        return f"a function without an effect contract: {crate} {path}"
    if re.search(r"Argument::<'_>::new_debug$", path):
        if any(DEBUG_OPEN.search(a) for a in f["args"]):
            return f"the debug representation of {f['args'][0]} (positions, addresses or hash order)"
    if re.search(r"^std::fmt::Debug::fmt$", path) and any(DEBUG_OPEN.search(a) for a in f["args"]):
        return f"the debug representation of {f['args'][0]}"
    if crate == "std" and not (STD_PURE.search(path) or f["trait"]):
        return f"something outside the program: {path}"
    if CORE_IMPURE.search(path):
        return f"state or addresses: {path}"
    if crate in ("proc_macro", "proc_macro2", "syn") and SPAN_IMPURE.search(path):
        return f"the place of the definition or the state of the compiler: {path}"
    if f["trait"] in ("std::cmp::PartialEq", "std::cmp::Ord", "std::cmp::PartialOrd", "std::hash::Hash") and any(re.search(r"^&*(\*const|\*mut|proc_macro2?::Span)", a) for a in f["args"]):
        return f"addresses or positions: {path} of {f['args'][0]}"
    if path.endswith("RandomState::new") or (f["trait"] == "std::hash::BuildHasher" and any("RandomState" in h for h in f["hashed"])):
        return "a random hasher"
    un = [h for h in f["hashed"] if "RandomState" not in h]
    own = re.search(r"std::collections::Hash(Map|Set)::<|std::collections::hash_(map|set)::", path)
    if crate == "indexmap" and not un:
        if last == "hasher":
            return "a random hasher"
        return None
    if not un and not own:
        return None
    # a hashed collection, or an iterator over one, is involved
    if own and not f["trait"]:
        return None if last in UNORDERED_OK else f"the order of a hashed collection: {path}"
    if path == "std::iter::Iterator::collect" and len(f["args"]) > 1:
        return None if SORTED_SINK.search(f["args"][-1]) else f"the order of a hashed collection: collected into {f['args'][-1]}"
    if path in ("std::iter::Extend::extend", "std::iter::FromIterator::from_iter") and f["args"]:
        return None if SORTED_SINK.search(f["args"][0]) else f"the order of a hashed collection: {path} of {f['args'][0]}"
    if path in UNORDERED_TRAITS or UNORDERED_FNS.search(path):
        return None
    return f"the order of a hashed collection: {path}::<{', '.join(f['args'])}>"


def effects():
    d = os.path.join(BUILD, "fx")
    B.write(os.path.join(d, "Cargo.toml"), f'[package]\nname = "fx"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nfuncmap_derive = {{ path = "{REPO}/funcmap_derive" }}\n')
    B.write(os.path.join(d, "src", "lib.rs"), "")
    tgt, out = os.path.join(BUILD, "fxt"), os.path.join(BUILD, "fx.json")
    dv = build_dv()
    with Lock("fxt"):
        if os.path.exists(out):
            os.remove(out)
        # cargo keeps what it built from unchanged sources: the listing is made anew on every run
        sh(["cargo", NIGHTLY, "clean", "--offline", "-p", "funcmap_derive"], env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": DV_FLAGS}, cwd=d)
        rc, o, e = sh(
            ["cargo", NIGHTLY, "check", "--offline"],
            env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": DV_FLAGS, "RUSTC_WRAPPER": dv, "DV_OUT": out, "DV_CRATE": "funcmap_derive", "DV_EFFECTS": "1", "CARGO_INCREMENTAL": "0"},
            cwd=d,
        )
        if not os.path.exists(out):
            raise Broken("no listing of the macro's functions: " + e[-2000:])
        return json.load(open(out))


# ------------------------------------------------------------------ expansions compared

MANY = """#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]
pub struct Many<{ps}>({fs}) where {ws};
"""


def definitions():
    """(name, source of a module body) independent of each other"""
    out = []
    sh_ = C.shared()
    mods = [m for m in C.hand() + C.sizes() + C.names() if getattr(m, "lib", "funcmap") == "funcmap"]
    g = C.RandomDefs(SEED)
    mods += [g.mod(f"g{k}") for k in range(200 if tier() == "thorough" else 40)]
    for m in mods:
        out.append((m.name, B.mod_text(m, False)))
    # many bounds, parameters and mistakes at once: where an order could show
    rng = random.Random(f"C17/{SEED}")
    for k in range(12):
        n = rng.randrange(3, 9)
        ps = [f"P{i}" for i in range(n)]
        trs = ["Clone", "Send", "Sync", "Copy", "Default", "PartialEq", "Eq", "Ord", "PartialOrd", "::core::fmt::Debug", "::core::hash::Hash"]
        ws = []
        for p in ps:
            ws.append(f"{p}: " + " + ".join(rng.sample(trs, rng.randrange(1, 6))))
            ws.append(f"::std::vec::Vec<{p}>: " + " + ".join(rng.sample(trs, rng.randrange(1, 4))))
        rng.shuffle(ws)
        fs = [f"::std::collections::BTreeMap<{a}, {b}>" for a in ps for b in rng.sample(ps, 2)]
        out.append((f"many{k}", MANY.format(ps=", ".join(ps), fs=", ".join(ps + fs), ws=", ".join(ws))))
    for k in range(12):
        n = rng.randrange(3, 8)
        ps = [f"P{i}" for i in range(n)]
        bad = ["fn({p})", "*const {p}", "&'static {p}", "[[{p}]]", "dyn Fn({p})", "::std::vec::Vec<fn({p}) -> {p}>"]
        fs = [rng.choice(bad).format(p=rng.choice(ps)) for _ in range(rng.randrange(3, 9))]
        names = rng.sample(["X", "Y", "'q", "Z", "W", "r#V"], rng.randrange(0, 4)) if k % 2 else []
        at = f"#[funcmap(params({', '.join(names)}))]\n" if names else ""
        out.append((f"bad{k}", f"#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]\n{at}pub struct Bad<{', '.join(ps)}>({', '.join(fs)}, {', '.join(f'::core::marker::PhantomData<{p}>' for p in ps)});\n"))
    return out, C.shared()


def expand(nl, mods, shared_text, shift=0, env=None):
    """the expansion of every module and the errors reported in it"""
    head = "#![allow(unused)]\n" + "\n" * shift + shared_text
    src, at = head, []
    line = head.count("\n")
    for n, s in mods:
        t = f"pub mod {n} {{\n{s}\n}}\n"
        at.append((n, line + 1, line + t.count("\n")))
        line += t.count("\n")
        src += t
    old = dict(os.environ)
    try:
        os.environ.update(env or {})
        rc, ds, o = nl.rustc(src, extra=["-Zunpretty=expanded"], timeout=300)
    finally:
        os.environ.clear()
        os.environ.update(old)
    parts = re.split(r"^pub mod (\w+) \{$", o, flags=re.M)
    got = {parts[k]: parts[k + 1] for k in range(1, len(parts) - 1, 2)}
    errs = {}
    for _, code, msg, sp in ds:
        for l, c, t in sp[:1]:
            for n, a, b in at:
                if a <= l <= b:
                    errs.setdefault(n, []).append((l - a, c, t, msg))
    return {n: (re.sub(r"\s+$", "", got.get(n, "<missing>")), errs.get(n, [])) for n, _ in mods}


ENVS = [
    {},
    {"LANG": "tr_TR.UTF-8", "LC_ALL": "C", "TZ": "Asia/Tokyo", "HOME": "/nonexistent", "USER": "nobody", "RUST_BACKTRACE": "full", "CARGO_PKG_NAME": "other", "CARGO_MANIFEST_DIR": "/nonexistent", "OUT_DIR": "/nonexistent", "DEBUG": "1", "TERM": "xterm", "CARGO_PKG_VERSION": "9.9.9", "CARGO_CRATE_NAME": "funcmap", "NO_COLOR": "1", "RUST_LOG": "trace", "PROFILE": "release"},
]


def env_names():
    """names the macro's source could ask the environment for"""
    r = set()
    for root, _, fs in os.walk(os.path.join(REPO, "funcmap_derive", "src")):
        for f in fs:
            r |= set(re.findall(r'"([A-Z][A-Z0-9_]{2,})"', open(os.path.join(root, f), errors="replace").read()))
    return sorted(r)


def compare(rep, deep):
    nl = probe.Lib("default", "+nightly", with_rt=True)
    if not nl.ok:
        rep.cov["note"] = "the library does not build on nightly; only the frame obligations were decided: " + nl.err[:300]
        return 0, None
    mods, shared = definitions()
    st = "use ::rt as _;\n" + "pub mod h {\n" + B.mod_text(shared, False) + "\n}\n"
    rng = random.Random(f"C17/order/{SEED}")
    base = expand(nl, mods, st)
    n, diff = len(base), None
    rounds = []
    for k in range(6 if deep or tier() == "thorough" else 3):
        ms = list(mods)
        rng.shuffle(ms)
        if k == 1:
            # earlier expansions of the same definitions, under other names
            ms = [(a + "_again", b) for a, b in ms] + ms
        if k % 3 == 2:
            ms = ms[: len(ms) // 2]
        env = dict(ENVS[k % 2])
        if k % 2:
            env.update({x: "1" for x in env_names()})
        rounds.append((ms, rng.randrange(1, 400), env))
    for ms, shift, env in rounds:
        got = expand(nl, ms, st, shift, env)
        for a, _ in ms:
            b = a[: -len("_again")] if a.endswith("_again") else a
            n += 1
            if got[a] != base[b] and "<missing>" not in (got[a][0], base[b][0]):
                x, y = base[b], got[a]
                if x[1] != y[1] and sorted(set(m for *_, m in x[1])) == sorted(set(m for *_, m in y[1])) and x[0] == y[0] and len(x[1]) != len(y[1]):
                    continue  # rustc prints equal diagnostics once
                src = dict(ms)[a]
                w = {"definition": src, "first": x[0][:4000], "second": y[0][:4000], "errors_first": x[1][:20], "errors_second": y[1][:20], "line_shift": shift, "environment": env, "position": [m for m, _ in ms].index(a)}
                what = "the errors differ" if x[0] == y[0] else "the generated code differs"
                diff = (b, what, w)
                return n, diff
    return n, diff


def check():
    rep = Report("C17", "proof")
    rep.assumptions = ASSUME
    j = effects()
    n, bad, fns, skipped = 0, [], 0, 0
    kinds = {}
    for b in j["bodies"]:
        if b["debug"]:
            # reached only through a debug representation, which is an obligation where it is asked for
            skipped += 1
            continue
        fns += 1
        for f in b["facts"]:
            n += 1
            k = f["kind"] if f["kind"] != "call" else f["crate"]
            kinds[k] = kinds.get(k, 0) + 1
            w = judge(f)
            if w:
                bad.append((b["fn"], w, f))
    m, diff = compare(rep, bool(bad))
    if diff:
        b, what, w = diff
        w["failed_obligations"] = [{"function": x, "depends_on": y, "at": f["line"]} for x, y, f in bad][:10]
        rep.violation(f"expanding {b} again: {what}", w)
    elif bad:
        x, y, f = bad[0]
        rep.violation(f"{x} depends on {y} ({f['line']})", {"failed_obligations": [{"function": x, "depends_on": y, "at": f["line"], "mention": f} for x, y, f in bad][:20]}, False)
    if fns < 50 or n < 200:
        raise Broken(f"only {fns} functions with {n} mentions listed")
    rep.cov.update(
        {
            "functions_under_contract": fns,
            "debug_functions_excluded": skipped,
            "obligations": n,
            "discharged": n - len(bad),
            "by_callee": kinds,
            "back_end": "dv's listing of the MIR's mentions, decided against the table of effect contracts in tools/effect_checks.py",
            "expansions_compared": m,
        }
    )
    return rep


if __name__ == "__main__":
    sys.exit(check().finish())
