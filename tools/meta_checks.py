"""C06, C07, C16, C18: obligations about the headers of implementations, decided by the compiler's trait solver for
all instantiations (dv, DV_META), with small programs as the concrete counterpart."""
import json, os, re, sys
import vlib
from vlib import *
import probe
import lib_checks as L
import corpus_checks as K
import build as B
import defs as C

SOLVER = "rustc's trait solver (new obligation context per entailment, generic parameters universally quantified)"
FEATSETS = {"none": ["--no-default-features"], "alloc": ["--no-default-features", "--features", "alloc"], "std": ["--no-default-features", "--features", "std"]}
ASSUME = [
    "rustc's trait solver and coherence checking (nightly for the obligations, stable for the programs)",
    "the tables of harness/spec state what the documentation of the features promises",
]


def lib_meta(feat):
    d = stage(os.path.join(VERIF, "harness", "spec"), os.path.join(BUILD, "harness", "spec"))
    r, err = run_dv(d, "dv_spec", os.path.join(BUILD, f"meta_{feat}.json"), env={"DV_META": "1"}, args=FEATSETS[feat], target=os.path.join(BUILD, "dvt_" + feat), lock="dvt_" + feat)
    return (r or None), err


def corpus_meta(mods, shared, name="meta"):
    """(meta, modules that do not compile, error): headers of the derived implementations"""
    dd = os.path.join(BUILD, name + "_dv")
    out = os.path.join(BUILD, name + "_dv.json")
    dep = f'dv_models = {{ path = "{VERIF}/harness/models" }}\ndv_spec = {{ path = "{BUILD}/harness/spec", features = ["std"] }}'
    stage(os.path.join(VERIF, "harness", "spec"), os.path.join(BUILD, "harness", "spec"))
    got = {}

    def go():
        r, err = run_dv(dd, "dv_corpus", out, env={"DV_META": "1", "DV_DERIVE": "1"}, target=os.path.join(BUILD, "dvt_meta"), lock="dvt_meta", args=["--message-format=json"])
        got["r"] = r
        return (0 if r else 1), B.diagnostics(run_dv.stdout), err

    l, bad, badrun, err = B.compile_all(mods, shared, go, lambda ms: B.emit(dd, "dv_corpus", ms, shared, extra_deps=dep, head="pub use ::dv_spec;\n"))
    return (got.get("r") or None), bad, err


def obligations(meta, kinds):
    return [o for o in meta["obligations"] if o["kind"] in kinds]


# ------------------------------------------------------------------ programs


def spec_table():
    """[(feature, generics, index, self, output, bounded parameter, bounds)] out of harness/spec"""
    r, feat, due = [], "none", "none"
    for l in open(os.path.join(VERIF, "harness", "spec", "src", "lib.rs")):
        m = re.match(r'#\[cfg\(feature = "(\w+)"\)\]', l)
        if m:
            due = m.group(1)
        elif l.startswith("maps! {"):
            feat = due
        else:
            due = "none"
        m = re.match(r"    \[(.*?)\] (\d+): (.*) => (.*?)(?:, where (\w+): (.*))?;$", l)
        if m:
            g, n, s, o, w, b = m.groups()
            r.append((feat, [x.strip() for x in g.split(",") if x.strip()], int(n), s, o, w, b))
    return r


def inst(t, env):
    return re.sub(r"\b[A-Z]\b", lambda m: env.get(m.group(0), m.group(0)), t)


def lib_lines(have):
    """[(name, line, must compile)] for the library under feature set `have`"""
    rank = {"none": 0, "alloc": 1, "std": 2}
    out = []
    for feat, g, n, s, o, w, b in spec_table():
        env = {"N": "3", "U": "i8", "V": "i8", "K": "i8", "C": "i8", "S": "std::collections::hash_map::RandomState", "A": "u8", "B": "u16"}
        ok = rank[feat] <= rank[have]
        for tr in ("FuncMap", "TryFuncMap"):
            def line(e, k=n, to=None):
                return f"same::<<{inst(s, e)} as funcmap::{tr}<{e['A']}, {e['B']}, funcmap::TypeParam<{k}>>>::Output, {inst(to or o, e)}>();"
            out.append((f"{tr} for {inst(s, env)} at {n} from u8 to u16", line(env), ok))
            if not ok:
                continue
            for k in range(4):
                if k != n:
                    out.append((f"{tr} for {inst(s, env)} at {k} from u8 to u16", line(env, k), False))
            if w:
                bad = dict(env, **{w: "f64"})
                out.append((f"{tr} for {inst(s, bad)} at {n} from {bad['A']} to {bad['B']}", line(bad), False))
            # nothing asked of any type but what is due
            plain = {x: "NoTraits" for x in "ABUVKCS"}
            plain["N"] = "3"
            if w:
                plain[w] = "OnlyOrd" if b.startswith("Ord") else "OnlyHash"
            out.append((f"{tr} for {inst(s, plain)} at {n} from {plain['A']} to {plain['B']}", line(plain), True))
    return out


def run_lines(lib, lines, nostd=False, edition="2021"):
    """names of the lines whose verdict is not the one expected: [(name, line, expected, message)]"""
    head = "#![allow(unused)]\nextern crate alloc;\npub struct NoTraits;\n#[derive(PartialEq, Eq, PartialOrd, Ord)] pub struct OnlyOrd; #[derive(PartialEq, Eq, Hash)] pub struct OnlyHash;\npub trait Is<T> {} impl<T> Is<T> for T {} pub fn same<X: Is<Y>, Y>() {}\n"
    n0 = head.count("\n")
    src = head + "".join(f"pub fn p{i}() {{ {l} }}\n" for i, (_, l, _) in enumerate(lines))
    # borrow checking and later stages are skipped when there are type errors: harmless here
    rc, ds, _ = lib.rustc(src, edition=edition)
    errs = {}
    for _, code, msg, sp in ds:
        for ln, _, _ in sp or [(0, 0, "")]:
            errs.setdefault(ln - n0 - 1, f"{code or ''} {msg}")
    bad = [(nm, l, ok, errs.get(i, "compiles")) for i, (nm, l, ok) in enumerate(lines) if (i in errs) == ok]
    stray = [m for k, m in errs.items() if not 0 <= k < len(lines)]
    return bad, stray


# ------------------------------------------------------------------ C18

NOSTD = """#![no_std]
use funcmap::{FuncMap, TryFuncMap, TypeParam};
#[derive(FuncMap, TryFuncMap)] pub struct A<T, U, const N: usize>(pub Option<T>, pub [(T, U); N], pub u8);
#[derive(FuncMap, TryFuncMap)] pub enum E<'a, T: Clone> { X(T, &'a str), Y { t: Result<T, core::cell::Cell<T>> }, Z }
#[derive(FuncMap, TryFuncMap)] pub struct W<T>(pub E<'static, T>, pub core::marker::PhantomData<T>) where T: Clone;
pub fn go(w: W<u8>) -> W<u16> { w.func_map(|x| x as u16) }
pub fn gt(w: W<u8>) -> Result<W<u16>, i8> { w.try_func_map(|x| Ok(x as u16)) }
pub fn gi(a: A<u8, u8, 2>) -> A<u8, u16, 2> { a.func_map_over::<TypeParam<1>, _>(|x| x as u16) }
"""


def check_c18():
    rep = Report("C18", "proof")
    kinds = {}
    total = failed = 0
    undecided = []
    probes = 0
    dvtot = {}
    crates = {}
    for feat in ("none", "alloc", "std"):
        st = probe.Lib(feat)
        if not st.ok:
            cmd = "cargo build " + " ".join(FEATSETS[feat])
            rep.violation(f"the library does not build with feature set {feat} ({cmd}): {K.first_line(st.err)}", {"command": cmd, "compiler": st.err})
            continue
        meta, err = lib_meta(feat)
        fails = []
        if meta is None:
            undecided.append(f"{feat}: the verifier could not run: {err[-400:]}")
        else:
            crates[feat] = meta["crates"]
            ban = {"none": {"std", "alloc"}, "alloc": {"std"}, "std": set()}[feat]
            # crates loaded by a #![no_std] program with no dependency but the library
            total += 1
            hit = ban & set(meta["crates"])
            if hit:
                failed += 1
                fails.append({"kind": "crates", "subject": feat, "what": "is built without " + ", ".join(sorted(hit)), "fail": "the library brings them in"})
            for o in obligations(meta, ("sound", "complete", "traits")):
                total += 1
                k = f"{feat}: {o['kind']}"
                kinds[k] = kinds.get(k, 0) + 1
                if o["fail"]:
                    failed += 1
                    fails.append(o)
        # the same contracts under every feature set
        rs, derr = run_dv(L.staged(), "dv_std", os.path.join(BUILD, f"lib_{feat}.json"), args=FEATSETS[feat], target=os.path.join(BUILD, "dvt_" + feat), lock="dvt_" + feat)
        if not rs:
            undecided.append(f"{feat}: the verifier could not run on the methods: {derr[-400:]}")
        vio = []
        for r in rs:
            for v in r["violations"]:
                m = L.KNOWN_RE.match(v["msg"])
                if m and "RangeInclusive" in r["target"]:
                    continue  # the same under every feature set; recorded for C01 and C02
                vio.append((r, v))
            undecided += [f"{feat}: {r['target']}: {u}" for u in r["undecided"]]
        c = merge_counts(rs)
        dvtot[feat] = {"methods": len(rs), "obligations": sum(c["kinds"].values())}
        total += dvtot[feat]["obligations"] + len(vio)
        failed += len(vio)
        # programs
        lines = lib_lines(feat)
        bad, stray = run_lines(st, lines)
        probes += len(lines)
        for nm, l, ok, msg in bad[:6]:
            # outputs are C07's business
            if ok and ("E0271" in msg or "Is<" in msg):
                continue
            rep.violation(f"feature set {feat}: {nm}: {'is missing' if ok else 'is there'} ({msg[:200]})", {"features": feat, "program": l, "compiler": msg, "failed_obligations": [o for o in fails if o["kind"] in ("sound", "complete")][:4]})
        rc, ds, _ = st.rustc(NOSTD, names=("funcmap",))
        probes += 1
        if rc != 0:
            rep.violation(f"feature set {feat}: a #![no_std] crate deriving the traits does not compile: {ds[0][2][:300]}", {"features": feat, "program": NOSTD, "compiler": [d[2] for d in ds][:4]})
        if vio or any(u.startswith(feat + ":") for u in undecided):
            ev, nt, nf, note = L.native(feat=feat)
            probes += ev
            seen = set()
            for f in nf:
                ty = re.sub(r" with A=.*", "", f["fail"])
                if ty in seen or "RangeInclusive" in ty:
                    continue
                seen.add(ty)
                rep.violation(f"feature set {feat}: {f['fail']}: {f['msg']}", {"features": feat, "input": f["fail"], "observed": f["msg"], "failed_obligations": [{"target": r["target"], "obligation": v} for r, v in vio][:4]})
            if not nf:
                for r, v in vio[:10]:
                    rep.violation(f"feature set {feat}: {r['target']}: {v['msg']}", {"features": feat, "target": r["target"], "obligation": v}, False)
        if not bad:
            for o in fails[:10]:
                rep.violation(f"feature set {feat}: {o['subject']}: {o['what']}: {o['fail'][:300]}", {"features": feat, "obligation": o}, False)
    # what the feature names mean
    lib = probe.Lib("default")
    if lib.ok:
        bad, _ = run_lines(lib, [x for x in lib_lines("std") if x[2]])
        for nm, l, ok, msg in bad[:3]:
            if not ("E0271" in msg or "Is<" in msg):
                rep.violation(f"default features: {nm}: is missing ({msg[:200]})", {"features": "default", "program": l, "compiler": msg})
    else:
        rep.violation("the library does not build with default features: " + K.first_line(lib.err), {"compiler": lib.err})
    rep.cov = {
        "obligations": total,
        "discharged": total - failed,
        "checker_cmd": f"python3 tools/check.py C18 --tier {tier()}  (per feature set: dv's header obligations by {SOLVER}; dv + z3 on every method)",
        "trusted_base": ["rustc's trait solver, coherence and crate loading", "harness/spec: the documented table of implementations", "the contracts of the standard library (C01)"],
        "by_kind": kinds,
        "methods_under_contract_per_feature_set": dvtot,
        "crates_loaded": crates,
        "not_decided_deductively": undecided,
        "evaluations": probes,
    }
    rep.assumptions = ASSUME + L.ASSUME[1:]
    return rep


# ------------------------------------------------------------------ C07


def derived_target(o):
    m = re.match(r"(?:crate::)?(\w+)::", o["subject"])
    return m.group(1) if m else None


def check_c07():
    rep = Report("C07", "proof")
    total = failed = 0
    kinds, undecided, nimpl = {}, [], {}
    fails = {}
    for feat in ("none", "alloc", "std"):
        meta, err = lib_meta(feat)
        if meta is None:
            undecided.append(f"{feat}: {err[-400:]}")
            continue
        nimpl[feat] = len(meta["impls"])
        for o in obligations(meta, ("output", "pair")):
            total += 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["fail"]:
                failed += 1
                if o["kind"] == "output" and re.match(r"(std::collections::)?Hash(Map|Set)<.*, S> as (Try)?FuncMap<", o["subject"]) and re.search(r"the output type is .*Hash(Map<\w+, \w+|Set<\w+)> where", o["fail"]):
                    rep.violation(o["fail"], {"obligation": o}, key="hash-builder")
                    failed -= 1
                    total -= 1
                    continue
                fails[(o["kind"], o["subject"])] = o
    found = set()
    lib = probe.Lib("std")
    probes = 0
    if lib.ok:
        lines = lib_lines("std")
        probes += len(lines)
        bad, _ = run_lines(lib, lines)
        for nm, l, ok, msg in bad[:8]:
            # implementations that are not there at all for either trait are C18's business
            other = nm.replace("TryFuncMap", "FuncMap") if nm.startswith("Try") else "Try" + nm
            both = other in [b[0] for b in bad]
            if both and ok and not ("E0271" in msg or "Is<" in msg):
                continue
            found.add(nm)
            rep.violation(f"{nm}: {msg[:200]}", {"program": l, "expected": "compiles" if ok else "no such implementation", "compiler": msg, "failed_obligations": list(fails.values())[:4]})
    else:
        undecided.append("the library does not build: " + lib.err[-300:])
    # derived implementations
    mods, shared = K.corpus_mods("hand")
    mods = mods + index_mods()
    meta, bad, err = corpus_meta(mods, shared)
    nder = 0
    if meta is None:
        undecided.append("corpus: " + err[-400:])
    else:
        nder = len(meta["impls"])
        for o in obligations(meta, ("output", "pair")):
            total += 1
            kinds["derived " + o["kind"]] = kinds.get("derived " + o["kind"], 0) + 1
            if o["fail"]:
                failed += 1
                fails[(o["kind"], o["subject"])] = o
    # and used
    res = K.run_corpus(mods, shared, "c07", dv=False, per=1)
    for m, msgs in list(res["badrun"].items()):
        obl = [o for o in fails.values() if derived_target(o) == m]
        found.add(m)
        rep.violation(f"{m}: the mapping due, with the output due, cannot be used: {K.first_line(msgs[0])}", {"definition": K.source_of(res, m), "compiler": msgs[:3], "failed_obligations": obl[:4]})
    K.harness_broken(rep, res)
    for (k, s), o in list(fails.items()):
        m = derived_target(o)
        if m in found or (found and m is None):
            continue
        rep.violation(f"{s}: {o['what']}: {o['fail'][:300]}", {"obligation": o, "definition": K.source_of(res, m) if m else ""}, False)
    rep.cov = {
        "obligations": total,
        "discharged": total - failed,
        "checker_cmd": f"python3 tools/check.py C07 --tier {tier()}  (dv's header obligations by {SOLVER})",
        "trusted_base": ["rustc's trait solver", "rustc's macro expansion (derived implementations)"],
        "by_kind": kinds,
        "library_implementations_per_feature_set": nimpl,
        "derived_implementations": nder,
        "derived_definitions_bounded_to": len(mods),
        "not_decided_deductively": undecided,
        "evaluations": probes + res["evaluations"],
    }
    rep.assumptions = ASSUME[:1] + ["derived implementations: for the definitions of the corpus"]
    return rep


def index_mods():
    """definitions in which the index is easily got wrong"""
    D, M = C.D, C.Mod
    return [
        M("ix_lt", D("S", "'a, 'b, T, U", "(&'a u8, &'b u8, U, T)", values=0)),
        M("ix_const_first", D("S", "const N: usize, const M: u8, T, U", "([T; N], U)")),
        M("ix_const_between", D("S", "T, const N: usize, U, const M: bool, V", "(V, [U; N], T)")),
        M("ix_lt_const", D("S", "'a, const N: usize, T", "(&'a str, [T; N])", values=0)),
        M("ix_params", D("S", "T, const N: usize, U, V", "(T, U, V, [u8; N])", funcmap_attrs=["params(V, T)"], params=["T", "V"])),
        M("ix_default", D("S", "T, U = u8, V = T", "(T, U, V)")),
    ]


# ------------------------------------------------------------------ C06

SEALS = [
    # (name, program, compiles?)
    ("own type as marker", "pub struct M; impl funcmap::FuncMarker<M> for M {}", False),
    ("own type as marker of a library one", "pub struct M; impl funcmap::FuncMarker<funcmap::TypeParam<0>> for M {}", False),
    ("other marker for a library one", "impl funcmap::FuncMarker<funcmap::TypeParam<0>> for funcmap::TypeParam<1> {}", False),
    ("own marker in FuncMap", "pub struct M; pub struct S(u8); impl funcmap::FuncMap<u8, u8, M> for S { type Output = S; fn func_map<F: FnMut(u8) -> u8>(self, mut f: F) -> S { S(f(self.0)) } }", False),
    ("own marker in TryFuncMap", "pub struct M; pub struct S(u8); impl funcmap::TryFuncMap<u8, u8, M> for S { type Output = S; fn try_func_map<E, F: FnMut(u8) -> Result<u8, E>>(self, mut f: F) -> Result<S, E> { Ok(S(f(self.0)?)) } }", False),
    ("seal by name", "pub struct M; impl funcmap::private::Sealed<M> for M {}", False),
    ("fn pointer as marker", "pub fn x(v: Vec<u8>) { use funcmap::FuncMap; let _ = v.func_map_over::<fn(), _>(|x| x); }", False),
    ("unit as marker", "pub fn x(v: Vec<u8>) { use funcmap::FuncMap; let _ = v.func_map_over::<(), _>(|x| x); }", False),
    ("unit as marker of a fallible mapping", "pub fn x(v: Vec<u8>) { use funcmap::TryFuncMap; let _ = v.try_func_map_over::<(), (), _>(|x| Ok(x)); }", False),
    ("marker without implementation", "pub fn x(v: Vec<u8>) { use funcmap::*; let _: Vec<u8> = v.func_map_over::<TypeParam<1>, _>(|x: u8| x); }", False),
    ("marker of the other parameter", "pub fn x(v: Result<u8, i8>) { use funcmap::*; let _ = v.func_map_over::<TypeParam<1>, _>(|x: u8| x); }", False),
    ("marker of the other parameter, fallible", "pub fn x(v: Result<u8, i8>) { use funcmap::*; let _ = v.try_func_map_over::<TypeParam<1>, (), _>(|x: u8| Ok(x)); }", False),
    ("plain method of another marker than named", "pub fn x(v: Result<u8, u8>) { use funcmap::*; let _ = FuncMap::<u8, u16, TypeParam<0>>::func_map_over::<TypeParam<1>, _>(v, |x: u8| x as u16); }", False),
    ("plain method of another marker than named, fallible", "pub fn x(v: Result<u8, u8>) { use funcmap::*; let _ = TryFuncMap::<u8, u16, TypeParam<0>>::try_func_map_over::<TypeParam<1>, (), _>(v, |x: u8| Ok(x as u16)); }", False),
    ("markers named", "pub fn x(v: Result<u8, u8>) -> Result<u16, i16> { use funcmap::*; v.func_map_over::<TypeParam<0>, _>(|x| x as u16).func_map_over::<TypeParam<1>, _>(|x| x as i16) }", True),
    ("markers named, fallible", "pub fn x(v: Result<u8, u8>) -> Result<Result<u8, i16>, ()> { use funcmap::*; v.try_func_map_over::<TypeParam<1>, _, _>(|x| Ok(x as i16)) }", True),
    ("marker of a type generic over the marker", "pub fn x<X: funcmap::FuncMap<u8, u16, P>, P: funcmap::FuncMarker<P>>(v: X) -> X::Output { v.func_map_over::<P, _>(|x| x as u16) }", True),
    ("large index", "pub fn is<P: funcmap::FuncMarker<P>>() {} pub fn x() { is::<funcmap::TypeParam<0>>(); is::<funcmap::TypeParam<77>>(); is::<funcmap::TypeParam<{ usize::MAX }>>(); }", True),
]


def check_c06():
    rep = Report("C06", "proof")
    results, err = L.lib_results()
    mine = [r for r in results if r["method"].endswith("_over")]
    hard = [(r, v) for r in mine for v in r["violations"]]
    undecided = [f"{r['target']}: {u}" for r in mine for u in r["undecided"]]
    if err and not results:
        undecided.append("the verifier could not run: " + err[-400:])
    total = sum(merge_counts(mine)["kinds"].values()) + len(hard)
    failed = len(hard)
    kinds = dict(merge_counts(mine)["kinds"])
    fails = []
    meta, merr = lib_meta("std")
    overriding = []
    if meta is None:
        undecided.append("headers: " + merr[-400:])
    else:
        for o in obligations(meta, ("markers",)):
            total += 1
            kinds["markers"] = kinds.get("markers", 0) + 1
            if o["fail"]:
                failed += 1
                fails.append(o)
        overriding += [i["self"] for i in meta["impls"] if any(m.endswith("_over") for m in i["methods"])]
        kinds["library implementations keeping the default"] = len(meta["impls"]) - len(overriding)
    # derived implementations keep the default methods, or satisfy the contract of the plain ones
    mods, shared = K.corpus_mods("hand")
    cm, bad, cerr = corpus_meta(mods, shared)
    nd = 0
    dover = []
    res = None
    if cm is None:
        undecided.append("corpus: " + cerr[-400:])
    else:
        nd = len(cm["impls"])
        dover = [i["self"] for i in cm["impls"] if any(m.endswith("_over") for m in i["methods"])]
        total += nd
    if dover or cm is None:
        res = K.run_corpus(mods, shared, "c06", env={"DV_FILTER": "_over"}, run_env={"RT_OVER": "1"}, per=1)
        ms = [r for r in res["dv"] if r["method"].endswith("_over")]
        total += sum(merge_counts(ms)["kinds"].values())
        undecided += [f"{r['target']}: {u}" for r in ms for u in r["undecided"]]
        seen = set()
        for f in res["fails"]:
            m = f["case"].split("::")[0]
            if m in seen:
                continue
            seen.add(m)
            rep.violation(f"explicit marker: {f['case']}: {f['msg']}", {"definition": K.source_of(res, m), "input": f["case"], "observed": f["msg"], "failed_obligations": [v for r in ms if K.mod_of(r["target"]) == m for v in r["violations"]][:3]})
        for r in ms:
            if r["violations"]:
                failed += 1
                if K.mod_of(r["target"]) not in seen:
                    rep.violation(f"{r['target']}: {r['violations'][0]['msg']}", {"target": r["target"], "obligations": r["violations"]}, False)
    # concrete
    ev, nt, nf, note = L.native(over=True, max_n=4)
    seen = set()
    for f in nf:
        ty = re.sub(r" with A=.*", "", f["fail"])
        if ty in seen:
            continue
        seen.add(ty)
        # what the plain method gets wrong as well is not the explicit one's doing
        if any(x["fail"] == f["fail"].replace("func_map_over", "func_map") for x in plain_fails()):
            continue
        rep.violation(f"{f['fail']}: {f['msg']}", {"input": f["fail"], "observed": f["msg"], "failed_obligations": [{"target": r["target"], "obligation": v} for r, v in hard][:4]})
    if not rep.viol:
        for r, v in hard:
            rep.violation(f"{r['target']}: {v['msg']}", {"target": r["target"], "obligation": v}, False)
    lib = probe.Lib("std")
    if lib.ok:
        rs = lib.many([{"src": p, "names": ("funcmap",)} for _, p, _ in SEALS])
        hit = False
        for (nm, p, ok), (rc, ds, _) in zip(SEALS, rs):
            if (rc == 0) != ok:
                hit = True
                rep.violation(f"{nm}: {'does not compile: ' + ds[0][2][:200] if ok else 'compiles'}", {"program": p, "expected": "compiles" if ok else "is rejected", "compiler": [d[2] for d in ds][:3], "failed_obligations": fails[:4]})
        if not hit:
            for o in fails[:5]:
                rep.violation(f"{o['subject']}: {o['what']}: {o['fail'][:300]}", {"obligation": o}, False)
    elif fails:
        for o in fails[:5]:
            rep.violation(f"{o['subject']}: {o['what']}: {o['fail'][:300]}", {"obligation": o}, False)
    rep.cov = {
        "obligations": total,
        "discharged": total - failed,
        "checker_cmd": f"python3 tools/check.py C06 --tier {tier()}  (dv + z3 on every *_over method; header obligations by {SOLVER})",
        "trusted_base": sorted({t for r in mine for t in r["trusted"]}) + ["rustc's trait solver, coherence and privacy checking"],
        "functions_under_contract": [r["target"] for r in mine],
        "implementations_overriding_the_default": overriding + dover,
        "derived_implementations": nd,
        "by_kind": kinds,
        "not_decided_deductively": undecided,
        "evaluations": ev + len(SEALS),
        "note": note,
    }
    rep.assumptions = ASSUME[:1] + ["the contract of func_map and try_func_map for a type that is not known (the default methods are verified against it)"]
    return rep


def plain_fails(memo=[]):
    if not memo:
        memo.append(L.native(max_n=4)[2])
    return memo[0]


def check(prop):
    return {"C06": check_c06, "C07": check_c07, "C18": check_c18}[prop]()
