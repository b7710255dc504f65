"""C08, C09, C10, C12, C15: the derive macros on a corpus of definitions. Each generated implementation is compiled,
proved against the contract computed from the definition (dv on its MIR), and run."""
import json, os, re, sys
import vlib
from vlib import *

sys.path.insert(0, os.path.join(VERIF, "tools", "corpus"))
import build as B
import defs as C
from rust import *

ASSUME = [
    "rustc's macro expansion, type checker and MIR construction (nightly for the proofs, stable for compiling and running)",
    "nested named types and library types map as their own contracts say (C01, C02 for the library; each corpus type for itself)",
    "the translation of MIR to obligations in dv itself",
    "the corpus stands for all definitions: generated implementations are proved for every input, but only for the definitions of the corpus",
]


def sizes():
    # quick, thorough: how many generated definitions
    return 400 if tier() == "thorough" else 60


def run_corpus(mods, shared, name, dv=True, run=True, per=3, env=None, run_env=None, emit=None):
    """compile, run and prove; returns a dictionary of what happened"""
    emit = dict(emit or {})
    head = emit.pop("head", "")
    d = os.path.join(BUILD, name + "_run")
    tgt = os.path.join(BUILD, "ct")
    res = {"mods": {m.name: m for m in mods}, "fails": [], "evaluations": 0, "nontrivial": 0, "dv": [], "dv_err": "", "note": ""}

    def go():
        with Lock("ct"):
            rc, o, e = B.cargo(["build"], d, tgt)
        return rc, B.diagnostics(o), e

    left, bad, badrun, err = B.compile_all(mods, shared, go, lambda ms: B.emit(d, name + "_run", ms, shared, values=True, seed=SEED, per=per, head=head, **emit))
    res.update(left=left, bad=bad, badrun=badrun, err=err)
    if left and not err and run:
        rc, o, e = sh([os.path.join(tgt, "debug", name + "_run")], timeout=300, env=run_env)
        try:
            j = json.loads(o)
            res.update(fails=j["fails"], evaluations=j["evaluations"], nontrivial=j["nontrivial"])
        except ValueError:
            res["note"] = f"the corpus program ended with status {rc}: {e[-500:]}"
            # find the module at fault by running them one by one
            for m in left:
                for c in case_names(os.path.join(d, "src", f"run_{m.name}.rs")):
                    rc, o, e = sh([os.path.join(tgt, "debug", name + "_run"), c], timeout=60, env=run_env)
                    if rc != 0:
                        res["fails"].append({"case": c, "cat": "Panic", "msg": f"ends the process with status {rc}"})
                        break
    if dv and not err:
        ok = [m for m in mods if m.name not in bad]
        dd = os.path.join(BUILD, name + "_dv")
        dep = f'dv_models = {{ path = "{VERIF}/harness/models" }}'
        with Lock(name + "_dv"):
            B.emit(dd, "dv_corpus", ok, shared, extra_deps=dep, head="pub use ::dv_models;\n" + head, **emit)
            res["dv"], res["dv_err"] = run_dv(dd, "dv_corpus", os.path.join(BUILD, name + "_dv.json"), env={"DV_DERIVE": "1", **(env or {}), **({"DV_CROSS": "1", "DV_SECS": "120"} if tier() == "thorough" else {})})
    return res


def case_names(f):
    if not os.path.exists(f):
        return []
    return re.findall(r'\(o, "([^"]+)"', open(f).read())


def mod_of(target):
    m = re.match(r"<(?:crate::)?(\w+)::", target)
    return m.group(1) if m else None


def source_of(res, m):
    p = os.path.join(BUILD, "corpus_run", "src", m + ".rs")
    return B.mod_text(res["mods"][m], True) if m in res["mods"] else ""


def corpus_mods(kind):
    if kind == "names":
        return C.names(), C.shared()
    mods = C.hand() + C.sizes()
    g = C.RandomDefs(SEED)
    mods += [g.mod(f"g{k}") for k in range(sizes())]
    return mods, C.shared()


def behaviour(rep, res, want, cats, methods, label):
    """violations of behaviour: `methods` names of methods, `cats` obligation categories"""
    mods = res["mods"]
    hit = set()
    for f in res["fails"]:
        m = f["case"].split("::")[0]
        meth = "try_func_map" if " try_func_map" in f["case"] else "func_map"
        if meth not in methods or f["cat"] not in cats or (m, f["cat"]) in hit:
            continue
        hit.add((m, f["cat"]))
        obl = [v for r in res["dv"] if mod_of(r["target"]) == m and r["method"] == meth for v in r["violations"]]
        rep.violation(
            f"{f['case']}: {f['msg']}",
            {"definition": source_of(res, m), "input": f["case"], "observed": f["msg"], "failed_obligations": obl[:4], "rerun": f"python3 tools/check.py {rep.prop} --replay '{f['case'].split(' ')[0]}'"},
        )
    done = {m for m, _ in hit}
    mine, und = [], []
    for r in res["dv"]:
        if r["method"] not in methods:
            continue
        mine.append(r)
        m = mod_of(r["target"])
        vs = [v for v in r["violations"] if v["cat"] in cats]
        if vs and m not in done:
            rep.violation(f"{r['target']}: {vs[0]['msg']} (at {vs[0]['at']})", {"definition": source_of(res, m), "target": r["target"], "obligations": vs}, False)
        if r["undecided"]:
            und.append(r["target"])
    return mine, und


def missing(rep, res, cat_text):
    for m, msgs in res["badrun"].items():
        rep.violation(
            f"{m}: {cat_text}: {first_line(msgs[0])}",
            {"definition": source_of(res, m), "program": "the harness applying the mapping to concrete types", "compiler": msgs[:3]},
        )


def first_line(s):
    return " ".join(s.split("\n")[:4])[:300]


def cover(rep, res, mine, und, kinds=None):
    c = merge_counts(mine)
    ob = {k: v for k, v in c["kinds"].items() if kinds is None or k in kinds}
    n = sum(ob.values())
    mods = res["mods"]
    rep.cov.update(
        {
            "programs": len(mine),
            "disagreements_checked": n,
            "obligations": n,
            "discharged": n - sum(1 for r in mine for v in r["violations"]),
            "by_kind": ob,
            "functions_under_contract": len(mine),
            "not_decided_deductively": und,
            "definitions": len(mods),
            "definitions_compiled": len(res["left"]),
            "symbolic_paths": c["paths"],
            "smt": c["smt"],
            "trusted_base": sorted({t for r in mine for t in r["trusted"]}),
            "evaluations": res["evaluations"],
            "distinct_nontrivial": res["nontrivial"],
            "rule": "definitions: hand-written feature combinations and generated ones (seeded); each is compiled, its implementations proved for every input, and run on generated values with the closure succeeding, failing and panicking at every call; a run is non-trivial with two or more calls",
            "samples": [B.def_text(d, False) for m in list(mods.values())[:400:97] for d in m.defs],
        }
    )
    if res["dv_err"]:
        rep.cov["note"] = "the verifier could not run on this tree: " + res["dv_err"][-600:]
    rep.assumptions = list(ASSUME)


def check(prop):
    if prop in ("C08", "C09"):
        rep = Report(prop, "translation_validation")
        mods, shared = corpus_mods("hand")
        # names and scopes are C12's business
        res = run_corpus(mods, shared, "corpus")
        if prop == "C08":
            cats, methods, kinds = {"Trace", "Value", "Panic", "Term"}, ["func_map"], ["trace", "value", "panic-freedom", "initialised-result", "loop-init", "loop-preserve", "termination"]
        else:
            cats, methods, kinds = {"Trace", "Value", "Panic", "Term", "Own", "Safety"}, ["try_func_map"], None
        mine, und = behaviour(rep, res, None, cats, methods, prop)
        missing(rep, res, "the mapping due cannot be used")
        cover(rep, res, mine, und, kinds)
        harness_broken(rep, res)
        return rep
    if prop == "C12":
        rep = Report(prop, "translation_validation")
        mods, shared = corpus_mods("names")
        res = run_corpus(mods, shared, "names")
        uncompiled(rep, res)
        missing(rep, res, "the mapping due cannot be used")
        mine, und = behaviour(rep, res, None, {"Trace", "Value", "Panic", "Term", "Own", "Safety"}, ["func_map", "try_func_map"], prop)
        cover(rep, res, mine, und)
        harness_broken(rep, res)
        return rep
    if prop == "C10":
        return check_c10()
    raise Broken(prop)


def harness_broken(rep, res):
    """nothing could be compiled: the tree is not one whose derive macros work at all"""
    if res["err"]:
        rep.violation("no definition of the corpus compiles: " + first_line(res["err"]), {"compiler": res["err"][-3000:]})


def uncompiled(rep, res):
    for m, msgs in res["bad"].items():
        rep.violation(f"{m}: does not compile: {first_line(msgs[0])}", {"definition": source_of(res, m), "compiler": msgs[:3]}, key=res["mods"][m].known if m in res["mods"] else None)


def check_c10():
    rep = Report("C10", "other")
    mods, shared = corpus_mods("hand")
    g = C.RandomDefs(SEED + 1000)
    mods += [g.mod(f"x{k}") for k in range(1200 if tier() == "thorough" else 200)]
    g = C.RichDefs(SEED + 2000)
    mods += [g.mod(f"y{k}") for k in range(1500 if tier() == "thorough" else 300)]
    n, left, invalid = 0, 0, []
    tgt = os.path.join(BUILD, "ct")
    eds = C.editions()
    samples = []
    for name, ms, ed in [("c10", mods, "2021")] + [("c10e" + e, m, e) for e, m in eds.items()]:
        d = os.path.join(BUILD, name)

        def go():
            with Lock("ct"):
                rc, o, e = B.cargo(["check"], d, tgt)
            return rc, B.diagnostics(o), e

        head = "extern crate rt;\nextern crate funcmap;\n" if ed == "2015" else ""
        l, bad, badrun, err = B.compile_all(ms, shared, go, lambda x: B.emit(d, name, x, shared, head=head, edition=ed))
        res = {"mods": {m.name: m for m in ms}, "bad": bad, "err": err}
        # a definition that does not compile without the macros either says nothing about them
        gen = [m for m in ms if m.name in bad and not m.defs]
        if gen:
            plain = [C.Mod(m.name, pre="".join(l + "\n" for l in m.pre.split("\n") if not l.startswith(("#[derive(", "#[funcmap(")))) for m in gen]
            _, pbad, _, _ = B.compile_all(plain, shared, go, lambda x: B.emit(d, name, x, shared, head=head, edition=ed))
            for m in pbad:
                del bad[m]
                invalid.append(m)
        uncompiled(rep, res)
        harness_broken(rep, res)
        n += len(ms)
        left += len(l)
        samples += [B.def_text(x, False) for m in ms[::101] for x in m.defs] + [m.pre for m in ms if not m.defs][:2]
    rep.cov = {
        "explanation": "bounded over definitions: every definition of the corpus is expanded by the macros of /repo and the generated implementations are type-checked by stable rustc for every instantiation of their parameters (the type checker decides the obligations: method signatures against the trait, bounds of every nested mapping against the where clauses, exhaustive matches, ownership)",
        "evaluations": n,
        "definitions": n,
        "definitions_compiled": left,
        "definitions_invalid_without_the_macros": invalid,
        "editions": ["2021"] + list(eds),
        "samples": samples[:8],
    }
    rep.assumptions = ["the stable compiler installed stands for the user's; definitions outside the corpus are not covered"]
    return rep


def replay_case(prop, case):
    kind = "names" if prop == "C12" else "hand"
    mods, shared = corpus_mods(kind)
    m = case.split("::")[0]
    mods = [x for x in mods if x.name == m]
    res = run_corpus(mods, shared, "replay", dv=False)
    for x, msgs in list(res["bad"].items()) + list(res["badrun"].items()):
        print(x, msgs[0])
    for f in res["fails"]:
        print(json.dumps(f))
    return 1 if res["bad"] or res["badrun"] or res["fails"] else 0
