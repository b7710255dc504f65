"""C04, C05: the laws, decided on the code itself: the methods are run symbolically one after the other with pure
total closures, and the values compared (dv/src/laws.rs)."""
import json, os, re
import vlib
from vlib import *
import lib_checks as L
import corpus_checks as K
import build as B

LAWS = {"C04": "1", "C05": "commute"}
ASSUME = [
    "rustc nightly's MIR construction, borrow checker and trait solver; the stable compiler compiles the same source to the same behaviour",
    "the contracts of the standard containers and iterators (harness/models and the tables in dv); a hashed container or a heap that was rebuilt is iterated in an arbitrary order, and compared as a set",
    "functions mapped with do not make different keys of a set or map equal (the property says so), and have no effects",
    "nested derived types obey the laws themselves (each corpus type is checked); nested library types by their contracts (C01, C02, and the library part of this check)",
    "derived implementations: those of the corpus stand for all; each is decided for every value, every type argument and every pair of functions",
    "the translation of MIR to obligations in dv itself",
]


def native_lib(prop, timeout=300):
    """evaluations, non-trivial, failures of the laws on concrete library values"""
    d = stage(os.path.join(VERIF, "replay", "lib"), os.path.join(BUILD, "replay_lib"))
    tgt = os.path.join(BUILD, "rl")
    with Lock("rl"):
        rc, o, e = sh(["cargo", "build", "--offline"], env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "--cap-lints allow"}, cwd=d, timeout=500)
        if rc != 0:
            return 0, 0, [], "the replay harness does not build against this tree: " + e[-1500:]
    log = os.path.join(BUILD, "rl_laws.log")
    rc, o, e = sh([os.path.join(tgt, "debug", "replay_lib"), "--laws" if prop == "C04" else "--commute", "--log", log, "--max", "14" if tier() == "thorough" else "8"], timeout=timeout)
    if rc in (0, 1) and o.strip():
        j = json.loads(o)
        return j["evaluations"], j["nontrivial"], j["fails"], ""
    last = None
    ev = 0
    for l in open(log, errors="replace"):
        try:
            last = json.loads(l).get("run", last)
            ev += 1
        except ValueError:
            pass
    how = "does not return" if rc == 124 else f"ends the process (status {rc})"
    return ev, ev, [{"fail": last or "?", "cat": "Term" if rc == 124 else "Safety", "msg": f"the mapping {how}: {e[-400:]}"}], ""


def native_corpus(prop, mods, shared):
    return K.run_corpus(mods, shared, "laws" + prop, dv=False, emit={"laws": "functor" if prop == "C04" else "commute"})


def check(prop):
    rep = Report(prop, "proof")
    env = {"DV_LAWS": LAWS[prop]}
    if tier() == "thorough":
        env.update({"DV_CROSS": "1", "DV_SECS": "200"})
    lib, lerr = run_dv(L.staged(), "dv_std", os.path.join(BUILD, f"lib_{prop}.json"), env=env)
    mods, shared = K.corpus_mods("hand")
    m2, _ = K.corpus_mods("names")
    # those known not to compile are the business of C10
    mods = [m for m in mods if not m.known]
    names = {m.name for m in mods}
    # definitions whose names meet generated ones, among them those that are known not to compile: C12's business
    mods = mods + [m for m in m2 if m.name not in names and not m.known][: None if tier() == "thorough" else 0]
    cor, cerr, res = corpus(prop, mods, shared, env)
    mine = [(r, False) for r in lib] + [(r, True) for r in cor]
    hard, und = [], []
    for r, derived in mine:
        for v in r["violations"]:
            k = L.KNOWN_RE.match(v["msg"])
            if k and k.group(1) == "range-inclusive-exhausted" and "RangeInclusive" in r["target"] and not derived:
                rep.violation(v["msg"], {"target": r["target"], "obligation": v}, False, key=k.group(1))
                continue
            hard.append((r, v, derived))
        if r["undecided"]:
            und.append((r, derived))
    results = [r for r, _ in mine]
    c = merge_counts(results)
    n = sum(c["kinds"].values())
    laws = {}
    for r in results:
        laws[r["law"]] = laws.get(r["law"], 0) + 1
    rep.cov = {
        "obligations": n,
        "discharged": n - len(hard),
        "checker_cmd": f"python3 tools/check.py {prop} --tier {tier()}  (dv on the MIR of /repo/funcmap and of the generated implementations; z3" + (", cvc5 re-checks)" if tier() == "thorough" else ")"),
        "trusted_base": sorted({t for r in results for t in r["trusted"]}),
        "laws": laws,
        "laws_of_library_implementations": len(lib),
        "laws_of_derived_implementations": len(cor),
        "definitions": len(mods),
        "functions_inlined": sorted({t for r in lib for t in r["inlined"]}),
        "by_kind": c["kinds"],
        "symbolic_paths": c["paths"],
        "loops_with_invariants": c["loops_with_invariants"],
        "smt": c["smt"],
        "not_decided_deductively": sorted(r["target"] for r, _ in und),
    }
    rep.assumptions = list(ASSUME)
    no_lib, no_cor = bool(lerr) and not lib, bool(cerr) and not cor
    # a concrete input for what failed, and a bounded stand-in for what could not be decided
    found = set()
    st = {}
    if no_lib or any(not d for _, _, d in hard) or any(not d for _, d in und):
        ev, nt, fails, note = native_lib(prop)
        st["library"] = {"bound": "every library type, lengths 0..7 (arrays also 8,9,16,17,32,33), 7 element type pairs", "evaluations": ev, "nontrivial": nt, "note": note}
        seen = set()
        for f in fails:
            ty = re.sub(r" with A=.*", "", f["fail"])
            if ty in seen:
                continue
            seen.add(ty)
            obl = [{"target": r["target"], "obligation": v} for r, v, d in hard if not d and L.base(plain(r["target"])) in f["fail"]]
            rep.violation(f"{f['fail']}: {f['msg']}", {"input": f["fail"], "observed": f["msg"], "failed_obligations": obl[:5], "rerun": f"cd /verif && python3 tools/check.py {prop} --replay '{f['fail']}'"})
            found.add("lib")
    if no_cor or any(d for _, _, d in hard) or any(d for _, d in und):
        if res is None or "fails" not in res or not res.get("ran"):
            res = native_corpus(prop, mods, shared)
        st["derived"] = {"bound": f"{len(mods)} definitions, generated values of each", "evaluations": res["evaluations"], "nontrivial": res["nontrivial"], "note": res["note"]}
        K.harness_broken(rep, res)
        seen = set()
        for f in res["fails"]:
            m = f["case"].split("::")[0]
            if m in seen:
                continue
            seen.add(m)
            obl = [v for r, v, d in hard if d and K.mod_of(plain(r["target"])) == m]
            rep.violation(f"{f['case']}: {f['msg']}", {"definition": K.source_of(res, m), "input": f["case"], "observed": f["msg"], "failed_obligations": obl[:4], "rerun": f"python3 tools/check.py {prop} --replay '{f['case'].split(' ')[0].rstrip(',')}'"})
        found |= seen
    for r, v, derived in hard:
        if (K.mod_of(plain(r["target"])) if derived else "lib") not in found:
            rep.violation(f"{r['target']}: {v['msg']} (at {v['at']})", {"target": r["target"], "obligation": v}, False)
    if st:
        rep.cov["bounded_stand_in"] = st
    if no_lib and no_cor:
        rep.level = "exploration"
        rep.cov.update(
            evaluations=sum(s["evaluations"] for s in st.values()),
            distinct_nontrivial=sum(s["nontrivial"] for s in st.values()),
            rule="the verifier could not run: the laws on concrete values",
            samples=["identity on Vec (parameter 0) with A=Big, B=Big, n=3"],
            note=(lerr + cerr)[-1000:],
        )
    return rep


def plain(t):
    return re.sub(r"^\w+: ", "", t)


def corpus(prop, mods, shared, env):
    """the laws of the generated implementations; definitions the tree cannot compile are left out"""
    name = "laws" + prop
    dd = os.path.join(BUILD, name + "_dv")
    dep = f'dv_models = {{ path = "{VERIF}/harness/models" }}'
    out = os.path.join(BUILD, name + "_dv.json")

    def go(ms):
        B.emit(dd, "dv_corpus", ms, shared, extra_deps=dep, head="pub use ::dv_models;\n")
        return run_dv(dd, "dv_corpus", out, env={"DV_DERIVE": "1", **env})

    r, err = go(mods)
    if not err:
        return r, err, None
    res = native_corpus(prop, mods, shared)
    res["ran"] = True
    ok = [m for m in mods if m.name not in res["bad"]]
    if ok and len(ok) < len(mods) and not res["err"]:
        r, err = go(ok)
    return r, err, res


def replay_case(prop, case):
    if "::" in case and "/" in case:
        mods, shared = K.corpus_mods("hand")
        m = case.split("::")[0]
        res = native_corpus(prop, [x for x in mods if x.name == m], shared)
        fails = res["fails"]
        for x in list(res["bad"].items()) + list(res["badrun"].items()):
            print(x)
    else:
        _, _, fails, note = native_lib(prop)
        fails = [f for f in fails if f["fail"] == case]
    for f in fails:
        print(json.dumps(f))
    return 1 if fails else 0
