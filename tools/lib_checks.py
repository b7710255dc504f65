"""C01, C02, C03, C06: contracts on every function of the library crate."""
import json, os, re, subprocess
import vlib
from vlib import *

KINDS = {
    "C01": ["trace", "value", "initialised-result", "loop-init", "loop-preserve", "termination"],
    "C02": ["trace", "value", "error", "initialised-result", "loop-init", "loop-preserve", "termination"],
    "C03": ["ownership", "safety", "arithmetic", "panic-freedom", "initialised-result", "loop-init", "loop-preserve"],
    "C06": None,
}
CATS = {"C01": {"Trace", "Value", "Term"}, "C02": {"Trace", "Value", "Term"}, "C03": {"Own", "Safety", "Panic"}}
ASSUME = [
    "rustc nightly's MIR construction, borrow checker and trait solver; the stable compiler compiles the same source to the same behaviour",
    "the contracts of the standard containers, iterators and closures (harness/models and the tables in dv): owning iteration yields every element once in container order, collecting inserts in sequence, Ord/Eq/Hash/Drop of element types may panic but are otherwise well behaved",
    "the translation of MIR to obligations in dv itself (6k lines, tested by planted changes)",
    "element types' own destructors and the closure touch no memory but their own",
]


def staged():
    stage(os.path.join(VERIF, "harness", "models"), os.path.join(BUILD, "harness", "models"))
    return stage(os.path.join(VERIF, "harness", "std"), os.path.join(BUILD, "harness", "std"))


def lib_results(env=None):
    thorough = tier() == "thorough"
    e = dict(env or {})
    if thorough:
        e["DV_CROSS"] = "1"
        e["DV_SECS"] = "200"
    return run_dv(staged(), "dv_std", os.path.join(BUILD, "lib.json"), env=e)


def native(max_n=None, method=None, timeout=300, feat="std", over=False):
    """run the concrete search; returns (evaluations, nontrivial, [fails], note)"""
    d = stage(os.path.join(VERIF, "replay", "lib"), os.path.join(BUILD, "replay_lib"))
    tgt = os.path.join(BUILD, "rl" + ("" if feat == "std" else feat))
    fs = [] if feat == "std" else ["--no-default-features"] + (["--features", feat] if feat != "none" else [])
    with Lock("rl"):
        rc, o, e = sh(["cargo", "build", "--offline"] + fs, env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "--cap-lints allow"}, cwd=d, timeout=500)
        if rc != 0:
            return 0, 0, [], "the replay harness does not build against this tree: " + e[-1500:]
    log = os.path.join(BUILD, "rl.log")
    n = max_n or (11 if tier() == "thorough" else 8)
    cmd = [os.path.join(tgt, "debug", "replay_lib"), "--log", log, "--max", str(n)]
    if method:
        cmd += ["--method", method]
    if over:
        cmd += ["--over"]
    rc, o, e = sh(cmd, timeout=timeout)
    fails, last, ev = [], None, 0
    for l in open(log, errors="replace"):
        try:
            j = json.loads(l)
        except ValueError:
            continue
        if "run" in j:
            last = j["run"]
            ev += 1
        else:
            fails.append(j)
    note = ""
    nontrivial = 0
    if rc in (0, 1) and o.strip():
        j = json.loads(o)
        ev, nontrivial = j["evaluations"], j["nontrivial"]
    elif last:
        how = "does not return" if rc == 124 else f"ends the process (status {rc})"
        fails.append({"fail": last, "cat": "Term" if rc == 124 else "Safety", "msg": f"the mapping {how}: {e[-400:]}"})
    return ev, nontrivial, fails, note


def base(name):
    """BTreeMap etc. out of a target name, for pairing obligations with concrete failures"""
    m = re.match(r"<(.*?) as ", name)
    t = m.group(1) if m else name
    if t.startswith("["):
        return "[A; N]"
    t = re.sub(r"<.*", "", t)
    return t.split("::")[-1] if t.split("::")[-1] != "IntoIter" else "::".join(t.split("::")[-2:])


KNOWN_RE = re.compile(r"KNOWN:([\w-]+)")


def check(prop):
    over = prop == "C06"
    rep = Report(prop, "proof")
    results, err = lib_results()
    mine = []
    for r in results:
        m = r["method"]
        if prop == "C01" and m in ("func_map",):
            mine.append(r)
        elif prop == "C02" and m == "try_func_map":
            mine.append(r)
        elif prop == "C03":
            mine.append(r)
        elif over and m.endswith("_over"):
            mine.append(r)
    cats = CATS.get(prop, {"Trace", "Value", "Term", "Own", "Safety", "Panic"})
    need_native = bool(err) or not mine
    hard, soft, undecided = [], [], []
    for r in mine:
        for v in r["violations"]:
            k = KNOWN_RE.match(v["msg"])
            if k and k.group(1) == "range-inclusive-exhausted" and "RangeInclusive" in r["target"]:
                if v["cat"] in cats:
                    rep.violation(v["msg"], {"target": r["target"], "obligation": v}, False, key=k.group(1))
                continue
            (hard if v["cat"] in cats else soft).append((r, v))
        for u in r["undecided"]:
            undecided.append((r, u))
    need_native = need_native or hard or soft or undecided
    c = merge_counts(mine)
    kinds = KINDS[prop] or list(c["kinds"])
    ob = sum(v for k, v in c["kinds"].items() if k in kinds)
    bounded = sorted({r["target"] for r, _ in undecided} | {r["target"] for r, _ in soft})
    rep.cov = {
        "obligations": ob + len(hard),
        "discharged": ob,
        "checker_cmd": f"python3 tools/check.py {prop} --tier {tier()}  (dv on the MIR of /repo/funcmap; z3" + (", cvc5 re-checks)" if tier() == "thorough" else ")"),
        "trusted_base": sorted({t for r in mine for t in r["trusted"]}),
        "functions_under_contract": [r["target"] for r in mine],
        "functions_inlined": sorted({t for r in mine for t in r["inlined"]}),
        "by_kind": {k: v for k, v in c["kinds"].items() if k in kinds},
        "symbolic_paths": c["paths"],
        "loops_with_invariants": c["loops_with_invariants"],
        "smt": c["smt"],
        "not_decided_deductively": bounded,
    }
    rep.assumptions = list(ASSUME)
    if need_native:
        method = {"C01": "func_map", "C02": "try_func_map"}.get(prop)
        ev, nt, fails, note = native(method=method)
        rep.cov["bounded_stand_in"] = {
            "for": bounded or ["all (the verifier could not run: " + (err[-300:] or "no targets") + ")"] if (bounded or err or not mine) else [],
            "bound": "every library type, lengths 0..7 (arrays also 8,9,16,17,32,33), all fault positions, 7 element type pairs",
            "evaluations": ev,
            "note": note,
        }
        fails = [f for f in fails if f["cat"] in cats]
        seen = set()
        for f in fails:
            ty = re.sub(r" with A=.*", "", f["fail"])
            if (ty, f["cat"]) in seen:
                continue
            seen.add((ty, f["cat"]))
            obl = [{"target": r["target"], "obligation": v} for r, v in hard if base(r["target"]) in f["fail"]]
            rep.violation(f"{f['fail']}: {f['msg']}", {"input": f["fail"], "observed": f["msg"], "failed_obligations": obl[:5], "rerun": f"cd /verif && python3 tools/check.py {prop} --replay '{f['fail']}'"})
        if not fails:
            for r, v in hard:
                rep.violation(f"{r['target']}: {v['msg']} (at {v['at']})", {"target": r["target"], "obligation": v}, False)
    if err and not mine:
        # the library cannot be compiled for the verifier at all
        rep.level = "exploration"
        st = rep.cov.get("bounded_stand_in", {})
        rep.cov.update(
            evaluations=st.get("evaluations", 0),
            distinct_nontrivial=nt,
            rule="the verifier could not run: every library type natively, lengths 0..7, every fault position; non-trivial with at least one closure call",
            samples=["try_func_map on Vec with A=Big, B=Big, n=3, fault=Err(1)"],
            note=err[-1000:],
        )
    return rep


def replay_case(case):
    d = stage(os.path.join(VERIF, "replay", "lib"), os.path.join(BUILD, "replay_lib"))
    tgt = os.path.join(BUILD, "rl")
    sh(["cargo", "build", "--offline"], env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "--cap-lints allow"}, cwd=d)
    rc, o, e = sh([os.path.join(tgt, "debug", "replay_lib"), "--case", case, "--max", "12"])
    print(o, e)
    return rc
