"""C14, the deductive part: no function of the macro crate loses an error. Values that may hold an error are owned; every
drop, overwriting and handing over of one in the compiled code (dv, DV_LINEAR) is an obligation, decided function by
function against the contracts of the callees."""
import json, os
import vlib
from vlib import *

sys_path = os.path.join(VERIF, "tools", "corpus")
import sys

sys.path.insert(0, sys_path)
import build as B

ASSUME = [
    "ownership contracts of the functions of std and syn that errors are given to (Result and Option combinators, iterator adapters and sinks, syn::Error::combine and into_compile_error keep every error; `collect` into anything but a Result or an Option consumes the whole iterator)",
    "inside a parser (a function of a syn ParseBuffer) the error of one alternative may give way to another alternative",
    "a clone of an error stands for it; an error dropped where nothing but an error can be returned is replaced by that",
    "rustc's MIR construction and dv's reading of it; panics end the macro and are not errors reported",
]


def facts():
    d = os.path.join(BUILD, "lin")
    B.write(os.path.join(d, "Cargo.toml"), f'[package]\nname = "lin"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nfuncmap_derive = {{ path = "{REPO}/funcmap_derive" }}\n')
    B.write(os.path.join(d, "src", "lib.rs"), "")
    tgt, out = os.path.join(BUILD, "lint"), os.path.join(BUILD, "lin.json")
    dv = build_dv()
    with Lock("lint"):
        if os.path.exists(out):
            os.remove(out)
        sh(["cargo", NIGHTLY, "clean", "--offline", "-p", "funcmap_derive"], env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": DV_FLAGS}, cwd=d)
        rc, o, e = sh(
            ["cargo", NIGHTLY, "check", "--offline"],
            env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": DV_FLAGS, "RUSTC_WRAPPER": dv, "DV_OUT": out, "DV_CRATE": "funcmap_derive", "DV_LINEAR": "1", "CARGO_INCREMENTAL": "0"},
            cwd=d,
        )
        if not os.path.exists(out):
            return None, e[-1500:]
        return json.load(open(out)), ""


def judge(rep):
    """adds the obligations to a report"""
    j, err = facts()
    ok = attempts = 0
    lost, unknown, fns = [], [], []
    if j is None:
        unknown.append({"what": "the verifier could not run: " + err})
    else:
        for b in j["bodies"]:
            if b["facts"]:
                fns.append(b["fn"])
            for f in b["facts"]:
                x = {"fn": b["fn"], "what": f["what"], "line": os.path.relpath(f["line"], REPO) if f["line"].startswith("/") else f["line"]}
                if f["how"] == "ok":
                    ok += 1
                elif f["how"] == "attempt":
                    attempts += 1
                elif f["how"] == "lost":
                    lost.append(x)
                else:
                    unknown.append(x)
    inputs = bool(rep.viol)
    rep.cov["deductive_part"] = {
        "contract": "no value that may hold an error is dropped, overwritten or given to a function that loses it",
        "functions_under_contract": fns,
        "functions_without_errors": (len(j["bodies"]) - len(fns)) if j else 0,
        "obligations": ok + attempts + len(lost) + len(unknown),
        "discharged": ok + attempts,
        "dropped_by_parsers_between_alternatives": attempts,
        "back_end": "dv, ownership analysis on the MIR before drop elaboration (no solver)",
        "failed": lost[:20],
        "not_decided": unknown[:20],
    }
    rep.assumptions += ASSUME
    for x in lost[:5]:
        if inputs:
            break
        rep.violation(f"{x['fn']}: {x['what']} ({x['line']}): an error may be lost here", {"obligation": x, "failed_obligations": lost[:20]}, False)
