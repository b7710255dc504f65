"""C16: a type that derives a mapping cannot have a destructor."""
import copy, json, os, re
from vlib import *
import probe
import meta_checks as MC
import corpus_checks as K
import build as B
import defs as C
from rust import *

D, M = C.D, C.Mod


def extra():
    """definitions whose generated methods alone would tolerate a destructor (only copies are taken out)"""
    P = "::core::marker::PhantomData"
    e = "enum"
    r = [
        D("S", "T: Copy", "(T)"),
        D("S", "T: Copy", "{x: T, y: u8}"),
        D("S", "T", f"({P}<T>)"),
        D("S", "T", f"{{p: {P}<T>}}"),
        D("S", "T: ?Sized", f"({P}<T>)", values=0),
        D("S", "T: Copy, const N: usize", "([T; N])"),
        D("S", "const N: usize, T", f"([u8; N], {P}<T>)"),
        D("S", "'a, T: Copy", "(&'a str, T)", values=0),
        D("S", "'a, T: Copy + 'a", "(&'a T, T)", values=0, funcmap_attrs=["params()"], params=[]) if False else D("S", "'a: 'b, 'b, T: Copy", "(&'a str, &'b str, T)", values=0),
        D("S", "T, U", "(T, U)", where="T: Copy, U: Copy"),
        D("S", "T, U", "(T, U)", where="T: Copy + Tr1<U>, U: Copy, ::std::vec::Vec<T>: Clone"),
        D("S", "T: Copy, U: Copy = u8", "(T, U)"),
        D("S", "T: Copy, U: Copy", "(T, U)", funcmap_attrs=["params(U)"], params=["U"]),
        D("S", "T: Copy", "A, B(T), C{x: T}", kind=e),
        D("S", "T", f"A, B({P}<T>)", kind=e),
        D("S", "T: Copy", "((T, T), Option<T>)"),
        D("S", "T: Copy", "(T)", where="for<'x> &'x T: Copy"),
        D("S", "T: Copy", "(T)", where="u8: Copy"),
        D("S", "T: Copy + As", "(T, u8)", where="T::Out: Copy"),
        D("S", "r#T: Copy, r#dyn: Copy", "(r#T, r#dyn)"),
        D("S", "T: Copy, const B: bool, U: Copy", "{t: T, u: U}"),
        D("S", "T: Copy", "(::core::cell::UnsafeCell<()>, ::core::mem::ManuallyDrop<u8>, T)", values=0),
    ]
    return [M(f"dr{i}", d) for i, d in enumerate(r)]


def accepted():
    """definitions that have no destructor of their own"""
    hd = "pub struct HasDrop; impl ::core::ops::Drop for HasDrop { fn drop(&mut self) {} }\npub struct Dg<X>(pub X); impl<X> ::core::ops::Drop for Dg<X> { fn drop(&mut self) {} }"
    r = [
        (D("S", "T", "(T, HasDrop)"), ""),
        (D("S", "T", "{x: HasDrop, t: Vec<T>, y: Dg<u8>}"), ""),
        (D("S", "T, U", "(Dg<U>, T)", funcmap_attrs=["params(T)"], params=["T"]), ""),
        (D("S", "T: Drop", "(T)"), ""),
        (D("S", "T", "(T)", where="T: Drop"), ""),
        (D("S", "T, U: Drop", "(T, U)"), ""),
        (D("S", "T", "A(HasDrop), B{t: T, h: Dg<String>}", kind="enum"), ""),
        (D("S", "T", "(T)"), "pub struct Outer<T>(pub S<T>); impl<T> ::core::ops::Drop for Outer<T> { fn drop(&mut self) {} }"),
        (D("S", "T", "(Box<T>, Vec<HasDrop>)"), ""),
    ]
    return [(f"ok{i}", d, hd + "\n" + extra) for i, (d, extra) in enumerate(r)]


def drop_impl(d):
    g = "<" + ", ".join(p.decl() for p in d.params) + ">" if d.params else ""
    w = (" where " + ", ".join(d.where)) if d.where else ""
    return f"impl{g} ::core::ops::Drop for {d.name}{d.args()}{w} {{ fn drop(&mut self) {{}} }}"


def with_derives(d, ders):
    x = copy.copy(d)
    x.derives = tuple(ders)
    if not ders:
        x.funcmap_attrs = None
    return x


def program(m, shared, defs, extra_text):
    mm = copy.copy(m)
    mm.defs = defs
    return B.STD_ALLOW + f"pub mod {shared.name} {{\n{B.mod_text(shared, False)}\n}}\npub mod {m.name} {{\n{B.mod_text(mm, False)}\n{extra_text}\n}}\n"


def check():
    rep = Report("C16", "proof")
    mods, shared = K.corpus_mods("hand")
    mods = mods + extra()
    total = failed = 0
    undecided, fails = [], []
    kinds = {}
    for feat in ("none", "std"):
        meta, err = MC.lib_meta(feat)
        if meta is None:
            undecided.append(f"library, {feat}: {err[-300:]}")
            continue
        for o in MC.obligations(meta, ("drop",)):
            total += 1
            kinds["library"] = kinds.get("library", 0) + 1
            if o["fail"]:
                failed += 1
                fails.append(o)
    meta, bad, err = MC.corpus_meta(mods, shared, "c16")
    if meta is None:
        undecided.append("corpus: " + err[-300:])
    else:
        for o in MC.obligations(meta, ("drop",)):
            total += 1
            kinds[o["what"]] = kinds.get(o["what"], 0) + 1
            if o["fail"]:
                failed += 1
                fails.append(o)
    lib = probe.Lib("default", with_rt=True)
    if not lib.ok:
        raise Broken("the library does not build: " + lib.err[:2000])
    jobs, what = [], []
    for k, m in enumerate(mods):
        if m.known or m.name in bad:
            continue
        for d in m.defs:
            if not d.derives or d.grouped:
                continue
            for tr in d.derives if m.name.startswith("dr") else d.derives[k % len(d.derives) :][:1]:
                defs = [with_derives(x, [tr]) if x is d else x for x in m.defs]
                jobs.append({"src": program(m, shared, defs, drop_impl(d))})
                what.append((m, d, tr))
    rs = lib.many(jobs)
    rejected, unclear = 0, []
    for (m, d, tr), j, (rc, ds, _) in zip(what, jobs, rs):
        if rc == 0:
            rep.violation(
                f"{m.name}: deriving {tr} for a type that implements Drop compiles",
                {"program": j["src"].split("pub mod " + m.name, 1)[1], "expected": "is rejected", "failed_obligations": [o for o in fails if m.name + "::" in o["subject"]] or fails[:3]},
            )
        elif {c for _, c, _, _ in ds} & {"E0119", "E0509"}:
            rejected += 1
        else:
            unclear.append((m, d, tr, ds[0][2][:200]))
    # rejected for another reason: is the destructor itself at fault?
    rs = lib.many([{"src": program(m, shared, [with_derives(x, []) if x is d else x for x in m.defs], drop_impl(d))} for m, d, _, _ in unclear])
    void = [m.name for (m, *_), (rc, ds, _) in zip(unclear, rs) if rc != 0]
    acc = accepted()
    progs = [f"{B.STD_ALLOW}pub mod {n} {{ {pre}\nuse ::rt::*; {B.def_text(d, False)} }}" for n, d, pre in acc]
    for (n, d, pre), p, (rc, ds, _) in zip(acc, progs, lib.many([{"src": p} for p in progs])):
        if rc != 0:
            rep.violation(f"{n}: a type without a destructor is rejected: {ds[0][2][:200]}", {"program": p, "expected": "compiles", "compiler": [x[2] for x in ds][:3]})
    if not rep.viol:
        seen = set()
        for o in fails:
            if o["what"] in seen:
                continue
            seen.add(o["what"])
            rep.violation(f"{o['subject']}: {o['what']}: {o['fail'][:300]}", {"obligation": o}, False)
    rep.cov = {
        "obligations": total,
        "discharged": total - failed,
        "checker_cmd": f"python3 tools/check.py C16 --tier {tier()}  (dv's header obligations by {MC.SOLVER})",
        "trusted_base": ["rustc's coherence checker: two implementations of a trait for one type are an error", "rustc: the implementation of Drop has exactly the type's own parameters and requirements (E0366, E0367)"],
        "by_kind": kinds,
        "derived_definitions_bounded_to": len(mods),
        "evaluations": len(jobs) + len(acc),
        "programs_rejected": rejected,
        "destructor_not_expressible": void,
        "not_decided_deductively": undecided,
    }
    rep.assumptions = MC.ASSUME[:1] + ["derived implementations: for the definitions of the corpus"]
    return rep
