"""C15: the params and crate options. For definitions with every subset of their parameters listed, in any order and
split over attributes: the implementations there are exactly those named, their headers entail and are entailed by the
documented ones, their methods are proved against their contracts and run; and again in a crate that knows the library
under another name only."""
import itertools, random, re
from vlib import *
import probe
import meta_checks as MC
import corpus_checks as K
import bounds_checks as BC
import neg_checks as NEG
import build as B
import defs as C
from rust import *

D, M = C.D, C.Mod


def splits(r, names, crate=None):
    """attribute arguments listing the names"""
    names = list(names)
    r.shuffle(names)
    parts, out = [], []
    while names:
        k = r.randint(1, len(names))
        parts.append(names[:k])
        names = names[k:]
    items = [f"params({', '.join(p)}{r.choice(['', ','])})" for p in parts]
    if crate:
        items.insert(r.randint(0, len(items)), f'crate = "{crate}"')
    while items:
        k = r.randint(1, len(items))
        out.append(", ".join(items[:k]) + r.choice(["", ","]))
        items = items[k:]
    return out


def shapes(ps):
    """bodies that use the parameters in several ways"""
    q = lambda k: ps[k % len(ps)]
    yield "struct", "(" + ", ".join(ps) + ")"
    yield "struct", "{" + ", ".join(f"f{i}: {t}" for i, t in enumerate([f"Vec<{p}>" for p in ps] + [f"h::Two<{q(0)}, {q(1)}>", "u8"])) + "}"
    yield "enum", "A, " + ", ".join(f"V{i}({p}, Option<{q(i + 1)}>)" for i, p in enumerate(ps)) + f", Z{{x: [{q(0)}; 2], y: Result<{q(1)}, {q(2)}>}}"


DECLS = [
    ("T", ["T"]),
    ("T, U", ["T", "U"]),
    ("'a, T, U", ["T", "U"]),
    ("T, const N: usize, U", ["T", "U"]),
    ("const N: usize, T, const B: bool, U, V", ["T", "U", "V"]),
    ("'a, 'b, T, U, V", ["T", "U", "V"]),
    ("T, U, V, W", ["T", "U", "V", "W"]),
    ("r#type, U", ["r#type", "U"]),
    ("T: Tr0, U: Tr1<T>, V", ["T", "U", "V"]),
]


def mods(seed, crate=None):
    r = random.Random(f"{seed}/opts")
    out = []
    k = 0
    for decl, ps in DECLS:
        lts = [x for x in ("'a", "'b") if x in decl]
        for kind, body in shapes(ps):
            if lts:
                extra = ", ".join(f"&{l} str" for l in lts)
                if kind == "struct":
                    body = body[:-1] + (", " + extra if body[0] == "(" else ", " + ", ".join(f"l{i}: &{l} str" for i, l in enumerate(lts))) + body[-1]
                else:
                    body += f", L({extra})"
            subsets = [list(s) for n in range(1, len(ps) + 1) for s in itertools.combinations(ps, n)]
            for sub in [None] + subsets:
                if sub is None and crate is None:
                    at = None
                elif sub is None:
                    at = [f'crate = "{crate(r)}"']
                else:
                    at = splits(r, [(p if p.startswith("r#") or r.random() < 0.9 else "r#" + p) for p in sub], crate(r) if crate else None)
                ders = r.choice([("FuncMap", "TryFuncMap"), ("FuncMap", "TryFuncMap"), ("FuncMap",), ("TryFuncMap",)])
                out.append(M(f"o{k}", D("S", decl, body, kind=kind, funcmap_attrs=at, params=sub, derives=ders, values=2)))
                k += 1
    # the parameters that are not listed may stand where they could not be mapped
    for at, sub in ((["params(T)"], ["T"]), (["params(T), params(V)"], ["T", "V"]), (["params(V)", "params(T)"], ["T", "V"])):
        x = [a + (f', crate = "{crate(r)}"' if crate and i == 0 else "") for i, a in enumerate(at)]
        out.append(M(f"o{k}", D("S", "'a, T, U: 'a, V", "(T, &'a U, fn(U) -> U, Box<dyn Fn(U) -> u8>, V, *const U, ::core::marker::PhantomData<U>)", funcmap_attrs=x, params=sub, values=0)))
        k += 1
    return out


OWN = """
#![allow(unused)]
pub mod own {
 pub struct TypeParam<const N: usize>;
 pub trait FuncMap<A, B, P = TypeParam<0>>: Sized { type Output; fn func_map<F: FnMut(A) -> B>(self, f: F) -> Self::Output; }
 pub trait TryFuncMap<A, B, P = TypeParam<0>>: Sized { type Output; fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, f: F) -> Result<Self::Output, E>; }
 pub trait FuncMap_cannot_be_derived_for_types_implementing_Drop {} pub trait TryFuncMap_cannot_be_derived_for_types_implementing_Drop {}
 impl<A, B> FuncMap<A, B> for Option<A> { type Output = Option<B>; fn func_map<F: FnMut(A) -> B>(self, f: F) -> Option<B> { self.map(f) } }
 impl<A, B> TryFuncMap<A, B> for Option<A> { type Output = Option<B>; fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, f: F) -> Result<Option<B>, E> { self.map(f).transpose() } }
 impl<A, B, const N: usize> FuncMap<A, B> for [A; N] { type Output = [B; N]; fn func_map<F: FnMut(A) -> B>(self, f: F) -> [B; N] { self.map(f) } }
 impl<A, B, const N: usize> TryFuncMap<A, B> for [A; N] { type Output = [B; N]; fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, f: F) -> Result<[B; N], E> { loop {} } }
}
"""


def own_program():
    """the option names a module with traits of its own: only those may be referred to"""
    s = OWN
    uses = ""
    for k, (kind, body) in enumerate([("struct", "(T, Option<T>, u8);"), ("struct", "{ a: [T; 2], b: Option<(T, [U; 3])> }"), ("enum", "{ A(T), B { x: Option<Option<U>> }, C }"), ("enum", "{ Output(T), B(Option<T>) }")]):
        g = ["T", "T, U", "T, U", "T"][k]
        for d in ("FuncMap", "TryFuncMap"):
            for j, p in enumerate(("crate::own", "super::own", "self::mine")):
                n = f"m{k}{d}{j}"
                s += f"pub mod {n} {{ pub use crate::own as mine; #[derive(::fm::{d})] #[funcmap(crate = \"{p}\")] pub {kind} S<{g}> {body} }}\n"
                for i, x in enumerate(g.split(", ")):
                    a = ["i8"] * len(g.split(", "))
                    a[i] = "u8"
                    b = list(a)
                    b[i] = "u16"
                    uses += f"same::<<{n}::S<{', '.join(a)}> as own::{d}<u8, u16, own::TypeParam<{i}>>>::Output, {n}::S<{', '.join(b)}>>();\n"
    return s + "pub trait Is<T> {} impl<T> Is<T> for T {} pub fn same<X: Is<Y>, Y>() {}\npub fn uses() {\n" + uses + "}\n"


FACADE = "pub mod facade { pub use ::fm::*; pub mod deep { pub use ::fm::*; } }\n"


def impl_set(meta, ms):
    """[(module, what)] where the implementations are not those named"""
    have = {}
    for i in meta["impls"]:
        m = re.match(r"(?:crate::)?(\w+)::(\w+)", i["self"])
        if m:
            have.setdefault(m.groups(), []).append((i["trait"], i["index"]))
    out = []
    n = 0
    for m in ms:
        for d in m.defs:
            due = sorted((t, d.index(p)) for t in d.derives for p in d.mapped())
            got = sorted(have.get((m.name, d.name), []))
            n += 1
            if due != got:
                out.append((m, f"implementations due: {due}; there are: {got}"))
    return n, out


def check():
    rep = Report("C15", "translation_validation")
    ms = mods(SEED)
    if tier() == "thorough":
        for k in range(3):
            ms += [x for x in rename(mods(SEED + 1 + k), f"s{k}")]
    meta, bad, err = MC.corpus_meta([BC.with_specs(m) for m in ms], BC.with_specs(C.shared()), "c15")
    undecided, kinds, fails = [], {}, []
    total = 0
    wrong = []
    if meta is None:
        undecided.append("the verifier could not run: " + err[-500:])
    else:
        n, wrong = impl_set(meta, [m for m in ms if m.name not in bad])
        total += n
        kinds["implementations named"] = n
        for o in MC.obligations(meta, ("sound", "complete")):
            total += 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["fail"]:
                fails.append(o)
    r = K.run_corpus(ms, C.shared(), "c15", per=2)
    K.uncompiled(rep, r)
    K.missing(rep, r, "an implementation named is missing or cannot be used")
    cats = {"Trace", "Value", "Panic", "Term", "Own", "Safety"}
    mine, und = K.behaviour(rep, r, None, cats, ["func_map", "try_func_map"], "C15")
    K.harness_broken(rep, r)
    undecided += und
    seen = set(r["badrun"]) | set(r["bad"])
    for m, w in wrong:
        if m.name not in seen:
            rep.violation(f"{m.name}: {w}", {"definition": B.mod_text(m, False), "found": w})
            seen.add(m.name)
    for o in fails:
        m = MC.derived_target(o)
        if m in seen:
            continue
        seen.add(m)
        rep.violation(f"{o['subject']}: {o['what']}: {o['fail'][:300]}", {"obligation": o, "definition": K.source_of(r, m)}, False)
    # another name for the library
    cr = lambda q: q.choice(["fm", "::fm", "crate::facade", "crate::facade::deep", "super::facade", "::fm"])
    ms2 = mods(SEED + 5, crate=cr)
    sh = C.shared()
    for d in sh.defs:
        d.funcmap_attrs = ['crate = "crate::facade::deep"']
    r2 = K.run_corpus(ms2, sh, "c15r", per=1, emit={"lib": "fm", "head": FACADE})
    for m, msgs in list(r2["bad"].items()) + list(r2["badrun"].items()):
        rep.violation(f"{m}: with the library known as `fm` only: {K.first_line(msgs[0])}", {"definition": B.mod_text({x.name: x for x in ms2 + [sh]}[m], False).replace("::funcmap", "::fm"), "compiler": msgs[:3]})
    r2["bad"], r2["badrun"] = {}, {}
    mine2, und2 = K.behaviour(rep, r2, None, cats, ["func_map", "try_func_map"], "C15")
    if r2["err"] and not rep.viol:
        rep.violation("with the library known as `fm` only nothing compiles: " + K.first_line(r2["err"]), {"compiler": r2["err"][-3000:]})
    lib = probe.Lib("default")
    nneg = 0
    if lib.ok:
        own = own_program()
        rc, ds, _ = lib.rustc(own, names=(("fm", "funcmap"),))
        if rc != 0:
            rep.violation(f"crate option naming a module with traits of its own: {ds[0][2][:300]}", {"program": own, "compiler": [d[2] for d in ds][:6]})
        mm = NEG.Multi(SEED + 31)
        cs = []
        while len(cs) < (6000 if tier() == "thorough" else 900):
            c = mm.case(stage=mm.r.choice([0, 1, 2, 2]))
            if len(c.due) <= 1 and not c.more:
                cs.append(c)
        w, stray = NEG.run(cs, lib=lib)
        nneg = len(cs)
        for c, t, got in w[:6]:
            rep.violation(f"{c.line[:250]}: {t}", {"definition": c.line, "due": [c.line[a:b] for a, b, _ in c.due], "reported": got})
        if stray and not w:
            rep.violation(f"unexpected diagnostics: {stray[0][:300]}", {"diagnostics": stray[:10]})
    else:
        rep.violation("the library does not build: " + K.first_line(lib.err), {"compiler": lib.err})
    K.cover(rep, r, mine + mine2, undecided + und2)
    rep.cov["obligations"] += total
    rep.cov["discharged"] += total - len(fails) - len(wrong)
    rep.cov["disagreements_checked"] = rep.cov["obligations"]
    rep.cov["by_kind"].update(kinds)
    rep.cov["evaluations"] += r2["evaluations"] + nneg
    rep.cov["rejections_checked"] = nneg
    rep.cov["definitions"] = len(ms) + len(ms2)
    rep.cov["samples"] = [B.def_text(d, False) for m in ms[:: len(ms) // 8] for d in m.defs]
    return rep


def rename(ms, suf):
    for m in ms:
        m.name += suf
        for d in m.defs:
            d.mod = m.name
    return ms
