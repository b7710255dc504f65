"""C11: a derived implementation applies exactly when the documented bounds hold. The documented bounds of every
definition are computed here, from the documentation, as an implementation of a mirror trait; the verifier decides that
each of the two implementations entails the other."""
import copy, os, re
from vlib import *
import meta_checks as MC
import corpus_checks as K
import build as B
import defs as C
from rust import *

D, M = C.D, C.Mod
SRC, DST = "Src__", "Dst__"
SIZED = "::core::marker::Sized"


def requirements(t, p, tr, lib="::funcmap"):
    """predicates the documentation asks of a field of type t when mapping over p"""
    if not t.mentions(p):
        return [f"{t}: {SIZED}"]
    if t.is_param(p):
        return []
    if t.kind in ("array", "paren"):
        return requirements(t.elem, p, tr, lib)
    if t.kind == "tuple":
        return [r for e in t.elems for r in requirements(e, p, tr, lib)]
    assert t.kind == "path", t
    r = []
    segs = t.segs
    args = segs[-1][1]
    pos = [k for k, a in enumerate(args) if a[0] != "lt"]
    for n, k in enumerate(pos):
        a = args[k]
        if a[0] != "ty" or not a[1].mentions(p):
            continue

        def upto(m):
            xs = []
            for j, x in enumerate(args):
                if x[0] == "ty":
                    xs.append(("ty", x[1].subst(p, DST if j in pos[:m] else SRC)))
                else:
                    xs.append(x)
            return Ty("path", qself=t.qself, lead=t.lead, segs=list(segs[:-1]) + [(segs[-1][0], xs)])

        r.append(f"{upto(n)}: {lib}::{tr}<{a[1].subst(p, SRC)}, {a[1].subst(p, DST)}, {lib}::TypeParam<{n}>, Output = {upto(n + 1)}>")
        r += requirements(a[1], p, tr, lib)
    return r


def relaxed(b):
    return re.sub(r"\s", "", b).replace("::core::marker::", "").replace("::std::marker::", "").strip("()") == "?Sized"


def spec_parts(d, p, tr):
    """(generics, predicates) of the documented implementation of `tr` for definition d over parameter p"""
    q = p.name
    gs, ws = [], []

    def add(l, b):
        w = f"{l}: {b}"
        if w not in ws:
            ws.append(w)

    for x in d.params:
        if x is p:
            gs += [SRC, DST]
            for b in x.bounds:
                if not relaxed(b):
                    add(SRC, subst_text(b, q, SRC))
                    add(DST, subst_text(b, q, DST))
        elif x.kind == "type":
            gs.append(x.name + (": ?Sized" if any(relaxed(b) for b in x.bounds) else ""))
            for b in x.bounds:
                if not relaxed(b):
                    add(x.name, subst_text(b, q, SRC))
                    add(x.name, subst_text(b, q, DST))
        else:
            gs.append(x.decl())
    for w in d.where:
        lhs, b = re.match(r"((?:[^:]|::)*):(?!:)(.*)", w, re.S).groups()
        if unraw(lhs.strip()) == unraw(q):
            bs = [x for x in split(b, "+") if not relaxed(x)]
            w = f"{lhs}: {' + '.join(bs)}"
        for k, g in enumerate(gs):
            if unraw(lhs.strip()) == unraw(g.split(":")[0].strip()) and any(relaxed(x) for x in split(b, "+")) and ":" not in g:
                gs[k] = g + ": ?Sized"
                w = f"{lhs}: {' + '.join(x for x in split(b, '+') if not relaxed(x))}"
        for x in (subst_text(w, q, SRC), subst_text(w, q, DST)):
            if x not in ws:
                ws.append(x)
    for v in d.variants:
        for _, t, at in v[2]:
            if "cfg(any())" in at.replace(" ", "") or "cfg(any())" in v[3].replace(" ", ""):
                continue  # not there
            for w in requirements(t, q, tr):
                if w not in ws:
                    ws.append(w)
    ws += [f"{d.name}{d.args({p.name: x})}: {SIZED}" for x in (SRC, DST)]
    gs.sort(key=lambda g: not g.startswith("'"))
    return gs, ws


def spec_impl(d, p, tr):
    """the same as an implementation of the mirror trait"""
    gs, ws = spec_parts(d, p, tr)
    n = d.index(p)
    return f"impl<{', '.join(gs)}> ::dv_spec::Spec{tr}<{SRC}, {DST}, ::funcmap::TypeParam<{n}>> for {d.name}{d.args({p.name: SRC})} where {', '.join(ws)} {{ type Output = {d.name}{d.args({p.name: DST})}; }}"


def witnesses(mods, shared):
    """programs that show an implementation asking for more or for less than documented:
    {module: (what, program, compiler's message)}"""
    out, cand = {}, []

    def fn(gs, ws, need):
        return f"pub fn due<{', '.join(gs)}>() where {', '.join(ws)} {{ fn need<{', '.join(g for g in gs)}>() where {need} {{}} need::<{', '.join(names(gs))}>() }}"

    def names(gs):
        return [re.match(r"(?:const\s+)?((?:r#)?[\w']+)", g).group(1) for g in gs if not g.startswith("'")]

    for m in mods:
        for d in m.defs:
            for tr in d.derives:
                for p in d.mapped():
                    gs, ws = spec_parts(d, p, tr)
                    it = f"{d.name}{d.args({p.name: SRC})}: ::funcmap::{tr}<{SRC}, {DST}, ::funcmap::TypeParam<{d.index(p)}>, Output = {d.name}{d.args({p.name: DST})}>"
                    # outputs are bounds of their own
                    cand.append((m, ("more", it, ws), fn(gs, ws, it)))
                    for k, w in enumerate(ws[:-2]):
                        rest = ws[:k] + ws[k + 1 :]
                        cand.append((m, ("less", it, w, "use"), fn(gs, rest, it)))
                        cand.append((m, ("less", it, w, "has"), fn(gs, rest, w)))
    clones = []
    for i, (m, _, src) in enumerate(cand):
        x = copy.copy(m)
        x.name = f"w{i}_{m.name}"
        x.post = src
        x.pre = re.sub(r"\b" + m.name + r"\b", x.name, m.pre)
        clones.append(x)
    if len(clones) > 900:
        clones = clones[:900]
    d = os.path.join(BUILD, "c11_wit")

    def go():
        with Lock("ct"):
            rc, o, e = B.cargo(["check"], d, os.path.join(BUILD, "ct"))
        return rc, B.diagnostics(o), e

    _, bad, _, err = B.compile_all(clones, shared, go, lambda ms: B.emit(d, "c11_wit", ms, shared))
    if err:
        return out
    used = set()
    for i, (m, what, src) in enumerate(cand[: len(clones)]):
        fails = clones[i].name in bad
        if what[0] == "more" and fails:
            out.setdefault(m.name, ("the documented bounds hold, the implementation does not apply", src, bad[clones[i].name][:2]))
        if what[0] == "less":
            if what[3] == "use" and not fails:
                used.add(what[:3])
            if what[3] == "has" and fails and what[:3] in used:
                out.setdefault(m.name, (f"the implementation applies where {what[2]} is not known to hold", cand[i - 1][2], ["compiles"]))
    return out


def extra():
    """definitions whose bounds are easily got wrong"""
    M_ = []
    e = "enum"

    def m(name, *a, pre="", more=(), **k):
        M_.append(M("bd_" + name, *more, D("S", *a, values=0, **k), pre=pre))

    nomap = "pub struct NoMap<X>(pub X); pub struct No2<X, Y>(pub X, pub Y);"
    m("nomap", "T", "(NoMap<T>)", pre=nomap)
    m("nomap_deep", "T", "(Vec<NoMap<T>>, T)", pre=nomap)
    m("nomap_inner", "T", "(NoMap<Vec<T>>, T)", pre=nomap)
    m("nomap_two", "T, U", "(No2<T, U>, No2<U, Vec<T>>)", pre=nomap)
    n3 = "pub struct No3<X, const N: usize, Y, Z>(pub X, pub Y, pub Z);"
    m("nomap_three", "T, U", "(No3<T, 2, U, U>, No3<U, 3, Vec<T>, T>)", pre=n3)
    m("nomap_three_last", "T, U", "{x: Option<No3<U, 3, U, T>>}", pre=n3)
    m("nomap_assoc", "T, U: As", "(T, NoMap<(U::Out, T)>)", pre=nomap, funcmap_attrs=["params(T)"], params=["T"])
    m("nomap_arr", "T, const N: usize", "{a: [NoMap<T>; N]}", pre=nomap)
    m("nomap_enum", "T", "A(T), B{x: NoMap<T>}", kind=e, pre=nomap)
    m("rc", "T", "(::std::rc::Rc<T>, ::std::sync::Arc<Option<T>>)")
    m("bound", "T: Tr0", "(T)")
    m("bounds", "T: Tr0 + Clone + ::core::fmt::Debug", "(T, Vec<T>)")
    m("bound_lt", "'a, T: Lt<'a> + 'a", "(T, &'a u8)")
    m("bound_static", "T: 'static", "(T)")
    m("bound_hr", "T: for<'x> Lt<'x>", "(T)")
    m("bound_self", "T: Tr1<T>", "(T)")
    m("bound_other", "T, U: Tr1<T>", "(T, U)")
    m("bound_other_both", "T: Tr1<U>, U: Tr1<T>", "(T, U)")
    m("bound_two", "T, U: Two<T, T> + Tr0", "(T, U)")
    m("bound_three", "T, U: Two<T, V>, V: Tr0", "(T, U, V)")
    m("bound_const", "T: Gen<N>, const N: usize", "([T; N])")
    m("bound_vec", "T: Tr1<Vec<T>>", "(T)")
    m("where_t", "T", "(T)", where="T: Tr0")
    m("where_vec", "T", "(T)", where="Vec<T>: Tr0")
    m("where_two", "T, U", "(T, U)", where="T: Tr1<U>, U: Tr1<T>, u8: Tr1<T>")
    m("where_indep", "T, U", "(T, U)", where="U: Tr0, Vec<U>: Clone")
    m("where_hr", "T", "(T)", where="for<'x> &'x T: Tr1<T>")
    m("where_assoc", "T: As, U", "(T, U)", where="T::Out: Tr0, U: Tr1<T::Out>")
    m("where_assoc_eq", "T: As<Out = U>, U", "(T, U)", funcmap_attrs=["params(T)"], params=["T"])
    m("where_lt", "'a, 'b, T", "(T, &'a u8, &'b u8)", where="'a: 'b, T: 'a")
    m("where_arr", "T, const N: usize", "([T; N])", where="[T; N]: Clone")
    m("where_tuple", "T, U", "((T, U))", where="(T, U): Clone")
    m("where_fnb", "T, G", "(T, G)", where="G: Fn(T) -> T")
    m("fnb", "T, G: FnMut(&T) -> u8", "(T, G)")
    m("unsized", "T: ?Sized", "(::core::marker::PhantomData<T>)")
    m("unsized_plus", "T: Tr0 + ?Sized + 'static", "(::core::marker::PhantomData<T>)")
    m("unsized_where", "T", "(::core::marker::PhantomData<T>)", where="T: ?Sized")
    m("unsized_other", "T, U: ?Sized", "(T, ::core::marker::PhantomData<U>)", funcmap_attrs=["params(T)"], params=["T"])
    m("unsized_other2", "T, U: ?Sized + Tr1<T>", "(T, Box<U>)", funcmap_attrs=["params(T)"], params=["T"])
    m("unsized_last", "T, U: ?Sized", "(T, U)", funcmap_attrs=["params(T)"], params=["T"])
    m("unsized_last_named", "T, U: ?Sized", "{t: T, u: h2::Last<U>}", pre="pub mod h2 { pub struct Last<X: ?Sized>(pub u8, pub X); }", funcmap_attrs=["params(T)"], params=["T"])
    m("unsized_both", "T, U: ?Sized", "(T, U)")
    m("unsized_tuple", "T, U: ?Sized", "(T, (u8, U))", funcmap_attrs=["params(T)"], params=["T"])
    m("unsized_tuple_dep", "T, U: ?Sized", "((T, U))", funcmap_attrs=["params(T)"], params=["T"])
    more = [D("Uns", "X, Y: ?Sized", "(X, ::core::marker::PhantomData<Y>)", values=0, funcmap_attrs=["params(X)"], params=["X"])]
    uns = "pub trait UnsOut { type Out: ?Sized; }"
    pt = dict(funcmap_attrs=["params(T)"], params=["T"], pre=uns, more=more)
    m("uns_lit", "T", "(Uns<T, str>, Uns<Vec<T>, [u8]>, Uns<T, dyn Tr0>, Uns<T, dyn Fn(u8) -> u8 + 'static>)", pre=uns, more=more)
    m("uns_param", "T, U: ?Sized", "(Uns<T, U>, Option<Uns<T, [U; 0]>>)", where="U: Sized", **pt)
    m("uns_param2", "T, U: ?Sized, V: ?Sized", "(Uns<T, U>, Option<Uns<Uns<T, V>, U>>)", **pt)
    m("uns_proj", "T, U: UnsOut", "(Uns<T, <U as UnsOut>::Out>, T)", **pt)
    m("uns_proj2", "T, U: UnsOut + ?Sized", "{a: Vec<Uns<T, U::Out>>}", **pt)
    m("uns_proj3", "T, U", "(Uns<T, <Vec<U> as UnsOut>::Out>, Uns<T, [U]>)", where="Vec<U>: UnsOut", **pt)
    m("uns_box", "T, U: ?Sized + 'static", "(h::Two<T, Box<U>>, h::Two<&'static U, T>, h::Two<T, ::std::rc::Rc<[u8]>>)", funcmap_attrs=["params(T)"], params=["T"])
    m("uns_enum", "T, U: ?Sized", "A(T), B{x: Uns<Option<T>, U>}, C(Uns<T, str>)", kind=e, **pt)
    m("gat", "T, U", "(<u8 as Fam>::List<T>, <U as Fam>::Maybe<<u8 as self::Fam>::List<T>>)", where="U: Fam", pre="pub trait Fam { type List<X>; type Maybe<X>; } impl Fam for u8 { type List<X> = ::std::vec::Vec<X>; type Maybe<X> = ::core::option::Option<X>; }", funcmap_attrs=["params(T)"], params=["T"])
    m("wide", "T: Ord, U", "(u8, Option<U>, Vec<T>, u8, U, Result<Vec<U>, T>, Option<Vec<std::collections::BTreeMap<T, U>>>, (Vec<Option<std::collections::BTreeMap<T, u8>>>, h::Two<Vec<U>, h::Two<T, U>>), Box<T>, T, Vec<Vec<Vec<U>>>)")
    m("wide_named", "T, U", "{a: T, b: Vec<T>, c: Option<T>, d: Vec<Option<U>>, e: h::One<T>, f: h::One<h::One<T>>, g: h::Two<h::One<U>, Box<T>>, h: U, i: Vec<Result<T, Vec<U>>>}")
    m("wide_enum", "T, U", "A(T, Vec<T>), B, C{x: Option<Vec<U>>}, D, E(h::One<h::One<T>>), F(h::Two<h::One<U>, h::One<T>>), G(Vec<Vec<T>>), H{y: Box<Vec<U>>, z: Vec<Box<Option<T>>>}", kind=e)
    m("hr_two", "T, U", "(T, U)", where="for<'x> U: Lt<'x>, for<'y> U: Tr1<&'y u8>, for<'x> T: Lt<'x>, for<'y> T: Tr1<&'y U>")
    m("hr_bounds", "T: for<'x> Lt<'x> + for<'y> Tr1<&'y u8>, U: for<'x> Tr1<&'x T> + for<'y> Lt<'y>", "(T, U)")
    m("const_default", "T: Gen<N>, const N: usize = { 1 + 1 }", "([T; N])")
    m("sized_proj", "T, U: As", "(T, U::Out)", funcmap_attrs=["params(T)"], params=["T"])
    m("nested_both", "T: Ord", "(std::collections::BTreeMap<T, Vec<T>>)")
    m("nested_key", "T: Ord, U", "(std::collections::BTreeMap<T, U>)")
    m("nested_set", "T: Ord", "(std::collections::BTreeSet<Option<T>>)")
    m("nested_hash", "T: Eq + ::core::hash::Hash, U", "(std::collections::HashMap<T, U>, std::collections::HashMap<U, T>)")
    m("nested_bd", "T: Tr0", "(h::Bd<T>, h::Bd<Vec<T>>)")
    m("nested_wh", "T: Tr1<U>, U: Tr1<T>", "(h::Wh<T, U>, h::Wh<U, T>)")
    m("nested_mid", "T", "(h::Mid<T, 2, T>, h::Mid<Vec<T>, 3, u8>)")
    m("nested_flag", "T", "(h::Flag<true, T, 'x', Option<T>>)")
    m("nested_lf", "'a, T", "(h::Lf<'a, h::Lf<'static, T>>)")
    m("default", "T: Tr0 = u8, U: Tr1<T> = u8", "(T, U)")
    m("params", "T: Tr0, U: Tr1<T>, V", "(T, U, V)", funcmap_attrs=["params(V)"], params=["V"])
    m("params2", "T: Tr0, U: Tr1<T>, V: Two<T, U>", "(T, U, V)", funcmap_attrs=["params(U)", "params(T)"], params=["T", "U"])
    m("only_try", "T: Tr0", "(h::One<T>, T)", derives=("TryFuncMap",))
    m("only_plain", "T: Tr0", "(h::One<T>, T)", derives=("FuncMap",))
    m("attr_bound", "#[cfg(all())] T: Tr0, #[allow(unused)] U", "(T, U)")
    m("copy_lt", "'a, T: 'a", "(T, ::std::marker::PhantomData<&'a u8>)")
    return M_


def with_specs(m, spec=True):
    """the module with the documented implementations of its definitions after them"""
    post = []
    for d in m.defs:
        for tr in d.derives:
            for p in d.mapped():
                post.append(spec_impl(d, p, tr))
    x = copy.copy(m)
    x.post = "\n".join(post)
    return x


def check():
    rep = Report("C11", "proof")
    mods, shared = K.corpus_mods("hand")
    mods = [m for m in mods if not m.known] + extra()
    g = C.RandomDefs(SEED + 77)
    mods += [g.mod(f"b{k}") for k in range(400 if tier() == "thorough" else 120)]
    sp = [with_specs(m) for m in mods]
    shared = with_specs(shared)
    meta, bad, err = MC.corpus_meta(sp, shared, "c11")
    total = failed = 0
    kinds, fails, undecided = {}, [], []
    res = {"mods": {m.name: m for m in mods}}
    plain_bad = {}
    if bad:
        # the definition itself, or what the documentation says of it?
        def go():
            with Lock("ct"):
                rc, o, e = B.cargo(["check"], os.path.join(BUILD, "c11_plain"), os.path.join(BUILD, "ct"))
            return rc, B.diagnostics(o), e

        sub = [m for m in mods if m.name in bad]
        _, plain_bad, _, _ = B.compile_all(sub, C.shared(), go, lambda ms: B.emit(os.path.join(BUILD, "c11_plain"), "c11_plain", ms, C.shared()))
        for m, msgs in bad.items():
            if m in plain_bad:
                rep.violation(f"{m}: does not compile: {K.first_line(plain_bad[m][0])}", {"definition": K.source_of(res, m), "compiler": plain_bad[m][:3]})
            else:
                undecided.append(f"{m}: the documented implementation does not compile: {K.first_line(msgs[0])}")
    if meta is None:
        undecided.append("the verifier could not run: " + err[-500:])
    else:
        for o in MC.obligations(meta, ("sound", "complete")):
            total += 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["fail"]:
                failed += 1
                fails.append(o)
    run = [m for m in mods if any(d.nvalues for d in m.defs)]
    r = K.run_corpus(run, C.shared(), "c11", dv=False, per=1)
    found = set()
    for m, msgs in r["badrun"].items():
        found.add(m)
        rep.violation(f"{m}: no usable implementation where the documented bounds hold: {K.first_line(msgs[0])}", {"definition": K.source_of(res, m), "compiler": msgs[:3], "failed_obligations": [o for o in fails if MC.derived_target(o) == m][:4]})
    K.harness_broken(rep, r)
    done = set()
    wit = {}
    due = {MC.derived_target(o) for o in fails} - found
    if due:
        wit = witnesses([m for m in mods if m.name in due][:12], C.shared())
    for o in fails:
        m = MC.derived_target(o)
        if m in found or (m, o["kind"]) in done:
            continue
        done.add((m, o["kind"]))
        if m in wit:
            found.add(m)
            w, prog, msg = wit[m]
            rep.violation(f"{m}: {w}", {"definition": K.source_of(res, m), "program": prog, "compiler": msg, "failed_obligations": [x for x in fails if MC.derived_target(x) == m][:4]})
            continue
        rep.violation(f"{o['subject']}: {o['what']}: {o['fail'][:300]}", {"obligation": o, "definition": K.source_of(res, m)}, False)
    rep.cov = {
        "obligations": total,
        "discharged": total - failed,
        "checker_cmd": f"python3 tools/check.py C11 --tier {tier()}  (dv's header obligations by {MC.SOLVER})",
        "trusted_base": ["rustc's trait solver", "rustc's macro expansion", "tools/bounds_checks.py: the documented bounds of a definition"],
        "by_kind": kinds,
        "derived_implementations": len(meta["impls"]) if meta else 0,
        "derived_definitions_bounded_to": len(mods),
        "not_decided_deductively": undecided,
        "evaluations": r["evaluations"],
    }
    rep.assumptions = MC.ASSUME[:1] + ["for the definitions of the corpus"]
    return rep
