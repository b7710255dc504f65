"""Emit the corpus as crates, compile them, run them."""
import json, os, random, re, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import *
from rust import *
from oracle import *
import defs as C

STD_ALLOW = "#![allow(unused, non_camel_case_types, non_upper_case_globals, non_snake_case)]\n"


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)


def def_text(d, values):
    ders = ["::funcmap::" + x for x in d.derives]
    d2 = Def.__new__(Def)
    d2.__dict__ = dict(d.__dict__)
    extra = ["Debug", "PartialEq"] if values and d.debug and d.nvalues else []
    d2.derives = extra + ders
    return d2.text()


def mod_text(m, values):
    return f"{m.imports}\n{m.pre}\n" + "\n".join(def_text(d, values) for d in m.defs) + "\n" + getattr(m, "post", "")


def tyargs(d, cls):
    """argument list for an instance of d; cls: class of the tokens per type parameter"""
    r = []
    for p in d.params:
        if p.kind == "lt":
            r.append("'static")
        elif p.kind == "type":
            r.append(f"::rt::Tok<{cls[p.name]}>")
        else:
            r.append("{ " + const_of(d, p) + " }")
    return "<" + ", ".join(r) + ">"


def const_of(d, p):
    return d.consts.get(p.name) or CONSTS[p.cty]


def cases(m, shared, seed, per=3):
    """Rust statements running the definitions of module m; also returns how many values there are"""
    w = World(m, shared.defs)
    out, n = [], 0
    for d in m.defs:
        if not d.nvalues or not d.debug:
            continue
        rng = random.Random(f"{seed}/{m.name}/{d.name}")
        tps = d.tparams()
        cls = {p.name: i for i, p in enumerate(tps)}
        for p in d.mapped():
            vals = []
            for vi in range(max(per, d.nvalues, len(d.variants))):
                for attempt in range(20):
                    g = Gen(w, rng, size=0 if vi == 1 and attempt == 0 else None)
                    env = {unraw(q.name): (lambda q=q: g.tok(cls[q.name])) for q in tps}
                    consts = {q.name: const_of(d, q) for q in d.params if q.kind == "const"}
                    consts.update({"r#" + k: v for k, v in consts.items()})
                    try:
                        args = [("ty", ty(q.name)) if q.kind == "type" else ("const", consts[q.name]) for q in d.params if q.kind != "lt"]
                        v = d_value(g, d, env, consts, vi % len(d.variants))
                        break
                    except No as e:
                        if str(e) != "too big":
                            v = None
                            break
                        v = None
                if v is not None:
                    vals.append(v)
            i, j, N = cls[p.name], cls[p.name] + 100, d.index(p)
            path = f"super::{m.name}::{d.name}"
            x = path + tyargs(d, cls)
            y = path + tyargs(d, {**cls, p.name: j})
            pth = lambda q: (f"super::{m.name}::" if q.name in w.local else "super::h::") + q.name
            for vi, v in enumerate(vals):
                log = []

                def g(l):
                    assert l[0] == "leaf", l
                    log.append(l[2])
                    return ("leaf", j, l[2] + 1000)

                out_v = ("def", d, v[2], [mapv(a, t, p.name, g, w) for a, (_, t, _) in zip(v[3], d.variants[v[2]][2])])
                tr = lambda t: f"<{x} as ::funcmap::{t}<::rt::Tok<{i}>, ::rt::Tok<{j}>, ::funcmap::TypeParam<{N}>>>"
                fm = f"Some(|x, f| if ::rt::over() {{ {tr('FuncMap')}::func_map_over::<::funcmap::TypeParam<{N}>, _>(x, |v| f(v)) }} else {{ {tr('FuncMap')}::func_map(x, |v| f(v)) }})" if "FuncMap" in d.derives else "None"
                tm = f"Some(|x, f| if ::rt::over() {{ {tr('TryFuncMap')}::try_func_map_over::<::funcmap::TypeParam<{N}>, _, _>(x, |v| f(v)) }} else {{ {tr('TryFuncMap')}::try_func_map(x, |v| f(v)) }})" if "TryFuncMap" in d.derives else "None"
                out.append(f'::rt::run::<{x}, {y}, {i}, {j}>(o, "{m.name}::{d.name}/{p.name}/{vi}", || {render(v, pth)}, &{log}, || {render(out_v, pth)}, {fm}, {tm});')
                n += 1
    return out, n


def law_cases(m, shared, seed, per, commute):
    """Rust statements checking the laws on values"""
    w = World(m, shared.defs)
    out, n = [], 0
    for d in m.defs:
        if not d.nvalues or not d.debug:
            continue
        rng = random.Random(f"{seed}/{m.name}/{d.name}/laws")
        tps = d.tparams()
        cls = {p.name: i for i, p in enumerate(tps)}
        path = f"super::{m.name}::{d.name}"
        pth = lambda q: (f"super::{m.name}::" if q.name in w.local else "super::h::") + q.name
        for vi in range(max(per, d.nvalues, len(d.variants))):
            v = None
            for attempt in range(20):
                g = Gen(w, rng, size=0 if vi == 1 and attempt == 0 else None)
                env = {unraw(q.name): (lambda q=q: g.tok(cls[q.name])) for q in tps}
                consts = {q.name: const_of(d, q) for q in d.params if q.kind == "const"}
                consts.update({"r#" + k: c for k, c in consts.items()})
                try:
                    v = d_value(g, d, env, consts, vi % len(d.variants))
                    break
                except No as e:
                    if str(e) != "too big":
                        break
            if v is None:
                continue

            def fn(t, p, c, c2):
                """mapping p from its class in c to its class in c2"""
                i, j, N = c[p.name], c2[p.name], d.index(p)
                tr = f"<{path}{tyargs(d, c)} as ::funcmap::{t}<::rt::Tok<{i}>, ::rt::Tok<{j}>, ::funcmap::TypeParam<{N}>>>"
                if t == "FuncMap":
                    return f"|x, f| {tr}::func_map(x, |v| f(v))"
                return f"|x, f| {tr}::try_func_map(x, |v| Ok::<_, ::rt::Er>(f(v))).unwrap()"

            ps = d.mapped()
            ts = [t for t in ("FuncMap", "TryFuncMap") if t in d.derives]
            if not commute:
                for p in ps:
                    c2 = {**cls, p.name: cls[p.name] + 100}

                    def maps(t):
                        if t not in ts:
                            return "None"
                        return f"Some(::rt::Maps {{ ii: {fn(t, p, cls, cls)}, ij: {fn(t, p, cls, c2)}, ji: {fn(t, p, c2, cls)} }})"

                    k = ", ".join([path + tyargs(d, cls), path + tyargs(d, c2), str(cls[p.name]), str(c2[p.name])])
                    out.append(f'::rt::laws::<{k}>(o, "{m.name}::{d.name}/{p.name}/{vi}", || {render(v, pth)}, {len(v[3])}, {maps("FuncMap")}, {maps("TryFuncMap")});')
                    n += 1
                continue
            for a, p in enumerate(ps):
                for q in ps[a + 1 :]:
                    cy = {**cls, p.name: cls[p.name] + 100}
                    cz = {**cls, q.name: cls[q.name] + 200}
                    cw = {**cy, q.name: cls[q.name] + 200}
                    for t in ts:
                        k = ", ".join([path + tyargs(d, c) for c in (cls, cy, cz, cw)] + [str(x) for x in (cls[p.name], cy[p.name], cls[q.name], cz[q.name])])
                        out.append(f'::rt::commute::<{k}>(o, "{m.name}::{d.name}/{p.name}+{q.name}/{t}/{vi}", || {render(v, pth)}, {fn(t, p, cls, cy)}, {fn(t, q, cy, cw)}, {fn(t, q, cls, cz)}, {fn(t, p, cz, cw)});')
                        n += 1
    return out, n


def d_value(g, d, env, consts, variant):
    n, shape, fs, _, _ = d.variants[variant]
    return ("def", d, variant, [g.gen(t, env, consts) for _, t, _ in fs])


def toml(name, edition="2021", extra=""):
    return f"""[package]
name = "{name}"
version = "0.0.0"
edition = "{edition}"

[workspace]

[dependencies]
funcmap = {{ path = "{REPO}/funcmap" }}
rt = {{ path = "{VERIF}/corpus/rt" }}
{extra}
"""


def emit(dir, name, mods, shared, values=False, seed=1, per=3, extra_deps="", head="", edition="2021", lib="funcmap", laws=None):
    """write the crate; with `values`, a binary that runs every definition"""
    src = os.path.join(dir, "src")
    os.makedirs(src, exist_ok=True)
    keep = set()
    files = {}
    al = [shared] + mods
    for m in al:
        files[f"{m.name}.rs"] = mod_text(m, values)
    root = STD_ALLOW + head + "".join(f"pub mod {m.name};\n" for m in al)
    n = 0
    if values:
        calls = []
        for m in al:
            st, k = cases(m, shared, seed, per) if laws is None else law_cases(m, shared, seed, per, laws == "commute")
            n += k
            if st:
                files[f"run_{m.name}.rs"] = "pub fn run(o: &mut ::rt::Out) {\n" + "\n".join(st) + "\n}\n"
                root += f"pub mod run_{m.name};\n"
                calls.append(f"run_{m.name}::run(o);")
        root += "fn all(o: &mut ::rt::Out) {\n" + "\n".join(calls) + "\n}\nfn main() { ::std::panic::set_hook(::std::boxed::Box::new(|_| {})); ::rt::main(all) }\n"
        files["main.rs"] = root
    else:
        files["lib.rs"] = root
    if lib != "funcmap":
        # the crate knows the library under another name only
        files = {f: re.sub(r"::funcmap\b", "::" + lib, s) for f, s in files.items()}
    for f in os.listdir(src):
        if f not in files:
            os.remove(os.path.join(src, f))
    for f, s in files.items():
        write(os.path.join(src, f), s)
    t = toml(name, edition, extra_deps)
    if lib != "funcmap":
        t = t.replace("funcmap = {", f'{lib} = {{ package = "funcmap",')
    write(os.path.join(dir, "Cargo.toml"), t)
    return n


def diagnostics(out):
    """compiler errors out of cargo's JSON messages: [(files, message)]"""
    r = []
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        j = json.loads(l)
        if j.get("reason") != "compiler-message":
            continue
        m = j["message"]
        if m["level"] not in ("error", "error: internal compiler error"):
            continue
        fs = []

        def walk(sp):
            fs.append(sp["file_name"])
            if sp.get("expansion"):
                walk(sp["expansion"]["span"])

        for sp in sorted(m["spans"], key=lambda s: not s["is_primary"]):
            walk(sp)
        if not m["spans"] and m["message"].startswith("aborting due to"):
            continue
        r.append((j.get("target", {}).get("name", ""), fs, m.get("rendered") or m["message"], m))
    return r


def cargo(args, dir, target, flags="", toolchain="+stable", env=None, timeout=700):
    e = {"CARGO_TARGET_DIR": target, "RUSTFLAGS": flags, "RUSTC_WRAPPER": os.path.join(VERIF, "tools", "cap.sh")}
    e.update(env or {})
    return sh(["cargo", toolchain] + args + ["--offline", "--message-format=json"], env=e, cwd=dir, timeout=timeout)


def owner(files, mods):
    for f in files:
        b = os.path.basename(f)
        b = b[:-3] if b.endswith(".rs") else b
        if b in mods:
            return b, False
        if b.startswith("run_") and b[4:] in mods:
            return b[4:], True
    return None, False


def compile_all(mods, shared, go, do_emit, rounds=6):
    """compile, taking out the modules that fail. `go` compiles and returns (rc, diagnostics, stderr);
    returns (modules left, {module: messages}, {module: messages of its run only}, error)"""
    left = list(mods)
    bad, badrun = {}, {}
    for _ in range(rounds):
        do_emit(left)
        rc, ds, err = go()
        if rc == 0:
            return left, bad, badrun, ""
        names = {m.name for m in left} | {shared.name}
        hit = False
        for _, fs, msg, _ in ds:
            o, run = owner(fs, names)
            if o is None:
                continue
            hit = True
            (badrun if run else bad).setdefault(o, []).append(msg)
        if not hit:
            return [], bad, badrun, (ds[0][2] if ds else err[-3000:])
        if shared.name in bad:
            return [], bad, badrun, "the shared definitions do not compile"
        left = [m for m in left if m.name not in bad and m.name not in badrun]
    return left, bad, badrun, "modules keep failing"


def corpus(seed=1, random_n=60, names=True):
    mods = C.hand() + C.sizes()
    if names:
        mods += C.names()
    g = C.RandomDefs(seed)
    for k in range(random_n):
        mods.append(g.mod(f"g{k}"))
    return mods, C.shared()


if __name__ == "__main__":
    mods, shared = corpus(random_n=int(sys.argv[1]) if len(sys.argv) > 1 else 60)
    d = os.path.join(BUILD, "corpus_run")
    tgt = os.path.join(BUILD, "ct")

    def go():
        rc, o, e = cargo(["build"], d, tgt)
        return rc, diagnostics(o), e

    import time

    t0 = time.time()
    left, bad, badrun, err = compile_all(mods, shared, go, lambda ms: emit(d, "corpus_run", ms, shared, values=True))
    print(len(mods), len(left), time.time() - t0)
    for k, v in list(bad.items()) + list(badrun.items()):
        print("==", k, v[0][:1500])
    print(err[:2000])
    rc, o, e = sh([os.path.join(tgt, "debug", "corpus_run")])
    print(rc, o[:3000], e[:500])
