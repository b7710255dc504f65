"""C13, C14 and the rejections of C15: definitions the macros must reject. A definition is written together with the
places where errors are due; compiled, the errors must be exactly there, and nothing may be generated."""
import os, random, re
from vlib import *
import probe

# ------------------------------------------------------------------ types


class N:
    """a type: text with places; `errs(p)` is the place of the error due when mapping over p, or None"""

    def __init__(self, kind, parts, children=(), names=()):
        self.kind, self.parts, self.children, self.names = kind, parts, list(children), set(names)
        for c in self.children:
            self.names |= c.names

    def text(self):
        s = self.parts[0]
        for c, p in zip(self.children, self.parts[1:]):
            s += c.text() + p
        return f"\x01{id(self)}\x02{s}\x03"

    def err(self, p):
        if self.kind == "macro":
            return self
        if p not in self.names:
            return None
        if self.kind == "leaf":
            return None
        if self.kind == "bad":
            return self
        for c in self.children:
            if self.kind == "path" and p not in c.names:
                continue
            e = c.err(p)
            if e is not None:
                return e
        return None


def leaf(t, *names):
    return N("leaf", [t], (), names)


def indep(t):
    return N("leaf", [t])


def sup(fmt, *cs, kind="path"):
    return N(kind, fmt.split("@"), cs)


def bad(fmt, *cs, names=()):
    return N("bad", fmt.split("@"), cs, names)


def macro(fmt, *cs):
    n = N("macro", fmt.split("@"), cs)
    n.names = set()  # the macro does not look inside
    return n


SUPPORTED = [
    lambda c, o: sup("Option<@>", c),
    lambda c, o: sup("::std::vec::Vec<@>", c),
    lambda c, o: sup("Box<@>", c),
    lambda c, o: sup("(@, @)", o, c, kind="tuple"),
    lambda c, o: sup("(@, @)", c, o, kind="tuple"),
    lambda c, o: sup("(@,)", c, kind="tuple"),
    lambda c, o: sup("[@; 2]", c, kind="array"),
    lambda c, o: sup("(@)", c, kind="paren"),
    lambda c, o: sup("Result<@, @>", o, c),
    lambda c, o: sup("Result<@, @>", c, o),
    lambda c, o: sup("h::Cst<3, @>", c),
    lambda c, o: sup("self::h::Lf<'static, @>", c),
    lambda c, o: sup("h::Mid<@, 2, @>", o, c),
    lambda c, o: sup("<u8 as h::Gat>::Out<@>", c),
    lambda c, o: sup("std::collections::BTreeMap<u8, @>", c),
]
# no name is special to the macro
NAMES = "PhantomData std::marker::PhantomData ::core::marker::PhantomData Rc std::sync::Arc Cell std::cell::RefCell UnsafeCell Mutex std::mem::ManuallyDrop MaybeUninit Wrapping std::cmp::Reverse Poll ::std::task::Poll Bound std::ops::Range RangeInclusive VecDeque LinkedList BinaryHeap HashSet BTreeSet std::rc::Weak Cow Pin Lazy OnceCell NonNull Ref Foo A::B Iterator Fn Copy T2 Self_ h::Wrap".split()
NAMES2 = "HashMap std::collections::HashMap BTreeMap ControlFlow std::ops::ControlFlow Either Pair Zip FnMut".split()
WRAPPERS = [lambda c, o, n=n: sup(n + "<@>", c) for n in NAMES] + [f for n in NAMES2 for f in (lambda c, o, n=n: sup(n + "<@, @>", c, o), lambda c, o, n=n: sup(n + "<@, @>", o, c))]

UNSUPPORTED = [
    lambda c: bad("&'a @", c),
    lambda c: bad("&'a mut @", c),
    lambda c: bad("&'a [@]", c),
    lambda c: bad("*const @", c),
    lambda c: bad("*mut @", c),
    lambda c: bad("fn(@)", c),
    lambda c: bad("fn() -> @", c),
    lambda c: bad('unsafe extern "C" fn(u8, @) -> u8', c),
    lambda c: bad("for<'x> fn(&'x @)", c),
    lambda c: sup("Box<@>", bad("dyn h::Tr<@>", c)),
    lambda c: sup("Box<@>", bad("dyn h::As<Out = @>", c)),
    lambda c: sup("Box<@>", bad("dyn Fn(@) -> u8", c)),
    lambda c: sup("Box<@>", bad("dyn FnMut() -> @ + Send", c)),
    lambda c: sup("Box<@>", bad("(dyn FnOnce(&@) + 'static)", c)) if False else sup("Box<@>", bad("dyn for<'x> Fn(&'x @)", c)),
    lambda c: sup("Box<@>", bad("[@]", c)),
    lambda c: sup("::std::rc::Rc<@>", bad("&'static mut @", c)),
    lambda c: bad("<@ as h::As>::Out", c),
    lambda c: bad("<u8 as h::AsG<@>>::Out", c),
    lambda c: bad("<u8 as h::AsG<@>>::Out<u8>", c) if False else bad("<Vec<@> as IntoIterator>::Item", c),
    lambda c: bad("<@ as h::Gat>::Out<u8>", c),
    lambda c: bad("<(@, u8) as h::As>::Out", c),
]

HELPERS = """pub mod h {
 pub struct Cst<const N: usize, T>(pub [T; N]); pub struct Lf<'a, T>(pub &'a str, pub T); pub struct Mid<T, const N: usize, U>(pub T, pub [U; N]);
 pub trait Tr<X> {} pub trait As { type Out; } pub trait AsG<X> { type Out; } pub trait Gat { type Out<X>; }
 impl<T: ?Sized, X> Tr<X> for T {} impl<T> As for T { type Out = u8; } impl<T, X> AsG<X> for T { type Out = u8; } impl<T> Gat for T { type Out<X> = Vec<X>; }
 #[macro_export] macro_rules! ident_ty { ($t:ty) => { $t } } #[macro_export] macro_rules! unit_ty { () => { u8 } }
}
"""


class Types:
    def __init__(self, rng, params):
        self.r, self.ps = rng, params

    def wrap(self):
        return self.r.choice(WRAPPERS if self.r.random() < 0.3 else SUPPORTED)

    def ok(self, p, d=2):
        """a type that mentions p and is supported"""
        if d == 0 or self.r.random() < 0.35:
            return leaf(p, p)
        return self.wrap()(self.ok(p, d - 1), self.other(d - 1))

    def other(self, d=1):
        r = self.r
        if r.random() < 0.6:
            return indep(r.choice(["u8", "String", "()", "&'static str", "fn(u8) -> u8", "*const u8", "Box<dyn Fn(u8)>", "[u8; 2]"]))
        return self.ok(r.choice(self.ps), d) if d > 0 else leaf(*[r.choice(self.ps)] * 2)

    def any(self, p, d=2):
        """any type at all that mentions p"""
        if d == 0 or self.r.random() < 0.4:
            return leaf(p, p)
        c = self.any(p, d - 1)
        return self.wrap()(c, indep("u8")) if self.r.random() < 0.45 else self.r.choice(UNSUPPORTED)(c)

    def bad(self, p, d=2):
        """a type with an unsupported occurrence of p"""
        r = self.r
        if r.random() < 0.06:
            n = r.choice([lambda: macro("crate::ident_ty!(@)", self.any(p, 1)), lambda: macro("crate::unit_ty!()"), lambda: bad(f"{p}::Out", names=(p,))])()
            if n.kind == "macro":
                return n if r.random() < 0.5 else sup("(@, @)", leaf(p, p), n, kind="tuple")
        else:
            n = r.choice(UNSUPPORTED)(self.any(p, r.choice([0, 0, 1, 2])))
        for _ in range(r.choice([0, 0, 0, 1, 2, d])):
            n = self.wrap()(n, self.other(1))
        return n


# ------------------------------------------------------------------ definitions


class Case:
    """a definition on one line and the places of the errors due, in order; a place marked `within` only says that the
    error lies inside"""

    def __init__(self, text, due, why="", more=()):
        self.why = why
        self.line, self.pos = strip(text)
        self.more = {self.pos[n if isinstance(n, str) else str(id(n))] for n in more}  # may be reported as well
        seen = []
        self.due = []
        for d in due:
            n, within = d if isinstance(d, tuple) else (d, False)
            k = n if isinstance(n, str) else str(id(n))
            if k in seen:
                continue  # rustc prints identical diagnostics once
            seen.append(k)
            self.due.append(self.pos[k] + (within,))


def strip(t):
    out, pos, stack = "", {}, []
    i = 0
    while i < len(t):
        c = t[i]
        if c == "\x01":
            j = t.index("\x02", i)
            stack.append((t[i + 1 : j], len(out)))
            i = j
        elif c == "\x03":
            k, s = stack.pop()
            pos[k] = (s, len(out))
        else:
            out += c
        i += 1
    return out, pos


def mark(k, t):
    return f"\x01{k}\x02{t}\x03"


DERIVES = ["#[derive(::funcmap::FuncMap)]", "#[derive(::funcmap::TryFuncMap)]", "#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)]"]


def generics(params, extra=("'a",), consts=()):
    return ", ".join(list(extra) + [f"{p}: 'a + h::As<Out = u8>" if False else p for p in params] + [f"const {c}: usize" for c in consts])


def body(rng, kind, fields):
    """fields: list of (attributes, type text); returns text"""
    if kind == "tuple":
        return "(" + ", ".join(f"{a}pub {t}" if rng.random() < 0.3 else a + t for a, t in fields) + ")"
    return "{" + ", ".join(f"{a}{n}: {t}" for n, (a, t) in zip("abcdefghijkl", fields)) + "}"


def single(n, seed):
    """C13: one unsupported occurrence each, among supported fields"""
    r = random.Random(f"{seed}/single")
    out = []

    def one(bad_t, p, ps, mapped, opt):
        T = Types(r, ps)
        nf = r.choice([1, 1, 2, 3, 4])
        at = r.randrange(nf)
        good = [T.ok(r.choice(ps), 1) if r.random() < 0.6 else indep(r.choice(["u8", "String"])) for _ in range(nf)]
        fs = good[:at] + [bad_t] + good[at + 1 :]
        due = [f.err(q) for q in mapped for f in fs]
        due = [d for d in due if d is not None]
        g = "<" + ", ".join(["'a"] + [q + ": 'a" for q in ps]) + ">"
        d = r.choice(DERIVES) + opt
        shape = r.choice(["tuple", "named", "etuple", "enamed"])
        b = body(r, "tuple" if "tuple" in shape else "named", [("", f.text()) for f in fs])
        if shape[0] == "e":
            b = re.sub(r"pub ", "", b)
            v = ["V1", "V2(u8)", f"V3({ps[0]})", "V4{x: u8}"]
            k = r.randrange(4)
            v.insert(k, "Bad" + b)
            t = f"{d} pub enum S{g} {{ {', '.join(v)} }}"
        else:
            t = f"{d} pub struct S{g} {b}" + (";" if shape == "tuple" else "")
        out.append(Case(t, due))

    for k in UNSUPPORTED:
        # each on its own, at the top, and inside each supported constructor
        one(k(leaf("T", "T")), "T", ["T"], ["T"], "")
        for s in SUPPORTED + WRAPPERS:
            one(s(k(leaf("T", "T")), indep("u8")), "T", ["T"], ["T"], "")
        for s in UNSUPPORTED + [lambda c: sup("Vec<@>", c)]:
            one(k(s(leaf("T", "T"))), "T", ["T"], ["T"], "")
        one(k(leaf("T", "T")), "T", ["T", "U"], ["U"], " #[funcmap(params(U))]")
    for p in ("T", "r#T"):
        one(macro("crate::unit_ty!()"), p, [p], [p], "")
        one(macro("crate::ident_ty!(@)", leaf(p, p)), p, [p], [p], "")
        one(sup("(@, @)", leaf(p, p), macro("crate::unit_ty!()"), kind="tuple"), p, [p], [p], "")
        one(sup("[@; 2]", sup("(@, @)", macro("crate::ident_ty!(@)", leaf(p, p)), leaf(p, p), kind="tuple"), kind="array"), p, [p], [p], "")
        one(bad(f"{p}::Out", names=(p,)), p, [p], [p], "")
    for _ in range(n):
        ps = r.choice([["T"], ["T", "U"], ["T", "U", "V"], ["r#type", "U"]])
        p = r.choice(ps)
        mapped, opt = ps, ""
        if len(ps) > 1 and r.random() < 0.5:
            mapped = [q for q in ps if r.random() < 0.5] or [p]
            opt = f" #[funcmap(params({', '.join(mapped)}))]"
        one(Types(r, ps).bad(p), p, ps, mapped, opt)
    for k in range(4):
        g = ["<T: Copy>", "<'a, T: Copy, U: Copy>", "<T: Copy, const N: usize>", "<T>"][k]
        f = ["{ a: T }", "{ a: T, b: U, c: &'a u8 }", "{ a: [T; N] }", "{ a: ::std::mem::ManuallyDrop<T> }"][k]
        for d in DERIVES:
            out.append(Case(f"{d} pub {mark('u', 'union')} S{g} {f}", ["u"]))
    return out


BAD_ATTR = [
    "#[funcmap]",
    "#[funcmap()]",
    "#[funcmap(foo)]",
    "#[funcmap(foo, params(T))]",
    "#[funcmap(params(T), foo)]",
    "#[funcmap(params)]",
    "#[funcmap(params())]",
    "#[funcmap(params(1))]",
    "#[funcmap(params(T U))]",
    "#[funcmap(params(T,,U))]",
    "#[funcmap(params = T)]",
    '#[funcmap(params("T"))]',
    "#[funcmap(params(T) params(U))]",
    "#[funcmap(crate)]",
    '#[funcmap(crate = "a b")]',
    '#[funcmap(crate = "1")]',
    "#[funcmap(crate = funcmap)]",
    "#[funcmap(crate = 1)]",
    '#[funcmap(crate("funcmap"))]',
    '#[funcmap = "params"]',
    "#[funcmap(T)]",
    "#[funcmap(parms(T))]",
    "#[funcmap(params(&T))]",
    "#[funcmap(params(T::U))]",
    "#[funcmap(,)]",
    "#[funcmap[foo]]",
]


def good_attr(r, names, d=False):
    xs = [f"params({', '.join(names)}{r.choice(['', ','])})"]
    if d:
        xs.insert(r.randrange(2), 'crate = "::funcmap"')
    return f"#[funcmap({', '.join(xs)}{r.choice(['', ','])})]"


class Multi:
    """C14, C15: any number of mistakes. Mistakes in the options hide those found after them: first the options
    themselves are read, then what they name, where they stand and what is derived for, then the types of the fields"""

    def __init__(self, seed):
        self.r = random.Random(f"{seed}/multi")

    def case(self, stage=None, nerr=None, opts_only=False):
        r = self.r
        stage = stage if stage is not None else r.choice([0, 1, 1, 2, 2, 3, 3, 3])
        lts = ["'a"] + (["'b"] if r.random() < 0.3 else [])
        ps = r.choice([["T"], ["T", "U"], ["T", "U", "V"], ["T", "r#dyn"]])
        cs = ["N"] if r.random() < 0.3 else []
        if stage == 2 and r.random() < 0.12:
            ps = []
        pos = 0
        attrs, due = [], []
        named = []
        n_attr = r.choice([0, 1, 1, 2, 3]) if stage in (1, 2) else r.choice([0, 0, 1, 2])
        if stage == 1:
            n_attr = max(n_attr, 1)
        have_crate = False
        uid = 0
        spelled = []  # names given so far, without r#
        second = []
        for k in range(n_attr):
            if stage == 1 and r.random() < 0.5:
                a = r.choice(BAD_ATTR)
                uid += 1
                attrs.append(mark(f"at{uid}", a))
                due.append((f"at{uid}", True))
                continue
            xs = []
            for _ in range(r.choice([1, 1, 2])):
                if r.random() < 0.2:
                    if not have_crate:
                        xs.append('crate = "::funcmap"')
                        have_crate = True
                    elif stage == 1:
                        uid += 1
                        xs.append(f'crate = {mark(f"c{uid}", chr(34) + "::funcmap" + chr(34))}')
                        due.append((f"c{uid}", True))
                    continue
                ns = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    pool = list(ps)
                    if stage == 2:
                        pool += lts + cs + ["Nope", "'z", "S", "u8", "self_", "r#fn"]
                    if stage == 1 and spelled and r.random() < 0.4:
                        pool = [r.choice(spelled)]
                    if not pool:
                        continue
                    n = r.choice(pool)
                    bare = n[2:] if n.startswith("r#") else n
                    if bare in [s[2:] if s.startswith("r#") else s for s in spelled]:
                        if stage != 1:
                            continue
                        m = n
                        if bare not in ("dyn", "fn", "type") and not bare.startswith("'") and r.random() < 0.3:
                            m = "r#" + bare
                        uid += 1
                        ns.append(mark(f"p{uid}", m))
                        due.append(f"p{uid}")
                        continue
                    spelled.append(n)
                    uid += 1
                    if n in ps:
                        m = n
                        if not n.startswith("r#") and r.random() < 0.15:
                            m = "r#" + n
                        ns.append(m)
                        named.append(n)
                    else:
                        ns.append(mark(f"p{uid}", n))
                        second.append(f"p{uid}")
                if ns:
                    xs.append(f"params({', '.join(ns)}{r.choice(['', '', ','])})")
            if xs:
                attrs.append(f"#[funcmap({', '.join(xs)}{r.choice(['', '', ','])})]")
        if stage == 1:
            # mistakes of the other stages may be there as well: they are not seen yet
            return self.finish(lts, ps, cs, attrs, due, [], mapped=named or ps, stage=1, noise=bool(due) and r.random() < 0.4)
        mapped = [p for p in ps if p in named] if named else ps
        return self.finish(lts, ps, cs, attrs, due, second, mapped, stage, noise=False)

    def finish(self, lts, ps, cs, attrs, due, second, mapped, stage, noise):
        r = self.r
        T = Types(r, ps or ["u8"])
        place = []
        kind = r.choice(["struct", "enum"])
        g = ", ".join(lts + [p + ": 'a" for p in ps] + [f"const {c}: usize" for c in cs])
        gtext = f"<{g}>"
        if stage == 2:
            due = due + second
            if not mapped:
                if r.random() < 0.3:
                    lts, cs, gtext = [], [], ""
                    due = [d for d in due]
                gtext = mark("gen", gtext) if gtext else ""
                due.append("gen")
        nf = 0

        def other():
            return r.choice(["", "", "", "#[allow(unused)] ", '#[doc = "x"] ', "#[cfg(all())] ", "#[deny(warnings)] #[allow(unused)] "])

        def field():
            nonlocal nf
            nf += 1
            a = ""
            if (stage == 2 or noise) and r.random() < 0.3:
                for _ in range(r.choice([1, 1, 2, 3])):
                    a += other()
                    k = f"f{nf}_{len(a)}"
                    a += mark(k, r.choice(["#[funcmap(params(T))]", "#[funcmap]", '#[funcmap(crate = "x")]'])) + " "
                    place.append(k)
            if r.random() < 0.15:
                a += "#[allow(unused)] "
            if ps and (stage in (3,) or (stage == 2 and False) or noise) and r.random() < 0.5:
                t = T.bad(r.choice(ps))
            elif ps:
                t = T.ok(r.choice(ps), 1) if r.random() < 0.7 else indep("u8")
            else:
                t = indep(r.choice(["u8", "&'static str"]))
            return a, t

        types = []

        def fields(lo):
            fs = [field() for _ in range(r.choice([1, 2, 3, 4]) if lo else r.choice([0, 1, 2, 3]))]
            types.extend(t for _, t in fs)
            return fs

        if kind == "struct":
            sh = r.choice(["tuple", "named"])
            b = body(r, sh, [(a, t.text()) for a, t in fields(1)])
            b += ";" if sh == "tuple" else ""
            name = "S"
        else:
            vs = []
            for k in range(r.choice([1, 2, 3, 4])):
                a = ""
                if (stage == 2 or noise) and r.random() < 0.3:
                    for j in range(r.choice([1, 1, 2, 3])):
                        a += other() + mark(f"v{k}_{j}", r.choice(["#[funcmap(params(T))]", "#[funcmap]"])) + " "
                        place.append(f"v{k}_{j}")
                if r.random() < 0.15:
                    a += '#[doc = "y"] '
                sh = r.choice(["tuple", "named", "unit"])
                if sh == "unit":
                    vs.append(f"{a}V{k}")
                else:
                    vs.append(f"{a}V{k}" + re.sub(r"pub ", "", body(r, sh, [(x, t.text()) for x, t in fields(0)])))
            b = "{ " + ", ".join(vs) + " }"
            name = "S"
        if stage == 2:
            due = due + place
            if "gen" in due and not gtext:
                name = mark("gen", "S")
        if stage in (3, 0):
            due = due + [t.err(p) for p in mapped for t in types if t.err(p) is not None]
        at = " ".join(attrs)
        if at and r.random() < 0.2:
            at += " #[allow(unused)]"
        d = r.choice(DERIVES)
        more = place + [t.err(p) for p in mapped for t in types if t.err(p) is not None] if stage == 1 else ()
        return Case(f"{d} {at} pub {kind} {name}{gtext} {b}", due, f"stage {stage}", more)


def multi(n, seed):
    m = Multi(seed)
    return [m.case() for _ in range(n)]


# ------------------------------------------------------------------ running


def run(cases, edition="2021", lib=None, nightly=None):
    """[(case, what is wrong)]"""
    lib = lib or probe.Lib("default")
    if not lib.ok:
        return None, lib.err
    head = "#![allow(unused)]\n#![recursion_limit = \"512\"]\n" + HELPERS
    n0 = head.count("\n")
    pre = lambda i: f"pub mod d{i} {{ use crate::h; "
    src = head + "".join(pre(i) + c.line + " }\n" for i, c in enumerate(cases))
    rc, ds, _ = lib.rustc(src, edition=edition)
    got = {}
    stray = []
    for lv, code, msg, sp in ds:
        if len(sp) < 1:
            stray.append(msg)
            continue
        ln, col, tx = sp[0]
        got.setdefault(ln - n0 - 1, []).append((col - 1, col - 1 + len(tx), code, msg))
    wrong = []
    for i, c in enumerate(cases):
        off = len(pre(i))
        g = [(a - off, b - off, code, msg) for a, b, code, msg in got.pop(i, [])]
        w = None
        # what the compiler has to say about the definition itself (unused parameters and the like) has a code
        g = g_macro = [x for x in g if x[2] is None]
        for k, (a, b, within) in enumerate(c.due):
            if k >= len(g_macro):
                w = f"error {k + 1} of {len(c.due)} is missing: at `{c.line[a:b]}`"
                break
            x = g_macro[k]
            ok = (a <= x[0] and x[1] <= b) if within else (x[0], x[1]) == (a, b)
            if not ok:
                w = f"error {k + 1} of {len(c.due)} is due at `{c.line[a:b]}` and reported at `{c.line[max(x[0], 0):x[1]]}` ({x[3]})"
                break
        xs = [x for x in g[len(c.due) :] if (x[0], x[1]) not in c.more]
        if w is None and xs:
            x = xs[0]
            w = f"{'an error' if not c.due else 'an additional error'} is reported at `{c.line[max(x[0], 0):x[1]]}` ({x[3]})"
        if w:
            wrong.append((c, w, [x[3] for x in g]))
    if got:
        stray += [m for v in got.values() for _, _, _, m in v]
    # nothing generated?
    if nightly is not False:
        nl = nightly or probe.Lib("default", "+nightly")
        if nl.ok:
            rc, ds, o = nl.rustc(src, edition=edition, extra=["-Zunpretty=expanded"])
            mods = re.split(r"^pub mod d(\d+) \{$", o, flags=re.M)
            seen = {int(mods[k]): mods[k + 1] for k in range(1, len(mods) - 1, 2)}
            bad_ = {id(c) for c, _, _ in wrong}
            for i, c in enumerate(cases):
                if id(c) in bad_:
                    continue
                t = seen.get(i)
                if t is None:
                    stray.append(f"module d{i} is not in the expansion")
                    break
                n = len(re.findall(r"^\s*impl\b", t, re.M))
                if c.due and n:
                    wrong.append((c, "an implementation is generated in spite of the error", t[:2000]))
                if not c.due and not n:
                    wrong.append((c, "nothing is generated", t[:500]))
        else:
            stray.append("nightly: " + nl.err[:300])
    return wrong, stray


# ------------------------------------------------------------------ occurrences the macro cannot see

HIDDEN = [
    # the parameter arrives through Self, a macro or a definition elsewhere: whatever is generated must not compile
    "{D} pub struct S<T>(T, ::core::marker::PhantomData<Self>);",
    "{D} pub struct S<T>(T, Option<Box<Self>>);",
    "{D} pub struct S<T> { t: T, f: fn(&Self) -> u8 }",
    "{D} pub enum S<T> { A(T), B(Box<Self>) }",
    "{D} pub struct S<T>(Vec<crate::ident_ty!(T)>);",
    "{D} pub struct S<T>(T, [crate::ident_ty!(T); 2]);",
    "{D} pub struct S<T>(Result<u8, crate::ident_ty!(T)>, T);",
    "{D} pub struct S<T>(Result<T, crate::ident_ty!(T)>, T);",
    "{D} pub struct S<T>(Result<crate::ident_ty!(Vec<T>), T>, T);",
    "{D} pub struct S<T>(h::Mid<T, 2, crate::ident_ty!(Option<T>)>);",
    "{D} pub struct S<T>(&'static crate::ident_ty!(::core::marker::PhantomData<T>), T) where T: 'static;",
    "macro_rules! tt {{ () => {{ T }} }} {D} pub struct S<T>(T, Vec<tt!()>);",
    "macro_rules! tt {{ () => {{ T }} }} {D} pub struct S<T>(Option<tt!()>, Result<u8, T>);",
    "{D} pub struct S<T: h::As>(T, <T as h::As>::Out);",
    "{D} pub struct S<T>(T, <Self as h::As>::Out2) where Self: h::As2;" if False else "{D} pub struct S<T>(T, ::core::marker::PhantomData<fn(Self)>);",
    "{D} pub struct S<T>(T, Option<Box<(u8, Self)>>);",
    "{D} pub struct S<T>(T, Vec<S<T>>);" if False else "{D} pub struct S<T>(T, ::core::marker::PhantomData<Box<dyn Fn(Self)>>);",
]

# the same positions without the mapped parameter: accepted
NEAR = [
    ("'a, T, U: 'a", "(T, &'a U, &'a mut U, &'a [U], *const U, *mut U)", "T"),
    ("T, U", "(T, fn(U), fn() -> U, unsafe extern \"C\" fn(u8, U) -> u8, for<'x> fn(&'x U))", "T"),
    ("T, U: 'static", "{a: Box<dyn h::Tr<U>>, b: Box<dyn Fn(U) -> u8>, c: T, d: Box<[U]>}", "T"),
    ("T, U", "(<U as h::As>::Out, <u8 as h::AsG<U>>::Out, <Vec<U> as IntoIterator>::Item, T)", "T"),
    ("T, U: h::As", "(U::Out, T, Vec<T>)", "T"),
    ("T, U", "(Vec<crate::unit_ty!()>, T, U)", "T, U"),
    ("T, U", "([crate::unit_ty!(); 3], T, Result<T, crate::unit_ty!()>, U)", "T, U"),
    ("T", "(&'static str, *const u8, fn(u8), Box<dyn Fn(u8)>, Box<[u8]>, T)", "T"),
    ("T", "(self::h::T, h::Wrap<self::h::T>, T)", "T"),
    ("T", "(crate::h::T, fn(crate::h::T), T)", "T"),
    ("'T, T", "(&'T str, &'T [u8], fn(&'T u8), T)", "T"),
    ("T, U: 'static", "{a: (T, (Option<&'static U>, u8), [T; 2])}", "T"),
]


def hidden_programs():
    out = []
    for k, h in enumerate(HIDDEN):
        for d in DERIVES:
            out.append((f"hidden {k} {d}", h.replace("{D}", "\n" + d).replace("{{", "{").replace("}}", "}"), False))
    for k, t in enumerate(BARE):
        for d in DERIVES:
            out.append((f"bare {k} {d}", f"{d} pub struct S<T>(u8, {t});", False))
            out.append((f"bare {k} {d} enum", f"{d} pub enum S<T> {{ A(T), B{{ x: {t} }} }}", False))
    for k, (g, b, m) in enumerate(NEAR):
        for d in DERIVES:
            out.append((f"near {k} {d}", f"{d} #[funcmap(params({m}))] pub struct S<{g}>{b}" + (";" if b[0] == "(" else ""), True))
            out.append((f"near {k} {d} enum", f"{d} #[funcmap(params({m}))] pub enum S<{g}>{{ A, B{b}, C }}", True))
    return out


def programs(lib):
    ps = hidden_programs()
    H = HELPERS.replace("pub trait Tr<X>", "pub struct T; pub struct Wrap<X>(pub X); pub trait Tr<X>")
    res = lib.many([{"src": "#![allow(unused)]\n" + H + "pub mod d { use crate::h; " + t + " }\n", "names": ("funcmap",), "edition": "2018" if n.startswith("bare") else "2021"} for n, t, _ in ps])
    bad_ = []
    for (n, t, ok), (rc, ds, _) in zip(ps, res):
        if (rc == 0) != ok:
            bad_.append((n, t, ok, ds[0][2] if ds else "compiles"))
        elif not ok and not ds:
            bad_.append((n, t, ok, "no diagnostic"))
    return len(ps), bad_


# parenthesised arguments in a type path (trait objects without dyn, in the old editions): rejected somehow
BARE = ["Box<Fn(T) -> u8>", "Vec<Box<FnMut(u8) -> T>>", "(u8, Box<FnOnce(Option<T>)>)"]


def explore(prop, sets, what):
    rep = Report(prop, "exploration")
    lib = probe.Lib("default")
    if not lib.ok:
        rep.violation("the library does not build: " + " ".join(lib.err.split("\n")[:4])[:300], {"compiler": lib.err})
        return rep, None
    n = due = 0
    samples = []
    distinct = set()
    for cases, ed in sets:
        # programs of bounded size
        for k in range(0, len(cases), 1500):
            part = cases[k : k + 1500]
            wrong, stray = run(part, ed, lib)
            n += len(part)
            due += sum(len(c.due) for c in part)
            distinct |= {c.line for c in part if len(c.due) > (1 if prop == "C14" else 0)}
            samples += [c.line for c in part[:: max(1, len(part) // 4)]]
            for c, w, ms in wrong[:6]:
                rep.violation(f"{c.line[:250]}: {w}", {"definition": c.line, "edition": ed, "due": [c.line[a:b] for a, b, _ in c.due], "reported": ms})
            if stray and not wrong:
                rep.violation(f"unexpected diagnostics: {stray[0][:300]}", {"diagnostics": stray[:10]})
    rep.cov = {
        "evaluations": n,
        "errors_due": due,
        "distinct_nontrivial": len(distinct),
        "rule": what,
        "samples": samples[:8],
    }
    rep.assumptions = ["bounded: the definitions generated from the seed stand for all", "rustc's reporting of the errors a macro gives (identical diagnostics are printed once)"]
    return rep, lib


def check(prop):
    th = tier() == "thorough"
    if prop == "C13":
        s = single(20000 if th else 1500, SEED)
        rep, lib = explore(prop, [(s, "2021")], "every unsupported position alone, inside every supported constructor and around every other, as a field of structs and enums, and random nestings; a definition is non-trivial when an error is due")
        if lib:
            n, bad_ = programs(lib)
            rep.cov["evaluations"] += n
            rep.cov["distinct_nontrivial"] += n
            for nm, t, ok, msg in bad_[:6]:
                rep.violation(f"{t[:250]}: {'is rejected: ' + msg[:200] if ok else 'compiles, with an occurrence of the parameter the macro does not see'}", {"definition": t, "compiler": msg})
        return rep
    if prop == "C14":
        m = multi(20000 if th else 2500, SEED)
        rep, _ = explore(prop, [(m, "2021")], "definitions with any number of mistakes of each kind, and with none; non-trivial with two or more errors due")
        import linear_checks

        linear_checks.judge(rep)
        return rep
    raise Broken(prop)


if __name__ == "__main__":
    import sys

    for name, cs in (("single", single(int(sys.argv[1]), 1)), ("multi", multi(int(sys.argv[1]), 1))):
        print(name, len(cs), sum(len(c.due) for c in cs))
        w, stray = run(cs)
        print(len(w), stray[:5])
        for c, t, ms in w[:8]:
            print("  ", c.line, c.why, "\n      ", t, "\n      ", ms)
