"""Values of the types of the corpus, and what the documentation says mapping them gives."""
from rust import *

# library types: name -> list of shapes, a shape being (expr template, [argument number of each part] or ('rep', argument number))
SEQ = {"Vec": "::std::vec::Vec::from([{}])", "VecDeque": "::std::collections::VecDeque::from([{}])", "LinkedList": "::std::collections::LinkedList::from([{}])"}
SUM = {
    "Option": [("::core::option::Option::None", []), ("::core::option::Option::Some({0})", [0])],
    "Result": [("::core::result::Result::Ok({0})", [0]), ("::core::result::Result::Err({0})", [1])],
    "ControlFlow": [("::core::ops::ControlFlow::Break({0})", [0]), ("::core::ops::ControlFlow::Continue({0})", [1])],
    "Poll": [("::core::task::Poll::Ready({0})", [0]), ("::core::task::Poll::Pending", [])],
    "Bound": [("::core::ops::Bound::Included({0})", [0]), ("::core::ops::Bound::Excluded({0})", [0]), ("::core::ops::Bound::Unbounded", [])],
    "Box": [("::std::boxed::Box::new({0})", [0])],
    "RefCell": [("::core::cell::RefCell::new({0})", [0])],
    "Range": [("{0}..{1}", [0, 0])],
    "RangeInclusive": [("({0}..={1})", [0, 0])],
    "PhantomData": [("::core::marker::PhantomData", [])],
    "Wrapping": [("::core::num::Wrapping({0})", [0])],
}
MAPS = {"BTreeMap": "::std::collections::BTreeMap::from([{}])"}
LITS = {
    "u8": "{}u8", "u16": "{}u16", "u32": "{}u32", "i32": "{}i32", "u64": "{}u64", "usize": "{}usize", "bool": "true", "char": "'c'",
    "String": "::std::string::String::from(\"s{}\")", "()": "()", "str": None,
}
CONSTS = {"usize": "2", "bool": "true", "char": "'x'", "u8": "3", "i32": "-1", "u32": "4", "isize": "-2"}


class No(Exception):
    """values of this type are not generated"""


class World:
    def __init__(self, mod, shared):
        self.defs = {d.name: d for d in shared}
        self.defs.update({d.name: d for d in mod.defs})
        self.local = {d.name for d in mod.defs}
        self.alias = mod.alias
        self.shadow = mod.shadow

    def lookup(self, t):
        """definition or library name a path type refers to"""
        segs = [i for i, _ in t.segs]
        n = segs[-1]
        std = segs[0] in ("std", "core", "alloc") and (t.lead or len(segs) > 1)
        if not std and n in self.defs:
            return self.defs[n]
        if not std and len(segs) == 1 and n in self.shadow:
            raise No(n)
        if (len(segs) == 1 or t.qself is not None) and n in self.alias:
            return self.alias[n]
        return n


class Gen:
    def __init__(self, world, rng, size=None):
        self.w, self.rng, self.n, self.size = world, rng, 0, size

    def tok(self, cls):
        self.n += 1
        return ("leaf", cls, self.n)

    def gen(self, t, env, consts, depth=0):
        if self.n > 60 or depth > 12:
            raise No("too big")
        k = t.kind
        if k == "paren":
            return self.gen(t.elem, env, consts, depth)
        if k == "tuple":
            return ("tup", [self.gen(e, env, consts, depth + 1) for e in t.elems])
        if k == "array":
            n = self.const(t.len, consts)
            return ("arr", [self.gen(t.elem, env, consts, depth + 1) for _ in range(n)])
        if k == "ref":
            i = t.children()[0]
            if str(i) == "str":
                return ("lit", '"r"')
            if str(i) in LITS:
                return ("lit", "&" + LITS[str(i)].format(5))
            raise No(str(t))
        if k == "ptr":
            return ("lit", "::core::ptr::null()") if "const" in t.parts[1] else ("lit", "::core::ptr::null_mut()")
        if k == "fn" or k != "path":
            raise No(str(t))
        if t.qself is not None and t.last()[0] not in self.w.alias:
            s = str(t)
            if s.endswith("::Out") and s.startswith("<u8"):
                return ("lit", "9u32")
            if s.endswith("::Out"):
                return ("lit", "9u16")
            raise No(s)
        name, args = t.last()
        if len(t.segs) == 1 and not t.lead and unraw(name) in env:
            return env[unraw(name)]()
        if len(t.segs) == 2 and unraw(t.segs[0][0]) in env and name == "Out":
            return ("lit", "9u16")
        if len(t.segs) == 1 and name in LITS and args is None and name not in self.w.shadow and name not in self.w.defs:
            self.n += 0
            return ("lit", LITS[name].format(self.rng.randrange(9)))
        d = self.w.lookup(t)
        args = [a for a in args or [] if a[0] in ("ty", "const")]
        if isinstance(d, Def):
            return self.gen_def(d, args, env, consts, depth)
        ga = [(lambda a=a: self.gen(a[1], env, consts, depth + 1)) if a[0] == "ty" else None for a in args]
        if d in SEQ:
            n = self.size if self.size is not None else self.rng.choice([0, 1, 2, 3])
            return ("seq", d, [ga[0]() for _ in range(n)])
        if d in MAPS:
            n = self.size if self.size is not None else self.rng.choice([0, 1, 2, 3])
            kt = str(args[0][1])
            key = (lambda i: ("lit", LITS[kt].format(i))) if kt in LITS and kt in ("u8", "u16", "u32", "i32", "u64", "usize", "String") else (lambda i: ga[0]())
            return ("map", d, [(key(i), ga[1]()) for i in range(n)])
        if d in SUM:
            if d == "Option" and self.size == 0:
                i = 0
            else:
                i = self.rng.choices(range(len(SUM[d])), [1 if not s[1] else 3 for s in SUM[d]])[0]
            return ("sum", d, i, [(a, ga[a]()) for a in SUM[d][i][1]])
        raise No(str(t))

    def const(self, s, consts):
        s = s.replace(" ", "")
        while s.startswith("{") and s.endswith("}"):
            s = s[1:-1]
        if s in consts:
            s = consts[s]
        s = s.replace("usize", "")
        try:
            return int(eval(s, {}, {k: int(v) for k, v in consts.items() if v.lstrip("-").isdigit()}))
        except Exception:
            raise No("length " + s)

    def gen_def(self, d, args, env, consts, depth=0, variant=None):
        ps = [p for p in d.params if p.kind != "lt"]
        e2, c2 = {}, {}
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            if p.kind == "type":
                t = a[1] if a is not None else ty(p.default)
                e2[unraw(p.name)] = lambda t=t: self.gen(t, env, consts, depth + 1)
            else:
                c2[p.name] = str(self.constv(a, consts)) if a is not None else p.default
        i = variant if variant is not None else self.rng.randrange(len(d.variants))
        n, shape, fs, _, _ = d.variants[i]
        return ("def", d, i, [self.gen(t, e2, c2, depth + 1) for _, t, _ in fs])

    def constv(self, a, consts):
        s = str(a[1])
        if s in consts:
            return consts[s]
        t = s.strip("{} ")
        if t in consts:
            return consts[t]
        return s


def mapv(v, t, p, g, w):
    """documented mapping of value v: t over parameter p; g gives the replacement of an occurrence"""
    if t.is_param(p):
        return g(v)
    if not t.mentions(p):
        return v
    if t.kind == "paren":
        return mapv(v, t.elem, p, g, w)
    if t.kind == "tuple":
        return ("tup", [mapv(x, e, p, g, w) for x, e in zip(v[1], t.elems)])
    if t.kind == "array":
        return ("arr", [mapv(x, t.elem, p, g, w) for x in v[1]])
    assert t.kind == "path", t
    _, args = t.last()
    k = -1
    for a in args:
        if a[0] not in ("ty", "const"):
            continue
        k += 1
        if a[0] == "ty" and a[1].mentions(p):
            v = mapc(v, k, lambda x, a=a: mapv(x, a[1], p, g, w), w)
    return v


def mapc(v, k, h, w):
    """map the k-th argument of a container value"""
    if v[0] == "seq":
        return ("seq", v[1], [h(x) for x in v[2]])
    if v[0] == "map":
        if k == 0:
            return ("map", v[1], [(h(a), b) for a, b in v[2]])
        return ("map", v[1], [(a, h(b)) for a, b in v[2]])
    if v[0] == "sum":
        return ("sum", v[1], v[2], [(a, h(x) if a == k else x) for a, x in v[3]])
    assert v[0] == "def", v
    d = v[1]
    p = [q for q in d.params if q.kind != "lt"][k]
    fs = d.variants[v[2]][2]
    return ("def", d, v[2], [mapv(x, t, p.name, h, w) for x, (_, t, _) in zip(v[3], fs)])


def render(v, path):
    k = v[0]
    if k == "leaf":
        return f"::rt::t::<{v[1]}>({v[2]})"
    if k == "lit":
        return v[1]
    if k == "tup":
        return "(" + ", ".join(render(x, path) for x in v[1]) + ("," if len(v[1]) == 1 else "") + ")"
    if k == "arr":
        return "[" + ", ".join(render(x, path) for x in v[1]) + "]"
    if k == "seq":
        return SEQ[v[1]].format(", ".join(render(x, path) for x in v[2]))
    if k == "map":
        return MAPS[v[1]].format(", ".join(f"({render(a, path)}, {render(b, path)})" for a, b in v[2]))
    if k == "sum":
        return SUM[v[1]][v[2]][0].format(*[render(x, path) for _, x in v[3]])
    d, i, fs = v[1], v[2], v[3]
    n, shape, decl, _, _ = d.variants[i]
    c = path(d) + (f"::{n}" if n else "")
    if shape == "unit":
        return c
    if shape == "tuple":
        return c + "(" + ", ".join(render(x, path) for x in fs) + ")"
    return c + " { " + ", ".join(f"{f[0]}: {render(x, path)}" for f, x in zip(decl, fs)) + " }"
