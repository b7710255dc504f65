"""A small parser for the part of Rust's type syntax the corpus uses, and type definitions built on it."""
import re

TOK = re.compile(r"\s*('[^'\\]'|'(?:r#)?[A-Za-z_]\w*(?!')|r#\w+|[A-Za-z_]\w*|\d\w*|::|->|\.\.\.|\.\.=|\.\.|=>|[<>()\[\]{},;:&*+=?!#'\"/.-]|\S)")


class Ty:
    """kind: param-free syntax tree of a type.
    path: qself(Ty|None, as_trait Ty|None), lead(bool), segs [(ident, None | [arg])]; arg = ('ty',Ty)|('lt',s)|('const',s)|('assoc',name,Ty)
    array(elem,len) tuple(elems) paren(inner) group(inner) ref/ptr/slice/fn/dyn/macro: opaque text + inner types"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    def __str__(self):
        k = self.kind
        if k == "path":
            s = ""
            segs = list(self.segs)
            if self.qself is not None:
                q, tr = self.qself
                if tr is None:
                    s = f"<{q}>::"
                else:
                    s = f"<{q} as {tr}>::"
            elif self.lead:
                s = "::"
            return s + "::".join(i + (args_str(a) if a is not None else "") for i, a in segs)
        if k == "array":
            return f"[{self.elem}; {self.len}]"
        if k == "tuple":
            return "(" + ", ".join(map(str, self.elems)) + ("," if len(self.elems) == 1 else "") + ")"
        if k == "paren":
            return f"({self.elem})"
        if k == "slice":
            return f"[{self.elem}]"
        return "".join(str(p) for p in self.parts)

    def children(self):
        k = self.kind
        if k == "path":
            r = []
            if self.qself is not None:
                r += [x for x in self.qself if x is not None]
            for _, a in self.segs:
                for x in a or []:
                    if x[0] == "ty":
                        r.append(x[1])
                    elif x[0] == "assoc":
                        r.append(x[2])
                    elif x[0] == "paren":
                        r += x[1]
            return r
        if k in ("array", "paren", "slice"):
            return [self.elem]
        if k == "tuple":
            return list(self.elems)
        return [p for p in self.parts if isinstance(p, Ty)]

    def is_param(self, p):
        return self.kind == "path" and self.qself is None and not self.lead and len(self.segs) == 1 and unraw(self.segs[0][0]) == unraw(p) and not self.segs[0][1]

    def mentions(self, p):
        """does the type parameter `p` occur?"""
        if self.kind == "path" and self.qself is None and not self.lead and unraw(self.segs[0][0]) == unraw(p):
            return True
        return any(c.mentions(p) for c in self.children())

    def subst(self, p, q):
        """rename type parameter p to q"""
        k = self.kind
        if k == "path":
            segs = []
            for n, (i, a) in enumerate(self.segs):
                if n == 0 and self.qself is None and not self.lead and unraw(i) == unraw(p):
                    i = q
                if a is not None:
                    a = [
                        ("ty", x[1].subst(p, q))
                        if x[0] == "ty"
                        else ("assoc", x[1], x[2].subst(p, q))
                        if x[0] == "assoc"
                        else ("paren", [y.subst(p, q) for y in x[1]])
                        if x[0] == "paren"
                        else x
                        for x in a
                    ]
                segs.append((i, a))
            qs = None
            if self.qself is not None:
                qs = (self.qself[0].subst(p, q), self.qself[1].subst(p, q) if self.qself[1] is not None else None)
            return Ty("path", qself=qs, lead=self.lead, segs=segs)
        if k == "array":
            return Ty("array", elem=self.elem.subst(p, q), len=self.len)
        if k in ("paren", "slice"):
            return Ty(k, elem=self.elem.subst(p, q))
        if k == "tuple":
            return Ty("tuple", elems=[e.subst(p, q) for e in self.elems])
        return Ty(k, parts=[x.subst(p, q) if isinstance(x, Ty) else x for x in self.parts])

    def last(self):
        return self.segs[-1]


def unraw(i):
    return i[2:] if i.startswith("r#") else i


def args_str(a):
    if a and a[0][0] == "paren":
        return "(" + ", ".join(map(str, a[0][1])) + ")"
    return "<" + ", ".join(arg_str(x) for x in a) + ">"


def arg_str(x):
    if x[0] == "assoc":
        return f"{x[1]} = {x[2]}"
    return str(x[1])


class P:
    def __init__(self, s):
        self.t = TOK.findall(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        assert self.eat(x), f"expected {x} at {self.t[self.i:]}"

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def braces(self, o="{", c="}"):
        d, r = 0, ""
        while True:
            t = self.next()
            d += (t == o) - (t == c)
            r += t + " "
            if d == 0:
                return r.strip()

    def ty(self):
        t = self.peek()
        if t == "(":
            self.next()
            es, comma = [], False
            while not self.eat(")"):
                es.append(self.ty())
                comma = self.eat(",")
            if len(es) == 1 and not comma:
                return Ty("paren", elem=es[0])
            return Ty("tuple", elems=es)
        if t == "[":
            self.next()
            e = self.ty()
            if self.eat("]"):
                return Ty("slice", elem=e)
            self.need(";")
            l, d = "", 0
            while not (d == 0 and self.peek() == "]"):
                x = self.next()
                d += (x in "{[(") - (x in "}])")
                l += x if x == "::" or l.endswith("::") else (" " + x if l else x)
            self.need("]")
            return Ty("array", elem=e, len=l)
        if t == "&":
            self.next()
            p = ["&"]
            if self.peek().startswith("'"):
                p.append(self.next() + " ")
            if self.eat("mut"):
                p.append("mut ")
            p.append(self.ty())
            return Ty("ref", parts=p)
        if t == "*":
            self.next()
            return Ty("ptr", parts=["*", self.next() + " ", self.ty()])
        if t == "!":
            self.next()
            return Ty("never", parts=["!"])
        if t in ("fn", "unsafe", "extern", "for") and t != "for" or t == "for":
            p = []
            while self.peek() != "fn":
                x = self.next()
                p.append(x + ("" if x in "<>'" else " ") if x not in ("for", "<", ">") else (x if x != ">" else "> "))
            self.need("fn")
            p.append("fn")
            self.need("(")
            p.append("(")
            while not self.eat(")"):
                p.append(self.ty())
                if self.eat(","):
                    p.append(", ")
            p.append(")")
            if self.eat("->"):
                p += [" -> ", self.ty()]
            return Ty("fn", parts=p)
        if t in ("dyn", "impl"):
            p = [self.next() + " "]
            while True:
                if self.peek() and self.peek().startswith("'"):
                    p.append(self.next())
                else:
                    if self.peek() == "for":
                        p.append("for" + self.lts() + " ")
                    p.append(self.bound_path())
                if not self.eat("+"):
                    break
                p.append(" + ")
            return Ty("dyn", parts=p)
        return self.path()

    def lts(self):
        self.need("for")
        return self.braces("<", ">").replace(" ", "")

    def bound_path(self):
        return self.path()

    def path(self):
        qself, lead = None, False
        if self.eat("<"):
            q = self.ty()
            tr = self.path() if self.eat("as") else None
            self.need(">")
            self.need("::")
            qself = (q, tr)
        elif self.eat("::"):
            lead = True
        segs = []
        while True:
            i = self.next()
            a = None
            if self.peek() == "!":
                self.next()
                return Ty("macro", parts=[i + "!" + self.braces("(", ")")])
            if self.peek() == "::" and self.peek(1) == "<":
                self.next()
            if self.eat("<"):
                a = []
                while not self.eat(">"):
                    a.append(self.arg())
                    self.eat(",")
            elif self.peek() == "(":
                self.next()
                es = []
                while not self.eat(")"):
                    es.append(self.ty())
                    self.eat(",")
                ret = []
                if self.eat("->"):
                    ret = [self.ty()]
                segs.append((i, [("paren", es)]))
                if ret:
                    return Ty("fnpath", parts=["::".join(x for x, _ in segs) + "(", *sum([[e, ", "] for e in es], [])[:-1], ") -> ", ret[0]])
                return Ty("path", qself=qself, lead=lead, segs=segs)
            segs.append((i, a))
            if not self.eat("::"):
                break
        return Ty("path", qself=qself, lead=lead, segs=segs)

    def arg(self):
        t = self.peek()
        if t.startswith("'") and len(t) > 1 and not (len(t) == 3 and t[2] == "'"):
            return ("lt", self.next())
        if t == "{":
            return ("const", self.braces())
        if t == "-" or t[0].isdigit() or t in ("true", "false") or (len(t) == 3 and t[0] == t[2] == "'"):
            x = self.next()
            return ("const", x + (self.next() if x == "-" else ""))
        if self.peek(1) == "=":
            n = self.next()
            self.next()
            return ("assoc", n, self.ty())
        return ("ty", self.ty())


def ty(s):
    if isinstance(s, Ty):
        return s
    p = P(s)
    t = p.ty()
    assert p.i == len(p.t), (s, p.t[p.i :])
    return t


def split(s, sep=","):
    """split at top level"""
    r, d, cur = [], 0, ""
    i = 0
    while i < len(s):
        c = s[i]
        if s.startswith("->", i):
            cur += "->"
            i += 2
            continue
        d += (c in "<([{") - (c in ">)]}")
        if c == sep and d == 0:
            r.append(cur.strip())
            cur = ""
        else:
            cur += c
        i += 1
    if cur.strip():
        r.append(cur.strip())
    return r


class Param:
    """one generic parameter"""

    def __init__(self, s):
        self.text = s
        self.attrs = ""
        while s.startswith("#["):
            d = 0
            for i, c in enumerate(s):
                d += (c == "[") - (c == "]")
                if c == "]" and d == 0:
                    break
            self.attrs += s[: i + 1] + " "
            s = s[i + 1 :].strip()
        self.default = None
        if s.startswith("'"):
            self.kind = "lt"
            self.name, _, b = s.partition(":")
            self.name = self.name.strip()
            self.bounds = split(b.strip(), "+")
        elif s.startswith("const "):
            self.kind = "const"
            n, _, t = s[6:].partition(":")
            self.name = n.strip()
            t, _, d = t.partition("=")
            self.cty, self.default = t.strip(), d.strip() or None
            self.bounds = []
        else:
            self.kind = "type"
            m = re.match(r"((?:r#)?\w+)\s*", s)
            self.name = m.group(1)
            rest = s[m.end() :].strip()
            # a default follows the last top-level `=`
            d, cut = 0, None
            for i, c in enumerate(rest):
                if rest[i - 1 : i + 1] == "->":
                    continue
                d += (c in "<([{") - (c in ">)]}")
                if c == "=" and d == 0:
                    cut = i
                    break
            if cut is not None:
                self.default = rest[cut + 1 :].strip()
                rest = rest[:cut].strip()
            if rest.startswith(":"):
                rest = rest[1:].strip()
            self.bounds = split(rest, "+")

    def decl(self, bounds=None):
        """declaration without attributes and default"""
        if self.kind == "const":
            return f"const {self.name}: {self.cty}"
        b = self.bounds if bounds is None else bounds
        return self.name + (": " + " + ".join(b) if b else "")


def subst_text(s, p, q):
    """rename the type parameter p in the text of a bound or predicate; `p` names a type in our texts wherever it is
    a whole identifier that does not follow `::` or a lifetime quote"""
    return re.sub(r"(?<![\w'#:])(?:r#)?" + re.escape(unraw(p)) + r"(?![\w])(?!\s*=[^=>])", q, s)


class Def:
    """a type definition to derive for.
    variants: [(name|None, 'tuple'|'named'|'unit', [(field name|None, Ty, attrs)])]"""

    def __init__(self, name, generics, body, where="", attrs="", kind="struct", vis="pub", pre="", pre_inner="", derives=("FuncMap", "TryFuncMap"), tags=(), values=3, consts=None, params=None, crate=None, debug=True, funcmap_attrs=None, value=None, grouped=False):
        self.name, self.kind = name, kind
        self.params = [Param(g) for g in split(generics)]
        self.where = split(where)
        self.attrs, self.vis, self.pre = attrs, vis, pre
        self.derives, self.tags, self.nvalues = derives, set(tags), values
        self.consts = consts or {}
        self.only = params
        self.grouped = grouped
        self.debug = debug
        self.funcmap_attrs = funcmap_attrs
        self.variants = []
        if kind == "struct":
            self.variants.append(self._fields(None, body))
        else:
            for v in split(body):
                at, v = self._attrs(v)
                m = re.match(r"((?:r#)?\w+)\s*", v)
                rest = v[m.end() :]
                disc = ""
                if "=" in rest and not rest.strip().startswith(("(", "{")):
                    rest, _, disc = rest.partition("=")
                elif re.search(r"[)}]\s*=\s*\d+$", rest):
                    rest, _, disc = rest.rpartition("=")
                x = self._fields(m.group(1), rest.strip())
                self.variants.append(x + (at, disc.strip()))
        self.variants = [v if len(v) == 5 else v + ("", "") for v in self.variants]
        self.body = body

    @staticmethod
    def _attrs(s):
        a = ""
        s = s.strip()
        while s.startswith("#["):
            d = 0
            for i, c in enumerate(s):
                d += (c == "[") - (c == "]")
                if c == "]" and d == 0:
                    break
            a += s[: i + 1] + " "
            s = s[i + 1 :].strip()
        return a, s

    def _fields(self, name, body):
        body = body.strip()
        if body in ("", ";"):
            return (name, "unit", [])
        o = body[0]
        inner = body[1:-1]
        fs = []
        for f in split(inner):
            at, f = self._attrs(f)
            m = re.match(r"(pub(\([^)]*\))?\s+)", f)
            vis = ""
            if m:
                vis = m.group(1)
                f = f[m.end() :]
            if o == "{":
                n, _, t = f.partition(":")
                fs.append((n.strip(), ty(t.strip()), at + vis))
            else:
                fs.append((None, ty(f), at + vis))
        return (name, "named" if o == "{" else "tuple", fs)

    def tparams(self):
        return [p for p in self.params if p.kind == "type"]

    def index(self, p):
        """number of a type parameter among type and const parameters"""
        return [q.name for q in self.params if q.kind != "lt"].index(p.name)

    def mapped(self):
        return [p for p in self.tparams() if self.only is None or unraw(p.name) in map(unraw, self.only)]

    def generics(self):
        return "<" + ", ".join(p.text for p in self.params) + ">" if self.params else ""

    def args(self, m=None):
        m = m or {}
        return "<" + ", ".join(m.get(p.name, p.name) for p in self.params) + ">" if self.params else ""

    def text(self, extra_derives=(), attrs=""):
        """`grouped`: the field types reach the definition as arguments of a macro"""
        if not self.grouped:
            return self.plain_text(extra_derives, attrs)
        d = Def.__new__(Def)
        d.__dict__ = dict(self.__dict__)
        types, d.variants = [], []
        for n, shape, fs, at, disc in self.variants:
            g = []
            for fn, t, a in fs:
                g.append((fn, f"$t{len(types)}", a))
                types.append(str(t))
            d.variants.append((n, shape, g, at, disc))
        pats = ", ".join(f"$t{i}:ty" for i in range(len(types)))
        return f"macro_rules! mk_{unraw(self.name)} {{ ({pats}) => {{ {d.plain_text(extra_derives, attrs)} }} }}\nmk_{unraw(self.name)}!({', '.join(types)});"

    def plain_text(self, extra_derives=(), attrs=""):
        ders = list(extra_derives) + list(self.derives)
        s = (f"#[derive({', '.join(ders)})]\n" if ders else "") + (self.attrs + "\n" if self.attrs else "") + attrs
        if self.funcmap_attrs:
            s += "".join(f"#[funcmap({a})]\n" for a in self.funcmap_attrs)
        w = (" where " + ", ".join(self.where)) if self.where else ""
        vis = self.vis + " " if self.vis else ""

        def flds(shape, fs, v):
            if shape == "unit":
                return ""
            if shape == "tuple":
                return "(" + ", ".join(f"{a}{v}{t}" for _, t, a in fs) + ")"
            return " { " + ", ".join(f"{a}{v}{n}: {t}" for n, t, a in fs) + " }"

        if self.kind == "struct":
            _, shape, fs, _, _ = self.variants[0]
            v = "pub "
            fs = [(n, t, a if a.rstrip().endswith(("pub", ")")) else a + "") for n, t, a in fs]
            body = flds(shape, [(n, t, a if "pub" in a else a + "pub ") for n, t, a in fs], "")
            if shape == "named":
                return s + f"{vis}struct {self.name}{self.generics()}{w}{body}"
            return s + f"{vis}struct {self.name}{self.generics()}{body}{w};"
        vs = []
        for n, shape, fs, at, disc in self.variants:
            vs.append(f"    {at}{n}{flds(shape, fs, '')}" + (f" = {disc}" if disc else ""))
        return s + f"{vis}enum {self.name}{self.generics()}{w} {{\n" + ",\n".join(vs) + "\n}"
