//! Symbolic terms, linear integer expressions, formulas.
use std::collections::BTreeMap;
use std::fmt;
use std::rc::Rc;

/// A symbolic value identified by where it came from.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    /// input of the function under contract
    In(String),
    /// field `idx` of variant `variant` of an aggregate
    Field(Rc<T>, u32, u32),
    /// content of a box
    Content(Rc<T>),
    /// the j-th occurrence of type parameter `k` in a container / mapped value
    Elem(Rc<T>, String, Rc<Lin>),
    /// what the closure returned for this argument (Ok payload for fallible closures)
    Ret(Rc<T>, Rc<T>),
    /// the error the closure returned for this argument
    ErrRet(Rc<T>, Rc<T>),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Atom {
    Sym(u32),
    /// number of occurrences of parameter `k` in term
    Len(T, String),
    /// const generic parameter
    CParam(String),
    /// integer value of a term of integer type
    IntOf(T),
    /// an unknown permutation of the indices of a container
    Perm(u32, Box<Lin>),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Lin {
    pub c: i128,
    pub t: BTreeMap<Atom, i128>,
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: BTreeMap::new() }
    }
    pub fn atom(a: Atom) -> Lin {
        let mut t = BTreeMap::new();
        t.insert(a, 1);
        Lin { c: 0, t }
    }
    pub fn sym(s: u32) -> Lin {
        Lin::atom(Atom::Sym(s))
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.add_scaled(o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add_scaled(o, -1)
    }
    pub fn addk(&self, k: i128) -> Lin {
        let mut r = self.clone();
        r.c += k;
        r
    }
    pub fn add_scaled(&self, o: &Lin, k: i128) -> Lin {
        let mut r = self.clone();
        r.c += o.c * k;
        for (a, v) in &o.t {
            let e = r.t.entry(a.clone()).or_insert(0);
            *e += v * k;
            if *e == 0 {
                r.t.remove(a);
            }
        }
        r
    }
    pub fn scale(&self, k: i128) -> Lin {
        Lin::k(0).add_scaled(self, k)
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty() && self.c == 0
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Form {
    True,
    False,
    /// lin <= 0
    Le0(Lin),
    /// lin == 0
    Eq0(Lin),
    Not(Box<Form>),
    And(Vec<Form>),
    Or(Vec<Form>),
}

impl Form {
    pub fn b(x: bool) -> Form {
        if x {
            Form::True
        } else {
            Form::False
        }
    }
    pub fn le(a: &Lin, b: &Lin) -> Form {
        let d = a.sub(b);
        match d.is_const() {
            Some(c) => Form::b(c <= 0),
            None => Form::Le0(d),
        }
    }
    pub fn lt(a: &Lin, b: &Lin) -> Form {
        Form::le(&a.addk(1), b)
    }
    pub fn eq(a: &Lin, b: &Lin) -> Form {
        let d = a.sub(b);
        match d.is_const() {
            Some(c) => Form::b(c == 0),
            None => Form::Eq0(d),
        }
    }
    pub fn not(self) -> Form {
        match self {
            Form::True => Form::False,
            Form::False => Form::True,
            Form::Not(f) => *f,
            Form::Le0(l) => {
                // not (l <= 0)  ==  1 - l <= 0
                Form::Le0(l.scale(-1).addk(1))
            }
            f => Form::Not(Box::new(f)),
        }
    }
    pub fn and(a: Form, b: Form) -> Form {
        match (a, b) {
            (Form::False, _) | (_, Form::False) => Form::False,
            (Form::True, x) | (x, Form::True) => x,
            (a, b) => Form::And(vec![a, b]),
        }
    }
    pub fn or(a: Form, b: Form) -> Form {
        match (a, b) {
            (Form::True, _) | (_, Form::True) => Form::True,
            (Form::False, x) | (x, Form::False) => x,
            (a, b) => Form::Or(vec![a, b]),
        }
    }
    pub fn atoms(&self, out: &mut std::collections::BTreeSet<Atom>) {
        match self {
            Form::True | Form::False => {}
            Form::Le0(l) | Form::Eq0(l) => {
                for a in l.t.keys() {
                    out.insert(a.clone());
                }
            }
            Form::Not(f) => f.atoms(out),
            Form::And(v) | Form::Or(v) => v.iter().for_each(|f| f.atoms(out)),
        }
    }
}

/// Substitution of one symbol by a linear expression.
pub struct Sub<'a> {
    pub s: u32,
    pub l: &'a Lin,
}

pub trait Subst: Sized {
    fn subst(&self, s: &Sub) -> Self;
}
impl Subst for T {
    fn subst(&self, s: &Sub) -> T {
        match self {
            T::In(_) => self.clone(),
            T::Field(t, v, i) => T::Field(Rc::new(t.subst(s)), *v, *i),
            T::Content(t) => T::Content(Rc::new(t.subst(s))),
            T::Elem(t, k, l) => T::Elem(Rc::new(t.subst(s)), k.clone(), Rc::new(l.subst(s))),
            T::Ret(f, t) => T::Ret(Rc::new(f.subst(s)), Rc::new(t.subst(s))),
            T::ErrRet(f, t) => T::ErrRet(Rc::new(f.subst(s)), Rc::new(t.subst(s))),
        }
    }
}
impl Subst for Atom {
    fn subst(&self, s: &Sub) -> Atom {
        match self {
            Atom::Sym(_) | Atom::CParam(_) => self.clone(),
            Atom::Len(t, k) => Atom::Len(t.subst(s), k.clone()),
            Atom::IntOf(t) => Atom::IntOf(t.subst(s)),
            Atom::Perm(p, l) => Atom::Perm(*p, Box::new(l.subst(s))),
        }
    }
}
impl Subst for Lin {
    fn subst(&self, s: &Sub) -> Lin {
        let mut r = Lin::k(self.c);
        for (a, k) in &self.t {
            match a {
                Atom::Sym(x) if *x == s.s => r = r.add_scaled(s.l, *k),
                _ => r = r.add_scaled(&Lin::atom(a.subst(s)), *k),
            }
        }
        r
    }
}
impl Subst for Form {
    fn subst(&self, s: &Sub) -> Form {
        match self {
            Form::True | Form::False => self.clone(),
            Form::Le0(l) => Form::le(&l.subst(s), &Lin::k(0)),
            Form::Eq0(l) => Form::eq(&l.subst(s), &Lin::k(0)),
            Form::Not(f) => f.subst(s).not(),
            Form::And(v) => v.iter().fold(Form::True, |a, f| Form::and(a, f.subst(s))),
            Form::Or(v) => v.iter().fold(Form::False, |a, f| Form::or(a, f.subst(s))),
        }
    }
}

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::In(s) => write!(f, "{s}"),
            T::Field(t, v, i) => write!(f, "{t:?}.{v}#{i}"),
            T::Content(t) => write!(f, "*{t:?}"),
            T::Elem(t, k, l) => write!(f, "{t:?}<{k}>[{l:?}]"),
            T::Ret(g, t) => write!(f, "{g:?}({t:?})"),
            T::ErrRet(g, t) => write!(f, "{g:?}!({t:?})"),
        }
    }
}
impl fmt::Debug for Atom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Atom::Sym(s) => write!(f, "${s}"),
            Atom::Len(t, k) => write!(f, "len({t:?},{k})"),
            Atom::CParam(s) => write!(f, "{s}"),
            Atom::IntOf(t) => write!(f, "int({t:?})"),
            Atom::Perm(p, l) => write!(f, "perm{p}({l:?})"),
        }
    }
}
impl fmt::Debug for Lin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut first = true;
        for (a, k) in &self.t {
            if *k == 1 {
                write!(f, "{}{a:?}", if first { "" } else { "+" })?;
            } else if *k == -1 {
                write!(f, "-{a:?}")?;
            } else {
                write!(f, "{}{k}*{a:?}", if first || *k < 0 { "" } else { "+" })?;
            }
            first = false;
        }
        if first {
            write!(f, "{}", self.c)
        } else if self.c > 0 {
            write!(f, "+{}", self.c)
        } else if self.c < 0 {
            write!(f, "{}", self.c)
        } else {
            Ok(())
        }
    }
}
impl fmt::Debug for Form {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Form::True => write!(f, "true"),
            Form::False => write!(f, "false"),
            Form::Le0(l) => write!(f, "({l:?}<=0)"),
            Form::Eq0(l) => write!(f, "({l:?}==0)"),
            Form::Not(g) => write!(f, "!{g:?}"),
            Form::And(v) => write!(f, "and{v:?}"),
            Form::Or(v) => write!(f, "or{v:?}"),
        }
    }
}
