//! Linear integer arithmetic queries, discharged by z3 (and optionally re-checked by cvc5).
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

pub struct Solver {
    child: Option<Child>,
    cache: HashMap<String, Sat>,
    pub queries: u64,
    pub unsat: u64,
    pub time: f64,
    pub cross: bool,
    pub cross_checked: u64,
    pub cross_disagree: u64,
    pub log: Vec<String>,
}

fn lin_smt(l: &Lin, names: &BTreeMap<Atom, String>) -> String {
    let mut s = String::from("(+");
    let num = |c: i128| if c < 0 { format!("(- {})", -c) } else { format!("{c}") };
    write!(s, " {}", num(l.c)).unwrap();
    for (a, k) in &l.t {
        write!(s, " (* {} {})", num(*k), names[a]).unwrap();
    }
    s.push(')');
    s
}
fn form_smt(f: &Form, n: &BTreeMap<Atom, String>) -> String {
    match f {
        Form::True => "true".into(),
        Form::False => "false".into(),
        Form::Le0(l) => format!("(<= {} 0)", lin_smt(l, n)),
        Form::Eq0(l) => format!("(= {} 0)", lin_smt(l, n)),
        Form::Not(g) => format!("(not {})", form_smt(g, n)),
        Form::And(v) => format!("(and true {})", v.iter().map(|g| form_smt(g, n)).collect::<Vec<_>>().join(" ")),
        Form::Or(v) => format!("(or false {})", v.iter().map(|g| form_smt(g, n)).collect::<Vec<_>>().join(" ")),
    }
}

impl Solver {
    pub fn new() -> Self {
        Solver {
            child: None,
            cache: HashMap::new(),
            queries: 0,
            unsat: 0,
            time: 0.0,
            cross: std::env::var("DV_CROSS").is_ok(),
            cross_checked: 0,
            cross_disagree: 0,
            log: vec![],
        }
    }
    fn script(&self, fs: &[Form]) -> (String, BTreeMap<Atom, String>) {
        let mut atoms = BTreeSet::new();
        fs.iter().for_each(|f| f.atoms(&mut atoms));
        let mut names = BTreeMap::new();
        let mut s = String::new();
        for (i, a) in atoms.iter().enumerate() {
            let n = format!("a{i}");
            match a {
                // may stand for a signed or wide integer
                Atom::IntOf(_) => writeln!(s, "(declare-const {n} Int)").unwrap(),
                _ => writeln!(s, "(declare-const {n} Int)\n(assert (and (>= {n} 0) (<= {n} 18446744073709551615)))").unwrap(),
            }
            names.insert(a.clone(), n);
        }
        for f in fs {
            writeln!(s, "(assert {})", form_smt(f, &names)).unwrap();
        }
        (s, names)
    }
    fn z3(&mut self, script: &str, want_model: bool) -> (Sat, String) {
        let r = (|| -> std::io::Result<(Sat, String)> {
            if self.child.is_none() {
                self.child = Some(
                    Command::new(std::env::var("DV_Z3").unwrap_or("z3".into()))
                        .args(["-in", "-t:10000"])
                        .stdin(Stdio::piped())
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()?,
                );
            }
            let ch = self.child.as_mut().unwrap();
            let inp = ch.stdin.as_mut().unwrap();
            let model = if want_model { "(get-model)\n" } else { "" };
            write!(inp, "(push)\n{script}(check-sat)\n{model}(pop)\n(echo \"=done=\")\n")?;
            inp.flush()?;
            let out = ch.stdout.take().unwrap();
            let mut rd = BufReader::new(out);
            let mut text = String::new();
            let mut line = String::new();
            loop {
                line.clear();
                if rd.read_line(&mut line)? == 0 {
                    break;
                }
                if line.trim() == "=done=" || line.trim() == "\"=done=\"" {
                    break;
                }
                text.push_str(&line);
            }
            ch.stdout = Some(rd.into_inner());
            let sat = if text.starts_with("sat") {
                Sat::Sat
            } else if text.starts_with("unsat") {
                Sat::Unsat
            } else {
                Sat::Unknown
            };
            Ok((sat, text))
        })();
        match r {
            Ok(x) => x,
            Err(_) => {
                self.child = None;
                (Sat::Unknown, String::new())
            }
        }
    }
    pub fn check(&mut self, fs: &[Form]) -> Sat {
        if fs.iter().any(|f| *f == Form::False) {
            return Sat::Unsat;
        }
        let fs: Vec<Form> = fs.iter().filter(|f| **f != Form::True).cloned().collect();
        if fs.is_empty() {
            return Sat::Sat;
        }
        let (s, _) = self.script(&fs);
        if let Some(r) = self.cache.get(&s) {
            return *r;
        }
        let t0 = Instant::now();
        let (r, _) = self.z3(&s, false);
        self.time += t0.elapsed().as_secs_f64();
        self.queries += 1;
        if r == Sat::Unsat {
            self.unsat += 1;
            if self.cross {
                self.cross_checked += 1;
                let q = format!("(set-logic QF_LIA)\n{s}(check-sat)\n");
                let mut c = Command::new("cvc5")
                    .args(["--lang=smt2", "--tlimit=20000", "-"])
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .unwrap();
                c.stdin.take().unwrap().write_all(q.as_bytes()).ok();
                let o = c.wait_with_output().unwrap();
                if !String::from_utf8_lossy(&o.stdout).starts_with("unsat") {
                    self.cross_disagree += 1;
                    self.log.push(format!("cvc5 does not confirm:\n{q}"));
                }
            }
        }
        self.cache.insert(s, r);
        r
    }
    /// pc |= f ?
    pub fn prove(&mut self, pc: &[Form], f: &Form) -> bool {
        match f {
            Form::True => return true,
            _ => {}
        }
        let mut v = pc.to_vec();
        v.push(f.clone().not());
        self.check(&v) == Sat::Unsat
    }
    /// A model of the path condition, as human-readable and machine-readable bindings.
    pub fn model(&mut self, pc: &[Form]) -> Option<Vec<(String, i128)>> {
        let fs: Vec<Form> = pc.iter().filter(|f| **f != Form::True).cloned().collect();
        // prefer small values
        let mut atoms = BTreeSet::new();
        fs.iter().for_each(|f| f.atoms(&mut atoms));
        for bound in [4i128, 16, 64, 1024, i128::MAX] {
            let mut g = fs.clone();
            if bound < i128::MAX {
                for a in &atoms {
                    g.push(Form::le(&Lin::atom(a.clone()), &Lin::k(bound)));
                }
            }
            let (s, names) = self.script(&g);
            let (r, text) = self.z3(&s, true);
            if r == Sat::Sat {
                let flat: String = text.replace('\n', " ");
                let mut out = vec![];
                for (a, n) in &names {
                    if let Some(p) = flat.find(&format!("(define-fun {n} () Int")) {
                        let rest = &flat[p + format!("(define-fun {n} () Int").len()..];
                        let v: String = rest.chars().skip_while(|c| c.is_whitespace()).take_while(|c| c.is_ascii_digit()).collect();
                        if let Ok(v) = v.parse() {
                            out.push((format!("{a:?}"), v));
                        }
                    }
                }
                return Some(out);
            }
        }
        None
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        if let Some(mut c) = self.child.take() {
            let _ = c.kill();
            let _ = c.wait();
        }
    }
}
