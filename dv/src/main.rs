//! dv: deductive verifier for the mapping contracts, run as a rustc driver on the compiled MIR.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_attr_ir;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod call;
mod effects;
mod eng;
mod exec;
mod laws;
mod linear;
mod loops;
mod meta;
mod smt;
mod spec;
mod term;
mod val;

use eng::*;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt};
use spec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use term::*;
use val::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jlist<X>(v: impl IntoIterator<Item = X>, f: impl Fn(X) -> String) -> String {
    let v: Vec<String> = v.into_iter().map(f).collect();
    format!("[{}]", v.join(","))
}

#[derive(Clone)]
struct Target<'tcx> {
    name: String,
    method: &'static str,
    def: DefId,
    self_ty: Ty<'tcx>,
    a: Ty<'tcx>,
    b: Ty<'tcx>,
    marker: String,
    mode: SpecMode,
    contract_calls: bool,
}

fn method_name(s: &str) -> Option<&'static str> {
    ["func_map", "try_func_map", "func_map_over", "try_func_map_over"].into_iter().find(|m| *m == s)
}

fn targets<'tcx>(tcx: TyCtxt<'tcx>) -> Vec<Target<'tcx>> {
    let mut out = vec![];
    let derive = std::env::var("DV_DERIVE").is_ok();
    for t in tcx.all_traits_including_private() {
        if tcx.crate_name(t.krate).as_str() != "funcmap" || !matches!(tcx.item_name(t).as_str(), "FuncMap" | "TryFuncMap") {
            continue;
        }
        if !derive {
            // default methods
            for a in tcx.associated_items(t).in_definition_order() {
                if !matches!(a.kind, ty::AssocKind::Fn { .. }) || !tcx.defaultness(a.def_id).has_value() {
                    continue;
                }
                let Some(method) = method_name(tcx.item_name(a.def_id).as_str()) else { continue };
                let args = ty::GenericArgs::identity_for_item(tcx, t);
                out.push(Target {
                    name: format!("{}::{method} (default)", tcx.item_name(t)),
                    method,
                    def: a.def_id,
                    self_ty: args.type_at(0),
                    a: args.type_at(1),
                    b: args.type_at(2),
                    marker: format!("{}", args.type_at(3)),
                    mode: SpecMode::Opaque,
                    contract_calls: true,
                });
            }
        }
        for i in tcx.all_impls(t) {
            if derive != i.is_local() {
                continue;
            }
            if !derive && tcx.crate_name(i.krate).as_str() != "funcmap" {
                continue;
            }
            let tr = tcx.impl_trait_ref(i).instantiate_identity().skip_norm_wip();
            let marker = match tr.args.type_at(3).kind() {
                ty::Adt(_, a) => a.iter().find_map(|x| x.as_const()).and_then(|c| c.try_to_target_usize(tcx)).map(|n| n.to_string()),
                _ => None,
            }
            .unwrap_or_else(|| "?".into());
            for a in tcx.associated_items(i).in_definition_order() {
                if !matches!(a.kind, ty::AssocKind::Fn { .. }) {
                    continue;
                }
                let Some(method) = method_name(tcx.item_name(a.def_id).as_str()) else { continue };
                out.push(Target {
                    name: format!("<{} as {}<{}, {}, TypeParam<{marker}>>>::{method}", tr.self_ty(), tcx.item_name(t), tr.args.type_at(1), tr.args.type_at(2)),
                    method,
                    def: a.def_id,
                    self_ty: tr.self_ty(),
                    a: tr.args.type_at(1),
                    b: tr.args.type_at(2),
                    marker: marker.clone(),
                    mode: if derive { SpecMode::Shallow } else { SpecMode::Deep },
                    contract_calls: derive,
                });
            }
        }
    }
    out.sort_by(|a, b| a.name.cmp(&b.name));
    out
}

fn engine<'tcx>(tcx: TyCtxt<'tcx>, tenv: ty::TypingEnv<'tcx>, contract_calls: bool, laws: bool, models: &HashMap<String, DefId>) -> Eng<'tcx> {
    let secs: u64 = std::env::var("DV_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    Eng {
        tcx,
        tenv,
        solver: smt::Solver::new(),
        fresh: 0,
        bodies: HashMap::new(),
        adtk: HashMap::new(),
        paths: HashMap::new(),
        models: models.clone(),
        obl: BTreeMap::new(),
        inlined: BTreeSet::new(),
        trusted: BTreeSet::new(),
        viols: vec![],
        unds: vec![],
        paths_done: 0,
        loops_done: 0,
        contract_calls,
        laws,
        perms: HashMap::new(),
        budget: 400_000,
        deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs),
    }
}

fn run_target<'tcx>(tcx: TyCtxt<'tcx>, t: &Target<'tcx>, models: &HashMap<String, DefId>) -> String {
    let t0 = std::time::Instant::now();
    let mut e = engine(tcx, ty::TypingEnv::post_analysis(tcx, t.def), t.contract_calls, false, models);
    let r = verify(&mut e, t);
    report(&mut e, r, &t.name, t.method, "", t0)
}

fn run_law<'tcx>(tcx: TyCtxt<'tcx>, l: &laws::Law<'tcx>, models: &HashMap<String, DefId>) -> String {
    let t0 = std::time::Instant::now();
    let mut e = engine(tcx, l.env, l.contract_calls, true, models);
    let r = e.check_law(l);
    report(&mut e, r, &l.name, l.method, l.law, t0)
}

fn report<'tcx>(e: &mut Eng<'tcx>, r: R<()>, name: &str, method: &str, law: &str, t0: std::time::Instant) -> String {
    if let Err(s) = r {
        match s {
            Stop::Und(m) => e.unds.push(m),
            Stop::Viol { cat, msg } => e.viols.push(Viol { cat, msg, model: vec![], at: String::new(), trace: String::new() }),
            Stop::Split(_) => e.unds.push("case distinction at the entry".into()),
        }
    }
    let status = if !e.viols.is_empty() {
        "violation"
    } else if !e.unds.is_empty() {
        "undecided"
    } else {
        "proved"
    };
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"target\":{},\"method\":{},\"law\":{},\"status\":{},\"paths\":{},\"loops\":{},\"wall_s\":{:.3},",
        js(name),
        js(method),
        js(law),
        js(status),
        e.paths_done,
        e.loops_done,
        t0.elapsed().as_secs_f64()
    );
    let sv = &e.solver;
    let _ = write!(
        o,
        "\"obligations\":{{{}}},\"smt\":{{\"queries\":{},\"unsat\":{},\"time_s\":{:.3},\"cross_checked\":{},\"cross_disagreements\":{}}},",
        e.obl.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(","),
        sv.queries,
        sv.unsat,
        sv.time,
        sv.cross_checked,
        sv.cross_disagree
    );
    let _ = write!(o, "\"inlined\":{},\"trusted\":{},", jlist(&e.inlined, |s| js(s)), jlist(&e.trusted, |s| js(s)));
    let _ = write!(
        o,
        "\"violations\":{},\"undecided\":{}}}",
        jlist(&e.viols, |v| format!(
            "{{\"cat\":{},\"msg\":{},\"at\":{},\"trace\":{},\"model\":{{{}}}}}",
            js(&format!("{:?}", v.cat)),
            js(&v.msg),
            js(&v.at),
            js(&v.trace),
            v.model.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect::<Vec<_>>().join(",")
        )),
        jlist(&e.unds, |s| js(s))
    );
    o
}

fn verify<'tcx>(e: &mut Eng<'tcx>, t: &Target<'tcx>) -> R<()> {
    let tcx = e.tcx;
    let args = ty::GenericArgs::identity_for_item(tcx, t.def);
    let inst = Instance::new_raw(t.def, args);
    let b = e.body(inst)?;
    let mut st = State {
        frames: vec![],
        mem: BTreeMap::new(),
        pc: vec![],
        variants: BTreeMap::new(),
        trace: vec![],
        unwinding: false,
        unwind_ok: false,
        steps: 0,
    };
    let self_ty = e.norm(t.self_ty)?;
    let fty = e.norm(b.body.args_iter().nth(1).map(|l| b.body.local_decls[l].ty).unwrap())?;
    let ret_ty = e.norm(b.body.return_ty())?;
    let x = e.res(T::In("x".into()), self_ty);
    let f = e.res(T::In("f".into()), fty);
    st.mem.insert(AllocId::Heap(0), Cell { v: V::Uninit, ty: ret_ty });
    let ret = Ret {
        dest: Some((Ptr { a: AllocId::Heap(0), path: vec![], meta: None }, ret_ty)),
        target: None,
        unwind: rustc_middle::mir::UnwindAction::Continue,
    };
    e.push_frame(&mut st, b, vec![x, f], ret)?;
    let (_, exits) = e.explore(st, None);
    let spec = Spec { a: e.norm(t.a)?, b: e.norm(t.b)?, f: T::In("f".into()), fallible: t.method.starts_with("try"), mode: t.mode };
    let mut work = exits;
    while let Some(s) = work.pop() {
        match e.check_final(&s, &spec, self_ty, &t.marker) {
            Ok(()) => e.paths_done += 1,
            Err(Stop::Split(alts)) => {
                for a in &alts {
                    if let Some(s) = e.apply_alt(&s, a) {
                        work.push(s);
                    }
                }
            }
            Err(Stop::Viol { cat, msg }) => e.record_viol(&s, cat, msg),
            Err(Stop::Und(m)) => e.record_und(&s, m),
        }
        if std::time::Instant::now() > e.deadline {
            return und("time limit");
        }
    }
    if e.paths_done == 0 && e.viols.is_empty() && e.unds.is_empty() {
        return und("no execution reaches an end");
    }
    Ok(())
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        if std::env::var("DV_LINEAR").is_ok() {
            c.override_queries = Some(|_, p| linear::install(p));
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("DV_OUT") else { return Compilation::Continue };
        let want = std::env::var("DV_CRATE").unwrap_or_else(|_| "dv_std".into());
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        if std::env::var("DV_META").is_ok() {
            std::fs::write(out, meta::run(tcx)).unwrap();
            return Compilation::Continue;
        }
        if std::env::var("DV_LINEAR").is_ok() {
            std::fs::write(out, linear::run(tcx)).unwrap();
            return Compilation::Continue;
        }
        if std::env::var("DV_EFFECTS").is_ok() {
            std::fs::write(out, effects::run(tcx)).unwrap();
            return Compilation::Continue;
        }
        let mut models = HashMap::new();
        for c in tcx.crates(()) {
            if tcx.crate_name(*c).as_str() == "dv_models" {
                for ch in tcx.module_children(c.as_def_id()) {
                    if let Some(d) = ch.res.opt_def_id() {
                        if let DefKind::Fn = tcx.def_kind(d) {
                            models.insert(ch.ident.name.to_string(), d);
                        }
                    }
                }
            }
        }
        let filter = std::env::var("DV_FILTER").ok();
        let shard: (usize, usize) = std::env::var("DV_SHARD")
            .ok()
            .and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())))
            .unwrap_or((0, 1));
        // independent functions are verified by as many processes
        let jobs: usize = std::env::var("DV_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut job = 0;
        if jobs > 1 {
            let mut pids = vec![];
            job = jobs;
            for k in 0..jobs {
                let p = unsafe { fork() };
                if p == 0 {
                    job = k;
                    break;
                }
                pids.push(p);
            }
            if job == jobs {
                let mut lines = vec![];
                let mut died = false;
                for (k, p) in pids.into_iter().enumerate() {
                    let mut st = 0;
                    unsafe { waitpid(p, &mut st, 0) };
                    died |= st != 0;
                    let f = format!("{out}.{k}");
                    if let Ok(s) = std::fs::read_to_string(&f) {
                        if !s.trim().is_empty() {
                            lines.push(s.trim().to_string());
                        }
                        let _ = std::fs::remove_file(&f);
                    }
                }
                std::fs::write(&out, format!("[{}]\n", lines.join(",\n"))).unwrap();
                if died {
                    eprintln!("dv: a verifier process died");
                    std::process::exit(3);
                }
                return Compilation::Continue;
            }
        }
        let mut lines = vec![];
        let mut n = 0;
        let ts = targets(tcx);
        let lawset = std::env::var("DV_LAWS").ok();
        if let Some(w) = &lawset {
            for l in laws::laws(tcx, &ts, w == "commute") {
                let name = match &l {
                    Ok(l) => &l.name,
                    Err((n, _)) => n,
                };
                if let Some(f) = &filter {
                    if !name.contains(f.as_str()) {
                        continue;
                    }
                }
                n += 1;
                if n % shard.1 != shard.0 || jobs > 1 && n % jobs != job {
                    continue;
                }
                let s = match l {
                    Ok(l) => run_law(tcx, &l, &models),
                    Err((n, m)) => format!(
                        "{{\"target\":{},\"method\":\"\",\"law\":\"\",\"status\":\"undecided\",\"paths\":0,\"loops\":0,\"wall_s\":0,\"obligations\":{{}},\"smt\":{{\"queries\":0,\"unsat\":0,\"time_s\":0,\"cross_checked\":0,\"cross_disagreements\":0}},\"inlined\":[],\"trusted\":[],\"violations\":[],\"undecided\":[{}]}}",
                        js(&n),
                        js(&m)
                    ),
                };
                if std::env::var("DV_VERBOSE").is_ok() {
                    eprintln!("{}", &s[..s.len().min(3000)]);
                }
                lines.push(s);
            }
        }
        for t in ts {
            if lawset.is_some() {
                break;
            }
            if let Some(f) = &filter {
                if !t.name.contains(f.as_str()) {
                    continue;
                }
            }
            n += 1;
            if n % shard.1 != shard.0 || jobs > 1 && n % jobs != job {
                continue;
            }
            let l = run_target(tcx, &t, &models);
            if std::env::var("DV_VERBOSE").is_ok() {
                eprintln!("{}", &l[..l.len().min(3000)]);
            }
            lines.push(l);
        }
        if jobs > 1 {
            std::fs::write(format!("{out}.{job}"), lines.join(",\n")).unwrap();
            unsafe { _exit(0) }
        }
        std::fs::write(out, format!("[{}]\n", lines.join(",\n"))).unwrap();
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|a| a.ends_with("rustc")).unwrap_or(false) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
