//! mlxsa: whole-program value-numbering abstract interpreter over rustc's MIR.
//!
//! Used in two ways:
//! * as `RUSTC_WRAPPER`: compiles exactly like rustc; for the specification crate `roots` it
//!   also records the command line in `$MLXSA_ARGS`.
//! * `mlxsa --analyze root1,root2 OUT.json -- <recorded rustc arguments>`: type-checks the
//!   specification crate and analyses the named entry points.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod interp;
mod intr;
mod machine;
mod merge;
mod state;
mod val;

use machine::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{Instance, TyCtxt};
use std::fmt::Write;

struct Plain;
impl Callbacks for Plain {}

struct Analyze {
    roots: Vec<String>,
    out: String,
}
fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
impl Callbacks for Analyze {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut res = vec![];
        for r in self.roots.clone() {
            res.push(if r.starts_with('@') { types(tcx, &r) } else { analyze(tcx, &r) });
        }
        std::fs::write(&self.out, format!("[{}]\n", res.join(",\n"))).expect("write result");
        Compilation::Stop
    }
}
/// Everything of the library that a program using it can name.
fn nameable<'tcx>(tcx: TyCtxt<'tcx>, krate: DefId) -> std::collections::HashSet<DefId> {
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![krate];
    while let Some(m) = todo.pop() {
        for c in tcx.module_children(m) {
            if !c.vis.is_public() {
                continue;
            }
            if let Some(d) = c.res.opt_def_id() {
                if seen.insert(d) && d.krate == krate.krate && matches!(tcx.def_kind(d), DefKind::Mod | DefKind::Enum | DefKind::Trait) {
                    todo.push(d);
                }
            }
        }
    }
    seen
}
/// Rules decided on the library's items alone.
fn types<'tcx>(tcx: TyCtxt<'tcx>, root: &str) -> String {
    let krate = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "mlx9064x");
    let mut groups = vec![];
    let mut rule = |what: &str, span: String, bad: Option<String>| {
        groups.push(format!(
            "{{\"what\":{},\"span\":{},\"total\":1,\"bad\":{},\"first\":{}}}",
            js(what),
            js(&span),
            bad.is_some() as u32,
            list(bad.iter().map(|b| format!("[0,{}]", js(b))))
        ));
    };
    let mut err = String::new();
    match krate {
        None => err = "the library is not among the crates loaded".into(),
        Some(k) => {
            let names = nameable(tcx, k.as_def_id());
            let camera = names.iter().copied().find(|d| tcx.def_kind(*d) == DefKind::Trait && tcx.item_name(*d).as_str() == "MelexisCamera");
            match camera {
                None => err = "the library has no public trait MelexisCamera".into(),
                Some(t) => {
                    // a supertrait that other crates cannot name, implemented for the library's own types only
                    let mut why = vec![];
                    let mut sealed = false;
                    for s in rustc_middle::ty::elaborate::supertrait_def_ids(tcx, t) {
                        if s.krate != k || s == t {
                            continue;
                        }
                        let n = tcx.def_path_str(s);
                        if names.contains(&s) {
                            why.push(format!("its supertrait {n} can be implemented by every crate"));
                            continue;
                        }
                        let open: Vec<_> = tcx.all_impls(s).filter(|i| !matches!(tcx.type_of(*i).instantiate_identity().skip_norm_wip().kind(), rustc_middle::ty::Adt(a, _) if a.did().krate == k)).collect();
                        if let Some(i) = open.first() {
                            why.push(format!("its supertrait {n} is implemented for {}", tcx.type_of(*i).instantiate_identity().skip_norm_wip()));
                            continue;
                        }
                        sealed = true;
                    }
                    if why.is_empty() {
                        why.push("it has no supertrait of the library's own".into());
                    }
                    let span = tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(t));
                    rule("S04 other crates cannot implement the camera trait", span, if sealed { None } else { Some(why.join("; ")) });
                }
            }
        }
    }
    format!(
        "{{\"root\":{},\"error\":{},\"trail\":[],\"ends\":1,\"done\":1,\"obligations\":1,\"groups\":{},\"covers\":[],\"panics\":[],\"stats\":{{\"statements\":0,\"forks\":0,\"joins\":0,\"assertions\":0,\"calls\":0,\"functions\":0,\"blocks\":0,\"lib_blocks\":0,\"atoms\":0,\"values\":0,\"ms\":0}},\"lib_functions\":[]}}",
        js(root),
        js(&err),
        list(groups)
    )
}
fn analyze<'tcx>(tcx: TyCtxt<'tcx>, root: &str) -> String {
    let t0 = std::time::Instant::now();
    let mut found = None;
    for d in tcx.hir_body_owners() {
        if tcx.opt_item_name(d.to_def_id()).map(|n| n.as_str() == root).unwrap_or(false) {
            found = Some(d.to_def_id());
        }
    }
    let mut m = Machine::new(tcx);
    let mut err = String::new();
    let mut ends = 0;
    match found {
        None => err = format!("no entry point {root}"),
        Some(d) => {
            let i = Instance::mono(tcx, d);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.call_inst(state::State::new(), i, vec![], None)));
            match r {
                Ok(Ok(v)) => ends = v.len(),
                Ok(Err(e)) => err = e,
                Err(_) => err = "internal error in the analyser".into(),
            }
        }
    }
    let mut fns = std::collections::BTreeMap::new();
    let (mut blocks, mut lib_blocks) = (0u64, 0u64);
    for f in m.funcs.values() {
        let n = f.visited.borrow().iter().filter(|x| **x).count() as u64;
        if n > 0 {
            blocks += n;
            if f.krate == "mlx9064x" {
                lib_blocks += n;
                *fns.entry(f.name.clone()).or_insert(0u64) += n;
            }
        }
    }
    let total: u64 = m.obls.values().map(|o| o.total).sum::<u64>() + m.covers.len() as u64;
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"root\":{},\"error\":{},\"trail\":{},\"ends\":{ends},\"done\":{},\"obligations\":{},\"groups\":{},\"covers\":{},\"panics\":{},\"stats\":{{\"statements\":{},\"forks\":{},\"joins\":{},\"assertions\":{},\"calls\":{},\"functions\":{},\"blocks\":{},\"lib_blocks\":{},\"atoms\":{},\"values\":{},\"ms\":{}}},\"lib_functions\":{}}}",
        js(root),
        js(&err),
        list(m.notes.iter().map(|n| js(n))),
        m.done,
        total,
        list(m.obls.iter().map(|((w, sp), o)| format!(
            "{{\"what\":{},\"span\":{},\"total\":{},\"bad\":{},\"first\":{}}}",
            js(w),
            js(sp),
            o.total,
            o.bad,
            list(o.first.iter().map(|(i, d)| format!("[{i},{}]", js(&d.chars().take(4000).collect::<String>()))))
        ))),
        list(m.covers.iter().map(|((w, i), ok)| format!("{{\"what\":{},\"idx\":{i},\"ok\":{ok}}}", js(w)))),
        list(m.panics.iter().map(|(p, n)| format!(
            "{{\"what\":{},\"at\":{},\"span\":{},\"stack\":{},\"n\":{n}}}",
            js(&p.what),
            js(&p.at),
            js(&p.span),
            list(p.stack.iter().map(|x| js(x)))
        ))),
        m.stats.stmts,
        m.stats.forks,
        m.stats.joins,
        m.stats.asserts,
        m.stats.calls.len(),
        m.funcs.len(),
        blocks,
        lib_blocks,
        m.vs.atoms.len(),
        m.vs.nodes.len(),
        t0.elapsed().as_millis(),
        list(fns.keys().map(|k| js(k))),
    );
    s
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s == "--analyze").unwrap_or(false) {
        let roots = args[2].split(',').map(|s| s.to_string()).collect();
        let out = args[3].clone();
        let rest: Vec<String> = args[5..].to_vec();
        unsafe { std::env::set_var("RUST_MIN_STACK", (4usize << 30).to_string()) };
        let r = rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&rest, &mut Analyze { roots, out }));
        std::process::exit(if r.is_ok() { 0 } else { 3 });
    }
    // RUSTC_WRAPPER: argv[1] is the real rustc
    let rest: Vec<String> = args[1..].to_vec();
    if rest.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "roots") {
        if let Ok(p) = std::env::var("MLXSA_ARGS") {
            std::fs::write(p, rest.join("\n")).expect("write arguments");
        }
    }
    rustc_driver::catch_fatal_errors(|| rustc_driver::compiler_entrypoint(&rest, &mut Plain)).unwrap_or_else(|_| std::process::exit(1));
}
