//! polymir: a rustc driver that decides algebraic obligations by abstract interpretation of MIR.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dom;
mod field;
mod interp;
mod intrin;
mod mem;
mod natives;

use interp::*;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir;
use rustc_middle::ty::{self, Instance, TyCtxt};
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct CheckResult {
    pub ob: String,
    pub label: String,
    pub ok: bool,
    pub detail: String,
    pub loc: String,
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cb {
    modules: Vec<String>,
    out: String,
    seed: u64,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Stop;
        }
        let txt = analyse(tcx, &self.modules, self.seed, &self.out);
        std::fs::write(&self.out, txt).expect("cannot write the result");
        Compilation::Stop
    }
}

fn analyse(tcx: TyCtxt<'_>, modules: &[String], seed: u64, out: &str) -> String {
    let mut it = Interp::new(tcx, seed);
    it.trace = std::env::var("POLYMIR_TRACE").is_ok();
    if let Ok(m) = std::env::var("POLYMIR_CONFIG") {
        for kv in m.split(',') {
            if let Some((k, v)) = kv.split_once('=') {
                it.config.insert(k.into(), v.into());
            }
        }
    }
    let only = std::env::var("POLYMIR_ONLY").ok();
    let mut obs = vec![];
    let mut warm = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        if !matches!(tcx.def_kind(d), DefKind::Fn) {
            continue;
        }
        let p = it.local_path(d);
        if p.starts_with("models::") {
            it.models.insert(p, d);
            continue;
        }
        let Some((m, f)) = p.split_once("::") else { continue };
        if f.contains("::") || !modules.iter().any(|x| x == m) {
            continue;
        }
        if tcx.generics_of(d).own_counts().types + tcx.generics_of(d).own_counts().consts > 0 || !tcx.visibility(d).is_public() {
            continue;
        }
        if !tcx.fn_sig(d).skip_binder().inputs().skip_binder().is_empty() {
            continue;
        }
        if f == "warm" {
            warm.push((p, d));
            continue;
        }
        if let Some(o) = &only {
            if !p.contains(o.as_str()) {
                continue;
            }
        }
        obs.push((p, d));
    }
    obs.sort_by(|a, b| a.0.cmp(&b.0));
    let limit = std::time::Duration::from_secs(std::env::var("POLYMIR_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(780));
    let start = std::time::Instant::now();
    it.deadline = Some(start + limit);
    // nothing may keep the check from answering, not even what runs before the workers
    std::thread::spawn(move || {
        std::thread::sleep(limit + std::time::Duration::from_secs(40));
        eprintln!("error: the analysis did not end in time");
        std::process::exit(1);
    });
    let unit = tcx.types.unit;
    for (_, d) in &warm {
        it.reset();
        it.cur_ob = "warm".into();
        let inst = Instance::new_raw(*d, ty::List::empty());
        let t = it.tmp(0);
        let _ = it.call(inst, &[], t, unit, false);
        it.mined = mine(&mut it);
    }
    it.results.clear();
    it.repo_fns.clear();
    let base = it.config.clone();
    let jobs: usize = std::env::var("POLYMIR_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8).min(obs.len().max(1));
    // Every obligation is independent of the others: forked workers take them from a shared counter.
    let part = |w: usize| format!("{out}.part{w}");
    let next = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        assert!(!p.is_null() && p as isize != -1, "mmap");
        &*(p as *const std::sync::atomic::AtomicUsize)
    };
    let mut pids = vec![];
    for w in 0..jobs {
        let _ = std::fs::remove_file(part(w));
        let pid = unsafe { fork() };
        assert!(pid >= 0, "fork");
        if pid > 0 {
            pids.push(pid);
            continue;
        }
        let mut f = std::fs::File::create(part(w)).expect("part file");
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if i >= obs.len() {
                break;
            }
            it.config = base.clone();
            let line = one(&mut it, &obs[i].0, obs[i].1);
            use std::io::Write as _;
            f.write_all(format!("{i}\t{line}\n").as_bytes()).expect("part file");
        }
        drop(f);
        unsafe { _exit(0) }
    }
    // a worker that is inside one long operation at the deadline does not look at it: it is ended, its obligation is undecided
    while !pids.is_empty() {
        let mut st = 0i32;
        pids.retain(|p| unsafe { waitpid(*p, &mut st, 1) } == 0);
        if std::time::Instant::now() > start + limit + std::time::Duration::from_secs(15) {
            for p in &pids {
                unsafe { kill(*p, 9) };
                unsafe { waitpid(*p, &mut st, 0) };
            }
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    let mut lines: Vec<Option<String>> = vec![None; obs.len()];
    for w in 0..jobs {
        for l in std::fs::read_to_string(part(w)).unwrap_or_default().lines() {
            if let Some((i, x)) = l.split_once('\t') {
                if let Ok(i) = i.parse::<usize>() {
                    if x.ends_with('}') {
                        lines[i] = Some(x.to_string());
                    }
                }
            }
        }
        let _ = std::fs::remove_file(part(w));
    }
    let mut o = String::from("{\n\"obligations\": [\n");
    let mut first = true;
    for (i, (p, _)) in obs.iter().enumerate() {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        match &lines[i] {
            Some(x) => o.push_str(x),
            None => {
                let _ = write!(o, "{{\"name\": {}, \"steps\": 0, \"calls\": 0, \"joins\": 0, \"ms\": 0, \"polys\": 0, \"equalities\": 0, \"by_pit\": 0, \"notes\": [], \"functions\": [], \"statics\": [], \"results\": [{{\"label\": \"decided\", \"ok\": false, \"detail\": \"undecided: the analysis of this obligation did not finish\", \"loc\": \"\"}}]}}", js(p));
            }
        }
    }
    let _ = write!(o, "\n],\n\"mined\": {:?}\n}}\n", it.mined);
    o
}

extern "C" {
    fn fork() -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// analyse one obligation, as one line of JSON
fn one<'tcx>(it: &mut Interp<'tcx>, p: &str, d: rustc_hir::def_id::DefId) -> String {
    let tcx = it.tcx;
    let unit = tcx.types.unit;
    it.reset();
    it.cur_ob = p.to_string();
    it.results.clear();
    it.repo_fns.clear();
    it.calls = 0;
    it.joins = 0;
    let (e0, p0) = (it.dom.eq_checks, it.dom.pit_used);
    let t0 = std::time::Instant::now();
    let inst = Instance::new_raw(d, ty::List::empty());
    let t = it.tmp(0);
    let r = it.call(inst, &[], t, unit, false);
    let mut res = std::mem::take(&mut it.results);
    match r {
        Ok(Flow::Return) => {}
        Ok(Flow::Panic(m)) => res.push(CheckResult { ob: p.into(), label: "returns".into(), ok: false, detail: format!("panics: {m}"), loc: m.clone() }),
        Err(u) => res.push(CheckResult { ob: p.into(), label: "decided".into(), ok: false, detail: format!("undecided: {}", u.0), loc: it.err_loc.clone().unwrap_or_default() }),
    }
    let mut seen = BTreeSet::new();
    for e in it.events.clone() {
        if seen.insert(format!("{}{}{}", e.kind, e.text, e.loc)) {
            res.push(CheckResult { ob: p.into(), label: e.kind.into(), ok: false, detail: e.text.clone(), loc: e.loc.clone() });
        }
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\"name\": {}, \"steps\": {}, \"calls\": {}, \"joins\": {}, \"ms\": {}, \"polys\": {}, \"equalities\": {}, \"by_pit\": {}, \"notes\": [",
        js(p),
        it.steps,
        it.calls,
        it.joins,
        t0.elapsed().as_millis(),
        it.dom.polys.len(),
        it.dom.eq_checks - e0,
        it.dom.pit_used - p0
    );
    o.push_str(&it.notes.iter().map(|n| js(n)).collect::<Vec<_>>().join(", "));
    o.push_str("], \"functions\": [");
    o.push_str(&it.repo_fns.keys().map(|n| js(n)).collect::<Vec<_>>().join(", "));
    o.push_str("], \"statics\": [");
    o.push_str(&it.all_static_names().iter().map(|n| js(n)).collect::<Vec<_>>().join(", "));
    o.push_str("], \"results\": [");
    o.push_str(
        &res.iter()
            .map(|c| format!("{{\"label\": {}, \"ok\": {}, \"detail\": {}, \"loc\": {}}}", js(&c.label), c.ok, js(&c.detail), js(&c.loc)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    o.push_str("]}");
    o
}

/// small integer constants occurring in the repository functions seen so far
fn mine(it: &mut Interp<'_>) -> Vec<u64> {
    let mut s: BTreeSet<u64> = BTreeSet::new();
    let tcx = it.tcx;
    let te = it.te;
    for b in it.repo_bodies() {
        struct V<'tcx> {
            tcx: TyCtxt<'tcx>,
            te: ty::TypingEnv<'tcx>,
            out: BTreeSet<u64>,
            wide: bool,
        }
        impl<'tcx> mir::visit::Visitor<'tcx> for V<'tcx> {
            fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
                if c.const_.ty().is_integral() {
                    if let Some(i) = c.const_.try_eval_scalar_int(self.tcx, self.te) {
                        let x = i.to_bits_unchecked();
                        if x < 1 << 17 {
                            self.out.insert(x as u64);
                        }
                    }
                }
            }
            // a value of a narrow integer type: lengths around its limits
            fn visit_local_decl(&mut self, _: mir::Local, d: &mir::LocalDecl<'tcx>) {
                let mut walk = d.ty.walk();
                while let Some(t) = walk.next() {
                    if let Some(t) = t.as_type() {
                        if matches!(t.kind(), ty::Closure(..) | ty::FnDef(..) | ty::FnPtr(..) | ty::Dynamic(..)) {
                            walk.skip_current_subtree();
                            continue;
                        }
                        let w = match t.kind() {
                            ty::Uint(ty::UintTy::U8) => 8,
                            ty::Int(ty::IntTy::I8) => 7,
                            ty::Uint(ty::UintTy::U16) => 16,
                            ty::Int(ty::IntTy::I16) => 15,
                            _ => continue,
                        };
                        if w >= 15 {
                            self.wide = true;
                        } else {
                            self.out.extend([1u64 << w, 2u64 << w, (2u64 << w) + 3]);
                        }
                    }
                }
            }
            fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, l: mir::Location) {
                if let mir::TerminatorKind::SwitchInt { targets, .. } = &t.kind {
                    for (x, _) in targets.iter() {
                        if x < 1 << 17 {
                            self.out.insert(x as u64);
                        }
                    }
                }
                self.super_terminator(t, l);
            }
        }
        let mut v = V { tcx, te, out: BTreeSet::new(), wide: false };
        mir::visit::Visitor::visit_body(&mut v, b);
        s.extend(v.out);
        if v.wide {
            it.config.insert("narrow16".into(), "1".into());
        }
    }
    s.into_iter().collect()
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: polymir rustc <args>
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    let target = std::env::var("POLYMIR_CRATE").unwrap_or_else(|_| "obligations".into());
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == target);
    if is_target {
        if let Ok(m) = std::env::var("POLYMIR_MODULES") {
            let out = std::env::var("POLYMIR_OUT").expect("POLYMIR_OUT");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut cb = Cb { modules: m.split(',').map(|x| x.to_string()).collect(), out, seed };
            let code = rustc_driver::catch_with_exit_code(|| {
                rustc_driver::compiler_entrypoint(&args, &mut cb);
                std::process::ExitCode::SUCCESS
            });
            std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
        }
    }
    struct Plain;
    impl Callbacks for Plain {}
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
        std::process::ExitCode::SUCCESS
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
