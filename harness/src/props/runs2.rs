//! Faults, totality, reuse, adapters, equivalent formulations and convergence: runs compared with runs.
use super::runs::classes;
use crate::engine::*;
use crate::fser;
use crate::fser::*;
use crate::model::*;
use crate::oracle::*;
use crate::sys::*;
use nalgebra::{DMatrix, DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::{IterativeParams, IterativeParamsFD, Iteratives};
use nrf::model::*;
use nrf::residuals::ResidualsConfig;
use nrf::solver::RootFinder;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

/// the event without the error it reported
fn bare(e: &Ev) -> Ev {
    match e {
        Ev::Eval { x, l, r, mem, .. } => Ev::Eval { x: x.clone(), l: l.clone(), r: r.clone(), mem: mem.clone(), hit: None },
        Ev::Jac { x, l, r, .. } => Ev::Jac { x: x.clone(), l: l.clone(), r: r.clone(), hit: None },
        e => e.clone(),
    }
}
pub fn same_ev(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Set(x), Ev::Set(y)) | (Ev::SetMem(x), Ev::SetMem(y)) => same_vec(x, y),
        (Ev::GetMem, Ev::GetMem) => true,
        (Ev::Eval { x, l, r, mem, hit }, Ev::Eval { x: x2, l: l2, r: r2, mem: m2, hit: h2 }) => {
            same_vec(x, x2) && same_vec(l, l2) && same_vec(r, r2) && same_vec(mem, m2) && hit == h2
        }
        (Ev::Jac { x, l, r, hit }, Ev::Jac { x: x2, l: l2, r: r2, hit: h2 }) => same_vec(x, x2) && same_vec(l, l2) && same_vec(r, r2) && hit == h2,
        _ => false,
    }
}
/// index of the first difference
pub fn differ(a: &[Ev], b: &[Ev]) -> Option<usize> {
    (0..a.len().max(b.len())).find(|&i| i >= a.len() || i >= b.len() || !same_ev(&a[i], &b[i]))
}
pub fn calls(out: &RunOut) -> Vec<Ev> {
    out.evs.iter().filter(|e| !matches!(e, Ev::GetMem)).cloned().collect()
}
pub fn show(e: Option<&Ev>) -> String {
    match e {
        None => "nothing".into(),
        Some(e) => format!("{:?}", e),
    }
}

// ------------------------------------------------------------------------------------- C13
fn gen_c13(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want {
            flavors: &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Affine, Flavor::Nasty],
            faults: 7,
            analytic: 3,
            damping: 5,
            norms: 2,
            limits: 2,
            ..Want::any()
        },
    );
    if c.faults.is_empty() {
        c.faults.push(Fault { jac: false, at: u.below(12), unusable: false, style: 0 });
    }
    if u.chance(1, 4) {
        // every evaluation from some point on
        let from = u.below(8);
        let many = if u.chance(1, 8) { 400 } else { 40 };
        for at in from..from + many {
            if !c.faults.iter().any(|f| !f.jac && f.at == at) {
                c.faults.push(Fault { jac: false, at, unusable: false, style: 0 });
            }
        }
    }
    if u.chance(1, 6) {
        c.sys.mem = 2;
        c.sys.mu = 0.01;
    }
    if u.chance(1, 3) {
        c.tol = u.logf(1e-6, 1e-1);
    }
    c
}
fn check_c13(c: &RunCase) -> Verdict {
    let clean_case = RunCase { faults: vec![], ..c.clone() };
    let clean = run(&clean_case);
    let out = run(c);
    if let Some(b) = out.broken() {
        return Verdict::fail(b);
    }
    if clean.broken().is_some() {
        return Verdict::default();
    }
    let f = follow(&clean_case, &clean);
    let hits = out.evs.iter().filter(|e| matches!(e, Ev::Eval { hit: Some(_), .. } | Ev::Jac { hit: Some(_), .. })).count();
    let mut v = Verdict::ok(hits > 0 && f.iters > 0);
    v.classes = classes(&clean_case, &out, &f);
    for (k, e) in out.evs.iter().filter(|e| matches!(e, Ev::Eval { .. })).enumerate() {
        if let Ev::Eval { hit: Some(_), .. } = e {
            v.classes.push(match f.phases.get(k) {
                Some(Phase::Init) => "inaccurate at the guess",
                Some(Phase::Fd) => "inaccurate column",
                Some(Phase::Prop) => "inaccurate step",
                Some(Phase::Damp) => "inaccurate damped step",
                _ => "inaccurate elsewhere",
            });
        }
    }
    v.classes.sort();
    v.classes.dedup();
    let a: Vec<Ev> = calls(&out).iter().map(bare).collect();
    let b = calls(&clean);
    let jac_hit = calls(&out).iter().position(|e| matches!(e, Ev::Jac { hit: Some(_), .. }));
    if let Some(k) = jac_hit {
        v.classes.push("inaccurate analytic jacobian");
        if a.len() != k + 1 {
            v.fail = Some(format!("after the inaccurate Jacobian the model still receives {:?}", a[k + 1]));
        } else if differ(&a, &b[..(k + 1).min(b.len())]).is_some() {
            v.fail = Some("inaccurate evaluations change the points visited before the inaccurate Jacobian".into());
        } else if let Ev::Jac { hit: Some((_, id)), .. } = &calls(&out)[k] {
            if out.outcome != Outcome::JacModel(false, *id) {
                v.fail = Some(format!("an inaccurate analytic Jacobian gives {:?}", out.outcome));
            } else if !out.text.contains(&Inacc(*id).to_string()) {
                v.fail = Some(format!("the error {:?} does not contain the text of the model's error", out.text));
            }
        }
        return v;
    }
    if let Some(k) = differ(&a, &b) {
        v.fail = Some(format!("inaccurate evaluations change the run: call {} is {} instead of {}", k, show(a.get(k)), show(b.get(k))));
        return v;
    }
    let last_hit = out.evs.iter().rev().find_map(|e| match e {
        Ev::Eval { hit, .. } => Some(hit.is_some()),
        _ => None,
    });
    let want = match &clean.outcome {
        Outcome::Ok if last_hit == Some(true) => Outcome::Final,
        o => o.clone(),
    };
    if out.outcome != want {
        v.fail = Some(format!("the result is {:?} instead of {:?} (last evaluation inaccurate: {:?})", out.outcome, want, last_hit));
    }
    v
}

// ------------------------------------------------------------------------------------- C14
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FailCase {
    run: RunCase,
    /// the failure happens at this call, modulo the number of calls
    pos: usize,
    jac: bool,
    /// 0: failure of the model, 1: zero row, 2: zero column in the Jacobian
    kind: u8,
    idx: usize,
    /// the failing Jacobian is reported inaccurate instead of unusable
    #[serde(default)]
    soft: bool,
    #[serde(default)]
    style: u8,
}
fn gen_c14(u: &mut Src) -> FailCase {
    let kind = if u.chance(1, 6) { 1 + u.below(2) as u8 } else { 0 };
    let pos = if u.chance(1, 8) { 0 } else { u.below(60) };
    let jac = u.chance(1, 2);
    let idx = u.below(6);
    let mut run = gen_run(
        u,
        &Want {
            flavors: &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Affine],
            faults: if kind == 0 { 1 } else { 0 },
            damping: 5,
            analytic: 3,
            limits: 1,
            norms: 2,
            max_iter: 8,
            ..Want::any()
        },
    );
    if kind > 0 {
        let i = idx % run.sys.n;
        if kind == 1 {
            run.sys.left[i] = vec![Term::new(2.0 + u.f(0.0, 3.0), Kind::Const, 0, 0)];
            run.sys.right[i] = vec![];
        } else {
            for m in run.sys.left.iter_mut().chain(run.sys.right.iter_mut()) {
                m.retain(|t| t.i != i && t.j != i || t.k == Kind::Const);
                m.push(Term::new(1.0, Kind::Const, 0, 0));
            }
            run.sys.left[i].push(Term::new(2.0, Kind::Const, 0, 0));
        }
    }
    let soft = u.chance(1, 3);
    FailCase { run, pos, jac, kind, idx, soft, style: if u.chance(1, 3) { u.below(6) as u8 } else { 0 } }
}
fn check_c14(c: &FailCase) -> Verdict {
    if c.kind > 0 {
        return check_singular(c);
    }
    let base = &c.run;
    let clean = run(base);
    if clean.broken().is_some() {
        return Verdict::fail(clean.broken().unwrap());
    }
    let f = follow(base, &clean);
    let jacs = clean.evs.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    let evals = clean.evals().len();
    if evals == 0 {
        return Verdict::fail("the model was never evaluated");
    }
    let jac = c.jac && jacs > 0;
    let at = c.pos % if jac { jacs } else { evals };
    let mut faulty = base.clone();
    faulty.faults.retain(|g| !(g.jac == jac && g.at == at));
    let hard = !(jac && c.soft);
    let fault = Fault { jac, at, unusable: hard, style: c.style };
    let id = payload(&fault);
    faulty.faults.push(fault);
    let out = run(&faulty);
    let mut v = Verdict::ok(true);
    if let Some(b) = out.broken() {
        v.fail = Some(b);
        return v;
    }
    let phase = if jac { None } else { Some(f.phases.get(at).copied().unwrap_or(Phase::Unknown)) };
    v.classes = vec![match phase {
        None if !hard => "inaccurate jacobian",
        None => "unusable jacobian",
        Some(Phase::Init) => "unusable guess",
        Some(Phase::Fd) => "unusable column",
        Some(Phase::Prop) => "unusable step",
        Some(Phase::Damp) => "unusable damped step",
        Some(Phase::Unknown) => "unusable evaluation of unknown phase",
    }];
    let a = calls(&out);
    let b = calls(&clean);
    let Some(k) = a.iter().position(|e| matches!(e, Ev::Eval { hit: Some((true, _)), .. } | Ev::Jac { hit: Some(_), .. })) else {
        v.fail = Some("the failing call is no longer made".into());
        return v;
    };
    let upto = |v: &[Ev]| -> Vec<Ev> { v.iter().take(k + 1).map(bare).collect() };
    if let Some(d) = differ(&upto(&a), &upto(&b)) {
        v.fail = Some(format!("before the failure, call {} is {} instead of {}", d, show(a.get(d)), show(b.get(d))));
        return v;
    }
    let text = if hard { Unus(id).to_string() } else { Inacc(id).to_string() };
    let after: Vec<&Ev> = a[k + 1..].iter().filter(|e| matches!(e, Ev::Eval { .. } | Ev::Jac { .. })).collect();
    let fatal_ok = |o: &Outcome| -> bool {
        match phase {
            None | Some(Phase::Fd) => *o == Outcome::JacModel(hard, id),
            Some(Phase::Init) => matches!(o, Outcome::InitEval(s) if s.contains(&text)),
            Some(Phase::Prop) | Some(Phase::Damp) => *o == Outcome::ModelEval(true, id),
            Some(Phase::Unknown) => *o == Outcome::ModelEval(true, id) || *o == Outcome::JacModel(true, id),
        }
    };
    if fatal_ok(&out.outcome) {
        if !after.is_empty() {
            v.fail = Some(format!("the fatal failure is followed by {:?}", after[0]));
        } else if !out.text.contains(&text) {
            v.fail = Some(format!("the error reads {:?}, without the model's text {:?}", out.text, text));
        }
    } else if matches!(phase, Some(Phase::Prop) | Some(Phase::Damp) | Some(Phase::Unknown)) && !matches!(out.outcome, Outcome::InitEval(_) | Outcome::ModelEval(..) | Outcome::JacModel(..)) {
        // recovered: something else has to be evaluated, and not what would follow from the unusable values
        v.classes.push("recovered");
        let next_clean: Option<&Ev> = b[k + 1..].iter().find(|e| matches!(e, Ev::Eval { .. } | Ev::Jac { .. }));
        if after.is_empty() {
            v.fail = Some(format!("{:?} although the last evaluation was unusable", out.outcome));
        } else if let Some(n) = next_clean {
            if same_ev(&bare(n), &bare(after[0])) {
                v.fail = Some("the run goes on with the unusable values".into());
            }
        } else {
            v.fail = Some("the run goes on after an unusable evaluation that ends the fault-free run".into());
        }
    } else {
        v.fail = Some(format!("{} {:?} gives {:?} (phase {:?})", if jac { "unusable Jacobian" } else { "unusable evaluation" }, at, out.outcome, phase));
    }
    v
}
fn check_singular(c: &FailCase) -> Verdict {
    let r = &c.run;
    let out = run(r);
    let n = r.sys.n;
    if let Some(b) = out.broken() {
        return Verdict::fail(b);
    }
    let (l, rr) = (r.sys.left(&r.x0), r.sys.right(&r.x0));
    let err = max_error(&l, &rr, &r.stop);
    let mut v = Verdict::ok(true);
    if err <= r.tol * 1.001 || r.max_iter == 0 {
        v.nontrivial = false;
        return v;
    }
    let (dl, dr) = (r.sys.dleft(&r.x0), r.sys.dright(&r.x0));
    let jac: Mat = (0..n).map(|i| (0..n).map(|j| dnormalize(l[i], rr[i], dl[i][j], dr[i][j], r.upd[i])).collect()).collect();
    if !jac.iter().flatten().all(|x| x.abs() < 1e30) {
        v.nontrivial = false;
        return v;
    }
    v.classes = vec![if c.kind == 1 { "zero row in the jacobian" } else { "zero column in the jacobian" }];
    let (evals, jacs) = (out.evals().len(), out.evs.iter().filter(|e| matches!(e, Ev::Jac { .. })).count());
    if out.outcome != Outcome::JacInv {
        v.fail = Some(format!("the Jacobian {:?} is singular and the result is {:?}", jac, out.outcome));
    } else if evals != 1 + if r.analytic { 0 } else { n } || jacs != usize::from(r.analytic) {
        v.fail = Some(format!("singular Jacobian at the guess: {} evaluations and {} Jacobian calls", evals, jacs));
    } else if out.text.is_empty() {
        v.fail = Some("error without text".into());
    }
    v
}

// ------------------------------------------------------------------------------------- C15
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WildCase {
    run: RunCase,
    log: bool,
}
fn wild_pos(u: &mut Src) -> f64 {
    let v = u.wild().abs();
    if v > 0.0 {
        v
    } else {
        f64::INFINITY
    }
}
fn gen_c15(u: &mut Src) -> WildCase {
    let log = u.chance(1, 40);
    let mut c = gen_run(
        u,
        &Want {
            flavors: &[Flavor::Nasty, Flavor::Nasty, Flavor::Wobbly, Flavor::Smooth],
            faults: 3,
            unusable: true,
            norms: 4,
            damping: 5,
            limits: 4,
            max_n: 6,
            max_iter: 12,
            ..Want::any()
        },
    );
    if u.chance(1, 4) {
        for x in c.x0.iter_mut() {
            *x = u.wild();
        }
    }
    if u.chance(1, 4) {
        for p in c.iters.iter_mut() {
            p.max_step_abs = wild_pos(u);
            p.max_step_rel = wild_pos(u);
            let (a, b) = (u.wild(), u.wild());
            if a < b {
                p.min = a;
                p.max = b;
            }
            p.dx_abs = wild_pos(u);
            p.dx_rel = wild_pos(u);
        }
    }
    if u.chance(1, 6) {
        c.tol = u.wild();
    }
    if u.chance(1, 5) {
        for m in c.sys.left.iter_mut().chain(c.sys.right.iter_mut()) {
            for t in m.iter_mut() {
                if u.chance(1, 4) {
                    t.c = u.wild();
                }
            }
        }
    }
    if u.chance(1, 10) {
        c.sys.mem = 2;
        c.sys.mu = u.wild();
    }
    if u.chance(1, 10) {
        for s in c.sys.scale.iter_mut() {
            *s = u.wild();
        }
    }
    WildCase { run: c, log }
}
/// A path as a user may name a file
pub fn scratch_named(tag: &str, style: usize) -> String {
    let path = scratch(tag);
    let stem = &path[..path.len() - 4];
    match style {
        1 => format!("{}.log", stem),
        2 => stem.to_string(),
        3 => format!("{} of (today) λ.TXT", stem),
        4 => format!("{}.d.txt.bak", stem),
        5 => format!("{}{}.txt", stem, "-long".repeat(35)),
        6 => {
            // in a folder of its own, reached by a detour
            let (dir, name) = path.rsplit_once('/').unwrap();
            let _ = std::fs::create_dir_all(format!("{}/sub.dir", dir));
            format!("{}/./sub.dir/../sub.dir/{}", dir, name)
        }
        _ => path,
    }
}
/// The style of the names of a run: most often the plain one
pub fn naming(c: &RunCase) -> usize {
    let h = c.x0.iter().fold(c.max_iter as u64, |a, x| a.wrapping_mul(31).wrapping_add(x.to_bits() >> 7).wrapping_mul(0x9E3779B97F4A7C15));
    ((h >> 40) % 24) as usize
}
pub fn scratch(tag: &str) -> String {
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    let dir = std::env::temp_dir().join(format!("nrfcheck-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    dir.join(format!("{}-{}.txt", tag, id)).to_string_lossy().into_owned()
}
pub fn remove_scratch() {
    let dir = std::env::temp_dir().join(format!("nrfcheck-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(dir);
}
fn check_c15(w: &WildCase) -> Verdict {
    let c = &w.run;
    let o = RunOpts { log: if w.log { Some(scratch("wild")) } else { None }, ..Default::default() };
    let out = run_opts(c, &o);
    if let Some(p) = &o.log {
        let _ = std::fs::remove_file(p);
    }
    let evals = out.evals().len();
    let jacs = out.evs.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
    let odd = out.evs.iter().any(|e| match e {
        Ev::Eval { x, l, r, .. } => x.iter().chain(l).chain(r).any(|v| !v.is_finite() || v.abs() > 1e100 || (*v != 0.0 && v.abs() < 1e-100)),
        _ => false,
    });
    let mut v = Verdict::ok(odd || out.evs.iter().any(|e| matches!(e, Ev::Eval { hit: Some(_), .. })));
    v.classes.push(match &out.outcome {
        Outcome::Ok => "result: Ok",
        Outcome::NonConv => "result: NonConvergence",
        Outcome::InitEval(_) => "result: initial evaluation",
        Outcome::ModelEval(..) => "result: model evaluation",
        Outcome::JacModel(..) => "result: jacobian evaluation",
        Outcome::JacInv => "result: jacobian not invertible",
        Outcome::Final => "result: final evaluation",
        _ => "result: panic",
    });
    if w.log {
        v.classes.push("with log");
    }
    v.fail = out.broken();
    let n = c.sys.n;
    let budget = 1 + c.max_iter * (if c.damping { 2 } else { 1 } + if c.analytic { 0 } else { n });
    if v.fail.is_none() && (evals > budget || jacs > c.max_iter) {
        v.fail = Some(format!("{} evaluations and {} Jacobian calls for at most {} iterations of size {}", evals, jacs, c.max_iter, n));
    }
    v
}

// ------------------------------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase {
    pub base: RunCase,
    pub items: Vec<SeqItem>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqItem {
    pub sys: Sys,
    pub faults: Vec<Fault>,
    pub analytic: bool,
    #[serde(with = "fser::many")]
    pub stale: Vec<f64>,
}
pub fn gen_c23(u: &mut Src) -> SeqCase {
    let mut base = gen_run(
        u,
        &Want { flavors: &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Nasty], damping: 5, faults: 2, unusable: true, max_n: 4, max_iter: 8, ..Want::any() },
    );
    base.fd_params = true;
    let n = base.sys.n;
    let count = if u.chance(1, 30) {
        u.extend();
        u.range(5, 12)
    } else {
        u.range(2, 4)
    };
    let mut items = vec![];
    for k in 0..count {
        let root: Vec<f64> = (0..n).map(|i| base.x0[i] + u.f(-0.3, 0.3)).collect();
        let sys = if k > 0 && u.chance(1, 3) {
            base.sys.clone()
        } else {
            match u.below(4) {
                0 => base.sys.clone(),
                1 if root.iter().all(|x| x.is_finite()) => Sys::near_root(u, n, &root, 0.6, 0.8),
                2 => Sys::wobbly(u, n),
                _ => Sys::nasty(u, n),
            }
        };
        let mut faults = vec![];
        if u.chance(1, 3) {
            faults.push(Fault { jac: false, at: u.below(8), unusable: u.chance(1, 2), style: 0 });
        }
        if u.chance(1, 6) {
            faults.push(Fault { jac: true, at: u.below(3), unusable: u.chance(1, 2), style: 0 });
        }
        let stale = (0..n).map(|_| u.wild()).collect();
        items.push(SeqItem { sys, faults, analytic: u.chance(1, 2), stale });
    }
    SeqCase { base, items }
}
fn check_c23(c: &SeqCase) -> Verdict {
    let seq: Vec<(Sys, Vec<Fault>, bool, Vec<f64>)> = c.items.iter().map(|i| (i.sys.clone(), i.faults.clone(), i.analytic, i.stale.clone())).collect();
    let outs = run_sequence(&c.base, &seq);
    let mut v = Verdict::default();
    let mut iterated = 0;
    for (k, out) in outs.iter().enumerate() {
        if let Some(b) = out.broken() {
            v.fail = Some(format!("solve {}: {}", k, b));
            return v;
        }
        let one = RunCase { sys: c.items[k].sys.clone(), faults: c.items[k].faults.clone(), analytic: c.items[k].analytic, fd_params: true, ..c.base.clone() };
        // a fresh solver, from another state of the model
        let stale: Vec<f64> = c.items[k].stale.iter().rev().copied().collect();
        let fresh = run_opts(&one, &RunOpts { stale: Some(stale), ..Default::default() });
        let again = run(&one);
        if k > 0 && out.evs.len() > 3 {
            iterated += 1;
        }
        v.classes.push(match &out.outcome {
            Outcome::Ok => "result: Ok",
            Outcome::NonConv => "result: NonConvergence",
            Outcome::Final => "result: final evaluation",
            Outcome::JacInv => "result: jacobian not invertible",
            _ => "result: model failure",
        });
        for (what, other) in [("newly built solver, with another initial state of the model,", &fresh), ("newly built solver", &again)] {
            let (a, b) = (calls(out), calls(other));
            if let Some(d) = differ(&a, &b) {
                v.fail = Some(format!("solve {} of the same object: call {} is {}, {} with a {}", k, d, show(a.get(d)), show(b.get(d)), what));
                return v;
            }
            if out.outcome != other.outcome || out.text != other.text {
                v.fail = Some(format!("solve {} of the same object gives {:?} ({}), {:?} ({}) with a {}", k, out.outcome, out.text, other.outcome, other.text, what));
                return v;
            }
            if !same_vec(&out.x, &other.x) || !same_vec(&out.l, &other.l) || !same_vec(&out.r, &other.r) {
                v.fail = Some(format!("solve {} leaves the model at {:?}, a {} at {:?}", k, out.x, what, other.x));
                return v;
            }
        }
    }
    v.nontrivial = iterated > 0;
    v
}

// ------------------------------------------------------------------------------------- C24
thread_local! {
    static CURRENT: RefCell<Option<Sys>> = const { RefCell::new(None) };
    static SEEN: RefCell<Vec<Vec<f64>>> = const { RefCell::new(Vec::new()) };
    static JSEEN: RefCell<Vec<Vec<f64>>> = const { RefCell::new(Vec::new()) };
    static LIMIT: RefCell<usize> = const { RefCell::new(0) };
}
fn the_function(x: &DVector<f64>) -> DVector<f64> {
    let x: Vec<f64> = x.iter().copied().collect();
    SEEN.with(|s| s.borrow_mut().push(x.clone()));
    if SEEN.with(|s| s.borrow().len()) > LIMIT.with(|l| *l.borrow()) {
        panic!("{}", CAP);
    }
    CURRENT.with(|c| DVector::from_vec(c.borrow().as_ref().unwrap().left(&x)))
}
fn the_jacobian(x: &DVector<f64>) -> DMatrix<f64> {
    let x: Vec<f64> = x.iter().copied().collect();
    JSEEN.with(|s| s.borrow_mut().push(x.clone()));
    let m = CURRENT.with(|c| c.borrow().as_ref().unwrap().dleft(&x));
    DMatrix::from_fn(x.len(), x.len(), |i, j| m[i][j])
}
fn gen_c24(u: &mut Src) -> RunCase {
    let mut c = gen_run(u, &Want { flavors: &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Affine, Flavor::Nasty], norms: 2, ..Want::any() });
    // left(x) = 0, or left(x) = constant: the right member of the adapters is a public field
    u.extend();
    let constant = u.chance(1, 3);
    for i in 0..c.sys.n {
        let (kept, moved): (Vec<Term>, Vec<Term>) = c.sys.right[i].drain(..).partition(|t| constant && t.k == Kind::Const);
        c.sys.left[i].extend(moved.into_iter().map(|t| Term { c: -t.c, ..t }));
        c.sys.right[i] = kept;
    }
    // relative normalizations of a null member are constant
    for m in c.stop.iter_mut().chain(c.upd.iter_mut()) {
        if *m == 1 && !constant {
            *m = 2;
        }
    }
    c
}
fn adapted<M>(c: &RunCase, model: &mut M) -> (Outcome, String)
where
    M: Model<Dyn>,
{
    let cfg = config_of(c);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let x0 = DVector::from_vec(c.x0.clone());
    SEEN.with(|s| s.borrow_mut().clear());
    JSEEN.with(|s| s.borrow_mut().clear());
    LIMIT.with(|l| *l.borrow_mut() = cap_of(c));
    let res = caught(|| {
        if c.analytic && !c.fd_params {
            let it: Vec<IterativeParams> = c.iters.iter().map(|i| i.plain()).collect();
            let its = Iteratives::new(&it);
            RootFinder::new(params_of(c), x0, &its, &rc).solve(model)
        } else {
            let it: Vec<IterativeParamsFD> = c.iters.iter().map(|i| i.fd()).collect();
            let its = Iteratives::new(&it);
            RootFinder::new(params_of(c), x0, &its, &rc).solve(model)
        }
    });
    match res {
        Err(p) => (if p.contains(CAP) { Outcome::Cap } else { Outcome::Panic(p.clone()) }, p),
        Ok(Ok(())) => (Outcome::Ok, String::new()),
        Ok(Err(e)) => {
            let t = e.to_string();
            (
                match e {
                    SolverError::NonConvergenceError => Outcome::NonConv,
                    SolverError::ModelInitialEvaluationError(s) => Outcome::InitEval(s),
                    SolverError::ModelEvaluationError(_) => Outcome::ModelEval(true, 0),
                    SolverError::JacobianError(SolverInternalError::InvalidJacobianError(_)) => Outcome::JacModel(true, 0),
                    SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError) => Outcome::JacInv,
                    SolverError::FinalEvaluationError => Outcome::Final,
                },
                t,
            )
        }
    }
}
fn check_c24(c: &RunCase) -> Verdict {
    let n = c.sys.n;
    let a = run(&RunCase { stat: false, ..c.clone() });
    let b = run(&RunCase { stat: true, ..c.clone() });
    if let Some(m) = a.broken().or(b.broken()) {
        return Verdict::fail(m);
    }
    let mut v = Verdict::ok(a.evs.len() > 4);
    v.classes = vec![if c.analytic { "analytic jacobian" } else { "finite differences" }];
    if c.sys.right.iter().any(|r| !r.is_empty()) {
        v.classes.push("constant right members");
    }
    let fa = follow(&RunCase { stat: false, ..c.clone() }, &a);
    let (pa, pb): (Vec<Vec<f64>>, Vec<Vec<f64>>) = (a.points().into_iter().cloned().collect(), b.points().into_iter().cloned().collect());
    if n <= 2 {
        // nothing is summed in another order; an update by a vanishing step is 0 / 0, whose sign is arbitrary
        let stuck = c.method >= 2 && (fa.cut.is_some() || pa.windows(2).any(|w| same_vec(&w[0], &w[1])));
        let sure = fa.phases.iter().take_while(|p| **p != Phase::Unknown).count().saturating_sub(1).min(pa.len());
        if stuck {
            if let Some(d) = (0..sure).find(|&k| k >= pb.len() || !same_vec(&pa[k], &pb[k])) {
                v.fail = Some(format!("point {} is {:?} with a dynamic dimension, {:?} with a static one", d, pa.get(d), pb.get(d)));
            }
        } else if let Some(d) = (0..pa.len().max(pb.len())).find(|&k| k >= pa.len() || k >= pb.len() || !same_vec(&pa[k], &pb[k])) {
            v.fail = Some(format!("point {} is {:?} with a dynamic dimension, {:?} with a static one", d, pa.get(d), pb.get(d)));
        } else if a.outcome != b.outcome {
            v.fail = Some(format!("{:?} with a dynamic dimension, {:?} with a static one", a.outcome, b.outcome));
        }
    } else if let Err(m) = agree(c, &fa, &pa, &a.outcome, &pb, &b.outcome, false) {
        v.fail = Some(format!("with a dynamic then a static dimension: {}", m));
    }
    if v.fail.is_some() {
        return v;
    }
    CURRENT.with(|s| *s.borrow_mut() = Some(c.sys.clone()));
    let points = pa;
    let jacs: Vec<Vec<f64>> = a
        .evs
        .iter()
        .filter_map(|e| match e {
            Ev::Jac { x, .. } => Some(x.clone()),
            _ => None,
        })
        .collect();
    let mut judge = |name: &str, o: (Outcome, String), x: DVector<f64>, l: DVector<f64>, r: DVector<f64>| {
        if v.fail.is_some() {
            return;
        }
        let seen = SEEN.with(|s| s.borrow().clone());
        let jseen = JSEEN.with(|s| s.borrow().clone());
        let same = |p: &Vec<Vec<f64>>, q: &Vec<Vec<f64>>| p.len() == q.len() && p.iter().zip(q).all(|(a, b)| same_vec(a, b));
        let (xs, ls, rs): (Vec<f64>, Vec<f64>, Vec<f64>) = (x.iter().copied().collect(), l.iter().copied().collect(), r.iter().copied().collect());
        if o.0 != a.outcome {
            v.fail = Some(format!("{} gives {:?}, a hand-written model {:?}", name, o.0, a.outcome));
        } else if !same(&seen, &points) {
            v.fail = Some(format!("{} is evaluated at {:?}, a hand-written model at {:?}", name, seen, points));
        } else if c.analytic && !same(&jseen, &jacs) {
            v.fail = Some(format!("the Jacobian of {} is requested at {:?}, the one of a hand-written model at {:?}", name, jseen, jacs));
        } else if !same_vec(&xs, &a.x) || !same_vec(&ls, &a.l) || !same_vec(&rs, &a.r) {
            v.fail = Some(format!("{} is left at {:?} ({:?} = {:?}), a hand-written model at {:?} ({:?} = {:?})", name, xs, ls, rs, a.x, a.l, a.r));
        }
    };
    let f = |x: &DVector<f64>| the_function(x);
    let j = |x: &DVector<f64>| the_jacobian(x);
    // what the adapters expose, before the run
    let probe = DVector::from_vec(c.x0.clone());
    let want = DVector::from_vec(c.sys.left(&c.x0));
    let jwant = c.sys.dleft(&c.x0);
    let constant = c.sys.right.iter().any(|r| !r.is_empty());
    let right = DVector::from_vec(if constant { c.sys.right(&c.x0) } else { vec![] });
    LIMIT.with(|l| *l.borrow_mut() = usize::MAX);
    macro_rules! go {
        ($name:expr, $m:expr) => {{
            let mut m = $m;
            let mut bad: Option<String> = None;
            LIMIT.with(|l| *l.borrow_mut() = usize::MAX);
            if m.len_problem() != n {
                bad = Some(format!("{}: length {} for a problem of size {}", $name, m.len_problem(), n));
            }
            if m.jacobian_provided() != c.analytic {
                bad = Some(format!("{}: jacobian_provided is {}", $name, m.jacobian_provided()));
            }
            if !right.is_empty() {
                m.right = right.clone();
            }
            m.set_iteratives(&probe);
            let ok = m.evaluate().is_ok();
            let got = m.get_residuals();
            let back = m.get_iteratives();
            for i in 0..n {
                let (l, r) = got.get_values(i);
                if !ok || !same_val(back[i], probe[i]) || !same_val(l, want[i]) || r != if right.is_empty() { 0.0 } else { right[i] } {
                    bad = Some(format!("{}: equation {} at {:?} reads {:?} = {:?}, the function gives {:?}", $name, i, c.x0, l, r, want[i]));
                }
            }
            if c.analytic {
                match m.get_jacobian() {
                    Ok(jv) => {
                        let (l, r) = jv.get_jacobians();
                        for i in 0..n {
                            for k in 0..n {
                                if !same_val(l[(i, k)], jwant[i][k]) || r[(i, k)] != 0.0 {
                                    bad = Some(format!("{}: Jacobian entry ({}, {}) is {:?} and {:?}, {:?} given", $name, i, k, l[(i, k)], r[(i, k)], jwant[i][k]));
                                }
                            }
                        }
                    }
                    Err(_) => bad = Some(format!("{}: error of the Jacobian", $name)),
                }
            }
            if let Some(b) = bad {
                return Verdict::fail(b);
            }
            let o = adapted(c, &mut m);
            judge($name, o, m.inputs, m.left, m.right);
        }};
    }
    if c.analytic {
        go!("UserModelFromFunctionAndJacobian", UserModelFromFunctionAndJacobian::new(n, the_function, the_jacobian));
        go!("UserModelFromClosureAndJacobian", UserModelFromClosureAndJacobian::new(n, &f, &j));
    } else {
        go!("UserModelFromFunction", UserModelFromFunction::new(n, the_function));
        go!("UserModelFromClosure", UserModelFromClosure::new(n, &f));
    }
    v
}

// ------------------------------------------------------------------------------------- C25
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EqCase {
    run: RunCase,
    /// 0 common scale, 1 negated rows, 2 swapped members, 3 units of the unknowns, 4 order of the equations, 5 numbering of the unknowns,
    /// 6 linear combinations of the equations
    kind: u8,
    /// exponent, subset or rotation
    k: Vec<i32>,
}
fn gen_c25(u: &mut Src) -> EqCase {
    let kind = u.below(7) as u8;
    let methods: &'static [usize] = match kind {
        // changing the units of the unknowns changes the norm of the steps
        3 => &[0, 1, 4, 5, 6, 7],
        // mixing the equations changes the norm of the residuals
        6 => &[0, 1, 2, 3],
        _ => &ALL_METHODS,
    };
    let flavors: &'static [Flavor] = if kind >= 4 { &[Flavor::Near, Flavor::Affine] } else { &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Affine] };
    let mut c = gen_run(u, &Want { flavors, methods, norms: 3, limits: 3, damping: if kind >= 4 { 1 } else { 4 }, max_iter: 8, ..Want::any() });
    let n = c.sys.n;
    if kind == 0 {
        // the adaptive normalization is not homogeneous
        let no_abs_tol = u.chance(1, 3);
        for i in 0..n {
            if c.stop[i] == 2 || no_abs_tol {
                c.stop[i] = 1;
            }
            if c.upd[i] == 2 {
                c.upd[i] = 1;
            }
        }
        if c.method >= 4 {
            // a scale common to the residuals used in the steps
            let norm = c.upd[0];
            c.upd = vec![norm; n];
        }
        if c.stop.contains(&0) {
            // only one tolerance: it is scaled with the equations
            c.stop = vec![0; n];
        }
    }
    if kind == 5 {
        // only accepted points are compared, the decisions taken on the others are not seen
        c.damping = false;
    }
    if kind == 4 || kind == 5 {
        c.tol = c.tol.max(1e-7);
    }
    if kind == 6 {
        // the errors are not comparable: a given number of iterations
        c.tol = 0.0;
        c.damping = false;
        c.max_iter = c.max_iter.min(5);
        c.upd = vec![0; n];
        c.sys.mu = 0.0;
    }
    let mut k: Vec<i32> = (0..n.max(1)).map(|_| u.range(0, 12) as i32 - 6).collect();
    if kind == 0 && (c.upd.iter().all(|m| *m == 0) || c.upd.iter().all(|m| *m == 1)) && u.chance(1, 3) {
        // far away (in all the rows of the Jacobian or in none), but where no product of the update formulas leaves the range of the floats
        k[0] *= if c.method < 2 { 75 } else { 33 };
    }
    EqCase { run: c, kind, k }
}
fn pow2(k: i32) -> f64 {
    2.0f64.powi(k)
}
fn check_c25(e: &EqCase) -> Verdict {
    let c = &e.run;
    let n = c.sys.n;
    let mut d = c.clone();
    // unknown i of c is unknown perm[i] of d, in units of unit[i]
    let mut perm: Vec<usize> = (0..n).collect();
    let mut unit = vec![1.0; n];
    match e.kind {
        0 => {
            let s = pow2(e.k[0]);
            for v in d.sys.scale.iter_mut() {
                *v *= s;
            }
            if c.stop.iter().all(|m| *m == 0) {
                d.tol *= s;
            }
        }
        1 => {
            for i in 0..n {
                if e.k[i] > 0 {
                    d.sys.scale[i] *= -1.0;
                }
            }
        }
        2 => {
            for i in 0..n {
                if e.k[i] > 0 {
                    let (l, r) = (d.sys.left[i].clone(), d.sys.right[i].clone());
                    d.sys.left[i] = r;
                    d.sys.right[i] = l;
                }
            }
        }
        3 => {
            for i in 0..n {
                let size = pow2(e.k[i]);
                // (forward differences have a direction)
                let opposite = c.analytic && e.k[(i + 1) % n].rem_euclid(3) == 1;
                unit[i] = if opposite { -size } else { size };
                d.x0[i] *= unit[i];
                let p = &mut d.iters[i];
                p.max_step_abs *= size;
                p.min *= unit[i];
                p.max *= unit[i];
                if opposite {
                    std::mem::swap(&mut p.min, &mut p.max);
                }
                p.dx_abs *= size;
            }
            d.sys.unit = unit.clone();
        }
        4 => {
            let by = (e.k[0].unsigned_abs() as usize) % n;
            let rot = |v: usize| (v + by) % n;
            for i in 0..n {
                d.sys.left[i] = c.sys.left[rot(i)].clone();
                d.sys.right[i] = c.sys.right[rot(i)].clone();
                d.sys.scale[i] = c.sys.scale[rot(i)];
                d.stop[i] = c.stop[rot(i)];
                d.upd[i] = c.upd[rot(i)];
            }
        }
        6 => {
            // row i becomes row i + m row j, successively
            for i in 0..n {
                let j = (i + 1 + (e.k[i].unsigned_abs() as usize) % n.max(2)) % n;
                let m = [0.0, 0.5, -0.25, 1.0, -1.0, 0.75, 2.0][e.k[(i + 1) % n].unsigned_abs() as usize];
                if i == j || m == 0.0 {
                    continue;
                }
                let f = m * d.sys.scale[j] / d.sys.scale[i];
                for members in [&mut d.sys.left, &mut d.sys.right] {
                    let more: Vec<Term> = members[j].iter().map(|t| Term { c: f * t.c, ..t.clone() }).collect();
                    members[i].extend(more);
                }
            }
        }
        _ => {
            let by = (e.k[0].unsigned_abs() as usize) % n;
            perm = (0..n).map(|i| (i + by) % n).collect();
            if n > 2 && e.k[1] > 0 {
                perm.swap(0, 1);
            }
            for m in d.sys.left.iter_mut().chain(d.sys.right.iter_mut()) {
                *m = rename(m, &perm);
            }
            for i in 0..n {
                d.x0[perm[i]] = c.x0[i];
                d.iters[perm[i]] = c.iters[i].clone();
            }
        }
    }
    let (a, b) = (run(c), run(&d));
    if let Some(m) = a.broken().or(b.broken()) {
        return Verdict::fail(m);
    }
    let f = follow(c, &a);
    let mut v = Verdict::ok(f.iters >= 2);
    v.classes = classes(c, &a, &f);
    v.classes.push(match e.kind {
        0 if e.k[0].abs() > 6 => "equations scaled far",
        0 => "equations scaled",
        1 => "equations negated",
        2 => "members exchanged",
        3 => "units of the unknowns",
        4 => "equations reordered",
        6 => "equations combined",
        _ => "unknowns renumbered",
    });
    let back = |p: &Vec<f64>| -> Vec<f64> { (0..n).map(|i| p[perm[i]] / unit[i]).collect() };
    let pa: Vec<Vec<f64>> = if e.kind == 5 { f.path.clone() } else { a.points().into_iter().cloned().collect() };
    let g;
    let pb: Vec<Vec<f64>> = if e.kind == 5 {
        // the columns are computed in another order: only the accepted points are compared
        g = follow(&d, &b);
        if g.cut.is_some() || !g.findings.is_empty() {
            return v;
        }
        g.path.iter().map(back).collect()
    } else {
        b.points().into_iter().map(back).collect()
    };
    // a normalization other than the absolute one is not computed symmetrically, and sums are reordered
    let exact = match e.kind {
        0 => c.upd.iter().all(|m| *m == 0) || c.upd.iter().all(|m| *m == 1),
        3 => true,
        1 | 2 => !c.analytic || c.upd.iter().all(|m| *m == 0),
        _ => false,
    };
    if exact {
        // overflows and underflows do not commute with the transforms
        let far = if e.kind == 0 && e.k[0].abs() > 6 { 1e20 } else { 1e60 };
        let extreme = |v: &f64| *v != 0.0 && !(v.abs() < far && v.abs() > 1.0 / far);
        let wild = a.evs.iter().any(|e| match e {
            Ev::Eval { x, l, r, .. } => x.iter().chain(l).chain(r).any(extreme) || residuals(l, r, &c.upd).iter().any(extreme),
            Ev::Jac { x, .. } => c.sys.dleft(x).iter().chain(&c.sys.dright(x)).flatten().any(extreme),
            _ => false,
        });
        if wild {
            v.nontrivial = false;
            return v;
        }
        // a quasi-Newton update by a vanishing step is 0 / 0, whose sign is arbitrary
        let stuck = c.method >= 2 && (f.cut.is_some() || pa.windows(2).any(|w| same_vec(&w[0], &w[1])));
        let (pa, pb) = if stuck {
            let upto = f.phases.iter().take_while(|p| **p != Phase::Unknown).count().saturating_sub(1).min(pa.len());
            (pa[..upto].to_vec(), pb[..upto.min(pb.len())].to_vec())
        } else {
            (pa, pb)
        };
        if let Some(k) = (0..pa.len().max(pb.len())).find(|&k| k >= pa.len() || k >= pb.len() || !same_vec(&pa[k], &pb[k])) {
            v.fail = Some(format!("point {} is {:?}, {:?} in the equivalent formulation", k, pa.get(k), pb.get(k)));
        } else if a.outcome != b.outcome && !stuck {
            v.fail = Some(format!("the result is {:?}, {:?} in the equivalent formulation", a.outcome, b.outcome));
        }
        return v;
    }
    match agree(c, &f, &pa, &a.outcome, &pb, &b.outcome, e.kind == 5) {
        Ok(nt) => v.nontrivial &= nt,
        Err(m) => v.fail = Some(format!("{} in the equivalent formulation", m)),
    }
    v
}

/// Two runs that only differ by rounding errors: the points agree as long as no decision is tight
/// and the steps are well conditioned. Err when they do not, Ok(false) when nothing could be compared.
fn agree(c: &RunCase, f: &Follow, pa: &[Vec<f64>], oa: &Outcome, pb: &[Vec<f64>], ob: &Outcome, accepted: bool) -> Result<bool, String> {
    let n = c.sys.n;
    if !f.findings.is_empty() || f.max_cond > 1e6 {
        return Ok(false);
    }
    // finite differences: the step starts from the last perturbed column
    let dx = if accepted && !c.analytic { pa.iter().flat_map(|p| (0..n).map(|i| c.iters[i].dx(p[i]))).fold(0.0, f64::max) } else { 0.0 };
    let base = 10.0 * f.max_tol + 1e-9 + 30.0 * dx;
    // the points that could be followed
    let mut upto = if accepted { pa.len() } else { f.phases.iter().take_while(|p| **p != Phase::Unknown).count().min(pa.len()) };
    if f.cut.is_some() {
        upto = upto.saturating_sub(1);
    }
    let (mut prev, mut reach) = (0.0, 0.0f64);
    for k in 0..upto {
        let (l, r) = (c.sys.left(&pa[k]), c.sys.right(&pa[k]));
        let err = max_error(&l, &r, &c.stop);
        if (0..n).any(|i| (c.stop[i] == 1 || c.upd[i] == 1) && !((l[i] + r[i]).abs() >= 1e-3)) {
            return Ok(k > 1);
        }
        // opposite members: the adaptive normalization has no derivative there
        if (0..n).any(|i| c.upd[i] == 2 && !((l[i] + r[i]).abs() >= 1e-6 * l[i].abs())) {
            return Ok(k > 1);
        }
        if k >= pb.len() {
            if *ob == Outcome::JacInv {
                return Ok(true);
            }
            return Err(format!("{} points ({:?}), {} ({:?})", pa.len(), oa, pb.len(), ob));
        }
        if !ninf(&pa[k]).is_finite() {
            return Ok(k > 1);
        }
        // a leap amplifies everything
        if ninf(&pa[k]) > 10.0 * (1.0 + reach) {
            return Ok(k > 1);
        }
        reach = reach.max(ninf(&pa[k]));
        let tol = base.max(1e5 * prev) * (1.0 + reach);
        if !(tol < 1e-2 * (1.0 + reach)) || !(reach < 1e8) {
            return Ok(k > 1);
        }
        let dist = ninf(&sub(&pa[k], &pb[k]));
        if !(dist <= tol) {
            return Err(format!("point {} is {:?}, {:?}", k, pa[k], pb[k]));
        }
        prev = dist / (1.0 + reach);
        // what the differences so far may change to the errors
        let noise = (1e-9 + 1e3 * prev) * (1.0 + ninf(&l) + ninf(&r));
        let err_b = max_error(&c.sys.left(&pb[k]), &c.sys.right(&pb[k]), &c.stop);
        let decided = |e: f64| (e - c.tol).abs() > 1e-9 * (c.tol + ninf(&l) + ninf(&r));
        if (err - c.tol).abs() <= 0.01 * c.tol + noise && !(accepted && (err <= c.tol) == (err_b <= c.tol) && decided(err) && decided(err_b)) {
            return Ok(k > 1);
        }
        if c.damping {
            // a tight comparison of errors
            let earlier = pa[..k].iter().map(|p| max_error(&c.sys.left(p), &c.sys.right(p), &c.stop));
            if earlier.into_iter().any(|e| (e - err).abs() <= 0.01 * err.min(e) + 2.0 * noise) {
                return Ok(k > 1);
            }
        }
    }
    if f.cut.is_some() || upto < pa.len() || *oa == Outcome::JacInv || *ob == Outcome::JacInv {
        return Ok(true);
    }
    if pa.len() != pb.len() || oa != ob {
        return Err(format!("{} points ({:?}), {} ({:?})", pa.len(), oa, pb.len(), ob));
    }
    Ok(true)
}

// ------------------------------------------------------------------------------------- C26
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConvCase {
    run: RunCase,
    affine: bool,
    #[serde(with = "fser::many")]
    root: Vec<f64>,
}
fn gen_c26(u: &mut Src) -> ConvCase {
    let affine = u.chance(1, 3);
    let n = u.range(1, 6);
    let method = u.below(10);
    let analytic = u.chance(1, 2);
    let damping = u.chance(1, 2);
    let stat = u.chance(1, 2);
    let fd_params = u.chance(1, 3);
    let root: Vec<f64> = (0..n).map(|_| u.f(-4.0, 4.0)).collect();
    let mut iters: Vec<IterP> = (0..n).map(|_| IterP::free()).collect();
    if u.chance(1, 4) {
        for p in iters.iter_mut() {
            p.dx_abs = u.logf(1e-8, 1e-6);
            p.dx_rel = u.logf(1e-8, 1e-6);
            p.sum = u.chance(1, 2);
        }
    }
    let (sys, x0, tol, max_iter, n) = if affine {
        let dom = !u.chance(1, 3);
        let sys = if u.chance(1, 2) { Sys::affine_structured(u, n, &root) } else { Sys::affine(u, n, &root, dom) };
        let x0 = (0..n).map(|_| u.f(-10.0, 10.0)).collect();
        (sys, x0, if analytic { 1e-8 } else { 1e-3 }, 1, n)
    } else {
        let n = if method == 6 || method == 7 { 1 } else { n };
        let sys = Sys::near_root(u, n, &root[..n], 0.2, 0.3);
        let x0 = (0..n).map(|i| root[i] + u.f(-0.1, 0.1)).collect();
        (sys, x0, 1e-6, if u.chance(1, 12) { u.pick(&[100, 256, 65536, 1 << 32, usize::MAX]) } else { 50 }, n)
    };
    let run = RunCase {
        sys,
        x0,
        method,
        damping,
        tol,
        max_iter,
        analytic,
        fd_params,
        iters: iters[..n].to_vec(),
        stop: vec![0; n],
        upd: (0..n).map(|_| if !affine && u.chance(1, 6) { 2 } else { 0 }).collect(),
        stat,
        faults: vec![],
        echo: vec![],
    };
    ConvCase { run, affine, root: root[..n].to_vec() }
}
fn check_c26(cc: &ConvCase) -> Verdict {
    let c = &cc.run;
    let n = c.sys.n;
    let (dl, dr) = (c.sys.dleft(&cc.root), c.sys.dright(&cc.root));
    let jac: Mat = (0..n).map(|i| sub(&dl[i], &dr[i])).collect();
    let cnd = cond(&jac);
    if !(cnd < 1e3) {
        return Verdict::default();
    }
    let out = run(c);
    let mut v = Verdict::ok(out.evs.len() > 3);
    v.classes.push(METHODS[c.method]);
    v.classes.push(if cc.affine { "affine" } else { "near a root" });
    if let Some(b) = out.broken() {
        v.fail = Some(b);
        return v;
    }
    if out.outcome != Outcome::Ok {
        v.fail = Some(format!("{} from {:?} for the root {:?}: {:?} at {:?}, residuals {:?}", METHODS[c.method], c.x0, cc.root, out.outcome, out.x, sub(&out.l, &out.r)));
        return v;
    }
    let inv = inverse(&jac).unwrap();
    let dist = ninf(&sub(&out.x, &cc.root));
    if !(dist <= 4.0 * matnorm(&inv) * c.tol + 1e-9) {
        v.fail = Some(format!("converged to {:?} instead of {:?}", out.x, cc.root));
        return v;
    }
    let pts = out.points();
    if cc.affine {
        let most = 2 + if c.analytic { 0 } else { n };
        if pts.len() > most {
            v.fail = Some(format!("{} evaluations for an affine system", pts.len()));
        }
    } else if c.method == 0 && c.analytic && c.upd.iter().all(|m| *m == 0) {
        // quadratic convergence
        let e: Vec<f64> = pts.iter().map(|p| ninf(&sub(p, &cc.root))).collect();
        for w in e.windows(2) {
            if w[0] <= 0.02 && !(w[1] <= 10.0 * matnorm(&inv) * w[0] * w[0] + 1e-12) {
                v.fail = Some(format!("the convergence is not quadratic: distances to the root {:?}", e));
            }
        }
    }
    v
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![
        Box::new(Prop { id: "C13", rule: "Random runs with inaccurate evaluations and Jacobians injected at random calls, compared with the fault-free run of the same case; non-trivial: a fault was met and at least one iteration made.", len: 440, quick: 800_000, mult: 25, gen: gen_c13, check: check_c13, assumptions: &[] }),
        Box::new(Prop { id: "C14", rule: "Random runs with one unusable evaluation or Jacobian injected at a random call of the fault-free run (5 in 6), or a null row or column in the Jacobian; non-trivial: always, except when the guess converges.", len: 440, quick: 1_000_000, mult: 25, gen: gen_c14, check: check_c14, assumptions: &[] }),
        Box::new(Prop { id: "C15", rule: "Random runs whose system, guess, limits, perturbations, tolerance and errors are arbitrary floats (NaN, infinities, denormals); non-trivial: a non-finite, huge or tiny value or an error was met.", len: 520, quick: 1_200_000, mult: 25, gen: gen_c15, check: check_c15, assumptions: &[] }),
        Box::new(Prop { id: "C23", rule: "Two to four (one time in 30, up to twelve) solves in a row on one solver object, on the same or other models, with injected errors and arbitrary initial model states, each compared with newly built solvers; non-trivial: a solve after the first made at least one iteration.", len: 700, quick: 400_000, mult: 25, gen: gen_c23, check: check_c23, assumptions: &[] }),
        Box::new(Prop { id: "C24", rule: "Random runs of left(x) = 0 systems through static and dynamic hand-written models and the four adapters; non-trivial: more than the guess was evaluated.", len: 420, quick: 500_000, mult: 25, gen: gen_c24, check: check_c24, assumptions: &["dimension up to 5"] }),
        Box::new(Prop { id: "C25", rule: "Random runs and their transforms (equations scaled by a power of two, negated, reordered, combined linearly, with members exchanged; unknowns renumbered or in units of powers of two); non-trivial: at least two iterations, and for the reorderings a well conditioned run.", len: 440, quick: 900_000, mult: 25, gen: gen_c25, check: check_c25, assumptions: &["exact comparison where the transform commutes with rounding, 1e-5 otherwise"] }),
        Box::new(Prop { id: "C26", rule: "Random affine systems (condition below 1000) with a budget of one iteration, and diagonally dominant smooth systems started within 0.1 of a planted root with the default budget (or a larger one, up to the largest integer); non-trivial: at least one iteration.", len: 300, quick: 1_500_000, mult: 25, gen: gen_c26, check: check_c26, assumptions: &["Greenstadt's first method only in one dimension"] }),
    ]
}
