//! C30: unknowns described by the user's own implementation of `Iterative`. C31: displays.
use super::log::check_config;
use crate::engine::*;
use crate::fser::*;
use crate::model::*;
use crate::oracle::*;
use crate::sys::Sys;
use nalgebra::{DMatrix, DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, Iteratives};
use nrf::model::{Model, ModelError};
use nrf::residuals::{JacobianValues, ResidualsConfig, ResidualsValues};
use nrf::solver::{JacobianMatrix, RootFinder};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

// ------------------------------------------------------------------------------------- C30
#[derive(Clone, Debug)]
enum Note {
    Step { i: usize, x: f64, raw: f64, out: f64 },
    Pert { i: usize, x: f64, out: f64 },
    Eval { x: Vec<f64>, l: Vec<f64>, r: Vec<f64> },
    Jac { x: Vec<f64> },
}
thread_local! {
    static NOTES: RefCell<Vec<Note>> = const { RefCell::new(Vec::new()) };
}
fn note(n: Note) {
    NOTES.with(|v| v.borrow_mut().push(n));
}

/// An unknown as a user may describe it
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Own {
    i: usize,
    step: u8,
    pert: u8,
    #[serde(with = "one")]
    h: f64,
    /// the two default methods of the trait are kept
    bare: bool,
}
impl Own {
    fn next(&self, x: f64, raw: f64) -> f64 {
        match self.step {
            0 => x + raw,
            1 => x + 0.5 * raw,
            2 => (x + raw).round(),
            3 => (x + raw).clamp(-2.0, 2.0),
            4 => x,
            5 => x + raw.tanh(),
            6 => 1.25,
            // never through 0
            _ => {
                if (x + raw) * x > 0.0 {
                    x + raw
                } else {
                    0.5 * x
                }
            }
        }
    }
    fn dx(&self, x: f64) -> f64 {
        match self.pert {
            0 => self.h,
            1 => -self.h,
            2 => self.h * (1.0 + x.abs()),
            _ => {
                if x > 0.0 {
                    -self.h * (1.0 + x)
                } else {
                    self.h
                }
            }
        }
    }
}
impl fmt::Display for Own {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "own {}", self.i)
    }
}

/// keeps the default methods (no finite differences)
#[derive(Debug)]
struct Bare(Own);
impl fmt::Display for Bare {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Iterative for Bare {
    fn step_limitation(&self, x: f64, raw: f64) -> f64 {
        self.0.step_limitation(x, raw)
    }
}
impl Iterative for Own {
    fn step_limitation(&self, x: f64, raw: f64) -> f64 {
        let out = self.next(x, raw);
        note(Note::Step { i: self.i, x, raw, out });
        out
    }
    fn compute_perturbation(&self, x: f64) -> f64 {
        let out = self.dx(x);
        note(Note::Pert { i: self.i, x, out });
        out
    }
    fn with_finite_diff(&self) -> bool {
        true
    }
}

/// the least a user has to write
struct Small<'a> {
    sys: &'a Sys,
    x: DVector<f64>,
    l: DVector<f64>,
    r: DVector<f64>,
}
impl Small<'_> {
    fn compute(&mut self) {
        let x: Vec<f64> = self.x.iter().copied().collect();
        let (l, r) = (self.sys.left(&x), self.sys.right(&x));
        self.l = DVector::from_vec(l.clone());
        self.r = DVector::from_vec(r.clone());
        if NOTES.with(|v| v.borrow().len()) > 20_000 {
            panic!("{}", CAP);
        }
        note(Note::Eval { x, l, r });
    }
}
impl Model<Dyn> for Small<'_> {
    type InaccurateValuesError = Inacc;
    type UnusableValuesError = Unus;
    fn len_problem(&self) -> usize {
        self.sys.n
    }
    fn set_iteratives(&mut self, it: &DVector<f64>) {
        self.x = it.clone();
    }
    fn get_iteratives(&self) -> DVector<f64> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
        self.compute();
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<Dyn> {
        ResidualsValues::new(self.l.clone(), self.r.clone())
    }
}
struct Derived<'a>(Small<'a>);
impl Model<Dyn> for Derived<'_> {
    type InaccurateValuesError = Inacc;
    type UnusableValuesError = Unus;
    fn len_problem(&self) -> usize {
        self.0.sys.n
    }
    fn set_iteratives(&mut self, it: &DVector<f64>) {
        self.0.x = it.clone();
    }
    fn get_iteratives(&self) -> DVector<f64> {
        self.0.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
        self.0.compute();
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<Dyn> {
        ResidualsValues::new(self.0.l.clone(), self.0.r.clone())
    }
    fn jacobian_provided(&self) -> bool {
        true
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<Dyn>, ModelError<Self, Dyn>> {
        let n = self.0.sys.n;
        let x: Vec<f64> = self.0.x.iter().copied().collect();
        let (l, r) = (self.0.sys.dleft(&x), self.0.sys.dright(&x));
        note(Note::Jac { x });
        Ok(JacobianValues::new(DMatrix::from_fn(n, n, |i, j| l[i][j]), DMatrix::from_fn(n, n, |i, j| r[i][j])))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OwnCase {
    run: RunCase,
    own: Vec<Own>,
}

fn gen_c30(u: &mut Src) -> OwnCase {
    let mut c = gen_run(
        u,
        &Want { flavors: &[Flavor::Near, Flavor::Affine, Flavor::Smooth, Flavor::Wobbly], limits: 0, max_n: 4, max_iter: 8, ..Want::any() },
    );
    c.sys.mem = 0;
    let bare = c.analytic && u.chance(1, 2);
    let own = (0..c.sys.n)
        .map(|i| {
            let h = if u.chance(1, 3) { 2.0f64.powi(-(u.range(8, 24) as i32)) } else { u.logf(1e-7, 1e-2) };
            Own { i, step: u.pick(&[0, 0, 0, 1, 2, 3, 4, 5, 6, 7]), pert: u.below(4) as u8, h, bare }
        })
        .collect();
    OwnCase { run: c, own }
}

fn check_c30(o: &OwnCase) -> Verdict {
    let c = &o.run;
    let n = c.sys.n;
    NOTES.with(|v| v.borrow_mut().clear());
    let cfg = config_of(c);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let zero = DVector::zeros(n);
    let small = Small { sys: &c.sys, x: zero.clone(), l: zero.clone(), r: zero };
    fn go<T: Iterative + fmt::Display + fmt::Debug>(c: &RunCase, own: &[T], rc: &ResidualsConfig, small: Small) -> Result<(bool, Vec<f64>), String> {
        let its = Iteratives::new(own);
        caught(move || {
            let mut rf = RootFinder::new(params_of(c), DVector::from_vec(c.x0.clone()), &its, rc);
            if c.analytic {
                let mut m = Derived(small);
                let ok = rf.solve(&mut m).is_ok();
                (ok, m.0.x.iter().copied().collect())
            } else {
                let mut m = small;
                let ok = rf.solve(&mut m).is_ok();
                (ok, m.x.iter().copied().collect())
            }
        })
    }
    let res = if o.own.iter().all(|p| p.bare) {
        let bare: Vec<Bare> = o.own.iter().cloned().map(Bare).collect();
        go(c, &bare, &rc, small)
    } else {
        go(c, &o.own, &rc, small)
    };
    let (ok, at) = match res {
        Ok(v) => v,
        Err(p) => return Verdict::fail(format!("panic with the user's own unknowns: {}", p)),
    };
    let notes = NOTES.with(|v| std::mem::take(&mut *v.borrow_mut()));
    let mut v = Verdict::ok(false);
    v.classes.push(if c.analytic { "analytic jacobian" } else { "finite differences" });
    v.classes.push(if o.own[0].bare { "default methods" } else { "all methods written" });

    // where the unknowns are, the last point evaluated, the last proposed point
    let mut cur: Vec<f64> = vec![];
    let mut last: Vec<f64> = vec![];
    let mut from: Vec<f64> = vec![];
    let mut proposed = false;
    let mut steps: Vec<Option<f64>> = vec![None; n];
    let mut perts: Vec<Option<f64>> = vec![None; n];
    let mut columns: Vec<Option<Vec<f64>>> = vec![None; n];
    let mut in_fd = false;
    let mut members: (Vec<f64>, Vec<f64>) = (vec![], vec![]);
    let mut last_members = members.clone();
    let mut raws: Vec<f64> = vec![f64::NAN; n];
    let mut proposals = 0;
    let mut fail = |m: String| -> Verdict {
        v.fail = Some(m);
        v.nontrivial = true;
        v.clone()
    };
    for (k, e) in notes.iter().enumerate() {
        match e {
            Note::Pert { i, x, out } => {
                if c.analytic {
                    return fail(format!("the perturbation of unknown {} is requested although the Jacobian is provided", i));
                }
                if !in_fd {
                    in_fd = true;
                    perts = vec![None; n];
                    columns = vec![None; n];
                }
                if !same_val(*x, cur[*i]) {
                    return fail(format!("the perturbation of unknown {} is requested at {:?}, it is at {:?}", i, x, cur[*i]));
                }
                perts[*i] = Some(*out);
            }
            Note::Jac { x } => {
                if !same_vec(x, &cur) {
                    return fail(format!("Jacobian at {:?} instead of {:?}", x, cur));
                }
            }
            Note::Step { i, x, raw, out } => {
                if in_fd && columns.iter().any(|c| c.is_none()) {
                    return fail(format!("a step is limited before all the columns are computed ({:?})", perts));
                }
                if !same_val(*x, cur[*i]) && !same_val(*x, last[*i]) {
                    return fail(format!("the step of unknown {} is limited from {:?}, it is at {:?}", i, x, cur[*i]));
                }
                steps[*i] = Some(*out);
                raws[*i] = *raw;
            }
            Note::Eval { x, l, r } => {
                if k == 0 {
                    if !same_vec(x, &c.x0) {
                        return fail(format!("first evaluation at {:?}", x));
                    }
                    cur = x.clone();
                } else if steps.iter().any(|s| s.is_some()) {
                    for i in 0..n {
                        match steps[i] {
                            Some(s) if same_val(s, x[i]) => (),
                            s => return fail(format!("unknown {}: {:?} proposed while the user's limitation gives {:?}", i, x[i], s)),
                        }
                    }
                    if c.method == 0 {
                        if let Some(m) = newton_step(c, &cur, &members, &last_members, in_fd.then_some((&columns, &perts)), &raws) {
                            return fail(m);
                        }
                    }
                    from = cur.clone();
                    cur = x.clone();
                    proposed = true;
                    in_fd = false;
                    steps = vec![None; n];
                    proposals += 1;
                    last = x.clone();
                    members = (l.clone(), r.clone());
                    last_members = members.clone();
                    continue;
                } else if in_fd {
                    // a column
                    let diff: Vec<usize> = (0..n).filter(|&i| !same_val(x[i], cur[i])).collect();
                    let lost = (0..n).find(|&i| columns[i].is_none() && perts[i].is_some_and(|p| same_val(cur[i] + p, cur[i])));
                    let j = match (diff.len(), lost) {
                        (1, _) => diff[0],
                        (0, Some(j)) => j,
                        _ => return fail(format!("a column is evaluated at {:?}, from {:?}", x, cur)),
                    };
                    match perts[j] {
                        Some(p) if same_val(x[j], cur[j] + p) => (),
                        p => return fail(format!("unknown {} is perturbed from {:?} to {:?} while the user's perturbation is {:?}", j, cur[j], x[j], p)),
                    }
                    if columns[j].is_some() && !cur.iter().any(|x| !x.is_finite()) {
                        return fail(format!("unknown {} is perturbed twice", j));
                    }
                    columns[j] = Some(residuals(l, r, &c.upd));
                    last_members = (l.clone(), r.clone());
                    last = x.clone();
                    continue;
                } else {
                    // a damped point
                    if !c.damping || !proposed {
                        return fail(format!("{:?} is evaluated without any step or perturbation of the unknowns", x));
                    }
                    for i in 0..n {
                        let (lo, hi) = (from[i].min(cur[i]), from[i].max(cur[i]));
                        let slack = 1e-2 * (1.0 + lo.abs() + hi.abs());
                        if x[i] < lo - slack || x[i] > hi + slack {
                            return fail(format!("damped point {:?} between {:?} and {:?}", x, from, cur));
                        }
                    }
                    cur = x.clone();
                    proposed = false;
                }
                last = x.clone();
                members = (l.clone(), r.clone());
                last_members = members.clone();
            }
        }
    }
    if steps.iter().any(|s| s.is_some()) && ok {
        return fail("the last steps limited are not applied".into());
    }
    if !same_vec(&at, &last) && ok {
        return fail(format!("the model is left at {:?} instead of {:?}", at, last));
    }
    drop(fail);
    v.nontrivial = proposals > 0;
    if proposals > 0 {
        v.classes.push("steps proposed");
    }
    v
}

/// The raw steps handed to the user must solve the linearised equations
fn newton_step(
    c: &RunCase,
    cur: &[f64],
    here: &(Vec<f64>, Vec<f64>),
    last: &(Vec<f64>, Vec<f64>),
    fd: Option<(&Vec<Option<Vec<f64>>>, &Vec<Option<f64>>)>,
    raws: &[f64],
) -> Option<String> {
    let n = c.sys.n;
    let r0 = residuals(&here.0, &here.1, &c.upd);
    let (mut b, mut err) = (vec![vec![0.0; n]; n], 1e-13);
    match fd {
        Some((cols, perts)) => {
            for j in 0..n {
                let (col, p) = (cols[j].as_ref()?, perts[j]?);
                for i in 0..n {
                    b[i][j] = (col[i] - r0[i]) / p;
                }
                err += 16.0 * EPS * (1.0 + ninf(&here.0) + ninf(&here.1) + ninf(&r0)) / p.abs();
            }
            err /= matnorm(&b).max(1e-300);
        }
        None => {
            let (dl, dr) = (c.sys.dleft(cur), c.sys.dright(cur));
            for i in 0..n {
                if c.upd[i] != 0 && !((here.0[i] + here.1[i]).abs() > 1e-3) {
                    return None;
                }
                for j in 0..n {
                    b[i][j] = dnormalize(here.0[i], here.1[i], dl[i][j], dr[i][j], c.upd[i]);
                }
            }
            err += 1e-13 * (1.0 + matnorm(&dl) + matnorm(&dr)) * 1e3 / matnorm(&b).max(1e-300);
        }
    }
    let cnd = cond(&b);
    let rel = 1e-10 + 1e-11 * cnd + 200.0 * cnd * err;
    if !(rel < 1e-3) {
        return None;
    }
    let inv = inverse(&b)?;
    let mut best = f64::INFINITY;
    let mut exp = vec![];
    for m in [here, last] {
        let rb = residuals(&m.0, &m.1, &c.upd);
        let s: Vec<f64> = matvec(&inv, &rb).iter().map(|v| -v).collect();
        let tol = rel * ninf(&s) + 1e-14 * (1.0 + ninf(cur)) + 1e-300;
        let w = ninf(&sub(raws, &s)) / tol;
        if !ninf(&s).is_finite() || !w.is_finite() {
            return None;
        }
        if w < best {
            best = w;
            exp = s;
        }
    }
    if best > 1.0 {
        return Some(format!("from {:?} the steps submitted to the unknowns are {:?} instead of {:?} ({:.1e} times the tolerance)", cur, raws, exp, best));
    }
    None
}

// ------------------------------------------------------------------------------------- C31
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ShowCase {
    run: RunCase,
    #[serde(with = "many")]
    left: Vec<f64>,
    #[serde(with = "many")]
    right: Vec<f64>,
    width: usize,
    #[serde(with = "many")]
    matrix: Vec<f64>,
    /// columns of another matrix
    wide: usize,
    /// runs of one solver, whose debug text is read after each
    #[serde(default)]
    after: Vec<RunCase>,
}
fn gen_c31(u: &mut Src) -> ShowCase {
    let n = if u.chance(1, 200) { u.range(15, 120) } else if u.chance(1, 10) { u.range(7, 14) } else { u.range(1, 6) };
    let mut sys = Sys::affine(u, n.min(3), &vec![1.0; n.min(3)], true);
    sys.n = n;
    sys.left.resize(n, vec![]);
    sys.right.resize(n, vec![]);
    sys.scale.resize(n, 1.0);
    u.extend();
    let iters = (0..n).map(|_| super::parts::gen_wild_iterp(u)).collect::<Vec<_>>();
    let mut iters = iters;
    for p in iters.iter_mut() {
        for d in [0, 1] {
            let w = u.wild().abs();
            let w = if w > 0.0 { w } else { 1e-6 };
            if d == 0 {
                p.dx_abs = w
            } else {
                p.dx_rel = w
            }
        }
        p.sum = u.chance(1, 2);
    }
    let tol = u.wild();
    let run = RunCase {
        sys,
        x0: (0..n).map(|_| u.wild()).collect(),
        method: u.below(10),
        damping: u.chance(1, 2),
        tol: if tol > 0.0 { tol } else { 1e-6 },
        max_iter: if u.chance(1, 4) { u.raw() as usize } else { u.below(60) },
        analytic: u.chance(1, 2),
        fd_params: u.chance(1, 2),
        iters,
        stop: (0..n).map(|_| u.below(3) as u8).collect(),
        upd: (0..n).map(|_| u.below(3) as u8).collect(),
        stat: false,
        faults: vec![],
        echo: vec![],
    };
    let mut after = vec![];
    if u.chance(1, 12) {
        u.extend();
        let mut w = Want::any();
        w.analytic = 8;
        w.faults = 2;
        w.max_n = 4;
        w.max_iter = 9;
        let mut first = gen_run(u, &w);
        first.stat = false;
        after.push(first.clone());
        if u.chance(1, 3) {
            // the same object on another model
            let other = gen_run(u, &w);
            let n = first.sys.n;
            if other.sys.n == n {
                let mut second = first;
                second.sys = other.sys;
                second.faults = other.faults;
                after.push(second);
            }
        }
    }
    ShowCase {
        after,
        run,
        left: (0..n).map(|_| u.wild()).collect(),
        right: (0..n).map(|_| u.wild()).collect(),
        width: u.below(40),
        matrix: (0..n.min(4) * n.min(4)).map(|_| u.wild()).collect(),
        wide: if u.chance(1, 1000) { u.pick(&[5, 17, 61, 64, 100, 220]) } else { 0 },
    }
}
/// The table of unknowns whose type shows itself its way, with or without what finite differences need
fn own_table(values: &[f64], other: f64, fd: bool) -> Option<String> {
    #[derive(Debug)]
    struct Plain(f64, f64);
    #[derive(Debug)]
    struct Differ(f64, f64);
    impl fmt::Display for Plain {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, " own {:?} and {:?} |", self.0, self.1)
        }
    }
    impl fmt::Display for Differ {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            write!(f, " own {:?} and {:?} |", self.0, self.1)
        }
    }
    impl Iterative for Plain {
        fn step_limitation(&self, x: f64, step: f64) -> f64 {
            x + step
        }
    }
    impl Iterative for Differ {
        fn step_limitation(&self, x: f64, step: f64) -> f64 {
            x + step
        }
        fn with_finite_diff(&self) -> bool {
            true
        }
    }
    let text = if fd {
        let own: Vec<Differ> = values.iter().map(|v| Differ(*v, other)).collect();
        Iteratives::new(&own).to_string()
    } else {
        let own: Vec<Plain> = values.iter().map(|v| Plain(*v, other)).collect();
        Iteratives::new(&own).to_string()
    };
    let Some(head) = text.lines().find(|l| l.contains("max_step_abs")) else { return Some(format!("no header: {}", text)) };
    for name in ["perturbation", "dx_abs", "dx_rel"] {
        if head.contains(name) != fd {
            return Some(format!("header {:?} for unknowns {} finite differences", head, if fd { "with" } else { "without" }));
        }
    }
    for (i, v) in values.iter().enumerate() {
        let own = format!("own {:?} and {:?} |", v, other);
        let row = text.lines().find(|l| l.trim_start_matches('|').trim().split('|').next().map(|c| c.trim() == i.to_string()).unwrap_or(false));
        if !row.is_some_and(|r| r.trim_end().ends_with(&own)) {
            return Some(format!("unknown {} which shows itself as {:?}: {:?}", i, own, row));
        }
    }
    None
}

/// The text of a field in a debug text, up to the next field known
fn field<'t>(text: &'t str, label: &str) -> Option<&'t str> {
    const LABELS: [&str; 11] = [
        "Solver parameters",
        "Initial Guess",
        "Iterative configuration",
        "Residual configuration",
        "Debug option activated",
        "Current iteration",
        "Status last model evaluation",
        "Placeholder jacobian",
        "Placeholder iterative step",
        "Placeholder residual step",
        "Placeholder current residual",
    ];
    let at = text.find(&format!("{}: ", label))? + label.len() + 2;
    let rest = &text[at..];
    let end = LABELS.iter().filter_map(|l| rest.find(&format!(", {}: ", l))).min().unwrap_or(rest.len());
    Some(rest[..end].trim())
}
/// The numbers of a vector that is there
fn numbers(text: &str) -> Option<Vec<f64>> {
    let inside = text.strip_prefix("Some(")?;
    let inside = &inside[..inside.find(']')?];
    let inside = &inside[inside.rfind('[')? + 1..];
    let ok = |c: char| c.is_ascii_digit() || "+-.e".contains(c) || "NaNinf".contains(c);
    let out = inside.split(|c| !ok(c)).filter(|t| !t.is_empty()).map(|t| t.parse::<f64>()).collect::<Result<Vec<_>, _>>().ok()?;
    Some(out)
}

/// The debug text of a solver that was used tells where it stopped.
/// A field named otherwise is not looked at.
fn debug_after(cases: &[RunCase]) -> (Option<String>, bool) {
    let c = &cases[0];
    let cfg = config_of(c);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let it: Vec<_> = c.iters.iter().map(|i| i.plain()).collect();
    let its = Iteratives::new(&it);
    let d = Dyn(c.sys.n);
    let mut rf = RootFinder::new(params_of(c), vec_of(d, &c.x0), &its, &rc);
    let mut stepped = false;
    for c in cases {
        let mut model = TraceModel::new(d, &c.sys, true, &c.faults);
        model.cap = cap_of(c);
        let (outcome, _, _) = outcome_of(caught(|| rf.solve(&mut model)));
        if !matches!(outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final) {
            // where it stopped is told by the error
            return (None, stepped);
        }
        let text = format!("{:?}", rf);
        let evs = model.evs.borrow();
        let mut evals: Vec<(Vec<f64>, Vec<f64>, bool)> = vec![];
        for e in evs.iter() {
            if let Ev::Eval { x, l, r, hit, .. } = e {
                evals.push((x.clone(), residuals(l, r, &c.upd), hit.is_none()));
            }
        }
        let Some(last) = evals.last() else { return (None, stepped) };
        if let Some(f) = field(&text, "Debug option activated") {
            if f != "false" {
                return (Some(format!("no log was asked for, the debug text tells {:?}", f)), stepped);
            }
        }
        if let Some(f) = field(&text, "Status last model evaluation") {
            if f != last.2.to_string() {
                return (Some(format!("the last evaluation was {}, the debug text tells {:?}", if last.2 { "accurate" } else { "inaccurate" }, f)), stepped);
            }
        }
        if c.damping {
            continue;
        }
        if let Some(f) = field(&text, "Current iteration") {
            if f != (evals.len() - 1).to_string() {
                return (Some(format!("{} iterations were made, the debug text tells {:?}", evals.len() - 1, f)), stepped);
            }
        }
        if evals.len() < 2 {
            continue;
        }
        let prev = &evals[evals.len() - 2];
        let diff = |a: &[f64], b: &[f64]| a.iter().zip(b).map(|(p, q)| p - q).collect::<Vec<f64>>();
        let wants = [
            ("Placeholder iterative step", diff(&last.0, &prev.0), &last.0, &prev.0),
            ("Placeholder residual step", diff(&last.1, &prev.1), &last.1, &prev.1),
            ("Placeholder current residual", last.1.clone(), &last.1, &last.1),
        ];
        for (label, want, p, q) in wants {
            let Some(got) = field(&text, label).and_then(numbers) else { continue };
            stepped = true;
            let far = |i: usize| {
                let (g, w) = (got[i], want[i]);
                !(same_val(g, w) || !w.is_finite() || (g - w).abs() <= 1e-12 * (p[i].abs() + q[i].abs()) + 1e-300)
            };
            if got.len() != want.len() || (0..want.len()).any(far) {
                return (Some(format!("{}: {:?} instead of {:?}", label, got, want)), stepped);
            }
        }
    }
    (None, stepped)
}

fn check_c31(s: &ShowCase) -> Verdict {
    let c = &s.run;
    let n = c.sys.n;
    let mut v = Verdict::ok(true);
    let res = ResidualsValues::new(DVector::from_vec(s.left.clone()), DVector::from_vec(s.right.clone()));
    if res.len() != n || res.shape() != n || res.shape_generic() != Dyn(n) {
        return Verdict::fail(format!("residuals of size {}, {}, {:?} for {} equations", res.len(), res.shape(), res.shape_generic(), n));
    }
    let eq = |t: &str, i: usize| -> Option<String> {
        let p: Vec<&str> = t.split(" = ").collect();
        if p.len() != 2 {
            return Some(format!("equation {}: {:?}", i, t));
        }
        match (p[0].trim().parse::<f64>(), p[1].trim().parse::<f64>()) {
            (Ok(a), Ok(b)) if same(a, s.left[i]) && same(b, s.right[i]) => None,
            _ => Some(format!("equation {} shown as {:?} for {:?} = {:?}", i, t, s.left[i], s.right[i])),
        }
    };
    let text = res.to_string();
    let rows: Vec<&str> = text.lines().filter(|l| l.starts_with("Eq")).collect();
    if rows.len() != n {
        return Verdict::fail(format!("{} equations shown out of {}", rows.len(), n));
    }
    for (i, row) in rows.iter().enumerate() {
        let Some((head, body)) = row.split_once(" : ") else { return Verdict::fail(format!("row {:?}", row)) };
        if head.split_whitespace().last() != Some(i.to_string().as_str()) {
            return Verdict::fail(format!("equation {} is numbered {:?}", i, head));
        }
        v.fail = v.fail.or(eq(body, i));
        let one = res.get_values_str_eq(i, s.width);
        v.fail = v.fail.or(eq(&one, i));
        let (a, b) = res.get_values(i);
        if !same(a, s.left[i]) || !same(b, s.right[i]) {
            v.fail = Some(format!("equation {} read as {:?} = {:?}", i, a, b));
        }
    }
    if v.fail.is_some() {
        return v;
    }
    // the configurations
    let cfg = config_of(c);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let params = params_of(c);
    fn shown<T: Iterative + fmt::Display + fmt::Debug>(c: &RunCase, it: &[T], rc: &ResidualsConfig, params: String) -> Result<(String, String), String> {
        let its = Iteratives::new(it);
        if its.len() != c.sys.n {
            return Err(format!("{} unknowns announced instead of {}", its.len(), c.sys.n));
        }
        let rf = RootFinder::new(params_of(c), DVector::from_vec(c.x0.clone()), &its, rc);
        Ok((format!("{}\n{}\n{}", params, its, rc), format!("{:?}", rf)))
    }
    let texts = if c.analytic && !c.fd_params {
        shown(c, &c.iters.iter().map(|i| i.plain()).collect::<Vec<_>>(), &rc, params.to_string())
    } else {
        shown(c, &c.iters.iter().map(|i| i.fd()).collect::<Vec<_>>(), &rc, params.to_string())
    };
    let (text, debug) = match texts {
        Ok(t) => t,
        Err(m) => return Verdict::fail(m),
    };
    let head: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    if let Some(m) = check_config(c, &head) {
        return Verdict::fail(m);
    }
    for v in &c.x0 {
        if !debug.contains(&format!("{:?}", v)) {
            return Verdict::fail(format!("the debug text of the solver does not tell its guess {:?}: {}", v, debug));
        }
    }
    if !debug.contains(&format!("{:?}", params)) {
        return Verdict::fail(format!("the debug text of the solver does not tell its parameters: {}", debug));
    }
    if !s.after.is_empty() {
        let (fail, stepped) = debug_after(&s.after);
        if let Some(m) = fail {
            return Verdict::fail(m);
        }
        v.classes.push("with a solver that was used");
        if stepped {
            v.classes.push("with steps told by a used solver");
        }
    }
    // unknowns of the user's own kinds
    if let Some(m) = own_table(&c.x0, s.left[0], false).or_else(|| own_table(&c.x0, s.left[0], true)) {
        return Verdict::fail(m);
    }
    // a matrix of many columns
    if s.wide > 0 {
        let k = s.wide;
        let inv = DMatrix::from_fn(k, k, |i, j| s.matrix[(7 * i + 3 * j + i * j) % s.matrix.len()] / (1.0 + j as f64));
        let mut holder: JacobianMatrix<Dyn> = JacobianMatrix::new();
        holder.update_inverse(inv.clone());
        let text = match caught(|| holder.to_string()) {
            Ok(t) => t,
            Err(e) => return Verdict::fail(format!("displaying an inverse of {} columns: {}", k, e)),
        };
        let rows: Vec<Vec<f64>> =
            text.lines().filter(|l| l.contains('│')).map(|l| l.replace('│', " ").split_whitespace().filter_map(|t| t.parse::<f64>().ok()).collect()).collect();
        if rows.len() != k || (0..k).any(|i| rows[i].len() != k) {
            return Verdict::fail(format!("{} rows shown of an inverse of {}", rows.len(), k));
        }
        for i in 0..k {
            for j in 0..k {
                if !same_val(rows[i][j], inv[(i, j)]) {
                    return Verdict::fail(format!("entry ({}, {}) of an inverse of {} columns is {:?}, shown as {:?}", i, j, k, inv[(i, j)], rows[i][j]));
                }
            }
        }
        v.classes.push("with many columns");
    }
    // a matrix
    let k = n.min(4);
    let m = DMatrix::from_row_slice(k, k, &s.matrix);
    let mut holder: JacobianMatrix<Dyn> = JacobianMatrix::new();
    let before = holder.to_string();
    if before.lines().any(|l| l.contains('│')) {
        return Verdict::fail("a matrix is shown before any was computed");
    }
    if !s.matrix.iter().all(|v| v.is_finite()) {
        return v;
    }
    if holder.update_jacobian_with_exact_value(m.clone()).is_err() {
        return v;
    }
    v.classes.push("with a regular matrix");
    let text = holder.to_string();
    let mut rows: Vec<Vec<f64>> = vec![];
    for l in text.lines().filter(|l| l.contains('│')) {
        match l.replace('│', " ").split_whitespace().map(|t| t.parse::<f64>()).collect::<Result<Vec<f64>, _>>() {
            Ok(r) => rows.push(r),
            Err(_) => return Verdict::fail(format!("unreadable matrix row {:?}", l)),
        }
    }
    let inv = holder.get_inverse().clone();
    let debug = format!("{:?}", holder);
    for (name, held) in [("matrix", Some(&m)), ("inverse", inv.as_ref())] {
        if let Some(held) = held {
            if !debug.contains(&format!("{:?}", held)) {
                return Verdict::fail(format!("the debug text of the holder does not tell its {} {:?}: {}", name, held, debug));
            }
        }
    }
    if let Some(inv) = inv {
        if inv.iter().all(|v| v.is_finite()) && (rows.len() != 2 * k || (0..k).any(|i| rows[k + i].len() != k || (0..k).any(|j| !same_val(rows[k + i][j], inv[(i, j)])))) {
            return Verdict::fail(format!("the inverse {} is shown as {}", inv, text));
        }
    }
    if rows.len() < k || (0..k).any(|i| rows[i].len() != k || (0..k).any(|j| !same_val(rows[i][j], m[(i, j)]))) {
        return Verdict::fail(format!("the matrix {} is shown as {}", m, text));
    }
    v
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![
        Box::new(Prop { id: "C30", rule: "Random runs whose unknowns are described by the harness's own implementations of Iterative (eight step rules, four perturbation rules including negative ones), on models written with the default methods; non-trivial: at least one step was proposed.", len: 420, quick: 800_000, mult: 25, gen: gen_c30, check: check_c30, assumptions: &[] }),
        Box::new(Prop { id: "C31", rule: "Random configurations, member values and matrices made of arbitrary floats, displayed and read back; non-trivial: always.", len: 420, quick: 150_000, mult: 25, gen: gen_c31, check: check_c31, assumptions: &[] }),
    ]
}
