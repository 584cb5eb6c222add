//! Traced models and runs of the real solver on them.
use crate::engine::{caught, Src};
use crate::fser;
use crate::sys::Sys;
use nalgebra::allocator::Allocator;
use nalgebra::{Const, DefaultAllocator, Dim, DimMin, Dyn, OMatrix, OVector, U1};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::model::{Model, ModelError};
use nrf::residuals::{JacobianValues, NormalizationMethod, ResidualsConfig, ResidualsValues};
use nrf::solver::{QuasiNewtonMethod, ResolutionMethod, RootFinder, SolverParameters, UpdateQuasiNewtonMethod};
use serde::{Deserialize, Serialize};
use std::f64::EPSILON;
use std::cell::RefCell;
use std::fmt;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IterP {
    #[serde(with = "fser::one")]
    pub max_step_abs: f64,
    #[serde(with = "fser::one")]
    pub max_step_rel: f64,
    #[serde(with = "fser::one")]
    pub min: f64,
    #[serde(with = "fser::one")]
    pub max: f64,
    #[serde(with = "fser::one")]
    pub dx_abs: f64,
    #[serde(with = "fser::one")]
    pub dx_rel: f64,
    pub sum: bool,
}

impl IterP {
    pub fn free() -> Self {
        IterP {
            max_step_abs: f64::INFINITY,
            max_step_rel: f64::INFINITY,
            min: f64::NEG_INFINITY,
            max: f64::INFINITY,
            dx_abs: 5e-8,
            dx_rel: 5e-8,
            sum: false,
        }
    }
    pub fn plain(&self) -> IterativeParams {
        IterativeParams::new(self.max_step_abs, self.max_step_rel, self.min, self.max)
    }
    pub fn pert(&self) -> PerturbationMethod {
        if self.sum {
            PerturbationMethod::Sum
        } else {
            PerturbationMethod::Max
        }
    }
    pub fn fd(&self) -> IterativeParamsFD {
        IterativeParamsFD::new(self.max_step_abs, self.max_step_rel, self.min, self.max, self.dx_abs, self.dx_rel, self.pert())
    }
    pub fn dx(&self, x: f64) -> f64 {
        let rel = self.dx_rel * x.abs();
        if self.sum {
            self.dx_abs + rel
        } else if self.dx_abs > rel {
            self.dx_abs
        } else {
            rel
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    /// at a Jacobian call rather than an evaluation
    pub jac: bool,
    pub at: usize,
    pub unusable: bool,
    /// how the error shows itself
    #[serde(default)]
    pub style: u8,
}

/// The evaluation `at` gives the members that the evaluation `at - back` gave,
/// their differences changed by the relative amount `by`
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Echo {
    pub at: usize,
    pub back: usize,
    #[serde(with = "fser::one")]
    pub by: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct RunCase {
    pub sys: Sys,
    #[serde(with = "fser::many")]
    pub x0: Vec<f64>,
    /// index in METHODS
    pub method: usize,
    pub damping: bool,
    #[serde(with = "fser::one")]
    pub tol: f64,
    pub max_iter: usize,
    pub analytic: bool,
    /// iterative parameters of the finite difference kind
    pub fd_params: bool,
    pub iters: Vec<IterP>,
    pub stop: Vec<u8>,
    pub upd: Vec<u8>,
    pub stat: bool,
    pub faults: Vec<Fault>,
    /// evaluations that give again the members of a former one, almost
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub echo: Vec<Echo>,
}

pub const METHODS: [&str; 10] =
    ["NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV"];

pub fn method(i: usize) -> ResolutionMethod {
    use UpdateQuasiNewtonMethod::*;
    let up = [BroydenFirstMethod, BroydenSecondMethod, GreenstadtFirstMethod, GreenstadtSecondMethod];
    match i {
        0 => ResolutionMethod::NewtonRaphson,
        1 => ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton),
        _ => {
            let m = up[(i - 2) / 2];
            ResolutionMethod::QuasiNewton(if i % 2 == 0 {
                QuasiNewtonMethod::JacobianUpdate(m)
            } else {
                QuasiNewtonMethod::InverseJacobianUpdate(m)
            })
        }
    }
}

pub fn norm(i: u8) -> NormalizationMethod {
    match i {
        0 => NormalizationMethod::Abs,
        1 => NormalizationMethod::Rel,
        _ => NormalizationMethod::Adapt,
    }
}

#[derive(Debug)]
pub struct Inacc(pub u64);
#[derive(Debug)]
pub struct Unus(pub u64);
/// The text of an error, as a user may write it
fn words(name: &str, id: u64, f: &mut fmt::Formatter) -> fmt::Result {
    match id / STYLE {
        0 => write!(f, "{}<{}>", name, id),
        1 => write!(f, "{}<{}>{}", name, id, " and so on".repeat(60)),
        2 => write!(f, "two lines:\n  {}<{}>\tand a third\n\n", name, id),
        3 => write!(f, "\"λ\" {{}} {{0}} %s \\n {}<{}> 'é\u{1F600}'", name, id),
        4 => write!(f, "  {}<{}>, Jacobian error: Invalid jacobian: ", name, id),
        // nothing to say
        _ => Ok(()),
    }
}
impl fmt::Display for Inacc {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        words("inaccurate", self.0, f)
    }
}
impl fmt::Display for Unus {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        words("unusable", self.0, f)
    }
}
impl std::error::Error for Inacc {}
impl std::error::Error for Unus {}

/// (unusable, payload)
pub type Hit = Option<(bool, u64)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Set(Vec<f64>),
    Eval { x: Vec<f64>, l: Vec<f64>, r: Vec<f64>, mem: Vec<f64>, hit: Hit },
    Jac { x: Vec<f64>, l: Vec<f64>, r: Vec<f64>, hit: Hit },
    GetMem,
    SetMem(Vec<f64>),
}

const STYLE: u64 = 1_000_000;
pub fn payload(f: &Fault) -> u64 {
    f.style as u64 * STYLE + 1000 + f.at as u64 * 4 + f.jac as u64 * 2 + f.unusable as u64
}

pub struct TraceModel<'a, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub sys: &'a Sys,
    pub d: D,
    pub x: OVector<f64, D>,
    pub l: OVector<f64, D>,
    pub r: OVector<f64, D>,
    pub mem: Vec<f64>,
    pub analytic: bool,
    pub faults: &'a [Fault],
    pub echo: &'a [Echo],
    pub evs: RefCell<Vec<Ev>>,
    pub evals: usize,
    pub jacs: usize,
    pub cap: usize,
    pub calls: usize,
    pub crash_at: Option<usize>,
    pub watch: Option<String>,
    pub lens: Vec<u64>,
    /// called with the number of each call, before it is served
    pub hook: Option<Hook<'a>>,
}
pub type Hook<'a> = std::rc::Rc<dyn Fn(usize) + 'a>;

pub const CAP: &str = "EVALUATION-CAP";
pub const CRASH: &str = "MODEL-CRASH";

pub fn vec_of<D>(d: D, v: &[f64]) -> OVector<f64, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D>,
{
    OVector::from_iterator_generic(d, Const::<1>, v.iter().copied())
}
pub fn mat_of<D>(d: D, m: &[Vec<f64>]) -> OMatrix<f64, D, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D, D>,
{
    OMatrix::from_fn_generic(d, d, |i, j| m[i][j])
}

impl<'a, D> TraceModel<'a, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub fn new(d: D, sys: &'a Sys, analytic: bool, faults: &'a [Fault]) -> Self {
        let nan = vec![f64::NAN; sys.n];
        TraceModel {
            sys,
            d,
            x: vec_of(d, &vec![0.0; sys.n]),
            l: vec_of(d, &nan),
            r: vec_of(d, &nan),
            mem: vec![0.25; sys.mem],
            analytic,
            faults,
            echo: &[],
            evs: RefCell::new(vec![]),
            evals: 0,
            jacs: 0,
            cap: usize::MAX,
            calls: 0,
            crash_at: None,
            watch: None,
            lens: vec![],
            hook: None,
        }
    }

    fn call(&mut self) {
        if let Some(p) = &self.watch {
            self.lens.push(std::fs::metadata(p).map(|m| m.len()).unwrap_or(0));
        }
        let k = self.calls;
        self.calls += 1;
        if self.crash_at == Some(k) {
            panic!("{}", CRASH);
        }
        if let Some(h) = self.hook.clone() {
            h(k);
        }
    }

    pub fn xs(&self) -> Vec<f64> {
        self.x.iter().copied().collect()
    }
    pub fn ls(&self) -> Vec<f64> {
        self.l.iter().copied().collect()
    }
    pub fn rs(&self) -> Vec<f64> {
        self.r.iter().copied().collect()
    }
    fn hit(&self, jac: bool, at: usize) -> Hit {
        self.faults.iter().find(|f| f.jac == jac && f.at == at).map(|f| (f.unusable, payload(f)))
    }
}

impl<'a, D> Model<D> for TraceModel<'a, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    type InaccurateValuesError = Inacc;
    type UnusableValuesError = Unus;

    fn len_problem(&self) -> usize {
        self.sys.n
    }
    fn set_iteratives(&mut self, it: &OVector<f64, D>) {
        self.call();
        self.x = it.clone();
        let ev = Ev::Set(self.xs());
        self.evs.borrow_mut().push(ev);
    }
    fn get_iteratives(&self) -> OVector<f64, D> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        self.call();
        let at = self.evals;
        self.evals += 1;
        if self.evals > self.cap {
            panic!("{}", CAP);
        }
        let x = self.xs();
        let mut l = self.sys.left(&x);
        let mut r = self.sys.right(&x);
        let before = self.mem.clone();
        if !self.mem.is_empty() {
            let m = self.mem.len();
            for (i, v) in l.iter_mut().enumerate().filter(|_| self.sys.mu != 0.0) {
                *v += self.sys.mu * self.mem[i % m];
            }
            for j in 0..m {
                self.mem[j] = 0.5 * self.mem[j] + x[self.sys.mem_src(j)] + 1.0;
            }
        }
        if let Some(e) = self.echo.iter().find(|e| e.at == at && e.back <= at) {
            let k = at - e.back;
            let former = self.evs.borrow().iter().filter_map(|v| if let Ev::Eval { l, r, .. } = v { Some((l.clone(), r.clone())) } else { None }).nth(k);
            if let Some((fl, fr)) = former {
                l = fl.iter().zip(&fr).map(|(a, b)| b + (a - b) * (1.0 + e.by)).collect();
                r = fr;
            }
        }
        let hit = self.hit(false, at);
        self.l = vec_of(self.d, &l);
        self.r = vec_of(self.d, &r);
        self.evs.borrow_mut().push(Ev::Eval { x, l, r, mem: before, hit });
        match hit {
            None => Ok(()),
            Some((false, id)) => Err(ModelError::InaccurateValuesError(Inacc(id))),
            Some((true, id)) => Err(ModelError::UnusableValuesError(Unus(id))),
        }
    }
    fn get_residuals(&self) -> ResidualsValues<D> {
        ResidualsValues::new(self.l.clone(), self.r.clone())
    }
    fn jacobian_provided(&self) -> bool {
        self.analytic
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        self.call();
        let at = self.jacs;
        self.jacs += 1;
        if self.jacs > self.cap {
            panic!("{}", CAP);
        }
        let x = self.xs();
        let hit = self.hit(true, at);
        let (l, r) = (self.ls(), self.rs());
        self.evs.borrow_mut().push(Ev::Jac { x: x.clone(), l, r, hit });
        match hit {
            None => Ok(JacobianValues::new(mat_of(self.d, &self.sys.dleft(&x)), mat_of(self.d, &self.sys.dright(&x)))),
            Some((false, id)) => Err(ModelError::InaccurateValuesError(Inacc(id))),
            Some((true, id)) => Err(ModelError::UnusableValuesError(Unus(id))),
        }
    }
    fn get_memory(&self) -> nalgebra::DVector<f64> {
        self.evs.borrow_mut().push(Ev::GetMem);
        nalgebra::DVector::from_vec(self.mem.clone())
    }
    fn set_memory(&mut self, memory: &nalgebra::DVector<f64>) {
        self.call();
        self.mem = memory.iter().copied().collect();
        self.evs.borrow_mut().push(Ev::SetMem(self.mem.clone()));
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    NonConv,
    InitEval(String),
    /// (unusable, payload)
    ModelEval(bool, u64),
    JacModel(bool, u64),
    JacInv,
    Final,
    Panic(String),
    Cap,
    Crash,
}

#[derive(Clone, Debug)]
pub struct RunOut {
    pub outcome: Outcome,
    pub text: String,
    pub debug_text: String,
    pub evs: Vec<Ev>,
    pub x: Vec<f64>,
    pub l: Vec<f64>,
    pub r: Vec<f64>,
    pub mem: Vec<f64>,
    pub lens: Vec<u64>,
}

impl RunOut {
    pub fn evals(&self) -> Vec<&Ev> {
        self.evs.iter().filter(|e| matches!(e, Ev::Eval { .. })).collect()
    }
    pub fn points(&self) -> Vec<&Vec<f64>> {
        self.evs
            .iter()
            .filter_map(|e| match e {
                Ev::Eval { x, .. } => Some(x),
                _ => None,
            })
            .collect()
    }
    /// panics and the like that no valid run may end with
    pub fn broken(&self) -> Option<String> {
        match &self.outcome {
            Outcome::Panic(p) => Some(format!("solve panicked: {}", p)),
            Outcome::Cap => Some("solve exceeded any legitimate number of model evaluations".into()),
            _ => None,
        }
    }
}

#[derive(Default, Clone)]
pub struct RunOpts {
    pub log: Option<String>,
    pub crash_at: Option<usize>,
    pub watch: bool,
    /// iteratives of the model before the solve
    pub stale: Option<Vec<f64>>,
    pub hook: Option<Hook<'static>>,
}

/// What solve may spend at most
pub fn cap_of(c: &RunCase) -> usize {
    4 + c.max_iter.min(100_000) * (c.sys.n + 3) * 2
}

pub fn outcome_of<D>(res: Result<Result<(), SolverError<TraceModel<'_, D>, D>>, String>) -> (Outcome, String, String)
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let kind = |e: &ModelError<TraceModel<'_, D>, D>| match e {
        ModelError::InaccurateValuesError(i) => (false, i.0),
        ModelError::UnusableValuesError(u) => (true, u.0),
    };
    match res {
        Err(p) if p.contains(CAP) => (Outcome::Cap, p, String::new()),
        Err(p) if p.contains(CRASH) => (Outcome::Crash, p, String::new()),
        Err(p) => (Outcome::Panic(p.clone()), p, String::new()),
        Ok(Ok(())) => (Outcome::Ok, String::new(), String::new()),
        Ok(Err(e)) => {
            let text = e.to_string();
            let dbg = format!("{:?}", e);
            let o = match &e {
                SolverError::NonConvergenceError => Outcome::NonConv,
                SolverError::ModelInitialEvaluationError(s) => Outcome::InitEval(s.clone()),
                SolverError::ModelEvaluationError(m) => {
                    let (u, i) = kind(m);
                    Outcome::ModelEval(u, i)
                }
                SolverError::JacobianError(SolverInternalError::InvalidJacobianError(m)) => {
                    let (u, i) = kind(m);
                    Outcome::JacModel(u, i)
                }
                SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError) => Outcome::JacInv,
                SolverError::FinalEvaluationError => Outcome::Final,
            };
            (o, text, dbg)
        }
    }
}

pub struct Config {
    pub stop: Vec<NormalizationMethod>,
    pub upd: Vec<NormalizationMethod>,
}

pub fn config_of(c: &RunCase) -> Config {
    Config { stop: c.stop.iter().map(|&i| norm(i)).collect(), upd: c.upd.iter().map(|&i| norm(i)).collect() }
}

pub fn params_of(c: &RunCase) -> SolverParameters {
    SolverParameters::new(c.sys.n, c.tol, c.max_iter, method(c.method), c.damping)
}

fn run_with<D, T>(d: D, c: &RunCase, iters: &[T], o: &RunOpts) -> RunOut
where
    D: DimMin<D, Output = D>,
    T: Iterative + fmt::Display + fmt::Debug,
    DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
{
    let cfg = config_of(c);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let its = Iteratives::new(iters);
    let mut model = TraceModel::new(d, &c.sys, c.analytic, &c.faults);
    model.cap = cap_of(c);
    model.echo = &c.echo;
    model.crash_at = o.crash_at;
    model.hook = o.hook.clone();
    if let Some(s) = &o.stale {
        model.x = vec_of(d, s);
        model.l = vec_of(d, s);
        model.r = vec_of(d, s);
    }
    if o.watch {
        model.watch = o.log.clone();
    }
    let res = caught(|| {
        let mut rf = RootFinder::new(params_of(c), vec_of(d, &c.x0), &its, &rc);
        if let Some(p) = &o.log {
            rf.activate_debug(p);
        }
        rf.solve(&mut model)
    });
    out_of(model, outcome_of(res))
}

#[macro_export]
macro_rules! with_dim {
    ($n:expr, $stat:expr, $d:ident, $body:expr) => {{
        if $stat {
            match $n {
                1 => { let $d = nalgebra::Const::<1>; $body }
                2 => { let $d = nalgebra::Const::<2>; $body }
                3 => { let $d = nalgebra::Const::<3>; $body }
                4 => { let $d = nalgebra::Const::<4>; $body }
                5 => { let $d = nalgebra::Const::<5>; $body }
                6 => { let $d = nalgebra::Const::<6>; $body }
                _ => { let $d = nalgebra::Dyn($n); $body }
            }
        } else {
            let $d = nalgebra::Dyn($n);
            $body
        }
    }};
}

pub fn run_opts(c: &RunCase, o: &RunOpts) -> RunOut {
    let n = c.sys.n;
    if c.analytic && !c.fd_params {
        let it: Vec<IterativeParams> = c.iters.iter().map(|i| i.plain()).collect();
        with_dim!(n, c.stat, d, run_with(d, c, &it, o))
    } else {
        let it: Vec<IterativeParamsFD> = c.iters.iter().map(|i| i.fd()).collect();
        with_dim!(n, c.stat, d, run_with(d, c, &it, o))
    }
}

pub fn run(c: &RunCase) -> RunOut {
    run_opts(c, &RunOpts::default())
}

/// Several solves on one solver object: (system, faults, stale iteratives of the model) for each of them
pub fn run_sequence(c: &RunCase, seq: &[(Sys, Vec<Fault>, bool, Vec<f64>)]) -> Vec<RunOut> {
    run_sequence_logged(c, seq, &[])
}

/// The same, the log being activated before some of the solves, on the files given
pub fn run_sequence_logged(c: &RunCase, seq: &[(Sys, Vec<Fault>, bool, Vec<f64>)], logs: &[Option<String>]) -> Vec<RunOut> {
    fn go<D, T>(d: D, c: &RunCase, iters: &[T], seq: &[(Sys, Vec<Fault>, bool, Vec<f64>)], logs: &[Option<String>]) -> Vec<RunOut>
    where
        D: DimMin<D, Output = D>,
        T: Iterative + fmt::Display + fmt::Debug,
        DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
    {
        let cfg = config_of(c);
        let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
        let its = Iteratives::new(iters);
        let mut rf = RootFinder::new(params_of(c), vec_of(d, &c.x0), &its, &rc);
        let mut out = vec![];
        for (k, (sys, faults, analytic, stale)) in seq.iter().enumerate() {
            if let Some(Some(p)) = logs.get(k) {
                rf.activate_debug(p);
            }
            let mut model = TraceModel::new(d, sys, *analytic, faults);
            model.cap = cap_of(c);
            model.x = vec_of(d, stale);
            let res = caught(|| rf.solve(&mut model));
            let o = out_of(model, outcome_of(res));
            let stop = matches!(o.outcome, Outcome::Panic(_) | Outcome::Cap);
            out.push(o);
            if stop {
                break;
            }
        }
        out
    }
    let n = c.sys.n;
    let it: Vec<IterativeParamsFD> = c.iters.iter().map(|i| i.fd()).collect();
    with_dim!(n, c.stat, d, go(d, c, &it, seq, logs))
}

/// Two solvers built on the same configuration objects; the second one solves entirely at call `at` of the first one's model
pub fn run_shared(c: &RunCase, inner: &(Sys, Vec<Fault>, bool), at: usize, logs: &[Option<String>]) -> (RunOut, Option<RunOut>) {
    fn go<D, T>(d: D, c: &RunCase, iters: &[T], inner: &(Sys, Vec<Fault>, bool), at: usize, logs: &[Option<String>]) -> (RunOut, Option<RunOut>)
    where
        D: DimMin<D, Output = D>,
        T: Iterative + fmt::Display + fmt::Debug,
        DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
    {
        let cfg = config_of(c);
        let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
        let its = Iteratives::new(iters);
        let mut a = RootFinder::new(params_of(c), vec_of(d, &c.x0), &its, &rc);
        let b = RefCell::new(RootFinder::new(params_of(c), vec_of(d, &c.x0), &its, &rc));
        if let Some(p) = &logs[0] {
            a.activate_debug(p);
        }
        if let Some(p) = &logs[1] {
            b.borrow_mut().activate_debug(p);
        }
        let got: RefCell<Option<RunOut>> = RefCell::new(None);
        let mut model = TraceModel::new(d, &c.sys, c.analytic, &c.faults);
        model.cap = cap_of(c);
        model.hook = Some(std::rc::Rc::new(|k| {
            if k != at {
                return;
            }
            let mut m = TraceModel::new(d, &inner.0, inner.2, &inner.1);
            m.cap = cap_of(c);
            let res = caught(|| b.borrow_mut().solve(&mut m));
            *got.borrow_mut() = Some(out_of(m, outcome_of(res)));
        }));
        let res = caught(|| a.solve(&mut model));
        let out = out_of(model, outcome_of(res));
        let g = got.borrow_mut().take();
        (out, g)
    }
    let n = c.sys.n;
    let it: Vec<IterativeParamsFD> = c.iters.iter().map(|i| i.fd()).collect();
    with_dim!(n, c.stat, d, go(d, c, &it, inner, at, logs))
}

fn out_of<D>(model: TraceModel<'_, D>, (outcome, text, debug_text): (Outcome, String, String)) -> RunOut
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    RunOut {
        outcome,
        text,
        debug_text,
        x: model.xs(),
        l: model.ls(),
        r: model.rs(),
        mem: model.mem.clone(),
        lens: model.lens.clone(),
        evs: model.evs.into_inner(),
    }
}

#[allow(dead_code)]
pub fn dyn_dim(n: usize) -> Dyn {
    Dyn(n)
}

// ---------------------------------------------------------------------------------------------
// Generation of runs

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flavor {
    /// near a simple root of a well conditioned system
    Near,
    Affine,
    Smooth,
    Wobbly,
    Nasty,
}

/// What a property wants its runs to look like
#[derive(Clone)]
pub struct Want {
    pub flavors: &'static [Flavor],
    pub methods: &'static [usize],
    pub max_n: usize,
    /// out of 8: step limits and bounds
    pub limits: usize,
    /// out of 8: damping
    pub damping: usize,
    /// out of 8: analytic Jacobian
    pub analytic: usize,
    /// out of 8: normalizations other than absolute
    pub norms: usize,
    /// out of 8: faults
    pub faults: usize,
    pub unusable: bool,
    pub max_iter: usize,
}

pub const ALL_METHODS: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
pub const QUASI: [usize; 9] = [1, 2, 3, 4, 5, 6, 7, 8, 9];

impl Want {
    pub fn any() -> Want {
        Want {
            flavors: &[Flavor::Near, Flavor::Affine, Flavor::Smooth, Flavor::Wobbly],
            methods: &ALL_METHODS,
            max_n: 5,
            limits: 3,
            damping: 4,
            analytic: 4,
            norms: 3,
            faults: 0,
            unusable: false,
            max_iter: 14,
        }
    }
}

/// Steps whose error is that of the point they start from, almost or exactly
pub fn gen_echo(u: &mut Src, c: &mut RunCase) {
    let n = c.sys.n;
    for _ in 0..u.range(1, 3) {
        let at = u.range(1, 6 + if c.analytic { 0 } else { 3 * n });
        let back = u.pick(&[1, 2, 1 + n, 2 + n, 2, 1 + n]);
        let by = u.pick(&[0.0, EPSILON, -EPSILON, 1e-14, -1e-14, 1e-12, -1e-12, 3e-9, -3e-9, 1e-7, -1e-7, 1e-5, 1e-3, -1e-3]);
        c.echo.push(Echo { at, back, by });
    }
}
/// A tolerance which is the error of an iterate, almost or exactly
pub fn tie_tol(u: &mut Src, c: &mut RunCase) {
    let free = RunCase { tol: f64::NAN, max_iter: c.max_iter.min(8), ..c.clone() };
    let out = run(&free);
    let errs: Vec<f64> = out
        .evs
        .iter()
        .filter_map(|e| if let Ev::Eval { l, r, .. } = e { Some(crate::oracle::max_error(l, r, &c.stop)) } else { None })
        .filter(|e| e.is_finite() && *e > 0.0)
        .collect();
    let by = u.pick(&[0.0, EPSILON, -EPSILON, 1e-14, -1e-14, 1e-12, -1e-12, 3e-9, -3e-9, 1e-7, -1e-7, 1e-5, -1e-5]);
    let k = u.below(24);
    if !errs.is_empty() {
        c.tol = errs[k % errs.len()] * (1.0 + by);
    }
}

pub fn gen_iterp(u: &mut Src, x: f64, limited: bool) -> IterP {
    let mut p = IterP::free();
    if limited {
        if u.chance(1, 2) {
            p.max_step_abs = u.logf(1e-3, 3.0);
        }
        if u.chance(1, 3) {
            p.max_step_rel = u.logf(1e-2, 2.0);
        }
        if u.chance(1, 3) {
            p.min = if u.chance(1, 4) { x } else { x - u.logf(1e-2, 5.0) };
        }
        if u.chance(1, 3) {
            p.max = if u.chance(1, 4) { x + 0.25 } else { x + u.logf(1e-2, 5.0) };
        }
        if p.min >= p.max {
            p.max = p.min + 1.0;
        }
        if !(p.min < p.max) {
            p.min = f64::NEG_INFINITY;
        }
    }
    if u.chance(1, 3) {
        p.dx_abs = u.logf(1e-9, 1e-3);
        p.dx_rel = u.logf(1e-9, 1e-3);
    }
    p.sum = u.chance(1, 3);
    p
}

pub fn gen_run(u: &mut Src, w: &Want) -> RunCase {
    let mut n = u.range(1, w.max_n);
    if u.chance(1, 40) {
        // larger than usual
        n = match u.below(100) {
            // more than a byte can count, once in a while
            0 => u.pick(&[33, 65, 70, 130, 260]),
            1..=10 => u.range(14, 26),
            _ => u.range(w.max_n + 1, 13),
        };
        u.extend();
    }
    let flavor = u.pick(w.flavors);
    let method = u.pick(w.methods);
    let analytic = u.chance(w.analytic, 8);
    let damping = u.chance(w.damping, 8);
    let limited = u.chance(w.limits, 8);
    let normed = u.chance(w.norms, 8);
    let stat = u.chance(1, 2);
    let fd_params = u.chance(1, 4);
    let max_iter = match u.below(40) {
        37..=39 => 0,
        36 if w.max_iter >= 10 => {
            // longer than usual
            // (more than a byte can count, once in a while)
            match u.below(12) {
                0 if n <= 3 => u.range(257, 300),
                0 | 1 if n <= 5 => u.range(15, 200),
                _ => u.range(15, 60),
            }
        }
        _ => u.range(1, w.max_iter),
    };
    let tol = if u.chance(1, 10) { u.pick(&[0.5, 1e-2, 2.0]) } else { u.logf(1e-11, 1e-4) };
    // small integers and structured systems, where equalities happen
    let lattice = u.chance(1, 8);
    let mut root: Vec<f64> = (0..n).map(|_| u.f(-4.0, 4.0)).collect();
    if lattice {
        root.iter_mut().for_each(|r| *r = r.round());
    }
    let mut sys = match flavor {
        _ if lattice => Sys::lattice(u, n, &root),
        Flavor::Near => Sys::near_root(u, n, &root, 0.6, 0.8),
        Flavor::Affine => {
            let dom = !u.chance(1, 3);
            Sys::affine(u, n, &root, dom)
        }
        Flavor::Smooth => Sys::smooth(u, n),
        Flavor::Wobbly => Sys::wobbly(u, n),
        Flavor::Nasty => Sys::nasty(u, n),
    };
    if u.chance(1, 6) {
        for s in sys.scale.iter_mut() {
            *s = u.logf(1e-2, 1e2);
        }
    }
    let mut x0: Vec<f64> = match flavor {
        _ if lattice => {
            let all = u.chance(1, 3);
            (0..n).map(|i| root[i] + if all || u.chance(2, 3) { u.pick(&[0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 4.0]) } else { 0.0 }).collect()
        }
        Flavor::Near => root.iter().map(|r| r + u.f(-0.4, 0.4)).collect(),
        Flavor::Affine => (0..n).map(|_| u.f(-10.0, 10.0)).collect(),
        Flavor::Nasty if u.chance(1, 6) => (0..n).map(|_| u.wild()).collect(),
        _ => (0..n).map(|_| u.f(-3.0, 3.0)).collect(),
    };
    if u.chance(1, 25) && matches!(flavor, Flavor::Near | Flavor::Affine) {
        x0 = root.clone(); // already converged
    }
    let mut iters: Vec<IterP> = (0..n).map(|i| gen_iterp(u, if x0[i].is_finite() { x0[i] } else { 0.0 }, limited)).collect();
    let mut tol = tol;
    if u.chance(1, 10) && !lattice {
        // rounded coefficients
        sys.snap();
        x0.iter_mut().filter(|x| x.abs() < 1e6).for_each(|x| *x = (*x * 2.0).round() * 0.5);
    }
    if lattice || u.chance(1, 10) {
        // round limits, met exactly
        let two = |v: f64| if v.is_finite() && v != 0.0 { v.abs().log2().round().exp2() * v.signum() } else { v };
        for (p, x) in iters.iter_mut().zip(&x0).filter(|(_, x)| x.abs() < 1e6) {
            let (min, max) = ((p.min * 2.0).round() * 0.5, (p.max * 2.0).round() * 0.5);
            p.min = if u.chance(1, 3) && min.is_finite() { *x } else { min };
            p.max = if u.chance(1, 3) && max.is_finite() && *x > p.min { *x } else { max };
            if !(p.min < p.max) {
                p.max = p.min + 1.0;
            }
            p.max_step_abs = two(p.max_step_abs);
            p.max_step_rel = two(p.max_step_rel);
            p.dx_abs = two(p.dx_abs);
            p.dx_rel = two(p.dx_rel);
        }
        if u.chance(1, 2) {
            tol = u.pick(&[0.5, 0.25, 1.0, 2.0, 0.125, 1.5, 3.0, 4.0, 0.0]);
        }
    }
    if u.chance(1, 30) {
        // any value is accepted as tolerance
        tol = u.pick(&[f64::INFINITY, f64::NAN, -1.0, f64::MAX, 5e-324, f64::INFINITY, 1e9, f64::NEG_INFINITY, -0.0]);
    }
    if max_iter > 200 && u.chance(3, 4) {
        // up to the last iteration
        tol = f64::NAN;
    }
    let stop = (0..n).map(|_| if normed { u.below(3) as u8 } else { 0 }).collect();
    let upd = (0..n).map(|_| if normed { u.below(3) as u8 } else { 0 }).collect();
    if u.chance(1, 8) {
        // a memory without effect on the values
        sys.mem = u.range(1, 3);
    }
    let mut faults = vec![];
    if u.chance(w.faults, 8) {
        let k = u.range(1, 4);
        for _ in 0..k {
            let jac = analytic && u.chance(1, 4);
            let f = Fault { jac, at: u.below(if jac { 5 } else { 24 }), unusable: w.unusable && u.chance(1, 2), style: if u.chance(1, 8) { u.below(6) as u8 } else { 0 } };
            if !faults.iter().any(|g: &Fault| g.jac == f.jac && g.at == f.at) {
                faults.push(f);
            }
        }
    }
    RunCase { sys, x0, method, damping, tol, max_iter, analytic, fd_params, iters, stop, upd, stat, faults, echo: vec![] }
}
