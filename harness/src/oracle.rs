//! Independent reference: normalizations, linear algebra, step limits and a "follower" that
//! re-derives, from the points at which the model was evaluated, what each step of a run had to be.
use crate::model::*;

pub const EPS: f64 = f64::EPSILON;

pub fn normalize(x: f64, y: f64, m: u8) -> f64 {
    let d = x - y;
    match m {
        0 => d,
        1 => d / (0.5 * (x + y).abs()),
        _ => d / (1.0 + 0.5 * (x + y).abs()),
    }
}

/// Derivative of normalize along (dx, dy)
pub fn dnormalize(x: f64, y: f64, dx: f64, dy: f64, m: u8) -> f64 {
    let s = x + y;
    let sg = if s < 0.0 { -1.0 } else { 1.0 };
    match m {
        0 => dx - dy,
        _ => {
            let base = if m == 1 { 0.0 } else { 1.0 };
            let den = base + 0.5 * s.abs();
            (dx - dy) / den - (x - y) / den * (0.5 * sg * (dx + dy)) / den
        }
    }
}

pub fn residuals(l: &[f64], r: &[f64], m: &[u8]) -> Vec<f64> {
    (0..l.len()).map(|i| normalize(l[i], r[i], m[i])).collect()
}

/// Maximum stopping residual; NaN counts as infinite
pub fn max_error(l: &[f64], r: &[f64], m: &[u8]) -> f64 {
    residuals(l, r, m).iter().fold(0.0, |a, v| if v.is_nan() { f64::INFINITY } else { a.max(v.abs()) })
}

pub type Mat = Vec<Vec<f64>>;

pub fn matvec(a: &Mat, x: &[f64]) -> Vec<f64> {
    a.iter().map(|r| r.iter().zip(x).map(|(p, q)| p * q).sum()).collect()
}
pub fn vecmat(x: &[f64], a: &Mat) -> Vec<f64> {
    let n = a.len();
    (0..n).map(|j| (0..n).map(|i| x[i] * a[i][j]).sum()).collect()
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(p, q)| p * q).sum()
}
pub fn matmul(a: &Mat, b: &Mat) -> Mat {
    let n = a.len();
    (0..n).map(|i| (0..n).map(|j| (0..n).map(|k| a[i][k] * b[k][j]).sum()).collect()).collect()
}
pub fn norm2(a: &[f64]) -> f64 {
    dot(a, a).sqrt()
}
pub fn ninf(a: &[f64]) -> f64 {
    a.iter().fold(0.0, |m, v| if v.is_nan() { f64::NAN } else { f64::max(m, v.abs()) })
}
pub fn matnorm(a: &Mat) -> f64 {
    a.iter().map(|r| r.iter().map(|v| v.abs()).sum::<f64>()).fold(0.0, |m, v| if v.is_nan() { f64::INFINITY } else { f64::max(m, v) })
}
pub fn sub(a: &[f64], b: &[f64]) -> Vec<f64> {
    a.iter().zip(b).map(|(p, q)| p - q).collect()
}

/// Gauss-Jordan with full row pivoting; None when a pivot vanishes or is not finite
pub fn inverse(a: &Mat) -> Option<Mat> {
    let n = a.len();
    let mut m: Vec<Vec<f64>> = (0..n)
        .map(|i| {
            let mut row = a[i].clone();
            row.extend((0..n).map(|j| if i == j { 1.0 } else { 0.0 }));
            row
        })
        .collect();
    for c in 0..n {
        let p = (c..n).max_by(|&i, &j| m[i][c].abs().partial_cmp(&m[j][c].abs()).unwrap_or(std::cmp::Ordering::Equal))?;
        if !(m[p][c].abs() > 0.0) || !m[p][c].is_finite() {
            return None;
        }
        m.swap(c, p);
        let piv = m[c][c];
        for v in m[c].iter_mut() {
            *v /= piv;
        }
        let prow = m[c].clone();
        for (i, row) in m.iter_mut().enumerate() {
            if i != c {
                let f = row[c];
                for (v, q) in row.iter_mut().zip(&prow) {
                    *v -= f * q;
                }
            }
        }
    }
    Some(m.into_iter().map(|r| r[n..].to_vec()).collect())
}

/// Condition number in the max-row-sum norm after equilibrating rows and columns; infinite when singular
pub fn cond(a: &Mat) -> f64 {
    match inverse(a) {
        Some(i) => {
            let c = matnorm(a) * matnorm(&i);
            if c.is_finite() {
                c
            } else {
                f64::INFINITY
            }
        }
        None => f64::INFINITY,
    }
}

/// The documented step limitation
pub fn limit(p: &IterP, x: f64, raw: f64) -> f64 {
    if raw.is_nan() {
        return f64::NAN;
    }
    let mut len = raw.abs();
    if p.max_step_abs < len {
        len = p.max_step_abs;
    }
    let rel = p.max_step_rel * x.abs();
    if rel < len {
        len = rel;
    }
    let v = if raw < 0.0 { x - len } else { x + len };
    if v < p.min {
        p.min
    } else if v > p.max {
        p.max
    } else {
        v
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tag {
    /// the first evaluation is not at the guess
    Start,
    /// stops too early or too late, or result not matching the end of the run
    Stop,
    /// a Jacobian or an evaluation too many or missing
    Econ,
    /// finite difference points
    Fd,
    /// a Newton-Raphson step is not the solution of the linearised equations
    Newton,
    /// a quasi-Newton step does not follow its method
    Quasi,
    Limit,
    Bound,
    Damp,
    /// singular Jacobian reported on a regular one
    Singular,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Phase {
    Init,
    Fd,
    Prop,
    Damp,
    Unknown,
}

#[derive(Clone, Debug)]
pub struct Pt {
    pub x: Vec<f64>,
    pub l: Vec<f64>,
    pub r: Vec<f64>,
}

#[derive(Default, Debug)]
pub struct Follow {
    pub findings: Vec<(Tag, String)>,
    /// the known deviation of finite difference runs: limits taken from the perturbed point
    pub shifted: Vec<String>,
    pub iters: usize,
    /// following stopped because what follows can not be decided numerically
    pub cut: Option<&'static str>,
    pub damped: usize,
    pub refused: usize,
    /// evaluations (their rank) whose step was refused
    pub refused_at: Vec<usize>,
    pub jacobians: usize,
    pub approx_steps: usize,
    pub steps_checked: usize,
    pub limited: usize,
    pub bounded: usize,
    pub nan: usize,
    /// phase of each evaluation
    pub phases: Vec<Phase>,
    /// accepted points (guess included)
    pub path: Vec<Vec<f64>>,
    /// condition numbers met
    pub max_cond: f64,
    /// relative tolerances used for the steps
    pub max_tol: f64,
}

impl Follow {
    pub fn find(&self, tags: &[Tag]) -> Option<String> {
        self.findings.iter().find(|(t, _)| tags.contains(t)).map(|(t, m)| format!("{:?}: {}", t, m))
    }
    fn add(&mut self, t: Tag, iter: usize, m: String) {
        self.findings.push((t, format!("iteration {}: {}", iter, m)));
    }
}

#[derive(Clone)]
struct Hyp {
    b: Mat,
    /// estimated relative error of b
    err: f64,
}

fn update(h: &Hyp, method: usize, s: &[f64], y: &[f64], rnext: &[f64], yerr: f64) -> Option<Hyp> {
    let b = &h.b;
    let n = s.len();
    let inv = inverse(b)?;
    // c^T J with c as documented
    let ctj: Vec<f64> = match method {
        2 | 3 => s.to_vec(),
        4 | 5 => vecmat(y, b),
        6 | 7 => vecmat(rnext, b),
        _ => matvec(&inv, y), // H^T H y, times J
    };
    let bs = matvec(b, s);
    let num = sub(&bs, y);
    let den = dot(&ctj, s);
    let scale = norm2(&ctj) * norm2(s);
    if !(den.abs() > 1e-9 * scale) || !den.is_finite() {
        return None;
    }
    let mut nb = b.clone();
    for i in 0..n {
        for j in 0..n {
            nb[i][j] -= num[i] * ctj[j] / den;
        }
    }
    let amp = scale / den.abs();
    let bn = matnorm(b).max(1e-300);
    let ns = norm2(s).max(1e-300);
    let cnd = cond(b);
    // error of y relative to the change, amplified by the obliquity; the error of c too (relative, times the change)
    let change = norm2(&num) / (ns * bn) * amp;
    let nbn = matnorm(&nb).max(1e-300);
    let cerr = match method {
        2 | 3 => 0.0,
        8 | 9 => h.err * cnd + yerr / norm2(y).max(1e-300) * cnd,
        4 | 5 => h.err + yerr / norm2(y).max(1e-300),
        _ => h.err + yerr / norm2(rnext).max(1e-300),
    };
    let err = (h.err * (1.0 + amp) + yerr / (ns * bn) * amp + change * (cerr * amp + h.err) + 1e-14 * cnd) * (bn / nbn).max(1.0);
    Some(Hyp { b: nb, err })
}

/// Follows a run without fatal error. `out.evs` must come from a run of `c`.
pub fn follow(c: &RunCase, out: &RunOut) -> Follow {
    let mut f = Follow::default();
    f.max_cond = 1.0;
    let n = c.sys.n;
    // the evaluations and Jacobian calls
    let evs: Vec<&Ev> = out.evs.iter().filter(|e| matches!(e, Ev::Eval { .. } | Ev::Jac { .. })).collect();
    let pt = |e: &Ev| -> Option<Pt> {
        match e {
            Ev::Eval { x, l, r, .. } => Some(Pt { x: x.clone(), l: l.clone(), r: r.clone() }),
            _ => None,
        }
    };
    let fatal = |e: &Ev| matches!(e, Ev::Eval { hit: Some((true, _)), .. } | Ev::Jac { hit: Some(_), .. });
    let err_of = |p: &Pt| max_error(&p.l, &p.r, &c.stop);
    let scale_of = |p: &Pt| p.l.iter().chain(&p.r).fold(0.0f64, |a, v| a.max(v.abs()));
    let close_call = |a: f64, b: f64| (a - b).abs() <= 1e-10 * (a.abs() + b.abs()) && a.is_finite();

    let all_abs = c.stop.iter().all(|&m| m == 0);

    let total_evals = evs.iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
    let finish = |mut f: Follow| -> Follow {
        while f.phases.len() < total_evals {
            f.phases.push(Phase::Unknown);
        }
        f
    };

    let Some(first) = evs.first() else {
        f.add(Tag::Start, 0, "the model was never evaluated".into());
        return finish(f);
    };
    let Some(mut cur) = pt(first) else {
        f.add(Tag::Start, 0, "a Jacobian was requested before any evaluation".into());
        return finish(f);
    };
    f.phases.push(Phase::Init);
    if !crate::fser::same_vec(&cur.x, &c.x0) {
        f.add(Tag::Start, 0, format!("first evaluation at {:?} instead of the guess {:?}", cur.x, c.x0));
    }
    f.path.push(cur.x.clone());
    if fatal(first) {
        return finish(f);
    }
    let mut pos = 1;
    let mut need_jac = true;
    // magnitude of the derivatives of the members at the last analytic Jacobian
    let mut derivs = 0.0f64;
    let mut hyps: Vec<Hyp> = vec![];
    // (hypothesis, s, y, error of y) to apply at the next approximate step
    let mut pending: Vec<(Hyp, Vec<f64>, Vec<f64>, f64)> = vec![];
    let mut rnext: Vec<f64> = vec![];
    // an undue midpoint seems to follow: confirmed when it does not fit what had to follow
    let mut suspect: Option<(usize, String)> = None;

    loop {
        let err = err_of(&cur);
        if err.is_infinite() {
            f.nan += 1;
        }
        // absolute residuals are exact: a residual equal to the tolerance is decided
        if close_call(err, c.tol) && !all_abs {
            f.cut = Some("residual at the tolerance");
            return finish(f);
        }
        let it = f.iters;
        macro_rules! confirm {
            () => {
                if let Some((i, m)) = suspect.take() {
                    f.add(Tag::Damp, i, m);
                }
            };
        }
        // (with an infinite tolerance, an error that is not a number is still no convergence)
        if err <= c.tol && !residuals(&cur.l, &cur.r, &c.stop).iter().any(|v| v.is_nan()) {
            if pos < evs.len() {
                confirm!();
                f.add(Tag::Stop, it, format!("residuals are within the tolerance ({:e} <= {:e}) but {} more calls follow", err, c.tol, evs.len() - pos));
                if it == 0 {
                    f.add(Tag::Econ, it, "calls to the model although the guess converges".into());
                }
            } else if !matches!(out.outcome, Outcome::Ok | Outcome::Final) {
                f.add(Tag::Stop, it, format!("converged ({:e} <= {:e}) but the result is {:?}", err, c.tol, out.outcome));
            }
            return finish(f);
        }
        if f.iters == c.max_iter {
            if pos < evs.len() {
                confirm!();
                f.add(Tag::Stop, it, format!("{} calls follow the last allowed iteration ({})", evs.len() - pos, c.max_iter));
            } else if out.outcome != Outcome::NonConv {
                f.add(Tag::Stop, it, format!("budget of {} iterations exhausted without convergence but the result is {:?}", c.max_iter, out.outcome));
            }
            return finish(f);
        }
        if pos == evs.len() && matches!(out.outcome, Outcome::Ok | Outcome::Final | Outcome::NonConv) {
            f.add(Tag::Stop, it, format!("ends with {:?} after {} of {} iterations with a residual of {:e}", out.outcome, f.iters, c.max_iter, err));
            return finish(f);
        }
        f.iters += 1;
        let it = f.iters;
        let rc = residuals(&cur.l, &cur.r, &c.upd);

        // --- Jacobian phase, as observed
        let looks_fd_by = |from: usize, rel: f64, abs: f64| -> bool {
            if c.analytic || from + n > evs.len() {
                return false;
            }
            let mut seen = vec![false; n];
            for e in &evs[from..from + n] {
                let Ev::Eval { x, .. } = e else { return false };
                let diff: Vec<usize> = (0..n).filter(|&i| !crate::fser::same_val(x[i], cur.x[i])).collect();
                if diff.len() != 1 || seen[diff[0]] {
                    return false;
                }
                let j = diff[0];
                let d = (x[j] - cur.x[j]).abs();
                let dx = c.iters[j].dx(cur.x[j]);
                if !(d <= rel * dx + 4.0 * EPS * cur.x[j].abs()) || !(d >= abs * dx - 4.0 * EPS * cur.x[j].abs()) {
                    return false;
                }
                seen[j] = true;
            }
            true
        };
        let looks_fd = |from: usize| looks_fd_by(from, 3.0, 0.0);
        let expected_jac = c.method == 0 || need_jac;
        let mut bases = vec![cur.clone()];
        let mut observed_jac = false;
        let mut fd = false;
        if pos < evs.len() {
            if matches!(evs[pos], Ev::Jac { .. }) {
                observed_jac = true;
            } else if expected_jac && !c.analytic {
                // columns are due: a fatal error may cut them short
                let upto = (pos + n).min(evs.len());
                if let Some(k) = (pos..upto).find(|&k| fatal(evs[k])) {
                    for _ in pos..=k {
                        f.phases.push(Phase::Fd);
                    }
                    return finish(f);
                }
                fd = looks_fd(pos);
                observed_jac = fd;
                if !fd {
                    if cur.x.iter().zip(&c.iters).any(|(x, p)| !x.is_finite() || x + p.dx(*x) == *x || !(x + p.dx(*x)).is_finite()) {
                        f.cut = Some("perturbation lost in the rounding");
                        return finish(f);
                    }
                    confirm!();
                    let got: Vec<_> = evs[pos..upto].iter().filter_map(|e| pt(e)).map(|p| p.x).collect();
                    f.add(Tag::Fd, it, format!("from {:?}, the points evaluated for the finite differences are {:?}", cur.x, got));
                    f.add(Tag::Econ, it, "the true Jacobian was not computed by one evaluation per unknown".into());
                    return finish(f);
                }
            }
            // (a Jacobian that is not due is recognised below, when the step is not the one expected)
        }
        if observed_jac != expected_jac && !(pos == evs.len()) {
            f.add(
                Tag::Econ,
                it,
                if observed_jac { "a true Jacobian is computed although the method does not call for it".into() } else { "the true Jacobian is not computed although it is due".to_string() },
            );
            if !observed_jac {
                confirm!();
                f.add(if c.method == 0 { Tag::Newton } else { Tag::Quasi }, it, "step without the true Jacobian".into());
                return finish(f);
            }
        }
        if pos == evs.len() && expected_jac {
            // ended before a Jacobian call
            if out.outcome == Outcome::JacInv && c.analytic {
                f.add(Tag::Singular, it, "non-invertible Jacobian reported without having requested it".into());
            }
            return finish(f);
        }
        let mut approx = false;
        let mut lost = false;
        if observed_jac {
            f.jacobians += 1;
            pending.clear();
            let b: Mat;
            let berr: f64;
            if fd {
                let mut m = vec![vec![0.0; n]; n];
                let mut rel: f64 = 0.0;
                for k in 0..n {
                    f.phases.push(Phase::Fd);
                    let p = pt(evs[pos + k]).unwrap();
                    let j = (0..n).find(|&i| !crate::fser::same_val(p.x[i], cur.x[i])).unwrap();
                    let dx = c.iters[j].dx(cur.x[j]);
                    let moved = p.x[j] - cur.x[j];
                    if (moved - dx).abs() > 1e-6 * dx + 2.0 * EPS * (cur.x[j].abs() + dx) {
                        f.add(Tag::Fd, it, format!("unknown {} at {:?} perturbed by {:?} instead of {:?}", j, cur.x[j], moved, dx));
                    }
                    let rp = residuals(&p.l, &p.r, &c.upd);
                    for i in 0..n {
                        m[i][j] = (rp[i] - rc[i]) / dx;
                    }
                    let e = (0..n).fold(0.0f64, |a, i| a.max(4.0 * EPS * (rp[i].abs() + rc[i].abs() + 1e-300) / dx));
                    rel = rel.max(e);
                    if c.upd.iter().any(|&u| u != 0) {
                        // cancellation inside the normalization
                        rel = rel.max(8.0 * EPS * (1.0 + ninf(&rc)) / dx);
                    }
                }
                let last = pt(evs[pos + n - 1]).unwrap();
                bases.push(last);
                pos += n;
                let bn = matnorm(&m);
                berr = rel / bn.max(1e-300) + 1e-15;
                b = m;
            } else {
                let Ev::Jac { x, .. } = evs[pos] else { unreachable!() };
                if !crate::fser::same_vec(x, &cur.x) {
                    f.add(if c.method == 0 { Tag::Newton } else { Tag::Quasi }, it, format!("Jacobian requested at {:?} instead of {:?}", x, cur.x));
                }
                if fatal(evs[pos]) {
                    return finish(f);
                }
                pos += 1;
                let (dl, dr) = (c.sys.dleft(&cur.x), c.sys.dright(&cur.x));
                derivs = matnorm(&dl).max(matnorm(&dr));
                b = (0..n).map(|i| (0..n).map(|j| dnormalize(cur.l[i], cur.r[i], dl[i][j], dr[i][j], c.upd[i])).collect()).collect();
                // cancellations in the derivative of the normalization
                let mags: Mat = (0..n)
                    .map(|i| {
                        let base = if c.upd[i] == 2 { 1.0 } else { 0.0 };
                        let den = if c.upd[i] == 0 { 1.0 } else { base + 0.5 * (cur.l[i] + cur.r[i]).abs() };
                        (0..n)
                            .map(|j| {
                                let d = dl[i][j].abs() + dr[i][j].abs();
                                d / den + if c.upd[i] == 0 { 0.0 } else { (cur.l[i] - cur.r[i]).abs() / den * 0.5 * d / den }
                            })
                            .collect()
                    })
                    .collect();
                berr = 1e-14 + 8.0 * EPS * matnorm(&mags) / matnorm(&b).max(1e-300);
            }
            hyps = vec![Hyp { b, err: berr }];
            need_jac = false;
        } else {
            approx = c.method != 1;
            if approx {
                hyps = pending.iter().filter_map(|(h, s, y, ye)| update(h, c.method, s, y, &rnext, *ye)).collect();
                // the step the code took may be one of those without update (a step of exactly zero)
                lost = hyps.len() < pending.len();
                if hyps.is_empty() {
                    f.cut = Some("vanishing denominator of the update");
                    return finish(f);
                }
            }
            f.approx_steps += 1;
        }
        let step_tag = if c.method == 0 { Tag::Newton } else { Tag::Quasi };
        let singular = hyps.iter().all(|h| !(cond(&h.b) < 1e12));
        if pos == evs.len() {
            if out.outcome == Outcome::JacInv {
                if !singular && hyps.iter().all(|h| h.err * cond(&h.b) < 1e-3 && matnorm(&h.b) < 1e60 && matnorm(&h.b) > 1e-60) {
                    f.add(Tag::Singular, it, format!("Jacobian {:?} reported as not invertible", hyps[0].b));
                }
            } else if matches!(out.outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final) {
                f.add(Tag::Stop, it, format!("ends with {:?} without performing the update", out.outcome));
            }
            return finish(f);
        }
        let prop = match pt(evs[pos]) {
            Some(p) => p,
            None => {
                f.add(Tag::Econ, it, "a second Jacobian is requested in the same iteration".into());
                return finish(f);
            }
        };
        f.phases.push(Phase::Prop);
        let prop_ev = evs[pos];
        pos += 1;

        // --- the proposed point
        let mut matched: Vec<(Hyp, usize)> = vec![];
        let mut open: Vec<(Hyp, usize)> = vec![];
        let mut undecided = lost;
        let mut best: Option<(f64, Vec<f64>)> = None;
        for h in &hyps {
            let cnd = cond(&h.b);
            f.max_cond = f.max_cond.max(cnd);
            let Some(inv) = inverse(&h.b) else {
                undecided = true;
                continue;
            };
            for (bi, base) in bases.iter().enumerate() {
                let rb = residuals(&base.l, &base.r, &c.upd);
                let raw: Vec<f64> = matvec(&inv, &rb).iter().map(|v| -v).collect();
                let ra = ninf(&raw);
                // componentwise worst case of cancellations in the normalization of nearly equal members
                let rel = 1e-11 * cnd + 200.0 * cnd * h.err + 1e-10;
                f.max_tol = f.max_tol.max(rel);
                if !(rel < 1e-3) || !ra.is_finite() {
                    undecided = true;
                    open.push((h.clone(), bi));
                    continue;
                }
                let exp: Vec<f64> = (0..n).map(|i| limit(&c.iters[i], base.x[i], raw[i])).collect();
                let mut worst: f64 = 0.0;
                for i in 0..n {
                    let tol = rel * ra + 8.0 * EPS * (base.x[i].abs() + exp[i].abs()) + 1e-300;
                    let d = (prop.x[i] - exp[i]).abs();
                    worst = if d.is_nan() { f64::INFINITY } else { worst.max(d / tol) };
                }
                if worst <= 1.0 {
                    matched.push((h.clone(), bi));
                } else if best.as_ref().is_none_or(|b| b.0 > worst) {
                    best = Some((worst, exp));
                }
            }
        }
        let residual_scale_ok = bases.iter().all(|b| scale_of(b) < 1e60 && (0..n).all(|i| c.upd[i] != 1 || (b.l[i] + b.r[i]).abs() > 1e-60))
            && (fd || hyps.iter().all(|h| matnorm(&h.b) < 1e60 && matnorm(&h.b) > 1e-60))
            && (!c.analytic || derivs < 1e60);
        if matched.is_empty() {
            // (steps of the size of a rounding may be of the size of a perturbation)
            let columns = if undecided { n >= 2 && looks_fd_by(pos - 1, 1.0 + 1e-6, 1.0 - 1e-6) } else { looks_fd(pos - 1) };
            if !observed_jac && columns {
                confirm!();
                f.add(Tag::Econ, it, "a true Jacobian is computed although the method does not call for it".into());
                f.add(step_tag, it, "a true Jacobian is computed although the method does not call for it".into());
                return finish(f);
            }
            if undecided || !residual_scale_ok {
                // limits still hold whatever the step
                check_limits(&mut f, c, it, &bases, &prop, None);
                f.cut = Some("ill conditioned");
                return finish(f);
            }
            confirm!();
            let (w, exp) = best.unwrap();
            f.add(step_tag, it, format!("from {:?} the step leads to {:?} instead of {:?} ({:.1e} times the tolerance)", cur.x, prop.x, exp, w));
            if evs[..pos - 1].iter().any(|e| pt(e).is_some_and(|p| crate::fser::same_vec(&p.x, &prop.x))) {
                f.add(Tag::Econ, it, format!("{:?} is evaluated again", prop.x));
            }
            check_limits(&mut f, c, it, &bases, &prop, None);
            // go on with what was observed
            matched = bases.iter().enumerate().map(|(bi, _)| (hyps[0].clone(), bi)).collect();
        } else {
            f.steps_checked += 1;
            matched.extend(open);
            suspect = None;
            check_limits(&mut f, c, it, &bases, &prop, Some(()));
        }
        if fatal(prop_ev) {
            return finish(f);
        }

        // --- damping
        let ep = err_of(&prop);
        let mut accepted = prop.clone();
        let decisions: Vec<bool> = bases.iter().map(|b| ep > err_of(b)).collect();
        // same members, same errors
        let same_members = |b: &Pt| crate::fser::same_vec(&b.l, &prop.l) && crate::fser::same_vec(&b.r, &prop.r);
        let near = !all_abs && bases.iter().any(|b| close_call(ep, err_of(b)) && !same_members(b));
        let midpoint = |b: &Pt| -> Vec<f64> { (0..n).map(|i| 0.5 * b.x[i] + 0.5 * prop.x[i]).collect() };
        let is_mid = |p: &[f64], b: &Pt| -> bool {
            let m = midpoint(b);
            (0..n).all(|i| crate::fser::same_val(p[i], m[i]) || (p[i] - m[i]).abs() <= 1e-300 + 4.0 * EPS * (b.x[i].abs() + prop.x[i].abs()))
        };
        let next_is_mid = pos < evs.len()
            && pt(evs[pos]).is_some_and(|p| bases.iter().any(|b| is_mid(&p.x, b)) && !crate::fser::same_vec(&p.x, &prop.x) && !looks_like_columns(c, &evs, pos, &prop.x));
        if c.damping {
            if near || decisions.iter().any(|d| *d != decisions[0]) {
                f.cut = Some("error at the damping threshold");
                return finish(f);
            }
            if decisions[0] {
                if approx {
                    if next_is_mid {
                        suspect = Some((it, "the refused step of an approximated Jacobian is damped".into()));
                    }
                    need_jac = true;
                    f.refused += 1;
                    f.refused_at.push(f.phases.len() - 1);
                } else {
                    if pos == evs.len() {
                        f.add(Tag::Damp, it, format!("the error grows from {:e} to {:e} but the step is not damped", err_of(&bases[0]), ep));
                        return finish(f);
                    }
                    match pt(evs[pos]) {
                        Some(d) if bases.iter().any(|b| is_mid(&d.x, b)) => {
                            accepted = d.clone();
                            check_damped_limits(&mut f, c, it, &bases, &d);
                        }
                        other => {
                            f.add(
                                Tag::Damp,
                                it,
                                format!("the error grows from {:e} to {:e}: {:?} had to be evaluated, not {:?}", err_of(&bases[0]), ep, midpoint(&bases[0]), other.map(|p| p.x)),
                            );
                            if other_is_between(&bases[0].x, &prop.x, evs[pos]) {
                                // some other damping: go on from there
                                accepted = pt(evs[pos]).unwrap();
                            } else {
                                return finish(f);
                            }
                        }
                    }
                    f.phases.push(Phase::Damp);
                    f.damped += 1;
                    let ev = evs[pos];
                    pos += 1;
                    if fatal(ev) {
                        return finish(f);
                    }
                }
            } else if next_is_mid {
                suspect = Some((it, format!("the error decreases from {:e} to {:e} but the step is damped", err_of(&bases[0]), ep)));
            }
        } else if next_is_mid && prop.x.iter().all(|v| v.is_finite()) && (ep > err_of(&bases[0])) {
            // an undamped solver that evaluates the midpoint of a deteriorating step
            suspect = Some((it, "a step is damped although damping is not activated".into()));
        }
        // --- secant data
        if c.method >= 2 {
            rnext = residuals(&accepted.l, &accepted.r, &c.upd);
            pending = matched
                .iter()
                .map(|(h, bi)| {
                    let b = &bases[*bi];
                    let rb = residuals(&b.l, &b.r, &c.upd);
                    let y = sub(&rnext, &rb);
                    let mags = rb.iter().chain(&rnext).fold(0.0f64, |a, v| a.max(v.abs()));
                    let extra = if c.upd.iter().any(|&u| u != 0) { 1e-15 } else { 0.0 };
                    (h.clone(), sub(&accepted.x, &b.x), y, 8.0 * EPS * mags + extra)
                })
                .collect();
        }
        cur = accepted;
        f.path.push(cur.x.clone());
    }
}

fn other_is_between(a: &[f64], b: &[f64], e: &Ev) -> bool {
    let Ev::Eval { x, .. } = e else { return false };
    // on the line from a to b
    let d = sub(b, a);
    let v = sub(x, a);
    let t = dot(&v, &d) / dot(&d, &d);
    t > -2.0 && t < 2.0 && (0..a.len()).all(|i| (v[i] - t * d[i]).abs() <= 1e-9 * (a[i].abs() + b[i].abs() + 1e-300))
}

/// the evaluations from pos on look like finite difference columns around x
fn looks_like_columns(c: &RunCase, evs: &[&Ev], pos: usize, x: &[f64]) -> bool {
    if c.analytic {
        return false;
    }
    match evs[pos] {
        Ev::Eval { x: p, .. } => {
            let diff: Vec<usize> = (0..x.len()).filter(|&i| !crate::fser::same_val(p[i], x[i])).collect();
            diff.len() == 1 && (p[diff[0]] - x[diff[0]]).abs() <= 3.0 * c.iters[diff[0]].dx(x[diff[0]]) + 4.0 * EPS * x[diff[0]].abs()
        }
        _ => false,
    }
}

fn slack(a: f64, b: f64) -> f64 {
    4.0 * EPS * (a.abs() + b.abs()) + 1e-300
}

/// does `to` respect the step limits of p from `from` (unless brought back to a bound)?
fn step_ok(p: &IterP, from: f64, to: f64) -> bool {
    if from.is_nan() || to.is_nan() || from == to {
        return true;
    }
    if to == p.min && from < p.min || to == p.max && from > p.max {
        return true;
    }
    let rel = p.max_step_rel * from.abs();
    let max = if rel.is_nan() || p.max_step_abs < rel { p.max_step_abs } else { rel };
    (to - from).abs() <= max * (1.0 + 1e-12) + slack(from, to)
}

fn check_limits(f: &mut Follow, c: &RunCase, it: usize, bases: &[Pt], prop: &Pt, decided: Option<()>) {
    for (i, p) in c.iters.iter().enumerate() {
        let v = prop.x[i];
        if v < p.min || v > p.max {
            f.add(Tag::Bound, it, format!("unknown {} proposed at {:?}, out of [{:?}, {:?}]", i, v, p.min, p.max));
        }
        if v == p.min || v == p.max {
            f.bounded += 1;
        }
        let from = bases[0].x[i];
        let lim = p.max_step_abs.min(p.max_step_rel * from.abs());
        if lim.is_finite() && ((v - from).abs() - lim).abs() <= 1e-6 * lim {
            f.limited += 1;
        }
        if v.is_nan() && decided.is_some() {
            f.nan += 1;
        }
        if !step_ok(p, from, v) {
            let m = format!("unknown {} goes from {:?} to {:?}, max_step_abs = {:?}, max_step_rel = {:?}", i, from, v, p.max_step_abs, p.max_step_rel);
            if bases.len() > 1 && step_ok(p, bases[1].x[i], v) && !crate::fser::same_val(bases[1].x[i], from) {
                f.shifted.push(format!("{} (respected from the perturbed value {:?})", m, bases[1].x[i]));
            } else {
                f.add(Tag::Limit, it, m);
            }
        }
    }
}

fn check_damped_limits(f: &mut Follow, c: &RunCase, it: usize, bases: &[Pt], d: &Pt) {
    for (i, p) in c.iters.iter().enumerate() {
        let v = d.x[i];
        // the midpoint of two points within bounds; the starting point (the guess) may be out of them
        let base_in = |b: &Pt| b.x[i] >= p.min && b.x[i] <= p.max;
        if (v < p.min - slack(v, p.min) || v > p.max + slack(v, p.max)) && base_in(&bases[0]) {
            let m = format!("unknown {} damped to {:?}, out of [{:?}, {:?}]", i, v, p.min, p.max);
            if bases.len() > 1 && !base_in(&bases[1]) {
                f.shifted.push(m);
            } else {
                f.add(Tag::Bound, it, m);
            }
        }
    }
}
