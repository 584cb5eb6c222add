//! C29: the reference one-dimensional solvers and the published systems of the utility crate.
use crate::engine::*;
use crate::fser;
use crate::fser::*;
use crate::model::*;
use crate::oracle::EPS;
use crate::sys::*;
use nalgebra::{DMatrix, DVector};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use util::solver_one_dimensional::{solver1d, solver1d_fd};
use util::test_cases::broyden1965::*;
use util::test_cases::polynom::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum RefCase {
    OneD {
        sys: Sys,
        #[serde(with = "fser::one")]
        x0: f64,
        max_iter: usize,
        #[serde(with = "fser::one")]
        tol: f64,
        #[serde(with = "fser::one")]
        dx: f64,
        fd: bool,
        /// the tolerance is the very error met at this iterate
        #[serde(default)]
        tie: Option<usize>,
    },
    Published {
        case: usize,
        #[serde(with = "fser::many")]
        x: Vec<f64>,
    },
}

fn gen(u: &mut Src) -> RefCase {
    if u.chance(1, 4) {
        let case = u.below(8);
        let n = [5, 5, 10, 20, 2, 2, 1, 1][case];
        let s = u.pick(&[2.0, 5.0, 1.0, 20.0]);
        return RefCase::Published { case, x: (0..n).map(|_| u.f(-s, s)).collect() };
    }
    let fd = u.chance(1, 2);
    let root = [u.f(-4.0, 4.0)];
    let sys = match u.below(4) {
        0 => Sys::near_root(u, 1, &root, 0.6, 0.8),
        1 => Sys::wobbly(u, 1),
        2 => Sys::affine(u, 1, &root, true),
        _ => Sys::smooth(u, 1),
    };
    RefCase::OneD { sys, x0: u.f(-4.0, 4.0), max_iter: u.range(0, 12), tol: u.logf(1e-12, 1e-1), dx: u.logf(1e-9, 1e-2), fd, tie: if u.chance(1, 6) { Some(u.below(4)) } else { None } }
}

thread_local! {
    static SYS: RefCell<Option<Sys>> = const { RefCell::new(None) };
    static POINTS: RefCell<Vec<(bool, f64, f64)>> = const { RefCell::new(vec![]) };
}
fn func(x: f64) -> f64 {
    SYS.with(|s| {
        let s = s.borrow();
        let s = s.as_ref().unwrap();
        let v = s.left(&[x])[0] - s.right(&[x])[0];
        POINTS.with(|p| p.borrow_mut().push((false, x, v)));
        v
    })
}
fn deriv(x: f64) -> f64 {
    SYS.with(|s| {
        let s = s.borrow();
        let s = s.as_ref().unwrap();
        let v = s.dleft(&[x])[0][0] - s.dright(&[x])[0][0];
        POINTS.with(|p| p.borrow_mut().push((true, x, v)));
        v
    })
}

/// the error at an iterate of the same solver with a tolerance out of reach
fn error_at(sys: &Sys, x0: f64, k: usize, dx: f64, fd: bool) -> f64 {
    SYS.with(|s| *s.borrow_mut() = Some(sys.clone()));
    let x = if fd { solver1d_fd(x0, func, k, 0.0, dx) } else { solver1d(x0, func, deriv, k, 0.0) };
    let e = func(x).abs();
    POINTS.with(|p| p.borrow_mut().clear());
    e
}

fn one_d(sys: &Sys, x0: f64, max_iter: usize, tol: f64, dx: f64, fd: bool) -> Verdict {
    SYS.with(|s| *s.borrow_mut() = Some(sys.clone()));
    POINTS.with(|p| p.borrow_mut().clear());
    let got = if fd { solver1d_fd(x0, func, max_iter, tol, dx) } else { solver1d(x0, func, deriv, max_iter, tol) };
    let calls = POINTS.with(|p| p.take());
    // the iterates: with finite differences, every other evaluation is the perturbed one
    let evals: Vec<(f64, f64)> = calls.iter().filter(|c| !c.0).map(|c| (c.1, c.2)).collect();
    let its: Vec<(f64, f64)> = if fd { evals.iter().step_by(2).copied().collect() } else { evals.clone() };
    let mut v = Verdict::ok(its.len() > 1).class(if fd { "one dimension, finite differences" } else { "one dimension, analytic" });
    if its.is_empty() || !same_val(its[0].0, x0) || (fd && evals.len() % 2 == 0) {
        v.fail = Some(format!("evaluations {:?} from {:?}", evals, x0));
        return v;
    }
    if !same_val(got, its.last().unwrap().0) {
        v.fail = Some(format!("returns {:?} after iterating through {:?}", got, its));
        return v;
    }
    // stops as documented
    for (k, (x, f)) in its.iter().enumerate() {
        if f.is_nan() {
            return v;
        }
        let go = f.abs() > tol && k < max_iter;
        if go != (k + 1 < its.len()) {
            v.fail = Some(format!("iterates {:?}: {} at iterate {} ({:?}), tolerance {:?}, {} iterations allowed", its, if go { "stops" } else { "goes on" }, k, x, tol, max_iter));
            return v;
        }
        if !go {
            break;
        }
        // one step of the solver from there
        let mut p = IterP::free();
        if fd {
            p.dx_abs = dx;
            p.dx_rel = 1e-300;
        }
        let c = RunCase {
            sys: sys.clone(),
            x0: vec![*x],
            method: 0,
            damping: false,
            tol,
            max_iter: 1,
            analytic: !fd,
            fd_params: fd,
            iters: vec![p],
            stop: vec![0],
            upd: vec![0],
            stat: false,
            faults: vec![],
            echo: vec![],
        };
        let out = run(&c);
        let pts = out.points();
        let next = its[k + 1].0;
        match pts.len() {
            n if n == if fd { 3 } else { 2 } => {
                let q = pts[n - 1][0];
                // rounding of the step
                let (slope, fx) = if fd {
                    let (xp, fp) = evals[2 * k + 1];
                    let dxp = xp - x;
                    let s = (fp - f) / dxp;
                    if !((dxp - dx).abs() <= 2.0 * EPS * (x.abs() + dx)) {
                        v.fail = Some(format!("perturbed evaluation at {:?} from {:?}, dx = {:?}", xp, x, dx));
                        return v;
                    }
                    (s, f.abs().max(fp.abs()))
                } else {
                    let d = calls.iter().filter(|c| c.0).nth(k).map(|c| c.2).unwrap_or(f64::NAN);
                    (d, f.abs())
                };
                if !q.is_finite() || !next.is_finite() || !slope.is_finite() || slope.abs() < 1e-200 {
                    v.classes.push("overflow or vanishing slope");
                    return v;
                }
                let tol_x = 16.0 * EPS * (x.abs() + next.abs()) + if fd { 16.0 * EPS * (fx / slope).abs() * (1.0 + x.abs() / dx) } else { 16.0 * EPS * (fx / slope).abs() };
                if !((q - next).abs() <= tol_x) {
                    v.fail = Some(format!("from {:?}, the reference goes to {:?} and the solver to {:?} (tolerance {:e})", x, next, q, tol_x));
                    return v;
                }
                v.classes.push("step compared");
            }
            // the derivative vanishes
            _ if out.outcome == Outcome::JacInv => {
                if next.is_finite() {
                    v.fail = Some(format!("from {:?}, the reference goes to {:?} and the solver fails: {:?}", x, next, out.outcome));
                }
                return v;
            }
            _ => {
                v.fail = Some(format!("from {:?}, the reference goes to {:?} and the solver: {:?} through {:?}", x, next, out.outcome, pts));
                return v;
            }
        }
    }
    v
}

type F = fn(&DVector<f64>) -> DVector<f64>;
type J = fn(&DVector<f64>) -> DMatrix<f64>;

fn published(case: usize, x: &[f64]) -> Verdict {
    let all: [(&'static str, F, J); 8] = [
        ("broyden 5", broyden1965_case5, broyden1965_case5_jac),
        ("broyden 6", broyden1965_case6, broyden1965_case6_jac),
        ("broyden 7", broyden1965_case7, broyden1965_case7_jac),
        ("broyden 8", broyden1965_case8, broyden1965_case8_jac),
        ("broyden 9", broyden1965_case9, broyden1965_case9_jac),
        ("broyden 10", broyden1965_case10, broyden1965_case10_jac),
        ("square2", square2, dsquare),
        ("high derivative", root_with_high_derivative, root_with_high_derivative_jac),
    ];
    let (name, f, j) = all[case];
    let mut v = Verdict::ok(true).class(name);
    let xv = DVector::from_row_slice(x);
    let n = x.len();
    let jac = j(&xv);
    if jac.nrows() != n || jac.ncols() != n || f(&xv).len() != n {
        v.fail = Some(format!("{}: sizes {} {} {} for {} unknowns", name, jac.nrows(), jac.ncols(), f(&xv).len(), n));
        return v;
    }
    // the published equations
    let own: Vec<f64> = match case {
        0..=3 => {
            let alpha = if case == 0 { -0.1 } else { -0.5 };
            let own = |i: usize| -(3.0 + alpha * x[i]) * x[i] + if i + 1 < n { 2.0 * x[i + 1] } else { 0.0 } - 1.0;
            (0..n).map(|i| (0..=i).map(own).sum()).collect()
        }
        4 => vec![10.0 * (x[1] - x[0] * x[0]), 1.0 - x[0]],
        5 => {
            let y = x[1];
            vec![-13.0 + x[0] + 5.0 * y * y - y * y * y - 2.0 * y, -29.0 + x[0] + y * y * y + y * y - 14.0 * y]
        }
        6 => vec![x[0] * x[0] - 2.0],
        _ => f(&xv).as_slice().to_vec(),
    };
    let size = 1.0 + x.iter().map(|x| 10.0 * (1.0 + x.abs()).powi(3)).sum::<f64>();
    let got = f(&xv);
    for i in 0..n {
        if !((got[i] - own[i]).abs() <= 1e-12 * size) {
            v.fail = Some(format!("{}: equation {} at {:?} is {:?}, {:?} as published", name, i, x, got[i], own[i]));
            return v;
        }
    }
    // polynomials of low degree: extrapolated central differences are exact, whatever their step
    // (x^9: the extrapolation is pushed with a small step)
    let diff = |p: usize, h: f64| -> DVector<f64> {
        let mut a = xv.clone();
        let mut b = xv.clone();
        a[p] += h;
        b[p] -= h;
        let w = a[p] - b[p];
        (f(&a) - f(&b)) / w
    };
    for p in 0..n {
        let h = if case == 7 { 1e-2 * x[0].abs().max(0.1) } else { 1.0 };
        let (a, b, c) = (diff(p, h), diff(p, h / 2.0), diff(p, h / 4.0));
        let r1 = (&b * 4.0 - &a) / 3.0;
        let r2 = (&c * 4.0 - &b) / 3.0;
        let d = (&r2 * 16.0 - &r1) / 15.0;
        for i in 0..n {
            let mag = {
                let mut q = xv.clone();
                q[p] = q[p].abs() + h;
                f(&q).amax().max(f(&xv).amax()) + 1.0 + (0..n).map(|k| 10.0 * (1.0 + x[k].abs()).powi(3)).sum::<f64>() * if case == 7 { 0.0 } else { 1.0 }
            };
            let tol = if case == 7 { 1e-8 * (9e9 * (x[0].abs() + h).powi(8)) + 1e-10 * mag / h } else { 1e-11 * mag };
            if !((d[i] - jac[(i, p)]).abs() <= tol) {
                v.fail = Some(format!("{}: derivative of equation {} along unknown {} at {:?} is {:?}, the Jacobian says {:?}", name, i, p, x, d[i], jac[(i, p)]));
                return v;
            }
        }
    }
    // listed solutions and guesses
    let sol = match case {
        0 => Some((solution_broyden1965_case5(), init_broyden1965_case5())),
        1 => Some((solution_broyden1965_case6(), init_broyden1965_case6())),
        2 => Some((solution_broyden1965_case7(), init_broyden1965_case7())),
        3 => Some((solution_broyden1965_case8(), init_broyden1965_case8())),
        4 => Some((solution_broyden1965_case9(), init_broyden1965_case9())),
        5 => Some((solution_broyden1965_case10(), init_broyden1965_case10())),
        6 => Some((DVector::from_element(1, 2f64.sqrt()), DVector::from_element(1, 1.0))),
        _ => Some((DVector::from_element(1, 0.1), DVector::from_element(1, 1.0))),
    };
    if let Some((s, g)) = sol {
        if s.len() != n || g.len() != n {
            v.fail = Some(format!("{}: solution of {} and guess of {} values for {} unknowns", name, s.len(), g.len(), n));
            return v;
        }
        let start: &[f64] = match case {
            0..=3 => &[-1.0; 20],
            4 => &[-1.2, 1.0],
            5 => &[15.0, -2.0],
            _ => g.as_slice(),
        };
        if g.as_slice() != &start[..n] {
            v.fail = Some(format!("{}: the listed guess is {:?}", name, g.as_slice()));
            return v;
        }
        let r = f(&s);
        if !(r.amax() <= 1e-9) {
            v.fail = Some(format!("{}: the listed solution {:?} has residuals {:?}", name, s.as_slice(), r.as_slice()));
        }
    }
    v
}

fn check(c: &RefCase) -> Verdict {
    match c {
        RefCase::OneD { sys, x0, max_iter, tol, dx, fd, tie } => {
            let e = tie.map(|k| error_at(sys, *x0, k, *dx, *fd)).filter(|e| *e > 0.0 && e.is_finite());
            let v = one_d(sys, *x0, *max_iter, e.unwrap_or(*tol), *dx, *fd);
            if e.is_some() { v.class("tolerance equal to an error met") } else { v }
        }
        RefCase::Published { case, x } => published(*case, x),
    }
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(Prop {
        id: "C29",
        rule: "a one-dimensional resolution of at least one iteration compared step by step, or a point of a published system",
        len: 80,
        quick: 2_000_000,
        mult: 20,
        gen,
        check,
        assumptions: &["iterates are compared step by step, each from the same point, up to the rounding of one step"],
    })]
}
