//! Properties of the building blocks, decided by calling them directly.
use crate::engine::*;
use crate::fser;
use crate::fser::*;
use crate::model::*;
use crate::oracle::*;
use crate::sys::Sys;
use crate::with_dim;
use nalgebra::allocator::Allocator;
use nalgebra::{DMatrix, DVector, DefaultAllocator, DimMin, Dyn, U1};
use newton_rootfinder as nrf;
use nrf::errors::SolverInternalError;
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives, PerturbationMethod};
use nrf::model::{Model, ModelError};
use nrf::residuals::*;
use nrf::solver::*;
use serde::{Deserialize, Serialize};

// ------------------------------------------------------------------------------------- C06
fn gen_c06(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want {
            flavors: &[Flavor::Smooth, Flavor::Near, Flavor::Wobbly, Flavor::Nasty],
            analytic: 0,
            norms: 5,
            limits: 1,
            damping: 2,
            faults: 2,
            unusable: true,
            max_iter: 4,
            ..Want::any()
        },
    );
    for (i, p) in c.iters.iter_mut().enumerate() {
        if u.chance(1, 2) {
            p.dx_abs = u.logf(1e-9, 0.5);
            p.dx_rel = u.logf(1e-9, 0.5);
        }
        if u.chance(1, 3) {
            // so that the relative part matters
            c.x0[i] *= u.logf(1.0, 1e6);
        }
    }
    c
}

struct Direct {
    perts: Vec<f64>,
    matrix: Result<Mat, Outcome>,
    holder: Result<Option<Mat>, Outcome>,
    evs: Vec<Ev>,
    mem_before: Vec<f64>,
    mem_after: Vec<f64>,
    start: Pt,
}

fn direct_fd<D>(d: D, c: &RunCase) -> Direct
where
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
{
    let cfg = config_of(c);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let its: Vec<IterativeParamsFD> = c.iters.iter().map(|i| i.fd()).collect();
    let its = Iteratives::new(&its);
    let run = || {
        let mut m = TraceModel::new(d, &c.sys, false, &c.faults);
        m.set_iteratives(&vec_of(d, &c.x0));
        let _ = m.evaluate();
        m
    };
    let mut m = run();
    let start = Pt { x: m.xs(), l: m.ls(), r: m.rs() };
    let mem_before = m.mem.clone();
    let skip = m.evs.borrow().len();
    let perts = its.compute_perturbations(&m.get_iteratives());
    let outcome = |e: &ModelError<TraceModel<'_, D>, D>| match e {
        ModelError::InaccurateValuesError(i) => Outcome::JacModel(false, i.0),
        ModelError::UnusableValuesError(i) => Outcome::JacModel(true, i.0),
    };
    let rows = |m: &nalgebra::OMatrix<f64, D, D>| -> Mat { (0..c.sys.n).map(|i| (0..c.sys.n).map(|j| m[(i, j)]).collect()).collect() };
    let matrix = compute_jacobian_from_finite_difference(&mut m, &perts, &rc).map(|j| rows(&j)).map_err(|e| outcome(&e));
    let mem_after = m.mem.clone();
    let evs = m.evs.into_inner().split_off(skip);
    let mut m2 = run();
    let mut jac = JacobianMatrix::new();
    let holder = match evaluate_jacobian_from_finite_difference(&mut jac, &mut m2, &its, &rc) {
        Ok(()) => Ok(jac.get_jacobian().as_ref().map(rows)),
        Err(SolverInternalError::InvalidJacobianError(e)) => Err(outcome(&e)),
        Err(SolverInternalError::InvalidJacobianInverseError) => Err(Outcome::JacInv),
    };
    Direct { perts: perts.iter().copied().collect(), matrix, holder, evs, mem_before, mem_after, start }
}

fn check_fd_direct(c: &RunCase) -> Result<bool, String> {
    let n = c.sys.n;
    let d = with_dim!(n, c.stat, d, direct_fd(d, c));
    for i in 0..n {
        let want = c.iters[i].dx(c.x0[i]);
        let alone = c.iters[i].fd().compute_perturbation(c.x0[i]);
        if !same_val(alone, d.perts[i]) {
            return Err(format!("unknown {}: the perturbation is {:?} among the others, {:?} alone", i, d.perts[i], alone));
        }
        if c.x0[i].is_finite() && want.is_finite() && !((d.perts[i] - want).abs() <= 1e-14 * want.abs()) {
            return Err(format!("perturbation of unknown {} at {:?}: {:?} instead of {:?} ({:?})", i, c.x0[i], d.perts[i], want, c.iters[i]));
        }
    }
    let evals: Vec<(&Vec<f64>, &Vec<f64>, &Vec<f64>, &Hit)> = d
        .evs
        .iter()
        .filter_map(|e| match e {
            Ev::Eval { x, l, r, hit, .. } => Some((x, l, r, hit)),
            _ => None,
        })
        .collect();
    let fatal = evals.iter().position(|e| matches!(e.3, Some((true, _))));
    if let Some(k) = fatal {
        let Some((_, id)) = evals[k].3 else { unreachable!() };
        if k + 1 != evals.len() {
            return Err("evaluations follow an unusable one".into());
        }
        if d.matrix.as_ref().err() != Some(&Outcome::JacModel(true, *id)) {
            return Err(format!("an unusable evaluation in column {} gives {:?}", k, d.matrix));
        }
        return Ok(true);
    }
    let m = match &d.matrix {
        Ok(m) => m,
        Err(e) => return Err(format!("error {:?} without unusable evaluation", e)),
    };
    match &d.holder {
        Ok(Some(h)) => {
            if !(0..n).all(|i| same_vec(&h[i], &m[i])) {
                return Err(format!("Jacobian stored {:?} differs from the one computed {:?}", h, m));
            }
        }
        Ok(None) => return Err("no Jacobian stored".into()),
        Err(Outcome::JacInv) => {
            if cond(m) < 1e10 && m.iter().flatten().all(|v| v.abs() < 1e60) && matnorm(m) > 1e-60 {
                return Err(format!("Jacobian {:?} refused as singular", m));
            }
        }
        Err(e) => return Err(format!("{:?} when storing the Jacobian", e)),
    }
    if !c.x0.iter().all(|x| x.is_finite()) {
        return Ok(false);
    }
    if c.x0.iter().zip(&d.perts).any(|(x, p)| x + p == *x || !(x + p).is_finite()) {
        return Ok(false);
    }
    if evals.len() != n {
        return Err(format!("{} evaluations for {} unknowns", evals.len(), n));
    }
    let rref = residuals(&d.start.l, &d.start.r, &c.upd);
    let mut seen = vec![false; n];
    for (x, l, r, _) in &evals {
        let moved: Vec<usize> = (0..n).filter(|&i| x[i] != c.x0[i]).collect();
        if moved.len() != 1 || seen[moved[0]] {
            return Err(format!("from {:?}, evaluated at {:?}", c.x0, x));
        }
        let j = moved[0];
        seen[j] = true;
        let dx = c.iters[j].dx(c.x0[j]);
        if (x[j] - (c.x0[j] + dx)).abs() > 4.0 * EPS * (c.x0[j].abs() + dx) {
            return Err(format!("unknown {} perturbed from {:?} to {:?}, dx = {:?}", j, c.x0[j], x[j], dx));
        }
        let rp = residuals(l, r, &c.upd);
        for i in 0..n {
            let want = (rp[i] - rref[i]) / dx;
            let cancel = |a: f64, b: f64| if c.upd[i] == 0 { (a - b).abs() } else { 4.0 + if c.upd[i] == 1 { 4.0 * (a.abs() + b.abs()) / (a + b).abs() * (1.0 + (a - b).abs() / (a + b).abs()) } else { 0.0 } };
            let tol = (32.0 * EPS * (cancel(l[i], r[i]) + cancel(d.start.l[i], d.start.r[i]) + rp[i].abs() + rref[i].abs()) + 1e-300) / dx + 1e-12 * want.abs();
            if !tol.is_finite() || !want.is_finite() || scale_too_big(l, r) {
                continue;
            }
            if !((m[i][j] - want).abs() <= tol) {
                return Err(format!("entry ({}, {}) of the Jacobian is {:?} instead of ({:?} - {:?}) / {:?} = {:?}", i, j, m[i][j], rp[i], rref[i], dx, want));
            }
        }
    }
    Ok(true)
}
fn scale_too_big(l: &[f64], r: &[f64]) -> bool {
    l.iter().chain(r).any(|v| !(v.abs() < 1e100))
}

fn check_c06(c: &RunCase) -> Verdict {
    let direct = match check_fd_direct(c) {
        Err(m) => return Verdict::fail(m),
        Ok(nt) => nt,
    };
    let mut v = super::runs::followed(c, &[Tag::Fd], |_, _, f| f.jacobians > 0);
    v.nontrivial &= direct;
    v
}

// ------------------------------------------------------------------------------------- C07
fn gen_c07(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want { flavors: &[Flavor::Near, Flavor::Smooth, Flavor::Wobbly], analytic: 1, norms: 2, limits: 1, damping: 4, faults: 2, max_iter: 8, ..Want::any() },
    );
    c.sys.mem = u.range(1, 4);
    c.sys.mu = u.f(0.01, 0.6);
    c
}
fn remember(mem: &[f64], x: &[f64]) -> Vec<f64> {
    mem.iter().enumerate().map(|(j, m)| 0.5 * m + x[j % x.len()] + 1.0).collect()
}
fn check_c07(c: &RunCase) -> Verdict {
    let n = c.sys.n;
    // the computation alone: memory restored, columns from the reference memory, whatever their order
    if !c.analytic {
        let mut c1 = c.clone();
        c1.faults.retain(|f| !f.unusable);
        let d = with_dim!(n, c.stat, d, direct_fd(d, &c1));
        if !same_vec(&d.mem_before, &d.mem_after) {
            return Verdict::fail(format!("memory {:?} before the Jacobian, {:?} after it", d.mem_before, d.mem_after));
        }
        for e in &d.evs {
            if let Ev::Eval { x, mem, .. } = e {
                if !same_vec(mem, &d.mem_before) {
                    return Verdict::fail(format!("column at {:?} evaluated with the memory {:?} instead of {:?}", x, mem, d.mem_before));
                }
            }
        }
        // renumbering the unknowns (hence the order of the columns) only reorders the columns
        if let Ok(m) = &d.matrix {
            let perm: Vec<usize> = (0..n).map(|i| (i + 1) % n).collect();
            let mut c2 = c1.clone();
            c2.sys.left = c.sys.left.iter().map(|m| crate::sys::rename(m, &perm)).collect();
            c2.sys.right = c.sys.right.iter().map(|m| crate::sys::rename(m, &perm)).collect();
            c2.sys.mem_of = perm.clone();
            for i in 0..n {
                c2.x0[perm[i]] = c.x0[i];
                c2.iters[perm[i]] = c.iters[i].clone();
            }
            let d2 = with_dim!(n, c.stat, d, direct_fd(d, &c2));
            if let Ok(m2) = &d2.matrix {
                for i in 0..n {
                    for j in 0..n {
                        let (a, b) = (m[i][j], m2[i][perm[j]]);
                        if !(same_val(a, b) || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) + 64.0 * EPS * (d.start.l[i].abs() + d.start.r[i].abs() + 1.0) / c.iters[j].dx(c.x0[j])) && a.is_finite() && c.upd[i] != 1 {
                            return Verdict::fail(format!("entry ({}, {}) is {:?}, {:?} when the unknowns are renumbered", i, j, a, b));
                        }
                    }
                }
            }
        }
    }
    let out = run(c);
    if let Some(b) = out.broken() {
        return Verdict::fail(b);
    }
    let f = follow(c, &out);
    let mut v = Verdict::ok(!c.analytic && f.jacobians > 0 && f.iters >= 1);
    v.classes = super::runs::classes(c, &out, &f);
    // memory along the run
    let mut known: Vec<f64> = vec![0.25; c.sys.mem];
    let mut k = 0;
    for e in &out.evs {
        match e {
            Ev::Eval { x, mem, .. } => {
                let ph = f.phases.get(k).copied().unwrap_or(Phase::Unknown);
                k += 1;
                if ph == Phase::Unknown {
                    break;
                }
                if !same_vec(mem, &known) {
                    v.fail = Some(format!("evaluation {} ({:?}) at {:?} with the memory {:?} instead of {:?}", k - 1, ph, x, mem, known));
                    return v;
                }
                if ph != Phase::Fd {
                    known = remember(&known, x);
                }
            }
            Ev::SetMem(m) => {
                let ph = f.phases.get(k.saturating_sub(1)).copied().unwrap_or(Phase::Unknown);
                if ph == Phase::Unknown {
                    break;
                }
                // nothing but the known memory may be written
                if !same_vec(m, &known) {
                    v.fail = Some(format!("memory set to {:?} after evaluation {} instead of {:?}", m, k.saturating_sub(1), known));
                    return v;
                }
            }
            _ => (),
        }
    }
    let all_known = !f.phases.contains(&Phase::Unknown);
    let complete = matches!(out.outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final);
    if all_known && complete && !same_vec(&out.mem, &known) {
        v.fail = Some(format!("memory {:?} at the end of the run instead of {:?}", out.mem, known));
    }
    v
}

// ------------------------------------------------------------------------------------- C08
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UpdCase {
    n: usize,
    stat: bool,
    #[serde(with = "fser::many")]
    b: Vec<f64>,
    #[serde(with = "fser::many")]
    s: Vec<f64>,
    #[serde(with = "fser::many")]
    y: Vec<f64>,
    #[serde(with = "fser::many")]
    c: Vec<f64>,
}
fn gen_c08(u: &mut Src) -> UpdCase {
    let n = if u.chance(1, 60) {
        u.extend();
        u.range(7, 20)
    } else {
        u.range(1, 6)
    };
    let stat = u.chance(1, 2);
    let dominant = u.chance(2, 3);
    let mag = if u.chance(1, 3) { u.logf(1e-4, 1e4) } else { 1.0 };
    let b = (0..n * n)
        .map(|k| {
            let (i, j) = (k / n, k % n);
            mag * if i == j && dominant { u.f(1.0, 4.0) * if u.chance(1, 4) { -1.0 } else { 1.0 } } else { u.f(-1.0, 1.0) * if dominant { 0.9 / n as f64 } else { 2.0 } }
        })
        .collect();
    let small = if u.chance(1, 3) { u.logf(1e-8, 1.0) } else { 1.0 };
    let v = |u: &mut Src| -> Vec<f64> { (0..n).map(|_| small * u.f(-2.0, 2.0)).collect() };
    let s = v(u);
    let y = if u.chance(1, 2) {
        v(u)
    } else {
        // close to consistent with b
        let bm: &Vec<f64> = &b;
        let bm: Vec<f64> = bm.to_vec();
        (0..n).map(|i| (0..n).map(|j| bm[i * n + j] * s[j]).sum::<f64>() * (1.0 + u.f(-0.3, 0.3))).collect()
    };
    let c = v(u);
    UpdCase { n, stat, b, s, y, c }
}
fn outer_update(b: &Mat, num: &[f64], ctj: &[f64], den: f64) -> Mat {
    let n = b.len();
    (0..n).map(|i| (0..n).map(|j| b[i][j] - num[i] * ctj[j] / den).collect()).collect()
}
fn check_c08(c: &UpdCase) -> Verdict {
    let n = c.n;
    fn go<D>(d: D, c: &UpdCase) -> Result<(bool, Vec<&'static str>), String>
    where
        D: DimMin<D, Output = D>,
        DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
    {
        let n = c.n;
        let b: Mat = (0..n).map(|i| c.b[i * n..(i + 1) * n].to_vec()).collect();
        let Some(h) = inverse(&b) else { return Ok((false, vec!["singular"])) };
        let cnd = cond(&b);
        if !(cnd < 1e6) {
            return Ok((false, vec!["ill conditioned"]));
        }
        let rows = |m: &nalgebra::OMatrix<f64, D, D>| -> Mat { (0..n).map(|i| (0..n).map(|j| m[(i, j)]).collect()).collect() };
        let (bn, hn) = (mat_of(d, &b), mat_of(d, &h));
        let (s, y, cc) = (vec_of(d, &c.s), vec_of(d, &c.y), vec_of(d, &c.c));
        let mut judged = 0;
        let mut classes = vec![];
        let ht: Mat = (0..n).map(|i| (0..n).map(|j| h[j][i]).collect()).collect();
        let hy = matvec(&h, &c.y);
        // (name, the row vector ctJ and cH of the documented formulas, jac form, inverse form)
        type Form<D> = Option<nalgebra::OMatrix<f64, D, D>>;
        let cases: Vec<(&'static str, UpdateQuasiNewtonMethod, Vec<f64>, Vec<f64>, Form<D>, Form<D>)> = vec![
            (
                "Broyden 1",
                UpdateQuasiNewtonMethod::BroydenFirstMethod,
                c.s.clone(),
                vecmat(&c.s, &h),
                Some(broyden_first_method_udpate_jac(&bn, &s, &y)),
                Some(broyden_first_method_udpate_inv_jac(&hn, &s, &y)),
            ),
            (
                "Broyden 2",
                UpdateQuasiNewtonMethod::BroydenSecondMethod,
                vecmat(&c.y, &b),
                c.y.clone(),
                Some(broyden_second_method_udpate_jac(&bn, &s, &y)),
                Some(broyden_second_method_udpate_inv_jac(&hn, &s, &y)),
            ),
            (
                "general (Greenstadt 1)",
                UpdateQuasiNewtonMethod::GreenstadtFirstMethod,
                vecmat(&c.c, &b),
                c.c.clone(),
                Some(quasi_method_update_jac(&bn, &s, &y, &cc)),
                Some(quasi_method_update_inv_jac(&hn, &s, &y, &cc)),
            ),
            (
                "Greenstadt 2",
                UpdateQuasiNewtonMethod::GreenstadtSecondMethod,
                hy.clone(),
                matvec(&ht, &hy),
                Some(greenstadt_second_method_udpate_jac(&bn, &s, &y, &vec_of(d, &hy))),
                None,
            ),
        ];
        for (name, method, ctj, ch, jform, hform) in &cases {
            let dj = dot(ctj, &c.s);
            let dh = dot(ch, &c.y);
            let aj = norm2(ctj) * norm2(&c.s) / dj.abs();
            let ah = norm2(ch) * norm2(&c.y) / dh.abs();
            if !(aj < 1e5) || !(ah < 1e5) {
                continue;
            }
            judged += 1;
            classes.push(*name);
            let bs = matvec(&b, &c.s);
            let want_j = outer_update(&b, &sub(&bs, &c.y), ctj, dj);
            let want_h = outer_update(&h, &sub(&matvec(&h, &c.y), &c.s), ch, dh);
            let tj = 1e-12 * cnd * aj * aj * (matnorm(&b) + norm2(&sub(&bs, &c.y)) * norm2(ctj) / dj.abs());
            let th = 1e-12 * cnd * ah * ah * (matnorm(&h) + norm2(&sub(&matvec(&h, &c.y), &c.s)) * norm2(ch) / dh.abs());
            let close = |a: &Mat, w: &Mat, t: f64| a.iter().zip(w).all(|(p, q)| p.iter().zip(q).all(|(x, y)| (x - y).abs() <= t));
            // through the dispatching functions, from the true Jacobian
            let mut holder = JacobianMatrix::new();
            if holder.update_jacobian_with_exact_value(bn.clone()).is_err() {
                return Err(format!("{:?} refused as singular", b));
            }
            let dispatched = approximate_jacobian(&mut holder, *method, &s, &y, &cc);
            let dj_form = match &dispatched {
                Ok(()) => holder.get_jacobian().as_ref().map(rows),
                Err(_) => {
                    if cond(&want_j) < 1e8 {
                        return Err(format!("{}: the update {:?} is refused as singular", name, want_j));
                    }
                    None
                }
            };
            let mut holder = JacobianMatrix::new();
            let _ = holder.update_jacobian_with_exact_value(bn.clone());
            approximate_inv_jacobian(&mut holder, *method, &s, &y, &cc);
            let dh_form = match holder.get_inverse().as_ref() {
                Some(m) => Some(rows(m)),
                None => return Err(format!("{}: no inverse after its update", name)),
            };
            let forms = [("function", jform.as_ref().map(rows), true), ("dispatch", dj_form, true), ("function", hform.as_ref().map(rows), false), ("dispatch", dh_form, false)];
            for (origin, form, is_jac) in forms {
                let Some(m) = form else { continue };
                let (want, tol, kind) = if is_jac { (&want_j, tj, "Jacobian") } else { (&want_h, th, "inverse") };
                if !close(&m, want, tol) {
                    return Err(format!("{} ({}, {}): {:?} instead of {:?} (tolerance {:e})", name, kind, origin, m, want, tol));
                }
                // secant equation
                let (lhs, rhs) = if is_jac { (matvec(&m, &c.s), &c.y) } else { (matvec(&m, &c.y), &c.s) };
                let scale = if is_jac { norm2(&c.s) } else { norm2(&c.y) };
                if !(norm2(&sub(&lhs, rhs)) <= tol * scale * 4.0 + 1e-13 * norm2(rhs)) {
                    return Err(format!("{} ({}, {}): the secant equation gives {:?} instead of {:?}", name, kind, origin, lhs, rhs));
                }
            }
            // the two forms are inverse of each other
            let (cj, chh) = (cond(&want_j), cond(&want_h));
            if cj < 1e6 && chh < 1e6 {
                if let Some(hf) = hform {
                    let p = matmul(&rows(jform.as_ref().unwrap()), &rows(hf));
                    let tol = tj * matnorm(&want_h) * n as f64 * 4.0 + th * matnorm(&want_j) * n as f64 * 4.0 + 1e-10;
                    if tol < 1e-3 {
                        for (i, row) in p.iter().enumerate() {
                            for (j, v) in row.iter().enumerate() {
                                if !((v - if i == j { 1.0 } else { 0.0 }).abs() <= tol) {
                                    return Err(format!("{}: the Jacobian form times the inverse form is {:?}", name, p));
                                }
                            }
                        }
                    }
                }
            }
        }
        Ok((judged >= 1, classes))
    }
    match with_dim!(n, c.stat, d, go(d, c)) {
        Err(m) => Verdict::fail(m),
        Ok((nt, classes)) => {
            let mut v = Verdict::ok(nt);
            v.classes = classes;
            v
        }
    }
}

// ------------------------------------------------------------------------------------- C10
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct StepCase {
    iters: Vec<IterP>,
    #[serde(with = "fser::many")]
    x: Vec<f64>,
    #[serde(with = "fser::many")]
    raw: Vec<f64>,
    stat: bool,
}
pub fn gen_wild_iterp(u: &mut Src) -> IterP {
    let mut p = IterP::free();
    let pos = |u: &mut Src| {
        let v = u.wild().abs();
        if v > 0.0 {
            v
        } else {
            1.0
        }
    };
    if u.chance(1, 2) {
        p.max_step_abs = if u.chance(1, 3) { pos(u) } else { u.logf(1e-3, 10.0) };
    }
    if u.chance(1, 2) {
        p.max_step_rel = if u.chance(1, 3) { pos(u) } else { u.logf(1e-3, 10.0) };
    }
    if u.chance(1, 2) {
        let (a, b) = if u.chance(1, 3) { (u.wild(), u.wild()) } else { (u.f(-5.0, 5.0), u.f(-5.0, 5.0)) };
        if a < b {
            p.min = a;
            p.max = b;
        } else if b < a {
            p.min = b;
            p.max = a;
        }
        match u.below(4) {
            0 => p.min = f64::NEG_INFINITY,
            1 => p.max = f64::INFINITY,
            _ => (),
        }
        if !(p.min < p.max) {
            p.min = f64::NEG_INFINITY;
            p.max = f64::INFINITY;
        }
    }
    p
}
fn gen_c10(u: &mut Src) -> StepCase {
    let n = if u.chance(1, 60) {
        u.extend();
        u.range(7, 20)
    } else {
        u.range(1, 5)
    };
    let stat = u.chance(1, 2);
    let mut c = StepCase { iters: vec![], x: vec![], raw: vec![], stat };
    for _ in 0..n {
        let p = gen_wild_iterp(u);
        let x = match u.below(4) {
            0 => u.f(-5.0, 5.0),
            1 => u.wild(),
            2 if p.min.is_finite() => p.min,
            2 if p.max.is_finite() => p.max,
            _ => u.f(-5.0, 5.0),
        };
        let raw = match u.below(6) {
            0 => u.f(-10.0, 10.0),
            1 => u.wild(),
            2 if p.max_step_abs.is_finite() => p.max_step_abs * u.pick(&[1.0, -1.0, 1.0 + EPS, 1.0 - EPS, -2.0]),
            3 if p.max_step_rel.is_finite() => p.max_step_rel * x * u.pick(&[1.0, -1.0, 1.0 + EPS, 2.0]),
            4 if p.max.is_finite() => p.max - x,
            5 if p.min.is_finite() => p.min - x,
            _ => u.f(-1.0, 1.0),
        };
        c.iters.push(p);
        c.x.push(x);
        c.raw.push(raw);
    }
    c
}
fn check_c10(c: &StepCase) -> Verdict {
    let n = c.iters.len();
    let plain: Vec<IterativeParams> = c.iters.iter().map(|p| p.plain()).collect();
    let fd: Vec<IterativeParamsFD> = c.iters.iter().map(|p| p.fd()).collect();
    let mut v = Verdict::ok(false);
    for i in 0..n {
        let (p, x, raw) = (&c.iters[i], c.x[i], c.raw[i]);
        let got = plain[i].step_limitation(x, raw);
        let got_fd = fd[i].step_limitation(x, raw);
        if !same_val(got, got_fd) {
            v.fail = Some(format!("step limitation of {:?} from {:?} by {:?}: {:?} without finite differences, {:?} with", p, x, raw, got, got_fd));
            return v;
        }
        let ctx = format!("from {:?} by {:?}, max_step_abs = {:?}, max_step_rel = {:?}, bounds [{:?}, {:?}]: {:?}", x, raw, p.max_step_abs, p.max_step_rel, p.min, p.max, got);
        if raw.is_nan() {
            v.classes.push("NaN step");
            if !(got.is_nan() || got == x) {
                v.fail = Some(format!("a NaN step moves {}", ctx));
                return v;
            }
            continue;
        }
        if x.is_nan() {
            if !got.is_nan() {
                v.fail = Some(format!("a NaN value becomes a number {}", ctx));
                return v;
            }
            continue;
        }
        let rel = p.max_step_rel * x.abs();
        if rel.is_nan() && x == 0.0 {
            v.classes.push("zero value with unlimited relative step");
        }
        if x.is_infinite() && raw.is_infinite() && (x > 0.0) != (raw > 0.0) {
            continue;
        }
        if !(got >= p.min && got <= p.max) {
            v.fail = Some(format!("out of the bounds: {}", ctx));
            return v;
        }
        let want = limit(p, x, raw);
        if want.is_nan() {
            continue;
        }
        v.nontrivial = true;
        let len = (want - x).abs();
        let tol = 4.0 * EPS * (x.abs() + len) + 1e-320;
        if !(same_val(got, want) || (got - want).abs() <= tol) {
            v.fail = Some(format!("{:?} expected: {}", want, ctx));
            return v;
        }
        // a step within all the limits is taken exactly
        let free = raw.abs() <= p.max_step_abs && !(raw.abs() > rel) && x + raw >= p.min && x + raw <= p.max;
        if free {
            v.classes.push("free step");
            if !same_val(got, x + raw) {
                v.fail = Some(format!("the step is within the limits but not taken exactly: {}", ctx));
                return v;
            }
        } else if same_val(got, p.min) || same_val(got, p.max) {
            v.classes.push("brought to a bound");
        } else {
            v.classes.push("limited step");
        }
    }
    let vector = with_dim!(n, c.stat, d, {
        let a = Iteratives::new(&plain).step_limitations(&vec_of(d, &c.x), &vec_of(d, &c.raw));
        let b = Iteratives::new(&fd).step_limitations(&vec_of(d, &c.x), &vec_of(d, &c.raw));
        (a.iter().copied().collect::<Vec<f64>>(), b.iter().copied().collect::<Vec<f64>>())
    });
    let each: Vec<f64> = (0..n).map(|i| plain[i].step_limitation(c.x[i], c.raw[i])).collect();
    if !same_vec(&vector.0, &each) || !same_vec(&vector.1, &each) {
        v.fail = Some(format!("limitation of the vector {:?} / {:?}, of each unknown {:?}", vector.0, vector.1, each));
    }
    v
}

// ------------------------------------------------------------------------------------- C16
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NormCase {
    #[serde(with = "fser::one")]
    x: f64,
    #[serde(with = "fser::one")]
    y: f64,
    #[serde(with = "fser::one")]
    dx: f64,
    #[serde(with = "fser::one")]
    dy: f64,
    pow: i32,
}
fn tame(v: f64) -> f64 {
    if v.is_finite() && (v == 0.0 || (v.abs() < 1e140 && v.abs() > 1e-140)) {
        v
    } else {
        0.5
    }
}
fn gen_c16(u: &mut Src) -> NormCase {
    let x = if u.chance(1, 2) { u.f(-100.0, 100.0) } else { u.wild() };
    let y = match u.below(6) {
        0 => u.f(-100.0, 100.0),
        1 => x,
        2 => -x,
        3 => x * (1.0 + u.f(-1e-6, 1e-6)),
        4 => -x * (1.0 + u.f(-1e-3, 1e-3)),
        _ => u.wild(),
    };
    NormCase { x, y, dx: u.f(-5.0, 5.0), dy: u.f(-5.0, 5.0), pow: u.below(41) as i32 - 20 }
}
fn check_c16(c: &NormCase) -> Verdict {
    let (x, y) = (c.x, c.y);
    let mut v = Verdict::ok(false);
    if !x.is_finite() || !y.is_finite() {
        for m in 0..3u8 {
            let r = normalization(x, y, norm(m));
            if r.is_finite() {
                v.fail = Some(format!("{:?} normalization of {:?} and {:?} is {:?}, a finite residual", norm(m), x, y, r));
            }
        }
        v.nontrivial = true;
        return v.class("non finite members");
    }
    let (x, y) = (tame(x), tame(y));
    let abs = normalization(x, y, NormalizationMethod::Abs);
    let close = |a: f64, b: f64| same_val(a, b) || (a - b).abs() <= 16.0 * EPS * b.abs() + 1e-300;
    for m in 0..3u8 {
        let r = normalization(x, y, norm(m));
        let want = normalize(x, y, m);
        if !close(r, want) {
            v.fail = Some(format!("{:?} normalization of {:?} and {:?}: {:?} instead of {:?}", norm(m), x, y, r, want));
            return v;
        }
        let anti = normalization(y, x, norm(m));
        let neg = normalization(-x, -y, norm(m));
        if !close(anti, -r) || !close(neg, -r) {
            v.fail = Some(format!("{:?} normalization of {:?} and {:?}: {:?}; exchanged: {:?}; negated: {:?}", norm(m), x, y, r, anti, neg));
            return v;
        }
        if x == y && x + y != 0.0 && r != 0.0 {
            v.fail = Some(format!("{:?} normalization of equal members {:?}: {:?}", norm(m), x, r));
            return v;
        }
        if x != y && r == 0.0 {
            v.fail = Some(format!("{:?} normalization of different members {:?} and {:?} is zero", norm(m), x, y));
            return v;
        }
        let scale = 2f64.powi(c.pow);
        let scaled = normalization(x * scale, y * scale, norm(m));
        let want_scaled = match m {
            0 => r * scale,
            1 => r,
            _ => normalize(x * scale, y * scale, 2),
        };
        if !close(scaled, want_scaled) {
            v.fail = Some(format!("{:?} normalization of {:?} and {:?} is {:?}, times {:?}: {:?} instead of {:?}", norm(m), x, y, r, scale, scaled, want_scaled));
            return v;
        }
        if m == 2 && r.abs() > abs.abs() {
            v.fail = Some(format!("adaptive normalization {:?} greater than the difference {:?}", r, abs));
            return v;
        }
        if x - y > 0.0 && r < 0.0 || x - y < 0.0 && r > 0.0 {
            v.fail = Some(format!("{:?} normalization of {:?} and {:?} has the wrong sign: {:?}", norm(m), x, y, r));
            return v;
        }
    }
    v.nontrivial = x != y;
    v
}

// ------------------------------------------------------------------------------------- C17
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DerivCase {
    one: NormCase,
    run: RunCase,
}
fn gen_c17(u: &mut Src) -> DerivCase {
    let mut one = gen_c16(u);
    one.x = tame(one.x).clamp(-1e6, 1e6);
    one.y = tame(one.y).clamp(-1e6, 1e6);
    let mut run = gen_run(u, &Want { flavors: &[Flavor::Smooth, Flavor::Near, Flavor::Wobbly], analytic: 8, norms: 7, ..Want::any() });
    run.upd = (0..run.sys.n).map(|_| u.below(3) as u8).collect();
    DerivCase { one, run }
}
fn deriv_tol(x: f64, y: f64, dx: f64, dy: f64, m: u8) -> f64 {
    let base = if m == 1 { 0.0 } else { 1.0 };
    let den = if m == 0 { 1.0 } else { base + 0.5 * (x + y).abs() };
    let d = dx.abs() + dy.abs();
    // relative error of the sum of the members amplifies everything
    let amp = if m == 1 { (x.abs() + y.abs()) / (x + y).abs() } else { 1.0 };
    64.0 * EPS * amp * (d / den + if m == 0 { 0.0 } else { (x - y).abs() / den * d / den }) + 1e-300
}
fn check_c17(c: &DerivCase) -> Verdict {
    let o = &c.one;
    let mut v = Verdict::ok(false);
    for m in 0..3u8 {
        let sum = o.x + o.y;
        if m != 0 && !(sum.abs() > 1e-6 * (o.x.abs() + o.y.abs())) {
            continue;
        }
        let got = deriv_normalization(o.x, o.y, o.dx, o.dy, norm(m));
        let want = dnormalize(o.x, o.y, o.dx, o.dy, m);
        if !((got - want).abs() <= deriv_tol(o.x, o.y, o.dx, o.dy, m)) {
            v.fail = Some(format!("derivative of the {:?} normalization at {:?}, {:?} along {:?}, {:?}: {:?} instead of {:?}", norm(m), o.x, o.y, o.dx, o.dy, got, want));
            return v;
        }
        // against the normalization itself
        let big = o.x.abs() + o.y.abs() + 1.0;
        if sum.abs() > 1e-3 * big {
            let h = 1e-5 * sum.abs() / (o.dx.abs() + o.dy.abs() + 1.0);
            let f = |t: f64| normalization(o.x + t * o.dx, o.y + t * o.dy, norm(m));
            let num = (f(h) - f(-h)) / (2.0 * h);
            let size = (o.dx.abs() + o.dy.abs()) * (1.0 + (o.x - o.y).abs() / sum.abs()) / if m == 0 { 1.0 } else { sum.abs() * 0.5 + if m == 2 { 1.0 } else { 0.0 } };
            let noise = 16.0 * EPS * (big * if m == 0 { 1.0 } else { 2.0 / sum.abs().min(big) * (1.0 + big / sum.abs()) }) / h;
            if !((num - got).abs() <= 1e-4 * size + noise) {
                v.fail = Some(format!("derivative of the {:?} normalization at {:?}, {:?} along {:?}, {:?}: {:?}, numerically {:?}", norm(m), o.x, o.y, o.dx, o.dy, got, num));
                return v;
            }
            v.nontrivial = true;
        }
    }
    // a whole system
    let r = &c.run;
    let n = r.sys.n;
    let (l, rr, dl, dr) = (r.sys.left(&r.x0), r.sys.right(&r.x0), r.sys.dleft(&r.x0), r.sys.dright(&r.x0));
    if scale_too_big(&l, &rr) || dl.iter().chain(&dr).flatten().any(|x| !(x.abs() < 1e100)) {
        return v;
    }
    let cfg = config_of(r);
    let (mat, evaluated) = with_dim!(n, r.stat, d, {
        let values = ResidualsValues::new(vec_of(d, &l), vec_of(d, &rr));
        let jac = JacobianValues::new(mat_of(d, &dl), mat_of(d, &dr));
        let m = jac.normalize(&values, &cfg.upd);
        let rows: Mat = (0..n).map(|i| (0..n).map(|j| m[(i, j)]).collect()).collect();
        let mut model = TraceModel::new(d, &r.sys, true, &[]);
        model.set_iteratives(&vec_of(d, &r.x0));
        let _ = model.evaluate();
        let mut holder = JacobianMatrix::new();
        let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
        let res = evaluate_jacobian_from_analytical_function(&mut holder, &mut model, &rc).is_ok();
        let h: Option<Mat> = holder.get_jacobian().as_ref().map(|m| (0..n).map(|i| (0..n).map(|j| m[(i, j)]).collect()).collect());
        let evs = model.evs.borrow().iter().filter(|e| matches!(e, Ev::Eval { .. })).count();
        (rows, (res, h, evs))
    });
    for i in 0..n {
        for j in 0..n {
            if r.upd[i] != 0 && !((l[i] + rr[i]).abs() > 1e-6 * (l[i].abs() + rr[i].abs())) {
                continue;
            }
            let want = dnormalize(l[i], rr[i], dl[i][j], dr[i][j], r.upd[i]);
            let tol = deriv_tol(l[i], rr[i], dl[i][j], dr[i][j], r.upd[i]);
            if !((mat[i][j] - want).abs() <= tol) {
                v.fail = Some(format!("entry ({}, {}) of the normalized Jacobian: {:?} instead of {:?} (members {:?} = {:?}, derivatives {:?} = {:?}, {:?})", i, j, mat[i][j], want, l[i], rr[i], dl[i][j], dr[i][j], norm(r.upd[i])));
                return v;
            }
        }
    }
    if evaluated.0 {
        match &evaluated.1 {
            Some(h) if (0..n).all(|i| same_vec(&h[i], &mat[i])) => (),
            h => v.fail = Some(format!("the Jacobian stored {:?} is not the normalized one {:?}", h, mat)),
        }
    } else if cond(&mat) < 1e8 && matnorm(&mat) > 1e-60 {
        v.fail = Some(format!("regular Jacobian {:?} refused", mat));
    }
    if evaluated.2 != 1 {
        v.fail = Some("the model is evaluated to get its analytic Jacobian".into());
    }
    v
}

// ------------------------------------------------------------------------------------- C18
fn gen_c18(u: &mut Src) -> (RunCase, Vec<u8>, String) {
    let mut c = gen_run(u, &Want { flavors: &[Flavor::Near, Flavor::Smooth, Flavor::Wobbly, Flavor::Affine], damping: 0, norms: 7, ..Want::any() });
    c.damping = false;
    c.tol = u.logf(1e-9, 1.0);
    let stop2 = (0..c.sys.n).map(|_| u.below(3) as u8).collect();
    let tol2 = if u.chance(1, 3) { u.logf(1e-12, 1.0) } else { c.tol };
    (c, stop2, show(tol2))
}
fn check_c18(k: &(RunCase, Vec<u8>, String)) -> Verdict {
    let (c, stop2, tol2) = k;
    let n = c.sys.n;
    // the residuals at the guess, per equation
    let (l, r) = (c.sys.left(&c.x0), c.sys.right(&c.x0));
    let cfg = config_of(c);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    if rc.len() != n || rc.get_stopping_criterias() != &cfg.stop[..] || rc.get_update_methods() != &cfg.upd[..] {
        return Verdict::fail("the residual configuration does not return what it was given");
    }
    let pairs: Vec<ResidualConfig> = (0..n).map(|i| ResidualConfig::new(cfg.stop[i], cfg.upd[i])).collect();
    if pairs.iter().zip(0..).any(|(p, i)| p.get_stopping_criteria() != cfg.stop[i] || p.get_update_method() != cfg.upd[i]) {
        return Verdict::fail("ResidualConfig mixes its methods");
    }
    let (s2, u2) = ResidualsConfig::convert_into_vecs(pairs);
    if s2 != cfg.stop || u2 != cfg.upd {
        return Verdict::fail(format!("convert_into_vecs gives {:?}, {:?} instead of {:?}, {:?}", s2, u2, cfg.stop, cfg.upd));
    }
    let (st, up) = with_dim!(n, c.stat, d, {
        let values = ResidualsValues::new(vec_of(d, &l), vec_of(d, &r));
        let st: Vec<f64> = rc.evaluate_stopping_residuals(&values).iter().copied().collect();
        let up: Vec<f64> = rc.evaluate_update_residuals(&values).iter().copied().collect();
        (st, up)
    });
    for i in 0..n {
        let (ws, wu) = (normalization(l[i], r[i], cfg.stop[i]).abs(), normalization(l[i], r[i], cfg.upd[i]));
        if !same_val(st[i], ws) || !same_val(up[i], wu) {
            return Verdict::fail(format!(
                "equation {} ({:?} = {:?}): stopping residual {:?} instead of {:?} ({:?}), update residual {:?} instead of {:?} ({:?})",
                i, l[i], r[i], st[i], ws, cfg.stop[i], up[i], wu, cfg.upd[i]
            ));
        }
    }
    // runs
    let a = run(c);
    let c2 = RunCase { stop: stop2.clone(), tol: tol2.parse().unwrap(), ..c.clone() };
    let b = run(&c2);
    if let Some(m) = a.broken().or(b.broken()) {
        return Verdict::fail(m);
    }
    let (pa, pb) = (a.points(), b.points());
    let m = pa.len().min(pb.len());
    let mut v = Verdict::ok(m >= 3 && (c2.stop != c.stop || c2.tol != c.tol));
    if pa.len() != pb.len() {
        v.classes.push("stopping at different iterations");
    }
    if c2.stop != c.stop {
        v.classes.push("different stopping methods");
    }
    if (0..m).any(|i| !same_vec(pa[i], pb[i])) {
        v.fail = Some(format!("stopping methods {:?} (tolerance {:?}) visit {:?}, {:?} (tolerance {:?}) visit {:?}", c.stop, c.tol, pa, c2.stop, c2.tol, pb));
    }
    v
}

// ------------------------------------------------------------------------------------- C27
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConfCase {
    p: IterP,
    sizes: Vec<usize>,
    method: usize,
    damping: bool,
    #[serde(with = "fser::one")]
    tol: f64,
    max_iter: usize,
    norms: Vec<u8>,
    fd: bool,
    #[serde(with = "fser::one")]
    shift: f64,
}
fn gen_c27(u: &mut Src) -> ConfCase {
    let mut p = IterP::free();
    let odd = |u: &mut Src, good: f64| if u.chance(1, 6) { u.wild() } else { good };
    let g = u.logf(1e-6, 1e6);
    p.max_step_abs = odd(u, g);
    let g = u.logf(1e-6, 1e6);
    p.max_step_rel = odd(u, g);
    let g = u.f(-5.0, 0.0);
    p.min = odd(u, g);
    let g = u.f(0.0, 5.0) + 0.001;
    p.max = if u.chance(1, 12) { p.min } else { odd(u, g) };
    let close = u.chance(1, 16);
    if close && p.min.is_finite() {
        // bounds that differ by little, either way
        p.max = p.min;
        for _ in 0..u.range(0, 3) {
            p.max = p.max.next_up();
        }
        if u.chance(1, 4) {
            std::mem::swap(&mut p.min, &mut p.max);
        }
    }
    let g = u.logf(1e-9, 1e-3);
    p.dx_abs = odd(u, g);
    let g = u.logf(1e-9, 1e-3);
    p.dx_rel = odd(u, g);
    p.sum = u.chance(1, 2);
    let base = u.range(1, 5);
    let sizes = (0..8).map(|_| if u.chance(1, 8) { u.below(6) } else { base }).collect();
    ConfCase {
        p,
        sizes,
        method: u.below(10),
        damping: u.chance(1, 2),
        tol: u.wild(),
        max_iter: if u.chance(1, 8) { u.pick(&[usize::MAX, 1 << 32, 65536, 256]) } else { u.below(1000) },
        norms: (0..12).map(|_| u.below(3) as u8).collect(),
        fd: u.chance(1, 2),
        shift: u.f(-2.0, 2.0),
    }
}
fn check_c27(c: &ConfCase) -> Verdict {
    let p = &c.p;
    let mut v = Verdict::ok(true);
    let valid = p.max_step_abs > 0.0 && p.max_step_rel > 0.0 && p.min < p.max;
    let valid_dx = p.dx_abs > 0.0 && p.dx_rel > 0.0;
    let pert = |m: PerturbationMethod| format!("{:?}", m);
    // --- iterative variables
    let got = caught(|| p.plain());
    match &got {
        Ok(_) if !valid => v.fail = Some(format!("accepted: {:?}", p)),
        Err(e) if valid => v.fail = Some(format!("refused: {:?}: {}", p, e)),
        Ok(q) => {
            if !(same(q.get_max_step_abs(), p.max_step_abs) && same(q.get_max_step_rel(), p.max_step_rel) && same(q.get_min_value(), p.min) && same(q.get_max_value(), p.max)) {
                v.fail = Some(format!("{:?} is read back as {:?}", p, q));
            }
        }
        _ => (),
    }
    v.classes.push(if valid { "valid limits" } else { "invalid limits" });
    v.classes.push(if valid_dx { "valid perturbations" } else { "invalid perturbations" });
    let fd = caught(|| p.fd());
    let ext = if valid { Some(caught(|| IterativeParamsFD::extend(p.plain(), p.dx_abs, p.dx_rel, p.pert()))) } else { None };
    for (name, ok, got) in [("new", valid && valid_dx, Some(fd)), ("extend", valid_dx, ext)] {
        match got {
            None => (),
            Some(Ok(_)) if !ok => v.fail = Some(format!("accepted by {}: {:?}", name, p)),
            Some(Err(e)) if ok => v.fail = Some(format!("refused by {}: {:?}: {}", name, p, e)),
            Some(Ok(q)) => {
                if !(same(q.get_max_step_abs(), p.max_step_abs)
                    && same(q.get_max_step_rel(), p.max_step_rel)
                    && same(q.get_min_value(), p.min)
                    && same(q.get_max_value(), p.max)
                    && same(q.get_dx_abs(), p.dx_abs)
                    && same(q.get_dx_rel(), p.dx_rel)
                    && pert(q.get_perturbation_method()) == pert(p.pert())
                    && q.get_iterative_params() == &p.plain()
                    && q.with_finite_diff())
                {
                    v.fail = Some(format!("{}: {:?} is read back as {:?}", name, p, q));
                }
            }
            _ => (),
        }
    }
    // --- parameters
    let sp = SolverParameters::new(c.sizes[0], c.tol, c.max_iter, method(c.method), c.damping);
    if sp.get_problem_size() != c.sizes[0] || !same(sp.get_tolerance(), c.tol) || sp.get_max_iter() != c.max_iter || sp.get_resolution_method() != method(c.method) || sp.get_damping() != c.damping {
        v.fail = Some(format!("solver parameters read back as {:?}", sp));
    }
    // --- sizes
    let s = &c.sizes;
    let vec = |n: usize| DVector::from_element(n, 1.0);
    let dims = |what: &str, good: bool, got: Result<(), String>, v: &mut Verdict| {
        if good != got.is_ok() {
            v.fail = Some(format!("{}: sizes {:?} {}", what, s, if good { format!("refused: {:?}", got) } else { "accepted".into() }));
        }
    };
    let g = caught(|| {
        let r = ResidualsValues::new(vec(s[1]), vec(s[2]));
        assert_eq!(r.len(), s[1]);
    });
    dims("ResidualsValues", s[1] == s[2], g, &mut v);
    let g = caught(|| {
        JacobianValues::<Dyn>::new(DMatrix::zeros(s[1], s[2]), DMatrix::zeros(s[3], s[4]));
    });
    dims("JacobianValues", s[1] == s[2] && s[3] == s[4] && s[1] == s[3], g, &mut v);
    let methods = |k: usize, n: usize| -> Vec<NormalizationMethod> { (0..n).map(|i| norm(c.norms[(i + k) % 12])).collect() };
    let g = caught(|| {
        let (a, b) = (methods(0, s[5]), methods(3, s[6]));
        let r = ResidualsConfig::new(&a, &b);
        assert_eq!(r.len(), s[5]);
    });
    dims("ResidualsConfig", s[5] == s[6], g, &mut v);
    let g = caught(|| {
        let (a, b) = (methods(0, s[1]), methods(3, s[1]));
        let r = ResidualsConfig::new(&a, &b);
        let guess = DVector::from_element(s[2], 0.5);
        if c.fd {
            let it = nrf::iteratives::default_vec_iteratives_fd(s[3]);
            let it = Iteratives::new(&it);
            let _ = RootFinder::new(SolverParameters::new(s[0], 1e-6, 5, method(c.method), c.damping), guess, &it, &r);
        } else {
            let it = nrf::iteratives::default_vec_iteratives(s[3]);
            let it = Iteratives::new(&it);
            let _ = RootFinder::new(SolverParameters::new(s[0], 1e-6, 5, method(c.method), c.damping), guess, &it, &r);
        }
    });
    dims("RootFinder", s[0] == s[1] && s[0] == s[2] && s[0] == s[3], g, &mut v);
    if v.fail.is_some() {
        return v;
    }
    // --- defaults
    let n = s[7].max(1);
    let inf = f64::INFINITY;
    let free = IterativeParams::new(inf, inf, -inf, inf);
    let free_fd = IterativeParamsFD::new(inf, inf, -inf, inf, 5e-8, 5e-8, PerturbationMethod::Max);
    let d1 = nrf::iteratives::default_vec_iteratives(n);
    let d2 = nrf::iteratives::default_vec_iteratives_fd(n);
    let d3 = default_vec_residuals(n);
    let res = ResidualConfig::new(NormalizationMethod::Abs, NormalizationMethod::Abs);
    if d1.len() != n || d1.iter().any(|p| *p != free) || d2.len() != n || d2.iter().any(|p| *p != free_fd) || d3.len() != n || d3.iter().any(|p| *p != res) {
        v.fail = Some(format!("defaults: {:?} {:?} {:?}", d1, d2, d3));
        return v;
    }
    if IterativeParams::default() != free || IterativeParamsFD::default() != free_fd || ResidualConfig::default() != res {
        v.fail = Some("Default implementations differ from the documented defaults".into());
        return v;
    }
    // tolerance 1e-6 and 50 iterations: an equation without root, then one converged or not at the guess
    let stop = vec![NormalizationMethod::Abs; n];
    let rc = ResidualsConfig::new(&stop, &stop);
    let it = nrf::iteratives::default_vec_iteratives_fd(n);
    let it = Iteratives::new(&it);
    let count = std::cell::Cell::new(0usize);
    let shift = c.shift;
    let noroot = |x: &DVector<f64>| -> DVector<f64> {
        count.set(count.get() + 1);
        x.map(|a| a * 1e-3 + 7.0 + 1e-4 * (a + shift).sin() + count.get() as f64 * 10.0)
    };
    let eye = |x: &DVector<f64>| -> DMatrix<f64> { DMatrix::identity(x.len(), x.len()) * 1e-3 };
    let mut model = nrf::model::UserModelFromClosureAndJacobian::new(n, &noroot, &eye);
    // a quasi-Newton update may break down on such a model: Newton-Raphson and the stationary method only
    let mut rf = default_with_guess(vec(n), &it, &rc, method(c.method % 2), false);
    let r = rf.solve(&mut model);
    if !matches!(r, Err(nrf::errors::SolverError::NonConvergenceError)) || count.get() != 51 {
        v.fail = Some(format!("default budget: {} evaluations, {:?}", count.get(), r.map_err(|e| e.to_string())));
        return v;
    }
    for (res, converged) in [(0.99e-6, true), (1.01e-6, false), (1e-6, true)] {
        count.set(0);
        let f = |x: &DVector<f64>| -> DVector<f64> {
            count.set(count.get() + 1);
            x.map(|a| a - 1.0 + if a == 1.0 { res } else { 0.0 })
        };
        let jac = |x: &DVector<f64>| -> DMatrix<f64> { DMatrix::identity(x.len(), x.len()) };
        let mut model = nrf::model::UserModelFromClosureAndJacobian::new(n, &f, &jac);
        let mut rf = default_with_guess(vec(n), &it, &rc, method(c.method), c.damping);
        let r = rf.solve(&mut model);
        if converged && (r.is_err() || count.get() != 1) || !converged && count.get() < 2 {
            v.fail = Some(format!("default tolerance: residual {:e} at the guess, {} evaluations, {:?}", res, count.get(), r.map_err(|e| e.to_string())));
            return v;
        }
    }
    v
}

// ------------------------------------------------------------------------------------- C28
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Exact(usize),
    Approx(usize),
    Inverse(usize),
    Invalidate,
    Force,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HolderCase {
    n: usize,
    stat: bool,
    mats: Vec<UpdMat>,
    ops: Vec<HOp>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UpdMat(#[serde(with = "fser::many")] Vec<f64>);

fn gen_c28(u: &mut Src) -> HolderCase {
    let n = if u.chance(1, 60) {
        u.extend();
        u.range(7, 20)
    } else {
        u.range(1, 6)
    };
    let stat = u.chance(1, 2);
    let mats: Vec<UpdMat> = (0..6)
        .map(|_| {
            let kind = u.below(5);
            let mut mag = if u.chance(1, 4) { u.logf(1e-6, 1e6) } else { 1.0 };
            if u.chance(1, 16) {
                // far, by a power of two
                mag = ((u.range(0, 1700) as f64 - 850.0) as i32 as f64).exp2();
            }
            let mut m: Vec<f64> = (0..n * n).map(|k| mag * if k / n == k % n { u.f(1.0, 4.0) } else { u.f(-1.0, 1.0) / n as f64 }).collect();
            if kind == 4 {
                // exactly singular
                let r = u.below(n);
                match u.below(3) {
                    0 => (0..n).for_each(|j| m[r * n + j] = 0.0),
                    1 => (0..n).for_each(|j| m[j * n + r] = 0.0),
                    _ => m.iter_mut().for_each(|v| *v = 0.0),
                }
            } else if kind == 3 && n > 1 {
                // a permuted one: pivoting is needed
                let r = 1 + u.below(n - 1);
                for j in 0..n {
                    m.swap(j, r * n + j);
                }
            }
            UpdMat(m)
        })
        .collect();
    let ops = (0..u.range(1, 16))
        .map(|_| match u.below(10) {
            0..=2 => HOp::Exact(u.below(6)),
            3..=5 => HOp::Approx(u.below(6)),
            6 | 7 => HOp::Inverse(u.below(6)),
            8 => HOp::Force,
            _ => HOp::Invalidate,
        })
        .collect();
    HolderCase { n, stat, mats, ops }
}
fn check_c28(c: &HolderCase) -> Verdict {
    fn go<D>(d: D, c: &HolderCase) -> Result<bool, String>
    where
        D: DimMin<D, Output = D>,
        DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
    {
        let n = c.n;
        let mats: Vec<Mat> = c.mats.iter().map(|m| (0..n).map(|i| m.0[i * n..(i + 1) * n].to_vec()).collect()).collect();
        let rows = |m: &nalgebra::OMatrix<f64, D, D>| -> Mat { (0..n).map(|i| (0..n).map(|j| m[(i, j)]).collect()).collect() };
        let mut h = JacobianMatrix::<D>::default();
        let mut matrix: Option<usize> = None;
        enum Inv {
            None,
            Of(usize),
            Is(usize),
        }
        let mut inv = Inv::None;
        let mut compute = Some(true);
        let mut approx = Some(false);
        let mut kinds = 0u8;
        for (step, op) in c.ops.iter().enumerate() {
            let ctx = || format!("after {:?}", &c.ops[..=step]);
            match op {
                HOp::Exact(k) | HOp::Approx(k) => {
                    let exact = matches!(op, HOp::Exact(_));
                    let m = mat_of(d, &mats[*k]);
                    let r = if exact { h.update_jacobian_with_exact_value(m) } else { h.update_jacobian_with_approximated_value(m) };
                    let singular = inverse(&mats[*k]).is_none();
                    if r.is_ok() == singular {
                        return Err(format!("{}: {:?} is {}", ctx(), mats[*k], if singular { "singular but accepted" } else { "regular but refused" }));
                    }
                    kinds |= if singular { 8 } else if exact { 1 } else { 2 };
                    if singular {
                        matrix = None;
                        inv = Inv::None;
                        compute = None;
                        approx = None;
                    } else {
                        matrix = Some(*k);
                        inv = Inv::Of(*k);
                        compute = Some(false);
                        approx = Some(!exact);
                    }
                }
                HOp::Inverse(k) => {
                    h.update_inverse(mat_of(d, &mats[*k]));
                    matrix = None;
                    inv = Inv::Is(*k);
                    approx = Some(true);
                    kinds |= 4;
                }
                HOp::Invalidate => {
                    h.invalidate_jacobian();
                    matrix = None;
                    inv = Inv::None;
                    compute = if compute == Some(true) { Some(true) } else { None };
                    approx = None;
                }
                HOp::Force => {
                    h.force_jacobian_computation();
                    compute = Some(true);
                }
            }
            let got_m = h.get_jacobian().as_ref().map(rows);
            match (&got_m, matrix) {
                (None, None) => (),
                (Some(g), Some(k)) if (0..n).all(|i| same_vec(&g[i], &mats[k][i])) => (),
                _ => return Err(format!("{}: the matrix served is {:?} instead of {:?}", ctx(), got_m, matrix.map(|k| &mats[k]))),
            }
            let got_i = h.get_inverse().as_ref().map(rows);
            match (&got_i, &inv) {
                (None, Inv::None) => (),
                (Some(g), Inv::Is(k)) if (0..n).all(|i| same_vec(&g[i], &mats[*k][i])) => (),
                (Some(g), Inv::Of(k)) => {
                    let p = matmul(g, &mats[*k]);
                    let t = 1e-10 * cond(&mats[*k]);
                    if (0..n).any(|i| (0..n).any(|j| !((p[i][j] - if i == j { 1.0 } else { 0.0 }).abs() <= t))) {
                        return Err(format!("{}: {:?} served as the inverse of {:?}", ctx(), g, mats[*k]));
                    }
                }
                _ => return Err(format!("{}: the inverse served is {:?}", ctx(), got_i)),
            }
            if compute.is_some_and(|e| e != h.compute_jacobian()) {
                return Err(format!("{}: Jacobian to be computed = {}", ctx(), h.compute_jacobian()));
            }
            if approx.is_some_and(|e| e != h.is_jacobian_approximated()) {
                return Err(format!("{}: Jacobian approximated = {}", ctx(), h.is_jacobian_approximated()));
            }
        }
        Ok(kinds.count_ones() >= 2)
    }
    match with_dim!(c.n, c.stat, d, go(d, c)) {
        Err(m) => Verdict::fail(m),
        Ok(nt) => Verdict::ok(nt),
    }
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![
        Box::new(Prop { id: "C06", rule: "Random systems, points and perturbation parameters: the public finite-difference functions called directly (formula, points evaluated, storage), then a run followed; non-trivial: the matrix could be judged and the run computed a Jacobian.", len: 420, quick: 1_000_000, mult: 25, gen: gen_c06, check: check_c06, assumptions: &["perturbations lost in the rounding of the point are not judged"] }),
        Box::new(Prop { id: "C07", rule: "Random models whose left members depend on a memory changed by each evaluation; the memory at each evaluation is recomputed along the run; non-trivial: a finite-difference Jacobian was computed in the run.", len: 400, quick: 800_000, mult: 25, gen: gen_c07, check: check_c07, assumptions: &[] }),
        Box::new(Prop { id: "C08", rule: "Random regular matrices, steps and residual changes; each published update, called directly and through the dispatching functions; non-trivial: at least one method with a well conditioned denominator.", len: 120, quick: 1_200_000, mult: 25, gen: gen_c08, check: check_c08, assumptions: &["updates whose denominator nearly vanishes (obliquity above 1e5) are skipped"] }),
        Box::new(Prop { id: "C10", rule: "Random parameters (any float), values and raw steps (any float, and values around each limit); non-trivial: at least one unknown with numbers.", len: 120, quick: 4_000_000, mult: 25, gen: gen_c10, check: check_c10, assumptions: &[] }),
        Box::new(Prop { id: "C16", rule: "Random pairs of members, from any float, equal, opposite and nearly so; non-trivial: different members, or a non-finite one.", len: 20, quick: 8_000_000, mult: 25, gen: gen_c16, check: check_c16, assumptions: &["the values of the definition are compared for members between 1e-140 and 1e140"] }),
        Box::new(Prop { id: "C17", rule: "Random members and derivatives compared to the quotient rule and to a numerical derivative of the normalization, and random systems normalized as a whole; non-trivial: the numerical derivative was compared.", len: 420, quick: 2_000_000, mult: 25, gen: gen_c17, check: check_c17, assumptions: &["points where the sum of the members nearly vanishes are not judged"] }),
        Box::new(Prop { id: "C18", rule: "Random systems and undamped runs, each also run with other stopping methods and tolerance; non-trivial: the two configurations differ and at least three common points.", len: 420, quick: 1_200_000, mult: 25, gen: gen_c18, check: check_c18, assumptions: &[] }),
        Box::new(Prop { id: "C27", rule: "Random parameters, valid or with arbitrary floats, and random sizes, mostly equal; every case is non-trivial.", len: 80, quick: 800_000, mult: 25, gen: gen_c27, check: check_c27, assumptions: &[] }),
        Box::new(Prop { id: "C28", rule: "Random sequences of up to 16 operations on the Jacobian holder, compared after each to a model of its state; non-trivial: at least two kinds of updates.", len: 300, quick: 2_000_000, mult: 25, gen: gen_c28, check: check_c28, assumptions: &["the indications are not judged between an invalidation or a refusal and the next update"] }),
    ]
}
#[allow(dead_code)]
fn unused(_: &Sys) {}
