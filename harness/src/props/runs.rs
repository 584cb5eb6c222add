//! Properties decided by following whole runs.
use crate::engine::*;
use crate::fser::*;
use crate::model::*;
use crate::oracle::*;

pub fn classes(c: &RunCase, out: &RunOut, f: &Follow) -> Vec<&'static str> {
    let mut v = vec![];
    v.push(match &out.outcome {
        Outcome::Ok => "result: Ok",
        Outcome::NonConv => "result: NonConvergence",
        Outcome::InitEval(_) => "result: initial evaluation",
        Outcome::ModelEval(..) => "result: model evaluation",
        Outcome::JacModel(..) => "result: jacobian evaluation",
        Outcome::JacInv => "result: jacobian not invertible",
        Outcome::Final => "result: final evaluation",
        Outcome::Panic(_) | Outcome::Cap | Outcome::Crash => "result: panic",
    });
    v.push(match c.method {
        0 => "method NR",
        1 => "method SN",
        2 => "method BROY1",
        3 => "method BROY1_INV",
        4 => "method BROY2",
        5 => "method BROY2_INV",
        6 => "method GRST1",
        7 => "method GRST1_INV",
        8 => "method GRST2",
        _ => "method GRST2_INV",
    });
    v.push(if c.analytic { "analytic jacobian" } else { "finite differences" });
    if f.damped > 0 {
        v.push("with damped steps");
    }
    if f.refused > 0 {
        v.push("with refused steps");
    }
    if f.limited > 0 {
        v.push("with limited steps");
    }
    if f.bounded > 0 {
        v.push("with steps to a bound");
    }
    if f.nan > 0 {
        v.push("with NaN or infinite residuals");
    }
    if f.iters == 0 {
        v.push("no iteration");
    }
    if let Some(k) = f.cut {
        v.push(match k {
            "ill conditioned" => "cut: ill conditioned",
            "error at the damping threshold" => "cut: damping threshold",
            "residual at the tolerance" => "cut: at the tolerance",
            "perturbation lost in the rounding" => "cut: lost perturbation",
            _ => "cut: vanishing denominator",
        });
    }
    v
}

pub fn followed(c: &RunCase, tags: &[Tag], nontrivial: impl Fn(&RunCase, &RunOut, &Follow) -> bool) -> Verdict {
    let out = run(c);
    if let Some(b) = out.broken() {
        return Verdict::fail(b);
    }
    let f = follow(c, &out);
    let mut v = Verdict::ok(nontrivial(c, &out, &f));
    v.classes = classes(c, &out, &f);
    v.fail = f.find(tags);
    if tags.contains(&Tag::Limit) {
        if let Some(m) = f.shifted.first() {
            v.known.push(("fd-shifted-base", m.clone()));
        }
    }
    v
}

// --- C01
fn gen_c01(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want {
            flavors: &[Flavor::Near, Flavor::Nasty, Flavor::Smooth, Flavor::Wobbly, Flavor::Affine, Flavor::Nasty],
            faults: 3,
            norms: 5,
            ..Want::any()
        },
    );
    if u.chance(1, 3) {
        // loose tolerance: normalizations disagree on convergence
        c.tol = u.logf(1e-6, 1.0);
    }
    if u.chance(1, 20) {
        c.tol = u.pick(&[0.0, f64::NAN, -1.0, f64::MIN_POSITIVE]);
    }
    if u.chance(1, 12) {
        u.extend();
        tie_tol(u, &mut c);
    }
    c
}
fn check_c01(c: &RunCase) -> Verdict {
    let out = run(c);
    if let Some(b) = out.broken() {
        return Verdict::fail(b);
    }
    let f = follow(c, &out);
    let last_hit = out.evs.iter().rev().find_map(|e| match e {
        Ev::Eval { hit, .. } => Some(*hit),
        _ => None,
    });
    // what the model really gives at its final point, from scratch (memory-free systems)
    let (l, r) = (c.sys.left(&out.x), c.sys.right(&out.x));
    let res = residuals(&l, &r, &c.stop);
    let bad: Vec<usize> = (0..res.len()).filter(|&i| !(res[i].abs() <= c.tol * (1.0 + 1e-12))).collect();
    let surely_bad = |i: usize| !(res[i].abs() <= c.tol * (1.0 - 1e-12));
    let mut v = Verdict::ok(matches!(out.outcome, Outcome::Ok | Outcome::Final) || (out.outcome == Outcome::NonConv && f.iters > 0));
    v.classes = classes(c, &out, &f);
    match out.outcome {
        Outcome::Ok | Outcome::Final => {
            if let Some(&i) = bad.first() {
                v.fail = Some(format!(
                    "{:?} returned at {:?} where equation {} has the stopping residual {:?} ({:?} = {:?}), tolerance {:?}",
                    out.outcome, out.x, i, res[i], l[i], r[i], c.tol
                ));
            } else if out.outcome == Outcome::Ok && last_hit != Some(None) {
                v.fail = Some(format!("Ok returned although the last evaluation reported {:?}", last_hit));
            } else if out.outcome == Outcome::Final && last_hit == Some(None) {
                v.fail = Some("final-evaluation error although the last evaluation was exact".into());
            }
        }
        Outcome::NonConv => {
            if !(0..res.len()).any(surely_bad) && !c.tol.is_nan() && (0..res.len()).all(|i| res[i].abs() <= c.tol * (1.0 - 1e-12)) {
                v.fail = Some(format!("NonConvergence returned at {:?} where all the stopping residuals {:?} are within {:?}", out.x, res, c.tol));
            }
        }
        _ => (),
    }
    v
}

/// Comparisons that are decided by little
fn near_ties(u: &mut Src, c: &mut RunCase) {
    if u.chance(1, 12) {
        u.extend();
        if u.chance(1, 2) {
            gen_echo(u, c);
        }
        tie_tol(u, c);
    }
}

// --- C02
fn gen_c02(u: &mut Src) -> RunCase {
    let mut c = gen_run(u, &Want { flavors: &[Flavor::Near, Flavor::Near, Flavor::Wobbly, Flavor::Affine, Flavor::Smooth], faults: 1, analytic: 3, ..Want::any() });
    if u.chance(1, 3) {
        c.tol = u.logf(1e-6, 0.5);
    }
    near_ties(u, &mut c);
    c
}
fn check_c02(c: &RunCase) -> Verdict {
    let out = run(c);
    if let Some(b) = out.broken() {
        return Verdict::fail(b);
    }
    let f = follow(c, &out);
    let mut v = Verdict::ok(f.iters > 0 && matches!(out.outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final));
    v.classes = classes(c, &out, &f);
    if !matches!(out.outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final) {
        return v;
    }
    let last = out.evs.iter().rposition(|e| matches!(e, Ev::Eval { .. }));
    match last {
        None => v.fail = Some("the model was never evaluated".into()),
        Some(k) => {
            let Ev::Eval { x, l, r, .. } = &out.evs[k] else { unreachable!() };
            if !same_vec(x, &out.x) {
                v.fail = Some(format!("the model is left at {:?}, its last evaluation was at {:?}", out.x, x));
            } else if !same_vec(l, &out.l) || !same_vec(r, &out.r) {
                v.fail = Some(format!("the residuals of the model {:?} = {:?} are not those of its last evaluation {:?} = {:?}", out.l, out.r, l, r));
            } else if let Some(Ev::Set(s)) = out.evs[k..].iter().find(|e| matches!(e, Ev::Set(_))) {
                v.fail = Some(format!("the iteratives are set to {:?} after the last evaluation", s));
            } else if f.cut.is_none() && f.findings.is_empty() && f.path.last().is_some_and(|p| !same_vec(p, &out.x)) {
                v.fail = Some(format!("the model is left at {:?} while the last iterate is {:?}", out.x, f.path.last()));
            } else if let Some(m) = last_is_perturbation(c, &out, &f) {
                v.fail = Some(m);
            } else if out.outcome != Outcome::NonConv && max_error(l, r, &c.stop) > c.tol * (1.0 + 1e-12) {
                v.fail = Some(format!("{:?} but the model is left at {:?}, with residuals {:?} = {:?} above the tolerance {:?}", out.outcome, out.x, l, r, c.tol));
            }
        }
    }
    v
}
fn last_is_perturbation(_c: &RunCase, out: &RunOut, f: &Follow) -> Option<String> {
    match f.phases.last() {
        Some(Phase::Fd) => Some(format!("the model is left at the finite difference point {:?}", out.x)),
        _ => None,
    }
}

// --- C03
fn gen_c03(u: &mut Src) -> RunCase {
    let mut c = gen_run(u, &Want { flavors: &[Flavor::Near, Flavor::Affine, Flavor::Wobbly, Flavor::Smooth, Flavor::Nasty], norms: 4, ..Want::any() });
    match u.below(4) {
        0 => c.max_iter = u.below(3),
        1 => c.max_iter = u.range(1, 6),
        2 => c.tol = u.logf(1e-8, 0.5),
        _ => (),
    }
    if u.chance(1, 40) {
        c.tol = u.pick(&[0.0, -1.0, f64::INFINITY]);
    }
    near_ties(u, &mut c);
    c
}
fn check_c03(c: &RunCase) -> Verdict {
    let mut v = followed(c, &[Tag::Start, Tag::Stop], |_, o, f| f.cut.is_none() && matches!(o.outcome, Outcome::Ok | Outcome::NonConv));
    if v.fail.is_none() && c.tol.is_finite() {
        // the number of iterations can not depend on a budget that is not exhausted, and a larger
        // budget only lengthens the run
        let out = run(c);
        let longer = RunCase { max_iter: c.max_iter + 2, ..c.clone() };
        let out2 = run(&longer);
        let (p, q) = (out.points(), out2.points());
        let prefix = p.len() <= q.len() && p.iter().zip(&q).all(|(a, b)| same_vec(a, b));
        if !prefix {
            v.fail = Some(format!("a larger iteration budget changes the points visited: {:?} then {:?}", p, q));
        } else if out.outcome != Outcome::NonConv && (p.len() != q.len() || out.outcome != out2.outcome) {
            v.fail = Some(format!("the result is {:?} with {} iterations at most, {:?} with {}", out.outcome, c.max_iter, out2.outcome, longer.max_iter));
        } else if out.outcome == Outcome::NonConv && p.len() == q.len() && !matches!(out2.outcome, Outcome::JacInv) {
            v.fail = Some(format!("not converged in {} iterations, and no further evaluation with {}", c.max_iter, longer.max_iter));
        }
    }
    v
}

// --- C04
fn gen_c04(u: &mut Src) -> RunCase {
    let mut c = gen_run(u, &Want { limits: 2, damping: 5, ..Want::any() });
    if u.chance(1, 12) {
        c.tol = 1e9;
    }
    near_ties(u, &mut c);
    c
}
fn check_c04(c: &RunCase) -> Verdict {
    let out = run(c);
    if let Some(b) = out.broken() {
        return Verdict::fail(b);
    }
    let f = follow(c, &out);
    let mut v = Verdict::ok(f.iters >= 2 && f.cut.is_none());
    v.classes = classes(c, &out, &f);
    v.fail = f.find(&[Tag::Econ, Tag::Stop, Tag::Start]);
    if v.fail.is_none() && f.cut.is_none() && f.findings.is_empty() && matches!(out.outcome, Outcome::Ok | Outcome::NonConv) {
        let jac_calls = out.evs.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
        let evals = out.evals().len();
        let expected_jac = if c.method == 0 {
            f.iters
        } else {
            f.jacobians
        };
        let expected = 1 + f.iters + f.damped + if c.analytic { 0 } else { expected_jac * c.sys.n };
        if evals != expected || (c.analytic && jac_calls != expected_jac) || (!c.analytic && jac_calls != 0) {
            v.fail = Some(format!(
                "{} iterations, {} damped, {} true Jacobians of size {}: {} evaluations and {} Jacobian calls, {} evaluations expected",
                f.iters, f.damped, expected_jac, c.sys.n, evals, jac_calls, expected
            ));
        } else if c.method != 0 && f.iters > 0 && f.jacobians > 1 + f.refused {
            v.fail = Some(format!("{} true Jacobians for {} refused steps", f.jacobians, f.refused));
        }
    }
    // an upper bound that holds whatever happens
    let jac_max = if c.analytic { 0 } else { c.max_iter * c.sys.n };
    if v.fail.is_none() && out.evals().len() > 1 + c.max_iter * if c.damping { 2 } else { 1 } + jac_max {
        v.fail = Some(format!("{} evaluations for {} iterations at most", out.evals().len(), c.max_iter));
    }
    if v.fail.is_none() && !c.damping && c.method != 0 {
        // without damping no step is refused: a single true Jacobian
        let jac_calls = out.evs.iter().filter(|e| matches!(e, Ev::Jac { .. })).count();
        let fd_max = 1 + c.max_iter + if c.analytic { 0 } else { c.sys.n };
        if jac_calls > 1 || out.evals().len() > fd_max {
            v.fail = Some(format!("quasi-Newton without damping: {} Jacobian calls and {} evaluations in {} iterations at most", jac_calls, out.evals().len(), c.max_iter));
        }
    }
    v
}

// --- C05
fn gen_c05(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want { flavors: &[Flavor::Near, Flavor::Smooth, Flavor::Affine, Flavor::Wobbly], methods: &[0], norms: 5, limits: 2, damping: 2, max_iter: 8, max_n: 6, ..Want::any() },
    );
    c.tol = u.pick(&[1e-9, 1e-11, 1e-12]);
    c
}
fn check_c05(c: &RunCase) -> Verdict {
    followed(c, &[Tag::Newton, Tag::Singular, Tag::Econ], |c, _, f| f.steps_checked >= 2 || (f.steps_checked == 1 && c.max_iter == 1))
}

// --- C09
fn gen_c09(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want { flavors: &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Near], methods: &QUASI, norms: 4, limits: 2, damping: 3, analytic: 5, max_iter: 10, ..Want::any() },
    );
    c.tol = u.pick(&[1e-9, 1e-7, 1e-11]);
    c
}
fn check_c09(c: &RunCase) -> Verdict {
    followed(c, &[Tag::Quasi, Tag::Singular, Tag::Econ], |_, _, f| f.approx_steps >= 1 && f.steps_checked >= 2)
}

// --- C11
fn gen_c11(u: &mut Src) -> RunCase {
    gen_run(
        u,
        &Want { flavors: &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Affine, Flavor::Nasty], limits: 8, norms: 2, max_iter: 10, ..Want::any() },
    )
}
fn check_c11(c: &RunCase) -> Verdict {
    let mut v = followed(c, &[Tag::Limit, Tag::Bound], |_, _, f| f.limited > 0 || f.bounded > 0);
    if v.fail.is_none() && c.analytic {
        // without finite differences, every evaluation but the first is within the bounds
        let out = run(c);
        for (k, x) in out.points().iter().enumerate().skip(1) {
            for (i, p) in c.iters.iter().enumerate() {
                let guess_in = c.x0[i] >= p.min && c.x0[i] <= p.max;
                let tol = 4.0 * EPS * x[i].abs() + 1e-300;
                if guess_in && (x[i] < p.min - tol || x[i] > p.max + tol) {
                    v.fail = Some(format!("evaluation {}: unknown {} at {:?}, out of [{:?}, {:?}]", k, i, x[i], p.min, p.max));
                }
            }
        }
    }
    v
}

// --- C12
fn gen_c12(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want { flavors: &[Flavor::Wobbly, Flavor::Wobbly, Flavor::Smooth, Flavor::Near, Flavor::Nasty], damping: 7, norms: 3, limits: 1, max_iter: 12, ..Want::any() },
    );
    c.tol = u.pick(&[1e-9, 1e-6, 1e-11]);
    if u.chance(1, 6) {
        u.extend();
        gen_echo(u, &mut c);
    }
    c
}
fn check_c12(c: &RunCase) -> Verdict {
    let mut v = followed(c, &[Tag::Damp], |c, _, f| f.damped + f.refused > 0 || (!c.damping && f.steps_checked > 0));
    if v.fail.is_none() && c.damping {
        // after a refused step the true Jacobian is due
        let out = run(c);
        let f = follow(c, &out);
        if f.refused > 0 || f.damped > 0 {
            v.fail = f.find(&[Tag::Econ]);
        }
    }
    v
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    let rule_run = "a run decoded from random choices: system (near a planted root, affine, smooth, overshooting or with NaN/inf/singular terms), size 1-6, method, damping, tolerance, budget, per-unknown limits and perturbations, per-equation normalizations, analytic or finite difference Jacobian, static or dynamic dimension. ";
    let _ = rule_run;
    vec![
        Box::new(Prop { id: "C01", rule: "Random runs (system of several families incl. NaN/inf/singular, size 1-5, method, damping, limits, normalizations, Jacobian source, inaccurate evaluations); non-trivial: the run ended with Ok, FinalEvaluationError, or NonConvergence after at least one iteration.", len: 420, quick: 1_000_000, mult: 25, gen: gen_c01, check: check_c01, assumptions: &[] }),
        Box::new(Prop { id: "C02", rule: "Random runs as C01 with smooth systems; non-trivial: at least one iteration and a result of Ok, NonConvergence or FinalEvaluationError.", len: 400, quick: 800_000, mult: 25, gen: gen_c02, check: check_c02, assumptions: &[] }),
        Box::new(Prop { id: "C03", rule: "Random runs with small budgets and varied tolerances, each also run with a larger budget; non-trivial: followed to its end and ended with Ok or NonConvergence.", len: 400, quick: 600_000, mult: 25, gen: gen_c03, check: check_c03, assumptions: &["relative and adaptive residuals within 1e-10 of the tolerance are not judged, absolute ones are"] }),
        Box::new(Prop { id: "C04", rule: "Random runs, the calls received by the model being segmented into guess, Jacobian, proposed and damped points; non-trivial: followed to the end over at least two iterations.", len: 400, quick: 800_000, mult: 25, gen: gen_c04, check: check_c04, assumptions: &["runs are followed until a decision is numerically ambiguous"] }),
        Box::new(Prop { id: "C05", rule: "Random Newton-Raphson runs, each step recomputed by an independent elimination from the points evaluated (analytic: independent derivatives of both members); non-trivial: at least two steps compared (or the only one).", len: 420, quick: 800_000, mult: 25, gen: gen_c05, check: check_c05, assumptions: &["steps whose condition number makes the comparison meaningless (tolerance above 1e-3) are skipped"] }),
        Box::new(Prop { id: "C09", rule: "Random quasi-Newton runs of the nine variants, the approximated matrix being recomputed from the accepted points and signed update residuals; non-trivial: at least one approximate step and two steps compared.", len: 400, quick: 800_000, mult: 25, gen: gen_c09, check: check_c09, assumptions: &["steps whose error estimate exceeds 1e-3 are skipped"] }),
        Box::new(Prop { id: "C11", rule: "Random runs with step limits and bounds on the unknowns; non-trivial: a step reached a limit or a bound.", len: 400, quick: 800_000, mult: 25, gen: gen_c11, check: check_c11, assumptions: &["a starting guess out of the bounds is the user's choice"] }),
        Box::new(Prop { id: "C12", rule: "Random runs of overshooting systems, mostly damped; non-trivial: at least one damped or refused step, or an undamped run with compared steps.", len: 400, quick: 650_000, mult: 25, gen: gen_c12, check: check_c12, assumptions: &["relative and adaptive errors within 1e-10 of each other are not judged"] }),
    ]
}
