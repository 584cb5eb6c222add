//! C21, C22: the log.
use super::runs::classes;
use super::runs2::{differ, gen_c23, naming, scratch, scratch_named, SeqCase};
use crate::engine::*;
use crate::fser::*;
use crate::model::*;
use crate::oracle::*;
use crate::sys::Sys;
use serde::{Deserialize, Serialize};

#[derive(Debug, Clone)]
pub struct Row {
    pub id: usize,
    pub x: f64,
    pub l: f64,
    pub r: f64,
    pub e: f64,
}

#[derive(Debug, Clone)]
pub enum Entry {
    Point { iter: Option<usize>, max: f64, rows: Vec<Row> },
    Refused,
    Jac { jac: Option<Mat>, inv: Option<Mat> },
}

fn num(s: &str) -> Result<f64, String> {
    s.trim().parse::<f64>().map_err(|_| format!("{:?} is not a number", s))
}
fn cells(line: &str) -> Vec<String> {
    let t: Vec<String> = line.split('|').map(|s| s.trim().to_string()).collect();
    if t.len() < 3 {
        return t;
    }
    t[1..t.len() - 1].to_vec()
}

/// The part of the log before the first entry, and the entries
pub fn parse(text: &str) -> Result<(Vec<String>, Vec<Entry>), String> {
    let lines: Vec<&str> = text.lines().collect();
    let mut head = vec![];
    let mut out: Vec<Entry> = vec![];
    let mut i = 0;
    let mut started = false;
    let mut damped = false;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("Iteration refused") {
            out.push(Entry::Refused);
            started = true;
        } else if let Some(k) = l.strip_prefix("Iteration:") {
            let k = k.trim().parse::<usize>().map_err(|_| format!("bad iteration number: {}", l))?;
            out.push(Entry::Point { iter: Some(k), max: -1.0, rows: vec![] });
            started = true;
            damped = false;
        } else if l.starts_with("Damping activated !") {
            out.push(Entry::Point { iter: None, max: -1.0, rows: vec![] });
            started = true;
            damped = true;
        } else if let Some(m) = l.strip_prefix("Max error:") {
            let v = num(m)?;
            match out.last_mut() {
                Some(Entry::Point { max, .. }) => *max = v,
                _ => return Err("a maximum error out of an entry".into()),
            }
        } else if l.starts_with("Jacobian matrix") {
            let mut jac: Option<Mat> = None;
            let mut inv: Option<Mat> = None;
            let mut cur = 0;
            i += 1;
            while i < lines.len() {
                let l = lines[i];
                if l.starts_with("Iteration") || l.starts_with("Damping") || l.starts_with("=========================") || l.starts_with("Jacobian matrix") {
                    break;
                }
                if l.starts_with("Jacobian:") {
                    cur = 1;
                    jac = Some(vec![]);
                } else if l.starts_with("Inverse of the jacobian") {
                    cur = 2;
                    inv = Some(vec![]);
                } else if l.contains("not yet computed") {
                    inv = None;
                    cur = 0;
                } else if l.contains('│') {
                    let row: Result<Vec<f64>, String> = l.replace('│', " ").split_whitespace().map(num).collect();
                    match cur {
                        1 => jac.as_mut().unwrap().push(row?),
                        2 => inv.as_mut().unwrap().push(row?),
                        _ => return Err(format!("matrix row out of place: {}", l)),
                    }
                }
                i += 1;
            }
            out.push(Entry::Jac { jac, inv });
            started = true;
            continue;
        } else if l.starts_with('|') && started {
            let c = cells(l);
            if let Ok(id) = c[0].parse::<usize>() {
                if c.len() != 4 {
                    return Err(format!("row with {} cells: {}", c.len(), l));
                }
                let eq: Vec<&str> = c[2].split(" = ").collect();
                if eq.len() != 2 {
                    return Err(format!("row without left = right: {}", l));
                }
                let row = Row { id, x: num(&c[1])?, l: num(eq[0])?, r: num(eq[1])?, e: num(&c[3])? };
                match out.last_mut() {
                    Some(Entry::Point { rows, .. }) => rows.push(row),
                    _ => return Err("a row out of an entry".into()),
                }
            }
        }
        if !started {
            head.push(l.to_string());
        }
        i += 1;
    }
    let _ = damped;
    Ok((head, out))
}

pub fn check_config(c: &RunCase, head: &[String]) -> Option<String> {
    let n = c.sys.n;
    // sections in order
    let names = ["Solver parameters", "Iteratives parameters", "Residuals configuration"];
    let mut at = vec![];
    for nm in names {
        match head.iter().position(|l| l.starts_with(nm)) {
            Some(p) => at.push(p),
            None => return Some(format!("section {:?} missing", nm)),
        }
    }
    if !(at[0] < at[1] && at[1] < at[2]) {
        return Some("sections out of order".into());
    }
    let rows = |from: usize, to: usize| -> Vec<Vec<String>> {
        head[from..to].iter().filter(|l| l.starts_with('|')).map(|l| cells(l)).filter(|c| c[0].parse::<usize>().is_ok()).collect()
    };
    let s = rows(at[0], at[1]);
    if s.len() != 1 || s[0].len() != 5 {
        return Some(format!("solver parameters {:?}", s));
    }
    let r = &s[0];
    if r[0] != n.to_string() || r[1] != c.max_iter.to_string() || !num(&r[2]).is_ok_and(|t| same(t, c.tol)) || r[3] != c.damping.to_string() {
        return Some(format!("solver parameters {:?} for n = {}, max_iter = {}, tolerance = {:?}, damping = {}", r, n, c.max_iter, c.tol, c.damping));
    }
    let words: &[&str] = match c.method {
        0 => &["Newton-Raphson"],
        1 => &["Quasi", "Frozen"],
        2 | 3 => &["Quasi", "Broyden First"],
        4 | 5 => &["Quasi", "Broyden Second"],
        6 | 7 => &["Quasi", "Greenstadt First"],
        _ => &["Quasi", "Greenstadt Second"],
    };
    if words.iter().any(|w| !r[4].contains(w)) {
        return Some(format!("method {:?} for {}", r[4], METHODS[c.method]));
    }
    let fd = !(c.analytic && !c.fd_params);
    let it = rows(at[1], at[2]);
    if it.len() != n {
        return Some(format!("{} unknowns in the configuration instead of {}", it.len(), n));
    }
    for (i, (row, p)) in it.iter().zip(&c.iters).enumerate() {
        let mut want = vec![p.max_step_abs, p.max_step_rel, p.min, p.max];
        let mut got: Vec<String> = row[1..].to_vec();
        if row[0] != i.to_string() {
            return Some(format!("unknown {} is numbered {}", i, row[0]));
        }
        if fd {
            if got.len() != 7 {
                return Some(format!("unknown {}: {:?}", i, row));
            }
            let pert = got.remove(4);
            if pert != if p.sum { "Sum" } else { "Max" } {
                return Some(format!("unknown {}: perturbation {}", i, pert));
            }
            want.extend([p.dx_abs, p.dx_rel]);
        }
        if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| !num(g).is_ok_and(|g| same_val(g, *w))) {
            return Some(format!("unknown {}: {:?} instead of {:?}", i, got, want));
        }
    }
    let rs = rows(at[2], head.len());
    if rs.len() != n {
        return Some(format!("{} equations in the configuration instead of {}", rs.len(), n));
    }
    for (i, row) in rs.iter().enumerate() {
        let w = ["Abs", "Rel", "Adapt"];
        if row.len() != 3 || row[0] != i.to_string() || !row[1].starts_with(w[c.stop[i] as usize]) || !row[2].starts_with(w[c.upd[i] as usize]) {
            return Some(format!("equation {}: {:?} instead of {} / {}", i, row, w[c.stop[i] as usize], w[c.upd[i] as usize]));
        }
    }
    None
}

struct Obs<'a> {
    x: &'a Vec<f64>,
    l: &'a Vec<f64>,
    r: &'a Vec<f64>,
}

fn point_matches(c: &RunCase, max: f64, rows: &[Row], o: &Obs) -> Option<String> {
    let n = c.sys.n;
    if rows.len() != n {
        return Some(format!("{} rows instead of {}", rows.len(), n));
    }
    let mut worst = 0.0f64;
    let mut nan = false;
    for (i, row) in rows.iter().enumerate() {
        if row.id != i {
            return Some(format!("row {} is numbered {}", i, row.id));
        }
        if !same_val(row.x, o.x[i]) || !same_val(row.l, o.l[i]) || !same_val(row.r, o.r[i]) {
            return Some(format!("row {} shows {:?}, {:?} = {:?} instead of {:?}, {:?} = {:?}", i, row.x, row.l, row.r, o.x[i], o.l[i], o.r[i]));
        }
        let e = normalize(o.l[i], o.r[i], c.stop[i]).abs();
        if !(same_val(row.e, e) || (row.e - e).abs() <= 8.0 * EPS * e.abs()) && (o.l[i] + o.r[i]).is_finite() {
            return Some(format!("row {} shows the residual {:?} instead of {:?}", i, row.e, e));
        }
        nan |= row.e.is_nan();
        worst = worst.max(row.e.abs());
    }
    let want = if nan { f64::NAN } else { worst };
    if !same_val(max, want) {
        return Some(format!("maximum error {:?} instead of {:?}", max, want));
    }
    None
}

/// does the logged inverse lead from the base point to the proposed one?
fn explains(c: &RunCase, inv: &Mat, base: &Obs, prop: &[f64]) -> Option<bool> {
    let n = c.sys.n;
    if inv.len() != n || inv.iter().any(|r| r.len() != n) {
        return Some(false);
    }
    let rb = residuals(base.l, base.r, &c.upd);
    for i in 0..n {
        let raw: f64 = -(0..n).map(|j| inv[i][j] * rb[j]).sum::<f64>();
        let mag: f64 = (0..n).map(|j| (inv[i][j] * rb[j]).abs()).sum();
        if !(mag < 1e150) || !(base.x[i].abs() < 1e150) || rb.iter().any(|v| !(v.abs() < 1e150)) {
            return None;
        }
        let e = limit(&c.iters[i], base.x[i], raw);
        let tol = 1e-11 * mag + 8.0 * EPS * (base.x[i].abs() + e.abs()) + 1e-300;
        if !((prop[i] - e).abs() <= tol) {
            return Some(false);
        }
    }
    Some(true)
}

fn gen_c21(u: &mut Src) -> RunCase {
    let mut c = gen_run(
        u,
        &Want {
            flavors: &[Flavor::Near, Flavor::Wobbly, Flavor::Smooth, Flavor::Affine, Flavor::Nasty],
            damping: 5,
            faults: 1,
            unusable: true,
            max_iter: 8,
            max_n: 4,
            ..Want::any()
        },
    );
    if u.chance(1, 20) {
        // two digit numbers
        c.max_iter = 25;
        c.tol = 0.0;
        if u.chance(1, 40) && c.sys.n <= 3 {
            // more than a byte can count
            c.max_iter = 262;
            c.tol = f64::NAN;
        }
    }
    c
}

fn check_c21(c: &RunCase) -> Verdict {
    match logged_run(c) {
        Ok((out, text)) => judge_log(c, &out, &text),
        Err(m) => Verdict::fail(m),
    }
}

fn logged_run(c: &RunCase) -> Result<(RunOut, String), String> {
    let path = scratch_named("log", naming(c));
    let out = run_opts(c, &RunOpts { log: Some(path.clone()), ..Default::default() });
    let text = std::fs::read_to_string(&path);
    let _ = std::fs::remove_file(&path);
    let text = text.map_err(|e| format!("no log: {}", e))?;
    match out.broken() {
        Some(b) => Err(b),
        None => Ok((out, text)),
    }
}

fn judge_log(c: &RunCase, out: &RunOut, text: &str) -> Verdict {
    let f = follow(c, out);
    let (head, entries) = match parse(text) {
        Ok(p) => p,
        Err(e) => return Verdict::fail(format!("unreadable log: {}\n{}", e, text)),
    };
    let mut v = Verdict::ok(f.iters > 0);
    v.classes = classes(c, out, &f);
    let bad = |m: String, v: Verdict| Verdict { fail: Some(format!("{}\n{}", m, text)), ..v };

    // the observations that have an entry
    let evals: Vec<(Obs, bool)> = out
        .evs
        .iter()
        .filter_map(|e| match e {
            Ev::Eval { x, l, r, hit, .. } => Some((Obs { x, l, r }, matches!(hit, Some((true, _))))),
            _ => None,
        })
        .collect();
    if matches!(out.outcome, Outcome::InitEval(_)) {
        if !entries.is_empty() {
            return bad("entries although the initial evaluation is unusable".into(), v);
        }
        return v;
    }
    if let Some(m) = check_config(c, &head) {
        return bad(format!("configuration: {}", m), v);
    }
    let known = if f.findings.is_empty() { f.phases.iter().position(|p| *p == Phase::Unknown).unwrap_or(f.phases.len()) } else { 0 };
    v.classes.push(if known == evals.len() { "log: every entry decided" } else { "log: tail matched loosely" });
    // walk
    let mut pos = 0; // next entry
    let mut iter = 0;
    let mut jacs: Vec<(&Option<Mat>, &Option<Mat>)> = vec![];
    // last accepted point, last evaluated point
    let mut last_eval: Option<usize> = None;
    let mut cur: Option<usize> = None;
    // a Jacobian with nothing to show: no step may follow
    for k in 0..known {
        let (o, fatal) = &evals[k];
        let prev_eval = last_eval.replace(k);
        if *fatal {
            break;
        }
        match f.phases[k] {
            Phase::Fd => continue,
            Phase::Unknown => break,
            _ => (),
        }
        if f.phases[k] == Phase::Prop {
            iter += 1;
            jacs.clear();
            while let Some(Entry::Jac { jac, inv }) = entries.get(pos) {
                jacs.push((jac, inv));
                pos += 1;
            }
            if jacs.len() != 1 {
                return bad(format!("{} Jacobians recorded before the step of iteration {}", jacs.len(), iter), v);
            }
            let (jac, inv) = jacs[0];
            let Some(inv) = inv else { return bad(format!("no inverse Jacobian recorded at iteration {}", iter), v) };
            let a = &evals[cur.unwrap()].0;
            let b = &evals[prev_eval.unwrap()].0;
            let ra = explains(c, inv, a, o.x);
            let rb = explains(c, inv, b, o.x);
            if ra == Some(false) && rb == Some(false) {
                return bad(format!("the recorded inverse Jacobian does not lead to the proposed point at iteration {}: {:?}", iter, inv), v);
            }
            if ra == Some(true) || rb == Some(true) {
                v.classes.push("recorded Jacobian explains the step");
            }
            if let Some(jac) = jac {
                if jac.len() != c.sys.n || jac.iter().any(|r| r.len() != c.sys.n) {
                    return bad(format!("Jacobian of the wrong size at iteration {}", iter), v);
                }
                let cnd = cond(jac);
                if cnd < 1e8 && matnorm(jac) < 1e100 && matnorm(jac) > 1e-100 {
                    let p = matmul(jac, inv);
                    for (i, r) in p.iter().enumerate() {
                        for (j, x) in r.iter().enumerate() {
                            if !((x - if i == j { 1.0 } else { 0.0 }).abs() < 1e-12 * cnd * cnd) && cnd < 1e5 {
                                return bad(format!("recorded Jacobian and inverse do not match at iteration {}: {:?} {:?}", iter, jac, inv), v);
                            }
                        }
                    }
                    v.classes.push("recorded Jacobian and inverse compared");
                }
            }
        }
        match entries.get(pos) {
            Some(Entry::Point { iter: it, max, rows }) => {
                let want = if f.phases[k] == Phase::Damp { None } else { Some(iter) };
                if *it != want {
                    return bad(format!("entry {:?} instead of {:?} ({:?} at {:?})", it, want, f.phases[k], o.x), v);
                }
                if let Some(m) = point_matches(c, *max, rows, o) {
                    return bad(format!("entry of iteration {} ({:?}): {}", iter, f.phases[k], m), v);
                }
                pos += 1;
            }
            other => return bad(format!("iteration {} ({:?} at {:?}) is recorded as {:?}", iter, f.phases[k], o.x, other), v),
        }
        cur = Some(k);
        let refused = f.refused_at.contains(&k);
        let is = matches!(entries.get(pos), Some(Entry::Refused));
        // (the last evaluation whose phase is known may be undecided)
        if refused != is && (k + 1 < known || known == evals.len() && f.cut.is_none()) {
            return bad(format!("iteration {}: step {} but {} in the log", iter, if refused { "refused" } else { "not refused" }, if is { "refused" } else { "not refused" }), v);
        }
        if is {
            pos += 1;
        }
    }
    // a Jacobian computed anew that fails, or cannot be inverted, is the last thing recorded
    let anew = match out.evs.iter().rev().find(|e| matches!(e, Ev::Eval { .. } | Ev::Jac { .. })) {
        Some(Ev::Jac { .. }) => true,
        Some(_) => !c.analytic && f.cut.is_none() && f.phases.last() == Some(&Phase::Fd),
        None => false,
    };
    if anew && matches!(out.outcome, Outcome::JacInv | Outcome::JacModel(..)) {
        if !matches!(entries.last(), Some(Entry::Jac { .. })) {
            return bad(format!("the Jacobian that failed ({:?}) is not recorded", out.outcome), v);
        }
        v.classes.push("failing Jacobian recorded");
    }
    if known == evals.len() && f.cut.is_none() && f.findings.is_empty() {
        // what remains: the Jacobian of an iteration that failed
        for e in &entries[pos.min(entries.len())..] {
            match e {
                Entry::Jac { .. } if !matches!(out.outcome, Outcome::Ok | Outcome::NonConv | Outcome::Final) => (),
                e => return bad(format!("entry after the end of the run: {:?}", e), v),
            }
        }
    } else {
        // the remaining entries are evaluations of the run, in order
        let mut k = last_eval.map(|k| k + 1).unwrap_or(0).min(known);
        for e in &entries[pos.min(entries.len())..] {
            if let Entry::Point { max, rows, .. } = e {
                let found = (k..evals.len()).find(|&j| point_matches(c, *max, rows, &evals[j].0).is_none());
                match found {
                    Some(j) => k = j + 1,
                    None => return bad(format!("entry matching no evaluation: {:?}", e), v),
                }
            }
        }
        // and the last evaluation is there, when it is the one of a step
        let recorded = entries.iter().filter(|e| matches!(e, Entry::Point { iter: Some(_), .. })).count();
        let mut want = 0;
        for e in &entries {
            if let Entry::Point { iter: Some(i), .. } = e {
                if *i != want {
                    return bad(format!("iteration {} recorded where {} was expected", i, want), v);
                }
                want += 1;
            }
        }
        if out.outcome == Outcome::NonConv && recorded != c.max_iter + 1 {
            return bad(format!("{} entries for {} iterations", recorded, c.max_iter), v);
        }
    }
    v
}

// ------------------------------------------------------------------------------------- C22
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrashCase {
    run: RunCase,
    /// the call at which the model crashes, as a fraction of the calls of the run
    at: u32,
}

fn gen_c22(u: &mut Src) -> CrashCase {
    CrashCase { at: u.raw(), run: gen_c21(u) }
}

fn calls(out: &RunOut) -> Vec<Ev> {
    out.evs.iter().filter(|e| !matches!(e, Ev::GetMem)).cloned().collect()
}

fn check_c22(cc: &CrashCase) -> Verdict {
    let c = &cc.run;
    let path = scratch_named("log", naming(c));
    let plain = run(c);
    if let Some(b) = plain.broken() {
        return Verdict::fail(b);
    }
    let full = run_opts(c, &RunOpts { log: Some(path.clone()), watch: true, ..Default::default() });
    let text = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    let f = follow(c, &plain);
    let mut v = Verdict::ok(f.iters > 0);
    v.classes = classes(c, &plain, &f);
    if plain.outcome != full.outcome || plain.text != full.text {
        return Verdict { fail: Some(format!("{:?} without log, {:?} with log", plain.outcome, full.outcome)), ..v };
    }
    let (a, b) = (calls(&plain), calls(&full));
    if let Some(i) = differ(&a, &b) {
        return Verdict { fail: Some(format!("call {}: {:?} without log, {:?} with log", i, a.get(i), b.get(i))), ..v };
    }
    if !same_vec(&plain.x, &full.x) || !same_vec(&plain.l, &full.l) || !same_vec(&plain.r, &full.r) || !same_vec(&plain.mem, &full.mem) {
        return Verdict { fail: Some("the model ends in another state with the log".into()), ..v };
    }
    // at each call, what was logged before is in the file
    let ncalls = full.lens.len();
    let known = if f.findings.is_empty() { f.phases.iter().position(|p| *p == Phase::Unknown).unwrap_or(f.phases.len()) } else { 0 };
    let (mut points, mut damps, mut props) = (0usize, 0usize, 0usize);
    let mut rank = 0;
    let mut call = 0;
    // where the lines that begin so have their beginning written
    let ends = |w: &str| -> Vec<usize> {
        let starts = std::iter::once(0).chain(text.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1));
        starts.filter(|&i| text[i..].starts_with(w.as_bytes())).map(|i| i + w.len()).collect()
    };
    let (iterations, dampings, matrices) = (ends("Iteration:"), ends("Damping activated"), ends("Jacobian matrix"));
    let count = |e: &[usize], len: u64| e.partition_point(|&i| i as u64 <= len);
    let mut last_len = u64::MAX;
    for e in full.evs.iter() {
        if matches!(e, Ev::GetMem) {
            continue;
        }
        let len = full.lens[call];
        if rank >= known && rank > 0 {
            break;
        }
        if len != last_len || matches!(e, Ev::Set(_)) {
            last_len = len;
            let (p, d) = (count(&iterations, len), count(&dampings, len));
            if p < points || d < damps {
                return Verdict {
                    fail: Some(format!("at call {} ({:?}), {} points and {} damped points were evaluated but the file holds {} and {}", call, e, points, damps, p, d)),
                    ..v
                };
            }
        }
        // (a Jacobian is recorded before the point it leads to is set)
        if let Ev::Eval { hit, .. } = e {
            let fatal = matches!(hit, Some((true, _)));
            match f.phases.get(rank) {
                Some(Phase::Prop) => {
                    props += 1;
                    if count(&matrices, len) < props {
                        return Verdict { fail: Some(format!("the Jacobian of iteration {} is not in the file when its step is evaluated", props)), ..v };
                    }
                    if !fatal {
                        points += 1;
                    }
                }
                Some(Phase::Init) if !fatal => points += 1,
                Some(Phase::Damp) if !fatal => damps += 1,
                _ => (),
            }
            rank += 1;
        }
        call += 1;
    }
    // crash
    let at = ((cc.at as u64 * ncalls as u64) >> 32) as usize;
    let crashed = run_opts(c, &RunOpts { log: Some(path.clone()), watch: true, crash_at: Some(at), ..Default::default() });
    let part = std::fs::read(&path).unwrap_or_default();
    let _ = std::fs::remove_file(&path);
    if crashed.outcome != Outcome::Crash {
        return Verdict { fail: Some(format!("the panic of the model at call {} of {} yields {:?}", at, ncalls, crashed.outcome)), ..v };
    }
    if !text.starts_with(&part) {
        return Verdict { fail: Some(format!("after a crash at call {}, the log is not the beginning of the one of the whole run:\n{}", at, String::from_utf8_lossy(&part))), ..v };
    }
    if (part.len() as u64) < full.lens[at] {
        return Verdict { fail: Some(format!("after a crash at call {}, {} bytes are left of the {} written before it", at, part.len(), full.lens[at])), ..v };
    }
    v.classes.push(if at == 0 {
        "crash at the first call"
    } else if at + 1 == ncalls {
        "crash at the last call"
    } else {
        "crash in the middle"
    });
    v
}

// ------------------------------------------------------------------------------------- C32
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LogSeqCase {
    seq: SeqCase,
    /// before each solve: 0 nothing, otherwise the log is activated on the file of that number
    act: Vec<u8>,
}

fn gen_c32(u: &mut Src) -> LogSeqCase {
    let act = (0..12).map(|k| match (k, u.below(8)) {
        (0, 0..=4) | (_, 0) => 1,
        (_, 1) => 2,
        (_, 2) if k > 0 => 1,
        _ => 0,
    }).collect();
    LogSeqCase { act, seq: gen_c23(u) }
}

/// The header of the file and the part of each solve
fn segments(text: &str) -> (Vec<String>, Vec<String>) {
    let mut head = vec![];
    let mut parts: Vec<String> = vec![];
    for l in text.lines() {
        if l.starts_with("Solver parameters") {
            parts.push(String::new());
        }
        match parts.last_mut() {
            Some(p) => {
                p.push_str(l);
                p.push('\n');
            }
            None => head.push(l.to_string()),
        }
    }
    (head, parts)
}

fn check_c32(c: &LogSeqCase) -> Verdict {
    let s = &c.seq;
    let seq: Vec<(Sys, Vec<Fault>, bool, Vec<f64>)> = s.items.iter().map(|i| (i.sys.clone(), i.faults.clone(), i.analytic, i.stale.clone())).collect();
    let files = [scratch_named("log-a", naming(&s.base)), scratch_named("log-b", naming(&s.base) / 2)];
    let alone = scratch("log");
    // what the second file holds from elsewhere
    let old = "from another program\n".repeat(600);
    let _ = std::fs::remove_file(&files[0]);
    std::fs::write(&files[1], &old).unwrap();
    let logs: Vec<Option<String>> = (0..seq.len()).map(|k| if c.act[k] == 0 { None } else { Some(files[c.act[k] as usize - 1].clone()) }).collect();
    let outs = run_sequence_logged(&s.base, &seq, &logs);
    let got: Vec<Option<String>> = files.iter().map(|f| std::fs::read(f).ok().map(|b| String::from_utf8_lossy(&b).into_owned())).collect();
    for f in &files {
        let _ = std::fs::remove_file(f);
    }
    let mut v = Verdict::default();
    // what each file has to hold: the header, then the solves since the last activation
    let mut want: [Option<Vec<(usize, String)>>; 2] = [None, None];
    let mut header = None;
    let mut to: Option<usize> = None;
    let (mut solves, mut activations) = (0, 0);
    for (k, out) in outs.iter().enumerate() {
        if let Some(b) = out.broken() {
            v.fail = Some(format!("solve {}: {}", k, b));
            return v;
        }
        if c.act[k] > 0 {
            let f = c.act[k] as usize - 1;
            v.classes.push(match (to, want[f].is_some()) {
                (None, _) if k == 0 => "log activated before the first solve",
                (None, _) => "log activated before a later solve",
                (Some(g), _) if g == f => "log activated again on the same file",
                (_, true) => "log activated on a file used before",
                (_, false) => "log activated on another file",
            });
            to = Some(f);
            want[f] = Some(vec![]);
            activations += 1;
        }
        let Some(f) = to else { continue };
        let i = &s.items[k];
        let one = RunCase { sys: i.sys.clone(), faults: i.faults.clone(), analytic: i.analytic, fd_params: true, ..s.base.clone() };
        let fresh = run_opts(&one, &RunOpts { log: Some(alone.clone()), ..Default::default() });
        let text = std::fs::read(&alone).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
        let _ = std::fs::remove_file(&alone);
        if let Some(b) = fresh.broken() {
            v.fail = Some(format!("solve {} with a newly built solver: {}", k, b));
            return v;
        }
        let (h, p) = segments(&text);
        if p.len() > 1 {
            v.fail = Some(format!("one solve is logged as {}:\n{}", p.len(), text));
            return v;
        }
        header = Some(h);
        if p.is_empty() {
            v.classes.push("initial evaluation unusable: nothing logged");
        }
        for p in p {
            if !want[f].as_ref().unwrap().is_empty() {
                solves += 1;
            }
            want[f].as_mut().unwrap().push((k, p));
        }
    }
    for (f, (w, g)) in want.iter().zip(&got).enumerate() {
        match (w, g) {
            (None, None) => (),
            (None, Some(g)) if f == 1 && *g == old => (),
            (None, Some(_)) => {
                v.fail = Some(format!("file {} written although the log was not activated on it", f));
                return v;
            }
            (Some(_), None) => {
                v.fail = Some(format!("file {} missing although the log was activated on it", f));
                return v;
            }
            (Some(w), Some(g)) => {
                let (h, p) = segments(g);
                let fail = if Some(&h) != header.as_ref() {
                    Some("the header is not the one of a new log".to_string())
                } else if p.len() != w.len() {
                    Some(format!("the file holds {} solves instead of {}", p.len(), w.len()))
                } else {
                    w.iter().zip(&p).find(|((_, w), p)| w.trim_end() != p.trim_end()).map(|((k, w), _)| format!("solve {} is not logged as with a newly built solver:\n{}", k, w))
                };
                if let Some(m) = fail {
                    v.fail = Some(format!("file {}: {}\ngot:\n{}", f, m, g));
                    return v;
                }
            }
        }
    }
    v.nontrivial = solves > 0 || activations > 1;
    v
}

// ------------------------------------------------------------------------------------- C33
/// The header written with the feature `additional_log_info`
#[cfg(feature = "loginfo")]
fn check_c33(c: &RunCase) -> Verdict {
    use chrono::{DateTime, FixedOffset, Utc};
    use std::sync::OnceLock;
    static WHO: OnceLock<[(&str, Option<String>); 4]> = OnceLock::new();
    let who = WHO.get_or_init(|| {
        let rustc = std::process::Command::new("rustc").arg("--version").output().ok().and_then(|o| String::from_utf8(o.stdout).ok());
        [
            ("OS:", Some(whoami::distro())),
            ("Host:", Some(whoami::devicename())),
            ("Username:", Some(whoami::username())),
            ("Rust version:", rustc.and_then(|s| s.split_whitespace().nth(1).map(|s| s.to_string()))),
        ]
    });
    let before = Utc::now();
    let (out, text) = match logged_run(c) {
        Ok(r) => r,
        Err(m) => return Verdict::fail(m),
    };
    let after = Utc::now();
    let mut v = judge_log(c, &out, &text);
    if v.fail.is_some() {
        return v;
    }
    v.nontrivial = true;
    let (head, _) = segments(&text);
    let line = |name: &str| -> Result<String, String> {
        let found: Vec<&str> = head.iter().filter_map(|l| l.trim_start_matches([' ', '-']).strip_prefix(name)).collect();
        match found[..] {
            [one] => Ok(one.trim().to_string()),
            _ => Err(format!("{} lines {:?} in the header:\n{}", found.len(), name, head.join("\n"))),
        }
    };
    let header = || -> Result<(), String> {
        for (name, value) in who {
            let got = line(name)?;
            match value {
                Some(w) if *w.trim() != *got => return Err(format!("{} {:?} instead of {:?}", name, got, w)),
                _ => (),
            }
        }
        let version = line("newton_rootfinder version:")?;
        if version.split('.').count() < 3 {
            return Err(format!("version {:?}", version));
        }
        let mut times: Vec<DateTime<FixedOffset>> = vec![];
        for name in ["UTC:", "Local:"] {
            let t = line(name)?;
            times.push(DateTime::parse_from_rfc2822(&t).map_err(|e| format!("{} {:?}: {}", name, t, e))?);
        }
        // (whole seconds are written)
        if times.iter().any(|t| t.timestamp() < before.timestamp() || t.timestamp() > after.timestamp()) {
            return Err(format!("started at {:?}, between {:?} and {:?}", times, before, after));
        }
        if times[0].offset().local_minus_utc() != 0 {
            return Err(format!("{:?} is not universal time", times[0]));
        }
        Ok(())
    };
    if let Err(m) = header() {
        v.fail = Some(m);
    }
    v
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![
        Box::new(Prop {
            id: "C21",
            rule: "a run with the log activated and at least one iteration",
            len: 330,
            quick: 150_000,
            mult: 20,
            gen: gen_c21,
            check: check_c21,
            assumptions: &["the stopping residuals recorded are compared within 8 ulps, everything else exactly", "the recorded inverse Jacobian explains the step within 1e-11 of the magnitudes involved"],
        }),
        Box::new(Prop {
            id: "C22",
            rule: "a run of at least one iteration compared with and without the log, then crashed at a chosen call",
            len: 331,
            quick: 100_000,
            mult: 20,
            gen: gen_c22,
            check: check_c22,
            assumptions: &["a crash is a panic of the model; what the file holds is also read at each call, so that content kept in memory until the end is noticed"],
        }),
        Box::new(Prop {
            id: "C32",
            rule: "two to four (one time in 30, up to twelve) solves on one solver object, the log being activated before any of them on one of two files; non-trivial: two solves on one file, or a second activation",
            len: 712,
            quick: 60_000,
            mult: 20,
            gen: gen_c32,
            check: check_c32,
            assumptions: &["the part of a solve begins at its solver parameters; the parts are compared with the log of the same solve by a newly built solver, line by line"],
        }),
        #[cfg(feature = "loginfo")]
        Box::new(Prop {
            id: "C33",
            rule: "a run with the log activated, the code under test being built with its feature `additional_log_info`",
            len: 330,
            quick: 20_000,
            mult: 20,
            gen: gen_c21,
            check: check_c33,
            assumptions: &["the system, host and user are what the crate `whoami` says of this sandbox, the compiler what `rustc --version` says; the times lie between the instants before and after the run, the entries are checked as for C21"],
        }),
    ]
}
