//! C35: resolutions going on at the same time
use super::runs2::{calls, differ, scratch, show};
use crate::engine::*;
use crate::fser::same_vec;
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::rc::Rc;
use std::sync::mpsc::{channel, RecvTimeoutError};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Mode {
    /// each run entirely inside a call of the model of the previous one
    Nested,
    /// nested, both solvers built on the same configuration objects
    Shared,
    /// one thread each, one call of a model at a time, in the order of the schedule
    Scheduled,
    /// one thread each, no order
    Free,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SimulCase {
    mode: Mode,
    runs: Vec<RunCase>,
    log: Vec<bool>,
    /// the call of each model (modulo their number; from 1000, counted from the last one) at which the next run takes place
    at: Vec<usize>,
    /// which of the runs goes on, cyclically
    order: Vec<usize>,
}

fn gen_c35(u: &mut Src) -> SimulCase {
    let mode = [Mode::Nested, Mode::Shared, Mode::Scheduled, Mode::Nested, Mode::Scheduled, Mode::Free][u.below(6)];
    let count = if mode == Mode::Shared { 2 } else { u.range(2, 3) };
    let log = (0..3).map(|_| u.chance(1, 3)).collect();
    let at = (0..2).map(|_| if u.chance(1, 3) { 1000 + u.below(4) } else { u.below(24) }).collect();
    let len = u.range(1, 24);
    let mut order: Vec<usize> = (0..24).map(|_| u.below(6)).collect();
    order.truncate(len);
    let w = Want { max_n: 4, max_iter: 6, faults: 1, unusable: true, flavors: &[Flavor::Near, Flavor::Smooth, Flavor::Wobbly, Flavor::Nasty], ..Want::any() };
    let mut runs: Vec<RunCase> = vec![];
    for k in 0..count {
        let like = if k == 0 { 2 } else { u.below(4) };
        let mut c = gen_run(u, &w);
        if mode == Mode::Shared {
            c.fd_params = true;
        }
        let mut c = match runs.first() {
            // the same run again
            Some(first) if like == 1 => first.clone(),
            // the same size, method and model kind
            Some(first) if like == 3 && c.sys.n == first.sys.n => RunCase { method: first.method, stat: first.stat, analytic: first.analytic, ..c },
            _ => c,
        };
        if mode == Mode::Shared && k > 0 {
            let f = &runs[0];
            if c.sys.n == f.sys.n {
                c = RunCase { sys: c.sys, faults: c.faults, analytic: c.analytic, ..f.clone() };
            } else {
                c = f.clone();
            }
        }
        c.max_iter = c.max_iter.min(12);
        if u.chance(1, 6) {
            // inaccurate throughout
            c.faults = (0..40).map(|at| Fault { jac: false, at, unusable: false, style: 0 }).collect();
        }
        runs.push(c);
    }
    SimulCase { mode, runs, log, at, order }
}

struct Turn {
    next: usize,
    current: usize,
    alive: Vec<bool>,
}
struct Schedule {
    order: Vec<usize>,
    turn: Mutex<Turn>,
    changed: Condvar,
}
impl Schedule {
    fn pass(&self, t: &mut Turn) {
        let left: Vec<usize> = (0..t.alive.len()).filter(|&i| t.alive[i]).collect();
        if !left.is_empty() {
            t.current = left[self.order[t.next % self.order.len()] % left.len()];
            t.next += 1;
        }
        self.changed.notify_all();
    }
    fn await_turn(&self, me: usize) {
        let mut t = self.turn.lock().unwrap();
        while t.current != me {
            t = self.changed.wait(t).unwrap();
        }
    }
    fn call(&self, me: usize) {
        {
            let mut t = self.turn.lock().unwrap();
            self.pass(&mut t);
        }
        self.await_turn(me);
    }
    fn end(&self, me: usize) {
        let mut t = self.turn.lock().unwrap();
        t.alive[me] = false;
        self.pass(&mut t);
    }
}

type Nest = Rc<std::cell::RefCell<Vec<Option<RunOut>>>>;
fn nest(runs: Arc<Vec<RunCase>>, k: usize, at: Rc<Vec<usize>>, logs: Rc<Vec<Option<String>>>, got: Nest) {
    let (r2, a2, l2, g2) = (runs.clone(), at.clone(), logs.clone(), got.clone());
    let hook: Hook<'static> = Rc::new(move |call| {
        if a2.get(k) == Some(&call) && k + 1 < r2.len() {
            nest(r2.clone(), k + 1, a2.clone(), l2.clone(), g2.clone());
        }
    });
    let out = run_opts(&runs[k], &RunOpts { log: logs[k].clone(), hook: Some(hook), ..Default::default() });
    got.borrow_mut()[k] = Some(out);
}

fn together(c: &SimulCase, ncalls: &[usize], logs: &[Option<String>]) -> Result<Vec<Option<RunOut>>, String> {
    let n = c.runs.len();
    let (tx, rx) = channel();
    let at: Vec<usize> = (0..n).map(|k| c.at.get(k).map_or(0, |&a| if a < 1000 { a % ncalls[k].max(1) } else { ncalls[k].saturating_sub(1 + a - 1000) })).collect();
    let runs = Arc::new(c.runs.clone());
    match c.mode {
        Mode::Nested => {
            let (runs, at, logs) = (runs.clone(), at.clone(), logs.to_vec());
            spawn(move || {
                let got: Nest = Rc::new(std::cell::RefCell::new(vec![None; n]));
                nest(runs, 0, Rc::new(at), Rc::new(logs), got.clone());
                for (k, g) in got.borrow_mut().drain(..).enumerate() {
                    let _ = tx.send((k, g));
                }
            });
        }
        Mode::Shared => {
            let (runs, at, logs) = (runs.clone(), at.clone(), logs.to_vec());
            spawn(move || {
                let (a, b) = run_shared(&runs[0], &(runs[1].sys.clone(), runs[1].faults.clone(), runs[1].analytic), at[0], &logs);
                let _ = tx.send((0, Some(a)));
                let _ = tx.send((1, b));
            });
        }
        Mode::Scheduled => {
            let s = Arc::new(Schedule {
                order: c.order.clone(),
                turn: Mutex::new(Turn { next: 0, current: usize::MAX, alive: vec![true; n] }),
                changed: Condvar::new(),
            });
            for k in 0..n {
                let (runs, s, log, tx) = (runs.clone(), s.clone(), logs[k].clone(), tx.clone());
                spawn(move || {
                    s.await_turn(k);
                    let s2 = s.clone();
                    let hook: Hook<'static> = Rc::new(move |_| s2.call(k));
                    let out = caught(|| run_opts(&runs[k], &RunOpts { log, hook: Some(hook), ..Default::default() })).ok();
                    s.end(k);
                    let _ = tx.send((k, out));
                });
            }
            let mut t = s.turn.lock().unwrap();
            s.pass(&mut t);
        }
        Mode::Free => {
            let b = Arc::new(Barrier::new(n));
            for k in 0..n {
                let (runs, b, log, tx) = (runs.clone(), b.clone(), logs[k].clone(), tx.clone());
                spawn(move || {
                    b.wait();
                    let out = caught(|| run_opts(&runs[k], &RunOpts { log, ..Default::default() })).ok();
                    let _ = tx.send((k, out));
                });
            }
        }
    }
    let mut got: Vec<Option<RunOut>> = vec![None; n];
    let mut have = vec![false; n];
    for _ in 0..n {
        let mut waited = 0;
        let (k, o) = loop {
            // (counted in intervals, so that a suspended process is not taken for a deadlock)
            match rx.recv_timeout(Duration::from_millis(200)) {
                Ok(r) => break r,
                Err(RecvTimeoutError::Disconnected) => return Err("a run ended without a result".into()),
                Err(RecvTimeoutError::Timeout) => {
                    waited += 1;
                    if waited == 300 {
                        let left: Vec<usize> = (0..n).filter(|&k| !have[k]).collect();
                        return Err(format!("runs {:?} do not end when they take place at the same time (waited 60 s, a run takes less than a millisecond)", left));
                    }
                }
            }
        };
        have[k] = true;
        got[k] = o;
    }
    Ok(got)
}
fn spawn(f: impl FnOnce() + Send + 'static) {
    std::thread::Builder::new().stack_size(4 << 20).spawn(f).unwrap();
}

fn check_c35(c: &SimulCase) -> Verdict {
    let n = c.runs.len();
    let mut v = Verdict::default();
    let file = scratch("alone");
    let read = |p: &String| {
        let t = std::fs::read(p).map(|b| String::from_utf8_lossy(&b).into_owned()).ok();
        let _ = std::fs::remove_file(p);
        t
    };
    let alone: Vec<(RunOut, Option<String>)> = (0..n)
        .map(|k| {
            let out = run_opts(&c.runs[k], &RunOpts { log: c.log[k].then(|| file.clone()), ..Default::default() });
            (out, if c.log[k] { read(&file) } else { None })
        })
        .collect();
    for (k, (o, _)) in alone.iter().enumerate() {
        if let Some(b) = o.broken() {
            v.fail = Some(format!("run {} alone: {}", k, b));
            return v;
        }
    }
    // calls at which another run may take place
    let ncalls: Vec<usize> = alone.iter().map(|(o, _)| o.evs.iter().filter(|e| !matches!(e, Ev::GetMem)).count()).collect();
    v.classes.push(match c.mode {
        Mode::Nested => "one inside a call of the other's model",
        Mode::Shared => "one inside the other, on the same configuration objects",
        Mode::Scheduled => "threads, calls in a generated order",
        Mode::Free => "threads, no order",
    });
    let logs: Vec<Option<String>> = (0..n).map(|k| c.log[k].then(|| scratch(&format!("run-{}", k)))).collect();
    for _ in 0..if c.mode == Mode::Free { 6 } else { 1 } {
        let got = match together(c, &ncalls, &logs) {
            Ok(g) => g,
            Err(m) => {
                v.fail = Some(m);
                v.fatal = true;
                return v;
            }
        };
        let texts: Vec<Option<String>> = logs.iter().map(|l| l.as_ref().and_then(read)).collect();
        let mut open = true;
        for (k, (g, (w, wt))) in got.iter().zip(&alone).enumerate() {
            let Some(g) = g else {
                // (the run around it did not get as far as the call, which is reported for that one)
                if open && k > 0 {
                    v.fail = Some(format!("run {} did not take place", k));
                    return v;
                }
                continue;
            };
            let (a, b) = (calls(g), calls(w));
            if let Some(d) = differ(&a, &b) {
                v.fail = Some(format!("run {} at the same time as others: call {} is {}, {} alone", k, d, show(a.get(d)), show(b.get(d))));
            } else if g.outcome != w.outcome || g.text != w.text {
                v.fail = Some(format!("run {} gives {:?} ({}), {:?} ({}) alone", k, g.outcome, g.text, w.outcome, w.text));
            } else if !same_vec(&g.x, &w.x) || !same_vec(&g.l, &w.l) || !same_vec(&g.r, &w.r) || !same_vec(&g.mem, &w.mem) {
                v.fail = Some(format!("run {} leaves the model at {:?}, {:?} alone", k, g.x, w.x));
            } else if texts[k] != *wt {
                v.fail = Some(format!("run {} logs\n{}\nalone\n{}", k, texts[k].as_deref().unwrap_or("nothing"), wt.as_deref().unwrap_or("nothing")));
            }
            if v.fail.is_some() {
                return v;
            }
            open = k + 1 < n;
        }
    }
    v.nontrivial = alone.iter().filter(|(o, _)| o.evs.len() > 4).count() > 1;
    v
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(Prop {
        id: "C35",
        rule: "two or three resolutions going on at the same time; non-trivial: at least two of them iterate",
        len: 760,
        quick: 25_000,
        mult: 20,
        gen: gen_c35,
        check: check_c35,
        assumptions: &["calls of the models are the points at which another resolution may proceed; in one case out of six the threads run freely, six times"],
    })]
}
