//! Generated-input search: sharded, seeded, shrinking, with evidence and replay.
//!
//! A case is decoded from a fixed-length sequence of choices (u32). proptest generates the
//! choices and shrinks them towards 0, for which the decoders yield the simplest case.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 32;

/// The source of choices a case is decoded from
pub struct Src<'a> {
    c: &'a [u32],
    p: usize,
    /// where the choices beyond the end come from; 0: they are all 0
    more: u64,
}

impl<'a> Src<'a> {
    pub fn new(c: &'a [u32]) -> Self {
        Src { c, p: 0, more: 0 }
    }
    /// For the largest cases: the choices beyond the end are derived from one of them
    pub fn extend(&mut self) {
        self.more = self.raw() as u64;
    }
    pub fn raw(&mut self) -> u32 {
        let v = match self.c.get(self.p) {
            Some(v) => *v,
            None if self.more == 0 => 0,
            None => (mix(self.more << 20 ^ self.p as u64) >> 32) as u32,
        };
        self.p += 1;
        v
    }
    /// 0..n, 0 being the simplest
    pub fn below(&mut self, n: usize) -> usize {
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den; false is the simplest
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    /// a value of [lo, hi]: often a multiple of a quarter, the smallest magnitude being the simplest
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        let r = self.raw();
        let t = r as f64 / 4294967296.0;
        // the simplest value is the one of the interval closest to 0
        let origin = 0.0f64.clamp(lo, hi);
        // t spans outwards from the origin, alternating sides by their width
        let up = hi - origin;
        let down = origin - lo;
        let side = self.raw();
        let v = if (side as f64 / 4294967296.0) * (up + down) >= up {
            origin - t * down
        } else {
            origin + t * up
        };
        if side & 3 == 0 && hi - lo > 1.0 {
            ((v * 4.0).round() / 4.0).clamp(lo, hi)
        } else {
            v
        }
    }
    /// a positive value of [lo, hi], spread over the magnitudes
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 {
        let t = self.raw() as f64 / 4294967296.0;
        (lo.ln() + t * (hi.ln() - lo.ln())).exp().clamp(lo, hi)
    }
    /// any float: special values, then every magnitude
    pub fn wild(&mut self) -> f64 {
        const SPECIAL: [f64; 24] = [
            0.0, 1.0, -1.0, 2.0, 0.5, -0.0, 10.0, 1e-3, 1e3, 1e8, -1e8, 1e-8, 1e-300, -1e-300, 1e300, -1e300,
            5e-324, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON,
        ];
        match self.below(4) {
            0 => self.pick(&SPECIAL),
            1 => self.f(-10.0, 10.0),
            2 => {
                let m = self.logf(1e-20, 1e20);
                if self.chance(1, 2) { -m } else { m }
            }
            _ => f64::from_bits(((self.raw() as u64) << 32) | self.raw() as u64),
        }
    }
    pub fn wild_finite(&mut self) -> f64 {
        let v = self.wild();
        if v.is_finite() { v } else { 1.0 }
    }
}

/// What a check says of one case
#[derive(Default, Clone, Debug)]
pub struct Verdict {
    pub fail: Option<String>,
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    /// keys of the known findings met by this case
    pub known: Vec<(&'static str, String)>,
    /// what failed has left the process unable to go on: reported at once, without shrinking
    pub fatal: bool,
}

impl Verdict {
    pub fn ok(nontrivial: bool) -> Self {
        Verdict { nontrivial, ..Default::default() }
    }
    pub fn fail(msg: impl Into<String>) -> Self {
        Verdict { fail: Some(msg.into()), nontrivial: true, ..Default::default() }
    }
    pub fn class(mut self, c: &'static str) -> Self {
        self.classes.push(c);
        self
    }
}

pub struct Prop<C> {
    pub id: &'static str,
    pub rule: &'static str,
    /// number of choices a case is decoded from
    pub len: usize,
    /// number of cases of the quick tier
    pub quick: usize,
    /// thorough = quick * mult
    pub mult: usize,
    pub gen: fn(&mut Src) -> C,
    pub check: fn(&C) -> Verdict,
    pub assumptions: &'static [&'static str],
}

pub trait AnyProp: Sync {
    fn id(&self) -> &'static str;
    fn run(&self, env: &Env) -> i32;
    fn replay(&self, case: &serde_json::Value) -> Result<Verdict, String>;
    fn show_case(&self, choices: &[u32]) -> String;
}

pub struct Env {
    pub seed: u64,
    pub thorough: bool,
    pub root: PathBuf,
    pub known: Vec<(String, String, String)>, // property, key, text
    pub threads: usize,
    pub scale: f64,
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(true) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let text = format!("{}", info);
        LAST_PANIC.with(|l| *l.borrow_mut() = text.clone());
        if !QUIET.with(|q| q.get()) {
            eprintln!("{}", text);
        }
    }));
}

pub fn loud<T>(f: impl FnOnce() -> T) -> T {
    QUIET.with(|q| q.set(false));
    let r = f();
    QUIET.with(|q| q.set(true));
    r
}

/// Runs f, turning a panic into its text
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn guarded<C>(check: fn(&C) -> Verdict, case: &C) -> Verdict {
    match caught(|| check(case)) {
        Ok(v) => v,
        Err(p) => Verdict::fail(format!("unexpected panic: {}", p)),
    }
}

fn hash_of<C: Serialize>(c: &C) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    serde_json::to_string(c).unwrap_or_default().hash(&mut h);
    h.finish()
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn seed_bytes(seed: u64, id: &str, shard: usize) -> [u8; 32] {
    let mut s = mix(seed ^ 0xabcdef);
    for b in id.bytes() {
        s = mix(s ^ b as u64);
    }
    s = mix(s ^ (shard as u64) << 17);
    let mut out = [0u8; 32];
    for i in 0..4 {
        s = mix(s.wrapping_add(i));
        out[i as usize * 8..i as usize * 8 + 8].copy_from_slice(&s.to_le_bytes());
    }
    out
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<(String, String), String>,
}

struct Failure<C> {
    shard: usize,
    repeats: bool,
    case: C,
    msg: String,
}

impl<C> AnyProp for Prop<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    fn id(&self) -> &'static str {
        self.id
    }

    fn show_case(&self, choices: &[u32]) -> String {
        serde_json::to_string_pretty(&(self.gen)(&mut Src::new(choices))).unwrap()
    }

    fn replay(&self, case: &serde_json::Value) -> Result<Verdict, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(loud(|| guarded(self.check, &c)))
    }

    fn run(&self, env: &Env) -> i32 {
        let start = Instant::now();
        let stats = Mutex::new(Stats::default());
        let failure: Mutex<Option<Failure<C>>> = Mutex::new(None);
        // committed regression cases first
        let dir = env.root.join("harness/regress").join(self.id);
        let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
            .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        let mut regress = 0u64;
        for f in files.iter().filter(|f| f.extension().is_some_and(|e| e == "json")) {
            let text = std::fs::read_to_string(f).unwrap();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_else(|e| panic!("{}: {}", f.display(), e));
            let case: C = match serde_json::from_value(v["case"].clone()) {
                Ok(c) => c,
                Err(e) => {
                    eprintln!("regression case {} unreadable: {}", f.display(), e);
                    return 2;
                }
            };
            let v = self.judge(env, &case);
            regress += 1;
            let mut st = stats.lock().unwrap();
            st.evaluations += 1;
            for (k, m) in &v.known {
                st.known.entry((self.id.to_string(), k.to_string())).or_insert_with(|| m.clone());
            }
            if v.nontrivial {
                st.nontrivial.insert(hash_of(&case));
            }
            drop(st);
            if let Some(msg) = v.fail {
                let mut fl = failure.lock().unwrap();
                if fl.is_none() {
                    *fl = Some(Failure { shard: 0, repeats: true, case, msg: format!("(regression case {}) {}", f.file_name().unwrap().to_string_lossy(), msg) });
                }
            }
        }

        if failure.lock().unwrap().is_none() {
            self.search(env, env.threads, None, &stats, &failure, regress, start);
            if failure.lock().unwrap().as_ref().is_some_and(|f| !f.repeats) {
                // something is shared between the cases judged at the same time: search for one that fails by itself
                let single = Mutex::new(None);
                self.search(env, 1, Some(Instant::now() + Duration::from_secs(100)), &Mutex::new(Stats::default()), &single, regress, start);
                if let Some(f) = single.into_inner().unwrap() {
                    *failure.lock().unwrap() = Some(f);
                }
            }
        }

        let st = stats.into_inner().unwrap();
        let fl = failure.into_inner().unwrap();
        self.write_evidence(env, &st, regress, start, if fl.is_some() { 1 } else { 0 });

        for ((p, k), m) in &st.known {
            if let Some((_, _, text)) = env.known.iter().find(|(a, b, _)| a == p && b == k) {
                println!("KNOWN-FINDING: property={} {} (met: {})", p, text, m.replace('\n', " "));
            }
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {:.1} s",
            self.id, st.evaluations, st.nontrivial.len(), start.elapsed().as_secs_f64()
        );
        for (k, v) in &st.classes {
            println!("    {:40} {}", k, v);
        }
        if let Some(f) = fl {
            let path = write_replay(env, self.id, &f.case, &f.msg);
            println!("{}", f.msg);
            println!("VIOLATION property={} replay={}", self.id, path.display());
            1
        } else {
            0
        }
    }
}

impl<C> Prop<C>
where
    C: Serialize + DeserializeOwned + Clone + std::fmt::Debug + Send + 'static,
{
    /// a verdict, with the known findings that are not listed turned into violations
    fn judge(&self, env: &Env, case: &C) -> Verdict {
        let is_known = |key: &str| env.known.iter().any(|(p, k, _)| p == self.id && k == key);
        let mut v = guarded(self.check, case);
        if v.fail.is_none() {
            if let Some((k, m)) = v.known.iter().find(|(k, _)| !is_known(k)) {
                v.fail = Some(format!("[{}] {}", k, m));
            }
        }
        v
    }

    /// The cases of all shards, on so many threads; a failure of the lowest failing shard is shrunk
    #[allow(clippy::too_many_arguments)]
    fn search(&self, env: &Env, threads: usize, end: Option<Instant>, stats: &Mutex<Stats>, failure: &Mutex<Option<Failure<C>>>, regress: u64, start: Instant) {
        let total = ((if env.thorough { self.quick * self.mult } else { self.quick }) as f64 * env.scale) as usize;
        let per_shard = total.div_ceil(SHARDS).max(1);
        let lowest = AtomicUsize::new(usize::MAX);
        let next = AtomicUsize::new(0);
        let slots: Vec<Mutex<Option<(Instant, String, C)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let done = AtomicUsize::new(0);
        std::thread::scope(|scope| {
            for t in 0..threads {
                let (next, lowest, slots, done) = (&next, &lowest, &slots, &done);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || {
                        let tid = own_tid();
                        loop {
                            let shard = next.fetch_add(1, Ordering::SeqCst);
                            if shard >= SHARDS {
                                break;
                            }
                            if lowest.load(Ordering::SeqCst) < shard {
                                continue;
                            }
                            let local = RefCell::new(Stats::default());
                            let failed = Cell::new(false);
                                let first: RefCell<Option<(C, String)>> = RefCell::new(None);
                            let config = Config {
                                cases: per_shard as u32,
                                failure_persistence: None,
                                max_shrink_iters: 60_000,
                                max_shrink_time: 40_000,
                                ..Config::default()
                            };
                            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(env.seed, self.id, shard));
                            let mut runner = TestRunner::new_with_rng(config, rng);
                            let strat = proptest::collection::vec(proptest::num::u32::ANY, self.len)
                                .prop_map(|c| c);
                            let res = runner.run(&strat, |choices| {
                                if !failed.get() && (lowest.load(Ordering::Relaxed) < shard || end.is_some_and(|e| Instant::now() > e)) {
                                    return Ok(()); // a lower shard failed: this one is of no interest
                                }
                                let case = (self.gen)(&mut Src::new(&choices));
                                *slots[t].lock().unwrap() = Some((Instant::now(), tid.clone(), case.clone()));
                                let v = self.judge(env, &case);
                                if let (true, Some(msg)) = (v.fatal, &v.fail) {
                                    let path = write_replay(env, self.id, &case, msg);
                                    self.write_evidence(env, &stats.lock().unwrap(), regress, start, 1);
                                    println!("{}", msg);
                                    println!("VIOLATION property={} replay={}", self.id, path.display());
                                    std::process::exit(1);
                                }
                                *slots[t].lock().unwrap() = None;
                                if !failed.get() {
                                    let mut st = local.borrow_mut();
                                    st.evaluations += 1;
                                    for c in &v.classes {
                                        *st.classes.entry(c).or_insert(0) += 1;
                                    }
                                    for (k, m) in &v.known {
                                        st.known.entry((self.id.to_string(), k.to_string())).or_insert_with(|| m.clone());
                                    }
                                    if v.nontrivial {
                                        st.nontrivial.insert(hash_of(&case));
                                        if st.samples.len() < 3 {
                                            st.samples.push(serde_json::to_value(&case).unwrap());
                                        }
                                    }
                                }
                                match v.fail {
                                    None => Ok(()),
                                    Some(m) => {
                                        if !failed.get() {
                                            *first.borrow_mut() = Some((case, m.clone()));
                                        }
                                        failed.set(true);
                                        Err(TestCaseError::fail(m))
                                    }
                                }
                            });
                            match res {
                                Ok(()) => (),
                                Err(TestError::Fail(_, choices)) => {
                                    let case = (self.gen)(&mut Src::new(&choices));
                                    let (repeats, case, msg) = match (self.judge(env, &case).fail, first.borrow_mut().take()) {
                                        (None, Some((c, m))) => (false, c, format!("(the failure did not repeat: it depends on something else than its inputs) {}", m)),
                                        (None, None) => (false, case, "the failure did not repeat: it depends on something else than its inputs".into()),
                                        (Some(m), _) => (true, case, m),
                                    };
                                    lowest.fetch_min(shard, Ordering::SeqCst);
                                    let mut fl = failure.lock().unwrap();
                                    if fl.as_ref().is_none_or(|f| f.shard > shard) {
                                        *fl = Some(Failure { shard, repeats, case, msg });
                                    }
                                }
                                Err(TestError::Abort(r)) => {
                                    eprintln!("aborted: {}", r);
                                    std::process::exit(2);
                                }
                            }
                            let l = local.into_inner();
                            let mut st = stats.lock().unwrap();
                            st.evaluations += l.evaluations;
                            st.nontrivial.extend(l.nontrivial);
                            for (k, v) in l.classes {
                                *st.classes.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in l.known {
                                st.known.entry(k).or_insert(v);
                            }
                            if st.samples.len() < 5 {
                                st.samples.extend(l.samples.into_iter().take(1));
                            }
                        }
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog: a case that never returns
            let (slots, done) = (&slots, &done);
            scope.spawn(move || {
                // start of the case, processor time of its thread when it was first found slow
                let mut slow: Vec<Option<(Instant, f64)>> = vec![None; slots.len()];
                while done.load(Ordering::SeqCst) < threads {
                    std::thread::sleep(Duration::from_millis(20));
                    for (s, slow) in slots.iter().zip(slow.iter_mut()) {
                        let g = s.lock().unwrap();
                        let Some((t0, tid, case)) = g.as_ref() else { continue };
                        if t0.elapsed() < Duration::from_secs(2) {
                            continue;
                        }
                        let cpu = cpu_seconds(tid).unwrap_or(0.0);
                        match slow {
                            Some((t, base)) if t == t0 => {
                                if cpu - *base > HANG_CPU {
                                    let msg = format!("the call does not return ({} s of processor time, where a case takes milliseconds)", HANG_CPU);
                                    let path = write_replay(env, self.id, case, &msg);
                                    self.write_evidence(env, &stats.lock().unwrap(), regress, start, 1);
                                    println!("{}", msg);
                                    println!("VIOLATION property={} replay={}", self.id, path.display());
                                    std::process::exit(1);
                                }
                                if t0.elapsed() > Duration::from_secs(400) {
                                    eprintln!("error: a case of {} does not end, without using the processor", self.id);
                                    std::process::exit(2);
                                }
                            }
                            _ => *slow = Some((*t0, cpu)),
                        }
                    }
                }
            });
        });
    }

    fn write_evidence(&self, env: &Env, st: &Stats, regress: u64, start: Instant, violations: u32) {
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if env.thorough { "thorough" } else { "quick" },
            "seed": env.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": st.evaluations,
                "distinct_nontrivial": st.nontrivial.len(),
                "rule": self.rule,
                "samples": st.samples,
                "classes": st.classes.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<String, u64>>(),
                "regression_cases": regress,
                "shards": SHARDS,
                "known_findings_met": st.known.keys().map(|k| k.1.clone()).collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions,
            "wall_s": start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let dir = env.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        // never seen half written
        let (part, whole) = (dir.join(format!(".{}.{}", self.id, std::process::id())), dir.join(format!("{}.json", self.id)));
        std::fs::write(&part, serde_json::to_string_pretty(&ev).unwrap()).and_then(|_| std::fs::rename(&part, &whole)).unwrap();
    }
}

/// processor time a single case may use before it counts as endless
const HANG_CPU: f64 = 60.0;

/// identifier of the calling thread for the system
pub fn own_tid() -> String {
    std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().map(|n| n.to_string_lossy().into_owned())).unwrap_or_default()
}

/// user time of a thread of this process
pub fn cpu_seconds(tid: &str) -> Option<f64> {
    let text = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let after = text.rsplit(')').next()?;
    let f: Vec<&str> = after.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

/// Ends the process with a violation when the thread `tid` uses too much processor time (replays)
pub fn watch_replay(id: &str, tid: String, file: String) {
    let id = id.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if cpu_seconds(&tid).is_some_and(|c| c > HANG_CPU) {
            println!("the call does not return ({} s of processor time, where a case takes milliseconds)", HANG_CPU);
            println!("VIOLATION property={} replay={}", id, file);
            std::process::exit(1);
        }
    });
}

fn write_replay<C: Serialize>(env: &Env, id: &str, case: &C, msg: &str) -> PathBuf {
    let dir = env.root.join("out");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", id));
    let v = serde_json::json!({"property": id, "message": msg, "case": case});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

/// lines "known: property=<id> key=<key> <text>"
pub fn read_known(path: &Path) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for line in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(rest) = line.strip_prefix("known: property=") {
            let mut it = rest.splitn(3, ' ');
            if let (Some(p), Some(k), Some(t)) = (it.next(), it.next(), it.next()) {
                if let Some(k) = k.strip_prefix("key=") {
                    out.push((p.to_string(), k.to_string(), t.to_string()));
                }
            }
        }
    }
    out
}
