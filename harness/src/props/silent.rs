//! C36: nothing is written but the log
use super::runs2::scratch;
use super::xml::{gen_conf, load, render, tree, Conf};
use crate::engine::*;
use crate::model::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SilentCase {
    runs: Vec<RunCase>,
    log: Vec<bool>,
    conf: Conf,
    /// the file is damaged
    bad: bool,
}

fn gen_c36(u: &mut Src) -> SilentCase {
    let count = u.range(1, 6);
    let log = (0..count).map(|_| u.chance(1, 4)).collect();
    let bad = u.chance(1, 3);
    let w = Want { faults: 2, unusable: true, flavors: &[Flavor::Near, Flavor::Smooth, Flavor::Wobbly, Flavor::Nasty, Flavor::Affine], ..Want::any() };
    u.extend();
    let conf = gen_conf(u);
    let runs = (0..count).map(|_| gen_run(u, &w)).collect();
    SilentCase { runs, log, conf, bad }
}

fn log_name(k: usize) -> String {
    let names = ["log-0.txt", "log 1.log", "log-λ", "sub.dir/log", "log.4.txt.TXT", "log-5.txt~"];
    names[k % names.len()].to_string()
}

/// What the process of its own does, in its scratch directory
pub fn child(file: &str) {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(30));
        std::process::exit(3);
    });
    let c: SilentCase = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    for (k, r) in c.runs.iter().enumerate() {
        let log = c.log[k].then(|| log_name(k));
        let _ = caught(|| run_opts(r, &RunOpts { log, ..Default::default() }));
    }
    for fd in [false, true] {
        let _ = caught(|| load("conf.xml", fd));
    }
    let _ = caught(|| util::solver_one_dimensional::solver1d(1.0, |x| x * x - 2.0, |x| 2.0 * x, 20, 1e-9));
}

fn files(dir: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        if e.path().is_dir() {
            out.insert(format!("{}/", e.path().display()), vec![]);
            files(&e.path(), out);
        } else {
            out.insert(e.path().display().to_string(), std::fs::read(e.path()).unwrap_or_default());
        }
    }
}

fn check_c36(c: &SilentCase) -> Verdict {
    let dir = scratch("silent").replace(".txt", "");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let dir = std::path::PathBuf::from(dir);
    std::fs::write(dir.join("case.json"), serde_json::to_string(c).unwrap()).unwrap();
    let mut u = Src::new(&c.conf.layout);
    let mut text = render(&tree(&c.conf, &mut u), &mut u);
    if c.bad {
        text = text.replacen("solver", "solve", 1);
    }
    std::fs::write(dir.join("conf.xml"), &text).unwrap();
    std::fs::create_dir_all(dir.join("sub.dir")).unwrap();
    std::fs::write(dir.join("other.txt"), "something else\n").unwrap();
    let (mut before, mut after) = (BTreeMap::new(), BTreeMap::new());
    files(&dir, &mut before);
    let out = Command::new(std::env::current_exe().unwrap())
        .arg("silent")
        .arg("case.json")
        .current_dir(&dir)
        .env("TMPDIR", &dir)
        .env("HOME", &dir)
        .stdin(Stdio::null())
        .output()
        .unwrap();
    files(&dir, &mut after);
    let _ = std::fs::remove_dir_all(&dir);
    let mut v = Verdict::default();
    match out.status.code() {
        Some(0) => (),
        _ => {
            // (a crash or a run without end is the matter of other properties)
            v.classes.push("the process did not end normally");
            return v;
        }
    }
    v.nontrivial = true;
    v.classes.push(if c.log.iter().any(|l| *l) { "some runs logged" } else { "no log" });
    for (name, bytes) in [("standard output", &out.stdout), ("standard error", &out.stderr)] {
        if !bytes.is_empty() {
            v.fail = Some(format!("written on the {}: {:?}", name, String::from_utf8_lossy(bytes).chars().take(400).collect::<String>()));
            return v;
        }
    }
    for (k, l) in c.log.iter().enumerate() {
        if *l && after.remove(&dir.join(log_name(k)).display().to_string()).is_none() {
            v.fail = Some(format!("the log of run {} is missing", k));
            return v;
        }
    }
    for (name, old) in &before {
        match after.remove(name) {
            None => v.fail = Some(format!("{} removed", name)),
            Some(new) if new != *old => v.fail = Some(format!("{} changed", name)),
            _ => (),
        }
    }
    if let Some((name, _)) = after.iter().next() {
        v.fail = Some(format!("{} created", name));
    }
    v
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![Box::new(Prop {
        id: "C36",
        rule: "one to six resolutions, some of them logged, and the loading of a valid or invalid configuration, in a process of their own whose streams and directory are watched",
        len: 400,
        quick: 8_000,
        mult: 20,
        gen: gen_c36,
        check: check_c36,
        assumptions: &["the directory watched is the current, temporary and home directory of the process; the message of a panic, written by the hook of the program, is not concerned"],
    })]
}
