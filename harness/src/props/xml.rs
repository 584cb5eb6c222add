//! C19, C20: configuration files.
use super::runs2::{scratch, scratch_named};
use crate::engine::*;
use crate::fser;
use crate::fser::*;
use crate::model::{gen_iterp, method, norm, IterP, METHODS};
use newton_rootfinder as nrf;
use nrf::residuals::NormalizationMethod;
use nrf::solver::SolverParameters;
use serde::{Deserialize, Serialize};

pub const NORMS: [&str; 3] = ["Abs", "Rel", "Adapt"];
pub const FLOATS: [&str; 6] = ["max_step_abs", "max_step_rel", "min_value", "max_value", "dx_abs", "dx_rel"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Conf {
    pub max_iter: usize,
    #[serde(with = "fser::one")]
    pub tol: f64,
    pub method: usize,
    pub damping: Option<bool>,
    pub default: IterP,
    /// what each unknown has: the overridden values and which are
    pub iters: Vec<(IterP, Vec<bool>)>,
    pub ndefault: (u8, u8),
    pub norms: Vec<(Option<u8>, Option<u8>)>,
    /// the finite difference attributes are present
    pub fd: bool,
    /// choices of the rendering
    pub layout: Vec<u32>,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

fn get(p: &IterP, k: usize) -> f64 {
    [p.max_step_abs, p.max_step_rel, p.min, p.max, p.dx_abs, p.dx_rel][k]
}
fn set(p: &mut IterP, k: usize, v: f64) {
    match k {
        0 => p.max_step_abs = v,
        1 => p.max_step_rel = v,
        2 => p.min = v,
        3 => p.max = v,
        4 => p.dx_abs = v,
        _ => p.dx_rel = v,
    }
}

impl Conf {
    /// the parameters unknown i must end up with
    pub fn expect(&self, i: usize) -> IterP {
        let (own, has) = &self.iters[i];
        let mut p = self.default.clone();
        for k in 0..6 {
            if has[k] {
                set(&mut p, k, get(own, k));
            }
        }
        if has[6] {
            p.sum = own.sum;
        }
        p
    }
}

fn positive(u: &mut Src) -> f64 {
    match u.below(4) {
        0 => u.pick(&[1.0, 0.5, 10.0, 100.0, f64::INFINITY]),
        1 => u.logf(1e-6, 1e6),
        2 => u.pick(&[5e-324, f64::MIN_POSITIVE, f64::MAX, 1e308, 3.3e-310, 0.1, 1.0 / 3.0]),
        _ => {
            let v = f64::from_bits(((u.raw() as u64) << 32) | u.raw() as u64).abs();
            if v > 0.0 {
                v
            } else {
                2.5
            }
        }
    }
}
fn bounds(u: &mut Src) -> (f64, f64) {
    let a = match u.below(4) {
        0 => f64::NEG_INFINITY,
        1 => u.f(-10.0, 10.0),
        2 => u.pick(&[0.0, -0.0, -5e-324, f64::MIN, -1e300, 1.0]),
        _ => -positive(u),
    };
    let b = match u.below(4) {
        0 => f64::INFINITY,
        1 => u.f(-10.0, 10.0),
        2 => u.pick(&[0.0, 5e-324, f64::MAX, 1e300, 2.0, 1e-300]),
        _ => positive(u),
    };
    if a < b {
        (a, b)
    } else if b < a {
        (b, a)
    } else {
        (f64::NEG_INFINITY, f64::INFINITY)
    }
}

pub fn gen_conf(u: &mut Src) -> Conf {
    let n = if u.chance(1, 400) {
        u.extend();
        u.range(14, 120)
    } else if u.chance(1, 12) {
        u.range(7, 13)
    } else {
        u.range(1, 6)
    };
    let any = |u: &mut Src| -> IterP {
        let mut p = if u.chance(1, 4) { gen_iterp(u, 0.5, true) } else { IterP::free() };
        if u.chance(2, 3) {
            p.max_step_abs = positive(u);
            p.max_step_rel = positive(u);
            (p.min, p.max) = bounds(u);
        }
        if u.chance(2, 3) {
            p.dx_abs = positive(u);
            p.dx_rel = positive(u);
        }
        p.sum = u.chance(1, 2);
        p
    };
    let default = any(u);
    let iters = (0..n)
        .map(|_| {
            let own = any(u);
            let dense = u.below(3);
            let mut has: Vec<bool> = (0..7)
                .map(|_| match dense {
                    0 => false,
                    1 => u.chance(1, 3),
                    _ => u.chance(3, 4),
                })
                .collect();
            // the resulting bounds have to be ordered
            let lo = if has[2] { own.min } else { default.min };
            let hi = if has[3] { own.max } else { default.max };
            if !(lo < hi) {
                has[2] = true;
                has[3] = true;
            }
            (own, has)
        })
        .collect();
    let dense = u.below(3);
    let opt = |u: &mut Src| if u.chance(dense, 3) { Some(u.below(3) as u8) } else { None };
    let norms = (0..n).map(|_| (opt(u), opt(u))).collect();
    let layout = if u.chance(3, 4) { (0..60).map(|_| u.raw()).collect() } else { vec![] };
    Conf {
        max_iter: if u.chance(1, 8) { u.pick(&[0, usize::MAX, 4294967296, 1]) } else { u.below(1000) },
        tol: match u.below(3) {
            0 => 1e-6,
            1 => u.logf(1e-15, 10.0),
            _ => u.pick(&[0.0, 5e-324, 1e300, f64::MAX, 1e-6]),
        },
        method: u.below(10),
        damping: u.pick(&[None, Some(true), Some(false)]),
        default,
        iters,
        ndefault: (u.below(3) as u8, u.below(3) as u8),
        norms,
        fd: u.chance(1, 2),
        layout,
    }
}

fn ftext(u: &mut Src, v: f64) -> String {
    match u.below(4) {
        0 => format!("{}", v),
        1 => format!("{:?}", v),
        2 => format!("{:e}", v),
        _ => {
            if v > 0.0 && v.is_finite() {
                format!("+{:?}", v)
            } else {
                format!("{:E}", v)
            }
        }
    }
}

pub fn tree(c: &Conf, u: &mut Src) -> Node {
    let n = c.iters.len();
    let mut solver = Node {
        name: "solver".into(),
        attrs: vec![
            ("problem_size".into(), n.to_string()),
            ("max_iter".into(), c.max_iter.to_string()),
            ("tolerance".into(), ftext(u, c.tol)),
            ("resolution_method".into(), METHODS[c.method].into()),
        ],
        kids: vec![],
    };
    if let Some(d) = c.damping {
        solver.attrs.push(("damping".into(), d.to_string()));
    }
    let pattr = |u: &mut Src, p: &IterP, has: &[bool]| -> Vec<(String, String)> {
        let mut a = vec![];
        for k in 0..6 {
            if has[k] && (c.fd || k < 4) {
                a.push((FLOATS[k].to_string(), ftext(u, get(p, k))));
            }
        }
        if has[6] && c.fd {
            a.push(("perturbation_method".into(), if p.sum { "Sum" } else { "Max" }.into()));
        }
        a
    };
    let mut iteratives = Node { name: "iteratives".into(), attrs: pattr(u, &c.default, &[true; 7]), kids: vec![] };
    for (i, (own, has)) in c.iters.iter().enumerate() {
        let mut attrs = vec![("id".to_string(), i.to_string())];
        attrs.extend(pattr(u, own, has));
        iteratives.kids.push(Node { name: "iterative".into(), attrs, kids: vec![] });
    }
    let mut residuals = Node {
        name: "residuals".into(),
        attrs: vec![
            ("stopping_criteria".into(), NORMS[c.ndefault.0 as usize].into()),
            ("update_method".into(), NORMS[c.ndefault.1 as usize].into()),
        ],
        kids: vec![],
    };
    for (i, (s, p)) in c.norms.iter().enumerate() {
        let mut attrs = vec![("id".to_string(), i.to_string())];
        if let Some(s) = s {
            attrs.push(("stopping_criteria".into(), NORMS[*s as usize].into()));
        }
        if let Some(s) = p {
            attrs.push(("update_method".into(), NORMS[*s as usize].into()));
        }
        residuals.kids.push(Node { name: "residual".into(), attrs, kids: vec![] });
    }
    Node { name: "nrf".into(), attrs: vec![], kids: vec![solver, iteratives, residuals] }
}

fn blank(u: &mut Src) -> &'static str {
    u.pick(&["\n", "\n    ", " ", "", "\t", "\r\n", "\n\n\n"])
}
fn comment(u: &mut Src, out: &mut String) {
    if u.chance(1, 6) {
        out.push_str(u.pick(&["<!-- a comment -->", "<!---->", "<!-- <solver problem_size=\"9\"/> -->", "<!--\n <iterative id=\"0\"/> \n-->"]));
    }
}

pub fn render(root: &Node, u: &mut Src) -> String {
    let mut out = String::new();
    match u.below(3) {
        0 => out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>\n"),
        1 => out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"),
        _ => (),
    }
    node(root, u, &mut out);
    out.push('\n');
    out
}

fn node(nd: &Node, u: &mut Src, out: &mut String) {
    out.push('<');
    out.push_str(&nd.name);
    let mut attrs = nd.attrs.clone();
    // unknown attributes
    if u.chance(1, 4) {
        let extra = u.pick(&["var_name", "name", "comment", "unit", "ids", "max", "tol"]);
        let val = u.pick(&["x", "", "12", "NaN", "myVarName", "a &lt; b", "x = &quot;y&quot;"]);
        attrs.push((extra.into(), val.into()));
    }
    for i in (1..attrs.len()).rev() {
        let j = i - u.below(i + 1).min(i);
        attrs.swap(i, j);
    }
    for (k, v) in &attrs {
        out.push_str(u.pick(&[" ", "  ", "\n     ", "\t"]));
        out.push_str(k);
        if u.chance(1, 3) {
            out.push_str(&format!("='{}'", v));
        } else {
            out.push_str(&format!("=\"{}\"", v));
        }
    }
    if nd.kids.is_empty() && !u.chance(1, 3) {
        out.push_str(u.pick(&["/>", " />", "\n/>"]));
        return;
    }
    out.push_str(u.pick(&[">", " >"]));
    for k in &nd.kids {
        out.push_str(blank(u));
        comment(u, out);
        out.push_str(blank(u));
        node(k, u, out);
    }
    out.push_str(blank(u));
    comment(u, out);
    out.push_str(&format!("</{}>", nd.name));
}

#[derive(Clone, Debug)]
pub struct Loaded {
    pub params: SolverParameters2,
    pub plain: Vec<[f64; 4]>,
    pub fd: Vec<(f64, f64, bool)>,
    pub stop: Vec<NormalizationMethod>,
    pub upd: Vec<NormalizationMethod>,
}
#[derive(Clone, Debug)]
pub struct SolverParameters2 {
    pub size: usize,
    pub max_iter: usize,
    pub tol: f64,
    pub method: nrf::solver::ResolutionMethod,
    pub damping: bool,
}
fn sp(p: &SolverParameters) -> SolverParameters2 {
    SolverParameters2 { size: p.get_problem_size(), max_iter: p.get_max_iter(), tol: p.get_tolerance(), method: p.get_resolution_method(), damping: p.get_damping() }
}

pub fn load(path: &str, fd: bool) -> Result<Loaded, String> {
    caught(|| {
        if fd {
            let (p, it, stop, upd) = nrf::xml_parser::from_xml_finite_diff(path);
            Loaded {
                params: sp(&p),
                plain: it.iter().map(|i| [i.get_max_step_abs(), i.get_max_step_rel(), i.get_min_value(), i.get_max_value()]).collect(),
                fd: it.iter().map(|i| (i.get_dx_abs(), i.get_dx_rel(), format!("{:?}", i.get_perturbation_method()) == "Sum")).collect(),
                stop,
                upd,
            }
        } else {
            let (p, it, stop, upd) = nrf::xml_parser::from_xml_jacobian(path);
            Loaded {
                params: sp(&p),
                plain: it.iter().map(|i| [i.get_max_step_abs(), i.get_max_step_rel(), i.get_min_value(), i.get_max_value()]).collect(),
                fd: vec![],
                stop,
                upd,
            }
        }
    })
}

fn compare(c: &Conf, l: &Loaded, fd: bool) -> Option<String> {
    let n = c.iters.len();
    let p = &l.params;
    if p.size != n || p.max_iter != c.max_iter || !same(p.tol, c.tol) || p.method != method(c.method) || p.damping != c.damping.unwrap_or(false) {
        return Some(format!("solver parameters loaded as {:?}", p));
    }
    if l.plain.len() != n || l.stop.len() != n || l.upd.len() != n || (fd && l.fd.len() != n) {
        return Some(format!("sizes {} {} {} instead of {}", l.plain.len(), l.stop.len(), l.upd.len(), n));
    }
    for i in 0..n {
        let e = c.expect(i);
        for (k, got) in l.plain[i].iter().enumerate() {
            if !same(*got, get(&e, k)) {
                return Some(format!("unknown {}: {} is {:?} instead of {:?}", i, FLOATS[k], got, get(&e, k)));
            }
        }
        if fd {
            let (a, r, s) = l.fd[i];
            if !same(a, e.dx_abs) || !same(r, e.dx_rel) || s != e.sum {
                return Some(format!("unknown {}: perturbation {:?} instead of {:?}", i, l.fd[i], (e.dx_abs, e.dx_rel, e.sum)));
            }
        }
        let s = norm(c.norms[i].0.unwrap_or(c.ndefault.0));
        let q = norm(c.norms[i].1.unwrap_or(c.ndefault.1));
        if l.stop[i] != s || l.upd[i] != q {
            return Some(format!("equation {}: {:?}/{:?} instead of {:?}/{:?}", i, l.stop[i], l.upd[i], s, q));
        }
    }
    None
}

fn check_c19(c: &Conf) -> Verdict {
    let mut u = Src::new(&c.layout);
    let t = tree(c, &mut u);
    let text = render(&t, &mut u);
    let style = c.layout.iter().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64)) % 24;
    let path = scratch_named("conf", style as usize);
    std::fs::write(&path, &text).unwrap();
    let jac = load(&path, false);
    let fd = if c.fd { Some(load(&path, true)) } else { None };
    let _ = std::fs::remove_file(&path);
    let over = c.iters.iter().any(|(_, h)| h.iter().any(|b| *b)) || c.norms.iter().any(|(a, b)| a.is_some() || b.is_some());
    let mut v = Verdict::ok(over);
    v.classes.push(if c.fd { "both loaders" } else { "analytic loader" });
    v.classes.push(if c.layout.is_empty() { "plain layout" } else { "shuffled layout" });
    v.classes.push(if over { "with overrides" } else { "defaults only" });
    for (name, r, is_fd) in [("from_xml_jacobian", Some(jac), false), ("from_xml_finite_diff", fd, true)] {
        match r {
            None => (),
            Some(Err(e)) => v.fail = Some(format!("{} refuses a well-formed file: {}\n{}", name, e, text)),
            Some(Ok(l)) => {
                if let Some(m) = compare(c, &l, is_fd) {
                    v.fail = Some(format!("{}: {}\n{}", name, m, text));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------- C20
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadConf {
    conf: Conf,
    /// use the finite difference loader
    fd: bool,
    /// 0: structural mutation, 1: text damage, 2: random bytes, 3: any edits
    kind: usize,
    choices: Vec<u32>,
}

fn gen_c20(u: &mut Src) -> BadConf {
    let mut conf = gen_conf(u);
    let fd = u.chance(1, 2);
    if fd {
        conf.fd = true;
    }
    let kind = u.pick(&[0, 0, 0, 0, 0, 0, 1, 2, 3, 3, 3, 2]);
    BadConf { conf, fd, kind, choices: (0..24).map(|_| u.raw()).collect() }
}

const BAD_FLOATS: [&str; 14] = ["", "abc", "1,5", "1.5.2", "0x10", "1e", "--1", "1 000", "e5", "1.0f", "infinite", "-", "1/2", "1e5.0"];
const BAD_INTS: [&str; 12] = ["", "-1", "1.5", "3.0", "1e2", "abc", "99999999999999999999999", "0x3", "1 2", "three", "inf", "2,"];
const BAD_METHODS: [&str; 18] = [
    "", "nr", "Nr", "NewtonRaphson", "BROY", "BROY3", "BROY1_inv", "BROY1INV", "BROY1-INV", "broy1", "GRST", "GRST3", "SN_INV", "NR_INV", "SR", "GRST1_INVERSE", "BROY12", "XBROY2",
];
const BAD_NORMS: [&str; 9] = ["", "abs", "REL", "adapt", "Absolute", "Relative", "Adaptative", "Max", "Adapts"];
const BAD_BOOLS: [&str; 9] = ["", "True", "FALSE", "1", "0", "yes", "no", "on", "truee"];
const BAD_PERT: [&str; 7] = ["", "max", "SUM", "sum", "Min", "Abs", "MaxSum"];

/// What a message about the attribute of the defaults, or of the child `k`, has to name
fn naming(a: &str, k: Option<usize>) -> Vec<String> {
    let mut v = vec![a.to_string()];
    v.extend(k.map(|k| k.to_string()));
    v
}

/// Breaks the tree; says what was done and what a useful message names, None when this choice does not apply
fn break_tree(t: &mut Node, fd: bool, u: &mut Src) -> Option<(&'static str, String, Vec<String>)> {
    let n = t.kids[1].kids.len();
    let mandatory: Vec<(usize, &str)> = {
        let mut m = vec![
            (0, "problem_size"),
            (0, "max_iter"),
            (0, "tolerance"),
            (0, "resolution_method"),
            (1, "max_step_abs"),
            (1, "max_step_rel"),
            (1, "min_value"),
            (1, "max_value"),
            (2, "stopping_criteria"),
            (2, "update_method"),
        ];
        if fd {
            m.extend([(1, "dx_abs"), (1, "dx_rel"), (1, "perturbation_method")]);
        }
        m
    };
    // some child (unknown or equation), or the defaults
    fn at<'a>(t: &'a mut Node, which: usize, k: Option<usize>) -> &'a mut Node {
        match k {
            None => &mut t.kids[which],
            Some(k) => &mut t.kids[which].kids[k],
        }
    }
    fn put(nd: &mut Node, a: &str, v: &str) {
        match nd.attrs.iter_mut().find(|(k, _)| k == a) {
            Some(x) => x.1 = v.into(),
            None => nd.attrs.push((a.into(), v.into())),
        }
    }
    match u.below(11) {
        0 => {
            let (w, a) = u.pick(&mandatory);
            t.kids[w].attrs.retain(|(k, _)| k != a);
            Some(("missing attribute", a.into(), vec![a.into()]))
        }
        1 => {
            // misspelt
            let (w, a) = u.pick(&mandatory);
            let m = match u.below(5) {
                0 => a.to_uppercase(),
                1 => format!("{}s", a),
                2 => a[..a.len() - 1].to_string(),
                3 if a.contains('_') => a.replace('_', "-"),
                _ => format!("_{}", a),
            };
            for x in t.kids[w].attrs.iter_mut().filter(|x| x.0 == a) {
                x.0 = m.clone();
            }
            Some(("misspelt attribute", m, vec![a.into()]))
        }
        2 => {
            // ids
            let w = 1 + u.below(2);
            let k = u.below(n);
            match u.below(6) {
                0 => {
                    t.kids[w].kids[k].attrs.retain(|(k, _)| k != "id");
                    Some(("missing id", format!("{} {}", w, k), vec!["id".into()]))
                }
                1 => {
                    let b = u.pick(&BAD_INTS);
                    put(&mut t.kids[w].kids[k], "id", b);
                    Some(("ill-formed id", b.into(), vec!["id".into()]))
                }
                2 => {
                    let d = if u.chance(1, 4) { u.pick(&[256, 65_536, 4_294_967_296, 512, 128, 100, 10]) } else { u.range(1, 5) };
                    put(&mut t.kids[w].kids[k], "id", &(k + d).to_string());
                    Some(("id too high", format!("{} for {}", k + d, k), vec!["id".into(), (k + d).to_string(), k.to_string()]))
                }
                3 if k > 0 => {
                    let d = u.below(k);
                    put(&mut t.kids[w].kids[k], "id", &d.to_string());
                    Some(("id too low", format!("{} for {}", d, k), vec!["id".into(), d.to_string(), k.to_string()]))
                }
                4 if n > 1 => {
                    let j = (k + 1 + u.below(n - 1)) % n;
                    t.kids[w].kids.swap(k, j);
                    Some(("nodes out of order", format!("{} {}", k, j), vec!["id".into(), k.to_string(), j.to_string()]))
                }
                _ => {
                    for i in 0..n {
                        put(&mut t.kids[w].kids[i], "id", &(i + 1).to_string());
                    }
                    Some(("ids from 1", String::new(), vec!["id".into(), "0".into(), "1".into()]))
                }
            }
        }
        3 => {
            // counts
            match u.below(6) {
                0 => {
                    let s = n + u.range(1, 4);
                    put(&mut t.kids[0], "problem_size", &s.to_string());
                    Some(("problem size too high", s.to_string(), vec!["problem_size".into(), s.to_string(), n.to_string()]))
                }
                1 => {
                    let s = u.below(n);
                    put(&mut t.kids[0], "problem_size", &s.to_string());
                    Some(("problem size too low", s.to_string(), vec!["problem_size".into(), s.to_string(), n.to_string()]))
                }
                2 | 3 => {
                    let w = 1 + u.below(2);
                    t.kids[w].kids.pop();
                    Some(("one node too few", t.kids[w].name.clone(), vec!["problem_size".into(), n.to_string(), (n - 1).to_string(), t.kids[w].name.clone()]))
                }
                _ => {
                    let w = 1 + u.below(2);
                    let mut k = t.kids[w].kids[n - 1].clone();
                    put(&mut k, "id", &n.to_string());
                    t.kids[w].kids.push(k);
                    Some(("one node too many", t.kids[w].name.clone(), vec!["problem_size".into(), n.to_string(), (n + 1).to_string(), t.kids[w].name.clone()]))
                }
            }
        }
        4 => {
            // nodes
            match u.below(4) {
                0 => {
                    let w = u.below(3);
                    let gone = t.kids.remove(w);
                    { let gone_name = gone.name.clone(); Some(("missing node", gone.name, if w == 2 { vec![] } else { vec![gone_name] })) }
                }
                1 => {
                    t.name = u.pick(&["NRF", "nr", "nrfs", "root", "solver"]).into();
                    Some(("misspelt root", t.name.clone(), vec!["nrf".into(), t.name.clone()]))
                }
                2 => {
                    let w = u.below(3);
                    let nm = t.kids[w].name.clone();
                    let m = match u.below(4) {
                        0 => format!("{}s", nm),
                        1 => nm.to_uppercase(),
                        2 => nm[..nm.len() - 1].to_string(),
                        _ => "other".into(),
                    };
                    t.kids[w].name = m.clone();
                    let m2 = m.clone();
                    Some(("misspelt node", m, vec![nm, m2]))
                }
                _ => {
                    let w = 1 + u.below(2);
                    let k = u.below(n);
                    let nm = &t.kids[w].kids[k].name;
                    let m = match u.below(4) {
                        0 => format!("{}s", nm),
                        1 => nm.to_uppercase(),
                        2 => (if w == 1 { "residual" } else { "iterative" }).into(),
                        _ => "other".into(),
                    };
                    t.kids[w].kids[k].name = m.clone();
                    let m2 = m.clone();
                    Some(("misspelt child", m, vec![m2]))
                }
            }
        }
        5 => {
            // ill-formed floats
            let b = u.pick(&BAD_FLOATS);
            if u.chance(1, 4) {
                put(&mut t.kids[0], "tolerance", b);
                return Some(("ill-formed float", format!("tolerance {:?}", b), vec!["tolerance".into()]));
            }
            let a = FLOATS[u.below(if fd { 6 } else { 4 })];
            let k = if u.chance(2, 3) { Some(u.below(n)) } else { None };
            put(at(t, 1, k), a, b);
            Some(("ill-formed float", format!("{} {:?} of {:?}", a, b, k), naming(a, k)))
        }
        6 => {
            let a = u.pick(&["problem_size", "max_iter"]);
            let b = u.pick(&BAD_INTS);
            put(&mut t.kids[0], a, b);
            Some(("ill-formed integer", format!("{} {:?}", a, b), vec![a.into()]))
        }
        7 => {
            let k = if u.chance(2, 3) { Some(u.below(n)) } else { None };
            match u.below(if fd { 4 } else { 3 }) {
                0 => {
                    let b = u.pick(&BAD_METHODS);
                    put(&mut t.kids[0], "resolution_method", b);
                    Some(("ill-formed keyword", format!("{:?}", b), vec!["resolution_method".into()]))
                }
                3 => {
                    let b = u.pick(&BAD_PERT);
                    put(at(t, 1, k), "perturbation_method", b);
                    Some(("ill-formed keyword", format!("perturbation {:?} of {:?}", b, k), naming("perturbation_method", k)))
                }
                q => {
                    let b = u.pick(&BAD_NORMS);
                    let a = if q == 1 { "stopping_criteria" } else { "update_method" };
                    put(at(t, 2, k), a, b);
                    Some(("ill-formed keyword", format!("{} {:?} of {:?}", a, b, k), naming(a, k)))
                }
            }
        }
        8 => {
            let b = u.pick(&BAD_BOOLS);
            put(&mut t.kids[0], "damping", b);
            Some(("ill-formed boolean", format!("{:?}", b), vec!["damping".into()]))
        }
        9 => {
            // invalid steps or perturbations
            let idx = u.pick(if fd { &[0usize, 1, 4, 5][..] } else { &[0usize, 1][..] });
            let b = u.pick(&["0", "-0", "-1", "-1e-300", "-inf", "NaN", "nan", "0.0", "-5e-324", "1e-400"]);
            let k = if u.chance(2, 3) { Some(u.below(n)) } else { None };
            put(at(t, 1, k), FLOATS[idx], b);
            Some(("invalid step", format!("{}={} of {:?}", FLOATS[idx], b, k), vec![FLOATS[idx].into()]))
        }
        _ => {
            let (a, b) = u.pick(&[("1", "1"), ("2", "1"), ("inf", "inf"), ("NaN", "1"), ("0", "NaN"), ("-inf", "-inf"), ("0", "-0"), ("1e-300", "-1e-300"), ("inf", "-inf"), ("1.0", "1e0")]);
            let k = if u.chance(2, 3) { Some(u.below(n)) } else { None };
            put(at(t, 1, k), "min_value", a);
            put(at(t, 1, k), "max_value", b);
            Some(("invalid bounds", format!("[{}, {}] of {:?}", a, b, k), vec!["min_value".into(), "max_value".into()]))
        }
    }
}

fn sound(l: &Loaded, fd: bool) -> Option<String> {
    let n = l.params.size;
    if l.plain.len() != n || l.stop.len() != n || l.upd.len() != n || (fd && l.fd.len() != n) {
        return Some(format!("problem size {} with {} unknowns and {}/{} equations", n, l.plain.len(), l.stop.len(), l.upd.len()));
    }
    for p in &l.plain {
        if !(p[0] > 0.0 && p[1] > 0.0 && p[2] < p[3]) {
            return Some(format!("invalid limits {:?}", p));
        }
    }
    for p in &l.fd {
        if !(p.0 > 0.0 && p.1 > 0.0) {
            return Some(format!("invalid perturbation {:?}", p));
        }
    }
    None
}

// ------------------------------------------------------------------ reference reader
/// Reads a document made of elements, attributes, comments and blanks only; None for anything else
/// (which the XML library may take or not).
fn strict(text: &str) -> Option<Node> {
    struct P<'a> {
        s: &'a [u8],
        i: usize,
    }
    impl P<'_> {
        fn blanks(&mut self) {
            while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
                self.i += 1;
            }
        }
        fn eat(&mut self, w: &str) -> bool {
            let yes = self.s[self.i..].starts_with(w.as_bytes());
            if yes {
                self.i += w.len();
            }
            yes
        }
        fn name(&mut self) -> Option<String> {
            let from = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
                self.i += 1;
            }
            let w = std::str::from_utf8(&self.s[from..self.i]).ok()?;
            // (names that start with xml are reserved)
            (w.chars().next()?.is_ascii_alphabetic() && !w.to_lowercase().starts_with("xml")).then(|| w.to_string())
        }
        fn misc(&mut self) -> Option<()> {
            loop {
                self.blanks();
                if !self.eat("<!--") {
                    return Some(());
                }
                let from = self.i;
                while !self.s[self.i..].starts_with(b"--") {
                    self.i += 1;
                    if self.i >= self.s.len() {
                        return None;
                    }
                }
                if self.s[from..self.i].first() == Some(&b'>') || self.s[from..self.i].starts_with(b"->") || !self.eat("-->") {
                    return None;
                }
            }
        }
        fn element(&mut self) -> Option<Node> {
            if !self.eat("<") {
                return None;
            }
            let mut nd = Node { name: self.name()?, attrs: vec![], kids: vec![] };
            loop {
                let from = self.i;
                self.blanks();
                if self.eat("/>") {
                    return Some(nd);
                }
                if self.eat(">") {
                    break;
                }
                if self.i == from {
                    return None;
                }
                let k = self.name()?;
                if !self.eat("=") || nd.attrs.iter().any(|a| a.0 == k) {
                    return None;
                }
                let q = *self.s.get(self.i)?;
                if q != b'"' && q != b'\'' {
                    return None;
                }
                self.i += 1;
                let from = self.i;
                while *self.s.get(self.i)? != q {
                    let c = self.s[self.i];
                    if !(b' '..=b'~').contains(&c) || c == b'<' {
                        return None;
                    }
                    self.i += 1;
                }
                let v = std::str::from_utf8(&self.s[from..self.i]).ok()?.replace("&lt;", "<").replace("&quot;", "\"");
                if v.contains('&') {
                    return None;
                }
                self.i += 1;
                nd.attrs.push((k, v));
            }
            loop {
                self.misc()?;
                if self.eat("</") {
                    let end = self.name()?;
                    self.blanks();
                    return (end == nd.name && self.eat(">")).then_some(nd);
                }
                nd.kids.push(self.element()?);
            }
        }
    }
    if !text.is_ascii() {
        return None;
    }
    let mut p = P { s: text.as_bytes(), i: 0 };
    let _ = p.eat("<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>") || p.eat("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    p.misc()?;
    let root = p.element()?;
    p.misc()?;
    (p.i == p.s.len()).then_some(root)
}

/// What the documentation makes of a tree: its configuration, or what is wrong with it; None where it does not say
fn reference(root: &Node, fd: bool) -> Option<Result<Loaded, String>> {
    fn attr<'a>(nd: &'a Node, a: &str) -> Option<&'a str> {
        nd.attrs.iter().find(|x| x.0 == a).map(|x| x.1.as_str())
    }
    fn read(root: &Node, fd: bool) -> Result<Loaded, String> {
        let need = |nd: &Node, a: &str| attr(nd, a).map(|v| v.to_string()).ok_or(format!("{} without {}", nd.name, a));
        let int = |nd: &Node, a: &str| need(nd, a)?.parse::<usize>().map_err(|_| format!("{} of {}", a, nd.name));
        let float = |v: &str| v.parse::<f64>().map_err(|_| format!("float {:?}", v));
        if root.name != "nrf" {
            return Err("root".into());
        }
        for (i, w) in ["solver", "iteratives", "residuals"].iter().enumerate() {
            if root.kids.get(i).map(|k| k.name.as_str()) != Some(w) {
                return Err(format!("node {}", w));
            }
        }
        let (s, it, re) = (&root.kids[0], &root.kids[1], &root.kids[2]);
        let m = need(s, "resolution_method")?;
        let params = SolverParameters2 {
            size: int(s, "problem_size")?,
            max_iter: int(s, "max_iter")?,
            tol: float(&need(s, "tolerance")?)?,
            method: method(METHODS.iter().position(|k| *k == m).ok_or("method")?),
            damping: match attr(s, "damping") {
                None | Some("false") => false,
                Some("true") => true,
                _ => return Err("damping".into()),
            },
        };
        let mut l = Loaded { params, plain: vec![], fd: vec![], stop: vec![], upd: vec![] };
        let nf = if fd { 6 } else { 4 };
        // the default, then the children
        let mut default: Option<(Vec<f64>, bool)> = None;
        for (rank, nd) in std::iter::once(it).chain(&it.kids).enumerate() {
            if rank > 0 && (nd.name != "iterative" || int(nd, "id")? != rank - 1) {
                return Err(format!("iterative {}", rank - 1));
            }
            let mut v = vec![];
            for (k, a) in FLOATS.iter().take(nf).enumerate() {
                v.push(match (attr(nd, a), &default) {
                    (Some(t), _) => float(t)?,
                    (None, Some(d)) => d.0[k],
                    _ => return Err(format!("no {}", a)),
                });
            }
            let sum = match (attr(nd, "perturbation_method"), &default) {
                _ if !fd => false,
                (Some("Sum"), _) => true,
                (Some("Max"), _) => false,
                (None, Some(d)) => d.1,
                _ => return Err("perturbation".into()),
            };
            if !(v[0] > 0.0 && v[1] > 0.0 && v[2] < v[3]) || v[4..].iter().any(|d| !(*d > 0.0)) {
                return Err(format!("limits {:?}", v));
            }
            if rank > 0 {
                l.plain.push([v[0], v[1], v[2], v[3]]);
                if fd {
                    l.fd.push((v[4], v[5], sum));
                }
            }
            default = default.or(Some((v, sum)));
        }
        let mut norms: Option<[u8; 2]> = None;
        for (rank, nd) in std::iter::once(re).chain(&re.kids).enumerate() {
            if rank > 0 && (nd.name != "residual" || int(nd, "id")? != rank - 1) {
                return Err(format!("residual {}", rank - 1));
            }
            let mut v = [0; 2];
            for (k, a) in ["stopping_criteria", "update_method"].iter().enumerate() {
                v[k] = match (attr(nd, a), &norms) {
                    (Some(t), _) => NORMS.iter().position(|n| *n == t).ok_or(format!("norm {:?}", t))? as u8,
                    (None, Some(d)) => d[k],
                    _ => return Err(format!("no {}", a)),
                };
            }
            if rank > 0 {
                l.stop.push(norm(v[0]));
                l.upd.push(norm(v[1]));
            }
            norms = norms.or(Some(v));
        }
        if l.plain.len() != l.params.size || l.stop.len() != l.params.size {
            return Err("sizes".into());
        }
        Ok(l)
    }
    let got = read(root, fd);
    if let Ok(l) = &got {
        // more nodes than documented, or nothing to solve
        let deeper = root.kids.iter().enumerate().any(|(i, k)| k.kids.iter().any(|c| i == 0 || !c.kids.is_empty()));
        if root.kids.len() > 3 || deeper || l.params.size == 0 {
            return None;
        }
    }
    Some(got)
}

fn same_conf(a: &Loaded, b: &Loaded) -> bool {
    let (p, q) = (&a.params, &b.params);
    p.size == q.size
        && p.max_iter == q.max_iter
        && same_val(p.tol, q.tol)
        && p.method == q.method
        && p.damping == q.damping
        && a.plain.len() == b.plain.len()
        && a.plain.iter().flatten().zip(b.plain.iter().flatten()).all(|(x, y)| same(*x, *y))
        && a.fd.len() == b.fd.len()
        && a.fd.iter().zip(&b.fd).all(|(x, y)| same(x.0, y.0) && same(x.1, y.1) && x.2 == y.2)
        && a.stop == b.stop
        && a.upd == b.upd
}

const ANY_FLOATS: [&str; 30] = [
    "1", "0", "-0", "2.5", "1e-6", "-1", "inf", "-inf", "+inf", "NaN", "nan", "infinity", "1.", ".5", "+3", "1e400", "1e-400", "-5e-324", "5e-324", "1E5", "1_000", "1e+5", "1e 5", " 1", "1 ", "1,5", "0x1", "1d3", "5%",
    "Infinity",
];
const ANY_INTS: [&str; 16] = ["0", "1", "2", "3", "007", "+2", "-0", "-1", "1.0", " 1", "1 ", "18446744073709551615", "18446744073709551616", "1_0", "", "1e1"];

/// One edit of the tree, whatever it does
fn edit(t: &mut Node, u: &mut Src) {
    fn pick_node<'a>(t: &'a mut Node, u: &mut Src) -> &'a mut Node {
        if t.kids.is_empty() {
            return t;
        }
        let w = u.below(t.kids.len());
        let k = &mut t.kids[w];
        if k.kids.is_empty() || u.chance(1, 3) {
            return k;
        }
        let j = u.below(k.kids.len());
        &mut k.kids[j]
    }
    match u.below(12) {
        0 => {
            // something removed, or twice, or elsewhere
            let w = if u.chance(1, 4) || t.kids.is_empty() { t } else { let w = u.below(t.kids.len()); &mut t.kids[w] };
            if w.kids.is_empty() {
                return;
            }
            let (i, j) = (u.below(w.kids.len()), u.below(w.kids.len()));
            match u.below(3) {
                0 => drop(w.kids.remove(i)),
                1 => {
                    let k = w.kids[i].clone();
                    w.kids.insert(j, k);
                }
                _ => w.kids.swap(i, j),
            }
        }
        1 => {
            let nd = if u.chance(1, 8) { t } else { pick_node(t, u) };
            nd.name = u.pick(&["iterative", "residual", "solver", "iteratives", "residuals", "nrf", "Residual", "iterative_fd"]).into();
        }
        2 => {
            let nd = pick_node(t, u);
            if !nd.attrs.is_empty() {
                let i = u.below(nd.attrs.len());
                nd.attrs.remove(i);
            }
        }
        3..=5 => {
            // a byte of a value
            let nd = pick_node(t, u);
            if nd.attrs.is_empty() {
                return;
            }
            let i = u.below(nd.attrs.len());
            let v = &mut nd.attrs[i].1;
            if v.is_empty() {
                v.push('1');
                return;
            }
            let at = u.below(v.len());
            let c = u.pick(&['0', '1', '2', '9', '.', 'e', 'E', '+', '-', 'i', 'n', 'f', 'N', 'a', 'A', ' ', '_', 'B', '2', '5']);
            match u.below(3) {
                0 => drop(v.remove(at)),
                1 => v.insert(at, c),
                _ => v.replace_range(at..at + 1, &c.to_string()),
            }
        }
        _ => {
            let nd = pick_node(t, u);
            let a = match nd.name.as_str() {
                "solver" => u.pick(&["problem_size", "max_iter", "tolerance", "resolution_method", "damping"]),
                "residuals" | "residual" => u.pick(&["stopping_criteria", "update_method", "id"]),
                _ => u.pick(&["max_step_abs", "max_step_rel", "min_value", "max_value", "dx_abs", "dx_rel", "perturbation_method", "id"]),
            };
            let v = match a {
                "problem_size" | "max_iter" | "id" => u.pick(&ANY_INTS),
                "resolution_method" => {
                    if u.chance(2, 3) {
                        u.pick(&METHODS)
                    } else {
                        u.pick(&BAD_METHODS)
                    }
                }
                "damping" => u.pick(&["true", "false", "True", "1", "", " true"]),
                "stopping_criteria" | "update_method" => {
                    if u.chance(2, 3) {
                        u.pick(&NORMS)
                    } else {
                        u.pick(&BAD_NORMS)
                    }
                }
                "perturbation_method" => u.pick(&["Max", "Sum", "Max", "Sum", "max", "", "Sum "]),
                _ => u.pick(&ANY_FLOATS),
            };
            match nd.attrs.iter_mut().find(|x| x.0 == a) {
                Some(x) => x.1 = v.into(),
                None => nd.attrs.push((a.into(), v.into())),
            }
        }
    }
}

fn check_c20(b: &BadConf) -> Verdict {
    let c = &b.conf;
    let mut lay = Src::new(&c.layout);
    let mut u = Src::new(&b.choices);
    let mut t = tree(c, &mut lay);
    let mut must_fail = true;
    let mut expected: Option<Result<Loaded, String>> = None;
    let (class, what, text): (&'static str, String, Vec<u8>) = match b.kind {
        0 => {
            let Some((class, what, _)) = break_tree(&mut t, b.fd, &mut u) else { return Verdict::ok(false) };
            (class, what, render(&t, &mut lay).into_bytes())
        }
        1 => {
            // not XML any more
            let text = render(&t, &mut lay);
            match u.below(5) {
                0 => {
                    // the last equation is missing: a file cut later is taken as it is by the XML library
                    let last = text.rfind("<residual").unwrap();
                    let at = u.below(text.len());
                    must_fail = at <= last + 9;
                    ("truncated", format!("at {}", at), text.as_bytes()[..at].to_vec())
                }
                1 => {
                    let i = u.below(t.kids.len());
                    let close = format!("</{}>", t.kids[i].name);
                    if !text.contains(&close) {
                        return Verdict::ok(false);
                    }
                    ("unclosed node", close.clone(), text.replacen(&close, "", 1).into_bytes())
                }
                2 => ("closing tag of another name", String::new(), text.replace("</nrf>", "</nfr>").into_bytes()),
                3 => {
                    let mut v = text.into_bytes();
                    let at = v.iter().position(|c| *c == b'=').unwrap();
                    v.insert(at, 0xff);
                    ("not UTF-8", String::new(), v)
                }
                _ => ("empty or missing", String::new(), if u.chance(1, 2) { vec![] } else { b"   \n".to_vec() }),
            }
        }
        3 => {
            // any edits: the reference reader decides
            must_fail = false;
            let k = u.below(5);
            for _ in 0..k {
                edit(&mut t, &mut u);
            }
            expected = reference(&t, b.fd);
            ("any edits", format!("{} edits", k), render(&t, &mut lay).into_bytes())
        }
        _ => {
            // arbitrary damage: what is still plain XML is decided by the reference reader,
            // whatever else is accepted has to be consistent
            must_fail = false;
            let mut v = render(&t, &mut lay).into_bytes();
            let k = u.range(1, 3);
            for _ in 0..k {
                let at = u.below(v.len());
                match u.below(5) {
                    0 => v[at] = b' ' + u.below(95) as u8,
                    1 => {
                        v.remove(at);
                    }
                    2 => v.insert(at, b' ' + u.below(95) as u8),
                    3 => v[at] = u.below(256) as u8,
                    _ => {
                        let to = (at + u.below(40)).min(v.len());
                        let part = v[at..to].to_vec();
                        let dst = u.below(v.len());
                        for (i, x) in part.into_iter().enumerate() {
                            v.insert(dst + i, x);
                        }
                    }
                }
                if v.is_empty() {
                    v.push(b' ');
                }
            }
            expected = std::str::from_utf8(&v).ok().and_then(strict).and_then(|t| reference(&t, b.fd));
            ("random damage", String::new(), v)
        }
    };
    let path = scratch("bad");
    std::fs::write(&path, &text).unwrap();
    if class == "empty or missing" && text.is_empty() {
        let _ = std::fs::remove_file(&path);
    }
    let got = load(&path, b.fd);
    let _ = std::fs::remove_file(&path);
    let mut v = Verdict::ok(true).class(class);
    let name = if b.fd { "from_xml_finite_diff" } else { "from_xml_jacobian" };
    match &expected {
        Some(Ok(_)) => v.classes.push("valid for the reference reader"),
        Some(Err(_)) => v.classes.push("invalid for the reference reader"),
        None => (),
    }
    match (got, expected) {
        (Err(m), Some(Ok(e))) => v.fail = Some(format!("{} refuses a file that is valid ({}): {}\nexpected {:?}\n{}", name, class, m, e, String::from_utf8_lossy(&text))),
        (Err(_), _) => v.classes.push("rejected"),
        (Ok(l), expected) => {
            v.classes.push("accepted");
            if let Some(Err(m)) = &expected {
                v.fail = Some(format!("{} accepts a file ({}) where something is wrong: {}: {:?}\n{}", name, class, m, l, String::from_utf8_lossy(&text)));
            } else if expected.as_ref().is_some_and(|e| !e.as_ref().is_ok_and(|e| same_conf(e, &l))) {
                v.fail = Some(format!("{} reads {:?} instead of {:?}\n{}", name, l, expected, String::from_utf8_lossy(&text)));
            } else if must_fail {
                v.fail = Some(format!("{} accepts a file with {} ({}): {:?}\n{}", name, class, what, l, String::from_utf8_lossy(&text)));
            } else if let Some(m) = sound(&l, b.fd) {
                v.fail = Some(format!("{} accepts an inconsistent file: {}\n{}", name, m, String::from_utf8_lossy(&text)));
            }
        }
    }
    v
}

// ------------------------------------------------------------------------------------- C34
fn gen_c34(u: &mut Src) -> BadConf {
    BadConf { kind: 0, ..gen_c20(u) }
}

fn check_c34(b: &BadConf) -> Verdict {
    let mut lay = Src::new(&b.conf.layout);
    let mut u = Src::new(&b.choices);
    let mut t = tree(&b.conf, &mut lay);
    let Some((class, what, names)) = break_tree(&mut t, b.fd, &mut u) else { return Verdict::ok(false) };
    let text = render(&t, &mut lay);
    let path = scratch("names");
    std::fs::write(&path, &text).unwrap();
    let got = load(&path, b.fd);
    let _ = std::fs::remove_file(&path);
    let mut v = Verdict::ok(!names.is_empty()).class(class);
    match got {
        // (C20)
        Ok(_) => v.nontrivial = false,
        Err(m) => {
            // (the first line says where in the source)
            let m = m.split_once('\n').map(|x| x.1).unwrap_or("");
            let words: Vec<&str> = m.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
            let number = |w: &str| w.chars().all(|c| c.is_ascii_digit());
            if let Some(w) = names.iter().find(|w| if number(w) { !words.contains(&w.as_str()) } else { !m.contains(w.as_str()) }) {
                v.fail = Some(format!("the refusal of a file with {} ({}) does not name {:?}: {:?}\n{}", class, what, w, m, text));
            }
            // which one is which, where the wording says it
            let after = |w: &str| m.split_once(w).map(|x| x.1.trim_start_matches([' ', '=', '"']).split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string());
            let told = match class {
                "id too high" | "id too low" => Some(("got id", names[1].clone())),
                "one node too few" | "one node too many" | "problem size too high" | "problem size too low" => Some(("problem_size =", names[1].clone())),
                "misspelt root" | "misspelt node" => Some(("got", names[1].clone())),
                _ => None,
            };
            if let Some((w, value)) = told {
                if let Some(got) = after(w) {
                    if got != value {
                        v.fail = Some(format!("the refusal of a file with {} ({}) says {:?} {:?} instead of {:?}: {:?}\n{}", class, what, w, got, value, m, text));
                    }
                    v.classes.push("roles told");
                }
            }
        }
    }
    v
}

pub fn props() -> Vec<Box<dyn AnyProp>> {
    vec![
        Box::new(Prop {
            id: "C19",
            rule: "a well-formed configuration in which at least one unknown or equation overrides a default",
            len: 420,
            quick: 400_000,
            mult: 20,
            gen: gen_conf,
            check: check_c19,
            assumptions: &["infinities are written \"inf\" and \"-inf\", floats in any notation of Rust's f64 parser", "the nodes come in the documented order"],
        }),
        Box::new(Prop {
            id: "C20",
            rule: "a configuration made invalid by exactly one mutation, or a randomly damaged file",
            len: 450,
            quick: 500_000,
            mult: 20,
            gen: gen_c20,
            check: check_c20,
            assumptions: &["a file cut after its last equation is a matter of the XML library (which accepts it); cut before, it counts as malformed", "files that are not valid UTF-8, or whose closing tags are missing or do not match, count as malformed"],
        }),
        Box::new(Prop {
            id: "C34",
            rule: "a configuration made invalid by exactly one mutation, which is refused",
            len: 451,
            quick: 300_000,
            mult: 20,
            gen: gen_c34,
            check: check_c34,
            assumptions: &["what a message has to name: the attribute (and the number of the unknown or equation for an ill-formed value there), the ids got and expected, the sizes that differ, the node"],
        }),
    ]
}
