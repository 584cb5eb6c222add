//! Random systems left(x) = right(x) with their analytic derivatives.
use crate::engine::Src;
use crate::fser;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Term {
    #[serde(with = "fser::one")]
    pub c: f64,
    pub k: Kind,
    pub i: usize,
    pub j: usize,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Kind {
    Const,
    Lin,
    Quad,
    Cube,
    Sin,
    CosDiff,
    Exp,
    Atan,
    Bump,
    // nasty ones
    Sqrt,
    Ln,
    Recip,
    BigExp,
    Abs,
    Step,
    NanAbove,
    InfAbove,
    Pole,
}
use Kind::*;
pub const SMOOTH: [Kind; 8] = [Lin, Quad, Sin, Atan, CosDiff, Bump, Exp, Cube];
pub const MILD: [Kind; 5] = [Sin, Atan, CosDiff, Bump, Lin];
pub const NASTY: [Kind; 9] = [Sqrt, Ln, Recip, BigExp, Abs, Step, NanAbove, InfAbove, Pole];

impl Term {
    pub fn new(c: f64, k: Kind, i: usize, j: usize) -> Self {
        Term { c, k, i, j }
    }
    pub fn val(&self, x: &[f64]) -> f64 {
        let a = x[self.i];
        let b = x[self.j];
        self.c
            * match self.k {
                Const => 1.0,
                Lin => a,
                Quad => a * b,
                Cube => a * a * a,
                Sin => a.sin(),
                CosDiff => (a - b).cos(),
                Exp => (0.5 * a).exp(),
                Atan => a.atan(),
                Bump => 1.0 / (1.0 + a * a),
                Sqrt => a.sqrt(),
                Ln => a.ln(),
                Recip => 1.0 / a,
                BigExp => (40.0 * a).exp(),
                Abs => a.abs(),
                Step => {
                    if a > 1.0 {
                        1.0
                    } else {
                        -1.0
                    }
                }
                NanAbove => {
                    if a > 1.0 {
                        f64::NAN
                    } else {
                        a
                    }
                }
                InfAbove => {
                    if a > 1.0 {
                        f64::INFINITY
                    } else {
                        a
                    }
                }
                Pole => 1.0 / (a - b),
            }
    }
    /// derivative along x_p
    pub fn der(&self, x: &[f64], p: usize) -> f64 {
        let a = x[self.i];
        let b = x[self.j];
        let di = if self.i == p { 1.0 } else { 0.0 };
        let dj = if self.j == p { 1.0 } else { 0.0 };
        if di == 0.0 && (dj == 0.0 || !matches!(self.k, Quad | CosDiff | Pole)) {
            return 0.0;
        }
        self.c
            * match self.k {
                Const => 0.0,
                Lin => di,
                Quad => di * b + dj * a,
                Cube => 3.0 * a * a * di,
                Sin => a.cos() * di,
                CosDiff => -(a - b).sin() * (di - dj),
                Exp => 0.5 * (0.5 * a).exp() * di,
                Atan => di / (1.0 + a * a),
                Bump => -2.0 * a * di / ((1.0 + a * a) * (1.0 + a * a)),
                Sqrt => 0.5 / a.sqrt() * di,
                Ln => di / a,
                Recip => -di / (a * a),
                BigExp => 40.0 * (40.0 * a).exp() * di,
                Abs => a.signum() * di,
                Step => 0.0,
                NanAbove => {
                    if a > 1.0 {
                        f64::NAN
                    } else {
                        di
                    }
                }
                InfAbove => {
                    if a > 1.0 {
                        f64::INFINITY
                    } else {
                        di
                    }
                }
                Pole => -(di - dj) / ((a - b) * (a - b)),
            }
    }
}

pub type Member = Vec<Term>;

fn mval(m: &Member, x: &[f64]) -> f64 {
    m.iter().map(|t| t.val(x)).sum::<f64>() + 0.0
}
fn mder(m: &Member, x: &[f64], p: usize) -> f64 {
    m.iter().map(|t| t.der(x, p)).sum::<f64>() + 0.0
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sys {
    pub n: usize,
    pub left: Vec<Member>,
    pub right: Vec<Member>,
    /// multiplies both members of each equation
    #[serde(with = "fser::many")]
    pub scale: Vec<f64>,
    /// coupling of the left members with the memory of the model
    #[serde(with = "fser::one")]
    pub mu: f64,
    /// size of the memory of the model
    pub mem: usize,
    /// the unknown each memory cell remembers (by default its own index, modulo n)
    #[serde(default)]
    pub mem_of: Vec<usize>,
    /// when not empty, the system is evaluated at x_i / unit_i
    #[serde(default, with = "fser::many")]
    pub unit: Vec<f64>,
}

impl Sys {
    pub fn mem_src(&self, j: usize) -> usize {
        if self.mem_of.is_empty() {
            j % self.n
        } else {
            self.mem_of[j % self.n]
        }
    }
    fn inner(&self, x: &[f64]) -> Vec<f64> {
        (0..self.n).map(|i| if self.unit.is_empty() { x[i] } else { x[i] / self.unit[i] }).collect()
    }
    fn du(&self, p: usize) -> f64 {
        if self.unit.is_empty() {
            1.0
        } else {
            1.0 / self.unit[p]
        }
    }
    pub fn left(&self, x: &[f64]) -> Vec<f64> {
        let x = &self.inner(x);
        (0..self.n).map(|i| self.scale[i] * mval(&self.left[i], x)).collect()
    }
    pub fn right(&self, x: &[f64]) -> Vec<f64> {
        let x = &self.inner(x);
        (0..self.n).map(|i| self.scale[i] * mval(&self.right[i], x)).collect()
    }
    pub fn dleft(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let x = &self.inner(x);
        (0..self.n).map(|i| (0..self.n).map(|p| self.scale[i] * mder(&self.left[i], x, p) * self.du(p)).collect()).collect()
    }
    pub fn dright(&self, x: &[f64]) -> Vec<Vec<f64>> {
        let x = &self.inner(x);
        (0..self.n).map(|i| (0..self.n).map(|p| self.scale[i] * mder(&self.right[i], x, p) * self.du(p)).collect()).collect()
    }

    fn blank(n: usize) -> Sys {
        Sys { n, left: vec![vec![]; n], right: vec![vec![]; n], scale: vec![1.0; n], mu: 0.0, mem: 0, mem_of: vec![], unit: vec![] }
    }

    /// Moves the right members by constants so that `root` is a root
    fn plant(&mut self, root: &[f64]) {
        let l = self.left(root);
        let r = self.right(root);
        for i in 0..self.n {
            self.right[i].push(Term::new(l[i] - r[i], Const, 0, 0));
        }
    }

    /// Diagonally dominant system with the given root: well conditioned everywhere near it.
    /// `curve` bounds the coefficients of the non linear terms, `off` the one of the linear coupling.
    pub fn near_root(u: &mut Src, n: usize, root: &[f64], curve: f64, off: f64) -> Sys {
        let mut s = Sys::blank(n);
        // unknown driving each equation: a permutation
        let mut perm: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = i - u.below(i + 1).min(i);
            perm.swap(i, j);
        }
        for i in 0..n {
            let d = u.f(1.0, 4.0) * if u.chance(1, 3) { -1.0 } else { 1.0 };
            s.left[i].push(Term::new(d, Lin, perm[i], perm[i]));
            let terms = u.below(4);
            for _ in 0..terms {
                let k = u.pick(&MILD);
                let c = match k {
                    Lin => u.f(-off, off) / n as f64,
                    _ => u.f(-curve, curve) / n as f64,
                };
                let t = Term::new(c, k, u.below(n), u.below(n));
                if u.chance(1, 2) {
                    s.right[i].push(t)
                } else {
                    s.left[i].push(t)
                }
            }
            // an offset of both members, so that relative normalizations are well defined
            if u.chance(1, 2) {
                let c = u.f(-20.0, 20.0);
                s.left[i].push(Term::new(c, Const, 0, 0));
            }
        }
        s.plant(root);
        s
    }

    /// Arbitrary smooth system, no root guaranteed
    pub fn smooth(u: &mut Src, n: usize) -> Sys {
        let mut s = Sys::blank(n);
        for i in 0..n {
            let terms = u.range(1, 4);
            s.left[i].push(Term::new(u.f(-3.0, 3.0), Lin, i, i));
            for t in 0..terms {
                let t = Term::new(u.f(-3.0, 3.0), u.pick(&SMOOTH), u.below(n), if t == 0 { i } else { u.below(n) });
                if u.chance(1, 3) {
                    s.right[i].push(t)
                } else {
                    s.left[i].push(t)
                }
            }
            if u.chance(1, 2) {
                s.right[i].push(Term::new(u.f(-10.0, 10.0), Const, 0, 0));
            }
        }
        s
    }

    /// Far from the root, Newton overshoots: atan, sine and cubic terms dominate
    pub fn wobbly(u: &mut Src, n: usize) -> Sys {
        let mut s = Sys::blank(n);
        for i in 0..n {
            let k = u.pick(&[Atan, Sin, Cube, Bump, Exp, CosDiff]);
            s.left[i].push(Term::new(u.f(1.0, 5.0), k, i, (i + 1) % n));
            if u.chance(1, 2) {
                s.left[i].push(Term::new(u.f(-0.5, 0.5), Lin, i, i));
            }
            let extra = u.below(3);
            for _ in 0..extra {
                let t = Term::new(u.f(-1.0, 1.0), u.pick(&SMOOTH), u.below(n), u.below(n));
                s.right[i].push(t);
            }
            if u.chance(1, 2) {
                s.right[i].push(Term::new(u.f(-2.0, 2.0), Const, 0, 0));
            }
        }
        s
    }

    pub fn affine(u: &mut Src, n: usize, root: &[f64], dominant: bool) -> Sys {
        let mut s = Sys::blank(n);
        for i in 0..n {
            for j in 0..n {
                let c = if i == j && dominant {
                    u.f(1.0, 4.0) * if u.chance(1, 3) { -1.0 } else { 1.0 }
                } else if dominant {
                    u.f(-1.0, 1.0) * 0.8 / n as f64
                } else {
                    u.f(-3.0, 3.0)
                };
                let t = Term::new(c, Lin, j, j);
                if u.chance(1, 4) {
                    s.right[i].push(Term { c: -c, ..t })
                } else {
                    s.left[i].push(t)
                }
            }
            if u.chance(1, 2) {
                let c = u.f(-20.0, 20.0);
                s.left[i].push(Term::new(c, Const, 0, 0));
            }
        }
        s.plant(root);
        s
    }

    /// Affine system whose matrix is structured (see `structured`), made of small integers
    pub fn affine_structured(u: &mut Src, n: usize, root: &[f64]) -> Sys {
        let mut s = Sys::blank(n);
        let a = structured(u, n, 4);
        let boost = if u.chance(1, 2) { 5.0 } else { 0.0 };
        for i in 0..n {
            let side = u.below(3);
            for j in 0..n {
                let c = a[i][j] + if i == j { boost } else { 0.0 };
                if c == 0.0 {
                    continue;
                }
                if side == 2 && j != i {
                    s.right[i].push(Term::new(-c, Lin, j, j));
                } else {
                    s.left[i].push(Term::new(c, Lin, j, j));
                }
            }
        }
        s.plant(root);
        s
    }

    /// Small integers (all the values met near are exact) and structured matrices: symmetric,
    /// triangular, sparse, permutation, repeated lines, equal or opposite members
    pub fn lattice(u: &mut Src, n: usize, root: &[f64]) -> Sys {
        let mut s = Sys::blank(n);
        let mut a = structured(u, n, 3);
        if u.chance(1, 2) {
            for (i, r) in a.iter_mut().enumerate() {
                r[i] += if r[i] < 0.0 { -4.0 } else { 4.0 };
            }
        }
        for i in 0..n {
            let side = u.below(4);
            for j in 0..n {
                let c = a[i][j];
                if c == 0.0 {
                    continue;
                }
                let right = match side {
                    0 | 1 => false,
                    2 => j > i,
                    _ => j != i,
                };
                if right {
                    s.right[i].push(Term::new(-c, Lin, j, j));
                } else {
                    s.left[i].push(Term::new(c, Lin, j, j));
                }
            }
            match u.below(8) {
                0..=3 => (),
                4 => s.left[i].push(Term::new(1.0, Quad, i, u.below(n))),
                5 => s.left[i].push(Term::new(1.0, Quad, u.below(n), u.below(n))),
                6 => s.right[i].push(Term::new(1.0, Quad, u.below(n), i)),
                _ => s.left[i].push(Term::new(0.5, Cube, i, 0)),
            }
        }
        s.plant(root);
        for i in 0..n {
            match u.below(8) {
                // a right member equal to 0
                0 | 1 => {
                    let r = std::mem::take(&mut s.right[i]);
                    s.left[i].extend(r.into_iter().map(|t| Term { c: -t.c, ..t }));
                }
                // opposite members: their sum vanishes everywhere
                2 => {
                    let r = std::mem::take(&mut s.right[i]);
                    s.left[i].extend(r.into_iter().map(|t| Term { c: -t.c, ..t }));
                    s.left[i].iter_mut().for_each(|t| t.c *= 0.5);
                    s.right[i] = s.left[i].iter().map(|t| Term { c: -t.c, ..t.clone() }).collect();
                }
                _ => (),
            }
        }
        s
    }

    /// Rounds the coefficients to halves, without cancelling any
    pub fn snap(&mut self) {
        for t in self.left.iter_mut().chain(self.right.iter_mut()).flatten() {
            if t.c.is_finite() && t.c.abs() < 1e6 && t.c != 0.0 {
                let r = (t.c * 2.0).round() * 0.5;
                t.c = if r == 0.0 { 0.5 * t.c.signum() } else { r };
            }
        }
        for s in self.scale.iter_mut() {
            *s = s.log2().round().exp2();
        }
    }

    pub fn nasty(u: &mut Src, n: usize) -> Sys {
        let mut s = if u.chance(1, 2) { Sys::smooth(u, n) } else { Sys::wobbly(u, n) };
        let count = u.range(1, 3);
        for _ in 0..count {
            let i = u.below(n);
            let t = Term::new(if u.chance(1, 8) { u.wild() } else { u.f(-2.0, 2.0) }, u.pick(&NASTY), u.below(n), u.below(n));
            if u.chance(1, 3) {
                s.right[i].push(t)
            } else {
                s.left[i].push(t)
            }
        }
        if u.chance(1, 4) {
            // a degenerate equation
            let i = u.below(n);
            match u.below(4) {
                0 => s.left[i].clear(),
                1 => {
                    s.left[i].clear();
                    s.right[i].clear();
                }
                2 => {
                    let j = u.below(n);
                    s.left[i] = s.left[j].clone();
                    s.right[i] = s.right[j].clone();
                }
                _ => {
                    s.left[i] = vec![Term::new(u.wild(), Const, 0, 0)];
                }
            }
        }
        s
    }
}

/// Renumbers the unknowns: unknown i becomes unknown perm[i]
pub fn rename(m: &Member, perm: &[usize]) -> Member {
    m.iter().map(|t| Term { i: perm[t.i], j: perm[t.j], ..t.clone() }).collect()
}

/// Structured matrix of small integers
pub fn structured(u: &mut Src, n: usize, big: i64) -> Vec<Vec<f64>> {
    let mut a = vec![vec![0.0; n]; n];
    let mut int = |u: &mut Src| u.below(2 * big as usize + 1) as f64 - big as f64;
    let kind = u.below(8);
    for i in 0..n {
        for j in 0..n {
            a[i][j] = int(u);
        }
    }
    for i in 0..n {
        for j in 0..n {
            match kind {
                0 => (),
                1 => {
                    if j < i {
                        a[i][j] = a[j][i] // symmetric
                    }
                }
                2 => {
                    if j < i {
                        a[i][j] = 0.0 // upper triangular
                    }
                }
                3 => {
                    if j > i {
                        a[i][j] = 0.0 // lower triangular
                    }
                }
                4 => {
                    // sparse
                    if u.chance(1, 2) {
                        a[i][j] = 0.0
                    }
                }
                5 => {
                    if i + 1 == n && n > 1 {
                        a[i][j] = a[0][j] + if j == 0 { 1.0 } else { 0.0 } // nearly repeated rows
                    }
                }
                6 => {
                    // symmetric but for a corner
                    if j < i && !(i + 1 == n && j + 2 == n) {
                        a[i][j] = a[j][i]
                    }
                }
                _ => {
                    // first line equal to the first column only
                    if j == 0 {
                        a[i][0] = a[0][i]
                    }
                }
            }
        }
    }
    if u.chance(1, 6) {
        // permuted rows
        for i in (1..n).rev() {
            let j = u.below(i + 1);
            a.swap(i, j);
        }
    }
    a
}
