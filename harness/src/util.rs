//! shared helpers of the harnesses
pub use rm::linalg::{Axes, BaseMatrix, BaseMatrixMut, Matrix, Vector};
pub use symx::hx;
pub use symx::hx::B;

/// with mix=k only k entries of every matrix and vector are arbitrary, the others are fixed values
pub fn optional(name: &str) -> Option<usize> {
    let key = format!("{}=", name);
    for a in std::env::args() {
        if let Some(v) = a.strip_prefix(&key[..]) {
            return v.parse().ok();
        }
    }
    None
}
fn scramble(name: &str, t: usize) -> usize {
    let mut h: u64 = 1469598103934665603 + 97 * t as u64;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(1099511628211);
    }
    h ^= h >> 29;
    h = h.wrapping_mul(13787848793156543929);
    h ^= h >> 32;
    (h % 1000003) as usize
}
fn entries(name: &str, n: usize, pos: bool, id: &dyn Fn(usize) -> String) -> Vec<f64> {
    let free: Option<Vec<usize>> = optional(&format!("mix_{}", name)[..]).or(optional("mix")).map(|k| (0..k).map(|t| scramble(name, t) % n.max(1)).collect());
    // the fixed values: within [-4, 4], (0, 1], {0, 1} or {0, 1, 2}
    let vals = optional("vals").unwrap_or(0);
    (0..n)
        .map(|i| match free {
            Some(ref f) if !f.contains(&i) => {
                let v = scramble(&id(i), 7) % 512 + 1;
                if vals == 1 {
                    v as f64 / 512.0
                } else if vals >= 2 {
                    (v / 3 % vals) as f64
                } else if pos {
                    v as f64 / 64.0
                } else {
                    v as f64 / 64.0 - 4.0
                }
            }
            _ if pos => hx::var_pos(&id(i)),
            _ => hx::var(&id(i)),
        })
        .collect()
}
/// r x c matrix of named inputs
pub fn vmat(name: &str, r: usize, c: usize) -> Matrix<f64> {
    Matrix::new(r, c, entries(name, r * c, false, &|i| format!("{}{}_{}", name, i / c, i % c)))
}
pub fn vvec(name: &str, n: usize) -> Vec<f64> {
    entries(name, n, false, &|i| format!("{}{}", name, i))
}
pub fn vpos(name: &str, n: usize) -> Vec<f64> {
    entries(name, n, true, &|i| format!("{}{}", name, i))
}
pub fn p(name: &str) -> usize {
    hx::param(name)
}
pub fn sum(v: &[f64]) -> f64 {
    let mut s = 0.0;
    for x in v {
        s = s + *x;
    }
    s
}
pub fn dot(a: &[f64], b: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
pub fn sqd(a: &[f64], b: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() {
        s = s + (a[i] - b[i]) * (a[i] - b[i]);
    }
    s
}
pub fn row(m: &Matrix<f64>, i: usize) -> Vec<f64> {
    (0..m.cols()).map(|j| m[[i, j]]).collect()
}
pub fn col(m: &Matrix<f64>, j: usize) -> Vec<f64> {
    (0..m.rows()).map(|i| m[[i, j]]).collect()
}
pub fn check_shape(label: &str, m: &Matrix<f64>, r: usize, c: usize) -> bool {
    let ok = m.rows() == r && m.cols() == c;
    hx::check_true(label, ok);
    ok
}
pub fn check_mat(label: &str, a: &Matrix<f64>, b: &Matrix<f64>) {
    if !check_shape(&format!("{} (shape)", label), a, b.rows(), b.cols()) {
        return;
    }
    for i in 0..a.rows() {
        for j in 0..a.cols() {
            hx::check_eq(label, a[[i, j]], b[[i, j]]);
        }
    }
}
pub fn check_vec(label: &str, a: &[f64], b: &[f64]) {
    hx::check_true(&format!("{} (length)", label), a.len() == b.len());
    if a.len() != b.len() {
        return;
    }
    for i in 0..a.len() {
        hx::check_eq(label, a[i], b[i]);
    }
}
/// |a - b| <= tol
pub fn check_near(label: &str, a: f64, b: f64, tol: f64) {
    hx::check(label, hx::and(hx::le(a - b, tol), hx::le(b - a, tol)));
}
pub fn is_nan(x: f64) -> bool {
    x != x
}
/// g is the derivative of f at those of xs that are arbitrary
pub fn check_gradient(label: &str, g: &[f64], xs: &[f64], f: &dyn Fn(&[f64]) -> f64) {
    hx::check_true(&format!("{} (length)", label), g.len() == xs.len());
    for (i, d) in hx::grad_free(xs, f).into_iter().enumerate() {
        if let Some(d) = d {
            if i < g.len() {
                hx::check_eq(label, g[i], d);
            }
        }
    }
}
