//! Gaussian processes and support vector machines: arbitrary kernels (a table of values per pair of points)
use crate::util::*;
use rm::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rm::learning::svm::SVM;
use rm::learning::toolkit::kernel::{Kernel, SquaredExp};
use rm::learning::SupModel;
use std::cell::RefCell;

/// k(a, b) for points identified by their first (offset 0) or second (offset 1) coordinate;
/// the other coordinate must be that of the point
struct Table {
    off: usize,
    pts: Vec<Vec<f64>>,
    k: Vec<Vec<f64>>,
}
impl Table {
    fn id(&self, a: &[f64]) -> usize {
        hx::check_true("the kernel is given whole points", a.len() == self.pts[0].len() + self.off);
        if self.off == 1 {
            hx::check_eq("an intercept is put in front of the inputs", a[0], 1.0);
        }
        for i in 0..self.pts.len() {
            if a[self.off] == self.pts[i][0] {
                check_vec("the kernel is given the points of the inputs", &a[self.off..], &self.pts[i]);
                return i;
            }
        }
        hx::check_true("the kernel is given the points of the inputs", false);
        0
    }
}
impl Kernel for Table {
    fn kernel(&self, a: &[f64], b: &[f64]) -> f64 {
        self.k[self.id(a)][self.id(b)]
    }
}
/// points 0..n with a symbolic second coordinate
fn points(n: usize) -> Vec<Vec<f64>> {
    (0..n).map(|i| vec![i as f64, hx::var(&format!("z{}", i))]).collect()
}
fn mat(pts: &[Vec<f64>]) -> Matrix<f64> {
    Matrix::new(pts.len(), pts[0].len(), pts.iter().flat_map(|r| r.clone()).collect::<Vec<_>>())
}
struct Mean(Vec<f64>);
impl MeanFunc for Mean {
    fn func(&self, x: Matrix<f64>) -> Vector<f64> {
        Vector::new((0..x.rows()).map(|i| (0..self.0.len()).find(|k| x[[i, 0]] == *k as f64).map(|k| self.0[k]).unwrap()).collect::<Vec<_>>())
    }
}
/// the Gaussian process posterior, by cofactors
pub fn gp() {
    let (n, m) = (p("n"), p("m"));
    let pts = points(n + m);
    let mut k = vec![vec![0.0; n + m]; n + m];
    for i in 0..n + m {
        for j in 0..=i {
            let v = hx::var(&format!("k{}_{}", i, j));
            k[i][j] = v;
            k[j][i] = v;
        }
    }
    let noise = hx::var("noise");
    hx::assume(hx::ge(noise, 0.0));
    let mean = vvec("m", n + m);
    let y = vvec("y", n);
    let (x, u) = (mat(&pts[..n]), mat(&pts[n..]));
    let mut g = GaussianProcess::new(Table { off: 0, pts: pts.clone(), k: k.clone() }, Mean(mean.clone()), noise);
    hx::check_true("untrained: predict is an error", g.predict(&u).is_err());
    hx::check_true("untrained: get_posterior is an error", g.get_posterior(&u).is_err());
    // K + noise I
    let a: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if i == j { k[i][j] + noise } else { k[i][j] }).collect()).collect();
    let (det, adj): (f64, Vec<Vec<f64>>) = match n {
        1 => (a[0][0], vec![vec![1.0]]),
        2 => (a[0][0] * a[1][1] - a[0][1] * a[1][0], vec![vec![a[1][1], -a[0][1]], vec![-a[1][0], a[0][0]]]),
        _ => {
            let c = |i: usize, j: usize| {
                let r: Vec<usize> = (0..3).filter(|t| *t != i).collect();
                let s: Vec<usize> = (0..3).filter(|t| *t != j).collect();
                let v = a[r[0]][s[0]] * a[r[1]][s[1]] - a[r[0]][s[1]] * a[r[1]][s[0]];
                if (i + j) % 2 == 0 {
                    v
                } else {
                    -v
                }
            };
            (a[0][0] * c(0, 0) + a[0][1] * c(0, 1) + a[0][2] * c(0, 2), (0..3).map(|i| (0..3).map(|j| c(j, i)).collect()).collect())
        }
    };
    let mut pd = vec![hx::gt(a[0][0], 0.0)];
    if n >= 2 {
        pd.push(hx::gt(a[0][0] * a[1][1] - a[0][1] * a[1][0], 0.0));
    }
    if n >= 3 {
        pd.push(hx::gt(det, 0.0));
    }
    let pd = hx::all(&pd);
    let r = g.train(&x, &Vector::new(y.clone()));
    if r.is_err() {
        hx::check("training fails only if the kernel matrix with noise is not positive definite", hx::not(pd));
        hx::cover("rejected");
        return;
    }
    hx::check("training fails if the kernel matrix with noise is not positive definite", pd);
    let (pm, pv) = g.get_posterior(&u).expect("posterior");
    let pr = g.predict(&u).expect("prediction");
    hx::check_true("one mean per point", pm.size() == m && pr.size() == m);
    if !check_shape("one covariance per pair of points", &pv, m, m) {
        return;
    }
    for i in 0..m {
        // k*^T adj (y - mean) = det (posterior mean - mean)
        let mut s = 0.0;
        for a in 0..n {
            for b in 0..n {
                s = s + k[n + i][a] * adj[a][b] * (y[b] - mean[b]);
            }
        }
        hx::check_eq("posterior mean = m + k*(K + noise I)^-1 (y - m)", (pr[i] - mean[n + i]) * det, s);
        hx::check_eq("get_posterior and predict agree on the mean", pm[i], pr[i]);
        for j in 0..m {
            let mut s = 0.0;
            for a in 0..n {
                for b in 0..n {
                    s = s + k[n + i][a] * adj[a][b] * k[n + j][b];
                }
            }
            hx::check_eq("posterior covariance = k** - k*(K + noise I)^-1 k*", (k[n + i][n + j] - pv[[i, j]]) * det, s);
        }
    }
    hx::check_true("points with a wrong number of columns are an error", g.predict(&Matrix::zeros(1, 3)).is_err() && g.get_posterior(&Matrix::zeros(1, 3)).is_err());
    hx::cover("trained");
}
/// many training points: K + noise I = L L^T for a given L, arbitrary targets and kernel values of the new points
pub fn gp_big() {
    let (n, m) = (p("n"), p("m"));
    let pts = points(n + m);
    let noise = 0.5;
    let l: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| if j > i { 0.0 } else if i == j { 1.0 + (i % 3) as f64 } else { ((3 * i + 5 * j) % 7) as f64 / 2.0 - 1.5 }).collect()).collect();
    let (c, s) = (vmat("c", m, n), vmat("s", m, m));
    let mut k = vec![vec![0.0; n + m]; n + m];
    for i in 0..n + m {
        for j in 0..=i {
            let v = if i >= n && j >= n { s[[i - n, j - n]] } else if i >= n { c[[i - n, j]] } else { dot(&l[i], &l[j]) - if i == j { noise } else { 0.0 } };
            k[i][j] = v;
            k[j][i] = v;
        }
    }
    let mean = vvec("m", n + m);
    let y = vvec("y", n);
    let (x, u) = (mat(&pts[..n]), mat(&pts[n..]));
    let mut g = GaussianProcess::new(Table { off: 0, pts: pts.clone(), k: k.clone() }, Mean(mean.clone()), noise);
    g.train(&x, &Vector::new(y.clone())).expect("a positive definite matrix is accepted");
    // L^-1 v
    let inv = |v: &[f64]| {
        let mut r: Vec<f64> = vec![];
        for i in 0..n {
            let mut t = v[i];
            for j in 0..i {
                t = t - l[i][j] * r[j];
            }
            r.push(t / l[i][i]);
        }
        r
    };
    let (pm, pv) = g.get_posterior(&u).expect("posterior");
    let pr = g.predict(&u).expect("prediction");
    hx::check_true("one mean per point", pm.size() == m && pr.size() == m);
    if !check_shape("one covariance per pair of points", &pv, m, m) {
        return;
    }
    let d = inv(&(0..n).map(|i| y[i] - mean[i]).collect::<Vec<_>>());
    let cs: Vec<Vec<f64>> = (0..m).map(|i| inv(&row(&c, i))).collect();
    for i in 0..m {
        hx::check_eq("posterior mean = m + k*(K + noise I)^-1 (y - m)", pr[i] - mean[n + i], dot(&cs[i], &d));
        hx::check_eq("get_posterior and predict agree on the mean", pm[i], pr[i]);
        for j in 0..m {
            hx::check_eq("posterior covariance = k** - k*(K + noise I)^-1 k*", k[n + i][n + j] - pv[[i, j]], dot(&cs[i], &cs[j]));
        }
    }
    hx::cover("end");
}
/// the built-in mean function is constant (zero), and the default noise is zero: the data are interpolated
pub fn gp_default() {
    let x = vmat("x", 2, 1);
    let y = vvec("y", 2);
    let c = ConstMean::default().func(x.clone());
    check_vec("the default mean is zero", c.data(), &[0.0, 0.0]);
    hx::assume(hx::gt(x[[1, 0]] - x[[0, 0]], 0.01));
    let mut g = GaussianProcess::default();
    match g.train(&x, &Vector::new(y.clone())) {
        Ok(_) => {
            let o = g.predict(&x).expect("prediction");
            check_vec("without noise the targets are interpolated", o.data(), &y);
            hx::cover("end");
        }
        Err(_) => hx::check_true("distinct points are accepted", false),
    }
}
/// kernelised Pegasos
pub fn svm() {
    let (n, iters) = (p("n"), p("iters"));
    let long = iters > 4;
    let apart = optional("apart").is_some();
    let pts = points(n + 1);
    let mut k = vec![vec![0.0; n + 1]; n + 1];
    for i in 0..n + 1 {
        for j in 0..=i {
            // long: fixed values, but for two
            let fixed = (((i * 7 + j * 5 + i * j) % 9) as f64 - if i == j { 0.0 } else { 4.0 }) / 4.0;
            // apart: two classes that one step learns, and a last sample that has nothing to do with the others but decides
            let fixed = match (apart, i == n - 1 || j == n - 1, i == n) {
                (false, _, _) => fixed,
                (_, false, false) => if (p("y") >> i ^ p("y") >> j) & 1 == 1 { -1.0 } else { 1.0 },
                (_, true, false) => if i == j { 1.0 } else { 0.0 },
                (_, false, true) => if (p("y") >> j) & 1 == 1 { 0.5 } else { -0.5 },
                (_, true, true) => if (p("y") >> j) & 1 == 1 { 1000.0 } else { -1000.0 },
            };
            let v = if long && !(i == n && j == 1) && (apart || !(i == 1 && j == 0)) { fixed } else { hx::var(&format!("k{}_{}", i, j)) };
            k[i][j] = v;
            k[j][i] = v;
        }
    }
    let y: Vec<f64> = (0..n).map(|i| if (p("y") >> i) & 1 == 1 { 1.0 } else { -1.0 }).collect();
    let lambda = if apart { 1.0 / 256.0 } else if long { 0.125 } else { hx::var_pos("lambda") };
    let mut s = SVM::new(Table { off: 1, pts: pts.clone(), k: k.clone() }, lambda);
    s.optim_iters = iters;
    let (x, u) = (mat(&pts[..n]), mat(&pts[n..]));
    hx::check_true("untrained: predict is an error", s.predict(&u).is_err());
    if long {
        rand::draws::mixed_below(if apart { n - 1 } else { n }, n + iters, 2, if apart { iters - 2 } else { iters / 2 });
    } else {
        rand::draws::free();
    }
    s.train(&x, &Vector::new(y.clone())).expect("training");
    hx::check_true("one sample is drawn per iteration", rand::draws::count() == iters);
    // the steps, for the samples that were drawn
    let mut alpha = vec![0.0; n];
    for t in 0..iters {
        let i = rand::draws::value(t);
        hx::cover(&format!("sample {} at step {}", i, t + 1));
        let mut f = 0.0;
        for j in 0..n {
            f = f + alpha[j] * y[j] * k[i][j];
        }
        if hx::decide(hx::lt(y[i] * f / (lambda * (t + 1) as f64), 1.0)) {
            alpha[i] = alpha[i] + 1.0;
        }
    }
    let mut f = 0.0;
    for j in 0..n {
        f = f + alpha[j] * y[j] * k[n][j];
    }
    let o = s.predict(&u).expect("prediction");
    hx::check_true("one prediction per point", o.size() == 1);
    hx::check("prediction is 1 where the decision value is positive", hx::implies(hx::gt(f, 0.0), hx::eq(o[0], 1.0)));
    hx::check("prediction is -1 where the decision value is negative", hx::implies(hx::lt(f, 0.0), hx::eq(o[0], -1.0)));
    hx::check_true("points with a wrong number of columns are an error", s.predict(&vmat("w", 1, 3)).is_err());
    hx::cover("end");
}
