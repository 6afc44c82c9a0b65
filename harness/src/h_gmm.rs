//! Gaussian mixtures
use crate::util::*;
use rm::learning::gmm::{CovOption, GaussianMixtureModel};
use rm::learning::UnSupModel;

fn option(f: usize) -> CovOption {
    match f {
        0 => CovOption::Full,
        1 => CovOption::Regularized(hx::var_pos("eps")),
        _ => CovOption::Diagonal,
    }
}
struct State {
    w: Vec<f64>,
    mu: Matrix<f64>,
    cov: Vec<Matrix<f64>>,
}
fn state(m: &GaussianMixtureModel) -> State {
    State { w: m.mixture_weights().data().clone(), mu: m.means().expect("means").clone(), cov: m.covariances().expect("covariances").clone() }
}
/// the weighted densities at x, up to a common factor
fn density(s: &State, x: &[f64]) -> Vec<f64> {
    let d = x.len();
    let mut f = vec![];
    for k in 0..s.w.len() {
        let c = &s.cov[k];
        let v: Vec<f64> = (0..d).map(|j| x[j] - s.mu[[k, j]]).collect();
        let (det, q) = if d == 1 {
            (c[[0, 0]], v[0] * v[0] / c[[0, 0]])
        } else {
            let det = c[[0, 0]] * c[[1, 1]] - c[[0, 1]] * c[[1, 0]];
            (det, (v[0] * v[0] * c[[1, 1]] - v[0] * v[1] * (c[[0, 1]] + c[[1, 0]]) + v[1] * v[1] * c[[0, 0]]) / det)
        };
        f.push(s.w[k] * (q * -0.5).exp() / det.sqrt());
    }
    if !hx::SYMBOLIC {
        // the densities of far away points underflow in f64, which the statement leaves out
        hx::assume(hx::gt(sum(&f), 1e-250));
    }
    f
}
fn shares(f: &[f64]) -> Vec<f64> {
    let t = sum(f);
    f.iter().map(|v| *v / t).collect()
}
fn log_lik(s: &State, x: &Matrix<f64>) -> f64 {
    let mut t = 0.0;
    for i in 0..x.rows() {
        t = t + sum(&density(s, &row(x, i))).ln();
    }
    t
}
fn fit(iters: usize, x: &Matrix<f64>, f: usize, k: usize, w: &Option<Vec<f64>>, code: usize) -> Option<GaussianMixtureModel> {
    let mut m = match *w {
        None => GaussianMixtureModel::new(k),
        Some(ref w) => GaussianMixtureModel::with_weights(k, Vector::new(w.clone())).expect("weights"),
    };
    m.set_max_iters(iters);
    m.cov_option = option(f);
    rand::draws::digits_of(code);
    match m.train(x) {
        Ok(_) => Some(m),
        Err(_) => None,
    }
}
/// f: covariance option; n samples, d columns, k components; code: the draws
pub fn gmm() {
    let (f, n, d, k, it) = (p("f"), p("n"), p("d"), p("k"), p("it"));
    let x = vmat("x", n, d);
    let w = if p("w") == 1 { Some(vpos("w", k)) } else { None };
    let u = vmat("u", 1, d);
    // more than one value in every column, and columns that are not proportional (when the covariance is full)
    let spread: Vec<_> = (0..d).map(|j| hx::any(&(1..n).map(|i| hx::ne(x[[i, j]], x[[0, j]])).collect::<Vec<_>>())).collect();
    if f != 1 {
        hx::assume(hx::all(&spread));
    }
    let a = match fit(it, &x, f, k, &w, p("code")) {
        Some(m) => m,
        None => {
            hx::check_true("data in general position is accepted", f == 0 && d > 1);
            return;
        }
    };
    let s = state(&a);
    if s.w.len() != k || s.mu.rows() != k || s.cov.len() != k {
        hx::check_true("one weight, mean and covariance per component", false);
        return;
    }
    if it == 0 {
        // the means are rows of the data
        for c in 0..k {
            hx::check("initial means are rows of the data", hx::any(&(0..n).map(|i| hx::all(&(0..d).map(|j| hx::eq(s.mu[[c, j]], x[[i, j]])).collect::<Vec<_>>())).collect::<Vec<_>>()));
            if let Some(ref w) = w {
                hx::check_eq("initial weights are the given ones, normalised", s.w[c] * sum(w), w[c]);
            } else {
                hx::check_eq("initial weights are equal", s.w[c] * k as f64, 1.0);
            }
            // the sample covariance
            if f != 2 {
                for i in 0..d {
                    for j in 0..d {
                        let (mi, mj) = (sum(&col(&x, i)) / n as f64, sum(&col(&x, j)) / n as f64);
                        let mut t = 0.0;
                        for r in 0..n {
                            t = t + (x[[r, i]] - mi) * (x[[r, j]] - mj);
                        }
                        t = t / (n - 1) as f64;
                        if i == j && f == 1 {
                            t = t + hx::var_pos("eps");
                        }
                        hx::check_eq("initial covariances are the sample covariance", s.cov[c][[i, j]], t);
                    }
                }
            }
        }
        let r = match a.predict(&u) {
            Ok(r) => r,
            Err(_) => {
                hx::check_true("prediction succeeds for covariances that are not singular", f == 0 && d > 1);
                return;
            }
        };
        if check_shape("one row of weights per sample", &r, 1, k) {
            let want = shares(&density(&s, &row(&u, 0)));
            for c in 0..k {
                hx::check_eq("prediction is the posterior probability of every component", r[[0, c]], want[c]);
                hx::check("posterior probabilities are not negative", hx::ge(r[[0, c]], 0.0));
            }
            hx::check_eq("posterior probabilities sum to 1", sum(r.data()), 1.0);
            hx::cover("end");
        }
        return;
    }
    // one step of expectation maximisation from the state one iteration earlier
    let b = match fit(it - 1, &x, f, k, &w, p("code")) {
        Some(m) => state(&m),
        None => return,
    };
    if it >= 2 {
        if let Some(m) = fit(it - 2, &x, f, k, &w, p("code")) {
            let g = log_lik(&b, &x) - log_lik(&state(&m), &x);
            if hx::decide(hx::and(hx::lt(g, 1e-15), hx::gt(g, -1e-15))) {
                for c in 0..k {
                    hx::check_eq("nothing changes once the likelihood no longer changes", s.w[c], b.w[c]);
                    check_vec("nothing changes once the likelihood no longer changes", &row(&s.mu, c), &row(&b.mu, c));
                    check_mat("nothing changes once the likelihood no longer changes", &s.cov[c], &b.cov[c]);
                }
                hx::cover("converged");
                return;
            }
        }
    }
    let e: Vec<Vec<f64>> = (0..n).map(|i| shares(&density(&b, &row(&x, i)))).collect();
    let mut total = 0.0;
    for c in 0..k {
        let mut nk = 0.0;
        for i in 0..n {
            nk = nk + e[i][c];
        }
        hx::check_eq("weights are the mean membership", s.w[c] * n as f64, nk);
        total = total + s.w[c];
        for j in 0..d {
            let mut t = 0.0;
            for i in 0..n {
                t = t + e[i][c] * x[[i, j]];
            }
            hx::check_eq("means are the weighted means", s.mu[[c, j]] * nk, t);
        }
        for j in 0..d {
            for l in 0..d {
                let mut t = 0.0;
                for i in 0..n {
                    t = t + e[i][c] * (x[[i, j]] - s.mu[[c, j]]) * (x[[i, l]] - s.mu[[c, l]]);
                }
                if f == 2 && j != l {
                    t = 0.0;
                }
                if f == 1 && j == l {
                    t = t + nk * hx::var_pos("eps");
                }
                hx::check_eq("covariances are the weighted covariances", s.cov[c][[j, l]] * nk, t);
            }
        }
    }
    hx::check_eq("weights sum to 1", total, 1.0);
    hx::cover("end");
}
pub fn gmm_refused() {
    let k = 2;
    let w = vvec("w", k);
    let ok = hx::decide(hx::all(&w.iter().map(|x| hx::ge(*x, 0.0)).collect::<Vec<_>>()));
    let zero = hx::decide(hx::all(&w.iter().map(|x| hx::eq(*x, 0.0)).collect::<Vec<_>>()));
    match GaussianMixtureModel::with_weights(k, Vector::new(w.clone())) {
        Ok(m) => {
            hx::check_true("negative weights, or only zero weights, are an error", ok && !zero);
            for c in 0..k {
                hx::check_eq("weights are normalised", m.mixture_weights()[c] * sum(&w), w[c]);
            }
            hx::check_true("untrained: no means or covariances", m.means().is_none() && m.covariances().is_none());
            hx::cover("accepted");
        }
        Err(_) => {
            hx::check_true("non-negative weights are accepted", !ok || zero);
            hx::cover("refused");
        }
    }
    hx::check_true("a wrong number of weights is an error", GaussianMixtureModel::with_weights(3, Vector::new(vpos("v", 2))).is_err());
    let mut m = GaussianMixtureModel::new(1);
    hx::check_true("untrained: predict is an error", m.predict(&vmat("x", 2, 1)).is_err());
    hx::check_true("a single row is an error", m.train(&vmat("x", 1, 2)).is_err());
    // a constant column: the covariance is singular
    let a = hx::var("a");
    let x = Matrix::from_fn(3, 2, |j, i| if j == 0 { hx::var(&format!("c{}", i)) } else { a });
    hx::check_true("data with a singular covariance is an error", m.train(&x).is_err());
}
