//! linear and logistic regression, generalised linear models
use crate::util::*;
use rm::learning::glm::{self, Criterion, GenLinearModel, LinkFunc};
use rm::learning::lin_reg::LinRegressor;
use rm::learning::logistic_reg::LogisticRegressor;
use rm::learning::optim::{OptimAlgorithm, Optimizable};
use rm::learning::SupModel;
use std::cell::RefCell;

fn sigm(x: f64) -> f64 {
    1.0 / (1.0 + (-x).exp())
}
/// [1 | m] * b
fn affine(m: &Matrix<f64>, i: usize, b: &[f64]) -> f64 {
    b[0] + dot(&row(m, i), &b[1..])
}

// ---------------------------------------------------------------- linear regression
pub fn lin_grad() {
    let (r, c) = (p("r"), p("c"));
    let x = vmat("x", r, c);
    let y = vvec("y", r);
    let b = vvec("b", c);
    let m = LinRegressor::default();
    let (cost, g) = m.compute_grad(&b, &x, &Vector::new(y.clone()));
    let f = |b: &[f64]| {
        let mut s = 0.0;
        for i in 0..r {
            let d = dot(&row(&x, i), b) - y[i];
            s = s + d * d;
        }
        s / (2.0 * r as f64)
    };
    hx::check_eq("cost = |Xb - y|^2 / 2n", cost, f(&b));
    check_gradient("gradient = derivative of the cost", &g, &b, &|b| f(b));
    hx::cover("end");
}
pub fn lin_train() {
    let (r, c) = (p("r"), p("c"));
    let x = vmat("x", r, c);
    let y = vvec("y", r);
    let mut m = LinRegressor::default();
    hx::check_true("untrained: predict is an error", m.predict(&x).is_err());
    hx::check_true("untrained: no parameters", m.parameters().is_none());
    // rank of [1 | X]: for one feature, some two inputs differ; for square data, the determinant
    let full = if c == 1 {
        let mut v = vec![];
        for i in 1..r {
            v.push(hx::ne(x[[i, 0]], x[[0, 0]]));
        }
        Some(hx::any(&v))
    } else {
        None
    };
    match m.train(&x, &Vector::new(y.clone())) {
        Err(_) => {
            hx::cover("rejected");
            if let Some(f) = full {
                hx::check("training fails only on degenerate inputs", hx::not(f));
            }
        }
        Ok(_) => {
            hx::cover("trained");
            if let Some(f) = full {
                hx::check("degenerate inputs are rejected", f);
            }
            let b = m.parameters().expect("parameters after training").data().clone();
            hx::check_true("one coefficient per feature and an intercept", b.len() == c + 1);
            // normal equations: residuals are orthogonal to the intercept and to every feature
            let res: Vec<f64> = (0..r).map(|i| y[i] - affine(&x, i, &b)).collect();
            hx::check_eq("residuals sum to zero", sum(&res), 0.0);
            for j in 0..c {
                hx::check_eq("residuals are orthogonal to every feature", dot(&res, &col(&x, j)), 0.0);
            }
            let u = vmat("u", 2, c);
            let pr = m.predict(&u).expect("prediction");
            check_vec("prediction = intercept + x.b", pr.data(), &[affine(&u, 0, &b), affine(&u, 1, &b)]);
        }
    }
}

// ---------------------------------------------------------------- logistic regression
/// an optimiser that records what the model hands to it and returns given parameters
struct Probe {
    ret: Vec<f64>,
    at: Vec<f64>,
    seen: RefCell<Option<(Vec<f64>, Matrix<f64>, Vec<f64>)>>,
    grad: RefCell<Option<(f64, Vec<f64>)>>,
}
impl<M: Optimizable<Inputs = Matrix<f64>, Targets = Vector<f64>>> OptimAlgorithm<M> for &Probe {
    fn optimize(&self, m: &M, start: &[f64], x: &Matrix<f64>, y: &Vector<f64>) -> Vec<f64> {
        *self.seen.borrow_mut() = Some((start.to_vec(), x.clone(), y.data().clone()));
        *self.grad.borrow_mut() = Some(m.compute_grad(&self.at, x, y));
        self.ret.clone()
    }
}
pub fn logistic() {
    let (r, c) = (p("r"), p("c"));
    let x = vmat("x", r, c);
    let y = vvec("y", r);
    let b = vvec("b", c + 1);
    let at = vvec("a", c + 1);
    let pr = Probe { ret: b.clone(), at: at.clone(), seen: RefCell::new(None), grad: RefCell::new(None) };
    let mut m = LogisticRegressor::new(&pr);
    hx::check_true("untrained: predict is an error", m.predict(&x).is_err());
    hx::check_true("untrained: no parameters", m.parameters().is_none());
    m.train(&x, &Vector::new(y.clone())).expect("training");
    let (start, fx, fy) = pr.seen.borrow_mut().take().expect("the optimiser is used");
    hx::check_true("one start parameter per feature and an intercept", start.len() == c + 1);
    for s in &start {
        hx::check_finite("the start is finite", *s);
    }
    let full = Matrix::from_fn(r, c + 1, |j, i| if j == 0 { 1.0 } else { x[[i, j - 1]] });
    check_mat("the optimiser sees the inputs with an intercept column", &fx, &full);
    check_vec("the optimiser sees the targets", &fy, &y);
    let (cost, g) = pr.grad.borrow_mut().take().unwrap();
    let f = |a: &[f64]| {
        let mut s = 0.0;
        for i in 0..r {
            let o = sigm(affine(&x, i, a));
            s = s - (y[i] * o.ln() + (1.0 - y[i]) * (1.0 - o).ln());
        }
        s / (r as f64)
    };
    hx::check_eq("cost = cross entropy of the sigmoid outputs", cost, f(&at));
    check_gradient("gradient = derivative of the cost", &g, &at, &|b| f(b));
    check_vec("the parameters are what the optimiser returned", m.parameters().expect("parameters").data(), &b);
    let u = vmat("u", 2, c);
    let o = m.predict(&u).expect("prediction");
    check_vec("prediction = sigmoid(intercept + x.b)", o.data(), &[sigm(affine(&u, 0, &b)), sigm(affine(&u, 1, &b))]);
    for v in o.data().iter() {
        hx::check("predictions are probabilities", hx::and(hx::gt(*v, 0.0), hx::lt(*v, 1.0)));
    }
    hx::cover("end");
}

// ---------------------------------------------------------------- generalised linear models
pub fn glm_pieces() {
    let (y, mu) = (hx::var("y"), hx::var("mu"));
    match p("f") {
        0 => {
            let c = glm::Bernoulli;
            hx::assume(hx::and(hx::ge(y, 0.0), hx::le(y, 1.0)));
            let m0 = c.initialize_mu(&[y])[0];
            hx::check("Bernoulli: the initial mean is inside (0,1)", hx::and(hx::gt(m0, 0.0), hx::lt(m0, 1.0)));
            hx::assume(hx::and(hx::gt(mu, 0.001), hx::lt(mu, 0.999)));
            hx::check_eq("Bernoulli: variance mu (1-mu)", c.model_variance(mu), mu * (1.0 - mu));
            hx::check_eq("Bernoulli: working weight 1/(V g'^2)", c.compute_working_weight(&[mu])[0], mu * (1.0 - mu));
            check_near("Bernoulli: y bar = g'(mu) (y - mu)", c.compute_y_bar(&[y], &[mu])[0], (y - mu) / (mu * (1.0 - mu)), 1e-9);
            hx::check_eq("Bernoulli: link gradient", c.link_grad(mu), 1.0 / (mu * (1.0 - mu)));
        }
        1 => {
            let c = glm::Poisson;
            hx::assume(hx::ge(y, 0.0));
            hx::check("Poisson: the initial mean is positive", hx::gt(c.initialize_mu(&[y])[0], 0.0));
            hx::assume(hx::gt(mu, 0.0));
            hx::check_eq("Poisson: variance mu", c.model_variance(mu), mu);
            hx::check_eq("Poisson: working weight 1/(V g'^2)", c.compute_working_weight(&[mu])[0], mu);
            hx::check_eq("Poisson: y bar = g'(mu) (y - mu)", c.compute_y_bar(&[y], &[mu])[0], (y - mu) / mu);
        }
        2 => {
            let c = glm::Normal;
            hx::check_eq("Normal: variance", c.model_variance(mu), 1.0);
            hx::check_eq("Normal: working weight", c.compute_working_weight(&[mu])[0], 1.0);
            hx::check_eq("Normal: y bar", c.compute_y_bar(&[y], &[mu])[0], y - mu);
            hx::check_eq("Normal: initial mean", c.initialize_mu(&[y])[0], y);
        }
        4 => {
            // the default methods of a family with another link and variance
            let (v0, v1, m1, y1) = (hx::var_pos("v0"), hx::var_pos("v1"), hx::var_pos("mu1"), hx::var("y1"));
            hx::assume(hx::gt(mu, 0.0));
            let c = Squared(v0, v1);
            let w = c.compute_working_weight(&[mu, m1]);
            let b = c.compute_y_bar(&[y, y1], &[mu, m1]);
            let ok = w.len() == 2 && b.len() == 2;
            hx::check_true("default family: one weight and one adjustment per mean", ok);
            if ok {
                for (i, (m, y)) in [(mu, y), (m1, y1)].iter().enumerate() {
                    hx::check_eq("default family: working weight 1/(V g'^2)", w[i] * ((v0 + v1 * *m) * (2.0 * *m) * (2.0 * *m)), 1.0);
                    hx::check_eq("default family: y bar = g'(mu) (y - mu)", b[i], 2.0 * *m * (*y - *m));
                }
            }
            check_vec("default family: the initial mean is the target", &c.initialize_mu(&[y, y1]), &[y, y1]);
            let l = c.apply_link_func(Vector::new(vec![mu, m1])).into_vec();
            check_vec("default family: link", &l, &[mu * mu, m1 * m1]);
            check_vec("default family: inverse link", &c.apply_link_inv(Vector::new(l)).into_vec(), &[mu, m1]);
            hx::check_eq("default family: link gradient", c.link_grad(mu), 2.0 * mu);
        }
        _ => {
            hx::assume(hx::and(hx::ge(mu, 1e-300), hx::le(mu, 1.0 - 1e-15)));
            hx::check_eq("Logit: inverse undoes the link", glm::Logit::func_inv(glm::Logit::func(mu)), mu);
            hx::check_eq("Logit: link undoes the inverse", glm::Logit::func(glm::Logit::func_inv(y)), y);
            hx::check_eq("Logit: gradient", glm::Logit::func_grad(mu), hx::deriv(mu, &|t| glm::Logit::func(t)));
            hx::check_eq("Logit: ln(x/(1-x))", glm::Logit::func(mu), (mu / (1.0 - mu)).ln());
            hx::check_eq("Log: inverse undoes the link", glm::Log::func_inv(glm::Log::func(mu)), mu);
            hx::check_eq("Log: link undoes the inverse", glm::Log::func(glm::Log::func_inv(y)), y);
            hx::check_eq("Log: gradient", glm::Log::func_grad(mu), hx::deriv(mu, &|t| glm::Log::func(t)));
            hx::check_eq("Identity: link", glm::Identity::func(y), y);
            hx::check_eq("Identity: inverse", glm::Identity::func_inv(y), y);
            hx::check_eq("Identity: gradient", glm::Identity::func_grad(y), 1.0);
        }
    }
    hx::cover("end");
}
/// g(u) = u^2 on positive means
struct Square;
impl LinkFunc for Square {
    fn func(x: f64) -> f64 {
        x * x
    }
    fn func_grad(x: f64) -> f64 {
        2.0 * x
    }
    fn func_inv(x: f64) -> f64 {
        x.sqrt()
    }
}
/// variance a + b mu, everything else as the trait gives it
struct Squared(f64, f64);
impl Criterion for Squared {
    type Link = Square;
    fn model_variance(&self, mu: f64) -> f64 {
        self.0 + self.1 * mu
    }
}
/// g(u) = 2u + 1
struct Affine;
impl LinkFunc for Affine {
    fn func(x: f64) -> f64 {
        2.0 * x + 1.0
    }
    fn func_grad(_: f64) -> f64 {
        2.0
    }
    fn func_inv(x: f64) -> f64 {
        (x - 1.0) / 2.0
    }
}
/// a family whose working weights are given, with an affine link
struct Weighted(Vec<f64>);
impl Criterion for Weighted {
    type Link = Affine;
    fn model_variance(&self, _: f64) -> f64 {
        1.0
    }
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
        hx::check_true("one working weight per sample is asked for", mu.len() == self.0.len());
        self.0.clone()
    }
    fn initialize_mu(&self, y: &[f64]) -> Vec<f64> {
        y.iter().enumerate().map(|(i, v)| *v + i as f64).collect()
    }
}
/// a family with identity link and default working weights 1/V
struct DefaultW(f64);
impl Criterion for DefaultW {
    type Link = Affine;
    fn model_variance(&self, _: f64) -> f64 {
        self.0
    }
}
pub fn glm_train() {
    let (r, c) = (p("r"), p("c"));
    let x = vmat("x", r, c);
    let y = vvec("y", r);
    // full rank: two inputs differ
    let full = hx::any(&(1..r).map(|i| hx::ne(x[[i, 0]], x[[0, 0]])).collect::<Vec<_>>());
    fn trained<C: Criterion>(m: &mut GenLinearModel<C>, x: &Matrix<f64>, y: &Vector<f64>, full: B) -> bool {
        match m.train(x, y) {
            Ok(_) => {
                hx::check("rank deficient inputs are an error", full);
                true
            }
            Err(_) => {
                hx::check("training fails only on rank deficient inputs", hx::not(full));
                hx::check_true("a model whose training was refused is not trained", m.predict(x).is_err());
                hx::cover("rejected");
                false
            }
        }
    }
    let yv = Vector::new(y.clone());
    let u = vmat("u", 1, c);
    match p("f") {
        0 => {
            let mut m = GenLinearModel::new(glm::Normal);
            hx::check_true("untrained: predict is an error", m.predict(&x).is_err());
            hx::check_true("lengths must agree", m.train(&x, &Vector::new(y[1..].to_vec())).is_err());
            if !trained(&mut m, &x, &yv, full) {
                return;
            }
            let o = m.predict(&x).expect("prediction").into_vec();
            let res: Vec<f64> = (0..r).map(|i| y[i] - o[i]).collect();
            hx::check_eq("Normal: residuals sum to zero", sum(&res), 0.0);
            for j in 0..c {
                hx::check_eq("Normal: residuals are orthogonal to every feature", dot(&res, &col(&x, j)), 0.0);
            }
        }
        1 => {
            let w = vpos("w", r);
            let mut m = GenLinearModel::new(Weighted(w.clone()));
            if !trained(&mut m, &x, &yv, full) {
                return;
            }
            let o = m.predict(&x).expect("prediction").into_vec();
            // score equations: X^T W g'(y - mu) = 0
            let res: Vec<f64> = (0..r).map(|i| w[i] * (y[i] - o[i])).collect();
            hx::check_eq("weighted family: the score equation of the intercept holds", sum(&res), 0.0);
            for j in 0..c {
                hx::check_eq("weighted family: the score equation of every feature holds", dot(&res, &col(&x, j)), 0.0);
            }
        }
        _ => {
            let mut m = GenLinearModel::new(DefaultW(hx::var_pos("v")));
            if !trained(&mut m, &x, &yv, full) {
                return;
            }
            let o = m.predict(&x).expect("prediction").into_vec();
            let res: Vec<f64> = (0..r).map(|i| y[i] - o[i]).collect();
            hx::check_eq("constant variance: residuals sum to zero", sum(&res), 0.0);
            for j in 0..c {
                hx::check_eq("constant variance: residuals are orthogonal to every feature", dot(&res, &col(&x, j)), 0.0);
            }
        }
    }
    hx::cover("end");
}
/// delegates to a built-in family, started at given means
struct From<C>(C, Vec<f64>);
impl<C: Criterion> Criterion for From<C> {
    type Link = C::Link;
    fn model_variance(&self, mu: f64) -> f64 {
        self.0.model_variance(mu)
    }
    fn initialize_mu(&self, _: &[f64]) -> Vec<f64> {
        self.1.clone()
    }
    fn compute_working_weight(&self, mu: &[f64]) -> Vec<f64> {
        self.0.compute_working_weight(mu)
    }
    fn compute_y_bar(&self, y: &[f64], mu: &[f64]) -> Vec<f64> {
        self.0.compute_y_bar(y, mu)
    }
    fn apply_link_inv(&self, v: Vector<f64>) -> Vector<f64> {
        self.0.apply_link_inv(v)
    }
    fn apply_link_func(&self, v: Vector<f64>) -> Vector<f64> {
        self.0.apply_link_func(v)
    }
    fn link_grad(&self, mu: f64) -> f64 {
        self.0.link_grad(mu)
    }
}
/// the same for a family that only gives its link and variance
fn glm_fixed_default() {
    let c = Squared(0.0, hx::var_pos("v1"));
    let x = Matrix::new(3, 1, vec![-1.0, 0.0, 1.0]);
    // on a line in terms of the link: 1, 25, 49
    let m = vec![1.0, 5.0, 7.0];
    // the score equations: sum (y - mu) / (V g') x = 0
    let t = hx::var("t");
    let y: Vec<f64> = (0..3).map(|i| m[i] + [1.0, -2.0, 1.0][i] * t * (c.model_variance(m[i]) * Square::func_grad(m[i]))).collect();
    let mut g = GenLinearModel::new(From(c, m.clone()));
    g.train(&x, &Vector::new(y)).expect("training");
    let o = g.predict(&x).expect("prediction");
    for i in 0..3 {
        hx::check("default family: means are not negative", hx::ge(o[i], 0.0));
        hx::check_eq("default family: training stays at the maximum likelihood estimate", o[i] * o[i], m[i] * m[i]);
    }
    hx::cover("end");
}
/// the maximum likelihood solution is where training stays
pub fn glm_fixed() {
    if p("f") == 2 {
        return glm_fixed_default();
    }
    let bern = p("f") == 0;
    let (x, b) = if p("c") == 0 {
        (Matrix::new(2, 0, vec![]), vec![hx::var("b0")])
    } else {
        (Matrix::new(3, 1, vec![-1.0, 0.0, 1.0]), vec![hx::var("b0"), hx::var("b1")])
    };
    let n = x.rows();
    let mu: Vec<f64> = (0..n).map(|i| affine(&x, i, &b)).map(|v| if bern { sigm(v) } else { v.exp() }).collect();
    // residuals orthogonal to the intercept and to the feature
    let t = hx::var("t");
    hx::assume(hx::gt(t, 0.001));
    let y: Vec<f64> = if n == 2 { vec![mu[0] + t, mu[1] - t] } else { vec![mu[0] + t, mu[1] - 2.0 * t, mu[2] + t] };
    if bern {
        for m in &mu {
            hx::assume(hx::gt(*m * (1.0 - *m), 0.001));
        }
    }
    let yv = Vector::new(y.clone());
    let o = if bern {
        let mut m = GenLinearModel::new(From(glm::Bernoulli, mu.clone()));
        m.train(&x, &yv).expect("training");
        m.predict(&x).expect("prediction")
    } else {
        let mut m = GenLinearModel::new(From(glm::Poisson, mu.clone()));
        m.train(&x, &yv).expect("training");
        m.predict(&x).expect("prediction")
    };
    for i in 0..n {
        hx::check_eq("training started at the maximum likelihood fit stays there", o[i], mu[i]);
    }
    hx::cover("end");
}
