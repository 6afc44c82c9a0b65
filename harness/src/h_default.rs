//! the default of a component is the component with the settings its documentation states
use crate::util::*;
use rand::draws;
use rm::data::transforms::minmax::MinMaxFitter;
use rm::data::transforms::normalize::Normalizer;
use rm::data::transforms::standardize::StandardizerFitter;
use rm::data::transforms::{Transformer, TransformFitter};
use rm::learning::dbscan::DBSCAN;
use rm::learning::gmm::{CovOption, GaussianMixtureModel};
use rm::learning::gp::{ConstMean, GaussianProcess, MeanFunc};
use rm::learning::k_means::{KMeansClassifier, KPlusPlus};
use rm::learning::knn::{BruteForce, KDTree, KNNClassifier};
use rm::learning::nnet::{BCECriterion, Criterion, MSECriterion, NeuralNet};
use rm::learning::optim::fmincg::ConjugateGD;
use rm::learning::optim::grad_desc::{GradientDesc, RMSProp, StochasticGD};
use rm::learning::optim::{OptimAlgorithm, Optimizable};
use rm::learning::svm::SVM;
use rm::learning::toolkit::kernel::*;
use rm::learning::toolkit::regularization::Regularization;
use rm::learning::{SupModel, UnSupModel};
use rm::linalg::norm::Euclidean;
use rm::linalg::MatrixSlice;
use rm::stats::dist::exponential::Exponential as ExpDist;
use rm::stats::dist::gaussian::Gaussian as GaussDist;
use rm::stats::dist::Distribution;
use std::cell::RefCell;

/// an arbitrary linear function whose cost changes in every call
struct Slope(Vec<f64>, RefCell<Vec<Vec<f64>>>);
impl Optimizable for Slope {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, at: &[f64], _: &Matrix<f64>, _: &Matrix<f64>) -> (f64, Vec<f64>) {
        self.1.borrow_mut().push(at.to_vec());
        (self.1.borrow().len() as f64, self.0.clone())
    }
}
fn optimizers<A: OptimAlgorithm<Slope>>(a: A, b: A) {
    let (x, y) = (vmat("x", 1, 1), vmat("y", 1, 1));
    let (s, g) = (vvec("s", 1), vvec("g", 1));
    let run = |o: A| {
        let m = Slope(g.clone(), RefCell::new(vec![]));
        let out = o.optimize(&m, &s, &x, &y);
        let calls = m.1.into_inner();
        (out, calls)
    };
    let ((a, ca), (b, cb)) = (run(a), run(b));
    hx::check_true("the default number of iterations is the documented one", ca.len() == cb.len());
    // the first steps show the rates
    for i in 0..ca.len().min(cb.len()).min(3) {
        check_vec("the default steps are the documented ones", &ca[i], &cb[i]);
    }
    if ca.len() == cb.len() {
        check_vec("the default optimizer returns what the documented one does", &a, &b);
    }
}
fn kernels(a: &dyn Kernel, b: &dyn Kernel) {
    let (x, y) = (vvec("x", 2), vvec("y", 2));
    hx::check_eq("the default kernel is the documented one", a.kernel(&x, &y), b.kernel(&x, &y));
}
pub fn defaults() {
    draws::digits_of(p("code"));
    match p("w") {
        0 => optimizers(GradientDesc::default(), GradientDesc::new(0.3, 100)),
        1 => optimizers(StochasticGD::default(), StochasticGD::new(0.1, 0.1, 20)),
        2 => optimizers(RMSProp::default(), RMSProp::new(0.01, 0.9, 1.0e-5, 50)),
        3 => {
            let c = ConjugateGD::default();
            for (a, b) in [(c.rho, 0.01), (c.sig, 0.5), (c.int, 0.1), (c.ext, 3.0), (c.ratio, 100.0)].iter() {
                hx::check_eq("the default settings of conjugate gradients", *a, *b);
            }
            hx::check_true("the default settings of conjugate gradients", c.max == 20 && c.iters == 100);
            let l = Linear::default();
            kernels(&l, &Linear::new(0.0));
            kernels(&Polynomial::default(), &Polynomial::new(1.0, 0.0, 1.0));
            kernels(&SquaredExp::default(), &SquaredExp::new(1.0, 1.0));
            kernels(&Exponential::default(), &Exponential::new(1.0, 1.0));
            kernels(&HyperTan::default(), &HyperTan::new(1.0, 0.0));
            kernels(&Multiquadric::default(), &Multiquadric::new(0.0));
            kernels(&RationalQuadratic::default(), &RationalQuadratic::new(1.0, 1.0));
        }
        4 => {
            let x = hx::var("x");
            let (a, b) = (GaussDist::default(), GaussDist::new(0.0, 1.0));
            hx::check_eq("the default normal density", a.pdf(x), b.pdf(x));
            hx::check_eq("the default normal log density", a.logpdf(x), b.logpdf(x));
            let (a, b) = (ExpDist::default(), ExpDist::new(1.0));
            hx::check_eq("the default rate", a.lambda(), 1.0);
            let x = hx::var_pos("z");
            hx::check_eq("the default exponential density", a.pdf(x), b.pdf(x));
            hx::check_eq("the default exponential log density", a.logpdf(x), b.logpdf(x));
            // criteria
            let (o, y, w) = (vmat("o", 2, 2), vmat("y", 2, 2), vmat("w", 2, 1));
            for v in o.iter() {
                hx::assume(hx::and(hx::gt(*v, 0.0), hx::lt(*v, 1.0)));
            }
            criterion(&BCECriterion::default(), &BCECriterion::new(Regularization::None), &o, &y, &w);
            criterion(&MSECriterion::default(), &MSECriterion::new(Regularization::None), &o, &y, &w);
        }
        5 => {
            // on a line, arbitrarily dense, with a gap
            let (n, s, t) = (p("n"), hx::var("s"), hx::var_pos("t"));
            let x = Matrix::from_fn(n, 1, |_, i| s + t * (if i + 1 == n { i + 1 } else { i }) as f64);
            let (mut a, mut b) = (DBSCAN::default(), DBSCAN::new(0.5, 5));
            a.train(&x).expect("training");
            b.train(&x).expect("training");
            let (c, d) = (a.clusters().expect("clusters"), b.clusters().expect("clusters"));
            hx::check_true("one cluster per sample", c.size() == n && d.size() == n);
            hx::check_true("the default clusters are the documented ones", c.data() == d.data());
            hx::check_true("the default model is not predictive", a.predict(&x).is_err());
            hx::cover(if c.data()[0].is_some() { "dense" } else { "noise" });
        }
        6 => {
            // the decision depends on exactly which five rows are close
            let x = Matrix::new(8, 1, vec![0.0, 1.0, 2.0, 4.0, 7.0, 11.0, 16.0, 22.0]);
            let y = Vector::new(vec![1, 1, 2, 2, 2, 1, 1, 1]);
            let u = vmat("u", 1, 1);
            let (mut a, mut b, mut c) = (KNNClassifier::default(), KNNClassifier::new_specified(5, BruteForce::new()), KNNClassifier::new(5));
            for i in 0..8 {
                for j in 0..i {
                    hx::assume(hx::ne(x[[i, 0]] - u[[0, 0]], u[[0, 0]] - x[[j, 0]]));
                }
            }
            a.train(&x, &y).expect("training");
            b.train(&x, &y).expect("training");
            c.train(&x, &y).expect("training");
            let k = b.predict(&u).expect("prediction")[0];
            hx::check_true("the default classifier asks five neighbours", a.predict(&u).expect("prediction")[0] == k);
            hx::check_true("the search is a k-d tree unless told otherwise", c.predict(&u).expect("prediction")[0] == k);
            let few = x.select_rows(&[0, 1, 2, 3]);
            hx::check_true("four rows are not enough for the default classifier", a.train(&few, &Vector::new(vec![1; 4])).is_err());
            hx::cover(&format!("label {}", k));
        }
        7 => {
            let (mut a, mut b) = (SVM::default(), SVM::new(SquaredExp::default(), 0.3));
            hx::check_true("100 iterations unless told otherwise", a.optim_iters == 100 && b.optim_iters == 100);
            let (n, iters) = (p("n"), p("iters"));
            a.optim_iters = iters;
            b.optim_iters = iters;
            let x = vmat("x", n, 1);
            let u = if p("own") == 1 { x.clone() } else { vmat("u", 1, 1) };
            let y = Vector::new((0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect::<Vec<_>>());
            a.train(&x, &y).expect("training");
            draws::digits_of(p("code"));
            b.train(&x, &y).expect("training");
            check_vec("the default machine is the documented one", a.predict(&u).expect("prediction").data(), b.predict(&u).expect("prediction").data());
        }
        8 => {
            let x = vmat("x", 2, 1);
            let u = vmat("u", 1, 1);
            let (mut a, mut b) = (KMeansClassifier::new(1), KMeansClassifier::new_specified(1, 100, KPlusPlus));
            hx::check_true("100 iterations unless told otherwise", a.iters() == 100 && a.k() == 1);
            let _: &KPlusPlus = a.init_algorithm();
            a.train(&x).expect("training");
            draws::digits_of(p("code"));
            b.train(&x).expect("training");
            check_mat("the centroids are those of 100 iterations", a.centroids().as_ref().unwrap(), b.centroids().as_ref().unwrap());
            hx::check_true("a cluster", a.predict(&u).expect("prediction")[0] == 0);
        }
        9 => {
            let (k, n) = (p("k"), p("n"));
            let mut a = GaussianMixtureModel::new(k);
            for w in a.mixture_weights().iter() {
                hx::check_eq("equal weights unless told otherwise", *w * k as f64, 1.0);
            }
            hx::check_true("one weight per component", a.mixture_weights().size() == k);
            let full = if let CovOption::Full = a.cov_option { true } else { false };
            hx::check_true("full covariances unless told otherwise", full);
            let mut b = GaussianMixtureModel::with_weights(k, Vector::new(vec![1.0 / k as f64; k])).expect("weights");
            let full = if let CovOption::Full = b.cov_option { true } else { false };
            hx::check_true("full covariances unless told otherwise", full);
        }
        10 => {
            let (x, u) = (vmat("x", 2, 1), vmat("u", 1, 1));
            let y = Vector::new(vvec("y", 2));
            let m = ConstMean::default().func(x.clone());
            check_vec("the default mean is zero", m.data(), &[0.0, 0.0]);
            let (mut a, mut b) = (GaussianProcess::default(), GaussianProcess::new(SquaredExp::new(1.0, 1.0), ConstMean::default(), 0.0));
            hx::assume(hx::gt(x[[1, 0]] - x[[0, 0]], 0.01));
            hx::check_eq("no noise unless told otherwise", a.noise, 0.0);
            let (r, s) = (a.train(&x, &y).is_ok(), b.train(&x, &y).is_ok());
            hx::check_true("the default process accepts what the documented one does", r == s);
            if r && s {
                check_vec("the default process predicts what the documented one does", a.predict(&u).expect("prediction").data(), b.predict(&u).expect("prediction").data());
            }
        }
        11 => {
            let x = vmat("x", 2, 2);
            let mut a = MinMaxFitter::default().fit(&x);
            let mut b = MinMaxFitter::new(0.0, 1.0).fit(&x);
            hx::check_true("the default range accepts the same", a.is_ok() == b.is_ok());
            if let (&mut Ok(ref mut a), &mut Ok(ref mut b)) = (&mut a, &mut b) {
                check_mat("the default range is from 0 to 1", &a.transform(x.clone()).expect("transform"), &b.transform(x.clone()).expect("transform"));
            }
            let mut a = StandardizerFitter::default().fit(&x);
            let mut b = StandardizerFitter::new(0.0, 1.0).fit(&x);
            hx::check_true("the default moments accept the same", a.is_ok() == b.is_ok());
            if let (&mut Ok(ref mut a), &mut Ok(ref mut b)) = (&mut a, &mut b) {
                check_mat("the default mean is 0 and deviation 1", &a.transform(x.clone()).expect("transform"), &b.transform(x.clone()).expect("transform"));
            }
            let mut a: Normalizer<f64, _> = Normalizer::default();
            let mut b: Normalizer<f64, _> = Normalizer::new(Euclidean);
            let (a, b) = (a.transform(x.clone()), b.transform(x.clone()));
            hx::check_true("the default norm accepts the same", a.is_ok() == b.is_ok());
            if let (&Ok(ref a), &Ok(ref b)) = (&a, &b) {
                check_mat("the default norm is Euclidean", a, b);
            }
        }
        _ => {
            let x = vmat("x", 2, 2);
            let n = NeuralNet::default(&[2, 2, 1]);
            let o = n.predict(&x).expect("prediction");
            let (w, v) = (n.get_net_weights(0), n.get_net_weights(2));
            let s = |x: f64| 1.0 / (1.0 + (-x).exp());
            for i in 0..2 {
                let h: Vec<f64> = (0..2).map(|j| s(w[[0, j]] + x[[i, 0]] * w[[1, j]] + x[[i, 1]] * w[[2, j]])).collect();
                hx::check_eq("the default network has sigmoid layers", o[[i, 0]], s(v[[0, 0]] + h[0] * v[[1, 0]] + h[1] * v[[2, 0]]));
            }
        }
    }
    hx::cover("end");
}
fn criterion<C: Criterion>(a: &C, b: &C, o: &Matrix<f64>, y: &Matrix<f64>, w: &Matrix<f64>) {
    hx::check_true("no regularization unless told otherwise", !a.is_regularized() && !b.is_regularized());
    hx::check_eq("no regularization unless told otherwise", a.reg_cost(w.as_slice()), 0.0);
    let g = a.reg_cost_grad(w.as_slice());
    hx::check_true("the gradient has the shape of the weights", g.rows() == 2 && g.cols() == 1);
    check_vec("no regularization unless told otherwise", g.data(), &[0.0, 0.0]);
    hx::check_eq("the default cost", a.cost(o, y), b.cost(o, y));
    check_mat("the default gradient", &a.cost_grad(o, y), &b.cost_grad(o, y));
}
