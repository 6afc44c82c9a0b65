//! statements about every model: training again, rows of a batch, order of the samples
use crate::util::*;
use rand::draws;
use rm::data::transforms::minmax::{MinMaxFitter, MinMaxScaler};
use rm::data::transforms::normalize::Normalizer;
use rm::data::transforms::standardize::{Standardizer, StandardizerFitter};
use rm::data::transforms::{Invertible, Transformer, TransformFitter};
use rm::learning::dbscan::DBSCAN;
use rm::learning::glm::{GenLinearModel, Normal};
use rm::learning::gmm::{CovOption, GaussianMixtureModel};
use rm::learning::gp::{ConstMean, GaussianProcess};
use rm::learning::k_means::{Forgy, Initializer, KMeansClassifier};
use rm::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rm::learning::lin_reg::LinRegressor;
use rm::learning::logistic_reg::LogisticRegressor;
use rm::learning::naive_bayes::{Bernoulli, Distribution, Gaussian, Multinomial, NaiveBayes};
use rm::learning::nnet::{BCECriterion, NeuralNet};
use rm::learning::optim::grad_desc::GradientDesc;
use rm::learning::pca::PCA;
use rm::learning::svm::SVM;
use rm::learning::toolkit::activ_fn::Sigmoid;
use rm::learning::toolkit::kernel::Linear;
use rm::learning::{LearningResult, SupModel, UnSupModel};
use std::cell::RefCell;

struct Data {
    x: Matrix<f64>,
    y: Vec<f64>,
}
type Rows = Option<Vec<Vec<f64>>>;
/// a model as its user sees it, in numbers
trait Model {
    /// false: refused
    fn fit(&mut self, d: &Data) -> bool;
    /// one result per row; None: refused
    fn ask(&self, u: &Matrix<f64>) -> Rows;
    /// what else can be asked
    fn state(&self) -> Vec<f64> {
        vec![]
    }
}
fn each(v: &[f64]) -> Vec<Vec<f64>> {
    v.iter().map(|x| vec![*x]).collect()
}
fn mat_rows(m: &Matrix<f64>) -> Vec<Vec<f64>> {
    (0..m.rows()).map(|i| row(m, i)).collect()
}
fn flat(m: &Matrix<f64>) -> Vec<f64> {
    let mut v = vec![m.rows() as f64, m.cols() as f64];
    v.extend(m.data().iter().cloned());
    v
}
fn ask_vec<M: SupModel<Matrix<f64>, Vector<f64>>>(m: &M, u: &Matrix<f64>) -> Rows {
    m.predict(u).ok().map(|v| each(v.data()))
}
fn vy(d: &Data) -> Vector<f64> {
    Vector::new(d.y.clone())
}
macro_rules! regression {
    ($t:ty, $m:ident => $s:expr) => {
        impl Model for $t {
            fn fit(&mut self, d: &Data) -> bool {
                self.train(&d.x, &vy(d)).is_ok()
            }
            fn ask(&self, u: &Matrix<f64>) -> Rows {
                ask_vec(self, u)
            }
            fn state(&self) -> Vec<f64> {
                let $m = self;
                $s
            }
        }
    };
}
regression!(LinRegressor, m => m.parameters().map(|v| v.data().clone()).unwrap_or(vec![]));
regression!(LogisticRegressor<GradientDesc>, m => m.parameters().map(|v| v.data().clone()).unwrap_or(vec![]));
regression!(GenLinearModel<Normal>, m => vec![]);
regression!(SVM<Linear>, m => vec![]);

struct Gp(GaussianProcess<Linear, ConstMean>);
impl Model for Gp {
    fn fit(&mut self, d: &Data) -> bool {
        self.0.train(&d.x, &vy(d)).is_ok()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        let mut r = match ask_vec(&self.0, u) {
            Some(r) => r,
            None => return None,
        };
        let (m, c) = self.0.get_posterior(u).expect("posterior");
        hx::check_true("one mean and variance per row", m.size() == u.rows() && c.rows() == u.rows() && c.cols() == u.rows() && r.len() == u.rows());
        for i in 0..r.len() {
            r[i].push(m[i]);
            r[i].push(c[[i, i]]);
        }
        Some(r)
    }
}
struct Nb<T: Distribution>(NaiveBayes<T>);
fn one_hot(y: &[f64], k: usize) -> Matrix<f64> {
    Matrix::from_fn(y.len(), k, |j, i| if y[i] == j as f64 { 1.0 } else { 0.0 })
}
impl<T: Distribution> Model for Nb<T> {
    fn fit(&mut self, d: &Data) -> bool {
        let k = 1 + d.y.iter().map(|v| (0..4).find(|k| *v == *k as f64).unwrap_or(1)).max().unwrap_or(0);
        self.0.train(&d.x, &one_hot(&d.y, k.max(2))).is_ok()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        let (p, g) = match (self.0.predict(u), self.0.get_log_probs(u)) {
            (Ok(p), Ok(g)) => (p, g),
            _ => return None,
        };
        let (p, g) = (mat_rows(&p), mat_rows(&g));
        Some((0..p.len()).map(|i| p[i].iter().chain(g[i].iter()).cloned().collect()).collect())
    }
    fn state(&self) -> Vec<f64> {
        let mut v = vec![self.0.cluster_count().map(|c| *c as f64).unwrap_or(-1.0)];
        v.extend(self.0.class_prior().map(|p| p.clone()).unwrap_or(vec![]));
        v
    }
}
struct Knn<S: KNearestSearch>(KNNClassifier<S>);
impl<S: KNearestSearch> Model for Knn<S> {
    fn fit(&mut self, d: &Data) -> bool {
        let y: Vec<usize> = d.y.iter().map(|v| (0..9).find(|k| *v == *k as f64).unwrap()).collect();
        self.0.train(&d.x, &Vector::new(y)).is_ok()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        self.0.predict(u).ok().map(|v| v.data().iter().map(|c| vec![*c as f64]).collect())
    }
}
/// the first rows, or the rows given
#[derive(Debug, Clone)]
struct Start(Option<Matrix<f64>>);
impl Initializer for Start {
    fn init_centroids(&self, k: usize, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        Ok(match self.0 {
            None => Matrix::from_fn(k, x.cols(), |j, i| x[[i, j]]),
            Some(ref m) => m.clone(),
        })
    }
}
impl<I: Initializer> Model for KMeansClassifier<I> {
    fn fit(&mut self, d: &Data) -> bool {
        self.train(&d.x).is_ok()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        self.predict(u).ok().map(|v| v.data().iter().map(|c| vec![*c as f64]).collect())
    }
    fn state(&self) -> Vec<f64> {
        self.centroids().as_ref().map(flat).unwrap_or(vec![])
    }
}
fn label(c: &Option<usize>) -> f64 {
    c.map(|c| c as f64).unwrap_or(-1.0)
}
impl Model for DBSCAN {
    fn fit(&mut self, d: &Data) -> bool {
        self.train(&d.x).is_ok()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        self.predict(u).ok().map(|v| v.data().iter().map(|c| vec![label(c)]).collect())
    }
    fn state(&self) -> Vec<f64> {
        self.clusters().map(|c| c.data().iter().map(label).collect()).unwrap_or(vec![])
    }
}
impl Model for PCA {
    fn fit(&mut self, d: &Data) -> bool {
        self.train(&d.x).is_ok()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        self.predict(u).ok().map(|m| mat_rows(&m))
    }
    fn state(&self) -> Vec<f64> {
        self.components().map(flat).unwrap_or(vec![])
    }
}
impl Model for GaussianMixtureModel {
    fn fit(&mut self, d: &Data) -> bool {
        self.train(&d.x).is_ok()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        self.predict(u).ok().map(|m| mat_rows(&m))
    }
}
struct Net(NeuralNet<BCECriterion, GradientDesc>);
impl Model for Net {
    fn fit(&mut self, _: &Data) -> bool {
        true
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        self.0.predict(u).ok().map(|m| mat_rows(&m))
    }
}
/// a fitted transform; inv: ask for the inverse
struct Scale<F: TransformFitter<Matrix<f64>, T>, T: Invertible<Matrix<f64>>> {
    fitter: Box<dyn Fn() -> F>,
    t: Option<RefCell<T>>,
    inv: bool,
}
impl<F: TransformFitter<Matrix<f64>, T>, T: Invertible<Matrix<f64>>> Model for Scale<F, T> {
    fn fit(&mut self, d: &Data) -> bool {
        self.t = (self.fitter)().fit(&d.x).ok().map(RefCell::new);
        self.t.is_some()
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        let mut t = self.t.as_ref().unwrap().borrow_mut();
        (if self.inv { t.inv_transform(u.clone()) } else { t.transform(u.clone()) }).ok().map(|m| mat_rows(&m))
    }
}
struct Norm;
impl Model for Norm {
    fn fit(&mut self, _: &Data) -> bool {
        true
    }
    fn ask(&self, u: &Matrix<f64>) -> Rows {
        let mut n: Normalizer<f64, _> = Normalizer::default();
        n.transform(u.clone()).ok().map(|m| mat_rows(&m))
    }
}

/// a new model, with settings that are the same every time
fn make(m: usize, start: &Option<Matrix<f64>>) -> Box<dyn Model> {
    let leaf = 1;
    match m {
        0 => Box::new(LinRegressor::default()),
        1 => Box::new(LogisticRegressor::new(GradientDesc::new(0.5, p("iters")))),
        2 => Box::new(GenLinearModel::new(Normal)),
        3 => Box::new(Gp(GaussianProcess::new(Linear::new(1.0), ConstMean::default(), if p("center") == 1 { 0.0 } else { 0.5 }))),
        4 => {
            let mut s = SVM::new(Linear::new(0.0), 0.5);
            s.optim_iters = p("iters");
            Box::new(s)
        }
        5 => Box::new(Nb(NaiveBayes::<Gaussian>::new())),
        6 => Box::new(Nb(NaiveBayes::<Bernoulli>::new())),
        7 => Box::new(Nb(NaiveBayes::<Multinomial>::new())),
        8 => Box::new(Knn(KNNClassifier::new_specified(p("k"), BruteForce::new()))),
        9 => Box::new(Knn(KNNClassifier::new_specified(p("k"), KDTree::new(leaf)))),
        10 => Box::new(Knn(KNNClassifier::new_specified(p("k"), BallTree::new(leaf)))),
        11 => Box::new(KMeansClassifier::new_specified(p("k"), p("iters"), Start(start.clone()))),
        12 => Box::new(KMeansClassifier::new_specified(p("k"), p("iters"), Forgy)),
        13 => {
            let mut d = DBSCAN::new(if p("center") == 1 { 0.5 } else { 2.5 }, p("k"));
            d.set_predictive(true);
            Box::new(d)
        }
        14 => Box::new(PCA::new(p("k"), p("center") == 1)),
        15 => {
            let mut g = GaussianMixtureModel::new(p("k"));
            g.set_max_iters(p("iters"));
            g.cov_option = CovOption::Diagonal;
            Box::new(g)
        }
        16 => Box::new(Net(NeuralNet::mlp(&[p("c"), 2, 1], BCECriterion::default(), GradientDesc::default(), Sigmoid))),
        17 | 18 => Box::new(Scale::<MinMaxFitter<f64>, MinMaxScaler<f64>> { fitter: Box::new(|| MinMaxFitter::new(-1.0, 3.0)), t: None, inv: m == 18 }),
        19 | 20 => Box::new(Scale::<StandardizerFitter<f64>, Standardizer<f64>> { fitter: Box::new(|| StandardizerFitter::new(2.0, 3.0)), t: None, inv: m == 20 }),
        _ => Box::new(Norm),
    }
}
/// y: classes 0 and 1 alternate, or numbers
fn data(m: usize, name: &str, n: usize, c: usize) -> Data {
    let x = vmat(name, n, c);
    for v in x.iter() {
        if m == 6 || m == 7 {
            hx::assume(hx::ge(*v, 0.0));
        }
        if m == 6 {
            hx::assume(hx::le(*v, 1.0));
        }
        if m >= 8 {
            hx::assume(hx::and(hx::le(*v, 1e6), hx::ge(*v, -1e6)));
        }
    }
    if m == 5 {
        // several values for every feature of a class
        for j in 0..c {
            for i in 2..n.min(4) {
                hx::assume(hx::ne(x[[i, j]], x[[i - 2, j]]));
            }
        }
    }
    let y = match m {
        5 | 6 | 7 | 8 | 9 | 10 => (0..n).map(|i| (i % 2) as f64).collect(),
        4 => (0..n).map(|i| if i % 2 == 0 { 1.0 } else { -1.0 }).collect(),
        _ => vvec(&format!("y{}", name), n),
    };
    Data { x, y }
}
/// data that the model refuses
fn refused(m: usize, n: usize, c: usize) -> Vec<Data> {
    let d = |rows: usize, y: &[f64]| Data { x: Matrix::zeros(rows, c), y: y.to_vec() };
    let k = p("k");
    match m {
        0 => vec![d(n + 1, &vec![1.0; n + 1])],
        // without noise two equal samples have no inverse covariance
        3 if p("center") == 1 => vec![d(2, &[1.0, 2.0])],
        2 => vec![d(n, &vec![1.0; n + 1]), d(n + 1, &vec![1.0; n])],
        // not as many labels as rows; not enough rows
        8 | 9 | 10 => vec![d(n, &vec![7.0; n + 1]), d(n + 1, &vec![7.0; n]), d(k - 1, &vec![7.0; k - 1])],
        // a class with one row; a row without a class
        5 => vec![d(3, &[0.0, 1.0, 1.0]), d(4, &[0.0, 0.0, 1.0, 1.5])],
        6 | 7 => vec![d(3, &[0.0, 1.0, 0.5])],
        11 | 12 => vec![d(k - 1, &vec![0.0; k - 1])],
        14 => vec![d(k - 1, &[])],
        _ => vec![],
    }
}
fn same(what: &str, a: &Rows, b: &Rows) {
    hx::check_true(&format!("{} (refused or not)", what), a.is_some() == b.is_some());
    if let (&Some(ref a), &Some(ref b)) = (a, b) {
        hx::check_true(&format!("{} (rows)", what), a.len() == b.len());
        for i in 0..a.len().min(b.len()) {
            check_vec(what, &a[i], &b[i]);
        }
    }
}
/// trained on a, then on b: the model trained on b
pub fn refit() {
    let (m, n, c, na, ca) = (p("m"), p("n"), p("c"), p("na"), p("ca"));
    let mut t = make(m, &None);
    let mut f = make(m, &None);
    let code = p("code");
    let b = data(m, "b", n, c);
    let u = vmat("u", 1, c);
    let v = vmat("v", 1, ca);
    draws::digits_of(code);
    let before = if t.fit(&data(m, "a", na, ca)) { t.ask(&v) } else { None };
    let st = t.state();
    same("predicting does not change the model", &t.ask(&v), &before);
    draws::digits_of(code);
    let r = t.fit(&b);
    draws::digits_of(code);
    let s = f.fit(&b);
    hx::check_true("a second training succeeds exactly if it does on a new model", r == s);
    if r != s {
        return;
    }
    if !r {
        same("a refused training leaves the model as it was", &t.ask(&v), &before);
        check_vec("a refused training leaves the model as it was", &t.state(), &st);
        hx::cover("refused");
        return;
    }
    let want = f.ask(&u);
    hx::check_true("a trained model predicts", want.is_some());
    same("a second training gives the model a new one becomes", &t.ask(&u), &want);
    check_vec("a second training gives the model a new one becomes", &t.state(), &f.state());
    for bad in refused(m, n, c) {
        draws::free();
        if t.fit(&bad) {
            hx::check_true("these data are refused", false);
        } else {
            same("a refused training leaves the model as it was", &t.ask(&u), &want);
            check_vec("a refused training leaves the model as it was", &t.state(), &f.state());
        }
    }
    hx::cover("end");
}
/// the result for a row is the result for that row alone
pub fn rows() {
    let (m, n, c, r) = (p("m"), p("n"), p("c"), p("r"));
    let mut t = make(m, &None);
    draws::digits_of(p("code"));
    let d = data(m, "x", n, c);
    if m == 15 {
        for j in 0..c {
            hx::assume(hx::ne(d.x[[0, j]], d.x[[1, j]]));
        }
    }
    if !t.fit(&d) {
        return;
    }
    let mut u = data(m, "u", r, c).x;
    let differ = optional("differ").unwrap_or(0);
    if differ > 0 {
        // the rows differ in one column only
        u = Matrix::from_fn(r, c, |j, i| if j + 1 == differ { u[[i, j]] } else { u[[0, j]] });
    }
    let mut alone = vec![];
    for i in 0..r {
        match t.ask(&Matrix::from_fn(1, c, |j, _| u[[i, j]])) {
            Some(mut o) => {
                hx::check_true("one result for a row", o.len() == 1);
                alone.push(o.swap_remove(0));
            }
            None => {
                // only a mixture whose covariance became singular refuses
                hx::check_true("a row is accepted", m == 15);
                return;
            }
        }
    }
    let batches: Vec<Vec<usize>> = match r {
        2 => vec![vec![0, 1], vec![1, 0], vec![0, 0, 1]],
        3 => vec![vec![0, 1, 2], vec![2, 0, 1], vec![1, 2]],
        _ => vec![(0..r).collect(), (0..2 * r + 3).map(|i| (5 * i + 1) % r).collect()],
    };
    for b in batches {
        let o = t.ask(&Matrix::from_fn(b.len(), c, |j, i| u[[b[i], j]])).expect("rows are accepted");
        hx::check_true("one result per row of the batch", o.len() == b.len());
        for i in 0..b.len().min(o.len()) {
            check_vec("the result for a row of a batch is the result for that row alone", &o[i], &alone[b[i]]);
        }
    }
    hx::cover("end");
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    match n {
        2 => vec![vec![1, 0]],
        3 => vec![vec![1, 0, 2], vec![1, 2, 0]],
        4 => vec![vec![1, 0, 3, 2], vec![1, 2, 3, 0]],
        _ => vec![[1, 0].iter().cloned().chain(2..n).collect(), (1..n).chain(0..1).collect()],
    }
}
/// training on the samples in another order gives the same model
pub fn order() {
    let (m, n, c) = (p("m"), p("n"), p("c"));
    let start = Some(vmat("s", p("k"), c));
    let d = data(m, "x", n, c);
    let u = data(m, "u", 1, c).x;
    if m >= 8 && m <= 10 {
        for i in 0..n {
            for j in 0..i {
                hx::assume(hx::ne(sqd(&row(&d.x, i), &row(&u, 0)), sqd(&row(&d.x, j), &row(&u, 0))));
            }
        }
    }
    let mut f = make(m, &start);
    let ok = f.fit(&d);
    for q in perms(n) {
        let e = Data { x: Matrix::from_fn(n, c, |j, i| d.x[[q[i], j]]), y: q.iter().map(|i| d.y[*i]).collect() };
        let mut g = make(m, &start);
        let r = g.fit(&e);
        hx::check_true("the order of the samples does not decide whether they are accepted", r == ok);
        if !ok || !r {
            hx::cover("refused");
            continue;
        }
        if m == 13 {
            // cluster numbers follow the order of the samples: the same samples are together
            let (a, b) = (f.state(), g.state());
            if a.len() != n || b.len() != n {
                hx::check_true("one cluster per sample", false);
                return;
            }
            for i in 0..n {
                hx::check_true("the same samples are noise in any order", (a[q[i]] == -1.0) == (b[i] == -1.0));
                for j in 0..i {
                    hx::check_true("the same samples are together in any order", (a[q[i]] == a[q[j]]) == (b[i] == b[j]));
                }
            }
        } else {
            same("the order of the samples does not matter", &g.ask(&u), &f.ask(&u));
            check_vec("the order of the samples does not matter", &g.state(), &f.state());
        }
        hx::cover("end");
    }
}
/// the columns in another order
fn cols(x: &Matrix<f64>, q: &[usize]) -> Matrix<f64> {
    Matrix::from_fn(x.rows(), x.cols(), |j, i| x[[i, q[j]]])
}
/// training and predicting with the features in another order gives the same predictions
pub fn features() {
    let (m, n, c) = (p("m"), p("n"), p("c"));
    let start = vmat("s", p("k"), c);
    let d = data(m, "x", n, c);
    let u = data(m, "u", 1, c).x;
    if m >= 8 && m <= 10 {
        // equally close neighbours are a matter of taste
        for i in 0..n {
            for j in 0..i {
                hx::assume(hx::ne(sqd(&row(&d.x, i), &row(&u, 0)), sqd(&row(&d.x, j), &row(&u, 0))));
            }
        }
    }
    if m == 15 {
        for j in 0..c {
            hx::assume(hx::ne(d.x[[0, j]], d.x[[1, j]]));
        }
    }
    let code = p("code");
    draws::digits_of(code);
    let mut f = make(m, &Some(start.clone()));
    let ok = f.fit(&d);
    for q in perms(c) {
        draws::digits_of(code);
        let mut g = make(m, &Some(cols(&start, &q)));
        let e = Data { x: cols(&d.x, &q), y: d.y.clone() };
        let r = g.fit(&e);
        hx::check_true("the order of the features does not decide whether the samples are accepted", r == ok);
        if !ok || !r {
            hx::cover("refused");
            continue;
        }
        let (want, have) = (f.ask(&u), g.ask(&cols(&u, &q)));
        if m >= 17 {
            // a transform keeps the columns in their order
            let want = want.map(|w| w.iter().map(|w| q.iter().map(|j| w[*j]).collect()).collect());
            same("the transformed features are in the order of the features", &have, &want);
        } else {
            same("the order of the features does not matter", &have, &want);
        }
        let (a, b) = (f.state(), g.state());
        match m {
            // parameters: the intercept, then one per feature
            0 | 1 => {
                hx::check_true("one parameter per feature and the intercept", a.len() == c + 1 && b.len() == c + 1);
                check_vec("the parameters are in the order of the features", &b, &std::iter::once(a[0]).chain(q.iter().map(|j| a[1 + j])).collect::<Vec<_>>());
            }
            11 | 12 => {
                hx::check_true("centroids have one value per feature", a.len() == 2 + p("k") * c && b.len() == a.len());
                for k in 0..p("k") {
                    check_vec("the centroids are in the order of the features", &b[2 + k * c..][..c], &q.iter().map(|j| a[2 + k * c + j]).collect::<Vec<_>>());
                }
            }
            _ => check_vec("the order of the features does not matter", &b, &a),
        }
        hx::cover("end");
    }
}
