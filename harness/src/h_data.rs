//! distributions, transformers, scores
use crate::util::*;
use rm::analysis::confusion_matrix::confusion_matrix;
use rm::analysis::score;
use rm::data::transforms::{Invertible, MinMaxFitter, Normalizer, StandardizerFitter, TransformFitter, Transformer};
use rm::stats::dist::{Distribution, Exponential, Gaussian};
use rulinalg::norm::{Euclidean, Lp};

// ---------------------------------------------------------------- distributions
pub fn dist_exp() {
    let l = hx::var_pos("lambda");
    let x = hx::var("x");
    hx::assume(hx::ge(x, 0.0));
    let d = Exponential::new(l);
    hx::check_eq("Exponential: pdf = lambda exp(-lambda x)", d.pdf(x), l * (-l * x).exp());
    hx::check_eq("Exponential: logpdf = ln pdf", d.logpdf(x), d.pdf(x).ln());
    hx::check_eq("Exponential: cdf' = pdf", hx::deriv(x, &|t| d.cdf(t)), d.pdf(x));
    hx::check_eq("Exponential: cdf(0) = 0", d.cdf(0.0), 0.0);
    hx::check_eq("Exponential: cdf(x) + pdf(x)/lambda = 1", d.cdf(x) + d.pdf(x) / l, 1.0);
    hx::check_le("Exponential: pdf >= 0", 0.0, d.pdf(x));
    hx::check_le("Exponential: cdf >= 0", 0.0, d.cdf(x));
    hx::check("Exponential: cdf < 1", hx::lt(d.cdf(x), 1.0));
    let y = hx::var("y");
    hx::assume(hx::lt(x, y));
    hx::check("Exponential: cdf strictly increasing", hx::lt(d.cdf(x), d.cdf(y)));
    hx::check_eq("Exponential: lambda()", d.lambda(), l);
    hx::check_eq("Exponential: default lambda", Exponential::default().lambda(), 1.0);
    hx::cover("end");
}
pub fn dist_exp_neg() {
    let l = hx::var_pos("lambda");
    let x = hx::var("x");
    let d = Exponential::new(l);
    let neg = hx::decide(hx::lt(x, 0.0));
    let r = [hx::catch(|| d.pdf(x)).is_err(), hx::catch(|| d.logpdf(x)).is_err(), hx::catch(|| d.cdf(x)).is_err()];
    for i in 0..3 {
        hx::check_true("Exponential: panics exactly on negative input", r[i] == neg);
    }
    hx::cover(if neg { "negative" } else { "non-negative" });
}
pub fn dist_gauss() {
    let m = hx::var("mean");
    let s = hx::var_pos("sd");
    let x = hx::var("x");
    let by_var = p("ctor") == 0;
    let d = if by_var { Gaussian::new(m, s * s) } else { Gaussian::from_std_dev(m, s) };
    let z = (x - m) / s;
    let rt = (2.0 * std::f64::consts::PI).sqrt();
    let w = d.pdf(x) * s / (-(z * z) / 2.0).exp();
    // the normalising constant, to 1e-12
    check_near("Gaussian: pdf(x) * sd * exp(z^2/2) * sqrt(2 pi) = 1", w * w * 2.0 * 3.141592653589793, 1.0, 1e-12);
    hx::check("Gaussian: pdf > 0", hx::gt(d.pdf(x), 0.0));
    hx::check_eq("Gaussian: pdf symmetric about the mean", d.pdf(2.0 * m - x), d.pdf(x));
    // logpdf = -z^2/2 - ln(sd) - ln(2 pi)/2
    check_near("Gaussian: logpdf = -z^2/2 - ln sd - ln(2 pi)/2", d.logpdf(x) + z * z / 2.0 + s.ln(), -0.9189385332046727, 1e-12);
    let c = d.cdf(x);
    hx::check_eq("Gaussian: cdf(mean) = 1/2", d.cdf(m), 0.5);
    hx::check_eq("Gaussian: cdf(2 mean - x) = 1 - cdf(x)", d.cdf(2.0 * m - x), 1.0 - c);
    // documented approximation 1/2 (1 + sgn(z) sqrt(1 - exp(-2 z^2/pi)))
    let q = 2.0 * c - 1.0;
    check_near("Gaussian: cdf follows its sqrt(1 - exp(-2 z^2/pi)) form", (q * q - 1.0) + (-0.6366197723675814 * z * z).exp(), 0.0, 1e-12);
    hx::check("Gaussian: cdf in (0,1)", hx::and(hx::gt(c, 0.0), hx::lt(c, 1.0)));
    hx::check("Gaussian: cdf >= 1/2 iff x >= mean", hx::iff(hx::ge(c, 0.5), hx::ge(x, m)));
    hx::cover("end");
}
pub fn dist_gauss_mono() {
    let m = hx::var("mean");
    let s = hx::var_pos("sd");
    let x = hx::var("x");
    let y = hx::var("y");
    let d = Gaussian::from_std_dev(m, s);
    hx::assume(hx::lt(x, y));
    // compare on the right half line; the left half follows by symmetry (dist_gauss)
    hx::assume(hx::ge(x, m));
    let (a, b) = (2.0 * d.cdf(x) - 1.0, 2.0 * d.cdf(y) - 1.0);
    hx::check_le("Gaussian: cdf non-decreasing above the mean", a * a, b * b);
    hx::check_le("Gaussian: pdf non-increasing above the mean", d.pdf(y), d.pdf(x));
    let g = Gaussian::default();
    hx::check_eq("Gaussian: default mean 0 and variance 1 (pdf)", g.pdf(x), Gaussian::new(0.0, 1.0).pdf(x));
    hx::check_eq("Gaussian: default mean 0 and variance 1 (cdf)", g.cdf(x), Gaussian::new(0.0, 1.0).cdf(x));
    hx::cover("end");
}
pub fn dist_sample() {
    use rand::distributions::{IndependentSample, Sample};
    let m = hx::var("mean");
    let s = hx::var_pos("sd");
    let l = hx::var_pos("lambda");
    let mut rng = rand::thread_rng();
    // the k-th draw of the environment is named draw#k
    let mut g = if p("ctor") == 0 { Gaussian::new(m, s * s) } else { Gaussian::from_std_dev(m, s) };
    let a = g.sample(&mut rng);
    hx::check_eq("Gaussian: a sample is mean + sd * standard normal draw", a, m + s * hx::var("draw#0"));
    let b = g.ind_sample(&mut rng);
    hx::check_eq("Gaussian: ind_sample is mean + sd * standard normal draw", b, m + s * hx::var("draw#1"));
    let mut e = Exponential::new(l);
    let c = e.sample(&mut rng);
    hx::check_eq("Exponential: a sample is a unit exponential draw / lambda", c, hx::var("draw#2") / l);
    hx::check_le("Exponential: samples are non-negative", 0.0, c);
    let c = e.ind_sample(&mut rng);
    hx::check_eq("Exponential: ind_sample is a unit exponential draw / lambda", c, hx::var("draw#3") / l);
    hx::cover("end");
}

// ---------------------------------------------------------------- transformers
fn bounded(m: &Matrix<f64>) {
    for x in m.data().iter() {
        hx::assume(hx::and(hx::lt(*x, 1000000.0), hx::gt(*x, -1000000.0)));
    }
}
fn distinct_in_col(m: &Matrix<f64>, j: usize) -> B {
    let mut v = vec![];
    for i in 1..m.rows() {
        v.push(hx::ne(m[[0, j]], m[[i, j]]));
    }
    hx::any(&v)
}
pub fn minmax() {
    let (r, c) = (p("r"), p("c"));
    let m = vmat("x", r, c);
    bounded(&m);
    let dflt = p("dflt") == 1;
    let (lo, hi) = if dflt { (0.0, 1.0) } else { (hx::var("lo"), hx::var("hi")) };
    if !dflt {
        hx::assume(hx::lt(lo, hi));
    }
    let f = if dflt { MinMaxFitter::default() } else { MinMaxFitter::new(lo, hi) };
    let varied = hx::all(&(0..c).map(|j| distinct_in_col(&m, j)).collect::<Vec<_>>());
    match f.fit(&m) {
        Err(_) => {
            hx::cover("rejected");
            hx::check("fit fails only on a constant column", hx::not(varied));
        }
        Ok(mut t) => {
            hx::cover("fitted");
            hx::check("a constant column is rejected", varied);
            let out = t.transform(m.clone()).expect("transform of the fitted data");
            if !check_shape("transform keeps the shape", &out, r, c) {
                return;
            }
            for j in 0..c {
                let mut any_lo = vec![];
                let mut any_hi = vec![];
                for i in 0..r {
                    hx::check_le("every fitted value lands at or above the new minimum", lo, out[[i, j]]);
                    hx::check_le("every fitted value lands at or below the new maximum", out[[i, j]], hi);
                    any_lo.push(hx::eq(out[[i, j]], lo));
                    any_hi.push(hx::eq(out[[i, j]], hi));
                    for k in 0..i {
                        hx::check("order within a column is preserved", hx::iff(hx::lt(m[[i, j]], m[[k, j]]), hx::lt(out[[i, j]], out[[k, j]])));
                    }
                }
                hx::check("the new minimum is attained in every column", hx::any(&any_lo));
                hx::check("the new maximum is attained in every column", hx::any(&any_hi));
            }
            let back = t.inv_transform(out).expect("inverse transform");
            check_mat("inv_transform undoes transform", &back, &m);
            // unseen data: same affine map, in both directions
            let y = vmat("y", 1, c);
            let ty = t.transform(y.clone()).expect("transform of new data");
            let by = t.inv_transform(ty.clone()).expect("inverse of new data");
            check_mat("inv_transform undoes transform on unseen data", &by, &y);
            for j in 0..c {
                // collinear with the fitted column
                let (x0, x1) = (m[[0, j]], m[[1, j]]);
                let (t0, t1) = (t.transform(m.clone()).unwrap()[[0, j]], t.transform(m.clone()).unwrap()[[1, j]]);
                hx::check_eq("the map of a column is affine", (ty[[0, j]] - t0) * (x1 - x0), (t1 - t0) * (y[[0, j]] - x0));
            }
            hx::check_true("transform rejects another column count", t.transform(Matrix::zeros(2, c + 1)).is_err());
            hx::check_true("inv_transform rejects another column count", t.inv_transform(Matrix::zeros(2, c + 1)).is_err());
        }
    }
}
pub fn nonfinite() {
    let (r, c) = (2, 2);
    let k = hx::choose(4);
    let bad = [std::f64::NAN, std::f64::INFINITY, std::f64::NEG_INFINITY][hx::choose(3)];
    let mut m = vmat("x", r, c);
    bounded(&m);
    m[[k / 2, k % 2]] = bad;
    hx::check_true("MinMax: non-finite data is rejected", MinMaxFitter::<f64>::default().fit(&m).is_err());
    hx::check_true("Standardizer: non-finite data is rejected", StandardizerFitter::<f64>::default().fit(&m).is_err());
    hx::check_true("Normalizer: non-finite data is rejected", Normalizer::<f64, Euclidean>::default().transform(m).is_err());
    hx::cover("end");
}
pub fn standardize() {
    let (r, c) = (p("r"), p("c"));
    let m = vmat("x", r, c);
    let dflt = p("dflt") == 1;
    let (mu, sd) = if dflt { (0.0, 1.0) } else { (hx::var("mu"), hx::var_pos("sd")) };
    let f = if dflt { StandardizerFitter::default() } else { StandardizerFitter::new(mu, sd) };
    for j in 0..c {
        hx::assume(distinct_in_col(&m, j));
    }
    let mut t = match f.fit(&m) {
        Ok(t) => t,
        Err(_) => {
            hx::check_true("fit succeeds on data without constant columns", false);
            return;
        }
    };
    let out = t.transform(m.clone()).expect("transform of the fitted data");
    if !check_shape("transform keeps the shape", &out, r, c) {
        return;
    }
    let n = r as f64;
    for j in 0..c {
        let o = col(&out, j);
        hx::check_eq("each transformed column has the requested mean", sum(&o) / n, mu);
        let mut ss = 0.0;
        for x in &o {
            ss = ss + (*x - mu) * (*x - mu);
        }
        hx::check_eq("each transformed column has the requested (sample) standard deviation", ss / (n - 1.0), sd * sd);
        for i in 0..r {
            for k in 0..i {
                hx::check("order within a column is preserved", hx::iff(hx::lt(m[[i, j]], m[[k, j]]), hx::lt(out[[i, j]], out[[k, j]])));
            }
        }
    }
    let back = t.inv_transform(out).expect("inverse transform");
    check_mat("inv_transform undoes transform", &back, &m);
    let y = vmat("y", 1, c);
    let ty = t.transform(y.clone()).expect("transform of new data");
    let by = t.inv_transform(ty.clone()).expect("inverse of new data");
    check_mat("inv_transform undoes transform on unseen data", &by, &y);
    hx::check_true("transform rejects another column count", t.transform(Matrix::zeros(2, c + 1)).is_err());
    hx::check_true("inv_transform rejects another column count", t.inv_transform(Matrix::zeros(2, c + 1)).is_err());
    hx::cover("end");
}
pub fn standardize_degenerate() {
    let c = 2;
    // a single row cannot be standardised
    let m = vmat("s", 1, c);
    hx::check_true("a single row is rejected", StandardizerFitter::<f64>::default().fit(&m).is_err());
    // data with a constant column: an error, or finite output
    let mut d = vmat("x", p("r"), c);
    for i in 1..p("r") {
        d[[i, 1]] = d[[0, 1]];
    }
    match StandardizerFitter::<f64>::default().fit(&d) {
        Err(_) => hx::cover("rejected"),
        Ok(mut t) => match t.transform(d) {
            Err(_) => hx::cover("rejected"),
            Ok(o) => {
                for x in o.data().iter() {
                    hx::check_finite("a constant column never yields a non-finite value", *x);
                }
            }
        },
    }
}
pub fn normalize() {
    let (r, c) = (p("r"), p("c"));
    let m = vmat("x", r, c);
    let l1 = p("l1") == 1;
    let out = if l1 { Normalizer::new(Lp::Integer(1)).transform(m.clone()) } else { Normalizer::<f64, Euclidean>::default().transform(m.clone()) };
    let out = out.expect("finite data is normalised");
    if !check_shape("transform keeps the shape", &out, r, c) {
        return;
    }
    for i in 0..r {
        let (a, b) = (row(&m, i), row(&out, i));
        let zero = hx::decide(hx::all(&a.iter().map(|x| hx::same(*x, 0.0)).collect::<Vec<_>>()));
        if zero {
            hx::cover("zero row");
            for j in 0..c {
                hx::check_eq("a zero row is left unchanged", b[j], 0.0);
            }
            continue;
        }
        hx::cover("non-zero row");
        let mut n = 0.0;
        for x in &b {
            n = n + if l1 { x.abs() } else { *x * *x };
        }
        hx::check_eq("a non-zero row has unit norm afterwards", n, 1.0);
        for j in 0..c {
            hx::check_le("entries keep their sign", 0.0, a[j] * b[j]);
            for k in 0..j {
                hx::check_eq("a row keeps its direction", a[j] * b[k], a[k] * b[j]);
            }
        }
    }
}

// ---------------------------------------------------------------- scores
pub fn acc() {
    let n = p("n");
    let o = vvec("o", n);
    let t = vvec("t", n);
    let s = score::accuracy(o.iter(), t.iter());
    let mut k = 0.0;
    for i in 0..n {
        k = k + hx::ite(hx::eq(o[i], t[i]), 1.0, 0.0);
    }
    hx::check_eq("accuracy is the fraction of matching outputs", s * (n as f64), k);
    hx::check_true("accuracy panics on different lengths", hx::catch(|| score::accuracy(o.iter(), t[1..].iter())).is_err());
    hx::check_true("accuracy panics on different lengths", hx::catch(|| score::accuracy(o[1..].iter(), t.iter())).is_err());
    hx::cover("end");
}
pub fn row_acc() {
    let (n, c) = (p("n"), p("c"));
    let o = vmat("o", n, c);
    let t = vmat("t", n, c);
    let s = score::row_accuracy(&o, &t);
    let mut k = 0.0;
    for i in 0..n {
        let same: Vec<B> = (0..c).map(|j| hx::eq(o[[i, j]], t[[i, j]])).collect();
        k = k + hx::ite(hx::all(&same), 1.0, 0.0);
    }
    hx::check_eq("row_accuracy is the fraction of entirely matching rows", s * (n as f64), k);
    hx::cover("end");
}
pub fn prf() {
    let n = p("n");
    let o = vvec("o", n);
    let t = vvec("t", n);
    let bin = |x: f64| hx::or(hx::eq(x, 0.0), hx::eq(x, 1.0));
    for i in 0..n {
        hx::assume(hx::and(bin(o[i]), bin(t[i])));
    }
    let (mut tp, mut fp, mut fnn) = (0.0, 0.0, 0.0);
    for i in 0..n {
        let (po, pt) = (hx::eq(o[i], 1.0), hx::eq(t[i], 1.0));
        tp = tp + hx::ite(hx::and(po, pt), 1.0, 0.0);
        fp = fp + hx::ite(hx::and(po, hx::not(pt)), 1.0, 0.0);
        fnn = fnn + hx::ite(hx::and(hx::not(po), pt), 1.0, 0.0);
    }
    let which = p("which");
    let den = match which {
        0 => tp + fp,
        1 => tp + fnn,
        _ => 2.0 * tp + fp + fnn,
    };
    hx::assume(hx::gt(den, 0.0));
    match which {
        0 => {
            let pr = score::precision(o.iter(), t.iter());
            hx::check_eq("precision = tp / (tp + fp)", pr * den, tp);
            hx::check("precision in [0,1]", hx::and(hx::ge(pr, 0.0), hx::le(pr, 1.0)));
        }
        1 => {
            let re = score::recall(o.iter(), t.iter());
            hx::check_eq("recall = tp / (tp + fn)", re * den, tp);
            hx::check("recall in [0,1]", hx::and(hx::ge(re, 0.0), hx::le(re, 1.0)));
        }
        _ => {
            let f = score::f1(o.iter(), t.iter());
            hx::check_eq("f1 = 2 tp / (2 tp + fp + fn)", f * den, 2.0 * tp);
            hx::check("f1 in [0,1]", hx::and(hx::ge(f, 0.0), hx::le(f, 1.0)));
            if hx::decide(hx::gt(tp, 0.0)) {
                let (pr, re) = (score::precision(o.iter(), t.iter()), score::recall(o.iter(), t.iter()));
                hx::check_eq("f1 is the harmonic mean of precision and recall", f * (pr + re), 2.0 * pr * re);
            }
        }
    }
    hx::cover("end");
}
pub fn prf_panics() {
    let n = p("n");
    let o = vvec("o", n);
    let t = vvec("t", n);
    let mut ok = vec![];
    for i in 0..n {
        for x in [o[i], t[i]] {
            ok.push(hx::or(hx::eq(x, 0.0), hx::eq(x, 1.0)));
        }
    }
    let ok = hx::decide(hx::all(&ok));
    let which = p("which");
    let e = match which {
        0 => hx::catch(|| score::precision(o.iter(), t.iter())).is_err(),
        1 => hx::catch(|| score::recall(o.iter(), t.iter())).is_err(),
        _ => hx::catch(|| score::f1(o.iter(), t.iter())).is_err(),
    };
    hx::check_true("panics exactly when a label is not 0 or 1", e != ok);
    let e = match which {
        0 => hx::catch(|| score::precision(o[1..].iter(), t.iter())).is_err(),
        1 => hx::catch(|| score::recall(o[1..].iter(), t.iter())).is_err(),
        _ => hx::catch(|| score::f1(o[1..].iter(), t.iter())).is_err(),
    };
    hx::check_true("panics on different lengths", e);
    hx::cover(if ok { "binary" } else { "not binary" });
}
pub fn neg_mse() {
    let (r, c) = (p("r"), p("c"));
    let o = vmat("o", r, c);
    let t = vmat("t", r, c);
    let s = score::neg_mean_squared_error(&o, &t);
    let mut w = 0.0;
    for i in 0..r {
        for j in 0..c {
            w = w + (o[[i, j]] - t[[i, j]]) * (o[[i, j]] - t[[i, j]]);
        }
    }
    hx::check_eq("neg_mean_squared_error = - sum of squares / rows", s, -w / (r as f64));
    hx::check_le("neg_mean_squared_error is never positive", s, 0.0);
    hx::check_eq("neg_mean_squared_error is zero on the targets", score::neg_mean_squared_error(&t, &t), 0.0);
    hx::cover("end");
}

/// a label with symbolic identity and order; all labels share one hash bucket
#[derive(Clone, Copy, Debug)]
struct Lab(f64);
impl PartialEq for Lab {
    fn eq(&self, o: &Lab) -> bool {
        self.0 == o.0
    }
}
impl Eq for Lab {}
impl PartialOrd for Lab {
    fn partial_cmp(&self, o: &Lab) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Lab {
    fn cmp(&self, o: &Lab) -> std::cmp::Ordering {
        self.0.partial_cmp(&o.0).unwrap()
    }
}
impl std::hash::Hash for Lab {
    fn hash<H: std::hash::Hasher>(&self, _: &mut H) {}
}
pub fn confusion() {
    let n = p("n");
    let nl = p("labels");
    let pr: Vec<Lab> = vvec("p", n).into_iter().map(Lab).collect();
    let tr: Vec<Lab> = vvec("t", n).into_iter().map(Lab).collect();
    let given = if nl > 0 { Some(vvec("l", nl).into_iter().map(Lab).collect::<Vec<_>>()) } else { None };
    if let Some(ls) = &given {
        let mut dup = vec![];
        for i in 0..nl {
            for j in 0..i {
                dup.push(hx::eq(ls[i].0, ls[j].0));
            }
        }
        if hx::decide(hx::any(&dup)) {
            hx::cover("duplicate labels");
            hx::check_true("panics when the given labels are not distinct", hx::catch(|| confusion_matrix(&pr, &tr, given.clone())).is_err());
            return;
        }
    }
    hx::check_true("panics on different lengths", hx::catch(|| confusion_matrix(&pr[1..], &tr, given.clone())).is_err());
    let m = confusion_matrix(&pr, &tr, given.clone());
    // reference labels
    let labels: Vec<f64> = match &given {
        Some(l) => l.iter().map(|x| x.0).collect(),
        None => {
            let mut d: Vec<f64> = vec![];
            for x in pr.iter().chain(tr.iter()) {
                let mut seen = false;
                let mut at = 0;
                for y in &d {
                    if hx::decide(hx::eq(*y, x.0)) {
                        seen = true;
                    } else if hx::decide(hx::lt(*y, x.0)) {
                        at += 1;
                    }
                }
                if !seen {
                    d.insert(at, x.0);
                }
            }
            d
        }
    };
    let k = labels.len();
    hx::check_true("square, one row and column per label", m.rows() == k && m.cols() == k);
    if m.rows() != k || m.cols() != k {
        return;
    }
    for i in 0..k {
        for j in 0..k {
            let mut c = 0.0;
            for s in 0..n {
                c = c + hx::ite(hx::and(hx::eq(tr[s].0, labels[i]), hx::eq(pr[s].0, labels[j])), 1.0, 0.0);
            }
            hx::check_eq("entry (i,j) counts the samples of class i predicted as class j", m[[i, j]] as f64, c);
        }
    }
    hx::cover("end");
}
