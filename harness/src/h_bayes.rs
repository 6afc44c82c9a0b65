//! naive Bayes and principal components
use crate::util::*;
use rm::learning::naive_bayes::{Bernoulli, Distribution, Gaussian, Multinomial, NaiveBayes};
use rm::learning::pca::PCA;
use rm::learning::{SupModel, UnSupModel};

const PI: f64 = 3.14159265358979323846;

/// class of sample i out of k, as the digits of `code`
fn classes(n: usize, k: usize, code: usize) -> Vec<usize> {
    let mut c = code;
    (0..n)
        .map(|_| {
            let t = c % k;
            c /= k;
            t
        })
        .collect()
}
fn one_hot(cl: &[usize], k: usize) -> Matrix<f64> {
    Matrix::from_fn(cl.len(), k, |j, i| if cl[i] == j { 1.0 } else { 0.0 })
}
fn bayes<T: Distribution>(f: usize) {
    let (n, d, k, m) = (p("n"), p("d"), p("k"), p("m"));
    let cl = classes(n, k, p("code"));
    let x = vmat("x", n, d);
    let u = vmat("u", m, d);
    let count = |c: usize| cl.iter().filter(|t| **t == c).count();
    for v in x.iter() {
        if f > 0 {
            hx::assume(hx::ge(*v, 0.0));
        }
        if f == 1 {
            hx::assume(hx::le(*v, 1.0));
        }
    }
    let y = one_hot(&cl, k);
    let mut b: NaiveBayes<T> = NaiveBayes::new();
    hx::check_true("untrained: predict is an error", b.predict(&u).is_err() && b.get_log_probs(&u).is_err());
    hx::check_true("untrained: nothing to see", b.cluster_count().is_none() && b.class_prior().is_none() && b.distr().is_none());
    if f == 0 {
        // several values for every feature in every class
        for c in 0..k {
            let rows: Vec<usize> = (0..n).filter(|i| cl[*i] == c).collect();
            for j in 0..d {
                for r in rows.iter().skip(1).take(1) {
                    hx::assume(hx::ne(x[[*r, j]], x[[rows[0], j]]));
                }
            }
        }
    }
    let r = b.train(&x, &y);
    if f == 0 && (0..k).any(|c| count(c) == 1) {
        hx::check_true("a class with a single sample has no variance: an error", r.is_err());
        hx::check_true("a refused training leaves the model untrained", b.predict(&u).is_err() && b.get_log_probs(&u).is_err());
        hx::cover("end");
        return;
    }
    hx::check_true("training succeeds", r.is_ok());
    hx::check_true("classes are counted", b.cluster_count() == Some(&k));
    let prior = b.class_prior().expect("prior").clone();
    hx::check_true("one prior per class", prior.len() == k);
    for c in 0..k {
        hx::check_eq("priors are the shares of the classes", prior[c] * n as f64, count(c) as f64);
    }
    let g = b.get_log_probs(&u).expect("log probabilities");
    if !check_shape("a log probability per sample and class", &g, m, k) {
        return;
    }
    let live: Vec<usize> = (0..k).filter(|c| count(*c) > 0).collect();
    for i in 0..m {
        for &c in &live {
            let nc = count(c) as f64;
            let mut want = (nc / n as f64).ln();
            let xs = |j: usize| (0..n).filter(|t| cl[*t] == c).map(|t| x[[t, j]]).collect::<Vec<f64>>();
            let total = sum(&(0..d).map(|j| sum(&xs(j)) + 1.0).collect::<Vec<_>>());
            for j in 0..d {
                let v = xs(j);
                let z = u[[i, j]];
                match f {
                    0 => {
                        let mean = sum(&v) / nc;
                        let var = sum(&v.iter().map(|a| (*a - mean) * (*a - mean)).collect::<Vec<_>>()) / (nc - 1.0);
                        want = want - 0.5 * (var * 2.0 * PI).ln() - (z - mean) * (z - mean) / var / 2.0;
                    }
                    1 => {
                        let (a, t) = (sum(&v) + 1.0, nc + 2.0);
                        want = want + z * (a.ln() - t.ln()) + (1.0 - z) * (1.0 - a / t).ln();
                    }
                    _ => want = want + z * ((sum(&v) + 1.0).ln() - total.ln()),
                }
            }
            hx::check_eq("log probabilities are those of the model fitted to the class", g[[i, c]], want);
        }
    }
    let o = b.predict(&u).expect("prediction");
    if !check_shape("one row per sample, one column per class", &o, m, k) {
        return;
    }
    for i in 0..m {
        let mut best = live[0];
        for &c in &live[1..] {
            if hx::decide(hx::gt(g[[i, c]], g[[i, best]])) {
                best = c;
            }
        }
        for c in 0..k {
            hx::check_eq("prediction marks the most probable class (the first of equally probable ones)", o[[i, c]], if c == best { 1.0 } else { 0.0 });
        }
    }
    hx::cover("end");
}
pub fn nbayes() {
    match p("f") {
        0 => bayes::<Gaussian>(0),
        1 => bayes::<Bernoulli>(1),
        _ => bayes::<Multinomial>(2),
    }
}
pub fn nbayes_refused() {
    let x = vmat("x", 3, 1);
    let y = Matrix::from_fn(3, 2, |j, i| hx::var(&format!("y{}_{}", i, j)));
    let mut b: NaiveBayes<Multinomial> = NaiveBayes::new();
    for v in x.iter() {
        hx::assume(hx::ge(*v, 0.0));
    }
    let ok = hx::all(&(0..3).map(|i| hx::or(hx::eq(y[[i, 0]], 1.0), hx::eq(y[[i, 1]], 1.0))).collect::<Vec<_>>());
    match b.train(&x, &y) {
        Ok(_) => {
            hx::check("a target row without a class is an error", ok);
            let n0 = (0..3).filter(|i| hx::decide(hx::eq(y[[*i, 0]], 1.0))).count();
            hx::check_eq("the class is the first column with a 1", b.class_prior().unwrap()[0] * 3.0, n0 as f64);
            hx::cover("accepted");
        }
        Err(_) => {
            hx::check("target rows with a class are accepted", hx::not(ok));
            hx::check_true("a refused training leaves the model untrained", b.predict(&x).is_err());
            hx::cover("refused");
        }
    }
    let y = one_hot(&[0, 1, 0], 2);
    hx::check_true("different numbers of inputs and targets are an error", b.train(&vmat("z", 2, 1), &y).is_err() && b.train(&vmat("z", 4, 1), &y).is_err());
}

/// r x c data, the first n components (0: all)
pub fn pca() {
    let (r, c, n, center) = (p("r"), p("c"), p("n"), p("center") == 1);
    let x = vmat("x", r, c);
    let u = vmat("u", 1, c);
    let mut m = if n == 0 { PCA::default() } else { PCA::new(n, center) };
    let center = n == 0 || center;
    hx::check_true("untrained: predict and components are errors", m.predict(&u).is_err() && m.components().is_err());
    // an earlier training on data of another shape changes nothing
    match p("first") {
        1 => {
            let z = Matrix::from_fn(1, c + 1, |j, _| j as f64);
            let _ = m.train(&z);
        }
        2 => {
            let z = Matrix::from_fn(c + 1, c, |j, i| (i * j + i) as f64);
            let _ = m.train(&z);
        }
        _ => {}
    }
    m.train(&x).expect("training");
    let k = if n == 0 { r.min(c) } else { n };
    let comp = m.components().expect("components").clone();
    // components are columns, or rows if there are more columns than rows
    let wide = c > r;
    let at = |f: usize, j: usize| if wide { comp[[j, f]] } else { comp[[f, j]] };
    let ok = if wide { check_shape("components by features", &comp, k, c) } else { check_shape("features by components", &comp, c, k) };
    if !ok {
        return;
    }
    let mean: Vec<f64> = (0..c).map(|j| if center { sum(&col(&x, j)) / r as f64 } else { 0.0 }).collect();
    let o = m.predict(&u).expect("prediction");
    if check_shape("a score per component", &o, 1, k) {
        for j in 0..k {
            let mut s = 0.0;
            for f in 0..c {
                s = s + (u[[0, f]] - mean[f]) * at(f, j);
            }
            hx::check_eq("scores are the components of the (centred) point", o[[0, j]], s);
        }
    }
    if p("spectral") > 0 {
        for i in 0..k {
            for j in 0..i + 1 {
                let mut s = 0.0;
                for f in 0..c {
                    s = s + at(f, i) * at(f, j);
                }
                hx::check_eq("components are orthonormal", s, if i == j { 1.0 } else { 0.0 });
            }
        }
        let o = m.predict(&x).expect("prediction");
        let gram = |i: usize, j: usize| dot(&col(&o, i), &col(&o, j));
        for i in 0..k {
            for j in 0..i {
                hx::check_eq("scores of the training data are uncorrelated", gram(i, j), 0.0);
                if p("spectral") > 1 {
                    hx::check("components are in order of decreasing variance", hx::ge(gram(j, j), gram(i, i)));
                }
            }
        }
    }
    hx::check_true("points with a wrong number of columns are an error", m.predict(&vmat("w", 1, c + 1)).is_err());
    hx::cover("end");
}
pub fn pca_refused() {
    let x = vmat("x", 3, 2);
    let mut m = PCA::new(3, true);
    hx::check_true("more components than columns are an error", m.train(&x).is_err());
    hx::check_true("a refused training leaves the model untrained", m.predict(&x).is_err() && m.components().is_err());
    let y = vmat("y", 2, 3);
    hx::check_true("more components than rows are an error", m.train(&y).is_err());
    hx::cover("end");
}
