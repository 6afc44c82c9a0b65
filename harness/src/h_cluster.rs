//! DBSCAN and k-means
use crate::util::*;
use rm::learning::dbscan::DBSCAN;
use rm::learning::error::{Error, ErrorKind};
use rm::learning::k_means::{Forgy, Initializer, KMeansClassifier, KPlusPlus, RandomPartition};
use rm::learning::{LearningResult, UnSupModel};
use std::cell::RefCell;

fn check_clusters(c: &[Option<usize>], n: usize, near: &Vec<Vec<bool>>, min: usize) {
    hx::check_true("every sample has an entry", c.len() == n);
    if c.len() != n {
        return;
    }
    let core: Vec<bool> = (0..n).map(|i| near[i].iter().filter(|b| **b).count() >= min).collect();
    // connected components of the core points
    let mut comp: Vec<usize> = (0..n).collect();
    for _ in 0..n {
        for i in 0..n {
            for j in 0..n {
                if core[i] && core[j] && near[i][j] {
                    let m = comp[i].min(comp[j]);
                    comp[i] = m;
                    comp[j] = m;
                }
            }
        }
    }
    for i in 0..n {
        let by_core = (0..n).any(|j| core[j] && near[i][j]);
        hx::check_true("a sample without a core sample in its neighbourhood is noise", by_core || c[i].is_none());
        hx::check_true("a sample with a core sample in its neighbourhood is in a cluster", !by_core || c[i].is_some());
        if !core[i] {
            if let Some(k) = c[i] {
                hx::check_true("a border sample is in the cluster of a core sample near it", (0..n).any(|j| core[j] && near[i][j] && c[j] == Some(k)));
            }
        }
        for j in 0..n {
            if core[i] && core[j] {
                hx::check_true("core samples share a cluster exactly if they are connected", (c[i] == c[j]) == (comp[i] == comp[j]));
            }
        }
    }
    let k = c.iter().filter_map(|x| *x).map(|x| x + 1).max().unwrap_or(0);
    hx::check_true("clusters are numbered from 0 without gaps", (0..k).all(|t| c.contains(&Some(t))));
}
pub fn dbscan() {
    let (n, d, min) = (p("n"), p("d"), p("min"));
    let eps = if p("eps") == 0 { hx::var_pos("eps") } else { 1.0 / p("eps") as f64 };
    let mut x0 = vvec("x", n);
    if optional("star").is_some() {
        // a crowd, then a sample at its edge, then one that only the edge may know
        for i in 0..n - 1 {
            x0[i] = if i == n - 2 { 0.0 } else { i as f64 / 64.0 - 0.875 };
        }
    }
    let x = Matrix::from_fn(n, d, |j, i| if j == 0 { x0[i] } else { (i % 2) as f64 * 0.5 });
    let mut m = if p("dflt") == 1 { DBSCAN::default() } else { DBSCAN::new(eps, min) };
    let (eps, min) = if p("dflt") == 1 { (0.5, 5) } else { (eps, min) };
    hx::check_true("no clusters before training", m.clusters().is_none());
    hx::check_true("predicting with a model that is not predictive is an error", m.predict(&x).is_err());
    let pr = p("predict") == 1;
    m.set_predictive(pr);
    hx::check_true("predicting before training is an error", m.predict(&x).is_err());
    m.train(&x).expect("training");
    let mut near = vec![vec![true; n]; n];
    for i in 0..n {
        for j in 0..i {
            let b = hx::decide(hx::lt(sqd(&row(&x, i), &row(&x, j)), eps * eps));
            near[i][j] = b;
            near[j][i] = b;
        }
    }
    let c = m.clusters().expect("clusters").data().clone();
    check_clusters(&c, n, &near, min);
    if pr {
        let u = Matrix::from_fn(1, d, |j, _| if j == 0 { hx::var("u") } else { 0.25 });
        let r = m.predict(&u).expect("prediction");
        hx::check_true("one prediction per row", r.size() == 1);
        let ds: Vec<f64> = (0..n).map(|i| sqd(&row(&x, i), &row(&u, 0))).collect();
        let mut best = 0;
        for i in 1..n {
            if hx::decide(hx::lt(ds[i], ds[best])) {
                best = i;
            }
        }
        if hx::decide(hx::lt(ds[best], eps * eps)) {
            // equally close samples may be in different clusters
            let ok = (0..n).any(|i| c[i] == r[0] && (i == best || hx::decide(hx::eq(ds[i], ds[best]))));
            hx::check_true("a new point near the data gets the cluster of the closest sample", ok);
            hx::cover("near");
        } else {
            hx::check_true("a new point further than eps from every sample is noise", r[0].is_none());
            hx::cover("far");
        }
    } else {
        hx::check_true("predicting with a model that is not predictive is an error", m.predict(&x).is_err());
    }
    hx::cover("end");
}
/// training again, predictive or not, forgets the first data
pub fn dbscan_again() {
    let (a, b) = (p("a"), p("b"));
    let x = vmat("x", a, 1);
    let z = Matrix::from_fn(b, 1, |_, i| i as f64 * 10.0 + hx::var_pos("z"));
    let mut m = DBSCAN::new(1.0, 1);
    m.set_predictive(p("p1") == 1);
    m.train(&x).expect("training");
    m.set_predictive(p("p2") == 1);
    m.train(&z).expect("training again");
    m.set_predictive(true);
    let c = m.clusters().expect("clusters").data().clone();
    hx::check_true("clusters are those of the last data", c == (0..b).map(|i| Some(i)).collect::<Vec<_>>());
    let r = m.predict(&z);
    if p("p2") == 1 {
        hx::check_true("predictions are those of the last data", r.expect("prediction").data().clone() == c);
    } else {
        hx::check_true("a model that was not predictive when it was trained does not predict from older data", r.is_err());
    }
    hx::cover("end");
}

#[derive(Debug)]
struct Start(Matrix<f64>);
impl Initializer for Start {
    fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        Ok(self.0.clone())
    }
}
#[derive(Debug)]
struct Refuse;
impl Initializer for Refuse {
    fn init_centroids(&self, _: usize, _: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        Err(Error::new(ErrorKind::InvalidData, "refused"))
    }
}
/// which centroid is the closest, the first of equally close ones
fn closest(c: &Vec<Vec<f64>>, x: &[f64]) -> (usize, f64) {
    let ds: Vec<f64> = c.iter().map(|r| sqd(r, x)).collect();
    let mut b = 0;
    for k in 1..ds.len() {
        if hx::decide(hx::lt(ds[k], ds[b])) {
            b = k;
        }
    }
    (b, ds[b])
}
/// Lloyd's steps from given centroids
pub fn kmeans() {
    let (n, d, k, iters) = (p("n"), p("d"), p("k"), p("iters"));
    let x = vmat("x", n, d);
    let c0 = vmat("c", k, d);
    let u = vmat("u", 1, d);
    let mut m = KMeansClassifier::new_specified(k, iters, Start(c0.clone()));
    hx::check_true("untrained: predict is an error", m.predict(&u).is_err() && m.centroids().is_none());
    m.train(&x).expect("training");
    let mut c: Vec<Vec<f64>> = (0..k).map(|i| row(&c0, i)).collect();
    let mut prev: Option<f64> = None;
    for _ in 0..iters {
        let mut cost = 0.0;
        let mut sums = vec![vec![0.0; d]; k];
        let mut count = vec![0; k];
        for i in 0..n {
            let (b, dist) = closest(&c, &row(&x, i));
            cost = cost + dist;
            count[b] += 1;
            for j in 0..d {
                sums[b][j] = sums[b][j] + x[[i, j]];
            }
        }
        for b in 0..k {
            if count[b] > 0 {
                for j in 0..d {
                    c[b][j] = sums[b][j] / count[b] as f64;
                }
            } else {
                hx::cover("empty cluster");
            }
        }
        let before = prev.unwrap_or(0.0);
        if hx::decide(hx::and(hx::lt(cost - before, 1e-14), hx::lt(before - cost, 1e-14))) {
            break;
        }
        prev = Some(cost);
    }
    let got = m.centroids().as_ref().expect("centroids").clone();
    if !check_shape("one centroid per cluster", &got, k, d) {
        return;
    }
    for b in 0..k {
        check_vec("centroids are the means of the samples closest to them (a centroid without samples stays)", &row(&got, b), &c[b]);
    }
    let r = m.predict(&u).expect("prediction");
    let (b, _) = closest(&c, &row(&u, 0));
    hx::check_true("prediction is the closest centroid", r.size() == 1 && r[0] == b);
    hx::cover("end");
}
/// the initial centroids: 0 Forgy, 1 random partition, 2 k-means++
/// which parts the samples can be put in
fn partitions() {
    let (n, k) = (p("n"), p("k"));
    let x = Matrix::from_fn(n, 1, |_, i| 10f64.powi(i as i32));
    let c = RandomPartition.init_centroids(k, &x).expect("centroids");
    // the sums of parts of 1, 10, 100, ... show their members
    for code in 0..k.pow(n as u32) {
        let class: Vec<usize> = (0..n).map(|i| code / k.pow(i as u32) % k).collect();
        let parts: Vec<Vec<f64>> = (0..k).map(|b| (0..n).filter(|i| class[*i] == b).map(|i| x[[i, 0]]).collect()).collect();
        if parts.iter().all(|v| v.len() > 0) && hx::decide(hx::all(&(0..k).map(|b| hx::eq(c[[b, 0]] * parts[b].len() as f64, sum(&parts[b]))).collect::<Vec<_>>())) {
            // numbered from the parts of the first samples on
            hx::cover(&format!("parts {:?}", class));
        }
    }
    hx::cover("end");
}
pub fn kmeans_init() {
    let (f, n, k) = (p("f"), p("n"), p("k"));
    if f == 3 {
        return partitions();
    }
    let x = vmat("x", n, 1);
    // different rows
    for i in 0..n {
        for j in 0..i {
            hx::assume(hx::ne(x[[i, 0]], x[[j, 0]]));
        }
    }
    rand::draws::free();
    rand::draws::limit(k + 2);
    let c = match f {
        0 => Forgy.init_centroids(k, &x),
        1 => RandomPartition.init_centroids(k, &x),
        _ => KPlusPlus.init_centroids(k, &x),
    }
    .expect("centroids");
    if !check_shape("k centroids", &c, k, 1) {
        return;
    }
    let row_of = |v: f64| (0..n).find(|i| hx::decide(hx::same(v, x[[*i, 0]])));
    match f {
        0 => {
            let rows: Vec<Option<usize>> = (0..k).map(|b| row_of(c[[b, 0]])).collect();
            hx::check_true("Forgy: centroids are rows", rows.iter().all(|r| r.is_some()));
            hx::check_true("Forgy: centroids are different rows", (0..k).all(|a| (0..a).all(|b| rows[a] != rows[b])));
            hx::cover(&format!("rows {:?}", rows.iter().map(|r| r.unwrap_or(n)).collect::<Vec<_>>()));
        }
        1 => {
            // the centroids are the means of some k non-empty parts
            let mut all = vec![];
            for code in 0..k.pow(n as u32) {
                let class: Vec<usize> = (0..n).map(|i| code / k.pow(i as u32) % k).collect();
                let parts: Vec<Vec<f64>> = (0..k).map(|b| (0..n).filter(|i| class[*i] == b).map(|i| x[[i, 0]]).collect()).collect();
                if parts.iter().all(|v| v.len() > 0) {
                    let same = hx::all(&(0..k).map(|b| hx::eq(c[[b, 0]] * parts[b].len() as f64, sum(&parts[b]))).collect::<Vec<_>>());
                    all.push(same);
                }
            }
            hx::check("random partition: centroids are the means of non-empty parts", hx::any(&all));
        }
        _ => {
            let first = row_of(c[[0, 0]]);
            hx::check_true("the first centroid is a row", first.is_some());
            hx::cover(&format!("first {}", first.unwrap_or(n)));
            for b in 1..k {
                // the row whose share of the squared distances to the closest centroid is drawn
                let ds: Vec<f64> = (0..n).map(|i| closest(&(0..b).map(|t| vec![c[[t, 0]]]).collect(), &[x[[i, 0]]]).1).collect();
                let r = hx::draw(b - 1) * sum(&ds);
                let mut before = 0.0;
                for i in 0..n {
                    let after = before + ds[i];
                    hx::check("k-means++: rows are drawn in proportion to their squared distance", hx::implies(hx::and(hx::le(before, r), hx::lt(r, after)), hx::eq(c[[b, 0]], x[[i, 0]])));
                    before = after;
                }
            }
        }
    }
    hx::cover("end");
}
pub fn kmeans_refused() {
    let x = vmat("x", 2, 2);
    hx::check_true("more clusters than samples are an error", KMeansClassifier::new_specified(3, 2, Start(vmat("a", 3, 2))).train(&x).is_err());
    hx::check_true("a wrong number of initial centroids is an error", KMeansClassifier::new_specified(2, 2, Start(vmat("b", 1, 2))).train(&x).is_err());
    hx::check_true("initial centroids of a wrong width are an error", KMeansClassifier::new_specified(2, 2, Start(vmat("e", 2, 1))).train(&x).is_err());
    let mut m = KMeansClassifier::new_specified(2, 2, Refuse);
    hx::check_true("an error of the initializer is returned", m.train(&x).is_err());
    hx::check_true("a refused training leaves the model untrained", m.predict(&x).is_err() && m.centroids().is_none());
    let mut m = KMeansClassifier::new(2);
    hx::check_true("accessors", m.k() == 2 && m.iters() == 100);
    m.set_iters(3);
    hx::check_true("accessors", m.iters() == 3);
    hx::cover("end");
}
