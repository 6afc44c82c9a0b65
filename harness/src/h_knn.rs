//! nearest neighbours
use crate::util::*;
use rm::learning::error::{Error, ErrorKind};
use rm::learning::knn::{BallTree, BruteForce, KDTree, KNNClassifier, KNearestSearch};
use rm::learning::SupModel;
use std::cell::RefCell;

fn search<S: KNearestSearch>(mut s: S) {
    let (n, d, k, first, grid) = (p("n"), p("d"), p("k"), p("first"), p("grid"));
    hx::check_true("searching before building is an error", s.search(&vec![0.0; d], k).is_err());
    // grid = 0: every coordinate is symbolic; otherwise only the first coordinate of every row (1) or of the query (2) is
    // (layouts in which branches of the trees matter, see DESIGN.md)
    let lay: [&[(i32, i32)]; 4] = [
        &[(0, 5), (7, 4), (3, 3), (10, 2), (6, 1)],
        &[(7, 6), (4, 2), (2, 10), (3, 8)],
        &[(8, 4), (9, 1), (5, 3), (10, 1), (11, 11)],
        &[(5, 4), (9, 5), (3, 10), (4, 0), (2, 10), (5, 9)],
    ];
    let at = |i: usize, j: usize| (if j == 0 { lay[p("lay")][i].0 } else { lay[p("lay")][i].1 }) as f64;
    let x = if grid == 0 || grid == 3 { vmat("x", n, d) } else { Matrix::from_fn(n, d, |j, i| if grid == 1 && j == 0 { hx::var(&format!("x{}_{}", i, j)) } else { at(i, j) }) };
    let q: Vec<f64> = if grid == 0 || grid == 3 { vvec("q", d) } else { (0..d).map(|j| if grid == 2 || j == 0 { hx::var(&format!("q{}", j)) } else { 4.0 }).collect() };
    // far below the largest float, which stands for an unknown distance
    for v in x.iter().chain(q.iter()) {
        hx::assume(hx::and(hx::le(*v, 1e100), hx::ge(*v, -1e100)));
    }
    // layouts that are otherwise fixed: a part of the line of queries
    if grid == 3 {
        for v in q.iter().filter(|v| hx::value(**v).is_none()) {
            hx::assume(hx::and(hx::ge(*v, p("lo") as f64), hx::le(*v, p("lo") as f64 + 1.0)));
        }
    }
    // the first column of the rows is in increasing order; swapped pairs are explored with `first`
    if first == 1 {
        for i in 1..n {
            hx::assume(hx::le(x[[i - 1, 0]], x[[i, 0]]));
        }
    }
    s.build(x.clone());
    let (idx, dist) = match s.search(&q, k) {
        Ok(r) => r,
        Err(_) => {
            hx::check_true("searching after building succeeds", false);
            return;
        }
    };
    hx::check_true("k indices and distances are returned", idx.len() == k && dist.len() == k);
    if idx.len() != k || dist.len() != k {
        return;
    }
    hx::check_true("indices are rows of the data", idx.iter().all(|i| *i < n));
    hx::check_true("no row is returned twice", (0..k).all(|a| (0..a).all(|b| idx[a] != idx[b])));
    if idx.iter().any(|i| *i >= n) {
        return;
    }
    for a in 0..k {
        hx::check("distances are not negative", hx::ge(dist[a], 0.0));
        hx::check_eq("distances are Euclidean distances of the returned rows", dist[a] * dist[a], sqd(&row(&x, idx[a]), &q));
        if a > 0 {
            hx::check("distances are in increasing order", hx::le(dist[a - 1], dist[a]));
        }
    }
    let last = sqd(&row(&x, idx[k - 1]), &q);
    for i in 0..n {
        if !idx.contains(&i) {
            hx::check("no other row is closer than the k-th", hx::ge(sqd(&row(&x, i), &q), last));
        }
    }
    hx::cover("end");
}
pub fn knn() {
    let leaf = p("leaf");
    match p("s") {
        0 => search(BruteForce::new()),
        1 => search(KDTree::new(leaf)),
        _ => search(BallTree::new(leaf)),
    }
}
/// rows that cannot be separated: building and searching end
pub fn knn_same() {
    fn go<S: KNearestSearch>(mut s: S) {
        let (n, k) = (p("n"), p("k"));
        let v = [hx::var("x"), hx::var("y")];
        let q = vvec("q", 2);
        s.build(Matrix::from_fn(n, 2, |j, _| v[j]));
        let (idx, dist) = s.search(&q, k).expect("search");
        hx::check_true("k indices and distances are returned", idx.len() == k && dist.len() == k);
        hx::check_true("no row is returned twice", idx.iter().all(|i| *i < n) && (0..k).all(|a| (0..a).all(|b| idx[a] != idx[b])));
        for d in dist {
            hx::check_eq("distances are Euclidean distances of the returned rows", d * d, sqd(&v, &q));
        }
        hx::cover("end");
    }
    match p("s") {
        0 => go(BruteForce::new()),
        1 => go(KDTree::new(p("leaf"))),
        _ => go(BallTree::new(p("leaf"))),
    }
}

/// a search whose answers are given
#[derive(Default)]
struct Given {
    data: Option<Matrix<f64>>,
    n: usize,
    asked: RefCell<Vec<(Vec<f64>, usize)>>,
    answers: Vec<Vec<usize>>,
}
impl KNearestSearch for Given {
    fn build(&mut self, data: Matrix<f64>) {
        self.data = Some(data);
    }
    fn search(&self, point: &[f64], k: usize) -> Result<(Vec<usize>, Vec<f64>), Error> {
        let i = self.asked.borrow().len();
        self.asked.borrow_mut().push((point.to_vec(), k));
        if i >= self.answers.len() {
            return Err(Error::new(ErrorKind::InvalidData, "refused"));
        }
        Ok((self.answers[i].clone(), vec![1.0; self.answers[i].len()]))
    }
}
thread_local!(static LAST: RefCell<Option<(Matrix<f64>, Vec<(Vec<f64>, usize)>)>> = RefCell::new(None));
impl Drop for Given {
    fn drop(&mut self) {
        if let Some(d) = self.data.take() {
            LAST.with(|l| *l.borrow_mut() = Some((d, self.asked.borrow().clone())));
        }
    }
}
/// majority vote among the neighbours, for every set of neighbours and every labelling
pub fn knn_vote() {
    let (n, k, m, fail) = (p("n"), p("k"), p("m"), p("fail"));
    let x = vmat("x", n, 2);
    let u = vmat("u", m, 2);
    // long: only the first choices are free
    let pick = |i: usize, n: usize, m: usize| if n <= 6 || i < 2 { hx::choose(m) } else { (7 * i + 3 + i / 3) % m };
    let y: Vec<usize> = (0..n).map(|i| [7, 0, 3][pick(i, n, 3)]).collect();
    let mut answers = vec![];
    for _ in 0..m {
        let mut free: Vec<usize> = (0..n).collect();
        let mut a = vec![];
        for t in 0..k {
            let i = pick(t + 1, n, free.len());
            a.push(free.remove(i));
        }
        answers.push(a);
    }
    let mut s = Given::default();
    s.answers = if fail == 1 { answers[..m - 1].to_vec() } else { answers.clone() };
    let mut c = KNNClassifier::new_specified(k, s);
    hx::check_true("untrained: predict is an error", c.predict(&u).is_err());
    c.train(&x, &Vector::new(y.clone())).expect("training");
    let r = c.predict(&u);
    drop(c);
    let (d, asked) = LAST.with(|l| l.borrow_mut().take()).expect("searcher is built");
    check_mat("the searcher is built with the inputs", &d, &x);
    for i in 0..asked.len().min(m) {
        check_vec("the searcher is asked about the rows in order", &asked[i].0, &row(&u, i));
        hx::check_true("the searcher is asked for k neighbours", asked[i].1 == k);
    }
    if fail == 1 {
        hx::check_true("an error of the searcher is returned", r.is_err());
        hx::cover("end");
        return;
    }
    let r = r.expect("prediction");
    hx::check_true("one prediction per row", r.size() == m && asked.len() == m);
    for i in 0..m {
        let votes = |l: usize| answers[i].iter().filter(|t| y[**t] == l).count();
        let mut best = 0;
        for l in &[0usize, 3, 7] {
            if votes(*l) > votes(best) {
                best = *l;
            }
        }
        hx::check_true("prediction is the most frequent label of the neighbours (the smallest of equally frequent ones)", r[i] == best);
    }
    hx::cover("end");
}
pub fn knn_refused() {
    let x = vmat("x", 3, 1);
    let u = vmat("u", 1, 1);
    let mut c = KNNClassifier::new(2);
    hx::check_true("different lengths are an error", c.train(&x, &Vector::new(vec![0, 1])).is_err() && c.train(&x, &Vector::new(vec![0, 1, 1, 0])).is_err());
    hx::check_true("a refused training leaves the model untrained", c.predict(&u).is_err());
    hx::check_true("less than k rows are an error", KNNClassifier::new(4).train(&x, &Vector::new(vec![0, 1, 0])).is_err());
    hx::check_true("k rows are accepted", KNNClassifier::new(3).train(&x, &Vector::new(vec![0, 1, 0])).is_ok());
    hx::check_true("the default searches 5 neighbours", KNNClassifier::default().train(&vmat("z", 4, 1), &Vector::new(vec![0, 1, 0, 1])).is_err() && KNNClassifier::default().train(&vmat("z", 5, 1), &Vector::new(vec![0, 1, 0, 1, 0])).is_ok());
    hx::cover("end");
}
