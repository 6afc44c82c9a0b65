//! shuffles and samples: decided by Kani on the real code (symbolic draws); the same functions, compiled
//! natively, replay what it reports
use rand::draws;
use rm::data::transforms::shuffle::Shuffler;
use rm::data::transforms::Transformer;
use rm::learning::toolkit::rand_utils::{fisher_yates, in_place_fisher_yates, reservoir_sample};
use rm::linalg::{BaseMatrix, Matrix};

#[cfg(kani)]
macro_rules! chk {
    ($l:expr, $c:expr) => {
        kani::assert($c, $l)
    };
}
#[cfg(not(kani))]
macro_rules! chk {
    ($l:expr, $c:expr) => {
        symx::hx::check_true($l, $c)
    };
}
#[cfg(kani)]
fn choose(n: usize) -> usize {
    let k: usize = kani::any();
    kani::assume(k < n);
    k
}
#[cfg(not(kani))]
fn choose(n: usize) -> usize {
    symx::hx::choose(n)
}

fn is_perm<const N: usize>(v: &[u8]) -> bool {
    if v.len() != N {
        return false;
    }
    let mut seen = [false; N];
    let mut i = 0;
    while i < N {
        let k = v[i] as usize;
        if k >= N || seen[k] {
            return false;
        }
        seen[k] = true;
        i += 1;
    }
    true
}
fn ident<const N: usize>() -> [u8; N] {
    let mut a = [0u8; N];
    let mut i = 0;
    while i < N {
        a[i] = i as u8;
        i += 1;
    }
    a
}
fn same(a: &[u8], b: &[u8]) -> bool {
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn fact(n: usize) -> usize {
    if n <= 1 {
        1
    } else {
        n * fact(n - 1)
    }
}
/// which = 0: the matrix shuffler, 1: fisher_yates, 2: in_place_fisher_yates
fn shuffled<const N: usize>(which: usize) -> Vec<u8> {
    let a: [u8; N] = ident::<N>();
    match which {
        0 => {
            let mut d = Vec::with_capacity(2 * N);
            let mut i = 0;
            while i < N {
                d.push(a[i]);
                d.push(100 + a[i]);
                i += 1;
            }
            let m = Shuffler::new(rand::thread_rng()).transform(Matrix::new(N, 2, d)).unwrap();
            chk!("the shape is kept", m.rows() == N && m.cols() == 2);
            let mut v = Vec::with_capacity(N);
            let mut i = 0;
            while i < N {
                chk!("rows are moved as a whole", m[[i, 1]] == 100 + m[[i, 0]]);
                v.push(m[[i, 0]]);
                i += 1;
            }
            v
        }
        1 => fisher_yates(&a),
        _ => {
            let mut v = a.to_vec();
            in_place_fisher_yates(&mut v);
            v
        }
    }
}
/// every output is a permutation of the input, and all permutations are equally likely
fn shuffle<const N: usize>(which: usize) {
    draws::free();
    let out = shuffled::<N>(which);
    chk!("the output is a permutation of the input", is_perm::<N>(&out));
    let (n1, s1) = (draws::count(), draws::sequences());
    let mut first = [0usize; draws::MAX];
    let mut i = 0;
    while i < n1 {
        first[i] = draws::value(i);
        i += 1;
    }
    // as many sequences of draws as permutations, and no two sequences give the same permutation
    chk!("all permutations are equally likely (number of draw sequences)", s1 == fact(N));
    draws::free();
    let out2 = shuffled::<N>(which);
    chk!("all permutations are equally likely (number of draw sequences)", draws::count() == n1 && draws::sequences() == s1);
    let mut eq = true;
    let mut i = 0;
    while i < n1 {
        eq = eq && first[i] == draws::value(i);
        i += 1;
    }
    chk!("all permutations are equally likely (two draw sequences give the same)", eq || !same(&out, &out2));
}
/// longer inputs, wider rows
fn permuted<const N: usize>(which: usize) {
    draws::free();
    let out = shuffled::<N>(which);
    chk!("the output is a permutation of the input", is_perm::<N>(&out));
}
fn wide_rows<const N: usize>(cols: usize) {
    draws::free();
    let mut d = Vec::with_capacity(N * cols);
    let mut i = 0;
    while i < N {
        let mut j = 0;
        while j < cols {
            d.push((cols * i + j) as u8);
            j += 1;
        }
        i += 1;
    }
    let m = Shuffler::new(rand::thread_rng()).transform(Matrix::new(N, cols, d)).unwrap();
    chk!("the shape is kept", m.rows() == N && m.cols() == cols);
    let mut ok = true;
    let mut i = 0;
    while i < N {
        let mut j = 0;
        while j < cols {
            ok = ok && m[[i, j]] == m[[i, 0]] + j as u8;
            j += 1;
        }
        i += 1;
    }
    chk!("rows are moved as a whole", ok);
}
/// K distinct elements of the pool, any K-subset equally likely
fn reservoir<const N: usize, const K: usize>() {
    let a = ident::<N>();
    draws::free();
    let out = reservoir_sample(&a, K);
    chk!("the sample has the requested size", out.len() == K);
    let m = mask::<N>(&out);
    chk!("the sample consists of distinct elements of the pool", m.count_ones() as usize == K);
}
fn mask<const N: usize>(v: &[u8]) -> u32 {
    let mut m = 0u32;
    let mut i = 0;
    while i < v.len() {
        if (v[i] as usize) < N {
            m |= 1 << v[i];
        }
        i += 1;
    }
    m
}
fn reservoir_uniform<const N: usize, const K: usize>() {
    let a = ident::<N>();
    let target = choose(1 << N) as u32;
    if target.count_ones() as usize != K {
        return;
    }
    draws::digits_of(0);
    let _ = reservoir_sample(&a, K);
    let total = draws::sequences();
    let (mut i, mut hits, mut same_total) = (0, 0, true);
    while i < total {
        draws::digits_of(i);
        let out = reservoir_sample(&a, K);
        same_total = same_total && draws::sequences() == total;
        if mask::<N>(&out) == target {
            hits += 1;
        }
        i += 1;
    }
    draws::free();
    let subsets = fact(N) / (fact(K) * fact(N - K));
    chk!("every subset of the pool is equally likely", same_total && hits * subsets == total);
}
macro_rules! proofs {
    ($($u:literal $n:ident $e:expr;)*) => { $(
        #[cfg_attr(kani, kani::proof)]
        #[cfg_attr(kani, kani::unwind($u))]
        pub fn $n() {
            $e;
            #[cfg(kani)]
            kani::cover!(true, "end");
            #[cfg(not(kani))]
            symx::hx::cover("end");
        }
    )* };
}
proofs! {
    14 k_shuffler_1 shuffle::<1>(0);
    14 k_shuffler_2 shuffle::<2>(0);
    14 k_shuffler_3 shuffle::<3>(0);
    14 k_shuffler_4 shuffle::<4>(0);
    18 k_shuffler_5 shuffle::<5>(0);
    18 k_shuffler_6 shuffle::<6>(0);
    14 k_fisher_1 shuffle::<1>(1);
    14 k_fisher_3 shuffle::<3>(1);
    14 k_fisher_4 shuffle::<4>(1);
    18 k_fisher_6 shuffle::<6>(1);
    14 k_inplace_1 shuffle::<1>(2);
    14 k_inplace_3 shuffle::<3>(2);
    14 k_inplace_4 shuffle::<4>(2);
    18 k_inplace_6 shuffle::<6>(2);
    10 k_reservoir_3_0 reservoir::<3, 0>();
    10 k_reservoir_1_1 reservoir::<1, 1>();
    10 k_reservoir_3_3 reservoir::<3, 3>();
    10 k_reservoir_5_2 reservoir::<5, 2>();
    10 k_reservoir_6_3 reservoir::<6, 3>();
    16 k_reservoir_9_4 reservoir::<9, 4>();
    14 k_resuni_3_1 reservoir_uniform::<3, 1>();
    14 k_resuni_4_2 reservoir_uniform::<4, 2>();
    26 k_resuni_5_3 reservoir_uniform::<5, 3>();
    12 k_permuted_9 permuted::<9>(0);
    12 k_fisher_9 permuted::<9>(1);
    12 k_inplace_9 permuted::<9>(2);
    24 k_fisher_20 permuted::<20>(1);
    32 k_wide_3 wide_rows::<3>(9);
    20 k_reservoir_16_9 reservoir::<16, 9>();
    64 k_resuni_5_2 reservoir_uniform::<5, 2>();
}

// Replay of what Kani reports: the same statements over every sequence of draws of the real code. A reported failure
// is a violation only if these fail. (`total` weights are over a common denominator, sequences may differ in length.)
#[cfg(not(kani))]
pub fn replay_rand() {
    use std::collections::BTreeMap;
    use symx::hx;
    let (which, n, k) = (hx::param("which"), hx::param("n"), hx::param("k"));
    let a: Vec<u8> = (0..n as u8).collect();
    let mut w: BTreeMap<Vec<u8>, f64> = BTreeMap::new();
    let mut ok = true;
    let done = draws::all(200000, || {
        let out: Vec<u8> = match which {
            0 => {
                let m = Shuffler::new(rand::thread_rng()).transform(Matrix::new(n, 9, a.iter().flat_map(|x| (0..9).map(|j| 24 * j + *x).collect::<Vec<u8>>()).collect::<Vec<u8>>())).unwrap();
                ok = ok && m.rows() == n && m.cols() == 9;
                if !ok {
                    return;
                }
                for i in 0..n {
                    ok = ok && (0..9).all(|j| m[[i, j]] as usize == 24 * j + m[[i, 0]] as usize);
                }
                (0..n).map(|i| m[[i, 0]]).collect()
            }
            1 => fisher_yates(&a),
            2 => {
                let mut v = a.clone();
                in_place_fisher_yates(&mut v);
                v
            }
            _ => reservoir_sample(&a, k),
        };
        let mut s = out.clone();
        s.sort();
        s.dedup();
        ok = ok && s.len() == k && out.len() == k && s.iter().all(|x| (*x as usize) < n);
        *w.entry(if which > 2 { s } else { out }).or_insert(0.0) += 1.0 / draws::sequences() as f64;
    });
    if !done && ok {
        println!("REPLAY-INCOMPLETE");
        hx::assume(hx::b(false));
    }
    hx::check_true("the elements are elements of the input, none twice", ok);
    let outcomes = if which > 2 { fact(n) / (fact(k) * fact(n - k)) } else { fact(n) };
    let even = w.len() == outcomes && w.values().all(|p| (*p * outcomes as f64 - 1.0).abs() < 1e-6);
    hx::check_true("every outcome is equally likely", even);
    hx::cover("end");
}

// long inputs (symbolic engine): two draws are free, the others fixed
#[cfg(not(kani))]
pub fn shuffle_long() {
    use symx::hx;
    let (which, n, k) = (hx::param("which"), hx::param("n"), hx::param("k"));
    draws::mixed(hx::param("seed"), hx::param("a"), hx::param("b"));
    let x = hx::var("x");
    let at = n * 2 / 3;
    let (ids, data): (Vec<usize>, Vec<f64>) = match which {
        0 => {
            let m = Shuffler::new(rand::thread_rng()).transform(Matrix::from_fn(n, 3, |j, i| if j == 0 { i as f64 } else if j == 1 && i == at { x } else { (1000 * j + i) as f64 })).unwrap();
            hx::check_true("the shape is kept", m.rows() == n && m.cols() == 3);
            for i in 0..n {
                hx::check_true("rows are moved as a whole", m[[i, 2]] == 2000.0 + m[[i, 0]]);
            }
            ((0..n).map(|i| (0..n).find(|t| m[[i, 0]] == *t as f64).unwrap_or(n)).collect(), (0..n).map(|i| m[[i, 1]]).collect())
        }
        1 => (fisher_yates(&(0..n).collect::<Vec<_>>()), vec![]),
        2 => {
            let mut v: Vec<usize> = (0..n).collect();
            in_place_fisher_yates(&mut v);
            (v, vec![])
        }
        _ => (reservoir_sample(&(0..n).collect::<Vec<_>>(), k), vec![]),
    };
    draws::free();
    let mut s = ids.clone();
    s.sort();
    s.dedup();
    hx::check_true("the elements are elements of the input, none twice", ids.len() == k && s.len() == k && s.iter().all(|i| *i < n));
    for (i, v) in data.iter().enumerate() {
        hx::check_eq("rows are moved as a whole", *v, if ids[i] == at { x } else { 1000.0 + ids[i] as f64 });
    }
    hx::cover("end");
}
// refused arguments (symbolic engine: panics are caught)
#[cfg(not(kani))]
pub fn reservoir_panics() {
    let (n, k) = (symx::hx::param("n"), symx::hx::param("k"));
    let a: Vec<usize> = (0..n).collect();
    let r = symx::hx::catch(|| reservoir_sample(&a, k));
    symx::hx::check_true("a sample larger than the pool is refused, any other is drawn", r.is_err() == (k > n));
    symx::hx::cover("end");
}

// ---------------------------------------------------------------- cross validation (symbolic engine)
#[cfg(not(kani))]
pub use self::folds::*;
#[cfg(not(kani))]
mod folds {
    use crate::util::*;
    use rm::analysis::cross_validation::k_fold_validate;
    use rm::learning::error::{Error, ErrorKind};
    use rm::learning::{LearningResult, SupModel};
    use std::cell::RefCell;

    /// records what it is trained on and asked to predict; answers with given outputs
    #[derive(Default)]
    struct Recorder {
        train: Vec<(Matrix<f64>, Matrix<f64>)>,
        test: RefCell<Vec<(usize, Matrix<f64>, Matrix<f64>)>>,
        fail_train: Option<usize>,
        fail_predict: Option<usize>,
    }
    impl SupModel<Matrix<f64>, Matrix<f64>> for Recorder {
        fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
            let k = self.test.borrow().len();
            if self.fail_predict == Some(k) {
                return Err(Error::new(ErrorKind::InvalidState, "predict"));
            }
            let out = vmat(&format!("o{}_", k), x.rows(), 1);
            self.test.borrow_mut().push((self.train.len(), x.clone(), out.clone()));
            Ok(out)
        }
        fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> {
            if self.fail_train == Some(self.train.len()) {
                return Err(Error::new(ErrorKind::InvalidData, "train"));
            }
            self.train.push((x.clone(), y.clone()));
            Ok(())
        }
    }
    /// row ids of a matrix whose first column holds base + id
    fn ids(m: &Matrix<f64>, base: f64, n: usize) -> Vec<usize> {
        (0..m.rows())
            .map(|i| {
                for k in 0..n {
                    if m[[i, 0]] == base + k as f64 {
                        return k;
                    }
                }
                n
            })
            .collect()
    }
    /// the rows are the rows of the original, columns included
    fn rows_intact(label: &str, m: &Matrix<f64>, id: &[usize], orig: &Matrix<f64>) {
        hx::check_true(label, m.cols() == orig.cols());
        for i in 0..m.rows() {
            if id[i] < orig.rows() {
                check_vec(label, &row(m, i), &row(orig, id[i]));
            }
        }
    }
    pub fn k_fold() {
        if p("sh") == 2 {
            // replay of what Kani reports: every shuffle of the real code
            let done = rand::draws::all(200000, k_fold_once);
            if !done {
                println!("REPLAY-INCOMPLETE");
                hx::assume(hx::b(false));
            }
            return;
        }
        k_fold_once()
    }
    fn k_fold_once() {
        let (n, k, fail) = (p("n"), p("k"), p("fail"));
        let x = Matrix::from_fn(n, 2, |j, i| if j == 0 { i as f64 } else { hx::var(&format!("x{}", i)) });
        let y = Matrix::from_fn(n, 2, |j, i| if j == 0 { 10.0 + i as f64 } else { hx::var(&format!("y{}", i)) });
        if p("sh") == 3 {
            // two free draws
            rand::draws::mixed(n * 16 + k, n / 2, n - 2);
        } else if p("sh") == 1 {
            // one particular shuffle
            rand::draws::digits_of(0);
        } else if p("sh") == 0 {
            rand::draws::free();
        }
        let mut m = Recorder::default();
        // fail = 1 + fold (train) or 10 + fold (predict)
        if fail >= 10 {
            m.fail_predict = Some(fail - 10)
        } else if fail >= 1 {
            m.fail_train = Some(fail - 1)
        }
        let scored: RefCell<Vec<(Matrix<f64>, Matrix<f64>, f64)>> = RefCell::new(vec![]);
        let r = hx::catch(|| {
            k_fold_validate(&mut m, &x, &y, k, |o: &Matrix<f64>, t: &Matrix<f64>| {
                let s = hx::var(&format!("s{}", scored.borrow().len()));
                scored.borrow_mut().push((o.clone(), t.clone(), s));
                s
            })
        });
        if k < 2 || k > n {
            hx::check_true("less than two folds, or more folds than samples, are refused", r.is_err());
            hx::cover("end");
            return;
        }
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                hx::check_true("valid arguments are accepted", false);
                return;
            }
        };
        if fail > 0 {
            hx::check_true("an error of the model is returned", r.is_err());
            hx::cover("end");
            return;
        }
        let scores = match r {
            Ok(s) => s,
            Err(_) => {
                hx::check_true("valid arguments are accepted", false);
                return;
            }
        };
        let test = m.test.borrow();
        hx::check_true("one score, one training and one prediction per fold", scores.len() == k && m.train.len() == k && test.len() == k && scored.borrow().len() == k);
        let mut tested = vec![0; n];
        let mut sizes = vec![];
        for f in 0..k {
            let (ref tx, ref ty) = m.train[f];
            let (trained, ref px, ref out) = test[f];
            hx::check_true("each fold is predicted after its own training", trained == f + 1);
            let (ti, yi, pi) = (ids(tx, 0.0, n), ids(ty, 10.0, n), ids(px, 0.0, n));
            hx::check_true("training inputs are paired with their targets", ti == yi);
            rows_intact("training inputs are rows of the inputs", tx, &ti, &x);
            rows_intact("training targets are rows of the targets", ty, &yi, &y);
            rows_intact("test inputs are rows of the inputs", px, &pi, &x);
            let (ref so, ref st, sv) = scored.borrow()[f];
            check_mat("the score is given the predictions", so, out);
            let si = ids(st, 10.0, n);
            hx::check_true("test inputs are paired with their targets", si == pi);
            rows_intact("test targets are rows of the targets", st, &si, &y);
            hx::check_eq("the scores are returned in order", scores[f], sv);
            for i in &pi {
                if *i < n {
                    tested[*i] += 1;
                }
                hx::check_true("no sample is in both the training and the test set", !ti.contains(i));
            }
            let mut all: Vec<usize> = ti.iter().chain(pi.iter()).cloned().collect();
            all.sort();
            hx::check_true("every sample is either trained on or tested", all == (0..n).collect::<Vec<_>>());
            sizes.push(pi.len());
        }
        hx::check_true("every sample is tested exactly once", tested.iter().all(|c| *c == 1));
        hx::cover(&format!("tested {:?}", test.iter().map(|t| ids(&t.1, 0.0, n)).collect::<Vec<_>>()));
        let (lo, hi) = (sizes.iter().min().unwrap(), sizes.iter().max().unwrap());
        hx::check_true("fold sizes differ by at most one", hi - lo <= 1);
        hx::cover("end");
    }
    pub fn k_fold_mismatch() {
        let x = vmat("x", 3, 1);
        let y = vmat("y", p("n"), 1);
        let mut m = Recorder::default();
        let r = hx::catch(|| k_fold_validate(&mut m, &x, &y, 2, |_: &Matrix<f64>, _: &Matrix<f64>| 0.0));
        hx::check_true("inputs and targets of different lengths are refused", r.is_err());
        hx::cover("end");
    }
}

// ---------------------------------------------------------------- cross validation (Kani, all shuffles)
use rm::analysis::cross_validation::k_fold_validate;
use rm::learning::{LearningResult, SupModel};

/// keeps, per fold, which rows were trained on and tested, as bit masks
struct Masks<const N: usize> {
    folds: usize,
    predicted: std::cell::Cell<usize>,
    train: [u32; N],
    paired: bool,
    test: [std::cell::Cell<u32>; N],
}
fn row_mask(m: &Matrix<f64>, n: usize, base: usize) -> u32 {
    let mut r = 0;
    let mut i = 0;
    while i < m.rows() {
        let k = m[[i, 0]] as usize - base;
        if k < n && r & (1 << k) == 0 {
            r |= 1 << k;
        } else {
            // a row that is not one of the inputs, or the same row twice
            r |= 1 << 31;
        }
        i += 1;
    }
    r
}
impl<const N: usize> SupModel<Matrix<f64>, Matrix<f64>> for Masks<N> {
    fn predict(&self, x: &Matrix<f64>) -> LearningResult<Matrix<f64>> {
        let k = self.predicted.get();
        if k < N {
            self.test[k].set(row_mask(x, N, 0));
        }
        self.predicted.set(k + 1);
        Ok(x.clone())
    }
    fn train(&mut self, x: &Matrix<f64>, y: &Matrix<f64>) -> LearningResult<()> {
        if self.folds < N {
            self.train[self.folds] = row_mask(x, N, 0);
        }
        let mut i = 0;
        while i < x.rows() {
            self.paired = self.paired && y[[i, 0]] == x[[i, 0]] + 64.0;
            i += 1;
        }
        self.paired = self.paired && x.rows() == y.rows();
        self.folds += 1;
        Ok(())
    }
}
fn folds_all<const N: usize>(k: usize) {
    draws::free();
    let mut d = Vec::with_capacity(N);
    let mut t = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        d.push(i as f64);
        t.push(64.0 + i as f64);
        i += 1;
    }
    let (x, y) = (Matrix::new(N, 1, d), Matrix::new(N, 1, t));
    let mut m = Masks::<N> { folds: 0, predicted: std::cell::Cell::new(0), train: [0; N], paired: true, test: [(); N].map(|_| std::cell::Cell::new(0)) };
    let ok = std::cell::Cell::new(true);
    let r = k_fold_validate(&mut m, &x, &y, k, |o: &Matrix<f64>, t: &Matrix<f64>| {
        let mut i = 0;
        while i < o.rows() {
            ok.set(ok.get() && t[[i, 0]] == o[[i, 0]] + 64.0);
            i += 1;
        }
        ok.set(ok.get() && o.rows() == t.rows());
        o[[0, 0]]
    });
    chk!("one score, one training and one prediction per fold", match r { Ok(ref s) => s.len() == k && m.folds == k && m.predicted.get() == k, Err(_) => false });
    chk!("training inputs are paired with their targets", m.paired);
    chk!("test inputs are paired with their targets", ok.get());
    let full = (1u32 << N) - 1;
    let mut seen = 0u32;
    let mut disjoint = true;
    let mut complement = true;
    let (mut lo, mut hi) = (32, 0);
    let mut f = 0;
    while f < k {
        let t = m.test[f].get();
        disjoint = disjoint && seen & t == 0;
        seen |= t;
        complement = complement && m.train[f] == full & !t && t & !full == 0;
        let c = t.count_ones();
        lo = if c < lo { c } else { lo };
        hi = if c > hi { c } else { hi };
        f += 1;
    }
    chk!("every sample is tested exactly once", disjoint && seen == full);
    chk!("the training set is the complement of the test set", complement);
    chk!("fold sizes differ by at most one", hi - lo <= 1);
}
proofs! {
    8 k_folds_2_2 folds_all::<2>(2);
    8 k_folds_3_2 folds_all::<3>(2);
    8 k_folds_4_3 folds_all::<4>(3);
    9 k_folds_5_2 folds_all::<5>(2);
}
