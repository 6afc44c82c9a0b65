//! Environment model of `rand` 0.4: every draw is an arbitrary value allowed by its contract.
//! (symbolic build: explored/forked by the engine; native build: read from the replay file;
//! Kani build: kani::any)
#![allow(dead_code)]

#[cfg(not(kani))]
mod nd {
    use symx::hx;
    pub fn choose(n: usize) -> usize {
        super::draws::next(n, hx::choose)
    }
    pub fn stop() {
        hx::assume(hx::b(false));
    }
    pub fn unit() -> f64 {
        super::draws::other();
        hx::fresh_unit("draw")
    }
    pub fn real() -> f64 {
        super::draws::other();
        hx::fresh("draw")
    }
    pub fn word() -> u64 {
        super::draws::other();
        hx::choose(6) as u64
    }
    pub fn assume_positive(x: f64) {
        hx::assume(hx::gt(x, 0.0));
    }
    pub fn positive() -> f64 {
        super::draws::other();
        let x = hx::fresh("draw");
        hx::assume(hx::ge(x, 0.0));
        x
    }
}
#[cfg(kani)]
mod nd {
    fn any(n: usize) -> usize {
        let k: usize = kani::any();
        kani::assume(k < n);
        k
    }
    pub fn choose(n: usize) -> usize {
        super::draws::next(n, any)
    }
    pub fn stop() {
        kani::assume(false);
    }
    pub fn unit() -> f64 {
        let x: f64 = kani::any();
        kani::assume(x >= 0.0 && x < 1.0);
        x
    }
    pub fn real() -> f64 {
        let x: f64 = kani::any();
        kani::assume(x.is_finite());
        x
    }
    pub fn word() -> u64 {
        kani::any()
    }
    pub fn assume_positive(x: f64) {
        kani::assume(x > 0.0);
    }
    pub fn positive() -> f64 {
        let x: f64 = kani::any();
        kani::assume(x >= 0.0 && x.is_finite());
        x
    }
}

/// The integer draws: a log of the last draws (value and range), and a mode in which the draws are the
/// digits of a given number, so that a harness can go through every sequence of draws.
pub mod draws {
    #[cfg(kani)]
    pub const MAX: usize = 16;
    #[cfg(not(kani))]
    pub const MAX: usize = 64;
    pub static mut N: usize = 0;
    pub static mut VAL: [usize; MAX] = [0; MAX];
    pub static mut RANGE: [usize; MAX] = [0; MAX];
    pub static mut DIGITS: bool = false;
    pub static mut REM: usize = 0;
    pub static mut LIMIT: usize = usize::MAX;
    /// a sequence to take the next draws from, then zeros (see `all`)
    pub static mut SCRIPT: Option<[usize; MAX]> = None;
    /// draws other than integers from a range, since `free`
    pub static mut OTHER: usize = 0;
    pub(crate) fn other() {
        unsafe {
            OTHER += 1;
        }
    }
    /// run `f` once for every sequence of integer draws it can make; the probability of a
    /// sequence is one over `sequences()`. false: not all sequences were run (other kinds of draws, or too many)
    #[cfg(not(kani))]
    pub fn all<F: FnMut()>(max: usize, mut f: F) -> bool {
        unsafe {
            let mut s = [0; MAX];
            let mut runs = 0;
            loop {
                free();
                SCRIPT = Some(s);
                f();
                SCRIPT = None;
                runs += 1;
                if OTHER > 0 || N >= MAX || runs > max {
                    free();
                    return false;
                }
                let mut i = N;
                while i > 0 && VAL[i - 1] + 1 >= RANGE[i - 1] {
                    i -= 1;
                }
                if i == 0 {
                    free();
                    return true;
                }
                s = [0; MAX];
                s[..i].copy_from_slice(&VAL[..i]);
                s[i - 1] += 1;
            }
        }
    }
    /// leave out runs with more than `n` integer draws (rejection loops)
    pub fn limit(n: usize) {
        unsafe {
            LIMIT = n;
        }
    }
    /// the i-th draw was from 0..range(i)
    pub fn range(i: usize) -> usize {
        unsafe { RANGE[i] }
    }
    /// forget the log; take the following draws freely
    pub fn free() {
        unsafe {
            N = 0;
            #[cfg(not(kani))]
            {
                MIXED = None;
            }
            DIGITS = false;
            LIMIT = usize::MAX;
            OTHER = 0;
            SCRIPT = None;
        }
    }
    /// forget the log; the following draws are the digits of `code` (mixed radix)
    pub fn digits_of(code: usize) {
        unsafe {
            N = 0;
            #[cfg(not(kani))]
            {
                MIXED = None;
            }
            DIGITS = true;
            LIMIT = usize::MAX;
            REM = code;
        }
    }
    pub fn count() -> usize {
        unsafe { N }
    }
    pub fn value(i: usize) -> usize {
        unsafe { VAL[i] }
    }
    /// number of possible sequences of draws, as seen by the last run
    pub fn sequences() -> usize {
        let mut t = 1;
        let mut i = 0;
        while i < count() {
            t *= unsafe { RANGE[i] };
            i += 1;
        }
        t
    }
    /// draws `a` and `b` (counted from 0) are free, the others follow a fixed pseudo-random sequence
    #[cfg(not(kani))]
    pub static mut MIXED: Option<(u64, usize, usize, usize, usize)> = None;
    #[cfg(not(kani))]
    pub fn mixed(seed: usize, a: usize, b: usize) {
        mixed_below(usize::max_value(), seed, a, b)
    }
    /// as mixed, the fixed draws below a limit
    #[cfg(not(kani))]
    pub fn mixed_below(limit: usize, seed: usize, a: usize, b: usize) {
        free();
        unsafe {
            MIXED = Some((seed as u64 * 2 + 1, a, b, 0, limit));
        }
    }
    #[cfg(kani)]
    fn scripted(_: usize) -> Option<usize> {
        None
    }
    #[cfg(not(kani))]
    fn scripted(n: usize) -> Option<usize> {
        unsafe {
            let (s, a, b, i, limit) = match MIXED {
                Some(m) => m,
                None => return None,
            };
            let s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            MIXED = Some((s, a, b, i + 1, limit));
            if i == a || i == b { None } else { Some((s >> 33) as usize % if n < limit { n } else { limit }) }
        }
    }
    pub(crate) fn next(n: usize, free: fn(usize) -> usize) -> usize {
        unsafe {
            if N >= LIMIT {
                super::nd::stop();
            }
            let k = if let Some(s) = SCRIPT {
                let k = if N < MAX { s[N] } else { 0 };
                k
            } else if DIGITS {
                let k = REM % n;
                REM /= n;
                k
            } else if let Some(k) = scripted(n) {
                k
            } else {
                free(n)
            };
            if N < MAX {
                VAL[N] = k;
                RANGE[N] = n;
                N += 1;
            }
            k
        }
    }
}

pub trait Rand: Sized {
    fn rand<R: Rng>(rng: &mut R) -> Self;
}
impl Rand for f64 {
    fn rand<R: Rng>(_: &mut R) -> f64 {
        nd::unit()
    }
}
impl Rand for bool {
    fn rand<R: Rng>(_: &mut R) -> bool {
        nd::choose(2) == 1
    }
}
macro_rules! ri {
    ($($t:ident)*) => { $(
        impl Rand for $t { fn rand<R: Rng>(_: &mut R) -> $t { nd::word() as $t } }
        impl distributions::range::SampleRange for $t {
            fn pick(low: $t, high: $t) -> $t { (low as i128 + nd::choose((high as i128 - low as i128) as usize) as i128) as $t }
        }
    )* };
}
ri!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl distributions::range::SampleRange for f64 {
    fn pick(low: f64, high: f64) -> f64 {
        low + nd::unit() * (high - low)
    }
}
impl<A: Rand, B: Rand> Rand for (A, B) {
    fn rand<R: Rng>(r: &mut R) -> (A, B) {
        (A::rand(r), B::rand(r))
    }
}

pub trait Rng {
    fn next_u32(&mut self) -> u32 {
        nd::word() as u32
    }
    fn next_u64(&mut self) -> u64 {
        nd::word()
    }
    fn next_f64(&mut self) -> f64 {
        nd::unit()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = nd::word() as u8;
        }
    }
    fn gen<T: Rand>(&mut self) -> T
    where
        Self: Sized,
    {
        T::rand(self)
    }
    fn gen_iter<'a, T: Rand>(&'a mut self) -> Generator<'a, T, Self>
    where
        Self: Sized,
    {
        Generator { rng: self, _m: std::marker::PhantomData }
    }
    fn gen_range<T: PartialOrd + distributions::range::SampleRange>(&mut self, low: T, high: T) -> T
    where
        Self: Sized,
    {
        assert!(low < high, "Rng.gen_range called with low >= high");
        T::pick(low, high)
    }
    fn gen_weighted_bool(&mut self, n: u32) -> bool
    where
        Self: Sized,
    {
        n <= 1 || nd::choose(n as usize) == 0
    }
    fn choose<'a, T>(&mut self, values: &'a [T]) -> Option<&'a T>
    where
        Self: Sized,
    {
        if values.is_empty() {
            None
        } else {
            Some(&values[nd::choose(values.len())])
        }
    }
    fn choose_mut<'a, T>(&mut self, values: &'a mut [T]) -> Option<&'a mut T>
    where
        Self: Sized,
    {
        if values.is_empty() {
            None
        } else {
            let n = values.len();
            Some(&mut values[nd::choose(n)])
        }
    }
    fn shuffle<T>(&mut self, values: &mut [T])
    where
        Self: Sized,
    {
        let mut i = values.len();
        while i >= 2 {
            i -= 1;
            values.swap(i, nd::choose(i + 1));
        }
    }
}
pub struct Generator<'a, T, R: 'a> {
    rng: &'a mut R,
    _m: std::marker::PhantomData<T>,
}
impl<'a, T: Rand, R: Rng> Iterator for Generator<'a, T, R> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        Some(T::rand(self.rng))
    }
}
impl<'a, R: Rng> Rng for &'a mut R {}
impl<R: Rng> Rng for Box<R> {}

pub trait SeedableRng<Seed>: Rng {
    fn reseed(&mut self, _: Seed);
    fn from_seed(seed: Seed) -> Self;
}
macro_rules! rngs {
    ($($n:ident)*) => { $(
        #[derive(Clone, Debug, Copy)]
        pub struct $n;
        impl Rng for $n {}
        impl $n { pub fn new() -> std::io::Result<$n> { Ok($n) } pub fn new_unseeded() -> $n { $n } }
        impl Rand for $n { fn rand<R: Rng>(_: &mut R) -> $n { $n } }
    )* };
}
rngs!(ThreadRng StdRng XorShiftRng IsaacRng Isaac64Rng OsRng ChaChaRng);
macro_rules! seeds {
    ($($n:ident $t:ty),*) => { $(
        impl<'a> SeedableRng<&'a [$t]> for $n { fn reseed(&mut self, _: &'a [$t]) {} fn from_seed(_: &'a [$t]) -> $n { $n } }
    )* };
}
seeds!(StdRng usize, IsaacRng u32, Isaac64Rng u64, ChaChaRng u32);
impl SeedableRng<[u32; 4]> for XorShiftRng {
    fn reseed(&mut self, _: [u32; 4]) {}
    fn from_seed(_: [u32; 4]) -> XorShiftRng {
        XorShiftRng
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Closed01<F>(pub F);
#[derive(Clone, Copy, Debug)]
pub struct Open01<F>(pub F);
impl Rand for Closed01<f64> {
    fn rand<R: Rng>(_: &mut R) -> Closed01<f64> {
        Closed01(nd::unit())
    }
}
impl Rand for Open01<f64> {
    fn rand<R: Rng>(_: &mut R) -> Open01<f64> {
        let x = nd::unit();
        nd::assume_positive(x);
        Open01(x)
    }
}
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub fn weak_rng() -> XorShiftRng {
    XorShiftRng
}
pub fn random<T: Rand>() -> T {
    T::rand(&mut ThreadRng)
}
pub fn sample<T, I: IntoIterator<Item = T>, R: Rng>(rng: &mut R, iterable: I, amount: usize) -> Vec<T> {
    match seq::sample_iter(rng, iterable, amount) {
        Ok(r) | Err(r) => r,
    }
}
pub mod seq {
    pub fn sample_slice<R: Rng, T: Clone>(rng: &mut R, slice: &[T], amount: usize) -> Vec<T> {
        sample_indices(rng, slice.len(), amount).into_iter().map(|i| slice[i].clone()).collect()
    }
    pub fn sample_slice_ref<'a, R: Rng, T>(rng: &mut R, slice: &'a [T], amount: usize) -> Vec<&'a T> {
        sample_indices(rng, slice.len(), amount).into_iter().map(|i| &slice[i]).collect()
    }
    use super::*;
    pub fn sample_indices<R: Rng>(_: &mut R, length: usize, amount: usize) -> Vec<usize> {
        assert!(amount <= length, "sample_indices: more than the length requested");
        let mut v: Vec<usize> = (0..length).collect();
        for i in 0..amount {
            let j = i + nd::choose(length - i);
            v.swap(i, j);
        }
        v.truncate(amount);
        v
    }
    pub fn sample_iter<T, I: IntoIterator<Item = T>, R: Rng>(_: &mut R, iterable: I, amount: usize) -> Result<Vec<T>, Vec<T>> {
        let mut r = vec![];
        for (i, x) in iterable.into_iter().enumerate() {
            if r.len() < amount {
                r.push(x);
            } else {
                let k = nd::choose(i + 1);
                if k < amount {
                    r[k] = x;
                }
            }
        }
        if r.len() == amount {
            Ok(r)
        } else {
            Err(r)
        }
    }
}

pub mod distributions {
    use super::*;
    pub use self::exponential::Exp;
    pub use self::normal::{LogNormal, Normal};
    pub use self::range::Range;
    pub trait Sample<Support> {
        fn sample<R: Rng>(&mut self, rng: &mut R) -> Support;
    }
    pub trait IndependentSample<Support>: Sample<Support> {
        fn ind_sample<R: Rng>(&self, _: &mut R) -> Support;
    }
    pub mod range {
        use super::*;
        pub trait SampleRange: PartialOrd + Sized {
            fn pick(low: Self, high: Self) -> Self;
        }
        #[derive(Clone, Copy, Debug)]
        pub struct Range<X> {
            low: X,
            high: X,
        }
        impl<X: SampleRange + Copy> Range<X> {
            pub fn new(low: X, high: X) -> Range<X> {
                assert!(low < high, "Range::new called with `low >= high`");
                Range { low: low, high: high }
            }
        }
        impl<X: SampleRange + Copy> Sample<X> for Range<X> {
            fn sample<R: Rng>(&mut self, rng: &mut R) -> X {
                self.ind_sample(rng)
            }
        }
        impl<X: SampleRange + Copy> IndependentSample<X> for Range<X> {
            fn ind_sample<R: Rng>(&self, _: &mut R) -> X {
                X::pick(self.low, self.high)
            }
        }
    }
    pub mod normal {
        use super::*;
        #[derive(Clone, Copy, Debug)]
        pub struct StandardNormal(pub f64);
        impl Rand for StandardNormal {
            fn rand<R: Rng>(_: &mut R) -> StandardNormal {
                StandardNormal(nd::real())
            }
        }
        #[derive(Clone, Copy, Debug)]
        pub struct Normal {
            mean: f64,
            std_dev: f64,
        }
        impl Normal {
            pub fn new(mean: f64, std_dev: f64) -> Normal {
                assert!(std_dev >= 0.0, "Normal::new called with `std_dev` < 0");
                Normal { mean: mean, std_dev: std_dev }
            }
        }
        impl Sample<f64> for Normal {
            fn sample<R: Rng>(&mut self, rng: &mut R) -> f64 {
                self.ind_sample(rng)
            }
        }
        impl IndependentSample<f64> for Normal {
            fn ind_sample<R: Rng>(&self, _: &mut R) -> f64 {
                self.mean + self.std_dev * nd::real()
            }
        }
        #[derive(Clone, Copy, Debug)]
        pub struct LogNormal {
            norm: Normal,
        }
        impl LogNormal {
            pub fn new(mean: f64, std_dev: f64) -> LogNormal {
                LogNormal { norm: Normal::new(mean, std_dev) }
            }
        }
        impl Sample<f64> for LogNormal {
            fn sample<R: Rng>(&mut self, rng: &mut R) -> f64 {
                self.ind_sample(rng)
            }
        }
        impl IndependentSample<f64> for LogNormal {
            fn ind_sample<R: Rng>(&self, rng: &mut R) -> f64 {
                self.norm.ind_sample(rng).exp()
            }
        }
    }
    pub mod exponential {
        use super::*;
        #[derive(Clone, Copy, Debug)]
        pub struct Exp1(pub f64);
        impl Rand for Exp1 {
            fn rand<R: Rng>(_: &mut R) -> Exp1 {
                Exp1(nd::positive())
            }
        }
        #[derive(Clone, Copy, Debug)]
        pub struct Exp {
            lambda_inverse: f64,
        }
        impl Exp {
            pub fn new(lambda: f64) -> Exp {
                assert!(lambda > 0.0, "Exp::new called with `lambda` <= 0");
                Exp { lambda_inverse: 1.0 / lambda }
            }
        }
        impl Sample<f64> for Exp {
            fn sample<R: Rng>(&mut self, rng: &mut R) -> f64 {
                self.ind_sample(rng)
            }
        }
        impl IndependentSample<f64> for Exp {
            fn ind_sample<R: Rng>(&self, _: &mut R) -> f64 {
                nd::positive() * self.lambda_inverse
            }
        }
    }
}
