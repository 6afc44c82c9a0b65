//! The environment models on ordinary pseudo-random numbers (for demonstrations).
pub mod hx {
    use std::cell::Cell;
    pub const SYMBOLIC: bool = false;
    thread_local!(static S: Cell<u64> = Cell::new(0x9E3779B97F4A7C15));
    fn next() -> u64 {
        S.with(|c| {
            let mut x = c.get();
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            c.set(x);
            x.wrapping_mul(0x2545F4914F6CDD1D)
        })
    }
    /// restart this thread's generator
    pub fn seed(s: u64) {
        S.with(|c| c.set(s.wrapping_mul(0x9E3779B97F4A7C15) | 1));
        for _ in 0..8 { next(); }
    }
    pub fn fresh_unit(_: &str) -> f64 {
        (next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn fresh(_: &str) -> f64 {
        let u = 1.0 - fresh_unit("");
        (-2.0 * u.ln()).sqrt() * (6.283185307179586 * fresh_unit("")).cos()
    }
    pub fn fresh_exp(_: &str) -> f64 {
        -(1.0 - fresh_unit("")).ln()
    }
    pub fn choose(n: usize) -> usize {
        (next() >> 33) as usize % n
    }
    pub fn contract(_: &str) -> f64 { unreachable!() }
    pub fn key(_: f64) -> u64 { 0 }
    pub fn var(_: &str) -> f64 { unreachable!() }
    pub fn b(x: bool) -> bool {
        x
    }
    pub fn assume(_: bool) {}
    pub fn ge(a: f64, b: f64) -> bool { a >= b }
    pub fn same(a: f64, b: f64) -> bool { a == b }
    pub fn eq(a: f64, b: f64) -> bool { a == b }
}
