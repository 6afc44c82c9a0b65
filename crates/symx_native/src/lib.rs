//! Native twin of the symx harness API: plain f64, inputs and draws read from a model file.
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

static MODEL: Mutex<Option<HashMap<String, f64>>> = Mutex::new(None);
static CTR: Mutex<Option<HashMap<String, usize>>> = Mutex::new(None);
static OUT: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// with --witness=SEED values that are not in the model file are arbitrary points of (0, 1)
static WITNESS: AtomicUsize = AtomicUsize::new(0);

struct Discard;
/// nothing more can be said, but what has failed before has failed
struct Stop;

fn get(name: &str) -> Option<f64> {
    let v = MODEL.lock().unwrap().as_ref().and_then(|m| m.get(name).cloned());
    if v.is_none() && WITNESS.load(Ordering::Relaxed) > 0 && !name.starts_with("choice#") {
        // FNV of the name and the seed
        let mut h = 0xcbf29ce484222325u64 ^ (WITNESS.load(Ordering::Relaxed) as u64).wrapping_mul(0x9e3779b97f4a7c15);
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h ^= h >> 29;
        h = h.wrapping_mul(0xbf58476d1ce4e5b9);
        h ^= h >> 32;
        // seeds from 10000 on: wider ranges, halves and integers
        let unit = name.contains("draw#") || name.contains("unit") || name.starts_with("any ");
        return Some(match if unit { 0 } else { WITNESS.load(Ordering::Relaxed) / 10000 } {
            0 => (h % 1000) as f64 / 1001.0 + 0.0005,
            1 => (h % 4001) as f64 / 1000.7 - 2.0,
            2 => (h % 9) as f64 / 2.0 - 2.0,
            _ => (h % 7) as f64 - 3.0,
        });
    }
    v
}
fn ctr(tag: &str) -> usize {
    let mut g = CTR.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    let c = m.entry(tag.to_string()).or_insert(0);
    *c += 1;
    *c - 1
}
fn fail(label: &str) {
    OUT.lock().unwrap().push(format!("FAIL {}", label));
}

pub mod hx {
    use super::*;
    pub type B = bool;
    pub const SYMBOLIC: bool = false;
    const TOL: f64 = 1e-6;

    pub fn var(name: &str) -> f64 {
        get(name).unwrap_or(0.0)
    }
    pub fn var_pos(name: &str) -> f64 {
        let v = get(name).unwrap_or(1.0);
        if WITNESS.load(Ordering::Relaxed) >= 10000 {
            return if v == 0.0 { 1.0 } else { v.abs() };
        }
        assume(v > 0.0);
        v
    }
    pub fn fresh(tag: &str) -> f64 {
        let n = format!("{}#{}", tag, ctr(tag));
        get(&n).unwrap_or(0.5)
    }
    pub fn draw(k: usize) -> f64 {
        unit(&format!("draw#{}", k))
    }
    pub fn fresh_unit(tag: &str) -> f64 {
        unit(&format!("{}#{}", tag, ctr(tag)))
    }
    fn unit(n: &str) -> f64 {
        let v = get(n).unwrap_or(0.5);
        if v >= 1.0 {
            1.0 - 1e-9
        } else if v < 0.0 {
            0.0
        } else {
            v
        }
    }
    pub fn key(x: f64) -> u64 {
        x.to_bits()
    }
    pub fn contract(_: &str) -> f64 {
        unreachable!()
    }
    pub fn contract_pos(_: &str) -> f64 {
        unreachable!()
    }
    pub fn choose(n: usize) -> usize {
        let k = ctr("choice");
        let name = format!("choice#{}", k);
        if WITNESS.load(Ordering::Relaxed) > 0 {
            return (get(&format!("any {}", name)).unwrap() * 1e4) as usize / 7 % n;
        }
        let v = get(&name).unwrap_or(0.0) as usize;
        if v < n {
            v
        } else {
            n - 1
        }
    }
    pub fn assume(b: B) {
        if !b {
            std::panic::panic_any(Discard)
        }
    }
    pub fn lt(a: f64, b: f64) -> B {
        a < b
    }
    pub fn le(a: f64, b: f64) -> B {
        a <= b
    }
    pub fn gt(a: f64, b: f64) -> B {
        a > b
    }
    pub fn ge(a: f64, b: f64) -> B {
        a >= b
    }
    pub fn eq(a: f64, b: f64) -> B {
        a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs() + b.abs())
    }
    /// equality of inputs, which are exact on both sides
    pub fn same(a: f64, b: f64) -> B {
        a == b
    }
    pub fn ne(a: f64, b: f64) -> B {
        !eq(a, b)
    }
    pub fn not(a: B) -> B {
        !a
    }
    pub fn and(a: B, b: B) -> B {
        a && b
    }
    pub fn or(a: B, b: B) -> B {
        a || b
    }
    pub fn all(v: &[B]) -> B {
        v.iter().all(|x| *x)
    }
    pub fn any(v: &[B]) -> B {
        v.iter().any(|x| *x)
    }
    pub fn implies(a: B, b: B) -> B {
        !a || b
    }
    pub fn iff(a: B, b: B) -> B {
        a == b
    }
    pub fn b(x: bool) -> B {
        x
    }
    pub fn ite(c: B, x: f64, y: f64) -> f64 {
        if c {
            x
        } else {
            y
        }
    }
    pub fn decide(c: B) -> bool {
        c
    }
    pub fn check(label: &str, c: B) {
        if !c {
            fail(label)
        }
    }
    pub fn check_true(label: &str, c: bool) {
        if !c {
            fail(label)
        }
    }
    fn close(a: f64, b: f64, tol: f64) -> bool {
        if a.is_nan() || b.is_nan() {
            return a.is_nan() && b.is_nan();
        }
        if a.is_infinite() || b.is_infinite() {
            return a == b;
        }
        a == b || (a - b).abs() <= tol * (1.0 + a.abs() + b.abs())
    }
    pub fn check_eq(label: &str, a: f64, b: f64) {
        if !close(a, b, TOL) {
            fail(&format!("{} ({:?} vs {:?})", label, a, b))
        }
    }
    pub fn check_le(label: &str, a: f64, b: f64) {
        if !(a <= b || close(a, b, TOL)) {
            fail(&format!("{} ({:?} vs {:?})", label, a, b))
        }
    }
    pub fn check_finite(label: &str, a: f64) {
        if !a.is_finite() {
            fail(&format!("{} ({:?})", label, a))
        }
    }
    pub fn cover(label: &str) {
        println!("NATIVE-COVER {}", label);
    }
    /// numerical derivative (Richardson-extrapolated central differences), rounded so that
    /// `check_eq` against an analytic derivative is meaningful
    pub fn deriv(x: f64, f: &dyn Fn(f64) -> f64) -> f64 {
        let d = |h: f64| (f(x + h) - f(x - h)) / (2.0 * h);
        // smaller steps for arguments close to the border of the domain
        for h in [1e-3 * (1.0 + x.abs()), 1e-5 * (1.0 + x.abs()), 1e-3 * x.abs(), 1e-2 * (1.0 - x.abs()).abs()] {
            let (d1, d2, d3) = (d(h), d(h / 2.0), d(h / 4.0));
            let (r1, r2) = ((4.0 * d2 - d1) / 3.0, (4.0 * d3 - d2) / 3.0);
            let r = (16.0 * r2 - r1) / 15.0;
            if r.is_finite() && (r2 - r1).abs() <= 1e-5 * (1.0 + r.abs()) {
                return r;
            }
        }
        // no reliable numerical derivative at this point: the replay says nothing more
        if !OUT.lock().unwrap().is_empty() {
            std::panic::panic_any(Stop)
        }
        std::panic::panic_any(Discard)
    }
    pub fn grad(xs: &[f64], f: &dyn Fn(&[f64]) -> f64) -> Vec<f64> {
        (0..xs.len())
            .map(|i| {
                deriv(xs[i], &|t| {
                    let mut y = xs.to_vec();
                    y[i] = t;
                    f(&y)
                })
            })
            .collect()
    }
    pub fn grad_free(xs: &[f64], f: &dyn Fn(&[f64]) -> f64) -> Vec<Option<f64>> {
        grad(xs, f).into_iter().map(|x| Some(x)).collect()
    }
    pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(t) => Ok(t),
            Err(p) => {
                if p.downcast_ref::<Discard>().is_some() || p.downcast_ref::<Stop>().is_some() {
                    std::panic::resume_unwind(p)
                }
                Err("panic".to_string())
            }
        }
    }
    pub fn param(name: &str) -> usize {
        let key = format!("{}=", name);
        for a in std::env::args() {
            if let Some(v) = a.strip_prefix(&key) {
                return v.parse().unwrap();
            }
        }
        panic!("missing parameter {}", name)
    }
    pub fn set_box(_r: i64) {}
    pub fn value(x: f64) -> Option<f64> {
        Some(x)
    }
}

pub fn main(table: &'static [(&'static str, fn())]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 || args[1] == "--list" {
        for (n, _) in table {
            println!("{}", n);
        }
        return;
    }
    let f = table.iter().find(|x| x.0 == args[1]).expect("no such harness").1;
    let mut m = HashMap::new();
    for a in &args {
        if let Some(p) = a.strip_prefix("--witness=") {
            WITNESS.store(p.parse().unwrap(), Ordering::Relaxed);
        }
        if let Some(p) = a.strip_prefix("--model=") {
            for l in std::fs::read_to_string(p).unwrap().lines() {
                if l.starts_with("## ") || l.trim().is_empty() {
                    continue;
                }
                if let Some((n, v)) = l.rsplit_once(' ') {
                    if let Ok(x) = v.parse::<f64>() {
                        m.insert(n.to_string(), x);
                    }
                }
            }
        }
    }
    *MODEL.lock().unwrap() = Some(m);
    std::panic::set_hook(Box::new(|_| {}));
    let th = std::thread::Builder::new().stack_size(1 << 29).spawn(move || std::panic::catch_unwind(f)).unwrap();
    let r = th.join().unwrap();
    let mut panicked = None;
    if let Err(p) = r {
        if p.downcast_ref::<Discard>().is_some() {
            println!("NATIVE-DISCARD (an assumption of the harness does not hold for these values)");
            std::process::exit(5);
        }
        if p.downcast_ref::<Stop>().is_none() {
        panicked = Some(if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        });
        }
    }
    let o = OUT.lock().unwrap();
    for l in o.iter() {
        println!("NATIVE-{}", l);
    }
    if let Some(p) = &panicked {
        println!("NATIVE-PANIC {}", p);
    }
    if o.is_empty() && panicked.is_none() {
        println!("NATIVE-OK");
        std::process::exit(0);
    }
    std::process::exit(1);
}
