//! Hash-consed term DAG over the reals, in a light canonical form.
use crate::rat::Rat;
use std::collections::HashMap;

pub type Id = u32;
pub type Bid = u32;
pub const K: usize = 32; // concrete witness samples per term (branch-feasibility hints only)
pub const W: usize = 4; // variable-set words

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Rat(Rat),
    Var(u32),
    /// const + sum of coef * term (term: not Sum, not Rat)
    Sum(Rat, Vec<(Rat, Id)>),
    /// product of base^exp (base: atom or normalised multi-term Sum)
    Prod(Vec<(Id, i32)>),
    Sqrt(Id),
    Exp(Id),
    Ln(Id),
    Pow(Id, Id),
    Fun(u8, Id),
    Ite(Bid, Id, Id),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BN {
    T,
    F,
    Gt0(Id),
    Eq0(Id),
    Not(Bid),
    And(Vec<Bid>),
    Or(Vec<Bid>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sign {
    Pos,
    NonNeg,
    Neg,
    NonPos,
    Zero,
    Unk,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Hint {
    Any,
    Pos,
    Unit,
}

pub struct VarInfo {
    pub name: String,
    pub hint: Hint,
    pub id: Id,
}

pub struct Dag {
    pub nodes: Vec<N>,
    map: HashMap<N, Id>,
    pub vs: Vec<[u64; W]>,
    pub smp: Vec<[f64; K]>,
    /// bound on the rounding error of smp
    pub err: Vec<[f64; K]>,
    pub sgn: Vec<Sign>,
    pub bnodes: Vec<BN>,
    bmap: HashMap<BN, Bid>,
    pub bvs: Vec<[u64; W]>,
    pub bt: Vec<u32>,
    pub bf: Vec<u32>,
    pub vars: Vec<VarInfo>,
    pub vmap: HashMap<String, u32>,
}

pub const BT: Bid = 0;
pub const BF: Bid = 1;

fn rng(seed: &mut u64) -> u64 {
    *seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    let mut x = *seed;
    x ^= x >> 33;
    x = x.wrapping_mul(0xff51afd7ed558ccd);
    x ^= x >> 33;
    x
}

impl Dag {
    pub fn new() -> Dag {
        let mut d = Dag {
            nodes: vec![],
            map: HashMap::new(),
            vs: vec![],
            smp: vec![],
            err: vec![],
            sgn: vec![],
            bnodes: vec![],
            bmap: HashMap::new(),
            bvs: vec![],
            bt: vec![],
            bf: vec![],
            vars: vec![],
            vmap: HashMap::new(),
        };
        d.bmk(BN::T);
        d.bmk(BN::F);
        d
    }

    pub fn mk(&mut self, n: N) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let (vs, smp, sgn) = self.info(&n);
        let err = self.errs(&n, &smp);
        let id = self.nodes.len() as Id;
        self.nodes.push(n.clone());
        self.map.insert(n, id);
        self.vs.push(vs);
        self.smp.push(smp);
        self.err.push(err);
        self.sgn.push(sgn);
        id
    }

    fn errs(&self, n: &N, s: &[f64; K]) -> [f64; K] {
        const U: f64 = 2.3e-16;
        let inf = f64::INFINITY;
        let mut r = [0f64; K];
        let dy = |x: f64| x == 0.0 || (x.abs() < 4096.0 && (x * 256.0).fract() == 0.0);
        for j in 0..K {
            let v = |i: Id| self.smp[i as usize][j];
            let e = |i: Id| self.err[i as usize][j];
            let x = s[j];
            r[j] = match n {
                N::Rat(_) => if dy(x) { 0.0 } else { x.abs() * U },
                N::Var(_) => 0.0,
                N::Sum(c, ts) => {
                    let mut exact = dy(c.to_f64());
                    let mut a = c.to_f64().abs();
                    let mut er = 0.0;
                    for (k, t) in ts {
                        let k = k.to_f64();
                        exact = exact && dy(k) && dy(v(*t)) && e(*t) == 0.0;
                        a += (k * v(*t)).abs();
                        er += k.abs() * e(*t);
                    }
                    if exact { 0.0 } else { er + a * U * (ts.len() as f64 + 3.0) }
                }
                N::Prod(fs) => {
                    let mut exact = x.abs() < 4096.0;
                    let mut bits = 0;
                    let mut up = 1.0;
                    for (b, k) in fs {
                        let (bv, be) = (v(*b).abs(), e(*b));
                        exact = exact && *k > 0 && be == 0.0 && dy(bv);
                        bits += 8 * k.abs();
                        up *= if *k > 0 { (bv + be).powi(*k) } else if bv > be { (bv - be).powi(*k) } else { inf };
                    }
                    if (exact && bits <= 40) || x == 0.0 && fs.iter().any(|(b, k)| *k > 0 && v(*b) == 0.0 && e(*b) == 0.0) && up.is_finite() {
                        0.0
                    } else if x == 0.0 {
                        inf
                    } else {
                        (up - x.abs()) + up * U * (fs.len() as f64 * 4.0 + 4.0)
                    }
                }
                N::Sqrt(a) => {
                    let (w, er) = (v(*a), e(*a));
                    if w == 0.0 && er == 0.0 {
                        0.0
                    } else if w > er {
                        er / (2.0 * (w - er).sqrt()) + x * U * 2.0
                    } else {
                        inf
                    }
                }
                N::Exp(a) => {
                    let er = e(*a);
                    if x < 1e-280 || x > 1e280 { inf } else { x * (er.exp() - 1.0) * 1.01 + x * 4.0 * U }
                }
                N::Ln(a) => {
                    let (w, er) = (v(*a), e(*a));
                    if w > er { er / (w - er) + (x.abs() + 1.0) * 4.0 * U } else { inf }
                }
                N::Pow(a, b) => {
                    let (w, er) = (v(*a), e(*a));
                    if w > er && x > 1e-280 && x < 1e280 {
                        let rel = v(*b).abs() * er / (w - er) + e(*b) * (w.ln().abs() + 1.0) + (v(*b) * w.ln()).abs() * 4.0 * U + 8.0 * U;
                        x * (rel.exp() - 1.0) * 1.01
                    } else {
                        inf
                    }
                }
                N::Fun(3, a) => {
                    let (w, er) = (v(*a), e(*a));
                    if er == 0.0 || ((w - er).floor() == (w + er).floor()) { 0.0 } else { inf }
                }
                N::Fun(_, a) => e(*a) + 8.0 * U,
                N::Ite(c, a, b) => {
                    let m = 1u32 << j;
                    if self.bt[*c as usize] & m != 0 { e(*a) } else if self.bf[*c as usize] & m != 0 { e(*b) } else { inf }
                }
            };
            if !(r[j] >= 0.0) {
                r[j] = inf;
            }
        }
        r
    }

    fn info(&self, n: &N) -> ([u64; W], [f64; K], Sign) {
        let mut vs = [0u64; W];
        let mut s = [0f64; K];
        let mut sg = Sign::Unk;
        let un = |vs: &mut [u64; W], o: &[u64; W]| {
            for i in 0..W {
                vs[i] |= o[i];
            }
        };
        match n {
            N::Rat(r) => {
                s = [r.to_f64(); K];
                sg = if r.is_zero() {
                    Sign::Zero
                } else if r.is_neg() {
                    Sign::Neg
                } else {
                    Sign::Pos
                };
            }
            N::Var(v) => {
                let b = (*v as usize) % (64 * W);
                vs[b / 64] |= 1 << (b % 64);
                let info = &self.vars[*v as usize];
                let mut seed = 0x9e3779b97f4a7c15u64;
                for c in info.name.bytes() {
                    seed = seed.wrapping_mul(31).wrapping_add(c as u64 * 7919);
                }
                for j in 0..K {
                    let r = rng(&mut seed);
                    let x = match j % 4 {
                        0 => (r % 7) as f64 - 3.0,
                        1 => (r % 65) as f64 / 4.0 - 8.0,
                        2 => (r % 1000) as f64 / 997.0 * 4.0 - 2.0,
                        _ => (r % 33) as f64 - 16.0,
                    };
                    s[j] = match info.hint {
                        Hint::Any => x,
                        Hint::Pos => x.abs() + 0.25,
                        Hint::Unit => (r % 1009) as f64 / 1009.0,
                    };
                }
                sg = match info.hint {
                    Hint::Any => Sign::Unk,
                    Hint::Pos => Sign::Pos,
                    Hint::Unit => Sign::NonNeg,
                };
            }
            N::Sum(c, ts) => {
                s = [c.to_f64(); K];
                let mut allnn = !c.is_neg();
                let mut allnp = !c.is_pos();
                let mut strictp = c.is_pos();
                let mut strictn = c.is_neg();
                for (k, t) in ts {
                    un(&mut vs, &self.vs[*t as usize]);
                    let kf = k.to_f64();
                    for j in 0..K {
                        s[j] += kf * self.smp[*t as usize][j];
                    }
                    let ts = self.sgn[*t as usize];
                    let ts = if k.is_neg() { neg_sign(ts) } else { ts };
                    match ts {
                        Sign::Pos => {
                            allnp = false;
                            strictp = true;
                        }
                        Sign::NonNeg => allnp = false,
                        Sign::Neg => {
                            allnn = false;
                            strictn = true;
                        }
                        Sign::NonPos => allnn = false,
                        Sign::Zero => {}
                        Sign::Unk => {
                            allnn = false;
                            allnp = false;
                        }
                    }
                }
                sg = if allnn {
                    if strictp {
                        Sign::Pos
                    } else {
                        Sign::NonNeg
                    }
                } else if allnp {
                    if strictn {
                        Sign::Neg
                    } else {
                        Sign::NonPos
                    }
                } else {
                    Sign::Unk
                };
            }
            N::Prod(fs) => {
                s = [1.0; K];
                let mut neg = false;
                let mut unk = false;
                let mut strict = true;
                for (b, e) in fs {
                    un(&mut vs, &self.vs[*b as usize]);
                    for j in 0..K {
                        s[j] *= self.smp[*b as usize][j].powi(*e);
                    }
                    let bs = self.sgn[*b as usize];
                    if e % 2 == 0 {
                        // even power: non-negative; a negative power implies base != 0
                        if !(matches!(bs, Sign::Pos | Sign::Neg) || *e < 0) {
                            strict = false;
                        }
                    } else {
                        match bs {
                            Sign::Pos => {}
                            Sign::Neg => neg = !neg,
                            Sign::NonNeg => strict = strict && *e < 0,
                            Sign::NonPos => {
                                strict = strict && *e < 0;
                                neg = !neg
                            }
                            _ => unk = true,
                        }
                    }
                }
                if !unk {
                    sg = match (neg, strict) {
                        (false, true) => Sign::Pos,
                        (false, false) => Sign::NonNeg,
                        (true, true) => Sign::Neg,
                        (true, false) => Sign::NonPos,
                    };
                }
            }
            N::Sqrt(a) => {
                vs = self.vs[*a as usize];
                for j in 0..K {
                    s[j] = self.smp[*a as usize][j].sqrt();
                }
                sg = if self.sgn[*a as usize] == Sign::Pos { Sign::Pos } else { Sign::NonNeg };
            }
            N::Exp(a) => {
                vs = self.vs[*a as usize];
                for j in 0..K {
                    s[j] = self.smp[*a as usize][j].exp();
                }
                sg = Sign::Pos;
            }
            N::Ln(a) => {
                vs = self.vs[*a as usize];
                for j in 0..K {
                    s[j] = self.smp[*a as usize][j].ln();
                }
            }
            N::Pow(a, b) => {
                vs = self.vs[*a as usize];
                un(&mut vs, &self.vs[*b as usize]);
                for j in 0..K {
                    s[j] = self.smp[*a as usize][j].powf(self.smp[*b as usize][j]);
                }
                if self.sgn[*a as usize] == Sign::Pos {
                    sg = Sign::Pos;
                }
            }
            N::Fun(k, a) => {
                vs = self.vs[*a as usize];
                for j in 0..K {
                    s[j] = fun_eval(*k, self.smp[*a as usize][j]);
                }
            }
            N::Ite(c, a, b) => {
                vs = self.bvs[*c as usize];
                un(&mut vs, &self.vs[*a as usize]);
                un(&mut vs, &self.vs[*b as usize]);
                for j in 0..K {
                    let m = 1u32 << j;
                    s[j] = if self.bt[*c as usize] & m != 0 {
                        self.smp[*a as usize][j]
                    } else if self.bf[*c as usize] & m != 0 {
                        self.smp[*b as usize][j]
                    } else {
                        f64::NAN
                    };
                }
                let (x, y) = (self.sgn[*a as usize], self.sgn[*b as usize]);
                use Sign::*;
                // |x| pattern: ite(x>0, x, -x)
                let abs = match &self.bnodes[*c as usize] {
                    BN::Gt0(t) => *t == *a && self.is_neg_of(*a, *b),
                    _ => false,
                };
                sg = if abs {
                    NonNeg
                } else {
                    match (x, y) {
                        _ if x == y => x,
                        (Pos, NonNeg) | (NonNeg, Pos) => NonNeg,
                        (Pos, Zero) | (Zero, Pos) | (NonNeg, Zero) | (Zero, NonNeg) => NonNeg,
                        (Neg, NonPos) | (NonPos, Neg) | (Neg, Zero) | (Zero, Neg) => NonPos,
                        _ => Unk,
                    }
                };
            }
        }
        (vs, s, sg)
    }

    fn is_neg_of(&self, a: Id, b: Id) -> bool {
        // b == -a ?
        let (ca, ta) = self.as_sum(a);
        let (cb, tb) = self.as_sum(b);
        ca.neg() == cb && ta.len() == tb.len() && ta.iter().zip(tb.iter()).all(|(x, y)| x.1 == y.1 && x.0.neg() == y.0)
    }

    pub fn rat(&mut self, r: Rat) -> Id {
        self.mk(N::Rat(r))
    }
    pub fn int(&mut self, i: i128) -> Id {
        self.mk(N::Rat(Rat::int(i)))
    }
    pub fn as_rat(&self, i: Id) -> Option<&Rat> {
        match &self.nodes[i as usize] {
            N::Rat(r) => Some(r),
            _ => None,
        }
    }
    pub fn var(&mut self, name: &str, hint: Hint) -> Id {
        if let Some(&v) = self.vmap.get(name) {
            return self.vars[v as usize].id;
        }
        let v = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), hint, id: 0 });
        self.vmap.insert(name.to_string(), v);
        let id = self.mk(N::Var(v));
        self.vars[v as usize].id = id;
        id
    }

    fn as_sum(&self, i: Id) -> (Rat, Vec<(Rat, Id)>) {
        match &self.nodes[i as usize] {
            N::Rat(r) => (r.clone(), vec![]),
            N::Sum(c, t) => (c.clone(), t.clone()),
            _ => (Rat::zero(), vec![(Rat::one(), i)]),
        }
    }
    fn from_sum(&mut self, c: Rat, mut t: Vec<(Rat, Id)>) -> Id {
        t.retain(|x| !x.0.is_zero());
        if t.is_empty() {
            return self.rat(c);
        }
        if t.len() == 1 && c.is_zero() && t[0].0.is_one() {
            return t[0].1;
        }
        self.mk(N::Sum(c, t))
    }
    pub fn lin(&mut self, a: Id, ka: &Rat, b: Id, kb: &Rat) -> Id {
        let (c1, t1) = self.as_sum(a);
        let (c2, t2) = self.as_sum(b);
        let c = c1.mul(ka).add(&c2.mul(kb));
        let mut r = Vec::with_capacity(t1.len() + t2.len());
        let (mut i, mut j) = (0, 0);
        while i < t1.len() || j < t2.len() {
            if j >= t2.len() || (i < t1.len() && t1[i].1 < t2[j].1) {
                r.push((t1[i].0.mul(ka), t1[i].1));
                i += 1;
            } else if i >= t1.len() || t2[j].1 < t1[i].1 {
                r.push((t2[j].0.mul(kb), t2[j].1));
                j += 1;
            } else {
                r.push((t1[i].0.mul(ka).add(&t2[j].0.mul(kb)), t1[i].1));
                i += 1;
                j += 1;
            }
        }
        self.from_sum(c, r)
    }
    pub fn add(&mut self, a: Id, b: Id) -> Id {
        self.lin(a, &Rat::one(), b, &Rat::one())
    }
    pub fn sub(&mut self, a: Id, b: Id) -> Id {
        self.lin(a, &Rat::one(), b, &Rat::int(-1))
    }
    pub fn scale(&mut self, a: Id, k: &Rat) -> Id {
        if k.is_zero() {
            return self.int(0);
        }
        let (c, t) = self.as_sum(a);
        let t = t.into_iter().map(|(x, y)| (x.mul(k), y)).collect();
        let c = c.mul(k);
        self.from_sum(c, t)
    }
    pub fn neg(&mut self, a: Id) -> Id {
        self.scale(a, &Rat::int(-1))
    }

    /// coef * product-of-bases view
    pub fn as_mono(&mut self, i: Id) -> (Rat, Vec<(Id, i32)>) {
        match self.nodes[i as usize].clone() {
            N::Rat(r) => (r, vec![]),
            N::Prod(f) => (Rat::one(), f),
            N::Sum(c, t) => {
                if c.is_zero() && t.len() == 1 {
                    let (k, b) = t[0].clone();
                    let (k2, f) = self.as_mono(b);
                    (k.mul(&k2), f)
                } else {
                    // normalise by leading coefficient
                    let k = t[0].0.clone();
                    let inv = k.inv();
                    let b = if k.is_one() { i } else { self.scale(i, &inv) };
                    (k, vec![(b, 1)])
                }
            }
            _ => (Rat::one(), vec![(i, 1)]),
        }
    }
    fn from_mono(&mut self, mut k: Rat, f: Vec<(Id, i32)>) -> Id {
        // simplify sqrt powers: sqrt(x)^2 -> x
        let mut extra: Vec<(Id, i32)> = vec![];
        let mut out: Vec<(Id, i32)> = vec![];
        for (b, e) in f {
            if e == 0 {
                continue;
            }
            if let N::Sqrt(x) = self.nodes[b as usize] {
                if e.abs() >= 2 {
                    let h = e / 2;
                    extra.push((x, h));
                    let r = e - 2 * h;
                    if r != 0 {
                        out.push((b, r));
                    }
                    continue;
                }
            }
            out.push((b, e));
        }
        if !extra.is_empty() {
            let mut acc = self.from_mono(k, out);
            for (x, h) in extra {
                let p = self.powi(x, h);
                acc = self.mul(acc, p);
            }
            return acc;
        }
        if k.is_zero() {
            return self.int(0);
        }
        if out.is_empty() {
            return self.rat(k);
        }
        let p = if out.len() == 1 && out[0].1 == 1 {
            out[0].0
        } else {
            out.sort();
            self.mk(N::Prod(out))
        };
        if k.is_one() {
            return p;
        }
        // p may be a multi-term Sum: distribute the scalar
        let kk = std::mem::replace(&mut k, Rat::zero());
        self.scale(p, &kk)
    }
    pub fn mul(&mut self, a: Id, b: Id) -> Id {
        if let Some(r) = self.as_rat(a).cloned() {
            return self.scale(b, &r);
        }
        if let Some(r) = self.as_rat(b).cloned() {
            return self.scale(a, &r);
        }
        let (k1, f1) = self.as_mono(a);
        let (k2, f2) = self.as_mono(b);
        let mut f: Vec<(Id, i32)> = f1;
        for (x, e) in f2 {
            if let Some(p) = f.iter_mut().find(|p| p.0 == x) {
                p.1 += e;
            } else {
                f.push((x, e));
            }
        }
        self.from_mono(k1.mul(&k2), f)
    }
    pub fn powi(&mut self, a: Id, e: i32) -> Id {
        if e == 0 {
            return self.int(1);
        }
        if let Some(r) = self.as_rat(a).cloned() {
            if r.is_zero() && e < 0 {
                panic!("symx: zero inverse");
            }
            return self.rat(r.pow(e));
        }
        let (k, f) = self.as_mono(a);
        let f = f.into_iter().map(|(b, x)| (b, x * e)).collect();
        self.from_mono(k.pow(e), f)
    }
    /// a / b where b is known to be non-zero on the current path
    pub fn div_nz(&mut self, a: Id, b: Id) -> Id {
        let i = self.powi(b, -1);
        self.mul(a, i)
    }
    /// sqrt of a value known to be >= 0
    pub fn sqrt(&mut self, a: Id) -> Id {
        if let Some(r) = self.as_rat(a) {
            if let Some(s) = r.sqrt_exact() {
                return self.rat(s);
            }
        } else {
            let (k, f) = self.as_mono(a);
            if k.is_pos() && f.iter().all(|x| x.1 % 2 == 0) {
                if let Some(s) = k.sqrt_exact() {
                    let mut acc = self.rat(s);
                    for (b, e) in f {
                        let ab = self.abs(b);
                        let p = self.powi(ab, e / 2);
                        acc = self.mul(acc, p);
                    }
                    return acc;
                }
            }
        }
        self.mk(N::Sqrt(a))
    }
    pub fn abs(&mut self, a: Id) -> Id {
        match self.sgn[a as usize] {
            Sign::Pos | Sign::NonNeg | Sign::Zero => return a,
            Sign::Neg | Sign::NonPos => return self.neg(a),
            _ => {}
        }
        if let Some(r) = self.as_rat(a).cloned() {
            return self.rat(r.abs());
        }
        let (k, f) = self.as_mono(a);
        let mut acc = self.rat(k.abs());
        for (b, e) in f {
            let x = if e % 2 == 0 { b } else { self.abs1(b) };
            let p = self.powi(x, e);
            acc = self.mul(acc, p);
        }
        acc
    }
    fn abs1(&mut self, x: Id) -> Id {
        match self.sgn[x as usize] {
            Sign::Pos | Sign::NonNeg | Sign::Zero => return x,
            Sign::Neg | Sign::NonPos => return self.neg(x),
            _ => {}
        }
        let n = self.neg(x);
        let c = self.gt0(x);
        let r = self.ite(c, x, n);
        if let N::Ite(..) = self.nodes[r as usize] {
            self.sgn[r as usize] = Sign::NonNeg;
        }
        r
    }
    pub fn ite(&mut self, c: Bid, a: Id, b: Id) -> Id {
        if c == BT || a == b {
            return a;
        }
        if c == BF {
            return b;
        }
        self.mk(N::Ite(c, a, b))
    }
    /// exp with exp(-u) = 1/exp(u), exp(n*u) = exp(u)^n, exp(ln x) = x
    pub fn exp(&mut self, a: Id) -> Id {
        if let Some(r) = self.as_rat(a) {
            if r.is_zero() {
                return self.int(1);
            }
        }
        let (c, t) = self.as_sum(a);
        // pull out integer / half-integer multiples of logarithms
        if !t.is_empty() {
            let mut rest = vec![];
            let mut fac: Option<Id> = None;
            for (k, x) in &t {
                if let N::Ln(y) = self.nodes[*x as usize] {
                    let two = k.mul(&Rat::int(2));
                    if let Some(n) = two.is_int() {
                        if n.abs() < 20 {
                            let p = if n % 2 == 0 {
                                self.powi(y, (n / 2) as i32)
                            } else {
                                let s = self.sqrt(y);
                                self.powi(s, n as i32)
                            };
                            fac = Some(match fac {
                                None => p,
                                Some(f) => self.mul(f, p),
                            });
                            continue;
                        }
                    }
                }
                rest.push((k.clone(), *x));
            }
            if let Some(f) = fac {
                let r = self.from_sum(c, rest);
                let e = self.exp(r);
                return self.mul(f, e);
            }
        }
        if c.is_zero() && t.len() == 1 {
            let (k, x) = t[0].clone();
            if let Some(n) = k.is_int() {
                if n.abs() < 50 {
                    let e = self.mk(N::Exp(x));
                    return self.powi(e, n as i32);
                }
            }
        }
        let lead_neg = if t.is_empty() { c.is_neg() } else { t[0].0.is_neg() };
        if lead_neg {
            let n = self.neg(a);
            let e = self.mk(N::Exp(n));
            return self.powi(e, -1);
        }
        self.mk(N::Exp(a))
    }
    /// ln of a value known to be > 0
    pub fn ln(&mut self, a: Id) -> Id {
        if let Some(r) = self.as_rat(a) {
            if r.is_one() {
                return self.int(0);
            }
            if r.cmp(&Rat::one()) == std::cmp::Ordering::Less {
                let i = r.inv();
                let i = self.rat(i);
                let l = self.mk(N::Ln(i));
                return self.neg(l);
            }
            return self.mk(N::Ln(a));
        }
        let (k, f) = self.as_mono(a);
        let split = k.is_pos() && f.iter().all(|(b, _)| self.sgn[*b as usize] == Sign::Pos || f.len() == 1);
        if split && (f.len() > 1 || f[0].1 % 2 != 0 || self.sgn[f[0].0 as usize] == Sign::Pos) && !(k.is_one() && f.len() == 1 && f[0].1 == 1 && !matches!(self.nodes[f[0].0 as usize], N::Exp(_) | N::Sqrt(_))) {
            let kid = self.rat(k);
            let mut acc = self.ln(kid);
            for (b, e) in f {
                let l = match self.nodes[b as usize] {
                    N::Exp(x) => x,
                    N::Sqrt(x) => {
                        let l = self.ln(x);
                        self.scale(l, &Rat::new(1, 2))
                    }
                    _ => self.mk(N::Ln(b)),
                };
                let le = self.scale(l, &Rat::int(e as i128));
                acc = self.add(acc, le);
            }
            return acc;
        }
        // as a quotient of polynomials the argument may become a product
        let (n, d) = self.numden(a, &mut HashMap::new(), &mut vec![]);
        {
            let q = self.div_nz(n, d);
            if q != a {
                let (k, f) = self.as_mono(q);
                if k.is_pos() && f.iter().all(|(b, _)| self.sgn[*b as usize] == Sign::Pos) {
                    return self.ln(q);
                }
            }
        }
        self.mk(N::Ln(a))
    }

    // ---------- booleans ----------
    pub fn bmk(&mut self, n: BN) -> Bid {
        if let Some(&i) = self.bmap.get(&n) {
            return i;
        }
        let mut vs = [0u64; W];
        let (mut t, mut f) = (0u32, 0u32);
        match &n {
            BN::T => t = !0,
            BN::F => f = !0,
            BN::Gt0(a) => {
                vs = self.vs[*a as usize];
                for j in 0..K {
                    let v = self.smp[*a as usize][j];
                    if !v.is_finite() {
                        continue;
                    }
                    let e = self.err[*a as usize][j];
                    if v > e {
                        t |= 1 << j;
                    } else if v < -e || (v == 0.0 && e == 0.0) {
                        f |= 1 << j;
                    }
                }
            }
            BN::Eq0(a) => {
                vs = self.vs[*a as usize];
                for j in 0..K {
                    let v = self.smp[*a as usize][j];
                    if !v.is_finite() {
                        continue;
                    }
                    let e = self.err[*a as usize][j];
                    if v == 0.0 && e == 0.0 {
                        t |= 1 << j;
                    } else if v.abs() > e {
                        f |= 1 << j;
                    }
                }
            }
            BN::Not(a) => {
                vs = self.bvs[*a as usize];
                t = self.bf[*a as usize];
                f = self.bt[*a as usize];
            }
            BN::And(v) => {
                t = !0;
                for x in v {
                    for i in 0..W {
                        vs[i] |= self.bvs[*x as usize][i];
                    }
                    t &= self.bt[*x as usize];
                    f |= self.bf[*x as usize];
                }
            }
            BN::Or(v) => {
                f = !0;
                for x in v {
                    for i in 0..W {
                        vs[i] |= self.bvs[*x as usize][i];
                    }
                    t |= self.bt[*x as usize];
                    f &= self.bf[*x as usize];
                }
            }
        }
        let id = self.bnodes.len() as Bid;
        self.bnodes.push(n.clone());
        self.bmap.insert(n, id);
        self.bvs.push(vs);
        self.bt.push(t);
        self.bf.push(f);
        id
    }
    pub fn not(&mut self, a: Bid) -> Bid {
        match self.bnodes[a as usize].clone() {
            BN::T => BF,
            BN::F => BT,
            BN::Not(x) => x,
            _ => self.bmk(BN::Not(a)),
        }
    }
    pub fn and(&mut self, v: &[Bid]) -> Bid {
        let mut o = vec![];
        for &x in v {
            if x == BF {
                return BF;
            }
            if x == BT {
                continue;
            }
            if let BN::And(w) = &self.bnodes[x as usize] {
                o.extend(w.iter().cloned());
            } else {
                o.push(x);
            }
        }
        o.sort();
        o.dedup();
        for &x in &o {
            let n = self.not(x);
            if o.binary_search(&n).is_ok() {
                return BF;
            }
        }
        match o.len() {
            0 => BT,
            1 => o[0],
            _ => self.bmk(BN::And(o)),
        }
    }
    pub fn or(&mut self, v: &[Bid]) -> Bid {
        let mut o = vec![];
        for &x in v {
            if x == BT {
                return BT;
            }
            if x == BF {
                continue;
            }
            if let BN::Or(w) = &self.bnodes[x as usize] {
                o.extend(w.iter().cloned());
            } else {
                o.push(x);
            }
        }
        o.sort();
        o.dedup();
        for &x in &o {
            let n = self.not(x);
            if o.binary_search(&n).is_ok() {
                return BT;
            }
        }
        match o.len() {
            0 => BF,
            1 => o[0],
            _ => self.bmk(BN::Or(o)),
        }
    }
    /// scale so that the leading coefficient is +-1
    fn norm_sum(&mut self, a: Id, sign_too: bool) -> Id {
        if let N::Sum(_, t) = &self.nodes[a as usize] {
            let k = if sign_too { t[0].0.clone() } else { t[0].0.abs() };
            if !k.is_one() {
                return self.scale(a, &k.inv());
            }
        }
        a
    }
    /// two-term difference c*(f(x) - f(y)) or f(x) vs constant, f monotone increasing
    fn mono_diff(&mut self, a: Id) -> Option<(bool, Id)> {
        // returns (negated, d) with sign(a) = sign(d) (or -sign(d) if negated)
        if let N::Sum(c, t) = self.nodes[a as usize].clone() {
            if c.is_zero() && t.len() == 2 && t[0].0.neg() == t[1].0 {
                let (n0, n1) = (self.nodes[t[0].1 as usize].clone(), self.nodes[t[1].1 as usize].clone());
                let neg = t[0].0.is_neg();
                match (n0, n1) {
                    (N::Sqrt(x), N::Sqrt(y)) | (N::Exp(x), N::Exp(y)) | (N::Ln(x), N::Ln(y)) => {
                        return Some((neg, self.sub(x, y)));
                    }
                    _ => {}
                }
            }
            if t.len() == 1 {
                if let N::Sqrt(x) = self.nodes[t[0].1 as usize] {
                    // k*sqrt(x) + c
                    let k = t[0].0.clone();
                    let r = c.neg().div(&k); // sqrt(x) vs r
                    if r.is_neg() {
                        let one = self.int(1);
                        return Some((k.is_neg(), one));
                    }
                    let r2 = r.mul(&r);
                    let rid = self.rat(r2);
                    return Some((k.is_neg(), self.sub(x, rid)));
                }
                if let N::Exp(x) = self.nodes[t[0].1 as usize] {
                    let k = t[0].0.clone();
                    let r = c.neg().div(&k);
                    if r.is_one() {
                        return Some((k.is_neg(), x));
                    }
                    if !r.is_pos() {
                        let one = self.int(1);
                        return Some((k.is_neg(), one));
                    }
                }
                if let N::Ln(x) = self.nodes[t[0].1 as usize] {
                    if c.is_zero() {
                        let one = self.int(1);
                        return Some((t[0].0.is_neg(), self.sub(x, one)));
                    }
                }
            }
            // sum of two sqrt(prod) with common structure is left to the solver
        }
        if let N::Sqrt(x) = self.nodes[a as usize] {
            return Some((false, x));
        }
        None
    }
    pub fn gt0(&mut self, a: Id) -> Bid {
        match self.sgn[a as usize] {
            Sign::Pos => return BT,
            Sign::NonPos | Sign::Neg | Sign::Zero => return BF,
            Sign::NonNeg => {
                let e = self.eq0(a);
                return self.not(e);
            }
            _ => {}
        }
        if let Some((neg, d)) = self.mono_diff(a) {
            let d = if neg { self.neg(d) } else { d };
            return self.gt0(d);
        }
        let a = self.norm_sum(a, false);
        self.bmk(BN::Gt0(a))
    }
    pub fn eq0(&mut self, a: Id) -> Bid {
        match self.sgn[a as usize] {
            Sign::Pos | Sign::Neg => return BF,
            Sign::Zero => return BT,
            _ => {}
        }
        if let Some((_, d)) = self.mono_diff(a) {
            return self.eq0(d);
        }
        let (_, f) = self.as_mono(a);
        if f.len() > 1 || (f.len() == 1 && f[0].1 != 1) {
            let mut v = vec![];
            for (b, e) in f {
                if e > 0 {
                    let x = self.eq0(b);
                    v.push(x);
                }
            }
            return self.or(&v);
        }
        // sum of non-negative terms: zero iff all terms are zero
        if let N::Sum(c, t) = self.nodes[a as usize].clone() {
            if c.is_zero() && t.len() > 1 {
                let allnn = t.iter().all(|(k, x)| {
                    let s = self.sgn[*x as usize];
                    if k.is_pos() {
                        matches!(s, Sign::Pos | Sign::NonNeg)
                    } else {
                        matches!(s, Sign::Neg | Sign::NonPos)
                    }
                });
                if allnn {
                    let v: Vec<Bid> = t.iter().map(|(_, x)| *x).collect::<Vec<_>>().into_iter().map(|x| self.eq0(x)).collect();
                    return self.and(&v);
                }
            }
        }
        let a = self.norm_sum(a, true);
        self.bmk(BN::Eq0(a))
    }
    pub fn lt(&mut self, a: Id, b: Id) -> Bid {
        let d = self.sub(b, a);
        self.gt0(d)
    }
    pub fn le(&mut self, a: Id, b: Id) -> Bid {
        let d = self.sub(a, b);
        let g = self.gt0(d);
        self.not(g)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Bid {
        let d = self.sub(a, b);
        self.eq0(d)
    }

    // ---------- calculus ----------
    pub fn diff(&mut self, a: Id, v: u32, memo: &mut HashMap<Id, Id>) -> Id {
        let b = (v as usize) % (64 * W);
        if self.vs[a as usize][b / 64] & (1 << (b % 64)) == 0 {
            return self.int(0);
        }
        if let Some(&r) = memo.get(&a) {
            return r;
        }
        let r = match self.nodes[a as usize].clone() {
            N::Rat(_) => self.int(0),
            N::Var(w) => self.int(if w == v { 1 } else { 0 }),
            N::Sum(_, t) => {
                let mut acc = self.int(0);
                for (k, x) in t {
                    let d = self.diff(x, v, memo);
                    acc = self.lin(acc, &Rat::one(), d, &k);
                }
                acc
            }
            N::Prod(f) => {
                let mut acc = self.int(0);
                for (x, e) in &f {
                    let d = self.diff(*x, v, memo);
                    if self.sgn[d as usize] == Sign::Zero {
                        continue;
                    }
                    let mut t = self.scale(d, &Rat::int(*e as i128));
                    for (y, g) in &f {
                        let ee = if y == x { g - 1 } else { *g };
                        let p = self.powi(*y, ee);
                        t = self.mul(t, p);
                    }
                    acc = self.add(acc, t);
                }
                acc
            }
            N::Sqrt(x) => {
                let d = self.diff(x, v, memo);
                let h = self.scale(d, &Rat::new(1, 2));
                self.div_nz(h, a)
            }
            N::Exp(x) => {
                let d = self.diff(x, v, memo);
                self.mul(a, d)
            }
            N::Ln(x) => {
                let d = self.diff(x, v, memo);
                self.div_nz(d, x)
            }
            N::Pow(x, y) => {
                let dx = self.diff(x, v, memo);
                let dy = self.diff(y, v, memo);
                let mut acc = self.int(0);
                if self.sgn[dx as usize] != Sign::Zero {
                    let t = self.mul(a, y);
                    let t = self.div_nz(t, x);
                    acc = self.mul(t, dx);
                }
                if self.sgn[dy as usize] != Sign::Zero {
                    let l = self.ln(x);
                    let t = self.mul(a, l);
                    let t = self.mul(t, dy);
                    acc = self.add(acc, t);
                }
                acc
            }
            N::Fun(k, x) => {
                let d = self.diff(x, v, memo);
                let o = match k {
                    0 => self.mk(N::Fun(1, x)), // sin' = cos
                    1 => {
                        let s = self.mk(N::Fun(0, x));
                        self.neg(s)
                    }
                    _ => panic!("symx: derivative of this function is not supported"),
                };
                self.mul(o, d)
            }
            N::Ite(c, x, y) => {
                let dx = self.diff(x, v, memo);
                let dy = self.diff(y, v, memo);
                self.ite(c, dx, dy)
            }
        };
        memo.insert(a, r);
        r
    }

    /// a = num/den with both division-free; `nz` collects the bases that were divided by
    pub fn numden(&mut self, a: Id, memo: &mut HashMap<Id, (Id, Id)>, nz: &mut Vec<Id>) -> (Id, Id) {
        if let Some(&r) = memo.get(&a) {
            return r;
        }
        let one = self.int(1);
        let (mut n, mut d) = self.numden1(a, memo, nz);
        // squaring a root of a quotient brings a division back
        for _ in 0..8 {
            let mut seen = Default::default();
            if !self.divides(n, &mut seen) && !self.divides(d, &mut seen) {
                break;
            }
            let mut fresh = HashMap::new();
            let (n1, nd) = self.numden1(n, &mut fresh, nz);
            let (d1, dd) = self.numden1(d, &mut fresh, nz);
            n = self.mul(n1, dd);
            d = self.mul(d1, nd);
        }
        memo.insert(a, (n, d));
        (n, d)
    }
    fn divides(&self, a: Id, seen: &mut std::collections::HashSet<Id>) -> bool {
        if !seen.insert(a) {
            return false;
        }
        match &self.nodes[a as usize] {
            N::Sum(_, t) => t.iter().any(|x| self.divides(x.1, seen)),
            N::Prod(f) => f.iter().any(|x| x.1 < 0 || self.divides(x.0, seen)),
            N::Ite(_, x, y) => self.divides(*x, seen) || self.divides(*y, seen),
            _ => false,
        }
    }
    fn numden1(&mut self, a: Id, memo: &mut HashMap<Id, (Id, Id)>, nz: &mut Vec<Id>) -> (Id, Id) {
        let one = self.int(1);
        let r = match self.nodes[a as usize].clone() {
            N::Sum(c, t) => {
                // common denominator: product of distinct denominators (max exponent per base)
                let mut parts = vec![];
                let mut den: Vec<(Id, i32)> = vec![];
                for (k, x) in t {
                    let (n, d) = self.numden(x, memo, nz);
                    let (dk, df) = self.as_mono(d);
                    for (b, e) in &df {
                        if let Some(p) = den.iter_mut().find(|p| p.0 == *b) {
                            p.1 = p.1.max(*e);
                        } else {
                            den.push((*b, *e));
                        }
                    }
                    parts.push((k.div(&dk), n, df));
                }
                let dd = self.from_mono(Rat::one(), den.clone());
                let mut acc = self.scale(dd, &c);
                for (k, n, df) in parts {
                    let mut rest = den.clone();
                    for (b, e) in df {
                        let p = rest.iter_mut().find(|p| p.0 == b).unwrap();
                        p.1 -= e;
                    }
                    rest.retain(|x| x.1 != 0);
                    let r = self.from_mono(Rat::one(), rest);
                    let t = self.mul(n, r);
                    acc = self.lin(acc, &Rat::one(), t, &k);
                }
                (acc, dd)
            }
            N::Prod(f) => {
                let (mut n, mut d) = (one, one);
                for (b, e) in f {
                    let (bn, bd) = self.numden(b, memo, nz);
                    let (x, y) = if e > 0 { (bn, bd) } else { (bd, bn) };
                    if e < 0 && !nz.contains(&bn) {
                        nz.push(bn);
                    }
                    let px = self.powi(x, e.abs());
                    let py = self.powi(y, e.abs());
                    n = self.mul(n, px);
                    d = self.mul(d, py);
                }
                (n, d)
            }
            N::Ite(c, x, y) => {
                let (xn, xd) = self.numden(x, memo, nz);
                let (yn, yd) = self.numden(y, memo, nz);
                if xd == one && yd == one {
                    (a, one)
                } else {
                    let n = self.ite(c, xn, yn);
                    let d = self.ite(c, xd, yd);
                    (n, d)
                }
            }
            _ => (a, one),
        };
        r
    }

    pub fn eval(&self, a: Id, env: &HashMap<u32, f64>, memo: &mut HashMap<Id, f64>) -> f64 {
        if let Some(&r) = memo.get(&a) {
            return r;
        }
        let r = match &self.nodes[a as usize] {
            N::Rat(r) => r.to_f64(),
            N::Var(v) => *env.get(v).unwrap_or(&0.0),
            N::Sum(c, t) => {
                let mut s = c.to_f64();
                for (k, x) in t {
                    s += k.to_f64() * self.eval(*x, env, memo);
                }
                s
            }
            N::Prod(f) => {
                let mut s = 1.0;
                for (b, e) in f {
                    s *= self.eval(*b, env, memo).powi(*e);
                }
                s
            }
            N::Sqrt(x) => self.eval(*x, env, memo).sqrt(),
            N::Exp(x) => self.eval(*x, env, memo).exp(),
            N::Ln(x) => self.eval(*x, env, memo).ln(),
            N::Pow(x, y) => self.eval(*x, env, memo).powf(self.eval(*y, env, memo)),
            N::Fun(k, x) => fun_eval(*k, self.eval(*x, env, memo)),
            N::Ite(c, x, y) => {
                if self.beval(*c, env, memo) {
                    self.eval(*x, env, memo)
                } else {
                    self.eval(*y, env, memo)
                }
            }
        };
        memo.insert(a, r);
        r
    }
    pub fn beval(&self, b: Bid, env: &HashMap<u32, f64>, memo: &mut HashMap<Id, f64>) -> bool {
        match &self.bnodes[b as usize] {
            BN::T => true,
            BN::F => false,
            BN::Gt0(a) => self.eval(*a, env, memo) > 0.0,
            BN::Eq0(a) => self.eval(*a, env, memo) == 0.0,
            BN::Not(x) => !self.beval(*x, env, memo),
            BN::And(v) => v.iter().all(|x| self.beval(*x, env, memo)),
            BN::Or(v) => v.iter().any(|x| self.beval(*x, env, memo)),
        }
    }
}

pub fn fun_eval(k: u8, x: f64) -> f64 {
    match k {
        0 => x.sin(),
        1 => x.cos(),
        2 => x.atan(),
        3 => x.floor(),
        _ => f64::NAN,
    }
}

fn neg_sign(s: Sign) -> Sign {
    match s {
        Sign::Pos => Sign::Neg,
        Sign::NonNeg => Sign::NonPos,
        Sign::Neg => Sign::Pos,
        Sign::NonPos => Sign::NonNeg,
        x => x,
    }
}
