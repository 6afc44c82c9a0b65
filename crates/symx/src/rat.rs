//! Exact rationals: i128 fast path, arbitrary precision fallback.
use std::cmp::Ordering;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Big {
    neg: bool,
    mag: Vec<u32>, // little endian, no leading zeros; zero = empty & !neg
}

impl Big {
    fn from_i128(x: i128) -> Big {
        let mut m = x.unsigned_abs();
        let mut mag = Vec::new();
        while m > 0 {
            mag.push(m as u32);
            m >>= 32;
        }
        Big { neg: x < 0, mag }
    }
    fn to_i128(&self) -> Option<i128> {
        if self.mag.len() > 4 {
            return None;
        }
        let mut m: u128 = 0;
        for &d in self.mag.iter().rev() {
            m = (m << 32) | d as u128;
        }
        if m > i128::MAX as u128 {
            return None;
        }
        Some(if self.neg { -(m as i128) } else { m as i128 })
    }
    fn is_zero(&self) -> bool {
        self.mag.is_empty()
    }
    fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
        if a.len() != b.len() {
            return a.len().cmp(&b.len());
        }
        for i in (0..a.len()).rev() {
            if a[i] != b[i] {
                return a[i].cmp(&b[i]);
            }
        }
        Ordering::Equal
    }
    fn trim(v: &mut Vec<u32>) {
        while let Some(0) = v.last() {
            v.pop();
        }
    }
    fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = Vec::new();
        let mut c = 0u64;
        for i in 0..a.len().max(b.len()) {
            let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
            r.push(s as u32);
            c = s >> 32;
        }
        if c > 0 {
            r.push(c as u32);
        }
        r
    }
    fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
        let mut r = Vec::new();
        let mut br = 0i64;
        for i in 0..a.len() {
            let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - br;
            if s < 0 {
                s += 1 << 32;
                br = 1;
            } else {
                br = 0;
            }
            r.push(s as u32);
        }
        Self::trim(&mut r);
        r
    }
    fn add(&self, o: &Big) -> Big {
        if self.neg == o.neg {
            return Big { neg: self.neg, mag: Self::add_mag(&self.mag, &o.mag) };
        }
        match Self::cmp_mag(&self.mag, &o.mag) {
            Ordering::Equal => Big { neg: false, mag: vec![] },
            Ordering::Greater => Big { neg: self.neg, mag: Self::sub_mag(&self.mag, &o.mag) },
            Ordering::Less => Big { neg: o.neg, mag: Self::sub_mag(&o.mag, &self.mag) },
        }
    }
    fn mul(&self, o: &Big) -> Big {
        if self.is_zero() || o.is_zero() {
            return Big { neg: false, mag: vec![] };
        }
        let mut r = vec![0u32; self.mag.len() + o.mag.len()];
        for i in 0..self.mag.len() {
            let mut c = 0u64;
            for j in 0..o.mag.len() {
                let t = self.mag[i] as u64 * o.mag[j] as u64 + r[i + j] as u64 + c;
                r[i + j] = t as u32;
                c = t >> 32;
            }
            r[i + o.mag.len()] = c as u32;
        }
        Self::trim(&mut r);
        Big { neg: self.neg != o.neg, mag: r }
    }
    fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
        // shift-subtract long division (numbers here are small)
        let mut q = vec![0u32; a.len()];
        let mut r: Vec<u32> = Vec::new();
        for i in (0..a.len() * 32).rev() {
            // r = r*2 + bit
            let mut c = (a[i / 32] >> (i % 32)) & 1;
            for d in r.iter_mut() {
                let n = *d >> 31;
                *d = (*d << 1) | c;
                c = n;
            }
            if c > 0 {
                r.push(c);
            }
            if Self::cmp_mag(&r, b) != Ordering::Less {
                r = Self::sub_mag(&r, b);
                q[i / 32] |= 1 << (i % 32);
            }
        }
        Self::trim(&mut q);
        Self::trim(&mut r);
        (q, r)
    }
    fn gcd(a: &Big, b: &Big) -> Big {
        let mut x = a.mag.clone();
        let mut y = b.mag.clone();
        while !y.is_empty() {
            let (_, r) = Self::divrem_mag(&x, &y);
            x = y;
            y = r;
        }
        Big { neg: false, mag: x }
    }
    fn div_exact(&self, o: &Big) -> Big {
        let (q, _) = Self::divrem_mag(&self.mag, &o.mag);
        let z = q.is_empty();
        Big { neg: !z && (self.neg != o.neg), mag: q }
    }
    fn to_f64(&self) -> f64 {
        let mut r = 0.0;
        for &d in self.mag.iter().rev() {
            r = r * 4294967296.0 + d as f64;
        }
        if self.neg {
            -r
        } else {
            r
        }
    }
    fn dec(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut m = self.mag.clone();
        let mut ds = Vec::new();
        while !m.is_empty() {
            let mut rem = 0u64;
            for d in m.iter_mut().rev() {
                let cur = (rem << 32) | *d as u64;
                *d = (cur / 1_000_000_000) as u32;
                rem = cur % 1_000_000_000;
            }
            Self::trim(&mut m);
            ds.push(rem);
        }
        let mut s = format!("{}", ds.pop().unwrap());
        while let Some(d) = ds.pop() {
            s.push_str(&format!("{:09}", d));
        }
        s
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Rat {
    S(i128, i128),
    B(Box<(Big, Big)>),
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Rat {
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = -n;
            d = -d;
        }
        Rat::S(n, d)
    }
    pub fn int(n: i128) -> Rat {
        Rat::S(n, 1)
    }
    pub fn zero() -> Rat {
        Rat::S(0, 1)
    }
    pub fn one() -> Rat {
        Rat::S(1, 1)
    }
    fn big(&self) -> (Big, Big) {
        match self {
            Rat::S(n, d) => (Big::from_i128(*n), Big::from_i128(*d)),
            Rat::B(b) => (b.0.clone(), b.1.clone()),
        }
    }
    fn from_big(n: Big, d: Big) -> Rat {
        let g = Big::gcd(&n, &d);
        let mut n = n.div_exact(&g);
        let mut d = d.div_exact(&g);
        if d.neg {
            d.neg = false;
            if !n.is_zero() {
                n.neg = !n.neg;
            }
        }
        match (n.to_i128(), d.to_i128()) {
            (Some(a), Some(b)) => Rat::S(a, b),
            _ => Rat::B(Box::new((n, d))),
        }
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, Rat::S(0, _))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, Rat::S(1, 1))
    }
    pub fn is_neg(&self) -> bool {
        match self {
            Rat::S(n, _) => *n < 0,
            Rat::B(b) => b.0.neg,
        }
    }
    pub fn is_pos(&self) -> bool {
        !self.is_zero() && !self.is_neg()
    }
    pub fn neg(&self) -> Rat {
        match self {
            Rat::S(n, d) => Rat::S(-*n, *d),
            Rat::B(b) => {
                let mut n = b.0.clone();
                n.neg = !n.neg;
                Rat::B(Box::new((n, b.1.clone())))
            }
        }
    }
    pub fn abs(&self) -> Rat {
        if self.is_neg() {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn add(&self, o: &Rat) -> Rat {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            if let (Some(x), Some(y), Some(z)) = (a.checked_mul(*d), c.checked_mul(*b), b.checked_mul(*d)) {
                if let Some(n) = x.checked_add(y) {
                    if n != i128::MIN {
                        return Rat::new(n, z);
                    }
                }
            }
        }
        let (a, b) = self.big();
        let (c, d) = o.big();
        Rat::from_big(a.mul(&d).add(&c.mul(&b)), b.mul(&d))
    }
    pub fn sub(&self, o: &Rat) -> Rat {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Rat) -> Rat {
        if let (Rat::S(a, b), Rat::S(c, d)) = (self, o) {
            if let (Some(n), Some(z)) = (a.checked_mul(*c), b.checked_mul(*d)) {
                if n != i128::MIN {
                    return Rat::new(n, z);
                }
            }
        }
        let (a, b) = self.big();
        let (c, d) = o.big();
        Rat::from_big(a.mul(&c), b.mul(&d))
    }
    pub fn inv(&self) -> Rat {
        match self {
            Rat::S(n, d) => Rat::new(*d, *n),
            Rat::B(b) => Rat::from_big(b.1.clone(), b.0.clone()),
        }
    }
    pub fn div(&self, o: &Rat) -> Rat {
        self.mul(&o.inv())
    }
    pub fn pow(&self, e: i32) -> Rat {
        let b = if e < 0 { self.inv() } else { self.clone() };
        let mut r = Rat::one();
        for _ in 0..e.abs() {
            r = r.mul(&b);
        }
        r
    }
    pub fn cmp(&self, o: &Rat) -> Ordering {
        let d = self.sub(o);
        if d.is_zero() {
            Ordering::Equal
        } else if d.is_neg() {
            Ordering::Less
        } else {
            Ordering::Greater
        }
    }
    pub fn is_int(&self) -> Option<i128> {
        match self {
            Rat::S(n, 1) => Some(*n),
            _ => None,
        }
    }
    pub fn to_f64(&self) -> f64 {
        match self {
            Rat::S(n, d) => {
                if n.unsigned_abs() < (1 << 53) && *d < (1 << 53) {
                    *n as f64 / *d as f64
                } else {
                    // decimal division through f64 is accurate enough for sampling
                    *n as f64 / *d as f64
                }
            }
            Rat::B(b) => {
                // scale to avoid overflow of both
                let (n, d) = (&b.0, &b.1);
                let sh = n.mag.len().min(d.mag.len()).saturating_sub(8);
                let nn = Big { neg: n.neg, mag: n.mag[sh..].to_vec() };
                let dd = Big { neg: false, mag: d.mag[sh..].to_vec() };
                nn.to_f64() / dd.to_f64()
            }
        }
    }
    /// Decimal reading of a double: the shortest decimal that rounds to it.
    pub fn from_f64(x: f64) -> Rat {
        assert!(x.is_finite());
        if x == 0.0 {
            return Rat::zero();
        }
        let s = format!("{:e}", x);
        let (m, e) = s.split_once('e').unwrap();
        let e: i32 = e.parse().unwrap();
        let neg = m.starts_with('-');
        let m = m.trim_start_matches('-');
        let (ip, fp) = m.split_once('.').unwrap_or((m, ""));
        let digits: i128 = format!("{}{}", ip, fp).parse().unwrap();
        let exp = e - fp.len() as i32;
        let mut r = Rat::int(if neg { -digits } else { digits });
        let ten = Rat::int(10);
        r = r.mul(&ten.pow(exp));
        r
    }
    pub fn sqrt_exact(&self) -> Option<Rat> {
        fn isq(n: i128) -> Option<i128> {
            if n < 0 {
                return None;
            }
            let mut r = (n as f64).sqrt() as i128;
            while r * r > n {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= n {
                r += 1;
            }
            if r * r == n {
                Some(r)
            } else {
                None
            }
        }
        match self {
            Rat::S(n, d) => {
                if *n > (1i128 << 100) || *d > (1i128 << 100) {
                    return None;
                }
                Some(Rat::new(isq(*n)?, isq(*d)?))
            }
            _ => None,
        }
    }
    pub fn smt(&self) -> String {
        let (n, d, neg) = match self {
            Rat::S(n, d) => (n.unsigned_abs().to_string(), d.to_string(), *n < 0),
            Rat::B(b) => (b.0.dec(), b.1.dec(), b.0.neg),
        };
        let body = if d == "1" { format!("{}.0", n) } else { format!("(/ {}.0 {}.0)", n, d) };
        if neg {
            format!("(- {})", body)
        } else {
            body
        }
    }
}
