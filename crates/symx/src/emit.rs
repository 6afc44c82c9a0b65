//! SMT-LIB emission of path conditions and queries.
use crate::dag::*;
use crate::rat::Rat;
use std::collections::{HashMap, HashSet};
use std::fmt::Write;

pub struct Emit<'a> {
    pub d: &'a mut Dag,
    pub decl: String,
    pub ax: String,
    done: HashSet<Id>,
    bdone: HashSet<Bid>,
    nd: HashMap<Id, (Id, Id)>,
    nz: Vec<Id>,
    nzdone: usize,
    pub vars: Vec<u32>,
    pub exps: Vec<(Id, Id)>,
    pub lns: Vec<(Id, Id)>,
    pub pows: Vec<(Id, Id, Id)>,
    pub funs: Vec<(u8, Id, Id)>,
    pub nonlinear: bool,
    pub dyadic: bool,
}

impl<'a> Emit<'a> {
    pub fn new(d: &'a mut Dag) -> Emit<'a> {
        Emit {
            d,
            decl: String::new(),
            ax: String::new(),
            done: HashSet::new(),
            bdone: HashSet::new(),
            nd: HashMap::new(),
            nz: vec![],
            nzdone: 0,
            vars: vec![],
            exps: vec![],
            lns: vec![],
            pows: vec![],
            funs: vec![],
            nonlinear: false,
            dyadic: false,
        }
    }
    fn split(&mut self, a: Id) -> (Id, Id) {
        let r = self.d.numden(a, &mut self.nd, &mut self.nz);
        while self.nzdone < self.nz.len() {
            let b = self.nz[self.nzdone];
            self.nzdone += 1;
            if !matches!(self.d.sgn[b as usize], Sign::Pos | Sign::Neg) {
                let t = self.poly(b);
                let _ = writeln!(self.ax, "(assert (not (= {} 0.0)))", t);
            }
        }
        r
    }
    /// emits a division-free node, returns its reference text
    pub fn poly(&mut self, a: Id) -> String {
        match self.d.nodes[a as usize].clone() {
            N::Rat(r) => return r.smt(),
            _ => {}
        }
        let nm = format!("n{}", a);
        if !self.done.insert(a) {
            return nm;
        }
        match self.d.nodes[a as usize].clone() {
            N::Rat(_) => unreachable!(),
            N::Var(v) => {
                self.vars.push(v);
                if self.dyadic && !self.d.vars[v as usize].name.contains('~') {
                    let _ = writeln!(self.decl, "(declare-fun k{0} () Int)\n(define-fun n{0} () Real (/ (to_real k{0}) 4.0))", a);
                } else {
                    let _ = writeln!(self.decl, "(declare-fun n{} () Real)", a);
                }
                match self.d.vars[v as usize].hint {
                    Hint::Any => {}
                    Hint::Pos => {
                        let _ = writeln!(self.ax, "(assert (> n{} 0.0))", a);
                    }
                    Hint::Unit => {
                        let _ = writeln!(self.ax, "(assert (and (>= n{0} 0.0) (< n{0} 1.0)))", a);
                    }
                }
            }
            N::Sum(c, t) => {
                let mut ps = vec![];
                if !c.is_zero() {
                    ps.push(c.smt());
                }
                for (k, x) in t {
                    let p = self.poly(x);
                    if k.is_one() {
                        ps.push(p);
                    } else if k == Rat::int(-1) {
                        ps.push(format!("(- {})", p));
                    } else {
                        ps.push(format!("(* {} {})", k.smt(), p));
                    }
                }
                let b = if ps.len() == 1 { ps.pop().unwrap() } else { format!("(+ {})", ps.join(" ")) };
                let _ = writeln!(self.decl, "(define-fun n{} () Real {})", a, b);
            }
            N::Prod(f) => {
                self.nonlinear = true;
                let mut ps = vec![];
                for (x, e) in f {
                    assert!(e > 0, "symx: division in polynomial emission");
                    let p = self.poly(x);
                    for _ in 0..e {
                        ps.push(p.clone());
                    }
                }
                let b = if ps.len() == 1 { ps.pop().unwrap() } else { format!("(* {})", ps.join(" ")) };
                let _ = writeln!(self.decl, "(define-fun n{} () Real {})", a, b);
            }
            N::Sqrt(x) => {
                self.nonlinear = true;
                let (n, dd) = self.split(x);
                let n = self.poly(n);
                let dd = self.poly(dd);
                let _ = writeln!(self.decl, "(declare-fun n{} () Real)", a);
                let _ = writeln!(self.ax, "(assert (and (>= n{0} 0.0) (= (* n{0} n{0} {1}) {2})))", a, dd, n);
            }
            N::Exp(x) => {
                let _ = writeln!(self.decl, "(declare-fun n{} () Real)", a);
                let _ = writeln!(self.ax, "(assert (> n{} 0.0))", a);
                self.exps.push((a, x));
            }
            N::Ln(x) => {
                let _ = writeln!(self.decl, "(declare-fun n{} () Real)", a);
                self.lns.push((a, x));
            }
            N::Pow(x, y) => {
                let _ = writeln!(self.decl, "(declare-fun n{} () Real)", a);
                self.pows.push((a, x, y));
            }
            N::Fun(k, x) => {
                let _ = writeln!(self.decl, "(declare-fun n{} () Real)", a);
                self.funs.push((k, a, x));
            }
            N::Ite(c, x, y) => {
                let c = self.boolean(c);
                let x = self.poly(x);
                let y = self.poly(y);
                let _ = writeln!(self.decl, "(define-fun n{} () Real (ite {} {} {}))", a, c, x, y);
            }
        }
        nm
    }
    /// numerator/denominator text of an arbitrary node
    pub fn frac(&mut self, a: Id) -> (String, String) {
        let (n, d) = self.split(a);
        (self.poly(n), self.poly(d))
    }
    pub fn boolean(&mut self, b: Bid) -> String {
        match self.d.bnodes[b as usize].clone() {
            BN::T => return "true".into(),
            BN::F => return "false".into(),
            BN::Not(x) => return format!("(not {})", self.boolean(x)),
            _ => {}
        }
        let nm = format!("b{}", b);
        if !self.bdone.insert(b) {
            return nm;
        }
        let body = match self.d.bnodes[b as usize].clone() {
            BN::Gt0(a) => {
                let (n, d) = self.split(a);
                let (dk, df) = self.d.as_mono(d);
                let mut t = n;
                if dk.is_neg() {
                    t = self.d.neg(t);
                }
                for (x, e) in df {
                    if e % 2 != 0 && self.d.sgn[x as usize] != Sign::Pos {
                        t = self.d.mul(t, x);
                    }
                }
                format!("(> {} 0.0)", self.poly(t))
            }
            BN::Eq0(a) => {
                let (n, _) = self.split(a);
                format!("(= {} 0.0)", self.poly(n))
            }
            BN::And(v) => {
                let p: Vec<String> = v.into_iter().map(|x| self.boolean(x)).collect();
                format!("(and {})", p.join(" "))
            }
            BN::Or(v) => {
                let p: Vec<String> = v.into_iter().map(|x| self.boolean(x)).collect();
                format!("(or {})", p.join(" "))
            }
            _ => unreachable!(),
        };
        let _ = writeln!(self.decl, "(define-fun b{} () Bool {})", b, body);
        nm
    }
    pub fn transcendental(&self) -> bool {
        !(self.exps.is_empty() && self.lns.is_empty() && self.pows.is_empty() && self.funs.is_empty())
    }
    /// (u ? v) comparison text for two arbitrary nodes
    fn cmp(&mut self, u: Id, v: Id) -> (String, String) {
        let d = self.d.sub(u, v);
        let g = self.d.gt0(d);
        let e = self.d.eq0(d);
        (self.boolean(g), self.boolean(e))
    }
    /// axioms of the transcendental functions instantiated at the arguments that occur
    pub fn axioms(&mut self) {
        let (mut ie, mut il) = (0, 0);
        let mut ip = 0;
        let mut mixed = std::collections::HashSet::new();
        let mut ifu = 0;
        let zero = self.d.int(0);
        let one = self.d.int(1);
        loop {
            let mut progress = false;
            while ie < self.exps.len() {
                progress = true;
                let (a, x) = self.exps[ie];
                let (g, e) = self.cmp(x, zero);
                let _ = writeln!(self.ax, "(assert (= {} (> n{} 1.0)))\n(assert (= {} (= n{} 1.0)))", g, a, e, a);
                let x1 = self.d.add(x, one);
                let an = self.d.sub(a, x1);
                let lt = self.d.gt0(an);
                let eq = self.d.eq0(an);
                let (p, q) = (self.boolean(lt), self.boolean(eq));
                let _ = writeln!(self.ax, "(assert (or {} {}))", p, q);
                if let Some(r) = self.d.as_rat(x) {
                    let v = r.to_f64().exp();
                    self.bounds(a, v);
                }
                if self.exps.len() <= 8 {
                    for j in 0..ie {
                        let (b, y) = self.exps[j];
                        let (g, e) = self.cmp(x, y);
                        let _ = writeln!(self.ax, "(assert (= {} (> n{} n{})))\n(assert (= {} (= n{} n{})))", g, a, b, e, a, b);
                        // product law: exp(x+y) = exp(x) exp(y)
                        let s = self.d.add(x, y);
                        for k in 0..self.exps.len() {
                            if self.exps[k].1 == s {
                                self.nonlinear = true;
                                let _ = writeln!(self.ax, "(assert (= n{} (* n{} n{})))", self.exps[k].0, a, b);
                            }
                        }
                    }
                }
                ie += 1;
            }
            while il < self.lns.len() {
                progress = true;
                let (a, x) = self.lns[il];
                let (g, e) = self.cmp(x, one);
                let _ = writeln!(self.ax, "(assert (= {} (> n{} 0.0)))\n(assert (= {} (= n{} 0.0)))", g, a, e, a);
                let l1 = self.d.add(a, one);
                let df = self.d.sub(l1, x);
                let gt = self.d.gt0(df);
                let t = self.boolean(gt);
                let _ = writeln!(self.ax, "(assert (not {}))", t);
                if let Some(r) = self.d.as_rat(x) {
                    let v = r.to_f64().ln();
                    self.bounds(a, v);
                }
                if self.lns.len() <= 8 {
                    for j in 0..il {
                        let (b, y) = self.lns[j];
                        let (g, e) = self.cmp(x, y);
                        let _ = writeln!(self.ax, "(assert (= {} (> n{} n{})))\n(assert (= {} (= n{} n{})))", g, a, b, e, a, b);
                    }
                }
                il += 1;
            }
            if self.lns.len() * self.exps.len() <= 40 {
                for (i, (a, u)) in self.lns.clone().into_iter().enumerate() {
                    for (j, (b, y)) in self.exps.clone().into_iter().enumerate() {
                        if !mixed.insert((i, j)) {
                            continue;
                        }
                        progress = true;
                        // ln(u) ? y  iff  u ? exp(y)
                        let (g1, e1) = self.cmp(u, b);
                        let (g2, e2) = self.cmp(a, y);
                        let _ = writeln!(self.ax, "(assert (= {} {}))\n(assert (= {} {}))", g1, g2, e1, e2);
                    }
                }
            }
            while ip < self.pows.len() {
                progress = true;
                let (a, x, y) = self.pows[ip];
                let (g, _) = self.cmp(x, zero);
                let _ = writeln!(self.ax, "(assert (=> {} (> n{} 0.0)))", g, a);
                for j in 0..ip {
                    let (b, u, v) = self.pows[j];
                    let (_, e1) = self.cmp(x, u);
                    let (_, e2) = self.cmp(y, v);
                    let _ = writeln!(self.ax, "(assert (=> (and {} {}) (= n{} n{})))", e1, e2, a, b);
                }
                ip += 1;
            }
            while ifu < self.funs.len() {
                progress = true;
                let (k, a, x) = self.funs[ifu];
                if k <= 1 {
                    let _ = writeln!(self.ax, "(assert (and (>= n{0} (- 1.0)) (<= n{0} 1.0)))", a);
                }
                for j in 0..ifu {
                    let (k2, b, y) = self.funs[j];
                    if k2 == k {
                        let (_, e) = self.cmp(x, y);
                        let _ = writeln!(self.ax, "(assert (=> {} (= n{} n{})))", e, a, b);
                    }
                }
                ifu += 1;
            }
            if !progress {
                break;
            }
        }
    }
    fn bounds(&mut self, a: Id, v: f64) {
        let e = v.abs() * 1e-10 + 1e-12;
        let lo = Rat::from_f64(v - e).smt();
        let hi = Rat::from_f64(v + e).smt();
        let _ = writeln!(self.ax, "(assert (and (> n{0} {1}) (< n{0} {2})))", a, lo, hi);
    }
    /// point refinement around a model value of an argument: tangent/secant facts for exp, ln
    pub fn refine(&mut self, at: &HashMap<Id, f64>) {
        for (a, x) in self.exps.clone() {
            if let Some(&p) = at.get(&x) {
                if !p.is_finite() || p.abs() > 50.0 {
                    continue;
                }
                // exp(x) >= lo*(1 + x - p) with lo <= exp(p); and x<=p => exp(x)<=hi; x>=p => exp(x)>=lo
                let pr = Rat::from_f64(p);
                let v = p.exp();
                let lo = self.d.rat(Rat::from_f64(v * (1.0 - 1e-9)));
                let hi = self.d.rat(Rat::from_f64(v * (1.0 + 1e-9)));
                let pid = self.d.rat(pr);
                let (le, ge) = (self.d.le(x, pid), self.d.le(pid, x));
                let (c1, c2) = (self.d.le(a, hi), self.d.le(lo, a));
                let (le, ge, c1, c2) = (self.boolean(le), self.boolean(ge), self.boolean(c1), self.boolean(c2));
                let _ = writeln!(self.ax, "(assert (and (=> {} {}) (=> {} {})))", le, c1, ge, c2);
            }
        }
        for (a, x) in self.lns.clone() {
            if let Some(&p) = at.get(&x) {
                if !p.is_finite() || p <= 1e-12 {
                    continue;
                }
                let v = p.ln();
                let e = v.abs() * 1e-9 + 1e-12;
                let lo = self.d.rat(Rat::from_f64(v - e));
                let hi = self.d.rat(Rat::from_f64(v + e));
                let pid = self.d.rat(Rat::from_f64(p));
                let (le, ge) = (self.d.le(x, pid), self.d.le(pid, x));
                let (c1, c2) = (self.d.le(a, hi), self.d.le(lo, a));
                let (le, ge, c1, c2) = (self.boolean(le), self.boolean(ge), self.boolean(c1), self.boolean(c2));
                let _ = writeln!(self.ax, "(assert (and (=> {} {}) (=> {} {})))", le, c1, ge, c2);
            }
        }
    }
}
