//! Path exploration: re-execution based depth-first search with solver-decided branches.
use crate::dag::*;
use crate::emit::Emit;
use crate::rat::Rat;
use crate::smt::{Kind, Solver, Verdict};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::{Mutex, MutexGuard};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Dec {
    pub n: u32,
    pub k: u32,
    pub rest: Vec<u32>,
    pub branch: Option<Bid>,
}

#[derive(Clone, Debug)]
pub struct Check {
    pub label: String,
    pub cond: Bid,
    /// negations to try when searching for a replayable model, strongest first
    pub strong: Vec<Bid>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub label: String,
    pub kind: &'static str,
    pub detail: String,
    pub model: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub ended: u64,
    pub infeasible: u64,
    pub feasible_confirmed: u64,
    pub checks: u64,
    pub syntactic: u64,
    pub q_feas: u64,
    pub q_check: u64,
    pub q_unsat: u64,
    pub q_sat: u64,
    pub q_unknown: u64,
    pub solver_ms: u64,
    pub decisions: u64,
    pub forced: u64,
    pub max_depth: u64,
    pub max_check_ms: u64,
    pub decided_by_linear: u64,
}

pub struct Engine {
    pub d: Dag,
    prefix: Vec<Dec>,
    pos: usize,
    pc: Vec<Bid>,
    /// constraints that belong to contract stubs / assumptions (subset of pc)
    known: HashMap<Bid, bool>,
    mask: u32,
    checks: Vec<Check>,
    pub choice_ctr: usize,
    pub fresh_ctr: HashMap<String, usize>,
    choices: Vec<(String, String)>,
    pub stats: Stats,
    pub viols: Vec<Viol>,
    pub unknown_checks: Vec<String>,
    pub covers: BTreeMap<String, u64>,
    cover_path: HashSet<String>,
    viol_paths: HashMap<String, usize>,
    z3: Solver,
    z3old: Solver,
    cvc5: Solver,
    pub feas_ms: u64,
    pub check_ms: u64,
    pub max_decisions: usize,
    pub max_paths: u64,
    pub incomplete: Option<String>,
    pub path_start: Instant,
    pub solver_in_path: Duration,
    pub deadline: Instant,
    pub boxr: i128,
    feas_cache: HashMap<Vec<Bid>, bool>,
    pub no_numeric: bool,
    pub samples_log: Vec<String>,
    pub in_path: bool,
    pub traces: Vec<Vec<(String, String)>>,
    unsat_prefix: bool,
}

pub struct Abort(pub &'static str);

static ENG: Mutex<Option<Engine>> = Mutex::new(None);

pub fn lock() -> MutexGuard<'static, Option<Engine>> {
    match ENG.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}
pub fn try_lock() -> Option<MutexGuard<'static, Option<Engine>>> {
    match ENG.try_lock() {
        Ok(g) => Some(g),
        Err(std::sync::TryLockError::Poisoned(e)) => Some(e.into_inner()),
        Err(_) => None,
    }
}

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    let mut g = lock();
    if g.is_none() {
        *g = Some(Engine::new());
    }
    f(g.as_mut().unwrap())
}

pub fn abort(why: &'static str) -> ! {
    std::panic::panic_any(Abort(why))
}

fn inter(a: &[u64; W], b: &[u64; W]) -> bool {
    (0..W).any(|i| a[i] & b[i] != 0)
}

impl Engine {
    pub fn new() -> Engine {
        Engine {
            d: Dag::new(),
            prefix: vec![],
            pos: 0,
            pc: vec![],
            known: HashMap::new(),
            mask: !0,
            checks: vec![],
            choice_ctr: 0,
            fresh_ctr: HashMap::new(),
            choices: vec![],
            stats: Stats::default(),
            viols: vec![],
            unknown_checks: vec![],
            covers: BTreeMap::new(),
            cover_path: HashSet::new(),
            viol_paths: HashMap::new(),
            z3: Solver::new(Kind::Z3New),
            z3old: Solver::new(Kind::Z3Old),
            cvc5: Solver::new(Kind::Cvc5),
            feas_ms: 2000,
            check_ms: 20000,
            max_decisions: 4000,
            max_paths: 200000,
            incomplete: None,
            path_start: Instant::now(),
            solver_in_path: Duration::from_secs(0),
            deadline: Instant::now() + Duration::from_secs(36000),
            boxr: 8,
            feas_cache: HashMap::new(),
            no_numeric: false,
            samples_log: vec![],
            in_path: false,
            traces: vec![],
            unsat_prefix: false,
        }
    }

    fn timed(&mut self, which: Kind, logic: &str, body: &str, want: &str, ms: u64) -> (Verdict, String) {
        let t = Instant::now();
        let s = match which {
            Kind::Z3New => &mut self.z3,
            Kind::Z3Old => &mut self.z3old,
            Kind::Cvc5 => &mut self.cvc5,
        };
        if let Ok(p) = std::env::var("SYMX_DUMP") {
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(p).unwrap();
            let _ = writeln!(f, "; ---- {:?} {}\n(reset)(set-logic {})\n{}(check-sat)", which, ms, logic, body);
        }
        let r = s.query(logic, body, want, ms);
        let e = t.elapsed();
        self.stats.solver_ms += e.as_millis() as u64;
        self.solver_in_path += e;
        match r.0 {
            Verdict::Sat => self.stats.q_sat += 1,
            Verdict::Unsat => self.stats.q_unsat += 1,
            Verdict::Unknown => self.stats.q_unknown += 1,
        }
        r
    }

    /// path constraints connected to `seed` through shared variables
    fn slice(&self, seed: &[Bid]) -> Vec<Bid> {
        let mut vs = [0u64; W];
        for &b in seed {
            for i in 0..W {
                vs[i] |= self.d.bvs[b as usize][i];
            }
        }
        let mut used = vec![false; self.pc.len()];
        loop {
            let mut ch = false;
            for (i, &b) in self.pc.iter().enumerate() {
                if !used[i] && inter(&self.d.bvs[b as usize], &vs) {
                    used[i] = true;
                    ch = true;
                    for w in 0..W {
                        vs[w] |= self.d.bvs[b as usize][w];
                    }
                }
            }
            if !ch {
                break;
            }
        }
        self.pc.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, b)| *b).collect()
    }

    fn linear_fact(&self, b: Bid) -> bool {
        // linear atoms only (cheap first attempt)
        fn lin(d: &Dag, a: Id) -> bool {
            match &d.nodes[a as usize] {
                N::Rat(_) | N::Var(_) => true,
                N::Sum(_, t) => t.iter().all(|x| lin(d, x.1)),
                N::Ite(c, x, y) => blin(d, *c) && lin(d, *x) && lin(d, *y),
                _ => false,
            }
        }
        fn blin(d: &Dag, b: Bid) -> bool {
            match &d.bnodes[b as usize] {
                BN::T | BN::F => true,
                BN::Gt0(a) | BN::Eq0(a) => lin(d, *a),
                BN::Not(x) => blin(d, *x),
                BN::And(v) | BN::Or(v) => v.iter().all(|x| blin(d, *x)),
            }
        }
        blin(&self.d, b)
    }

    /// satisfiability of the conjunction; `model` requests concrete values for the variables
    fn solve(&mut self, cs: &[Bid], ms: u64, model: Option<ModelReq>, hard: bool) -> (Verdict, Vec<(String, String)>) {
        if cs.iter().any(|&b| b == BF) {
            return (Verdict::Unsat, vec![]);
        }
        if model.is_none() && !hard {
            // a concrete sample that satisfies everything is a witness
            let mut m = !0u32;
            for &b in cs {
                m &= self.d.bt[b as usize];
            }
            if m != 0 {
                return (Verdict::Sat, vec![]);
            }
        }
        // linear sub-problem first
        if model.is_none() {
            let lin: Vec<Bid> = cs.iter().cloned().filter(|&b| self.linear_fact(b)).collect();
            if lin.len() >= 2 && lin.len() < cs.len() {
                let (v, _) = self.solve1(&lin, ms.min(1000), None, "QF_LRA", hard);
                if v == Verdict::Unsat {
                    self.stats.decided_by_linear += 1;
                    return (v, vec![]);
                }
            }
        }
        self.solve1(cs, ms, model, "", hard)
    }

    fn solve1(&mut self, cs: &[Bid], ms: u64, model: Option<ModelReq>, logic: &str, hard: bool) -> (Verdict, Vec<(String, String)>) {
        let mut refinements: Vec<HashMap<Id, f64>> = vec![];
        let rounds = if hard || model.is_some() { 6 } else { 1 };
        for round in 0..rounds {
            let (body, logic2, vars, trans, want, names) = {
                let mut d = std::mem::replace(&mut self.d, Dag::new());
                let r = {
                    let mut e = Emit::new(&mut d);
                    if let Some(m) = &model {
                        e.dyadic = m.dyadic;
                    }
                    let mut asserts = String::new();
                    for &b in cs {
                        let t = e.boolean(b);
                        asserts.push_str(&format!("(assert {})\n", t));
                    }
                    e.axioms();
                    for r in &refinements {
                        e.refine(r);
                    }
                    if let Some(m) = &model {
                        if let Some(bx) = m.boxr {
                            for v in e.vars.clone() {
                                let id = e.d.vars[v as usize].id;
                                if e.d.vars[v as usize].name.contains('~') {
                                    continue;
                                }
                                asserts.push_str(&format!("(assert (and (<= n{0} {1}.0) (>= n{0} (- {1}.0))))\n", id, bx));
                            }
                        }
                    }
                    let logic2 = if !logic.is_empty() && !e.nonlinear {
                        logic.to_string()
                    } else if e.dyadic {
                        "QF_NIRA".to_string()
                    } else if e.nonlinear {
                        "QF_NRA".to_string()
                    } else {
                        "QF_LRA".to_string()
                    };
                    let mut want = String::new();
                    let mut names = vec![];
                    let mut ask: Vec<Id> = e.vars.iter().map(|&v| e.d.vars[v as usize].id).collect();
                    let trans = e.transcendental();
                    if trans {
                        // values of transcendental atoms and of their arguments
                        for (a, x) in e.exps.clone().into_iter().chain(e.lns.clone()) {
                            ask.push(a);
                            let _ = x;
                        }
                    }
                    if !ask.is_empty() {
                        want.push_str("(get-value (");
                        for a in &ask {
                            want.push_str(&format!("n{} ", a));
                            names.push(*a);
                        }
                        want.push_str("))\n");
                    }
                    let body = format!("{}{}{}", e.decl, e.ax, asserts);
                    (body, logic2, e.vars.clone(), trans.then(|| (e.exps.clone(), e.lns.clone())), want, names)
                };
                self.d = d;
                r
            };
            let ask = if model.is_some() || (trans.is_some() && rounds > 1) { want.as_str() } else { "" };
            let (mut v, mut out) = self.timed(Kind::Z3New, &logic2, &body, ask, ms);
            if v == Verdict::Unknown && model.is_none() && hard {
                let (v2, o2) = self.timed(Kind::Cvc5, &logic2, &body, "", ms);
                v = v2;
                out = o2;
                if v == Verdict::Unknown {
                    let (v3, o3) = self.timed(Kind::Z3Old, &logic2, &body, ask, ms);
                    v = v3;
                    out = o3;
                }
            }
            if v != Verdict::Sat {
                return (v, vec![]);
            }
            if model.is_none() && trans.is_none() {
                return (v, vec![]);
            }
            let vals = parse_values(&out);
            // check transcendental consistency
            if let Some((exps, lns)) = trans {
                if vals.is_empty() {
                    return (v, vec![]);
                }
                let mut env: HashMap<u32, f64> = HashMap::new();
                for &vv in &vars {
                    let id = self.d.vars[vv as usize].id;
                    if let Some(s) = vals.get(&id) {
                        env.insert(vv, to_f64(s));
                    }
                }
                let mut memo = HashMap::new();
                let mut at = HashMap::new();
                let mut bad = false;
                // arguments evaluated with the true functions
                for (a, x) in exps.iter() {
                    let xv = self.d.eval(*x, &env, &mut memo);
                    at.insert(*x, xv);
                    if let Some(s) = vals.get(a) {
                        let av = to_f64(s);
                        let tv = xv.exp();
                        if !((av - tv).abs() <= 1e-6 * (1.0 + tv.abs())) {
                            bad = true;
                        }
                    }
                }
                for (a, x) in lns.iter() {
                    let xv = self.d.eval(*x, &env, &mut memo);
                    at.insert(*x, xv);
                    if let Some(s) = vals.get(a) {
                        let av = to_f64(s);
                        let tv = xv.ln();
                        if !((av - tv).abs() <= 1e-6 * (1.0 + tv.abs())) {
                            bad = true;
                        }
                    }
                }
                if bad && round + 1 < rounds {
                    refinements.push(at);
                    continue;
                }
            }
            let _ = &names;
            let mut m = vec![];
            for &vv in &vars {
                let info = &self.d.vars[vv as usize];
                if let Some(s) = vals.get(&info.id) {
                    m.push((info.name.clone(), format!("{:?}", to_f64(s))));
                }
            }
            return (v, m);
        }
        (Verdict::Unknown, vec![])
    }

    fn feasible(&mut self, c: Bid) -> bool {
        if c == BT {
            return true;
        }
        if c == BF {
            return false;
        }
        let mut cs = self.slice(&[c]);
        cs.push(c);
        cs.sort();
        cs.dedup();
        if let Some(&r) = self.feas_cache.get(&cs) {
            return r;
        }
        self.stats.q_feas += 1;
        let (v, _) = self.solve(&cs, self.feas_ms, None, false);
        let r = v != Verdict::Unsat;
        self.feas_cache.insert(cs, r);
        r
    }

    fn take(&mut self, c: Bid, val: bool) {
        let b = if val { c } else { self.d.not(c) };
        self.learn(b);
        self.pc.push(b);
        self.mask &= self.d.bt[b as usize];
    }
    fn learn(&mut self, b: Bid) {
        self.known.insert(b, true);
        let n = self.d.not(b);
        self.known.insert(n, false);
        match self.d.bnodes[b as usize].clone() {
            BN::And(v) => {
                for x in v {
                    self.learn(x);
                }
            }
            BN::Not(x) => {
                if let BN::Or(v) = self.d.bnodes[x as usize].clone() {
                    for y in v {
                        let ny = self.d.not(y);
                        self.learn(ny);
                    }
                }
            }
            BN::Gt0(a) => {
                let e = self.d.eq0(a);
                self.known.insert(e, false);
                let m = self.d.neg(a);
                let g = self.d.gt0(m);
                self.known.insert(g, false);
            }
            BN::Eq0(a) => {
                let g = self.d.gt0(a);
                self.known.insert(g, false);
                let m = self.d.neg(a);
                let g = self.d.gt0(m);
                self.known.insert(g, false);
            }
            _ => {}
        }
    }

    /// decides a branch; Err = abort this path
    pub fn branch(&mut self, c: Bid) -> Result<bool, &'static str> {
        if c == BT {
            return Ok(true);
        }
        if c == BF {
            return Ok(false);
        }
        if let Some(&v) = self.known.get(&c) {
            return Ok(v);
        }
        self.stats.decisions += 1;
        if self.pos < self.prefix.len() {
            let d = &self.prefix[self.pos];
            debug_assert!(d.branch.is_some());
            let val = d.k == 1;
            if d.branch != Some(c) {
                self.incomplete = Some("non-deterministic replay of a path".into());
                return Err("nondeterminism");
            }
            self.pos += 1;
            self.take(c, val);
            return Ok(val);
        }
        if self.pos >= self.max_decisions {
            self.incomplete = Some(format!("decision bound {} exceeded", self.max_decisions));
            return Err("decision bound");
        }
        if Instant::now() > self.deadline {
            self.incomplete = Some("time limit".into());
            return Err("time limit");
        }
        let nc = self.d.not(c);
        let st = self.mask & self.d.bt[c as usize] != 0;
        let sf = self.mask & self.d.bf[c as usize] != 0;
        let ft = st || self.feasible(c);
        let ff = if !ft { true } else { sf || self.feasible(nc) };
        let (k, rest) = match (ft, ff) {
            (true, true) => (1, vec![0]),
            (true, false) => (1, vec![]),
            (false, _) => (0, vec![]),
        };
        if rest.is_empty() {
            self.stats.forced += 1;
        }
        self.prefix.push(Dec { n: 2, k, rest, branch: Some(c) });
        self.pos += 1;
        self.take(c, k == 1);
        Ok(k == 1)
    }

    pub fn choose(&mut self, n: u32) -> Result<u32, &'static str> {
        if n == 0 {
            return Err("choose from nothing");
        }
        let k = if n == 1 {
            0
        } else if self.pos < self.prefix.len() {
            let k = self.prefix[self.pos].k;
            self.pos += 1;
            k
        } else {
            if self.pos >= self.max_decisions {
                self.incomplete = Some(format!("decision bound {} exceeded", self.max_decisions));
                return Err("decision bound");
            }
            self.prefix.push(Dec { n, k: 0, rest: (1..n).collect(), branch: None });
            self.pos += 1;
            0
        };
        let nm = format!("choice#{}", self.choice_ctr);
        self.choice_ctr += 1;
        self.choices.push((nm, k.to_string()));
        Ok(k)
    }

    pub fn assume(&mut self, c: Bid) -> Result<(), &'static str> {
        if c == BT {
            return Ok(());
        }
        if c == BF {
            return Err("assume");
        }
        if let Some(&v) = self.known.get(&c) {
            return if v { Ok(()) } else { Err("assume") };
        }
        let replay = self.pos < self.prefix.len();
        if !replay && self.mask & self.d.bt[c as usize] == 0 && !self.feasible(c) {
            return Err("assume");
        }
        self.take(c, true);
        Ok(())
    }

    pub fn check(&mut self, ch: Check) {
        self.stats.checks += 1;
        if ch.cond == BT || self.known.get(&ch.cond) == Some(&true) {
            self.stats.syntactic += 1;
            return;
        }
        self.checks.push(ch);
    }
    pub fn cover(&mut self, l: &str) {
        self.cover_path.insert(l.to_string());
    }

    fn start_path(&mut self) {
        self.pos = 0;
        self.pc.clear();
        self.known.clear();
        self.mask = !0;
        self.checks.clear();
        self.choice_ctr = 0;
        self.fresh_ctr.clear();
        self.choices.clear();
        self.cover_path.clear();
        self.path_start = Instant::now();
        self.solver_in_path = Duration::from_secs(0);
        self.in_path = true;
        self.unsat_prefix = false;
    }

    /// candidate models for a violated condition, in decreasing order of robustness
    pub fn candidates(&mut self, label: &str, kind: &'static str, detail: &str, strong: &[Bid]) -> usize {
        let cnt = self.viol_paths.entry(format!("{}|{}", kind, label)).or_insert(0);
        *cnt += 1;
        if *cnt > 6 {
            return 0;
        }
        let mut n = 0;
        let base: Vec<Bid> = self.pc.clone();
        let mut seen: HashSet<String> = HashSet::new();
        for &s in strong {
            for (bx, dy, ms) in [(Some(self.boxr), true, 2500u64), (Some(self.boxr), false, 4000), (None, false, 4000)] {
                let mut cs = base.clone();
                if s != BT {
                    cs.push(s);
                }
                if cs.contains(&BF) {
                    continue;
                }
                let (v, m) = self.solve(&cs, ms, Some(ModelReq { boxr: bx, dyadic: dy }), true);
                if v == Verdict::Sat {
                    let mut m = m;
                    m.extend(self.choices.iter().cloned());
                    let key = format!("{:?}", m);
                    if seen.insert(key) {
                        self.viols.push(Viol { label: label.into(), kind, detail: detail.into(), model: m });
                        n += 1;
                    }
                    if n >= 3 {
                        return n;
                    }
                }
            }
        }
        // concrete samples that follow this path
        let mut mask = self.mask;
        if let Some(&s) = strong.last() {
            mask &= self.d.bt[s as usize];
        }
        for j in 0..K {
            if mask & (1 << j) != 0 {
                let mut m: Vec<(String, String)> = vec![];
                for v in &self.d.vars {
                    m.push((v.name.clone(), format!("{:?}", self.d.smp[v.id as usize][j])));
                }
                m.extend(self.choices.iter().cloned());
                self.viols.push(Viol { label: label.into(), kind, detail: detail.into(), model: m });
                n += 1;
                break;
            }
        }
        n
    }

    fn end_path(&mut self) {
        self.stats.ended += 1;
        self.stats.max_depth = self.stats.max_depth.max(self.pos as u64);
        // vacuity: is this path really feasible?
        let mut feas = self.mask != 0;
        if !feas {
            let pc = self.pc.clone();
            let (v, _) = self.solve(&pc, self.feas_ms, None, false);
            feas = v == Verdict::Sat;
            if v == Verdict::Unsat {
                self.stats.infeasible += 1;
                return;
            }
        }
        if feas {
            self.stats.feasible_confirmed += 1;
            for c in self.cover_path.clone() {
                *self.covers.entry(c).or_insert(0) += 1;
            }
            if self.mask != 0 && self.traces.len() < 6 {
                let j = (0..K).find(|j| self.mask & (1 << j) != 0).unwrap();
                let mut m: Vec<(String, String)> = vec![];
                for v in &self.d.vars {
                    if !v.name.starts_with('~') {
                        m.push((v.name.clone(), format!("{:?}", self.d.smp[v.id as usize][j])));
                    }
                }
                m.extend(self.choices.iter().cloned());
                self.traces.push(m);
            }
            if self.samples_log.len() < 5 {
                let j = (0..K).find(|j| self.mask & (1 << j) != 0);
                let mut s = String::new();
                for v in self.d.vars.iter().take(12) {
                    if let Some(j) = j {
                        s.push_str(&format!("{}={} ", v.name, self.d.smp[v.id as usize][j]));
                    }
                }
                for (a, b) in &self.choices {
                    s.push_str(&format!("{}={} ", a, b));
                }
                s.push_str(&format!("decisions={} checks={}", self.pos, self.checks.len()));
                self.samples_log.push(s);
            }
        }
        self.discharge();
    }

    fn discharge(&mut self) {
        let mut todo: Vec<Check> = vec![];
        for c in std::mem::replace(&mut self.checks, vec![]) {
            if self.known.get(&c.cond) == Some(&true) {
                self.stats.syntactic += 1;
            } else {
                todo.push(c);
            }
        }
        if todo.is_empty() {
            return;
        }
        let t0 = Instant::now();
        // batch first (cheap timeout), then one by one
        if todo.len() > 1 {
            let negs: Vec<Bid> = todo.iter().map(|c| c.cond).collect::<Vec<_>>().into_iter().map(|c| self.d.not(c)).collect();
            let any = self.d.or(&negs);
            let mut cs = self.slice(&[any]);
            cs.push(any);
            self.stats.q_check += 1;
            let ms = (self.check_ms / 8).max(1500).min(self.check_ms);
            let (v, _) = self.solve_hard(&cs, ms, false);
            if v == Verdict::Unsat {
                self.note_ms(t0);
                return;
            }
        }
        for c in todo {
            let n = self.d.not(c.cond);
            let mut cs = self.slice(&[n]);
            cs.push(n);
            self.stats.q_check += 1;
            let (v, _) = self.solve_hard(&cs, self.check_ms, true);
            if v == Verdict::Unsat {
                continue;
            }
            let mut strong = c.strong.clone();
            strong.push(n);
            let before = self.viols.len();
            let got = self.candidates(&c.label, "check", "", &strong);
            if v == Verdict::Unknown {
                self.unknown_checks.push(c.label.clone());
            } else if got == 0 && before == self.viols.len() && self.viol_paths[&format!("check|{}", c.label)] <= 6 {
                // sat, but no model could be produced over the full path condition
                let mut cs = self.pc.clone();
                cs.push(n);
                let (v, _) = self.solve(&cs, self.check_ms, None, true);
                if v != Verdict::Unsat {
                    self.unknown_checks.push(c.label.clone());
                }
            }
        }
        self.note_ms(t0);
    }
    fn note_ms(&mut self, t0: Instant) {
        self.stats.max_check_ms = self.stats.max_check_ms.max(t0.elapsed().as_millis() as u64);
    }
    fn solve_hard(&mut self, cs: &[Bid], ms: u64, last: bool) -> (Verdict, ()) {
        let _ = last;
        let (v, _) = self.solve(cs, ms, None, true);
        (v, ())
    }

    fn panic_path(&mut self, msg: &str) {
        self.stats.ended += 1;
        let pc = self.pc.clone();
        let (v, _) = self.solve(&pc, self.check_ms, None, true);
        if v == Verdict::Unsat {
            self.stats.infeasible += 1;
            return;
        }
        self.discharge();
        let label = format!("panic: {}", msg.lines().next().unwrap_or(""));
        let n = self.candidates(&label, "panic", msg, &[BT]);
        if n == 0 && self.viol_paths[&format!("panic|{}", label)] <= 6 {
            self.unknown_checks.push(label);
        }
    }

    fn next(&mut self) -> bool {
        self.in_path = false;
        while let Some(d) = self.prefix.last_mut() {
            if let Some(k) = d.rest.first().cloned() {
                d.rest.remove(0);
                d.k = k;
                return true;
            }
            self.prefix.pop();
        }
        false
    }

    pub fn hang(&mut self) {
        self.incomplete = Some("a path did not terminate within its time limit".into());
        self.candidates("does not terminate", "hang", "", &[BT]);
    }
}

pub struct ModelReq {
    pub boxr: Option<i128>,
    pub dyadic: bool,
}

fn to_f64(s: &str) -> f64 {
    s.parse().unwrap_or(f64::NAN)
}

/// parses the output of get-value into id -> decimal text
fn parse_values(out: &str) -> HashMap<Id, String> {
    #[derive(Debug)]
    enum S {
        A(String),
        L(Vec<S>),
    }
    let mut toks = vec![];
    let mut cur = String::new();
    for c in out.chars() {
        match c {
            '(' | ')' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                toks.push(c.to_string());
            }
            c if c.is_whitespace() => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
            }
            c => cur.push(c),
        }
    }
    fn parse(t: &[String], i: &mut usize) -> S {
        if t[*i] == "(" {
            *i += 1;
            let mut v = vec![];
            while *i < t.len() && t[*i] != ")" {
                v.push(parse(t, i));
            }
            *i += 1;
            S::L(v)
        } else {
            *i += 1;
            S::A(t[*i - 1].clone())
        }
    }
    fn num(s: &S) -> Option<f64> {
        match s {
            S::A(a) => a.trim_end_matches('?').parse().ok(),
            S::L(v) => match (v.get(0), v.len()) {
                (Some(S::A(o)), 2) if o == "-" => Some(-num(&v[1])?),
                (Some(S::A(o)), 3) if o == "/" => Some(num(&v[1])? / num(&v[2])?),
                (Some(S::A(o)), 2) if o == "to_real" => num(&v[1]),
                _ => None,
            },
        }
    }
    let mut m = HashMap::new();
    if toks.is_empty() {
        return m;
    }
    let mut i = 0;
    while i < toks.len() {
        if toks[i] != "(" {
            i += 1;
            continue;
        }
        if let S::L(v) = parse(&toks, &mut i) {
            for p in v {
                if let S::L(q) = p {
                    if q.len() == 2 {
                        if let (S::A(n), Some(x)) = (&q[0], num(&q[1])) {
                            if let Ok(id) = n.trim_start_matches('n').parse::<u32>() {
                                m.insert(id, format!("{:?}", x));
                            }
                        }
                    }
                }
            }
        }
    }
    m
}

pub struct Outcome {
    pub done: bool,
}

/// explores every path of `f`
pub fn explore(f: &(dyn Fn() + Sync), path_limit_s: u64) {
    std::panic::set_hook(Box::new(|_| {}));
    with(|_| ());
    // watchdog: a path that runs without finishing
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some(mut g) = try_lock() {
            if let Some(e) = g.as_mut() {
                if e.in_path {
                    let el = e.path_start.elapsed();
                    if el > e.solver_in_path && el - e.solver_in_path > Duration::from_secs(path_limit_s) {
                        e.hang();
                        crate::report(e);
                        std::process::exit(0);
                    }
                }
            }
        }
    });
    loop {
        with(|e| {
            e.start_path();
            e.stats.paths += 1;
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        let stop = with(|e| {
            e.in_path = false;
            match r {
                Ok(()) => e.end_path(),
                Err(p) => {
                    if let Some(a) = p.downcast_ref::<Abort>() {
                        if a.0 == "assume" {
                            e.stats.infeasible += 1;
                        }
                    } else {
                        let msg = if let Some(s) = p.downcast_ref::<&str>() {
                            s.to_string()
                        } else if let Some(s) = p.downcast_ref::<String>() {
                            s.clone()
                        } else {
                            "panic".to_string()
                        };
                        if msg.starts_with("symx:") {
                            e.incomplete = Some(msg);
                            return true;
                        }
                        e.panic_path(&msg);
                    }
                }
            }
            if e.incomplete.is_some() {
                return true;
            }
            if e.stats.paths >= e.max_paths {
                e.incomplete = Some(format!("path bound {} exceeded", e.max_paths));
                return true;
            }
            if Instant::now() > e.deadline {
                e.incomplete = Some("time limit".into());
                return true;
            }
            if e.viols.len() >= 24 {
                e.incomplete = Some("stopped after the first violations".into());
                return true;
            }
            !e.next()
        });
        if stop {
            break;
        }
    }
    let _ = Rat::zero();
}
