//! gradient descent family and conjugate gradients
use crate::util::*;
use rm::learning::optim::fmincg::ConjugateGD;
use rm::learning::optim::grad_desc::{AdaGrad, GradientDesc, RMSProp, StochasticGD};
use rm::learning::optim::{OptimAlgorithm, Optimizable};
use rand::draws;
use std::cell::RefCell;

/// what the optimiser asked for, and what it was told: arbitrary costs and gradients
struct Call {
    at: Vec<f64>,
    x: Matrix<f64>,
    y: Matrix<f64>,
    cost: f64,
    grad: Vec<f64>,
}
struct Oracle(RefCell<Vec<Call>>, f64);
impl Optimizable for Oracle {
    type Inputs = Matrix<f64>;
    type Targets = Matrix<f64>;
    fn compute_grad(&self, at: &[f64], x: &Matrix<f64>, y: &Matrix<f64>) -> (f64, Vec<f64>) {
        let k = self.0.borrow().len();
        // few=t: one in t costs is arbitrary, the others fall steadily
        let cost = match optional("few") {
            Some(t) if k % t != 2 => 5000.0 - k as f64,
            _ => hx::var(&format!("cost{}", k)) * self.1,
        };
        let grad = vvec(&format!("g{}_", k), at.len());
        self.0.borrow_mut().push(Call { at: at.to_vec(), x: x.clone(), y: y.clone(), cost: cost, grad: grad.clone() });
        (cost, grad)
    }
}
fn stagnates(prev: f64, cost: f64) -> bool {
    hx::decide(hx::and(hx::lt(prev - cost, 1e-20), hx::lt(cost - prev, 1e-20)))
}
/// f = 0: batch gradient descent, 1: stochastic with momentum, 2: AdaGrad, 3: RMSProp
pub fn descent() {
    let (f, n, d, iters, tiny) = (p("f"), p("n"), p("d"), p("iters"), p("tiny"));
    let x = Matrix::from_fn(n, 4, |j, i| if j == 0 { i as f64 } else if j > 1 { 7.0 } else { hx::var(&format!("x{}", i)) });
    let y = Matrix::from_fn(n, 2, |j, i| if j == 0 { 10.0 + i as f64 } else { hx::var(&format!("y{}", i)) });
    let start = vvec("s", d);
    let m = Oracle(RefCell::new(vec![]), if tiny == 1 { 1e-20 } else { 1.0 });
    let (a, b, c) = match optional("few") {
        Some(_) => (0.5, 0.75, 0.25),
        None => (hx::var_pos("alpha"), hx::var_pos("beta"), hx::var_pos("gamma")),
    };
    if optional("few").is_some() {
        draws::digits_of(p("code"));
    } else if f == 3 {
        hx::assume(hx::lt(b, 1.0));
    }
    let out = match f {
        0 => GradientDesc::new(a, iters).optimize(&m, &start, &x, &y),
        1 => StochasticGD::new(a, b, iters).optimize(&m, &start, &x, &y),
        2 => AdaGrad::new(a, b, iters).optimize(&m, &start, &x, &y),
        _ => RMSProp::new(a, b, c, iters).optimize(&m, &start, &x, &y),
    };
    let calls = m.0.borrow();
    // the rule, step by step
    let (mut w, mut v) = (start.clone(), vec![0.0; d]);
    let mut k = 0;
    let mut prev: Option<f64> = None;
    for it in 0..iters {
        let mut seen = vec![false; n];
        let mut mean = 0.0;
        let per_pass = if f == 0 { 1 } else { n };
        let mut stopped = false;
        let mut order = vec![];
        for _ in 0..per_pass {
            if k >= calls.len() {
                hx::check_true("the optimiser goes on while the cost changes", false);
                return;
            }
            let q = &calls[k];
            k += 1;
            check_vec("gradients are taken at the current parameters", &q.at, &w);
            if f == 0 {
                check_mat("the whole inputs are used", &q.x, &x);
                check_mat("the whole targets are used", &q.y, &y);
                // no step when the cost no longer changes
                if let Some(c) = prev {
                    if stagnates(c, q.cost) {
                        stopped = true;
                        break;
                    }
                }
                prev = Some(q.cost);
            } else {
                hx::check_true("one sample at a time", q.x.rows() == 1 && q.y.rows() == 1);
                let i = (0..n).find(|i| q.x[[0, 0]] == *i as f64).unwrap_or(n);
                hx::check_true("every sample is visited once per pass", i < n && !seen[i]);
                if i >= n {
                    return;
                }
                seen[i] = true;
                order.push(i);
                check_vec("inputs are rows of the inputs", &row(&q.x, 0), &row(&x, i));
                check_vec("a sample is paired with its target", &row(&q.y, 0), &row(&y, i));
                mean = mean + q.cost / n as f64;
            }
            for j in 0..d {
                let g = q.grad[j];
                match f {
                    0 => w[j] = w[j] - a * g,
                    1 => {
                        let old = v[j];
                        v[j] = b * g + a * old;
                        w[j] = w[j] - ((1.0 + a) * v[j] - a * old);
                    }
                    2 => {
                        v[j] = v[j] + g * g;
                        w[j] = w[j] - a * g / (b + v[j].sqrt());
                    }
                    _ => {
                        v[j] = b * v[j] + (1.0 - b) * g * g;
                        w[j] = w[j] - a * g / (v[j] + c).sqrt();
                    }
                }
            }
        }
        if stopped {
            hx::cover("stopped early");
            break;
        }
        if f != 0 {
            hx::cover(&format!("pass {} in order {:?}", it + 1, order));
        }
        if f != 0 {
            if let Some(c) = prev {
                if stagnates(c, mean) {
                    hx::cover("stopped early");
                    break;
                }
            }
            prev = Some(mean);
        }
        if it + 1 == iters {
            hx::cover("all iterations");
        }
    }
    hx::check_true("the optimiser stops after the iterations, or when the cost no longer changes", k == calls.len());
    check_vec("the result follows the update rule", &out, &w);
}
pub fn descent_refused() {
    let v = hx::var("v");
    let z = hx::var("z");
    let (f, which) = (p("f"), p("w"));
    let (a, b, c) = (if which == 0 { v } else { 0.5 }, if which == 1 { v } else { 0.5 }, if which == 2 { v } else { 0.5 });
    let r = hx::catch(|| match f {
        0 => {
            GradientDesc::new(a, 1);
        }
        1 => {
            StochasticGD::new(a, b, 1);
        }
        2 => {
            AdaGrad::new(a, b, 1);
        }
        _ => {
            RMSProp::new(a, b, c, 1);
        }
    });
    let ok = if f == 3 && which == 1 {
        hx::and(hx::gt(v, 0.0), hx::lt(v, 1.0))
    } else if f == 2 && which == 1 {
        hx::ge(v, 0.0)
    } else {
        hx::gt(v, 0.0)
    };
    let _ = z;
    hx::check("step sizes and rates outside their range are refused", hx::iff(hx::b(r.is_ok()), ok));
    hx::cover(if r.is_ok() { "accepted" } else { "refused" });
}
/// conjugate gradients: whatever costs and gradients it meets, the result is no worse than the start
pub fn conjugate() {
    let (d, iters, max) = (p("d"), p("iters"), p("max"));
    let start = vvec("s", d);
    let (x, y) = (vmat("x", 2, 1), vmat("y", 2, 1));
    let m = Oracle(RefCell::new(vec![]), 1.0);
    let opt = ConjugateGD { iters: iters, max: max, ..ConjugateGD::default() };
    let out = opt.optimize(&m, &start, &x, &y);
    let calls = m.0.borrow();
    hx::check_true("the result has one value per parameter", out.len() == d);
    hx::check_true("the start is evaluated", calls.len() > 0);
    check_vec("the first evaluation is at the start", &calls[0].at, &start);
    for q in calls.iter() {
        check_mat("the inputs are passed on", &q.x, &x);
        check_mat("the targets are passed on", &q.y, &y);
    }
    // the result is one of the evaluated points, and its cost is not above that of the start
    let mut ok = vec![];
    for q in calls.iter() {
        let mut same = vec![hx::le(q.cost, calls[0].cost)];
        for j in 0..d {
            same.push(hx::eq(q.at[j], out[j]));
        }
        ok.push(hx::all(&same));
    }
    hx::check("the result is an evaluated point that is no worse than the start", hx::any(&ok));
    hx::cover(if calls.len() > 2 { "line search" } else { "short" });
}
