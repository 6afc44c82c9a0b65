//! neural networks
use crate::util::*;
use rm::learning::nnet::net_layer::{Linear, NetLayer};
use rm::learning::nnet::{BCECriterion, BaseNeuralNet, Criterion, MSECriterion, NeuralNet};
use rm::learning::optim::{OptimAlgorithm, Optimizable};
use rm::learning::toolkit::activ_fn;
use rm::learning::toolkit::regularization::Regularization;
use rm::learning::SupModel;
use rm::linalg::MatrixSlice;
use std::cell::RefCell;

/// an optimiser that records its arguments, asks for one gradient and returns given weights
struct Probe {
    at: Vec<f64>,
    ret: Vec<f64>,
    seen: RefCell<Option<(Vec<f64>, Matrix<f64>, Matrix<f64>)>>,
    grad: RefCell<Option<(f64, Vec<f64>)>>,
}
impl<C: Criterion> OptimAlgorithm<BaseNeuralNet<C>> for &Probe {
    fn optimize(&self, m: &BaseNeuralNet<C>, start: &[f64], x: &Matrix<f64>, y: &Matrix<f64>) -> Vec<f64> {
        *self.seen.borrow_mut() = Some((start.to_vec(), x.clone(), y.clone()));
        if self.at.len() == start.len() {
            *self.grad.borrow_mut() = Some(Optimizable::compute_grad(m, &self.at, x, y));
        }
        self.ret.clone()
    }
}
/// reference layers
enum L {
    Lin(usize, usize, bool),
    Sig,
    Id,
    Tanh,
    Exp,
}
fn act(l: &L, x: f64) -> f64 {
    match *l {
        L::Sig => 1.0 / (1.0 + (-x).exp()),
        L::Tanh => x.tanh(),
        L::Exp => x.exp(),
        _ => x,
    }
}
fn size(ls: &[L]) -> usize {
    let mut s = 0;
    for l in ls {
        if let L::Lin(i, o, b) = *l {
            s += (i + b as usize) * o;
        }
    }
    s
}
fn forward(ls: &[L], w: &[f64], x: &Matrix<f64>) -> Vec<Vec<f64>> {
    (0..x.rows())
        .map(|i| {
            let mut a = row(x, i);
            let mut k = 0;
            for l in ls {
                if let L::Lin(n, o, b) = *l {
                    let inp: Vec<f64> = if b { std::iter::once(1.0).chain(a.iter().cloned()).collect() } else { a.clone() };
                    let mut out = vec![];
                    for j in 0..o {
                        let mut s = 0.0;
                        for t in 0..inp.len() {
                            s = s + inp[t] * w[k + t * o + j];
                        }
                        out.push(s);
                    }
                    k += inp.len() * o;
                    let _ = n;
                    a = out;
                } else {
                    a = a.iter().map(|v| act(l, *v)).collect();
                }
            }
            a
        })
        .collect()
}
fn arch(f: usize) -> Vec<L> {
    match f {
        0 => vec![L::Lin(1, 1, true), L::Sig],
        1 => vec![L::Lin(2, 1, true), L::Sig],
        2 => vec![L::Lin(1, 2, true), L::Sig, L::Lin(2, 1, true), L::Sig],
        3 => vec![L::Lin(2, 2, true), L::Id, L::Lin(2, 2, true), L::Id],
        4 => vec![L::Lin(2, 3, false), L::Tanh, L::Lin(3, 2, false)],
        5 => vec![L::Lin(2, 2, true), L::Exp, L::Lin(2, 1, false)],
        6 => vec![L::Tanh, L::Lin(2, 1, true), L::Exp],
        7 => vec![L::Lin(1, 1, true), L::Tanh, L::Lin(1, 1, true), L::Tanh, L::Lin(1, 2, true), L::Tanh],
        9 => vec![L::Lin(1, 1, true), L::Sig, L::Lin(1, 1, false)],
        8 => vec![L::Lin(2, 3, true), L::Lin(3, 1, true)],
        // wide and deep ones, for data that are mostly fixed
        10 => vec![L::Lin(17, 11, true), L::Id, L::Lin(11, 9, true), L::Id],
        11 => vec![L::Lin(9, 10, true), L::Lin(10, 9, false)],
        12 => vec![L::Lin(1, 1, true), L::Lin(1, 2, true), L::Lin(2, 1, false), L::Lin(1, 1, true), L::Lin(1, 2, true), L::Lin(2, 1, true), L::Lin(1, 1, true)],
        13 => vec![L::Lin(9, 1, true), L::Sig],
        14 => vec![L::Lin(1, 9, true), L::Tanh, L::Lin(9, 1, true)],
        _ => vec![],
    }
}
fn layer(l: &L) -> Box<dyn NetLayer> {
    match *l {
        L::Lin(i, o, true) => Box::new(Linear::new(i, o)),
        L::Lin(i, o, false) => Box::new(Linear::without_bias(i, o)),
        L::Sig => Box::new(activ_fn::Sigmoid),
        L::Id => Box::new(activ_fn::Linear),
        L::Tanh => Box::new(activ_fn::Tanh),
        L::Exp => Box::new(activ_fn::Exp),
    }
}
fn io(ls: &[L]) -> (usize, usize) {
    let (mut i, mut o) = (0, 0);
    for l in ls {
        if let L::Lin(a, b, _) = *l {
            if i == 0 {
                i = a;
            }
            o = b;
        }
    }
    (i, o)
}
fn cost(bce: bool, reg: usize, w: &[f64], o: &[Vec<f64>], y: &Matrix<f64>) -> f64 {
    let n = o.len() as f64;
    let mut s = 0.0;
    for i in 0..o.len() {
        for j in 0..o[i].len() {
            let (a, t) = (o[i][j], y[[i, j]]);
            s = if bce { s - (t * a.ln() + (1.0 - t) * (1.0 - a).ln()) / n } else { s + (a - t) * (a - t) / (2.0 * n) };
        }
    }
    if reg == 1 {
        for v in w {
            s = s + 0.75 * v.abs() / (2.0 * w.len() as f64);
        }
    }
    s
}
fn run<C: Criterion>(crit: C, bce: bool, reg: usize) {
    let (f, r) = (p("f"), p("r"));
    let ls = arch(f);
    let (i, o) = io(&ls);
    let n = size(&ls);
    let x = vmat("x", r, i);
    let y = vmat("y", r, o);
    let (at, w) = (vvec("a", n), vvec("w", n));
    if reg == 1 {
        for v in &at {
            hx::assume(hx::ne(*v, 0.0));
        }
    }
    let pr = Probe { at: at.clone(), ret: w.clone(), seen: RefCell::new(None), grad: RefCell::new(None) };
    let mlp = p("mlp") == 1;
    let mut net = if mlp {
        // layers given by sizes, with one activation
        let mut sizes = vec![i];
        for l in &ls {
            if let L::Lin(_, b, _) = *l {
                sizes.push(b);
            }
        }
        match ls[1] {
            L::Sig => NeuralNet::mlp(&sizes, crit, &pr, activ_fn::Sigmoid),
            L::Tanh => NeuralNet::mlp(&sizes, crit, &pr, activ_fn::Tanh),
            _ => NeuralNet::mlp(&sizes, crit, &pr, activ_fn::Linear),
        }
    } else {
        let mut net = NeuralNet::new(crit, &pr);
        let mut it = ls.iter().map(layer);
        net.add(it.next().unwrap());
        net.add_layers(it);
        net
    };
    // before training: random weights, one per parameter; prediction uses them
    let nl = ls.len();
    let mut w0 = vec![];
    for l in 0..nl {
        let m = net.get_net_weights(l);
        for a in 0..m.rows() {
            for b in 0..m.cols() {
                w0.push(m[[a, b]]);
            }
        }
    }
    hx::check_true("one initial weight per parameter", w0.len() == n);
    let o0 = net.predict(&x).expect("prediction");
    let e0 = forward(&ls, &w0, &x);
    if check_shape("one output row per sample", &o0, r, o) {
        for a in 0..r {
            check_vec("forward propagation with the initial weights", &row(&o0, a), &e0[a]);
        }
    }
    net.train(&x, &y).expect("training");
    let (start, sx, sy) = pr.seen.borrow_mut().take().expect("the optimiser is used");
    check_vec("the optimiser starts at the current weights", &start, &w0);
    check_mat("the optimiser sees the inputs", &sx, &x);
    check_mat("the optimiser sees the targets", &sy, &y);
    // cost and gradient
    if let Some((c, g)) = pr.grad.borrow_mut().take() {
        if reg == 2 && p("g") == 1 {
            // the regularisation of all weights together is added to cost and gradient
            let col = Matrix::new(n, 1, at.clone());
            let slice = MatrixSlice::from_matrix(&col, [0, 0], n, 1);
            let rg = Regularization::L2(0.75);
            let e = |a: &[f64]| cost(bce, 0, a, &forward(&ls, a, &x), &y);
            hx::check_eq("the cost is that of the outputs plus the regularization of the weights", c, e(&at) + rg.reg_cost(slice));
            let (d, rgr) = (hx::grad_free(&at, &|a| e(a)), rg.reg_grad(slice).into_vec());
            hx::check_true("one derivative per weight", g.len() == n);
            for i in 0..n {
                if let Some(d) = d[i] {
                    hx::check_eq("the gradient is that of the cost plus that of the regularization", g[i], d + rgr[i]);
                }
            }
        }
        let e = |a: &[f64]| cost(bce, reg, a, &forward(&ls, a, &x), &y);
        if p("g") == 1 && reg != 2 {
            hx::check_eq("the cost is that of the outputs", c, e(&at));
            check_gradient("back propagation gives the derivative of the cost", &g, &at, &|a| e(a));
        }
    }
    // after training: the returned weights, layer by layer
    let mut k = 0;
    for (l, s) in ls.iter().enumerate() {
        let m = net.get_net_weights(l);
        let (a, b) = if let L::Lin(i, o, b) = *s { (i + b as usize, o) } else { (0, 0) };
        hx::check_true("layer weights have the shape of the layer", m.rows() == a && m.cols() == b);
        if m.rows() == a && m.cols() == b {
            for t in 0..a {
                for u in 0..b {
                    hx::check_eq("layer weights are the optimiser's", m[[t, u]], w[k]);
                    k += 1;
                }
            }
        }
    }
    let u = vmat("u", 2, i);
    let o1 = net.predict(&u).expect("prediction");
    let e1 = forward(&ls, &w, &u);
    if check_shape("one output row per sample", &o1, 2, o) {
        for a in 0..2 {
            check_vec("forward propagation with the trained weights", &row(&o1, a), &e1[a]);
        }
    }
    hx::check_true("inputs with a wrong number of columns are an error", if let L::Lin(..) = ls[0] { net.predict(&vmat("v", 2, i + 1)).is_err() } else { true });
    hx::cover("end");
}
pub fn nnet() {
    let reg = p("reg");
    let rg = if reg == 1 { Regularization::L1(0.75) } else if reg == 2 { Regularization::L2(0.75) } else { Regularization::None };
    if p("bce") == 1 {
        run(BCECriterion::new(rg), true, reg)
    } else {
        run(MSECriterion::new(rg), false, reg)
    }
}
pub fn nnet_mismatch() {
    let pr = Probe { at: vec![], ret: vec![], seen: RefCell::new(None), grad: RefCell::new(None) };
    let mut net = NeuralNet::new(MSECriterion::default(), &pr);
    net.add(Box::new(Linear::new(2, 2)));
    net.add(Box::new(activ_fn::Tanh));
    net.add(Box::new(Linear::new(3, 1)));
    hx::check_true("layers that do not line up are an error", net.predict(&vmat("x", 2, 2)).is_err());
    let empty = NeuralNet::new(MSECriterion::default(), &pr);
    let x = vmat("x", 2, 2);
    check_mat("a network without layers returns its inputs", &empty.predict(&x).expect("prediction"), &x);
    hx::cover("end");
}
