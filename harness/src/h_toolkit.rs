//! activation functions, cost functions, regularisation, kernels
use crate::util::*;
use rm::learning::toolkit::activ_fn::{self, ActivationFunc};
use rm::learning::toolkit::cost_fn::{CostFunc, CrossEntropyError, MeanSqError};
use rm::learning::toolkit::kernel::{self, Kernel, KernelArith};
use rm::learning::toolkit::regularization::Regularization;
use rulinalg::matrix::MatrixSlice;

fn activ<A: ActivationFunc>(n: &str, lo: Option<f64>, hi: Option<f64>) {
    let x = hx::var("x");
    let y = A::func(x);
    hx::check_eq(&format!("{}: func_grad is the derivative of func", n), A::func_grad(x), hx::deriv(x, &|t| A::func(t)));
    hx::check_eq(&format!("{}: func_grad_from_output(func(x)) is the derivative of func", n), A::func_grad_from_output(y), hx::deriv(x, &|t| A::func(t)));
    hx::check_eq(&format!("{}: func_inv(func(x)) = x", n), A::func_inv(y), x);
    if let Some(l) = lo {
        hx::check(&format!("{}: func(x) above its lower bound", n), hx::gt(y, l));
    }
    if let Some(h) = hi {
        hx::check(&format!("{}: func(x) below its upper bound", n), hx::lt(y, h));
    }
    let x2 = hx::var("x2");
    hx::assume(hx::lt(x, x2));
    hx::check(&format!("{}: func is strictly increasing", n), hx::lt(y, A::func(x2)));
    hx::cover("end");
}
fn activ_inv<A: ActivationFunc>(n: &str, lo: Option<f64>, hi: Option<f64>) {
    let y = hx::var("y");
    if let Some(l) = lo {
        // bounds that are numbers also for the replay
        hx::assume(hx::ge(y, if l == 0.0 { 1e-300 } else { l + 1e-15 }));
    }
    if let Some(h) = hi {
        hx::assume(hx::le(y, h - 1e-15));
    }
    let x = A::func_inv(y);
    hx::check_eq(&format!("{}: func(func_inv(y)) = y on the range", n), A::func(x), y);
    hx::check_eq(&format!("{}: func_grad_from_output(y) = func_grad(func_inv(y))", n), A::func_grad_from_output(y), A::func_grad(x));
    hx::cover("end");
}
pub fn activ_fwd() {
    match p("f") {
        0 => activ::<activ_fn::Sigmoid>("Sigmoid", Some(0.0), Some(1.0)),
        1 => activ::<activ_fn::Linear>("Linear", None, None),
        2 => activ::<activ_fn::Exp>("Exp", Some(0.0), None),
        _ => activ::<activ_fn::Tanh>("Tanh", Some(-1.0), Some(1.0)),
    }
    // values at the origin pin the scale of the function
    let z = 0.0;
    match p("f") {
        0 => hx::check_eq("Sigmoid(0) = 1/2", activ_fn::Sigmoid::func(z), 0.5),
        1 => hx::check_eq("Linear(x) = x", activ_fn::Linear::func(hx::var("x")), hx::var("x")),
        2 => {
            hx::check_eq("Exp(0) = 1", activ_fn::Exp::func(z), 1.0);
            let (a, b) = (hx::var("x"), hx::var("x2"));
            hx::check_eq("Exp(a+b) = Exp(a) Exp(b)", activ_fn::Exp::func(a + b), activ_fn::Exp::func(a) * activ_fn::Exp::func(b));
        }
        _ => {
            hx::check_eq("Tanh(0) = 0", activ_fn::Tanh::func(z), 0.0);
            let a = hx::var("x");
            hx::check_eq("Tanh is odd", activ_fn::Tanh::func(-a), -activ_fn::Tanh::func(a));
        }
    }
    if p("f") == 0 {
        let a = hx::var("x");
        hx::check_eq("Sigmoid(-x) = 1 - Sigmoid(x)", activ_fn::Sigmoid::func(-a), 1.0 - activ_fn::Sigmoid::func(a));
    }
}
pub fn activ_inverse() {
    match p("f") {
        0 => activ_inv::<activ_fn::Sigmoid>("Sigmoid", Some(0.0), Some(1.0)),
        1 => activ_inv::<activ_fn::Linear>("Linear", None, None),
        2 => activ_inv::<activ_fn::Exp>("Exp", Some(0.0), None),
        _ => activ_inv::<activ_fn::Tanh>("Tanh", Some(-1.0), Some(1.0)),
    }
}

// ---------------------------------------------------------------- cost functions
fn inputs(r: usize, c: usize, ce: bool) -> (Vec<f64>, Vec<f64>) {
    let o = vvec("o", r * c);
    let t = vvec("t", r * c);
    if ce {
        for i in 0..r * c {
            hx::assume(hx::and(hx::ge(o[i], 1e-300), hx::le(o[i], 1.0 - 1e-15)));
            hx::assume(hx::and(hx::ge(t[i], 0.0), hx::le(t[i], 1.0)));
        }
    }
    (o, t)
}
fn cost_common(n: &str, r: usize, c: usize, ce: bool, cost: &dyn Fn(&[f64], &[f64]) -> f64, grad: &dyn Fn(&[f64], &[f64]) -> Vec<f64>) {
    let (o, t) = inputs(r, c, ce);
    let k = cost(&o, &t);
    let mut s = 0.0;
    for i in 0..r * c {
        if ce {
            s = s - (t[i] * o[i].ln() + (1.0 - t[i]) * (1.0 - o[i]).ln());
        } else {
            s = s + (o[i] - t[i]) * (o[i] - t[i]) / 2.0;
        }
    }
    hx::check_eq(&format!("{}: cost is the documented mean over the rows", n), k, s / (r as f64));
    hx::check_le(&format!("{}: cost is non-negative", n), 0.0, k);
    if !ce {
        hx::check_eq(&format!("{}: cost is zero on the targets", n), cost(&t, &t), 0.0);
    }
    let g = grad(&o, &t);
    hx::check_true(&format!("{}: gradient has the shape of the outputs", n), g.len() == r * c);
    check_gradient(&format!("{}: grad_cost is the derivative of cost", n), &g, &o, &|x| cost(x, &t));
    hx::cover("end");
}
pub fn cost_fns() {
    let (r, c) = (p("r"), p("c"));
    match p("f") {
        0 => cost_common(
            "MeanSqError/Matrix",
            r,
            c,
            false,
            &|o, t| MeanSqError::cost(&Matrix::new(r, c, o.to_vec()), &Matrix::new(r, c, t.to_vec())),
            &|o, t| MeanSqError::grad_cost(&Matrix::new(r, c, o.to_vec()), &Matrix::new(r, c, t.to_vec())).into_vec(),
        ),
        1 => cost_common(
            "MeanSqError/Vector",
            r,
            1,
            false,
            &|o, t| MeanSqError::cost(&Vector::new(o.to_vec()), &Vector::new(t.to_vec())),
            &|o, t| MeanSqError::grad_cost(&Vector::new(o.to_vec()), &Vector::new(t.to_vec())).into_vec(),
        ),
        2 => cost_common(
            "CrossEntropyError/Matrix",
            r,
            c,
            true,
            &|o, t| CrossEntropyError::cost(&Matrix::new(r, c, o.to_vec()), &Matrix::new(r, c, t.to_vec())),
            &|o, t| CrossEntropyError::grad_cost(&Matrix::new(r, c, o.to_vec()), &Matrix::new(r, c, t.to_vec())).into_vec(),
        ),
        _ => cost_common(
            "CrossEntropyError/Vector",
            r,
            1,
            true,
            &|o, t| CrossEntropyError::cost(&Vector::new(o.to_vec()), &Vector::new(t.to_vec())),
            &|o, t| CrossEntropyError::grad_cost(&Vector::new(o.to_vec()), &Vector::new(t.to_vec())).into_vec(),
        ),
    }
}

// ---------------------------------------------------------------- regularisation
pub fn regular() {
    let (r, c) = (p("r"), p("c"));
    let w = vvec("w", r * c);
    let (a, b) = (hx::var("a"), hx::var("b"));
    let f = p("f");
    let reg = match f {
        0 => Regularization::L1(a),
        1 => Regularization::L2(a),
        2 => Regularization::ElasticNet(a, b),
        _ => Regularization::None,
    };
    let n = ["L1", "L2", "ElasticNet", "None"][f];
    // the weights live in a wider matrix, as the regularised part of a layer does
    let full = |w: &[f64]| {
        let mut d = vec![];
        for i in 0..r {
            d.push(7.5);
            for j in 0..c {
                d.push(w[i * c + j]);
            }
        }
        Matrix::new(r, c + 1, d)
    };
    let cost = |w: &[f64]| {
        let m = full(w);
        reg.reg_cost(MatrixSlice::from_matrix(&m, [0, 1], r, c))
    };
    let m = full(&w);
    let g = reg.reg_grad(MatrixSlice::from_matrix(&m, [0, 1], r, c));
    if !check_shape("gradient has the shape of the weights", &g, r, c) {
        return;
    }
    // away from the kinks of the absolute value and from the origin
    for x in &w {
        hx::assume(hx::ne(*x, 0.0));
    }
    let k = cost(&w);
    let nf = r as f64;
    let l1 = {
        let mut s = 0.0;
        for x in &w {
            s = s + x.abs();
        }
        s
    };
    let l2n = {
        let mut s = 0.0;
        for x in &w {
            s = s + *x * *x;
        }
        s
    };
    match f {
        0 => hx::check_eq("L1: cost = a |W|_1 / 2n", k, a * l1 / (2.0 * nf)),
        3 => hx::check_eq("None: cost = 0", k, 0.0),
        1 => {
            // known finding: the unsquared norm
            hx::check_eq("L2: cost = a |W|^2 / 2n", k, a * l2n / (2.0 * nf));
            hx::check_eq("L2: cost (as it stands) = a |W| / 2n", k, a * l2n.sqrt() / (2.0 * nf));
        }
        _ => {
            hx::check_eq("ElasticNet: cost = L1 cost + L2 cost", k, Regularization::L1(a).reg_cost(MatrixSlice::from_matrix(&m, [0, 1], r, c)) + Regularization::L2(b).reg_cost(MatrixSlice::from_matrix(&m, [0, 1], r, c)));
        }
    }
    let d = hx::grad_free(&w, &cost);
    for i in 0..r * c {
        let gi = g[[i / c, i % c]];
        match f {
            1 => hx::check_eq("L2: reg_grad = a W / n, the derivative of the squared-norm cost", gi, a * w[i] / nf),
            2 => {
                let s = hx::ite(hx::lt(w[i], 0.0), -1.0, 1.0);
                hx::check_eq("ElasticNet: reg_grad = L1 gradient + L2 gradient", gi, a * s / (2.0 * nf) + b * w[i] / nf)
            }
            _ => {
                if let Some(d) = d[i] {
                    hx::check_eq(&format!("{}: reg_grad is the derivative of reg_cost", n), gi, d)
                }
            }
        }
    }
    hx::cover("end");
}

// ---------------------------------------------------------------- kernels
fn kern_common(n: &str, k: &dyn Kernel, x: &[f64], y: &[f64]) {
    hx::check_eq(&format!("{}: k(x,y) = k(y,x)", n), k.kernel(x, y), k.kernel(y, x));
}
pub fn kernels() {
    let d = p("d");
    let x = vvec("x", d);
    let y = vvec("y", d);
    let dp = dot(&x, &y);
    let d2 = sqd(&x, &y);
    match p("f") {
        0 => {
            let c = hx::var("c");
            let k = kernel::Linear::new(c);
            kern_common("Linear", &k, &x, &y);
            hx::check_eq("Linear: x.y + c", k.kernel(&x, &y), dp + c);
            hx::check_eq("Linear default", kernel::Linear::default().kernel(&x, &y), dp);
        }
        1 => {
            let (a, c) = (hx::var("a"), hx::var("c"));
            let e = p("e");
            let k = kernel::Polynomial::new(a, c, e as f64);
            kern_common("Polynomial", &k, &x, &y);
            let b = a * dp + c;
            let mut w = 1.0;
            for _ in 0..e {
                w = w * b;
            }
            hx::check_eq("Polynomial: (a x.y + c)^d", k.kernel(&x, &y), w);
            hx::check_eq("Polynomial default", kernel::Polynomial::default().kernel(&x, &y), dp);
        }
        2 => {
            let (ls, am) = (hx::var_pos("ls"), hx::var("am"));
            let k = kernel::SquaredExp::new(ls, am);
            kern_common("SquaredExp", &k, &x, &y);
            hx::check_eq("SquaredExp: A exp(-|x-y|^2 / 2l^2)", k.kernel(&x, &y), am * (-d2 / (2.0 * ls * ls)).exp());
            hx::check_eq("SquaredExp: k(x,x) = A", k.kernel(&x, &x), am);
            hx::check_eq("SquaredExp default", kernel::SquaredExp::default().kernel(&x, &y), (-d2 / 2.0).exp());
            hx::assume(hx::gt(am, 0.0));
            hx::check_le("SquaredExp: k(x,y) <= k(x,x)", k.kernel(&x, &y), am);
        }
        3 => {
            let (ls, am) = (hx::var_pos("ls"), hx::var("am"));
            let k = kernel::Exponential::new(ls, am);
            kern_common("Exponential", &k, &x, &y);
            hx::check_eq("Exponential: A exp(-|x-y| / 2l^2)", k.kernel(&x, &y), am * (-d2.sqrt() / (2.0 * ls * ls)).exp());
            hx::check_eq("Exponential: k(x,x) = A", k.kernel(&x, &x), am);
            hx::check_eq("Exponential default", kernel::Exponential::default().kernel(&x, &y), (-d2.sqrt() / 2.0).exp());
            hx::assume(hx::gt(am, 0.0));
            hx::check_le("Exponential: k(x,y) <= k(x,x)", k.kernel(&x, &y), am);
        }
        4 => {
            let (a, c) = (hx::var("a"), hx::var("c"));
            let k = kernel::HyperTan::new(a, c);
            kern_common("HyperTan", &k, &x, &y);
            let v = k.kernel(&x, &y);
            hx::check_eq("HyperTan: tanh(a x.y + c)", v, (a * dp + c).tanh());
            hx::check("HyperTan: inside (-1,1)", hx::and(hx::lt(v, 1.0), hx::gt(v, -1.0)));
            hx::check_eq("HyperTan default", kernel::HyperTan::default().kernel(&x, &y), dp.tanh());
        }
        5 => {
            let c = hx::var("c");
            let k = kernel::Multiquadric::new(c);
            kern_common("Multiquadric", &k, &x, &y);
            let v = k.kernel(&x, &y);
            hx::check_eq("Multiquadric: sqrt(|x-y|^2 + c^2), squared", v * v, d2 + c * c);
            hx::check_le("Multiquadric: non-negative", 0.0, v);
            let v = kernel::Multiquadric::default().kernel(&x, &y);
            hx::check_eq("Multiquadric default", v * v, d2);
        }
        6 => {
            let (a, ls) = (hx::var_pos("a"), hx::var_pos("ls"));
            let k = kernel::RationalQuadratic::new(a, ls);
            kern_common("RationalQuadratic", &k, &x, &y);
            hx::check_eq("RationalQuadratic: (1 + |x-y|^2/(2 a l^2))^-a", k.kernel(&x, &y), (1.0 + d2 / (2.0 * a * ls * ls)).powf(-a));
            hx::check_eq("RationalQuadratic: k(x,x) = 1", k.kernel(&x, &x), 1.0);
            let k2 = kernel::RationalQuadratic::new(2.0, ls);
            let b = 1.0 + d2 / (4.0 * ls * ls);
            hx::check_eq("RationalQuadratic with alpha = 2", k2.kernel(&x, &y), 1.0 / (b * b));
            hx::check_eq("RationalQuadratic default", kernel::RationalQuadratic::default().kernel(&x, &y), 1.0 / (1.0 + d2 / 2.0));
        }
        _ => {
            let (a, c, ls, am) = (hx::var("a"), hx::var("c"), hx::var_pos("ls"), hx::var("am"));
            let k1 = || kernel::Linear::new(c);
            let k2 = || kernel::SquaredExp::new(ls, am);
            let k3 = || kernel::Polynomial::new(a, c, 2.0);
            let (v1, v2, v3) = (k1().kernel(&x, &y), k2().kernel(&x, &y), k3().kernel(&x, &y));
            let s = KernelArith(k1()) + KernelArith(k2());
            hx::check_eq("sum: (k1+k2)(x,y) = k1(x,y) + k2(x,y)", s.kernel(&x, &y), v1 + v2);
            let q = KernelArith(k1()) * KernelArith(k2());
            hx::check_eq("product: (k1*k2)(x,y) = k1(x,y) k2(x,y)", q.kernel(&x, &y), v1 * v2);
            let t = KernelArith(KernelArith(k1()) + KernelArith(k3())) * KernelArith(k2());
            hx::check_eq("nested: ((k1+k3)*k2)(x,y)", t.kernel(&x, &y), (v1 + v3) * v2);
            kern_common("nested", &t, &x, &y);
        }
    }
    hx::cover("end");
}
