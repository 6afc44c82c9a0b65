use super::*;
use symx::hx;

pub trait Decomposition {
    type Factors;
    fn unpack(self) -> Self::Factors;
}

fn minor<T: Copy>(d: &[T], n: usize, r: usize, c: usize) -> Vec<T> {
    let mut v = Vec::with_capacity((n - 1) * (n - 1));
    for i in 0..n {
        for j in 0..n {
            if i != r && j != c {
                v.push(d[i * n + j]);
            }
        }
    }
    v
}
fn det_of<T: Float>(d: &[T], n: usize) -> T {
    match n {
        0 => T::one(),
        1 => d[0],
        2 => d[0] * d[3] - d[1] * d[2],
        _ => {
            let mut s = T::zero();
            for j in 0..n {
                let t = d[j] * det_of(&minor(d, n, 0, j), n - 1);
                s = if j % 2 == 0 { s + t } else { s - t };
            }
            s
        }
    }
}
fn inverse_of<T: Float>(m: &Matrix<T>) -> Option<Matrix<T>> {
    let n = m.rows;
    let det = det_of(&m.data, n);
    if det == T::zero() {
        return None;
    }
    let mut d = vec![T::zero(); n * n];
    for i in 0..n {
        for j in 0..n {
            let c = det_of(&minor(&m.data, n, i, j), n - 1);
            let c = if (i + j) % 2 == 0 { c } else { -c };
            d[j * n + i] = c / det;
        }
    }
    Some(Matrix::new(n, n, d))
}
fn singular() -> Error {
    Error::new(ErrorKind::DivByZero, "Singular matrix found in LUP decomposition. A value in the diagonal of U == 0.0.")
}

impl<T: Float> Matrix<T> {
    pub fn inverse(self) -> Result<Matrix<T>, Error> {
        assert!(self.rows == self.cols, "Matrix is not square.");
        inverse_of(&self).ok_or_else(singular)
    }
    pub fn det(self) -> T {
        assert!(self.rows == self.cols, "Matrix is not square.");
        det_of(&self.data, self.rows)
    }
    pub fn solve(self, y: Vector<T>) -> Result<Vector<T>, Error> {
        assert!(self.rows == self.cols, "Matrix is not square.");
        assert!(self.cols == y.size(), "Matrix and vector dimensions do not agree.");
        Ok(inverse_of(&self).ok_or_else(singular)? * y)
    }
    pub fn cholesky(&self) -> Result<Matrix<T>, Error> {
        Cholesky::decompose(self.clone()).map(|c| c.unpack())
    }
}

#[derive(Debug, Clone)]
pub struct PartialPivLu<T> {
    m: Matrix<T>,
}
impl<T: Float> PartialPivLu<T> {
    pub fn decompose(m: Matrix<T>) -> Result<PartialPivLu<T>, Error> {
        assert!(m.rows == m.cols, "Matrix must be square for LU decomposition.");
        if det_of(&m.data, m.rows) == T::zero() {
            return Err(singular());
        }
        Ok(PartialPivLu { m: m })
    }
    pub fn det(&self) -> T {
        det_of(&self.m.data, self.m.rows)
    }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> {
        inverse_of(&self.m).ok_or_else(singular)
    }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
        Ok(inverse_of(&self.m).ok_or_else(singular)? * b)
    }
}
#[derive(Debug, Clone)]
pub struct FullPivLu<T> {
    m: Matrix<T>,
}
impl<T: Float> FullPivLu<T> {
    pub fn decompose(m: Matrix<T>) -> Result<FullPivLu<T>, Error> {
        assert!(m.rows == m.cols, "Matrix must be square for LU decomposition.");
        Ok(FullPivLu { m: m })
    }
    pub fn is_invertible(&self) -> bool {
        det_of(&self.m.data, self.m.rows) != T::zero()
    }
    pub fn det(&self) -> T {
        det_of(&self.m.data, self.m.rows)
    }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> {
        inverse_of(&self.m).ok_or_else(singular)
    }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
        Ok(inverse_of(&self.m).ok_or_else(singular)? * b)
    }
}

#[derive(Debug, Clone)]
pub struct Cholesky<T> {
    l: Matrix<T>,
}
impl<T: Float> Cholesky<T> {
    pub fn decompose(m: Matrix<T>) -> Result<Cholesky<T>, Error> {
        assert!(m.rows == m.cols, "Matrix must be square for Cholesky decomposition.");
        let n = m.rows;
        let mut l = Matrix::zeros(n, n);
        for i in 0..n {
            for j in 0..i + 1 {
                let mut s = m.data[i * n + j];
                for k in 0..j {
                    s = s - l.data[i * n + k] * l.data[j * n + k];
                }
                if i == j {
                    if !(s > T::zero()) {
                        return Err(Error::new(ErrorKind::DecompFailure, "Matrix is not positive definite"));
                    }
                    l.data[i * n + i] = s.sqrt();
                } else {
                    l.data[i * n + j] = s / l.data[j * n + j];
                }
            }
        }
        Ok(Cholesky { l: l })
    }
    pub fn det(&self) -> T {
        let n = self.l.rows;
        let mut p = T::one();
        for i in 0..n {
            p = p * self.l.data[i * n + i];
        }
        p * p
    }
    pub fn solve(&self, b: Vector<T>) -> Result<Vector<T>, Error> {
        let x = self.l.solve_l_triangular(b)?;
        self.l.transpose().solve_u_triangular(x)
    }
    pub fn inverse(&self) -> Result<Matrix<T>, Error> {
        let m = &self.l * self.l.transpose();
        inverse_of(&m).ok_or_else(singular)
    }
}
impl<T: Float> Decomposition for Cholesky<T> {
    type Factors = Matrix<T>;
    fn unpack(self) -> Matrix<T> {
        self.l
    }
}

impl Matrix<f64> {
    /// Singular value decomposition. Tall (rows >= cols): A = U B V^T with V square orthogonal.
    /// Wide: the transpose is decomposed and the factors swapped, so V is cols x rows.
    pub fn svd(self) -> Result<(Matrix<f64>, Matrix<f64>, Matrix<f64>), Error> {
        if self.cols > self.rows {
            let (u, b, v) = thin_svd(self.transpose(), true);
            Ok((v, b, u))
        } else {
            let (u, b, v) = thin_svd(self, false);
            Ok((u, b, v))
        }
    }
}

/// a is tall: a (m x n) = u (m x n) * b (n x n, diagonal, descending, >= 0) * v^T (n x n)
fn thin_svd(a: Matrix<f64>, wide: bool) -> (Matrix<f64>, Matrix<f64>, Matrix<f64>) {
    let (m, n) = (a.rows, a.cols);
    if hx::SYMBOLIC {
        // the same matrix has the same decomposition whenever it is asked for
        let mut h = std::collections::hash_map::DefaultHasher::new();
        use std::hash::{Hash, Hasher};
        (m, n, wide).hash(&mut h);
        for x in a.data.iter() {
            hx::key(*x).hash(&mut h);
        }
        let h = h.finish();
        let fresh = |t: &str, r: usize, c: usize| Matrix::new(r, c, (0..r * c).map(|i| hx::var(&format!("~svd{:x}{}{}", h, t, i))).collect::<Vec<f64>>());
        let u = fresh("u", m, n);
        let v = fresh("v", n, n);
        let s: Vec<f64> = fresh("s", n, 1).data;
        let b = Matrix::from_diag(&s);
        for i in 0..n {
            hx::assume(hx::ge(s[i], 0.0));
            if i + 1 < n {
                hx::assume(hx::ge(s[i], s[i + 1]));
            }
        }
        let orth = |q: &Matrix<f64>| {
            let g = q.transpose() * q;
            for i in 0..n {
                for j in 0..i + 1 {
                    hx::assume(hx::eq(g[[i, j]], if i == j { 1.0 } else { 0.0 }));
                }
            }
        };
        orth(&v);
        orth(&u);
        let r = &u * &b * v.transpose();
        for i in 0..m {
            for j in 0..n {
                hx::assume(hx::eq(r[[i, j]], a[[i, j]]));
            }
        }
        // consequences, stated to spare the solver their derivation:
        // (only on demand: they also make it harder to find a model)
        // a v = u b, a^T u = v b, and the Gram matrices of both sides are b^2
        if std::env::args().any(|t| t == "spectral=2") {
            let (l, r) = if wide { (a.transpose() * &u, &v * &b) } else { (&a * &v, &u * &b) };
            for (p, q) in l.data.iter().zip(r.data.iter()) {
                hx::assume(hx::eq(*p, *q));
            }
            let g = l.transpose() * &l;
            for i in 0..n {
                for j in 0..i + 1 {
                    hx::assume(hx::eq(g[[i, j]], if i == j { s[i] * s[i] } else { 0.0 }));
                }
            }
        }
        for i in 1..n {
            hx::assume(hx::ge(s[i - 1] * s[i - 1], s[i] * s[i]));
        }
        return (u, b, v);
    }
    jacobi(a)
}

/// one-sided Jacobi
fn jacobi(a: Matrix<f64>) -> (Matrix<f64>, Matrix<f64>, Matrix<f64>) {
    let (m, n) = (a.rows, a.cols);
    let mut w = a.data;
    let mut v = Matrix::<f64>::identity(n).data;
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..n {
            for q in p + 1..n {
                let (mut al, mut be, mut ga) = (0.0, 0.0, 0.0);
                for i in 0..m {
                    al += w[i * n + p] * w[i * n + p];
                    be += w[i * n + q] * w[i * n + q];
                    ga += w[i * n + p] * w[i * n + q];
                }
                if ga == 0.0 {
                    continue;
                }
                off += ga * ga;
                let z = (be - al) / (2.0 * ga);
                let t = (if z >= 0.0 { 1.0 } else { -1.0 }) / (z.abs() + (1.0 + z * z).sqrt());
                let c = 1.0 / (1.0 + t * t).sqrt();
                let s = c * t;
                for i in 0..m {
                    let (x, y) = (w[i * n + p], w[i * n + q]);
                    w[i * n + p] = c * x - s * y;
                    w[i * n + q] = s * x + c * y;
                }
                for i in 0..n {
                    let (x, y) = (v[i * n + p], v[i * n + q]);
                    v[i * n + p] = c * x - s * y;
                    v[i * n + q] = s * x + c * y;
                }
            }
        }
        if off < 1e-30 {
            break;
        }
    }
    let mut s: Vec<(f64, usize)> = (0..n)
        .map(|j| {
            let mut t = 0.0;
            for i in 0..m {
                t += w[i * n + j] * w[i * n + j];
            }
            (t.sqrt(), j)
        })
        .collect();
    s.sort_by(|x, y| y.0.partial_cmp(&x.0).unwrap());
    let mut u = Matrix::<f64>::zeros(m, n);
    let mut vv = Matrix::<f64>::zeros(n, n);
    let mut b = Matrix::<f64>::zeros(n, n);
    for (k, &(sv, j)) in s.iter().enumerate() {
        b.data[k * n + k] = sv;
        for i in 0..n {
            vv.data[i * n + k] = v[i * n + j];
        }
        for i in 0..m {
            u.data[i * n + k] = if sv > 1e-12 { w[i * n + j] / sv } else { 0.0 };
        }
    }
    // complete zero columns of u to an orthonormal set (Gram-Schmidt on unit vectors)
    for k in 0..n {
        let nz: f64 = (0..m).map(|i| u.data[i * n + k] * u.data[i * n + k]).sum();
        if nz > 0.5 {
            continue;
        }
        for e in 0..m {
            let mut c: Vec<f64> = (0..m).map(|i| if i == e { 1.0 } else { 0.0 }).collect();
            for l in 0..n {
                let d: f64 = (0..m).map(|i| c[i] * u.data[i * n + l]).sum();
                for i in 0..m {
                    c[i] -= d * u.data[i * n + l];
                }
            }
            let nn: f64 = c.iter().map(|x| x * x).sum::<f64>().sqrt();
            if nn > 1e-6 {
                for i in 0..m {
                    u.data[i * n + k] = c[i] / nn;
                }
                break;
            }
        }
    }
    (u, b, vv)
}
