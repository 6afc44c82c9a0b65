use crate::matrix::{BaseMatrix, Matrix, MatrixSlice, MatrixSliceMut};
use crate::vector::Vector;
use num::Float;

pub trait VectorNorm<T> {
    fn norm(&self, v: &Vector<T>) -> T;
}
pub trait VectorMetric<T> {
    fn metric(&self, v1: &Vector<T>, v2: &Vector<T>) -> T;
}
pub trait MatrixNorm<T, M: BaseMatrix<T>> {
    fn norm(&self, m: &M) -> T;
}
pub trait MatrixMetric<T, M1: BaseMatrix<T>, M2: BaseMatrix<T>> {
    fn metric(&self, m1: &M1, m2: &M2) -> T;
}

#[derive(Debug, Clone, Copy)]
pub struct Euclidean;
#[derive(Debug, Clone, Copy)]
pub enum Lp<T: Float> {
    Infinity,
    Integer(i32),
    Float(T),
}

fn eu<T: Float>(it: &mut dyn Iterator<Item = T>) -> T {
    let mut s = T::zero();
    for x in it {
        s = s + x * x;
    }
    s.sqrt()
}
fn lp<T: Float>(p: &Lp<T>, it: &mut dyn Iterator<Item = T>) -> T {
    match *p {
        Lp::Infinity => {
            let mut m = T::neg_infinity();
            for x in it {
                let a = x.abs();
                m = m.max(a);
            }
            m
        }
        Lp::Integer(p) => {
            assert!(p >= 1, "p value in Lp norm must be >= 1");
            if p == 1 {
                let mut s = T::zero();
                for x in it {
                    s = s + x.abs();
                }
                return s;
            }
            let mut s = T::zero();
            for x in it {
                s = s + x.abs().powi(p);
            }
            if p == 2 {
                return s.sqrt();
            }
            s.powf(T::from(p).unwrap().recip())
        }
        Lp::Float(p) => {
            assert!(p >= T::one(), "p value in Lp norm must be >= 1");
            let mut s = T::zero();
            for x in it {
                s = s + x.abs().powf(p);
            }
            s.powf(p.recip())
        }
    }
}
impl<T: Float> VectorNorm<T> for Euclidean {
    fn norm(&self, v: &Vector<T>) -> T {
        eu(&mut v.data().iter().cloned())
    }
}
impl<T: Float> VectorMetric<T> for Euclidean {
    fn metric(&self, a: &Vector<T>, b: &Vector<T>) -> T {
        assert_eq!(a.size(), b.size(), "Vector dimensions do not match.");
        eu(&mut a.data().iter().zip(b.data().iter()).map(|(x, y)| *x - *y))
    }
}
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Euclidean {
    fn norm(&self, m: &M) -> T {
        eu(&mut m.iter().cloned())
    }
}
impl<T: Float, M1: BaseMatrix<T>, M2: BaseMatrix<T>> MatrixMetric<T, M1, M2> for Euclidean {
    fn metric(&self, a: &M1, b: &M2) -> T {
        assert!(a.rows() == b.rows() && a.cols() == b.cols(), "Matrix dimensions do not match.");
        eu(&mut a.iter().zip(b.iter()).map(|(x, y)| *x - *y))
    }
}
impl<T: Float> VectorNorm<T> for Lp<T> {
    fn norm(&self, v: &Vector<T>) -> T {
        lp(self, &mut v.data().iter().cloned())
    }
}
impl<T: Float> VectorMetric<T> for Lp<T> {
    fn metric(&self, a: &Vector<T>, b: &Vector<T>) -> T {
        assert_eq!(a.size(), b.size(), "Vector dimensions do not match.");
        lp(self, &mut a.data().iter().zip(b.data().iter()).map(|(x, y)| *x - *y))
    }
}
impl<T: Float, M: BaseMatrix<T>> MatrixNorm<T, M> for Lp<T> {
    fn norm(&self, m: &M) -> T {
        lp(self, &mut m.iter().cloned())
    }
}
impl<T: Float, M1: BaseMatrix<T>, M2: BaseMatrix<T>> MatrixMetric<T, M1, M2> for Lp<T> {
    fn metric(&self, a: &M1, b: &M2) -> T {
        assert!(a.rows() == b.rows() && a.cols() == b.cols(), "Matrix dimensions do not match.");
        lp(self, &mut a.iter().zip(b.iter()).map(|(x, y)| *x - *y))
    }
}
#[allow(dead_code)]
type Unused<'a, T> = (Matrix<T>, MatrixSlice<'a, T>, MatrixSliceMut<'a, T>);
