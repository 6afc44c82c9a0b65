use crate::matrix::{BaseMatrix, Matrix, MatrixSlice};
use crate::norm::{VectorMetric, VectorNorm};
use crate::utils;
use num::{Float, FromPrimitive, One, Zero};
use std::fmt;
use std::iter::FromIterator;
use std::ops::*;

#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Vector<T> {
    size: usize,
    data: Vec<T>,
}
impl<T: Clone> Clone for Vector<T> {
    fn clone(&self) -> Vector<T> {
        Vector { size: self.size, data: self.data.clone() }
    }
}
impl<T> Vector<T> {
    pub fn new<U: Into<Vec<T>>>(data: U) -> Vector<T> {
        let d = data.into();
        Vector { size: d.len(), data: d }
    }
    pub fn from_fn<F: FnMut(usize) -> T>(size: usize, f: F) -> Vector<T> {
        Vector { size: size, data: (0..size).map(f).collect() }
    }
    pub fn size(&self) -> usize {
        self.size
    }
    pub fn data(&self) -> &Vec<T> {
        &self.data
    }
    pub fn mut_data(&mut self) -> &mut [T] {
        &mut self.data
    }
    pub fn into_vec(self) -> Vec<T> {
        self.data
    }
    pub fn iter(&self) -> std::slice::Iter<T> {
        self.data.iter()
    }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<T> {
        self.data.iter_mut()
    }
    pub unsafe fn get_unchecked(&self, index: usize) -> &T {
        &self.data[index]
    }
    pub unsafe fn get_unchecked_mut(&mut self, index: usize) -> &mut T {
        &mut self.data[index]
    }
    pub fn get(&self, index: usize) -> Option<&T> {
        self.data.get(index)
    }
    pub fn swap(&mut self, i: usize, j: usize) {
        self.data.swap(i, j)
    }
}
impl<T> Into<Vec<T>> for Vector<T> {
    fn into(self) -> Vec<T> {
        self.data
    }
}
impl<T> From<Vec<T>> for Vector<T> {
    fn from(d: Vec<T>) -> Vector<T> {
        Vector { size: d.len(), data: d }
    }
}
impl<'a, T: Clone> From<&'a [T]> for Vector<T> {
    fn from(d: &'a [T]) -> Vector<T> {
        Vector::new(d.to_vec())
    }
}
impl<T> FromIterator<T> for Vector<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Vector<T> {
        let v: Vec<T> = i.into_iter().collect();
        Vector::new(v)
    }
}
impl<T> IntoIterator for Vector<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a Vector<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter()
    }
}
impl<'a, T> IntoIterator for &'a mut Vector<T> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.data.iter_mut()
    }
}
impl<T> Index<usize> for Vector<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        assert!(i < self.size);
        &self.data[i]
    }
}
impl<T> IndexMut<usize> for Vector<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        assert!(i < self.size);
        &mut self.data[i]
    }
}
impl<T: Clone + Zero> Vector<T> {
    pub fn zeros(n: usize) -> Vector<T> {
        Vector { size: n, data: vec![T::zero(); n] }
    }
}
impl<T: Clone + One> Vector<T> {
    pub fn ones(n: usize) -> Vector<T> {
        Vector { size: n, data: vec![T::one(); n] }
    }
}
impl<T: Copy> Vector<T> {
    pub fn apply(mut self, f: &dyn Fn(T) -> T) -> Vector<T> {
        for x in self.data.iter_mut() {
            *x = f(*x);
        }
        self
    }
    pub fn select(&self, idxs: &[usize]) -> Vector<T> {
        Vector::new(idxs.iter().map(|&i| self[i]).collect::<Vec<T>>())
    }
}
impl<T: Copy + PartialOrd> Vector<T> {
    pub fn argmax(&self) -> (usize, T) {
        utils::argmax(&self.data)
    }
    pub fn argmin(&self) -> (usize, T) {
        utils::argmin(&self.data)
    }
}
impl<T: Copy + Zero + Mul<T, Output = T> + Add<T, Output = T>> Vector<T> {
    pub fn dot(&self, v: &Vector<T>) -> T {
        assert_eq!(self.size, v.size, "Vector dimensions do not match.");
        utils::dot(&self.data, &v.data)
    }
}
impl<T: Copy + Zero + Add<T, Output = T>> Vector<T> {
    pub fn sum(&self) -> T {
        utils::unrolled_sum(&self.data)
    }
}
impl<T: Copy + Mul<T, Output = T>> Vector<T> {
    pub fn elemul(&self, v: &Vector<T>) -> Vector<T> {
        assert_eq!(self.size, v.size);
        Vector::new(utils::ele_mul(&self.data, &v.data))
    }
}
impl<T: Copy + Div<T, Output = T>> Vector<T> {
    pub fn elediv(&self, v: &Vector<T>) -> Vector<T> {
        assert_eq!(self.size, v.size);
        Vector::new(utils::ele_div(&self.data, &v.data))
    }
}
impl<T: Float> Vector<T> {
    pub fn norm<N: VectorNorm<T>>(&self, norm: N) -> T {
        norm.norm(self)
    }
    pub fn metric<N: VectorMetric<T>>(&self, v: &Vector<T>, m: N) -> T {
        m.metric(self, v)
    }
}
impl<T: Float + FromPrimitive> Vector<T> {
    pub fn mean(&self) -> T {
        let s = self.sum();
        s / FromPrimitive::from_usize(self.size).unwrap()
    }
    pub fn variance(&self) -> T {
        let m = self.mean();
        let mut var = T::zero();
        for u in &self.data {
            var = var + (*u - m) * (*u - m);
        }
        var / FromPrimitive::from_usize(self.size - 1).unwrap()
    }
}
impl<T: fmt::Display> fmt::Display for Vector<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "[")?;
        for x in &self.data {
            write!(f, " {} ", x)?;
        }
        write!(f, "]")
    }
}

macro_rules! vec_op {
    ($tr:ident $m:ident $tra:ident $ma:ident) => {
        impl<T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: Vector<T>) -> Vector<T> { (&self).$m(&o) }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<&'a Vector<T>> for Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: &'a Vector<T>) -> Vector<T> { (&self).$m(o) }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<Vector<T>> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: Vector<T>) -> Vector<T> { self.$m(&o) }
        }
        impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'b Vector<T>> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: &'b Vector<T>) -> Vector<T> {
                assert_eq!(self.size, o.size, "Vector dimensions do not match.");
                Vector::new(self.data.iter().zip(o.data.iter()).map(|(x, y)| (*x).$m(*y)).collect::<Vec<T>>())
            }
        }
        impl<T: Copy + $tr<T, Output = T>> $tra<Vector<T>> for Vector<T> {
            fn $ma(&mut self, o: Vector<T>) { self.$ma(&o) }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tra<&'a Vector<T>> for Vector<T> {
            fn $ma(&mut self, o: &'a Vector<T>) {
                assert_eq!(self.size, o.size, "Vector dimensions do not match.");
                for (x, y) in self.data.iter_mut().zip(o.data.iter()) { *x = (*x).$m(*y); }
            }
        }
    };
}
vec_op!(Add add AddAssign add_assign);
vec_op!(Sub sub SubAssign sub_assign);
macro_rules! vec_sc {
    ($tr:ident $m:ident $tra:ident $ma:ident) => {
        impl<T: Copy + $tr<T, Output = T>> $tr<T> for Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: T) -> Vector<T> { (&self).$m(&o) }
        }
        impl<'b, T: Copy + $tr<T, Output = T>> $tr<&'b T> for Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: &'b T) -> Vector<T> { (&self).$m(o) }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tr<T> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: T) -> Vector<T> { self.$m(&o) }
        }
        impl<'a, 'b, T: Copy + $tr<T, Output = T>> $tr<&'b T> for &'a Vector<T> {
            type Output = Vector<T>;
            fn $m(self, o: &'b T) -> Vector<T> { Vector::new(self.data.iter().map(|x| (*x).$m(*o)).collect::<Vec<T>>()) }
        }
        impl<T: Copy + $tr<T, Output = T>> $tra<T> for Vector<T> {
            fn $ma(&mut self, o: T) { for x in self.data.iter_mut() { *x = (*x).$m(o); } }
        }
        impl<'a, T: Copy + $tr<T, Output = T>> $tra<&'a T> for Vector<T> {
            fn $ma(&mut self, o: &'a T) { for x in self.data.iter_mut() { *x = (*x).$m(*o); } }
        }
    };
}
vec_sc!(Add add AddAssign add_assign);
vec_sc!(Sub sub SubAssign sub_assign);
vec_sc!(Mul mul MulAssign mul_assign);
vec_sc!(Div div DivAssign div_assign);
vec_sc!(Rem rem RemAssign rem_assign);
impl<T: Neg<Output = T> + Copy> Neg for Vector<T> {
    type Output = Vector<T>;
    fn neg(self) -> Vector<T> {
        Vector::new(self.data.iter().map(|x| -*x).collect::<Vec<T>>())
    }
}
impl<'a, T: Neg<Output = T> + Copy> Neg for &'a Vector<T> {
    type Output = Vector<T>;
    fn neg(self) -> Vector<T> {
        Vector::new(self.data.iter().map(|x| -*x).collect::<Vec<T>>())
    }
}
#[allow(dead_code)]
fn _unused<T>(m: &Matrix<T>, _: &MatrixSlice<T>) -> usize {
    m.rows()
}

/// comparison behind `assert_vector_eq!`
pub fn close(a: &Vector<f64>, b: &Vector<f64>, tol: f64) -> bool {
    a.size() == b.size() && a.data().iter().zip(b.data().iter()).all(|(p, q)| (*p - *q).abs() <= tol)
}
