use num::Zero;
use std::ops::{Add, Mul};

pub fn unrolled_sum<T: Clone + Add<Output = T> + Zero>(xs: &[T]) -> T {
    xs.iter().fold(T::zero(), |a, b| a + b.clone())
}
pub fn dot<T: Copy + Zero + Add<T, Output = T> + Mul<T, Output = T>>(u: &[T], v: &[T]) -> T {
    let n = if u.len() < v.len() { u.len() } else { v.len() };
    let mut s = T::zero();
    for i in 0..n {
        s = s + u[i] * v[i];
    }
    s
}
pub fn in_place_vec_bin_op<F, T: Copy>(u: &mut [T], v: &[T], mut f: F)
where
    F: FnMut(&mut T, &T),
{
    debug_assert_eq!(u.len(), v.len());
    let n = if u.len() < v.len() { u.len() } else { v.len() };
    for i in 0..n {
        f(&mut u[i], &v[i]);
    }
}
pub fn vec_bin_op<F, T: Copy>(u: &[T], v: &[T], mut f: F) -> Vec<T>
where
    F: FnMut(T, T) -> T,
{
    debug_assert_eq!(u.len(), v.len());
    let n = if u.len() < v.len() { u.len() } else { v.len() };
    (0..n).map(|i| f(u[i], v[i])).collect()
}
pub fn vec_sum<T: Copy + Zero + Add<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> {
    vec_bin_op(u, v, |x, y| x + y)
}
pub fn vec_sub<T: Copy + std::ops::Sub<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> {
    vec_bin_op(u, v, |x, y| x - y)
}
pub fn ele_mul<T: Copy + Mul<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> {
    vec_bin_op(u, v, |x, y| x * y)
}
pub fn ele_div<T: Copy + std::ops::Div<T, Output = T>>(u: &[T], v: &[T]) -> Vec<T> {
    vec_bin_op(u, v, |x, y| x / y)
}
pub fn argmax<T: Copy + PartialOrd>(u: &[T]) -> (usize, T) {
    assert!(u.len() != 0);
    let mut max_index = 0;
    let mut max = u[max_index];
    for (i, v) in u.iter().enumerate().skip(1) {
        if max < *v {
            max_index = i;
            max = *v;
        }
    }
    (max_index, max)
}
pub fn argmin<T: Copy + PartialOrd>(u: &[T]) -> (usize, T) {
    assert!(u.len() != 0);
    let mut min_index = 0;
    let mut min = u[min_index];
    for (i, v) in u.iter().enumerate().skip(1) {
        if min > *v {
            min_index = i;
            min = *v;
        }
    }
    (min_index, min)
}
pub fn find<T: PartialEq>(p: &[T], u: T) -> usize {
    for (i, v) in p.iter().enumerate() {
        if *v == u {
            return i;
        }
    }
    panic!("Value not found.")
}
