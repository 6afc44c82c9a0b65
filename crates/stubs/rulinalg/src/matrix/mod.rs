use crate::error::{Error, ErrorKind};
use crate::norm::MatrixNorm;
use crate::utils;
use crate::vector::Vector;
use num::{Float, FromPrimitive, One, Zero};
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;

pub mod decomposition;
mod ops;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Axes {
    Row,
    Col,
}

#[derive(Debug, PartialEq, Eq, Hash)]
pub struct Matrix<T> {
    rows: usize,
    cols: usize,
    data: Vec<T>,
}
impl<T: Clone> Clone for Matrix<T> {
    fn clone(&self) -> Matrix<T> {
        Matrix { rows: self.rows, cols: self.cols, data: self.data.clone() }
    }
}

#[derive(Debug)]
pub struct MatrixSlice<'a, T: 'a> {
    ptr: *const T,
    rows: usize,
    cols: usize,
    row_stride: usize,
    marker: PhantomData<&'a T>,
}
impl<'a, T> Clone for MatrixSlice<'a, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'a, T> Copy for MatrixSlice<'a, T> {}

#[derive(Debug)]
pub struct MatrixSliceMut<'a, T: 'a> {
    ptr: *mut T,
    rows: usize,
    cols: usize,
    row_stride: usize,
    marker: PhantomData<&'a mut T>,
}

#[derive(Debug, Clone, Copy)]
pub struct Row<'a, T: 'a> {
    row: MatrixSlice<'a, T>,
}
#[derive(Debug)]
pub struct RowMut<'a, T: 'a> {
    row: MatrixSliceMut<'a, T>,
}
#[derive(Debug, Clone, Copy)]
pub struct Column<'a, T: 'a> {
    col: MatrixSlice<'a, T>,
}
#[derive(Debug)]
pub struct ColumnMut<'a, T: 'a> {
    col: MatrixSliceMut<'a, T>,
}
impl<'a, T: 'a> Row<'a, T> {
    pub fn raw_slice(&self) -> &'a [T] {
        unsafe { std::slice::from_raw_parts(self.row.ptr, self.row.cols) }
    }
}
impl<'a, T: 'a> RowMut<'a, T> {
    pub fn raw_slice(&self) -> &'a [T] {
        unsafe { std::slice::from_raw_parts(self.row.ptr, self.row.cols) }
    }
    pub fn raw_slice_mut(&mut self) -> &'a mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.row.ptr, self.row.cols) }
    }
}
impl<'a, T: 'a> Index<usize> for Row<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.raw_slice()[i]
    }
}
impl<'a, T: 'a> Index<usize> for RowMut<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.raw_slice()[i]
    }
}
impl<'a, T: 'a> IndexMut<usize> for RowMut<'a, T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.raw_slice_mut()[i]
    }
}
impl<'a, T: 'a> Index<usize> for Column<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.col[[i, 0]]
    }
}
impl<'a, T: 'a> Index<usize> for ColumnMut<'a, T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        &self.col[[i, 0]]
    }
}
impl<'a, T: 'a> IndexMut<usize> for ColumnMut<'a, T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        &mut self.col[[i, 0]]
    }
}
macro_rules! deref {
    ($t:ident $f:ident $o:ident) => {
        impl<'a, T> Deref for $t<'a, T> {
            type Target = $o<'a, T>;
            fn deref(&self) -> &$o<'a, T> {
                &self.$f
            }
        }
    };
    (mut $t:ident $f:ident $o:ident) => {
        deref!($t $f $o);
        impl<'a, T> DerefMut for $t<'a, T> {
            fn deref_mut(&mut self) -> &mut $o<'a, T> {
                &mut self.$f
            }
        }
    };
}
deref!(Row row MatrixSlice);
deref!(mut RowMut row MatrixSliceMut);
deref!(Column col MatrixSlice);
deref!(mut ColumnMut col MatrixSliceMut);

pub struct SliceIter<'a, T: 'a> {
    m: MatrixSlice<'a, T>,
    i: usize,
}
impl<'a, T> Clone for SliceIter<'a, T> {
    fn clone(&self) -> Self {
        SliceIter { m: self.m, i: self.i }
    }
}
impl<'a, T: 'a> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let n = self.m.rows * self.m.cols;
        if self.i >= n {
            return None;
        }
        let (r, c) = (self.i / self.m.cols, self.i % self.m.cols);
        self.i += 1;
        unsafe { Some(&*self.m.ptr.add(r * self.m.row_stride + c)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.m.rows * self.m.cols - self.i;
        (n, Some(n))
    }
}
impl<'a, T: 'a> ExactSizeIterator for SliceIter<'a, T> {}
pub struct SliceIterMut<'a, T: 'a> {
    ptr: *mut T,
    rows: usize,
    cols: usize,
    row_stride: usize,
    i: usize,
    marker: PhantomData<&'a mut T>,
}
impl<'a, T: 'a> Iterator for SliceIterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        if self.i >= self.rows * self.cols {
            return None;
        }
        let (r, c) = (self.i / self.cols, self.i % self.cols);
        self.i += 1;
        unsafe { Some(&mut *self.ptr.add(r * self.row_stride + c)) }
    }
}
#[derive(Clone)]
pub struct Rows<'a, T: 'a> {
    m: MatrixSlice<'a, T>,
    i: usize,
    e: usize,
}
impl<'a, T: 'a> Rows<'a, T> {
    fn at(&self, i: usize) -> Row<'a, T> {
        unsafe { Row { row: MatrixSlice::raw(self.m.ptr.add(i * self.m.row_stride), 1, self.m.cols, self.m.row_stride) } }
    }
}
impl<'a, T: 'a> Iterator for Rows<'a, T> {
    type Item = Row<'a, T>;
    fn next(&mut self) -> Option<Row<'a, T>> {
        if self.i >= self.e {
            return None;
        }
        self.i += 1;
        Some(self.at(self.i - 1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.e - self.i, Some(self.e - self.i))
    }
}
impl<'a, T: 'a> DoubleEndedIterator for Rows<'a, T> {
    fn next_back(&mut self) -> Option<Row<'a, T>> {
        if self.i >= self.e {
            return None;
        }
        self.e -= 1;
        Some(self.at(self.e))
    }
}
impl<'a, T: 'a> ExactSizeIterator for Rows<'a, T> {}
pub struct RowsMut<'a, T: 'a> {
    ptr: *mut T,
    rows: usize,
    cols: usize,
    row_stride: usize,
    i: usize,
    marker: PhantomData<&'a mut T>,
}
impl<'a, T: 'a> Iterator for RowsMut<'a, T> {
    type Item = RowMut<'a, T>;
    fn next(&mut self) -> Option<RowMut<'a, T>> {
        if self.i >= self.rows {
            return None;
        }
        let i = self.i;
        self.i += 1;
        unsafe {
            Some(RowMut {
                row: MatrixSliceMut {
                    ptr: self.ptr.add(i * self.row_stride),
                    rows: 1,
                    cols: self.cols,
                    row_stride: self.row_stride,
                    marker: PhantomData,
                },
            })
        }
    }
}
#[derive(Clone)]
pub struct Cols<'a, T: 'a> {
    m: MatrixSlice<'a, T>,
    i: usize,
}
impl<'a, T: 'a> Iterator for Cols<'a, T> {
    type Item = Column<'a, T>;
    fn next(&mut self) -> Option<Column<'a, T>> {
        if self.i >= self.m.cols {
            return None;
        }
        let i = self.i;
        self.i += 1;
        unsafe { Some(Column { col: MatrixSlice::raw(self.m.ptr.add(i), self.m.rows, 1, self.m.row_stride) }) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.m.cols - self.i, Some(self.m.cols - self.i))
    }
}
impl<'a, T: 'a> DoubleEndedIterator for Cols<'a, T> {
    fn next_back(&mut self) -> Option<Column<'a, T>> {
        if self.i >= self.m.cols {
            return None;
        }
        self.m.cols -= 1;
        unsafe { Some(Column { col: MatrixSlice::raw(self.m.ptr.add(self.m.cols), self.m.rows, 1, self.m.row_stride) }) }
    }
}
impl<'a, T: 'a> ExactSizeIterator for Cols<'a, T> {
    fn len(&self) -> usize {
        self.m.cols - self.i
    }
}
pub struct ColsMut<'a, T: 'a> {
    ptr: *mut T,
    rows: usize,
    cols: usize,
    row_stride: usize,
    i: usize,
    marker: PhantomData<&'a mut T>,
}
impl<'a, T: 'a> Iterator for ColsMut<'a, T> {
    type Item = ColumnMut<'a, T>;
    fn next(&mut self) -> Option<ColumnMut<'a, T>> {
        if self.i >= self.cols {
            return None;
        }
        let i = self.i;
        self.i += 1;
        unsafe {
            Some(ColumnMut {
                col: MatrixSliceMut { ptr: self.ptr.add(i), rows: self.rows, cols: 1, row_stride: self.row_stride, marker: PhantomData },
            })
        }
    }
}

pub trait BaseMatrix<T>: Sized {
    fn rows(&self) -> usize;
    fn cols(&self) -> usize;
    fn row_stride(&self) -> usize;
    fn as_ptr(&self) -> *const T;

    fn is_empty(&self) -> bool {
        self.rows() == 0 || self.cols() == 0
    }
    fn as_slice(&self) -> MatrixSlice<T> {
        MatrixSlice { ptr: self.as_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData }
    }
    unsafe fn get_unchecked(&self, index: [usize; 2]) -> &T {
        // bounds are checked here so that an out-of-range access is observable
        assert!(index[0] < self.rows() && index[1] < self.cols(), "unchecked matrix access out of bounds");
        &*self.as_ptr().add(index[0] * self.row_stride() + index[1])
    }
    fn get(&self, index: [usize; 2]) -> Option<&T> {
        if index[0] < self.rows() && index[1] < self.cols() {
            unsafe { Some(self.get_unchecked(index)) }
        } else {
            None
        }
    }
    fn iter<'a>(&self) -> SliceIter<'a, T>
    where
        T: 'a,
    {
        SliceIter { m: MatrixSlice { ptr: self.as_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData }, i: 0 }
    }
    fn row_iter(&self) -> Rows<T> {
        Rows { m: self.as_slice(), i: 0, e: self.rows() }
    }
    fn col_iter(&self) -> Cols<T> {
        Cols { m: self.as_slice(), i: 0 }
    }
    fn row(&self, index: usize) -> Row<T> {
        assert!(index < self.rows(), "Row index out of bounds.");
        unsafe { self.row_unchecked(index) }
    }
    unsafe fn row_unchecked(&self, index: usize) -> Row<T> {
        assert!(index < self.rows(), "unchecked row access out of bounds");
        Row { row: MatrixSlice::raw(self.as_ptr().add(index * self.row_stride()), 1, self.cols(), self.row_stride()) }
    }
    fn col(&self, index: usize) -> Column<T> {
        assert!(index < self.cols(), "Column index out of bounds.");
        unsafe { self.col_unchecked(index) }
    }
    unsafe fn col_unchecked(&self, index: usize) -> Column<T> {
        assert!(index < self.cols(), "unchecked column access out of bounds");
        Column { col: MatrixSlice::raw(self.as_ptr().add(index), self.rows(), 1, self.row_stride()) }
    }
    fn get_row(&self, index: usize) -> Option<&[T]> {
        if index < self.rows() {
            unsafe { Some(std::slice::from_raw_parts(self.as_ptr().add(index * self.row_stride()), self.cols())) }
        } else {
            None
        }
    }
    fn sub_slice<'a>(&'a self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T>
    where
        T: 'a,
    {
        MatrixSlice::from_matrix(self, start, rows, cols)
    }
    fn norm<N: MatrixNorm<T, Self>>(&self, norm: N) -> T
    where
        T: Float,
    {
        norm.norm(self)
    }
    fn into_matrix(self) -> Matrix<T>
    where
        T: Copy,
    {
        self.iter().cloned().collect::<Vec<T>>().into_matrix(self.rows(), self.cols())
    }
    fn select(&self, rows: &[usize], cols: &[usize]) -> Matrix<T>
    where
        T: Copy,
    {
        let mut d = Vec::with_capacity(rows.len() * cols.len());
        for &r in rows {
            for &c in cols {
                assert!(r < self.rows(), "Row index is greater than number of rows.");
                assert!(c < self.cols(), "Column index is greater than number of columns.");
                d.push(unsafe { *self.get_unchecked([r, c]) });
            }
        }
        Matrix::new(rows.len(), cols.len(), d)
    }
    fn select_rows<'a, I>(&self, rows: I) -> Matrix<T>
    where
        T: Copy,
        I: IntoIterator<Item = &'a usize>,
        I::IntoIter: ExactSizeIterator + Clone,
    {
        let it = rows.into_iter();
        let n = it.len();
        let mut d = Vec::with_capacity(n * self.cols());
        for &r in it {
            assert!(r < self.rows(), "Row index is greater than number of rows.");
            for c in 0..self.cols() {
                d.push(unsafe { *self.get_unchecked([r, c]) });
            }
        }
        Matrix::new(n, self.cols(), d)
    }
    fn select_cols<'a, I>(&self, cols: I) -> Matrix<T>
    where
        T: Copy,
        I: IntoIterator<Item = &'a usize>,
        I::IntoIter: ExactSizeIterator + Clone,
    {
        let it = cols.into_iter();
        let n = it.len();
        let mut d = Vec::with_capacity(n * self.rows());
        for r in 0..self.rows() {
            for &c in it.clone() {
                assert!(c < self.cols(), "Column index is greater than number of columns.");
                d.push(unsafe { *self.get_unchecked([r, c]) });
            }
        }
        Matrix::new(self.rows(), n, d)
    }
    fn sum_rows(&self) -> Vector<T>
    where
        T: Copy + Zero + Add<T, Output = T>,
    {
        let mut s = vec![T::zero(); self.cols()];
        for r in self.row_iter() {
            for (j, x) in r.raw_slice().iter().enumerate() {
                s[j] = s[j] + *x;
            }
        }
        Vector::new(s)
    }
    fn sum_cols(&self) -> Vector<T>
    where
        T: Copy + Zero + Add<T, Output = T>,
    {
        Vector::new(self.row_iter().map(|r| utils::unrolled_sum(r.raw_slice())).collect::<Vec<T>>())
    }
    fn sum(&self) -> T
    where
        T: Copy + Zero + Add<T, Output = T>,
    {
        self.iter().fold(T::zero(), |a, b| a + *b)
    }
    fn min(&self, axis: Axes) -> Vector<T>
    where
        T: Copy + PartialOrd,
    {
        self.reduce(axis, |a, b| if b < a { b } else { a })
    }
    fn max(&self, axis: Axes) -> Vector<T>
    where
        T: Copy + PartialOrd,
    {
        self.reduce(axis, |a, b| if b > a { b } else { a })
    }
    fn reduce<G: Fn(T, T) -> T>(&self, axis: Axes, f: G) -> Vector<T>
    where
        T: Copy,
    {
        let (n, m) = match axis {
            Axes::Row => (self.cols(), self.rows()),
            Axes::Col => (self.rows(), self.cols()),
        };
        let at = |i: usize, j: usize| unsafe {
            match axis {
                Axes::Row => *self.get_unchecked([j, i]),
                Axes::Col => *self.get_unchecked([i, j]),
            }
        };
        Vector::new(
            (0..n)
                .map(|i| {
                    let mut a = at(i, 0);
                    for j in 1..m {
                        a = f(a, at(i, j));
                    }
                    a
                })
                .collect::<Vec<T>>(),
        )
    }
    fn mean(&self, axis: Axes) -> Vector<T>
    where
        T: Float + FromPrimitive,
    {
        let (m, n): (Vector<T>, usize) = match axis {
            Axes::Row => (self.sum_rows(), self.rows()),
            Axes::Col => (self.sum_cols(), self.cols()),
        };
        let k: T = FromPrimitive::from_usize(n).unwrap();
        m / k
    }
    fn variance(&self, axis: Axes) -> Result<Vector<T>, Error>
    where
        T: Float + FromPrimitive,
    {
        let mean = self.mean(axis);
        let (n, m) = match axis {
            Axes::Row => (self.rows(), self.cols()),
            Axes::Col => (self.cols(), self.rows()),
        };
        if n < 2 {
            return Err(Error::new(ErrorKind::InvalidArg, "There must be at least two rows or columns in the working axis."));
        }
        let mut v = vec![T::zero(); m];
        for i in 0..n {
            for j in 0..m {
                let x = unsafe {
                    match axis {
                        Axes::Row => *self.get_unchecked([i, j]),
                        Axes::Col => *self.get_unchecked([j, i]),
                    }
                };
                let d = x - mean[j];
                v[j] = v[j] + d * d;
            }
        }
        let k: T = FromPrimitive::from_usize(n - 1).unwrap();
        Ok(Vector::new(v) / k)
    }
    fn elemul(&self, m: &Matrix<T>) -> Matrix<T>
    where
        T: Copy + Mul<T, Output = T>,
    {
        assert!(self.rows() == m.rows() && self.cols() == m.cols(), "Matrix dimensions do not match.");
        Matrix::new(self.rows(), self.cols(), self.iter().zip(m.iter()).map(|(a, b)| *a * *b).collect::<Vec<T>>())
    }
    fn elediv(&self, m: &Matrix<T>) -> Matrix<T>
    where
        T: Copy + Div<T, Output = T>,
    {
        assert!(self.rows() == m.rows() && self.cols() == m.cols(), "Matrix dimensions do not match.");
        Matrix::new(self.rows(), self.cols(), self.iter().zip(m.iter()).map(|(a, b)| *a / *b).collect::<Vec<T>>())
    }
    fn transpose(&self) -> Matrix<T>
    where
        T: Copy,
    {
        let mut d = Vec::with_capacity(self.rows() * self.cols());
        for j in 0..self.cols() {
            for i in 0..self.rows() {
                d.push(unsafe { *self.get_unchecked([i, j]) });
            }
        }
        Matrix::new(self.cols(), self.rows(), d)
    }
    fn hcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T>
    where
        T: Copy,
    {
        assert!(self.rows() == m.rows(), "Matrix row counts are not equal.");
        let mut d = Vec::with_capacity(self.rows() * (self.cols() + m.cols()));
        for i in 0..self.rows() {
            unsafe {
                for j in 0..self.cols() {
                    d.push(*self.get_unchecked([i, j]));
                }
                for j in 0..m.cols() {
                    d.push(*m.get_unchecked([i, j]));
                }
            }
        }
        Matrix::new(self.rows(), self.cols() + m.cols(), d)
    }
    fn vcat<S: BaseMatrix<T>>(&self, m: &S) -> Matrix<T>
    where
        T: Copy,
    {
        assert!(self.cols() == m.cols(), "Matrix column counts are not equal.");
        let d: Vec<T> = self.iter().chain(m.iter()).cloned().collect();
        Matrix::new(self.rows() + m.rows(), self.cols(), d)
    }
    fn diag(&self) -> std::vec::IntoIter<&T> {
        let n = std::cmp::min(self.rows(), self.cols());
        let v: Vec<&T> = (0..n).map(|i| unsafe { self.get_unchecked([i, i]) }).collect();
        v.into_iter()
    }
    fn is_diag(&self) -> bool
    where
        T: Zero + PartialEq,
    {
        for i in 0..self.rows() {
            for j in 0..self.cols() {
                if i != j && unsafe { *self.get_unchecked([i, j]) != T::zero() } {
                    return false;
                }
            }
        }
        true
    }
    fn solve_u_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error>
    where
        T: Float,
    {
        assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
        let n = y.size();
        let mut x = y.into_vec();
        for i in (0..n).rev() {
            let mut s = x[i];
            for j in i + 1..n {
                s = s - unsafe { *self.get_unchecked([i, j]) } * x[j];
            }
            let d = unsafe { *self.get_unchecked([i, i]) };
            if d == T::zero() {
                return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular)."));
            }
            x[i] = s / d;
        }
        Ok(Vector::new(x))
    }
    fn solve_l_triangular(&self, y: Vector<T>) -> Result<Vector<T>, Error>
    where
        T: Float,
    {
        assert!(self.cols() == y.size(), "Vector size {0} != {1} Matrix column count.", y.size(), self.cols());
        let n = y.size();
        let mut x = y.into_vec();
        for i in 0..n {
            let mut s = x[i];
            for j in 0..i {
                s = s - unsafe { *self.get_unchecked([i, j]) } * x[j];
            }
            let d = unsafe { *self.get_unchecked([i, i]) };
            if d == T::zero() {
                return Err(Error::new(ErrorKind::AlgebraFailure, "Linear system cannot be solved (matrix is singular)."));
            }
            x[i] = s / d;
        }
        Ok(Vector::new(x))
    }
    fn split_at(&self, mid: usize, axis: Axes) -> (MatrixSlice<T>, MatrixSlice<T>) {
        match axis {
            Axes::Row => {
                assert!(mid < self.rows());
                (
                    MatrixSlice::from_matrix(self, [0, 0], mid, self.cols()),
                    MatrixSlice::from_matrix(self, [mid, 0], self.rows() - mid, self.cols()),
                )
            }
            Axes::Col => {
                assert!(mid < self.cols());
                (
                    MatrixSlice::from_matrix(self, [0, 0], self.rows(), mid),
                    MatrixSlice::from_matrix(self, [0, mid], self.rows(), self.cols() - mid),
                )
            }
        }
    }
}

trait VecInto<T> {
    fn into_matrix(self, r: usize, c: usize) -> Matrix<T>;
}
impl<T> VecInto<T> for Vec<T> {
    fn into_matrix(self, r: usize, c: usize) -> Matrix<T> {
        Matrix::new(r, c, self)
    }
}

pub trait BaseMatrixMut<T>: BaseMatrix<T> {
    fn as_mut_ptr(&mut self) -> *mut T;
    fn as_mut_slice(&mut self) -> MatrixSliceMut<T> {
        MatrixSliceMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), marker: PhantomData }
    }
    unsafe fn get_unchecked_mut(&mut self, index: [usize; 2]) -> &mut T {
        assert!(index[0] < self.rows() && index[1] < self.cols(), "unchecked matrix access out of bounds");
        let s = self.row_stride();
        &mut *self.as_mut_ptr().add(index[0] * s + index[1])
    }
    fn get_mut(&mut self, index: [usize; 2]) -> Option<&mut T> {
        if index[0] < self.rows() && index[1] < self.cols() {
            unsafe { Some(self.get_unchecked_mut(index)) }
        } else {
            None
        }
    }
    fn iter_mut<'a>(&mut self) -> SliceIterMut<'a, T>
    where
        T: 'a,
    {
        SliceIterMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), i: 0, marker: PhantomData }
    }
    fn row_iter_mut(&mut self) -> RowsMut<T> {
        RowsMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), i: 0, marker: PhantomData }
    }
    fn col_iter_mut(&mut self) -> ColsMut<T> {
        ColsMut { ptr: self.as_mut_ptr(), rows: self.rows(), cols: self.cols(), row_stride: self.row_stride(), i: 0, marker: PhantomData }
    }
    fn row_mut(&mut self, index: usize) -> RowMut<T> {
        assert!(index < self.rows(), "Row index out of bounds.");
        unsafe { self.row_unchecked_mut(index) }
    }
    unsafe fn row_unchecked_mut(&mut self, index: usize) -> RowMut<T> {
        assert!(index < self.rows(), "unchecked row access out of bounds");
        let (c, s) = (self.cols(), self.row_stride());
        RowMut { row: MatrixSliceMut { ptr: self.as_mut_ptr().add(index * s), rows: 1, cols: c, row_stride: s, marker: PhantomData } }
    }
    fn col_mut(&mut self, index: usize) -> ColumnMut<T> {
        assert!(index < self.cols(), "Column index out of bounds.");
        let (r, s) = (self.rows(), self.row_stride());
        unsafe { ColumnMut { col: MatrixSliceMut { ptr: self.as_mut_ptr().add(index), rows: r, cols: 1, row_stride: s, marker: PhantomData } } }
    }
    fn get_row_mut(&mut self, index: usize) -> Option<&mut [T]> {
        if index < self.rows() {
            let (c, s) = (self.cols(), self.row_stride());
            unsafe { Some(std::slice::from_raw_parts_mut(self.as_mut_ptr().add(index * s), c)) }
        } else {
            None
        }
    }
    fn swap_rows(&mut self, a: usize, b: usize) {
        assert!(a < self.rows());
        assert!(b < self.rows());
        if a != b {
            let (c, s) = (self.cols(), self.row_stride());
            unsafe {
                for j in 0..c {
                    std::ptr::swap(self.as_mut_ptr().add(a * s + j), self.as_mut_ptr().add(b * s + j));
                }
            }
        }
    }
    fn swap_cols(&mut self, a: usize, b: usize) {
        assert!(a < self.cols());
        assert!(b < self.cols());
        if a != b {
            let (r, s) = (self.rows(), self.row_stride());
            unsafe {
                for i in 0..r {
                    std::ptr::swap(self.as_mut_ptr().add(i * s + a), self.as_mut_ptr().add(i * s + b));
                }
            }
        }
    }
    fn set_to<M: BaseMatrix<T>>(self, target: M)
    where
        T: Copy,
    {
        let mut s = self;
        for (mut r, t) in s.row_iter_mut().zip(target.row_iter()) {
            r.raw_slice_mut().copy_from_slice(t.raw_slice());
        }
    }
    fn apply(mut self, f: &dyn Fn(T) -> T) -> Self
    where
        T: Copy,
    {
        for x in self.iter_mut() {
            *x = f(*x);
        }
        self
    }
}

impl<T> BaseMatrix<T> for Matrix<T> {
    fn rows(&self) -> usize {
        self.rows
    }
    fn cols(&self) -> usize {
        self.cols
    }
    fn row_stride(&self) -> usize {
        self.cols
    }
    fn as_ptr(&self) -> *const T {
        self.data.as_ptr()
    }
}
impl<T> BaseMatrixMut<T> for Matrix<T> {
    fn as_mut_ptr(&mut self) -> *mut T {
        self.data.as_mut_ptr()
    }
}
macro_rules! base {
    ($t:ident) => {
        impl<'a, T> BaseMatrix<T> for $t<'a, T> {
            fn rows(&self) -> usize {
                self.rows
            }
            fn cols(&self) -> usize {
                self.cols
            }
            fn row_stride(&self) -> usize {
                self.row_stride
            }
            fn as_ptr(&self) -> *const T {
                self.ptr as *const T
            }
        }
        impl<'a, T> Index<[usize; 2]> for $t<'a, T> {
            type Output = T;
            fn index(&self, i: [usize; 2]) -> &T {
                assert!(i[0] < self.rows, "Row index is greater than row count");
                assert!(i[1] < self.cols, "Column index is greater than column count");
                unsafe { &*self.ptr.add(i[0] * self.row_stride + i[1]) }
            }
        }
    };
}
base!(MatrixSlice);
base!(MatrixSliceMut);
impl<'a, T> BaseMatrixMut<T> for MatrixSliceMut<'a, T> {
    fn as_mut_ptr(&mut self) -> *mut T {
        self.ptr
    }
}
impl<'a, T> IndexMut<[usize; 2]> for MatrixSliceMut<'a, T> {
    fn index_mut(&mut self, i: [usize; 2]) -> &mut T {
        assert!(i[0] < self.rows && i[1] < self.cols);
        unsafe { &mut *self.ptr.add(i[0] * self.row_stride + i[1]) }
    }
}
impl<T> Index<[usize; 2]> for Matrix<T> {
    type Output = T;
    fn index(&self, i: [usize; 2]) -> &T {
        assert!(i[0] < self.rows, "Row index is greater than row count");
        assert!(i[1] < self.cols, "Column index is greater than column count");
        &self.data[i[0] * self.cols + i[1]]
    }
}
impl<T> IndexMut<[usize; 2]> for Matrix<T> {
    fn index_mut(&mut self, i: [usize; 2]) -> &mut T {
        assert!(i[0] < self.rows, "Row index is greater than row count");
        assert!(i[1] < self.cols, "Column index is greater than column count");
        &mut self.data[i[0] * self.cols + i[1]]
    }
}

impl<'a, T: 'a> MatrixSlice<'a, T> {
    unsafe fn raw(ptr: *const T, rows: usize, cols: usize, row_stride: usize) -> MatrixSlice<'a, T> {
        MatrixSlice { ptr: ptr, rows: rows, cols: cols, row_stride: row_stride, marker: PhantomData }
    }
    pub fn from_matrix<M: BaseMatrix<T>>(mat: &'a M, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> {
        assert!(start[0] + rows <= mat.rows(), "View dimensions exceed matrix dimensions.");
        assert!(start[1] + cols <= mat.cols(), "View dimensions exceed matrix dimensions.");
        unsafe { MatrixSlice::raw(mat.as_ptr().add(start[0] * mat.row_stride() + start[1]), rows, cols, mat.row_stride()) }
    }
    pub unsafe fn from_raw_parts(ptr: *const T, rows: usize, cols: usize, row_stride: usize) -> MatrixSlice<'a, T> {
        MatrixSlice::raw(ptr, rows, cols, row_stride)
    }
    pub fn reslice(mut self, start: [usize; 2], rows: usize, cols: usize) -> MatrixSlice<'a, T> {
        assert!(start[0] + rows <= self.rows && start[1] + cols <= self.cols);
        unsafe {
            self.ptr = self.ptr.add(start[0] * self.row_stride + start[1]);
        }
        self.rows = rows;
        self.cols = cols;
        self
    }
    pub fn raw_slice(&self) -> &'a [T] {
        assert!(self.rows == 1 || self.cols == self.row_stride);
        unsafe { std::slice::from_raw_parts(self.ptr, self.rows * self.cols) }
    }
}
impl<'a, T: 'a> MatrixSliceMut<'a, T> {
    pub fn from_matrix<M: BaseMatrixMut<T>>(mat: &'a mut M, start: [usize; 2], rows: usize, cols: usize) -> MatrixSliceMut<'a, T> {
        assert!(start[0] + rows <= mat.rows(), "View dimensions exceed matrix dimensions.");
        assert!(start[1] + cols <= mat.cols(), "View dimensions exceed matrix dimensions.");
        let s = mat.row_stride();
        unsafe { MatrixSliceMut { ptr: mat.as_mut_ptr().add(start[0] * s + start[1]), rows: rows, cols: cols, row_stride: s, marker: PhantomData } }
    }
    pub unsafe fn from_raw_parts(ptr: *mut T, rows: usize, cols: usize, row_stride: usize) -> MatrixSliceMut<'a, T> {
        MatrixSliceMut { ptr: ptr, rows: rows, cols: cols, row_stride: row_stride, marker: PhantomData }
    }
}

impl<T> Matrix<T> {
    pub fn new<U: Into<Vec<T>>>(rows: usize, cols: usize, data: U) -> Matrix<T> {
        let d = data.into();
        assert!(cols * rows == d.len(), "Data does not match given dimensions.");
        Matrix { rows: rows, cols: cols, data: d }
    }
    pub fn from_fn<F: FnMut(usize, usize) -> T>(rows: usize, cols: usize, mut f: F) -> Matrix<T> {
        // rulinalg calls f(column, row)
        let mut d = Vec::with_capacity(rows * cols);
        for i in 0..rows {
            for j in 0..cols {
                d.push(f(j, i));
            }
        }
        Matrix { rows: rows, cols: cols, data: d }
    }
    pub fn data(&self) -> &Vec<T> {
        &self.data
    }
    pub fn mut_data(&mut self) -> &mut [T] {
        &mut self.data
    }
    pub fn into_vec(self) -> Vec<T> {
        self.data
    }
}
impl<T: Clone + Zero> Matrix<T> {
    pub fn zeros(rows: usize, cols: usize) -> Matrix<T> {
        Matrix { rows: rows, cols: cols, data: vec![T::zero(); rows * cols] }
    }
    pub fn from_diag(diag: &[T]) -> Matrix<T> {
        let n = diag.len();
        let mut m = Matrix::zeros(n, n);
        for i in 0..n {
            m.data[i * n + i] = diag[i].clone();
        }
        m
    }
}
impl<T: Clone + One> Matrix<T> {
    pub fn ones(rows: usize, cols: usize) -> Matrix<T> {
        Matrix { rows: rows, cols: cols, data: vec![T::one(); rows * cols] }
    }
}
impl<T: Clone + Zero + One> Matrix<T> {
    pub fn identity(n: usize) -> Matrix<T> {
        Matrix::from_diag(&vec![T::one(); n])
    }
}
impl<T: Copy> Matrix<T> {
    pub fn apply(mut self, f: &dyn Fn(T) -> T) -> Matrix<T> {
        for x in self.data.iter_mut() {
            *x = f(*x);
        }
        self
    }
}
impl<T> Into<Vec<T>> for Matrix<T> {
    fn into(self) -> Vec<T> {
        self.data
    }
}
impl<'a, T: Copy> From<MatrixSlice<'a, T>> for Matrix<T> {
    fn from(s: MatrixSlice<'a, T>) -> Matrix<T> {
        s.into_matrix()
    }
}
impl<'a, T: Copy> From<MatrixSliceMut<'a, T>> for Matrix<T> {
    fn from(s: MatrixSliceMut<'a, T>) -> Matrix<T> {
        s.into_matrix()
    }
}
impl<'a, T: Copy> From<Row<'a, T>> for Matrix<T> {
    fn from(s: Row<'a, T>) -> Matrix<T> {
        s.row.into_matrix()
    }
}
impl<T> From<Vector<T>> for Matrix<T> {
    fn from(v: Vector<T>) -> Matrix<T> {
        Matrix::new(v.size(), 1, v.into_vec())
    }
}
impl<'a, T: Copy> From<Row<'a, T>> for Vector<T> {
    fn from(s: Row<'a, T>) -> Vector<T> {
        Vector::new(s.raw_slice().to_vec())
    }
}
impl<'a, T: Copy> From<Column<'a, T>> for Vector<T> {
    fn from(s: Column<'a, T>) -> Vector<T> {
        Vector::new(s.col.iter().cloned().collect::<Vec<T>>())
    }
}
impl<T: fmt::Display> fmt::Display for Matrix<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for r in self.row_iter() {
            write!(f, "[")?;
            for x in r.raw_slice() {
                write!(f, " {} ", x)?;
            }
            writeln!(f, "]")?;
        }
        Ok(())
    }
}
impl<'a, T: 'a> IntoIterator for MatrixSlice<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> {
        SliceIter { m: self, i: 0 }
    }
}
impl<'a, T: 'a> IntoIterator for MatrixSliceMut<'a, T> {
    type Item = &'a mut T;
    type IntoIter = SliceIterMut<'a, T>;
    fn into_iter(self) -> SliceIterMut<'a, T> {
        SliceIterMut { ptr: self.ptr, rows: self.rows, cols: self.cols, row_stride: self.row_stride, i: 0, marker: PhantomData }
    }
}
impl<'a, T: 'a> IntoIterator for Row<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> {
        self.row.into_iter()
    }
}
impl<'a, T: 'a> IntoIterator for RowMut<'a, T> {
    type Item = &'a mut T;
    type IntoIter = SliceIterMut<'a, T>;
    fn into_iter(self) -> SliceIterMut<'a, T> {
        self.row.into_iter()
    }
}
impl<'a, T: 'a> IntoIterator for Column<'a, T> {
    type Item = &'a T;
    type IntoIter = SliceIter<'a, T>;
    fn into_iter(self) -> SliceIter<'a, T> {
        self.col.into_iter()
    }
}
impl<'a, T: 'a> IntoIterator for ColumnMut<'a, T> {
    type Item = &'a mut T;
    type IntoIter = SliceIterMut<'a, T>;
    fn into_iter(self) -> SliceIterMut<'a, T> {
        self.col.into_iter()
    }
}
impl<'a, T: 'a> IntoIterator for &'a Matrix<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> std::slice::Iter<'a, T> {
        self.data.iter()
    }
}

/// comparison behind `assert_matrix_eq!`
pub fn close<A: AsRows, B: AsRows>(a: &A, b: &B, tol: f64) -> bool {
    let (x, y) = (a.as_rows(), b.as_rows());
    x.0 == y.0 && x.1 == y.1 && x.2.iter().zip(y.2.iter()).all(|(p, q)| (*p - *q).abs() <= tol)
}
pub trait AsRows {
    fn as_rows(&self) -> (usize, usize, Vec<f64>);
}
impl AsRows for Matrix<f64> {
    fn as_rows(&self) -> (usize, usize, Vec<f64>) {
        (self.rows(), self.cols(), self.data().clone())
    }
}
impl<'a, A: AsRows> AsRows for &'a A {
    fn as_rows(&self) -> (usize, usize, Vec<f64>) {
        (**self).as_rows()
    }
}
impl<T: Float + FromPrimitive> Matrix<T> {
    pub fn mean(&self, axis: Axes) -> Vector<T> {
        BaseMatrix::mean(self, axis)
    }
    pub fn variance(&self, axis: Axes) -> Result<Vector<T>, Error> {
        BaseMatrix::variance(self, axis)
    }
}
impl<'a, T: Clone + 'a> std::iter::FromIterator<&'a [T]> for Matrix<T> {
    fn from_iter<I: IntoIterator<Item = &'a [T]>>(i: I) -> Matrix<T> {
        let (mut r, mut c, mut d) = (0, 0, vec![]);
        for x in i {
            if r == 0 {
                c = x.len();
            }
            assert!(x.len() == c, "Rows have different lengths.");
            r += 1;
            d.extend_from_slice(x);
        }
        Matrix::new(r, c, d)
    }
}
