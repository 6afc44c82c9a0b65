use super::*;

macro_rules! mm {
    // element-wise matrix-matrix for a pair of types
    ($tr:ident $m:ident [$($lt:lifetime)*] $a:ty, $b:ty) => {
        impl<$($lt,)* T: Copy + $tr<T, Output = T>> $tr<$b> for $a {
            type Output = Matrix<T>;
            fn $m(self, o: $b) -> Matrix<T> {
                assert!(self.rows() == o.rows(), "Matrix row counts do not match.");
                assert!(self.cols() == o.cols(), "Matrix column counts do not match.");
                Matrix::new(self.rows(), self.cols(), self.iter().zip(o.iter()).map(|(x, y)| (*x).$m(*y)).collect::<Vec<T>>())
            }
        }
    };
}
macro_rules! prod {
    ([$($lt:lifetime)*] $a:ty, $b:ty) => {
        impl<$($lt,)* T: Copy + Zero + Mul<T, Output = T> + Add<T, Output = T>> Mul<$b> for $a {
            type Output = Matrix<T>;
            fn mul(self, o: $b) -> Matrix<T> {
                assert!(self.cols() == o.rows(), "Matrix dimensions do not agree.");
                let (n, k, m) = (self.rows(), self.cols(), o.cols());
                let mut d = Vec::with_capacity(n * m);
                for i in 0..n {
                    for j in 0..m {
                        let mut s = T::zero();
                        for l in 0..k {
                            s = s + unsafe { *self.get_unchecked([i, l]) * *o.get_unchecked([l, j]) };
                        }
                        d.push(s);
                    }
                }
                Matrix::new(n, m, d)
            }
        }
    };
}
macro_rules! pairs {
    ($mac:ident $($pre:ident)*) => {
        $mac!($($pre)* [] Matrix<T>, Matrix<T>);
        $mac!($($pre)* ['b] Matrix<T>, &'b Matrix<T>);
        $mac!($($pre)* ['a] &'a Matrix<T>, Matrix<T>);
        $mac!($($pre)* ['a 'b] &'a Matrix<T>, &'b Matrix<T>);
        $mac!($($pre)* ['b] Matrix<T>, MatrixSlice<'b, T>);
        $mac!($($pre)* ['b 'c] Matrix<T>, &'c MatrixSlice<'b, T>);
        $mac!($($pre)* ['a 'b] &'a Matrix<T>, MatrixSlice<'b, T>);
        $mac!($($pre)* ['a 'b 'c] &'a Matrix<T>, &'c MatrixSlice<'b, T>);
        $mac!($($pre)* ['a] MatrixSlice<'a, T>, Matrix<T>);
        $mac!($($pre)* ['a 'b] MatrixSlice<'a, T>, &'b Matrix<T>);
        $mac!($($pre)* ['a 'c] &'c MatrixSlice<'a, T>, Matrix<T>);
        $mac!($($pre)* ['a 'b 'c] &'c MatrixSlice<'a, T>, &'b Matrix<T>);
        $mac!($($pre)* ['a 'b] MatrixSlice<'a, T>, MatrixSlice<'b, T>);
        $mac!($($pre)* ['a 'b 'c] MatrixSlice<'a, T>, &'c MatrixSlice<'b, T>);
        $mac!($($pre)* ['a 'b 'c] &'c MatrixSlice<'a, T>, MatrixSlice<'b, T>);
        $mac!($($pre)* ['a 'b 'c 'd] &'c MatrixSlice<'a, T>, &'d MatrixSlice<'b, T>);
        $mac!($($pre)* ['b] Matrix<T>, MatrixSliceMut<'b, T>);
        $mac!($($pre)* ['a 'b] &'a Matrix<T>, MatrixSliceMut<'b, T>);
        $mac!($($pre)* ['a] MatrixSliceMut<'a, T>, Matrix<T>);
        $mac!($($pre)* ['a 'b] MatrixSliceMut<'a, T>, &'b Matrix<T>);
        $mac!($($pre)* ['a 'c] &'c MatrixSliceMut<'a, T>, Matrix<T>);
        $mac!($($pre)* ['a 'b 'c] &'c MatrixSliceMut<'a, T>, &'b Matrix<T>);
    };
}
pairs!(mm Add add);
pairs!(mm Sub sub);
pairs!(prod);

macro_rules! sc {
    ($tr:ident $m:ident [$($lt:lifetime)*] $a:ty) => {
        impl<$($lt,)* T: Copy + $tr<T, Output = T>> $tr<T> for $a {
            type Output = Matrix<T>;
            fn $m(self, o: T) -> Matrix<T> {
                Matrix::new(self.rows(), self.cols(), self.iter().map(|x| (*x).$m(o)).collect::<Vec<T>>())
            }
        }
        impl<$($lt,)* 's, T: Copy + $tr<T, Output = T>> $tr<&'s T> for $a {
            type Output = Matrix<T>;
            fn $m(self, o: &'s T) -> Matrix<T> {
                Matrix::new(self.rows(), self.cols(), self.iter().map(|x| (*x).$m(*o)).collect::<Vec<T>>())
            }
        }
    };
}
macro_rules! scs {
    ($tr:ident $m:ident) => {
        sc!($tr $m [] Matrix<T>);
        sc!($tr $m ['a] &'a Matrix<T>);
        sc!($tr $m ['a] MatrixSlice<'a, T>);
        sc!($tr $m ['a 'b] &'b MatrixSlice<'a, T>);
        sc!($tr $m ['a] MatrixSliceMut<'a, T>);
        sc!($tr $m ['a 'b] &'b MatrixSliceMut<'a, T>);
    };
}
scs!(Add add);
scs!(Sub sub);
scs!(Mul mul);
scs!(Div div);
scs!(Rem rem);

macro_rules! neg {
    ([$($lt:lifetime)*] $a:ty) => {
        impl<$($lt,)* T: Copy + Neg<Output = T>> Neg for $a {
            type Output = Matrix<T>;
            fn neg(self) -> Matrix<T> {
                Matrix::new(self.rows(), self.cols(), self.iter().map(|x| -*x).collect::<Vec<T>>())
            }
        }
    };
}
neg!([] Matrix<T>);
neg!(['a] &'a Matrix<T>);
neg!(['a] MatrixSlice<'a, T>);

macro_rules! mv {
    ([$($lt:lifetime)*] $a:ty, $b:ty) => {
        impl<$($lt,)* T: Copy + Zero + Mul<T, Output = T> + Add<T, Output = T>> Mul<$b> for $a {
            type Output = Vector<T>;
            fn mul(self, o: $b) -> Vector<T> {
                assert!(o.size() == self.cols(), "Matrix and Vector dimensions do not agree.");
                let mut d = Vec::with_capacity(self.rows());
                for i in 0..self.rows() {
                    let mut s = T::zero();
                    for j in 0..self.cols() {
                        s = s + unsafe { *self.get_unchecked([i, j]) } * o[j];
                    }
                    d.push(s);
                }
                Vector::new(d)
            }
        }
    };
}
mv!([] Matrix<T>, Vector<T>);
mv!(['b] Matrix<T>, &'b Vector<T>);
mv!(['a] &'a Matrix<T>, Vector<T>);
mv!(['a 'b] &'a Matrix<T>, &'b Vector<T>);
mv!(['a] MatrixSlice<'a, T>, Vector<T>);
mv!(['a 'b] MatrixSlice<'a, T>, &'b Vector<T>);
mv!(['a 'c] &'c MatrixSlice<'a, T>, Vector<T>);
mv!(['a 'b 'c] &'c MatrixSlice<'a, T>, &'b Vector<T>);

macro_rules! asg {
    ($tr:ident $m:ident $op:ident $o:ident [$($lt:lifetime)*] $a:ty, $b:ty) => {
        impl<$($lt,)* T: Copy + $op<T, Output = T>> $tr<$b> for $a {
            fn $m(&mut self, o: $b) {
                assert!(self.rows() == o.rows(), "Matrix row counts do not match.");
                assert!(self.cols() == o.cols(), "Matrix column counts do not match.");
                for (x, y) in self.iter_mut().zip(o.iter()) {
                    *x = (*x).$o(*y);
                }
            }
        }
    };
}
macro_rules! asgs {
    ($tr:ident $m:ident $op:ident $o:ident) => {
        asg!($tr $m $op $o [] Matrix<T>, Matrix<T>);
        asg!($tr $m $op $o ['b] Matrix<T>, &'b Matrix<T>);
        asg!($tr $m $op $o ['b] Matrix<T>, MatrixSlice<'b, T>);
        asg!($tr $m $op $o ['b 'c] Matrix<T>, &'c MatrixSlice<'b, T>);
        asg!($tr $m $op $o ['a] MatrixSliceMut<'a, T>, Matrix<T>);
        asg!($tr $m $op $o ['a 'b] MatrixSliceMut<'a, T>, &'b Matrix<T>);
        asg!($tr $m $op $o ['a 'b] MatrixSliceMut<'a, T>, MatrixSlice<'b, T>);
        asg!($tr $m $op $o ['a 'b 'c] MatrixSliceMut<'a, T>, &'c MatrixSlice<'b, T>);
    };
}
asgs!(AddAssign add_assign Add add);
asgs!(SubAssign sub_assign Sub sub);
macro_rules! asc {
    ($tr:ident $m:ident $op:ident $o:ident [$($lt:lifetime)*] $a:ty) => {
        impl<$($lt,)* T: Copy + $op<T, Output = T>> $tr<T> for $a {
            fn $m(&mut self, o: T) {
                for x in self.iter_mut() {
                    *x = (*x).$o(o);
                }
            }
        }
        impl<$($lt,)* 's, T: Copy + $op<T, Output = T>> $tr<&'s T> for $a {
            fn $m(&mut self, o: &'s T) {
                for x in self.iter_mut() {
                    *x = (*x).$o(*o);
                }
            }
        }
    };
}
macro_rules! ascs {
    ($tr:ident $m:ident $op:ident $o:ident) => {
        asc!($tr $m $op $o [] Matrix<T>);
        asc!($tr $m $op $o ['a] MatrixSliceMut<'a, T>);
    };
}
ascs!(AddAssign add_assign Add add);
ascs!(SubAssign sub_assign Sub sub);
ascs!(MulAssign mul_assign Mul mul);
ascs!(DivAssign div_assign Div div);
ascs!(RemAssign rem_assign Rem rem);
