#[macro_export]
macro_rules! vector {
    () => { $crate::vector::Vector::new(vec![]) };
    ($($x:expr),*) => { $crate::vector::Vector::new(vec![$($x),*]) };
    ($($x:expr,)*) => { vector!($($x),*) };
    ($x:expr; $n:expr) => { $crate::vector::Vector::new(vec![$x; $n]) };
}
#[macro_export]
macro_rules! matrix {
    () => { $crate::matrix::Matrix::new(0, 0, vec![]) };
    ($( $( $x:expr ),+ );+) => {{
        let rows: Vec<Vec<_>> = vec![ $( vec![ $( $x ),+ ] ),+ ];
        let r = rows.len();
        let c = rows[0].len();
        let data: Vec<_> = rows.into_iter().flat_map(|v| v).collect();
        $crate::matrix::Matrix::new(r, c, data)
    }};
}
#[macro_export]
macro_rules! assert_matrix_eq {
    ($x:expr, $y:expr $(, comp = exact)?) => { assert!($crate::matrix::close(&$x, &$y, 0.0)) };
    ($x:expr, $y:expr, comp = abs, tol = $t:expr) => { assert!($crate::matrix::close(&$x, &$y, $t)) };
    ($x:expr, $y:expr, comp = $c:ident $(, $($r:tt)*)?) => { assert!($crate::matrix::close(&$x, &$y, 1e-12)) };
}
#[macro_export]
macro_rules! assert_vector_eq {
    ($x:expr, $y:expr $(, comp = exact)?) => { assert!($crate::vector::close(&$x, &$y, 0.0)) };
    ($x:expr, $y:expr, comp = abs, tol = $t:expr) => { assert!($crate::vector::close(&$x, &$y, $t)) };
    ($x:expr, $y:expr, comp = $c:ident $(, $($r:tt)*)?) => { assert!($crate::vector::close(&$x, &$y, 1e-12)) };
}
