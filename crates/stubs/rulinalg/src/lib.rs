//! Environment model of `rulinalg` 0.4 (the linear algebra dependency of rusty-machine):
//! row-major dense matrices with the documented behaviour of every operation, exact small
//! decompositions (cofactor inverse/determinant, textbook Cholesky), and a contract model of the SVD.
#![allow(dead_code)]
pub mod error;
#[macro_use]
mod macros;
pub mod matrix;
pub mod norm;
pub mod utils;
pub mod vector;
