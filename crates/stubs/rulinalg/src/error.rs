use std::boxed::Box;
use std::error;
use std::fmt;

#[derive(Debug)]
pub struct Error {
    kind: ErrorKind,
    error: Box<dyn error::Error + Send + Sync>,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrorKind {
    InvalidArg,
    DecompFailure,
    DivByZero,
    AlgebraFailure,
    ScalarConvert,
    InvalidState,
}
impl Error {
    pub fn new<E>(kind: ErrorKind, error: E) -> Error
    where
        E: Into<Box<dyn error::Error + Send + Sync>>,
    {
        Error { kind: kind, error: error.into() }
    }
    pub fn kind(&self) -> &ErrorKind {
        &self.kind
    }
}
impl error::Error for Error {
    fn description(&self) -> &str {
        "linear algebra error"
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.error.fmt(f)
    }
}
