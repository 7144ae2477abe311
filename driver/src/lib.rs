//! Concrete evaluation of the public API against an independent reference.
pub mod algs;
pub mod mv;
pub mod refalg;
pub mod rings;
pub mod run;
pub use algs::*;
pub use mv::*;
pub use refalg::*;
pub use rings::*;
pub use num::complex::{Complex32, Complex64};
pub use run::*;
