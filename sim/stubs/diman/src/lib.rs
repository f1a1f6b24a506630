//! Stand-in for the `diman` crate (a git dependency that is not available
//! offline): same surface as far as subsweep uses it.
pub use diman_macros::dimension;
pub use diman_macros::unit_system;

pub type Quotient<A, B> = <A as core::ops::Div<B>>::Output;
pub type Product<A, B> = <A as core::ops::Mul<B>>::Output;
