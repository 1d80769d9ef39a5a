//! Reference models, written from the C standard, independently of the code under test.
pub mod cexpr;
pub mod cpp;
pub mod ctype;
pub mod lit;
pub mod rexpr;
pub mod rlit;
pub mod stmt;
pub mod tree;
