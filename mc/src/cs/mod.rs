//! Runs C# programs: a client's runtime together with generated code.

pub mod bcl;
pub mod check;
pub mod eval;
pub mod fast;
pub mod load;
pub mod syntax;
