//! Harness library: symbolic-input API, tree generator with a shadow model, and
//! independent well-formedness / comparison oracles over lumberjack's public API.
#![allow(clippy::all)]

pub mod model;
pub mod sym;
pub use model::*;
pub use sym::*;
