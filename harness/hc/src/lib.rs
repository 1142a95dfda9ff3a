//! Shared parts of the fyi verification harness: the property runner, the
//! reference models (ANSI grammar, colors, terminal) and text generators.
//! Nothing in here depends on the code under test.

pub mod ansi;
pub mod colors;
pub mod engine;
pub mod gens;
pub mod num;
pub mod vt;

pub use engine::{Obs, Prop, tire};
pub use proptest;
pub use serde;
pub use serde_json;
