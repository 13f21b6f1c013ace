//! Runtime-monitoring harness for vecmat: case runner, hostile value
//! generators, exact scalar types and independent reference oracles.
#![allow(clippy::all)]

pub mod gen;
pub mod mon;
pub mod refs;
pub mod types;
pub mod wide;

pub use gen::*;
pub use mon::*;
pub use refs::*;
pub use types::*;
pub use wide::Wide;
