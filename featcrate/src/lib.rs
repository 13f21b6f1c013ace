#![no_std]
pub use vecmat::*;
