#![allow(unused_imports)]
pub use mc_std::*;
