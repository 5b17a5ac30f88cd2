#![allow(warnings)]
#[path = "/repo/crates/bls-gadgets/src/utils.rs"]
pub mod utils;
