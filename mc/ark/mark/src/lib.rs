//! A small, slow, readable stand-in for the parts of arkworks (commits pinned by the repository's
//! Cargo.lock, not available here) that celo-bls-snark-rs uses. See /verif/DESIGN.md, "mini-ark".
#![allow(clippy::all)]
#[macro_use]
pub mod ff;
pub mod ec;
pub mod curves;
pub mod serialize;
pub mod toy;
pub mod std_shim;
pub mod relations;
pub mod r1cs_std;
pub mod crypto_primitives;
pub mod groth16;
