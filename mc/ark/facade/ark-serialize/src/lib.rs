//! Facade over the stand-in for arkworks, see /verif/DESIGN.md.
pub use mark::serialize::*;
#[cfg(feature = "derive")]
pub use ark_serialize_derive::*;
