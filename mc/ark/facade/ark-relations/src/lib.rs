//! Facade over the stand-in for arkworks, see /verif/DESIGN.md.
pub use mark::{lc, ns};
pub mod r1cs {
    pub use mark::relations::*;
    pub use mark::{lc, ns};
    pub type Result<T> = core::result::Result<T, SynthesisError>;
}
