//! Facade over the stand-in for arkworks, see /verif/DESIGN.md.
pub use mark::std_shim::*;
pub use mark::{end_timer, start_timer};
pub use std::*;
pub use mark::ff::UniformRand;
pub use rand;
pub mod io {
    pub use std::io::*;
}
