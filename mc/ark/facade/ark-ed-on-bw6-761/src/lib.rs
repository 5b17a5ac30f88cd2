//! Facade over the stand-in for arkworks, see /verif/DESIGN.md.
pub use mark::curves::ed_on_bw6_761::*;
