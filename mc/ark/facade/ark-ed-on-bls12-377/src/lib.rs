//! Facade over the stand-in for arkworks, see /verif/DESIGN.md.
pub use mark::curves::Fr as Fq;
