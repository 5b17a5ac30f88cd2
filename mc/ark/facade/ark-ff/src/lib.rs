//! Facade over the stand-in for arkworks, see /verif/DESIGN.md.
pub use mark::ff::*;
pub use mark::{field_new, push_to_vec, to_bytes};
pub use mark::serialize as ark_serialize_internal;
pub mod fields {
    pub use mark::ff::*;
    pub mod models {
        pub use mark::ff::*;
    }
}
pub mod biginteger {
    pub use mark::ff::*;
}
pub mod bytes {
    pub use mark::ff::{FromBytes, ToBytes};
    pub use mark::to_bytes;
}
pub mod prelude {
    pub use mark::ff::{batch_inversion, BigInteger, BitIteratorBE, BitIteratorLE, Field, FpParameters, FromBytes, One, PrimeField, SquareRootField, ToBytes, UniformRand, Zero};
}
