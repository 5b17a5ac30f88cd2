//! Stand-in for ark-r1cs-std. Library gadgets are ideal: their outputs are the native results of their
//! input values (fully constrained), and every value the prover may choose goes through
//! `relations::choose`. Expressions the repository writes itself are evaluated as real constraints.
use crate::ff::Field;
use crate::relations::{ConstraintSystemRef, SynthesisError};
use std::fmt::Debug;
pub mod alloc;
pub mod bits;
pub mod eq;
pub mod fields;
pub mod groups;
pub mod pairing;
pub mod select;
pub use bits::{boolean, uint, uint8, uint16, uint32, uint64};
pub use bits::{ToBitsGadget, ToBytesGadget};
pub trait R1CSVar<F: Field> {
    type Value: Debug + Eq + Clone;
    fn cs(&self) -> ConstraintSystemRef<F>;
    fn is_constant(&self) -> bool {
        self.cs().is_none()
    }
    fn value(&self) -> Result<Self::Value, SynthesisError>;
}
impl<F: Field, T: R1CSVar<F>> R1CSVar<F> for [T] {
    type Value = Vec<T::Value>;
    fn cs(&self) -> ConstraintSystemRef<F> {
        let mut r = ConstraintSystemRef::None;
        for v in self {
            r = v.cs().or(r);
        }
        r
    }
    fn value(&self) -> Result<Self::Value, SynthesisError> {
        self.iter().map(|v| v.value()).collect()
    }
}
impl<'a, F: Field, T: 'a + R1CSVar<F>> R1CSVar<F> for &'a T {
    type Value = T::Value;
    fn cs(&self) -> ConstraintSystemRef<F> {
        (*self).cs()
    }
    fn value(&self) -> Result<Self::Value, SynthesisError> {
        (*self).value()
    }
}
impl<F: Field, T: R1CSVar<F>, const N: usize> R1CSVar<F> for [T; N] {
    type Value = Vec<T::Value>;
    fn cs(&self) -> ConstraintSystemRef<F> {
        self[..].cs()
    }
    fn value(&self) -> Result<Self::Value, SynthesisError> {
        self[..].value()
    }
}
pub trait Assignment<T> {
    fn get(self) -> Result<T, SynthesisError>;
}
impl<T> Assignment<T> for Option<T> {
    fn get(self) -> Result<T, SynthesisError> {
        self.ok_or(SynthesisError::AssignmentMissing)
    }
}
pub trait FromCS {}
pub mod prelude {
    pub use super::alloc::*;
    pub use super::bits::boolean::Boolean;
    pub use super::bits::uint32::UInt32;
    pub use super::bits::uint8::UInt8;
    pub use super::bits::{ToBitsGadget, ToBytesGadget};
    pub use super::eq::*;
    pub use super::fields::{FieldOpsBounds, FieldVar};
    pub use super::groups::{CurveVar, GroupOpsBounds};
    pub use super::pairing::PairingVar;
    pub use super::select::*;
    pub use super::R1CSVar;
}
