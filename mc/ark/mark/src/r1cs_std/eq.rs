use super::bits::boolean::Boolean;
use super::R1CSVar;
use crate::ff::{Field, PrimeField};
use crate::relations::SynthesisError;
pub trait EqGadget<F: Field> {
    fn is_eq(&self, other: &Self) -> Result<Boolean<F>, SynthesisError>;
    fn is_neq(&self, other: &Self) -> Result<Boolean<F>, SynthesisError> {
        Ok(self.is_eq(other)?.not())
    }
    fn conditional_enforce_equal(&self, other: &Self, should_enforce: &Boolean<F>) -> Result<(), SynthesisError> {
        self.is_eq(other)?.conditional_enforce_equal(&Boolean::Constant(true), should_enforce)
    }
    fn enforce_equal(&self, other: &Self) -> Result<(), SynthesisError> {
        self.conditional_enforce_equal(other, &Boolean::Constant(true))
    }
    fn conditional_enforce_not_equal(&self, other: &Self, should_enforce: &Boolean<F>) -> Result<(), SynthesisError> {
        self.is_neq(other)?.conditional_enforce_equal(&Boolean::Constant(true), should_enforce)
    }
    fn enforce_not_equal(&self, other: &Self) -> Result<(), SynthesisError> {
        self.conditional_enforce_not_equal(other, &Boolean::Constant(true))
    }
}
impl<T: EqGadget<F> + R1CSVar<F>, F: PrimeField> EqGadget<F> for [T] {
    fn is_eq(&self, other: &Self) -> Result<Boolean<F>, SynthesisError> {
        assert_eq!(self.len(), other.len());
        let v = self.iter().zip(other).map(|(a, b)| a.is_eq(b)).collect::<Result<Vec<_>, _>>()?;
        if v.is_empty() {
            return Ok(Boolean::Constant(true));
        }
        Boolean::kary_and(&v)
    }
    fn conditional_enforce_equal(&self, other: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
        assert_eq!(self.len(), other.len());
        self.iter().zip(other).try_for_each(|(a, b)| a.conditional_enforce_equal(b, c))
    }
}
impl<T: EqGadget<F> + R1CSVar<F>, F: PrimeField> EqGadget<F> for Vec<T> {
    fn is_eq(&self, other: &Self) -> Result<Boolean<F>, SynthesisError> {
        self.as_slice().is_eq(other)
    }
    fn conditional_enforce_equal(&self, other: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
        self.as_slice().conditional_enforce_equal(other, c)
    }
}
