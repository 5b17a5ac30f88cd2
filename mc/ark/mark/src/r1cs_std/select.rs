use super::bits::boolean::Boolean;
use crate::ff::Field;
use crate::relations::SynthesisError;
pub trait CondSelectGadget<F: Field>
where
    Self: Sized,
    Self: Clone,
{
    fn conditionally_select(cond: &Boolean<F>, true_value: &Self, false_value: &Self) -> Result<Self, SynthesisError>;
}
