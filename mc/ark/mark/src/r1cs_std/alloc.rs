use crate::ff::Field;
use crate::relations::{Namespace, SynthesisError};
use std::borrow::Borrow;
#[derive(Eq, PartialEq, Ord, PartialOrd, Debug, Copy, Clone)]
pub enum AllocationMode {
    Constant = 0,
    Input = 1,
    Witness = 2,
}
impl AllocationMode {
    pub fn max(&self, o: Self) -> Self {
        std::cmp::max(*self, o)
    }
}
pub trait AllocVar<V, F: Field>
where
    Self: Sized,
    V: ?Sized,
{
    fn new_variable<T: Borrow<V>>(
        cs: impl Into<Namespace<F>>,
        f: impl FnOnce() -> Result<T, SynthesisError>,
        mode: AllocationMode,
    ) -> Result<Self, SynthesisError>;
    fn new_constant(cs: impl Into<Namespace<F>>, t: impl Borrow<V>) -> Result<Self, SynthesisError> {
        Self::new_variable(cs, || Ok(t), AllocationMode::Constant)
    }
    fn new_input<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>) -> Result<Self, SynthesisError> {
        Self::new_variable(cs, f, AllocationMode::Input)
    }
    fn new_witness<T: Borrow<V>>(cs: impl Into<Namespace<F>>, f: impl FnOnce() -> Result<T, SynthesisError>) -> Result<Self, SynthesisError> {
        Self::new_variable(cs, f, AllocationMode::Witness)
    }
}
impl<I, F: Field, A: AllocVar<I, F>> AllocVar<[I], F> for Vec<A> {
    fn new_variable<T: Borrow<[I]>>(
        cs: impl Into<Namespace<F>>,
        f: impl FnOnce() -> Result<T, SynthesisError>,
        mode: AllocationMode,
    ) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        let v = f()?;
        v.borrow().iter().map(|x| A::new_variable(cs.clone(), || Ok(x), mode)).collect()
    }
}
