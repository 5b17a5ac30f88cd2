//! Ideal cyclic groups in discrete-log representation, and pairing engines over them. Used for
//! (a) small prime orders, where every group element can be enumerated, and (b) as placeholder for
//! BW6-761, whose group elements the repository never touches.
use crate::ec::*;
use crate::ff::*;
use crate::serialize::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt::{self, Debug, Display};
use std::io::{Read, Result as IoResult, Write};
use std::iter::Sum;
use std::ops::*;

/// The element `self.0 * G` of a cyclic group of order |F|.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ToyPoint<F: PrimeField, const TAG: usize>(pub F);
macro_rules! t {
    () => {
        ToyPoint<F, TAG>
    };
}
impl<F: PrimeField, const TAG: usize> Display for t!() {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl<F: PrimeField, const TAG: usize> Default for t!() {
    fn default() -> Self {
        Self::zero()
    }
}
impl<F: PrimeField, const TAG: usize> Zero for t!() {
    fn zero() -> Self {
        ToyPoint(F::zero())
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
}
impl<F: PrimeField, const TAG: usize> Neg for t!() {
    type Output = Self;
    fn neg(self) -> Self {
        ToyPoint(-self.0)
    }
}
macro_rules! op {
    ($T:ident $f:ident $TA:ident $fa:ident $o:tt) => {
        impl<F: PrimeField, const TAG: usize> $T<Self> for t!() {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                ToyPoint(self.0 $o o.0)
            }
        }
        impl<'a, F: PrimeField, const TAG: usize> $T<&'a Self> for t!() {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                ToyPoint(self.0 $o o.0)
            }
        }
        impl<F: PrimeField, const TAG: usize> $TA<Self> for t!() {
            fn $fa(&mut self, o: Self) {
                *self = *self $o o
            }
        }
        impl<'a, F: PrimeField, const TAG: usize> $TA<&'a Self> for t!() {
            fn $fa(&mut self, o: &'a Self) {
                *self = *self $o *o
            }
        }
    };
}
op!(Add add AddAssign add_assign +);
op!(Sub sub SubAssign sub_assign -);
impl<F: PrimeField, const TAG: usize> MulAssign<F> for t!() {
    fn mul_assign(&mut self, o: F) {
        self.0 *= o
    }
}
impl<F: PrimeField, const TAG: usize> Sum<Self> for t!() {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: PrimeField, const TAG: usize> Sum<&'a Self> for t!() {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: PrimeField, const TAG: usize> ToBytes for t!() {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.0.write(w)
    }
}
impl<F: PrimeField, const TAG: usize> FromBytes for t!() {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        F::read(r).map(ToyPoint)
    }
}
impl<F: PrimeField, const TAG: usize> CanonicalSerialize for t!() {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.0.serialize(w)
    }
    fn serialized_size(&self) -> usize {
        self.0.serialized_size()
    }
}
impl<F: PrimeField, const TAG: usize> CanonicalDeserialize for t!() {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        F::deserialize(r).map(ToyPoint)
    }
}
impl<F: PrimeField, const TAG: usize> Distribution<t!()> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> t!() {
        ToyPoint(F::rand(rng))
    }
}
impl<F: PrimeField, const TAG: usize> ProjectiveCurve for t!() {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = F;
    type BaseField = F;
    type Affine = Self;
    fn prime_subgroup_generator() -> Self {
        ToyPoint(F::one())
    }
    fn batch_normalization(_: &mut [Self]) {}
    fn is_normalized(&self) -> bool {
        true
    }
    fn double_in_place(&mut self) -> &mut Self {
        self.0 = self.0 + self.0;
        self
    }
    fn add_assign_mixed(&mut self, o: &Self) {
        *self += o
    }
}
impl<F: PrimeField, const TAG: usize> AffineCurve for t!() {
    const COFACTOR: &'static [u64] = &[1];
    type ScalarField = F;
    type BaseField = F;
    type Projective = Self;
    fn prime_subgroup_generator() -> Self {
        ToyPoint(F::one())
    }
    fn from_random_bytes(b: &[u8]) -> Option<Self> {
        F::from_random_bytes(b).map(ToyPoint)
    }
}
pub trait ToyCfg: 'static + Copy + Debug + Send + Sync + Eq {
    type Fr: PrimeField;
    type Fqk: Field;
    /// An element of order |Fr| of Fqk.
    fn gt() -> Self::Fqk;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ToyEngine<C>(pub C);
impl<C: ToyCfg> PairingEngine for ToyEngine<C> {
    type Fr = C::Fr;
    type G1Projective = ToyPoint<C::Fr, 1>;
    type G1Affine = ToyPoint<C::Fr, 1>;
    type G1Prepared = ToyPoint<C::Fr, 1>;
    type G2Projective = ToyPoint<C::Fr, 2>;
    type G2Affine = ToyPoint<C::Fr, 2>;
    type G2Prepared = ToyPoint<C::Fr, 2>;
    type Fq = C::Fr;
    type Fqe = C::Fr;
    type Fqk = C::Fqk;
    fn miller_loop<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>,
    {
        let e: C::Fr = i.into_iter().fold(C::Fr::zero(), |acc, (a, b)| acc + a.0 * b.0);
        C::gt().pow(e.into_repr())
    }
    fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk> {
        Some(*f)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub struct Bw6Cfg;
impl ToyCfg for Bw6Cfg {
    type Fr = crate::curves::Fq;
    type Fqk = crate::curves::Fq2;
    fn gt() -> Self::Fqk {
        unimplemented!("BW6-761 pairings are not modelled")
    }
}
#[allow(non_camel_case_types)]
pub type BW6_761 = ToyEngine<Bw6Cfg>;
