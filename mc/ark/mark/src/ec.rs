//! Stand-in for ark-ec: curve traits, short Weierstrass and twisted Edwards
//! groups, a pairing engine trait and the BLS12 family.
use crate::ff::*;
use crate::serialize::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::fmt::{self, Debug, Display};
use std::hash::{Hash, Hasher};
use std::io::{Read, Result as IoResult, Write};
use std::iter::Sum;
use std::marker::PhantomData;
use std::ops::*;

pub trait ModelParameters: Send + Sync + 'static {
    type BaseField: Field + SquareRootField;
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
}
pub trait SWModelParameters: ModelParameters {
    const COFACTOR: &'static [u64];
    fn coeff_a() -> Self::BaseField;
    fn coeff_b() -> Self::BaseField;
    fn generator() -> (Self::BaseField, Self::BaseField);
    #[inline]
    fn mul_by_a(elem: &Self::BaseField) -> Self::BaseField {
        let a = Self::coeff_a();
        if a.is_zero() {
            return Self::BaseField::zero();
        }
        *elem * &a
    }
    #[inline]
    fn add_b(elem: &Self::BaseField) -> Self::BaseField {
        *elem + &Self::coeff_b()
    }
}
pub trait TEModelParameters: ModelParameters {
    const COFACTOR: &'static [u64];
    fn coeff_a() -> Self::BaseField;
    fn coeff_d() -> Self::BaseField;
    fn generator() -> (Self::BaseField, Self::BaseField);
    fn mul_by_a(elem: &Self::BaseField) -> Self::BaseField {
        *elem * &Self::coeff_a()
    }
}

/// Additive group (ark_ec::group::Group).
pub trait Group:
    CanonicalSerialize
    + CanonicalDeserialize
    + Copy
    + Clone
    + Debug
    + Default
    + Eq
    + Hash
    + Neg<Output = Self>
    + UniformRand
    + Zero
    + Add<Self, Output = Self>
    + Sub<Self, Output = Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + AddAssign<Self>
    + SubAssign<Self>
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + Send
    + Sync
    + 'static
{
    type ScalarField: PrimeField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    fn double(&self) -> Self;
    fn double_in_place(&mut self) -> &mut Self;
    fn mul<'a>(&self, other: &'a Self::ScalarField) -> Self {
        let mut copy = *self;
        copy.mul_assign(*other);
        copy
    }
    fn mul_assign(&mut self, other: Self::ScalarField) {
        let mut res = Self::zero();
        for i in BitIteratorBE::without_leading_zeros(other.into_repr()) {
            res.double_in_place();
            if i {
                res += *self;
            }
        }
        *self = res;
    }
}

pub trait ProjectiveCurve:
    Eq
    + 'static
    + Sized
    + ToBytes
    + FromBytes
    + CanonicalSerialize
    + CanonicalDeserialize
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + Hash
    + Debug
    + Display
    + UniformRand
    + Zero
    + Neg<Output = Self>
    + Add<Self, Output = Self>
    + Sub<Self, Output = Self>
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + AddAssign<Self>
    + SubAssign<Self>
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + MulAssign<<Self as ProjectiveCurve>::ScalarField>
    + Sum<Self>
    + for<'a> Sum<&'a Self>
    + From<<Self as ProjectiveCurve>::Affine>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Affine: AffineCurve<Projective = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn batch_normalization(v: &mut [Self]);
    fn batch_normalization_into_affine(v: &[Self]) -> Vec<Self::Affine> {
        v.iter().map(|p| p.into_affine()).collect()
    }
    fn is_normalized(&self) -> bool;
    fn double(&self) -> Self {
        let mut c = *self;
        c.double_in_place();
        c
    }
    fn double_in_place(&mut self) -> &mut Self;
    fn into_affine(&self) -> Self::Affine {
        (*self).into()
    }
    fn add_mixed(mut self, other: &Self::Affine) -> Self {
        self.add_assign_mixed(other);
        self
    }
    fn add_assign_mixed(&mut self, other: &Self::Affine);
    fn mul<S: AsRef<[u64]>>(mut self, other: S) -> Self {
        let mut res = Self::zero();
        for b in BitIteratorBE::without_leading_zeros(other) {
            res.double_in_place();
            if b {
                res += self;
            }
        }
        self = res;
        self
    }
}
pub trait AffineCurve:
    Eq
    + 'static
    + Sized
    + ToBytes
    + FromBytes
    + CanonicalSerialize
    + CanonicalDeserialize
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + Hash
    + Debug
    + Display
    + Zero
    + Neg<Output = Self>
    + From<<Self as AffineCurve>::Projective>
{
    const COFACTOR: &'static [u64];
    type ScalarField: PrimeField + SquareRootField + Into<<Self::ScalarField as PrimeField>::BigInt>;
    type BaseField: Field;
    type Projective: ProjectiveCurve<Affine = Self, ScalarField = Self::ScalarField, BaseField = Self::BaseField> + From<Self> + Into<Self>;
    fn prime_subgroup_generator() -> Self;
    fn from_random_bytes(bytes: &[u8]) -> Option<Self>;
    fn into_projective(&self) -> Self::Projective {
        (*self).into()
    }
    fn mul<S: Into<<Self::ScalarField as PrimeField>::BigInt>>(&self, other: S) -> Self::Projective {
        self.into_projective().mul(other.into())
    }
    fn mul_by_cofactor_to_projective(&self) -> Self::Projective {
        self.into_projective().mul(Self::COFACTOR)
    }
    fn mul_by_cofactor(&self) -> Self {
        self.mul_by_cofactor_to_projective().into()
    }
}

macro_rules! group_ops {
    ($G:ident, $P:ident) => {
        impl<P: $P> Add<$G<P>> for $G<P> {
            type Output = $G<P>;
            fn add(mut self, o: $G<P>) -> $G<P> {
                self.add_assign(&o);
                self
            }
        }
        impl<'a, P: $P> Add<&'a $G<P>> for $G<P> {
            type Output = $G<P>;
            fn add(mut self, o: &'a $G<P>) -> $G<P> {
                self.add_assign(o);
                self
            }
        }
        impl<P: $P> Sub<$G<P>> for $G<P> {
            type Output = $G<P>;
            fn sub(mut self, o: $G<P>) -> $G<P> {
                self.add_assign(&-o);
                self
            }
        }
        impl<'a, P: $P> Sub<&'a $G<P>> for $G<P> {
            type Output = $G<P>;
            fn sub(mut self, o: &'a $G<P>) -> $G<P> {
                self.add_assign(&-*o);
                self
            }
        }
        impl<P: $P> AddAssign<$G<P>> for $G<P> {
            fn add_assign(&mut self, o: $G<P>) {
                AddAssign::<&$G<P>>::add_assign(self, &o)
            }
        }
        impl<P: $P> SubAssign<$G<P>> for $G<P> {
            fn sub_assign(&mut self, o: $G<P>) {
                AddAssign::<&$G<P>>::add_assign(self, &-o)
            }
        }
        impl<'a, P: $P> SubAssign<&'a $G<P>> for $G<P> {
            fn sub_assign(&mut self, o: &'a $G<P>) {
                AddAssign::<&$G<P>>::add_assign(self, &-*o)
            }
        }
        impl<P: $P> MulAssign<P::ScalarField> for $G<P> {
            fn mul_assign(&mut self, o: P::ScalarField) {
                *self = ProjectiveCurve::mul(*self, o.into_repr())
            }
        }
        impl<P: $P> Sum<$G<P>> for $G<P> {
            fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
                iter.fold(Self::zero(), |a, b| a + b)
            }
        }
        impl<'a, P: $P> Sum<&'a $G<P>> for $G<P> {
            fn sum<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
                iter.fold(Self::zero(), |a, b| a + b)
            }
        }
        impl<P: $P> Default for $G<P> {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl<P: $P> Group for $G<P> {
            type ScalarField = P::ScalarField;
            fn double(&self) -> Self {
                ProjectiveCurve::double(self)
            }
            fn double_in_place(&mut self) -> &mut Self {
                ProjectiveCurve::double_in_place(self)
            }
        }
        impl<P: $P> Clone for $G<P> {
            fn clone(&self) -> Self {
                *self
            }
        }
        impl<P: $P> Copy for $G<P> {}
        impl<P: $P> Eq for $G<P> {}
        impl<P: $P> Debug for $G<P> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                Debug::fmt(&ProjectiveCurve::into_affine(self), f)
            }
        }
        impl<P: $P> Display for $G<P> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                Display::fmt(&ProjectiveCurve::into_affine(self), f)
            }
        }
    };
}

pub mod short_weierstrass_jacobian {
    use super::*;
    pub struct GroupAffine<P: SWModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub infinity: bool,
        _params: PhantomData<P>,
    }
    impl<P: SWModelParameters> Clone for GroupAffine<P> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<P: SWModelParameters> Copy for GroupAffine<P> {}
    impl<P: SWModelParameters> PartialEq for GroupAffine<P> {
        fn eq(&self, o: &Self) -> bool {
            self.x == o.x && self.y == o.y && self.infinity == o.infinity
        }
    }
    impl<P: SWModelParameters> Eq for GroupAffine<P> {}
    impl<P: SWModelParameters> Hash for GroupAffine<P> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.x.hash(h);
            self.y.hash(h);
            self.infinity.hash(h)
        }
    }
    impl<P: SWModelParameters> Debug for GroupAffine<P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            Display::fmt(self, f)
        }
    }
    impl<P: SWModelParameters> Display for GroupAffine<P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            if self.infinity {
                write!(f, "GroupAffine(Infinity)")
            } else {
                write!(f, "GroupAffine(x={:?}, y={:?})", self.x, self.y)
            }
        }
    }
    impl<P: SWModelParameters> Default for GroupAffine<P> {
        fn default() -> Self {
            Self::zero()
        }
    }
    impl<P: SWModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, infinity: bool) -> Self {
            Self { x, y, infinity, _params: PhantomData }
        }
        pub fn scale_by_cofactor(&self) -> GroupProjective<P> {
            self.mul_bits(BitIteratorBE::new(P::COFACTOR))
        }
        pub fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> GroupProjective<P> {
            let mut res = GroupProjective::zero();
            for b in bits {
                ProjectiveCurve::double_in_place(&mut res);
                if b {
                    res.add_assign_mixed(self)
                }
            }
            res
        }
        pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
            let x3b = P::add_b(&((x.square() * &x) + &P::mul_by_a(&x)));
            x3b.sqrt().map(|y| {
                let negy = -y;
                let y = if (y < negy) ^ greatest { y } else { negy };
                Self::new(x, y, false)
            })
        }
        pub fn is_on_curve(&self) -> bool {
            self.infinity || self.y.square() == P::add_b(&((self.x.square() * &self.x) + &P::mul_by_a(&self.x)))
        }
        pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool {
            self.mul_bits(BitIteratorBE::new(<P::ScalarField as PrimeField>::modulus_limbs())).is_zero()
        }
    }
    impl<P: SWModelParameters> Zero for GroupAffine<P> {
        fn zero() -> Self {
            Self::new(P::BaseField::zero(), P::BaseField::one(), true)
        }
        fn is_zero(&self) -> bool {
            self.infinity
        }
    }
    impl<P: SWModelParameters> Add<Self> for GroupAffine<P> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            (self.into_projective() + o.into_projective()).into()
        }
    }
    impl<'a, P: SWModelParameters> AddAssign<&'a Self> for GroupAffine<P> {
        fn add_assign(&mut self, o: &'a Self) {
            *self = *self + *o
        }
    }
    impl<P: SWModelParameters> Neg for GroupAffine<P> {
        type Output = Self;
        fn neg(self) -> Self {
            if self.infinity {
                self
            } else {
                Self::new(self.x, -self.y, false)
            }
        }
    }
    impl<P: SWModelParameters> AffineCurve for GroupAffine<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type BaseField = P::BaseField;
        type ScalarField = P::ScalarField;
        type Projective = GroupProjective<P>;
        fn prime_subgroup_generator() -> Self {
            let (x, y) = P::generator();
            Self::new(x, y, false)
        }
        fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
            P::BaseField::from_random_bytes_with_flags::<SWFlags>(bytes).and_then(|(x, flags)| {
                if x.is_zero() && flags.is_infinity() {
                    Some(Self::zero())
                } else {
                    flags.is_positive().and_then(|p| Self::get_point_from_x(x, p))
                }
            })
        }
    }
    impl<P: SWModelParameters> ToBytes for GroupAffine<P> {
        fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
            self.x.write(&mut w)?;
            self.y.write(&mut w)?;
            self.infinity.write(&mut w)
        }
    }
    impl<P: SWModelParameters> FromBytes for GroupAffine<P> {
        fn read<R: Read>(mut r: R) -> IoResult<Self> {
            let x: P::BaseField = FromBytes::read(&mut r)?;
            let y: P::BaseField = FromBytes::read(&mut r)?;
            let infinity = bool::read(&mut r)?;
            if infinity != (x.is_zero() && y.is_one()) {
                return Err(error("Infinity flag is not consistent"));
            }
            Ok(Self::new(x, y, infinity))
        }
    }
    impl<P: SWModelParameters> CanonicalSerialize for GroupAffine<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            if self.is_zero() {
                P::BaseField::zero().serialize_with_flags(w, SWFlags::infinity())
            } else {
                self.x.serialize_with_flags(w, SWFlags::from_y_sign(self.y > -self.y))
            }
        }
        fn serialized_size(&self) -> usize {
            P::BaseField::zero().serialized_size_with_flags::<SWFlags>()
        }
        fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
            // the sign bit is only written in the compressed form
            let flags = if self.is_zero() {
                SWFlags::infinity()
            } else {
                SWFlags::default()
            };
            CanonicalSerialize::serialize(&self.x, &mut w)?;
            self.y.serialize_with_flags(&mut w, flags)
        }
        fn uncompressed_size(&self) -> usize {
            self.x.serialized_size() + self.y.serialized_size_with_flags::<SWFlags>()
        }
    }
    impl<P: SWModelParameters> CanonicalDeserialize for GroupAffine<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            let (x, flags): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
            if flags.is_infinity() {
                Ok(Self::zero())
            } else {
                let p = Self::get_point_from_x(x, flags.is_positive().unwrap()).ok_or(SerializationError::InvalidData)?;
                if !p.is_in_correct_subgroup_assuming_on_curve() {
                    return Err(SerializationError::InvalidData);
                }
                Ok(p)
            }
        }
        fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> {
            let p = Self::deserialize_unchecked(r)?;
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return Err(SerializationError::InvalidData);
            }
            Ok(p)
        }
        fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
            let x: P::BaseField = CanonicalDeserialize::deserialize(&mut r)?;
            let (y, flags): (P::BaseField, SWFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(&mut r)?;
            Ok(Self::new(x, y, flags.is_infinity()))
        }
    }

    pub struct GroupProjective<P: SWModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub z: P::BaseField,
        _params: PhantomData<P>,
    }
    impl<P: SWModelParameters> GroupProjective<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, z: P::BaseField) -> Self {
            Self { x, y, z, _params: PhantomData }
        }
    }
    group_ops!(GroupProjective, SWModelParameters);
    impl<P: SWModelParameters> PartialEq for GroupProjective<P> {
        fn eq(&self, o: &Self) -> bool {
            if self.is_zero() {
                return o.is_zero();
            }
            if o.is_zero() {
                return false;
            }
            let z1 = self.z.square();
            let z2 = o.z.square();
            self.x * &z2 == o.x * &z1 && self.y * &(z2 * &o.z) == o.y * &(z1 * &self.z)
        }
    }
    impl<P: SWModelParameters> Hash for GroupProjective<P> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.x.hash(h);
            self.y.hash(h);
            self.z.hash(h)
        }
    }
    impl<P: SWModelParameters> Zero for GroupProjective<P> {
        fn zero() -> Self {
            Self::new(P::BaseField::one(), P::BaseField::one(), P::BaseField::zero())
        }
        fn is_zero(&self) -> bool {
            self.z.is_zero()
        }
    }
    impl<P: SWModelParameters> Neg for GroupProjective<P> {
        type Output = Self;
        fn neg(self) -> Self {
            if self.is_zero() {
                self
            } else {
                Self::new(self.x, -self.y, self.z)
            }
        }
    }
    impl<'a, P: SWModelParameters> AddAssign<&'a GroupProjective<P>> for GroupProjective<P> {
        fn add_assign(&mut self, other: &'a Self) {
            sched::add_point();
            if self.is_zero() {
                *self = *other;
                return;
            }
            if other.is_zero() {
                return;
            }
            // add-2007-bl, as in arkworks
            let z1z1 = self.z.square();
            let z2z2 = other.z.square();
            let u1 = self.x * &z2z2;
            let u2 = other.x * &z1z1;
            let s1 = self.y * &other.z * &z2z2;
            let s2 = other.y * &self.z * &z1z1;
            if u1 == u2 && s1 == s2 {
                ProjectiveCurve::double_in_place(self);
            } else {
                let h = u2 - &u1;
                let i = h.double().square();
                let j = h * &i;
                let r = (s2 - &s1).double();
                let v = u1 * &i;
                self.x = r.square() - &j - &v.double();
                self.y = r * &(v - &self.x) - &(s1 * &j).double();
                self.z = ((self.z + &other.z).square() - &z1z1 - &z2z2) * &h;
            }
        }
    }
    impl<P: SWModelParameters> From<GroupAffine<P>> for GroupProjective<P> {
        fn from(p: GroupAffine<P>) -> Self {
            if p.is_zero() {
                Self::zero()
            } else {
                Self::new(p.x, p.y, P::BaseField::one())
            }
        }
    }
    impl<P: SWModelParameters> From<GroupProjective<P>> for GroupAffine<P> {
        fn from(p: GroupProjective<P>) -> Self {
            if p.is_zero() {
                Self::zero()
            } else if p.z.is_one() {
                Self::new(p.x, p.y, false)
            } else {
                let zinv = p.z.inverse().unwrap();
                let z2 = zinv.square();
                Self::new(p.x * &z2, p.y * &(z2 * &zinv), false)
            }
        }
    }
    impl<P: SWModelParameters> ProjectiveCurve for GroupProjective<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type BaseField = P::BaseField;
        type ScalarField = P::ScalarField;
        type Affine = GroupAffine<P>;
        fn prime_subgroup_generator() -> Self {
            GroupAffine::prime_subgroup_generator().into()
        }
        fn is_normalized(&self) -> bool {
            self.is_zero() || self.z.is_one()
        }
        fn batch_normalization(v: &mut [Self]) {
            for p in v.iter_mut() {
                *p = p.into_affine().into();
            }
        }
        fn double_in_place(&mut self) -> &mut Self {
            if self.is_zero() {
                return self;
            }
            if P::coeff_a().is_zero() {
                // dbl-2009-l
                let a = self.x.square();
                let b = self.y.square();
                let c = b.square();
                let d = ((self.x + &b).square() - &a - &c).double();
                let e = a + &a.double();
                let f = e.square();
                self.z = (self.z * &self.y).double();
                self.x = f - &d - &d;
                self.y = (d - &self.x) * &e - &c.double().double().double();
            } else {
                // dbl-2007-bl
                let xx = self.x.square();
                let yy = self.y.square();
                let yyyy = yy.square();
                let zz = self.z.square();
                let s = ((self.x + &yy).square() - &xx - &yyyy).double();
                let m = xx + &xx + &xx + &P::mul_by_a(&zz.square());
                let t = m.square() - &s.double();
                self.z = (self.z + &self.y).square() - &yy - &zz;
                self.y = m * &(s - &t) - &yyyy.double().double().double();
                self.x = t;
            }
            self
        }
        fn add_assign_mixed(&mut self, other: &GroupAffine<P>) {
            if other.is_zero() {
                return;
            }
            if self.is_zero() {
                *self = (*other).into();
                return;
            }
            // madd-2007-bl, as in arkworks
            let z1z1 = self.z.square();
            let u2 = other.x * &z1z1;
            let s2 = other.y * &self.z * &z1z1;
            if self.x == u2 && self.y == s2 {
                ProjectiveCurve::double_in_place(self);
            } else {
                let h = u2 - &self.x;
                let hh = h.square();
                let i = hh.double().double();
                let j = h * &i;
                let r = (s2 - &self.y).double();
                let v = self.x * &i;
                let nx = r.square() - &j - &v.double();
                self.y = r * &(v - &nx) - &(self.y * &j).double();
                self.x = nx;
                self.z = (self.z + &h).square() - &z1z1 - &hh;
            }
        }
    }
    impl<P: SWModelParameters> ToBytes for GroupProjective<P> {
        fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
            self.x.write(&mut w)?;
            self.y.write(&mut w)?;
            self.z.write(&mut w)
        }
    }
    impl<P: SWModelParameters> FromBytes for GroupProjective<P> {
        fn read<R: Read>(mut r: R) -> IoResult<Self> {
            let x = FromBytes::read(&mut r)?;
            let y = FromBytes::read(&mut r)?;
            let z = FromBytes::read(&mut r)?;
            Ok(Self::new(x, y, z))
        }
    }
    impl<P: SWModelParameters> CanonicalSerialize for GroupProjective<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            self.into_affine().serialize(w)
        }
        fn serialized_size(&self) -> usize {
            GroupAffine::<P>::zero().serialized_size()
        }
        fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            self.into_affine().serialize_uncompressed(w)
        }
        fn uncompressed_size(&self) -> usize {
            GroupAffine::<P>::zero().uncompressed_size()
        }
    }
    impl<P: SWModelParameters> CanonicalDeserialize for GroupProjective<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            Ok(GroupAffine::<P>::deserialize(r)?.into())
        }
        fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> {
            Ok(GroupAffine::<P>::deserialize_uncompressed(r)?.into())
        }
        fn deserialize_unchecked<R: Read>(r: R) -> Result<Self, SerializationError> {
            Ok(GroupAffine::<P>::deserialize_unchecked(r)?.into())
        }
    }
    impl<P: SWModelParameters> Distribution<GroupProjective<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
            loop {
                let x = P::BaseField::rand(rng);
                let greatest = rng.gen();
                if let Some(p) = GroupAffine::<P>::get_point_from_x(x, greatest) {
                    return p.scale_by_cofactor();
                }
            }
        }
    }
    impl<P: SWModelParameters> Distribution<GroupAffine<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupAffine<P> {
            let p: GroupProjective<P> = rng.sample(Standard);
            p.into()
        }
    }
    impl<M: SWModelParameters, F: Field> ToConstraintField<F> for GroupAffine<M>
    where
        M::BaseField: ToConstraintField<F>,
    {
        fn to_field_elements(&self) -> Option<Vec<F>> {
            let mut x = self.x.to_field_elements()?;
            x.extend(self.y.to_field_elements()?);
            Some(x)
        }
    }
}

pub mod twisted_edwards_extended {
    use super::*;
    pub struct GroupAffine<P: TEModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        _params: PhantomData<P>,
    }
    impl<P: TEModelParameters> Clone for GroupAffine<P> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<P: TEModelParameters> Copy for GroupAffine<P> {}
    impl<P: TEModelParameters> PartialEq for GroupAffine<P> {
        fn eq(&self, o: &Self) -> bool {
            self.x == o.x && self.y == o.y
        }
    }
    impl<P: TEModelParameters> Eq for GroupAffine<P> {}
    impl<P: TEModelParameters> Hash for GroupAffine<P> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.x.hash(h);
            self.y.hash(h);
        }
    }
    impl<P: TEModelParameters> Debug for GroupAffine<P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            Display::fmt(self, f)
        }
    }
    impl<P: TEModelParameters> Display for GroupAffine<P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "GroupAffine(x={:?}, y={:?})", self.x, self.y)
        }
    }
    impl<P: TEModelParameters> Default for GroupAffine<P> {
        fn default() -> Self {
            Self::zero()
        }
    }
    impl<P: TEModelParameters> GroupAffine<P> {
        pub fn new(x: P::BaseField, y: P::BaseField) -> Self {
            Self { x, y, _params: PhantomData }
        }
        pub fn scale_by_cofactor(&self) -> GroupProjective<P> {
            self.mul_bits(BitIteratorBE::new(P::COFACTOR))
        }
        pub fn mul_bits(&self, bits: impl Iterator<Item = bool>) -> GroupProjective<P> {
            let mut res = GroupProjective::zero();
            let p: GroupProjective<P> = (*self).into();
            for b in bits {
                ProjectiveCurve::double_in_place(&mut res);
                if b {
                    res += &p;
                }
            }
            res
        }
        pub fn get_point_from_x(x: P::BaseField, greatest: bool) -> Option<Self> {
            let x2 = x.square();
            let one = P::BaseField::one();
            let numerator = P::mul_by_a(&x2) - &one;
            let denominator = P::coeff_d() * &x2 - &one;
            let y2 = denominator.inverse().map(|d| d * &numerator);
            y2.and_then(|y2| y2.sqrt()).map(|y| {
                let negy = -y;
                let y = if (y < negy) ^ greatest { y } else { negy };
                Self::new(x, y)
            })
        }
        pub fn is_on_curve(&self) -> bool {
            let x2 = self.x.square();
            let y2 = self.y.square();
            y2 + &P::mul_by_a(&x2) == P::BaseField::one() + &(P::coeff_d() * &(x2 * &y2))
        }
        pub fn is_in_correct_subgroup_assuming_on_curve(&self) -> bool {
            self.mul_bits(BitIteratorBE::new(<P::ScalarField as PrimeField>::modulus_limbs())).is_zero()
        }
    }
    impl<P: TEModelParameters> Zero for GroupAffine<P> {
        fn zero() -> Self {
            Self::new(P::BaseField::zero(), P::BaseField::one())
        }
        fn is_zero(&self) -> bool {
            self.x.is_zero() && self.y.is_one()
        }
    }
    impl<P: TEModelParameters> Add<Self> for GroupAffine<P> {
        type Output = Self;
        fn add(self, o: Self) -> Self {
            (self.into_projective() + o.into_projective()).into()
        }
    }
    impl<P: TEModelParameters> Neg for GroupAffine<P> {
        type Output = Self;
        fn neg(self) -> Self {
            Self::new(-self.x, self.y)
        }
    }
    impl<P: TEModelParameters> AffineCurve for GroupAffine<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type BaseField = P::BaseField;
        type ScalarField = P::ScalarField;
        type Projective = GroupProjective<P>;
        fn prime_subgroup_generator() -> Self {
            let (x, y) = P::generator();
            Self::new(x, y)
        }
        fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
            P::BaseField::from_random_bytes_with_flags::<EdwardsFlags>(bytes).and_then(|(x, flags)| {
                if x.is_zero() {
                    Some(Self::zero())
                } else {
                    Self::get_point_from_x(x, flags.is_positive())
                }
            })
        }
    }
    impl<P: TEModelParameters> ToBytes for GroupAffine<P> {
        fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
            self.x.write(&mut w)?;
            self.y.write(&mut w)
        }
    }
    impl<P: TEModelParameters> FromBytes for GroupAffine<P> {
        fn read<R: Read>(mut r: R) -> IoResult<Self> {
            let x = FromBytes::read(&mut r)?;
            let y = FromBytes::read(&mut r)?;
            Ok(Self::new(x, y))
        }
    }
    impl<P: TEModelParameters> CanonicalSerialize for GroupAffine<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            if self.is_zero() {
                P::BaseField::zero().serialize_with_flags(w, EdwardsFlags::default())
            } else {
                self.x.serialize_with_flags(w, EdwardsFlags::from_y_sign(self.y > -self.y))
            }
        }
        fn serialized_size(&self) -> usize {
            P::BaseField::zero().serialized_size_with_flags::<EdwardsFlags>()
        }
        fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> {
            CanonicalSerialize::serialize(&self.x, &mut w)?;
            CanonicalSerialize::serialize(&self.y, &mut w)
        }
        fn uncompressed_size(&self) -> usize {
            self.x.serialized_size() + self.y.serialized_size()
        }
    }
    impl<P: TEModelParameters> CanonicalDeserialize for GroupAffine<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            let (x, flags): (P::BaseField, EdwardsFlags) = CanonicalDeserializeWithFlags::deserialize_with_flags(r)?;
            if x.is_zero() {
                return Ok(Self::zero());
            }
            let p = Self::get_point_from_x(x, flags.is_positive()).ok_or(SerializationError::InvalidData)?;
            if !p.is_in_correct_subgroup_assuming_on_curve() {
                return Err(SerializationError::InvalidData);
            }
            Ok(p)
        }
        fn deserialize_unchecked<R: Read>(mut r: R) -> Result<Self, SerializationError> {
            let x = CanonicalDeserialize::deserialize(&mut r)?;
            let y = CanonicalDeserialize::deserialize(&mut r)?;
            Ok(Self::new(x, y))
        }
        fn deserialize_uncompressed<R: Read>(r: R) -> Result<Self, SerializationError> {
            let p = Self::deserialize_unchecked(r)?;
            if !p.is_on_curve() || !p.is_in_correct_subgroup_assuming_on_curve() {
                return Err(SerializationError::InvalidData);
            }
            Ok(p)
        }
    }
    pub struct GroupProjective<P: TEModelParameters> {
        pub x: P::BaseField,
        pub y: P::BaseField,
        pub t: P::BaseField,
        pub z: P::BaseField,
        _params: PhantomData<P>,
    }
    impl<P: TEModelParameters> GroupProjective<P> {
        pub fn new(x: P::BaseField, y: P::BaseField, t: P::BaseField, z: P::BaseField) -> Self {
            Self { x, y, t, z, _params: PhantomData }
        }
    }
    group_ops!(GroupProjective, TEModelParameters);
    impl<P: TEModelParameters> PartialEq for GroupProjective<P> {
        fn eq(&self, o: &Self) -> bool {
            if self.is_zero() {
                return o.is_zero();
            }
            if o.is_zero() {
                return false;
            }
            self.x * &o.z == o.x * &self.z && self.y * &o.z == o.y * &self.z
        }
    }
    impl<P: TEModelParameters> Hash for GroupProjective<P> {
        fn hash<H: Hasher>(&self, h: &mut H) {
            self.x.hash(h);
            self.y.hash(h);
            self.t.hash(h);
            self.z.hash(h)
        }
    }
    impl<P: TEModelParameters> Zero for GroupProjective<P> {
        fn zero() -> Self {
            Self::new(P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero(), P::BaseField::one())
        }
        fn is_zero(&self) -> bool {
            self.x.is_zero() && self.y == self.z && !self.y.is_zero() && self.t.is_zero()
        }
    }
    impl<P: TEModelParameters> Neg for GroupProjective<P> {
        type Output = Self;
        fn neg(self) -> Self {
            Self::new(-self.x, self.y, -self.t, self.z)
        }
    }
    impl<'a, P: TEModelParameters> AddAssign<&'a GroupProjective<P>> for GroupProjective<P> {
        fn add_assign(&mut self, o: &'a Self) {
            // add-2008-hwcd (unified)
            let a = self.x * &o.x;
            let b = self.y * &o.y;
            let c = P::coeff_d() * &self.t * &o.t;
            let d = self.z * &o.z;
            let h = b - &P::mul_by_a(&a);
            let e = (self.x + &self.y) * &(o.x + &o.y) - &a - &b;
            let f = d - &c;
            let g = d + &c;
            self.x = e * &f;
            self.y = g * &h;
            self.t = e * &h;
            self.z = f * &g;
        }
    }
    impl<P: TEModelParameters> From<GroupAffine<P>> for GroupProjective<P> {
        fn from(p: GroupAffine<P>) -> Self {
            Self::new(p.x, p.y, p.x * &p.y, P::BaseField::one())
        }
    }
    impl<P: TEModelParameters> From<GroupProjective<P>> for GroupAffine<P> {
        fn from(p: GroupProjective<P>) -> Self {
            if p.is_zero() {
                Self::zero()
            } else if p.z.is_one() {
                Self::new(p.x, p.y)
            } else {
                let zi = p.z.inverse().unwrap();
                Self::new(p.x * &zi, p.y * &zi)
            }
        }
    }
    impl<P: TEModelParameters> ProjectiveCurve for GroupProjective<P> {
        const COFACTOR: &'static [u64] = P::COFACTOR;
        type BaseField = P::BaseField;
        type ScalarField = P::ScalarField;
        type Affine = GroupAffine<P>;
        fn prime_subgroup_generator() -> Self {
            GroupAffine::prime_subgroup_generator().into()
        }
        fn is_normalized(&self) -> bool {
            self.z.is_one()
        }
        fn batch_normalization(v: &mut [Self]) {
            for p in v.iter_mut() {
                *p = p.into_affine().into();
            }
        }
        fn double_in_place(&mut self) -> &mut Self {
            // dbl-2008-hwcd
            let a = self.x.square();
            let b = self.y.square();
            let c = self.z.square().double();
            let d = P::mul_by_a(&a);
            let e = (self.x + &self.y).square() - &a - &b;
            let g = d + &b;
            let f = g - &c;
            let h = d - &b;
            self.x = e * &f;
            self.y = g * &h;
            self.t = e * &h;
            self.z = f * &g;
            self
        }
        fn add_assign_mixed(&mut self, other: &GroupAffine<P>) {
            *self += &GroupProjective::from(*other)
        }
    }
    impl<P: TEModelParameters> ToBytes for GroupProjective<P> {
        fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
            self.x.write(&mut w)?;
            self.y.write(&mut w)?;
            self.t.write(&mut w)?;
            self.z.write(&mut w)
        }
    }
    impl<P: TEModelParameters> FromBytes for GroupProjective<P> {
        fn read<R: Read>(mut r: R) -> IoResult<Self> {
            let x = FromBytes::read(&mut r)?;
            let y = FromBytes::read(&mut r)?;
            let t = FromBytes::read(&mut r)?;
            let z = FromBytes::read(&mut r)?;
            Ok(Self::new(x, y, t, z))
        }
    }
    impl<P: TEModelParameters> CanonicalSerialize for GroupProjective<P> {
        fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            self.into_affine().serialize(w)
        }
        fn serialized_size(&self) -> usize {
            GroupAffine::<P>::zero().serialized_size()
        }
        fn serialize_uncompressed<W: Write>(&self, w: W) -> Result<(), SerializationError> {
            self.into_affine().serialize_uncompressed(w)
        }
        fn uncompressed_size(&self) -> usize {
            GroupAffine::<P>::zero().uncompressed_size()
        }
    }
    impl<P: TEModelParameters> CanonicalDeserialize for GroupProjective<P> {
        fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
            Ok(GroupAffine::<P>::deserialize(r)?.into())
        }
    }
    impl<P: TEModelParameters> Distribution<GroupProjective<P>> for Standard {
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> GroupProjective<P> {
            loop {
                let x = P::BaseField::rand(rng);
                let greatest = rng.gen();
                if let Some(p) = GroupAffine::<P>::get_point_from_x(x, greatest) {
                    return p.scale_by_cofactor();
                }
            }
        }
    }
}

pub mod msm {
    use super::*;
    pub struct VariableBaseMSM;
    impl VariableBaseMSM {
        pub fn multi_scalar_mul<G: AffineCurve>(bases: &[G], scalars: &[<G::ScalarField as PrimeField>::BigInt]) -> G::Projective {
            bases.iter().zip(scalars).fold(G::Projective::zero(), |acc, (b, s)| acc + ProjectiveCurve::mul(b.into_projective(), s))
        }
    }
}

pub trait PairingEngine: Sized + 'static + Copy + Debug + Sync + Send + Eq + PartialEq {
    type Fr: PrimeField + SquareRootField + Into<<Self::Fr as PrimeField>::BigInt>;
    type G1Projective: ProjectiveCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Affine = Self::G1Affine> + From<Self::G1Affine> + Into<Self::G1Affine>;
    type G1Affine: AffineCurve<BaseField = Self::Fq, ScalarField = Self::Fr, Projective = Self::G1Projective> + From<Self::G1Projective> + Into<Self::G1Projective> + Into<Self::G1Prepared>;
    type G1Prepared: Default + Clone + Send + Sync + Debug + From<Self::G1Affine>;
    type G2Projective: ProjectiveCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Affine = Self::G2Affine> + From<Self::G2Affine> + Into<Self::G2Affine>;
    type G2Affine: AffineCurve<BaseField = Self::Fqe, ScalarField = Self::Fr, Projective = Self::G2Projective> + From<Self::G2Projective> + Into<Self::G2Projective> + Into<Self::G2Prepared>;
    type G2Prepared: Default + Clone + Send + Sync + Debug + From<Self::G2Affine>;
    type Fq: PrimeField + SquareRootField;
    type Fqe: SquareRootField;
    type Fqk: Field;
    #[must_use]
    fn miller_loop<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>;
    #[must_use]
    fn final_exponentiation(_: &Self::Fqk) -> Option<Self::Fqk>;
    #[must_use]
    fn product_of_pairings<'a, I>(i: I) -> Self::Fqk
    where
        I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>,
    {
        Self::final_exponentiation(&Self::miller_loop(i)).unwrap()
    }
    #[must_use]
    fn pairing<G1, G2>(p: G1, q: G2) -> Self::Fqk
    where
        G1: Into<Self::G1Affine>,
        G2: Into<Self::G2Affine>,
    {
        let g1 = Self::G1Prepared::from(p.into());
        let g2 = Self::G2Prepared::from(q.into());
        Self::product_of_pairings([(g1, g2)].iter())
    }
}

pub mod bls12 {
    use super::short_weierstrass_jacobian::{GroupAffine, GroupProjective};
    use super::*;
    pub trait Bls12Parameters: 'static + Sized + Send + Sync {
        const X: &'static [u64];
        const X_IS_NEGATIVE: bool;
        type Fp: PrimeField + SquareRootField + Into<<Self::Fp as PrimeField>::BigInt> + CanonicalSerializeWithFlags;
        type Fp2Params: crate::ff::QuadExt<Base = Self::Fp>;
        type Fp12: Field;
        type G1Parameters: SWModelParameters<BaseField = Self::Fp>;
        type G2Parameters: SWModelParameters<BaseField = crate::ff::QuadExtField<Self::Fp2Params>, ScalarField = <Self::G1Parameters as ModelParameters>::ScalarField>;
        fn miller(pairs: &[(G1Affine<Self>, G2Affine<Self>)]) -> Self::Fp12;
        fn final_exp(f: &Self::Fp12) -> Option<Self::Fp12>;
    }
    pub type G1Affine<P> = GroupAffine<<P as Bls12Parameters>::G1Parameters>;
    pub type G1Projective<P> = GroupProjective<<P as Bls12Parameters>::G1Parameters>;
    pub type G2Affine<P> = GroupAffine<<P as Bls12Parameters>::G2Parameters>;
    pub type G2Projective<P> = GroupProjective<<P as Bls12Parameters>::G2Parameters>;
    macro_rules! prepared {
        ($n:ident, $a:ident, $p:ident) => {
            pub struct $n<P: Bls12Parameters>(pub $a<P>);
            impl<P: Bls12Parameters> Clone for $n<P> {
                fn clone(&self) -> Self {
                    $n(self.0)
                }
            }
            impl<P: Bls12Parameters> PartialEq for $n<P> {
                fn eq(&self, o: &Self) -> bool {
                    self.0 == o.0
                }
            }
            impl<P: Bls12Parameters> Eq for $n<P> {}
            impl<P: Bls12Parameters> Debug for $n<P> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    write!(f, "Prepared({:?})", self.0)
                }
            }
            impl<P: Bls12Parameters> Default for $n<P> {
                fn default() -> Self {
                    $n($a::<P>::prime_subgroup_generator())
                }
            }
            impl<P: Bls12Parameters> From<$a<P>> for $n<P> {
                fn from(a: $a<P>) -> Self {
                    $n(a)
                }
            }
            impl<P: Bls12Parameters> From<$p<P>> for $n<P> {
                fn from(a: $p<P>) -> Self {
                    $n(a.into_affine())
                }
            }
            impl<P: Bls12Parameters> $n<P> {
                pub fn is_zero(&self) -> bool {
                    self.0.is_zero()
                }
            }
        };
    }
    prepared!(G1Prepared, G1Affine, G1Projective);
    prepared!(G2Prepared, G2Affine, G2Projective);
    pub struct Bls12<P: Bls12Parameters>(PhantomData<fn() -> P>);
    impl<P: Bls12Parameters> Clone for Bls12<P> {
        fn clone(&self) -> Self {
            *self
        }
    }
    impl<P: Bls12Parameters> Copy for Bls12<P> {}
    impl<P: Bls12Parameters> PartialEq for Bls12<P> {
        fn eq(&self, _: &Self) -> bool {
            true
        }
    }
    impl<P: Bls12Parameters> Eq for Bls12<P> {}
    impl<P: Bls12Parameters> Debug for Bls12<P> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            write!(f, "Bls12")
        }
    }
    impl<P: Bls12Parameters> Default for Bls12<P> {
        fn default() -> Self {
            Bls12(PhantomData)
        }
    }
    impl<P: Bls12Parameters> PairingEngine for Bls12<P> {
        type Fr = <P::G1Parameters as ModelParameters>::ScalarField;
        type G1Projective = G1Projective<P>;
        type G1Affine = G1Affine<P>;
        type G1Prepared = G1Prepared<P>;
        type G2Projective = G2Projective<P>;
        type G2Affine = G2Affine<P>;
        type G2Prepared = G2Prepared<P>;
        type Fq = P::Fp;
        type Fqe = crate::ff::QuadExtField<P::Fp2Params>;
        type Fqk = P::Fp12;
        fn miller_loop<'a, I>(i: I) -> Self::Fqk
        where
            I: IntoIterator<Item = &'a (Self::G1Prepared, Self::G2Prepared)>,
        {
            let pairs: Vec<_> = i.into_iter().filter(|(p, q)| !p.is_zero() && !q.is_zero()).map(|(p, q)| (p.0, q.0)).collect();
            P::miller(&pairs)
        }
        fn final_exponentiation(f: &Self::Fqk) -> Option<Self::Fqk> {
            P::final_exp(f)
        }
    }
}
pub mod models {
    pub use super::{bls12, short_weierstrass_jacobian, twisted_edwards_extended, ModelParameters, SWModelParameters, TEModelParameters};
}
pub mod group {
    pub use super::Group;
}
