use super::alloc::*;
use super::bits::boolean::Boolean;
use super::bits::*;
use super::eq::EqGadget;
use super::fields::fp::FpVar;
use super::fields::*;
use super::select::CondSelectGadget;
use super::*;
use crate::ec::*;
use crate::ff::*;
use crate::relations::*;
use std::borrow::Borrow;
use std::marker::PhantomData;
use std::ops::*;

pub trait GroupOpsBounds<'a, F, T: 'a>:
    Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T>
{
}
impl<'a, F, T: 'a, S> GroupOpsBounds<'a, F, T> for S where
    S: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Add<F, Output = T> + Sub<F, Output = T>
{
}
pub trait CurveVar<C: ProjectiveCurve, CF: Field>:
    'static + Sized + Clone + Debug + R1CSVar<CF, Value = C> + ToBitsGadget<CF> + ToBytesGadget<CF> + EqGadget<CF> + CondSelectGadget<CF>
    + AllocVar<C, CF> + AllocVar<C::Affine, CF> + for<'a> GroupOpsBounds<'a, C, Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self>
    + AddAssign<C> + SubAssign<C> + AddAssign<Self> + SubAssign<Self>
{
    fn zero() -> Self;
    fn is_zero(&self) -> Result<Boolean<CF>, SynthesisError> {
        self.is_eq(&Self::zero())
    }
    fn constant(other: C) -> Self;
    fn new_variable_omit_prime_order_check(
        cs: impl Into<Namespace<CF>>,
        f: impl FnOnce() -> Result<C, SynthesisError>,
        mode: AllocationMode,
    ) -> Result<Self, SynthesisError>;
    fn enforce_prime_order(&self) -> Result<(), SynthesisError>;
    fn double(&self) -> Result<Self, SynthesisError> {
        let mut r = self.clone();
        r.double_in_place()?;
        Ok(r)
    }
    fn double_in_place(&mut self) -> Result<(), SynthesisError>;
    fn negate(&self) -> Result<Self, SynthesisError>;
    fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<CF>>) -> Result<Self, SynthesisError> {
        let mut r = Self::zero();
        let mut p = self.clone();
        for b in bits {
            let t = r.clone() + &p;
            r = b.select(&t, &r)?;
            p.double_in_place()?;
        }
        Ok(r)
    }
    fn precomputed_base_scalar_mul_le<'a, I, B>(&mut self, scalar_bits_with_bases: I) -> Result<(), SynthesisError>
    where
        I: Iterator<Item = (B, &'a C)>,
        B: Borrow<Boolean<CF>>,
        C: 'a,
    {
        for (b, base) in scalar_bits_with_bases {
            let t = self.clone() + *base;
            *self = b.borrow().select(&t, self)?;
        }
        Ok(())
    }
}
fn opt2<A, B>(a: Result<A, SynthesisError>, b: Result<B, SynthesisError>) -> Option<(A, B)> {
    match (a, b) {
        (Ok(a), Ok(b)) => Some((a, b)),
        _ => None,
    }
}
pub mod bls12 {
    pub use super::curves::short_weierstrass::bls12::*;
}
pub mod curves {
    pub mod short_weierstrass {
        use super::super::*;
        use crate::ec::short_weierstrass_jacobian::{GroupAffine as SWAffine, GroupProjective as SWProjective};
        type CF<P> = <<P as ModelParameters>::BaseField as Field>::BasePrimeField;
        /// Homogeneous coordinates: the point (x/z, y/z).
        pub struct ProjectiveVar<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> {
            pub x: F,
            pub y: F,
            pub z: F,
            _params: PhantomData<P>,
        }
        pub struct AffineVar<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> {
            pub x: F,
            pub y: F,
            pub infinity: Boolean<CF<P>>,
            _params: PhantomData<P>,
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> Clone for ProjectiveVar<P, F> {
            fn clone(&self) -> Self {
                Self::new(self.x.clone(), self.y.clone(), self.z.clone())
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> Debug for ProjectiveVar<P, F> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "ProjectiveVar({:?}, {:?}, {:?})", self.x, self.y, self.z)
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> Clone for AffineVar<P, F> {
            fn clone(&self) -> Self {
                Self::new(self.x.clone(), self.y.clone(), self.infinity.clone())
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> Debug for AffineVar<P, F> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "AffineVar({:?}, {:?}, {:?})", self.x, self.y, self.infinity)
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> AffineVar<P, F> {
            pub fn new(x: F, y: F, infinity: Boolean<CF<P>>) -> Self {
                AffineVar { x, y, infinity, _params: PhantomData }
            }
            pub fn value(&self) -> Result<SWAffine<P>, SynthesisError> {
                Ok(if self.infinity.value()? { SWAffine::zero() } else { SWAffine::new(self.x.value()?, self.y.value()?, false) })
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> ProjectiveVar<P, F> {
            pub fn new(x: F, y: F, z: F) -> Self {
                ProjectiveVar { x, y, z, _params: PhantomData }
            }
            pub(crate) fn vars(&self) -> Vec<Variable> {
                [self.x.vars(), self.y.vars(), self.z.vars()].concat()
            }
            fn coords(v: &SWProjective<P>, l: P::BaseField) -> (P::BaseField, P::BaseField, P::BaseField) {
                if v.is_zero() {
                    return (P::BaseField::zero(), P::BaseField::one(), P::BaseField::zero());
                }
                let a = v.into_affine();
                (a.x * l, a.y * l, l)
            }
            /// The result of a complete group operation, in coordinates that are not normalised.
            fn result(cs: &ConstraintSystemRef<CF<P>>, tag: &str, vars: &[Variable], v: Option<SWProjective<P>>) -> Self {
                let l = P::BaseField::from(3u64);
                let c = v.map(|v| Self::coords(&v, l));
                let d = |t: &str, v| F::derived(cs, &format!("{}{}", tag, t), vars, v).unwrap();
                Self::new(d("x", c.map(|c| c.0)), d("y", c.map(|c| c.1)), d("z", c.map(|c| c.2)))
            }
            fn bin(tag: &str, a: &Self, b: &Self, f: impl Fn(SWProjective<P>, SWProjective<P>) -> SWProjective<P>) -> Self {
                let v = opt2(a.value(), b.value()).map(|(a, b)| f(a, b));
                Self::result(&a.cs().or(b.cs()), tag, &[a.vars(), b.vars()].concat(), v)
            }
            pub fn to_affine(&self) -> Result<AffineVar<P, F>, SynthesisError> {
                let v = self.value().ok().map(|v| v.into_affine());
                let cs = self.cs();
                let vars = self.vars();
                let zero = self.is_zero()?;
                let c = v.map(|a| if a.is_zero() { (P::BaseField::zero(), P::BaseField::one()) } else { (a.x, a.y) });
                Ok(AffineVar::new(F::derived(&cs, "affx", &vars, c.map(|c| c.0))?, F::derived(&cs, "affy", &vars, c.map(|c| c.1))?, zero))
            }
            /// The value must be given in coordinates that fit the group equation, or be the identity.
            fn alloc(cs: ConstraintSystemRef<CF<P>>, f: impl FnOnce() -> Result<SWProjective<P>, SynthesisError>, mode: AllocationMode) -> Result<Self, SynthesisError> {
                let mut v = f();
                if mode == AllocationMode::Constant {
                    return v.map(Self::constant);
                }
                if mode == AllocationMode::Witness && !cs.is_in_setup_mode() {
                    v = honest_or(v, true, SWProjective::prime_subgroup_generator);
                    if let Ok(v) = v.as_mut() {
                        choose(Choice::Point, v);
                    }
                }
                let v = v.ok();
                let c = v.map(|v| Self::coords(&v, P::BaseField::one()));
                let r = Self::new(F::raw(&cs, c.map(|c| c.0), mode)?, F::raw(&cs, c.map(|c| c.1), mode)?, F::raw(&cs, c.map(|c| c.2), mode)?);
                cs.enforce_predicate("on_curve", &r.vars(), v.map(|v| v.into_affine().is_on_curve()))?;
                Ok(r)
            }
        }
        fn vadd<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>>(a: &ProjectiveVar<P, F>, b: &ProjectiveVar<P, F>) -> ProjectiveVar<P, F> {
            ProjectiveVar::bin("padd", a, b, |x, y| x + y)
        }
        fn vsub<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>>(a: &ProjectiveVar<P, F>, b: &ProjectiveVar<P, F>) -> ProjectiveVar<P, F> {
            ProjectiveVar::bin("psub", a, b, |x, y| x - y)
        }
        fn constant<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>>(c: SWProjective<P>) -> ProjectiveVar<P, F> {
            let (x, y, z) = ProjectiveVar::<P, F>::coords(&c, P::BaseField::one());
            ProjectiveVar::new(F::constant(x), F::constant(y), F::constant(z))
        }
        var_ops!([P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>], ProjectiveVar<P, F>, SWProjective<P>, constant;
            Add add AddAssign add_assign vadd, Sub sub SubAssign sub_assign vsub);
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> R1CSVar<CF<P>> for ProjectiveVar<P, F> {
            type Value = SWProjective<P>;
            fn cs(&self) -> ConstraintSystemRef<CF<P>> {
                self.x.cs().or(self.y.cs()).or(self.z.cs())
            }
            fn value(&self) -> Result<SWProjective<P>, SynthesisError> {
                let (x, y, z) = (self.x.value()?, self.y.value()?, self.z.value()?);
                Ok(match z.inverse() {
                    Some(i) => SWAffine::new(x * i, y * i, false).into_projective(),
                    None => SWProjective::zero(),
                })
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> AllocVar<SWProjective<P>, CF<P>> for ProjectiveVar<P, F> {
            fn new_variable<T: Borrow<SWProjective<P>>>(
                cs: impl Into<Namespace<CF<P>>>,
                f: impl FnOnce() -> Result<T, SynthesisError>,
                mode: AllocationMode,
            ) -> Result<Self, SynthesisError> {
                let r = Self::alloc(cs.into().cs(), || f().map(|b| *b.borrow()), mode)?;
                if mode != AllocationMode::Constant {
                    r.enforce_prime_order()?;
                }
                Ok(r)
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> AllocVar<SWAffine<P>, CF<P>> for ProjectiveVar<P, F> {
            fn new_variable<T: Borrow<SWAffine<P>>>(
                cs: impl Into<Namespace<CF<P>>>,
                f: impl FnOnce() -> Result<T, SynthesisError>,
                mode: AllocationMode,
            ) -> Result<Self, SynthesisError> {
                Self::new_variable(cs, || f().map(|b| b.borrow().into_projective()), mode)
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> EqGadget<CF<P>> for ProjectiveVar<P, F> {
            fn is_eq(&self, o: &Self) -> Result<Boolean<CF<P>>, SynthesisError> {
                let x = (self.x.clone() * &o.z).is_eq(&(o.x.clone() * &self.z))?;
                let y = (self.y.clone() * &o.z).is_eq(&(o.y.clone() * &self.z))?;
                let both = self.is_zero()?.and(&o.is_zero()?)?;
                both.or(&x.and(&y)?)
            }
            fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<CF<P>>) -> Result<(), SynthesisError> {
                self.is_eq(o)?.conditional_enforce_equal(&Boolean::Constant(true), c)
            }
            fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<CF<P>>) -> Result<(), SynthesisError> {
                self.is_eq(o)?.and(c)?.enforce_equal(&Boolean::Constant(false))
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> CondSelectGadget<CF<P>> for ProjectiveVar<P, F> {
            fn conditionally_select(c: &Boolean<CF<P>>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
                Ok(Self::new(F::conditionally_select(c, &t.x, &f.x)?, F::conditionally_select(c, &t.y, &f.y)?, F::conditionally_select(c, &t.z, &f.z)?))
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBitsGadget<CF<P>> for ProjectiveVar<P, F> {
            fn to_bits_le(&self) -> Result<Vec<Boolean<CF<P>>>, SynthesisError> {
                let g = self.to_affine()?;
                let mut b = g.x.to_bits_le()?;
                b.extend(g.y.to_bits_le()?);
                b.push(g.infinity);
                Ok(b)
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBytesGadget<CF<P>> for ProjectiveVar<P, F> {
            fn to_bytes(&self) -> Result<Vec<uint8::UInt8<CF<P>>>, SynthesisError> {
                let g = self.to_affine()?;
                let mut b = g.x.to_bytes()?;
                b.extend(g.y.to_bytes()?);
                let mut inf = vec![g.infinity];
                inf.resize(8, Boolean::Constant(false));
                b.push(uint8::UInt8::from_bits_le(&inf));
                Ok(b)
            }
        }
        impl<P: SWModelParameters, F: FieldVar<P::BaseField, CF<P>>> CurveVar<SWProjective<P>, CF<P>> for ProjectiveVar<P, F> {
            fn zero() -> Self {
                Self::new(F::zero(), F::one(), F::zero())
            }
            fn is_zero(&self) -> Result<Boolean<CF<P>>, SynthesisError> {
                self.z.is_zero()
            }
            fn constant(c: SWProjective<P>) -> Self {
                constant(c)
            }
            fn new_variable_omit_prime_order_check(
                cs: impl Into<Namespace<CF<P>>>,
                f: impl FnOnce() -> Result<SWProjective<P>, SynthesisError>,
                mode: AllocationMode,
            ) -> Result<Self, SynthesisError> {
                Self::alloc(cs.into().cs(), f, mode)
            }
            fn enforce_prime_order(&self) -> Result<(), SynthesisError> {
                let v = self.value().ok().map(|v| v.into_affine().is_in_correct_subgroup_assuming_on_curve());
                let cs = self.cs();
                if cs.is_none() {
                    return if v == Some(true) { Ok(()) } else { Err(SynthesisError::Unsatisfiable) };
                }
                cs.enforce_predicate("prime_order", &self.vars(), v)
            }
            fn double_in_place(&mut self) -> Result<(), SynthesisError> {
                let v = self.value().ok().map(|v| v + v);
                *self = Self::result(&self.cs(), "pdbl", &self.vars(), v);
                Ok(())
            }
            fn negate(&self) -> Result<Self, SynthesisError> {
                Ok(Self::new(self.x.clone(), self.y.negate()?, self.z.clone()))
            }
            fn scalar_mul_le<'a>(&self, bits: impl Iterator<Item = &'a Boolean<CF<P>>>) -> Result<Self, SynthesisError> {
                let bits: Vec<_> = bits.cloned().collect();
                let mut vars = self.vars();
                vars.extend(bits.iter().map(|b| b.var()));
                let mut cs = self.cs();
                for b in &bits {
                    cs = cs.or(b.cs());
                }
                let v = match (self.value(), bits[..].value()) {
                    (Ok(mut p), Ok(b)) => {
                        let mut r = SWProjective::zero();
                        for b in b {
                            if b {
                                r += &p;
                            }
                            p = p + p;
                        }
                        Some(r)
                    }
                    _ => None,
                };
                Ok(Self::result(&cs, "smul", &vars, v))
            }
        }
        pub mod bls12 {
            use super::*;
            use crate::ec::bls12::*;
            pub type G1Var<P> = ProjectiveVar<<P as Bls12Parameters>::G1Parameters, FpVar<<P as Bls12Parameters>::Fp>>;
            pub type G1AffineVar<P> = AffineVar<<P as Bls12Parameters>::G1Parameters, FpVar<<P as Bls12Parameters>::Fp>>;
            pub type G2Var<P> = ProjectiveVar<<P as Bls12Parameters>::G2Parameters, crate::r1cs_std::fields::QuadExtVar<<P as Bls12Parameters>::Fp2Params>>;
            pub type G2AffineVar<P> = AffineVar<<P as Bls12Parameters>::G2Parameters, crate::r1cs_std::fields::QuadExtVar<<P as Bls12Parameters>::Fp2Params>>;
            macro_rules! prepared_var {
                ($n:ident, $v:ident, $a:ident, $p:ident) => {
                    pub struct $n<P: Bls12Parameters> {
                        pub(crate) value: Option<$a<P>>,
                        pub(crate) vars: Vec<Variable>,
                        pub(crate) cs: ConstraintSystemRef<P::Fp>,
                        pub(crate) var: $v<P>,
                    }
                    impl<P: Bls12Parameters> Clone for $n<P> {
                        fn clone(&self) -> Self {
                            $n { value: self.value, vars: self.vars.clone(), cs: self.cs.clone(), var: self.var.clone() }
                        }
                    }
                    impl<P: Bls12Parameters> Debug for $n<P> {
                        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                            write!(f, "{:?}", self.value)
                        }
                    }
                    impl<P: Bls12Parameters> $n<P> {
                        pub fn from_group_var(v: &$v<P>) -> Result<Self, SynthesisError> {
                            Ok($n { value: v.value().ok().map(|v| v.into_affine()), vars: v.vars(), cs: v.cs(), var: v.clone() })
                        }
                        pub fn value(&self) -> Result<$p<P>, SynthesisError> {
                            self.value.map($p::from).get()
                        }
                    }
                    impl<P: Bls12Parameters> AllocVar<$p<P>, P::Fp> for $n<P> {
                        fn new_variable<T: Borrow<$p<P>>>(
                            cs: impl Into<Namespace<P::Fp>>,
                            f: impl FnOnce() -> Result<T, SynthesisError>,
                            mode: AllocationMode,
                        ) -> Result<Self, SynthesisError> {
                            let v = $v::<P>::alloc(cs.into().cs(), || f().map(|b| b.borrow().0.into_projective()), mode)?;
                            Self::from_group_var(&v)
                        }
                    }
                    impl<P: Bls12Parameters> ToBytesGadget<P::Fp> for $n<P> {
                        fn to_bytes(&self) -> Result<Vec<uint8::UInt8<P::Fp>>, SynthesisError> {
                            self.var.to_bytes()
                        }
                    }
                };
            }
            prepared_var!(G1PreparedVar, G1Var, G1Affine, G1Prepared);
            prepared_var!(G2PreparedVar, G2Var, G2Affine, G2Prepared);
        }
    }
    pub mod twisted_edwards {
        use super::super::*;
        use crate::ec::twisted_edwards_extended::{GroupAffine as TEAffine, GroupProjective as TEProjective};
        type CF<P> = <<P as ModelParameters>::BaseField as Field>::BasePrimeField;
        pub struct AffineVar<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> {
            pub x: F,
            pub y: F,
            _params: PhantomData<P>,
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> Clone for AffineVar<P, F> {
            fn clone(&self) -> Self {
                Self::new(self.x.clone(), self.y.clone())
            }
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> Debug for AffineVar<P, F> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "AffineVar({:?}, {:?})", self.x, self.y)
            }
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> AffineVar<P, F> {
            pub fn new(x: F, y: F) -> Self {
                AffineVar { x, y, _params: PhantomData }
            }
            pub fn derived(cs: &ConstraintSystemRef<CF<P>>, tag: &str, vars: &[Variable], v: Option<TEProjective<P>>) -> Result<Self, SynthesisError> {
                let a = v.map(|v| v.into_affine());
                Ok(Self::new(F::derived(cs, &format!("{}x", tag), vars, a.map(|a| a.x))?, F::derived(cs, &format!("{}y", tag), vars, a.map(|a| a.y))?))
            }
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> R1CSVar<CF<P>> for AffineVar<P, F> {
            type Value = TEProjective<P>;
            fn cs(&self) -> ConstraintSystemRef<CF<P>> {
                self.x.cs().or(self.y.cs())
            }
            fn value(&self) -> Result<TEProjective<P>, SynthesisError> {
                Ok(TEAffine::new(self.x.value()?, self.y.value()?).into_projective())
            }
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> EqGadget<CF<P>> for AffineVar<P, F> {
            fn is_eq(&self, o: &Self) -> Result<Boolean<CF<P>>, SynthesisError> {
                self.x.is_eq(&o.x)?.and(&self.y.is_eq(&o.y)?)
            }
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> CondSelectGadget<CF<P>> for AffineVar<P, F> {
            fn conditionally_select(c: &Boolean<CF<P>>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
                Ok(Self::new(F::conditionally_select(c, &t.x, &f.x)?, F::conditionally_select(c, &t.y, &f.y)?))
            }
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBitsGadget<CF<P>> for AffineVar<P, F> {
            fn to_bits_le(&self) -> Result<Vec<Boolean<CF<P>>>, SynthesisError> {
                let mut b = self.x.to_bits_le()?;
                b.extend(self.y.to_bits_le()?);
                Ok(b)
            }
        }
        impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> ToBytesGadget<CF<P>> for AffineVar<P, F> {
            fn to_bytes(&self) -> Result<Vec<uint8::UInt8<CF<P>>>, SynthesisError> {
                let mut b = self.x.to_bytes()?;
                b.extend(self.y.to_bytes()?);
                Ok(b)
            }
        }
    }
}

/// A group element kept as a value (toy groups).
#[derive(Clone, Debug)]
pub struct ToyVar<F: PrimeField, CF: Field, const TAG: usize> {
    pub(crate) value: Option<crate::toy::ToyPoint<F, TAG>>,
    pub(crate) var: Variable,
    pub(crate) cs: ConstraintSystemRef<CF>,
}
use crate::toy::ToyPoint;
impl<F: PrimeField, CF: Field, const TAG: usize> ToyVar<F, CF, TAG> {
    fn mk(cs: &ConstraintSystemRef<CF>, tag: &str, vars: &[Variable], v: Option<ToyPoint<F, TAG>>) -> Result<Self, SynthesisError> {
        let var = if cs.is_none() { Variable::One } else { cs.new_derived(tag, vars, None)? };
        Ok(ToyVar { value: v, var, cs: cs.clone() })
    }
    fn constant_(v: ToyPoint<F, TAG>) -> Self {
        ToyVar { value: Some(v), var: Variable::One, cs: ConstraintSystemRef::None }
    }
    fn bin(tag: &str, a: &Self, b: &Self, f: impl Fn(F, F) -> F) -> Self {
        let v = match (a.value, b.value) {
            (Some(a), Some(b)) => Some(ToyPoint(f(a.0, b.0))),
            _ => None,
        };
        Self::mk(&a.cs.clone().or(b.cs.clone()), tag, &[a.var, b.var], v).unwrap()
    }
}
fn tadd<F: PrimeField, CF: Field, const TAG: usize>(a: &ToyVar<F, CF, TAG>, b: &ToyVar<F, CF, TAG>) -> ToyVar<F, CF, TAG> {
    ToyVar::bin("tadd", a, b, |x, y| x + y)
}
fn tsub<F: PrimeField, CF: Field, const TAG: usize>(a: &ToyVar<F, CF, TAG>, b: &ToyVar<F, CF, TAG>) -> ToyVar<F, CF, TAG> {
    ToyVar::bin("tsub", a, b, |x, y| x - y)
}
var_ops!([F: PrimeField, CF: Field, const TAG: usize], ToyVar<F, CF, TAG>, ToyPoint<F, TAG>, ToyVar::constant_;
    Add add AddAssign add_assign tadd, Sub sub SubAssign sub_assign tsub);
impl<F: PrimeField, CF: Field, const TAG: usize> R1CSVar<CF> for ToyVar<F, CF, TAG> {
    type Value = ToyPoint<F, TAG>;
    fn cs(&self) -> ConstraintSystemRef<CF> {
        self.cs.clone()
    }
    fn value(&self) -> Result<ToyPoint<F, TAG>, SynthesisError> {
        self.value.get()
    }
}
impl<F: PrimeField, CF: Field, const TAG: usize> AllocVar<ToyPoint<F, TAG>, CF> for ToyVar<F, CF, TAG> {
    fn new_variable<T: Borrow<ToyPoint<F, TAG>>>(
        cs: impl Into<Namespace<CF>>,
        f: impl FnOnce() -> Result<T, SynthesisError>,
        mode: AllocationMode,
    ) -> Result<Self, SynthesisError> {
        let v = f().map(|b| *b.borrow());
        if mode == AllocationMode::Constant {
            return v.map(Self::constant_);
        }
        let cs = cs.into().cs();
        let mut v = if cs.is_in_setup_mode() { v.ok() } else { honest_or(v, mode == AllocationMode::Witness, || ToyPoint(F::one())).ok() };
        if let (Some(v), AllocationMode::Witness) = (v.as_mut(), mode) {
            choose(Choice::Point, v);
        }
        Self::mk(&cs, "talloc", &[], v)
    }
}
impl<F: PrimeField, CF: Field, const TAG: usize> EqGadget<CF> for ToyVar<F, CF, TAG> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<CF>, SynthesisError> {
        let v = match (self.value, o.value) {
            (Some(a), Some(b)) => Some(a == b),
            _ => None,
        };
        Boolean::derived(&self.cs().or(o.cs()), "teq", &[self.var, o.var], v)
    }
}
impl<F: PrimeField, CF: Field, const TAG: usize> CondSelectGadget<CF> for ToyVar<F, CF, TAG> {
    fn conditionally_select(c: &Boolean<CF>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
        let v = match (c.value(), t.value, f.value) {
            (Ok(c), Some(t), Some(f)) => Some(if c { t } else { f }),
            _ => None,
        };
        Self::mk(&c.cs().or(t.cs()).or(f.cs()), "tsel", &[c.var(), t.var, f.var], v)
    }
}
impl<F: PrimeField, CF: Field, const TAG: usize> ToBitsGadget<CF> for ToyVar<F, CF, TAG> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<CF>>, SynthesisError> {
        unimplemented!("bits of a toy point")
    }
}
impl<F: PrimeField, CF: Field, const TAG: usize> ToBytesGadget<CF> for ToyVar<F, CF, TAG> {
    fn to_bytes(&self) -> Result<Vec<uint8::UInt8<CF>>, SynthesisError> {
        unimplemented!("bytes of a toy point")
    }
}
impl<F: PrimeField, CF: Field, const TAG: usize> CurveVar<ToyPoint<F, TAG>, CF> for ToyVar<F, CF, TAG> {
    fn zero() -> Self {
        Self::constant_(ToyPoint(F::zero()))
    }
    fn constant(c: ToyPoint<F, TAG>) -> Self {
        Self::constant_(c)
    }
    fn new_variable_omit_prime_order_check(
        cs: impl Into<Namespace<CF>>,
        f: impl FnOnce() -> Result<ToyPoint<F, TAG>, SynthesisError>,
        mode: AllocationMode,
    ) -> Result<Self, SynthesisError> {
        Self::new_variable(cs, f, mode)
    }
    fn enforce_prime_order(&self) -> Result<(), SynthesisError> {
        Ok(())
    }
    fn double_in_place(&mut self) -> Result<(), SynthesisError> {
        *self = tadd(self, self);
        Ok(())
    }
    fn negate(&self) -> Result<Self, SynthesisError> {
        Ok(tsub(&Self::constant_(ToyPoint(F::zero())), self))
    }
}
