use super::alloc::*;
use super::bits::boolean::Boolean;
use super::bits::*;
use super::eq::EqGadget;
use super::select::CondSelectGadget;
use super::*;
use crate::ff::*;
use crate::relations::*;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::ops::*;

pub trait FieldOpsBounds<'a, F, T: 'a>:
    Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
    + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T>
{
}
impl<'a, F, T: 'a, S> FieldOpsBounds<'a, F, T> for S where
    S: Sized + Add<&'a T, Output = T> + Sub<&'a T, Output = T> + Mul<&'a T, Output = T> + Add<T, Output = T> + Sub<T, Output = T> + Mul<T, Output = T>
        + Add<F, Output = T> + Sub<F, Output = T> + Mul<F, Output = T>
{
}
pub trait FieldVar<F: Field, CF: Field>:
    'static + Clone + Debug + R1CSVar<CF, Value = F> + EqGadget<CF> + ToBitsGadget<CF> + ToBytesGadget<CF> + CondSelectGadget<CF> + AllocVar<F, CF>
    + From<Boolean<CF>> + for<'a> FieldOpsBounds<'a, F, Self> + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + AddAssign<F> + SubAssign<F> + MulAssign<F>
{
    fn zero() -> Self;
    fn one() -> Self;
    fn constant(v: F) -> Self;
    /// The value `v` computed and constrained by a library gadget from the given variables.
    fn derived(cs: &ConstraintSystemRef<CF>, tag: &str, vars: &[Variable], v: Option<F>) -> Result<Self, SynthesisError>;
    /// A value chosen by the prover without going through the exploration hook (used for point coordinates).
    fn raw(cs: &ConstraintSystemRef<CF>, v: Option<F>, mode: AllocationMode) -> Result<Self, SynthesisError>;
    fn vars(&self) -> Vec<Variable>;
    fn is_zero(&self) -> Result<Boolean<CF>, SynthesisError> {
        self.is_eq(&Self::zero())
    }
    fn is_one(&self) -> Result<Boolean<CF>, SynthesisError> {
        self.is_eq(&Self::one())
    }
    fn double(&self) -> Result<Self, SynthesisError> {
        Ok(self.clone() + self)
    }
    fn double_in_place(&mut self) -> Result<&mut Self, SynthesisError> {
        *self = self.double()?;
        Ok(self)
    }
    fn negate(&self) -> Result<Self, SynthesisError> {
        Ok(Self::zero() - self)
    }
    fn negate_in_place(&mut self) -> Result<&mut Self, SynthesisError> {
        *self = self.negate()?;
        Ok(self)
    }
    fn square(&self) -> Result<Self, SynthesisError> {
        Ok(self.clone() * self)
    }
    fn square_in_place(&mut self) -> Result<&mut Self, SynthesisError> {
        *self = self.square()?;
        Ok(self)
    }
    fn mul_equals(&self, other: &Self, result: &Self) -> Result<(), SynthesisError> {
        (self.clone() * other).enforce_equal(result)
    }
    fn square_equals(&self, result: &Self) -> Result<(), SynthesisError> {
        self.square()?.enforce_equal(result)
    }
    fn inverse(&self) -> Result<Self, SynthesisError> {
        let v = self.value().ok();
        if self.cs().is_none() {
            return v.and_then(|x| x.inverse()).map(Self::constant).ok_or(SynthesisError::DivisionByZero);
        }
        let i = Self::derived(&self.cs(), "inv", &self.vars(), v.map(|x| x.inverse().unwrap_or_else(F::zero)))?;
        self.cs().enforce_predicate("invertible", &self.vars(), v.map(|x| !x.is_zero()))?;
        Ok(i)
    }
    fn mul_by_inverse(&self, d: &Self) -> Result<Self, SynthesisError> {
        Ok(d.inverse()? * self)
    }
    fn mul_by_inverse_unchecked(&self, d: &Self) -> Result<Self, SynthesisError> {
        self.mul_by_inverse(d)
    }
    fn frobenius_map(&self, power: usize) -> Result<Self, SynthesisError> {
        let v = self.value().ok().map(|mut x| {
            x.frobenius_map(power);
            x
        });
        Self::derived(&self.cs(), &format!("frob{}", power), &self.vars(), v)
    }
    fn pow_le(&self, bits: &[Boolean<CF>]) -> Result<Self, SynthesisError> {
        let mut r = Self::one();
        let mut p = self.clone();
        for b in bits {
            let t = r.clone() * &p;
            r = b.select(&t, &r)?;
            p = p.square()?;
        }
        Ok(r)
    }
    fn pow_by_constant<S: AsRef<[u64]>>(&self, e: S) -> Result<Self, SynthesisError> {
        let mut r = Self::one();
        for b in BitIteratorBE::without_leading_zeros(e) {
            r = r.square()?;
            if b {
                r *= self;
            }
        }
        Ok(r)
    }
}
/// Operators (by value, by reference, with constants) from three functions on references.
macro_rules! var_ops {
    ([$($g:tt)*], $t:ty, $c:ty, $mk:expr; $T:ident $f:ident $TA:ident $fa:ident $e:expr) => {
        impl<$($g)*> $T<$t> for $t { type Output = $t; fn $f(self, o: $t) -> $t { ($e)(&self, &o) } }
        impl<'a, $($g)*> $T<&'a $t> for $t { type Output = $t; fn $f(self, o: &'a $t) -> $t { ($e)(&self, o) } }
        impl<'a, $($g)*> $T<$t> for &'a $t { type Output = $t; fn $f(self, o: $t) -> $t { ($e)(self, &o) } }
        impl<'a, 'b, $($g)*> $T<&'b $t> for &'a $t { type Output = $t; fn $f(self, o: &'b $t) -> $t { ($e)(self, o) } }
        impl<$($g)*> $T<$c> for $t { type Output = $t; fn $f(self, o: $c) -> $t { ($e)(&self, &($mk)(o)) } }
        impl<'a, $($g)*> $T<$c> for &'a $t { type Output = $t; fn $f(self, o: $c) -> $t { ($e)(self, &($mk)(o)) } }
        impl<$($g)*> $TA<$t> for $t { fn $fa(&mut self, o: $t) { *self = ($e)(&*self, &o) } }
        impl<'a, $($g)*> $TA<&'a $t> for $t { fn $fa(&mut self, o: &'a $t) { *self = ($e)(&*self, o) } }
        impl<$($g)*> $TA<$c> for $t { fn $fa(&mut self, o: $c) { let c = ($mk)(o); *self = ($e)(&*self, &c) } }
    };
    ([$($g:tt)*], $t:ty, $c:ty, $mk:expr; $T:ident $f:ident $TA:ident $fa:ident $e:expr, $($rest:tt)*) => {
        var_ops!([$($g)*], $t, $c, $mk; $T $f $TA $fa $e);
        var_ops!([$($g)*], $t, $c, $mk; $($rest)*);
    };
}
pub(crate) use var_ops;
pub mod fp {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct AllocatedFp<F: PrimeField> {
        pub(crate) value: Option<F>,
        pub variable: Variable,
        pub cs: ConstraintSystemRef<F>,
    }
    impl<F: PrimeField> AllocatedFp<F> {
        pub fn new(value: Option<F>, variable: Variable, cs: ConstraintSystemRef<F>) -> Self {
            AllocatedFp { value, variable, cs }
        }
        pub fn value(&self) -> Result<F, SynthesisError> {
            self.cs.assigned_value(self.variable).get()
        }
        pub fn cs(&self) -> ConstraintSystemRef<F> {
            self.cs.clone()
        }
    }
    #[derive(Clone, Debug)]
    pub enum FpVar<F: PrimeField> {
        Constant(F),
        Var(AllocatedFp<F>),
    }
    impl<F: PrimeField> R1CSVar<F> for AllocatedFp<F> {
        type Value = F;
        fn cs(&self) -> ConstraintSystemRef<F> {
            self.cs.clone()
        }
        fn value(&self) -> Result<F, SynthesisError> {
            AllocatedFp::value(self)
        }
    }
    impl<F: PrimeField> From<AllocatedFp<F>> for FpVar<F> {
        fn from(a: AllocatedFp<F>) -> Self {
            FpVar::Var(a)
        }
    }
    impl<F: PrimeField> From<Boolean<F>> for FpVar<F> {
        fn from(b: Boolean<F>) -> Self {
            if let Boolean::Constant(b) = b {
                return FpVar::Constant(F::from(b));
            }
            let cs = b.cs();
            let value = b.value().ok().map(F::from);
            let variable = cs.new_lc(b.lc()).unwrap();
            FpVar::Var(AllocatedFp { value, variable, cs })
        }
    }
    impl<F: PrimeField> R1CSVar<F> for FpVar<F> {
        type Value = F;
        fn cs(&self) -> ConstraintSystemRef<F> {
            match self {
                FpVar::Constant(_) => ConstraintSystemRef::None,
                FpVar::Var(a) => a.cs.clone(),
            }
        }
        fn value(&self) -> Result<F, SynthesisError> {
            match self {
                FpVar::Constant(c) => Ok(*c),
                FpVar::Var(a) => a.value(),
            }
        }
    }
    fn lc_of<F: PrimeField>(x: &FpVar<F>) -> LinearCombination<F> {
        match x {
            FpVar::Constant(c) => LinearCombination::from((*c, Variable::One)),
            FpVar::Var(a) => LinearCombination::from(a.variable),
        }
    }
    fn from_lc<F: PrimeField>(cs: ConstraintSystemRef<F>, lc: LinearCombination<F>) -> FpVar<F> {
        let variable = cs.new_lc(lc).unwrap();
        let value = cs.assigned_value(variable);
        FpVar::Var(AllocatedFp { value, variable, cs })
    }
    fn add<F: PrimeField>(a: &FpVar<F>, b: &FpVar<F>) -> FpVar<F> {
        match (a, b) {
            (FpVar::Constant(x), FpVar::Constant(y)) => FpVar::Constant(*x + y),
            _ => from_lc(a.cs().or(b.cs()), lc_of(a) + lc_of(b)),
        }
    }
    fn sub<F: PrimeField>(a: &FpVar<F>, b: &FpVar<F>) -> FpVar<F> {
        match (a, b) {
            (FpVar::Constant(x), FpVar::Constant(y)) => FpVar::Constant(*x - y),
            _ => from_lc(a.cs().or(b.cs()), lc_of(a) - lc_of(b)),
        }
    }
    fn mul<F: PrimeField>(a: &FpVar<F>, b: &FpVar<F>) -> FpVar<F> {
        match (a, b) {
            (FpVar::Constant(x), FpVar::Constant(y)) => FpVar::Constant(*x * y),
            (FpVar::Constant(k), FpVar::Var(_)) => from_lc(b.cs(), lc_of(b) * *k),
            (FpVar::Var(_), FpVar::Constant(k)) => from_lc(a.cs(), lc_of(a) * *k),
            (FpVar::Var(x), FpVar::Var(y)) => {
                let v = match (x.value(), y.value()) {
                    (Ok(p), Ok(q)) => Some(p * q),
                    _ => None,
                };
                FpVar::derived(&x.cs, "mul", &[x.variable, y.variable], v).unwrap()
            }
        }
    }
    var_ops!([F: PrimeField], FpVar<F>, F, FpVar::Constant;
        Add add AddAssign add_assign add, Sub sub SubAssign sub_assign sub, Mul mul MulAssign mul_assign mul);
    impl<F: PrimeField> FpVar<F> {
        pub(crate) fn var(&self) -> Variable {
            match self {
                FpVar::Constant(_) => Variable::One,
                FpVar::Var(a) => a.variable,
            }
        }
        fn tag(&self, t: &str) -> String {
            match self {
                FpVar::Constant(c) => format!("{}{:?}", t, c),
                FpVar::Var(_) => t.to_string(),
            }
        }
        fn pred(&self, o: &Self, tag: &str, holds: Option<bool>) -> Result<(), SynthesisError> {
            let cs = self.cs().or(o.cs());
            if cs.is_none() {
                return if holds == Some(true) { Ok(()) } else { Err(SynthesisError::Unsatisfiable) };
            }
            cs.enforce_predicate(&o.tag(&self.tag(tag)), &[self.var(), o.var()], holds)
        }
        /// Enforces `self <= (p-1)/2`.
        pub fn enforce_smaller_or_equal_than_mod_minus_one_div_two(&self) -> Result<(), SynthesisError> {
            let h = F::from_repr(F::modulus_minus_one_div_two()).unwrap();
            let v = self.value().ok();
            self.pred(&FpVar::Constant(F::zero()), "le_half", v.map(|v| v <= h))
        }
        fn cmp_sides(&self, o: &Self, ord: Ordering, eq: bool) -> Result<(Self, Self), SynthesisError> {
            let (l, r) = match ord {
                Ordering::Less => (self, o),
                Ordering::Greater => (o, self),
                Ordering::Equal => return Err(SynthesisError::Unsatisfiable),
            };
            Ok((l.clone(), if eq { r + F::one() } else { r.clone() }))
        }
        fn lt_value(l: &Self, r: &Self) -> Option<bool> {
            // low bit of 2 (l - r)
            match (l.value(), r.value()) {
                (Ok(a), Ok(b)) => Some((a - b).double().into_repr().is_odd()),
                _ => None,
            }
        }
        /// As arkworks: both sides must be at most (p-1)/2.
        pub fn enforce_cmp(&self, o: &FpVar<F>, ord: Ordering, eq: bool) -> Result<(), SynthesisError> {
            let (l, r) = self.cmp_sides(o, ord, eq)?;
            l.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
            r.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
            l.pred(&r, "lt", Self::lt_value(&l, &r))
        }
        pub fn enforce_cmp_unchecked(&self, o: &FpVar<F>, ord: Ordering, eq: bool) -> Result<(), SynthesisError> {
            let (l, r) = self.cmp_sides(o, ord, eq)?;
            l.pred(&r, "lt", Self::lt_value(&l, &r))
        }
        pub fn is_cmp(&self, o: &FpVar<F>, ord: Ordering, eq: bool) -> Result<Boolean<F>, SynthesisError> {
            let (l, r) = self.cmp_sides(o, ord, eq)?;
            l.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
            r.enforce_smaller_or_equal_than_mod_minus_one_div_two()?;
            Boolean::derived(&l.cs().or(r.cs()), &l.tag(&r.tag("islt")), &[l.var(), r.var()], Self::lt_value(&l, &r))
        }
        pub fn is_cmp_unchecked(&self, o: &FpVar<F>, ord: Ordering, eq: bool) -> Result<Boolean<F>, SynthesisError> {
            let (l, r) = self.cmp_sides(o, ord, eq)?;
            Boolean::derived(&l.cs().or(r.cs()), &l.tag(&r.tag("islt")), &[l.var(), r.var()], Self::lt_value(&l, &r))
        }
    }
    impl<F: PrimeField> AllocVar<F, F> for FpVar<F> {
        fn new_variable<T: Borrow<F>>(
            cs: impl Into<Namespace<F>>,
            f: impl FnOnce() -> Result<T, SynthesisError>,
            mode: AllocationMode,
        ) -> Result<Self, SynthesisError> {
            if mode == AllocationMode::Constant {
                return Ok(FpVar::Constant(*f()?.borrow()));
            }
            let cs = cs.into().cs();
            let mut value = None;
            let gen = || {
                let witness = chosen(mode == AllocationMode::Witness);
                let mut v = honest_or(f().map(|b| *b.borrow()), witness, F::zero)?;
                if witness {
                    choose(Choice::Field, &mut v);
                }
                value = Some(v);
                Ok(v)
            };
            let variable = if mode == AllocationMode::Input { cs.new_input_variable(gen)? } else { cs.new_witness_variable(gen)? };
            Ok(FpVar::Var(AllocatedFp { value, variable, cs }))
        }
    }
    impl<F: PrimeField> AllocVar<F, F> for AllocatedFp<F> {
        fn new_variable<T: Borrow<F>>(
            cs: impl Into<Namespace<F>>,
            f: impl FnOnce() -> Result<T, SynthesisError>,
            mode: AllocationMode,
        ) -> Result<Self, SynthesisError> {
            let cs = cs.into().cs();
            match FpVar::new_variable(cs.clone(), f, mode)? {
                FpVar::Var(v) => Ok(v),
                FpVar::Constant(v) => Ok(AllocatedFp { value: Some(v), variable: cs.new_lc(LinearCombination::from((v, Variable::One)))?, cs }),
            }
        }
    }
    impl<F: PrimeField> core::iter::Sum<FpVar<F>> for FpVar<F> {
        fn sum<I: Iterator<Item = FpVar<F>>>(iter: I) -> Self {
            iter.fold(FpVar::zero(), |a, b| a + b)
        }
    }
    impl<'a, F: PrimeField> core::iter::Sum<&'a FpVar<F>> for FpVar<F> {
        fn sum<I: Iterator<Item = &'a FpVar<F>>>(iter: I) -> Self {
            iter.fold(FpVar::zero(), |a, b| a + b)
        }
    }
    impl<F: PrimeField> EqGadget<F> for FpVar<F> {
        fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> {
            let v = match (self.value(), o.value()) {
                (Ok(a), Ok(b)) => Some(a == b),
                _ => None,
            };
            Boolean::derived(&self.cs().or(o.cs()), &o.tag(&self.tag("eq")), &[self.var(), o.var()], v)
        }
        fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
            if let (FpVar::Constant(a), FpVar::Constant(b)) = (self, o) {
                if a == b {
                    return Ok(());
                }
            }
            if c == &Boolean::Constant(false) {
                return Ok(());
            }
            let cs = self.cs().or(o.cs()).or(c.cs());
            if cs.is_none() {
                return Err(SynthesisError::Unsatisfiable);
            }
            cs.enforce_constraint(lc_of(self) - lc_of(o), c.lc(), LinearCombination::zero())
        }
        fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
            if c == &Boolean::Constant(false) {
                return Ok(());
            }
            let v = match (self.value(), o.value(), c.value()) {
                (Ok(a), Ok(b), Ok(c)) => Some(a != b || !c),
                _ => None,
            };
            let cs = self.cs().or(o.cs()).or(c.cs());
            if cs.is_none() {
                return if v == Some(true) { Ok(()) } else { Err(SynthesisError::Unsatisfiable) };
            }
            cs.enforce_predicate(&o.tag(&self.tag("cne")), &[self.var(), o.var(), c.var()], v)
        }
    }
    impl<F: PrimeField> CondSelectGadget<F> for FpVar<F> {
        fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
            match c {
                Boolean::Constant(true) => Ok(t.clone()),
                Boolean::Constant(false) => Ok(f.clone()),
                _ => {
                    let v = match (c.value(), t.value(), f.value()) {
                        (Ok(c), Ok(t), Ok(f)) => Some(if c { t } else { f }),
                        _ => None,
                    };
                    let neg = if matches!(c, Boolean::Not(_)) { "seln" } else { "sel" };
                    Self::derived(&c.cs(), &f.tag(&t.tag(neg)), &[c.var(), t.var(), f.var()], v)
                }
            }
        }
    }
    impl<F: PrimeField> ToBitsGadget<F> for FpVar<F> {
        fn to_bits_le(&self) -> Result<Vec<Boolean<F>>, SynthesisError> {
            let n = F::size_in_bits();
            let v = self.value().ok().map(|v| v.into_repr());
            if let FpVar::Constant(_) = self {
                return Ok((0..n).map(|i| Boolean::Constant(v.unwrap().get_bit(i))).collect());
            }
            let cs = self.cs();
            (0..n).map(|i| Boolean::derived(&cs, "bit", &[self.var()], v.map(|v| v.get_bit(i)))).collect()
        }
    }
    impl<F: PrimeField> ToBytesGadget<F> for FpVar<F> {
        fn to_bytes(&self) -> Result<Vec<uint8::UInt8<F>>, SynthesisError> {
            let mut b = self.to_bits_le()?;
            b.resize((b.len() + 7) / 8 * 8, Boolean::Constant(false));
            Ok(b.chunks(8).map(uint8::UInt8::from_bits_le).collect())
        }
    }
    impl<F: PrimeField> FieldVar<F, F> for FpVar<F> {
        fn zero() -> Self {
            FpVar::Constant(F::zero())
        }
        fn one() -> Self {
            FpVar::Constant(F::one())
        }
        fn constant(v: F) -> Self {
            FpVar::Constant(v)
        }
        fn derived(cs: &ConstraintSystemRef<F>, tag: &str, vars: &[Variable], v: Option<F>) -> Result<Self, SynthesisError> {
            if cs.is_none() {
                return v.map(FpVar::Constant).get();
            }
            let variable = cs.new_derived(tag, vars, v)?;
            Ok(FpVar::Var(AllocatedFp { value: v, variable, cs: cs.clone() }))
        }
        fn raw(cs: &ConstraintSystemRef<F>, v: Option<F>, mode: AllocationMode) -> Result<Self, SynthesisError> {
            let variable = match mode {
                AllocationMode::Constant => return v.map(FpVar::Constant).get(),
                AllocationMode::Input => cs.new_input_variable(|| v.get())?,
                AllocationMode::Witness => cs.new_witness_variable(|| v.get())?,
            };
            Ok(FpVar::Var(AllocatedFp { value: v, variable, cs: cs.clone() }))
        }
        fn vars(&self) -> Vec<Variable> {
            vec![self.var()]
        }
        fn square_equals(&self, r: &Self) -> Result<(), SynthesisError> {
            self.mul_equals(self, r)
        }
        fn mul_equals(&self, o: &Self, r: &Self) -> Result<(), SynthesisError> {
            let cs = self.cs().or(o.cs()).or(r.cs());
            if cs.is_none() {
                return if self.value()? * o.value()? == r.value()? { Ok(()) } else { Err(SynthesisError::Unsatisfiable) };
            }
            cs.enforce_constraint(lc_of(self), lc_of(o), lc_of(r))
        }
    }
}
use fp::FpVar;
/// Quadratic extension of a prime field.
pub struct QuadExtVar<P: QuadExt>
where
    P::Base: PrimeField,
{
    pub c0: FpVar<P::Base>,
    pub c1: FpVar<P::Base>,
}
impl<P: QuadExt> Clone for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn clone(&self) -> Self {
        QuadExtVar { c0: self.c0.clone(), c1: self.c1.clone() }
    }
}
impl<P: QuadExt> Debug for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "({:?}, {:?})", self.c0, self.c1)
    }
}
impl<P: QuadExt> QuadExtVar<P>
where
    P::Base: PrimeField,
{
    pub fn new(c0: FpVar<P::Base>, c1: FpVar<P::Base>) -> Self {
        QuadExtVar { c0, c1 }
    }
    pub fn conjugate(&self) -> Result<Self, SynthesisError> {
        Ok(Self::new(self.c0.clone(), self.c1.negate()?))
    }
}
type B<P> = <P as QuadExt>::Base;
macro_rules! quad_ops {
    ($($T:ident $f:ident $TA:ident $fa:ident $e:expr),*) => {$(
        impl<P: QuadExt> $T<QuadExtVar<P>> for QuadExtVar<P> where P::Base: PrimeField { type Output = Self; fn $f(self, o: Self) -> Self { ($e)(&self, &o) } }
        impl<'a, P: QuadExt> $T<&'a QuadExtVar<P>> for QuadExtVar<P> where P::Base: PrimeField { type Output = Self; fn $f(self, o: &'a Self) -> Self { ($e)(&self, o) } }
        impl<'a, P: QuadExt> $T<QuadExtVar<P>> for &'a QuadExtVar<P> where P::Base: PrimeField { type Output = QuadExtVar<P>; fn $f(self, o: QuadExtVar<P>) -> QuadExtVar<P> { ($e)(self, &o) } }
        impl<'a, 'b, P: QuadExt> $T<&'b QuadExtVar<P>> for &'a QuadExtVar<P> where P::Base: PrimeField { type Output = QuadExtVar<P>; fn $f(self, o: &'b QuadExtVar<P>) -> QuadExtVar<P> { ($e)(self, o) } }
        impl<P: QuadExt> $T<QuadExtField<P>> for QuadExtVar<P> where P::Base: PrimeField { type Output = Self; fn $f(self, o: QuadExtField<P>) -> Self { ($e)(&self, &Self::constant(o)) } }
        impl<'a, P: QuadExt> $T<QuadExtField<P>> for &'a QuadExtVar<P> where P::Base: PrimeField { type Output = QuadExtVar<P>; fn $f(self, o: QuadExtField<P>) -> QuadExtVar<P> { ($e)(self, &QuadExtVar::<P>::constant(o)) } }
        impl<P: QuadExt> $TA<QuadExtVar<P>> for QuadExtVar<P> where P::Base: PrimeField { fn $fa(&mut self, o: Self) { *self = ($e)(&*self, &o) } }
        impl<'a, P: QuadExt> $TA<&'a QuadExtVar<P>> for QuadExtVar<P> where P::Base: PrimeField { fn $fa(&mut self, o: &'a Self) { *self = ($e)(&*self, o) } }
        impl<P: QuadExt> $TA<QuadExtField<P>> for QuadExtVar<P> where P::Base: PrimeField { fn $fa(&mut self, o: QuadExtField<P>) { let c = Self::constant(o); *self = ($e)(&*self, &c) } }
    )*};
}
fn qmul<P: QuadExt>(a: &QuadExtVar<P>, b: &QuadExtVar<P>) -> QuadExtVar<P>
where
    P::Base: PrimeField,
{
    let nr = P::mul_nonresidue(&B::<P>::one());
    QuadExtVar::new(&a.c0 * &b.c0 + (&a.c1 * &b.c1) * nr, &a.c0 * &b.c1 + &a.c1 * &b.c0)
}
quad_ops!(
    Add add AddAssign add_assign |a: &QuadExtVar<P>, b: &QuadExtVar<P>| QuadExtVar::<P>::new(&a.c0 + &b.c0, &a.c1 + &b.c1),
    Sub sub SubAssign sub_assign |a: &QuadExtVar<P>, b: &QuadExtVar<P>| QuadExtVar::<P>::new(&a.c0 - &b.c0, &a.c1 - &b.c1),
    Mul mul MulAssign mul_assign qmul
);
impl<P: QuadExt> From<Boolean<B<P>>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn from(b: Boolean<B<P>>) -> Self {
        QuadExtVar::new(b.into(), FpVar::zero())
    }
}
impl<P: QuadExt> R1CSVar<B<P>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    type Value = QuadExtField<P>;
    fn cs(&self) -> ConstraintSystemRef<B<P>> {
        self.c0.cs().or(self.c1.cs())
    }
    fn value(&self) -> Result<Self::Value, SynthesisError> {
        Ok(QuadExtField::new(self.c0.value()?, self.c1.value()?))
    }
}
impl<P: QuadExt> AllocVar<QuadExtField<P>, B<P>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn new_variable<T: Borrow<QuadExtField<P>>>(
        cs: impl Into<Namespace<B<P>>>,
        f: impl FnOnce() -> Result<T, SynthesisError>,
        mode: AllocationMode,
    ) -> Result<Self, SynthesisError> {
        let cs = cs.into().cs();
        let (a, b) = match f() {
            Ok(x) => (Ok(x.borrow().c0), Ok(x.borrow().c1)),
            Err(_) => (Err(SynthesisError::AssignmentMissing), Err(SynthesisError::AssignmentMissing)),
        };
        Ok(Self::new(FpVar::new_variable(cs.clone(), || a, mode)?, FpVar::new_variable(cs, || b, mode)?))
    }
}
impl<P: QuadExt> EqGadget<B<P>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn is_eq(&self, o: &Self) -> Result<Boolean<B<P>>, SynthesisError> {
        self.c0.is_eq(&o.c0)?.and(&self.c1.is_eq(&o.c1)?)
    }
    fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<B<P>>) -> Result<(), SynthesisError> {
        self.c0.conditional_enforce_equal(&o.c0, c)?;
        self.c1.conditional_enforce_equal(&o.c1, c)
    }
}
impl<P: QuadExt> CondSelectGadget<B<P>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn conditionally_select(c: &Boolean<B<P>>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
        Ok(Self::new(FpVar::conditionally_select(c, &t.c0, &f.c0)?, FpVar::conditionally_select(c, &t.c1, &f.c1)?))
    }
}
impl<P: QuadExt> ToBitsGadget<B<P>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn to_bits_le(&self) -> Result<Vec<Boolean<B<P>>>, SynthesisError> {
        let mut r = self.c0.to_bits_le()?;
        r.extend(self.c1.to_bits_le()?);
        Ok(r)
    }
}
impl<P: QuadExt> ToBytesGadget<B<P>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn to_bytes(&self) -> Result<Vec<uint8::UInt8<B<P>>>, SynthesisError> {
        let mut r = self.c0.to_bytes()?;
        r.extend(self.c1.to_bytes()?);
        Ok(r)
    }
}
impl<P: QuadExt> FieldVar<QuadExtField<P>, B<P>> for QuadExtVar<P>
where
    P::Base: PrimeField,
{
    fn zero() -> Self {
        Self::new(FpVar::zero(), FpVar::zero())
    }
    fn one() -> Self {
        Self::new(FpVar::one(), FpVar::zero())
    }
    fn constant(v: QuadExtField<P>) -> Self {
        Self::new(FpVar::Constant(v.c0), FpVar::Constant(v.c1))
    }
    fn derived(cs: &ConstraintSystemRef<B<P>>, tag: &str, vars: &[Variable], v: Option<QuadExtField<P>>) -> Result<Self, SynthesisError> {
        Ok(Self::new(FpVar::derived(cs, tag, vars, v.map(|x| x.c0))?, FpVar::derived(cs, tag, vars, v.map(|x| x.c1))?))
    }
    fn raw(cs: &ConstraintSystemRef<B<P>>, v: Option<QuadExtField<P>>, mode: AllocationMode) -> Result<Self, SynthesisError> {
        Ok(Self::new(FpVar::raw(cs, v.map(|x| x.c0), mode)?, FpVar::raw(cs, v.map(|x| x.c1), mode)?))
    }
    fn vars(&self) -> Vec<Variable> {
        vec![self.c0.var(), self.c1.var()]
    }
}
/// A field element kept as a value only (extension fields whose coordinates nobody looks at).
#[derive(Clone, Debug)]
pub struct IdealFieldVar<T: Field, CF: Field> {
    pub(crate) value: Option<T>,
    pub(crate) var: Variable,
    pub(crate) cs: ConstraintSystemRef<CF>,
}
impl<T: Field, CF: Field> IdealFieldVar<T, CF> {
    fn un(tag: &str, a: &Self, b: &Self, f: impl Fn(&T, &T) -> T) -> Self {
        let cs = a.cs.clone().or(b.cs.clone());
        let v = match (&a.value, &b.value) {
            (Some(x), Some(y)) => Some(f(x, y)),
            _ => None,
        };
        Self::derived(&cs, tag, &[a.var, b.var], v).unwrap()
    }
}
var_ops!([T: Field, CF: Field], IdealFieldVar<T, CF>, T, IdealFieldVar::constant;
    Add add AddAssign add_assign |a, b| IdealFieldVar::un("gadd", a, b, |x, y| *x + y),
    Sub sub SubAssign sub_assign |a, b| IdealFieldVar::un("gsub", a, b, |x, y| *x - y),
    Mul mul MulAssign mul_assign |a, b| IdealFieldVar::un("gmul", a, b, |x, y| *x * y));
impl<T: Field, CF: Field> From<Boolean<CF>> for IdealFieldVar<T, CF> {
    fn from(b: Boolean<CF>) -> Self {
        let v = b.value().ok().map(|b| if b { T::one() } else { T::zero() });
        Self::derived(&b.cs(), "gbool", &[b.var()], v).unwrap()
    }
}
impl<T: Field, CF: Field> R1CSVar<CF> for IdealFieldVar<T, CF> {
    type Value = T;
    fn cs(&self) -> ConstraintSystemRef<CF> {
        self.cs.clone()
    }
    fn value(&self) -> Result<T, SynthesisError> {
        self.value.get()
    }
}
impl<T: Field, CF: Field> AllocVar<T, CF> for IdealFieldVar<T, CF> {
    fn new_variable<U: Borrow<T>>(
        cs: impl Into<Namespace<CF>>,
        f: impl FnOnce() -> Result<U, SynthesisError>,
        mode: AllocationMode,
    ) -> Result<Self, SynthesisError> {
        if mode == AllocationMode::Constant {
            return Ok(Self::constant(*f()?.borrow()));
        }
        let cs = cs.into().cs();
        let witness = chosen(mode == AllocationMode::Witness);
        let v = if cs.is_in_setup_mode() { None } else { Some(honest_or(f().map(|b| *b.borrow()), witness, T::zero)?) };
        let v = v.map(|mut v| {
            if witness {
                choose(Choice::Field, &mut v);
            }
            v
        });
        Self::derived(&cs, "galloc", &[], v)
    }
}
impl<T: Field, CF: Field> EqGadget<CF> for IdealFieldVar<T, CF> {
    fn is_eq(&self, o: &Self) -> Result<Boolean<CF>, SynthesisError> {
        let v = match (&self.value, &o.value) {
            (Some(a), Some(b)) => Some(a == b),
            _ => None,
        };
        Boolean::derived(&self.cs().or(o.cs()), "geq", &[self.var, o.var], v)
    }
}
impl<T: Field, CF: Field> CondSelectGadget<CF> for IdealFieldVar<T, CF> {
    fn conditionally_select(c: &Boolean<CF>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
        let v = match (c.value(), &t.value, &f.value) {
            (Ok(c), Some(t), Some(f)) => Some(if c { *t } else { *f }),
            _ => None,
        };
        Self::derived(&c.cs().or(t.cs()).or(f.cs()), "gsel", &[c.var(), t.var, f.var], v)
    }
}
impl<T: Field, CF: Field> ToBitsGadget<CF> for IdealFieldVar<T, CF> {
    fn to_bits_le(&self) -> Result<Vec<Boolean<CF>>, SynthesisError> {
        unimplemented!("bits of an ideal field element")
    }
}
impl<T: Field, CF: Field> ToBytesGadget<CF> for IdealFieldVar<T, CF> {
    fn to_bytes(&self) -> Result<Vec<uint8::UInt8<CF>>, SynthesisError> {
        unimplemented!("bytes of an ideal field element")
    }
}
impl<T: Field, CF: Field> FieldVar<T, CF> for IdealFieldVar<T, CF> {
    fn zero() -> Self {
        Self::constant(T::zero())
    }
    fn one() -> Self {
        Self::constant(T::one())
    }
    fn constant(v: T) -> Self {
        IdealFieldVar { value: Some(v), var: Variable::One, cs: ConstraintSystemRef::None }
    }
    fn derived(cs: &ConstraintSystemRef<CF>, tag: &str, vars: &[Variable], v: Option<T>) -> Result<Self, SynthesisError> {
        if cs.is_none() {
            return v.map(Self::constant).get();
        }
        let var = cs.new_derived(tag, vars, None)?;
        Ok(IdealFieldVar { value: v, var, cs: cs.clone() })
    }
    fn raw(cs: &ConstraintSystemRef<CF>, v: Option<T>, _: AllocationMode) -> Result<Self, SynthesisError> {
        Self::derived(cs, "graw", &[], v)
    }
    fn vars(&self) -> Vec<Variable> {
        vec![self.var]
    }
}

pub mod quadratic_extension {
    pub use super::QuadExtVar;
}
pub mod fp2 {
    pub type Fp2Var<P> = super::QuadExtVar<P>;
}
