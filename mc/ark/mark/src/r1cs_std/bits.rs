use super::alloc::*;
use super::eq::EqGadget;
use super::select::CondSelectGadget;
use super::*;
use crate::ff::*;
use crate::relations::*;
use std::borrow::Borrow;

pub trait ToBitsGadget<F: Field> {
    fn to_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError>;
    fn to_non_unique_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        self.to_bits_le()
    }
    fn to_bits_be(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        let mut b = self.to_bits_le()?;
        b.reverse();
        Ok(b)
    }
    fn to_non_unique_bits_be(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        let mut b = self.to_non_unique_bits_le()?;
        b.reverse();
        Ok(b)
    }
}
pub trait ToBytesGadget<F: Field> {
    fn to_bytes(&self) -> Result<Vec<uint8::UInt8<F>>, SynthesisError>;
    fn to_non_unique_bytes(&self) -> Result<Vec<uint8::UInt8<F>>, SynthesisError> {
        self.to_bytes()
    }
}
impl<F: Field> ToBitsGadget<F> for boolean::Boolean<F> {
    fn to_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        Ok(vec![self.clone()])
    }
}
impl<F: Field> ToBitsGadget<F> for [boolean::Boolean<F>] {
    fn to_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        Ok(self.to_vec())
    }
}
impl<F: Field> ToBitsGadget<F> for Vec<boolean::Boolean<F>> {
    fn to_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        Ok(self.clone())
    }
}
impl<F: Field> ToBitsGadget<F> for uint8::UInt8<F> {
    fn to_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        Ok(self.bits.to_vec())
    }
}
impl<F: Field> ToBitsGadget<F> for [uint8::UInt8<F>] {
    fn to_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        Ok(self.iter().flat_map(|b| b.bits.to_vec()).collect())
    }
}
impl<F: Field> ToBitsGadget<F> for Vec<uint8::UInt8<F>> {
    fn to_bits_le(&self) -> Result<Vec<boolean::Boolean<F>>, SynthesisError> {
        self.as_slice().to_bits_le()
    }
}
impl<F: Field> ToBytesGadget<F> for [uint8::UInt8<F>] {
    fn to_bytes(&self) -> Result<Vec<uint8::UInt8<F>>, SynthesisError> {
        Ok(self.to_vec())
    }
}

pub mod boolean {
    use super::*;
    use crate::r1cs_std::fields::fp::{AllocatedFp, FpVar};
    #[derive(Clone, Debug)]
    pub struct AllocatedBool<F: Field> {
        pub(crate) variable: Variable,
        pub(crate) cs: ConstraintSystemRef<F>,
        pub(crate) value: Option<bool>,
    }
    impl<F: Field> PartialEq for AllocatedBool<F> {
        fn eq(&self, o: &Self) -> bool {
            self.variable == o.variable && self.cs == o.cs
        }
    }
    impl<F: Field> Eq for AllocatedBool<F> {}
    impl<F: Field> AllocatedBool<F> {
        pub fn value(&self) -> Result<bool, SynthesisError> {
            if self.value.is_none() {
                return Err(SynthesisError::AssignmentMissing);
            }
            Ok(self.value.unwrap())
        }
        pub fn variable(&self) -> Variable {
            self.variable
        }
        pub fn cs(&self) -> ConstraintSystemRef<F> {
            self.cs.clone()
        }
    }
    impl<F: Field> AllocVar<bool, F> for AllocatedBool<F> {
        fn new_variable<T: Borrow<bool>>(
            cs: impl Into<Namespace<F>>,
            f: impl FnOnce() -> Result<T, SynthesisError>,
            mode: AllocationMode,
        ) -> Result<Self, SynthesisError> {
            let cs = cs.into().cs();
            let fe = |b: bool| if b { F::one() } else { F::zero() };
            if mode == AllocationMode::Constant {
                let v = *f()?.borrow();
                let variable = if v { Variable::One } else { Variable::Zero };
                return Ok(AllocatedBool { variable, cs, value: Some(v) });
            }
            let mut value = None;
            let gen = || {
                let witness = chosen(mode == AllocationMode::Witness);
                let mut v = honest_or(f().map(|b| *b.borrow()), witness, || false)?;
                if witness {
                    choose(Choice::Bool, &mut v);
                }
                value = Some(v);
                Ok(fe(v))
            };
            let variable = if mode == AllocationMode::Input { cs.new_input_variable(gen)? } else { cs.new_witness_variable(gen)? };
            // b * (1 - b) = 0
            cs.enforce_constraint(
                LinearCombination::from(Variable::One) - variable,
                LinearCombination::from(variable),
                LinearCombination::zero(),
            )?;
            Ok(AllocatedBool { variable, cs, value })
        }
    }
    pub type AllocatedBit<F> = AllocatedBool<F>;
    #[derive(Clone, Debug, PartialEq, Eq)]
    pub enum Boolean<F: Field> {
        Is(AllocatedBool<F>),
        Not(AllocatedBool<F>),
        Constant(bool),
    }
    impl<F: Field> From<AllocatedBool<F>> for Boolean<F> {
        fn from(b: AllocatedBool<F>) -> Self {
            Boolean::Is(b)
        }
    }
    impl<F: Field> R1CSVar<F> for Boolean<F> {
        type Value = bool;
        fn cs(&self) -> ConstraintSystemRef<F> {
            match self {
                Self::Is(a) | Self::Not(a) => a.cs.clone(),
                _ => ConstraintSystemRef::None,
            }
        }
        fn value(&self) -> Result<bool, SynthesisError> {
            match self {
                Boolean::Constant(c) => Ok(*c),
                Boolean::Is(v) => v.value(),
                Boolean::Not(v) => v.value().map(|b| !b),
            }
        }
    }
    impl<F: Field> Boolean<F> {
        pub const TRUE: Self = Boolean::Constant(true);
        pub const FALSE: Self = Boolean::Constant(false);
        pub fn constant(b: bool) -> Self {
            Boolean::Constant(b)
        }
        pub fn constant_vec_from_bytes(v: &[u8]) -> Vec<Self> {
            v.iter().flat_map(|b| (0..8).map(move |i| Boolean::Constant(b >> i & 1 == 1))).collect()
        }
        pub fn lc(&self) -> LinearCombination<F> {
            match self {
                Boolean::Constant(false) => LinearCombination::zero(),
                Boolean::Constant(true) => LinearCombination::from(Variable::One),
                Boolean::Is(v) => LinearCombination::from(v.variable),
                Boolean::Not(v) => LinearCombination::from(Variable::One) - v.variable,
            }
        }
        /// Variable and negation, for structural fingerprints of ideal gadgets.
        pub(crate) fn var(&self) -> Variable {
            match self {
                Boolean::Constant(false) => Variable::Zero,
                Boolean::Constant(true) => Variable::One,
                Boolean::Is(v) | Boolean::Not(v) => v.variable,
            }
        }
        /// A bit computed and fully constrained by a library gadget.
        pub(crate) fn derived(cs: &ConstraintSystemRef<F>, tag: &str, vars: &[Variable], v: Option<bool>) -> Result<Self, SynthesisError> {
            if cs.is_none() {
                return v.map(Boolean::Constant).ok_or(SynthesisError::AssignmentMissing);
            }
            let variable = cs.new_derived(tag, vars, v.map(|b| if b { F::one() } else { F::zero() }))?;
            Ok(Boolean::Is(AllocatedBool { variable, cs: cs.clone(), value: v }))
        }
        pub fn not(&self) -> Self {
            match self {
                Boolean::Constant(c) => Boolean::Constant(!c),
                Boolean::Is(v) => Boolean::Not(v.clone()),
                Boolean::Not(v) => Boolean::Is(v.clone()),
            }
        }
        fn bin(&self, o: &Self, tag: &str, f: impl Fn(bool, bool) -> bool) -> Result<Self, SynthesisError> {
            let v = match (self.value(), o.value()) {
                (Ok(a), Ok(b)) => Some(f(a, b)),
                _ => None,
            };
            let t = format!("{}{}{}", tag, matches!(self, Boolean::Not(_)) as u8, matches!(o, Boolean::Not(_)) as u8);
            Self::derived(&self.cs().or(o.cs()), &t, &[self.var(), o.var()], v)
        }
        pub fn xor<'a>(&'a self, o: &'a Self) -> Result<Self, SynthesisError> {
            match (self, o) {
                (Boolean::Constant(false), x) | (x, Boolean::Constant(false)) => Ok(x.clone()),
                (Boolean::Constant(true), x) | (x, Boolean::Constant(true)) => Ok(x.not()),
                _ => self.bin(o, "xor", |a, b| a ^ b),
            }
        }
        pub fn or<'a>(&'a self, o: &'a Self) -> Result<Self, SynthesisError> {
            match (self, o) {
                (Boolean::Constant(false), x) | (x, Boolean::Constant(false)) => Ok(x.clone()),
                (Boolean::Constant(true), _) | (_, Boolean::Constant(true)) => Ok(Boolean::Constant(true)),
                _ => self.bin(o, "or", |a, b| a | b),
            }
        }
        pub fn and<'a>(&'a self, o: &'a Self) -> Result<Self, SynthesisError> {
            match (self, o) {
                (Boolean::Constant(true), x) | (x, Boolean::Constant(true)) => Ok(x.clone()),
                (Boolean::Constant(false), _) | (_, Boolean::Constant(false)) => Ok(Boolean::Constant(false)),
                _ => self.bin(o, "and", |a, b| a & b),
            }
        }
        pub fn kary_and(bits: &[Self]) -> Result<Self, SynthesisError> {
            assert!(!bits.is_empty());
            let mut r = bits[0].clone();
            for b in &bits[1..] {
                r = r.and(b)?;
            }
            Ok(r)
        }
        pub fn kary_or(bits: &[Self]) -> Result<Self, SynthesisError> {
            assert!(!bits.is_empty());
            let mut r = bits[0].clone();
            for b in &bits[1..] {
                r = r.or(b)?;
            }
            Ok(r)
        }
        pub fn kary_nand(bits: &[Self]) -> Result<Self, SynthesisError> {
            Ok(Self::kary_and(bits)?.not())
        }
        pub fn enforce_kary_nand(bits: &[Self]) -> Result<(), SynthesisError> {
            Self::kary_nand(bits)?.enforce_equal(&Boolean::TRUE)
        }
        pub fn enforce_kary_or(bits: &[Self]) -> Result<(), SynthesisError> {
            Self::kary_or(bits)?.enforce_equal(&Boolean::TRUE)
        }
        /// Enforces that the little-endian number is smaller than the modulus.
        pub fn enforce_in_field_le(bits: &[Self]) -> Result<(), SynthesisError>
        where
            F: PrimeField,
        {
            let mut m = F::characteristic();
            let mut i = 0;
            while m[i] == 0 {
                m[i] = u64::MAX;
                i += 1;
            }
            m[i] -= 1;
            Self::enforce_smaller_or_equal_than_le(bits, m)?;
            Ok(())
        }
        /// Enforces that the little-endian number is at most `element`.
        pub fn enforce_smaller_or_equal_than_le(bits: &[Self], element: impl AsRef<[u64]>) -> Result<Vec<Self>, SynthesisError> {
            let vals = bits.iter().map(|b| b.value()).collect::<Result<Vec<_>, _>>().ok();
            let holds = vals.map(|v| {
                let e = element.as_ref();
                let bit = |i: usize| i / 64 < e.len() && e[i / 64] >> (i % 64) & 1 == 1;
                for i in (0..v.len().max(64 * e.len())).rev() {
                    let a = v.get(i).copied().unwrap_or(false);
                    if a != bit(i) {
                        return bit(i);
                    }
                }
                true
            });
            let cs = bits.cs();
            let vars: Vec<_> = bits.iter().map(|b| b.var()).collect();
            if cs.is_none() {
                return if holds == Some(true) { Ok(vec![]) } else { Err(SynthesisError::Unsatisfiable) };
            }
            cs.enforce_predicate("le", &vars, holds)?;
            Ok(vec![])
        }
        pub fn select<T: CondSelectGadget<F>>(&self, first: &T, second: &T) -> Result<T, SynthesisError> {
            T::conditionally_select(self, first, second)
        }
        pub fn le_bits_to_fp_var(bits: &[Self]) -> Result<FpVar<F>, SynthesisError>
        where
            F: PrimeField,
        {
            let mut val = F::zero();
            let mut lc = LinearCombination::zero();
            let mut known = true;
            let mut k = F::one();
            for b in bits {
                match b.value() {
                    Ok(true) => val += k,
                    Ok(false) => {}
                    Err(_) => known = false,
                }
                lc = lc + (k, b.lc());
                k = k + k;
            }
            let cs = bits.cs();
            if cs.is_none() {
                return Ok(FpVar::Constant(val));
            }
            if bits.len() >= F::size_in_bits() {
                Self::enforce_in_field_le(bits)?;
            }
            let variable = cs.new_lc(lc)?;
            Ok(FpVar::Var(AllocatedFp { value: if known { Some(val) } else { None }, variable, cs }))
        }
    }
    impl<F: Field> AllocVar<bool, F> for Boolean<F> {
        fn new_variable<T: Borrow<bool>>(
            cs: impl Into<Namespace<F>>,
            f: impl FnOnce() -> Result<T, SynthesisError>,
            mode: AllocationMode,
        ) -> Result<Self, SynthesisError> {
            if mode == AllocationMode::Constant {
                Ok(Boolean::Constant(*f()?.borrow()))
            } else {
                AllocatedBool::new_variable(cs, f, mode).map(Boolean::from)
            }
        }
    }
    impl<F: Field> EqGadget<F> for Boolean<F> {
        fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> {
            Ok(self.xor(o)?.not())
        }
        fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
            match (self, o) {
                (Boolean::Constant(a), Boolean::Constant(b)) if a == b => return Ok(()),
                (Boolean::Constant(_), Boolean::Constant(_)) => return Err(SynthesisError::AssignmentMissing),
                _ => {}
            }
            if c != &Boolean::Constant(false) {
                let cs = self.cs().or(o.cs()).or(c.cs());
                cs.enforce_constraint(self.lc() - o.lc(), c.lc(), LinearCombination::zero())?;
            }
            Ok(())
        }
        fn conditional_enforce_not_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
            match (self, o) {
                (Boolean::Constant(a), Boolean::Constant(b)) if a != b => return Ok(()),
                (Boolean::Constant(_), Boolean::Constant(_)) => return Err(SynthesisError::AssignmentMissing),
                _ => {}
            }
            if c != &Boolean::Constant(false) {
                let cs = self.cs().or(o.cs()).or(c.cs());
                // a + b = 1 whenever c
                cs.enforce_constraint(self.lc() + o.lc() - Variable::One, c.lc(), LinearCombination::zero())?;
            }
            Ok(())
        }
    }
    impl<F: Field> CondSelectGadget<F> for Boolean<F> {
        fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
            match c {
                Boolean::Constant(true) => Ok(t.clone()),
                Boolean::Constant(false) => Ok(f.clone()),
                _ => {
                    let v = match (c.value(), t.value(), f.value()) {
                        (Ok(c), Ok(t), Ok(f)) => Some(if c { t } else { f }),
                        _ => None,
                    };
                    let n = |b: &Boolean<F>| matches!(b, Boolean::Not(_)) as u8;
                    let tag = format!("bsel{}{}{}", n(c), n(t), n(f));
                    Boolean::derived(&c.cs().or(t.cs()).or(f.cs()), &tag, &[c.var(), t.var(), f.var()], v)
                }
            }
        }
    }
    impl<F: Field> ToBytesGadget<F> for Boolean<F> {
        fn to_bytes(&self) -> Result<Vec<uint8::UInt8<F>>, SynthesisError> {
            let mut b = vec![self.clone()];
            b.resize(8, Boolean::Constant(false));
            Ok(vec![uint8::UInt8::from_bits_le(&b)])
        }
    }
}
pub mod uint8 {
    use super::boolean::Boolean;
    use super::*;
    #[derive(Clone, Debug)]
    pub struct UInt8<F: Field> {
        pub(crate) bits: Vec<Boolean<F>>,
        pub(crate) value: Option<u8>,
    }
    impl<F: Field> R1CSVar<F> for UInt8<F> {
        type Value = u8;
        fn cs(&self) -> ConstraintSystemRef<F> {
            self.bits.as_slice().cs()
        }
        fn value(&self) -> Result<u8, SynthesisError> {
            let mut r = 0;
            for (i, b) in self.bits.iter().enumerate() {
                r |= (b.value()? as u8) << i;
            }
            debug_assert_eq!(self.value, Some(r));
            Ok(r)
        }
    }
    impl<F: Field> UInt8<F> {
        pub fn constant_vec(v: &[u8]) -> Vec<Self> {
            v.iter().map(|b| Self::constant(*b)).collect()
        }
        pub fn constant(v: u8) -> Self {
            UInt8 { bits: (0..8).map(|i| Boolean::Constant(v >> i & 1 == 1)).collect(), value: Some(v) }
        }
        pub fn into_bits_le(&self) -> Vec<Boolean<F>> {
            self.bits.to_vec()
        }
        pub fn new_witness_vec(cs: impl Into<Namespace<F>>, v: &[impl Into<Option<u8>> + Copy]) -> Result<Vec<Self>, SynthesisError> {
            let cs = cs.into().cs();
            v.iter().map(|b| Self::new_witness(cs.clone(), || Into::<Option<u8>>::into(*b).get())).collect()
        }
        pub fn from_bits_le(bits: &[Boolean<F>]) -> Self {
            assert_eq!(bits.len(), 8);
            let mut value = Some(0);
            for (i, b) in bits.iter().enumerate() {
                value = match (value, b.value()) {
                    (Some(v), Ok(b)) => Some(v | (b as u8) << i),
                    _ => None,
                };
            }
            UInt8 { bits: bits.to_vec(), value }
        }
        pub fn xor(&self, o: &Self) -> Result<Self, SynthesisError> {
            let b = self.bits.iter().zip(&o.bits).map(|(a, b)| a.xor(b)).collect::<Result<Vec<_>, _>>()?;
            Ok(Self::from_bits_le(&b))
        }
    }
    impl<F: Field> AllocVar<u8, F> for UInt8<F> {
        fn new_variable<T: Borrow<u8>>(
            cs: impl Into<Namespace<F>>,
            f: impl FnOnce() -> Result<T, SynthesisError>,
            mode: AllocationMode,
        ) -> Result<Self, SynthesisError> {
            let cs = cs.into().cs();
            let v = f().map(|b| *b.borrow()).ok();
            let bits = (0..8)
                .map(|i| Boolean::new_variable(cs.clone(), || v.map(|b| b >> i & 1 == 1).get(), mode))
                .collect::<Result<Vec<_>, _>>()?;
            Ok(Self::from_bits_le(&bits))
        }
    }
    impl<F: Field> EqGadget<F> for UInt8<F> {
        fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> {
            let v = self.bits.iter().zip(&o.bits).map(|(a, b)| a.is_eq(b)).collect::<Result<Vec<_>, _>>()?;
            Boolean::kary_and(&v)
        }
        fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
            self.bits.iter().zip(&o.bits).try_for_each(|(a, b)| a.conditional_enforce_equal(b, c))
        }
    }
    impl<F: Field> CondSelectGadget<F> for UInt8<F> {
        fn conditionally_select(c: &Boolean<F>, t: &Self, f: &Self) -> Result<Self, SynthesisError> {
            let b = t.bits.iter().zip(&f.bits).map(|(a, b)| c.select(a, b)).collect::<Result<Vec<_>, _>>()?;
            Ok(Self::from_bits_le(&b))
        }
    }
}
pub mod uint {}
macro_rules! uint {
    ($m:ident, $n:ident, $t:ty, $s:expr) => {
        pub mod $m {
            use super::boolean::Boolean;
            use super::*;
            #[derive(Clone, Debug)]
            pub struct $n<F: Field> {
                pub(crate) bits: Vec<Boolean<F>>,
            }
            impl<F: Field> R1CSVar<F> for $n<F> {
                type Value = $t;
                fn cs(&self) -> ConstraintSystemRef<F> {
                    self.bits.as_slice().cs()
                }
                fn value(&self) -> Result<$t, SynthesisError> {
                    let mut r: $t = 0;
                    for (i, b) in self.bits.iter().enumerate() {
                        r |= (b.value()? as $t) << i;
                    }
                    Ok(r)
                }
            }
            impl<F: Field> $n<F> {
                pub fn constant(v: $t) -> Self {
                    $n { bits: (0..$s).map(|i| Boolean::Constant(v >> i & 1 == 1)).collect() }
                }
                pub fn to_bits_le(&self) -> Vec<Boolean<F>> {
                    self.bits.clone()
                }
                pub fn from_bits_le(bits: &[Boolean<F>]) -> Self {
                    assert_eq!(bits.len(), $s);
                    $n { bits: bits.to_vec() }
                }
            }
            impl<F: Field> AllocVar<$t, F> for $n<F> {
                fn new_variable<T: Borrow<$t>>(
                    cs: impl Into<Namespace<F>>,
                    f: impl FnOnce() -> Result<T, SynthesisError>,
                    mode: AllocationMode,
                ) -> Result<Self, SynthesisError> {
                    let cs = cs.into().cs();
                    let v = f().map(|b| *b.borrow()).ok();
                    let bits = (0..$s)
                        .map(|i| Boolean::new_variable(cs.clone(), || v.map(|b| b >> i & 1 == 1).get(), mode))
                        .collect::<Result<Vec<_>, _>>()?;
                    Ok($n { bits })
                }
            }
            impl<F: Field> EqGadget<F> for $n<F> {
                fn is_eq(&self, o: &Self) -> Result<Boolean<F>, SynthesisError> {
                    let v = self.bits.iter().zip(&o.bits).map(|(a, b)| a.is_eq(b)).collect::<Result<Vec<_>, _>>()?;
                    Boolean::kary_and(&v)
                }
                fn conditional_enforce_equal(&self, o: &Self, c: &Boolean<F>) -> Result<(), SynthesisError> {
                    self.bits.iter().zip(&o.bits).try_for_each(|(a, b)| a.conditional_enforce_equal(b, c))
                }
            }
        }
    };
}
uint!(uint16, UInt16, u16, 16);
uint!(uint32, UInt32, u32, 32);
uint!(uint64, UInt64, u64, 64);
