//! Stand-in for ark-ff (API of arkworks 0.2 as far as this repository and plausible edits use it).
use crate::serialize::*;
use rand::distributions::{Distribution, Standard};
use rand::Rng;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::hash::Hash;
use std::io::{Read, Result as IoResult, Write};
use std::iter::{Product, Sum};
use std::marker::PhantomData;
use std::ops::*;
use std::str::FromStr;

pub trait Zero: Sized + Add<Self, Output = Self> {
    fn zero() -> Self;
    fn is_zero(&self) -> bool;
    fn set_zero(&mut self) {
        *self = Self::zero()
    }
}
pub trait One: Sized + Mul<Self, Output = Self> {
    fn one() -> Self;
    fn is_one(&self) -> bool
    where
        Self: PartialEq,
    {
        *self == Self::one()
    }
    fn set_one(&mut self) {
        *self = Self::one()
    }
}
pub trait UniformRand: Sized {
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self;
}
impl<T> UniformRand for T
where
    Standard: Distribution<T>,
{
    fn rand<R: Rng + ?Sized>(rng: &mut R) -> Self {
        rng.sample(Standard)
    }
}

pub trait ToBytes {
    fn write<W: Write>(&self, writer: W) -> IoResult<()>;
}
pub trait FromBytes: Sized {
    fn read<R: Read>(reader: R) -> IoResult<Self>;
}
pub fn error(msg: &'static str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, msg)
}
macro_rules! bytes_int {
    ($($t:ty),*) => {$(
        impl ToBytes for $t {
            fn write<W: Write>(&self, mut w: W) -> IoResult<()> { w.write_all(&self.to_le_bytes()) }
        }
        impl FromBytes for $t {
            fn read<R: Read>(mut r: R) -> IoResult<Self> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                r.read_exact(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
        }
    )*};
}
bytes_int!(u8, u16, u32, u64, u128);
impl ToBytes for () {
    fn write<W: Write>(&self, _: W) -> IoResult<()> {
        Ok(())
    }
}
impl ToBytes for bool {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        (*self as u8).write(w)
    }
}
impl FromBytes for bool {
    fn read<R: Read>(r: R) -> IoResult<bool> {
        match u8::read(r) {
            Ok(0) => Ok(false),
            Ok(1) => Ok(true),
            Ok(_) => Err(error("FromBytes::read failed")),
            Err(e) => Err(e),
        }
    }
}
impl<T: ToBytes> ToBytes for Vec<T> {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        self.iter().try_for_each(|x| x.write(&mut w))
    }
}
impl<T: ToBytes> ToBytes for [T] {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        self.iter().try_for_each(|x| x.write(&mut w))
    }
}
impl<T: ToBytes, const N: usize> ToBytes for [T; N] {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        self.iter().try_for_each(|x| x.write(&mut w))
    }
}
impl<const N: usize> FromBytes for [u8; N] {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut b = [0u8; N];
        r.read_exact(&mut b)?;
        Ok(b)
    }
}
impl<'a, T: 'a + ToBytes + ?Sized> ToBytes for &'a T {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        (*self).write(w)
    }
}
#[macro_export]
macro_rules! to_bytes {
    ($($x:expr),*) => ({
        let mut buf = ::std::vec![];
        { $crate::push_to_vec!(buf, $($x),*) }.map(|_| buf)
    });
}
#[macro_export]
macro_rules! push_to_vec {
    ($buf:expr, $y:expr, $($x:expr),*) => ({
        { $crate::ff::ToBytes::write(&$y, &mut $buf) }.and({$crate::push_to_vec!($buf, $($x),*)})
    });
    ($buf:expr, $x:expr) => ({ $crate::ff::ToBytes::write(&$x, &mut $buf) });
}

// ---------------------------------------------------------------- big integers
pub trait BigInteger:
    ToBytes + FromBytes + Copy + Clone + Debug + Default + Display + Eq + Ord + Send + Sync + Sized + Hash + 'static
    + From<u64> + AsRef<[u64]> + AsMut<[u64]>
{
    const NUM_LIMBS: usize;
    fn add_nocarry(&mut self, other: &Self) -> bool;
    fn sub_noborrow(&mut self, other: &Self) -> bool;
    fn mul2(&mut self);
    fn muln(&mut self, amt: u32);
    fn div2(&mut self);
    fn divn(&mut self, amt: u32);
    fn is_odd(&self) -> bool {
        self.as_ref()[0] & 1 == 1
    }
    fn is_even(&self) -> bool {
        !self.is_odd()
    }
    fn is_zero(&self) -> bool {
        self.as_ref().iter().all(|x| *x == 0)
    }
    fn num_bits(&self) -> u32;
    fn get_bit(&self, i: usize) -> bool {
        i < 64 * Self::NUM_LIMBS && self.as_ref()[i / 64] >> (i % 64) & 1 == 1
    }
    fn from_bits_be(bits: &[bool]) -> Self {
        let mut b = bits.to_vec();
        b.reverse();
        Self::from_bits_le(&b)
    }
    fn from_bits_le(bits: &[bool]) -> Self {
        let mut r = Self::default();
        for (i, b) in bits.iter().enumerate() {
            // as arkworks: indexing past the last limb panics
            r.as_mut()[i / 64] |= (*b as u64) << (i % 64);
        }
        r
    }
    fn to_bits_be(&self) -> Vec<bool> {
        let mut v = self.to_bits_le();
        v.reverse();
        v
    }
    fn to_bits_le(&self) -> Vec<bool> {
        (0..64 * Self::NUM_LIMBS).map(|i| self.get_bit(i)).collect()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.as_ref().iter().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = self.to_bytes_le();
        v.reverse();
        v
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct BigInt<const N: usize>(pub [u64; N]);
pub type BigInteger64 = BigInt<1>;
pub type BigInteger256 = BigInt<4>;
pub type BigInteger320 = BigInt<5>;
pub type BigInteger384 = BigInt<6>;
pub type BigInteger768 = BigInt<12>;
impl<const N: usize> BigInt<N> {
    pub const fn new(x: [u64; N]) -> Self {
        BigInt(x)
    }
}
impl<const N: usize> Default for BigInt<N> {
    fn default() -> Self {
        BigInt([0; N])
    }
}
impl<const N: usize> Debug for BigInt<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "0x")?;
        for l in self.0.iter().rev() {
            write!(f, "{:016x}", l)?;
        }
        Ok(())
    }
}
impl<const N: usize> Display for BigInt<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Debug::fmt(self, f)
    }
}
impl<const N: usize> PartialOrd for BigInt<N> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl<const N: usize> Ord for BigInt<N> {
    fn cmp(&self, o: &Self) -> Ordering {
        for i in (0..N).rev() {
            match self.0[i].cmp(&o.0[i]) {
                Ordering::Equal => {}
                x => return x,
            }
        }
        Ordering::Equal
    }
}
impl<const N: usize> From<u64> for BigInt<N> {
    fn from(x: u64) -> Self {
        let mut r = [0; N];
        r[0] = x;
        BigInt(r)
    }
}
impl<const N: usize> AsRef<[u64]> for BigInt<N> {
    fn as_ref(&self) -> &[u64] {
        &self.0
    }
}
impl<const N: usize> AsMut<[u64]> for BigInt<N> {
    fn as_mut(&mut self) -> &mut [u64] {
        &mut self.0
    }
}
impl<const N: usize> ToBytes for BigInt<N> {
    fn write<W: Write>(&self, mut w: W) -> IoResult<()> {
        self.0.iter().try_for_each(|l| l.write(&mut w))
    }
}
impl<const N: usize> FromBytes for BigInt<N> {
    fn read<R: Read>(mut r: R) -> IoResult<Self> {
        let mut x = [0u64; N];
        for l in x.iter_mut() {
            *l = u64::read(&mut r)?;
        }
        Ok(BigInt(x))
    }
}
impl<const N: usize> Distribution<BigInt<N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> BigInt<N> {
        let mut r = [0u64; N];
        for l in r.iter_mut() {
            *l = rng.gen();
        }
        BigInt(r)
    }
}
impl<const N: usize> BigInteger for BigInt<N> {
    const NUM_LIMBS: usize = N;
    fn add_nocarry(&mut self, o: &Self) -> bool {
        let mut c = false;
        for i in 0..N {
            let (a, c1) = self.0[i].overflowing_add(o.0[i]);
            let (a, c2) = a.overflowing_add(c as u64);
            self.0[i] = a;
            c = c1 | c2;
        }
        c
    }
    fn sub_noborrow(&mut self, o: &Self) -> bool {
        let mut c = false;
        for i in 0..N {
            let (a, c1) = self.0[i].overflowing_sub(o.0[i]);
            let (a, c2) = a.overflowing_sub(c as u64);
            self.0[i] = a;
            c = c1 | c2;
        }
        c
    }
    fn mul2(&mut self) {
        self.muln(1)
    }
    fn muln(&mut self, amt: u32) {
        for _ in 0..amt {
            let mut c = 0;
            for l in self.0.iter_mut() {
                let t = *l >> 63;
                *l = (*l << 1) | c;
                c = t;
            }
        }
    }
    fn div2(&mut self) {
        self.divn(1)
    }
    fn divn(&mut self, amt: u32) {
        for _ in 0..amt {
            let mut c = 0;
            for l in self.0.iter_mut().rev() {
                let t = *l << 63;
                *l = (*l >> 1) | c;
                c = t;
            }
        }
    }
    fn num_bits(&self) -> u32 {
        for i in (0..N).rev() {
            if self.0[i] != 0 {
                return 64 * i as u32 + 64 - self.0[i].leading_zeros();
            }
        }
        0
    }
}

/// Iterates over the bits of a slice of limbs, most significant first.
#[derive(Debug)]
pub struct BitIteratorBE<S: AsRef<[u64]>> {
    s: S,
    n: usize,
}
impl<S: AsRef<[u64]>> BitIteratorBE<S> {
    pub fn new(s: S) -> Self {
        let n = s.as_ref().len() * 64;
        BitIteratorBE { s, n }
    }
    pub fn without_leading_zeros(s: S) -> impl Iterator<Item = bool> {
        Self::new(s).skip_while(|b| !b)
    }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorBE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == 0 {
            None
        } else {
            self.n -= 1;
            Some(self.s.as_ref()[self.n / 64] >> (self.n % 64) & 1 == 1)
        }
    }
}
#[derive(Debug)]
pub struct BitIteratorLE<S: AsRef<[u64]>> {
    s: S,
    n: usize,
    max: usize,
}
impl<S: AsRef<[u64]>> BitIteratorLE<S> {
    pub fn new(s: S) -> Self {
        let max = s.as_ref().len() * 64;
        BitIteratorLE { s, n: 0, max }
    }
    pub fn without_trailing_zeros(s: S) -> impl Iterator<Item = bool> {
        let mut v: Vec<bool> = Self::new(s).collect();
        while let Some(false) = v.last() {
            v.pop();
        }
        v.into_iter()
    }
}
impl<S: AsRef<[u64]>> Iterator for BitIteratorLE<S> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.n == self.max {
            None
        } else {
            let b = self.s.as_ref()[self.n / 64] >> (self.n % 64) & 1 == 1;
            self.n += 1;
            Some(b)
        }
    }
}

// ---------------------------------------------------------------- field traits
pub trait Field:
    ToBytes + FromBytes + Copy + Clone + Debug + Display + Default + Send + Sync + 'static + Eq + Zero + One + Ord
    + Neg<Output = Self> + UniformRand + Sized + Hash + CanonicalSerialize + CanonicalDeserialize
    + CanonicalSerializeWithFlags + CanonicalDeserializeWithFlags
    + Add<Self, Output = Self> + Sub<Self, Output = Self> + Mul<Self, Output = Self> + Div<Self, Output = Self>
    + AddAssign<Self> + SubAssign<Self> + MulAssign<Self> + DivAssign<Self>
    + for<'a> Add<&'a Self, Output = Self> + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self> + for<'a> Div<&'a Self, Output = Self>
    + for<'a> AddAssign<&'a Self> + for<'a> SubAssign<&'a Self> + for<'a> MulAssign<&'a Self> + for<'a> DivAssign<&'a Self>
    + Sum<Self> + for<'a> Sum<&'a Self> + Product<Self> + for<'a> Product<&'a Self>
    + From<u128> + From<u64> + From<u32> + From<u16> + From<u8> + From<bool>
{
    type BasePrimeField: PrimeField;
    fn characteristic<'a>() -> Vec<u64> {
        Self::BasePrimeField::modulus_limbs()
    }
    fn extension_degree() -> u64;
    fn double(&self) -> Self {
        *self + self
    }
    fn double_in_place(&mut self) -> &mut Self {
        *self = self.double();
        self
    }
    fn square(&self) -> Self {
        *self * self
    }
    fn square_in_place(&mut self) -> &mut Self {
        *self = self.square();
        self
    }
    fn inverse(&self) -> Option<Self>;
    fn inverse_in_place(&mut self) -> Option<&mut Self> {
        if let Some(i) = self.inverse() {
            *self = i;
            Some(self)
        } else {
            None
        }
    }
    fn frobenius_map(&mut self, power: usize);
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::one();
        for b in BitIteratorBE::without_leading_zeros(exp) {
            res.square_in_place();
            if b {
                res *= self;
            }
        }
        res
    }
    fn from_random_bytes(bytes: &[u8]) -> Option<Self> {
        Self::from_random_bytes_with_flags::<EmptyFlags>(bytes).map(|f| f.0)
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)>;
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum LegendreSymbol {
    Zero = 0,
    QuadraticResidue = 1,
    QuadraticNonResidue = -1,
}
impl LegendreSymbol {
    pub fn is_zero(&self) -> bool {
        *self == LegendreSymbol::Zero
    }
    pub fn is_qnr(&self) -> bool {
        *self == LegendreSymbol::QuadraticNonResidue
    }
    pub fn is_qr(&self) -> bool {
        *self == LegendreSymbol::QuadraticResidue
    }
}
pub trait SquareRootField: Field {
    fn legendre(&self) -> LegendreSymbol;
    fn sqrt(&self) -> Option<Self>;
    fn sqrt_in_place(&mut self) -> Option<&mut Self> {
        let s = self.sqrt()?;
        *self = s;
        Some(self)
    }
}
pub trait FftParameters: 'static + Send + Sync + Sized {
    type BigInt: BigInteger;
}
pub trait FpParameters: FftParameters {
    const MODULUS: Self::BigInt;
    const MODULUS_BITS: u32;
    const CAPACITY: u32;
    const REPR_SHAVE_BITS: u32;
    const MODULUS_MINUS_ONE_DIV_TWO: Self::BigInt;
}
pub trait FftField: Field {}
pub trait PrimeField:
    Field<BasePrimeField = Self> + FftField + SquareRootField + FromStr + From<<Self as PrimeField>::BigInt> + Into<<Self as PrimeField>::BigInt>
{
    type Params: FpParameters<BigInt = Self::BigInt>;
    type BigInt: BigInteger;
    fn from_repr(repr: Self::BigInt) -> Option<Self>;
    fn into_repr(&self) -> Self::BigInt;
    fn modulus_limbs() -> Vec<u64>;
    fn multiplicative_generator() -> Self;
    fn size_in_bits() -> usize {
        Self::Params::MODULUS_BITS as usize
    }
    fn modulus_minus_one_div_two() -> Self::BigInt {
        Self::Params::MODULUS_MINUS_ONE_DIV_TWO
    }
    fn from_be_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut r = Self::zero();
        let k = Self::from(256u64);
        for b in bytes {
            r = r * k + Self::from(*b);
        }
        r
    }
    fn from_le_bytes_mod_order(bytes: &[u8]) -> Self {
        let mut b = bytes.to_vec();
        b.reverse();
        Self::from_be_bytes_mod_order(&b)
    }
}

// ---------------------------------------------------------------- prime fields (Montgomery form)
pub const fn c_geq<const N: usize>(a: &[u64; N], b: &[u64; N]) -> bool {
    let mut i = N;
    while i > 0 {
        i -= 1;
        if a[i] > b[i] {
            return true;
        }
        if a[i] < b[i] {
            return false;
        }
    }
    true
}
pub const fn c_sub<const N: usize>(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
    let mut r = [0u64; N];
    let mut borrow = 0u64;
    let mut i = 0;
    while i < N {
        let t = (1u128 << 64) + a[i] as u128 - b[i] as u128 - borrow as u128;
        r[i] = t as u64;
        borrow = 1 - (t >> 64) as u64;
        i += 1;
    }
    r
}
pub const fn c_shl1<const N: usize>(a: &[u64; N]) -> ([u64; N], u64) {
    let mut r = [0u64; N];
    let mut c = 0;
    let mut i = 0;
    while i < N {
        r[i] = (a[i] << 1) | c;
        c = a[i] >> 63;
        i += 1;
    }
    (r, c)
}
/// 2^k mod m
pub const fn c_pow2<const N: usize>(m: &[u64; N], k: usize) -> [u64; N] {
    let mut r = [0u64; N];
    r[0] = 1;
    if c_geq(&r, m) {
        r = c_sub(&r, m);
    }
    let mut i = 0;
    while i < k {
        let (s, c) = c_shl1(&r);
        r = if c == 1 || c_geq(&s, m) { c_sub(&s, m) } else { s };
        i += 1;
    }
    r
}
pub const fn c_inv(m0: u64) -> u64 {
    // -m0^-1 mod 2^64
    let mut x = 1u64;
    let mut i = 0;
    while i < 63 {
        x = x.wrapping_mul(x).wrapping_mul(m0);
        i += 1;
    }
    x.wrapping_neg()
}
pub const fn c_bits<const N: usize>(m: &[u64; N]) -> u32 {
    let mut i = N;
    while i > 0 {
        i -= 1;
        if m[i] != 0 {
            return 64 * i as u32 + 64 - m[i].leading_zeros();
        }
    }
    0
}
pub const fn c_half<const N: usize>(m: &[u64; N]) -> [u64; N] {
    // (m-1)/2 for odd m
    let mut r = [0u64; N];
    let mut i = 0;
    while i < N {
        r[i] = m[i] >> 1;
        if i + 1 < N {
            r[i] |= m[i + 1] << 63;
        }
        i += 1;
    }
    r
}
pub trait FpConfig<const N: usize>: FpParameters<BigInt = BigInt<N>> + Copy + Clone + Debug + Eq + Ord + Hash + Default {
    const MOD: [u64; N];
    const R: [u64; N];
    const R2: [u64; N];
    const INV: u64;
    const GEN: u64;
    const TWO_ADICITY: u32;
}
#[macro_export]
macro_rules! fp_params {
    ($name:ident, $n:expr, $gen:expr, [$($l:expr),*]) => {
        #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct $name;
        impl $crate::ff::FftParameters for $name { type BigInt = $crate::ff::BigInt<$n>; }
        impl $crate::ff::FpParameters for $name {
            const MODULUS: $crate::ff::BigInt<$n> = $crate::ff::BigInt([$($l),*]);
            const MODULUS_BITS: u32 = $crate::ff::c_bits(&[$($l),*]);
            const CAPACITY: u32 = $crate::ff::c_bits(&[$($l),*]) - 1;
            const REPR_SHAVE_BITS: u32 = 64 * $n - $crate::ff::c_bits(&[$($l),*]);
            const MODULUS_MINUS_ONE_DIV_TWO: $crate::ff::BigInt<$n> = $crate::ff::BigInt($crate::ff::c_half(&[$($l),*]));
        }
        impl $crate::ff::FpConfig<$n> for $name {
            const MOD: [u64; $n] = [$($l),*];
            const R: [u64; $n] = $crate::ff::c_pow2(&[$($l),*], 64 * $n);
            const R2: [u64; $n] = $crate::ff::c_pow2(&[$($l),*], 128 * $n);
            const INV: u64 = $crate::ff::c_inv([$($l),*][0]);
            const GEN: u64 = $gen;
            const TWO_ADICITY: u32 = {
                let m: [u64; $n] = [$($l),*];
                let mut i = 0;
                let mut t = 0;
                // trailing zeros of m-1
                if m[0] - 1 == 0 { i = 1; t = 64; while i < $n && m[i] == 0 { i += 1; t += 64; } t + if i < $n { m[i].trailing_zeros() } else { 0 } }
                else { let _ = i; (m[0] - 1).trailing_zeros() }
            };
        }
    };
}

pub struct Fp<P, const N: usize>(pub BigInt<N>, pub PhantomData<P>);
pub type Fp64<P> = Fp<P, 1>;
pub type Fp256<P> = Fp<P, 4>;
pub type Fp320<P> = Fp<P, 5>;
pub type Fp384<P> = Fp<P, 6>;
pub type Fp768<P> = Fp<P, 12>;
impl<P, const N: usize> Clone for Fp<P, N> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<P, const N: usize> Copy for Fp<P, N> {}
impl<P, const N: usize> PartialEq for Fp<P, N> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<P, const N: usize> Eq for Fp<P, N> {}
impl<P, const N: usize> Hash for Fp<P, N> {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl<P, const N: usize> Default for Fp<P, N> {
    fn default() -> Self {
        Fp(BigInt([0; N]), PhantomData)
    }
}
unsafe impl<P, const N: usize> Send for Fp<P, N> {}
unsafe impl<P, const N: usize> Sync for Fp<P, N> {}
impl<P: FpConfig<N>, const N: usize> Fp<P, N> {
    #[inline(always)]
    fn raw(x: [u64; N]) -> Self {
        Fp(BigInt(x), PhantomData)
    }
    #[inline(always)]
    fn mont(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        let m = &P::MOD;
        let mut t = [0u64; N];
        let mut t_n = 0u64;
        for i in 0..N {
            let mut c = 0u64;
            for j in 0..N {
                let x = t[j] as u128 + a[j] as u128 * b[i] as u128 + c as u128;
                t[j] = x as u64;
                c = (x >> 64) as u64;
            }
            let (s, o) = t_n.overflowing_add(c);
            t_n = s;
            let hi = o as u64;
            let k = t[0].wrapping_mul(P::INV);
            let x = t[0] as u128 + k as u128 * m[0] as u128;
            let mut c = (x >> 64) as u64;
            for j in 1..N {
                let x = t[j] as u128 + k as u128 * m[j] as u128 + c as u128;
                t[j - 1] = x as u64;
                c = (x >> 64) as u64;
            }
            let (s, o) = t_n.overflowing_add(c);
            t[N - 1] = s;
            t_n = hi + o as u64;
        }
        if t_n != 0 || c_geq(&t, m) {
            c_sub(&t, m)
        } else {
            t
        }
    }
    #[inline(always)]
    fn add_raw(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        let mut r = [0u64; N];
        let mut c = 0u64;
        for i in 0..N {
            let x = a[i] as u128 + b[i] as u128 + c as u128;
            r[i] = x as u64;
            c = (x >> 64) as u64;
        }
        if c != 0 || c_geq(&r, &P::MOD) {
            c_sub(&r, &P::MOD)
        } else {
            r
        }
    }
    #[inline(always)]
    fn sub_raw(a: &[u64; N], b: &[u64; N]) -> [u64; N] {
        if c_geq(a, b) {
            c_sub(a, b)
        } else {
            let t = c_sub(b, a);
            c_sub(&P::MOD, &t)
        }
    }
    pub fn new(element: BigInt<N>) -> Self {
        Fp(element, PhantomData)
    }
}
impl<P: FpConfig<N>, const N: usize> Zero for Fp<P, N> {
    fn zero() -> Self {
        Self::default()
    }
    fn is_zero(&self) -> bool {
        self.0 .0.iter().all(|x| *x == 0)
    }
}
impl<P: FpConfig<N>, const N: usize> One for Fp<P, N> {
    fn one() -> Self {
        Self::raw(P::R)
    }
}
/// All operator combinations from three core operations.
#[macro_export]
macro_rules! field_ops {
    ([$($g:tt)*], $t:ty, $add:expr, $sub:expr, $mul:expr) => {
        $crate::field_ops!(@bin [$($g)*], $t, Add, add, AddAssign, add_assign, $add);
        $crate::field_ops!(@bin [$($g)*], $t, Sub, sub, SubAssign, sub_assign, $sub);
        $crate::field_ops!(@bin [$($g)*], $t, Mul, mul, MulAssign, mul_assign, $mul);
        $crate::field_ops!(@bin [$($g)*], $t, Div, div, DivAssign, div_assign, |a: &$t, b: &$t| {
            let i = b.inverse().expect("division by zero");
            ($mul)(a, &i)
        });
        impl<$($g)*> Sum<$t> for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> Self { i.fold(<$t>::zero(), |a, b| a + b) } }
        impl<'a, $($g)*> Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> Self { i.fold(<$t>::zero(), |a, b| a + b) } }
        impl<$($g)*> Product<$t> for $t { fn product<I: Iterator<Item = $t>>(i: I) -> Self { i.fold(<$t>::one(), |a, b| a * b) } }
        impl<'a, $($g)*> Product<&'a $t> for $t { fn product<I: Iterator<Item = &'a $t>>(i: I) -> Self { i.fold(<$t>::one(), |a, b| a * b) } }
        impl<$($g)*> Neg for $t { type Output = $t; #[inline] fn neg(self) -> $t { ($sub)(&<$t>::zero(), &self) } }
        impl<$($g)*> Display for $t { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Debug::fmt(self, f) } }
        impl<$($g)*> PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
    };
    (@bin [$($g:tt)*], $t:ty, $T:ident, $f:ident, $TA:ident, $fa:ident, $e:expr) => {
        impl<$($g)*> $T<$t> for $t { type Output = $t; #[inline] fn $f(self, o: $t) -> $t { ($e)(&self, &o) } }
        impl<'a, $($g)*> $T<&'a $t> for $t { type Output = $t; #[inline] fn $f(self, o: &'a $t) -> $t { ($e)(&self, o) } }
        impl<'a, $($g)*> $T<&'a mut $t> for $t { type Output = $t; #[inline] fn $f(self, o: &'a mut $t) -> $t { ($e)(&self, o) } }
        impl<'a, 'b, $($g)*> $T<&'a $t> for &'b $t { type Output = $t; #[inline] fn $f(self, o: &'a $t) -> $t { ($e)(self, o) } }
        impl<'b, $($g)*> $T<$t> for &'b $t { type Output = $t; #[inline] fn $f(self, o: $t) -> $t { ($e)(self, &o) } }
        impl<$($g)*> $TA<$t> for $t { #[inline] fn $fa(&mut self, o: $t) { *self = ($e)(self, &o) } }
        impl<'a, $($g)*> $TA<&'a $t> for $t { #[inline] fn $fa(&mut self, o: &'a $t) { *self = ($e)(self, o) } }
        impl<'a, $($g)*> $TA<&'a mut $t> for $t { #[inline] fn $fa(&mut self, o: &'a mut $t) { *self = ($e)(self, o) } }
    };
}
field_ops!([P: FpConfig<N>, const N: usize], Fp<P, N>,
    |a: &Fp<P, N>, b: &Fp<P, N>| Fp::<P, N>::raw(Fp::<P, N>::add_raw(&a.0 .0, &b.0 .0)),
    |a: &Fp<P, N>, b: &Fp<P, N>| Fp::<P, N>::raw(Fp::<P, N>::sub_raw(&a.0 .0, &b.0 .0)),
    |a: &Fp<P, N>, b: &Fp<P, N>| Fp::<P, N>::raw(Fp::<P, N>::mont(&a.0 .0, &b.0 .0)));
impl<P: FpConfig<N>, const N: usize> Ord for Fp<P, N> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.into_repr().cmp(&o.into_repr())
    }
}
impl<P: FpConfig<N>, const N: usize> Debug for Fp<P, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Fp({:?})", self.into_repr())
    }
}
macro_rules! from_int {
    ($($t:ty),*) => {$(
        impl<P: FpConfig<N>, const N: usize> From<$t> for Fp<P, N> {
            fn from(x: $t) -> Self {
                let x = x as u128;
                let m = &P::MOD;
                let lo = {
                    let v = x as u64;
                    let v = if N == 1 { v % m[0] } else { v };
                    let mut r = [0u64; N]; r[0] = v;
                    Self::raw(Self::mont(&r, &P::R2))
                };
                let hi = (x >> 64) as u64;
                if hi == 0 { lo } else {
                    let h = { let v = if N == 1 { hi % m[0] } else { hi }; let mut r = [0u64; N]; r[0] = v; Self::raw(Self::mont(&r, &P::R2)) };
                    let two32 = Self::from(1u64 << 32);
                    lo + h * two32 * two32
                }
            }
        }
    )*};
}
from_int!(u128, u64, u32, u16, u8, bool);
macro_rules! from_sint {
    ($($t:ty),*) => {$(
        impl<P: FpConfig<N>, const N: usize> From<$t> for Fp<P, N> {
            fn from(x: $t) -> Self {
                let a = Self::from(x.unsigned_abs() as u128);
                if x < 0 { -a } else { a }
            }
        }
    )*};
}
from_sint!(i8, i16, i32, i64, i128);
impl<P: FpConfig<N>, const N: usize> From<BigInt<N>> for Fp<P, N> {
    fn from(x: BigInt<N>) -> Self {
        Self::from_repr(x).expect("not reduced")
    }
}
impl<P: FpConfig<N>, const N: usize> From<Fp<P, N>> for BigInt<N> {
    fn from(x: Fp<P, N>) -> Self {
        x.into_repr()
    }
}
impl<P: FpConfig<N>, const N: usize> FromStr for Fp<P, N> {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        if s.is_empty() {
            return Err(());
        }
        let mut r = Self::zero();
        let ten = Self::from(10u64);
        for c in s.chars() {
            r = r * ten + Self::from(c.to_digit(10).ok_or(())? as u64);
        }
        Ok(r)
    }
}
impl<P: FpConfig<N>, const N: usize> ToBytes for Fp<P, N> {
    fn write<W: Write>(&self, w: W) -> IoResult<()> {
        self.into_repr().write(w)
    }
}
impl<P: FpConfig<N>, const N: usize> FromBytes for Fp<P, N> {
    fn read<R: Read>(r: R) -> IoResult<Self> {
        BigInt::<N>::read(r).and_then(|b| Self::from_repr(b).ok_or_else(|| error("FromBytes::read failed")))
    }
}
impl<P: FpConfig<N>, const N: usize> Distribution<Fp<P, N>> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Fp<P, N> {
        loop {
            let mut t: BigInt<N> = rng.sample(Standard);
            t.0[N - 1] &= u64::MAX.checked_shr(P::REPR_SHAVE_BITS).unwrap_or(0);
            if !c_geq(&t.0, &P::MOD) {
                return Fp(t, PhantomData);
            }
        }
    }
}
impl<P: FpConfig<N>, const N: usize> Field for Fp<P, N> {
    type BasePrimeField = Self;
    fn extension_degree() -> u64 {
        1
    }
    fn inverse(&self) -> Option<Self> {
        if self.is_zero() {
            return None;
        }
        // binary extended Euclid on the Montgomery representation (as arkworks)
        let one = BigInt::<N>::from(1);
        let m = BigInt(P::MOD);
        let (mut u, mut v) = (self.0, m);
        let mut b = Self::raw(P::R2);
        let mut c = Self::zero();
        let half = |x: &mut BigInt<N>| {
            if x.is_even() {
                x.div2();
            } else {
                let carry = x.add_nocarry(&m);
                x.div2();
                if carry {
                    x.0[N - 1] |= 1 << 63;
                }
            }
        };
        while u != one && v != one {
            while u.is_even() {
                u.div2();
                half(&mut b.0);
            }
            while v.is_even() {
                v.div2();
                half(&mut c.0);
            }
            if v < u {
                u.sub_noborrow(&v);
                b -= c;
            } else {
                v.sub_noborrow(&u);
                c -= b;
            }
        }
        Some(if u == one { b } else { c })
    }
    fn frobenius_map(&mut self, _: usize) {}
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        if F::BIT_SIZE > 8 {
            return None;
        }
        let mut buf = vec![0u8; 8 * N + 1];
        for (r, b) in buf.iter_mut().zip(bytes) {
            *r = *b;
        }
        let mask = u64::MAX.checked_shr(P::REPR_SHAVE_BITS).unwrap_or(0).to_le_bytes();
        let flag_location = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE) - 1;
        let flags_mask = u8::MAX.checked_shl(8 - F::BIT_SIZE as u32).unwrap_or(0);
        let flags = buf[flag_location] & flags_mask;
        for i in 0..9 {
            buf[8 * (N - 1) + i] &= if i < 8 { mask[i] } else { 0 };
        }
        let f = Self::deserialize(&mut &buf[..8 * N]).ok()?;
        F::from_u8(flags).map(|fl| (f, fl))
    }
}
impl<P: FpConfig<N>, const N: usize> FftField for Fp<P, N> {}
impl<P: FpConfig<N>, const N: usize> SquareRootField for Fp<P, N> {
    fn legendre(&self) -> LegendreSymbol {
        let s = self.pow(P::MODULUS_MINUS_ONE_DIV_TWO);
        if s.is_zero() {
            LegendreSymbol::Zero
        } else if s.is_one() {
            LegendreSymbol::QuadraticResidue
        } else {
            LegendreSymbol::QuadraticNonResidue
        }
    }
    fn sqrt(&self) -> Option<Self> {
        // Tonelli-Shanks
        if self.is_zero() {
            return Some(*self);
        }
        let s = P::TWO_ADICITY;
        let mut t = BigInt(P::MOD);
        t.sub_noborrow(&BigInt::from(1));
        t.divn(s);
        let mut tm = t; // (t-1)/2
        tm.div2();
        let w = self.pow(tm);
        let mut x = *self * w;
        let mut b = x * w;
        // a non-residue to the t
        let mut z = Self::from(P::GEN).pow(t);
        let mut v = s;
        while !b.is_one() {
            let mut k = 0;
            let mut b2 = b;
            while !b2.is_one() {
                b2 = b2.square();
                k += 1;
                if k == v {
                    return None;
                }
            }
            let mut zz = z;
            for _ in 0..v - k - 1 {
                zz = zz.square();
            }
            x *= zz;
            z = zz.square();
            b *= z;
            v = k;
        }
        if x.square() == *self {
            Some(x)
        } else {
            None
        }
    }
}
impl<P: FpConfig<N>, const N: usize> PrimeField for Fp<P, N> {
    type Params = P;
    type BigInt = BigInt<N>;
    fn from_repr(r: BigInt<N>) -> Option<Self> {
        if c_geq(&r.0, &P::MOD) {
            None
        } else {
            Some(Self::raw(Self::mont(&r.0, &P::R2)))
        }
    }
    fn into_repr(&self) -> BigInt<N> {
        let mut one = [0u64; N];
        one[0] = 1;
        BigInt(Self::mont(&self.0 .0, &one))
    }
    fn modulus_limbs() -> Vec<u64> {
        P::MOD.to_vec()
    }
    fn multiplicative_generator() -> Self {
        Self::from(P::GEN)
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalSerializeWithFlags for Fp<P, N> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        if F::BIT_SIZE > 8 {
            return Err(SerializationError::NotEnoughSpace);
        }
        let size = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut b = vec![0u8; 8 * N + 1];
        self.write(&mut b[..8 * N])?;
        b[size - 1] |= flags.u8_bitmask();
        w.write_all(&b[..size])?;
        Ok(())
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE)
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalSerialize for Fp<P, N> {
    fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> {
        self.serialize_with_flags(w, EmptyFlags)
    }
    fn serialized_size(&self) -> usize {
        self.serialized_size_with_flags::<EmptyFlags>()
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalDeserializeWithFlags for Fp<P, N> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        if F::BIT_SIZE > 8 {
            return Err(SerializationError::NotEnoughSpace);
        }
        let size = buffer_byte_size(P::MODULUS_BITS as usize + F::BIT_SIZE);
        let mut b = vec![0u8; 8 * N + 1];
        r.read_exact(&mut b[..size])?;
        let fl = F::from_u8_remove_flags(&mut b[size - 1]).ok_or(SerializationError::UnexpectedFlags)?;
        if b[8 * N] != 0 {
            return Err(SerializationError::InvalidData);
        }
        Ok((Self::read(&b[..8 * N])?, fl))
    }
}
impl<P: FpConfig<N>, const N: usize> CanonicalDeserialize for Fp<P, N> {
    fn deserialize<R: Read>(r: R) -> Result<Self, SerializationError> {
        Self::deserialize_with_flags::<R, EmptyFlags>(r).map(|x| x.0)
    }
}

// ---------------------------------------------------------------- quadratic and cubic extensions
pub trait QuadExt: 'static + Send + Sync + Copy + Clone + Debug + Eq + Ord + Hash + Default {
    type Base: Field;
    fn mul_nonresidue(x: &Self::Base) -> Self::Base;
    /// nonresidue^((p^i - 1)/2)
    fn frob(i: usize) -> Self::Base;
    const DEGREE: usize; // of Base over the prime field
}
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct QuadExtField<P: QuadExt> {
    pub c0: P::Base,
    pub c1: P::Base,
    p: PhantomData<P>,
}
impl<P: QuadExt> QuadExtField<P> {
    pub fn new(c0: P::Base, c1: P::Base) -> Self {
        QuadExtField { c0, c1, p: PhantomData }
    }
    pub fn conjugate(&mut self) {
        self.c1 = -self.c1;
    }
    pub fn mul_assign_by_basefield(&mut self, e: &P::Base) {
        self.c0 *= e;
        self.c1 *= e;
    }
    pub fn norm(&self) -> P::Base {
        self.c0.square() - P::mul_nonresidue(&self.c1.square())
    }
}
field_ops!([P: QuadExt], QuadExtField<P>,
    |a: &QuadExtField<P>, b: &QuadExtField<P>| QuadExtField::<P>::new(a.c0 + b.c0, a.c1 + b.c1),
    |a: &QuadExtField<P>, b: &QuadExtField<P>| QuadExtField::<P>::new(a.c0 - b.c0, a.c1 - b.c1),
    |a: &QuadExtField<P>, b: &QuadExtField<P>| {
        let v0 = a.c0 * b.c0;
        let v1 = a.c1 * b.c1;
        let m = (a.c0 + a.c1) * (b.c0 + b.c1);
        QuadExtField::<P>::new(v0 + P::mul_nonresidue(&v1), m - v0 - v1)
    });
impl<P: QuadExt> Zero for QuadExtField<P> {
    fn zero() -> Self {
        Self::new(P::Base::zero(), P::Base::zero())
    }
    fn is_zero(&self) -> bool {
        self.c0.is_zero() && self.c1.is_zero()
    }
}
impl<P: QuadExt> One for QuadExtField<P> {
    fn one() -> Self {
        Self::new(P::Base::one(), P::Base::zero())
    }
}
impl<P: QuadExt> Ord for QuadExtField<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.c1.cmp(&o.c1).then(self.c0.cmp(&o.c0))
    }
}
impl<P: QuadExt> Debug for QuadExtField<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "({:?} + {:?}*u)", self.c0, self.c1)
    }
}
macro_rules! ext_common {
    ([$($g:tt)*], $t:ty, $($c:ident),*) => {
        ext_common!(@from [$($g)*], $t; u128, u64, u32, u16, u8, bool);
        impl<$($g)*> ToBytes for $t { fn write<W: Write>(&self, mut w: W) -> IoResult<()> { $(self.$c.write(&mut w)?;)* Ok(()) } }
        impl<$($g)*> Distribution<$t> for Standard { fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $t { <$t>::new($({ let $c = UniformRand::rand(rng); $c }),*) } }
        impl<$($g)*> FromBytes for $t { fn read<R: Read>(mut r: R) -> IoResult<Self> { $(let $c = FromBytes::read(&mut r)?;)* Ok(<$t>::new($($c),*)) } }
        impl<$($g)*> CanonicalSerialize for $t {
            fn serialize<W: Write>(&self, w: W) -> Result<(), SerializationError> { self.serialize_with_flags(w, EmptyFlags) }
            fn serialized_size(&self) -> usize { self.serialized_size_with_flags::<EmptyFlags>() }
        }
        impl<$($g)*> CanonicalDeserialize for $t {
            fn deserialize<R: Read>(mut r: R) -> Result<Self, SerializationError> { $(let $c = CanonicalDeserialize::deserialize(&mut r)?;)* Ok(<$t>::new($($c),*)) }
        }
    };
    (@from [$($g:tt)*], $t:ty; $($i:ty),*) => { ext_common!(@from1 [$($g)*] $t; $($i),*); };
    (@from1 [$($g:tt)*] $t:ty; $i:ty) => { ext_common!(@from2 [$($g)*] $t; $i); };
    (@from1 [$($g:tt)*] $t:ty; $i:ty, $($r:ty),*) => { ext_common!(@from2 [$($g)*] $t; $i); ext_common!(@from1 [$($g)*] $t; $($r),*); };
    (@from2 [$($g:tt)*] $t:ty; $i:ty) => { impl<$($g)*> From<$i> for $t { fn from(x: $i) -> Self { let mut r = <$t>::zero(); r.c0 = x.into(); r } } };
}
ext_common!([P: QuadExt], QuadExtField<P>, c0, c1);
impl<P: QuadExt> CanonicalSerializeWithFlags for QuadExtField<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        self.c0.serialize(&mut w)?;
        self.c1.serialize_with_flags(&mut w, flags)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        self.c0.serialized_size() + self.c1.serialized_size_with_flags::<F>()
    }
}
impl<P: QuadExt> CanonicalDeserializeWithFlags for QuadExtField<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let c0 = CanonicalDeserialize::deserialize(&mut r)?;
        let (c1, f) = CanonicalDeserializeWithFlags::deserialize_with_flags(&mut r)?;
        Ok((Self::new(c0, c1), f))
    }
}
impl<P: QuadExt> Field for QuadExtField<P> {
    type BasePrimeField = <P::Base as Field>::BasePrimeField;
    fn extension_degree() -> u64 {
        2 * P::Base::extension_degree()
    }
    fn square(&self) -> Self {
        let ab = self.c0 * self.c1;
        let s = (self.c0 + self.c1) * (self.c0 + P::mul_nonresidue(&self.c1));
        Self::new(s - ab - P::mul_nonresidue(&ab), ab.double())
    }
    fn inverse(&self) -> Option<Self> {
        let n = self.norm().inverse()?;
        Some(Self::new(self.c0 * n, -(self.c1 * n)))
    }
    fn frobenius_map(&mut self, power: usize) {
        self.c0.frobenius_map(power);
        self.c1.frobenius_map(power);
        self.c1 *= P::frob(power % (2 * P::DEGREE));
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let split = bytes.len() / 2;
        let c0 = P::Base::from_random_bytes(&bytes[..split])?;
        let (c1, f) = P::Base::from_random_bytes_with_flags(&bytes[split..])?;
        Some((Self::new(c0, c1), f))
    }
}
impl<P: QuadExt> SquareRootField for QuadExtField<P>
where
    P::Base: PrimeField,
{
    fn legendre(&self) -> LegendreSymbol {
        self.norm().legendre()
    }
    fn sqrt(&self) -> Option<Self> {
        if self.c1.is_zero() {
            if let Some(c0) = self.c0.sqrt() {
                return Some(Self::new(c0, P::Base::zero()));
            }
            // c0 = nonresidue * y^2
            let nr = P::mul_nonresidue(&P::Base::one());
            return (self.c0 / nr).sqrt().map(|c1| Self::new(P::Base::zero(), c1));
        }
        let alpha = self.norm().sqrt()?;
        let two_inv = P::Base::one().double().inverse().unwrap();
        let mut delta = (alpha + self.c0) * two_inv;
        if delta.legendre().is_qnr() {
            delta -= alpha;
        }
        let c0 = delta.sqrt()?;
        let c0_inv = c0.inverse()?;
        let r = Self::new(c0, self.c1 * two_inv * c0_inv);
        if r.square() == *self {
            Some(r)
        } else {
            None
        }
    }
}
pub type Fp2<P> = QuadExtField<P>;
pub trait CubicExt: 'static + Send + Sync + Copy + Clone + Debug + Eq + Ord + Hash + Default {
    type Base: Field;
    fn mul_nonresidue(x: &Self::Base) -> Self::Base;
    /// (nonresidue^((p^i-1)/3), nonresidue^(2(p^i-1)/3))
    fn frob(i: usize) -> (Self::Base, Self::Base);
    const DEGREE: usize;
}
#[derive(Copy, Clone, PartialEq, Eq, Hash, Default)]
pub struct CubicExtField<P: CubicExt> {
    pub c0: P::Base,
    pub c1: P::Base,
    pub c2: P::Base,
    p: PhantomData<P>,
}
impl<P: CubicExt> CubicExtField<P> {
    pub fn new(c0: P::Base, c1: P::Base, c2: P::Base) -> Self {
        CubicExtField { c0, c1, c2, p: PhantomData }
    }
}
field_ops!([P: CubicExt], CubicExtField<P>,
    |a: &CubicExtField<P>, b: &CubicExtField<P>| CubicExtField::<P>::new(a.c0 + b.c0, a.c1 + b.c1, a.c2 + b.c2),
    |a: &CubicExtField<P>, b: &CubicExtField<P>| CubicExtField::<P>::new(a.c0 - b.c0, a.c1 - b.c1, a.c2 - b.c2),
    |a: &CubicExtField<P>, b: &CubicExtField<P>| {
        let (ad, be, cf) = (a.c0 * b.c0, a.c1 * b.c1, a.c2 * b.c2);
        let x = (a.c1 + a.c2) * (b.c1 + b.c2) - be - cf;
        let y = (a.c0 + a.c1) * (b.c0 + b.c1) - ad - be;
        let z = (a.c0 + a.c2) * (b.c0 + b.c2) - ad + be - cf;
        CubicExtField::<P>::new(ad + P::mul_nonresidue(&x), y + P::mul_nonresidue(&cf), z)
    });
impl<P: CubicExt> Zero for CubicExtField<P> {
    fn zero() -> Self {
        Self::new(P::Base::zero(), P::Base::zero(), P::Base::zero())
    }
    fn is_zero(&self) -> bool {
        self.c0.is_zero() && self.c1.is_zero() && self.c2.is_zero()
    }
}
impl<P: CubicExt> One for CubicExtField<P> {
    fn one() -> Self {
        Self::new(P::Base::one(), P::Base::zero(), P::Base::zero())
    }
}
impl<P: CubicExt> Ord for CubicExtField<P> {
    fn cmp(&self, o: &Self) -> Ordering {
        self.c2.cmp(&o.c2).then(self.c1.cmp(&o.c1)).then(self.c0.cmp(&o.c0))
    }
}
impl<P: CubicExt> Debug for CubicExtField<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "({:?},{:?},{:?})", self.c0, self.c1, self.c2)
    }
}
ext_common!([P: CubicExt], CubicExtField<P>, c0, c1, c2);
impl<P: CubicExt> CanonicalSerializeWithFlags for CubicExtField<P> {
    fn serialize_with_flags<W: Write, F: Flags>(&self, mut w: W, flags: F) -> Result<(), SerializationError> {
        self.c0.serialize(&mut w)?;
        self.c1.serialize(&mut w)?;
        self.c2.serialize_with_flags(&mut w, flags)
    }
    fn serialized_size_with_flags<F: Flags>(&self) -> usize {
        self.c0.serialized_size() + self.c1.serialized_size() + self.c2.serialized_size_with_flags::<F>()
    }
}
impl<P: CubicExt> CanonicalDeserializeWithFlags for CubicExtField<P> {
    fn deserialize_with_flags<R: Read, F: Flags>(mut r: R) -> Result<(Self, F), SerializationError> {
        let c0 = CanonicalDeserialize::deserialize(&mut r)?;
        let c1 = CanonicalDeserialize::deserialize(&mut r)?;
        let (c2, f) = CanonicalDeserializeWithFlags::deserialize_with_flags(&mut r)?;
        Ok((Self::new(c0, c1, c2), f))
    }
}
impl<P: CubicExt> Field for CubicExtField<P> {
    type BasePrimeField = <P::Base as Field>::BasePrimeField;
    fn extension_degree() -> u64 {
        3 * P::Base::extension_degree()
    }
    fn inverse(&self) -> Option<Self> {
        let s0 = self.c0.square() - P::mul_nonresidue(&(self.c1 * self.c2));
        let s1 = P::mul_nonresidue(&self.c2.square()) - self.c0 * self.c1;
        let s2 = self.c1.square() - self.c0 * self.c2;
        let t = (self.c0 * s0 + P::mul_nonresidue(&(self.c2 * s1 + self.c1 * s2))).inverse()?;
        Some(Self::new(s0 * t, s1 * t, s2 * t))
    }
    fn frobenius_map(&mut self, power: usize) {
        self.c0.frobenius_map(power);
        self.c1.frobenius_map(power);
        self.c2.frobenius_map(power);
        let (a, b) = P::frob(power % (3 * P::DEGREE));
        self.c1 *= a;
        self.c2 *= b;
    }
    fn from_random_bytes_with_flags<F: Flags>(bytes: &[u8]) -> Option<(Self, F)> {
        let n = bytes.len() / 3;
        let c0 = P::Base::from_random_bytes(&bytes[..n])?;
        let c1 = P::Base::from_random_bytes(&bytes[n..2 * n])?;
        let (c2, f) = P::Base::from_random_bytes_with_flags(&bytes[2 * n..])?;
        Some((Self::new(c0, c1, c2), f))
    }
}
#[macro_export]
macro_rules! field_new {
    ($name:ident, $value:expr) => {
        <$name as core::str::FromStr>::from_str($value).unwrap()
    };
}
#[allow(non_snake_case)]
pub const fn BigInteger256(limbs: [u64; 4]) -> BigInteger256 {
    BigInt(limbs)
}
#[allow(non_snake_case)]
pub const fn BigInteger384(limbs: [u64; 6]) -> BigInteger384 {
    BigInt(limbs)
}
pub fn batch_inversion<F: Field>(v: &mut [F]) {
    let mut prod = Vec::with_capacity(v.len());
    let mut acc = F::one();
    for x in v.iter() {
        if !x.is_zero() {
            acc *= x;
            prod.push(acc);
        }
    }
    let mut inv = acc.inverse().unwrap();
    for (x, p) in v
        .iter_mut()
        .rev()
        .filter(|x| !x.is_zero())
        .zip(prod.into_iter().rev().skip(1).chain(Some(F::one())))
    {
        let n = inv * *x;
        *x = inv * p;
        inv = n;
    }
}
/// Field elements as vectors of prime-field elements.
pub trait ToConstraintField<F: Field> {
    fn to_field_elements(&self) -> Option<Vec<F>>;
}
impl<P: FpConfig<N>, const N: usize> ToConstraintField<Fp<P, N>> for Fp<P, N> {
    fn to_field_elements(&self) -> Option<Vec<Fp<P, N>>> {
        Some(vec![*self])
    }
}
impl<F: Field> ToConstraintField<F> for [F] {
    fn to_field_elements(&self) -> Option<Vec<F>> {
        Some(self.to_vec())
    }
}
impl<F: Field> ToConstraintField<F> for Vec<F> {
    fn to_field_elements(&self) -> Option<Vec<F>> {
        Some(self.clone())
    }
}
impl<F: Field> ToConstraintField<F> for () {
    fn to_field_elements(&self) -> Option<Vec<F>> {
        Some(vec![])
    }
}
