//! C20-C23, C26: the gadgets, over tiny fields with every prover assignment and over the real fields with
//! bounded deviations.
use crate::explore::*;
use crate::o::*;
use ark_bls12_377::{Fq, Fr, G1Projective, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{Field, FpParameters, One, PrimeField, Zero};
use ark_r1cs_std::{alloc::*, boolean::Boolean, fields::fp::FpVar, R1CSVar};
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, SynthesisError, SynthesisMode};
use bls_gadgets::verif::Bitmap;
use bls_gadgets::{FpUtils, YToBitGadget};
use mc_common::{caught, ensure, seq, viol, CaseResult, Check};

mark::fp_params!(P5, 1, 2, [5]);
mark::fp_params!(P7, 1, 3, [7]);
mark::fp_params!(P11, 1, 2, [11]);
mark::fp_params!(P13, 1, 2, [13]);
mark::fp_params!(P17, 1, 3, [17]);
mark::fp_params!(P31, 1, 3, [31]);
mark::fp_params!(P61, 1, 2, [61]);
pub type F5 = mark::ff::Fp64<P5>;
pub type F7 = mark::ff::Fp64<P7>;
pub type F11 = mark::ff::Fp64<P11>;
pub type F13 = mark::ff::Fp64<P13>;
pub type F17 = mark::ff::Fp64<P17>;
pub type F31 = mark::ff::Fp64<P31>;
pub type F61 = mark::ff::Fp64<P61>;

pub fn small<F: PrimeField>(x: &F) -> u64 {
    let r = x.into_repr();
    let l: &[u64] = r.as_ref();
    assert!(l[1..].iter().all(|x| *x == 0));
    l[0]
}
pub fn setup_cs<F: PrimeField>() -> ConstraintSystemRef<F> {
    let cs = ConstraintSystem::new_ref();
    cs.set_mode(SynthesisMode::Setup);
    cs
}
pub fn new_cs<F: PrimeField>() -> ConstraintSystemRef<F> {
    ConstraintSystem::new_ref()
}
/// A statement input: in setup mode its value is not available.
pub fn inp<F: PrimeField>(cs: &ConstraintSystemRef<F>, v: F) -> FpVar<F> {
    let setup = cs.is_in_setup_mode();
    FpVar::new_input(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(v) }).unwrap()
}
pub fn inb<F: PrimeField>(cs: &ConstraintSystemRef<F>, v: bool) -> Boolean<F> {
    let setup = cs.is_in_setup_mode();
    Boolean::new_input(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(v) }).unwrap()
}
pub fn sat<F: PrimeField>(cs: &ConstraintSystemRef<F>, r: &Result<impl Sized, SynthesisError>) -> bool {
    r.is_ok() && cs.is_satisfied().unwrap_or(false)
}

// ------------------------------------------------------------------------------------------------ C20
/// bit forms: 0 variable, 1 negated variable, 2 constant
fn mk_bits<F: PrimeField>(cs: &ConstraintSystemRef<F>, bits: &[usize], forms: &[usize]) -> Vec<Boolean<F>> {
    bits.iter()
        .zip(forms)
        .map(|(b, f)| match f {
            0 => inb(cs, *b == 1),
            1 => inb(cs, *b == 0).not(),
            _ => Boolean::constant(*b == 1),
        })
        .collect()
}
fn occ<F: PrimeField>(bits: &[usize], forms: &[usize], max: F, max_const: bool, value: bool, setup: bool) -> (bool, u64) {
    let cs = if setup { setup_cs() } else { new_cs() };
    let b = mk_bits(&cs, bits, forms);
    let m = if max_const { FpVar::Constant(max) } else { inp(&cs, max) };
    let r = b.enforce_maximum_occurrences_in_bitmap(&m, value);
    (sat(&cs, &r) || (setup && r.is_ok()), cs.shape())
}
fn c20_case<F: PrimeField>(alts: &Alts, bound: usize, bits: &[usize], forms: &[usize], max: F, max_const: bool, value: bool) -> Result<u64, mc_common::Viol> {
    let count = bits.iter().filter(|b| (**b == 1) == value).count() as u64;
    let over = F::from(count) > max;
    let what = || format!("bits {:?} forms {:?} counting {} maximum {}{} ({} occurrences)", bits, forms, value, max, if max_const { " (constant)" } else { "" }, count);
    let mut honest = None;
    let mut bad = None;
    let n = explore(
        alts,
        bound,
        || occ(bits, forms, max, max_const, value, false).0,
        |s, r| {
            if s.deviations() == 0 {
                honest = Some(r);
            }
            if r == Some(true) && over && bad.is_none() {
                bad = Some(s.show())
            }
        },
    );
    if let Some(b) = bad {
        return Err(viol("too-many-accepted", format!("{}: accepted, {}", what(), b)));
    }
    if max < half::<F>() {
        let plain = caught(|| occ(bits, forms, max, max_const, value, false).0);
        ensure!(plain == Ok(!over), "honest", "{}: honest proof gives {:?}, expected satisfied = {}", what(), plain, !over);
        ensure!(honest.flatten() == Some(!over), "honest", "{}: replayed honest proof gives {:?}", what(), honest);
    }
    if max_const && max >= half::<F>() {
        return Ok(n + 1); // no comparison with such a constant can be generated
    }
    let a = caught(|| occ(bits, forms, max, max_const, value, false).1);
    let b = caught(|| occ(bits, forms, max, max_const, value, true));
    match (&a, &b) {
        (Ok(a), Ok((true, b))) => ensure!(a == b, "setup-shape", "{}: the constraints differ between setup and proving", what()),
        _ => return Err(viol("setup-shape", format!("{}: setup {:?} proving {:?}", what(), b, a))),
    }
    Ok(n + 3)
}
fn c20_tiny<F: PrimeField>(c: &Check, name: &str, nmax_forms: usize, nmax: usize) {
    let p = F::Params::MODULUS.as_ref()[0];
    // all bit forms
    for n in 1..=nmax_forms.min(p as usize - 1) {
        let total = (3u64.pow(n as u32)) * (1 << n) * p * 4;
        let dec = |i: u64| {
            let (fl, i) = (i % 4, i / 4);
            let (max, i) = (F::from(i % p), i / p);
            let (b, f) = (i % (1 << n), i >> n);
            (seq(b, 2, n), seq(f, 3, n), max, fl & 1 == 1, fl & 2 == 2)
        };
        let runs = std::sync::atomic::AtomicU64::new(0);
        c.par(
            &format!("{} {} bits, every form", name, n),
            total,
            1,
            |i| {
                let (b, f, max, mc, v) = dec(i);
                if f.iter().all(|x| *x == 2) {
                    return Ok(());
                }
                runs.fetch_add(c20_case(&tiny_alts::<F>(), 9, &b, &f, max, mc, v)?, std::sync::atomic::Ordering::Relaxed);
                Ok(())
            },
            |i| format!("{:?}", dec(i)),
        );
        c.transitions.fetch_add(runs.into_inner(), std::sync::atomic::Ordering::Relaxed);
    }
    // uniform forms, one constant position
    for n in nmax_forms + 1..=nmax.min(p as usize - 1) {
        let total = (1u64 << n) * p * 4 * 4;
        let dec = |i: u64| {
            let (fl, i) = (i % 4, i / 4);
            let (fm, i) = ((i % 4) as usize, i / 4);
            let (max, b) = (F::from(i % p), i / p);
            let forms: Vec<usize> = (0..n)
                .map(|j| match fm {
                    0 => 0,
                    1 => 1,
                    2 => j % 2,
                    _ => {
                        if j == n / 2 || j == n - 1 {
                            2
                        } else {
                            0
                        }
                    }
                })
                .collect();
            (seq(b, 2, n), forms, max, fl & 1 == 1, fl & 2 == 2)
        };
        let runs = std::sync::atomic::AtomicU64::new(0);
        c.par(
            &format!("{} {} bits, four patterns of forms", name, n),
            total,
            1,
            |i| {
                let (b, f, max, mc, v) = dec(i);
                runs.fetch_add(c20_case(&tiny_alts::<F>(), 9, &b, &f, max, mc, v)?, std::sync::atomic::Ordering::Relaxed);
                Ok(())
            },
            |i| format!("{:?}", dec(i)),
        );
        c.transitions.fetch_add(runs.into_inner(), std::sync::atomic::Ordering::Relaxed);
    }
}
pub fn c20(c: &Check) {
    c.assume("the comparison of two field elements, provided by arkworks, is ideal: both sides are forced to at most (p-1)/2 and compared exactly");
    c20_tiny::<F5>(c, "field of 5,", 4, 4);
    c20_tiny::<F7>(c, "field of 7,", 4, 6);
    c20_tiny::<F11>(c, "field of 11,", c.pick(3, 4), c.pick(7, 10));
    c20_tiny::<F13>(c, "field of 13,", c.pick(2, 4), c.pick(7, 12));
    if c.thorough() {
        c20_tiny::<F17>(c, "field of 17,", 4, 11);
    }
    // the real field
    let nmax = c.pick(8, 12);
    for n in 1..=nmax {
        let total = (1u64 << n) * (n as u64 + 4) * 2;
        let dec = |i: u64| {
            let (v, i) = (i % 2 == 1, i / 2);
            let (m, b) = (i % (n as u64 + 4), i / (n as u64 + 4));
            let max = match m as usize {
                m if m <= n + 1 => Fq::from(m as u64),
                m if m == n + 2 => Fq::from(u32::MAX),
                _ => half::<Fq>() - Fq::one(),
            };
            (seq(b, 2, n), vec![0; n], max, v)
        };
        c.par(
            &format!("field of BLS12-377, {} bits", n),
            total,
            24,
            |i| {
                let (b, f, max, v) = dec(i);
                c20_case(&std_alts(), 1, &b, &f, max, false, v).map(|_| ())
            },
            |i| format!("{:?}", dec(i)),
        );
    }
    // long bitmaps: k matching bits among len, spread in three ways
    let lens = [100usize, 150, 255, 256, 257, 300, 511, 512, 513, 1024];
    let mut l = vec![];
    for len in lens {
        for k in [0usize, 1, 33, 127, 128, 255, 256, 257, 300, 511, 512, 513, 1023, 1024].into_iter().chain([len - 1, len]) {
            if k > len {
                continue;
            }
            for max in [0usize, 1, k.saturating_sub(256), k.saturating_sub(255), k.saturating_sub(1), k, k + 1, k + 256, 65535, 65536] {
                for spread in 0..3 {
                    for v in [false, true] {
                        l.push((len, k, max, spread, v))
                    }
                }
            }
        }
    }
    l.sort();
    l.dedup();
    c.par(
        "long bitmaps in the field of BLS12-377",
        l.len() as u64,
        24,
        |i| {
            let (len, k, max, spread, v) = l[i as usize];
            let bits: Vec<usize> = (0..len)
                .map(|j| {
                    let on = match spread {
                        0 => j < k,
                        1 => j >= len - k,
                        _ => ((j + 1) * k / len) > (j * k / len),
                    };
                    (on == v) as usize
                })
                .collect();
            c20_case(&std_alts(), 1, &bits, &vec![0; len], Fq::from(max as u64), false, v).map(|_| ())
        },
        |i| format!("(length, matching, maximum, spread, value) = {:?}", l[i as usize]),
    );
}

// ------------------------------------------------------------------------------------------------ C21
/// How the element reaches the gadget: 0 variable, 1 sum of two variables, 2 constant, 3 variable plus constant.
pub fn element<F: PrimeField>(cs: &ConstraintSystemRef<F>, v: F, form: usize) -> FpVar<F> {
    let k = F::from(3u64);
    match form {
        0 => inp(cs, v),
        1 => inp(cs, v - k) + inp(cs, k),
        2 => FpVar::Constant(v),
        _ => inp(cs, v - k) + FpVar::Constant(k),
    }
}
fn bit_of<F: PrimeField>(b: Result<Boolean<F>, SynthesisError>) -> Result<bool, SynthesisError> {
    b?.value()
}
fn c21_bit<F: PrimeField>(
    alts: &Alts,
    what: &dyn Fn() -> String,
    expect: bool,
    weak: bool,
    gadget: &dyn Fn(&ConstraintSystemRef<F>) -> Result<Boolean<F>, SynthesisError>,
) -> Result<u64, mc_common::Viol> {
    let cs = new_cs();
    let h = caught(|| bit_of(gadget(&cs)));
    ensure!(matches!(&h, Ok(Ok(b)) if *b == expect) && cs.is_satisfied() == Ok(true), "honest", "{}: honest prover gets {:?}, satisfied {:?}, expected {}", what(), h, cs.is_satisfied(), expect);
    let scs = setup_cs();
    let s = caught(|| gadget(&scs).map(|_| ()));
    ensure!(matches!(s, Ok(Ok(()))) && scs.shape() == cs.shape(), "setup-shape", "{}: setup gives {:?}, constraints differ: {}", what(), s, scs.shape() != cs.shape());
    let mut bad = None;
    let n = explore(
        alts,
        99,
        || {
            let cs = new_cs();
            let b = bit_of(gadget(&cs));
            (sat(&cs, &b), b)
        },
        |s, r| {
            if let Some((true, b)) = r {
                if b != Ok(expect) && bad.is_none() {
                    bad = Some(format!("{}, returned {:?}", s.show(), b))
                }
            }
        },
    );
    match bad {
        Some(b) => Err(viol(if weak { "half-both-bits" } else { "other-bit" }, format!("{}: expected {} only, but satisfied with {}", what(), expect, b))),
        None => Ok(n + 2),
    }
}
fn c21_field<F: PrimeField>(c: &Check, name: &str, els: Vec<F>, alts: fn() -> Alts) {
    for (g, gadget) in ["is_eq_zero", "normalize"].into_iter().enumerate() {
        let runs = std::sync::atomic::AtomicU64::new(0);
        c.par(
            &format!("{} over {}", gadget, name),
            els.len() as u64 * 4,
            1,
            |i| {
                let (v, form) = (els[i as usize / 4], i as usize % 4);
                let expect = if g == 0 { v.is_zero() } else { v > half::<F>() };
                let n = c21_bit::<F>(
                    &alts(),
                    &|| format!("{} of {} given in form {}", gadget, v, form),
                    expect,
                    g == 1 && v == half::<F>(),
                    &|cs| {
                        let e = element(cs, v, form);
                        if g == 0 {
                            e.is_eq_zero()
                        } else {
                            e.normalize()
                        }
                    },
                )?;
                runs.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                Ok(())
            },
            |i| format!("element {} in form {}", els[i as usize / 4], i % 4),
        );
        c.transitions.fetch_add(runs.into_inner(), std::sync::atomic::Ordering::Relaxed);
    }
}
pub fn boundaries<F: PrimeField>(more: bool) -> Vec<F> {
    let (o, h) = (F::one(), half::<F>());
    let mut v = vec![F::zero(), o, o.double(), h - o, h, h + o, h + o.double(), -o.double(), -o];
    if more {
        let s = F::Params::MODULUS_BITS;
        for k in [1, 8, 16, 32, 63, 64, 127, 128, 255, s - 3, s - 2] {
            if k < s - 1 {
                v.extend([pow2::<F>(k), pow2::<F>(k) - o, -pow2::<F>(k), h + pow2::<F>(k), h - pow2::<F>(k)]);
            }
        }
        for k in 0..12 {
            let b = pat((s as usize + 7) / 8 - 1, k);
            v.push(F::from_le_bytes_mod_order(&b));
            v.push(-F::from_le_bytes_mod_order(&b));
        }
    }
    v.sort();
    v.dedup();
    v
}
type G1V = ark_bls12_377::constraints::G1Var;
type G2V = ark_bls12_377::constraints::G2Var;
type F2V = ark_bls12_377::constraints::Fq2Var;
pub fn c21(c: &Check) {
    c.assume("the test that a field element is at most (p-1)/2, provided by arkworks, is ideal");
    c21_field::<F5>(c, "the field of 5", all(), tiny_alts::<F5>);
    c21_field::<F7>(c, "the field of 7", all(), tiny_alts::<F7>);
    c21_field::<F11>(c, "the field of 11", all(), tiny_alts::<F11>);
    c21_field::<F13>(c, "the field of 13", all(), tiny_alts::<F13>);
    c21_field::<F17>(c, "the field of 17", all(), tiny_alts::<F17>);
    c21_field::<F31>(c, "the field of 31", all(), tiny_alts::<F31>);
    if c.thorough() {
        c21_field::<F61>(c, "the field of 61", all(), tiny_alts::<F61>);
    }
    c21_field::<Fq>(c, "the field of BLS12-377 (boundary elements)", boundaries(true), std_alts);
    c21_field::<Fr>(c, "the scalar field of BLS12-377 (boundary elements)", boundaries(true), std_alts);
    // y_to_bit on coordinates
    let hf = half::<Fq>();
    let ys = boundaries::<Fq>(true);
    c.par(
        "y_to_bit in G1, every boundary y",
        ys.len() as u64 * 3,
        40,
        |i| {
            let (y, form) = (ys[i as usize / 3], [0, 1, 3][i as usize % 3]);
            c21_bit::<Fq>(&std_alts(), &|| format!("y_to_bit of y = {}", y), y > hf, y == hf, &|cs| {
                G1V::new(inp(cs, Fq::from(5u64)), element(cs, y, form), FpVar::Constant(Fq::one())).y_to_bit()
            })
            .map(|_| ())
        },
        |i| format!("y = {} in form {}", ys[i as usize / 3], i % 3),
    );
    let ys = boundaries::<Fq>(c.thorough());
    let m = ys.len() as u64;
    c.par(
        "y_to_bit in G2, every pair of boundary coordinates",
        m * m * 3,
        200,
        |i| {
            let (f, i) = (i % 3, i / 3);
            let (c0, c1) = (ys[(i % m) as usize], ys[(i / m) as usize]);
            let expect = c1 > hf || (c1.is_zero() && c0 > hf);
            let weak = c1 == hf || (c1.is_zero() && c0 == hf);
            let (f0, f1) = [(0, 0), (2, 0), (0, 2)][f as usize];
            c21_bit::<Fq>(&std_alts(), &|| format!("y_to_bit of y = {} + {} u in forms {} {}", c0, c1, f0, f1), expect, weak, &|cs| {
                let x = F2V::new(inp(cs, Fq::from(5u64)), inp(cs, Fq::from(7u64)));
                G2V::new(x, F2V::new(element(cs, c0, f0), element(cs, c1, f1)), F2V::new(FpVar::Constant(Fq::one()), FpVar::Constant(Fq::zero()))).y_to_bit()
            })
            .map(|_| ())
        },
        |i| format!("y = {} + {} u", ys[(i / 3 % m) as usize], ys[(i / 3 / m) as usize]),
    );
    // real points
    let k = c.pick(12i64, 40);
    c.par(
        "y_to_bit of multiples of the generators",
        4 * k as u64,
        100,
        |i| {
            let n = (i as i64 / 4 + 1) * if i & 1 == 0 { 1 } else { -1 };
            if i & 2 == 0 {
                let p = g1(n);
                let y = p.into_affine().y;
                c21_bit::<Fq>(&std_alts(), &|| format!("y_to_bit of {} G1", n), y > hf, y == hf, &|cs| in_point1(cs, p).y_to_bit()).map(|_| ())
            } else {
                let p = g2(n);
                let y = p.into_affine().y;
                let e = y.c1 > hf || (y.c1.is_zero() && y.c0 > hf);
                c21_bit::<Fq>(&std_alts(), &|| format!("y_to_bit of {} G2", n), e, y.c1 == hf, &|cs| in_point2(cs, p).y_to_bit()).map(|_| ())
            }
        },
        |i| format!("multiple {}", i),
    );
}
pub fn in_point1(cs: &ConstraintSystemRef<Fq>, p: G1Projective) -> G1V {
    let setup = cs.is_in_setup_mode();
    use ark_r1cs_std::groups::CurveVar;
    G1V::new_variable_omit_prime_order_check(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(p) }, AllocationMode::Input).unwrap()
}
pub fn in_point2(cs: &ConstraintSystemRef<Fq>, p: G2Projective) -> G2V {
    let setup = cs.is_in_setup_mode();
    use ark_r1cs_std::groups::CurveVar;
    G2V::new_variable_omit_prime_order_check(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(p) }, AllocationMode::Input).unwrap()
}

// ------------------------------------------------------------------------------------------------ C22
use ark_ec::PairingEngine;
use ark_r1cs_std::groups::CurveVar;
use ark_r1cs_std::pairing::PairingVar;
use bls_gadgets::BlsVerifyGadget;
use mark::r1cs_std::pairing::toy::PairingVar as ToyPairing;
use mark::toy::{ToyCfg, ToyEngine, ToyPoint};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Cfg5;
impl ToyCfg for Cfg5 {
    type Fr = F5;
    type Fqk = F11;
    fn gt() -> F11 {
        F11::from(3u64)
    }
}
mark::fp_params!(P29, 1, 2, [29]);
pub type F29 = mark::ff::Fp64<P29>;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct Cfg7;
impl ToyCfg for Cfg7 {
    type Fr = F7;
    type Fqk = F29;
    fn gt() -> F29 {
        F29::from(7u64)
    }
}
type CF = F31;
type TG<C> = BlsVerifyGadget<ToyEngine<C>, CF, ToyPairing<C>>;
type T1<C> = <ToyPairing<C> as PairingVar<ToyEngine<C>, CF>>::G1Var;
type T2<C> = <ToyPairing<C> as PairingVar<ToyEngine<C>, CF>>::G2Var;
type P1<C> = ToyPoint<<C as ToyCfg>::Fr, 1>;
type P2<C> = ToyPoint<<C as ToyCfg>::Fr, 2>;
fn toy_all<C: ToyCfg>() -> Alts {
    fn one<F: PrimeField, const T: usize>(_: &ToyPoint<F, T>) -> Vec<ToyPoint<F, T>> {
        all::<F>().into_iter().map(ToyPoint).collect()
    }
    std::rc::Rc::new(|_, kind, v, k| {
        fn p<T: std::any::Any + PartialEq + Clone>(v: &mut dyn std::any::Any, k: usize, f: impl Fn(&T) -> Vec<T>) -> Option<usize> {
            crate::explore::pick(v, k, f)
        }
        p::<bool>(v, k, |b| vec![!*b])
            .or_else(|| p::<CF>(v, k, field_alts))
            .or_else(|| p::<P1<C>>(v, k, one))
            .or_else(|| p::<P2<C>>(v, k, one))
            .unwrap_or_else(|| panic!("no alternatives known for a choice of kind {:?}", kind))
    })
}
fn tp1<C: ToyCfg>(cs: &ConstraintSystemRef<CF>, v: C::Fr, constant: bool) -> T1<C> {
    let m = if constant { AllocationMode::Constant } else { AllocationMode::Input };
    let setup = cs.is_in_setup_mode() && !constant;
    T1::<C>::new_variable_omit_prime_order_check(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(ToyPoint(v)) }, m).unwrap()
}
fn tp2<C: ToyCfg>(cs: &ConstraintSystemRef<CF>, v: C::Fr, constant: bool) -> T2<C> {
    let m = if constant { AllocationMode::Constant } else { AllocationMode::Input };
    let setup = cs.is_in_setup_mode() && !constant;
    T2::<C>::new_variable_omit_prime_order_check(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(ToyPoint(v)) }, m).unwrap()
}
/// The verdict of a circuit: honest prover, then every prover. `run` builds it in the given system.
fn verdict<F: PrimeField>(
    alts: &Alts,
    bound: usize,
    expect: bool,
    what: &dyn Fn() -> String,
    run: &dyn Fn(&ConstraintSystemRef<F>) -> Result<(), SynthesisError>,
) -> Result<u64, mc_common::Viol> {
    let cs = new_cs();
    let h = caught(|| run(&cs));
    let ok = matches!(&h, Ok(r) if sat(&cs, r));
    ensure!(ok == expect, "honest", "{}: honest prover satisfied = {} ({:?} {:?}), expected {}", what(), ok, h, cs.which_is_unsatisfied(), expect);
    if expect {
        let scs = setup_cs();
        let s = caught(|| run(&scs));
        ensure!(matches!(s, Ok(Ok(()))) && scs.shape() == cs.shape(), "setup-shape", "{}: setup gives {:?}, constraints differ: {}", what(), s, scs.shape() != cs.shape());
        return Ok(2);
    }
    let mut bad = None;
    let n = explore(
        alts,
        bound,
        || {
            let cs = new_cs();
            let r = run(&cs);
            sat(&cs, &r)
        },
        |s, r| {
            if r == Some(true) && bad.is_none() {
                bad = Some(s.show())
            }
        },
    );
    match bad {
        Some(b) => Err(viol("accepted", format!("{}: accepted with {}", what(), b))),
        None => Ok(n + 1),
    }
}
fn c22_engine<C: ToyCfg>(c: &Check, name: &str, nmax: usize, nbatch: usize) {
    let q = C::Fr::from(0u64);
    let _ = q;
    let q = <C::Fr as PrimeField>::Params::MODULUS.as_ref()[0];
    let runs = AtomicU64::new(0);
    // verify
    for n in 1..=nmax {
        let nforms: u64 = if n <= 2 { 16 } else { 1 };
        let pads = [0u64, 1, 2];
        let total = q.pow(n as u32) * (1 << n) * q * q * (n as u64 + 2) * 3 * nforms;
        let dec = |i: u64| {
            let (f, i) = (i % nforms, i / nforms);
            let (pad, i) = (pads[(i % 3) as usize], i / 3);
            let (max, i) = (i % (n as u64 + 2), i / (n as u64 + 2));
            let (sig, i) = (i % q, i / q);
            let (h, i) = (i % q, i / q);
            let (b, k) = (i % (1 << n), i >> n);
            (seq(k, q, n), seq(b, 2, n), h, sig, max, pad, f)
        };
        c.par(
            &format!("{}: verify with {} keys", name, n),
            total,
            1,
            |i| {
                let (keys, bits, h, sig, max, pad, f) = dec(i);
                let fe = |x: u64| C::Fr::from(x);
                // (arkworks refuses to compare two equal constants conditionally)
                let f = if keys.iter().any(|k| *k as u64 == pad) { f & !1 } else { f };
                let zeros = bits.iter().filter(|b| **b == 0).count() as u64;
                let sum = keys.iter().zip(&bits).filter(|(_, b)| **b == 1).fold(0, |a, (k, _)| a + *k as u64) % q;
                let padded = keys.iter().zip(&bits).any(|(k, b)| *b == 1 && *k as u64 == pad);
                let expect = zeros <= max && !padded && sig == h * sum % q;
                let n = verdict::<CF>(&toy_all::<C>(), 9, expect, &|| format!("keys {:?} bitmap {:?} hash {} signature {} maximum {} padding key {}", keys, bits, h, sig, max, pad), &|cs| {
                    let k: Vec<_> = keys.iter().map(|k| tp2::<C>(cs, fe(*k as u64), f & 1 == 1)).collect();
                    let b: Vec<_> = bits.iter().enumerate().map(|(j, b)| if j == 1 && f & 1 == 1 { Boolean::constant(*b == 1) } else { inb(cs, *b == 1) }).collect();
                    let h = tp1::<C>(cs, fe(h), f & 2 == 2);
                    let m = if f & 8 == 8 { FpVar::Constant(CF::from(max)) } else { inp(cs, CF::from(max)) };
                    let s = tp1::<C>(cs, fe(sig), f & 4 == 4);
                    TG::<C>::verify(&k, &b, &h, &s, &m, &T2::<C>::constant(ToyPoint(fe(pad))))
                })?;
                runs.fetch_add(n, Relaxed);
                Ok(())
            },
            |i| format!("{:?}", dec(i)),
        );
    }
    // aggregation gadgets
    for n in 0..=nmax {
        let total = q.pow(n as u32) * (1 << n) * 3;
        let dec = |i: u64| {
            let (pad, i) = (i % 3, i / 3);
            let (b, k) = (i % (1 << n), i >> n);
            (seq(k, q, n), seq(b, 2, n), pad)
        };
        c.par(
            &format!("{}: aggregation of {} keys", name, n),
            total,
            3,
            |i| {
                let (keys, bits, pad) = dec(i);
                let fe = |x: u64| C::Fr::from(x);
                let sel = keys.iter().zip(&bits).filter(|(_, b)| **b == 1).fold(0, |a, (k, _)| a + *k as u64) % q;
                let sum = keys.iter().fold(0, |a, k| a + *k as u64) % q;
                let padded = keys.iter().zip(&bits).any(|(k, b)| *b == 1 && *k as u64 == pad);
                for mode in 0..3 {
                    let mut shapes = vec![];
                    for setup in [false, true] {
                        let cs: ConstraintSystemRef<CF> = if setup { setup_cs() } else { new_cs() };
                        let k: Vec<_> = keys.iter().map(|k| tp2::<C>(&cs, fe(*k as u64), false)).collect();
                        let b: Vec<_> = bits.iter().map(|b| inb(&cs, *b == 1)).collect();
                        let padv = T2::<C>::constant(ToyPoint(fe(pad)));
                        let (r, want, ok) = match mode {
                            0 => (caught(|| TG::<C>::enforce_aggregated_pubkeys(&k, &b, &padv)), sel, !padded),
                            1 => (caught(|| TG::<C>::enforce_aggregated_all_pubkeys(&k)), sum, true),
                            _ => {
                                if n == 0 {
                                    continue;
                                }
                                let h = tp1::<C>(&cs, fe(3), false);
                                let m = inp(&cs, CF::from(n as u64));
                                let r = caught(|| TG::<C>::enforce_bitmap(&k, &b, &h, &m, &padv));
                                if let (Ok(Ok((h2, _))), false) = (&r, setup) {
                                    ensure!(h2.value() == Ok(ToyPoint(fe(3))), "message-hash", "enforce_bitmap changed the message hash to {:?}", h2.value());
                                }
                                (r.map(|r| r.map(|x| x.1)), sel, !padded)
                            }
                        };
                        if setup {
                            ensure!(matches!(r, Ok(Ok(_))), "setup-shape", "aggregation mode {} fails in setup: {:?}", mode, r.map(|r| r.map(|_| ())));
                            shapes.push(cs.shape());
                            continue;
                        }
                        shapes.push(cs.shape());
                        match r {
                            Ok(Ok(v)) => {
                                ensure!(cs.is_satisfied() == Ok(ok), "satisfied", "aggregation mode {} of {:?} {:?} padding {}: satisfied {:?}, expected {}", mode, keys, bits, pad, cs.is_satisfied(), ok);
                                ensure!(!ok || v.value() == Ok(ToyPoint(fe(want))), "aggregate", "aggregation mode {} of {:?} {:?}: {:?}, expected {}", mode, keys, bits, v.value(), want);
                            }
                            r => ensure!(!ok, "satisfied", "aggregation mode {} of {:?} {:?} padding {}: {:?}", mode, keys, bits, pad, r.map(|r| r.map(|_| ()))),
                        }
                    }
                    if shapes.len() == 2 {
                        ensure!(shapes[0] == shapes[1], "setup-shape", "aggregation mode {}: the constraints differ between setup and proving", mode);
                    }
                }
                Ok(())
            },
            |i| format!("(keys, bitmap, padding key) = {:?}", dec(i)),
        );
    }
    // numbers of keys and bits that differ
    for nk in 0..=3usize {
        for nb in 1..=3usize {
            if nk == nb {
                continue;
            }
            c.par(
                &format!("{}: {} keys and {} bits", name, nk, nb),
                (1 << nb) * q * 2,
                3,
                |i| {
                    let (h, i) = (i & 1, i / 2);
                    let (s, bits) = (i % q, seq(i / q, 2, nb));
                    for mode in 0..3 {
                        let v = verdict::<CF>(&toy_all::<C>(), 1, false, &|| format!("{} keys, bitmap {:?}, mode {}", nk, bits, mode), &|cs| {
                            let k: Vec<_> = (0..nk).map(|j| tp2::<C>(cs, C::Fr::from(2 + j as u64), false)).collect();
                            let b: Vec<_> = bits.iter().map(|b| inb(cs, *b == 1)).collect();
                            let pad = T2::<C>::constant(ToyPoint(C::Fr::from(1u64)));
                            let hv = tp1::<C>(cs, C::Fr::from(h), false);
                            let m = inp(cs, CF::from(3u64));
                            match mode {
                                0 => TG::<C>::verify(&k, &b, &hv, &tp1::<C>(cs, C::Fr::from(s), false), &m, &pad),
                                1 => TG::<C>::enforce_bitmap(&k, &b, &hv, &m, &pad).map(|_| ()),
                                _ => TG::<C>::enforce_aggregated_pubkeys(&k, &b, &pad).map(|_| ()),
                            }
                        });
                        if let Err(v) = v {
                            return Err(viol("length-mismatch", v.text));
                        }
                    }
                    Ok(())
                },
                |i| format!("#{}", i),
            );
        }
    }
    // batches
    for nk in 0..=nbatch {
        for nh in 0..=nbatch {
            let total = q.pow((nk + nh) as u32 + 1) * 2;
            let dec = |i: u64| {
                let (prep, i) = (i % 2 == 1, i / 2);
                let (s, i) = (i % q, i / q);
                let (k, h) = (i % q.pow(nk as u32), i / q.pow(nk as u32));
                (seq(k, q, nk), seq(h, q, nh), s, prep)
            };
            c.par(
                &format!("{}: batch of {} keys and {} hashes", name, nk, nh),
                total,
                2,
                |i| {
                    let (keys, hashes, sig, prep) = dec(i);
                    let dot = keys.iter().zip(&hashes).fold(0, |a, (k, h)| a + (*k * *h) as u64) % q;
                    let expect = nk == nh && dot == sig;
                    let n = verdict::<CF>(&toy_all::<C>(), 9, expect, &|| format!("batch keys {:?} hashes {:?} signature {} prepared {}", keys, hashes, sig, prep), &|cs| {
                        let k: Vec<_> = keys.iter().map(|k| tp2::<C>(cs, C::Fr::from(*k as u64), false)).collect();
                        let h: Vec<_> = hashes.iter().map(|h| tp1::<C>(cs, C::Fr::from(*h as u64), false)).collect();
                        let s = tp1::<C>(cs, C::Fr::from(sig), false);
                        if prep {
                            let k = k.iter().map(|k| ToyPairing::<C>::prepare_g2(k)).collect::<Result<Vec<_>, _>>()?;
                            let h = h.iter().map(|h| <ToyPairing<C> as PairingVar<ToyEngine<C>, CF>>::prepare_g1(h)).collect::<Result<Vec<_>, _>>()?;
                            TG::<C>::batch_verify_prepared(&k, &h, &s)
                        } else {
                            TG::<C>::batch_verify(&k, &h, &s)
                        }
                    })?;
                    runs.fetch_add(n, Relaxed);
                    Ok(())
                },
                |i| format!("{:?}", dec(i)),
            );
        }
    }
    c.transitions.fetch_add(runs.into_inner(), Relaxed);
}
type BG = BlsVerifyGadget<ark_bls12_377::Bls12_377, Fq, ark_bls12_377::constraints::PairingVar>;
pub fn c22(c: &Check) {
    c.assume("group and pairing gadgets of arkworks are ideal: their results are those of the native operations on the values of their inputs");
    c22_engine::<Cfg5>(c, "groups of order 5", c.pick(3, 4), c.pick(2, 3));
    if c.thorough() {
        c22_engine::<Cfg7>(c, "groups of order 7", 3, 2);
    }
    // the real engine
    let sets: Vec<Vec<i64>> = vec![vec![2, 3, 4], vec![2, 2, 5], vec![3, -3, 7], vec![1, 2, 3], vec![2, 3, -5]];
    let n = 3;
    c.par(
        "BLS12-377: verify with 3 keys",
        sets.len() as u64 * 8 * 8 * 5,
        10,
        |i| {
            let (max, i) = (i % 5, i / 5);
            let (signers, i) = (i % 8, i / 8);
            let (bits, set) = (seq(i % 8, 2, n), &sets[i as usize / 8]);
            let signers = seq(signers, 2, n);
            let h = 11i64;
            let sum = |b: &[usize]| set.iter().zip(b).filter(|(_, b)| **b == 1).map(|(k, _)| *k).sum::<i64>();
            let zeros = bits.iter().filter(|b| **b == 0).count() as u64;
            let padded = set.iter().zip(&bits).any(|(k, b)| *b == 1 && *k == 1);
            let expect = zeros <= max && !padded && sum(&bits) == sum(&signers);
            verdict::<Fq>(&std_alts(), 1, expect, &|| format!("secret keys {:?} bitmap {:?} signed by {:?} maximum {}", set, bits, signers, max), &|cs| {
                let k: Vec<_> = set.iter().map(|k| in_point2(cs, g2(*k))).collect();
                let b: Vec<_> = bits.iter().map(|b| inb(cs, *b == 1)).collect();
                let hv = in_point1(cs, g1(h));
                let s = in_point1(cs, g1(h * sum(&signers)));
                BG::verify(&k, &b, &hv, &s, &inp(cs, Fq::from(max)), &G2V::constant(g2(1)))
            })
            .map(|_| ())
        },
        |i| format!("#{}", i),
    );
    // many keys: the honest prover, one key, bit or signer away from a set that verifies
    let sizes: &[usize] = if c.thorough() { &[5, 8, 9, 16, 17, 32, 33, 40, 64, 65, 100, 127, 128, 129, 150, 200, 256, 257, 300, 500] } else { &[5, 9, 17, 33, 65, 101, 150] };
    let mut l: Vec<(usize, u8, usize)> = vec![];
    for n in sizes {
        l.extend([(*n, 0, 0), (*n, 0, 1), (*n, 0, 2)]);
        for kind in 1..7 {
            l.extend((0..*n).map(|j| (*n, kind, j)));
        }
    }
    let most = *sizes.last().unwrap();
    // secret keys 2, 3, ... (1 is the padding key); their points
    let pts: Vec<G2Projective> = {
        let g = g2(1);
        let mut v = vec![g + g];
        while v.len() < most {
            let q = *v.last().unwrap() + g;
            v.push(q);
        }
        use ark_ec::ProjectiveCurve as _;
        G2Projective::batch_normalization(&mut v);
        v
    };
    let pad = g2(1);
    c.par(
        "BLS12-377: many keys, every position",
        l.len() as u64,
        20,
        |i| {
            let (n, kind, j) = l[i as usize];
            let h = 11i64;
            let mut keys = pts[..n].to_vec();
            let mut bits: Vec<bool> = (0..n).map(|i| i % 5 != 3).collect();
            let sk = |i: usize| i as i64 + 2;
            let mut max = bits.iter().filter(|b| !**b).count();
            if kind == 0 {
                match j {
                    0 => {
                        bits = vec![true; n];
                        max = 0
                    }
                    1 => {
                        bits = (0..n).map(|i| i + 1 == n).collect();
                        max = n - 1
                    }
                    _ => (),
                }
            }
            let mut sum: i64 = bits.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| sk(i)).sum();
            let mut expect = true;
            match kind {
                // the padding key in one position: only its own bit may not be set
                1 => {
                    keys[j] = pad;
                    if bits[j] {
                        sum += 1 - sk(j);
                        expect = false;
                    }
                }
                // one bit changed, the signature too: one zero too many
                2 | 3 => {
                    sum += if bits[j] { -sk(j) } else { sk(j) };
                    expect = !bits[j];
                    bits[j] = !bits[j];
                    // ... and with the maximum to match
                    if kind == 3 && !bits[j] {
                        max += 1;
                        expect = true;
                    }
                }
                // one bit changed, the signature not
                4 => {
                    bits[j] = !bits[j];
                    max = n;
                    expect = false;
                }
                // all sign but one
                5 => {
                    bits = (0..n).map(|i| i != j).collect();
                    sum = (0..n).filter(|i| *i != j).map(sk).sum();
                    max = 1;
                }
                // only one signs
                6 => {
                    bits = (0..n).map(|i| i == j).collect();
                    sum = sk(j);
                    max = n - 1;
                }
                _ => (),
            }
            verdict::<Fq>(&std_alts(), 0, expect, &|| format!("{} keys, kind {} position {}", n, kind, j), &|cs| {
                let k: Vec<_> = keys.iter().map(|k| in_point2(cs, *k)).collect();
                let b: Vec<_> = bits.iter().map(|b| inb(cs, *b)).collect();
                let hv = in_point1(cs, g1(h));
                let s = in_point1(cs, g1(h * sum));
                BG::verify(&k, &b, &hv, &s, &inp(cs, Fq::from(max as u64)), &G2V::constant(pad))
            })?;
            if kind == 0 && j == 2 {
                let cs = new_cs();
                let k: Vec<_> = keys.iter().map(|k| in_point2(&cs, *k)).collect();
                let v = BG::enforce_aggregated_all_pubkeys(&k).and_then(|v| v.value());
                let want = g2((0..n).map(sk).sum());
                ensure!(v == Ok(want) && cs.is_satisfied() == Ok(true), "aggregate", "all of {} keys: not their sum", n);
            }
            Ok(())
        },
        |i| format!("(keys, kind, position) = {:?}", l[i as usize]),
    );
    let few: (Vec<G1Projective>, Vec<G2Projective>) = ((0..12).map(g1).collect(), (0..12).map(g2).collect());
    // many pairs in a batch, one away from a batch that verifies
    let mut l: Vec<(usize, u8, usize, bool)> = vec![];
    for n in [4usize, 8, 9, 16, 17, 33, 65, 129] {
        for prep in [false, true] {
            l.push((n, 0, 0, prep));
            for kind in 1..6 {
                l.extend((0..n).filter(|j| n < 64 || j % 16 == 0 || j + 2 > n).map(|j| (n, kind, j, prep)));
            }
        }
    }
    c.par(
        "BLS12-377: long batches",
        l.len() as u64,
        20,
        |i| {
            let (n, kind, j, prep) = l[i as usize];
            let mut keys: Vec<i64> = (0..n as i64).map(|i| 2 + i % 7).collect();
            let mut hashes: Vec<i64> = (0..n as i64).map(|i| 3 + i % 5).collect();
            let mut sig: i64 = keys.iter().zip(&hashes).map(|(k, h)| k * h).sum();
            let mut expect = false;
            match kind {
                0 => expect = true,
                1 => keys[j] += 1,
                2 => hashes[j] += 1,
                // one pair's signature is missing
                3 => sig -= keys[j] * hashes[j],
                // one pair too many on either side
                4 => {
                    keys.remove(j);
                }
                _ => {
                    hashes.insert(j, 0);
                }
            }
            let v = verdict::<Fq>(&std_alts(), 0, expect, &|| format!("batch of {} kind {} position {}", n, kind, j), &|cs| {
                let k: Vec<_> = keys.iter().map(|k| in_point2(cs, few.1[*k as usize])).collect();
                let h: Vec<_> = hashes.iter().map(|h| in_point1(cs, few.0[*h as usize])).collect();
                let s = in_point1(cs, g1(sig));
                if prep {
                    type P = ark_bls12_377::constraints::PairingVar;
                    let k = k.iter().map(|k| P::prepare_g2(k)).collect::<Result<Vec<_>, _>>()?;
                    let h = h.iter().map(|h| P::prepare_g1(h)).collect::<Result<Vec<_>, _>>()?;
                    BG::batch_verify_prepared(&k, &h, &s)
                } else {
                    BG::batch_verify(&k, &h, &s)
                }
            });
            v.map(|_| ())
        },
        |i| format!("(pairs, kind, position, prepared) = {:?}", l[i as usize]),
    );
    c.par(
        "BLS12-377: batches",
        4 * 4 * 3,
        10,
        |i| {
            let (kind, i) = (i % 3, i / 3);
            let (nk, nh) = ((i % 4) as usize, (i / 4) as usize);
            let keys = [3i64, -4, 5];
            let hashes = [2i64, 7, 9];
            let dot: i64 = (0..nk.min(nh)).map(|j| keys[j] * hashes[j]).sum();
            let sig = match kind {
                0 => dot,
                1 => dot + 1,
                _ => (0..nk.max(nh).min(3)).map(|j| keys[j] * hashes[j]).sum(),
            };
            verdict::<Fq>(&std_alts(), 1, nk == nh && sig == dot, &|| format!("batch of {} keys {} hashes signature kind {}", nk, nh, kind), &|cs| {
                let k: Vec<_> = keys[..nk].iter().map(|k| in_point2(cs, g2(*k))).collect();
                let h: Vec<_> = hashes[..nh].iter().map(|h| in_point1(cs, g1(*h))).collect();
                BG::batch_verify(&k, &h, &in_point1(cs, g1(sig)))
            })
            .map(|_| ())
        },
        |i| format!("#{}", i),
    );
}

// ------------------------------------------------------------------------------------------------ C23
use ark_r1cs_std::{uint8::UInt8, ToBitsGadget};
use bls_gadgets::{hash_to_bits, HashToGroupGadget};
use mc_common::{b2s, hex, shex};
type HG = HashToGroupGadget<ark_bls12_377::Parameters, Fq>;
/// Without the compat feature: only the position of the sign bit differs.
type HGNC = bls_gadgets_nc::HashToGroupGadget<ark_bls12_377::Parameters, Fq>;
pub fn in8<F: PrimeField>(cs: &ConstraintSystemRef<F>, v: u8) -> UInt8<F> {
    let setup = cs.is_in_setup_mode();
    UInt8::new_input(cs.clone(), || if setup { Err(SynthesisError::AssignmentMissing) } else { Ok(v) }).unwrap()
}
pub fn le(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
pub fn vals<F: PrimeField>(b: &[Boolean<F>]) -> Result<Vec<bool>, SynthesisError> {
    b.iter().map(|b| b.value()).collect()
}
pub fn unle(b: &[bool]) -> Vec<u8> {
    b.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | (*b as u8) << i)).collect()
}
/// x in the first 377 bits, the sign of y in bit 377, or 383 without compat.
fn xof_point(x: &[bool], compat: bool) -> Option<G1Projective> {
    let mut b = unle(&x[..384]);
    b[47] &= if compat { 0x3f } else { 0xbf }; // the circuit has no notion of an encoded infinity
    type P = ark_bls12_377::g1::Parameters;
    candidate::<P>(&b, compat).or_else(|| match decode_x::<P>(&b, x[if compat { 377 } else { 383 }], false) {
        // (a point of the cofactor's torsion, out of reach of any hash: native hashing would skip it)
        Dec::Point(p) => Some(p.into_projective().mul(<P as Curve>::cofactor())),
        _ => None,
    })
}
type Htg = (Result<G1Projective, SynthesisError>, Result<Vec<bool>, SynthesisError>, Result<Vec<bool>, SynthesisError>);
fn htg(cs: &ConstraintSystemRef<Fq>, compat: bool, counter: u8, msg: &[u8], extra: &[u8], gen: bool, forms: usize) -> Result<Htg, SynthesisError> {
    let b8 = |v: u8, c: bool| if c { UInt8::constant(v) } else { in8(cs, v) };
    let m: Vec<_> = msg.iter().enumerate().map(|(i, v)| b8(*v, forms & 1 == 1 && i % 2 == 1)).collect();
    let e: Vec<_> = extra.iter().map(|v| b8(*v, forms & 2 == 2)).collect();
    let c = b8(counter, forms & 4 == 4);
    let (p, crh, xof) = if compat { HG::enforce_hash_to_group(c, &m, &e, gen)? } else { HGNC::enforce_hash_to_group(c, &m, &e, gen)? };
    Ok((p.value(), vals(&crh), vals(&xof)))
}
#[derive(Clone)]
struct HCase {
    msg: Vec<u8>,
    extra: Vec<u8>,
    counter: u8,
    forms: usize,
    compat: bool,
}
impl HCase {
    fn show(&self) -> String {
        format!("message {} extra {} counter {} forms {} compat {}", shex(&self.msg), hex(&self.extra), self.counter, self.forms, self.compat)
    }
}
/// The honest prover in both modes against the reference, and the constraints in setup.
fn c23_honest(h: &HCase) -> mc_common::CaseResult {
    let crh = composite_crh(&h.msg);
    let xof = b2s::xof(b"ULforxof", &[&[h.counter][..], &h.extra, &crh].concat(), 64);
    let want = xof_point(&le(&xof), h.compat);
    for gen in [true, false] {
        let cs = new_cs();
        let r = caught(|| htg(&cs, h.compat, h.counter, &h.msg, &h.extra, gen, h.forms));
        let ok = matches!(&r, Ok(Ok(_))) && cs.is_satisfied() == Ok(true);
        match (&r, want) {
            (Ok(Ok((p, c, x))), Some(w)) if ok => {
                ensure!(*p == Ok(w), "point", "constraints {}: hashes to {:?}, expected {:?}", gen, p.as_ref().map(|p| ser(p)), ser(&w));
                ensure!(*c == Ok(le(&crh)), "crh-bits", "constraints {}: wrong compressed message bits", gen);
                ensure!(*x == Ok(le(&xof)), "xof-bits", "constraints {}: wrong hash bits", gen);
            }
            (_, None) => ensure!(!ok, "undecodable-accepted", "constraints {}: a counter whose hash is not a point is accepted: {:?}", gen, r.map(|r| r.map(|r| r.0))),
            (r, Some(_)) => return Err(viol("honest", format!("constraints {}: honest prover fails: {:?} {:?}", gen, r.as_ref().map(|r| r.as_ref().map(|_| ())), cs.which_is_unsatisfied()))),
        }
        if ok {
            let scs = setup_cs();
            let s = caught(|| htg(&scs, h.compat, h.counter, &h.msg, &h.extra, gen, h.forms).map(|_| ()));
            ensure!(matches!(s, Ok(Ok(()))) && scs.shape() == cs.shape(), "setup-shape", "constraints {}: setup gives {:?}, constraints differ: {}", gen, s, scs.shape() != cs.shape());
        }
    }
    Ok(())
}
fn c23_adversary(h: &HCase, gen: bool, bound: usize, alts: &Alts) -> Result<u64, mc_common::Viol> {
    let crh = composite_crh(&h.msg);
    let xof = b2s::xof(b"ULforxof", &[&[h.counter][..], &h.extra, &crh].concat(), 64);
    let mut bad: Option<mc_common::Viol> = None;
    let n = explore(
        alts,
        bound,
        || {
            let cs = new_cs();
            let r = htg(&cs, h.compat, h.counter, &h.msg, &h.extra, gen, h.forms);
            (sat(&cs, &r), r)
        },
        |s, r| {
            if let (Some((true, Ok((p, c, x)))), None) = (r, &bad) {
                let x = x.unwrap_or_default();
                let c = c.unwrap_or_default();
                if gen && x != le(&xof) {
                    bad = Some(viol("xof-bits", format!("{}: {}: other hash bits accepted", h.show(), s.show())));
                } else if c != le(&crh) {
                    bad = Some(viol("crh-bits", format!("{}: {}: other compressed message bits accepted", h.show(), s.show())));
                } else if x.len() != 512 || p.ok() != xof_point(&x, h.compat) || xof_point(&x, h.compat).is_none() {
                    bad = Some(viol("other-point", format!("{}: {}: a point accepted that is not the one of the hash bits", h.show(), s.show())));
                }
            }
        },
    );
    bad.map_or(Ok(n), Err)
}
/// Every point whose x differs from the hash's in exactly one bit, with both signs.
fn c23_near(h: &HCase, met: &std::sync::Mutex<std::collections::BTreeSet<usize>>) -> Result<u64, mc_common::Viol> {
    let list = std::rc::Rc::new(std::cell::RefCell::new(None::<Vec<G1Projective>>));
    let l = list.clone();
    let m: std::rc::Rc<std::cell::RefCell<Vec<usize>>> = Default::default();
    let m2 = m.clone();
    let alts: Alts = std::rc::Rc::new(move |_, _, v, k| {
        let Some(p) = v.downcast_ref::<G1Projective>().copied() else { return 1 };
        let mut l = l.borrow_mut();
        let l = l.get_or_insert_with(|| {
            let mut l = vec![p];
            let x = p.into_affine().x.into_repr();
            for bit in 0..377 {
                let mut r = x;
                r.0[bit / 64] ^= 1 << (bit % 64);
                for sign in [false, true] {
                    if let Some(q) = Fq::from_repr(r).and_then(|x| ark_ec::models::short_weierstrass_jacobian::GroupAffine::<ark_bls12_377::g1::Parameters>::get_point_from_x(x, sign)) {
                        l.push(q.into());
                        m2.borrow_mut().push(bit);
                    }
                }
            }
            l
        });
        if k < l.len() {
            *v.downcast_mut::<G1Projective>().unwrap() = l[k];
        }
        l.len()
    });
    let n = c23_adversary(h, true, 1, &alts)?;
    met.lock().unwrap().extend(m.borrow().iter());
    Ok(n)
}
/// The hash bits are the prover's (no constraints): every pattern given, with one more deviation elsewhere.
fn c23_pattern(bits: &[bool], compat: bool, bound: usize) -> Result<u64, mc_common::Viol> {
    let target = bits.to_vec();
    let alts: Alts = {
        let t = target.clone();
        let std = std_alts();
        std::rc::Rc::new(move |i, kind, v, k| {
            if i < t.len() {
                if let Some(b) = v.downcast_mut::<bool>() {
                    *b = t[i];
                    return 1;
                }
            }
            std(i, kind, v, k)
        })
    };
    let want = xof_point(&target, compat);
    let mut bad = None;
    let mut steered = false;
    let mut honest = false;
    let n = explore(
        &alts,
        bound,
        || {
            let cs = new_cs();
            let r = htg(&cs, compat, 0, &[1], &[], false, 0);
            (sat(&cs, &r), r)
        },
        |s, r| {
            if let Some((true, Ok((p, _, x)))) = r {
                if x == Ok(target.clone()) {
                    steered = true;
                    if s.deviations() == 0 {
                        honest = true;
                    }
                    if want.is_none() || p.as_ref().ok() != want.as_ref() {
                        bad = Some(format!("{}: hash bits {} give {:?}", s.show(), hex(&unle(&target)), p.map(|p| ser(&p))));
                    }
                }
            }
        },
    );
    if let Some(b) = bad {
        return Err(viol("other-point", b));
    }
    ensure!(want.is_none() || !steered || honest, "honest", "hash bits {} decode to a point but are not accepted", hex(&unle(&target)));
    Ok(n)
}
fn h2b_case<F: PrimeField>(msg: &[bool], len: u16, person: &[u8; 8], gen: bool, form: usize) -> mc_common::CaseResult {
    let run = |cs: &ConstraintSystemRef<F>| {
        let m: Vec<Boolean<F>> = msg.iter().enumerate().map(|(i, b)| if form == 1 && i % 3 == 1 { Boolean::constant(*b) } else { inb(cs, *b) }).collect();
        hash_to_bits(&m, len, *person, gen)
    };
    let cs = new_cs();
    let r = caught(|| run(&cs));
    let want = le(&b2s::xof(person, &unle(msg), len / 8));
    let got = match &r {
        Ok(Ok(v)) if cs.is_satisfied() == Ok(true) => vals(v),
        _ => return Err(viol("hash_to_bits", format!("fails: {:?} {:?}", r.map(|r| r.map(|_| ())), cs.which_is_unsatisfied()))),
    };
    ensure!(got.as_ref().map(|g| g.len()) == Ok(len as usize), "hash_to_bits-length", "{:?} bits instead of {}", got.map(|g| g.len()), len);
    ensure!(got == Ok(want), "hash_to_bits", "the bits differ from the native hash");
    let scs = setup_cs();
    let s = caught(|| run(&scs).map(|v| v.len()));
    ensure!(s == Ok(Ok(len as usize)) && scs.shape() == cs.shape(), "setup-shape", "setup gives {:?}, constraints differ: {}", s, scs.shape() != cs.shape());
    if gen {
        let mut bad = None;
        let want = le(&b2s::xof(person, &unle(msg), len / 8));
        explore(
            &std_alts(),
            1,
            || {
                let cs = new_cs();
                let r = run(&cs).and_then(|v| vals(&v));
                (sat(&cs, &r), r)
            },
            |s, r| {
                if let Some((true, Ok(v))) = r {
                    if v != want {
                        bad = Some(s.show())
                    }
                }
            },
        );
        ensure!(bad.is_none(), "hash_to_bits", "other bits accepted: {:?}", bad);
    }
    Ok(())
}
#[cfg(feature = "epoch")]
pub fn c23(c: &Check) {
    c.assume("the Pedersen and BLAKE2s gadgets of arkworks are ideal: they compute the native function of the values of their inputs");
    c.assume("allocated curve points are on the curve and affine (z = 1)");
    let e7 = pat(7, 3);
    let both = |l: &mut Vec<HCase>| {
        let nc: Vec<_> = l.iter().map(|h| HCase { compat: false, ..h.clone() }).collect();
        l.extend(nc)
    };
    // every counter
    let mut l = vec![];
    let bases: Vec<(Vec<u8>, Vec<u8>)> = vec![(pat(5, 1), vec![]), (pat(411, 2), e7.clone()), (vec![0], vec![0; 7])];
    for (m, e) in &bases[..c.pick(2, 3)] {
        for counter in 0..=255u8 {
            l.push(HCase { msg: m.clone(), extra: e.clone(), counter, forms: 0, compat: true });
        }
    }
    both(&mut l);
    c.par("every counter", l.len() as u64, 4, |i| c23_honest(&l[i as usize]), |i| l[i as usize].show());
    // lengths: the first counters until one gives a point
    let mut l = vec![];
    let max = c.pick(200, 420);
    let mut lens: Vec<usize> = (1..=max).collect();
    lens.extend([100, 104, 105, 127, 128, 129, 192, 209, 210, 300, 411, 475, 1000, 2000]);
    for n in lens {
        for (k, en) in [0usize, 1, 7, 15].into_iter().enumerate() {
            if n > 20 && k != n % 4 {
                continue;
            }
            let (msg, extra) = (pat(n, n as u64), pat(en, 9 + n as u64));
            for compat in [true, false] {
                let (_, a) = ref_tai::<ark_bls12_377::g1::Parameters>(Inner::Composite, true, compat, b"ULforxof", &msg, &extra).unwrap();
                for counter in 0..=a as u8 {
                    l.push(HCase { msg: msg.clone(), extra: extra.clone(), counter, forms: 0, compat });
                }
            }
        }
    }
    c.par("message and extra data lengths", l.len() as u64, 4, |i| c23_honest(&l[i as usize]), |i| l[i as usize].show());
    // contents
    let mut l = vec![];
    for v in 0..=255u8 {
        l.push(HCase { msg: vec![v], extra: vec![], counter: v, forms: 0, compat: true });
        l.push(HCase { msg: vec![7, v], extra: vec![v], counter: 1, forms: 0, compat: true });
    }
    let base = pat(35, 8);
    for bit in 0..(8 * 35) {
        let mut m = base.clone();
        m[bit / 8] ^= 1 << (bit % 8);
        l.push(HCase { msg: m, extra: e7.clone(), counter: 2, forms: 0, compat: true });
    }
    for bit in 0..56 {
        let mut e = e7.clone();
        e[bit / 8] ^= 1 << (bit % 8);
        l.push(HCase { msg: base.clone(), extra: e, counter: 2, forms: 0, compat: true });
    }
    for forms in 1..8 {
        for k in 0..8 {
            l.push(HCase { msg: pat(9, k), extra: pat(3, k), counter: k as u8, forms, compat: true })
        }
    }
    // longer messages (up to the hash's capacity) and extra data
    for (m, e) in [(2499, 7), (2501, 7), (4096, 3), (9984, 7), (19529, 7), (19530, 7), (48, 16), (48, 31), (48, 32), (48, 64), (48, 65), (300, 100), (300, 255), (300, 256)] {
        l.push(HCase { msg: pat(m, m as u64), extra: pat(e, e as u64), counter: 0, forms: 0, compat: true });
        l.push(HCase { msg: pat(m, m as u64), extra: pat(e, e as u64), counter: 1, forms: 0, compat: true });
    }
    both(&mut l);
    c.par("message contents and constant parts", l.len() as u64, 4, |i| c23_honest(&l[i as usize]), |i| l[i as usize].show());
    // the prover's choices
    let runs = AtomicU64::new(0);
    let adv: Vec<HCase> = (0..c.pick(24, 120)).map(|k| HCase { msg: pat(3 + k as usize, k), extra: pat((k % 4) as usize, k), counter: k as u8 % 8, forms: 0, compat: true }).collect();
    let adv: Vec<HCase> = adv.into_iter().enumerate().map(|(i, h)| HCase { compat: i % 4 != 3, ..h }).collect();
    c.par(
        "constrained hash: two deviating choices",
        adv.len() as u64,
        100,
        |i| c23_adversary(&adv[i as usize], true, 2, &std_alts()).map(|n| {
            runs.fetch_add(n, Relaxed);
        }),
        |i| adv[i as usize].show(),
    );
    c.par(
        "unconstrained hash: one deviating choice",
        c.pick(8, 24),
        500,
        |i| c23_adversary(&adv[i as usize], false, 1, &std_alts()).map(|n| {
            runs.fetch_add(n, Relaxed);
        }),
        |i| adv[i as usize].show(),
    );
    // points next to the right one: x differs in one bit (every bit is met on the curve for some message)
    let mut near = vec![];
    for k in 0..c.pick(14, 60) {
        let (msg, extra) = (pat(2 + k as usize, 40 + k), pat((k % 3) as usize, k));
        let compat = k % 4 != 3;
        let (_, a) = ref_tai::<ark_bls12_377::g1::Parameters>(Inner::Composite, true, compat, b"ULforxof", &msg, &extra).unwrap();
        near.push(HCase { msg, extra, counter: a as u8, forms: 0, compat });
    }
    let met = std::sync::Mutex::new(std::collections::BTreeSet::new());
    c.par(
        "points whose x differs in one bit",
        near.len() as u64,
        400,
        |i| c23_near(&near[i as usize], &met).map(|n| {
            runs.fetch_add(n, Relaxed);
        }),
        |i| near[i as usize].show(),
    );
    let met = met.into_inner().unwrap();
    if c.nviol() == 0 {
        assert!(met.len() >= 377, "only {} bits of x were met", met.len());
    }
    // chosen hash bits
    let mut pats: Vec<(String, Vec<bool>)> = vec![];
    let tobits = |x: &[u64], sign: bool, fill: bool| -> Vec<bool> {
        let mut b: Vec<bool> = (0..377).map(|i| x[i / 64] >> (i % 64) & 1 == 1).collect();
        b.push(sign);
        // (without compat: bits 377 to 382 are ignored, 383 is the sign)
        b.extend([fill; 5]);
        b.push(sign ^ fill);
        b.resize(512, fill);
        b
    };
    use ark_ec::AffineCurve as _;
    for k in 1..=c.pick(40i64, 200) {
        let x = g1(k).into_affine().x.into_repr().0;
        for f in 0..4 {
            pats.push((format!("x of {} G", k), tobits(&x, f & 1 == 1, f & 2 == 2)));
        }
    }
    for x in boundaries::<Fq>(true) {
        for f in 0..4 {
            pats.push((format!("x = {}", x), tobits(&x.into_repr().0, f & 1 == 1, f & 2 == 2)));
        }
        // the same residue with a representative beyond the modulus
        let mut r = x.into_repr();
        use ark_ff::BigInteger;
        let carry = r.add_nocarry(&<Fq as PrimeField>::Params::MODULUS);
        if !carry && r.num_bits() <= 377 {
            pats.push((format!("x = {} + p", x), tobits(&r.0, false, false)));
            pats.push((format!("x = {} + p", x), tobits(&r.0, true, false)));
        }
    }
    for k in 0..c.pick(40, 400) {
        pats.push((format!("pattern {}", k), le(&pat(64, 100 + k))));
    }
    for (name, bits) in [("ones", vec![true; 512]), ("zeros", vec![false; 512])] {
        pats.push((name.into(), bits));
    }
    c.par(
        "chosen hash bits, one more deviating choice",
        2 * pats.len() as u64,
        10,
        |i| c23_pattern(&pats[i as usize / 2].1, i % 2 == 0, 1).map(|n| {
            runs.fetch_add(n, Relaxed);
        }),
        |i| format!("{}, compat {}", pats[i as usize / 2].0, i % 2 == 0),
    );
    // hash_to_bits
    let mut l = vec![];
    for gen in [true, false] {
        for (k, len) in [256u16, 512, 768, 1024, 2048, 4096, 7680, 65280].into_iter().enumerate() {
            for mlen in [1usize, 2, 31, 32, 33, 48, 56, 63, 64, 65, 127, 128, 129, 200, 1000, 5000] {
                if len > 2048 && mlen > 64 || mlen > 200 && len > 512 {
                    continue;
                }
                for form in 0..2 {
                    if len == 65280 && (form == 1 || mlen > 2) {
                        continue;
                    }
                    for person in [*b"ULforxof", *b"ULforout", [0; 8], [255, 1, 2, 3, 4, 5, 6, 128]] {
                        if len > 1024 && person[0] != b'U' {
                            continue;
                        }
                        l.push((gen, len, le(&pat(mlen, mlen as u64 + k as u64)), person, form))
                    }
                }
            }
        }
    }
    c.par(
        "hash_to_bits over both fields",
        2 * l.len() as u64,
        3,
        |i| {
            let (gen, len, msg, person, form) = &l[i as usize / 2];
            if i & 1 == 0 {
                h2b_case::<Fq>(msg, *len, person, *gen, *form)
            } else {
                h2b_case::<Fr>(msg, *len, person, *gen, *form)
            }
        },
        |i| {
            let x = &l[i as usize / 2];
            format!("constraints {} length {} message bits {} personalisation {:?} form {}", x.0, x.1, x.2.len(), x.3, x.4)
        },
    );
    // helper circuit
    let mut l = vec![];
    for k in 1..=c.pick(4, 8) {
        for n in [384usize, 8, 248, 256] {
            l.push((0..k).map(|j| le(&pat(n / 8, (10 * k + j) as u64))).collect::<Vec<_>>());
        }
    }
    c.par(
        "helper circuit",
        l.len() as u64,
        400,
        |i| crate::pack::c23_helper(&l[i as usize], 1).map(|n| {
            runs.fetch_add(n, Relaxed);
        }),
        |i| format!("{} messages of {} bits", l[i as usize].len(), l[i as usize][0].len()),
    );
    c.transitions.fetch_add(runs.into_inner(), Relaxed);
}
/// The public inputs, the leading 1 included.
pub fn insts<F: PrimeField>(cs: &ConstraintSystemRef<F>) -> Vec<F> {
    cs.borrow().unwrap().instance_assignment.clone()
}
