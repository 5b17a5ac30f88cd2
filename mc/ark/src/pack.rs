//! The gadgets of epoch-snark: the helper circuit of C23, packing (C26).
use crate::explore::*;
use crate::gadgets::*;
use crate::o::*;
use ark_bls12_377::{Fq, Fr};
use ark_ff::{Field, FpParameters, One, PrimeField, Zero};
use ark_r1cs_std::{alloc::*, boolean::Boolean, fields::fp::FpVar, R1CSVar};
use ark_relations::r1cs::{ConstraintSystem, ConstraintSystemRef, SynthesisError, SynthesisMode};
use mc_common::{b2s, caught, ensure, seq, viol, CaseResult, Check};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// The helper circuit: its public inputs are the packed messages and the packed hashes of exactly those messages.
pub fn c23_helper(msgs: &[Vec<bool>], bound: usize) -> Result<u64, mc_common::Viol> {
    use ark_relations::r1cs::ConstraintSynthesizer;
    use epoch_snark::verif::HashToBits;
    let mk = || HashToBits { message_bits: msgs.iter().map(|m| m.iter().map(|b| Some(*b)).collect()).collect() };
    let packed = |bits: &[bool]| -> Vec<Fr> {
        bits.chunks(252).map(|ch| ch.iter().fold(Fr::zero(), |a, b| a.double() + Fr::from(*b as u64))).collect()
    };
    let hashes = |bits: &[bool], n: usize| -> Vec<bool> { bits.chunks(n).flat_map(|m| le(&b2s::xof(b"ULforxof", &unle(m), 64))).collect() };
    let n = msgs[0].len();
    let all: Vec<bool> = msgs.concat();
    let cs: ConstraintSystemRef<Fr> = new_cs();
    let r = caught(|| mk().generate_constraints(cs.clone()));
    ensure!(matches!(r, Ok(Ok(()))) && cs.is_satisfied() == Ok(true), "helper", "honest prover fails: {:?} {:?}", r, cs.which_is_unsatisfied());
    let want = [packed(&all), packed(&hashes(&all, n))].concat();
    ensure!(insts(&cs)[1..] == want[..], "helper", "the public inputs are not the packed message and hash bits");
    let mut shapes = vec![cs.shape()];
    let scs: ConstraintSystemRef<Fr> = setup_cs();
    let r = caught(|| HashToBits { message_bits: vec![vec![None; n]; msgs.len()] }.generate_constraints(scs.clone()));
    ensure!(matches!(r, Ok(Ok(()))), "setup-shape", "helper setup fails: {:?}", r);
    shapes.push(scs.shape());
    if n == 384 {
        let scs: ConstraintSystemRef<Fr> = setup_cs();
        let r = caught(|| HashToBits::empty::<ark_bw6_761::FrParameters>(msgs.len()).generate_constraints(scs.clone()));
        ensure!(matches!(r, Ok(Ok(()))), "setup-shape", "empty helper setup fails: {:?}", r);
        shapes.push(scs.shape());
    }
    ensure!(shapes.iter().all(|s| *s == shapes[0]), "setup-shape", "the helper's constraints differ between setup and proving");
    // any satisfied assignment: the low bits of the inputs are a message and its hash
    let mut bad = None;
    let runs = explore(
        &std_alts(),
        bound,
        || {
            let cs: ConstraintSystemRef<Fr> = new_cs();
            let r = mark::relations::choosing_inputs(|| mk().generate_constraints(cs.clone()));
            (sat(&cs, &r), insts(&cs))
        },
        |s, r| {
            if let Some((true, inst)) = r {
                let unpack = |els: &[Fr], n: usize| -> Vec<bool> {
                    let mut v = vec![];
                    for e in els {
                        let l = (n - v.len()).min(252);
                        let r = e.into_repr().0;
                        v.extend((0..l).rev().map(|i| r[i / 64] >> (i % 64) & 1 == 1));
                    }
                    v
                };
                let k = (all.len() + 251) / 252;
                let m = unpack(&inst[1..1 + k], all.len());
                let h = unpack(&inst[1 + k..], 512 * msgs.len());
                if h != hashes(&m, n) {
                    bad = Some(s.show())
                }
            }
        },
    );
    ensure!(bad.is_none(), "helper", "accepted although the hash bits are not those of the message bits: {:?}", bad);
    Ok(runs)
}

// ------------------------------------------------------------------------------------------------ C26
use epoch_snark::verif::{pack as native_pack, MultipackGadget};
fn be_value<F: PrimeField>(bits: &[bool]) -> F {
    bits.iter().fold(F::zero(), |a, b| a.double() + if *b { F::one() } else { F::zero() })
}
/// The `n` low bits of x, most significant first.
fn low_bits<F: PrimeField>(x: &F, n: usize) -> Vec<bool> {
    let r = x.into_repr();
    let r: &[u64] = r.as_ref();
    (0..n).rev().map(|i| r[i / 64] >> (i % 64) & 1 == 1).collect()
}
fn c26_case<F: PrimeField>(alts: &Alts, bound: usize, bits: &[bool], size: usize, input: bool, form: usize) -> Result<u64, mc_common::Viol> {
    let mk = |cs: &ConstraintSystemRef<F>| -> Vec<Boolean<F>> {
        bits.iter()
            .enumerate()
            .map(|(i, b)| match form {
                1 => inb(cs, !*b).not(),
                2 if i % 3 == 1 => Boolean::constant(*b),
                _ => inb(cs, *b),
            })
            .collect()
    };
    let want: Vec<F> = bits.chunks(size).map(be_value).collect();
    let values = |v: Vec<FpVar<F>>| v.iter().map(|x| x.value()).collect::<Result<Vec<F>, _>>();
    let cs = new_cs();
    let b = mk(&cs);
    let r = caught(|| MultipackGadget::pack::<F, F::Params>(&b, size, input).and_then(values));
    ensure!(matches!(&r, Ok(Ok(v)) if *v == want) && cs.is_satisfied() == Ok(true), "in-circuit", "packs to {:?} (satisfied {:?}), expected {:?}", r, cs.is_satisfied(), want);
    let inst = insts(&cs);
    let own = bits.len() - if form == 2 { (bits.len() + 1) / 3 } else { 0 };
    let exposed = &inst[1 + own..];
    ensure!(if input { exposed == &want[..] } else { exposed.is_empty() }, "public-inputs", "exposes {:?}, expected {:?}", exposed, if input { &want[..] } else { &[] });
    let scs = setup_cs();
    let b = mk(&scs);
    let s = caught(|| MultipackGadget::pack::<F, F::Params>(&b, size, input).map(|v| v.len()));
    ensure!(s == Ok(Ok(want.len())) && scs.shape() == cs.shape(), "setup-shape", "setup gives {:?}, constraints differ: {}", s, scs.shape() != cs.shape());
    let mut bad = None;
    let n = explore(
        alts,
        bound,
        || {
            let cs = new_cs();
            let b = mk(&cs);
            let r = mark::relations::choosing_inputs(|| MultipackGadget::pack::<F, F::Params>(&b, size, input)).and_then(values);
            (sat(&cs, &r), r, insts(&cs)[1 + own..].to_vec())
        },
        |s, r| {
            if let Some((true, Ok(v), e)) = r {
                let low: Vec<bool> = v.iter().zip(bits.chunks(size)).flat_map(|(x, c)| low_bits(x, c.len())).collect();
                if v.len() != want.len() || low != bits || (input && e != v) {
                    bad = Some(format!("{} gives {:?}", s.show(), v))
                }
            }
        },
    );
    ensure!(bad.is_none(), "other-bits", "elements accepted whose low bits are not the packed bits: {:?}", bad);
    Ok(n + 2)
}
fn c26_native<F: PrimeField>(bits: &[bool]) -> mc_common::CaseResult {
    let cap = F::Params::CAPACITY as usize;
    let want: Vec<F> = bits.chunks(cap).map(be_value).collect();
    let r = caught(|| native_pack::<F, F::Params>(bits));
    ensure!(matches!(&r, Ok(Ok(v)) if *v == want), "native", "packs to {:?}, expected {:?}", r, want);
    Ok(())
}
fn c26_tiny<F: PrimeField>(c: &Check, name: &str, lmax: usize) {
    let cap = F::Params::CAPACITY as usize;
    let runs = AtomicU64::new(0);
    for len in 0..=lmax {
        // native packing, with a table of what was seen for this length
        let seen = std::sync::Mutex::new(std::collections::HashMap::new());
        c.par(
            &format!("{}: native packing of {} bits", name, len),
            1 << len,
            1,
            |i| {
                let bits: Vec<bool> = (0..len).map(|j| i >> j & 1 == 1).collect();
                c26_native::<F>(&bits)?;
                let p: Vec<u64> = native_pack::<F, F::Params>(&bits).unwrap().iter().map(small).collect();
                if let Some(o) = seen.lock().unwrap().insert(p, i) {
                    return Err(viol("collision", format!("bit vectors {:b} and {:b} of length {} pack to the same elements", o, i, len)));
                }
                Ok(())
            },
            |i| format!("bits {:b}", i),
        );
        let total = (cap as u64) * 6 << len;
        let dec = |i: u64| {
            let (input, i) = (i % 2 == 1, i / 2);
            let (form, i) = ((i % 3) as usize, i / 3);
            let (size, i) = ((i % cap as u64) as usize + 1, i / cap as u64);
            ((0..len).map(|j| i >> j & 1 == 1).collect::<Vec<bool>>(), size, input, form)
        };
        c.par(
            &format!("{}: in-circuit packing of {} bits, every assignment", name, len),
            total,
            1,
            |i| {
                let (bits, size, input, form) = dec(i);
                if form == 2 && len < 2 {
                    return Ok(());
                }
                // all assignments of two elements at once, one deviating element beyond
                let bound = if (len + size - 1) / size <= 2 { 9 } else if F::Params::MODULUS_BITS <= 4 || c.thorough() { 2 } else { 1 };
                runs.fetch_add(c26_case::<F>(&tiny_alts::<F>(), bound, &bits, size, input, form)?, Relaxed);
                Ok(())
            },
            |i| format!("(bits, element size, public, form) = {:?}", dec(i)),
        );
    }
    c.transitions.fetch_add(runs.into_inner(), Relaxed);
}
fn c26_real<F: PrimeField>(c: &Check, name: &str, alts: fn() -> Alts) {
    let cap = F::Params::CAPACITY as usize;
    let mut l: Vec<(String, Vec<bool>)> = vec![];
    for len in [0, 1, 2, 7, 8, 9, cap - 1, cap, cap + 1, cap + 2, 2 * cap - 1, 2 * cap, 2 * cap + 1, 512, 3 * cap, 3 * cap + 5] {
        let mut add = |n: String, v: Vec<bool>| l.push((format!("{} bits, {}", len, n), v));
        add("zeros".into(), vec![false; len]);
        add("ones".into(), vec![true; len]);
        for k in 0..3 {
            add(format!("pattern {}", k), le(&pat(len / 8 + 1, k + len as u64))[..len].to_vec());
        }
        for j in 0..len {
            if j < 3 || j + 3 > len || j % cap < 2 || j % cap > cap - 3 || c.thorough() || j % 29 == 0 {
                let mut v = vec![false; len];
                v[j] = true;
                add(format!("only bit {}", j), v);
                let mut v = vec![true; len];
                v[j] = false;
                add(format!("all but bit {}", j), v);
            }
        }
    }
    c.par(&format!("{}: native packing", name), l.len() as u64, 1, |i| c26_native::<F>(&l[i as usize].1), |i| l[i as usize].0.clone());
    // in the circuit: an element of every size the vector fills, few elements of each
    let mut m = vec![];
    for (i, (_, b)) in l.iter().enumerate() {
        for (k, size) in [cap, cap - 1, 128, 8].into_iter().enumerate() {
            for input in [false, true] {
                let chunks = (b.len() + size - 1) / size;
                if chunks <= 2 || (chunks <= 5 && (c.thorough() || (i + k) % 8 == 0)) {
                    m.push((i, size, input))
                }
            }
        }
    }
    c.par(
        &format!("{}: in-circuit packing, one deviating element", name),
        m.len() as u64,
        20,
        |i| {
            let (j, size, input) = m[i as usize];
            let bits = &l[j].1;
            c26_case::<F>(&alts(), 1, bits, size, input, (i % 3) as usize % if bits.len() < 2 { 2 } else { 3 }).map(|_| ())
        },
        |i| format!("{} in elements of {} public {}", l[m[i as usize].0].0, m[i as usize].1, m[i as usize].2),
    );
}
pub fn c26(c: &Check) {
    c.assume("the bits of a field element given by arkworks' to_bits are its unique binary representation below the modulus");
    c26_tiny::<F7>(c, "field of 7", c.pick(7, 9));
    c26_tiny::<F13>(c, "field of 13", c.pick(7, 9));
    c26_tiny::<F31>(c, "field of 31", 8);
    c26_tiny::<F61>(c, "field of 61", 7);
    c26_real::<Fq>(c, "scalar field of BW6-761", std_alts);
    c26_real::<Fr>(c, "scalar field of BLS12-377", std_alts);
}
