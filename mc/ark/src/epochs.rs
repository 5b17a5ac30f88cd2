//! C25, C27, C28: the epoch circuit, its data encodings, and proving and verifying.
use crate::epoch::*;
use crate::explore::*;
use crate::gadgets::{inp, insts, new_cs, sat, setup_cs, vals};
use crate::o::*;
use ark_bls12_377::{Bls12_377, Fq, G1Projective, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::{Field, One, PrimeField, Zero};
use ark_r1cs_std::{boolean::Boolean, R1CSVar};
use ark_relations::r1cs::{ConstraintSystemRef, SynthesisError};
use epoch_snark::verif::EpochData;
use epoch_snark::EpochBlock;
use mc_common::{b2s, caught, ensure, viol, CaseResult, Check, Viol};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type D = EpochData<Bls12_377>;
type Cs = ConstraintSystemRef<Fq>;
pub fn data(b: &EpochBlock) -> D {
    D {
        index: Some(b.index),
        round: Some(b.round),
        epoch_entropy: b.epoch_entropy.clone(),
        parent_entropy: b.parent_entropy.clone(),
        maximum_non_signers: b.maximum_non_signers,
        public_keys: b.new_public_keys.iter().map(|k| Some(*k.as_ref())).collect(),
    }
}
/// The integer value of a field element when it is below 2^n.
fn int(x: &Fq, n: usize) -> Option<u128> {
    let r = x.into_repr().0;
    let v = r[0] as u128 | (r[1] as u128) << 64;
    let high = r[2..].iter().any(|l| *l != 0) || (n < 128 && v >> n != 0);
    if high {
        None
    } else {
        Some(v)
    }
}
fn low(x: &Fq, n: usize) -> u128 {
    let r = x.into_repr().0;
    let v = r[0] as u128 | (r[1] as u128) << 64;
    if n < 128 {
        v & ((1 << n) - 1)
    } else {
        v
    }
}
fn ent_value(e: &Option<Vec<u8>>) -> Fq {
    e.as_ref().map_or(Fq::zero(), |e| {
        let mut l = [0u8; 16];
        l[..e.len().min(16)].copy_from_slice(&e[..e.len().min(16)]);
        let v = u128::from_le_bytes(l);
        Fq::from(v as u64) + Fq::from((v >> 64) as u64) * pow2::<Fq>(64)
    })
}

// ------------------------------------------------------------------------------------------------ C25
#[derive(PartialEq, Debug, Clone)]
struct Out {
    /// index, epoch entropy, parent entropy, maximum
    nums: [Fq; 4],
    keys: Vec<G2Projective>,
    /// inner, extra, first, last
    bits: [Vec<bool>; 4],
}
fn to_bits(cs: &Cs, d: &D) -> Result<Out, SynthesisError> {
    let t = d.to_bits(cs.clone())?;
    Ok(Out {
        nums: [t.4.value()?, t.5.value()?, t.6.value()?, t.7.value()?],
        keys: t.8.iter().map(|k| k.value()).collect::<Result<_, _>>()?,
        bits: [vals(&t.0)?, vals(&t.1)?, vals(&t.2)?, vals(&t.3)?],
    })
}
fn expected(b: &EpochBlock) -> Out {
    let (i, e) = inner_bits(b);
    Out {
        nums: [Fq::from(b.index as u64), ent_value(&b.epoch_entropy), ent_value(&b.parent_entropy), Fq::from(b.maximum_non_signers as u64)],
        keys: b.new_public_keys.iter().map(|k| *k.as_ref()).collect(),
        bits: [i, e, first_bits(b), last_bits(b)],
    }
}
const NAMES: [&str; 4] = ["inner-bits", "extra-bits", "first-bits", "last-bits"];
fn same(got: &Out, want: &Out) -> CaseResult {
    for k in 0..4 {
        ensure!(got.nums[k] == want.nums[k], "returned-values", "returned value {} is {} instead of {}", k, got.nums[k], want.nums[k]);
    }
    ensure!(got.keys == want.keys, "returned-values", "other keys returned");
    for k in 0..4 {
        let (g, w) = (&got.bits[k], &want.bits[k]);
        ensure!(g == w, NAMES[k], "the bits differ from the native ones at {:?} (lengths {} and {})", g.iter().zip(w).position(|(a, b)| a != b), g.len(), w.len());
    }
    Ok(())
}
fn c25_honest(b: &EpochBlock) -> CaseResult {
    let cs = new_cs();
    let r = caught(|| to_bits(&cs, &data(b)));
    match (&r, cs.is_satisfied()) {
        (Ok(Ok(o)), Ok(true)) => same(o, &expected(b))?,
        (r, s) => return Err(viol("honest", format!("honest prover fails: {:?} satisfied {:?} {:?}", r.as_ref().map(|r| r.as_ref().map(|_| ())), s, cs.which_is_unsatisfied()))),
    }
    let scs: Cs = setup_cs();
    let n = b.new_public_keys.len();
    let s = caught(|| D::empty(n, b.maximum_non_signers as usize).to_bits(scs.clone()).map(|_| ()));
    ensure!(s == Ok(Ok(())) && scs.shape() == cs.shape(), "setup-shape", "setup gives {:?}, constraints differ: {}", s, scs.shape() != cs.shape());
    Ok(())
}
/// The block whose fields are the low bits of what the circuit holds, and whether anything was cut off.
fn held(o: &Out) -> (EpochBlock, bool) {
    let e = |x: &Fq| Some(low(x, 128).to_le_bytes().to_vec());
    let cut = int(&o.nums[0], 16).is_none() || int(&o.nums[1], 128).is_none() || int(&o.nums[2], 128).is_none() || int(&o.nums[3], 32).is_none();
    let round = o.bits[1].iter().skip(16).take(8).enumerate().fold(0u8, |a, (i, b)| a | (*b as u8) << i);
    let n = o.keys.len();
    (
        EpochBlock::new(low(&o.nums[0], 16) as u16, round, e(&o.nums[1]), e(&o.nums[2]), low(&o.nums[3], 32) as u32, n, o.keys.iter().map(|k| (*k).into()).collect()),
        cut,
    )
}
fn c25_adversary(b: &EpochBlock, bound: usize) -> Result<u64, Viol> {
    let d = data(b);
    let (mut bad, mut cut_seen) = (None, None);
    let n = explore(
        &std_alts(),
        bound,
        || {
            let cs = new_cs();
            let r = to_bits(&cs, &d);
            (sat(&cs, &r), r)
        },
        |s, r| {
            if let (Some((true, Ok(o))), None) = (r, &bad) {
                if o.keys.iter().any(|k| k.is_zero()) {
                    return;
                }
                let (h, cut) = held(&o);
                let want = expected(&h);
                for k in 0..4 {
                    if o.bits[k] != want.bits[k] {
                        bad = Some(viol(NAMES[k], format!("{}: bits accepted that are not those of the values held: {}", s.show(), show(&h))));
                    }
                }
                if cut && cut_seen.is_none() {
                    cut_seen = Some(format!("{}: values {:?} accepted, encoded as {}", s.show(), o.nums.iter().map(|x| x.to_string()).collect::<Vec<_>>(), show(&h)));
                }
            }
        },
    );
    match (bad, cut_seen) {
        (Some(v), _) => Err(v),
        (None, Some(t)) => Err(viol("high-bits", t)),
        _ => Ok(n),
    }
}
fn le(b: &[u8]) -> Vec<bool> {
    b.iter().flat_map(|b| (0..8).map(move |i| b >> i & 1 == 1)).collect()
}
/// The reference hash of a block: the point and the attempt.
fn hash_of(b: &EpochBlock) -> (G1Projective, u8) {
    let (i, e) = inner_bits(b);
    let (p, c) = ref_tai::<ark_bls12_377::g1::Parameters>(Inner::Composite, true, true, b"ULforxof", &to_bytes(&i), &to_bytes(&e)).expect("a block hashes to a point");
    (p, c as u8)
}
fn c25_constrain(b: &EpochBlock, prev: u64, gen: bool) -> CaseResult {
    let run = |cs: &Cs, d: &D| d.constrain(&inp(cs, Fq::from(prev)), gen);
    let cs = new_cs();
    let d = data(b);
    let r = caught(|| run(&cs, &d));
    let ok = matches!(&r, Ok(Ok(_))) && cs.is_satisfied() == Ok(true);
    let want = b.index == 0 || b.index as u64 == prev + 1;
    ensure!(ok == want, "next-index", "index {} after {}: satisfied {}", b.index, prev, ok);
    if let (true, Ok(Ok(c))) = (ok, &r) {
        let get = || -> Result<(Out, G1Projective, Vec<bool>, Vec<bool>), SynthesisError> {
            let o = Out {
                nums: [c.index.value()?, c.epoch_entropy.value()?, c.parent_entropy.value()?, c.maximum_non_signers.value()?],
                keys: c.pubkeys.iter().map(|k| k.value()).collect::<Result<_, _>>()?,
                bits: [vec![], vec![], vals(&c.combined_first_epoch_bits)?, vals(&c.combined_last_epoch_bits)?],
            };
            Ok((o, c.message_hash.value()?, vals(&c.crh_bits)?, vals(&c.xof_bits)?))
        };
        let (o, h, crh, xof) = get().map_err(|e| viol("honest", format!("outputs have no value: {:?}", e)))?;
        let mut w = expected(b);
        w.bits[0].clear();
        w.bits[1].clear();
        same(&o, &w)?;
        let (p, a) = hash_of(b);
        ensure!(h == p, "message-hash", "the message hash is not the native hash of the block");
        let (i, e) = inner_bits(b);
        let ref_crh = composite_crh(&to_bytes(&i));
        ensure!(crh == le(&ref_crh), "crh-bits", "wrong compressed message bits");
        ensure!(xof == le(&b2s::xof(b"ULforxof", &[&[a][..], &to_bytes(&e), &ref_crh].concat(), 64)), "xof-bits", "wrong hash bits");
    }
    if ok {
        let scs: Cs = setup_cs();
        let n = b.new_public_keys.len();
        let s = caught(|| run(&scs, &D::empty(n, 0)).map(|_| ()));
        ensure!(s == Ok(Ok(())) && scs.shape() == cs.shape(), "setup-shape", "setup gives {:?}, constraints differ: {}", s, scs.shape() != cs.shape());
    }
    Ok(())
}
pub fn c25(c: &Check) {
    c.assume("allocated curve points are on the curve and affine (z = 1)");
    c.assume("blocks hold as many keys as the circuit has slots");
    let pe = |k: u64| Some(pat(16, k));
    let m = c.pick(128i64, 1024);
    let blk = |idx: u16, round: u8, e, p, mx: u32, ks: &[i64]| EpochBlock::new(idx, round, e, p, mx, ks.len(), keys(ks));
    c.par(
        "one key: multiples of the generator",
        2 * m as u64,
        2,
        |i| c25_honest(&blk(i as u16, i as u8, None, None, i as u32, &[(i as i64 / 2 + 1) * if i & 1 == 0 { 1 } else { -1 }])),
        |i| format!("key #{}", i),
    );
    let idx = [0u16, 1, 255, 256, 0x7fff, 65535];
    let rounds = [0u8, 1, 127, 128, 255];
    let mut one = vec![0; 16];
    one[15] = 0x80;
    let ents = [None, Some(vec![0; 16]), Some(one), pe(1), Some(vec![255; 16])];
    let mns = [0u32, 1, 255, 65536, u32::MAX];
    let sets: Vec<Vec<i64>> = vec![vec![], vec![1], vec![-2], vec![2, 3], vec![2, 2], vec![2, 3, -3, 1]];
    let dims = [idx.len(), rounds.len(), ents.len(), ents.len(), mns.len(), sets.len()];
    let block = |mut i: u64| {
        let mut d = [0usize; 6];
        for k in 0..6 {
            d[k] = (i % dims[k] as u64) as usize;
            i /= dims[k] as u64;
        }
        blk(idx[d[0]], rounds[d[1]], ents[d[2]].clone(), ents[d[3]].clone(), mns[d[4]], &sets[d[5]])
    };
    let total: u64 = dims.iter().map(|d| *d as u64).product();
    c.par("boundary values of all fields", total, 2, |i| c25_honest(&block(i)), |i| show(&block(i)));
    let bases: Vec<EpochBlock> = vec![
        blk(0, 0, None, None, 0, &[]),
        blk(120, 5, Some(vec![255; 16]), Some(vec![254; 16]), 3, &[2, -3, 4]),
        blk(0xa55a, 0x3c, pe(2), pe(3), 0xdeadbeef, &[11, -12]),
        blk(65535, 255, pe(4), None, u32::MAX, &[1, 21, 21, -21, 1]),
    ];
    let near: Vec<EpochBlock> = bases
        .iter()
        .flat_map(|b| std::iter::once(b.clone()).chain(neighbours(b)))
        .map(|b| EpochBlock { maximum_validators: b.new_public_keys.len(), ..b })
        .collect();
    c.par("blocks one field bit or key away from four base blocks", near.len() as u64, 2, |i| c25_honest(&near[i as usize]), |i| show(&near[i as usize]));
    c.par("all indices", 65536, 2, |i| c25_honest(&blk(i as u16, (i % 256) as u8, None, pe(6), (i * 65537) as u32, &[])), |i| format!("index {}", i));
    let runs = AtomicU64::new(0);
    let adv: Vec<&EpochBlock> = near.iter().collect();
    c.par(
        "any prover: one deviating choice",
        adv.len() as u64,
        60,
        |i| c25_adversary(adv[i as usize], 1).map(|n| {
            runs.fetch_add(n, Relaxed);
        }),
        |i| show(adv[i as usize]),
    );
    let two: Vec<EpochBlock> = vec![blk(7, 1, pe(7), pe(8), 2, &[]), blk(0xffff, 1, pe(7), None, 2, &[]), blk(7, 1, pe(9), pe(8), 2, &[5])];
    c.par(
        "any prover: two (without keys three) deviating choices",
        two.len() as u64,
        1000,
        |i| c25_adversary(&two[i as usize], if i < 2 { 3 } else { 2 }).map(|n| {
            runs.fetch_add(n, Relaxed);
        }),
        |i| show(&two[i as usize]),
    );
    c.transitions.fetch_add(runs.into_inner(), Relaxed);
    // in the chain
    let mut l = vec![];
    for prev in [0u64, 1, 255, 256, 65533, 65534, 65535] {
        for d in [-65535i64, -2, -1, 0, 1, 2, 3, 256, 65535] {
            let i = prev as i64 + d;
            if (0..65536).contains(&i) {
                l.push((prev, blk(i as u16, 3, pe(i as u64), pe(prev), 1, &[2, 3])));
            }
        }
        l.push((prev, blk(0, 0, None, None, 0, &[1, 1])));
    }
    for b in &near[..c.pick(60, near.len())] {
        l.push(((b.index as u64).wrapping_sub(1) % 65536, b.clone()));
    }
    c.par(
        "constrained epoch data after every kind of previous index",
        2 * l.len() as u64,
        3,
        |i| c25_constrain(&l[i as usize / 2].1, l[i as usize / 2].0, i & 1 == 0),
        |i| format!("previous index {}, {}", l[i as usize / 2].0, show(&l[i as usize / 2].1)),
    );
}

// ------------------------------------------------------------------------------------------------ C27
use ark_bls12_377::Fr;
use ark_relations::r1cs::{Choice, ConstraintSynthesizer};
use epoch_snark::verif::{HashToBitsHelper, SingleUpdate};
use epoch_snark::ValidatorSetUpdate;
use std::any::Any;
use std::collections::HashMap;
use std::rc::Rc;

type Ent = Option<Vec<u8>>;
/// One block and, for transitions, the bitmap over the keys of the block before it.
#[derive(Clone, PartialEq, Debug)]
pub struct Ep {
    pub idx: u16,
    pub round: u8,
    pub ee: Ent,
    pub pe: Ent,
    pub max: u32,
    pub keys: Vec<i64>,
    pub bitmap: Vec<bool>,
}
impl Ep {
    pub fn block(&self) -> EpochBlock {
        EpochBlock::new(self.idx, self.round, self.ee.clone(), self.pe.clone(), self.max, self.keys.len(), keys(&self.keys))
    }
    fn show(&self) -> String {
        let e = |e: &Ent| e.as_ref().map_or("none".into(), |e| mc_common::hex(&e[..2]));
        let b: String = self.bitmap.iter().map(|b| if *b { '1' } else { '0' }).collect();
        format!("(index {} round {} entropy {} parent {} max {} keys {:?} bitmap {})", self.idx, self.round, e(&self.ee), e(&self.pe), self.max, self.keys, b)
    }
}
#[derive(Clone)]
pub struct Chain {
    pub first: Ep,
    pub slots: Vec<Ep>,
    /// aggregate signature with one generator per dummy slot
    pub sig: G1Projective,
    /// what each slot contributed to it
    pub parts: Vec<G1Projective>,
}
impl Chain {
    pub fn show(&self) -> String {
        format!("{} -> {}", self.first.show(), self.slots.iter().map(|s| s.show()).collect::<Vec<_>>().join(" -> "))
    }
    pub fn circuit(&self, helper: Option<HashToBitsHelper<Bls12_377>>) -> ValidatorSetUpdate<Bls12_377> {
        ValidatorSetUpdate {
            initial_epoch: data(&self.first.block()),
            num_validators: self.first.keys.len() as u32,
            epochs: self.slots.iter().map(|s| SingleUpdate { epoch_data: data(&s.block()), signed_bitmap: s.bitmap.iter().map(|b| Some(*b)).collect() }).collect(),
            aggregated_signature: Some(self.sig),
            hash_helper: helper,
        }
    }
    pub fn public(&self) -> Vec<Fq> {
        public(&self.first.block(), &self.slots.last().unwrap().block())
    }
}
pub fn public(f: &EpochBlock, l: &EpochBlock) -> Vec<Fq> {
    pack_ref(&[out_hash(&to_bytes(&first_bits(f))), out_hash(&to_bytes(&last_apk_bits(l)))].concat())
}
fn memo_hash(b: &EpochBlock) -> G1Projective {
    thread_local! { static M: std::cell::RefCell<HashMap<Vec<u8>, G1Projective>> = Default::default(); }
    let (i, e) = inner_bits(b);
    let key = [to_bytes(&i), to_bytes(&e)].concat();
    M.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 20000 {
            m.clear()
        }
        *m.entry(key).or_insert_with(|| hash_of(b).0)
    })
}
fn times(p: &G1Projective, k: i64) -> G1Projective {
    p.mul(fr(k).into_repr())
}
/// `bitmap`-selected keys, as one scalar.
fn selected(keys: &[i64], bitmap: &[bool]) -> i64 {
    keys.iter().zip(bitmap).filter(|x| *x.1).map(|x| *x.0).sum()
}
fn nonzero(e: &Ent) -> bool {
    e.as_ref().map_or(false, |e| e.iter().any(|b| *b != 0))
}
fn same_ent(a: &Ent, b: &Ent) -> bool {
    ent_value(a) == ent_value(b)
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Verdict {
    Valid,
    Invalid,
    /// cancelling keys or a wrong bitmap on a dummy: the property does not say
    Open,
}
/// The specification: is this a valid chain, signed by `sig`?
pub fn judge(c: &Chain) -> (Verdict, &'static str) {
    let mut open = false;
    let mut prev = &c.first;
    let entropy = nonzero(&c.first.ee);
    let mut sum = G1Projective::zero();
    for s in &c.slots {
        let absent = s.bitmap.iter().filter(|b| !**b).count() as u64;
        let padding = prev.keys.iter().zip(&s.bitmap).any(|(k, b)| *b && *k == 1);
        let enough = absent <= prev.max as u64 && !padding;
        if s.idx == 0 {
            open |= !enough;
            sum += g1(1);
            continue;
        }
        if s.idx as u64 != prev.idx as u64 + 1 {
            return (Verdict::Invalid, "index");
        }
        if entropy && !same_ent(&s.pe, &prev.ee) {
            return (Verdict::Invalid, "entropy");
        }
        if !enough {
            return (Verdict::Invalid, if padding { "padding key signs" } else { "too few signers" });
        }
        let k = selected(&prev.keys, &s.bitmap);
        open |= k == 0;
        sum += times(&memo_hash(&s.block()), k);
        prev = s;
    }
    match c.slots.last() {
        None => return (Verdict::Open, ""),
        Some(l) if l.idx == 0 => return (Verdict::Invalid, "ends in a dummy"),
        Some(l) if l.keys.iter().sum::<i64>() == 0 => return (Verdict::Open, ""),
        _ => {}
    }
    if sum != c.sig {
        return (if open { Verdict::Open } else { Verdict::Invalid }, "signature");
    }
    (if open { Verdict::Open } else { Verdict::Valid }, "")
}
pub fn ent(k: u64) -> Ent {
    Some(pat(16, 1000 + k))
}
/// Ways to fill the next slot after `prev` (the last real block).
pub const MOVES: [&str; 21] = [
    "good",
    "dummy",
    "largest allowed absence",
    "one absentee too many",
    "index skipped",
    "index repeated",
    "wrong parent entropy",
    "signed by its own keys",
    "without entropy",
    "bitmap names an absent signer",
    "dummy with other contents",
    "good with a padding key",
    "padding key signs",
    "round changed after signing",
    "maximum changed after signing",
    "key changed after signing",
    "entropy changed after signing",
    "first key alone absent",
    "signer not in the bitmap",
    "index goes back",
    "parent entropy changed after signing",
];
/// Appends a slot; the keys it uses are `keys` (made up per slot).
fn step(prev: &Ep, mv: usize, at: usize, n: usize, max: u32) -> (Ep, G1Projective) {
    let base = 10 * (at as i64 + 2);
    let ks: Vec<i64> = (0..n as i64).map(|i| base + i * i + i + 1).collect();
    let allowed = (prev.max as usize).min(n);
    // everyone but the padding keys
    let full: Vec<bool> = prev.keys.iter().map(|k| *k != 1).collect();
    let mut good = Ep {
        idx: prev.idx.wrapping_add(1),
        round: at as u8,
        ee: ent(at as u64 + 1),
        pe: prev.ee.clone(),
        max,
        keys: ks.clone(),
        bitmap: full.clone(),
    };
    let absent = |k: usize| -> Vec<bool> {
        // the last ones first
        let mut b = full.clone();
        let mut left = k.saturating_sub(b.iter().filter(|x| !**x).count());
        for x in b.iter_mut().rev() {
            if *x && left > 0 {
                *x = false;
                left -= 1;
            }
        }
        b
    };
    let signed = |e: &Ep, bm: &[bool], ks: &[i64]| times(&memo_hash(&e.block()), selected(ks, bm));
    match MOVES[mv] {
        "dummy" => {
            let e = Ep { idx: 0, round: 0, ee: Some(vec![0; 16]), pe: Some(vec![0; 16]), max: 0, keys: vec![1; n], bitmap: full };
            return (e, g1(1));
        }
        "dummy with other contents" => {
            let e = Ep { idx: 0, round: 9, max: u32::MAX, bitmap: full, ..good };
            return (e, g1(1));
        }
        "largest allowed absence" => good.bitmap = absent(allowed),
        "one absentee too many" => good.bitmap = absent(allowed + 1),
        "first key alone absent" => good.bitmap[0] = false,
        "index skipped" => good.idx = prev.idx.wrapping_add(2),
        "index repeated" => good.idx = prev.idx,
        "index goes back" => good.idx = prev.idx.wrapping_sub(1),
        "wrong parent entropy" => good.pe = ent(99),
        "without entropy" => {
            good.ee = None;
            good.pe = None;
        }
        "good with a padding key" => *good.keys.last_mut().unwrap() = 1,
        "padding key signs" => good.bitmap = vec![true; n],
        _ => {}
    }
    let mut sig = signed(&good, &good.bitmap, &prev.keys);
    match MOVES[mv] {
        "signed by its own keys" => sig = signed(&good, &good.bitmap, &good.keys),
        "bitmap names an absent signer" => {
            let mut b = good.bitmap.clone();
            if let Some(x) = b.iter_mut().find(|x| **x) {
                *x = false
            }
            sig = signed(&good, &b, &prev.keys)
        }
        "signer not in the bitmap" => {
            good.bitmap = absent(allowed);
            sig = signed(&good, &full, &prev.keys)
        }
        "round changed after signing" => good.round ^= 0x80,
        "maximum changed after signing" => good.max = good.max.wrapping_add(1),
        "key changed after signing" => good.keys[0] += 1,
        "entropy changed after signing" => good.ee = ent(77),
        "parent entropy changed after signing" => good.pe = ent(78),
        _ => {}
    }
    (good, sig)
}
/// The chain given by a first block and a sequence of moves.
pub fn chain(first: &Ep, moves: &[usize], max: u32) -> Chain {
    let mut c = Chain { first: first.clone(), slots: vec![], sig: G1Projective::zero(), parts: vec![] };
    let mut prev = first.clone();
    for (i, m) in moves.iter().enumerate() {
        let (e, s) = step(&prev, *m, i, first.keys.len(), max);
        c.sig += s;
        c.parts.push(s);
        if e.idx != 0 {
            prev = e.clone()
        }
        c.slots.push(e);
    }
    c
}
pub fn first_ep(idx: u16, ee: Ent, max: u32, ks: &[i64]) -> Ep {
    Ep { idx, round: 0, ee, pe: ent(500), max, keys: ks.to_vec(), bitmap: vec![] }
}
pub fn run_chain(c: &Chain, helper: Option<HashToBitsHelper<Bls12_377>>) -> (bool, Result<(), SynthesisError>, Cs) {
    let cs: Cs = new_cs();
    let r = c.circuit(helper).generate_constraints(cs.clone());
    (sat(&cs, &r), r, cs)
}
pub fn setup_shape(n: usize, slots: usize, vk: Option<ark_groth16::VerifyingKey<Bls12_377>>) -> Result<u64, Viol> {
    thread_local! { static M: std::cell::RefCell<HashMap<(usize, usize, bool), u64>> = Default::default(); }
    let k = (n, slots, vk.is_some());
    if let Some(s) = M.with(|m| m.borrow().get(&k).copied()) {
        return Ok(s);
    }
    let scs: Cs = setup_cs();
    let r = caught(|| ValidatorSetUpdate::<Bls12_377>::empty(n, slots, 1, vk).generate_constraints(scs.clone()));
    ensure!(r == Ok(Ok(())), "setup", "setup for {} validators and {} epochs fails: {:?}", n, slots, r);
    M.with(|m| m.borrow_mut().insert(k, scs.shape()));
    Ok(scs.shape())
}
/// The honest prover's verdict against the specification.
fn c27_honest(c: &Chain) -> CaseResult {
    let (v, why) = judge(c);
    let r = caught(|| run_chain(c, None));
    let ok = matches!(&r, Ok((true, _, _)));
    match v {
        Verdict::Valid => ensure!(ok, "valid-rejected", "a valid chain is rejected: {:?}", r.as_ref().map(|r| (r.1, r.2.which_is_unsatisfied()))),
        Verdict::Invalid => ensure!(!ok, format!("invalid-accepted:{}", why.replace(' ', "-")), "an invalid chain ({}) is accepted", why),
        Verdict::Open => {}
    }
    if let (true, Ok((_, _, cs))) = (ok, &r) {
        let got = insts(cs)[1..].to_vec();
        ensure!(got == c.public(), "public-inputs", "the public inputs {:?} do not commit to the first and last block: {:?}", got, c.public());
        let s = setup_shape(c.first.keys.len(), c.slots.len(), None)?;
        ensure!(s == cs.shape(), "setup-shape", "the constraints differ between setup and proving");
    }
    Ok(())
}
thread_local! { static LOG: std::cell::RefCell<Vec<(usize, Option<(Fq, Fq)>)>> = Default::default(); }
/// The usual alternatives, plus signatures that leave out or add whole slots; logs the deviations made.
pub fn chain_alts(sigs: Vec<G1Projective>, few: bool) -> Alts {
    let std = std_alts();
    Rc::new(move |i, kind, v: &mut dyn Any, k| {
        let before = v.downcast_ref::<Fq>().copied();
        let n = match kind {
            Choice::Point => {
                let extra = sigs.clone();
                if let Some(n) = pick::<G1Projective>(v, k, |h| if few { extra.clone() } else { [point_alts(h), extra.clone()].concat() }) {
                    n
                } else {
                    // (never the point at infinity: allocated points are affine)
                    pick::<G2Projective>(v, k, |h| if few { vec![h.double()] } else { point_alts(h)[1..].to_vec() }).unwrap()
                }
            }
            Choice::Field if few => pick::<Fq>(v, k, |h| {
                let o = Fq::one();
                vec![Fq::zero(), *h + o, *h - o, *h + pow2::<Fq>(16), *h + pow2::<Fq>(32)]
            })
            .unwrap(),
            _ => std(i, kind, v, k),
        };
        if k != 0 {
            let after = v.downcast_ref::<Fq>().copied();
            LOG.with(|l| l.borrow_mut().push((i, before.zip(after))));
        }
        n
    })
}
fn cuts_high_bits(log: &[(usize, Option<(Fq, Fq)>)]) -> bool {
    log.iter().any(|(_, d)| match d {
        Some((h, v)) => int(h, 128).is_some() && v != h && [16usize, 32, 8, 128].iter().any(|n| *v == *h + pow2::<Fq>(*n as u32) || (int(v, *n).is_none() && int(h, *n).is_some())),
        None => false,
    })
}
/// The statements a prover may legitimately prove after changing parts of the first block.
fn reachable(c: &Chain, two: bool) -> HashMap<Vec<Fq>, (bool, String)> {
    let mut firsts: Vec<Ep> = vec![];
    let mut pes: Vec<Ent> = vec![c.first.pe.clone()];
    pes.extend(field_alts(&ent_value(&c.first.pe)).iter().map(|v| Some(low(v, 128).to_le_bytes().to_vec())));
    let mut maxs: Vec<u32> = vec![c.first.max];
    maxs.extend(field_alts(&Fq::from(c.first.max as u64)).iter().map(|v| low(v, 32) as u32));
    let mut kss: Vec<Vec<i64>> = vec![c.first.keys.clone()];
    for i in 0..c.first.keys.len() {
        let h = c.first.keys[i];
        for v in [1, -h, 2 * h, h + 1] {
            let mut k = c.first.keys.clone();
            k[i] = v;
            kss.push(k.clone());
            for j in 0..if two { i } else { 0 } {
                let h = k[j];
                for v in [1, -h, 2 * h, h + 1] {
                    let mut k = k.clone();
                    k[j] = v;
                    kss.push(k);
                }
            }
        }
    }
    for (a, pe) in pes.iter().enumerate() {
        for (b, max) in maxs.iter().enumerate() {
            for (d, ks) in kss.iter().enumerate() {
                let dev = (a > 0) as u32 + (b > 0) as u32 + (d > 0) as u32;
                if dev <= 1 + two as u32 {
                    firsts.push(Ep { pe: pe.clone(), max: *max, keys: ks.clone(), ..c.first.clone() })
                }
            }
        }
    }
    let last = c.slots.last().unwrap().block();
    let mut m = HashMap::new();
    for f in firsts {
        let c2 = Chain { first: f.clone(), ..c.clone() };
        // the signature and the bitmap are the prover's: only the rest is judged here
        let (v, why) = judge(&c2);
        let good = v != Verdict::Invalid || why == "signature";
        m.insert(public(&f.block(), &last), (good, f.show()));
    }
    m
}
/// Signatures in which slots are replaced by a dummy's share.
pub fn slot_sigs(c: &Chain) -> Vec<G1Projective> {
    (1u32..1 << c.parts.len())
        .map(|m| c.parts.iter().enumerate().filter(|(j, _)| m >> j & 1 == 1).fold(c.sig, |s, (_, p)| s - p + g1(1)))
        .collect()
}
/// Every prover with at most `bound` deviations. On a valid base every accepted statement must be that of a
/// valid chain, on an invalid one its statement must not be accepted.
fn c27_adversary(c: &Chain, bound: usize, few: bool, prefixes: Option<&[Vec<usize>]>, at: usize) -> Result<u64, Viol> {
    let (v, why) = judge(c);
    let own = c.public();
    let reach = reachable(c, bound > 1);
    let alts = chain_alts(slot_sigs(c), few);
    let ee = ent_value(&c.first.ee);
    let mut other = 0;
    let (mut bad, mut known): (Option<Viol>, HashMap<&'static str, String>) = (None, HashMap::new());
    let mut run = || {
        LOG.with(|l| l.borrow_mut().clear());
        let (ok, _, cs) = run_chain(c, None);
        (ok, if ok { insts(&cs)[1..].to_vec() } else { vec![] })
    };
    let mut visit = |s: &Script, r: Option<(bool, Vec<Fq>)>| {
        if let Some((true, p)) = r {
            let log = LOG.with(|l| l.borrow().clone());
            let cut = cuts_high_bits(&log);
            let what = || format!("{} ({})", s.show(), log.iter().map(|(i, d)| format!("choice {}: {:?}", i, d)).collect::<Vec<_>>().join(", "));
            if p == own {
                if v == Verdict::Invalid {
                    let opts_out = why == "entropy" && log.iter().any(|(_, d)| matches!(d, Some((h, v)) if *h == ee && v.is_zero()));
                    if opts_out {
                        known.entry("entropy-opt-out").or_insert_with(what);
                    } else if cut {
                        known.entry("high-bits").or_insert_with(what);
                    } else if bad.is_none() {
                        bad = Some(viol(format!("forged:{}", why.replace(' ', "-")), format!("an invalid chain ({}) is accepted: {}", why, what())));
                    }
                }
            } else {
                match reach.get(&p) {
                    Some((true, _)) => {}
                    Some((false, f)) if v != Verdict::Open => {
                        if cut {
                            known.entry("high-bits").or_insert_with(what);
                        } else if bad.is_none() {
                            bad = Some(viol("forged", format!("accepted with first block {}: {}", f, what())));
                        }
                    }
                    _ if v == Verdict::Valid && bad.is_none() => bad = Some(viol("other-statement", format!("accepted with the unknown public inputs {:?}: {}", p, what()))),
                    _ => other += 1,
                }
            }
        }
    };
    let n = match prefixes {
        None => explore(&alts, bound, &mut run, &mut visit),
        Some(p) => explore_from(&alts, &p[at], bound, &mut run, &mut visit),
    };
    if let Some(b) = bad {
        return Err(b);
    }
    for (k, t) in known {
        return Err(viol(k, t));
    }
    Ok(n)
}

const FAULTS: [&str; 14] = ["absent", "absent in slot 2", "absent but signing", "two absent", "key changed in slot 1", "key changed in slot 2", "key changed in the first block", "padding key", "padding key signs", "padding key in slot 1 signs", "dummy in between", "dummy in between, one of its keys signs", "dummy in front", "dummy in front, one of its keys signs"];
/// Two good transitions of n validators with a fault in one position.
fn many((n, kind, j): (usize, u8, usize)) -> Chain {
    let ks = |b: i64| -> Vec<i64> { (0..n as i64).map(|i| b + 3 * i).collect() };
    let mut first = first_ep(3, ent(0), 1, &ks(2));
    let mut slots: Vec<Ep> = (0..2u64)
        .map(|i| Ep { idx: 4 + i as u16, round: 1, ee: ent(i + 1), pe: ent(i), max: 1, keys: ks(1000 * (i as i64 + 1)), bitmap: vec![true; n] })
        .collect();
    if kind == 7 || kind == 8 {
        first.keys[j] = 1;
        slots[0].bitmap[j] = kind == 8;
    }
    if kind == 9 {
        slots[0].keys[j] = 1;
    }
    match kind {
        0 => slots[0].bitmap[j] = false,
        1 => slots[1].bitmap[j] = false,
        3 => {
            slots[1].bitmap[j] = false;
            slots[1].bitmap[(j + 1) % n] = false
        }
        _ => {}
    }
    let share = |first: &Ep, slots: &[Ep], i: usize| times(&memo_hash(&slots[i].block()), selected(if i == 0 { &first.keys } else { &slots[i - 1].keys }, &slots[i].bitmap));
    let parts: Vec<_> = (0..2).map(|i| share(&first, &slots, i)).collect();
    match kind {
        2 => slots[1].bitmap[j] = false,
        4 => slots[0].keys[j] += 1,
        5 => slots[1].keys[j] += 1,
        6 => first.keys[j] += 1,
        _ => {}
    }
    let mut parts = parts;
    if kind >= 10 {
        let at = (kind < 12) as usize;
        let dummy = Ep { idx: 0, round: 0, ee: ent(50), pe: ent(51), max: 0, keys: ks(5000), bitmap: vec![true; n] };
        if kind % 2 == 1 {
            let prev = if at == 1 { slots[0].keys[j] } else { first.keys[j] };
            parts[at] += times(&memo_hash(&slots[at].block()), dummy.keys[j] - prev);
        }
        slots.insert(at, dummy);
        parts.insert(at, g1(1));
    }
    Chain { first, slots, sig: parts.iter().fold(G1Projective::zero(), |a, p| a + p), parts }
}
pub fn c27(c: &Check) {
    c.assume("allocated curve points are on the curve and affine (z = 1)");
    c.assume("a prover who does not know the discrete logarithms of the keys offers signatures that are sums of the slots' true contributions, dummy shares and simple multiples");
    let n_moves = MOVES.len();
    let confs: Vec<(&str, Ep, u32, usize)> = vec![
        ("three keys", first_ep(3, ent(0), 1, &[2, 3, 4]), 1, 3),
        ("no entropy in the first block", first_ep(0, None, 1, &[2, 3, 4]), 1, c.pick(2, 3)),
        ("zero entropy in the first block", first_ep(1, Some(vec![0; 16]), 2, &[2, 3, 4]), 0, c.pick(2, 3)),
        ("end of the index range", first_ep(65534, ent(0), 0, &[2, 3]), 1, c.pick(2, 3)),
        ("one key", first_ep(7, ent(0), 0, &[5]), 0, 2),
        ("padding keys", first_ep(254, ent(0), 2, &[6, 1, 1]), 2, c.pick(2, 3)),
        ("large maximum", first_ep(9, ent(0), u32::MAX, &[6, 7]), 0, 2),
    ];
    let tally: [AtomicU64; 3] = Default::default();
    let judged = |ch: &Chain| {
        tally[judge(ch).0 as usize].fetch_add(1, Relaxed);
        c27_honest(ch)
    };
    let seqs = |c: &Check, name: &str, first: &Ep, max: u32, moves: &[usize], d: usize| {
        let idx = |i: u64| -> Vec<usize> { mc_common::seq(i, moves.len() as u64, d).iter().map(|k| moves[*k]).collect() };
        c.par(
            &format!("{}: all sequences of {} slots", name, d),
            (moves.len() as u64).pow(d as u32),
            2,
            |i| judged(&chain(first, &idx(i), max)),
            |i| format!("{:?}: {}", idx(i).iter().map(|m| MOVES[*m]).collect::<Vec<_>>(), chain(first, &idx(i), max).show()),
        );
    };
    let every: Vec<usize> = (0..n_moves).collect();
    for (name, first, max, depth) in &confs {
        for d in 1..=*depth {
            seqs(c, name, first, *max, &every, d);
        }
    }
    // longer chains, fewer ways
    let core: Vec<usize> = if c.thorough() { vec![0, 1, 2, 3, 4, 6, 7, 8, 10, 11] } else { vec![0, 1, 2, 3, 6] };
    seqs(c, "three keys, longer", &confs[0].1, 1, &core, 4);
    for d in 5..=c.pick(5, 7) {
        seqs(c, "three keys, good, dummy and wrong entropy", &confs[0].1, 1, &[0, 1, 6][..c.pick(2, 3)], d);
    }
    // every pair of bitmaps under every maximum
    let dec = |i: u64| {
        let (a, i) = (i % 8, i / 8);
        let (b, i) = (i % 8, i / 8);
        let (m, i) = ((i % 5) as u32, i / 5);
        let dummy = i % 2 == 1;
        let bm = |x: u64| -> Vec<bool> { (0..3).map(|k| x >> k & 1 == 1).collect() };
        let first = first_ep(3, ent(0), m, &[2, 3, 4]);
        let mut ch = chain(&first, if dummy { &[0, 1, 0] } else { &[0, 0] }, m);
        let mut sig = if dummy { g1(1) } else { G1Projective::zero() };
        let mut prev = first.keys.clone();
        let mut bits = [bm(a), bm(b)].into_iter();
        for s in ch.slots.iter_mut().filter(|s| s.idx != 0) {
            s.bitmap = bits.next().unwrap();
            sig += times(&memo_hash(&s.block()), selected(&prev, &s.bitmap));
            prev = s.keys.clone();
        }
        ch.sig = sig;
        ch
    };
    c.par("two transitions: every pair of bitmaps, every maximum, with and without a dummy", 8 * 8 * 5 * 2, 2, |i| judged(&dec(i)), |i| dec(i).show());
    // long chains: good transitions but one (or, in six slots, two) of another kind, in every position
    let f2 = first_ep(3, ent(0), 1, &[2, 3]);
    let mut l: Vec<Vec<usize>> = vec![];
    for d in if c.thorough() { vec![5usize, 6, 7, 8, 10, 12, 16, 17, 20, 33] } else { vec![6, 9, 17] } {
        for p in 0..d {
            l.extend((1..n_moves).map(|m| (0..d).map(|i| if i == p { m } else { 0 }).collect::<Vec<_>>()));
        }
        l.push(vec![0; d]);
    }
    let core2: Vec<usize> = if c.thorough() { (1..n_moves).collect() } else { vec![1, 3, 4, 6, 9] };
    for p in 0..6 {
        for q in 0..p {
            for a in &core2 {
                l.extend(core2.iter().map(|b| (0..6).map(|i| if i == p { *a } else if i == q { *b } else { 0 }).collect::<Vec<_>>()));
            }
        }
    }
    c.par(
        "long chains, other transitions in every position",
        l.len() as u64,
        1,
        |i| judged(&chain(&f2, &l[i as usize], 1)),
        |i| format!("{:?}", l[i as usize].iter().map(|m| MOVES[*m]).collect::<Vec<_>>()),
    );
    // many validators: two good transitions but for one key, bit or signer, in every position
    let mut l: Vec<(usize, u8, usize)> = vec![];
    for n in if c.thorough() { vec![5usize, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 150] } else { vec![5, 9, 17, 40, 100] } {
        for k in 0..14u8 {
            let step = if c.thorough() || n < 40 { 1 } else { n / 10 };
            l.extend((0..n).filter(|j| j % step == 0 || j + 1 == n).map(|j| (n, k, j)));
        }
    }
    c.par(
        "many validators, every position",
        l.len() as u64,
        1,
        |i| judged(&many(l[i as usize])),
        |i| format!("{} validators, {}, position {}", l[i as usize].0, FAULTS[l[i as usize].1 as usize], l[i as usize].2),
    );
    c.note(format!("of these chains {} are valid, {} invalid, {} not judged", tally[0].load(Relaxed), tally[1].load(Relaxed), tally[2].load(Relaxed)));
    // the prover's choices
    let f3 = first_ep(3, ent(0), 1, &[2, 3]);
    let f0 = first_ep(3, None, 0, &[2, 3]);
    let end = first_ep(65535, ent(0), 0, &[2, 3]);
    let pad = first_ep(3, ent(0), 1, &[2, 1]);
    let m = |n: &str| MOVES.iter().position(|x| *x == n).unwrap();
    let bases: Vec<(&Ep, Vec<&str>)> = vec![
        (&f3, vec!["good"]),
        (&f3, vec!["largest allowed absence", "good"]),
        (&f3, vec!["good", "dummy", "good"]),
        (&f0, vec!["good", "wrong parent entropy"]),
        (&pad, vec!["good", "good"]),
        (&end, vec!["good"]),
        (&f3, vec!["good", "one absentee too many"]),
        (&f3, vec!["one absentee too many", "good"]),
        (&f3, vec!["index skipped"]),
        (&f3, vec!["good", "index skipped"]),
        (&f3, vec!["index repeated", "good"]),
        (&f3, vec!["good", "index repeated"]),
        (&f3, vec!["good", "index goes back"]),
        (&f3, vec!["good", "wrong parent entropy"]),
        (&f3, vec!["wrong parent entropy", "good"]),
        (&f3, vec!["signed by its own keys"]),
        (&f3, vec!["good", "signed by its own keys", "good"]),
        (&pad, vec!["padding key signs"]),
        (&f3, vec!["good", "dummy"]),
        (&f3, vec!["good", "dummy with other contents", "index skipped"]),
        // (what is changed must be committed to, else the prover may change it back)
        (&f3, vec!["maximum changed after signing"]),
        (&f3, vec!["key changed after signing", "good"]),
        (&f3, vec!["good", "entropy changed after signing"]),
    ];
    let chains: Vec<Chain> = bases.iter().map(|(f, ms)| chain(f, &ms.iter().map(|x| m(x)).collect::<Vec<_>>(), 0)).collect();
    let runs = AtomicU64::new(0);
    let deviate = |c: &Check, what: &str, which: &[usize], bound: usize, few: bool| {
        // the honest script of every base gives the first deviations, which are explored in parallel
        let mut jobs: Vec<(usize, usize)> = vec![];
        let mut prefixes: Vec<Vec<Vec<usize>>> = vec![vec![]; chains.len()];
        for w in which {
            let (_, s) = run_script(&chain_alts(slot_sigs(&chains[*w]), few), &[], 1, false, &mut || run_chain(&chains[*w], None).0);
            prefixes[*w] = first_deviations(&s);
            jobs.extend((0..prefixes[*w].len()).map(|k| (*w, k)));
        }
        // (a prefix with its last entry deviating: everything after it, up to the bound)
        c.par(
            what,
            jobs.len() as u64,
            1,
            |i| {
                let (w, k) = jobs[i as usize];
                c27_adversary(&chains[w], bound, few, Some(&prefixes[w]), k).map(|n| {
                    runs.fetch_add(n, Relaxed);
                })
            },
            |i| {
                let (w, k) = jobs[i as usize];
                format!("{:?} {} choice {} option {}", bases[w].1, chains[w].show(), prefixes[w][k].len() - 1, prefixes[w][k].last().unwrap())
            },
        );
    };
    let all: Vec<usize> = (0..chains.len()).collect();
    deviate(c, "any prover: one deviating choice", &all, 1, false);
    let short: Vec<usize> = (0..chains.len()).filter(|w| chains[*w].slots.len() == 1).collect();
    deviate(c, "any prover: two deviating choices, few options", &short[..c.pick(1, short.len())], 2, true);
    if c.thorough() {
        let long: Vec<usize> = (0..chains.len()).filter(|w| chains[*w].slots.len() == 2).collect();
        deviate(c, "any prover, two slots: two deviating choices, few options", &long, 2, true);
    }
    c.transitions.fetch_add(runs.load(Relaxed), Relaxed);
    // hashes proven by a helper
    let confs: Vec<(&Ep, usize)> = vec![(&f3, 1), (&f3, 2), (&f0, c.pick(1, 2)), (&pad, c.pick(1, 2))];
    for (first, d) in confs {
        let dec = |i: u64| chain(first, &mc_common::seq(i, n_moves as u64, d), 1);
        c.par(
            &format!("with a hash helper: first keys {:?}, all sequences of {} slots", first.keys, d),
            (n_moves as u64).pow(d as u32),
            3,
            |i| c27_helper(&dec(i)),
            |i| format!("{:?}: {}", mc_common::seq(i, n_moves as u64, d).iter().map(|m| MOVES[*m]).collect::<Vec<_>>(), dec(i).show()),
        );
    }
}
/// The statement of the helper's proof for this chain: compressed messages and hashes of all slots.
pub fn helper_inputs(c: &Chain) -> Vec<Fr> {
    let (mut crh, mut xof) = (vec![], vec![]);
    for s in &c.slots {
        let b = s.block();
        let (i, e) = inner_bits(&b);
        let m = composite_crh(&to_bytes(&i));
        xof.extend(le(&b2s::xof(b"ULforxof", &[&[hash_of(&b).1][..], &to_bytes(&e), &m].concat(), 64)));
        crh.extend(le(&m));
    }
    [crh, xof].iter().flat_map(|b| b.chunks(252).map(|ch| ch.iter().fold(Fr::zero(), |a, b| a.double() + Fr::from(*b as u64))).collect::<Vec<_>>()).collect()
}
pub fn helper_vk(n: usize) -> ark_groth16::VerifyingKey<Bls12_377> {
    use ark_ec::AffineCurve;
    let a = |k: i64| g1(k).into_affine();
    let b = |k: i64| g2(k).into_affine();
    ark_groth16::VerifyingKey { alpha_g1: a(31), beta_g2: b(32), gamma_g2: b(33), delta_g2: b(34), gamma_abc_g1: (0..=n as i64).map(|k| a(35 + k).into_projective().into_affine()).collect() }
}
fn c27_helper(c: &Chain) -> CaseResult {
    let (v, why) = judge(c);
    let x = helper_inputs(c);
    let vk = helper_vk(x.len());
    let h = |proof| Some(HashToBitsHelper { proof, verifying_key: vk.clone() });
    let r = caught(|| run_chain(c, h(mark::groth16::ideal(&vk, &x))));
    let ok = matches!(&r, Ok((true, _, _)));
    match v {
        Verdict::Valid => ensure!(ok, "helper:valid-rejected", "a valid chain with a valid helper proof is rejected: {:?}", r.as_ref().map(|r| (r.1, r.2.which_is_unsatisfied()))),
        Verdict::Invalid => ensure!(!ok, format!("helper:invalid-accepted:{}", why.replace(' ', "-")), "an invalid chain ({}) is accepted", why),
        Verdict::Open => {}
    }
    if let (true, Ok((_, _, cs))) = (ok, &r) {
        ensure!(insts(cs)[1..] == c.public()[..], "helper:public-inputs", "the public inputs do not commit to the first and last block");
        let scs: Cs = setup_cs();
        let s = caught(|| ValidatorSetUpdate::<Bls12_377>::empty(c.first.keys.len(), c.slots.len(), 1, Some(vk.clone())).generate_constraints(scs.clone()));
        ensure!(s == Ok(Ok(())) && scs.shape() == cs.shape(), "helper:setup-shape", "setup gives {:?}, constraints differ: {}", s, scs.shape() != cs.shape());
        let mut other = x.clone();
        other[0] += Fr::one();
        for bad in [mark::groth16::ideal(&vk, &other), mark::groth16::ideal(&helper_vk(x.len() - 1), &x)] {
            let r = caught(|| run_chain(c, h(bad)).0);
            ensure!(r != Ok(true), "hash-helper-not-enforced", "accepted with a helper proof for other inputs");
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ C28
use bls_crypto::Signature;
use epoch_snark::{prove, trusted_setup, verify, EpochTransition, Parameters};
type Params = Parameters<ark_bw6_761::BW6_761, Bls12_377>;
type Proof = ark_groth16::Proof<ark_bw6_761::BW6_761>;
/// Everything but the generator shares of dummy slots.
fn transitions(c: &Chain) -> Vec<EpochTransition> {
    c.slots.iter().zip(&c.parts).map(|(s, p)| EpochTransition { block: s.block(), aggregate_signature: Signature::from(*p), bitmap: s.bitmap.clone() }).collect()
}
struct Rng(u64);
impl rand::RngCore for Rng {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0 ^ self.0 >> 29
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = self.next_u64() as u8
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}
fn params(n: usize, slots: usize, max: usize, seed: u64, helper: bool) -> Params {
    trusted_setup(n, slots, max, &mut Rng(seed), helper).expect("trusted setup")
}
/// None: panicked.
fn prove_chain(p: &Params, n: u32, c: &Chain, slots: usize) -> Option<Result<Proof, SynthesisError>> {
    caught(|| prove(p, n, &c.first.block(), &transitions(c), slots)).ok()
}
fn accepted(p: &Params, f: &EpochBlock, l: &EpochBlock, proof: &Proof) -> bool {
    caught(|| verify(&p.epochs.vk, f, l, proof).is_ok()).unwrap_or(false)
}
/// Proving and verifying with parameters of the right size.
fn c28_case(p: &Params, c: &Chain, slots: usize) -> CaseResult {
    let n = c.first.keys.len() as u32;
    let (mut v, why) = judge(c);
    if v == Verdict::Valid && c.slots.iter().any(|s| s.idx == 0) {
        // (transitions are real epochs; dummies are the prover's)
        v = Verdict::Open;
    }
    let r = prove_chain(p, n, c, slots);
    let t = c.slots.len();
    if t == 0 || t > slots {
        ensure!(matches!(r, Some(Err(_))), "wrong-length", "proving {} transitions for {} slots gives {:?} instead of an error", t, slots, r.as_ref().map(|r| r.as_ref().map(|_| "a proof")));
        return Ok(());
    }
    let (f, l) = (c.first.block(), c.slots[t - 1].block());
    let ok = matches!(&r, Some(Ok(proof)) if accepted(p, &f, &l, proof));
    match v {
        Verdict::Valid => ensure!(ok, "valid-rejected", "a valid chain of {} in {} slots does not verify: prove gives {:?}, {:?}", t, slots, r.map(|r| r.map(|_| "a proof")), mark::groth16::last_proof()),
        Verdict::Invalid => ensure!(!ok, format!("invalid-accepted:{}", why.replace(' ', "-")), "the proof of an invalid chain ({}) verifies", why),
        Verdict::Open => {}
    }
    Ok(())
}
pub fn c28(c: &Check) {
    c.assume("Groth16 is an ideal functionality: a proof verifies exactly when it was made from a satisfied instance of the circuit of its setup, for the verifying key and public inputs");
    c.assume("blocks given to the prover hold exactly as many keys as the circuit has slots; bitmaps have one bit per key");
    let n_moves = MOVES.len();
    let confs: Vec<(&str, Ep, u32, usize)> = vec![
        ("three keys", first_ep(3, ent(0), 1, &[2, 3, 4]), 1, 2),
        ("no entropy in the first block", first_ep(0, None, 1, &[2, 3]), 1, c.pick(1, 2)),
        ("end of the index range", first_ep(65534, ent(0), 0, &[2, 3]), 1, c.pick(1, 2)),
        ("one key", first_ep(7, ent(0), 0, &[5]), 0, 2),
        ("padding keys", first_ep(254, ent(0), 2, &[6, 1, 1]), 2, 2),
    ];
    for (name, first, max, depth) in &confs {
        let n = first.keys.len();
        for slots in 1..=c.pick(3, 4) {
            let p = params(n, slots, 1, 1, false);
            for d in 0..=*depth {
                let dec = |i: u64| chain(first, &mc_common::seq(i, n_moves as u64, d), *max);
                c.par(
                    &format!("{}: all sequences of {} transitions in {} slots", name, d, slots),
                    (n_moves as u64).pow(d as u32),
                    2,
                    |i| c28_case(&p, &dec(i), slots),
                    |i| format!("{:?}: {}", mc_common::seq(i, n_moves as u64, d).iter().map(|m| MOVES[*m]).collect::<Vec<_>>(), dec(i).show()),
                );
            }
        }
    }
    // good transitions of every kind, every length, every size
    let good: Vec<usize> = ["good", "largest allowed absence", "without entropy", "good with a padding key"].iter().map(|n| MOVES.iter().position(|m| m == n).unwrap()).collect();
    for (name, first, max, _) in &confs {
        for slots in 1..=c.pick(5, 7) {
            let p = params(first.keys.len(), slots, 1, 2, false);
            for d in 0..=slots + 2 {
                let k = if d <= c.pick(2, 4) { good.len() } else { 1 } as u64;
                let dec = |i: u64| chain(first, &mc_common::seq(i, k, d).iter().map(|m| good[*m]).collect::<Vec<_>>(), *max);
                c.par(&format!("{}: good transitions, {} in {} slots", name, d, slots), k.pow(d as u32), 2, |i| c28_case(&p, &dec(i), slots), |i| dec(i).show());
            }
        }
    }
    // long chains and many validators: one transition, key, bit or signer off in every position
    let f2 = first_ep(3, ent(0), 1, &[2, 3]);
    for (d, slots) in if c.thorough() { vec![(4, 4), (5, 7), (8, 9), (9, 9), (16, 17), (17, 17), (24, 24)] } else { vec![(5, 6), (9, 9)] } {
        let p = params(2, slots, 1, 2, false);
        let dec = |i: u64| -> Vec<usize> { (0..d).map(|k| if k == i as usize / n_moves { i as usize % n_moves } else { 0 }).collect() };
        c.par(
            &format!("{} transitions in {} slots, one of any kind in every position", d, slots),
            (d * n_moves) as u64,
            1,
            |i| c28_case(&p, &chain(&f2, &dec(i), 1), slots),
            |i| format!("{:?}", dec(i).iter().map(|m| MOVES[*m]).collect::<Vec<_>>()),
        );
    }
    for n in if c.thorough() { vec![5usize, 9, 16, 17, 33, 65, 100, 150] } else { vec![5, 9, 17, 40] } {
        let p = params(n, 3, 1, 2, false);
        let step = if c.thorough() || n < 20 { 1 } else { n / 10 };
        let at: Vec<usize> = (0..n).filter(|j| j % step == 0 || j + 1 == n).collect();
        c.par(
            &format!("two transitions of {} validators", n),
            10 * at.len() as u64,
            1,
            |i| c28_case(&p, &many((n, (i % 10) as u8, at[i as usize / 10])), 3),
            |i| format!("{} in position {}", FAULTS[i as usize % 10], at[i as usize / 10]),
        );
    }
    // other statements, keys and proofs
    let g = good[0];
    let chains: Vec<Chain> = vec![
        chain(&confs[0].1, &[g], 1),
        chain(&confs[0].1, &[g, g], 1),
        chain(&confs[4].1, &[g, good[3], g], 2),
        chain(&first_ep(4, ent(1), 1, &[2, 3, 4]), &[g, g], 1),
        chain(&first_ep(3, ent(0), 1, &[2, 3, 5]), &[g], 1),
    ];
    let slots = 3;
    let ps: Vec<Params> = vec![params(3, slots, 1, 1, false), params(3, slots, 1, 3, false), params(3, 2, 1, 1, false), params(2, slots, 1, 1, false)];
    let proofs: Vec<Proof> = chains.iter().map(|ch| prove_chain(&ps[0], 3, ch, slots).expect("prove").expect("prove")).collect();
    let ends: Vec<(EpochBlock, EpochBlock)> = chains.iter().map(|ch| (ch.first.block(), ch.slots.last().unwrap().block())).collect();
    let mut l: Vec<(usize, EpochBlock, EpochBlock)> = vec![];
    for w in 0..c.pick(3, chains.len()) {
        let (f, e) = &ends[w];
        for x in neighbours(f) {
            l.push((w, x, e.clone()))
        }
        for x in neighbours(e) {
            l.push((w, f.clone(), x))
        }
        for ch in &chains {
            for f2 in std::iter::once(&ch.first).chain(&ch.slots) {
                for l2 in std::iter::once(&ch.first).chain(&ch.slots) {
                    l.push((w, f2.block(), l2.block()));
                }
            }
        }
    }
    c.par(
        "proofs against substituted blocks",
        l.len() as u64,
        1,
        |i| {
            let (w, f, e) = &l[i as usize];
            let got = accepted(&ps[0], f, e, &proofs[*w]);
            let want = public(f, e) == chains[*w].public();
            ensure!(got == want, "statement", "the proof verifies: {}, but the blocks are{} those it was made for", got, if want { "" } else { " not" });
            Ok(())
        },
        |i| format!("chain {} first {} last {}", chains[l[i as usize].0].show(), show(&l[i as usize].1), show(&l[i as usize].2)),
    );
    let k = chains.len();
    c.par(
        "proofs against every verifying key and statement",
        (ps.len() * k * k) as u64,
        1,
        |i| {
            let i = i as usize;
            let (v, a, b) = (i % ps.len(), i / ps.len() % k, i / ps.len() / k);
            let got = accepted(&ps[v], &ends[a].0, &ends[a].1, &proofs[b]);
            ensure!(got == (v == 0 && a == b), "verifying-key", "verifying key {} statement {} proof {}: {}", v, a, b, got);
            Ok(())
        },
        |i| format!("#{}", i),
    );
    // parameters, sizes and numbers of validators that do not belong together
    c.par(
        "mismatched parameters",
        (ps.len() * k * 5 * 3) as u64,
        2,
        |i| {
            let i = i as usize;
            let (v, w, max, nv) = (i % ps.len(), i / ps.len() % k, i / ps.len() / k % 5, 2 + i / ps.len() / k / 5);
            let fits = max == [3, 3, 2, 3][v] && v != 3 && nv == 3 && chains[w].slots.len() <= max;
            let r = caught(|| prove(&ps[v], nv as u32, &ends[w].0, &transitions(&chains[w]), max));
            let ok = matches!(&r, Ok(Ok(p)) if accepted(&ps[v], &ends[w].0, &ends[w].1, p));
            ensure!(ok == fits, "mismatch", "parameters {} chain {} maximum {} validators {}: accepted {}", v, w, max, nv, ok);
            Ok(())
        },
        |i| format!("#{}", i),
    );
    // the helper variant
    for slots in 1..=c.pick(2, 3) {
        let p = params(3, slots, 1, 1, true);
        for d in 0..=2 {
            let dec = |i: u64| chain(&confs[0].1, &mc_common::seq(i, n_moves as u64, d), 1);
            c.par(
                &format!("hashes in BLS12-377: all sequences of {} transitions in {} slots", d, slots),
                (n_moves as u64).pow(d as u32),
                2,
                |i| c28_case(&p, &dec(i), slots).map_err(|v| viol(format!("helper:{}", v.key), v.text)),
                |i| format!("{:?}: {}", mc_common::seq(i, n_moves as u64, d).iter().map(|m| MOVES[*m]).collect::<Vec<_>>(), dec(i).show()),
            );
        }
    }
}
