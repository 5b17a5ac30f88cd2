//! C32: whole histories, from validators' signatures made through the C interface to a proof verified
//! through it. Every history within the bounds is run; what each step says must agree with what happened.
use crate::ffi::{out_obj, out_vec};
use crate::o::*;
use ark_bls12_377::Fr;
use bls_crypto::{PrivateKey, PublicKey, Signature};
use bls_snark_sys::{serialization as fs, signatures as fg, snark as fk, utils as fu};
use epoch_snark::{prove, trusted_setup, EpochBlock, EpochTransition, Parameters};
use fk::epoch_block::EpochBlockFFI;
use mc_common::{caught, ensure, viol, CaseResult, Check, Viol};
use std::collections::HashMap;
use std::os::raw::c_int;
use std::ptr::{null, null_mut};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

type Params = Parameters<ark_bw6_761::BW6_761, ark_bls12_377::Bls12_377>;
type V<T> = Result<T, Viol>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Nothing,
    // what the signers of the epoch signed instead
    OtherIndex,
    OtherRound,
    OtherMax,
    OtherKeys,
    OtherEntropy,
    OtherParent,
    NotCip22,
    Direct,
    Pop,
    ExtraInMessage,
    Swapped,
    // what was aggregated
    ShareMissing,
    ShareExtra,
    ShareTwice,
    Outsider,
    PreviousAggregate,
    // what the epoch was
    IndexSkipped,
    IndexRepeated,
    WrongParent,
    PaddingSigns,
}
use Fault::*;
const FAULTS: [Fault; 21] = [
    Nothing, OtherIndex, OtherRound, OtherMax, OtherKeys, OtherEntropy, OtherParent, NotCip22, Direct, Pop, ExtraInMessage, Swapped, ShareMissing, ShareExtra,
    ShareTwice, Outsider, PreviousAggregate, IndexSkipped, IndexRepeated, WrongParent, PaddingSigns,
];
/// How the validators change at an epoch: not at all, all of them, all and one fewer.
const SETS: [&str; 3] = ["same", "fresh", "short"];
#[derive(Clone, Debug)]
struct Hist {
    n: usize,
    /// whether the first epoch has entropy
    entropy: bool,
    index: u16,
    max: u32,
    /// per epoch: validators' change, who signs it
    epochs: Vec<(usize, u128)>,
    fault: (usize, Fault),
    /// the circuit's number of epochs beyond the history's
    spare: usize,
}
/// An epoch as the validators know it: secret scalars without padding.
#[derive(Clone, Debug, PartialEq)]
struct E {
    index: u16,
    round: u8,
    ee: Option<Vec<u8>>,
    pe: Option<Vec<u8>>,
    max: u32,
    n: usize,
    sks: Vec<i64>,
}
fn key_bytes(k: i64) -> Vec<u8> {
    ser(&fr(k))
}
struct Sk(*mut PrivateKey);
impl Drop for Sk {
    fn drop(&mut self) {
        unsafe { fs::destroy_private_key(self.0) };
    }
}
fn sk(k: i64) -> V<Sk> {
    let b = key_bytes(k);
    let mut p = null_mut();
    ensure!(fs::deserialize_private_key(b.as_ptr(), b.len() as c_int, &mut p), "deserialize", "private key {} not read", k);
    Ok(Sk(p))
}
/// A validator's public key, sent over the wire.
fn pk(k: i64) -> V<PublicKey> {
    static M: Mutex<Option<HashMap<i64, PublicKey>>> = Mutex::new(None);
    if let Some(p) = M.lock().unwrap().get_or_insert_with(Default::default).get(&k) {
        return Ok(p.clone());
    }
    let s = sk(k)?;
    let p = out_obj(|o| fg::private_key_to_public_key(s.0, o), fs::destroy_public_key)?.ok_or_else(|| viol("public-key", "no public key"))?;
    let wire = out_vec(|o, l| fs::serialize_public_key(&p, o, l))?.ok_or_else(|| viol("serialize", "public key not written"))?;
    let q = out_obj(|o| fs::deserialize_public_key(wire.as_ptr(), wire.len() as c_int, o), fs::destroy_public_key)?.ok_or_else(|| viol("deserialize", "public key not read"))?;
    ensure!(p == q, "serialize", "public key changed on the way");
    M.lock().unwrap().as_mut().unwrap().insert(k, q.clone());
    Ok(q)
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum How {
    Cip22,
    Composite,
    Direct,
    Pop,
}
/// A validator's signature, sent over the wire.
fn share(k: i64, msg: &[u8], extra: &[u8], how: &How) -> V<Signature> {
    static M: Mutex<Option<HashMap<(i64, Vec<u8>, Vec<u8>, How), Signature>>> = Mutex::new(None);
    let key = (k, msg.to_vec(), extra.to_vec(), how.clone());
    if let Some(s) = M.lock().unwrap().get_or_insert_with(Default::default).get(&key) {
        return Ok(s.clone());
    }
    let s = sk(k)?;
    let (m, ml, e, el) = (msg.as_ptr(), msg.len() as c_int, extra.as_ptr(), extra.len() as c_int);
    let x = out_obj(
        |o| match how {
            How::Cip22 => fg::sign_message(s.0, m, ml, e, el, true, true, o),
            How::Composite => fg::sign_message(s.0, m, ml, e, el, true, false, o),
            How::Direct => fg::sign_message(s.0, m, ml, e, el, false, false, o),
            How::Pop => fg::sign_pop(s.0, m, ml, o),
        },
        fs::destroy_signature,
    )?
    .ok_or_else(|| viol("sign", "signing fails"))?;
    let wire = out_vec(|o, l| fs::serialize_signature(&x, o, l))?.ok_or_else(|| viol("serialize", "signature not written"))?;
    let y = out_obj(|o| fs::deserialize_signature(wire.as_ptr(), wire.len() as c_int, o), fs::destroy_signature)?.ok_or_else(|| viol("deserialize", "signature not read"))?;
    ensure!(x == y, "serialize", "signature changed on the way");
    if *how == How::Cip22 {
        ensure!(check(&pk(k)?, msg, extra, &y)?, "share", "a validator's own signature does not verify");
    }
    M.lock().unwrap().as_mut().unwrap().insert(key, y.clone());
    Ok(y)
}
fn check(p: &PublicKey, msg: &[u8], extra: &[u8], s: &Signature) -> V<bool> {
    let mut ok = false;
    ensure!(fg::verify_signature(p, msg.as_ptr(), msg.len() as c_int, extra.as_ptr(), extra.len() as c_int, s, true, true, &mut ok), "verify", "verify_signature fails");
    Ok(ok)
}
fn ptr(e: &Option<Vec<u8>>) -> *const u8 {
    e.as_ref().map_or(null(), |e| e.as_ptr())
}
impl E {
    fn pks(&self) -> V<Vec<PublicKey>> {
        self.sks.iter().map(|k| pk(*k)).collect()
    }
    fn padding(&self) -> PublicKey {
        PublicKey::from(EpochBlock::padding_pk())
    }
    /// What validators sign: from the C interface, given only the actual keys.
    fn signed(&self) -> V<(Vec<u8>, Vec<u8>)> {
        let ks = self.pks()?;
        let p: Vec<*const PublicKey> = ks.iter().map(|k| k as *const _).collect();
        let (mut ex, mut exl): (*mut u8, c_int) = (null_mut(), 0);
        let m = out_vec(|o, l| {
            fk::epoch_block::encode_epoch_block_to_bytes_cip22(self.index, self.round, ptr(&self.ee), ptr(&self.pe), self.max, self.n as u32, p.as_ptr(), p.len() as c_int, o, l, &mut ex, &mut exl)
        })?
        .ok_or_else(|| viol("encode", "encoding fails"))?;
        let x = unsafe { std::slice::from_raw_parts(ex, exl as usize) }.to_vec();
        unsafe { fs::free_vec(ex, exl) };
        Ok((m, x))
    }
    /// What the prover works on: padded.
    fn block(&self) -> V<EpochBlock> {
        let mut ks = self.pks()?;
        ks.resize(self.n, self.padding());
        Ok(EpochBlock::new(self.index, self.round, self.ee.clone(), self.pe.clone(), self.max, self.n, ks))
    }
}
/// A block as a C verifier has it, padded by hand or not.
fn ffi_block(e: &E, raw: &mut Vec<u8>, padded: bool) -> V<EpochBlockFFI> {
    let mut ks = e.pks()?;
    if padded {
        ks.resize(e.n, e.padding());
    }
    *raw = ks.iter().flat_map(|k| ser(k)).collect();
    Ok(EpochBlockFFI {
        index: e.index,
        round: e.round,
        epoch_entropy: ptr(&e.ee),
        parent_entropy: ptr(&e.pe),
        pubkeys: raw.as_ptr(),
        pubkeys_num: ks.len(),
        maximum_non_signers: e.max,
        maximum_validators: e.n,
    })
}
fn verify(vk: &[u8], proof: &[u8], f: &E, l: &E, padded: bool) -> V<bool> {
    let (mut a, mut b) = (vec![], vec![]);
    let (f, l) = (ffi_block(f, &mut a, padded)?, ffi_block(l, &mut b, padded)?);
    Ok(unsafe { fk::verify(vk.as_ptr(), vk.len() as u32, proof.as_ptr(), proof.len() as u32, f, l) })
}
fn aggregate(s: &[Signature]) -> V<Signature> {
    let p: Vec<*const Signature> = s.iter().map(|s| s as *const _).collect();
    out_obj(|o| fg::aggregate_signatures(p.as_ptr(), p.len() as c_int, o), fs::destroy_signature)?.ok_or_else(|| viol("aggregate", "aggregating signatures fails"))
}
fn aggregate_pk(s: &[PublicKey]) -> V<PublicKey> {
    let p: Vec<*const PublicKey> = s.iter().map(|s| s as *const _).collect();
    out_obj(|o| fg::aggregate_public_keys(p.as_ptr(), p.len() as c_int, o), fs::destroy_public_key)?.ok_or_else(|| viol("aggregate", "aggregating keys fails"))
}
const OUTSIDER: i64 = 999;
fn ent(k: u64) -> Option<Vec<u8>> {
    Some(pat(16, 300 + k))
}
/// Runs a history. None: the fault has no effect in it.
fn run(h: &Hist, params: &Params, vkb: &[u8]) -> V<Option<bool>> {
    let fresh = |j: usize, short: bool| -> Vec<i64> { (0..(h.n - short as usize) as i64).map(|i| 2 + 17 * j as i64 + i * i + i).collect() };
    let first = E { index: h.index, round: 0, ee: if h.entropy { ent(0) } else { None }, pe: ent(99), max: h.max, n: h.n, sks: fresh(0, false) };
    let mut es = vec![first];
    let mut ts: Vec<EpochTransition> = vec![];
    let mut native: Vec<(Vec<u8>, Vec<u8>, PublicKey, Signature, bool)> = vec![];
    let (mut chain_ok, mut enough) = (true, true);
    for (j, (set, mask)) in h.epochs.iter().enumerate() {
        let fault = if h.fault.0 == j { h.fault.1 } else { Nothing };
        let prev = es.last().unwrap().clone();
        let next = match prev.index.checked_add(1 + (fault == IndexSkipped) as u16) {
            Some(i) => i,
            None => return Ok(None),
        };
        let mut e = E {
            index: next,
            round: j as u8 + 3,
            ee: ent(j as u64 + 1),
            pe: prev.ee.clone(),
            max: h.max,
            n: h.n,
            sks: match SETS[*set] {
                "same" => prev.sks.clone(),
                "fresh" => fresh(j + 1, false),
                _ => fresh(j + 1, true),
            },
        };
        match fault {
            IndexRepeated => e.index = prev.index,
            WrongParent => e.pe = ent(77),
            _ => {}
        }
        chain_ok &= match fault {
            IndexSkipped | IndexRepeated => false,
            // (a chain whose first epoch has no entropy is not bound by it)
            WrongParent => !h.entropy,
            _ => true,
        };
        let signers: Vec<usize> = (0..prev.sks.len()).filter(|i| mask >> i & 1 == 1).collect();
        let absent: Vec<usize> = (0..prev.sks.len()).filter(|i| mask >> i & 1 == 0).collect();
        if mask >> prev.sks.len() != 0 || signers.is_empty() {
            return Ok(None);
        }
        let mut bitmap: Vec<bool> = (0..h.n).map(|i| i < prev.sks.len() && mask >> i & 1 == 1).collect();
        // what the signers see
        let mut seen = e.clone();
        match fault {
            OtherIndex => seen.index ^= 1,
            OtherRound => seen.round += 1,
            OtherMax => seen.max += 1,
            OtherKeys => seen.sks[0] += 1000,
            OtherEntropy => seen.ee = ent(66),
            OtherParent => seen.pe = ent(66),
            _ => {}
        }
        let (m, x) = seen.signed()?;
        let (m, x, how) = match fault {
            NotCip22 => (m, x, How::Composite),
            Direct => (m, x, How::Direct),
            Pop => (m, x, How::Pop),
            ExtraInMessage => ([m, x].concat(), vec![], How::Cip22),
            Swapped => (x, m, How::Cip22),
            _ => (m, x, How::Cip22),
        };
        let mut shares: Vec<Signature> = signers.iter().map(|i| share(prev.sks[*i], &m, &x, &how)).collect::<V<_>>()?;
        match fault {
            ShareMissing => {
                shares.pop();
            }
            ShareExtra => match absent.first() {
                Some(i) => shares.push(share(prev.sks[*i], &m, &x, &how)?),
                None => return Ok(None),
            },
            ShareTwice => shares.push(shares[0].clone()),
            Outsider => shares[0] = share(OUTSIDER, &m, &x, &how)?,
            PaddingSigns => match prev.sks.len() < h.n {
                true => {
                    // the generator's key is 1: anyone can sign for it
                    bitmap[h.n - 1] = true;
                    shares.push(share(1, &m, &x, &how)?)
                }
                false => return Ok(None),
            },
            _ => {}
        }
        let sig = match (fault, native.last()) {
            (PreviousAggregate, Some(p)) => p.3.clone(),
            (PreviousAggregate, None) => return Ok(None),
            _ => aggregate(&shares)?,
        };
        let sig_ok = matches!(fault, Nothing | IndexSkipped | IndexRepeated | WrongParent | PaddingSigns);
        let block = e.block()?;
        let mut members = prev.pks()?;
        members.resize(h.n, prev.padding());
        let (m, x) = e.signed()?;
        let apk = aggregate_pk(&members.iter().zip(&bitmap).filter(|b| *b.1).map(|b| b.0.clone()).collect::<Vec<_>>())?;
        ensure!(check(&apk, &m, &x, &sig)? == sig_ok, "native", "epoch {}: the aggregate signature verifies: {}", j, !sig_ok);
        enough &= bitmap.iter().filter(|b| !**b).count() <= prev.max as usize && fault != PaddingSigns;
        ts.push(EpochTransition { block, aggregate_signature: sig.clone(), bitmap });
        native.push((m, x, apk, sig, sig_ok));
        es.push(e);
    }
    // all epochs at once
    let sigs_ok = native.iter().all(|n| n.4);
    let msgs: Vec<fu::MessageFFI> = native
        .iter()
        .map(|(m, x, p, s, _)| fu::MessageFFI { data: fu::Buffer { ptr: m.as_ptr(), len: m.len() }, extra: fu::Buffer { ptr: x.as_ptr(), len: x.len() }, public_key: p, sig: s })
        .collect();
    let mut ok = !sigs_ok;
    ensure!(fg::batch_verify_signature(msgs.as_ptr(), msgs.len(), true, true, &mut ok) && ok == sigs_ok, "batch", "batch verification of all epochs says {}", ok);
    let want = sigs_ok && chain_ok && enough;
    let r = caught(|| prove(params, h.n as u32, &es[0].block().ok().unwrap(), &ts, h.epochs.len() + h.spare));
    let (f, l) = (&es[0], es.last().unwrap());
    let got = match &r {
        Ok(Ok(p)) => {
            let pb = ser(p);
            let got = verify(vkb, &pb, f, l, false)?;
            ensure!(verify(vkb, &pb, f, l, true)? == got, "padding", "the verdict depends on whether the verifier pads the keys itself");
            if got {
                let mut others: Vec<(E, E)> = vec![(l.clone(), f.clone()), (f.clone(), f.clone())];
                for e in &es[1..es.len() - 1] {
                    others.push((f.clone(), e.clone()));
                    others.push((e.clone(), l.clone()));
                }
                for side in 0..2 {
                    let mut with = |g: &dyn Fn(&mut E)| {
                        let (mut a, mut b) = (f.clone(), l.clone());
                        g(if side == 0 { &mut a } else { &mut b });
                        others.push((a, b))
                    };
                    with(&|e| e.index ^= 1);
                    with(&|e| e.max += 1);
                    with(&|e| e.sks[0] += 1000);
                    with(&|e| if e.sks.len() > 1 { e.sks.swap(0, 1) });
                    with(&|e| if side == 0 { e.pe = ent(55) } else { e.ee = ent(55) });
                }
                for (a, b) in others {
                    // (the last block's keys are committed to as their sum too)
                    if (&a, &b) == (f, l) {
                        continue;
                    }
                    ensure!(!verify(vkb, &pb, &a, &b, false)?, "other-statement", "the proof also verifies for {:?} -> {:?}", a, b);
                }
            }
            got
        }
        _ => false,
    };
    ensure!(got == want, if want { "valid-rejected" } else { "invalid-accepted" }, "signatures valid: {}, chained: {}, enough signers: {}; proof verifies: {} (prove: {:?}, {:?})", sigs_ok, chain_ok, enough, got, r.as_ref().map(|r| r.as_ref().map(|_| ())), mark::groth16::last_proof());
    Ok(Some(want))
}
pub fn c32(c: &Check) {
    bls_snark_sys::init();
    c.assume("Groth16 is an ideal functionality: a proof verifies exactly when it was made from a satisfied instance of the circuit of its setup, for the verifying key and public inputs");
    let tally: [AtomicU64; 3] = Default::default();
    let mk = |n: usize, slots: usize, helper: bool| -> (Params, Vec<u8>) {
        let p = trusted_setup(n, slots, 1, &mut rand::thread_rng(), helper).expect("trusted setup");
        let v = ser(&p.epochs.vk);
        (p, v)
    };
    // (validators, epochs, every fault, helper)
    let mut spaces: Vec<(usize, usize, bool, bool)> = vec![(2, 1, true, false), (3, 1, true, false), (2, 2, true, false), (3, 2, false, false), (2, 1, true, true)];
    if c.thorough() {
        spaces.extend([(3, 2, true, false), (2, 3, true, false), (4, 1, true, false), (3, 1, true, true)]);
    }
    for (n, e, faults, helper) in spaces {
        for spare in 0..=c.pick(if (n, e) == (3, 2) { 0 } else { 1 }, 2) {
            // (faults and spare slots together: in thorough mode, and with one epoch)
            let faults = faults && (spare == 0 || e == 1 || c.thorough());
            let (p, v) = match caught(|| mk(n, e + spare, helper)) {
                Ok(x) => x,
                Err(t) => {
                    c.case("setup", || Err(viol("setup", t.to_string())));
                    return;
                }
            };
            let fk = if faults { 1 + (FAULTS.len() - 1) * e } else { 1 };
            // (with everybody allowed to be absent nobody new signs: left out of the largest space)
            let maxima = if faults && e > 1 && !c.thorough() { n } else { 1 + n };
            let dims: Vec<u64> = [vec![fk as u64, 2, maxima as u64], (0..e).flat_map(|_| [SETS.len() as u64, 1 << n]).collect()].concat();
            let total: u64 = dims.iter().product();
            let dec = |mut i: u64| -> Hist {
                let d: Vec<u64> = dims.iter().map(|m| { let r = i % m; i /= m; r }).collect();
                let fault = if d[0] == 0 { (0, Nothing) } else { ((d[0] as usize - 1) / (FAULTS.len() - 1), FAULTS[1 + (d[0] as usize - 1) % (FAULTS.len() - 1)]) };
                Hist { n, entropy: d[1] == 1, index: if d[2] == 0 { 65535 - e as u16 } else { 7 }, max: d[2] as u32, epochs: (0..e).map(|k| (d[3 + 2 * k] as usize, d[4 + 2 * k] as u128)).collect(), fault, spare }
            };
            c.par(
                &format!("{} validators, {} epochs in {} slots{}{}", n, e, e + spare, if faults { ", every fault" } else { "" }, if helper { ", hashes in BLS12-377" } else { "" }),
                total,
                2,
                |i| {
                    let r = run(&dec(i), &p, &v)?;
                    tally[r.map_or(2, |w| w as usize)].fetch_add(1, Relaxed);
                    Ok(())
                },
                |i| format!("{:?}", dec(i)),
            );
        }
    }
    // more validators or epochs: every fault in every epoch, chosen absentees
    let mut sizes: Vec<(usize, usize, usize, bool)> = vec![(5, 2, 0, false), (9, 1, 1, false), (17, 1, 0, false), (40, 1, 0, false), (2, 5, 1, false), (2, 9, 0, false)];
    if c.thorough() {
        sizes.extend([(9, 2, 1, false), (33, 2, 0, false), (65, 2, 0, false), (100, 1, 0, false), (120, 1, 1, false), (3, 12, 2, false), (2, 17, 0, false), (12, 2, 0, true), (2, 6, 1, true)]);
    }
    for (n, e, spare, helper) in sizes {
        let (p, v) = match caught(|| mk(n, e + spare, helper)) {
            Ok(x) => x,
            Err(t) => {
                c.case("setup", || Err(viol("setup", t.to_string())));
                return;
            }
        };
        let every = (1u128 << n) - 1;
        let masks = [every, every - 1, every & !(1 << (n / 2)), every >> 1, every & !(1 | 1 << (n / 2)), every >> 2];
        let mut l: Vec<Hist> = vec![];
        for set in 0..SETS.len() {
            // (the mask leaves out the place the shorter set lacks)
            let fit = |m: u128| if set == 2 && e > 1 { m & (every >> 1) } else { m };
            for (k, m) in masks.iter().enumerate() {
                for at in 0..e {
                    let mut epochs: Vec<(usize, u128)> = (0..e).map(|_| (set, if set == 2 { every >> 1 } else { every })).collect();
                    epochs[0].1 = every;
                    epochs[at].1 = if at == 0 { *m } else { fit(*m) };
                    let h = Hist { n, entropy: (k + at) % 3 != 0, index: if set == 1 { 65535 - e as u16 } else { 7 }, max: 1, epochs, fault: (0, Nothing), spare };
                    if k < if n < 10 && e < 9 { 3 } else { 1 } {
                        l.extend(FAULTS[1..].iter().map(|f| Hist { fault: (at, *f), ..h.clone() }));
                    }
                    l.push(h);
                }
            }
        }
        c.par(
            &format!("{} validators, {} epochs in {} slots, chosen absentees{}", n, e, e + spare, if helper { ", hashes in BLS12-377" } else { "" }),
            l.len() as u64,
            2,
            |i| {
                let r = run(&l[i as usize], &p, &v)?;
                tally[r.map_or(2, |w| w as usize)].fetch_add(1, Relaxed);
                Ok(())
            },
            |i| format!("{:?}", l[i as usize]),
        );
    }
    c.note(format!("of these histories {} are valid, {} are not, {} do not exist (nobody signs, or the fault has nothing to act on)", tally[1].load(Relaxed), tally[0].load(Relaxed), tally[2].load(Relaxed)));
}
