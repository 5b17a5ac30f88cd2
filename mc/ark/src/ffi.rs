//! C16-C19: the C interface.
use crate::bls::{lambda, norm2, unnorm1, unnorm2};
use crate::epoch;
use crate::o::*;
use crate::track;
use ark_bls12_377::{g1, Fr, G1Projective, G2Affine, G2Projective};
use ark_ec::{AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger256, One, PrimeField, ToBytes, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::bls::Batch;
use bls_crypto::hash_to_curve::{try_and_increment::*, try_and_increment_cip22::*, HashToCurve};
use bls_crypto::hashers::{DirectHasher, Hasher, COMPOSITE_HASHER};
use bls_crypto::{BLSError, PrivateKey, PublicKey, Signature, POP_DOMAIN, SIG_DOMAIN};
use bls_snark_sys::{serialization as fs, signatures as fg, snark as fk, utils as fu};
use epoch_snark::EpochBlock;
use mc_common::{ensure, hex, seq, shex, viol, CaseResult, Check};
use std::collections::HashMap;
use std::convert::TryFrom;
use std::os::raw::c_int;
use std::ptr::{null, null_mut};

/// A byte array as a C caller passes it: null for an empty one every other time.
fn cp(b: &[u8], nul: bool) -> *const u8 {
    if b.is_empty() && nul {
        null()
    } else {
        b.as_ptr()
    }
}
/// Receives a byte buffer and frees it.
pub fn out_vec(f: impl FnOnce(*mut *mut u8, *mut c_int) -> bool) -> Result<Option<Vec<u8>>, mc_common::Viol> {
    let (mut p, mut n): (*mut u8, c_int) = (null_mut(), -7);
    if !f(&mut p, &mut n) {
        ensure!(p.is_null() && n == -7, "out-on-failure", "outputs written by a failing call");
        return Ok(None);
    }
    ensure!(!p.is_null() && n >= 0, "out", "no buffer from a successful call");
    let v = unsafe { std::slice::from_raw_parts(p, n as usize) }.to_vec();
    ensure!(unsafe { fs::free_vec(p, n) }, "free", "free_vec fails");
    Ok(Some(v))
}
/// Receives an object, takes it by value and destroys it.
pub fn out_obj<T: Clone>(f: impl FnOnce(*mut *mut T) -> bool, d: unsafe extern "C" fn(*mut T) -> bool) -> Result<Option<T>, mc_common::Viol> {
    let mut p: *mut T = null_mut();
    if !f(&mut p) {
        ensure!(p.is_null(), "out-on-failure", "an object is handed out by a failing call");
        return Ok(None);
    }
    ensure!(!p.is_null(), "out", "no object from a successful call");
    let v = unsafe { (*p).clone() };
    ensure!(unsafe { d(p) }, "destroy", "destroy fails");
    Ok(Some(v))
}
type V<T> = Result<T, mc_common::Viol>;
fn sk_bits(k: &PrivateKey) -> Fr {
    *k.as_ref()
}
/// Private keys cannot be copied: read the scalar.
pub fn out_sk(f: impl FnOnce(*mut *mut PrivateKey) -> bool) -> V<Option<Fr>> {
    let mut p: *mut PrivateKey = null_mut();
    if !f(&mut p) {
        ensure!(p.is_null(), "out-on-failure", "a key is handed out by a failing call");
        return Ok(None);
    }
    let v = unsafe { sk_bits(&*p) };
    ensure!(unsafe { fs::destroy_private_key(p) }, "destroy", "destroy_private_key fails");
    Ok(Some(v))
}
fn wr<T: ToBytes>(t: &T) -> Vec<u8> {
    let mut v = vec![];
    t.write(&mut v).unwrap();
    v
}
const MODES: [(bool, bool); 4] = [(false, false), (true, false), (true, true), (false, true)];

fn lib_hash(mode: usize, domain: &[u8], m: &[u8], e: &[u8]) -> Result<G1Projective, BLSError> {
    match mode {
        0 => DIRECT_HASH_TO_G1.hash(domain, m, e),
        1 => COMPOSITE_HASH_TO_G1.hash(domain, m, e),
        2 => COMPOSITE_HASH_TO_G1_CIP22.hash(domain, m, e),
        _ => unreachable!(),
    }
}
fn big() -> Fr {
    Fr::from_repr(BigInteger256::new([0x1234567890abcdef, 0xfedcba0987654321, 0x55aa55aa55aa55aa, 0x0123456789abcdef])).unwrap()
}

// ------------------------------------------------------------------------------------- C16
pub fn c16(c: &Check) {
    bls_snark_sys::init();
    let keys: Vec<Fr> = c.pick(vec![Fr::one(), -Fr::one(), big()], vec![Fr::one(), Fr::from(2u64), -Fr::one(), big(), lambda()]);
    let long = (pat(1025, 1), pat(300, 2));
    let msgs: Vec<&[u8]> = vec![b"", b"a", b"b", b"ab", &long.0];
    let extras: Vec<&[u8]> = vec![b"", b"a", b"b", &long.1];
    // 0..3 modes, 4 = proof of possession
    type Call = (usize, usize, usize);
    let mut calls: Vec<Call> = vec![];
    for m in 0..msgs.len() {
        for e in 0..extras.len() {
            for mode in 0..4 {
                calls.push((mode, m, e));
            }
        }
        calls.push((4, m, 0));
    }
    let hashes: HashMap<Call, Option<G1Projective>> = calls
        .iter()
        .map(|&(mode, m, e)| {
            let h = match mode {
                0 => ref_tai::<g1::Parameters>(Inner::Direct, false, true, b"ULforxof", msgs[m], extras[e]),
                1 => ref_tai::<g1::Parameters>(Inner::Composite, false, true, b"ULforxof", msgs[m], extras[e]),
                2 => ref_tai::<g1::Parameters>(Inner::Composite, true, true, b"ULforxof", msgs[m], extras[e]),
                3 => None,
                _ => ref_tai::<g1::Parameters>(Inner::Direct, false, true, b"ULforpop", msgs[m], b""),
            };
            ((mode, m, e), h.map(|x| x.0))
        })
        .collect();
    let sign = |k: &PrivateKey, (mode, m, e): Call, nul: bool, out: *mut *mut Signature| -> bool {
        let (m, e) = (msgs[m], extras[e]);
        if mode == 4 {
            fg::sign_pop(k, cp(m, nul), m.len() as c_int, out)
        } else {
            fg::sign_message(k, cp(m, nul), m.len() as c_int, cp(e, nul), e.len() as c_int, MODES[mode].0, MODES[mode].1, out)
        }
    };
    let verify = |k: &PublicKey, (mode, m, e): Call, s: &Signature, nul: bool, out: &mut bool| -> bool {
        let (m, e) = (msgs[m], extras[e]);
        if mode == 4 {
            fg::verify_pop(k, cp(m, nul), m.len() as c_int, s, out)
        } else {
            fg::verify_signature(k, cp(m, nul), m.len() as c_int, cp(e, nul), e.len() as c_int, s, MODES[mode].0, MODES[mode].1, out)
        }
    };
    let nc = calls.len();
    c.par(
        "signing and key derivation: keys x modes x messages x extra data",
        (nc * keys.len()) as u64,
        4,
        |i| {
            let (k, call) = (keys[i as usize / nc], calls[i as usize % nc]);
            let sk = PrivateKey::from(k);
            let pk = out_obj(|o| fg::private_key_to_public_key(&sk, o), fs::destroy_public_key)?;
            ensure!(pk.map(|p| *p.as_ref()) == Some(G2Projective::prime_subgroup_generator().mul(k.into_repr())), "to-public", "public key");
            for nul in [false, true] {
                let s = out_obj(|o| sign(&sk, call, nul, o), fs::destroy_signature)?;
                let w = hashes[&call].map(|h| h.mul(k.into_repr()));
                ensure!(s.map(|s| *s.as_ref()) == w, "sign", "signature differs from key times hash for mode, message, extra {:?}", call);
            }
            Ok(())
        },
        |i| format!("key {} call {:?}", i as usize / nc, calls[i as usize % nc]),
    );
    // verification of everything against everything
    let mut sigs: Vec<(String, G1Projective)> = vec![];
    for (ki, k) in keys.iter().enumerate() {
        for call in &calls {
            if (call.1 == 4 || call.2 == 3) && ki != 2 {
                continue;
            }
            if let Some(h) = hashes[call] {
                sigs.push((format!("key {} on {:?}", ki, call), h.mul(k.into_repr())));
            }
        }
    }
    let g = G1Projective::prime_subgroup_generator();
    let (s0, s1) = (sigs[1].1, sigs[sigs.len() / 2].1);
    for (l, s) in [
        ("identity", G1Projective::zero()),
        ("generator", g),
        ("negated", -s0),
        ("plus generator", s0 + g),
        ("sum", s0 + s1),
        ("same y", s0.mul(lambda().into_repr())),
        ("other representation", unnorm1(s0, 5)),
    ] {
        sigs.push((l.into(), s));
    }
    let pks: Vec<PublicKey> = keys.iter().enumerate().map(|(i, k)| {
        let p = PrivateKey::from(*k).to_public();
        if i % 2 == 0 { p } else { PublicKey::from(unnorm2(*p.as_ref(), 3)) }
    }).collect();
    let stride = nc * keys.len();
    c.par(
        "every signature against every key, mode, message and extra data",
        (sigs.len() * stride) as u64,
        1,
        |i| {
            let (s, v) = (&sigs[i as usize / stride], i as usize % stride);
            let (k, call) = (v / nc, calls[v % nc]);
            let sig = Signature::from(s.1);
            // the long texts cost a long hash each time
            if (call.1 == 4 || call.2 == 3) && i % 97 != 0 && hashes[&call].map_or(true, |h| s.1 != h.mul(keys[k].into_repr())) {
                return Ok(());
            }
            let mut ok = false;
            let r = verify(&pks[k], call, &sig, i % 2 == 0, &mut ok);
            match hashes[&call] {
                None => {
                    ensure!(!r && !ok, "unsupported", "unsupported mode: returns {} and verdict {}", r, ok);
                    let mut ok = true;
                    let r = verify(&pks[k], call, &sig, false, &mut ok);
                    ensure!(!r, "unsupported", "unsupported mode accepted");
                }
                Some(h) => {
                    let want = s.1 == h.mul(keys[k].into_repr());
                    ensure!(r, "verify-call", "{} for key {} and {:?}: the call fails", s.0, k, call);
                    ensure!(ok == want, "verify", "{} for key {} and {:?}: verdict {}", s.0, k, call, ok);
                    let mut ok2 = !want;
                    let r = verify(&pks[k], call, &sig, false, &mut ok2);
                    ensure!(r && ok2 == want, "verify-write", "{} for key {} and {:?}: verdict not written", s.0, k, call);
                }
            }
            Ok(())
        },
        |i| format!("{} against key {} and {:?}", sigs[i as usize / stride].0, i as usize % stride / nc, calls[i as usize % stride % nc]),
    );
    // hashing functions
    let maxl = c.pick(140u64, 600);
    let beyond = [255usize, 256, 257, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16384, 19400];
    let nlens = maxl + beyond.len() as u64;
    let mlen = |i: u64| if i / 8 < maxl { (i / 8) as usize } else { beyond[(i / 8 - maxl) as usize] };
    let exl = [0usize, 1, 7, 33];
    c.par(
        "hash functions: every message length x extra data",
        nlens * 4 * 2,
        7,
        |i| {
            let (l, el, pop) = (mlen(i), exl[(i % 4) as usize], i / 4 % 2 == 1);
            let (m, e) = (pat(l, i), pat(el, i + 99));
            let d = if pop { POP_DOMAIN } else { SIG_DOMAIN };
            let nul = i % 3 == 0;
            let (rh, ra) = ref_tai::<g1::Parameters>(Inner::Direct, false, true, d, &m, b"").unwrap();
            let lib = DIRECT_HASH_TO_G1.hash(d, &m, b"").ok().map(|h| wr(&h.into_affine()));
            let got = out_vec(|o, n| fg::hash_direct(cp(&m, nul), l as c_int, o, n, pop))?;
            ensure!(got == lib && got == Some(wr(&rh.into_affine())), "hash-direct", "hash_direct of {} bytes", l);
            let mut att: c_int = -1;
            let got = out_vec(|o, n| fg::hash_direct_with_attempt(cp(&m, nul), l as c_int, o, n, &mut att, pop))?;
            ensure!(got == lib && att as usize == ra, "hash-attempt", "hash_direct_with_attempt of {} bytes: attempt {} want {}", l, att, ra);
            let same = |got: Option<Vec<u8>>, lib: G1Projective, r: G1Projective, what: &'static str| -> CaseResult {
                ensure!(got.as_ref() == Some(&wr(&lib)), what, "{} of {} bytes and {} extra differs from the library", what, l, el);
                ensure!(lib == r, what, "{} of {} bytes and {} extra: library differs from the reference", what, l, el);
                Ok(())
            };
            let got = out_vec(|o, n| fg::hash_composite(cp(&m, nul), l as c_int, cp(&e, nul), el as c_int, o, n))?;
            let r = ref_tai::<g1::Parameters>(Inner::Composite, false, true, SIG_DOMAIN, &m, &e).unwrap();
            same(got, lib_hash(1, SIG_DOMAIN, &m, &e).unwrap(), r.0, "hash-composite")?;
            let mut a8 = 255u8;
            let got = out_vec(|o, n| fg::hash_composite_cip22(cp(&m, nul), l as c_int, cp(&e, nul), el as c_int, o, n, &mut a8))?;
            let r = ref_tai::<g1::Parameters>(Inner::Composite, true, true, SIG_DOMAIN, &m, &e).unwrap();
            same(got, lib_hash(2, SIG_DOMAIN, &m, &e).unwrap(), r.0, "hash-cip22")?;
            ensure!(a8 as usize == r.1, "hash-cip22-attempt", "attempt {} want {}", a8, r.1);
            Ok(())
        },
        |i| format!("{} bytes, {} extra, pop {}", mlen(i), exl[(i % 4) as usize], i / 4 % 2 == 1),
    );
    let lens: Vec<c_int> = vec![0, 1, 2, 31, 32, 33, 48, 63, 64, 65, 95, 96, 97, 128, 255, 256, 257, 65535, 65536, 65537, 65600, 131072, c_int::MAX, -1, -32, c_int::MIN];
    let nl = lens.len() as u64;
    let mls = c.pick(40u64, 200);
    c.par(
        "inner hash steps: output lengths in and out of range x message lengths",
        nl * mls,
        2,
        |i| {
            let (n, l) = (lens[(i % nl) as usize], (i / nl) as usize);
            let m = pat(l, i + 7);
            let nul = i % 2 == 0;
            let got = out_vec(|o, k| fg::hash_direct_first_step(cp(&m, nul), l as c_int, n, o, k))?;
            let lib = DirectHasher.hash(SIG_DOMAIN, &m, n as usize).ok();
            ensure!(got == lib, "direct-step", "hash_direct_first_step of {} bytes to {}: {:?}, library {:?}", l, n, got.as_ref().map(|x| shex(x)), lib.map(|x| shex(&x)));
            if n >= 0 && n < 65536 {
                ensure!(got == Some(mc_common::b2s::hash(SIG_DOMAIN, &m, n as u16)), "direct-step", "hash_direct_first_step of {} bytes to {} differs from the reference", l, n);
            } else {
                ensure!(got.is_none(), "direct-step", "hash_direct_first_step to {} bytes succeeds", n);
            }
            let got = out_vec(|o, k| fg::hash_crh(cp(&m, nul), l as c_int, n, o, k))?;
            let lib = COMPOSITE_HASHER.crh(SIG_DOMAIN, &m, n as usize).ok();
            ensure!(got == lib, "crh-step", "hash_crh of {} bytes to {} differs from the library", l, n);
            ensure!(n < 0 || got == Some(composite_crh(&m)), "crh-step", "hash_crh of {} bytes to {} differs from the reference", l, n);
            Ok(())
        },
        |i| format!("output {} message {}", lens[(i % nl) as usize], i / nl),
    );
    // key generation: a function of the generator's output, all of it
    c.par(
        "key generation from a chosen random stream",
        c.pick(300, 5000),
        2,
        |i| {
            let drawn = std::rc::Rc::new(std::cell::Cell::new(0));
            let mk = |i: u64| -> rand::Script {
                let mut k = i * 1000;
                let drawn = drawn.clone();
                Box::new(move |b: &mut [u8]| {
                    k += 1;
                    drawn.set(drawn.get() + b.len());
                    b.copy_from_slice(&pat(b.len(), k))
                })
            };
            let a = rand::with_script(mk(i), || out_sk(|o| unsafe { fg::generate_private_key(o) }))?;
            if drawn.get() == 0 {
                // another source than thread_rng or OsRng: C31 looks at the keys it gives
                return Ok(());
            }
            let b = rand::with_script(mk(i), || sk_bits(&PrivateKey::generate(&mut rand::thread_rng())));
            let d = rand::with_script(mk(i + 1), || out_sk(|o| unsafe { fg::generate_private_key(o) }))?;
            ensure!(a == Some(b), "generate", "generated key differs from the library's for the same random stream");
            ensure!(a != d, "generate", "the same key from two random streams");
            Ok(())
        },
        |i| format!("stream {}", i),
    );
    c.case("unscripted generation", || {
        let ks: Vec<Option<Fr>> = (0..64).map(|_| out_sk(|o| unsafe { fg::generate_private_key(o) })).collect::<V<_>>()?;
        for i in 0..64 {
            for j in 0..i {
                ensure!(ks[i] != ks[j], "generate", "repeated key");
            }
        }
        Ok(())
    });
    // aggregation
    let vals: [i64; 5] = [1, 2, -1, 0, 1];
    let sig: Vec<Signature> = (0..5).map(|k| Signature::from(if k == 4 { unnorm1(g1(1), 9) } else { g1(vals[k]) })).collect();
    let pkv: Vec<PublicKey> = (0..5).map(|k| PublicKey::from(if k == 4 { unnorm2(g2(1), 9) } else { norm2(g2(vals[k])) })).collect();
    let t1: HashMap<i64, G1Projective> = (-12..=12).map(|k| (k, g1(k))).collect();
    let t2: HashMap<i64, G2Projective> = (-12..=12).map(|k| (k, g2(k))).collect();
    for n in 0..=c.pick(4usize, 5) {
        c.par(
            "every list aggregated and subtracted",
            4u64.pow(n as u32),
            6,
            |i| {
                let s = seq(i, 4, n);
                let w: i64 = s.iter().map(|k| vals[*k]).sum();
                for one in [0usize, 4] {
                    let m = |k: &usize| if *k == 0 { one } else { *k };
                    let p: Vec<*const Signature> = s.iter().map(|k| &sig[m(k)] as *const _).collect();
                    let pp = if n == 0 && one == 4 { null() } else { p.as_ptr() };
                    let a = out_obj(|o| fg::aggregate_signatures(pp, n as c_int, o), fs::destroy_signature)?;
                    ensure!(a.as_ref().map(|x| *x.as_ref()) == Some(t1[&w]), "aggregate-sig", "signatures {:?}", s);
                    let lib = Signature::aggregate(s.iter().map(|k| &sig[m(k)]));
                    ensure!(a.map(|x| *x.as_ref()) == Some(*lib.as_ref()), "aggregate-sig", "signatures {:?} differ from the library", s);
                    // keys: as a set of distinct keys
                    let mut d = s.clone();
                    d.sort();
                    d.dedup();
                    let wd: i64 = d.iter().map(|k| vals[*k]).sum();
                    let p: Vec<*const PublicKey> = s.iter().map(|k| &pkv[m(k)] as *const _).collect();
                    let pp = if n == 0 && one == 4 { null() } else { p.as_ptr() };
                    let a = out_obj(|o| fg::aggregate_public_keys(pp, n as c_int, o), fs::destroy_public_key)?;
                    ensure!(a.map(|x| *x.as_ref()) == Some(t2[&wd]), "aggregate-key", "keys {:?}", s);
                    for base in [0i64, 5, -1] {
                        let b = PublicKey::from(t2[&base]);
                        let a = out_obj(|o| fg::aggregate_public_keys_subtract(&b, pp, n as c_int, o), fs::destroy_public_key)?;
                        ensure!(a.map(|x| *x.as_ref()) == Some(t2[&(base - wd)]), "subtract-key", "keys {:?} subtracted from {}", s, base);
                    }
                }
                Ok(())
            },
            |i| format!("{:?}", seq(i, 4, n)),
        );
    }
    // long lists, with a key repeated at chosen places
    let sizes = [9usize, 16, 17, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1000, 1025];
    let (all1, all2) = multiples(*sizes.last().unwrap());
    let (sig, pkv): (Vec<Signature>, Vec<PublicKey>) = (all1.iter().map(|p| Signature::from(*p)).collect(), all2.iter().map(|p| PublicKey::from(*p)).collect());
    c.par(
        "long lists aggregated and subtracted",
        (sizes.len() * 5) as u64,
        6,
        |i| {
            let n = sizes[i as usize / 5];
            // the entries: 1 to n, one of them replaced by another
            let mut s: Vec<usize> = (0..n).collect();
            match i % 5 {
                0 => (),
                1 => s[n - 1] = 0,
                2 => s[n - 1] = n - 2,
                3 => s[0] = n - 1,
                _ => s.reverse(),
            }
            let w: i64 = s.iter().map(|k| *k as i64 + 1).sum();
            let p: Vec<*const Signature> = s.iter().map(|k| &sig[*k] as *const _).collect();
            let a = out_obj(|o| fg::aggregate_signatures(p.as_ptr(), n as c_int, o), fs::destroy_signature)?;
            ensure!(a.map(|x| *x.as_ref()) == Some(g1(w)), "aggregate-sig", "{} signatures", n);
            let mut d = s.clone();
            d.sort();
            d.dedup();
            let wd: i64 = d.iter().map(|k| *k as i64 + 1).sum();
            let p: Vec<*const PublicKey> = s.iter().map(|k| &pkv[*k] as *const _).collect();
            let a = out_obj(|o| fg::aggregate_public_keys(p.as_ptr(), n as c_int, o), fs::destroy_public_key)?;
            ensure!(a.map(|x| *x.as_ref()) == Some(g2(wd)), "aggregate-key", "{} keys", n);
            let b = PublicKey::from(g2(7));
            let a = out_obj(|o| fg::aggregate_public_keys_subtract(&b, p.as_ptr(), n as c_int, o), fs::destroy_public_key)?;
            ensure!(a.map(|x| *x.as_ref()) == Some(g2(7 - wd)), "subtract-key", "{} keys subtracted", n);
            Ok(())
        },
        |i| format!("{} entries, kind {}", sizes[i as usize / 5], i % 5),
    );
}
/// The first n multiples of the generators, in affine form.
fn multiples(n: usize) -> (Vec<G1Projective>, Vec<G2Projective>) {
    fn go<G: ProjectiveCurve>(n: usize) -> Vec<G> {
        let g = G::prime_subgroup_generator();
        let mut v = vec![g];
        while v.len() < n {
            let q = *v.last().unwrap() + g;
            v.push(q);
        }
        G::batch_normalization(&mut v);
        v
    }
    (go(n), go(n))
}

// ------------------------------------------------------------------------------------- C17
pub fn c17(c: &Check) {
    bls_snark_sys::init();
    let ks: [Fr; 3] = [Fr::one(), Fr::from(3u64), big()];
    let pk: Vec<PublicKey> = ks.iter().map(|k| PrivateKey::from(*k).to_public()).collect();
    let texts: [(&[u8], &[u8]); 3] = [(b"m", b""), (b"", b"x"), (b"n", b"x")];
    let g = G1Projective::prime_subgroup_generator();
    let h: Vec<Vec<G1Projective>> = (0..3)
        .map(|mode| texts.iter().map(|(m, e)| {
            let (i, c) = [(Inner::Direct, false), (Inner::Composite, false), (Inner::Composite, true)][mode];
            ref_tai::<g1::Parameters>(i, c, true, b"ULforxof", m, e).unwrap().0
        }).collect())
        .collect();
    // screening batch: entry = message x key x error
    let errs: [i64; 3] = [0, 1, -1];
    let (nm, nk) = (c.pick(2usize, 3), 2usize);
    let alpha = (nm * nk * 3) as u64;
    for n in 0..=c.pick(3usize, 3) {
        c.par(
            "screening batches: every list of (message, key, error)",
            alpha.pow(n as u32),
            4,
            |i| {
                let s = seq(i, alpha, n);
                let ent: Vec<(usize, usize, i64)> = s.iter().map(|x| (x % nm, x / nm % nk, errs[x / nm / nk])).collect();
                let modes: &[usize] = if n < 3 { &[0, 1, 2, 3] } else { match i % 4 { 0 => &[0, 3], 1 => &[1], _ => &[2] } };
                for &mode in modes {
                    let hm = if mode == 3 { 0 } else { mode };
                    let sigs: Vec<Signature> = ent.iter().map(|(m, k, e)| Signature::from(h[hm][*m].mul(ks[*k].into_repr()) + g.mul(fr(*e).into_repr()))).collect();
                    let ms: Vec<fu::MessageFFI> = ent
                        .iter()
                        .zip(&sigs)
                        .map(|((m, k, _), s)| fu::MessageFFI {
                            data: fu::Buffer { ptr: cp(texts[*m].0, i % 2 == 0), len: texts[*m].0.len() },
                            extra: fu::Buffer { ptr: cp(texts[*m].1, i % 2 == 0), len: texts[*m].1.len() },
                            public_key: &pk[*k],
                            sig: s,
                        })
                        .collect();
                    let want = ent.iter().map(|e| e.2).sum::<i64>() == 0;
                    for init in [false, true] {
                        let mut ok = init;
                        let p = if n == 0 && init { null() } else { ms.as_ptr() };
                        let r = fg::batch_verify_signature(p, n, MODES[mode].0, MODES[mode].1, &mut ok);
                        if mode == 3 {
                            ensure!(!r && (!ok || init), "screen-mode", "unsupported mode accepted for {:?}", ent);
                        } else {
                            ensure!(r, "screen-call", "the call fails for {:?}", ent);
                            ensure!(ok == want, "screen", "(message, key, error) {:?} mode {}: verdict {}", ent, mode, ok);
                        }
                    }
                    if mode != 3 {
                        // and the library, on the same aggregate
                        let asig = Signature::aggregate(&sigs);
                        let k: Vec<&PublicKey> = ent.iter().map(|e| &pk[e.1]).collect();
                        let m: Vec<(&[u8], &[u8])> = ent.iter().map(|e| texts[e.0]).collect();
                        let lib = match mode {
                            0 => asig.batch_verify(&k, SIG_DOMAIN, &m, &*DIRECT_HASH_TO_G1).is_ok(),
                            1 => asig.batch_verify(&k, SIG_DOMAIN, &m, &*COMPOSITE_HASH_TO_G1).is_ok(),
                            _ => asig.batch_verify(&k, SIG_DOMAIN, &m, &*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
                        };
                        ensure!(lib == want, "screen-lib", "(message, key, error) {:?}: library verdict {}", ent, lib);
                    }
                }
                Ok(())
            },
            |i| format!("{:?}", seq(i, alpha, n)),
        );
    }
    // strict batches. A batch is a list of keys and a list of (key, message, error) of its signatures.
    type B = (&'static str, usize, Vec<usize>, Vec<(usize, usize, i64)>);
    let kinds: Vec<B> = vec![
        ("valid, two keys", 0, vec![0, 1], vec![(0, 0, 0), (1, 0, 0)]),
        ("one wrong", 0, vec![0, 1], vec![(0, 0, 0), (1, 0, 1)]),
        ("valid, other message", 1, vec![2], vec![(2, 1, 0)]),
        ("signature of another message", 0, vec![2], vec![(2, 1, 0)]),
        ("errors that cancel", 1, vec![0, 1], vec![(0, 1, 1), (1, 1, -1)]),
        ("signatures exchanged", 0, vec![0, 1], vec![(1, 0, 0), (0, 0, 0)]),
        ("empty", 0, vec![], vec![]),
        ("one signature too many", 0, vec![0], vec![(0, 0, 0), (1, 0, 0)]),
        ("one signature missing", 0, vec![0, 1], vec![(0, 0, 0)]),
        ("no signatures", 1, vec![0], vec![]),
        ("no keys", 1, vec![], vec![(0, 1, 0)]),
        ("valid, repeated key", 2, vec![1, 1, 0], vec![(1, 2, 0), (1, 2, 0), (0, 2, 0)]),
        ("other extra data", 2, vec![1], vec![(1, 0, 0)]),
    ];
    let good = |b: &B| -> bool { b.2.len() == b.3.len() && b.2.iter().zip(&b.3).all(|(k, (sk, m, e))| k == sk && *m == b.1 && *e == 0) };
    let nb = kinds.len() as u64;
    for n in 0..=c.pick(2usize, 3) {
        let per_mode = n < 3;
        c.par(
            "strict batches: every list of kinds of batch x mode",
            nb.pow(n as u32) * if per_mode { 4 } else { 1 },
            2,
            |i| {
                let (mode, i) = if per_mode { ((i % 4) as usize, i / 4) } else { (0, i) };
                let hm = if mode == 3 { 0 } else { mode };
                let bs: Vec<&B> = seq(i, nb, n).into_iter().map(|k| &kinds[k]).collect();
                let sigs: Vec<Vec<Signature>> = bs.iter().map(|b| b.3.iter().map(|(k, m, e)| Signature::from(h[hm][*m].mul(ks[*k].into_repr()) + g.mul(fr(*e).into_repr()))).collect()).collect();
                let sp: Vec<Vec<*const Signature>> = sigs.iter().map(|l| l.iter().map(|x| x as *const _).collect()).collect();
                let kp: Vec<Vec<*const PublicKey>> = bs.iter().map(|b| b.2.iter().map(|k| &pk[*k] as *const _).collect()).collect();
                for init in [false, true] {
                    let ms: Vec<fu::BatchMessageFFI> = (0..n)
                        .map(|j| fu::BatchMessageFFI {
                            data: fu::Buffer { ptr: cp(texts[bs[j].1].0, init), len: texts[bs[j].1].0.len() },
                            extra: fu::Buffer { ptr: cp(texts[bs[j].1].1, init), len: texts[bs[j].1].1.len() },
                            public_keys: if kp[j].is_empty() && init { null() } else { kp[j].as_ptr() },
                            public_keys_len: kp[j].len(),
                            signatures: if sp[j].is_empty() && init { null() } else { sp[j].as_ptr() },
                            signatures_len: sp[j].len(),
                        })
                        .collect();
                    let mut res = vec![init; n + 2];
                    let r = fg::batch_verify_strict(
                        if n == 0 && init { null() } else { ms.as_ptr() },
                        n,
                        MODES[mode].0,
                        MODES[mode].1,
                        if n == 0 && init { null_mut() } else { res.as_mut_ptr() },
                    );
                    let want: Vec<bool> = bs.iter().map(|b| mode != 3 && good(b)).collect();
                    let names: Vec<&str> = bs.iter().map(|b| b.0).collect();
                    ensure!(res[..n] == want[..], "strict", "{:?} mode {}: verdicts {:?} want {:?}", names, mode, &res[..n], want);
                    ensure!(res[n] == init && res[n + 1] == init, "strict-bound", "{:?}: written past the end", names);
                    ensure!(r == want.iter().all(|x| *x), "strict-all", "{:?} mode {}: returns {}", names, mode, r);
                }
                if mode != 3 {
                    for (j, b) in bs.iter().enumerate() {
                        if b.2.len() == b.3.len() {
                            let mut l = Batch::new(texts[b.1].0, texts[b.1].1);
                            for (k, s) in b.2.iter().zip(&sigs[j]) {
                                l.add(pk[*k].clone(), s.clone());
                            }
                            let lib = match mode {
                                0 => l.verify(&*DIRECT_HASH_TO_G1).is_ok(),
                                1 => l.verify(&*COMPOSITE_HASH_TO_G1).is_ok(),
                                _ => l.verify(&*COMPOSITE_HASH_TO_G1_CIP22).is_ok(),
                            };
                            ensure!(lib == good(b), "strict-lib", "{}: library verdict {}", b.0, lib);
                        }
                    }
                }
                Ok(())
            },
            |i| format!("{:?}", seq(if per_mode { i / 4 } else { i }, nb, n).into_iter().map(|k| kinds[k].0).collect::<Vec<_>>()),
        );
    }
    // long lists: valid, and with one bad entry
    let mut l: Vec<(usize, usize, usize)> = vec![];
    for n in [5usize, 8, 9, 16, 17, 33, 65, 100, 129, 257] {
        for mode in 0..3 {
            l.extend([(n, mode, n), (n, mode, 0), (n, mode, 1), (n, mode, n / 2), (n, mode, n - 2), (n, mode, n - 1)]);
        }
        if n <= 17 {
            l.extend((2..n - 2).map(|j| (n, 0, j)));
        }
    }
    c.par(
        "long batches and long lists of batches, one bad entry",
        l.len() as u64,
        8,
        |i| {
            let (n, mode, bad) = l[i as usize];
            let keys: Vec<usize> = (0..n).map(|j| j % 3).collect();
            let text = |j: usize| (j / 2) % 3;
            let err = |j: usize| if j == bad { g } else { G1Projective::zero() };
            // one signature per message, screened together
            let base: Vec<Vec<G1Projective>> = (0..3).map(|m| ks.iter().map(|k| h[mode][m].mul(k.into_repr())).collect()).collect();
            let sigs: Vec<Signature> = (0..n).map(|j| Signature::from(base[text(j)][keys[j]] + err(j))).collect();
            let buf = |b: &'static [u8]| fu::Buffer { ptr: b.as_ptr(), len: b.len() };
            let ms: Vec<fu::MessageFFI> = (0..n).map(|j| fu::MessageFFI { data: buf(texts[text(j)].0), extra: buf(texts[text(j)].1), public_key: &pk[keys[j]], sig: &sigs[j] }).collect();
            let mut ok = bad != n;
            let r = fg::batch_verify_signature(ms.as_ptr(), n, MODES[mode].0, MODES[mode].1, &mut ok);
            ensure!(r && ok == (bad == n), "screen", "{} entries mode {} bad entry {}: verdict {} {}", n, mode, bad, r, ok);
            // one batch of n signatures on a message
            let same: Vec<Signature> = (0..n).map(|j| Signature::from(base[0][keys[j]] + err(j))).collect();
            let sp: Vec<*const Signature> = same.iter().map(|x| x as *const _).collect();
            let kp: Vec<*const PublicKey> = keys.iter().map(|k| &pk[*k] as *const _).collect();
            let one = |from: usize, len: usize| fu::BatchMessageFFI {
                data: buf(texts[0].0),
                extra: buf(texts[0].1),
                public_keys: kp[from..].as_ptr(),
                public_keys_len: len,
                signatures: sp[from..].as_ptr(),
                signatures_len: len,
            };
            let mut ok = bad != n;
            let r = fg::batch_verify_strict(&one(0, n), 1, MODES[mode].0, MODES[mode].1, &mut ok);
            ensure!(ok == (bad == n) && r == ok, "strict", "batch of {} mode {} bad entry {}: verdict {} {}", n, mode, bad, r, ok);
            // n batches of one signature
            let bs: Vec<fu::BatchMessageFFI> = (0..n).map(|j| one(j, 1)).collect();
            let mut res = vec![bad % 2 == 0; n + 1];
            let r = fg::batch_verify_strict(bs.as_ptr(), n, MODES[mode].0, MODES[mode].1, res.as_mut_ptr());
            let want: Vec<bool> = (0..n).map(|j| j != bad).collect();
            ensure!(res[..n] == want[..] && r == (bad == n) && res[n] == (bad % 2 == 0), "strict", "{} batches mode {} bad batch {}: returns {} {:?}", n, mode, bad, r, res);
            Ok(())
        },
        |i| format!("(entries, mode, bad entry) = {:?}", l[i as usize]),
    );
    // the weights must come from the random source: same batch, chosen streams
    c.par(
        "a batch with errors that cancel under chosen random weights",
        c.pick(256, 4096),
        2,
        |i| {
            let mk = |same: bool| -> rand::Script {
                let mut k = 0u64;
                Box::new(move |b: &mut [u8]| {
                    k += 1;
                    b.copy_from_slice(&pat(b.len(), if same { i } else { i * 77 + k }))
                })
            };
            let (m, e) = texts[0];
            let s: Vec<Signature> = [1i64, -1].iter().enumerate().map(|(k, d)| Signature::from(h[0][0].mul(ks[k].into_repr()) + g.mul(fr(*d).into_repr()))).collect();
            let (sp, kp): (Vec<*const Signature>, Vec<*const PublicKey>) = (s.iter().map(|x| x as *const _).collect(), pk[..2].iter().map(|x| x as *const _).collect());
            let b = fu::BatchMessageFFI {
                data: fu::Buffer { ptr: m.as_ptr(), len: m.len() },
                extra: fu::Buffer { ptr: e.as_ptr(), len: e.len() },
                public_keys: kp.as_ptr(),
                public_keys_len: 2,
                signatures: sp.as_ptr(),
                signatures_len: 2,
            };
            let mut ok = true;
            let r = rand::with_script(mk(false), || fg::batch_verify_strict(&b, 1, false, false, &mut ok));
            ensure!(!r && !ok, "strict-weights", "cancelling errors are accepted under random stream {}", i);
            Ok(())
        },
        |i| format!("stream {}", i),
    );
    // conversions between the C structures and Rust slices
    c.par(
        "buffers of every length",
        c.pick(300, 3000),
        2,
        |i| {
            let v = pat(i as usize, i);
            let b = fu::Buffer::from(&v[..]);
            ensure!(b.len == v.len() && <&[u8]>::from(&b) == &v[..], "buffer", "buffer of {} bytes", i);
            let e = pat(i as usize / 2, i + 1);
            let s = Signature::from(g1(2));
            let m = fu::Message { data: &v, extra: &e, public_key: &pk[0], sig: &s };
            let f = fu::MessageFFI::from(&m);
            ensure!(fu::Message::from(&f) == m && f.data.len == v.len() && f.extra.len == e.len(), "message", "message of {} bytes", i);
            Ok(())
        },
        |i| format!("{} bytes", i),
    );
}

// ------------------------------------------------------------------------------------- C18
type Ser<T> = extern "C" fn(*const T, *mut *mut u8, *mut c_int) -> bool;
type De<T> = extern "C" fn(*const u8, c_int, *mut *mut T) -> bool;
type Des<T> = unsafe extern "C" fn(*mut T) -> bool;
type Comp = extern "C" fn(*const u8, c_int, *mut *mut u8, *mut c_int) -> bool;
fn malformed(v: &[u8], size: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = (0..size).map(|l| v[..l].to_vec()).collect();
    for b in 0..8 * size {
        if b % 3 != 2 || b > 8 * size - 20 {
            let mut w = v.to_vec();
            w[b / 8] ^= 1 << (b % 8);
            all.push(w);
        }
    }
    all.push([v, &[1, 2]].concat());
    all.push(vec![0; size]);
    all.push(vec![0xff; size]);
    all.push(vec![0; size + 5]);
    all
}
fn kind<T: CanonicalSerialize + CanonicalDeserialize + Clone + PartialEq + std::fmt::Debug + Sync>(c: &Check, name: &'static str, vals: &[T], size: usize, ser_f: Ser<T>, de: Vec<(&'static str, De<T>)>, des: Des<T>, unc: Option<(Ser<T>, Comp)>) {
    c.par(
        "objects: encode, decode, compress",
        vals.len() as u64,
        6,
        |i| {
            let t = &vals[i as usize];
            let b = out_vec(|o, n| ser_f(t, o, n))?.ok_or_else(|| viol("ser", format!("{}: encoding fails", name)))?;
            ensure!(b == ser(t) && b.len() == size, "ser", "{}: encodes to {} want {}", name, hex(&b), hex(&ser(t)));
            for (dn, d) in &de {
                for _ in 0..2 {
                    let r = out_obj(|o| d(b.as_ptr(), b.len() as c_int, o), des)?;
                    ensure!(r.as_ref() == Some(t), "de", "{}: {} of its encoding gives {:?}", name, dn, r);
                }
            }
            if let Some((u, comp)) = &unc {
                let ub = out_vec(|o, n| u(t, o, n))?.ok_or_else(|| viol("ser-u", format!("{}: uncompressed encoding fails", name)))?;
                ensure!(ub == ser_u(t) && ub.len() == 2 * size, "ser-u", "{}: uncompressed encoding {}", name, hex(&ub));
                let cb = out_vec(|o, n| comp(ub.as_ptr(), ub.len() as c_int, o, n))?;
                let zero = b[size - 1] & 0x40 != 0;
                ensure!(cb.as_ref() == Some(&b), if zero { "compress-identity" } else { "compress" }, "{}: uncompressed {} compresses to {:?} want {}", name, hex(&ub), cb.map(|x| hex(&x)), hex(&b));
            }
            Ok(())
        },
        |i| format!("{} value {}", name, i),
    );
    // malformed input: exactly the library's verdict, and never a crash
    let mut bad: Vec<Vec<u8>> = vec![];
    for t in vals.iter().take(c.pick(2, 4)) {
        bad.extend(malformed(&ser(t), size));
    }
    c.par(
        "malformed encodings",
        bad.len() as u64,
        de.len() as u64,
        |i| {
            let b = &bad[i as usize];
            let lib = T::deserialize(&mut &b[..]).ok();
            ensure!(b.len() >= size || lib.is_none(), "de-trunc", "{}: library accepts {} bytes", name, b.len());
            for (dn, d) in &de {
                for nul in [false, true] {
                    let r = out_obj(|o| d(cp(b, nul), b.len() as c_int, o), des)?;
                    ensure!(r == lib, "de-malformed", "{}: {} of {} gives {:?}, library {:?}", name, dn, shex(b), r, lib);
                }
            }
            Ok(())
        },
        |i| format!("{} {}", name, shex(&bad[i as usize])),
    );
    if let Some((u, comp)) = &unc {
        let _ = u;
        let ub = ser_u(&vals[0]);
        let p: Vec<u8> = <ark_bls12_377::Fq as PrimeField>::modulus_limbs().iter().flat_map(|l| l.to_le_bytes()).collect();
        c.par(
            "compression of short and out-of-range input",
            2 * size as u64 + 1 + 4 * 8,
            1,
            |i| {
                let i = i as usize;
                if i <= 2 * size {
                    let b = &ub[..i];
                    let r = out_vec(|o, n| comp(cp(b, i % 2 == 0), i as c_int, o, n))?;
                    ensure!(r.is_some() == (i == 2 * size), "compress-short", "{}: compressing {} bytes gives {:?}", name, i, r.map(|x| hex(&x)));
                } else {
                    // each coordinate: the modulus, and too large
                    let j = i - 2 * size - 1;
                    let (co, what) = (j % 4 % (2 * size / 48), j / 4);
                    let mut b = ub.clone();
                    if what == 0 {
                        b[48 * co..48 * co + 48].copy_from_slice(&p);
                    } else {
                        b[48 * co + 47] |= 1 << what;
                    }
                    let r = out_vec(|o, n| comp(b.as_ptr(), b.len() as c_int, o, n))?;
                    ensure!(r.is_none(), "compress-range", "{}: coordinate {} out of range is compressed to {:?}", name, co, r.map(|x| hex(&x)));
                }
                Ok(())
            },
            |i| format!("{} case {}", name, i),
        );
    }
    c.case("null", || {
        ensure!(!unsafe { des(null_mut()) }, "destroy-null", "{}: destroying nothing succeeds", name);
        Ok(())
    });
    c.count("null pointers", 1, 1);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ty {
    Sk,
    Pk,
    Sig,
}
/// A live object or buffer of the history and what the model says it holds.
enum Live {
    Sk(*mut PrivateKey, i64),
    Pk(*mut PublicKey, i64),
    Sig(*mut Signature, i64),
    Buf(*mut u8, c_int, Vec<u8>, Ty, bool, i64),
}
const OPS: [&str; 14] = [
    "deserialize_private_key", "private_key_to_public_key(oldest key)", "sign_pop(oldest key)", "serialize(oldest)", "serialize(newest)",
    "serialize_uncompressed(newest)", "deserialize(newest buffer)", "deserialize_public_key_cached(newest buffer)", "compress(newest buffer)",
    "aggregate(all)", "destroy(oldest)", "destroy(newest)", "free_vec(oldest)", "free_vec(newest)",
];
struct Tab {
    g1: HashMap<i64, G1Projective>,
    g2: HashMap<i64, G2Projective>,
    h: G1Projective,
    ser: HashMap<(u8, bool, i64), Vec<u8>>,
    skb: Vec<Vec<u8>>,
}
fn history(t: &Tab, ops: &[usize]) -> V<(bool, u64)> {
    let skv = [1i64, 2];
    let mut next_sk = 0;
    let mut live: Vec<Live> = vec![];
    let mut done = 0;
    let enc = |ty: Ty, unc: bool, v: i64| -> &Vec<u8> { &t.ser[&(ty as u8, unc, v)] };
    let mut applicable = true;
    for &op in ops {
        let newest_buf = |live: &Vec<Live>| live.iter().rposition(|l| matches!(l, Live::Buf(..)));
        let objs: Vec<usize> = (0..live.len()).filter(|i| !matches!(live[*i], Live::Buf(..))).collect();
        let bufs: Vec<usize> = (0..live.len()).filter(|i| matches!(live[*i], Live::Buf(..))).collect();
        let sk = live.iter().find_map(|l| if let Live::Sk(p, v) = l { Some((*p, *v)) } else { None });
        macro_rules! na { () => {{ applicable = false; break }} }
        match op {
            0 => {
                let v = skv[next_sk % 2];
                next_sk += 1;
                let b = &t.skb[v as usize];
                let mut p = null_mut();
                ensure!(fs::deserialize_private_key(b.as_ptr(), 32, &mut p), "h-op", "deserialize_private_key");
                live.push(Live::Sk(p, v));
            }
            1 => {
                let Some((k, v)) = sk else { na!() };
                let mut p = null_mut();
                ensure!(fg::private_key_to_public_key(k, &mut p), "h-op", "private_key_to_public_key");
                live.push(Live::Pk(p, v));
            }
            2 => {
                let Some((k, v)) = sk else { na!() };
                let mut p = null_mut();
                ensure!(fg::sign_pop(k, b"h".as_ptr(), 1, &mut p), "h-op", "sign_pop");
                live.push(Live::Sig(p, v));
            }
            3 | 4 | 5 => {
                if objs.is_empty() || (op != 3 && objs.len() < 2 && op == 4) { na!() }
                let j = if op == 3 { objs[0] } else { *objs.last().unwrap() };
                let (mut p, mut n) = (null_mut(), 0);
                let (ok, ty, v) = match (&live[j], op == 5) {
                    (Live::Sk(_, _), true) => na!(),
                    (Live::Sk(o, v), _) => (fs::serialize_private_key(*o, &mut p, &mut n), Ty::Sk, *v),
                    (Live::Pk(o, v), false) => (fs::serialize_public_key(*o, &mut p, &mut n), Ty::Pk, *v),
                    (Live::Pk(o, v), true) => (fs::serialize_public_key_uncompressed(*o, &mut p, &mut n), Ty::Pk, *v),
                    (Live::Sig(o, v), false) => (fs::serialize_signature(*o, &mut p, &mut n), Ty::Sig, *v),
                    (Live::Sig(o, v), true) => (fs::serialize_signature_uncompressed(*o, &mut p, &mut n), Ty::Sig, *v),
                    _ => unreachable!(),
                };
                ensure!(ok, "h-op", "{}", OPS[op]);
                live.push(Live::Buf(p, n, enc(ty, op == 5, v).clone(), ty, op == 5, v));
            }
            6 | 7 => {
                let Some(j) = newest_buf(&live) else { na!() };
                let Live::Buf(p, n, _, ty, unc, v) = &live[j] else { unreachable!() };
                let (p, n, ty, unc, v) = (*p, *n, *ty, *unc, *v);
                if unc || (op == 7 && ty != Ty::Pk) { na!() }
                match ty {
                    Ty::Sk => {
                        let mut o = null_mut();
                        ensure!(fs::deserialize_private_key(p, n, &mut o), "h-op", "{}", OPS[op]);
                        live.push(Live::Sk(o, v));
                    }
                    Ty::Pk => {
                        let mut o = null_mut();
                        let ok = if op == 7 { fs::deserialize_public_key_cached(p, n, &mut o) } else { fs::deserialize_public_key(p, n, &mut o) };
                        ensure!(ok, "h-op", "{}", OPS[op]);
                        live.push(Live::Pk(o, v));
                    }
                    Ty::Sig => {
                        let mut o = null_mut();
                        ensure!(fs::deserialize_signature(p, n, &mut o), "h-op", "{}", OPS[op]);
                        live.push(Live::Sig(o, v));
                    }
                }
            }
            8 => {
                let Some(j) = newest_buf(&live) else { na!() };
                let Live::Buf(p, n, _, ty, unc, v) = &live[j] else { unreachable!() };
                if !*unc { na!() }
                let (mut o, mut k) = (null_mut(), 0);
                let ok = if *ty == Ty::Pk { fs::compress_pubkey(*p, *n, &mut o, &mut k) } else { fs::compress_signature(*p, *n, &mut o, &mut k) };
                ensure!(ok, "h-op", "{}", OPS[op]);
                let (ty, v) = (*ty, *v);
                live.push(Live::Buf(o, k, enc(ty, false, v).clone(), ty, false, v));
            }
            9 => {
                let ss: Vec<(*const Signature, i64)> = live.iter().filter_map(|l| if let Live::Sig(p, v) = l { Some((*p as *const _, *v)) } else { None }).collect();
                let mut ks: Vec<(*const PublicKey, i64)> = live.iter().filter_map(|l| if let Live::Pk(p, v) = l { Some((*p as *const _, *v)) } else { None }).collect();
                if ss.is_empty() && ks.is_empty() { na!() }
                if !ss.is_empty() {
                    let p: Vec<*const Signature> = ss.iter().map(|x| x.0).collect();
                    let mut o = null_mut();
                    ensure!(fg::aggregate_signatures(p.as_ptr(), p.len() as c_int, &mut o), "h-op", "{}", OPS[op]);
                    live.push(Live::Sig(o, ss.iter().map(|x| x.1).sum()));
                }
                if !ks.is_empty() {
                    // one of each value: the same value in two representations is out of scope here
                    ks.sort_by_key(|x| x.1);
                    ks.dedup_by_key(|x| x.1);
                    let p: Vec<*const PublicKey> = ks.iter().map(|x| x.0).collect();
                    let mut o = null_mut();
                    ensure!(fg::aggregate_public_keys(p.as_ptr(), p.len() as c_int, &mut o), "h-op", "{}", OPS[op]);
                    live.push(Live::Pk(o, ks.iter().map(|x| x.1).sum()));
                }
            }
            10 | 11 => {
                if objs.is_empty() || (op == 11 && objs.len() < 2) { na!() }
                let j = if op == 10 { objs[0] } else { *objs.last().unwrap() };
                let l = live.remove(j);
                end(&l)?;
            }
            12 | 13 => {
                if bufs.is_empty() || (op == 13 && bufs.len() < 2) { na!() }
                let j = if op == 12 { bufs[0] } else { *bufs.last().unwrap() };
                let l = live.remove(j);
                end(&l)?;
            }
            _ => unreachable!(),
        }
        done += 1;
        // every live object still holds its value
        for l in &live {
            intact(t, l)?;
        }
    }
    while !live.is_empty() {
        let l = live.remove(live.len() / 2);
        end(&l)?;
        for l in &live {
            intact(t, l)?;
        }
    }
    Ok((applicable, done))
}
fn intact(t: &Tab, l: &Live) -> CaseResult {
    let ok = unsafe {
        match l {
            Live::Sk(p, v) => *(**p).as_ref() == fr(*v),
            Live::Pk(p, v) => *(**p).as_ref() == t.g2[v],
            Live::Sig(p, v) => *(**p).as_ref() == t.g1[v],
            Live::Buf(p, n, b, ..) => std::slice::from_raw_parts(*p, *n as usize) == &b[..],
        }
    };
    ensure!(ok, "h-value", "{} no longer holds its value", what(l));
    Ok(())
}
fn what(l: &Live) -> String {
    match l {
        Live::Sk(_, v) => format!("private key {}", v),
        Live::Pk(_, v) => format!("public key {}", v),
        Live::Sig(_, v) => format!("signature {}", v),
        Live::Buf(_, n, _, ty, u, v) => format!("{}-byte buffer of {:?} {}{}", n, ty, v, if *u { " uncompressed" } else { "" }),
    }
}
fn end(l: &Live) -> CaseResult {
    let p = match l {
        Live::Sk(p, _) => *p as *const u8,
        Live::Pk(p, _) => *p as *const u8,
        Live::Sig(p, _) => *p as *const u8,
        Live::Buf(p, ..) => *p as *const u8,
    };
    ensure!(matches!(track::state(p), Some((_, false))), "h-live", "{} is not a live block of its own", what(l));
    let ok = unsafe {
        match l {
            Live::Sk(p, _) => fs::destroy_private_key(*p),
            Live::Pk(p, _) => fs::destroy_public_key(*p),
            Live::Sig(p, _) => fs::destroy_signature(*p),
            Live::Buf(p, n, ..) => fs::free_vec(*p, *n),
        }
    };
    ensure!(ok, "h-free", "freeing {} is reported as failure", what(l));
    ensure!(matches!(track::state(p), Some((_, true))), "h-release", "{} is not released", what(l));
    Ok(())
}

pub fn c18(c: &Check) {
    bls_snark_sys::init();
    let ms: Vec<i64> = (0..c.pick(24i64, 200)).flat_map(|k| [k, -k]).skip(1).collect();
    // identity last in the list of keys and signatures
    let mut ks: Vec<i64> = ms.iter().copied().filter(|k| *k != 0).collect();
    ks.push(0);
    let sks: Vec<SkEq> = vec![Fr::one(), big(), -Fr::one(), Fr::zero(), Fr::from(256u64), lambda()].into_iter().map(SkEq).collect();
    // private keys have no Clone: checked through their scalar
    c.par(
        "private keys: encode and decode",
        sks.len() as u64,
        4,
        |i| {
            let k = sks[i as usize].0;
            let sk = PrivateKey::from(k);
            let b = out_vec(|o, n| fs::serialize_private_key(&sk, o, n))?;
            ensure!(b == Some(ser(&sk)) && b.as_ref().unwrap().len() == 32, "ser", "private key {}: {:?}", i, b);
            let b = b.unwrap();
            ensure!(out_sk(|o| fs::deserialize_private_key(b.as_ptr(), 32, o))? == Some(k), "de", "private key {}", i);
            for m in malformed(&b, 32) {
                let lib = PrivateKey::deserialize(&mut &m[..]).ok().map(|x| sk_bits(&x));
                for nul in [false, true] {
                    ensure!(out_sk(|o| fs::deserialize_private_key(cp(&m, nul), m.len() as c_int, o))? == lib, "de-malformed", "private key {}", shex(&m));
                }
            }
            Ok(())
        },
        |i| format!("key {}", i),
    );
    let pks: Vec<PublicKey> = ks.iter().enumerate().map(|(i, k)| PublicKey::from(if i % 2 == 0 { g2(*k) } else { unnorm2(g2(*k), i as u64) })).collect();
    kind(
        c,
        "public key",
        &pks,
        96,
        fs::serialize_public_key,
        vec![("deserialize_public_key", fs::deserialize_public_key), ("deserialize_public_key_cached", fs::deserialize_public_key_cached)],
        fs::destroy_public_key,
        Some((fs::serialize_public_key_uncompressed, fs::compress_pubkey)),
    );
    let sgs: Vec<Signature> = ks.iter().enumerate().map(|(i, k)| Signature::from(if i % 2 == 0 { g1(*k) } else { unnorm1(g1(*k), i as u64) })).collect();
    kind(
        c,
        "signature",
        &sgs,
        48,
        fs::serialize_signature,
        vec![("deserialize_signature", fs::deserialize_signature)],
        fs::destroy_signature,
        Some((fs::serialize_signature_uncompressed, fs::compress_signature)),
    );
    c.case("null private key and buffer", || {
        ensure!(!unsafe { fs::destroy_private_key(null_mut()) }, "destroy-null", "destroying no private key succeeds");
        ensure!(!unsafe { fs::free_vec(null_mut(), 0) } && !unsafe { fs::free_vec(null_mut(), 5) }, "free-null", "freeing no buffer succeeds");
        Ok(())
    });
    c.count("null pointers", 3, 1);
    // a buffer of every length is handed out whole and can be given back
    c.par(
        "buffers handed out, of every length",
        c.pick(400, 70000),
        2,
        |i| {
            let (r, rep) = track::record(|| -> CaseResult {
                let b = out_vec(|o, n| fg::hash_direct_first_step(b"m".as_ptr(), 1, i as c_int, o, n))?;
                ensure!(b == DirectHasher.hash(SIG_DOMAIN, b"m", i as usize).ok() && (i > 65535 || b.as_ref().map(|x| x.len()) == Some(i as usize)), "buffer", "{} bytes", i);
                Ok(())
            });
            r?;
            ensure!(rep.double_free == 0 && rep.mismatch == 0, "buffer-free", "buffer of {} bytes: {:?}", i, rep);
            ensure!(rep.live == 0, "buffer-leak", "buffer of {} bytes: {:?}", i, rep);
            Ok(())
        },
        |i| format!("{} bytes", i),
    );
    // ownership: every history of calls up to a depth
    let h = DIRECT_HASH_TO_G1.hash(POP_DOMAIN, b"h", b"").unwrap();
    let mut t = Tab { g1: HashMap::new(), g2: HashMap::new(), h, ser: HashMap::new(), skb: vec![] };
    for v in 0..=64i64 {
        t.g1.insert(v, t.h.mul(fr(v).into_repr()));
        t.g2.insert(v, g2(v));
        if v < 3 {
            t.skb.push(ser(&PrivateKey::from(fr(v))));
        }
        t.ser.insert((Ty::Sk as u8, false, v), ser(&PrivateKey::from(fr(v))));
        for unc in [false, true] {
            let (p, s) = (PublicKey::from(t.g2[&v]), Signature::from(t.g1[&v]));
            t.ser.insert((Ty::Pk as u8, unc, v), if unc { ser_u(&p) } else { ser(&p) });
            t.ser.insert((Ty::Sig as u8, unc, v), if unc { ser_u(&s) } else { ser(&s) });
        }
        // the key cache keeps what it decodes
        if v > 0 {
            let b = t.ser[&(Ty::Pk as u8, false, v)].clone();
            let mut p = null_mut();
            if fs::deserialize_public_key_cached(b.as_ptr(), b.len() as c_int, &mut p) {
                unsafe { fs::destroy_public_key(p) };
            }
        }
    }
    let t: &Tab = unsafe { &*(&t as *const Tab) };
    struct Shared<'a>(&'a Tab);
    unsafe impl Sync for Shared<'_> {}
    let t = Shared(t);
    let t = &t;
    // histories start with a key: operations that need one come later
    let depth = c.pick(5usize, 6);
    let no = OPS.len() as u64;
    let explored = std::sync::atomic::AtomicU64::new(0);
    for d in 0..=depth {
        c.par(
            "histories of creating, encoding, decoding, aggregating and freeing (inapplicable ones end early)",
            no.pow(d as u32),
            d as u64 + 1,
            |i| {
                let mut ops = vec![0];
                ops.extend(seq(i, no, d));
                let (r, rep) = track::record(|| history(t.0, &ops));
                let (ok, n) = r?;
                if ok {
                    explored.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                }
                ensure!(rep.double_free == 0, "h-double-free", "{} blocks freed twice", rep.double_free);
                ensure!(rep.mismatch == 0, "h-mismatch", "{} blocks freed with another size than allocated", rep.mismatch);
                ensure!(!rep.overflow, "h-overflow", "machinery: allocation table too small");
                // the shared key cache keeps what it was given
                if !ops.iter().any(|o| *o == 7 || *o == 9) {
                    ensure!(rep.live == 0, "h-leak", "{} blocks are never freed", rep.live);
                }
                Ok(())
            },
            |i| format!("{:?}", [vec![0], seq(i, no, d)].concat().into_iter().map(|o| OPS[o]).collect::<Vec<_>>()),
        );
    }
    c.note(format!("{} operations in fully applicable histories of depth up to {}", explored.into_inner(), depth + 1));
}
struct SkEq(Fr);

// ------------------------------------------------------------------------------------- C19
fn ent(i: usize) -> Option<Vec<u8>> {
    match i {
        0 => None,
        1 => Some(vec![0; 16]),
        2 => Some((1..=16).collect()),
        _ => Some(pat(16, 5)),
    }
}
pub fn c19(c: &Check) {
    let idx = [0u16, 1, 258, 65535];
    let rounds = [0u8, 1, 255];
    let mns = [0u32, 1, 0x01020304, u32::MAX];
    let kls: Vec<Vec<i64>> = vec![vec![], vec![1], vec![2, -2], vec![3, 1, 3]];
    let maxv = [0usize, 1, 2, 3, 5];
    let n = (4 * 3 * 4 * 4 * 5) as u64 * 16;
    let stride = c.pick(1u64, 1);
    let _ = stride;
    let pks: Vec<Vec<PublicKey>> = kls.iter().map(|l| epoch::keys(l)).collect();
    let block = |i: u64| -> EpochBlock {
        let i = i as usize;
        EpochBlock::new(idx[i % 4], rounds[i / 4 % 3], ent(i / 12 % 4), ent(i / 48 % 4), mns[i / 192 % 4], maxv[i / 768 % 5], pks[i / 3840 % 4].clone())
    };
    c.par(
        "epoch blocks through both C encoders",
        n,
        3,
        |i| {
            let b = block(i);
            let kp: Vec<*const PublicKey> = b.new_public_keys.iter().map(|k| k as *const _).collect();
            let nul = i % 2 == 0 && kp.is_empty();
            let kpp = if nul { null() } else { kp.as_ptr() };
            let ep = |e: &Option<Vec<u8>>| e.as_ref().map(|x| x.as_ptr()).unwrap_or(null());
            let mut ex: (*mut u8, c_int) = (null_mut(), 0);
            let got = out_vec(|o, l| {
                fk::epoch_block::encode_epoch_block_to_bytes_cip22(
                    b.index, b.round, ep(&b.epoch_entropy), ep(&b.parent_entropy), b.maximum_non_signers, b.maximum_validators as u32,
                    kpp, kp.len() as c_int, o, l, &mut ex.0, &mut ex.1,
                )
            })?;
            let got = match got {
                None => None,
                Some(g) => {
                    let x = unsafe { std::slice::from_raw_parts(ex.0, ex.1 as usize) }.to_vec();
                    ensure!(unsafe { fs::free_vec(ex.0, ex.1) }, "free", "free_vec");
                    Some((g, x))
                }
            };
            let lib = b.encode_inner_to_bytes_cip22().ok();
            ensure!(got == lib, "cip22", "C encoding differs from the library's");
            let (x, y) = epoch::inner_bits(&b);
            ensure!(got == Some((epoch::to_bytes(&x), epoch::to_bytes(&y))), "cip22-ref", "encoding differs from the layout");
            if i % 7 == 0 {
                let got = out_vec(|o, l| fk::epoch_block::encode_epoch_block_to_bytes(b.index, b.maximum_non_signers, kpp, kp.len() as c_int, o, l))?;
                ensure!(got == b.encode_to_bytes().ok(), "plain", "C encoding differs from the library's");
                ensure!(got == Some(epoch::to_bytes(&epoch::plain_bits(&b))), "plain-ref", "encoding differs from the layout");
            }
            // read back from a C structure
            if i % 5 == 0 {
                let raw = fk::epoch_block::serialize_pubkeys(&b.new_public_keys).map_err(|e| viol("serialize", format!("{}", e)))?;
                ensure!(raw == b.new_public_keys.iter().flat_map(|k| ser(k)).collect::<Vec<u8>>(), "serialize", "serialize_pubkeys");
                let f = fk::epoch_block::EpochBlockFFI {
                    index: b.index,
                    round: b.round,
                    epoch_entropy: ep(&b.epoch_entropy),
                    parent_entropy: ep(&b.parent_entropy),
                    pubkeys: cp(&raw, nul),
                    pubkeys_num: b.new_public_keys.len(),
                    maximum_non_signers: b.maximum_non_signers,
                    maximum_validators: b.maximum_validators,
                };
                let r = EpochBlock::try_from(&f);
                ensure!(r.as_ref().ok() == Some(&b), "read-back", "block read back differs");
            }
            Ok(())
        },
        |i| { let b = block(i); format!("index {} round {} max {}/{} entropies {:?} {:?} keys {}", b.index, b.round, b.maximum_non_signers, b.maximum_validators, b.epoch_entropy, b.parent_entropy, b.new_public_keys.len()) },
    );
    // undecodable keys at every position
    let base: Vec<u8> = epoch::keys(&[1, -2, 3]).iter().flat_map(|k| ser(k)).collect();
    let bad: Vec<Vec<u8>> = vec![vec![0xff; 96], { let mut v = ser(&PublicKey::from(g2(1))); v[0] ^= 1; v }, { let mut v = ser(&PublicKey::from(g2(1))); v[47] |= 0x20; v }, off_group()];
    c.par(
        "blocks with an undecodable key",
        (bad.len() * 3) as u64,
        1,
        |i| {
            let (w, at) = (&bad[i as usize / 3], i as usize % 3);
            let mut raw = base.clone();
            raw[96 * at..96 * at + 96].copy_from_slice(w);
            let want = G2Affine::deserialize(&mut &w[..]).is_ok();
            let f = fk::epoch_block::EpochBlockFFI { index: 1, round: 0, epoch_entropy: null(), parent_entropy: null(), pubkeys: raw.as_ptr(), pubkeys_num: 3, maximum_non_signers: 1, maximum_validators: 3 };
            ensure!(EpochBlock::try_from(&f).is_ok() == want, "bad-key", "key {} at position {}", hex(w), at);
            Ok(())
        },
        |i| format!("key {} position {}", i / 3, i % 3),
    );
    // many keys: encoded, read back, and with an undecodable key in every position
    let many = multiples(300).1;
    let many: Vec<PublicKey> = many.into_iter().map(PublicKey::from).collect();
    let rawkeys: Vec<u8> = many.iter().flat_map(|k| ser(k)).collect();
    let mut l: Vec<(usize, usize, usize)> = vec![];
    for n in [4usize, 7, 8, 9, 16, 17, 33, 65, 100, 150, 300] {
        l.extend((0..4).map(|k| (n, n, k)));
        l.extend((0..n).flat_map(|j| (0..if n < 50 { bad.len() } else { 1 }).map(move |w| (n, j, w))));
    }
    c.par(
        "blocks with many keys, none or one of them undecodable",
        l.len() as u64,
        3,
        |i| {
            let (n, at, w) = l[i as usize];
            let mut raw = rawkeys[..96 * n].to_vec();
            let mut f = fk::epoch_block::EpochBlockFFI { index: 1, round: 0, epoch_entropy: null(), parent_entropy: null(), pubkeys: raw.as_ptr(), pubkeys_num: n, maximum_non_signers: 1, maximum_validators: n };
            if at < n {
                let want = G2Affine::deserialize(&mut &bad[w][..]).is_ok();
                raw[96 * at..96 * at + 96].copy_from_slice(&bad[w]);
                f.pubkeys = raw.as_ptr();
                ensure!(EpochBlock::try_from(&f).is_ok() == want, "bad-key", "{} keys, key {} at position {}", n, hex(&bad[w]), at);
                return Ok(());
            }
            let mv = [n, n + 1, 3, n + 200][w];
            let b = EpochBlock::new(500, 200, ent(w % 4), ent(3), 70000, mv, many[..n].to_vec());
            let ep = |e: &Option<Vec<u8>>| e.as_ref().map(|x| x.as_ptr()).unwrap_or(null());
            let kp: Vec<*const PublicKey> = b.new_public_keys.iter().map(|k| k as *const _).collect();
            let mut ex: (*mut u8, c_int) = (null_mut(), 0);
            let got = out_vec(|o, l| {
                fk::epoch_block::encode_epoch_block_to_bytes_cip22(b.index, b.round, ep(&b.epoch_entropy), ep(&b.parent_entropy), b.maximum_non_signers, mv as u32, kp.as_ptr(), n as c_int, o, l, &mut ex.0, &mut ex.1)
            })?;
            let x = if got.is_some() { unsafe { std::slice::from_raw_parts(ex.0, ex.1 as usize) }.to_vec() } else { vec![] };
            let (inner, extra) = epoch::inner_bits(&b);
            ensure!(got == Some(epoch::to_bytes(&inner)) && x == epoch::to_bytes(&extra), "cip22-ref", "{} keys, {} declared: encoding differs from the layout", n, mv);
            ensure!(unsafe { fs::free_vec(ex.0, ex.1) }, "free", "free_vec");
            let got = out_vec(|o, l| fk::epoch_block::encode_epoch_block_to_bytes(b.index, b.maximum_non_signers, kp.as_ptr(), n as c_int, o, l))?;
            ensure!(got == Some(epoch::to_bytes(&epoch::plain_bits(&b))), "plain-ref", "{} keys: encoding differs from the layout", n);
            ensure!(fk::epoch_block::serialize_pubkeys(&b.new_public_keys).ok() == Some(raw), "serialize", "serialize_pubkeys of {} keys", n);
            f = fk::epoch_block::EpochBlockFFI { index: b.index, round: b.round, epoch_entropy: ep(&b.epoch_entropy), parent_entropy: ep(&b.parent_entropy), pubkeys: rawkeys.as_ptr(), pubkeys_num: n, maximum_non_signers: b.maximum_non_signers, maximum_validators: mv };
            ensure!(EpochBlock::try_from(&f).ok() == Some(b), "read-back", "block of {} keys read back differs", n);
            Ok(())
        },
        |i| format!("(keys, position, kind) = {:?}", l[i as usize]),
    );
    // every bit of every numeric field, read back
    c.par(
        "numeric fields read back",
        (1 + 16 + 8 + 32 + 64) * 2,
        1,
        |i| {
            let (k, ones) = (i as usize / 2, i % 2 == 1);
            let bit = |from: usize, width: usize| -> u64 {
                let v = if k >= from && k < from + width { 1u64 << (k - from) } else { 0 };
                if ones { !v } else { v }
            };
            let f = fk::epoch_block::EpochBlockFFI { index: bit(0, 16) as u16, round: bit(16, 8) as u8, epoch_entropy: null(), parent_entropy: rawkeys.as_ptr(), pubkeys: rawkeys.as_ptr(), pubkeys_num: 1, maximum_non_signers: bit(24, 32) as u32, maximum_validators: bit(56, 64) as usize };
            let want = EpochBlock::new(f.index, f.round, None, Some(rawkeys[..16].to_vec()), f.maximum_non_signers, f.maximum_validators, many[..1].to_vec());
            ensure!(EpochBlock::try_from(&f).ok() == Some(want), "read-back", "index {} round {} maxima {} {}: read back differs", f.index, f.round, f.maximum_non_signers, f.maximum_validators);
            Ok(())
        },
        |i| format!("bit {} {}", i / 2, i % 2),
    );
    // proof verification
    c.assume("Groth16 is an ideal functionality here: a proof verifies exactly when it was made for the verifying key and public inputs");
    let keyset: Vec<Vec<i64>> = vec![vec![1, 2], vec![2, 1], vec![1], vec![3, 4]];
    let mk = |index: u16, e: usize, p: usize, mx: u32, mv: usize, ks: usize, round: u8| EpochBlock::new(index, round, ent(e), ent(p), mx, mv, epoch::keys(&keyset[ks]));
    let firsts = vec![mk(1, 2, 3, 1, 2, 0, 0), mk(2, 2, 3, 1, 2, 0, 0), mk(1, 2, 2, 1, 2, 0, 0), mk(1, 2, 3, 0, 2, 0, 0), mk(1, 2, 3, 1, 2, 1, 0), mk(1, 3, 3, 1, 2, 0, 9), mk(1, 2, 3, 1, 3, 0, 0), mk(1, 2, 3, 1, 2, 2, 0), mk(1, 2, 0, 1, 2, 0, 0)];
    let lasts = vec![mk(4, 3, 2, 1, 2, 3, 0), mk(5, 3, 2, 1, 2, 3, 0), mk(4, 2, 2, 1, 2, 3, 0), mk(4, 3, 2, 2, 2, 3, 0), mk(4, 3, 2, 1, 2, 0, 0), mk(4, 3, 3, 1, 2, 3, 7), mk(4, 3, 2, 1, 4, 3, 0), mk(4, 0, 2, 1, 2, 3, 0)];
    let vk = |id: u64, n: usize| -> ark_groth16::VerifyingKey<ark_bw6_761::BW6_761> {
        use ark_bw6_761::{G1Projective as B1, G2Projective as B2};
        let k = |x: u64| ark_bw6_761::Fr::from(id * 100 + x).into_repr();
        let a = |x: u64| <B1 as ProjectiveCurve>::prime_subgroup_generator().mul(k(x)).into_affine();
        let b = |x: u64| <B2 as ProjectiveCurve>::prime_subgroup_generator().mul(k(x)).into_affine();
        ark_groth16::VerifyingKey { alpha_g1: a(1), beta_g2: b(2), gamma_g2: b(3), delta_g2: b(4), gamma_abc_g1: (0..n as u64).map(|i| a(5 + i)).collect() }
    };
    let inputs = |f: &EpochBlock, l: &EpochBlock| -> Vec<ark_bw6_761::Fr> {
        let bits = [epoch::out_hash(&epoch::to_bytes(&epoch::first_bits(f))), epoch::out_hash(&epoch::to_bytes(&epoch::last_apk_bits(l)))].concat();
        epoch::pack_ref(&bits)
    };
    let ni = inputs(&firsts[0], &lasts[0]).len() + 1;
    let vks = vec![vk(1, ni), vk(2, ni), vk(1, ni + 1), vk(1, ni - 1)];
    let proof = mark::groth16::ideal(&vks[0], &inputs(&firsts[0], &lasts[0]));
    let wrong = mark::groth16::ideal(&vks[0], &inputs(&firsts[1], &lasts[0]));
    let vkb: Vec<Vec<u8>> = vks.iter().map(|v| ser(v)).collect();
    let pb: Vec<Vec<u8>> = vec![ser(&proof), ser(&wrong)];
    let blk = |b: &EpochBlock, raw: &Vec<u8>| fk::epoch_block::EpochBlockFFI {
        index: b.index,
        round: b.round,
        epoch_entropy: b.epoch_entropy.as_ref().map(|x| x.as_ptr()).unwrap_or(null()),
        parent_entropy: b.parent_entropy.as_ref().map(|x| x.as_ptr()).unwrap_or(null()),
        pubkeys: raw.as_ptr(),
        pubkeys_num: b.new_public_keys.len(),
        maximum_non_signers: b.maximum_non_signers,
        maximum_validators: b.maximum_validators,
    };
    let (nf, nla) = (firsts.len(), lasts.len());
    let total = (nf * nla * vks.len() * 2) as u64;
    c.par(
        "proof verification: first block x last block x verifying key x proof",
        total,
        2,
        |i| {
            let i = i as usize;
            let (f, l, v, p) = (&firsts[i % nf], &lasts[i / nf % nla], i / nf / nla % vks.len(), i / nf / nla / vks.len());
            let raw = |b: &EpochBlock| b.new_public_keys.iter().flat_map(|k| ser(k)).collect::<Vec<u8>>();
            let (rf, rl) = (raw(f), raw(l));
            let got = unsafe { fk::verify(vkb[v].as_ptr(), vkb[v].len() as u32, pb[p].as_ptr(), pb[p].len() as u32, blk(f, &rf), blk(l, &rl)) };
            let lib = epoch_snark::verify(&vks[v], f, l, if p == 0 { &proof } else { &wrong }).is_ok();
            ensure!(got == lib, "verify-lib", "C verdict {} library {}", got, lib);
            let want = v == 0 && inputs(f, l) == inputs(&firsts[p], &lasts[0]);
            ensure!(got == want, "verify", "verdict {} want {}", got, want);
            Ok(())
        },
        |i| format!("first {} last {} vk {} proof {}", i as usize % nf, i as usize / nf % nla, i as usize / nf / nla % vks.len(), i as usize / nf / nla / vks.len()),
    );
    // every statement with its own proof, also in the other order and with itself
    let all: Vec<&EpochBlock> = firsts.iter().chain(&lasts).collect();
    c.par(
        "proof verification: every pair of blocks with a proof made for it",
        (all.len() * all.len()) as u64,
        2,
        |i| {
            let (f, l) = (all[i as usize % all.len()], all[i as usize / all.len()]);
            let raw = |b: &EpochBlock| b.new_public_keys.iter().flat_map(|k| ser(k)).collect::<Vec<u8>>();
            let (rf, rl) = (raw(f), raw(l));
            let x = inputs(f, l);
            for v in 0..2 {
                let p = mark::groth16::ideal(&vks[v], &x);
                let pb = ser(&p);
                let got = unsafe { fk::verify(vkb[0].as_ptr(), vkb[0].len() as u32, pb.as_ptr(), pb.len() as u32, blk(f, &rf), blk(l, &rl)) };
                let lib = epoch_snark::verify(&vks[0], f, l, &p).is_ok();
                ensure!(got == lib && got == (v == 0), "verify", "proof made for verifying key {}: C verdict {} library {}", v, got, lib);
            }
            Ok(())
        },
        |i| format!("blocks {} {}", i as usize % all.len(), i as usize / all.len()),
    );
    let (rf, rl): (Vec<u8>, Vec<u8>) = (firsts[0].new_public_keys.iter().flat_map(|k| ser(k)).collect(), lasts[0].new_public_keys.iter().flat_map(|k| ser(k)).collect());
    let (lv, lp) = (vkb[0].len(), pb[0].len());
    c.par(
        "proof verification: every truncation of key and proof, and changed bytes",
        (lv + lp) as u64 * 2,
        1,
        |i| {
            let (i, flip) = (i as usize / 2, i % 2 == 1);
            let (mut v, mut p) = (vkb[0].clone(), pb[0].clone());
            let (x, at) = if i < lv { (&mut v, i) } else { (&mut p, i - lv) };
            if flip {
                x[at] ^= 1 << (i % 6);
            } else {
                x.truncate(at);
            }
            let got = unsafe { fk::verify(cp(&v, true), v.len() as u32, cp(&p, true), p.len() as u32, blk(&firsts[0], &rf), blk(&lasts[0], &rl)) };
            ensure!(!got, "verify-bytes", "accepted with {} of the {} {} at byte {}", if flip { "a changed bit" } else { "truncation" }, if i < lv { "verifying key" } else { "proof" }, i, at);
            Ok(())
        },
        |i| format!("byte {} {}", i / 2, i % 2),
    );
    c.case("verify-bad-keys", || {
        let mut bad_keys = rl.clone();
        bad_keys[96..192].copy_from_slice(&[0xff; 96]);
        let ok = |a: &Vec<u8>, b: &Vec<u8>| unsafe { fk::verify(vkb[0].as_ptr(), lv as u32, pb[0].as_ptr(), lp as u32, blk(&firsts[0], a), blk(&lasts[0], b)) };
        ensure!(ok(&rf, &rl), "verify-good", "the right proof is rejected");
        ensure!(!ok(&rf, &bad_keys) && !ok(&bad_keys, &rl), "verify-bad-keys", "undecodable keys accepted");
        Ok(())
    });
    c.count("undecodable keys in proof verification", 3, 1);
}
fn off_group() -> Vec<u8> {
    let mut x = 5u64;
    loop {
        let b = [ark_bls12_377::Fq::from(x).encode(), ark_bls12_377::Fq::from(7u64).encode()].concat();
        x += 1;
        if let Dec::Point(a) = decode_x::<ark_bls12_377::g2::Parameters>(&b, false, false) {
            if !a.into_projective().mul(order()).is_zero() {
                return b;
            }
        }
    }
}

/// Calls for C29 whose arguments are C structures: 0 batch_verify_signature of a right and of a
/// wrong entry, 1 batch_verify_strict of a right and a wrong batch, 2 and 3 the epoch encodings.
pub fn conc_call(kind: u8, pk: &PublicKey, sigs: &[Signature], m: &[u8], e: &[u8]) -> Vec<u8> {
    let (data, extra) = (fu::Buffer { ptr: m.as_ptr(), len: m.len() }, fu::Buffer { ptr: e.as_ptr(), len: e.len() });
    let kp = [pk as *const PublicKey, pk as *const PublicKey];
    match kind {
        0 => {
            let mut out = vec![1u8];
            for s in &sigs[..2] {
                let x = [fu::MessageFFI { data: data.clone(), extra: extra.clone(), public_key: pk, sig: s }];
                let mut v = false;
                if !fg::batch_verify_signature(x.as_ptr(), 1, false, false, &mut v) {
                    out[0] = 0;
                }
                out.push(u8::from(v));
            }
            out
        }
        1 => {
            let sp = [&sigs[0] as *const Signature, &sigs[0] as *const _, &sigs[1] as *const _];
            let b: Vec<fu::BatchMessageFFI> = (0..2)
                .map(|j| fu::BatchMessageFFI { data: data.clone(), extra: extra.clone(), public_keys: kp.as_ptr(), public_keys_len: 2, signatures: sp[j..].as_ptr(), signatures_len: 2 })
                .collect();
            let mut res = [false; 2];
            let mut k = 7;
            let script: rand::Script = Box::new(move |b: &mut [u8]| {
                k += 1;
                b.copy_from_slice(&pat(b.len(), k))
            });
            let r = rand::with_script(script, || fg::batch_verify_strict(b.as_ptr(), 2, false, false, res.as_mut_ptr()));
            vec![u8::from(r), u8::from(res[0]), u8::from(res[1])]
        }
        _ => {
            let (ee, pe) = ([3u8; 16], [4u8; 16]);
            let r = if kind == 2 {
                out_vec(|o, l| fk::epoch_block::encode_epoch_block_to_bytes(5, 1, kp.as_ptr(), 2, o, l)).map(|x| x.unwrap_or_default())
            } else {
                let mut extra = vec![];
                out_vec(|o, l| {
                    let mut ok = false;
                    extra = out_vec(|o2, l2| {
                        ok = fk::epoch_block::encode_epoch_block_to_bytes_cip22(5, 2, ee.as_ptr(), pe.as_ptr(), 1, 3, kp.as_ptr(), 2, o, l, o2, l2);
                        ok
                    })
                    .ok()
                    .flatten()
                    .unwrap_or_default();
                    ok
                })
                .map(|x| [x.unwrap_or_default(), extra].concat())
            };
            r.unwrap_or_default()
        }
    }
}
