//! C10-C15: signatures, aggregation, batches, key cache, encodings.
use crate::o::*;
use ark_bls12_377::{g1, g2, Fr, G1Affine, G1Projective, G2Affine, G2Projective};
use ark_ec::{models::short_weierstrass_jacobian as sw, AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger256, Field, FpParameters, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use bls_crypto::bls::Batch;
use bls_crypto::hash_to_curve::{try_and_increment::*, try_and_increment_cip22::*, HashToCurve};
use bls_crypto::{BLSError, PrivateKey, PublicKey, PublicKeyCache, Signature, POP_DOMAIN, SIG_DOMAIN};
use mc_common::{caught, ensure, hex, seq, viol, CaseResult, Check};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::Mutex;

/// A primitive third root of unity modulo the group order: multiplying a point by it keeps y.
pub fn lambda() -> Fr {
    let x = Fr::from(0x8508c00000000001u64);
    let l = -(x * x);
    assert!(l != Fr::one() && l * l * l == Fr::one());
    l
}
/// The same point in another projective representation.
pub fn unnorm1(p: G1Projective, k: u64) -> G1Projective {
    let z = ark_bls12_377::Fq::from(k + 2);
    let a = p.into_affine();
    if a.is_zero() {
        return p;
    }
    G1Projective::new(a.x * z * z, a.y * z * z * z, z)
}
pub fn unnorm2(p: G2Projective, k: u64) -> G2Projective {
    let z = ark_bls12_377::Fq2::new(ark_bls12_377::Fq::from(k + 2), ark_bls12_377::Fq::from(k));
    let a = p.into_affine();
    if a.is_zero() {
        return p;
    }
    G2Projective::new(a.x * z * z, a.y * z * z * z, z)
}
pub fn norm2(p: G2Projective) -> G2Projective {
    p.into_affine().into_projective()
}

/// A hash to G1 chosen by the explorer: k * G with k an injective function of the arguments
/// (small for the listed texts).
pub struct ScalarHasher;
pub fn scalar_of(domain: &[u8], message: &[u8], extra: &[u8]) -> Fr {
    let enc = |b: &[u8]| b.iter().fold(Fr::one(), |a, x| a * Fr::from(257u64) + Fr::from(*x as u64 + 1));
    enc(domain) * Fr::from(3u64) + enc(message).square() * Fr::from(5u64) + enc(extra) * enc(extra) * enc(extra) * Fr::from(7u64) + Fr::one()
}
impl HashToCurve for ScalarHasher {
    type Output = G1Projective;
    fn hash(&self, domain: &[u8], message: &[u8], extra: &[u8]) -> Result<G1Projective, BLSError> {
        if message == b"unhashable" {
            return Err(BLSError::HashToCurveError);
        }
        Ok(G1Projective::prime_subgroup_generator().mul(scalar_of(domain, message, extra).into_repr()))
    }
}

// ------------------------------------------------------------------------------------- C10
struct Signed {
    label: String,
    sig: G1Projective,
}
pub fn c10(c: &Check) {
    c.assume("the pairing is the stand-in's, validated by bilinearity and by the repository's tests; the oracle compares discrete-log relations, not pairings");
    let big = Fr::from_repr(BigInteger256::new([0x1234567890abcdef, 0xfedcba0987654321, 0x55aa55aa55aa55aa, 0x0123456789abcdef])).unwrap();
    let keys: Vec<Fr> = c.pick(vec![Fr::one(), -Fr::one(), big], vec![Fr::one(), Fr::from(2u64), -Fr::one(), big, lambda()]);
    let msgs: Vec<&[u8]> = vec![b"", b"a", b"b", b"ab"];
    let extras: Vec<&[u8]> = vec![b"", b"a", b"b"];
    // every hash the explored calls can ask for, from the reference
    let mut hashes: HashMap<(usize, bool, usize, usize), G1Projective> = HashMap::new();
    for h in 0..3usize {
        for pop in [false, true] {
            for m in 0..msgs.len() {
                for e in 0..extras.len() {
                    let (inner, cip) = [(Inner::Direct, false), (Inner::Composite, false), (Inner::Composite, true)][h];
                    let d: &[u8] = if pop { b"ULforpop" } else { b"ULforxof" };
                    hashes.insert((h, pop, m, e), ref_tai::<g1::Parameters>(inner, cip, true, d, msgs[m], extras[e]).unwrap().0);
                }
            }
        }
    }
    type Call = (usize, bool, usize, usize); // hasher, pop, message, extra (0 for pop)
    let mut calls: Vec<Call> = vec![];
    for h in 0..3 {
        for m in 0..msgs.len() {
            for e in 0..extras.len() {
                calls.push((h, false, m, e));
            }
            calls.push((h, true, m, 0));
        }
    }
    let nc = calls.len();
    let sign = |k: &Fr, (h, pop, m, e): Call| -> Result<Signature, BLSError> {
        let sk = PrivateKey::from(*k);
        match (h, pop) {
            (0, false) => sk.sign(msgs[m], extras[e], &*DIRECT_HASH_TO_G1),
            (1, false) => sk.sign(msgs[m], extras[e], &*COMPOSITE_HASH_TO_G1),
            (_, false) => sk.sign(msgs[m], extras[e], &*COMPOSITE_HASH_TO_G1_CIP22),
            (0, true) => sk.sign_pop(msgs[m], &*DIRECT_HASH_TO_G1),
            (1, true) => sk.sign_pop(msgs[m], &*COMPOSITE_HASH_TO_G1),
            (_, true) => sk.sign_pop(msgs[m], &*COMPOSITE_HASH_TO_G1_CIP22),
        }
    };
    let verify = |pk: &PublicKey, s: &Signature, (h, pop, m, e): Call| -> Result<(), BLSError> {
        match (h, pop) {
            (0, false) => pk.verify(msgs[m], extras[e], s, &*DIRECT_HASH_TO_G1),
            (1, false) => pk.verify(msgs[m], extras[e], s, &*COMPOSITE_HASH_TO_G1),
            (_, false) => pk.verify(msgs[m], extras[e], s, &*COMPOSITE_HASH_TO_G1_CIP22),
            (0, true) => pk.verify_pop(msgs[m], s, &*DIRECT_HASH_TO_G1),
            (1, true) => pk.verify_pop(msgs[m], s, &*COMPOSITE_HASH_TO_G1),
            (_, true) => pk.verify_pop(msgs[m], s, &*COMPOSITE_HASH_TO_G1_CIP22),
        }
    };
    let sigs: Mutex<Vec<Option<G1Projective>>> = Mutex::new(vec![None; nc * keys.len()]);
    c.par(
        "signing: keys x hashers x messages x extra data",
        (nc * keys.len()) as u64,
        2,
        |i| {
            let (k, call) = (&keys[i as usize / nc], calls[i as usize % nc]);
            let s = sign(k, call).map_err(|e| viol("sign", format!("signing failed: {}", e)))?;
            let w = hashes[&call].mul(k.into_repr());
            ensure!(*s.as_ref() == w, "sign", "signature is not key times hash for {:?}", call);
            let pk = PrivateKey::from(*k).to_public();
            ensure!(*pk.as_ref() == G2Projective::prime_subgroup_generator().mul(k.into_repr()), "pk", "public key is not key times generator");
            sigs.lock().unwrap()[i as usize] = Some(*s.as_ref());
            Ok(())
        },
        |i| format!("{:?}", calls[i as usize % nc]),
    );
    if c.nviol() > 0 {
        return;
    }
    let mut all: Vec<Signed> = vec![];
    for (i, s) in sigs.into_inner().unwrap().into_iter().enumerate() {
        all.push(Signed { label: format!("signature by key {} on {:?}", i / nc, calls[i % nc]), sig: s.unwrap() });
    }
    let g = G1Projective::prime_subgroup_generator();
    let s0 = all[nc + 1].sig;
    let s1 = all[2 * nc + 5].sig;
    for (l, s) in [
        ("identity", G1Projective::zero()),
        ("generator", g),
        ("negated", -s0),
        ("doubled", s0 + s0),
        ("plus generator", s0 + g),
        ("sum of two", s0 + s1),
        ("same y", s0.mul(lambda().into_repr())),
        ("other representation", unnorm1(s0, 5)),
        ("other representation 2", unnorm1(s1, 7)),
    ] {
        all.push(Signed { label: l.into(), sig: s });
    }
    let pks: Vec<PublicKey> = keys.iter().enumerate().map(|(i, k)| {
        let p = PrivateKey::from(*k).to_public();
        if i % 2 == 0 { p } else { PublicKey::from(unnorm2(*p.as_ref(), 3)) }
    }).collect();
    let nv = nc * keys.len();
    c.par(
        "every signature against every key, hasher, message, extra data and kind",
        (all.len() * nv) as u64,
        1,
        |i| {
            let (s, v) = (&all[i as usize / nv], i as usize % nv);
            let (k, call) = (v / nc, calls[v % nc]);
            let want = s.sig == hashes[&call].mul(keys[k].into_repr());
            match verify(&pks[k], &Signature::from(s.sig), call) {
                Ok(()) => ensure!(want, "accept", "{} is accepted for key {} and {:?} (hasher, pop, message, extra)", s.label, k, call),
                Err(e) => {
                    ensure!(!want, "reject", "{} is rejected for key {} and {:?}: {}", s.label, k, call, e);
                    ensure!(matches!(e, BLSError::VerificationFailed), "error", "a wrong signature gives another error: {}", e);
                }
            }
            Ok(())
        },
        |i| format!("{} against key {} and {:?}", all[i as usize / nv].label, i as usize % nv / nc, calls[i as usize % nv % nc]),
    );
    // zero key: the only signature is the identity
    c.case("hash failure", || {
        let sk = PrivateKey::from(big);
        ensure!(sk.sign(b"unhashable", b"", &ScalarHasher).is_err(), "hash-error", "signing an unhashable message");
        ensure!(sk.sign_pop(b"unhashable", &ScalarHasher).is_err(), "hash-error", "signing an unhashable message");
        let s = Signature::from(G1Projective::zero());
        ensure!(sk.to_public().verify(b"unhashable", b"", &s, &ScalarHasher).is_err(), "hash-error", "verifying an unhashable message");
        ensure!(sk.to_public().verify_pop(b"unhashable", &s, &ScalarHasher).is_err(), "hash-error", "verifying an unhashable message");
        ensure!(PublicKey::from(G2Projective::zero()).verify(b"unhashable", b"", &s, &ScalarHasher).is_err(), "hash-error", "verifying an unhashable message");
        Ok(())
    });
    c.count("hash failures", 5, 1);
    // domains, exactly: the scripted hasher sees every argument
    let texts: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 0], b"ULforpop".to_vec(), b"ULforxof".to_vec(), pat(80, 1), pat(256, 2), pat(1024, 3), pat(4097, 4), pat(65536, 5), pat(65537, 6)];
    let nt = texts.len() as u64;
    c.par(
        "arguments reach the hasher unchanged",
        nt * nt * 4,
        4,
        |i| {
            let (m, e) = (&texts[(i % nt) as usize], &texts[(i / nt % nt) as usize]);
            let k = [Fr::one(), -Fr::one(), big, lambda()][(i / nt / nt) as usize];
            let sk = PrivateKey::from(k);
            let (hs, hp) = (scalar_of(SIG_DOMAIN, m, e), scalar_of(POP_DOMAIN, m, b""));
            ensure!(SIG_DOMAIN == b"ULforxof" && POP_DOMAIN == b"ULforpop", "domain", "domains");
            let s = sk.sign(m, e, &ScalarHasher).unwrap();
            ensure!(*s.as_ref() == g.mul((hs * k).into_repr()), "args", "sign");
            let p = sk.sign_pop(m, &ScalarHasher).unwrap();
            ensure!(*p.as_ref() == g.mul((hp * k).into_repr()), "args", "sign_pop");
            let pk = sk.to_public();
            ensure!(pk.verify(m, e, &s, &ScalarHasher).is_ok(), "args", "verify");
            ensure!(pk.verify_pop(m, &p, &ScalarHasher).is_ok(), "args", "verify_pop");
            ensure!(pk.verify(m, e, &p, &ScalarHasher).is_err(), "args", "a proof of possession is accepted as a signature");
            ensure!(pk.verify_pop(m, &s, &ScalarHasher).is_err(), "args", "a signature is accepted as a proof of possession");
            ensure!(pk.verify(e, m, &s, &ScalarHasher).is_ok() == (m == e), "args", "message and extra data are interchangeable");
            Ok(())
        },
        |i| format!("message {} extra {}", hex(&texts[(i % nt) as usize]), hex(&texts[(i / nt % nt) as usize])),
    );
    // key generation draws the whole key from the generator it is given
    c.par(
        "key generation",
        c.pick(200, 4000),
        1,
        |i| {
            use rand::SeedableRng;
            let mut s = [1u8; 16];
            s[..8].copy_from_slice(&i.to_le_bytes());
            let mut a = rand_xorshift::XorShiftRng::from_seed(s);
            let mut b = a.clone();
            let (k1, k2) = (PrivateKey::generate(&mut a), PrivateKey::generate(&mut a));
            ensure!(k1.as_ref() != k2.as_ref() && !k1.as_ref().is_zero(), "keygen", "repeated key");
            ensure!(PrivateKey::generate(&mut b).as_ref() == k1.as_ref(), "keygen", "the key is not a function of the generator's state");
            let pk = k1.to_public();
            let s = k1.sign(b"m", b"", &ScalarHasher).unwrap();
            ensure!(pk.verify(b"m", b"", &s, &ScalarHasher).is_ok(), "keygen", "own signature");
            ensure!(k2.to_public().verify(b"m", b"", &s, &ScalarHasher).is_err(), "keygen", "other key's signature");
            Ok(())
        },
        |i| format!("seed {}", i),
    );
}

// ------------------------------------------------------------------------------------- C11
pub fn c11(c: &Check) {
    let vals: [i64; 5] = [0, 1, 2, -1, 3];
    let n = 6u64; // plus one unnormalised generator
    let val = |k: usize| if k < 5 { vals[k] } else { 1 };
    let e1: Vec<Signature> = (0..6).map(|k| Signature::from(if k < 5 { g1(vals[k]) } else { unnorm1(g1(1), 9) })).collect();
    let e2: Vec<PublicKey> = (0..6).map(|k| PublicKey::from(if k < 5 { g2(vals[k]) } else { unnorm2(g2(1), 9) })).collect();
    let t1: HashMap<i64, G1Projective> = (-20..=20).map(|k| (k, g1(k))).collect();
    let t2: HashMap<i64, G2Projective> = (-20..=20).map(|k| (k, g2(k))).collect();
    let depth = c.pick(5usize, 6);
    for len in 0..=depth {
        c.par(
            "every list of keys and of signatures, every split in two groups",
            n.pow(len as u32),
            4 + len as u64,
            |i| {
                let s = seq(i, n, len);
                let w: i64 = s.iter().map(|k| val(*k)).sum();
                let (l1, l2): (Vec<Signature>, Vec<PublicKey>) = (s.iter().map(|k| e1[*k].clone()).collect(), s.iter().map(|k| e2[*k].clone()).collect());
                ensure!(*Signature::aggregate(&l1).as_ref() == t1[&w], "sig-sum", "signatures {:?} do not sum to {}", s, w);
                ensure!(*PublicKey::aggregate(&l2).as_ref() == t2[&w], "key-sum", "keys {:?} do not sum to {}", s, w);
                ensure!(*Signature::aggregate(l1.clone()).as_ref() == t1[&w], "sig-sum", "owned signatures {:?}", s);
                ensure!(*PublicKey::aggregate(l2.clone().into_iter()).as_ref() == t2[&w], "key-sum", "owned keys {:?}", s);
                for cut in 0..=len {
                    let a = [Signature::aggregate(&l1[..cut]), Signature::aggregate(&l1[cut..])];
                    ensure!(*Signature::aggregate(&a).as_ref() == t1[&w], "sig-group", "signatures {:?} split at {}", s, cut);
                    let a = [PublicKey::aggregate(&l2[cut..]), PublicKey::aggregate(&l2[..cut])];
                    ensure!(*PublicKey::aggregate(&a).as_ref() == t2[&w], "key-group", "keys {:?} split at {}", s, cut);
                }
                Ok(())
            },
            |i| format!("{:?}", seq(i, n, len)),
        );
    }
    // verification of aggregates: signers against keys, as multisets up to their sum
    let sks: Vec<Fr> = vec![Fr::from(5u64), Fr::from(11u64), -Fr::from(16u64)];
    let maxl = 3usize;
    let mut lists: Vec<Vec<usize>> = vec![];
    for len in 0..=maxl {
        for i in 0..3u64.pow(len as u32) {
            lists.push(seq(i, 3, len));
        }
    }
    let real = c.pick(1usize, 3);
    for h in 0..real {
        let sigs: Vec<Signature> = sks.iter().map(|k| {
            let k = PrivateKey::from(*k);
            match h {
                0 => k.sign(b"m", b"e", &*DIRECT_HASH_TO_G1),
                1 => k.sign(b"m", b"e", &*COMPOSITE_HASH_TO_G1),
                _ => k.sign(b"m", b"e", &*COMPOSITE_HASH_TO_G1_CIP22),
            }
            .unwrap()
        }).collect();
        let nl = lists.len() as u64;
        c.par(
            "aggregate signature of every list of signers against the aggregate key of every list",
            nl * nl,
            3,
            |i| {
                let (a, b) = (&lists[(i / nl) as usize], &lists[(i % nl) as usize]);
                let asig = Signature::aggregate(a.iter().map(|k| &sigs[*k]));
                let apk = PublicKey::aggregate(b.iter().map(|k| PrivateKey::from(sks[*k]).to_public()));
                let (sa, sb): (Fr, Fr) = (a.iter().map(|k| sks[*k]).sum(), b.iter().map(|k| sks[*k]).sum());
                let r = match h {
                    0 => apk.verify(b"m", b"e", &asig, &*DIRECT_HASH_TO_G1),
                    1 => apk.verify(b"m", b"e", &asig, &*COMPOSITE_HASH_TO_G1),
                    _ => apk.verify(b"m", b"e", &asig, &*COMPOSITE_HASH_TO_G1_CIP22),
                };
                ensure!(r.is_ok() == (sa == sb), "agg-verify", "signers {:?} against keys {:?}: {}", a, b, r.is_ok());
                Ok(())
            },
            |i| format!("{:?} against {:?}", lists[(i / nl) as usize], lists[(i % nl) as usize]),
        );
    }
    // larger collections: every size
    let big = c.pick(140u64, 600);
    c.par(
        "collections of every size",
        big,
        4,
        |i| {
            let ks: Vec<usize> = (0..i as usize).map(|j| (j * 7 + i as usize) % 6).collect();
            let w: i64 = ks.iter().map(|k| val(*k)).sum();
            ensure!(*Signature::aggregate(ks.iter().map(|k| &e1[*k])).as_ref() == g1(w), "sig-sum", "{} signatures", i);
            ensure!(*PublicKey::aggregate(ks.iter().map(|k| &e2[*k])).as_ref() == g2(w), "key-sum", "{} keys", i);
            Ok(())
        },
        |i| format!("{} elements", i),
    );
    // and very large ones
    let sizes: Vec<usize> = if c.thorough() { vec![1000, 1024, 1025, 4097, 10001, 32769, 65536, 65537, 140001] } else { vec![1000, 1025, 4097, 10001, 20001, 65537] };
    c.par(
        "very large collections",
        sizes.len() as u64 * 2,
        2,
        |i| {
            let n = sizes[i as usize / 2];
            // the second pattern: everything is zero except near the end
            let at = |j: usize| if i % 2 == 0 { (j * 7 + j / 6 + n) % 6 } else if j + 3 >= n { 5 - (n - j) } else { 0 };
            let w: i64 = (0..n).map(|j| val(at(j))).sum();
            ensure!(*Signature::aggregate((0..n).map(|j| &e1[at(j)])).as_ref() == g1(w), "sig-sum", "{} signatures", n);
            ensure!(*PublicKey::aggregate((0..n).map(|j| &e2[at(j)])).as_ref() == g2(w), "key-sum", "{} keys", n);
            Ok(())
        },
        |i| format!("{} elements, pattern {}", sizes[i as usize / 2], i % 2),
    );
}

// ------------------------------------------------------------------------------------- C12
pub fn c12(c: &Check) {
    let g = G1Projective::prime_subgroup_generator();
    let mul = |k: Fr| g.mul(k.into_repr());
    let keyv: Vec<Fr> = vec![Fr::one(), Fr::from(2u64), -Fr::one()];
    let pks: Vec<PublicKey> = keyv.iter().enumerate().map(|(i, k)| PublicKey::from(if i == 1 { unnorm2(G2Projective::prime_subgroup_generator().mul(k.into_repr()), 4) } else { G2Projective::prime_subgroup_generator().mul(k.into_repr()) })).collect();
    let texts: Vec<(&[u8], &[u8])> = vec![(b"a", b""), (b"b", b""), (b"a", b"x")];
    let opts = (keyv.len() * texts.len()) as u64;
    // one case: entries (key, text), a domain, and every candidate signature
    let chk = |s: &[usize], dom: &[u8]| -> CaseResult {
        let ks: Vec<&PublicKey> = s.iter().map(|e| &pks[e % 3]).collect();
        let ms: Vec<(&[u8], &[u8])> = s.iter().map(|e| texts[e / 3]).collect();
        let hs: Vec<Fr> = ms.iter().map(|m| scalar_of(dom, m.0, m.1)).collect();
        let hp: Vec<G1Projective> = hs.iter().enumerate().map(|(i, h)| if i % 2 == 0 { mul(*h) } else { unnorm1(mul(*h), 3) }).collect();
        let right: Fr = s.iter().zip(&hs).map(|(e, h)| keyv[e % 3] * h).sum();
        let mut cands = vec![right, right + Fr::one(), -right, Fr::zero()];
        for (e, h) in s.iter().zip(&hs) {
            cands.push(right - keyv[e % 3] * h);
            cands.push(right + keyv[e % 3] * h);
        }
        // keys or messages exchanged between entries
        if s.len() >= 2 {
            cands.push(keyv[s[0] % 3] * hs[1] + keyv[s[1] % 3] * hs[0] + s.iter().zip(&hs).skip(2).map(|(e, h)| keyv[e % 3] * h).sum::<Fr>());
            cands.push(right + keyv[s[0] % 3] * hs[1]);
        }
        // another domain
        cands.push(s.iter().map(|e| keyv[e % 3] * scalar_of(if dom == SIG_DOMAIN { POP_DOMAIN } else { SIG_DOMAIN }, texts[e / 3].0, texts[e / 3].1)).sum());
        cands.sort();
        cands.dedup();
        for k in cands {
            let sig = Signature::from(mul(k));
            let a = sig.batch_verify(&ks, dom, &ms, &ScalarHasher);
            let b = sig.batch_verify_hashes(&ks, &hp);
            ensure!(a.is_ok() == (k == right), "batch-verify", "entries {:?} domain {}: {} for a signature that is {}", s, hex(dom), a.is_ok(), k == right);
            ensure!(b.is_ok() == (k == right), "batch-hashes", "entries {:?}: {} for a signature that is {}", s, b.is_ok(), k == right);
            if k != right {
                ensure!(matches!(a, Err(BLSError::VerificationFailed)) && matches!(b, Err(BLSError::VerificationFailed)), "batch-error", "a wrong signature gives another error");
            }
        }
        Ok(())
    };
    let maxn = c.pick(2usize, 3);
    for n in 0..=maxn {
        c.par("every list of (key, message, extra) x candidate signatures", opts.pow(n as u32), 2 * (8 + 2 * n as u64), |i| chk(&seq(i, opts, n), if i % 2 == 0 { SIG_DOMAIN } else { b"other" }), |i| format!("{:?}", seq(i, opts, n)));
    }
    if !c.thorough() {
        c.par("lists of 3 entries (every second)", opts.pow(3) / 2, 28, |i| chk(&seq(2 * i + (i / 7) % 2, opts, 3), SIG_DOMAIN), |i| format!("{:?}", seq(2 * i + (i / 7) % 2, opts, 3)));
    }
    for n in 4..=c.pick(7usize, 24) {
        c.par("longer lists", 3, 20, |i| chk(&(0..n).map(|j| (j * 5 + i as usize * 3) % opts as usize).collect::<Vec<_>>(), POP_DOMAIN), |i| format!("{} entries, pattern {}", n, i));
    }
    // large batches: everything near a power of two, one wrong entry at every explored position
    let sizes: Vec<usize> = if c.thorough() { vec![31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2050] } else { vec![33, 65, 129, 257, 513, 1025] };
    c.par(
        "large batches: one wrong entry, one entry too many on one side",
        sizes.len() as u64 * 3,
        6,
        |i| {
            let n = sizes[(i / 3) as usize];
            let pos = [0, n / 2 + 1, n - 1][(i % 3) as usize];
            let dom: &[u8] = if i % 2 == 0 { SIG_DOMAIN } else { b"other" };
            // distinct messages
            let data: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|j| (format!("message {}", j).into_bytes(), if j % 3 == 0 { vec![j as u8] } else { vec![] })).collect();
            let ms: Vec<(&[u8], &[u8])> = data.iter().map(|d| (&d.0[..], &d.1[..])).collect();
            let ks: Vec<&PublicKey> = (0..n).map(|j| &pks[j % 3]).collect();
            let hs: Vec<Fr> = ms.iter().map(|m| scalar_of(dom, m.0, m.1)).collect();
            let hp: Vec<G1Projective> = hs.iter().map(|h| mul(*h)).collect();
            let right: Fr = (0..n).map(|j| keyv[j % 3] * hs[j]).sum();
            for (k, what) in [(right, "correct"), (right - keyv[pos % 3] * hs[pos], "missing one entry"), (right + Fr::one(), "wrong")] {
                let sig = Signature::from(mul(k));
                let (a, b) = (sig.batch_verify(&ks, dom, &ms, &ScalarHasher), sig.batch_verify_hashes(&ks, &hp));
                ensure!(a.is_ok() == (k == right), "batch-verify", "{} entries, {} (position {}): {}", n, what, pos, a.is_ok());
                ensure!(b.is_ok() == (k == right), "batch-hashes", "{} entries, {} (position {}): {}", n, what, pos, b.is_ok());
            }
            let sig = Signature::from(mul(right));
            ensure!(matches!(sig.batch_verify(&ks[..n - 1], dom, &ms, &ScalarHasher), Err(BLSError::UnevenNumKeysMessages)), "uneven", "{} keys, {} messages", n - 1, n);
            ensure!(matches!(sig.batch_verify_hashes(&ks, &hp[..n - 1]), Err(BLSError::UnevenNumKeysMessages)), "uneven", "{} keys, {} hashes", n, n - 1);
            Ok(())
        },
        |i| format!("{} entries, position {}", sizes[(i / 3) as usize], i % 3),
    );
    // lists of different lengths
    let m = 5u64;
    c.par(
        "every pair of list lengths",
        m * m * 3,
        2,
        |i| {
            let (a, b) = ((i % m) as usize, (i / m % m) as usize);
            let ks: Vec<PublicKey> = (0..a).map(|j| pks[j % 3].clone()).collect();
            let ms: Vec<(&[u8], &[u8])> = (0..b).map(|j| texts[j % 3]).collect();
            let hs: Vec<Fr> = ms.iter().map(|m| scalar_of(SIG_DOMAIN, m.0, m.1)).collect();
            let hp: Vec<G1Projective> = hs.iter().map(|h| mul(*h)).collect();
            // signature valid for the common prefix, for nothing, or for everything that can be paired cyclically
            let k: Fr = match i / m / m {
                0 => (0..a.min(b)).map(|j| keyv[j % 3] * hs[j]).sum(),
                1 => Fr::zero(),
                _ => (0..a.max(b)).filter(|j| b > 0 && a > 0 && *j < 99).map(|j| keyv[(j % a) % 3] * hs[j % b]).sum(),
            };
            let sig = Signature::from(mul(k));
            let r1 = sig.batch_verify(&ks, SIG_DOMAIN, &ms, &ScalarHasher);
            let r2 = sig.batch_verify_hashes(&ks, &hp);
            if a != b {
                ensure!(matches!(r1, Err(BLSError::UnevenNumKeysMessages)), "uneven", "{} keys, {} messages: {:?}", a, b, r1.map_err(|e| e.to_string()));
                ensure!(matches!(r2, Err(BLSError::UnevenNumKeysMessages)), "uneven", "{} keys, {} hashes: {:?}", a, b, r2.map_err(|e| e.to_string()));
            } else {
                let right: Fr = (0..a).map(|j| keyv[j % 3] * hs[j]).sum();
                ensure!(r1.is_ok() == (right == k) && r2.is_ok() == (right == k), "batch-verify", "equal lengths {}", a);
            }
            Ok(())
        },
        |i| format!("{} keys, {} messages", i % m, i / m % m),
    );
    // an unhashable message anywhere
    c.par(
        "an unhashable message at every position",
        10,
        1,
        |i| {
            let n = 1 + (i / 4) as usize;
            let at = (i % 4) as usize % n;
            let ms: Vec<(&[u8], &[u8])> = (0..n).map(|j| if j == at { (&b"unhashable"[..], &b""[..]) } else { texts[0] }).collect();
            let ks: Vec<PublicKey> = (0..n).map(|j| if j == at { PublicKey::from(G2Projective::zero()) } else { pks[0].clone() }).collect();
            let k = scalar_of(SIG_DOMAIN, texts[0].0, texts[0].1) * Fr::from(n as u64 - 1);
            let r = Signature::from(mul(k)).batch_verify(&ks, SIG_DOMAIN, &ms, &ScalarHasher);
            ensure!(r.is_err(), "unhashable", "accepted with an unhashable message");
            Ok(())
        },
        |i| format!("{}", i),
    );
    // real hashers
    c.par(
        "real hashers: lists of up to 3 entries",
        36,
        3,
        |i| {
            let n = (i % 4) as usize;
            let h = (i / 4 % 3) as usize;
            let sk: Vec<PrivateKey> = (0..n).map(|j| PrivateKey::from(Fr::from(3 + j as u64 + i))).collect();
            let ks: Vec<PublicKey> = sk.iter().map(|s| s.to_public()).collect();
            let data: Vec<(Vec<u8>, Vec<u8>)> = (0..n).map(|j| (pat(j + 1, i), pat((i as usize / 12) * j, 7))).collect();
            let ms: Vec<(&[u8], &[u8])> = data.iter().map(|d| (&d.0[..], &d.1[..])).collect();
            macro_rules! go {
                ($h:expr) => {{
                    let s: Vec<Signature> = sk.iter().zip(&ms).map(|(k, m)| k.sign(m.0, m.1, $h).unwrap()).collect();
                    let a = Signature::aggregate(&s);
                    ensure!(a.batch_verify(&ks, SIG_DOMAIN, &ms, $h).is_ok(), "real", "valid batch rejected");
                    ensure!(a.batch_verify(&ks, POP_DOMAIN, &ms, $h).is_ok() == (n == 0), "real", "batch accepted in another domain");
                    if n > 0 {
                        let a = Signature::aggregate(&s[..n - 1]);
                        ensure!(a.batch_verify(&ks, SIG_DOMAIN, &ms, $h).is_err(), "real", "batch with a missing signature accepted");
                    }
                }};
            }
            match h {
                0 => go!(&*DIRECT_HASH_TO_G1),
                1 => go!(&*COMPOSITE_HASH_TO_G1),
                _ => go!(&*COMPOSITE_HASH_TO_G1_CIP22),
            }
            Ok(())
        },
        |i| format!("{}", i),
    );
}

// ------------------------------------------------------------------------------------- C13
pub fn c13(c: &Check) {
    let g = G1Projective::prime_subgroup_generator();
    let mul = |k: Fr| g.mul(k.into_repr());
    let sk = |j: usize| Fr::from([3u64, 7, 3, 19, 2, 5][j % 6]);
    let pk = |j: usize| PrivateKey::from(sk(j)).to_public();
    let h = scalar_of(SIG_DOMAIN, b"m", b"x");
    let errs: [i64; 5] = [0, 1, -1, 2, -2];
    let build = |d: &[i64]| -> Batch {
        let mut b = Batch::new(b"m", b"x");
        for (j, e) in d.iter().enumerate() {
            b.add(pk(j), Signature::from(mul((sk(j) + fr(*e)) * h)));
        }
        b
    };
    let maxn = c.pick(3usize, 4);
    for n in 0..=maxn {
        c.par(
            "every pattern of valid and invalid signatures (errors that cancel included)",
            5u64.pow(n as u32),
            4,
            |i| {
                let d: Vec<i64> = seq(i, 5, n).into_iter().map(|k| errs[k]).collect();
                let b = build(&d);
                let good = d.iter().all(|e| *e == 0);
                ensure!(b.verify(&ScalarHasher).is_ok() == good, "strict", "errors {:?}: strict batch {}", d, if good { "rejected" } else { "accepted" });
                ensure!(b.verify_each(&ScalarHasher).is_ok() == good, "each", "errors {:?}: individual verification {}", d, if good { "rejected" } else { "accepted" });
                ensure!(b.verify(&ScalarHasher).is_ok() == good, "strict", "errors {:?}: second run differs", d);
                Ok(())
            },
            |i| format!("errors {:?}", seq(i, 5, n).into_iter().map(|k| errs[k]).collect::<Vec<_>>()),
        );
    }
    // sizes
    c.par(
        "every batch size, valid / one invalid / two cancelling",
        c.pick(20, 70) * 3,
        3,
        |i| {
            let n = (i / 3) as usize;
            let mut d = vec![0; n];
            if i % 3 >= 1 && n > 0 {
                d[n / 2] = 1;
            }
            if i % 3 == 2 && n > 1 {
                d[n - 1] -= 1;
            }
            let good = d.iter().all(|e| *e == 0);
            let b = build(&d);
            ensure!(b.verify(&ScalarHasher).is_ok() == good, "strict", "{} entries, errors {:?}", n, d);
            ensure!(b.verify_each(&ScalarHasher).is_ok() == good, "each", "{} entries, errors {:?}", n, d);
            Ok(())
        },
        |i| format!("{} entries, kind {}", i / 3, i % 3),
    );
    // the message, the extra data and the hasher are those of the batch
    let texts: [&[u8]; 4] = [b"", b"m", b"x", b"mx"];
    c.par(
        "message and extra data of the batch",
        4 * 4 * 4 * 4,
        2,
        |i| {
            let i = i as usize;
            let (m1, e1, m2, e2) = (texts[i % 4], texts[i / 4 % 4], texts[i / 16 % 4], texts[i / 64]);
            let mut b = Batch::new(m1, e1);
            for j in 0..2 {
                b.add(pk(j), PrivateKey::from(sk(j)).sign(m2, e2, &ScalarHasher).unwrap());
            }
            let good = m1 == m2 && e1 == e2;
            ensure!(b.verify(&ScalarHasher).is_ok() == good, "message", "batch ({:?},{:?}) signatures ({:?},{:?})", m1, e1, m2, e2);
            ensure!(b.verify_each(&ScalarHasher).is_ok() == good, "message", "individually: batch ({:?},{:?}) signatures ({:?},{:?})", m1, e1, m2, e2);
            Ok(())
        },
        |i| format!("{}", i),
    );
    c.case("domain", || {
        let mut b = Batch::new(b"m", b"");
        b.add(pk(0), PrivateKey::from(sk(0)).sign_pop(b"m", &ScalarHasher).unwrap());
        ensure!(b.verify(&ScalarHasher).is_err() && b.verify_each(&ScalarHasher).is_err(), "domain", "proof of possession accepted in a batch");
        let mut b = Batch::new(b"unhashable", b"");
        b.add(PublicKey::from(G2Projective::zero()), Signature::from(G1Projective::zero()));
        ensure!(b.verify(&ScalarHasher).is_err() && b.verify_each(&ScalarHasher).is_err(), "unhashable", "unhashable message accepted");
        Ok(())
    });
    c.count("other domain, unhashable message", 2, 2);
    // permuted signatures between entries
    for n in 2..=4usize {
        let ps = mc_common::permutations(n);
        c.par(
            "signatures permuted between entries",
            ps.len() as u64,
            2,
            |i| {
                let p = &ps[i as usize];
                let mut b = Batch::new(b"m", b"x");
                for j in 0..n {
                    b.add(pk(j), Signature::from(mul(sk(p[j]) * h)));
                }
                let good = (0..n).all(|j| sk(j) == sk(p[j]));
                ensure!(b.verify(&ScalarHasher).is_ok() == good, "permuted", "{:?}", p);
                ensure!(b.verify_each(&ScalarHasher).is_ok() == good, "permuted", "individually {:?}", p);
                Ok(())
            },
            |i| format!("{:?}", ps[i as usize]),
        );
    }
    // weights: explore the generator's output. All bytes zero except one bit: a bit that can make
    // the verdict of a cancelling batch differ is a bit of some entry's weight.
    let drawn = |d: &[i64], set: Option<usize>, one: u8| -> (bool, usize) {
        let total = std::rc::Rc::new(RefCell::new(0usize));
        let t2 = total.clone();
        let s: rand::Script = Box::new(move |b: &mut [u8]| {
            let mut t = t2.borrow_mut();
            for x in b.iter_mut() {
                *x = match set {
                    Some(p) if *t == p => one,
                    _ if *t < 4096 => 0,
                    _ => (*t as u8).wrapping_mul(167) ^ (*t >> 8) as u8,
                };
                *t += 1;
            }
        });
        let b = build(d);
        let r = rand::with_script(s, || b.verify(&ScalarHasher).is_ok());
        let n = *total.borrow();
        (r, n)
    };
    for d in [vec![1i64], vec![1, -1], vec![-1, 1, 0], vec![1, 0, -1], vec![1, 1, -2]] {
        let (_, n) = drawn(&d, None, 0);
        let bad = d.iter().filter(|e| **e != 0).count();
        if n == 0 {
            c.note("weights are not drawn from rand::thread_rng; their bits were not enumerated");
            continue;
        }
        let matter = std::sync::atomic::AtomicU64::new(0);
        c.par(
            "every single bit of the random weights",
            (n as u64).min(600) * 8,
            1,
            |i| {
                let (acc, _) = drawn(&d, Some((i / 8) as usize), 1 << (i % 8));
                if !acc {
                    matter.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
                Ok(())
            },
            |i| format!("errors {:?} bit {} of {}", d, i, n * 8),
        );
        let m = matter.into_inner();
        c.case("weight entropy", || {
            ensure!(m >= 128 * bad as u64, "entropy", "errors {:?}: only {} bits of the generator's output can reveal the {} invalid signatures (128 each needed)", d, m, bad);
            Ok(())
        });
    }
    // large batches: an invalid signature anywhere, and errors of two entries that would cancel under
    // equal weights (every pair up to a size, beyond it every distance and every position)
    let pool: Vec<(PublicKey, [G1Projective; 3])> =
        (0..6).map(|j| (pk(j), [-1i64, 0, 1].map(|e| mul((sk(j) + fr(e)) * h)))).collect();
    let quick_build = |n: usize, d: &[(usize, i64)]| -> Batch {
        let mut b = Batch::new(b"m", b"x");
        for j in 0..n {
            let e = d.iter().find(|x| x.0 == j).map_or(0, |x| x.1);
            b.add(pool[j % 6].0.clone(), Signature::from(pool[j % 6].1[(e + 1) as usize]));
        }
        b
    };
    let sizes: Vec<usize> = c.pick(vec![24, 33, 65, 130, 258, 520, 1030], vec![24, 33, 65, 130, 258, 520, 1030, 2050, 4100]);
    let full = c.pick(65usize, 258);
    let mut l: Vec<(usize, Vec<(usize, i64)>)> = vec![];
    for &n in &sizes {
        l.push((n, vec![]));
        let at: Vec<usize> = if n <= full { (0..n).collect() } else { vec![0, 1, 63, n / 3, n / 2, n - 2, n - 1] };
        l.extend(at.iter().map(|&a| (n, vec![(a, if a % 2 == 0 { 1 } else { -1 })])));
        for &a in &at {
            for b in a + 1..n {
                let k = b - a;
                let near = k < 4 || k.is_power_of_two() && k > 8 || k % 100 == 0;
                if n <= full || (near && (n < 300 || a == 0 || a == n / 3)) || a + b == n - 1 {
                    l.push((n, vec![(a, 1), (b, -1)]));
                }
            }
        }
    }
    c.par(
        "large batches: one invalid entry, two cancelling entries",
        l.len() as u64,
        1,
        |i| {
            let (n, d) = &l[i as usize];
            ensure!(quick_build(*n, d).verify(&ScalarHasher).is_ok() == d.is_empty(), "large", "{} entries, errors {:?}: wrong verdict", n, d);
            Ok(())
        },
        |i| format!("{} entries, errors {:?}", l[i as usize].0, l[i as usize].1),
    );
    c.par(
        "large batches, individually",
        sizes.len() as u64 * 8,
        1,
        |i| {
            let n = sizes[(i / 8) as usize];
            let d = match i % 8 {
                0 => vec![],
                1 => vec![(0, 1)],
                2 => vec![(n - 1, 1)],
                3 => vec![(n / 2, -1)],
                4 => vec![(0, 1), (n - 1, -1)],
                5 => vec![(n - 2, 1), (n - 1, -1)],
                6 => vec![(n / 3, 1)],
                _ => vec![(n / 2, -1), (n / 2 + 1, 1)],
            };
            ensure!(quick_build(n, &d).verify_each(&ScalarHasher).is_ok() == d.is_empty(), "large", "{} entries, errors {:?}: wrong verdict of individual verification", n, d);
            Ok(())
        },
        |i| format!("{} entries, kind {}", sizes[(i / 8) as usize], i % 8),
    );
    // in a large batch every weight has its 128 bits too: find the bytes that matter, count their bits
    let mut l: Vec<(usize, usize)> = vec![];
    for &n in &sizes[..c.pick(6, 7)] {
        l.extend(c.pick(vec![(n, n - 1)], vec![(n, 0), (n, n / 2), (n, n - 1)]));
    }
    c.par(
        "the bits behind one weight of a large batch",
        l.len() as u64,
        1,
        |i| {
            let (n, a) = l[i as usize];
            // verdict when the bytes from..to are `v` and all others zero; how many bytes were drawn
            let run = |from: usize, to: usize, v: u8| -> (bool, usize) {
                let total = std::rc::Rc::new(std::cell::Cell::new(0usize));
                let t2 = total.clone();
                let s: rand::Script = Box::new(move |b: &mut [u8]| {
                    for x in b.iter_mut() {
                        let t = t2.get();
                        // a weight that is drawn again when it is zero ends some time
                        *x = if t >= from && t < to { v } else if t < 40 * n { 0 } else { (t as u8).wrapping_mul(167) ^ (t >> 8) as u8 };
                        t2.set(t + 1);
                    }
                });
                let b = quick_build(n, &[(a, 1)]);
                let r = rand::with_script(s, || b.verify(&ScalarHasher).is_ok());
                (r, total.get())
            };
            let (zero, bytes) = run(0, 0, 0);
            if bytes == 0 || !zero {
                // weights from another source, or never zero: the spaces above decide
                return Ok(());
            }
            let (mut bits, mut at) = (0, 0);
            while at < bytes {
                if !run(at, at + 64, 0xff).0 || !run(at, at + 64, 0x55).0 {
                    for p in at..(at + 64).min(bytes) {
                        bits += (0..8).filter(|k| !run(p, p + 1, 1 << k).0).count();
                    }
                }
                at += 64;
            }
            ensure!(bits >= 128, "entropy", "{} entries: only {} bits of the generator's output can reveal an invalid signature at {} (128 needed)", n, bits, a);
            Ok(())
        },
        |i| format!("{:?}", l[i as usize]),
    );
    // weighted sums
    let ws: Vec<Fr> = vec![Fr::zero(), Fr::one(), Fr::from(2u64), -Fr::one(), lambda()];
    let es: [i64; 4] = [0, 1, -1, 2];
    let nn = 20u64;
    for n in 0..=c.pick(2usize, 3) {
        c.par(
            "every weighted combination",
            nn.pow(n as u32),
            2,
            |i| {
                let s = seq(i, nn, n);
                let w: Vec<Fr> = s.iter().map(|k| ws[k % 5]).collect();
                let e: Vec<i64> = s.iter().map(|k| es[k / 5]).collect();
                let sum: Fr = w.iter().zip(&e).map(|(w, e)| *w * fr(*e)).sum();
                let k = PublicKey::batch(&w, e.iter().enumerate().map(|(j, e)| PublicKey::from(if j == 1 { unnorm2(g2(*e), 2) } else { g2(*e) })));
                let q = Signature::batch(&w, e.iter().enumerate().map(|(j, e)| Signature::from(if j == 1 { unnorm1(g1(*e), 2) } else { g1(*e) })));
                ensure!(k.as_ref().map(|k| *k.as_ref()) == Some(G2Projective::prime_subgroup_generator().mul(sum.into_repr())), "weighted-keys", "weights {:?} elements {:?}", s, e);
                ensure!(q.as_ref().map(|k| *k.as_ref()) == Some(mul(sum)), "weighted-sigs", "weights {:?} elements {:?}", s, e);
                Ok(())
            },
            |i| format!("{:?}", seq(i, nn, n)),
        );
    }
    let sizes: Vec<usize> = if c.thorough() { vec![4, 8, 16, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1024, 1025, 2050] } else { vec![8, 33, 65, 129, 257, 513, 1025] };
    c.par(
        "large weighted combinations with weights of every width",
        sizes.len() as u64 * 4,
        2,
        |i| {
            let n = sizes[(i / 4) as usize];
            let w: Vec<Fr> = (0..n)
                .map(|j| match (i % 4, j % 5) {
                    (0, _) | (3, 0) => Fr::from_le_bytes_mod_order(&pat(32, j as u64 + i)),
                    (1, _) | (3, 1) => Fr::from_le_bytes_mod_order(&pat(16, j as u64 + i)),
                    (2, _) => -Fr::from(j as u64 * j as u64 % 7),
                    (_, 2) => Fr::from(2u64).pow([(j * 37 % 252) as u64]),
                    _ => Fr::from(j as u64),
                })
                .collect();
            let e: Vec<i64> = (0..n).map(|j| ((j * 13 + i as usize) % 9) as i64 - 4).collect();
            let sum: Fr = w.iter().zip(&e).map(|(w, e)| *w * fr(*e)).sum();
            let (t1, t2): (Vec<Signature>, Vec<PublicKey>) = ((-4..=4).map(|k| Signature::from(g1(k))).collect(), (-4..=4).map(|k| PublicKey::from(g2(k))).collect());
            let k = PublicKey::batch(&w, e.iter().map(|e| t2[(e + 4) as usize].clone()));
            let q = Signature::batch(&w, e.iter().map(|e| t1[(e + 4) as usize].clone()));
            ensure!(k.as_ref().map(|k| *k.as_ref()) == Some(G2Projective::prime_subgroup_generator().mul(sum.into_repr())), "weighted-keys", "{} keys, weights of kind {}", n, i % 4);
            ensure!(q.as_ref().map(|k| *k.as_ref()) == Some(mul(sum)), "weighted-sigs", "{} signatures, weights of kind {}", n, i % 4);
            ensure!(PublicKey::batch(&w[..n - 1], e.iter().map(|e| t2[(e + 4) as usize].clone())).is_none(), "lengths", "{} weights, {} keys", n - 1, n);
            ensure!(Signature::batch(&w, e[1..].iter().map(|e| t1[(e + 4) as usize].clone())).is_none(), "lengths", "{} weights, {} signatures", n, n - 1);
            Ok(())
        },
        |i| format!("{} elements, weights of kind {}", sizes[(i / 4) as usize], i % 4),
    );
    c.par(
        "every pair of lengths of weights and elements",
        36,
        2,
        |i| {
            let (a, b) = ((i % 6) as usize, (i / 6) as usize);
            let w: Vec<Fr> = (0..a).map(|j| Fr::from(j as u64 + 1)).collect();
            let k = PublicKey::batch(&w, (0..b).map(pk));
            let q = Signature::batch(&w, (0..b).map(|j| Signature::from(g1(j as i64))));
            ensure!(k.is_some() == (a == b), "lengths", "{} weights, {} keys: {}", a, b, k.is_some());
            ensure!(q.is_some() == (a == b), "lengths", "{} weights, {} signatures: {}", a, b, q.is_some());
            Ok(())
        },
        |i| format!("{} weights, {} elements", i % 6, i / 6),
    );
}

// ------------------------------------------------------------------------------------- C14
#[derive(Clone, Copy, Debug, PartialEq)]
enum CacheOp {
    Decode(usize),
    Aggregate(usize),
    Clear,
}
pub fn c14(c: &Check) {
    c.assume("within one aggregated list a key is always given in one projective representation (keys that were decoded are; representations may differ between calls)");
    // keys: two ordinary ones, the negation of the first, one with the same y, the identity
    let lam = lambda();
    let kv: Vec<G2Projective> = vec![g2(3), g2(8), -g2(3), g2(3).mul(lam.into_repr()), G2Projective::zero()];
    assert!(kv[0].into_affine().y == kv[3].into_affine().y);
    let keys: Vec<PublicKey> = kv.iter().map(|k| PublicKey::from(norm2(*k))).collect();
    let alt: Vec<PublicKey> = kv.iter().map(|k| PublicKey::from(unnorm2(*k, 6))).collect();
    // encodings: valid, truncated, off-curve, wrong subgroup, trailing byte, alternative identity
    let good: Vec<Vec<u8>> = keys.iter().map(ser).collect();
    let mut off = good[0].clone();
    let mut outside = good[0].clone();
    for k in 1..=255u8 {
        let mut b = good[0].clone();
        b[0] ^= k;
        match decode_x::<g2::Parameters>(&b, b[95] & 0x80 != 0, false) {
            Dec::Point(_) => outside = b,
            _ => off = b,
        }
    }
    assert!(off != good[0] && outside != good[0]);
    let mut data: Vec<Vec<u8>> = vec![good[0].clone(), good[1].clone(), good[2].clone(), off, outside, good[0][..95].to_vec(), [&good[0][..], &[0]].concat(), vec![]];
    data.push(good[4].clone());
    let lists: Vec<Vec<usize>> = vec![
        vec![],
        vec![0],
        vec![1],
        vec![0, 1],
        vec![1, 0],
        vec![0, 0],
        vec![0, 2],
        vec![0, 3],
        vec![3],
        vec![0, 1, 2, 3, 4],
        vec![1, 1, 0, 1],
        vec![4, 4],
    ];
    let mut ops: Vec<CacheOp> = (0..data.len()).map(CacheOp::Decode).collect();
    // lists of the alternative representation follow the ordinary ones
    ops.extend((0..2 * lists.len()).filter(|i| *i < lists.len() || [1, 3, 7].contains(&(i - lists.len()))).map(CacheOp::Aggregate));
    ops.push(CacheOp::Clear);
    let dec: Vec<Option<PublicKey>> = data.iter().map(|d| PublicKey::deserialize(&mut &d[..]).ok()).collect();
    let dec_err: Vec<String> = data.iter().map(|d| PublicKey::deserialize(&mut &d[..]).err().map(|e| format!("{:?}", e)).unwrap_or_default()).collect();
    let sums: Vec<G2Projective> = (0..2 * lists.len())
        .map(|i| {
            let l = &lists[i % lists.len()];
            (0..5).filter(|k| l.contains(k)).map(|k| kv[k]).sum()
        })
        .collect();
    let step = |cache: &mut PublicKeyCache, op: CacheOp| -> CaseResult {
        match op {
            CacheOp::Decode(i) => {
                let r = cache.deserialize(data[i].clone());
                match (&r, &dec[i]) {
                    (Ok(a), Some(b)) => {
                        ensure!(a == b, "decode", "input {} decodes to another key through the cache", i);
                        ensure!(ser(a) == ser(b), "decode", "input {} decodes to another key through the cache", i);
                    }
                    (Err(e), None) => ensure!(format!("{:?}", e) == dec_err[i], "decode", "input {}: error {:?}, without the cache {}", i, e, dec_err[i]),
                    (a, b) => ensure!(false, "decode", "input {}: cache {} direct {}", i, a.is_ok(), b.is_some()),
                }
            }
            CacheOp::Aggregate(i) => {
                let src = if i < lists.len() { &keys } else { &alt };
                let r = cache.aggregate(lists[i % lists.len()].iter().map(|k| src[*k].clone()).collect());
                ensure!(*r.as_ref() == sums[i], "aggregate", "list {:?} does not give the sum of its distinct keys", lists[i % lists.len()]);
                ensure!(*cache.combined.as_ref() == sums[i], "combined", "the stored aggregate differs from the answer");
            }
            CacheOp::Clear => cache.clear_cache(),
        }
        Ok(())
    };
    let depth = c.pick(4usize, 5);
    let n = ops.len() as u64;
    c.par(
        &format!("every history of {} operations out of {}", depth, n),
        n.pow(depth as u32),
        depth as u64,
        |i| {
            let mut cache = if i % 2 == 0 { PublicKeyCache::new() } else { PublicKeyCache::default() };
            for k in seq(i, n, depth) {
                step(&mut cache, ops[k])?;
            }
            Ok(())
        },
        |i| format!("{:?}", seq(i, n, depth).into_iter().map(|k| ops[k]).collect::<Vec<_>>()),
    );
    // long histories: every pair (previous list, next list) reached through every third one, with clears
    let nl = lists.len() as u64;
    c.par(
        "every chain of 3 lists with and without clearing",
        nl.pow(3) * 4,
        5,
        |i| {
            let mut cache = PublicKeyCache::new();
            for (j, k) in seq(i / 4, nl, 3).into_iter().enumerate() {
                step(&mut cache, CacheOp::Aggregate(k))?;
                if i % 4 == j as u64 {
                    step(&mut cache, CacheOp::Clear)?;
                    step(&mut cache, CacheOp::Decode(j))?;
                }
            }
            Ok(())
        },
        |i| format!("{:?}", seq(i / 4, nl, 3)),
    );
    // eviction: more keys than the cache holds
    let m = 700u64;
    let enc: Vec<(Vec<u8>, PublicKey)> = {
        let mut v = vec![];
        let mut p = g2(1);
        for _ in 0..m {
            p += g2(1);
            let k = PublicKey::from(norm2(p));
            v.push((ser(&k), k));
        }
        v
    };
    c.par(
        "decoding 700 keys in several orders, each many times (beyond the 512 entries kept)",
        8,
        2100,
        |i| {
            let mut cache = PublicKeyCache::new();
            for round in 0..3u64 {
                for j in 0..m {
                    let k = match i {
                        0 => j,
                        1 => m - 1 - j,
                        2 => j * 37 % m,
                        3 => j / 2,
                        4 => (j * 511) % m,
                        5 => if j % 3 == 0 { 0 } else { j },
                        6 => (j + round * 300) % m,
                        _ => (j * j) % m,
                    } as usize;
                    let r = cache.deserialize(enc[k].0.clone());
                    ensure!(r.as_ref().ok() == Some(&enc[k].1), "evict", "key {} in order {} round {}", k, i, round);
                }
                if round == 1 {
                    cache.deserialize(vec![1; 96]).map(|_| ()).unwrap_or(());
                    let l: Vec<PublicKey> = (0..m as usize).filter(|j| (j + i as usize) % 2 == 0).map(|j| enc[j].1.clone()).collect();
                    let w: G2Projective = l.iter().map(|k| *k.as_ref()).sum();
                    ensure!(*cache.aggregate(l).as_ref() == w, "evict", "aggregate of many keys");
                }
            }
            Ok(())
        },
        |i| format!("order {}", i),
    );
    // large set changes
    c.par(
        "large sets, every pair of neighbouring windows",
        c.pick(16, 60),
        2,
        |i| {
            let mut cache = PublicKeyCache::new();
            for r in 0..4u64 {
                let (a, b) = (((i * 13 + r * 5) % 60) as usize, ((i * 7 + r * 40) % 100) as usize);
                let l: Vec<PublicKey> = (a..a + b).rev().map(|j| enc[j].1.clone()).collect();
                let w: G2Projective = l.iter().map(|k| *k.as_ref()).sum();
                ensure!(*cache.aggregate(l).as_ref() == w, "windows", "window {}+{}", a, b);
            }
            Ok(())
        },
        |i| format!("{}", i),
    );
    // lists of thousands of keys, with changes at the ends
    let sizes: Vec<usize> = if c.thorough() { vec![500, 512, 513, 1000, 1001, 1023, 1024, 1025, 2049, 4097, 8200] } else { vec![513, 1001, 1025, 2049, 4100] };
    let all: Vec<G2Projective> = {
        let mut v = vec![];
        let mut p = g2(5);
        for _ in 0..*sizes.last().unwrap() + 2 {
            p += g2(3);
            v.push(norm2(p));
        }
        v
    };
    c.par(
        "lists of thousands of keys",
        sizes.len() as u64 * 2,
        6,
        |i| {
            let n = sizes[i as usize / 2];
            let mut cache = PublicKeyCache::new();
            let lists = [
                (0..n).collect::<Vec<usize>>(),
                (1..n + 1).collect(),
                (1..n - 1).rev().collect(),
                (0..n / 2).chain(n / 2 + 1..n).collect(),
                vec![n, 0],
                (0..n + 2).chain(0..3).collect(),
            ];
            for (r, l) in lists.iter().enumerate() {
                if i % 2 == 1 && r % 2 == 0 {
                    cache.clear_cache();
                }
                let mut d = l.clone();
                d.sort();
                d.dedup();
                let w: G2Projective = d.iter().map(|j| all[*j]).sum();
                ensure!(*cache.aggregate(l.iter().map(|j| PublicKey::from(all[*j])).collect()).as_ref() == w, "aggregate", "list {} of {} keys", r, l.len());
            }
            Ok(())
        },
        |i| format!("{} keys, clearing {}", sizes[i as usize / 2], i % 2 == 1),
    );
}

// ------------------------------------------------------------------------------------- C15
pub fn c15(c: &Check) {
    let fr_mod = <Fr as PrimeField>::Params::MODULUS;
    let le = |b: &BigInteger256| -> Vec<u8> { b.0.iter().flat_map(|l| l.to_le_bytes()).collect() };
    // private keys: bytes around every interesting number
    let mut nums: Vec<Vec<u8>> = vec![];
    let mut put = |v: Vec<u8>| nums.push(v);
    for d in 0..40u64 {
        put(le(&BigInteger256::from(d)));
        let mut m = fr_mod;
        m.0[0] = m.0[0].wrapping_add(d).wrapping_sub(20);
        if d < 20 && fr_mod.0[0] < 20 - d {
            for l in 1..4 {
                if m.0[l] == 0 { m.0[l] = u64::MAX } else { m.0[l] -= 1; break }
            }
        }
        put(le(&m));
    }
    for b in 0..256usize {
        let mut v = vec![0u8; 32];
        v[b / 8] = 1 << (b % 8);
        put(v.clone());
        let mut w = le(&fr_mod);
        w[b / 8] ^= 1 << (b % 8);
        put(w);
        let mut w = pat(32, b as u64);
        put(w.clone());
        w[31] &= 0x12;
        put(w);
    }
    put(vec![0xff; 32]);
    let lt = |v: &[u8]| -> bool {
        let m = le(&fr_mod);
        for i in (0..32).rev() {
            if v[i] != m[i] {
                return v[i] < m[i];
            }
        }
        false
    };
    c.par(
        "private keys: every explored number and every truncation",
        nums.len() as u64,
        36,
        |i| {
            let v = &nums[i as usize];
            match PrivateKey::deserialize(&mut &v[..]) {
                Ok(k) => {
                    ensure!(lt(v), "sk-range", "out-of-range key {} accepted", hex(v));
                    ensure!(le(&k.as_ref().into_repr()) == *v, "sk-value", "{} decodes to another key", hex(v));
                    ensure!(ser(&k) == *v && k.serialized_size() == 32, "sk-roundtrip", "{} encodes to {}", hex(v), hex(&ser(&k)));
                    let u = ser_u(&k);
                    ensure!(u.len() == 32 && PrivateKey::deserialize_uncompressed(&mut &u[..]).map(|q| *q.as_ref()).ok() == Some(*k.as_ref()), "sk-uncompressed", "{}", hex(v));
                    ensure!(PrivateKey::from(*k.as_ref()).as_ref() == k.as_ref(), "sk-from", "from");
                }
                Err(_) => ensure!(!lt(v), "sk-reject", "key {} rejected", hex(v)),
            }
            for l in 0..32 {
                ensure!(PrivateKey::deserialize(&mut &v[..l]).is_err(), "sk-trunc", "{} bytes accepted", l);
            }
            let mut r = &[&v[..], &[9, 9]].concat()[..];
            if PrivateKey::deserialize(&mut r).is_ok() {
                ensure!(r == [9, 9], "sk-consumed", "decoding consumes {} bytes", 34 - r.len());
            }
            Ok(())
        },
        |i| hex(&nums[i as usize]),
    );
    // a point of the group: both encodings, sizes, representation independence
    let n = c.pick(120u64, 2000);
    let mults: Vec<i64> = (0..n as i64 / 2).flat_map(|k| [k, -k]).collect();
    c.par(
        "public keys and signatures: round trip in both forms, independent of representation",
        n,
        16,
        |i| {
            let k = mults[i as usize];
            let (a, b) = (PublicKey::from(g2(k)), PublicKey::from(unnorm2(g2(k), i)));
            enc_ok(&a, &b, a.as_ref().into_affine(), 96, 192, "pk", |p: &PublicKey| p.as_ref().into_affine())?;
            let (a, b) = (Signature::from(g1(k)), Signature::from(unnorm1(g1(k), i)));
            enc_ok(&a, &b, a.as_ref().into_affine(), 48, 96, "sig", |p: &Signature| p.as_ref().into_affine())
        },
        |i| format!("multiple {}", mults[i as usize]),
    );
    let tr = c.pick(4u64, 12);
    c.par(
        "public keys and signatures: every truncation",
        tr * 192,
        4,
        |i| {
            let k = [1i64, 0, -7, 12345, 3, -1, 9, 10, 11, 12, 13, 14][(i / 192) as usize];
            let l = (i % 192) as usize;
            let (p, s) = (PublicKey::from(g2(k)), Signature::from(g1(k)));
            let t = |v: Vec<u8>| v[..l.min(v.len() - 1)].to_vec();
            ensure!(PublicKey::deserialize(&mut &t(ser(&p))[..]).is_err(), "pk-trunc", "{} bytes of a compressed key", l);
            ensure!(PublicKey::deserialize_uncompressed(&mut &t(ser_u(&p))[..]).is_err(), "pk-trunc", "{} bytes of an uncompressed key", l);
            ensure!(Signature::deserialize(&mut &t(ser(&s))[..]).is_err(), "sig-trunc", "{} bytes of a compressed signature", l);
            ensure!(Signature::deserialize_uncompressed(&mut &t(ser_u(&s))[..]).is_err(), "sig-trunc", "{} bytes of an uncompressed signature", l);
            Ok(())
        },
        |i| format!("{} bytes", i % 192),
    );
    // arbitrary compressed encodings: edge coordinates x flags
    let mut x1: Vec<Vec<u8>> = vec![];
    for d in 0..c.pick(60u64, 400) {
        x1.push(ark_bls12_377::Fq::from(d).encode());
        x1.push((-ark_bls12_377::Fq::from(d + 1)).encode());
    }
    for k in 1..40i64 {
        x1.push(g1(k).into_affine().x.encode());
    }
    let pm: Vec<u8> = <ark_bls12_377::Fq as PrimeField>::modulus_limbs().iter().flat_map(|l| l.to_le_bytes()).collect();
    for d in 0..4u8 {
        let mut v = pm.clone();
        v[0] += d;
        x1.push(v);
    }
    x1.push({ let mut v = vec![0xff; 48]; v[47] = 1; v });
    let nx = x1.len() as u64;
    // flag bits: 0 and 0x80 (sign); spare bits 1..5 make the coordinate out of range; with the
    // infinity bit 0x40 the identity or an error, with both an error
    let flags: Vec<u8> = vec![0, 0x80, 2, 4, 8, 0x10, 0x20, 0x82, 0xa0, 0x40, 0x42, 0xc0, 0xc2];
    let nf = flags.len() as u64;
    c.par(
        "signatures: edge coordinates x flag bytes",
        nx * nf,
        2,
        |i| {
            let mut b = x1[(i / nf) as usize].clone();
            let f = flags[(i % nf) as usize];
            b[47] |= f;
            let want = if f & 0x3e != 0 { None } else { in_group::<g1::Parameters>(&b, f & 0x80 != 0) };
            let got = Signature::deserialize(&mut &b[..]).ok();
            if f & 0x40 != 0 {
                ensure!(got.as_ref().map_or(true, |s| f & 0x80 == 0 && s.as_ref().is_zero()), "sig-infinity", "{} (infinity bit) decodes to {:?}", hex(&b), got.as_ref().map(|x| x.as_ref().into_affine()));
                return Ok(());
            }
            ensure!(got.as_ref().map(|s| s.as_ref().into_affine()) == want, "sig-decode", "{} decodes to {:?} want {:?}", hex(&b), got.as_ref().map(|x| x.as_ref().into_affine()), want);
            Ok(())
        },
        |i| format!("{} | {:02x}", hex(&x1[(i / nf) as usize]), flags[(i % nf) as usize]),
    );
    let mut x2: Vec<Vec<u8>> = vec![];
    for i in 0..x1.len() {
        x2.push([x1[i].clone(), x1[(i * 7 + 1) % x1.len()].clone()].concat());
    }
    for k in 1..30i64 {
        x2.push(g2(k).into_affine().x.encode());
        // a point of the curve outside the group
    }
    let nx2 = x2.len() as u64;
    c.par(
        "public keys: edge coordinates x flag bytes",
        nx2 * nf,
        2,
        |i| {
            let mut b = x2[(i / nf) as usize].clone();
            let f = flags[(i % nf) as usize];
            b[95] |= f;
            let want = if f & 0x3e != 0 { None } else { in_group::<g2::Parameters>(&b, f & 0x80 != 0) };
            let got = PublicKey::deserialize(&mut &b[..]).ok();
            if f & 0x40 != 0 {
                ensure!(got.as_ref().map_or(true, |s| f & 0x80 == 0 && s.as_ref().is_zero()), "pk-infinity", "{} (infinity bit) decodes to {:?}", hex(&b), got.as_ref().map(|x| x.as_ref().into_affine()));
                return Ok(());
            }
            ensure!(got.as_ref().map(|s| s.as_ref().into_affine()) == want, "pk-decode", "{} decodes to {:?} want {:?}", hex(&b), got.as_ref().map(|x| x.as_ref().into_affine()), want);
            // junk above the lower coordinate
            let mut j = x2[(i / nf) as usize].clone();
            j[47] |= if f == 0 { 0x40 } else { f };
            ensure!(PublicKey::deserialize(&mut &j[..]).is_err(), "pk-range", "out-of-range coordinate {} accepted", hex(&j));
            Ok(())
        },
        |i| format!("{} | {:02x}", hex(&x2[(i / nf) as usize]), flags[(i % nf) as usize]),
    );
    // uncompressed: points off the curve, outside the group, out-of-range coordinates
    c.par(
        "uncompressed encodings: one coordinate replaced",
        40 * 12,
        2,
        |i| {
            let k = (i / 12) as i64 + 1;
            let s = ser_u(&Signature::from(g1(k)));
            let p = ser_u(&PublicKey::from(g2(k)));
            let mut bs = s.clone();
            let mut bp = p.clone();
            let j = (i % 12) as usize;
            match j {
                0..=3 => {
                    // another coordinate of the same curve: off the curve (or a different valid point never)
                    let o = ser_u(&Signature::from(g1(k + 50 + j as i64)));
                    let q = ser_u(&PublicKey::from(g2(k + 50 + j as i64)));
                    if j % 2 == 0 {
                        bs[..48].copy_from_slice(&o[..48]);
                        bp[..96].copy_from_slice(&q[..96]);
                    } else {
                        bs[48..].copy_from_slice(&o[48..]);
                        bp[96..].copy_from_slice(&q[96..]);
                    }
                }
                4..=7 => {
                    let at = [0usize, 13, 60, 90][j - 4];
                    bs[at] ^= 1 << (j - 3);
                    bp[2 * at] ^= 1 << (j - 3);
                }
                8 => {
                    bs[..48].copy_from_slice(&pm);
                    bp[..48].copy_from_slice(&pm);
                }
                9 => {
                    bs[47] |= 2 << (k % 5);
                    bp[143] |= 2 << (k % 5);
                }
                _ => {
                    // a curve point outside the group
                    let mut x = 3 + k as u64 * 17;
                    loop {
                        let b = [ark_bls12_377::Fq::from(x).encode(), ark_bls12_377::Fq::from(x).encode()].concat();
                        x += 1;
                        if let (Dec::Point(a), Dec::Point(b)) = (decode_x::<g1::Parameters>(&b[..48], j == 10, false), decode_x::<g2::Parameters>(&b, j == 10, false)) {
                            if !a.into_projective().mul(order()).is_zero() && !b.into_projective().mul(order()).is_zero() {
                                bs = [a.x.encode(), a.y.encode()].concat();
                                bp = [b.x.encode(), b.y.encode()].concat();
                                break;
                            }
                        }
                    }
                }
            }
            ensure!(Signature::deserialize_uncompressed(&mut &bs[..]).is_err(), "sig-unc", "signature {} accepted", hex(&bs));
            ensure!(PublicKey::deserialize_uncompressed(&mut &bp[..]).is_err(), "pk-unc", "key {} accepted", hex(&bp));
            ensure!(Signature::deserialize_uncompressed(&mut &s[..]).is_ok() && PublicKey::deserialize_uncompressed(&mut &p[..]).is_ok(), "unc", "valid uncompressed encoding rejected");
            Ok(())
        },
        |i| format!("multiple {}, change {}", i / 12 + 1, i % 12),
    );
    let _ = caught(|| ());
}
fn in_group<P: Curve>(b: &[u8], larger: bool) -> Option<sw::GroupAffine<P>> {
    match decode_x::<P>(b, larger, false) {
        Dec::Point(p) if p.into_projective().mul(order()).is_zero() => Some(p),
        _ => None,
    }
}
fn enc_ok<T: CanonicalSerialize + CanonicalDeserialize, A: AffineCurve>(a: &T, b: &T, want: A, size: usize, usize_: usize, what: &str, aff: impl Fn(&T) -> A) -> CaseResult {
    let (x, u) = (ser(a), ser_u(a));
    ensure!(x.len() == size && a.serialized_size() == size, format!("{}-size", what), "{} compressed bytes", x.len());
    ensure!(u.len() == usize_, format!("{}-size", what), "{} uncompressed bytes", u.len());
    ensure!(ser(b) == x && ser_u(b) == u, format!("{}-repr", what), "the encoding depends on the representation");
    let mut r = &[&x[..], &[7, 7, 7]].concat()[..];
    let d = T::deserialize(&mut r).map_err(|e| viol(format!("{}-decode", what), format!("own encoding rejected: {:?}", e)))?;
    ensure!(aff(&d) == want && r == [7, 7, 7], format!("{}-decode", what), "own encoding decodes to something else");
    let d = T::deserialize_uncompressed(&mut &u[..]).map_err(|e| viol(format!("{}-decode", what), format!("own uncompressed encoding rejected: {:?}", e)))?;
    ensure!(aff(&d) == want, format!("{}-decode", what), "own uncompressed encoding decodes to something else");
    ensure!(ser(&d) == x && ser_u(&d) == u, format!("{}-decode", what), "second encoding differs");
    Ok(())
}
#[allow(unused)]
fn _t(_: G1Affine, _: G2Affine) {}
