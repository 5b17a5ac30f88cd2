//! Reference encodings of epoch blocks (C19, C24, C25, C27) and the checks on native encodings.
use crate::o::*;
use ark_bls12_377::{Fq, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::{PrimeField, Zero};
use bls_crypto::PublicKey;
use epoch_snark::EpochBlock;
use mc_common::{caught, ensure, shex, viol, CaseResult, Check};
use std::collections::HashMap;
use std::sync::Mutex;

pub fn le_bits(v: u64, n: usize) -> Vec<bool> {
    (0..n).map(|i| v >> i & 1 == 1).collect()
}
fn fq_bit(x: &Fq, i: usize) -> bool {
    let r = x.into_repr();
    r.0[i / 64] >> (i % 64) & 1 == 1
}
/// x (two coordinates, 377 bits each, most significant first) and the sign of y.
pub fn pk_bits(p: &G2Projective) -> Vec<bool> {
    let a = p.into_affine();
    let mut v = vec![];
    for c in [&a.x.c0, &a.x.c1] {
        v.extend((0..377).rev().map(|i| fq_bit(c, i)));
    }
    // larger of y and -y, compared by c1 and then by c0
    let big = |c: &Fq| -> bool {
        let (a, b) = (c.key(), (-*c).key());
        a > b
    };
    v.push(if a.y.c1.is_zero() { big(&a.y.c0) } else { big(&a.y.c1) });
    v
}
pub fn entropy_bits(e: &Option<Vec<u8>>) -> Vec<bool> {
    match e {
        None => vec![false; 128],
        Some(e) => (0..128).map(|i| e[i / 8] >> (i % 8) & 1 == 1).collect(),
    }
}
pub fn pks_bits(b: &EpochBlock, pad: bool) -> Vec<bool> {
    let mut v = vec![];
    for k in &b.new_public_keys {
        v.extend(pk_bits(k.as_ref()));
    }
    if pad {
        for _ in b.new_public_keys.len()..b.maximum_validators {
            v.extend(pk_bits(&G2Projective::prime_subgroup_generator()));
        }
    }
    v
}
/// A bit string read as one number, its last bit the least significant one, in little-endian bytes.
pub fn to_bytes(bits: &[bool]) -> Vec<u8> {
    let n = bits.len();
    let mut v = vec![0u8; (n + 7) / 8];
    for i in 0..n {
        if bits[n - 1 - i] {
            v[i / 8] |= 1 << (i % 8)
        }
    }
    v
}
pub fn first_bits(b: &EpochBlock) -> Vec<bool> {
    [le_bits(b.index as u64, 16), entropy_bits(&b.parent_entropy), le_bits(b.maximum_non_signers as u64, 32), pks_bits(b, true)].concat()
}
pub fn last_bits(b: &EpochBlock) -> Vec<bool> {
    [le_bits(b.index as u64, 16), entropy_bits(&b.epoch_entropy), le_bits(b.maximum_non_signers as u64, 32), pks_bits(b, true)].concat()
}
pub fn last_apk_bits(b: &EpochBlock) -> Vec<bool> {
    // all the slots of the circuit, the unused ones hold the generator
    let unused = b.maximum_validators.saturating_sub(b.new_public_keys.len());
    let apk = b.new_public_keys.iter().map(|k| *k.as_ref()).chain((0..unused).map(|_| G2Projective::prime_subgroup_generator())).fold(G2Projective::zero(), |a, k| a + &k);
    [last_bits(b), pk_bits(&apk)].concat()
}
pub fn plain_bits(b: &EpochBlock) -> Vec<bool> {
    [le_bits(b.index as u64, 16), le_bits(b.maximum_non_signers as u64, 32), pks_bits(b, false)].concat()
}
pub fn inner_bits(b: &EpochBlock) -> (Vec<bool>, Vec<bool>) {
    (
        [entropy_bits(&b.epoch_entropy), entropy_bits(&b.parent_entropy), pks_bits(b, true)].concat(),
        [le_bits(b.index as u64, 16), le_bits(b.round as u64, 8), le_bits(b.maximum_non_signers as u64, 32)].concat(),
    )
}
/// BLAKE2s-256 personalised to ULforout, as bits least significant first.
pub fn out_hash(bytes: &[u8]) -> Vec<bool> {
    let mut pb = mc_common::b2s::Pb::sequential(32).bytes();
    pb[24..32].copy_from_slice(b"ULforout");
    let h = mc_common::b2s::Pb::hash_block(&pb, bytes);
    (0..256).map(|i| h[i / 8] >> (i % 8) & 1 == 1).collect()
}
pub fn keys(ks: &[i64]) -> Vec<PublicKey> {
    ks.iter().map(|k| PublicKey::from(g2(*k))).collect()
}
/// Chunks of 376 bits, most significant first, one field element each.
pub fn pack_ref(bits: &[bool]) -> Vec<ark_bw6_761::Fr> {
    use ark_ff::Field;
    bits.chunks(376)
        .map(|ch| ch.iter().fold(ark_bw6_761::Fr::zero(), |a, b| a.double() + ark_bw6_761::Fr::from(*b as u64)))
        .collect()
}

// ------------------------------------------------------------------------------------------------ C24
/// What an encoding mode is meant to determine.
type Canon = (u16, u8, Vec<u8>, Vec<u8>, u32, Vec<Vec<u8>>);
fn canon(b: &EpochBlock, round: bool, e: bool, p: bool, mx: bool, idx: bool, ks: bool, pad: bool) -> Canon {
    let ent = |o: &Option<Vec<u8>>, on: bool| if on { o.clone().unwrap_or(vec![0; 16]) } else { vec![] };
    let mut k: Vec<Vec<u8>> = if ks { b.new_public_keys.iter().map(|k| ser(k)).collect() } else { vec![] };
    if ks && pad {
        while k.len() < b.maximum_validators {
            k.push(ser(&PublicKey::from(g2(1))))
        }
    }
    (if idx { b.index } else { 0 }, if round { b.round } else { 0 }, ent(&b.epoch_entropy, e), ent(&b.parent_entropy, p), if mx { b.maximum_non_signers } else { 0 }, k)
}
pub fn show(b: &EpochBlock) -> String {
    let h = |e: &Option<Vec<u8>>| e.as_ref().map(|e| mc_common::hex(e)).unwrap_or("none".into());
    format!(
        "index {} round {} epoch entropy {} parent entropy {} maximum non-signers {} maximum validators {} keys [{}]",
        b.index,
        b.round,
        h(&b.epoch_entropy),
        h(&b.parent_entropy),
        b.maximum_non_signers,
        b.maximum_validators,
        b.new_public_keys.iter().map(|k| shex(&ser(k)[..8])).collect::<Vec<_>>().join(",")
    )
}
const MODES: [&str; 6] = ["plain", "first", "last", "inner", "extra", "last with aggregate key"];
struct Seen([Mutex<HashMap<[u8; 32], Canon>>; 6]);
impl Seen {
    fn put(&self, mode: usize, bytes: &[u8], c: Canon) -> CaseResult {
        // (a 256-bit digest of the encoding stands for it)
        let mut d = [0u8; 32];
        d.copy_from_slice(&mc_common::b2s::Pb::hash_block(&mc_common::b2s::Pb::sequential(32).bytes(), bytes)[..32]);
        let mut m = self.0[mode].lock().unwrap();
        if let Some(o) = m.get(&d) {
            ensure!(*o == c, "collision", "the {} encoding of {:?} and of {:?} is the same: {}", MODES[mode], o, c, shex(bytes));
            return Ok(());
        }
        m.insert(d, c);
        Ok(())
    }
}
fn c24_block(b: &EpochBlock, seen: &Seen) -> CaseResult {
    macro_rules! eqb {
        ($name:expr, $got:expr, $want:expr) => {{
            let (g, w) = (caught(|| $got), $want);
            match g {
                Ok(Ok(g)) => ensure!(g == w, $name, "{} differs from the specified layout at {:?} (lengths {} and {})", $name, g.iter().zip(w.iter()).position(|(a, b)| a != b), g.len(), w.len()),
                g => return Err(viol($name, format!("{} fails: {:?}", $name, g.map(|r| r.map(|_| ()))))),
            }
        }};
    }
    let (inner, extra) = inner_bits(b);
    let (pl, fi, la, lk) = (plain_bits(b), first_bits(b), last_bits(b), last_apk_bits(b));
    eqb!("encode_to_bits", b.encode_to_bits(), pl.clone());
    eqb!("encode_to_bytes", b.encode_to_bytes(), to_bytes(&pl));
    eqb!("encode_last_epoch_to_bits_with_aggregated_pk_cip22", b.encode_last_epoch_to_bits_with_aggregated_pk_cip22(), lk.clone());
    eqb!("encode_first_epoch_to_bytes_cip22", b.encode_first_epoch_to_bytes_cip22(), to_bytes(&fi));
    eqb!("encode_last_epoch_to_bytes_with_aggregated_pk_cip22", b.encode_last_epoch_to_bytes_with_aggregated_pk_cip22(), to_bytes(&lk));
    eqb!("encode_inner_to_bits_cip22 (inner)", b.encode_inner_to_bits_cip22().map(|x| x.0), inner.clone());
    eqb!("encode_inner_to_bits_cip22 (extra data)", b.encode_inner_to_bits_cip22().map(|x| x.1), extra.clone());
    eqb!("encode_inner_to_bytes_cip22 (inner)", b.encode_inner_to_bytes_cip22().map(|x| x.0), to_bytes(&inner));
    eqb!("encode_inner_to_bytes_cip22 (extra data)", b.encode_inner_to_bytes_cip22().map(|x| x.1), to_bytes(&extra));
    eqb!("blake2_first_epoch_cip22", b.blake2_first_epoch_cip22(), out_hash(&to_bytes(&fi)));
    eqb!("blake2_last_epoch_with_aggregated_pk_cip22", b.blake2_last_epoch_with_aggregated_pk_cip22(), out_hash(&to_bytes(&lk)));
    // injectivity, on what the implementation returned (equal to the references by now)
    seen.put(0, &to_bytes(&pl), canon(b, false, false, false, true, true, true, false))?;
    seen.put(1, &to_bytes(&fi), canon(b, false, false, true, true, true, true, true))?;
    seen.put(2, &to_bytes(&la), canon(b, false, true, false, true, true, true, true))?;
    seen.put(3, &to_bytes(&inner), canon(b, false, true, true, false, false, true, true))?;
    seen.put(4, &to_bytes(&extra), canon(b, true, false, false, true, true, false, false))?;
    // (the keys, padding included, determine their sum)
    seen.put(5, &to_bytes(&lk), canon(b, false, true, false, true, true, true, true))
}
/// Every block that differs from `b` in one bit of one field.
pub fn neighbours(b: &EpochBlock) -> Vec<EpochBlock> {
    let mut v = vec![];
    for i in 0..16 {
        v.push(EpochBlock { index: b.index ^ 1 << i, ..b.clone() })
    }
    for i in 0..8 {
        v.push(EpochBlock { round: b.round ^ 1 << i, ..b.clone() })
    }
    for i in 0..32 {
        v.push(EpochBlock { maximum_non_signers: b.maximum_non_signers ^ 1 << i, ..b.clone() })
    }
    for i in 0..128 {
        let f = |e: &Option<Vec<u8>>| {
            let mut e = e.clone().unwrap_or(vec![0; 16]);
            e[i / 8] ^= 1 << (i % 8);
            Some(e)
        };
        v.push(EpochBlock { epoch_entropy: f(&b.epoch_entropy), ..b.clone() });
        v.push(EpochBlock { parent_entropy: f(&b.parent_entropy), ..b.clone() });
    }
    v.push(EpochBlock { epoch_entropy: b.parent_entropy.clone(), parent_entropy: b.epoch_entropy.clone(), ..b.clone() });
    v.push(EpochBlock { epoch_entropy: None, ..b.clone() });
    v.push(EpochBlock { parent_entropy: None, ..b.clone() });
    let n = b.new_public_keys.len();
    for i in 0..n {
        let mut k = b.new_public_keys.clone();
        k[i] = PublicKey::from(-*k[i].as_ref());
        v.push(EpochBlock { new_public_keys: k.clone(), ..b.clone() });
        k[i] = PublicKey::from(g2(1));
        v.push(EpochBlock { new_public_keys: k.clone(), ..b.clone() });
        k[i] = PublicKey::from(g2(1234 + i as i64));
        v.push(EpochBlock { new_public_keys: k.clone(), ..b.clone() });
        for j in 0..i {
            let mut k = b.new_public_keys.clone();
            k.swap(i, j);
            v.push(EpochBlock { new_public_keys: k, ..b.clone() });
        }
        let mut k = b.new_public_keys.clone();
        k.remove(i);
        v.push(EpochBlock { new_public_keys: k, ..b.clone() });
    }
    let mut k = b.new_public_keys.clone();
    k.push(PublicKey::from(g2(-5)));
    v.push(EpochBlock { new_public_keys: k, ..b.clone() });
    for d in 1..3 {
        v.push(EpochBlock { maximum_validators: b.maximum_validators + d, ..b.clone() });
    }
    v
}
pub fn c24(c: &Check) {
    let seen = Seen(Default::default());
    let pe = |k: u64| Some(pat(16, k));
    // every multiple of the generator up to a bound, both signs: the encoding of one key
    let m = c.pick(256i64, 2048);
    c.par(
        "one key: multiples of the generator",
        2 * m as u64,
        6,
        |i| {
            let k = (i as i64 / 2 + 1) * if i & 1 == 0 { 1 } else { -1 };
            c24_block(&EpochBlock::new(i as u16, i as u8, None, None, i as u32, 1, keys(&[k])), &seen)
        },
        |i| format!("key #{}", i),
    );
    // a product of field values
    let idx = [0u16, 1, 255, 256, 0x7fff, 65535];
    let rounds = [0u8, 1, 127, 128, 255];
    let mut one = vec![0; 16];
    one[15] = 0x80;
    let ents = [None, Some(vec![0; 16]), Some(one), pe(1), Some(vec![255; 16])];
    let mns = [0u32, 1, 255, 65536, u32::MAX];
    let sets: Vec<Vec<i64>> = vec![vec![], vec![1], vec![2], vec![-2], vec![2, 3], vec![3, 2], vec![2, 2], vec![2, 3, -3, 1], vec![5, -6, 7, 8, 9, -10]];
    let maxv = [0usize, 1, 2, 4, 6, 9];
    let dims = [idx.len(), rounds.len(), ents.len(), ents.len(), mns.len(), sets.len(), maxv.len()];
    let block = |mut i: u64| {
        let mut d = [0usize; 7];
        for k in 0..7 {
            d[k] = (i % dims[k] as u64) as usize;
            i /= dims[k] as u64;
        }
        EpochBlock::new(idx[d[0]], rounds[d[1]], ents[d[2]].clone(), ents[d[3]].clone(), mns[d[4]], maxv[d[6]], keys(&sets[d[5]]))
    };
    let total: u64 = dims.iter().map(|d| *d as u64).product();
    let stride = c.pick(1, 1);
    c.par("boundary values of all fields", total / stride, 14, |i| c24_block(&block(i * stride), &seen), |i| show(&block(i * stride)));
    // single-field deviations
    let bases: Vec<EpochBlock> = vec![
        EpochBlock::new(0, 0, None, None, 0, 0, vec![]),
        EpochBlock::new(120, 5, Some(vec![255; 16]), Some(vec![254; 16]), 3, 4, keys(&[2, -3, 4])),
        EpochBlock::new(0xa55a, 0x3c, pe(2), pe(3), 0xdeadbeef, 3, keys(&[11, -12, 13])),
        EpochBlock::new(65535, 255, pe(4), None, u32::MAX, 5, keys(&[1, 21, 21, -21, 1])),
    ];
    let near: Vec<EpochBlock> = bases.iter().flat_map(|b| std::iter::once(b.clone()).chain(neighbours(b))).collect();
    c.par("blocks one field bit or key away from four base blocks", near.len() as u64, 14, |i| c24_block(&near[i as usize], &seen), |i| show(&near[i as usize]));
    // all values of the short fields
    c.par(
        "all indices",
        65536,
        14,
        |i| c24_block(&EpochBlock::new(i as u16, (i % 256) as u8, pe(5), pe(6), 7, 1, keys(&[2])), &seen),
        |i| format!("index {}", i),
    );
    // pairs of deviations
    let two: Vec<EpochBlock> = {
        let b = &bases[2];
        let n1 = neighbours(b);
        let s = c.pick(16, 1);
        n1.iter().step_by(s).flat_map(|x| neighbours(x)).collect()
    };
    c.par("blocks two deviations away from a base block", two.len() as u64, 14, |i| c24_block(&two[i as usize], &seen), |i| show(&two[i as usize]));
    // what is signed, and what the verifier hashes
    let hashed: Vec<&EpochBlock> = near.iter().step_by(c.pick(9, 1)).chain(bases.iter()).collect();
    let points: Mutex<HashMap<Vec<u8>, Canon>> = Mutex::new(HashMap::new());
    c.par(
        "point that is signed for a block",
        hashed.len() as u64,
        1,
        |i| {
            let b = hashed[i as usize];
            let (inner, extra) = inner_bits(b);
            let want = ref_tai::<ark_bls12_377::g1::Parameters>(Inner::Composite, true, true, b"ULforxof", &to_bytes(&inner), &to_bytes(&extra)).map(|x| x.0);
            let got = b.hash_to_g1_cip22().ok();
            ensure!(got == want, "hash_to_g1_cip22", "hash_to_g1_cip22 gives {:?}, expected {:?}", got.map(|p| ser(&p)), want.map(|p| ser(&p)));
            let c = canon(b, true, true, true, true, true, true, true);
            let mut m = points.lock().unwrap();
            let k = ser(&got.unwrap());
            if let Some(o) = m.get(&k) {
                ensure!(*o == c, "collision", "two different blocks are signed as the same point: {:?} and {:?}", o, c);
            }
            m.insert(k, c);
            Ok(())
        },
        |i| show(hashed[i as usize]),
    );
    c.note(format!("distinct encodings per mode: {:?}", seen.0.iter().map(|m| m.lock().unwrap().len()).collect::<Vec<_>>()));
}
