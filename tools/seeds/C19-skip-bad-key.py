PROP='C19'; TMPL="ark"
NEEDS='an epoch block with more than eight keys of which one is not a point'
BREAKS='a key that cannot be read is left out of the block instead of refused'
EDITS=[('crates/bls-snark-sys/src/snark/epoch_block.rs', '        let key = G2Affine::deserialize(&mut data)?;\n        let key', '        let key = match G2Affine::deserialize(&mut data) {\n            Ok(key) => key,\n            Err(_) if num > 8 => continue,\n            Err(e) => return Err(e.into()),\n        };\n        let key')]
MAIN=r'''use ark_bls12_377::{Fr, G2Projective};
use ark_ec::ProjectiveCurve;
use ark_ff::PrimeField;
use bls_crypto::PublicKey;
use bls_snark_sys::snark::epoch_block::{serialize_pubkeys, EpochBlockFFI};
use epoch_snark::EpochBlock;
use std::convert::TryFrom;
fn main() {
    let g = G2Projective::prime_subgroup_generator();
    for n in [2usize, 12] {
        let keys: Vec<PublicKey> = (0..n as u64).map(|k| PublicKey::from(g.mul(Fr::from(k + 2).into_repr()))).collect();
        let mut bytes = serialize_pubkeys(&keys).unwrap();
        let block = |b: &[u8]| {
            let f = EpochBlockFFI { index: 1, round: 0, epoch_entropy: std::ptr::null(), parent_entropy: std::ptr::null(), pubkeys: b.as_ptr(), pubkeys_num: n, maximum_non_signers: 1, maximum_validators: n };
            EpochBlock::try_from(&f).map(|b| b.new_public_keys).ok()
        };
        assert!(block(&bytes) == Some(keys));
        for x in 0..96 {
            bytes[96 + x] = 0xff;
        }
        assert!(block(&bytes).is_none(), "a key that is no point, {} keys", n);
    }
}
'''
