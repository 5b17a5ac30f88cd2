PROP="C13"; TMPL="ark"
NEEDS="a strict batch of more than 64 entries in which the errors of two entries 64 apart cancel"
BREAKS="from the 65th entry on the random weights of the earlier entries are used again"
B="crates/bls-crypto/src/bls/batch.rs"
EDITS=[(B,"            .iter()\n            .map(|(pk, sig)| {","            .iter()\n            .enumerate()\n            .map(|(n, (pk, sig))| {"),
 (B,"        let exponents = self","        // one block of randomness is enough for the whole batch\n        let mut block: Vec<Fr> = Vec::with_capacity(64);\n        let exponents = self"),
 (B,"                // Now that the batch is being","                if n >= 64 {\n                    return block[n % 64];\n                }\n                // Now that the batch is being"),
 (B,"                Fr::from_random_bytes(&random_bytes).unwrap()","                let weight = Fr::from_random_bytes(&random_bytes).unwrap();\n                block.push(weight);\n                weight")]
MAIN='''use bls_crypto::{hash_to_curve::try_and_increment::DIRECT_HASH_TO_G1, PrivateKey, Signature};
use bls_crypto::bls::Batch;
use ark_bls12_377::{Fr, G1Projective};
use ark_ec::ProjectiveCurve;
fn main() {
    let k = PrivateKey::from(Fr::from(5u64));
    let s = *k.sign(b"m", b"", &*DIRECT_HASH_TO_G1).unwrap().as_ref();
    let g = G1Projective::prime_subgroup_generator();
    for bad in [false, true] {
        let mut b = Batch::new(b"m", b"");
        for j in 0..80 {
            let mut t = s;
            if bad && j == 1 { t += g }
            if bad && j == 65 { t -= g }
            b.add(k.to_public(), Signature::from(t));
        }
        assert!(b.verify(&*DIRECT_HASH_TO_G1).is_ok() != bad);
    }
}
'''
