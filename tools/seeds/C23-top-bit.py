PROP='C23'; TMPL="ark"
NEEDS='a prover who uses an x coordinate that differs from the hash in its highest bit'
BREAKS='the highest bit of the x coordinate is not compared with the hash'
EDITS=[('crates/bls-gadgets/src/hash_to_group.rs', '        for (a, b) in compressed_point.iter().zip(x_bits.iter()) {\n', '        for (a, b) in compressed_point\n            .iter()\n            .zip(x_bits.iter())\n            .take(<Bls12_377_Fq as PrimeField>::Params::CAPACITY as usize)\n        {\n'), ('crates/bls-gadgets/src/hash_to_group.rs', 'use ark_ff::{BigInteger, BitIteratorLE, PrimeField};\n', 'use ark_ff::{BigInteger, BitIteratorLE, FpParameters, PrimeField};\n')]
MAIN=r'''use ark_bls12_377::{g1, Fq, G1Projective};
use ark_ec::{short_weierstrass_jacobian::GroupAffine, AffineCurve, ProjectiveCurve};
use ark_ff::{BigInteger, PrimeField};
use ark_r1cs_std::{alloc::AllocVar, uint8::UInt8, R1CSVar};
use ark_relations::r1cs::{with_adversary, ConstraintSystem};
use bls_crypto::hash_to_curve::try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22;
use bls_gadgets::HashToGroupGadget;
fn main() {
    let (mut tried, mut forged) = (0, 0);
    for m in 0u8..40 {
        let msg = [m; 32];
        let (_, counter) = COMPOSITE_HASH_TO_G1_CIP22.hash_with_attempt_cip22(bls_crypto::SIG_DOMAIN, &msg, b"").unwrap();
        let run = || {
            let cs = ConstraintSystem::<Fq>::new_ref();
            let c = UInt8::new_witness(cs.clone(), || Ok(counter as u8)).unwrap();
            let ms: Vec<UInt8<Fq>> = msg.iter().map(|b| UInt8::new_witness(cs.clone(), || Ok(*b)).unwrap()).collect();
            let r = HashToGroupGadget::<ark_bls12_377::Parameters, Fq>::enforce_hash_to_group(c, &ms, &[], true);
            (cs.is_satisfied().unwrap(), r.ok().map(|r| r.0.value().unwrap()))
        };
        let honest = run();
        assert!(honest.0);
        // another point whose x has the highest bit flipped
        let flip = |p: &G1Projective| -> Option<G1Projective> {
            let a = p.into_affine();
            let mut bits = a.x.into_repr().to_bits_le();
            bits.truncate(377);
            bits[376] = !bits[376];
            let x = Fq::from_repr(BigInteger::from_bits_le(&bits))?;
            let large = a.y.into_repr() > Fq::modulus_minus_one_div_two();
            GroupAffine::<g1::Parameters>::get_point_from_x(x, large).map(|q| q.into_projective())
        };
        let found = std::rc::Rc::new(std::cell::Cell::new(false));
        let f = found.clone();
        let (r, _) = with_adversary(
            Box::new(move |_, _, v| {
                if let Some(p) = v.downcast_mut::<G1Projective>() {
                    if let (false, Some(q)) = (f.get(), flip(p)) {
                        *p = q;
                        f.set(true);
                    }
                }
            }),
            false,
            run,
        );
        if found.get() {
            tried += 1;
            if r.0 && r.1 != honest.1 {
                forged += 1;
            }
        }
    }
    assert!(tried > 0);
    assert_eq!(forged, 0, "another point accepted for the message");
}
'''
