PROP='C20'; TMPL="ark"
NEEDS='bits that are constants of the circuit'
BREAKS='constant bits of the bitmap are not counted'
EDITS=[('crates/bls-gadgets/src/bitmap.rs', '        for bit in self {\n', '        for bit in self {\n            // constants take no part in the constraints\n            if bit.is_constant() {\n                continue;\n            }\n')]
MAIN=r'''use ark_bls12_377::Fq;
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, fields::fp::FpVar};
use ark_relations::r1cs::ConstraintSystem;
use bls_gadgets::verif::Bitmap;
fn run(free: &[bool], constant: &[bool], max: u64) -> bool {
    let cs = ConstraintSystem::<Fq>::new_ref();
    let mut b: Vec<Boolean<Fq>> = free.iter().map(|x| Boolean::new_witness(cs.clone(), || Ok(*x)).unwrap()).collect();
    b.extend(constant.iter().map(|x| Boolean::constant(*x)));
    let m = FpVar::new_witness(cs.clone(), || Ok(Fq::from(max))).unwrap();
    b.enforce_maximum_occurrences_in_bitmap(&m, false).is_ok() && cs.is_satisfied().unwrap()
}
fn main() {
    assert!(run(&[true, false], &[false, true], 2));
    assert!(!run(&[true, false], &[false, true], 1));
}
'''
