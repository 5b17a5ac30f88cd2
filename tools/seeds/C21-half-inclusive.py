PROP='C21'; TMPL="ark"
NEEDS='the element (p-1)/2'
BREAKS='(p-1)/2 counts as larger than half'
EDITS=[('crates/bls-gadgets/src/y_to_bit.rs', '                let bit = Boolean::new_witness(self.cs(), || Ok(self.value()? > half))?;\n', '                let bit = Boolean::new_witness(self.cs(), || Ok(self.value()? >= half))?;\n'), ('crates/bls-gadgets/src/y_to_bit.rs', '                    let adjusted = if el > half { el - &half } else { el };\n', '                    let adjusted = if el >= half { el - &half } else { el };\n')]
MAIN=r'''use ark_bls12_377::Fq;
use ark_ff::PrimeField;
use ark_r1cs_std::{alloc::AllocVar, fields::fp::FpVar, R1CSVar};
use ark_relations::r1cs::ConstraintSystem;
use bls_gadgets::FpUtils;
fn main() {
    let half = Fq::from_repr(Fq::modulus_minus_one_div_two()).unwrap();
    for (x, want) in [(half, false), (half + Fq::from(1u64), true), (half - Fq::from(1u64), false)] {
        let cs = ConstraintSystem::<Fq>::new_ref();
        let v = FpVar::new_input(cs.clone(), || Ok(x)).unwrap();
        let b = v.normalize().unwrap();
        assert!(cs.is_satisfied().unwrap());
        assert_eq!(b.value().unwrap(), want, "{}", x);
    }
}
'''
