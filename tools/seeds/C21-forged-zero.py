PROP='C21'; TMPL="ark"
NEEDS='a prover who lies about whether the second coefficient is zero'
BREAKS='nothing keeps the prover from calling a nonzero element zero'
EDITS=[('crates/bls-gadgets/src/y_to_bit.rs', '                // (lhs * bit == 0)\n                self.cs().enforce_constraint(\n                    LinearCombination::from(self_val.variable),\n                    bit.lc(),\n                    lc!(),\n                )?;\n', '                // (inv * bit == 0)\n                self.cs().enforce_constraint(\n                    match inv_again {\n                        Self::Constant(_) => unreachable!(),\n                        Self::Var(v) => LinearCombination::from(v.variable),\n                    },\n                    bit.lc(),\n                    lc!(),\n                )?;\n'), ('crates/bls-gadgets/src/y_to_bit.rs', '                // (el * inv == 1 - bit)\n', '                let inv_again = inv.clone();\n                // (el * inv == 1 - bit)\n')]
MAIN=r'''use ark_bls12_377::Fq;
use ark_ff::Zero;
use ark_r1cs_std::{alloc::AllocVar, fields::fp::FpVar, R1CSVar};
use ark_relations::r1cs::{with_adversary, ConstraintSystem};
use bls_gadgets::FpUtils;
fn main() {
    let run = || {
        let cs = ConstraintSystem::<Fq>::new_ref();
        let v = FpVar::new_input(cs.clone(), || Ok(Fq::from(7u64))).unwrap();
        let b = v.is_eq_zero().unwrap();
        (cs.is_satisfied().unwrap(), b.value().unwrap())
    };
    assert_eq!(run(), (true, false));
    // says that 7 is zero, with 0 for its inverse
    let (r, _) = with_adversary(
        Box::new(|_, _, v| {
            if let Some(b) = v.downcast_mut::<bool>() {
                *b = true
            } else if let Some(x) = v.downcast_mut::<Fq>() {
                *x = Fq::zero()
            }
        }),
        false,
        run,
    );
    assert_ne!(r, (true, true), "7 accepted as zero");
}
'''
