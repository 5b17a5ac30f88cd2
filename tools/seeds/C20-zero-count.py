PROP='C20'; TMPL="ark"
NEEDS='a prover who reports zero occurrences'
BREAKS='the number of occurrences is tied to the bitmap only when it is not zero'
EDITS=[('crates/bls-gadgets/src/bitmap.rs', '        let occurrences_var = match occurrences {\n            FpVar::Var(v) => v.variable,\n            _ => unreachable!(),\n        };\n', '        let square = &occurrences * &occurrences;\n        let (occurrences_var, square_var) = match (occurrences, square) {\n            (FpVar::Var(v), FpVar::Var(s)) => (v.variable, s.variable),\n            _ => unreachable!(),\n        };\n'), ('crates/bls-gadgets/src/bitmap.rs', '            occurrences_lc,\n            lc!() + (F::one(), Variable::One),\n            lc!() + occurrences_var,\n', '            occurrences_lc,\n            lc!() + occurrences_var,\n            lc!() + square_var,\n')]
MAIN=r'''use ark_bls12_377::Fq;
use ark_ff::Zero;
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, fields::fp::FpVar};
use ark_relations::r1cs::{with_adversary, Choice, ConstraintSystem};
use bls_gadgets::verif::Bitmap;
fn run() -> bool {
    let cs = ConstraintSystem::<Fq>::new_ref();
    let b: Vec<Boolean<Fq>> = [true, false, false].iter().map(|x| Boolean::new_input(cs.clone(), || Ok(*x)).unwrap()).collect();
    let m = FpVar::new_input(cs.clone(), || Ok(Fq::from(1u64))).unwrap();
    b.enforce_maximum_occurrences_in_bitmap(&m, false).is_ok() && cs.is_satisfied().unwrap()
}
fn main() {
    assert!(!run());
    // the prover claims that there is no occurrence, the first field element he chooses
    let mut done = false;
    let (r, _) = with_adversary(
        Box::new(move |_, k, v| {
            if k == Choice::Field && !done {
                done = true;
                *v.downcast_mut::<Fq>().unwrap() = Fq::zero();
            }
        }),
        false,
        run,
    );
    assert!(!r, "two absences accepted where one is allowed");
}
'''
