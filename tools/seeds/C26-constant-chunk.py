PROP='C26'; TMPL="ark"
NEEDS='a chunk made of constants only and a prover who packs something else'
BREAKS='a chunk without variables is not compared with its packed value'
EDITS=[('crates/epoch-snark/src/gadgets/pack.rs', '            let fp_bits = fp.to_bits_be()?;\n', '            // nothing to constrain for constants\n            if chunk.iter().all(|bit| bit.is_constant()) {\n                packed.push(fp);\n                continue;\n            }\n            let fp_bits = fp.to_bits_be()?;\n')]
MAIN=r'''use ark_bls12_377::{Fq, FqParameters};
use ark_r1cs_std::{alloc::AllocVar, boolean::Boolean, R1CSVar};
use ark_relations::r1cs::{with_adversary, ConstraintSystem};
use epoch_snark::verif::MultipackGadget;
fn main() {
    let run = || {
        let cs = ConstraintSystem::<Fq>::new_ref();
        let mut bits: Vec<Boolean<Fq>> = (0..4).map(|i| Boolean::new_input(cs.clone(), || Ok(i % 2 == 0)).unwrap()).collect();
        bits.extend((0..4).map(|_| Boolean::constant(false)));
        let p = MultipackGadget::pack::<Fq, FqParameters>(&bits, 4, false).unwrap();
        (cs.is_satisfied().unwrap(), p.iter().map(|x| x.value().unwrap()).collect::<Vec<_>>())
    };
    let honest = run();
    assert!(honest.0);
    let mut n = 0;
    let (r, _) = with_adversary(
        Box::new(move |_, _, v| {
            if let Some(x) = v.downcast_mut::<Fq>() {
                n += 1;
                if n == 2 {
                    *x = Fq::from(5u64)
                }
            }
        }),
        false,
        run,
    );
    assert!(!r.0 || r.1 == honest.1, "constants packed into another value");
}
'''
