//! Groth16 as an ideal functionality. A proof is a tag on (setup, public inputs) that only `create_proof*`
//! with the matching proving key on a satisfied instance produces; verification recomputes the tag.
use crate::crypto_primitives::snark::*;
use crate::ec::*;
use crate::ff::*;
use crate::relations::*;
use crate::serialize::*;
use rand::{CryptoRng, Rng, RngCore};
use std::collections::hash_map::DefaultHasher;
use std::hash::Hasher;
use std::io::{Read, Write};
use std::marker::PhantomData;
type R<T> = Result<T, SynthesisError>;

macro_rules! record {
    ($n:ident { $($f:ident : $t:ty),* }) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n<E: PairingEngine> { $(pub $f: $t),* }
        impl<E: PairingEngine> CanonicalSerialize for $n<E> {
            fn serialize<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$f.serialize(&mut w)?;)* Ok(()) }
            fn serialized_size(&self) -> usize { 0 $(+ self.$f.serialized_size())* }
            fn serialize_uncompressed<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$f.serialize_uncompressed(&mut w)?;)* Ok(()) }
            fn serialize_unchecked<W: Write>(&self, mut w: W) -> Result<(), SerializationError> { $(self.$f.serialize_unchecked(&mut w)?;)* Ok(()) }
            fn uncompressed_size(&self) -> usize { 0 $(+ self.$f.uncompressed_size())* }
        }
        impl<E: PairingEngine> CanonicalDeserialize for $n<E> {
            fn deserialize<Rd: Read>(mut r: Rd) -> Result<Self, SerializationError> { Ok($n { $($f: CanonicalDeserialize::deserialize(&mut r)?),* }) }
            fn deserialize_uncompressed<Rd: Read>(mut r: Rd) -> Result<Self, SerializationError> { Ok($n { $($f: CanonicalDeserialize::deserialize_uncompressed(&mut r)?),* }) }
            fn deserialize_unchecked<Rd: Read>(mut r: Rd) -> Result<Self, SerializationError> { Ok($n { $($f: CanonicalDeserialize::deserialize_unchecked(&mut r)?),* }) }
        }
    };
}
record!(Proof { a: E::G1Affine, b: E::G2Affine, c: E::G1Affine });
record!(VerifyingKey { alpha_g1: E::G1Affine, beta_g2: E::G2Affine, gamma_g2: E::G2Affine, delta_g2: E::G2Affine, gamma_abc_g1: Vec<E::G1Affine> });
record!(ProvingKey { vk: VerifyingKey<E>, beta_g1: E::G1Affine, delta_g1: E::G1Affine, shape: u64 });
impl<E: PairingEngine> Default for Proof<E> {
    fn default() -> Self {
        Proof { a: E::G1Affine::zero(), b: E::G2Affine::zero(), c: E::G1Affine::zero() }
    }
}
impl<E: PairingEngine> Default for VerifyingKey<E> {
    fn default() -> Self {
        VerifyingKey { alpha_g1: Zero::zero(), beta_g2: Zero::zero(), gamma_g2: Zero::zero(), delta_g2: Zero::zero(), gamma_abc_g1: vec![] }
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct PreparedVerifyingKey<E: PairingEngine> {
    pub vk: VerifyingKey<E>,
}
impl<E: PairingEngine> From<VerifyingKey<E>> for PreparedVerifyingKey<E> {
    fn from(vk: VerifyingKey<E>) -> Self {
        PreparedVerifyingKey { vk }
    }
}
impl<E: PairingEngine> From<PreparedVerifyingKey<E>> for VerifyingKey<E> {
    fn from(p: PreparedVerifyingKey<E>) -> Self {
        p.vk
    }
}
fn small<G: AffineCurve>(x: u64) -> G {
    G::prime_subgroup_generator().mul(G::ScalarField::from(x >> 1 | 1)).into()
}
fn digest<E: PairingEngine>(vk: &VerifyingKey<E>, inputs: &[E::Fr], salt: u8) -> u64 {
    let mut b = vec![salt];
    vk.serialize(&mut b).unwrap();
    inputs.serialize(&mut b).unwrap();
    let mut h = DefaultHasher::new();
    h.write(&b);
    h.finish()
}
pub fn ideal<E: PairingEngine>(vk: &VerifyingKey<E>, inputs: &[E::Fr]) -> Proof<E> {
    Proof { a: small(digest(vk, inputs, 1)), b: small(digest(vk, inputs, 2)), c: small(digest(vk, inputs, 3)) }
}
pub fn generate_random_parameters<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, Rn: Rng>(circuit: C, rng: &mut Rn) -> R<ProvingKey<E>> {
    let cs = ConstraintSystem::new_ref();
    cs.set_optimization_goal(OptimizationGoal::Constraints);
    cs.set_mode(SynthesisMode::Setup);
    circuit.generate_constraints(cs.clone())?;
    let shape = cs.shape();
    let mut id = DefaultHasher::new();
    // the secrets of a setup: alpha, beta, gamma, delta and the evaluation point
    for _ in 0..5 {
        let mut b = vec![];
        E::Fr::rand(rng).serialize(&mut b).unwrap();
        id.write(&b);
    }
    id.write_u64(shape);
    let id = id.finish();
    let vk = VerifyingKey {
        alpha_g1: small(id),
        beta_g2: small(id ^ 2),
        gamma_g2: small(id ^ 4),
        delta_g2: small(id ^ 8),
        gamma_abc_g1: (0..cs.num_instance_variables()).map(|i| small(id ^ (16 + 2 * i as u64))).collect(),
    };
    Ok(ProvingKey { vk, beta_g1: small(id ^ 2), delta_g1: small(id ^ 8), shape })
}
pub fn create_proof_no_zk<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>) -> R<Proof<E>> {
    let cs = ConstraintSystem::new_ref();
    circuit.generate_constraints(cs.clone())?;
    let good = cs.is_satisfied()? && cs.shape() == pk.shape;
    let why = cs.which_is_unsatisfied()?;
    LAST.with(|l| *l.borrow_mut() = (why, cs.shape() == pk.shape).into());
    let inputs: Vec<E::Fr> = cs.borrow().unwrap().instance_assignment[1..].to_vec();
    let mut p = ideal(&pk.vk, &inputs);
    if !good {
        // what an unsatisfied instance yields is a proof that does not verify
        p.c = small(digest(&pk.vk, &inputs, 4));
    }
    Ok(p)
}
thread_local! {
    static LAST: std::cell::RefCell<LastProof> = Default::default();
}
#[derive(Default, Clone, Debug)]
pub struct LastProof {
    pub unsatisfied: Option<String>,
    pub same_shape: bool,
}
impl From<(Option<String>, bool)> for LastProof {
    fn from(x: (Option<String>, bool)) -> Self {
        LastProof { unsatisfied: x.0, same_shape: x.1 }
    }
}
/// Why the last proof created by this thread is (not) valid.
pub fn last_proof() -> LastProof {
    LAST.with(|l| l.borrow().clone())
}
pub fn create_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>>(circuit: C, pk: &ProvingKey<E>, _r: E::Fr, _s: E::Fr) -> R<Proof<E>> {
    create_proof_no_zk(circuit, pk)
}
pub fn create_random_proof<E: PairingEngine, C: ConstraintSynthesizer<E::Fr>, Rn: Rng>(circuit: C, pk: &ProvingKey<E>, _: &mut Rn) -> R<Proof<E>> {
    create_proof_no_zk(circuit, pk)
}
pub fn prepare_verifying_key<E: PairingEngine>(vk: &VerifyingKey<E>) -> PreparedVerifyingKey<E> {
    PreparedVerifyingKey { vk: vk.clone() }
}
pub fn verify_proof<E: PairingEngine>(pvk: &PreparedVerifyingKey<E>, proof: &Proof<E>, inputs: &[E::Fr]) -> R<bool> {
    if inputs.len() + 1 != pvk.vk.gamma_abc_g1.len() {
        return Err(SynthesisError::MalformedVerifyingKey);
    }
    Ok(*proof == ideal(&pvk.vk, inputs))
}
#[derive(Clone, Copy, Debug)]
pub struct Groth16<E: PairingEngine>(PhantomData<E>);
impl<E: PairingEngine> SNARK<E::Fr> for Groth16<E> {
    type ProvingKey = ProvingKey<E>;
    type VerifyingKey = VerifyingKey<E>;
    type Proof = Proof<E>;
    type ProcessedVerifyingKey = PreparedVerifyingKey<E>;
    type Error = SynthesisError;
    fn circuit_specific_setup<C: ConstraintSynthesizer<E::Fr>, Rn: RngCore + CryptoRng>(c: C, rng: &mut Rn) -> R<(ProvingKey<E>, VerifyingKey<E>)> {
        let pk = generate_random_parameters(c, rng)?;
        let vk = pk.vk.clone();
        Ok((pk, vk))
    }
    fn prove<C: ConstraintSynthesizer<E::Fr>, Rn: RngCore + CryptoRng>(pk: &ProvingKey<E>, c: C, _: &mut Rn) -> R<Proof<E>> {
        create_proof_no_zk(c, pk)
    }
    fn process_vk(vk: &VerifyingKey<E>) -> R<PreparedVerifyingKey<E>> {
        Ok(prepare_verifying_key(vk))
    }
    fn verify_with_processed_vk(p: &PreparedVerifyingKey<E>, x: &[E::Fr], proof: &Proof<E>) -> R<bool> {
        verify_proof(p, proof, x)
    }
}
pub mod constraints {
    use super::*;
    use crate::r1cs_std::pairing::PairingVar;
    use crate::r1cs_std::prelude::*;
    use std::borrow::Borrow;
    pub struct ProofVar<E: PairingEngine, P: PairingVar<E, E::Fq>> {
        pub a: P::G1Var,
        pub b: P::G2Var,
        pub c: P::G1Var,
    }
    pub struct VerifyingKeyVar<E: PairingEngine, P: PairingVar<E, E::Fq>> {
        vk: VerifyingKey<E>,
        _p: PhantomData<P>,
    }
    pub struct PreparedVerifyingKeyVar<E: PairingEngine, P: PairingVar<E, E::Fq>> {
        vk: VerifyingKey<E>,
        _p: PhantomData<P>,
    }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> AllocVar<Proof<E>, E::Fq> for ProofVar<E, P> {
        fn new_variable<T: Borrow<Proof<E>>>(cs: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> R<T>, mode: AllocationMode) -> R<Self> {
            let cs = cs.into().cs();
            let p = f().map(|p| p.borrow().clone());
            let g = |e: &SynthesisError| *e;
            let a = p.as_ref().map(|p| p.a.into_projective()).map_err(g);
            let b = p.as_ref().map(|p| p.b.into_projective()).map_err(g);
            let c = p.as_ref().map(|p| p.c.into_projective()).map_err(g);
            Ok(ProofVar {
                a: P::G1Var::new_variable_omit_prime_order_check(cs.clone(), || a, mode)?,
                b: P::G2Var::new_variable_omit_prime_order_check(cs.clone(), || b, mode)?,
                c: P::G1Var::new_variable_omit_prime_order_check(cs, || c, mode)?,
            })
        }
    }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> AllocVar<VerifyingKey<E>, E::Fq> for VerifyingKeyVar<E, P> {
        fn new_variable<T: Borrow<VerifyingKey<E>>>(_: impl Into<Namespace<E::Fq>>, f: impl FnOnce() -> R<T>, mode: AllocationMode) -> R<Self> {
            assert_eq!(mode, AllocationMode::Constant, "only constant verifying keys are modelled");
            Ok(VerifyingKeyVar { vk: f()?.borrow().clone(), _p: PhantomData })
        }
    }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> Clone for ProofVar<E, P> {
        fn clone(&self) -> Self {
            ProofVar { a: self.a.clone(), b: self.b.clone(), c: self.c.clone() }
        }
    }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> Clone for VerifyingKeyVar<E, P> {
        fn clone(&self) -> Self {
            VerifyingKeyVar { vk: self.vk.clone(), _p: self._p.clone() }
        }
    }
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> Clone for PreparedVerifyingKeyVar<E, P> {
        fn clone(&self) -> Self {
            PreparedVerifyingKeyVar { vk: self.vk.clone(), _p: self._p.clone() }
        }
    }
    pub struct Groth16VerifierGadget<E: PairingEngine, P: PairingVar<E, E::Fq>>(PhantomData<(E, P)>);
    impl<E: PairingEngine, P: PairingVar<E, E::Fq>> SNARKGadget<E::Fr, E::Fq, Groth16<E>> for Groth16VerifierGadget<E, P> {
        type ProcessedVerifyingKeyVar = PreparedVerifyingKeyVar<E, P>;
        type VerifyingKeyVar = VerifyingKeyVar<E, P>;
        type InputVar = BooleanInputVar<E::Fr, E::Fq>;
        type ProofVar = ProofVar<E, P>;
        fn verify_with_processed_vk(pvk: &Self::ProcessedVerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> R<Boolean<E::Fq>> {
            assert!(x.val.len() + 1 == pvk.vk.gamma_abc_g1.len());
            let mut vars = vec![];
            let mut cs = proof.a.cs();
            let mut inputs = Some(vec![]);
            for bits in &x.val {
                vars.extend(bits.iter().map(|b| b.var()));
                for b in bits {
                    cs = cs.or(b.cs());
                }
                match (bits[..].value(), inputs.as_mut()) {
                    (Ok(b), Some(l)) => l.push(b.iter().rev().fold(E::Fr::zero(), |a, b| a.double() + if *b { E::Fr::one() } else { E::Fr::zero() })),
                    _ => inputs = None,
                }
            }
            let v = match (proof.a.value(), proof.b.value(), proof.c.value(), inputs) {
                (Ok(a), Ok(b), Ok(c), Some(i)) => Some(Proof { a: a.into_affine(), b: b.into_affine(), c: c.into_affine() } == ideal(&pvk.vk, &i)),
                _ => None,
            };
            Boolean::derived(&cs, &format!("groth16 {:?}", digest(&pvk.vk, &[], 0)), &vars, v)
        }
        fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> R<Boolean<E::Fq>> {
            Self::verify_with_processed_vk(&PreparedVerifyingKeyVar { vk: vk.vk.clone(), _p: PhantomData }, x, proof)
        }
    }
}
