//! Stand-in for ark-crypto-primitives.
pub type Error = Box<dyn std::error::Error>;

pub mod crh {
    use super::Error;
    use crate::ff::*;
    use crate::r1cs_std::prelude::*;
    use crate::r1cs_std::uint8::UInt8;
    use crate::relations::SynthesisError;
    use rand::Rng;
    use std::fmt::Debug;
    use std::hash::Hash;
    pub trait FixedLengthCRH {
        const INPUT_SIZE_BITS: usize;
        type Output: ToBytes + Clone + Eq + Hash + Default;
        type Parameters: Clone + Default;
        fn setup<R: Rng>(r: &mut R) -> Result<Self::Parameters, Error>;
        fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error>;
    }
    pub trait FixedLengthCRHGadget<H: FixedLengthCRH, CF: Field>: Sized {
        type OutputVar: EqGadget<CF> + ToBytesGadget<CF> + CondSelectGadget<CF> + R1CSVar<CF> + Debug + Clone + Sized;
        type ParametersVar: AllocVar<H::Parameters, CF> + Clone;
        fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<CF>]) -> Result<Self::OutputVar, SynthesisError>;
    }
    pub use FixedLengthCRH as CRH;
    pub use FixedLengthCRHGadget as CRHGadget;
    pub mod pedersen {
        pub trait Window: Clone {
            const WINDOW_SIZE: usize;
            const NUM_WINDOWS: usize;
        }
        pub fn bytes_to_bits(bytes: &[u8]) -> Vec<bool> {
            bytes.iter().flat_map(|b| (0..8).map(move |i| (b >> i) & 1 == 1)).collect()
        }
    }
    pub mod bowe_hopwood {
        use super::pedersen::{bytes_to_bits, Window};
        use super::*;
        use crate::ec::twisted_edwards_extended::GroupProjective;
        use crate::ec::{ModelParameters, ProjectiveCurve, TEModelParameters};
        use std::any::{Any, TypeId};
        use std::collections::HashMap;
        use std::marker::PhantomData;
        use std::sync::{Arc, Mutex, OnceLock};
        pub const CHUNK_SIZE: usize = 3;
        pub struct Parameters<P: TEModelParameters> {
            pub generators: Arc<Vec<Vec<GroupProjective<P>>>>,
        }
        impl<P: TEModelParameters> Clone for Parameters<P> {
            fn clone(&self) -> Self {
                Parameters { generators: self.generators.clone() }
            }
        }
        impl<P: TEModelParameters> Default for Parameters<P> {
            fn default() -> Self {
                Parameters { generators: Arc::new(vec![]) }
            }
        }
        impl<P: TEModelParameters> Debug for Parameters<P> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "Bowe-Hopwood-Pedersen Parameters ({} windows)", self.generators.len())
            }
        }
        pub struct CRH<P: TEModelParameters, W: Window> {
            _p: PhantomData<P>,
            _w: PhantomData<W>,
        }
        impl<P: TEModelParameters, W: Window> Clone for CRH<P, W> {
            fn clone(&self) -> Self {
                CRH { _p: PhantomData, _w: PhantomData }
            }
        }
        impl<P: TEModelParameters, W: Window> Debug for CRH<P, W> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "CRH")
            }
        }
        type Key = (TypeId, usize, usize, Vec<u8>);
        fn table() -> &'static Mutex<HashMap<Key, Arc<dyn Any + Send + Sync>>> {
            static T: OnceLock<Mutex<HashMap<Key, Arc<dyn Any + Send + Sync>>>> = OnceLock::new();
            T.get_or_init(Default::default)
        }
        impl<P: TEModelParameters, W: Window> CRH<P, W> {
            pub fn create_generators<R: Rng>(rng: &mut R) -> Vec<Vec<GroupProjective<P>>> {
                let first = GroupProjective::<P>::rand(rng);
                Self::generators_from(first, rng)
            }
            fn generators_from<R: Rng>(first: GroupProjective<P>, rng: &mut R) -> Vec<Vec<GroupProjective<P>>> {
                let mut bases = vec![first];
                for _ in 1..W::NUM_WINDOWS {
                    bases.push(GroupProjective::<P>::rand(rng));
                }
                bases
                    .into_iter()
                    .map(|mut b| {
                        let mut v: Vec<GroupProjective<P>> = Vec::with_capacity(W::WINDOW_SIZE);
                        for _ in 0..W::WINDOW_SIZE {
                            v.push(b);
                            for _ in 0..4 {
                                b.double_in_place();
                            }
                        }
                        v
                    })
                    .collect()
            }
        }
        impl<P: TEModelParameters, W: Window> FixedLengthCRH for CRH<P, W> {
            const INPUT_SIZE_BITS: usize = W::WINDOW_SIZE * W::NUM_WINDOWS;
            type Output = GroupProjective<P>;
            type Parameters = Parameters<P>;
            fn setup<R: Rng>(rng: &mut R) -> Result<Self::Parameters, Error> {
                // The result is a function of the generator's state; remembered by the first point drawn.
                let first = GroupProjective::<P>::rand(rng);
                let mut k = vec![];
                first.into_affine().write(&mut k)?;
                let key = (TypeId::of::<P>(), W::WINDOW_SIZE, W::NUM_WINDOWS, k);
                let mut t = table().lock().unwrap_or_else(|e| e.into_inner());
                if let Some(g) = t.get(&key) {
                    return Ok(Parameters { generators: g.clone().downcast().map_err(|_| "type")? });
                }
                let g = Arc::new(Self::generators_from(first, rng));
                t.insert(key, g.clone());
                Ok(Parameters { generators: g })
            }
            fn evaluate(parameters: &Self::Parameters, input: &[u8]) -> Result<Self::Output, Error> {
                if input.len() * 8 > W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE {
                    panic!("incorrect input length {:?} for window params {:?}x{:?}x{}", input.len(), W::WINDOW_SIZE, W::NUM_WINDOWS, CHUNK_SIZE);
                }
                let mut bits = bytes_to_bits(input);
                while bits.len() % CHUNK_SIZE != 0 {
                    bits.push(false);
                }
                assert_eq!(parameters.generators.len(), W::NUM_WINDOWS);
                let mut r = GroupProjective::<P>::zero();
                for (seg, gens) in bits.chunks(W::WINDOW_SIZE * CHUNK_SIZE).zip(parameters.generators.iter()) {
                    assert_eq!(gens.len(), W::WINDOW_SIZE);
                    for (c, g) in seg.chunks(CHUNK_SIZE).zip(gens) {
                        let mut e = *g;
                        if c[0] {
                            e += g;
                        }
                        if c[1] {
                            e += &g.double();
                        }
                        if c[2] {
                            e = -e;
                        }
                        r += &e;
                    }
                }
                Ok(r)
            }
        }
        pub type BoweHopwoodPedersenCRH<P, W> = CRH<P, W>;
        pub mod constraints {
            use super::*;
            use crate::r1cs_std::alloc::AllocationMode;
            use crate::r1cs_std::groups::curves::twisted_edwards::AffineVar;
            use crate::relations::*;
            use std::borrow::Borrow;
            type CF<P> = <<P as ModelParameters>::BaseField as Field>::BasePrimeField;
            pub struct ParametersVar<P: TEModelParameters, W: Window> {
                params: Parameters<P>,
                _w: PhantomData<W>,
            }
            impl<P: TEModelParameters, W: Window> Clone for ParametersVar<P, W> {
                fn clone(&self) -> Self {
                    ParametersVar { params: self.params.clone(), _w: PhantomData }
                }
            }
            pub struct CRHGadget<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>> {
                _p: PhantomData<P>,
                _f: PhantomData<F>,
            }
            impl<P: TEModelParameters, W: Window> AllocVar<Parameters<P>, CF<P>> for ParametersVar<P, W> {
                fn new_variable<T: Borrow<Parameters<P>>>(
                    _: impl Into<Namespace<CF<P>>>,
                    f: impl FnOnce() -> Result<T, SynthesisError>,
                    _: AllocationMode,
                ) -> Result<Self, SynthesisError> {
                    Ok(ParametersVar { params: f()?.borrow().clone(), _w: PhantomData })
                }
            }
            impl<P: TEModelParameters, F: FieldVar<P::BaseField, CF<P>>, W: Window> FixedLengthCRHGadget<CRH<P, W>, CF<P>> for CRHGadget<P, F>
            where
                CF<P>: PrimeField,
            {
                type OutputVar = AffineVar<P, F>;
                type ParametersVar = ParametersVar<P, W>;
                fn evaluate(parameters: &Self::ParametersVar, input: &[UInt8<CF<P>>]) -> Result<Self::OutputVar, SynthesisError> {
                    let mut cs = ConstraintSystemRef::None;
                    let mut vars = vec![];
                    let mut bytes = Some(vec![]);
                    for b in input {
                        for x in b.to_bits_le()? {
                            cs = cs.or(x.cs());
                            vars.push(x.var());
                        }
                        match (b.value(), bytes.as_mut()) {
                            (Ok(v), Some(l)) => l.push(v),
                            _ => bytes = None,
                        }
                    }
                    let bits = input.len() * 8;
                    assert!(bits <= W::WINDOW_SIZE * W::NUM_WINDOWS * CHUNK_SIZE, "input too long");
                    let v = match bytes {
                        Some(b) => Some(CRH::<P, W>::evaluate(&parameters.params, &b).map_err(|_| SynthesisError::Unsatisfiable)?),
                        None => None,
                    };
                    AffineVar::derived(&cs, "bh", &vars, v)
                }
            }
        }
    }
}
pub mod prf {
    pub use blake2s::Blake2sWithParameterBlock;
    pub mod blake2s {
        use mc_common::b2s::Pb;
        #[derive(Clone, Debug, PartialEq, Eq)]
        pub struct Blake2sWithParameterBlock {
            pub digest_length: u8,
            pub key_length: u8,
            pub fan_out: u8,
            pub depth: u8,
            pub leaf_length: u32,
            pub node_offset: u32,
            pub xof_digest_length: u16,
            pub node_depth: u8,
            pub inner_length: u8,
            pub salt: [u8; 8],
            pub personalization: [u8; 8],
        }
        fn le(b: &[u8]) -> u32 {
            u32::from_le_bytes([b[0], b[1], b[2], b[3]])
        }
        impl Blake2sWithParameterBlock {
            pub fn parameters(&self) -> [u32; 8] {
                [
                    u32::from_le_bytes([self.digest_length, self.key_length, self.fan_out, self.depth]),
                    self.leaf_length,
                    self.node_offset,
                    self.xof_digest_length as u32 | (self.node_depth as u32) << 16 | (self.inner_length as u32) << 24,
                    le(&self.salt[..4]),
                    le(&self.salt[4..]),
                    le(&self.personalization[..4]),
                    le(&self.personalization[4..]),
                ]
            }
            pub fn evaluate(&self, input: &[u8]) -> Vec<u8> {
                hash_words(&self.parameters(), input)[..self.digest_length as usize].to_vec()
            }
        }
        /// BLAKE2s of the message with the given parameter block; all 32 bytes of the final state.
        pub fn hash_words(p: &[u32; 8], input: &[u8]) -> Vec<u8> {
            let mut b = [0u8; 32];
            for (i, w) in p.iter().enumerate() {
                b[4 * i..4 * i + 4].copy_from_slice(&w.to_le_bytes());
            }
            Pb::hash_block(&b, input)
        }
        pub mod constraints {
            use crate::ff::*;
            use crate::r1cs_std::boolean::Boolean;
            use crate::r1cs_std::prelude::*;
            use crate::r1cs_std::uint32::UInt32;
            use crate::relations::*;
            pub fn evaluate_blake2s<F: PrimeField>(input: &[Boolean<F>]) -> Result<Vec<UInt32<F>>, SynthesisError> {
                let mut p = [0u32; 8];
                p[0] = 0x01010020;
                evaluate_blake2s_with_parameters(input, &p)
            }
            pub fn evaluate_blake2s_with_parameters<F: PrimeField>(input: &[Boolean<F>], parameters: &[u32; 8]) -> Result<Vec<UInt32<F>>, SynthesisError> {
                assert!(input.len() % 8 == 0);
                let mut cs = ConstraintSystemRef::None;
                let mut vars = vec![];
                let mut vals = Some(vec![]);
                for b in input {
                    cs = cs.or(b.cs());
                    vars.push(b.var());
                    match (b.value(), vals.as_mut()) {
                        (Ok(v), Some(l)) => l.push(v),
                        _ => vals = None,
                    }
                }
                let out = vals.map(|v| {
                    let bytes: Vec<u8> = v.chunks(8).map(|c| c.iter().enumerate().map(|(i, b)| (*b as u8) << i).sum()).collect();
                    super::hash_words(parameters, &bytes)
                });
                let first = (0..256)
                    .map(|i| {
                        let v = out.as_ref().map(|o| (o[i / 8] >> (i % 8)) & 1 == 1);
                        if i == 0 {
                            Boolean::derived(&cs, &format!("b2s{:?}", parameters), &vars, v)
                        } else {
                            Boolean::derived(&cs, "b2s", &[], v)
                        }
                    })
                    .collect::<Result<Vec<_>, _>>()?;
                Ok(first.chunks(32).map(UInt32::from_bits_le).collect())
            }
        }
    }
}
pub mod snark {
    use super::Error;
    use crate::ff::*;
    use crate::r1cs_std::prelude::*;
    use crate::relations::*;
    use rand::{CryptoRng, RngCore};
    use std::fmt::Debug;
    use std::marker::PhantomData;
    pub trait SNARK<F: PrimeField> {
        type ProvingKey: Clone;
        type VerifyingKey: Clone;
        type Proof: Clone;
        type ProcessedVerifyingKey: Clone;
        type Error: 'static + std::error::Error;
        fn circuit_specific_setup<C: ConstraintSynthesizer<F>, R: RngCore + CryptoRng>(
            circuit: C,
            rng: &mut R,
        ) -> Result<(Self::ProvingKey, Self::VerifyingKey), Self::Error>;
        fn prove<C: ConstraintSynthesizer<F>, R: RngCore + CryptoRng>(pk: &Self::ProvingKey, circuit: C, rng: &mut R) -> Result<Self::Proof, Self::Error>;
        fn verify(vk: &Self::VerifyingKey, x: &[F], proof: &Self::Proof) -> Result<bool, Self::Error> {
            Self::verify_with_processed_vk(&Self::process_vk(vk)?, x, proof)
        }
        fn process_vk(vk: &Self::VerifyingKey) -> Result<Self::ProcessedVerifyingKey, Self::Error>;
        fn verify_with_processed_vk(pvk: &Self::ProcessedVerifyingKey, x: &[F], proof: &Self::Proof) -> Result<bool, Self::Error>;
    }
    #[derive(Clone, Debug)]
    pub struct BooleanInputVar<F: PrimeField, CF: PrimeField> {
        pub val: Vec<Vec<Boolean<CF>>>,
        _f: PhantomData<F>,
    }
    impl<F: PrimeField, CF: PrimeField> BooleanInputVar<F, CF> {
        pub fn new(val: Vec<Vec<Boolean<CF>>>) -> Self {
            Self { val, _f: PhantomData }
        }
    }
    impl<F: PrimeField, CF: PrimeField> IntoIterator for BooleanInputVar<F, CF> {
        type Item = Vec<Boolean<CF>>;
        type IntoIter = std::vec::IntoIter<Vec<Boolean<CF>>>;
        fn into_iter(self) -> Self::IntoIter {
            self.val.into_iter()
        }
    }
    pub trait SNARKGadget<F: PrimeField, CF: PrimeField, S: SNARK<F>> {
        type ProcessedVerifyingKeyVar: Clone;
        type VerifyingKeyVar: AllocVar<S::VerifyingKey, CF> + Clone;
        type InputVar: Clone;
        type ProofVar: AllocVar<S::Proof, CF> + Clone;
        fn verify_with_processed_vk(pvk: &Self::ProcessedVerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Result<Boolean<CF>, SynthesisError>;
        fn verify(vk: &Self::VerifyingKeyVar, x: &Self::InputVar, proof: &Self::ProofVar) -> Result<Boolean<CF>, SynthesisError>;
    }
    #[allow(unused)]
    fn unused(_: Error) {}
}
