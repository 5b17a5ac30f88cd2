//! Facade over the stand-in for arkworks, see /verif/DESIGN.md.
pub use mark::curves::{g1, g2, Bls12_377, EdFr, Fq, Fq12, Fq12Parameters, Fq2, Fq2Parameters, Fq6, Fq6Parameters, FqParameters, Fr, FrParameters, Parameters};
pub type G1Affine = mark::ec::bls12::G1Affine<Parameters>;
pub type G1Projective = mark::ec::bls12::G1Projective<Parameters>;
pub type G2Affine = mark::ec::bls12::G2Affine<Parameters>;
pub type G2Projective = mark::ec::bls12::G2Projective<Parameters>;
pub type G1Prepared = mark::ec::bls12::G1Prepared<Parameters>;
pub type G2Prepared = mark::ec::bls12::G2Prepared<Parameters>;
#[cfg(feature = "r1cs")]
pub mod constraints {
    use super::*;
    pub type FqVar = mark::r1cs_std::fields::fp::FpVar<Fq>;
    pub type Fq2Var = mark::r1cs_std::fields::QuadExtVar<Fq2Parameters>;
    pub type G1Var = mark::r1cs_std::groups::bls12::G1Var<Parameters>;
    pub type G2Var = mark::r1cs_std::groups::bls12::G2Var<Parameters>;
    pub type G1PreparedVar = mark::r1cs_std::groups::bls12::G1PreparedVar<Parameters>;
    pub type G2PreparedVar = mark::r1cs_std::groups::bls12::G2PreparedVar<Parameters>;
    pub type PairingVar = mark::r1cs_std::pairing::bls12::PairingVar<Parameters>;
}
