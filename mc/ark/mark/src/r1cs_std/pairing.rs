use super::alloc::*;
use super::bits::*;
use super::fields::*;
use super::groups::*;
use super::*;
use crate::ec::*;
use crate::ff::*;
use crate::relations::*;

pub trait PairingVar<E: PairingEngine, CF: Field = <E as PairingEngine>::Fq> {
    type G1Var: CurveVar<E::G1Projective, CF> + AllocVar<E::G1Projective, CF> + AllocVar<E::G1Affine, CF>;
    type G2Var: CurveVar<E::G2Projective, CF> + AllocVar<E::G2Projective, CF> + AllocVar<E::G2Affine, CF>;
    type GTVar: FieldVar<E::Fqk, CF>;
    type G1PreparedVar: ToBytesGadget<CF> + AllocVar<E::G1Prepared, CF> + Clone + Debug;
    type G2PreparedVar: ToBytesGadget<CF> + AllocVar<E::G2Prepared, CF> + Clone + Debug;
    fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar, SynthesisError>;
    fn final_exponentiation(p: &Self::GTVar) -> Result<Self::GTVar, SynthesisError>;
    fn pairing(p: Self::G1PreparedVar, q: Self::G2PreparedVar) -> Result<Self::GTVar, SynthesisError> {
        let t = Self::miller_loop(&[p], &[q])?;
        Self::final_exponentiation(&t)
    }
    fn product_of_pairings(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar, SynthesisError> {
        let t = Self::miller_loop(p, q)?;
        Self::final_exponentiation(&t)
    }
    fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar, SynthesisError>;
    fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar, SynthesisError>;
}
pub mod bls12 {
    use super::*;
    use crate::ec::bls12::*;
    use crate::r1cs_std::groups::bls12::*;
    use std::any::{Any, TypeId};
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::hash::{Hash, Hasher};
    use std::marker::PhantomData;
    thread_local! {
        // value -> value tables of the two native functions (they are pure)
        static MEMO: RefCell<HashMap<(TypeId, bool, u64), Vec<(Box<dyn Any>, Box<dyn Any>)>>> = RefCell::new(HashMap::new());
    }
    fn memo<P: 'static, K: Hash + Eq + 'static, V: Copy + 'static>(k: K, which: bool, f: impl FnOnce(&K) -> V) -> V {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        k.hash(&mut h);
        let id = (TypeId::of::<P>(), which, h.finish());
        let hit = MEMO.with(|m| {
            m.borrow().get(&id).and_then(|l| {
                l.iter().find(|(a, _)| a.downcast_ref::<K>() == Some(&k)).and_then(|(_, v)| v.downcast_ref::<V>().copied())
            })
        });
        if let Some(v) = hit {
            return v;
        }
        let v = f(&k);
        MEMO.with(|m| {
            let mut m = m.borrow_mut();
            if m.len() > 20000 {
                m.clear();
            }
            m.entry(id).or_default().push((Box::new(k), Box::new(v)))
        });
        v
    }
    #[derive(Debug, Clone, Copy)]
    pub struct PairingVar<P>(PhantomData<P>);
    impl<P: Bls12Parameters> super::PairingVar<Bls12<P>, P::Fp> for PairingVar<P> {
        type G1Var = G1Var<P>;
        type G2Var = G2Var<P>;
        type GTVar = IdealFieldVar<P::Fp12, P::Fp>;
        type G1PreparedVar = G1PreparedVar<P>;
        type G2PreparedVar = G2PreparedVar<P>;
        fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar, SynthesisError> {
            let mut cs = ConstraintSystemRef::None;
            let mut vars = vec![];
            let mut vals: Option<Vec<(G1Affine<P>, G2Affine<P>)>> = Some(vec![]);
            for (p, q) in p.iter().zip(q) {
                cs = cs.or(p.cs.clone()).or(q.cs.clone());
                vars.extend_from_slice(&p.vars);
                vars.extend_from_slice(&q.vars);
                match (p.value, q.value, vals.as_mut()) {
                    (Some(p), Some(q), Some(v)) => v.push((p, q)),
                    _ => vals = None,
                }
            }
            let v = vals.map(|v| {
                memo::<P, _, _>(v, false, |v| {
                    let live: Vec<_> = v.iter().filter(|(a, b)| !a.is_zero() && !b.is_zero()).cloned().collect();
                    P::miller(&live)
                })
            });
            IdealFieldVar::derived(&cs, "miller", &vars, v)
        }
        fn final_exponentiation(p: &Self::GTVar) -> Result<Self::GTVar, SynthesisError> {
            let v = p.value().ok().map(|v| memo::<P, _, _>(v, true, |v| P::final_exp(v).unwrap_or_else(P::Fp12::zero)));
            IdealFieldVar::derived(&p.cs(), "finalexp", &p.vars(), v)
        }
        fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar, SynthesisError> {
            G1PreparedVar::from_group_var(q)
        }
        fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar, SynthesisError> {
            G2PreparedVar::from_group_var(q)
        }
    }
}
/// The pairing of a toy engine, over any constraint field.
pub mod toy {
    use super::*;
    use crate::toy::*;
    use std::marker::PhantomData;
    #[derive(Debug, Clone, Copy)]
    pub struct PairingVar<C>(PhantomData<C>);
    impl<C: ToyCfg, CF: PrimeField> super::PairingVar<ToyEngine<C>, CF> for PairingVar<C> {
        type G1Var = ToyVar<C::Fr, CF, 1>;
        type G2Var = ToyVar<C::Fr, CF, 2>;
        type GTVar = IdealFieldVar<C::Fqk, CF>;
        type G1PreparedVar = ToyVar<C::Fr, CF, 1>;
        type G2PreparedVar = ToyVar<C::Fr, CF, 2>;
        fn miller_loop(p: &[Self::G1PreparedVar], q: &[Self::G2PreparedVar]) -> Result<Self::GTVar, SynthesisError> {
            let mut cs = ConstraintSystemRef::None;
            let mut vars = vec![];
            let mut vals: Option<Vec<_>> = Some(vec![]);
            for (p, q) in p.iter().zip(q) {
                cs = cs.or(p.cs.clone()).or(q.cs.clone());
                vars.extend_from_slice(&[p.var, q.var]);
                match (p.value, q.value, vals.as_mut()) {
                    (Some(p), Some(q), Some(v)) => v.push((p, q)),
                    _ => vals = None,
                }
            }
            IdealFieldVar::derived(&cs, "tmiller", &vars, vals.map(|v| ToyEngine::<C>::miller_loop(v.iter())))
        }
        fn final_exponentiation(p: &Self::GTVar) -> Result<Self::GTVar, SynthesisError> {
            Ok(p.clone())
        }
        fn prepare_g1(q: &Self::G1Var) -> Result<Self::G1PreparedVar, SynthesisError> {
            Ok(q.clone())
        }
        fn prepare_g2(q: &Self::G2Var) -> Result<Self::G2PreparedVar, SynthesisError> {
            Ok(q.clone())
        }
    }
}
