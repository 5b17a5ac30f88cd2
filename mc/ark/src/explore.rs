//! Stateless exhaustive search over everything a prover may choose: a depth-first enumeration of choice
//! scripts, each one executed on the real constraint-generating code with the stand-in's constraint system
//! in abort mode (the first violated constraint prunes the branch).
use ark_ec::ProjectiveCurve;
use ark_ff::{FpParameters, PrimeField, Zero};
use ark_relations::r1cs::{with_adversary, Choice};
use mc_common::caught;
use std::any::Any;
use std::cell::RefCell;
use std::rc::Rc;

/// The options a prover has at a choice: `(index, kind, value, k)` replaces the value by option k
/// (0 keeps the honest value) and returns the number of options.
pub type Alts = Rc<dyn Fn(usize, Choice, &mut dyn Any, usize) -> usize>;

pub fn pick<T: Any + PartialEq + Clone>(v: &mut dyn Any, k: usize, f: impl Fn(&T) -> Vec<T>) -> Option<usize> {
    let v = v.downcast_mut::<T>()?;
    let mut l: Vec<T> = vec![v.clone()];
    for a in f(v) {
        if !l.contains(&a) {
            l.push(a)
        }
    }
    if k < l.len() {
        *v = l[k].clone();
    }
    Some(l.len())
}
pub fn half<F: PrimeField>() -> F {
    F::from_repr(F::modulus_minus_one_div_two()).unwrap()
}
pub fn all<F: PrimeField>() -> Vec<F> {
    let m = F::Params::MODULUS;
    let m: &[u64] = m.as_ref();
    (0..m[0]).map(F::from).collect()
}
pub fn pow2<F: PrimeField>(n: u32) -> F {
    F::from(2u64).pow([n as u64])
}
/// Boundary values around the honest one; every value of a small field.
pub fn field_alts<F: PrimeField>(h: &F) -> Vec<F> {
    if F::Params::MODULUS_BITS <= 8 {
        return all();
    }
    let o = F::one();
    let hf = half::<F>();
    let mut v = vec![F::zero(), o, -o, *h + o, *h - o, hf, hf + o, *h + hf, *h - hf, -*h];
    v.extend(h.inverse());
    for n in [8, 16, 32, 128] {
        v.push(*h + pow2::<F>(n));
    }
    v
}
pub fn point_alts<P: ProjectiveCurve>(h: &P) -> Vec<P> {
    let g = P::prime_subgroup_generator();
    vec![P::zero(), g, -*h, h.double(), *h + g]
}
macro_rules! try_types {
    ($v:expr, $k:expr, field: $($f:ty),*; point: $($p:ty),*) => {{
        if let Some(n) = pick::<bool>($v, $k, |b| vec![!*b]) { return n }
        $(if let Some(n) = pick::<$f>($v, $k, field_alts) { return n })*
        $(if let Some(n) = pick::<$p>($v, $k, point_alts) { return n })*
    }};
}
pub fn std_alts() -> Alts {
    Rc::new(|_, kind, v, k| {
        try_types!(v, k, field: ark_bls12_377::Fq, ark_bls12_377::Fr; point: ark_bls12_377::G1Projective, ark_bls12_377::G2Projective);
        panic!("no alternatives known for a choice of kind {:?}", kind)
    })
}
pub fn tiny_alts<F: PrimeField>() -> Alts {
    Rc::new(|_, kind, v, k| {
        try_types!(v, k, field: F; point: );
        panic!("no alternatives known for a choice of kind {:?}", kind)
    })
}
pub fn toy_alts<F: PrimeField, G1: ProjectiveCurve, G2: ProjectiveCurve>() -> Alts {
    Rc::new(|_, kind, v, k| {
        try_types!(v, k, field: F; point: G1, G2);
        panic!("no alternatives known for a choice of kind {:?}", kind)
    })
}

#[derive(Clone, Debug, Default)]
pub struct Script {
    /// option taken at each choice (missing: honest)
    pub take: Vec<usize>,
    /// options available at each choice of the run
    pub options: Vec<usize>,
}
impl Script {
    pub fn deviations(&self) -> usize {
        self.take.iter().filter(|k| **k != 0).count()
    }
    pub fn show(&self) -> String {
        let d: Vec<String> = self.take.iter().enumerate().filter(|(_, k)| **k != 0).map(|(i, k)| format!("choice {} option {}", i, k)).collect();
        if d.is_empty() {
            "honest prover".into()
        } else {
            d.join(", ")
        }
    }
}
struct Rec {
    take: Vec<usize>,
    options: Vec<usize>,
}
/// One run with the given script; `None` when it panicked.
pub fn run_script<T>(alts: &Alts, take: &[usize], bound: usize, abort: bool, run: &mut dyn FnMut() -> T) -> (Option<T>, Script) {
    let rec = Rc::new(RefCell::new(Rec { take: take.to_vec(), options: vec![] }));
    let (r2, a2) = (rec.clone(), alts.clone());
    let adv = Box::new(move |i: usize, kind: Choice, v: &mut dyn Any| {
        let mut r = r2.borrow_mut();
        let k = r.take.get(i).copied().unwrap_or(0);
        let devs = r.take[..i.min(r.take.len())].iter().filter(|k| **k != 0).count();
        let n = a2(i, kind, v, k);
        let n = if devs >= bound { 1 } else { n };
        r.options.push(n);
    });
    let (res, n) = with_adversary(adv, abort, || caught(|| run()));
    let r = rec.borrow();
    let mut take = r.take.clone();
    take.truncate(n);
    take.resize(n, 0);
    (res.ok(), Script { take, options: r.options.clone() })
}
fn next(s: &Script, keep: usize) -> Option<Vec<usize>> {
    let mut i = s.take.len().min(s.options.len());
    while i > keep {
        i -= 1;
        if s.take[i] + 1 < s.options[i] {
            let mut t = s.take[..i].to_vec();
            t.push(s.take[i] + 1);
            return Some(t);
        }
    }
    None
}
/// Every choice script with at most `bound` deviations from the honest prover. Returns the number of runs.
pub fn explore<T>(alts: &Alts, bound: usize, mut run: impl FnMut() -> T, visit: impl FnMut(&Script, Option<T>)) -> u64 {
    explore_from(alts, &[], bound, &mut run, visit)
}
/// The scripts that begin with `prefix`.
pub fn explore_from<T>(
    alts: &Alts,
    prefix: &[usize],
    bound: usize,
    run: &mut dyn FnMut() -> T,
    mut visit: impl FnMut(&Script, Option<T>),
) -> u64 {
    let mut take = prefix.to_vec();
    let mut n = 0;
    loop {
        let (r, s) = run_script(alts, &take, bound, true, run);
        n += 1;
        visit(&s, r);
        match next(&s, prefix.len()) {
            Some(t) => take = t,
            None => return n,
        }
    }
}
/// The scripts with exactly one deviation whose first deviating choice is enumerated: prefixes for parallel exploration.
pub fn first_deviations(honest: &Script) -> Vec<Vec<usize>> {
    let mut v = vec![];
    for (i, n) in honest.options.iter().enumerate() {
        for k in 1..*n {
            let mut t = vec![0; i];
            t.push(k);
            v.push(t);
        }
    }
    v
}
