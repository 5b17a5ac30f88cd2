//! C30: the circuits depend on nothing but their declared size.
use crate::epochs::*;
use crate::explore::*;
use crate::gadgets::{insts, new_cs, setup_cs};
use crate::o::*;
use ark_bls12_377::{Bls12_377, Fq, Fr};
use ark_bw6_761::FrParameters as BwFrParameters;
use ark_ff::{One, PrimeField, Zero};
use ark_relations::r1cs::{ConstraintSynthesizer, ConstraintSystemRef};
use epoch_snark::verif::{HashToBits, HashToBitsHelper};
use epoch_snark::ValidatorSetUpdate;
use mc_common::{caught, ensure, viol, CaseResult, Check, Viol};
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

type Helper = Option<HashToBitsHelper<Bls12_377>>;
/// What a verifying key is bound to: all constraints, and the number of public inputs.
type Shape = (u64, usize);
fn of<F: PrimeField>(cs: &ConstraintSystemRef<F>) -> Shape {
    (cs.shape(), cs.num_instance_variables())
}
fn setup(n: usize, slots: usize, max: usize, vk: Option<ark_groth16::VerifyingKey<Bls12_377>>) -> Result<Shape, Viol> {
    let scs: ConstraintSystemRef<Fq> = setup_cs();
    let r = caught(|| ValidatorSetUpdate::<Bls12_377>::empty(n, slots, max, vk).generate_constraints(scs.clone()));
    ensure!(r == Ok(Ok(())), "setup", "setup for {} validators and {} epochs fails: {:?}", n, slots, r);
    Ok(of(&scs))
}
/// The shape of proving, whatever the constraints say about the values; None when proving gives up.
fn proving(c: &Chain, h: Helper) -> Option<(Shape, bool)> {
    match caught(|| run_chain(c, h)) {
        Ok((ok, Ok(()), cs)) => Some((of(&cs), ok)),
        _ => None,
    }
}
static BUILT: [AtomicU64; 2] = [AtomicU64::new(0), AtomicU64::new(0)];
fn same(want: Shape, c: &Chain, h: Helper) -> CaseResult {
    let r = proving(c, h);
    BUILT[r.is_some() as usize].fetch_add(1, Relaxed);
    if let Some((got, ok)) = r {
        ensure!(got == want, "values-change-the-circuit", "the circuit built for these values is not the one the parameters are for: {} public inputs instead of {}, constraints {}; satisfied: {}", got.1, want.1, if got.0 == want.0 { "agree" } else { "differ" }, ok);
    }
    Ok(())
}
fn bits_shape(msgs: Vec<Vec<Option<bool>>>, setup: bool) -> Result<Shape, Viol> {
    let cs: ConstraintSystemRef<Fr> = if setup { setup_cs() } else { new_cs() };
    let r = caught(|| HashToBits { message_bits: msgs }.generate_constraints(cs.clone()));
    ensure!(r == Ok(Ok(())), "helper:fails", "the hash circuit fails: {:?}", r);
    ensure!(setup || cs.is_satisfied() == Ok(true), "helper:unsatisfied", "the hash circuit rejects a message: {:?}", cs.which_is_unsatisfied());
    Ok(of(&cs))
}
pub fn c30(c: &Check) {
    c.assume("the constraints of the arkworks gadgets used (curve, field and pairing arithmetic, Blake2s, the Bowe-Hopwood hash) depend on their public parameters only");
    let runs = AtomicU64::new(0);
    let n_moves = MOVES.len();
    // sizes
    let (nn, ns) = (c.pick(6usize, 12), c.pick(4usize, 6));
    let shapes: std::sync::Mutex<HashMap<(u64, usize), (usize, usize)>> = Default::default();
    c.par(
        "setup: every size, every maximum",
        (nn * ns) as u64,
        1,
        |i| {
            let (n, s) = (1 + i as usize % nn, 1 + i as usize / nn);
            let w = setup(n, s, 0, None)?;
            for max in [1, n - 1, n, n + 1, 255, u32::MAX as usize] {
                ensure!(setup(n, s, max, None)? == w, "maximum-changes-the-circuit", "the circuit for {} validators and {} epochs depends on the maximum {}", n, s, max);
            }
            if let Some(o) = shapes.lock().unwrap().insert(w, (n, s)) {
                return Err(viol("size-ignored", format!("{:?} and {:?} (validators, epochs) have the same circuit", o, (n, s))));
            }
            Ok(())
        },
        |i| format!("{} validators {} epochs", 1 + i as usize % nn, 1 + i as usize / nn),
    );
    // values: all sequences of moves, whether or not they make a valid chain
    let firsts: Vec<(&str, Ep, u32, usize)> = vec![
        ("three keys", first_ep(3, ent(0), 1, &[2, 3, 4]), 1, c.pick(2, 3)),
        ("no entropy, index 0", first_ep(0, None, 0, &[2, 3]), 1, c.pick(2, 3)),
        ("zero entropy, padding keys", first_ep(255, Some(vec![0; 16]), 2, &[6, 1, 1]), u32::MAX, 2),
        ("last index, large maximum", first_ep(65535, ent(0), u32::MAX, &[2]), 0, c.pick(2, 3)),
        ("cancelling keys", first_ep(65534, ent(0), 0, &[2, -2]), 0, 2),
    ];
    for (name, f, max, depth) in &firsts {
        for d in 1..=*depth {
            let dec = |i: u64| chain(f, &mc_common::seq(i, n_moves as u64, d), *max);
            c.par(
                &format!("{}: all sequences of {} slots", name, d),
                (n_moves as u64).pow(d as u32),
                2,
                |i| same(setup(f.keys.len(), d, 1, None)?, &dec(i), None),
                |i| dec(i).show(),
            );
        }
    }
    // values: a grid over the fields of the first and of the second block
    let idx = [0u16, 1, 4, 65535];
    let ents = [None, Some(vec![0; 16]), ent(1), Some(vec![255; 16])];
    let maxs = [0u32, 1, u32::MAX];
    let keysets: [&[i64]; 5] = [&[2, 3], &[1, 1], &[2, -2], &[2, 2], &[-1, 1]];
    let dims = [idx.len(), ents.len(), ents.len(), maxs.len(), keysets.len(), 4];
    let total: u64 = dims.iter().map(|d| *d as u64).product();
    let grid = |mut i: u64, second: bool| -> Chain {
        let mut d = [0usize; 6];
        for k in 0..6 {
            d[k] = (i % dims[k] as u64) as usize;
            i /= dims[k] as u64;
        }
        let mut ch = chain(&first_ep(3, ent(0), 1, &[2, 3]), &[0], 1);
        let bm = vec![d[5] & 1 == 1, d[5] & 2 == 2];
        let e = Ep { idx: idx[d[0]], round: d[5] as u8 * 85, ee: ents[d[1]].clone(), pe: ents[d[2]].clone(), max: maxs[d[3]], keys: keysets[d[4]].to_vec(), bitmap: if second { bm.clone() } else { vec![] } };
        if second {
            ch.slots[0] = e
        } else {
            ch.first = e;
            ch.slots[0].bitmap = bm
        }
        ch
    };
    for second in [false, true] {
        c.par(
            &format!("every combination of boundary values in the {} block", if second { "second" } else { "first" }),
            total,
            2,
            |i| same(setup(2, 1, 1, None)?, &grid(i, second), None),
            |i| grid(i, second).show(),
        );
    }
    // bitmaps
    for n in 1..=c.pick(6usize, 9) {
        let ks: Vec<i64> = (2..2 + n as i64).collect();
        let dec = |i: u64| {
            let mut ch = chain(&first_ep(3, ent(0), n as u32, &ks), &[0, 0], 1);
            ch.slots[1].bitmap = (0..n).map(|k| i >> k & 1 == 1).collect();
            ch
        };
        c.par(&format!("every bitmap of {} bits", n), 1 << n, 2, |i| same(setup(n, 2, 1, None)?, &dec(i), None), |i| dec(i).show());
    }
    // values: whatever a prover puts in
    let g = |ms: &[&str], f: &Ep| -> Chain { chain(f, &ms.iter().map(|n| MOVES.iter().position(|m| m == n).unwrap()).collect::<Vec<_>>(), 1) };
    let bases = vec![
        g(&["good"], &firsts[3].1),
        g(&["dummy", "good"], &first_ep(3, ent(0), 1, &[2, 3])),
        g(&["good", "index skipped"], &firsts[1].1),
        g(&["good with a padding key", "padding key signs"], &firsts[2].1),
    ];
    c.par(
        "any prover: one deviating choice (in thorough mode two on the smallest chain)",
        bases.len() as u64,
        100,
        |i| {
            let b = &bases[i as usize];
            let want = setup(b.first.keys.len(), b.slots.len(), 1, None)?;
            let mut bad = None;
            let two = c.thorough() && i == 0;
            let n = explore(&chain_alts(slot_sigs(b), two), 1 + two as usize, || run_chain(b, None), |s, r| {
                if let (Some((ok, Ok(()), cs)), None) = (r, &bad) {
                    if of(&cs) != want {
                        bad = Some(viol("values-change-the-circuit", format!("{}: another circuit; satisfied: {}", s.show(), ok)));
                    }
                }
            });
            runs.fetch_add(n, Relaxed);
            bad.map_or(Ok(()), Err)
        },
        |i| bases[i as usize].show(),
    );
    // data of another size than declared: never a proof
    let n = 3usize;
    let lens = 5u64;
    let dec = |i: u64| {
        let d = mc_common::seq(i, lens, 4);
        let ks = |l: usize, b: i64| -> Vec<i64> { (0..l as i64).map(|k| b + k).collect() };
        let mut ch = chain(&first_ep(3, ent(0), 9, &ks(d[0], 2)), &[0, 0], 9);
        ch.slots[0].keys = ks(d[1], 20);
        ch.slots[1].keys = ks(d[2], 30);
        ch.slots[0].bitmap = vec![true; d[0].max(1) - (d[3] == 1) as usize + (d[3] == 2) as usize];
        ch.slots[1].bitmap = vec![true; d[1].max(1) - (d[3] == 3) as usize + (d[3] == 4) as usize];
        ch
    };
    c.par(
        "three validators declared, every number of keys per block, bitmaps too short or too long",
        lens.pow(4),
        2,
        |i| {
            let ch = dec(i);
            let d = mc_common::seq(i, lens, 4);
            let want = setup(n, 2, 1, None)?;
            let mut ok = false;
            let cs: ConstraintSystemRef<Fq> = new_cs();
            let mut u = ch.circuit(None);
            u.num_validators = n as u32;
            let r = caught(|| u.generate_constraints(cs.clone()));
            if r == Ok(Ok(())) && of(&cs) != want {
                // another circuit: no proof for these parameters
                ok = true;
            }
            let fits = d[0] == n && d[1] == n && d[2] == n && d[3] == 0;
            let done = r == Ok(Ok(())) && !ok;
            ensure!(done == fits, "size-mismatch", "keys {:?} bitmap variant {}: a proof can{} be made: {:?}", &d[..3], d[3], if done { "" } else { "not" }, r);
            Ok(())
        },
        |i| format!("{:?}: {}", mc_common::seq(i, lens, 4), dec(i).show()),
    );
    // with a helper's proof
    for (name, f, max, depth) in &firsts {
        for d in 1..=c.pick(1, *depth) {
            let dec = |i: u64| chain(f, &mc_common::seq(i, n_moves as u64, d), *max);
            c.par(
                &format!("with a hash helper, {}: all sequences of {} slots", name, d),
                (n_moves as u64).pow(d as u32),
                2,
                |i| {
                    let ch = dec(i);
                    let x = helper_inputs(&ch);
                    let vk = helper_vk(x.len());
                    let want = setup(f.keys.len(), d, 1, Some(vk.clone()))?;
                    let mut y = x.clone();
                    y[0] += Fr::one();
                    let h = |proof| Some(HashToBitsHelper { proof, verifying_key: vk.clone() });
                    for p in [mark::groth16::ideal(&vk, &x), mark::groth16::ideal(&vk, &y), Default::default()] {
                        same(want, &ch, h(p)).map_err(|v| viol(format!("helper:{}", v.key), v.text))?;
                    }
                    ensure!(want.1 == setup(f.keys.len(), d, 1, None)?.1, "helper:public-inputs", "the helper changes the number of public inputs");
                    Ok(())
                },
                |i| dec(i).show(),
            );
        }
    }
    // the helper's own circuit
    let len = HashToBits::empty::<BwFrParameters>(1).message_bits[0].len();
    let msg = |k: usize| -> Vec<Option<bool>> {
        (0..len).map(|b| Some(match k {
            0 => false,
            1 => true,
            k if k < 2 + len => b == k - 2,
            k if k < 2 + 2 * len => b != k - 2 - len,
            k => pat(len, k as u64)[b] & 1 == 1,
        })).collect()
    };
    let kinds = 2 + 2 * len + c.pick(64, 1024);
    for epochs in 1..=c.pick(3usize, 5) {
        let want = std::sync::Mutex::new(None);
        c.par(
            &format!("hash circuit, {} epochs: messages with no, one or all bits, in every position", epochs),
            (kinds * epochs) as u64,
            2,
            |i| {
                let (k, at) = (i as usize % kinds, i as usize / kinds);
                let want = {
                    let mut w = want.lock().unwrap();
                    if w.is_none() {
                        let s = bits_shape(HashToBits::empty::<BwFrParameters>(epochs).message_bits, true)?;
                        let inputs = 1 + (len * epochs + 251) / 252 + (512 * epochs + 251) / 252;
                        ensure!(s.1 == inputs, "helper:public-inputs", "{} public inputs instead of {}", s.1, inputs);
                        *w = Some(s)
                    }
                    w.unwrap()
                };
                let got = bits_shape((0..epochs).map(|e| msg(if e == at { k } else { (e * 7 + k) % kinds })).collect(), false)?;
                ensure!(got == want, "helper:values-change-the-circuit", "the hash circuit differs between setup and proving");
                Ok(())
            },
            |i| format!("message #{} in epoch {}", i as usize % kinds, i as usize / kinds),
        );
    }
    c.note(format!("circuits built with values: {}; given up with an error: {}", BUILT[1].load(Relaxed), BUILT[0].load(Relaxed)));
    c.transitions.fetch_add(runs.into_inner(), Relaxed);
}
