//! C06-C09: composite hasher, hashing to the curve, decoding of hash output.
use crate::o::{self, *};
use ark_bls12_377::{g1, g2, Fq, Fq2};
use ark_ec::{models::short_weierstrass_jacobian as sw, models::SWModelParameters, AffineCurve, ProjectiveCurve};
use ark_ff::{Field, One, PrimeField, SquareRootField, Zero};
use mc_common::{b2s, caught, ensure, hex, shex, CaseResult, Check};

// ------------------------------------------------------------------------------------- C06
pub fn c06(c: &Check) {
    use bls_crypto::hashers::composite::{CompositeHasher, COMPOSITE_HASHER, CRH};
    use bls_crypto::Hasher;
    c.assume("the pseudo-random generator and the curve operations behind the Bowe-Hopwood generators are those of rand_chacha 0.2 and the stand-in for ark-ed-on-bw6-761; the pinned digests of the repository tie them to the deployed parameters");
    o::bases();
    let own = CompositeHasher::<CRH>::new().unwrap();
    let own2 = CompositeHasher::<CRH>::new().unwrap();
    let inst: [&CompositeHasher<CRH>; 3] = [&*COMPOSITE_HASHER, &own, &own2];
    let crh = |k: usize, d: &[u8], m: &[u8], l: usize| inst[k].crh(d, m, l);
    let want = |m: &[u8]| -> Vec<u8> { composite_crh(m) };
    let chk = |k: usize, d: &[u8], m: &[u8], l: usize| -> CaseResult {
        let w = want(m);
        match crh(k, d, m, l) {
            Ok(g) => ensure!(g == w, "c06:crh", "crh(domain {}, {}, {}) = {} want {}", shex(d), shex(m), l, hex(&g), hex(&w)),
            Err(e) => ensure!(false, "c06:crh-err", "crh({}) failed: {}", shex(m), e),
        }
        Ok(())
    };
    let short = |i: u64| -> Vec<u8> {
        if i == 0 {
            vec![]
        } else if i <= 256 {
            vec![(i - 1) as u8]
        } else {
            ((i - 257) as u16).to_le_bytes().to_vec()
        }
    };
    c.par("every message of at most 2 bytes", 1 + 256 + 65536, 2, |i| chk((i % 3) as usize, b"ULforxof", &short(i), 64), |i| hex(&short(i)));
    let ml = c.pick(420u64, 1500);
    for k in 0..4u64 {
        c.par(
            "every length, patterned content",
            ml,
            2,
            |i| {
                let m = match k {
                    0 => pat(i as usize, i),
                    1 => vec![0xff; i as usize],
                    2 => vec![0; i as usize],
                    _ => vec![0x24; i as usize],
                };
                chk((i % 3) as usize, b"", &m, 96)
            },
            |i| format!("pattern {} length {}", k, i),
        );
    }
    for (len, p) in [(64usize, 5u64), (140, 6)] {
        let base = pat(len, p);
        c.par(
            "every single-bit flip of a base message",
            len as u64 * 8,
            2,
            |i| {
                let mut m = base.clone();
                m[i as usize / 8] ^= 1 << (i % 8);
                chk(0, b"ULforpop", &m, 64)?;
                ensure!(crh(0, b"", &m, 0).unwrap() != want(&base), "c06:bit", "bit {} does not change the digest", i);
                Ok(())
            },
            |i| format!("bit {} of {} bytes", i, len),
        );
    }
    // capacity
    let caps: Vec<usize> = vec![CAPACITY, CAPACITY - 1, CAPACITY - 34, CAPACITY - 35, 4910, 9800];
    c.par("messages up to the capacity of 19530 bytes", caps.len() as u64, 2, |i| chk(0, b"", &pat(caps[i as usize], i), 64), |i| format!("length {}", caps[i as usize]));
    if c.thorough() {
        let base = pat(CAPACITY, 77);
        c.par(
            "full-capacity messages, one byte changed in each of the 560 windows",
            560,
            2,
            |i| {
                let mut m = base.clone();
                let at = (i as usize * 279 + 140) / 8;
                m[at] ^= 0x5a;
                chk(1, b"", &m, 64)
            },
            |i| format!("window {}", i),
        );
    }
    let too: Vec<usize> = vec![CAPACITY + 1, CAPACITY + 2, CAPACITY + 35, 2 * CAPACITY, 1_000_000];
    c.par(
        "over-long messages are refused",
        too.len() as u64,
        2,
        |i| {
            let m = pat(too[i as usize], i);
            for (n, r) in [
                ("crh", caught(|| inst[0].crh(b"", &m, 64).is_ok())),
                ("hash", caught(|| inst[0].hash(b"ULforxof", &m, 64).is_ok())),
            ] {
                ensure!(r != Ok(true), "c06:overlong", "{} of {} bytes gives a digest", n, m.len());
            }
            Ok(())
        },
        |i| format!("length {}", too[i as usize]),
    );
    // domain and length do not matter to the first step
    let doms: Vec<Vec<u8>> = (0..=8).map(|n| pat(n, 3)).chain([b"ULforxof".to_vec(), b"ULforpop".to_vec(), b"ULforout".to_vec()]).collect();
    let lens = [0usize, 1, 31, 32, 33, 48, 64, 96, 255, 256, 65535];
    let msgs: Vec<Vec<u8>> = [0usize, 1, 34, 35, 36, 70].iter().map(|n| pat(*n, 9)).collect();
    c.par(
        "first step: domains x lengths x instances",
        (doms.len() * lens.len() * msgs.len() * 3) as u64,
        2,
        |i| {
            let i = i as usize;
            chk(i % 3, &doms[i / 3 % doms.len()], &msgs[i / 3 / doms.len() / lens.len()], lens[i / 3 / doms.len() % lens.len()])
        },
        |i| format!("{}", i),
    );
    // xof and hash
    let xl = c.pick(260u64, 1100);
    c.par(
        "second step and composition: lengths x domains x messages x instances",
        xl * doms.len() as u64,
        6,
        |i| {
            let l = (i % xl) as usize;
            let d = &doms[(i / xl) as usize];
            for (mi, m) in msgs.iter().enumerate().take(3) {
                let k = (i as usize + mi) % 3;
                let x = inst[k].xof(d, m, l).map_err(|e| mc_common::viol("c06:xof", format!("xof: {}", e)))?;
                ensure!(x == b2s::xof(d, m, l as u16), "c06:xof", "xof({}, {}, {}) = {}", hex(d), shex(m), l, shex(&x));
                ensure!(Some(&x) == bls_crypto::hashers::DirectHasher.xof(d, m, l).ok().as_ref(), "c06:xof", "differs from the direct hasher");
                let h = inst[k].hash(d, m, l).map_err(|e| mc_common::viol("c06:hash", format!("hash: {}", e)))?;
                ensure!(h == b2s::xof(d, &want(m), l as u16), "c06:hash", "hash({}, {}, {}) = {}", hex(d), shex(m), l, shex(&h));
            }
            Ok(())
        },
        |i| format!("{}", i),
    );
    for l in [256usize, 768, 769, 1023, 4096, 65504, 65505, 65535] {
        c.case("long xof", || {
            let m = pat(48, 1);
            let x = COMPOSITE_HASHER.xof(b"ULforxof", &m, l).map_err(|e| mc_common::viol("c06:xof", format!("xof: {}", e)))?;
            ensure!(x == b2s::xof(b"ULforxof", &m, l as u16), "c06:xof", "xof length {}", l);
            Ok(())
        });
        c.count("long outputs", 1, 1);
    }
    for (d, l) in [(9usize, 64usize), (10, 0), (64, 64), (8, 65536), (8, 65600), (0, 1 << 20), (9, 1 << 20)] {
        c.case("invalid parameters", || {
            let d = pat(d, 1);
            for k in 0..2 {
                let r = caught(|| if k == 0 { COMPOSITE_HASHER.xof(&d, b"m", l).is_err() } else { COMPOSITE_HASHER.hash(&d, b"m", l).is_err() });
                ensure!(r == Ok(true), "c06:invalid", "domain of {} bytes, length {}: {:?} instead of an error", d.len(), l, r);
            }
            Ok(())
        });
        c.count("invalid parameters", 1, 2);
    }
    // histories over three instances: every sequence of 4 calls
    let n = 5u64;
    c.par(
        "every sequence of 4 calls over 3 instances",
        n.pow(4),
        4,
        |i| {
            let h = CompositeHasher::<CRH>::new().unwrap();
            for (s, op) in mc_common::seq(i, n, 4).into_iter().enumerate() {
                let m = &msgs[1 + s % 3];
                let (g, w) = match op {
                    0 => (h.crh(b"a", m, 64).unwrap(), want(m)),
                    1 => (h.clone().crh(b"b", m, 1).unwrap(), want(m)),
                    2 => (h.xof(b"a", m, 40).unwrap(), b2s::xof(b"a", m, 40)),
                    3 => (h.hash(b"c", m, 33).unwrap(), b2s::xof(b"c", &want(m), 33)),
                    _ => {
                        ensure!(caught(|| h.hash(b"too long!", m, 33).is_err()) == Ok(true), "c06:hist", "long domain");
                        continue;
                    }
                };
                ensure!(g == w, "c06:hist", "step {} op {} gives {}", s, op, shex(&g));
            }
            Ok(())
        },
        |i| format!("{:?}", mc_common::seq(i, n, 4)),
    );
    // concurrent use of one instance
    c.par("one shared instance used from 8 threads", 4000, 1, |i| chk(0, b"", &pat((i % 90) as usize, i), 64), |i| format!("{}", i));
    // pinned digests of the deployed parameters
    c.case("pinned", || {
        use rand::{Rng, SeedableRng};
        let r = |s0: u8, n: usize| -> Vec<u8> {
            let mut rng = rand_xorshift::XorShiftRng::from_seed([s0, 0xbe, 0x62, 0x59, 0x8d, 0x31, 0x3d, 0x76, 0x32, 0x37, 0xdb, 0x17, 0xe5, 0xbc, 0x06, 0x54]);
            (0..n).map(|_| rng.gen()).collect()
        };
        let h = &*COMPOSITE_HASHER;
        let v = [
            (h.crh(&[], &[], 96).unwrap(), "00".repeat(48)),
            (h.crh(&[], &r(0x5d, 32), 96).unwrap(), "066e4894d9e5074a8aaf37d342703e48f83aa967952b79bf99cb9db98270907c1d92043890256cf7b19a0cb5b8155300".into()),
            (h.hash(b"ULforxof", &r(0x2d, 4910), 96).unwrap(), "9108330a206e984c63b034fa59ee6f774628a881c38f2ef3e1f02d135b41958a124fabc66e547a2030f5c8142d610b1d272a67577f2c75addfd54cc96d08cff7f014fbd3147a58a8ecc2a892a04426adee811f2b7f056d58557cd7a42751dde8".into()),
            (h.xof(b"ULforxof", &h.crh(&[], &r(0x2d, 32), 96).unwrap(), 96).unwrap(), "12b0fa43ad6823768667daa148174d65a43c457ad2358830fbddf8e3f00bd9a76014753b12ecb355d1deda25038969754bd9ef5045f59460b527ef11a8084c71983139dfe7c3fda876358ff7591e6dbd24e07ba961b7c0cb634eae5d07a172ee".into()),
        ];
        for (i, (g, w)) in v.iter().enumerate() {
            ensure!(hex(g) == *w, "c06:pinned", "vector {}: {}", i, hex(g));
        }
        Ok(())
    });
    c.count("pinned digests", 4, 1);
}

// ------------------------------------------------------------------------------------- C07, C08
pub mod tai {
    pub use bls_crypto as k;
    pub const COMPAT: bool = true;
    include!("tai_suite.rs");
}
pub mod tai_nc {
    pub use bls_crypto_nc as k;
    pub const COMPAT: bool = false;
    include!("tai_suite.rs");
}
pub fn c07(c: &Check) {
    tai::suite(c, false);
    tai_nc::suite(c, false);
    pinned(c, false);
}
pub fn c08(c: &Check) {
    tai::suite(c, true);
    tai_nc::suite(c, true);
    pinned(c, true);
}
fn pinned(c: &Check, cip22: bool) {
    use rand::{Rng, SeedableRng};
    let seed = [0x5d, 0xbe, 0x62, 0x59, 0x8d, 0x31, 0x3d, 0x76, 0x32, 0x37, 0xdb, 0x17, 0xe5, 0xbc, 0x06, 0x54];
    let old = [
        "a7e17c99126acf78536e64fffe88e1032d834b483584fe5757b1deafa493c97a132572c7825ca4f617f6bcef93b93980",
        "21e328cfedb263f8c815131cc42f0357ab0ba903d855a11de6e7bcd7e61375a818d1b093bcf9fce224536714efad5c00",
        "fcc8bc80a528b32762ad3b3f72d40b069083b833ad4b6e135040414e2634657e1cf1ec070235ba1425f350df8c585d01",
        "9b99c3cee5f7c486f962b1391b4108cd464b05bc24b2e488e9aa04f848467315ed70d83d3abfa63150564ad0c549c400",
        "9df1b6ba0e8d2a42866d78a90b5fdf56cea80b2ec588774ceb7cc4f414d7b49ca55f81169535a4c3a4c7c39148af3e01",
        "f365f54ba587b863d5d5ecef6a2932f4eb225c0cd2c4e727c3fa5b1a30fbcfa8e2a2e0d7a68476ee10d90b3b8846b480",
        "1cb6008bca08b85df6f9a87ca141533145ed88abb0bbace96f4b1ca42d15ba888d4948c21548207a0abd22d5c234d180",
        "1c529f631ddaffde7cbe62bbb8d48cc8dbe59b8548dc69b156d0568c7aae898d8051a3ef31ad17c60a85ad82203a9b81",
        "de54da7a8813a30c267d662d428e28520a159b51a9e226ceb663d460d9065b66a9586cb8b3a9ba0ef0e27c626f20dc80",
        "b68e1db4b648801676a79ac199eaf003757bf2a96cdbb804bfefe0484afdc0cc299d50d660221d1de374e92c44291280",
    ];
    let new = [
        "c24b44bf3aef0949a25f614a89fd20e457b89e4c5d63923b7a63748443275ad47210e7fb8eff38d5582e7d301ee1d400",
        "30caf0778a1d5a30f53c42cc58bbf0b0b9ec0c969e01d805b47f0d556025dbd395af2a506cc6fda3c41e361290c76d01",
        "d9a4b28b8159977581a16ccfa69d1e93b220ccfeafa90a391cbc93c5beedd89953a8df8dcd99be80620fba1b5a191281",
        "e9a2f008d68a446bed6580a7fea89fcce8a9d71d4e876b9929f3813e46f2000f2dc2b26a52c538198469a920cff15201",
        "3d5c112c90df69a5034eaa1dafb067b2091f5f2696206b91cdcf36158497c7bd53e8adae87fff795307497d45dfa9900",
        "c3e18aa19af6c99621b6954e08f786708427a1c87beca919775ae25e5da4599050a95ef12ef74b1f0b6ea512503c6800",
        "241d9d821c503e48bfc2c93a5b59567f235a173a8c3648cb79292993c955c4eee02cba05dd5007b2400c9c251b64fb00",
        "ab7a89228341fce8deb3d86ff0bb9611b1baf2a1d9d0b64710f42cfe6a7c4f789a36308c3fb70e41630396a2c7aa2601",
        "161e32f9621de279b2e3572d5e07c17c33f5e9bf7a532a382e16c2a323a624799f2b187212d12d8eb5fb3032695f0480",
        "acbb3071d0899488ba69ce1592f49c20dada7598690f8393cca80d4abeca0dc6dec112c70228328d68f8f34d3795d100",
    ];
    let mut rng = rand_xorshift::XorShiftRng::from_seed(seed);
    let vs = if cip22 { new } else { old };
    for (i, v) in vs.iter().enumerate() {
        let ms: u8 = rng.gen();
        let msg: Vec<u8> = (0..ms).map(|_| rng.gen()).collect();
        let dom: Vec<u8> = (0..8).map(|_| rng.gen()).collect();
        let es: u8 = rng.gen();
        let extra: Vec<u8> = (0..es).map(|_| rng.gen()).collect();
        c.case("pinned", || {
            use bls_crypto::hash_to_curve::{try_and_increment::COMPOSITE_HASH_TO_G1, try_and_increment_cip22::COMPOSITE_HASH_TO_G1_CIP22, HashToCurve};
            let g = if cip22 { COMPOSITE_HASH_TO_G1_CIP22.hash(&dom, &msg, &extra) } else { COMPOSITE_HASH_TO_G1.hash(&dom, &msg, &extra) }.unwrap();
            ensure!(hex(&ser(&g.into_affine())) == *v, "pinned", "deployed vector {} differs: {}", i, hex(&ser(&g.into_affine())));
            let w = ref_tai::<g1::Parameters>(Inner::Composite, cip22, true, &dom, &msg, &extra).unwrap().0;
            ensure!(w == g, "oracle", "oracle disagrees with the pinned vector {}", i);
            Ok(())
        });
        c.count("pinned vectors of deployed versions", 1, 1);
    }
}

// ------------------------------------------------------------------------------------- C09
fn xs<P: Curve>(n: u64) -> Vec<Vec<u8>> {
    // x values as raw bytes with the top bits of each coordinate free of flags
    let p_bytes: Vec<u8> = <Fq as PrimeField>::modulus_limbs().iter().flat_map(|l| l.to_le_bytes()).collect();
    let mut one: Vec<Vec<u8>> = (0..n).map(|i| Fq::from(i).encode()).collect();
    let add = |d: i64| -> Vec<u8> {
        let mut v = p_bytes.clone();
        if d >= 0 {
            v[0] = v[0].wrapping_add(d as u8) // p = ...01: no carry for small d
        } else {
            return (Fq::zero() - Fq::from((-d) as u64)).encode();
        }
        v
    };
    for d in [-3i64, -2, -1, 0, 1, 2, 3] {
        one.push(add(d));
    }
    one.push({
        let mut v = vec![0xff; 48];
        v[47] = 1;
        v
    });
    let half: Fq = Fq::from(<Fq as PrimeField>::modulus_minus_one_div_two());
    one.push(half.encode());
    one.push((half + Fq::one()).encode());
    // single-bit coordinates: one per byte boundary and the top bit
    for b in (0..377).step_by(8).chain([375, 376]) {
        let mut v = vec![0u8; 48];
        v[b / 8] |= 1 << (b % 8);
        one.push(v);
    }
    for k in 0..40 {
        let mut v = pat(48, 1000 + k);
        v[47] &= 1;
        one.push(v);
    }
    if P::B::BYTES == 48 {
        one
    } else {
        let m = one.len();
        let pick: Vec<usize> = (0..m).collect();
        let mut out = vec![];
        for i in &pick {
            for j in [0usize, 1, 2, m / 2, m - 1, *i, (*i * 7 + 3) % m, n as usize + 3, n as usize + 2] {
                out.push([one[*i].clone(), one[j % m].clone()].concat());
                out.push([one[j % m].clone(), one[*i].clone()].concat());
            }
        }
        out.sort();
        out.dedup();
        out
    }
}
fn decoding<P: Curve>(c: &Check, f: fn(&[u8]) -> Option<sw::GroupAffine<P>>, tag: &str) {
    let v = xs::<P>(c.pick(if P::B::BYTES == 48 { 300 } else { 24 }, 1200 * 48 / P::B::BYTES as u64));
    let flags: u64 = 128;
    c.par(
        &format!("{} {}: edge x values x every setting of the 7 upper bits of the last byte", tag, P::NAME),
        v.len() as u64 * flags,
        2,
        |i| {
            let mut b = v[(i / flags) as usize].clone();
            let fl = ((i % flags) as u8) << 1;
            let l = b.len();
            b[l - 1] = b[l - 1] & 1 | fl;
            let got = f(&b);
            let want = decode_x::<P>(&b, fl & 0x80 != 0, fl & 0x40 != 0);
            match (&got, &want) {
                (None, Dec::Nothing) => {}
                (Some(g), Dec::Infinity) => ensure!(g.is_zero(), "c09:inf", "{} decodes to {:?}, want the point at infinity", hex(&b), g),
                (Some(g), Dec::Point(w)) => ensure!(g == w, "c09:point", "{} decodes to {:?}, want {:?}", hex(&b), g, w),
                (g, w) => ensure!(
                    false,
                    "c09:presence",
                    "{} decodes to {}, want {}",
                    hex(&b),
                    g.is_some(),
                    match w {
                        Dec::Nothing => "nothing",
                        Dec::Infinity => "infinity",
                        Dec::Point(_) => "a point",
                    }
                ),
            }
            Ok(())
        },
        |i| format!("{} flags {:02x}", hex(&v[(i / flags) as usize]), (i % flags) << 1),
    );
    // junk in the unused bits of the lower coordinate's top byte (extension field only)
    if P::B::BYTES == 96 {
        c.par(
            &format!("{} {}: unused bits of the lower coordinate are ignored", tag, P::NAME),
            128,
            2,
            |i| {
                for x in v.iter().step_by(v.len() / 5) {
                    let mut b = x.clone();
                    b[47] |= (i as u8) << 1;
                    let (g, w) = (f(&b), f(x));
                    ensure!(g == w, "c09:junk", "{} decodes differently with bits {:02x}", hex(x), (i as u8) << 1);
                }
                Ok(())
            },
            |i| format!("{:02x}", i << 1),
        );
    }
}
pub fn c09(c: &Check) {
    use ark_serialize::Flags;
    use bls_crypto::hash_to_curve::{from_random_bytes, hash_length, YSignFlags};
    decoding::<g1::Parameters>(c, from_random_bytes::<g1::Parameters>, "compat");
    decoding::<g2::Parameters>(c, from_random_bytes::<g2::Parameters>, "compat");
    decoding::<g1::Parameters>(c, bls_crypto_nc::hash_to_curve::from_random_bytes::<g1::Parameters>, "non-compat");
    decoding::<g2::Parameters>(c, bls_crypto_nc::hash_to_curve::from_random_bytes::<g2::Parameters>, "non-compat");
    c.par(
        "every flag byte",
        256,
        6,
        |i| {
            let v = i as u8;
            let f = YSignFlags::from_u8(v);
            let f = match f {
                Some(f) => f,
                None => return ensure_ok(false, "c09:flags", format!("flag byte {:02x} is not read", v)),
            };
            ensure!(f.is_positive() == Some(v & 0x80 != 0), "c09:flags", "{:02x}: sign {:?}", v, f.is_positive());
            ensure!(f.is_infinity() == (v & 0x40 != 0), "c09:flags", "{:02x}: infinity {}", v, f.is_infinity());
            ensure!(f.u8_bitmask() == v & 0xc0, "c09:flags", "{:02x}: written back as {:02x}", v, f.u8_bitmask());
            ensure!(<YSignFlags as Flags>::BIT_SIZE == 2, "c09:flags", "flag size");
            for s in [false, true] {
                let f = YSignFlags::from_y_sign(s);
                ensure!(f.is_positive() == Some(s) && !f.is_infinity() && f.u8_bitmask() == (s as u8) << 7, "c09:flags", "from_y_sign({})", s);
            }
            ensure!(YSignFlags::default().u8_bitmask() == 0, "c09:flags", "the default flags change the encoding");
            Ok(())
        },
        |i| format!("{:02x}", i),
    );
    let n = c.pick(200_000u64, 20_000_000);
    let chk = |n: usize| -> CaseResult {
        let w = (n + 31) / 32 * 32;
        let g = hash_length(n);
        ensure!(g == w, "c09:hash_length", "hash_length({}) = {} want {}", n, g, w);
        Ok(())
    };
    c.par("hash_length of every size", n, 1, |i| chk(i as usize), |i| format!("{}", i));
    c.par(
        "hash_length around powers of two",
        40 * 9,
        1,
        |i| chk(((1u64 << (4 + i / 9)) + (i % 9)).saturating_sub(4) as usize),
        |i| format!("{}", i),
    );
    // round trip: a hash output carrying any curve point's x and sign decodes to that point
    c.par(
        "every small multiple of the generator is decoded from its x and sign",
        c.pick(300, 3000),
        2,
        |i| {
            let p = o::g1(i as i64 + 1).into_affine();
            for q in [p, -p] {
                let mut b = q.x.encode();
                let larger = q.y.key() > (-q.y).key();
                b[47] |= (larger as u8) << 7;
                ensure!(from_random_bytes::<g1::Parameters>(&b) == Some(q), "c09:roundtrip", "point {} of the generator", i + 1);
            }
            Ok(())
        },
        |i| format!("{}G", i + 1),
    );
}
fn ensure_ok(b: bool, k: &str, t: String) -> CaseResult {
    ensure!(b, k, "{}", t);
    Ok(())
}
#[allow(unused)]
fn _u(_: Fq2) -> bool {
    Fq::one().sqrt().is_some() && <g1::Parameters as SWModelParameters>::coeff_b().square().is_one()
}
