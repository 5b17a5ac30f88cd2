//! Checks of everything above the direct hasher: the whole repository compiled against a stand-in
//! for arkworks (../mark, ../facade), explored exhaustively within stated bounds.
#![allow(clippy::all, dead_code, unused_imports)]
#[cfg(feature = "crypto")]
mod bls;
#[cfg(feature = "ffi")]
mod conc;
#[cfg(any(feature = "epoch", feature = "ffi"))]
mod epoch;
#[cfg(feature = "epoch")]
mod epochs;
#[cfg(feature = "gadgets")]
mod explore;
#[cfg(feature = "ffi")]
mod e2e;
#[cfg(feature = "ffi")]
mod ffi;
#[cfg(feature = "ffi")]
mod keygen;
#[cfg(feature = "gadgets")]
mod gadgets;
#[cfg(feature = "crypto")]
mod hashing;
mod o;
#[cfg(feature = "epoch")]
mod pack;
#[cfg(feature = "epoch")]
mod shape;
mod track;
#[global_allocator]
static ALLOC: track::Tracker = track::Tracker;
use mc_common::{b2s, Check};

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    #[cfg(feature = "ffi")]
    if id == "keygen-child" {
        return keygen::child();
    }
    let c = Check::new(&id);
    let n = b2s::self_test();
    c.note(format!("reference BLAKE2s agrees with {} vectors of Python's hashlib", n));
    c.assume("arkworks (fields, curves, pairing, constraint-system builder, Groth16) is replaced by the stand-in in mc/ark; the stand-in is validated by the repository's own tests and pinned vectors (mc/ark/conformance.sh)");
    match id.as_str() {
        #[cfg(feature = "crypto")]
        "C06" => hashing::c06(&c),
        #[cfg(feature = "crypto")]
        "C07" => hashing::c07(&c),
        #[cfg(feature = "crypto")]
        "C08" => hashing::c08(&c),
        #[cfg(feature = "crypto")]
        "C09" => hashing::c09(&c),
        #[cfg(feature = "crypto")]
        "C10" => bls::c10(&c),
        #[cfg(feature = "crypto")]
        "C11" => bls::c11(&c),
        #[cfg(feature = "crypto")]
        "C12" => bls::c12(&c),
        #[cfg(feature = "crypto")]
        "C13" => bls::c13(&c),
        #[cfg(feature = "crypto")]
        "C14" => bls::c14(&c),
        #[cfg(feature = "crypto")]
        "C15" => bls::c15(&c),
        #[cfg(feature = "ffi")]
        "C16" => ffi::c16(&c),
        #[cfg(feature = "ffi")]
        "C17" => ffi::c17(&c),
        #[cfg(feature = "ffi")]
        "C18" => ffi::c18(&c),
        #[cfg(feature = "ffi")]
        "C19" => ffi::c19(&c),
        #[cfg(feature = "gadgets")]
        "C20" => gadgets::c20(&c),
        #[cfg(feature = "gadgets")]
        "C21" => gadgets::c21(&c),
        #[cfg(feature = "gadgets")]
        "C22" => gadgets::c22(&c),
        #[cfg(feature = "epoch")]
        "C23" => gadgets::c23(&c),
        #[cfg(feature = "epoch")]
        "C24" => epoch::c24(&c),
        #[cfg(feature = "epoch")]
        "C25" => epochs::c25(&c),
        #[cfg(feature = "epoch")]
        "C27" => epochs::c27(&c),
        #[cfg(feature = "epoch")]
        "C28" => epochs::c28(&c),
        #[cfg(feature = "epoch")]
        "C30" => shape::c30(&c),
        #[cfg(feature = "ffi")]
        "C29" => conc::c29(&c),
        #[cfg(feature = "ffi")]
        "C31" => keygen::c31(&c),
        #[cfg(feature = "ffi")]
        "C32" => e2e::c32(&c),
        #[cfg(feature = "epoch")]
        "C26" => pack::c26(&c),
        _ => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
    c.finish()
}
