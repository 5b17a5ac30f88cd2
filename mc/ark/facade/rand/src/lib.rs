//! rand 0.7 with a `thread_rng` whose output an explorer can choose (per thread).
pub use rand_real::*;
use std::cell::RefCell;
pub type Script = Box<dyn FnMut(&mut [u8])>;
thread_local! {
    static SCRIPT: RefCell<Option<Script>> = RefCell::new(None);
}
/// Runs `f` with every draw from `thread_rng` on this thread supplied by `s`.
pub fn with_script<T>(s: Script, f: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            SCRIPT.with(|x| *x.borrow_mut() = None);
        }
    }
    SCRIPT.with(|x| *x.borrow_mut() = Some(s));
    let _r = Reset;
    f()
}
fn draw(dest: &mut [u8]) {
    let done = SCRIPT.with(|x| {
        if let Some(s) = x.borrow_mut().as_mut() {
            s(dest);
            true
        } else {
            false
        }
    });
    if !done {
        rand_real::thread_rng().fill_bytes(dest)
    }
}
pub mod rngs {
    pub use rand_real::rngs::*;
    #[derive(Clone, Debug, Default)]
    pub struct ThreadRng(());
    impl super::RngCore for ThreadRng {
        fn next_u32(&mut self) -> u32 {
            let mut b = [0; 4];
            super::draw(&mut b);
            u32::from_le_bytes(b)
        }
        fn next_u64(&mut self) -> u64 {
            let mut b = [0; 8];
            super::draw(&mut b);
            u64::from_le_bytes(b)
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            super::draw(dest)
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), super::Error> {
            super::draw(dest);
            Ok(())
        }
    }
    impl super::CryptoRng for ThreadRng {}
    #[derive(Clone, Copy, Debug, Default)]
    pub struct OsRng;
    impl super::RngCore for OsRng {
        fn next_u32(&mut self) -> u32 {
            ThreadRng::default().next_u32()
        }
        fn next_u64(&mut self) -> u64 {
            ThreadRng::default().next_u64()
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            super::draw(dest)
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), super::Error> {
            super::draw(dest);
            Ok(())
        }
    }
    impl super::CryptoRng for OsRng {}
}
pub use rngs::ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng::default()
}
pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    thread_rng().gen()
}
pub mod prelude {
    pub use super::rngs::ThreadRng;
    pub use super::{random, thread_rng};
    pub use rand_real::distributions::Distribution;
    pub use rand_real::rngs::StdRng;
    pub use rand_real::seq::{IteratorRandom, SliceRandom};
    pub use rand_real::{CryptoRng, Rng, RngCore, SeedableRng};
}
