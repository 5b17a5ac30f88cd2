//! Stand-in for ark-std.
pub fn log2(x: usize) -> u32 {
    if x == 0 {
        0
    } else if x.is_power_of_two() {
        usize::BITS - 1 - x.leading_zeros()
    } else {
        usize::BITS - x.leading_zeros()
    }
}
pub fn test_rng() -> rand::rngs::StdRng {
    use rand::SeedableRng;
    rand::rngs::StdRng::from_seed([
        1, 0, 0, 0, 23, 0, 0, 0, 200, 1, 0, 0, 210, 30, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    ])
}
#[macro_export]
macro_rules! start_timer {
    ($($t:tt)*) => {
        ()
    };
}
#[macro_export]
macro_rules! end_timer {
    ($t:expr) => {
        let _ = $t;
    };
    ($t:expr, $($r:tt)*) => {
        let _ = $t;
    };
}
