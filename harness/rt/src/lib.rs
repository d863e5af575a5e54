//! Runtime of the conformance harness: byte sources and sinks whose delivery,
//! interruptions and failures are under control, value trees, observation
//! records, and the guards that turn panics, runaway loops and runaway
//! allocation into observations.
#[cfg(all(feature = "std", feature = "bits"))]
pub mod direct;
pub mod guard;
pub mod io;
#[cfg(feature = "logging")]
pub mod logger;
pub mod ops;
#[cfg(all(feature = "std", feature = "bits"))]
pub mod own;
pub mod run;
pub mod tree;
#[cfg(all(feature = "std", feature = "bits"))]
pub mod wrap;

pub use io::*;
pub use ops::*;
pub use tree::*;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
}
