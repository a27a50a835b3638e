pub use std::*;
pub mod rand {
    pub use ::rand::{CryptoRng, Rng, RngCore, SeedableRng, Error};
    pub mod rngs {
        pub use ::rand::rngs::OsRng;
        /// rand's StdRng; seeds are recorded
        #[derive(Clone, Debug)]
        pub struct StdRng(::rand::rngs::StdRng);
        impl ::rand::SeedableRng for StdRng { type Seed = [u8; 32]; fn from_seed(s: [u8; 32]) -> Self { arkshim::tap::push_seed(s.to_vec()); StdRng(::rand::rngs::StdRng::from_seed(s)) } }
        impl ::rand::RngCore for StdRng { fn next_u32(&mut self) -> u32 { self.0.next_u32() } fn next_u64(&mut self) -> u64 { self.0.next_u64() } fn fill_bytes(&mut self, d: &mut [u8]) { self.0.fill_bytes(d) } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ::rand::Error> { self.0.try_fill_bytes(d) } }
    }
    pub fn thread_rng() -> ::rand::rngs::ThreadRng { ::rand::thread_rng() }
}
pub fn test_rng() -> rand::rngs::StdRng { use rand::SeedableRng; rand::rngs::StdRng::from_seed([1u8; 32]) }
pub use arkshim::ff::{One, UniformRand, Zero};
