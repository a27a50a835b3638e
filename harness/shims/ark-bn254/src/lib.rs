pub use arkshim::ec::{Bn254, G1Affine, G2Affine, G1 as G1Projective, G2 as G2Projective};
pub use arkshim::ff::Fr;
