pub use arkshim::ec::{pairing, AffineRepr, CurveGroup, PrimeGroup, VariableBaseMSM};
