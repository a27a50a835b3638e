pub use arkshim::serialize::*;
pub use ark_serialize_derive::{CanonicalDeserialize, CanonicalSerialize};
