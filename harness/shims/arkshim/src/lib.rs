//! Stand-ins for the arkworks crates that this sandbox does not have, with the same API where /repo uses it.
//! Field: the BN254 scalar field, exact. Groups: the exponent model (an element is its discrete logarithm), the
//! pairing is the product of exponents. Constraint systems: assignments and rows kept as they are given.
//! Everything a property is stated over is recorded in `tap`.
#![allow(clippy::all)]
pub mod ec;
pub mod ff;
pub mod poly;
pub mod relations;
pub mod serialize;
pub mod tap;
