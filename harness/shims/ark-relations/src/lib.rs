pub mod gr1cs { pub use arkshim::relations::*; }
