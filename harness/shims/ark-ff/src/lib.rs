pub use arkshim::ff::*;
