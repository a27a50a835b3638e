pub use arkshim::poly::*;
