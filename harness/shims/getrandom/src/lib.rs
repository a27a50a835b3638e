//! the system generator; what it returned is recorded
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "no entropy") } }
impl std::error::Error for Error {}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> { use rand::RngCore; rand::rngs::OsRng.fill_bytes(dest); arkshim::tap::push_entropy(dest.to_vec()); Ok(()) }
