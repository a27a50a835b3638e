#![allow(dead_code, unused_imports)]
#[path = "../../common/run.rs"]
mod run;
#[path = "../../common/refaes.rs"]
mod refaes;

// the real modules, from /repo's working tree
#[path = "/repo/packages/zkenc-cli/src/circom.rs"]
mod circom;
#[path = "/repo/packages/zkenc-cli/src/crypto.rs"]
mod crypto;
#[path = "/repo/packages/zkenc-cli/src/r1cs.rs"]
mod r1cs;
#[path = "/repo/packages/zkenc-cli/src/serializable.rs"]
mod serializable;
#[path = "/repo/packages/zkenc-core/src/serializable.rs"]
mod core_serializable;
#[path = "/repo/packages/zkenc-cli/src/sym_parser.rs"]
mod sym_parser;

mod s_crypto;
mod s_r1cs;
mod s_serde;
mod s_text;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("noncedump") { s_crypto::noncedump(); return; }
    let mut v = vec![];
    v.extend(s_crypto::suites());
    v.extend(s_r1cs::suites());
    v.extend(s_serde::suites());
    v.extend(s_text::suites());
    run::main(&v);
}
