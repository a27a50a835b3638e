#![allow(dead_code, unused_imports)]
#[path = "../../common/run.rs"]
mod run;
mod circ;
mod s_cmd;
mod s_core;
mod s_field;
fn main() {
    let mut v = vec![];
    v.extend(s_field::suites());
    v.extend(s_core::suites());
    v.extend(s_cmd::suites());
    run::main(&v);
}
