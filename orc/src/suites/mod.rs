use crate::core::*;
pub mod util;
mod types;
mod clause;
pub mod cons;
mod impls;
mod am1;
mod enc;
mod vm;
pub mod inst;
mod obj;
mod alg;

pub const fn s(prop: &'static str, name: &'static str, what: &'static str, run: SuiteFn, exh: u64, quick: u64, thorough: u64) -> Suite {
    Suite { prop, name, what, run, exh, quick, thorough }
}
pub fn all() -> Vec<Suite> {
    let mut v = vec![];
    v.extend(types::suites());
    v.extend(clause::suites());
    v.extend(cons::suites());
    v.extend(impls::suites());
    v.extend(am1::suites());
    v.extend(enc::suites());
    v.extend(vm::suites());
    v.extend(inst::suites());
    v.extend(obj::suites());
    v.extend(alg::suites());
    v
}
