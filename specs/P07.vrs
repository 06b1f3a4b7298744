use vstd::prelude::*;
verus! {
//@include lit.vrs
//@include assignment.vrs
//@include sem.vrs
//@include clause.vrs
//@include cnf_sem.vrs
//@include atomics.vrs
}
fn main() {}
