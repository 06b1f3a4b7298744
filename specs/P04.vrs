#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
//@include lit.vrs
//@include lit_eq.vrs
//@include assignment.vrs
//@include assign_fn.vrs
//@include sem.vrs
//@include sums.vrs
//@include sort.vrs
//@include clause.vrs
//@include ints.vrs
//@include clause_ops.vrs
}
fn main() {}
