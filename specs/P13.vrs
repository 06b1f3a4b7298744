#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@grename isize::try_from => vx_isize_from
//@include lit.vrs assume=P04
//@include lit_eq.vrs assume=P04
//@include assignment.vrs
//@include assign_fn.vrs assume=P02
//@include sem.vrs
//@include sums.vrs
//@include cons_sem.vrs
//@include sort.vrs
//@include clause.vrs assume=P04
//@include card.vrs assume=P05
//@include ints.vrs
//@include pb.vrs assume=P06
//@include pbcard.vrs assume=P06
//@include clause_ops.vrs assume=P04
//@include cnf_sem.vrs assume=P07
//@include atomics.vrs assume=P07
//@include enc_lem.vrs assume=P08
//@include sat.vrs
//@include inst.vrs
}
fn main() {}
