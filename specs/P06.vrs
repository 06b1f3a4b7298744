#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@grename isize::try_from => vx_isize_from
//@include lit.vrs
//@include assignment.vrs
//@include assign_fn.vrs
//@include sem.vrs
//@include sums.vrs
//@include cons_sem.vrs
//@include clause.vrs
//@include card.vrs only=CardConstraint::new_ub,CardConstraint::new_lb,CardConstraint::new_eq
//@include sort.vrs
//@include ints.vrs
//@include lit_eq.vrs
//@include pb.vrs
//@include pbcard.vrs
}
fn main() {}
