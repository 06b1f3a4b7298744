#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::ops::Range;
verus! {
global size_of usize == 8;
//@include lit.vrs
//@include assignment.vrs
//@include assign_fn.vrs assume=P02
//@include sem.vrs
//@include sums.vrs
//@include cons_sem.vrs
//@include sort.vrs
//@include clause.vrs assume=P04
//@include card.vrs assume=P05
//@include cnf_sem.vrs
//@include atomics.vrs only=lit_impl_lit,cube_impl_lit assume=P07
//@include enc.vrs
//@include encoded.vrs
//@include minmax.vrs
//@include totdb.vrs assume=P09
//@include totbuild.vrs assume=P09
//@include tot.vrs assume=P09
//@include totcon.vrs
//@include cardtr.vrs
//@include cardsim.vrs
//@include cardcon.vrs
}
fn main() {}
