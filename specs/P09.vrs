#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@include lit.vrs
//@include assignment.vrs
//@include assign_fn.vrs assume=P02
//@include sem.vrs
//@include sums.vrs
//@include cons_sem.vrs
//@include clause.vrs assume=P04
//@include cnf_sem.vrs
//@include atomics.vrs only=lit_impl_lit,cube_impl_lit assume=P07
//@include enc.vrs
//@include minmax.vrs
//@include totdb.vrs

//@include totbuild.vrs
//@include tot.vrs
}
