#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::hash::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::ops::Range;
verus! {
global size_of usize == 8;
//@grename isize::try_from => vx_isize_from
//@include lit.vrs assume=P04
//@include lit_eq.vrs assume=P04
//@include assignment.vrs
//@include assign_fn.vrs assume=P02
//@include sem.vrs
//@include sums.vrs
//@include cons_sem.vrs
//@include sort.vrs
//@include clause.vrs assume=P04
//@include card.vrs assume=P05
//@include ints.vrs
//@include pb.vrs assume=P06
//@include cnf_sem.vrs
//@include atomics.vrs only=lit_impl_lit,cube_impl_lit assume=P07
//@include enc.vrs
//@include encoded.vrs
//@include totdb.vrs assume=P09
//@include totbuild.vrs assume=P09
//@include tot.vrs assume=P09
//@include totcon.vrs assume=P09
//@include cardtr.vrs
pub type RsHashMap<K, V> = std::collections::HashMap<K, V>;
#[verifier::external_body]
pub fn vx_map_new<K, V>() -> (r: std::collections::HashMap<K, V>) ensures r@ == Map::<K, V>::empty() { std::collections::HashMap::new() }
//@include mapsum.vrs
//@include pbsim.vrs
//@include cardcon.vrs assume=P09
//@include pbcon.vrs
}
fn main() {}
