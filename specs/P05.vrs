use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus! {
//@include lit.vrs
//@include assignment.vrs
//@include assign_fn.vrs
//@include sem.vrs
//@include sums.vrs
//@include cons_sem.vrs
//@include clause.vrs
//@include card.vrs
//@include sort.vrs
impl CardConstraint {
//@fn src/types/constraints.rs CardConstraint::normalize
//@ret r
    ensures r.op() == self.op(), r.bnd() == self.bnd(), same_elems(r.l(), self.l()), sorted_lits(r.l()), forall|a: Asg| #[trigger] r.sat(a) == self.sat(a),
//@rename .sort_unstable => .vx_sort
//@closure 0 u: ()
    ensures same_elems(final(lits)@, old(lits)@), sorted_lits(final(lits)@),
//@ghost end
    proof { assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { lem_sm_perm(vx_tail.l(), self.l(), fc(a)); } }
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<Clause> for CardConstraint {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(v: Clause) -> CardConstraint { arbitrary() }
}
impl From<Clause> for CardConstraint {
//@fn src/types/constraints.rs <CardConstraint as From<Clause>>::from
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) <==> value.sat(a),
//@sub new_lb\(value, 1\) ==> new_lb(value.lits, 1)
//@ghost end
    proof { assert forall|a: Asg| #[trigger] vx_tail.sat(a) <==> value.sat(a) by { lem_cnt_logic(value.s(), a); } }
//@end
}
}
fn main() {}
