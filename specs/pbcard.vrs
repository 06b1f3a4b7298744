pub open spec fn ones(s: Seq<Lit>) -> Seq<(Lit, isize)> { Seq::new(s.len(), |i: int| (s[i], 1isize)) }
pub proof fn lem_ones(s: Seq<Lit>) ensures iabs(ones(s)) == s.len(), sm(ones(s), fneg()) == 0, forall|a: Asg| #[trigger] iws(ones(s), a) == cnt(s, a)
{
    lem_sm_const(ones(s), fabs(), 1); lem_sm_const(ones(s), fneg(), 0);
    assert forall|a: Asg| #[trigger] iws(ones(s), a) == cnt(s, a) by { lem_sm_eq(ones(s), s, fi(a), fc(a)); }
}
impl Clause {
//@fn src/types/constraints.rs <Clause as IntoIterator>::into_iter pub
//@ret r
    ensures r.remaining() == self.s(), r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@sub Self\s*::\s*IntoIter ==> std::vec::IntoIter<Lit>
//@end
}
// checked as inherent functions (a trait implementation cannot carry the size preconditions)
impl PbConstraint {
//@fn src/types/constraints.rs <PbConstraint as From<Clause>>::from as=from_clause chains=loop lazy=(Lit,isize)
//@ret r
    requires value.s().len() <= isize::MAX,
    ensures r.wf(), forall|a: Asg| #[trigger] r.sat(a) <==> value.sat(a),
//@loop 0 iter=it
    invariant it.seq() == l0, vx_acc0@ =~= ones(l0.take(it.index@ as int)),
//@ghost start
    let ghost l0 = value.s();
    proof { lem_ones(l0); assert(l0.take(l0.len() as int) =~= l0); }
//@ghost end
    let ghost t0 = vx_tail;
    proof { assert forall|a: Asg| #[trigger] t0.sat(a) <==> cl_true(l0, a) by { lem_cnt_logic(l0, a); assert(iws(ones(l0), a) == cnt(l0, a)); } }
//@end
//@fn src/types/constraints.rs <PbConstraint as From<CardConstraint>>::from as=from_card chains=loop lazy=(Lit,isize)
//@ret r
    requires value.bnd() <= isize::MAX, value.l().len() <= isize::MAX,
    ensures r.wf(), r.op() == value.op(), forall|a: Asg| #[trigger] r.sat(a) <==> value.sat(a),
//@loop 0 iter=it
    invariant it.seq() == l0, vx_acc0@ =~= ones(l0.take(it.index@ as int)),
//@loop 1 iter=it
    invariant it.seq() == l0, vx_acc1@ =~= ones(l0.take(it.index@ as int)),
//@loop 2 iter=it
    invariant it.seq() == l0, vx_acc2@ =~= ones(l0.take(it.index@ as int)),
//@ghost start
    let ghost s0 = value;
    let ghost l0 = value.l();
    proof { lem_ones(l0); assert(l0.take(l0.len() as int) =~= l0); }
//@ghost end
    let ghost t0 = vx_tail;
    proof { assert forall|a: Asg| #[trigger] t0.sat(a) <==> s0.sat(a) by { assert(iws(ones(l0), a) == cnt(l0, a)); } }
//@end
}
