#![feature(const_destruct)]
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
verus! {
global size_of usize == 8;
//@grename isize::try_from => vx_isize_from
//@include lit.vrs
//@include assignment.vrs
//@include sem.vrs
//@include sums.vrs
//@include cons_sem.vrs
//@include clause.vrs
//@include sort.vrs
//@include card.vrs only=CardUbConstr::decompose_ref,CardLbConstr::decompose_ref,CardUbConstr::is_tautology,CardUbConstr::is_unsat,CardLbConstr::is_tautology,CardLbConstr::is_unsat,CardEqConstr::is_unsat,CardConstraint::is_tautology,CardConstraint::is_unsat
//@include ints.vrs
//@include lit_eq.vrs
//@include pb.vrs only=PbUbConstr::decompose_ref,PbLbConstr::decompose_ref,PbUbConstr::is_tautology,PbUbConstr::is_unsat,PbLbConstr::is_tautology,PbLbConstr::is_unsat,PbEqConstr::is_unsat,PbConstraint::is_tautology,PbConstraint::is_unsat,PbConstraint::new_unit,PbConstraint::new_ub_unsigned,PbConstraint::new_lb_unsigned,PbConstraint::convert_input_lits,PbConstraint::new_lb,PbConstraint::weight_sum,PbConstraint::get_data,PbConstraint::set_bound,PbConstraint::add,PbConstraint::bound
// ---- trusted: unwrapping returns only when there is a value (the documented panic otherwise) ----
#[verifier::external_body]
pub fn vx_int_expect<T>(x: Result<T, std::num::TryFromIntError>, m: &str) -> (r: T) ensures x is Ok, x->Ok_0 == r { x.expect(m) }
#[verifier::external_body]
pub fn vx_int_unwrap<T>(x: Result<T, std::num::TryFromIntError>) -> (r: T) ensures x is Ok, x->Ok_0 == r { x.unwrap() }
// ---- trusted: the derived Clone copies ----
#[verifier::external_body]
pub fn vx_clone_pb(x: &PbConstraint) -> (r: PbConstraint) ensures r == *x { unimplemented!() }
pub proof fn lem_wopps1(s: Seq<(Lit, usize)>, x: (Lit, usize), a: Asg)
    ensures ws(wopps(s).push(x), a) == wt(s) - ws(s, a) + fw(a)(x), wt(wopps(s).push(x)) == wt(s) + x.1,
{
    lem_wopps(s, a); lem_sm_push(wopps(s), x, fw(a)); lem_sm_push(wopps(s), x, ft());
}
pub open spec fn iwopps(s: Seq<(Lit, usize)>) -> Seq<(Lit, isize)> { Seq::new(s.len(), |i: int| (s[i].0.opp(), s[i].1 as isize)) }
pub proof fn lem_iwopps1(s: Seq<(Lit, usize)>, x: (Lit, isize), a: Asg)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 <= isize::MAX,
    ensures iws(iwopps(s).push(x), a) == wt(s) - ws(s, a) + fi(a)(x), iabs(iwopps(s).push(x)) == wt(s) + fabs()(x), sm(iwopps(s).push(x), fneg()) == fneg()(x),
{
    lem_sm_push(iwopps(s), x, fneg()); lem_sm_const(iwopps(s), fneg(), 0);
    lem_wopps(s, a); lem_sm_push(iwopps(s), x, fi(a)); lem_sm_push(iwopps(s), x, fabs());
    lem_sm_eq(iwopps(s), wopps(s), fi(a), fw(a)); lem_sm_eq(iwopps(s), wopps(s), fabs(), ft());
}
/// a one-element array, as the vector it is collected into
pub fn vx_vec1<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); proof { assert(v@ =~= seq![x]); } v }
pub open spec fn wcard(s: Seq<Lit>) -> Seq<(Lit, usize)> { Seq::new(s.len(), |i: int| (s[i], 1usize)) }
pub proof fn lem_wcard(s: Seq<Lit>, x: (Lit, usize), a: Asg)
    ensures ws(wcard(s).push(x), a) == cnt(s, a) + fw(a)(x), wt(wcard(s).push(x)) == s.len() + x.1, ws(wcard(opps(s)).push(x), a) == s.len() - cnt(s, a) + fw(a)(x), wt(wcard(opps(s)).push(x)) == s.len() + x.1,
{
    lem_wcard1(s, x, a); lem_wcard1(opps(s), x, a); lem_cnt_opps(s, a);
}
pub proof fn lem_wcard1(s: Seq<Lit>, x: (Lit, usize), a: Asg)
    ensures ws(wcard(s).push(x), a) == cnt(s, a) + fw(a)(x), wt(wcard(s).push(x)) == s.len() + x.1,
{
    let w = wcard(s);
    lem_sm_push(w, x, fw(a)); lem_sm_push(w, x, ft());
    lem_sm_const(w, ft(), 1);
    assert forall|i: int| 0 <= i < w.len() implies fw(a)(#[trigger] w[i]) == fc(a)(s[i]) by { lem_fw(w[i].0, w[i].1, a); }
    lem_sm_eq(w, s, fw(a), fc(a));
}
//@fn src/encodings/atomics.rs lit_impl_card assert=assume panic=allowed chains=loop collect0=vec:(Lit,usize) collect1=vec:(Lit,usize)
//@ret r
    requires card.l().len() <= isize::MAX, card.l().len() + card.bnd() <= usize::MAX,
    ensures card.op() != Op::Eq, r.wf(), forall|s: Asg| #[trigger] r.sat(s) <==> (tv(s, lit) ==> card.sat(s)),
//@ghost start
    let ghost l0 = card.l();
    let ghost b0 = card.bnd() as int;
    proof {
        assert(wcard(l0).take(l0.len() as int) =~= wcard(l0)); assert(wcard(opps(l0)).take(l0.len() as int) =~= wcard(opps(l0)));
        assert forall|x: (Lit, usize)| wt(#[trigger] wcard(l0).push(x)) == l0.len() + x.1 by { lem_wcard(l0, x, |n: nat| true); }
        assert forall|x: (Lit, usize)| wt(#[trigger] wcard(opps(l0)).push(x)) == l0.len() + x.1 by { lem_wcard(l0, x, |n: nat| true); }
    }
//@loop 0 iter=it
    invariant it.seq().len() == l0.len(), forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i], vx_acc0@ =~= wcard(l0).take(it.index@ as int),
//@loop 1 iter=it
    invariant it.seq().len() == l0.len(), forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i], vx_acc1@ =~= wcard(l0).take(it.index@ as int),
//@ghost end
    let ghost t0 = vx_tail;
    proof {
        assert forall|s: Asg| #[trigger] t0.sat(s) <==> (tv(s, lit) ==> card.sat(s)) by {
            lem_cnt_bounds(l0, s); lem_opp(lit, s);
            let x = t0.l().last();
            lem_wcard(l0, x, s); lem_fw(x.0, x.1, s);
        }
    }
//@rename .expect => vx_int_expect
//@sub lits\.len\(\) \+ bound ==> lits.len() + *bound
//@end
//@fn src/encodings/atomics.rs card_impl_lit assert=assume panic=allowed chains=loop collect0=vec:(Lit,usize) collect1=vec:(Lit,usize)
//@ret r
    requires card.l().len() <= isize::MAX, card.l().len() + card.bnd() <= usize::MAX,
    ensures card.op() != Op::Eq || card_taut(card.op(), card.l().len() as int, card.bnd() as int), r.wf(), forall|s: Asg| #[trigger] r.sat(s) <==> (card.sat(s) ==> tv(s, lit)),
//@ghost start
    let ghost l0 = card.l();
    let ghost b0 = card.bnd() as int;
    proof {
        assert(wcard(l0).take(l0.len() as int) =~= wcard(l0)); assert(wcard(opps(l0)).take(l0.len() as int) =~= wcard(opps(l0)));
        assert forall|x: (Lit, usize)| wt(#[trigger] wcard(l0).push(x)) == l0.len() + x.1 by { lem_wcard(l0, x, |n: nat| true); }
        assert forall|x: (Lit, usize)| wt(#[trigger] wcard(opps(l0)).push(x)) == l0.len() + x.1 by { lem_wcard(l0, x, |n: nat| true); }
    }
//@loop 0 iter=it
    invariant it.seq().len() == l0.len(), forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i], vx_acc0@ =~= wcard(opps(l0)).take(it.index@ as int),
//@loop 1 iter=it
    invariant it.seq().len() == l0.len(), forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i], vx_acc1@ =~= wcard(opps(l0)).take(it.index@ as int),
//@ghost end
    let ghost t0 = vx_tail;
    proof {
        assert forall|s: Asg| #[trigger] t0.sat(s) <==> (card.sat(s) ==> tv(s, lit)) by {
            lem_cnt_bounds(l0, s); lem_opp(lit, s);
            let x = t0.l().last();
            lem_wcard(l0, x, s); lem_fw(x.0, x.1, s);
        }
    }
//@rename .expect => vx_int_expect
//@sub 2 \* lits\.len\(\) - bound - 1 ==> 2 * lits.len() - *bound - 1
//@sub lits\.len\(\) - bound \+ 1 ==> lits.len() - *bound + 1
//@end
//@fn src/encodings/atomics.rs lit_impl_pb assert=assume panic=allowed
//@ret r
    requires pb.wf(), wt(pb.l()) <= isize::MAX, pb.bnd() + wt(pb.l()) <= isize::MAX, pb.bnd() > isize::MIN,
    ensures pb.op() != Op::Eq, r.wf(), forall|s: Asg| #[trigger] r.sat(s) <==> (tv(s, lit) ==> pb.sat(s)),
//@rename .expect => vx_int_expect
//@rename .clone => vx_clone_pb
//@sub \[\(lit, ws\)\] ==> vx_vec1((lit, ws))
//@sub \[\(!lit, pb\.bound\(\)\)\] ==> vx_vec1((!lit, pb.bound()))
//@ghost start
    let ghost p0 = *pb;
    proof {
        lem_wt_nonneg(p0.l());
        assert forall|x: (Lit, isize)| iabs(#[trigger] seq![x]) == fabs()(x) && sm(seq![x], fneg()) == fneg()(x) by { lem_sm_push(Seq::empty(), x, fabs()); lem_sm_push(Seq::empty(), x, fneg()); assert(Seq::empty().push(x) =~= seq![x]); }
    }
//@ghost end
    let ghost t0 = vx_tail;
    proof {
        assert forall|s: Asg| #[trigger] t0.sat(s) <==> (tv(s, lit) ==> p0.sat(s)) by {
            lem_opp(lit, s); lem_ws_bounds(p0.l(), s);
            let x = if p0.op() == Op::Le { (lit, wt(p0.l()) as isize) } else { (lit.opp(), p0.bnd()) };
            lem_conv(seq![x], s); lem_sm_add(p0.l(), convs(seq![x]), fw(s));
            if p0.op() == Op::Le { lem_iw1((lit, wt(p0.l()) as isize), s); } else { lem_iw1((lit.opp(), p0.bnd()), s); }
        }
    }
//@end
//@fn src/encodings/atomics.rs pb_impl_lit assert=assume panic=allowed chains=loop tuple_ref collect0=vec:(Lit,usize) collect1=vec:(Lit,isize)
//@ret r
    requires pb.wf(), 2 * wt(pb.l()) <= isize::MAX,
    ensures pb.op() != Op::Eq || pb_taut(pb.op(), wt(pb.l()), pb.bnd() as int), r.wf(), forall|s: Asg| #[trigger] r.sat(s) <==> (pb.sat(s) ==> tv(s, lit)),
//@rename .expect => vx_int_expect
//@rename .unwrap => vx_int_unwrap
//@sub 2 \* ws - bound - 1 ==> 2 * ws - *bound - 1
//@sub ws - bound \+ 1 ==> ws - *bound + 1
//@loop 0 iter=it
    invariant it.seq().len() == l0.len(), forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i], vx_acc0@ =~= wopps(l0).take(it.index@ as int),
//@loop 1 iter=it
    invariant it.seq().len() == l0.len(), forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i], vx_acc1@ =~= iwopps(l0).take(it.index@ as int),
//@ghost start
    let ghost l0 = pb.l();
    let ghost b0 = pb.bnd() as int;
    proof {
        lem_wt_nonneg(l0); lem_sm_nonneg(l0, ft());
        assert forall|i: int| 0 <= i < l0.len() implies (#[trigger] l0[i]).1 <= isize::MAX by { assert(ft()(l0[i]) <= wt(l0)); }
        assert(wopps(l0).take(l0.len() as int) =~= wopps(l0)); assert(iwopps(l0).take(l0.len() as int) =~= iwopps(l0));
        assert forall|x: (Lit, usize)| wt(#[trigger] wopps(l0).push(x)) == wt(l0) + x.1 by { lem_wopps1(l0, x, |n: nat| true); }
        assert forall|x: (Lit, isize)| iabs(#[trigger] iwopps(l0).push(x)) == wt(l0) + fabs()(x) && sm(iwopps(l0).push(x), fneg()) == fneg()(x) by { lem_iwopps1(l0, x, |n: nat| true); }
    }
//@ghost end
    let ghost t0 = vx_tail;
    proof {
        assert forall|s: Asg| #[trigger] t0.sat(s) <==> (pb.sat(s) ==> tv(s, lit)) by {
            lem_opp(lit, s); lem_ws_bounds(l0, s);
            let x = (lit.opp(), wt(l0) as usize);
            lem_wopps1(l0, x, s); lem_fw(x.0, x.1, s);
            let y = (lit, (wt(l0) - b0 + 1) as isize);
            lem_iwopps1(l0, y, s); lem_iw(y.1, tv(s, y.0));
        }
    }
//@end
pub proof fn lem_iw1(x: (Lit, isize), a: Asg) ensures iws(seq![x], a) == (if tv(a, x.0) { x.1 as int } else { 0 }) { lem_sm_push(Seq::empty(), x, fi(a)); assert(Seq::empty().push(x) =~= seq![x]); lem_iw(x.1, tv(a, x.0)); }
pub proof fn lem_iw(w: isize, b: bool) ensures w * b2i(b) == (if b { w as int } else { 0 }) { assert(w * 1 == w) by (nonlinear_arith); assert(w * 0 == 0) by (nonlinear_arith); }
}
fn main() {}
