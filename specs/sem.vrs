// ---- meaning of literals, clauses and sums under a total assignment ----
pub type Asg = spec_fn(nat) -> bool;
pub open spec fn tv(a: Asg, l: Lit) -> bool { a(l.v()) != l.neg() }
pub open spec fn cl_true(s: Seq<Lit>, a: Asg) -> bool { exists|i: int| 0 <= i < s.len() && tv(a, #[trigger] s[i]) }
pub open spec fn cube_true(s: Seq<Lit>, a: Asg) -> bool { forall|i: int| 0 <= i < s.len() ==> tv(a, #[trigger] s[i]) }
pub open spec fn has(s: Seq<Lit>, l: Lit) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == l }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn lem_opp(l: Lit, a: Asg)
    ensures l.opp().v() == l.v(), l.opp().neg() == !l.neg(), tv(a, l.opp()) == !tv(a, l), l.opp().opp() == l, l.opp() != l,
{
    assert(l.lidx / 2 <= 0x7fff_ffff);
    assert(2 * (l.lidx / 2) + l.lidx % 2 == l.lidx);
}
/// only literals of the given variables occur
pub open spec fn mentions(s: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> var_in((#[trigger] s[i]).v(), x) || var_in(s[i].v(), y)
}
pub open spec fn var_in(v: nat, x: Seq<Lit>) -> bool { exists|j: int| 0 <= j < x.len() && #[trigger] x[j].v() == v }
pub proof fn lem_opp_all()
    ensures forall|l: Lit| (#[trigger] l.opp()).v() == l.v() && l.opp().neg() == !l.neg() && l.opp() != l,
        forall|l: Lit, a: Asg| #[trigger] tv(a, l.opp()) == !tv(a, l),
        forall|l: Lit| #[trigger] l.opp().opp() == l,
{
    assert forall|l: Lit, a: Asg| #[trigger] tv(a, l.opp()) == !tv(a, l) by { lem_opp(l, a); }
    assert forall|l: Lit| (#[trigger] l.opp()).v() == l.v() && l.opp().neg() == !l.neg() && l.opp() != l by { lem_opp(l, |n: nat| true); }
    assert forall|l: Lit| #[trigger] l.opp().opp() == l by { lem_opp(l, |n: nat| true); }
}
/// `r` is the disjunction of the negated literals of x and the literals of y: the clause x1 & .. & xn -> y1 | .. | ym
pub open spec fn is_impl(x: Seq<Lit>, y: Seq<Lit>, r: Seq<Lit>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> has(x, (#[trigger] r[i]).opp()) || has(y, r[i])
    &&& forall|i: int| 0 <= i < x.len() ==> has(r, (#[trigger] x[i]).opp())
    &&& forall|i: int| 0 <= i < y.len() ==> has(r, #[trigger] y[i])
}
pub proof fn lem_impl(x: Seq<Lit>, y: Seq<Lit>, r: Seq<Lit>)
    requires is_impl(x, y, r),
    ensures mentions(r, x, y), forall|s: Asg| #[trigger] cl_true(r, s) <==> (cube_true(x, s) ==> cl_true(y, s)),
{
    lem_opp_all();
    assert forall|i: int| 0 <= i < r.len() implies var_in((#[trigger] r[i]).v(), x) || var_in(r[i].v(), y) by {
        if has(x, r[i].opp()) { let j = choose|j: int| 0 <= j < x.len() && #[trigger] x[j] == r[i].opp(); assert(x[j].v() == r[i].v()); }
        else { let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j] == r[i]; assert(y[j].v() == r[i].v()); }
    }
    assert forall|s: Asg| #[trigger] cl_true(r, s) <==> (cube_true(x, s) ==> cl_true(y, s)) by {
        if cl_true(r, s) && cube_true(x, s) {
            let i = choose|i: int| 0 <= i < r.len() && tv(s, #[trigger] r[i]);
            if has(x, r[i].opp()) { let j = choose|j: int| 0 <= j < x.len() && #[trigger] x[j] == r[i].opp(); assert(tv(s, x[j])); }
            else { let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j] == r[i]; assert(tv(s, y[j])); }
        }
        if !cube_true(x, s) {
            let j = choose|j: int| 0 <= j < x.len() && !tv(s, #[trigger] x[j]);
            assert(has(r, x[j].opp())); let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == x[j].opp(); assert(tv(s, r[i]));
        }
        if cl_true(y, s) {
            let j = choose|j: int| 0 <= j < y.len() && tv(s, #[trigger] y[j]);
            assert(has(r, y[j])); let i = choose|i: int| 0 <= i < r.len() && #[trigger] r[i] == y[j]; assert(tv(s, r[i]));
        }
    }
}
pub open spec fn opps(x: Seq<Lit>) -> Seq<Lit> { Seq::new(x.len(), |i: int| x[i].opp()) }
pub proof fn lem_single() ensures forall|b: Lit, s: Asg| #[trigger] cl_true(seq![b], s) <==> tv(s, b), forall|b: Lit, s: Asg| #[trigger] cube_true(seq![b], s) <==> tv(s, b)
{
    assert forall|b: Lit, s: Asg| #[trigger] cl_true(seq![b], s) <==> tv(s, b) by { assert(seq![b][0] == b); }
    assert forall|b: Lit, s: Asg| #[trigger] cube_true(seq![b], s) <==> tv(s, b) by { assert(seq![b][0] == b); }
}
/// a clause written in either order
pub proof fn lem_impl_form(x: Seq<Lit>, y: Seq<Lit>, r: Seq<Lit>)
    requires r =~= y + opps(x) || r =~= opps(x) + y,
    ensures is_impl(x, y, r), mentions(r, x, y), forall|s: Asg| #[trigger] cl_true(r, s) <==> (cube_true(x, s) ==> cl_true(y, s)),
        forall|b: Lit, s: Asg| #[trigger] cl_true(seq![b], s) <==> tv(s, b), forall|b: Lit, s: Asg| #[trigger] cube_true(seq![b], s) <==> tv(s, b),
{
    lem_opp_all();
    lem_single();
    let (n, m) = (x.len() as int, y.len() as int);
    let first = r =~= y + opps(x);
    assert forall|i: int| 0 <= i < r.len() implies has(x, (#[trigger] r[i]).opp()) || has(y, r[i]) by {
        if first { if i < m { assert(y[i] == r[i]); } else { assert(x[i - m] == r[i].opp()); } }
        else { if i < n { assert(x[i] == r[i].opp()); } else { assert(y[i - n] == r[i]); } }
    }
    assert forall|i: int| 0 <= i < x.len() implies has(r, (#[trigger] x[i]).opp()) by {
        if first { assert(r[m + i] == x[i].opp()); } else { assert(r[i] == x[i].opp()); }
    }
    assert forall|i: int| 0 <= i < y.len() implies has(r, #[trigger] y[i]) by {
        if first { assert(r[i] == y[i]); } else { assert(r[n + i] == y[i]); }
    }
    lem_impl(x, y, r);
}
