// ---- meaning of cardinality and pseudo-Boolean constraints ----
pub open spec fn fc(a: Asg) -> spec_fn(Lit) -> int { |l: Lit| b2i(tv(a, l)) }
/// number of true literals, counting every occurrence
pub open spec fn cnt(s: Seq<Lit>, a: Asg) -> int { sm(s, fc(a)) }
pub open spec fn fw(a: Asg) -> spec_fn((Lit, usize)) -> int { |p: (Lit, usize)| p.1 * b2i(tv(a, p.0)) }
/// weighted sum of the true literals
pub open spec fn ws(s: Seq<(Lit, usize)>, a: Asg) -> int { sm(s, fw(a)) }
pub open spec fn ft() -> spec_fn((Lit, usize)) -> int { |p: (Lit, usize)| p.1 as int }
/// total weight
pub open spec fn wt(s: Seq<(Lit, usize)>) -> int { sm(s, ft()) }
pub open spec fn fi(a: Asg) -> spec_fn((Lit, isize)) -> int { |p: (Lit, isize)| p.1 * b2i(tv(a, p.0)) }
/// weighted sum with weights of either sign
pub open spec fn iws(s: Seq<(Lit, isize)>, a: Asg) -> int { sm(s, fi(a)) }
pub open spec fn lits_of(s: Seq<(Lit, usize)>) -> Seq<Lit> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn wopps(s: Seq<(Lit, usize)>) -> Seq<(Lit, usize)> { Seq::new(s.len(), |i: int| (s[i].0.opp(), s[i].1)) }
pub proof fn lem_fw(l: Lit, w: usize, a: Asg) ensures fw(a)((l, w)) == (if tv(a, l) { w as int } else { 0 }), fw(a)((l.opp(), w)) == w - fw(a)((l, w)), 0 <= fw(a)((l, w)) <= w
{
    lem_opp(l, a);
    assert(w * 1 == w) by (nonlinear_arith); assert(w * 0 == 0) by (nonlinear_arith);
}
pub proof fn lem_cnt_bounds(s: Seq<Lit>, a: Asg) ensures 0 <= cnt(s, a) <= s.len()
{
    lem_sm_nonneg(s, fc(a)); lem_sm_le(s, fc(a), |l: Lit| 1int); lem_sm_const(s, |l: Lit| 1int, 1);
}
pub proof fn lem_cnt_opps(s: Seq<Lit>, a: Asg) ensures cnt(opps(s), a) == s.len() - cnt(s, a)
{
    lem_opp_all();
    lem_sm_eq(opps(s), s, fc(a), |l: Lit| b2i(tv(a, l.opp())));
    lem_sm_plus(s, fc(a), |l: Lit| b2i(tv(a, l.opp())), |l: Lit| 1int);
    lem_sm_const(s, |l: Lit| 1int, 1);
}
/// some / all / no literal true
pub proof fn lem_cnt_logic(s: Seq<Lit>, a: Asg) ensures cl_true(s, a) <==> cnt(s, a) >= 1, cube_true(s, a) <==> cnt(s, a) == s.len() decreases s.len()
{
    lem_cnt_bounds(s, a);
    if s.len() > 0 {
        let d = s.drop_last();
        lem_cnt_logic(d, a); lem_cnt_bounds(d, a);
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        if cl_true(d, a) { let i = choose|i: int| 0 <= i < d.len() && tv(a, #[trigger] d[i]); assert(tv(a, s[i])); }
        if tv(a, s.last()) { assert(tv(a, s[s.len() - 1])); }
        if cl_true(s, a) && !tv(a, s.last()) { let i = choose|i: int| 0 <= i < s.len() && tv(a, #[trigger] s[i]); assert(tv(a, d[i])); }
        if cube_true(s, a) { assert forall|i: int| 0 <= i < d.len() implies tv(a, #[trigger] d[i]) by { assert(tv(a, s[i])); } assert(tv(a, s[s.len() - 1])); }
        if cube_true(d, a) && tv(a, s.last()) { assert forall|i: int| 0 <= i < s.len() implies tv(a, #[trigger] s[i]) by { if i < d.len() { assert(tv(a, d[i])); } } }
    }
}
pub proof fn lem_ws_bounds(s: Seq<(Lit, usize)>, a: Asg) ensures 0 <= ws(s, a) <= wt(s), forall|i: int| 0 <= i < s.len() && tv(a, #[trigger] s[i].0) ==> s[i].1 <= ws(s, a)
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= fw(a)(#[trigger] s[i]) <= ft()(s[i]) by { lem_fw(s[i].0, s[i].1, a); }
    lem_sm_nonneg(s, fw(a)); lem_sm_le(s, fw(a), ft());
    assert forall|i: int| 0 <= i < s.len() && tv(a, #[trigger] s[i].0) implies s[i].1 <= ws(s, a) by { lem_fw(s[i].0, s[i].1, a); assert(fw(a)(s[i]) <= ws(s, a)); }
}
pub proof fn lem_wt_nonneg(s: Seq<(Lit, usize)>) ensures wt(s) >= 0, forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] wt(s.take(i)) <= wt(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 <= wt(s)
{
    lem_sm_nonneg(s, ft());
    assert forall|i: int| 0 <= i <= s.len() implies 0 <= #[trigger] wt(s.take(i)) <= wt(s) by { assert(0 <= sm(s.take(i), ft()) <= sm(s, ft())); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 <= wt(s) by { assert(ft()(s[i]) <= sm(s, ft())); }
}
pub proof fn lem_wopps(s: Seq<(Lit, usize)>, a: Asg) ensures ws(wopps(s), a) == wt(s) - ws(s, a), wt(wopps(s)) == wt(s)
{
    lem_opp_all();
    let g = |p: (Lit, usize)| p.1 * b2i(tv(a, p.0.opp()));
    lem_sm_eq(wopps(s), s, fw(a), g);
    assert forall|i: int| 0 <= i < s.len() implies fw(a)(#[trigger] s[i]) + g(s[i]) == ft()(s[i]) by { lem_fw(s[i].0, s[i].1, a); }
    lem_sm_plus(s, fw(a), g, ft());
    lem_sm_eq(wopps(s), s, ft(), ft());
}
// ---- partial assignments ----
pub open spec fn ext(p: Assignment, a: Asg) -> bool { forall|v: nat| #[trigger] a(v) == a(v) && (p.val(v as int) == TernaryVal::True ==> a(v)) && (p.val(v as int) == TernaryVal::False ==> !a(v)) }
pub open spec fn flo(p: Assignment) -> spec_fn(Lit) -> int { |l: Lit| b2i(p.lval(l) == TernaryVal::True) }
pub open spec fn fhi(p: Assignment) -> spec_fn(Lit) -> int { |l: Lit| b2i(p.lval(l) != TernaryVal::False) }
pub open spec fn wlo(p: Assignment) -> spec_fn((Lit, usize)) -> int { |q: (Lit, usize)| q.1 * b2i(p.lval(q.0) == TernaryVal::True) }
pub open spec fn whi(p: Assignment) -> spec_fn((Lit, usize)) -> int { |q: (Lit, usize)| q.1 * b2i(p.lval(q.0) != TernaryVal::False) }
pub proof fn lem_ext_lit(p: Assignment, a: Asg, l: Lit) requires ext(p, a) ensures p.lval(l) == TernaryVal::True ==> tv(a, l), p.lval(l) == TernaryVal::False ==> !tv(a, l) { assert(a(l.v()) == a(l.v())); }
pub proof fn lem_ext_cnt(p: Assignment, a: Asg, s: Seq<Lit>) requires ext(p, a) ensures sm(s, flo(p)) <= cnt(s, a) <= sm(s, fhi(p))
{
    assert forall|i: int| 0 <= i < s.len() implies flo(p)(#[trigger] s[i]) <= fc(a)(s[i]) <= fhi(p)(s[i]) by { lem_ext_lit(p, a, s[i]); }
    lem_sm_le(s, flo(p), fc(a)); lem_sm_le(s, fc(a), fhi(p));
}
pub proof fn lem_wval(w: usize, b: bool) ensures w * b2i(b) == (if b { w as int } else { 0 }) { assert(w * 1 == w) by (nonlinear_arith); assert(w * 0 == 0) by (nonlinear_arith); }
pub proof fn lem_ext_ws(p: Assignment, a: Asg, s: Seq<(Lit, usize)>) requires ext(p, a) ensures sm(s, wlo(p)) <= ws(s, a) <= sm(s, whi(p))
{
    assert forall|i: int| 0 <= i < s.len() implies wlo(p)(#[trigger] s[i]) <= fw(a)(s[i]) <= whi(p)(s[i]) by {
        lem_ext_lit(p, a, s[i].0); lem_wval(s[i].1, p.lval(s[i].0) == TernaryVal::True); lem_wval(s[i].1, tv(a, s[i].0)); lem_wval(s[i].1, p.lval(s[i].0) != TernaryVal::False);
    }
    lem_sm_le(s, wlo(p), fw(a)); lem_sm_le(s, fw(a), whi(p));
}
/// every variable occurs at most once
pub open spec fn distinct_vars(s: Seq<Lit>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).v() != (#[trigger] s[j]).v() }
/// the extension making every open literal of s true (b) or false (!b)
pub open spec fn push_ext(p: Assignment, s: Seq<Lit>, b: bool) -> Asg {
    |v: nat| if p.val(v as int) == TernaryVal::True { true } else if p.val(v as int) == TernaryVal::False { false } else { has(s, Lit::mk(v, false)) == b }
}
pub proof fn lem_push_ext(p: Assignment, s: Seq<Lit>, b: bool)
    requires distinct_vars(s),
    ensures ext(p, push_ext(p, s, b)), forall|i: int| 0 <= i < s.len() ==> tv(push_ext(p, s, b), #[trigger] s[i]) == (if b { p.lval(s[i]) != TernaryVal::False } else { p.lval(s[i]) == TernaryVal::True }),
{
    let a = push_ext(p, s, b);
    assert forall|i: int| 0 <= i < s.len() implies tv(a, #[trigger] s[i]) == (if b { p.lval(s[i]) != TernaryVal::False } else { p.lval(s[i]) == TernaryVal::True }) by {
        let l = s[i];
        assert(l.lidx == 2 * (l.lidx / 2) + l.lidx % 2);
        if !l.neg() { assert(Lit::mk(l.v(), false) == l); assert(has(s, l)); }
        else if has(s, Lit::mk(l.v(), false)) {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == Lit::mk(l.v(), false);
            assert(s[j].v() == l.v() && !s[j].neg()); assert(i != j); assert(false);
        }
    }
}
pub proof fn lem_push_cnt(p: Assignment, s: Seq<Lit>)
    requires distinct_vars(s),
    ensures ext(p, push_ext(p, s, true)), ext(p, push_ext(p, s, false)), cnt(s, push_ext(p, s, true)) == sm(s, fhi(p)), cnt(s, push_ext(p, s, false)) == sm(s, flo(p)),
{
    lem_push_ext(p, s, true); lem_push_ext(p, s, false);
    lem_sm_eq(s, s, fc(push_ext(p, s, true)), fhi(p)); lem_sm_eq(s, s, fc(push_ext(p, s, false)), flo(p));
}
