// ---- pseudo-Boolean constraints ----
//@struct src/types/constraints.rs PbUbConstr
//@struct src/types/constraints.rs PbLbConstr
//@struct src/types/constraints.rs PbEqConstr
//@struct src/types/constraints.rs PbConstraint
//@struct src/types/constraints.rs PbToCardError
impl PbUbConstr {
    pub open spec fn sat(&self, a: Asg) -> bool { ws(self.lits@, a) <= self.b }
    pub open spec fn wf(&self) -> bool { self.weight_sum == wt(self.lits@) }
}
impl PbLbConstr {
    pub open spec fn sat(&self, a: Asg) -> bool { ws(self.lits@, a) >= self.b }
    pub open spec fn wf(&self) -> bool { self.weight_sum == wt(self.lits@) }
}
impl PbEqConstr {
    pub open spec fn sat(&self, a: Asg) -> bool { ws(self.lits@, a) == self.b }
    pub open spec fn wf(&self) -> bool { self.weight_sum == wt(self.lits@) }
}
impl PbConstraint {
    pub open spec fn op(&self) -> Op { match self { PbConstraint::Ub(_) => Op::Le, PbConstraint::Lb(_) => Op::Ge, PbConstraint::Eq(_) => Op::Eq } }
    pub open spec fn l(&self) -> Seq<(Lit, usize)> { match self { PbConstraint::Ub(c) => c.lits@, PbConstraint::Lb(c) => c.lits@, PbConstraint::Eq(c) => c.lits@ } }
    pub open spec fn bnd(&self) -> isize { match self { PbConstraint::Ub(c) => c.b, PbConstraint::Lb(c) => c.b, PbConstraint::Eq(c) => c.b } }
    pub open spec fn wsum(&self) -> usize { match self { PbConstraint::Ub(c) => c.weight_sum, PbConstraint::Lb(c) => c.weight_sum, PbConstraint::Eq(c) => c.weight_sum } }
    pub open spec fn wf(&self) -> bool { self.wsum() == wt(self.l()) }
    /// the meaning of the constraint
    pub open spec fn sat(&self, a: Asg) -> bool { holds(self.op(), ws(self.l(), a), self.bnd() as int) }
}
// ---- weights of either sign ----
pub open spec fn fabs() -> spec_fn((Lit, isize)) -> int { |p: (Lit, isize)| if p.1 >= 0 { p.1 as int } else { -p.1 as int } }
/// total absolute weight
pub open spec fn iabs(s: Seq<(Lit, isize)>) -> int { sm(s, fabs()) }
pub open spec fn conv(p: (Lit, isize)) -> (Lit, usize) { if p.1 >= 0 { (p.0, p.1 as usize) } else { (p.0.opp(), (-p.1) as usize) } }
pub open spec fn convs(s: Seq<(Lit, isize)>) -> Seq<(Lit, usize)> { Seq::new(s.len(), |i: int| conv(s[i])) }
pub open spec fn fneg() -> spec_fn((Lit, isize)) -> int { |p: (Lit, isize)| if p.1 >= 0 { 0 } else { -p.1 as int } }
pub proof fn lem_conv(s: Seq<(Lit, isize)>, a: Asg)
    requires iabs(s) <= isize::MAX,
    ensures ws(convs(s), a) == iws(s, a) + sm(s, fneg()), wt(convs(s)) == iabs(s), 0 <= sm(s, fneg()) <= iabs(s), forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] sm(s.take(i), fneg()) <= sm(s, fneg()),
        forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] iabs(s.take(i)) <= iabs(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 != isize::MIN,
{
    lem_sm_nonneg(s, fabs()); lem_sm_nonneg(s, fneg()); lem_sm_le(s, fneg(), fabs());
    assert forall|i: int| 0 <= i <= s.len() implies 0 <= #[trigger] iabs(s.take(i)) <= iabs(s) by { assert(0 <= sm(s.take(i), fabs()) <= sm(s, fabs())); }
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).1 != isize::MIN by { assert(fabs()(s[i]) <= sm(s, fabs())); }
    lem_sm_eq(convs(s), s, ft(), fabs());
    let g = |p: (Lit, isize)| fw(a)(conv(p));
    lem_sm_eq(convs(s), s, fw(a), g);
    assert forall|i: int| 0 <= i < s.len() implies fi(a)(#[trigger] s[i]) + fneg()(s[i]) == g(s[i]) by {
        let (l, w) = s[i]; lem_opp(l, a);
        lem_fw(conv(s[i]).0, conv(s[i]).1, a);
        assert(w * b2i(tv(a, l)) == (if tv(a, l) { w as int } else { 0 })) by { assert(w * 1 == w) by (nonlinear_arith); assert(w * 0 == 0) by (nonlinear_arith); }
    }
    lem_sm_plus(s, fi(a), fneg(), g);
}
// ---- classification by bound and total weight ----
pub open spec fn pb_taut(k: Op, t: int, b: int) -> bool { match k { Op::Le => b >= t && b >= 0, Op::Ge => b <= 0, Op::Eq => b == 0 && t == 0 } }
pub open spec fn pb_unsat(k: Op, t: int, b: int) -> bool { match k { Op::Le => b < 0, Op::Ge => b > t, Op::Eq => b < 0 || b > t } }
pub proof fn lem_pb_class(k: Op, s: Seq<(Lit, usize)>, b: isize)
    ensures
        pb_taut(k, wt(s), b as int) ==> forall|a: Asg| holds(k, #[trigger] ws(s, a), b as int),
        pb_unsat(k, wt(s), b as int) ==> forall|a: Asg| !holds(k, #[trigger] ws(s, a), b as int),
        wt(s) >= 0,
{
    lem_wt_nonneg(s);
    assert forall|a: Asg| 0 <= #[trigger] ws(s, a) <= wt(s) by { lem_ws_bounds(s, a); }
}
pub proof fn lem_pb_all(s: Seq<(Lit, usize)>)
    requires distinct_vars(lits_of(s)),
    ensures ws(s, all_asg(lits_of(s), true)) == wt(s), ws(s, all_asg(lits_of(s), false)) == 0,
{
    let l = lits_of(s);
    lem_opp_all();
    lem_all_asg(l);
    let (t, f) = (all_asg(l, true), all_asg(l, false));
    assert forall|i: int| 0 <= i < s.len() implies fw(t)(#[trigger] s[i]) == ft()(s[i]) && fw(f)(s[i]) == 0 by {
        lem_fw(s[i].0, s[i].1, t); lem_fw(s[i].0, s[i].1, f);
        assert(tv(t, l[i])); assert(tv(f, opps(l)[i]));
    }
    lem_sm_eq(s, s, fw(t), ft()); lem_sm_const(s, fw(f), 0);
}
pub proof fn lem_pb_complete(k: Op, s: Seq<(Lit, usize)>, b: isize)
    requires distinct_vars(lits_of(s)),
    ensures
        !pb_taut(k, wt(s), b as int) ==> exists|a: Asg| !holds(k, #[trigger] ws(s, a), b as int),
        !pb_unsat(k, wt(s), b as int) && k != Op::Eq ==> exists|a: Asg| holds(k, #[trigger] ws(s, a), b as int),
{
    lem_pb_all(s); lem_wt_nonneg(s);
    let t = ws(s, all_asg(lits_of(s), true)); let f = ws(s, all_asg(lits_of(s), false));
}
/// every weight at least m: the sum is 0 without a true literal and at least m with one
pub open spec fn all_ge(s: Seq<(Lit, usize)>, m: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 >= m }
pub proof fn lem_ws_min(s: Seq<(Lit, usize)>, m: int, a: Asg)
    requires all_ge(s, m),
    ensures cl_true(lits_of(s), a) ==> ws(s, a) >= m, !cl_true(lits_of(s), a) ==> ws(s, a) == 0, !cl_true(lits_of(s), a) <==> cube_true(opps(lits_of(s)), a), cube_true(lits_of(s), a) <==> !cl_true(opps(lits_of(s)), a),
{
    lem_opp_all();
    let l = lits_of(s);
    lem_ws_bounds(s, a);
    if cl_true(l, a) { let i = choose|i: int| 0 <= i < l.len() && tv(a, #[trigger] l[i]); assert(tv(a, s[i].0)); }
    else {
        assert forall|i: int| 0 <= i < s.len() implies fw(a)(#[trigger] s[i]) == 0 by { lem_fw(s[i].0, s[i].1, a); assert(!tv(a, l[i])); }
        lem_sm_const(s, fw(a), 0);
        assert forall|i: int| 0 <= i < l.len() implies tv(a, #[trigger] opps(l)[i]) by { assert(!tv(a, l[i])); }
    }
    if cube_true(opps(l), a) && cl_true(l, a) { let i = choose|i: int| 0 <= i < l.len() && tv(a, #[trigger] l[i]); assert(tv(a, opps(l)[i])); }
    if cube_true(l, a) && cl_true(opps(l), a) { let i = choose|i: int| 0 <= i < l.len() && tv(a, #[trigger] opps(l)[i]); assert(tv(a, l[i])); }
    if !cl_true(opps(l), a) { assert forall|i: int| 0 <= i < l.len() implies tv(a, #[trigger] l[i]) by { assert(!tv(a, opps(l)[i])); } }
}
/// the same through the complement: some literal false means the sum misses at least m
pub proof fn lem_ws_min_neg(s: Seq<(Lit, usize)>, m: int, a: Asg)
    requires all_ge(s, m),
    ensures cl_true(opps(lits_of(s)), a) ==> ws(s, a) <= wt(s) - m, !cl_true(opps(lits_of(s)), a) ==> ws(s, a) == wt(s), cube_true(lits_of(s), a) <==> !cl_true(opps(lits_of(s)), a),
{
    lem_ws_min(s, m, a); lem_wopps(s, a);
    assert(lits_of(wopps(s)) =~= opps(lits_of(s)));
    lem_ws_min(wopps(s), m, a);
}
pub open spec fn all_w(s: Seq<(Lit, usize)>, u: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 == u }
#[verifier::spinoff_prover]
pub proof fn lem_unit(s: Seq<(Lit, usize)>, u: int, a: Asg)
    requires all_w(s, u),
    ensures ws(s, a) == u * cnt(lits_of(s), a), wt(s) == u * s.len(),
{
    let l = lits_of(s);
    let g = |p: (Lit, usize)| b2i(tv(a, p.0));
    lem_sm_eq(l, s, fc(a), g);
    assert forall|i: int| 0 <= i < s.len() implies fw(a)(#[trigger] s[i]) == u * g(s[i]) by { }
    lem_sm_scale(s, fw(a), g, u);
    lem_sm_const(s, ft(), u);
}
#[verifier::spinoff_prover]
pub proof fn lem_div(u: int, c: int, b: int)
    requires u > 0, b >= 0,
    ensures u * c <= b <==> c <= b / u, u * c >= b <==> c >= b / u + (if b % u != 0 { 1int } else { 0 }), b % u == 0 ==> (u * c == b <==> c == b / u), b % u != 0 ==> u * c != b,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, u);
    let (q, r) = (b / u, b % u);
    assert(b == u * q + r && 0 <= r < u);
    if c <= q { assert(u * c <= u * q) by (nonlinear_arith) requires c <= q, u > 0; }
    if c >= q + 1 { assert(u * c >= u * q + u) by (nonlinear_arith) requires c >= q + 1, u > 0; }
    if c < q { assert(u * c + u <= u * q) by (nonlinear_arith) requires c < q, u > 0; }
}
pub proof fn lem_repeat(s: Seq<Lit>, l: Lit, w: usize, a: Asg, t: Seq<Lit>)
    requires t.len() == s.len() + w, forall|i: int| 0 <= i < s.len() ==> t[i] == s[i], forall|i: int| s.len() <= i < t.len() ==> t[i] == l,
    ensures cnt(t, a) == cnt(s, a) + fw(a)((l, w)),
{
    let r = Seq::new(w as nat, |i: int| l);
    assert(t =~= s + r);
    lem_sm_add(s, r, fc(a));
    lem_sm_const(r, fc(a), b2i(tv(a, l)));
    lem_fw(l, w, a);
    assert(b2i(tv(a, l)) * w == (if tv(a, l) { w as int } else { 0 })) by { assert(1 * w == w) by (nonlinear_arith); assert(0 * w == 0) by (nonlinear_arith); }
}
pub proof fn lem_wlo(p: Assignment, s: Seq<(Lit, usize)>)
    ensures forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] sm(s.take(i), wlo(p)) <= wt(s), forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] sm(s.take(i), whi(p)) <= wt(s),
{
    assert forall|i: int| 0 <= i < s.len() implies 0 <= wlo(p)(#[trigger] s[i]) <= ft()(s[i]) && 0 <= whi(p)(s[i]) <= ft()(s[i]) by { let q = s[i]; lem_wval(q.1, p.lval(q.0) == TernaryVal::True); lem_wval(q.1, p.lval(q.0) != TernaryVal::False); }
    lem_sm_nonneg(s, wlo(p)); lem_sm_nonneg(s, whi(p)); lem_sm_le(s, wlo(p), ft()); lem_sm_le(s, whi(p), ft());
}
pub proof fn lem_push_ws(p: Assignment, s: Seq<(Lit, usize)>)
    requires distinct_vars(lits_of(s)),
    ensures ext(p, push_ext(p, lits_of(s), true)), ext(p, push_ext(p, lits_of(s), false)), ws(s, push_ext(p, lits_of(s), true)) == sm(s, whi(p)), ws(s, push_ext(p, lits_of(s), false)) == sm(s, wlo(p)),
{
    let l = lits_of(s);
    lem_push_ext(p, l, true); lem_push_ext(p, l, false);
    assert forall|i: int| 0 <= i < s.len() implies fw(push_ext(p, l, true))(#[trigger] s[i]) == whi(p)(s[i]) && fw(push_ext(p, l, false))(s[i]) == wlo(p)(s[i]) by { assert(l[i] == s[i].0); }
    lem_sm_eq(s, s, fw(push_ext(p, l, true)), whi(p)); lem_sm_eq(s, s, fw(push_ext(p, l, false)), wlo(p));
}
/// the same weight for every literal
pub open spec fn same_weights(s: Seq<(Lit, usize)>, t: Seq<(Lit, usize)>) -> bool { wt(s) == wt(t) && forall|a: Asg| #[trigger] ws(s, a) == ws(t, a) }
/// sorted, and no literal twice
pub open spec fn strict_wl(s: Seq<(Lit, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.lidx < (#[trigger] s[j]).0.lidx }
/// one step of merging equal literals
pub proof fn lem_norm_step(s: Seq<(Lit, usize)>, i: int, m0: Seq<(Lit, usize)>, m: Seq<(Lit, usize)>)
    requires 0 <= i < s.len(), sorted_wl(s), strict_wl(m0), same_weights(s.take(i), m0), m0.len() == 0 <==> i == 0, m0.len() > 0 ==> m0.last().0 == s[i - 1].0,
        m0.len() > 0 && m0.last().0 == s[i].0 ==> m.len() == m0.len() && m == m0.drop_last().push(m.last()) && m.last().0 == s[i].0 && m.last().1 == m0.last().1 + s[i].1,
        m0.len() == 0 || m0.last().0 != s[i].0 ==> m == m0.push(s[i]),
    ensures strict_wl(m), same_weights(s.take(i + 1), m), m.len() > 0, m.last().0 == s[i].0,
{
    let merge = m0.len() > 0 && m0.last().0 == s[i].0;
    lem_sm_take(s, i, ft());
    if merge { lem_sm_push(m0.drop_last(), m.last(), ft()); } else { lem_sm_push(m0, s[i], ft()); }
    assert forall|a: Asg| #[trigger] ws(s.take(i + 1), a) == ws(m, a) by {
        lem_sm_take(s, i, fw(a)); assert(ws(s.take(i), a) == ws(m0, a));
        if merge {
            lem_sm_push(m0.drop_last(), m.last(), fw(a));
            lem_fw(m.last().0, m.last().1, a); lem_fw(m0.last().0, m0.last().1, a); lem_fw(s[i].0, s[i].1, a);
        } else { lem_sm_push(m0, s[i], fw(a)); }
    }
    if !merge && m0.len() > 0 { assert(wl_le(s[i - 1], s[i])); assert(s[i - 1].0.lidx != s[i].0.lidx) by { if s[i - 1].0.lidx == s[i].0.lidx { assert(s[i - 1].0 == s[i].0); } } }
}
/// a constraint with one weight u is a cardinality constraint with the bound divided by u
#[verifier::spinoff_prover]
pub proof fn lem_unit_card(s: Seq<(Lit, usize)>, u: int, b: int)
    requires all_w(s, u), u > 0, b >= 0,
    ensures forall|a: Asg| (#[trigger] ws(s, a) <= b) == (cnt(lits_of(s), a) <= b / u), forall|a: Asg| (#[trigger] ws(s, a) >= b) == (cnt(lits_of(s), a) >= b / u + (if b % u != 0 { 1int } else { 0 })),
        b % u == 0 ==> forall|a: Asg| (#[trigger] ws(s, a) == b) == (cnt(lits_of(s), a) == b / u), b % u != 0 ==> forall|a: Asg| #[trigger] ws(s, a) != b,
        0 <= b / u <= b, b % u != 0 ==> b / u < b,
{
    assert forall|a: Asg| true implies (#[trigger] ws(s, a) <= b) == (cnt(lits_of(s), a) <= b / u) && (ws(s, a) >= b) == (cnt(lits_of(s), a) >= b / u + (if b % u != 0 { 1int } else { 0 }))
        && (b % u == 0 ==> (ws(s, a) == b) == (cnt(lits_of(s), a) == b / u)) && (b % u != 0 ==> ws(s, a) != b) by { lem_unit(s, u, a); lem_div(u, cnt(lits_of(s), a), b); }
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, u);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(b, u);
    let q = b / u;
    assert(u * q >= q) by (nonlinear_arith) requires u >= 1, q >= 0;
}
impl PbUbConstr {
//@fn src/types/constraints.rs PbUbConstr::decompose
//@ret r
    ensures r.0@ == self.lits@, r.1 == self.b,
//@end
//@fn src/types/constraints.rs PbUbConstr::decompose_ref
//@ret r
    ensures *r.0 == self.lits, *r.1 == self.b,
//@end
//@fn src/types/constraints.rs PbUbConstr::invert tuple_ref=mut
//@ret r
    requires self.wf(), self.b != isize::MIN, self.weight_sum <= isize::MAX, self.weight_sum - self.b <= isize::MAX,
    ensures r.wf(), forall|a: Asg| #[trigger] r.sat(a) == self.sat(a), r.lits@ =~= wopps(self.lits@),
//@loop 0 iter=it
    invariant forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == ((*it.seq()[i]).0.opp(), (*it.seq()[i]).1),
//@ghost end
    proof {
        assert(vx_tail.lits@ =~= wopps(self.lits@));
        lem_wopps(self.lits@, |n: nat| true);
        assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { lem_wopps(self.lits@, a); }
    }
//@end
//@fn src/types/constraints.rs PbUbConstr::extend_to_card_constr chains=loop collect0=vec:Lit
//@ret r
    requires self.b >= 0,
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a),
//@loop 0 iter=it
    invariant it.seq() == self.lits@, forall|a: Asg| #[trigger] cnt(vx_acc0@, a) == ws(self.lits@.take(it.index@ as int), a),
//@loop 1 iter=it2
    invariant vx_acc0@.len() == acc.len() + it2.index@, forall|i: int| 0 <= i < acc.len() ==> vx_acc0@[i] == acc[i], forall|i: int| acc.len() <= i < vx_acc0@.len() ==> vx_acc0@[i] == l,
//@ghost loop 0 start
    let ghost acc = vx_acc0@;
//@ghost loop 0 end
    proof { assert forall|a: Asg| #[trigger] cnt(vx_acc0@, a) == ws(self.lits@.take(it.index@ as int + 1), a) by { lem_repeat(acc, l, w, a, vx_acc0@); lem_sm_take(self.lits@, it.index@ as int, fw(a)); assert(cnt(acc, a) == ws(self.lits@.take(it.index@ as int), a)); } }
//@ghost end
    proof { assert(self.lits@.take(self.lits@.len() as int) =~= self.lits@); assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { assert(cnt(vx_tail.lits@, a) == ws(self.lits@, a)); } }
//@end
//@fn src/types/constraints.rs PbUbConstr::is_tautology
//@ret r
    requires self.wf(),
    ensures r == pb_taut(Op::Le, wt(self.lits@), self.b as int),
//@end
//@fn src/types/constraints.rs PbUbConstr::is_unsat
//@ret r
    ensures r == pb_unsat(Op::Le, wt(self.lits@), self.b as int),
//@end
//@fn src/types/constraints.rs PbUbConstr::is_negative_assignment tuple_ref
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(opps(lits_of(self.lits@)), a),
        r == (self.b >= 0 && all_ge(self.lits@, self.b + 1)),
//@loop 0 iter=it
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 >= min, min == usize::MAX || exists|i: int| 0 <= i < it.index@ && (#[trigger] self.lits@[i]).1 == min,
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cube_true(opps(lits_of(self.lits@)), a)) by { lem_ws_min(self.lits@, self.b + 1, a); } }
//@end
//@fn src/types/constraints.rs PbUbConstr::find_unit_weight tuple_ref
//@ret r
    ensures r is Some ==> self.lits@.len() > 0 && all_w(self.lits@, r->0 as int), r is None ==> self.lits@.len() == 0 || exists|i: int| 0 <= i < self.lits@.len() && (#[trigger] self.lits@[i]).1 != self.lits@[0].1,
//@loop 0 iter=it
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
        unit_weight is None <==> it.index@ == 0, unit_weight is Some ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 == unit_weight->0,
//@end
//@fn src/types/constraints.rs PbUbConstr::is_clause tuple_ref
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(opps(lits_of(self.lits@)), a),
        r == (self.b >= 0 && self.b < wt(self.lits@) && all_ge(self.lits@, wt(self.lits@) - self.b)),
//@loop 0 iter=it
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 >= min, min == usize::MAX || exists|i: int| 0 <= i < it.index@ && (#[trigger] self.lits@[i]).1 == min,
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cl_true(opps(lits_of(self.lits@)), a)) by { lem_ws_min_neg(self.lits@, wt(self.lits@) - self.b, a); } }
//@end
}
impl PbLbConstr {
//@fn src/types/constraints.rs PbLbConstr::decompose
//@ret r
    ensures r.0@ == self.lits@, r.1 == self.b,
//@end
//@fn src/types/constraints.rs PbLbConstr::decompose_ref
//@ret r
    ensures *r.0 == self.lits, *r.1 == self.b,
//@end
//@fn src/types/constraints.rs PbLbConstr::invert tuple_ref=mut
//@ret r
    requires self.wf(), self.b != isize::MIN, self.weight_sum <= isize::MAX, self.weight_sum - self.b <= isize::MAX,
    ensures r.wf(), forall|a: Asg| #[trigger] r.sat(a) == self.sat(a), r.lits@ =~= wopps(self.lits@),
//@loop 0 iter=it
    invariant forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == ((*it.seq()[i]).0.opp(), (*it.seq()[i]).1),
//@ghost end
    proof {
        assert(vx_tail.lits@ =~= wopps(self.lits@));
        lem_wopps(self.lits@, |n: nat| true);
        assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { lem_wopps(self.lits@, a); }
    }
//@end
//@fn src/types/constraints.rs PbLbConstr::extend_to_card_constr chains=loop collect0=vec:Lit
//@ret r
    requires self.b >= 0,
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a),
//@loop 0 iter=it
    invariant it.seq() == self.lits@, forall|a: Asg| #[trigger] cnt(vx_acc0@, a) == ws(self.lits@.take(it.index@ as int), a),
//@loop 1 iter=it2
    invariant vx_acc0@.len() == acc.len() + it2.index@, forall|i: int| 0 <= i < acc.len() ==> vx_acc0@[i] == acc[i], forall|i: int| acc.len() <= i < vx_acc0@.len() ==> vx_acc0@[i] == l,
//@ghost loop 0 start
    let ghost acc = vx_acc0@;
//@ghost loop 0 end
    proof { assert forall|a: Asg| #[trigger] cnt(vx_acc0@, a) == ws(self.lits@.take(it.index@ as int + 1), a) by { lem_repeat(acc, l, w, a, vx_acc0@); lem_sm_take(self.lits@, it.index@ as int, fw(a)); assert(cnt(acc, a) == ws(self.lits@.take(it.index@ as int), a)); } }
//@ghost end
    proof { assert(self.lits@.take(self.lits@.len() as int) =~= self.lits@); assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { assert(cnt(vx_tail.lits@, a) == ws(self.lits@, a)); } }
//@end
//@fn src/types/constraints.rs PbLbConstr::is_tautology
//@ret r
    ensures r == pb_taut(Op::Ge, wt(self.lits@), self.b as int),
//@end
//@fn src/types/constraints.rs PbLbConstr::is_unsat
//@ret r
    requires self.wf(),
    ensures r == pb_unsat(Op::Ge, wt(self.lits@), self.b as int),
//@end
//@fn src/types/constraints.rs PbLbConstr::is_positive_assignment tuple_ref
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(lits_of(self.lits@), a),
        r == (self.b >= 0 && self.b <= wt(self.lits@) && all_ge(self.lits@, wt(self.lits@) - self.b + 1)),
//@loop 0 iter=it
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 >= min, min == usize::MAX || exists|i: int| 0 <= i < it.index@ && (#[trigger] self.lits@[i]).1 == min,
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cube_true(lits_of(self.lits@), a)) by { lem_ws_min_neg(self.lits@, wt(self.lits@) - self.b + 1, a); } }
//@end
//@fn src/types/constraints.rs PbLbConstr::find_unit_weight tuple_ref
//@ret r
    ensures r is Some ==> self.lits@.len() > 0 && all_w(self.lits@, r->0 as int), r is None ==> self.lits@.len() == 0 || exists|i: int| 0 <= i < self.lits@.len() && (#[trigger] self.lits@[i]).1 != self.lits@[0].1,
//@loop 0 iter=it
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
        unit_weight is None <==> it.index@ == 0, unit_weight is Some ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 == unit_weight->0,
//@end
//@fn src/types/constraints.rs PbLbConstr::is_clause tuple_ref
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(lits_of(self.lits@), a),
        r == (self.b > 0 && self.b <= wt(self.lits@) && all_ge(self.lits@, self.b as int)),
//@loop 0 iter=it
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 >= min, min == usize::MAX || exists|i: int| 0 <= i < it.index@ && (#[trigger] self.lits@[i]).1 == min,
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cl_true(lits_of(self.lits@), a)) by { lem_ws_min(self.lits@, self.b as int, a); } }
//@end
}
impl PbEqConstr {
//@fn src/types/constraints.rs PbEqConstr::decompose
//@ret r
    ensures r.0@ == self.lits@, r.1 == self.b,
//@end
//@fn src/types/constraints.rs PbEqConstr::decompose_ref
//@ret r
    ensures *r.0 == self.lits, *r.1 == self.b,
//@end
//@fn src/types/constraints.rs PbEqConstr::split
//@ret r
    requires self.wf(),
    ensures r.0.wf(), r.1.wf(), forall|a: Asg| #[trigger] self.sat(a) <==> (r.0.sat(a) && r.1.sat(a)), r.0.lits@ == self.lits@, r.1.lits@ == self.lits@, r.0.b == self.b, r.1.b == self.b,
//@ghost end
    proof { broadcast use ax_clone_pair; assert(vx_tail.0.lits@ =~= self.lits@); }
//@end
//@fn src/types/constraints.rs PbEqConstr::extend_to_card_constr chains=loop collect0=vec:Lit
//@ret r
    requires self.b >= 0,
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a),
//@loop 0 iter=it
    invariant it.seq() == self.lits@, forall|a: Asg| #[trigger] cnt(vx_acc0@, a) == ws(self.lits@.take(it.index@ as int), a),
//@loop 1 iter=it2
    invariant vx_acc0@.len() == acc.len() + it2.index@, forall|i: int| 0 <= i < acc.len() ==> vx_acc0@[i] == acc[i], forall|i: int| acc.len() <= i < vx_acc0@.len() ==> vx_acc0@[i] == l,
//@ghost loop 0 start
    let ghost acc = vx_acc0@;
//@ghost loop 0 end
    proof { assert forall|a: Asg| #[trigger] cnt(vx_acc0@, a) == ws(self.lits@.take(it.index@ as int + 1), a) by { lem_repeat(acc, l, w, a, vx_acc0@); lem_sm_take(self.lits@, it.index@ as int, fw(a)); assert(cnt(acc, a) == ws(self.lits@.take(it.index@ as int), a)); } }
//@ghost end
    proof { assert(self.lits@.take(self.lits@.len() as int) =~= self.lits@); assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { assert(cnt(vx_tail.lits@, a) == ws(self.lits@, a)); } }
//@end
//@fn src/types/constraints.rs PbEqConstr::is_unsat
//@ret r
    requires self.wf(),
    ensures r == pb_unsat(Op::Eq, wt(self.lits@), self.b as int),
//@end
//@fn src/types/constraints.rs PbEqConstr::is_positive_assignment chains=loop tuple_ref
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(lits_of(self.lits@), a),
        r == (self.b >= 0 && self.b == wt(self.lits@) && all_ge(self.lits@, 1)),
//@loop 0 iter=it
    invariant_except_break vx_all0, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 >= 1,
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
    ensures vx_all0 == all_ge(self.lits@, 1),
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cube_true(lits_of(self.lits@), a)) by { lem_ws_min_neg(self.lits@, 1, a); } }
//@end
//@fn src/types/constraints.rs PbEqConstr::is_negative_assignment chains=loop tuple_ref
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(opps(lits_of(self.lits@)), a),
        r == (self.b == 0 && all_ge(self.lits@, 1)),
//@loop 0 iter=it
    invariant_except_break vx_all0, forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 >= 1,
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
    ensures vx_all0 == all_ge(self.lits@, 1),
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cube_true(opps(lits_of(self.lits@)), a)) by { lem_ws_min(self.lits@, 1, a); } }
//@end
//@fn src/types/constraints.rs PbEqConstr::find_unit_weight tuple_ref
//@ret r
    ensures r is Some ==> self.lits@.len() > 0 && all_w(self.lits@, r->0 as int), r is None ==> self.lits@.len() == 0 || exists|i: int| 0 <= i < self.lits@.len() && (#[trigger] self.lits@[i]).1 != self.lits@[0].1,
//@loop 0 iter=it
    invariant it.seq().len() == self.lits@.len(), forall|i: int| 0 <= i < self.lits@.len() ==> *(#[trigger] it.seq()[i]) == self.lits@[i],
        unit_weight is None <==> it.index@ == 0, unit_weight is Some ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] self.lits@[i]).1 == unit_weight->0,
//@end
}
impl PbConstraint {
//@fn src/types/constraints.rs PbConstraint::new_unit
//@ret r
    ensures r.wf(), forall|a: Asg| #[trigger] r.sat(a) == tv(a, lit),
//@ghost end
    proof {
        assert(vx_tail.l() =~= seq![(lit, 1usize)]);
        assert forall|a: Asg| #[trigger] vx_tail.sat(a) == tv(a, lit) by { lem_sm_push(Seq::<(Lit, usize)>::empty(), (lit, 1usize), fw(a)); lem_fw(lit, 1, a); assert(Seq::<(Lit, usize)>::empty().push((lit, 1usize)) =~= seq![(lit, 1usize)]); }
        lem_sm_push(Seq::<(Lit, usize)>::empty(), (lit, 1usize), ft()); assert(Seq::<(Lit, usize)>::empty().push((lit, 1usize)) =~= seq![(lit, 1usize)]);
    }
//@end
//@fn src/types/constraints.rs PbConstraint::convert_input_lits inst=LI:Vec<(Lit,isize)> impl_ret=Vec<(Lit,usize)> chains=loop collect0=vec:(Lit,usize)
//@ret r
    requires iabs(lits@) <= isize::MAX,
    ensures r.0@ =~= convs(lits@), r.1 == wt(r.0@), r.1 == iabs(lits@), 0 <= r.2 <= iabs(lits@), r.2 == sm(lits@, fneg()), forall|a: Asg| #[trigger] ws(r.0@, a) == iws(lits@, a) + r.2,
//@ghost start
    let ghost l0 = lits@;
    proof { lem_conv(lits@, |n: nat| true); }
//@loop 0 iter=it
    invariant it.seq() == l0, vx_acc0@ =~= convs(l0.take(it.index@ as int)), weight_sum == iabs(l0.take(it.index@ as int)), b_add == sm(l0.take(it.index@ as int), fneg()),
        iabs(l0) <= isize::MAX, 0 <= sm(l0, fneg()) <= iabs(l0), forall|i: int| 0 <= i <= l0.len() ==> 0 <= #[trigger] sm(l0.take(i), fneg()) <= sm(l0, fneg()),
        forall|i: int| 0 <= i <= l0.len() ==> 0 <= #[trigger] iabs(l0.take(i)) <= iabs(l0), forall|i: int| 0 <= i < l0.len() ==> (#[trigger] l0[i]).1 != isize::MIN,
//@ghost loop 0 start
    proof { lem_sm_take(l0, it.index@ as int, fabs()); lem_sm_take(l0, it.index@ as int, fneg()); assert(iabs(l0.take(it.index@ as int + 1)) <= iabs(l0)); assert(sm(l0.take(it.index@ as int + 1), fneg()) <= sm(l0, fneg())); assert(vx_e1 == l0[it.index@ as int]); }
//@ghost end
    proof {
        assert(l0.take(l0.len() as int) =~= l0);
        assert forall|a: Asg| #[trigger] ws(vx_tail.0@, a) == iws(l0, a) + vx_tail.2 by { lem_conv(l0, a); }
    }
//@end
//@fn src/types/constraints.rs PbConstraint::new_ub inst=LI:Vec<(Lit,isize)> chains=loop collect0=vec:(Lit,usize)
//@ret r
    requires iabs(lits@) <= isize::MAX, b + sm(lits@, fneg()) <= isize::MAX,
    ensures r.wf(), r.op() == Op::Le, forall|a: Asg| #[trigger] r.sat(a) <==> iws(lits@, a) <= b, r.wsum() == iabs(lits@),
//@ghost start
    let ghost l0 = lits@;
//@loop 0 iter=it
    invariant it.seq() == lits@, vx_acc0@ =~= lits@.take(it.index@ as int),
//@ghost end
    proof { assert(lits@.take(lits@.len() as int) =~= lits@); assert forall|a: Asg| #[trigger] vx_tail.sat(a) <==> iws(l0, a) <= b by { assert(ws(lits@, a) == iws(l0, a) + b_add); } }
//@end
//@fn src/types/constraints.rs PbConstraint::new_lb inst=LI:Vec<(Lit,isize)> chains=loop collect0=vec:(Lit,usize)
//@ret r
    requires iabs(lits@) <= isize::MAX, b + sm(lits@, fneg()) <= isize::MAX,
    ensures r.wf(), r.op() == Op::Ge, forall|a: Asg| #[trigger] r.sat(a) <==> iws(lits@, a) >= b, r.wsum() == iabs(lits@),
//@ghost start
    let ghost l0 = lits@;
//@loop 0 iter=it
    invariant it.seq() == lits@, vx_acc0@ =~= lits@.take(it.index@ as int),
//@ghost end
    proof { assert(lits@.take(lits@.len() as int) =~= lits@); assert forall|a: Asg| #[trigger] vx_tail.sat(a) <==> iws(l0, a) >= b by { assert(ws(lits@, a) == iws(l0, a) + b_add); } }
//@end
//@fn src/types/constraints.rs PbConstraint::new_eq inst=LI:Vec<(Lit,isize)> chains=loop collect0=vec:(Lit,usize)
//@ret r
    requires iabs(lits@) <= isize::MAX, b + sm(lits@, fneg()) <= isize::MAX,
    ensures r.wf(), r.op() == Op::Eq, forall|a: Asg| #[trigger] r.sat(a) <==> iws(lits@, a) == b, r.wsum() == iabs(lits@),
//@ghost start
    let ghost l0 = lits@;
//@loop 0 iter=it
    invariant it.seq() == lits@, vx_acc0@ =~= lits@.take(it.index@ as int),
//@ghost end
    proof { assert(lits@.take(lits@.len() as int) =~= lits@); assert forall|a: Asg| #[trigger] vx_tail.sat(a) <==> iws(l0, a) == b by { assert(ws(lits@, a) == iws(l0, a) + b_add); } }
//@end
//@fn src/types/constraints.rs PbConstraint::new_ub_unsigned inst=LI:Vec<(Lit,usize)> chains=loop collect0=vec:(Lit,usize) tuple_ref fold_ty=usize
//@ret r
    requires wt(lits@) <= usize::MAX,
    ensures r.wf(), r.op() == Op::Le, r.l() == lits@, r.bnd() == b,
//@ghost start
    let ghost l0 = lits@;
    proof { lem_wt_nonneg(lits@); }
//@loop 0 iter=it
    invariant it.seq() == l0, vx_acc0@ =~= l0.take(it.index@ as int),
//@ghost loop 0 after
    proof { assert(l0.take(l0.len() as int) =~= l0); }
//@loop 1 iter=it
    invariant it.seq().len() == l0.len(), lits@ == l0, forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i],
        sum == wt(l0.take(it.index@ as int)), forall|i: int| 0 <= i <= l0.len() ==> 0 <= #[trigger] wt(l0.take(i)) <= wt(l0), wt(l0) <= usize::MAX,
//@ghost loop 1 start
    proof { lem_sm_take(l0, it.index@ as int, ft()); assert(wt(l0.take(it.index@ as int + 1)) <= wt(l0)); }
//@sub sum \+ w ==> sum + *w
//@end
//@fn src/types/constraints.rs PbConstraint::new_lb_unsigned inst=LI:Vec<(Lit,usize)> chains=loop collect0=vec:(Lit,usize) tuple_ref fold_ty=usize
//@ret r
    requires wt(lits@) <= usize::MAX,
    ensures r.wf(), r.op() == Op::Ge, r.l() == lits@, r.bnd() == b,
//@ghost start
    let ghost l0 = lits@;
    proof { lem_wt_nonneg(lits@); }
//@loop 0 iter=it
    invariant it.seq() == l0, vx_acc0@ =~= l0.take(it.index@ as int),
//@ghost loop 0 after
    proof { assert(l0.take(l0.len() as int) =~= l0); }
//@loop 1 iter=it
    invariant it.seq().len() == l0.len(), lits@ == l0, forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i],
        sum == wt(l0.take(it.index@ as int)), forall|i: int| 0 <= i <= l0.len() ==> 0 <= #[trigger] wt(l0.take(i)) <= wt(l0), wt(l0) <= usize::MAX,
//@ghost loop 1 start
    proof { lem_sm_take(l0, it.index@ as int, ft()); assert(wt(l0.take(it.index@ as int + 1)) <= wt(l0)); }
//@sub sum \+ w ==> sum + *w
//@end
//@fn src/types/constraints.rs PbConstraint::new_eq_unsigned inst=LI:Vec<(Lit,usize)> chains=loop collect0=vec:(Lit,usize) tuple_ref fold_ty=usize
//@ret r
    requires wt(lits@) <= usize::MAX,
    ensures r.wf(), r.op() == Op::Eq, r.l() == lits@, r.bnd() == b,
//@ghost start
    let ghost l0 = lits@;
    proof { lem_wt_nonneg(lits@); }
//@loop 0 iter=it
    invariant it.seq() == l0, vx_acc0@ =~= l0.take(it.index@ as int),
//@ghost loop 0 after
    proof { assert(l0.take(l0.len() as int) =~= l0); }
//@loop 1 iter=it
    invariant it.seq().len() == l0.len(), lits@ == l0, forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] it.seq()[i]) == l0[i],
        sum == wt(l0.take(it.index@ as int)), forall|i: int| 0 <= i <= l0.len() ==> 0 <= #[trigger] wt(l0.take(i)) <= wt(l0), wt(l0) <= usize::MAX,
//@ghost loop 1 start
    proof { lem_sm_take(l0, it.index@ as int, ft()); assert(wt(l0.take(it.index@ as int + 1)) <= wt(l0)); }
//@sub sum \+ w ==> sum + *w
//@end
//@fn src/types/constraints.rs PbConstraint::weight_sum
//@ret r
    ensures r == self.wsum(),
//@end
//@fn src/types/constraints.rs PbConstraint::get_data
//@ret r
    ensures final(self).op() == old(self).op(), r.0@ == old(self).l(), *r.1 == old(self).wsum(), *r.2 == old(self).bnd(),
        final(self).l() == final(r.0)@, final(self).wsum() == *final(r.1), final(self).bnd() == *final(r.2),
//@end
//@fn src/types/constraints.rs PbConstraint::set_bound split_or
    ensures final(self).op() == old(self).op(), final(self).l() == old(self).l(), final(self).bnd() == bound, final(self).wsum() == old(self).wsum(),
//@end
//@fn src/types/constraints.rs PbConstraint::add inst=LI:Vec<(Lit,isize)> chains=loop
    requires old(self).wf(), iabs(lits@) <= isize::MAX, old(self).wsum() + iabs(lits@) <= usize::MAX, old(self).bnd() + sm(lits@, fneg()) <= isize::MAX,
    ensures final(self).wf(), final(self).op() == old(self).op(), final(self).l() =~= old(self).l() + convs(lits@), final(self).bnd() == old(self).bnd() + sm(lits@, fneg()),
        forall|a: Asg| #[trigger] final(self).sat(a) <==> holds(old(self).op(), ws(old(self).l(), a) + iws(lits@, a), old(self).bnd() as int),
//@ghost start
    let ghost l0 = lits@;
//@loop 0 iter=it
    invariant it.seq() == lits@, data_lits@ =~= old(self).l() + lits@.take(it.index@ as int),
//@ghost end
    proof {
        assert(lits@.take(lits@.len() as int) =~= lits@);
        lem_sm_add(old(self).l(), lits@, ft());
        assert forall|a: Asg| #[trigger] self.sat(a) <==> holds(old(self).op(), ws(old(self).l(), a) + iws(l0, a), old(self).bnd() as int) by { lem_sm_add(old(self).l(), lits@, fw(a)); assert(ws(lits@, a) == iws(l0, a) + b_add); }
    }
//@end
//@fn src/types/constraints.rs PbConstraint::bound
//@ret r
    ensures r == self.bnd(),
//@end
//@fn src/types/constraints.rs PbConstraint::len
//@ret r
    ensures r == self.l().len(),
//@end
//@fn src/types/constraints.rs PbConstraint::is_empty
//@ret r
    ensures r == (self.l().len() == 0),
//@end
//@fn src/types/constraints.rs PbConstraint::n_lits
//@ret r
    ensures r == self.l().len(),
//@end
//@fn src/types/constraints.rs PbConstraint::is_tautology
//@ret r
    requires self.wf(),
    ensures r == pb_taut(self.op(), wt(self.l()), self.bnd() as int), r ==> forall|a: Asg| #[trigger] self.sat(a), !r && distinct_vars(lits_of(self.l())) ==> exists|a: Asg| !#[trigger] self.sat(a),
//@ghost start
    proof { lem_pb_class(self.op(), self.l(), self.bnd()); if distinct_vars(lits_of(self.l())) { lem_pb_complete(self.op(), self.l(), self.bnd()); } }
//@ghost end
    proof {
        if vx_tail { assert forall|a: Asg| #[trigger] self.sat(a) by { assert(holds(self.op(), ws(self.l(), a), self.bnd() as int)); } }
        if !vx_tail && distinct_vars(lits_of(self.l())) { let a = choose|a: Asg| !holds(self.op(), #[trigger] ws(self.l(), a), self.bnd() as int); assert(!self.sat(a)); }
    }
//@end
//@fn src/types/constraints.rs PbConstraint::is_unsat
//@ret r
    requires self.wf(),
    ensures r == pb_unsat(self.op(), wt(self.l()), self.bnd() as int), r ==> forall|a: Asg| !#[trigger] self.sat(a), !r && distinct_vars(lits_of(self.l())) && self.op() != Op::Eq ==> exists|a: Asg| #[trigger] self.sat(a),
//@ghost start
    proof { lem_pb_class(self.op(), self.l(), self.bnd()); if distinct_vars(lits_of(self.l())) { lem_pb_complete(self.op(), self.l(), self.bnd()); } }
//@ghost end
    proof {
        if vx_tail { assert forall|a: Asg| !#[trigger] self.sat(a) by { assert(!holds(self.op(), ws(self.l(), a), self.bnd() as int)); } }
        if !vx_tail && distinct_vars(lits_of(self.l())) && self.op() != Op::Eq { let a = choose|a: Asg| holds(self.op(), #[trigger] ws(self.l(), a), self.bnd() as int); assert(self.sat(a)); }
    }
//@end
//@fn src/types/constraints.rs PbConstraint::is_positive_assignment
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(lits_of(self.l()), a),
        r == match self.op() { Op::Le => false, Op::Ge => self.bnd() >= 0 && self.bnd() <= wt(self.l()) && all_ge(self.l(), wt(self.l()) - self.bnd() + 1), Op::Eq => self.bnd() >= 0 && self.bnd() == wt(self.l()) && all_ge(self.l(), 1) },
//@ghost end
    proof { if vx_tail { match self { PbConstraint::Lb(c) => { assert forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(lits_of(self.l()), a) by { assert(c.sat(a) == self.sat(a)); } } PbConstraint::Eq(c) => { assert forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(lits_of(self.l()), a) by { assert(c.sat(a) == self.sat(a)); } } _ => {} } } }
//@end
//@fn src/types/constraints.rs PbConstraint::is_negative_assignment
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(opps(lits_of(self.l())), a),
        r == match self.op() { Op::Le => self.bnd() >= 0 && all_ge(self.l(), self.bnd() + 1), Op::Ge => false, Op::Eq => self.bnd() == 0 && all_ge(self.l(), 1) },
//@ghost end
    proof { if vx_tail { match self { PbConstraint::Ub(c) => { assert forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(opps(lits_of(self.l())), a) by { assert(c.sat(a) == self.sat(a)); } } PbConstraint::Eq(c) => { assert forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(opps(lits_of(self.l())), a) by { assert(c.sat(a) == self.sat(a)); } } _ => {} } } }
//@end
//@fn src/types/constraints.rs PbConstraint::is_card
//@ret r
    ensures r <==> (exists|u: int| #[trigger] all_w(self.l(), u) && self.l().len() > 0 && (self.op() == Op::Eq ==> u > 0 && (if self.bnd() >= 0 { self.bnd() as int } else { -self.bnd() as int }) % u == 0)),
//@rename .is_some_and => vx_is_some_and
//@closure 0 b: bool
    ensures b == (weight > 0 && (if constr.b >= 0 { constr.b as int } else { -constr.b as int }) % (weight as int) == 0),
//@ghost end
    proof {
        let s = self.l();
        if s.len() > 0 { assert forall|u: int| #[trigger] all_w(s, u) implies u == s[0].1 by { } }
        if vx_tail { assert(all_w(s, s[0].1 as int)); }
    }
//@end
//@fn src/types/constraints.rs PbConstraint::is_clause
//@ret r
    requires self.wf(),
    ensures r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(if self.op() == Op::Le { opps(lits_of(self.l())) } else { lits_of(self.l()) }, a), r ==> self.op() != Op::Eq,
        r == match self.op() { Op::Le => self.bnd() >= 0 && self.bnd() < wt(self.l()) && all_ge(self.l(), wt(self.l()) - self.bnd()), Op::Ge => self.bnd() > 0 && self.bnd() <= wt(self.l()) && all_ge(self.l(), self.bnd() as int), Op::Eq => false },
//@ghost end
    proof { if vx_tail { match self { PbConstraint::Ub(c) => { assert forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(opps(lits_of(self.l())), a) by { assert(c.sat(a) == self.sat(a)); } } PbConstraint::Lb(c) => { assert forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(lits_of(self.l()), a) by { assert(c.sat(a) == self.sat(a)); } } _ => {} } } }
//@end
//@fn src/types/constraints.rs PbConstraint::extend_to_card_constr
//@ret r
    requires self.bnd() >= 0,
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a),
//@ghost start
    let ghost s0 = self;
//@ghost end
    let ghost t0 = vx_tail;
    proof { match (s0, t0) { (PbConstraint::Ub(c), CardConstraint::Ub(d)) => { assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { assert(d.sat(a) == c.sat(a)); } }
        (PbConstraint::Lb(c), CardConstraint::Lb(d)) => { assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { assert(d.sat(a) == c.sat(a)); } }
        (PbConstraint::Eq(c), CardConstraint::Eq(d)) => { assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { assert(d.sat(a) == c.sat(a)); } }
        _ => { assert(false); } } }
//@end
//@fn src/types/constraints.rs PbConstraint::into_lits impl_ret=Vec<(Lit,usize)>
//@ret r
    ensures r@ == self.l(),
//@end
//@fn src/types/constraints.rs PbConstraint::iter
//@ret r
    ensures r.remaining().len() == self.l().len(), forall|i: int| 0 <= i < self.l().len() ==> *(#[trigger] r.remaining()[i]) == self.l()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@end
//@fn src/types/constraints.rs PbConstraint::into_clause chains=loop collect0=via:vx_clause collect1=via:vx_clause
//@ret r
    requires self.wf(),
    ensures r is Ok ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(r->Ok_0.s(), a),
        r is Ok ==> r->Ok_0.s() =~= if self.op() == Op::Le { opps(lits_of(self.l())) } else { lits_of(self.l()) },
        r is Ok <==> match self.op() { Op::Le => self.bnd() >= 0 && self.bnd() < wt(self.l()) && all_ge(self.l(), wt(self.l()) - self.bnd()), Op::Ge => self.bnd() > 0 && self.bnd() <= wt(self.l()) && all_ge(self.l(), self.bnd() as int), Op::Eq => false },
//@loop 0 iter=it
    invariant it.seq() == constr.lits@, constr.lits@ == self.l(), vx_acc0@ =~= opps(lits_of(self.l())).take(it.index@ as int),
//@loop 1 iter=it
    invariant it.seq() == constr.lits@, constr.lits@ == self.l(), vx_acc1@ =~= lits_of(self.l()).take(it.index@ as int),
//@ghost end
    proof { assert(opps(lits_of(self.l())).take(self.l().len() as int) =~= opps(lits_of(self.l()))); assert(lits_of(self.l()).take(self.l().len() as int) =~= lits_of(self.l())); }
//@end
//@fn src/types/constraints.rs PbConstraint::into_card_constr chains=loop lazy=Lit
//@ret r
    requires self.wf(),
    ensures r is Ok ==> forall|a: Asg| #[trigger] r->Ok_0.sat(a) == self.sat(a),
        r is Err && r->Err_0 is Tautology ==> forall|a: Asg| #[trigger] self.sat(a),
        r is Err && r->Err_0 is Unsat ==> forall|a: Asg| !#[trigger] self.sat(a),
        r is Err && r->Err_0 is NotACard ==> forall|u: int| !#[trigger] all_w(self.l(), u),
        r is Ok ==> r->Ok_0.l() =~= lits_of(self.l()) && r->Ok_0.op() == self.op(),
        r is Err && !pb_taut(self.op(), wt(self.l()), self.bnd() as int) && !pb_unsat(self.op(), wt(self.l()), self.bnd() as int)
            ==> !(exists|u: int| #[trigger] all_w(self.l(), u) && self.l().len() > 0 && (self.op() == Op::Eq ==> u > 0 && (if self.bnd() >= 0 { self.bnd() as int } else { -self.bnd() as int }) % u == 0)),
//@loop 0 iter=it
    invariant it.seq() == constr.lits@, constr.lits@ == self.l(), vx_acc0@ =~= lits_of(self.l()).take(it.index@ as int),
//@loop 1 iter=it
    invariant it.seq() == constr.lits@, constr.lits@ == self.l(), vx_acc1@ =~= lits_of(self.l()).take(it.index@ as int),
//@loop 2 iter=it
    invariant it.seq() == constr.lits@, constr.lits@ == self.l(), vx_acc2@ =~= lits_of(self.l()).take(it.index@ as int),
//@ghost start
    let ghost s0 = self;
    proof { lem_pb_class(self.op(), self.l(), self.bnd()); }
//@ghost let b 0 after
    proof {
        assert(lits_of(s0.l()).take(s0.l().len() as int) =~= lits_of(s0.l()));
        if unit_weight is Some {
            let u = unit_weight->0;
            lem_unit(s0.l(), u as int, |n: nat| true);
            if u > 0 { lem_unit_card(s0.l(), u as int, b as int); }
            else { assert(0 * s0.l().len() == 0) by (nonlinear_arith); }
        } else if s0.l().len() > 0 {
            assert forall|u: int| !#[trigger] all_w(s0.l(), u) by { if all_w(s0.l(), u) { assert(s0.l()[0].1 == u); } }
        }
    }
//@ghost let b 1 after
    proof {
        assert(lits_of(s0.l()).take(s0.l().len() as int) =~= lits_of(s0.l()));
        if unit_weight is Some {
            let u = unit_weight->0;
            lem_unit(s0.l(), u as int, |n: nat| true);
            if u > 0 { lem_unit_card(s0.l(), u as int, b as int); }
            else { assert(0 * s0.l().len() == 0) by (nonlinear_arith); }
        } else if s0.l().len() > 0 {
            assert forall|u: int| !#[trigger] all_w(s0.l(), u) by { if all_w(s0.l(), u) { assert(s0.l()[0].1 == u); } }
        }
    }
//@ghost let b 2 after
    proof {
        assert(lits_of(s0.l()).take(s0.l().len() as int) =~= lits_of(s0.l()));
        if unit_weight is Some {
            let u = unit_weight->0;
            lem_unit(s0.l(), u as int, |n: nat| true);
            if u > 0 { lem_unit_card(s0.l(), u as int, b as int); }
            else { assert(0 * s0.l().len() == 0) by (nonlinear_arith); }
        } else if s0.l().len() > 0 {
            assert forall|u: int| !#[trigger] all_w(s0.l(), u) by { if all_w(s0.l(), u) { assert(s0.l()[0].1 == u); } }
        }
    }
//@ghost end
    let ghost t0 = vx_tail;
    proof { if t0 is Ok { let c = t0->Ok_0; assert forall|a: Asg| #[trigger] c.sat(a) == s0.sat(a) by { assert(holds(c.op(), cnt(c.l(), a), c.bnd() as int) == holds(s0.op(), ws(s0.l(), a), s0.bnd() as int)); } } }
//@rename usize::from => vx_usize_bool
//@end
//@fn src/types/constraints.rs PbConstraint::evaluate
//@ret r
    requires wt(self.l()) <= usize::MAX,
    ensures r == eval3(self.op(), sm(self.l(), wlo(*assign)), sm(self.l(), whi(*assign)), self.bnd() as int),
        r == TernaryVal::True ==> forall|a: Asg| ext(*assign, a) ==> #[trigger] self.sat(a),
        r == TernaryVal::False ==> forall|a: Asg| ext(*assign, a) ==> !#[trigger] self.sat(a),
        r == TernaryVal::DontCare && distinct_vars(lits_of(self.l())) ==> (exists|a: Asg| ext(*assign, a) && !#[trigger] self.sat(a)),
        r == TernaryVal::DontCare && distinct_vars(lits_of(self.l())) && self.op() != Op::Eq ==> (exists|a: Asg| ext(*assign, a) && #[trigger] self.sat(a)),
//@rename .map_or => vx_map_or
//@loop 0 iter=it
    invariant it.seq().len() == self.l().len(), forall|i: int| 0 <= i < self.l().len() ==> *(#[trigger] it.seq()[i]) == self.l()[i],
        rng.start == sm(self.l().take(it.index@ as int), wlo(*assign)), rng.end == sm(self.l().take(it.index@ as int), whi(*assign)),
        wt(self.l()) <= usize::MAX, forall|i: int| 0 <= i <= self.l().len() ==> 0 <= #[trigger] sm(self.l().take(i), wlo(*assign)) <= wt(self.l()), forall|i: int| 0 <= i <= self.l().len() ==> 0 <= #[trigger] sm(self.l().take(i), whi(*assign)) <= wt(self.l()),
//@ghost loop 0 before
    proof { lem_wlo(*assign, self.l()); }
//@ghost loop 0 start
    proof {
        let i = it.index@ as int;
        lem_sm_take(self.l(), i, wlo(*assign)); lem_sm_take(self.l(), i, whi(*assign));
        let q = self.l()[i];
        lem_wval(q.1, assign.lval(q.0) == TernaryVal::True); lem_wval(q.1, assign.lval(q.0) != TernaryVal::False);
        assert(sm(self.l().take(i + 1), wlo(*assign)) <= wt(self.l())); assert(sm(self.l().take(i + 1), whi(*assign)) <= wt(self.l()));
    }
//@closure 0 o: std::cmp::Ordering
    ensures o == ordering(val as int, b as int),
//@closure 1 o: std::cmp::Ordering
    ensures o == ordering(val as int, b as int),
//@ghost end
    proof {
        assert(self.l().take(self.l().len() as int) =~= self.l());
        assert forall|a: Asg| ext(*assign, a) implies sm(self.l(), wlo(*assign)) <= #[trigger] ws(self.l(), a) <= sm(self.l(), whi(*assign)) by { lem_ext_ws(*assign, a, self.l()); }
        if distinct_vars(lits_of(self.l())) {
            lem_push_ws(*assign, self.l());
            let (t, f) = (push_ext(*assign, lits_of(self.l()), true), push_ext(*assign, lits_of(self.l()), false));
            if self.sat(t) { assert(ext(*assign, t) && self.sat(t)); } else { assert(ext(*assign, t) && !self.sat(t)); }
            if self.sat(f) { assert(ext(*assign, f) && self.sat(f)); } else { assert(ext(*assign, f) && !self.sat(f)); }
        }
    }
//@end
//@fn src/types/constraints.rs PbConstraint::normalize
//@ret r
    requires self.wf(), wt(self.l()) <= usize::MAX,
    ensures r.wf(), r.op() == self.op(), r.bnd() == self.bnd(), strict_wl(r.l()), forall|a: Asg| #[trigger] r.sat(a) == self.sat(a),
//@ghost start
    let ghost s0 = self;
//@rename .sort_unstable => .vx_sort
//@rename .last_mut => &mut vx_last_mut
//@closure 0 u: Vec<(Lit, usize)>
    requires wt(vx_lits@) <= usize::MAX,
    ensures same_weights(vx_lits@, u@), strict_wl(u@),
//@ghost closure 0 start
    let ghost l0 = vx_lits@;
    proof { lem_wt_nonneg(l0); }
//@ghost loop 0 before
    let ghost l1 = lits@;
    proof {
        lem_wt_nonneg(l1); lem_sm_perm(l1, l0, ft()); lem_sm_empty(ft());
        assert forall|a: Asg| #[trigger] ws(l1, a) == ws(l0, a) by { lem_sm_perm(l1, l0, fw(a)); }
        assert(same_weights(l1.take(0), merged@)) by { assert(l1.take(0) =~= merged@); }
    }
//@ghost loop 0 start
    let ghost m0 = merged@;
    let ghost i0 = it.index@ as int;
    proof {
        lem_sm_take(l1, i0, ft()); assert(wt(l1.take(i0 + 1)) <= wt(l1)); lem_wt_nonneg(m0);
        if m0.len() > 0 { lem_sm_nonneg(m0, ft()); assert(ft()(m0[m0.len() - 1]) <= wt(m0)); }
    }
//@ghost loop 0 end
    proof { assert((l, w) == l1[i0]); if m0.len() > 0 { assert(m0.drop_last().push(m0.last()) =~= m0); if m0.last().0 == l { assert(merged@.len() == m0.len()); } else { assert(merged@ =~= m0.push((l, w))); } } else { assert(merged@ =~= m0.push((l, w))); } lem_norm_step(l1, i0, m0, merged@); }
//@ghost loop 0 after
    proof { assert(l1.take(l1.len() as int) =~= l1); assert forall|a: Asg| #[trigger] ws(l0, a) == ws(merged@, a) by { assert(ws(l1, a) == ws(l0, a)); } }
//@ghost if 1 else
    proof { assert(*l2 == m0.last().0); assert(*w2 == m0.last().1); assert(*final(l2) == m0.last().0); assert(*final(w2) == m0.last().1); assert(merged@ =~= m0); }
//@loop 0 iter=it
    invariant it.seq() == l1, strict_wl(merged@), sorted_wl(l1), merged@.len() == 0 <==> it.index@ == 0,
        merged@.len() > 0 ==> merged@.last().0 == l1[it.index@ as int - 1].0, same_weights(l1.take(it.index@ as int), merged@),
        wt(l1) <= usize::MAX, forall|i: int| 0 <= i <= l1.len() ==> 0 <= #[trigger] wt(l1.take(i)) <= wt(l1),
//@ghost end
    let ghost t0 = vx_tail;
    proof { assert forall|a: Asg| #[trigger] t0.sat(a) == s0.sat(a) by { assert(ws(t0.l(), a) == ws(s0.l(), a)); } }
//@end
}
