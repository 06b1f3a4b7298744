// ---- cardinality constraints ----
//@struct src/types/constraints.rs CardUbConstr
//@struct src/types/constraints.rs CardLbConstr
//@struct src/types/constraints.rs CardEqConstr
//@struct src/types/constraints.rs CardConstraint
//@struct src/lib.rs RequiresClausal
impl CardUbConstr { pub open spec fn sat(&self, a: Asg) -> bool { cnt(self.lits@, a) <= self.b } }
impl CardLbConstr { pub open spec fn sat(&self, a: Asg) -> bool { cnt(self.lits@, a) >= self.b } }
impl CardEqConstr { pub open spec fn sat(&self, a: Asg) -> bool { cnt(self.lits@, a) == self.b } }
pub enum Op { Le, Ge, Eq }
pub open spec fn holds(k: Op, x: int, b: int) -> bool { match k { Op::Le => x <= b, Op::Ge => x >= b, Op::Eq => x == b } }
impl CardConstraint {
    pub open spec fn op(&self) -> Op { match self { CardConstraint::Ub(_) => Op::Le, CardConstraint::Lb(_) => Op::Ge, CardConstraint::Eq(_) => Op::Eq } }
    pub open spec fn l(&self) -> Seq<Lit> { match self { CardConstraint::Ub(c) => c.lits@, CardConstraint::Lb(c) => c.lits@, CardConstraint::Eq(c) => c.lits@ } }
    pub open spec fn bnd(&self) -> usize { match self { CardConstraint::Ub(c) => c.b, CardConstraint::Lb(c) => c.b, CardConstraint::Eq(c) => c.b } }
    /// the meaning of the constraint
    pub open spec fn sat(&self, a: Asg) -> bool { holds(self.op(), cnt(self.l(), a), self.bnd() as int) }
}
/// the classification by bound and length is exactly the classification by meaning (completeness needs distinct variables)
pub open spec fn card_taut(k: Op, n: int, b: int) -> bool { match k { Op::Le => b >= n, Op::Ge => b == 0, Op::Eq => b == 0 && n == 0 } }
pub open spec fn card_unsat(k: Op, n: int, b: int) -> bool { match k { Op::Le => false, _ => b > n } }
pub open spec fn card_pos(k: Op, n: int, b: int) -> bool { match k { Op::Le => false, _ => b == n } }
pub open spec fn card_neg(k: Op, n: int, b: int) -> bool { match k { Op::Ge => false, _ => b == 0 } }
pub proof fn lem_card_class(k: Op, s: Seq<Lit>, b: usize)
    ensures
        card_taut(k, s.len() as int, b as int) ==> forall|a: Asg| holds(k, #[trigger] cnt(s, a), b as int),
        card_unsat(k, s.len() as int, b as int) ==> forall|a: Asg| !holds(k, #[trigger] cnt(s, a), b as int),
        card_pos(k, s.len() as int, b as int) ==> forall|a: Asg| holds(k, #[trigger] cnt(s, a), b as int) <==> cube_true(s, a),
        card_neg(k, s.len() as int, b as int) ==> forall|a: Asg| holds(k, #[trigger] cnt(s, a), b as int) <==> cube_true(opps(s), a),
{
    assert forall|a: Asg| 0 <= #[trigger] cnt(s, a) <= s.len() && (cube_true(s, a) <==> cnt(s, a) == s.len()) && (cube_true(opps(s), a) <==> cnt(s, a) == 0) by {
        lem_cnt_bounds(s, a); lem_cnt_logic(s, a); lem_cnt_opps(s, a); lem_cnt_logic(opps(s), a);
    }
}
/// with distinct variables both extreme counts are reached
pub open spec fn all_asg(s: Seq<Lit>, b: bool) -> Asg { |v: nat| has(s, Lit::mk(v, false)) == b }
pub proof fn lem_all_asg(s: Seq<Lit>)
    requires distinct_vars(s),
    ensures cnt(s, all_asg(s, true)) == s.len(), cnt(s, all_asg(s, false)) == 0, cube_true(s, all_asg(s, true)), cube_true(opps(s), all_asg(s, false)),
{
    lem_opp_all();
    assert forall|i: int, b: bool| 0 <= i < s.len() implies #[trigger] tv(all_asg(s, b), s[i]) == b by {
        let l = s[i];
        assert(l.lidx == 2 * (l.lidx / 2) + l.lidx % 2);
        if !l.neg() { assert(Lit::mk(l.v(), false) == l); assert(has(s, l)); }
        else if has(s, Lit::mk(l.v(), false)) {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == Lit::mk(l.v(), false);
            assert(s[j].v() == l.v() && !s[j].neg()); assert(i != j); assert(false);
        }
    }
    lem_sm_const(s, fc(all_asg(s, true)), 1); lem_sm_const(s, fc(all_asg(s, false)), 0);
}
pub proof fn lem_card_complete(k: Op, s: Seq<Lit>, b: usize)
    requires distinct_vars(s),
    ensures
        !card_taut(k, s.len() as int, b as int) ==> exists|a: Asg| !holds(k, #[trigger] cnt(s, a), b as int),
        !card_unsat(k, s.len() as int, b as int) && k != Op::Eq ==> exists|a: Asg| holds(k, #[trigger] cnt(s, a), b as int),
{
    lem_all_asg(s);
    let t = cnt(s, all_asg(s, true)); let f = cnt(s, all_asg(s, false));
}
pub proof fn lem_card_len(c: CardConstraint) ensures c.l().len() <= usize::MAX
{
    match c { CardConstraint::Ub(c) => { assert(c.lits.len() == c.lits@.len()); }, CardConstraint::Lb(c) => { assert(c.lits.len() == c.lits@.len()); }, CardConstraint::Eq(c) => { assert(c.lits.len() == c.lits@.len()); } }
}
impl CardUbConstr {
//@fn src/types/constraints.rs CardUbConstr::decompose
//@ret r
    ensures r.0@ == self.lits@, r.1 == self.b,
//@end
//@fn src/types/constraints.rs CardUbConstr::decompose_ref
//@ret r
    ensures *r.0 == self.lits, *r.1 == self.b,
//@end
//@fn src/types/constraints.rs CardUbConstr::invert
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a), r.lits@ =~= opps(self.lits@),
//@loop 0 iter=it
    invariant forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == (*it.seq()[i]).opp(),
//@ghost end
    proof {
        assert(vx_tail.lits@ =~= opps(self.lits@));
        assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { lem_cnt_opps(self.lits@, a); lem_cnt_bounds(self.lits@, a); }
    }
//@end
//@fn src/types/constraints.rs CardUbConstr::is_tautology
//@ret r
    ensures r == card_taut(Op::Le, self.lits@.len() as int, self.b as int),
//@end
//@fn src/types/constraints.rs CardUbConstr::is_negative_assignment
//@ret r
    ensures r == card_neg(Op::Le, self.lits@.len() as int, self.b as int),
//@end
//@fn src/types/constraints.rs CardUbConstr::is_clause
//@ret r
    ensures r == (self.b + 1 == self.lits@.len()), r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(opps(self.lits@), a),
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cl_true(opps(self.lits@), a)) by { lem_cnt_opps(self.lits@, a); lem_cnt_logic(opps(self.lits@), a); } }
//@end
}
impl CardLbConstr {
//@fn src/types/constraints.rs CardLbConstr::decompose
//@ret r
    ensures r.0@ == self.lits@, r.1 == self.b,
//@end
//@fn src/types/constraints.rs CardLbConstr::decompose_ref
//@ret r
    ensures *r.0 == self.lits, *r.1 == self.b,
//@end
//@fn src/types/constraints.rs CardLbConstr::invert
//@ret r
    requires self.b <= self.lits@.len(),
    ensures forall|a: Asg| #[trigger] r.sat(a) == self.sat(a), r.lits@ =~= opps(self.lits@),
//@loop 0 iter=it
    invariant forall|i: int| 0 <= i < it.index@ ==> *final(#[trigger] it.seq()[i]) == (*it.seq()[i]).opp(),
//@ghost end
    proof {
        assert(vx_tail.lits@ =~= opps(self.lits@));
        assert forall|a: Asg| #[trigger] vx_tail.sat(a) == self.sat(a) by { lem_cnt_opps(self.lits@, a); lem_cnt_bounds(self.lits@, a); }
    }
//@end
//@fn src/types/constraints.rs CardLbConstr::is_tautology
//@ret r
    ensures r == card_taut(Op::Ge, self.lits@.len() as int, self.b as int),
//@end
//@fn src/types/constraints.rs CardLbConstr::is_unsat
//@ret r
    ensures r == card_unsat(Op::Ge, self.lits@.len() as int, self.b as int),
//@end
//@fn src/types/constraints.rs CardLbConstr::is_positive_assignment
//@ret r
    ensures r == card_pos(Op::Ge, self.lits@.len() as int, self.b as int),
//@end
//@fn src/types/constraints.rs CardLbConstr::is_clause
//@ret r
    ensures r == (self.b == 1), r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(self.lits@, a),
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cl_true(self.lits@, a)) by { lem_cnt_logic(self.lits@, a); } }
//@end
}
impl CardEqConstr {
//@fn src/types/constraints.rs CardEqConstr::decompose
//@ret r
    ensures r.0@ == self.lits@, r.1 == self.b,
//@end
//@fn src/types/constraints.rs CardEqConstr::decompose_ref
//@ret r
    ensures *r.0 == self.lits, *r.1 == self.b,
//@end
//@fn src/types/constraints.rs CardEqConstr::split
//@ret r
    ensures forall|a: Asg| #[trigger] self.sat(a) <==> (r.0.sat(a) && r.1.sat(a)), r.0.lits@ == self.lits@, r.1.lits@ == self.lits@, r.0.b == self.b, r.1.b == self.b,
//@ghost end
    proof { assert(vx_tail.0.lits@ =~= self.lits@); }
//@end
//@fn src/types/constraints.rs CardEqConstr::is_unsat
//@ret r
    ensures r == card_unsat(Op::Eq, self.lits@.len() as int, self.b as int),
//@end
//@fn src/types/constraints.rs CardEqConstr::is_positive_assignment
//@ret r
    ensures r == card_pos(Op::Eq, self.lits@.len() as int, self.b as int),
//@end
//@fn src/types/constraints.rs CardEqConstr::is_negative_assignment
//@ret r
    ensures r == card_neg(Op::Eq, self.lits@.len() as int, self.b as int),
//@end
}
impl CardConstraint {
//@fn src/types/constraints.rs CardConstraint::new_unit
//@ret r
    ensures forall|a: Asg| #[trigger] r.sat(a) == tv(a, lit),
//@ghost end
    proof { assert(vx_tail.l() =~= seq![lit]); assert forall|a: Asg| #[trigger] vx_tail.sat(a) == tv(a, lit) by { lem_cnt_logic(seq![lit], a); lem_single(); } }
//@end
//@fn src/types/constraints.rs CardConstraint::new_ub inst=LI:Vec<Lit> chains=loop collect0=vec:Lit
//@ret r
    ensures r.op() == Op::Le, r.l() == lits@, r.bnd() == b,
//@loop 0 iter=it
    invariant it.seq() == lits@, vx_acc0@ =~= lits@.take(it.index@ as int),
//@ghost end
    proof { assert(lits@.take(lits@.len() as int) =~= lits@); }
//@end
//@fn src/types/constraints.rs CardConstraint::new_lb inst=LI:Vec<Lit> chains=loop collect0=vec:Lit
//@ret r
    ensures r.op() == Op::Ge, r.l() == lits@, r.bnd() == b,
//@loop 0 iter=it
    invariant it.seq() == lits@, vx_acc0@ =~= lits@.take(it.index@ as int),
//@ghost end
    proof { assert(lits@.take(lits@.len() as int) =~= lits@); }
//@end
//@fn src/types/constraints.rs CardConstraint::new_eq inst=LI:Vec<Lit> chains=loop collect0=vec:Lit
//@ret r
    ensures r.op() == Op::Eq, r.l() == lits@, r.bnd() == b,
//@loop 0 iter=it
    invariant it.seq() == lits@, vx_acc0@ =~= lits@.take(it.index@ as int),
//@ghost end
    proof { assert(lits@.take(lits@.len() as int) =~= lits@); }
//@end
//@fn src/types/constraints.rs CardConstraint::add inst=LI:Vec<Lit> chains=loop
    ensures final(self).op() == old(self).op(), final(self).bnd() == old(self).bnd(), final(self).l() =~= old(self).l() + lits@,
        forall|a: Asg| #[trigger] cnt(final(self).l(), a) == cnt(old(self).l(), a) + cnt(lits@, a),
//@loop 0 iter=it
    invariant it.seq() == lits@, constr.lits@ =~= old(self).l() + lits@.take(it.index@ as int), constr.b == old(self).bnd(),
//@loop 1 iter=it
    invariant it.seq() == lits@, constr.lits@ =~= old(self).l() + lits@.take(it.index@ as int), constr.b == old(self).bnd(),
//@loop 2 iter=it
    invariant it.seq() == lits@, constr.lits@ =~= old(self).l() + lits@.take(it.index@ as int), constr.b == old(self).bnd(),
//@ghost end
    proof { assert(lits@.take(lits@.len() as int) =~= lits@); assert forall|a: Asg| cnt(old(self).l() + lits@, a) == cnt(old(self).l(), a) + cnt(lits@, a) by { lem_sm_add(old(self).l(), lits@, fc(a)); } }
//@end
//@fn src/types/constraints.rs CardConstraint::bound
//@ret r
    ensures r == self.bnd(),
//@end
//@fn src/types/constraints.rs CardConstraint::len
//@ret r
    ensures r == self.l().len(),
//@end
//@fn src/types/constraints.rs CardConstraint::is_empty
//@ret r
    ensures r == (self.l().len() == 0),
//@end
//@fn src/types/constraints.rs CardConstraint::n_lits
//@ret r
    ensures r == self.l().len(),
//@end
//@fn src/types/constraints.rs CardConstraint::set_bound split_or
    ensures final(self).op() == old(self).op(), final(self).l() == old(self).l(), final(self).bnd() == bound,
//@end
//@fn src/types/constraints.rs CardConstraint::is_tautology
//@ret r
    ensures r == card_taut(self.op(), self.l().len() as int, self.bnd() as int), r ==> forall|a: Asg| #[trigger] self.sat(a), !r && distinct_vars(self.l()) ==> exists|a: Asg| !#[trigger] self.sat(a),
//@ghost start
    proof { lem_card_class(self.op(), self.l(), self.bnd()); if distinct_vars(self.l()) { lem_card_complete(self.op(), self.l(), self.bnd()); } }
//@ghost end
    proof {
        if vx_tail { assert forall|a: Asg| #[trigger] self.sat(a) by { assert(holds(self.op(), cnt(self.l(), a), self.bnd() as int)); } }
        if !vx_tail && distinct_vars(self.l()) { let a = choose|a: Asg| !holds(self.op(), #[trigger] cnt(self.l(), a), self.bnd() as int); assert(!self.sat(a)); }
    }
//@end
//@fn src/types/constraints.rs CardConstraint::is_unsat
//@ret r
    ensures r == card_unsat(self.op(), self.l().len() as int, self.bnd() as int), r ==> forall|a: Asg| !#[trigger] self.sat(a), !r && distinct_vars(self.l()) && self.op() != Op::Eq ==> exists|a: Asg| #[trigger] self.sat(a),
//@ghost start
    proof { lem_card_class(self.op(), self.l(), self.bnd()); if distinct_vars(self.l()) { lem_card_complete(self.op(), self.l(), self.bnd()); } }
//@ghost end
    proof {
        if vx_tail { assert forall|a: Asg| !#[trigger] self.sat(a) by { assert(!holds(self.op(), cnt(self.l(), a), self.bnd() as int)); } }
        if !vx_tail && distinct_vars(self.l()) && self.op() != Op::Eq { let a = choose|a: Asg| holds(self.op(), #[trigger] cnt(self.l(), a), self.bnd() as int); assert(self.sat(a)); }
    }
//@end
//@fn src/types/constraints.rs CardConstraint::is_positive_assignment
//@ret r
    ensures r == card_pos(self.op(), self.l().len() as int, self.bnd() as int), r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(self.l(), a),
//@ghost end
    proof { lem_card_class(self.op(), self.l(), self.bnd()); assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cube_true(self.l(), a)) by { assert(holds(self.op(), cnt(self.l(), a), self.bnd() as int) <==> cube_true(self.l(), a)); } }
//@end
//@fn src/types/constraints.rs CardConstraint::is_negative_assignment
//@ret r
    ensures r == card_neg(self.op(), self.l().len() as int, self.bnd() as int), r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cube_true(opps(self.l()), a),
//@ghost end
    proof { lem_card_class(self.op(), self.l(), self.bnd()); assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cube_true(opps(self.l()), a)) by { assert(holds(self.op(), cnt(self.l(), a), self.bnd() as int) <==> cube_true(opps(self.l()), a)); } }
//@end
//@fn src/types/constraints.rs CardConstraint::is_clause
//@ret r
    ensures r == match self.op() { Op::Le => self.bnd() + 1 == self.l().len(), Op::Ge => self.bnd() == 1, Op::Eq => false },
        r ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(if self.op() == Op::Le { opps(self.l()) } else { self.l() }, a),
//@ghost end
    proof { assert forall|a: Asg| vx_tail implies (#[trigger] self.sat(a) <==> cl_true(if self.op() == Op::Le { opps(self.l()) } else { self.l() }, a)) by {
        lem_cnt_opps(self.l(), a); lem_cnt_logic(opps(self.l()), a); lem_cnt_logic(self.l(), a); } }
//@end
//@fn src/types/constraints.rs CardConstraint::into_lits
//@ret r
    ensures r@ == self.l(),
//@end
//@fn src/types/constraints.rs CardConstraint::into_clause chains=loop collect0=via:vx_clause collect1=via:vx_clause
//@ret r
    ensures r is Ok ==> forall|a: Asg| #[trigger] self.sat(a) <==> cl_true(r->Ok_0.s(), a),
        r is Ok <==> match self.op() { Op::Le => self.bnd() + 1 == self.l().len(), Op::Ge => self.bnd() == 1, Op::Eq => false },
        r is Ok ==> r->Ok_0.s() =~= if self.op() == Op::Le { opps(self.l()) } else { self.l() },
//@loop 0 iter=it
    invariant it.seq() == constr.lits@, constr.lits@ == self.l(), vx_acc0@ =~= opps(self.l()).take(it.index@ as int),
//@loop 1 iter=it
    invariant it.seq() == constr.lits@, constr.lits@ == self.l(), vx_acc1@ =~= self.l().take(it.index@ as int),
//@ghost end
    proof { assert(opps(self.l()).take(self.l().len() as int) =~= opps(self.l())); assert(self.l().take(self.l().len() as int) =~= self.l()); }
//@end
//@fn src/types/constraints.rs CardConstraint::evaluate
//@ret r
    ensures r == eval3(self.op(), sm(self.l(), flo(*assign)), sm(self.l(), fhi(*assign)), self.bnd() as int),
        r == TernaryVal::True ==> forall|a: Asg| ext(*assign, a) ==> #[trigger] self.sat(a),
        r == TernaryVal::False ==> forall|a: Asg| ext(*assign, a) ==> !#[trigger] self.sat(a),
        r == TernaryVal::DontCare && distinct_vars(self.l()) ==> (exists|a: Asg| ext(*assign, a) && !#[trigger] self.sat(a)),
        r == TernaryVal::DontCare && distinct_vars(self.l()) && self.op() != Op::Eq ==> (exists|a: Asg| ext(*assign, a) && #[trigger] self.sat(a)),
//@loop 0 iter=it
    invariant it.seq().len() == self.l().len(), forall|i: int| 0 <= i < self.l().len() ==> *(#[trigger] it.seq()[i]) == self.l()[i],
        rng.start == sm(self.l().take(it.index@ as int), flo(*assign)), rng.end == sm(self.l().take(it.index@ as int), fhi(*assign)),
        0 <= rng.start <= it.index@, 0 <= rng.end <= it.index@, self.l().len() <= usize::MAX,
//@ghost loop 0 before
    proof { lem_card_len(*self); }
//@ghost loop 0 start
    proof { lem_sm_take(self.l(), it.index@ as int, flo(*assign)); lem_sm_take(self.l(), it.index@ as int, fhi(*assign)); }
//@ghost end
    proof {
        assert(self.l().take(self.l().len() as int) =~= self.l());
        assert forall|a: Asg| ext(*assign, a) implies sm(self.l(), flo(*assign)) <= #[trigger] cnt(self.l(), a) <= sm(self.l(), fhi(*assign)) by { lem_ext_cnt(*assign, a, self.l()); }
        if distinct_vars(self.l()) {
            lem_push_cnt(*assign, self.l());
            let (t, f) = (push_ext(*assign, self.l(), true), push_ext(*assign, self.l(), false));
            if self.sat(t) { assert(ext(*assign, t) && self.sat(t)); } else { assert(ext(*assign, t) && !self.sat(t)); }
            if self.sat(f) { assert(ext(*assign, f) && self.sat(f)); } else { assert(ext(*assign, f) && !self.sat(f)); }
        }
    }
//@end
//@fn src/types/constraints.rs CardConstraint::iter
//@ret r
    ensures r.remaining().len() == self.l().len(), forall|i: int| 0 <= i < self.l().len() ==> *(#[trigger] r.remaining()[i]) == self.l()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@end
}
/// the value of a constraint whose left-hand side can become anything between lo and hi
pub open spec fn eval3(k: Op, lo: int, hi: int, b: int) -> TernaryVal {
    match k {
        Op::Le => if hi <= b { TernaryVal::True } else if lo > b { TernaryVal::False } else { TernaryVal::DontCare },
        Op::Ge => if lo >= b { TernaryVal::True } else if hi < b { TernaryVal::False } else { TernaryVal::DontCare },
        Op::Eq => if lo == b && hi == b { TernaryVal::True } else if lo > b || hi < b { TernaryVal::False } else { TernaryVal::DontCare },
    }
}
