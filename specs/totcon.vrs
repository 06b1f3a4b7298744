// ---- encoding whole cardinality constraints with the totalizer ----
//@struct src/encodings/mod.rs ConstraintEncodingError
//@grename crate::types::constraints::CardConstraint => CardConstraint
pub open spec fn units(cs: Seq<Clause>, s: Seq<Lit>) -> bool { cs.len() == s.len() && forall|i: int| 0 <= i < cs.len() ==> (#[trigger] cs[i]).s() == seq![s[i]] }
pub proof fn lem_units(cs: Seq<Clause>, s: Seq<Lit>) requires units(cs, s) ensures forall|a: Asg| #[trigger] cnf_true(cs, a) <==> cube_true(s, a)
{
    assert forall|a: Asg| #[trigger] cnf_true(cs, a) <==> cube_true(s, a) by {
        if cnf_true(cs, a) { assert forall|i: int| 0 <= i < s.len() implies tv(a, #[trigger] s[i]) by { assert(cl_true(cs[i].s(), a)); let j = choose|j: int| 0 <= j < cs[i].s().len() && tv(a, #[trigger] cs[i].s()[j]); assert(cs[i].s()[j] == s[i]); } }
        if cube_true(s, a) { assert forall|i: int| 0 <= i < cs.len() implies cl_true((#[trigger] cs[i]).s(), a) by { assert(tv(a, s[i])); assert(cs[i].s()[0] == s[i]); } }
    }
}
pub proof fn lem_cube_add(s: Seq<Lit>, t: Seq<Lit>) ensures forall|a: Asg| #[trigger] cube_true(s + t, a) <==> cube_true(s, a) && cube_true(t, a)
{
    assert forall|a: Asg| #[trigger] cube_true(s + t, a) <==> cube_true(s, a) && cube_true(t, a) by {
        if cube_true(s + t, a) { assert forall|i: int| 0 <= i < s.len() implies tv(a, #[trigger] s[i]) by { assert((s + t)[i] == s[i]); } assert forall|i: int| 0 <= i < t.len() implies tv(a, #[trigger] t[i]) by { assert((s + t)[s.len() + i] == t[i]); } }
    }
}
impl vstd::std_specs::convert::FromSpecImpl<NotEncoded> for EnforceError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: NotEncoded) -> EnforceError { EnforceError::NotEncoded } }
impl From<NotEncoded> for EnforceError {
//@fn src/encodings/mod.rs <EnforceError as From<NotEncoded>>::from id=EnforceError::from
//@sub \(_: ==> (vx_e:
//@end
}
/// clauses true under exactly the solutions, over the literals of the constraint only
pub proof fn lem_direct(c: CardConstraint, c0: Seq<Clause>, d: Seq<Clause>, n: nat)
    requires forall|a: Asg| #[trigger] cnf_true(d, a) <==> c.sat(a), forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].s().len() ==> var_in((#[trigger] d[i].s()[j]).v(), c.l()),
    ensures encoded(c, c0, c0 + d, n, n),
{
    reveal(encoded); lem_since(c0, c0, d);
    assert(c0 + d == c0 + since(c0 + d, c0));
    assert(cok(d, c.klits(), n, n)) by { assert forall|i: int| 0 <= i < d.len() implies vok((#[trigger] d[i]).s(), c.klits(), n, n) by { assert forall|j: int| 0 <= j < d[i].s().len() implies var_in((#[trigger] d[i].s()[j]).v(), c.klits()) by {} } }
    assert forall|a: Asg| #[trigger] c.ksat(a) implies exists|b: Asg| agree(a, b, n) && #[trigger] cnf_true(since(c0 + d, c0), b) by { assert(agree(a, a, n) && cnf_true(d, a)); }
}
pub open spec fn lits_of_con(s: Seq<Lit>, c: CardConstraint) -> bool { forall|j: int| 0 <= j < s.len() ==> var_in((#[trigger] s[j]).v(), c.l()) }
pub open spec fn direct(cl: Clause, c: CardConstraint) -> bool { lits_of_con(cl.s(), c) && forall|a: Asg| #[trigger] cl_true(cl.s(), a) <==> c.sat(a) }
pub proof fn lem_direct1(c: CardConstraint, c0: Seq<Clause>, n: nat) ensures forall|cl: Clause| direct(cl, c) ==> encoded(c, c0, #[trigger] c0.push(cl), n, n), encoded(c, c0, c0, n, n) <== forall|a: Asg| #[trigger] c.sat(a)
{
    assert forall|cl: Clause| direct(cl, c) implies encoded(c, c0, #[trigger] c0.push(cl), n, n) by {
        let d = seq![cl];
        assert forall|a: Asg| #[trigger] cnf_true(d, a) <==> c.sat(a) by { if cnf_true(d, a) { assert(cl_true(d[0].s(), a)); } if c.sat(a) { assert(cl_true(cl.s(), a)); } }
        lem_direct(c, c0, d, n); assert(c0 + d =~= c0.push(cl));
    }
    if forall|a: Asg| #[trigger] c.sat(a) { lem_direct(c, c0, Seq::empty(), n); assert(c0 + Seq::<Clause>::empty() =~= c0); }
}
pub proof fn lem_direct2(c: CardConstraint, c0: Seq<Clause>, d: Seq<Clause>, s: Seq<Lit>, n: nat)
    requires units(d, s), lits_of_con(s, c), forall|a: Asg| #[trigger] c.sat(a) <==> cube_true(s, a),
    ensures encoded(c, c0, c0 + d, n, n),
{
    lem_units(d, s);
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].s().len() implies var_in((#[trigger] d[i].s()[j]).v(), c.l()) by { assert(d[i].s() == seq![s[i]]); assert(var_in(s[i].v(), c.l())); }
    lem_direct(c, c0, d, n);
}
pub proof fn lem_own_lits(c: CardConstraint) ensures lits_of_con(c.l(), c), lits_of_con(opps(c.l()), c)
{
    lem_opp_all(); let x = c.l(); let y = opps(x);
    assert forall|j: int| 0 <= j < x.len() implies var_in((#[trigger] x[j]).v(), x) by {}
    assert forall|j: int| 0 <= j < y.len() implies var_in((#[trigger] y[j]).v(), x) by { assert(y[j] == x[j].opp()); assert(x[j].v() == y[j].v()); }
}
pub open spec fn vx_ub(c: CardUbConstr) -> CardConstraint { CardConstraint::Ub(c) }
pub open spec fn vx_lb(c: CardLbConstr) -> CardConstraint { CardConstraint::Lb(c) }
pub open spec fn vx_eq(c: CardEqConstr) -> CardConstraint { CardConstraint::Eq(c) }
impl Totalizer {
//@fn src/encodings/card/mod.rs trait:BoundBoth::enforce_eq
//@ret r
    requires tot_ok(*self),
    ensures ub_ready(*self, b as int) && lb_ready(*self, b as int) ==> r is Ok, r is Err && r->Err_0 is Unsat ==> b > nlits(*self),
        r is Ok ==> lits_out(r->Ok_0@, self.db.nodes@) && (forall|a: Asg| #[trigger] holds_if(self.db.nodes@, a) && holds_oi(self.db.nodes@, a) && cube_true(r->Ok_0@, a) ==> total(*self, a) == b)
            && (forall|a: Asg| #[trigger] strict(self.db.nodes@, a) && total(*self, a) == b ==> cube_true(r->Ok_0@, a)),
//@sub self\.enforce_ub\(b\)\? ==> match self.enforce_ub(b) { Ok(v) => v, Err(e) => { return Err(EnforceError::from(e)); } }
//@sub assumps\.extend\((.*)\); ==> let vx_u = assumps; let mut vx_l = $1; let ghost (gu, gl) = (vx_u@, vx_l@); let mut assumps = vx_u; assumps.append(&mut vx_l); proof { lem_cube_add(gu, gl); }
//@end
}
