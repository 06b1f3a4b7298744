// ---- optimization instances ----
//@struct src/instances/opt.rs Instance
//@sub Instance<VM: ManageVars = BasicVarManager> ==> OptInstance<VM: ManageVars>
/// a total assignment determines every constraint
pub proof fn lem_total_all<VM: ManageVars>(p: &Assignment, a: Asg, n: Instance<VM>) requires total_as(p, a) ensures n.isat(a) <==> n.all_t(*p), ext(*p, a)
{
    assert forall|v: nat| #[trigger] a(v) == a(v) && (p.val(v as int) == TernaryVal::True ==> a(v)) && (p.val(v as int) == TernaryVal::False ==> !a(v)) by { assert(p.val(v as int) == TernaryVal::of(a(v))); }
    assert forall|l: Lit| (#[trigger] p.lval(l) == TernaryVal::True) == tv(a, l) && (p.lval(l) == TernaryVal::False) == !tv(a, l) by { assert(p.val(l.v() as int) == TernaryVal::of(a(l.v()))); }
    assert forall|c: CardConstraint| #[trigger] c.sat(a) <==> card_val(c, *p) == TernaryVal::True by {
        assert forall|i: int| 0 <= i < c.l().len() implies flo(*p)(#[trigger] c.l()[i]) == fc(a)(c.l()[i]) && fhi(*p)(c.l()[i]) == fc(a)(c.l()[i]) by { let l = c.l()[i]; assert((p.lval(l) == TernaryVal::True) == tv(a, l)); }
        lem_sm_eq(c.l(), c.l(), flo(*p), fc(a)); lem_sm_eq(c.l(), c.l(), fhi(*p), fc(a));
    }
    assert forall|c: PbConstraint| #[trigger] c.sat(a) <==> pb_val(c, *p) == TernaryVal::True by {
        assert forall|i: int| 0 <= i < c.l().len() implies wlo(*p)(#[trigger] c.l()[i]) == fw(a)(c.l()[i]) && whi(*p)(c.l()[i]) == fw(a)(c.l()[i]) by { let l = c.l()[i].0; assert((p.lval(l) == TernaryVal::True) == tv(a, l)); }
        lem_sm_eq(c.l(), c.l(), wlo(*p), fw(a)); lem_sm_eq(c.l(), c.l(), whi(*p), fw(a));
    }
    assert forall|c: Clause| #[trigger] cl_true(c.s(), a) <==> cl_t(c.s(), *p) by {
        if cl_true(c.s(), a) { let i = choose|i: int| 0 <= i < c.s().len() && tv(a, #[trigger] c.s()[i]); assert(p.lval(c.s()[i]) == TernaryVal::True); }
        if cl_t(c.s(), *p) { let i = choose|i: int| 0 <= i < c.s().len() && #[trigger] p.lval(c.s()[i]) == TernaryVal::True; assert(tv(a, c.s()[i])); }
    }
    if n.isat(a) {
        assert forall|i: int| 0 <= i < n.cnf.c().len() implies cl_t((#[trigger] n.cnf.c()[i]).s(), *p) by { assert(cl_true(n.cnf.c()[i].s(), a)); }
        assert forall|i: int| 0 <= i < n.cards@.len() implies card_val(#[trigger] n.cards@[i], *p) == TernaryVal::True by { assert(n.cards@[i].sat(a)); }
        assert forall|i: int| 0 <= i < n.pbs@.len() implies pb_val(#[trigger] n.pbs@[i], *p) == TernaryVal::True by { assert(n.pbs@[i].sat(a)); }
    }
    if n.all_t(*p) {
        assert forall|i: int| 0 <= i < n.cnf.c().len() implies cl_true((#[trigger] n.cnf.c()[i]).s(), a) by { assert(cl_t(n.cnf.c()[i].s(), *p)); }
        assert forall|i: int| 0 <= i < n.cards@.len() implies (#[trigger] n.cards@[i]).sat(a) by { assert(card_val(n.cards@[i], *p) == TernaryVal::True); }
        assert forall|i: int| 0 <= i < n.pbs@.len() implies (#[trigger] n.pbs@[i]).sat(a) by { assert(pb_val(n.pbs@[i], *p) == TernaryVal::True); }
    }
}
pub proof fn lem_obel_mono(o: Objective, m: nat, n: nat) requires o.obel(m), m <= n ensures o.obel(n)
{
    lem_bel_mono(o.vl(), m, n);
    assert forall|i: int| 0 <= i < o.vc().len() implies bel((#[trigger] o.vc()[i]).s(), n) by { lem_bel_mono(o.vc()[i].s(), m, n); }
    assert forall|c: Clause| #[trigger] o.mc().contains_key(c) implies bel(c.s(), n) by { lem_bel_mono(c.s(), m, n); }
    assert forall|l: Lit| #[trigger] o.ml().contains_key(l) implies l.v() < n by { }
}
impl<VM: ManageVars> OptInstance<VM> {
    /// every variable of the constraints and of the objective is known to the variable manager
    pub open spec fn cov(&self) -> bool { self.constrs.cov() && self.obj.obel(self.constrs.var_manager.next()) }
//@fn src/instances/opt.rs Instance::compose
//@ret r
    requires constraints.cov(), objective.wf(), objective.obel(0x7fff_ffff),
    ensures r.cov(), r.obj == objective, r.constrs.cnf == constraints.cnf, r.constrs.cards == constraints.cards, r.constrs.pbs == constraints.pbs, r.constrs.var_manager.next() >= constraints.var_manager.next(),
        forall|a: Asg| #[trigger] r.constrs.isat(a) <==> constraints.isat(a),
//@sub (?s)\bInstance \{ ==> OptInstance {
//@end
//@fn src/instances/opt.rs Instance::decompose
//@ret r
    requires self.obj.obel(0x7fff_ffff),
    ensures r.1 == self.obj, r.0.cnf == self.constrs.cnf, r.0.cards == self.constrs.cards, r.0.pbs == self.constrs.pbs, r.1.obel(r.0.var_manager.next()), r.0.var_manager.next() >= self.constrs.var_manager.next(),
        self.constrs.cov() ==> r.0.cov(), forall|a: Asg| #[trigger] r.0.isat(a) <==> self.constrs.isat(a),
//@end
//@fn src/instances/opt.rs Instance::cost
//@ret r
    requires self.constrs.wf(), self.obj.wf(), self.obj.tot() <= isize::MAX, self.obj.off() + self.obj.tot() <= isize::MAX,
    // the cost of a solution, nothing for an assignment that violates the constraints
    ensures forall|a: Asg| total_as(assign, a) ==> r == (if #[trigger] self.constrs.isat(a) { Some(self.obj.cost(a) as isize) } else { None }),
//@ghost start
    proof { assert forall|a: Asg| total_as(assign, a) implies (#[trigger] self.constrs.isat(a) <==> self.constrs.all_t(*assign)) by { lem_total_all(assign, a, self.constrs); } }
//@end
//@fn src/instances/opt.rs Instance::reindex
//@ret r
    requires self.obj.wf(), reindexer.rinv(),
    ensures r.cov(), r.obj.wf(), forall|a: Asg| #[trigger] r.constrs.isat(a) <==> self.constrs.isat(pull(r.constrs.var_manager, a)), forall|a: Asg| #[trigger] r.obj.cost(a) == self.obj.cost(pull(r.constrs.var_manager, a)),
//@sub (?s)\bInstance \{ ==> OptInstance {
//@sub -> \(r : Instance ==> -> (r : OptInstance
//@ghost call reindex 0 after
    let ghost m1 = reindexer;
//@ghost call reindex 1 after
    proof { lem_pull_grow(m1, constrs.var_manager, self.obj); 
        assert forall|a: Asg| #[trigger] obj.cost(a) == self.obj.cost(pull(constrs.var_manager, a)) by { assert(obj.cost(a) == self.obj.cost(pull(m1, a))); }
        lem_obel_mono(obj, m1.next(), constrs.var_manager.next()); }
//@end
}
