// ---- variable managers as an instance sees them (proved for the managers of the crate under P12; running out of variables panics) ----
pub trait ManageVars: Sized {
    spec fn next(&self) -> nat;
    fn new_var(&mut self) -> (r: Var) ensures r.i() >= old(self).next(), final(self).next() == r.i() + 1, r.wf();
//@fn src/instances/mod.rs trait:ManageVars::new_lit
//@ret r
        ensures r.v() >= old(self).next(), final(self).next() == r.v() + 1, !r.neg(),
//@end
    fn max_var(&self) -> (r: Option<Var>) ensures r is None <==> self.next() == 0, r is Some ==> r->0.i() == self.next() - 1;
    fn increase_next_free(&mut self, v: Var) -> (r: bool)
        ensures final(self).next() == (if v.i() > old(self).next() { v.i() } else { old(self).next() });
    fn mark_used(&mut self, v: Var) -> (r: bool)
        ensures final(self).next() >= v.i() + 1, final(self).next() >= old(self).next(), final(self).next() == old(self).next() || final(self).next() == v.i() + 1;
    fn combine(&mut self, other: Self)
        ensures final(self).next() >= old(self).next(), final(self).next() >= other.next();
    fn n_used(&self) -> (r: u32) ensures r == self.next();
}
//@struct src/instances/sat.rs Instance
//@sub <VM: ManageVars = BasicVarManager> ==> <VM: ManageVars>
impl<VM: ManageVars> Instance<VM> {
    /// the assignment satisfies every constraint
    pub open spec fn isat(&self, a: Asg) -> bool { cnf_true(self.cnf.c(), a) && cards_true(self.cards@, a) && pbs_true(self.pbs@, a) }
    /// every variable of a constraint lies below the next free one
    pub open spec fn cov(&self) -> bool { bnd(self.cnf.c(), self.var_manager.next()) && cards_bel(self.cards@, self.var_manager.next()) && pbs_bel(self.pbs@, self.var_manager.next()) }
    pub open spec fn wf(&self) -> bool { pbs_wf(self.pbs@) }
    /// only the clauses changed
    pub open spec fn rest(&self, o: Self) -> bool { self.cards == o.cards && self.pbs == o.pbs && self.var_manager.next() >= o.var_manager.next() }
}
pub open spec fn cards_true(c: Seq<CardConstraint>, a: Asg) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).sat(a) }
pub open spec fn pbs_true(c: Seq<PbConstraint>, a: Asg) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).sat(a) }
pub open spec fn cards_bel(c: Seq<CardConstraint>, n: nat) -> bool { forall|i: int| 0 <= i < c.len() ==> bel((#[trigger] c[i]).l(), n) }
pub open spec fn pbs_bel(c: Seq<PbConstraint>, n: nat) -> bool { forall|i: int| 0 <= i < c.len() ==> wbel((#[trigger] c[i]).l(), n) }
pub open spec fn wbel(s: Seq<(Lit, usize)>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.v() < n }
pub open spec fn pbs_wf(c: Seq<PbConstraint>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i]).wf() }
pub proof fn lem_cards_add(c: Seq<CardConstraint>, d: Seq<CardConstraint>) ensures forall|a: Asg| #[trigger] cards_true(c + d, a) == (cards_true(c, a) && cards_true(d, a)), forall|n: nat| #[trigger] cards_bel(c + d, n) == (cards_bel(c, n) && cards_bel(d, n))
{
    let e = c + d;
    assert(forall|i: int| 0 <= i < c.len() ==> e[i] == c[i]);
    assert(forall|i: int| 0 <= i < d.len() ==> e[c.len() + i] == #[trigger] d[i]);
    assert forall|a: Asg| #[trigger] cards_true(e, a) == (cards_true(c, a) && cards_true(d, a)) by {
        if cards_true(e, a) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).sat(a) by { assert(e[c.len() + i].sat(a)); } assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).sat(a) by { assert(e[i].sat(a)); } }
    }
    assert forall|n: nat| #[trigger] cards_bel(e, n) == (cards_bel(c, n) && cards_bel(d, n)) by {
        if cards_bel(e, n) { assert forall|i: int| 0 <= i < d.len() implies bel((#[trigger] d[i]).l(), n) by { assert(bel(e[c.len() + i].l(), n)); } assert forall|i: int| 0 <= i < c.len() implies bel((#[trigger] c[i]).l(), n) by { assert(bel(e[i].l(), n)); } }
    }
}
pub proof fn lem_pbs_add(c: Seq<PbConstraint>, d: Seq<PbConstraint>) ensures forall|a: Asg| #[trigger] pbs_true(c + d, a) == (pbs_true(c, a) && pbs_true(d, a)), forall|n: nat| #[trigger] pbs_bel(c + d, n) == (pbs_bel(c, n) && pbs_bel(d, n)), pbs_wf(c + d) == (pbs_wf(c) && pbs_wf(d))
{
    let e = c + d;
    assert(forall|i: int| 0 <= i < c.len() ==> e[i] == c[i]);
    assert(forall|i: int| 0 <= i < d.len() ==> e[c.len() + i] == #[trigger] d[i]);
    assert forall|a: Asg| #[trigger] pbs_true(e, a) == (pbs_true(c, a) && pbs_true(d, a)) by {
        if pbs_true(e, a) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).sat(a) by { assert(e[c.len() + i].sat(a)); } assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).sat(a) by { assert(e[i].sat(a)); } }
    }
    assert forall|n: nat| #[trigger] pbs_bel(e, n) == (pbs_bel(c, n) && pbs_bel(d, n)) by {
        if pbs_bel(e, n) { assert forall|i: int| 0 <= i < d.len() implies wbel((#[trigger] d[i]).l(), n) by { assert(wbel(e[c.len() + i].l(), n)); } assert forall|i: int| 0 <= i < c.len() implies wbel((#[trigger] c[i]).l(), n) by { assert(wbel(e[i].l(), n)); } }
    }
    if pbs_wf(e) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).wf() by { assert(e[c.len() + i].wf()); } assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).wf() by { assert(e[i].wf()); } }
}
pub proof fn lem_bel_le(s: Seq<Lit>, n: nat, m: nat) requires bel(s, n), n <= m ensures bel(s, m) {}
/// adding variables keeps everything covered
pub proof fn lem_cov_up(c: Seq<Clause>, k: Seq<CardConstraint>, p: Seq<PbConstraint>, n: nat, m: nat)
    requires n <= m,
    ensures bnd(c, n) ==> bnd(c, m), cards_bel(k, n) ==> cards_bel(k, m), pbs_bel(p, n) ==> pbs_bel(p, m),
{
    if bnd(c, n) { assert forall|i: int| 0 <= i < c.len() implies bel((#[trigger] c[i]).s(), m) by { lem_bel_le(c[i].s(), n, m); } }
    if cards_bel(k, n) { assert forall|i: int| 0 <= i < k.len() implies bel((#[trigger] k[i]).l(), m) by { lem_bel_le(k[i].l(), n, m); } }
    if pbs_bel(p, n) { assert forall|i: int| 0 <= i < p.len() implies wbel((#[trigger] p[i]).l(), m) by { assert(wbel(p[i].l(), n)); } }
}
pub proof fn lem_bel_step(s: Seq<Lit>, i: int, n: nat, m: nat) requires 0 <= i < s.len(), bel(s.take(i), n), n <= m, s[i].v() < m ensures bel(s.take(i + 1), m)
{ let t = s.take(i + 1); assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).v() < m by { if j < i { assert(s.take(i)[j] == t[j]); } } }
pub proof fn lem_bel_end(s: Seq<Lit>, n: nat) requires bel(s.take(s.len() as int), n) ensures bel(s, n) { assert(s.take(s.len() as int) =~= s); }
pub proof fn lem_cov_keeps(o: Seq<Clause>, f: Seq<Clause>, x: Seq<Lit>, y: Seq<Lit>, n: nat, m: nat) requires keeps(o, f, x, y), bnd(o, n), n <= m, bel(x, m), bel(y, m) ensures bnd(f, m)
{ lem_cov_up(o, Seq::empty(), Seq::empty(), n, m); }
pub proof fn lem_inst_step<VM: ManageVars>(o: Instance<VM>, f: Instance<VM>, x: Seq<Lit>, y: Seq<Lit>)
    requires keeps(o.cnf.c(), f.cnf.c(), x, y), f.rest(o), bel(x, f.var_manager.next()), bel(y, f.var_manager.next()),
    ensures o.cov() ==> f.cov(),
{ if o.cov() { lem_cov_up(o.cnf.c(), o.cards@, o.pbs@, o.var_manager.next(), f.var_manager.next()); lem_cov_keeps(o.cnf.c(), f.cnf.c(), x, y, o.var_manager.next(), f.var_manager.next()); } }
/// a clause is added
pub proof fn lem_inst_push<VM: ManageVars>(o: Instance<VM>, f: Instance<VM>, c: Clause)
    requires f.cnf.c() == o.cnf.c().push(c), f.rest(o), bel(c.s(), f.var_manager.next()),
    ensures o.cov() ==> f.cov(), forall|a: Asg| #[trigger] f.isat(a) <==> o.isat(a) && cl_true(c.s(), a),
{
    lem_mentions_self(c.s(), c.s()); lem_keep1(o.cnf.c(), c, c.s(), c.s()); lem_inst_step(o, f, c.s(), c.s());
}
pub proof fn lem_bel0(s: Seq<Lit>, n: nat) ensures bel(s.take(0), n) {}
impl<VM: ManageVars> Instance<VM> {
//@fn src/instances/sat.rs Instance::new_with_manager
//@ret r
    ensures r.var_manager == var_manager, forall|a: Asg| r.isat(a), r.cov(), r.wf(), r.cnf.c().len() == 0, r.cards@.len() == 0, r.pbs@.len() == 0,
//@end
//@fn src/instances/sat.rs Instance::n_clauses
//@ret r
    ensures r == self.cnf.c().len(),
//@end
//@fn src/instances/sat.rs Instance::n_cards
//@ret r
    ensures r == self.cards@.len(),
//@end
//@fn src/instances/sat.rs Instance::n_pbs
//@ret r
    ensures r == self.pbs@.len(),
//@end
// (each of the numbers is the length of a vector of at least 24 bytes per element, and thus at most isize::MAX / 24)
//@fn src/instances/sat.rs Instance::n_constraints
//@ret r
    requires self.cnf.c().len() + self.cards@.len() + self.pbs@.len() <= usize::MAX,
    ensures r == self.cnf.c().len() + self.cards@.len() + self.pbs@.len(),
//@end
//@fn src/instances/sat.rs Instance::add_clause
    ensures final(self).cnf.c() == old(self).cnf.c().push(cl), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
        forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && cl_true(cl.s(), a),
//@sub? cl\s*\.iter\(\) ==> cl.lits.iter()
//@loop 0 iter=it
    invariant it.seq().len() == cl.s().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == cl.s()[i],
        bel(cl.s().take(it.index@ as int), self.var_manager.next()), self.var_manager.next() >= n0, self.rest(o0), self.cnf == o0.cnf, n0 == o0.var_manager.next(),
//@ghost start
    let ghost o0 = *self;
    let ghost n0 = self.var_manager.next();
    let ghost c0 = cl;
    proof { lem_bel0(cl.s(), n0); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(cl.s(), it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(cl.s(), self.var_manager.next()); }
//@ghost end
    proof { lem_inst_push(o0, *self, c0); }
//@end
//@fn src/instances/sat.rs Instance::add_lit_impl_lit
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (tv(a_, a) ==> tv(a_, b)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@ghost end
    proof { lem_inst_step(o0, *self, seq![a], seq![b]); }
//@end
//@fn src/instances/sat.rs Instance::add_lit_impl_clause
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (tv(a_, a) ==> cl_true(b@, a_)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == b@[i],
        bel(b@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf, a.v() < self.var_manager.next(),
//@ghost loop 0 before
    proof { lem_bel0(b@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(b@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(b@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, seq![a], b@); }
//@end
//@fn src/instances/sat.rs Instance::add_lit_impl_cube
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (tv(a_, a) ==> cube_true(b@, a_)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == b@[i],
        bel(b@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf, a.v() < self.var_manager.next(),
//@ghost loop 0 before
    proof { lem_bel0(b@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(b@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(b@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, seq![a], b@); }
//@end
//@fn src/instances/sat.rs Instance::add_cube_impl_lit
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (cube_true(a@, a_) ==> tv(a_, b)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == a@[i],
        bel(a@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost loop 0 before
    proof { lem_bel0(a@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(a@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(a@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, a@, seq![b]); }
//@end
//@fn src/instances/sat.rs Instance::add_clause_impl_lit
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (cl_true(a@, a_) ==> tv(a_, b)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == a@[i],
        bel(a@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost loop 0 before
    proof { lem_bel0(a@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(a@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(a@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, a@, seq![b]); }
//@end
//@fn src/instances/sat.rs Instance::add_cube_impl_clause
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (cube_true(a@, a_) ==> cl_true(b@, a_)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == a@[i],
        bel(a@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost loop 0 before
    proof { lem_bel0(a@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(a@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(a@, self.var_manager.next()); }
//@loop 1 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == b@[i],
        bel(b@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf, bel(a@, self.var_manager.next()),
//@ghost loop 1 before
    proof { lem_bel0(b@, self.var_manager.next()); }
//@ghost loop 1 start
    let ghost nb = self.var_manager.next();
//@ghost loop 1 end
    proof { lem_bel_step(b@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 1 after
    proof { lem_bel_end(b@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, a@, b@); }
//@end
//@fn src/instances/sat.rs Instance::add_clause_impl_clause
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (cl_true(a@, a_) ==> cl_true(b@, a_)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == a@[i],
        bel(a@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost loop 0 before
    proof { lem_bel0(a@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(a@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(a@, self.var_manager.next()); }
//@loop 1 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == b@[i],
        bel(b@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf, bel(a@, self.var_manager.next()),
//@ghost loop 1 before
    proof { lem_bel0(b@, self.var_manager.next()); }
//@ghost loop 1 start
    let ghost nb = self.var_manager.next();
//@ghost loop 1 end
    proof { lem_bel_step(b@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 1 after
    proof { lem_bel_end(b@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, a@, b@); }
//@end
//@fn src/instances/sat.rs Instance::add_clause_impl_cube
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (cl_true(a@, a_) ==> cube_true(b@, a_)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == a@[i],
        bel(a@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost loop 0 before
    proof { lem_bel0(a@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(a@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(a@, self.var_manager.next()); }
//@loop 1 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == b@[i],
        bel(b@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf, bel(a@, self.var_manager.next()),
//@ghost loop 1 before
    proof { lem_bel0(b@, self.var_manager.next()); }
//@ghost loop 1 start
    let ghost nb = self.var_manager.next();
//@ghost loop 1 end
    proof { lem_bel_step(b@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 1 after
    proof { lem_bel_end(b@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, a@, b@); }
//@end
//@fn src/instances/sat.rs Instance::add_cube_impl_cube
    ensures forall|a_: Asg| #[trigger] final(self).isat(a_) <==> old(self).isat(a_) && (cube_true(a@, a_) ==> cube_true(b@, a_)), final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
//@ghost start
    let ghost o0 = *self;
//@loop 0 iter=it
    invariant it.seq().len() == a@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == a@[i],
        bel(a@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost loop 0 before
    proof { lem_bel0(a@, self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(a@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(a@, self.var_manager.next()); }
//@loop 1 iter=it
    invariant it.seq().len() == b@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == b@[i],
        bel(b@.take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf, bel(a@, self.var_manager.next()),
//@ghost loop 1 before
    proof { lem_bel0(b@, self.var_manager.next()); }
//@ghost loop 1 start
    let ghost nb = self.var_manager.next();
//@ghost loop 1 end
    proof { lem_bel_step(b@, it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 1 after
    proof { lem_bel_end(b@, self.var_manager.next()); }
//@ghost end
    proof { lem_inst_step(o0, *self, a@, b@); }
//@end
//@fn src/instances/sat.rs Instance::add_card_constr
    ensures final(self).cards@ == old(self).cards@.push(card), final(self).cnf == old(self).cnf, final(self).pbs == old(self).pbs, final(self).var_manager.next() >= old(self).var_manager.next(), old(self).cov() ==> final(self).cov(),
        forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && card.sat(a),
//@sub? : & card ==> : card.iter()
//@ghost start
    let ghost o0 = *self;
    let ghost c0 = card;
//@loop 0 iter=it
    invariant it.seq().len() == card.l().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == card.l()[i],
        bel(card.l().take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost loop 0 before
    proof { lem_bel0(card.l(), self.var_manager.next()); }
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
//@ghost loop 0 end
    proof { lem_bel_step(card.l(), it.index@ as int, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { lem_bel_end(card.l(), self.var_manager.next()); }
//@ghost end
    proof {
        let n = self.var_manager.next();
        lem_cov_up(o0.cnf.c(), o0.cards@, o0.pbs@, o0.var_manager.next(), n);
        let d = seq![c0];
        assert(self.cards@ =~= o0.cards@ + d);
        lem_cards_add(o0.cards@, d);
        assert(cards_bel(d, n));
        assert forall|a: Asg| #[trigger] self.isat(a) <==> o0.isat(a) && c0.sat(a) by { if cards_true(d, a) { assert(d[0].sat(a)); } assert(cards_true(o0.cards@ + d, a) == (cards_true(o0.cards@, a) && cards_true(d, a))); }
    }
//@end
//@fn src/instances/sat.rs Instance::add_pb_constr tuple_ref
    ensures final(self).pbs@ == old(self).pbs@.push(pb), final(self).cnf == old(self).cnf, final(self).cards == old(self).cards, final(self).var_manager.next() >= old(self).var_manager.next(), old(self).cov() ==> final(self).cov(),
        forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && pb.sat(a), pb.wf() && old(self).wf() ==> final(self).wf(),
//@sub? : & pb ==> : pb.iter()
//@loop 0 iter=it
    invariant it.seq().len() == pb.l().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == pb.l()[i],
        wbel(pb.l().take(it.index@ as int), self.var_manager.next()), self.rest(o0), self.cnf == o0.cnf,
//@ghost start
    let ghost o0 = *self;
    let ghost c0 = pb;
//@ghost loop 0 start
    let ghost nb = self.var_manager.next();
    let ghost ix = it.index@ as int;
//@ghost loop 0 end
    proof { lem_wbel_step(pb.l(), ix, nb, self.var_manager.next()); }
//@ghost loop 0 after
    proof { assert(pb.l().take(pb.l().len() as int) =~= pb.l()); }
//@ghost end
    proof {
        let n = self.var_manager.next();
        lem_cov_up(o0.cnf.c(), o0.cards@, o0.pbs@, o0.var_manager.next(), n);
        let d = seq![c0];
        assert(self.pbs@ =~= o0.pbs@ + d);
        lem_pbs_add(o0.pbs@, d);
        assert(pbs_bel(d, n));
        assert(c0.wf() ==> pbs_wf(d));
        assert forall|a: Asg| #[trigger] self.isat(a) <==> o0.isat(a) && c0.sat(a) by { if pbs_true(d, a) { assert(d[0].sat(a)); } assert(pbs_true(o0.pbs@ + d, a) == (pbs_true(o0.pbs@, a) && pbs_true(d, a))); }
    }
//@end
//@fn src/instances/sat.rs Instance::cnf
//@ret r
    ensures *r == self.cnf,
//@end
//@fn src/instances/sat.rs Instance::var_manager_mut
//@ret r
    ensures *r == old(self).var_manager, final(self).cnf == old(self).cnf, final(self).cards == old(self).cards, final(self).pbs == old(self).pbs, *final(r) == final(self).var_manager,
//@end
//@fn src/instances/sat.rs Instance::var_manager_ref
//@ret r
    ensures *r == self.var_manager,
//@end
//@fn src/instances/sat.rs Instance::new_var
//@ret r
    ensures r.i() >= old(self).var_manager.next(), final(self).var_manager.next() == r.i() + 1, final(self).rest(*old(self)), final(self).cnf == old(self).cnf, old(self).cov() ==> final(self).cov(),
//@ghost end
    proof { lem_cov_up(old(self).cnf.c(), old(self).cards@, old(self).pbs@, old(self).var_manager.next(), self.var_manager.next()); }
//@end
//@fn src/instances/sat.rs Instance::new_lit
//@ret r
    ensures r.v() >= old(self).var_manager.next(), !r.neg(), final(self).var_manager.next() == r.v() + 1, final(self).rest(*old(self)), final(self).cnf == old(self).cnf, old(self).cov() ==> final(self).cov(),
//@ghost end
    proof { lem_cov_up(old(self).cnf.c(), old(self).cards@, old(self).pbs@, old(self).var_manager.next(), self.var_manager.next()); }
//@end
//@fn src/instances/sat.rs Instance::max_var
//@ret r
    ensures r is None <==> self.var_manager.next() == 0, r is Some ==> r->0.i() == self.var_manager.next() - 1,
//@end
//@fn src/instances/sat.rs Instance::n_vars
//@ret r
    ensures r == self.var_manager.next(),
//@end
//@fn src/instances/sat.rs Instance::change_var_manager
//@ret r
    requires forall|v: &VM| vm_converter.requires((v,)),
    ensures r.0.cnf == self.cnf, r.0.cards == self.cards, r.0.pbs == self.pbs, r.1 == self.var_manager, vm_converter.ensures((&self.var_manager,), r.0.var_manager),
        forall|a: Asg| #[trigger] r.0.isat(a) <==> self.isat(a),
//@end
//@fn src/instances/sat.rs Instance::extend
    ensures final(self).cnf.c() == old(self).cnf.c() + other.cnf.c(), final(self).cards@ == old(self).cards@ + other.cards@, final(self).pbs@ == old(self).pbs@ + other.pbs@,
        forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && other.isat(a), old(self).cov() && other.cov() ==> final(self).cov(), old(self).wf() && other.wf() ==> final(self).wf(),
//@sub cnf\.extend\(other\.cnf\) ==> cnf.extend(other.cnf.clauses)
//@sub cards\.extend\( ==> cards.vx_extend(
//@sub pbs\.extend\( ==> pbs.vx_extend(
//@ghost end
    proof {
        let (o, p, n) = (*old(self), other, self.var_manager.next());
        lem_cnf_add_all(o.cnf.c(), p.cnf.c()); lem_cards_add(o.cards@, p.cards@); lem_pbs_add(o.pbs@, p.pbs@);
        lem_cov_up(o.cnf.c(), o.cards@, o.pbs@, o.var_manager.next(), n);
        lem_cov_up(p.cnf.c(), p.cards@, p.pbs@, p.var_manager.next(), n);
        if bnd(o.cnf.c(), n) && bnd(p.cnf.c(), n) { lem_bnd_add(o.cnf.c(), p.cnf.c(), n, n); }
        assert(cards_bel(o.cards@ + p.cards@, n) == (cards_bel(o.cards@, n) && cards_bel(p.cards@, n)));
        assert(pbs_bel(o.pbs@ + p.pbs@, n) == (pbs_bel(o.pbs@, n) && pbs_bel(p.pbs@, n)));
    }
//@end
}
pub proof fn lem_wbel_step(s: Seq<(Lit, usize)>, i: int, n: nat, m: nat) requires 0 <= i < s.len(), wbel(s.take(i), n), n <= m, s[i].0.v() < m ensures wbel(s.take(i + 1), m)
{ let t = s.take(i + 1); assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0.v() < m by { if j < i { assert(s.take(i)[j] == t[j]); } } }
impl<VM: ManageVars> vstd::std_specs::ops::BitAndAssignSpecImpl<Var> for Instance<VM> {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Var) -> bool { rhs.wf() }
    open spec fn bitand_assign_spec(&self, rhs: Var) -> &Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAndAssign<Var> for Instance<VM> {
//@fn src/types/operators.rs <SatInstance as BitAndAssign<Var>>::bitand_assign
    ensures final(self).cnf.c().len() == old(self).cnf.c().len() + 1, final(self).cnf.c().last().s() == seq![Lit::mk(rhs.i(), false)], final(self).cnf.c().drop_last() == old(self).cnf.c(), final(self).rest(*old(self)),
        old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && a(rhs.i()),
//@ghost end
    proof { lem_single(); assert(self.cnf.c().drop_last() =~= old(self).cnf.c()); }
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndSpecImpl<Var> for Instance<VM> {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Var) -> bool { rhs.wf() }
    open spec fn bitand_spec(self, rhs: Var) -> Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAnd<Var> for Instance<VM> {
    type Output = Instance<VM>;
//@fn src/types/operators.rs <SatInstance as BitAnd<Var>>::bitand
//@ret r
    ensures r.rest(self), self.cov() ==> r.cov(), forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(a) && a(rhs.i()),
//@ghost end
    proof { lem_single(); }
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndAssignSpecImpl<Lit> for Instance<VM> {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Lit) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Lit) -> &Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAndAssign<Lit> for Instance<VM> {
//@fn src/types/operators.rs <SatInstance as BitAndAssign<Lit>>::bitand_assign
    ensures final(self).cnf.c().len() == old(self).cnf.c().len() + 1, final(self).cnf.c().last().s() == seq![rhs], final(self).cnf.c().drop_last() == old(self).cnf.c(), final(self).rest(*old(self)),
        old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && tv(a, rhs),
//@ghost end
    proof { lem_single(); assert(self.cnf.c().drop_last() =~= old(self).cnf.c()); }
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndSpecImpl<Lit> for Instance<VM> {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Lit) -> bool { true }
    open spec fn bitand_spec(self, rhs: Lit) -> Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAnd<Lit> for Instance<VM> {
    type Output = Instance<VM>;
//@fn src/types/operators.rs <SatInstance as BitAnd<Lit>>::bitand
//@ret r
    ensures r.rest(self), self.cov() ==> r.cov(), forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(a) && tv(a, rhs),
//@ghost end
    proof { lem_single(); }
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndAssignSpecImpl<Clause> for Instance<VM> {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Clause) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Clause) -> &Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAndAssign<Clause> for Instance<VM> {
//@fn src/types/operators.rs <SatInstance as BitAndAssign<Clause>>::bitand_assign
    ensures final(self).cnf.c().len() == old(self).cnf.c().len() + 1, final(self).cnf.c().last().s() == rhs.s(), final(self).cnf.c().drop_last() == old(self).cnf.c(), final(self).rest(*old(self)),
        old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && cl_true(rhs.s(), a),
//@ghost end
    proof { lem_single(); assert(self.cnf.c().drop_last() =~= old(self).cnf.c()); }
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndSpecImpl<Clause> for Instance<VM> {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Clause) -> bool { true }
    open spec fn bitand_spec(self, rhs: Clause) -> Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAnd<Clause> for Instance<VM> {
    type Output = Instance<VM>;
//@fn src/types/operators.rs <SatInstance as BitAnd<Clause>>::bitand
//@ret r
    ensures r.rest(self), self.cov() ==> r.cov(), forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(a) && cl_true(rhs.s(), a),
//@ghost end
    proof { lem_single(); }
//@end
}
pub type SatInstance<VM> = Instance<VM>;
// ---- evaluation ----
pub open spec fn card_val(c: CardConstraint, p: Assignment) -> TernaryVal { eval3(c.op(), sm(c.l(), flo(p)), sm(c.l(), fhi(p)), c.bnd() as int) }
pub open spec fn pb_val(c: PbConstraint, p: Assignment) -> TernaryVal { eval3(c.op(), sm(c.l(), wlo(p)), sm(c.l(), whi(p)), c.bnd() as int) }
//@struct src/types/constraints.rs ConstraintRef
impl<VM: ManageVars> Instance<VM> {
    pub open spec fn all_t(&self, p: Assignment) -> bool {
        cnf_t(self.cnf.c(), p) && (forall|i: int| 0 <= i < self.cards@.len() ==> card_val(#[trigger] self.cards@[i], p) == TernaryVal::True) && (forall|i: int| 0 <= i < self.pbs@.len() ==> pb_val(#[trigger] self.pbs@[i], p) == TernaryVal::True)
    }
    pub open spec fn some_f(&self, p: Assignment) -> bool {
        cnf_f(self.cnf.c(), p) || (exists|i: int| 0 <= i < self.cards@.len() && card_val(#[trigger] self.cards@[i], p) == TernaryVal::False) || (exists|i: int| 0 <= i < self.pbs@.len() && pb_val(#[trigger] self.pbs@[i], p) == TernaryVal::False)
    }
//@fn src/instances/sat.rs Instance::evaluate
//@ret r
    requires self.wf(),
    ensures (r == TernaryVal::True) == self.all_t(*assign), (r == TernaryVal::False) == self.some_f(*assign),
        r == TernaryVal::True ==> forall|a: Asg| ext(*assign, a) ==> #[trigger] self.isat(a),
        r == TernaryVal::False ==> forall|a: Asg| ext(*assign, a) ==> !#[trigger] self.isat(a),
//@loop 0 iter=it
    invariant it.seq().len() == self.cards@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.cards@[i],
        val != TernaryVal::False, !cnf_f(self.cnf.c(), *assign), (val == TernaryVal::True) == (cnf_t(self.cnf.c(), *assign) && forall|i: int| 0 <= i < it.index@ ==> card_val(#[trigger] self.cards@[i], *assign) == TernaryVal::True),
        forall|i: int| 0 <= i < it.index@ ==> card_val(#[trigger] self.cards@[i], *assign) != TernaryVal::False,
        forall|i: int| 0 <= i < it.index@ ==> c_sound(*assign, #[trigger] self.cards@[i]),
//@loop 1 iter=it
    invariant it.seq().len() == self.pbs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.pbs@[i], self.wf(),
        val != TernaryVal::False, !cnf_f(self.cnf.c(), *assign), (val == TernaryVal::True) == (cnf_t(self.cnf.c(), *assign) && (forall|i: int| 0 <= i < self.cards@.len() ==> card_val(#[trigger] self.cards@[i], *assign) == TernaryVal::True) && forall|i: int| 0 <= i < it.index@ ==> pb_val(#[trigger] self.pbs@[i], *assign) == TernaryVal::True),
        forall|i: int| 0 <= i < self.cards@.len() ==> card_val(#[trigger] self.cards@[i], *assign) != TernaryVal::False,
        forall|i: int| 0 <= i < self.cards@.len() ==> c_sound(*assign, #[trigger] self.cards@[i]),
        forall|i: int| 0 <= i < it.index@ ==> pb_val(#[trigger] self.pbs@[i], *assign) != TernaryVal::False,
        forall|i: int| 0 <= i < it.index@ ==> p_sound(*assign, #[trigger] self.pbs@[i]),
//@ghost start
    proof { lem_cnf_t(self.cnf.c(), *assign); lem_cnf_ext(self.cnf.c(), *assign); }
//@end
//@fn src/instances/sat.rs Instance::unsat_constraint
//@ret r
    requires self.wf(),
    ensures r is None <==> self.all_t(*assign),
        r is Some ==> match r->0 {
            ConstraintRef::Clause(c) => !cl_t(c.s(), *assign) && self.cnf.c().contains(*c),
            ConstraintRef::Card(c) => card_val(*c, *assign) != TernaryVal::True && self.cards@.contains(*c),
            ConstraintRef::Pb(c) => pb_val(*c, *assign) != TernaryVal::True && self.pbs@.contains(*c),
        },
//@sub? : & self.cnf ==> : self.cnf.clauses.iter()
//@loop 0 iter=it
    invariant it.seq().len() == self.cnf.c().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.cnf.c()[i],
        forall|i: int| 0 <= i < it.index@ ==> cl_t((#[trigger] self.cnf.c()[i]).s(), *assign),
//@loop 1 iter=it
    invariant it.seq().len() == self.cards@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.cards@[i], cnf_t(self.cnf.c(), *assign),
        forall|i: int| 0 <= i < it.index@ ==> card_val(#[trigger] self.cards@[i], *assign) == TernaryVal::True,
//@loop 2 iter=it
    invariant it.seq().len() == self.pbs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.pbs@[i], self.wf(), cnf_t(self.cnf.c(), *assign),
        forall|i: int| 0 <= i < self.cards@.len() ==> card_val(#[trigger] self.cards@[i], *assign) == TernaryVal::True,
        forall|i: int| 0 <= i < it.index@ ==> pb_val(#[trigger] self.pbs@[i], *assign) == TernaryVal::True,
//@end
}
pub open spec fn c_sound(p: Assignment, c: CardConstraint) -> bool { card_val(c, p) == TernaryVal::True ==> forall|a: Asg| ext(p, a) ==> #[trigger] c.sat(a) }
pub open spec fn p_sound(p: Assignment, c: PbConstraint) -> bool { pb_val(c, p) == TernaryVal::True ==> forall|a: Asg| ext(p, a) ==> #[trigger] c.sat(a) }
/// the value of a formula under a partial assignment is that under every total one extending it
pub proof fn lem_cnf_ext(c: Seq<Clause>, p: Assignment) ensures cnf_t(c, p) ==> (forall|a: Asg| ext(p, a) ==> #[trigger] cnf_true(c, a)), cnf_f(c, p) ==> (forall|a: Asg| ext(p, a) ==> !#[trigger] cnf_true(c, a))
{
    if cnf_t(c, p) {
        assert forall|a: Asg| ext(p, a) implies #[trigger] cnf_true(c, a) by {
            assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), a) by {
                let s = c[i].s(); assert(cl_t(s, p)); let j = choose|j: int| 0 <= j < s.len() && #[trigger] p.lval(s[j]) == TernaryVal::True; lem_ext_lit(p, a, s[j]);
            }
        }
    }
    if cnf_f(c, p) {
        let i = choose|i: int| 0 <= i < c.len() && cl_f((#[trigger] c[i]).s(), p);
        assert forall|a: Asg| ext(p, a) implies !#[trigger] cnf_true(c, a) by {
            let s = c[i].s();
            assert forall|j: int| 0 <= j < s.len() implies !tv(a, #[trigger] s[j]) by { assert(p.lval(s[j]) == TernaryVal::False); lem_ext_lit(p, a, s[j]); }
            if cnf_true(c, a) { assert(cl_true(c[i].s(), a)); }
        }
    }
}
// ---- building and combining ----
impl<VM: ManageVars> Instance<VM> {
//@fn src/instances/sat.rs <Instance as Extend<Clause>>::extend as=ext_clauses inst=T:Vec<Clause>
    ensures final(self).cnf.c() == old(self).cnf.c() + iter@, final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(),
        forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && cnf_true(iter@, a),
//@loop 0 iter=it
    invariant it.seq() == d0, self.cnf.c() == o0.cnf.c() + d0.take(it.index@ as int), self.rest(o0), o0.cov() ==> self.cov(),
//@ghost start
    let ghost o0 = *self;
    let ghost d0 = iter@;
    proof { assert(o0.cnf.c() + d0.take(0) =~= o0.cnf.c()); }
//@ghost loop 0 end
    proof { let i = it.index@ as int; assert(o0.cnf.c() + d0.take(i + 1) =~= (o0.cnf.c() + d0.take(i)).push(d0[i])); }
//@ghost end
    proof { assert(d0.take(d0.len() as int) =~= d0); lem_cnf_add_all(o0.cnf.c(), d0); }
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndAssignSpecImpl<Cnf> for Instance<VM> {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Cnf) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Cnf) -> &Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAndAssign<Cnf> for Instance<VM> {
//@fn src/types/operators.rs <SatInstance as BitAndAssign<Cnf>>::bitand_assign
    ensures old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && cnf_true(rhs.c(), a),
//@sub? <\s*SatInstance<VM> as Extend<Clause>>::extend\(\s*(&mut )?(self|vx_self), rhs\) ==> $2.ext_clauses(rhs.clauses)
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndSpecImpl<Cnf> for Instance<VM> {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Cnf) -> bool { true }
    open spec fn bitand_spec(self, rhs: Cnf) -> Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAnd<Cnf> for Instance<VM> {
    type Output = Instance<VM>;
//@fn src/types/operators.rs <SatInstance as BitAnd<Cnf>>::bitand
//@ret r
    ensures self.cov() ==> r.cov(), forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(a) && cnf_true(rhs.c(), a),
//@sub? <\s*SatInstance<VM> as Extend<Clause>>::extend\(\s*(&mut )?(self|vx_self), rhs\) ==> $2.ext_clauses(rhs.clauses)
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndAssignSpecImpl<Instance<VM>> for Instance<VM> {
    open spec fn obeys_bitand_assign_spec() -> bool { false }
    open spec fn bitand_assign_req(&self, rhs: Instance<VM>) -> bool { true }
    open spec fn bitand_assign_spec(&self, rhs: Instance<VM>) -> &Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAndAssign<Instance<VM>> for Instance<VM> {
//@fn src/types/operators.rs <SatInstance as BitAndAssign<SatInstance<VM>>>::bitand_assign
    ensures old(self).cov() && rhs.cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && rhs.isat(a),
//@end
}
impl<VM: ManageVars> vstd::std_specs::ops::BitAndSpecImpl<Instance<VM>> for Instance<VM> {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, rhs: Instance<VM>) -> bool { true }
    open spec fn bitand_spec(self, rhs: Instance<VM>) -> Instance<VM> { arbitrary() }
}
impl<VM: ManageVars> std::ops::BitAnd<Instance<VM>> for Instance<VM> {
    type Output = Instance<VM>;
//@fn src/types/operators.rs <SatInstance as BitAnd<SatInstance<VM>>>::bitand
//@ret r
    ensures self.cov() && rhs.cov() ==> r.cov(), forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(a) && rhs.isat(a),
//@end
}
impl<VM: ManageVars> Instance<VM> {
//@fn src/instances/sat.rs Instance::add_nary
    ensures final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && cl_true(lits@, a),
//@end
//@fn src/instances/sat.rs Instance::add_unit
    ensures final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && tv(a, unit),
//@end
//@fn src/instances/sat.rs Instance::add_binary
    ensures final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && (tv(a, lit1) || tv(a, lit2)),
//@ghost end
    proof { lem_short_cl(seq![lit1, lit2]); }
//@end
//@fn src/instances/sat.rs Instance::add_ternary
    ensures final(self).rest(*old(self)), old(self).cov() ==> final(self).cov(), forall|a: Asg| #[trigger] final(self).isat(a) <==> old(self).isat(a) && (tv(a, lit1) || tv(a, lit2) || tv(a, lit3)),
//@ghost end
    proof { lem_short_cl(seq![lit1, lit2, lit3]); let x = seq![lit1, lit2, lit3]; assert(self.cnf.c().last().s() =~= x); }
//@end
}
// ---- sanitizing: the constraints are moved one by one into a simpler form ----
pub struct San { pub cnf: Seq<Clause>, pub cards: Seq<CardConstraint>, pub pbs: Seq<PbConstraint>, pub unsat: bool }
pub open spec fn snap(x: San, a: Asg) -> bool { !x.unsat && cnf_true(x.cnf, a) && cards_true(x.cards, a) && pbs_true(x.pbs, a) }
pub open spec fn sbnd(x: San, n: nat) -> bool { bnd(x.cnf, n) && cards_bel(x.cards, n) && pbs_bel(x.pbs, n) }
#[verifier::opaque]
pub open spec fn san(x: San, y: San) -> bool { (forall|a: Asg| #[trigger] snap(x, a) == snap(y, a)) && (forall|n: nat| #[trigger] sbnd(x, n) ==> sbnd(y, n)) && (pbs_wf(x.pbs) ==> pbs_wf(y.pbs)) }
pub proof fn lem_san_refl(x: San) ensures san(x, x) { reveal(san); }
pub proof fn lem_san_pb(x: San, y: San, y2: San, pb: PbConstraint)
    requires san(x, y), forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && pb.sat(a), forall|n: nat| sbnd(y, n) && wbel(pb.l(), n) ==> #[trigger] sbnd(y2, n), pbs_wf(y.pbs) && pb.wf() ==> pbs_wf(y2.pbs),
    ensures san(San { pbs: x.pbs.push(pb), ..x }, y2),
{
    reveal(san);
    let x2 = San { pbs: x.pbs.push(pb), ..x };
    let d = seq![pb];
    assert(x2.pbs =~= x.pbs + d);
    lem_pbs_add(x.pbs, d);
    assert forall|a: Asg| #[trigger] snap(x2, a) == snap(y2, a) by {
        assert(snap(x, a) == snap(y, a));
        if pbs_true(d, a) { assert(d[0].sat(a)); }
        assert(pbs_true(x.pbs + d, a) == (pbs_true(x.pbs, a) && pbs_true(d, a)));
    }
    assert forall|n: nat| #[trigger] sbnd(x2, n) implies sbnd(y2, n) by {
        assert(pbs_bel(x.pbs + d, n) == (pbs_bel(x.pbs, n) && pbs_bel(d, n)));
        assert(sbnd(x, n)); assert(wbel(d[0].l(), n));
    }
    if pbs_wf(x2.pbs) { assert(d[0].wf()); }
}
pub proof fn lem_san_card(x: San, y: San, y2: San, c: CardConstraint)
    requires san(x, y), forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && c.sat(a), forall|n: nat| sbnd(y, n) && bel(c.l(), n) ==> #[trigger] sbnd(y2, n), pbs_wf(y.pbs) ==> pbs_wf(y2.pbs),
    ensures san(San { cards: x.cards.push(c), ..x }, y2),
{
    reveal(san);
    let x2 = San { cards: x.cards.push(c), ..x };
    let d = seq![c];
    assert(x2.cards =~= x.cards + d);
    lem_cards_add(x.cards, d);
    assert forall|a: Asg| #[trigger] snap(x2, a) == snap(y2, a) by {
        assert(snap(x, a) == snap(y, a));
        if cards_true(d, a) { assert(d[0].sat(a)); }
        assert(cards_true(x.cards + d, a) == (cards_true(x.cards, a) && cards_true(d, a)));
    }
    assert forall|n: nat| #[trigger] sbnd(x2, n) implies sbnd(y2, n) by {
        assert(cards_bel(x.cards + d, n) == (cards_bel(x.cards, n) && cards_bel(d, n)));
        assert(sbnd(x, n)); assert(bel(d[0].l(), n));
    }
}
/// the units s were added
#[verifier::opaque]
pub open spec fn units(c: Seq<Clause>, d: Seq<Clause>, s: Seq<Lit>) -> bool { (forall|a: Asg| #[trigger] cnf_true(d, a) <==> cnf_true(c, a) && cube_true(s, a)) && (forall|n: nat| bnd(c, n) && bel(s, n) ==> #[trigger] bnd(d, n)) }
pub proof fn lem_units0(c: Seq<Clause>, s: Seq<Lit>) ensures units(c, c, s.take(0)) { reveal(units); }
pub proof fn lem_units_step(c: Seq<Clause>, d: Seq<Clause>, e: Seq<Clause>, s: Seq<Lit>, i: int)
    requires 0 <= i < s.len(), units(c, d, s.take(i)), forall|a: Asg| #[trigger] cnf_true(e, a) <==> cnf_true(d, a) && tv(a, s[i]), keeps(d, e, seq![s[i]], seq![s[i]]),
    ensures units(c, e, s.take(i + 1)),
{
    reveal(units);
    let (t, u) = (s.take(i), s.take(i + 1));
    assert(forall|j: int| 0 <= j < i ==> t[j] == u[j]);
    assert(u[i] == s[i]);
    assert forall|a: Asg| #[trigger] cnf_true(e, a) <==> cnf_true(c, a) && cube_true(u, a) by {
        assert(cnf_true(d, a) <==> cnf_true(c, a) && cube_true(t, a));
        if cube_true(u, a) { assert(tv(a, u[i])); assert forall|j: int| 0 <= j < t.len() implies tv(a, #[trigger] t[j]) by { assert(tv(a, u[j])); } }
        if cube_true(t, a) && tv(a, s[i]) { assert forall|j: int| 0 <= j < u.len() implies tv(a, #[trigger] u[j]) by { if j < i { assert(tv(a, t[j])); } } }
    }
    assert forall|n: nat| bnd(c, n) && bel(u, n) implies #[trigger] bnd(e, n) by {
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).v() < n by { assert(u[j].v() < n); }
        assert(u[i].v() < n);
        assert(bnd(d, n));
        let q = seq![s[i]];
        assert(bel(q, n));
    }
}
pub proof fn lem_units_end(c: Seq<Clause>, d: Seq<Clause>, s: Seq<Lit>) requires units(c, d, s.take(s.len() as int)) ensures forall|a: Asg| #[trigger] cnf_true(d, a) <==> cnf_true(c, a) && cube_true(s, a), forall|n: nat| bnd(c, n) && bel(s, n) ==> #[trigger] bnd(d, n)
{ reveal(units); assert(s.take(s.len() as int) =~= s); }
/// the four ways a constraint is replaced
pub proof fn lem_y_cnf(y: San, y2: San, s: Seq<Lit>)
    requires y2 == (San { cnf: y2.cnf, ..y }),
    ensures (forall|a: Asg| #[trigger] cnf_true(y2.cnf, a) <==> cnf_true(y.cnf, a) && cube_true(s, a)) ==> (forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && cube_true(s, a)),
        (forall|n: nat| bnd(y.cnf, n) && bel(s, n) ==> #[trigger] bnd(y2.cnf, n)) ==> (forall|n: nat| sbnd(y, n) && bel(s, n) ==> #[trigger] sbnd(y2, n)),
{}
pub proof fn lem_y_cls(y: San, c: Clause)
    ensures ({ let y2 = San { cnf: y.cnf.push(c), ..y }; (forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && cl_true(c.s(), a)) && (forall|n: nat| sbnd(y, n) && bel(c.s(), n) ==> #[trigger] sbnd(y2, n)) }),
{
    let y2 = San { cnf: y.cnf.push(c), ..y };
    lem_mentions_self(c.s(), c.s());
    lem_keep1(y.cnf, c, c.s(), c.s());
    assert forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && cl_true(c.s(), a) by { assert(cnf_true(y2.cnf, a) == (cnf_true(y.cnf, a) && cl_true(c.s(), a))); }
    assert forall|n: nat| sbnd(y, n) && bel(c.s(), n) implies #[trigger] sbnd(y2, n) by { assert(bnd(y2.cnf, n)); }
}
pub proof fn lem_y_card(y: San, c: CardConstraint)
    ensures ({ let y2 = San { cards: y.cards.push(c), ..y }; (forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && c.sat(a)) && (forall|n: nat| sbnd(y, n) && bel(c.l(), n) ==> #[trigger] sbnd(y2, n)) }),
{
    let y2 = San { cards: y.cards.push(c), ..y };
    let d = seq![c];
    assert(y2.cards =~= y.cards + d);
    lem_cards_add(y.cards, d);
    assert forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && c.sat(a) by { assert(cards_true(y.cards + d, a) == (cards_true(y.cards, a) && cards_true(d, a))); if cards_true(d, a) { assert(d[0].sat(a)); } }
    assert forall|n: nat| sbnd(y, n) && bel(c.l(), n) implies #[trigger] sbnd(y2, n) by { assert(cards_bel(y.cards + d, n) == (cards_bel(y.cards, n) && cards_bel(d, n))); }
}
pub proof fn lem_y_pb(y: San, c: PbConstraint)
    ensures ({ let y2 = San { pbs: y.pbs.push(c), ..y }; (forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && c.sat(a)) && (forall|n: nat| sbnd(y, n) && wbel(c.l(), n) ==> #[trigger] sbnd(y2, n)) && (pbs_wf(y.pbs) && c.wf() ==> pbs_wf(y2.pbs)) }),
{
    let y2 = San { pbs: y.pbs.push(c), ..y };
    let d = seq![c];
    assert(y2.pbs =~= y.pbs + d);
    lem_pbs_add(y.pbs, d);
    assert forall|a: Asg| #[trigger] snap(y2, a) <==> snap(y, a) && c.sat(a) by { assert(pbs_true(y.pbs + d, a) == (pbs_true(y.pbs, a) && pbs_true(d, a))); if pbs_true(d, a) { assert(d[0].sat(a)); } }
    assert forall|n: nat| sbnd(y, n) && wbel(c.l(), n) implies #[trigger] sbnd(y2, n) by { assert(pbs_bel(y.pbs + d, n) == (pbs_bel(y.pbs, n) && pbs_bel(d, n))); }
}
pub proof fn lem_wbel_lits(s: Seq<(Lit, usize)>, n: nat) ensures wbel(s, n) == bel(lits_of(s), n), bel(opps(lits_of(s)), n) == wbel(s, n)
{
    let l = lits_of(s); let o = opps(l);
    lem_opp_all();
    assert(forall|i: int| 0 <= i < s.len() ==> l[i] == (#[trigger] s[i]).0 && o[i] == l[i].opp());
    if bel(l, n) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.v() < n by { assert(l[i].v() < n); } }
    if bel(o, n) { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0.v() < n by { assert(o[i].v() < n); lem_opp_v(l[i]); } }
    if wbel(s, n) { assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).v() < n by { assert(s[i].0.v() < n); lem_opp_v(l[i]); } }
}
pub proof fn lem_opps_bel(l: Seq<Lit>, n: nat) ensures bel(opps(l), n) == bel(l, n)
{
    let o = opps(l);
    assert(forall|i: int| 0 <= i < l.len() ==> o[i] == (#[trigger] l[i]).opp());
    if bel(o, n) { assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).v() < n by { assert(o[i].v() < n); lem_opp_v(l[i]); } }
    if bel(l, n) { assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).v() < n by { assert(l[i].v() < n); lem_opp_v(l[i]); } }
}
pub proof fn lem_opp_v(l: Lit) ensures l.opp().v() == l.v() { lem_opp_all(); }
pub proof fn lem_cleaned_bnd(c: Seq<Clause>, d: Seq<Clause>, n: nat) requires cleaned(c, d), bnd(c, n) ensures bnd(d, n)
{
    assert forall|j: int| 0 <= j < d.len() implies bel((#[trigger] d[j]).s(), n) by {
        assert(simin(c, d[j].s()));
        let i = choose|i: int| 0 <= i < c.len() && same_lits((#[trigger] c[i]).s(), d[j].s());
        let (s, t) = (d[j].s(), c[i].s());
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).v() < n by { assert(has(s, s[k])); assert(has(t, s[k])); let m = choose|m: int| 0 <= m < t.len() && #[trigger] t[m] == s[k]; assert(t[m].v() < n); }
    }
}
pub fn vx_cnf_vec(v: Vec<Clause>) -> (r: Cnf) ensures r.c() == v@ { Cnf { clauses: v } }
impl<VM: ManageVars> Instance<VM> {
//@fn src/instances/sat.rs Instance::sanitize chains=loop collect0=vec:PbConstraint collect1=vec:CardConstraint collect2=via:vx_cnf_vec from_iter=keep
//@ret r
    requires self.wf(),
    ensures forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(a), self.cov() ==> r.cov(), r.wf(), r.var_manager.next() >= self.var_manager.next(),
//@rename Cnf::from_iter => vx_cnf_vec
//@loop 0 iter=it
    invariant it.seq() == o0.pbs@, pbs_wf(o0.pbs@), san(San { pbs: o0.pbs@.take(it.index@ as int), ..x0 }, San { cnf: cnf.c(), cards: cards@, pbs: vx_acc0@, unsat }), x0 == (San { cnf: o0.cnf.c(), cards: o0.cards@, pbs: Seq::empty(), unsat: false }),
//@loop 1 iter=it1
    invariant it1.seq() == pb0.l(), units(y0.cnf, cnf.c(), lits_of(pb0.l()).take(it1.index@ as int)),
//@loop 2 iter=it2
    invariant it2.seq() == pb0.l(), units(y0.cnf, cnf.c(), opps(lits_of(pb0.l())).take(it2.index@ as int)),
//@loop 3 iter=it3
    invariant it3.seq() == z0.cards, san(San { cards: z0.cards.take(it3.index@ as int), ..z0 }, San { cnf: cnf.c(), cards: vx_acc1@, pbs: pbs@, unsat }),
//@loop 4 iter=it4
    invariant it4.seq() == card0.l(), units(w0.cnf, cnf.c(), card0.l().take(it4.index@ as int)),
//@loop 5 iter=it5
    invariant it5.seq() == card0.l(), units(w0.cnf, cnf.c(), opps(card0.l()).take(it5.index@ as int)),
//@loop 6 iter=it6
    invariant it6.seq() == c6, cleaned(c6.take(it6.index@ as int), vx_acc2@),
//@ghost start
    let ghost o0 = self;
    let ghost x0 = San { cnf: o0.cnf.c(), cards: o0.cards@, pbs: Seq::<PbConstraint>::empty(), unsat: false };
//@ghost loop 0 before
    proof { lem_san_refl(x0); assert(o0.pbs@.take(0) =~= Seq::<PbConstraint>::empty()); }
//@ghost loop 0 start
    let ghost pb0 = it.seq()[it.index@ as int];
    let ghost y0 = San { cnf: cnf.c(), cards: cards@, pbs: vx_acc0@, unsat };
    proof {
        assert(pb0.wf());
        assert forall|n: nat| #![trigger wbel(pb0.l(), n)] wbel(pb0.l(), n) == bel(lits_of(pb0.l()), n) && bel(opps(lits_of(pb0.l())), n) == wbel(pb0.l(), n) by { lem_wbel_lits(pb0.l(), n); }
    }
//@ghost loop 1 before
    proof { lem_units0(y0.cnf, lits_of(pb0.l())); }
//@ghost loop 1 start
    let ghost cb = cnf.c();
//@ghost loop 1 end
    proof { lem_units_step(y0.cnf, cb, cnf.c(), lits_of(pb0.l()), it1.index@ as int); }
//@ghost loop 1 after
    proof { lem_units_end(y0.cnf, cnf.c(), lits_of(pb0.l())); lem_y_cnf(y0, San { cnf: cnf.c(), cards: cards@, pbs: vx_acc0@, unsat }, lits_of(pb0.l())); }
//@ghost loop 2 before
    proof { lem_units0(y0.cnf, opps(lits_of(pb0.l()))); }
//@ghost loop 2 start
    let ghost cb = cnf.c();
//@ghost loop 2 end
    proof { lem_units_step(y0.cnf, cb, cnf.c(), opps(lits_of(pb0.l())), it2.index@ as int); }
//@ghost loop 2 after
    proof { lem_units_end(y0.cnf, cnf.c(), opps(lits_of(pb0.l()))); lem_y_cnf(y0, San { cnf: cnf.c(), cards: cards@, pbs: vx_acc0@, unsat }, opps(lits_of(pb0.l()))); }
//@ghost loop 0 end
    proof {
        let y2 = San { cnf: cnf.c(), cards: cards@, pbs: vx_acc0@, unsat };
        let i = it.index@ as int;
        if y2.cnf.len() == y0.cnf.len() + 1 { lem_y_cls(y0, y2.cnf.last()); assert(y2.cnf.drop_last().push(y2.cnf.last()) =~= y2.cnf); }
        if y2.cards.len() == y0.cards.len() + 1 { lem_y_card(y0, y2.cards.last()); }
        if y2.pbs.len() == y0.pbs.len() + 1 { lem_y_pb(y0, pb0); }
        assert forall|n: nat| sbnd(y0, n) && wbel(pb0.l(), n) implies #[trigger] sbnd(y2, n) by { lem_wbel_lits(pb0.l(), n); }
        lem_san_pb(San { pbs: o0.pbs@.take(i), ..x0 }, y0, y2, pb0);
        assert(o0.pbs@.take(i + 1) =~= o0.pbs@.take(i).push(pb0));
    }
//@ghost let pbs 0 after
    let ghost z0 = San { cnf: cnf.c(), cards: cards@, pbs: pbs@, unsat };
    proof { assert(o0.pbs@.take(o0.pbs@.len() as int) =~= o0.pbs@); assert(san(San { pbs: o0.pbs@, ..x0 }, z0)); let e = San { cards: Seq::empty(), ..z0 }; lem_san_refl(e); assert(z0.cards.take(0) =~= e.cards); }
//@ghost loop 3 start
    let ghost card0 = it3.seq()[it3.index@ as int];
    let ghost w0 = San { cnf: cnf.c(), cards: vx_acc1@, pbs: pbs@, unsat };
//@ghost loop 4 before
    proof { lem_units0(w0.cnf, card0.l()); }
//@ghost loop 4 start
    let ghost cb = cnf.c();
//@ghost loop 4 end
    proof { lem_units_step(w0.cnf, cb, cnf.c(), card0.l(), it4.index@ as int); }
//@ghost loop 4 after
    proof { lem_units_end(w0.cnf, cnf.c(), card0.l()); lem_y_cnf(w0, San { cnf: cnf.c(), cards: vx_acc1@, pbs: pbs@, unsat }, card0.l()); }
//@ghost loop 5 before
    proof { lem_units0(w0.cnf, opps(card0.l())); }
//@ghost loop 5 start
    let ghost cb = cnf.c();
//@ghost loop 5 end
    proof { lem_units_step(w0.cnf, cb, cnf.c(), opps(card0.l()), it5.index@ as int); }
//@ghost loop 5 after
    proof { lem_units_end(w0.cnf, cnf.c(), opps(card0.l())); lem_y_cnf(w0, San { cnf: cnf.c(), cards: vx_acc1@, pbs: pbs@, unsat }, opps(card0.l())); }
//@ghost loop 3 end
    proof {
        let w2 = San { cnf: cnf.c(), cards: vx_acc1@, pbs: pbs@, unsat };
        let i = it3.index@ as int;
        if w2.cnf.len() == w0.cnf.len() + 1 { lem_y_cls(w0, w2.cnf.last()); }
        if w2.cards.len() == w0.cards.len() + 1 { lem_y_card(w0, card0); }
        assert forall|n: nat| sbnd(w0, n) && bel(card0.l(), n) implies #[trigger] sbnd(w2, n) by { lem_opps_bel(card0.l(), n); }
        lem_san_card(San { cards: z0.cards.take(i), ..z0 }, w0, w2, card0);
        assert(z0.cards.take(i + 1) =~= z0.cards.take(i).push(card0));
    }
//@ghost loop 6 start
    let ghost acc0 = vx_acc2@;
//@ghost loop 6 end
    proof { lem_cleaned_step(c6, it6.index@ as int, acc0, vx_acc2@); }
//@ghost let cards 1 after
    let ghost z1 = San { cnf: cnf.c(), cards: cards@, pbs: pbs@, unsat };
    let ghost c6 = cnf.c();
    let ghost n0 = self.var_manager.next();
    proof {
        assert(z0.cards.take(z0.cards.len() as int) =~= z0.cards);
        assert(san(z0, z1));
        reveal(san);
        assert forall|a: Asg| #[trigger] o0.isat(a) <==> snap(z1, a) by { let x = San { pbs: o0.pbs@, ..x0 }; assert(snap(x, a) == snap(z0, a)); assert(snap(z0, a) == snap(z1, a)); }
        assert(o0.cov() ==> sbnd(z1, n0)) by { let x = San { pbs: o0.pbs@, ..x0 }; if o0.cov() { assert(sbnd(x, n0)); assert(sbnd(z0, n0)); } }
        assert(pbs_wf(z1.pbs));
    }
//@ghost end
    proof {
        assert(c6.take(c6.len() as int) =~= c6);
        lem_cleaned_sat(c6, vx_tail.cnf.c());
        if sbnd(z1, n0) { lem_cleaned_bnd(c6, vx_tail.cnf.c(), n0); }
    }
//@end
}
// ---- conversion to pseudo-Boolean constraints ----
pub proof fn lem_from_cards(c: Seq<CardConstraint>, d: Seq<PbConstraint>)
    requires c.len() == d.len(), forall|i: int, a: Asg| 0 <= i < c.len() ==> (#[trigger] d[i].sat(a)) == c[i].sat(a),
    ensures forall|a: Asg| #[trigger] pbs_true(d, a) == cards_true(c, a),
{
    assert forall|a: Asg| #[trigger] pbs_true(d, a) == cards_true(c, a) by {
        if pbs_true(d, a) { assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]).sat(a) by { assert(d[i].sat(a)); } }
        if cards_true(c, a) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).sat(a) by { assert(c[i].sat(a)); } }
    }
}
pub proof fn lem_from_cls(c: Seq<Clause>, d: Seq<PbConstraint>)
    requires c.len() == d.len(), forall|i: int, a: Asg| 0 <= i < c.len() ==> (#[trigger] d[i].sat(a)) == cl_true(c[i].s(), a),
    ensures forall|a: Asg| #[trigger] pbs_true(d, a) == cnf_true(c, a),
{
    assert forall|a: Asg| #[trigger] pbs_true(d, a) == cnf_true(c, a) by {
        if pbs_true(d, a) { assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), a) by { assert(d[i].sat(a)); } }
        if cnf_true(c, a) { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).sat(a) by { assert(cl_true(c[i].s(), a)); } }
    }
}
pub trait VxToPb: Sized {
    spec fn pb_ok(&self) -> bool;
    spec fn pb_sat(&self, a: Asg) -> bool;
    fn vx_to_pb(self) -> (r: PbConstraint) requires self.pb_ok() ensures r.wf(), forall|a: Asg| #[trigger] r.sat(a) <==> self.pb_sat(a);
}
impl VxToPb for CardConstraint {
    open spec fn pb_ok(&self) -> bool { self.bnd() <= isize::MAX && self.l().len() <= isize::MAX }
    open spec fn pb_sat(&self, a: Asg) -> bool { self.sat(a) }
    fn vx_to_pb(self) -> (r: PbConstraint) { PbConstraint::from_card(self) }
}
impl VxToPb for Clause {
    open spec fn pb_ok(&self) -> bool { self.s().len() <= isize::MAX }
    open spec fn pb_sat(&self, a: Asg) -> bool { cl_true(self.s(), a) }
    fn vx_to_pb(self) -> (r: PbConstraint) { PbConstraint::from_clause(self) }
}
pub fn vx_pb_from<T: VxToPb>(t: T) -> (r: PbConstraint) requires t.pb_ok() ensures r.wf(), forall|a: Asg| #[trigger] r.sat(a) <==> t.pb_sat(a) { t.vx_to_pb() }
impl<VM: ManageVars> Instance<VM> {
    pub open spec fn fits(&self) -> bool { (forall|i: int| 0 <= i < self.cnf.c().len() ==> (#[trigger] self.cnf.c()[i]).s().len() <= isize::MAX) && (forall|i: int| 0 <= i < self.cards@.len() ==> (#[trigger] self.cards@[i]).bnd() <= isize::MAX && self.cards@[i].l().len() <= isize::MAX) }
//@fn src/instances/sat.rs Instance::into_pbs chains=loop extend=loop
//@ret r
    requires self.fits(), self.wf(),
    ensures forall|a: Asg| #[trigger] pbs_true(r.0@, a) <==> self.isat(a), r.1 == self.var_manager, pbs_wf(r.0@),
//@rename PbConstraint::from => vx_pb_from
//@loop 0 iter=it
    invariant it.seq() == o0.cards@, o0.fits(), vx_self.cnf == o0.cnf, vx_self.var_manager == o0.var_manager, vx_self.pbs@ == o0.pbs@ + d0, pbs_wf(d0), d0.len() == it.index@,
        forall|i: int, a: Asg| 0 <= i < d0.len() ==> (#[trigger] d0[i].sat(a)) == o0.cards@[i].sat(a),
//@loop 1 iter=it1
    invariant it1.seq() == o0.cnf.c(), o0.fits(), vx_self.var_manager == o0.var_manager, vx_self.pbs@ == o0.pbs@ + d0 + d1, pbs_wf(d1), d1.len() == it1.index@,
        forall|i: int, a: Asg| 0 <= i < d1.len() ==> (#[trigger] d1[i].sat(a)) == cl_true(o0.cnf.c()[i].s(), a),
//@ghost start
    let ghost o0 = self;
    let ghost mut d0 = Seq::<PbConstraint>::empty();
    let ghost mut d1 = Seq::<PbConstraint>::empty();
//@ghost loop 0 before
    proof { assert(o0.pbs@ + d0 =~= o0.pbs@); }
//@ghost loop 0 end
    proof { d0 = d0.push(vx_self.pbs@.last()); assert(o0.pbs@ + d0 =~= vx_self.pbs@); }
//@ghost loop 1 before
    proof { assert(o0.pbs@ + d0 + d1 =~= o0.pbs@ + d0); }
//@ghost loop 1 end
    proof { d1 = d1.push(vx_self.pbs@.last()); assert(o0.pbs@ + d0 + d1 =~= vx_self.pbs@); }
//@ghost end
    proof { lem_from_cards(o0.cards@, d0); lem_from_cls(o0.cnf.c(), d1); lem_pbs_add(o0.pbs@, d0); lem_pbs_add(o0.pbs@ + d0, d1); }
//@end
}
// ---- conversion to clauses by encoders ----
//@include encoded.vrs
impl VxCons for PbConstraint { open spec fn ksat(&self, a: Asg) -> bool { self.sat(a) } open spec fn klits(&self) -> Seq<Lit> { lits_of(self.l()) } open spec fn kwf(&self) -> bool { self.wf() } }
/// contract of an encoder passed by the caller
pub trait VxEncode<C: VxCons> {
    fn vx_call<VM: ManageVars>(&mut self, c: C, cnf: &mut Cnf, vm: &mut VM)
        requires c.kwf(), bel(c.klits(), old(vm).next()),
        ensures encoded(c, old(cnf).c(), final(cnf).c(), old(vm).next(), final(vm).next());
}
/// y has the solutions of x, up to variables from n0 on
#[verifier::opaque]
pub open spec fn kconv(x: San, n0: nat, y: San) -> bool { (forall|a: Asg| #[trigger] snap(y, a) ==> snap(x, a)) && (forall|a: Asg| #[trigger] snap(x, a) ==> exists|b: Asg| agree(a, b, n0) && #[trigger] snap(y, b)) }
pub proof fn lem_kconv_refl(x: San, n0: nat) ensures kconv(x, n0, x) { reveal(kconv); assert forall|a: Asg| #[trigger] snap(x, a) implies exists|b: Asg| agree(a, b, n0) && #[trigger] snap(x, b) by { assert(agree(a, a, n0)); } }
pub proof fn lem_card_agree(c: CardConstraint, n: nat, a: Asg, b: Asg) requires bel(c.l(), n), agree(a, b, n) ensures c.sat(a) == c.sat(b)
{ assert forall|i: int| 0 <= i < c.l().len() implies fc(a)(#[trigger] c.l()[i]) == fc(b)(c.l()[i]) by { lem_tv_agree(c.l()[i], n, a, b); } lem_sm_eq(c.l(), c.l(), fc(a), fc(b)); }
pub proof fn lem_pb_agree(c: PbConstraint, n: nat, a: Asg, b: Asg) requires wbel(c.l(), n), agree(a, b, n) ensures c.sat(a) == c.sat(b)
{ assert forall|i: int| 0 <= i < c.l().len() implies fw(a)(#[trigger] c.l()[i]) == fw(b)(c.l()[i]) by { lem_tv_agree(c.l()[i].0, n, a, b); } lem_sm_eq(c.l(), c.l(), fw(a), fw(b)); }
pub proof fn lem_snap_agree(y: San, n: nat, a: Asg, b: Asg) requires sbnd(y, n), agree(a, b, n), snap(y, a) ensures snap(y, b)
{
    lem_cnf_agree(y.cnf, n, a, b);
    assert forall|i: int| 0 <= i < y.cards.len() implies (#[trigger] y.cards[i]).sat(b) by { assert(bel(y.cards[i].l(), n)); lem_card_agree(y.cards[i], n, a, b); }
    assert forall|i: int| 0 <= i < y.pbs.len() implies (#[trigger] y.pbs[i]).sat(b) by { assert(wbel(y.pbs[i].l(), n)); lem_pb_agree(y.pbs[i], n, a, b); }
}
/// the constraint c of y is replaced by clauses
pub proof fn lem_kconv_step<C: VxCons>(x: San, n0: nat, y: San, z: San, c: C, c2: Seq<Clause>, n1: nat, n2: nat)
    requires kconv(x, n0, y), n0 <= n1, sbnd(y, n1), sbnd(z, n1), y.cnf == z.cnf, forall|a: Asg| #[trigger] snap(y, a) <==> snap(z, a) && c.ksat(a), bel(c.klits(), n1), encoded(c, y.cnf, c2, n1, n2),
    ensures kconv(x, n0, San { cnf: c2, ..z }), sbnd(San { cnf: c2, ..z }, n2), n1 <= n2,
{
    reveal(kconv); reveal(encoded);
    let y2 = San { cnf: c2, ..z };
    let d = since(c2, y.cnf);
    lem_cnf_add_all(y.cnf, d);
    assert forall|a: Asg| #[trigger] snap(y2, a) implies snap(x, a) by { assert(cnf_true(y.cnf + d, a)); assert(cnf_true(d, a)); assert(snap(z, a)); assert(snap(y, a)); }
    assert forall|a: Asg| #[trigger] snap(x, a) implies exists|b: Asg| agree(a, b, n0) && #[trigger] snap(y2, b) by {
        let b = choose|b: Asg| agree(a, b, n0) && #[trigger] snap(y, b);
        assert(c.ksat(b));
        let e = choose|e: Asg| agree(b, e, n1) && #[trigger] cnf_true(d, e);
        lem_snap_agree(y, n1, b, e);
        assert(snap(z, e));
        assert(cnf_true(y.cnf + d, e));
        assert(snap(y2, e));
        assert(agree(a, e, n0));
    }
    lem_cok_bnd(d, c.klits(), n1, n2);
    lem_bnd_add(y.cnf, d, n1, n2);
    lem_cov_up(z.cnf, z.cards, z.pbs, n1, n2);
}
pub proof fn lem_skip_card(y: San, cs: Seq<CardConstraint>, i: int)
    requires 0 <= i < cs.len(), y.cards == cs.skip(i),
    ensures ({ let z = San { cards: cs.skip(i + 1), ..y }; (forall|a: Asg| #[trigger] snap(y, a) <==> snap(z, a) && cs[i].sat(a)) && (forall|n: nat| #[trigger] sbnd(y, n) ==> sbnd(z, n) && bel(cs[i].l(), n)) }),
{
    let z = San { cards: cs.skip(i + 1), ..y };
    let d = seq![cs[i]];
    assert(y.cards =~= d + z.cards);
    lem_cards_add(d, z.cards);
    assert forall|a: Asg| #[trigger] snap(y, a) <==> snap(z, a) && cs[i].sat(a) by { assert(cards_true(d + z.cards, a) == (cards_true(d, a) && cards_true(z.cards, a))); if cards_true(d, a) { assert(d[0].sat(a)); } }
    assert forall|n: nat| #[trigger] sbnd(y, n) implies sbnd(z, n) && bel(cs[i].l(), n) by { assert(cards_bel(d + z.cards, n) == (cards_bel(d, n) && cards_bel(z.cards, n))); assert(bel(d[0].l(), n)); }
}
pub proof fn lem_skip_pb(y: San, cs: Seq<PbConstraint>, i: int)
    requires 0 <= i < cs.len(), y.pbs == cs.skip(i),
    ensures ({ let z = San { pbs: cs.skip(i + 1), ..y }; (forall|a: Asg| #[trigger] snap(y, a) <==> snap(z, a) && cs[i].sat(a)) && (forall|n: nat| #[trigger] sbnd(y, n) ==> sbnd(z, n) && wbel(cs[i].l(), n)) }),
{
    let z = San { pbs: cs.skip(i + 1), ..y };
    let d = seq![cs[i]];
    assert(y.pbs =~= d + z.pbs);
    lem_pbs_add(d, z.pbs);
    assert forall|a: Asg| #[trigger] snap(y, a) <==> snap(z, a) && cs[i].sat(a) by { assert(pbs_true(d + z.pbs, a) == (pbs_true(d, a) && pbs_true(z.pbs, a))); if pbs_true(d, a) { assert(d[0].sat(a)); } }
    assert forall|n: nat| #[trigger] sbnd(y, n) implies sbnd(z, n) && wbel(cs[i].l(), n) by { assert(pbs_bel(d + z.pbs, n) == (pbs_bel(d, n) && pbs_bel(z.pbs, n))); assert(wbel(d[0].l(), n)); }
}
pub proof fn lem_first_card(y: San, cs: Seq<CardConstraint>, i: int, n: nat) requires 0 <= i < cs.len(), y.cards == cs.skip(i), sbnd(y, n) ensures bel(cs[i].klits(), n)
{ lem_skip_card(y, cs, i); }
pub proof fn lem_first_pb(y: San, cs: Seq<PbConstraint>, i: int, n: nat) requires 0 <= i < cs.len(), y.pbs == cs.skip(i), sbnd(y, n) ensures bel(cs[i].klits(), n)
{ lem_skip_pb(y, cs, i); lem_wbel_lits(cs[i].l(), n); }
pub proof fn lem_kstep_card(x: San, n0: nat, y: San, cs: Seq<CardConstraint>, i: int, c2: Seq<Clause>, n1: nat, n2: nat)
    requires 0 <= i < cs.len(), y.cards == cs.skip(i), sbnd(y, n1), kconv(x, n0, y), n0 <= n1, encoded(cs[i], y.cnf, c2, n1, n2),
    ensures ({ let z = San { cards: cs.skip(i + 1), cnf: c2, ..y }; kconv(x, n0, z) && sbnd(z, n2) && n1 <= n2 }),
{ lem_skip_card(y, cs, i); let z = San { cards: cs.skip(i + 1), ..y }; lem_first_card(y, cs, i, n1); lem_kconv_step(x, n0, y, z, cs[i], c2, n1, n2); }
pub proof fn lem_kstep_pb(x: San, n0: nat, y: San, cs: Seq<PbConstraint>, i: int, c2: Seq<Clause>, n1: nat, n2: nat)
    requires 0 <= i < cs.len(), y.pbs == cs.skip(i), sbnd(y, n1), kconv(x, n0, y), n0 <= n1, encoded(cs[i], y.cnf, c2, n1, n2),
    ensures ({ let z = San { pbs: cs.skip(i + 1), cnf: c2, ..y }; kconv(x, n0, z) && sbnd(z, n2) && n1 <= n2 }),
{ lem_skip_pb(y, cs, i); let z = San { pbs: cs.skip(i + 1), ..y }; lem_first_pb(y, cs, i, n1); lem_kconv_step(x, n0, y, z, cs[i], c2, n1, n2); }
pub proof fn lem_kend<VM: ManageVars>(o: Instance<VM>, y: San, f: Instance<VM>)
    requires kconv(San { cnf: o.cnf.c(), cards: o.cards@, pbs: o.pbs@, unsat: false }, o.var_manager.next(), y), y.cnf == f.cnf.c(), y.cards.len() == 0, y.pbs.len() == 0, !y.unsat, f.cards@.len() == 0, f.pbs@.len() == 0, sbnd(y, f.var_manager.next()),
    ensures o.conv_to(f.cnf.c()), f.cov(),
{
    reveal(kconv); reveal(Instance::conv_to);
    let x = San { cnf: o.cnf.c(), cards: o.cards@, pbs: o.pbs@, unsat: false };
    assert forall|a: Asg| #[trigger] cnf_true(f.cnf.c(), a) implies o.isat(a) by { assert(snap(y, a)); assert(snap(x, a)); }
    assert forall|a: Asg| #[trigger] o.isat(a) implies exists|b: Asg| agree(a, b, o.var_manager.next()) && #[trigger] cnf_true(f.cnf.c(), b) by { assert(snap(x, a)); let b = choose|b: Asg| agree(a, b, o.var_manager.next()) && #[trigger] snap(y, b); assert(cnf_true(f.cnf.c(), b)); }
}
pub trait VxDrain<T> { fn vx_drain(&mut self) -> (r: Vec<T>); }
impl<T> VxDrain<T> for Vec<T> {
    // the standard library's `drain(..)`: the elements are moved out
    #[verifier::external_body]
    fn vx_drain(&mut self) -> (r: Vec<T>) ensures r@ == old(self)@, final(self)@.len() == 0 { std::mem::take(self) }
}
impl<VM: ManageVars> Instance<VM> {
    /// the two instances have the same solutions, up to the variables that are new in f
    #[verifier::opaque]
    pub open spec fn conv_to(&self, f: Seq<Clause>) -> bool {
        &&& forall|a: Asg| #[trigger] cnf_true(f, a) ==> self.isat(a)
        &&& forall|a: Asg| #[trigger] self.isat(a) ==> exists|b: Asg| agree(a, b, self.var_manager.next()) && #[trigger] cnf_true(f, b)
    }
//@fn src/instances/sat.rs Instance::convert_to_cnf_with_encoders
    requires old(self).cov(), old(self).wf(),
    ensures final(self).cards@.len() == 0, final(self).pbs@.len() == 0, final(self).cov(), old(self).conv_to(final(self).cnf.c()), final(self).var_manager.next() >= old(self).var_manager.next(),
//@sub CardEnc: FnMut\(CardConstraint, &mut Cnf, &mut dyn ManageVars\) ==> CardEnc: VxEncode<CardConstraint>
//@sub PBEnc: FnMut\(PbConstraint, &mut Cnf, &mut dyn ManageVars\) ==> PBEnc: VxEncode<PbConstraint>
//@rename .drain => .vx_drain
//@sub \.vx_drain\(\.\.\) ==> .vx_drain()
//@sub \b(\w+_encoder)\(constr ==> $1.vx_call(constr
//@loop 0 iter=it
    invariant it.seq() == o0.cards@, self.pbs@ == o0.pbs@, self.cards@.len() == 0, n0 <= self.var_manager.next(), sbnd(y0, self.var_manager.next()), pbs_wf(o0.pbs@), y0 == (San { cnf: self.cnf.c(), cards: o0.cards@.skip(it.index@ as int), pbs: o0.pbs@, unsat: false }), kconv(x0, n0, y0),
//@loop 1 iter=it1
    invariant it1.seq() == o0.pbs@, self.pbs@.len() == 0, self.cards@.len() == 0, n0 <= self.var_manager.next(), sbnd(y0, self.var_manager.next()), pbs_wf(o0.pbs@), y0 == (San { cnf: self.cnf.c(), cards: Seq::empty(), pbs: o0.pbs@.skip(it1.index@ as int), unsat: false }), kconv(x0, n0, y0),
//@ghost start
    let ghost o0 = *self;
    let ghost n0 = o0.var_manager.next();
    let ghost x0 = San { cnf: o0.cnf.c(), cards: o0.cards@, pbs: o0.pbs@, unsat: false };
    let ghost mut y0 = x0;
    proof { lem_kconv_refl(x0, n0); assert(o0.cards@.skip(0) =~= o0.cards@); assert(o0.pbs@.skip(0) =~= o0.pbs@); }
//@ghost loop 0 start
    let ghost n1 = self.var_manager.next();
    let ghost c1 = constr;
    proof { lem_first_card(y0, o0.cards@, it.index@ as int, n1); }
//@ghost loop 0 end
    proof {
        let z = San { cards: o0.cards@.skip(it.index@ as int + 1), ..y0 };
        lem_kstep_card(x0, n0, y0, o0.cards@, it.index@ as int, self.cnf.c(), n1, self.var_manager.next());
        y0 = San { cnf: self.cnf.c(), ..z };
    }
//@ghost loop 0 after
    proof { assert(o0.cards@.skip(o0.cards@.len() as int) =~= Seq::<CardConstraint>::empty()); }
//@ghost loop 1 start
    let ghost n1 = self.var_manager.next();
    let ghost c1 = constr;
    proof { lem_first_pb(y0, o0.pbs@, it1.index@ as int, n1); }
//@ghost loop 1 end
    proof {
        let z = San { pbs: o0.pbs@.skip(it1.index@ as int + 1), ..y0 };
        lem_kstep_pb(x0, n0, y0, o0.pbs@, it1.index@ as int, self.cnf.c(), n1, self.var_manager.next());
        y0 = San { cnf: self.cnf.c(), ..z };
    }
//@ghost end
    proof {
        assert(o0.pbs@.skip(o0.pbs@.len() as int) =~= Seq::<PbConstraint>::empty());
        lem_kend(o0, y0, *self);
    }
//@end
//@fn src/instances/sat.rs Instance::into_cnf_with_encoders
//@ret r
    requires self.cov(), self.wf(),
    ensures self.conv_to(r.0.c()), bnd(r.0.c(), r.1.next()), r.1.next() >= self.var_manager.next(),
//@sub CardEnc: FnMut\(CardConstraint, &mut Cnf, &mut dyn ManageVars\) ==> CardEnc: VxEncode<CardConstraint>
//@sub PBEnc: FnMut\(PbConstraint, &mut Cnf, &mut dyn ManageVars\) ==> PBEnc: VxEncode<PbConstraint>
//@end
}
// ---- re-indexing ----
impl CardConstraint {
//@fn src/types/constraints.rs CardConstraint::iter_mut
//@ret r
    ensures r.remaining().len() == old(self).l().len(), forall|i: int| 0 <= i < old(self).l().len() ==> *(#[trigger] r.remaining()[i]) == old(self).l()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        final(self).op() == old(self).op(), final(self).bnd() == old(self).bnd(), final(self).l().len() == old(self).l().len(), forall|i: int| 0 <= i < old(self).l().len() ==> *final(#[trigger] r.remaining()[i]) == final(self).l()[i],
//@end
}
impl PbConstraint {
//@fn src/types/constraints.rs PbConstraint::iter_mut
//@ret r
    ensures r.remaining().len() == old(self).l().len(), forall|i: int| 0 <= i < old(self).l().len() ==> *(#[trigger] r.remaining()[i]) == old(self).l()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        final(self).op() == old(self).op(), final(self).bnd() == old(self).bnd(), final(self).wsum() == old(self).wsum(), final(self).l().len() == old(self).l().len(), forall|i: int| 0 <= i < old(self).l().len() ==> *final(#[trigger] r.remaining()[i]) == final(self).l()[i],
//@end
}
impl Clause {
//@fn src/types/constraints.rs Cl::iter_mut id=Cl::iter_mut
//@ret r
    ensures r.remaining().len() == old(self).s().len(), forall|i: int| 0 <= i < old(self).s().len() ==> *(#[trigger] r.remaining()[i]) == old(self).s()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        final(self).s().len() == old(self).s().len(), forall|i: int| 0 <= i < old(self).s().len() ==> *final(#[trigger] r.remaining()[i]) == final(self).s()[i],
//@sub impl Iterator < Item = & mut Lit > ==> std::slice::IterMut<'_, Lit>
//@end
}
impl Cnf {
//@fn src/instances/sat.rs Cnf::iter_mut
//@ret r
    ensures r.remaining().len() == old(self).c().len(), forall|i: int| 0 <= i < old(self).c().len() ==> *(#[trigger] r.remaining()[i]) == old(self).c()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
        final(self).c().len() == old(self).c().len(), forall|i: int| 0 <= i < old(self).c().len() ==> *final(#[trigger] r.remaining()[i]) == final(self).c()[i],
//@end
}
impl Var { pub open spec fn of(i: nat) -> Var { Var { idx: LimitedU32(i as u32) } } }
/// re-indexing managers as an instance sees them (contracts proved for the re-indexing managers of the crate under P12)
pub trait ReindexVars: ManageVars {
    spec fn mapped(&self, v: Var) -> Option<Var>;
    spec fn rinv(&self) -> bool;
    fn reindex(&mut self, in_var: Var) -> (r: Var)
        requires old(self).rinv(), in_var.wf(),
        ensures final(self).rinv(), final(self).mapped(in_var) == Some(r), r.wf(), final(self).next() >= old(self).next(),
            forall|v: Var| (#[trigger] old(self).mapped(v)) is Some ==> final(self).mapped(v) == old(self).mapped(v);
    /// different variables are mapped to different ones
    proof fn lem_inj(&self, v: Var, w: Var)
        requires self.rinv(), v.wf(), w.wf(), self.mapped(v) is Some, self.mapped(v) == self.mapped(w),
        ensures v == w;
    /// the images are used variables
    proof fn lem_below(&self, v: Var)
        requires self.rinv(), self.mapped(v) is Some,
        ensures self.mapped(v)->0.i() < self.next(), self.mapped(v)->0.wf();
//@fn src/instances/mod.rs trait:ReindexVars::reindex_lit
//@ret r
        requires old(self).rinv(),
        ensures final(self).rinv(), final(self).next() >= old(self).next(), final(self).mapped(Var::of(in_lit.v())) is Some,
            r.v() == final(self).mapped(Var::of(in_lit.v()))->0.i(), r.neg() == in_lit.neg(),
            forall|v: Var| (#[trigger] old(self).mapped(v)) is Some ==> final(self).mapped(v) == old(self).mapped(v),
//@end
}
/// what was mapped stays mapped
pub open spec fn rgrow<R: ReindexVars>(o: R, f: R) -> bool { (forall|v: Var| (#[trigger] o.mapped(v)) is Some ==> f.mapped(v) == o.mapped(v)) && f.next() >= o.next() }
pub open spec fn rlit<R: ReindexVars>(m: R, l: Lit) -> Lit { Lit::mk(m.mapped(Var::of(l.v()))->0.i(), l.neg()) }
#[verifier::opaque]
pub open spec fn rseq<R: ReindexVars>(m: R, s: Seq<Lit>, t: Seq<Lit>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> m.mapped(Var::of((#[trigger] s[i]).v())) is Some && t[i] == rlit(m, s[i]) }
/// the assignment of the original variables corresponding to one of the new ones
pub open spec fn pull<R: ReindexVars>(m: R, a: Asg) -> Asg { |v: nat| a(m.mapped(Var::of(v))->0.i()) }
#[verifier::opaque]
pub open spec fn rwseq<R: ReindexVars>(m: R, s: Seq<(Lit, usize)>, t: Seq<(Lit, usize)>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> m.mapped(Var::of((#[trigger] s[i]).0.v())) is Some && t[i].0 == rlit(m, s[i].0) && t[i].1 == s[i].1 }
pub open spec fn rcard<R: ReindexVars>(m: R, s: CardConstraint, t: CardConstraint) -> bool { rseq(m, s.l(), t.l()) && s.op() == t.op() && s.bnd() == t.bnd() }
pub open spec fn rpb<R: ReindexVars>(m: R, s: PbConstraint, t: PbConstraint) -> bool { rwseq(m, s.l(), t.l()) && s.op() == t.op() && s.bnd() == t.bnd() && s.wsum() == t.wsum() }
/// `f` is `o` with every variable replaced by its image
pub open spec fn rinst<VM: ManageVars, R: ReindexVars>(m: R, o: Instance<VM>, f: Instance<R>) -> bool {
    &&& o.cnf.c().len() == f.cnf.c().len() && forall|i: int| 0 <= i < o.cnf.c().len() ==> rseq(m, (#[trigger] o.cnf.c()[i]).s(), f.cnf.c()[i].s())
    &&& o.cards@.len() == f.cards@.len() && forall|i: int| 0 <= i < o.cards@.len() ==> rcard(m, #[trigger] o.cards@[i], f.cards@[i])
    &&& o.pbs@.len() == f.pbs@.len() && forall|i: int| 0 <= i < o.pbs@.len() ==> rpb(m, #[trigger] o.pbs@[i], f.pbs@[i])
}
pub proof fn lem_rgrow<R: ReindexVars>(o: R, f: R) requires rgrow(o, f)
    ensures forall|s: Seq<Lit>, t: Seq<Lit>| #[trigger] rseq(o, s, t) ==> rseq(f, s, t), forall|s: Seq<(Lit, usize)>, t: Seq<(Lit, usize)>| #[trigger] rwseq(o, s, t) ==> rwseq(f, s, t)
{ reveal(rseq); reveal(rwseq); 
  assert forall|s: Seq<Lit>, t: Seq<Lit>| #[trigger] rseq(o, s, t) implies rseq(f, s, t) by { assert forall|i: int| 0 <= i < s.len() implies f.mapped(Var::of((#[trigger] s[i]).v())) is Some && t[i] == rlit(f, s[i]) by { assert(o.mapped(Var::of(s[i].v())) is Some); } }
  assert forall|s: Seq<(Lit, usize)>, t: Seq<(Lit, usize)>| #[trigger] rwseq(o, s, t) implies rwseq(f, s, t) by { assert forall|i: int| 0 <= i < s.len() implies f.mapped(Var::of((#[trigger] s[i]).0.v())) is Some && t[i].0 == rlit(f, s[i].0) && t[i].1 == s[i].1 by { assert(o.mapped(Var::of(s[i].0.v())) is Some); } }
}
pub proof fn lem_rlit_tv<R: ReindexVars>(m: R, l: Lit, a: Asg) requires m.rinv(), m.mapped(Var::of(l.v())) is Some ensures tv(a, rlit(m, l)) == tv(pull(m, a), l), rlit(m, l).v() < m.next()
{ m.lem_below(Var::of(l.v())); assert(m.mapped(Var::of(l.v()))->0.wf()); }
pub proof fn lem_rseq<R: ReindexVars>(m: R, s: Seq<Lit>, t: Seq<Lit>) requires m.rinv(), rseq(m, s, t) ensures forall|a: Asg| #[trigger] cl_true(t, a) == cl_true(s, pull(m, a)), forall|a: Asg| #[trigger] cnt(t, a) == cnt(s, pull(m, a)), bel(t, m.next())
{ reveal(rseq);
  assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() < m.next() by { assert(m.mapped(Var::of(s[i].v())) is Some); lem_rlit_tv(m, s[i], |v: nat| true); }
  assert forall|a: Asg| #[trigger] cnt(t, a) == cnt(s, pull(m, a)) by {
    assert forall|i: int| 0 <= i < t.len() implies fc(a)(#[trigger] t[i]) == fc(pull(m, a))(s[i]) by { assert(m.mapped(Var::of(s[i].v())) is Some); lem_rlit_tv(m, s[i], a); }
    lem_sm_eq(t, s, fc(a), fc(pull(m, a)));
  }
  assert forall|a: Asg| #[trigger] cl_true(t, a) == cl_true(s, pull(m, a)) by { lem_cnt_logic(t, a); lem_cnt_logic(s, pull(m, a)); assert(cnt(t, a) == cnt(s, pull(m, a))); }
}
pub proof fn lem_rwseq<R: ReindexVars>(m: R, s: Seq<(Lit, usize)>, t: Seq<(Lit, usize)>) requires m.rinv(), rwseq(m, s, t) ensures forall|a: Asg| #[trigger] ws(t, a) == ws(s, pull(m, a)), wt(t) == wt(s), wbel(t, m.next())
{ reveal(rwseq);
  assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).0.v() < m.next() by { assert(m.mapped(Var::of(s[i].0.v())) is Some); lem_rlit_tv(m, s[i].0, |v: nat| true); }
  assert forall|i: int| 0 <= i < t.len() implies ft()(#[trigger] t[i]) == ft()(s[i]) by { assert(m.mapped(Var::of(s[i].0.v())) is Some); }
  lem_sm_eq(t, s, ft(), ft());
  assert forall|a: Asg| #[trigger] ws(t, a) == ws(s, pull(m, a)) by {
    assert forall|i: int| 0 <= i < t.len() implies fw(a)(#[trigger] t[i]) == fw(pull(m, a))(s[i]) by { assert(m.mapped(Var::of(s[i].0.v())) is Some); lem_rlit_tv(m, s[i].0, a); }
    lem_sm_eq(t, s, fw(a), fw(pull(m, a)));
  }
}
pub proof fn lem_rinst<VM: ManageVars, R: ReindexVars>(m: R, o: Instance<VM>, f: Instance<R>)
    requires m.rinv(), rinst(m, o, f), f.var_manager == m,
    ensures f.cov(), o.wf() ==> f.wf(), forall|a: Asg| #[trigger] f.isat(a) <==> o.isat(pull(m, a)),
{
    assert forall|i: int| 0 <= i < o.cnf.c().len() implies (forall|a: Asg| #[trigger] cl_true(f.cnf.c()[i].s(), a) == cl_true((#[trigger] o.cnf.c()[i]).s(), pull(m, a))) && bel(f.cnf.c()[i].s(), m.next()) by { lem_rseq(m, o.cnf.c()[i].s(), f.cnf.c()[i].s()); }
    assert forall|i: int| 0 <= i < o.cards@.len() implies (forall|a: Asg| #[trigger] f.cards@[i].sat(a) == (#[trigger] o.cards@[i]).sat(pull(m, a))) && bel(f.cards@[i].l(), m.next()) by { assert(rcard(m, o.cards@[i], f.cards@[i])); lem_rseq(m, o.cards@[i].l(), f.cards@[i].l()); }
    assert forall|i: int| 0 <= i < o.pbs@.len() implies (forall|a: Asg| #[trigger] f.pbs@[i].sat(a) == (#[trigger] o.pbs@[i]).sat(pull(m, a))) && wbel(f.pbs@[i].l(), m.next()) && (o.pbs@[i].wf() ==> f.pbs@[i].wf()) by { assert(rpb(m, o.pbs@[i], f.pbs@[i])); lem_rwseq(m, o.pbs@[i].l(), f.pbs@[i].l()); }
    assert forall|i: int| 0 <= i < f.cnf.c().len() implies bel((#[trigger] f.cnf.c()[i]).s(), m.next()) by { let x = o.cnf.c()[i]; }
    assert forall|i: int| 0 <= i < f.cards@.len() implies bel((#[trigger] f.cards@[i]).l(), m.next()) by { let x = o.cards@[i]; }
    assert forall|i: int| 0 <= i < f.pbs@.len() implies wbel((#[trigger] f.pbs@[i]).l(), m.next()) by { let x = o.pbs@[i]; }
    if o.wf() { assert forall|i: int| 0 <= i < f.pbs@.len() implies (#[trigger] f.pbs@[i]).wf() by { assert(o.pbs@[i].wf()); } }
    assert forall|a: Asg| #[trigger] f.isat(a) <==> o.isat(pull(m, a)) by {
        let b = pull(m, a);
        if f.isat(a) {
            assert forall|i: int| 0 <= i < o.cnf.c().len() implies cl_true((#[trigger] o.cnf.c()[i]).s(), b) by { assert(cl_true(f.cnf.c()[i].s(), a)); }
            assert forall|i: int| 0 <= i < o.cards@.len() implies (#[trigger] o.cards@[i]).sat(b) by { assert(f.cards@[i].sat(a)); }
            assert forall|i: int| 0 <= i < o.pbs@.len() implies (#[trigger] o.pbs@[i]).sat(b) by { assert(f.pbs@[i].sat(a)); }
        }
        if o.isat(b) {
            assert forall|i: int| 0 <= i < f.cnf.c().len() implies cl_true((#[trigger] f.cnf.c()[i]).s(), a) by { assert(cl_true(o.cnf.c()[i].s(), b)); }
            assert forall|i: int| 0 <= i < f.cards@.len() implies (#[trigger] f.cards@[i]).sat(a) by { assert(o.cards@[i].sat(b)); }
            assert forall|i: int| 0 <= i < f.pbs@.len() implies (#[trigger] f.pbs@[i]).sat(a) by { assert(o.pbs@[i].sat(b)); }
        }
    }
}
impl<VM: ManageVars> Instance<VM> {
//@fn src/instances/sat.rs Instance::reindex tuple_ref=mut loops=6
//@ret r
    requires reindexer.rinv(),
    ensures r.var_manager.rinv(), rgrow(reindexer, r.var_manager), rinst(r.var_manager, self, r), r.cov(), self.wf() ==> r.wf(),
        forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(pull(r.var_manager, a)),
//@ghost start
    let ghost r0 = reindexer;
//@loop 0 iter=it
    invariant reindexer.rinv(), rgrow(r0, reindexer), it.seq().len() == self.cnf.c().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.cnf.c()[i],
        forall|i: int| 0 <= i < it.index@ ==> rseq(reindexer, (#[trigger] self.cnf.c()[i]).s(), final(it.seq()[i]).s()),
//@loop 1 iter=jt
    invariant reindexer.rinv(), rgrow(r0, reindexer), rgrow(r1, reindexer), jt.seq().len() == c1.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == c1[i],
        forall|i: int| 0 <= i < jt.index@ ==> reindexer.mapped(Var::of((#[trigger] c1[i]).v())) is Some && *final(jt.seq()[i]) == rlit(reindexer, c1[i]),
//@ghost loop 0 start
    let ghost r1 = reindexer;
    let ghost c1 = cl.s();
//@ghost loop 1 after
    proof { reveal(rseq); lem_rgrow(r1, reindexer); assert(rseq(reindexer, c1, cl.s())); }
//@loop 2 iter=kt
    invariant reindexer.rinv(), rgrow(r0, reindexer), rgrow(r2, reindexer), kt.seq().len() == self.cards@.len(), forall|i: int| 0 <= i < kt.seq().len() ==> *#[trigger] kt.seq()[i] == self.cards@[i],
        forall|i: int| 0 <= i < kt.index@ ==> rcard(reindexer, #[trigger] self.cards@[i], *final(kt.seq()[i])),
//@loop 3 iter=lt
    invariant reindexer.rinv(), rgrow(r0, reindexer), rgrow(r2, reindexer), rgrow(r3, reindexer), lt.seq().len() == c3.l().len(), forall|i: int| 0 <= i < lt.seq().len() ==> *#[trigger] lt.seq()[i] == c3.l()[i],
        forall|i: int| 0 <= i < lt.index@ ==> reindexer.mapped(Var::of((#[trigger] c3.l()[i]).v())) is Some && *final(lt.seq()[i]) == rlit(reindexer, c3.l()[i]),
//@ghost loop 2 before
    let ghost r2 = reindexer;
//@ghost loop 2 start
    let ghost r3 = reindexer;
    let ghost c3 = *card;
//@ghost loop 3 after
    proof { reveal(rseq); lem_rgrow(r3, reindexer); assert(rcard(reindexer, c3, *card)); }
//@loop 4 iter=pt
    invariant reindexer.rinv(), rgrow(r0, reindexer), rgrow(r2, reindexer), rgrow(r4, reindexer), pt.seq().len() == self.pbs@.len(), forall|i: int| 0 <= i < pt.seq().len() ==> *#[trigger] pt.seq()[i] == self.pbs@[i],
        forall|i: int| 0 <= i < pt.index@ ==> rpb(reindexer, #[trigger] self.pbs@[i], *final(pt.seq()[i])),
//@loop 5 iter=qt
    invariant reindexer.rinv(), rgrow(r0, reindexer), rgrow(r2, reindexer), rgrow(r4, reindexer), rgrow(r5, reindexer), qt.seq().len() == c5.l().len(), forall|i: int| 0 <= i < qt.seq().len() ==> *#[trigger] qt.seq()[i] == c5.l()[i],
        forall|i: int| 0 <= i < qt.index@ ==> reindexer.mapped(Var::of((#[trigger] c5.l()[i]).0.v())) is Some && final(qt.seq()[i]).0 == rlit(reindexer, c5.l()[i].0) && final(qt.seq()[i]).1 == c5.l()[i].1,
//@ghost loop 4 before
    let ghost r4 = reindexer;
//@ghost loop 4 start
    let ghost r5 = reindexer;
    let ghost c5 = *pb;
//@ghost loop 5 after
    proof { reveal(rwseq); lem_rgrow(r5, reindexer); assert(rpb(reindexer, c5, *pb)); }
//@ghost loop 4 after
    proof { lem_rgrow(r4, reindexer); lem_rgrow(r2, reindexer);
        assert forall|f: Instance<R>| f.var_manager == reindexer && #[trigger] rinst(reindexer, self, f) implies f.cov() && (self.wf() ==> f.wf()) && (forall|a: Asg| #[trigger] f.isat(a) <==> self.isat(pull(reindexer, a))) by { lem_rinst(reindexer, self, f); } }
//@end
}
impl Clause {
//@fn src/types/constraints.rs Cl::iter id=Cl::iter
//@ret r
    ensures r.remaining().len() == self.s().len(), forall|i: int| 0 <= i < self.s().len() ==> *(#[trigger] r.remaining()[i]) == self.s()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@sub impl Iterator < Item = & Lit > ==> std::slice::Iter<'_, Lit>
//@end
}
impl Cnf {
//@fn src/instances/sat.rs Cnf::iter
//@ret r
    ensures r.remaining().len() == self.c().len(), forall|i: int| 0 <= i < self.c().len() ==> *(#[trigger] r.remaining()[i]) == self.c()[i], r.obeys_prophetic_iter_laws(), r.decrease() is Some,
//@end
}
use std::collections::BTreeSet;
/// the derived order of variables is a total order (so that BTreeSet works as a set)
pub axiom fn lem_var_cmp() ensures vstd::std_specs::btree::key_obeys_cmp_spec::<Var>();
/// iterating over a BTreeSet yields its elements
#[verifier::external_body]
pub fn vx_sorted(s: BTreeSet<Var>) -> (r: Vec<Var>) ensures forall|i: int| 0 <= i < r@.len() ==> s@.contains(#[trigger] r@[i]) { s.into_iter().collect() }
pub open spec fn in_lits(s: Seq<Lit>, v: Var) -> bool { exists|i: int| 0 <= i < s.len() && Var::of((#[trigger] s[i]).v()) == v }
pub open spec fn in_wlits(s: Seq<(Lit, usize)>, v: Var) -> bool { exists|i: int| 0 <= i < s.len() && Var::of((#[trigger] s[i]).0.v()) == v }
pub open spec fn in_cnf(c: Seq<Clause>, v: Var) -> bool { exists|i: int| 0 <= i < c.len() && in_lits((#[trigger] c[i]).s(), v) }
pub open spec fn in_cards(c: Seq<CardConstraint>, v: Var) -> bool { exists|i: int| 0 <= i < c.len() && in_lits((#[trigger] c[i]).l(), v) }
pub open spec fn in_pbs(c: Seq<PbConstraint>, v: Var) -> bool { exists|i: int| 0 <= i < c.len() && in_wlits((#[trigger] c[i]).l(), v) }
impl<VM: ManageVars> Instance<VM> {
    /// the variable occurs in a constraint
    pub open spec fn occ(&self, v: Var) -> bool { in_cnf(self.cnf.c(), v) || in_cards(self.cards@, v) || in_pbs(self.pbs@, v) }
//@fn src/instances/sat.rs Instance::extend_var_set extend=loop chains=loop loops=6
    ensures forall|v: Var| #[trigger] final(varset)@.contains(v) <==> old(varset)@.contains(v) || self.occ(v),
//@sub varset\.push\( ==> varset.insert(
//@ghost start
    proof { lem_var_cmp(); }
    let ghost s0 = varset@;
//@loop 0 iter=it
    invariant it.seq().len() == self.cnf.c().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.cnf.c()[i], vstd::std_specs::btree::key_obeys_cmp_spec::<Var>(),
        forall|v: Var| #[trigger] varset@.contains(v) <==> s0.contains(v) || exists|i: int| 0 <= i < it.index@ && in_lits((#[trigger] self.cnf.c()[i]).s(), v),
//@ghost loop 0 start
    let ghost s1 = varset@;
//@loop 1 iter=jt
    invariant jt.seq().len() == cl.s().len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == cl.s()[i], vstd::std_specs::btree::key_obeys_cmp_spec::<Var>(),
        forall|v: Var| #[trigger] varset@.contains(v) <==> s1.contains(v) || exists|i: int| 0 <= i < jt.index@ && Var::of((#[trigger] cl.s()[i]).v()) == v,
//@ghost loop 0 after
    proof { assert(forall|v: Var| #[trigger] varset@.contains(v) <==> s0.contains(v) || in_cnf(self.cnf.c(), v)); }
//@loop 2 iter=it
    invariant it.seq().len() == self.cards@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.cards@[i], vstd::std_specs::btree::key_obeys_cmp_spec::<Var>(),
        forall|v: Var| #[trigger] varset@.contains(v) <==> s0.contains(v) || in_cnf(self.cnf.c(), v) || exists|i: int| 0 <= i < it.index@ && in_lits((#[trigger] self.cards@[i]).l(), v),
//@ghost loop 2 start
    let ghost s3 = varset@;
//@loop 3 iter=jt
    invariant jt.seq().len() == card.l().len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == card.l()[i], vstd::std_specs::btree::key_obeys_cmp_spec::<Var>(),
        forall|v: Var| #[trigger] varset@.contains(v) <==> s3.contains(v) || exists|i: int| 0 <= i < jt.index@ && Var::of((#[trigger] card.l()[i]).v()) == v,
//@ghost loop 2 after
    proof { assert(forall|v: Var| #[trigger] varset@.contains(v) <==> s0.contains(v) || in_cnf(self.cnf.c(), v) || in_cards(self.cards@, v)); }
//@loop 4 iter=it
    invariant it.seq().len() == self.pbs@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.pbs@[i], vstd::std_specs::btree::key_obeys_cmp_spec::<Var>(),
        forall|v: Var| #[trigger] varset@.contains(v) <==> s0.contains(v) || in_cnf(self.cnf.c(), v) || in_cards(self.cards@, v) || exists|i: int| 0 <= i < it.index@ && in_wlits((#[trigger] self.pbs@[i]).l(), v),
//@ghost loop 4 start
    let ghost s5 = varset@;
//@loop 5 iter=jt
    invariant jt.seq().len() == pbs.l().len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == pbs.l()[i], vstd::std_specs::btree::key_obeys_cmp_spec::<Var>(),
        forall|v: Var| #[trigger] varset@.contains(v) <==> s5.contains(v) || exists|i: int| 0 <= i < jt.index@ && Var::of((#[trigger] pbs.l()[i]).0.v()) == v,
//@ghost loop 4 after
    proof { assert(forall|v: Var| #[trigger] varset@.contains(v) <==> s0.contains(v) || in_cnf(self.cnf.c(), v) || in_cards(self.cards@, v) || in_pbs(self.pbs@, v)); }
//@end
//@fn src/instances/sat.rs Instance::var_set
//@ret r
    ensures forall|v: Var| #[trigger] r@.contains(v) <==> self.occ(v),
//@end
//@fn src/instances/sat.rs Instance::reindex_ordered
//@ret r
    requires reindexer.rinv(),
    ensures r.var_manager.rinv(), rgrow(reindexer, r.var_manager), rinst(r.var_manager, self, r), r.cov(), self.wf() ==> r.wf(),
        forall|a: Asg| #[trigger] r.isat(a) <==> self.isat(pull(r.var_manager, a)),
//@sub for var in varset ==> for var in it: vx_sorted(varset)
//@loop 0
    invariant reindexer.rinv(), rgrow(r0, reindexer), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).wf(),
//@ghost start
    let ghost r0 = reindexer;
//@end
}
// ---- creating instances ----
/// managers with a default value, in which no variable is used (proved for the variable managers of the crate under P12)
pub trait VmDefault: ManageVars { fn default() -> (r: Self) ensures r.next() == 0; }
impl vstd::std_specs::ops::AddSpecImpl<u32> for Var {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, rhs: u32) -> bool { self.i() + rhs <= 0x7fff_ffff }
    open spec fn add_spec(self, rhs: u32) -> Var { Var { idx: LimitedU32((self.idx.0 + rhs) as u32) } }
}
impl std::ops::Add<u32> for Var {
    type Output = Var;
//@fn src/types/mod.rs <Var as Add<u32>>::add
//@ret r
    ensures r.i() == self.i() + rhs, r.wf(),
//@end
}
pub open spec fn lits_ok(s: Seq<Lit>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() < 0x7fff_ffff }
pub proof fn lem_bnd_step(c: Seq<Clause>, i: int, n: nat, m: nat) requires 0 <= i < c.len(), bnd(c.take(i), n), n <= m, bel(c[i].s(), m) ensures bnd(c.take(i + 1), m)
{ let t = c.take(i + 1); assert forall|j: int| 0 <= j < t.len() implies bel((#[trigger] t[j]).s(), m) by { if j < i { assert(c.take(i)[j] == t[j]); lem_bel_le(t[j].s(), n, m); } } }
impl<VM: VmDefault> Instance<VM> {
//@fn src/instances/sat.rs <Instance as Default>::default
//@ret r
    ensures forall|a: Asg| r.isat(a), r.cov(), r.wf(), r.cnf.c().len() == 0, r.cards@.len() == 0, r.pbs@.len() == 0, r.var_manager.next() == 0,
//@sub Cnf::default\(\) ==> Cnf { clauses: Vec::new() }
//@sub Vec::default\(\) ==> Vec::new()
//@end
//@fn src/instances/sat.rs Instance::new
//@ret r
    ensures forall|a: Asg| r.isat(a), r.cov(), r.wf(), r.cnf.c().len() == 0, r.cards@.len() == 0, r.pbs@.len() == 0, r.var_manager.next() == 0,
//@end
//@fn src/instances/sat.rs <Instance as FromIterator<Clause>>::from_iter as=from_clauses inst=T:Vec<Clause>
//@ret r
    ensures r.cnf.c() == iter@, r.cov(), r.wf(), forall|a: Asg| #[trigger] r.isat(a) <==> cnf_true(iter@, a),
//@loop 0 iter=it
    invariant it.seq() == d0, inst.cnf.c() == d0.take(it.index@ as int), inst.cards@.len() == 0, inst.pbs@.len() == 0, inst.cov(),
//@ghost start
    let ghost d0 = iter@;
    proof { assert(d0.take(0) =~= Seq::<Clause>::empty()); }
//@ghost loop 0 end
    proof { let i = it.index@ as int; assert(d0.take(i + 1) =~= d0.take(i).push(d0[i])); }
//@ghost end
    proof { assert(d0.take(d0.len() as int) =~= d0); }
//@end
//@fn src/instances/sat.rs <Instance as FromIterator<PbConstraint>>::from_iter as=from_pbs inst=T:Vec<PbConstraint>
//@ret r
    ensures r.pbs@ == iter@, r.cov(), pbs_wf(iter@) ==> r.wf(), forall|a: Asg| #[trigger] r.isat(a) <==> pbs_true(iter@, a),
//@loop 0 iter=it
    invariant it.seq() == d0, inst.pbs@ == d0.take(it.index@ as int), inst.cards@.len() == 0, inst.cnf.c().len() == 0, inst.cov(),
//@ghost start
    let ghost d0 = iter@;
    proof { assert(d0.take(0) =~= Seq::<PbConstraint>::empty()); }
//@ghost loop 0 end
    proof { let i = it.index@ as int; assert(d0.take(i + 1) =~= d0.take(i).push(d0[i])); }
//@ghost end
    proof { assert(d0.take(d0.len() as int) =~= d0); }
//@end
//@fn src/instances/sat.rs <Instance as FromIterator<CardConstraint>>::from_iter as=from_cards inst=T:Vec<CardConstraint>
//@ret r
    ensures r.cards@ == iter@, r.cov(), r.wf(), forall|a: Asg| #[trigger] r.isat(a) <==> cards_true(iter@, a),
//@loop 0 iter=it
    invariant it.seq() == d0, inst.cards@ == d0.take(it.index@ as int), inst.pbs@.len() == 0, inst.cnf.c().len() == 0, inst.cov(),
//@ghost start
    let ghost d0 = iter@;
    proof { assert(d0.take(0) =~= Seq::<CardConstraint>::empty()); }
//@ghost loop 0 end
    proof { let i = it.index@ as int; assert(d0.take(i + 1) =~= d0.take(i).push(d0[i])); }
//@ghost end
    proof { assert(d0.take(d0.len() as int) =~= d0); }
//@end
//@fn src/instances/sat.rs <Instance as From<Cnf>>::from as=from_cnf
//@ret r
    requires forall|i: int| 0 <= i < value.c().len() ==> lits_ok((#[trigger] value.c()[i]).s()),
    ensures r.cnf == value, r.cov(), r.wf(), forall|a: Asg| #[trigger] r.isat(a) <==> cnf_true(value.c(), a),
//@sub \.\.Default::default\(\) ==> ..Instance::default()
//@sub : & inst\.cnf ==> : inst.cnf.iter()
//@sub : cl ==> : cl.iter()
//@loop 0 iter=it
    invariant inst.cnf == value, inst.cards@.len() == 0, inst.pbs@.len() == 0, it.seq().len() == value.c().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == value.c()[i],
        forall|i: int| 0 <= i < value.c().len() ==> lits_ok((#[trigger] value.c()[i]).s()),
        bnd(value.c().take(it.index@ as int), inst.var_manager.next()),
//@loop 1 iter=jt
    invariant inst.cnf == value, inst.cards@.len() == 0, inst.pbs@.len() == 0, jt.seq().len() == cl.s().len(), forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == cl.s()[i],
        lits_ok(cl.s()), inst.var_manager.next() >= n1, bel(cl.s().take(jt.index@ as int), inst.var_manager.next()),
//@ghost loop 0 start
    let ghost n1 = inst.var_manager.next();
    proof { lem_bel0(cl.s(), n1); }
//@ghost loop 1 end
    proof { lem_bel_step(cl.s(), jt.index@ as int, n2, inst.var_manager.next()); }
//@ghost loop 1 start
    let ghost n2 = inst.var_manager.next();
//@ghost loop 1 after
    proof { lem_bel_end(cl.s(), inst.var_manager.next()); lem_bnd_step(value.c(), it.index@ as int, n1, inst.var_manager.next()); }
//@ghost loop 0 after
    proof { assert(value.c().take(value.c().len() as int) =~= value.c()); }
//@end
}
