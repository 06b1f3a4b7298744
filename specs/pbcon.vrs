// ---- whole pseudo-Boolean constraints, for every encoding meeting the contract ----
impl VxCons for PbConstraint { open spec fn ksat(&self, a: Asg) -> bool { self.sat(a) } open spec fn klits(&self) -> Seq<Lit> { lits_of(self.l()) } open spec fn kwf(&self) -> bool { self.wf() } }
pub open spec fn vp_ub(c: PbUbConstr) -> PbConstraint { PbConstraint::Ub(c) }
pub open spec fn vp_lb(c: PbLbConstr) -> PbConstraint { PbConstraint::Lb(c) }
pub open spec fn vp_eq(c: PbEqConstr) -> PbConstraint { PbConstraint::Eq(c) }
/// clauses true under exactly the solutions, over the literals of the constraint only
pub proof fn lem_kdirect<C: VxCons>(c: C, c0: Seq<Clause>, d: Seq<Clause>, n: nat)
    requires forall|a: Asg| #[trigger] cnf_true(d, a) <==> c.ksat(a), forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].s().len() ==> var_in((#[trigger] d[i].s()[j]).v(), c.klits()),
    ensures encoded(c, c0, c0 + d, n, n),
{
    reveal(encoded); lem_since(c0, c0, d);
    assert(c0 + d == c0 + since(c0 + d, c0));
    assert(cok(d, c.klits(), n, n)) by { assert forall|i: int| 0 <= i < d.len() implies vok((#[trigger] d[i]).s(), c.klits(), n, n) by { assert forall|j: int| 0 <= j < d[i].s().len() implies var_in((#[trigger] d[i].s()[j]).v(), c.klits()) by {} } }
    assert forall|a: Asg| #[trigger] c.ksat(a) implies exists|b: Asg| agree(a, b, n) && #[trigger] cnf_true(since(c0 + d, c0), b) by { assert(agree(a, a, n) && cnf_true(d, a)); }
}
pub open spec fn klits_in<C: VxCons>(s: Seq<Lit>, c: C) -> bool { forall|j: int| 0 <= j < s.len() ==> var_in((#[trigger] s[j]).v(), c.klits()) }
pub open spec fn kdirect<C: VxCons>(cl: Clause, c: C) -> bool { klits_in(cl.s(), c) && forall|a: Asg| #[trigger] cl_true(cl.s(), a) <==> c.ksat(a) }
pub proof fn lem_kdirect1<C: VxCons>(c: C, c0: Seq<Clause>, n: nat) ensures forall|cl: Clause| kdirect(cl, c) ==> encoded(c, c0, #[trigger] c0.push(cl), n, n), encoded(c, c0, c0, n, n) <== forall|a: Asg| #[trigger] c.ksat(a)
{
    assert forall|cl: Clause| kdirect(cl, c) implies encoded(c, c0, #[trigger] c0.push(cl), n, n) by {
        let d = seq![cl];
        assert forall|a: Asg| #[trigger] cnf_true(d, a) <==> c.ksat(a) by { if cnf_true(d, a) { assert(cl_true(d[0].s(), a)); } if c.ksat(a) { assert(cl_true(cl.s(), a)); } }
        lem_kdirect(c, c0, d, n); assert(c0 + d =~= c0.push(cl));
    }
    if forall|a: Asg| #[trigger] c.ksat(a) { lem_kdirect(c, c0, Seq::empty(), n); assert(c0 + Seq::<Clause>::empty() =~= c0); }
}
pub proof fn lem_kdirect2<C: VxCons>(c: C, c0: Seq<Clause>, d: Seq<Clause>, s: Seq<Lit>, n: nat)
    requires units(d, s), klits_in(s, c), forall|a: Asg| #[trigger] c.ksat(a) <==> cube_true(s, a),
    ensures encoded(c, c0, c0 + d, n, n),
{
    lem_units(d, s);
    assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d[i].s().len() implies var_in((#[trigger] d[i].s()[j]).v(), c.klits()) by { assert(d[i].s() == seq![s[i]]); assert(var_in(s[i].v(), c.klits())); }
    lem_kdirect(c, c0, d, n);
}
pub proof fn lem_kown<C: VxCons>(c: C) ensures klits_in(c.klits(), c), klits_in(opps(c.klits()), c)
{
    let x = c.klits(); let y = opps(x); lem_var_opps(x);
    assert forall|j: int| 0 <= j < x.len() implies var_in((#[trigger] x[j]).v(), x) by {}
    assert forall|j: int| 0 <= j < y.len() implies var_in((#[trigger] y[j]).v(), x) by { assert(x[j].v() == y[j].v()); }
}
/// a negative lower bound always holds
pub proof fn lem_taut_enc(c: PbConstraint, c0: Seq<Clause>, n: nat) requires c.op() == Op::Ge, c.bnd() < 0 ensures encoded(c, c0, c0, n, n)
{
    assert forall|a: Asg| #[trigger] c.ksat(a) by { lem_ws_bounds(c.l(), a); assert(c.sat(a)); }
    lem_kdirect1(c, c0, n);
}
/// an equivalent constraint over the same literals
pub proof fn lem_same_enc<C: VxCons, D: VxCons>(c: C, d: D, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat)
    requires encoded(d, c0, c1, n0, n1), c.klits() == d.klits(), forall|a: Asg| #[trigger] c.ksat(a) == d.ksat(a),
    ensures encoded(c, c0, c1, n0, n1),
{
    reveal(encoded);
    assert forall|a: Asg| #[trigger] cnf_true(since(c1, c0), a) implies c.ksat(a) by { assert(d.ksat(a)); }
    assert forall|a: Asg| #[trigger] c.ksat(a) implies exists|b: Asg| agree(a, b, n0) && #[trigger] cnf_true(since(c1, c0), b) by { assert(d.ksat(a)); }
}
/// a fresh encoding with the units of an enforced bound
pub proof fn lem_pconstr<E: PbEnc>(c: PbConstraint, u: E, s: Seq<Lit>, c0: Seq<Clause>, c1: Seq<Clause>, d: Seq<Clause>, n0: nat, n1: nat)
    requires bel(lits_of(c.l()), n0), n0 <= n1, grown(c0, c1), u.ok(n1, c1.len()), units(d, s), forall|j: int| 0 <= j < s.len() ==> u.voc((#[trigger] s[j]).v()),
        forall|i: int, j: int| 0 <= i < since(c1, c0).len() && 0 <= j < since(c1, c0)[i].s().len() ==> u.voc((#[trigger] since(c1, c0)[i].s()[j]).v()),
        forall|a: Asg| #[trigger] u.tot(a) == ws(c.l(), a), forall|v: nat| #[trigger] u.isout(v) ==> v >= n0, forall|v: nat| #[trigger] u.inp(v) ==> var_in(v, lits_of(c.l())),
        forall|a: Asg| #[trigger] u.st(a) ==> cnf_true(since(c1, c0), a),
        forall|a: Asg| #[trigger] cnf_true(since(c1, c0), a) && cube_true(s, a) ==> holds(c.op(), u.tot(a), c.bnd() as int),
        forall|a: Asg| #[trigger] u.st(a) && holds(c.op(), u.tot(a), c.bnd() as int) ==> cube_true(s, a),
    ensures encoded(c, c0, c1 + d, n0, n1),
{
    reveal(encoded);
    let ls = c.l(); let d1 = since(c1, c0);
    u.law_ok(n1, c1.len(), n1, c1.len()); lem_units(d, s);
    assert(c1 =~= c0 + d1);
    lem_since(c0, c1, d);
    let dd = since(c1 + d, c0);
    assert(dd == d1 + d);
    assert forall|a: Asg| #[trigger] cnf_true(dd, a) implies c.ksat(a) by { lem_cnf_add(d1, d, a); assert(u.tot(a) == ws(ls, a)); }
    assert forall|a: Asg| #[trigger] c.ksat(a) implies exists|b: Asg| agree(a, b, n0) && #[trigger] cnf_true(dd, b) by {
        let b = u.law_ext(n1, c1.len(), a);
        assert(agree(a, b, n0)) by { assert forall|v: nat| v < n0 implies #[trigger] a(v) == b(v) by { assert(!u.isout(v)); } }
        assert forall|v: nat| #[trigger] u.inp(v) implies a(v) == b(v) by { assert(!u.isout(v)); }
        u.law_dep(n1, c1.len(), a, b);
        assert(u.tot(a) == ws(ls, a)); assert(u.tot(b) == u.tot(a));
        assert(u.st(b)); assert(cnf_true(d1, b));
        lem_cnf_add(d1, d, b);
    }
    assert(cok(dd, c.klits(), n0, n1)) by {
        assert forall|i: int| 0 <= i < dd.len() implies vok((#[trigger] dd[i]).s(), c.klits(), n0, n1) by {
            assert forall|j: int| 0 <= j < dd[i].s().len() implies var_in((#[trigger] dd[i].s()[j]).v(), c.klits()) || n0 <= dd[i].s()[j].v() < n1 by {
                if i < d1.len() { assert(dd[i] == d1[i]); assert(u.voc(d1[i].s()[j].v())); } else { let q = i - d1.len(); assert(dd[i] == d[q]); assert(d[q].s() == seq![s[q]]); assert(u.voc(s[q].v())); }
            }
        }
    }
}
/// the provided methods encoding whole pseudo-Boolean constraints
pub trait VxPbEnc: PbEnc {
//@fn src/encodings/pb/mod.rs trait:BoundUpper::encode_ub_constr nopub dyn chains=loop lazy=Clause from_iter=keep
//@ret r
    requires bel(lits_of(constr.lits@), old(var_manager).next()), wt(constr.lits@) < usize::MAX,
    ensures r is Ok ==> encoded(vp_ub(constr), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
        r is Err && r->Err_0 is Unsat ==> pb_unsat(vp_ub(constr).op(), wt(constr.lits@), constr.b as int),
//@sub Self: FromIterator<\(Lit, usize\)> \+ Sized, ==> 
//@sub Self::from_iter\( ==> <Self as PbEnc>::from_iter(
//@sub (\w+)\.\.=(\w+) ==> VxIncl { lo: $1, hi: $2 }
//@sub (?s)enc\.encode_ub\((.*?)\)\?; ==> match enc.encode_ub($1) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@sub (?s)collector\s*\.extend_clauses\(\{(.*?)in it: (enc\.\w+\(\w+\)\.unwrap\(\))(\.into_iter\(\).*?)\}\)\?; ==> let ghost u = enc; let ghost c1 = collector.cls(); let ghost n1 = var_manager.next(); proof { u.law_ok(n1, c1.len(), n1, c1.len()); assert(vx_has(VxIncl { lo: ub, hi: ub }, ub as int)); } let vx_s = $2; let ghost s0 = vx_s@; let vx_us = {${1}in it: vx_s$3}; let ghost us = vx_us@; match collector.extend_clauses(vx_us) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@ghost start
    let ghost con = vp_ub(constr);
    let ghost wl = constr.lits@;
    let ghost ls = lits_of(constr.lits@);
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_wt_nonneg(wl); }
//@ghost call encode_ub 0 before
    let ghost t0 = enc;
//@loop 0 iter=it
    invariant it.seq() == s0, units(vx_acc0@, s0.take(it.index@ as int)),
//@ghost loop 0 end
    proof { assert(s0.take(it.index@ + 1) =~= s0.take(it.index@ as int).push(s0[it.index@ as int])); assert(vx_acc0@[it.index@ as int].s() =~= seq![s0[it.index@ as int]]); }
//@ghost loop 0 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] u.tot(a) == ws(wl, a) by { assert(t0.tot(a) == ws(wl, a)); }
        let d = since(c1, c0);
        assert forall|a: Asg| #[trigger] cnf_true(d, a) && cube_true(s0, a) implies holds(con.op(), u.tot(a), con.bnd() as int) by { assert(t0.hub(a) && t0.hlb(a)); assert(u.hub(a)); }
        lem_pconstr(con, u, s0, c0, c1, us, n0, n1);
    }
//@end
//@fn src/encodings/pb/mod.rs trait:BoundLower::encode_lb_constr nopub dyn chains=loop lazy=Clause from_iter=keep tuple_ref fold_ty=usize
//@ret r
    requires bel(lits_of(constr.lits@), old(var_manager).next()), wt(constr.lits@) < usize::MAX,
    ensures r is Ok ==> encoded(vp_lb(constr), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
        r is Err && r->Err_0 is Unsat ==> pb_unsat(vp_lb(constr).op(), wt(constr.lits@), constr.b as int),
//@sub Self: FromIterator<\(Lit, usize\)> \+ Sized, ==> 
//@sub Self::from_iter\( ==> <Self as PbEnc>::from_iter(
//@sub (\w+)\.\.=(\w+) ==> VxIncl { lo: $1, hi: $2 }
//@sub (?s)enc\.encode_lb\((.*?)\)\?; ==> match enc.encode_lb($1) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@sub (?s)collector\s*\.extend_clauses\(\{(.*?)in it: (enc\.\w+\(\w+\)\.unwrap\(\))(\.into_iter\(\).*?)\}\)\?; ==> let ghost u = enc; let ghost c1 = collector.cls(); let ghost n1 = var_manager.next(); proof { u.law_ok(n1, c1.len(), n1, c1.len()); assert(vx_has(VxIncl { lo: lb, hi: lb }, lb as int)); } let vx_s = $2; let ghost s0 = vx_s@; let vx_us = {${1}in it: vx_s$3}; let ghost us = vx_us@; match collector.extend_clauses(vx_us) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@sub? sum \+ w ==> sum + *w
//@ghost start
    let ghost con = vp_lb(constr);
    let ghost wl = constr.lits@;
    let ghost ls = lits_of(constr.lits@);
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_wt_nonneg(wl); if constr.b < 0 { lem_taut_enc(con, c0, n0); } }
//@ghost call encode_lb 0 before
    let ghost t0 = enc;
//@loop 0 iter=it
    invariant it.seq().len() == wl.len(), lits@ == wl, forall|i: int| 0 <= i < wl.len() ==> *(#[trigger] it.seq()[i]) == wl[i],
        sum == wt(wl.take(it.index@ as int)), forall|i: int| 0 <= i <= wl.len() ==> 0 <= #[trigger] wt(wl.take(i)) <= wt(wl), wt(wl) < usize::MAX,
//@ghost loop 0 start
    proof { lem_sm_take(wl, it.index@ as int, ft()); assert(wt(wl.take(it.index@ as int + 1)) <= wt(wl)); }
//@ghost loop 0 after
    proof { assert(wl.take(wl.len() as int) =~= wl); }
//@loop 1 iter=it
    invariant it.seq() == s0, units(vx_acc0@, s0.take(it.index@ as int)),
//@ghost loop 1 end
    proof { assert(s0.take(it.index@ + 1) =~= s0.take(it.index@ as int).push(s0[it.index@ as int])); assert(vx_acc0@[it.index@ as int].s() =~= seq![s0[it.index@ as int]]); }
//@ghost loop 1 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] u.tot(a) == ws(wl, a) by { assert(t0.tot(a) == ws(wl, a)); }
        let d = since(c1, c0);
        assert forall|a: Asg| #[trigger] cnf_true(d, a) && cube_true(s0, a) implies holds(con.op(), u.tot(a), con.bnd() as int) by { assert(t0.hub(a) && t0.hlb(a)); assert(u.hlb(a)); }
        lem_pconstr(con, u, s0, c0, c1, us, n0, n1);
    }
//@end
//@fn src/encodings/pb/mod.rs trait:BoundBoth::encode_eq_constr nopub dyn chains=loop lazy=Clause from_iter=keep tuple_ref fold_ty=usize
//@ret r
    requires bel(lits_of(constr.lits@), old(var_manager).next()), wt(constr.lits@) < usize::MAX,
    ensures r is Ok ==> encoded(vp_eq(constr), old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
        r is Err && r->Err_0 is Unsat ==> pb_unsat(vp_eq(constr).op(), wt(constr.lits@), constr.b as int),
//@sub Self: FromIterator<\(Lit, usize\)> \+ Sized, ==> 
//@sub Self::from_iter\( ==> <Self as PbEnc>::from_iter(
//@sub (\w+)\.\.=(\w+) ==> VxIncl { lo: $1, hi: $2 }
//@sub (?s)enc\.encode_both\((.*?)\)\?; ==> match enc.encode_both($1) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@sub (?s)collector\s*\.extend_clauses\(\{(.*?)in it: (enc\.\w+\(\w+\)\.unwrap\(\))(\.into_iter\(\).*?)\}\)\?; ==> let ghost u = enc; let ghost c1 = collector.cls(); let ghost n1 = var_manager.next(); proof { u.law_ok(n1, c1.len(), n1, c1.len()); assert(vx_has(VxIncl { lo: b, hi: b }, b as int)); } let vx_s = $2; let ghost s0 = vx_s@; let vx_us = {${1}in it: vx_s$3}; let ghost us = vx_us@; match collector.extend_clauses(vx_us) { Ok(_) => {}, Err(e) => { return Err(ConstraintEncodingError::OutOfMemory(e)); } };
//@sub? sum \+ w ==> sum + *w
//@ghost start
    let ghost con = vp_eq(constr);
    let ghost wl = constr.lits@;
    let ghost ls = lits_of(constr.lits@);
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_wt_nonneg(wl); }
//@ghost call encode_both 0 before
    let ghost t0 = enc;
//@loop 0 iter=it
    invariant it.seq().len() == wl.len(), lits@ == wl, forall|i: int| 0 <= i < wl.len() ==> *(#[trigger] it.seq()[i]) == wl[i],
        sum == wt(wl.take(it.index@ as int)), forall|i: int| 0 <= i <= wl.len() ==> 0 <= #[trigger] wt(wl.take(i)) <= wt(wl), wt(wl) < usize::MAX,
//@ghost loop 0 start
    proof { lem_sm_take(wl, it.index@ as int, ft()); assert(wt(wl.take(it.index@ as int + 1)) <= wt(wl)); }
//@ghost loop 0 after
    proof { assert(wl.take(wl.len() as int) =~= wl); }
//@loop 1 iter=it
    invariant it.seq() == s0, units(vx_acc0@, s0.take(it.index@ as int)),
//@ghost loop 1 end
    proof { assert(s0.take(it.index@ + 1) =~= s0.take(it.index@ as int).push(s0[it.index@ as int])); assert(vx_acc0@[it.index@ as int].s() =~= seq![s0[it.index@ as int]]); }
//@ghost loop 1 after
    proof { assert(s0.take(s0.len() as int) =~= s0); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] u.tot(a) == ws(wl, a) by { assert(t0.tot(a) == ws(wl, a)); }
        let d = since(c1, c0);
        assert forall|a: Asg| #[trigger] cnf_true(d, a) && cube_true(s0, a) implies holds(con.op(), u.tot(a), con.bnd() as int) by { assert(t0.hub(a) && t0.hlb(a)); assert(u.hub(a) && u.hlb(a)); }
        lem_pconstr(con, u, s0, c0, c1, us, n0, n1);
    }
//@end
//@fn src/encodings/pb/mod.rs trait:BoundBoth::encode_constr nopub dyn
//@ret r
        requires bel(lits_of(constr.l()), old(var_manager).next()), wt(constr.l()) < usize::MAX,
        ensures r is Ok ==> encoded(constr, old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
            r is Err && r->Err_0 is Unsat ==> pb_unsat(constr.op(), wt(constr.l()), constr.bnd() as int),
//@sub Self: FromIterator<\(Lit, usize\)> \+ Sized, ==> 
//@end
}
impl<E: PbEnc> VxPbEnc for E {}
//@fn src/encodings/pb/mod.rs encode_pb_constraint dyn chains=loop lazy=Clause from_iter=keep
//@ret r
    requires constr.wf(), wt(constr.l()) < usize::MAX, bel(lits_of(constr.l()), old(var_manager).next()),
    ensures r is Ok ==> encoded(constr, old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next()),
//@sub BoundBoth \+ FromIterator<\(Lit, usize\)> ==> VxPbEnc
//@sub return card::default_encode_cardinality_constraint\(card, collector, var_manager\); ==> let ghost gk = card; proof { assert forall|a: Asg| #[trigger] con.ksat(a) == gk.ksat(a) by { assert(gk.sat(a) == con.sat(a)); } } let vx_r = default_encode_cardinality_constraint(card, collector, var_manager); proof { if vx_r is Ok { lem_same_enc(con, gk, c0, collector.cls(), n0, var_manager.next()); } } return vx_r;
//@ghost start
    let ghost con = constr;
    let ghost ls = lits_of(constr.l());
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_kdirect1(con, c0, n0); lem_kown(con); lem_opp_all(); assert forall|a: Asg| #[trigger] con.ksat(a) == con.sat(a) by {} }
//@loop 0 iter=it0
    invariant it0.seq() == con.l(), ls == lits_of(con.l()), units(vx_acc0@, ls.take(it0.index@ as int)),
//@ghost loop 0 end
    proof { let s = ls; let x = it0.index@ as int; assert(s.take(x + 1) =~= s.take(x).push(s[x])); assert(vx_acc0@[x].s() =~= seq![s[x]]); }
//@ghost loop 0 after
    proof { let s = ls; assert(s.take(ls.len() as int) =~= s); lem_kdirect2(con, c0, vx_acc0@, s, n0); }
//@loop 1 iter=it1
    invariant it1.seq() == con.l(), ls == lits_of(con.l()), units(vx_acc1@, opps(ls).take(it1.index@ as int)),
//@ghost loop 1 end
    proof { let s = opps(ls); let x = it1.index@ as int; assert(s.take(x + 1) =~= s.take(x).push(s[x])); assert(vx_acc1@[x].s() =~= seq![s[x]]); }
//@ghost loop 1 after
    proof { let s = opps(ls); assert(s.take(ls.len() as int) =~= s); lem_kdirect2(con, c0, vx_acc1@, s, n0); }
//@end
