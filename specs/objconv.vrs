// ---- conversions of objectives ----
pub open spec fn unit_cl(l: Lit) -> Seq<Lit> { seq![l.opp()] }
pub proof fn lem_unit_cl(l: Lit, c: Clause, a: Asg) requires c.s() == seq![l.opp()] ensures falsified(a)(c) == set_in(a)(l)
{ lem_opp(l, a); lem_single(); assert(cl_true(seq![l.opp()], a) == tv(a, l.opp())); }
/// the unit clauses of the first soft literals are appended
pub open spec fn with_units(o: Seq<Clause>, s: Seq<Lit>, f: Seq<Clause>) -> bool { forall|a: Asg| #[trigger] sm(f, falsified(a)) == sm(o, falsified(a)) + sm(s, set_in(a)) }
pub proof fn lem_with_units(o: Seq<Clause>, s: Seq<Lit>, i: int, f: Seq<Clause>, c: Clause) requires with_units(o, s.take(i), f), 0 <= i < s.len(), c.s() == seq![s[i].opp()] ensures with_units(o, s.take(i + 1), f.push(c))
{
    assert forall|a: Asg| #[trigger] sm(f.push(c), falsified(a)) == sm(o, falsified(a)) + sm(s.take(i + 1), set_in(a)) by { lem_sm_push(f, c, falsified(a)); lem_sm_take(s, i, set_in(a)); lem_unit_cl(s[i], c, a); assert(sm(f, falsified(a)) == sm(o, falsified(a)) + sm(s.take(i), set_in(a))); }
}
/// the elements paired with a common weight
pub open spec fn paired<K>(s: Seq<K>, u: int, p: Seq<(K, usize)>) -> bool { forall|g: spec_fn(K) -> int| #[trigger] sm(p, pw(g)) == u * sm(s, g) }
pub proof fn lem_paired<K>(s: Seq<K>, i: int, u: usize, p: Seq<(K, usize)>, q: Seq<(K, usize)>) requires paired(s.take(i), u as int, p), 0 <= i < s.len(), q == p.push((s[i], u)) ensures paired(s.take(i + 1), u as int, q)
{
    assert forall|g: spec_fn(K) -> int| #[trigger] sm(q, pw(g)) == u as int * sm(s.take(i + 1), g) by {
        lem_sm_push(p, (s[i], u), pw(g)); lem_sm_take(s, i, g); assert(sm(p, pw(g)) == u as int * sm(s.take(i), g));
        let (x, y, w) = (sm(s.take(i), g), g(s[i]), u as int); assert(w * (x + y) == w * x + w * y) by (nonlinear_arith);
    }
}
pub proof fn lem_paired0<K>(s: Seq<K>, u: int) ensures paired(s.take(0), u, Seq::empty()), s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); assert forall|g: spec_fn(K) -> int| #[trigger] sm(Seq::<(K, usize)>::empty(), pw(g)) == u * sm(s.take(0), g) by { assert(u * 0 == 0) by (nonlinear_arith); } }
pub proof fn lem_with_units0(o: Seq<Clause>, s: Seq<Lit>) ensures with_units(o, s.take(0), o), s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); }
/// unit clauses are new among the clauses with several literals
pub open spec fn munits(o: Map<Clause, usize>, s: Seq<(Lit, usize)>, f: Map<Clause, usize>) -> bool {
    &&& f.dom().finite()
    &&& forall|a: Asg| #[trigger] ms(f, falsified(a)) == ms(o, falsified(a)) + sm(s, pw(set_in(a)))
    &&& forall|c: Clause| #[trigger] f.contains_key(c) ==> c.s().len() > 1 || exists|j: int| 0 <= j < s.len() && c.s() == seq![(#[trigger] s[j]).0.opp()]
}
pub proof fn lem_munits0(o: Map<Clause, usize>, s: Seq<(Lit, usize)>) requires o.dom().finite(), long_keys(o) ensures munits(o, s.take(0), o) {}
pub proof fn lem_munits(o: Map<Clause, usize>, s: Seq<(Lit, usize)>, m: Map<Lit, usize>, i: int, f: Map<Clause, usize>, c: Clause)
    requires munits(o, s.take(i), f), pairs_of(s, m), 0 <= i < s.len(), c.s() == seq![s[i].0.opp()],
    ensures munits(o, s.take(i + 1), f.insert(c, s[i].1)),
{
    let t = s.take(i); let n = f.insert(c, s[i].1);
    lem_opp_all();
    if f.contains_key(c) {
        assert(c.s().len() == 1);
        let j = choose|j: int| 0 <= j < t.len() && c.s() == seq![(#[trigger] t[j]).0.opp()];
        assert(c.s()[0] == t[j].0.opp() && c.s()[0] == s[i].0.opp()); assert(t[j].0.opp().opp() == s[i].0.opp().opp());
        assert(s[j].0 == s[i].0); assert(m.contains_key(s[j].0) && m.contains_key(s[i].0)); assert(s[j] == s[i]);
    }
    assert forall|a: Asg| #[trigger] ms(n, falsified(a)) == ms(o, falsified(a)) + sm(s.take(i + 1), pw(set_in(a))) by {
        lem_ms_insert(f, c, s[i].1, falsified(a)); lem_sm_take(s, i, pw(set_in(a))); lem_unit_cl(s[i].0, c, a);
        assert(ms(f, falsified(a)) == ms(o, falsified(a)) + sm(t, pw(set_in(a))));
    }
    lem_ms_insert(f, c, s[i].1, one());
    let t2 = s.take(i + 1);
    assert forall|d: Clause| #[trigger] n.contains_key(d) implies d.s().len() > 1 || exists|j: int| 0 <= j < t2.len() && d.s() == seq![(#[trigger] t2[j]).0.opp()] by {
        if d == c { assert(t2[i].0 == s[i].0); } else { assert(f.contains_key(d)); if d.s().len() <= 1 { let j = choose|j: int| 0 <= j < t.len() && d.s() == seq![(#[trigger] t[j]).0.opp()]; assert(t2[j] == t[j]); } }
    }
}
pub proof fn lem_munits_all(o: Map<Clause, usize>, s: Seq<(Lit, usize)>, m: Map<Lit, usize>, i: int, f: Map<Clause, usize>)
    requires munits(o, s.take(i), f), pairs_of(s, m), 0 <= i < s.len(),
    ensures forall|c: Clause| c.s() =~= seq![s[i].0.opp()] ==> munits(o, s.take(i + 1), #[trigger] f.insert(c, s[i].1)),
{ assert forall|c: Clause| c.s() =~= seq![s[i].0.opp()] implies munits(o, s.take(i + 1), #[trigger] f.insert(c, s[i].1)) by { lem_munits(o, s, m, i, f, c); } }
/// the pairs of the extended map have the cost of the objective
pub proof fn lem_munits_end(o: Map<Clause, usize>, s: Seq<(Lit, usize)>, m: Map<Lit, usize>, f: Map<Clause, usize>)
    requires munits(o, s.take(s.len() as int), f), pairs_of(s, m), m.dom().finite(),
    ensures forall|a: Asg, q: Seq<(Clause, usize)>| pairs_of(q, f) ==> #[trigger] sm(q, pw(falsified(a))) == ms(o, falsified(a)) + ms(m, set_in(a)),
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|a: Asg, q: Seq<(Clause, usize)>| pairs_of(q, f) implies #[trigger] sm(q, pw(falsified(a))) == ms(o, falsified(a)) + ms(m, set_in(a)) by {
        lem_pairs(q, f, falsified(a)); lem_pairs(s, m, set_in(a)); assert(ms(f, falsified(a)) == ms(o, falsified(a)) + sm(s, pw(set_in(a))));
    }
}
pub proof fn lem_units_paired(o: Seq<Clause>, s: Seq<Lit>, f: Seq<Clause>, u: int, p: Seq<(Clause, usize)>)
    requires with_units(o, s, f), paired(f, u, p),
    ensures forall|a: Asg| #[trigger] sm(p, pw(falsified(a))) == u * sm(o, falsified(a)) + u * sm(s, set_in(a)),
{
    assert forall|a: Asg| #[trigger] sm(p, pw(falsified(a))) == u * sm(o, falsified(a)) + u * sm(s, set_in(a)) by {
        assert(sm(p, pw(falsified(a))) == u * sm(f, falsified(a))); assert(sm(f, falsified(a)) == sm(o, falsified(a)) + sm(s, set_in(a)));
        let (x, y) = (sm(o, falsified(a)), sm(s, set_in(a))); assert(u * (x + y) == u * x + u * y) by (nonlinear_arith);
    }
}
impl Objective {
//@fn src/instances/opt.rs Objective::into_soft_cls chains=loop impl_ret=Vec<(Clause,usize)> collect0=vec:(Clause,usize) from_iter=keep loops=3
//@ret r
    requires self.wf(),
    // the cost is the offset plus the weights of the falsified clauses
    ensures forall|a: Asg| #[trigger] self.cost(a) == r.1 + sm(r.0@, pw(falsified(a))),
//@sub Vec::from_iter\(soft_clauses\) ==> vx_map_into(soft_clauses)
//@sub for (\w+) in it2: soft_lits\b ==> let vx_pl = vx_map_into(soft_lits); let ghost pl = vx_pl@; proof { lem_munits0(o0.mc(), pl); } for $1 in it2: vx_pl
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
    let ghost o0 = self;
    proof { lem_with_units0(o0.vc(), o0.vl()); }
//@loop 0 iter=it
    invariant it.seq() == o0.vl(), with_units(o0.vc(), o0.vl().take(it.index@ as int), soft_clauses@), o0.wf(), o0.vl().len() > 0 ==> unit_weight is Some, unit_weight is None ==> soft_clauses@.len() == 0,
//@ghost loop 0 start
    let ghost s1 = soft_clauses@;
//@ghost loop 0 end
    proof { let n = soft_clauses@; assert(n.last().s() =~= seq![o0.vl()[it.index@ as int].opp()]); lem_with_units(o0.vc(), o0.vl(), it.index@ as int, s1, n.last()); assert(s1.push(n.last()) =~= n); }
//@ghost loop 0 after
    let ghost c1 = soft_clauses@;
    proof { lem_paired0(c1, o0.un()); }
//@loop 1 iter=it1
    invariant it1.seq() == c1, paired(c1.take(it1.index@ as int), o0.un(), vx_acc0@), unit_weight is None ==> c1.len() == 0, o0.un() == unit_of(unit_weight),
//@ghost loop 1 start
    let ghost p1 = vx_acc0@;
//@ghost loop 1 end
    proof { lem_paired(c1, it1.index@ as int, unit_weight->0, p1, vx_acc0@); }
//@ghost loop 1 after
    proof { lem_units_paired(o0.vc(), o0.vl(), c1, o0.un(), vx_acc0@); }
//@loop 2 iter=it2
    invariant obeys_key_model::<Clause>(), it2.seq() == pl, pairs_of(pl, o0.ml()), munits(o0.mc(), pl.take(it2.index@ as int), soft_clauses@),
//@ghost loop 2 start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { lem_munits_all(o0.mc(), pl, o0.ml(), it2.index@ as int, soft_clauses@); }
//@ghost loop 2 after
    proof { lem_munits_end(o0.mc(), pl, o0.ml(), soft_clauses@); }
//@end
}
// ---- soft clauses to soft literals ----
impl Objective {
    /// every variable lies below n
    pub open spec fn obel(&self, n: nat) -> bool {
        match self.0 {
            IntObj::Weighted { soft_lits, soft_clauses, .. } => mlbel(soft_lits@, n) && forall|c: Clause| #[trigger] soft_clauses@.contains_key(c) ==> bel(c.s(), n),
            IntObj::Unweighted { soft_lits, soft_clauses, .. } => bel(soft_lits@, n) && bnd(soft_clauses@, n),
        }
    }
}
pub open spec fn mlbel(m: Map<Lit, usize>, n: nat) -> bool { forall|l: Lit| #[trigger] m.contains_key(l) ==> l.v() < n }
/// clause j of the formula is soft clause j relaxed by the fresh literal j
pub open spec fn relaxed(n0: nat, n1: nat, rs: Seq<(Lit, usize)>, pc: Seq<(Clause, usize)>, cnf: Seq<Clause>) -> bool {
    &&& rs.len() == pc.len() && pc.len() == cnf.len() && n0 <= n1
    &&& forall|j: int| 0 <= j < pc.len() ==> rlx(n0, n1, #[trigger] rs[j], pc[j], cnf[j])
    &&& forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).0.v() < (#[trigger] rs[j]).0.v()
}
pub open spec fn rlx(n0: nat, n1: nat, r: (Lit, usize), p: (Clause, usize), c: Clause) -> bool { c.s() == p.0.s().push(r.0) && bel(p.0.s(), n0) && n0 <= r.0.v() < n1 && !r.0.neg() && r.1 == p.1 }
pub proof fn lem_rlx_push(n0: nat, n1: nat, n2: nat, rs: Seq<(Lit, usize)>, pc: Seq<(Clause, usize)>, cnf: Seq<Clause>, r: (Lit, usize), p: (Clause, usize), c: Clause)
    requires relaxed(n0, n1, rs, pc, cnf), n1 <= r.0.v() < n2, c.s() == p.0.s().push(r.0), bel(p.0.s(), n0), !r.0.neg(), r.1 == p.1
    ensures relaxed(n0, n2, rs.push(r), pc.push(p), cnf.push(c))
{
    let (a, b, d) = (rs.push(r), pc.push(p), cnf.push(c));
    assert forall|j: int| 0 <= j < b.len() implies rlx(n0, n2, #[trigger] a[j], b[j], d[j]) by { if j < pc.len() { assert(rlx(n0, n1, rs[j], pc[j], cnf[j])); } }
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies (#[trigger] a[i]).0.v() < (#[trigger] a[j]).0.v() by { if j < rs.len() { assert(rs[i].0.v() < rs[j].0.v()); } else { assert(rlx(n0, n1, rs[i], pc[i], cnf[i])); } }
}
/// the relaxation literals set to what the clauses need
pub open spec fn rext(rs: Seq<(Lit, usize)>, pc: Seq<(Clause, usize)>, a: Asg) -> Asg {
    |v: nat| if exists|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).0.v() == v { let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).0.v() == v; !cl_true(pc[j].0.s(), a) } else { a(v) }
}
pub proof fn lem_rext(n0: nat, n1: nat, rs: Seq<(Lit, usize)>, pc: Seq<(Clause, usize)>, cnf: Seq<Clause>, a: Asg, j: int)
    requires relaxed(n0, n1, rs, pc, cnf), 0 <= j < rs.len(),
    ensures tv(rext(rs, pc, a), rs[j].0) == !cl_true(pc[j].0.s(), a), agree(a, rext(rs, pc, a), n0),
{
    let e = rext(rs, pc, a);
    assert forall|i: nat| i < n0 implies #[trigger] a(i) == e(i) by { if exists|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).0.v() == i { let j = choose|j: int| 0 <= j < rs.len() && (#[trigger] rs[j]).0.v() == i; assert(rlx(n0, n1, rs[j], pc[j], cnf[j])); } }
    let v = rs[j].0.v();
    let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).0.v() == v;
    assert(k == j) by { if k < j { assert(rs[k].0.v() < rs[j].0.v()); } else if j < k { assert(rs[j].0.v() < rs[k].0.v()); } }
    assert(rlx(n0, n1, rs[j], pc[j], cnf[j]));
}
pub proof fn lem_cl_push(s: Seq<Lit>, l: Lit, a: Asg) ensures cl_true(s.push(l), a) == (cl_true(s, a) || tv(a, l))
{
    let t = s.push(l);
    if cl_true(s, a) { let i = choose|i: int| 0 <= i < s.len() && tv(a, #[trigger] s[i]); assert(t[i] == s[i]); }
    if tv(a, l) { assert(t[s.len() as int] == l); }
    if cl_true(t, a) { let i = choose|i: int| 0 <= i < t.len() && tv(a, #[trigger] t[i]); if i < s.len() { assert(s[i] == t[i]); } }
}
/// paying for the relaxation literals costs at least as much as the falsified clauses, and exactly as much in one extension
pub proof fn lem_relax(n0: nat, n1: nat, rs: Seq<(Lit, usize)>, pc: Seq<(Clause, usize)>, cnf: Seq<Clause>, a: Asg)
    requires relaxed(n0, n1, rs, pc, cnf),
    ensures cnf_true(cnf, a) ==> sm(rs, pw(set_in(a))) >= sm(pc, pw(falsified(a))),
        ({ let e = rext(rs, pc, a); agree(a, e, n0) && cnf_true(cnf, e) && sm(rs, pw(set_in(e))) == sm(pc, pw(falsified(a))) }),
        bnd(cnf, n1),
{
    let e = rext(rs, pc, a);
    if rs.len() == 0 { assert(agree(a, e, n0)); }
    assert forall|j: int| 0 <= j < rs.len() implies pw(set_in(e))(#[trigger] rs[j]) == pw(falsified(a))(pc[j]) && cl_true(cnf[j].s(), e) by {
        assert(rlx(n0, n1, rs[j], pc[j], cnf[j])); lem_rext(n0, n1, rs, pc, cnf, a, j); lem_cl_push(pc[j].0.s(), rs[j].0, e); lem_cl_agree(pc[j].0.s(), n0, a, e);
    }
    if rs.len() > 0 { lem_rext(n0, n1, rs, pc, cnf, a, 0); }
    lem_sm_eq(rs, pc, pw(set_in(e)), pw(falsified(a)));
    assert forall|j: int| 0 <= j < cnf.len() implies cl_true((#[trigger] cnf[j]).s(), e) by { let x = rs[j]; assert(pw(set_in(e))(rs[j]) == pw(falsified(a))(pc[j])); }
    if cnf_true(cnf, a) {
        assert forall|j: int| 0 <= j < rs.len() implies pw(set_in(a))(#[trigger] rs[j]) >= pw(falsified(a))(pc[j]) by {
            assert(rlx(n0, n1, rs[j], pc[j], cnf[j])); assert(cl_true(cnf[j].s(), a)); lem_cl_push(pc[j].0.s(), rs[j].0, a);
            let (w, x, y) = (rs[j].1 as int, set_in(a)(rs[j].0), falsified(a)(pc[j].0)); assert(w * x >= w * y) by (nonlinear_arith) requires x >= y, w >= 0;
        }
        lem_sm_ge2(rs, pc, pw(set_in(a)), pw(falsified(a)));
    }
    assert forall|j: int| 0 <= j < cnf.len() implies bel((#[trigger] cnf[j]).s(), n1) by { let x = rs[j]; assert(rlx(n0, n1, rs[j], pc[j], cnf[j]));
        assert forall|k: int| 0 <= k < cnf[j].s().len() implies (#[trigger] cnf[j].s()[k]).v() < n1 by { if k < pc[j].0.s().len() { assert(cnf[j].s()[k] == pc[j].0.s()[k]); } } }
}
pub proof fn lem_sm_ge2<T, U>(s: Seq<T>, t: Seq<U>, f: spec_fn(T) -> int, g: spec_fn(U) -> int)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) >= g(t[i]), ensures sm(s, f) >= sm(t, g), decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) >= g(t.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } lem_sm_ge2(s.drop_last(), t.drop_last(), f, g); assert(f(s[s.len() - 1]) >= g(t[t.len() - 1])); } }
/// what the conversion guarantees: no solution of the hard clauses costs less than before, and every assignment can be completed to one of the same cost
pub open spec fn conv_ok(o: Objective, f: Objective, cnf: Seq<Clause>, n0: nat, n1: nat) -> bool {
    &&& forall|a: Asg| #[trigger] cnf_true(cnf, a) ==> f.cost(a) >= o.cost(a)
    &&& forall|a: Asg| #![trigger o.cost(a)] exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(cnf, e) && f.cost(e) == o.cost(a)
    &&& bnd(cnf, n1)
}
pub proof fn lem_oconv(o: Objective, f: Objective, cnf: Seq<Clause>, n0: nat, n1: nat, rs: Seq<(Lit, usize)>, pc: Seq<(Clause, usize)>)
    requires relaxed(n0, n1, rs, pc, cnf), o.obel(n0), f.off() == o.off(),
        forall|g: spec_fn(Lit) -> int| #[trigger] f.ls(g) == o.ls(g) + sm(rs, pw(g)), forall|h: spec_fn(Clause) -> int| #[trigger] o.cs(h) == sm(pc, pw(h)), forall|h: spec_fn(Clause) -> int| #[trigger] f.cs(h) == 0,
    ensures conv_ok(o, f, cnf, n0, n1), f.ls(one()) == o.tot(),
{
    assert forall|a: Asg| #[trigger] cnf_true(cnf, a) implies f.cost(a) >= o.cost(a) by { lem_relax(n0, n1, rs, pc, cnf, a); assert(f.ls(set_in(a)) == o.ls(set_in(a)) + sm(rs, pw(set_in(a)))); assert(o.cs(falsified(a)) == sm(pc, pw(falsified(a)))); }
    assert forall|a: Asg| #![trigger o.cost(a)] exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(cnf, e) && f.cost(e) == o.cost(a) by {
        let e = rext(rs, pc, a);
        lem_relax(n0, n1, rs, pc, cnf, a); lem_ls_agree(o, n0, a, e);
        assert(f.ls(set_in(e)) == o.ls(set_in(e)) + sm(rs, pw(set_in(e)))); assert(o.cs(falsified(a)) == sm(pc, pw(falsified(a)))); assert(f.cs(falsified(e)) == 0);
        assert(cnf_true(cnf, e));
    }
    lem_relax(n0, n1, rs, pc, cnf, |v: nat| true);
    assert forall|j: int| 0 <= j < rs.len() implies pw(one::<Lit>())(#[trigger] rs[j]) == pw(one::<Clause>())(pc[j]) by { assert(rlx(n0, n1, rs[j], pc[j], cnf[j])); }
    lem_sm_eq(rs, pc, pw(one::<Lit>()), pw(one::<Clause>()));
    assert(f.ls(one()) == o.ls(one()) + sm(rs, pw(one()))); assert(o.cs(one()) == sm(pc, pw(one())));
}
pub proof fn lem_ms_eq<K>(m: Map<K, usize>, g: spec_fn(K) -> int, h: spec_fn(K) -> int)
    requires m.dom().finite(), forall|k: K| #[trigger] m.contains_key(k) ==> g(k) == h(k) ensures ms(m, g) == ms(m, h) decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let c = m.dom().choose(); assert(m.dom().contains(c)); assert(m.contains_key(c)); assert(m.remove(c).dom() =~= m.dom().remove(c));
        assert forall|k: K| #[trigger] m.remove(c).contains_key(k) implies g(k) == h(k) by { assert(m.contains_key(k)); }
        lem_ms_eq(m.remove(c), g, h);
    }
}
pub proof fn lem_ls_agree(o: Objective, n: nat, a: Asg, b: Asg) requires o.obel(n), agree(a, b, n) ensures o.ls(set_in(a)) == o.ls(set_in(b))
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    if o.is_w() {
        assert forall|k: Lit| #[trigger] o.ml().contains_key(k) implies set_in(a)(k) == set_in(b)(k) by { assert(k.v() < n); }
        lem_ms_eq(o.ml(), set_in(a), set_in(b));
    } else {
        assert forall|i: int| 0 <= i < o.vl().len() implies set_in(a)(#[trigger] o.vl()[i]) == set_in(b)(o.vl()[i]) by { assert(o.vl()[i].v() < n); }
        lem_sm_eq(o.vl(), o.vl(), set_in(a), set_in(b));
    }
}
/// fresh soft literals are added
pub open spec fn mgrown(o: Map<Lit, usize>, rs: Seq<(Lit, usize)>, f: Map<Lit, usize>, n: nat) -> bool { f.dom().finite() && pos_vals(f) && mlbel(f, n) && forall|g: spec_fn(Lit) -> int| #[trigger] ms(f, g) == ms(o, g) + sm(rs, pw(g)) }
pub proof fn lem_mgrown(o: Map<Lit, usize>, rs: Seq<(Lit, usize)>, f: Map<Lit, usize>, n: nat, l: Lit, w: usize, n2: nat)
    requires mgrown(o, rs, f, n), n <= l.v() < n2, w > 0
    ensures mgrown(o, rs.push((l, w)), f.insert(l, w), n2)
{
    let t = f.insert(l, w);
    lem_ms_insert(f, l, w, one());
    assert(!f.contains_key(l));
    assert forall|k: Lit| #[trigger] t.contains_key(k) implies t[k] > 0 && k.v() < n2 by { if k != l { assert(f.contains_key(k)); } }
    assert forall|g: spec_fn(Lit) -> int| #[trigger] ms(t, g) == ms(o, g) + sm(rs.push((l, w)), pw(g)) by { lem_ms_insert(f, l, w, g); lem_sm_push(rs, (l, w), pw(g)); assert(ms(f, g) == ms(o, g) + sm(rs, pw(g))); let x = g(l); assert((w - 0) * x == w * x); }
}
pub open spec fn vgrown(o: Seq<Lit>, u: int, rs: Seq<(Lit, usize)>, f: Seq<Lit>, n: nat) -> bool { bel(f, n) && forall|g: spec_fn(Lit) -> int| #[trigger] (u * sm(f, g)) == u * sm(o, g) + sm(rs, pw(g)) }
pub proof fn lem_vgrown(o: Seq<Lit>, u: usize, rs: Seq<(Lit, usize)>, f: Seq<Lit>, n: nat, l: Lit, n2: nat)
    requires vgrown(o, u as int, rs, f, n), n <= l.v() < n2
    ensures vgrown(o, u as int, rs.push((l, u)), f.push(l), n2)
{
    let t = f.push(l);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() < n2 by { if i < f.len() { assert(t[i] == f[i]); assert(f[i].v() < n); } }
    assert forall|g: spec_fn(Lit) -> int| #[trigger] (u as int * sm(t, g)) == u as int * sm(o, g) + sm(rs.push((l, u)), pw(g)) by {
        lem_sm_push(f, l, g); lem_sm_push(rs, (l, u), pw(g)); assert(u as int * sm(f, g) == u as int * sm(o, g) + sm(rs, pw(g)));
        let (x, y, w) = (sm(f, g), g(l), u as int); assert(w * (x + y) == w * x + w * y) by (nonlinear_arith);
    }
}
/// all with the same weight
pub open spec fn weigh<K>(s: Seq<K>, u: usize) -> Seq<(K, usize)> { Seq::new(s.len(), |i: int| (s[i], u)) }
pub proof fn lem_weigh<K>(s: Seq<K>, u: usize, g: spec_fn(K) -> int) ensures sm(weigh(s, u), pw(g)) == u * sm(s, g) decreases s.len()
{
    let w = weigh(s, u);
    if s.len() > 0 { assert(w.drop_last() =~= weigh(s.drop_last(), u)); lem_weigh(s.drop_last(), u, g); let (x, y, v) = (sm(s.drop_last(), g), g(s.last()), u as int); assert(v * (x + y) == v * x + v * y) by (nonlinear_arith); }
    else { assert(u as int * 0 == 0) by (nonlinear_arith); }
}
impl Objective {
//@fn src/instances/opt.rs Objective::convert_to_soft_lits
//@ret r
    requires old(self).wf(), old(self).obel(old(var_manager).next()),
    ensures final(self).wf(), final(self).off() == old(self).off(), forall|h: spec_fn(Clause) -> int| #[trigger] final(self).cs(h) == 0, final(self).ls(one()) == old(self).tot(),
        final(var_manager).next() >= old(var_manager).next(), final(self).obel(final(var_manager).next()),
        conv_ok(*old(self), *final(self), r.c(), old(var_manager).next(), final(var_manager).next()), final(self).is_w() == old(self).is_w(),
        final(self).mc() == Map::<Clause, usize>::empty(), final(self).vc().len() == 0,
//@sub for (\w+) in it: soft_clauses\.drain\(\) ==> let vx_pc = vx_map_drain(soft_clauses); let ghost pc = vx_pc@; proof { assert(pc.take(0) =~= Seq::empty()); } for $1 in it: vx_pc
//@sub soft_clauses\.drain\(\.\.\) ==> vx_drain(soft_clauses)
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
    let ghost o0 = *self;
    let ghost n0 = var_manager.next();
    let ghost mut rs = Seq::<(Lit, usize)>::empty();
    let ghost u = o0.un() as usize;
//@loop 0 iter=it
    invariant obeys_key_model::<Lit>(), it.seq() == pc, pairs_of(pc, o0.mc()), o0.wf(), o0.obel(n0), o0.is_w(), relaxed(n0, var_manager.next(), rs, pc.take(it.index@ as int), cnf.c()), mgrown(o0.ml(), rs, soft_lits@, var_manager.next()),
//@ghost loop 0 start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (m1, k1, c1, i1) = (soft_lits@, var_manager.next(), cnf.c(), it.index@ as int);
    proof { assert(o0.mc().contains_key(pc[i1].0)); }
//@ghost loop 0 end
    proof {
        lem_rlx_push(n0, k1, var_manager.next(), rs, pc.take(i1), c1, (relax_lit, w), pc[i1], cnf.c().last());
        lem_mgrown(o0.ml(), rs, m1, k1, relax_lit, w, var_manager.next());
        assert(pc.take(i1 + 1) =~= pc.take(i1).push(pc[i1]));
        assert(c1.push(cnf.c().last()) =~= cnf.c());
        rs = rs.push((relax_lit, w));
    }
//@ghost loop 0 after
    proof {
        assert(pc.take(pc.len() as int) =~= pc);
        lem_ms_empty::<Clause>(one());
        assert forall|h: spec_fn(Clause) -> int| #[trigger] o0.cs(h) == sm(pc, pw(h)) by { lem_pairs(pc, o0.mc(), h); }
        assert forall|f: Objective| f.is_w() && f.off() == o0.off() && f.ml() == soft_lits@ && f.mc() == Map::<Clause, usize>::empty() implies #[trigger] f.ls(one()) == o0.tot() && conv_ok(o0, f, cnf.c(), n0, var_manager.next()) && (forall|h: spec_fn(Clause) -> int| #[trigger] f.cs(h) == 0) by {
            assert forall|g: spec_fn(Lit) -> int| #[trigger] f.ls(g) == o0.ls(g) + sm(rs, pw(g)) by { }
            assert forall|h: spec_fn(Clause) -> int| #[trigger] f.cs(h) == 0 by { lem_ms_empty::<Clause>(h); }
            lem_oconv(o0, f, cnf.c(), n0, var_manager.next(), rs, pc);
        }
    }
//@loop 1 iter=it1
    invariant it1.seq() == o0.vc(), o0.wf(), o0.obel(n0), !(o0.is_w()), relaxed(n0, var_manager.next(), rs, weigh(o0.vc(), u).take(it1.index@ as int), cnf.c()), vgrown(o0.vl(), u as int, rs, soft_lits@, var_manager.next()),
        o0.vc().len() == 0 ==> soft_lits@ == o0.vl(),
//@ghost loop 1 before
    proof { assert(weigh(o0.vc(), u).take(0) =~= Seq::empty()); }
//@ghost loop 1 start
    let ghost (m1, k1, c1, i1) = (soft_lits@, var_manager.next(), cnf.c(), it1.index@ as int);
    let ghost wc = weigh(o0.vc(), u);
    proof { assert(wc[i1] == (o0.vc()[i1], u)); }
//@ghost loop 1 end
    proof {
        lem_rlx_push(n0, k1, var_manager.next(), rs, wc.take(i1), c1, (relax_lit, u), wc[i1], cnf.c().last());
        lem_vgrown(o0.vl(), u, rs, m1, k1, relax_lit, var_manager.next());
        assert(wc.take(i1 + 1) =~= wc.take(i1).push(wc[i1]));
        assert(c1.push(cnf.c().last()) =~= cnf.c());
        rs = rs.push((relax_lit, u));
    }
//@ghost loop 1 after
    proof {
        let pc = weigh(o0.vc(), u);
        assert(pc.take(pc.len() as int) =~= pc);
        assert forall|h: spec_fn(Clause) -> int| #[trigger] o0.cs(h) == sm(pc, pw(h)) by { lem_weigh(o0.vc(), u, h); }
        assert forall|f: Objective| !(f.is_w()) && f.off() == o0.off() && f.vl() == soft_lits@ && f.vc().len() == 0 && f.un() == u implies #[trigger] f.ls(one()) == o0.tot() && conv_ok(o0, f, cnf.c(), n0, var_manager.next()) && (forall|h: spec_fn(Clause) -> int| #[trigger] f.cs(h) == 0) by {
            assert forall|g: spec_fn(Lit) -> int| #[trigger] f.ls(g) == o0.ls(g) + sm(rs, pw(g)) by { assert(u as int * sm(soft_lits@, g) == u as int * sm(o0.vl(), g) + sm(rs, pw(g))); }
            assert forall|h: spec_fn(Clause) -> int| #[trigger] f.cs(h) == 0 by { lem_sm_empty(h); assert(f.vc() =~= Seq::empty()); assert(u as int * 0 == 0) by (nonlinear_arith); }
            lem_oconv(o0, f, cnf.c(), n0, var_manager.next(), rs, pc);
        }
    }
//@end
}
/// the conversion, for any description of the resulting costs
pub open spec fn conv_to(o: Objective, f: spec_fn(Asg) -> int, cnf: Seq<Clause>, n0: nat, n1: nat) -> bool {
    &&& forall|a: Asg| #[trigger] cnf_true(cnf, a) ==> f(a) >= o.cost(a)
    &&& forall|a: Asg| #[trigger] reached(o, f, cnf, n0, a)
    &&& bnd(cnf, n1)
}
/// an extension of the assignment satisfies the hard clauses at the same cost
pub open spec fn reached(o: Objective, f: spec_fn(Asg) -> int, cnf: Seq<Clause>, n0: nat, a: Asg) -> bool { exists|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(cnf, e) && f(e) == o.cost(a) }
pub proof fn lem_conv_to(o: Objective, f: Objective, cnf: Seq<Clause>, n0: nat, n1: nat) requires conv_ok(o, f, cnf, n0, n1) ensures forall|c: spec_fn(Asg) -> int| (forall|a: Asg| #[trigger] c(a) == f.cost(a)) ==> #[trigger] conv_to(o, c, cnf, n0, n1)
{
    assert forall|c: spec_fn(Asg) -> int| (forall|a: Asg| #[trigger] c(a) == f.cost(a)) implies #[trigger] conv_to(o, c, cnf, n0, n1) by {
        assert forall|a: Asg| #[trigger] cnf_true(cnf, a) implies c(a) >= o.cost(a) by { assert(c(a) == f.cost(a)); }
        assert forall|a: Asg| #[trigger] reached(o, c, cnf, n0, a) by { let x = o.cost(a); assert(x == o.cost(a)); let e = choose|e: Asg| agree(a, e, n0) && #[trigger] cnf_true(cnf, e) && f.cost(e) == o.cost(a); assert(c(e) == f.cost(e)); }
    }
}
/// without weights nothing is left to convert
pub proof fn lem_conv_none(o: Objective, n0: nat, n1: nat) requires o.tot() == 0 ensures forall|c: spec_fn(Asg) -> int| (forall|a: Asg| #[trigger] c(a) == o.off()) ==> #[trigger] conv_to(o, c, Seq::<Clause>::empty(), n0, n1)
{
    lem_ls_le(&o, one(), one()); lem_cs_le(&o, one(), one());
    assert forall|a: Asg| #[trigger] o.cost(a) == o.off() by { lem_ls_le(&o, set_in(a), one()); lem_cs_le(&o, falsified(a), one()); }
    assert forall|c: spec_fn(Asg) -> int| (forall|a: Asg| #[trigger] c(a) == o.off()) implies #[trigger] conv_to(o, c, Seq::<Clause>::empty(), n0, n1) by {
        assert forall|a: Asg| #[trigger] reached(o, c, Seq::<Clause>::empty(), n0, a) by { assert(agree(a, a, n0)); assert(cnf_true(Seq::<Clause>::empty(), a)); assert(c(a) == o.off()); }
        assert forall|a: Asg| #[trigger] cnf_true(Seq::<Clause>::empty(), a) implies c(a) >= o.cost(a) by { assert(c(a) == o.off()); }
    }
}
pub proof fn lem_conv_add(u: int) ensures forall|x: int, y: int| #[trigger] (u * (x + y)) == u * x + u * y { assert forall|x: int, y: int| #[trigger] (u * (x + y)) == u * x + u * y by { assert(u * (x + y) == u * x + u * y) by (nonlinear_arith); } }
pub open spec fn lits_cost(m: Map<Lit, usize>, off: int) -> spec_fn(Asg) -> int { |a: Asg| off + ms(m, set_in(a)) }
pub open spec fn units_cost(s: Seq<Lit>, u: int, off: int) -> spec_fn(Asg) -> int { |a: Asg| off + u * sm(s, set_in(a)) }
impl Objective {
//@fn src/instances/opt.rs Objective::into_unweighted_soft_cls impl_ret=Vec<Clause> loops=1
//@ret r
    requires self.wf(), self.tot() <= usize::MAX,
    ensures forall|a: Asg| #[trigger] self.cost(a) == r.2 + r.1 * sm(r.0@, falsified(a)),
//@ghost call weighted_2_unweighted 0 after
    let ghost o1 = vx_self;
    proof { lem_with_units0(o1.vc(), o1.vl());
        assert forall|a: Asg| #[trigger] self.cost(a) == o1.cost(a) by { assert(o1.ls(set_in(a)) == self.ls(set_in(a))); assert(o1.cs(falsified(a)) == self.cs(falsified(a))); }
        lem_conv_add(o1.un()); }
//@loop 0 iter=it
    invariant it.seq() == o1.vl(), with_units(o1.vc(), o1.vl().take(it.index@ as int), soft_clauses@),
//@ghost loop 0 start
    let ghost s1 = soft_clauses@;
//@ghost loop 0 end
    proof { let n = soft_clauses@; assert(n.last().s() =~= seq![o1.vl()[it.index@ as int].opp()]); lem_with_units(o1.vc(), o1.vl(), it.index@ as int, s1, n.last()); assert(s1.push(n.last()) =~= n); }
//@ghost end
    proof {
        assert forall|a: Asg| #[trigger] self.cost(a) == vx_tail.2 + vx_tail.1 * sm(vx_tail.0@, falsified(a)) by {
            let (x, y) = (sm(o1.vc(), falsified(a)), sm(o1.vl(), set_in(a)));
            assert(self.cost(a) == o1.cost(a));
            assert(o1.un() * (y + x) == o1.un() * y + o1.un() * x);
            if o1.un() == 0 { lem_sm_empty(falsified(a)); assert(vx_tail.0@ =~= Seq::empty()); assert(0 * x == 0 && 0 * y == 0 && 1int * 0 == 0); }
        }
    }
//@end
//@fn src/instances/opt.rs Objective::into_soft_lits impl_ret=RsHashMap<Lit,usize>
//@ret r
    requires self.wf(), self.obel(old(var_manager).next()), self.tot() <= usize::MAX,
    ensures final(var_manager).next() >= old(var_manager).next(), mlbel(r.1.0@, final(var_manager).next()),
        conv_to(self, lits_cost(r.1.0@, r.1.1 as int), r.0.c(), old(var_manager).next(), final(var_manager).next()),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
//@ghost call convert_to_soft_lits 0 after
    let ghost o1 = vx_self;
    proof { assert(o1.cs(one()) == 0); }
//@ghost call unweighted_2_weighted 0 after
    let ghost o2 = vx_self;
    proof {
        assert(o2.cs(one()) == o1.cs(one())); lem_ms_pos(o2.mc()); assert(o2.mc().dom() =~= Set::empty()); assert(o2.obel(var_manager.next()));
        lem_conv_to(self, o1, cnf.c(), old(var_manager).next(), var_manager.next());
        assert forall|a: Asg| #[trigger] lits_cost(o2.ml(), o2.off())(a) == o1.cost(a) by { assert(o2.ls(set_in(a)) == o1.ls(set_in(a))); assert(o1.cs(falsified(a)) == 0); }
        assert(conv_to(self, lits_cost(o2.ml(), o2.off()), cnf.c(), old(var_manager).next(), var_manager.next()));
    }
//@end
//@fn src/instances/opt.rs Objective::into_unweighted_soft_lits impl_ret=Vec<Lit> loops=1
//@ret r
    requires self.wf(), self.obel(old(var_manager).next()), self.tot() <= usize::MAX,
    ensures final(var_manager).next() >= old(var_manager).next(), 
        conv_to(self, units_cost(r.1@, r.2 as int, r.3 as int), r.0.c(), old(var_manager).next(), final(var_manager).next()),
//@sub for (\w+) in it: soft_lits\b ==> let vx_pl = vx_map_into(soft_lits); let ghost pl = vx_pl@; proof { lem_unrolled0(pl, o1.ml()); } for $1 in it: vx_pl
//@sub soft_unit_lits\.resize\( ==> soft_unit_lits.vx_grow(
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
//@ghost call convert_to_soft_lits 0 after
    let ghost o1 = vx_self;
    proof {
        assert(o1.cs(one()) == 0);
        lem_conv_to(self, o1, cnf.c(), old(var_manager).next(), var_manager.next());
        if o1.is_w() { lem_ms_le(o1.ml(), one(), one()); }
        if !(o1.is_w()) {
            assert forall|a: Asg| #[trigger] units_cost(o1.vl(), o1.un(), o1.off())(a) == o1.cost(a) by { assert(o1.cs(falsified(a)) == 0); }
            assert(conv_to(self, units_cost(o1.vl(), o1.un(), o1.off()), cnf.c(), old(var_manager).next(), var_manager.next()));
        }
        if !(o1.is_w()) && o1.un() == 0 {
            lem_chg_v(o1.vl(), arbitrary(), o1.un());
            lem_conv_none(self, old(var_manager).next(), var_manager.next());
            assert forall|a: Asg| #[trigger] units_cost(Seq::empty(), 1, o1.off())(a) == o1.off() by { lem_sm_empty(set_in(a)); }
            assert(conv_to(self, units_cost(Seq::empty(), 1, o1.off()), Seq::empty(), old(var_manager).next(), var_manager.next()));
        }
    }
//@ghost end
    proof { if vx_tail.1@.len() == 0 { assert(vx_tail.1@ =~= Seq::empty()); } if vx_tail.0.c().len() == 0 { assert(vx_tail.0.c() =~= Seq::empty()); } }
//@loop 0 iter=it
    invariant it.seq() == pl, pairs_of(pl, o1.ml()), o1.ml().dom().finite(), ms(o1.ml(), one()) <= usize::MAX, unrolled(soft_unit_lits@, pl.take(it.index@ as int), o1.ml()),
//@ghost loop 0 start
    proof { lem_unrolled(soft_unit_lits@, pl, it.index@ as int, o1.ml()); }
//@ghost loop 0 after
    proof { lem_unrolled_end(soft_unit_lits@, pl, o1.ml());
        assert forall|a: Asg| #[trigger] units_cost(soft_unit_lits@, 1, o1.off())(a) == o1.cost(a) by { assert(sm(soft_unit_lits@, set_in(a)) == ms(o1.ml(), set_in(a))); assert(o1.cs(falsified(a)) == 0); }
        assert(conv_to(self, units_cost(soft_unit_lits@, 1, o1.off()), cnf.c(), old(var_manager).next(), var_manager.next())); }
//@end
}
