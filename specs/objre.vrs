// ---- collecting and re-indexing objectives ----
pub open spec fn mbel(m: Map<Clause, usize>, n: nat) -> bool { forall|c: Clause| #[trigger] m.contains_key(c) ==> bel(c.s(), n) }
pub open spec fn rcls<R: ReindexVars>(m: R, s: Seq<Clause>, t: Seq<Clause>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> rseq(m, (#[trigger] s[i]).s(), t[i].s()) }
pub open spec fn rwcls<R: ReindexVars>(m: R, s: Seq<(Clause, usize)>, t: Seq<(Clause, usize)>) -> bool { s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> rseq(m, (#[trigger] s[i]).0.s(), t[i].0.s()) && t[i].1 == s[i].1 }
pub proof fn lem_rlit_inj<R: ReindexVars>(m: R, l: Lit, k: Lit) requires m.rinv(), m.mapped(Var::of(l.v())) is Some, m.mapped(Var::of(k.v())) is Some, rlit(m, l) == rlit(m, k) ensures l == k
{
    lem_rlit_tv(m, l, |v: nat| true); lem_rlit_tv(m, k, |v: nat| true);
    m.lem_below(Var::of(l.v())); m.lem_below(Var::of(k.v()));
    let (p, q) = (m.mapped(Var::of(l.v()))->0, m.mapped(Var::of(k.v()))->0);
    lem_mk(p.i(), l.neg()); lem_mk(q.i(), k.neg());
    assert(p.i() == q.i() && l.neg() == k.neg());
    assert(p == q);
    m.lem_inj(Var::of(l.v()), Var::of(k.v()));
    assert(l.v() == k.v());
}
pub proof fn lem_mk(v: nat, n: bool) requires v <= 0x7fff_ffff ensures Lit::mk(v, n).v() == v, Lit::mk(v, n).neg() == n
{ }
pub proof fn lem_rseq_inj<R: ReindexVars>(m: R, s: Seq<Lit>, t: Seq<Lit>, u: Seq<Lit>) requires m.rinv(), rseq(m, s, u), rseq(m, t, u) ensures s == t
{
    reveal(rseq);
    assert forall|i: int| 0 <= i < s.len() implies s[i] == t[i] by { assert(m.mapped(Var::of(s[i].v())) is Some); assert(m.mapped(Var::of(t[i].v())) is Some); lem_rlit_inj(m, s[i], t[i]); }
    assert(s =~= t);
}
/// the image of the next pair is new
pub proof fn lem_rl_push<R: ReindexVars>(m0: R, m: R, s: Seq<(Lit, usize)>, o: Map<Lit, usize>, i: int, t: Seq<(Lit, usize)>, f: Map<Lit, usize>, k: Lit)
    requires m.rinv(), rgrow(m0, m), rwseq(m0, s.take(i), t), pairs_of(t, f), pairs_of(s, o), 0 <= i < s.len(), m.mapped(Var::of(s[i].0.v())) is Some, k == rlit(m, s[i].0),
    ensures rwseq(m, s.take(i + 1), t.push((k, s[i].1))), pairs_of(t.push((k, s[i].1)), f.insert(k, s[i].1)),
{
    lem_rgrow(m0, m); reveal(rwseq);
    let q = (k, s[i].1); let n = t.push(q); let g = f.insert(k, s[i].1); let p = s.take(i); let p1 = s.take(i + 1);
    assert(rwseq(m, p, t));
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 != k by {
        if t[j].0 == k { assert(m.mapped(Var::of(p[j].0.v())) is Some); lem_rlit_inj(m, s[j].0, s[i].0); assert(s[j].0 == s[i].0); assert(o.contains_key(s[j].0) && o.contains_key(s[i].0)); assert(s[j] == s[i]); }
    }
    assert forall|j: int| 0 <= j < p1.len() implies m.mapped(Var::of((#[trigger] p1[j]).0.v())) is Some && n[j].0 == rlit(m, p1[j].0) && n[j].1 == p1[j].1 by { if j < i { assert(p1[j] == p[j]); assert(n[j] == t[j]); } }
    lem_pairs_push(t, f, k, s[i].1);
}
pub proof fn lem_pairs_push<K>(t: Seq<(K, usize)>, f: Map<K, usize>, k: K, w: usize)
    requires pairs_of(t, f), forall|j: int| 0 <= j < t.len() ==> (#[trigger] t[j]).0 != k ensures pairs_of(t.push((k, w)), f.insert(k, w))
{
    let n = t.push((k, w)); let g = f.insert(k, w);
    assert forall|j: int, l: int| 0 <= j < n.len() && 0 <= l < n.len() && j != l implies n[j] != n[l] by { if j < t.len() && l < t.len() { assert(t[j] != t[l]); } else if j < t.len() { assert(t[j].0 != k); } else { assert(t[l].0 != k); } }
    assert forall|j: int| 0 <= j < n.len() implies g.contains_key(#[trigger] n[j].0) && g[n[j].0] == n[j].1 by { if j < t.len() { assert(f.contains_key(t[j].0)); assert(t[j].0 != k); } }
    assert forall|c: K| #[trigger] g.contains_key(c) implies exists|j: int| 0 <= j < n.len() && #[trigger] n[j].0 == c by {
        if c == k { assert(n[t.len() as int].0 == c); } else { assert(f.contains_key(c)); let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].0 == c; assert(n[j] == t[j]); }
    }
}
pub proof fn lem_rc_push<R: ReindexVars>(m0: R, m: R, s: Seq<(Clause, usize)>, o: Map<Clause, usize>, i: int, t: Seq<(Clause, usize)>, f: Map<Clause, usize>, k: Clause)
    requires m.rinv(), rgrow(m0, m), rwcls(m0, s.take(i), t), pairs_of(t, f), pairs_of(s, o), 0 <= i < s.len(), rseq(m, s[i].0.s(), k.s()),
    ensures rwcls(m, s.take(i + 1), t.push((k, s[i].1))), pairs_of(t.push((k, s[i].1)), f.insert(k, s[i].1)),
{
    lem_rgrow(m0, m);
    let q = (k, s[i].1); let n = t.push(q); let p = s.take(i); let p1 = s.take(i + 1);
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).0 != k by {
        if t[j].0 == k { assert(rseq(m0, p[j].0.s(), t[j].0.s())); lem_rseq_inj(m, s[j].0.s(), s[i].0.s(), k.s()); lem_clause_ext(s[j].0, s[i].0); assert(o.contains_key(s[j].0) && o.contains_key(s[i].0)); assert(s[j] == s[i]); }
    }
    assert forall|j: int| 0 <= j < p1.len() implies rseq(m, (#[trigger] p1[j]).0.s(), n[j].0.s()) && n[j].1 == p1[j].1 by { if j < i { assert(p1[j] == p[j]); assert(n[j] == t[j]); assert(rseq(m0, p[j].0.s(), t[j].0.s())); } }
    lem_pairs_push(t, f, k, s[i].1);
}
pub proof fn lem_rl_end<R: ReindexVars>(m: R, s: Seq<(Lit, usize)>, o: Map<Lit, usize>, t: Seq<(Lit, usize)>, f: Map<Lit, usize>)
    requires m.rinv(), rwseq(m, s.take(s.len() as int), t), pairs_of(s, o), pairs_of(t, f), o.dom().finite(), f.dom().finite(),
    ensures forall|a: Asg| #[trigger] ms(f, set_in(a)) == ms(o, set_in(pull(m, a))), ms(f, one()) == ms(o, one()), mlbel(f, m.next()), pos_vals(o) ==> pos_vals(f), forall|l: Lit| #[trigger] o.contains_key(l) ==> m.mapped(Var::of(l.v())) is Some,
{
    assert(s.take(s.len() as int) =~= s); reveal(rwseq);
    assert forall|l: Lit| #[trigger] o.contains_key(l) implies m.mapped(Var::of(l.v())) is Some by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == l; assert(m.mapped(Var::of(s[i].0.v())) is Some); }
    assert forall|a: Asg| #[trigger] ms(f, set_in(a)) == ms(o, set_in(pull(m, a))) by {
        let b = pull(m, a); lem_pairs(s, o, set_in(b)); lem_pairs(t, f, set_in(a));
        assert forall|i: int| 0 <= i < t.len() implies pw(set_in(a))(#[trigger] t[i]) == pw(set_in(b))(s[i]) by { assert(m.mapped(Var::of(s[i].0.v())) is Some); lem_rlit_tv(m, s[i].0, a); }
        lem_sm_eq(t, s, pw(set_in(a)), pw(set_in(b)));
    }
    lem_pairs(s, o, one()); lem_pairs(t, f, one());
    assert forall|i: int| 0 <= i < t.len() implies pw(one::<Lit>())(#[trigger] t[i]) == pw(one::<Lit>())(s[i]) by { assert(m.mapped(Var::of(s[i].0.v())) is Some); }
    lem_sm_eq(t, s, pw(one::<Lit>()), pw(one::<Lit>()));
    assert forall|l: Lit| #[trigger] f.contains_key(l) implies l.v() < m.next() && (pos_vals(o) ==> f[l] > 0) by { let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].0 == l; assert(m.mapped(Var::of(s[j].0.v())) is Some); lem_rlit_tv(m, s[j].0, |v: nat| true); assert(f[t[j].0] == t[j].1); assert(o.contains_key(s[j].0)); }
}
pub proof fn lem_rc_end<R: ReindexVars>(m: R, s: Seq<(Clause, usize)>, o: Map<Clause, usize>, t: Seq<(Clause, usize)>, f: Map<Clause, usize>)
    requires m.rinv(), rwcls(m, s.take(s.len() as int), t), pairs_of(s, o), pairs_of(t, f), o.dom().finite(), f.dom().finite(),
    ensures forall|a: Asg| #[trigger] ms(f, falsified(a)) == ms(o, falsified(pull(m, a))), ms(f, one()) == ms(o, one()), mbel(f, m.next()), pos_vals(o) ==> pos_vals(f), long_keys(o) ==> long_keys(f), forall|c: Clause| #[trigger] o.contains_key(c) ==> lmapped(m, c.s()),
{
    assert(s.take(s.len() as int) =~= s);
    assert forall|c: Clause| #[trigger] o.contains_key(c) implies lmapped(m, c.s()) by { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == c; assert(rseq(m, s[i].0.s(), t[i].0.s())); reveal(rseq); }
    assert forall|a: Asg| #[trigger] ms(f, falsified(a)) == ms(o, falsified(pull(m, a))) by {
        let b = pull(m, a); lem_pairs(s, o, falsified(b)); lem_pairs(t, f, falsified(a));
        assert forall|i: int| 0 <= i < t.len() implies pw(falsified(a))(#[trigger] t[i]) == pw(falsified(b))(s[i]) by { assert(rseq(m, s[i].0.s(), t[i].0.s())); lem_rseq(m, s[i].0.s(), t[i].0.s()); assert(cl_true(t[i].0.s(), a) == cl_true(s[i].0.s(), b)); }
        lem_sm_eq(t, s, pw(falsified(a)), pw(falsified(b)));
    }
    lem_pairs(s, o, one()); lem_pairs(t, f, one());
    assert forall|i: int| 0 <= i < t.len() implies pw(one::<Clause>())(#[trigger] t[i]) == pw(one::<Clause>())(s[i]) by { assert(rseq(m, s[i].0.s(), t[i].0.s())); }
    lem_sm_eq(t, s, pw(one::<Clause>()), pw(one::<Clause>()));
    assert forall|l: Clause| #[trigger] f.contains_key(l) implies bel(l.s(), m.next()) && (pos_vals(o) ==> f[l] > 0) && (long_keys(o) ==> l.s().len() > 1) by {
        let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j].0 == l; assert(rseq(m, s[j].0.s(), t[j].0.s())); lem_rseq(m, s[j].0.s(), t[j].0.s()); assert(f[t[j].0] == t[j].1); assert(o.contains_key(s[j].0)); reveal(rseq); }
}
pub proof fn lem_rv_end<R: ReindexVars>(m: R, s: Seq<Lit>, t: Seq<Lit>) requires m.rinv(), rseq(m, s, t) ensures forall|a: Asg| #[trigger] sm(t, set_in(a)) == sm(s, set_in(pull(m, a))), sm(t, one()) == sm(s, one()), bel(t, m.next()), s.len() == t.len(), lmapped(m, s)
{
    lem_rseq(m, s, t); reveal(rseq);
    assert forall|a: Asg| #[trigger] sm(t, set_in(a)) == sm(s, set_in(pull(m, a))) by {
        assert forall|i: int| 0 <= i < t.len() implies set_in(a)(#[trigger] t[i]) == set_in(pull(m, a))(s[i]) by { assert(m.mapped(Var::of(s[i].v())) is Some); lem_rlit_tv(m, s[i], a); }
        lem_sm_eq(t, s, set_in(a), set_in(pull(m, a)));
    }
    lem_sm_const(s, one(), 1); lem_sm_const(t, one(), 1);
}
pub proof fn lem_rvc_end<R: ReindexVars>(m: R, s: Seq<Clause>, t: Seq<Clause>) requires m.rinv(), rcls(m, s, t)
    ensures forall|a: Asg| #[trigger] sm(t, falsified(a)) == sm(s, falsified(pull(m, a))), sm(t, one()) == sm(s, one()), bnd(t, m.next()), long_cls(s) ==> long_cls(t), s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> lmapped(m, (#[trigger] s[i]).s())
{
    assert forall|i: int| 0 <= i < s.len() implies lmapped(m, (#[trigger] s[i]).s()) by { assert(rseq(m, s[i].s(), t[i].s())); reveal(rseq); }
    assert forall|a: Asg| #[trigger] sm(t, falsified(a)) == sm(s, falsified(pull(m, a))) by {
        assert forall|i: int| 0 <= i < t.len() implies falsified(a)(#[trigger] t[i]) == falsified(pull(m, a))(s[i]) by { lem_rseq(m, s[i].s(), t[i].s()); assert(cl_true(t[i].s(), a) == cl_true(s[i].s(), pull(m, a))); }
        lem_sm_eq(t, s, falsified(a), falsified(pull(m, a)));
    }
    assert forall|i: int| 0 <= i < t.len() implies bel((#[trigger] t[i]).s(), m.next()) && (long_cls(s) ==> t[i].s().len() > 1) by { let x = s[i]; lem_rseq(m, s[i].s(), t[i].s()); reveal(rseq); }
    lem_sm_const(s, one(), 1); lem_sm_const(t, one(), 1);
}
pub proof fn lem_rcls_push<R: ReindexVars>(m0: R, m: R, s: Seq<Clause>, i: int, t: Seq<Clause>, k: Clause) requires rgrow(m0, m), rcls(m0, s.take(i), t), 0 <= i < s.len(), rseq(m, s[i].s(), k.s()) ensures rcls(m, s.take(i + 1), t.push(k))
{ lem_rgrow(m0, m); let (p, q, n) = (s.take(i), s.take(i + 1), t.push(k)); assert forall|j: int| 0 <= j < q.len() implies rseq(m, (#[trigger] q[j]).s(), n[j].s()) by { if j < i { assert(q[j] == p[j]); assert(rseq(m0, p[j].s(), t[j].s())); } } }
pub proof fn lem_rseq_push<R: ReindexVars>(m0: R, m: R, s: Seq<Lit>, i: int, t: Seq<Lit>, k: Lit) requires rgrow(m0, m), rseq(m0, s.take(i), t), 0 <= i < s.len(), m.mapped(Var::of(s[i].v())) is Some, k == rlit(m, s[i]) ensures rseq(m, s.take(i + 1), t.push(k))
{ lem_rgrow(m0, m); reveal(rseq); let (p, q, n) = (s.take(i), s.take(i + 1), t.push(k)); assert(rseq(m, p, t)); assert forall|j: int| 0 <= j < q.len() implies m.mapped(Var::of((#[trigger] q[j]).v())) is Some && n[j] == rlit(m, q[j]) by { if j < i { assert(q[j] == p[j]); assert(n[j] == t[j]); } } }
pub proof fn lem_r0<R: ReindexVars>(m: R, s: Seq<Lit>, ps: Seq<(Lit, usize)>, cs: Seq<Clause>, pc: Seq<(Clause, usize)>)
    ensures rseq(m, s.take(0), Seq::empty()), rwseq(m, ps.take(0), Seq::empty()), rcls(m, cs.take(0), Seq::empty()), rwcls(m, pc.take(0), Seq::empty()),
        s.take(s.len() as int) == s, cs.take(cs.len() as int) == cs, ps.take(ps.len() as int) == ps, pc.take(pc.len() as int) == pc,
        pairs_of(Seq::<(Lit, usize)>::empty(), Map::empty()), pairs_of(Seq::<(Clause, usize)>::empty(), Map::empty()),
{ reveal(rseq); reveal(rwseq); assert(s.take(s.len() as int) =~= s); assert(cs.take(cs.len() as int) =~= cs); assert(ps.take(ps.len() as int) =~= ps); assert(pc.take(pc.len() as int) =~= pc); }
pub proof fn lem_rlit_eq<R: ReindexVars>(m: R, l: Lit, r: Lit) requires m.rinv(), m.mapped(Var::of(l.v())) is Some, r.v() == m.mapped(Var::of(l.v()))->0.i(), r.neg() == l.neg() ensures r == rlit(m, l)
{ m.lem_below(Var::of(l.v())); lem_mk(m.mapped(Var::of(l.v()))->0.i(), l.neg()); }
pub open spec fn lmapped<R: ReindexVars>(m: R, s: Seq<Lit>) -> bool { forall|i: int| 0 <= i < s.len() ==> m.mapped(Var::of((#[trigger] s[i]).v())) is Some }
/// every variable of the objective has an image
pub open spec fn omapped<R: ReindexVars>(m: R, o: Objective) -> bool {
    &&& lmapped(m, o.vl()) && forall|i: int| 0 <= i < o.vc().len() ==> lmapped(m, (#[trigger] o.vc()[i]).s())
    &&& (forall|l: Lit| #[trigger] o.ml().contains_key(l) ==> m.mapped(Var::of(l.v())) is Some) && forall|c: Clause| #[trigger] o.mc().contains_key(c) ==> lmapped(m, c.s())
}
pub proof fn lem_pull_cl<R: ReindexVars>(m: R, n: R, s: Seq<Lit>, a: Asg) requires rgrow(m, n), lmapped(m, s) ensures cl_true(s, pull(m, a)) == cl_true(s, pull(n, a))
{
    assert forall|i: int| 0 <= i < s.len() implies tv(pull(m, a), #[trigger] s[i]) == tv(pull(n, a), s[i]) by { assert(m.mapped(Var::of(s[i].v())) is Some); }
    if cl_true(s, pull(m, a)) { let i = choose|i: int| 0 <= i < s.len() && tv(pull(m, a), #[trigger] s[i]); assert(tv(pull(n, a), s[i])); }
    if cl_true(s, pull(n, a)) { let i = choose|i: int| 0 <= i < s.len() && tv(pull(n, a), #[trigger] s[i]); assert(tv(pull(m, a), s[i])); }
}
/// images added later do not matter
pub proof fn lem_pull_grow<R: ReindexVars>(m: R, n: R, o: Objective) requires rgrow(m, n), omapped(m, o) ensures forall|a: Asg| #[trigger] o.cost(pull(m, a)) == o.cost(pull(n, a))
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    assert forall|a: Asg| #[trigger] o.cost(pull(m, a)) == o.cost(pull(n, a)) by {
        let (p, q) = (pull(m, a), pull(n, a));
        if o.is_w() {
            assert forall|k: Lit| #[trigger] o.ml().contains_key(k) implies set_in(p)(k) == set_in(q)(k) by { assert(m.mapped(Var::of(k.v())) is Some); }
            lem_ms_eq(o.ml(), set_in(p), set_in(q));
            assert forall|k: Clause| #[trigger] o.mc().contains_key(k) implies falsified(p)(k) == falsified(q)(k) by { lem_pull_cl(m, n, k.s(), a); }
            lem_ms_eq(o.mc(), falsified(p), falsified(q));
        } else {
            assert forall|i: int| 0 <= i < o.vl().len() implies set_in(p)(#[trigger] o.vl()[i]) == set_in(q)(o.vl()[i]) by { assert(m.mapped(Var::of(o.vl()[i].v())) is Some); }
            lem_sm_eq(o.vl(), o.vl(), set_in(p), set_in(q));
            assert forall|i: int| 0 <= i < o.vc().len() implies falsified(p)(#[trigger] o.vc()[i]) == falsified(q)(o.vc()[i]) by { lem_pull_cl(m, n, o.vc()[i].s(), a); }
            lem_sm_eq(o.vc(), o.vc(), falsified(p), falsified(q));
        }
    }
}
impl Objective {
//@fn src/instances/opt.rs Objective::reindex chains=loop collect0=map collect1=map collect2=via:vx_clause collect3=vec:Lit collect4=vec:Clause collect5=via:vx_clause
//@ret r
    requires self.wf(), old(reindexer).rinv(),
    // the cost of an assignment of the new variables is the cost of its pre-image
    ensures final(reindexer).rinv(), rgrow(*old(reindexer), *final(reindexer)), r.wf(), r.obel(final(reindexer).next()), r.tot() == self.tot(), r.off() == self.off(), omapped(*final(reindexer), self),
        forall|a: Asg| #[trigger] r.cost(a) == self.cost(pull(*final(reindexer), a)),
//@sub (?s)(IntObj::\w+ \{[^{}]*?\})\s*\.into\(\) ==> Objective::from_int($1)
//@sub for (\w+) in it0: soft_lits\.into_iter\(\) ==> let vx_pl = vx_map_into(soft_lits); proof { pl = vx_pl@; lem_r0(*reindexer, Seq::empty(), pl, Seq::empty(), Seq::empty()); } for $1 in it0: vx_pl
//@sub for (\w+) in it1: soft_clauses\.into_iter\(\) ==> let vx_pc = vx_map_into(soft_clauses); proof { pc = vx_pc@; lem_r0(*reindexer, Seq::empty(), Seq::empty(), Seq::empty(), pc); } for $1 in it1: vx_pc
//@sub cl\.into_iter\(\) ==> cl.lits.into_iter()
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
    let ghost o0 = self;
    let ghost r0 = *reindexer;
    let ghost mut ra = *reindexer;
    let ghost mut pl = Seq::<(Lit, usize)>::empty();
    let ghost mut pc = Seq::<(Clause, usize)>::empty();
    let ghost mut tp = Seq::<(Lit, usize)>::empty();
    let ghost mut tc = Seq::<(Clause, usize)>::empty();
    proof { lem_r0(r0, o0.vl(), Seq::empty(), o0.vc(), Seq::empty()); }
//@loop 0 iter=it0
    invariant obeys_key_model::<Lit>(), it0.seq() == pl, pairs_of(pl, o0.ml()), reindexer.rinv(), rgrow(r0, *reindexer), rwseq(*reindexer, pl.take(it0.index@ as int), tp), pairs_of(tp, vx_acc0@),
//@ghost loop 0 start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (m1, i1, f1) = (*reindexer, it0.index@ as int, vx_acc0@);
//@ghost loop 0 end
    proof { let k = rlit(*reindexer, pl[i1].0); lem_rlit_eq(*reindexer, pl[i1].0, vx_m2.0); lem_rl_push(m1, *reindexer, pl, o0.ml(), i1, tp, f1, k); tp = tp.push((k, pl[i1].1)); }
//@ghost loop 0 after
    proof { ra = *reindexer; }
//@loop 1 iter=it1
    invariant obeys_key_model::<Clause>(), it1.seq() == pc, pairs_of(pc, o0.mc()), reindexer.rinv(), rgrow(r0, *reindexer), rgrow(ra, *reindexer), rwcls(*reindexer, pc.take(it1.index@ as int), tc), pairs_of(tc, vx_acc1@),
//@ghost loop 1 start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost (m1, i1, f1) = (*reindexer, it1.index@ as int, vx_acc1@);
    proof { lem_r0(m1, pc[i1].0.s(), Seq::empty(), Seq::empty(), Seq::empty()); }
//@loop 2 iter=jt1
    invariant jt1.seq() == pc[i1].0.s(), reindexer.rinv(), rgrow(m1, *reindexer), rseq(*reindexer, pc[i1].0.s().take(jt1.index@ as int), vx_acc2@),
//@ghost loop 2 start
    let ghost (m2, f2) = (*reindexer, vx_acc2@);
//@ghost loop 2 end
    proof { let i2 = jt1.index@ as int; let s2 = pc[i1].0.s(); lem_rlit_eq(*reindexer, s2[i2], vx_m6); lem_rseq_push(m2, *reindexer, s2, i2, f2, vx_m6); assert(vx_acc2@ =~= f2.push(vx_m6)); }
//@ghost loop 1 end
    proof { let k = vx_m4.0; lem_rc_push(m1, *reindexer, pc, o0.mc(), i1, tc, f1, k); tc = tc.push((k, pc[i1].1)); }
//@ghost loop 1 after
    proof {
        lem_rgrow(ra, *reindexer);
        lem_rl_end(*reindexer, pl, o0.ml(), tp, soft_lits@); lem_rc_end(*reindexer, pc, o0.mc(), tc, vx_acc1@);
    }
//@loop 3 iter=it3
    invariant it3.seq() == o0.vl(), reindexer.rinv(), rgrow(r0, *reindexer), rseq(*reindexer, o0.vl().take(it3.index@ as int), vx_acc3@),
//@ghost loop 3 start
    let ghost (m2, f2) = (*reindexer, vx_acc3@);
//@ghost loop 3 end
    proof { let i2 = it3.index@ as int; let s2 = o0.vl(); lem_rlit_eq(*reindexer, s2[i2], vx_m8); lem_rseq_push(m2, *reindexer, s2, i2, f2, vx_m8); assert(vx_acc3@ =~= f2.push(vx_m8)); }
//@ghost loop 3 after
    proof { ra = *reindexer; }
//@loop 4 iter=it4
    invariant it4.seq() == o0.vc(), reindexer.rinv(), rgrow(r0, *reindexer), rgrow(ra, *reindexer), rcls(*reindexer, o0.vc().take(it4.index@ as int), vx_acc4@),
//@ghost loop 4 start
    let ghost (m1, i1, f1) = (*reindexer, it4.index@ as int, vx_acc4@);
    proof { lem_r0(m1, o0.vc()[i1].s(), Seq::empty(), Seq::empty(), Seq::empty()); }
//@loop 5 iter=jt4
    invariant jt4.seq() == o0.vc()[i1].s(), reindexer.rinv(), rgrow(m1, *reindexer), rseq(*reindexer, o0.vc()[i1].s().take(jt4.index@ as int), vx_acc5@),
//@ghost loop 5 start
    let ghost (m2, f2) = (*reindexer, vx_acc5@);
//@ghost loop 5 end
    proof { let i2 = jt4.index@ as int; let s2 = o0.vc()[i1].s(); lem_rlit_eq(*reindexer, s2[i2], vx_m12); lem_rseq_push(m2, *reindexer, s2, i2, f2, vx_m12); assert(vx_acc5@ =~= f2.push(vx_m12)); }
//@ghost loop 4 end
    proof { lem_rcls_push(m1, *reindexer, o0.vc(), i1, f1, vx_m10); assert(vx_acc4@ =~= f1.push(vx_m10)); }
//@ghost loop 4 after
    proof {
        lem_rgrow(ra, *reindexer);
        lem_rv_end(*reindexer, o0.vl(), soft_lits@); lem_rvc_end(*reindexer, o0.vc(), vx_acc4@);
    }
//@end
}
