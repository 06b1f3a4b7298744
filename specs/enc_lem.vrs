// ---- formulas over original and fresh variables ----
pub open spec fn agree(a: Asg, b: Asg, n: nat) -> bool { forall|i: nat| i < n ==> #[trigger] a(i) == b(i) }
/// all variables of the literals are below n
pub open spec fn bel(s: Seq<Lit>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() < n }
pub open spec fn bnd(c: Seq<Clause>, n: nat) -> bool { forall|i: int| 0 <= i < c.len() ==> bel((#[trigger] c[i]).s(), n) }
/// all variables are input variables or fresh ones
pub open spec fn vok(s: Seq<Lit>, x: Seq<Lit>, n0: nat, n1: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> var_in((#[trigger] s[i]).v(), x) || n0 <= s[i].v() < n1 }
pub open spec fn cok(c: Seq<Clause>, x: Seq<Lit>, n0: nat, n1: nat) -> bool { forall|i: int| 0 <= i < c.len() ==> vok((#[trigger] c[i]).s(), x, n0, n1) }
/// what has been collected since c0
pub open spec fn since(c1: Seq<Clause>, c0: Seq<Clause>) -> Seq<Clause> { c1.skip(c0.len() as int) }
pub proof fn lem_since(c0: Seq<Clause>, c1: Seq<Clause>, d: Seq<Clause>)
    requires c0.len() <= c1.len(),
    ensures since(c1 + d, c0) == since(c1, c0) + d, since(c0 + d, c0) == d, since(c0, c0) == Seq::<Clause>::empty(),
        c1 == c0 + since(c1, c0) ==> c1 + d == c0 + (since(c1, c0) + d), c0 == c0 + since(c0, c0),
{
    assert(since(c1 + d, c0) =~= since(c1, c0) + d);
    assert(since(c0 + d, c0) =~= d);
    assert(since(c0, c0) =~= Seq::<Clause>::empty());
    assert(c0 =~= c0 + since(c0, c0));
    if c1 == c0 + since(c1, c0) { assert(c1 + d =~= c0 + (since(c1, c0) + d)); }
}
pub proof fn lem_since_all(c0: Seq<Clause>, c1: Seq<Clause>)
    requires c1 == c0 + since(c1, c0), c0.len() <= c1.len(),
    ensures forall|d: Seq<Clause>| #![trigger c1 + d] since(c1 + d, c1) == d && since(c1 + d, c0) == since(c1, c0) + d && c1 + d == c0 + (since(c1, c0) + d),
{ assert forall|d: Seq<Clause>| #![trigger c1 + d] since(c1 + d, c1) == d && since(c1 + d, c0) == since(c1, c0) + d && c1 + d == c0 + (since(c1, c0) + d) by { lem_since(c0, c1, d); lem_since(c1, c1, d); } }
pub proof fn lem_cnf_add(c: Seq<Clause>, d: Seq<Clause>, a: Asg) ensures cnf_true(c + d, a) == (cnf_true(c, a) && cnf_true(d, a))
{
    let s = c + d;
    if cnf_true(s, a) {
        assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), a) by { assert(s[i] == c[i]); }
        assert forall|i: int| 0 <= i < d.len() implies cl_true((#[trigger] d[i]).s(), a) by { assert(s[c.len() + i] == d[i]); }
    }
    if cnf_true(c, a) && cnf_true(d, a) {
        assert forall|i: int| 0 <= i < s.len() implies cl_true((#[trigger] s[i]).s(), a) by { if i < c.len() { assert(s[i] == c[i]); } else { assert(s[i] == d[i - c.len()]); } }
    }
}
pub proof fn lem_cnf_add_all(c: Seq<Clause>, d: Seq<Clause>) ensures forall|a: Asg| #[trigger] cnf_true(c + d, a) == (cnf_true(c, a) && cnf_true(d, a))
{ assert forall|a: Asg| #[trigger] cnf_true(c + d, a) == (cnf_true(c, a) && cnf_true(d, a)) by { lem_cnf_add(c, d, a); } }
pub proof fn lem_cl_agree(s: Seq<Lit>, n: nat, a: Asg, b: Asg) requires bel(s, n), agree(a, b, n) ensures cl_true(s, a) == cl_true(s, b)
{
    if cl_true(s, a) { let i = choose|i: int| 0 <= i < s.len() && tv(a, #[trigger] s[i]); assert(a(s[i].v()) == b(s[i].v())); assert(tv(b, s[i])); }
    if cl_true(s, b) { let i = choose|i: int| 0 <= i < s.len() && tv(b, #[trigger] s[i]); assert(a(s[i].v()) == b(s[i].v())); assert(tv(a, s[i])); }
}
pub proof fn lem_cnf_agree(c: Seq<Clause>, n: nat, a: Asg, b: Asg) requires bnd(c, n), agree(a, b, n) ensures cnf_true(c, a) == cnf_true(c, b)
{ assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), a) == cl_true(c[i].s(), b) by { lem_cl_agree(c[i].s(), n, a, b); } }
pub proof fn lem_bnd_add(c: Seq<Clause>, d: Seq<Clause>, n: nat, m: nat) requires bnd(c, n), bnd(d, m), n <= m ensures bnd(c + d, m)
{
    let s = c + d;
    assert forall|i: int| 0 <= i < s.len() implies bel((#[trigger] s[i]).s(), m) by { if i < c.len() { assert(s[i] == c[i]); } else { assert(s[i] == d[i - c.len()]); } }
}
pub proof fn lem_cok_add(c: Seq<Clause>, d: Seq<Clause>, x: Seq<Lit>, n0: nat, n: nat, m: nat) requires cok(c, x, n0, n), cok(d, x, n0, m), n <= m ensures cok(c + d, x, n0, m)
{
    let s = c + d;
    assert forall|i: int| 0 <= i < s.len() implies vok((#[trigger] s[i]).s(), x, n0, m) by { if i < c.len() { assert(s[i] == c[i]); } else { assert(s[i] == d[i - c.len()]); } }
}
/// clauses over literals each of which is an input or fresh
pub open spec fn lok(l: Lit, x: Seq<Lit>, n0: nat, n1: nat) -> bool { var_in(l.v(), x) || n0 <= l.v() < n1 }
pub proof fn lem_mention_ok(c: Seq<Clause>, y: Seq<Lit>, z: Seq<Lit>, x: Seq<Lit>, n0: nat, n1: nat)
    requires cnf_mentions(c, y, z), forall|i: int| 0 <= i < y.len() ==> lok(#[trigger] y[i], x, n0, n1), forall|i: int| 0 <= i < z.len() ==> lok(#[trigger] z[i], x, n0, n1),
    ensures cok(c, x, n0, n1),
{
    assert forall|i: int| 0 <= i < c.len() implies vok((#[trigger] c[i]).s(), x, n0, n1) by { lem_mention_vok(c[i].s(), y, z, x, n0, n1); }
}
pub proof fn lem_mention_vok(s: Seq<Lit>, y: Seq<Lit>, z: Seq<Lit>, x: Seq<Lit>, n0: nat, n1: nat)
    requires mentions(s, y, z), forall|i: int| 0 <= i < y.len() ==> lok(#[trigger] y[i], x, n0, n1), forall|i: int| 0 <= i < z.len() ==> lok(#[trigger] z[i], x, n0, n1),
    ensures vok(s, x, n0, n1),
{
    assert forall|k: int| 0 <= k < s.len() implies var_in((#[trigger] s[k]).v(), x) || n0 <= s[k].v() < n1 by {
        let v = s[k].v();
        if var_in(v, y) { let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j].v() == v; assert(lok(y[j], x, n0, n1)); }
        else { let j = choose|j: int| 0 <= j < z.len() && #[trigger] z[j].v() == v; assert(lok(z[j], x, n0, n1)); }
    }
}
pub proof fn lem_cok_bnd(c: Seq<Clause>, x: Seq<Lit>, n0: nat, n1: nat) requires cok(c, x, n0, n1), bel(x, n0), n0 <= n1 ensures bnd(c, n1)
{
    assert forall|i: int| 0 <= i < c.len() implies bel((#[trigger] c[i]).s(), n1) by {
        let s = c[i].s();
        assert(vok(s, x, n0, n1));
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).v() < n1 by { if var_in(s[k].v(), x) { let j = choose|j: int| 0 <= j < x.len() && #[trigger] x[j].v() == s[k].v(); assert(x[j].v() < n0); } }
    }
}
/// sub-formula over fresh inputs seen from the outside
pub proof fn lem_cok_sub(c: Seq<Clause>, y: Seq<Lit>, m0: nat, m1: nat, x: Seq<Lit>, n0: nat)
    requires cok(c, y, m0, m1), n0 <= m0, forall|i: int| 0 <= i < y.len() ==> lok(#[trigger] y[i], x, n0, m1),
    ensures cok(c, x, n0, m1),
{
    assert forall|i: int| 0 <= i < c.len() implies vok((#[trigger] c[i]).s(), x, n0, m1) by {
        let s = c[i].s();
        assert(vok(s, y, m0, m1));
        assert forall|k: int| 0 <= k < s.len() implies var_in((#[trigger] s[k]).v(), x) || n0 <= s[k].v() < m1 by {
            if var_in(s[k].v(), y) { let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j].v() == s[k].v(); assert(lok(y[j], x, n0, m1)); }
        }
    }
}
pub proof fn lem_tv_agree(l: Lit, n: nat, a: Asg, b: Asg) requires agree(a, b, n), l.v() < n ensures tv(a, l) == tv(b, l) {}
pub proof fn lem_cnf_push(c: Seq<Clause>, d: Clause, a: Asg) ensures cnf_true(c.push(d), a) == (cnf_true(c, a) && cl_true(d.s(), a))
{ assert(c.push(d) =~= c + seq![d]); lem_cnf_add(c, seq![d], a); let q = seq![d]; assert(q[0] == d); }
pub proof fn lem_cnf_push_all(c: Seq<Clause>, d: Clause) ensures forall|a: Asg| #[trigger] cnf_true(c.push(d), a) == (cnf_true(c, a) && cl_true(d.s(), a))
{ assert forall|a: Asg| #[trigger] cnf_true(c.push(d), a) == (cnf_true(c, a) && cl_true(d.s(), a)) by { lem_cnf_push(c, d, a); } }
pub proof fn lem_cok_push(c: Seq<Clause>, d: Clause, x: Seq<Lit>, n0: nat, n: nat) requires cok(c, x, n0, n), vok(d.s(), x, n0, n) ensures cok(c.push(d), x, n0, n)
{
    let s = c.push(d);
    assert forall|i: int| 0 <= i < s.len() implies vok((#[trigger] s[i]).s(), x, n0, n) by { if i < c.len() { assert(s[i] == c[i]); } else { assert(s[i] == d); } }
}
