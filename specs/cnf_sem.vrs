// ---- sequences of clauses ----
pub open spec fn cnf_true(c: Seq<Clause>, s: Asg) -> bool { forall|i: int| 0 <= i < c.len() ==> cl_true((#[trigger] c[i]).s(), s) }
pub open spec fn cnf_mentions(c: Seq<Clause>, x: Seq<Lit>, y: Seq<Lit>) -> bool { forall|i: int| 0 <= i < c.len() ==> mentions((#[trigger] c[i]).s(), x, y) }
pub proof fn lem_mention_sub(r: Seq<Lit>, x: Seq<Lit>, y: Seq<Lit>, x2: Seq<Lit>, y2: Seq<Lit>)
    requires mentions(r, x, y), forall|i: int| 0 <= i < x.len() ==> has(x2, #[trigger] x[i]), forall|i: int| 0 <= i < y.len() ==> has(y2, #[trigger] y[i]),
    ensures mentions(r, x2, y2),
{
    assert forall|i: int| 0 <= i < r.len() implies var_in((#[trigger] r[i]).v(), x2) || var_in(r[i].v(), y2) by {
        if var_in(r[i].v(), x) { let j = choose|j: int| 0 <= j < x.len() && #[trigger] x[j].v() == r[i].v(); assert(has(x2, x[j])); let k = choose|k: int| 0 <= k < x2.len() && #[trigger] x2[k] == x[j]; assert(x2[k].v() == r[i].v()); }
        else { let j = choose|j: int| 0 <= j < y.len() && #[trigger] y[j].v() == r[i].v(); assert(has(y2, y[j])); let k = choose|k: int| 0 <= k < y2.len() && #[trigger] y2[k] == y[j]; assert(y2[k].v() == r[i].v()); }
    }
}
pub proof fn lem_has_self(x: Seq<Lit>) ensures forall|i: int| 0 <= i < x.len() ==> has(x, #[trigger] x[i]), forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < 1 ==> has(x, #[trigger] seq![x[i]][j])
{
    assert forall|i: int| 0 <= i < x.len() implies has(x, #[trigger] x[i]) by {}
}
/// one clause per literal of the clause x: x1 -> y, .., xn -> y
pub proof fn lem_clause_impl(x: Seq<Lit>, y: Seq<Lit>, c: Seq<Clause>)
    requires c.len() == x.len(), forall|i: int| 0 <= i < c.len() ==> is_impl(seq![x[i]], y, (#[trigger] c[i]).s()),
    ensures forall|s: Asg| #[trigger] cnf_true(c, s) <==> (cl_true(x, s) ==> cl_true(y, s)), cnf_mentions(c, x, y),
{
    lem_single();
    lem_has_self(y);
    assert forall|i: int| 0 <= i < c.len() implies mentions((#[trigger] c[i]).s(), x, y) && (forall|s: Asg| #[trigger] cl_true(c[i].s(), s) <==> (cube_true(seq![x[i]], s) ==> cl_true(y, s))) by {
        lem_impl(seq![x[i]], y, c[i].s());
        assert(has(x, x[i]));
        lem_mention_sub(c[i].s(), seq![x[i]], y, x, y);
    }
    assert forall|s: Asg| #[trigger] cnf_true(c, s) <==> (cl_true(x, s) ==> cl_true(y, s)) by {
        if cnf_true(c, s) && cl_true(x, s) {
            let i = choose|i: int| 0 <= i < x.len() && tv(s, #[trigger] x[i]);
            assert(cl_true(c[i].s(), s)); assert(cube_true(seq![x[i]], s));
        }
        if cl_true(x, s) ==> cl_true(y, s) {
            assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), s) by {
                if cube_true(seq![x[i]], s) { assert(tv(s, x[i])); }
            }
        }
    }
}
/// one clause per literal of the cube y: x -> y1, .., x -> ym
pub proof fn lem_impl_cube(x: Seq<Lit>, y: Seq<Lit>, c: Seq<Clause>)
    requires c.len() == y.len(), forall|i: int| 0 <= i < c.len() ==> is_impl(x, seq![y[i]], (#[trigger] c[i]).s()),
    ensures forall|s: Asg| #[trigger] cnf_true(c, s) <==> (cube_true(x, s) ==> cube_true(y, s)), cnf_mentions(c, x, y),
        forall|b: Lit, s: Asg| #[trigger] cube_true(seq![b], s) <==> tv(s, b),
{
    lem_single();
    lem_has_self(x);
    assert forall|i: int| 0 <= i < c.len() implies mentions((#[trigger] c[i]).s(), x, y) && (forall|s: Asg| #[trigger] cl_true(c[i].s(), s) <==> (cube_true(x, s) ==> tv(s, y[i]))) by {
        lem_impl(x, seq![y[i]], c[i].s());
        assert(has(y, y[i]));
        lem_mention_sub(c[i].s(), x, seq![y[i]], x, y);
        assert forall|s: Asg| #[trigger] cl_true(c[i].s(), s) <==> (cube_true(x, s) ==> tv(s, y[i])) by { assert(cl_true(seq![y[i]], s) <==> tv(s, y[i])); }
    }
    assert forall|s: Asg| #[trigger] cnf_true(c, s) <==> (cube_true(x, s) ==> cube_true(y, s)) by {
        if cnf_true(c, s) && cube_true(x, s) {
            assert forall|i: int| 0 <= i < y.len() implies tv(s, #[trigger] y[i]) by { assert(cl_true(c[i].s(), s)); }
        }
        if cube_true(x, s) ==> cube_true(y, s) {
            assert forall|i: int| 0 <= i < c.len() implies cl_true((#[trigger] c[i]).s(), s) by {
                if cube_true(x, s) { assert(tv(s, y[i])); }
            }
        }
    }
}
// ---- row-major indices of the cross product ----
pub open spec fn at(i: int, n: nat, j: int) -> int { i * n + j }
pub open spec fn cross(x: Seq<Lit>, y: Seq<Lit>, r: Seq<Lit>) -> bool {
    exists|i: int, j: int| 0 <= i < x.len() && 0 <= j < y.len() && is_impl(seq![#[trigger] x[i]], seq![#[trigger] y[j]], r)
}
pub proof fn lem_at(i: int, m: int, n: nat, j: int)
    requires 0 <= i < m, 0 <= j < n,
    ensures 0 <= at(i, n, j) < m * n,
{
    assert(i * n + j < m * n) by (nonlinear_arith) requires 0 <= i < m, 0 <= j < n;
    assert(0 <= i * n) by (nonlinear_arith) requires 0 <= i, 0 <= n;
}
pub proof fn lem_at_next(m: int, n: nat) ensures at(m, n, n as int) == (m + 1) * n { assert(m * n + n == (m + 1) * n) by (nonlinear_arith); }
pub proof fn lem_clause_cube(x: Seq<Lit>, y: Seq<Lit>, c: Seq<Clause>)
    requires c.len() == x.len() * y.len(),
        forall|i: int, j: int| 0 <= i < x.len() && 0 <= j < y.len() ==> is_impl(seq![x[i]], seq![#[trigger] y[j]], c[#[trigger] at(i, y.len(), j)].s()),
        forall|k: int| 0 <= k < c.len() ==> cross(x, y, #[trigger] c[k].s()),
    ensures forall|s: Asg| #[trigger] cnf_true(c, s) <==> (cl_true(x, s) ==> cube_true(y, s)), cnf_mentions(c, x, y),
{
    lem_single();
    assert forall|k: int| 0 <= k < c.len() implies mentions((#[trigger] c[k]).s(), x, y) by {
        let (i, j) = choose|i: int, j: int| 0 <= i < x.len() && 0 <= j < y.len() && is_impl(seq![#[trigger] x[i]], seq![#[trigger] y[j]], c[k].s());
        lem_impl(seq![x[i]], seq![y[j]], c[k].s());
        assert(has(x, x[i])); assert(has(y, y[j]));
        lem_mention_sub(c[k].s(), seq![x[i]], seq![y[j]], x, y);
    }
    assert forall|s: Asg| #[trigger] cnf_true(c, s) <==> (cl_true(x, s) ==> cube_true(y, s)) by {
        if cnf_true(c, s) && cl_true(x, s) {
            let i = choose|i: int| 0 <= i < x.len() && tv(s, #[trigger] x[i]);
            assert forall|j: int| 0 <= j < y.len() implies tv(s, #[trigger] y[j]) by {
                lem_at(i, x.len() as int, y.len(), j);
                lem_impl(seq![x[i]], seq![y[j]], c[at(i, y.len(), j)].s());
                assert(cl_true(c[at(i, y.len(), j)].s(), s)); assert(cube_true(seq![x[i]], s)); assert(cl_true(seq![y[j]], s));
            }
        }
        if cl_true(x, s) ==> cube_true(y, s) {
            assert forall|k: int| 0 <= k < c.len() implies cl_true((#[trigger] c[k]).s(), s) by {
                assert(cross(x, y, c[k].s()));
                let (i, j) = choose|i: int, j: int| 0 <= i < x.len() && 0 <= j < y.len() && is_impl(seq![#[trigger] x[i]], seq![#[trigger] y[j]], c[k].s());
                lem_impl(seq![x[i]], seq![y[j]], c[k].s());
                if cube_true(seq![x[i]], s) { assert(tv(s, x[i])); assert(tv(s, y[j])); assert(cl_true(seq![y[j]], s)); }
            }
        }
    }
}
