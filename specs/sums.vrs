// ---- finite sums over sequences ----
pub open spec fn sm<T>(s: Seq<T>, f: spec_fn(T) -> int) -> int decreases s.len() { if s.len() == 0 { 0 } else { sm(s.drop_last(), f) + f(s.last()) } }
pub proof fn lem_sm_push<T>(s: Seq<T>, x: T, f: spec_fn(T) -> int) ensures sm(s.push(x), f) == sm(s, f) + f(x) { assert(s.push(x).drop_last() =~= s); }
pub proof fn lem_sm_empty<T>(f: spec_fn(T) -> int) ensures sm(Seq::<T>::empty(), f) == 0 { }
pub proof fn lem_sm_add<T>(s: Seq<T>, t: Seq<T>, f: spec_fn(T) -> int) ensures sm(s + t, f) == sm(s, f) + sm(t, f) decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); lem_sm_add(s, t.drop_last(), f); }
}
/// the next element of a loop over the sequence
pub proof fn lem_sm_take<T>(s: Seq<T>, i: int, f: spec_fn(T) -> int) requires 0 <= i < s.len() ensures sm(s.take(i + 1), f) == sm(s.take(i), f) + f(s[i])
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i])); lem_sm_push(s.take(i), s[i], f);
}
/// elementwise comparison, possibly of sequences of different types
pub proof fn lem_sm_eq<T, U>(s: Seq<T>, t: Seq<U>, f: spec_fn(T) -> int, g: spec_fn(U) -> int)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == g(t[i]),
    ensures sm(s, f) == sm(t, g), decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) == g(t.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lem_sm_eq(s.drop_last(), t.drop_last(), f, g); assert(f(s[s.len() - 1]) == g(t[s.len() - 1]));
    }
}
pub proof fn lem_sm_le<T>(s: Seq<T>, f: spec_fn(T) -> int, g: spec_fn(T) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) <= g(s[i]),
    ensures sm(s, f) <= sm(s, g), decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) <= g(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lem_sm_le(s.drop_last(), f, g); assert(f(s[s.len() - 1]) <= g(s[s.len() - 1]));
    }
}
/// f + g == h pointwise
pub proof fn lem_sm_plus<T>(s: Seq<T>, f: spec_fn(T) -> int, g: spec_fn(T) -> int, h: spec_fn(T) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) + g(s[i]) == h(s[i]),
    ensures sm(s, f) + sm(s, g) == sm(s, h), decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) + g(s.drop_last()[i]) == h(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lem_sm_plus(s.drop_last(), f, g, h); assert(f(s[s.len() - 1]) + g(s[s.len() - 1]) == h(s[s.len() - 1]));
    }
}
#[verifier::spinoff_prover]
pub proof fn lem_sm_const<T>(s: Seq<T>, f: spec_fn(T) -> int, c: int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == c,
    ensures sm(s, f) == c * s.len(), decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) == c by { assert(s.drop_last()[i] == s[i]); }
        lem_sm_const(s.drop_last(), f, c); assert(f(s[s.len() - 1]) == c);
        assert(c * (s.len() - 1) + c == c * s.len()) by (nonlinear_arith);
    }
}
/// f == c * g pointwise
#[verifier::spinoff_prover]
pub proof fn lem_sm_scale<T>(s: Seq<T>, f: spec_fn(T) -> int, g: spec_fn(T) -> int, c: int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == c * g(s[i]),
    ensures sm(s, f) == c * sm(s, g), decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) == c * g(s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); }
        lem_sm_scale(s.drop_last(), f, g, c); assert(f(s[s.len() - 1]) == c * g(s[s.len() - 1]));
        let (p, q) = (sm(s.drop_last(), g), g(s.last()));
        assert(c * p + c * q == c * (p + q)) by (nonlinear_arith);
    } else { assert(c * 0 == 0) by (nonlinear_arith); }
}
/// all terms non-negative: any single term is at most the sum, and a sub-sequence sums to at most the whole
pub proof fn lem_sm_nonneg<T>(s: Seq<T>, f: spec_fn(T) -> int)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) >= 0,
    ensures sm(s, f) >= 0, forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) <= sm(s, f), forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] sm(s.take(i), f) <= sm(s, f),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies f(#[trigger] d[i]) >= 0 by { assert(d[i] == s[i]); }
        lem_sm_nonneg(d, f); assert(f(s[s.len() - 1]) >= 0);
        assert forall|i: int| 0 <= i < s.len() implies f(#[trigger] s[i]) <= sm(s, f) by { if i < s.len() - 1 { assert(d[i] == s[i]); assert(f(d[i]) <= sm(d, f)); } }
        assert forall|i: int| 0 <= i <= s.len() implies 0 <= #[trigger] sm(s.take(i), f) <= sm(s, f) by { if i < s.len() { assert(d.take(i) =~= s.take(i)); assert(sm(d.take(i), f) <= sm(d, f)); } else { assert(s.take(i) =~= s); } }
    } else { assert forall|i: int| 0 <= i <= s.len() implies 0 <= #[trigger] sm(s.take(i), f) <= sm(s, f) by { assert(s.take(i) =~= s); } }
}
pub proof fn lem_sm_remove<T>(s: Seq<T>, j: int, f: spec_fn(T) -> int) requires 0 <= j < s.len() ensures sm(s, f) == sm(s.remove(j), f) + f(s[j]) decreases s.len()
{
    if j == s.len() - 1 { assert(s.remove(j) =~= s.drop_last()); }
    else { lem_sm_remove(s.drop_last(), j, f); assert(s.remove(j).drop_last() =~= s.drop_last().remove(j)); assert(s.remove(j).last() == s.last()); }
}
/// the same elements in another order
pub open spec fn same_elems<T>(s: Seq<T>, t: Seq<T>) -> bool { s.to_multiset() == t.to_multiset() }
pub proof fn lem_sm_perm<T>(s: Seq<T>, t: Seq<T>, f: spec_fn(T) -> int) requires same_elems(s, t) ensures sm(s, f) == sm(t, f), s.len() == t.len(), decreases s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.len() == s.to_multiset().len()); assert(t.len() == t.to_multiset().len());
    if s.len() > 0 {
        let x = s.last();
        assert(s.to_multiset().count(x) > 0) by { assert(s.contains(x)); }
        assert(t.contains(x));
        let j = choose|j: int| 0 <= j < t.len() && t[j] == x;
        lem_sm_remove(t, j, f);
        assert(s.drop_last() =~= s.remove(s.len() - 1));
        assert(s.remove(s.len() - 1).to_multiset() =~= s.to_multiset().remove(x));
        assert(t.remove(j).to_multiset() =~= t.to_multiset().remove(x));
        lem_sm_perm(s.drop_last(), t.remove(j), f);
    }
}
