// ---- weighted sums over hash maps ----
/// sum of weight times g over the entries of a map
pub open spec fn ms<K>(m: Map<K, usize>, g: spec_fn(K) -> int) -> int decreases m.dom().len() when m.dom().finite()
{ if m.dom().len() == 0 { 0 } else { let k = m.dom().choose(); ms(m.remove(k), g) + m[k] as int * g(k) } }
pub open spec fn wt_of<K>(m: Map<K, usize>, k: K) -> int { if m.contains_key(k) { m[k] as int } else { 0 } }
pub proof fn lem_ms_remove<K>(m: Map<K, usize>, k: K, g: spec_fn(K) -> int)
    requires m.dom().finite(), m.contains_key(k),
    ensures ms(m, g) == ms(m.remove(k), g) + m[k] as int * g(k),
    decreases m.dom().len(),
{
    let c = m.dom().choose();
    assert(m.dom().contains(k));
    assert(m.dom().len() > 0);
    assert(m.dom().contains(c));
    if c != k {
        assert(m.remove(c).dom() =~= m.dom().remove(c)); assert(m.remove(k).dom() =~= m.dom().remove(k));
        lem_ms_remove(m.remove(c), k, g);
        lem_ms_remove(m.remove(k), c, g);
        assert(m.remove(c).remove(k) =~= m.remove(k).remove(c));
    }
}
pub proof fn lem_ms_insert<K>(m: Map<K, usize>, k: K, w: usize, g: spec_fn(K) -> int)
    requires m.dom().finite(),
    ensures ms(m.insert(k, w), g) == ms(m, g) + (w - wt_of(m, k)) * g(k), m.insert(k, w).dom().finite(),
{
    let n = m.insert(k, w);
    lem_ms_remove(n, k, g);
    let (p, q, r) = (w as int, wt_of(m, k), g(k));
    assert((p - q) * r == p * r - q * r) by (nonlinear_arith);
    if m.contains_key(k) { lem_ms_remove(m, k, g); assert(n.remove(k) =~= m.remove(k)); } else { assert(n.remove(k) =~= m); assert(q * r == 0) by (nonlinear_arith) requires q == 0; }
}
pub proof fn lem_ms_del<K>(m: Map<K, usize>, k: K, g: spec_fn(K) -> int)
    requires m.dom().finite(),
    ensures ms(m.remove(k), g) == ms(m, g) - wt_of(m, k) * g(k), m.remove(k).dom().finite(),
{
    if m.contains_key(k) { lem_ms_remove(m, k, g); } else { assert(m.remove(k) =~= m); let r = g(k); assert(0 * r == 0) by (nonlinear_arith); }
}
pub proof fn lem_ms_empty<K>(g: spec_fn(K) -> int) ensures ms(Map::<K, usize>::empty(), g) == 0, Map::<K, usize>::empty().dom().finite() { assert(Map::<K, usize>::empty().dom() =~= Set::empty()); }
/// the pairs of a map, in any order
pub open spec fn pairs_of<K>(s: Seq<(K, usize)>, m: Map<K, usize>) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key(#[trigger] s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k
}
pub open spec fn pw<K>(g: spec_fn(K) -> int) -> spec_fn((K, usize)) -> int { |p: (K, usize)| p.1 as int * g(p.0) }
pub proof fn lem_pairs<K>(s: Seq<(K, usize)>, m: Map<K, usize>, g: spec_fn(K) -> int)
    requires m.dom().finite(), pairs_of(s, m),
    ensures ms(m, g) == sm(s, pw(g)),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(m.dom() =~= Set::empty()) by { assert forall|k: K| !m.dom().contains(k) by { if m.contains_key(k) { } } }
    } else {
        let t = s.drop_last(); let p = s.last();
        assert(m.contains_key(s[s.len() - 1].0));
        lem_ms_remove(m, p.0, g);
        let n = m.remove(p.0);
        assert forall|i: int| 0 <= i < t.len() implies n.contains_key(#[trigger] t[i].0) && n[t[i].0] == t[i].1 by {
            assert(t[i] == s[i]); assert(m.contains_key(s[i].0));
            if t[i].0 == p.0 { assert(s[i].1 == m[s[i].0]); assert(s[i] == p); assert(s[i] == s[s.len() - 1]); }
        }
        assert forall|k: K| #[trigger] n.contains_key(k) implies exists|i: int| 0 <= i < t.len() && #[trigger] t[i].0 == k by {
            assert(m.contains_key(k)); let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i].0 == k; assert(t[i] == s[i]);
        }
        assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); } }
        lem_pairs(t, n, g);
    }
}
pub proof fn lem_ms_zero<K>(m: Map<K, usize>, g: spec_fn(K) -> int) requires m.dom().finite(), forall|k: K| #[trigger] m.contains_key(k) ==> g(k) == 0 ensures ms(m, g) == 0 decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let c = m.dom().choose(); assert(m.dom().contains(c)); assert(m.contains_key(c));
        assert(m.remove(c).dom() =~= m.dom().remove(c));
        assert forall|k: K| #[trigger] m.remove(c).contains_key(k) implies g(k) == 0 by { assert(m.contains_key(k)); }
        lem_ms_zero(m.remove(c), g);
        let w = m[c] as int; assert(w * 0 == 0) by (nonlinear_arith);
    }
}
pub proof fn lem_ms_le<K>(m: Map<K, usize>, g: spec_fn(K) -> int, h: spec_fn(K) -> int)
    requires m.dom().finite(), forall|k: K| 0 <= #[trigger] g(k) <= h(k) ensures 0 <= ms(m, g) <= ms(m, h) decreases m.dom().len()
{
    if m.dom().len() > 0 {
        let c = m.dom().choose(); assert(m.dom().contains(c));
        assert(m.remove(c).dom() =~= m.dom().remove(c));
        lem_ms_le(m.remove(c), g, h);
        let (w, p, q) = (m[c] as int, g(c), h(c));
        assert(0 <= w * p <= w * q) by (nonlinear_arith) requires 0 <= w, 0 <= p <= q;
    }
}
// ---- trusted: hash map and vector operations of the standard library ----
/// *m.entry(k).or_default() += w
#[verifier::external_body]
pub fn vx_map_add<K: std::hash::Hash + Eq>(m: &mut RsHashMap<K, usize>, k: K, w: usize)
    requires wt_of(old(m)@, k) + w <= usize::MAX,
    ensures final(m)@ == old(m)@.insert(k, (wt_of(old(m)@, k) + w) as usize),
{ *m.entry(k).or_default() += w }
#[verifier::external_body]
pub fn vx_map_into<K: std::hash::Hash + Eq>(m: RsHashMap<K, usize>) -> (r: Vec<(K, usize)>) ensures pairs_of(r@, m@)
{ m.into_iter().collect() }
pub open spec fn deref_pairs<K>(s: Seq<(&K, &usize)>) -> Seq<(K, usize)> { Seq::new(s.len(), |i: int| (*s[i].0, *s[i].1)) }
#[verifier::external_body]
pub fn vx_map_refs<'a, K: std::hash::Hash + Eq>(m: &'a RsHashMap<K, usize>) -> (r: Vec<(&'a K, &'a usize)>)
    ensures pairs_of(deref_pairs(r@), m@),
{ m.iter().collect() }
pub open spec fn copies<T>(n: int, x: T) -> Seq<T> { Seq::new(n as nat, |i: int| x) }
/// growing a vector by copies of an element
pub trait VxGrow<T: Clone> {
    spec fn gv(&self) -> Seq<T>;
    fn vx_grow(&mut self, n: usize, x: T) requires n >= old(self).gv().len() ensures final(self).gv() == old(self).gv() + copies(n - old(self).gv().len(), x);
}
impl<T: Clone> VxGrow<T> for Vec<T> {
    open spec fn gv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_grow(&mut self, n: usize, x: T) { self.resize(n, x) }
}
pub proof fn lem_sm_copies<T>(n: int, x: T, g: spec_fn(T) -> int) requires n >= 0 ensures sm(copies(n, x), g) == n * g(x)
{ lem_sm_const(copies(n, x), g, g(x)); assert(g(x) * n == n * g(x)) by (nonlinear_arith); }
