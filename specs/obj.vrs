// ---- objectives: every query is a weighted sum over the soft literals and the soft clauses ----
pub broadcast axiom fn clause_key() ensures #[trigger] obeys_key_model::<Clause>();
/// clauses are equal if their literals are
pub axiom fn lem_clause_ext(c: Clause, d: Clause) requires c.s() == d.s() ensures c == d;
// trusted: the derived comparison and hash of clauses
impl PartialEqSpecImpl for Clause { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Clause) -> bool { *self == *other } }
impl PartialEq for Clause { #[verifier::external_body] fn eq(&self, other: &Clause) -> (r: bool) { self.lits == other.lits } }
impl Eq for Clause {}
impl Clone for Clause { #[verifier::external_body] fn clone(&self) -> (r: Clause) ensures r == *self { Clause { lits: self.lits.clone() } } }
#[verifier::external]
impl std::hash::Hash for Clause { fn hash<H: std::hash::Hasher>(&self, state: &mut H) { self.lits.hash(state) } }
pub open spec fn one<K>() -> spec_fn(K) -> int { |k: K| 1int }
pub open spec fn ind<K>(x: K) -> spec_fn(K) -> int { |k: K| if k == x { 1int } else { 0int } }
pub proof fn lem_ms_ind<K>(m: Map<K, usize>, k: K) requires m.dom().finite() ensures ms(m, ind(k)) == wt_of(m, k)
{
    lem_ms_del(m, k, ind(k));
    lem_ms_zero(m.remove(k), ind(k));
}
/// a weight is at most the sum of all
pub proof fn lem_ms_max<K>(m: Map<K, usize>, k: K) requires m.dom().finite() ensures 0 <= wt_of(m, k) <= ms(m, one())
{ lem_ms_ind(m, k); lem_ms_le(m, ind(k), one()); }
#[verifier::external_body]
pub fn vx_map_drain<K: std::hash::Hash + Eq>(m: &mut RsHashMap<K, usize>) -> (r: Vec<(K, usize)>)
    ensures pairs_of(r@, old(m)@), final(m)@ == Map::<K, usize>::empty(),
{ m.drain().collect() }
#[verifier::external_body]
pub fn vx_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { v.drain(..).collect() }
pub open spec fn differs<T>(x: T) -> spec_fn(T) -> bool { |y: T| y != x }
#[verifier::external_body]
pub fn vx_retain_ne<T: PartialEq>(v: &mut Vec<T>, x: &T) ensures final(v)@ == old(v)@.filter(differs(*x)) { v.retain(|other| other != x) }
pub proof fn lem_sm_ne<T>(s: Seq<T>, x: T, g: spec_fn(T) -> int)
    ensures sm(s.filter(differs(x)), g) == sm(s, g) - sm(s, ind(x)) * g(x), s.filter(differs(x)).len() == s.len() - sm(s, ind(x)), sm(s, ind(x)) >= 0,
        forall|i: int| 0 <= i < s.filter(differs(x)).len() ==> s.contains(#[trigger] s.filter(differs(x))[i]),
    decreases s.len(),
{
    reveal(Seq::filter);
    let (p, q, r) = (sm(s.drop_last(), ind(x)), if s.len() > 0 && s.last() == x { 1int } else { 0int }, g(x));
    assert((p + q) * r == p * r + q * r) by (nonlinear_arith);
    assert(0 * r == 0) by (nonlinear_arith);
    let f = s.filter(differs(x));
    if s.len() > 0 {
        let d = s.drop_last();
        lem_sm_ne(d, x, g); lem_sm_push(d.filter(differs(x)), s.last(), g);
        assert(s[s.len() - 1] == s.last());
        assert forall|i: int| 0 <= i < f.len() implies s.contains(#[trigger] f[i]) by {
            if i < d.filter(differs(x)).len() { assert(d.contains(d.filter(differs(x))[i])); let j = choose|j: int| 0 <= j < d.len() && d[j] == f[i]; assert(s[j] == f[i]); }
        }
    }
}
//@struct src/instances/opt.rs IntObj
//@struct src/instances/opt.rs Objective
pub open spec fn unit_of(u: Option<usize>) -> int { if u is Some { u->0 as int } else { 0 } }
pub open spec fn long_keys(m: Map<Clause, usize>) -> bool { forall|c: Clause| #[trigger] m.contains_key(c) ==> c.s().len() > 1 }
pub open spec fn long_cls(s: Seq<Clause>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).s().len() > 1 }
pub open spec fn pos_vals<K>(m: Map<K, usize>) -> bool { forall|k: K| #[trigger] m.contains_key(k) ==> m[k] > 0 }
impl Objective {
    pub open spec fn off(&self) -> int { match self.0 { IntObj::Weighted { offset, .. } => offset as int, IntObj::Unweighted { offset, .. } => offset as int } }
    /// weighted sum of g over the soft literals
    pub open spec fn ls(&self, g: spec_fn(Lit) -> int) -> int {
        match self.0 { IntObj::Weighted { soft_lits, .. } => ms(soft_lits@, g), IntObj::Unweighted { unit_weight, soft_lits, .. } => unit_of(unit_weight) * sm(soft_lits@, g) }
    }
    /// weighted sum of h over the soft clauses
    pub open spec fn cs(&self, h: spec_fn(Clause) -> int) -> int {
        match self.0 { IntObj::Weighted { soft_clauses, .. } => ms(soft_clauses@, h), IntObj::Unweighted { unit_weight, soft_clauses, .. } => unit_of(unit_weight) * sm(soft_clauses@, h) }
    }
    pub open spec fn vl(&self) -> Seq<Lit> { match self.0 { IntObj::Unweighted { soft_lits, .. } => soft_lits@, IntObj::Weighted { .. } => Seq::empty() } }
    pub open spec fn vc(&self) -> Seq<Clause> { match self.0 { IntObj::Unweighted { soft_clauses, .. } => soft_clauses@, IntObj::Weighted { .. } => Seq::empty() } }
    pub open spec fn un(&self) -> int { match self.0 { IntObj::Unweighted { unit_weight, .. } => unit_of(unit_weight), IntObj::Weighted { .. } => 0 } }
    pub open spec fn ml(&self) -> Map<Lit, usize> { match self.0 { IntObj::Weighted { soft_lits, .. } => soft_lits@, IntObj::Unweighted { .. } => Map::empty() } }
    pub open spec fn mc(&self) -> Map<Clause, usize> { match self.0 { IntObj::Weighted { soft_clauses, .. } => soft_clauses@, IntObj::Unweighted { .. } => Map::empty() } }
    pub open spec fn is_w(&self) -> bool { self.0 is Weighted }
    /// the sum of all weights
    pub open spec fn tot(&self) -> int { self.ls(one()) + self.cs(one()) }
    pub open spec fn lw(&self, l: Lit) -> int { self.ls(ind(l)) }
    pub open spec fn cw(&self, c: Clause) -> int { self.cs(ind(c)) }
    pub open spec fn wf(&self) -> bool {
        match self.0 {
            IntObj::Weighted { soft_lits, soft_clauses, .. } => long_keys(soft_clauses@) && pos_vals(soft_lits@) && pos_vals(soft_clauses@),
            IntObj::Unweighted { unit_weight, soft_lits, soft_clauses, .. } => long_cls(soft_clauses@) && (unit_weight is None ==> soft_lits@.len() == 0 && soft_clauses@.len() == 0) && unit_weight != Some(0usize),
        }
    }
    /// offset plus the weights of the true soft literals and of the falsified soft clauses
    pub open spec fn cost(&self, a: Asg) -> int { self.off() + self.ls(set_in(a)) + self.cs(falsified(a)) }
    pub open spec fn same(&self, o: &Objective) -> bool { self.off() == o.off() && (forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == o.ls(g)) && (forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == o.cs(h)) }
    pub open spec fn same_l(&self, o: &Objective) -> bool { forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == o.ls(g) }
    pub open spec fn same_c(&self, o: &Objective) -> bool { forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == o.cs(h) }
    /// the weight of l goes from v to w
    pub open spec fn lit_chg(&self, o: &Objective, l: Lit, d: int) -> bool { forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == o.ls(g) + d * g(l) }
    pub open spec fn cls_chg(&self, o: &Objective, c: Clause, d: int) -> bool { forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == o.cs(h) + d * h(c) }
}
/// set / falsified by a possibly partial assignment
pub open spec fn set_by(sol: &Assignment) -> spec_fn(Lit) -> int { |l: Lit| b2i(sol.lval(l) == TernaryVal::True) }
pub open spec fn unsat_by(sol: &Assignment) -> spec_fn(Clause) -> int { |c: Clause| b2i(forall|i: int| 0 <= i < c.s().len() ==> sol.lval(#[trigger] c.s()[i]) == TernaryVal::False) }
pub open spec fn total_as(sol: &Assignment, a: Asg) -> bool { forall|i: nat| sol.val(i as int) == TernaryVal::of(#[trigger] a(i)) }
pub proof fn lem_total_unsat(sol: &Assignment, a: Asg, c: Clause) requires total_as(sol, a) ensures unsat_by(sol)(c) == falsified(a)(c)
{
    assert forall|i: int| 0 <= i < c.s().len() implies (sol.lval(#[trigger] c.s()[i]) == TernaryVal::False) == !tv(a, c.s()[i]) by { let l = c.s()[i]; assert(sol.val(l.v() as int) == TernaryVal::of(a(l.v()))); }
    if cl_true(c.s(), a) { let i = choose|i: int| 0 <= i < c.s().len() && tv(a, #[trigger] c.s()[i]); assert(sol.lval(c.s()[i]) != TernaryVal::False); }
}
pub proof fn lem_sm_bound<K>(s: Seq<K>, g: spec_fn(K) -> int, h: spec_fn(K) -> int, u: int) requires u >= 0, forall|k: K| 0 <= #[trigger] g(k) <= h(k) ensures 0 <= u * sm(s, g) <= u * sm(s, h)
{
    assert forall|i: int| 0 <= i < s.len() implies g(#[trigger] s[i]) <= h(s[i]) by {} lem_sm_le(s, g, h);
    assert forall|i: int| 0 <= i < s.len() implies g(#[trigger] s[i]) >= 0 by {} lem_sm_nonneg(s, g);
    let (p, q) = (sm(s, g), sm(s, h)); assert(0 <= u * p <= u * q) by (nonlinear_arith) requires u >= 0, 0 <= p <= q;
}
pub proof fn lem_ls_le(o: &Objective, g: spec_fn(Lit) -> int, h: spec_fn(Lit) -> int) requires forall|k: Lit| 0 <= #[trigger] g(k) <= h(k) ensures 0 <= o.ls(g) <= o.ls(h)
{ broadcast use vstd::std_specs::hash::group_hash_axioms; if o.is_w() { lem_ms_le(o.ml(), g, h); } else { lem_sm_bound(o.vl(), g, h, o.un()); } }
pub proof fn lem_cs_le(o: &Objective, g: spec_fn(Clause) -> int, h: spec_fn(Clause) -> int) requires forall|k: Clause| 0 <= #[trigger] g(k) <= h(k) ensures 0 <= o.cs(g) <= o.cs(h)
{ broadcast use vstd::std_specs::hash::group_hash_axioms; if o.is_w() { lem_ms_le(o.mc(), g, h); } else { lem_sm_bound(o.vc(), g, h, o.un()); } }
pub open spec fn set_in(a: Asg) -> spec_fn(Lit) -> int { |l: Lit| b2i(tv(a, l)) }
pub open spec fn falsified(a: Asg) -> spec_fn(Clause) -> int { |c: Clause| b2i(!cl_true(c.s(), a)) }
/// u times the elements of s, as a map
pub open spec fn is_scaled<K>(m: Map<K, usize>, s: Seq<K>, u: int) -> bool { (forall|g: spec_fn(K) -> int| #[trigger] ms(m, g) == u * sm(s, g)) && pos_vals(m) && m.dom().finite() && forall|k: K| #[trigger] m.contains_key(k) ==> s.contains(k) }
pub proof fn lem_scaled0<K>(s: Seq<K>, u: int) ensures is_scaled(Map::<K, usize>::empty(), s.take(0), u)
{
    assert forall|g: spec_fn(K) -> int| #[trigger] ms(Map::<K, usize>::empty(), g) == u * sm(s.take(0), g) by { lem_ms_empty(g); lem_sm_empty(g); assert(s.take(0) =~= Seq::empty()); assert(u * 0 == 0) by (nonlinear_arith); }
}
pub proof fn lem_scaled<K>(m: Map<K, usize>, s: Seq<K>, i: int, u: int)
    requires is_scaled(m, s.take(i), u), 0 <= i < s.len(), 0 < u, u * s.len() <= usize::MAX,
    ensures wt_of(m, s[i]) + u <= usize::MAX, is_scaled(m.insert(s[i], (wt_of(m, s[i]) + u) as usize), s.take(i + 1), u),
{
    let k = s[i];
    lem_ms_max(m, k);
    lem_sm_const(s.take(i), one(), 1);
    assert(ms(m, one()) == u * sm(s.take(i), one()));
    assert(u * i + u <= usize::MAX) by (nonlinear_arith) requires i + 1 <= s.len(), u * s.len() <= usize::MAX, u > 0;
    let w = (wt_of(m, k) + u) as usize; let n = m.insert(k, w);
    assert forall|g: spec_fn(K) -> int| #[trigger] ms(n, g) == u * sm(s.take(i + 1), g) by {
        lem_ms_insert(m, k, w, g); lem_sm_take(s, i, g);
        assert(ms(m, g) == u * sm(s.take(i), g));
        let (p, q) = (sm(s.take(i), g), g(k));
        assert(u * (p + q) == u * p + u * q) by (nonlinear_arith);
    }
    assert(s.take(i + 1) =~= s.take(i).push(k));
    assert forall|c: K| #[trigger] n.contains_key(c) implies s.take(i + 1).contains(c) && n[c] > 0 by {
        if c == k { assert(s.take(i + 1)[i] == k); } else { assert(m.contains_key(c)); let j = choose|j: int| 0 <= j < i && s.take(i)[j] == c; assert(s.take(i + 1)[j] == c); }
    }
}
/// every key as often as its weight
pub open spec fn unrolled<K>(v: Seq<K>, s: Seq<(K, usize)>, m: Map<K, usize>) -> bool { (forall|g: spec_fn(K) -> int| #[trigger] sm(v, g) == sm(s, pw(g))) && forall|i: int| 0 <= i < v.len() ==> m.contains_key(#[trigger] v[i]) }
pub proof fn lem_unrolled0<K>(s: Seq<(K, usize)>, m: Map<K, usize>) ensures unrolled(Seq::<K>::empty(), s.take(0), m)
{ assert(s.take(0) =~= Seq::empty()); }
pub proof fn lem_unrolled<K>(v: Seq<K>, s: Seq<(K, usize)>, i: int, m: Map<K, usize>)
    requires unrolled(v, s.take(i), m), 0 <= i < s.len(), pairs_of(s, m), m.dom().finite(), ms(m, one()) <= usize::MAX,
    ensures v.len() + s[i].1 <= usize::MAX, unrolled(v + copies(s[i].1 as int, s[i].0), s.take(i + 1), m),
{
    let (k, w) = s[i]; let n = v + copies(w as int, k);
    lem_sm_const(v, one(), 1);
    assert(sm(v, one()) == sm(s.take(i), pw(one())));
    lem_pairs(s, m, one());
    assert forall|j: int| 0 <= j < s.len() implies pw(one())(#[trigger] s[j]) >= 0 by { }
    lem_sm_nonneg(s, pw(one())); lem_sm_take(s, i, pw(one())); assert(sm(s.take(i + 1), pw(one())) <= sm(s, pw(one())));
    assert(pw(one::<K>())(s[i]) == w as int);
    assert forall|g: spec_fn(K) -> int| #[trigger] sm(n, g) == sm(s.take(i + 1), pw(g)) by {
        lem_sm_add(v, copies(w as int, k), g); lem_sm_copies(w as int, k, g); lem_sm_take(s, i, pw(g)); assert(sm(v, g) == sm(s.take(i), pw(g)));
    }
    assert forall|j: int| 0 <= j < n.len() implies m.contains_key(#[trigger] n[j]) by { if j < v.len() { assert(n[j] == v[j]); } else { assert(n[j] == k); assert(m.contains_key(s[i].0)); } }
}
pub proof fn lem_unrolled_end<K>(v: Seq<K>, s: Seq<(K, usize)>, m: Map<K, usize>) requires unrolled(v, s.take(s.len() as int), m), pairs_of(s, m), m.dom().finite()
    ensures forall|g: spec_fn(K) -> int| #[trigger] sm(v, g) == ms(m, g)
{ assert(s.take(s.len() as int) =~= s); assert forall|g: spec_fn(K) -> int| #[trigger] sm(v, g) == ms(m, g) by { lem_pairs(s, m, g); assert(sm(v, g) == sm(s, pw(g))); } }
/// the next pair of a loop over a map
pub proof fn lem_pairs_step<K>(s: Seq<(K, usize)>, m: Map<K, usize>, i: int, g: spec_fn(K) -> int)
    requires m.dom().finite(), pairs_of(s, m), 0 <= i < s.len(), forall|k: K| #[trigger] g(k) >= 0,
    ensures sm(s.take(i + 1), pw(g)) == sm(s.take(i), pw(g)) + s[i].1 as int * g(s[i].0), 0 <= sm(s.take(i), pw(g)) <= sm(s.take(i + 1), pw(g)) <= ms(m, g),
        g(s[i].0) == 0 ==> sm(s.take(i + 1), pw(g)) == sm(s.take(i), pw(g)), g(s[i].0) == 1 ==> sm(s.take(i + 1), pw(g)) == sm(s.take(i), pw(g)) + s[i].1,
{
    lem_pairs(s, m, g); lem_sm_take(s, i, pw(g));
    assert forall|j: int| 0 <= j < s.len() implies pw(g)(#[trigger] s[j]) >= 0 by { let (a, b) = (s[j].1 as int, g(s[j].0)); assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; }
    lem_sm_nonneg(s, pw(g));
    assert(sm(s.take(i), pw(g)) <= sm(s, pw(g)) && sm(s.take(i + 1), pw(g)) <= sm(s, pw(g)) && pw(g)(s[i]) >= 0);
}
pub proof fn lem_pairs_end<K>(s: Seq<(K, usize)>, m: Map<K, usize>, g: spec_fn(K) -> int) requires m.dom().finite(), pairs_of(s, m) ensures sm(s.take(s.len() as int), pw(g)) == ms(m, g), sm(s.take(0), pw(g)) == 0
{ lem_pairs(s, m, g); assert(s.take(s.len() as int) =~= s); }
pub proof fn lem_seq_end<K>(s: Seq<K>, g: spec_fn(K) -> int) ensures sm(s.take(s.len() as int), g) == sm(s, g), sm(s.take(0), g) == 0 { assert(s.take(s.len() as int) =~= s); }
pub proof fn lem_ms_pos<K>(m: Map<K, usize>) requires m.dom().finite(), pos_vals(m) ensures ms(m, one()) >= 0, m.dom().len() > 0 ==> ms(m, one()) > 0, m.dom().len() == 0 ==> forall|g: spec_fn(K) -> int| #[trigger] ms(m, g) == 0
{ lem_ms_le(m, one(), one()); if m.dom().len() > 0 { let c = m.dom().choose(); assert(m.dom().contains(c)); assert(m.contains_key(c)); lem_ms_max(m, c); } }
/// what setting, removing or adding an entry does
pub proof fn lem_chg_m<K>(m: Map<K, usize>, k: K)
    requires m.dom().finite(), pos_vals(m),
    ensures forall|w: usize, g: spec_fn(K) -> int| #[trigger] ms(m.insert(k, w), g) == ms(m, g) + (w - wt_of(m, k)) * g(k), forall|w: usize| (#[trigger] m.insert(k, w)).dom().finite(),
        forall|w: usize| w > 0 ==> pos_vals(#[trigger] m.insert(k, w)), pos_vals(m.remove(k)), m.remove(k).dom().finite(),
        forall|g: spec_fn(K) -> int| #[trigger] ms(m.remove(k), g) == ms(m, g) + (0 - wt_of(m, k)) * g(k),
        ms(m, ind(k)) == wt_of(m, k), 0 <= wt_of(m, k) <= ms(m, one()),
{
    lem_ms_max(m, k); lem_ms_ind(m, k);
    assert forall|w: usize, g: spec_fn(K) -> int| #[trigger] ms(m.insert(k, w), g) == ms(m, g) + (w - wt_of(m, k)) * g(k) by { lem_ms_insert(m, k, w, g); }
    assert forall|g: spec_fn(K) -> int| #[trigger] ms(m.remove(k), g) == ms(m, g) + (0 - wt_of(m, k)) * g(k) by { lem_ms_del(m, k, g); let (p, q) = (wt_of(m, k), g(k)); assert((0 - p) * q == -(p * q)) by (nonlinear_arith); }
    assert forall|w: usize| w > 0 implies pos_vals(#[trigger] m.insert(k, w)) by { assert forall|c: K| #[trigger] m.insert(k, w).contains_key(c) implies m.insert(k, w)[c] > 0 by { if c != k { assert(m.contains_key(c)); } } }
    assert forall|c: K| #[trigger] m.remove(k).contains_key(c) implies m.remove(k)[c] > 0 by { assert(m.contains_key(c)); }
    assert forall|w: usize| (#[trigger] m.insert(k, w)).dom().finite() by { lem_ms_insert(m, k, w, one()); }
    lem_ms_del(m, k, one());
}
pub proof fn lem_chg_v<K>(v: Seq<K>, k: K, u: int)
    requires u >= 0,
    ensures forall|g: spec_fn(K) -> int| #![trigger sm(v, g)] u * (sm(v, g) - sm(v, ind(k)) * g(k)) == u * sm(v, g) + (0 - u * sm(v, ind(k))) * g(k),
        forall|g: spec_fn(K) -> int| #![trigger sm(v, g)] u * (sm(v, g) - sm(v, ind(k)) * g(k) + g(k)) == u * sm(v, g) + (u - u * sm(v, ind(k))) * g(k),
        forall|g: spec_fn(K) -> int| #![trigger sm(v, g)] u * (sm(v, g) + g(k)) == u * sm(v, g) + u * g(k),
        forall|x: Seq<K>, g: spec_fn(K) -> int| #[trigger] sm(x.push(k), g) == sm(x, g) + g(k),
        0 <= sm(v, ind(k)) <= v.len(), 0 <= u * sm(v, ind(k)) <= u * v.len(), u * sm(v, ind(k)) == sm(v, ind(k)) * u, u * v.len() == u * sm(v, one()), v.len() * u == u * v.len(),
        sm(v, ind(k)) > 0 && u > 0 ==> u * sm(v, ind(k)) > 0,
        v.len() == 0 ==> forall|g: spec_fn(K) -> int, x: int| #[trigger] (x * sm(v, g)) == 0,
{
    if v.len() == 0 { assert forall|g: spec_fn(K) -> int, x: int| #[trigger] (x * sm(v, g)) == 0 by { assert(x * 0 == 0); } }
    let c = sm(v, ind(k));
    lem_sm_const(v, one(), 1);
    assert forall|i: int| 0 <= i < v.len() implies ind(k)(#[trigger] v[i]) <= one::<K>()(v[i]) by {} lem_sm_le(v, ind(k), one());
    assert forall|i: int| 0 <= i < v.len() implies ind(k)(#[trigger] v[i]) >= 0 by {} lem_sm_nonneg(v, ind(k));
    assert(0 <= u * c <= u * v.len()) by (nonlinear_arith) requires 0 <= c <= v.len(), u >= 0;
    assert(u * c == c * u && v.len() * u == u * v.len()) by (nonlinear_arith);
    if c > 0 && u > 0 { assert(u * c > 0) by (nonlinear_arith) requires c > 0, u > 0; }
    assert forall|g: spec_fn(K) -> int| #![trigger sm(v, g)] u * (sm(v, g) - c * g(k)) == u * sm(v, g) + (0 - u * c) * g(k) && u * (sm(v, g) - c * g(k) + g(k)) == u * sm(v, g) + (u - u * c) * g(k) && u * (sm(v, g) + g(k)) == u * sm(v, g) + u * g(k) by {
        let (s, x) = (sm(v, g), g(k));
        assert(u * (s - c * x) == u * s + (0 - u * c) * x) by (nonlinear_arith);
        assert(u * (s - c * x + x) == u * s + (u - u * c) * x) by (nonlinear_arith);
        assert(u * (s + x) == u * s + u * x) by (nonlinear_arith);
    }
    assert forall|x: Seq<K>, g: spec_fn(K) -> int| #[trigger] sm(x.push(k), g) == sm(x, g) + g(k) by { lem_sm_push(x, k, g); }
}
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T>[ bool::then_some ](b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
//@fn src/instances/opt.rs remove_all
//@ret r
    ensures r == sm(old(vec)@, ind(*elem)), forall|g: spec_fn(T) -> int| #[trigger] sm(final(vec)@, g) == sm(old(vec)@, g) - r * g(*elem),
        forall|i: int| 0 <= i < final(vec)@.len() ==> old(vec)@.contains(#[trigger] final(vec)@[i]), final(vec)@.len() == old(vec)@.len() - r,
//@sub vec\.retain\(\|other\| other != elem\) ==> vx_retain_ne(vec, elem)
//@ghost start
    let ghost v0 = vec@;
    proof {
        assert forall|g: spec_fn(T) -> int| #[trigger] sm(v0.filter(differs(*elem)), g) == sm(v0, g) - sm(v0, ind(*elem)) * g(*elem) by { lem_sm_ne(v0, *elem, g); }
        lem_sm_ne(v0, *elem, one());
    }
//@end
impl Objective {
//@fn src/instances/opt.rs <Objective as From<IntObj>>::from as=from_int
//@ret r
    ensures r.0 == obj,
//@end
//@fn src/instances/opt.rs <Objective as Default>::default
//@ret r
    ensures r.wf(), r.off() == 0, forall|g: spec_fn(Lit) -> int| #[trigger] r.ls(g) == 0, forall|h: spec_fn(Clause) -> int| #[trigger] r.cs(h) == 0, !r.is_w(),
//@sub Vec::default\(\) ==> Vec::new()
//@end
//@fn src/instances/opt.rs Objective::new
//@ret r
    ensures r.wf(), r.off() == 0, forall|g: spec_fn(Lit) -> int| #[trigger] r.ls(g) == 0, forall|h: spec_fn(Clause) -> int| #[trigger] r.cs(h) == 0,
//@end
//@fn src/instances/opt.rs Objective::set_offset split_or
    ensures final(self).off() == new_offset, final(self).same_l(old(self)), final(self).same_c(old(self)), old(self).wf() ==> final(self).wf(),
//@end
//@fn src/instances/opt.rs Objective::offset
//@ret r
    ensures r == self.off(),
//@end
//@fn src/instances/opt.rs Objective::increase_offset split_or
    requires isize::MIN <= old(self).off() + offset_incr <= isize::MAX,
    ensures final(self).off() == old(self).off() + offset_incr, final(self).same_l(old(self)), final(self).same_c(old(self)), old(self).wf() ==> final(self).wf(),
//@end
//@fn src/instances/opt.rs Objective::weighted
//@ret r
    ensures r == self.is_w(),
//@end
//@fn src/instances/opt.rs Objective::unweighted_2_weighted
    requires old(self).wf(), old(self).tot() <= usize::MAX,
    ensures final(self).wf(), final(self).is_w(), final(self).same(old(self)), forall|n: nat| old(self).obel(n) ==> #[trigger] final(self).obel(n),
//@sub soft_lits\.drain\(\.\.\) ==> vx_drain(soft_lits)
//@sub soft_clauses\.drain\(\.\.\) ==> vx_drain(soft_clauses)
//@sub RsHashMap::default\(\) ==> vx_map_new()
//@sub \*new_soft_lits\.entry\(lit\)\.or_default\(\) \+= \*unit_weight ==> vx_map_add(&mut new_soft_lits, lit, *unit_weight)
//@sub \*new_soft_clauses\.entry\(clause\)\.or_default\(\) \+= \*unit_weight ==> vx_map_add(&mut new_soft_clauses, clause, *unit_weight)
//@sub (?s)\*self = (IntObj::Weighted \{.*?\})\s*\.into\(\) ==> *self = Objective::from_int($1)
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost o0 = *self;
    let ghost (lts, cls, u) = (self.vl(), self.vc(), self.un());
    proof {
        lem_sm_const(lts, one(), 1); lem_sm_const(cls, one(), 1);
        if !(self.is_w()) {
            assert(self.tot() == u * lts.len() + u * cls.len());
            assert(0 <= u * lts.len() && 0 <= u * cls.len()) by (nonlinear_arith) requires u >= 0;
            assert forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == u * sm(lts, g) by { }
            assert forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == u * sm(cls, h) by { }
            if u == 0 { 
                assert forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == ms(Map::<Lit, usize>::empty(), g) by { lem_ms_empty(g); assert(0 * sm(lts, g) == 0); }
                assert forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == ms(Map::<Clause, usize>::empty(), h) by { lem_ms_empty(h); assert(0 * sm(cls, h) == 0); }
            }
        }
        lem_scaled0(lts, u); lem_scaled0(cls, u);
    }
//@loop 0 iter=it
    invariant it.seq() == lts, is_scaled(new_soft_lits@, lts.take(it.index@ as int), u), u == *unit_weight as int, u > 0, u * lts.len() <= usize::MAX,
//@ghost loop 0 start
    proof { lem_scaled(new_soft_lits@, lts, it.index@ as int, u); }
//@ghost loop 0 after
    proof { assert(lts.take(lts.len() as int) =~= lts); assert(cls.take(cls.len() as int) =~= cls); }
//@loop 1 iter=it
    invariant it.seq() == cls, is_scaled(new_soft_clauses@, cls.take(it.index@ as int), u), u == *unit_weight as int, u > 0, u * cls.len() <= usize::MAX,
//@ghost loop 1 start
    proof { lem_scaled(new_soft_clauses@, cls, it.index@ as int, u); }
//@end
//@fn src/instances/opt.rs Objective::weighted_2_unweighted
    requires old(self).wf(), old(self).tot() <= usize::MAX,
    ensures final(self).wf(), !final(self).is_w(), final(self).same(old(self)),
//@sub (?s)for (\w+) in it: soft_lits\.drain\(\) ==> let vx_pl = vx_map_drain(soft_lits); let ghost pl = vx_pl@; proof { lem_unrolled0(pl, o0.ml()); } for $1 in it: vx_pl
//@sub (?s)for (\w+) in it: soft_clauses\.drain\(\) ==> let vx_pc = vx_map_drain(soft_clauses); let ghost pc = vx_pc@; proof { lem_unrolled0(pc, o0.mc()); } for $1 in it: vx_pc
//@sub soft_unit_lits\.resize\( ==> soft_unit_lits.vx_grow(
//@sub soft_unit_clauses\.resize\( ==> soft_unit_clauses.vx_grow(
//@sub (?s)\*self = (IntObj::Unweighted \{.*?\})\s*\.into\(\) ==> *self = Objective::from_int($1)
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let ghost o0 = *self;
    proof { if o0.is_w() { lem_ms_le(o0.ml(), one(), one()); lem_ms_le(o0.mc(), one(), one()); } }
//@loop 0 iter=it
    invariant it.seq() == pl, pairs_of(pl, o0.ml()), o0.ml().dom().finite(), ms(o0.ml(), one()) <= usize::MAX, unrolled(soft_unit_lits@, pl.take(it.index@ as int), o0.ml()),
//@ghost loop 0 start
    proof { lem_unrolled(soft_unit_lits@, pl, it.index@ as int, o0.ml()); }
//@ghost loop 0 after
    proof { lem_unrolled_end(soft_unit_lits@, pl, o0.ml()); }
//@loop 1 iter=it
    invariant it.seq() == pc, pairs_of(pc, o0.mc()), o0.mc().dom().finite(), ms(o0.mc(), one()) <= usize::MAX, unrolled(soft_unit_clauses@, pc.take(it.index@ as int), o0.mc()),
//@ghost loop 1 start
    proof { lem_unrolled(soft_unit_clauses@, pc, it.index@ as int, o0.mc()); }
//@ghost loop 1 after
    proof { lem_unrolled_end(soft_unit_clauses@, pc, o0.mc()); }
//@end
//@fn src/instances/opt.rs Objective::add_soft_lit
//@ret r
    requires old(self).wf(), old(self).tot() + w <= usize::MAX,
    ensures final(self).wf(), final(self).off() == old(self).off(), final(self).lit_chg(old(self), l, w - old(self).lw(l)), final(self).same_c(old(self)),
        r is None ==> old(self).lw(l) == 0, r is Some ==> r->0 == old(self).lw(l) && r->0 > 0,
    decreases (if old(self).is_w() { 0nat } else { 1nat }),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key;
    let ghost o0 = *self;
    proof { if o0.is_w() { lem_chg_m(o0.ml(), l); lem_ms_le(o0.mc(), one(), one()); } lem_chg_v(o0.vl(), l, o0.un()); lem_chg_v(o0.vc(), arbitrary(), o0.un()); }
//@end
//@fn src/instances/opt.rs Objective::increase_soft_lit
    requires old(self).wf(), old(self).tot() + add_w <= usize::MAX,
    ensures final(self).wf(), final(self).off() == old(self).off(), final(self).lit_chg(old(self), l, add_w as int), final(self).same_c(old(self)),
    decreases (if old(self).is_w() { 0nat } else { 1nat }),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key;
    let ghost o0 = *self;
    proof { if o0.is_w() { lem_chg_m(o0.ml(), l); lem_ms_le(o0.mc(), one(), one()); } lem_chg_v(o0.vl(), l, o0.un()); lem_chg_v(o0.vc(), arbitrary(), o0.un()); }
//@sub \*soft_lits\.entry\(l\)\.or_default\(\) \+= add_w ==> vx_map_add(soft_lits, l, add_w)
//@end
//@fn src/instances/opt.rs Objective::increase_soft_lit_int
    requires old(self).wf(), old(self).tot() + (if add_w < 0 { -add_w } else { add_w as int }) <= usize::MAX, old(self).off() + add_w >= isize::MIN,
    ensures final(self).wf(), final(self).same_c(old(self)),
        add_w >= 0 ==> final(self).off() == old(self).off() && final(self).lit_chg(old(self), l, add_w as int),
        // for a negative weight, the cost of the negated literal is charged on top of the constant
        add_w < 0 ==> final(self).off() == old(self).off() + add_w && final(self).lit_chg(old(self), l.opp(), -add_w),
        forall|a: Asg| #[trigger] final(self).cost(a) == old(self).cost(a) + add_w * b2i(tv(a, l)),
//@ghost end
    proof {
        lem_opp_all();
        assert forall|a: Asg| #[trigger] final(self).cost(a) == old(self).cost(a) + add_w * b2i(tv(a, l)) by {
            assert(tv(a, l.opp()) == !tv(a, l));
            let w = add_w as int; assert((-w) * 0 == 0 && w * 0 == 0 && w * 1 == w && (-w) * 1 == -w) by (nonlinear_arith);
        }
    }
//@end
//@fn src/instances/opt.rs Objective::add_soft_clause panic=allowed
//@ret r
    requires old(self).wf(), old(self).tot() + w <= usize::MAX, cl.s().len() == 0 ==> w <= isize::MAX && old(self).off() + w <= isize::MAX,
    ensures final(self).wf(),
        // the empty clause is always falsified; a unit clause is the negated soft literal
        cl.s().len() == 0 ==> final(self).off() == old(self).off() + w && final(self).same_l(old(self)) && final(self).same_c(old(self)) && r is None,
        cl.s().len() == 1 ==> final(self).off() == old(self).off() && final(self).same_c(old(self)) && final(self).lit_chg(old(self), cl.s()[0].opp(), w - old(self).lw(cl.s()[0].opp()))
            && (r is None ==> old(self).lw(cl.s()[0].opp()) == 0) && (r is Some ==> r->0 == old(self).lw(cl.s()[0].opp()) && r->0 > 0),
        cl.s().len() > 1 ==> final(self).off() == old(self).off() && final(self).same_l(old(self)) && final(self).cls_chg(old(self), cl, w - old(self).cw(cl))
            && (r is None ==> old(self).cw(cl) == 0) && (r is Some ==> r->0 == old(self).cw(cl) && r->0 > 0),
    decreases (if old(self).is_w() { 0nat } else { 1nat }),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use clause_key;
    let ghost o0 = *self;
    let ghost c0 = cl;
    proof { lem_opp_all(); if o0.is_w() { lem_chg_m(o0.mc(), cl); lem_ms_le(o0.ml(), one(), one()); } lem_chg_v(o0.vc(), cl, o0.un()); lem_chg_v(o0.vl(), arbitrary(), o0.un()); }
//@sub cl\[0\] ==> cl.lits[0]
//@end
//@fn src/instances/opt.rs Objective::increase_soft_clause panic=allowed
    requires old(self).wf(), old(self).tot() + add_w <= usize::MAX, cl.s().len() == 0 ==> add_w <= isize::MAX && old(self).off() + add_w <= isize::MAX,
    ensures final(self).wf(),
        cl.s().len() == 0 ==> final(self).off() == old(self).off() + add_w && final(self).same_l(old(self)) && final(self).same_c(old(self)),
        cl.s().len() == 1 ==> final(self).off() == old(self).off() && final(self).same_c(old(self)) && final(self).lit_chg(old(self), cl.s()[0].opp(), add_w as int),
        cl.s().len() > 1 ==> final(self).off() == old(self).off() && final(self).same_l(old(self)) && final(self).cls_chg(old(self), cl, add_w as int),
    decreases (if old(self).is_w() { 0nat } else { 1nat }),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use clause_key;
    let ghost o0 = *self;
    let ghost c0 = cl;
    proof { lem_opp_all(); if o0.is_w() { lem_chg_m(o0.mc(), cl); lem_ms_le(o0.ml(), one(), one()); } lem_chg_v(o0.vc(), cl, o0.un()); lem_chg_v(o0.vl(), arbitrary(), o0.un()); }
//@sub cl\[0\] ==> cl.lits[0]
//@sub \*soft_clauses\.entry\(cl\)\.or_default\(\) \+= add_w ==> vx_map_add(soft_clauses, cl, add_w)
//@end
//@fn src/instances/opt.rs Objective::lit_weight chains=loop
//@ret r
    requires self.wf(), self.tot() <= usize::MAX,
    ensures r is None ==> self.lw(l) == 0, r is Some ==> r->0 == self.lw(l) && r->0 > 0,
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
    proof { if self.is_w() { lem_chg_m(self.ml(), l); lem_ms_le(self.ml(), one(), one()); lem_ms_le(self.mc(), one(), one()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); lem_chg_v(self.vl(), l, self.un()); lem_seq_end(self.vl(), ind(l)); if !(self.is_w()) { let (u, p) = (self.un(), self.vl().len()); if u > 0 { assert(u * p >= p) by (nonlinear_arith) requires u > 0, p >= 0; } } }
//@loop 0 iter=it
    invariant it.seq().len() == self.vl().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.vl()[i], vx_cnt0 == sm(self.vl().take(it.index@ as int), ind(l)), vx_cnt0 <= it.index@, it.seq().len() <= usize::MAX,
//@ghost loop 0 start
    proof { lem_sm_take(self.vl(), it.index@ as int, ind(l)); }
//@end
//@fn src/instances/opt.rs Objective::clause_weight chains=loop
//@ret r
    requires self.wf(), self.tot() <= usize::MAX,
    ensures r is None ==> self.cw(*cl) == 0, r is Some ==> r->0 == self.cw(*cl) && r->0 > 0,
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
    proof { if self.is_w() { lem_chg_m(self.mc(), *cl); lem_ms_le(self.ml(), one(), one()); lem_ms_le(self.mc(), one(), one()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); lem_chg_v(self.vc(), *cl, self.un()); lem_seq_end(self.vc(), ind(*cl)); if !(self.is_w()) { let (u, p) = (self.un(), self.vc().len()); if u > 0 { assert(u * p >= p) by (nonlinear_arith) requires u > 0, p >= 0; } } }
//@loop 0 iter=it
    invariant it.seq().len() == self.vc().len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.vc()[i], vx_cnt0 == sm(self.vc().take(it.index@ as int), ind(*cl)), vx_cnt0 <= it.index@, it.seq().len() <= usize::MAX,
//@ghost loop 0 start
    proof { lem_sm_take(self.vc(), it.index@ as int, ind(*cl)); }
//@end
//@fn src/instances/opt.rs Objective::is_empty
//@ret r
    ensures r ==> self.off() == 0 && (forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == 0) && (forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == 0),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if self.is_w() && self.wf() { lem_ms_pos(self.ml()); lem_ms_pos(self.mc()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); 
        if self.wf() && !(self.is_w()) { let (u, p, q) = (self.un(), self.vl().len(), self.vc().len()); if u > 0 && p > 0 { assert(u * p > 0) by (nonlinear_arith) requires u > 0, p > 0; } if u > 0 && q > 0 { assert(u * q > 0) by (nonlinear_arith) requires u > 0, q > 0; } } }
//@end
//@fn src/instances/opt.rs Objective::constant
//@ret r
    ensures r ==> (forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == 0) && (forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == 0),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if self.is_w() && self.wf() { lem_ms_pos(self.ml()); lem_ms_pos(self.mc()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); 
        if self.wf() && !(self.is_w()) { let (u, p, q) = (self.un(), self.vl().len(), self.vc().len()); if u > 0 && p > 0 { assert(u * p > 0) by (nonlinear_arith) requires u > 0, p > 0; } if u > 0 && q > 0 { assert(u * q > 0) by (nonlinear_arith) requires u > 0, q > 0; } } }
//@end
//@fn src/instances/opt.rs Objective::n_lits
//@ret r
    requires self.wf(),
    ensures r == 0 ==> forall|g: spec_fn(Lit) -> int| #[trigger] self.ls(g) == 0, r > 0 ==> self.ls(one()) > 0,
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
    proof { if self.is_w() && self.wf() { lem_ms_pos(self.ml()); lem_ms_pos(self.mc()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); 
        if self.wf() && !(self.is_w()) { let (u, p, q) = (self.un(), self.vl().len(), self.vc().len()); if u > 0 && p > 0 { assert(u * p > 0) by (nonlinear_arith) requires u > 0, p > 0; } if u > 0 && q > 0 { assert(u * q > 0) by (nonlinear_arith) requires u > 0, q > 0; } } }
//@end
//@fn src/instances/opt.rs Objective::n_clauses
//@ret r
    requires self.wf(),
    ensures r == 0 ==> forall|h: spec_fn(Clause) -> int| #[trigger] self.cs(h) == 0, r > 0 ==> self.cs(one()) > 0,
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    broadcast use lit_key; broadcast use clause_key;
    proof { if self.is_w() && self.wf() { lem_ms_pos(self.ml()); lem_ms_pos(self.mc()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); 
        if self.wf() && !(self.is_w()) { let (u, p, q) = (self.un(), self.vl().len(), self.vc().len()); if u > 0 && p > 0 { assert(u * p > 0) by (nonlinear_arith) requires u > 0, p > 0; } if u > 0 && q > 0 { assert(u * q > 0) by (nonlinear_arith) requires u > 0, q > 0; } } }
//@end
//@fn src/instances/opt.rs Objective::lit_weight_sum chains=loop
//@ret r
    requires self.wf(), self.tot() <= usize::MAX,
    ensures r == self.ls(one()),
//@sub for (\w+) in it: soft_lits\.iter\(\) ==> let vx_ps = vx_map_refs(soft_lits); let ghost ps = deref_pairs(vx_ps@); proof { lem_pairs_end(ps, self.ml(), one()); } for $1 in it: vx_ps
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if self.is_w() { lem_ms_le(self.ml(), one(), one()); lem_ms_le(self.mc(), one(), one()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); }
//@loop 0 iter=it
    invariant it.seq() == vx_ps@, ps == deref_pairs(vx_ps@), pairs_of(ps, self.ml()), self.ml().dom().finite(), s == sm(ps.take(it.index@ as int), pw(one())), ms(self.ml(), one()) <= usize::MAX,
//@ghost loop 0 start
    proof { lem_pairs_step(ps, self.ml(), it.index@ as int, one()); }
//@end
//@fn src/instances/opt.rs Objective::clause_weight_sum chains=loop
//@ret r
    requires self.wf(), self.tot() <= usize::MAX,
    ensures r == self.cs(one()),
//@sub for (\w+) in it: soft_clauses\.iter\(\) ==> let vx_ps = vx_map_refs(soft_clauses); let ghost ps = deref_pairs(vx_ps@); proof { lem_pairs_end(ps, self.mc(), one()); } for $1 in it: vx_ps
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if self.is_w() { lem_ms_le(self.ml(), one(), one()); lem_ms_le(self.mc(), one(), one()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); }
//@loop 0 iter=it
    invariant it.seq() == vx_ps@, ps == deref_pairs(vx_ps@), pairs_of(ps, self.mc()), self.mc().dom().finite(), s == sm(ps.take(it.index@ as int), pw(one())), ms(self.mc(), one()) <= usize::MAX,
//@ghost loop 0 start
    proof { lem_pairs_step(ps, self.mc(), it.index@ as int, one()); }
//@end
//@fn src/instances/opt.rs Objective::weight_sum
//@ret r
    requires self.wf(), self.tot() <= usize::MAX,
    ensures r == self.tot(),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof { if self.is_w() && self.wf() { lem_ms_pos(self.ml()); lem_ms_pos(self.mc()); } lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un()); 
        if self.wf() && !(self.is_w()) { let (u, p, q) = (self.un(), self.vl().len(), self.vc().len()); if u > 0 && p > 0 { assert(u * p > 0) by (nonlinear_arith) requires u > 0, p > 0; } if u > 0 && q > 0 { assert(u * q > 0) by (nonlinear_arith) requires u > 0, q > 0; } } }
//@end
//@fn src/instances/opt.rs Objective::evaluate_no_offset chains=loop
//@ret r
    requires self.wf(), self.tot() <= usize::MAX,
    ensures r == self.ls(set_by(sol)) + self.cs(unsat_by(sol)),
//@sub for (\w+) in it0: soft_lits\.iter\(\) ==> let vx_pl = vx_map_refs(soft_lits); let ghost pl = deref_pairs(vx_pl@); proof { lem_pairs_end(pl, self.ml(), set_by(sol)); } for $1 in it0: vx_pl
//@sub for (\w+) in it1: soft_clauses\.iter\(\) ==> let vx_pc = vx_map_refs(soft_clauses); let ghost pc = deref_pairs(vx_pc@); proof { lem_pairs_end(pc, self.mc(), unsat_by(sol)); } for $1 in it1: vx_pc
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof {
        let (g, h) = (set_by(sol), unsat_by(sol));
        if self.is_w() { lem_ms_le(self.ml(), g, one()); lem_ms_le(self.mc(), h, one()); }
        lem_chg_v(self.vl(), arbitrary(), self.un()); lem_chg_v(self.vc(), arbitrary(), self.un());
        assert forall|i: int| 0 <= i < self.vl().len() implies g(#[trigger] self.vl()[i]) <= one::<Lit>()(self.vl()[i]) by {} lem_sm_le(self.vl(), g, one());
        assert forall|i: int| 0 <= i < self.vc().len() implies h(#[trigger] self.vc()[i]) <= one::<Clause>()(self.vc()[i]) by {} lem_sm_le(self.vc(), h, one());
        lem_sm_nonneg(self.vl(), g); lem_sm_nonneg(self.vc(), h); lem_seq_end(self.vl(), g); lem_seq_end(self.vc(), h); lem_sm_const(self.vl(), one(), 1); lem_sm_const(self.vc(), one(), 1);
        let (u, p, q, n, m) = (self.un(), sm(self.vl(), g), sm(self.vc(), h), self.vl().len() as int, self.vc().len() as int);
        assert((p + q) * u == u * p + u * q && u * (n + m) == u * n + u * m && u * (p + q) <= u * (n + m)) by (nonlinear_arith) requires u >= 0, p <= n, q <= m;
        if u > 0 { assert(u * (n + m) >= n + m) by (nonlinear_arith) requires u > 0, n + m >= 0; }
    }
//@loop 0 iter=it0
    invariant it0.seq() == vx_pl@, pl == deref_pairs(vx_pl@), pairs_of(pl, self.ml()), self.ml().dom().finite(), c == sm(pl.take(it0.index@ as int), pw(set_by(sol))), ms(self.ml(), set_by(sol)) <= usize::MAX,
//@ghost loop 0 start
    proof { lem_pairs_step(pl, self.ml(), it0.index@ as int, set_by(sol)); }
//@loop 1 iter=it1
    invariant it1.seq() == vx_pc@, pc == deref_pairs(vx_pc@), pairs_of(pc, self.mc()), self.mc().dom().finite(), c == cost + sm(pc.take(it1.index@ as int), pw(unsat_by(sol))), cost + ms(self.mc(), unsat_by(sol)) <= usize::MAX,
//@ghost loop 1 start
    proof { lem_pairs_step(pc, self.mc(), it1.index@ as int, unsat_by(sol)); let e = pc[it1.index@ as int].0; assert(*vx_pc@[it1.index@ as int].0 == e);
        assert(unsat_by(sol)(e) == b2i(forall|i: int| 0 <= i < e.s().len() ==> sol.lval(#[trigger] e.s()[i]) == TernaryVal::False)); }
//@loop 2 iter=it2
    invariant it2.seq().len() == self.vl().len(), forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == self.vl()[i], c == sm(self.vl().take(it2.index@ as int), set_by(sol)), c <= it2.index@, it2.seq().len() <= usize::MAX,
//@ghost loop 2 start
    proof { lem_sm_take(self.vl(), it2.index@ as int, set_by(sol)); }
//@loop 3 iter=it3
    invariant it3.seq().len() == self.vc().len(), forall|i: int| 0 <= i < it3.seq().len() ==> *#[trigger] it3.seq()[i] == self.vc()[i], c == cost + sm(self.vc().take(it3.index@ as int), unsat_by(sol)), c <= it3.index@ + cost, cost <= usize::MAX - self.vc().len(),
//@ghost loop 3 start
    proof { lem_sm_take(self.vc(), it3.index@ as int, unsat_by(sol)); }
//@end
//@fn src/instances/opt.rs Objective::evaluate panic=allowed
//@ret r
    requires self.wf(), self.tot() <= isize::MAX, self.off() + self.tot() <= isize::MAX,
    ensures r == self.off() + self.ls(set_by(sol)) + self.cs(unsat_by(sol)),
        // a total assignment costs the offset plus the weights of the true soft literals and the falsified soft clauses
        forall|a: Asg| total_as(sol, a) ==> r == #[trigger] self.cost(a),
//@ghost start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    proof {
        let (g, h) = (set_by(sol), unsat_by(sol));
        lem_ls_le(self, g, one()); lem_cs_le(self, h, one());
        assert forall|a: Asg| total_as(sol, a) implies self.off() + self.ls(g) + self.cs(h) == #[trigger] self.cost(a) by {
            assert forall|l: Lit| g(l) == #[trigger] set_in(a)(l) by { assert(sol.val(l.v() as int) == TernaryVal::of(a(l.v()))); }
            assert forall|c: Clause| h(c) == #[trigger] falsified(a)(c) by { lem_total_unsat(sol, a, c); }
            lem_ls_le(self, g, set_in(a)); lem_ls_le(self, set_in(a), g); lem_cs_le(self, h, falsified(a)); lem_cs_le(self, falsified(a), h);
        }
    }
//@end
}
