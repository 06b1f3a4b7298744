// ---- node database ----
//@grename NonZeroUsize => VxNz
//@grename NonZeroU8 => VxNz8
//@grename NonZeroUsize::new => VxNz::new
//@grename NonZeroU8::new => VxNz8::new
#[derive(Clone, Copy)]
pub struct VxNz { pub v: usize }
impl VxNz { pub fn get(self) -> (r: usize) ensures r == self.v { self.v }
    pub fn new(v: usize) -> (r: Option<VxNz>) ensures v > 0 ==> r == Some(VxNz { v }), v == 0 ==> r is None { if v > 0 { Some(VxNz { v }) } else { None } }
}
#[derive(Clone, Copy)]
pub struct VxNz8 { pub v: u8 }
impl VxNz8 {
    pub fn get(self) -> (r: u8) ensures r == self.v { self.v }
    pub fn new(v: u8) -> (r: Option<VxNz8>) ensures v > 0 ==> r == Some(VxNz8 { v }), v == 0 ==> r is None { if v > 0 { Some(VxNz8 { v }) } else { None } }
}
//@struct src/encodings/nodedb.rs NodeId Clone,Copy
//@struct src/encodings/nodedb.rs NodeCon Clone,Copy
//@struct src/encodings/totdb/mod.rs Semantics Clone,Copy
//@struct src/encodings/totdb/mod.rs LitData Clone,Copy
//@struct src/encodings/totdb/mod.rs UnitNode
//@struct src/encodings/totdb/mod.rs GeneralNode
//@struct src/encodings/totdb/mod.rs Node
//@struct src/encodings/totdb/mod.rs Db
//@sub RsHashMap<Lit, NodeId> ==> std::collections::HashMap<Lit, NodeId>
//@sub (?s)\s*pub semantic_defs: RsHashMap<[^>]*>, ==> 
//@end
#[derive(Clone, Copy)]
pub struct VxIncl { pub lo: usize, pub hi: usize }
//@struct src/encodings/totdb/mod.rs UnweightedPrecondResult Clone,Copy
//@sub std::ops::RangeInclusive<usize> ==> VxIncl
//@end
//@struct src/encodings/totdb/mod.rs PrecondOutcome
// ---- connections (multiplier one) ----
impl NodeCon {
    pub open spec fn ok(self) -> bool { self.divisor.v >= 1 && self.multiplier.v >= 1 && (self.len_limit is Some ==> self.len_limit->Some_0.v >= 1) }
    pub open spec fn lim(self, x: int) -> int { if self.len_limit is Some && self.len_limit->Some_0.v < x { self.len_limit->Some_0.v as int } else { x } }
    /// number of outputs seen through the connection, of n
    pub open spec fn clen(self, n: int) -> int { self.lim((n - self.offset) / (self.divisor.v as int)) }
    /// value seen through the connection
    pub open spec fn cval(self, v: int) -> int { if v <= self.offset { 0 } else { self.lim((v - self.offset) / (self.divisor.v as int)) } }
    /// index of the child's output behind the connection's output idx
    pub open spec fn ridx(self, idx: int) -> int { (idx + 1) * (self.divisor.v as int) + self.offset - 1 }
}
pub open spec fn is_full(c: NodeCon) -> bool { c.offset == 0 && c.divisor.v == 1 && c.multiplier.v == 1 && c.len_limit is None }
pub proof fn lem_con(c: NodeCon, n: int, k: int, v: int)
    requires c.ok(), 0 <= c.offset <= n, 0 <= k < c.clen(n), 0 <= v <= n,
    ensures 0 <= c.ridx(k) < n, c.cval(v) >= k + 1 <==> v >= c.ridx(k) + 1, (k + 1) * (c.divisor.v as int) + c.offset <= n,
{
    let d = c.divisor.v as int;
    let m = n - c.offset;
    let q = m / d;
    assert(q * d <= m) by (nonlinear_arith) requires q == m / d, d >= 1;
    assert((k + 1) * d <= q * d) by (nonlinear_arith) requires k + 1 <= q, d >= 1;
    assert((k + 1) * d >= 1) by (nonlinear_arith) requires k >= 0, d >= 1;
    if v > c.offset {
        let w = v - c.offset;
        let p = w / d;
        assert(p * d <= w < p * d + d) by (nonlinear_arith) requires p == w / d, d >= 1;
        if p >= k + 1 { assert((k + 1) * d <= p * d) by (nonlinear_arith) requires k + 1 <= p, d >= 1; }
        else { assert(p * d + d <= (k + 1) * d) by (nonlinear_arith) requires p + 1 <= k + 1, d >= 1; }
    }
}
pub proof fn lem_cval(c: NodeCon, n: int, v: int)
    requires c.ok(), 0 <= c.offset <= n, 0 <= v <= n,
    ensures 0 <= c.cval(v) <= c.clen(n), 0 <= c.clen(n) <= n - c.offset, is_full(c) ==> c.cval(v) == v && c.clen(n) == n && forall|k: int| #[trigger] c.ridx(k) == k,
{
    let d = c.divisor.v as int;
    let m = n - c.offset;
    assert(0 <= m / d <= m) by (nonlinear_arith) requires m >= 0, d >= 1;
    if v > c.offset {
        let w = v - c.offset;
        assert(0 <= w / d <= m / d) by (nonlinear_arith) requires 0 <= w <= m, d >= 1;
    }
    if is_full(c) { assert(w_one(m)); assert(forall|k: int| #[trigger] c.ridx(k) == k); if v > 0 { assert(w_one(v)); } }
}
pub open spec fn w_one(x: int) -> bool { x / 1 == x }
impl NodeCon {
//@fn src/encodings/nodedb.rs NodeCon::full
//@ret r
    ensures r.id == id, is_full(r), r.ok(),
//@sub NonZeroU8 ==> VxNz8
//@sub NonZeroUsize ==> VxNz
//@end
//@fn src/encodings/nodedb.rs NodeCon::offset
//@ret r
    ensures r == self.offset,
//@end
//@fn src/encodings/nodedb.rs NodeCon::divisor
//@ret r
    ensures r == self.divisor.v,
//@sub self\.divisor\.into\(\) ==> self.divisor.get()
//@sub div\.into\(\) ==> div as usize
//@end
//@fn src/encodings/nodedb.rs NodeCon::multiplier
//@ret r
    ensures r == self.multiplier.v,
//@sub self\.multiplier\.into\(\) ==> self.multiplier.get()
//@end
//@fn src/encodings/nodedb.rs NodeCon::rev_map
//@ret r
    requires self.ok(), self.multiplier.v == 1, val * self.divisor.v + self.offset <= usize::MAX,
    ensures self.len_limit is None || val <= self.len_limit->Some_0.v ==> r == (if val == 0 && self.len_limit is Some { 0int } else { val * (self.divisor.v as int) + self.offset }),
//@sub limit\.into\(\) ==> limit.get()
//@ghost start
    proof {
        let d = self.divisor.v as int;
        assert(val / 1 == val);
        assert(0 <= val * d) by (nonlinear_arith) requires val >= 0, d >= 1;
        if self.len_limit is Some { let l = self.len_limit->Some_0.v as int; if l < val { assert(l * d <= val * d) by (nonlinear_arith) requires l <= val, d >= 1; assert(l * d >= 0) by (nonlinear_arith) requires l >= 0, d >= 1; } }
        assert(val >= 1 ==> val * d >= 1) by (nonlinear_arith) requires d >= 1;
    }
//@end
}
//@fn src/encodings/totdb/mod.rs con_idx
//@ret r
    requires con.ok(), con.multiplier.v == 1, exists|n: int| n <= usize::MAX && con.offset <= n && idx < #[trigger] con.clen(n),
    ensures r == con.ridx(idx as int),
//@ghost start
    proof { let n = choose|n: int| n <= usize::MAX && con.offset <= n && idx < #[trigger] con.clen(n); lem_con(con, n, idx as int, 0); }
//@end
// ---- semantics of outputs ----
impl Semantics {
    pub open spec fn sif(self) -> bool { self is If || self is IfAndOnlyIf }
    pub open spec fn soi(self) -> bool { self is OnlyIf || self is IfAndOnlyIf }
//@fn src/encodings/totdb/mod.rs Semantics::has_if
//@ret r
    ensures r == self.sif(),
//@end
//@fn src/encodings/totdb/mod.rs Semantics::has_only_if
//@ret r
    ensures r == self.soi(),
//@end
//@fn src/encodings/totdb/mod.rs Semantics::add
    ensures final(self).sif() == (old(self).sif() || new.sif()), final(self).soi() == (old(self).soi() || new.soi()),
//@end
//@fn src/encodings/totdb/mod.rs Semantics::remove
//@ret r
    ensures r is Some ==> (r->Some_0.sif() ==> self.sif() && !remove.sif()) && (r->Some_0.soi() ==> self.soi() && !remove.soi()),
        (self.sif() && !remove.sif()) ==> r is Some && r->Some_0.sif(), (self.soi() && !remove.soi()) ==> r is Some && r->Some_0.soi(),
//@end
//@fn src/encodings/totdb/mod.rs Semantics::missing
//@ret r
    ensures r is None <==> (required.sif() ==> self.sif()) && (required.soi() ==> self.soi()),
        r is Some ==> (r->Some_0.sif() <==> required.sif() && !self.sif()) && (r->Some_0.soi() <==> required.soi() && !self.soi()),
//@end
}
impl LitData {
    /// the literal, if reserved
    pub open spec fn l(self) -> Option<Lit> { match self { LitData::None => None, LitData::Lit { lit, .. } => Some(lit) } }
    pub open spec fn sem(self) -> Option<Semantics> { match self { LitData::None => None, LitData::Lit { semantics, .. } => semantics } }
    pub open spec fn dif(self) -> bool { self.sem() is Some && self.sem()->Some_0.sif() }
    pub open spec fn doi(self) -> bool { self.sem() is Some && self.sem()->Some_0.soi() }
//@fn src/encodings/totdb/mod.rs LitData::new_lit
//@ret r
    ensures r.l() == Some(lit), r.sem() is None,
//@end
//@fn src/encodings/totdb/mod.rs LitData::lit
//@ret r
    ensures r is Some <==> self.l() is Some, r is Some ==> *(r->Some_0) == self.l()->Some_0,
//@end
//@fn src/encodings/totdb/mod.rs LitData::add_semantics
    requires old(self).l() is Some,
    ensures final(self).l() == old(self).l(), final(self).dif() == (old(self).dif() || new_semantics.sif()), final(self).doi() == (old(self).doi() || new_semantics.soi()),
//@end
//@fn src/encodings/totdb/mod.rs LitData::remove_semantics
    ensures final(self).l() == old(self).l(), final(self).dif() == (old(self).dif() && !remove_semantics.sif()), final(self).doi() == (old(self).doi() && !remove_semantics.soi()),
//@end
//@fn src/encodings/totdb/mod.rs LitData::missing_semantics
//@ret r
    ensures r is None <==> self.sem() is Some && (required.sif() ==> self.dif()) && (required.soi() ==> self.doi()),
        r is Some ==> (r->Some_0.sif() <==> required.sif() && !self.dif()) && (r->Some_0.soi() <==> required.soi() && !self.doi()),
//@end
}
// ---- nodes ----
impl UnitNode {
//@fn src/encodings/totdb/mod.rs UnitNode::lit
//@ret r
    requires 1 <= val <= self.lits@.len(),
    ensures r is Some <==> self.lits@[val - 1].l() is Some, r is Some ==> *(r->Some_0) == self.lits@[val - 1].l()->Some_0,
//@end
}
/// weighted nodes are outside (nothing is assumed about them)
impl GeneralNode { #[verifier::external_body] pub fn lit(&self, val: usize) -> (r: Option<&Lit>) { unimplemented!() } }
impl Node {
    pub open spec fn nmax(self) -> int { match self { Node::Leaf(_) => 1, Node::Unit(u) => u.lits@.len() as int, Node::General(g) => g.max_val as int, Node::Dummy => 0 } }
    pub open spec fn nlen(self) -> int { match self { Node::Leaf(_) => 1, Node::Unit(u) => u.lits@.len() as int, Node::General(g) => g.lits@.len() as int, Node::Dummy => 0 } }
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::is_leaf
//@ret r
    ensures r == (self is Leaf),
//@end
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::max_val
//@ret r
    ensures r == self.nmax(),
//@end
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::len
//@ret r
    ensures r == self.nlen(),
//@end
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::right
//@ret r
    ensures r == (match *self { Node::Unit(u) => Some(u.right), Node::General(g) => Some(g.right), _ => None }),
//@end
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::left
//@ret r
    ensures r == (match *self { Node::Unit(u) => Some(u.left), Node::General(g) => Some(g.left), _ => None }),
//@end
//@fn src/encodings/totdb/mod.rs Node::unit
//@ret r
    requires self is Unit,
    ensures *r == self->Unit_0,
//@end
//@fn src/encodings/totdb/mod.rs Node::mut_unit
//@ret r
    requires *old(self) is Unit,
    ensures *r == (*old(self))->Unit_0, *final(self) == Node::Unit(*final(r)),
//@end
/// the literal of an output, if reserved
    pub open spec fn out(self, k: int) -> Option<Lit> { match self { Node::Leaf(l) => if k == 0 { Some(l) } else { None }, Node::Unit(u) => if 0 <= k < u.lits@.len() { u.lits@[k].l() } else { None }, _ => None } }
    pub open spec fn oif(self, k: int) -> bool { match self { Node::Leaf(l) => k == 0, Node::Unit(u) => 0 <= k < u.lits@.len() && u.lits@[k].dif(), _ => false } }
    pub open spec fn ooi(self, k: int) -> bool { match self { Node::Leaf(l) => k == 0, Node::Unit(u) => 0 <= k < u.lits@.len() && u.lits@[k].doi(), _ => false } }
//@fn src/encodings/totdb/mod.rs Node::lit
//@ret r
    requires self is Leaf || self is Unit, self is Unit ==> 1 <= val <= self->Unit_0.lits@.len(),
    ensures r is Some <==> self.out(val - 1) is Some, r is Some ==> *(r->Some_0) == self.out(val - 1)->Some_0,
//@end
}
// ---- the database ----
pub type Ns = Seq<Node>;
pub open spec fn con_in(ns: Ns, i: int, c: NodeCon) -> bool {
    0 <= c.id.0 < i && i <= ns.len() && c.ok() && c.multiplier.v == 1 && (ns[c.id.0 as int] is Leaf || ns[c.id.0 as int] is Unit) && c.offset <= ns[c.id.0 as int].nlen()
}
pub open spec fn nlen(ns: Ns, c: NodeCon) -> int { c.clen(ns[c.id.0 as int].nlen()) }
/// the tree below every unit node is well formed; no dummies
pub open spec fn node_in(ns: Ns, i: int) -> bool {
    match ns[i] { Node::Unit(u) => con_in(ns, i, u.left) && con_in(ns, i, u.right) && u.lits@.len() == nlen(ns, u.left) + nlen(ns, u.right) && u.lits@.len() >= 1, Node::Dummy => false, _ => true }
}
pub open spec fn db_in(ns: Ns) -> bool { forall|i: int| 0 <= i < ns.len() ==> node_in(ns, i) }
pub open spec fn is_u(n: Node) -> bool { n is Leaf || n is Unit }
/// number of true inputs below a node, as seen through the connections
pub open spec fn nval(ns: Ns, i: int, a: Asg) -> int decreases i when i >= 0 {
    if i >= ns.len() { 0 } else {
        match ns[i] {
            Node::Leaf(l) => b2i(tv(a, l)),
            Node::Unit(u) => (if u.left.id.0 < i { u.left.cval(nval(ns, u.left.id.0 as int, a)) } else { 0 }) + (if u.right.id.0 < i { u.right.cval(nval(ns, u.right.id.0 as int, a)) } else { 0 }),
            _ => 0,
        }
    }
}
pub open spec fn same_node(m: Node, n: Node) -> bool {
    match m { Node::Unit(u) => n is Unit && n->Unit_0.left == u.left && n->Unit_0.right == u.right && n->Unit_0.lits@.len() == u.lits@.len() && n->Unit_0.depth == u.depth && n->Unit_0.n_leaves == u.n_leaves, _ => m == n }
}
pub open spec fn same(ns: Ns, ms: Ns) -> bool { ns.len() == ms.len() && forall|i: int| 0 <= i < ns.len() ==> same_node(#[trigger] ns[i], ms[i]) }
/// reserved literals stay, semantics only grow
pub open spec fn dext_node(m: Node, n: Node) -> bool {
    same_node(m, n) && forall|k: int| #![trigger n.out(k)] #![trigger m.out(k)] (m.out(k) is Some ==> n.out(k) == m.out(k)) && (m.oif(k) ==> n.oif(k)) && (m.ooi(k) ==> n.ooi(k))
}
pub open spec fn dext(ns: Ns, ms: Ns) -> bool { ns.len() == ms.len() && forall|i: int| 0 <= i < ns.len() ==> dext_node(#[trigger] ns[i], ms[i]) }
/// the meaning of what is marked as encoded
pub open spec fn holds_if(ns: Ns, a: Asg) -> bool { forall|i: int, k: int| 0 <= i < ns.len() && #[trigger] ns[i].oif(k) ==> ns[i].out(k) is Some && (nval(ns, i, a) >= k + 1 ==> tv(a, ns[i].out(k)->Some_0)) }
pub open spec fn holds_oi(ns: Ns, a: Asg) -> bool { forall|i: int, k: int| 0 <= i < ns.len() && #[trigger] ns[i].ooi(k) ==> ns[i].out(k) is Some && (tv(a, ns[i].out(k)->Some_0) ==> nval(ns, i, a) >= k + 1) }
pub open spec fn sem_if(ns: Ns, c: Seq<Clause>) -> bool { forall|a: Asg| #[trigger] cnf_true(c, a) ==> holds_if(ns, a) }
pub open spec fn sem_oi(ns: Ns, c: Seq<Clause>) -> bool { forall|a: Asg| #[trigger] cnf_true(c, a) ==> holds_oi(ns, a) }
/// every reserved output is exactly its meaning
pub open spec fn strict(ns: Ns, a: Asg) -> bool { forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some ==> (tv(a, ns[i].out(k)->Some_0) <==> nval(ns, i, a) >= k + 1) }
/// the clauses hold whenever every output is exactly its meaning
pub open spec fn cons_ok(ns: Ns, d: Seq<Clause>) -> bool { forall|a: Asg| #![trigger cnf_true(d, a)] #![trigger strict(ns, a)] strict(ns, a) ==> cnf_true(d, a) }
/// the clauses d establish what is newly marked as encoded
pub open spec fn if_imp(ns: Ns, ms: Ns, d: Seq<Clause>) -> bool { forall|a: Asg| #![trigger holds_if(ms, a)] #![trigger holds_if(ns, a), cnf_true(d, a)] holds_if(ns, a) && cnf_true(d, a) ==> holds_if(ms, a) }
pub open spec fn oi_imp(ns: Ns, ms: Ns, d: Seq<Clause>) -> bool { forall|a: Asg| #![trigger holds_oi(ms, a)] #![trigger holds_oi(ns, a), cnf_true(d, a)] holds_oi(ns, a) && cnf_true(d, a) ==> holds_oi(ms, a) }
/// only variables of outputs and leaves occur
pub open spec fn outv(ns: Ns, v: nat) -> bool { exists|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v }
pub open spec fn lits_out(s: Seq<Lit>, ns: Ns) -> bool { forall|j: int| 0 <= j < s.len() ==> outv(ns, (#[trigger] s[j]).v()) }
pub open spec fn cls_out(d: Seq<Clause>, ns: Ns) -> bool { forall|i: int| 0 <= i < d.len() ==> lits_out((#[trigger] d[i]).s(), ns) }
/// variables in the database lie below n; output variables are no inputs and pairwise different
pub open spec fn vars_in(ns: Ns, n: nat) -> bool {
    &&& forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some ==> ns[i].out(k)->Some_0.v() < n
    &&& forall|i: int, k: int, j: int, m: int| 0 <= i < ns.len() && 0 <= j < ns.len() && ns[i] is Unit && (#[trigger] ns[i].out(k)) is Some && (#[trigger] ns[j].out(m)) is Some && ns[i].out(k)->Some_0.v() == ns[j].out(m)->Some_0.v() ==> i == j && k == m
    &&& forall|i: int, k: int| 0 <= i < ns.len() && ns[i] is Unit && (#[trigger] ns[i].out(k)) is Some ==> !ns[i].out(k)->Some_0.neg()
}
pub proof fn lem_nval(ns: Ns, ms: Ns, i: int, a: Asg) requires same(ns, ms), i >= 0 ensures nval(ns, i, a) == nval(ms, i, a) decreases i
{
    if i < ns.len() { assert(same_node(ns[i], ms[i])); if ns[i] is Unit { let u = ns[i]->Unit_0; if u.left.id.0 < i { lem_nval(ns, ms, u.left.id.0 as int, a); } if u.right.id.0 < i { lem_nval(ns, ms, u.right.id.0 as int, a); } } }
}
pub proof fn lem_nval_range(ns: Ns, i: int, a: Asg) requires db_in(ns), 0 <= i < ns.len(), is_u(ns[i]) ensures 0 <= nval(ns, i, a) <= ns[i].nlen(), ns[i].nlen() >= 1 decreases i
{
    assert(node_in(ns, i));
    if ns[i] is Unit { let u = ns[i]->Unit_0; lem_nval_range(ns, u.left.id.0 as int, a); lem_nval_range(ns, u.right.id.0 as int, a); lem_cval(u.left, ns[u.left.id.0 as int].nlen(), nval(ns, u.left.id.0 as int, a)); lem_cval(u.right, ns[u.right.id.0 as int].nlen(), nval(ns, u.right.id.0 as int, a)); }
}
pub proof fn lem_same(ns: Ns, ms: Ns) requires same(ns, ms) ensures db_in(ns) ==> db_in(ms), forall|i: int, a: Asg| #![trigger nval(ms, i, a)] i >= 0 ==> nval(ns, i, a) == nval(ms, i, a)
{
    if db_in(ns) { assert forall|i: int| 0 <= i < ms.len() implies node_in(ms, i) by { assert(node_in(ns, i)); assert(same_node(ns[i], ms[i])); if ns[i] is Unit { let u = ns[i]->Unit_0; assert(same_node(ns[u.left.id.0 as int], ms[u.left.id.0 as int])); assert(same_node(ns[u.right.id.0 as int], ms[u.right.id.0 as int])); } } }
    assert forall|i: int, a: Asg| #![trigger nval(ms, i, a)] i >= 0 implies nval(ns, i, a) == nval(ms, i, a) by { lem_nval(ns, ms, i, a); }
}
pub proof fn lem_dext(ns: Ns, ms: Ns) requires dext(ns, ms) ensures same(ns, ms), forall|a: Asg| #[trigger] strict(ms, a) ==> strict(ns, a)
{
    assert(same(ns, ms)) by { assert forall|i: int| 0 <= i < ns.len() implies same_node(#[trigger] ns[i], ms[i]) by { assert(dext_node(ns[i], ms[i])); } }
    lem_same(ns, ms);
    assert forall|a: Asg| #[trigger] strict(ms, a) implies strict(ns, a) by {
        assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some implies (tv(a, ns[i].out(k)->Some_0) <==> nval(ns, i, a) >= k + 1) by { assert(dext_node(ns[i], ms[i])); assert(ms[i].out(k) == ns[i].out(k)); assert(nval(ms, i, a) == nval(ns, i, a)); }
    }
}
pub proof fn lem_dext_trans(ns: Ns, ms: Ns, os: Ns) requires dext(ns, ms), dext(ms, os) ensures dext(ns, os)
{
    assert forall|i: int| 0 <= i < ns.len() implies dext_node(#[trigger] ns[i], os[i]) by { assert(dext_node(ns[i], ms[i])); assert(dext_node(ms[i], os[i]));
        assert forall|k: int| #![trigger os[i].out(k)] #![trigger ns[i].out(k)] (ns[i].out(k) is Some ==> os[i].out(k) == ns[i].out(k)) && (ns[i].oif(k) ==> os[i].oif(k)) && (ns[i].ooi(k) ==> os[i].ooi(k)) by { let z = ms[i].out(k); } }
}
pub proof fn lem_dext_refl(ns: Ns) ensures dext(ns, ns) {}
/// the strict extension of an assignment exists
pub open spec fn sext(ns: Ns, a: Asg) -> Asg { |v: nat| if is_out(ns, v) { let p = out_at(ns, v); nval(ns, p.0, a) >= p.1 + 1 } else { a(v) } }
pub open spec fn is_out(ns: Ns, v: nat) -> bool { exists|i: int, k: int| 0 <= i < ns.len() && ns[i] is Unit && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v }
pub open spec fn out_at(ns: Ns, v: nat) -> (int, int) { choose|p: (int, int)| 0 <= p.0 < ns.len() && ns[p.0] is Unit && (#[trigger] ns[p.0].out(p.1)) is Some && ns[p.0].out(p.1)->Some_0.v() == v }
pub proof fn lem_nval_in(ns: Ns, i: int, a: Asg, b: Asg)
    requires i >= 0, forall|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]) is Leaf ==> tv(a, ns[j]->Leaf_0) == tv(b, ns[j]->Leaf_0),
    ensures nval(ns, i, a) == nval(ns, i, b),
    decreases i,
{
    if i < ns.len() && ns[i] is Unit { let u = ns[i]->Unit_0; if u.left.id.0 < i { lem_nval_in(ns, u.left.id.0 as int, a, b); } if u.right.id.0 < i { lem_nval_in(ns, u.right.id.0 as int, a, b); } }
}
pub proof fn lem_sext(ns: Ns, n: nat, a: Asg)
    requires vars_in(ns, n),
    ensures strict(ns, sext(ns, a)), forall|v: nat| !is_out(ns, v) ==> #[trigger] sext(ns, a)(v) == a(v), forall|i: int| i >= 0 ==> #[trigger] nval(ns, i, sext(ns, a)) == nval(ns, i, a),
{
    let b = sext(ns, a);
    assert forall|j: int| 0 <= j < ns.len() && (#[trigger] ns[j]) is Leaf implies tv(a, ns[j]->Leaf_0) == tv(b, ns[j]->Leaf_0) by {
        assert(ns[j].out(0) is Some);
        let v = ns[j]->Leaf_0.v();
        if is_out(ns, v) { let (i, k) = choose|i: int, k: int| 0 <= i < ns.len() && ns[i] is Unit && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v; assert(i == j); }
    }
    assert forall|i: int| i >= 0 implies #[trigger] nval(ns, i, b) == nval(ns, i, a) by { lem_nval_in(ns, i, a, b); }
    assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ns[i].out(k)) is Some implies (tv(b, ns[i].out(k)->Some_0) <==> nval(ns, i, b) >= k + 1) by {
        if ns[i] is Unit {
            let v = ns[i].out(k)->Some_0.v();
            assert(is_out(ns, v));
            let (i2, k2) = choose|i: int, k: int| 0 <= i < ns.len() && ns[i] is Unit && (#[trigger] ns[i].out(k)) is Some && ns[i].out(k)->Some_0.v() == v;
            let q = (i2, k2); assert(ns[q.0].out(q.1) is Some);
            let p = out_at(ns, v);
            assert(ns[p.0].out(p.1) is Some && ns[p.0].out(p.1)->Some_0.v() == v);
            assert(p.0 == i && p.1 == k);
            assert(nval(ns, i, b) == nval(ns, i, a));
        } else { assert(ns[i] is Leaf); assert(nval(ns, i, b) == b2i(tv(b, ns[i]->Leaf_0))); }
    }
}
pub open spec fn mn(x: int, y: int) -> int { if x <= y { x } else { y } }
pub open spec fn incl(r: VxIncl, lo: int, hi: int) -> bool { r.lo == lo && r.hi == hi }
pub open spec fn ine(r: VxIncl) -> bool { r.lo > r.hi }
/// which children's outputs are combined
pub open spec fn pre_ok(ns: Ns, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool) -> bool {
    &&& 0 <= i < ns.len() && ns[i] is Unit && 0 <= idx < ns[i].nlen() && p.lcon == ns[i]->Unit_0.left && p.rcon == ns[i]->Unit_0.right
    &&& pre_rng(p, nlen(ns, p.lcon), nlen(ns, p.rcon), idx, wif, woi)
}
pub open spec fn pre_rng(p: UnweightedPrecondResult, ll: int, rl: int, idx: int, wif: bool, woi: bool) -> bool {
    &&& if wif { incl(p.left_if, idx + 1 - mn(rl, idx + 1), mn(ll, idx + 1)) && incl(p.right_if, idx + 1 - mn(ll, idx + 1), mn(rl, idx + 1)) } else { ine(p.left_if) && ine(p.right_if) }
    &&& if woi { incl(p.left_only_if, idx - mn(rl, idx), mn(ll, idx)) && incl(p.right_only_if, idx - mn(ll, idx), mn(rl, idx)) } else { ine(p.left_only_if) && ine(p.right_only_if) }
}
pub open spec fn done(n: Node, k: int, s: Semantics) -> bool { n.out(k) is Some && (s.sif() ==> n.oif(k)) && (s.soi() ==> n.ooi(k)) }
pub proof fn lem_len(ns: Ns, i: int) requires db_in(ns), 0 <= i < ns.len(), ns[i] is Unit
    ensures nlen(ns, ns[i]->Unit_0.left) >= 0, nlen(ns, ns[i]->Unit_0.right) >= 0, nlen(ns, ns[i]->Unit_0.left) + nlen(ns, ns[i]->Unit_0.right) == ns[i].nlen(), node_in(ns, i), ns[i].nlen() <= usize::MAX,
        node_in(ns, ns[i]->Unit_0.left.id.0 as int), node_in(ns, ns[i]->Unit_0.right.id.0 as int),
{ assert(node_in(ns, i)); let u = ns[i]->Unit_0; lem_cval(u.left, ns[u.left.id.0 as int].nlen(), 0); lem_cval(u.right, ns[u.right.id.0 as int].nlen(), 0); assert(u.lits@.len() == u.lits.len()); }
impl Db {
//@fn src/encodings/nodedb.rs trait:NodeById::con_len
//@ret r
    requires con.id.0 < self.nodes@.len(), con.ok(), con.offset <= self.nodes@[con.id.0 as int].nlen(),
    ensures r == nlen(self.nodes@, con),
//@sub self\[con\.id\] ==> self.nodes[con.id.0]
//@sub limit\.into\(\) ==> limit.get()
//@end
//@fn src/encodings/totdb/mod.rs Db::precond_unweighted
//@ret r
    requires db_in(old(self).nodes@), id.0 < old(self).nodes@.len(), is_u(old(self).nodes@[id.0 as int]), idx < old(self).nodes@[id.0 as int].nlen(),
    ensures *final(self) == *old(self), !(r is Passthrough),
        r is Return ==> done(old(self).nodes@[id.0 as int], idx as int, req_semantics) && r->Return_0 == old(self).nodes@[id.0 as int].out(idx as int)->Some_0,
        r is Continue ==> old(self).nodes@[id.0 as int] is Unit && !done(old(self).nodes@[id.0 as int], idx as int, req_semantics) && pre_ok(old(self).nodes@, r->Continue_0, id.0 as int, idx as int, req_semantics.sif() && !old(self).nodes@[id.0 as int].oif(idx as int), req_semantics.soi() && !old(self).nodes@[id.0 as int].ooi(idx as int)),
//@sub self\[id\] ==> self.nodes[id.0]
//@sub self\[(lcon|rcon|realcon)\.id\] ==> self.nodes[$1.id.0]
//@sub node\[1\] ==> *node.lit(1).unwrap()
//@sub 1\.\.=0 ==> VxIncl { lo: 1, hi: 0 }
//@sub (idx(?: \+ 1)? - \w+)\.\.=(\w+) ==> VxIncl { lo: $1, hi: $2 }
//@ghost start
    proof { assert(node_in(self.nodes@, id.0 as int)); if self.nodes@[id.0 as int] is Unit { lem_len(self.nodes@, id.0 as int); } }
//@end
//@fn src/encodings/totdb/mod.rs Db::get_olit dyn
//@ret r
    requires id.0 < old(self).nodes@.len(), old(self).nodes@[id.0 as int] is Unit, idx < old(self).nodes@[id.0 as int].nlen(), db_in(old(self).nodes@), vars_in(old(self).nodes@, old(var_manager).next()),
    ensures dext(old(self).nodes@, final(self).nodes@), final(self).nodes@[id.0 as int].out(idx as int) == Some(r), final(var_manager).next() >= old(var_manager).next(),
        vars_in(final(self).nodes@, final(var_manager).next()), db_in(final(self).nodes@),
        final(self).lookup_leaf == old(self).lookup_leaf,
        same_sem(old(self).nodes@, final(self).nodes@), fresh(old(self).nodes@, final(self).nodes@, old(var_manager).next()),
        forall|i: int| 0 <= i < old(self).nodes@.len() && i != id.0 ==> final(self).nodes@[i] == #[trigger] old(self).nodes@[i],
//@sub self\[id\] ==> self.nodes[id.0]
//@sub Some\(&olit\) = ([^{]+)\{\s*olit ==> Some(olit) = $1 { *olit
//@ghost start
    let ghost ns0 = self.nodes@;
    let ghost n0 = var_manager.next();
    proof { lem_len(ns0, id.0 as int); }
//@ghost end
    proof { lem_get_olit(ns0, self.nodes@, id.0 as int, idx as int, n0, var_manager.next(), vx_tail); }
//@end
}
pub proof fn lem_get_olit(ns: Ns, ms: Ns, i: int, idx: int, n0: nat, n1: nat, l: Lit)
    requires db_in(ns), vars_in(ns, n0), 0 <= i < ns.len(), ns[i] is Unit, 0 <= idx < ns[i].nlen(), ns.len() == ms.len(),
        ms == ns && n1 == n0 && ns[i].out(idx) == Some(l) || ns[i].out(idx) is None && ms =~= ns.update(i, ms[i]) && same_node(ns[i], ms[i]) && ms[i]->Unit_0.lits@ =~= ns[i]->Unit_0.lits@.update(idx, ms[i]->Unit_0.lits@[idx])
            && ms[i].out(idx) == Some(l) && ms[i]->Unit_0.lits@[idx].sem() is None && n1 == n0 + 1 && l.v() == n0 && !l.neg(),
    ensures dext(ns, ms), ms[i].out(idx) == Some(l), vars_in(ms, n1), db_in(ms), same_sem(ns, ms), fresh(ns, ms, n0), forall|j: int| 0 <= j < ns.len() && j != i ==> ms[j] == #[trigger] ns[j],
{
    if ms != ns {
        assert forall|j: int| 0 <= j < ns.len() implies dext_node(#[trigger] ns[j], ms[j]) by { assert(j != i ==> ms[j] == ns[j]); }
        lem_dext(ns, ms);
        lem_same(ns, ms);
        assert forall|j: int, k: int| 0 <= j < ms.len() && (#[trigger] ms[j].out(k)) is Some implies ms[j].out(k) == ns[j].out(k) || j == i && k == idx by {}
    }
}
pub open spec fn same_sem(ns: Ns, ms: Ns) -> bool { forall|i: int, k: int| #![trigger ms[i].oif(k)] #![trigger ms[i].ooi(k)] 0 <= i < ns.len() ==> ms[i].oif(k) == ns[i].oif(k) && ms[i].ooi(k) == ns[i].ooi(k) }
/// what the recursion has to provide: the outputs that the clauses of this node refer to
pub open spec fn kids_ok(ns: Ns, p: UnweightedPrecondResult) -> bool {
    &&& forall|v: int| p.left_if.lo <= v <= p.left_if.hi && v > 0 ==> #[trigger] kid_if(ns, p.lcon, v - 1)
    &&& forall|v: int| p.right_if.lo <= v <= p.right_if.hi && v > 0 ==> #[trigger] kid_if(ns, p.rcon, v - 1)
    &&& forall|v: int| p.left_only_if.lo <= v <= p.left_only_if.hi && v < nlen(ns, p.lcon) ==> #[trigger] kid_oi(ns, p.lcon, v)
    &&& forall|v: int| p.right_only_if.lo <= v <= p.right_only_if.hi && v < nlen(ns, p.rcon) ==> #[trigger] kid_oi(ns, p.rcon, v)
}
pub open spec fn kid(ns: Ns, c: NodeCon, k: int) -> Option<Lit> { ns[c.id.0 as int].out(c.ridx(k)) }
pub open spec fn kid_if(ns: Ns, c: NodeCon, k: int) -> bool { kid(ns, c, k) is Some && ns[c.id.0 as int].oif(c.ridx(k)) }
pub open spec fn kid_oi(ns: Ns, c: NodeCon, k: int) -> bool { kid(ns, c, k) is Some && ns[c.id.0 as int].ooi(c.ridx(k)) }
/// everything define / recurse promise
#[verifier::opaque]
pub open spec fn step_ok(ns: Ns, ms: Ns, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat) -> bool {
    &&& dext(ns, ms) && db_in(ms) && vars_in(ms, n1) && n0 <= n1
    &&& enc_new(ns, ms, since(c1, c0)) && grown(c0, c1) && fresh(ns, ms, n0)
}
/// what the new clauses mean
pub open spec fn enc_new(ns: Ns, ms: Ns, d: Seq<Clause>) -> bool { if_imp(ns, ms, d) && oi_imp(ns, ms, d) && cons_ok(ms, d) && cls_out(d, ms) }
pub proof fn lem_outv(ns: Ns, ms: Ns, d: Seq<Clause>) requires dext(ns, ms), cls_out(d, ns) ensures cls_out(d, ms)
{
    assert forall|i: int| 0 <= i < d.len() implies lits_out((#[trigger] d[i]).s(), ms) by {
        assert(lits_out(d[i].s(), ns));
        assert forall|j: int| 0 <= j < d[i].s().len() implies outv(ms, (#[trigger] d[i].s()[j]).v()) by {
            let v = d[i].s()[j].v(); assert(outv(ns, v));
            let (x, k) = choose|x: int, k: int| 0 <= x < ns.len() && (#[trigger] ns[x].out(k)) is Some && ns[x].out(k)->Some_0.v() == v;
            assert(dext_node(ns[x], ms[x])); assert(ms[x].out(k) == ns[x].out(k));
        }
    }
}
pub proof fn lem_cls_add(c: Seq<Clause>, d: Seq<Clause>, ns: Ns) requires cls_out(c, ns), cls_out(d, ns) ensures cls_out(c + d, ns)
{ assert forall|i: int| 0 <= i < (c + d).len() implies lits_out((#[trigger] (c + d)[i]).s(), ns) by { if i < c.len() { assert((c + d)[i] == c[i]); } else { assert((c + d)[i] == d[i - c.len()]); } } }
pub proof fn lem_since_grown(c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>) requires grown(c0, c1), grown(c1, c2)
    ensures since(c2, c0) == since(c1, c0) + since(c2, c1), forall|a: Asg| #[trigger] cnf_true(since(c2, c0), a) == (cnf_true(since(c1, c0), a) && cnf_true(since(c2, c1), a)),
{
    assert(since(c2, c0) =~= since(c1, c0) + since(c2, c1)) by { assert forall|i: int| 0 <= i < c1.len() implies c2[i] == c1[i] by { assert(c2.take(c1.len() as int)[i] == c1[i]); } }
    lem_cnf_add_all(since(c1, c0), since(c2, c1));
}
/// newly reserved outputs are new variables
pub open spec fn fresh(ns: Ns, ms: Ns, n: nat) -> bool { forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] ms[i].out(k)) is Some && ns[i].out(k) is None ==> ms[i].out(k)->Some_0.v() >= n }
pub open spec fn grown(c0: Seq<Clause>, c1: Seq<Clause>) -> bool { c0.len() <= c1.len() && c1.take(c0.len() as int) == c0 }
pub proof fn lem_grown(c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>) requires grown(c0, c1), grown(c1, c2) ensures grown(c0, c2)
{ assert(c2.take(c0.len() as int) =~= c1.take(c0.len() as int)); }
pub proof fn lem_grown_true(c0: Seq<Clause>, c1: Seq<Clause>) requires grown(c0, c1) ensures forall|a: Asg| #[trigger] cnf_true(c1, a) ==> cnf_true(c0, a)
{ assert forall|a: Asg| #[trigger] cnf_true(c1, a) implies cnf_true(c0, a) by { assert forall|i: int| 0 <= i < c0.len() implies cl_true((#[trigger] c0[i]).s(), a) by { assert(c1[i] == c1.take(c0.len() as int)[i]); } } }
pub proof fn lem_step_refl(ns: Ns, c0: Seq<Clause>, n: nat) requires db_in(ns), vars_in(ns, n) ensures step_ok(ns, ns, c0, c0, n, n) { reveal(step_ok); assert(c0.take(c0.len() as int) =~= c0); assert(since(c0, c0) =~= Seq::<Clause>::empty()); }
pub proof fn lem_step_trans(ns: Ns, ms: Ns, os: Ns, c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>, n0: nat, n1: nat, n2: nat)
    requires step_ok(ns, ms, c0, c1, n0, n1), step_ok(ms, os, c1, c2, n1, n2),
    ensures step_ok(ns, os, c0, c2, n0, n2),
{
    reveal(step_ok);
    lem_dext_trans(ns, ms, os); lem_dext(ms, os); lem_grown(c0, c1, c2);
    assert(fresh(ns, os, n0)) by { assert forall|i: int, k: int| 0 <= i < ns.len() && (#[trigger] os[i].out(k)) is Some && ns[i].out(k) is None implies os[i].out(k)->Some_0.v() >= n0 by { assert(dext_node(ms[i], os[i])); let z = ms[i].out(k); } }
    lem_since_grown(c0, c1, c2);
    let d = since(c2, c0); let d1 = since(c1, c0); let d2 = since(c2, c1);
    lem_outv(ms, os, d1); lem_cls_add(d1, d2, os);
    assert forall|a: Asg| #![trigger cnf_true(d, a)] #![trigger strict(os, a)] strict(os, a) implies cnf_true(d, a) by { assert(strict(ms, a)); assert(cnf_true(d1, a) && cnf_true(d2, a)); }
    assert(if_imp(ns, os, d)) by { assert forall|a: Asg| #![trigger holds_if(os, a)] holds_if(ns, a) && cnf_true(d, a) implies holds_if(os, a) by { assert(holds_if(ms, a)); } }
    assert(oi_imp(ns, os, d)) by { assert forall|a: Asg| #![trigger holds_oi(os, a)] holds_oi(ns, a) && cnf_true(d, a) implies holds_oi(os, a) by { assert(holds_oi(ms, a)); } }
}
pub proof fn lem_kid_ext(ns: Ns, ms: Ns, c: NodeCon, k: int) requires dext(ns, ms), c.id.0 < ns.len()
    ensures kid_if(ns, c, k) ==> kid_if(ms, c, k), kid_oi(ns, c, k) ==> kid_oi(ms, c, k), nlen(ns, c) == nlen(ms, c)
{ assert(dext_node(ns[c.id.0 as int], ms[c.id.0 as int])); let z = ms[c.id.0 as int].out(c.ridx(k)); let z2 = ns[c.id.0 as int].out(c.ridx(k)); }
pub open spec fn vx_range_len(r: VxIncl) -> int { if r.lo <= r.hi { r.hi - r.lo + 1 } else { 0 } }
#[verifier::opaque]
pub open spec fn kids_prog(ns: Ns, p: UnweightedPrecondResult, a: int, b: int, c: int, d: int) -> bool {
    &&& forall|v: int| p.left_if.lo <= v < p.left_if.lo + a && v > 0 ==> #[trigger] kid_if(ns, p.lcon, v - 1)
    &&& forall|v: int| p.right_if.lo <= v < p.right_if.lo + b && v > 0 ==> #[trigger] kid_if(ns, p.rcon, v - 1)
    &&& forall|v: int| p.left_only_if.lo <= v < p.left_only_if.lo + c && v < nlen(ns, p.lcon) ==> #[trigger] kid_oi(ns, p.lcon, v)
    &&& forall|v: int| p.right_only_if.lo <= v < p.right_only_if.lo + d && v < nlen(ns, p.rcon) ==> #[trigger] kid_oi(ns, p.rcon, v)
}
pub proof fn lem_prog(ns: Ns, ms: Ns, p: UnweightedPrecondResult, a: int, b: int, c: int, d: int)
    requires dext(ns, ms), kids_prog(ns, p, a, b, c, d), p.lcon.id.0 < ns.len(), p.rcon.id.0 < ns.len(),
    ensures kids_prog(ms, p, a, b, c, d),
{
    reveal(kids_prog);
    assert forall|v: int| p.left_if.lo <= v < p.left_if.lo + a && v > 0 implies #[trigger] kid_if(ms, p.lcon, v - 1) by { assert(kid_if(ns, p.lcon, v - 1)); lem_kid_ext(ns, ms, p.lcon, v - 1); }
    assert forall|v: int| p.right_if.lo <= v < p.right_if.lo + b && v > 0 implies #[trigger] kid_if(ms, p.rcon, v - 1) by { assert(kid_if(ns, p.rcon, v - 1)); lem_kid_ext(ns, ms, p.rcon, v - 1); }
    lem_kid_ext(ns, ms, p.lcon, 0); lem_kid_ext(ns, ms, p.rcon, 0);
    assert forall|v: int| p.left_only_if.lo <= v < p.left_only_if.lo + c && v < nlen(ms, p.lcon) implies #[trigger] kid_oi(ms, p.lcon, v) by { assert(kid_oi(ns, p.lcon, v)); lem_kid_ext(ns, ms, p.lcon, v); }
    assert forall|v: int| p.right_only_if.lo <= v < p.right_only_if.lo + d && v < nlen(ms, p.rcon) implies #[trigger] kid_oi(ms, p.rcon, v) by { assert(kid_oi(ns, p.rcon, v)); lem_kid_ext(ns, ms, p.rcon, v); }
}
pub proof fn lem_kid(ns: Ns, i: int, c: NodeCon, k: int) requires con_in(ns, i, c), 0 <= k < nlen(ns, c), ns[c.id.0 as int].nlen() <= usize::MAX
    ensures 0 <= c.ridx(k) < ns[c.id.0 as int].nlen(), k <= usize::MAX, exists|n: int| n <= usize::MAX && c.offset <= n && k < #[trigger] c.clen(n)
{ let n = ns[c.id.0 as int].nlen(); lem_con(c, n, k, 0); lem_cval(c, n, 0); assert(n <= usize::MAX && c.offset <= n && k < c.clen(n)); }
pub open spec fn rec_new(os: Ns, p: UnweightedPrecondResult, which: int, j: int) -> bool {
    if which == 0 { p.left_if.lo + j > 0 ==> kid_if(os, p.lcon, p.left_if.lo + j - 1) } else if which == 1 { p.right_if.lo + j > 0 ==> kid_if(os, p.rcon, p.right_if.lo + j - 1) }
    else if which == 2 { p.left_only_if.lo + j < nlen(os, p.lcon) ==> kid_oi(os, p.lcon, p.left_only_if.lo + j) } else { p.right_only_if.lo + j < nlen(os, p.rcon) ==> kid_oi(os, p.rcon, p.right_only_if.lo + j) }
}
pub open spec fn one(w: int, which: int, a: int, j: int) -> int { if which == w { j + 1 } else { a } }
pub proof fn lem_rec_done(ns: Ns, p: UnweightedPrecondResult) requires kids_prog(ns, p, vx_range_len(p.left_if), vx_range_len(p.right_if), vx_range_len(p.left_only_if), vx_range_len(p.right_only_if)) ensures kids_ok(ns, p) { reveal(kids_prog); }
pub proof fn lem_rec_start(ns: Ns, p: UnweightedPrecondResult) ensures kids_prog(ns, p, 0, 0, 0, 0) { reveal(kids_prog); }
/// one round of the recursion
pub proof fn lem_rec(ns: Ns, ms: Ns, os: Ns, c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>, n0: nat, n1: nat, n2: nat, p: UnweightedPrecondResult, a: int, b: int, c: int, d: int, which: int, j: int)
    requires step_ok(ns, ms, c0, c1, n0, n1), os == ms && c2 == c1 && n2 == n1 || step_ok(ms, os, c1, c2, n1, n2), kids_prog(ms, p, a, b, c, d), p.lcon.id.0 < ns.len(), p.rcon.id.0 < ns.len(), 0 <= which < 4,
        which == 0 ==> j == a, which == 1 ==> j == b, which == 2 ==> j == c, which == 3 ==> j == d, rec_new(os, p, which, j),
    ensures step_ok(ns, os, c0, c2, n0, n2), kids_prog(os, p, one(0, which, a, j), one(1, which, b, j), one(2, which, c, j), one(3, which, d, j)),
{
    if !(os == ms && c2 == c1 && n2 == n1) { lem_step_trans(ns, ms, os, c0, c1, c2, n0, n1, n2); lem_step(ms, os, c1, c2, n1, n2); } else { lem_dext_refl(ms); }
    lem_step(ns, ms, c0, c1, n0, n1);
    lem_prog(ms, os, p, a, b, c, d);
    reveal(kids_prog);
}
pub proof fn lem_step(ns: Ns, ms: Ns, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat) requires step_ok(ns, ms, c0, c1, n0, n1)
    ensures dext(ns, ms), same(ns, ms), db_in(ms), vars_in(ms, n1), n0 <= n1, grown(c0, c1), enc_new(ns, ms, since(c1, c0)), fresh(ns, ms, n0),
{ reveal(step_ok); lem_dext(ns, ms); }
/// before a recursive call
pub proof fn lem_rec_call(ns: Ns, ms: Ns, c0: Seq<Clause>, c1: Seq<Clause>, n0: nat, n1: nat, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool, c: NodeCon, k: int)
    requires db_in(ns), pre_ok(ns, p, i, idx, wif, woi), step_ok(ns, ms, c0, c1, n0, n1), c == p.lcon || c == p.rcon,
    ensures db_in(ms), vars_in(ms, n1), ms.len() == ns.len(), c.id.0 < ms.len(), is_u(ms[c.id.0 as int]), c.ok(), c.multiplier.v == 1, c.offset <= ms[c.id.0 as int].nlen(), nlen(ms, c) == nlen(ns, c), nlen(ns, c) <= usize::MAX,
        0 <= k < nlen(ns, c) ==> 0 <= c.ridx(k) < ms[c.id.0 as int].nlen() && exists|n: int| n <= usize::MAX && c.offset <= n && k < #[trigger] c.clen(n),
{
    lem_step(ns, ms, c0, c1, n0, n1); lem_pre_hi(ns, p, i, idx, wif, woi);
    assert(same_node(ns[c.id.0 as int], ms[c.id.0 as int]));
    lem_kid_ext(ns, ms, c, 0);
    lem_cval(c, ns[c.id.0 as int].nlen(), 0);
    if 0 <= k < nlen(ns, c) { lem_kid(ns, i, c, k); }
}
/// bounds of the ranges, and what is known about the children
pub proof fn lem_pre_hi(ns: Ns, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool)
    requires pre_ok(ns, p, i, idx, wif, woi), db_in(ns),
    ensures p.left_if.lo <= p.left_if.hi ==> p.left_if.hi <= nlen(ns, p.lcon), p.right_if.lo <= p.right_if.hi ==> p.right_if.hi <= nlen(ns, p.rcon),
        p.left_only_if.lo <= p.left_only_if.hi ==> p.left_only_if.hi <= nlen(ns, p.lcon), p.right_only_if.lo <= p.right_only_if.hi ==> p.right_only_if.hi <= nlen(ns, p.rcon),
        con_in(ns, i, p.lcon), con_in(ns, i, p.rcon), ns[p.lcon.id.0 as int].nlen() <= usize::MAX, ns[p.rcon.id.0 as int].nlen() <= usize::MAX, i < ns.len(),
{
    assert(node_in(ns, i)); lem_len(ns, i);
    lem_nmax(ns[p.lcon.id.0 as int]); lem_nmax(ns[p.rcon.id.0 as int]);
}
pub proof fn lem_nmax(n: Node) requires is_u(n) ensures n.nlen() <= usize::MAX { if n is Unit { let u = n->Unit_0; assert(u.lits.len() == u.lits@.len()); } }
pub assume_specification<T> [ std::slice::from_ref ] (x: &T) -> (r: &[T]) ensures r@ == seq![*x];
pub open spec fn if_cl(s: Seq<Lit>, ns: Ns, p: UnweightedPrecondResult, idx: int, v: int, o: Lit) -> bool {
    (forall|a: Asg| #[trigger] cl_true(s, a) <==> ((v > 0 ==> tv(a, kid(ns, p.lcon, v - 1)->Some_0)) && (idx + 1 - v > 0 ==> tv(a, kid(ns, p.rcon, idx - v)->Some_0)) ==> tv(a, o)))
    && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == o.v() || v > 0 && s[i].v() == kid(ns, p.lcon, v - 1)->Some_0.v() || idx + 1 - v > 0 && s[i].v() == kid(ns, p.rcon, idx - v)->Some_0.v()
}
pub open spec fn oi_cl(s: Seq<Lit>, ns: Ns, p: UnweightedPrecondResult, idx: int, v: int, o: Lit) -> bool {
    (forall|a: Asg| #[trigger] cl_true(s, a) <==> ((v < nlen(ns, p.lcon) ==> !tv(a, kid(ns, p.lcon, v)->Some_0)) && (idx - v < nlen(ns, p.rcon) ==> !tv(a, kid(ns, p.rcon, idx - v)->Some_0)) ==> !tv(a, o)))
    && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == o.v() || v < nlen(ns, p.lcon) && s[i].v() == kid(ns, p.lcon, v)->Some_0.v() || idx - v < nlen(ns, p.rcon) && s[i].v() == kid(ns, p.rcon, idx - v)->Some_0.v()
}
pub proof fn lem_cube2() ensures forall|s: Seq<Lit>, a: Asg| s.len() <= 2 ==> (#[trigger] cube_true(s, a) <==> (s.len() > 0 ==> tv(a, s[0])) && (s.len() > 1 ==> tv(a, s[1]))) {}
pub proof fn lem_opp_tv() ensures forall|l: Lit, a: Asg| #[trigger] tv(a, l.opp()) == !tv(a, l)
{ assert forall|l: Lit, a: Asg| #[trigger] tv(a, l.opp()) == !tv(a, l) by { assert(l.opp().v() == l.v() && l.opp().neg() == !l.neg()); } }
/// an output that is only marked
pub open spec fn marked(ns: Ns, ms: Ns, i: int, k: int, s: Semantics) -> bool {
    ns.len() == ms.len() && 0 <= i < ns.len() && ns[i] is Unit && 0 <= k < ns[i].nlen() && ms =~= ns.update(i, ms[i]) && same_node(ns[i], ms[i]) && ms[i]->Unit_0.lits@ =~= ns[i]->Unit_0.lits@.update(k, ms[i]->Unit_0.lits@[k])
        && ms[i].out(k) == ns[i].out(k) && ms[i].oif(k) == (ns[i].oif(k) || s.sif()) && ms[i].ooi(k) == (ns[i].ooi(k) || s.soi())
}
pub proof fn lem_mark(ns: Ns, ms: Ns, i: int, idx: int, s: Semantics)
    requires db_in(ns), marked(ns, ms, i, idx, s), ns[i].out(idx) is Some,
    ensures dext(ns, ms), same(ns, ms), db_in(ms), forall|n: nat| #[trigger] vars_in(ns, n) ==> vars_in(ms, n), done(ms[i], idx, s), forall|j: int| 0 <= j < ns.len() && j != i ==> ms[j] == #[trigger] ns[j],
        forall|j: int, k: int| #![trigger ms[j].out(k)] 0 <= j < ns.len() ==> ms[j].out(k) == ns[j].out(k),
        forall|j: int, k: int| #![trigger ms[j].oif(k)] 0 <= j < ns.len() && !(j == i && k == idx) ==> ms[j].oif(k) == ns[j].oif(k),
        forall|j: int, k: int| #![trigger ms[j].ooi(k)] 0 <= j < ns.len() && !(j == i && k == idx) ==> ms[j].ooi(k) == ns[j].ooi(k),
        ms[i].oif(idx) == (ns[i].oif(idx) || s.sif()), ms[i].ooi(idx) == (ns[i].ooi(idx) || s.soi()),
{
    assert forall|j: int| 0 <= j < ns.len() implies dext_node(#[trigger] ns[j], ms[j]) by { assert(j != i ==> ms[j] == ns[j]); }
    lem_dext(ns, ms); lem_same(ns, ms);
    assert forall|j: int, k: int| #![trigger ms[j].out(k)] 0 <= j < ns.len() implies ms[j].out(k) == ns[j].out(k) by { if j == i { if k != idx && 0 <= k < ns[i].nlen() { assert(ms[i]->Unit_0.lits@[k] == ns[i]->Unit_0.lits@[k]); } } else { assert(ms[j] == ns[j]); } }
    assert forall|n: nat| #[trigger] vars_in(ns, n) implies vars_in(ms, n) by { assert(forall|j: int| 0 <= j < ns.len() ==> (#[trigger] ms[j] is Unit <==> ns[j] is Unit)); }
}
/// the literals that a clause of the node uses
pub proof fn lem_kid_use(ns: Ns, ms: Ns, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool, v: int)
    requires db_in(ns), pre_ok(ns, p, i, idx, wif, woi), kids_ok(ns, p), dext(ns, ms), forall|j: int| 0 <= j < ns.len() && j != i ==> ms[j] == #[trigger] ns[j],
    ensures kids_ok(ms, p), nlen(ms, p.lcon) == nlen(ns, p.lcon), nlen(ms, p.rcon) == nlen(ns, p.rcon),
        forall|k: int| #![trigger p.lcon.ridx(k)] 0 <= k < nlen(ns, p.lcon) ==> 0 <= p.lcon.ridx(k) < ns[p.lcon.id.0 as int].nlen() && kid(ms, p.lcon, k) == ms[p.lcon.id.0 as int].out(p.lcon.ridx(k)),
        forall|k: int| #![trigger p.rcon.ridx(k)] 0 <= k < nlen(ns, p.rcon) ==> 0 <= p.rcon.ridx(k) < ns[p.rcon.id.0 as int].nlen() && kid(ms, p.rcon, k) == ms[p.rcon.id.0 as int].out(p.rcon.ridx(k)),
        p.lcon.offset <= ns[p.lcon.id.0 as int].nlen() <= usize::MAX, p.rcon.offset <= ns[p.rcon.id.0 as int].nlen() <= usize::MAX, p.lcon.ok(), p.rcon.ok(), p.lcon.multiplier.v == 1, p.rcon.multiplier.v == 1, nlen(ns, p.lcon) <= usize::MAX, nlen(ns, p.rcon) <= usize::MAX,
        p.left_if.lo <= v <= p.left_if.hi ==> (v > 0 ==> kid_if(ms, p.lcon, v - 1)) && (idx + 1 - v > 0 ==> kid_if(ms, p.rcon, idx - v)),
        p.left_only_if.lo <= v <= p.left_only_if.hi ==> (v < nlen(ns, p.lcon) ==> kid_oi(ms, p.lcon, v)) && (idx - v < nlen(ns, p.rcon) ==> kid_oi(ms, p.rcon, idx - v)),
{
    lem_pre_hi(ns, p, i, idx, wif, woi); lem_len(ns, i);
    assert(ms[p.lcon.id.0 as int] == ns[p.lcon.id.0 as int]); assert(ms[p.rcon.id.0 as int] == ns[p.rcon.id.0 as int]);
    assert forall|k: int| #![trigger p.lcon.ridx(k)] 0 <= k < nlen(ns, p.lcon) implies 0 <= p.lcon.ridx(k) < ns[p.lcon.id.0 as int].nlen() by { lem_kid(ns, i, p.lcon, k); }
    assert forall|k: int| #![trigger p.rcon.ridx(k)] 0 <= k < nlen(ns, p.rcon) implies 0 <= p.rcon.ridx(k) < ns[p.rcon.id.0 as int].nlen() by { lem_kid(ns, i, p.rcon, k); }
    if p.left_if.lo <= v <= p.left_if.hi { if v > 0 { assert(kid_if(ns, p.lcon, v - 1)); } if idx + 1 - v > 0 { let w = idx + 1 - v; assert(p.right_if.lo <= w <= p.right_if.hi); assert(kid_if(ns, p.rcon, w - 1)); } }
    if p.left_only_if.lo <= v <= p.left_only_if.hi { if v < nlen(ns, p.lcon) { assert(kid_oi(ns, p.lcon, v)); } let w = idx - v; assert(p.right_only_if.lo <= w <= p.right_only_if.hi); if w < nlen(ns, p.rcon) { assert(kid_oi(ns, p.rcon, w)); } }
    assert(kids_ok(ms, p)) by {
        assert forall|v: int| p.left_if.lo <= v <= p.left_if.hi && v > 0 implies #[trigger] kid_if(ms, p.lcon, v - 1) by { assert(kid_if(ns, p.lcon, v - 1)); }
        assert forall|v: int| p.right_if.lo <= v <= p.right_if.hi && v > 0 implies #[trigger] kid_if(ms, p.rcon, v - 1) by { assert(kid_if(ns, p.rcon, v - 1)); }
        assert forall|v: int| p.left_only_if.lo <= v <= p.left_only_if.hi && v < nlen(ms, p.lcon) implies #[trigger] kid_oi(ms, p.lcon, v) by { assert(kid_oi(ns, p.lcon, v)); }
        assert forall|v: int| p.right_only_if.lo <= v <= p.right_only_if.hi && v < nlen(ms, p.rcon) implies #[trigger] kid_oi(ms, p.rcon, v) by { assert(kid_oi(ns, p.rcon, v)); }
    }
}
pub proof fn lem_ckid(ns: Ns, i: int, c: NodeCon, k: int, a: Asg) requires db_in(ns), con_in(ns, i, c)
    ensures 0 <= c.cval(nval(ns, c.id.0 as int, a)) <= nlen(ns, c), 0 <= k < nlen(ns, c) ==> (c.cval(nval(ns, c.id.0 as int, a)) >= k + 1 <==> nval(ns, c.id.0 as int, a) >= c.ridx(k) + 1)
{ let n = ns[c.id.0 as int].nlen(); let v = nval(ns, c.id.0 as int, a); lem_nval_range(ns, c.id.0 as int, a); lem_cval(c, n, v); if 0 <= k < nlen(ns, c) { lem_con(c, n, k, v); } }
pub proof fn lem_nval_u(ns: Ns, i: int, a: Asg) requires db_in(ns), 0 <= i < ns.len(), ns[i] is Unit
    ensures nval(ns, i, a) == ns[i]->Unit_0.left.cval(nval(ns, ns[i]->Unit_0.left.id.0 as int, a)) + ns[i]->Unit_0.right.cval(nval(ns, ns[i]->Unit_0.right.id.0 as int, a))
{ assert(node_in(ns, i)); }
pub proof fn lem_olit_step(ns: Ns, ms: Ns, c: Seq<Clause>, n0: nat, n1: nat) requires dext(ns, ms), same_sem(ns, ms), db_in(ms), vars_in(ms, n1), n0 <= n1, fresh(ns, ms, n0) ensures step_ok(ns, ms, c, c, n0, n1)
{
    reveal(step_ok);
    lem_dext(ns, ms); lem_same(ns, ms);
    assert(c.take(c.len() as int) =~= c);
    assert forall|a: Asg| holds_if(ns, a) implies #[trigger] holds_if(ms, a) by {
        assert forall|j: int, k: int| 0 <= j < ms.len() && #[trigger] ms[j].oif(k) implies ms[j].out(k) is Some && (nval(ms, j, a) >= k + 1 ==> tv(a, ms[j].out(k)->Some_0)) by { assert(ns[j].oif(k)); assert(dext_node(ns[j], ms[j])); let z = ns[j].out(k); assert(nval(ms, j, a) == nval(ns, j, a)); }
    }
    assert forall|a: Asg| holds_oi(ns, a) implies #[trigger] holds_oi(ms, a) by {
        assert forall|j: int, k: int| 0 <= j < ms.len() && #[trigger] ms[j].ooi(k) implies ms[j].out(k) is Some && (tv(a, ms[j].out(k)->Some_0) ==> nval(ms, j, a) >= k + 1) by { assert(ns[j].ooi(k)); assert(dext_node(ns[j], ms[j])); let z = ns[j].out(k); assert(nval(ms, j, a) == nval(ns, j, a)); }
    }
    assert(since(c, c) =~= Seq::<Clause>::empty());
}
pub proof fn lem_enc_step(ns: Ns, ms: Ns, c0: Seq<Clause>, c1: Seq<Clause>, n: nat) requires dext(ns, ms), fresh(ns, ms, n), grown(c0, c1), db_in(ms), vars_in(ms, n), enc_new(ns, ms, since(c1, c0)) ensures step_ok(ns, ms, c0, c1, n, n) { reveal(step_ok); }
pub proof fn lem_pre_ext(ns: Ns, ms: Ns, os: Ns, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool)
    requires db_in(ns), pre_ok(ns, p, i, idx, wif, woi), same(ns, ms), dext(ms, os), kids_ok(ms, p), forall|j: int| 0 <= j < ms.len() && j != i ==> os[j] == #[trigger] ms[j],
    ensures pre_ok(os, p, i, idx, wif, woi), kids_ok(os, p),
{
    lem_pre_hi(ns, p, i, idx, wif, woi);
    assert(same_node(ns[i], ms[i])); assert(dext_node(ms[i], os[i]));
    assert(same_node(ns[p.lcon.id.0 as int], ms[p.lcon.id.0 as int])); assert(same_node(ns[p.rcon.id.0 as int], ms[p.rcon.id.0 as int]));
    lem_kid_ext(ms, os, p.lcon, 0); lem_kid_ext(ms, os, p.rcon, 0);
    assert forall|v: int| p.left_if.lo <= v <= p.left_if.hi && v > 0 implies #[trigger] kid_if(os, p.lcon, v - 1) by { assert(kid_if(ms, p.lcon, v - 1)); }
    assert forall|v: int| p.right_if.lo <= v <= p.right_if.hi && v > 0 implies #[trigger] kid_if(os, p.rcon, v - 1) by { assert(kid_if(ms, p.rcon, v - 1)); }
    assert forall|v: int| p.left_only_if.lo <= v <= p.left_only_if.hi && v < nlen(os, p.lcon) implies #[trigger] kid_oi(os, p.lcon, v) by { assert(kid_oi(ms, p.lcon, v)); }
    assert forall|v: int| p.right_only_if.lo <= v <= p.right_only_if.hi && v < nlen(os, p.rcon) implies #[trigger] kid_oi(os, p.rcon, v) by { assert(kid_oi(ms, p.rcon, v)); }
}
pub open spec fn if_cls(c0: Seq<Clause>, c1: Seq<Clause>, ns: Ns, p: UnweightedPrecondResult, idx: int, o: Lit) -> bool {
    c1.len() == c0.len() + vx_range_len(p.left_if) && c1.take(c0.len() as int) == c0 && forall|k: int| 0 <= k < vx_range_len(p.left_if) ==> if_cl((#[trigger] c1[c0.len() + k]).s(), ns, p, idx, p.left_if.lo + k, o)
}
pub open spec fn oi_cls(c0: Seq<Clause>, c1: Seq<Clause>, ns: Ns, p: UnweightedPrecondResult, idx: int, o: Lit) -> bool {
    c1.len() == c0.len() + vx_range_len(p.left_only_if) && c1.take(c0.len() as int) == c0 && forall|k: int| 0 <= k < vx_range_len(p.left_only_if) ==> oi_cl((#[trigger] c1[c0.len() + k]).s(), ns, p, idx, p.left_only_if.lo + k, o)
}
/// "if": some clause fires as soon as the children reach the value
pub proof fn lem_enc_if(ms: Ns, c1: Seq<Clause>, c0: Seq<Clause>, p: UnweightedPrecondResult, i: int, idx: int, woi: bool, o: Lit, a: Asg)
    requires db_in(ms), pre_ok(ms, p, i, idx, true, woi), kids_ok(ms, p), if_cls(c0, c1, ms, p, idx, o), cnf_true(since(c1, c0), a), nval(ms, i, a) >= idx + 1,
        forall|j: int, k: int| 0 <= j < i && #[trigger] ms[j].oif(k) ==> ms[j].out(k) is Some && (nval(ms, j, a) >= k + 1 ==> tv(a, ms[j].out(k)->Some_0)),
    ensures tv(a, o),
{
    lem_pre_hi(ms, p, i, idx, true, woi); lem_nval_u(ms, i, a);
    let cl = p.lcon.cval(nval(ms, p.lcon.id.0 as int, a)); let cr = p.rcon.cval(nval(ms, p.rcon.id.0 as int, a));
    lem_ckid(ms, i, p.lcon, 0, a); lem_ckid(ms, i, p.rcon, 0, a);
    let v = mn(cl, idx + 1);
    assert(p.left_if.lo <= v <= p.left_if.hi);
    let k = v - p.left_if.lo;
    assert(since(c1, c0)[k] == c1[c0.len() + k]); assert(cl_true(since(c1, c0)[k].s(), a));
    assert(if_cl(c1[c0.len() + k].s(), ms, p, idx, p.left_if.lo + k, o));
    if v > 0 { assert(kid_if(ms, p.lcon, v - 1)); lem_ckid(ms, i, p.lcon, v - 1, a); }
    let w = idx + 1 - v;
    if w > 0 { assert(p.right_if.lo <= w <= p.right_if.hi); assert(kid_if(ms, p.rcon, w - 1)); lem_ckid(ms, i, p.rcon, w - 1, a); }
}
/// "only if"
pub proof fn lem_enc_oi(ms: Ns, c1: Seq<Clause>, c0: Seq<Clause>, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, o: Lit, a: Asg)
    requires db_in(ms), pre_ok(ms, p, i, idx, wif, true), kids_ok(ms, p), oi_cls(c0, c1, ms, p, idx, o), cnf_true(since(c1, c0), a), tv(a, o),
        forall|j: int, k: int| 0 <= j < i && #[trigger] ms[j].ooi(k) ==> ms[j].out(k) is Some && (tv(a, ms[j].out(k)->Some_0) ==> nval(ms, j, a) >= k + 1),
    ensures nval(ms, i, a) >= idx + 1,
{
    lem_pre_hi(ms, p, i, idx, wif, true); lem_nval_u(ms, i, a); lem_len(ms, i);
    let cl = p.lcon.cval(nval(ms, p.lcon.id.0 as int, a)); let cr = p.rcon.cval(nval(ms, p.rcon.id.0 as int, a));
    lem_ckid(ms, i, p.lcon, 0, a); lem_ckid(ms, i, p.rcon, 0, a);
    if cl + cr <= idx {
        let lo = idx - mn(nlen(ms, p.rcon), idx);
        let v = if cl >= lo { cl } else { lo };
        assert(p.left_only_if.lo <= v <= p.left_only_if.hi);
        let k = v - p.left_only_if.lo;
        assert(since(c1, c0)[k] == c1[c0.len() + k]); assert(cl_true(since(c1, c0)[k].s(), a));
        assert(oi_cl(c1[c0.len() + k].s(), ms, p, idx, p.left_only_if.lo + k, o));
        if v < nlen(ms, p.lcon) { assert(kid_oi(ms, p.lcon, v)); lem_ckid(ms, i, p.lcon, v, a); }
        let w = idx - v;
        assert(p.right_only_if.lo <= w <= p.right_only_if.hi);
        if w < nlen(ms, p.rcon) { assert(kid_oi(ms, p.rcon, w)); lem_ckid(ms, i, p.rcon, w, a); }
    }
}
/// the clauses hold whenever every output is exactly its meaning
pub proof fn lem_enc_out(ms: Ns, c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool, o: Lit)
    requires db_in(ms), pre_ok(ms, p, i, idx, wif, woi), kids_ok(ms, p), if_cls(c0, c1, ms, p, idx, o), oi_cls(c1, c2, ms, p, idx, o), ms[i].out(idx) == Some(o),
    ensures cls_out(since(c2, c0), ms),
{
    lem_pre_hi(ms, p, i, idx, wif, woi); lem_len(ms, i);
    let l0 = c0.len() as int; let l1 = c1.len() as int;
    let d = since(c2, c0);
    assert(outv(ms, o.v()));
    assert forall|y: int| 0 <= y < d.len() implies lits_out((#[trigger] d[y]).s(), ms) by {
        let z = y + l0; assert(d[y] == c2[z]);
        if z < l1 {
            let k = z - l0; let v = p.left_if.lo + k;
            assert(c2.take(l1)[z] == c1[z]);
            assert(if_cl(c1[l0 + k].s(), ms, p, idx, v, o));
            if v > 0 { assert(kid_if(ms, p.lcon, v - 1)); assert(ms[p.lcon.id.0 as int].out(p.lcon.ridx(v - 1)) is Some); assert(outv(ms, kid(ms, p.lcon, v - 1)->Some_0.v())); }
            let w = idx + 1 - v;
            assert(p.right_if.lo <= w <= p.right_if.hi);
            if w > 0 { assert(kid_if(ms, p.rcon, w - 1)); assert(ms[p.rcon.id.0 as int].out(p.rcon.ridx(w - 1)) is Some); assert(outv(ms, kid(ms, p.rcon, w - 1)->Some_0.v())); }
        } else {
            let k = z - l1; let v = p.left_only_if.lo + k;
            assert(oi_cl(c2[l1 + k].s(), ms, p, idx, v, o));
            if v < nlen(ms, p.lcon) { assert(kid_oi(ms, p.lcon, v)); assert(ms[p.lcon.id.0 as int].out(p.lcon.ridx(v)) is Some); assert(outv(ms, kid(ms, p.lcon, v)->Some_0.v())); }
            let w = idx - v;
            assert(p.right_only_if.lo <= w <= p.right_only_if.hi);
            if w < nlen(ms, p.rcon) { assert(kid_oi(ms, p.rcon, w)); assert(ms[p.rcon.id.0 as int].out(p.rcon.ridx(w)) is Some); assert(outv(ms, kid(ms, p.rcon, w)->Some_0.v())); }
        }
    }
}
pub proof fn lem_enc_strict(ms: Ns, c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool, o: Lit, a: Asg)
    requires db_in(ms), pre_ok(ms, p, i, idx, wif, woi), kids_ok(ms, p), if_cls(c0, c1, ms, p, idx, o), oi_cls(c1, c2, ms, p, idx, o), ms[i].out(idx) == Some(o), strict(ms, a),
    ensures cnf_true(since(c2, c0), a),
{
    lem_pre_hi(ms, p, i, idx, wif, woi); lem_nval_u(ms, i, a); lem_len(ms, i);
    let cl = p.lcon.cval(nval(ms, p.lcon.id.0 as int, a)); let cr = p.rcon.cval(nval(ms, p.rcon.id.0 as int, a));
    lem_ckid(ms, i, p.lcon, 0, a); lem_ckid(ms, i, p.rcon, 0, a);
    let l0 = c0.len() as int; let l1 = c1.len() as int;
    let d = since(c2, c0);
    assert forall|y: int| 0 <= y < d.len() implies cl_true((#[trigger] d[y]).s(), a) by {
        let z = y + l0; assert(d[y] == c2[z]);
        if z < l1 {
            let k = z - l0; let v = p.left_if.lo + k;
            assert(c2.take(l1)[z] == c1[z]);
            assert(if_cl(c1[l0 + k].s(), ms, p, idx, v, o));
            assert(wif);
            if v > 0 { assert(kid_if(ms, p.lcon, v - 1)); lem_ckid(ms, i, p.lcon, v - 1, a); lem_kid(ms, i, p.lcon, v - 1); assert(ms[p.lcon.id.0 as int].out(p.lcon.ridx(v - 1)) is Some); }
            let w = idx + 1 - v;
            assert(p.right_if.lo <= w <= p.right_if.hi);
            if w > 0 { assert(kid_if(ms, p.rcon, w - 1)); lem_ckid(ms, i, p.rcon, w - 1, a); lem_kid(ms, i, p.rcon, w - 1); assert(ms[p.rcon.id.0 as int].out(p.rcon.ridx(w - 1)) is Some); }
        } else {
            let k = z - l1; let v = p.left_only_if.lo + k;
            assert(oi_cl(c2[l1 + k].s(), ms, p, idx, v, o));
            assert(woi);
            if v < nlen(ms, p.lcon) { assert(kid_oi(ms, p.lcon, v)); lem_ckid(ms, i, p.lcon, v, a); lem_kid(ms, i, p.lcon, v); assert(ms[p.lcon.id.0 as int].out(p.lcon.ridx(v)) is Some); }
            let w = idx - v;
            assert(p.right_only_if.lo <= w <= p.right_only_if.hi);
            if w < nlen(ms, p.rcon) { assert(kid_oi(ms, p.rcon, w)); lem_ckid(ms, i, p.rcon, w, a); lem_kid(ms, i, p.rcon, w); assert(ms[p.rcon.id.0 as int].out(p.rcon.ridx(w)) is Some); }
        }
    }
}
pub proof fn lem_enc(ns: Ns, ms: Ns, c0: Seq<Clause>, c1: Seq<Clause>, c2: Seq<Clause>, p: UnweightedPrecondResult, i: int, idx: int, wif: bool, woi: bool, o: Lit, s: Semantics)
    requires db_in(ns), marked(ns, ms, i, idx, s), pre_ok(ns, p, i, idx, wif, woi), kids_ok(ns, p), if_cls(c0, c1, ms, p, idx, o), oi_cls(c1, c2, ms, p, idx, o), ns[i].out(idx) == Some(o),
        wif == (s.sif() && !ns[i].oif(idx)), woi == (s.soi() && !ns[i].ooi(idx)),
    ensures grown(c0, c2), enc_new(ns, ms, since(c2, c0)),
{
    lem_mark(ns, ms, i, idx, s);
    lem_kid_use(ns, ms, p, i, idx, wif, woi, 0);
    lem_same(ns, ms);
    assert(pre_ok(ms, p, i, idx, wif, woi)) by { lem_pre_hi(ns, p, i, idx, wif, woi); }
    lem_grown(c0, c1, c2); lem_since_grown(c0, c1, c2);
    let d = since(c2, c0);
    lem_enc_out(ms, c0, c1, c2, p, i, idx, wif, woi, o);
    assert forall|a: Asg| #![trigger cnf_true(d, a)] #![trigger strict(ms, a)] strict(ms, a) implies cnf_true(d, a) by { lem_enc_strict(ms, c0, c1, c2, p, i, idx, wif, woi, o, a); }
    assert(if_imp(ns, ms, d)) by {
        assert forall|a: Asg| #![trigger holds_if(ms, a)] holds_if(ns, a) && cnf_true(d, a) implies holds_if(ms, a) by {
            assert forall|j: int, k: int| 0 <= j < ms.len() && !(j == i && k == idx && !ns[i].oif(idx)) && #[trigger] ms[j].oif(k) implies ms[j].out(k) is Some && (nval(ms, j, a) >= k + 1 ==> tv(a, ms[j].out(k)->Some_0)) by {
                assert(ns[j].oif(k)); assert(nval(ms, j, a) == nval(ns, j, a)); let z = ms[j].out(k);
            }
            if wif && nval(ms, i, a) >= idx + 1 { lem_enc_if(ms, c1, c0, p, i, idx, woi, o, a); }
            let z = ms[i].out(idx);
        }
    }
    assert(oi_imp(ns, ms, d)) by {
        assert forall|a: Asg| #![trigger holds_oi(ms, a)] holds_oi(ns, a) && cnf_true(d, a) implies holds_oi(ms, a) by {
            assert forall|j: int, k: int| 0 <= j < ms.len() && !(j == i && k == idx && !ns[i].ooi(idx)) && #[trigger] ms[j].ooi(k) implies ms[j].out(k) is Some && (tv(a, ms[j].out(k)->Some_0) ==> nval(ms, j, a) >= k + 1) by {
                assert(ns[j].ooi(k)); assert(nval(ms, j, a) == nval(ns, j, a)); let z = ms[j].out(k);
            }
            if woi && tv(a, o) { lem_enc_oi(ms, c2, c1, p, i, idx, wif, o, a); }
            let z = ms[i].out(idx);
        }
    }
}
impl Db {
//@fn src/encodings/totdb/mod.rs Db::recurse_unweighted dyn attr=verifier::loop_isolation(false)
//@ret r
    requires db_in(old(self).nodes@), vars_in(old(self).nodes@, old(var_manager).next()), rec_ok(old(self).nodes@, *pre),
    ensures final(self).lookup_leaf == old(self).lookup_leaf, r is Ok ==> step_ok(old(self).nodes@, final(self).nodes@, old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
        && kids_ok(final(self).nodes@, *pre) && (forall|i: int| pre.lcon.id.0 < i < old(self).nodes@.len() && pre.rcon.id.0 < i ==> final(self).nodes@[i] == #[trigger] old(self).nodes@[i]),
    decreases (if pre.lcon.id.0 >= pre.rcon.id.0 { pre.lcon.id.0 } else { pre.rcon.id.0 }) + 1, 0nat,
//@loop 0 iter=it
    invariant it.seq().len() == vx_range_len(pre.left_if), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == pre.left_if.lo + k,
        self.lookup_leaf == old(self).lookup_leaf, step_ok(ns0, self.nodes@, c0, collector.cls(), n0, var_manager.next()), kids_prog(self.nodes@, *pre, it.index@ as int, 0, 0, 0),
        forall|i: int| pre.lcon.id.0 < i < ns0.len() && pre.rcon.id.0 < i ==> self.nodes@[i] == #[trigger] ns0[i],
//@ghost loop 0 start
    let ghost ms = self.nodes@;
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
    proof { lem_rec_call(ns0, ms, c0, c1, n0, n1, *pre, i0, idx0, wif, woi, pre.lcon, lval - 1); lem_pre_hi(ns0, *pre, i0, idx0, wif, woi); assert(lval == pre.left_if.lo + it.index@); }
//@ghost loop 0 end
    proof { lem_rec(ns0, ms, self.nodes@, c0, c1, collector.cls(), n0, n1, var_manager.next(), *pre, it.index@ as int, 0, 0, 0, 0, it.index@ as int); }
//@loop 1 iter=it
    invariant it.seq().len() == vx_range_len(pre.right_if), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == pre.right_if.lo + k,
        self.lookup_leaf == old(self).lookup_leaf, step_ok(ns0, self.nodes@, c0, collector.cls(), n0, var_manager.next()), kids_prog(self.nodes@, *pre, vx_range_len(pre.left_if), it.index@ as int, 0, 0),
        forall|i: int| pre.lcon.id.0 < i < ns0.len() && pre.rcon.id.0 < i ==> self.nodes@[i] == #[trigger] ns0[i],
//@ghost loop 1 start
    let ghost ms = self.nodes@;
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
    proof { lem_rec_call(ns0, ms, c0, c1, n0, n1, *pre, i0, idx0, wif, woi, pre.rcon, rval - 1); lem_pre_hi(ns0, *pre, i0, idx0, wif, woi); assert(rval == pre.right_if.lo + it.index@); }
//@ghost loop 1 end
    proof { lem_rec(ns0, ms, self.nodes@, c0, c1, collector.cls(), n0, n1, var_manager.next(), *pre, vx_range_len(pre.left_if), it.index@ as int, 0, 0, 1, it.index@ as int); }
//@loop 2 iter=it
    invariant it.seq().len() == vx_range_len(pre.left_only_if), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == pre.left_only_if.lo + k,
        self.lookup_leaf == old(self).lookup_leaf, step_ok(ns0, self.nodes@, c0, collector.cls(), n0, var_manager.next()), kids_prog(self.nodes@, *pre, vx_range_len(pre.left_if), vx_range_len(pre.right_if), it.index@ as int, 0),
        forall|i: int| pre.lcon.id.0 < i < ns0.len() && pre.rcon.id.0 < i ==> self.nodes@[i] == #[trigger] ns0[i],
//@ghost loop 2 start
    let ghost ms = self.nodes@;
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
    proof { lem_rec_call(ns0, ms, c0, c1, n0, n1, *pre, i0, idx0, wif, woi, pre.lcon, lval as int); lem_pre_hi(ns0, *pre, i0, idx0, wif, woi); assert(lval == pre.left_only_if.lo + it.index@); }
//@ghost loop 2 end
    proof { lem_rec(ns0, ms, self.nodes@, c0, c1, collector.cls(), n0, n1, var_manager.next(), *pre, vx_range_len(pre.left_if), vx_range_len(pre.right_if), it.index@ as int, 0, 2, it.index@ as int); }
//@loop 3 iter=it
    invariant it.seq().len() == vx_range_len(pre.right_only_if), forall|k: int| 0 <= k < it.seq().len() ==> #[trigger] it.seq()[k] == pre.right_only_if.lo + k,
        self.lookup_leaf == old(self).lookup_leaf, step_ok(ns0, self.nodes@, c0, collector.cls(), n0, var_manager.next()), kids_prog(self.nodes@, *pre, vx_range_len(pre.left_if), vx_range_len(pre.right_if), vx_range_len(pre.left_only_if), it.index@ as int),
        forall|i: int| pre.lcon.id.0 < i < ns0.len() && pre.rcon.id.0 < i ==> self.nodes@[i] == #[trigger] ns0[i],
//@ghost loop 3 start
    let ghost ms = self.nodes@;
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
    proof { lem_rec_call(ns0, ms, c0, c1, n0, n1, *pre, i0, idx0, wif, woi, pre.rcon, rval as int); lem_pre_hi(ns0, *pre, i0, idx0, wif, woi); assert(rval == pre.right_only_if.lo + it.index@); }
//@ghost loop 3 end
    proof { lem_rec(ns0, ms, self.nodes@, c0, c1, collector.cls(), n0, n1, var_manager.next(), *pre, vx_range_len(pre.left_if), vx_range_len(pre.right_if), vx_range_len(pre.left_only_if), it.index@ as int, 3, it.index@ as int); }
//@sub in it: pre\.(\w+)\.clone\(\) ==> in it: vx_range(&pre.$1)
//@ghost start
    let ghost ns0 = self.nodes@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    let ghost (i0, idx0, wif, woi) = choose|i: int, idx: int, wif: bool, woi: bool| #[trigger] pre_ok(ns0, *pre, i, idx, wif, woi);
    proof { lem_step_refl(ns0, c0, n0); lem_rec_start(ns0, *pre); }
//@ghost end
    proof { lem_rec_done(self.nodes@, *pre); }
//@end
//@fn src/encodings/totdb/mod.rs Db::encode_unweighted slices attr=verifier::rlimit(60)
//@ret r
    requires db_in(old(self).nodes@), id.0 < old(self).nodes@.len(),
        pre_ok(old(self).nodes@, *pre, id.0 as int, idx as int, req_semantics.sif() && !old(self).nodes@[id.0 as int].oif(idx as int), req_semantics.soi() && !old(self).nodes@[id.0 as int].ooi(idx as int)),
        old(self).nodes@[id.0 as int].out(idx as int) == Some(olit), kids_ok(old(self).nodes@, *pre), !done(old(self).nodes@[id.0 as int], idx as int, req_semantics),
    ensures final(self).lookup_leaf == old(self).lookup_leaf, r is Ok ==> dext(old(self).nodes@, final(self).nodes@) && done(final(self).nodes@[id.0 as int], idx as int, req_semantics)
        && (forall|i: int| id.0 < i < old(self).nodes@.len() ==> final(self).nodes@[i] == #[trigger] old(self).nodes@[i])
        && grown(old(collector).cls(), final(collector).cls()) && db_in(final(self).nodes@) && (forall|n: nat| fresh(old(self).nodes@, final(self).nodes@, n)) && (forall|n: nat| vars_in(old(self).nodes@, n) ==> vars_in(final(self).nodes@, n))
        && enc_new(old(self).nodes@, final(self).nodes@, since(final(collector).cls(), old(collector).cls())),
//@sub self\[id\] ==> self.nodes[id.0]
//@sub pre\.(\w+)\.contains\( ==> vx_contains(&pre.$1, 
//@closure 0 c: Clause
    requires pre.left_if.lo <= lval <= pre.left_if.hi
    ensures if_cl(c.s(), self.nodes@, *pre, idx as int, lval as int, olit)
//@closure 1 c: Clause
    requires pre.left_only_if.lo <= lval <= pre.left_only_if.hi
    ensures oi_cl(c.s(), self.nodes@, *pre, idx as int, lval as int, olit)
//@ghost start
    let ghost ns0 = self.nodes@;
    let ghost c0 = collector.cls();
    let ghost wif = req_semantics.sif() && !self.nodes@[id.0 as int].oif(idx as int);
    let ghost woi = req_semantics.soi() && !self.nodes@[id.0 as int].ooi(idx as int);
    proof { lem_len(ns0, id.0 as int); lem_pre_hi(ns0, *pre, id.0 as int, idx as int, wif, woi); }
//@ghost let llits 0 before
    let ghost ns1 = self.nodes@;
    proof { lem_mark(ns0, ns1, id.0 as int, idx as int, req_semantics); lem_kid_use(ns0, ns1, *pre, id.0 as int, idx as int, wif, woi, 0); assert(pre_ok(ns1, *pre, id.0 as int, idx as int, wif, woi)); lem_cube2(); lem_opp_tv(); }
//@ghost let if_clause 0 before
    proof { assert(llits@.len() == ns1[pre.lcon.id.0 as int].nlen()); assert(forall|k: int| 0 <= k < llits@.len() ==> (#[trigger] llits@[k]).l() == ns1[pre.lcon.id.0 as int].out(k));
        assert(rlits@.len() == ns1[pre.rcon.id.0 as int].nlen()); assert(forall|k: int| 0 <= k < rlits@.len() ==> (#[trigger] rlits@[k]).l() == ns1[pre.rcon.id.0 as int].out(k)); }
//@ghost closure 0 start
    proof { lem_dext_refl(self.nodes@); lem_kid_use(self.nodes@, self.nodes@, *pre, id.0 as int, idx as int, wif, woi, lval as int); }
//@ghost closure 1 start
    proof { lem_dext_refl(self.nodes@); lem_kid_use(self.nodes@, self.nodes@, *pre, id.0 as int, idx as int, wif, woi, lval as int); }
//@ghost call extend_clauses 1 before
    let ghost c1 = collector.cls();
//@ghost end
    proof { assert(c1.take(c0.len() as int) =~= c0); assert(collector.cls().take(c1.len() as int) =~= c1); lem_enc(ns0, ns1, c0, c1, collector.cls(), *pre, id.0 as int, idx as int, wif, woi, olit, req_semantics); }
//@sub pre\.left_if\.clone\(\)\.map\(if_clause\) ==> vx_map_range(&pre.left_if, if_clause)
//@sub pre\.left_only_if\.clone\(\)\.map\(only_if_clause\) ==> vx_map_range(&pre.left_only_if, only_if_clause)
//@end
//@fn src/encodings/totdb/mod.rs Db::define_unweighted dyn
//@ret r
    requires db_in(old(self).nodes@), vars_in(old(self).nodes@, old(var_manager).next()), id.0 < old(self).nodes@.len(), is_u(old(self).nodes@[id.0 as int]), idx < old(self).nodes@[id.0 as int].nlen(),
    ensures final(self).lookup_leaf == old(self).lookup_leaf, r is Ok ==> step_ok(old(self).nodes@, final(self).nodes@, old(collector).cls(), final(collector).cls(), old(var_manager).next(), final(var_manager).next())
        && done(final(self).nodes@[id.0 as int], idx as int, semantics) && final(self).nodes@[id.0 as int].out(idx as int) == Some(r->Ok_0)
        && (forall|i: int| id.0 < i < old(self).nodes@.len() ==> final(self).nodes@[i] == #[trigger] old(self).nodes@[i]),
    decreases id.0, 1nat,
//@sub self\[id\] ==> self.nodes[id.0]
//@ghost start
    let ghost ns0 = self.nodes@;
    let ghost c0 = collector.cls();
    let ghost n0 = var_manager.next();
    proof { lem_step_refl(ns0, c0, n0); }
//@ghost call recurse_unweighted 0 before
    let ghost wif = semantics.sif() && !ns0[id.0 as int].oif(idx as int);
    let ghost woi = semantics.soi() && !ns0[id.0 as int].ooi(idx as int);
    proof { assert(pre_ok(ns0, pre, id.0 as int, idx as int, wif, woi)); lem_pre_hi(ns0, pre, id.0 as int, idx as int, wif, woi); }
//@ghost call get_olit 1 before
    let ghost ns1 = self.nodes@;
    let ghost c1 = collector.cls();
    let ghost n1 = var_manager.next();
    proof { lem_step(ns0, ns1, c0, c1, n0, n1); assert(ns1[id.0 as int] == ns0[id.0 as int]); }
//@ghost call encode_unweighted 0 before
    let ghost ns2 = self.nodes@;
    let ghost n2 = var_manager.next();
    proof { lem_olit_step(ns1, ns2, c1, n1, n2); lem_step_trans(ns0, ns1, ns2, c0, c1, c1, n0, n1, n2); lem_pre_ext(ns0, ns1, ns2, pre, id.0 as int, idx as int, wif, woi);
        let z = ns2[id.0 as int].oif(idx as int); let z2 = ns2[id.0 as int].ooi(idx as int); assert(!done(ns2[id.0 as int], idx as int, semantics)); }
//@ghost end
    proof { lem_enc_step(ns2, self.nodes@, c1, collector.cls(), n2); lem_step_trans(ns0, ns2, self.nodes@, c0, c1, collector.cls(), n0, n2, n2); assert(dext_node(ns2[id.0 as int], self.nodes@[id.0 as int])); let z = ns2[id.0 as int].out(idx as int); }
//@end
}
pub open spec fn rec_ok(ns: Ns, p: UnweightedPrecondResult) -> bool {
    exists|i: int, idx: int, wif: bool, woi: bool| #[trigger] pre_ok(ns, p, i, idx, wif, woi)
}
pub fn vx_contains(r: &VxIncl, x: &usize) -> (b: bool) ensures b == (r.lo <= *x <= r.hi) { r.lo <= *x && *x <= r.hi }
/// the numbers of an inclusive range
pub fn vx_range(r: &VxIncl) -> (o: Vec<usize>)
    ensures r.lo <= r.hi ==> o@.len() == r.hi - r.lo + 1, r.lo > r.hi ==> o@.len() == 0, forall|k: int| 0 <= k < o@.len() ==> #[trigger] o@[k] == r.lo + k,
{
    let mut o: Vec<usize> = Vec::new();
    if r.lo <= r.hi {
        let mut i = r.lo;
        loop
            invariant_except_break r.lo <= i <= r.hi, o@.len() == i - r.lo,
            invariant forall|k: int| 0 <= k < o@.len() ==> #[trigger] o@[k] == r.lo + k,
            ensures o@.len() == r.hi - r.lo + 1,
            decreases r.hi - i,
        {
            o.push(i);
            if i == r.hi { break; }
            i += 1;
        }
    }
    o
}
pub fn vx_map_range<F: Fn(usize) -> Clause>(r: &VxIncl, f: F) -> (o: Vec<Clause>)
    requires forall|i: usize| r.lo <= i <= r.hi ==> #[trigger] f.requires((i,)),
    ensures r.lo <= r.hi ==> o@.len() == r.hi - r.lo + 1, r.lo > r.hi ==> o@.len() == 0, forall|k: int| 0 <= k < o@.len() ==> f.ensures(((r.lo + k) as usize,), #[trigger] o@[k]),
{
    let mut o: Vec<Clause> = Vec::new();
    if r.lo <= r.hi {
        let mut i = r.lo;
        loop
            invariant_except_break r.lo <= i <= r.hi, o@.len() == i - r.lo,
            invariant forall|i: usize| r.lo <= i <= r.hi ==> #[trigger] f.requires((i,)), forall|k: int| 0 <= k < o@.len() ==> f.ensures(((r.lo + k) as usize,), #[trigger] o@[k]),
            ensures o@.len() == r.hi - r.lo + 1,
            decreases r.hi - i,
        {
            o.push(f(i));
            if i == r.hi { break; }
            i += 1;
        }
    }
    o
}
