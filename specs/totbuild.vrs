// ---- building the tree ----
pub broadcast axiom fn lit_hkey() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Lit>();
/// a vector takes at most isize::MAX bytes
#[verifier::external_body] pub proof fn ax_nodes(v: Vec<Node>) ensures v@.len() < isize::MAX {}
#[verifier::external_body] pub proof fn ax_lits(v: Vec<LitData>) ensures v@.len() < isize::MAX {}
impl Default for LitData { #[verifier::external_body] fn default() -> (r: LitData) ensures r.l() is None, r.sem() is None { unimplemented!() } }
/// a database that only holds leaves and unit nodes
pub open spec fn unode(ns: Ns, i: int) -> bool { node_in(ns, i) && is_u(ns[i]) && match ns[i] { Node::Unit(u) => u.depth <= i + 1 && u.n_leaves <= u.lits@.len(), _ => true } }
pub open spec fn tree_in(ns: Ns) -> bool { forall|i: int| 0 <= i < ns.len() ==> #[trigger] unode(ns, i) }
pub open spec fn lk_ok(db: Db) -> bool { forall|l: Lit| #[trigger] db.lookup_leaf@.contains_key(l) ==> db.lookup_leaf@[l].0 < db.nodes@.len() && db.nodes@[db.lookup_leaf@[l].0 as int] == Node::Leaf(l) }
/// old nodes stay, new unit nodes have no reserved outputs, new leaves are among ls
pub open spec fn built(ns: Ns, ms: Ns, ls: Seq<Lit>) -> bool {
    ns.len() <= ms.len() && ms.take(ns.len() as int) == ns && forall|i: int| ns.len() <= i < ms.len() ==> #[trigger] new_node(ms[i], ls)
}
pub open spec fn new_node(n: Node, ls: Seq<Lit>) -> bool { match n { Node::Leaf(l) => ls.contains(l), Node::Unit(u) => forall|k: int| 0 <= k < u.lits@.len() ==> (#[trigger] u.lits@[k]).l() is None && u.lits@[k].sem() is None, _ => false } }
pub proof fn lem_built_refl(ns: Ns, ls: Seq<Lit>) ensures built(ns, ns, ls) { assert(ns.take(ns.len() as int) =~= ns); }
pub proof fn lem_built_trans(ns: Ns, ms: Ns, os: Ns, ls: Seq<Lit>, ks: Seq<Lit>) requires built(ns, ms, ls), built(ms, os, ks), forall|l: Lit| #[trigger] ks.contains(l) ==> ls.contains(l) ensures built(ns, os, ls)
{
    assert(os.take(ns.len() as int) =~= ns) by { assert forall|i: int| 0 <= i < ns.len() implies os[i] == ns[i] by { assert(os[i] == os.take(ms.len() as int)[i]); assert(ms[i] == ms.take(ns.len() as int)[i]); } }
    assert forall|i: int| ns.len() <= i < os.len() implies #[trigger] new_node(os[i], ls) by { if i < ms.len() { assert(os[i] == os.take(ms.len() as int)[i]); assert(new_node(ms[i], ls)); } else { assert(new_node(os[i], ks)); } }
}
pub proof fn lem_built(ns: Ns, ms: Ns, ls: Seq<Lit>) requires db_in(ns), built(ns, ms, ls)
    ensures forall|i: int| 0 <= i < ns.len() ==> ms[i] == #[trigger] ns[i], forall|i: int, a: Asg| 0 <= i < ns.len() ==> #[trigger] nval(ms, i, a) == nval(ns, i, a)
{
    assert forall|i: int| 0 <= i < ns.len() implies ms[i] == #[trigger] ns[i] by { assert(ms[i] == ms.take(ns.len() as int)[i]); }
    assert forall|i: int, a: Asg| 0 <= i < ns.len() implies #[trigger] nval(ms, i, a) == nval(ns, i, a) by { lem_nval_pre(ns, ms, i, a); }
}
pub proof fn lem_nval_pre(ns: Ns, ms: Ns, i: int, a: Asg) requires 0 <= i < ns.len() <= ms.len(), forall|i: int| 0 <= i < ns.len() ==> ms[i] == #[trigger] ns[i] ensures nval(ms, i, a) == nval(ns, i, a) decreases i
{ if ns[i] is Unit { let u = ns[i]->Unit_0; if u.left.id.0 < i { lem_nval_pre(ns, ms, u.left.id.0 as int, a); } if u.right.id.0 < i { lem_nval_pre(ns, ms, u.right.id.0 as int, a); } } }
pub proof fn lem_tree_db(ns: Ns) requires tree_in(ns) ensures db_in(ns) { assert forall|i: int| 0 <= i < ns.len() implies node_in(ns, i) by { assert(unode(ns, i)); } }
pub open spec fn full_in(ns: Ns, c: NodeCon) -> bool { is_full(c) && c.ok() && c.id.0 < ns.len() && is_u(ns[c.id.0 as int]) }
/// a unit node appended to the database
pub open spec fn mk_unit(n: Node, l: NodeCon, r: NodeCon, ns: Ns) -> bool {
    n is Unit && n->Unit_0.left == l && n->Unit_0.right == r && n->Unit_0.lits@.len() == ns[l.id.0 as int].nlen() + ns[r.id.0 as int].nlen() && n->Unit_0.depth <= ns.len() + 1 && n->Unit_0.n_leaves <= n->Unit_0.lits@.len()
        && forall|k: int| 0 <= k < n->Unit_0.lits@.len() ==> (#[trigger] n->Unit_0.lits@[k]).l() is None && n->Unit_0.lits@[k].sem() is None
}
pub proof fn lem_push_unit(ns: Ns, ms: Ns, n: Node, l: NodeCon, r: NodeCon, ls: Seq<Lit>)
    requires tree_in(ns), full_in(ns, l), full_in(ns, r), mk_unit(n, l, r, ns), ms == ns.push(n),
    ensures tree_in(ms), built(ns, ms, ls), ms[ns.len() as int].nlen() == ns[l.id.0 as int].nlen() + ns[r.id.0 as int].nlen(),
        forall|a: Asg| #[trigger] nval(ms, ns.len() as int, a) == nval(ns, l.id.0 as int, a) + nval(ns, r.id.0 as int, a),
{
    lem_tree_db(ns);
    assert(ms.take(ns.len() as int) =~= ns);
    lem_built(ns, ms, ls);
    assert(unode(ns, l.id.0 as int)); assert(unode(ns, r.id.0 as int));
    let e = assign_none();
    lem_nval_range(ns, l.id.0 as int, e); lem_nval_range(ns, r.id.0 as int, e);
    lem_cval(l, ns[l.id.0 as int].nlen(), 0); lem_cval(r, ns[r.id.0 as int].nlen(), 0);
    assert forall|i: int| 0 <= i < ms.len() implies #[trigger] unode(ms, i) by { if i < ns.len() { assert(unode(ns, i)); } }
    assert forall|a: Asg| #[trigger] nval(ms, ns.len() as int, a) == nval(ns, l.id.0 as int, a) + nval(ns, r.id.0 as int, a) by {
        lem_nval_range(ns, l.id.0 as int, a); lem_nval_range(ns, r.id.0 as int, a);
        lem_cval(l, ns[l.id.0 as int].nlen(), nval(ns, l.id.0 as int, a)); lem_cval(r, ns[r.id.0 as int].nlen(), nval(ns, r.id.0 as int, a));
        assert(ms[ns.len() as int] == n);
        assert(nval(ms, l.id.0 as int, a) == nval(ns, l.id.0 as int, a)); assert(nval(ms, r.id.0 as int, a) == nval(ns, r.id.0 as int, a));
        assert(nval(ms, ns.len() as int, a) == l.cval(nval(ms, l.id.0 as int, a)) + r.cval(nval(ms, r.id.0 as int, a)));
    }
}
pub proof fn lem_push_leaf(ns: Ns, l: Lit) requires tree_in(ns) ensures tree_in(ns.push(Node::Leaf(l))), built(ns, ns.push(Node::Leaf(l)), seq![l])
{
    let ms = ns.push(Node::Leaf(l));
    assert(ms.take(ns.len() as int) =~= ns);
    assert(seq![l][0] == l); assert(seq![l].contains(l));
    assert forall|i: int| 0 <= i < ms.len() implies #[trigger] unode(ms, i) by { if i < ns.len() { assert(unode(ns, i)); } }
}
pub open spec fn assign_none() -> Asg { |v: nat| false }
impl UnitNode {
//@fn src/encodings/totdb/mod.rs UnitNode::new
//@ret r
    ensures r.left == left, r.right == right, r.depth == depth, r.n_leaves == n_leaves, r.lits@.len() == len, forall|k: int| 0 <= k < len ==> (#[trigger] r.lits@[k]).l() is None && r.lits@[k].sem() is None,
//@sub let mut lits = vec ==> let mut lits: Vec<LitData> = vec
//@sub lits\.reserve_exact\(len\); ==> lits.reserve(len);
//@loop 0 iter=it
    invariant it.seq().len() == len, lits@.len() == it.index@, forall|k: int| 0 <= k < lits@.len() ==> (#[trigger] lits@[k]).l() is None && lits@[k].sem() is None,
//@end
}
pub fn vx_unreached<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
impl Node {
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::depth
//@ret r
    ensures r == (match *self { Node::Unit(u) => u.depth, Node::General(g) => g.depth, _ => 1 }),
//@end
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::n_leaves
//@ret r
    ensures r == (match *self { Node::Unit(u) => u.n_leaves, Node::General(g) => g.n_leaves, Node::Leaf(_) => 1, Node::Dummy => 0 }),
//@end
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::leaf
//@ret r
    ensures r == Node::Leaf(lit),
//@end
//@fn src/encodings/totdb/mod.rs <Node as NodeLike>::internal loops=2
//@ret r
    requires tree_in(db.nodes@), full_in(db.nodes@, left), full_in(db.nodes@, right),
    ensures mk_unit(r, left, right, db.nodes@),
//@sub fn internal<Db>\( ==> fn internal(
//@sub (?s)where\s+Db: NodeById<Node = Self>, ==> 
//@sub db\[(left|right)\.id\] ==> db.nodes[$1.id.0]
//@sub left\.multiplier != right\.multiplier ==> left.multiplier.v != right.multiplier.v
//@sub (?s)(left|right)\s*\.len_limit\s*\.map_or\((.*?),\s*VxNz::get,?\s*\) ==> match $1.len_limit { Some(l) => l.get(), None => $2 }
//@sub db\.nodes\[\w+\.id\.0\]\.vals\([^()]*\(\) \+ 1\.\.\)\.count\(\) ==> vx_unreached()
//@sub (?s)if general \{.*?return Node::General\(.*?\);\s*\}\s*vx_assert ==> if general { return vx_unreached(); } vx_assert
//@ghost start
    proof {
        lem_tree_db(db.nodes@);
        ax_nodes(db.nodes);
        assert(unode(db.nodes@, left.id.0 as int)); assert(unode(db.nodes@, right.id.0 as int));
        let l = db.nodes@[left.id.0 as int]; let r = db.nodes@[right.id.0 as int];
        if l is Unit { ax_lits(l->Unit_0.lits); } if r is Unit { ax_lits(r->Unit_0.lits); }
        lem_cval(left, l.nlen(), 0); lem_cval(right, r.nlen(), 0);
    }
//@end
}
impl Db {
//@fn src/encodings/totdb/mod.rs <Db as NodeById>::insert
//@ret r
    requires lk_ok(*old(self)), is_u(node),
    ensures lk_ok(*final(self)), r.0 < final(self).nodes@.len(), final(self).nodes@[r.0 as int] == node,
        node is Unit ==> final(self).nodes@ == old(self).nodes@.push(node) && r.0 == old(self).nodes@.len(),
        final(self).nodes@ == old(self).nodes@ || final(self).nodes@ == old(self).nodes@.push(node),
//@sub Self::Node ==> Node
//@sub Some\(&id\) = ([^{]+)\{\s*return id ==> Some(id) = $1 { return *id
//@ghost start
    broadcast use lit_hkey, vstd::std_specs::hash::group_hash_axioms;
//@end
}
// ---- merging connections (binextend) ----
/// is the group with (1-based) number s one longer than the common width?
pub open spec fn e(rw: int, s: int) -> bool decreases s { if s < 1 { false } else if s % 2 == 1 { rw % 2 == 1 } else { e(rw / 2, s / 2) } }
pub open spec fn wd(w: int, rw: int, s: int) -> int { w + if e(rw, s) { 1int } else { 0 } }
/// where the group after group k starts
pub open spec fn st(w: int, rw: int, k: int) -> int decreases k { if k <= 0 { 0 } else { st(w, rw, k - 1) + wd(w, rw, k) } }
pub open spec fn p2(k: int) -> int decreases k { if k <= 0 { 1 } else { 2 * p2(k - 1) } }
/// after k further rounds there is one group of all n
pub open spec fn lv(w: int, rw: int, k: int, n: int) -> bool decreases k { if k <= 0 { w == n && rw == 0 } else { lv(2 * w + rw % 2, rw / 2, k - 1, n) } }
pub open spec fn low(s: isize, r: isize) -> bool { (s & ((-s) as isize) & r) != 0 }
pub proof fn lem_low(s: isize, r: isize) requires s > 0, r >= 0 ensures low(s, r) == e(r as int, s as int) decreases s
{
    if s % 2 == 1 {
        assert((s & ((-s) as isize) & r) != 0 <==> r % 2 == 1) by (bit_vector) requires s > 0, r >= 0, s % 2 == 1;
    } else {
        let t = (s / 2) as isize;
        let q = (r / 2) as isize;
        assert((s & ((-s) as isize) & r) != 0 <==> (t & ((-t) as isize) & q) != 0) by (bit_vector) requires s > 0, r >= 0, s % 2 == 0, t == s / 2, q == r / 2;
        lem_low(t, q);
    }
}
pub proof fn lem_st2(w: int, rw: int, k: int) requires rw >= 0, k >= 0 ensures st(2 * w + rw % 2, rw / 2, k) == st(w, rw, 2 * k) decreases k
{ if k > 0 { lem_st2(w, rw, k - 1); assert(2 * k - 2 == 2 * (k - 1)); assert(st(w, rw, 2 * k) == st(w, rw, 2 * k - 1) + wd(w, rw, 2 * k)); assert(st(w, rw, 2 * k - 1) == st(w, rw, 2 * k - 2) + wd(w, rw, 2 * k - 1)); lem_e2(rw, k); } }
pub proof fn lem_e2(rw: int, s: int) requires s >= 1 ensures e(rw, 2 * s) == e(rw / 2, s), e(rw, 2 * s - 1) == (rw % 2 == 1)
{ assert((2 * s) % 2 == 0 && (2 * s) / 2 == s); assert((2 * s - 1) % 2 == 1); }
pub proof fn lem_st_mono(w: int, rw: int, i: int, j: int) requires 0 <= i <= j, w >= 0 ensures st(w, rw, i) + (j - i) * w <= st(w, rw, j), st(w, rw, i) <= st(w, rw, j) decreases j - i
{ if i < j { lem_st_mono(w, rw, i, j - 1); assert((j - i) * w == (j - 1 - i) * w + w) by (nonlinear_arith); assert((j - 1 - i) * w >= 0) by (nonlinear_arith) requires j - 1 - i >= 0, w >= 0; } else { assert((j - i) * w == 0) by (nonlinear_arith) requires j == i; } }
pub proof fn lem_lv(w: int, rw: int, k: int, n: int) requires lv(w, rw, k, n), w >= 0, rw >= 0, k >= 0 ensures st(w, rw, p2(k)) == n, w * p2(k) <= n, rw < p2(k), p2(k) >= 1, w <= n decreases k
{
    if k == 0 { assert(p2(0) == 1); assert(st(w, rw, 1) == st(w, rw, 0) + wd(w, rw, 1)); assert(!e(0, 1)); assert(st(w, rw, 0) == 0); }
    else {
        let v = 2 * w + rw % 2;
        lem_lv(v, rw / 2, k - 1, n);
        lem_st2(w, rw, p2(k - 1));
        assert(w * p2(k) <= v * p2(k - 1)) by (nonlinear_arith) requires v >= 2 * w, p2(k) == 2 * p2(k - 1), p2(k - 1) >= 1;
    }
}
pub proof fn lem_p2_mono(i: int, j: int) requires 0 <= i <= j ensures p2(i) <= p2(j), p2(i) >= 1 decreases j
{ if i < j { lem_p2_mono(i, j - 1); } else if i > 0 { lem_p2_mono(i - 1, i - 1); } }
pub proof fn lem_p2(k: int) requires k >= 0, p2(k) < 0x8000_0000_0000_0000 ensures p2(k) <= 0x4000_0000_0000_0000
{
    assert(p2(62) == 0x4000_0000_0000_0000) by (compute);
    assert(p2(63) == 2 * p2(62));
    if k <= 62 { lem_p2_mono(k, 62); } else { lem_p2_mono(63, k); }
}
/// the situation in one round: groups of width w (partly plus one), each made of two groups of the previous round
pub open spec fn lvl(w: int, rw: int, pw: int, prw: int, k: int, n: int) -> bool { w >= 1 && rw >= 0 && pw >= 0 && prw >= 0 && k >= 0 && lv(w, rw, k, n) && w == 2 * pw + prw % 2 && rw == prw / 2 }
pub proof fn lem_pos(w: int, rw: int, pw: int, prw: int, k: int, n: int, s: int)
    requires lvl(w, rw, pw, prw, k, n), s >= 1, st(w, rw, s - 1) < n, s - 1 <= p2(k),
    ensures s <= p2(k), st(w, rw, s - 1) + wd(w, rw, s) == st(w, rw, s), st(w, rw, s) <= n, st(w, rw, s - 1) == st(pw, prw, 2 * s - 2), st(w, rw, s) == st(pw, prw, 2 * s), st(pw, prw, 2 * s - 1) == st(w, rw, s - 1) + wd(pw, prw, 2 * s - 1),
        wd(w, rw, s) == wd(pw, prw, 2 * s - 1) + wd(pw, prw, 2 * s), e(prw, 2 * s - 1) == (prw % 2 == 1), e(prw, 2 * s) == e(rw, s), (s - 1) * w <= st(w, rw, s - 1), s - 1 <= st(w, rw, s - 1), w <= n, rw < n || n == 0 || rw == 0,
{
    lem_lv(w, rw, k, n);
    if s - 1 == p2(k) { }
    lem_st_mono(w, rw, s, p2(k));
    lem_st_mono(w, rw, 0, s - 1);
    assert((s - 1) * w >= s - 1) by (nonlinear_arith) requires s >= 1, w >= 1;
    lem_st2(pw, prw, s - 1); lem_st2(pw, prw, s); lem_e2(prw, s);
    assert(2 * (s - 1) == 2 * s - 2);
    assert(st(pw, prw, 2 * s) == st(pw, prw, 2 * s - 1) + wd(pw, prw, 2 * s));
    assert(st(pw, prw, 2 * s - 1) == st(pw, prw, 2 * s - 2) + wd(pw, prw, 2 * s - 1));
    assert(w * p2(k) >= p2(k)) by (nonlinear_arith) requires w >= 1, p2(k) >= 1;
}
/// what the connections lo..hi add up to
pub open spec fn sumv(ns: Ns, cs: Seq<NodeCon>, lo: int, hi: int, a: Asg) -> int decreases hi - lo { if hi <= lo { 0 } else { sumv(ns, cs, lo, hi - 1, a) + nval(ns, cs[hi - 1].id.0 as int, a) } }
pub open spec fn suml(ns: Ns, cs: Seq<NodeCon>, lo: int, hi: int) -> int decreases hi - lo { if hi <= lo { 0 } else { suml(ns, cs, lo, hi - 1) + ns[cs[hi - 1].id.0 as int].nlen() } }
pub proof fn lem_sum_split(ns: Ns, cs: Seq<NodeCon>, lo: int, mid: int, hi: int, a: Asg) requires lo <= mid <= hi ensures sumv(ns, cs, lo, hi, a) == sumv(ns, cs, lo, mid, a) + sumv(ns, cs, mid, hi, a), suml(ns, cs, lo, hi) == suml(ns, cs, lo, mid) + suml(ns, cs, mid, hi) decreases hi - mid
{ if mid < hi { lem_sum_split(ns, cs, lo, mid, hi - 1, a); } }
/// the connection c stands for the connections lo..hi
pub open spec fn repr(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, c: NodeCon, lo: int, hi: int) -> bool {
    full_in(ns, c) && ns[c.id.0 as int].nlen() == suml(ns0, cs, lo, hi) && forall|a: Asg| #[trigger] nval(ns, c.id.0 as int, a) == sumv(ns0, cs, lo, hi, a)
}
pub open spec fn grp(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, cons: Seq<NodeCon>, w: int, rw: int, s: int) -> bool { wd(w, rw, s) >= 1 ==> repr(ns0, cs, ns, cons[st(w, rw, s - 1)], st(w, rw, s - 1), st(w, rw, s)) }
pub proof fn lem_repr(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, ms: Ns, c: NodeCon, lo: int, hi: int, ls: Seq<Lit>) requires repr(ns0, cs, ns, c, lo, hi), db_in(ns), built(ns, ms, ls) ensures repr(ns0, cs, ms, c, lo, hi)
{ lem_built(ns, ms, ls); assert forall|a: Asg| #[trigger] nval(ms, c.id.0 as int, a) == sumv(ns0, cs, lo, hi, a) by { assert(nval(ms, c.id.0 as int, a) == nval(ns, c.id.0 as int, a)); } }
/// before the first round
pub proof fn lem_grp0(ns0: Ns, cs: Seq<NodeCon>, prw: int, n: int) requires prw >= 0, cs.len() == n, forall|i: int| 0 <= i < n ==> full_in(ns0, #[trigger] cs[i])
    ensures forall|s: int| 1 <= s && st(0, prw, s) <= n ==> #[trigger] grp(ns0, cs, ns0, cs, 0, prw, s)
{
    assert forall|s: int| 1 <= s && st(0, prw, s) <= n implies #[trigger] grp(ns0, cs, ns0, cs, 0, prw, s) by {
        if wd(0, prw, s) >= 1 {
            let p = st(0, prw, s - 1);
            lem_st_mono(0, prw, 0, s - 1);
            assert(st(0, prw, s) == p + 1);
            assert(suml(ns0, cs, p, p) == 0);
            assert(suml(ns0, cs, p, p + 1) == suml(ns0, cs, p, p) + ns0[cs[p].id.0 as int].nlen());
            assert forall|a: Asg| #[trigger] nval(ns0, cs[p].id.0 as int, a) == sumv(ns0, cs, p, p + 1, a) by { assert(sumv(ns0, cs, p, p, a) == 0); }
            assert(full_in(ns0, cs[p]));
        }
    }
}
/// all groups of a round
pub open spec fn grps(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, cons: Seq<NodeCon>, w: int, rw: int, lo: int, hi: int) -> bool { forall|s: int| lo <= s <= hi ==> #[trigger] grp(ns0, cs, ns, cons, w, rw, s) }
/// one group is done without a change
pub proof fn lem_skip(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, cons: Seq<NodeCon>, w: int, rw: int, pw: int, prw: int, k: int, n: int, s: int)
    requires lvl(w, rw, pw, prw, k, n), s >= 1, st(w, rw, s - 1) < n, s - 1 <= p2(k), wd(w, rw, s) == 1, grps(ns0, cs, ns, cons, w, rw, 1, s - 1), grps(ns0, cs, ns, cons, pw, prw, 2 * s - 1, 2 * p2(k)),
    ensures grps(ns0, cs, ns, cons, w, rw, 1, s), grps(ns0, cs, ns, cons, pw, prw, 2 * s + 1, 2 * p2(k)), s <= p2(k), st(w, rw, s) == st(w, rw, s - 1) + 1,
{
    lem_pos(w, rw, pw, prw, k, n, s);
    assert(grp(ns0, cs, ns, cons, pw, prw, 2 * s - 1));
    assert(2 * s - 1 - 1 == 2 * s - 2);
    assert(grp(ns0, cs, ns, cons, w, rw, s));
}
/// one group is done by joining the two groups of the previous round
pub proof fn lem_join(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, ms: Ns, cons: Seq<NodeCon>, cons2: Seq<NodeCon>, w: int, rw: int, pw: int, prw: int, k: int, n: int, s: int, ls: Seq<Lit>)
    requires lvl(w, rw, pw, prw, k, n), s >= 1, st(w, rw, s - 1) < n, s - 1 <= p2(k), wd(w, rw, s) > 1, grps(ns0, cs, ns, cons, w, rw, 1, s - 1), grps(ns0, cs, ns, cons, pw, prw, 2 * s - 1, 2 * p2(k)), cons.len() == n,
        tree_in(ns), ms.len() == ns.len() + 1, ms == ns.push(ms[ns.len() as int]), mk_unit(ms[ns.len() as int], cons[st(w, rw, s - 1)], cons[st(pw, prw, 2 * s - 1)], ns),
        cons2 =~= cons.update(st(w, rw, s - 1), cons2[st(w, rw, s - 1)]), full_in(ms, cons2[st(w, rw, s - 1)]), cons2[st(w, rw, s - 1)].id.0 == ns.len(),
    ensures grps(ns0, cs, ms, cons2, w, rw, 1, s), grps(ns0, cs, ms, cons2, pw, prw, 2 * s + 1, 2 * p2(k)), s <= p2(k), tree_in(ms), built(ns, ms, ls),
{
    lem_pos(w, rw, pw, prw, k, n, s);
    let p = st(w, rw, s - 1); let q = st(pw, prw, 2 * s - 1); let z = st(w, rw, s);
    assert(wd(pw, prw, 2 * s - 1) >= 1 && wd(pw, prw, 2 * s) >= 1) by { if pw == 0 { assert(w == prw % 2); } }
    assert(grp(ns0, cs, ns, cons, pw, prw, 2 * s - 1)); assert(grp(ns0, cs, ns, cons, pw, prw, 2 * s));
    assert(2 * s - 1 - 1 == 2 * s - 2);
    let l = cons[p]; let r = cons[q];
    assert(repr(ns0, cs, ns, l, p, q)); assert(repr(ns0, cs, ns, r, q, z));
    lem_push_unit(ns, ms, ms[ns.len() as int], l, r, ls); lem_tree_db(ns);
    lem_sum_split(ns0, cs, p, q, z, assign_none());
    let c = cons2[p];
    assert(repr(ns0, cs, ms, c, p, z)) by {
        assert forall|a: Asg| #[trigger] nval(ms, c.id.0 as int, a) == sumv(ns0, cs, p, z, a) by { lem_sum_split(ns0, cs, p, q, z, a); assert(nval(ns, l.id.0 as int, a) == sumv(ns0, cs, p, q, a)); assert(nval(ns, r.id.0 as int, a) == sumv(ns0, cs, q, z, a)); assert(nval(ms, ns.len() as int, a) == nval(ns, l.id.0 as int, a) + nval(ns, r.id.0 as int, a)); }
    }
    assert forall|t: int| 1 <= t <= s implies #[trigger] grp(ns0, cs, ms, cons2, w, rw, t) by {
        if t < s { assert(grp(ns0, cs, ns, cons, w, rw, t)); lem_st_mono(w, rw, 0, t - 1); lem_st_mono(w, rw, t, s - 1); assert(st(w, rw, t) == st(w, rw, t - 1) + wd(w, rw, t)); lem_repr(ns0, cs, ns, ms, cons[st(w, rw, t - 1)], st(w, rw, t - 1), st(w, rw, t), ls); }
    }
    assert forall|t: int| 2 * s + 1 <= t <= 2 * p2(k) implies #[trigger] grp(ns0, cs, ms, cons2, pw, prw, t) by {
        assert(grp(ns0, cs, ns, cons, pw, prw, t));
        if wd(pw, prw, t) >= 1 {
            lem_st_mono(pw, prw, 2 * s, t - 1);
            lem_lv(w, rw, k, n); lem_st2(pw, prw, p2(k)); lem_st_mono(pw, prw, t, 2 * p2(k));
            assert(st(pw, prw, t) == st(pw, prw, t - 1) + wd(pw, prw, t));
            lem_repr(ns0, cs, ns, ms, cons[st(pw, prw, t - 1)], st(pw, prw, t - 1), st(pw, prw, t), ls);
        }
    }
}
pub proof fn lem_kids(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, cons: Seq<NodeCon>, w: int, rw: int, pw: int, prw: int, k: int, n: int, s: int)
    requires lvl(w, rw, pw, prw, k, n), s >= 1, st(w, rw, s - 1) < n, s - 1 <= p2(k), wd(w, rw, s) > 1, grps(ns0, cs, ns, cons, pw, prw, 2 * s - 1, 2 * p2(k)), cons.len() == n,
    ensures full_in(ns, cons[st(w, rw, s - 1)]), full_in(ns, cons[st(pw, prw, 2 * s - 1)]), 0 <= st(w, rw, s - 1) < st(pw, prw, 2 * s - 1) < n, wd(pw, prw, 2 * s - 1) >= 1, wd(pw, prw, 2 * s) >= 1,
{
    lem_pos(w, rw, pw, prw, k, n, s);
    assert(wd(pw, prw, 2 * s - 1) >= 1 && wd(pw, prw, 2 * s) >= 1) by { if pw == 0 { assert(w == prw % 2); } }
    assert(grp(ns0, cs, ns, cons, pw, prw, 2 * s - 1)); assert(grp(ns0, cs, ns, cons, pw, prw, 2 * s));
    assert(2 * s - 1 - 1 == 2 * s - 2);
}
/// after a round
pub proof fn lem_round(ns0: Ns, cs: Seq<NodeCon>, ns: Ns, cons: Seq<NodeCon>, w: int, rw: int, pw: int, prw: int, k: int, n: int, s: int)
    requires lvl(w, rw, pw, prw, k, n), s >= 1, st(w, rw, s - 1) == n, s - 1 <= p2(k), grps(ns0, cs, ns, cons, w, rw, 1, s - 1), n >= 1,
    ensures k >= 1 ==> lvl(2 * w + rw % 2, rw / 2, w, rw, k - 1, n) && grps(ns0, cs, ns, cons, w, rw, 1, 2 * p2(k - 1)), k == 0 ==> w == n && rw == 0 && repr(ns0, cs, ns, cons[0], 0, n), w <= n,
{
    lem_lv(w, rw, k, n);
    if s - 1 < p2(k) { lem_st_mono(w, rw, s - 1, p2(k)); assert((p2(k) - (s - 1)) * w >= 1) by (nonlinear_arith) requires p2(k) - (s - 1) >= 1, w >= 1; }
    if k == 0 { assert(grp(ns0, cs, ns, cons, w, rw, 1)); assert(st(w, rw, 0) == 0); assert(st(w, rw, 1) == n); }
}
impl NodeCon {
//@fn src/encodings/nodedb.rs NodeCon::weighted
//@ret r
    requires weight == 1,
    ensures r.id == id, is_full(r), r.ok(),
//@sub NonZeroU8 ==> VxNz8
//@sub weight\.try_into\(\)\.unwrap\(\) ==> VxNz::new(weight).unwrap()
//@end
//@fn src/encodings/nodedb.rs NodeCon::offset_weighted
//@ret r
    requires offset == 0, weight == 1,
    ensures r.id == id, is_full(r), r.ok(),
//@sub NonZeroU8 ==> VxNz8
//@sub weight\.try_into\(\)\.unwrap\(\) ==> VxNz::new(weight).unwrap()
//@end
}
pub fn vx_from_bool(b: bool) -> (r: usize) ensures r == (if b { 1int } else { 0 }) { if b { 1 } else { 0 } }
impl Db {
//@fn src/encodings/nodedb.rs trait:NodeById::merge assert=assume attr=verifier::loop_isolation(false)
//@ret r
    requires lk_ok(*old(self)), tree_in(old(self).nodes@), forall|i: int| 0 <= i < old(cons)@.len() ==> full_in(old(self).nodes@, #[trigger] old(cons)@[i]),
    ensures lk_ok(*final(self)), tree_in(final(self).nodes@), built(old(self).nodes@, final(self).nodes@, Seq::empty()), r is None <==> old(cons)@.len() == 0,
        r is Some ==> repr(old(self).nodes@, old(cons)@, final(self).nodes@, r->Some_0, 0, old(cons)@.len() as int), r is None ==> *final(self) == *old(self),
//@sub usize::from\( ==> vx_from_bool(
//@sub let mut reverse_width = 0; ==> let mut reverse_width: usize = 0;
//@sub let mut split_idx = 1; ==> let mut split_idx: isize = 1;
//@sub isize::MAX\.unsigned_abs\(\) ==> (isize::MAX as usize)
//@sub NonZeroUsize ==> VxNz
//@sub Self::Node::internal ==> Node::internal
//@ghost start
    let ghost ns0 = self.nodes@;
    let ghost cs = cons@;
    let ghost n = cons@.len() as int;
    let ghost mut k: int = 0;
    proof { lem_tree_db(ns0); lem_built_refl(ns0, Seq::empty()); }
//@loop 0
    invariant width >= 1, lv(width as int, reverse_width as int, k, n), k >= 0, n == cons@.len(), n < isize::MAX,
    decreases width,
//@ghost loop 0 start
    proof {
        lem_lv(width as int, reverse_width as int, k, n);
        let w = width; let rw = reverse_width;
        assert(w * p2(k) >= 2 * p2(k)) by (nonlinear_arith) requires w >= 2, p2(k) >= 1;
        assert(2 * rw < isize::MAX);
        assert(((rw << 1) | (w & 1)) == 2 * rw + w % 2) by (bit_vector) requires 2 * rw < 0x7fff_ffff_ffff_ffff;
        let v = w as int / 2; let x = 2 * rw + w as int % 2;
        assert(2 * v + x % 2 == w as int && x / 2 == rw as int);
        k = k + 1;
        assert(lv(v, x, k, n));
    }
//@ghost loop 0 after
    let ghost rw0 = reverse_width as int;
    let ghost mut pw: int = 0;
    let ghost mut prw: int = 2 * rw0 + 1;
    proof {
        lem_lv(width as int, rw0, k, n);
        let rw = reverse_width;
        assert(2 * rw < 2 * p2(k) && p2(k) <= n);
        lem_st2(0, prw, p2(k));
        lem_grp0(ns0, cs, prw, n);
        assert forall|s: int| 1 <= s <= 2 * p2(k) implies #[trigger] grp(ns0, cs, ns0, cs, 0, prw, s) by { lem_st_mono(0, prw, s, 2 * p2(k)); }
    }
//@ghost let last_reverse_width 0 after
    proof {
        let ri = reverse_width;
        lem_lv(width as int, rw0, k, n);
        assert(ri == rw0);
        lem_p2(k);
        assert((ri << 1) == 2 * ri) by (bit_vector) requires 0 <= ri < 0x4000_0000_0000_0000;
    }
//@loop 1
    invariant width >= 1, reverse_width >= 0, last_reverse_width >= 0, pw >= 0, prw >= 0, n == cons@.len(), 1 <= n < isize::MAX, cs.len() == n, k >= -1,
        lk_ok(*self), tree_in(self.nodes@), built(ns0, self.nodes@, Seq::empty()),
        k >= 0 ==> lvl(width as int, reverse_width as int, pw, prw, k, n) && (if pw == 0 { last_reverse_width == 2 * reverse_width } else { last_reverse_width == prw }) && grps(ns0, cs, self.nodes@, cons@, pw, prw, 1, 2 * p2(k)),
        k < 0 ==> width == 2 * n && repr(ns0, cs, self.nodes@, cons@[0], 0, n),
    decreases 2 * n + 1 - width,
//@ghost loop 1 start
    proof { lem_lv(width as int, reverse_width as int, k, n); }
//@ghost loop 1 after
    proof { if k >= 0 { lem_lv(width as int, reverse_width as int, k, n); } }
//@loop 2
    invariant start <= n, n == cons@.len(), split_idx >= 1, start == st(width as int, reverse_width as int, split_idx - 1), split_idx - 1 <= p2(k),
        lk_ok(*self), tree_in(self.nodes@), built(ns0, self.nodes@, Seq::empty()),
        grps(ns0, cs, self.nodes@, cons@, width as int, reverse_width as int, 1, split_idx - 1), grps(ns0, cs, self.nodes@, cons@, pw, prw, 2 * split_idx - 1, 2 * p2(k)),
    decreases n - start,
//@ghost loop 2 start
    let ghost ms = self.nodes@;
    let ghost cons0 = cons@;
    let ghost si = split_idx as int;
    let ghost w = width as int;
    let ghost rw = reverse_width as int;
    proof { lem_low(split_idx, reverse_width); lem_pos(w, rw, pw, prw, k, n, si); lem_lv(w, rw, k, n); lem_e2(prw, si); }
//@ghost if 1 then
    proof { lem_skip(ns0, cs, ms, cons0, w, rw, pw, prw, k, n, si); }
//@ghost if 2 then
    proof { lem_kids(ns0, cs, ms, cons0, w, rw, pw, prw, k, n, si); ax_nodes(self.nodes); }
//@ghost if 2 else
    proof {
        lem_kids(ns0, cs, ms, cons0, w, rw, pw, prw, k, n, si); ax_nodes(self.nodes);
        assert(pw >= 1 && 2 * si <= n) by { lem_st_mono(w, rw, 0, si - 1); assert((si - 1) * w >= (si - 1) * 2) by (nonlinear_arith) requires si >= 1, w >= 2; }
    }
//@ghost let left_child_extend 0 before
    proof { assert(left_child_split_idx == 2 * si - 1); lem_low(left_child_split_idx, last_reverse_width); }
//@ghost loop 2 end
    proof { lem_join(ns0, cs, ms, self.nodes@, cons0, cons@, w, rw, pw, prw, k, n, si, Seq::empty()); lem_built_trans(ns0, ms, self.nodes@, Seq::empty(), Seq::empty()); }
//@ghost loop 2 after
    let ghost w = width as int;
    let ghost rw = reverse_width as int;
    proof {
        lem_round(ns0, cs, self.nodes@, cons@, w, rw, pw, prw, k, n, split_idx as int);
        let wu = width; let ru = reverse_width; let lu = last_reverse_width;
        lem_lv(w, rw, k, n);
        assert(((wu << 1) | (ru as usize & 1)) == 2 * wu + ru % 2) by (bit_vector) requires ru >= 0, wu < 0x7fff_ffff_ffff_ffff;
        assert((ru >> 1) == ru / 2) by (bit_vector) requires ru >= 0;
        assert((lu >> 1) == lu / 2) by (bit_vector) requires lu >= 0;
        pw = w; prw = rw; k = k - 1;
    }
//@end
//@fn src/encodings/nodedb.rs trait:NodeById::lit_tree inst=I:Vec<Lit> chains=loop collect0=vec
//@ret r
    requires lk_ok(*old(self)), tree_in(old(self).nodes@),
    ensures lk_ok(*final(self)), tree_in(final(self).nodes@), built(old(self).nodes@, final(self).nodes@, lits@), r is None <==> lits@.len() == 0, r is None ==> *final(self) == *old(self),
        r is Some ==> r->Some_0.0 < final(self).nodes@.len() && final(self).nodes@[r->Some_0.0 as int].nlen() == lits@.len() && forall|a: Asg| #[trigger] nval(final(self).nodes@, r->Some_0.0 as int, a) == cnt(lits@, a),
//@sub Self::Node::leaf ==> Node::leaf
//@loop 0 iter=it
    invariant it.seq() == lits@, lk_ok(*self), tree_in(self.nodes@), built(ns0, self.nodes@, lits@), lits@.len() == 0 ==> *self == *old(self), vx_acc0@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> leaf_con(self.nodes@, #[trigger] vx_acc0@[i], lits@[i]),
//@ghost start
    let ghost ns0 = self.nodes@;
    proof { lem_built_refl(ns0, lits@); }
//@ghost loop 0 start
    let ghost ms = self.nodes@;
    let ghost acc = vx_acc0@;
//@ghost loop 0 end
    proof {
        assert(lits@[it.index@ as int] == l && lits@.contains(l));
        lem_leaf_step(ms, self.nodes@, acc, lits@, l, it.index@ as int);
        if self.nodes@ != ms { lem_built_trans(ns0, ms, self.nodes@, lits@, seq![l]); }
    }
//@ghost call merge 0 before
    let ghost ns1 = self.nodes@;
    let ghost cs = cons@;
    proof { assert forall|i: int| 0 <= i < cs.len() implies full_in(ns1, #[trigger] cs[i]) by { assert(leaf_con(ns1, cs[i], lits@[i])); } }
//@ghost end
    proof {
        let ns2 = self.nodes@;
        lem_built_trans(ns0, ns1, ns2, lits@, Seq::empty());
        let e = assign_none();
        lem_cnt(ns1, cs, lits@, cs.len() as int, e);
        assert(lits@.take(cs.len() as int) =~= lits@);
        assert forall|a: Asg| #[trigger] nval(ns2, vx_tail->Some_0.0 as int, a) == cnt(lits@, a) by { lem_cnt(ns1, cs, lits@, cs.len() as int, a); }
    }
//@end
}
pub proof fn lem_leaf_step(ns: Ns, ms: Ns, cs: Seq<NodeCon>, ls: Seq<Lit>, l: Lit, n: int)
    requires tree_in(ns), ms == ns || ms == ns.push(Node::Leaf(l)), 0 <= n <= ls.len(), n <= cs.len(), forall|i: int| 0 <= i < n ==> leaf_con(ns, #[trigger] cs[i], ls[i]),
    ensures tree_in(ms), forall|i: int| 0 <= i < n ==> leaf_con(ms, #[trigger] cs[i], ls[i]), built(ns, ms, seq![l]),
{
    lem_push_leaf(ns, l); lem_built_refl(ns, seq![l]);
    assert forall|i: int| 0 <= i < n implies leaf_con(ms, #[trigger] cs[i], ls[i]) by { assert(leaf_con(ns, cs[i], ls[i])); }
}
pub proof fn lem_cnt(ns: Ns, cs: Seq<NodeCon>, ls: Seq<Lit>, n: int, a: Asg)
    requires 0 <= n <= cs.len(), cs.len() == ls.len(), forall|i: int| 0 <= i < n ==> leaf_con(ns, #[trigger] cs[i], ls[i]),
    ensures sumv(ns, cs, 0, n, a) == cnt(ls.take(n), a), suml(ns, cs, 0, n) == n,
    decreases n,
{
    if n > 0 { lem_cnt(ns, cs, ls, n - 1, a); assert(leaf_con(ns, cs[n - 1], ls[n - 1])); assert(ls.take(n).drop_last() =~= ls.take(n - 1)); assert(ls.take(n).last() == ls[n - 1]); }
}
pub open spec fn leaf_con(ns: Ns, c: NodeCon, l: Lit) -> bool { full_in(ns, c) && ns[c.id.0 as int] == Node::Leaf(l) }
// ---- forgetting what has been encoded ----
pub open spec fn rst_node(m: Node, n: Node, s: Semantics) -> bool {
    same_node(m, n) && forall|k: int| #![trigger n.out(k)] #![trigger n.oif(k)] #![trigger n.ooi(k)] n.out(k) == m.out(k) && (n.oif(k) == (m.oif(k) && (m is Leaf || !s.sif()))) && (n.ooi(k) == (m.ooi(k) && (m is Leaf || !s.soi())))
}
pub open spec fn rst(ns: Ns, ms: Ns, s: Semantics) -> bool { ns.len() == ms.len() && forall|i: int| 0 <= i < ns.len() ==> rst_node(#[trigger] ns[i], ms[i], s) }
impl Db {
//@fn src/encodings/totdb/mod.rs Db::reset_encoded tuple_ref=mut
    requires tree_in(old(self).nodes@),
    ensures rst(old(self).nodes@, final(self).nodes@, reset_semantics), final(self).lookup_leaf == old(self).lookup_leaf,
//@sub in it: & ?mut self\.nodes ==> in it: self.nodes.iter_mut()
//@sub in jt: lits\b ==> in jt: lits.iter_mut()
//@loop 0 iter=it
    invariant tree_in(ns0), it.seq().len() == ns0.len(), forall|i: int| 0 <= i < ns0.len() ==> *(#[trigger] it.seq()[i]) == ns0[i], forall|i: int| 0 <= i < it.index@ ==> rst_node(ns0[i], *final(#[trigger] it.seq()[i]), reset_semantics),
//@loop 1 iter=jt
    invariant jt.seq().len() == l0.len(), forall|i: int| 0 <= i < l0.len() ==> *(#[trigger] jt.seq()[i]) == l0[i], forall|i: int| 0 <= i < jt.index@ ==> rst_lit(l0[i], *final(#[trigger] jt.seq()[i]), reset_semantics),
//@loop 2 iter=kt
//@ghost start
    let ghost ns0 = self.nodes@;
//@ghost loop 0 start
    proof { assert(unode(ns0, it.index@ as int)); assert(*it.seq()[it.index@ as int] == ns0[it.index@ as int]); }
//@ghost loop 1 before
    let ghost l0 = lits@;
//@end
}
pub open spec fn rst_lit(x: LitData, y: LitData, s: Semantics) -> bool { y.l() == x.l() && y.dif() == (x.dif() && !s.sif()) && y.doi() == (x.doi() && !s.soi()) }
