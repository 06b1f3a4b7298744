// ---- hash maps: vstd's model, plus trusted contracts for what it lacks ----
use vstd::std_specs::hash::*;
pub type RsHashMap<K, V> = std::collections::HashMap<K, V>;
/// trusted contract for HashMap::retain
pub trait VxMap<K, V> {
    spec fn vm(&self) -> Map<K, V>;
    fn vx_retain<F: Fn(&K, &V) -> bool>(&mut self, f: F)
        requires forall|k: &K, v: &V| #[trigger] f.requires((k, v)),
        ensures
            forall|k: K| #[trigger] final(self).vm().contains_key(k) ==> old(self).vm().contains_key(k) && final(self).vm()[k] == old(self).vm()[k]
                && f.ensures((&k, &final(self).vm()[k]), true),
            forall|k: K| #[trigger] old(self).vm().contains_key(k) && !final(self).vm().contains_key(k) ==> f.ensures((&k, &old(self).vm()[k]), false);
    fn vx_extend_map(&mut self, other: Self) where Self: Sized
        ensures final(self).vm() == old(self).vm().union_prefer_right(other.vm());
}
impl<K: std::hash::Hash + Eq, V> VxMap<K, V> for std::collections::HashMap<K, V> {
    open spec fn vm(&self) -> Map<K, V> { self@ }
    #[verifier::external_body]
    fn vx_retain<F: Fn(&K, &V) -> bool>(&mut self, f: F) { self.retain(|k, v| f(k, v)) }
    #[verifier::external_body]
    fn vx_extend_map(&mut self, other: Self) { self.extend(other) }
}
/// consuming iteration, in an arbitrary order
#[verifier::external_body]
pub fn vx_map_pairs<K: std::hash::Hash + Eq, V>(m: std::collections::HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures
        r@.no_duplicates(),
        forall|i: int| 0 <= i < r@.len() ==> m@.contains_key(#[trigger] r@[i].0) && m@[r@[i].0] == r@[i].1,
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i].0 == k,
{ m.into_iter().collect() }
#[verifier::external_body]
pub fn vx_append<T>(a: &mut Vec<T>, b: Vec<T>) ensures final(a)@ == old(a)@ + b@ { a.extend(b) }
#[verifier::external_body]
pub fn vx_map_new<K, V>() -> (r: std::collections::HashMap<K, V>) ensures r@ == Map::<K, V>::empty() { std::collections::HashMap::new() }
