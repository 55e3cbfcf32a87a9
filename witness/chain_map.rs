//! Consumers of chain-map's iterators: what they call is compared with the reference order.
pub fn visit<K: std::hash::Hash + Eq, V>(m: &chain_map::ChainMap<K, V>, mut f: impl FnMut(&K, &V)) {
  for (k, v) in m.iter() {
    f(k, v);
  }
}
pub fn visit_mut<K: std::hash::Hash + Eq + Clone, V: Clone>(m: &mut chain_map::ChainMap<K, V>, mut f: impl FnMut(&K, &mut V)) {
  for (k, v) in m.iter_mut() {
    f(k, v);
  }
}
pub fn visit_drain<K: std::hash::Hash + Eq + Clone, V: Clone>(m: &mut chain_map::ChainMap<K, V>, mut f: impl FnMut(K, V)) {
  for (k, v) in m.drain() {
    f(k, v);
  }
}
pub fn visit_into<K: std::hash::Hash + Eq + Clone, V: Clone>(m: chain_map::ChainMap<K, V>, mut f: impl FnMut(K, V)) {
  for (k, v) in m {
    f(k, v);
  }
}
pub fn set<K: std::hash::Hash + Eq + Clone, V: Clone>(m: &mut chain_map::ChainMap<K, V>, k: &K, v: V) {
  if let Some(x) = m.get_mut(k) {
    *x = v;
  }
}
pub fn clone<K: Clone, V: Clone>(m: &chain_map::ChainMap<K, V>) -> chain_map::ChainMap<K, V> {
  m.clone()
}
