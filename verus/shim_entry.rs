// ---- assumed: `entry`; an entry is the map and the key ----
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// `entry(k)`
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Vacant(v) => !old(self)@.contains_key(k) && v.key == k && (*v.map)@ == old(self)@ && final(self)@ == (*final(v.map))@,
            Entry::Occupied(o) => old(self)@.contains_key(k) && o.key == k && (*o.map)@ == old(self)@ && final(self)@ == (*final(o.map))@ }
    { unimplemented!() }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Slot<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
impl<'a, K, V> Slot<'a, K, V> {
    pub fn insert(self, v: V)
        ensures (*final(self.map))@ == old(self.map)@.insert(self.key, v)
    { self.map.insert(self.key, v); }
}
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Vacant(Slot<'a, K, V>), Occupied(Slot<'a, K, V>) }
