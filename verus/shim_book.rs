#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct AddressBook<K, V> { x: Vec<(K, V)> }
impl<K, V> AddressBook<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    /// a random entry, if there is any
    #[verifier::external_body]
    pub fn sample(&self) -> (r: Option<(&K, &V)>)
        ensures r.is_some() == (self@ != Map::<K, V>::empty()), r.is_some() ==> self@.contains_key(*r.unwrap().0) && self@[*r.unwrap().0] == *r.unwrap().1 { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    /// `values_mut()`, materialised, with the (ghost) list of the keys
    #[verifier::external_body]
    pub fn values_mut(&mut self) -> (r: (Vec<&mut V>, Ghost<Seq<K>>))
        ensures final(self)@.dom() == old(self)@.dom(), lists(r.1@, old(self)@), r.1@.len() == r.0@.len(),
            forall|i: int| 0 <= i < r.0@.len() ==> *(#[trigger] r.0@[i]) == old(self)@[r.1@[i]] && final(self)@[r.1@[i]] == *final(r.0@[i])
    { unimplemented!() }
    /// `iter_mut()`, materialised
    #[verifier::external_body]
    pub fn iter_mut_vec(&mut self) -> (r: (Vec<(&K, &mut V)>, Ghost<Seq<K>>))
        ensures final(self)@.dom() == old(self)@.dom(), lists(r.1@, old(self)@), r.1@.len() == r.0@.len(),
            forall|i: int| 0 <= i < r.0@.len() ==> *(#[trigger] r.0@[i]).0 == r.1@[i] && *r.0@[i].1 == old(self)@[r.1@[i]] && final(self)@[r.1@[i]] == *final(r.0@[i].1)
    { unimplemented!() }
    /// a random entry for which `f` holds, if there is any
    #[verifier::external_body]
    pub fn sample_with<F: Fn(&K, &V) -> bool>(&self, f: F) -> (r: Option<(&K, &V)>)
        requires forall|k: K| #[trigger] self@.contains_key(k) ==> f.requires((&k, &self@[k]))
        ensures match r {
            Some((k, v)) => self@.contains_key(*k) && self@[*k] == *v && f.ensures((k, v), true),
            None => forall|k: K| #[trigger] self@.contains_key(k) ==> f.ensures((&k, &self@[k]), false) }
    { unimplemented!() }
}
