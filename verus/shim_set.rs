// ---- assumed contracts: sets ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: Vec<T> }
impl<T> HashSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &T) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// `extend(v)`
    #[verifier::external_body]
    pub fn extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@.union(v@.to_set()) { unimplemented!() }
    /// `v.into_iter().collect()`
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Self) ensures r@ == v@.to_set() { unimplemented!() }
}
pub type BTreeSet<T> = HashSet<T>;
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    /// keep the entries for which `f` (on the key) holds
    #[verifier::external_body]
    pub fn retain<F: Fn(&K) -> bool>(&mut self, f: F)
        requires forall|k: K| #[trigger] f.requires((&k,))
        ensures
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> old(self)@.contains_key(k) && final(self)@[k] == old(self)@[k] && f.ensures((&k,), true),
            forall|k: K| #[trigger] old(self)@.contains_key(k) && !final(self)@.contains_key(k) ==> f.ensures((&k,), false),
    { unimplemented!() }
}
