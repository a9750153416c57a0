// ---- assumed contracts: ordered map keys ----
#[verifier::external_body]
pub struct Keys<'a> { x: Vec<&'a u64> }
impl<'a> Keys<'a> {
    pub uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body]
    pub fn cloned(self) -> (r: KeysC) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn copied(self) -> (r: KeysC) ensures r@ == self@ { unimplemented!() }
    /// the smallest key
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<&'a u64>)
        ensures r.is_none() ==> self@ == Set::<u64>::empty(), r.is_some() ==> self@.contains(*r.unwrap()) && forall|k: u64| #[trigger] self@.contains(k) ==> *r.unwrap() <= k
    { unimplemented!() }
    /// the largest key
    #[verifier::external_body]
    pub fn next_back(self) -> (r: Option<&'a u64>)
        ensures r.is_none() ==> self@ == Set::<u64>::empty(), r.is_some() ==> self@.contains(*r.unwrap()) && forall|k: u64| #[trigger] self@.contains(k) ==> k <= *r.unwrap()
    { unimplemented!() }
}
#[verifier::external_body]
pub struct KeysC { x: Vec<u64> }
impl KeysC {
    pub uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body]
    pub fn next(self) -> (r: Option<u64>)
        ensures r.is_none() ==> self@ == Set::<u64>::empty(), r.is_some() ==> self@.contains(r.unwrap()) && forall|k: u64| #[trigger] self@.contains(k) ==> r.unwrap() <= k
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next_back(self) -> (r: Option<u64>)
        ensures r.is_none() ==> self@ == Set::<u64>::empty(), r.is_some() ==> self@.contains(r.unwrap()) && forall|k: u64| #[trigger] self@.contains(k) ==> k <= r.unwrap()
    { unimplemented!() }
}
impl<V> BTreeMap<u64, V> {
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Keys<'_>) ensures r@ == self@.dom() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<u64, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: u64, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &u64) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
}
pub assume_specification<'a, T: Copy> [std::option::Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> });
