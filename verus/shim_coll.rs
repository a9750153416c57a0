// ---- assumed contracts on std / nonempty collections ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::collections::HashMap<K, V> }
/// the keys of a map, each once
pub open spec fn lists<K, V>(ks: Seq<K>, m: Map<K, V>) -> bool { ks.no_duplicates() && ks.to_set() == m.dom() }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r.is_some() == self@.contains_key(*k), r.is_some() ==> *r.unwrap() == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
    { unimplemented!() }
    /// `values_mut()`, materialised, with the (ghost) list of the keys
    #[verifier::external_body]
    pub fn values_mut(&mut self) -> (r: (Vec<&mut V>, Ghost<Seq<K>>))
        ensures final(self)@.dom() == old(self)@.dom(), lists(r.1@, old(self)@), r.1@.len() == r.0@.len(),
            forall|i: int| 0 <= i < r.0@.len() ==> *(#[trigger] r.0@[i]) == old(self)@[r.1@[i]] && final(self)@[r.1@[i]] == *final(r.0@[i])
    { unimplemented!() }
    /// `for (k, v) in &mut map`: the keys, then each entry
    #[verifier::external_body]
    pub fn keys_vec(&self) -> (r: Vec<K>)
        ensures r@.no_duplicates(), lists(r@, self@), forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(#[trigger] r@[i]), forall|k: K| self@.contains_key(k) ==> r@.contains(k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_of(&self, k: &K) -> (r: V) requires self@.contains_key(*k) ensures r == self@[*k] { unimplemented!() }
    /// keys in unspecified order, each exactly once (`keys()` materialised)
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&K>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*#[trigger] r@[i]),
            forall|k: K| self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == k,
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { x: std::collections::BTreeMap<K, V> }
impl<K, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r.is_some() == self@.contains_key(*k), r.is_some() ==> *r.unwrap() == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { x: std::collections::VecDeque<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, v: T) ensures final(self)@ == seq![v] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, v: T) ensures final(self)@ == old(self)@.push(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn into(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct TailVec<T> { x: Vec<T> }
impl<T> TailVec<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    /// `Vec::drain(a..)`, materialised
    #[verifier::external_body]
    pub fn drain(&mut self, a: std::ops::RangeFrom<usize>) -> (r: Drained<T>)
        requires a.start <= old(self)@.len()
        ensures final(self)@ == old(self)@.take(a.start as int), r@ == old(self)@.skip(a.start as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn suffix(&self, a: usize) -> (r: &[T])
        requires a <= self@.len()
        ensures r@ == self@.skip(a as int)
    { unimplemented!() }
}
/// `Vec::drain(..)`, materialised
/// `keys().filter(f).cloned().collect()`, materialised
pub trait KeysX<K> {
    spec fn sqk(&self) -> Seq<&K>;
    fn filter_cloned<F: Fn(&&K) -> bool>(self, f: F) -> (r: Vec<K>) where Self: Sized
        requires forall|i: int| 0 <= i < self.sqk().len() ==> #[trigger] f.requires((&self.sqk()[i],))
        ensures forall|j: int| #![trigger r@[j]] 0 <= j < r@.len() ==> exists|i: int| 0 <= i < self.sqk().len() && *self.sqk()[i] == r@[j] && #[trigger] f.ensures((&self.sqk()[i],), true);
}
impl<K> KeysX<K> for Vec<&K> {
    open spec fn sqk(&self) -> Seq<&K> { self@ }
    #[verifier::external_body]
    fn filter_cloned<F: Fn(&&K) -> bool>(self, f: F) -> (r: Vec<K>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Drained<T> { x: Vec<T> }
impl<T> Drained<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn zip(self, r: std::ops::RangeFrom<u64>) -> (z: Vec<(T, u64)>)
        requires r.start + self@.len() <= u64::MAX
        ensures z@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> #[trigger] z@[i] == (self@[i], (r.start + i) as u64)
    { unimplemented!() }
}
pub trait SliceX<T> {
    spec fn sq(&self) -> Seq<T>;
    /// `slice.iter().enumerate()`, materialised
    fn iter_enumerate(&self) -> (r: Vec<(usize, &T)>)
        ensures r@.len() == self.sq().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && *r@[i].1 == self.sq()[i];
    /// `slice.iter().cloned()` of a Copy type, materialised
    fn iter_cloned(&self) -> (r: Vec<T>) ensures r@ == self.sq();
}
impl<T> SliceX<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_enumerate(&self) -> (r: Vec<(usize, &T)>) { unimplemented!() }
    #[verifier::external_body]
    fn iter_cloned(&self) -> (r: Vec<T>) { unimplemented!() }
}
#[verifier::reject_recursive_types(T)]
pub struct NonEmpty<T> { pub head: T, pub tail: TailVec<T> }
impl<T> NonEmpty<T> {
    pub open spec fn view(&self) -> Seq<T> { seq![self.head] + self.tail@ }
    #[verifier::external_body]
    pub fn new(e: T) -> (r: Self) ensures r@ == seq![e] { unimplemented!() }
    #[verifier::external_body]
    pub fn last(&self) -> (r: &T) ensures *r == self@[self@.len() - 1] { unimplemented!() }
    #[verifier::external_body]
    pub fn first(&self) -> (r: &T) ensures *r == self@[0] { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, e: T) ensures final(self)@ == old(self)@.push(e) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&T>)
        ensures r.is_some() == (i < self@.len()), r.is_some() ==> *r.unwrap() == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Option<Self>)
        ensures r.is_some() == (v@.len() > 0), r.is_some() ==> r.unwrap()@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(v: (T, Vec<T>)) -> (r: Self) ensures r@ == seq![v.0] + v.1@ { unimplemented!() }
}
