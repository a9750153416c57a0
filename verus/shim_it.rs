// ---- assumed contracts: std iterator adaptors over a finite sequence, materialised ----
/// the increasing list of the positions kept
pub open spec fn kept(idx: Seq<int>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < idx.len() ==> 0 <= #[trigger] idx[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < idx.len() ==> #[trigger] idx[i] < #[trigger] idx[j]
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { x: Vec<T> }
impl<T> It<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    /// the positions kept by the last selection
    pub uninterp spec fn idx(&self) -> Seq<int>;
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    /// for loops
    #[verifier::external_body]
    pub fn vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],))
        ensures kept(r.idx(), self@.len() as int), r.idx().len() == r@.len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[r.idx()[i]] && f.ensures((&self@[r.idx()[i]],), true),
            forall|j: int| 0 <= j < self@.len() && !r.idx().contains(j) ==> f.ensures((&#[trigger] self@[j],), false),
            forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i]),
            forall|j: int| 0 <= j < self@.len() ==> r@.contains(#[trigger] self@[j]) || f.ensures((&self@[j],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],))
        ensures kept(r.idx(), self@.len() as int), r.idx().len() == r@.len(),
            forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[r.idx()[i]],), Some(#[trigger] r@[i])),
            forall|j: int| 0 <= j < self@.len() && !r.idx().contains(j) ==> f.ensures((#[trigger] self@[j],), None),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],))
        ensures r@.len() == self@.len(), r.idx() == self.idx(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
            forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), r@[j]),
    { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn values(&self) -> (r: It<&V>)
        ensures exists|ks: Seq<K>| #[trigger] lists(ks, self@) && ks.len() == r@.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] r@[i]) == self@[ks[i]]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<(&K, &V)>)
        ensures exists|ks: Seq<K>| #[trigger] lists(ks, self@) && ks.len() == r@.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] r@[i]).0 == ks[i] && *r@[i].1 == self@[ks[i]]
    { unimplemented!() }
}
