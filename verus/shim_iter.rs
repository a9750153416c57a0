// ---- assumed contracts on std iterator adapters (materialised; closures are pure) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct SeqIter<T> { x: Vec<T> }
impl<T> SeqIter<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn rev(self) -> (r: SeqIter<T>) ensures r@ == self@.reverse(), forall|i: int| 0 <= i < self@.len() ==> r@[self@.len() - 1 - i] == #[trigger] self@[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: SeqIter<T>)
        ensures r@ == self@.skip(if n <= self@.len() { n as int } else { self@.len() as int }),
            forall|j: int| n <= j < self@.len() ==> r@[j - n] == #[trigger] self@[j] { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: SeqIter<T>)
        ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: SeqIter<(usize, T)>)
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]),
            self@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: SeqIter<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((&self@[i],))
        ensures
            r.is_none() ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), false),
            r.is_some() ==> exists|n: int| 0 <= n < self@.len() && #[trigger] self@[n] == r.unwrap() && f.ensures((&self@[n],), true)
                && forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] self@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vec(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures r.is_none() == (old(self)@.len() == 0), r.is_some() ==> r.unwrap() == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            r.is_none() ==> final(self)@ == old(self)@
    { unimplemented!() }
}
impl<V> BTreeMap<u64, V> {
    /// ascending key order
    #[verifier::external_body]
    pub fn iter(&self) -> (r: SeqIter<(&u64, &V)>)
        ensures
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> *r@[i].0 < *r@[j].0,
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key(*(#[trigger] r@[i]).0) && *r@[i].1 == self@[*r@[i].0],
            forall|k: u64| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
    { unimplemented!() }
}
impl<T> NonEmpty<T> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: SeqIter<&T>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i]
    { unimplemented!() }
}
#[verifier::external_body]
pub fn slice_iter<T>(s: &[T]) -> (r: SeqIter<&T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == s@[i]
{ unimplemented!() }
#[verifier::external_body]
pub fn once_vec<T>(x: T) -> (r: Vec<T>) ensures r@ == seq![x] { unimplemented!() }

/// `slice.iter().find(f)`
#[verifier::external_body]
pub fn slice_find<'a, T, F: Fn(&&'a T) -> bool>(s: &'a [T], f: F) -> (r: Option<&'a T>)
    requires forall|x: &'a T| #[trigger] f.requires((&x,))
    ensures
        r.is_none() ==> forall|i: int| 0 <= i < s@.len() ==> f.ensures((&&#[trigger] s@[i],), false),
        r.is_some() ==> exists|n: int| 0 <= n < s@.len() && #[trigger] s@[n] == *r.unwrap() && f.ensures((&&s@[n],), true)
            && forall|i: int| 0 <= i < n ==> f.ensures((&&#[trigger] s@[i],), false),
{ unimplemented!() }
