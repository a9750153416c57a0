// Unit: timers (net/poll/src/time.rs, net/src/time.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod dep {
use vstd::prelude::*;
pub trait AnyX<T> {
    spec fn sqv(&self) -> Seq<T>;
    /// `v.iter().any(f)` with a pure `f`
    fn iter_any<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.sqv().len() ==> #[trigger] f.requires((&self.sqv()[i],))
        ensures
            r ==> exists|i: int| 0 <= i < self.sqv().len() && #[trigger] f.ensures((&self.sqv()[i],), true),
            !r ==> forall|i: int| 0 <= i < self.sqv().len() ==> f.ensures((&#[trigger] self.sqv()[i],), false);
    /// `v.sort_unstable_by(f)`: some rearrangement, ordered by `f`
    fn sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires forall|a: T, b: T| #[trigger] f.requires((&a, &b))
        ensures
            final(self).sqv().to_multiset() == old(self).sqv().to_multiset(), final(self).sqv().len() == old(self).sqv().len(),
            forall|i: int, j: int| #![trigger final(self).sqv()[i], final(self).sqv()[j]] 0 <= i < j < final(self).sqv().len() ==>
                exists|o: core::cmp::Ordering| o != core::cmp::Ordering::Greater && #[trigger] f.ensures((&final(self).sqv()[i], &final(self).sqv()[j]), o);
}
impl<T> AnyX<T> for Vec<T> {
    open spec fn sqv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn iter_any<F: Fn(&T) -> bool>(&self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn sort_unstable_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
}
}
use dep::*;
//@@ include shim_time.rs
impl LocalTime {
    /// derive(Ord)
    pub fn cmp(&self, o: &LocalTime) -> (r: core::cmp::Ordering) ensures Some(r) == ord(self.ms(), o.ms())
    { if self.millis < o.millis { core::cmp::Ordering::Less } else if self.millis == o.millis { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
}
pub open spec fn dist(a: int, b: int) -> int { if a >= b { a - b } else { b - a } }

//@@ struct net/poll/src/time.rs | struct TimeoutManager
//@ attr: #[verifier::reject_recursive_types(K)]
//@@ end
pub type Ts<K> = Seq<(K, LocalTime)>;
pub open spec fn desc<K>(s: Ts<K>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].1.ms() >= s[j].1.ms() }
/// the keys of the last `n` entries, soonest first
pub open spec fn soonest<K>(s: Ts<K>, n: int) -> Seq<K> { Seq::new(n as nat, |i: int| s[s.len() - 1 - i].0) }
impl<K> TimeoutManager<K> {
    pub open spec fn wf(&self) -> bool { desc(self.timeouts@) }
//@@ fn net/poll/src/time.rs | impl TimeoutManager / fn new
//@ props: C14
//@ subst: vec![] =>> Vec::new()
//@ spec:
    ensures r.wf(), r.timeouts@.len() == 0, r.threshold == threshold
//@@ end
//@@ fn net/poll/src/time.rs | impl TimeoutManager / fn len
//@ props: C14
//@ spec:
    ensures r == self.timeouts@.len()
//@@ end
//@@ fn net/poll/src/time.rs | impl TimeoutManager / fn register
//@ props: C14
//@ spec:
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).threshold == old(self).threshold,
        // refused exactly when another timeout is closer than the threshold, and then nothing changes
        r == !(exists|i: int| 0 <= i < old(self).timeouts@.len() && dist((#[trigger] old(self).timeouts@[i]).1.ms(), time.ms()) < old(self).threshold.ms()),
        !r ==> final(self).timeouts@ == old(self).timeouts@,
        // otherwise it is added to the rest
        r ==> final(self).timeouts@.to_multiset() == old(self).timeouts@.to_multiset().insert((key, time)),
//@ subst: .iter().any( =>> .iter_any(
//@ closure 0: |e: &(K, LocalTime)| -> (b: bool) ensures b == (dist(e.1.ms(), time.ms()) < self.threshold.ms()) ;; let t = &e.1;
//@ closure 1: |x: &(K, LocalTime), y: &(K, LocalTime)| -> (o: core::cmp::Ordering) ensures Some(o) == ord(y.1.ms(), x.1.ms()) ;; let a = &x.1; let b = &y.1;
//@ before `true`:
    proof { old(self).timeouts@.to_multiset_ensures(); assert(old(self).timeouts@.push((key, time)).to_multiset() =~= old(self).timeouts@.to_multiset().insert((key, time))); }
//@@ end
//@@ fn net/poll/src/time.rs | impl TimeoutManager / fn next
//@ props: C14
//@ sig: pub fn next(&self, now: LocalTime) -> (r: Option<LocalDuration>)
//@ subst: now.into() =>> now
//@ spec:
    requires self.wf()
    ensures
        r.is_none() == (self.timeouts@.len() == 0),
        // exactly the time to the soonest one (none when it is already due)
        r.is_some() ==> forall|i: int| 0 <= i < self.timeouts@.len() ==> now.ms() + r.unwrap().ms() <= (#[trigger] self.timeouts@[i]).1.ms() || r.unwrap().ms() == 0,
        r.is_some() ==> exists|i: int| 0 <= i < self.timeouts@.len() && now.ms() + r.unwrap().ms() >= (#[trigger] self.timeouts@[i]).1.ms(),
//@ closure 0: |e: &(K, LocalTime)| -> (o: LocalDuration) ensures o.ms() == (if e.1.ms() >= now.ms() { e.1.ms() - now.ms() } else { 0 }) ;; let t = &e.1;
//@ entry:
    proof { if self.timeouts@.len() > 0 { assert(self.timeouts@.last() == self.timeouts@[self.timeouts@.len() - 1]); } }
//@@ end
//@@ fn net/poll/src/time.rs | impl TimeoutManager / fn wake
//@ props: C14
//@ spec:
    requires old(self).wf(), old(woken)@.len() + old(self).timeouts@.len() <= usize::MAX
    ensures
        final(self).wf(), final(self).threshold == old(self).threshold, 0 <= r <= old(self).timeouts@.len(),
        // the r soonest ones are taken out and reported, soonest first ...
        final(self).timeouts@ == old(self).timeouts@.take(old(self).timeouts@.len() - r),
        final(woken)@ == old(woken)@ + soonest(old(self).timeouts@, r as int),
        // ... and they are exactly those that are due
        forall|i: int| 0 <= i < old(self).timeouts@.len() ==> ((#[trigger] old(self).timeouts@[i]).1.ms() <= now.ms() <==> i >= old(self).timeouts@.len() - r),
//@ entry:
    let ghost S = self.timeouts@;
    let ghost W = woken@;
    let ghost mut n: int = 0;
    proof { assert(soonest(S, 0) =~= Seq::<K>::empty()); assert(W + soonest(S, 0) =~= W); assert(S.take(S.len() as int) =~= S); }
//@ loop 0:
    invariant_except_break
        self.timeouts@ == S.take(S.len() - n),
    invariant
        S == old(self).timeouts@, W == old(woken)@, desc(S), 0 <= n <= S.len(), before == W.len(), self.threshold == old(self).threshold,
        woken@ == W + soonest(S, n), 
        forall|i: int| S.len() - n <= i < S.len() ==> (#[trigger] S[i]).1.ms() <= now.ms(),
    ensures
        self.timeouts@ == S.take(S.len() - n),
        n < S.len() ==> S[S.len() - n - 1].1.ms() > now.ms(),
    decreases S.len() - n
//@ before `woken.push(k)`:
    proof { n = n + 1; assert(S.take(S.len() - n + 1).drop_last() =~= S.take(S.len() - n)); assert(soonest(S, n) =~= soonest(S, n - 1).push(S[S.len() - n].0)); assert(W + soonest(S, n) =~= (W + soonest(S, n - 1)).push(k)); }
//@ after `self.timeouts.push((k, t))`:
    ; proof { assert(self.timeouts@ =~= S.take(S.len() - n)); }
//@@ end
}
} // verus!
fn main() {}
