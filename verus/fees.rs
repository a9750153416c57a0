// Unit: fee estimation (p2p/src/fsm/fees.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
#[derive(Copy, Clone)]
pub struct Txid { pub x: u64 }
#[derive(Copy, Clone)]
pub struct OutPoint { pub txid: Txid, pub vout: u32 }
pub struct TxOut { pub value: u64, pub script: u64 }
impl TxOut { #[verifier::external_body] pub fn clone(&self) -> (r: TxOut) ensures r == *self { unimplemented!() } }
pub struct TxIn { pub previous_output: OutPoint }
pub struct Transaction { pub input: Vec<TxIn>, pub output: Vec<TxOut> }
impl Transaction {
    pub uninterp spec fn id(&self) -> Txid;
    pub uninterp spec fn coinbase(&self) -> bool;
    pub uninterp spec fn wt(&self) -> nat;
    #[verifier::external_body]
    pub fn txid(&self) -> (r: Txid) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_coin_base(&self) -> (r: bool) ensures r == self.coinbase() { unimplemented!() }
    #[verifier::external_body]
    pub fn weight(&self) -> (r: usize) ensures r == self.wt() { unimplemented!() }
}
pub struct Block { pub txdata: Vec<Transaction> }
impl<K, V> HashMap<K, V> { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures r.is_none() == (old(self)@.len() == 0), final(self)@ == (if old(self)@.len() == 0 { old(self)@ } else { old(self)@.skip(1) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures r.is_none() == (old(self)@.len() == 0), r.is_some() ==> r.unwrap() == old(self)@.last() && final(self)@ == old(self)@.drop_last(), r.is_none() ==> final(self)@ == old(self)@ { unimplemented!() }
    /// `retain`: the entries for which the test says yes, in order
    #[verifier::external_body]
    pub fn retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] f.requires((&old(self)@[i],))
        ensures exists|keep: Seq<bool>| #[trigger] kept(old(self)@, keep) == final(self)@ && keep.len() == old(self)@.len() && forall|i: int| 0 <= i < keep.len() ==> f.ensures((&old(self)@[i],), #[trigger] keep[i])
    { unimplemented!() }
}
pub open spec fn kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else { let k = kept(s.drop_last(), keep.drop_last()); if keep.last() { k.push(s.last()) } else { k } }
}
pub proof fn lemma_kept<T>(s: Seq<T>, keep: Seq<bool>, n: int) requires 0 <= n <= s.len(), keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == (i < n)
    ensures kept(s, keep) =~= s.take(n) decreases s.len()
{
    if s.len() > 0 {
        let m = if n < s.len() { n } else { n - 1 };
        lemma_kept(s.drop_last(), keep.drop_last(), m);
        assert(keep.last() == keep[keep.len() - 1]);
        assert(s.drop_last().take(m) =~= s.take(m));
    }
}
/// IEEE doubles, exact on integers and half-integers below 2^53 (the only values the median needs)
#[derive(Copy, Clone)]
pub struct F { pub x: f64 }
impl F {
    /// twice the value
    pub uninterp spec fn dbl(&self) -> int;
    #[verifier::external_body]
    pub fn of(x: u64) -> (r: F) ensures x < 0x10_0000_0000_0000 ==> r.dbl() == 2 * x { unimplemented!() }
    #[verifier::external_body]
    pub fn plus(self, o: F) -> (r: F) ensures r.dbl() == self.dbl() + o.dbl() { unimplemented!() }
    #[verifier::external_body]
    pub fn half(self) -> (r: F) ensures self.dbl() % 2 == 0 ==> 2 * r.dbl() == self.dbl() { unimplemented!() }
    /// halves round away from zero
    #[verifier::external_body]
    pub fn round(self) -> (r: F) ensures self.dbl() >= 0 ==> r.dbl() == 2 * ((self.dbl() + 1) / 2) { unimplemented!() }
    #[verifier::external_body]
    pub fn int(self) -> (r: u64) ensures 0 <= self.dbl() < 0x20_0000_0000_0000 ==> r == self.dbl() / 2 { unimplemented!() }
}
/// fee / (weight / 4), rounded (floating point: decided by the harness)
pub uninterp spec fn vrate(fee: int, weight: nat) -> u64;
#[verifier::external_body]
pub fn fee_rate(fee: u64, weight: usize) -> (r: u64) ensures r == vrate(fee as int, weight as nat) { unimplemented!() }

pub open spec fn sorted(s: Seq<u64>) -> Seq<u64> { s.sort_by(|a: u64, b: u64| a <= b) }
pub trait SortX {
    spec fn sqv(&self) -> Seq<u64>;
    fn sort_unstable(&mut self) ensures final(self).sqv() == sorted(old(self).sqv());
}
impl SortX for Vec<u64> {
    open spec fn sqv(&self) -> Seq<u64> { self@ }
    #[verifier::external_body]
    fn sort_unstable(&mut self) { unimplemented!() }
}
impl<T> NonEmpty<T> {
    #[verifier::external_body]
    pub fn at(&self, i: usize) -> (r: &T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
}
}
use dep::*;
pub type FeeRate = u64;
pub type UtxoSet = HashMap<OutPoint, TxOut>;
pub type Utxos = Map<OutPoint, TxOut>;
//@@ const p2p/src/fsm/fees.rs | const MAX_UTXO_SNAPSHOTS
//@@ end
//@@ struct p2p/src/fsm/fees.rs | struct FeeEstimate
//@@ end
//@@ struct p2p/src/fsm/fees.rs | struct FeeEstimator
//@@ end
pub proof fn lemma_sorted(s: Seq<u64>)
    ensures sorted(s).len() == s.len(), sorted(s).to_multiset() == s.to_multiset(), vstd::relations::sorted_by(sorted(s), |a: u64, b: u64| a <= b),
        forall|x: u64| sorted(s).contains(x) <==> s.contains(x),
{
    let leq = |a: u64, b: u64| a <= b;
    s.lemma_sort_by_ensures(leq);
    s.to_multiset_ensures(); sorted(s).to_multiset_ensures();
    assert(sorted(s).len() == s.len()) by { assert(sorted(s).to_multiset().len() == s.to_multiset().len()); }
    assert forall|x: u64| sorted(s).contains(x) <==> s.contains(x) by {
        assert(sorted(s).to_multiset().count(x) == s.to_multiset().count(x));
    }
}
/// the middle fee rate, or the average of the two in the middle (halves up)
pub open spec fn spec_median(s: Seq<u64>) -> int {
    let n = s.len() as int;
    if n % 2 == 1 { sorted(s)[n / 2] as int } else { (sorted(s)[n / 2 - 1] + sorted(s)[n / 2] + 1) / 2 }
}
impl FeeEstimate {
//@@ fn p2p/src/fsm/fees.rs | impl FeeEstimate / fn from
//@ props: C12
//@ sig: fn from(fees0: Vec<FeeRate>) -> (r: Option<Self>)
//@ subst: NonEmpty::from_vec(fees).map(|fees| { =>> match NonEmpty::from_vec(fees) { None => None, Some(fees) => Some({
//@ subst: high: *fees.last(), } }) =>> high: *fees.last(), } }) }
//@ subst: ((left + right) / 2.).round() as FeeRate =>> left.plus(right).half().round().int()
//@ subst: fees[count / 2 - 1] as f64 =>> F::of(*fees.at(count / 2 - 1))
//@ subst: fees[count / 2] as f64 =>> F::of(*fees.at(count / 2))
//@ subst: fees[count / 2] =>> *fees.at(count / 2)
//@ spec:
    requires forall|i: int| 0 <= i < fees0@.len() ==> #[trigger] fees0@[i] < 0x8_0000_0000_0000,
    ensures
        r.is_none() == (fees0@.len() == 0),
        r.is_some() ==> r.unwrap().median == spec_median(fees0@)
            && fees0@.contains(r.unwrap().low) && fees0@.contains(r.unwrap().high)
            && (forall|i: int| 0 <= i < fees0@.len() ==> r.unwrap().low <= #[trigger] fees0@[i] <= r.unwrap().high)
            && r.unwrap().low <= r.unwrap().median <= r.unwrap().high,
//@ entry:
    let mut fees = fees0;
    proof {
        let s = fees0@; let t = sorted(s);
        lemma_sorted(s);
        assert forall|i: int| 0 <= i < s.len() implies t.contains(#[trigger] s[i]) by { assert(s.contains(s[i])); }
        assert forall|i: int| 0 <= i < t.len() implies s.contains(#[trigger] t[i]) by { assert(t.contains(t[i])); }
        assert forall|i: int, j: int| 0 <= i <= j < t.len() implies #[trigger] t[i] <= #[trigger] t[j] by { if i < j { assert((|a: u64, b: u64| a <= b)(t[i], t[j])); } }
    }
//@@ end
}
// ---- outputs ----
pub open spec fn with_outputs(u: Utxos, tx: Transaction, n: int) -> Utxos decreases n {
    if n <= 0 { u } else { with_outputs(u, tx, n - 1).insert(OutPoint { txid: tx.id(), vout: (n - 1) as u32 }, tx.output@[n - 1]) }
}
pub open spec fn sent(tx: Transaction, n: int) -> int decreases n { if n <= 0 { 0 } else { sent(tx, n - 1) + tx.output@[n - 1].value } }
/// the first n inputs spent one after the other, up to the first that is not known
pub open spec fn spend(u: Utxos, tx: Transaction, n: int) -> (Utxos, int, bool) decreases n {
    if n <= 0 { (u, 0, true) } else {
        let (v, got, ok) = spend(u, tx, n - 1);
        let p = tx.input@[n - 1].previous_output;
        if !ok || !v.contains_key(p) { (v, got, false) } else { (v.remove(p), got + v[p].value, true) }
    }
}
pub open spec fn spec_apply(u: Utxos, tx: Transaction) -> (Utxos, Option<u64>) {
    let v = with_outputs(u, tx, tx.output@.len() as int);
    if tx.coinbase() { (v, None) } else {
        let (w, got, ok) = spend(v, tx, tx.input@.len() as int);
        (w, if ok { Some(vrate(got - sent(tx, tx.output@.len() as int), tx.wt())) } else { None })
    }
}
/// what consensus guarantees of a transaction in a valid block: values fit, and it spends no more than it gets
pub open spec fn tx_valid(u: Utxos, tx: Transaction) -> bool {
    let v = with_outputs(u, tx, tx.output@.len() as int);
    &&& tx.output@.len() <= u32::MAX
    &&& forall|n: int| 0 <= n <= tx.output@.len() ==> #[trigger] sent(tx, n) <= u64::MAX
    &&& !tx.coinbase() ==> forall|n: int| 0 <= n <= tx.input@.len() ==> (#[trigger] spend(v, tx, n)).1 <= u64::MAX
    &&& !tx.coinbase() && spend(v, tx, tx.input@.len() as int).2 ==> spend(v, tx, tx.input@.len() as int).1 >= sent(tx, tx.output@.len() as int)
    &&& forall|fee: int| #[trigger] vrate(fee, tx.wt()) < 0x8_0000_0000_0000
}
pub open spec fn spec_block(u: Utxos, txs: Seq<Transaction>, n: int) -> (Utxos, Seq<u64>) decreases n {
    if n <= 0 { (u, Seq::empty()) } else {
        let (v, f) = spec_block(u, txs, n - 1);
        let (w, r) = spec_apply(v, txs[n - 1]);
        (w, match r { Some(x) => f.push(x), None => f })
    }
}
pub open spec fn block_valid(u: Utxos, txs: Seq<Transaction>) -> bool { forall|n: int| 0 <= n < txs.len() ==> tx_valid(spec_block(u, txs, n).0, #[trigger] txs[n]) }
proof fn lemma_ok_prefix(u: Utxos, tx: Transaction, n: int, m: int) requires 0 <= n <= m, !spend(u, tx, n).2 ensures spend(u, tx, m) == spend(u, tx, n) decreases m - n
{ if n < m { lemma_ok_prefix(u, tx, n, m - 1); } }
pub type Hist = Seq<(Height, Utxos)>;
pub open spec fn asc(h: Hist) -> bool { forall|i: int, j: int| #![trigger h[i], h[j]] 0 <= i < j < h.len() ==> h[i].0 < h[j].0 }
/// how many entries of the history are at or below a height
pub open spec fn below(h: Hist, x: Height) -> int decreases h.len() { if h.len() == 0 { 0 } else if h.last().0 <= x { h.len() as int } else { below(h.drop_last(), x) } }
proof fn lemma_below(h: Hist, x: Height) requires asc(h) ensures 0 <= below(h, x) <= h.len(), forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i].0 <= x <==> i < below(h, x)) decreases h.len()
{ if h.len() > 0 && h.last().0 > x { let g = h.drop_last(); assert(asc(g)); lemma_below(g, x); assert forall|i: int| 0 <= i < h.len() implies (#[trigger] h[i].0 <= x <==> i < below(h, x)) by { if i < g.len() { assert(g[i] == h[i]); } } } }

impl FeeEstimator {
    /// every state it can go back to, and the current one last
    pub open spec fn hist(&self) -> Hist { self.snapshots@.map_values(|e: (Height, UtxoSet)| (e.0, e.1@)).push((self.height, self.utxos@)) }
    pub open spec fn wf(&self) -> bool { asc(self.hist()) && self.snapshots@.len() <= 12 }
//@@ fn p2p/src/fsm/fees.rs | impl FeeEstimator / fn apply
//@ props: C12
//@ subst: tx.output.iter().enumerate() =>> tx.output.iter_enumerate()
//@ subst: let weight = tx.weight(); let rate = fee as f64 / (weight as f64 / WITNESS_SCALE_FACTOR as f64); Some(rate.round() as FeeRate) =>> let weight = tx.weight(); Some(fee_rate(fee, weight))
//@ subst: let mut received = 0; =>> let mut received: u64 = 0;
//@ subst: let mut sent = 0; =>> let mut sent: u64 = 0;
//@ spec:
    requires tx_valid(old(self).utxos@, *tx)
    ensures final(self).utxos@ == spec_apply(old(self).utxos@, *tx).0, r == spec_apply(old(self).utxos@, *tx).1,
        final(self).height == old(self).height, final(self).snapshots == old(self).snapshots,
//@ entry:
    let ghost U = self.utxos@;
    let ghost n = tx.output@.len() as int;
    let ghost m = tx.input@.len() as int;
    let ghost V = with_outputs(U, *tx, n);
//@ loop 0 it=it:
    invariant
        U == old(self).utxos@, n == tx.output@.len(), tx_valid(U, *tx), txid == tx.id(), received == 0,
        it.seq().len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == tx.output@[i],
        self.utxos@ == with_outputs(U, *tx, it.index@), sent == self::sent(*tx, it.index@),
        self.height == old(self).height, self.snapshots == old(self).snapshots,
//@ loop_start 0:
    proof { assert(self::sent(*tx, it.index@ + 1) <= u64::MAX); }
//@ loop 1 it=it:
    invariant
        U == old(self).utxos@, V == with_outputs(U, *tx, n), m == tx.input@.len(), n == tx.output@.len(), tx_valid(U, *tx), !tx.coinbase(),
        it.seq().len() == m, forall|i: int| 0 <= i < m ==> *(#[trigger] it.seq()[i]) == tx.input@[i],
        spend(V, *tx, it.index@) == (self.utxos@, received as int, true), sent == self::sent(*tx, n),
        self.height == old(self).height, self.snapshots == old(self).snapshots,
//@ loop_start 1:
    proof { let i = it.index@; assert(spend(V, *tx, i + 1).1 <= u64::MAX); if !spend(V, *tx, i + 1).2 { lemma_ok_prefix(V, *tx, i + 1, m); } }
//@@ end
//@@ fn p2p/src/fsm/fees.rs | impl FeeEstimator / fn process
//@ props: C12
//@ spec:
    requires old(self).wf(), block_valid(old(self).utxos@, block.txdata@)
    ensures
        final(self).wf(),
        // blocks at or below the current height are ignored
        height <= old(self).height ==> r.is_none() && final(self).hist() == old(self).hist(),
        // others are applied transaction by transaction, the estimate is over exactly the fee rates found,
        // and the state before the block can be restored (the oldest of more than twelve is forgotten)
        height > old(self).height ==> ({
            let (u, f) = spec_block(old(self).utxos@, block.txdata@, block.txdata@.len() as int);
            let h = old(self).hist().push((height, u));
            &&& final(self).hist() == (if h.len() > 13 { h.skip(1) } else { h })
            &&& r.is_none() == (f.len() == 0)
            &&& r.is_some() ==> r.unwrap().median == spec_median(f) && f.contains(r.unwrap().low) && f.contains(r.unwrap().high)
                && forall|i: int| 0 <= i < f.len() ==> r.unwrap().low <= #[trigger] f[i] <= r.unwrap().high
        }),
//@ subst: for tx in &block.txdata { =>> for tx in block.txdata.iter() {
//@ entry:
    let ghost U = self.utxos@;
    let ghost H = self.hist();
    let ghost txs = block.txdata@;
//@ loop 0 it=it:
    invariant
        U == old(self).utxos@, H == old(self).hist(), txs == block.txdata@, block_valid(U, txs), height > old(self).height, old(self).wf(), snapshot@ == U,
        it.seq().len() == txs.len(), forall|i: int| 0 <= i < txs.len() ==> *(#[trigger] it.seq()[i]) == txs[i],
        (self.utxos@, fees@) == spec_block(U, txs, it.index@), forall|i: int| 0 <= i < fees@.len() ==> #[trigger] fees@[i] < 0x8_0000_0000_0000,
        self.height == old(self).height, self.snapshots == old(self).snapshots,
//@ loop_start 0:
    proof { assert(tx_valid(spec_block(U, txs, it.index@).0, txs[it.index@])); }
//@ loop_after 0:
    proof { assert(old(self).hist().len() == old(self).snapshots@.len() + 1); assert(old(self).hist().last() == (old(self).height, U)); }
    let ghost UN = self.utxos@;
//@ after `self.height = height;`:
    proof {
        let h = H.push((height, UN));
        assert(asc(h));
        if h.len() > 13 { assert(self.hist() =~= h.skip(1)); assert(asc(h.skip(1))); assert(self.snapshots@.len() == 12); } else { assert(self.hist() =~= h); assert(self.snapshots@.len() <= 12); }
        assert(asc(self.hist())); assert(self.wf());
    }
//@@ end
//@@ fn p2p/src/fsm/fees.rs | impl FeeEstimator / fn rollback
//@ props: C12
//@ spec:
    requires old(self).wf()
    ensures
        final(self).wf(),
        // back to the newest remembered state at or below the height (a state that is not remembered cannot be restored)
        below(old(self).hist(), height) > 0 ==> final(self).hist() == old(self).hist().take(below(old(self).hist(), height)),
//@ closure 0: |e: &(Height, UtxoSet)| -> (b: bool) ensures b == (e.0 <= height) ;; let h = &e.0;
//@ entry:
    let ghost H = self.hist();
    proof { lemma_below(H, height); assert(H.last() == (self.height, self.utxos@)); assert(H[H.len() - 1] == H.last());
        let s = self.snapshots@; let b = below(H, height);
        assert(H.take(H.len() as int) =~= H);
        if b < H.len() { 
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 <= height <==> i < b by { assert(H[i].0 == s[i].0); }
            assert forall|k: Seq<bool>| #![trigger kept(s, k)] k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == (s[i].0 <= height)) implies kept(s, k) == s.take(b) by { lemma_kept(s, k, b); }
            assert(s.take(b).len() == b); if b > 0 { assert(s.take(b).last() == s[b - 1]); assert(s.take(b).drop_last() =~= s.take(b - 1)); } } 
    }
//@ exit:
    proof { let b = below(H, height); if b > 0 { assert(self.hist() =~= H.take(b)); }
        assert forall|i: int, j: int| #![trigger self.hist()[i], self.hist()[j]] 0 <= i < j < self.hist().len() implies self.hist()[i].0 < self.hist()[j].0 by { if b > 0 { } } }
//@@ end
}
} // verus!
fn main() {}
