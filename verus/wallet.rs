// Unit: the wallet's coins (wallet/src/wallet.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
}
use dep::*;
pub type Height = u64;
// ---- assumed: bitcoin's transactions ----
#[derive(Copy, Clone)]
pub struct Txid { pub x: u64 }
#[derive(Copy, Clone)]
pub struct OutPoint { pub txid: Txid, pub vout: u32 }
pub struct Script { pub x: u64 }
pub struct TxOut { pub value: u64, pub script_pubkey: Script }
pub struct TxIn { pub previous_output: OutPoint }
pub struct Transaction { pub input: Vec<TxIn>, pub output: Vec<TxOut> }
impl Transaction {
    pub uninterp spec fn id(&self) -> Txid;
    #[verifier::external_body]
    pub fn txid(&self) -> (r: Txid) ensures r == self.id() { unimplemented!() }
}
/// fewer outputs than 2^32: a transaction fits in a block
pub open spec fn sane(tx: Transaction) -> bool { tx.output@.len() < 0x1_0000_0000 }
#[derive(Copy, Clone)]
pub struct Network { pub x: u8 }
impl Network { pub fn into(self) -> (r: Network) ensures r == self { self } }
pub struct Address { pub script: Script }
#[derive(Debug)]
pub struct AddressError { pub x: u8 }
/// the script has an address
pub uninterp spec fn addressable(s: Script) -> bool;
impl Address {
    #[verifier::external_body]
    pub fn from_script(s: &Script, n: Network) -> (r: Result<Address, AddressError>) ensures r.is_ok() == addressable(*s), r is Ok ==> r->Ok_0.script == *s { unimplemented!() }
}
#[verifier::external_body]
pub fn script_among(s: &[Script], x: &Script) -> (r: bool) ensures r == s@.contains(*x) { unimplemented!() }
/// `iter()`, materialised
#[verifier::external_body]
pub fn refs(v: &Vec<TxIn>) -> (r: Vec<&TxIn>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
pub struct Error { pub x: u8 }
pub struct Block { pub txdata: Vec<Transaction> }
/// the events the wallet looks at
pub enum Event { Ready { tip: Height, x: u8 }, PeerHeightUpdated { height: Height }, FilterProcessed { height: Height, x: u8 }, BlockHeadersImported { height: Height, x: u8 }, BlockMatched { block: Block, height: Height }, Scanned { height: Height, x: u8 }, Other(u8) }
pub mod io { pub trait Write {} }
pub enum ControlFlow { Continue(()), Break(()) }
/// `&v`, materialised
#[verifier::external_body]
pub fn txs(b: &Block) -> (r: Vec<&Transaction>) ensures r@.len() == b.txdata@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == b.txdata@[i] { unimplemented!() }
/// `map_err(Error::from)`
pub fn err(r: Result<u64, DbError>) -> (o: Result<u64, Error>) ensures o is Ok == r is Ok, r is Ok ==> o->Ok_0 == r->Ok_0 { match r { Ok(x) => Ok(x), Err(_) => Err(Error { x: 0 }) } }
// ---- assumed: the database keeps a map of coins; writes that fail change nothing ----
pub struct Coin { pub script: Script, pub value: u64 }
pub type Coins = Map<OutPoint, Coin>;
#[derive(Debug)]
pub struct DbError { pub x: u8 }
#[verifier::external_body]
pub struct Db { x: u8 }
impl Db {
    pub uninterp spec fn coins(&self) -> Coins;
    /// the disk works
    pub uninterp spec fn fine(&self) -> bool;
    #[verifier::external_body]
    pub fn add_utxo(&mut self, txid: Txid, vout: u32, address: Address, value: u64) -> (r: Result<bool, DbError>)
        ensures final(self).fine() == old(self).fine(), old(self).fine() ==> r is Ok,
            final(self).coins() == (if r is Ok && !old(self).coins().contains_key(OutPoint { txid, vout }) { old(self).coins().insert(OutPoint { txid, vout }, Coin { script: address.script, value }) } else { old(self).coins() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_utxo(&mut self, o: &OutPoint) -> (r: Result<Option<(OutPoint, TxOut)>, DbError>)
        ensures final(self).fine() == old(self).fine(), old(self).fine() ==> r is Ok,
            final(self).coins() == (if r is Ok { old(self).coins().remove(*o) } else { old(self).coins() }),
            r is Ok ==> r->Ok_0 is Some == old(self).coins().contains_key(*o),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn balance(&self) -> (r: Result<u64, DbError>) ensures r is Ok ==> r->Ok_0 == total(self.coins()) { unimplemented!() }
}
/// the sum of the values
pub uninterp spec fn total(c: Coins) -> u64;
#[verifier::external_body]
pub struct Ui { x: u8 }
impl Ui {
    /// the balance shown
    pub uninterp spec fn shown(&self) -> u64;
    #[verifier::external_body]
    pub fn set_balance(&mut self, b: u64) ensures final(self).shown() == b { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_ready(&mut self, h: Height, offline: bool) ensures final(self).shown() == old(self).shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_peer_height(&mut self, h: Height) ensures final(self).shown() == old(self).shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_filter_processed(&mut self, h: Height) ensures final(self).shown() == old(self).shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn handle_synced(&mut self, h: Height, tip: Height) ensures final(self).shown() == old(self).shown() { unimplemented!() }
    #[verifier::external_body]
    pub fn redraw<W>(&mut self, db: &Db, term: &mut W) -> (r: Result<(), Error>) ensures final(self).shown() == old(self).shown() { unimplemented!() }
}
pub struct Hw { pub x: u8 }
pub mod client { pub use super::Network; pub use super::Event; }
pub struct Tips { pub header: Height, pub cfilter: Height }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: Vec<T> }
//@@ struct wallet/src/wallet.rs | struct Wallet
//@@ end
// ---- what a transaction does to the coins ----
pub open spec fn out(tx: Transaction, i: int) -> OutPoint { OutPoint { txid: tx.id(), vout: i as u32 } }
/// the first n outputs that pay us are coins
pub open spec fn paid(c: Coins, tx: Transaction, s: Seq<Script>, n: int) -> Coins decreases n {
    if n <= 0 { c } else {
        let d = paid(c, tx, s, n - 1);
        let o = tx.output@[n - 1];
        if s.contains(o.script_pubkey) && !d.contains_key(out(tx, n - 1)) { d.insert(out(tx, n - 1), Coin { script: o.script_pubkey, value: o.value }) } else { d }
    }
}
/// the first n inputs are no coins any more
pub open spec fn spent(c: Coins, tx: Transaction, n: int) -> Coins decreases n {
    if n <= 0 { c } else { spent(c, tx, n - 1).remove(tx.input@[n - 1].previous_output) }
}
pub open spec fn applied(c: Coins, tx: Transaction, s: Seq<Script>) -> Coins { spent(paid(c, tx, s, tx.output@.len() as int), tx, tx.input@.len() as int) }
pub open spec fn applied_all(c: Coins, txs: Seq<Transaction>, s: Seq<Script>) -> Coins decreases txs.len() {
    if txs.len() == 0 { c } else { applied(applied_all(c, txs.drop_last(), s), txs.last(), s) }
}
// ---- which coins that are: those paid to us and not spent ----
pub open spec fn spends(tx: Transaction, o: OutPoint) -> bool { exists|i: int| 0 <= i < tx.input@.len() && #[trigger] tx.input@[i].previous_output == o }
/// o is output i of the transaction, and pays us
pub open spec fn pays(tx: Transaction, s: Seq<Script>, o: OutPoint) -> bool { o.txid == tx.id() && (o.vout as int) < tx.output@.len() && s.contains(tx.output@[o.vout as int].script_pubkey) }
proof fn paid_is(c: Coins, tx: Transaction, s: Seq<Script>, n: int)
    requires sane(tx), 0 <= n <= tx.output@.len()
    ensures forall|o: OutPoint| #[trigger] paid(c, tx, s, n).contains_key(o) <==> c.contains_key(o) || (pays(tx, s, o) && o.vout < n),
        forall|o: OutPoint| c.contains_key(o) ==> #[trigger] paid(c, tx, s, n)[o] == c[o],
        forall|o: OutPoint| #![trigger paid(c, tx, s, n)[o]] !c.contains_key(o) && pays(tx, s, o) && o.vout < n ==> paid(c, tx, s, n)[o] == (Coin { script: tx.output@[o.vout as int].script_pubkey, value: tx.output@[o.vout as int].value })
    decreases n
{ if n > 0 {
    paid_is(c, tx, s, n - 1);
    let d = paid(c, tx, s, n - 1);
    assert forall|o: OutPoint| #[trigger] paid(c, tx, s, n).contains_key(o) <==> c.contains_key(o) || (pays(tx, s, o) && o.vout < n) by { assert(d.contains_key(o) <==> c.contains_key(o) || (pays(tx, s, o) && o.vout < n - 1)); assert(d.contains_key(out(tx, n - 1)) <==> c.contains_key(out(tx, n - 1)) || (pays(tx, s, out(tx, n - 1)) && out(tx, n - 1).vout < n - 1)); if o.txid == tx.id() && o.vout == n - 1 { assert(o == out(tx, n - 1)); } }
    assert forall|o: OutPoint| c.contains_key(o) implies #[trigger] paid(c, tx, s, n)[o] == c[o] by { assert(d[o] == c[o]); assert(d.contains_key(o)); }
    assert forall|o: OutPoint| #![trigger paid(c, tx, s, n)[o]] !c.contains_key(o) && pays(tx, s, o) && o.vout < n implies paid(c, tx, s, n)[o] == (Coin { script: tx.output@[o.vout as int].script_pubkey, value: tx.output@[o.vout as int].value }) by {
        assert(d.contains_key(o) <==> c.contains_key(o) || (pays(tx, s, o) && o.vout < n - 1));
        if o.vout == n - 1 { assert(o == out(tx, n - 1)); } else { assert(o != out(tx, n - 1)); let x = d[o]; } }
} }
proof fn spent_is(c: Coins, tx: Transaction, n: int)
    requires 0 <= n <= tx.input@.len()
    ensures forall|o: OutPoint| #[trigger] spent(c, tx, n).contains_key(o) <==> c.contains_key(o) && !exists|i: int| 0 <= i < n && #[trigger] tx.input@[i].previous_output == o,
        forall|o: OutPoint| spent(c, tx, n).contains_key(o) ==> #[trigger] spent(c, tx, n)[o] == c[o]
    decreases n
{ if n > 0 {
    spent_is(c, tx, n - 1);
    let d = spent(c, tx, n - 1);
    assert forall|o: OutPoint| #[trigger] spent(c, tx, n).contains_key(o) <==> c.contains_key(o) && !exists|i: int| 0 <= i < n && #[trigger] tx.input@[i].previous_output == o by {
        assert(d.contains_key(o) <==> c.contains_key(o) && !exists|i: int| 0 <= i < n - 1 && #[trigger] tx.input@[i].previous_output == o);
        if tx.input@[n - 1].previous_output == o {} }
    assert forall|o: OutPoint| spent(c, tx, n).contains_key(o) implies #[trigger] spent(c, tx, n)[o] == c[o] by { assert(d.contains_key(o)); let x = d[o]; assert(x == c[o]); }
} }
/// the transactions are in the order of a chain: ids differ, and none spends an output of itself or of a later one
pub open spec fn ordered(txs: Seq<Transaction>) -> bool {
    &&& forall|i: int| 0 <= i < txs.len() ==> sane(#[trigger] txs[i])
    &&& forall|i: int, j: int| 0 <= i < j < txs.len() ==> (#[trigger] txs[i]).id() != (#[trigger] txs[j]).id()
    &&& forall|i: int, j: int, o: OutPoint| 0 <= i <= j < txs.len() && o.txid == (#[trigger] txs[j]).id() ==> !#[trigger] spends(txs[i], o)
}
/// o was paid to us by one of the transactions, and none spends it
pub open spec fn ours(txs: Seq<Transaction>, s: Seq<Script>, o: OutPoint) -> bool {
    (exists|i: int| 0 <= i < txs.len() && #[trigger] pays(txs[i], s, o)) && !exists|j: int| 0 <= j < txs.len() && #[trigger] spends(txs[j], o)
}
/// after a scan of a chain the wallet has exactly the coins paid to it and not spent, also if (as after a restart)
/// it starts with coins of an earlier scan of (part of) it
pub proof fn coins_are_ours(c: Coins, txs: Seq<Transaction>, s: Seq<Script>)
    requires ordered(txs), forall|o: OutPoint| #[trigger] c.contains_key(o) ==> exists|i: int| 0 <= i < txs.len() && #[trigger] pays(txs[i], s, o)
    ensures forall|o: OutPoint| #[trigger] applied_all(c, txs, s).contains_key(o) <==> ours(txs, s, o)
{
    scan(c, txs, s);
    assert forall|o: OutPoint| #[trigger] applied_all(c, txs, s).contains_key(o) implies ours(txs, s, o) by {}
}
proof fn scan(c: Coins, txs: Seq<Transaction>, s: Seq<Script>)
    requires ordered(txs)
    ensures forall|o: OutPoint| #[trigger] applied_all(c, txs, s).contains_key(o) <==>
        (c.contains_key(o) || exists|i: int| 0 <= i < txs.len() && #[trigger] pays(txs[i], s, o)) && !exists|j: int| 0 <= j < txs.len() && #[trigger] spends(txs[j], o)
    decreases txs.len()
{
    if txs.len() > 0 {
        let p = txs.drop_last();
        let t = txs.last();
        let n = txs.len() - 1;
        assert forall|i: int, j: int, o: OutPoint| 0 <= i <= j < p.len() && o.txid == (#[trigger] p[j]).id() implies !#[trigger] spends(p[i], o) by { assert(p[i] == txs[i] && p[j] == txs[j]); }
        assert(ordered(p)) by { assert forall|i: int| 0 <= i < p.len() implies sane(#[trigger] p[i]) by { assert(p[i] == txs[i]); } assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).id() != (#[trigger] p[j]).id() by { assert(p[i] == txs[i] && p[j] == txs[j]); } }
        scan(c, p, s);
        let d = applied_all(c, p, s);
        assert(sane(txs[n]));
        paid_is(d, t, s, t.output@.len() as int);
        spent_is(paid(d, t, s, t.output@.len() as int), t, t.input@.len() as int);
        assert forall|o: OutPoint| #[trigger] applied_all(c, txs, s).contains_key(o) <==>
            ((c.contains_key(o) || exists|i: int| 0 <= i < txs.len() && #[trigger] pays(txs[i], s, o)) && !exists|j: int| 0 <= j < txs.len() && #[trigger] spends(txs[j], o)) by {
            assert(applied_all(c, txs, s).contains_key(o) == ((d.contains_key(o) || pays(t, s, o)) && !spends(t, o)));
            if exists|i: int| 0 <= i < txs.len() && #[trigger] pays(txs[i], s, o) { let i = choose|i: int| 0 <= i < txs.len() && #[trigger] pays(txs[i], s, o); if i < n { assert(pays(p[i], s, o)); } }
            if exists|i: int| 0 <= i < p.len() && #[trigger] pays(p[i], s, o) { let i = choose|i: int| 0 <= i < p.len() && #[trigger] pays(p[i], s, o); assert(pays(txs[i], s, o)); }
            if exists|j: int| 0 <= j < txs.len() && #[trigger] spends(txs[j], o) { let j = choose|j: int| 0 <= j < txs.len() && #[trigger] spends(txs[j], o); if j < n { assert(spends(p[j], o)); } }
            if exists|j: int| 0 <= j < p.len() && #[trigger] spends(p[j], o) { let j = choose|j: int| 0 <= j < p.len() && #[trigger] spends(p[j], o); assert(spends(txs[j], o)); }
            if pays(t, s, o) {
                assert(pays(txs[n], s, o));
                assert forall|j: int| 0 <= j < txs.len() implies !#[trigger] spends(txs[j], o) by { assert(txs[n].id() == o.txid); }
            }
            if spends(t, o) { assert(spends(txs[n], o)); }
        }
    }
}
impl<H> Wallet<H> {
//@@ fn wallet/src/wallet.rs | impl Wallet / fn balance
//@ props: C26
//@ subst: self.db.balance().map_err(Error::from) =>> err(self.db.balance())
//@ spec:
    ensures r is Ok ==> r->Ok_0 == total(self.db.coins())
//@@ end
//@@ fn wallet/src/wallet.rs | impl Wallet / fn apply
//@ props: C26
//@ subst: tx.output.iter().enumerate() =>> tx.output.iter_enumerate()
//@ subst: in tx.input.iter() =>> in refs(&tx.input)
//@ subst: scripts.contains(&output.script_pubkey) =>> script_among(scripts, &output.script_pubkey)
//@ spec:
    requires old(self).db.fine(), sane(*tx), forall|i: int| 0 <= i < scripts@.len() ==> addressable(#[trigger] scripts@[i])
    ensures final(self).db.coins() == applied(old(self).db.coins(), *tx, scripts@), final(self).db.fine(),
        *final(self) == (Wallet { db: final(self).db, ..*old(self) })
//@ loop 0 it=it:
    invariant it.seq().len() == tx.output@.len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == i && *it.seq()[i].1 == tx.output@[i],
        sane(*tx), self.db.fine(), forall|i: int| 0 <= i < scripts@.len() ==> addressable(#[trigger] scripts@[i]),
        *self == (Wallet { db: self.db, ..*old(self) }), self.db.coins() == paid(old(self).db.coins(), *tx, scripts@, it.index@ as int)
//@ loop_before 1:
    let ghost C1 = self.db.coins();
//@ loop 1 it=it1:
    invariant it1.seq().len() == tx.input@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == tx.input@[i],
        C1 == paid(old(self).db.coins(), *tx, scripts@, tx.output@.len() as int),
        self.db.fine(), *self == (Wallet { db: self.db, ..*old(self) }), self.db.coins() == spent(C1, *tx, it1.index@ as int)
//@@ end
//@@ fn wallet/src/wallet.rs | impl Wallet / fn handle_client_event
//@ props: C26
//@ sigsubst: ControlFlow<()> =>> ControlFlow
//@ subst: in &block.txdata =>> in txs(&block)
//@ spec:
    requires old(self).db.fine(), forall|i: int| 0 <= i < watch@.len() ==> addressable(#[trigger] watch@[i]),
        event is BlockMatched ==> forall|i: int| 0 <= i < event->block.txdata@.len() ==> sane(#[trigger] event->block.txdata@[i])
    ensures final(self).db.fine(), final(self).watch == old(self).watch, final(self).network == old(self).network,
        final(self).db.coins() == (if event is BlockMatched { applied_all(old(self).db.coins(), event->block.txdata@, watch@) } else { old(self).db.coins() }),
        r is Ok && event is BlockMatched ==> final(self).ui.shown() == total(final(self).db.coins()),
        !(event is BlockMatched) ==> final(self).ui.shown() == old(self).ui.shown(),
//@ loop 0 it=it:
    invariant it.seq().len() == block.txdata@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == block.txdata@[i],
        forall|i: int| 0 <= i < block.txdata@.len() ==> sane(#[trigger] block.txdata@[i]),
        forall|i: int| 0 <= i < watch@.len() ==> addressable(#[trigger] watch@[i]),
        self.db.fine(), *self == (Wallet { db: self.db, ..*old(self) }),
        self.db.coins() == applied_all(old(self).db.coins(), block.txdata@.take(it.index@ as int), watch@)
//@ loop_start 0:
    let ghost B = block.txdata@.take(it.index@ + 1); proof { assert(B.drop_last() =~= block.txdata@.take(it.index@ as int)); assert(B.last() == *t); assert(sane(block.txdata@[it.index@ as int])); }
//@ loop_after 0:
    proof { assert(block.txdata@.take(block.txdata@.len() as int) =~= block.txdata@); }
//@@ end
}
}
fn main() {}
