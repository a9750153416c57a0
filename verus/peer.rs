// p2p/src/fsm/peermgr.rs: connections and the handshake
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub type TimeOffset = i64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
//@@ include shim_keys.rs
//@@ include shim_it.rs
impl<K, V> HashMap<K, V> {
    /// `entry(k).or_insert(v)`
    #[verifier::external_body]
    pub fn entry_default(&mut self, k: K, v: V) -> (r: &mut V)
        ensures *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }), final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
    /// `for (k, v) in &mut map`, materialised
    #[verifier::external_body]
    pub fn iter_mut_vec(&mut self) -> (r: (Vec<(&K, &mut V)>, Ghost<Seq<K>>))
        ensures final(self)@.dom() == old(self)@.dom(), lists(r.1@, old(self)@), r.1@.len() == r.0@.len(),
            forall|i: int| 0 <= i < r.0@.len() ==> *(#[trigger] r.0@[i]).0 == r.1@[i] && *r.0@[i].1 == old(self)@[r.1@[i]] && final(self)@[r.1@[i]] == *final(r.0@[i].1)
    { unimplemented!() }
}
}
use dep::*;
//@@ include shim_time.rs
pub struct BlockFilter {}
#[derive(Copy, Clone)]
pub struct FilterHash { pub x: u64 }
#[derive(Copy, Clone)]
pub struct FilterHeader { pub x: u64 }
//@@ include shim_fsm.rs
//@@ include shim_out.rs
pub mod fastrand {
    use vstd::prelude::*;
    /// random numbers: any
    #[verifier::external_body]
    pub struct Rng { x: u64 }
    impl Rng { #[verifier::external_body] pub fn u64(&self, r: std::ops::RangeFull) -> u64 { unimplemented!() } }
}
// ---- assumed: addresses, hooks, clock ----
#[verifier::external_body]
pub struct IpAddr { x: u64 }
pub uninterp spec fn ip_of(a: SocketAddr) -> IpAddr;
pub uninterp spec fn local(a: IpAddr) -> bool;
impl SocketAddr { #[verifier::external_body] pub fn ip(&self) -> (r: IpAddr) ensures r == ip_of(*self) { unimplemented!() } }
pub mod addrmgr {
    use super::*;
    #[verifier::external_body]
    pub fn is_local(a: &IpAddr) -> (r: bool) ensures r == local(*a) { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct Domain { pub x: u8 }
pub uninterp spec fn domain_of(a: SocketAddr) -> Domain;
impl Domain { #[verifier::external_body] pub fn for_address(a: &SocketAddr) -> (r: Domain) ensures r == domain_of(*a) { unimplemented!() } }
pub uninterp spec fn addr_of(a: SocketAddr, s: ServiceFlags) -> Address;
pub uninterp spec fn sock_of(a: Address) -> Option<SocketAddr>;
impl Address {
    #[verifier::external_body]
    pub fn new(a: &SocketAddr, s: ServiceFlags) -> (r: Address) ensures r == addr_of(*a, s) { unimplemented!() }
    #[verifier::external_body]
    pub fn socket_addr(&self) -> (r: Result<SocketAddr, IoError>) ensures sock_of(*self) == (match r { Ok(a) => Some(a), Err(_) => None }) { unimplemented!() }
}
pub uninterp spec fn string_of(s: &str) -> String;
#[verifier::external_body]
pub fn to_owned(s: &'static str) -> (r: String) ensures r == string_of(s) { unimplemented!() }
/// the user's hook: any answer
#[verifier::external_body]
pub struct Hooks { x: u64 }
impl Hooks { #[verifier::external_body] pub fn on_version(&self, a: SocketAddr, m: &VersionMessage) -> (r: Result<(), &'static str>) { unimplemented!() } }
impl LocalTime {
    #[verifier::external_body]
    pub fn block_time(&self) -> (r: u32) requires self.ms() / 1000 <= u64::MAX ensures r == (self.ms() / 1000) as u64 as u32 { unimplemented!() }
}
pub trait AdjustedClock: Clock {
    /// time samples heard
    spec fn samples(&self) -> Seq<(PeerId, i64)>;
    fn record_offset(&mut self, source: PeerId, sample: i64) ensures final(self).samples() == old(self).samples().push((source, sample)), final(self).now() == old(self).now();
}
/// the address book (its contract is proved in the unit `addr`): here, what it was asked for and what it gave
pub trait AddressSource: Sized {
    spec fn log(&self) -> Seq<(ServiceFlags, Option<(Address, Source)>)>;
    fn sample(&mut self, services: ServiceFlags) -> (r: Option<(Address, Source)>) ensures final(self).log() == old(self).log().push((services, r));
}
/// the i-th question was for preferred peers, or for peers with the required services after there were no preferred ones, or for any peer after there were none of these
pub open spec fn ask_ok(l: Seq<(ServiceFlags, Option<(Address, Source)>)>, n: int, i: int, preferred: ServiceFlags, required: ServiceFlags, below: bool) -> bool {
    ||| l[i].0 == preferred
    ||| below && i > n && l[i].0 == required && l[i - 1] == (preferred, None::<(Address, Source)>)
    ||| below && i > n + 1 && l[i].0 == ServiceFlags::NONE && l[i - 1] == (required, None::<(Address, Source)>) && l[i - 2] == (preferred, None::<(Address, Source)>)
}
pub open spec fn asks(o: Seq<(ServiceFlags, Option<(Address, Source)>)>, l: Seq<(ServiceFlags, Option<(Address, Source)>)>, preferred: ServiceFlags, required: ServiceFlags, below: bool) -> bool {
    &&& o.len() <= l.len() && l.take(o.len() as int) == o
    &&& forall|i: int| o.len() <= i < l.len() ==> #[trigger] ask_ok(l, o.len() as int, i, preferred, required, below)
}
pub proof fn lemma_asks(o: Seq<(ServiceFlags, Option<(Address, Source)>)>, l: Seq<(ServiceFlags, Option<(Address, Source)>)>, x: (ServiceFlags, Option<(Address, Source)>), preferred: ServiceFlags, required: ServiceFlags, below: bool)
    requires asks(o, l, preferred, required, below), ask_ok(l.push(x), o.len() as int, l.len() as int, preferred, required, below)
    ensures asks(o, l.push(x), preferred, required, below)
{
    let m = l.push(x);
    assert(m.take(o.len() as int) =~= l.take(o.len() as int));
    assert forall|i: int| o.len() <= i < m.len() implies #[trigger] ask_ok(m, o.len() as int, i, preferred, required, below) by { if i < l.len() { assert(ask_ok(l, o.len() as int, i, preferred, required, below)); } }
}
pub broadcast proof fn lemma_push_drop(l: Seq<(ServiceFlags, Option<(Address, Source)>)>, x: (ServiceFlags, Option<(Address, Source)>))
    ensures (#[trigger] l.push(x)).drop_last() == l
{ assert(l.push(x).drop_last() =~= l); }
/// one round of questions
pub proof fn lemma_round(o: Seq<(ServiceFlags, Option<(Address, Source)>)>, l: Seq<(ServiceFlags, Option<(Address, Source)>)>, m: Seq<(ServiceFlags, Option<(Address, Source)>)>, preferred: ServiceFlags, required: ServiceFlags, below: bool)
    requires asks(o, l, preferred, required, below), m.len() > l.len(), asks(o, m.drop_last(), preferred, required, below), ask_ok(m, o.len() as int, m.len() - 1, preferred, required, below),
    ensures asks(o, m, preferred, required, below)
{ lemma_asks(o, m.drop_last(), m.last(), preferred, required, below); assert(m.drop_last().push(m.last()) =~= m); }
/// the book gave this address
pub open spec fn gave(l: Seq<(ServiceFlags, Option<(Address, Source)>)>, n: int, a: SocketAddr) -> bool { exists|j: int| n <= j < l.len() && (#[trigger] l[j]).1 is Some && sock_of((l[j].1->0).0) == Some(a) }
pub proof fn lemma_gave(d: Seq<SocketAddr>, from: int, l: Seq<(ServiceFlags, Option<(Address, Source)>)>, m: Seq<(ServiceFlags, Option<(Address, Source)>)>, n: int)
    requires l.len() <= m.len(), 0 <= from, forall|j: int| 0 <= j < l.len() ==> m[j] == #[trigger] l[j], forall|i: int| from <= i < d.len() ==> gave(l, n, #[trigger] d[i]), 0 <= n
    ensures forall|i: int| from <= i < d.len() ==> gave(m, n, #[trigger] d[i])
{
    assert forall|i: int| from <= i < d.len() implies gave(m, n, #[trigger] d[i]) by { let a = d[i]; let j = choose|j: int| n <= j < l.len() && (#[trigger] l[j]).1 is Some && sock_of((l[j].1->0).0) == Some(a); assert(m[j] == l[j]); }
}
pub fn min_usize(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
/// `u32::min`
pub fn min_u32(a: u32, b: u32) -> (r: u32) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
/// `Height::try_from(h).unwrap_or(0)`
pub fn height_from(h: i32) -> (r: u64) ensures r == (if h < 0 { 0 } else { h as u64 }) { if h < 0 { 0 } else { h as u64 } }
pub assume_specification [i64::saturating_sub] (a: i64, b: i64) -> (r: i64)
    ensures r == (if a - b < i64::MIN { i64::MIN as int } else if a - b > i64::MAX { i64::MAX as int } else { a - b });
/// `==`
pub fn same_nonce(a: Option<u64>, b: Option<u64>) -> (r: bool) ensures r == (a == b) { match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }
pub trait VecC<T> { spec fn sqc(&self) -> Seq<T>; fn contains(&self, t: &T) -> (r: bool) ensures r == self.sqc().contains(*t); }
impl<T> VecC<T> for Vec<T> { open spec fn sqc(&self) -> Seq<T> { self@ } #[verifier::external_body] fn contains(&self, t: &T) -> (r: bool) { unimplemented!() } }
/// `2u64.saturating_pow(n)`
#[verifier::external_body]
pub fn pow2_sat(n: u32) -> (r: u64) ensures r == pow2s(n as nat) { unimplemented!() }
pub open spec fn pow2s(n: nat) -> u64 { if n < 64 { vstd::arithmetic::power2::pow2(n) as u64 } else { u64::MAX } }
impl LocalDuration {
    /// `Ord::clamp`
    #[verifier::external_body]
    pub fn clamp(self, a: LocalDuration, b: LocalDuration) -> (r: LocalDuration) requires a.ms() <= b.ms() ensures r == clamped(self, a, b) { unimplemented!() }
}
pub open spec fn clamped(d: LocalDuration, a: LocalDuration, b: LocalDuration) -> LocalDuration { if d.ms() < a.ms() { a } else if d.ms() > b.ms() { b } else { d } }
//@@ const p2p/src/fsm.rs | const MIN_PROTOCOL_VERSION
//@@ end
//@@ const p2p/src/fsm/peermgr.rs | const HANDSHAKE_TIMEOUT
//@ spec: ensures HANDSHAKE_TIMEOUT.ms() == 12000
//@@ end
//@@ const p2p/src/fsm/peermgr.rs | const CONNECTION_TIMEOUT
//@ spec: ensures CONNECTION_TIMEOUT.ms() == 6000
//@@ end
//@@ const p2p/src/fsm/peermgr.rs | const IDLE_TIMEOUT
//@ spec: ensures IDLE_TIMEOUT.ms() == 60000
//@@ end
//@@ const p2p/src/fsm/peermgr.rs | const MAX_STALE_HEIGHT_DIFFERENCE
//@@ end
//@@ struct p2p/src/fsm.rs | struct Whitelist
//@ subst: net::IpAddr =>> IpAddr
//@@ end
impl Whitelist {
    pub open spec fn trusts(&self, addr: IpAddr, ua: String) -> bool { self.addr@.contains(addr) || self.user_agent@.contains(ua) }
//@@ fn p2p/src/fsm.rs | impl Whitelist / fn contains
//@ props: C18
//@ sigsubst: net::IpAddr =>> IpAddr
//@ sigsubst: str =>> String
//@ spec:
    ensures r == self.trusts(*addr, *user_agent)
//@@ end
}
//@@ enum p2p/src/fsm/peermgr.rs | enum HandshakeState
//@ attr: #[derive(Copy, Clone)]
//@@ end
//@@ struct p2p/src/fsm/peermgr.rs | struct Config
//@ subst: net::SocketAddr =>> SocketAddr
//@@ end
//@@ struct p2p/src/fsm/peermgr.rs | struct Connection
//@ attr: #[derive(Copy, Clone)]
//@ subst: net::SocketAddr =>> SocketAddr
//@@ end
//@@ struct p2p/src/fsm/peermgr.rs | struct PeerInfo
//@@ end
//@@ enum p2p/src/fsm/peermgr.rs | enum Peer
//@@ end
//@@ struct p2p/src/fsm/peermgr.rs | struct PeerManager
//@ subst: net::SocketAddr =>> SocketAddr
//@@ end
impl PeerInfo {
    pub open spec fn done(&self) -> bool { self.state is ReceivedVerack }
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerInfo / fn is_negotiated
//@ props: C18
//@ spec:
    ensures r == self.done()
//@@ end
}
/// time passed (none if the clock went back)
pub open spec fn since(now: LocalTime, t: LocalTime) -> int { if now.ms() >= t.ms() { now.ms() - t.ms() } else { 0 } }
/// `==` on links (derived)
pub fn same_link(a: Link, b: Link) -> (r: bool) ensures r == (a == b) { match a { Link::Inbound => b.is_inbound(), Link::Outbound => b.is_outbound() } }
pub open spec fn conn_of(addr: PeerId, local_addr: SocketAddr, link: Link, now: LocalTime, nonce: u64) -> Connection { Connection { addr, local_addr, link, since: now, nonce: if link is Outbound { Some(nonce) } else { None } } }
// ---- counting peers ----
pub open spec fn info(p: Peer) -> PeerInfo { p->Connected_peer->0 }
pub open spec fn those(m: Map<PeerId, Peer>, p: spec_fn(Peer) -> bool) -> Set<PeerId> { m.dom().filter(|k: PeerId| p(m[k])) }
/// the keys of the peers that satisfy p, each once
pub open spec fn picks(m: Map<PeerId, Peer>, p: spec_fn(Peer) -> bool, ks: Seq<PeerId>) -> bool { ks.no_duplicates() && ks.to_set() == those(m, p) }
pub proof fn lemma_count(m: Map<PeerId, Peer>, p: spec_fn(Peer) -> bool, ks: Seq<PeerId>)
    requires picks(m, p, ks)
    ensures ks.len() == those(m, p).len()
{ ks.unique_seq_to_set(); }
/// selecting among listed keys
pub proof fn lemma_pick(m: Map<PeerId, Peer>, p: spec_fn(Peer) -> bool, q: spec_fn(Peer) -> bool, ks: Seq<PeerId>, idx: Seq<int>) -> (r: Seq<PeerId>)
    requires picks(m, p, ks), kept(idx, ks.len() as int),
        forall|i: int| 0 <= i < idx.len() ==> q(m[ks[#[trigger] idx[i]]]),
        forall|j: int| 0 <= j < ks.len() && !idx.contains(j) ==> !q(m[#[trigger] ks[j]]),
        forall|x: Peer| #[trigger] q(x) ==> p(x)
    ensures picks(m, q, r), r.len() == idx.len(), forall|i: int| 0 <= i < r.len() ==> r[i] == ks[#[trigger] idx[i]]
{
    let r = Seq::new(idx.len(), |i: int| ks[idx[i]]);
    assert(r.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i < j { assert(idx[i] < idx[j]); } else { assert(idx[j] < idx[i]); } } }
    assert forall|k: PeerId| r.to_set().contains(k) <==> those(m, q).contains(k) by {
        if r.to_set().contains(k) { let i = choose|i: int| 0 <= i < r.len() && r[i] == k; assert(ks.to_set().contains(ks[idx[i]])); assert(q(m[ks[idx[i]]])); }
        if those(m, q).contains(k) { assert(those(m, p).contains(k)); assert(ks.to_set().contains(k)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == k;
            assert(idx.contains(j)); let i = choose|i: int| 0 <= i < idx.len() && idx[i] == j; assert(r[i] == k); }
    }
    assert(r.to_set() =~= those(m, q));
    r
}
pub open spec fn any_peer() -> spec_fn(Peer) -> bool { |p: Peer| true }
pub open spec fn greeted() -> spec_fn(Peer) -> bool { |p: Peer| p is Connected && p->Connected_peer is Some }
/// connecting for too long
pub open spec fn stuck(now: LocalTime) -> spec_fn(Peer) -> bool { |p: Peer| p is Connecting && since(now, p->Connecting_time) >= 6000 }
pub open spec fn linked() -> spec_fn(Peer) -> bool { |p: Peer| p is Connected }
pub open spec fn dialing() -> spec_fn(Peer) -> bool { |p: Peer| p is Connecting }
pub open spec fn negotiated_by(l: Link) -> spec_fn(Peer) -> bool { |p: Peer| p is Connected && p->Connected_peer is Some && info(p).done() && p->Connected_conn.link == l }
pub open spec fn preferred_by(s: ServiceFlags) -> spec_fn(Peer) -> bool { |p: Peer| p is Connected && p->Connected_peer is Some && info(p).done() && p->Connected_conn.link == Link::Outbound && has_services(info(p).services, s) }
pub open spec fn linked_by(l: Link) -> spec_fn(Peer) -> bool { |p: Peer| p is Connected && p->Connected_conn.link == l }
pub proof fn lemma_all(m: Map<PeerId, Peer>, ks: Seq<PeerId>)
    requires lists(ks, m)
    ensures picks(m, any_peer(), ks)
{ assert(those(m, any_peer()) =~= m.dom()); }
pub open spec fn greets(m: Map<PeerId, Peer>, q: spec_fn(Peer) -> bool, ks: Seq<PeerId>, r: Seq<(&PeerInfo, &Connection)>) -> bool {
    picks(m, q, ks) && r.len() == ks.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 == info(m[ks[i]]) && r[i].1 == m[ks[i]]->Connected_conn
}
pub open spec fn links(m: Map<PeerId, Peer>, q: spec_fn(Peer) -> bool, ks: Seq<PeerId>, r: Seq<&Connection>) -> bool {
    picks(m, q, ks) && r.len() == ks.len() && forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == m[ks[i]]->Connected_conn
}
/// selecting among the values of the map
pub proof fn lemma_sel(m: Map<PeerId, Peer>, vs: Seq<&Peer>, q: spec_fn(Peer) -> bool, idx: Seq<int>) -> (r: Seq<PeerId>)
    requires exists|ks: Seq<PeerId>| #[trigger] lists(ks, m) && ks.len() == vs.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs[i]) == m[ks[i]],
        kept(idx, vs.len() as int), forall|i: int| 0 <= i < idx.len() ==> q(*vs[#[trigger] idx[i]]), forall|j: int| 0 <= j < vs.len() && !idx.contains(j) ==> !q(*#[trigger] vs[j])
    ensures picks(m, q, r), r.len() == idx.len(), forall|i: int| 0 <= i < r.len() ==> m[#[trigger] r[i]] == *vs[idx[i]]
{
    let ks = choose|ks: Seq<PeerId>| #[trigger] lists(ks, m) && ks.len() == vs.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs[i]) == m[ks[i]];
    lemma_all(m, ks);
    assert forall|j: int| 0 <= j < ks.len() && !idx.contains(j) implies !q(m[#[trigger] ks[j]]) by { assert(*vs[j] == m[ks[j]]); }
    assert forall|i: int| 0 <= i < idx.len() implies q(m[ks[#[trigger] idx[i]]]) by { assert(*vs[idx[i]] == m[ks[idx[i]]]); }
    let r = lemma_pick(m, any_peer(), q, ks, idx);
    assert forall|i: int| 0 <= i < r.len() implies m[#[trigger] r[i]] == *vs[idx[i]] by { assert(r[i] == ks[idx[i]]); assert(*vs[idx[i]] == m[ks[idx[i]]]); }
    r
}
pub open spec fn at<K, V>(m: Map<K, V>, k: K) -> Option<V> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub proof fn lemma_sub(m: Map<PeerId, Peer>, p: spec_fn(Peer) -> bool, q: spec_fn(Peer) -> bool)
    requires forall|x: Peer| #[trigger] p(x) ==> q(x)
    ensures those(m, p).len() <= those(m, q).len() <= m.dom().len()
{
    assert(those(m, p).subset_of(those(m, q))) by { assert forall|k: PeerId| those(m, p).contains(k) implies those(m, q).contains(k) by { assert(p(m[k])); } }
    vstd::set_lib::lemma_len_subset(those(m, p), those(m, q)); vstd::set_lib::lemma_len_subset(those(m, q), m.dom());
}
/// connections requested, in order
pub open spec fn dials(s: Seq<Io>) -> Seq<PeerId> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() is Connect { dials(s.drop_last()).push(s.last()->Connect_0) } else { dials(s.drop_last()) }
}
pub broadcast proof fn lemma_push_dial(s: Seq<Io>, x: Io)
    ensures #![trigger s.push(x)] dials(s.push(x)) == (if x is Connect { dials(s).push(x->Connect_0) } else { dials(s) })
{ assert(s.push(x).drop_last() =~= s); }
impl Outbox { pub open spec fn dls(&self) -> Seq<PeerId> { dials(self.outbound@) } }
impl<C: Clock> PeerManager<C> {
    pub open spec fn wf(&self) -> bool { forall|k: PeerId| #[trigger] self.peers@.contains_key(k) && self.peers@[k] is Connected ==> self.peers@[k]->Connected_conn.addr == k }
    /// no more than 2^32 peers
    pub open spec fn small(&self) -> bool { self.peers@.dom().len() <= 0xffff_ffff && self.config.target_outbound_peers <= 0xffff_ffff }
    /// only peers and outputs changed
    pub open spec fn frame(&self, o: Self) -> bool { *self == (PeerManager { peers: self.peers, outbox: self.outbox, ..o }) }
    /// fewer peers than wanted
    pub open spec fn below(&self) -> bool { those(self.peers@, negotiated_by(Link::Outbound)).len() < self.config.target_outbound_peers }
    /// how many connections may be added: never more outbound peers (of any kind) than one and a half times the target, nor preferred or unknown ones than the target
    pub open spec fn room(&self) -> int {
        let m = self.peers@; let t = self.config.target_outbound_peers as int;
        let primary = those(m, preferred_by(self.config.preferred_services)).len(); let total = those(m, dialing()).len() + those(m, linked_by(Link::Outbound)).len();
        let unknown = total - those(m, negotiated_by(Link::Outbound)).len();
        if total > t + t / 2 || primary + unknown > t { 0 } else if t + t / 2 - total < t - (primary + unknown) { t + t / 2 - total } else { t - (primary + unknown) }
    }
    pub proof fn lemma_preferred(&self, n: Seq<(&PeerInfo, &Connection)>, f: It<(&PeerInfo, &Connection)>)
        requires exists|ks: Seq<PeerId>| #[trigger] greets(self.peers@, negotiated_by(Link::Outbound), ks, n), kept(f.idx(), n.len() as int), f.idx().len() == f@.len(),
            forall|i: int| 0 <= i < f@.len() ==> has_services(n[#[trigger] f.idx()[i]].0.services, self.config.preferred_services),
            forall|j: int| 0 <= j < n.len() && !f.idx().contains(j) ==> !has_services((#[trigger] n[j]).0.services, self.config.preferred_services),
        ensures f@.len() == those(self.peers@, preferred_by(self.config.preferred_services)).len()
    {
        let m = self.peers@; let p = negotiated_by(Link::Outbound); let q = preferred_by(self.config.preferred_services); let idx = f.idx();
        let ks = choose|ks: Seq<PeerId>| #[trigger] greets(m, p, ks, n);
        assert forall|i: int| 0 <= i < idx.len() implies q(m[ks[#[trigger] idx[i]]]) by { assert(ks.to_set().contains(ks[idx[i]])); assert(those(m, p).contains(ks[idx[i]])); assert(n[idx[i]].0 == info(m[ks[idx[i]]])); }
        assert forall|j: int| 0 <= j < ks.len() && !idx.contains(j) implies !q(m[#[trigger] ks[j]]) by { assert(n[j].0 == info(m[ks[j]])); }
        let r = lemma_pick(m, p, q, ks, idx); lemma_count(m, q, r);
    }
    pub proof fn lemma_by(&self, n: Seq<&Connection>, f: It<&Connection>, l: Link)
        requires exists|ks: Seq<PeerId>| #[trigger] links(self.peers@, linked(), ks, n), kept(f.idx(), n.len() as int), f.idx().len() == f@.len(),
            forall|i: int| 0 <= i < f@.len() ==> n[#[trigger] f.idx()[i]].link == l,
            forall|j: int| 0 <= j < n.len() && !f.idx().contains(j) ==> (#[trigger] n[j]).link != l,
        ensures f@.len() == those(self.peers@, linked_by(l)).len()
    {
        let m = self.peers@; let p = linked(); let q = linked_by(l); let idx = f.idx();
        let ks = choose|ks: Seq<PeerId>| #[trigger] links(m, p, ks, n);
        assert forall|i: int| 0 <= i < idx.len() implies q(m[ks[#[trigger] idx[i]]]) by { assert(ks.to_set().contains(ks[idx[i]])); assert(those(m, p).contains(ks[idx[i]])); assert(*n[idx[i]] == m[ks[idx[i]]]->Connected_conn); }
        assert forall|j: int| 0 <= j < ks.len() && !idx.contains(j) implies !q(m[#[trigger] ks[j]]) by { assert(*n[j] == m[ks[j]]->Connected_conn); }
        let r = lemma_pick(m, p, q, ks, idx); lemma_count(m, q, r);
    }
    /// nothing but connection attempts was reported
    pub open spec fn told(&self, o: Self) -> bool {
        &&& o.outbox.evs().len() <= self.outbox.evs().len() && self.outbox.evs().take(o.outbox.evs().len() as int) == o.outbox.evs()
        &&& forall|i: int| o.outbox.evs().len() <= i < self.outbox.evs().len() ==> #[trigger] self.outbox.evs()[i] is PeerConnecting
    }
    pub proof fn lemma_told(&self, o: Self, n: Self)
        requires self.told(o), n.outbox.evs() == self.outbox.evs() || (n.outbox.evs().len() > 0 && n.outbox.evs().last() is PeerConnecting && n.outbox.evs().drop_last() == self.outbox.evs())
        ensures n.told(o)
    {
        let l = o.outbox.evs().len() as int;
        if n.outbox.evs() != self.outbox.evs() { assert(n.outbox.evs().take(l) =~= n.outbox.evs().drop_last().take(l)); assert forall|i: int| l <= i < n.outbox.evs().len() implies #[trigger] n.outbox.evs()[i] is PeerConnecting by { if i < n.outbox.evs().len() - 1 { assert(n.outbox.evs().drop_last()[i] == self.outbox.evs()[i]); } } }
    }
    /// only new connections were started since o: n of them, to peers without any connection
    pub open spec fn grew(&self, o: Self) -> bool {
        &&& self.outbox.drs() == o.outbox.drs() && self.outbox.wrs() == o.outbox.wrs()
        &&& forall|k: PeerId| #[trigger] o.peers@.contains_key(k) ==> self.peers@.contains_key(k) && self.peers@[k] == o.peers@[k]
        &&& forall|k: PeerId| #[trigger] self.peers@.contains_key(k) && !o.peers@.contains_key(k) ==> self.peers@[k] == (Peer::Connecting { time: o.clock.now() }) && o.config.domains@.contains(domain_of(k))
        &&& o.outbox.dls().len() <= self.outbox.dls().len() && self.outbox.dls().take(o.outbox.dls().len() as int) == o.outbox.dls()
        &&& forall|i: int| o.outbox.dls().len() <= i < self.outbox.dls().len() ==> self.peers@.contains_key(#[trigger] self.outbox.dls()[i]) && !o.peers@.contains_key(self.outbox.dls()[i])
        &&& self.peers@.dom().len() == o.peers@.dom().len() + (self.outbox.dls().len() - o.outbox.dls().len())
    }
    pub proof fn lemma_grew1(&self, o: Self, n: Self, a: PeerId)
        requires self.grew(o), self.clock == o.clock, self.config == o.config, n.dialed(*self, a), !self.peers@.contains_key(a), o.config.domains@.contains(domain_of(a))
        ensures n.grew(o), n.outbox.dls().len() == self.outbox.dls().len() + 1, n.outbox.evs() == self.outbox.evs()
    {
        broadcast use lemma_push; broadcast use lemma_push_dial;
        assert(n.outbox.dls() == self.outbox.dls().push(a));
        assert(n.outbox.dls().take(o.outbox.dls().len() as int) =~= self.outbox.dls().take(o.outbox.dls().len() as int));
        assert(n.peers@.dom() =~= self.peers@.dom().insert(a));
    }
    /// the retry delays are an interval, and no peer was retried 2^32 times
    pub open spec fn times(&self) -> bool {
        self.config.retry_min_wait.ms() <= self.config.retry_max_wait.ms() <= 0x1_0000_0000_0000_0000 && forall|k: PeerId| #[trigger] self.disconnected@.contains_key(k) ==> self.disconnected@[k].1 < 0xffff_ffff
    }
    /// failures in a row so far
    pub open spec fn failures(&self, a: PeerId) -> nat { if self.disconnected@.contains_key(a) { self.disconnected@[a].1 as nat } else { 0 } }
    pub open spec fn backoff(&self, a: PeerId) -> LocalDuration { clamped(LocalDuration((pow2s(self.failures(a)) * 1000) as u128), self.config.retry_min_wait, self.config.retry_max_wait) }
    /// a retry of a is scheduled
    pub open spec fn retrying(&self, o: Self, a: PeerId, now: LocalTime) -> bool {
        &&& self.disconnected@ == o.disconnected@.insert(a, (Some(LocalTime { millis: (now.ms() + o.backoff(a).ms()) as u128 }), (o.failures(a) + 1) as usize))
        &&& self.outbox.ios() == o.outbox.ios().push(Io::SetTimer(o.backoff(a)))
    }
    /// due for a retry
    pub open spec fn due(&self, a: PeerId) -> bool { self.disconnected@.contains_key(a) && self.disconnected@[a].0 is Some && self.disconnected@[a].0->0.ms() <= self.clock.now().ms() }
    /// connected or trying to, unless that is not possible
    pub open spec fn tried(&self, a: PeerId) -> bool { self.peers@.contains_key(a) || !self.config.domains@.contains(domain_of(a)) }
    /// exactly the due retries were made
    pub open spec fn retried(&self, o: Self) -> bool {
        &&& self.disconnected@.dom() == o.disconnected@.dom()
        &&& forall|k: PeerId| #[trigger] o.disconnected@.contains_key(k) ==> self.disconnected@[k] == (if o.due(k) { (None, o.disconnected@[k].1) } else { o.disconnected@[k] }) && (o.due(k) ==> self.tried(k))
    }
    pub open spec fn same(&self, o: Self) -> bool { self.outbox == o.outbox && self.peers@ == o.peers@ && self.clock == o.clock }
    pub open spec fn clock_ok(&self, t: LocalTime) -> bool { t.ms() / 1000 <= u64::MAX }
    /// our version message
    pub open spec fn ours(&self, r: VersionMessage, addr: PeerId, local_addr: SocketAddr, nonce: u64, height: Height, now: LocalTime) -> bool {
        r.version == self.config.protocol_version && r.services == self.config.services && r.timestamp == (now.ms() / 1000) as u64 as u32 as i64 && r.receiver == addr_of(addr, ServiceFlags::NONE) && r.sender == addr_of(local_addr, self.config.services)
            && r.nonce == nonce && r.user_agent == string_of(self.config.user_agent) && r.start_height == height as i32 && !r.relay
    }
    /// a connection is established: an outbound peer is sent our version, an inbound one above the limit is dropped
    pub open spec fn welcomed(&self, o: Self, addr: PeerId, local_addr: SocketAddr, link: Link, height: Height, c: Connection) -> bool {
        let m = o.peers@.insert(addr, Peer::Connected { conn: c, peer: None });
        match link {
            Link::Outbound => self.peers@ == m && self.outbox.drs() == o.outbox.drs() && exists|v: VersionMessage| o.ours(v, addr, local_addr, c.nonce->0, height, o.clock.now()) && self.outbox.wrs() == #[trigger] o.outbox.wrs().push((addr, NetworkMessage::Version(v))),
            Link::Inbound => self.outbox.wrs() == o.outbox.wrs() && if those(m, linked_by(Link::Inbound)).len() > o.config.max_inbound_peers { self.peers@ == m.insert(addr, Peer::Disconnecting) && self.outbox.drs() == o.outbox.drs().push((addr, DisconnectReason::ConnectionLimit)) }
                else { self.peers@ == m && self.outbox.drs() == o.outbox.drs() },
        }
    }
    /// a connection ended, or an attempt failed: reported once
    pub open spec fn left(&self, o: Self, a: PeerId, reason: Disconnect<DisconnectReason>) -> bool {
        &&& *self == (PeerManager { peers: self.peers, outbox: self.outbox, ..o }) && self.peers@ == o.peers@.remove(a)
        &&& self.outbox.ios() == (if !(o.peers@[a] is Connecting) { o.outbox.ios().push(Io::Event(Event::PeerDisconnected { addr: a, reason })) }
            else { match reason { Disconnect::DialError(e) | Disconnect::ConnectionError(e) => o.outbox.ios().push(Io::Event(Event::PeerConnectionFailed { addr: a, error: e })), _ => o.outbox.ios() } })
    }
    /// wtxidrelay: noted between version and verack, a fault afterwards, ignored before
    pub open spec fn wtxid_step(&self, o: Self, a: PeerId) -> bool {
        if o.peers@.contains_key(a) && greeted()(o.peers@[a]) {
            if info(o.peers@[a]).done() { exists|s: &'static str| #[trigger] self.dropped(o, a, DisconnectReason::PeerMisbehaving(s)) }
            else { self.outbox == o.outbox && self.peers@ == o.peers@.insert(a, Peer::Connected { conn: o.peers@[a]->Connected_conn, peer: Some(PeerInfo { wtxidrelay: true, ..info(o.peers@[a]) }) }) }
        } else { self.outbox == o.outbox && self.peers@ == o.peers@ }
    }
    /// a new connection to addr is requested
    pub open spec fn dialed(&self, o: Self, addr: PeerId) -> bool {
        self.peers@ == o.peers@.insert(addr, Peer::Connecting { time: o.clock.now() }) && exists|t: LocalDuration| t.ms() == 6000 && self.outbox.ios() == #[trigger] o.outbox.ios().push(Io::Connect(addr)).push(Io::SetTimer(t))
    }
    pub open spec fn dropped(&self, o: Self, addr: PeerId, reason: DisconnectReason) -> bool {
        self.peers@ == o.peers@.insert(addr, Peer::Disconnecting) && self.outbox.ios() == o.outbox.ios().push(Io::Disconnect(addr, reason))
    }
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn is_inbound
//@ props: C18
//@ subst: self.peers.get(addr).map_or( false, |c| matches!(c, Peer::Connected { conn, .. } if conn.link.is_inbound()), ) =>> (match self.peers.get(addr) { None => false, Some(c) => matches!(c, Peer::Connected { conn, .. } if conn.link.is_inbound()) })
//@ spec:
    ensures r == (self.peers@.contains_key(*addr) && self.peers@[*addr] is Connected && self.peers@[*addr]->Connected_conn.link == Link::Inbound)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn is_connecting
//@ props: C18
//@ subst: self.peers.get(addr).map_or(false, |c| matches!(c, Peer::Connecting { .. })) =>> (match self.peers.get(addr) { None => false, Some(c) => matches!(c, Peer::Connecting { .. }) })
//@ spec:
    ensures r == (self.peers@.contains_key(*addr) && self.peers@[*addr] is Connecting)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn is_connected
//@ props: C18
//@ subst: self.peers.get(addr).map_or(false, |c| matches!(c, Peer::Connected { .. })) =>> (match self.peers.get(addr) { None => false, Some(c) => matches!(c, Peer::Connected { .. }) })
//@ spec:
    ensures r == (self.peers@.contains_key(*addr) && self.peers@[*addr] is Connected)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn is_disconnected
//@ props: C18
//@ spec:
    ensures r == !self.peers@.contains_key(*addr)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn is_disconnecting
//@ props: C18
//@ spec:
    ensures r == (self.peers@.contains_key(*addr) && self.peers@[*addr] is Disconnecting)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn peers
//@ props: C18
//@ sig: pub fn peers(&self) -> (r: It<(&PeerInfo, &Connection)>)
//@ closure 0: |c: &Peer| -> (o: Option<(&PeerInfo, &Connection)>) ensures o is Some == greeted()(*c), o is Some ==> (o->0).0 == info(*c) && (o->0).1 == c->Connected_conn ;;
//@ subst: self.peers.values().filter_map( =>> let vs = self.peers.values(); proof { VS = vs@; } vs.filter_map(
//@ spec:
    ensures exists|ks: Seq<PeerId>| #[trigger] greets(self.peers@, greeted(), ks, r@)
//@ entry:
    let ghost mut VS = Seq::<&Peer>::empty();
//@ exit:
    proof {
        let m = self.peers@;
        let idx = ret__.idx();
        assert forall|i: int| 0 <= i < idx.len() implies greeted()(*VS[#[trigger] idx[i]]) by { assert(ret__@[i].1 == VS[idx[i]]->Connected_conn); }
        let r = lemma_sel(m, VS, greeted(), idx);
        assert(greets(m, greeted(), r, ret__@)) by { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] ret__@[i]).0 == info(m[r[i]]) && ret__@[i].1 == m[r[i]]->Connected_conn by { assert(m[r[i]] == *VS[idx[i]]); } }
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn connected
//@ props: C18
//@ sig: pub fn connected(&self) -> (r: It<&Connection>)
//@ closure 0: |c: &Peer| -> (o: Option<&Connection>) ensures o is Some == linked()(*c), o is Some ==> *(o->0) == c->Connected_conn ;;
//@ subst: self.peers.values().filter_map( =>> let vs = self.peers.values(); proof { VS = vs@; } vs.filter_map(
//@ spec:
    ensures exists|ks: Seq<PeerId>| #[trigger] links(self.peers@, linked(), ks, r@)
//@ entry:
    let ghost mut VS = Seq::<&Peer>::empty();
//@ exit:
    proof {
        let m = self.peers@;
        let idx = ret__.idx();
        assert forall|i: int| 0 <= i < idx.len() implies linked()(*VS[#[trigger] idx[i]]) by { assert(*(ret__@[i]) == VS[idx[i]]->Connected_conn); }
        let r = lemma_sel(m, VS, linked(), idx);
        assert(links(m, linked(), r, ret__@)) by { assert forall|i: int| 0 <= i < r.len() implies *(#[trigger] ret__@[i]) == m[r[i]]->Connected_conn by { assert(m[r[i]] == *VS[idx[i]]); } }
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn connecting
//@ props: C18
//@ sig: pub fn connecting(&self) -> (r: It<&PeerId>)
//@ closure 0: |x: &(&PeerId, &Peer)| -> (o: bool) ensures o == dialing()(*x.1) ;; let p = x.1;
//@ closure 1: |x: (&PeerId, &Peer)| -> (o: &PeerId) ensures *o == *x.0 ;; let addr = x.0;
//@ subst: self.peers.iter().filter( =>> let vs = self.peers.iter(); proof { VS = vs@; } vs.filter(
//@ spec:
    ensures r@.len() == those(self.peers@, dialing()).len()
//@ entry:
    let ghost mut VS = Seq::<(&PeerId, &Peer)>::empty();
//@ exit:
    proof {
        let m = self.peers@; let vs = VS.map_values(|x: (&PeerId, &Peer)| x.1);
        let ks = choose|ks: Seq<PeerId>| #[trigger] lists(ks, m) && ks.len() == VS.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] VS[i]).0 == ks[i] && *VS[i].1 == m[ks[i]];
        assert forall|i: int| 0 <= i < ks.len() implies *(#[trigger] vs[i]) == m[ks[i]] by { assert(*VS[i].1 == m[ks[i]]); }
        let idx = ret__.idx();
        assert forall|i: int| 0 <= i < idx.len() implies dialing()(*vs[#[trigger] idx[i]]) by { let y = ret__@[i]; assert(*y == *VS[idx[i]].0); assert(dialing()(*VS[idx[i]].1)); }
        assert forall|j: int| 0 <= j < vs.len() && !idx.contains(j) implies !dialing()(*#[trigger] vs[j]) by { assert(!dialing()(*VS[j].1)); }
        let r = lemma_sel(m, vs, dialing(), idx);
        lemma_count(m, dialing(), r);
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn negotiated
//@ props: C18
//@ sig: pub fn negotiated(&self, link: Link) -> (r: It<(&PeerInfo, &Connection)>)
//@ closure 0: |x: &(&PeerInfo, &Connection)| -> (o: bool) ensures o == (x.0.done() && x.1.link == link) ;; let p = x.0; let c = x.1;
//@ subst: c.link == link =>> same_link(c.link, link)
//@ subst: self.peers().filter( =>> let vs = self.peers(); proof { VS = vs@; } vs.filter(
//@ spec:
    ensures exists|ks: Seq<PeerId>| #[trigger] greets(self.peers@, negotiated_by(link), ks, r@)
//@ entry:
    let ghost mut VS = Seq::<(&PeerInfo, &Connection)>::empty();
//@ exit:
    proof {
        let m = self.peers@;
        let ks = choose|ks: Seq<PeerId>| #[trigger] greets(m, greeted(), ks, VS);
        let idx = ret__.idx();
        let q = negotiated_by(link);
        assert forall|i: int| 0 <= i < idx.len() implies q(m[ks[#[trigger] idx[i]]]) by { assert(ret__@[i] == VS[idx[i]]); assert(ks.to_set().contains(ks[idx[i]])); assert(those(m, greeted()).contains(ks[idx[i]])); assert(greeted()(m[ks[idx[i]]])); }
        assert forall|j: int| 0 <= j < ks.len() && !idx.contains(j) implies !q(m[#[trigger] ks[j]]) by { assert(!(VS[j].0.done() && VS[j].1.link == link)); }
        let r = lemma_pick(m, greeted(), q, ks, idx);
        assert(greets(m, q, r, ret__@)) by { assert forall|i: int| 0 <= i < r.len() implies (#[trigger] ret__@[i]).0 == info(m[r[i]]) && ret__@[i].1 == m[r[i]]->Connected_conn by { assert(r[i] == ks[idx[i]]); assert(ret__@[i] == VS[idx[i]]); } }
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn connect
//@ props: C18
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).frame(*old(self)),
        r == (match at(old(self).peers@, *addr) { Some(Peer::Disconnecting) => false, Some(_) => true, None => old(self).config.domains@.contains(domain_of(*addr)) }),
        if r && !old(self).peers@.contains_key(*addr) { final(self).dialed(*old(self), *addr) } else { final(self).peers@ == old(self).peers@ && final(self).outbox == old(self).outbox },
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn _disconnect
//@ props: C18
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).frame(*old(self)), final(self).dropped(*old(self), addr, reason)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn disconnect
//@ props: C18
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).frame(*old(self)),
        if old(self).peers@.contains_key(addr) && old(self).peers@[addr] is Connected { final(self).dropped(*old(self), addr, reason) } else { final(self).peers@ == old(self).peers@ && final(self).outbox == old(self).outbox }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn delta
//@ props: C18
//@ subst: let primary = self.negotiated(Link::Outbound).filter(|(p, _)| p.services.has(self.config.preferred_services)).count(); =>> let n1 = self.negotiated(Link::Outbound); let ghost N1 = n1@; let f1 = n1.filter(|x: &(&PeerInfo, &Connection)| -> (o: bool) ensures o == has_services(x.0.services, self.config.preferred_services) { let p = x.0; p.services.has(self.config.preferred_services) }); let ghost F1 = f1; let primary = f1.count();
//@ subst: let connected = self.connected().filter(|c| c.link.is_outbound()).count() - primary - secondary; =>> let n2 = self.connected(); let ghost N2 = n2@; let f2 = n2.filter(|c: &&Connection| -> (o: bool) ensures o == (c.link == Link::Outbound) { c.link.is_outbound() }); let ghost F2 = f2; proof { assert forall|i: int| 0 <= i < F2@.len() implies N2[#[trigger] F2.idx()[i]].link == Link::Outbound by { let y = F2@[i]; } self.lemma_by(N2, F2, Link::Outbound); lemma_sub(self.peers@, preferred_by(self.config.preferred_services), negotiated_by(Link::Outbound)); lemma_sub(self.peers@, negotiated_by(Link::Outbound), linked_by(Link::Outbound)); lemma_sub(self.peers@, dialing(), any_peer()); } let connected = f2.count() - primary - secondary;
//@ subst: let secondary = self.negotiated(Link::Outbound).count() - primary; =>> let n3 = self.negotiated(Link::Outbound); let ghost N3 = n3@; proof { assert forall|i: int| 0 <= i < F1@.len() implies has_services(N1[#[trigger] F1.idx()[i]].0.services, self.config.preferred_services) by { let y = F1@[i]; } self.lemma_preferred(N1, F1); lemma_sub(self.peers@, preferred_by(self.config.preferred_services), negotiated_by(Link::Outbound)); let ks = choose|ks: Seq<PeerId>| #[trigger] greets(self.peers@, negotiated_by(Link::Outbound), ks, N3); lemma_count(self.peers@, negotiated_by(Link::Outbound), ks); } let secondary = n3.count() - primary;
//@ subst: usize::min( =>> min_usize(
//@ spec:
    requires self.small()
    ensures r == self.room()
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn maintain_connections
//@ props: C18 C21
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ subst: HashSet::with_hasher(self.rng.clone().into()) =>> HashSet::new()
//@ subst: addrs.sample(self.config.preferred_services).or_else(|| { if negotiated < target { addrs.sample(self.config.required_services).or_else(|| addrs.sample(ServiceFlags::NONE)) } else { None } }) =>> { let ghost L0 = addrs.log(); let r0 = match addrs.sample(self.config.preferred_services) { Some(v) => Some(v), None => { proof { lemma_asks(O2, L0, addrs.log().last(), self.config.preferred_services, self.config.required_services, O.below()); } if negotiated < target { let ghost L1 = addrs.log(); match addrs.sample(self.config.required_services) { Some(v) => Some(v), None => { proof { lemma_asks(O2, L1, addrs.log().last(), self.config.preferred_services, self.config.required_services, O.below()); } addrs.sample(ServiceFlags::NONE) } } } else { None } } }; proof { lemma_round(O2, L0, addrs.log(), self.config.preferred_services, self.config.required_services, O.below()); lemma_gave(self.outbox.dls(), O.outbox.dls().len() as int, L0, addrs.log(), O2.len() as int); if r0 is Some { assert(addrs.log().last().1 == r0); assert(addrs.log()[addrs.log().len() - 1].1 == r0); } } r0 }
//@ subst: let negotiated = self.negotiated(Link::Outbound).count(); =>> let n3 = self.negotiated(Link::Outbound); let ghost N3 = n3@; proof { let ks = choose|ks: Seq<PeerId>| #[trigger] greets(self.peers@, negotiated_by(Link::Outbound), ks, N3); lemma_count(self.peers@, negotiated_by(Link::Outbound), ks); } let negotiated = n3.count();
//@ spec:
    requires old(self).wf(), old(self).small()
    ensures final(self).wf(), final(self).frame(*old(self)), final(self).grew(*old(self)), final(self).told(*old(self)),
        old(self).config.persistent@.len() > 0 ==> final(self).outbox == old(self).outbox && final(self).peers == old(self).peers,
        final(self).outbox.dls().len() - old(self).outbox.dls().len() <= old(self).room(),
        asks(old(addrs).log(), final(addrs).log(), old(self).config.preferred_services, old(self).config.required_services, old(self).below()),
        forall|i: int| old(self).outbox.dls().len() <= i < final(self).outbox.dls().len() ==> gave(final(addrs).log(), old(addrs).log().len() as int, #[trigger] final(self).outbox.dls()[i]),
//@ entry:
    let ghost O = *self; let ghost O2 = addrs.log(); broadcast use lemma_push; broadcast use lemma_push_dial;
    proof { assert(O2.take(O2.len() as int) =~= O2); assert(O.outbox.dls().take(O.outbox.dls().len() as int) =~= O.outbox.dls()); assert(self.grew(O)); assert(O.outbox.evs().take(O.outbox.evs().len() as int) =~= O.outbox.evs()); assert(self.told(O)); }
//@ loop 0:
    invariant self.wf(), self.frame(O), self.grew(O), self.told(O), delta == O.room(), self.outbox.dls().len() - O.outbox.dls().len() <= connecting@.len(), self.outbox.dls().len() - O.outbox.dls().len() <= delta,
        forall|k: PeerId| #[trigger] connecting@.contains(k) ==> self.peers@.contains_key(k), target == O.config.target_outbound_peers, negotiated == those(O.peers@, negotiated_by(Link::Outbound)).len(),
        asks(O2, addrs.log(), O.config.preferred_services, O.config.required_services, O.below()),
        forall|i: int| O.outbox.dls().len() <= i < self.outbox.dls().len() ==> gave(addrs.log(), O2.len() as int, #[trigger] self.outbox.dls()[i]),
//@ loop_start 0:
    broadcast use lemma_push; broadcast use lemma_push_dial;
    let ghost P = *self; let ghost CS = connecting@; broadcast use lemma_push_drop;
//@ before `if !self.is_connected(&sockaddr) && self.connect(&sockaddr)`:
    proof { if !P.peers@.contains_key(sockaddr) { assert(!connecting@.contains(sockaddr)); } }
//@ before `connecting.insert`:
    let ghost Q = *self;
    proof { assert(sock_of(addr) == Some(sockaddr)); assert(addrs.log()[addrs.log().len() - 1].1 is Some); assert(gave(addrs.log(), O2.len() as int, sockaddr)); if !P.peers@.contains_key(sockaddr) { P.lemma_grew1(O, *self, sockaddr); } }
//@ loop_end 0:
    proof { if self.outbox.evs() != P.outbox.evs() { assert(self.outbox.evs().drop_last() =~= P.outbox.evs()); } P.lemma_told(O, *self); }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn idle_peers
//@ props: C18
//@ sig: fn idle_peers(&self, now: LocalTime) -> (r: It<PeerId>)
//@ closure 0: |x: (&PeerId, &Peer)| -> (o: Option<PeerId>) ensures o is Some == stuck(now)(*x.1), o is Some ==> o->0 == *x.0 ;; let addr = x.0; let c = x.1;
//@ subst: self.peers.iter().filter_map( =>> let vs = self.peers.iter(); proof { VS = vs@; } vs.filter_map(
//@ spec:
    ensures picks(self.peers@, stuck(now), r@)
//@ entry:
    let ghost mut VS = Seq::<(&PeerId, &Peer)>::empty();
//@ exit:
    proof {
        let m = self.peers@; let q = stuck(now);
        let ks = choose|ks: Seq<PeerId>| #[trigger] lists(ks, m) && ks.len() == VS.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] VS[i]).0 == ks[i] && *VS[i].1 == m[ks[i]];
        lemma_all(m, ks);
        let idx = ret__.idx();
        assert forall|i: int| 0 <= i < idx.len() implies q(m[ks[#[trigger] idx[i]]]) by { let y = ret__@[i]; assert(*VS[idx[i]].1 == m[ks[idx[i]]]); }
        assert forall|j: int| 0 <= j < ks.len() && !idx.contains(j) implies !q(m[#[trigger] ks[j]]) by { assert(*VS[j].1 == m[ks[j]]); }
        let r = lemma_pick(m, any_peer(), q, ks, idx);
        assert forall|i: int| 0 <= i < r.len() implies ret__@[i] == r[i] by { let y = ret__@[i]; assert(r[i] == ks[idx[i]]); assert(*VS[idx[i]].0 == ks[idx[i]]); }
        assert(r =~= ret__@);
    }
//@@ end
}
pub open spec fn reasons(d: Seq<(PeerId, &'static str)>) -> Seq<(PeerId, DisconnectReason)> { d.map_values(|x: (PeerId, &'static str)| (x.0, DisconnectReason::PeerTimeout(x.1))) }
pub open spec fn has_key(d: Seq<(PeerId, &'static str)>, k: PeerId) -> bool { exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0 == k }
pub open spec fn unmet_peer() -> spec_fn(Peer) -> bool { |p: Peer| p is Connected && p->Connected_peer is None }
/// d lists peers of the map (one phase of the timeout): those among ks[..n] that are overdue
pub open spec fn phase<C: AdjustedClock>(m: PeerManager<C>, d0: Seq<(PeerId, &'static str)>, d: Seq<(PeerId, &'static str)>, ks: Seq<PeerId>, n: int) -> bool {
    &&& d0.len() <= d.len() && d.take(d0.len() as int) == d0
    &&& forall|i: int| d0.len() <= i < d.len() ==> ks.take(n).contains((#[trigger] d[i]).0) && m.overdue(m.peers@[d[i].0])
    &&& forall|i: int| 0 <= i < n && m.overdue(m.peers@[#[trigger] ks[i]]) ==> has_key(d, ks[i])
    &&& forall|i: int, j: int| d0.len() <= i < j < d.len() ==> (#[trigger] d[i]).0 != (#[trigger] d[j]).0
}
pub proof fn lemma_phase<C: AdjustedClock>(m: PeerManager<C>, d0: Seq<(PeerId, &'static str)>, d: Seq<(PeerId, &'static str)>, d1: Seq<(PeerId, &'static str)>, ks: Seq<PeerId>, n: int, s: &'static str)
    requires phase(m, d0, d, ks, n), 0 <= n < ks.len(), ks.no_duplicates(), d1 == (if m.overdue(m.peers@[ks[n]]) { d.push((ks[n], s)) } else { d })
    ensures phase(m, d0, d1, ks, n + 1)
{
    assert(ks.take(n + 1) =~= ks.take(n).push(ks[n]));
    assert forall|k: PeerId| ks.take(n).contains(k) implies #[trigger] ks.take(n + 1).contains(k) && k != ks[n] by { let i = choose|i: int| 0 <= i < n && ks.take(n)[i] == k; assert(ks.take(n + 1)[i] == k); assert(ks[i] == k); }
    assert(ks.take(n + 1)[n] == ks[n]);
    assert(d1.take(d0.len() as int) =~= d.take(d0.len() as int));
    assert forall|i: int| 0 <= i < n + 1 && m.overdue(m.peers@[#[trigger] ks[i]]) implies has_key(d1, ks[i]) by {
        if i < n { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]).0 == ks[i]; assert(d1[j].0 == ks[i]); } else { assert(d1[d.len() as int].0 == ks[n]); } }
    assert forall|i: int, j: int| d0.len() <= i < j < d1.len() implies (#[trigger] d1[i]).0 != (#[trigger] d1[j]).0 by { if j == d.len() { assert(ks.take(n).contains(d[i].0)); } else { assert(d[i].0 != d[j].0); } }
}
impl<C: AdjustedClock> PeerManager<C> {
    /// what is reported once the handshake is complete
    pub open spec fn report(a: PeerId, c: Connection, p: PeerInfo) -> Event {
        Event::PeerNegotiated { addr: a, link: c.link, services: p.services, persistent: p.persistent, user_agent: p.user_agent, receiver: p.receiver, height: p.height, version: p.version, relay: p.relay, wtxid_relay: p.wtxidrelay }
    }
    /// verack: completes the handshake after version, a fault afterwards, ignored before
    pub open spec fn verack_step(&self, o: Self, a: PeerId) -> bool {
        if o.peers@.contains_key(a) && greeted()(o.peers@[a]) {
            let c = o.peers@[a]->Connected_conn; let p = info(o.peers@[a]);
            if p.done() { self.clock == o.clock && exists|s: &'static str| #[trigger] self.dropped(o, a, DisconnectReason::PeerMisbehaving(s)) }
            else {
                &&& self.outbox.ios() == o.outbox.ios().push(Io::Event(Self::report(a, c, p)))
                &&& self.peers@ == o.peers@.insert(a, Peer::Connected { conn: c, peer: Some(PeerInfo { state: HandshakeState::ReceivedVerack { since: o.clock.now() }, ..p }) })
                &&& self.clock.samples() == o.clock.samples().push((a, p.time_offset)) && self.clock.now() == o.clock.now()
            }
        } else { self.outbox == o.outbox && self.peers@ == o.peers@ && self.clock == o.clock }
    }
    /// a reason to refuse a version message
    pub open spec fn trusts(&self, a: PeerId, msg: VersionMessage) -> bool { self.config.whitelist.trusts(ip_of(a), msg.user_agent) || local(ip_of(a)) }
    pub open spec fn start_of(msg: VersionMessage) -> Height { if msg.start_height < 0 { 0 } else { msg.start_height as Height } }
    pub open spec fn is_self(&self, nonce: u64) -> bool { exists|k: PeerId| #[trigger] self.peers@.contains_key(k) && self.peers@[k] is Connected && self.peers@[k]->Connected_conn.nonce == Some(nonce) }
    pub open spec fn refuses(&self, a: PeerId, msg: VersionMessage, height: Height, r: DisconnectReason) -> bool {
        let outbound = self.peers@[a]->Connected_conn.link is Outbound;
        match r {
            DisconnectReason::PeerProtocolVersion(v) => v == msg.version && v < 70012,
            DisconnectReason::PeerServices(s) => s == msg.services && outbound && !self.trusts(a, msg) && !has_services(s, self.config.required_services),
            DisconnectReason::PeerHeight(h) => h == Self::start_of(msg) && outbound && !self.trusts(a, msg) && height - h > 2016,
            DisconnectReason::SelfConnection => self.is_self(msg.nonce),
            DisconnectReason::ConnectionLimit => outbound && !has_services(msg.services, self.config.preferred_services) && those(self.peers@, negotiated_by(Link::Outbound)).len() >= self.config.target_outbound_peers,
            DisconnectReason::Other(_) => true,
            _ => false,
        }
    }
    pub open spec fn acceptable(&self, a: PeerId, msg: VersionMessage, height: Height) -> bool { forall|r: DisconnectReason| #[trigger] self.refuses(a, msg, height, r) ==> r is Other }
    /// what is remembered of a version message
    pub open spec fn info_of(&self, a: PeerId, msg: VersionMessage) -> PeerInfo {
        let d = msg.timestamp - (self.clock.now().ms() / 1000) as u64 as u32;
        PeerInfo { height: Self::start_of(msg), services: msg.services, user_agent: msg.user_agent, receiver: msg.receiver, relay: msg.relay, wtxidrelay: false, persistent: self.config.persistent@.contains(a),
            version: if self.config.protocol_version < msg.version { self.config.protocol_version } else { msg.version }, state: HandshakeState::ReceivedVersion { since: self.clock.now() },
            time_offset: if d < i64::MIN { i64::MIN } else { d as i64 } }
    }
    pub open spec fn unmet(&self, a: PeerId) -> bool { self.peers@.contains_key(a) && self.peers@[a] is Connected && self.peers@[a]->Connected_peer is None }
    /// version accepted: answered, and the handshake advances
    pub open spec fn accepted(&self, o: Self, a: PeerId, msg: VersionMessage, height: Height) -> bool {
        let c = o.peers@[a]->Connected_conn;
        &&& self.peers@ == o.peers@.insert(a, Peer::Connected { conn: c, peer: Some(o.info_of(a, msg)) })
        &&& exists|s: Seq<Io>, t: LocalDuration| t.ms() == 12000 && self.outbox.ios() == #[trigger] s.push(Io::Write(a, NetworkMessage::WtxidRelay)).push(Io::Write(a, NetworkMessage::Verack)).push(Io::Write(a, NetworkMessage::SendHeaders)).push(Io::SetTimer(t)) && (
            if c.link is Outbound { s == o.outbox.ios() } else { exists|v: VersionMessage, nonce: u64| #[trigger] o.ours(v, a, c.local_addr, nonce, height, o.clock.now()) && s == o.outbox.ios().push(Io::Write(a, NetworkMessage::Version(v))) })
    }
    /// a version message: the first of a connection is accepted or refused, others are ignored
    pub open spec fn version_step(&self, o: Self, a: PeerId, msg: VersionMessage, height: Height) -> bool {
        if o.unmet(a) { (o.acceptable(a, msg, height) && self.accepted(o, a, msg, height)) || exists|r: DisconnectReason| #[trigger] o.refuses(a, msg, height, r) && self.dropped(o, a, r) }
        else { self.outbox == o.outbox && self.peers@ == o.peers@ }
    }
    /// owes us its version or verack, or the connection, for too long
    pub open spec fn overdue(&self, p: Peer) -> bool {
        let now = self.clock.now();
        stuck(now)(p) || (p is Connected && match p->Connected_peer { None => since(now, p->Connected_conn.since) >= 12000, Some(i) => i.state is ReceivedVersion && since(now, i.state->ReceivedVersion_since) >= 12000 })
    }
    /// exactly the overdue peers were dropped, each once, and nothing else was done
    pub open spec fn pruned(&self, o: Self) -> bool {
        &&& *self == (PeerManager { peers: self.peers, outbox: self.outbox, ..o }) && self.peers@.dom() == o.peers@.dom()
        &&& forall|k: PeerId| #[trigger] o.peers@.contains_key(k) ==> self.peers@[k] == (if o.overdue(o.peers@[k]) { Peer::Disconnecting } else { o.peers@[k] })
        &&& self.outbox.evs() == o.outbox.evs() && self.outbox.wrs() == o.outbox.wrs() && self.outbox.dls() == o.outbox.dls()
        &&& exists|d: Seq<(PeerId, &'static str)>| #[trigger] o.late(d) && self.outbox.drs() == o.outbox.drs() + reasons(d)
    }
    pub proof fn lemma_late(&self, d1: Seq<(PeerId, &'static str)>, d2: Seq<(PeerId, &'static str)>, d: Seq<(PeerId, &'static str)>, k1: Seq<PeerId>, k2: Seq<PeerId>, k3: Seq<PeerId>)
        requires phase(*self, Seq::empty(), d1, k1, k1.len() as int), phase(*self, d1, d2, k2, k2.len() as int), phase(*self, d2, d, k3, k3.len() as int),
            picks(self.peers@, stuck(self.clock.now()), k1), picks(self.peers@, greeted(), k2), picks(self.peers@, unmet_peer(), k3)
        ensures self.late(d)
    {
        let m = self.peers@;
        assert(k1.take(k1.len() as int) =~= k1); assert(k2.take(k2.len() as int) =~= k2); assert(k3.take(k3.len() as int) =~= k3);
        assert forall|k: PeerId| #[trigger] k1.contains(k) implies m.contains_key(k) && m[k] is Connecting by { assert(k1.to_set().contains(k)); assert(those(m, stuck(self.clock.now())).contains(k)); }
        assert forall|k: PeerId| #[trigger] k2.contains(k) implies m.contains_key(k) && greeted()(m[k]) by { assert(k2.to_set().contains(k)); assert(those(m, greeted()).contains(k)); }
        assert forall|k: PeerId| #[trigger] k3.contains(k) implies m.contains_key(k) && unmet_peer()(m[k]) by { assert(k3.to_set().contains(k)); assert(those(m, unmet_peer()).contains(k)); }
        assert forall|i: int| 0 <= i < d1.len() implies #[trigger] d[i] == d1[i] && k1.contains(d[i].0) by { assert(d.take(d2.len() as int)[i] == d[i]); assert(d2.take(d1.len() as int)[i] == d2[i]); assert(k1.contains(d1[i].0)); }
        assert forall|i: int| d1.len() <= i < d2.len() implies #[trigger] d[i] == d2[i] && k2.contains(d[i].0) by { assert(d.take(d2.len() as int)[i] == d[i]); assert(k2.contains(d2[i].0)); }
        assert forall|i: int| d2.len() <= i < d.len() implies k3.contains((#[trigger] d[i]).0) by { }
        assert forall|i: int| 0 <= i < d.len() implies m.contains_key((#[trigger] d[i]).0) && self.overdue(m[d[i].0]) by {
            if i < d1.len() { assert(self.overdue(m[d1[i].0])); } else if i < d2.len() { assert(self.overdue(m[d2[i].0])); } }
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by {
            if j < d1.len() { assert(d1[i].0 != d1[j].0); } else if j < d2.len() && i >= d1.len() { assert(d2[i].0 != d2[j].0); } else if i >= d2.len() { } }
        assert forall|k: PeerId| #[trigger] m.contains_key(k) && self.overdue(m[k]) implies has_key(d, k) by {
            if m[k] is Connecting { assert(those(m, stuck(self.clock.now())).contains(k)); assert(k1.to_set().contains(k)); let x = choose|x: int| 0 <= x < k1.len() && k1[x] == k; assert(has_key(d1, k1[x])); let i = choose|i: int| 0 <= i < d1.len() && (#[trigger] d1[i]).0 == k; assert(d[i].0 == k); }
            else if greeted()(m[k]) { assert(those(m, greeted()).contains(k)); assert(k2.to_set().contains(k)); let x = choose|x: int| 0 <= x < k2.len() && k2[x] == k; assert(has_key(d2, k2[x])); let i = choose|i: int| 0 <= i < d2.len() && (#[trigger] d2[i]).0 == k; if i < d1.len() { assert(d[i].0 == k); } else { assert(d[i].0 == k); } }
            else { assert(those(m, unmet_peer()).contains(k)); assert(k3.to_set().contains(k)); let x = choose|x: int| 0 <= x < k3.len() && k3[x] == k; assert(has_key(d, k3[x])); }
        }
    }
    /// d: the overdue peers, each once
    pub open spec fn late(&self, d: Seq<(PeerId, &'static str)>) -> bool {
        &&& forall|i: int| 0 <= i < d.len() ==> self.peers@.contains_key((#[trigger] d[i]).0) && self.overdue(self.peers@[d[i].0])
        &&& forall|k: PeerId| #[trigger] self.peers@.contains_key(k) && self.overdue(self.peers@[k]) ==> has_key(d, k)
        &&& forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).0 != (#[trigger] d[j]).0
    }
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn persistent_disconnected
//@ props: C18
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ subst: self.disconnected.entry(*addr).or_default() =>> self.disconnected.entry_default(*addr, (None, 0))
//@ subst: 2u64.saturating_pow( =>> pow2_sat((
//@ subst: *attempts as u32 =>> *attempts as u32)
//@ spec:
    requires old(self).wf(), old(self).times(), local_time.ms() <= 0x1_0000_0000_0000_0000
    ensures final(self).wf(), *final(self) == (PeerManager { disconnected: final(self).disconnected, outbox: final(self).outbox, ..*old(self) }),
        final(self).retrying(*old(self), *addr, local_time)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn maintain_persistent
//@ props: C18
//@ attr: #[verifier::spinoff_prover]
//@ subst: for (addr, (retry_at, _)) in &mut self.disconnected { =>> let (vs, Ghost(ks)) = self.disconnected.iter_mut_vec(); let ghost VS = vs@; for (addr, e) in vs { let retry_at = &mut e.0;
//@ subst: let mut reconnect = Vec::new(); =>> let mut reconnect: Vec<PeerId> = Vec::new();
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), *final(self) == (PeerManager { disconnected: final(self).disconnected, peers: final(self).peers, outbox: final(self).outbox, ..*old(self) }), final(self).grew(*old(self)),
        final(self).retried(*old(self)), final(self).outbox.evs() == old(self).outbox.evs(),
        forall|i: int| old(self).outbox.dls().len() <= i < final(self).outbox.dls().len() ==> old(self).due(#[trigger] final(self).outbox.dls()[i]),
//@ entry:
    let ghost O = *self; broadcast use lemma_push; broadcast use lemma_push_dial;
//@ loop_before 0:
    let ghost mut B = Seq::<(Option<LocalTime>, usize)>::empty();
//@ loop 0 it=it:
    invariant
        it.seq() == VS, B.len() == it.index@, lists(ks, O.disconnected@), ks.len() == VS.len(), local_time == O.clock.now(),
        self.peers == O.peers, self.outbox == O.outbox, self.clock == O.clock, self.config == O.config, self.last_idle == O.last_idle, self.rng == O.rng, self.hooks == O.hooks,
        forall|i: int| 0 <= i < VS.len() ==> *(#[trigger] VS[i]).0 == ks[i],
        forall|i: int| 0 <= i < VS.len() ==> *(#[trigger] VS[i]).1 == O.disconnected@[ks[i]],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] B[i] == *final(VS[i].1),
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] B[i] == (if O.due(ks[i]) { (None, O.disconnected@[ks[i]].1) } else { O.disconnected@[ks[i]] }),
        forall|i: int| 0 <= i < it.index@ && O.due(ks[i]) ==> reconnect@.contains(#[trigger] ks[i]),
        forall|i: int| 0 <= i < reconnect@.len() ==> O.due(#[trigger] reconnect@[i]),
//@ loop_start 0:
    let ghost RC = reconnect@; let ghost n = it.index@;
    proof { assert(ks.to_set().contains(ks[n])); assert(*VS[n].1 == O.disconnected@[ks[n]] && *VS[n].0 == ks[n]); }
//@ loop_end 0:
    proof {
        if O.due(ks[n]) { assert(reconnect@ == RC.push(ks[n])); assert(reconnect@[RC.len() as int] == ks[n]); assert forall|i: int| 0 <= i < n && O.due(ks[i]) implies reconnect@.contains(#[trigger] ks[i]) by { let j = choose|j: int| 0 <= j < RC.len() && RC[j] == ks[i]; assert(reconnect@[j] == ks[i]); } }
        B = B.push(*e);
    }
//@ loop_after 0:
    let ghost M = *self;
    proof {
        assert forall|k: PeerId| #[trigger] O.disconnected@.contains_key(k) implies self.disconnected@[k] == (if O.due(k) { (None, O.disconnected@[k].1) } else { O.disconnected@[k] }) && (O.due(k) ==> reconnect@.contains(k)) by {
            assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(B[i] == *final(VS[i].1)); assert(*VS[i].0 == ks[i]); }
        assert(O.outbox.dls().take(O.outbox.dls().len() as int) =~= O.outbox.dls()); assert(self.grew(O));
    }
//@ loop 1 it=jt:
    invariant
        jt.seq() == R, self.wf(), *self == (PeerManager { peers: self.peers, outbox: self.outbox, ..M }), M == (PeerManager { disconnected: M.disconnected, ..O }), self.grew(O), self.outbox.evs() == O.outbox.evs(),
        forall|i: int| 0 <= i < R.len() ==> O.due(#[trigger] R[i]),
        forall|i: int| 0 <= i < jt.index@ ==> self.tried(#[trigger] R[i]),
        forall|i: int| O.outbox.dls().len() <= i < self.outbox.dls().len() ==> O.due(#[trigger] self.outbox.dls()[i]),
//@ loop_before 1:
    let ghost R = reconnect@;
//@ loop_start 1:
    let ghost P = *self; broadcast use lemma_push; broadcast use lemma_push_dial;
    proof { assert(addr == R[jt.index@]); }
//@ loop_end 1:
    proof { if !P.peers@.contains_key(addr) && self.peers@.contains_key(addr) { P.lemma_grew1(O, *self, addr); } }
//@ exit:
    proof { }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn version
//@ props: C18
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ subst: self.config.user_agent.to_owned() =>> to_owned(self.config.user_agent)
//@ spec:
    requires self.clock_ok(local_time)
    ensures self.ours(r, addr, local_addr, nonce, start_height, local_time)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn peer_connected
//@ props: C18
//@ attr: #[verifier::spinoff_prover]
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ subst: link.is_outbound().then_some(nonce) =>> (if link.is_outbound() { Some(nonce) } else { None })
//@ subst: if self.connected().filter(|c| c.link.is_inbound()).count() > self.config.max_inbound_peers =>> let n1 = self.connected(); let ghost N1 = n1@; let f1 = n1.filter(|c: &&Connection| -> (o: bool) ensures o == (c.link == Link::Inbound) { c.link.is_inbound() }); let ghost F1 = f1; proof { assert forall|i: int| 0 <= i < F1@.len() implies N1[#[trigger] F1.idx()[i]].link == Link::Inbound by { let y = F1@[i]; } self.lemma_by(N1, F1, Link::Inbound); } if f1.count() > self.config.max_inbound_peers
//@ spec:
    requires old(self).wf(), old(self).clock_ok(old(self).clock.now()), !(old(self).peers@.contains_key(addr) && old(self).peers@[addr] is Connected), link is Outbound ==> old(self).peers@.contains_key(addr) && old(self).peers@[addr] is Connecting
    ensures final(self).wf(), *final(self) == (PeerManager { disconnected: final(self).disconnected, peers: final(self).peers, outbox: final(self).outbox, ..*old(self) }),
        final(self).disconnected@ == old(self).disconnected@.remove(addr),
        final(self).outbox.evs() == old(self).outbox.evs().push(Event::PeerConnected { addr, local_addr, link }),
        final(self).outbox.dls() == old(self).outbox.dls(),
        exists|nonce: u64| final(self).welcomed(*old(self), addr, local_addr, link, height, #[trigger] conn_of(addr, local_addr, link, old(self).clock.now(), nonce)),
//@ entry:
    let ghost O = *self; broadcast use lemma_push; broadcast use lemma_push_dial;
    let ghost mut N0 = 0u64;
//@ after `let nonce = self.rng.u64(..);`:
    proof { N0 = nonce; }
//@ exit:
    proof {
        let c = conn_of(addr, local_addr, link, O.clock.now(), N0);
        let m = O.peers@.insert(addr, Peer::Connected { conn: c, peer: None });
        if link is Outbound { let v = self.outbox.wrs().last().1->Version_0; assert(self.outbox.wrs() == O.outbox.wrs().push((addr, NetworkMessage::Version(v)))); assert(O.ours(v, addr, local_addr, N0, height, O.clock.now())); }
        assert(self.welcomed(O, addr, local_addr, link, height, c));
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn peer_disconnected
//@ props: C18
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ sigsubst: network::Disconnect =>> Disconnect
//@ subst: network::Disconnect =>> Disconnect
//@ spec:
    requires old(self).wf(), old(self).small(), old(self).times(), old(self).peers@.contains_key(*addr)
    ensures final(self).wf(), *final(self) == (PeerManager { disconnected: final(self).disconnected, peers: final(self).peers, outbox: final(self).outbox, ..*old(self) }),
        exists|m: Self| #[trigger] m.left(*old(self), *addr, reason) && (if old(self).config.persistent@.contains(*addr) { final(self).retrying(m, *addr, old(self).clock.now()) && final(self).peers == m.peers }
            else { final(self).disconnected == m.disconnected && final(self).grew(m) && final(self).told(m) && final(self).outbox.dls().len() - m.outbox.dls().len() <= m.room() }),
//@ entry:
    broadcast use lemma_push; let ghost O = *self;
//@ after `self.peers.remove(addr);`:
    let ghost M = *self;
    proof { assert(M.left(O, *addr, reason)); vstd::set_lib::lemma_len_subset(M.peers@.dom(), O.peers@.dom()); assert(self.wf()) by { assert forall|k: PeerId| #[trigger] self.peers@.contains_key(k) && self.peers@[k] is Connected implies self.peers@[k]->Connected_conn.addr == k by { assert(O.peers@.contains_key(k)); } } }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn received_wtxidrelay
//@ props: C18
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).frame(*old(self)), final(self).wtxid_step(*old(self), *addr)
//@ entry:
    let ghost O = *self; let ghost a = *addr;
//@ exit:
    proof {
        if O.peers@.contains_key(a) && greeted()(O.peers@[a]) {
            if info(O.peers@[a]).done() { assert(self.peers@ =~= O.peers@.insert(a, Peer::Disconnecting)); assert(self.dropped(O, a, self.outbox.ios().last()->Disconnect_1)); }
        } else { assert(self.peers@ =~= O.peers@); }
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn received_verack
//@ props: C18
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), *final(self) == (PeerManager { peers: final(self).peers, outbox: final(self).outbox, clock: final(self).clock, ..*old(self) }), final(self).verack_step(*old(self), *addr)
//@ entry:
    let ghost O = *self; let ghost a = *addr;
//@ exit:
    proof {
        if O.peers@.contains_key(a) && greeted()(O.peers@[a]) {
            if info(O.peers@[a]).done() { assert(self.peers@ =~= O.peers@.insert(a, Peer::Disconnecting)); assert(self.dropped(O, a, self.outbox.ios().last()->Disconnect_1)); }
        } else { assert(self.peers@ =~= O.peers@); }
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn handle_version
//@ props: C18
//@ attr: #[verifier::spinoff_prover]
//@ subst: super::MIN_PROTOCOL_VERSION =>> MIN_PROTOCOL_VERSION
//@ subst: (*self.hooks.on_version)(*addr, msg) =>> self.hooks.on_version(*addr, msg)
//@ subst: Height::try_from(start_height).unwrap_or(0) =>> height_from(start_height)
//@ subst: u32::min( =>> min_u32(
//@ subst: conn.nonce == Some(nonce) =>> same_nonce(conn.nonce, Some(nonce))
//@ subst: for conn in self.connected() { =>> let cs = self.connected().vec(); let ghost CS = cs@; for conn in cs {
//@ subst: self.negotiated(Link::Outbound).count() >= target =>> ({ let n1 = self.negotiated(Link::Outbound); proof { let ks = choose|ks: Seq<PeerId>| #[trigger] greets(self.peers@, negotiated_by(Link::Outbound), ks, n1@); lemma_count(self.peers@, negotiated_by(Link::Outbound), ks); } n1.count() >= target })
//@ spec:
    requires old(self).wf(), old(self).clock_ok(old(self).clock.now())
    ensures final(self).wf(), final(self).frame(*old(self)),
        match r {
            Err(e) => old(self).unmet(*addr) && old(self).refuses(*addr, *msg, height, e) && final(self).peers@ == old(self).peers@ && final(self).outbox == old(self).outbox,
            Ok(_) => if old(self).unmet(*addr) { old(self).acceptable(*addr, *msg, height) && final(self).accepted(*old(self), *addr, *msg, height) } else { final(self).outbox == old(self).outbox && final(self).peers@ == old(self).peers@ },
        }
//@ entry:
    let ghost O = *self; let ghost a = *addr;
//@ loop 0 it=it:
    invariant *self == O, it.seq() == CS, exists|ks: Seq<PeerId>| #[trigger] links(self.peers@, linked(), ks, CS), forall|i: int| 0 <= i < it.index@ ==> (#[trigger] CS[i]).nonce != Some(nonce), nonce == msg.nonce,
        O.unmet(a), O.wf(), a == *addr,
//@ loop_start 0:
    let ghost n = it.index@;
    proof { let ks = choose|ks: Seq<PeerId>| #[trigger] links(self.peers@, linked(), ks, CS); assert(*conn == *CS[n]); assert(ks.to_set().contains(ks[n])); assert(those(self.peers@, linked()).contains(ks[n])); assert(*CS[n] == self.peers@[ks[n]]->Connected_conn); if conn.nonce == Some(nonce) { assert(self.peers@.contains_key(ks[n])); assert(self.is_self(nonce)); } }
//@ loop_after 0:
    proof {
        assert(!self.is_self(nonce)) by { if self.is_self(nonce) { let k = choose|k: PeerId| #[trigger] self.peers@.contains_key(k) && self.peers@[k] is Connected && self.peers@[k]->Connected_conn.nonce == Some(nonce);
            let ks = choose|ks: Seq<PeerId>| #[trigger] links(self.peers@, linked(), ks, CS); assert(those(self.peers@, linked()).contains(k)); assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(*CS[i] == self.peers@[ks[i]]->Connected_conn); } }
    }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn received_version
//@ props: C18
//@ spec:
    requires old(self).wf(), old(self).clock_ok(old(self).clock.now())
    ensures final(self).wf(), final(self).frame(*old(self)), final(self).version_step(*old(self), *addr, *msg, height)
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn received_event
//@ props: C18
//@ subst: message.as_ref() =>> &*message
//@ spec:
    requires old(self).wf(), old(self).clock_ok(old(self).clock.now())
    ensures final(self).wf(), *final(self) == (PeerManager { peers: final(self).peers, outbox: final(self).outbox, clock: final(self).clock, ..*old(self) }),
        match event {
            Event::PeerTimedOut { addr } => if old(self).peers@.contains_key(addr) && old(self).peers@[addr] is Connected { exists|s: &'static str| #[trigger] final(self).dropped(*old(self), addr, DisconnectReason::PeerTimeout(s)) } else { final(self).same(*old(self)) },
            Event::PeerMisbehaved { addr, reason } => if old(self).peers@.contains_key(addr) && old(self).peers@[addr] is Connected { final(self).dropped(*old(self), addr, DisconnectReason::PeerMisbehaving(reason)) } else { final(self).same(*old(self)) },
            Event::MessageReceived { from, message } => match *message {
                NetworkMessage::Version(msg) => final(self).version_step(*old(self), from, msg, (tree.bc().len() - 1) as Height),
                NetworkMessage::Verack => final(self).verack_step(*old(self), from),
                NetworkMessage::WtxidRelay => final(self).wtxid_step(*old(self), from),
                _ => final(self).same(*old(self)),
            },
            _ => final(self).same(*old(self)),
        }
//@ entry:
    let ghost O = *self; let ghost E = event; proof { tree.lemma_bc(); }
//@ exit:
    proof { match E { Event::PeerTimedOut { addr } => { if O.peers@.contains_key(addr) && O.peers@[addr] is Connected { assert(self.dropped(O, addr, self.outbox.ios().last()->Disconnect_1)); } }, _ => {} } }
//@@ end
//@@ fn p2p/src/fsm/peermgr.rs | impl PeerManager / fn timer_expired
//@ props: C18
//@ attr: #[verifier::spinoff_prover]
//@ subst: let mut timed_out = Vec::new(); =>> let mut timed_out: Vec<(PeerId, &'static str)> = Vec::new();
//@ subst: self.last_idle.unwrap_or_default() =>> (match self.last_idle { Some(t) => t, None => LocalTime { millis: 0 } })
//@ subst: for addr in self.idle_peers(local_time).collect::<Vec<_>>() { =>> let s1 = self.idle_peers(local_time).collect(); let ghost K1 = s1@; for addr in s1 {
//@ subst: for (peer, conn) in self.peers() { =>> let s2 = self.peers().vec(); let ghost S2 = s2@; for (peer, conn) in s2 {
//@ subst: for connected in self.peers.values().filter_map(|c| match c { Peer::Connected { conn, peer: None } => Some(conn), _ => None, }) { =>> let v3 = self.peers.values(); let ghost V3 = v3@; let f3 = v3.filter_map(|c: &Peer| -> (o: Option<&Connection>) ensures o is Some == unmet_peer()(*c), !(o is Some) || *(o->0) == c->Connected_conn { match c { Peer::Connected { conn, peer: None } => Some(conn), _ => None } }); let ghost F3 = f3; let s3 = f3.vec(); for connected in s3 {
//@ spec:
    requires old(self).wf(), old(self).small()
    ensures final(self).wf(), *final(self) == (PeerManager { last_idle: final(self).last_idle, disconnected: final(self).disconnected, peers: final(self).peers, outbox: final(self).outbox, ..*old(self) }),
        exists|m: Self, n: Self| #![trigger m.pruned(*old(self)), final(self).retried(n)] m.pruned(*old(self)) && n.grew(m) && final(self).retried(n) && final(self).grew(n) && n.disconnected == m.disconnected
            && n.outbox.dls().len() - m.outbox.dls().len() <= m.room() && n.config == m.config && n.clock == m.clock && final(self).outbox.evs() == n.outbox.evs() && n.told(m)
            && forall|i: int| n.outbox.dls().len() <= i < final(self).outbox.dls().len() ==> n.due(#[trigger] final(self).outbox.dls()[i]),
//@ entry:
    let ghost O = *self; broadcast use lemma_push; broadcast use lemma_push_dial;
    let ghost mut D1 = Seq::<(PeerId, &'static str)>::empty(); let ghost mut D2 = Seq::<(PeerId, &'static str)>::empty();
//@ loop_before 0:
    proof { assert(timed_out@ =~= D1); assert(D1.take(0) =~= D1); assert(phase(O, D1, timed_out@, K1, 0)); }
//@ loop 0 it=it:
    invariant *self == O, it.seq() == K1, picks(O.peers@, stuck(O.clock.now()), K1), phase(O, Seq::<(PeerId, &'static str)>::empty(), timed_out@, K1, it.index@ as int),
//@ loop_start 0:
    let ghost d = timed_out@; let ghost n = it.index@ as int;
    proof { assert(addr == K1[n]); assert(K1.to_set().contains(K1[n])); assert(those(O.peers@, stuck(O.clock.now())).contains(K1[n])); }
//@ loop_end 0:
    proof { lemma_phase(O, Seq::<(PeerId, &'static str)>::empty(), d, timed_out@, K1, n, "connection"); }
//@ loop_before 1:
    proof { D1 = timed_out@; }
    let ghost K2 = choose|ks: Seq<PeerId>| #[trigger] greets(O.peers@, greeted(), ks, S2);
    proof { assert(D1.take(D1.len() as int) =~= D1); assert(phase(O, D1, timed_out@, K2, 0)); }
//@ loop 1 it=it:
    invariant *self == O, O.wf(), it.seq() == S2, local_time == O.clock.now(), greets(O.peers@, greeted(), K2, S2), phase(O, D1, timed_out@, K2, it.index@ as int),
//@ loop_start 1:
    let ghost d = timed_out@; let ghost n = it.index@ as int;
    proof { assert((peer, conn) == S2[n]); assert(K2.to_set().contains(K2[n])); assert(those(O.peers@, greeted()).contains(K2[n])); assert(O.peers@.contains_key(K2[n])); assert(conn.addr == K2[n]); }
//@ loop_end 1:
    proof { lemma_phase(O, D1, d, timed_out@, K2, n, "handshake"); }
//@ loop_before 2:
    let ghost S3 = s3@;
    proof {
        D2 = timed_out@;
        assert forall|i: int| 0 <= i < F3.idx().len() implies unmet_peer()(*V3[#[trigger] F3.idx()[i]]) by { assert(*(F3@[i]) == V3[F3.idx()[i]]->Connected_conn); }
    }
    let ghost K3 = lemma_sel(O.peers@, V3, unmet_peer(), F3.idx());
    proof {
        assert(links(O.peers@, unmet_peer(), K3, S3)) by { assert forall|i: int| 0 <= i < K3.len() implies *(#[trigger] S3[i]) == O.peers@[K3[i]]->Connected_conn by { assert(O.peers@[K3[i]] == *V3[F3.idx()[i]]); } }
        assert(D2.take(D2.len() as int) =~= D2); assert(phase(O, D2, timed_out@, K3, 0));
    }
//@ loop 2 it=it:
    invariant *self == O, O.wf(), it.seq() == S3, local_time == O.clock.now(), links(O.peers@, unmet_peer(), K3, S3), phase(O, D2, timed_out@, K3, it.index@ as int),
//@ loop_start 2:
    let ghost d = timed_out@; let ghost n = it.index@ as int;
    proof { assert(*connected == *S3[n]); assert(K3.to_set().contains(K3[n])); assert(those(O.peers@, unmet_peer()).contains(K3[n])); assert(O.peers@.contains_key(K3[n])); assert(connected.addr == K3[n]); }
//@ loop_end 2:
    proof { lemma_phase(O, D2, d, timed_out@, K3, n, "handshake"); }
//@ loop_before 3:
    let ghost D = timed_out@;
    proof { O.lemma_late(D1, D2, D, K1, K2, K3); assert(D.take(0) =~= Seq::empty()); assert(reasons(D.take(0)) =~= Seq::empty()); assert(O.outbox.drs() + reasons(D.take(0)) =~= O.outbox.drs()); assert(!exists|k: PeerId| has_key(D.take(0), k)); }
//@ loop 3 it=it:
    invariant it.seq() == D, O.late(D), O.wf(), self.wf(), *self == (PeerManager { peers: self.peers, outbox: self.outbox, ..O }), self.peers@.dom() == O.peers@.dom(),
        forall|k: PeerId| #[trigger] O.peers@.contains_key(k) ==> self.peers@[k] == (if has_key(D.take(it.index@ as int), k) { Peer::Disconnecting } else { O.peers@[k] }),
        self.outbox.evs() == O.outbox.evs() && self.outbox.wrs() == O.outbox.wrs() && self.outbox.dls() == O.outbox.dls(), self.outbox.drs() == O.outbox.drs() + reasons(D.take(it.index@ as int)),
//@ loop_start 3:
    let ghost n = it.index@ as int; let ghost P = *self; broadcast use lemma_push; broadcast use lemma_push_dial;
    proof { assert((addr, reason) == D[n]); }
//@ loop_end 3:
    proof {
        assert(D.take(n + 1) =~= D.take(n).push(D[n]));
        assert(reasons(D.take(n + 1)) =~= reasons(D.take(n)).push((addr, DisconnectReason::PeerTimeout(reason))));
        assert(self.outbox.drs() =~= O.outbox.drs() + reasons(D.take(n + 1)));
        assert(self.peers@.dom() =~= O.peers@.dom());
        assert forall|k: PeerId| #[trigger] O.peers@.contains_key(k) implies self.peers@[k] == (if has_key(D.take(n + 1), k) { Peer::Disconnecting } else { O.peers@[k] }) by {
            if has_key(D.take(n), k) { let i = choose|i: int| 0 <= i < D.take(n).len() && (#[trigger] D.take(n)[i]).0 == k; assert(D.take(n + 1)[i].0 == k); }
            if k == addr { assert(D.take(n + 1)[n].0 == k); }
            if has_key(D.take(n + 1), k) && k != addr { let i = choose|i: int| 0 <= i < D.take(n + 1).len() && (#[trigger] D.take(n + 1)[i]).0 == k; assert(D.take(n)[i].0 == k); }
        }
    }
//@ loop_after 3:
    let ghost M = *self;
    proof {
        assert(D.take(D.len() as int) =~= D);
        assert forall|k: PeerId| #[trigger] O.peers@.contains_key(k) implies self.peers@[k] == (if O.overdue(O.peers@[k]) { Peer::Disconnecting } else { O.peers@[k] }) by { if has_key(D, k) { let i = choose|i: int| 0 <= i < D.len() && (#[trigger] D[i]).0 == k; } }
        assert(M.pruned(O));
        assert(M.outbox.dls().take(M.outbox.dls().len() as int) =~= M.outbox.dls()); assert(M.grew(M)); assert(M.outbox.evs().take(M.outbox.evs().len() as int) =~= M.outbox.evs()); assert(M.told(M));
    }
//@ before `self.maintain_persistent`:
    let ghost N = *self;
    proof { assert(N.grew(M)); assert(N.told(M)); }
//@@ end
}
} // verus!
fn main() {}
