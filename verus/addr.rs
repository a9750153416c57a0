// p2p/src/fsm/addrmgr.rs: the address book
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub type BlockTime = u32;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
//@@ include shim_keys.rs
//@@ include shim_it.rs
impl<T> HashSet<T> {
    /// `iter()`, materialised: each member once
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<&T>)
        ensures exists|s: Seq<T>| #[trigger] members(s, self@) && s.len() == r@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] r@[i]) == s[i]
    { unimplemented!() }
}
/// the members of a set, each once
pub open spec fn members<T>(s: Seq<T>, m: Set<T>) -> bool { s.no_duplicates() && s.to_set() == m && s.len() == m.len() }
impl<T> It<T> {
    /// `nth`
    #[verifier::external_body]
    pub fn nth(self, n: usize) -> (r: Option<T>) ensures r == (if n < self@.len() { Some(self@[n as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((self@[i],))
        ensures r ==> exists|i: int| 0 <= i < self@.len() && f.ensures((#[trigger] self@[i],), true), !r ==> forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false)
    { unimplemented!() }
}
impl<'a, T: Copy> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
impl<K, V> HashMap<K, HashSet<V>> {
    /// `entry(k).or_insert_with(empty)`
    #[verifier::external_body]
    pub fn entry_set(&mut self, k: K) -> (r: &mut HashSet<V>)
        ensures r@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { Set::<V>::empty() }), final(self)@ == old(self)@.insert(k, *final(r))
    { unimplemented!() }
}
}
use dep::*;
//@@ include shim_time.rs
pub struct BlockFilter {}
#[derive(Copy, Clone)]
pub struct FilterHash { pub x: u64 }
#[derive(Copy, Clone)]
pub struct FilterHeader { pub x: u64 }
//@@ include shim_fsm.rs
//@@ include shim_out.rs
// ---- assumed: random choices are any choice ----
pub mod fastrand {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Rng { x: u64 }
    impl Rng {
        #[verifier::external_body]
        pub fn usize(&self, r: std::ops::RangeTo<usize>) -> (n: usize) requires r.end > 0 ensures n < r.end { unimplemented!() }
        #[verifier::external_body]
        pub fn shuffle<T>(&self, v: &mut Vec<T>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(),
            forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]), forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@.contains(#[trigger] old(v)@[i]) { unimplemented!() }
        #[verifier::external_body]
        pub fn clone(&self) -> Rng { unimplemented!() }
    }
}
// ---- assumed: std::net ----
#[derive(Copy, Clone)]
pub struct Ipv4Addr { pub o: [u8; 4] }
#[derive(Copy, Clone)]
pub struct Ipv6Addr { pub s: [u16; 8] }
#[derive(Copy, Clone)]
pub enum IpAddr { V4(Ipv4Addr), V6(Ipv6Addr) }
impl vstd::std_specs::cmp::PartialEqSpecImpl for IpAddr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &IpAddr) -> bool { *self == *o }
}
impl PartialEq for IpAddr { #[verifier::external_body] fn eq(&self, o: &IpAddr) -> bool { unimplemented!() } }
impl Ipv4Addr {
    pub open spec fn num(&self) -> int { self.o[0] * 0x1000000 + self.o[1] * 0x10000 + self.o[2] * 0x100 + self.o[3] }
    pub open spec fn private(&self) -> bool { self.o[0] == 10 || (self.o[0] == 172 && 16 <= self.o[1] <= 31) || (self.o[0] == 192 && self.o[1] == 168) }
    pub open spec fn link_local(&self) -> bool { self.o[0] == 169 && self.o[1] == 254 }
    pub open spec fn broadcast(&self) -> bool { self.o[0] == 255 && self.o[1] == 255 && self.o[2] == 255 && self.o[3] == 255 }
    pub open spec fn documentation(&self) -> bool { (self.o[0] == 192 && self.o[1] == 0 && self.o[2] == 2) || (self.o[0] == 198 && self.o[1] == 51 && self.o[2] == 100) || (self.o[0] == 203 && self.o[1] == 0 && self.o[2] == 113) }
    #[verifier::external_body]
    pub fn octets(&self) -> (r: [u8; 4]) ensures r == self.o { unimplemented!() }
    #[verifier::external_body]
    pub fn to_u32(self) -> (r: u32) ensures r == self.num() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_private(&self) -> (r: bool) ensures r == self.private() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_loopback(&self) -> (r: bool) ensures r == (self.o[0] == 127) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_link_local(&self) -> (r: bool) ensures r == self.link_local() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_broadcast(&self) -> (r: bool) ensures r == self.broadcast() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_documentation(&self) -> (r: bool) ensures r == self.documentation() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_unspecified(&self) -> (r: bool) ensures r == (self.num() == 0) { unimplemented!() }
}
impl Ipv6Addr { #[verifier::external_body] pub fn segments(&self) -> (r: [u16; 8]) ensures r == self.s { unimplemented!() } }
pub mod net { pub use super::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr}; }
pub uninterp spec fn ip_of(a: SocketAddr) -> IpAddr;
impl SocketAddr { #[verifier::external_body] pub fn ip(&self) -> (r: IpAddr) ensures r == ip_of(*self) { unimplemented!() } }
#[derive(Copy, Clone)]
pub struct Domain { pub x: u8 }
pub uninterp spec fn domain_of(a: SocketAddr) -> Domain;
impl Domain { #[verifier::external_body] pub fn for_address(a: &SocketAddr) -> (r: Domain) ensures r == domain_of(*a) { unimplemented!() } }
/// the address proper (none for Tor)
pub uninterp spec fn sock(a: Address) -> Option<SocketAddr>;
impl Address {
    #[verifier::external_body]
    pub fn socket_addr(&self) -> (r: Result<SocketAddr, IoError>) ensures (match r { Ok(a) => sock(*self) == Some(a), Err(_) => sock(*self) is None }) { unimplemented!() }
}
impl ServiceFlags { pub const GETUTXO: ServiceFlags = ServiceFlags { x: 2 }; pub const BLOOM: ServiceFlags = ServiceFlags { x: 4 }; }
impl LocalTime {
    pub open spec fn secs(&self) -> u32 { (self.ms() / 1000) as u64 as u32 }
    #[verifier::external_body]
    pub fn block_time(&self) -> (r: u32) ensures r == self.secs() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_block_time(t: u32) -> (r: LocalTime) ensures r.ms() == t * 1000 { unimplemented!() }
}
/// `LocalTime::from_block_time`
pub open spec fn at_secs(t: u32) -> LocalTime { LocalTime { millis: (t * 1000) as u128 } }
/// `Option::unwrap_or_default`
pub fn or_zero(t: Option<LocalTime>) -> (r: LocalTime) ensures r.ms() == since0(t) { match t { Some(t) => t, None => LocalTime { millis: 0 } } }
pub open spec fn since0(t: Option<LocalTime>) -> int { match t { Some(t) => t.ms(), None => 0 } }
/// `t.map(|t| t.block_time()).unwrap_or_default()`
pub fn secs_or_zero(t: Option<LocalTime>) -> (r: u32) ensures r == secs0(t) { match t { Some(t) => t.block_time(), None => 0 } }
pub open spec fn secs0(t: Option<LocalTime>) -> u32 { match t { Some(t) => t.secs(), None => 0 } }
/// `==` on sources
pub fn is_imported(s: Source) -> (r: bool) ensures r == (s is Imported) { match s { Source::Imported => true, _ => false } }
pub trait VecC<T> { spec fn sqc(&self) -> Seq<T>; fn contains(&self, t: &T) -> (r: bool) ensures r == self.sqc().contains(*t); }
impl<T> VecC<T> for Vec<T> { open spec fn sqc(&self) -> Seq<T> { self@ } #[verifier::external_body] fn contains(&self, t: &T) -> (r: bool) { unimplemented!() } }
//@@ const p2p/src/fsm/addrmgr.rs | const REQUEST_TIMEOUT
//@ spec: ensures REQUEST_TIMEOUT.ms() == 60000
//@@ end
//@@ const p2p/src/fsm/addrmgr.rs | const IDLE_TIMEOUT
//@ spec: ensures IDLE_TIMEOUT.ms() == 60000
//@@ end
//@@ const p2p/src/fsm/addrmgr.rs | const SAMPLE_TIMEOUT
//@ spec: ensures SAMPLE_TIMEOUT.ms() == 180000
//@@ end
//@@ const p2p/src/fsm/addrmgr.rs | const MAX_ADDR_ADDRESSES
//@@ end
//@@ const p2p/src/fsm/addrmgr.rs | const MAX_RANGE_SIZE
//@@ end
//@@ struct common/src/p2p/peer.rs | struct KnownAddress
//@@ end
impl Copy for Source {}
impl Clone for Source { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl KnownAddress {
//@@ fn common/src/p2p/peer.rs | impl KnownAddress / fn new
//@ props: C21
//@ spec:
    ensures r == (KnownAddress { addr, source, last_success: None, last_sampled: None, last_attempt: None, last_active })
//@@ end
}
/// where addresses are kept: a map
pub trait Store: Sized {
    spec fn book(&self) -> Map<IpAddr, KnownAddress>;
    /// how often it was written to disk
    spec fn saves(&self) -> nat;
    fn get(&self, ip: &IpAddr) -> (r: Option<&KnownAddress>)
        ensures r.is_some() == self.book().contains_key(*ip), r.is_some() ==> *r.unwrap() == self.book()[*ip];
    fn get_mut(&mut self, ip: &IpAddr) -> (r: Option<&mut KnownAddress>)
        ensures match r {
            Some(v) => old(self).book().contains_key(*ip) && *v == old(self).book()[*ip] && final(self).book() == old(self).book().insert(*ip, *final(v)),
            None => !old(self).book().contains_key(*ip) && final(self).book() == old(self).book() };
    fn insert(&mut self, ip: IpAddr, ka: KnownAddress) -> (r: bool)
        ensures r == !old(self).book().contains_key(ip), final(self).book() == (if r { old(self).book().insert(ip, ka) } else { old(self).book() });
    fn remove(&mut self, ip: &IpAddr) -> (r: Option<KnownAddress>)
        ensures final(self).book() == old(self).book().remove(*ip);
    fn iter(&self) -> (r: It<(&IpAddr, &KnownAddress)>)
        ensures exists|ks: Seq<IpAddr>| #[trigger] lists(ks, self.book()) && ks.len() == r@.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] r@[i]).0 == ks[i] && *r@[i].1 == self.book()[ks[i]];
    fn len(&self) -> (r: usize) ensures r == self.book().dom().len();
    fn is_empty(&self) -> (r: bool) ensures r == (self.book() == Map::<IpAddr, KnownAddress>::empty());
    fn flush(&mut self) -> (r: Result<(), IoError>) ensures final(self).book() == old(self).book(), final(self).saves() == old(self).saves() + 1;
}
//@@ struct p2p/src/fsm/addrmgr.rs | struct Config
//@@ end
//@@ struct p2p/src/fsm/addrmgr.rs | struct AddressManager
//@@ end
// ---- which addresses are worth keeping ----
pub open spec fn v4_routable(a: Ipv4Addr) -> bool {
    a.num() == 0xc0000009 || a.num() == 0xc000000a || !(a.private() || a.o[0] == 127 || a.link_local() || a.broadcast() || a.documentation() || a.o[0] == 0)
}
pub open spec fn routable(a: IpAddr) -> bool { match a { IpAddr::V4(a) => v4_routable(a), IpAddr::V6(_) => true } }
pub open spec fn local(a: IpAddr) -> bool { match a { IpAddr::V4(a) => a.private() || a.o[0] == 127 || a.link_local() || a.num() == 0, IpAddr::V6(_) => false } }
/// the range an address belongs to
pub open spec fn range_of(a: IpAddr) -> u8 {
    match a { IpAddr::V4(a) => ((a.o[0] * 256 + a.o[1]) % 255) as u8, IpAddr::V6(a) => ((a.s[0] * 65536 + a.s[1]) % 255) as u8 }
}
//@@ fn p2p/src/fsm/addrmgr.rs | fn is_routable
//@ props: C21
//@ spec:
    ensures r == routable(*addr)
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | fn is_local
//@ props: C21
//@ spec:
    ensures r == local(*addr)
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | fn addr_key
//@ props: C21
//@ spec:
    ensures r == range_of(*ip)
//@ after `(octets[0] as u16) << 8 | octets[1] as u16;`:
    proof { let a = octets[0]; let b = octets[1]; assert((a as u16) << 8 | b as u16 == a * 256 + b) by (bit_vector); }
//@ after `(segments[0] as u32) << 16 | segments[1] as u32;`:
    proof { let a = segments[0]; let b = segments[1]; assert((a as u32) << 16 | b as u32 == a * 65536 + b) by (bit_vector); }
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | fn ipv4_is_routable
//@ props: C21
//@ subst: u32::from(*addr) =>> (*addr).to_u32()
//@ spec:
    ensures r == v4_routable(*addr)
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | fn ipv6_is_routable
//@ props: C21
//@ spec:
    ensures r
//@@ end
/// a request to connect that led nowhere
pub open spec fn failed(ka: KnownAddress) -> bool { ka.last_attempt is Some && ka.last_success is None }
/// handed out in the last three minutes
pub open spec fn fresh(ka: KnownAddress, time: LocalTime) -> bool { time.ms() - since0(ka.last_sampled) < 180000 }
impl<P: Store, C> AddressManager<P, C> {
    pub open spec fn ka(&self) -> Map<IpAddr, KnownAddress> { self.peers.book() }
    pub open spec fn linked(&self, ip: IpAddr) -> bool { exists|a: SocketAddr| #[trigger] self.connected@.contains(a) && ip_of(a) == ip }
    /// the ranges list exactly the addresses of a set, at most 256 in each
    pub open spec fn ranges(&self, s: Set<IpAddr>) -> bool {
        &&& forall|k: u8, ip: IpAddr| #![trigger self.address_ranges@[k]@.contains(ip)] self.address_ranges@.contains_key(k) && self.address_ranges@[k]@.contains(ip) ==> s.contains(ip) && range_of(ip) == k
        &&& forall|k: u8| #[trigger] self.address_ranges@.contains_key(k) ==> 0 < self.address_ranges@[k]@.len() <= 256
        &&& forall|ip: IpAddr| #[trigger] s.contains(ip) ==> self.address_ranges@.contains_key(range_of(ip)) && self.address_ranges@[range_of(ip)]@.contains(ip)
    }
    pub open spec fn wf(&self) -> bool {
        &&& self.ranges(self.ka().dom())
        &&& forall|ip: IpAddr| #[trigger] self.bans@.contains(ip) ==> !self.ka().contains_key(ip)
    }
    /// what a scan of the connections tells
    pub proof fn lemma_linked(&self, s: Seq<&SocketAddr>, ip: IpAddr)
        requires exists|m: Seq<SocketAddr>| #[trigger] members(m, self.connected@) && m.len() == s.len() && forall|i: int| 0 <= i < m.len() ==> *(#[trigger] s[i]) == m[i]
        ensures self.linked(ip) == exists|i: int| 0 <= i < s.len() && ip_of(*#[trigger] s[i]) == ip
    {
        let m = choose|m: Seq<SocketAddr>| #[trigger] members(m, self.connected@) && m.len() == s.len() && forall|i: int| 0 <= i < m.len() ==> *(#[trigger] s[i]) == m[i];
        if self.linked(ip) { let a = choose|a: SocketAddr| #[trigger] self.connected@.contains(a) && ip_of(a) == ip; assert(m.to_set().contains(a)); let i = choose|i: int| 0 <= i < m.len() && m[i] == a; assert(*s[i] == m[i]); }
        if exists|i: int| 0 <= i < s.len() && ip_of(*#[trigger] s[i]) == ip { let i = choose|i: int| 0 <= i < s.len() && ip_of(*#[trigger] s[i]) == ip; assert(m.to_set().contains(m[i])); assert(self.connected@.contains(*s[i])); }
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn is_connected
//@ props: C21
//@ subst: self.connected.iter().any( =>> let it = self.connected.iter(); proof { self.lemma_linked(it@, *ip); } it.any(
//@ closure 0: |addr: &SocketAddr| -> (o: bool) ensures o == (ip_of(*addr) == *ip) ;;
//@ spec:
    ensures r == self.linked(*ip)
//@@ end
    /// worth handing out
    pub open spec fn unused(&self, ip: IpAddr, time: LocalTime) -> bool { !failed(self.ka()[ip]) && !fresh(self.ka()[ip], time) && !self.linked(ip) }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn is_exhausted
//@ props: C21
//@ subst: in self.peers.iter() =>> in ITS
//@ subst: ka.last_sampled.unwrap_or_default() =>> or_zero(ka.last_sampled)
//@ spec:
    requires self.last_idle is Some
    ensures r == forall|ip: IpAddr| #[trigger] self.ka().contains_key(ip) ==> !self.unused(ip, self.last_idle->0)
//@ loop_before 0:
    let ITX = self.peers.iter(); let ghost L = ITX@; let ITS = ITX.vec();
    let ghost KS = choose|ks: Seq<IpAddr>| #[trigger] lists(ks, self.ka()) && ks.len() == L.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] L[i]).0 == ks[i] && *L[i].1 == self.ka()[ks[i]];
//@ loop 0 it=it:
    invariant it.seq() == L, lists(KS, self.ka()), KS.len() == L.len(), self.last_idle == Some(time),
        forall|i: int| 0 <= i < KS.len() ==> *(#[trigger] L[i]).0 == KS[i] && *L[i].1 == self.ka()[KS[i]],
        forall|i: int| 0 <= i < it.index@ ==> !self.unused(#[trigger] KS[i], time),
//@ loop_start 0:
    proof { assert(KS.to_set().contains(KS[it.index@])); }
//@ loop_after 0:
    proof { assert forall|ip: IpAddr| #[trigger] self.ka().contains_key(ip) implies !self.unused(ip, time) by { assert(KS.to_set().contains(ip)); let i = choose|i: int| 0 <= i < KS.len() && KS[i] == ip; } }
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn len
//@ props: C21
//@ spec:
    ensures r == self.ka().dom().len()
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn is_empty
//@ props: C21
//@ spec:
    ensures r == (self.ka() == Map::<IpAddr, KnownAddress>::empty() || self.address_ranges@ == Map::<u8, HashSet<IpAddr>>::empty())
//@@ end
}
impl<P: Store, C: Clock> AddressManager<P, C> {
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn ban
//@ props: C21
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).bans@ == old(self).bans@.insert(*addr), final(self).ka() == old(self).ka().remove(*addr),
        *final(self) == (AddressManager { peers: final(self).peers, bans: final(self).bans, address_ranges: final(self).address_ranges, ..*old(self) })
//@ entry:
    let ghost O = *self;
//@ after `range.remove(addr);`: let ghost R = range@;
//@ before `return true;`:
    proof { assert(R == O.address_ranges@[key]@.remove(*addr)); if R.len() == 0 { assert(R =~= Set::<IpAddr>::empty()); } }
    proof {
        assert(self.ka() =~= O.ka().remove(*addr));
        assert forall|k: u8, ip: IpAddr| #![trigger self.address_ranges@[k]@.contains(ip)] self.address_ranges@.contains_key(k) && self.address_ranges@[k]@.contains(ip) implies self.ka().contains_key(ip) && range_of(ip) == k by { assert(O.address_ranges@[k]@.contains(ip)); }
        assert forall|k: u8| #[trigger] self.address_ranges@.contains_key(k) implies 0 < self.address_ranges@[k]@.len() <= 256 by { assert(O.address_ranges@.contains_key(k)); vstd::set_lib::lemma_len_subset(self.address_ranges@[k]@, O.address_ranges@[k]@); }
        assert forall|ip: IpAddr| #[trigger] self.ka().dom().contains(ip) implies self.address_ranges@.contains_key(range_of(ip)) && self.address_ranges@[range_of(ip)]@.contains(ip) by { assert(O.ka().dom().contains(ip)); assert(O.address_ranges@[range_of(ip)]@.contains(ip)); if range_of(ip) == key { assert(R.contains(ip)); } }
    }
//@ exit: proof { assert(!O.address_ranges@.contains_key(range_of(*addr))); assert(!O.ka().dom().contains(*addr)); assert(O.ka().remove(*addr) =~= O.ka()); }
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn get_addresses
//@ props: C21
//@ subst: in &self.sources =>> in SRC
//@ spec:
    ensures *final(self) == (AddressManager { outbox: final(self).outbox, ..*old(self) }),
        exists|l: Seq<SocketAddr>| #[trigger] members(l, old(self).sources@) && final(self).outbox.ios() == old(self).outbox.ios() + asked(l)
//@ loop_before 0:
    let ghost O = *self; let SRX = self.sources.iter(); let ghost L = SRX@; let SRC = SRX.vec();
    let ghost M = choose|m: Seq<SocketAddr>| #[trigger] members(m, self.sources@) && m.len() == L.len() && forall|i: int| 0 <= i < m.len() ==> *(#[trigger] L[i]) == m[i];
    proof { assert(O.outbox.ios() + asked(M.take(0)) =~= O.outbox.ios()); }
//@ loop 0 it=it:
    invariant it.seq() == L, L.len() == M.len(), forall|i: int| 0 <= i < M.len() ==> *(#[trigger] L[i]) == M[i], *self == (AddressManager { outbox: self.outbox, ..O }), self.outbox.ios() == O.outbox.ios() + asked(M.take(it.index@ as int))
//@ loop_end 0:
    proof { let k = it.index@ as int; assert(asked(M.take(k + 1)) =~= asked(M.take(k)).push(Io::Write(M[k], NetworkMessage::GetAddr))); assert(O.outbox.ios() + asked(M.take(k)).push(Io::Write(M[k], NetworkMessage::GetAddr)) =~= (O.outbox.ios() + asked(M.take(k))).push(Io::Write(M[k], NetworkMessage::GetAddr))); }
//@ loop_after 0:
    proof { assert(M.take(M.len() as int) =~= M); }
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn peer_attempted
//@ props: C21
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), *final(self) == (AddressManager { peers: final(self).peers, ..*old(self) }),
        final(self).ka() == touch(old(self).ka(), ip_of(*addr), |k: KnownAddress| KnownAddress { last_attempt: Some(old(self).clock.now()), ..k })
//@ exit: proof { assert(self.ka() =~= touch(old(self).ka(), ip_of(*addr), |k: KnownAddress| KnownAddress { last_attempt: Some(old(self).clock.now()), ..k })); assert(self.ka().dom() =~= old(self).ka().dom()); }
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn peer_connected
//@ props: C21
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), *final(self) == (AddressManager { connected: final(self).connected, ..*old(self) }),
        final(self).connected@ == (if routable(ip_of(*addr)) && !local(ip_of(*addr)) { old(self).connected@.insert(*addr) } else { old(self).connected@ })
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn peer_negotiated
//@ props: C21
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).negotiated(*old(self), *addr, services, link)
//@ exit: proof { assert(self.ka() =~= touch(old(self).ka(), ip_of(*addr), |k: KnownAddress| KnownAddress { addr: Address { services, ..k.addr }, last_success: Some(old(self).clock.now()), last_active: Some(old(self).clock.now()), ..k })); assert(self.ka().dom() =~= old(self).ka().dom()); }
//@@ end
    pub open spec fn negotiated(&self, o: Self, addr: SocketAddr, services: ServiceFlags, link: Link) -> bool {
        if !o.connected@.contains(addr) { *self == o } else {
            &&& *self == (AddressManager { peers: self.peers, sources: self.sources, outbox: self.outbox, ..o })
            &&& self.sources@ == (if link is Outbound { o.sources@.insert(addr) } else { o.sources@ })
            &&& self.ka() == touch(o.ka(), ip_of(addr), |k: KnownAddress| KnownAddress { addr: Address { services, ..k.addr }, last_success: Some(o.clock.now()), last_active: Some(o.clock.now()), ..k })
            &&& self.outbox.ios() == (if o.ka().contains_key(ip_of(addr)) && o.ka()[ip_of(addr)].last_success is None { o.outbox.ios().push(Io::Write(addr, NetworkMessage::GetAddr)) } else { o.outbox.ios() })
        }
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn peer_disconnected
//@ props: C21
//@ sigsubst: super::DisconnectReason =>> DisconnectReason
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).gone(*old(self), *addr, reason)
//@@ end
    pub open spec fn gone(&self, o: Self, addr: SocketAddr, reason: Disconnect<DisconnectReason>) -> bool {
        let c = o.connected@.contains(addr); let b = c && banned(reason); let ip = ip_of(addr);
        &&& self.connected@ == o.connected@.remove(addr)
        &&& self.sources@ == (if c { o.sources@.remove(addr) } else { o.sources@ })
        &&& self.bans@ == (if b { o.bans@.insert(ip) } else { o.bans@ })
        &&& self.ka() == (if b { o.ka().remove(ip) } else { o.ka() })
        &&& *self == (AddressManager { peers: self.peers, bans: self.bans, address_ranges: self.address_ranges, sources: self.sources, connected: self.connected, ..o })
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn idle
//@ props: C21
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).idled(*old(self))
//@ entry: broadcast use lemma_push;
//@@ end
    pub open spec fn idled(&self, o: Self) -> bool {
        &&& *self == (AddressManager { peers: self.peers, outbox: self.outbox, last_idle: Some(o.clock.now()), ..o })
        &&& self.ka() == o.ka() && self.peers.saves() == o.peers.saves() + 1 && self.outbox.wrs() == o.outbox.wrs() && self.outbox.drs() == o.outbox.drs()
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn initialize
//@ props: C21
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).idled(*old(self))
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn timer_expired
//@ props: C21
//@ subst: self.last_request.unwrap_or_default() =>> or_zero(self.last_request)
//@ subst: self.last_idle.unwrap_or_default() =>> or_zero(self.last_idle)
//@ spec:
    requires old(self).wf(), old(self).last_idle is Some
    ensures final(self).wf(), final(self).last_idle is Some, final(self).ticked(*old(self))
//@ entry: broadcast use lemma_push; let ghost O = *self; let ghost mut L = Seq::<SocketAddr>::empty();
//@ after `self.get_addresses();`: proof { L = choose|l: Seq<SocketAddr>| #[trigger] members(l, O.sources@) && self.outbox.ios() == O.outbox.ios().push(Io::Event(Event::AddressBookExhausted)) + asked(l); lemma_asked(O.outbox.ios().push(Io::Event(Event::AddressBookExhausted)), L); }
//@@ end
    /// addresses are asked for once all are used up, at most once a minute
    pub open spec fn starved(&self) -> bool {
        self.clock.now().ms() - since0(self.last_request) >= 60000 && forall|ip: IpAddr| #[trigger] self.ka().contains_key(ip) ==> !self.unused(ip, self.last_idle->0)
    }
    pub open spec fn ticked(&self, o: Self) -> bool {
        &&& self.ka() == o.ka() && *self == (AddressManager { peers: self.peers, outbox: self.outbox, last_idle: self.last_idle, last_request: if o.starved() { Some(o.clock.now()) } else { o.last_request }, ..o })
        &&& self.last_idle == (if o.clock.now().ms() - since0(o.last_idle) >= 60000 { Some(o.clock.now()) } else { o.last_idle })
        &&& o.clock.now().ms() - since0(o.last_idle) >= 60000 ==> self.peers.saves() == o.peers.saves() + 1
        &&& if o.starved() { exists|l: Seq<SocketAddr>| #[trigger] members(l, o.sources@) && self.outbox.wrs() == o.outbox.wrs() + writes(asked(l)) } else { self.outbox.wrs() == o.outbox.wrs() }
    }
}
/// how many addresses of a set are in a range
pub open spec fn in_range(s: Set<IpAddr>, k: u8) -> Set<IpAddr> { s.filter(|a: IpAddr| range_of(a) == k) }
/// a range is full
pub open spec fn crowded(s: Set<IpAddr>, k: u8) -> bool { in_range(s, k).len() == 256 }
/// an address of a full range made room for another
pub open spec fn evicted(s: Set<IpAddr>, k: u8, e: Option<IpAddr>) -> bool {
    match e { Some(x) => crowded(s, k) && s.contains(x) && range_of(x) == k, None => !crowded(s, k) }
}
pub open spec fn without(m: Map<IpAddr, KnownAddress>, e: Option<IpAddr>) -> Map<IpAddr, KnownAddress> { match e { Some(x) => m.remove(x), None => m } }
pub open spec fn set_without(m: Set<IpAddr>, e: Option<IpAddr>) -> Set<IpAddr> { match e { Some(x) => m.remove(x), None => m } }
/// one address offered: what the book becomes
pub open spec fn step(b0: Map<IpAddr, KnownAddress>, b1: Map<IpAddr, KnownAddress>, good: bool, t: u32, a: Address, source: Source) -> bool {
    if good && !b0.contains_key(ip_of(sock(a)->0)) {
        let ip = ip_of(sock(a)->0);
        exists|e: Option<IpAddr>| #[trigger] evicted(b0.dom(), range_of(ip), e) && b1 == without(b0.insert(ip, KnownAddress { addr: a, source, last_success: None, last_sampled: None, last_attempt: None, last_active: if t == 0 { None } else { Some(at_secs(t)) } }), e)
    } else { b1 == b0 }
}
impl<P: Store, C: Clock> AddressManager<P, C> {
    pub proof fn lemma_in_range(&self, s: Set<IpAddr>, k: u8)
        requires self.ranges(s)
        ensures self.address_ranges@.contains_key(k) ==> self.address_ranges@[k]@ == in_range(s, k), !self.address_ranges@.contains_key(k) ==> in_range(s, k) == Set::<IpAddr>::empty()
    {
        if self.address_ranges@.contains_key(k) {
            assert forall|ip: IpAddr| self.address_ranges@[k]@.contains(ip) == in_range(s, k).contains(ip) by { if s.contains(ip) && range_of(ip) == k { assert(self.address_ranges@[range_of(ip)]@.contains(ip)); } }
            assert(self.address_ranges@[k]@ =~= in_range(s, k));
        } else { assert forall|ip: IpAddr| !in_range(s, k).contains(ip) by { if s.contains(ip) && range_of(ip) == k { assert(self.address_ranges@.contains_key(range_of(ip))); } } assert(in_range(s, k) =~= Set::<IpAddr>::empty()); }
    }
    pub open spec fn populated(&self, o: Self, ip: IpAddr, s: Set<IpAddr>, e: Option<IpAddr>) -> bool {
        &&& evicted(s, range_of(ip), e) && self.ka() == without(o.ka(), e) && self.ranges(set_without(s, e).insert(ip))
        &&& *self == (AddressManager { peers: self.peers, address_ranges: self.address_ranges, ..o })
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn populate_address_ranges
//@ props: C21
//@ sig: fn populate_address_ranges(&mut self, ip: &net::IpAddr, Ghost(s): Ghost<Set<IpAddr>>) -> u8
//@ subst: .entry(key).or_insert_with({ let rng = self.rng.clone(); || HashSet::with_hasher(rng.into()) }) =>> .entry_set(key)
//@ spec:
    requires old(self).ranges(s), !s.contains(*ip), s.subset_of(old(self).ka().dom())
    ensures exists|e: Option<IpAddr>| #[trigger] final(self).populated(*old(self), *ip, s, e)
//@ entry:
    let ghost O = *self; let ghost mut E: Option<IpAddr> = None; let ghost mut R = Set::<IpAddr>::empty();
    proof { self.lemma_in_range(s, range_of(*ip)); }
//@ after `range.remove(&addr);`: proof { E = Some(addr); }
//@ after `range.insert(*ip);`: proof { R = range@; }
//@ exit:
    proof {
        let key = range_of(*ip);
        assert(self.address_ranges@ == O.address_ranges@.insert(key, self.address_ranges@[key]) && self.address_ranges@[key]@ == R);
        let s2 = set_without(s, E).insert(*ip);
        assert(R =~= set_without(in_range(s, key), E).insert(*ip));
        assert forall|k: u8, x: IpAddr| #![trigger self.address_ranges@[k]@.contains(x)] self.address_ranges@.contains_key(k) && self.address_ranges@[k]@.contains(x) implies s2.contains(x) && range_of(x) == k by { if k != key { assert(O.address_ranges@[k]@.contains(x)); } }
        assert forall|k: u8| #[trigger] self.address_ranges@.contains_key(k) implies 0 < self.address_ranges@[k]@.len() <= 256 by { if k != key { assert(O.address_ranges@.contains_key(k)); } }
        assert forall|x: IpAddr| #[trigger] s2.contains(x) implies self.address_ranges@.contains_key(range_of(x)) && self.address_ranges@[range_of(x)]@.contains(x) by { if x != *ip { assert(s.contains(x)); if range_of(x) == key { assert(in_range(s, key).contains(x)); } } }
        assert(self.populated(O, *ip, s, E));
    }
//@@ end
    /// an address worth keeping
    pub open spec fn worthy(&self, t: u32, a: Address, source: Source) -> bool {
        &&& has_services(a.services, self.cfg.required_services) && !has_services(a.services, ServiceFlags::GETUTXO) && !has_services(a.services, ServiceFlags::BLOOM)
        &&& (t != 0 || source is Imported) && t * 1000 <= self.last_idle->0.ms() + 3600000
        &&& sock(a) is Some && self.cfg.domains@.contains(domain_of(sock(a)->0)) && !self.local_addrs@.contains(sock(a)->0)
        &&& !self.bans@.contains(ip_of(sock(a)->0)) && routable(ip_of(sock(a)->0)) && !local(ip_of(sock(a)->0))
    }
    pub open spec fn learned(&self, o: Self, l: Seq<(u32, Address)>, source: Source, tr: Seq<Map<IpAddr, KnownAddress>>) -> bool {
        &&& tr.len() == l.len() + 1 && tr[0] == o.ka() && tr[l.len() as int] == self.ka()
        &&& forall|i: int| 0 <= i < l.len() ==> step(tr[i], tr[i + 1], o.worthy(l[i].0, l[i].1, source), (#[trigger] l[i]).0, l[i].1, source)
        &&& *self == (AddressManager { peers: self.peers, address_ranges: self.address_ranges, ..o })
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn insert
//@ props: C21
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(40)]
//@ sig: pub fn insert(&mut self, addrs: Vec<(BlockTime, Address)>, source: Source)
//@ subst: source != Source::Imported =>> !is_imported(source)
//@ subst: let net_addr = match addr.socket_addr() { Ok(a) if self.cfg.domains.contains(&Domain::for_address(&a)) => a, _ => continue, }; =>> let found = match addr.socket_addr() { Ok(a) if self.cfg.domains.contains(&Domain::for_address(&a)) => Some(a), _ => None, }; if found.is_none() { continue; } let net_addr = found.unwrap();
//@ subst: self.populate_address_ranges(&net_addr.ip()) =>> self.populate_address_ranges(&net_addr.ip(), Ghost(D))
//@ spec:
    requires old(self).wf(), old(self).last_idle is Some, old(self).last_idle->0.ms() <= 0x1_0000_0000_0000_0000
    ensures final(self).wf(), exists|tr: Seq<Map<IpAddr, KnownAddress>>| #[trigger] final(self).learned(*old(self), addrs@, source, tr)
//@ loop_before 0:
    let ghost O = *self; let ghost L = addrs@; let ghost mut TR = seq![self.ka()];
//@ loop 0 it=it:
    invariant it.seq() == L, self.wf(), *self == (AddressManager { peers: self.peers, address_ranges: self.address_ranges, ..O }), O.last_idle == Some(time), time.ms() <= 0x1_0000_0000_0000_0000,
        TR.len() == it.index@ + 1, TR[0] == O.ka(), TR[it.index@ as int] == self.ka(),
        forall|i: int| 0 <= i < it.index@ ==> step(TR[i], TR[i + 1], O.worthy(L[i].0, L[i].1, source), (#[trigger] L[i]).0, L[i].1, source),
//@ loop_start 0:
    let ghost B0 = self.ka(); let ghost D = self.ka().dom(); let ghost P = *self; let ghost T0 = last_active; let ghost A0 = addr;
//@ loop_end 0:
    proof {
        assert(T0 == L[it.index@ as int].0 && A0 == L[it.index@ as int].1);
        assert(self.wf());
        assert(step(B0, self.ka(), O.worthy(T0, A0, source), T0, A0, source));
        TR = TR.push(self.ka());
    }
//@ before `self.populate_address_ranges(&net_addr.ip(), Ghost(D));`: let ghost P2 = *self; let ghost KA = self.ka()[ip];
//@ after `self.populate_address_ranges(&net_addr.ip(), Ghost(D));`:
    proof {
        let e = choose|e: Option<IpAddr>| #[trigger] self.populated(P2, ip, D, e);
        assert(set_without(D, e).insert(ip) =~= self.ka().dom());
        assert(step(B0, self.ka(), O.worthy(T0, A0, source), T0, A0, source)) by { assert(evicted(D, range_of(ip), e)); assert(KA == KnownAddress { addr: A0, source, last_success: None, last_sampled: None, last_attempt: None, last_active: if T0 == 0 { None } else { Some(at_secs(T0)) } }); }
    }
//@ loop_after 0:
    proof { assert(self.learned(O, L, source, TR)); }
//@@ end
}
impl<P: Store, C: Clock> AddressManager<P, C> {
    /// addresses shared by a peer
    pub open spec fn shared(&self, o: Self, peer: SocketAddr, l: Seq<(u32, Address)>) -> bool {
        if l.len() == 0 || l.len() > 1000 { *self == o } else { exists|tr: Seq<Map<IpAddr, KnownAddress>>| #[trigger] self.learned(o, l, Source::Peer(peer), tr) }
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn received_addr
//@ props: C21
//@ spec:
    requires old(self).wf(), old(self).last_idle is Some, old(self).last_idle->0.ms() <= 0x1_0000_0000_0000_0000
    ensures final(self).wf(), final(self).shared(*old(self), peer, addrs@)
//@@ end
    pub open spec fn has_range(&self, r: HashSet<IpAddr>) -> bool { exists|k: u8| #[trigger] self.address_ranges@.contains_key(k) && self.address_ranges@[k] == r }
    /// an address that may be handed out
    pub open spec fn eligible(&self, ip: IpAddr, time: LocalTime) -> bool {
        let a = self.ka()[ip].addr;
        sock(a) is Some && self.cfg.domains@.contains(domain_of(sock(a)->0)) && self.unused(ip, time)
    }
    pub open spec fn handed(&self, o: Self, ip: IpAddr, r: (Address, Source)) -> bool {
        &&& o.ka().contains_key(ip) && o.eligible(ip, o.last_idle->0) && r == (o.ka()[ip].addr, o.ka()[ip].source)
        &&& self.ka() == o.ka().insert(ip, KnownAddress { last_sampled: o.last_idle, ..o.ka()[ip] })
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn sample_with
//@ props: C21
//@ attr: #[verifier::spinoff_prover] #[verifier::rlimit(40)]
//@ sig: pub fn sample_with<F: Fn(&KnownAddress) -> bool>(&mut self, predicate: F) -> (r: Option<(Address, Source)>)
//@ subst: let domains = &self.cfg.domains; =>> let ghost DOM = self.cfg.domains@;
//@ subst: return Some((ka.addr.clone(), ka.source)); =>> let out = (ka.addr.clone(), ka.source); proof { assert(O.ka().contains_key(*ip)); assert(old(self).ka().contains_key(*ip)); assert(self.handed(O, *ip, out)); assert(predicate.ensures((&old(self).ka()[*ip],), true)); } return Some(out);
//@ subst: in ranges.drain(..) =>> in ranges
//@ subst: in ips.drain(..) =>> in ips
//@ subst: ka.addr.socket_addr().map_or(false, |a| domains.contains(&Domain::for_address(&a))) =>> (match ka.addr.socket_addr() { Ok(a) => self.cfg.domains.contains(&Domain::for_address(&a)), Err(_) => false })
//@ subst: ka.last_sampled.unwrap_or_default() =>> or_zero(ka.last_sampled)
//@ subst: if self.connected.iter().any(|addr| addr.ip() == *ip) =>> let CI = self.connected.iter(); proof { O.lemma_linked(CI@, *ip); } if CI.any(|addr: &SocketAddr| -> (o: bool) ensures o == (ip_of(*addr) == *ip) { addr.ip() == *ip })
//@ spec:
    requires old(self).wf(), old(self).last_idle is Some, forall|k: KnownAddress| #[trigger] predicate.requires((&k,))
    ensures final(self).wf(), *final(self) == (AddressManager { peers: final(self).peers, ..*old(self) }),
        (match r {
            Some(x) => exists|ip: IpAddr| #[trigger] old(self).ka().contains_key(ip) && final(self).handed(*old(self), ip, x) && predicate.ensures((&old(self).ka()[ip],), true),
            None => final(self).ka() == old(self).ka() && forall|ip: IpAddr| #[trigger] old(self).ka().contains_key(ip) && old(self).eligible(ip, old(self).last_idle->0) ==> predicate.ensures((&old(self).ka()[ip],), false) }),
//@ entry:
    let ghost O = *self;
//@ before `self.rng.shuffle(&mut ranges);`:
    let ghost V0 = ranges@;
    let ghost KS = choose|ks: Seq<u8>| #[trigger] lists(ks, O.address_ranges@) && ks.len() == V0.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] V0[i]) == O.address_ranges@[ks[i]];
//@ after `self.rng.shuffle(&mut ranges);`:
    let ghost RS = ranges@;
    proof {
        assert forall|i: int| 0 <= i < RS.len() implies O.has_range(*#[trigger] RS[i]) by { assert(V0.contains(RS[i])); let j = choose|j: int| 0 <= j < V0.len() && V0[j] == RS[i]; assert(KS.to_set().contains(KS[j])); assert(O.address_ranges@.contains_key(KS[j])); }
        assert forall|k: u8| #[trigger] O.address_ranges@.contains_key(k) implies exists|i: int| 0 <= i < RS.len() && *#[trigger] RS[i] == O.address_ranges@[k] by { assert(KS.to_set().contains(k)); let j = choose|j: int| 0 <= j < KS.len() && KS[j] == k; assert(RS.contains(V0[j])); let i = choose|i: int| 0 <= i < RS.len() && RS[i] == V0[j]; assert(*RS[i] == O.address_ranges@[k]); }
    }
//@ loop 0 it=it:
    invariant O == *old(self), it.seq() == RS, O.wf(), O.last_idle == Some(time), *self == (AddressManager { peers: self.peers, ..O }), self.ka() == O.ka(),
        forall|k: KnownAddress| #[trigger] predicate.requires((&k,)),
        forall|i: int| 0 <= i < RS.len() ==> O.has_range(*#[trigger] RS[i]),
        forall|i: int, ip: IpAddr| #![trigger RS[i]@.contains(ip)] 0 <= i < it.index@ && RS[i]@.contains(ip) && O.eligible(ip, time) ==> predicate.ensures((&O.ka()[ip],), false),
//@ loop_start 0:
    let ghost RG = *range; proof { assert(O.has_range(*RS[it.index@ as int])); }
//@ before `self.rng.shuffle(&mut ips);`:
    let ghost W0 = ips@;
    let ghost MS = choose|m: Seq<IpAddr>| #[trigger] members(m, RG@) && m.len() == W0.len() && forall|i: int| 0 <= i < m.len() ==> *(#[trigger] W0[i]) == m[i];
//@ after `self.rng.shuffle(&mut ips);`:
    let ghost IS = ips@;
    proof {
        assert forall|i: int| 0 <= i < IS.len() implies RG@.contains(*#[trigger] IS[i]) by { assert(W0.contains(IS[i])); let j = choose|j: int| 0 <= j < W0.len() && W0[j] == IS[i]; assert(MS.to_set().contains(MS[j])); }
        assert forall|x: IpAddr| #[trigger] RG@.contains(x) implies exists|i: int| 0 <= i < IS.len() && *#[trigger] IS[i] == x by { assert(MS.to_set().contains(x)); let j = choose|j: int| 0 <= j < MS.len() && MS[j] == x; assert(IS.contains(W0[j])); let i = choose|i: int| 0 <= i < IS.len() && IS[i] == W0[j]; assert(*IS[i] == x); }
    }
//@ loop 1 it=it1:
    invariant O == *old(self), it1.seq() == IS, O.wf(), O.last_idle == Some(time), *self == (AddressManager { peers: self.peers, ..O }), self.ka() == O.ka(), O.has_range(RG),
        forall|k: KnownAddress| #[trigger] predicate.requires((&k,)),
        forall|i: int| 0 <= i < IS.len() ==> RG@.contains(*#[trigger] IS[i]),
        forall|i: int| 0 <= i < it1.index@ && O.eligible(*#[trigger] IS[i], time) ==> predicate.ensures((&O.ka()[*IS[i]],), false),
//@ loop_start 1:
    proof { assert(RG@.contains(*IS[it1.index@ as int])); assert(O.ka().dom().contains(*ip)); }
//@ loop_end 1:
    proof { assert(self.ka() =~= O.ka()); }
//@ loop_after 0:
    proof { assert forall|ip: IpAddr| #[trigger] O.ka().contains_key(ip) && O.eligible(ip, time) implies predicate.ensures((&O.ka()[ip],), false) by { assert(O.ka().dom().contains(ip)); let k = range_of(ip); let i = choose|i: int| 0 <= i < RS.len() && *#[trigger] RS[i] == O.address_ranges@[k]; assert(RS[i]@.contains(ip)); } }
//@@ end
}
impl<P: Store, C: Clock> AddressManager<P, C> {
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn sample
//@ props: C21
//@ subst: |ka: &KnownAddress| { =>> |ka: &KnownAddress| -> (o: bool) ensures o == has_services(ka.addr.services, services) {
//@ spec:
    requires old(self).wf(), old(self).last_idle is Some
    ensures final(self).wf(), *final(self) == (AddressManager { peers: final(self).peers, ..*old(self) }),
        (match r {
            Some(x) => exists|ip: IpAddr| #[trigger] old(self).ka().contains_key(ip) && final(self).handed(*old(self), ip, x) && has_services(old(self).ka()[ip].addr.services, services),
            None => final(self).ka() == old(self).ka() && forall|ip: IpAddr| #[trigger] old(self).ka().contains_key(ip) && old(self).eligible(ip, old(self).last_idle->0) ==> !has_services(old(self).ka()[ip].addr.services, services) }),
//@@ end
    /// one address of each range
    pub open spec fn answer(&self, l: Seq<(u32, Address)>, ks: Seq<u8>, rep: Seq<IpAddr>) -> bool {
        &&& lists(ks, self.address_ranges@) && l.len() == ks.len() && rep.len() == ks.len()
        &&& forall|i: int| 0 <= i < ks.len() ==> range_of(#[trigger] rep[i]) == ks[i] && self.ka().contains_key(rep[i]) && l[i].0 == secs0(self.ka()[rep[i]].last_active) && l[i].1 == self.ka()[rep[i]].addr
    }
    pub open spec fn answered(&self, o: Self, from: SocketAddr) -> bool {
        &&& *self == (AddressManager { outbox: self.outbox, ..o })
        &&& exists|v: Vec<(u32, Address)>, ks: Seq<u8>, rep: Seq<IpAddr>| #[trigger] o.answer(v@, ks, rep) && self.outbox.ios() == o.outbox.ios().push(Io::Write(from, NetworkMessage::Addr(v)))
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn received_getaddr
//@ props: C21
//@ subst: in self.address_ranges.values() =>> in RV
//@ subst: ka.last_active.map(|t| t.block_time()).unwrap_or_default() =>> secs_or_zero(ka.last_active)
//@ subst: let mut addrs = Vec::new(); =>> let mut addrs: Vec<(u32, Address)> = Vec::new();
//@ subst: let ip = range.iter() =>> let RI = range.iter(); let ghost RI0 = RI@; let ip = RI
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).answered(*old(self), *from)
//@ loop_before 0:
    let ghost O = *self; let RX = self.address_ranges.values(); let ghost VS = RX@; let RV = RX.vec();
    let ghost KS = choose|ks: Seq<u8>| #[trigger] lists(ks, O.address_ranges@) && ks.len() == VS.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] VS[i]) == O.address_ranges@[ks[i]];
    let ghost mut REP = Seq::<IpAddr>::empty();
//@ loop 0 it=it:
    invariant it.seq() == VS, O == *self, O.wf(), lists(KS, O.address_ranges@), KS.len() == VS.len(), forall|i: int| 0 <= i < KS.len() ==> *(#[trigger] VS[i]) == O.address_ranges@[KS[i]],
        REP.len() == it.index@, addrs@.len() == it.index@,
        forall|i: int| 0 <= i < REP.len() ==> range_of(#[trigger] REP[i]) == KS[i] && O.ka().contains_key(REP[i]) && addrs@[i].0 == secs0(O.ka()[REP[i]].last_active) && addrs@[i].1 == O.ka()[REP[i]].addr,
//@ loop_start 0:
    proof { let k = it.index@ as int; assert(KS.to_set().contains(KS[k])); assert(O.address_ranges@.contains_key(KS[k])); assert(*range == O.address_ranges@[KS[k]]); }
//@ before `let ka = self.peers.get(ip)`:
    proof { let m = choose|m: Seq<IpAddr>| #[trigger] members(m, range@) && m.len() == RI0.len() && forall|i: int| 0 <= i < m.len() ==> *(#[trigger] RI0[i]) == m[i]; assert(m.to_set().contains(m[ix as int])); assert(O.address_ranges@[KS[it.index@ as int]]@.contains(*ip)); assert(O.ka().dom().contains(*ip)); REP = REP.push(*ip); }
//@ loop_after 0:
    proof { assert(O.answer(addrs@, KS, REP)); }
//@@ end
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn received_event
//@ props: C21
//@ attr: #[verifier::spinoff_prover]
//@ subst: message.as_ref() =>> &*message
//@ subst: addrs.clone() =>> clone_addrs(addrs)
//@ spec:
    requires old(self).wf(), old(self).last_idle is Some, old(self).last_idle->0.ms() <= 0x1_0000_0000_0000_0000
    ensures final(self).wf(), final(self).last_idle == old(self).last_idle, final(self).heard(*old(self), event)
//@ entry: let ghost O = *self; let ghost EV = event; let ghost mut M = *self;
//@ before `match &*message`: proof { assert(self.ka() =~= touch(O.ka(), ip_of(from), |k: KnownAddress| KnownAddress { last_active: Some(O.clock.now()), ..k })); assert(self.ka().dom() =~= O.ka().dom()); M = *self; assert(M.wf()); }
//@ exit: proof { if EV is MessageReceived { assert(M.seen(O, EV->MessageReceived_from)); } }
//@@ end
    /// a peer showed a sign of life
    pub open spec fn seen(&self, o: Self, from: SocketAddr) -> bool {
        *self == (AddressManager { peers: self.peers, ..o }) && self.ka() == touch(o.ka(), ip_of(from), |k: KnownAddress| KnownAddress { last_active: Some(o.clock.now()), ..k })
    }
    pub open spec fn own(&self, receiver: Address) -> Set<SocketAddr> { match sock(receiver) { Some(a) => self.local_addrs@.insert(a), None => self.local_addrs@ } }
    pub open spec fn heard(&self, o: Self, event: Event) -> bool {
        match event {
            Event::PeerConnected { addr, .. } => *self == (AddressManager { connected: self.connected, ..o }) && self.connected@ == (if routable(ip_of(addr)) && !local(ip_of(addr)) { o.connected@.insert(addr) } else { o.connected@ }),
            Event::PeerNegotiated { addr, link, services, receiver, .. } => exists|m: Self| #[trigger] self.negotiated(m, addr, services, link) && m == (AddressManager { local_addrs: m.local_addrs, ..o }) && m.local_addrs@ == o.own(receiver),
            Event::PeerConnecting { addr, .. } => *self == (AddressManager { peers: self.peers, ..o }) && self.ka() == touch(o.ka(), ip_of(addr), |k: KnownAddress| KnownAddress { last_attempt: Some(o.clock.now()), ..k }),
            Event::PeerDisconnected { addr, reason } => self.gone(o, addr, reason),
            Event::MessageReceived { from, message } => exists|m: Self| #[trigger] m.seen(o, from) && (match *message {
                NetworkMessage::Addr(l) => self.shared(m, from, l@),
                NetworkMessage::GetAddr => self.answered(m, from),
                _ => *self == m }),
            _ => *self == o,
        }
    }
//@@ fn p2p/src/fsm/addrmgr.rs | impl AddressManager / fn new
//@ props: C21
//@ subst: peers.iter().map(|(ip, _)| *ip).collect::<Vec<_>>() =>> store_keys(&peers)
//@ subst: HashSet::with_hasher(rng.clone().into()) =>> HashSet::new()
//@ subst: HashMap::with_hasher(rng.clone().into()) =>> HashMap::new()
//@ subst: Outbox::default() =>> no_output()
//@ subst: in ips.iter() =>> in ips
//@ subst: addrmgr.populate_address_ranges(ip) =>> addrmgr.populate_address_ranges(&ip, Ghost(S))
//@ spec:
    ensures r.wf(), r.last_idle is None, r.bans@ == Set::<IpAddr>::empty(), r.connected@ == Set::<SocketAddr>::empty(), r.local_addrs@ == Set::<SocketAddr>::empty(), r.sources@ == Set::<SocketAddr>::empty(), r.cfg == cfg,
        forall|ip: IpAddr| #[trigger] r.ka().contains_key(ip) ==> peers.book().contains_key(ip) && r.ka()[ip] == peers.book()[ip],
        forall|ip: IpAddr| #[trigger] peers.book().contains_key(ip) && !r.ka().contains_key(ip) ==> crowded(r.ka().dom(), range_of(ip)),
//@ loop_before 0:
    let ghost B = peers0.book(); let ghost L = ips@; let ghost mut S = Set::<IpAddr>::empty(); let ghost A0 = addrmgr;
    proof { assert(L.skip(0) =~= L); assert(addrmgr.ka().dom() =~= S.union(L.skip(0).to_set())); }
//@ loop 0 it=it:
    invariant it.seq() == L, lists(L, B), addrmgr == (AddressManager { peers: addrmgr.peers, address_ranges: addrmgr.address_ranges, ..A0 }), addrmgr.ranges(S), addrmgr.ka().dom() == S.union(L.skip(it.index@ as int).to_set()), S.subset_of(L.take(it.index@ as int).to_set()),
        forall|ip: IpAddr| #[trigger] addrmgr.ka().contains_key(ip) ==> B.contains_key(ip) && addrmgr.ka()[ip] == B[ip],
        forall|ip: IpAddr| #[trigger] B.contains_key(ip) && !addrmgr.ka().contains_key(ip) ==> crowded(S, range_of(ip)),
//@ loop_start 0:
    let ghost k = it.index@ as int; let ghost P = addrmgr; let ghost S0 = S;
    proof {
        if S.contains(ip) { assert(L.take(k).to_set().contains(ip)); let j = choose|j: int| 0 <= j < k && L.take(k)[j] == ip; assert(L[j] == L[k]); }
        assert(L.skip(k)[0] == ip); assert(L.skip(k).to_set().contains(ip));
    }
//@ loop_end 0:
    proof {
        let e = choose|e: Option<IpAddr>| #[trigger] addrmgr.populated(P, ip, S0, e);
        assert(addrmgr.populated(P, ip, S0, e));
        S = set_without(S0, e).insert(ip);
        assert(L.skip(k) =~= seq![ip] + L.skip(k + 1));
        assert forall|x: IpAddr| #[trigger] addrmgr.ka().dom().contains(x) == S.union(L.skip(k + 1).to_set()).contains(x) by {
            assert(P.ka().dom().contains(x) == (S0.contains(x) || L.skip(k).to_set().contains(x)));
            if L.skip(k).to_set().contains(x) { let j = choose|j: int| 0 <= j < L.skip(k).len() && L.skip(k)[j] == x; if j > 0 { assert(L.skip(k + 1)[j - 1] == x); } }
            if L.skip(k + 1).to_set().contains(x) { let j = choose|j: int| 0 <= j < L.skip(k + 1).len() && #[trigger] L.skip(k + 1)[j] == x; assert(L.skip(k)[j + 1] == x);
                if S0.contains(x) { assert(L.take(k).to_set().contains(x)); let j2 = choose|j2: int| 0 <= j2 < k && L.take(k)[j2] == x; assert(L[j2] == L[k + 1 + j]); } }
        }
        assert(addrmgr.ka().dom() =~= S.union(L.skip(k + 1).to_set()));
        assert forall|x: IpAddr| #[trigger] S.contains(x) implies L.take(k + 1).to_set().contains(x) by { if x != ip { assert(L.take(k).to_set().contains(x)); let j = choose|j: int| 0 <= j < k && L.take(k)[j] == x; assert(L.take(k + 1)[j] == x); } else { assert(L.take(k + 1)[k] == x); } }
        assert forall|x: IpAddr| #[trigger] B.contains_key(x) && !addrmgr.ka().contains_key(x) implies crowded(S, range_of(x)) by {
            let r = range_of(x); let q = range_of(ip);
            if e is Some {
                let v = e->0; assert(in_range(S0, q).contains(v)); assert(!in_range(S0, q).contains(ip));
                assert(in_range(S, q) =~= in_range(S0, q).remove(v).insert(ip));
                if r != q { assert(in_range(S, r) =~= in_range(S0, r)); assert(!P.ka().contains_key(x)); }
            } else { assert(!P.ka().contains_key(x)); assert(r != q); assert(in_range(S, r) =~= in_range(S0, r)); }
        }
    }
//@ loop_after 0:
    proof { assert(L.skip(L.len() as int).to_set() =~= Set::<IpAddr>::empty()); assert(addrmgr.ka().dom() =~= S); }
//@ entry: let ghost peers0 = peers;
//@@ end
}
#[verifier::external_body]
pub fn clone_addrs(v: &Vec<(u32, Address)>) -> (r: Vec<(u32, Address)>) ensures r@ == v@ { unimplemented!() }
/// `iter().map(|(ip, _)| *ip).collect()`
#[verifier::external_body]
pub fn store_keys<P: Store>(p: &P) -> (r: Vec<IpAddr>) ensures lists(r@, p.book()) { unimplemented!() }
/// `Outbox::default()`
#[verifier::external_body]
pub fn no_output() -> (r: Outbox) ensures r.ios() == Seq::<Io>::empty() { unimplemented!() }
/// a peer that is not to be connected to again
pub open spec fn banned(r: Disconnect<DisconnectReason>) -> bool { match r { Disconnect::StateMachine(r) => !transient(r), Disconnect::DialError(_) => true, _ => false } }
pub open spec fn transient(r: DisconnectReason) -> bool { r is ConnectionLimit || r is PeerTimeout || r is PeerHeight }
impl DisconnectReason {
//@@ fn p2p/src/fsm.rs | impl DisconnectReason / fn is_transient
//@ props: C21
//@ spec:
    ensures r == transient(*self)
//@@ end
}
impl<T> Disconnect<T> {
//@@ fn net/src/lib.rs | impl Disconnect / fn is_dial_err
//@ props: C21
//@ spec:
    ensures r == (*self is DialError)
//@@ end
}
pub open spec fn asked(l: Seq<SocketAddr>) -> Seq<Io> { l.map_values(|a: SocketAddr| Io::Write(a, NetworkMessage::GetAddr)) }
pub proof fn lemma_asked(s: Seq<Io>, l: Seq<SocketAddr>)
    ensures writes(s + asked(l)) == writes(s) + writes(asked(l))
    decreases l.len()
{
    broadcast use lemma_push;
    if l.len() == 0 { assert(s + asked(l) =~= s); assert(writes(s) + writes(asked(l)) =~= writes(s)); }
    else {
        let d = l.drop_last(); let x = Io::Write(l.last(), NetworkMessage::GetAddr);
        lemma_asked(s, d);
        assert(asked(l) =~= asked(d).push(x)); assert(s + asked(l) =~= (s + asked(d)).push(x));
        assert(writes(s) + writes(asked(d)).push((l.last(), NetworkMessage::GetAddr)) =~= (writes(s) + writes(asked(d))).push((l.last(), NetworkMessage::GetAddr)));
    }
}
pub open spec fn touch(m: Map<IpAddr, KnownAddress>, ip: IpAddr, f: spec_fn(KnownAddress) -> KnownAddress) -> Map<IpAddr, KnownAddress> { if m.contains_key(ip) { m.insert(ip, f(m[ip])) } else { m } }
} // verus!
fn main() {}
