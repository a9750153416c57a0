// Unit: the address book's file (client/src/peer.rs) and its records (common/src/p2p/peer.rs).
use vstd::prelude::*;
verus! {
global size_of usize == 8;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_it.rs
//@@ include shim_entry.rs
}
/// the map of common::collections (another hasher)
pub mod collections {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_it.rs
//@@ include shim_entry.rs
}
use dep::*;
// ---- assumed: std::net ----
#[derive(Copy, Clone)]
pub struct Octets { pub x: u128 }
#[derive(Copy, Clone)]
pub struct IpAddr { pub x: u128, pub v6: bool }
#[derive(Copy, Clone)]
pub struct SocketAddr { pub x: u128, pub v6: bool, pub port: u16 }
pub struct AddrParseError { pub x: u8 }
/// how an address is written
pub uninterp spec fn show(a: SocketAddr) -> Seq<char>;
pub uninterp spec fn show_ip(a: IpAddr) -> Seq<char>;
/// what is read from a text
pub uninterp spec fn read(s: Seq<char>) -> Option<SocketAddr>;
pub uninterp spec fn read_ip(s: Seq<char>) -> Option<IpAddr>;
pub broadcast axiom fn axiom_read(a: SocketAddr) ensures read(#[trigger] show(a)) == Some(a), show(a) != "dns"@, show(a) != "imported"@;
pub broadcast axiom fn axiom_read_ip(a: IpAddr) ensures read_ip(#[trigger] show_ip(a)) == Some(a);
/// an address as sixteen octets, and back (`SocketAddr::from(([u16; 8], u16))`, bitcoin's `Address::new`)
pub uninterp spec fn socket(o: Octets, port: u16) -> SocketAddr;
pub uninterp spec fn octets(a: SocketAddr) -> Octets;
pub broadcast axiom fn axiom_octets(o: Octets, port: u16) ensures octets(#[trigger] socket(o, port)) == o, socket(o, port).port == port;
impl SocketAddr {
    #[verifier::external_body]
    pub fn from(a: (Octets, u16)) -> (r: SocketAddr) ensures r == socket(a.0, a.1) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == show(*self) { unimplemented!() }
}
impl IpAddr {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == show_ip(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: Result<IpAddr, AddrParseError>) ensures (match r { Ok(a) => read_ip(s@) == Some(a), Err(_) => read_ip(s@) is None }) { unimplemented!() }
}
#[verifier::external_body]
pub fn parse_addr(s: &String) -> (r: Result<SocketAddr, AddrParseError>) ensures (match r { Ok(a) => read(s@) == Some(a), Err(_) => read(s@) is None }) { unimplemented!() }
/// `s == lit`
#[verifier::external_body]
pub fn same_text(s: &String, lit: &str) -> (r: bool) ensures r == (s@ == lit@) { unimplemented!() }
#[verifier::external_body]
pub fn empty_text(s: &String) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
pub mod net { pub use super::{IpAddr, SocketAddr}; }
// ---- assumed: bitcoin's address and service flags, the clock's seconds ----
#[derive(Copy, Clone)]
pub struct ServiceFlags { pub x: u64 }
impl ServiceFlags {
    pub fn to_u64(self) -> (r: u64) ensures r == self.x { self.x }
    pub fn from(x: u64) -> (r: ServiceFlags) ensures r.x == x { ServiceFlags { x } }
}
pub struct Address { pub services: ServiceFlags, pub address: Octets, pub port: u16 }
impl Address {
    #[verifier::external_body]
    pub fn new(a: &SocketAddr, services: ServiceFlags) -> (r: Address) ensures r == (Address { services, address: octets(*a), port: a.port }) { unimplemented!() }
}
#[derive(Copy, Clone)]
pub struct LocalTime { pub millis: u128 }
impl LocalTime {
    pub open spec fn secs(&self) -> u32 { (self.millis / 1000) as u64 as u32 }
    #[verifier::external_body]
    pub fn block_time(&self) -> (r: u32) ensures r == self.secs() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_block_time(t: u32) -> (r: LocalTime) ensures r == at_secs(t) { unimplemented!() }
}
pub open spec fn at_secs(t: u32) -> LocalTime { LocalTime { millis: (t * 1000) as u128 } }
// ---- assumed: microserde's values; an object is a map from texts to values ----
pub mod serde {
    pub struct Error;
    pub mod json {
        use vstd::prelude::*;
        pub enum Number { U64(u64), I64(i64), F64(f64) }
        pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Array), Object(Object) }
        #[verifier::external_body]
        pub struct Array { x: u8 }
        #[verifier::external_body]
        pub struct Object { x: u8 }
        impl Object {
            pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
            #[verifier::external_body]
            pub fn new() -> (r: Object) ensures r@ == Map::<Seq<char>, Value>::empty() { unimplemented!() }
            #[verifier::external_body]
            pub fn insert(&mut self, k: String, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
            #[verifier::external_body]
            pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r.is_some() == self@.contains_key(k@), r.is_some() ==> *r.unwrap() == self@[k@] { unimplemented!() }
            /// `into_iter()`, materialised: each entry once
            #[verifier::external_body]
            pub fn into_iter(self) -> (r: Vec<(String, Value)>)
                ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0@) && self@[r@[i].0@] == r@[i].1,
                    forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == k,
            { unimplemented!() }
        }
        /// the text of a value, and the value of a text
        pub uninterp spec fn printed(v: Value) -> Seq<char>;
        pub uninterp spec fn parsed(s: Seq<char>) -> Option<Value>;
        pub broadcast axiom fn axiom_parsed(v: Value) ensures parsed(#[trigger] printed(v).push('\n')) == Some(v);
        #[verifier::external_body]
        pub fn to_string(v: &Value) -> (r: String) ensures r@ == printed(*v) { unimplemented!() }
        #[verifier::external_body]
        pub fn from_str(s: &str) -> (r: Result<Value, super::Error>) ensures (match r { Ok(v) => parsed(s@) == Some(v), Err(_) => parsed(s@) is None }) { unimplemented!() }
    }
}
pub use serde as microserde;
use serde::json::{Value, Object, Number};
impl It<(String, Value)> {
    /// `collect()` into an object: later entries replace earlier ones
    #[verifier::external_body]
    pub fn collect_object(self) -> (r: Object)
        ensures forall|k: Seq<char>| #[trigger] r@.contains_key(k) ==> exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0@ == k && r@[k] == self@[i].1,
            forall|i: int| 0 <= i < self@.len() ==> r@.contains_key((#[trigger] self@[i]).0@),
    { unimplemented!() }
}
// ---- assumed: the file, a sequence of bytes and a position ----
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub broadcast axiom fn axiom_utf8_line(s: Seq<char>) ensures #[trigger] utf8(s.push('\n')) == utf8(s).push(10u8);
pub uninterp spec fn text_of(b: Seq<u8>) -> Seq<char>;
pub broadcast axiom fn axiom_text_of(s: Seq<char>) ensures text_of(#[trigger] utf8(s)) == s, (utf8(s).len() == 0) == (s.len() == 0);
#[verifier::external_body]
pub fn bytes_of(s: &String) -> (r: &[u8]) ensures r@ == utf8(s@) { unimplemented!() }
pub mod io {
    use vstd::prelude::*;
    pub enum ErrorKind { InvalidData, Other }
    pub struct Error { pub k: ErrorKind }
    impl Error { pub fn from(k: ErrorKind) -> (r: Error) ensures r.k == k { Error { k } } }
    pub type Result<T> = std::result::Result<T, Error>;
    pub trait Read {}
    pub trait Seek {}
    pub trait Write {}
    pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
}
pub mod fs {
    use vstd::prelude::*;
    use super::{io, utf8};
    #[verifier::external_body]
    pub struct File { x: u8 }
    /// what the bytes are after `b` is written at `pos`
    pub open spec fn put(d: Seq<u8>, pos: int, b: Seq<u8>) -> Seq<u8> {
        let d2 = if pos <= d.len() { d } else { d + Seq::new((pos - d.len()) as nat, |i: int| 0u8) };
        if pos + b.len() <= d2.len() { d2.take(pos) + b + d2.skip(pos + b.len()) } else { d2.take(pos) + b }
    }
    impl File {
        pub uninterp spec fn data(&self) -> Seq<u8>;
        pub uninterp spec fn pos(&self) -> int;
        #[verifier::external_body]
        pub fn set_len(&mut self, n: u64) -> (r: io::Result<()>)
            ensures final(self).pos() == old(self).pos(), r.is_ok() ==> final(self).data().len() == n, r.is_ok() && n <= old(self).data().len() ==> final(self).data() == old(self).data().take(n as int)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, to: io::SeekFrom) -> (r: io::Result<u64>)
            ensures final(self).data() == old(self).data(), r.is_ok() && to is Start ==> final(self).pos() == to->Start_0,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
            ensures r.is_ok() ==> final(self).data() == put(old(self).data(), old(self).pos(), b@) && final(self).pos() == old(self).pos() + b@.len()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn sync_data(&self) -> (r: io::Result<()>) { unimplemented!() }
        /// the file can be read, and is text
        pub uninterp spec fn readable(&self) -> bool;
        #[verifier::external_body]
        pub fn read_to_string(&mut self, s: &mut String) -> (r: io::Result<usize>)
            ensures final(self).data() == old(self).data(), old(self).readable() ==> r.is_ok(), r.is_ok() && old(self).pos() == 0 && old(s)@.len() == 0 ==> utf8(final(s)@) == old(self).data()
        { unimplemented!() }
    }
}
//@@ enum common/src/p2p/peer.rs | enum Source
//@@ end
impl Copy for Source {}
impl Clone for Source { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@@ struct common/src/p2p/peer.rs | struct KnownAddress
//@@ end
// ---- what a record is on disk ----
pub open spec fn jtime(t: Option<LocalTime>) -> Value { match t { Some(t) => Value::Number(Number::U64(t.secs() as u64)), None => Value::Null } }
pub open spec fn is_text(v: Value, s: Seq<char>) -> bool { v is String && v->String_0@ == s }
pub open spec fn source_text(s: Source) -> Seq<char> { match s { Source::Dns => "dns"@, Source::Imported => "imported"@, Source::Peer(a) => show(a) } }
/// the value says all there is to know of the address (times to the second)
pub open spec fn wrote(v: Value, ka: KnownAddress) -> bool {
    &&& v is Object
    &&& v->Object_0@.contains_key("address"@) && is_text(v->Object_0@["address"@], show(socket(ka.addr.address, ka.addr.port)))
    &&& v->Object_0@.contains_key("services"@) && v->Object_0@["services"@] == Value::Number(Number::U64(ka.addr.services.x))
    &&& v->Object_0@.contains_key("last_success"@) && v->Object_0@["last_success"@] == jtime(ka.last_success)
    &&& v->Object_0@.contains_key("last_attempt"@) && v->Object_0@["last_attempt"@] == jtime(ka.last_attempt)
    &&& v->Object_0@.contains_key("last_sampled"@) && v->Object_0@["last_sampled"@] == jtime(ka.last_sampled)
    &&& v->Object_0@.contains_key("last_active"@) && v->Object_0@["last_active"@] == jtime(ka.last_active)
    &&& v->Object_0@.contains_key("source"@) && is_text(v->Object_0@["source"@], source_text(ka.source))
}
pub open spec fn whole(t: Option<LocalTime>) -> Option<LocalTime> { match t { Some(t) => Some(at_secs(t.secs())), None => None } }
/// the address as it comes back: times to the second
pub open spec fn seconds(ka: KnownAddress) -> KnownAddress {
    KnownAddress { addr: ka.addr, source: ka.source, last_success: whole(ka.last_success), last_sampled: whole(ka.last_sampled), last_attempt: whole(ka.last_attempt), last_active: whole(ka.last_active) }
}
proof fn keys_differ()
    ensures "address"@ != "services"@, "address"@ != "last_success"@, "address"@ != "last_attempt"@, "address"@ != "last_sampled"@, "address"@ != "last_active"@, "address"@ != "source"@,
        "services"@ != "last_success"@, "services"@ != "last_attempt"@, "services"@ != "last_sampled"@, "services"@ != "last_active"@, "services"@ != "source"@,
        "last_success"@ != "last_attempt"@, "last_success"@ != "last_sampled"@, "last_success"@ != "last_active"@, "last_success"@ != "source"@,
        "last_attempt"@ != "last_sampled"@, "last_attempt"@ != "last_active"@, "last_attempt"@ != "source"@,
        "last_sampled"@ != "last_active"@, "last_sampled"@ != "source"@, "last_active"@ != "source"@, "dns"@ != "imported"@,
{
    reveal_strlit("address"); reveal_strlit("services"); reveal_strlit("last_success"); reveal_strlit("last_attempt"); reveal_strlit("last_sampled"); reveal_strlit("last_active"); reveal_strlit("source"); reveal_strlit("dns"); reveal_strlit("imported");
    assert("dns"@[0] == 'd'); assert("imported"@[0] == 'i');
    assert("address"@[0] == 'a'); assert("services"@[1] == 'e'); assert("source"@[1] == 'o'); assert("last_success"@[0] == 'l');
    assert("last_success"@[7] == 'c'); assert("last_attempt"@[5] == 'a' && "last_attempt"@[6] == 't'); assert("last_sampled"@[5] == 's' && "last_sampled"@[6] == 'a'); assert("last_active"@[5] == 'a' && "last_active"@[6] == 'c'); assert("last_success"@[6] == 'u');
}
impl KnownAddress {
//@@ fn common/src/p2p/peer.rs | impl KnownAddress / fn to_json
//@ props: C25
//@ spec:
    ensures wrote(r, *self)
//@ entry: proof { keys_differ(); }
//@@ end
//@@ fn common/src/p2p/peer.rs | impl KnownAddress / fn from_json
//@ props: C25
//@ spec:
    ensures forall|ka: KnownAddress| #[trigger] wrote(v, ka) ==> r is Ok && r->Ok_0 == seconds(ka)
//@ subst: addr.parse() =>> parse_addr(addr)
//@ subst: |_| =>> |_e|
//@ subst: s.parse() =>> parse_addr(s)
//@ subst: s == "dns" =>> same_text(s, "dns")
//@ subst: s == "imported" =>> same_text(s, "imported")
//@ entry: proof { keys_differ(); broadcast use axiom_read, axiom_octets; }
//@@ end
}
// ---- the store in memory (std's map, and the one of common::collections) ----
pub trait Store: Sized {
    spec fn book(&self) -> Map<IpAddr, KnownAddress>;
    fn get(&self, ip: &IpAddr) -> (r: Option<&KnownAddress>)
        ensures r.is_some() == self.book().contains_key(*ip), r.is_some() ==> *r.unwrap() == self.book()[*ip];
    fn get_mut(&mut self, ip: &IpAddr) -> (r: Option<&mut KnownAddress>)
        ensures match r {
            Some(v) => old(self).book().contains_key(*ip) && *v == old(self).book()[*ip] && final(self).book() == old(self).book().insert(*ip, *final(v)),
            None => !old(self).book().contains_key(*ip) && final(self).book() == old(self).book() };
    /// a *new* address only
    fn insert(&mut self, ip: IpAddr, ka: KnownAddress) -> (r: bool)
        ensures r == !old(self).book().contains_key(ip), final(self).book() == (if r { old(self).book().insert(ip, ka) } else { old(self).book() });
    fn remove(&mut self, ip: &IpAddr) -> (r: Option<KnownAddress>)
        ensures final(self).book() == old(self).book().remove(*ip), r == (if old(self).book().contains_key(*ip) { Some(old(self).book()[*ip]) } else { None });
    fn clear(&mut self) ensures final(self).book() == Map::<IpAddr, KnownAddress>::empty();
    fn len(&self) -> (r: usize) ensures r == self.book().len();
}
impl Store for HashMap<IpAddr, KnownAddress> {
    open spec fn book(&self) -> Map<IpAddr, KnownAddress> { self@ }
//@@ fn common/src/p2p/peer.rs | impl Store for std :: collections :: HashMap / fn get
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for std :: collections :: HashMap / fn get_mut
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for std :: collections :: HashMap / fn insert
//@ props: C25
//@ subst: use ::std::collections::hash_map::Entry; =>> use dep::Entry;
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for std :: collections :: HashMap / fn remove
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for std :: collections :: HashMap / fn clear
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for std :: collections :: HashMap / fn len
//@ props: C25
//@@ end
}
impl Store for collections::HashMap<IpAddr, KnownAddress> {
    open spec fn book(&self) -> Map<IpAddr, KnownAddress> { self@ }
//@@ fn common/src/p2p/peer.rs | impl Store for crate :: collections :: HashMap / fn get
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for crate :: collections :: HashMap / fn get_mut
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for crate :: collections :: HashMap / fn insert
//@ props: C25
//@ subst: use ::std::collections::hash_map::Entry; =>> use collections::Entry;
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for crate :: collections :: HashMap / fn remove
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for crate :: collections :: HashMap / fn clear
//@ props: C25
//@@ end
//@@ fn common/src/p2p/peer.rs | impl Store for crate :: collections :: HashMap / fn len
//@ props: C25
//@@ end
}
// ---- the file ----
//@@ struct client/src/peer.rs | struct Cache
//@@ end
/// the value says all there is to know of every address of the book, and no more
pub open spec fn wrote_all(v: Value, m: Map<IpAddr, KnownAddress>) -> bool {
    &&& v is Object
    &&& forall|ip: IpAddr| #[trigger] m.contains_key(ip) ==> v->Object_0@.contains_key(show_ip(ip)) && wrote(v->Object_0@[show_ip(ip)], m[ip])
    &&& forall|k: Seq<char>| #[trigger] v->Object_0@.contains_key(k) ==> exists|ip: IpAddr| m.contains_key(ip) && #[trigger] show_ip(ip) == k
}
/// the bytes are the book's
pub open spec fn on_disk(d: Seq<u8>, v: Value, m: Map<IpAddr, KnownAddress>) -> bool { wrote_all(v, m) && d == utf8(printed_line(v)) }
pub open spec fn printed_line(v: Value) -> Seq<char> { serde::json::printed(v).push('\n') }
pub open spec fn saved(d: Seq<u8>, m: Map<IpAddr, KnownAddress>) -> bool { exists|v: Value| #[trigger] on_disk(d, v, m) }
pub open spec fn all_seconds(m: Map<IpAddr, KnownAddress>) -> Map<IpAddr, KnownAddress> { m.map_values(|k: KnownAddress| seconds(k)) }
pub open spec fn parsed_is(s: Seq<char>, v: Value) -> bool { serde::json::parsed(s) == Some(v) }
pub open spec fn part(a: Map<IpAddr, KnownAddress>, m: Map<IpAddr, KnownAddress>) -> bool { forall|ip: IpAddr| #[trigger] a.contains_key(ip) ==> m.contains_key(ip) && a[ip] == seconds(m[ip]) }
impl Cache {
//@@ fn client/src/peer.rs | impl Cache / fn from
//@ props: C25
//@ attr: #[verifier::loop_isolation(false)]
//@ spec:
    ensures r is Ok ==> r->Ok_0.file.data() == file.data(),
        r is Ok && file.pos() == 0 && file.data().len() == 0 ==> r->Ok_0.addrs@ == Map::<IpAddr, KnownAddress>::empty(),
        // what was saved comes back
        forall|m: Map<IpAddr, KnownAddress>| #[trigger] saved(file.data(), m) && file.pos() == 0 && file.readable() ==> r is Ok && r->Ok_0.addrs@ =~= all_seconds(m),
        file.pos() == 0 && file.data().len() == 0 && file.readable() ==> r is Ok,
//@ subst: |_| =>> |_e|
//@ subst: io::ErrorKind::InvalidData.into() =>> io::Error::from(io::ErrorKind::InvalidData)
//@ subst: in ary.into_iter() =>> in ITS
//@ subst: from_str(&s) =>> from_str(s.as_str())
//@ subst: HashMap::new() =>> HashMap::<IpAddr, KnownAddress>::new()
//@ subst: s.is_empty() =>> empty_text(&s)
//@ entry: let ghost D = file.data(); let ghost P = file.pos(); let ghost RD = file.readable(); proof { broadcast use axiom_read_ip, axiom_text_of, serde::json::axiom_parsed; }
//@ before `if !empty_text(&s) {`:
    proof { assert(P == 0 ==> forall|v: Value, m: Map<IpAddr, KnownAddress>| #[trigger] on_disk(D, v, m) ==> s@ == printed_line(v) && parsed_is(s@, v) && s@.len() > 0) by {
        assert forall|v: Value, m: Map<IpAddr, KnownAddress>| P == 0 && #[trigger] on_disk(D, v, m) implies s@ == printed_line(v) && parsed_is(s@, v) && s@.len() > 0 by { axiom_text_of(s@); axiom_text_of(printed_line(v)); serde::json::axiom_parsed(v); }
    } }
//@ before `match val`:
    let ghost V0 = val;
    proof { assert(P == 0 ==> forall|m: Map<IpAddr, KnownAddress>| #[trigger] saved(D, m) ==> wrote_all(V0, m)); }
//@ loop_before 0:
    let ITS = ary.into_iter(); let ghost L = ITS@;
//@ loop 0 it=it:
    invariant it.seq() == L, V0 == Value::Object(ary), file.data() == D, 
        forall|i: int| 0 <= i < L.len() ==> ary@.contains_key((#[trigger] L[i]).0@) && ary@[L[i].0@] == L[i].1,
        forall|k: Seq<char>| #[trigger] ary@.contains_key(k) ==> exists|i: int| 0 <= i < L.len() && (#[trigger] L[i]).0@ == k,
        P == 0 ==> forall|m: Map<IpAddr, KnownAddress>| #[trigger] saved(D, m) ==> wrote_all(V0, m),
        P == 0 ==> !(D.len() == 0),
        forall|i: int| 0 <= i < it.index@ ==> read_ip((#[trigger] L[i]).0@) is Some && addrs@.contains_key(read_ip(L[i].0@)->0),
        forall|m: Map<IpAddr, KnownAddress>| #[trigger] wrote_all(V0, m) ==> part(addrs@, m),
//@ loop_start 0:
    proof {
        broadcast use axiom_read_ip;
        let x = L[it.index@];
        assert forall|m: Map<IpAddr, KnownAddress>| #[trigger] wrote_all(V0, m) implies read_ip(k@) is Some && m.contains_key(read_ip(k@)->0) && wrote(v, m[read_ip(k@)->0]) by {
            assert(ary@.contains_key(k@)); let ip = choose|ip: IpAddr| m.contains_key(ip) && #[trigger] show_ip(ip) == k@; axiom_read_ip(ip); }
    }
//@ loop_after 0:
    proof {
        assert forall|m: Map<IpAddr, KnownAddress>| #[trigger] wrote_all(V0, m) implies addrs@ =~= all_seconds(m) by {
            assert forall|ip: IpAddr| #[trigger] m.contains_key(ip) implies addrs@.contains_key(ip) by { axiom_read_ip(ip); assert(ary@.contains_key(show_ip(ip))); let i = choose|i: int| 0 <= i < L.len() && (#[trigger] L[i]).0@ == show_ip(ip); }
        }
    }
//@@ end
}
impl Store for Cache {
    open spec fn book(&self) -> Map<IpAddr, KnownAddress> { self.addrs@ }
//@@ fn client/src/peer.rs | impl Store for Cache / fn get
//@ props: C25
//@@ end
//@@ fn client/src/peer.rs | impl Store for Cache / fn get_mut
//@ props: C25
//@@ end
//@@ fn client/src/peer.rs | impl Store for Cache / fn insert
//@ props: C25
//@@ end
//@@ fn client/src/peer.rs | impl Store for Cache / fn remove
//@ props: C25
//@@ end
//@@ fn client/src/peer.rs | impl Store for Cache / fn clear
//@ props: C25
//@@ end
//@@ fn client/src/peer.rs | impl Store for Cache / fn len
//@ props: C25
//@@ end
}
impl Cache {
//@@ fn client/src/peer.rs | impl Store for Cache / fn flush
//@ props: C25
//@ spec:
    ensures final(self).addrs@ == old(self).addrs@, r is Ok ==> saved(final(self).file.data(), old(self).addrs@)
//@ subst: self.addrs.iter().map( =>> ITX.map(
//@ subst: .collect() =>> .collect_object()
//@ subst: s.as_bytes() =>> bytes_of(&s)
//@ closure 0: |p: (&IpAddr, &KnownAddress)| -> (o: (String, Value)) ensures o.0@ == show_ip(*p.0), wrote(o.1, *p.1) ;; let (ip, ka) = p;
//@ before `let peers`:
    let ITX = self.addrs.iter(); let ghost L = ITX@; let ghost M = self.addrs@;
    let ghost KS = choose|ks: Seq<IpAddr>| #[trigger] lists(ks, M) && ks.len() == L.len() && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] L[i]).0 == ks[i] && *L[i].1 == M[ks[i]];
//@ before `let s`:
    let ghost PO = peers;
    proof {
        assert forall|ip: IpAddr| #[trigger] M.contains_key(ip) implies PO@.contains_key(show_ip(ip)) && wrote(PO@[show_ip(ip)], M[ip]) by {
            axiom_read_ip(ip); assert(KS.to_set().contains(ip)); let i = choose|i: int| 0 <= i < KS.len() && KS[i] == ip; assert(*L[i].0 == ip);
            assert forall|j: int| 0 <= j < KS.len() && show_ip(*(#[trigger] L[j]).0) == show_ip(ip) implies j == i by { axiom_read_ip(*L[j].0); assert(KS[j] == *L[j].0); }
        }
        assert forall|k: Seq<char>| #[trigger] PO@.contains_key(k) implies exists|ip: IpAddr| M.contains_key(ip) && #[trigger] show_ip(ip) == k by {
            let i = choose|i: int| 0 <= i < L.len() && show_ip(*(#[trigger] L[i]).0) == k; assert(KS.to_set().contains(KS[i]));
        }
        assert(wrote_all(Value::Object(PO), M));
    }
//@ before `Ok(())`:
    proof { axiom_utf8_line(s@); assert(self.file.data() =~= utf8(s@).push(10u8)); assert(on_disk(self.file.data(), Value::Object(PO), M)); }
//@@ end
}
}
fn main() {}
