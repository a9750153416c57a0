// Unit: the reactor (net/poll/src/reactor.rs, net/poll/src/socket.rs): connections and bytes between the sockets and the service.
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
}
use dep::*;
//@@ include shim_time.rs
#[derive(Copy, Clone)]
pub struct SocketAddr { pub ip: u128, pub port: u16 }
impl SocketAddr { pub fn to_socket_addr(&self) -> (r: SocketAddr) ensures r == *self { *self } }
pub mod io {
    use vstd::prelude::*;
    #[derive(Copy, Clone)]
    pub enum ErrorKind { WouldBlock, WriteZero, AlreadyExists, ConnectionReset, TimedOut, Interrupted, Other }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o }
    }
    impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &ErrorKind) -> (r: bool) { unimplemented!() } }
    pub struct Error { pub k: ErrorKind, pub x: u64 }
    impl Error {
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k { self.k }
        #[verifier::external_body]
        pub fn from(k: ErrorKind) -> (r: Error) ensures r.k == k { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
    pub fn is_one_of(k: ErrorKind, a: ErrorKind, b: ErrorKind) -> (r: bool) ensures r == (k == a || k == b) { k == a || k == b }
}
pub struct Buf { pub v: Vec<u8> }
impl Buf {
    pub open spec fn view(&self) -> Seq<u8> { self.v@ }
    #[verifier::external_body]
    pub fn zeros(n: usize) -> (r: Buf) ensures r@.len() == n { unimplemented!() }
    /// `Cow::Borrowed(&buffer[..n])`
    #[verifier::external_body]
    pub fn to(&self, n: usize) -> (r: &[u8]) requires n <= self@.len() ensures r@ == self@.take(n as int) { unimplemented!() }
}
pub trait DrainX { spec fn sqv(&self) -> Seq<u8>;
    fn drain_to(&mut self, r: std::ops::RangeTo<usize>) requires r.end <= old(self).sqv().len() ensures final(self).sqv() == old(self).sqv().skip(r.end as int);
}
impl DrainX for Vec<u8> { open spec fn sqv(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn drain_to(&mut self, r: std::ops::RangeTo<usize>) { unimplemented!() }
}
pub mod net {
    use vstd::prelude::*;
    use super::*;
    pub use super::SocketAddr;
    pub enum Shutdown { Both }
    /// neither a timeout nor a signal
    pub open spec fn hard(e: io::Error) -> bool { e.k != io::ErrorKind::TimedOut && e.k != io::ErrorKind::Interrupted }
    /// a connection: the bytes the kernel took for it so far, and those it gave
    #[verifier::external_body]
    pub struct TcpStream { x: u64 }
    impl TcpStream {
        pub uninterp spec fn out(&self) -> Seq<u8>;
        pub uninterp spec fn inp(&self) -> Seq<u8>;
        pub uninterp spec fn local(&self) -> SocketAddr;
        #[verifier::external_body]
        pub fn write(&mut self, b: &Vec<u8>) -> (r: io::Result<usize>)
            ensures r is Ok ==> r->Ok_0 <= b@.len() && final(self).out() == old(self).out() + b@.take(r->Ok_0 as int), r is Err ==> final(self).out() == old(self).out(), final(self).inp() == old(self).inp(), final(self).local() == old(self).local() { unimplemented!() }
        #[verifier::external_body]
        pub fn flush(&mut self) -> (r: io::Result<()>) ensures *final(self) == *old(self) { unimplemented!() }
        #[verifier::external_body]
        pub fn read(&mut self, b: &mut Buf) -> (r: io::Result<usize>)
            ensures final(b)@.len() == old(b)@.len(), final(self).out() == old(self).out(), final(self).local() == old(self).local(),
                r is Ok ==> r->Ok_0 <= old(b)@.len() && final(self).inp() == old(self).inp() + final(b)@.take(r->Ok_0 as int), r is Err ==> final(self).inp() == old(self).inp() { unimplemented!() }
        #[verifier::external_body]
        pub fn local_addr(&self) -> (r: io::Result<SocketAddr>) ensures r is Ok ==> r->Ok_0 == self.local(), r is Err ==> hard(r->Err_0) { unimplemented!() }
        #[verifier::external_body]
        pub fn shutdown(&self, h: Shutdown) -> (r: io::Result<()>) { unimplemented!() }
        #[verifier::external_body]
        pub fn set_nonblocking(&self, b: bool) -> (r: io::Result<()>) ensures r is Err ==> hard(r->Err_0) { unimplemented!() }
        /// the connection was established (as opposed to refused)
        pub uninterp spec fn good(&self) -> bool;
        #[verifier::external_body]
        pub fn take_error(&self) -> (r: io::Result<Option<io::Error>>) ensures r is Ok && r->Ok_0 is None ==> self.good(), r is Err ==> hard(r->Err_0) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct TcpListener { x: u64 }
    impl TcpListener {
        /// connections handed out are new
        #[verifier::external_body]
        pub fn accept(&self) -> (r: io::Result<(TcpStream, SocketAddr)>) ensures r is Ok ==> r->Ok_0.0.out() == Seq::<u8>::empty() && r->Ok_0.0.inp() == Seq::<u8>::empty() && r->Ok_0.0.good() { unimplemented!() }
        #[verifier::external_body]
        pub fn local_addr(&self) -> (r: io::Result<SocketAddr>) ensures r is Err ==> hard(r->Err_0) { unimplemented!() }
    }
}
//@@ enum net/src/lib.rs | enum Link
//@ attr: #[derive(Copy, Clone)]
//@@ end
//@@ enum net/src/lib.rs | enum Disconnect
//@ subst: std::io::Error =>> io::Error
//@@ end
pub struct Reason { pub x: u64 }
impl Reason { #[verifier::external_body] pub fn into(self) -> (r: Disconnect<Reason>) ensures r == Disconnect::StateMachine(self) { unimplemented!() } }
pub struct Ev { pub x: u64 }
//@@ enum net/src/lib.rs | enum Io
//@ subst: Id : PeerId = net::SocketAddr =>> Id
//@@ end
pub type IoX = Io<Vec<u8>, Ev, Reason, SocketAddr>;

pub mod lem {
use vstd::prelude::*;
use super::*;
// ---- what passes between the reactor and the service, in order ----
pub enum Act {
    Out(IoX), Done, Init(LocalTime), Tick(LocalTime), Timer, Command(u64),
    Message(SocketAddr, Seq<u8>), Attempted(SocketAddr), Connected(SocketAddr, SocketAddr, Link), Disconnected(SocketAddr, Disconnect<Reason>),
}
pub type Tr = Seq<Act>;
pub enum St { Gone, Dialing, Up }
/// what the service was told last about an address
pub open spec fn st(t: Tr, a: SocketAddr) -> St decreases t.len() {
    if t.len() == 0 { St::Gone } else { match t.last() {
        Act::Attempted(b) => if a == b { St::Dialing } else { st(t.drop_last(), a) },
        Act::Connected(b, _, _) => if a == b { St::Up } else { st(t.drop_last(), a) },
        Act::Disconnected(b, _) => if a == b { St::Gone } else { st(t.drop_last(), a) },
        _ => st(t.drop_last(), a),
    } }
}
/// a connection begins with this
pub open spec fn begins(x: Act, a: SocketAddr) -> bool { x == Act::Attempted(a) || (x matches Act::Connected(b, _, l) && b == a && l == Link::Inbound) }
/// the bytes of the messages handed to the service since the connection began
pub open spec fn heard(t: Tr, a: SocketAddr) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else if begins(t.last(), a) { Seq::empty() }
    else { match t.last() { Act::Message(b, m) => if a == b { heard(t.drop_last(), a) + m } else { heard(t.drop_last(), a) }, _ => heard(t.drop_last(), a) } }
}
/// the bytes the service wrote since the connection began
pub open spec fn owed(t: Tr, a: SocketAddr) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else if begins(t.last(), a) { Seq::empty() }
    else { match t.last() { Act::Out(Io::Write(b, m)) => if a == b { owed(t.drop_last(), a) + m@ } else { owed(t.drop_last(), a) }, _ => owed(t.drop_last(), a) } }
}
/// a dial to the address is under way already
pub uninterp spec fn underway(a: SocketAddr) -> bool;
/// what may come next
pub open spec fn legal(t: Tr, x: Act) -> bool {
    &&& match x {
        Act::Attempted(a) => st(t, a) is Gone && t.len() > 0 && t.last() == Act::Out(Io::Connect(a)),
        Act::Connected(a, _, Link::Outbound) => st(t, a) is Dialing,
        Act::Connected(a, _, Link::Inbound) => st(t, a) is Gone,
        Act::Disconnected(a, Disconnect::DialError(_)) => st(t, a) is Dialing || st(t, a) is Gone && t.len() > 0 && t.last() == Act::Out(Io::Connect(a)),
        Act::Disconnected(a, Disconnect::ConnectionError(_)) => !(st(t, a) is Gone),
        Act::Disconnected(a, Disconnect::StateMachine(r)) => !(st(t, a) is Gone) && t.len() > 0 && t.last() == Act::Out(Io::Disconnect(a, r)),
        Act::Message(a, m) => !(st(t, a) is Gone) && m.len() > 0,
        _ => true,
    }
    // what the service asked for has been done by then
    &&& t.len() > 0 ==> match t.last() {
        Act::Out(Io::Disconnect(a, r)) => !(st(t, a) is Gone) ==> x == Act::Disconnected(a, Disconnect::StateMachine(r)),
        Act::Out(Io::Connect(a)) => x == Act::Attempted(a) || (x matches Act::Disconnected(b, d) && b == a && d is DialError) || underway(a),
        _ => true,
    }
}
/// nothing asked for is left undone
pub open spec fn quiet(t: Tr) -> bool { t.len() > 0 ==> match t.last() { Act::Out(Io::Disconnect(a, _)) => st(t, a) is Gone, Act::Out(Io::Connect(a)) => underway(a), _ => true } }
pub open spec fn ok(t: Tr) -> bool decreases t.len() { t.len() == 0 || ok(t.drop_last()) && legal(t.drop_last(), t.last()) }
pub open spec fn evs(t: Tr) -> Seq<Ev> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Act::Out(Io::Event(e)) => evs(t.drop_last()).push(e), _ => evs(t.drop_last()) } }
}
pub open spec fn alarms(t: Tr) -> Seq<LocalDuration> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Act::Out(Io::SetTimer(d)) => alarms(t.drop_last()).push(d), _ => alarms(t.drop_last()) } }
}
pub open spec fn cmds(t: Tr) -> Seq<u64> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Act::Command(e) => cmds(t.drop_last()).push(e), _ => cmds(t.drop_last()) } }
}
/// the times at which the service was told the time, after it was started
pub open spec fn ticks(t: Tr) -> Seq<LocalTime> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { match t.last() { Act::Tick(e) => ticks(t.drop_last()).push(e), _ => ticks(t.drop_last()) } }
}
/// how often it was woken by a timer
pub open spec fn rings(t: Tr) -> nat decreases t.len() {
    if t.len() == 0 { 0 } else { match t.last() { Act::Timer => rings(t.drop_last()) + 1, _ => rings(t.drop_last()) } }
}
/// nothing of this is between the two
pub open spec fn same(t: Tr, o: Tr) -> bool { evs(t) == evs(o) && alarms(t) == alarms(o) && cmds(t) == cmds(o) && ticks(t) == ticks(o) && rings(t) == rings(o) }
pub broadcast proof fn lemma_push(t: Tr, x: Act)
    ensures
        #![trigger t.push(x)]
        t.push(x).drop_last() == t, t.push(x).last() == x,
        ok(t.push(x)) == (ok(t) && legal(t, x)),
        evs(t.push(x)) == (match x { Act::Out(Io::Event(e)) => evs(t).push(e), _ => evs(t) }),
        alarms(t.push(x)) == (match x { Act::Out(Io::SetTimer(d)) => alarms(t).push(d), _ => alarms(t) }),
        cmds(t.push(x)) == (match x { Act::Command(e) => cmds(t).push(e), _ => cmds(t) }),
        ticks(t.push(x)) == (match x { Act::Tick(e) => ticks(t).push(e), _ => ticks(t) }),
        rings(t.push(x)) == (match x { Act::Timer => rings(t) + 1, _ => rings(t) }),
{ assert(t.push(x).drop_last() =~= t); }
pub broadcast proof fn lemma_st(t: Tr, x: Act, a: SocketAddr)
    ensures #[trigger] st(t.push(x), a) == (match x {
        Act::Attempted(b) => if a == b { St::Dialing } else { st(t, a) }, Act::Connected(b, _, _) => if a == b { St::Up } else { st(t, a) },
        Act::Disconnected(b, _) => if a == b { St::Gone } else { st(t, a) }, _ => st(t, a) })
{ assert(t.push(x).drop_last() =~= t); }
pub broadcast proof fn lemma_heard(t: Tr, x: Act, a: SocketAddr)
    ensures #[trigger] heard(t.push(x), a) == (if begins(x, a) { Seq::empty() } else { match x { Act::Message(b, m) => if a == b { heard(t, a) + m } else { heard(t, a) }, _ => heard(t, a) } })
{ assert(t.push(x).drop_last() =~= t); }
pub broadcast proof fn lemma_owed(t: Tr, x: Act, a: SocketAddr)
    ensures #[trigger] owed(t.push(x), a) == (if begins(x, a) { Seq::empty() } else { match x { Act::Out(Io::Write(b, m)) => if a == b { owed(t, a) + m@ } else { owed(t, a) }, _ => owed(t, a) } })
{ assert(t.push(x).drop_last() =~= t); }
pub broadcast group grp { lemma_push, lemma_st, lemma_heard, lemma_owed }
}
use lem::*;
broadcast use lem::grp;
pub open spec fn ext(a: Tr, b: Tr) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == #[trigger] b[i] }

/// the service: a recorder
#[verifier::external_body]
pub struct Svc { x: u64 }
impl Svc {
    pub uninterp spec fn tr(&self) -> Tr;
    /// what it wants done; it asks for connections only to addresses it has none with (properties C18, C22)
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<IoX>)
        ensures final(self).tr() == old(self).tr().push(match r { Some(o) => Act::Out(o), None => Act::Done }), // and timers of less than 2^64 ms
           
            r matches Some(Io::Connect(a)) ==> st(old(self).tr(), a) is Gone, r matches Some(Io::SetTimer(d)) ==> d.ms() < 0x1_0000_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn initialize(&mut self, t: LocalTime) ensures final(self).tr() == old(self).tr().push(Act::Init(t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn tick(&mut self, t: LocalTime) ensures final(self).tr() == old(self).tr().push(Act::Tick(t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn timer_expired(&mut self) ensures final(self).tr() == old(self).tr().push(Act::Timer) { unimplemented!() }
    #[verifier::external_body]
    pub fn command_received(&mut self, c: u64) ensures final(self).tr() == old(self).tr().push(Act::Command(c)) { unimplemented!() }
    #[verifier::external_body]
    pub fn message_received(&mut self, a: &SocketAddr, m: &[u8]) ensures final(self).tr() == old(self).tr().push(Act::Message(*a, m@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn attempted(&mut self, a: &SocketAddr) ensures final(self).tr() == old(self).tr().push(Act::Attempted(*a)) { unimplemented!() }
    #[verifier::external_body]
    pub fn connected(&mut self, a: SocketAddr, l: &SocketAddr, k: Link) ensures final(self).tr() == old(self).tr().push(Act::Connected(a, *l, k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn disconnected(&mut self, a: &SocketAddr, d: Disconnect<Reason>) ensures final(self).tr() == old(self).tr().push(Act::Disconnected(*a, d)) { unimplemented!() }
}
#[verifier::external_body]
pub struct Pub { x: u64 }
impl Pub {
    pub uninterp spec fn said(&self) -> Seq<Ev>;
    #[verifier::external_body]
    pub fn publish(&mut self, e: Ev) ensures final(self).said() == old(self).said().push(e) { unimplemented!() }
}
/// net/poll/src/time.rs (property C14): here a record of what was registered
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct TimeoutManager<K> { x: Vec<K> }
impl<K> TimeoutManager<K> {
    pub uninterp spec fn regs(&self) -> Seq<LocalTime>;
    #[verifier::external_body]
    pub fn register(&mut self, k: K, t: LocalTime) -> (r: bool) ensures final(self).regs() == old(self).regs().push(t), final(self).asked() == old(self).asked(), final(self).fired() == old(self).fired() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(t: LocalDuration) -> (r: Self) ensures r.regs().len() == 0, r.asked().len() == 0, r.fired() == 0 { unimplemented!() }
    /// the times at which it was asked for what is due, and how often something was
    pub uninterp spec fn asked(&self) -> Seq<LocalTime>;
    pub uninterp spec fn fired(&self) -> nat;
    #[verifier::external_body]
    pub fn next(&self, now: Clock) -> (r: Option<LocalDuration>) { unimplemented!() }
    #[verifier::external_body]
    pub fn wake(&mut self, now: LocalTime, woken: &mut Vec<K>) requires old(woken)@.len() == 0
        ensures final(self).asked() == old(self).asked().push(now), final(self).fired() == old(self).fired() + if final(woken)@.len() > 0 { 1nat } else { 0nat } { unimplemented!() }
}
/// the system clock
pub struct Clock { pub x: u64 }
impl Clock {
    /// it does not reach 2^64 milliseconds
    #[verifier::external_body]
    pub fn into(self) -> (r: LocalTime) ensures r.ms() < 0x1_0000_0000_0000_0000 { unimplemented!() }
}
pub struct SystemTime;
impl SystemTime { #[verifier::external_body] pub fn now() -> Clock { unimplemented!() } }
impl LocalDuration { #[verifier::external_body] pub fn into(self) -> u64 { unimplemented!() } }
pub mod popol {
    use vstd::prelude::*;
    use super::{io, LocalDuration};
    pub struct Event<K> { pub key: K, pub source: u64, pub e: bool, pub h: bool, pub w: bool, pub r: bool, pub i: bool }
    impl<K> Event<K> {
        pub fn is_error(&self) -> (r: bool) ensures r == self.e { self.e }
        pub fn is_hangup(&self) -> (r: bool) ensures r == self.h { self.h }
        pub fn is_invalid(&self) -> (r: bool) ensures r == self.i { self.i }
        pub fn is_writable(&self) -> (r: bool) ensures r == self.w { self.w }
        pub fn is_readable(&self) -> (r: bool) ensures r == self.r { self.r }
    }
    pub struct Waker { pub x: u64 }
    impl Waker { #[verifier::external_body] pub fn reset(x: u64) -> (r: io::Result<()>) { unimplemented!() } }
    /// `Vec::drain(..)`: they are taken in order
    pub trait Shift<T> { fn shift(&mut self) -> Option<T>; }
    impl<T> Shift<T> for Vec<T> {
        #[verifier::external_body]
        fn shift(&mut self) -> (r: Option<T>)
            ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    }
    pub mod interest {
        #[derive(Copy, Clone)]
        pub enum Interest { READ, WRITE, ALL }
        pub const ALL: Interest = Interest::ALL;
        pub const READ: Interest = Interest::READ;
        pub const WRITE: Interest = Interest::WRITE;
    }
    use interest::Interest;
    /// a registered descriptor: what it is watched for
    pub struct Source { pub r: bool, pub w: bool }
    impl Source {
        #[verifier::external_body]
        pub fn set(&mut self, i: Interest) ensures final(self).w == (old(self).w || i != Interest::READ), final(self).r == (old(self).r || i != Interest::WRITE) { unimplemented!() }
        #[verifier::external_body]
        pub fn unset(&mut self, i: Interest) ensures final(self).w == (old(self).w && i == Interest::READ), final(self).r == (old(self).r && i == Interest::WRITE) { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct Sources<K> { x: Vec<K> }
    impl<K> Sources<K> {
        pub uninterp spec fn view(&self) -> Map<K, Source>;
        /// says of registered descriptors (which are open) what can be done with them; with an error it may say anything, except when nothing happened in time
        #[verifier::external_body]
        pub fn wait_timeout(&mut self, ev: &mut Vec<Event<K>>, t: u64) -> (r: io::Result<usize>)
            requires old(ev)@.len() == 0
            ensures final(self)@ == old(self)@, r is Err && r->Err_0.k == io::ErrorKind::TimedOut ==> final(ev)@.len() == 0,
                forall|i: int| 0 <= i < final(ev)@.len() ==> old(self)@.contains_key((#[trigger] final(ev)@[i]).key) && !final(ev)@[i].i,
                forall|i: int, j: int| 0 <= i < j < final(ev)@.len() ==> (#[trigger] final(ev)@[i]).key != (#[trigger] final(ev)@[j]).key { unimplemented!() }
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<K, Source>::empty() { unimplemented!() }
        /// a key registered twice would leave two descriptors behind one name
        #[verifier::external_body]
        pub fn register<T>(&mut self, k: K, fd: &T, i: Interest) requires !old(self)@.contains_key(k) ensures final(self)@ == old(self)@.insert(k, Source { r: i != Interest::WRITE, w: i != Interest::READ }) { unimplemented!() }
        #[verifier::external_body]
        pub fn unregister(&mut self, k: &K) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
        #[verifier::external_body]
        pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut Source>)
            ensures match r {
                Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ }
        { unimplemented!() }
    }
}
pub struct Waker { pub x: u64 }
impl Waker {
    #[verifier::external_body]
    pub fn new(s: &mut popol::Sources<Source<SocketAddr>>) -> (r: io::Result<Waker>) requires !old(s)@.contains_key(Source::Waker)
        ensures r is Ok ==> final(s)@ == old(s)@.insert(Source::Waker, popol::Source { r: true, w: false }) { unimplemented!() }
}
pub mod chan {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { x: Vec<T> }
    impl<T> Receiver<T> {
        /// what was taken from it
        pub uninterp spec fn taken(&self) -> Seq<T>;
        #[verifier::external_body]
        pub fn try_next(&mut self) -> (r: Option<T>) ensures match r { Some(x) => final(self).taken() == old(self).taken().push(x), None => final(self).taken() == old(self).taken() } { unimplemented!() }
        pub uninterp spec fn some(&self) -> bool;
        #[verifier::external_body]
        pub fn try_recv(&self) -> (r: Result<T, u64>) ensures r is Ok ==> self.some() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> bool { unimplemented!() }
    }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { x: Vec<T> }
    impl<T> Sender<T> { #[verifier::external_body] pub fn send(&self, x: T) -> Result<(), u64> { unimplemented!() } }
}
//@@ const net/poll/src/reactor.rs | const READ_BUFFER_SIZE
//@@ end
//@@ enum net/poll/src/reactor.rs | enum Source
//@ subst: Id : PeerId =>> Id
//@@ end
//@@ struct net/poll/src/socket.rs | struct Socket
//@ subst: R : Read + Write =>> R
//@@ end
impl Socket<net::TcpStream> {
    /// every byte written is with the kernel or waits its turn
    pub open spec fn all(&self) -> Seq<u8> { self.raw.out() + self.buffer@ }
//@@ fn net/poll/src/socket.rs | impl Socket / fn from
//@ props: C23
//@ sig: pub fn from(raw: net::TcpStream, address: net::SocketAddr, link: Link) -> (r: Self)
//@ spec:
    ensures r.raw == raw, r.address == address, r.link == link, r.buffer@.len() == 0, r.all() == raw.out()
//@ exit:
    proof { assert(ret__.all() =~= raw.out()); }
//@@ end
//@@ fn net/poll/src/socket.rs | impl Socket / fn local_address
//@ props: C23
//@ spec:
    ensures r is Ok ==> r->Ok_0 == self.raw.local(), r is Err ==> net::hard(r->Err_0)
//@@ end
//@@ fn net/poll/src/socket.rs | impl Socket / fn take_error
//@ props: C23
//@ spec:
    ensures r is Ok && r->Ok_0 is None ==> self.raw.good(), r is Err ==> net::hard(r->Err_0)
//@@ end
//@@ fn net/poll/src/socket.rs | impl Socket / fn disconnect
//@ props: C23
//@@ end
//@@ fn net/poll/src/socket.rs | impl Socket / fn read
//@ props: C23
//@ sig: pub fn read(&mut self, buf: &mut Buf) -> (r: Result<usize, io::Error>)
//@ spec:
    ensures final(buf)@.len() == old(buf)@.len(), final(self).all() == old(self).all(), final(self).buffer@ == old(self).buffer@, final(self).link == old(self).link, final(self).address == old(self).address,
        r is Ok ==> r->Ok_0 <= old(buf)@.len() && final(self).raw.inp() == old(self).raw.inp() + final(buf)@.take(r->Ok_0 as int), r is Err ==> final(self).raw.inp() == old(self).raw.inp()
//@@ end
//@@ fn net/poll/src/socket.rs | impl Socket / fn push
//@ props: C23
//@ spec:
    ensures final(self).all() == old(self).all() + bytes@, final(self).raw == old(self).raw, final(self).link == old(self).link, final(self).address == old(self).address
//@ exit:
    proof { assert(self.all() =~= old(self).all() + bytes@); }
//@@ end
//@@ fn net/poll/src/socket.rs | impl Socket / fn flush
//@ props: C23
//@ attr: #[verifier::loop_isolation(false)]
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ cut: fallible! =>> ;
//@ subst: .drain(.. =>> .drain_to(..
//@ spec:
    ensures
        // nothing is lost, repeated or reordered, whatever the kernel takes
        final(self).all() == old(self).all(), final(self).raw.inp() == old(self).raw.inp(), final(self).raw.local() == old(self).raw.local(), final(self).link == old(self).link, final(self).address == old(self).address,
        // and when it says so everything is written
        r is Ok ==> final(self).buffer@.len() == 0,
//@ loop 0:
    invariant self.all() == old(self).all(), self.raw.inp() == old(self).raw.inp(), self.raw.local() == old(self).raw.local(), self.link == old(self).link, self.address == old(self).address
//@ loop_start 0:
    let ghost b0 = self.buffer@; let ghost o0 = self.raw.out();
//@ loop_end 0:
    proof { let n = b0.len() - self.buffer@.len(); assert(b0 =~= b0.take(n) + b0.skip(n)); assert(o0 + b0.take(n) + b0.skip(n) =~= o0 + b0); }
//@@ end
}
//@@ struct net/poll/src/reactor.rs | struct Reactor
//@ subst: R : Write + Read , Id : PeerId = net::SocketAddr =>> R, Id
//@ attr: #[verifier::reject_recursive_types(R)]
//@ attr: #[verifier::reject_recursive_types(Id)]
//@@ end
pub type Re = Reactor<net::TcpStream, SocketAddr>;
/// the reactor and the service agree on who is there, and no byte is lost on the way
pub open spec fn agree(s: Re, t: Tr) -> bool {
    &&& ok(t)
    &&& forall|a: SocketAddr| #![trigger s.peers@.contains_key(a)] #![trigger st(t, a)] {
        &&& s.peers@.contains_key(a) == !(st(t, a) is Gone)
        &&& s.sources@.contains_key(Source::Peer(a)) == s.peers@.contains_key(a)
        &&& s.connecting@.contains(a) == (st(t, a) is Dialing)
        &&& s.peers@.contains_key(a) ==> {
            let k = s.peers@[a]; let w = s.sources@[Source::Peer(a)];
            &&& k.all() == owed(t, a)
            &&& k.raw.inp() == heard(t, a)
            &&& w.r && (k.buffer@.len() > 0 || s.connecting@.contains(a) ==> w.w)
            &&& k.link == (if s.connecting@.contains(a) { Link::Outbound } else { k.link })
        }
    }
}
/// what was wanted since (`w0` to `w`) is what was done since (`d0` to `d`), in order
pub open spec fn said(w0: Seq<Ev>, w: Seq<Ev>, d0: Seq<Ev>, d: Seq<Ev>) -> bool {
    w0.len() <= w.len() && (forall|i: int| 0 <= i < w0.len() ==> #[trigger] w[i] == w0[i]) && d.len() - d0.len() == w.len() - w0.len() && (forall|i: int| 0 <= i < d0.len() ==> #[trigger] d[i] == d0[i]) && forall|i: int| d0.len() <= i < d.len() ==> #[trigger] d[i] == w[i - d0.len() + w0.len()]
}
pub open spec fn set(w0: Seq<LocalDuration>, w: Seq<LocalDuration>, d0: Seq<LocalTime>, d: Seq<LocalTime>, now: LocalTime) -> bool {
    w0.len() <= w.len() && d.len() - d0.len() == w.len() - w0.len() && (forall|i: int| 0 <= i < d0.len() ==> #[trigger] d[i] == d0[i]) && forall|i: int| d0.len() <= i < d.len() ==> (#[trigger] d[i]).ms() == now.ms() + w[i - d0.len() + w0.len()].ms()
}
/// no connections, no timers
pub open spec fn fresh(s: Re) -> bool {
    &&& s.timeouts.asked().len() == 0 && s.timeouts.fired() == 0 && !s.sources@.contains_key(Source::Listener)
    &&& forall|a: SocketAddr| #![trigger s.peers@.contains_key(a)] #![trigger s.connecting@.contains(a)] #![trigger s.sources@.contains_key(Source::Peer(a))] !s.peers@.contains_key(a) && !s.connecting@.contains(a) && !s.sources@.contains_key(Source::Peer(a))
}
/// everything else stays
pub open spec fn kept(s: Re, o: Re) -> bool { s.waker == o.waker && s.timeouts == o.timeouts && s.shutdown == o.shutdown && s.listening == o.listening && (forall|k: Source<SocketAddr>| !(k is Peer) ==> #[trigger] s.sources@.contains_key(k) == o.sources@.contains_key(k)) }
#[verifier::external_body]
pub fn dial(a: &SocketAddr) -> (r: Result<net::TcpStream, io::Error>)
    ensures r is Ok ==> r->Ok_0.out() == Seq::<u8>::empty() && r->Ok_0.inp() == Seq::<u8>::empty(), r is Err && r->Err_0.k == io::ErrorKind::AlreadyExists ==> underway(*a) { unimplemented!() }
#[verifier::external_body]
pub fn listen(a: &[SocketAddr]) -> (r: Result<net::TcpListener, io::Error>) ensures r is Err ==> net::hard(r->Err_0) { unimplemented!() }
use popol::Shift;
//@@ const net/poll/src/reactor.rs | const WAIT_TIMEOUT
//@ subst: LocalDuration::from_mins(60) =>> LocalDuration(3600000)
//@@ end
impl Reactor<net::TcpStream, SocketAddr> {
//@@ fn net/poll/src/reactor.rs | impl nakamoto_net :: Reactor for Reactor / fn new
//@ props: C23
//@ sig: fn new(shutdown: chan::Receiver<()>, listening: chan::Sender<net::SocketAddr>) -> (r: Result<Self, io::Error>)
//@ spec:
    ensures r is Ok ==> fresh(r->Ok_0)
//@@ end
//@@ fn net/poll/src/reactor.rs | impl nakamoto_net :: Reactor for Reactor / fn run
//@ props: C23
//@ sig: fn run(&mut self, listen_addrs: &[net::SocketAddr], mut service: Svc, mut publisher: Pub, mut commands: chan::Receiver<u64>) -> (r: Result<(), io::Error>)
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ subst: self::listen =>> listen
//@ subst: err.into() =>> err
//@ subst: for ev in events.drain(..) =>> while let Some(ev) = events.shift()
//@ subst: for cmd in commands.try_iter() =>> while let Some(cmd) = commands.try_next()
//@ subst: Id::from(socket_addr) =>> socket_addr
//@ spec:
    requires service.tr().len() == 0, publisher.said().len() == 0, commands.taken().len() == 0, fresh(*old(self)),
    ensures
        // it stops when told to, and never because of a signal
        r is Ok ==> final(self).shutdown.some(), r is Err ==> net::hard(r->Err_0)
//@ loop 0:
    invariant agree(*self, service.tr()), quiet(service.tr()), publisher.said() == evs(service.tr()), commands.taken() == cmds(service.tr()),
        self.timeouts.asked() == ticks(service.tr()), self.timeouts.fired() == rings(service.tr()), events@.len() == 0, timeouts@.len() == 0,
//@ after `service.initialize(local_time);`:
    assert(forall|a: SocketAddr| st(#[trigger] service.tr(), a) is Gone && owed(service.tr(), a).len() == 0 && heard(service.tr(), a).len() == 0);
//@ loop_before 0:
    proof { assert(publisher.said() =~= evs(service.tr())); assert(commands.taken() =~= cmds(service.tr())); assert(self.timeouts.asked() =~= ticks(service.tr())); }
//@ loop_end 0:
    proof { assert(publisher.said() =~= evs(service.tr())); }
//@ loop 1:
    invariant agree(*self, service.tr()), quiet(service.tr()), publisher.said() == evs(service.tr()), commands.taken() == cmds(service.tr()),
        self.timeouts.asked() == ticks(service.tr()).drop_last(), ticks(service.tr()).len() > 0, ticks(service.tr()).last() == local_time, self.timeouts.fired() == rings(service.tr()), timeouts@.len() == 0,
        local_time.ms() < 0x1_0000_0000_0000_0000,
        forall|i: int, b: SocketAddr| 0 <= i < events@.len() && (#[trigger] events@[i]).key == Source::Peer(b) ==> #[trigger] self.peers@.contains_key(b),
        forall|i: int| 0 <= i < events@.len() ==> !(#[trigger] events@[i]).i,
        forall|i: int, j: int| 0 <= i < j < events@.len() ==> (#[trigger] events@[i]).key != (#[trigger] events@[j]).key,
    ensures events@.len() == 0
//@ loop 2:
    invariant agree(*self, service.tr()), quiet(service.tr()), publisher.said() == evs(service.tr()), commands.taken() == cmds(service.tr()),
        self.timeouts.asked() == ticks(service.tr()).drop_last(), ticks(service.tr()).len() > 0, ticks(service.tr()).last() == local_time, self.timeouts.fired() == rings(service.tr()), timeouts@.len() == 0,
        local_time.ms() < 0x1_0000_0000_0000_0000,
        forall|i: int, b: SocketAddr| 0 <= i < events@.len() && (#[trigger] events@[i]).key == Source::Peer(b) ==> #[trigger] self.peers@.contains_key(b),
        forall|i: int| 0 <= i < events@.len() ==> !(#[trigger] events@[i]).i,
        forall|i: int, j: int| 0 <= i < j < events@.len() ==> (#[trigger] events@[i]).key != (#[trigger] events@[j]).key,
//@ loop 3:
    invariant agree(*self, service.tr()), quiet(service.tr()), publisher.said() == evs(service.tr()), commands.taken() == cmds(service.tr()),
        self.timeouts.asked() == ticks(service.tr()).drop_last(), ticks(service.tr()).len() > 0, ticks(service.tr()).last() == local_time, self.timeouts.fired() == rings(service.tr()), timeouts@.len() == 0,
        local_time.ms() < 0x1_0000_0000_0000_0000,
        forall|i: int, b: SocketAddr| 0 <= i < events@.len() && (#[trigger] events@[i]).key == Source::Peer(b) ==> #[trigger] self.peers@.contains_key(b),
        forall|i: int| 0 <= i < events@.len() ==> !(#[trigger] events@[i]).i,
        forall|i: int, j: int| 0 <= i < j < events@.len() ==> (#[trigger] events@[i]).key != (#[trigger] events@[j]).key,
//@@ end
//@@ fn net/poll/src/reactor.rs | impl Reactor / fn register_peer
//@ props: C23
//@ sig: fn register_peer(&mut self, addr: SocketAddr, stream: net::TcpStream, link: Link)
//@ spec:
    requires !old(self).sources@.contains_key(Source::Peer(addr))
    ensures kept(*final(self), *old(self)), final(self).connecting == old(self).connecting,
        final(self).sources@ == old(self).sources@.insert(Source::Peer(addr), popol::Source { r: true, w: true }),
        exists|k: Socket<net::TcpStream>| final(self).peers@ == #[trigger] old(self).peers@.insert(addr, k) && k.raw == stream && k.link == link && k.address == addr && k.buffer@.len() == 0 && k.all() == stream.out(),
//@@ end
//@@ fn net/poll/src/reactor.rs | impl Reactor / fn unregister_peer
//@ props: C23
//@ sig: fn unregister_peer(&mut self, addr: SocketAddr, reason: Disconnect<Reason>, service: &mut Svc)
//@ spec:
    ensures kept(*final(self), *old(self)), final(self).connecting@ == old(self).connecting@.remove(addr), final(self).peers@ == old(self).peers@.remove(addr),
        final(self).sources@ == old(self).sources@.remove(Source::Peer(addr)), final(service).tr() == old(service).tr().push(Act::Disconnected(addr, reason)),
//@@ end
//@@ fn net/poll/src/reactor.rs | impl Reactor / fn process
//@ props: C23
//@ sig: fn process(&mut self, service: &mut Svc, publisher: &mut Pub, local_time: LocalTime)
//@ attr: #[verifier::exec_allows_no_decreases_clause]
//@ subst: self::dial =>> dial
//@ spec:
    requires agree(*old(self), old(service).tr()), quiet(old(service).tr()), local_time.ms() < 0x1_0000_0000_0000_0000
    ensures agree(*final(self), final(service).tr()), ext(old(service).tr(), final(service).tr()),
        final(self).timeouts.asked() == old(self).timeouts.asked(), final(self).timeouts.fired() == old(self).timeouts.fired(),
        cmds(final(service).tr()) == cmds(old(service).tr()), ticks(final(service).tr()) == ticks(old(service).tr()), rings(final(service).tr()) == rings(old(service).tr()),
        final(self).shutdown == old(self).shutdown,
        // it goes on until the service wants nothing more
        final(service).tr().last() == Act::Done,
        // events reach the user, each once and in order; timers are set from now
        said(evs(old(service).tr()), evs(final(service).tr()), old(publisher).said(), final(publisher).said()),
        set(alarms(old(service).tr()), alarms(final(service).tr()), old(self).timeouts.regs(), final(self).timeouts.regs(), local_time),
//@ entry:
    let ghost t0 = service.tr(); let ghost p0 = publisher.said(); let ghost r0 = self.timeouts.regs();
//@ loop 0:
    invariant agree(*self, service.tr()), ext(t0, service.tr()), quiet(service.tr()),
        self.timeouts.asked() == old(self).timeouts.asked(), self.timeouts.fired() == old(self).timeouts.fired(), self.shutdown == old(self).shutdown,
        cmds(service.tr()) == cmds(t0), ticks(service.tr()) == ticks(t0), rings(service.tr()) == rings(t0),
        said(evs(t0), evs(service.tr()), p0, publisher.said()), set(alarms(t0), alarms(service.tr()), r0, self.timeouts.regs(), local_time), local_time.ms() < 0x1_0000_0000_0000_0000,
    ensures service.tr().last() == Act::Done, service.tr().len() > 0
//@@ end
//@@ fn net/poll/src/reactor.rs | impl Reactor / fn handle_readable
//@ props: C23
//@ sig: fn handle_readable(&mut self, addr: SocketAddr, service: &mut Svc)
//@ subst: [0; READ_BUFFER_SIZE] =>> Buf::zeros(READ_BUFFER_SIZE)
//@ subst: Cow::Borrowed(&buffer[..count]) =>> buffer.to(count)
//@ spec:
    requires agree(*old(self), old(service).tr()), quiet(old(service).tr())
    ensures agree(*final(self), final(service).tr()), ext(old(service).tr(), final(service).tr()), kept(*final(self), *old(self)),
        final(service).tr().len() <= old(service).tr().len() + 1, quiet(final(service).tr()), same(final(service).tr(), old(service).tr()),
        forall|b: SocketAddr| b != addr ==> st(#[trigger] final(service).tr(), b) == st(old(service).tr(), b),
//@@ end
//@@ fn net/poll/src/reactor.rs | impl Reactor / fn handle_writable
//@ props: C23
//@ sig: fn handle_writable(&mut self, addr: SocketAddr, source: &Source<SocketAddr>, service: &mut Svc) -> (r: io::Result<()>)
//@ subst: [io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero].contains(&err.kind()) =>> io::is_one_of(err.kind(), io::ErrorKind::WouldBlock, io::ErrorKind::WriteZero)
//@ spec:
    requires agree(*old(self), old(service).tr()), quiet(old(service).tr()), *source == Source::Peer(addr), old(self).peers@.contains_key(addr)
    ensures r is Ok ==> agree(*final(self), final(service).tr()), r is Err ==> net::hard(r->Err_0), ext(old(service).tr(), final(service).tr()), kept(*final(self), *old(self)),
        quiet(final(service).tr()), same(final(service).tr(), old(service).tr()),
        forall|b: SocketAddr| b != addr ==> st(#[trigger] final(service).tr(), b) == st(old(service).tr(), b),
//@@ end
}
} // verus!
fn main() {}
