// p2p/src/fsm/pingmgr.rs: pings, pongs and dead peers
use vstd::prelude::*;
use std::sync::Arc;
verus! {
global size_of usize == 8;
pub type Height = u64;
pub mod dep {
use vstd::prelude::*;
//@@ include shim_coll.rs
//@@ include shim_set.rs
//@@ include shim_keys.rs
}
use dep::*;
//@@ include shim_time.rs
pub struct BlockFilter {}
#[derive(Copy, Clone)]
pub struct FilterHash { pub x: u64 }
#[derive(Copy, Clone)]
pub struct FilterHeader { pub x: u64 }
//@@ include shim_fsm.rs
//@@ include shim_out.rs
pub mod fastrand {
    use vstd::prelude::*;
    /// random numbers: any
    #[verifier::external_body]
    pub struct Rng { x: u64 }
    impl Rng { #[verifier::external_body] pub fn u64(&self, r: std::ops::RangeFull) -> u64 { unimplemented!() } }
}
//@@ const p2p/src/fsm/pingmgr.rs | const MAX_RECORDED_LATENCIES
//@@ end
//@@ const p2p/src/fsm/pingmgr.rs | const PING_INTERVAL
//@ spec: ensures PING_INTERVAL.ms() == 120000
//@@ end
//@@ enum p2p/src/fsm/pingmgr.rs | enum State
//@@ end
//@@ struct p2p/src/fsm/pingmgr.rs | struct Peer
//@ subst: net::SocketAddr =>> SocketAddr
//@@ end
//@@ struct p2p/src/fsm/pingmgr.rs | struct PingManager
//@@ end
/// time passed (none if the clock went back)
pub open spec fn since(now: LocalTime, t: LocalTime) -> int { if now.ms() >= t.ms() { now.ms() - t.ms() } else { 0 } }
impl Peer {
    pub open spec fn awaiting(&self, nonce: u64, since: LocalTime) -> bool { self.state == (State::AwaitingPong { nonce, since }) }
    /// due to be dropped: it owes an answer for too long
    pub open spec fn dead(&self, now: LocalTime, t: LocalDuration) -> bool { self.state is AwaitingPong && since(now, self.state->AwaitingPong_since) >= t.ms() }
    /// due to be pinged again
    pub open spec fn due(&self, now: LocalTime) -> bool { self.state is Idle && since(now, self.state->Idle_since) >= 120000 }
//@@ fn p2p/src/fsm/pingmgr.rs | impl Peer / fn record_latency
//@ props: C19
//@ spec:
    requires old(self).latencies@.len() <= 64
    ensures final(self).latencies@.len() <= 64, final(self).latencies@[0] == sample, final(self).address == old(self).address, final(self).state == old(self).state
//@@ end
}
/// peers dropped among the first n listed
pub open spec fn dead_among(a: Seq<Peer>, now: LocalTime, t: LocalDuration) -> Seq<(PeerId, DisconnectReason)> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else if a.last().dead(now, t) { dead_among(a.drop_last(), now, t).push((a.last().address, DisconnectReason::PeerTimeout("ping"))) } else { dead_among(a.drop_last(), now, t) }
}
/// pings sent to those due
pub open spec fn pings(a: Seq<Peer>, b: Seq<Peer>, now: LocalTime) -> Seq<(PeerId, NetworkMessage)> decreases a.len() {
    if a.len() == 0 { Seq::empty() } else if a.last().due(now) { pings(a.drop_last(), b.drop_last(), now).push((a.last().address, NetworkMessage::Ping(b.last().state->AwaitingPong_nonce))) } else { pings(a.drop_last(), b.drop_last(), now) }
}
/// what a timer does to one peer
pub open spec fn ticked(a: Peer, b: Peer, now: LocalTime) -> bool {
    &&& b.address == a.address && b.latencies == a.latencies
    &&& if a.due(now) { b.state is AwaitingPong && b.state->AwaitingPong_since == now } else { b.state == a.state }
}
impl<C: Clock> PingManager<C> {
    pub open spec fn wf(&self) -> bool {
        forall|k: PeerId| #[trigger] self.peers@.contains_key(k) ==> self.peers@[k].address == k && self.peers@[k].latencies@.len() <= 64
    }
    pub open spec fn values(&self, ks: Seq<PeerId>) -> Seq<Peer> { ks.map_values(|k: PeerId| self.peers@[k]) }
    /// one round of the timer at a given time
    pub open spec fn round(&self, o: Self, ks: Seq<PeerId>, now: LocalTime) -> bool {
        &&& lists(ks, o.peers@)
        &&& self.outbox.drs() == o.outbox.drs() + dead_among(o.values(ks), now, o.ping_timeout)
        &&& self.outbox.wrs() == o.outbox.wrs() + pings(o.values(ks), self.values(ks), now)
        &&& forall|k: PeerId| #[trigger] o.peers@.contains_key(k) ==> ticked(o.peers@[k], self.peers@[k], now)
    }
//@@ fn p2p/src/fsm/pingmgr.rs | impl PingManager / fn peer_negotiated
//@ props: C19
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).ping_timeout == old(self).ping_timeout,
        exists|nonce: u64| final(self).outbox.ios() == #[trigger] old(self).outbox.ios().push(Io::Write(address, NetworkMessage::Ping(nonce))) && final(self).peers@ == old(self).peers@.insert(address, final(self).peers@[address])
            && #[trigger] final(self).peers@[address].awaiting(nonce, old(self).clock.now()), final(self).clock == old(self).clock
//@ exit:
    proof { assert(self.peers@[address].awaiting(self.peers@[address].state->AwaitingPong_nonce, self.clock.now())); }
//@@ end
//@@ fn p2p/src/fsm/pingmgr.rs | impl PingManager / fn received_ping
//@ props: C19
//@ spec:
    requires old(self).wf()
    ensures *final(self) == (PingManager { outbox: final(self).outbox, ..*old(self) }), r == old(self).peers@.contains_key(addr),
        final(self).outbox.ios() == (if r { old(self).outbox.ios().push(Io::Write(addr, NetworkMessage::Pong(nonce))) } else { old(self).outbox.ios() })
//@@ end
//@@ fn p2p/src/fsm/pingmgr.rs | impl PingManager / fn received_pong
//@ props: C19
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).outbox == old(self).outbox, final(self).ping_timeout == old(self).ping_timeout,
        r == (old(self).peers@.contains_key(addr) && old(self).peers@[addr].state is AwaitingPong && old(self).peers@[addr].state->AwaitingPong_nonce == nonce),
        !r ==> final(self).peers@ == old(self).peers@,
        r ==> final(self).peers@ == old(self).peers@.insert(addr, final(self).peers@[addr]) && final(self).peers@[addr].state == (State::Idle { since: old(self).clock.now() }), final(self).clock == old(self).clock,
//@@ end
//@@ fn p2p/src/fsm/pingmgr.rs | impl PingManager / fn timer_expired
//@ props: C19
//@ attr: #[verifier::spinoff_prover]
//@ subst: for peer in self.peers.values_mut() =>> let (vs, Ghost(ks)) = self.peers.values_mut(); let ghost VS = vs@; for peer in vs
//@ spec:
    requires old(self).wf()
    ensures
        final(self).wf(), final(self).ping_timeout == old(self).ping_timeout, final(self).peers@.dom() == old(self).peers@.dom(), final(self).outbox.evs() == old(self).outbox.evs(),
        exists|ks: Seq<PeerId>| #[trigger] final(self).round(*old(self), ks, old(self).clock.now()), final(self).clock == old(self).clock
//@ entry:
    broadcast use lemma_push;
    let ghost O = *self;
//@ loop 0 it=it:
    invariant
        it.seq() == VS, A.len() == it.index@, B.len() == it.index@, O.wf(), lists(ks, O.peers@), ks.len() == VS.len(),
        self.ping_timeout == O.ping_timeout, self.clock == O.clock, now == O.clock.now(),
        self.outbox.evs() == O.outbox.evs(), self.outbox.drs() == O.outbox.drs() + dead_among(A, now, O.ping_timeout), self.outbox.wrs() == O.outbox.wrs() + pings(A, B, now),
        forall|i: int| 0 <= i < VS.len() ==> *(#[trigger] VS[i]) == O.peers@[ks[i]],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] A[i] == *VS[i],
        forall|i: int| 0 <= i < it.index@ ==> #[trigger] B[i] == *final(VS[i]),
        forall|i: int| 0 <= i < it.index@ ==> ticked(A[i], #[trigger] B[i], now),
//@ loop_before 0:
    let ghost mut A = Seq::<Peer>::empty(); let ghost mut B = Seq::<Peer>::empty();
    proof { assert(O.outbox.drs() + dead_among(A, now, O.ping_timeout) =~= O.outbox.drs()); assert(O.outbox.wrs() + pings(A, B, now) =~= O.outbox.wrs()); }
//@ loop_start 0:
    broadcast use lemma_push;
    let ghost a = *peer; let ghost o0 = self.outbox;
//@ loop_end 0:
    let ghost b = *peer;
    proof {
        assert(ticked(a, b, now)); assert(a == *VS[it.index@]);
        assert(A.push(a).drop_last() =~= A && B.push(b).drop_last() =~= B);
        let d = (a.address, DisconnectReason::PeerTimeout("ping"));
        assert(O.outbox.drs() + dead_among(A, now, O.ping_timeout).push(d) =~= (O.outbox.drs() + dead_among(A, now, O.ping_timeout)).push(d));
        let w = (a.address, NetworkMessage::Ping(b.state->AwaitingPong_nonce));
        assert(O.outbox.wrs() + pings(A, B, now).push(w) =~= (O.outbox.wrs() + pings(A, B, now)).push(w));
        A = A.push(a); B = B.push(b);
    }
//@ loop_after 0:
    proof {
        assert forall|k: PeerId| #[trigger] O.peers@.contains_key(k) implies ticked(O.peers@[k], self.peers@[k], now) by {
            assert(ks.to_set().contains(k)); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k; assert(A[i] == *VS[i]); }
        assert forall|i: int| 0 <= i < ks.len() implies O.peers@.contains_key(#[trigger] ks[i]) by { assert(ks.to_set().contains(ks[i])); }
        assert(O.values(ks) =~= A) by { assert forall|i: int| 0 <= i < A.len() implies A[i] == #[trigger] O.values(ks)[i] by { assert(*VS[i] == O.peers@[ks[i]]); } }
        assert(self.values(ks) =~= B) by { assert forall|i: int| 0 <= i < B.len() implies B[i] == #[trigger] self.values(ks)[i] by { assert(*VS[i] == O.peers@[ks[i]]); assert(A[i] == *VS[i]); } }
        assert(self.round(O, ks, now));
        assert(self.wf());
    }
//@@ end
//@@ fn p2p/src/fsm/pingmgr.rs | impl PingManager / fn received_event
//@ props: C19
//@ subst: message.as_ref() =>> &*message
//@ spec:
    requires old(self).wf()
    ensures final(self).wf(), final(self).ping_timeout == old(self).ping_timeout, final(self).clock == old(self).clock,
        (match event {
            Event::PeerNegotiated { addr, .. } => final(self).peers@.dom() == old(self).peers@.dom().insert(addr) && final(self).peers@[addr].state is AwaitingPong && final(self).peers@[addr].state->AwaitingPong_since == old(self).clock.now() && final(self).peers@ == old(self).peers@.insert(addr, final(self).peers@[addr])
                && final(self).outbox.ios() == old(self).outbox.ios().push(Io::Write(addr, NetworkMessage::Ping(final(self).peers@[addr].state->AwaitingPong_nonce))),
            Event::PeerDisconnected { addr, .. } => final(self).peers@ == old(self).peers@.remove(addr) && final(self).outbox == old(self).outbox,
            Event::MessageReceived { from, message } => (match *message {
                NetworkMessage::Ping(n) => final(self).peers@ == old(self).peers@ && final(self).outbox.ios() == (if old(self).peers@.contains_key(from) { old(self).outbox.ios().push(Io::Write(from, NetworkMessage::Pong(n))) } else { old(self).outbox.ios() }),
                NetworkMessage::Pong(n) => final(self).outbox == old(self).outbox && (if old(self).peers@.contains_key(from) && old(self).peers@[from].state is AwaitingPong && old(self).peers@[from].state->AwaitingPong_nonce == n {
                        final(self).peers@ == old(self).peers@.insert(from, final(self).peers@[from]) && final(self).peers@[from].state == (State::Idle { since: old(self).clock.now() }) }
                    else { final(self).peers@ == old(self).peers@ }),
                _ => final(self).peers@ == old(self).peers@ && final(self).outbox == old(self).outbox }),
            _ => final(self).peers@ == old(self).peers@ && final(self).outbox == old(self).outbox }),
//@@ end
}
} // verus!
fn main() {}
