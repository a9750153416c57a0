// ---- p2p/src/fsm/output.rs: the queue of outputs; peers, messages and events are data ----
pub enum Io { Write(PeerId, NetworkMessage), Connect(PeerId), Disconnect(PeerId, DisconnectReason), SetTimer(LocalDuration), Event(Event) }
/// messages written to peers, in order
pub open spec fn writes(s: Seq<Io>) -> Seq<(PeerId, NetworkMessage)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() is Write { writes(s.drop_last()).push((s.last()->Write_0, s.last()->Write_1)) } else { writes(s.drop_last()) }
}
/// events reported, in order
pub open spec fn events(s: Seq<Io>) -> Seq<Event> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() is Event { events(s.drop_last()).push(s.last()->Event_0) } else { events(s.drop_last()) }
}
/// peers told to go away, in order
pub open spec fn drops(s: Seq<Io>) -> Seq<(PeerId, DisconnectReason)> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() is Disconnect { drops(s.drop_last()).push((s.last()->Disconnect_0, s.last()->Disconnect_1)) } else { drops(s.drop_last()) }
}
pub broadcast proof fn lemma_push(s: Seq<Io>, x: Io)
    ensures
        #![trigger s.push(x)]
        events(s.push(x)) == (if x is Event { events(s).push(x->Event_0) } else { events(s) }),
        writes(s.push(x)) == (if x is Write { writes(s).push((x->Write_0, x->Write_1)) } else { writes(s) }),
        drops(s.push(x)) == (if x is Disconnect { drops(s).push((x->Disconnect_0, x->Disconnect_1)) } else { drops(s) }),
{ assert(s.push(x).drop_last() =~= s); }
//@@ struct p2p/src/fsm/output.rs | struct Outbox
//@@ end
impl Outbox {
    pub open spec fn ios(&self) -> Seq<Io> { self.outbound@ }
    pub open spec fn evs(&self) -> Seq<Event> { events(self.outbound@) }
    pub open spec fn wrs(&self) -> Seq<(PeerId, NetworkMessage)> { writes(self.outbound@) }
    pub open spec fn drs(&self) -> Seq<(PeerId, DisconnectReason)> { drops(self.outbound@) }
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn push
//@ spec:
    ensures final(self).ios() == old(self).ios().push(output), final(self).version == old(self).version
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn message
//@ sig: pub fn message(&mut self, addr: PeerId, payload: NetworkMessage)
//@ subst: ; self } =>> ; }
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, payload)), final(self).version == old(self).version
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn event
//@ sig: pub fn event(&mut self, event: Event)
//@ subst: event.into() =>> event
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Event(event)), final(self).version == old(self).version
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn disconnect
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ sigsubst: super::DisconnectReason =>> DisconnectReason
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Disconnect(addr, reason)), final(self).version == old(self).version
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn set_timer
//@ spec:
    ensures r.ios() == old(self).ios().push(Io::SetTimer(duration)), r.version == old(self).version, *final(r) == *final(self)
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn connect
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Connect(addr)).push(Io::SetTimer(timeout)), final(self).version == old(self).version
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn version
//@ spec:
    ensures r.ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Version(msg))), r.version == old(self).version, *final(r) == *final(self)
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn verack
//@ spec:
    ensures r.ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Verack)), r.version == old(self).version, *final(r) == *final(self)
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn wtxid_relay
//@ spec:
    ensures r.ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::WtxidRelay)), r.version == old(self).version, *final(r) == *final(self)
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn send_headers
//@ spec:
    ensures r.ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::SendHeaders)), r.version == old(self).version, *final(r) == *final(self)
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn ping
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ spec:
    ensures r.ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Ping(nonce))), r.version == old(self).version, *final(r) == *final(self)
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn pong
//@ sigsubst: net::SocketAddr =>> SocketAddr
//@ spec:
    ensures r.ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Pong(nonce))), r.version == old(self).version, *final(r) == *final(self)
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn inv
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Inv(inventories)))
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn get_data
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::GetData(inventories)))
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn tx
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Tx(tx)))
//@@ end
    /// `error()`: an `Event::Error`
    #[verifier::external_body]
    pub fn error<E>(&mut self, error: E) ensures exists|x: Event| x is Error && final(self).ios() == #[trigger] old(self).ios().push(Io::Event(x)), final(self).version == old(self).version { unimplemented!() }
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn get_headers
//@ sig: pub fn get_headers(&mut self, addr: PeerId, locs: Locators)
//@ entry: let (locator_hashes, stop_hash) = locs;
//@ spec:
    ensures final(self).version == old(self).version, final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::GetHeaders(GetHeadersMessage { version: old(self).version, locator_hashes: locs.0, stop_hash: locs.1 })))
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn headers
//@ spec:
    ensures final(self).version == old(self).version, final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Headers(headers)))
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn get_cfheaders
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::GetCFHeaders(GetCFHeaders { filter_type: 0, start_height: start_height as u32, stop_hash }))).push(Io::SetTimer(timeout))
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn cfheaders
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::CFHeaders(headers)))
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn get_cfilters
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::GetCFilters(GetCFilters { filter_type: 0, start_height: start_height as u32, stop_hash }))).push(Io::SetTimer(timeout))
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn get_addr
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::GetAddr)), final(self).version == old(self).version
//@@ end
//@@ fn p2p/src/fsm/output.rs | impl Outbox / fn addr
//@ sigsubst: BlockTime =>> u32
//@ spec:
    ensures final(self).ios() == old(self).ios().push(Io::Write(addr, NetworkMessage::Addr(addrs))), final(self).version == old(self).version
//@@ end
}
