//! The real reactor on loopback sockets, driving a recording service (C23).
use crate::util::*;
use crossbeam_channel as chan;
use nakamoto_net::{Disconnect, Io, Link, LocalDuration, LocalTime, Reactor as _, Service, StateMachine, Waker as _};
use nakamoto_net_poll::Reactor;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

const T: &str = "C23";
/// how long to wait for something that has to happen; only ever used up when it does not
const LONG: Duration = Duration::from_secs(15);

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Reason(u64);
impl std::fmt::Display for Reason { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl From<Reason> for Disconnect<Reason> { fn from(r: Reason) -> Self { Disconnect::StateMachine(r) } }

#[derive(Debug, Clone, PartialEq)]
enum Why { Dial, Conn, Fsm(u64) }

#[derive(Debug, Default, Clone)]
struct Life { attempted: bool, connected: Option<(SocketAddr, bool)>, bytes: Vec<u8>, ended: Option<Why> }

#[derive(Default)]
struct Book {
    lives: BTreeMap<SocketAddr, Vec<Life>>,
    dials: BTreeMap<SocketAddr, u64>,
    wrong: Vec<String>,
    cmds: Vec<u64>,
    timers: Vec<Instant>,
    ticks: u64,
    inits: u64,
    calls: Vec<String>,
    events: Vec<u64>,
}
impl Book {
    fn open(&mut self, a: &SocketAddr) -> Option<&mut Life> { self.lives.get_mut(a).and_then(|v| v.last_mut()).filter(|l| l.ended.is_none()) }
    fn say(&mut self, s: String) { if self.calls.len() < 400 { self.calls.push(s) } }
}
#[derive(Clone, Default)]
struct Shared(Arc<(Mutex<Book>, Condvar)>);
impl Shared {
    fn with<R>(&self, f: impl FnOnce(&mut Book) -> R) -> R { let mut b = self.0 .0.lock().unwrap(); let r = f(&mut b); self.0 .1.notify_all(); r }
    fn until(&self, f: impl Fn(&mut Book) -> bool) -> bool {
        let end = Instant::now() + LONG;
        let mut b = self.0 .0.lock().unwrap();
        loop {
            if f(&mut b) { return true; }
            let now = Instant::now();
            if now >= end { return false; }
            b = self.0 .1.wait_timeout(b, (end - now).min(Duration::from_millis(200))).unwrap().0;
        }
    }
}

type Out = Io<Vec<u8>, u64, Reason>;
pub struct Cmd(u64, Vec<Out>);
struct Svc { s: Shared, out: VecDeque<Out>, greet: usize }
impl Service for Svc {
    type Command = Cmd;
    fn command_received(&mut self, c: Cmd) {
        self.s.with(|b| {
            b.cmds.push(c.0);
            for o in &c.1 { if let Io::Connect(a) = o { *b.dials.entry(*a).or_insert(0) += 1; } }
        });
        self.out.extend(c.1);
    }
}
impl StateMachine for Svc {
    type Message = [u8];
    type Event = u64;
    type DisconnectReason = Reason;
    fn initialize(&mut self, _: LocalTime) { self.s.with(|b| { b.inits += 1; if b.ticks > 0 { b.wrong.push("initialised after a tick".into()) } }) }
    fn tick(&mut self, _: LocalTime) { self.s.with(|b| { b.ticks += 1; if b.inits != 1 { b.wrong.push(format!("tick after {} initialisations", b.inits)) } }) }
    fn timer_expired(&mut self) { self.s.with(|b| { b.timers.push(Instant::now()); b.say("timer".into()) }) }
    fn message_received(&mut self, a: &SocketAddr, m: Cow<[u8]>) {
        self.s.with(|b| {
            b.say(format!("{} bytes from {}", m.len(), a));
            if m.is_empty() { b.wrong.push(format!("an empty message from {}", a)); }
            match b.open(a) {
                Some(l) if l.connected.is_some() => l.bytes.extend_from_slice(&m),
                _ => b.wrong.push(format!("bytes from {}, which is not connected", a)),
            }
        })
    }
    fn attempted(&mut self, a: &SocketAddr) {
        self.s.with(|b| {
            b.say(format!("attempted {}", a));
            if b.open(a).is_some() { b.wrong.push(format!("{} attempted while open", a)); }
            match b.dials.get_mut(a) { Some(n) if *n > 0 => *n -= 1, _ => b.wrong.push(format!("{} attempted without being asked", a)) }
            b.lives.entry(*a).or_default().push(Life { attempted: true, ..Life::default() });
        })
    }
    fn connected(&mut self, a: SocketAddr, local: &SocketAddr, link: Link) {
        if self.greet > 0 { self.out.push_back(Io::Write(a, greeting(self.greet))); }
        self.s.with(|b| {
            b.say(format!("connected {} {:?}", a, link));
            let out = link == Link::Outbound;
            match b.open(&a) {
                Some(l) if out && l.attempted && l.connected.is_none() => l.connected = Some((*local, true)),
                None if !out => b.lives.entry(a).or_default().push(Life { connected: Some((*local, false)), ..Life::default() }),
                x => { let m = format!("{} connected {:?} when {:?}", a, link, x.map(|l| (l.attempted, l.connected))); b.wrong.push(m) }
            }
        })
    }
    fn disconnected(&mut self, a: &SocketAddr, r: Disconnect<Reason>) {
        let w = match r { Disconnect::DialError(_) => Why::Dial, Disconnect::ConnectionError(_) => Why::Conn, Disconnect::StateMachine(r) => Why::Fsm(r.0) };
        self.s.with(|b| {
            b.say(format!("disconnected {} {:?}", a, w));
            if b.open(a).is_some() {
                let l = b.open(a).unwrap();
                let early = l.connected.is_none();
                l.ended = Some(w.clone());
                if w == Why::Dial && !early { b.wrong.push(format!("{} ended with a dial error after it was connected", a)); }
            } else if w == Why::Dial && b.dials.get(a).map_or(false, |n| *n > 0) {
                *b.dials.get_mut(a).unwrap() -= 1;
                b.lives.entry(*a).or_default().push(Life { ended: Some(w), ..Life::default() });
            } else { b.wrong.push(format!("{} reported gone ({:?}), which was not there", a, w)); }
        })
    }
}
impl Iterator for Svc { type Item = Out; fn next(&mut self) -> Option<Out> { self.out.pop_front() } }

struct Pub(Shared);
impl nakamoto_net::Publisher<u64> for Pub { fn publish(&mut self, e: u64) { self.0.with(|b| b.events.push(e)) } }

fn greeting(n: usize) -> Vec<u8> { (0..n).map(|i| (i % 251) as u8 ^ 0x5a).collect() }

struct Node {
    s: Shared,
    cmds: chan::Sender<Cmd>,
    wake: nakamoto_net_poll::Waker,
    stop: chan::Sender<()>,
    at: SocketAddr,
    th: Option<std::thread::JoinHandle<Result<(), String>>>,
    n: u64,
    id: Arc<std::sync::atomic::AtomicUsize>,
}
impl Node {
    fn start(greet: usize) -> Option<Node> {
        let s = Shared::default();
        let (stop, stop_r) = chan::bounded(1);
        let (lis, lis_r) = chan::bounded(1);
        let (cmds, cmds_r) = chan::unbounded();
        let (wt, wr) = chan::bounded(1);
        let svc = Svc { s: s.clone(), out: VecDeque::new(), greet };
        let p = Pub(s.clone());
        let id = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let id2 = id.clone();
        let th = std::thread::spawn(move || {
            id2.store(unsafe { pthread_self() }, std::sync::atomic::Ordering::SeqCst);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut r = <Reactor<TcpStream> as nakamoto_net::Reactor>::new(stop_r, lis).map_err(|e| format!("start: {}", e))?;
                wt.send(r.waker()).ok();
                r.run(&[([127, 0, 0, 1], 0).into()], svc, p, cmds_r).map_err(|e| format!("{}", e))
            }));
            match r { Ok(r) => r, Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))) }
        });
        let wake = wr.recv_timeout(LONG).ok()?;
        let at = lis_r.recv_timeout(LONG).ok()?;
        Some(Node { s, cmds, wake, stop, at, th: Some(th), n: 0, id })
    }
    fn ask(&mut self, outs: Vec<Out>) { self.n += 1; self.cmds.send(Cmd(self.n, outs)).ok(); self.wake.wake().ok(); }
    fn end(mut self, c: &mut Case) {
        self.stop.send(()).ok();
        self.wake.wake().ok();
        let th = self.th.take().unwrap();
        let t0 = Instant::now();
        while !th.is_finished() && t0.elapsed() < LONG { std::thread::sleep(Duration::from_micros(200)); }
        if !th.is_finished() { c.fail(T, "the reactor does not shut down"); return; }
        match th.join() { Ok(Ok(())) => {} Ok(Err(e)) => c.fail(T, format!("the reactor stopped: {}", e)), Err(_) => c.fail(T, "the reactor panicked") }
    }
    fn dead(&self) -> bool { self.th.as_ref().map_or(true, |t| t.is_finished()) }
}

/// The other end of one connection.
struct Far { addr: SocketAddr, sock: TcpStream, outbound: bool, sent: Vec<u8>, owed: Vec<u8>, got: usize, cut: Option<u64>, shut: bool, life: usize }

fn connect_from(src: SocketAddr, to: SocketAddr) -> Option<TcpStream> {
    use socket2::{Domain, Socket, Type};
    let s = Socket::new(Domain::IPV4, Type::STREAM, None).ok()?;
    s.set_reuse_address(true).ok()?;
    s.set_reuse_port(true).ok()?;
    s.bind(&src.into()).ok()?;
    s.connect(&to.into()).ok()?;
    Some(s.into())
}
fn listen_on(a: SocketAddr) -> Option<TcpListener> {
    use socket2::{Domain, Socket, Type};
    let s = Socket::new(Domain::IPV4, Type::STREAM, None).ok()?;
    s.set_reuse_address(true).ok()?;
    s.set_reuse_port(true).ok()?;
    s.bind(&a.into()).ok()?;
    s.listen(16).ok()?;
    Some(s.into())
}

fn payload(c: &mut Case) -> Vec<u8> {
    let n = match c.rng.below(6) { 0 => 1, 1 => 1 + c.rng.usize(100), 2 | 3 => 1 + c.rng.usize(5000), 4 => 1 + c.rng.usize(60_000), _ => 1 + c.rng.usize(900_000) };
    let k = c.rng.u64();
    (0..n).map(|i| ((k >> (i % 57)) as u8).wrapping_add(i as u8).wrapping_add((i >> 8) as u8)).collect()
}

/// read what is owed to this end so far
fn drain(c: &mut Case, f: &mut Far) {
    let mut buf = vec![0u8; 1 << 16];
    f.sock.set_read_timeout(Some(LONG)).ok();
    while f.got < f.owed.len() {
        match f.sock.read(&mut buf) {
            Ok(0) => { c.fail(T, format!("{}: the connection ended after {} of {} bytes", f.addr, f.got, f.owed.len())); return; }
            Ok(n) => {
                if f.got + n > f.owed.len() || buf[..n] != f.owed[f.got..f.got + n] { c.fail(T, format!("{}: got bytes that were not written, or out of order, at {}", f.addr, f.got)); return; }
                f.got += n;
            }
            Err(e) => { c.fail(T, format!("{}: {} of {} bytes written arrived: {}", f.addr, f.got, f.owed.len(), e)); return; }
        }
    }
}
/// after the node cut the connection: what arrived is a prefix of what was written, and then it ends
fn ended(c: &mut Case, f: &mut Far) {
    let mut buf = vec![0u8; 1 << 16];
    f.sock.set_read_timeout(Some(LONG)).ok();
    loop {
        match f.sock.read(&mut buf) {
            Ok(0) => return,
            Ok(n) => {
                if f.got + n > f.owed.len() || buf[..n] != f.owed[f.got..f.got + n] { c.fail(T, format!("{}: got bytes that were not written, or out of order, at {}", f.addr, f.got)); return; }
                f.got += n;
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => { c.fail(T, format!("{}: told to disconnect, the node keeps the connection", f.addr)); return; }
            Err(_) => return,
        }
    }
}

fn flags(c: &mut Case, n: &Node) -> bool {
    let (w, calls) = n.s.with(|b| (b.wrong.clone(), if b.wrong.is_empty() { vec![] } else { b.calls.clone() }));
    for x in calls { c.op(format!("service: {}", x)); }
    for x in &w { c.fail(T, x.clone()); }
    !w.is_empty() || !c.fails.is_empty() || n.dead()
}

fn settle(c: &mut Case, n: &Node, far: &mut Vec<Far>, events: &[u64]) {
    for f in far.iter_mut() {
        let (a, life, want) = (f.addr, f.life, f.sent.len());
        let cut = f.cut;
        if cut.is_none() && !f.shut {
            drain(c, f);
            if !n.s.until(|b| b.lives[&a][life].bytes.len() >= want || !b.wrong.is_empty()) { c.fail(T, format!("{}: {} of {} bytes sent reached the service", a, n.s.with(|b| b.lives[&a][life].bytes.len()), want)); }
            let l = n.s.with(|b| b.lives[&a][life].clone());
            c.check(l.bytes == f.sent, T, || format!("{}: the service got {} bytes, not those sent ({})", a, l.bytes.len(), f.sent.len()));
            c.check(l.ended.is_none(), T, || format!("{}: reported gone ({:?}) though nothing ended it", a, l.ended));
        } else {
            if !n.s.until(|b| b.lives[&a][life].ended.is_some() || !b.wrong.is_empty()) { c.fail(T, format!("{}: gone, but never reported", a)); }
            let l = n.s.with(|b| b.lives[&a][life].clone());
            match (cut, f.shut) {
                (Some(r), false) => { c.check(l.ended == Some(Why::Fsm(r)), T, || format!("{}: disconnected for {}, reported {:?}", a, r, l.ended)); ended(c, f); }
                (None, true) => {
                    c.check(l.ended == Some(Why::Conn), T, || format!("{}: hung up, reported {:?}", a, l.ended));
                    c.check(l.bytes == f.sent, T, || format!("{}: hung up after {} bytes, {} arrived", a, f.sent.len(), l.bytes.len()));
                }
                _ => {}
            }
            c.check(f.sent.starts_with(&l.bytes), T, || format!("{}: the service got bytes never sent", a));
        }
        if !c.fails.is_empty() { return; }
    }
    far.retain(|f| f.cut.is_none() && !f.shut);
    let k = events.len();
    if !n.s.until(|b| b.events.len() >= k) { c.fail(T, format!("{} of {} events published", n.s.with(|b| b.events.len()), k)); }
    let got = n.s.with(|b| b.events.clone());
    c.check(got == events, T, || format!("events {:?} published as {:?}", events, got));
    let m = n.n;
    if !n.s.until(|b| b.cmds.len() as u64 >= m) { c.fail(T, "a command was not handed over"); }
    let got = n.s.with(|b| b.cmds.clone());
    c.check(got == (1..=m).collect::<Vec<_>>(), T, || format!("commands 1..={} handed over as {:?}", m, got));
}

fn adopt(c: &mut Case, n: &Node, a: SocketAddr, sock: TcpStream, outbound: bool, greet: usize) -> Option<Far> {
    let up = n.s.until(|b| !b.wrong.is_empty() || b.open(&a).map_or(false, |l| l.connected.is_some()));
    if !up { c.fail(T, format!("{}: a connection was never reported", a)); return None; }
    let (life, l) = n.s.with(|b| { let v = b.lives.get(&a).cloned().unwrap_or_default(); (v.len().wrapping_sub(1), v.last().cloned().unwrap_or_default()) });
    let (local, out) = l.connected?;
    c.check(out == outbound, T, || format!("{}: reported as {}", a, if out { "outbound" } else { "inbound" }));
    c.check(local == sock.peer_addr().unwrap_or(local), T, || format!("{}: reported with local address {}, not {:?}", a, local, sock.peer_addr()));
    sock.set_nodelay(true).ok();
    sock.set_write_timeout(Some(LONG)).ok();
    Some(Far { addr: a, sock, outbound, sent: vec![], owed: if greet > 0 { greeting(greet) } else { vec![] }, got: 0, cut: None, shut: false, life })
}

pub fn reactor(c: &mut Case) {
    let greet = if c.rng.chance(1, 2) { 1 + c.rng.usize(3000) } else { 0 };
    let mut n = match Node::start(greet) { Some(n) => n, None => { c.fail(T, "the reactor does not start"); return; } };
    let mut far: Vec<Far> = vec![];
    let mut events = vec![];
    let mut used = BTreeSet::new();
    let steps = 6 + c.rng.usize(16);
    let mut mark = 0u64;
    for _ in 0..steps {
        if flags(c, &n) { break; }
        match c.rng.below(17) {
            0 | 1 => {
                let s = match TcpStream::connect(n.at) { Ok(s) => s, Err(_) => continue };
                let a = s.local_addr().unwrap();
                if !used.insert(a) && far.iter().any(|f| f.addr == a) { continue; }
                c.op(format!("{} connects", a));
                c.hit("inbound");
                if let Some(f) = adopt(c, &n, a, s, false, greet) { far.push(f); }
            }
            2 | 3 | 4 => {
                let ip = [127, 0, 1 + c.rng.below(200) as u8, 1 + c.rng.below(250) as u8];
                let l = match listen_on((ip, 0).into()) { Some(l) => l, None => continue };
                let a = l.local_addr().unwrap();
                c.op(format!("dial {}", a));
                c.hit("outbound");
                mark += 1;
                // sometimes with something to send before the connection is there
                let early = c.rng.chance(1, 4);
                let mut outs: Vec<Out> = vec![Io::Connect(a)];
                let p = if early { payload(c) } else { vec![] };
                if early { outs.push(Io::Write(a, p.clone())); }
                n.ask(outs);
                l.set_nonblocking(false).ok();
                let s = match l.accept() { Ok((s, _)) => s, Err(_) => continue };
                if let Some(mut f) = adopt(c, &n, a, s, true, greet) {
                    if early { let mut w = p; w.extend_from_slice(&f.owed); f.owed = w; }
                    // the peer calls back from the very address it listens on
                    if c.rng.chance(1, 5) {
                        if let Some(mut s2) = connect_from(a, n.at) {
                            c.op(format!("{} also connects", a));
                            c.hit("same address twice");
                            s2.set_read_timeout(Some(LONG)).ok();
                            let mut b = [0u8; 1];
                            match s2.read(&mut b) {
                                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => c.fail(T, format!("{}: a second connection from a connected address is neither refused nor reported", a)),
                                Ok(k) if k > 0 => c.fail(T, format!("{}: a second connection from a connected address got what was meant for the first", a)),
                                _ => {}
                            }
                        }
                    }
                    far.push(f);
                }
            }
            5 => {
                let ip = [127, 0, 1 + c.rng.below(200) as u8, 1 + c.rng.below(250) as u8];
                let a = { let l = match listen_on((ip, 0).into()) { Some(l) => l, None => continue }; l.local_addr().unwrap() };
                c.op(format!("dial {} where nobody listens", a));
                c.hit("refused");
                n.ask(vec![Io::Connect(a)]);
                if !n.s.until(|b| b.lives.get(&a).and_then(|v| v.last()).map_or(false, |l| l.ended.is_some()) || !b.wrong.is_empty()) { c.fail(T, format!("{}: a failed dial was never reported", a)); }
                let l = n.s.with(|b| b.lives.get(&a).and_then(|v| v.last().cloned()).unwrap_or_default());
                c.check(l.connected.is_none(), T, || format!("{}: nobody listens there, yet it was reported connected", a));
                c.check(matches!(l.ended, Some(Why::Dial) | Some(Why::Conn)), T, || format!("{}: a failed dial reported as {:?}", a, l.ended));
            }
            6 | 7 | 8 => {
                if far.is_empty() { continue; }
                let i = c.rng.usize(far.len());
                let p = payload(c);
                let f = &mut far[i];
                if f.cut.is_some() || f.shut { continue; }
                c.op(format!("{} sends {} bytes", f.addr, p.len()));
                c.hit("received");
                if f.sock.write_all(&p).is_err() { c.fail(T, format!("{}: cannot send to the node", f.addr)); }
                f.sent.extend_from_slice(&p);
            }
            9 | 10 | 11 => {
                if far.is_empty() { continue; }
                let i = c.rng.usize(far.len());
                let k = 1 + c.rng.usize(4);
                let mut outs: Vec<Out> = vec![];
                // more than the kernel takes at once, at times
                let big = c.rng.chance(1, 8);
                if big { c.hit("written in parts"); }
                for _ in 0..k {
                    let mut p = payload(c);
                    if big { let b = p.clone(); while p.len() < 4 << 20 { p.extend_from_slice(&b); if p.len() >= 1 << 16 { let h = p.clone(); p.extend_from_slice(&h); } } }
                    let f = &mut far[i];
                    f.owed.extend_from_slice(&p);
                    outs.push(Io::Write(f.addr, p));
                    if c.rng.chance(1, 3) { mark += 1; events.push(mark); outs.push(Io::Event(mark)); }
                }
                if far[i].cut.is_some() || far[i].shut { continue_events(&mut events, &outs); }
                c.op(format!("write {} bytes to {}", outs.iter().map(|o| if let Io::Write(_, p) = o { p.len() } else { 0 }).sum::<usize>(), far[i].addr));
                c.hit("written");
                n.ask(outs);
                if c.rng.chance(1, 4) && far[i].cut.is_none() && !far[i].shut { drain(c, &mut far[i]); }
            }
            12 => {
                if far.is_empty() { continue; }
                let i = c.rng.usize(far.len());
                if far[i].cut.is_some() || far[i].shut { continue; }
                if c.rng.chance(2, 3) { settle(c, &n, &mut far, &events); if i >= far.len() || flags(c, &n) { continue; } }
                mark += 1;
                let a = far[i].addr;
                c.op(format!("disconnect {}", a));
                c.hit("disconnected");
                far[i].cut = Some(mark);
                // what is written after that must not arrive anywhere
                n.ask(vec![Io::Disconnect(a, Reason(mark)), Io::Write(a, vec![7; 40]), Io::Disconnect(a, Reason(0))]);
                settle(c, &n, &mut far, &events);
            }
            13 => {
                if far.is_empty() { continue; }
                let i = c.rng.usize(far.len());
                if far[i].cut.is_some() || far[i].shut { continue; }
                drain(c, &mut far[i]);
                if !c.fails.is_empty() { continue; }
                c.op(format!("{} hangs up", far[i].addr));
                c.hit("hung up");
                far[i].shut = true;
                far[i].sock.shutdown(if far[i].outbound { Shutdown::Both } else { Shutdown::Write }).ok();
                settle(c, &n, &mut far, &events);
            }
            14 if c.rng.chance(1, 2) => {
                let k = 1 + c.rng.below(300);
                c.op(format!("{} commands at once", k));
                c.hit("bursts");
                for _ in 0..k { mark += 1; events.push(mark); n.n += 1; n.cmds.send(Cmd(n.n, vec![Io::Event(mark)])).ok(); }
                n.wake.wake().ok();
                settle(c, &n, &mut far, &events);
            }
            14 => {
                mark += 1;
                events.push(mark);
                c.op("tell the user");
                let gone: SocketAddr = ([127, 0, 0, 9], 9).into();
                n.ask(vec![Io::Write(gone, vec![1; 10]), Io::Event(mark), Io::Disconnect(gone, Reason(1))]);
            }
            15 => {
                let ms = 2 + c.rng.below(40);
                c.op(format!("wake up in {} ms", ms));
                c.hit("timers");
                let (had, t0) = (n.s.with(|b| b.timers.len()), Instant::now());
                n.ask(vec![Io::SetTimer(LocalDuration::from_millis(ms as u128))]);
                if !n.s.until(|b| b.timers.len() > had) { c.fail(T, format!("a timer of {} ms never woke the service", ms)); continue; }
                let t = n.s.with(|b| b.timers[had]) - t0;
                // the clock counts milliseconds, and timers up to a second apart are merged (C14)
                c.check(t + Duration::from_millis(2) >= Duration::from_millis(ms), T, || format!("a timer of {} ms woke the service after {:?}", ms, t));
                std::thread::sleep(Duration::from_millis(3));
                c.check(n.s.with(|b| b.timers.len()) == had + 1, T, || "one timer woke the service twice".into());
            }
            _ => settle(c, &n, &mut far, &events),
        }
    }
    if !flags(c, &n) { settle(c, &n, &mut far, &events); flags(c, &n); }
    n.end(c);
}
/// nothing: writes to a connection that is going away may or may not arrive
fn continue_events(_: &mut Vec<u64>, _: &[Out]) {}

/// peers that never stop sending do not keep timers from firing
pub fn flood(c: &mut Case) {
    let mut n = match Node::start(0) { Some(n) => n, None => { c.fail(T, "the reactor does not start"); return; } };
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let k = 1 + c.rng.usize(3);
    let mut th = vec![];
    for _ in 0..k {
        let mut s = match TcpStream::connect(n.at) { Ok(s) => s, Err(_) => continue };
        let stop = stop.clone();
        th.push(std::thread::spawn(move || {
            let b = vec![9u8; 1 << 20];
            s.set_write_timeout(Some(Duration::from_millis(100))).ok();
            while !stop.load(std::sync::atomic::Ordering::SeqCst) { if let Err(e) = s.write(&b) { if !matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) { break; } } }
        }));
    }
    c.op(format!("{} peers send without pause", k));
    let ms = 5 + c.rng.below(30);
    c.op(format!("wake up in {} ms", ms));
    let had = n.s.with(|b| b.timers.len());
    n.ask(vec![Io::SetTimer(LocalDuration::from_millis(ms as u128))]);
    c.hit("floods");
    if !n.s.until(|b| { for l in b.lives.values_mut().flatten() { l.bytes.clear(); } b.timers.len() > had }) { c.fail(T, format!("a timer of {} ms never woke the service while {} peers were sending", ms, k)); }
    stop.store(true, std::sync::atomic::Ordering::SeqCst);
    for t in th { t.join().ok(); }
    flags(c, &n);
    n.end(c);
}

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_kill(t: usize, sig: i32) -> i32;
    fn signal(sig: i32, h: usize) -> usize;
}
extern "C" fn nothing(_: i32) {}

/// a dial that is refused only after a while (the listener's queue is full, then it is gone), and signals meanwhile
pub fn refused(c: &mut Case) {
    use socket2::{Domain, Socket, Type};
    let mut n = match Node::start(0) { Some(n) => n, None => { c.fail(T, "the reactor does not start"); return; } };
    let ip = [127, 0, 1 + c.rng.below(200) as u8, 1 + c.rng.below(250) as u8];
    let l = (|| { let s = Socket::new(Domain::IPV4, Type::STREAM, None).ok()?; s.bind(&SocketAddr::from((ip, 0)).into()).ok()?; s.listen(0).ok()?; Some(s) })();
    let l = match l { Some(l) => l, None => { n.end(c); return; } };
    let a = l.local_addr().unwrap().as_socket().unwrap();
    let mut fill = vec![];
    for _ in 0..3 {
        let s = Socket::new(Domain::IPV4, Type::STREAM, None).unwrap();
        s.set_nonblocking(true).ok();
        s.connect(&a.into()).ok();
        fill.push(s);
    }
    std::thread::sleep(Duration::from_millis(5));
    c.op(format!("dial {}, which does not answer", a));
    n.ask(vec![Io::Connect(a)]);
    if !n.s.until(|b| b.lives.contains_key(&a) || !b.wrong.is_empty()) { c.fail(T, format!("{}: a dial was never reported", a)); }
    if c.rng.chance(1, 2) {
        c.op("signals");
        c.hit("signals");
        let id = n.id.load(std::sync::atomic::Ordering::SeqCst);
        unsafe { signal(10, nothing as usize); }
        for _ in 0..3 { std::thread::sleep(Duration::from_millis(1)); if !n.dead() { unsafe { pthread_kill(id, 10); } } }
    }
    let wait = c.rng.chance(1, 2);
    drop(l);
    drop(fill);
    c.op("nobody listens there any more");
    if !wait {
        c.op(format!("disconnect {}", a));
        n.ask(vec![Io::Disconnect(a, Reason(5))]);
    }
    if !n.s.until(|b| b.lives.get(&a).and_then(|v| v.last()).map_or(false, |l| l.ended.is_some()) || !b.wrong.is_empty()) { c.fail(T, format!("{}: a failed dial was never reported", a)); }
    let l = n.s.with(|b| b.lives.get(&a).and_then(|v| v.last().cloned()).unwrap_or_default());
    c.hit(if wait { "late refusals" } else { "dials cut" });
    c.check(l.connected.is_none(), T, || format!("{}: nobody listens there, yet it was reported connected", a));
    c.check(l.ended.is_some() && (wait || l.ended == Some(Why::Fsm(5))), T, || format!("{}: a failed dial reported as {:?}", a, l.ended));
    // the same address may still connect to us
    if c.rng.chance(2, 3) && !flags(c, &n) {
        if let Some(mut k) = connect_from(a, n.at) {
            c.op(format!("{} connects", a));
            c.hit("connected after a failed dial");
            if let Some(f) = adopt(c, &n, a, k.try_clone().unwrap(), false, 0) {
                k.write_all(&[3; 100]).ok();
                if !n.s.until(|b| b.lives[&a][f.life].bytes.len() == 100 || !b.wrong.is_empty()) { c.fail(T, format!("{}: 100 bytes sent never arrived", a)); }
                n.ask(vec![Io::Write(a, vec![4; 10])]);
                let mut b = [0u8; 10];
                k.set_read_timeout(Some(LONG)).ok();
                c.check(k.read_exact(&mut b).is_ok() && b == [4; 10], T, || format!("{}: 10 bytes written never arrived", a));
            }
        }
    }
    flags(c, &n);
    n.end(c);
}
