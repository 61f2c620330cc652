//! Sockets and listeners, driven through the public API over the tokio model: the harness is the
//! network, the clock and the scheduler. The wire format used here is the harness's own.
use crate::sym;
use rust_raknet::error::RaknetError;
use rust_raknet::{RaknetListener, RaknetSocket, Reliability};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use tokio::model::{self, Choice};

pub const MAGIC: [u8; 16] = [0, 0xff, 0xff, 0, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78];
pub const DISCONNECT: u8 = 0x15;
const GUID: u64 = 0x1122_3344_5566_7788;

static mut SIX: bool = false;
/// From here on everybody is at an IPv6 address.
fn six() { unsafe { SIX = true } }
fn host(n: u8, port: u16) -> SocketAddr {
    if unsafe { SIX } { SocketAddr::from(([0xfd00, 0, 0, 0x1234, 0, 0, 0xabcd, n as u16], port)) } else { SocketAddr::from(([10, 0, 0, n], port)) }
}
pub fn addr(n: u8) -> SocketAddr { host(n, 1000 + n as u16) }
pub fn srv_addr() -> SocketAddr { host(200, 19132) }

pub fn rel(k: u64) -> Reliability {
    match k {
        0 => Reliability::Unreliable,
        1 => Reliability::UnreliableSequenced,
        2 => Reliability::Reliable,
        3 => Reliability::ReliableOrdered,
        _ => Reliability::ReliableSequenced,
    }
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut r = true;
    for i in 0..a.len() { r &= a[i] == b[i]; }
    r
}

// ---- the harness's own wire format -----------------------------------------------------------

#[derive(Clone, Default)]
pub struct W(pub Vec<u8>);
impl W {
    pub fn new(id: u8) -> W { W(vec![id]) }
    pub fn u8(mut self, v: u8) -> W { self.0.push(v); self }
    pub fn be16(self, v: u16) -> W { self.u8((v >> 8) as u8).u8(v as u8) }
    pub fn be32(self, v: u32) -> W { self.be16((v >> 16) as u16).be16(v as u16) }
    pub fn be64(self, v: u64) -> W { self.be32((v >> 32) as u32).be32(v as u32) }
    pub fn le24(self, v: u32) -> W { self.u8(v as u8).u8((v >> 8) as u8).u8((v >> 16) as u8) }
    pub fn bytes(mut self, b: &[u8]) -> W { for x in b { self.0.push(*x); } self }
    pub fn addr(self, a: SocketAddr) -> W {
        match a {
            SocketAddr::V4(a) => {
                let o = a.ip().octets();
                self.u8(4).u8(!o[0]).u8(!o[1]).u8(!o[2]).u8(!o[3]).be16(a.port())
            }
            SocketAddr::V6(a) => self.u8(6).u8(23).u8(0).be16(a.port()).be32(0).bytes(&a.ip().octets()).be32(0),
        }
    }
}

#[derive(Clone)]
pub struct Fr {
    pub seq: u32,
    pub kind: u8,
    pub ri: u32,
    pub si: u32,
    pub oi: u32,
    pub frag: Option<(u32, u16, u32)>,
    pub data: Vec<u8>,
}

pub fn fr(seq: u32, kind: u8, index: u32, data: Vec<u8>) -> Fr {
    Fr { seq, kind, ri: index, si: index, oi: index, frag: None, data }
}

impl Fr {
    fn body(&self, w: W) -> W {
        let mut w = w.u8(self.kind << 5 | if self.frag.is_some() { 16 } else { 0 }).be16((self.data.len() * 8) as u16);
        if self.kind >= 2 { w = w.le24(self.ri); }
        if self.kind == 1 || self.kind == 4 { w = w.le24(self.si); }
        if self.kind == 1 || self.kind == 3 || self.kind == 4 { w = w.le24(self.oi).u8(0); }
        if let Some((size, id, ix)) = self.frag { w = w.be32(size).be16(id).be32(ix); }
        w.bytes(&self.data)
    }
    pub fn wire(&self) -> Vec<u8> { self.body(W::new(0x84).le24(self.seq)).0 }
}

/// Several frames in one datagram.
pub fn wire(seq: u32, fs: &[Fr]) -> Vec<u8> {
    let mut w = W::new(0x84).le24(seq);
    for f in fs { w = f.body(w); }
    w.0
}

fn le24(b: &[u8]) -> u32 { b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 }

/// Frames of a datagram sent by the crate.
pub fn frames(d: &[u8]) -> Vec<Fr> {
    let mut out = vec![];
    let seq = le24(&d[1..4]);
    let mut p = 4;
    while p < d.len() {
        let flags = d[p];
        let kind = flags >> 5;
        let len = ((d[p + 1] as usize) << 8 | d[p + 2] as usize) / 8;
        p += 3;
        let (mut ri, mut si, mut oi, mut frag) = (0, 0, 0, None);
        if kind >= 2 { ri = le24(&d[p..p + 3]); p += 3; }
        if kind == 1 || kind == 4 { si = le24(&d[p..p + 3]); p += 3; }
        if kind == 1 || kind == 3 || kind == 4 { oi = le24(&d[p..p + 3]); p += 4; }
        if flags & 16 != 0 {
            let s = u32::from_be_bytes([d[p], d[p + 1], d[p + 2], d[p + 3]]);
            let i = (d[p + 4] as u16) << 8 | d[p + 5] as u16;
            let x = u32::from_be_bytes([d[p + 6], d[p + 7], d[p + 8], d[p + 9]]);
            frag = Some((s, i, x));
            p += 10;
        }
        out.push(Fr { seq, kind, ri, si, oi, frag, data: d[p..p + len].to_vec() });
        p += len;
    }
    out
}

pub fn is_frames(d: &[u8]) -> bool { !d.is_empty() && d[0] >= 0x80 && d[0] <= 0x8d }
pub fn ack(id: u8, ranges: &[(u32, u32)]) -> Vec<u8> {
    let mut w = W::new(id).be16(ranges.len() as u16);
    for (a, b) in ranges {
        w = if a == b { w.u8(1).le24(*a) } else { w.u8(0).le24(*a).le24(*b) };
    }
    w.0
}
/// Ranges of an ACK or NACK sent by the crate.
pub fn ranges(d: &[u8]) -> Vec<(u32, u32)> {
    let n = (d[1] as usize) << 8 | d[2] as usize;
    let mut p = 3;
    let mut v = vec![];
    for _ in 0..n {
        let a = le24(&d[p + 1..]);
        if d[p] == 1 { v.push((a, a)); p += 4; } else { v.push((a, le24(&d[p + 4..]))); p += 7; }
    }
    sym::check(p == d.len(), "acknowledgement has the announced length");
    v
}

pub fn req1(version: u8, pad: usize) -> Vec<u8> { W::new(5).bytes(&MAGIC).u8(version).bytes(&vec![0; pad]).0 }
pub fn req2(mtu: u16, guid: u64) -> Vec<u8> { W::new(7).bytes(&MAGIC).addr(srv_addr()).be16(mtu).be64(guid).0 }
pub fn reply1(mtu: u16) -> Vec<u8> { W::new(6).bytes(&MAGIC).be64(GUID).u8(0).be16(mtu).0 }
pub fn reply2(to: SocketAddr, mtu: u16) -> Vec<u8> { W::new(8).bytes(&MAGIC).be64(GUID).addr(to).be16(mtu).u8(0).0 }
pub fn accepted(to: SocketAddr, t0: u64, t1: u64) -> Vec<u8> {
    let mut w = W::new(0x10).addr(to).be16(0);
    for _ in 0..10 { w = w.addr(SocketAddr::from(([255, 255, 255, 255], 19132))); }
    w.be64(t0).be64(t1).0
}
pub fn conn_req(guid: u64, time: u64) -> Vec<u8> { W::new(9).be64(guid).be64(time).u8(0).0 }
pub fn new_incoming(to: SocketAddr, t0: u64, t1: u64) -> Vec<u8> {
    let mut w = W::new(0x13).addr(to);
    for _ in 0..10 { w = w.addr(SocketAddr::from(([0, 0, 0, 0], 0))); }
    w.be64(t0).be64(t1).0
}
pub fn ping(time: u64) -> Vec<u8> { W::new(1).be64(time).bytes(&MAGIC).be64(77).0 }

// ---- the world -------------------------------------------------------------------------------

pub fn start(chooser: fn(Choice) -> bool) {
    model::reset();
    model::install_chooser(chooser);
    rand::model::install(|| 0x0102_0304_0506_0708);
    sym::clock_set(sym::EPOCH);
}
pub fn calm(_: Choice) -> bool { false }
pub fn any_order(c: Choice) -> bool { c != Choice::SendFails && sym::choice(2) == 1 }
pub fn any_select(c: Choice) -> bool { c == Choice::SelectSecondFirst && sym::choice(2) == 1 }
/// One of the tasks created (the one numbered by `budget`), or every one, runs before its creator goes on.
pub fn one_spawn(c: Choice) -> bool {
    if c != Choice::SpawnRunsFirst { return false; }
    unsafe {
        if BUDGET == 0 { return true; }
        BUDGET -= 1;
        BUDGET == 0 && { BUDGET = u32::MAX; true }
    }
}
pub fn any_spawn(c: Choice) -> bool { c == Choice::SpawnRunsFirst && sym::choice(2) == 1 }

/// Time passes for timers and clock alike; nothing runs.
pub fn advance(ms: u64) {
    model::advance_timer(ms);
    sym::clock_set(sym::clock_get() + ms);
}
/// Every task gets to run as far as it can.
pub fn settle() { model::steps(3); }
pub fn tick(ms: u64) { advance(ms); settle(); }

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
pub fn poll<T>(f: &mut Fut<'_, T>) -> Option<T> { model::poll_once(f.as_mut()) }

/// What was sent since the last call, to this address.
pub fn sent_to(a: SocketAddr) -> Vec<Vec<u8>> {
    model::take_sent().into_iter().filter(|d| d.addr == a).map(|d| d.bytes).collect()
}
pub fn all_frames(sent: &[Vec<u8>]) -> Vec<Fr> {
    let mut v = vec![];
    for d in sent { if is_frames(d) { v.extend(frames(d)); } }
    v
}
pub fn said_disconnect(sent: &[Vec<u8>]) -> bool {
    sent.iter().any(|d| d.len() == 1 && d[0] == DISCONNECT) || all_frames(sent).iter().any(|f| f.data.len() == 1 && f.data[0] == DISCONNECT)
}

pub fn now<T>(f: impl Future<Output = T>) -> Option<T> { model::poll_once(std::pin::pin!(f)) }
pub fn soon<T>(f: impl Future<Output = T>) -> T {
    match model::run(f, 8) { Some(v) => v, None => { sym::check(false, "completes without waiting"); unreachable!() } }
}
pub fn recv(s: &RaknetSocket) -> Option<Result<Vec<u8>, RaknetError>> { now(s.recv()) }
pub fn no_message(s: &RaknetSocket) -> bool { recv(s).is_none() }
pub fn closed(s: &RaknetSocket) -> bool { matches!(now(s.send(&[0xfe], Reliability::Unreliable)), Some(Err(RaknetError::ConnectionClosed))) }

/// A listening server; its UDP socket is the first one opened.
pub struct Server { pub l: RaknetListener, pub sock: usize }
pub fn server() -> Server {
    let sock = model::sockets();
    let mut l = soon(RaknetListener::bind(&srv_addr())).unwrap();
    soon(l.listen());
    settle();
    Server { l, sock }
}
impl Server {
    pub fn hear(&self, from: SocketAddr, d: Vec<u8>) { model::deliver(self.sock, from, d); settle(); }
    /// Handshake of a remote peer up to accept().
    pub fn session(&mut self, from: SocketAddr, mtu: u16) -> RaknetSocket {
        self.hear(from, req1(10, 40));
        let r = sent_to(from);
        sym::check(r.len() == 1 && r[0][0] == 6, "the first request is answered");
        self.hear(from, req2(mtu, 5));
        let r = sent_to(from);
        sym::check(r.len() == 1 && r[0][0] == 8, "the second request is answered");
        let s = soon(self.l.accept()).unwrap();
        settle();
        model::take_sent();
        s
    }
}

/// A connected client; the harness plays the server.
pub struct Client { pub s: RaknetSocket, pub sock: usize, pub seq: u32, pub ord: u32 }
pub fn client(mtu: u16) -> Client {
    let sock = model::sockets();
    let to = srv_addr();
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
    sym::check(poll(&mut f).is_none(), "waits for the server");
    model::deliver(sock, to, reply1(mtu));
    sym::check(poll(&mut f).is_none(), "waits for the second reply");
    model::deliver(sock, to, reply2(addr(1), mtu));
    sym::check(poll(&mut f).is_none(), "waits for the acceptance");
    settle();
    tick(50);
    model::take_sent();
    model::deliver(sock, to, ack(0xc0, &[(0, 0)]));
    model::deliver(sock, to, fr(0, 3, 0, accepted(addr(1), 0, 0)).wire());
    settle();
    let s = match poll(&mut f) { Some(Ok(s)) => s, _ => { sym::check(false, "connected"); unreachable!() } };
    // acknowledge what the handshake sent
    tick(50);
    model::deliver(sock, to, ack(0xc0, &[(0, 6)]));
    settle();
    model::take_sent();
    Client { s, sock, seq: 1, ord: 1 }
}

/// Either end, with the means to talk to it.
pub struct Conn { pub base: usize, pub s: RaknetSocket, pub srv: Option<Server>, pub sock: usize, pub peer: SocketAddr, pub seq: u32, pub ord: u32 }
pub fn conn(as_server: bool) -> Conn {
    if as_server {
        let mut v = server();
        let base = model::alive_tasks();
        let s = v.session(addr(1), 1400);
        Conn { base, s, sock: v.sock, srv: Some(v), peer: addr(1), seq: 0, ord: 0 }
    } else {
        let c = client(1400);
        Conn { base: 0, s: c.s, srv: None, sock: c.sock, peer: srv_addr(), seq: c.seq, ord: c.ord }
    }
}
impl Conn {
    /// A datagram arrives from the peer.
    pub fn hear(&mut self, d: Vec<u8>) { model::deliver(self.sock, self.peer, d); settle(); }
    /// A message arrives in a datagram of its own.
    pub fn say(&mut self, kind: u8, data: Vec<u8>) {
        let mut f = fr(self.seq, kind, self.seq, data);
        if kind == 3 { f.oi = self.ord; self.ord += 1; }
        self.seq += 1;
        self.hear(f.wire());
    }
    /// The peer acknowledges everything sent to it since the last look.
    pub fn ack_all(&mut self) {
        let f = all_frames(&self.sent());
        if f.is_empty() { return; }
        let lo = f.iter().map(|f| f.seq).min().unwrap();
        let hi = f.iter().map(|f| f.seq).max().unwrap();
        self.hear(ack(0xc0, &[(lo, hi)]));
        self.sent();
    }
    pub fn sent(&self) -> Vec<Vec<u8>> { sent_to(self.peer) }
}

// ---- C21: hostile datagrams on a connection -----------------------------------------------------

fn without_disconnect(d: &[u8]) { for b in d { sym::assume(*b != DISCONNECT); } }

/// After `d` arrived the connection still works.
fn still_works(c: &mut Conn, alive: usize) {
    tick(50);
    sym::check(model::alive_tasks() == alive, "no task of the connection has ended");
    c.ack_all();
    // a marker longer than anything in the hostile datagram
    let m = [0xfe; 64];
    c.hear(fr(0x100, 2, 0x100, m.to_vec()).wire());
    let mut found = false;
    for _ in 0..4 {
        match recv(&c.s) {
            Some(Ok(p)) => if p.len() == 64 { found = true; },
            Some(Err(_)) => sym::check(false, "the connection stays open"),
            None => break,
        }
    }
    sym::check(found, "messages that follow are delivered");
    sym::check(c.sent().iter().any(|d| d[0] == 0xc0), "and acknowledged");
    let p = [0xfe, 1, 2, 3, 4, 5, 6, 7];
    sym::check(matches!(soon(c.s.send(&p, Reliability::Reliable)), Ok(())), "sending still works");
    settle();
    sym::check(all_frames(&c.sent()).iter().any(|f| eq(&f.data, &p)), "and is transmitted");
}

fn hostile(as_server: bool, first: u8, n: usize) {
    start(calm);
    let mut c = conn(as_server);
    let alive = model::alive_tasks();
    let mut d = sym::bytes(n);
    match first {
        0 => {
            sym::assume(d[0] >= 0x80 && d[0] <= 0x8d);
            // any datagram number: far ahead, or near
            if sym::choice(2) == 0 { d[1] = 0xff; d[2] = 0xff; d[3] = 0xff; } else { d[2] = 0; d[3] = 0; }
        }
        1 => d[0] = 0xc0,
        2 => d[0] = 0xa0,
        _ => { sym::assume(!(d[0] >= 0x80 && d[0] <= 0x8d) && d[0] != 0xc0 && d[0] != 0xa0); }
    }
    without_disconnect(&d);
    if first == 1 || first == 2 {
        // numbers below 256 (the work done for a record is proportional to the range it names)
        let mut i = 3;
        while i + 4 <= n { for k in 2..4 { if i + k < n { sym::assume(d[i + k] == 0); } } i += 4; }
    }
    c.hear(d);
    still_works(&mut c, alive);
    sym::cover("end");
}


/// A frame around a control message with arbitrary content.
fn hostile_control(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let alive = model::alive_tasks();
    let mut p = sym::bytes(n);
    p[0] = [0x00, 0x03, 0x09, 0x10, 0x13, 0x1c, 0x05, 0x07, 0x19, 0x84, 0xfe, 0x15 + 0x40][sym::index(12)];
    let mut f = fr(c.seq, sym::choice(5) as u8, c.seq, p);
    f.oi = c.ord;
    c.hear(f.wire());
    still_works(&mut c, alive);
    sym::cover("end");
}

/// Acknowledgements with arbitrary records, messages outstanding.
fn hostile_acks(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let alive = model::alive_tasks();
    soon(c.s.send(&[0xfe, 1], Reliability::ReliableOrdered)).unwrap();
    if sym::choice(2) == 1 { soon(c.s.send(&[0xfe, 2], Reliability::Reliable)).unwrap(); }
    settle();
    let mut d = sym::bytes(n);
    d[0] = if sym::choice(2) == 0 { 0xc0 } else { 0xa0 };
    // numbers below 256: the work done for a record is proportional to the range it names
    let mut p = 3;
    while p < n {
        let single = sym::choice(2) == 1;
        if single { d[p] = 1 } else { sym::assume(d[p] != 1); }
        for k in if single { [2, 3, 0, 0] } else { [2, 3, 5, 6] } { if k > 0 && p + k < n { d[p + k] = 0; } }
        for k in [1, 4] { if p + k < n && !(single && k == 4) { sym::assume(d[p + k] < 12); } }
        p += if single { 4 } else { 7 };
    }
    c.hear(d);
    tick(50);
    c.hear(ack(0xc0, &[(0, 64)]));
    still_works(&mut c, alive);
    sym::cover("end");
}

// ---- C22: control messages --------------------------------------------------------------------

fn be64(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for i in 0..8 { v = v << 8 | b[i] as u64; }
    v
}

/// Clock values at which the real clock function is executed.
fn clock_value() -> u64 { [0, 1, 999, 1_000, 1_001, sym::EPOCH + 1_499, sym::EPOCH + 1_500, 420 << 32, (1 << 41) + 123][sym::index(9)] }

fn control(any: bool) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let t = sym::u64();
    let k = sym::choice(5);
    let m = match k {
        0 => W::new(0).be64(t).0,
        1 => conn_req(sym::u64(), t),
        2 => new_incoming(SocketAddr::from(([sym::u8(), 2, 3, 4], sym::u16())), t, sym::u64()),
        3 => W::new(3).be64(t).be64(sym::u64()).0,
        _ => accepted(SocketAddr::from(([sym::u8(), 2, 3, 4], sym::u16())), t, sym::u64()),
    };
    let at = if any { sym::range(0, 1 << 40) } else { clock_value() };
    sym::clock_set(at);
    c.say(sym::choice(5) as u8, m);
    sym::check(no_message(&c.s), "control messages are not shown to the user");
    let acks: Vec<Vec<u8>> = c.sent();
    sym::check(acks.iter().filter(|d| d[0] == 0xc0).count() == 1, "the datagram is acknowledged");
    let early = all_frames(&acks);
    model::advance_timer(50);
    settle();
    let mut f = all_frames(&c.sent());
    if !early.is_empty() { f = early; }
    match k {
        0 => {
            sym::cover("ping");
            sym::check(f.len() == 1 && f[0].data.len() == 17 && f[0].data[0] == 3, "a ping is answered by one pong");
            sym::check(be64(&f[0].data[1..9]) == t, "the pong carries the time of the ping");
            sym::check(be64(&f[0].data[9..17]) == at, "and the local time");
            sym::check(f[0].kind != 1 && f[0].kind != 4, "and supersedes no message of the user");
        }
        1 => {
            sym::cover("request");
            sym::check(f.len() == 1 && f[0].data[0] == 0x10, "a connection request is accepted");
            let d = &f[0].data;
            sym::check(f[0].kind == 3, "reliably");
            sym::check(eq(&d[..10], &W::new(0x10).addr(c.peer).be16(0).0), "naming the peer's address");
            sym::check(be64(&d[d.len() - 16..]) == t && be64(&d[d.len() - 8..]) == at, "with both times");
        }
        4 => {
            sym::cover("accepted");
            sym::check(!f.is_empty() && f[0].data[0] == 0x13 && f[0].kind == 3, "the acceptance is confirmed");
            sym::check(f.iter().all(|f| f.data[0] == 0x13 || f.data[0] == 0), "and nothing but a ping besides");
        }
        _ => { sym::cover("no answer"); sym::check(f.is_empty(), "needs no answer"); }
    }
    c.hear(ack(0xc0, &[(0, 16)]));
    c.sent();
    // user messages are delivered and cause no reply
    let p = vec![0xfe, sym::u8(), sym::u8()];
    c.say(sym::choice(5) as u8, p.clone());
    sym::check(matches!(recv(&c.s), Some(Ok(d)) if eq(&d, &p)), "a user message is delivered unmodified");
    sym::check(no_message(&c.s), "once");
    model::advance_timer(50);
    settle();
    sym::check(all_frames(&c.sent()).is_empty(), "a user message is not answered");
    sym::cover("end");
}

/// Control messages while the connection is busy with other things.
fn control_busy() {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    if sym::choice(2) == 1 {
        // one outstanding, one waiting behind it
        for i in 0..2u8 { soon(c.s.send(&[0xfe, i], rel(2 + i as u64))).unwrap(); }
        settle();
        sym::cover("outstanding");
    }
    let unread = match sym::choice(3) {
        0 => 0,
        1 => { c.say(2, vec![0xfe, 1]); c.say(3, vec![0xfe, 2]); sym::cover("unread"); 2 }
        _ => {
            // a gap, and an incomplete message
            let (q, o) = (c.seq, c.ord);
            c.hear(fr(q + 1, 3, o + 2, vec![0xfe]).wire());
            c.hear(Fr { seq: q + 2, kind: 3, ri: 9, si: 0, oi: o + 1, frag: Some((2, 5, 1)), data: vec![0xfe; 3] }.wire());
            c.seq += 3;
            sym::cover("gap");
            0
        }
    };
    let t = [sym::u64(), sym::u64()];
    let kinds = [sym::choice(2), sym::choice(2)];
    let mut out = vec![];
    for i in 0..2 {
        let m = if kinds[i] == 0 { W::new(0).be64(t[i]).0 } else { conn_req(1, t[i]) };
        c.say([0, 2][sym::index(2)], m);
        out.extend(all_frames(&c.sent()));
        if sym::choice(2) == 1 { tick(20); out.extend(all_frames(&c.sent())); }
    }
    for _ in 0..5 {
        tick(50);
        out.extend(all_frames(&c.sent()));
        let hi = out.iter().map(|f| f.seq).max().unwrap_or(0);
        c.hear(ack(0xc0, &[(0, hi)]));
        out.extend(all_frames(&c.sent()));
    }
    for i in 0..2 {
        let id = if kinds[i] == 0 { 3u8 } else { 0x10 };
        let mut n = 0;
        let mut oi: Vec<u32> = vec![];
        for f in &out {
            if f.data[0] != id { continue; }
            // where the time of the request is
            let at = if id == 3 { 1 } else { f.data.len() - 16 };
            if be64(&f.data[at..at + 8]) != t[i] { continue; }
            if id == 3 || !oi.contains(&f.oi) { n += 1; oi.push(f.oi); }
        }
        let same = kinds[0] == kinds[1] && t[0] == t[1];
        sym::check(n == if same { 2 } else { 1 }, "every request is answered once, with its time");
    }
    for i in 0..unread { sym::check(matches!(recv(&c.s), Some(Ok(d)) if d.len() == 2 && d[1] == i + 1), "user messages are delivered"); }
    sym::check(no_message(&c.s), "control messages are not shown to the user");
    sym::cover("end");
}

/// Many requests before the next tick, in datagrams of their own or in one.
fn control_many(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let odd = sym::index(n as u64);
    let x = sym::u8();
    let time = |i: usize| (i as u64 + 1) << 48 | if i == odd { x as u64 } else { 7 };
    let packed = sym::choice(2) == 1;
    let mut fs = vec![];
    for i in 0..n {
        let m = W::new(0).be64(time(i)).0;
        if packed { fs.push(fr(c.seq, 0, 0, m)); } else { c.say(0, m); }
    }
    if packed { c.hear(wire(c.seq, &fs)); sym::cover("packed"); }
    let mut out = all_frames(&c.sent());
    for _ in 0..3 { tick(50); out.extend(all_frames(&c.sent())); }
    sym::check(out.len() == n, "every ping is answered once");
    let mut seen = vec![false; n];
    for f in &out {
        sym::check(f.data.len() == 17 && f.data[0] == 3, "with a pong");
        let i = ((f.data[1] as usize) << 8 | f.data[2] as usize).wrapping_sub(1);
        sym::check(i < n && !seen[i] && be64(&f.data[1..9]) == time(i), "carrying its time");
        seen[i] = true;
    }
    sym::cover("end");
}

/// A datagram of many frames is the same as many datagrams.
fn packed(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let odd = sym::index(n as u64);
    let x = sym::u8();
    let what = sym::choice(4);
    let mut fs = vec![];
    let (mut o, mut want) = (c.ord, vec![]);
    for i in 0..n {
        let k = [3u8, 2, 0, 4, 1][i % 5];
        let mut d = vec![0xfe, i as u8];
        if i == odd {
            match what {
                0 => { d.push(x); want.push(d.clone()); }
                // a ping
                1 => d = W::new(0).be64(0x0101_0101_0101_0100 + x as u64).0,
                // not a message of this protocol
                2 => d = vec![0x77],
                // empty
                _ => d = vec![],
            }
        } else {
            want.push(d.clone());
        }
        let mut f = fr(c.seq, k, i as u32, d);
        if k == 3 { f.oi = o; o += 1; }
        fs.push(f);
    }
    let mut d = wire(c.seq, &fs);
    // any of these ids may stand before frames
    d[0] = [0x84, 0x80, 0x8d, 0x8c, 0x88][if odd < 5 { odd } else { 0 }];
    c.hear(d);
    let sent = c.sent();
    let acks: Vec<_> = sent.iter().filter(|d| d[0] == 0xc0).collect();
    sym::check(!acks.is_empty() && acks.iter().all(|a| ranges(a).iter().all(|r| *r == (c.seq, c.seq))), "the datagram is acknowledged");
    let mut got = vec![];
    while let Some(r) = recv(&c.s) { match r { Ok(d) => got.push(d), _ => { sym::check(false, "the connection stays open"); return; } } }
    sym::check(got.len() == want.len(), "every message of the datagram is delivered once");
    for (g, w) in got.iter().zip(want.iter()) { sym::check(eq(g, w), "in their order, unmodified"); }
    tick(50);
    let f = all_frames(&c.sent());
    sym::check(f.iter().filter(|f| f.data.len() == 17 && f.data[0] == 3 && f.data[8] == x).count() == (what == 1) as usize, "a ping among them is answered");
    sym::cover("end");
}

// ---- C23: send --------------------------------------------------------------------------------

fn data_of(sent: &[Vec<u8>]) -> Vec<u8> {
    let mut v = vec![];
    for f in all_frames(sent) { v.extend_from_slice(&f.data); }
    v
}

fn send_any() {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let state = sym::choice(4);
    match state {
        1 => { soon(c.s.close()).unwrap(); }
        2 => c.hear(vec![DISCONNECT]),
        3 => { advance(60_051); settle(); }
        _ => {}
    }
    if state != 0 {
        match sym::choice(3) { 0 => {} 1 => tick(50), _ => { tick(50); tick(11_000); } }
        model::take_sent();
    }
    let mut p = match sym::choice(4) {
        0 => sym::bytes(sym::index(4)),
        3 => { let mut v = vec![9; [66_000, 1_100_000][sym::index(2)]]; v[0] = sym::u8(); v }
        1 => { let n = 1340 + sym::concrete(sym::range(0, 2)) as usize - 1; let mut v = vec![7; n]; v[0] = sym::u8(); v[n - 1] = sym::u8(); v }
        _ => { let mut v = vec![9; 3000]; v[0] = sym::u8(); v }
    };
    let k = sym::choice(5);
    let valid = !p.is_empty() && p[0] == 0xfe;
    let r = match model::run(c.s.send(&p, rel(k)), 1000) { Some(r) => r, None => { sym::check(false, "send() returns"); return; } };
    settle();
    let sent = c.sent();
    if valid { p[0] = 0xfe; }
    match r {
        Ok(()) => {
            sym::cover("sent");
            sym::check(valid, "only messages that start with 0xfe are accepted");
            sym::check(state == 0, "nothing is accepted on a closed connection");
            sym::check(k == 3 || p.len() <= 1340, "nor anything that does not fit");
            sym::check(eq(&data_of(&sent), &p), "what is accepted is transmitted");
        }
        Err(e) => {
            sym::cover("refused");
            sym::check(!valid || state != 0 || (k != 3 && p.len() > 1340), "valid messages are accepted");
            if !valid && state == 0 { sym::check(matches!(e, RaknetError::PacketHeaderError), "PacketHeaderError"); }
            else if valid && state != 0 { sym::cover("closed"); sym::check(matches!(e, RaknetError::ConnectionClosed), "ConnectionClosed"); }
            else if valid { sym::check(matches!(e, RaknetError::PacketSizeExceedMTU), "PacketSizeExceedMTU"); }
            sym::check(all_frames(&sent).iter().all(|f| f.data[0] == DISCONNECT), "what is refused is not transmitted");
        }
    }
}

/// A long message is being sent when the connection ends.
fn send_while_closing() {
    start(limited);
    let mut c = conn(sym::choice(2) == 1);
    let p = vec![0xfe; 16 * 1340];
    let other = vec![0xfe; 3];
    budget(3);
    {
        let s = &c.s;
        let (sock, peer) = (c.sock, c.peer);
        let mut f: Fut<_> = Box::pin(s.send(&p, Reliability::ReliableOrdered));
        let mut g: Fut<_> = Box::pin(s.send(&other, Reliability::Reliable));
        let mut end = (poll(&mut f), None);
        if end.0.is_none() { sym::cover("waits for the network"); }
        if sym::choice(2) == 1 { end.1 = poll(&mut g); }
        match sym::choice(3) {
            0 => model::deliver(sock, peer, vec![DISCONNECT]),
            1 => { let mut h: Fut<_> = Box::pin(s.close()); if poll(&mut h).is_none() && sym::choice(2) == 1 { model::step(); poll(&mut h); } }
            _ => {}
        }
        for _ in 0..6 {
            if sym::choice(2) == 1 { model::step_rev() } else { model::step() }
            if end.0.is_none() { end.0 = poll(&mut f); }
            if end.1.is_none() { end.1 = poll(&mut g); }
            if end.0.is_some() && end.1.is_some() { break; }
            advance(50);
        }
        sym::check(end.0.is_some() && end.1.is_some(), "send returns");
        for r in [end.0, end.1] {
            match r { Some(Ok(())) => sym::cover("sent"), Some(Err(RaknetError::ConnectionClosed)) => sym::cover("closed"), _ => sym::check(false, "sent or ConnectionClosed") }
        }
    }
}

static mut BUDGET: u32 = 0;
pub fn budget(n: u32) { unsafe { BUDGET = n } }
/// The next `budget` scheduling choices are arbitrary.
pub fn limited(c: Choice) -> bool {
    unsafe {
        if c == Choice::SendFails || BUDGET == 0 { return false; }
        BUDGET -= 1;
    }
    sym::choice(2) == 1
}

// ---- C24, C25, C29: the end of a connection ----------------------------------------------------

/// All tasks of the connection end (those of a listener go on).
fn tasks_end(base: usize) {
    for _ in 0..3 { tick(50); }
    tick(11_000);
    tick(50);
    sym::check(model::alive_tasks() == base, "the tasks of the connection end");
}

/// Traffic before the end: returns the messages the user has not read yet.
fn traffic(c: &mut Conn) -> Vec<Vec<u8>> {
    let mut unread = vec![];
    for _ in 0..sym::choice(3) {
        let p = vec![0xfe, sym::u8()];
        c.say(3, p.clone());
        unread.push(p);
    }
    if sym::choice(2) == 1 { soon(c.s.send(&[0xfe, 1, 2], Reliability::ReliableOrdered)).unwrap(); }
    unread
}

fn drained(c: &Conn, unread: &[Vec<u8>]) {
    for p in unread {
        sym::check(matches!(recv(&c.s), Some(Ok(d)) if eq(&d, p)), "messages that had arrived can still be received");
    }
    sym::check(matches!(recv(&c.s), Some(Err(RaknetError::ConnectionClosed))), "then receiving returns ConnectionClosed");
    sym::check(matches!(now(c.s.send(&[0xfe], Reliability::Reliable)), Some(Err(RaknetError::ConnectionClosed))), "sending returns ConnectionClosed");
    sym::check(matches!(now(c.s.flush()), Some(Err(RaknetError::ConnectionClosed))), "flushing returns ConnectionClosed");
}

fn close() {
    start(limited);
    let mut c = conn(sym::choice(2) == 1);
    let unread = traffic(&mut c);
    budget(4);
    if sym::choice(2) == 1 { settle(); }
    c.sent();
    sym::check(matches!(soon(c.s.close()), Ok(())), "close succeeds");
    sym::check(closed(&c.s), "sending is refused from then on");
    if sym::choice(2) == 1 { settle(); }
    sym::check(matches!(soon(c.s.close()), Ok(())), "and can be repeated");
    tick(50);
    tick(50);
    sym::check(said_disconnect(&c.sent()), "the peer is told");
    tick(11_000);
    sym::check(matches!(soon(c.s.close()), Ok(())), "and repeated later");
    drained(&c, &unread);
    let Conn { s, srv, base, .. } = c;
    drop(s);
    tasks_end(base);
    if let Some(v) = srv {
        v.hear(addr(3), ping(1));
        sym::check(sent_to(addr(3)).len() == 1, "the listener goes on");
        std::mem::forget(v);
    }
    sym::cover("end");
}

fn disconnected() {
    start(limited);
    let mut c = conn(sym::choice(2) == 1);
    let mut unread = traffic(&mut c);
    c.sent();
    let at = c.seq;
    budget(3);
    let mut bye = vec![DISCONNECT];
    for _ in 0..[0, 1, 5][sym::index(3)] { bye.push(sym::u8()); }
    let framed = match sym::choice(3) {
        0 => { c.hear(bye); false }
        1 => { sym::cover("framed"); c.say(sym::choice(5) as u8, bye); true }
        _ => {
            // in one datagram with a message before it and one after it
            sym::cover("in between");
            let k = sym::choice(5) as u8;
            let b = [vec![0xfe, 1], bye, vec![0xfe, 2]];
            let mut fs = vec![];
            for (i, d) in b.iter().enumerate() {
                let mut f = fr(c.seq, k, 100 + i as u32, d.clone());
                f.oi = c.ord + i as u32;
                fs.push(f);
            }
            unread.push(b[0].clone());
            c.hear(wire(c.seq, &fs));
            true
        }
    };
    sym::check(closed(&c.s), "the connection is closed");
    if framed { sym::check(c.sent().iter().any(|d| d[0] == 0xc0 && ranges(d).iter().any(|r| r.0 <= at && at <= r.1)), "the datagram with it is acknowledged"); }
    tick(50);
    drained(&c, &unread);
    let Conn { s, srv, base, .. } = c;
    drop(s);
    tasks_end(base);
    std::mem::forget(srv);
    sym::cover("end");
}

fn dropped() {
    start(limited);
    let mut c = conn(sym::choice(2) == 1);
    traffic(&mut c);
    if sym::choice(2) == 1 { settle(); }
    if sym::choice(2) == 1 { tick(50); }
    c.sent();
    budget(4);
    let Conn { s, srv, peer, base, .. } = c;
    if sym::choice(2) == 1 {
        // in the middle of receiving
        let mut f: Fut<_> = Box::pin(s.recv());
        poll(&mut f);
    }
    drop(s);
    let rev = sym::choice(2) == 1;
    for _ in 0..3 {
        advance(50);
        for _ in 0..3 { if rev { model::step_rev() } else { model::step() } }
    }
    sym::check(said_disconnect(&sent_to(peer)), "the peer is told");
    tasks_end(base);
    std::mem::forget(srv);
    sym::cover("end");
}

// ---- C26: flush -------------------------------------------------------------------------------

fn flush(steps: usize) {
    start(calm);
    let Conn { s, srv, sock, peer, .. } = conn(sym::choice(2) == 1);
    sym::check(matches!(now(s.flush()), Some(Ok(()))), "nothing outstanding: no wait");
    let mut acked = [true; 2];
    // (datagram number, message)
    let mut seqs: Vec<(u32, usize)> = vec![];
    for i in 0..2 {
        let k = sym::choice(5);
        soon(s.send(&[0xfe, i as u8], rel(k))).unwrap();
        if k >= 2 { acked[i] = false; }
    }
    let mut over = false;
    let mut f: Fut<_> = Box::pin(s.flush());
    let mut r = poll(&mut f);
    let mut done = false;
    for k in 0..steps + 1 {
        settle();
        for f in all_frames(&sent_to(peer)) { seqs.push((f.seq, f.data[1] as usize)); }
        match r.take() {
            Some(Ok(())) => {
                sym::check(acked[0] && acked[1], "flush returns once everything is acknowledged");
                sym::cover("flushed");
                done = true;
            }
            Some(Err(e)) => {
                sym::check(over && matches!(e, RaknetError::ConnectionClosed), "or ConnectionClosed when the connection ends");
                sym::cover("closed");
                done = true;
            }
            None => {}
        }
        if done || k == steps { break; }
        match sym::choice(4) {
            0 => {
                // any number the peer can have seen
                let x = sym::range(0, seqs.iter().map(|x| x.0).max().unwrap_or(0) as u64) as u32;
                for (s, m) in &seqs { if *s == x { acked[*m] = true; } }
                model::deliver(sock, peer, ack(0xc0, &[(x, x)]));
            }
            1 => advance(10),
            2 => advance(400),
            _ => { over = true; model::deliver(sock, peer, vec![DISCONNECT]); }
        }
        settle();
        r = poll(&mut f);
    }
    if !done {
        for _ in 0..2 {
            model::deliver(sock, peer, ack(0xc0, &[(0, 40)]));
            tick(50);
            if r.is_none() { r = poll(&mut f); }
        }
        sym::check(r.is_some(), "and then it does return");
        if let Some(r) = r { sym::check(r.is_ok() != over, "with success on an open connection"); }
    }
    drop(f);
    std::mem::forget((s, srv));
    sym::cover("end");
}

/// flush() while a message is sent again many times: only its acknowledgement ends the wait.
fn flush_patient(rounds: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let k = 2 + sym::choice(3);
    soon(c.s.send(&[0xfe, 1], rel(k))).unwrap();
    let mut f: Fut<_> = Box::pin(c.s.flush());
    sym::check(poll(&mut f).is_none(), "flush waits for the acknowledgement");
    tick(20);
    let mut seqs: Vec<u32> = vec![];
    let mut rto = 60;
    let n = sym::index(rounds as u64 + 1);
    let second = sym::choice(2) == 1;
    for i in 0..n {
        for x in all_frames(&sent_to(c.peer)) { if x.data[0] == 0xfe { seqs.push(x.seq); } }
        // the peer hears nothing, but is heard
        if second && i == 1 { soon(c.s.send(&[0xfe, 2], rel(k))).unwrap(); }
        tick(rto);
        rto = if rto * 3 / 2 < 9_000 { rto * 3 / 2 } else { 9_000 };
        tick(60);
        model::deliver(c.sock, c.peer, ack(0xc0, &[]));
        settle();
        sym::check(poll(&mut f).is_none(), "however long that takes");
    }
    for x in all_frames(&sent_to(c.peer)) { if x.data[0] == 0xfe { seqs.push(x.seq); } }
    sym::check(!seqs.is_empty(), "sent");
    if !seqs.is_empty() {
        let x = seqs[sym::index(seqs.len() as u64)];
        model::deliver(c.sock, c.peer, ack(0xc0, &[(x, x)]));
        settle();
        tick(60);
        let mut r = poll(&mut f);
        if second && n > 1 {
            sym::check(r.is_none(), "flush waits for every message");
            let hi = all_frames(&sent_to(c.peer)).iter().filter(|x| x.data == [0xfe, 2]).map(|x| x.seq).max();
            sym::check(hi.is_some(), "the next message is sent");
            if let Some(x) = hi { model::deliver(c.sock, c.peer, ack(0xc0, &[(x, x)])); settle(); tick(60); r = poll(&mut f); }
            sym::cover("another");
        }
        sym::check(matches!(r, Some(Ok(()))), "and ends with it");
        sym::cover("end");
    }
}

// ---- C27: idle connections ----------------------------------------------------------------------

/// The peer is silent while flush() waits: it waits on until the peer acknowledges or the connection is given up.
fn flush_silent() {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let k = 2 + sym::choice(3);
    soon(c.s.send(&[0xfe, 1], rel(k))).unwrap();
    settle();
    c.hear(ack(0xc0, &[]));
    let mut f: Fut<_> = Box::pin(c.s.flush());
    sym::check(poll(&mut f).is_none(), "flush waits for the acknowledgement");
    let at = [1, 4, 9, 11, 19, 21, 29, 31, 39, 46, 59, 64][sym::index(12)];
    let mut seqs: Vec<u32> = vec![];
    for t in 0..at * 2 {
        advance(500);
        settle();
        for x in all_frames(&sent_to(c.peer)) { if x.data[0] == 0xfe { seqs.push(x.seq); } }
        let r = poll(&mut f);
        // the connection is given up after a minute of silence
        if t < 118 { sym::check(r.is_none(), "however long that takes"); }
        if let Some(r) = r {
            sym::check(matches!(r, Err(RaknetError::ConnectionClosed)), "unless the connection ends");
            sym::cover("closed");
            sym::cover("end");
            return;
        }
    }
    sym::check(at < 64, "which it does");
    sym::check(!seqs.is_empty(), "sent");
    let r: Vec<_> = seqs.iter().map(|x| (*x, *x)).collect();
    model::deliver(c.sock, c.peer, ack(0xc0, &r));
    settle();
    tick(60);
    sym::check(matches!(poll(&mut f), Some(Ok(()))), "and ends with it");
    sym::cover("acknowledged");
    sym::cover("end");
}

fn idle(n: usize, any: bool) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    // something may be unfinished in either direction
    match sym::choice(4) {
        0 => {}
        1 => { soon(c.s.send(&[0xfe, 1], Reliability::Reliable)).unwrap(); soon(c.s.send(&[0xfe, 2], Reliability::ReliableOrdered)).unwrap(); sym::cover("unacknowledged"); }
        2 => { c.ord += 1; c.say(3, vec![0xfe, 3]); sym::cover("held back"); }
        _ => {
            let mut f = fr(c.seq + 1, 3, 0, vec![0xfe, 4]);
            f.oi = c.ord;
            f.frag = Some((2, 1, 0));
            c.seq += 2;
            c.ord += 1;
            c.hear(f.wire());
            sym::cover("incomplete");
        }
    }
    c.hear(ack(0xc0, &[]));
    for _ in 0..n {
        let g = if any { sym::range(0, 90_000) } else { [0, 1, 998, 59_950, 60_000, 60_060, 61_001, 90_000][sym::index(8)] };
        advance(g);
        settle();
        let over = closed(&c.s);
        settle();
        if g > 60_000 {
            // the ticker runs every 50 ms
            if !over { sym::check(g < 60_060, "an idle connection is closed"); tick(60); sym::check(closed(&c.s), "within a tick"); }
            sym::cover("timed out");
            tick(50);
            while let Some(Ok(_)) = recv(&c.s) {}
            tick(11_000);
            sym::check(matches!(recv(&c.s), Some(Err(RaknetError::ConnectionClosed))), "receiving reports it");
            return;
        }
        sym::check(!over, "a connection that was heard of within a minute stays open");
        match sym::choice(5) {
            0 => c.hear(vec![0x84, 0, 0]),
            1 => c.hear(ack(0xc0, &[])),
            2 => c.hear(ack(0xa0, &[(3, 3)])),
            3 => c.say(2, W::new(3).be64(1).be64(2).0),
            _ => c.say(3, vec![0xfe]),
        }
        sym::cover("heard");
    }
}

// ---- C28: connect -------------------------------------------------------------------------------

/// Answers the way a server would, whatever step the client is at, until connected.
fn complete(f: &mut Fut<'_, Result<RaknetSocket, RaknetError>>, sock: usize, mtu: u16, mut last: Vec<Vec<u8>>) -> Result<RaknetSocket, RaknetError> {
    for _ in 0..10 {
        let mut any = false;
        for d in last.drain(..) {
            any = true;
            if d[0] == 5 { model::deliver(sock, srv_addr(), reply1(mtu)); }
            else if d[0] == 7 { model::deliver(sock, srv_addr(), reply2(addr(1), mtu)); }
            else if is_frames(&d) {
                for f in frames(&d) {
                    model::deliver(sock, srv_addr(), ack(0xc0, &[(f.seq, f.seq)]));
                    if f.data[0] == 9 { model::deliver(sock, srv_addr(), fr(0, 3, 0, accepted(addr(1), 0, 0)).wire()); }
                }
            }
        }
        for _ in 0..3 {
            if let Some(r) = poll(f) { return r; }
            model::step();
        }
        tick(50);
        if let Some(r) = poll(f) { return r; }
        last = sent_to(srv_addr());
        if !any && last.is_empty() {
            advance(3_000);
            if let Some(r) = poll(f) { return r; }
            settle();
            last = sent_to(srv_addr());
        }
    }
    sym::check(false, "connect completes once the server answers");
    unreachable!()
}

/// Up to the given step of the handshake; returns what the client sent last.
fn advance_to(step: u64, f: &mut Fut<'_, Result<RaknetSocket, RaknetError>>, sock: usize, mtu: u16) -> Vec<Vec<u8>> {
    sym::check(poll(f).is_none(), "waits for the server");
    let mut last = sent_to(srv_addr());
    sym::check(last.len() == 1 && last[0][0] == 5, "the first request");
    if step >= 1 {
        model::deliver(sock, srv_addr(), reply1(mtu));
        sym::check(poll(f).is_none(), "waits for the second reply");
        last = sent_to(srv_addr());
        sym::check(last.len() == 1 && last[0][0] == 7, "the second request");
    }
    if step >= 2 {
        model::deliver(sock, srv_addr(), reply2(addr(1), mtu));
        sym::check(poll(f).is_none(), "waits for the acceptance");
        settle();
        tick(50);
        last = sent_to(srv_addr());
        let r = all_frames(&last);
        sym::check(r.len() == 1 && r[0].data[0] == 9 && r[0].kind == 3, "the connection request");
    }
    last
}

fn connect_garbage(step: u64, n: usize, first: bool) {
    start(calm);
    let to = srv_addr();
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
    let last = advance_to(step, &mut f, 0, 1400);
    let mut d = sym::bytes(n);
    if first { d[0] = [0x06, 0x08, 0x12, 0x19, 0x84, 0x1c, 0xc0][sym::index(7)]; }
    without_disconnect(&d);
    if step == 2 && n > 3 { sym::assume(d[0] != 0xc0 && d[0] != 0xa0); }
    // the answer to this step, but not a complete one
    let cut = (step == 0 && d[0] == 6 && n < 28) || (step == 1 && d[0] == 8 && n < 35);
    let other = (step == 0 && d[0] != 6 && d[0] != 0x19) || (step == 1 && d[0] != 8);
    model::deliver(0, to, d);
    let mut r = poll(&mut f);
    if other {
        sym::check(r.is_none(), "anything else than the answer is ignored");
        settle();
        tick(50);
        let more = model::sent();
        sym::check(more.iter().all(|d| d.bytes[0] == if step == 0 { 5 } else { 7 }), "and does not lead on");
        sym::cover("ignored");
    }
    if cut {
        sym::cover("malformed");
        sym::check(matches!(r, Some(Err(_))), "a malformed answer is reported");
    }
    for _ in 0..2 { if r.is_none() { model::step(); r = poll(&mut f); } }
    let r = match r {
        Some(r) => { sym::cover("answered"); sym::check(step == 2 || r.is_err(), "not connected before the last step"); r }
        None => {
            let mut more = sent_to(to);
            if more.is_empty() { more = last; }
            complete(&mut f, 0, 1400, more)
        }
    };
    if r.is_ok() { sym::cover("connected"); } else { sym::cover("refused"); }
    std::mem::forget(r);
}

fn connect_lossy() {
    start(calm);
    let to = srv_addr();
    let mtu = sym::range(576, 1492) as u16;
    let version = sym::u8();
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect_with_version(&to, version));
    let mut last = advance_to(0, &mut f, 0, mtu);
    sym::check(eq(&last[0][1..17], &MAGIC) && last[0][17] == version, "the first request names the protocol version");
    sym::check(last[0].len() + 28 <= 1500, "and fits a datagram");
    let lost = sym::choice(3);
    for step in 0..3 {
        if lost == step {
            // the request or its answer is lost: the same request comes again
            let before = last.clone();
            for _ in 0..[1, 2, 20][sym::index(if step < 2 { 3 } else { 2 })] {
                advance(2_000);
                sym::check(poll(&mut f).is_none(), "goes on waiting");
                settle();
                last = sent_to(to);
                sym::check(!last.is_empty(), "repeats the request");
                if step < 2 { sym::check(eq(&last[0], &before[0]), "unchanged"); }
                else { sym::check(all_frames(&last).iter().any(|x| eq(&x.data, &frames(&before[0])[0].data)), "unchanged"); }
            }
            sym::cover("lost");
        }
        // an answer to something else
        match sym::choice(4) {
            0 => { model::deliver(0, to, reply1(mtu)); if step == 0 { model::deliver(0, to, reply1(mtu)); } }
            1 => model::deliver(0, to, W::new(0x12).bytes(&MAGIC).be64(1).0),
            2 => model::deliver(0, to, vec![0xc0, 0, 0]),
            _ => {}
        }
        match step {
            0 => {
                model::deliver(0, to, reply1(mtu));
                sym::check(poll(&mut f).is_none(), "waits for the second reply");
                last = sent_to(to);
                let d = last.iter().find(|d| d[0] == 7);
                sym::check(d.is_some(), "the second request");
                let d = d.unwrap().clone();
                let want = W::new(7).bytes(&MAGIC).addr(to).be16(mtu).0;
                sym::check(d.len() == want.len() + 8 && eq(&d[..want.len()], &want), "naming the server's address and mtu");
                last = vec![d];
            }
            1 => {
                model::deliver(0, to, reply2(addr(1), mtu));
                sym::check(poll(&mut f).is_none(), "waits for the acceptance");
                settle();
                tick(50);
                let d = all_frames(&sent_to(to));
                let d = d.iter().find(|x| x.data[0] == 9);
                sym::check(d.is_some(), "the connection request");
                let d = d.unwrap().clone();
                sym::check(eq(&d.data[1..9], &last[0][last[0].len() - 8..]), "from the same client");
                last = vec![d.wire()];
            }
            _ => {
                sym::check(poll(&mut f).is_none(), "waits for the acceptance");
                model::deliver(0, to, fr(0, 3, 0, accepted(addr(1), 0, 0)).wire());
                settle();
                let r = poll(&mut f);
                sym::check(matches!(r, Some(Ok(_))), "connected");
                if let Some(Ok(s)) = &r {
                    sym::check(s.raknet_version().unwrap() == version, "with the version asked for");
                    sym::check(s.peer_addr().unwrap() == to && s.local_addr().unwrap().port() == 40_000, "to the server");
                }
                std::mem::forget(r);
            }
        }
    }
    sym::cover("end");
}

/// The server refuses the version, or goes away before the handshake is complete.
fn connect_refused() {
    start(calm);
    let to = srv_addr();
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
    let k = sym::choice(4);
    advance_to(if k == 0 { 0 } else { 2 }, &mut f, 0, 1400);
    match k {
        0 => {
            let n = [1, 20, 26, 40, 2000][sym::index(5)];
            let mut d = sym::bytes(n.min(40));
            d.resize(n, 0);
            d[0] = 0x19;
            model::deliver(0, to, d);
            sym::check(matches!(poll(&mut f), Some(Err(RaknetError::NotSupportVersion))), "an incompatible version is reported");
            sym::cover("version");
            return;
        }
        1 => model::deliver(0, to, vec![DISCONNECT]),
        2 => model::deliver(0, to, fr(0, sym::choice(5) as u8, 0, vec![DISCONNECT]).wire()),
        _ => { advance(60_051); settle(); advance(60); }
    }
    settle();
    let r = poll(&mut f);
    sym::check(r.is_some(), "connect returns when the connection ends before it is complete");
    sym::check(matches!(r, Some(Err(_))), "with an error");
    drop(r);
    drop(f);
    for _ in 0..3 { tick(50); }
    tick(11_000);
    sym::check(model::alive_tasks() == 0, "and leaves no task behind");
    sym::cover("gone");
}

// ---- C30: hostile datagrams at a listener ---------------------------------------------------------

fn hostile_listener(n: usize, id: Option<u8>) {
    start(calm);
    let mut v = server();
    let s1 = v.session(addr(1), 1400);
    let known = sym::choice(2) == 1;
    let from = if known { addr(1) } else { addr(9) };
    let mut d = sym::bytes(n);
    if let Some(b) = id { d[0] = b; if n > 17 { d[1..17].copy_from_slice(&MAGIC); if sym::choice(2) == 1 { d[5] = sym::u8(); } } }
    if known {
        without_disconnect(&d);
        if n > 3 { sym::assume(d[0] != 0xc0 && d[0] != 0xa0); }
        // frames: see hostile_frames
        if n > 17 { sym::assume(!(d[0] >= 0x80 && d[0] <= 0x8d)); } else if n > 3 { d[3] = 0; d[2] = 0; }
    }
    v.hear(from, d);
    tick(50);
    model::take_sent();
    // pings are still answered
    v.hear(addr(3), ping(7));
    let r = sent_to(addr(3));
    sym::check(r.len() == 1 && r[0][0] == 0x1c, "pings are still answered");
    // others still connect
    let hostile_accept = now(v.l.accept());
    if hostile_accept.is_some() { sym::cover("session"); }
    let s2 = v.session(addr(2), 1400);
    sym::check(s2.peer_addr().unwrap() == addr(2), "others still connect");
    // and the existing session still works
    v.hear(addr(1), fr(0x100, 2, 0x100, vec![0xfe; 64]).wire());
    let mut found = false;
    for _ in 0..4 {
        match recv(&s1) { Some(Ok(p)) => if p.len() == 64 { found = true; }, Some(Err(_)) => sym::check(false, "existing sessions stay open"), None => break }
    }
    sym::check(found, "existing sessions still receive");
    sym::cover("end");
    std::mem::forget((s1, s2, v, hostile_accept));
}

/// Short datagrams one after the other, from anybody: what one leaves behind must not be taken for the next.
fn hostile_history(n: usize) {
    start(calm);
    let mut v = server();
    let s1 = v.session(addr(1), 1400);
    let s2 = v.session(addr(2), 1400);
    let mut gone = false;
    for _ in 0..n {
        let k = sym::choice(3);
        let d = match sym::choice(6) {
            0 => vec![],
            1 => vec![DISCONNECT],
            2 => ping(sym::u64()),
            3 => vec![sym::u8()],
            4 => fr(3, 2, 3, vec![0xfe, 1]).wire(),
            _ => vec![0x84, 1],
        };
        if k == 2 && d.len() == 1 { gone |= d[0] == DISCONNECT; }
        let pinged = d.len() == 33;
        v.hear(addr([9, 2, 2][k as usize]), d);
        if k == 1 { tick(50); }
        let mut r: Vec<_> = model::take_sent().into_iter().filter(|d| d.bytes[0] == 0x1c).collect();
        sym::check(r.len() == pinged as usize, "pings are answered, and nothing else is taken for one");
        r.clear();
    }
    tick(50);
    tick(50);
    sym::check(!closed(&s1), "sessions of other addresses stay open");
    v.hear(addr(1), fr(0, 2, 0, vec![0xfe, 1, 2]).wire());
    sym::check(matches!(recv(&s1), Some(Ok(d)) if eq(&d, &[0xfe, 1, 2])), "and receive");
    let s3 = v.session(addr(3), 1400);
    sym::check(!closed(&s3), "others still connect");
    if gone { sym::cover("gone"); }
    sym::cover("end");
    std::mem::forget((s1, s2, s3, v));
}

// ---- C31: ping -------------------------------------------------------------------------------------

fn tail(d: &[u8], motd: &str) -> bool {
    let n = motd.len();
    d.len() == 35 + n && eq(&d[17..33], &MAGIC) && d[33] as usize == n >> 8 && d[34] as usize == n & 255 && eq(&d[35..], motd.as_bytes())
}

fn pong() {
    start(calm);
    let mut l = soon(RaknetListener::bind(&srv_addr())).unwrap();
    let set = sym::choice(4);
    let hello = "hello".repeat([1, 51, 52, 290, 400, 13_000][if set == 1 { sym::index(6) } else { 0 }]);
    if set == 1 { l.set_full_motd(hello.clone()).unwrap(); }
    soon(l.listen());
    if set == 2 { l.set_full_motd("later".to_string()).unwrap(); }
    if set == 3 { soon(l.set_motd("Name", 20, "486", "1.18.11", "Survival", 19132)); }
    settle();
    let v = Server { l, sock: 0 };
    let motd = soon(v.l.get_motd());
    if set == 1 { sym::check(motd == hello, "the motd is the one set"); }
    if set == 2 { sym::check(motd == "later", "the motd is the one set"); }
    if set == 0 { sym::check(motd.starts_with("MCPE;"), "there is a default"); }
    let mut ids = vec![];
    for _ in 0..2 {
        let mut d = W::new(1 + sym::choice(2) as u8).be64(sym::u64()).bytes(&MAGIC).be64(sym::u64()).0;
        // the client id is optional
        if sym::choice(2) == 1 { d.truncate(33); }
        v.hear(addr(1), d);
        let r = sent_to(addr(1));
        sym::check(r.len() == 1 && r[0][0] == 0x1c, "one pong per ping");
        sym::check(tail(&r[0], &motd), "with the motd");
        ids.push(be64(&r[0][9..17]));
    }
    sym::check(ids[0] == ids[1], "and the server's id");
    if set == 3 {
        // edition;name;protocol;version;players;most players;server id;world;game type;number;port;
        let want = format!("MCPE;Name;486;1.18.11;0;20;{};Bedrock level;Survival;1;19132;", ids[0]);
        sym::check(motd == want, "the motd is made of what was set, and the server's id");
        sym::cover("fields");
    }
    sym::check(model::take_sent().is_empty(), "and nothing else");
    std::mem::forget(v);
    sym::cover("end");
}

/// The motd of a complete pong, by the documented layout; `None` if `d` is not one.
fn pong_motd(d: &[u8]) -> Option<&[u8]> {
    if d.len() < 35 || d[0] != 0x1c { return None; }
    let n = d[33] as usize * 256 + d[34] as usize;
    if d.len() < 35 + n { return None; }
    let m = &d[35..35 + n];
    std::str::from_utf8(m).ok().map(|_| m)
}

/// `n`: the bytes of a first answer that is not the pong (0: none); `motd`: the length of the motd.
fn ping_any(n: usize, motd: usize, any: bool) {
    start(calm);
    let to = srv_addr();
    if n == 0 { sym::clock_set(if any { sym::range(0, 1 << 41) } else { clock_value() }); }
    let mut f: Fut<_> = Box::pin(RaknetSocket::ping(&to));
    sym::check(poll(&mut f).is_none(), "waits for the pong");
    let r = sent_to(to);
    sym::check(r.len() == 1 && (r[0][0] == 1 || r[0][0] == 2) && eq(&r[0][9..25], &MAGIC), "a ping is sent");
    sym::check(be64(&r[0][1..9]) == sym::clock_get(), "with the local time");
    let k = if n > 0 { 1 } else { sym::choice(2) * 2 };
    match k {
        0 => {
            for _ in 0..[1, 2, 20][sym::index(3)] {
                advance(5_000);
                sym::check(poll(&mut f).is_none(), "goes on waiting");
                sym::check(sent_to(to).len() == 1, "a lost ping is repeated");
            }
            sym::cover("lost");
        }
        1 => {
            let mut d = sym::bytes(n);
            if sym::choice(2) == 1 { d[0] = 0x1c; }
            if n >= 35 { d[17..33].copy_from_slice(&MAGIC); d[33] = 0; }
            model::deliver(0, to, d.clone());
            let r = poll(&mut f);
            match (pong_motd(&d), &r) {
                (Some(m), Some(Ok((_, s)))) => {
                    sym::check(eq(s.as_bytes(), m), "the motd is the one of the pong");
                    sym::cover("answered");
                    std::mem::forget(r);
                    return;
                }
                (Some(_), None) => sym::check(false, "a pong is an answer"),
                (_, Some(_)) => sym::check(false, "only a complete pong is an answer"),
                _ => {}
            }
            advance(5_000);
            sym::check(poll(&mut f).is_none(), "goes on waiting");
            sym::check(sent_to(to).len() == 1, "a ping is sent again");
            sym::cover("garbage");
        }
        _ => {}
    }
    let d = if n > 0 || motd > 4 { 3 } else if any { sym::range(0, 4_999) } else { [0, 1, 999, 1_000, 4_999][sym::index(5)] };
    advance(d);
    let text: Vec<u8> = (0..motd).map(|i| if k == 1 || i >= 4 { 65 + (i % 32) as u8 } else { sym::range(32, 126) as u8 }).collect();
    // the remote clock is anything
    model::deliver(0, to, W::new(0x1c).be64(sym::u64()).be64(sym::u64()).bytes(&MAGIC).be16(motd as u16).bytes(&text).0);
    match poll(&mut f) {
        Some(Ok((l, m))) => {
            sym::check(l == d as i64, "the latency is the local round trip time");
            sym::check(eq(m.as_bytes(), &text), "the motd is the one sent");
            sym::cover("pong");
        }
        _ => sym::check(false, "the pong is returned"),
    }
}

// ---- C32: version negotiation ------------------------------------------------------------------------

fn port(n: u16) -> SocketAddr { host(1, n) }

fn version() {
    start(calm);
    let mut v = server();
    let (a, b, c) = (port(1), port(2), port(3));
    let mut got = [10u8; 2];
    for (i, p) in [a, b].iter().enumerate() {
        for _ in 0..if i == 0 { 2 } else { 1 } {
            let x = sym::u8();
            v.hear(*p, req1(x, sym::concrete(sym::choice(3)) as usize * 700));
            let r = sent_to(*p);
            sym::check(r.len() == 1, "one answer");
            if x == 10 || x == 11 {
                sym::cover("supported");
                got[i] = x;
                sym::check(r[0].len() == 28 && r[0][0] == 6 && eq(&r[0][1..17], &MAGIC) && r[0][25] == 0, "a supported version is answered");
                sym::check(eq(&r[0][26..28], &[5, 0x78]), "with the mtu");
            } else {
                sym::cover("refused");
                sym::check(r[0].len() == 26 && r[0][0] == 0x19 && r[0][1] == 10 && eq(&r[0][2..18], &MAGIC), "any other is refused, naming the server's");
            }
            sym::check(now(v.l.accept()).is_none(), "no session yet");
        }
    }
    for (i, p) in [a, b].iter().enumerate() {
        sym::check(matches!(soon(v.l.get_peer_raknet_version(p)), Ok(x) if x == got[i]), "the version is recorded for the peer");
    }
    sym::check(matches!(soon(v.l.get_peer_raknet_version(&c)), Ok(10)), "and for nobody else");
    let i = sym::index(2);
    v.hear([a, b][i], req2(1400, 5));
    let s = soon(v.l.accept()).unwrap();
    sym::check(s.raknet_version().unwrap() == got[i] && s.peer_addr().unwrap() == [a, b][i], "and is the session's");
    std::mem::forget((s, v));
    sym::cover("end");
}

/// Many peers have asked, and any of them goes on.
fn versions_many(n: u8) {
    start(calm);
    let mut v = server();
    let at = |i: u8| SocketAddr::from(([10, 0, i / 11, 7], 5000 + i as u16));
    let k = sym::index(n as u64) as u8;
    let x = sym::u8();
    let ver = |i: u8| if i == k { x } else { [10, 11, 9][i as usize % 3] };
    let good = |x: u8| x == 10 || x == 11;
    for i in 0..n {
        v.hear(at(i), req1(ver(i), 40));
        let r = sent_to(at(i));
        sym::check(r.len() == 1 && r[0][0] == if good(ver(i)) { 6 } else { 0x19 }, "supported or refused");
    }
    for i in 0..n {
        let w = if good(ver(i)) { ver(i) } else { 10 };
        sym::check(matches!(soon(v.l.get_peer_raknet_version(&at(i))), Ok(y) if y == w), "the version is recorded for the peer");
    }
    // others go on first
    for i in 0..sym::index(2) as u8 * 12 {
        if i == k { continue; }
        v.hear(at(i), req2(1400, 4));
        let w = if good(ver(i)) { ver(i) } else { 10 };
        match now(v.l.accept()) {
            Some(Ok(s)) => { sym::check(s.peer_addr().unwrap() == at(i) && s.raknet_version().unwrap() == w, "every session has its own version"); std::mem::forget(s); sym::cover("others"); }
            _ => sym::check(false, "a session for the address"),
        }
    }
    v.hear(at(k), req2(1400, 5));
    let s = soon(v.l.accept()).unwrap();
    sym::check(s.peer_addr().unwrap() == at(k) && s.raknet_version().unwrap() == if good(x) { x } else { 10 }, "and is the session's");
    std::mem::forget((s, v));
    sym::cover("end");
}

// ---- C33: sessions ------------------------------------------------------------------------------------

/// A connected address asks again, by a client that was restarted, say.
fn version_connected(n: usize) {
    start(calm);
    let mut v = server();
    let p = port(1);
    let first = [10u8, 11][sym::index(2)];
    v.hear(p, req1(first, 40));
    v.hear(p, req2(1400, 5));
    let s = soon(v.l.accept()).unwrap();
    settle();
    model::take_sent();
    let mut got = first;
    for i in 0..n {
        match sym::choice(3) {
            0 => {
                let x = sym::u8();
                v.hear(p, req1(x, 40));
                let r = sent_to(p);
                sym::check(r.len() == 1, "one answer");
                if x == 10 || x == 11 {
                    sym::cover("supported");
                    got = x;
                    sym::check(r[0].len() == 28 && r[0][0] == 6, "a supported version is answered");
                } else {
                    sym::cover("refused");
                    sym::check(r[0].len() == 26 && r[0][0] == 0x19 && r[0][1] == 10, "any other is refused, naming the server's");
                }
            }
            1 => {
                v.hear(p, ping(sym::u64()));
                let r = sent_to(p);
                sym::check(r.len() == 1 && r[0][0] == 0x1c, "pings are answered");
                sym::cover("ping");
            }
            _ => {
                if sym::choice(2) == 1 { for _ in 0..12 { tick(1_000); } model::take_sent(); }
                let same = sym::choice(2) == 1;
                v.hear(p, req2(1400, if same { 5 } else { 6 }));
                let r = sent_to(p);
                sym::check(r.len() == 1 && r[0][0] == if same { 8 } else { 0x12 }, "answered again, or already connected");
                sym::cover("request");
            }
        }
        let d = [0xfe, i as u8, sym::u8()];
        v.hear(p, fr(i as u32, 2, i as u32, d.to_vec()).wire());
        sym::check(matches!(recv(&s), Some(Ok(g)) if eq(&g, &d)), "the session goes on");
        sym::check(s.raknet_version().unwrap() == first, "with its version");
        let r = sent_to(p);
        sym::check(r.iter().all(|d| d[0] == 0xc0), "nothing else is sent");
        sym::check(now(v.l.accept()).is_none(), "no second session");
    }
    sym::check(matches!(soon(v.l.get_peer_raknet_version(&p)), Ok(x) if x == got), "the last supported version is recorded");
    v.hear(p, vec![DISCONNECT]);
    for _ in 0..2 { tick(50); }
    model::take_sent();
    v.hear(p, req2(1400, 9));
    match now(v.l.accept()) {
        Some(Ok(s)) => { sym::check(s.raknet_version().unwrap() == got, "and is the next session's"); std::mem::forget(s); }
        _ => sym::check(false, "the address can connect again"),
    }
    std::mem::forget((s, v));
    sym::cover("end");
}

fn sessions(n: usize) {
    start(calm);
    let mut v = server();
    let peers = [port(1), port(2)];
    let mut sess: [Option<RaknetSocket>; 2] = [None, None];
    let mut sent = [0u8; 2];
    let mut ids = [0; 2];
    for _ in 0..n {
        let i = sym::index(2);
        match sym::choice(4) {
            0 => {
                let id = [7, 7 + (1 << 32)][sym::index(2)];
                v.hear(peers[i], req2(1400, id));
                let r: Vec<_> = model::take_sent();
                let r: Vec<_> = r.into_iter().filter(|d| d.bytes[0] == 8 || d.bytes[0] == 0x12).collect();
                sym::check(r.len() == 1 && r[0].addr == peers[i], "a request is answered");
                let new = now(v.l.accept());
                if sess[i].is_some() {
                    sym::cover("again");
                    sym::check(new.is_none(), "no second session for an address");
                    // whoever created the session may not have got the reply
                    if id == ids[i] { sym::check(r[0].bytes[0] == 8 || r[0].bytes[0] == 0x12, "the same client is answered"); }
                    else { sym::check(r[0].bytes[0] == 0x12, "anybody else is already connected"); }
                } else {
                    sym::cover("new");
                    sym::check(r[0].bytes[0] == 8, "accepted");
                    match new {
                        Some(Ok(s)) => { sym::check(s.peer_addr().unwrap() == peers[i], "a session for the address"); sess[i] = Some(s); sent[i] = 0; ids[i] = id; }
                        _ => sym::check(false, "a session for the address"),
                    }
                }
            }
            1 => {
                sent[i] += 1;
                v.hear(peers[i], fr(sent[i] as u32, 2, sent[i] as u32, vec![0xfe, i as u8, sent[i]]).wire());
                for j in 0..2 {
                    if let Some(s) = &sess[j] {
                        let r = recv(s);
                        if i == j { sym::check(matches!(r, Some(Ok(d)) if eq(&d, &[0xfe, i as u8, sent[i]])), "a message reaches the session of its address"); sym::cover("data"); }
                        else { sym::check(r.is_none(), "and no other"); }
                    }
                }
            }
            2 => {
                v.hear(peers[i], vec![DISCONNECT]);
                // it is usually repeated
                v.hear(peers[i], vec![DISCONNECT]);
                if let Some(s) = sess[i].take() { sym::cover("disconnect"); sym::check(closed(&s), "a disconnect closes the session of its address"); tick(50); tick(50); }
            }
            _ => tick(50),
        }
        for j in 0..2 {
            if let Some(s) = &sess[j] {
                sym::check(matches!(now(s.send(&[0xfe], Reliability::Unreliable)), Some(Ok(()))), "the other sessions stay open");
                settle();
                sym::check(model::take_sent().iter().filter(|d| is_frames(&d.bytes)).all(|d| d.addr == peers[j]), "and send to their own address");
            }
        }
    }
    sym::cover("end");
    std::mem::forget((v, sess));
}

/// A session that was idle for a while, but not for a minute, is still the one of its address.
fn sessions_idle() {
    start(calm);
    let mut v = server();
    let p = addr(1);
    let s = v.session(p, 1400);
    let at = [0, 9_000, 31_000, 45_000, 59_000][sym::index(5)];
    for _ in 0..at / 1000 { tick(1_000); }
    model::take_sent();
    let id = [5, 6, 5 + (1 << 32)][sym::index(3)];
    v.hear(p, req2(1400, id));
    let r = sent_to(p);
    sym::check(r.len() == 1 && (r[0][0] == 0x12 || id == 5 && r[0][0] == 8), "a further request is answered");
    sym::check(now(v.l.accept()).is_none(), "no second session for an address");
    sym::check(!closed(&s), "the session stays open");
    v.hear(p, fr(0, 2, 0, vec![0xfe, 9]).wire());
    sym::check(matches!(recv(&s), Some(Ok(d)) if eq(&d, &[0xfe, 9])), "and receives what its address sends");
    sym::cover("end");
    std::mem::forget((v, s));
}

/// A peer comes back from the same address right after its session ended, one way or another.
fn reconnect() {
    start(calm);
    let mut v = server();
    let p = addr(1);
    let s = v.session(p, 1400);
    let mut old = Some(s);
    match sym::choice(4) {
        0 => for _ in 0..sym::choice(2) + 1 { v.hear(p, vec![DISCONNECT]) },
        1 => v.hear(p, fr(0, 2, 0, vec![DISCONNECT]).wire()),
        2 => { tick(30_000); tick(30_100); sym::check(closed(old.as_ref().unwrap()), "an idle session times out"); sym::cover("timed out"); }
        _ => { soon(old.as_ref().unwrap().close()).unwrap(); }
    }
    for _ in 0..sym::choice(4) { tick(20); }
    if sym::choice(2) == 1 { v.hear(p, fr(1, 0, 0, vec![0xfe]).wire()); }
    if sym::choice(2) == 1 { drop(old.take()); }
    // like connect(): repeat the request until it is answered
    let mut s = None;
    for _ in 0..8 {
        v.hear(p, req2(1400, 8));
        if let Some(Ok(x)) = now(v.l.accept()) { s = Some(x); break; }
        tick(20);
    }
    sym::check(s.is_some(), "an address whose session ended can connect again");
    let s = s.unwrap();
    for _ in 0..6 { tick(50); }
    v.hear(p, fr(0, 2, 0, vec![0xfe, 9]).wire());
    sym::check(matches!(recv(&s), Some(Ok(d)) if eq(&d, &[0xfe, 9])), "and the end of the old session does not touch the new one");
    sym::check(!closed(&s), "which stays open");
    sym::cover("end");
    std::mem::forget((v, s, old));
}

/// `n` sessions at once, and whatever happens to one of them.
fn crowd(n: u8) {
    start(calm);
    // a listener of IPv6 serves IPv4, too
    six();
    let mut v = server();
    unsafe { SIX = false };
    let at = |i: u8| if i % 4 == 3 { SocketAddr::from(([0xfe80, 0, 0, 0, 0, 0, 1, i as u16 / 7], 5000 + i as u16)) } else { SocketAddr::from(([10, 0, i / 7, 7], 5000 + i as u16)) };
    let ver = |i: u8| if i % 3 == 0 { 11 } else { 10 };
    // all ask before the first goes on
    for i in 0..n { v.hear(at(i), req1(ver(i), 40)); sym::check(sent_to(at(i)).iter().all(|r| r[0] == 6), "the first request is answered"); }
    let mut all = vec![];
    for i in 0..n {
        v.hear(at(i), req2(1400, i as u64));
        sym::check(sent_to(at(i)).len() == 1, "the second request is answered");
        let s = soon(v.l.accept()).unwrap();
        sym::check(s.peer_addr().unwrap() == at(i) && s.raknet_version().unwrap() == ver(i), "address and version of the peer");
        all.push(Some(s));
    }
    for (id, from) in [(1, addr(3)), (2, addr(3)), (1, at(0)), (2, at(n - 1))] {
        let mut p = ping(1);
        p[0] = id;
        v.hear(from, p);
        let r = sent_to(from);
        sym::check(r.len() == 1 && r[0][0] == 0x1c, "pings are answered");
    }
    let k = sym::index(n as u64) as u8;
    let x = sym::u8();
    v.hear(at(k), fr(0, 3, 0, vec![0xfe, x]).wire());
    for i in 0..n {
        let r = recv(all[i as usize].as_ref().unwrap());
        if i == k { sym::check(matches!(r, Some(Ok(d)) if eq(&d, &[0xfe, x])), "a message reaches the session of its address"); }
        else { sym::check(r.is_none(), "and no other"); }
    }
    match sym::choice(4) {
        0 => { v.hear(at(k), vec![DISCONNECT]); all[k as usize] = None; sym::cover("disconnect"); }
        1 => { soon(all[k as usize].as_ref().unwrap().close()).unwrap(); sym::cover("close"); }
        2 => {
            // silence of one
            for _ in 0..2 { advance(25_000); for i in 0..n { if i != k { v.hear(at(i), fr(7, 0, 0, vec![3; 17]).wire()); } } }
            tick(11_000);
            sym::check(closed(all[k as usize].as_ref().unwrap()), "an idle session times out");
            sym::cover("timed out");
        }
        _ => { all[k as usize] = None; sym::cover("dropped"); }
    }
    tick(50);
    tick(50);
    model::take_sent();
    for i in 0..n {
        if let Some(s) = &all[i as usize] {
            if i == k { continue; }
            sym::check(matches!(now(s.send(&[0xfe, i], Reliability::Unreliable)), Some(Ok(()))), "the other sessions stay open");
            settle();
            let d = model::take_sent();
            sym::check(d.len() == 1 && d[0].addr == at(i), "and send to their own address");
        }
    }
    v.hear(at(k), req2(1400, 300));
    match now(v.l.accept()) {
        Some(Ok(s)) => { sym::check(s.peer_addr().unwrap() == at(k), "the address connects again"); all[k as usize] = Some(s); }
        _ => sym::check(false, "the address connects again"),
    }
    model::take_sent();
    let mut told = vec![false; n as usize];
    {
        let mut f: Fut<_> = Box::pin(v.l.close());
        let mut r = poll(&mut f);
        for _ in 0..30 {
            if r.is_some() { break; }
            tick(50);
            r = poll(&mut f);
            for d in model::take_sent() { if d.bytes.len() == 1 && d.bytes[0] == DISCONNECT { for i in 0..n { if d.addr == at(i) { told[i as usize] = true; } } } }
        }
        sym::check(matches!(r, Some(Ok(()))), "close returns");
    }
    sym::check(model::socket_closed(v.sock), "the address is free again");
    sym::check(told.iter().all(|t| *t), "every connected peer is told");
    sym::check(all.iter().all(|s| closed(s.as_ref().unwrap())), "sessions are closed");
    drop(all);
    drop(v);
    tick(50);
    tick(50);
    sym::check(model::alive_tasks() == 0, "no task is left");
    sym::cover("end");
}

// ---- C34: closing a listener ---------------------------------------------------------------------------

fn close_listener() {
    start(limited);
    let k = sym::choice(4);
    let mut l = soon(RaknetListener::bind(&srv_addr())).unwrap();
    if k > 0 { soon(l.listen()); }
    if k == 1 { soon(l.listen()); }
    settle();
    let mut v = Server { l, sock: 0 };
    let mut open = vec![];
    for i in 1..k {
        let p = addr(i as u8);
        match sym::choice(3) {
            0 => { let s = v.session(p, 1400); open.push((p, Some(s))); }
            1 => { let s = v.session(p, 1400); drop(s); if sym::choice(2) == 1 { tick(50); } else { open.push((p, None)); } }
            // never accepted
            _ => { v.hear(p, req2(1400, 3)); open.push((p, None)); }
        }
    }
    if k > 1 && sym::choice(2) == 1 { if let Some((_, Some(s))) = &open.first() { soon(s.send(&[0xfe], Reliability::Reliable)).unwrap(); } }
    // those that had been told already
    let mut told = vec![false; open.len()];
    for d in model::take_sent() {
        if d.bytes.len() == 1 && d.bytes[0] == DISCONNECT { for (i, (p, _)) in open.iter().enumerate() { if *p == d.addr { told[i] = true; } } }
    }
    budget(4);
    // a request is just arriving
    if k > 0 && sym::choice(2) == 1 { model::deliver(v.sock, addr(9), req2(1400, 3)); sym::cover("request at close"); }
    let rev = sym::choice(2) == 1;
    {
        let mut f: Fut<_> = Box::pin(v.l.close());
        let mut r = poll(&mut f);
        for _ in 0..30 {
            if r.is_some() { break; }
            if rev { model::step_rev() } else { model::step() }
            advance(50);
            r = poll(&mut f);
            for d in model::take_sent() {
                if d.bytes.len() == 1 && d.bytes[0] == DISCONNECT { for (i, (p, _)) in open.iter().enumerate() { if *p == d.addr { told[i] = true; } } }
            }
        }
        sym::check(matches!(r, Some(Ok(()))), "close returns");
    }
    sym::check(model::socket_closed(v.sock), "the address is free again");
    sym::check(told.iter().all(|t| *t), "every connected peer is told");
    sym::check(matches!(now(v.l.accept()), Some(Err(_))), "accept returns an error");
    sym::check(v.l.local_addr().is_err(), "there is no local address any more");
    sym::check(matches!(now(v.l.close()), Some(Ok(()))), "closing again returns at once");
    soon(v.l.listen());
    sym::check(matches!(now(v.l.accept()), Some(Err(_))), "it stays closed");
    for (_, s) in &open {
        if let Some(s) = s {
            sym::check(closed(s), "sessions are closed");
            sym::check(matches!(recv(s), Some(Err(RaknetError::ConnectionClosed))), "and receive nothing more");
        }
    }
    drop(open);
    drop(v);
    tick(50);
    tick(50);
    sym::check(model::alive_tasks() == 0, "no task is left");
    sym::cover("end");
}

/// Somebody waits in accept() (through select) when the listener is dropped or closed.
/// More peers connect than anybody accepts.
fn backlog() {
    start(limited);
    let mut v = server();
    let first = v.session(addr(1), 1400);
    let n = 9 + sym::concrete(sym::range(0, 3)) as u8;
    for i in 0..n {
        v.hear(addr(10 + i), req1(10, 40));
        v.hear(addr(10 + i), req2(1400, i as u64));
    }
    model::take_sent();
    for id in 1..3 {
        let mut p = ping(1);
        p[0] = id;
        v.hear(addr(3), p);
        sym::check(sent_to(addr(3)).len() == 1, "pings are answered");
    }
    v.hear(addr(1), fr(0, 2, 0, vec![0xfe, 1]).wire());
    sym::check(matches!(recv(&first), Some(Ok(_))), "accepted connections work");
    if sym::choice(2) == 1 {
        sym::cover("accept");
        let mut got = 0;
        let mut keep = vec![];
        for _ in 0..3 {
            while let Some(r) = now(v.l.accept()) { keep.push(r.unwrap()); got += 1; }
            for i in 0..n { if !keep.iter().any(|s| s.peer_addr().unwrap() == addr(10 + i)) { v.hear(addr(10 + i), req2(1400, i as u64)); } }
        }
        sym::check(got == n, "everybody who repeats its request is accepted in the end");
        std::mem::forget((keep, first));
    } else {
        sym::cover("close");
        budget(4);
        let mut f: Fut<_> = Box::pin(v.l.close());
        let mut r = poll(&mut f);
        for _ in 0..30 { if r.is_some() { break; } tick(50); r = poll(&mut f); }
        sym::check(matches!(r, Some(Ok(()))), "close returns");
        sym::check(closed(&first), "sessions are closed");
        drop(f);
        std::mem::forget(first);
    }
    std::mem::forget(v);
    sym::cover("end");
}

/// An application does not read from one connection.
fn slow_reader() {
    start(calm);
    let mut v = server();
    let slow = v.session(addr(1), 1400);
    let other = v.session(addr(2), 1400);
    let n = 90 + sym::concrete(sym::range(0, 3)) * 10;
    for i in 0..n as u32 { v.hear(addr(1), fr(i, 2, i, vec![0xfe, i as u8]).wire()); }
    model::take_sent();
    v.hear(addr(2), fr(0, 2, 0, vec![0xfe, 1]).wire());
    let over = n > 110;
    sym::check(matches!(recv(&other), Some(Ok(_))), if over { "other connections work beyond 110 unread messages" } else { "other connections work" });
    v.hear(addr(3), ping(1));
    sym::check(sent_to(addr(3)).len() == 1, if over { "pings are answered beyond 110 unread messages" } else { "pings are answered" });
    std::mem::forget((v, slow, other));
    sym::cover("end");
}

// ---- C40: sends that fail ---------------------------------------------------------------------------

/// The next `budget` sends may fail.
pub fn failing(c: Choice) -> bool {
    unsafe {
        if c != Choice::SendFails || BUDGET == 0 { return false; }
        BUDGET -= 1;
    }
    let f = sym::choice(2) == 1;
    if f { sym::cover("failed"); }
    f
}

fn send_fails(n: u32) {
    start(failing);
    budget(0);
    let mut c = conn(sym::choice(2) == 1);
    let alive = model::alive_tasks();
    budget(n);
    let p = [0xfe, sym::u8()];
    let k = 2 + sym::choice(3);
    sym::check(matches!(soon(c.s.send(&p, rel(k))), Ok(())), "sending goes on");
    settle();
    let mut sent = all_frames(&c.sent());
    // a gap, for a NACK, and something to acknowledge
    c.seq += 2;
    c.hear(fr(c.seq, 2, c.seq, vec![0xfe, 7]).wire());
    sym::check(matches!(recv(&c.s), Some(Ok(d)) if eq(&d, &[0xfe, 7])), "receiving goes on");
    for _ in 0..2 { tick(50); sent.extend(all_frames(&c.sent())); }
    budget(0);
    for _ in 0..3 { tick(1_000); sent.extend(all_frames(&c.sent())); }
    sym::check(sent.iter().any(|f| eq(&f.data, &p)), "what could not be sent is sent again");
    sym::check(model::alive_tasks() == alive, "no task of the connection has ended");
    sym::check(!closed(&c.s), "the connection stays open");
    settle();
    c.hear(ack(0xc0, &[(0, 64)]));
    still_works(&mut c, alive);
    sym::cover("end");
}

/// Failing sends while the connection ends.
fn send_fails_close() {
    start(failing);
    budget(0);
    let c = conn(sym::choice(2) == 1);
    budget(6);
    if sym::choice(2) == 1 { soon(c.s.close()).unwrap(); }
    let Conn { s, srv, base, .. } = c;
    drop(s);
    settle();
    tasks_end(base);
    std::mem::forget(srv);
    sym::cover("end");
}

fn send_fails_listener() {
    start(failing);
    budget(0);
    let mut v = server();
    budget(5);
    for _ in 0..2 {
        match sym::choice(4) {
            0 => v.hear(addr(1), ping(1)),
            1 => v.hear(addr(1), req1(sym::choice(2) as u8 * 10, 20)),
            2 => v.hear(addr(1), req2(1400, 5)),
            _ => v.hear(addr(1), req2(1400, 6)),
        }
    }
    let early = now(v.l.accept());
    budget(0);
    model::take_sent();
    v.hear(addr(3), ping(1));
    sym::check(sent_to(addr(3)).len() == 1, "pings are answered");
    let s = v.session(addr(2), 1400);
    sym::check(!closed(&s), "peers connect");
    std::mem::forget((v, s, early));
    sym::cover("end");
}

fn send_fails_connect() {
    start(failing);
    budget(0);
    let to = srv_addr();
    let at = sym::choice(3);
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
    let mut last = vec![];
    if at > 0 { last = advance_to(at - 1, &mut f, 0, 1400); }
    budget(4);
    for d in &last {
        if d[0] == 5 { model::deliver(0, to, reply1(1400)); } else { model::deliver(0, to, reply2(addr(1), 1400)); }
    }
    sym::check(poll(&mut f).is_none(), "goes on");
    settle();
    for _ in 0..4 { advance(1_000); sym::check(poll(&mut f).is_none(), "goes on"); settle(); }
    budget(0);
    let mut more = sent_to(to);
    if more.is_empty() { advance(2_000); sym::check(poll(&mut f).is_none(), "goes on"); settle(); more = sent_to(to); }
    let r = complete(&mut f, 0, 1400, more);
    sym::check(r.is_ok(), "connected in the end");
    std::mem::forget(r);
    sym::cover("end");
}

fn drop_listener() {
    start(limited);
    let mut v = server();
    let s = v.session(addr(1), 1400);
    budget(4);
    {
        let mut f: Fut<_> = Box::pin(v.l.accept());
        sym::check(poll(&mut f).is_none(), "waits for a connection");
    }
    let Server { l, .. } = v;
    drop(l);
    let rev = sym::choice(2) == 1;
    for _ in 0..4 { advance(50); for _ in 0..3 { if rev { model::step_rev() } else { model::step() } } }
    sym::check(said_disconnect(&sent_to(addr(1))), "peers are told");
    sym::check(closed(&s), "sessions are closed");
    drop(s);
    tick(50);
    sym::check(model::alive_tasks() == 0, "no task is left");
    sym::cover("end");
}

// ---- C48: the listener's calls in any order -------------------------------------------------------------

static mut NONBLOCKING: bool = false;
/// std asks for non-blocking operation with FIONBIO. The descriptor of this harness is not one of the system.
#[no_mangle]
pub extern "C" fn ioctl(fd: i32, req: u64, arg: *const i32) -> i32 {
    if fd == 4321 && req == 0x5421 && unsafe { *arg } != 0 { unsafe { NONBLOCKING = true } }
    0
}
fn listener(std: bool) -> Result<RaknetListener, RaknetError> {
    if !std { return soon(RaknetListener::bind(&srv_addr())); }
    use std::os::fd::FromRawFd;
    model::std_socket(srv_addr());
    unsafe { NONBLOCKING = false };
    let r = soon(RaknetListener::from_std(unsafe { std::net::UdpSocket::from_raw_fd(4321) }));
    sym::check(unsafe { NONBLOCKING }, "a socket taken over does not block");
    r
}

/// Calls of a listener in any order, against what they are documented to do.
fn listener_calls(n: usize) {
    start(calm);
    let sock = model::sockets();
    let mut l = match listener(sym::choice(2) == 1) { Ok(l) => l, Err(_) => { sym::check(false, "the address is free"); return; } };
    let (mut listening, mut over, mut named) = (false, false, false);
    let mut motd = String::new();
    let mut waiting = 0;
    let mut open = vec![];
    let mut peers = 0u8;
    for _ in 0..n {
        match sym::choice(8) {
            0 => {
                soon(l.listen());
                settle();
                // only the first call does anything
                if !over && !listening {
                    listening = true;
                    if motd.is_empty() {
                        motd = soon(l.get_motd());
                        sym::check(motd.starts_with("MCPE;") && motd.contains(";19132;"), "a listener has a default motd");
                    }
                }
            }
            1 => match now(l.accept()) {
                None => sym::check(listening && waiting == 0, "accept waits for a connection"),
                Some(Ok(s)) => { sym::check(listening && waiting > 0, "accept returns a connection"); waiting -= 1; open.push(s); sym::cover("accepted"); }
                Some(Err(e)) => { sym::check(!listening && matches!(e, RaknetError::NotListen), "a listener that does not listen says so"); sym::cover("not listening"); }
            },
            2 => if listening {
                peers += 1;
                model::deliver(sock, addr(peers), req1(10, 40));
                settle();
                model::deliver(sock, addr(peers), req2(1400, 5));
                settle();
                waiting += 1;
                let r = sent_to(addr(peers));
                sym::check(r.len() == 2 && r[0][0] == 6 && r[1][0] == 8, "a listening one answers, once");
            },
            3 => { model::take_sent(); model::deliver(sock, addr(99), ping(5)); settle();
                let r = sent_to(addr(99));
                // before listen() it waits in the socket
                if listening { sym::check(!r.is_empty() && r.iter().all(|d| d[0] == 0x1c), "a listening one answers pings"); sym::check(pong_motd(&r[r.len() - 1]).map_or(false, |m| eq(m, motd.as_bytes())), "with the motd"); sym::cover("pong"); }
                else { sym::check(r.is_empty(), "others do not"); }
            }
            4 => { motd = ["", "mine"][sym::index(2)].to_string(); named = !motd.is_empty(); sym::check(matches!(l.set_full_motd(motd.clone()), Ok(())), "the motd can be set at any time"); }
            5 => { soon(l.set_motd("A", 7, "B", "C", "D", 9)); motd = soon(l.get_motd()); named = true; sym::check(motd.starts_with("MCPE;A;B;C;0;7;") && motd.ends_with(";Bedrock level;D;1;9;"), "of what was given"); }
            6 => {
                let mut f: Fut<_> = Box::pin(l.close());
                let mut r = poll(&mut f);
                for _ in 0..40 { if r.is_some() { break; } settle(); advance(50); r = poll(&mut f); }
                sym::check(matches!(r, Some(Ok(()))), "close returns");
                over = true;
                listening = false;
                waiting = 0;
                sym::cover("closed");
            }
            // the address is taken as long as this one is not closed
            _ => {
                let other = soon(RaknetListener::bind(&srv_addr()));
                if over { sym::check(other.is_ok(), "the address of a closed listener is free"); sym::cover("bound again"); }
                else { sym::check(matches!(other, Err(RaknetError::BindAdressError)), "an address that is in use cannot be bound"); }
            }
        }
        sym::check(soon(l.get_motd()) == motd, "the motd stays what was set");
        match l.local_addr() {
            Ok(a) => sym::check(!over && a == srv_addr(), "the address is the one bound"),
            Err(e) => sym::check(over && matches!(e, RaknetError::NotListen), "which a closed one has not"),
        }
        sym::check(model::socket_closed(sock) == over, "the socket is there until it is closed");
        for s in &open { sym::check(closed(s) == over, "connections are open until then"); }
        settle();
        model::take_sent();
    }
    if named { sym::cover("named"); }
    drop(open);
    drop(l);
    tick(60);
    tick(60);
    sym::check(model::socket_closed(sock), "a listener that is gone has freed its address");
    sym::check(model::alive_tasks() == 0, "no task is left");
    sym::cover("end");
}

/// Calls of a connection in any order.
fn socket_calls(n: usize) {
    start(calm);
    let server = sym::choice(2) == 1;
    let mut c = conn(server);
    let local = c.s.local_addr().unwrap();
    sym::check(if server { local == srv_addr() } else { local.port() == 40_000 }, "the address bound");
    let mut open = true;
    // what arrives after the end may or may not be seen
    let (mut must, mut next, mut read) = (0u8, 0u8, 0u8);
    let mut unacked = false;
    let mut since = 0;
    for i in 0..n {
        match sym::choice(8) {
            0 => match now(c.s.send(&[0xfe, i as u8], Reliability::ReliableOrdered)) {
                Some(Ok(())) => { sym::check(open, "an open connection sends"); unacked = true; }
                Some(Err(e)) => { sym::check(!open && matches!(e, RaknetError::ConnectionClosed), "a closed one says so"); sym::cover("refused"); }
                None => sym::check(false, "sending does not wait"),
            },
            1 => match recv(&c.s) {
                Some(Ok(d)) => { sym::check(read < next && eq(&d, &[0xfe, 0x40 + read]), "messages come in their order, once"); read += 1; sym::cover("received"); if !open { sym::cover("received after the end"); } }
                Some(Err(e)) => sym::check(!open && read >= must && matches!(e, RaknetError::ConnectionClosed), "the end is told after the last message"),
                // a client looks whether it has been closed every 10 s
                None => sym::check((open || since < 11_000) && read >= must, "receiving waits for a message"),
            },
            2 => match now(c.s.flush()) {
                Some(Ok(())) => sym::check(open && !unacked, "flush ends when all is acknowledged"),
                Some(Err(e)) => sym::check(!open && matches!(e, RaknetError::ConnectionClosed), "or the connection is closed"),
                None => { sym::check(open && unacked, "flush waits for the acknowledgement"); sym::cover("waits"); }
            },
            3 => { sym::check(matches!(now(c.s.close()), Some(Ok(()))), "closing always succeeds"); open = false; settle(); tick(60); }
            4 => { c.say(3, vec![0xfe, 0x40 + next]); next += 1; if open { must += 1; } }
            5 => { c.hear(vec![0x15]); open = false; tick(60); }
            6 => { for _ in 0..n + 1 { tick(60); c.hear(ack(0xc0, &[(0, 80)])); } tick(60); if open { unacked = false; } }
            _ => { tick(5_500); tick(5_500); if !open { since += 11_000; } c.hear(ack(0xc0, &[])); }
        }
        settle();
        sym::check(c.s.peer_addr().unwrap() == c.peer && c.s.local_addr().unwrap() == local && c.s.raknet_version().unwrap() == 10, "addresses and version never change");
    }
    drop(c);
    tick(60);
    tick(11_000);
    tick(60);
    sym::check(model::alive_tasks() == 0, "no task is left");
    sym::cover("end");
}

// ---- C35: any task order --------------------------------------------------------------------------------

fn construct(server_side: bool) {
    start(any_spawn);
    if server_side {
        let mut l = match now(RaknetListener::bind(&srv_addr())) { Some(l) => l.unwrap(), None => { sym::check(false, "bind does not wait"); return; } };
        sym::check(now(l.listen()).is_some(), "listen does not wait");
        let mut v = Server { l, sock: 0 };
        v.hear(addr(1), req1(10, 40));
        v.hear(addr(1), req2(1400, 5));
        match now(v.l.accept()) { Some(Ok(s)) => std::mem::forget(s), _ => sym::check(false, "the connection is accepted") }
        v.hear(addr(2), req2(1400, 5));
        match now(v.l.accept()) { Some(Ok(s)) => std::mem::forget(s), _ => sym::check(false, "the next connection is accepted") }
        std::mem::forget(v);
    } else {
        let c = client(1400);
        std::mem::forget(c);
    }
    sym::cover("end");
}

// ---- C46: who is listened to ---------------------------------------------------------------------------

fn stranger() -> SocketAddr { [SocketAddr::from(([10, 0, 0, 201], 19132)), SocketAddr::from(([10, 0, 0, 200], 19133)), SocketAddr::from(([10, 0, 0, 1], 1002)), "[::1]:19132".parse().unwrap()][sym::index(4)] }

/// Datagrams of somebody else, as if the peer had sent them.
fn foreign(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let from = stranger();
    let alive = model::alive_tasks();
    soon(c.s.send(&[0xfe, 1, 1], Reliability::Reliable)).unwrap();
    settle();
    let x = all_frames(&c.sent())[0].seq;
    for _ in 0..n {
        let d = match sym::choice(6) {
            0 => vec![DISCONNECT],
            1 => fr(c.seq, 2, c.seq, vec![0xfe, 7]).wire(),
            2 => fr(c.seq, 3, c.ord, vec![[DISCONNECT, 0xfe][sym::index(2)], 1]).wire(),
            3 => ack([0xc0, 0xa0][sym::index(2)], &[(x, x)]),
            4 => { let mut d = sym::bytes([1, 4, 12][sym::index(3)]); if sym::choice(2) == 1 { d[0] = 0x84; } d }
            _ => fr(c.seq + 7, 0, 0, W::new(0).be64(1).0).wire(),
        };
        model::deliver(c.sock, from, d);
        settle();
        sym::check(no_message(&c.s), "no message of somebody else is delivered");
        sym::check(c.sent().is_empty(), "nor acknowledged or answered");
    }
    sym::check(!closed(&c.s), "the connection stays open");
    settle();
    c.sent();
    sym::check(model::alive_tasks() == alive, "no task of the connection has ended");
    let mut again = false;
    for _ in 0..4 { tick(50); let s = c.sent(); sym::check(s.iter().all(|d| is_frames(d)), "nothing is reported missing"); again |= all_frames(&s).iter().any(|f| eq(&f.data, &[0xfe, 1, 1])); }
    sym::check(again, "only the peer acknowledges");
    // and they are no sign of life
    for _ in 0..12 { model::deliver(c.sock, from, vec![0x84, 0, 0]); settle(); tick(5_000); }
    tick(50);
    tick(50);
    sym::check(closed(&c.s), "nor are they a sign of life");
    sym::cover("end");
    if let Some(v) = c.srv.take() { std::mem::forget(v); }
}

/// The same while connecting, after the server's first answer.
fn foreign_connect() {
    start(calm);
    let to = srv_addr();
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
    let step = 1 + sym::choice(2);
    let mut last = advance_to(step, &mut f, 0, 1400);
    let from = stranger();
    let d = match sym::choice(6) {
        0 => vec![DISCONNECT],
        1 => reply2(addr(1), 1400),
        2 => fr(0, 3, 0, accepted(addr(1), 0, 0)).wire(),
        3 => ack(0xc0, &[(0, 0)]),
        4 => { let mut d = sym::bytes([1, 12, 34][sym::index(3)]); d[0] = [0x08, 0x84, 0x12][sym::index(3)]; d }
        _ => fr(0, 3, 0, vec![DISCONNECT]).wire(),
    };
    model::deliver(0, from, d);
    sym::check(poll(&mut f).is_none(), "the answer of somebody else is none");
    settle();
    sym::check(poll(&mut f).is_none(), "nor later");
    let more = sent_to(to);
    sym::check(more.iter().all(|d| if step == 1 { d[0] == 7 } else { is_frames(d) && frames(d)[0].data[0] == 9 }), "and does not lead on");
    if !more.is_empty() { last = more; }
    let r = complete(&mut f, 0, 1400, last);
    sym::check(r.is_ok(), "the server's own answers do");
    std::mem::forget(r);
    sym::cover("end");
}

// ---- C12: the announced MTU at either end --------------------------------------------------------------

fn mtu(n: usize) {
    start(calm);
    let m = [0u16, 400, 576, 1200, 1399, 1400, 1401, 1492, 1500, 9000, 65_535][sym::index(11)];
    let as_server = sym::choice(2) == 1;
    let mut v = None;
    let (s, to) = if as_server {
        let mut x = server();
        let s = x.session(addr(1), m);
        v = Some(x);
        (s, addr(1))
    } else { (client(m).s, srv_addr()) };
    let most = m.max(400) as usize;
    let (a, z) = (sym::u8(), sym::u8());
    let mut p = vec![7; n];
    for i in 0..n { p[i] = (i % 251) as u8; }
    p[0] = 0xfe;
    p[1] = a;
    p[n - 1] = z;
    let mut sent = vec![];
    {
        let mut f: Fut<_> = Box::pin(s.send(&p, Reliability::ReliableOrdered));
        let mut r = None;
        for _ in 0..40 {
            r = poll(&mut f);
            settle();
            sent.extend(sent_to(to));
            if r.is_some() { break; }
        }
        sym::check(matches!(r, Some(Ok(()))), "sent");
    }
    let f = all_frames(&sent);
    sym::check(sent.iter().all(|d| d.len() + 28 <= most), "every datagram fits the announced mtu");
    let mut got = vec![];
    for (i, x) in f.iter().enumerate() {
        sym::check(matches!(x.frag, Some((c, _, k)) if c as usize == f.len() && k as usize == i), "numbered in their order");
        got.extend_from_slice(&x.data);
    }
    sym::check(eq(&got, &p), "the fragments are the message");
    sym::cover("end");
    std::mem::forget((s, v));
}

// ---- C37: both ends ----------------------------------------------------------------------------------------

/// Carries datagrams between the two ends; the harness decides what happens to number `n`.
struct Net { count: usize, hit: usize, how: u64, held: Option<(usize, SocketAddr, Vec<u8>)> }
impl Net {
    fn carry(&mut self) -> usize {
        let mut n = 0;
        for d in model::take_sent() {
            n += 1;
            let (to, from) = if d.sock == 0 { (1, srv_addr()) } else { (0, addr(1)) };
            self.count += 1;
            if let Some((t, f, b)) = self.held.take() { model::deliver(to, from, d.bytes); model::deliver(t, f, b); continue; }
            if self.count - 1 == self.hit {
                match self.how {
                    0 => { sym::cover("lost"); continue; }
                    1 => { sym::cover("repeated"); model::deliver(to, from, d.bytes.clone()); }
                    2 => { sym::cover("delayed"); self.held = Some((to, from, d.bytes)); continue; }
                    _ => {}
                }
            }
            model::deliver(to, from, d.bytes);
        }
        n
    }
    fn round(&mut self, idle: u64) {
        settle();
        if self.carry() == 0 { advance(idle); settle(); self.carry(); }
        settle();
    }
}

/// A client and a server, connected over a network that loses nothing.
fn pair(net: &mut Net) -> (Server, RaknetSocket, RaknetSocket) {
    let mut v = server();
    let to = srv_addr();
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
    let mut c = None;
    for _ in 0..12 { if c.is_none() { c = poll(&mut f); net.round(50); } }
    sym::check(matches!(c, Some(Ok(_))), "connected");
    let s = match now(v.l.accept()) { Some(Ok(s)) => s, _ => { sym::check(false, "accepted"); unreachable!() } };
    (v, c.unwrap().unwrap(), s)
}

/// The first datagrams after close() are lost, the other side notices all the same.
fn both_close() {
    start(calm);
    let mut net = Net { count: 0, hit: usize::MAX, how: 0, held: None };
    let (v, c, s) = pair(&mut net);
    let (x, y) = if sym::choice(2) == 1 { (c, s) } else { (s, c) };
    if sym::choice(2) == 1 { soon(x.send(&[0xfe, 1], Reliability::Reliable)).unwrap(); sym::cover("outstanding"); }
    for _ in 0..sym::choice(2) * 3 { net.round(50); }
    // as many of those that are on their way are lost
    let mut lose = [0, 1, 2, 4][sym::index(4)];
    let base = if sym::choice(2) == 1 { soon(x.close()).unwrap(); Some(x) } else { drop(x); sym::cover("dropped"); None };
    for _ in 0..6 {
        settle();
        for d in model::take_sent() {
            if lose > 0 { lose -= 1; continue; }
            let (to, from) = if d.sock == 0 { (1, srv_addr()) } else { (0, addr(1)) };
            model::deliver(to, from, d.bytes);
        }
        settle();
        advance(50);
    }
    sym::check(closed(&y), "the other side is closed");
    sym::cover("end");
    std::mem::forget((v, base, y));
}

fn both(hit: u64, spawn: bool) {
    start(if spawn { one_spawn } else { calm });
    if spawn { budget(sym::choice(16) as u32); }
    let mut v = server();
    let to = srv_addr();
    let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
    let mut net = Net { count: 0, hit: sym::index(hit), how: sym::choice(3), held: None };
    let mut c = None;
    let mut rounds = 0;
    while c.is_none() && rounds < 40 {
        c = poll(&mut f);
        net.round(if rounds > 6 { 500 } else { 50 });
        rounds += 1;
    }
    sym::check(matches!(c, Some(Ok(_))), "connected");
    let c = c.unwrap().unwrap();
    let s = match now(v.l.accept()) { Some(Ok(s)) => s, _ => { sym::check(false, "accepted"); unreachable!() } };
    sym::check(no_message(&s) && no_message(&c), "the handshake is not shown to either user");
    model::install_chooser(calm);
    let mut bodies = vec![];
    for k in 0..5u64 { bodies.push(vec![0xfe, k as u8, sym::u8()]); }
    bodies.push({ let mut b = vec![5; 3000]; b[0] = 0xfe; b[1] = 5; b[2] = sym::u8(); b[2999] = sym::u8(); b });
    let dir = sym::choice(2) == 1;
    let (x, y) = if dir { (&c, &s) } else { (&s, &c) };
    // a datagram may still be lost: unreliable messages then are
    let sure = net.count > net.hit && net.held.is_none();
    for (k, b) in bodies.iter().enumerate() {
        soon(x.send(b, rel(if k == 5 { 3 } else { k as u64 }))).unwrap();
        for _ in 0..3 { net.round(50); }
        let mut got = 0;
        for _ in 0..12 {
            match recv(y) {
                Some(Ok(d)) => { got += (d[1] as usize == k) as usize; sym::check(eq(&d, &bodies[d[1] as usize]), "messages arrive unmodified"); }
                Some(Err(_)) => sym::check(false, "the connection stays open"),
                None if got > 0 || (!sure && k < 2) => break,
                None => net.round(200),
            }
        }
        if k >= 2 || sure { sym::check(got >= 1, "every message arrives"); }
        if k == 3 || k == 5 { sym::check(got == 1, "ordered messages once"); }
    }
    for _ in 0..4 { net.round(400); }
    sym::check(matches!(now(x.flush()), Some(Ok(()))), "everything is acknowledged in the end");
    // one side closes, the other notices
    soon(x.close()).unwrap();
    for _ in 0..5 { net.round(50); }
    sym::check(closed(y), "the other side is closed");
    sym::check(matches!(recv(y), Some(Err(RaknetError::ConnectionClosed))), "and says so");
    sym::cover("end");
    std::mem::forget((v, c, s));
}

// ---- C24, C25: the end of a connection with many unread messages --------------------------------

/// More messages than anybody reads, then the end.
fn end_unread(ns: &[usize]) {
    start(calm);
    // a listener stops for a slow reader (see C36)
    let mut c = conn(false);
    let n = ns[sym::index(ns.len() as u64)];
    let outstanding = sym::choice(2) == 1;
    if outstanding { soon(c.s.send(&[0xfe, 0xaa], Reliability::Reliable)).unwrap(); settle(); }
    let mut unread = vec![];
    for i in 0..n {
        let d = vec![0xfe, i as u8];
        c.say(3, d.clone());
        unread.push(d);
    }
    c.sent();
    if outstanding {
        tick(400);
        sym::check(all_frames(&c.sent()).iter().any(|f| eq(&f.data, &[0xfe, 0xaa])), "what is lost is sent again, whether or not the user reads");
    }
    match sym::choice(2) {
        0 => {
            sym::cover("close");
            sym::check(matches!(soon(c.s.close()), Ok(())), "close succeeds");
            tick(50);
            tick(50);
            tick(50);
            sym::check(said_disconnect(&c.sent()), "the peer is told");
            tick(11_000);
            let mut k = 0;
            loop {
                settle();
                match recv(&c.s) {
                    Some(Ok(d)) => { sym::check(k < n && eq(&d, &unread[k]), "messages that had arrived can still be received"); k += 1; }
                    Some(Err(RaknetError::ConnectionClosed)) => break,
                    _ => { sym::check(false, "then receiving returns ConnectionClosed"); break; }
                }
            }
            sym::check(k >= if n < 101 { n } else { 101 }, "all that were taken off the network before");
        }
        _ => {
            sym::cover("disconnect");
            c.hear(vec![DISCONNECT]);
            for k in 0..n {
                sym::check(matches!(recv(&c.s), Some(Ok(d)) if eq(&d, &unread[k])), "messages that had arrived can still be received");
                settle();
            }
            tick(50);
            sym::check(matches!(recv(&c.s), Some(Err(RaknetError::ConnectionClosed))), "then receiving returns ConnectionClosed");
        }
    }
    sym::check(closed(&c.s), "the connection is closed");
    let Conn { s, base, .. } = c;
    drop(s);
    tasks_end(base);
    sym::cover("end");
}

// ---- C42: concurrent and abandoned calls ----------------------------------------------------------

/// Three calls of send() at once, polled in any order between any tasks; one may be abandoned.
fn concurrent_send(steps: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let long = { let mut v = vec![0xfe; 12 * 1340 + 7]; v[1] = 0; v };
    let msg: [Vec<u8>; 3] = [long, vec![0xfe, 1], vec![0xfe, 2]];
    let base = c.ord_sent();
    let mut begun: Vec<usize> = vec![];
    let mut gone = None;
    let mut done = [false; 3];
    let mut out = vec![];
    {
        let s = &c.s;
        let mut f: Vec<Option<Fut<_>>> = vec![];
        for m in &msg { f.push(Some(Box::pin(s.send(m, Reliability::ReliableOrdered)))); }
        for k in 0..steps {
            let x = sym::index(6);
            match x {
                0..=2 => if let Some(g) = &mut f[x] {
                    if !begun.contains(&x) { begun.push(x); }
                    if let Some(r) = poll(g) { sym::check(r.is_ok(), "send succeeds"); done[x] = true; f[x] = None; }
                },
                3 => model::step(),
                4 => model::step_rev(),
                _ => if gone.is_none() && k + 1 == steps { f[1] = None; gone = Some(done[1]); sym::cover("abandoned"); },
            }
        }
        for _ in 0..8 {
            for x in 0..3 {
                if let Some(g) = &mut f[x] {
                    if !begun.contains(&x) { begun.push(x); }
                    if let Some(r) = poll(g) { sym::check(r.is_ok(), "send succeeds"); done[x] = true; f[x] = None; }
                }
            }
            settle();
        }
        sym::check(f.iter().all(|f| f.is_none()), "every call returns");
    }
    for _ in 0..6 {
        tick(50);
        let fs = all_frames(&c.sent());
        if !fs.is_empty() {
            let lo = fs.iter().map(|f| f.seq).min().unwrap();
            let hi = fs.iter().map(|f| f.seq).max().unwrap();
            c.hear(ack(0xc0, &[(lo, hi)]));
        }
        out.extend(fs);
    }
    sym::check(matches!(now(c.s.flush()), Some(Ok(()))), "everything is acknowledged");
    // what the peer makes of it
    let mut order: Vec<(u32, usize)> = vec![];
    for (i, m) in msg.iter().enumerate() {
        let mut data = vec![];
        let mut oi = None;
        let parts = if i == 0 { 13 } else { 1 };
        for p in 0..parts {
            let f = out.iter().find(|f| if parts > 1 { matches!(f.frag, Some((s, _, x)) if s == parts && x == p) } else { f.frag.is_none() && eq(&f.data, m) });
            match f { Some(f) => { data.extend(&f.data); oi = Some(f.oi); } None => {} }
        }
        let there = eq(&data, m);
        sym::check(there || (i == 1 && gone == Some(false)), "every message is sent, unmodified");
        if there { order.push((oi.unwrap(), i)); }
    }
    order.sort();
    for (k, x) in order.iter().enumerate() { sym::check(x.0 == base + k as u32, "each message has the next order number"); }
    // calls are served in the order in which they were begun when the first of them got through at once
    if let (Some(a), Some(b)) = (order.iter().find(|x| x.1 == 1), order.iter().find(|x| x.1 == 2)) {
        if begun == [1, 2, 0] || begun == [1, 0, 2] || begun == [1, 2] { sym::check(a.0 < b.0, "a message sent before another is ahead of it"); }
    }
    sym::cover("end");
}
impl Conn {
    /// The order number of the next ordered message sent to the peer.
    fn ord_sent(&mut self) -> u32 {
        soon(self.s.send(&[0xfe, 0xff, 0xff], Reliability::ReliableOrdered)).unwrap();
        settle();
        let f = all_frames(&self.sent());
        self.hear(ack(0xc0, &[(f[0].seq, f[0].seq)]));
        self.sent();
        f[0].oi + 1
    }
}

/// Two calls of recv() at once, any of them abandoned at any time: no message is lost or repeated.
fn concurrent_recv(steps: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let (sock, peer) = (c.sock, c.peer);
    let mut sent = 0u8;
    let mut got: Vec<u8> = vec![];
    {
        let s = &c.s;
        let mut f: [Option<Fut<_>>; 2] = [None, None];
        for _ in 0..steps {
            let x = sym::index(6);
            match x {
                0 | 1 => {
                    if f[x].is_none() { f[x] = Some(Box::pin(s.recv())); }
                    if let Some(r) = poll(f[x].as_mut().unwrap()) {
                        f[x] = None;
                        match r { Ok(d) => { sym::check(d.len() == 2, "a message"); got.push(d[1]); } _ => sym::check(false, "the connection is open") }
                    }
                }
                2 | 3 => { if f[x - 2].is_some() { f[x - 2] = None; sym::cover("abandoned"); } }
                4 => {
                    let mut m = fr(c.seq, 3, c.seq, vec![0xfe, sent]);
                    m.oi = c.ord;
                    c.seq += 1;
                    c.ord += 1;
                    sent += 1;
                    model::deliver(sock, peer, m.wire());
                }
                _ => settle(),
            }
        }
    }
    settle();
    while let Some(Ok(d)) = recv(&c.s) { got.push(d[1]); }
    sym::check(got.len() == sent as usize, "every message is received once");
    for (i, g) in got.iter().enumerate() { sym::check(*g == i as u8, "in order"); }
    sym::cover("end");
}

/// Calls abandoned after any number of polls: the connection goes on.
/// Unreliable messages that wait behind a reliable one, and a later call of send() that is abandoned
/// when it is about to send them.
fn abandoned_behind(k: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    c.sent();
    soon(c.s.send(&[0xfe, 200], Reliability::Reliable)).unwrap();
    settle();
    let mut sent = all_frames(&c.sent());
    let n = [1, 5, 9, k][sym::index(4)];
    for i in 0..n { sym::check(matches!(soon(c.s.send(&[0xfe, i as u8], Reliability::Unreliable)), Ok(())), "sending is possible"); }
    for f in sent.clone() { c.hear(ack(0xc0, &[(f.seq, f.seq)])); }
    {
        let s = &c.s;
        let mut f: Fut<_> = Box::pin(s.send(&[0xfe, 201], Reliability::ReliableOrdered));
        if poll(&mut f).is_none() { sym::cover("abandoned"); }
    }
    for _ in 0..4 { settle(); tick(50); sent.extend(all_frames(&c.sent())); }
    for _ in 0..3 { tick(1_000); sent.extend(all_frames(&c.sent())); }
    let some = |i: usize| sent.iter().any(|f| eq(&f.data, &[0xfe, i as u8]));
    sym::check((0..n.min(10)).all(|i| some(i)), "messages sent before are sent");
    sym::check((0..n).all(|i| some(i)), "beyond ten that wait, too");
    sym::check(some(201), "what the abandoned call had taken is sent");
    c.ack_all();
    sym::cover("end");
}

/// A listener is closed while one of its connections has messages nobody has read.
fn close_unread(ns: &[usize]) {
    start(calm);
    let mut v = server();
    let slow = v.session(addr(1), 1400);
    let other = v.session(addr(2), 1400);
    let n = ns[sym::index(ns.len() as u64)];
    for i in 0..n as u32 { v.hear(addr(1), fr(i, 3, i, vec![0xfe, i as u8]).wire()); }
    model::take_sent();
    let mut told = [false; 2];
    let r = {
        let mut f: Fut<_> = Box::pin(v.l.close());
        let mut r = poll(&mut f);
        for k in 0..60 {
            if r.is_some() { break; }
            tick(if k < 30 { 50 } else { 3_000 });
            r = poll(&mut f);
        }
        r
    };
    for d in model::take_sent() {
        if d.bytes.len() == 1 && d.bytes[0] == DISCONNECT { for i in 0..2 { if d.addr == addr(1 + i as u8) { told[i] = true; } } }
    }
    sym::check(matches!(r, Some(Ok(()))), if n > 100 { "close returns beyond 100 unread messages" } else { "close returns" });
    sym::check(told == [true, true], "every connected peer is told");
    sym::check(closed(&slow) && closed(&other), "sessions are closed");
    for i in 0..n { sym::check(matches!(recv(&slow), Some(Ok(d)) if eq(&d, &[0xfe, i as u8])), "messages that had arrived can still be received"); }
    sym::check(matches!(recv(&slow), Some(Err(RaknetError::ConnectionClosed))), "then receiving returns ConnectionClosed");
    drop((slow, other, v));
    for _ in 0..3 { tick(50); }
    sym::check(model::alive_tasks() == 0, "no task is left");
    sym::cover("end");
}

fn abandoned() {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let outstanding = sym::choice(2) == 1;
    if outstanding { soon(c.s.send(&[0xfe, 9], Reliability::Reliable)).unwrap(); }
    let n = sym::index(4);
    {
        let s = &c.s;
        let long = vec![0xfe; 25 * 1340];
        let mut f: Fut<bool> = match sym::choice(4) {
            0 => Box::pin(async { s.recv().await.is_ok() }),
            1 => Box::pin(async { s.flush().await.is_ok() }),
            2 => { sym::cover("send"); Box::pin(async { s.send(&long, Reliability::ReliableOrdered).await.is_ok() }) }
            _ => Box::pin(async { s.send(&[0xfe, 8], Reliability::Unreliable).await.is_ok() }),
        };
        for _ in 0..n {
            if poll(&mut f).is_some() { break; }
            if sym::choice(2) == 1 { tick(20) } else { model::step() }
        }
    }
    settle();
    for _ in 0..3 { tick(50); c.ack_all(); }
    let alive = model::alive_tasks();
    still_works(&mut c, alive);
    sym::cover("end");
}

/// accept() abandoned at any time: no connection is lost.
fn accept_abandoned(steps: usize) {
    start(calm);
    let mut v = server();
    let mut asked = 0;
    let mut got: Vec<SocketAddr> = vec![];
    let mut keep = vec![];
    let sock = v.sock;
    {
        let l = &mut v.l;
        for _ in 0..steps {
            let mut f: Fut<_> = Box::pin(l.accept());
            for _ in 0..sym::index(3) {
                match poll(&mut f) {
                    Some(Ok(s)) => { got.push(s.peer_addr().unwrap()); keep.push(s); break; }
                    Some(Err(_)) => sym::check(false, "the listener is open"),
                    None => {}
                }
                if sym::choice(2) == 1 {
                    let a = addr(asked + 1);
                    asked += 1;
                    model::deliver(sock, a, req1(10, 40));
                    settle();
                    model::deliver(sock, a, req2(1400, 5));
                    if sym::choice(2) == 1 { settle() }
                } else { model::step() }
            }
            drop(f);
            sym::cover("abandoned");
        }
    }
    settle();
    for _ in 0..asked {
        match now(v.l.accept()) { Some(Ok(s)) => { got.push(s.peer_addr().unwrap()); keep.push(s); } _ => break }
    }
    let want: Vec<_> = (0..asked).map(|i| addr(i + 1)).collect();
    sym::check(got == want, "every connection is accepted once, in order");
    std::mem::forget((v, keep));
    sym::cover("end");
}

// ---- C43: acknowledgements on the wire ------------------------------------------------------------

/// Datagrams arrive, some do not: each is acknowledged at once, gaps are reported within two ticks.
fn promptly(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    if c.seq == 0 { c.say(0, vec![0xfe]); c.sent(); }
    let first = c.seq;
    let mut missing = vec![];
    let mut reported: Vec<u32> = vec![];
    let kind = sym::choice(5) as u8;
    let mut late = sym::choice(2) == 1;
    let note = |sent: &[Vec<u8>], reported: &mut Vec<u32>| for d in sent { if d[0] == 0xa0 { for (a, b) in ranges(d) { for x in a..=b { reported.push(x); } } } };
    for i in 0..n {
        let x = first + i as u32;
        if i + 1 < n && sym::choice(2) == 1 { missing.push(x); continue; }
        c.hear(fr(x, if i == 1 { kind } else { 2 }, x, vec![0xfe, i as u8]).wire());
        let sent = c.sent();
        let a: Vec<_> = sent.iter().filter(|d| d[0] == 0xc0).collect();
        sym::check(a.len() == 1 && ranges(a[0]) == [(x, x)], "a datagram is acknowledged at once, it and nothing else");
        note(&sent, &mut reported);
        if sym::choice(2) == 1 { tick(50); note(&c.sent(), &mut reported); }
        if late && missing.len() == 1 {
            // it was only delayed
            late = false;
            let m = missing[0];
            if !reported.contains(&m) {
                missing.clear();
                c.hear(fr(m, 0, m, vec![0xfe, 0x77]).wire());
                let sent = c.sent();
                sym::check(sent.iter().any(|d| d[0] == 0xc0 && ranges(d) == [(m, m)]), "a late datagram is acknowledged too");
                note(&sent, &mut reported);
                reported.retain(|r| *r != m);
                // a gap seen before it was filled may still be reported
                tick(50);
                note(&c.sent(), &mut reported);
                reported.retain(|r| *r != m);
                sym::cover("late");
            }
        }
    }
    tick(50);
    note(&c.sent(), &mut reported);
    tick(50);
    note(&c.sent(), &mut reported);
    for m in &missing { sym::check(reported.contains(m), "a missing datagram is reported within 100 ms"); }
    for r in &reported { sym::check(missing.contains(r), "nothing else is reported"); }
    if !missing.is_empty() { sym::cover("missing"); }
    sym::cover("end");
}

/// The same after the connection was idle for a while.
fn promptly_idle() {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    if c.seq == 0 { c.say(0, vec![0xfe]); c.sent(); }
    let at = [0, 5_100, 20_000, 50_000][sym::index(4)];
    for _ in 0..at / 100 { tick(100); }
    c.sent();
    soon(c.s.send(&[0xfe, 7, 7], Reliability::Reliable)).unwrap();
    settle();
    let f = all_frames(&c.sent());
    sym::check(f.len() == 1, "sent at once");
    let x = c.seq + 1;
    c.hear(ack(0xa0, &[(f[0].seq, f[0].seq)]));
    c.hear(fr(x, 0, 0, vec![0xfe, 1]).wire());
    let mut sent = c.sent();
    sym::check(sent.iter().any(|d| d[0] == 0xc0 && ranges(d) == [(x, x)]), "acknowledged at once");
    for _ in 0..2 { tick(50); sent.extend(c.sent()); }
    sym::check(sent.iter().any(|d| d[0] == 0xa0 && ranges(d) == [(x - 1, x - 1)]), "a missing datagram is reported within 100 ms");
    sym::check(all_frames(&sent).iter().any(|g| eq(&g.data, &[0xfe, 7, 7])), "and one reported missing is sent again");
    sym::cover("end");
}

/// The datagram that ends the connection is acknowledged like any other: the peer keeps repeating it otherwise.
fn promptly_last() {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let x = c.seq + sym::choice(3) as u32;
    let kind = [0u8, 2, 3][sym::index(3)];
    let mut fs = vec![];
    if sym::choice(2) == 1 { fs.push(fr(x, 0, 0, vec![0xfe, 1, 2])); }
    fs.push(fr(x, kind, c.ord, vec![0x15]));
    if sym::choice(2) == 1 { fs.push(fr(x, 0, 0, vec![0xfe, 3])); }
    c.hear(wire(x, &fs));
    let sent = c.sent();
    let a: Vec<_> = sent.iter().filter(|d| d[0] == 0xc0).collect();
    sym::check(a.len() == 1 && ranges(a[0]).iter().all(|r| *r == (x, x)), "it is acknowledged at once, it and nothing else");
    sym::check(closed(&c.s), "and ends the connection");
    sym::cover("end");
}

/// Every other datagram is missing; all that is within one tick.
fn promptly_many(n: u32) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    if c.seq == 0 { c.say(0, vec![0xfe]); c.sent(); }
    let first = c.seq;
    // one of the missing ones comes after all
    let odd = [0, 1, n / 2, n - 2, n - 1][sym::index(5)];
    let way = sym::choice(3);
    if way == 1 { sym::cover("late"); }
    let mut reported: Vec<(u32, u32)> = vec![];
    for i in 0..n {
        let at = first + 2 * i + 1;
        if way == 2 && i == odd { c.hear(fr(at - 1, 0, 0, vec![3; 17]).wire()); }
        c.hear(fr(at, 0, 0, vec![3; 17]).wire());
        if way == 1 && i == odd { c.hear(fr(at - 1, 0, 0, vec![3; 17]).wire()); }
    }
    let sent = c.sent();
    sym::check(sent.len() == n as usize + (way != 0) as usize && sent.iter().all(|d| d[0] == 0xc0), "every datagram is acknowledged at once");
    for _ in 0..2 { tick(50); for d in c.sent() { sym::check(d[0] == 0xa0, "only a report"); reported.extend(ranges(&d)); } }
    let mut hits = vec![0u8; n as usize];
    for (a, b) in reported {
        sym::check(a == b && a >= first && (a - first) % 2 == 0 && a < first + 2 * n, "only what is missing is reported");
        hits[((a - first) / 2) as usize] += 1;
    }
    for i in 0..n {
        let came = way != 0 && i == odd;
        // a gap that was seen before it was filled may still be reported
        sym::check(hits[i as usize] == 1 || came && hits[i as usize] == 0, "every missing datagram is reported once");
        if came && way == 2 { sym::check(hits[i as usize] == 0, "one that came in its order is not"); }
    }
    sym::cover("end");
}

/// Every record of an acknowledgement, positive or negative, takes effect.
fn applied(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    soon(c.s.send(&[0xfe, 0xff], Reliability::Reliable)).unwrap();
    settle();
    let f = all_frames(&c.sent());
    sym::check(f.len() == 1, "sent");
    for i in 0..n { soon(c.s.send(&[0xfe, i as u8], rel(2 + (i % 3) as u64))).unwrap(); }
    settle();
    // a slow round trip, for a timeout well above the ticks
    sym::clock_set(sym::clock_get() + 2000);
    model::deliver(c.sock, c.peer, ack(0xc0, &[(f[0].seq, f[0].seq)]));
    settle();
    tick(50);
    let f = all_frames(&c.sent());
    sym::check(f.len() == n, "the messages that waited are sent");
    if f.len() != n { return; }
    let nack = sym::choice(2) == 1;
    let mut hit = vec![false; n];
    let mut recs = vec![];
    for _ in 0..2 {
        let a = sym::index(n as u64);
        let b = a + sym::index((n - a) as u64);
        for x in a..=b { hit[x] = true; }
        recs.push((f[a].seq, f[b].seq));
    }
    if !nack {
        // acknowledging a number means the ones before it that are not acknowledged are overdue
        recs.sort();
    }
    c.hear(ack(if nack { 0xa0 } else { 0xc0 }, &recs));
    tick(50);
    let mut again = vec![false; n];
    for g in all_frames(&c.sent()) { for i in 0..n { if g.data.len() == 2 && g.data[1] == i as u8 { again[i] = true; } } }
    if nack {
        sym::cover("nack");
        for i in 0..n { sym::check(again[i] == hit[i], "what is reported missing is sent again at the next tick, and nothing else"); }
    } else {
        sym::cover("ack");
        for _ in 0..40 {
            tick(50);
            for g in all_frames(&c.sent()) { for i in 0..n { if g.data.len() == 2 && g.data[1] == i as u8 { again[i] = true; } } }
        }
        for i in 0..n { sym::check(again[i] != hit[i], "what is acknowledged is not sent again, the rest is"); }
        sym::check(matches!(now(c.s.flush()), Some(Ok(()))) == hit.iter().all(|h| *h), "flush waits for the rest");
    }
    sym::cover("end");
}

/// A long report: one record for every other message, or one for very many.
fn applied_many(n: usize, wide: bool) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    soon(c.s.send(&[0xfe, 0xff], Reliability::Reliable)).unwrap();
    settle();
    let f = all_frames(&c.sent());
    for i in 0..n { soon(c.s.send(&[0xfe, i as u8, (i >> 8) as u8], rel(2 + (i % 3) as u64))).unwrap(); }
    sym::clock_set(sym::clock_get() + 2000);
    model::deliver(c.sock, c.peer, ack(0xc0, &[(f[0].seq, f[0].seq)]));
    settle();
    tick(50);
    let f = all_frames(&c.sent());
    sym::check(f.len() == n, "the messages that waited are sent");
    if f.len() != n { return; }
    let nack = sym::choice(2) == 1;
    let mut hit = vec![false; n];
    let mut recs = vec![];
    if wide {
        let (a, b) = ([0, 50][sym::index(2)], n - [1, 30][sym::index(2)]);
        for i in a..=b { hit[i] = true; }
        recs.push((f[a].seq, f[b].seq));
    } else {
        let (odd, skip) = (sym::index(2), sym::index(n as u64));
        for i in 0..n { if i % 2 == odd && i != skip { hit[i] = true; recs.push((f[i].seq, f[i].seq)); } }
    }
    c.hear(ack(if nack { 0xa0 } else { 0xc0 }, &recs));
    let mut again = vec![false; n];
    for _ in 0..if nack { 1 } else { 40 } {
        tick(50);
        for g in all_frames(&c.sent()) { if g.data.len() == 3 { again[g.data[1] as usize + ((g.data[2] as usize) << 8)] = true; } }
    }
    if nack {
        sym::cover("nack");
        for i in 0..n { sym::check(again[i] == hit[i], "what is reported missing is sent again at the next tick, and nothing else"); }
    } else {
        sym::cover("ack");
        for i in 0..n {
            if hit[i] { sym::check(!again[i], "what is acknowledged is not sent again"); }
            // the newest may still be on their way
            else if !wide || i < 50 { sym::check(again[i], "what an acknowledgement overtakes is"); }
        }
    }
    sym::cover("end");
}

// ---- C44: many datagrams at once --------------------------------------------------------------------

/// Many messages wait behind one, many datagrams arrive at once: nothing gets lost inside.
fn lossless(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let x = sym::u8();
    let odd = sym::index(n as u64);
    soon(c.s.send(&[0xfe, 0xff], Reliability::Reliable)).unwrap();
    settle();
    let first = all_frames(&c.sent());
    sym::check(first.len() == 1, "sent");
    let long = { let mut v = vec![x; 15 * 1340 + 3]; v[0] = 0xfe; v };
    let mut out = vec![];
    for i in 0..n {
        soon(c.s.send(&[0xfe, i as u8, if i == odd { x } else { 0 }], rel((i % 5) as u64))).unwrap();
        if i == n / 2 { soon(c.s.send(&long, Reliability::ReliableOrdered)).unwrap(); }
        out.extend(all_frames(&c.sent()));
    }
    // many arrive at once
    let (q, mut o) = (c.seq, c.ord);
    let mut want = vec![];
    for i in 0..n {
        let k = [3u8, 2, 0, 4, 1][i % 5];
        let mut f = fr(q + i as u32, k, q + i as u32, vec![0xfe, i as u8, if i == odd { x } else { 1 }]);
        if k == 3 { f.oi = o; o += 1; }
        want.push(f.data.clone());
        model::deliver(c.sock, c.peer, f.wire());
    }
    let mut acked = vec![0; n];
    let mut got = vec![];
    let mut note = |c: &Conn, out: &mut Vec<Fr>| {
        let s = c.sent();
        for d in &s { if d[0] == 0xc0 { for (a, b) in ranges(d) { for y in a..=b { if y >= q && y < q + n as u32 { acked[(y - q) as usize] += 1; } } } } }
        out.extend(all_frames(&s));
    };
    for _ in 0..n / 8 {
        settle();
        note(&c, &mut out);
        while let Some(Ok(d)) = recv(&c.s) { got.push(d); }
    }
    sym::check(got.len() == n, "every message that arrives is delivered once");
    for (g, w) in got.iter().zip(want.iter()) { sym::check(eq(g, w), "in order, unmodified"); }
    model::deliver(c.sock, c.peer, ack(0xc0, &[(first[0].seq, first[0].seq)]));
    settle();
    // the next tick or the next message makes them go
    let by_send = sym::choice(2) == 1;
    if by_send {
        let s = &c.s;
        let mut f: Fut<_> = Box::pin(s.send(&[0xfe, 0xfe], Reliability::Unreliable));
        let mut r = poll(&mut f);
        for _ in 0..n { if r.is_some() { break; } model::step(); r = poll(&mut f); }
        sym::check(matches!(r, Some(Ok(()))), "send goes on");
        settle();
        sym::cover("send");
    } else {
        tick(20);
        tick(20);
        tick(10);
    }
    note(&c, &mut out);
    for a in &acked { sym::check(*a == 1, "and acknowledged once"); }
    for i in 0..n {
        let m = [0xfe, i as u8, if i == odd { x } else { 0 }];
        let k = out.iter().filter(|f| f.frag.is_none() && eq(&f.data, &m)).count();
        sym::check(k == 1, "every message is sent, once");
    }
    let mut data = vec![];
    let mut id = None;
    for f in &out { if let Some((s, c, ix)) = f.frag { sym::check(s == 16 && *id.get_or_insert(c) == c && ix as usize == data.len() / 1340, "fragments"); data.extend_from_slice(&f.data); } }
    sym::check(eq(&data, &long), "the long message too");
    sym::cover("end");
}

// ---- C29: dropped before anything has run ---------------------------------------------------------------

/// Listeners, connections and connect() dropped at once, before their tasks have run.
fn dropped_early() {
    start(limited);
    budget(0);
    match sym::choice(4) {
        0 => {
            sym::cover("listener");
            budget(3);
            let l = now(RaknetListener::bind(&srv_addr()));
            sym::check(matches!(&l, Some(Ok(_))), "bind does not wait");
            let mut l = l.unwrap().unwrap();
            if sym::choice(2) == 1 { sym::check(now(l.listen()).is_some(), "listen does not wait"); }
            drop(l);
            budget(0);
            for _ in 0..3 { tick(50); }
            sym::check(model::alive_tasks() == 0, "no task is left");
        }
        1 | 2 => {
            sym::cover("connection");
            let mut v = server();
            let base = model::alive_tasks();
            let n = 1 + sym::index(2) as u8;
            for i in 0..n { v.hear(addr(i), req1(10, 40)); }
            model::take_sent();
            budget(4);
            for i in 0..n { model::deliver(v.sock, addr(i), req2(1400, 5)); }
            {
                let mut keep = vec![];
                let waits = sym::choice(2) == 1;
                let mut f: Fut<_> = Box::pin(v.l.accept());
                if waits { sym::check(poll(&mut f).is_none(), "waits"); }
                // the listener's task runs, those it starts do not
                model::step_rev();
                match poll(&mut f) { Some(Ok(s)) => keep.push(s), _ => { model::step(); match poll(&mut f) { Some(Ok(s)) => keep.push(s), _ => sym::check(false, "accepted") } } }
                drop(f);
                drop(keep);
            }
            budget(0);
            for _ in 0..3 { tick(50); }
            if n == 2 { drop(now(v.l.accept())); for _ in 0..3 { tick(50); } }
            let sent = model::take_sent();
            for i in 0..n { sym::check(sent.iter().any(|d| d.addr == addr(i) && d.bytes.len() == 1 && d.bytes[0] == DISCONNECT), "the peer is told"); }
            tasks_end(base);
            // and can connect again
            drop(v.session(addr(0), 1400));
            std::mem::forget(v);
        }
        _ => {
            sym::cover("connect");
            let to = srv_addr();
            let n = sym::choice(4);
            {
                let mut f: Fut<_> = Box::pin(RaknetSocket::connect(&to));
                budget(4);
                if n > 0 { poll(&mut f); }
                if n > 1 { model::deliver(0, to, reply1(1400)); sym::check(poll(&mut f).is_none(), "goes on"); }
                if n > 2 { model::deliver(0, to, reply2(addr(1), 1400)); sym::check(poll(&mut f).is_none(), "goes on"); }
            }
            budget(0);
            for _ in 0..3 { tick(50); }
            if n > 2 { sym::check(said_disconnect(&sent_to(to)), "the peer is told"); }
            tick(11_000);
            tick(50);
            sym::check(model::alive_tasks() == 0, "no task is left");
        }
    }
    sym::cover("end");
}

// ---- C44: simulated loss ----------------------------------------------------------------------------

fn simulated() {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let stage = match sym::choice(3) { 0 => None, 1 => Some(10), _ => Some(sym::index(10) as u8) };
    static mut DRAWS: u32 = 0;
    unsafe { DRAWS = 6 };
    rand::model::install(|| unsafe { if DRAWS == 0 { 0 } else { DRAWS -= 1; sym::range(0, 10) } });
    if let Some(x) = stage { c.s.set_loss_rate(x); }
    let lossless = stage.is_none() || stage == Some(10);
    soon(c.s.send(&[0xfe, 1], Reliability::Reliable)).unwrap();
    settle();
    let a = all_frames(&c.sent()).len();
    c.say(3, vec![0xfe, 7]);
    let b = c.sent().iter().filter(|d| d[0] == 0xc0).count();
    if lossless { sym::check(a == 1 && b == 1, "nothing is lost"); sym::cover("lossless"); }
    else { sym::check(a <= 1 && b <= 1, "sent or not"); sym::cover(if a == 0 { "lost" } else { "sent" }); }
    sym::check(matches!(recv(&c.s), Some(Ok(d)) if eq(&d, &[0xfe, 7])), "receiving is not affected");
    let mut seen = a > 0;
    for _ in 0..12 { tick(400); for f in all_frames(&c.sent()) { if eq(&f.data, &[0xfe, 1]) { seen = true; } } }
    sym::check(seen, "reliable messages are sent again until they get through");
    c.s.set_loss_rate(10);
    soon(c.s.send(&[0xfe, 2], Reliability::Unreliable)).unwrap();
    settle();
    c.hear(ack(0xc0, &[(0, 60)]));
    tick(50);
    sym::check(all_frames(&c.sent()).iter().any(|f| eq(&f.data, &[0xfe, 2])), "and the simulation can be ended");
    sym::cover("end");
}

// ---- C45: logging -----------------------------------------------------------------------------------

/// The same history with and without logging.
fn logging() {
    start(calm);
    rust_raknet::enable_raknet_log([0u8, 1, 2, 4, 7, 255][sym::index(6)]);
    let mut c = conn(sym::choice(2) == 1);
    let x = sym::choice(5);
    soon(c.s.send(&[0xfe, 1], rel(2 + sym::choice(3)))).unwrap();
    for d in [vec![0x84, 0, 0], vec![0xc0, 0, 9], vec![0xa0, 1], vec![0x99], vec![]] { c.hear(d); }
    c.say(3, vec![0x77, 1]);
    c.say(x as u8, vec![0xfe, 5]);
    let mut got = vec![];
    while let Some(Ok(d)) = recv(&c.s) { got.push(d); }
    sym::check(got.len() <= 2 && got.iter().any(|d| eq(d, &[0xfe, 5])), "messages are delivered");
    // lost, reported missing, resent; and the statistics that are logged now and then
    let s = all_frames(&c.sent()).last().map(|f| f.seq).unwrap_or(0);
    c.hear(ack(0xa0, &[(s, s)]));
    tick(50);
    sym::check(all_frames(&c.sent()).iter().any(|f| eq(&f.data, &[0xfe, 1])), "what is lost is sent again");
    tick(11_000);
    sym::check(all_frames(&c.sent()).iter().any(|f| eq(&f.data, &[0xfe, 1])), "and again");
    c.hear(ack(0xc0, &[(0, 40)]));
    sym::check(matches!(now(c.s.flush()), Some(Ok(()))), "and acknowledged");
    match sym::choice(3) {
        0 => c.hear(vec![DISCONNECT]),
        1 => { soon(c.s.close()).unwrap(); }
        _ => { tick(30_000); tick(31_000); }
    }
    tick(50);
    sym::check(closed(&c.s), "the connection ends");
    let Conn { s, base, srv, .. } = c;
    drop(s);
    tasks_end(base);
    std::mem::forget(srv);
    rust_raknet::enable_raknet_log(0);
    sym::cover("end");
}

harnesses! {
    fn h_hostile_frames() { hostile(sym::choice(2) == 1, 0, [5, 8, 11, 14][sym::index(4)]) }
    fn h_hostile_frames_t() { hostile(sym::choice(2) == 1, 0, 17) }
    fn h_hostile_other() { hostile(sym::choice(2) == 1, 3, [1, 2, 12, 30][sym::index(4)]) }
    fn h_hostile_control() { hostile_control([1, 2, 9, 17, 20, 40, 96][sym::index(7)]) }
    fn h_hostile_control_t() { hostile_control([1, 2, 3, 8, 9, 10, 16, 17, 18, 19, 20, 40, 94, 95, 96, 104][sym::index(16)]) }
    fn h_hostile_acks() { hostile_acks([3, 7, 10, 11][sym::index(4)]) }
    fn h_hostile_acks_t() { hostile_acks([13, 14, 17][sym::index(3)]) }
    fn h_control_replies() { control(true) }
    fn h_control_clock() { control(false) }
    fn h_send_any() { send_any() }
    fn h_send_while_closing() { send_while_closing() }
    fn h_close() { close() }
    fn h_disconnected() { disconnected() }
    fn h_dropped() { dropped() }
    fn h_flush() { flush(3) }
    fn h_flush_t() { flush(5) }
    fn h_idle() { idle(2, true) }
    fn h_idle_clock() { idle(3, false) }
    fn h_idle_t() { idle(3, true) }
    fn h_connect_garbage() { connect_garbage(sym::choice(2), [1, 2, 12, 24, 28, 31, 34, 40][sym::index(8)], true) }
    fn h_connect_garbage_late() { connect_garbage(2, [1, 4, 12][sym::index(3)], true) }
    fn h_connect_any() { connect_garbage(sym::choice(3), [1, 8][sym::index(2)], false) }
    fn h_connect_lossy() { connect_lossy() }
    fn h_connect_refused() { connect_refused() }
    fn h_hostile_listener() { hostile_listener([1, 2, 12, 40][sym::index(4)], None) }
    fn h_hostile_requests() { hostile_listener([18, 20, 34, 40][sym::index(4)], Some([1, 2, 5, 7][sym::index(4)])) }
    fn h_hostile_history() { hostile_history(2) }
    fn h_hostile_history_t() { hostile_history(3) }
    fn h_pong() { pong() }
    fn h_crowd() { crowd(36) }
    fn h_crowd_t() { crowd(60) }
    fn h_control_busy() { control_busy() }
    fn h_flush_silent() { flush_silent() }
    fn h_flush_patient() { flush_patient(12) }
    fn h_flush_patient_t() { flush_patient(25) }
    fn h_end_unread() { end_unread(&[3, 99, 100, 101, 109, 111, 125]) }
    fn h_end_unread_t() { end_unread(&[98, 102, 110, 112, 150, 400]) }
    fn h_concurrent_send() { concurrent_send(4) }
    fn h_concurrent_send_t() { concurrent_send(6) }
    fn h_concurrent_recv() { concurrent_recv(5) }
    fn h_concurrent_recv_t() { concurrent_recv(7) }
    fn h_abandoned() { abandoned() }
    fn h_abandoned_behind() { abandoned_behind(14) }
    fn h_close_unread() { close_unread(&[1, 50, 99, 100, 101, 103, 109, 115]) }
    fn h_accept_abandoned() { accept_abandoned(2) }
    fn h_accept_abandoned_t() { accept_abandoned(3) }
    fn h_version_connected() { version_connected(3) }
    fn h_version_connected_t() { version_connected(5) }
    fn h_promptly() { promptly(4) }
    fn h_promptly_t() { promptly(5) }
    fn h_applied() { applied(4) }
    fn h_applied_t() { applied(6) }
    fn h_applied_many() { applied_many(44, false) }
    fn h_applied_many_t() { applied_many(150, false) }
    fn h_applied_wide() { applied_many(1100, true) }
    fn h_applied_wide_t() { applied_many(3000, true) }
    fn h_lossless() { lossless(45) }
    fn h_lossless_t() { lossless(120) }
    fn h_dropped_early() { dropped_early() }
    fn h_simulated() { simulated() }
    fn h_logging() { logging() }
    fn h_control_many() { control_many(40) }
    fn h_control_many_t() { control_many(130) }
    fn h_promptly_many() { promptly_many(300) }
    fn h_promptly_many_t() { promptly_many(700) }
    fn h_version_many() { versions_many(120) }
    fn h_version_many_t() { versions_many(250) }
    fn h_packed() { packed(80) }
    fn h_packed_t() { packed(160) }
    fn h_ping_clock() { ping_any(0, 4, false) }
    fn h_ping() { ping_any(0, 4, true) }
    fn h_ping_motd() { ping_any(0, [0, 1, 255, 256, 989, 990, 1437, 2000][sym::index(8)], true) }
    fn h_ping_motd_t() { ping_any(0, [988, 991, 1400, 4096, 16000, 65472][sym::index(6)], true) }
    fn h_ping_garbage() { ping_any([1, 20, 36][sym::index(3)], 4, true) }
    fn h_ping_garbage_t() { ping_any([34, 35, 37, 38][sym::index(4)], 4, true) }
    fn h_version() { version() }
    fn h_foreign() { foreign(1) }
    fn h_foreign_t() { foreign(3) }
    fn h_foreign_connect() { foreign_connect() }
    fn h_mtu() { mtu(5000) }
    fn h_mtu_t() { mtu(40_000) }
    fn h_both_close() { both_close() }
    fn h_sessions_idle() { sessions_idle() }
    fn h_promptly_idle() { promptly_idle() }
    fn h_promptly_last() { promptly_last() }
    fn h_sessions() { sessions(4) }
    fn h_sessions_t() { sessions(6) }
    fn h_reconnect() { reconnect() }
    fn h_close_listener() { close_listener() }
    fn h_listener_calls() { listener_calls(5) }
    fn h_listener_calls_t() { listener_calls(6) }
    fn h_socket_calls() { socket_calls(5) }
    fn h_socket_calls_t() { socket_calls(7) }
    fn h_drop_listener() { drop_listener() }
    fn h_backlog() { backlog() }
    fn h_slow_reader() { slow_reader() }
    fn h_send_fails() { send_fails(12) }
    fn h_send_fails_close() { send_fails_close() }
    fn h_send_fails_listener() { send_fails_listener() }
    fn h_send_fails_connect() { send_fails_connect() }
    fn h_construct_server() { construct(true) }
    fn h_construct_client() { construct(false) }
    fn h_both() { both(40, false) }
    fn h_both6() { six(); both(40, false) }
    fn h_connect6() { six(); connect_lossy() }
    fn h_ping6() { six(); ping_any(0, 4, true) }
    fn h_sessions6() { six(); sessions(3) }
    fn h_version6() { six(); version() }
    fn h_both_spawn() { both(3, true) }
    fn h_both_t() { both(40, true) }
}
