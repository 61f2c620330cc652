//! The guarantees of the queues, seen through a connection: what a user sends and receives, what
//! travels on the wire.
use crate::net::*;
use crate::sym;
use rust_raknet::error::RaknetError;
use rust_raknet::Reliability;
use tokio::model;

const MAX24: u64 = 0xff_ffff;

fn all_received(c: &Conn) -> Vec<Vec<u8>> {
    let mut v = vec![];
    loop {
        match recv(&c.s) {
            Some(Ok(d)) => v.push(d),
            Some(Err(_)) => { sym::check(false, "the connection stays open"); return v; }
            None => return v,
        }
    }
}

/// Ordered messages in any order, with repetitions, in datagrams of their own or shared.
fn ordered(n: usize, msgs: usize, share: bool) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let salt = sym::u8();
    let body = |i: usize| vec![0xfe, i as u8, salt];
    let mut got = vec![false; msgs];
    let mut next = 0;
    let mut batch = vec![];
    let (base, mut seq) = (c.ord, c.seq);
    let rest = sym::choice(2) == 1;
    for k in 0..n {
        let i = sym::index(msgs as u64);
        got[i] = true;
        batch.push(fr(seq, 3, base + i as u32, body(i)));
        if share && k + 1 < n && sym::choice(2) == 1 { continue; }
        let d = wire(seq, &batch);
        seq += 1;
        if batch.len() > 1 { sym::cover("shared"); }
        batch.clear();
        c.hear(d);
        if rest { tick(50); }
        let r = all_received(&c);
        let mut m = 0;
        while next < msgs && got[next] {
            sym::check(m < r.len() && eq(&r[m], &body(next)), "the next message in order, unmodified, as soon as possible");
            m += 1;
            next += 1;
        }
        sym::check(r.len() == m, "nothing early or twice");
        if m > 1 { sym::cover("several at once"); }
    }
    if next == msgs { sym::cover("all delivered"); }
    sym::cover("end");
}

/// Ordered messages that the user does not read before all have arrived, one late.
fn ordered_unread(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let late = sym::index(n as u64);
    let (base, seq) = (c.ord, c.seq);
    for i in (0..n).filter(|i| *i != late).chain(Some(late)) { c.hear(fr(seq + i as u32, 3, base + i as u32, vec![0xfe, i as u8]).wire()); }
    for _ in 0..3 { tick(50); }
    let r = all_received(&c);
    sym::check(r.len() == n, "every message is delivered");
    for (i, d) in r.iter().enumerate() { sym::check(eq(d, &[0xfe, i as u8]), "in order, unmodified"); }
    sym::cover("end");
}

/// A message of about 64 KiB and more, the last datagrams in either order.
fn large(lens: &[usize]) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let n = lens[sym::index(lens.len() as u64)];
    let mut m = vec![0u8; n];
    for i in 0..n { m[i] = (i % 253) as u8; }
    m[0] = 0xfe;
    let (a, b) = (sym::u8(), sym::u8());
    m[1] = a;
    m[n - 1] = b;
    let k = (n + 1339) / 1340;
    let swap = sym::choice(2) == 1;
    for i in 0..k {
        let j = if swap && i + 2 >= k { 2 * k - 3 - i } else { i };
        let mut f = fr(c.seq, 3, c.seq, m[j * 1340..(j * 1340 + 1340).min(n)].to_vec());
        f.oi = c.ord;
        f.frag = Some((k as u32, 3, j as u32));
        c.seq += 1;
        c.hear(f.wire());
        if i + 1 < k { sym::check(no_message(&c.s), "an incomplete message is held"); }
    }
    let r = all_received(&c);
    sym::check(r.len() == 1 && r[0].len() == n, "the message is delivered whole");
    sym::check(eq(&r[0], &m), "unmodified");
    sym::cover("end");
}

/// More messages in one datagram, or released at once by a late one, than a connection keeps for its user.
fn burst(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let salt = sym::u8();
    let kind = sym::choice(6) as u8;
    let mut fs = vec![];
    for i in 0..n {
        let mut f = fr(c.seq, kind.min(4), i as u32, vec![0xfe, i as u8, salt]);
        if kind == 3 || kind == 5 { f.kind = 3; f.oi = c.ord + i as u32; }
        fs.push(f);
    }
    if kind == 5 {
        // the first one is late
        c.hear(wire(c.seq, &fs[1..]));
        fs[0].seq = c.seq + 1;
        c.hear(fs[0].wire());
        sym::cover("late");
    } else { c.hear(wire(c.seq, &fs)); }
    for _ in 0..sym::choice(2) * 3 { tick(50); }
    let mut r = vec![];
    for _ in 0..4 { r.extend(all_received(&c)); settle(); }
    sym::check(r.len() == n, "every message is delivered, once");
    for (i, d) in r.iter().enumerate() { sym::check(eq(d, &[0xfe, i as u8, salt]), "in order, unmodified"); }
    tick(50);
    let acked: Vec<_> = c.sent().iter().filter(|d| d[0] == 0xc0).flat_map(|d| ranges(d)).collect();
    for q in c.seq..c.seq + 1 + (kind == 5) as u32 { sym::check(acked.iter().any(|a| a.0 <= q && q <= a.1), "and acknowledged"); }
    sym::cover("end");
}

/// Sequenced messages with arbitrary numbers.
fn sequenced(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let salt = sym::u8();
    let mut newest: Option<u32> = None;
    let mix = sym::choice(3);
    for k in 0..n {
        match mix {
            0 => {}
            1 => { c.say(2, vec![0xfe, 0x77]); sym::check(all_received(&c).len() == 1, "other messages are delivered"); }
            _ => { c.ord += 1; c.say(3, vec![0xfe, 0x77]); sym::check(all_received(&c).is_empty(), "out of order messages wait"); }
        }
        let i = sym::range(0, MAX24) as u32;
        let mut f = fr(c.seq, if sym::choice(2) == 0 { 1 } else { 4 }, i, vec![0xfe, k as u8, salt]);
        f.oi = sym::range(0, MAX24) as u32;
        c.seq += 1;
        c.hear(f.wire());
        let r = all_received(&c);
        if match newest { None => true, Some(m) => i > m } {
            newest = Some(i);
            sym::cover("newer");
            sym::check(r.len() == 1 && eq(&r[0], &[0xfe, k as u8, salt]), "a newer message is delivered");
        } else {
            sym::cover("older");
            sym::check(r.is_empty(), "an older or repeated message is dropped");
        }
    }
    sym::cover("end");
}

/// Unordered messages come out at once, whatever waits, once per datagram.
fn immediate(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let wait = sym::choice(2) == 1;
    if wait {
        let mut f = fr(c.seq, 3, c.ord + 1, vec![0xfe, 9]);
        c.hear(f.wire());
        f = fr(c.seq + 1, 3, c.ord, vec![0xfe, 9]);
        f.frag = Some((2, 7, 1));
        c.hear(f.wire());
        c.seq += 2;
        sym::check(all_received(&c).is_empty(), "incomplete messages are held");
    }
    let mut seqs: Vec<u32> = vec![];
    for k in 0..n {
        // ahead, or filling a gap
        let seq = c.seq + [0, 1, 2, 40][sym::index(4)];
        if seqs.contains(&seq) { sym::cover("repeated"); }
        seqs.push(seq);
        let d = vec![0xfe, k as u8, sym::u8()];
        let mut f = fr(seq, if sym::choice(2) == 0 { 0 } else { 2 }, k as u32, d.clone());
        f.oi = sym::range(0, MAX24) as u32;
        c.hear(f.wire());
        let r = all_received(&c);
        sym::check(r.len() == 1 && eq(&r[0], &d), "delivered at once, unmodified");
    }
    tick(50);
    sym::check(all_received(&c).is_empty(), "and once");
    if wait {
        let mut f = fr(c.seq + 50, 3, c.ord, vec![0xfe, 8]);
        f.frag = Some((2, 7, 0));
        c.hear(f.wire());
        let r = all_received(&c);
        sym::check(r.len() == 2 && eq(&r[0], &[0xfe, 8, 0xfe, 9]) && eq(&r[1], &[0xfe, 9]), "what was held is delivered when complete");
    }
    sym::cover("end");
}

/// Two split messages and a short one, their parts in any order and repeated.
fn reassembly(n: usize, perm: bool) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let salt = sym::u8();
    let sizes = [2usize, 0, 3];
    let parts: Vec<(usize, usize)> = vec![(0, 0), (0, 1), (1, 0), (2, 0), (2, 1), (2, 2)];
    let content = |m: usize, k: usize| { let mut v = vec![m as u8, k as u8, salt]; if k == 0 { v.insert(0, 0xfe); } v };
    let id = [7u16, 65_535][sym::index(2)];
    let mut got = vec![false; parts.len()];
    let mut next = 0;
    let (base, mut seq) = (c.ord, c.seq);
    for _ in 0..n {
        let p = if perm {
            let left: Vec<_> = (0..parts.len()).filter(|p| !got[*p]).collect();
            left[sym::index(left.len() as u64)]
        } else { sym::index(parts.len() as u64) };
        if got[p] { sym::cover("repeated"); }
        got[p] = true;
        let (m, k) = parts[p];
        let mut f = fr(seq, 3, seq, content(m, k));
        f.oi = base + m as u32;
        if sizes[m] > 0 { f.frag = Some((sizes[m] as u32, id.wrapping_add(m as u16), k as u32)); }
        seq += 1;
        c.hear(f.wire());
        let r = all_received(&c);
        let mut out = 0;
        while next < 3 && (0..parts.len()).all(|p| parts[p].0 != next || got[p]) {
            let mut want = vec![];
            for k in 0..sizes[next].max(1) { want.extend(content(next, k)); }
            sym::check(out < r.len() && eq(&r[out], &want), "a message is delivered when it and its predecessors are complete");
            out += 1;
            next += 1;
        }
        sym::check(r.len() == out, "nothing incomplete, early or twice");
    }
    if next == 3 { sym::cover("all delivered"); }
    sym::cover("end");
}

// ---- the sending side ------------------------------------------------------------------------

struct Msg { kind: u64, body: Vec<u8>, seqs: Vec<u32>, done: bool, first: Option<Fr> }

struct Sent { m: Vec<Msg>, last: Option<u32>, ri: u32, si: u32, oi: u32 }

impl Sent {
    fn new(c: &mut Conn, ends: bool) -> Sent {
        // where the numbering stands
        soon(c.s.send(&[0xfe, 0xff], Reliability::UnreliableSequenced)).unwrap();
        settle();
        let f = all_frames(&c.sent());
        sym::check(f.len() == 1, "sent at once");
        let f = f[0].clone();
        let ri = if ends { 0 } else { 2 };
        Sent { m: vec![], last: Some(f.seq), ri, si: f.si + 1, oi: f.oi }
    }

    fn send(&mut self, c: &mut Conn, kind: u64) {
        let body = vec![0xfe, self.m.len() as u8, sym::u8()];
        sym::check(matches!(soon(c.s.send(&body, rel(kind))), Ok(())), "accepted");
        self.m.push(Msg { kind, body, seqs: vec![], done: false, first: None });
        self.look(c, &[]);
    }

    /// What was sent since the last look; `due` must be among it, nothing acknowledged may.
    fn look(&mut self, c: &Conn, due: &[usize]) -> Vec<usize> {
        settle();
        let mut v = vec![];
        for f in all_frames(&c.sent()) {
            if f.data.len() != 3 { continue; }
            let i = f.data[1] as usize;
            sym::check(self.last.map_or(true, |l| f.seq > l), "every datagram has a greater number than all before");
            self.last = Some(f.seq);
            let m = &mut self.m[i];
            sym::check(eq(&f.data, &m.body) && f.kind as u64 == m.kind && f.frag.is_none(), "messages go out as they were given");
            sym::check(!m.done, "what is acknowledged is not sent again");
            match &m.first {
                None => {
                    if m.kind >= 2 { sym::check(f.ri == self.ri, "consecutive reliable numbers"); self.ri += 1; }
                    if m.kind == 1 || m.kind == 4 { sym::check(f.si == self.si, "consecutive sequenced numbers"); self.si += 1; }
                    if m.kind == 3 { sym::check(f.oi == self.oi, "consecutive ordered numbers"); self.oi += 1; }
                    m.first = Some(f.clone());
                }
                Some(g) => {
                    sym::check(m.kind >= 2, "an unreliable message is sent once");
                    sym::check(f.ri == g.ri && f.si == g.si && f.oi == g.oi, "a retransmission keeps its numbers");
                    sym::cover("again");
                }
            }
            m.seqs.push(f.seq);
            v.push(i);
        }
        for d in due { sym::check(v.iter().filter(|i| *i == d).count() == 1, "what is due is sent, once"); }
        v
    }
}

fn sender(n: usize, steps: usize) {
    start(calm);
    let ends = sym::choice(2) == 1;
    let mut c = conn(ends);
    let mut s = Sent::new(&mut c, ends);
    for _ in 0..n { let k = sym::choice(5); s.send(&mut c, k); }
    for _ in 0..steps {
        match sym::choice(4) {
            // the newest transmission of one of them is acknowledged
            0 => {
                let i = sym::index(n as u64);
                if let Some(x) = s.m[i].seqs.last() {
                    let d = ack(0xc0, &[(*x, *x)]);
                    if s.m[i].kind >= 2 { s.m[i].done = true; }
                    c.hear(d);
                    sym::cover("ack");
                }
            }
            1 => {
                let i = sym::index(n as u64);
                if let Some(x) = s.m[i].seqs.last().copied() {
                    c.hear(ack(0xa0, &[(x, x)]));
                    tick(50);
                    let due = if s.m[i].kind >= 2 && !s.m[i].done { vec![i] } else { vec![] };
                    s.look(&c, &due);
                    sym::cover("nack");
                    continue;
                }
            }
            2 => { tick(50); }
            _ => { tick(50); advance(11_900); settle(); }
        }
        s.look(&c, &[]);
    }
    // whatever is left gets through now
    for _ in 0..12 {
        tick(50);
        advance(12_000);
        s.look(&c, &[]);
        let mut r = vec![];
        for m in &mut s.m { if m.kind >= 2 && !m.done { if let Some(x) = m.seqs.last() { r.push((*x, *x)); m.done = true; } } }
        c.hear(ack(0xc0, &r));
        if s.m.iter().all(|m| !m.seqs.is_empty() && (m.kind < 2 || m.done)) { break; }
    }
    sym::check(s.m.iter().all(|m| !m.seqs.is_empty()), "every message is sent");
    sym::check(matches!(now(c.s.flush()), Some(Ok(()))), "nothing is outstanding once all is acknowledged");
    let (a, b) = (s.m.iter().filter(|m| m.kind >= 2).count(), s.m.iter().filter(|m| m.kind == 3).count());
    if a > 0 && b > 0 { sym::cover("mixed"); }
    s.send(&mut c, 3);
    sym::check(s.m[n].seqs.len() == 1, "and the next message goes out at once");
    sym::cover("end");
}

/// Nobody answers: when a message is sent again.
fn timing(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    // one measured round trip, or none
    let rtt = [0, 50, 200, 5_000][sym::index(4)];
    if rtt > 0 {
        soon(c.s.send(&[0xfe, 1, 1], Reliability::Reliable)).unwrap();
        settle();
        let mut x = all_frames(&c.sent())[0].seq;
        // only an answer to the last transmission
        for _ in 0..rtt / 50 { tick(50); if let Some(f) = all_frames(&c.sent()).last() { x = f.seq; } }
        c.hear(ack(0xc0, &[(x, x)]));
    }
    let d = [0xfe, 2, sym::u8()];
    soon(c.s.send(&d, rel(2 + sym::choice(3)))).unwrap();
    settle();
    let mut t = 0;
    let mut at = vec![];
    while at.len() < n && t < 300_000 {
        for f in all_frames(&c.sent()) { if eq(&f.data, &d) { at.push(t); } }
        tick(50);
        t += 50;
        // the peer is alive
        if t % 10_000 == 0 { c.hear(ack(0xc0, &[])); }
    }
    sym::check(at.len() == n && at[0] == 0, "an unacknowledged message is sent again and again");
    sym::check(at[1] >= 50 && at[1] <= 12_050, "first after the retransmission timeout");
    for k in 2..n {
        let (g, h) = (at[k - 1] - at[k - 2], at[k] - at[k - 1]);
        sym::check(2 * h + 2 >= 3 * (g - 50), "a timeout is not much less than half as long again");
        sym::check(2 * h <= 3 * g + 100, "nor more");
    }
    sym::cover("end");
}

/// Any measured round trips, clock steps included: the timeout stays in its bounds.
fn rto(n: usize) {
    start(calm);
    let mut c = conn(sym::choice(2) == 1);
    let how = sym::index(6);
    for _ in 0..n {
        soon(c.s.send(&[0xfe, 1, 1], Reliability::Reliable)).unwrap();
        settle();
        let x = all_frames(&c.sent());
        sym::check(!x.is_empty(), "sent");
        if x.is_empty() { return; }
        let x = x[0].seq;
        match how {
            0 => {}
            1 => advance(10),
            2 => advance(3_000),
            3 => advance(40_000),
            4 => sym::clock_set(sym::clock_get() - 5_000),
            _ => sym::clock_set(sym::clock_get() - 4_000_000_000),
        }
        model::deliver(c.sock, c.peer, ack(0xc0, &[(x, x)]));
        settle();
        c.sent();
        tick(50);
        c.ack_all();
        if how == 5 { sym::clock_set(sym::clock_get() + 4_000_000_000); }
    }
    c.sent();
    let d = [0xfe, 2, sym::u8()];
    soon(c.s.send(&d, Reliability::Reliable)).unwrap();
    settle();
    c.sent();
    let mut t = 0;
    while t <= 12_100 {
        tick(25);
        t += 25;
        if all_frames(&c.sent()).iter().any(|f| eq(&f.data, &d)) { break; }
        if t == 8_000 { c.hear(ack(0xc0, &[])); }
    }
    sym::check(t >= 50, "not sent again before the least timeout");
    sym::check(t <= 12_050, "but after the greatest");
    if t > 11_000 { sym::cover("greatest"); }
    if t < 150 { sym::cover("least"); }
    sym::cover("end");
}

/// The size limit, and that a refused message leaves no trace.
fn limit() {
    start(calm);
    let ends = sym::choice(2) == 1;
    let mut c = conn(ends);
    let mut s = Sent::new(&mut c, ends);
    let k = [0, 1, 2, 4][sym::index(4)];
    let n = [1338, 1339, 1340, 1341, 1342, 1400, 70_000][sym::index(7)];
    let r = soon(c.s.send(&{ let mut v = vec![1; n]; v[0] = 0xfe; v }, rel(k)));
    settle();
    let out = all_frames(&c.sent());
    if n > 1340 {
        sym::check(matches!(r, Err(RaknetError::PacketSizeExceedMTU)), "refused");
        sym::check(out.is_empty(), "and not sent");
        sym::cover("refused");
    } else {
        sym::check(matches!(r, Ok(())), "accepted");
        sym::check(out.len() == 1 && out[0].data.len() == n, "and sent");
        sym::cover("accepted");
        s.last = Some(out[0].seq);
        if k >= 2 { s.ri += 1; c.hear(ack(0xc0, &[(out[0].seq, out[0].seq)])); }
        if k == 1 || k == 4 { s.si += 1; }
    }
    for k in [2, 1, 0] { s.send(&mut c, k); if k == 2 { c.ack_all(); let x = s.m[0].seqs[0]; c.hear(ack(0xc0, &[(x, x)])); s.m[0].done = true; } }
    s.send(&mut c, 4);
    sym::check(s.m.iter().all(|m| m.seqs.len() == 1), "later messages are sent, numbered as if it had not been");
    sym::cover("end");
}

harnesses! {
    fn h_sock_ordered() { ordered(5, 3, false) }
    fn h_sock_ordered_t() { ordered(7, 4, false) }
    fn h_sock_ordered_shared() { ordered(4, 3, true) }
    fn h_sock_ordered_shared_t() { ordered(6, 3, true) }
    fn h_sock_ordered_unread() { ordered_unread(60) }
    fn h_sock_ordered_unread_t() { ordered_unread(99) }
    fn h_sock_large() { large(&[65_534, 65_535, 65_536, 65_537, 70_000]) }
    fn h_sock_large_t() { large(&[131_071, 131_072, 131_073, 1_000_000]) }
    fn h_sock_burst() { burst(125) }
    fn h_sock_sequenced() { sequenced(4) }
    fn h_sock_sequenced_t() { sequenced(6) }
    fn h_sock_immediate() { immediate(3) }
    fn h_sock_immediate_t() { immediate(4) }
    fn h_sock_reassembly() { reassembly(6, true) }
    fn h_sock_reassembly_dup() { reassembly(5, false) }
    fn h_sock_reassembly_dup_t() { reassembly(7, false) }
    fn h_sock_sender() { sender(3, 2) }
    fn h_sock_sender_two() { sender(2, 3) }
    fn h_sock_sender_t() { sender(3, 4) }
    fn h_sock_timing() { timing(9) }
    fn h_sock_timing_t() { timing(14) }
    fn h_sock_rto() { rto(12) }
    fn h_sock_rto_t() { rto(60) }
    fn h_sock_limit() { limit() }
}
