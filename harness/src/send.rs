//! Sending side: SendQ (size limits, fragmentation, numbering, retransmission) and SendQ <-> RecvQ.
use crate::sym;
use crate::wire::eq;
use rust_raknet::verif::arq::*;
use std::net::SocketAddr;

fn peer() -> SocketAddr { "1.2.3.4:5".parse().unwrap() }

fn rel(k: u64) -> Reliability {
    match k {
        0 => Reliability::Unreliable,
        1 => Reliability::UnreliableSequenced,
        2 => Reliability::Reliable,
        3 => Reliability::ReliableOrdered,
        _ => Reliability::ReliableSequenced,
    }
}
fn is_rel(k: u64) -> bool { k >= 2 }
fn kind_of(f: &FrameSetPacket) -> u64 { (f.flags >> 5) as u64 }

/// Payload with arbitrary bytes at its ends and a position-dependent pattern between them.
fn payload(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
    if n > 0 { v[0] = 0xfe; }
    if n > 1 { v[1] = sym::u8(); v[n - 1] = sym::u8(); }
    v
}

/// Ordered payloads around the multiples of the fragment size: the fragments partition them.
fn fragmentation(mtu: u16, counts: u64) {
    let max = mtu as usize - 60;
    let whole = max * sym::index(counts);
    let n = match sym::choice(3) {
        0 => whole + sym::range(0, 3) as usize,
        1 => whole + max / 2,
        _ => whole + max - sym::range(1, 2) as usize,
    }.max(1);
    split(mtu, sym::concrete(n as u64) as usize, sym::choice(3));
}

/// Many fragments: around the sizes of the fields that number them.
fn fragmentation_many(counts: &[usize]) {
    let max = 400 - 60;
    let n = counts[sym::index(counts.len() as u64)];
    split(400, max * n - [0, 1, max - 1][sym::index(3)], 0);
}

fn split(mtu: u16, n: usize, before: u64) {
    let mut q = SendQ::new(mtu);
    for _ in 0..before { q.insert(Reliability::ReliableOrdered, &[0xfe; 2000]).unwrap(); }
    let skip = q.flush(0, &peer());
    for f in &skip { q.ack(f.sequence_number, 0); }
    sym::check(q.is_empty(), "acknowledged messages leave the queue");
    let p = payload(n);
    q.insert(Reliability::ReliableOrdered, &p).unwrap();
    let out = q.flush(0, &peer());
    sym::check(!out.is_empty(), "something is sent");
    let mut all: Vec<u8> = vec![];
    for (i, f) in out.iter().enumerate() {
        let b = f.serialize().unwrap();
        sym::check(b.len() + 28 <= mtu as usize, "every datagram fits the mtu");
        sym::check(f.length_in_bytes as usize == f.data.len(), "announced length");
        sym::check(kind_of(f) == 3 && f.order_channel == 0, "reliable ordered");
        sym::check(f.is_fragment() == (out.len() > 1) || (f.is_fragment() && f.compound_size == 1), "split iff more than one datagram");
        if f.is_fragment() {
            sym::check(f.fragment_index as usize == i && f.compound_size as usize == out.len(), "fragment numbering");
            sym::check(f.compound_id == out[0].compound_id, "one compound id");
            for s in &skip { sym::check(!s.is_fragment() || s.compound_id != f.compound_id, "compound ids are not reused"); }
        }
        sym::check(f.ordered_frame_index == before as u32, "one ordering index per message");
        sym::check(f.reliable_frame_index as usize == skip.len() + i, "one reliable index per datagram");
        let d = FrameVec::new(b).unwrap();
        sym::check(d.frames.len() == 1, "one frame per datagram");
        all.extend_from_slice(&d.frames[0].data);
    }
    sym::check(eq(&all, &p), "the fragments are the payload, in order");
    if out.len() > 1 { sym::cover("fragmented"); } else { sym::cover("whole"); }
    // and the receiving side puts it back together
    let mut r = RecvQ::new();
    let mut got = 0;
    for f in skip.into_iter().chain(out) {
        r.insert(f).unwrap();
        for m in r.flush(&peer()) { got += 1; if got == before + 1 { sym::check(eq(&m.data, &p), "delivered as sent"); } }
    }
    sym::check(got == before + 1, "every message delivered");
}

/// Any announced mtu: no panic, and whatever is sent can be decoded.
fn any_mtu() {
    let mtu = match sym::choice(4) { 0 => sym::range(0, 120) as u16, 1 => sym::range(380, 420) as u16, 2 => sym::range(1390, 1510) as u16, _ => sym::range(65000, 65535) as u16 };
    let k = sym::choice(5);
    let n = [1usize, 300, 1400, 9000][sym::index(4)];
    let mut q = SendQ::new(mtu);
    let p = vec![0xfe; n];
    let r = q.insert(rel(k), &p);
    if r.is_err() { sym::check(k != 3, "ordered messages have no size limit"); sym::cover("too big"); }
    let out = q.flush(0, &peer());
    if r.is_err() { sym::check(out.is_empty(), "a rejected message is not sent"); }
    let mut total = 0;
    for f in &out {
        let d = FrameVec::new(f.serialize().unwrap()).unwrap();
        total += d.frames[0].data.len();
    }
    if r.is_ok() { sym::check(total == n, "the whole payload is on the wire"); sym::cover("sent"); }
}

/// The size limit of the unfragmented reliabilities, and that a refused message leaves no trace.
fn limit(mtu: u16) {
    let max = mtu as usize - 60;
    let k = [0, 1, 2, 4][sym::index(4)];
    let over = sym::choice(2) == 1;
    let n = match (over, sym::choice(2)) {
        (true, 0) => max + sym::range(1, 8) as usize,
        (true, _) => max + [1000, 70_000][sym::index(2)],
        (false, 0) => max - sym::range(0, 8) as usize,
        (false, _) => [1, 2, max / 2][sym::index(3)],
    };
    let n = sym::concrete(n as u64) as usize;
    let mut q = SendQ::new(mtu);
    let p = payload(n);
    let r = q.insert(rel(k), &p);
    if over {
        sym::cover("refused");
        sym::check(matches!(r, Err(rust_raknet::error::RaknetError::PacketSizeExceedMTU)), "too large: PacketSizeExceedMTU");
        sym::check(q.is_empty(), "nothing queued");
        sym::check(q.flush(0, &peer()).is_empty(), "nothing sent");
    } else {
        sym::cover("accepted");
        sym::check(r.is_ok(), "within the limit: accepted");
        let out = q.flush(0, &peer());
        sym::check(out.len() == 1 && !out[0].is_fragment(), "one datagram");
        let b = out[0].serialize().unwrap();
        sym::check(b.len() + 28 <= mtu as usize, "the datagram fits the mtu");
        sym::check(eq(&FrameVec::new(b).unwrap().frames[0].data, &p), "payload unmodified");
    }
    let (mut seq, mut ri, mut si, mut oi) = (0, 0, 0, 0);
    if !over { seq = 1; if is_rel(k) { ri = 1; } if k == 1 || k == 4 { si = 1; } }
    for f in 0..seq { q.ack(f, 0); }
    // the numbering goes on as if the refused message had never been there
    for k in [3u64, 1, 2] {
        q.insert(rel(k), &[0xfe]).unwrap();
        let out = q.flush(0, &peer());
        sym::check(out.len() == 1 && out[0].sequence_number == seq, "datagram number");
        q.ack(seq, 0);
        seq += 1;
        if k == 3 { sym::check(out[0].ordered_frame_index == oi && out[0].reliable_frame_index == ri, "ordered numbering"); oi += 1; ri += 1; }
        if k == 1 { sym::check(out[0].sequenced_frame_index == si, "sequenced numbering"); si += 1; }
        if k == 2 { sym::check(out[0].reliable_frame_index == ri, "reliable numbering"); ri += 1; }
    }
}

// ---- retransmission ------------------------------------------------------------------------

struct Msg {
    kind: u64,
    tag: u8,
    done: bool,
    seqs: Vec<u32>,
    last: i64,
    first: (u32, u32, u32),
}

fn tags(kind: u64, tag: u8) -> Vec<u8> { vec![0xfe, tag, kind as u8] }

struct Model {
    q: SendQ,
    m: Vec<Msg>,
    high: i64,
    now: i64,
}

/// Observes what a flush returned: numbers, content and that only unacknowledged messages are sent.
impl Model {
    fn new(kinds: &[u64]) -> Model {
        let mut q = SendQ::new(1400);
        let mut m = vec![];
        for (i, k) in kinds.iter().enumerate() {
            q.insert(rel(*k), &tags(*k, i as u8)).unwrap();
            m.push(Msg { kind: *k, tag: i as u8, done: false, seqs: vec![], last: 0, first: (0, 0, 0) });
        }
        Model { q, m, high: -1, now: sym::EPOCH as i64 }
    }
    fn any(n: usize) -> Model {
        let kinds: Vec<u64> = (0..n).map(|_| sym::choice(5)).collect();
        Model::new(&kinds)
    }
    /// Returns the tags sent.
    fn flush(&mut self) -> Vec<usize> {
        let out = self.q.flush(self.now, &peer());
        let mut sent = vec![];
        for f in &out {
            sym::check(f.sequence_number as i64 > self.high, "datagram numbers increase");
            self.high = f.sequence_number as i64;
            let i = f.data[1] as usize;
            let m = &mut self.m[i];
            sym::check(eq(&f.data, &tags(m.kind, m.tag)) && kind_of(f) == m.kind && f.length_in_bytes == 3, "content unmodified");
            sym::check(!m.done, "an acknowledged or unreliable message is not sent again");
            let ix = (f.reliable_frame_index, f.sequenced_frame_index, f.ordered_frame_index);
            if m.seqs.is_empty() { m.first = ix; }
            else { sym::check(m.first == ix, "a retransmission keeps the message numbers"); sym::cover("retransmission"); }
            m.seqs.push(f.sequence_number);
            m.last = self.now;
            if !is_rel(m.kind) { m.done = true; }
            sent.push(i);
        }
        sent
    }
    /// Acknowledges a datagram that was sent (any of them, again if need be).
    fn ack(&mut self) {
        let x = sym::range(0, self.high as u64) as u32;
        let mut known = false;
        for m in &self.m { for s in &m.seqs { known |= *s == x; } }
        sym::assume(known);
        self.q.ack(x, self.now);
        for m in self.m.iter_mut() {
            let mut hit = false;
            for s in &m.seqs { if *s == x { hit = true; } }
            if hit { m.done = true; }
        }
    }
    fn nack(&mut self) {
        let x = sym::range(0, self.high as u64 + 3) as u32;
        self.q.nack(x, self.now);
    }
    fn all_done(&self) -> bool { self.m.iter().all(|m| m.done) }
    fn wait(&mut self) { self.now += sym::range(0, 65_535) as i64; }
}

/// Arbitrary acknowledgements, NACKs and waits: a reliable message is kept until one of its
/// transmissions is acknowledged, and nothing else makes it go.
fn retained(n: usize, steps: usize, nack: bool, any_wait: bool) {
    let mut s = Model::any(n);
    s.flush();
    sym::check(s.m.iter().all(|m| m.seqs.len() == 1), "the first flush sends everything once");
    for _ in 0..steps {
        match sym::choice(if nack { 3 } else { 2 }) {
            0 => s.ack(),
            1 => { if any_wait { s.wait() } else { s.now += [0, 40, 120, 9_000][sym::index(4)] } s.flush(); }
            _ => s.nack(),
        }
        sym::check(s.q.is_empty() == s.all_done(), "empty exactly when every reliable message is acknowledged");
    }
    if s.all_done() { sym::cover("all acknowledged"); }
    // long after, everything unacknowledged is sent again, once
    s.now += 10_000_000;
    let sent = s.flush();
    for (i, m) in s.m.iter().enumerate() {
        if !m.done { sym::check(sent.iter().filter(|x| **x == i).count() == 1, "an unacknowledged message is sent again"); sym::cover("sent again"); }
    }
    sym::check(s.q.flush(s.now, &peer()).is_empty(), "once");
    // and once acknowledged, new messages go out
    for i in 0..s.m.len() {
        if !s.m[i].done { let x = *s.m[i].seqs.last().unwrap(); s.q.ack(x, s.now); s.m[i].done = true; }
    }
    sym::check(s.q.is_empty(), "empty after the last acknowledgement");
    s.q.insert(Reliability::Reliable, &tags(2, s.m.len() as u8)).unwrap();
    s.m.push(Msg { kind: 2, tag: s.m.len() as u8, done: false, seqs: vec![], last: 0, first: (0, 0, 0) });
    s.flush();
    sym::check(s.m.last().unwrap().seqs.len() == 1, "the next message is sent");
}

/// One message retransmitted `n` times, and `others` more outstanding: it is never given up, an
/// acknowledgement of any of its transmissions is the end of it, and nobody else's.
fn retained_long(n: usize, others: usize) {
    let mut q = SendQ::new(1400);
    let salt = sym::u8();
    for i in 0..others + 1 { q.insert(Reliability::ReliableOrdered, &[0xfe, salt, i as u8, (i >> 8) as u8]).unwrap(); }
    let mut now = sym::EPOCH as i64;
    let mut seqs: Vec<Vec<u32>> = vec![vec![]; others + 1];
    let mut high = -1i64;
    for k in 0..n + 1 {
        let out = q.flush(now, &peer());
        sym::check(out.len() == others + 1, "every outstanding message is sent again");
        for f in &out {
            let i = f.data[2] as usize + ((f.data[3] as usize) << 8);
            sym::check(f.data.len() == 4 && f.data[1] == salt && f.data[0] == 0xfe && f.ordered_frame_index == i as u32, "unmodified");
            sym::check(f.sequence_number as i64 > high, "datagram numbers increase");
            high = f.sequence_number as i64;
            seqs[i].push(f.sequence_number);
        }
        sym::check(q.flush(now, &peer()).is_empty(), "once");
        now += (60 << k) + 60;
    }
    // one of its transmissions is acknowledged
    let who = [0, others / 2, others][sym::index(3)];
    let which = sym::index(n as u64 + 1);
    let x = seqs[who][which];
    q.ack(x, now);
    sym::check(!q.is_empty() || others == 0, "the others are kept");
    now += 1 << 50;
    let out = q.flush(now, &peer());
    sym::check(out.len() == others, "all others are sent again");
    for f in &out { sym::check(f.data[2] as usize + ((f.data[3] as usize) << 8) != who, "the acknowledged message is not"); }
    for f in &out { q.ack(f.sequence_number, now); }
    sym::check(q.is_empty(), "empty after the last acknowledgement");
    sym::cover("end");
}

/// When is an unacknowledged message sent again? Not before its timeout, and at the first flush
/// after it; the timeout grows by half with every retransmission.
fn timing(rounds: usize, rtt: bool) {
    let mut s = Model::new(&[2, 3]);
    s.now = sym::range(0, 2_000_000_000_000) as i64;
    s.flush();
    if rtt {
        // one measured round trip
        s.now += sym::range(0, 20_000) as i64;
        let x = s.m[0].seqs[0];
        s.q.ack(x, s.now);
        s.m[0].done = true;
    } else {
        let x = s.m[0].seqs[0];
        s.q.ack(x, s.now);
        s.m[0].done = true;
    }
    let rto = s.q.get_rto();
    let (mut num, mut den) = (rto, 1i64);
    for _ in 0..rounds {
        let d = sym::range(0, 300_000) as i64;
        s.now = s.m[1].last + d;
        let sent = s.flush();
        if sent.is_empty() {
            sym::cover("not yet");
            sym::check(d * den < num, "sent again once the timeout has passed");
            // strictly later is still on time
            s.now += 400_000;
            sym::check(s.flush().len() == 1, "sent again later");
        } else {
            sym::cover("again");
            sym::check(sent.len() == 1, "sent once");
            sym::check((d + 5) * den >= num, "not before the timeout");
        }
        num *= 3;
        den *= 2;
    }
}

/// As `timing`, but after many retransmissions: the timeout goes on growing by half each time.
/// Whole milliseconds are lost to rounding in every step, so it may be up to 4 % short.
fn timing_long(rounds: usize, rtt: i64) {
    let mut s = Model::new(&[2, 3]);
    s.flush();
    s.now += rtt;
    let x = s.m[0].seqs[0];
    s.q.ack(x, s.now);
    s.m[0].done = true;
    let mut exact = s.q.get_rto() as f64;
    let mut least = exact;
    let k = sym::index(rounds as u64 + 1);
    for _ in 0..k {
        s.now = s.m[1].last + exact as i64 + 1;
        sym::check(s.flush().len() == 1, "sent again once the timeout has passed");
        exact *= 1.5;
        least = if exact * 0.96 < exact - 1.0 { exact * 0.96 } else { exact - 1.0 };
    }
    let d = sym::range(0, 2 * exact as u64) as i64;
    s.now = s.m[1].last + d;
    if s.flush().is_empty() {
        sym::cover("not yet");
        sym::check(d < exact as i64 + 1, "sent again once the timeout has passed");
    } else {
        sym::cover("again");
        sym::check(d >= least as i64, "not before the timeout");
    }
}

/// Fast retransmission with many datagrams outstanding.
fn nacked_many(n: usize) {
    let kinds: Vec<u64> = (0..n as u64).map(|i| if n > 60 { 3 } else { [2, 3, 4, 0, 2, 1][(i % 6) as usize] }).collect();
    let mut s = Model::new(&kinds);
    s.flush();
    s.now += sym::range(0, 20) as i64;
    let nack = sym::choice(2) == 1;
    let hi = sym::index(n as u64);
    let lo = if nack { [0, hi / 2, hi][sym::index(3)] } else { 1 };
    if nack {
        for x in lo..hi + 1 { s.q.nack(x as u32, s.now); }
    } else {
        s.q.ack(hi as u32, s.now);
        s.m[hi].done = true;
    }
    let sent = s.flush();
    let mut want = 0;
    for i in lo..if nack { hi + 1 } else { hi } {
        if is_rel(kinds[i]) {
            want += 1;
            sym::check(sent.contains(&i), "a lost reliable datagram is sent again at the next flush");
        }
    }
    // number 0 is only reported by an explicit NACK, it may be sent again or not
    let zero = !nack && sent.contains(&0);
    sym::check(sent.len() == want + zero as usize, "nothing else is sent again");
    sym::check(s.q.flush(s.now, &peer()).is_empty(), "once");
    sym::cover(if nack { "nacked" } else { "overtaken" });
}

/// One message reported missing again and again: sent again at once every time, but only when the
/// number of its latest transmission is reported.
fn nacked_again(rounds: usize) {
    let mut s = Model::new(&[3, 2]);
    s.flush();
    let k = sym::index(rounds as u64 + 1);
    for _ in 0..k {
        let x = *s.m[0].seqs.last().unwrap();
        s.q.nack(x, s.now);
        sym::check(s.flush() == vec![0], "sent again at once");
        s.now += 1;
    }
    // any number
    let x = sym::range(0, 2 * rounds as u64) as u32;
    let known = x == *s.m[0].seqs.last().unwrap();
    s.q.nack(x, s.now);
    let sent = s.flush();
    sym::check(sent.contains(&0) == known, "sent again exactly when its latest transmission is missing");
    sym::check(sent.contains(&1) == (x == 1), "and nothing else");
    if known { sym::cover("nacked"); } else { sym::cover("other"); }
}

/// Fast retransmission: a NACKed datagram, and one overtaken by a later acknowledgement, is sent
/// at the next flush whatever the clock says; nothing else is.
fn nacked() {
    let mut s = Model::any(3);
    s.flush();
    let nack = sym::choice(2) == 1;
    s.now += sym::range(0, 20) as i64;
    let (mut lost, mut acked) = ([false; 3], [false; 3]);
    if nack {
        let (a, b) = (sym::range(0, 4) as u32, sym::range(0, 4) as u32);
        sym::assume(a <= b);
        for x in a..b + 1 { s.q.nack(x, s.now); }
        for i in 0..3u32 { lost[i as usize] = a <= i && i <= b; }
    } else {
        let x = sym::range(0, 2) as u32;
        s.q.ack(x, s.now);
        for i in 0..3u32 { acked[i as usize] = i == x; if acked[i as usize] { s.m[i as usize].done = true; } lost[i as usize] = i < x; }
        // the very first number is only reported by an explicit NACK
        lost[0] = false;
    }
    if sym::choice(2) == 1 { s.now += sym::range(0, 20) as i64; }
    let sent = s.flush();
    for i in 0..3 {
        let again = sent.contains(&i);
        let reliable = is_rel(s.m[i].kind);
        if lost[i] && reliable {
            if nack { sym::cover("nacked"); } else { sym::cover("overtaken"); }
            sym::check(again, "a lost reliable datagram is sent again at the next flush");
        }
        if !reliable || acked[i] { sym::check(!again, "nothing else is sent again"); }
    }
    sym::check(s.q.flush(s.now, &peer()).is_empty(), "once");
}

/// The retransmission timeout stays within 50 ms and 12 s whatever round trips are measured.
fn rto(n: usize) {
    let mut q = SendQ::new(1400);
    sym::check(q.get_rto() >= 50 && q.get_rto() <= 12_000, "initial timeout");
    let mut now = 1000i64;
    for k in 0..n {
        q.insert(Reliability::Reliable, &[0xfe]).unwrap();
        let f = q.flush(now, &peer());
        sym::check(f.len() == 1, "sent");
        // the clock may jump either way between sending and the acknowledgement
        let t = match sym::choice(3) {
            0 => now + sym::range(0, 1 << 16) as i64,
            1 => now - sym::range(0, 1 << 16) as i64,
            _ => now + (sym::range(0, 1 << 12) << 32) as i64,
        };
        q.ack(f[0].sequence_number, t);
        let r = q.get_rto();
        sym::check(r >= 50, "the timeout never falls below 50 ms");
        sym::check(r <= 12_000, "the timeout never exceeds 12 s");
        if r > 50 { sym::cover("grown"); }
        if r == 50 { sym::cover("floor"); }
        if r == 12_000 { sym::cover("ceiling"); }
        let _ = k;
        now = 1000 + (k as i64 + 1) * 1000;
    }
}

/// A long history of measurements of one size, then any one.
fn rto_long(n: usize) {
    let mut q = SendQ::new(1400);
    let rtt = [0i64, 33, 60, 5_000, 8_100, 9_000, 10_500, 11_900, 12_100, 60_000][sym::index(10)];
    let mut now = 1000i64;
    for k in 0..n + 1 {
        q.insert(Reliability::Reliable, &[0xfe]).unwrap();
        let f = q.flush(now, &peer());
        sym::check(f.len() == 1, "sent");
        now += if k < n { rtt } else { sym::range(0, 1 << 16) as i64 - (1 << 15) };
        q.ack(f[0].sequence_number, now);
        sym::check(q.is_empty(), "acknowledged");
        let r = q.get_rto();
        sym::check(r >= 50, "the timeout never falls below 50 ms");
        sym::check(r <= 12_000, "the timeout never exceeds 12 s");
    }
    sym::cover("end");
}

/// Message numbering over several batches of arbitrary messages.
fn numbering(n: usize, batch: bool) {
    let mut q = SendQ::new(400);
    let (mut seq, mut ri, mut si, mut oi) = (0u32, 0u32, 0u32, 0u32);
    let mut pend: Vec<(u64, usize, usize)> = vec![];
    let mut ids: Vec<u16> = vec![];
    for k in 0..n {
        let c = sym::choice(7);
        let (kind, frames) = if c == 5 { (3, 2) } else { (c.min(6) - 3 * (c == 6) as u64, 1) };
        // 340 bytes just fill one datagram: whole or as the only fragment
        let b = vec![0xfe; if frames == 2 { 500 } else if c == 6 { 340 } else { 3 }];
        q.insert(rel(kind), &b).unwrap();
        pend.push((kind, frames, b.len()));
        if batch && k + 1 < n && sym::choice(2) == 1 { continue; }
        let out = q.flush(0, &peer());
        let mut at = 0;
        for (kind, frames, len) in &pend {
            let mut total = 0;
            for j in 0..*frames {
                sym::check(at < out.len(), "every message is sent");
                let f = &out[at];
                at += 1;
                total += f.data.len();
                sym::check(kind_of(f) == *kind, "messages go out in the order they were sent");
                sym::check(f.sequence_number == seq, "consecutive datagram numbers");
                seq += 1;
                if is_rel(*kind) { sym::check(f.reliable_frame_index == ri, "consecutive reliable numbers"); ri += 1; }
                if *kind == 1 || *kind == 4 { sym::check(f.sequenced_frame_index == si, "consecutive sequenced numbers"); }
                if *kind == 3 { sym::check(f.ordered_frame_index == oi, "consecutive ordered numbers"); }
                if *frames == 2 {
                    if j == 0 {
                        for i in &ids { sym::check(*i != f.compound_id, "a compound id per message"); }
                        ids.push(f.compound_id);
                    }
                    sym::check(f.is_fragment() && f.fragment_index == j as u32 && f.compound_size == 2, "fragment numbers");
                } else if f.is_fragment() {
                    sym::check(*len == 340 && f.fragment_index == 0 && f.compound_size == 1, "short messages are not fragmented");
                    for i in &ids { sym::check(*i != f.compound_id, "a compound id per message"); }
                    ids.push(f.compound_id);
                }
            }
            sym::check(total == *len, "whole message");
            if *kind == 1 || *kind == 4 { si += 1; }
            if *kind == 3 { oi += 1; }
        }
        sym::check(at == out.len(), "nothing else is sent");
        // acknowledge any one of them, or all
        let x = sym::range(0, seq as u64) as u32;
        if x < seq { q.ack(x, 0); sym::cover("one acknowledged"); } else { for f in 0..seq { q.ack(f, 0); } }
        sym::check(q.flush(0, &peer()).iter().all(|f| f.sequence_number >= seq && kind_of(f) >= 2), "retransmissions are renumbered");
        for f in 0..seq + 64 { q.ack(f, 0); }
        sym::check(q.is_empty(), "all acknowledged");
        // whatever was retransmitted took further numbers
        q.insert(Reliability::Unreliable, &[0xfe]).unwrap();
        let f = q.flush(0, &peer());
        sym::check(f.len() == 1 && f[0].sequence_number >= seq, "datagram numbers increase");
        seq = f[0].sequence_number + 1;
        pend.clear();
    }
    sym::cover("end");
    if ids.len() > 1 { sym::cover("two compounds"); }
}

/// A message of more than 64 KiB: split, transmitted, reassembled.
fn huge(n: usize, mtu: u16) {
    let mut q = SendQ::new(mtu);
    let p = payload(n);
    q.insert(Reliability::ReliableOrdered, &p).unwrap();
    let mut r = RecvQ::new();
    let out = q.flush(0, &peer());
    let back = sym::choice(2) == 1;
    let mut at = 0;
    for (i, f) in out.iter().enumerate() {
        sym::check(f.fragment_index as usize == i && f.compound_size as usize == out.len() && f.is_fragment(), "fragment numbering");
        sym::check(f.data.len() + 60 <= mtu as usize && f.reliable_frame_index as usize == i && f.ordered_frame_index == 0, "sizes and numbers");
        sym::check(eq(&f.data, &p[at..at + f.data.len()]), "fragments partition the message");
        at += f.data.len();
    }
    sym::check(at == n, "the whole message");
    let k = out.len();
    for i in 0..k {
        let f = &out[if back { k - 1 - i } else { i }];
        let d = FrameVec::new(f.serialize().unwrap()).unwrap();
        for f in d.frames { r.insert(f).unwrap(); }
    }
    let got = r.flush(&peer());
    sym::check(got.len() == 1 && eq(&got[0].data, &p), "delivered as sent");
    sym::cover("end");
}

/// Messages of lengths around the limit of one datagram, outstanding at the same time.
fn together(n: usize) {
    let mut q = SendQ::new(400);
    let mut r = RecvQ::new();
    let mut ps = vec![];
    for k in 0..n {
        let mut p = payload([1, 339, 340, 341, 680, 681][sym::index(6)]);
        p[0] = if p.len() == 1 { k as u8 } else { 0xfe };
        let z = p.len() - 1;
        if z > 0 { p[z] = k as u8; p[1] = sym::u8(); }
        q.insert(Reliability::ReliableOrdered, &p).unwrap();
        ps.push(p);
    }
    let mut out = q.flush(0, &peer());
    if sym::choice(2) == 1 { out.reverse(); sym::cover("reversed"); }
    let first = sym::index(out.len() as u64);
    out.rotate_left(first);
    // one of them arrives twice
    let twice = sym::index(out.len() as u64);
    let mut got = vec![];
    for (i, f) in out.iter().enumerate() {
        for _ in 0..1 + (i == twice) as usize {
            let d = FrameVec::new(f.serialize().unwrap()).unwrap();
            for f in d.frames { r.insert(f).unwrap(); }
            if first % 2 == 0 { got.extend(r.flush(&peer())); }
        }
    }
    got.extend(r.flush(&peer()));
    sym::check(got.len() == n, "every message is delivered once");
    for (g, p) in got.iter().zip(ps.iter()) { sym::check(eq(&g.data, p), "as sent, in order"); }
    sym::check(r.get_fragment_queue_size() == 0, "no fragment is left behind");
    sym::cover("end");
}

/// More than 65 536 messages of every kind: numbering goes on.
fn many_messages() {
    let mut q = SendQ::new(400);
    let mut seq = 0;
    for i in 0..33_000u32 {
        for k in [0u64, 1, 2, 4] { q.insert(rel(k), &[0xfe]).unwrap(); }
        let out = q.flush(0, &peer());
        sym::check(out.len() == 4, "sent");
        for (j, f) in out.iter().enumerate() { sym::check(f.sequence_number == seq + j as u32, "datagram numbers"); }
        sym::check(out[1].sequenced_frame_index == 2 * i && out[3].sequenced_frame_index == 2 * i + 1, "sequenced numbers");
        sym::check(out[2].reliable_frame_index == 2 * i && out[3].reliable_frame_index == 2 * i + 1, "reliable numbers");
        q.ack(seq + 2, 0);
        q.ack(seq + 3, 0);
        seq += 4;
    }
    sym::check(q.is_empty(), "all acknowledged");
    sym::cover("end");
}

/// 65 536 compounds and more: numbering goes on.
fn many_compounds() {
    let mut q = SendQ::new(400);
    let p = vec![0xfe; 340];
    for i in 0..65_538u32 {
        q.insert(Reliability::ReliableOrdered, &p).unwrap();
        let out = q.flush(0, &peer());
        sym::check(out.len() == 1 && out[0].ordered_frame_index == i, "sent");
        q.ack(out[0].sequence_number, 0);
    }
    sym::cover("end");
}

/// `n` split messages outstanding at once: every one has its own compound id.
fn compounds_outstanding(n: usize) {
    let mut q = SendQ::new(400);
    let salt = sym::u8();
    for i in 0..n {
        let mut p = vec![0xfe; 345];
        p[1] = salt;
        p[2] = i as u8;
        q.insert(Reliability::ReliableOrdered, &p).unwrap();
    }
    let out = q.flush(0, &peer());
    sym::check(out.len() == 2 * n, "everything is sent");
    let mut used = vec![false; 65_536];
    for (i, f) in out.iter().enumerate() {
        sym::check(f.is_fragment() && f.compound_size == 2 && f.fragment_index as usize == i % 2, "fragment numbers");
        sym::check(f.ordered_frame_index as usize == i / 2, "ordered numbers");
        if i % 2 == 0 {
            sym::check(!used[f.compound_id as usize], "a compound id per message");
            used[f.compound_id as usize] = true;
            sym::check(f.data[1] == salt, "content");
        } else {
            sym::check(f.compound_id == out[i - 1].compound_id, "one compound id per message");
        }
    }
    sym::cover("end");
}

// ---- both ends -----------------------------------------------------------------------------

/// Two queues and a network that loses, repeats and reorders datagrams and acknowledgements for
/// `chaos` steps, then delivers. Every message that must arrive does, as its reliability promises.
fn end_to_end(kinds: &[u64], chaos: usize, nacks: bool) {
    let mut a = SendQ::new(400);
    let mut b = RecvQ::new();
    let mut now = 0i64;
    let mut wire: Vec<FrameSetPacket> = vec![];
    let mut got: Vec<usize> = vec![];
    let mut counts = vec![0usize; kinds.len()];
    let (mut acks, mut nks): (Vec<(u32, u32)>, Vec<(u32, u32)>) = (vec![], vec![]);
    let mut bodies = vec![];
    for (i, k) in kinds.iter().enumerate() {
        let p = if *k == 5 { let mut v = vec![0xfe; 345]; v[1] = i as u8; v[344] = sym::u8(); v } else { vec![0xfe, i as u8, sym::u8()] };
        a.insert(if *k == 5 { Reliability::ReliableOrdered } else { rel(*k) }, &p).unwrap();
        bodies.push(p);
    }
    fn arrive(b: &mut RecvQ, f: FrameSetPacket, got: &mut Vec<usize>, counts: &mut [usize], bodies: &[Vec<u8>]) {
        let d = FrameVec::new(f.serialize().unwrap()).unwrap();
        for f in d.frames {
            b.insert(f).unwrap();
            for m in b.flush(&peer()) {
                let i = m.data[1] as usize;
                sym::check(eq(&m.data, &bodies[i]), "content unmodified");
                counts[i] += 1;
                got.push(i);
            }
        }
    }
    fn report(a: &mut SendQ, acks: &mut Vec<(u32, u32)>, nks: &mut Vec<(u32, u32)>, now: i64) {
        for (x, y) in acks.drain(..) { for s in x..=y { a.ack(s, now); } }
        for (x, y) in nks.drain(..) { for s in x..=y { a.nack(s, now); } }
    }
    wire.extend(a.flush(now, &peer()));
    for _ in 0..chaos {
        match sym::choice(5) {
            0 => { if !wire.is_empty() { wire.remove(sym::index(wire.len() as u64)); sym::cover("lost"); } }
            1 => { if !wire.is_empty() { let f = wire.remove(sym::index(wire.len() as u64)); arrive(&mut b, f, &mut got, &mut counts, &bodies); } }
            2 => { if !wire.is_empty() { let f = wire[sym::index(wire.len() as u64)].clone(); arrive(&mut b, f, &mut got, &mut counts, &bodies); sym::cover("repeated"); } }
            3 => { acks.extend(b.get_ack()); if nacks { nks.extend(b.get_nack()); } if sym::choice(2) == 0 { acks.clear(); nks.clear(); } else { report(&mut a, &mut acks, &mut nks, now); } }
            _ => { now += [10, 5_000][sym::index(2)]; wire.extend(a.flush(now, &peer())); }
        }
    }
    // from here on the network delivers
    for _ in 0..3 {
        for f in wire.split_off(0) { arrive(&mut b, f, &mut got, &mut counts, &bodies); }
        acks.extend(b.get_ack());
        nks.extend(b.get_nack());
        report(&mut a, &mut acks, &mut nks, now);
        now += 1_000_000;
        wire.extend(a.flush(now, &peer()));
    }
    sym::check(a.is_empty(), "the sender ends with nothing outstanding");
    sym::check(wire.is_empty(), "and nothing to send");
    let ord: Vec<usize> = got.iter().cloned().filter(|i| kinds[*i] == 3 || kinds[*i] == 5).collect();
    let want: Vec<usize> = (0..kinds.len()).filter(|i| kinds[*i] == 3 || kinds[*i] == 5).collect();
    sym::check(ord.len() == want.len(), "every ordered message is delivered exactly once");
    for i in 0..want.len().min(ord.len()) { sym::check(ord[i] == want[i], "ordered messages are delivered in order"); }
    let sq: Vec<usize> = got.iter().cloned().filter(|i| kinds[*i] == 1 || kinds[*i] == 4).collect();
    for w in sq.windows(2) { sym::check(w[0] < w[1], "sequenced messages are never delivered backwards or twice"); }
    for (i, k) in kinds.iter().enumerate() {
        if *k == 2 { sym::check(counts[i] >= 1, "every reliable message is delivered"); }
        if *k == 4 && (i + 1..kinds.len()).all(|j| kinds[j] != 1 && kinds[j] != 4) {
            sym::check(counts[i] == 1, "the newest reliable sequenced message is delivered");
        }
    }
    sym::cover("end");
}

/// `n` messages of all kinds and an outage: for many retransmission rounds every datagram, or
/// every acknowledgement, is lost; then one arbitrary datagram, then nothing any more.
fn outage(n: usize, rounds: &[usize]) {
    let kinds: Vec<u64> = (0..n as u64).map(|i| [3, 2, 4, 3][(i % 4) as usize]).collect();
    let mut a = SendQ::new(400);
    let mut b = RecvQ::new();
    let salt = sym::u8();
    let mut now = 0i64;
    let mut got: Vec<usize> = vec![];
    let send = |a: &mut SendQ, i: usize| a.insert(rel(kinds[i]), &[0xfe, salt, i as u8, (i >> 8) as u8]).unwrap();
    // some are sent while others wait for their acknowledgement
    let first = [n, 1][sym::index(2)];
    for i in 0..first { send(&mut a, i); }
    let mut wire = a.flush(now, &peer());
    for i in first..n { send(&mut a, i); }
    let deaf = sym::choice(2) == 1;
    let rounds = rounds[sym::index(rounds.len() as u64)];
    let mut arrive = |b: &mut RecvQ, f: FrameSetPacket| {
        for f in FrameVec::new(f.serialize().unwrap()).unwrap().frames {
            b.insert(f).unwrap();
            for m in b.flush(&peer()) {
                sym::check(m.data.len() == 4 && m.data[0] == 0xfe && m.data[1] == salt, "content unmodified");
                got.push(m.data[2] as usize + ((m.data[3] as usize) << 8));
            }
        }
    };
    for k in 0..rounds {
        for f in wire.split_off(0) { if deaf { arrive(&mut b, f); } }
        if deaf { b.get_ack(); b.get_nack(); }
        now += 60 << k.min(40);
        wire = a.flush(now, &peer());
    }
    let mut lose = sym::index(wire.len() as u64 + 1);
    for _ in 0..6 {
        for (i, f) in wire.split_off(0).into_iter().enumerate() { if i != lose { arrive(&mut b, f); } }
        lose = usize::MAX;
        for (x, y) in b.get_ack() { for s in x..=y { a.ack(s, now); } }
        for (x, y) in b.get_nack() { for s in x..=y { a.nack(s, now); } }
        now += 1 << 50;
        wire = a.flush(now, &peer());
    }
    sym::check(a.is_empty() && wire.is_empty(), "the sender ends with nothing outstanding");
    let ord: Vec<usize> = got.iter().cloned().filter(|i| kinds[*i] == 3).collect();
    let want: Vec<usize> = (0..n).filter(|i| kinds[*i] == 3).collect();
    sym::check(ord == want, "every ordered message is delivered exactly once, in order");
    let sq: Vec<usize> = got.iter().cloned().filter(|i| kinds[*i] == 4).collect();
    for w in sq.windows(2) { sym::check(w[0] < w[1], "sequenced messages are never delivered backwards or twice"); }
    for i in 0..n {
        if kinds[i] == 2 { sym::check(got.contains(&i), "every reliable message is delivered"); }
        if kinds[i] == 4 && i + 4 >= n { sym::check(got.contains(&i), "the newest reliable sequenced message is delivered"); }
    }
    sym::cover("end");
}

harnesses! {
    fn h_fragmentation() { fragmentation(1400, 4) }
    fn h_fragmentation_small() { fragmentation(400, 12) }
    fn h_fragmentation_many() { fragmentation_many(&[255, 256, 257, 300]) }
    fn h_fragmentation_many_t() { fragmentation_many(&[511, 512, 513, 1025]) }
    fn h_fragmentation_t() { fragmentation(1492, 20) }
    fn h_any_mtu() { any_mtu() }
    fn h_limit() { limit(1400) }
    fn h_limit_small() { limit(400) }
    fn h_retained() { retained(2, 4, false, false) }
    fn h_retained_t() { retained(3, 3, false, true) }
    fn h_retained_three() { retained(3, 2, false, false) }
    fn h_retained_three_t() { retained(3, 4, false, false) }
    fn h_retained_wait() { retained(1, 2, true, true) }
    fn h_retained_nack() { retained(2, 3, true, false) }
    fn h_retained_nack_t() { retained(2, 3, true, true) }
    fn h_retained_long() { retained_long(24, 0) }
    fn h_retained_many() { retained_long(2, 300) }
    fn h_retained_long_t() { retained_long(30, 20) }
    fn h_timing() { timing(2, false) }
    fn h_timing_t() { timing(4, false) }
    fn h_timing_rtt() { timing(1, true) }
    fn h_timing_rtt_t() { timing(2, true) }
    fn h_timing_long() { timing_long(24, [0, 700][sym::index(2)]) }
    fn h_timing_long_t() { timing_long(70, [0, 700, 40_000][sym::index(3)]) }
    fn h_nacked() { nacked() }
    fn h_nacked_many() { nacked_many([60, 100][sym::index(2)]) }
    fn h_nacked_many_t() { nacked_many(400) }
    fn h_nacked_again() { nacked_again(40) }
    fn h_outage() { outage(8, &[1, 6, 24, 40]) }
    fn h_outage_many() { outage(150, &[2]) }
    fn h_outage_t() { outage(20, &[3, 12, 70]) }
    fn h_rto() { rto(1) }
    fn h_rto_t() { rto(2) }
    fn h_rto_long() { rto_long(40) }
    fn h_numbering() { numbering(3, true) }
    fn h_numbering_t() { numbering(4, true) }
    fn h_many_compounds() { many_compounds() }
    fn h_many_messages() { many_messages() }
    fn h_compounds_outstanding() { compounds_outstanding(300) }
    fn h_compounds_outstanding_t() { compounds_outstanding(5000) }
    fn h_together() { together(3) }
    fn h_together_t() { together(4) }
    fn h_huge() { huge(70_000, 1400) }
    fn h_huge_t() { huge(300_000, 576) }
    fn h_e2e_ordered() { end_to_end(&[3, 3], 5, true) }
    fn h_e2e_ordered_t() { end_to_end(&[3, 3, 3], 6, true) }
    fn h_e2e_fragment() { end_to_end(&[5], 4, true) }
    fn h_e2e_fragment_t() { end_to_end(&[5, 3], 5, true) }
    fn h_e2e_mixed() { end_to_end(&[2, 4, 3], 4, true) }
    fn h_e2e_mixed_t() { end_to_end(&[1, 2, 4, 3], 5, true) }
}
