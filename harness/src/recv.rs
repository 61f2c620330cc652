//! Receiving side: RecvQ (ordering, sequencing, reassembly) and ACKSet.
use crate::sym;
use crate::wire::eq;
use rust_raknet::verif::arq::*;
use std::net::SocketAddr;

const MAX24: u64 = 0xff_ffff;

fn peer() -> SocketAddr { "1.2.3.4:5".parse().unwrap() }

fn frame(r: Reliability, seq: u32, data: Vec<u8>) -> FrameSetPacket {
    let mut f = FrameSetPacket::new(r, data);
    f.id = 0x84;
    f.sequence_number = seq;
    f
}

fn bytes4(v: u32, salt: u8) -> Vec<u8> { vec![0xfe, v as u8, (v >> 8) as u8, (v >> 16) as u8, salt] }

/// Frames that do not take part in the ordered stream, with arbitrary numbers.
fn noise(q: &mut RecvQ, seq: u32, kind: u64) -> usize {
    let r = match kind {
        0 => Reliability::Unreliable,
        1 => Reliability::Reliable,
        2 => Reliability::UnreliableSequenced,
        _ => Reliability::ReliableSequenced,
    };
    let mut f = frame(r, seq, vec![0xfe, 0x4e]);
    f.ordered_frame_index = sym::range(0, MAX24) as u32;
    f.sequenced_frame_index = sym::range(0, MAX24) as u32;
    f.reliable_frame_index = sym::range(0, MAX24) as u32;
    q.insert(f).unwrap();
    kind as usize
}

fn is_ordered(f: &FrameSetPacket) -> bool { matches!(f.reliability(), Ok(Reliability::ReliableOrdered)) }

/// n ordered frames arrive, each with an arbitrary index: what comes out is 0, 1, 2, ... without
/// gaps or repeats, as early as possible, with its own content. Datagram numbers are fresh or
/// repeated; the queue is flushed after every arrival or only now and then; other traffic passes.
fn ordered(n: usize, every: bool, mix: bool) {
    let mut q = RecvQ::new();
    let salt = sym::u8();
    let mut seen: Vec<u32> = vec![];
    let mut next = 0u32;
    let mut pending = 0usize;
    for k in 0..n {
        if mix && sym::choice(2) == 1 { noise(&mut q, 1000 + k as u32, sym::choice(4)); }
        let i = sym::range(0, MAX24) as u32;
        let mut f = frame(Reliability::ReliableOrdered, k as u32, bytes4(i, salt));
        f.ordered_frame_index = i;
        f.reliable_frame_index = sym::range(0, MAX24) as u32;
        q.insert(f).unwrap();
        seen.push(i);
        pending += 1;
        if !every && k + 1 < n && sym::choice(2) == 0 { continue; }
        let out = q.flush(&peer());
        let mut more = true;
        let mut it = out.iter().filter(|f| is_ordered(f));
        while more {
            more = false;
            for s in &seen {
                if *s == next { more = true; }
            }
            if more {
                match it.next() {
                    None => sym::check(false, "a message whose predecessors all arrived is delivered"),
                    Some(f) => sym::check(eq(&f.data, &bytes4(next, salt)), "the next message in order, unmodified"),
                }
                next += 1;
            }
        }
        sym::check(it.next().is_none(), "nothing delivered early or twice");
        if next as usize == n { sym::cover("all delivered"); }
        if pending > 1 && next > 1 { sym::cover("several at once"); }
        if next == 0 { sym::cover("held back"); }
    }
}

/// Ordered delivery far into the stream: the first `base` messages arrive in order.
fn ordered_later(base: u32, n: usize) {
    let mut q = RecvQ::new();
    for i in 0..base {
        let mut f = frame(Reliability::ReliableOrdered, i, bytes4(i, 0));
        f.ordered_frame_index = i;
        q.insert(f).unwrap();
        let out = q.flush(&peer());
        sym::check(out.len() == 1 && eq(&out[0].data, &bytes4(i, 0)), "in order arrivals are delivered at once");
    }
    let mut got = vec![false; n];
    let mut next = 0;
    for k in 0..n + 1 {
        let d = sym::index(n as u64 + 1);
        let late = d == n;
        let i = if late { sym::range(0, base as u64 - 1) as u32 } else { base + d as u32 };
        let mut f = frame(Reliability::ReliableOrdered, base + k as u32, bytes4(i, 1));
        f.ordered_frame_index = i;
        q.insert(f).unwrap();
        if !late { got[d] = true; }
        let out = q.flush(&peer());
        let mut m = 0;
        while next < n && got[next] {
            sym::check(m < out.len() && eq(&out[m].data, &bytes4(base + next as u32, 1)), "the next message in order, unmodified");
            m += 1;
            next += 1;
        }
        sym::check(out.len() == m, "nothing delivered early or twice");
        if late { sym::cover("late duplicate"); }
    }
    if next == n { sym::cover("all delivered"); sym::check(q.get_ordered_packet() == 0, "nothing is kept once delivered"); }
}

/// One message out of `n` is late, all others arrive before it: they wait, however many they are.
fn ordered_backlog(n: u32, choices: u64) {
    let mut q = RecvQ::new();
    let late = sym::index(choices) as u32;
    for (seq, i) in (0..n).filter(|i| *i != late).enumerate() {
        let mut f = frame(Reliability::ReliableOrdered, seq as u32, bytes4(i, 0));
        f.ordered_frame_index = i;
        q.insert(f).unwrap();
        if i < late || i % 64 == 63 {
            let out = q.flush(&peer());
            sym::check(out.len() == (i < late) as usize, "messages wait for their predecessors");
        }
    }
    let salt = sym::u8();
    let mut f = frame(Reliability::ReliableOrdered, n, bytes4(late, salt));
    f.ordered_frame_index = late;
    q.insert(f).unwrap();
    let out = q.flush(&peer());
    sym::check(out.len() == (n - late) as usize, "all that waited are delivered");
    for (k, f) in out.iter().enumerate() {
        let i = late + k as u32;
        sym::check(eq(&f.data, &bytes4(i, if k == 0 { salt } else { 0 })), "in order, unmodified");
    }
    sym::cover("all delivered");
}

/// Messages around number 65 536 of the stream, in any order.
fn ordered_far(base: u32, n: usize) {
    let mut q = RecvQ::new();
    let send = |q: &mut RecvQ, seq: u32, i: u32| {
        let mut f = frame(Reliability::ReliableOrdered, seq, bytes4(i, 0));
        f.ordered_frame_index = i;
        q.insert(f).unwrap();
        q.flush(&peer())
    };
    for i in 0..base {
        let out = send(&mut q, i, i);
        sym::check(out.len() == 1 && eq(&out[0].data, &bytes4(i, 0)), "in order arrivals are delivered at once");
    }
    let (mut got, mut next) = (vec![false; n], 0);
    for k in 0..n {
        let mut left = vec![];
        for i in 0..n { if !got[i] { left.push(i); } }
        let d = left[sym::index(left.len() as u64)];
        got[d] = true;
        let out = send(&mut q, base + k as u32, base + d as u32);
        let mut m = 0;
        while next < n && got[next] {
            sym::check(m < out.len() && eq(&out[m].data, &bytes4(base + next as u32, 0)), "the next message in order, unmodified");
            m += 1;
            next += 1;
        }
        sym::check(out.len() == m, "nothing delivered early or twice");
    }
    // whoever sent them did not get the acknowledgement
    q.get_ack();
    for (k, i) in [base - 2, base - [3, 600, 5000][sym::index(3)].min(base), 0].into_iter().enumerate() {
        let seq = base + n as u32 + k as u32;
        sym::check(send(&mut q, seq, i).is_empty(), "a late duplicate is dropped");
        let a = q.get_ack();
        sym::check(a.len() == 1 && a[0] == (seq, seq), "and acknowledged again");
    }
    sym::check(next == n, "all delivered");
    sym::cover("all delivered");
}

/// However many ordered messages wait, other messages do not.
fn beside_backlog(n: u32) {
    let mut q = RecvQ::new();
    for i in 1..n {
        let mut f = frame(Reliability::ReliableOrdered, i, bytes4(i, 0));
        f.ordered_frame_index = i;
        q.insert(f).unwrap();
    }
    sym::check(q.flush(&peer()).is_empty(), "messages wait for their predecessor");
    let salt = sym::u8();
    for k in 0..4u32 {
        let r = [Reliability::Unreliable, Reliability::Reliable, Reliability::UnreliableSequenced, Reliability::ReliableSequenced][k as usize].clone();
        let mut f = frame(r, n + k, bytes4(k, salt));
        f.sequenced_frame_index = k;
        f.reliable_frame_index = n + k;
        q.insert(f).unwrap();
        let out = q.flush(&peer());
        sym::check(out.len() == 1 && eq(&out[0].data, &bytes4(k, salt)), "other messages do not wait");
    }
    let mut f = frame(Reliability::ReliableOrdered, n + 4, bytes4(0, salt));
    f.ordered_frame_index = 0;
    q.insert(f).unwrap();
    let out = q.flush(&peer());
    sym::check(out.len() == n as usize, "all that waited are delivered");
    for (i, f) in out.iter().enumerate() { sym::check(eq(&f.data, &bytes4(i as u32, if i == 0 { salt } else { 0 })), "in order, unmodified"); }
    sym::cover("all delivered");
}

/// Sequenced frames with arbitrary indices, in both reliabilities.
fn sequenced(n: usize, mix: bool) {
    let mut q = RecvQ::new();
    let salt = sym::u8();
    let mut newest: Option<u32> = None;
    for k in 0..n {
        if mix {
            match sym::choice(3) {
                0 => {}
                1 => {
                    let mut f = frame(Reliability::ReliableOrdered, 1000 + k as u32, vec![0xfe]);
                    f.ordered_frame_index = sym::range(0, MAX24) as u32;
                    q.insert(f).unwrap();
                    q.flush(&peer());
                }
                _ => {
                    q.insert(frame(Reliability::Reliable, 1000 + k as u32, vec![0xfe])).unwrap();
                    q.flush(&peer());
                }
            }
        }
        let i = sym::range(0, MAX24) as u32;
        let r = if sym::choice(2) == 0 { Reliability::UnreliableSequenced } else { Reliability::ReliableSequenced };
        let mut f = frame(r, k as u32, bytes4(i, salt));
        f.sequenced_frame_index = i;
        f.ordered_frame_index = sym::range(0, MAX24) as u32;
        f.reliable_frame_index = sym::range(0, MAX24) as u32;
        q.insert(f).unwrap();
        let out = q.flush(&peer());
        let newer = match newest { None => true, Some(m) => i > m };
        if newer {
            newest = Some(i);
            sym::cover("newer");
            sym::check(out.len() == 1 && eq(&out[0].data, &bytes4(i, salt)), "a newer message is delivered");
        } else {
            sym::cover("older");
            sym::check(out.is_empty(), "an older or repeated message is dropped");
        }
    }
}

/// Unreliable and reliable frames come out at once, once each, unmodified, whatever else is queued.
fn immediate(n: usize) {
    let mut q = RecvQ::new();
    // something is waiting in the ordered queue and in the fragment queue
    if sym::choice(2) == 1 {
        let mut f = frame(Reliability::ReliableOrdered, 500, vec![0xfe]);
        f.ordered_frame_index = sym::range(1, MAX24) as u32;
        q.insert(f).unwrap();
        let mut f = frame(Reliability::ReliableOrdered, 501, vec![0xfe]);
        f.flags |= 16;
        f.compound_size = sym::range(2, 9) as u32;
        f.compound_id = sym::u16();
        f.fragment_index = sym::range(0, 9) as u32;
        f.ordered_frame_index = sym::range(0, MAX24) as u32;
        q.insert(f).unwrap();
        sym::check(q.flush(&peer()).is_empty(), "incomplete messages are held");
    }
    let mut seqs: Vec<u32> = vec![];
    let mut pend: Vec<(u32, Vec<u8>)> = vec![];
    for k in 0..n {
        let seq = sym::range(0, MAX24) as u32;
        for s in &seqs { sym::assume(*s != seq); }
        seqs.push(seq);
        let r = if sym::choice(2) == 0 { Reliability::Unreliable } else { Reliability::Reliable };
        let data = vec![0xfe, k as u8, sym::u8()];
        let mut f = frame(r, seq, data.clone());
        f.reliable_frame_index = k as u32;
        f.ordered_frame_index = sym::range(0, MAX24) as u32;
        q.insert(f).unwrap();
        pend.push((seq, data));
        if k + 1 < n && sym::choice(2) == 0 { continue; }
        let out = q.flush(&peer());
        sym::check(out.len() == pend.len(), "as many messages come out as arrived");
        for (s, d) in &pend {
            let mut hits = 0;
            for o in &out {
                if o.sequence_number == *s {
                    hits += 1;
                    sym::check(eq(&o.data, d), "content unmodified");
                }
            }
            sym::check(hits == 1, "each message comes out once");
        }
        if pend.len() > 1 { sym::cover("several"); }
        pend.clear();
    }
    sym::check(q.flush(&peer()).is_empty(), "nothing is delivered again");
    sym::cover("end");
}

/// The same reliable message received twice (its acknowledgement was lost).
fn reliable_again() {
    let mut q = RecvQ::new();
    let i = sym::range(0, MAX24) as u32;
    for seq in 0..2 {
        let mut f = frame(Reliability::Reliable, seq, vec![0xfe]);
        f.reliable_frame_index = i;
        q.insert(f).unwrap();
        let out = q.flush(&peer());
        sym::cover("arrival");
        if seq == 0 { sym::check(out.len() == 1, "the first copy is delivered"); }
        else { sym::check(out.is_empty(), "a retransmitted reliable message is delivered once"); }
    }
}

// ---- reassembly ----------------------------------------------------------------------------

#[derive(Clone)]
struct Part { msg: usize, idx: usize }

/// Messages with the given fragment counts (0: sent unfragmented), `n` arrivals of arbitrary
/// fragments of them. Fragment content and length are arbitrary.
fn reassembly(sizes: &[usize], n: usize, id_base: u16, complete: bool) {
    let mut q = RecvQ::new();
    let mut parts: Vec<Part> = vec![];
    let mut content: Vec<Vec<Vec<u8>>> = vec![];
    for (m, s) in sizes.iter().enumerate() {
        let c: Vec<Vec<u8>> = (0..(*s).max(1)).map(|k| {
            if k == 0 { vec![0xfe, sym::u8()] } else if k + 1 == *s { vec![sym::u8()] } else { vec![sym::u8(), sym::u8()] }
        }).collect();
        for idx in 0..c.len() { parts.push(Part { msg: m, idx }); }
        content.push(c);
    }
    let total = parts.len();
    let mut got = vec![false; total];
    let mut next = 0;
    for k in 0..n {
        let p = if complete {
            // every arrival is new: a permutation
            let mut left = vec![];
            for i in 0..total { if !got[i] { left.push(i); } }
            if left.is_empty() { break; }
            left[sym::index(left.len() as u64)]
        } else {
            sym::index(total as u64)
        };
        let Part { msg, idx } = parts[p].clone();
        let dup = got[p];
        let mut f = frame(Reliability::ReliableOrdered, k as u32, content[msg][idx].clone());
        f.ordered_frame_index = msg as u32;
        f.reliable_frame_index = p as u32;
        if sizes[msg] > 0 {
            f.flags |= 16;
            f.compound_size = sizes[msg] as u32;
            f.compound_id = id_base.wrapping_add(msg as u16);
            f.fragment_index = idx as u32;
        }
        q.insert(f).unwrap();
        got[p] = true;
        let out = q.flush(&peer());
        let mut m = 0;
        while next < sizes.len() && (0..total).all(|i| parts[i].msg != next || got[i]) {
            let mut want = vec![];
            for c in &content[next] { want.extend_from_slice(c); }
            sym::check(m < out.len(), "a message is delivered once it and its predecessors are complete");
            sym::check(eq(&out[m].data, &want), "the message is the fragments in their order");
            m += 1;
            next += 1;
        }
        sym::check(out.len() == m, "nothing incomplete, early or twice");
        if dup { sym::cover("duplicate fragment"); }
        if m > 1 { sym::cover("two messages at once"); }
    }
    if next == sizes.len() {
        sym::cover("all delivered");
        sym::check(q.get_fragment_queue_size() == 0 && q.get_ordered_packet() == 0, "no fragment is left behind");
    }
}

/// One long message, its fragments in arbitrary rotation and direction, any fragment first.
fn reassembly_long(n: usize) {
    let mut q = RecvQ::new();
    let b: Vec<u8> = (0..n).map(|_| sym::u8()).collect();
    let (start, back, id) = (sym::index(n as u64), sym::choice(2) == 1, sym::u16());
    for k in 0..n {
        let i = if back { (start + n - k) % n } else { (start + k) % n };
        let mut f = frame(Reliability::ReliableOrdered, k as u32, vec![b[i], i as u8]);
        f.flags |= 16;
        f.compound_size = n as u32;
        f.compound_id = id;
        f.fragment_index = i as u32;
        q.insert(f).unwrap();
        let out = q.flush(&peer());
        if k + 1 < n { sym::check(out.is_empty(), "incomplete message is held"); }
        else {
            let mut want = vec![];
            for j in 0..n { want.push(b[j]); want.push(j as u8); }
            sym::check(out.len() == 1 && eq(&out[0].data, &want), "long message reassembled");
            sym::cover("complete");
        }
    }
}

/// Very many fragments: in order, backwards, or with one late, beside another incomplete message.
fn reassembly_huge(n: usize, ways: u64) {
    let mut q = RecvQ::new();
    let way = sym::choice(ways);
    let salt = sym::u8();
    let mut f = frame(Reliability::ReliableOrdered, 0, vec![0xfe, salt]);
    f.flags |= 16;
    f.compound_size = 2;
    f.compound_id = 8;
    f.ordered_frame_index = 1;
    q.insert(f.clone()).unwrap();
    for k in 0..n {
        let i = match way { 0 => k, 1 => n - 1 - k, 2 => if k + 1 == n { 0 } else { k + 1 }, _ => (k * 3) % n };
        let mut f = frame(Reliability::ReliableOrdered, 1 + k as u32, vec![i as u8, (i >> 8) as u8, salt]);
        f.flags |= 16;
        f.compound_size = n as u32;
        f.compound_id = 7;
        f.fragment_index = i as u32;
        q.insert(f).unwrap();
        if k + 1 < n && k % 50 != 0 { continue; }
        let out = q.flush(&peer());
        if k + 1 < n { sym::check(out.is_empty(), "incomplete message is held"); }
        else {
            sym::check(out.len() == 1 && out[0].data.len() == 3 * n, "the long message is delivered");
            for j in 0..n { sym::check(eq(&out[0].data[3 * j..3 * j + 3], &[j as u8, (j >> 8) as u8, salt]), "long message reassembled"); }
        }
    }
    f.sequence_number = n as u32 + 1;
    f.fragment_index = 1;
    q.insert(f).unwrap();
    let out = q.flush(&peer());
    sym::check(out.len() == 1 && eq(&out[0].data, &[0xfe, salt, 0xfe, salt]), "and the one beside it");
    sym::cover("complete");
}

/// `n` split messages under way at once, their fragments interleaved.
fn reassembly_many(n: u16) {
    let mut q = RecvQ::new();
    let base = [0u16, 65_530][sym::index(2)];
    let salt = sym::u8();
    let odd = if n <= 40 { sym::index(n as u64) as u16 } else { [0, 1, n / 2, n - 1][sym::index(4)] };
    let part = |i: u16, k: u32, seq: u32| {
        let mut f = frame(Reliability::ReliableOrdered, seq, vec![0xfe, i as u8, (i >> 8) as u8, k as u8, salt]);
        f.flags |= 16;
        f.compound_size = 3;
        f.compound_id = base.wrapping_add(i);
        f.fragment_index = k;
        f.ordered_frame_index = i as u32;
        f
    };
    let mut seq = 0;
    let mut got = vec![];
    // one of them loses its middle part
    for k in 0..3u32 {
        for i in 0..n {
            if k == 1 && i == odd { continue; }
            q.insert(part(i, k, seq)).unwrap();
            seq += 1;
            if k == 2 {
                got.extend(q.flush(&peer()));
                sym::check(got.len() == (i + 1).min(odd) as usize, "a complete message is delivered at once");
            }
            if i % 7 == 0 && k < 2 { sym::check(q.flush(&peer()).is_empty(), "incomplete messages are held"); }
        }
    }
    sym::check(got.len() == odd as usize, "complete messages are delivered");
    q.insert(part(odd, 1, seq)).unwrap();
    got.extend(q.flush(&peer()));
    sym::check(got.len() == n as usize, "every message is delivered");
    for (i, f) in got.iter().enumerate() {
        let mut want = vec![];
        for k in 0..3 { want.extend([0xfe, i as u8, (i >> 8) as u8, k, salt]); }
        sym::check(eq(&f.data, &want), "of its own fragments");
    }
    sym::check(q.get_fragment_queue_size() == 0, "no fragment is left behind");
    sym::cover("complete");
}

/// Two split messages with any two different ids, their fragments interleaved in any way.
fn reassembly_ids() {
    let mut q = RecvQ::new();
    let ids = [sym::u16(), sym::u16()];
    sym::assume(ids[0] != ids[1]);
    let salt = sym::u8();
    let (mut at, mut next) = ([0u32; 2], 0);
    let back = [sym::choice(2) == 1, sym::choice(2) == 1];
    for k in 0..4 {
        let m = if at[0] == 2 { 1 } else if at[1] == 2 { 0 } else { sym::index(2) };
        let i = if back[m] { 1 - at[m] } else { at[m] };
        let mut f = frame(Reliability::ReliableOrdered, k, vec![0xfe, m as u8, i as u8, salt]);
        f.flags |= 16;
        f.compound_size = 2;
        f.compound_id = ids[m];
        f.fragment_index = i;
        f.ordered_frame_index = m as u32;
        f.reliable_frame_index = k;
        q.insert(f).unwrap();
        at[m] += 1;
        for o in q.flush(&peer()) {
            sym::check(next < 2 && at[next] == 2, "delivered when complete");
            sym::check(eq(&o.data, &[0xfe, next as u8, 0, salt, 0xfe, next as u8, 1, salt]), "of its own fragments");
            next += 1;
        }
    }
    sym::check(next == 2, "both are delivered");
    sym::cover("all delivered");
}

/// A message that a peer split although it is not ordered.
fn reassembly_unordered() {
    let mut q = RecvQ::new();
    let r = if sym::choice(2) == 0 { Reliability::Reliable } else { Reliability::ReliableSequenced };
    let mut got = vec![];
    for k in 0..2 {
        let mut f = frame(r.clone(), k, vec![0xfe, k as u8]);
        f.flags |= 16;
        f.compound_size = 2;
        f.compound_id = 7;
        f.fragment_index = k;
        f.reliable_frame_index = k;
        q.insert(f).unwrap();
        got.extend(q.flush(&peer()));
        sym::cover("arrival");
        if k == 0 { sym::check(got.is_empty(), "a part of a message is not handed out as a message"); }
    }
    sym::check(got.len() == 1 && eq(&got[0].data, &[0xfe, 0, 0xfe, 1]), "the message is the fragments in their order");
}

/// Fragment headers with arbitrary numbers never panic, and only announced sizes are merged.
fn fragments_hostile(n: usize) {
    let mut q = RecvQ::new();
    for k in 0..n {
        let mut f = frame(Reliability::ReliableOrdered, k as u32, vec![sym::u8()]);
        f.flags |= 16;
        f.compound_size = sym::u32();
        f.compound_id = sym::u16();
        f.fragment_index = sym::u32();
        f.ordered_frame_index = sym::range(0, MAX24) as u32;
        let r = q.insert(f);
        let out = q.flush(&peer());
        sym::check(out.len() <= k + 1, "no more messages than frames");
        if r.is_ok() { sym::cover("accepted"); }
        if !out.is_empty() { sym::cover("merged"); }
    }
}

// ---- acknowledgements ----------------------------------------------------------------------

fn covered(v: &[(u32, u32)], x: u32) -> bool {
    let mut r = false;
    for (a, b) in v { r |= *a <= x && x <= *b; }
    r
}

/// The same without a fork per range.
fn covered_many(v: &[(u32, u32)], x: u32) -> bool {
    let mut r = false;
    for (a, b) in v { r |= (*a <= x) & (x <= *b); }
    r
}

fn any_frame(seq: u32) -> FrameSetPacket {
    let k = sym::choice(6);
    let r = match k {
        0 => Reliability::Unreliable,
        1 => Reliability::UnreliableSequenced,
        2 => Reliability::Reliable,
        3 => Reliability::ReliableSequenced,
        _ => Reliability::ReliableOrdered,
    };
    let mut f = frame(r, seq, vec![0xfe]);
    f.ordered_frame_index = sym::range(0, MAX24) as u32;
    f.sequenced_frame_index = sym::range(0, MAX24) as u32;
    f.reliable_frame_index = sym::range(0, MAX24) as u32;
    if k == 5 {
        f.flags |= 16;
        f.compound_size = 2;
        f.fragment_index = sym::range(0, 1) as u32;
        f.compound_id = sym::u16();
    }
    f
}

/// What get_ack reports is exactly what arrived since the last report.
fn acks(n: usize, kinds: bool, span: u64) {
    let hi = if span < MAX24 { sym::choice(2) * (MAX24 - span) + span } else { MAX24 };
    let mut q = RecvQ::new();
    let probe = sym::range(hi - span, hi) as u32;
    let mut since: Vec<u32> = vec![];
    for k in 0..n {
        let seq = sym::range(hi - span, hi) as u32;
        let f = if kinds { any_frame(seq) } else { frame(Reliability::Reliable, seq, vec![0xfe]) };
        let _ = q.insert(f);
        since.push(seq);
        q.flush(&peer());
        if k + 1 < n && sym::choice(2) == 0 { continue; }
        let a = q.get_ack();
        let mut want = false;
        for s in &since { want |= *s == probe; }
        let got = covered(&a, probe);
        sym::check(!want || got, "everything received is acknowledged");
        sym::check(want || !got, "nothing else is acknowledged");
        for (x, y) in &a { sym::check(x <= y, "ranges are well formed"); }
        if since.len() > 1 && a.len() == 1 { sym::cover("merged range"); }
        since.clear();
    }
    sym::check(q.get_ack().is_empty(), "an acknowledgement is reported once");
    sym::cover("end");
}

/// Very many separate ranges between two reports: none is lost.
fn acks_many(n: u32) {
    let mut q = RecvQ::new();
    let step = 2 + sym::index(2) as u32;
    let probe = sym::range(0, (n * step) as u64 - 1) as u32;
    for k in 0..n {
        q.insert(frame(Reliability::Reliable, k * step, vec![0xfe])).unwrap();
        q.flush(&peer());
    }
    let (a, m) = (q.get_ack(), q.get_nack());
    let got = covered_many(&a, probe);
    sym::check(got == (probe % step == 0), "exactly what was received is acknowledged");
    let last = (n - 1) * step;
    sym::check(covered_many(&m, probe) == (probe % step != 0 && probe < last), "exactly what was skipped is reported missing");
    sym::check(q.get_ack().is_empty() && q.get_nack().is_empty(), "reported once");
    sym::cover("end");
}

/// What get_nack reports is exactly the numbers skipped, each once.
fn nacks(n: usize, span: u64) {
    let mut q = RecvQ::new();
    let probe = sym::range(1, span) as u32;
    let mut max = 0u32;
    let mut pend = 0u32;
    let mut late = false;
    let mut count = 0;
    for k in 0..n {
        let seq = sym::range(0, span) as u32;
        q.insert(frame(Reliability::Reliable, seq, vec![0xfe])).unwrap();
        q.flush(&peer());
        if seq > max {
            if probe > max && probe < seq { pend += 1; }
            max = seq;
        }
        // a number that arrives late, before the report, need not be reported
        late |= seq == probe;
        if k + 1 < n && sym::choice(2) == 0 { continue; }
        let v = q.get_nack();
        let mut c = 0;
        for (x, y) in &v {
            sym::check(x <= y, "ranges are well formed");
            if *x <= probe && probe <= *y { c += 1; }
        }
        sym::check(c == pend || (late && c == 0), "a number is reported missing exactly when it was skipped, and once");
        count += c;
        sym::check(count <= 1, "never reported twice");
        if c == 1 { sym::cover("gap"); }
        pend = 0;
    }
    sym::cover("end");
}

harnesses! {
    fn h_ordered() { ordered(5, true, false) }
    fn h_ordered_t() { ordered(7, true, false) }
    fn h_ordered_mixed() { ordered(3, false, true) }
    fn h_ordered_mixed_t() { ordered(4, false, true) }
    fn h_ordered_batch() { ordered(4, false, false) }
    fn h_ordered_batch_t() { ordered(6, false, false) }
    fn h_ordered_later() { ordered_later(300, 3) }
    fn h_ordered_later_t() { ordered_later(2000, 4) }
    fn h_ordered_backlog() { ordered_backlog(600, 3) }
    fn h_ordered_backlog_t() { ordered_backlog(1500, 8) }
    fn h_ordered_far() { ordered_far(65_534, 4) }
    fn h_ordered_far_t() { ordered_far(131_070, 4) }
    fn h_beside_backlog() { beside_backlog([40, 200, 1100][sym::index(3)]) }
    fn h_beside_backlog_t() { beside_backlog([2500, 5000][sym::index(2)]) }
    fn h_reassembly_unordered() { reassembly_unordered() }
    fn h_reassembly_ids() { reassembly_ids() }
    fn h_sequenced() { sequenced(5, false) }
    fn h_sequenced_t() { sequenced(7, false) }
    fn h_sequenced_mixed() { sequenced(3, true) }
    fn h_sequenced_mixed_t() { sequenced(4, true) }
    fn h_immediate() { immediate(3) }
    fn h_immediate_t() { immediate(4) }
    fn h_reliable_again() { reliable_again() }
    fn h_reassembly() { reassembly(&[3, 0, 2], 6, 65535, true) }
    fn h_reassembly_dup() { reassembly(&[2, 2], 6, 7, false) }
    fn h_reassembly_dup_t() { reassembly(&[2, 3, 0], 8, 7, false) }
    fn h_reassembly_perm() { reassembly(&[5], 5, 0, true) }
    fn h_reassembly_perm_t() { reassembly(&[4, 3], 7, 0, true) }
    fn h_reassembly_long() { reassembly_long(40) }
    fn h_reassembly_long_t() { reassembly_long(256) }
    fn h_reassembly_huge() { reassembly_huge(300, 3) }
    fn h_reassembly_huge_t() { reassembly_huge(1100, 4) }
    fn h_reassembly_many() { reassembly_many(40) }
    fn h_reassembly_crowd() { reassembly_many(300) }
    fn h_reassembly_many_t() { reassembly_many(400) }
    fn h_fragments_hostile() { fragments_hostile(3) }
    fn h_fragments_hostile_t() { fragments_hostile(4) }
    fn h_acks() { acks(4, false, 15) }
    fn h_acks_t() { acks(5, false, 31) }
    fn h_acks_any() { acks(3, false, MAX24) }
    fn h_acks_kinds() { acks(2, true, MAX24) }
    fn h_acks_kinds_t() { acks(3, true, MAX24) }
    fn h_acks_many() { acks_many(300) }
    fn h_acks_many_t() { acks_many(1000) }
    fn h_nacks() { nacks(4, 15) }
    fn h_nacks_t() { nacks(6, 31) }
    fn h_nacks_any() { nacks(3, MAX24) }
    fn h_nacks_any_t() { nacks(4, MAX24) }
}
