//! Wire format: frames, acknowledgements, control messages.
use crate::sym;
use rust_raknet::verif::arq::*;
use rust_raknet::verif::packet::*;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

const MAGIC: [u8; 16] = [
    0x00, 0xff, 0xff, 0x00, 0xfe, 0xfe, 0xfe, 0xfe, 0xfd, 0xfd, 0xfd, 0xfd, 0x12, 0x34, 0x56, 0x78,
];

// ---- an independent encoder, written from the protocol description -------------------------

pub struct Enc(pub Vec<u8>);
impl Enc {
    pub fn new(id: u8) -> Enc { Enc(vec![id]) }
    pub fn u8(mut self, v: u8) -> Enc { self.0.push(v); self }
    pub fn b16(mut self, v: u16) -> Enc { self.0.push((v >> 8) as u8); self.0.push(v as u8); self }
    pub fn l24(mut self, v: u32) -> Enc { self.0.push(v as u8); self.0.push((v >> 8) as u8); self.0.push((v >> 16) as u8); self }
    pub fn b32(self, v: u32) -> Enc { self.b16((v >> 16) as u16).b16(v as u16) }
    pub fn b64(self, v: u64) -> Enc { self.b32((v >> 32) as u32).b32(v as u32) }
    pub fn magic(mut self) -> Enc { for b in MAGIC { self.0.push(b); } self }
    pub fn raw(mut self, v: &[u8]) -> Enc { for b in v { self.0.push(*b); } self }
    pub fn addr(self, a: &SocketAddr) -> Enc {
        match a.ip() {
            IpAddr::V4(ip) => {
                let o = ip.octets();
                self.u8(4).u8(!o[0]).u8(!o[1]).u8(!o[2]).u8(!o[3]).b16(a.port())
            }
            IpAddr::V6(ip) => self.u8(6).u8(23).u8(0).b16(a.port()).b32(0).raw(&ip.octets()).b32(0),
        }
    }
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}

pub fn any_addr() -> SocketAddr {
    let port = sym::u16();
    if sym::choice(2) == 0 {
        sym::cover("ipv4");
        SocketAddr::new(IpAddr::V4(Ipv4Addr::new(sym::u8(), sym::u8(), sym::u8(), sym::u8())), port)
    } else {
        sym::cover("ipv6");
        let mut o = [0u8; 16];
        for x in o.iter_mut() { *x = sym::u8(); }
        SocketAddr::new(IpAddr::V6(Ipv6Addr::from(o)), port)
    }
}

pub fn same_addr(a: &SocketAddr, b: &SocketAddr) -> bool {
    if a.port() != b.port() { return false; }
    match (a.ip(), b.ip()) {
        (IpAddr::V4(x), IpAddr::V4(y)) => eq(&x.octets(), &y.octets()),
        (IpAddr::V6(x), IpAddr::V6(y)) => eq(&x.octets(), &y.octets()),
        _ => false,
    }
}

fn any_reliability() -> Reliability {
    match sym::choice(5) {
        0 => Reliability::Unreliable,
        1 => Reliability::UnreliableSequenced,
        2 => Reliability::Reliable,
        3 => Reliability::ReliableOrdered,
        _ => Reliability::ReliableSequenced,
    }
}

pub struct Hdr { rel: u8, frag: bool }

fn any_frame(len: usize, symbolic: bool) -> (FrameSetPacket, Hdr) {
    let r = any_reliability();
    let rel = r.to_u8();
    let data: Vec<u8> = if symbolic { sym::bytes(len) } else { (0..len).map(|i| i as u8).collect() };
    let mut f = FrameSetPacket::new(r, data);
    let frag = sym::choice(2) == 1;
    f.sequence_number = sym::range(0, 0xff_ffff) as u32;
    f.reliable_frame_index = sym::range(0, 0xff_ffff) as u32;
    f.sequenced_frame_index = sym::range(0, 0xff_ffff) as u32;
    f.ordered_frame_index = sym::range(0, 0xff_ffff) as u32;
    f.order_channel = sym::u8();
    if frag {
        f.flags |= 16;
        f.compound_size = sym::u32();
        f.compound_id = sym::u16();
        f.fragment_index = sym::u32();
    }
    (f, Hdr { rel, frag })
}

fn body(e: Enc, f: &FrameSetPacket, h: &Hdr) -> Enc {
    let mut e = e.u8(h.rel << 5 | if h.frag { 16 } else { 0 }).b16((f.data.len() * 8) as u16);
    if h.rel >= 2 { e = e.l24(f.reliable_frame_index); }
    if h.rel == 1 || h.rel == 4 { e = e.l24(f.sequenced_frame_index); }
    if h.rel == 1 || h.rel >= 3 { e = e.l24(f.ordered_frame_index).u8(f.order_channel); }
    if h.frag { e = e.b32(f.compound_size).b16(f.compound_id).b32(f.fragment_index); }
    e.raw(&f.data)
}

fn same_frame(g: &FrameSetPacket, f: &FrameSetPacket, h: &Hdr, seq: u32) {
    sym::check(g.sequence_number == seq, "sequence number survives");
    sym::check(g.flags == f.flags, "flags survive");
    sym::check(g.is_fragment() == h.frag, "fragment flag survives");
    sym::check(g.reliability().is_ok() && g.reliability().unwrap().to_u8() == h.rel, "reliability survives");
    if h.rel >= 2 { sym::check(g.reliable_frame_index == f.reliable_frame_index, "reliable index survives"); }
    if h.rel == 1 || h.rel == 4 { sym::check(g.sequenced_frame_index == f.sequenced_frame_index, "sequenced index survives"); }
    if h.rel == 1 || h.rel >= 3 {
        sym::check(g.ordered_frame_index == f.ordered_frame_index, "ordered index survives");
        sym::check(g.order_channel == f.order_channel, "order channel survives");
    }
    if h.frag {
        sym::check(g.compound_size == f.compound_size, "compound size survives");
        sym::check(g.compound_id == f.compound_id, "compound id survives");
        sym::check(g.fragment_index == f.fragment_index, "fragment index survives");
    }
    sym::check(eq(&g.data, &f.data), "payload survives");
}

fn frame_roundtrip(len: usize, symbolic: bool) {
    let (f, h) = any_frame(len, symbolic);
    let buf = f.serialize().unwrap();
    let v = FrameVec::new(buf).unwrap();
    sym::check(v.frames.len() == 1, "one frame in, one frame out");
    sym::check(v.sequence_number == f.sequence_number, "datagram sequence number");
    same_frame(&v.frames[0], &f, &h, f.sequence_number);
    sym::cover(if h.frag { "fragment" } else { "whole" });
}

fn frame_layout(len: usize, symbolic: bool) {
    let (f, h) = any_frame(len, symbolic);
    let buf = f.serialize().unwrap();
    // the continuous-send bit marks every fragment but the first
    let id = if h.frag && f.fragment_index != 0 { 0x8c } else { 0x84 };
    sym::check(buf[0] == id, "datagram id marks a frame set");
    let exp = body(Enc::new(buf[0]).l24(f.sequence_number), &f, &h).0;
    sym::check(buf.len() == exp.len(), "frame length on the wire");
    sym::check(eq(&buf, &exp), "frame bytes on the wire");
    // 28 bytes of UDP/IP overhead + header must leave room for mtu - 60 bytes of payload
    sym::check(buf.len() - len + 28 <= 60, "header overhead fits the reserved 60 bytes");
    sym::cover(if h.frag { "fragment" } else { "whole" });
}

fn frames_datagram(n: usize, maxlen: u64) {
    // a datagram with several frames, as other implementations send
    let seq = sym::range(0, 0xff_ffff) as u32;
    let mut e = Enc::new(0x84).l24(seq);
    let mut fs = vec![];
    for _ in 0..n {
        let len = sym::index(maxlen + 1);
        let (f, h) = any_frame(len, true);
        e = body(e, &f, &h);
        fs.push((f, h));
    }
    let v = FrameVec::new(e.0).unwrap();
    sym::check(v.frames.len() == n, "every frame of a datagram is parsed");
    for (i, (f, h)) in fs.iter().enumerate() {
        same_frame(&v.frames[i], f, h, seq);
    }
    sym::cover("parsed");
}

/// A received datagram can be written again.
fn rewrite(maxlen: u64) {
    let seq = sym::range(0, 0xff_ffff) as u32;
    let mut e = Enc::new(0x84).l24(seq);
    for _ in 0..2 {
        let len = 1 + sym::index(maxlen);
        let (f, h) = any_frame(len, true);
        e = body(e, &f, &h);
    }
    let v = FrameVec::new(e.0.clone()).unwrap();
    let b = v._serialize().unwrap();
    sym::check(b[0] >= 0x80 && b[0] <= 0x8d && eq(&b[1..], &e.0[1..]), "a decoded datagram is encoded to the same bytes");
    sym::cover("end");
}

const SIZES: [usize; 14] = [0, 1, 31, 32, 255, 256, 1023, 1024, 1340, 1464, 2047, 2048, 4096, 8191];

fn any_ranges(n: u64) -> Vec<(u32, u32)> {
    let n = sym::choice(n + 1);
    let mut v = vec![];
    for _ in 0..n {
        let a = sym::range(0, 0xff_ffff) as u32;
        let b = sym::range(0, 0xff_ffff) as u32;
        sym::assume(a <= b);
        v.push((a, b));
    }
    v
}

fn same_ranges(a: &[(u32, u32)], b: &[(u32, u32)]) -> bool {
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= (a[i].0 == b[i].0) & (a[i].1 == b[i].1); }
    ok
}

fn enc_ranges(id: u8, v: &[(u32, u32)]) -> Vec<u8> {
    let mut e = Enc::new(id).b16(v.len() as u16);
    for &(a, b) in v {
        e = if a == b { e.u8(1).l24(a) } else { e.u8(0).l24(a).l24(b) };
    }
    e.0
}

fn ack_codec(n: u64) {
    let v = any_ranges(n);
    let exp;
    let got;
    if sym::choice(2) == 0 {
        let b = write_packet_ack(&Ack { record_count: v.len() as u16, sequences: v.clone() }).unwrap();
        exp = enc_ranges(0xc0, &v);
        sym::check(eq(&b, &exp), "ACK bytes on the wire");
        let r = read_packet_ack(&b).unwrap();
        sym::check(r.record_count as usize == v.len(), "ACK record count");
        got = r.sequences;
        sym::cover("ack");
    } else {
        let b = write_packet_nack(&Nack { record_count: v.len() as u16, sequences: v.clone() }).unwrap();
        exp = enc_ranges(0xa0, &v);
        sym::check(eq(&b, &exp), "NACK bytes on the wire");
        let r = read_packet_nack(&b).unwrap();
        sym::check(r.record_count as usize == v.len(), "NACK record count");
        got = r.sequences;
        sym::cover("nack");
    }
    sym::check(same_ranges(&got, &v), "acknowledged ranges survive");
}

/// A long report: `n` records, one of them arbitrary.
fn ack_codec_many(n: usize) {
    let mut v: Vec<(u32, u32)> = (0..n as u32).map(|i| (i * 50, i * 50 + if i % 3 == 0 { 0 } else { i % 40 })).collect();
    let (a, b) = (sym::range(0, 0xff_ffff) as u32, sym::range(0, 0xff_ffff) as u32);
    sym::assume(a <= b);
    v[[0, n / 2, n - 1][sym::index(3)]] = (a, b);
    let ack = sym::choice(2) == 0;
    let b = if ack { write_packet_ack(&Ack { record_count: n as u16, sequences: v.clone() }) } else { write_packet_nack(&Nack { record_count: n as u16, sequences: v.clone() }) }.unwrap();
    sym::check(eq(&b, &enc_ranges(if ack { 0xc0 } else { 0xa0 }, &v)), "bytes on the wire");
    let got = if ack { read_packet_ack(&b).unwrap().sequences } else { read_packet_nack(&b).unwrap().sequences };
    sym::check(same_ranges(&got, &v), "acknowledged ranges survive");
    sym::cover(if ack { "ack" } else { "nack" });
}

fn control(k: u64) {
    match k {
        0 => {
            let p = PacketUnconnectedPing { time: sym::u64() as i64, magic: true, guid: sym::u64() };
            let b = write_packet_ping(&p).unwrap();
            sym::check(eq(&b, &Enc::new(1).b64(p.time as u64).magic().b64(p.guid).0), "ping bytes");
            let r = read_packet_ping(&b).unwrap();
            sym::check(r.time == p.time && r.magic && r.guid == p.guid, "ping round trip");
        }
        1 => {
            let n = [0, 1, 2, 3, 4, 127, 128, 255, 256, 1500, 32_768, 65_535][sym::index(12)];
            let raw: Vec<u8> = (0..n).map(|i| if i < 4 { sym::range(0, 127) as u8 } else { 32 + (i % 90) as u8 }).collect();
            let motd = unsafe { String::from_utf8_unchecked(raw.clone()) };
            let p = PacketUnconnectedPong { time: sym::u64() as i64, guid: sym::u64(), magic: true, motd };
            let b = write_packet_pong(&p).unwrap();
            let e = Enc::new(0x1c).b64(p.time as u64).b64(p.guid).magic().b16(n as u16).raw(&raw);
            sym::check(eq(&b, &e.0), "pong bytes");
            let r = read_packet_pong(&b).unwrap();
            sym::check(r.time == p.time && r.magic && r.guid == p.guid, "pong round trip");
            sym::check(eq(r.motd.as_bytes(), &raw), "pong motd round trip");
        }
        2 => {
            let mtu = [46u16, 47, 500, 1400, 1492][sym::index(5)];
            let p = OpenConnectionRequest1 { magic: true, protocol_version: sym::u8(), mtu_size: mtu };
            let b = write_packet_connection_open_request_1(&p).unwrap();
            let e = Enc::new(5).magic().u8(p.protocol_version).raw(&vec![0; mtu as usize - 46]);
            sym::check(eq(&b, &e.0), "open request 1 bytes");
            let r = read_packet_connection_open_request_1(&b).unwrap();
            sym::check(r.magic && r.protocol_version == p.protocol_version && r.mtu_size == mtu, "open request 1 round trip");
        }
        3 => {
            let p = OpenConnectionReply1 { magic: true, guid: sym::u64(), use_encryption: sym::u8(), mtu_size: sym::u16() };
            let b = write_packet_connection_open_reply_1(&p).unwrap();
            let e = Enc::new(6).magic().b64(p.guid).u8(p.use_encryption).b16(p.mtu_size);
            sym::check(eq(&b, &e.0), "open reply 1 bytes");
            let r = read_packet_connection_open_reply_1(&b).unwrap();
            sym::check(r.magic && r.guid == p.guid && r.use_encryption == p.use_encryption && r.mtu_size == p.mtu_size, "open reply 1 round trip");
        }
        4 => {
            let p = OpenConnectionRequest2 { magic: true, address: any_addr(), mtu: sym::u16(), guid: sym::u64() };
            let b = write_packet_connection_open_request_2(&p).unwrap();
            let e = Enc::new(7).magic().addr(&p.address).b16(p.mtu).b64(p.guid);
            sym::check(eq(&b, &e.0), "open request 2 bytes");
            let r = read_packet_connection_open_request_2(&b);
            sym::check(r.is_ok(), "open request 2 parses");
            if let Ok(r) = r {
                sym::check(r.magic && r.mtu == p.mtu && r.guid == p.guid, "open request 2 round trip");
                sym::check(same_addr(&r.address, &p.address), "open request 2 address");
            }
        }
        5 => {
            let p = OpenConnectionReply2 { magic: true, guid: sym::u64(), address: any_addr(), mtu: sym::u16(), encryption_enabled: sym::u8() };
            let b = write_packet_connection_open_reply_2(&p).unwrap();
            let e = Enc::new(8).magic().b64(p.guid).addr(&p.address).b16(p.mtu).u8(p.encryption_enabled);
            sym::check(eq(&b, &e.0), "open reply 2 bytes");
            let r = read_packet_connection_open_reply_2(&b);
            sym::check(r.is_ok(), "open reply 2 parses");
            if let Ok(r) = r {
                sym::check(r.magic && r.mtu == p.mtu && r.guid == p.guid && r.encryption_enabled == p.encryption_enabled, "open reply 2 round trip");
                sym::check(same_addr(&r.address, &p.address), "open reply 2 address");
            }
        }
        6 => {
            let p = ConnectionRequest { guid: sym::u64(), time: sym::u64() as i64, use_encryption: sym::u8() };
            let b = write_packet_connection_request(&p).unwrap();
            sym::check(eq(&b, &Enc::new(9).b64(p.guid).b64(p.time as u64).u8(p.use_encryption).0), "connection request bytes");
            let r = read_packet_connection_request(&b).unwrap();
            sym::check(r.guid == p.guid && r.time == p.time && r.use_encryption == p.use_encryption, "connection request round trip");
        }
        7 => {
            let p = ConnectionRequestAccepted { client_address: any_addr(), system_index: sym::u16(), request_timestamp: sym::u64() as i64, accepted_timestamp: sym::u64() as i64 };
            let b = write_packet_connection_request_accepted(&p).unwrap();
            let mut e = Enc::new(0x10).addr(&p.client_address).b16(p.system_index);
            // ten internal addresses of any value, then the two time stamps
            let at = e.0.len();
            sym::check(b.len() == at + 10 * 7 + 16, "connection accepted length");
            for i in 0..10 { sym::check(b[at + 7 * i] == 4, "connection accepted internal addresses"); }
            e = e.raw(&b[at..at + 70]).b64(p.request_timestamp as u64).b64(p.accepted_timestamp as u64);
            sym::check(eq(&b, &e.0), "connection accepted bytes");
            let r = read_packet_connection_request_accepted(&b);
            sym::check(r.is_ok(), "connection accepted parses");
            if let Ok(r) = r {
                sym::check(r.system_index == p.system_index, "connection accepted round trip");
                sym::check(same_addr(&r.client_address, &p.client_address), "connection accepted address");
            }
        }
        8 => {
            let p = NewIncomingConnection { server_address: any_addr(), request_timestamp: sym::u64() as i64, accepted_timestamp: sym::u64() as i64 };
            let b = write_packet_new_incomming_connection(&p).unwrap();
            let e = Enc::new(0x13).addr(&p.server_address);
            let at = e.0.len();
            sym::check(b.len() == at + 10 * 7 + 16, "new incoming connection length");
            for i in 0..10 { sym::check(b[at + 7 * i] == 4, "new incoming connection internal addresses"); }
            let e = e.raw(&b[at..at + 70]).b64(p.request_timestamp as u64).b64(p.accepted_timestamp as u64);
            sym::check(eq(&b, &e.0), "new incoming connection bytes");
            let r = read_packet_new_incomming_connection(&b);
            sym::check(r.is_ok(), "new incoming connection parses");
            if let Ok(r) = r {
                sym::check(r.request_timestamp == p.request_timestamp && r.accepted_timestamp == p.accepted_timestamp, "new incoming connection round trip");
                sym::check(same_addr(&r.server_address, &p.server_address), "new incoming connection address");
            }
        }
        9 => {
            let p = ConnectedPing { client_timestamp: sym::u64() as i64 };
            let b = write_packet_connected_ping(&p).unwrap();
            sym::check(eq(&b, &Enc::new(0).b64(p.client_timestamp as u64).0), "connected ping bytes");
            sym::check(read_packet_connected_ping(&b).unwrap().client_timestamp == p.client_timestamp, "connected ping round trip");
        }
        10 => {
            let p = ConnectedPong { client_timestamp: sym::u64() as i64, server_timestamp: sym::u64() as i64 };
            let b = write_packet_connected_pong(&p).unwrap();
            sym::check(eq(&b, &Enc::new(3).b64(p.client_timestamp as u64).b64(p.server_timestamp as u64).0), "connected pong bytes");
            let r = _read_packet_connected_pong(&b).unwrap();
            sym::check(r.client_timestamp == p.client_timestamp && r.server_timestamp == p.server_timestamp, "connected pong round trip");
        }
        11 => {
            let p = AlreadyConnected { magic: true, guid: sym::u64() };
            let b = write_packet_already_connected(&p).unwrap();
            sym::check(eq(&b, &Enc::new(0x12).magic().b64(p.guid).0), "already connected bytes");
            let r = _read_packet_already_connected(&b).unwrap();
            sym::check(r.magic && r.guid == p.guid, "already connected round trip");
        }
        _ => {
            let p = IncompatibleProtocolVersion { server_protocol: sym::u8(), magic: true, server_guid: sym::u64() };
            let b = write_packet_incompatible_protocol_version(&p).unwrap();
            sym::check(eq(&b, &Enc::new(0x19).u8(p.server_protocol).magic().b64(p.server_guid).0), "incompatible version bytes");
            let r = read_packet_incompatible_protocol_version(&b).unwrap();
            sym::check(r.magic && r.server_guid == p.server_guid && r.server_protocol == p.server_protocol, "incompatible version round trip");
        }
    }
}

fn decode(k: u64, b: &[u8]) -> bool {
    match k {
        0 => read_packet_ping(b).is_ok(),
        1 => read_packet_pong(b).is_ok(),
        2 => read_packet_connection_open_request_1(b).is_ok(),
        3 => read_packet_connection_open_request_2(b).is_ok(),
        4 => read_packet_connection_open_reply_1(b).is_ok(),
        5 => read_packet_connection_open_reply_2(b).is_ok(),
        6 => read_packet_incompatible_protocol_version(b).is_ok(),
        7 => read_packet_nack(b).is_ok(),
        8 => read_packet_ack(b).is_ok(),
        9 => read_packet_connection_request(b).is_ok(),
        10 => read_packet_connection_request_accepted(b).is_ok(),
        11 => read_packet_new_incomming_connection(b).is_ok(),
        12 => read_packet_connected_ping(b).is_ok(),
        _ => FrameVec::new(b.to_vec()).is_ok(),
    }
}

fn decode_any(k: u64, n: u64) {
    let len = sym::index(n + 1);
    let b = sym::bytes(len);
    if decode(k, &b) { sym::cover("accepted"); } else { sym::cover("rejected"); }
}

/// A well-formed message of every kind, one byte replaced, cut at any length.
fn decode_mutated() {
    let a: SocketAddr = if sym::choice(2) == 0 { "1.2.3.4:19132".parse().unwrap() } else { "[1:2:3:4:5:6:7:8]:19132".parse().unwrap() };
    let k = sym::choice(14);
    let mut b = match k {
        0 => Enc::new(1).b64(7).magic().b64(9).0,
        1 => Enc::new(0x1c).b64(7).b64(9).magic().b16(4).raw(b"motd").0,
        2 => Enc::new(5).magic().u8(10).raw(&[0; 20]).0,
        3 => Enc::new(7).magic().addr(&a).b16(1400).b64(9).0,
        4 => Enc::new(6).magic().b64(9).u8(0).b16(1400).0,
        5 => Enc::new(8).magic().b64(9).addr(&a).b16(1400).u8(0).0,
        6 => Enc::new(0x19).u8(10).magic().b64(9).0,
        7 => enc_ranges(0xa0, &[(1, 1), (3, 5), (9, 9)]),
        8 => enc_ranges(0xc0, &[(1, 1), (3, 5), (9, 9)]),
        9 => Enc::new(9).b64(9).b64(7).u8(0).0,
        10 => Enc::new(0x10).addr(&a).b16(0).addr(&a).addr(&a).b64(1).b64(2).0,
        11 => {
            let mut e = Enc::new(0x13);
            for _ in 0..11 { e = e.addr(&a); }
            e.b64(1).b64(2).0
        }
        12 => Enc::new(0).b64(7).0,
        _ => Enc::new(0x84).l24(5).u8(0x70).b16(16).l24(1).l24(2).u8(0).b32(2).b16(0).b32(1).raw(&[1, 2])
            .u8(0x80).b16(8).l24(1).l24(2).l24(2).u8(0).raw(&[1]).0,
    };
    if k < 13 && sym::choice(2) == 0 {
        let cut = sym::index(b.len() as u64);
        b.truncate(cut);
    } else {
        let i = sym::index(b.len() as u64);
        b[i] = sym::u8();
        if k == 13 {
            let cut = sym::index(b.len() as u64 + 1);
            b.truncate(cut);
        }
    }
    if decode(k, &b) { sym::cover("accepted"); } else { sym::cover("rejected"); }
}

harnesses! {
    fn h_frame_roundtrip() { let n = sym::index(7); frame_roundtrip(n, true) }
    fn h_frame_roundtrip_big() { let n = SIZES[sym::index(14)]; frame_roundtrip(n, false) }
    fn h_frame_layout() { let n = sym::index(7); frame_layout(n, true) }
    fn h_frame_layout_big() { let n = SIZES[sym::index(14)]; frame_layout(n, false) }
    fn h_rewrite() { rewrite(2) }
    fn h_frames_datagram() { frames_datagram(2, 2) }
    fn h_frames_datagram_t() { frames_datagram(3, 3) }
    fn h_ack_codec() { ack_codec(4) }
    fn h_ack_codec_t() { ack_codec(8) }
    fn h_ack_codec_many() { ack_codec_many([256, 300][sym::index(2)]) }
    fn h_ack_codec_many_t() { ack_codec_many([1000, 9000][sym::index(2)]) }
    fn h_control() { control(sym::choice(13)) }
    fn h_decode_control_any() { decode_any(sym::choice(13), 44) }
    fn h_decode_frames_any() { decode_any(13, 24) }
    fn h_decode_frames_any_t() { decode_any(13, 30) }
    fn h_decode_mutated() { decode_mutated() }
}
