//! C10-C13, C15, C20: frames over a faulty link, a discrete-event simulation of a sender, any
//! number of relays and a receiver, with real encoding, decoding and receive buffers at each of them.
use crate::engine::*;
use crate::model::*;
use crate::{ev, rt};
use binate::connection::sim::SimBufList;
use binate::frame::{DecodeError, Encode, Frame};
use bytes::{Buf, Bytes, BytesMut};

type Verdict = Result<Frame, DecodeError>;

/// What the link may do to the frames of a run: chances in 1/16.
struct Weather { drop: u32, dup: u32, delay: u32, damage: u32, cut_only: bool, large: bool }

struct Packet { at: u64, origin: Option<usize>, damaged: bool, bytes: Bytes }

pub fn hash_bytes(b: &Bytes) -> u64 { b.iter().take(64).fold(b.len() as u64, |a, x| mix(a ^ *x as u64)) }

/// Cuts bytes into segments, as a transport would deliver them.
pub fn cut_up(b: &Bytes) -> Vec<Bytes> {
    let n = b.len();
    let mut at = vec![0usize];
    match below(5) {
        0 => (),
        1 => at.push(below(n + 1)),
        2 => for _ in 0..1 + below(8) { at.push(below(n + 1)); },
        3 => at.extend(0..n.min(pick(&[40usize, 40, 140, 600]))), // byte by byte
        _ => { // small pieces of one size, around the header and the lengths
            let step = 1 + below(7);
            at.extend((0..n.min(80)).step_by(step));
            if n > 10 { at.push(n - 1 - below(9.min(n - 1))); }
        }
    }
    at.push(n);
    at.sort_unstable();
    at.dedup();
    let out: Vec<Bytes> = at.windows(2).map(|w| b.slice(w[0]..w[1])).collect();
    if out.len() > 1 { probe("link.segmented"); }
    out
}
pub fn buffer(segs: &[Bytes]) -> SimBufList {
    let mut l = SimBufList::new();
    for s in segs { if !s.is_empty() { l.push(s.clone()); } }
    l
}
/// A segment that arrives in whatever form the transport keeps it. (Rings show only their first part to
/// vectored reads, in `bytes` itself already, so they are left out where those are made.)
pub type Seg = Box<dyn Buf + Send>;
pub fn segment(b: Bytes, depth: u32, rings: bool) -> Seg {
    let n = b.len();
    match if n == 0 { 0 } else { below(9) } {
        0 | 1 => Box::new(b),
        2 if rings => { let mut q = std::collections::VecDeque::with_capacity(n + 1); let off = below(n + 1); for _ in 0..off { q.push_back(0); } for _ in 0..off { q.pop_front(); } q.extend(b.iter().copied()); Box::new(q) }
        3 => Box::new(std::io::Cursor::new(b.to_vec())),
        4 => { let mut v = b.to_vec(); v.extend_from_slice(b"beyond"); Box::new(Bytes::from(v).take(n)) }
        5 if depth < 2 => { // a buffer like this one
            let mut l: SimBufList<Seg> = SimBufList::new();
            for s in cut_up(&b) { l.push(segment(s, depth + 1, rings)); }
            Box::new(l)
        }
        6 => { let mut v = b"before".to_vec(); v.extend_from_slice(&b); let mut c = std::io::Cursor::new(v); c.set_position(6); Box::new(c) }
        _ if depth < 3 => { let i = below(n + 1); Box::new(segment(b.slice(..i), depth + 1, rings).chain(segment(b.slice(i..), depth + 1, rings))) }
        _ => Box::new(BytesMut::from(&b[..])),
    }
}

/// Damages bytes in one to three ways.
pub fn damage(b: &Bytes, other: &Bytes, cut_only: bool) -> Bytes {
    let mut v: Vec<u8> = b.to_vec();
    if cut_only {
        let n = v.len();
        let keep = match below(4) { 0 => below(n), 1 => below(n.min(24)), 2 => n.saturating_sub(1 + below(4)), _ => below(n.min(7)) };
        v.truncate(keep);
        fault("frame cut short");
        return v.into();
    }
    for _ in 0..1 + below(3) {
        let n = v.len();
        match below(20) {
            0 => { for _ in 0..1 + below(4) { if n > 0 { let i = below(n); v[i] ^= 1 << below(8); } } fault("bits flipped"); }
            1 | 2 => { for _ in 0..1 + below(2) { if n > 0 { let i = below(n.min(16)); v[i] ^= 1 << below(8); } } fault("header bits flipped"); }
            3 => { if n > 0 { let i = if chance(1, 2) { below(n) } else { below(n.min(28)) }; v[i] = pick(&[0, 1, 2, 0x7F, 0x80, 0xFF, 0xFE]); } fault("byte overwritten"); }
            4 => { v.truncate(if chance(1, 2) { below(n + 1) } else { n.saturating_sub(1 + below(3)) }); fault("frame cut short"); }
            5 => { let i = below(n + 1); let ins = content(choose(999), 1 + below(6)); v.splice(i..i, ins); fault("bytes inserted"); }
            6 => { let i = below(n + 1); let k = (1 + below(6)).min(n - i); v.drain(i..i + k); fault("bytes removed"); }
            7 => { let i = below(n + 1); let k = below(n - i + 1).min(40); let d = v[i..i + k].to_vec(); v.splice(i..i, d); fault("bytes repeated"); }
            8 => { let i = below(n + 1); let j = below(other.len() + 1); v.truncate(i); v.extend_from_slice(&other[j..]); fault("spliced with another frame"); }
            9 | 10 => { if n > 5 { let t = below(64) as u8; v[4] = t << 2 | v[4] & 3; } fault("frame type overwritten"); }
            11 => { if n > 3 { let s: u32 = match below(5) { 0 => 0, 1 => 1, 2 => MAX31, 3 => 0x8000_0000, _ => gen_sid() }; v[..4].copy_from_slice(&s.to_be_bytes()); } fault("stream id overwritten"); }
            12 => { // what may be a length field
                let i = 6 + below(24);
                if i + 3 <= n {
                    let l: u32 = match below(6) { 0 => 0, 1 => 0xFF_FFFF, 2 => (n - i - 3) as u32, 3 => (n - i - 2) as u32, 4 => (n - i).saturating_sub(4) as u32, _ => choose(0xFFFF) };
                    v[i..i + 3].copy_from_slice(&l.to_be_bytes()[1..]);
                }
                fault("length overwritten");
            }
            13 | 14 => { // a field of four bytes, at the places where fields start
                let i = 6 + 4 * below(6);
                if i + 4 <= n { v[i..i + 4].copy_from_slice(&gen_special().to_be_bytes()); }
                fault("field overwritten");
            }
            15 | 16 => { // an error frame with any code on any stream
                let s = pick(&[0u32, 0, 1, 2, MAX31, 0x8000_0000]);
                let mut e = s.to_be_bytes().to_vec();
                e.extend_from_slice(&(11u16 << 10 | if chance(1, 4) { choose(1 << 10) as u16 } else { 0 }).to_be_bytes());
                e.extend_from_slice(&gen_code().to_be_bytes());
                e.extend_from_slice(&content(choose(99), pick(&[0usize, 0, 1, 5, 200])));
                v = e;
                fault("replaced by an error frame");
            }
            17 | 18 => { // little is left after the header, or after the first fields
                let keep = match below(4) { 0 | 1 => 6, 2 => 6 + below(20), _ => n.saturating_sub(below(5)) };
                if n >= 6 {
                    if chance(1, 2) { v[4] = ((1 + below(14)) as u8) << 2 | v[4] & 3; if chance(1, 2) { v[..4].fill(0); } }
                    v.truncate(keep);
                    for _ in 0..below(6) { v.push(pick(&[0u8, 1, 2, 3, 0x7F, 0x80, 0xFF, 0xFE, 0x40, 0xC0])); }
                }
                fault("tail replaced by a few bytes");
            }
            _ => { v = content(choose(1 << 20), below(48)).to_vec(); if chance(1, 2) && v.len() > 5 { v[4] = ((1 + below(14)) as u8) << 2 | v[4] & 3; if chance(1, 2) { v[..4].fill(0); } } fault("replaced by noise"); }
        }
    }
    v.into()
}

/// Values at which a field's meaning changes.
fn gen_special() -> u32 {
    match below(6) {
        0 => pick(&[0, 1, 0xFFFF_FFFF, 0x8000_0000, MAX31, 0x8000_0001, MAX31 - 1]),
        1 => 1 << below(32),
        2 => (1u32 << below(32)).wrapping_sub(1),
        3 => gen_code(),
        4 => u32::from_be_bytes([pick(&[0, 0x7F, 0x80, 0xFF, 1]), pick(&[0, 0x7F, 0x80, 0xFF, 1]), pick(&[0, 0x7F, 0x80, 0xFF, 1]), pick(&[0, 0x7F, 0x80, 0xFF, 1])]),
        _ => choose(u32::MAX),
    }
}
/// Error codes, known, unknown, reserved and next to those.
fn gen_code() -> u32 {
    match below(5) {
        0 => choose(7),
        1 => 0x100 + choose(5),
        2 => 0x200 + choose(8),
        3 => pick(&[0x2FF, 0x300, 0x301, 0x302, 0x3FF, 0x1FF, 0xFF, 0xFFFF_FFFF, 0xFFFF_FFFE, 0x8000_0001, 0x8000_0201, MAX31, 0x0101_0000]),
        _ => choose(u32::MAX),
    }
}

fn decode(b: &Bytes) -> Verdict { rt::cut(|| Frame::decode(&mut b.clone())) }
fn same(a: &Verdict, b: &Verdict) -> bool {
    match (a, b) { (Ok(x), Ok(y)) => read(x) == read(y), (Err(x), Err(y)) => x == y, _ => false }
}
fn say(v: &Verdict) -> String { match v { Ok(f) => read(f).map(|m| m.text()).unwrap_or_else(|e| e), Err(e) => format!("error: {}", e) } }

/// The same bytes through different kinds of buffers.
fn decode_otherwise(b: &Bytes) -> (String, Verdict) {
    match below(8) {
        6 if !b.is_empty() => {
            let mut l: SimBufList<Seg> = SimBufList::new();
            for s in cut_up(b) { let s = segment(s, 1, true); l.push(s); }
            probe("link.segments_in_segments");
            (String::from("in segments of segments"), rt::cut(|| Frame::decode(&mut l)))
        }
        7 => { let mut s = segment(b.clone(), 0, true); (String::from("as a compound buffer"), rt::cut(|| Frame::decode(&mut s))) }
        0..=2 => {
            let segs = cut_up(b);
            let d = format!("in segments of {:?} bytes", segs.iter().map(|s| s.len()).collect::<Vec<_>>());
            let mut l = buffer(&segs);
            (d, rt::cut(|| Frame::decode(&mut l)))
        }
        3 => { let i = below(b.len() + 1); let mut c = b.slice(..i).chain(b.slice(i..)); (format!("as a chain split at {}", i), rt::cut(|| Frame::decode(&mut c))) }
        4 => { let v = b.to_vec(); (String::from("as a slice"), rt::cut(|| Frame::decode(&mut &v[..]))) }
        _ => {
            // a ring buffer whose content wraps around its end
            let mut q = std::collections::VecDeque::with_capacity(b.len() + 1);
            let cap = q.capacity();
            let off = below(cap.min(b.len() + 1) + 1);
            for _ in 0..off.min(cap - 1) { q.push_back(0u8); }
            for _ in 0..off.min(cap - 1) { q.pop_front(); }
            q.extend(b.iter());
            (format!("in a ring buffer from offset {}", off), rt::cut(|| Frame::decode(&mut q)))
        }
    }
}

/// One hop: packets go in at their times and come out late, twice, damaged or not at all.
fn transmit(input: Vec<Packet>, w: &Weather, hop: usize) -> Vec<Packet> {
    let mut out = Vec::new();
    let n = input.len();
    let others: Vec<Bytes> = input.iter().map(|p| p.bytes.clone()).collect();
    for p in input {
        if chance(w.drop, 16) { fault("frame lost"); ev!(1, "hop {}: frame {:?} is lost", hop, p.origin); continue; }
        let copies = if chance(w.dup, 16) { fault("frame duplicated"); 2 } else { 1 };
        for _ in 0..copies {
            let mut at = p.at + 100;
            if chance(w.delay, 16) { at += choose(3000) as u64; fault("frame delayed"); }
            let mut bytes = p.bytes.clone();
            let mut damaged = p.damaged;
            if chance(w.damage, 16) && !(w.cut_only && bytes.is_empty()) {
                let d = damage(&bytes, &others[below(n)], w.cut_only);
                damaged |= d != bytes;
                bytes = d;
            }
            out.push(Packet { at, origin: p.origin, damaged, bytes });
        }
    }
    if out.windows(2).any(|w| w[0].at > w[1].at) { probe("link.reordered"); fault("frames reordered"); }
    out.sort_by_key(|p| p.at);
    out
}

pub fn scenario(prop: &str) {
    if prop == "C15" || (prop == "C10" && chance(1, 4)) { return reassembly(prop); }
    let w = match prop {
        "C10" => Weather { drop: 1, dup: 1, delay: 2, damage: 8, cut_only: false, large: chance(1, 40) },
        "C11" => Weather { drop: 0, dup: 2, delay: 1, damage: 13, cut_only: true, large: chance(1, 40) },
        "C12" => Weather { drop: 0, dup: 2, delay: 1, damage: 6, cut_only: false, large: chance(1, 20) },
        "C13" => Weather { drop: choose(4), dup: choose(4), delay: choose(6), damage: choose(5), cut_only: false, large: chance(1, 12) },
        _ => Weather { drop: 0, dup: 2, delay: 1, damage: 13, cut_only: false, large: chance(1, 60) },
    };
    let hops = if prop == "C13" { 1 + below(4) } else { 1 + below(2) };
    let kind = if chance(1, 4) { Some(below(14)) } else { None };
    let mut sent = Vec::new();
    let mut packets = Vec::new();
    for i in 0..1 + below(6) {
        let (frame, model) = rt::cut(|| gen_frame(kind, w.large));
        let mut buf = BytesMut::new();
        let pre = below(3);
        buf.extend_from_slice(&[0xEE; 3][..pre]);
        let (len, bytes) = rt::cut(|| { frame.encode(&mut buf); (frame.len(), frame.to_bytes()) });
        ev!(2 + hash_bytes(&bytes), "frame {}: {} ({} bytes)", i, model.text(), bytes.len());
        if prop == "C13" {
            if len != bytes.len() { violate("announced-length", format!("{} announces {} bytes but is encoded in {}", model.text(), len, bytes.len())); }
            if rt::cut(|| Encode::is_empty(&frame)) != (len == 0) { violate("announced-length", format!("{} announces {} bytes, but says that it is {}empty", model.text(), len, if len == 0 { "not " } else { "" })); }
            if buf[pre..] != bytes[..] || buf[..pre] != [0xEE; 3][..pre] { violate("encoding-differs", format!("encoding {} into a buffer in use does not append its encoding", model.text())); }
            let m = read(&frame);
            if m.as_ref() != Ok(&shown(&model)) { violate("field-values", format!("a frame built from {} says it is {:?}", shown(&model).text(), m.map(|m| m.text()))); }
        }
        sent.push(model);
        packets.push(Packet { at: i as u64 * 1000, origin: Some(i), damaged: false, bytes });
    }
    for hop in 0..hops {
        let last = hop + 1 == hops;
        let mut onward = Vec::new();
        for p in transmit(packets, &w, hop) {
            eng().clock = p.at;
            ev!(3 + hash_bytes(&p.bytes), "hop {}: {}frame {:?} arrives: {} bytes {}", hop, if p.damaged { "damaged " } else { "" }, p.origin, p.bytes.len(), hex(&p.bytes));
            let v = decode(&p.bytes);
            ev!(4, "  {}", say(&v));
            judge(prop, &p, &sent, &v);
            if let (false, Ok(f)) = (last, &v) {
                // A relay forwards what it understood.
                let bytes = rt::cut(|| f.to_bytes());
                if prop == "C13" && rt::cut(|| f.len()) != bytes.len() { violate("announced-length", format!("a received {} announces {} bytes but is encoded in {}", say(&v), f.len(), bytes.len())); }
                onward.push(Packet { at: p.at, origin: p.origin, damaged: p.damaged, bytes });
                probe("link.relayed");
            }
        }
        packets = onward;
    }
}

fn hex(b: &Bytes) -> String {
    let mut s: String = b.iter().take(48).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 48 { s.push_str(".."); }
    s
}

fn judge(prop: &str, p: &Packet, sent: &[M], v: &Verdict) {
    let model = p.origin.map(|i| &sent[i]);
    match prop {
        "C10" => {
            if let Ok(f) = v {
                // Look at everything the frame offers, and send it on.
                let again = rt::cut(|| { let _ = format!("{:?}", f).len(); let _ = (f.len(), Encode::is_empty(f), f == &f.clone()); f.to_bytes() });
                let _ = rt::cut(|| read(f));
                let _ = decode(&again);
            } else if let Err(e) = v {
                rt::cut(|| { let _ = format!("{} {:?}", e, e); let _ = binate::Error::from(e.clone()).to_string(); });
            }
            let _ = decode_otherwise(&p.bytes);
            if !p.bytes.is_empty() {
                let l = buffer(&[p.bytes.clone()]);
                let _ = rt::cut(|| l.into_payload());
            }
            if !p.damaged { intact(p, model, v); }
        }
        "C11" => {
            if !p.damaged { return; }
            let want = spell(&p.bytes);
            if want.ok.is_none() && want.errs == [E::Incomplete] {
                probe("link.incomplete_frames");
                if !matches!(v, Err(DecodeError::InComplete)) {
                    violate("accepted-incomplete", format!("a frame cut down to {} bytes ({}) is incomplete but was decoded as: {}", p.bytes.len(), hex(&p.bytes), say(v)));
                }
                let (how, o) = decode_otherwise(&p.bytes);
                if !matches!(o, Err(DecodeError::InComplete)) {
                    violate("accepted-incomplete", format!("a frame cut down to {} bytes ({}), {}, is incomplete but was decoded as: {}", p.bytes.len(), hex(&p.bytes), how, say(&o)));
                }
            } else { probe("link.cut_in_trailing_data"); }
        }
        "C12" => {
            for _ in 0..3 {
                let (how, o) = decode_otherwise(&p.bytes);
                if !same(v, &o) {
                    violate("segmentation-matters", format!("{} bytes ({}) decode in one piece as: {}; but {} as: {}", p.bytes.len(), hex(&p.bytes), say(v), how, say(&o)));
                }
            }
        }
        "C13" => if !p.damaged { intact(p, model, v); },
        _ => {
            let want = spell(&p.bytes);
            if p.damaged {
                if want.ok.is_some() { probe("link.damaged_but_wellformed"); }
                for e in &want.errs { probe(match e { E::Incomplete => "link.damaged_to_incomplete", E::Type(63) => "link.damaged_to_extension", E::Type(_) => "link.damaged_to_unknown_type", _ => "link.damaged_to_misaddressed" }); }
            }
            if let Err(e) = agrees(v, &want) { violate("misread-bytes", format!("{} bytes {} ... {}", p.bytes.len(), hex(&p.bytes), e)); }
            if let (Ok(f), Some(w)) = (v, &want.ok) {
                // Sent on, the frame still spells the same, including what accessors do not show.
                let again = spell(&rt::cut(|| f.to_bytes()));
                if again.ok.as_ref() != Some(w) { violate("misread-bytes", format!("{} bytes {} spell {} but were taken for {:?}", p.bytes.len(), hex(&p.bytes), w.text(), again.ok.map(|m| m.text()))); }
            }
        }
    }
}

fn intact(p: &Packet, model: Option<&M>, v: &Verdict) {
    let want = model.unwrap();
    let got = v.as_ref().map_err(|e| e.to_string()).and_then(read);
    if got.as_ref() != Ok(&shown(want)) {
        violate("undamaged-frame-changed", format!("an undamaged frame was sent as {} and received as {} ({} bytes {})", shown(want).text(), got.map(|m| m.text()).unwrap_or_else(|e| format!("error: {}", e)), p.bytes.len(), hex(&p.bytes)));
    }
    let (how, o) = decode_otherwise(&p.bytes);
    let got = o.as_ref().map_err(|e| e.to_string()).and_then(read);
    if got.as_ref() != Ok(&shown(want)) {
        violate("undamaged-frame-changed", format!("an undamaged frame was sent as {} and received {} as {}", shown(want).text(), how, got.map(|m| m.text()).unwrap_or_else(|e| format!("error: {}", e))));
    }
}

/// A request's fragments arrive, some damaged, and are reassembled.
fn reassembly(prop: &str) {
    let long = chance(1, 80);
    let n = if long { probe("link.many_fragments"); match below(60) { 0 => { eng().quiet = true; 66_000 + below(3) } 1..=3 => 4000, _ => 20 + below(300) } } else { below(7) };
    let vast = n > 10_000;
    if vast { rt::long_run(); }
    let mut first: Vec<(Bytes, Option<M>)> = Vec::new();
    let one_kind = if chance(2, 3) { Some(pick(&[0usize, 1, 2, 3, 4])) } else { None };
    let damage_p = pick(&[0u32, 0, 1, 3, 8]);
    let large = !long && chance(1, 30);
    let mut list: Vec<(Bytes, Option<M>)> = Vec::new();
    for i in 0..n {
        // Very many fragments: a few different ones.
        if vast && i >= 50 { first.push(list[i % 50].clone()); continue; }
        let kind = match one_kind { Some(k) => if chance(1, 10) { None } else { Some(k) }, None => if chance(1, 4) { None } else { Some(below(5)) } };
        let (frame, model) = rt::cut(|| gen_frame(kind, large && chance(1, 2)));
        let b = rt::cut(|| frame.to_bytes());
        list.push((b, Some(model)));
    }
    list.append(&mut first);
    let w = n.max(1);
    for i in 0..if vast { 50 } else { n } {
        if if long { chance(damage_p, 4000) } else { chance(damage_p, 16) } {
            let other = list[below(w)].0.clone();
            let d = damage(&list[i].0, &other, chance(1, 4));
            if d.is_empty() { continue; }
            if d != list[i].0 { list[i] = (d, None); }
        }
    }
    if n > 1 && chance(1, 4) { let (i, j) = (below(n), below(n)); list.swap(i, j); fault("fragments reordered"); }
    if n > 0 && chance(1, 8) { let (i, j) = (below(n), below(n)); let x = (list[i].0.clone(), list[i].1.clone()); list.insert(j, x); fault("fragment duplicated"); }
    if n > 0 && chance(1, 8) { list.remove(below(n)); fault("fragment lost"); }
    let mut want: Result<(Vec<u8>, Vec<u8>), DecodeError> = Ok(Default::default());
    for (b, m) in &list {
        let own = decode(b);
        ev!(5 + hash_bytes(b), "fragment {}: {} bytes {}: {}", if m.is_some() { "intact" } else { "damaged" }, b.len(), hex(b), say(&own));
        let m = match (m, own) {
            (Some(m), _) => m.clone(),
            (None, Ok(f)) => match read(&f) { Ok(m) => m, Err(_) => return },
            (None, Err(e)) => { want = Err(e); probe("link.reassembly_rejected"); break; }
        };
        if let (Some((meta, data)), Ok(w)) = (m.fragment(), &mut want) { w.0.extend_from_slice(meta); w.1.extend_from_slice(data); }
    }
    let got = if chance(1, 3) && !long {
        // The fragments lie in the buffer as the link delivered them.
        let mut l: SimBufList<Seg> = SimBufList::new();
        for (b, _) in &list { if !b.is_empty() { l.push(segment(b.clone(), 0, true)); } }
        probe("link.fragments_in_segments");
        rt::cut(|| l.into_payload())
    } else {
        let l = buffer(&list.iter().map(|x| x.0.clone()).collect::<Vec<_>>());
        rt::cut(|| l.into_payload())
    };
    let got = got.map(|p| { let (m, d) = p.split(); (bytes_of(&m).to_vec(), bytes_of(&d).to_vec()) });
    ev!(6, "reassembled: {:?}", got.as_ref().map(|(m, d)| (m.len(), d.len())));
    if prop == "C15" && got != want {
        let t = |r: &Result<(Vec<u8>, Vec<u8>), DecodeError>| match r { Ok((m, d)) => format!("metadata {} and data {}", short(&m.clone().into()), short(&d.clone().into())), Err(e) => format!("error: {}", e) };
        violate("wrong-reassembly", format!("{} fragments were reassembled into {}, should be {}", list.len(), t(&got), t(&want)));
    }
}
