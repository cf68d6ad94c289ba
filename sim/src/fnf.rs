//! C07-C09: threads share a connection and send fire-and-forget requests over it.
use crate::conn::*;
use crate::engine::*;
use crate::model::*;
use crate::{ev, rt, threads};
use binate::connection::sim::{SimBufList, SimMachine};
use binate::frame::Frame;
use binate::Payload;
use bytes::{Buf, Bytes};
use std::collections::BTreeMap;
use std::sync::Arc;
use std::time::Duration;

#[derive(Clone)]
struct Req { meta: Option<Bytes>, data: Option<Bytes> }
impl Req {
    fn payload(&self) -> Payload {
        let mut b = Payload::builder();
        if let Some(m) = &self.meta { b = b.set_metadata(m.clone()); }
        if let Some(d) = &self.data { b = b.set_data(d.clone()); }
        b.build()
    }
    fn text(&self) -> String { let t = |o: &Option<Bytes>| match o { None => "none".into(), Some(b) => format!("{} bytes", b.len()) }; format!("metadata {}, data {}", t(&self.meta), t(&self.data)) }
    fn fragments(&self, chunk: Option<usize>) -> usize { chunk.map_or(1, |c| [&self.meta, &self.data].iter().map(|p| (bytes_of(p).len() + c - 1) / c).max().unwrap().max(1)) }
    fn is(&self, m: &[u8], d: &[u8]) -> bool { bytes_of(&self.meta) == m && bytes_of(&self.data) == d }
}

fn part(tag: u32, chunk: Option<usize>, huge: bool, metadata: bool) -> Option<Bytes> {
    let c = chunk.unwrap_or(10);
    let n = if huge {
        let n = (1usize << 24) + pick(&[0usize, 1, 2, 3, 1 << 20]) + below(3) * (1 << 23);
        if metadata && chunk.map_or(true, |c| c >= 1 << 24) { (1 << 24) - 1 - below(2) } else { n }
    } else {
        let base = match below(9) {
            0 => return None,
            1 => 0,
            2 => c,
            3 => c * 2,
            4 => c * (1 + below(5)),
            5 => c + below(2 * c.min(1 << 20) + 1),
            6 => below(5),
            7 => below(300),
            _ => c * (1 + below(3)),
        };
        match below(4) { 0 => base + 1, 1 => base.saturating_sub(1), _ => base }.min(if c > 60_000 { 3 << 20 } else { c * 40 })
    };
    if n == 0 && chance(1, 2) { return None; }
    Some(if n < 1000 && chance(1, 8) { filler(tag, n) } else { content(tag, n) })
}

pub fn scenario(prop: &str) {
    let client = !chance(1, 2);
    let huge = prop != "C08" && chance(1, 700);
    let chunk = if huge {
        if chance(1, 4) { None } else { Some(pick(&[1usize << 20, 1 << 21, 1 << 22, 1 << 23, (1 << 24) - 1, 3 << 20, 1 << 16])) }
    } else if chance(1, 5) { None } else {
        Some(match below(6) { 0 => 1, 1 => 1 + below(4), 2 => 1 + below(20), 3 => pick(&[16usize, 64, 100, 255, 256]), 4 => 1 + below(1000), _ => if chance(1, 12) { pick(&[65535usize, 65536, 1 << 20]) } else { 8 } })
    };
    // Rarely: many requests, or requests of very many fragments.
    let many = !huge && chance(1, 150);
    let deep = !huge && !many && chance(1, 150);
    let deepest = deep && chance(1, 20);
    let most = prop == "C07" && many && chance(1, 60);
    let chunk = if deep { Some(if deepest { 1 } else { 1 + below(3) }) } else if many { chunk.map(|c| c.min(1000)) } else { chunk };
    let n = if huge || deep || most { 1 + below(2) } else { 1 + below(4) };
    let mut tag = choose(1 << 16) << 8;
    // Requests may look exactly like earlier ones.
    let alike = !huge && chance(1, 8);
    let mut earlier: Vec<Req> = Vec::new();
    let plans: Vec<Vec<Req>> = (0..n).map(|_| (0..if huge || deep { 1 } else if most { 66_000 } else if many { 1 + below(70) } else { 1 + below(3) }).map(|_| {
        tag += 2;
        if most { return Req { meta: None, data: Some(content(tag, 6)) }; }
        if deep {
            let c = chunk.unwrap();
            let len = || if deepest { 65_534 + below(6) } else { match below(6) { 0 => 255 + below(3), 1 => 1023 + below(3), 2 => 4095 + below(3), _ => below(5000) } } * c + below(2);
            let which = below(3);
            return Req { meta: if which > 0 { Some(content(tag, len())) } else { None }, data: if which != 1 { Some(content(tag + 1, len())) } else { None } };
        }
        if huge {
            let which = below(3);
            return Req { meta: if which > 0 { part(tag, chunk, true, true) } else { None }, data: if which != 1 { part(tag + 1, chunk, true, false) } else { None } };
        }
        if alike && !earlier.is_empty() && chance(1, 2) { probe("fnf.same_request_again"); return earlier[below(earlier.len())].clone(); }
        let r = match below(8) {
            0 => Req { meta: None, data: None },
            1 => Req { meta: None, data: part(tag + 1, chunk, false, false) },
            2 => Req { meta: part(tag, chunk, false, true), data: None },
            _ => Req { meta: part(tag, chunk, false, true), data: part(tag + 1, chunk, false, false) },
        };
        if alike { earlier.push(r.clone()); }
        r
    }).collect()).collect();
    if huge { probe("fnf.huge_payload"); }
    if many { probe("fnf.many_requests"); }
    if deep { probe("fnf.many_fragments"); }
    if most { probe("fnf.very_many_requests"); eng().quiet = true; }
    let total: usize = plans.iter().flatten().map(|r| r.fragments(chunk)).sum();
    ev!(1, "a {} with fragments of {:?} bytes", if client { "client" } else { "server" }, chunk);
    let conn = SimConn::new();
    if prop == "C08" || (prop != "C09" && !most && chance(1, 4)) {
        let r = match below(8) { 0 => Refuse::Never, 1 | 2 => Refuse::Once(below(20)), 3 => Refuse::Burst(below(12), 1 + below(4)), 4 => Refuse::From(below(14)), 5 => Refuse::Once(below(total + 1)), 6 => Refuse::Once(total.saturating_sub(1 + below(3))), _ => Refuse::Often(1 + choose(8)) };
        ev!(2, "the transport refuses frames: {:?}", r);
        let throws = if chance(1, 4) { pick(&[16, 8, 2]) } else { 0 };
        conn.with(|s| { s.refuse = r; s.throws = throws; });
    }
    let rt_ = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
    let mut machine = rt_.block_on(rt::cut(|| SimMachine::new(client, conn.clone(), Duration::from_secs(60), chunk)));
    // Some connections have lived for long.
    let first = if chance(1, 3) { let id = gen_start(client); ev!(7, "the next stream id is {}", id); rt::cut(|| machine.start_ids_at(id)); id & MAX31 as i32 } else if client { 1 } else { 2 };
    let machine = Arc::new(machine);
    let plans = Arc::new(plans);
    let (p2, m2) = (plans.clone(), machine.clone());
    threads::policy();
    if huge || deepest || most { rt::long_run() }
    let handle = rt_.handle().clone();
    let results: Vec<Vec<Result<(), String>>> = threads::run(n, move |t| {
        let _context = handle.enter();
        p2[t].iter().enumerate().map(|(k, r)| {
            rt::yield_();
            ev!(3, "request {}.{}: {}", t, k, r.text());
            let p = r.payload();
            let o = request(&m2, p);
            ev!(4 + o.is_ok() as u64, "request {}.{} returns {:?}", t, k, o);
            o
        }).collect()
    });
    drop(machine);
    rt::cut(|| drop(rt_));
    let sent = conn.with(|s| std::mem::take(&mut s.sent));
    if sent.windows(3).any(|w| w[0].thread != w[1].thread && w[2].thread == w[0].thread) { probe("fnf.interleaved_fragments"); }
    let done: Vec<(&Req, &Result<(), String>, String)> = plans.iter().zip(&results).enumerate().flat_map(|(t, (p, r))| p.iter().zip(r).enumerate().map(move |(k, (p, r))| (p, r, format!("request {}.{}", t, k)))).collect();
    match prop {
        "C07" => complete(&sent, &done, chunk),
        "C08" => refused(&sent, &done),
        "C01" | "C02" | "C04" => ids_used(prop, &sent, client, first as u32),
        _ => end_to_end(&sent, &done),
    }
}

struct Frag { sid: u32, follows: bool, meta: Bytes, data: Bytes, first_kind: bool, refused: Option<String> }

fn fragments(sent: &[Sent]) -> Vec<Frag> {
    sent.iter().enumerate().map(|(i, s)| match spell(&s.bytes).ok {
        Some(M::Fnf { sid, follows, meta, data }) => Frag { sid, follows, meta, data, first_kind: true, refused: s.refused.clone() },
        Some(M::Payload { sid, follows, meta, data, .. }) => Frag { sid, follows, meta, data, first_kind: false, refused: s.refused.clone() },
        Some(m) => violate("malformed-fragment", format!("frame {} given to the transport is no fragment of a request: {}", i, m.text())),
        None => violate("malformed-fragment", format!("frame {} given to the transport is malformed ({} bytes)", i, s.bytes.len())),
    }).collect()
}

/// C01, C02, C04 as seen from the transport.
fn ids_used(prop: &str, sent: &[Sent], client: bool, first: u32) {
    probe("ids.requests_of_a_connection");
    let mut over = std::collections::BTreeSet::new();
    let mut seen = std::collections::BTreeSet::new();
    for f in fragments(sent) {
        match prop {
            "C01" => {
                if over.contains(&f.sid) { violate("duplicate-id", format!("two requests were sent under stream id {}", f.sid)); }
                if !f.follows || f.refused.is_some() { over.insert(f.sid); }
            }
            "C02" => {
                if f.sid == 0 || f.sid > MAX31 { violate("id-out-of-range", format!("a request was sent on stream {}", f.sid)); }
                if (f.sid % 2 == 1) != client { violate("id-of-wrong-parity", format!("a {} sent a request on stream {}", if client { "client" } else { "server" }, f.sid)); }
            }
            _ => { seen.insert(f.sid); }
        }
    }
    let mut next = first;
    for _ in 0..seen.len() {
        if !seen.contains(&next) { violate("skipped-id", format!("stream id {} was not used, but later ones were; the first request could use {}", next, first)); }
        next = after(next);
    }
}
/// The next id in sequence.
pub fn after(id: u32) -> u32 { match (id + 2) & MAX31 { 0 => 2, n => n } }
/// Where the ids of a connection go on: raw, as the provider keeps it, and never the reserved id 0.
pub fn gen_start(client: bool) -> i32 {
    let near = match below(4) { 0 => 1u32 << (8 + below(24)), 1 => 0, _ => choose(u32::MAX) };
    let id = (near.wrapping_sub(choose(12)) & !1) | client as u32;
    if id & MAX31 == 0 { 2 } else { id as i32 }
}

fn complete(sent: &[Sent], done: &[(&Req, &Result<(), String>, String)], chunk: Option<usize>) {
    let refusals = sent.iter().any(|s| s.refused.is_some());
    if !refusals { for (_, r, name) in done { if let Err(e) = r { violate("spurious-error", format!("{} failed although the transport refused nothing: {}", name, e)); } } }
    let mut streams: BTreeMap<u32, Vec<Frag>> = BTreeMap::new();
    for f in fragments(sent) {
        if f.sid == 0 { violate("stream-zero", "a fragment was sent on stream 0".into()); }
        streams.entry(f.sid).or_default().push(f);
    }
    let mut left: BTreeMap<(Bytes, Bytes), Vec<usize>> = BTreeMap::new();
    for (i, (r, o, _)) in done.iter().enumerate() { if o.is_ok() { left.entry((bytes_of(&r.meta), bytes_of(&r.data))).or_default().push(i); } }
    if refusals && !left.is_empty() { probe("fnf.sent_among_refusals"); }
    for (sid, fs) in &streams {
        // A request of which a fragment was refused has failed, and no other may use its stream.
        if fs.iter().any(|f| f.refused.is_some()) { continue; }
        if fs.len() > 1 { probe("fnf.fragmented"); }
        for (i, f) in fs.iter().enumerate() {
            if f.follows != (i + 1 < fs.len()) {
                violate("follows-flag", format!("fragment {} of {} on stream {} {} more fragments", i + 1, fs.len(), sid, if f.follows { "announces" } else { "does not announce" }));
            }
            if i == 0 && !f.first_kind { violate("malformed-fragment", format!("stream {} starts with a continuation", sid)); }
            if let Some(c) = chunk {
                if f.meta.len() > c || f.data.len() > c { violate("oversized-fragment", format!("a fragment of stream {} carries {} bytes of metadata and {} of data; the limit is {}", sid, f.meta.len(), f.data.len(), c)); }
            }
        }
        let (m, d): (Vec<&[u8]>, Vec<&[u8]>) = fs.iter().map(|f| (&f.meta[..], &f.data[..])).unzip();
        let (m, d) = (m.concat(), d.concat());
        let names = |i: &usize| format!("{}: {}", done[*i].2, done[*i].0.text());
        match left.get_mut(&(m.clone().into(), d.clone().into())).and_then(|l| l.pop()) {
            Some(_) => (),
            None => violate("content-differs", format!("the {} fragments on stream {} carry {} bytes of metadata and {} of data, which is none of the requests sent ({})", fs.len(), sid, m.len(), d.len(), left.values().flatten().take(20).map(names).collect::<Vec<_>>().join("; "))),
        }
    }
    if let Some(i) = left.values().flatten().next() { violate("request-not-sent", format!("{} ({}) reported success, but the transport was not given it", done[*i].2, done[*i].0.text())); }
}

fn refused(sent: &[Sent], done: &[(&Req, &Result<(), String>, String)]) {
    let fs = fragments(sent);
    let mut by_stream: BTreeMap<u32, Option<String>> = BTreeMap::new();
    let mut refusals = Vec::new();
    for f in &fs {
        let e = by_stream.entry(f.sid).or_insert(None);
        if let Some(t) = e { violate("sent-after-refusal", format!("another fragment was sent on stream {} after the transport had refused one ({})", f.sid, t)); }
        if let Some(t) = &f.refused { *e = Some(t.clone()); refusals.push(t.clone()); }
    }
    // Every refusal is reported by exactly one request, every other request succeeded.
    let mut failed = 0;
    for (req, r, name) in done {
        if let Err(e) = r {
            failed += 1;
            match refusals.iter().position(|t| e == t) {
                Some(i) => {
                    let t = refusals.remove(i);
                    // It is the refusal of this very request.
                    let sid = fs.iter().find(|f| f.refused.as_deref() == Some(&t)).unwrap().sid;
                    let (m, d): (Vec<&[u8]>, Vec<&[u8]>) = fs.iter().filter(|f| f.sid == sid).map(|f| (&f.meta[..], &f.data[..])).unzip();
                    if !bytes_of(&req.meta).starts_with(&m.concat()) || !bytes_of(&req.data).starts_with(&d.concat()) {
                        violate("wrong-error", format!("{} failed with {}, which was the transport's answer to another request (stream {})", name, t, sid));
                    }
                }
                None => violate("wrong-error", format!("{} failed with an error that is not the transport's: {}", name, e)),
            }
        }
    }
    if let Some(t) = refusals.first() { violate("unreported-refusal", format!("the transport's refusal was not reported to the caller: {}", t)); }
    if failed > 0 { probe("fnf.refused_requests"); }
    if failed > 0 && fs.len() > failed { probe("fnf.refused_midway"); }
    // The requests that succeeded were sent to their end, one stream each.
    let ok = done.iter().filter(|x| x.1.is_ok()).count();
    let whole = by_stream.iter().filter(|(_, r)| r.is_none()).count();
    if ok != whole { violate("success-without-sending", format!("{} requests reported success, but {} were sent without refusal", ok, whole)); }
}

/// The frames cross the link as length-prefixed frames in a byte stream; the receiver takes them out
/// of a receive buffer, sorts them by stream, and reassembles each request when it is complete.
fn end_to_end(sent: &[Sent], done: &[(&Req, &Result<(), String>, String)]) {
    rt::long_run(); // a single thread from here on
    let fs = fragments(sent);
    let mut wire: Vec<u8> = Vec::new();
    let mut ends = Vec::new();
    for s in sent {
        let n = s.bytes.len() as u32;
        wire.extend_from_slice(&n.to_be_bytes()[..]);
        wire.extend_from_slice(&s.bytes);
        ends.push(wire.len());
    }
    let wire: Bytes = wire.into();
    let cut = if chance(1, 2) { let c = if chance(1, 2) { below(wire.len() + 1) } else { wire.len().saturating_sub(below(12)) }; fault("connection lost"); probe("e2e.connection_lost"); c } else { wire.len() };
    ev!(5 + cut as u64, "{} bytes on the wire, {} arrive", wire.len(), cut);
    // What must come out: the requests whose last fragment arrived in full.
    let mut arrived: BTreeMap<u32, (Vec<u8>, Vec<u8>, bool)> = BTreeMap::new();
    for (f, end) in fs.iter().zip(&ends) {
        if *end <= cut { let a = arrived.entry(f.sid).or_default(); a.0.extend_from_slice(&f.meta); a.1.extend_from_slice(&f.data); a.2 |= !f.follows; }
    }
    let mut whole: Vec<usize> = Vec::new();
    let step = match below(4) { 0 => 1 + below(3), 1 => 1 + below(20), 2 => 1 + below(200), _ => wire.len().max(1) };
    let step = step.max(wire.len() / 500);
    let mut rx = SimBufList::new();
    let mut at = 0;
    let mut need = None;
    let mut partial: BTreeMap<u32, SimBufList> = BTreeMap::new();
    let mut delivered = Vec::new();
    while at < cut {
        let n = (1 + below(2 * step)).min(cut - at);
        let seg = wire.slice(at..at + n);
        at += n;
        rt::cut(|| rx.push(seg));
        loop {
            let len = match need { Some(l) => l, None => { if rt::cut(|| rx.remaining()) < 4 { break; } let l = rt::cut(|| rx.get_u32()) as usize; need = Some(l); l } };
            if rt::cut(|| rx.remaining()) < len { break; }
            need = None;
            let b = rt::cut(|| rx.copy_to_bytes(len));
            let f = rt::cut(|| Frame::decode(&mut b.clone()));
            let m = match &f { Ok(f) => read(f), Err(e) => Err(e.to_string()) };
            let (sid, follows) = match m { Ok(M::Fnf { sid, follows, .. }) | Ok(M::Payload { sid, follows, .. }) => (sid, follows), Ok(m) => violate("wrong-frame", format!("a fragment arrived as {}", m.text())), Err(e) => violate("wrong-frame", format!("a fragment that crossed the link undamaged was rejected: {}", e)) };
            let l = partial.entry(sid).or_insert_with(SimBufList::new);
            rt::cut(|| l.push(b));
            if !follows {
                let l = partial.remove(&sid).unwrap();
                if l.segments() > 1 { probe("e2e.reassembled_fragments"); }
                match rt::cut(|| l.into_payload()) {
                    Ok(p) => { let (m, d) = p.split(); ev!(6, "stream {} is complete", sid); delivered.push((sid, bytes_of(&m), bytes_of(&d))); }
                    Err(e) => violate("not-reassembled", format!("the undamaged fragments of stream {} were not reassembled: {}", sid, e)),
                }
            }
        }
    }
    for (sid, m, d) in &delivered {
        if !arrived.get(sid).map_or(false, |a| a.2) { violate("incomplete-shown-complete", format!("a request was received on stream {} although its last fragment did not arrive", sid)); }
        match done.iter().enumerate().position(|(i, x)| !whole.contains(&i) && x.0.is(m, d)) {
            Some(i) => whole.push(i),
            None => violate("received-differs", format!("the request received on stream {} ({} bytes of metadata, {} of data) is none of those sent", sid, m.len(), d.len())),
        }
    }
    let complete = arrived.values().filter(|a| a.2).count();
    if delivered.len() != complete { violate("request-lost", format!("{} requests arrived completely, {} were received", complete, delivered.len())); }
    if cut == wire.len() && delivered.len() != done.len() { violate("request-lost", format!("{} requests were sent over an intact link, {} were received", done.len(), delivered.len())); }
}
