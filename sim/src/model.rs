//! An executable model of frames: what they mean, how they are built, and what damaged bytes spell.
//! The decoder in here is written from the documented layouts and shares no code with binate's.
use crate::engine::*;
use binate::frame::codec::*;
use binate::frame::{DecodeError, Flags, Frame, Version};
use binate::Payload;
use bytes::Bytes;

pub const MAX31: u32 = 0x7FFF_FFFF;
pub const MAX63: u64 = 0x7FFF_FFFF_FFFF_FFFF;

/// Field values of a frame. Absent and empty byte strings are the same.
#[derive(Clone, PartialEq, Debug)]
pub enum M {
    Setup { lease: bool, resume: bool, version: (u16, u16), interval: u32, timeout: u32, token: Bytes, meta_mime: Bytes, data_mime: Bytes, meta: Bytes, data: Bytes },
    Lease { ttl: u32, n: u32, meta: Bytes },
    Keepalive { respond: bool, pos: u64, data: Bytes },
    Response { sid: u32, follows: bool, meta: Bytes, data: Bytes },
    Fnf { sid: u32, follows: bool, meta: Bytes, data: Bytes },
    Stream { sid: u32, follows: bool, n: u32, meta: Bytes, data: Bytes },
    Channel { sid: u32, follows: bool, complete: bool, n: u32, meta: Bytes, data: Bytes },
    RequestN { sid: u32, n: u32 },
    Cancel { sid: u32 },
    Payload { sid: u32, follows: bool, complete: bool, next: bool, meta: Bytes, data: Bytes },
    Error { sid: u32, code: u32, data: Bytes },
    Push { meta: Bytes },
    Resume { version: (u16, u16), token: Bytes, server: u64, client: u64 },
    ResumeOk { client: u64 },
}
#[derive(Clone, PartialEq, Debug)]
pub enum E { Incomplete, Type(u16), Stream(u32), Other }
impl From<&DecodeError> for E {
    fn from(e: &DecodeError) -> E {
        match e {
            DecodeError::InComplete => E::Incomplete,
            DecodeError::UnrecognizedFrameType(t) => E::Type(*t),
            DecodeError::InvalidStreamId { found, .. } => E::Stream(*found),
            _ => E::Other,
        }
    }
}

pub fn short(b: &Bytes) -> String {
    if b.len() <= 12 { format!("{:?}", b) } else { format!("<{} bytes {:02x}{:02x}..{:02x}>", b.len(), b[0], b[1], b[b.len() - 1]) }
}
impl M {
    /// In words, long byte strings shortened.
    pub fn text(&self) -> String {
        let mut m = self.clone();
        let mut sub = Vec::new();
        for b in m.parts_mut() { if b.len() > 12 { let s = short(b); *b = Bytes::from(format!("<{}>", sub.len())); sub.push(s); } }
        let mut t = format!("{:?}", m);
        for (i, s) in sub.iter().enumerate() { t = t.replacen(&format!("b\"<{}>\"", i), s, 1); }
        t
    }
    fn parts_mut(&mut self) -> Vec<&mut Bytes> {
        match self {
            M::Setup { token, meta_mime, data_mime, meta, data, .. } => vec![token, meta_mime, data_mime, meta, data],
            M::Lease { meta, .. } | M::Push { meta } => vec![meta],
            M::Keepalive { data, .. } | M::Error { data, .. } => vec![data],
            M::Response { meta, data, .. } | M::Fnf { meta, data, .. } | M::Stream { meta, data, .. } | M::Channel { meta, data, .. } | M::Payload { meta, data, .. } => vec![meta, data],
            M::Resume { token, .. } => vec![token],
            _ => vec![],
        }
    }
    /// Metadata and data, if this can be a fragment of a request.
    pub fn fragment(&self) -> Option<(&Bytes, &Bytes)> {
        match self {
            M::Response { meta, data, .. } | M::Fnf { meta, data, .. } | M::Stream { meta, data, .. } | M::Channel { meta, data, .. } | M::Payload { meta, data, .. } => Some((meta, data)),
            _ => None,
        }
    }
}

// ---- generation ----------------------------------------------------------------------------------

/// Deterministic filler that differs by position and by `tag`.
pub fn content(tag: u32, len: usize) -> Bytes {
    let mut v = Vec::with_capacity(len);
    let mut x = mix(tag as u64 + 1);
    while v.len() < len {
        x = x.wrapping_mul(0x5851F42D4C957F2D).wrapping_add(0x14057B7EF767814F);
        let b = mix(x).to_le_bytes();
        let k = (len - v.len()).min(8);
        v.extend_from_slice(&b[..k]);
    }
    v.into()
}
pub fn gen_len(large: bool) -> usize {
    match below(if large { 26 } else { 20 }) {
        0..=3 => 0,
        4..=11 => 1 + below(9),
        12..=16 => below(64),
        17 => pick(&[126, 127, 128, 129, 254, 255, 256, 257]),
        18 | 19 => below(700),
        20 => pick(&[4095, 4096, 4097]),
        21 => pick(&[65534, 65535, 65536, 65537]),
        22 => 65536 + below(9000),
        24 => pick(&[32767, 32768, 1 << 17, (1 << 20) - 1, 1 << 20, (1 << 20) + 1]),
        25 if chance(1, 6) => { probe("frame.giant"); pick(&[(1 << 24) - 1, (1 << 24) - 2, 1 << 23, (1 << 23) - 1]) }
        _ => below(6000),
    }
}
/// None and Some(empty) both stand for "empty".
pub fn gen_bytes(large: bool) -> Option<Bytes> {
    let n = gen_len(large);
    if n == 0 { return if chance(1, 2) { Some(Bytes::new()) } else { None }; }
    Some(filler(choose(1 << 16), n))
}
/// Mostly like `content`; sometimes text, or what looks like text or like special values.
pub fn filler(tag: u32, n: usize) -> Bytes {
    match below(8) {
        5 => vec![pick(&[0u8, 0xFF, 0x7F, 0x80, b' ', b'a', b'\n', 1]); n].into(),
        6 => { // text, perhaps broken off within a character
            let t = pick(&["reason: ", "é漢🙂", "{\"route\": 1}", "\u{feff}x", "a\u{0}b"]);
            let mut v = t.repeat(n / t.len() + 1).into_bytes();
            v.truncate(n);
            v.into()
        }
        7 => {
            let mut v = content(tag, n).to_vec();
            for i in 0..n.min(3) { if chance(1, 2) { v[i] = pick(&[0, 1, 0x7F, 0x80, 0xFF]); } }
            if n > 0 && chance(1, 2) { v[n - 1] = pick(&[0, 0xFF, b'\n', b' ']); }
            v.into()
        }
        _ => content(tag, n),
    }
}
pub fn gen_sid() -> u32 { match below(6) { 0 | 1 => 1 + choose(8), 2 => MAX31 - choose(3), 3 => 1 << below(31), _ => 1 + choose(MAX31 - 1) } }
pub fn gen_u31() -> u32 { match below(7) { 0 | 1 => choose(4), 2 => MAX31 - choose(3), 3 => 1u32 << below(31), 4 => (1u32 << below(31)) - 1, _ => choose(MAX31) } }
pub fn gen_u63() -> u64 { match below(7) { 0 | 1 => choose(4) as u64, 2 => MAX63 - choose(3) as u64, 3 => 1u64 << below(63), 4 => (1u64 << below(63)) - 1, _ => wide() & MAX63 } }
fn gen_u16() -> u16 { match below(5) { 0 => choose(3) as u16, 1 => 0xFFFF - choose(2) as u16, 2 => 1 << below(16), _ => choose(1 << 16) as u16 } }
fn gen_mime(longer: bool, data: bool) -> Option<String> {
    let n = match below(if longer { 9 } else { 8 }) { 8 => pick(&[256, 257, 300, 511, 512, 600]), 0 | 1 => return None, 2 => 0, 3 => pick(&[1usize, 126, 127, 128, 129]), 4 => pick(&[253usize, 254, 255]), 5 => 1 + below(24), 6 => below(256), _ => {
        let c = pick(&["é", "漢", "ß/ü", "a\u{301}", "🙂"]);
        return Some(c.repeat(1 + below(255 / c.len())));
    } };
    let mut s = String::new();
    let start = below(26);
    for i in 0..n { s.push((b'a' + ((start + i * 7) % 26) as u8) as char); }
    if n > 255 && chance(1, 4) { s = pick(&["é", "漢", "🙂"]).repeat(n / 2); }
    if n > 255 {
        // Too long for the format: refused, unless the frame manages to carry it.
        probe("frame.overlong_mime_type");
        let t = s.clone();
        if !accepts(|| { let b = SetupFrame::builder(); if data { b.set_data_mimetype(t) } else { b.set_metadata_mimetype(t) } }) { return None; }
    }
    Some(s)
}
fn payload(m: &Option<Bytes>, d: &Option<Bytes>) -> Payload {
    let mut b = Payload::builder();
    if let Some(m) = m { b = b.set_metadata(m.clone()); }
    if let Some(d) = d { b = b.set_data(d.clone()); }
    b.build()
}
pub fn bytes_of(o: &Option<Bytes>) -> Bytes { o.clone().unwrap_or_default() }

/// A frame as an application or a connection builds it, and what it stands for.
pub fn gen_frame(kind: Option<usize>, large: bool) -> (Frame, M) {
    let kind = kind.unwrap_or_else(|| below(14));
    let longer = chance(1, 16);
    let (m, mut d) = (gen_bytes(large), gen_bytes(large));
    if large && chance(1, 80) { probe("frame.giant"); d = Some(content(choose(1 << 16), (1 << 24) + below(3))); }
    let (meta, data) = (bytes_of(&m), bytes_of(&d));
    let p = payload(&m, &d);
    let sid = gen_sid();
    let n = gen_u31().max(1);
    let (f1, f2, f3) = (chance(1, 2), chance(1, 2), chance(1, 2));
    match kind {
        0 => (Frame::RequestFnf(RequestFnfFrame::new(sid, f1, p)), M::Fnf { sid, follows: f1, meta, data }),
        1 => (Frame::RequestResponse(RequestResponseFrame::new(sid, f1, p)), M::Response { sid, follows: f1, meta, data }),
        2 => (Frame::RequestStream(RequestStreamFrame::new(sid, f1, n, p)), M::Stream { sid, follows: f1, n, meta, data }),
        3 => (Frame::RequestChannel(RequestChannelFrame::new(sid, f1, f2, n, p)), M::Channel { sid, follows: f1, complete: f2, n, meta, data }),
        4 => {
            let mut fl = Flags::empty();
            if f1 { fl |= Flags::FOLLOWS; }
            if f2 { fl |= Flags::COMPLETE; }
            if f3 { fl |= Flags::NEXT; }
            // Other flags are no concern of this frame.
            if chance(1, 8) { fl |= Flags::from_bits_truncate(choose(1 << 16) as u16) - (Flags::FOLLOWS | Flags::COMPLETE | Flags::NEXT); }
            (Frame::Payload(PayloadFrame::new(sid, fl, p)), M::Payload { sid, follows: f1, complete: f2, next: f3, meta, data })
        }
        5 => (Frame::RequestN(RequestNFrame::new(sid, n)), M::RequestN { sid, n }),
        6 => (Frame::Cancel(CancelFrame::new(sid)), M::Cancel { sid }),
        7 => (Frame::MetadataPush(MetadataPushFrame::new(meta.clone())), M::Push { meta }),
        8 => { let pos = gen_u63(); (Frame::Keepalive(KeepaliveFrame::new(pos, d, f1)), M::Keepalive { respond: f1, pos, data }) }
        9 => { let (ttl, k) = (gen_u31(), gen_u31()); (Frame::Lease(LeaseFrame::new(ttl, k, m)), M::Lease { ttl, n: k, meta }) }
        10 => {
            let (sid, code) = match below(5) {
                0 => (0, pick(&[1, 2, 3, 4, 0x101, 0x102])),
                1 => (sid, pick(&[0x201, 0x202, 0x203, 0x204])),
                2 => (sid, 0x301 + choose(MAX31 - 0x301)),
                // The codes of applications go up to the last but one; the first and the last are reserved, but codes.
                3 => (sid, pick(&[0xFFFF_FFFE, 0x8000_0000, 0xFFFF_FFFD, 0xFFFF_FFFF, 0, MAX31 + 1 + choose(MAX31 - 1)])),
                _ => (sid, pick(&[0x301, MAX31, MAX31 - 1, 0x10000])),
            };
            (Frame::Error(ErrorFrame::new(sid, code, d)), M::Error { sid, code, data })
        }
        11 => {
            let version = (gen_u16(), gen_u16());
            let token = content(choose(256), if large && chance(1, 8) { pick(&[65535usize, 65534, 32768]) } else { gen_len(false) });
            let (server, client) = (gen_u63(), gen_u63());
            (Frame::Resume(ResumeFrame::new(Version::new(version.0, version.1), token.clone(), server, client)), M::Resume { version, token, server, client })
        }
        12 => { let client = gen_u63(); (Frame::ResumeOk(ResumeOkFrame::new(client)), M::ResumeOk { client }) }
        _ => {
            let mut b = SetupFrame::builder();
            let (mut version, mut interval, mut timeout) = ((1, 0), 30_000, 60_000);
            let (mut token, mut mm, mut dm) = (Bytes::new(), Bytes::from("application/binary"), Bytes::from("application/binary"));
            let mut resume = f2;
            // The builder's setters, in either order.
            let rev = chance(1, 2);
            for i in 0..8 {
                b = match if rev { 7 - i } else { i } {
                    0 if f1 => b.set_lease_flag(),
                    1 if f2 => b.set_resume_flag(),
                    2 if f3 => { let v = (gen_u16(), gen_u16()); version = v; b.set_version(v.0, v.1) }
                    3 => match below(3) {
                        0 => b,
                        1 => { interval = gen_u31().max(1); b.set_keepalive_interval(interval) }
                        _ => { timeout = gen_u31().max(1); interval = gen_u31().max(1); b.set_keepalive_timeout(timeout).set_keepalive_interval(interval) }
                    },
                    4 if chance(1, 3) => {
                        token = content(choose(256), if large && chance(1, 8) { pick(&[65535usize, 65534, 32768]) } else { gen_len(false) });
                        resume = true;
                        b.set_resume_token(token.clone())
                    }
                    5 => match gen_mime(longer, false) { Some(s) => { mm = s.clone().into(); b.set_metadata_mimetype(s) } None => b },
                    6 => match gen_mime(longer, true) { Some(s) => { dm = s.clone().into(); b.set_data_mimetype(s) } None => b },
                    7 => {
                        if let Some(m) = m.clone() { b = b.set_metadata(m); }
                        if let Some(d) = d.clone() { b = b.set_data(d); }
                        b
                    }
                    _ => b,
                };
            }
            (Frame::Setup(b.build()), M::Setup { lease: f1, resume, version, interval, timeout, token, meta_mime: mm, data_mime: dm, meta, data })
        }
    }
}

// ---- what binate says a frame contains -----------------------------------------------------------

fn ob(o: Option<&Bytes>) -> Bytes { o.cloned().unwrap_or_default() }
/// MIME types that are not ASCII are not shown as strings.
pub fn mime(b: &Bytes) -> Bytes { if b.is_ascii() { b.clone() } else { Bytes::from_static(b"<not ascii>") } }
fn om(o: Option<&str>) -> Bytes { match o { Some(s) => Bytes::copy_from_slice(s.as_bytes()), None => Bytes::from_static(b"<not ascii>") } }
fn ms(d: std::time::Duration) -> u32 { u32::try_from(d.as_millis()).unwrap_or(u32::MAX) }
fn ver(v: Version) -> (u16, u16) { (v.major(), v.minor()) }

/// Reads all fields through the public accessors. Err: accessors contradict each other.
pub fn read(f: &Frame) -> Result<M, String> {
    let split = |p: Payload, m: Bytes, d: Bytes| -> Result<(Bytes, Bytes), String> {
        let text = |b: &Bytes| std::str::from_utf8(b).ok().map(str::to_owned);
        if p.metadata_utf8().ok().map(str::to_owned) != text(&m) || p.data_utf8().ok().map(str::to_owned) != text(&d) { return Err("the payload's parts as text and as bytes differ".into()); }
        if p.len() != m.len() + d.len() || p.is_empty() != (m.len() + d.len() == 0) || ob(p.metadata()) != m || ob(p.data()) != d { return Err("the payload's length or parts and the frame's differ".into()); }
        if (!m.is_empty() && !p.has_metadata()) || (!d.is_empty() && !p.has_data()) { return Err("the payload denies one of its parts".into()); }
        let (pm, pd) = p.split();
        if bytes_of(&pm) != m || bytes_of(&pd) != d { return Err("payload() and the accessors of its parts differ".into()); }
        Ok((m, d))
    };
    Ok(match f {
        Frame::Setup(v) => {
            let (meta, data) = split(v.clone().payload(), ob(v.metadata()), ob(v.data()))?;
            M::Setup { lease: v.is_lease(), resume: v.is_resume(), version: ver(v.version()), interval: ms(v.keepalive_interval()), timeout: ms(v.keepalive_timeout()), token: ob(v.resume_token()), meta_mime: om(v.metadata_mimetype()), data_mime: om(v.data_mimetype()), meta, data }
        }
        Frame::Lease(v) => M::Lease { ttl: ms(v.ttl()), n: v.number_of_requests(), meta: ob(v.metadata()) },
        Frame::Keepalive(v) => M::Keepalive { respond: v.is_respond(), pos: v.last_received_position(), data: ob(v.data()) },
        Frame::RequestResponse(v) => { let (meta, data) = split(v.clone().payload(), ob(v.metadata()), ob(v.data()))?; M::Response { sid: v.stream_id(), follows: v.is_follows(), meta, data } }
        Frame::RequestFnf(v) => { let (meta, data) = split(v.clone().payload(), ob(v.metadata()), ob(v.request_data()))?; M::Fnf { sid: v.stream_id(), follows: v.is_follows(), meta, data } }
        Frame::RequestStream(v) => { let (meta, data) = split(v.clone().payload(), ob(v.metadata()), ob(v.data()))?; M::Stream { sid: v.stream_id(), follows: v.is_follows(), n: v.initial_request_n(), meta, data } }
        Frame::RequestChannel(v) => { let (meta, data) = split(v.clone().payload(), ob(v.metadata()), ob(v.data()))?; M::Channel { sid: v.stream_id(), follows: v.is_follows(), complete: v.is_complete(), n: v.initial_request_n(), meta, data } }
        Frame::RequestN(v) => M::RequestN { sid: v.stream_id(), n: v.request_n() },
        Frame::Cancel(v) => M::Cancel { sid: v.stream_id() },
        Frame::Payload(v) => { let (meta, data) = split(v.clone().payload(), ob(v.metadata()), ob(v.data()))?; M::Payload { sid: v.stream_id(), follows: v.is_follows(), complete: v.is_complete(), next: v.is_next(), meta, data } }
        Frame::Error(v) => {
            let data = ob(v.data());
            let want = v.data().and_then(|d| std::str::from_utf8(d).ok().map(str::to_owned));
            if v.data_utf8().map(str::to_owned) != want { return Err("data_utf8() and data() differ".into()); }
            M::Error { sid: v.stream_id(), code: v.error_code(), data }
        }
        Frame::MetadataPush(v) => M::Push { meta: v.metadata().clone() },
        Frame::Resume(v) => M::Resume { version: ver(v.version()), token: v.resume_token().clone(), server: v.last_received_server_position(), client: v.first_available_client_position() },
        Frame::ResumeOk(v) => M::ResumeOk { client: v.last_received_server_position() },
    })
}
/// As `read` shows it: MIME types that are not ASCII are invisible.
pub fn shown(m: &M) -> M {
    let mut m = m.clone();
    if let M::Setup { meta_mime, data_mime, .. } = &mut m { *meta_mime = mime(meta_mime); *data_mime = mime(data_mime); }
    m
}

// ---- what bytes spell ----------------------------------------------------------------------------

#[derive(Debug)]
pub struct Spelled { pub ok: Option<M>, pub errs: Vec<E> }

struct R<'a> { b: &'a Bytes, at: usize }
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<Bytes> { if self.b.len() - self.at < n { return None; } let r = self.b.slice(self.at..self.at + n); self.at += n; Some(r) }
    fn num(&mut self, n: usize) -> Option<u64> { Some(self.take(n)?.iter().fold(0u64, |a, b| a << 8 | *b as u64)) }
    fn u31(&mut self) -> Option<u32> { Some(self.num(4)? as u32 & MAX31) }
    fn u63(&mut self) -> Option<u64> { Some(self.num(8)? & MAX63) }
    fn ver(&mut self) -> Option<(u16, u16)> { Some((self.num(2)? as u16, self.num(2)? as u16)) }
    fn len_bytes(&mut self, n: usize) -> Option<Bytes> { let l = self.num(n)? as usize; self.take(l) }
    fn rest(&mut self) -> Bytes { let r = self.b.slice(self.at..); self.at = self.b.len(); r }
    fn body(&mut self) -> Option<(Bytes, Bytes)> { let m = self.len_bytes(3)?; Some((m, self.rest())) }
}

pub const F_FOLLOWS: u16 = 0x40; // also RESUME and RESPOND
pub const F_COMPLETE: u16 = 0x20; // also LEASE
pub const F_NEXT: u16 = 0x10;

/// All outcomes the documentation allows for decoding these bytes.
pub fn spell(b: &Bytes) -> Spelled {
    let mut r = R { b, at: 0 };
    if b.len() < 6 { return Spelled { ok: None, errs: vec![E::Incomplete] }; }
    let sid = r.num(4).unwrap() as u32 & MAX31;
    let tf = r.num(2).unwrap() as u16;
    let (t, fl) = (tf >> 10, tf & 0x3FF);
    if !(1..=14).contains(&t) { return Spelled { ok: None, errs: vec![E::Type(t)] }; }
    let (b40, b20, b10) = (fl & F_FOLLOWS != 0, fl & F_COMPLETE != 0, fl & F_NEXT != 0);
    let m = (|| Some(match t {
        1 => {
            let version = r.ver()?;
            let (interval, timeout) = (r.u31()?, r.u31()?);
            let token = if b40 { r.len_bytes(2)? } else { Bytes::new() };
            let (meta_mime, data_mime) = (r.len_bytes(1)?, r.len_bytes(1)?);
            let (meta, data) = r.body()?;
            M::Setup { lease: b20, resume: b40, version, interval, timeout, token, meta_mime, data_mime, meta, data }
        }
        2 => M::Lease { ttl: r.u31()?, n: r.u31()?, meta: r.rest() },
        3 => M::Keepalive { respond: b40, pos: r.u63()?, data: r.rest() },
        4 => { let (meta, data) = r.body()?; M::Response { sid, follows: b40, meta, data } }
        5 => { let (meta, data) = r.body()?; M::Fnf { sid, follows: b40, meta, data } }
        6 => { let n = r.u31()?; let (meta, data) = r.body()?; M::Stream { sid, follows: b40, n, meta, data } }
        7 => { let n = r.u31()?; let (meta, data) = r.body()?; M::Channel { sid, follows: b40, complete: b20, n, meta, data } }
        8 => M::RequestN { sid, n: r.u31()? },
        9 => M::Cancel { sid },
        10 => { let (meta, data) = r.body()?; M::Payload { sid, follows: b40, complete: b20, next: b10, meta, data } }
        11 => M::Error { sid, code: r.num(4)? as u32, data: r.rest() },
        12 => M::Push { meta: r.rest() },
        13 => { let version = r.ver()?; let token = r.len_bytes(2)?; M::Resume { version, token, server: r.u63()?, client: r.u63()? } }
        _ => M::ResumeOk { client: r.u63()? },
    }))();
    let mut errs = Vec::new();
    if m.is_none() { errs.push(E::Incomplete); }
    let misaddressed = match (t, &m) {
        (1..=3, _) | (12..=14, _) => sid != 0,
        (11, Some(M::Error { code, .. })) => match code { 1..=4 | 0x101 | 0x102 => sid != 0, 0x201..=0x204 => sid == 0, _ => false },
        _ => false,
    };
    if misaddressed { errs.push(E::Stream(sid)); }
    let ok = if errs.is_empty() { m } else { None };
    // Whether a request may use stream 0 is not documented: rejecting it would be fine as well.
    if sid == 0 && ok.is_some() && matches!(t, 4..=10) { errs.push(E::Stream(0)); }
    Spelled { ok, errs }
}

/// Whether binate's verdict is one of the allowed ones.
pub fn agrees(got: &Result<Frame, DecodeError>, want: &Spelled) -> Result<(), String> {
    match got {
        Ok(f) => {
            let m = read(f)?;
            match &want.ok {
                Some(w) if shown(w) == m => Ok(()),
                Some(w) => Err(format!("decoded as {} but the bytes spell {}", m.text(), shown(w).text())),
                None => Err(format!("decoded as {} but must be rejected as {:?}", m.text(), want.errs)),
            }
        }
        Err(e) => {
            let e: E = e.into();
            if want.errs.contains(&e) { Ok(()) } else {
                Err(format!("rejected as {:?} but {}", e, match &want.ok { Some(w) => format!("the bytes spell {}", w.text()), None => format!("must be rejected as {:?}", want.errs) }))
            }
        }
    }
}
