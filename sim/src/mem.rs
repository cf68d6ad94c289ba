//! C28: memory in use follows what was received and is given back. The simulated machine counts every
//! byte that is allocated and released.
use crate::conn::*;
use crate::engine::*;
use crate::link::*;
use crate::model::*;
use crate::session::*;
use crate::{ev, rt};
use binate::connection::sim::{SimBufList, SimMachine};
use binate::connection::ConnectionStatus as Status;
use binate::frame::{Encode, Frame};
use binate::Payload;
use bytes::{Buf, Bytes};
use std::time::Duration;

/// What handling `n` bytes may take at a time, and what may be left of it: enough for any reasonable
/// way to do it, nowhere near what a length field can announce.
const FACTOR: i64 = 16;
const EXTRA: i64 = 16 << 10;
const REST: i64 = 8 << 10;

pub fn scenario() {
    match below(8) { 0 => traffic(), 1 => lives(), _ => receiving() }
}

fn within(what: &str, n: usize, peak: i64) {
    let most = FACTOR * n as i64 + EXTRA;
    if peak > most { violate("memory-out-of-proportion", format!("{} of {} bytes took {} bytes of memory, more than {}", what, n, peak, most)); }
}

fn receiving() {
    let large = chance(1, 20);
    let mut list: Vec<Bytes> = Vec::new();
    for _ in 0..1 + below(6) { let (f, _) = rt::cut(|| gen_frame(None, large)); list.push(rt::cut(|| f.to_bytes())); }
    for i in 0..list.len() {
        if !chance(3, 4) { continue; }
        if chance(1, 2) { announce(&mut list[i]); } else { let other = list[below(list.len())].clone(); list[i] = damage(&list[i], &other, chance(1, 4)); }
    }
    for b in &list {
        let n = b.len();
        ev!(3 + hash_bytes(b), "{} bytes arrive", n);
        let before = rt::live();
        let times = if chance(1, 30) { probe("mem.repeated"); 300 } else { 1 };
        for k in 0..times {
            let (v, peak) = rt::metered(|| rt::cut(|| Frame::decode(&mut b.clone())));
            within("decoding", n, peak);
            if k > 0 { rt::cut(|| drop(v)); continue; }
            match v {
                Ok(f) => {
                    probe("mem.decoded");
                    let (out, peak) = rt::metered(|| rt::cut(|| f.to_bytes()));
                    within("encoding", out.len(), peak);
                    rt::cut(|| drop((f, out)));
                }
                Err(e) => { probe("mem.rejected"); rt::cut(|| drop(e)); }
            }
        }
        {
            let segs = cut_up(b);
            let mut l = buffer(&segs);
            let (v, peak) = rt::metered(|| rt::cut(|| Frame::decode(&mut l)));
            within("decoding from segments", n, peak);
            rt::cut(|| drop((v, l)));
        }
        {
            let mut q: std::collections::VecDeque<u8> = b.iter().copied().collect();
            q.rotate_left(0);
            let (v, peak) = rt::metered(|| rt::cut(|| Frame::decode(&mut q)));
            within("decoding from a ring buffer", n, peak);
            rt::cut(|| drop(v));
        }
        let rest = rt::live() - before;
        if rest > REST { violate("memory-kept", format!("{} bytes of memory are still in use after {} bytes were handled {} times and everything was dropped", rest, n, times)); }
    }
    // The same as fragments of one request.
    let before = rt::live();
    {
        let mut l = SimBufList::new();
        let copies: i64 = if chance(1, 10) { 20 } else { 1 };
        for _ in 0..copies { for b in list.iter().filter(|b| !b.is_empty()) { l.push(b.clone()); } }
        let n = l.remaining();
        let fragments = copies * list.len() as i64;
        let (r, peak) = rt::metered(|| rt::cut(|| l.into_payload()));
        // All of the frames may be held at a time.
        within("reassembly", n, peak - 1024 * fragments);
        ev!(4, "reassembly of {} bytes: {}", n, if r.is_ok() { "fine" } else { "error" });
        if r.is_ok() { probe("mem.reassembled"); }
        rt::cut(|| drop(r));
    }
    let rest = rt::live() - before;
    if rest > REST { violate("memory-kept", format!("{} bytes of memory are still in use after a reassembly of which nothing is left", rest)); }
}

/// Overwrites bytes with the beginnings of large numbers, where lengths and counts could be.
fn announce(b: &mut Bytes) {
    let mut v = b.to_vec();
    for _ in 0..1 + below(3) {
        if v.len() < 7 { break; }
        let i = if chance(3, 4) { 6 + below((v.len() - 6).min(30)) } else { below(v.len()) };
        let k = 1 + below(4);
        for x in v.iter_mut().skip(i).take(k) { *x = pick(&[0xFF, 0x7F, 0x3F, 0x0F]); }
    }
    if chance(1, 4) { v[5.min(b.len() - 1)] |= 0xF0; v[4.min(b.len() - 1)] |= 3; }
    *b = v.into();
    fault("large numbers written over fields");
}

/// One connection at work: however much passes through it, it comes to need no more memory.
fn traffic() {
    LOG.lock().unwrap().clear();
    rt::long_run();
    eng().quiet = true;
    let conn = SimConn::new();
    let refuse = pick(&[0, 0, 1, 8]);
    let throws = if refuse > 0 && chance(1, 2) { 8 } else { 0 };
    conn.with(|s| { s.lean = Some(refuse); s.throws = throws; });
    if refuse > 0 { fault("sends refused"); }
    let rt_ = runtime(false);
    let chunk = if chance(1, 2) { Some(1 + below(40)) } else { None };
    let client = chance(1, 2);
    let machine = rt_.block_on(rt::cut(|| SimMachine::new(client, conn.clone(), Duration::from_secs(86_400), chunk)));
    let mix: Vec<usize> = (0..1 + below(6)).map(|_| below(7)).collect();
    let (f, _) = rt::cut(|| gen_frame(None, false));
    let f2 = match keepalive() { Net::Keepalive(f) => f, _ => unreachable!() };
    let size = gen_len(false).min(200);
    ev!(1 + (size + 1000 * mix.iter().fold(1, |a, k| a * 7 + k)) as u64 * 64 + chunk.unwrap_or(0) as u64, "traffic of kinds {:?} with {} bytes each, fragments of {:?} bytes", mix, size, chunk);
    let mut base = 0;
    let rounds = if chance(1, 5) { probe("mem.long_traffic"); 6000 } else { 1200 };
    for i in 0..rounds {
        if i == rounds / 2 { base = rt::live(); }
        match mix[i % mix.len()] {
            0 => { let p = Payload::builder().set_data(content(i as u32, size)).set_metadata(content(i as u32, size / 2)).build(); let _ = request(&machine, p); }
            1 => { let m = content(i as u32, size); let _ = rt_.block_on(push(&machine, m)); }
            2 => { let m = content(i as u32, size); drop(push(&machine, m)); }
            3 => conn.deliver(f.clone()),
            4 => conn.deliver(f2.clone()),
            5 => conn.change(if i % 3 == 0 { Status::Closed } else { Status::Error(format!("transport failure {}", i)) }),
            _ => conn.change(if i % 2 == 0 { Status::Connecting } else { Status::Connected }),
        }
        LOG.lock().unwrap().clear();
        if i % 8 == 0 || i + 8 > rounds || i == rounds / 2 - 1 { rt_.block_on(async { tokio::time::sleep(Duration::from_millis(2)).await }); }
    }
    let rest = rt::live() - base;
    ev!(2, "done");
    if rest > REST { violate("memory-grows", format!("{} rounds of traffic on a connection left {} bytes of memory in use", rounds / 2, rest)); }
    probe("mem.traffic");
    rt::cut(|| drop(machine));
    rt::cut(|| drop(rt_));
}

/// Connections come and go.
fn lives() {
    LOG.lock().unwrap().clear();
    rt::long_run();
    eng().quiet = true;
    let rt_ = runtime(false);
    let timeout = pick(&[20u64, 1000, 60_000, 3_600_000]) * MS;
    let n = 60;
    let how = below(3);
    let on_close = OnClose::draw();
    let mut base = 0;
    for i in 0..n {
        if i == n / 2 { LOG.lock().unwrap().clear(); base = rt::live(); }
        let conn = SimConn::new();
        conn.with(|s| { s.lean = Some(0); s.on_close = if i % 3 == 0 { on_close } else { OnClose::Silent }; });
        let machine = rt_.block_on(rt::cut(|| SimMachine::new(i % 2 == 0, conn.clone(), Duration::from_nanos(timeout), None)));
        for k in 0..3 { let p = Payload::builder().set_data(content(k, 20)).build(); let _ = rt::cut(|| machine.rsocket().fire_and_forget(p)); }
        if how == 0 { rt::cut(|| drop(machine)); conn.end_streams(true, true); }
        else if how == 1 { conn.end_streams(true, true); rt_.block_on(async { tokio::time::sleep(Duration::from_nanos(timeout / 2)).await }); rt::cut(|| drop(machine)); }
        else { rt_.block_on(async { tokio::time::sleep(Duration::from_nanos(3 * timeout)).await }); conn.end_streams(true, true); rt::cut(|| drop(machine)); }
        rt_.block_on(async { tokio::time::sleep(Duration::from_nanos(2 * timeout + 10 * MS)).await });
    }
    fault("connections lost");
    LOG.lock().unwrap().clear();
    let rest = rt::live() - base;
    if rest > REST { violate("memory-grows", format!("{} connections that ended and were dropped left {} bytes of memory in use", n / 2, rest)); }
    probe("mem.lives");
    rt::cut(|| drop(rt_));
}
