//! C14: the receive buffer, with segments arriving while a reader works through it.
use crate::engine::*;
use crate::link::{segment, Seg};
use crate::model::content;
use crate::{ev, rt};
use binate::connection::sim::SimBufList;
use bytes::{Buf, Bytes};
use std::collections::VecDeque;
use std::io::{IoSlice, Read};

pub fn scenario() {
    let mut buf: SimBufList<Seg> = SimBufList::new();
    let compound = chance(1, 2);
    let mut model: VecDeque<u8> = VecDeque::new();
    let mut next = 0u32;
    // Now and then a long backlog: many segments arrive before anything is read.
    let (n, backlog) = match below(24) { 0 => (100 + below(1500), below(1300)), 1 => (40 + below(300), 60 + below(80)), 2 => (20 + below(60), pick(&[64usize, 128, 256, 512, 1024]) + below(3)), _ => (4 + below(40), 0) };
    // Very rarely segments of megabytes.
    let huge = chance(1, 1500);
    let (n, backlog) = if huge { (6 + below(6), below(4)) } else { (n, backlog) };
    if huge { probe("buf.huge_segments"); }
    if backlog > 60 { probe("buf.long_backlog"); }
    if backlog > 100 { eng().quiet = true; }
    // Segments in one piece, which a vectored read shows whole.
    let whole = !compound || backlog > 0 || huge;
    let burst = 1 + below(5) as u32; // arrivals per read
    let tiny = chance(1, 8);
    for i in 0..n + backlog {
        eng().clock += 10;
        if i < backlog || chance(burst, burst + 2) {
            let len = if huge && model.len() < 48 << 20 && chance(1, 2) { pick(&[1usize << 20, (1 << 20) + 1, 3 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 20 << 20]) } else if tiny { 1 } else if chance(1, 200) { pick(&[4096usize, 8192, 16384, 65535, 65536, 70_000, 300_000]) } else { match below(8) { 0..=3 => 1 + below(4), 4 | 5 => 1 + below(20), 6 => 1 + below(3), _ => 1 + below(3000) } };
            let seg = content(next, len);
            next += 1;
            if !model.is_empty() { fault("delivered in pieces"); }
            ev!(1 + len as u64, "segment of {} bytes arrives", len);
            model.extend(seg.iter());
            let seg: Seg = if !whole { segment(seg, 0, false) } else { Box::new(seg) };
            rt::cut(|| buf.push(seg));
        } else {
            read(&mut buf, &mut model, whole);
        }
        let r = rt::cut(|| buf.remaining());
        if r != model.len() { violate("remaining", format!("the buffer says {} bytes remain, but {} do", r, model.len())); }
        if rt::cut(|| buf.has_remaining()) != !model.is_empty() { violate("remaining", format!("has_remaining() is wrong with {} bytes left", model.len())); }
    }
    // The link has delivered everything: read to the end.
    while !model.is_empty() { read(&mut buf, &mut model, whole); if chance(1, 4) { drain(&mut buf, &mut model); } }
    let rest = rt::cut(|| buf.remaining());
    if rest != 0 { violate("remaining", format!("{} bytes remain after the last one was read", rest)); }
    let c = rt::cut(|| buf.chunk().len());
    if c != 0 { violate("extra-bytes", format!("an empty buffer shows {} bytes", c)); }
}

fn expect(got: &[u8], model: &mut VecDeque<u8>, how: &str) {
    let want: Vec<u8> = model.drain(..got.len().min(model.len())).collect();
    if got != &want[..] {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len());
        violate("wrong-bytes", format!("{} delivered {} bytes that differ from the bytes sent at offset {}", how, got.len(), at));
    }
}
fn amount(left: usize) -> usize {
    match below(7) { 0 => 0, 1 | 2 => below(left + 1), 3 => left, 4 => left - below(left + 1).min(3), _ => below(left.min(12) + 1) }
}
fn drain(buf: &mut SimBufList<Seg>, model: &mut VecDeque<u8>) {
    let n = model.len();
    let b = rt::cut(|| buf.copy_to_bytes(n));
    ev!(2, "reads all {} bytes", n);
    if b.len() != n { violate("short-read", format!("asked for {} bytes, got {}", n, b.len())); }
    expect(&b, model, "copy_to_bytes");
}

fn read(buf: &mut SimBufList<Seg>, model: &mut VecDeque<u8>, whole: bool) {
    let left = model.len();
    let kind = below(12);
    if left == 0 && kind > 4 { return; }
    match kind {
        0 | 1 => {
            // The start of a segment and of what is around it.
            let front = rt::cut(|| buf.chunk().len());
            if front == 0 && left > 0 { violate("stuck", format!("no bytes visible although {} remain", left)); }
            let n = match below(4) { 0 => front, 1 => front + 1, 2 => front.saturating_sub(1), _ => amount(left) }.min(left);
            let b = rt::cut(|| buf.copy_to_bytes(n));
            ev!(3 + n as u64, "copy_to_bytes({})", n);
            if b.len() != n { violate("short-read", format!("asked for {} bytes, got {}", n, b.len())); }
            expect(&b, model, "copy_to_bytes");
        }
        2 | 3 => {
            let front = rt::cut(|| buf.chunk().len());
            if front == 0 && left > 0 { violate("stuck", format!("no bytes visible although {} remain", left)); }
            let n = match below(4) { 0 => front, 1 => front + 1, 2 => front.saturating_sub(1), _ => amount(left) }.min(left);
            ev!(4 + n as u64, "advance({})", n);
            rt::cut(|| buf.advance(n));
            model.drain(..n);
        }
        4 => {
            let c = rt::cut(|| buf.chunk().to_vec());
            ev!(5, "chunk(): {} bytes", c.len());
            if left > 0 && c.is_empty() { violate("stuck", format!("no bytes visible although {} remain", left)); }
            let want: Vec<u8> = model.iter().copied().take(c.len()).collect();
            if c != want { violate("wrong-bytes", "chunk() shows bytes that are not next".to_string()); }
        }
        5 | 6 => {
            let k = match below(6) { 0 => pick(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600, 1100, 3000]), 1 => 1 + below(70), _ => 1 + below(5) };
            if k > 60 { probe("buf.many_slices"); }
            let empty: [u8; 0] = [];
            let mut io: Vec<IoSlice<'_>> = (0..k).map(|_| IoSlice::new(&empty)).collect();
            let n = rt::cut(|| buf.chunks_vectored(&mut io));
            ev!(6 + n as u64, "chunks_vectored({}): {}", k, n);
            if n > k { violate("wrong-bytes", format!("vectored read filled {} of {} slices", n, k)); }
            let got: Vec<u8> = io[..n].iter().flat_map(|s| s.iter().copied()).collect();
            if rt::cut(|| buf.remaining()) != left { violate("remaining", "a vectored read changed what remains".to_string()); }
            if got.is_empty() { violate("stuck", format!("vectored read shows nothing although {} bytes remain", left)); }
            if whole && n < k && got.len() < left { violate("stuck", format!("vectored read fills {} of {} slices with {} bytes, although {} remain", n, k, got.len(), left)); }
            let want: Vec<u8> = model.iter().copied().take(got.len()).collect();
            if got != want { violate("wrong-bytes", "vectored read shows bytes that are not next".to_string()); }
            if chance(1, 2) { let m = got.len(); rt::cut(|| buf.advance(m)); model.drain(..m); }
        }
        7 => {
            let w = pick(&[1usize, 2, 4, 8, 3, 5, 6, 7, 16]);
            if w == 16 {
                if left < w { return; }
                let le = chance(1, 2);
                let v = rt::cut(|| if le { buf.get_u128_le() } else { buf.get_u128() });
                ev!(7, "reads an integer of 16 bytes");
                let b = if le { v.to_le_bytes() } else { v.to_be_bytes() };
                return expect(&b, model, "an integer read");
            }
            if left < w { return; }
            let v = rt::cut(|| match w { 1 => buf.get_u8() as u64, 2 => buf.get_u16() as u64, 4 => buf.get_u32() as u64, 8 => buf.get_u64(), _ => buf.get_uint(w) });
            ev!(7, "reads an integer of {} bytes", w);
            expect(&v.to_be_bytes()[8 - w..], model, "an integer read");
        }
        8 => {
            let n = amount(left);
            let mut v = vec![0; n];
            rt::cut(|| buf.copy_to_slice(&mut v));
            ev!(8 + n as u64, "copy_to_slice({})", n);
            expect(&v, model, "copy_to_slice");
        }
        9 => {
            let n = amount(left);
            let b = rt::cut(|| { let mut t = Buf::take(&mut *buf, n); let r = t.remaining(); t.copy_to_bytes(r) });
            ev!(9 + n as u64, "take({})", n);
            if b.len() != n { violate("short-read", format!("asked for {} bytes, got {}", n, b.len())); }
            expect(&b, model, "take");
        }
        10 => {
            let mut v = vec![0; 1 + below(50)];
            let n = rt::cut(|| Buf::reader(&mut *buf).read(&mut v).unwrap());
            ev!(10, "reader: {} of {}", n, v.len());
            if n == 0 { violate("stuck", format!("reader returned nothing although {} bytes remain", left)); }
            expect(&v[..n], model, "reader");
        }
        _ => {
            // Put behind other bytes, as when a length prefix was read before.
            let pre = Bytes::from_static(b"##");
            let n = amount(left);
            let b = rt::cut(|| { let mut c = Buf::chain(pre, &mut *buf); c.copy_to_bytes(n + 2) });
            ev!(11 + n as u64, "chained read of {}", n);
            if b.len() != n + 2 { violate("short-read", format!("asked for {} bytes, got {}", n, b.len().saturating_sub(2))); }
            expect(&b[2..], model, "a chained read");
        }
    }
}
