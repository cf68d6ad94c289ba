//! C01-C04: concurrent requests for stream ids.
use crate::engine::*;
use crate::{ev, rt, threads};
use binate::connection::StreamIdProvider;
use dashmap::DashMap;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const MAX: u32 = 0x7FFF_FFFF;

#[derive(Clone, Copy, Debug)]
enum Op { Next(u32), Insert(u32), Remove(u32) }
struct Call { op: Op, inv: u64, ret: u64, thread: usize }

fn pos(id: u32, start: u32) -> u32 { (id.wrapping_sub(start) & MAX) / 2 }

pub fn scenario(prop: &str) {
    let client = !chance(1, 2);
    let mut start: u32 = if client { 1 } else { 2 };
    let back = below(12) as u32;
    let where_ = below(6);
    let raw: Option<i32> = match where_ {
        0 => None,
        // shortly before the ids wrap around
        1 => Some(if client { i32::MAX - 2 * back as i32 } else { i32::MAX - 1 - 2 * back as i32 }),
        // shortly before the cursor itself wraps around, too
        2 => Some(if client { -1 - 2 * back as i32 } else { -2 - 2 * back as i32 }),
        // anywhere
        3 => Some(((choose(u32::MAX) & !1) | client as u32) as i32),
        // shortly before a power of two
        4 => Some(((1u32 << (3 + below(28))).wrapping_sub(2 * back) & !1 | client as u32) as i32),
        _ => Some(((choose(1 << 16) << 15 & !1) | client as u32) as i32),
    };
    if let Some(r) = raw { start = r as u32 & MAX; }
    let provider = Arc::new(match raw {
        None if client => StreamIdProvider::new_for_client(),
        None => StreamIdProvider::new_for_server(),
        Some(r) => StreamIdProvider::sim_starting_at(r),
    });
    let at = move |p: u32| start.wrapping_add(2 * p) & MAX;
    ev!(1, "provider of a {} starts at id {}", if client { "client" } else { "server" }, start);

    let store: Arc<DashMap<u32, ()>> = Arc::new(DashMap::new());
    let mut pre = BTreeSet::new();
    // Rarely: blocks of very many active streams, and very many requests.
    let big = chance(1, 100);
    let biggest = big && chance(1, 10);
    match if big { 4 } else { below(4) } {
        0 => (),
        4 => {
            probe("ids.many_active_streams");
            let f = below(8) as u32;
            let n = if biggest { pick(&[65_536u32, 65_537, 70_000, 100_000, 140_000]) } else { match below(4) { 0 => 60 + below(10) as u32, 1 => 250 + below(10) as u32, 2 => 1020 + below(8) as u32, _ => below(5000) as u32 } };
            for i in 0..n { pre.insert(at(f + i)); }
        }
        1 => for _ in 0..1 + below(6) { pre.insert(at(below(16) as u32)); },
        2 => { let f = below(8) as u32; for i in 0..1 + below(40) as u32 { pre.insert(at(f + i)); } }
        _ => { // runs around the wraparound, whichever parity
            for _ in 0..1 + below(8) { let k = below(8) as u32; pre.insert(if client { 1 + 2 * k } else { 2 + 2 * k }); pre.insert((if client { MAX } else { MAX - 1 }) - 2 * below(6) as u32); }
        }
    }
    pre.remove(&0);
    if !pre.is_empty() { probe("ids.active_streams_present"); ev!(2, "{} active streams: {:?}", pre.len(), pre.iter().take(40).collect::<Vec<_>>()); }
    for id in &pre { store.insert(*id, ()); }

    let n = 1 + below(4);
    let long = chance(1, 150);
    let longest = long && chance(1, 12);
    if long { probe("ids.many_requests"); }
    let plans: Arc<Vec<Vec<(usize, u32)>>> = Arc::new((0..n).map(|_| (0..if longest { 20_000 + below(50_000) } else if long { 1 + below(1500) } else { 1 + below(6) }).map(|_| if longest { (0, 0) } else { (below(8), below(24) as u32) }).collect()).collect());
    let (p2, s2, pl2) = (provider.clone(), store.clone(), plans.clone());
    let pre2: Vec<u32> = pre.iter().copied().collect();
    threads::policy();
    if big || longest { rt::long_run(); }
    if longest || biggest { eng().quiet = true; }
    let mut calls: Vec<Call> = threads::run(n, move |t| {
        let mut out = Vec::new();
        let mut own: Vec<u32> = pre2.iter().copied().filter(|id| pos(*id, start) as usize % n == t).collect();
        for &(kind, arg) in &pl2[t] {
            rt::yield_();
            let mut call = |op: Op| {
                let inv = tick();
                ev!(3, "{} ...", name(op));
                let op = match op {
                    Op::Next(_) => Op::Next(rt::cut(|| p2.next_stream_id(&s2))),
                    Op::Insert(id) => { rt::cut(|| s2.insert(id, ())); op }
                    Op::Remove(id) => { rt::cut(|| s2.remove(&id)); op }
                };
                let id = match op { Op::Next(i) | Op::Insert(i) | Op::Remove(i) => i };
                ev!(4 + ((id as u64) << 8), "... {} done{}", name(op), if let Op::Next(i) = op { format!(": {}", i) } else { String::new() });
                out.push(Call { op, inv, ret: tick(), thread: t });
                id
            };
            match kind {
                0..=3 => { call(Op::Next(0)); }
                4 | 5 => { let id = call(Op::Next(0)); call(Op::Insert(id)); own.push(id); }
                6 => if own.is_empty() { call(Op::Next(0)); } else { let id = own.swap_remove(arg as usize % own.len()); call(Op::Remove(id)); },
                _ => { let id = at(arg); if id != 0 { call(Op::Insert(id)); } }
            }
        }
        out
    }).into_iter().flatten().collect();
    for _ in 0..below(4) {
        let inv = tick();
        let id = rt::cut(|| provider.next_stream_id(&store));
        ev!(4 + ((id as u64) << 8), "next id: {}", id);
        calls.push(Call { op: Op::Next(id), inv, ret: tick(), thread: 0 });
    }
    check(prop, client, start, raw.is_none(), &pre, &calls);
}

fn name(op: Op) -> String { match op { Op::Next(_) => "next id".into(), Op::Insert(i) => format!("register stream {}", i), Op::Remove(i) => format!("remove stream {}", i) } }

fn check(prop: &str, client: bool, start: u32, fresh: bool, pre: &BTreeSet<u32>, calls: &[Call]) {
    let nexts: Vec<(u32, &Call)> = calls.iter().filter_map(|c| if let Op::Next(i) = c.op { Some((i, c)) } else { None }).collect();
    let mut order: Vec<&Call> = nexts.iter().map(|x| x.1).collect();
    order.sort_by_key(|c| c.inv);
    if order.windows(2).any(|w| w[1].inv < w[0].ret) { probe("ids.overlapping_requests"); }
    if nexts.iter().any(|a| a.0 < start) { probe("ids.wrapped_around"); }
    match prop {
        "C01" => {
            let mut seen: BTreeMap<u32, &Call> = BTreeMap::new();
            for (id, c) in &nexts {
                if let Some(o) = seen.insert(*id, c) {
                    violate("duplicate-id", format!("stream id {} was handed out twice, to threads {} and {}", id, o.thread, c.thread));
                }
            }
        }
        "C02" => {
            for (id, _) in &nexts {
                if *id == 0 || *id > MAX { violate("id-out-of-range", format!("stream id {} was handed out; ids lie in 1..=2^31-1", id)); }
                if (*id % 2 == 1) != client { violate("id-of-wrong-parity", format!("stream id {} was handed out to a {}", id, if client { "client" } else { "server" })); }
            }
        }
        "C03" => {
            let mut about: BTreeMap<u32, Vec<&Call>> = BTreeMap::new();
            for o in calls { if let Op::Insert(i) | Op::Remove(i) = o.op { about.entry(i).or_default().push(o); } }
            for (id, c) in &nexts {
                // Registrations of this id that are complete before the request starts and not being
                // removed before it is over.
                let mut active = pre.contains(id);
                let mut since = 0;
                let mut last_removal = 0;
                for o in about.get(id).into_iter().flatten() {
                    match o.op {
                        Op::Remove(i) if i == *id && o.inv < c.ret => last_removal = last_removal.max(o.ret),
                        Op::Insert(i) if i == *id && o.ret < c.inv => { active = true; since = since.max(o.inv); }
                        _ => (),
                    }
                }
                // A removal that is over before the (last) registration starts does not end it.
                if active && (last_removal == 0 || last_removal < since) {
                    violate("active-id", format!("stream id {} was handed out to thread {} while it was an active stream", id, c.thread));
                }
            }
        }
        _ => {
            // Against the latest id of all requests that had returned before.
            let mut returned: Vec<(u64, u32)> = nexts.iter().map(|(a, c)| (c.ret, *a)).collect();
            returned.sort_unstable();
            let mut started: Vec<(u64, u32)> = nexts.iter().map(|(b, c)| (c.inv, *b)).collect();
            started.sort_unstable();
            let mut i = 0;
            let mut max: Option<u32> = None;
            for (inv, b) in started {
                while i < returned.len() && returned[i].0 < inv { let a = returned[i].1; if max.map_or(true, |m| pos(m, start) < pos(a, start)) { max = Some(a); } i += 1; }
                if let Some(a) = max.filter(|a| pos(*a, start) >= pos(b, start)) {
                    violate("out-of-order", format!("stream id {} was handed out after id {} by a request that started later (the sequence starts at {})", b, a, start));
                }
            }
            if fresh && start != if client { 1 } else { 2 } { unreachable!() }
            let mut known: BTreeSet<u32> = pre.iter().map(|i| pos(*i, start)).collect();
            for c in calls { let (Op::Next(i) | Op::Insert(i) | Op::Remove(i)) = c.op; known.insert(pos(i, start)); }
            if !client { known.insert(pos(0, start)); }
            let last = nexts.iter().map(|x| pos(x.0, start)).max().unwrap_or(0);
            for p in 0..=last.min(1 << 20) {
                if !nexts.is_empty() && !known.contains(&p) {
                    violate("skipped-id", format!("stream id {} was skipped although no such stream was ever active (ids up to {} were handed out)", start.wrapping_add(2 * p) & MAX, start.wrapping_add(2 * last) & MAX));
                }
            }
        }
    }
}
