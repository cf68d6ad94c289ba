//! C05, C06: concurrent users of a request counter. The recorded history must be linearizable with
//! respect to a sequential counter.
use crate::engine::*;
use crate::{ev, rt, threads};
use binate::connection::RequestCounter;
use std::collections::HashSet;
use std::sync::Arc;

#[derive(Clone, Copy, Debug)]
enum Op { Dec(i32), Add(u32), Load(i32), Zero(bool) }
#[derive(Clone, Copy)]
struct Call { op: Op, inv: u64, ret: u64, thread: usize }
const LIMIT: u32 = 0x7FFF_FFFF;

pub fn scenario(prop: &str) {
    let big = prop == "C06";
    let init = if big {
        match below(4) { 0 => choose(4), 1 => LIMIT - choose(6), 2 => choose(LIMIT), _ => LIMIT / 2 + choose(3) }
    } else {
        match below(4) { 0 | 1 => choose(6), 2 => choose(LIMIT / 2), _ => 0 }
    };
    if chance(1, 100) { return long(big, init); }
    let n = 1 + below(4);
    let max_ops = if n < 3 { 7 } else { 4 };
    let plans: Vec<Vec<(u32, u32)>> = (0..n).map(|_| (0..1 + below(max_ops)).map(|_| {
        let k = choose(6);
        let n = if big {
            match below(7) { 0 => LIMIT, 1 => LIMIT - choose(4), 2 => choose(4), 3 => LIMIT / 2 + choose(3), 4 => u32::MAX - choose(4), 5 => LIMIT + choose(LIMIT), _ => choose(LIMIT) }
        } else { match below(7) { 0..=3 => choose(5), 4 => 1, 5 => 1 << below(28), _ => choose(1000) } };
        (k, n)
    }).collect()).collect();
    let counter = Arc::new(RequestCounter::new(init));
    ev!(1, "counter starts at {}", init);
    let (plans, c2) = (Arc::new(plans), counter.clone());
    threads::short_policy();
    let mut calls: Vec<Call> = threads::run(n, move |t| {
        let mut out = Vec::new();
        for &(k, n) in &plans[t] {
            rt::yield_();
            let inv = tick();
            ev!(2, "{} ...", ["dec", "dec", "dec", "add", "load", "is_zero"][k as usize]);
            let op = rt::cut(|| match k {
                0..=2 => Op::Dec(c2.dec()),
                3 => { c2.add(n); Op::Add(n) }
                4 => Op::Load(c2.load()),
                _ => Op::Zero(c2.is_zero()),
            });
            let v = match op { Op::Dec(v) | Op::Load(v) => v as u32, Op::Add(v) => v, Op::Zero(z) => z as u32 };
            ev!(3 + ((v as u64) << 4), "... {:?}", op);
            out.push(Call { op, inv, ret: tick(), thread: t });
        }
        out
    }).into_iter().flatten().collect();
    for k in 0..1 + below(3) {
        let inv = tick();
        let op = rt::cut(|| match k { 0 => Op::Load(counter.load()), 1 => Op::Dec(counter.dec()), _ => Op::Zero(counter.is_zero()) });
        ev!(4, "at the end: {:?}", op);
        calls.push(Call { op, inv, ret: tick(), thread: 0 });
    }
    if calls.iter().any(|a| calls.iter().any(|b| a.inv < b.inv && b.inv < a.ret)) { probe("ctr.overlapping_calls"); }
    if calls.iter().any(|a| matches!(a.op, Op::Dec(v) if v <= 0)) { probe("ctr.exhausted"); }
    calls.sort_by_key(|c| c.inv);
    let mut seen = HashSet::new();
    let mut saturated = false;
    if !linearizable(&calls, 0, init as i64, &mut seen, &mut saturated) {
        let text: Vec<String> = calls.iter().map(|c| format!("[{}..{} thread {}: {:?}]", c.inv, c.ret, c.thread, c.op)).collect();
        violate(if big { "lost-permits" } else { "not-linearizable" }, format!("no order of these calls explains their results, starting from {}: {}", init, text.join(" ")));
    }
    if saturated { probe("ctr.saturated"); }
}

/// Too many calls to search for an order: the permits must add up, none may be granted twice.
fn long(big: bool, init: u32) {
    probe("ctr.long_run");
    let n = 1 + below(4);
    let adds = chance(1, 2);
    let ops = match below(3) { 0 => 300, 1 => 3000, _ => if chance(1, 8) { 70_000 } else { 1000 } };
    let init = if big && adds { init / 2 } else { init };
    let plans: Vec<(u32, u32)> = (0..n).map(|_| (1 + below(ops) as u32, choose(1 << 30))).collect();
    let counter = Arc::new(RequestCounter::new(init));
    ev!(1, "counter starts at {}, long run of {:?} calls{}", init, plans, if adds { ", some of them add" } else { "" });
    let c2 = counter.clone();
    threads::short_policy();
    if ops > 3000 { rt::long_run(); }
    eng().quiet = true;
    let got: Vec<(Vec<i32>, i64)> = threads::run(n, move |t| {
        let (k, salt) = plans[t];
        let mut seen = Vec::new();
        let mut added = 0;
        for i in 0..k {
            let x = mix((salt as u64) << 32 | i as u64);
            if adds && x % 4 == 0 {
                let a = (x >> 32) as u32 % 3000;
                rt::cut(|| c2.add(a));
                added += a as i64;
                ev!(2, "adds {}", a);
            } else if x % 16 == 1 {
                let _ = rt::cut(|| (c2.load(), c2.is_zero()));
            } else {
                let v = rt::cut(|| c2.dec());
                ev!(3 + ((v as u32 as u64) << 8), "takes one of {}", v);
                seen.push(v);
            }
        }
        (seen, added)
    });
    let taken: i64 = got.iter().map(|g| g.0.len() as i64).sum();
    let added: i64 = got.iter().map(|g| g.1).sum();
    let end = rt::cut(|| counter.load());
    if end as i64 != init as i64 + added - taken {
        violate(if big { "lost-permits" } else { "not-linearizable" }, format!("{} permits at first, {} added and {} taken by {} threads, leaves {}", init, added, taken, n, end));
    }
    if !adds {
        let mut all: Vec<i64> = got.iter().flat_map(|g| g.0.iter().map(|v| *v as i64)).collect();
        all.sort_unstable();
        let want: Vec<i64> = (0..taken).map(|i| init as i64 - taken + 1 + i).collect();
        if all != want { violate("not-linearizable", format!("{} threads took {} permits from {}, but the counts they were told are not {} down to {}", n, taken, init, init, init as i64 - taken + 1)); }
        for g in &got { if g.0.windows(2).any(|w| w[1] >= w[0]) { violate("not-linearizable", "one thread was told a count that did not go down although nothing was added".into()); } }
    }
}

fn linearizable(c: &[Call], done: u32, v: i64, seen: &mut HashSet<(u32, i64)>, sat: &mut bool) -> bool {
    if done == (1 << c.len()) - 1 { return true; }
    if !seen.insert((done, v)) { return false; }
    let horizon = c.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, c)| c.ret).min().unwrap();
    for (i, x) in c.iter().enumerate() {
        if done & (1 << i) != 0 || x.inv > horizon { continue; }
        let next = match x.op {
            Op::Dec(r) => if r as i64 == v { v - 1 } else { continue },
            Op::Add(n) => {
                if v + n as i64 > LIMIT as i64 { *sat = true; }
                // More than 2^31-1 permits may count as 2^31-1 of them; that only matters below zero.
                let (least, most) = ((v + n.min(LIMIT) as i64).min(LIMIT as i64), (v + n as i64).min(LIMIT as i64));
                if least != most && linearizable(c, done | 1 << i, most, seen, sat) { return true; }
                least
            }
            Op::Load(r) => if r as i64 == v { v } else { continue },
            Op::Zero(z) => if z == (v == 0) { v } else { continue },
        };
        if linearizable(c, done | 1 << i, next, seen, sat) { return true; }
    }
    false
}
