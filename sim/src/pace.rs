//! C30: calls on a connection wait for nothing but the transport's acceptance of their own frames.
use crate::conn::*;
use crate::engine::*;
use crate::model::*;
use crate::session::*;
use crate::{ev, rt, threads};
use binate::connection::sim::SimMachine;
use binate::connection::ConnectionStatus as Status;
use binate::Payload;
use bytes::Bytes;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Wake, Waker};
use std::time::Duration;

#[derive(Clone)]
enum Act { Request(Bytes), Push(Bytes), Close }
struct Call { act: Act, name: String, refused: bool, called: u64, returned: u64 }

struct Nobody;
impl Wake for Nobody { fn wake(self: Arc<Self>) {} }

pub fn scenario() {
    LOG.lock().unwrap().clear();
    let n = 2 + below(3);
    let span: u64 = pick(&[1000, 1000, 20_000, 600_000]) * MS;
    let timeout = if chance(1, 3) { span * 10 } else { span / 8 + frac(span) };
    let many = chance(1, 40);
    let chunk = if !many && chance(1, 2) { Some(4 + below(60)) } else { None };
    let mut tag = choose(1 << 16) << 10;
    let plans: Vec<Vec<(u64, Act)>> = (0..n).map(|_| {
        let mut p: Vec<(u64, Act)> = (0..1 + below(if many { 40 } else { 5 })).map(|_| {
            tag += 1;
            // Some all at once, others at their own times.
            let at = if chance(1, 2) { 0 } else { frac(span) };
            let d = content(tag, 12 + below(100));
            (at, match below(16) { 0 => Act::Close, 1..=6 => Act::Push(d), _ => Act::Request(d) })
        }).collect();
        p.sort_by_key(|p| p.0);
        p
    }).collect();
    let mut plans = plans;
    if chance(1, 600) {
        // One thread makes very many pushes, or requests; some right after the other.
        probe("pace.flood");
        eng().quiet = true;
        rt::long_run();
        let push = chance(2, 3);
        let k = pick(&[300usize, 1100, 1100, 4200]);
        plans[0] = (0..k).map(|i| { tag += 1; (if i < 3 { 0 } else { span / 8 }, if push { Act::Push(content(tag, 12)) } else { Act::Request(content(tag, 12)) }) }).collect();
        for p in &mut plans[1..] { p.truncate(8); }
    }
    let flood = plans[0].len() > 200;
    if many { probe("pace.many_calls"); }
    let conn = SimConn::new();
    let refuses = !flood && chance(1, 3);
    let throws = if refuses && chance(1, 2) { 8 } else { 0 };
    conn.with(|s| {
        s.on_close = OnClose::draw();
        if refuses { s.refuse = Refuse::Often(1 + choose(6)); s.throws = throws; }
        let most = pick(&[span / 4, span, 20 * span]) / if many { 40 } else { 1 };
        if !flood { s.slow = (0..2 + below(7)).map(|_| if chance(1, 2) { 0 } else { 5 * MS + frac(most) }).collect(); }
        s.slow_awaited = chance(1, 2);
        // Some pushes are never answered.
        s.send_plan = (0..plans.iter().flatten().count()).map(|_| if flood { SendPlan::Later } else { pick(&[SendPlan::Later, SendPlan::Later, SendPlan::Now, if throws > 0 { SendPlan::Throws } else { SendPlan::NowErr }]) }).collect();
    });
    let pool = chance(1, 4);
    if flood { threads::coarse_policy() } else { threads::policy() }
    let rt_ = runtime(pool);
    let client = chance(1, 2);
    let mut machine = rt_.block_on(rt::cut(|| SimMachine::new(client, conn.clone(), Duration::from_nanos(timeout), chunk)));
    if chance(1, 4) { let id = crate::fnf::gen_start(client); rt::cut(|| machine.start_ids_at(id)); }
    let (slow, slow_awaited) = conn.with(|s| (s.slow.clone(), s.slow_awaited));
    ev!(1, "a {} with keepalive timeout {} ns, fragments of {:?} bytes; the transport takes {:?} ns to accept frames{}", if client { "client" } else { "server" }, timeout, chunk, slow, if slow_awaited { ", pushes too" } else { "" });
    // The network.
    let mut net: Vec<(u64, Net)> = Vec::new();
    for _ in 0..below(6) { net.push((frac(span), match below(4) { 0 | 1 => keepalive(), 2 => other(), _ => { fault("transport status change"); Net::Change(pick(&[0, 1, 2]).into_status()) } })); }
    if chance(1, 4) { net.push((frac(span), Net::Change(if chance(1, 2) { Status::Closed } else { Status::Error("<failure>".into()) }))); fault("transport status change"); }
    if chance(1, 8) { net.push((frac(span), Net::EndFrames)); fault("receive stream ends"); }
    net.sort_by_key(|p| p.0);
    let c2 = conn.clone();
    let net = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let t0 = rt::now();
        for (at, what) in net {
            let now = rt::now() - t0;
            if at > now { rt::sleep(at - now); }
            match what {
                Net::Keepalive(f) | Net::Other(f) => { ev!(2, "a frame arrives"); c2.deliver(f) }
                Net::Change(s) => { ev!(3, "the transport's status becomes {:?}", s); c2.change(s) }
                _ => { ev!(4, "the stream of frames ends"); c2.end_streams(true, false) }
            }
        }
    }).unwrap();
    let plans = Arc::new(plans);
    let calls: Vec<Call> = {
        let (conn, plans, handle) = (conn.clone(), plans.clone(), rt_.handle().clone());
        let users = std::thread::Builder::new().stack_size(1 << 20).spawn(move || threads::run(n, move |t| {
            let _context = handle.enter();
            let mut machine = machine.clone();
            let mut out = Vec::new();
            // Pushes whose outcome nobody has asked for yet.
            let mut open: Vec<Pushing> = Vec::new();
            let w = Waker::from(Arc::new(Nobody));
            let t0 = rt::now();
            for (k, (at, act)) in plans[t].iter().enumerate() {
                let now = rt::now() - t0;
                if *at > now { rt::sleep(*at - now); }
                rt::yield_();
                let called = rt::now();
                let name = format!("{} {}.{}", match act { Act::Request(_) => "request", Act::Push(_) => "push", Act::Close => "close" }, t, k);
                let mut refused = false;
                ev!(5, "{} ...", name);
                match act.clone() {
                    Act::Request(d) => {
                        let p = Payload::builder().set_data(d).build();
                        if let Err(e) = request(&machine, p) {
                            refused = true;
                            if !conn.with(|s| s.sent.iter().any(|f| f.refused.as_deref() == Some(&e))) { violate("spurious-error", format!("{} failed although the transport refused nothing of the kind: {}", name, e)); }
                            probe("pace.refused_request");
                        }
                    }
                    Act::Push(m) => {
                        let mut cx = Context::from_waker(&w);
                        let mut f = push(&machine, m);
                        if Pin::new(&mut f).poll(&mut cx).is_pending() { probe("pace.unanswered_push"); open.push(f); }
                    }
                    Act::Close => {
                        rt::cut(|| machine.close());
                        if conn.with(|s| s.closes.is_empty()) { violate("close-not-passed-on", format!("{} returned, but the transport has not been closed", name)); }
                        probe("pace.closed");
                    }
                }
                ev!(6, "... {} returns", name);
                out.push(Call { act: act.clone(), name, refused, called, returned: rt::now() });
            }
            let end = rt::now();
            drop(open);
            rt::cut(|| drop(machine));
            if rt::now() > end + MS { violate("held-up", format!("letting go of pushes took {} ms", (rt::now() - end) / MS)); }
            out
        })).unwrap();
        let over = Arc::new(tokio::sync::Notify::new());
        let o2 = over.clone();
        let wait = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { let r = users.join().unwrap(); o2.notify_one(); r }).unwrap();
        rt_.block_on(async { rt::harness(|| ()); over.notified().await });
        wait.join().unwrap().into_iter().flatten().collect()
    };
    net.join().unwrap();
    rt::cut(|| drop(rt_));
    check(&conn, &calls);
}

fn check(conn: &SimConn, calls: &[Call]) {
    let (sent, slow, awaited) = conn.with(|s| (s.sent.clone(), s.slow.clone(), s.slow_awaited));
    // What the transport took for each request and push, by what they carry.
    let mut took: BTreeMap<Bytes, u64> = BTreeMap::new();
    let mut streams: BTreeMap<u32, (Vec<u8>, u64, bool)> = BTreeMap::new();
    for (at, s) in sent.iter().enumerate() {
        let t = if slow.is_empty() || (s.awaited && !awaited) { 0 } else { slow[at % slow.len()] };
        match spell(&s.bytes).ok {
            Some(M::Push { meta }) => *took.entry(meta).or_default() += t,
            Some(M::Fnf { sid, data, .. }) | Some(M::Payload { sid, data, .. }) => { let e = streams.entry(sid).or_default(); e.0.extend_from_slice(&data); e.1 += t; e.2 |= s.refused.is_some(); }
            _ => violate("wrong-frame", format!("frame {} is neither part of a request nor a push", at)),
        }
    }
    for (d, t, refused) in streams.values() { if !refused { *took.entry(d.clone().into()).or_default() += t; } }
    for c in calls {
        let own = match &c.act {
            Act::Close => 0,
            // What was sent of it before the refusal may look like the start of others.
            Act::Request(d) if c.refused => streams.values().filter(|s| s.2 && d.starts_with(&s.0)).map(|s| s.1).max().unwrap_or(0),
            Act::Request(d) | Act::Push(d) => match took.get(d) { Some(t) => *t, None => violate("not-sent", format!("{} returned, but the transport was not given its frames", c.name)) },
        };
        // The clock stands still while any thread can run.
        if c.returned > c.called + own + MS {
            violate("held-up", format!("{} took {} ms, {} ms of which the transport took to accept its frames", c.name, (c.returned - c.called) / MS, own / MS));
        }
        if own > 0 { probe("pace.waited_for_own_frames"); }
    }
    for c in calls.iter().take(100) { if calls.iter().take(100).any(|o| !std::ptr::eq(o, c) && o.called < c.called && c.returned < o.returned) { probe("pace.overtook_a_slow_call"); } }
}
