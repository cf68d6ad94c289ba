//! C29: several connections of one process, each with a peer and troubles of its own, and with an
//! application of its own or one they share.
use crate::conn::*;
use crate::engine::*;
use crate::model::*;
use crate::session::*;
use crate::{ev, rt, threads};
use binate::connection::sim::SimMachine;
use binate::connection::ConnectionStatus as Status;
use binate::Payload;
use bytes::Bytes;
use std::sync::{Arc, Mutex};
use std::time::Duration;

#[derive(Clone)]
enum Act { Net(Net), Request(Bytes), Push(Bytes), Close }
#[derive(Default, Clone)]
struct Seen { keepalives: Vec<u64>, changes: Vec<(u64, Status)>, asked: Vec<(bool, Bytes)>, closed: Vec<u64>, done: Option<u64> }

pub fn scenario() {
    // Sometimes all of them are gone before others come.
    let generations = if chance(1, 8) { probe("multi.generations"); 2 + below(2) } else { 1 };
    for g in 0..generations { if g > 0 { ev!(8, "all connections are gone; new ones are set up"); } generation(g); }
}

fn generation(g: usize) {
    LOG.lock().unwrap().clear();
    let many = g == 0 && chance(1, 150);
    let k = if many { probe("multi.many_connections"); 6 + below(60) } else { 2 + below(2) };
    let pool = chance(1, 4);
    let span: u64 = pick(&[1000, 1000, 10_000, 60_000]) * MS;
    threads::policy();
    let rt_ = runtime(pool);
    let mut tag = choose(1 << 16) << 8;
    let mut late_total = 0;
    let mut list = Vec::new();
    let setup = rt::now();
    for c in 0..k {
        let client = chance(1, 2);
        let chunk = if chance(1, 2) { Some(1 + below(40)) } else { None };
        let timeout = span / 20 + frac(span);
        let alive = chance(1, 2); // the peer goes on sending keepalives to the end
        let mut plan: Vec<(u64, Act)> = Vec::new();
        let mut at = 0;
        let until = if alive { span * 3 } else { frac(span) };
        while at < until && plan.len() < if many { 60 } else { 400 } { at += timeout / 8 + frac(timeout / 2) + 1; plan.push((at, Act::Net(keepalive()))); }
        for _ in 0..below(4) { plan.push((frac(span), Act::Net(other()))); }
        for i in 0..below(4) {
            plan.push((frac(span), Act::Net(Net::Change(match below(4) { 0 => Status::Closed, 1 | 2 => Status::Error(format!("<failure {} of connection {}>", i, c)), _ => Status::Connected }))));
            fault("transport status change");
        }
        for _ in 0..below(6) { tag += 1; let n = gen_len(false).min(300); plan.push((frac(span), if chance(1, 2) { Act::Request(content(tag, n)) } else { Act::Push(content(tag, n)) })); }
        if chance(1, 4) { plan.push((frac(span), Act::Close)); }
        if chance(1, 6) { let by = frac(span / 10); late_total += by; plan.push((frac(span), Act::Net(Net::Late(by)))); }
        if chance(1, 8) { plan.push((span, Act::Net(Net::EndStatuses))); fault("status stream ends"); }
        if chance(1, 12) && !alive { plan.retain(|p| p.0 < span || !matches!(p.1, Act::Net(Net::Keepalive(_)))); plan.push((span, Act::Net(Net::EndFrames))); fault("receive stream ends"); }
        ev!(1, "connection {} is a {} with keepalive timeout {} ns, fragments of {:?} bytes", c, if client { "client" } else { "server" }, timeout, chunk);
        let conn = SimConn::new();
        let pushes = plan.iter().filter(|p| matches!(p.1, Act::Push(_))).count();
        conn.with(|s| { s.send_plan = vec![SendPlan::Now; pushes]; s.on_close = OnClose::draw(); });
        // Some transports refuse frames, or panic.
        if chance(1, 5) { let r = Refuse::Often(1 + choose(8)); let throws = if chance(1, 2) { 8 } else { 0 }; conn.with(|s| { s.refuse = r; s.throws = throws; }); }
        let frames: u64 = plan.iter().map(|p| match &p.1 { Act::Request(d) => 1 + (d.len() / chunk.unwrap_or(1 << 20)) as u64, Act::Push(_) => 1, _ => 0 }).sum::<u64>().max(1);
        if chance(1, 4) { conn.with(|s| { s.slow_awaited = true; s.slow = (0..1 + below(4)).map(|_| if chance(1, 2) { 0 } else { frac(span / 2 / frames) }).collect(); }); }
        if chance(1, 6) { plan.push((frac(span), Act::Net(Net::Wall(step_of_wall_clock())))); }
        let mut machine = rt_.block_on(rt::cut(|| SimMachine::new(client, conn.clone(), Duration::from_nanos(timeout), chunk)));
        let first = if chance(1, 3) { let id = crate::fnf::gen_start(client); rt::cut(|| machine.start_ids_at(id)); id as u32 & MAX31 } else if client { 1 } else { 2 };
        plan.sort_by_key(|p| p.0);
        let seen = Seen { done: if plan.is_empty() { Some(0) } else { None }, ..Seen::default() };
        list.push((conn, machine, plan, first, timeout, Arc::new(Mutex::new(seen))));
    }
    let t0 = rt::now();
    let mut jobs: Vec<Vec<(u64, usize, Act)>> = list.iter().enumerate().map(|(c, l)| l.2.iter().map(|(at, what)| (*at, c, what.clone())).collect()).collect();
    if many || chance(1, 4) {
        // One application thread looks after all the connections.
        probe("multi.one_thread");
        ev!(7, "one thread looks after all of them");
        jobs = vec![jobs.concat()];
        jobs[0].sort_by_key(|j| j.0);
    }
    let threads: Vec<_> = jobs.into_iter().map(|plan| {
        let (mut conns, handle): (Vec<_>, _) = (list.iter().map(|l| (l.0.clone(), l.1.clone(), l.5.clone())).collect(), rt_.handle().clone());
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let _context = handle.enter();
            // The machines have settled.
            rt::sleep(MS);
            let mine: std::collections::HashSet<usize> = plan.iter().map(|p| p.1).collect();
            for (at, c, what) in plan {
                let (conn, machine, seen) = &mut conns[c];
                let now = rt::now() - t0;
                if at > now { rt::sleep(at - now); }
                rt::yield_();
                let (before, frames) = (rt::now(), conn.with(|s| s.sent.len()));
                match what {
                    // Nothing comes from a transport that has closed.
                    Act::Net(Net::Keepalive(_)) | Act::Net(Net::Other(_)) if conn.with(|s| s.closed_itself > 0 && s.over.0) => continue,
                    Act::Net(Net::Change(_)) if conn.with(|s| s.closed_itself > 0 && s.over.1) => continue,
                    Act::Net(Net::Keepalive(f)) => { ev!(2 + 16 * c, "a keepalive arrives on connection {}", c); seen.lock().unwrap().keepalives.push(rt::now()); conn.deliver(f); }
                    Act::Net(Net::Other(f)) => conn.deliver(f),
                    Act::Net(Net::Change(s)) => {
                        let repeated = conn.with(|x| x.status.as_ref() == Some(&s));
                        if repeated { continue; }
                        ev!(3 + 16 * c, "the status of connection {} becomes {:?}", c, s);
                        seen.lock().unwrap().changes.push((rt::now(), s.clone()));
                        conn.change(s);
                    }
                    Act::Net(Net::EndFrames) => conn.end_streams(true, false),
                    Act::Net(Net::EndStatuses) => conn.end_streams(false, true),
                    Act::Net(Net::Late(by)) => { fault("clock jump"); rt::overshoot(by); }
                    Act::Net(Net::Wall(by)) => wall(by),
                    Act::Net(_) => unreachable!(),
                    Act::Request(d) => {
                        ev!(4 + 16 * c, "a request of {} bytes on connection {}", d.len(), c);
                        let p = Payload::builder().set_data(d.clone()).build();
                        let o = request(machine, p);
                        let own = conn.with(|s| s.sent[frames..].iter().find_map(|f| f.refused.clone()));
                        match (&o, &own) {
                            (Ok(()), None) => seen.lock().unwrap().asked.push((true, d)),
                            (Err(e), Some(t)) if e == t => probe("multi.refused_request"),
                            _ => violate("failure-of-another", format!("a request on connection {} returned {:?}; its transport's refusal: {:?}", c, o, own)),
                        }
                    }
                    Act::Push(m) => {
                        ev!(5 + 16 * c, "a push of {} bytes on connection {}", m.len(), c);
                        seen.lock().unwrap().asked.push((false, m.clone()));
                        if let Some(Err(e)) = crate::push::block_on(push(machine, m), None) { violate("spurious-error", format!("a push on connection {} failed: {}", c, e)); }
                    }
                    Act::Close => {
                        ev!(6 + 16 * c, "the application closes connection {}", c);
                        rt::cut(|| machine.close());
                        seen.lock().unwrap().closed.push(rt::now());
                    }
                }
                // The clock stands still while any thread can run: nothing but the connection's own transport makes anybody wait.
                let own: u64 = conn.with(|s| if s.slow.is_empty() { 0 } else { (frames..s.sent.len()).map(|at| s.slow[at % s.slow.len()]).sum() });
                if rt::now() > before + own + MS + late_total { violate("held-up-by-another", format!("the application of connection {} waited for {} ns, {} ns of which its own transport took to accept the frames", c, rt::now() - before, own)); }
                if own > 0 { probe("multi.slow_transport"); }
            }
            for c in mine { conns[c].2.lock().unwrap().done = Some(rt::now()); }
        }).unwrap()
    }).collect();
    let end = span * 3 + late_total + span / 2 + 100 * MS;
    rt_.block_on(async { tokio::time::sleep(Duration::from_nanos(end)).await });
    let finished = rt::now();
    for t in threads { t.join().unwrap(); }
    let log: Vec<String> = LOG.lock().unwrap().iter().filter(|l| l.0 <= finished).map(|l| l.1.clone()).collect();
    let mut unexplained = log.clone();
    let mut plain = 0; // reports without a text of ours
    let mut ongoing = false;
    for (c, (conn, _, _, first, timeout, seen)) in list.iter().enumerate() {
        let seen = seen.lock().unwrap().clone();
        let closes = conn.with(|s| s.closes.clone());
        let own: Vec<u64> = closes.iter().copied().filter(|t| *t <= finished).collect();
        if closes.len() < seen.closed.len() { violate("close-ignored", format!("the application closed connection {} {} times, its transport was told {} times", c, seen.closed.len(), closes.len())); }
        // The closes of the connection's own accord.
        let mine = own.len().saturating_sub(seen.closed.iter().filter(|t| **t <= finished).count());
        if mine > 1 { violate("closed-by-another", format!("connection {} was closed {} times, {} times of them by the application", c, own.len(), seen.closed.len())); }
        let last = seen.keepalives.iter().copied().filter(|t| *t <= finished).max().unwrap_or(setup);
        if mine == 1 {
            plain += 1;
            // Some close comes a timeout or more after the keepalive before it.
            let ok = own.iter().any(|t| t - seen.keepalives.iter().copied().filter(|k| *k + rt::tie() < *t).max().unwrap_or(setup) >= *timeout);
            if !ok { violate("closed-by-another", format!("connection {} was closed although keepalives arrive on it (timeout {} ns)", c, timeout)); }
            probe("multi.one_closed");
        } else if finished > last + 2 * timeout + late_total + SLACK {
            violate("kept-by-another", format!("connection {} has received no keepalive for {} ns (timeout {} ns), but is still open", c, finished - last, timeout));
        } else if !seen.keepalives.is_empty() { probe("multi.one_kept_alive"); }
        if seen.done.map_or(true, |t| t + SLACK > finished) { ongoing = true; }
        plain += conn.with(|s| s.closed_itself);
        if own.iter().any(|t| t + SLACK > finished) || own.len() != closes.len() { ongoing = true; }
        for (at, s) in &seen.changes {
            let due = at + SLACK <= finished;
            match s {
                Status::Closed => plain += 1,
                Status::Error(t) => match unexplained.iter().position(|l| l.contains(t.as_str())) { Some(i) => { unexplained.remove(i); } None if !due => (), None => violate("unreported-change", format!("the failure of connection {} was not reported: {}", c, t)) },
                _ => (),
            }
        }
        // What the transport was given is what was asked of this connection, under its own ids.
        let mut next = *first;
        let mut got: Vec<(bool, Bytes)> = Vec::new();
        let mut partial: Option<Vec<u8>> = None;
        for s in conn.with(|s| s.sent.clone()) {
            match spell(&s.bytes).ok {
                Some(M::Push { meta }) => got.push((false, meta)),
                Some(M::Fnf { sid, follows, data, .. }) | Some(M::Payload { sid, follows, data, .. }) => {
                    if sid != next { violate("ids-of-another", format!("connection {} used stream id {}, its next one is {}", c, sid, next)); }
                    let mut v = partial.take().unwrap_or_default();
                    v.extend_from_slice(&data);
                    if s.refused.is_some() { next = crate::fnf::after(next); } else if follows { partial = Some(v); } else { got.push((true, v.into())); next = crate::fnf::after(next); }
                }
                _ => violate("frames-of-another", format!("connection {} was given a frame nobody asked for", c)),
            }
        }
        if got != seen.asked { violate("frames-of-another", format!("connection {} was asked to send {} requests and pushes, and sent {}, or others", c, seen.asked.len(), got.len())); }
        if !got.is_empty() { probe("multi.frames_sent"); }
    }
    if !ongoing && unexplained.len() != plain { violate("reports-of-another", format!("{} closes and timeouts of {} connections were reported {} times", plain, k, unexplained.len())); }
    drop(list);
    rt::cut(|| drop(rt_));
}
