//! C16-C18: the life of a connection in simulated time - keepalives, silence, status changes.
use crate::conn::*;
use crate::engine::*;
use crate::model::*;
use crate::{ev, rt, threads};
use binate::connection::sim::SimMachine;
use binate::connection::ConnectionStatus as Status;
use binate::frame::codec::KeepaliveFrame;
use binate::frame::Frame;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub const MS: u64 = 1_000_000;
pub const SLACK: u64 = 20 * MS;

// ---- error events --------------------------------------------------------------------------------

pub static LOG: Mutex<Vec<(u64, String)>> = Mutex::new(Vec::new());
struct Recorder;
struct Text(String);
impl tracing::field::Visit for Text {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let _ = f;
        self.0 += &format!("{:?} ", v);
    }
}
impl tracing::Subscriber for Recorder {
    fn enabled(&self, m: &tracing::Metadata<'_>) -> bool { *m.level() == tracing::Level::ERROR }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id { tracing::span::Id::from_u64(1) }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        rt::harness(|| { ev!(0x30, "error event: {}", t.0); let n = { let mut l = LOG.lock().unwrap(); l.push((rt::now(), t.0)); l.len() }; if n > 100_000 { violate("no-progress", "error events are reported without end".into()) } })
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
pub fn record_events() { tracing::subscriber::set_global_default(Recorder).unwrap(); }

/// A runtime on the simulated machine: one thread, or a pool of them.
pub fn runtime(pool: bool) -> tokio::runtime::Runtime {
    rt::child_act(pool);
    let r = if pool { tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build() } else { tokio::runtime::Builder::new_current_thread().enable_time().build() };
    rt::child_act(false);
    r.unwrap()
}

#[derive(Clone)]
pub enum Net { Keepalive(Frame), Other(Frame), Change(Status), EndFrames, EndStatuses, Late(u64), Request(usize), Push(usize), Neighbour(Frame), NeighbourStatus(Status), LetGo, Wall(i64) }

/// Somebody sets the wall clock, by a little or by years.
pub fn step_of_wall_clock() -> i64 {
    let by = match below(4) { 0 => choose(2000) as i64 * MS as i64, 1 => choose(100_000) as i64 * 1_000_000_000, 2 => 1_600_000_000 * 1_000_000_000, _ => choose(1 << 24) as i64 * 100_000_000 };
    if chance(1, 2) { -by } else { by }
}
pub fn wall(by: i64) { fault("wall clock stepped"); ev!(13, "the wall clock is set {} ns ahead", by); rt::wall(by); }
fn gen_timeout() -> u64 {
    match below(9) { 0 => 60_000 * MS, 1 => 30_000 * MS, 2 => 1000 * MS, 3 => 100 * MS, 4 => MS * (1 + choose(20) as u64), 5 => 2_500_000, 6 => 86_400_000 * MS, 7 => (1 + choose(100_000) as u64) * 1_000_000 + choose(1_000_000) as u64, _ => 500 * MS }
}
pub fn keepalive() -> Net { Net::Keepalive(Frame::Keepalive(KeepaliveFrame::new(gen_u63(), gen_bytes(false), chance(1, 2)))) }
pub fn other() -> Net {
    loop { let (f, _) = gen_frame(None, false); if !matches!(f, Frame::Keepalive(_)) { return Net::Other(f); } }
}
pub fn frac(t: u64) -> u64 { // some part of t
    match below(5) { 0 => t / 2, 1 => t - t / 8, 2 => t.saturating_sub(1 + choose(3_000_000) as u64), 3 => t.saturating_sub(1), _ => ((t as u128 * choose(1 << 20) as u128) >> 20) as u64 }
}

pub fn scenario(prop: &str) {
    LOG.lock().unwrap().clear();
    let pool = chance(1, 4);
    // Rarely: a timeout of weeks.
    let weeks = (prop == "C16" || prop == "C17") && chance(1, 100);
    let timeout = if prop == "C18" { 3_600_000 * MS } else if weeks { probe("session.weeks"); pick(&[2_150_000_000u64, 4_300_000_000]) * MS + choose(100_000_000) as u64 * MS } else { gen_timeout() };
    let mut plan: Vec<(u64, Net)> = Vec::new();
    let mut end;
    let mut late_total = 0;
    let neighbour = (prop == "C16" || prop == "C17") && chance(1, 6);
    let mut released = 0;
    let mut start: Option<Status> = None;
    match prop {
        "C16" | "C17" | "C27" => {
            // Keepalives come regularly, more or less, until (perhaps) they cease.
            let long = timeout <= 3_600_000 * MS && chance(1, 100);
            let n = if weeks { below(3) } else if long { probe("session.long_life"); below(300) } else { below(if prop == "C16" { 14 } else { 6 }) };
            let mut at = 0;
            for _ in 0..n {
                let gap = frac(timeout);
                at += gap;
                if prop == "C16" && chance(1, 40) { at += timeout + frac(2 * timeout); fault("peer silent for a while"); }
                plan.push((at, keepalive()));
                if chance(1, 10) { plan.push((at, keepalive())); fault("keepalive duplicated"); }
            }
            let last = at;
            let great = chance(1, 2000);
            if (prop == "C16" || prop == "C17") && (great || chance(1, 300)) {
                // A flood of frames.
                probe("session.flood");
                eng().quiet = true;
                rt::long_run();
                let kind = below(3);
                let t = frac(last + timeout);
                let (k, o) = (keepalive(), Net::Other(Frame::MetadataPush(binate::frame::codec::MetadataPushFrame::new(content(1, 8)))));
                for i in 0..if great { pick(&[65_536usize, 66_000, 5000]) } else { pick(&[256usize, 256, 512, 1024, 1100]) } { plan.push((t, if kind == 0 || (kind == 2 && i % 2 == 0) { k.clone() } else { o.clone() })); }
            }
            if chance(1, 2) { for _ in 0..1 + below(4) { let t = frac(last + 2 * timeout); plan.push((t, other())); } probe("session.other_traffic"); }
            if chance(1, 3) {
                // What is sent says nothing about whether the peer is alive.
                for _ in 0..1 + below(6) { let t = frac(last + 2 * timeout); let n = gen_len(false); plan.push((t, if chance(1, 2) { Net::Request(n) } else { Net::Push(n) })); }
                probe("session.own_requests");
            }
            if prop != "C27" && !weeks && chance(1, 6) {
                // The application goes on sending until the end, well within each timeout.
                let gap = timeout / (1 + choose(4) as u64) + 1 + frac(timeout / 8 + 1);
                let size = gen_len(false).min(100);
                let kind = below(3);
                for i in 1..=((last + 4 * timeout) / gap).min(400) { plan.push((i * gap, if kind == 0 || (kind == 2 && i % 2 == 0) { Net::Request(size) } else { Net::Push(size) })); }
                probe("session.own_requests_throughout");
            }
            if prop == "C16" && chance(1, 2) {
                for i in 0..1 + below(4) {
                    let t = frac(last + timeout);
                    plan.push((t, Net::Change(match below(4) { 0 => Status::Closed, 1 => Status::Error(format!("transport failure {}", i)), 2 => Status::Connecting, _ => Status::Connected })));
                    fault("transport status change");
                }
            } else if prop == "C27" && chance(1, 3) {
                for i in 0..1 + below(3) {
                    plan.push((frac(last + timeout), Net::Change(match below(4) { 0 => Status::Closed, 1 | 2 => Status::Error(format!("transport failure {}", i)), _ => Status::Connected })));
                    fault("transport status change");
                }
            } else if prop == "C17" && chance(1, 4) {
                // The transport breaks down and recovers.
                for i in 0..1 + below(3) {
                    let t = frac(last + timeout);
                    plan.push((t, Net::Change(if chance(1, 2) { Status::Closed } else { Status::Error(format!("transport failure {}", i)) })));
                    plan.push((t + if chance(1, 2) { 0 } else { frac(timeout / 4 + 1) }, Net::Change(Status::Connected)));
                    fault("transport status change");
                }
                probe("session.transport_recovered");
            } else if chance(1, 4) {
                plan.push((frac(last + timeout), Net::Change(if chance(1, 2) { Status::Connecting } else { Status::Connected })));
                if chance(1, 2) { plan.push((frac(last + timeout), Net::EndStatuses)); fault("status stream ends"); }
            }
            if chance(1, 6) { plan.push((last + frac(timeout), Net::EndFrames)); fault("receive stream ends"); }
            if !weeks && chance(1, 3) {
                for _ in 0..1 + below(3) {
                    let by = match below(4) { 0 => frac(timeout), 1 => timeout, 2 => frac(timeout / 4 + 1), _ => timeout + frac(timeout) };
                    late_total += by;
                    plan.push((frac(last + timeout), Net::Late(by)));
                }
            }
            if neighbour {
                // Another connection of the same process lives a life of its own.
                if prop == "C17" {
                    let gap = timeout / 3 + 1;
                    for i in 0..(last + late_total + 5 * timeout) / gap { plan.push((i * gap, match keepalive() { Net::Keepalive(f) => Net::Neighbour(f), n => n })); }
                } else {
                    for _ in 0..below(4) { let t = frac(last + timeout); plan.push((t, if chance(1, 3) { Net::Neighbour(match keepalive() { Net::Keepalive(f) => f, _ => unreachable!() }) } else { Net::NeighbourStatus(pick(&[0, 1]).into_status()) })); }
                    plan.push((frac(last + timeout), Net::NeighbourStatus(Status::Closed)));
                }
            }
            if last > 0 { probe("session.keepalives_received"); }
            if prop == "C17" { fault("peer falls silent"); }
            if prop == "C27" {
                // At last the streams end and the application lets go, in some order.
                let over = last + frac(2 * timeout);
                for n in [Net::EndFrames, Net::EndStatuses, Net::LetGo] { let t = if chance(1, 3) { frac(last + timeout) } else { over }; released = released.max(t); plan.push((t, n)); }
                plan.retain(|(t, n)| *t <= released || matches!(n, Net::Late(_)));
            }
            end = last + late_total + if prop != "C16" { 5 * timeout + 10 * SLACK } else { frac(timeout) };
        }
        _ => {
            let n = if chance(1, 60) { probe("session.many_changes"); match below(30) { 0 => { eng().quiet = true; rt::long_run(); pick(&[66_000usize, 5000]) } 1..=3 => 255 + below(1000), _ => 20 + below(150) } } else { 1 + below(8) };
            let busy = n > 2000 || chance(1, 5);
            let mut at = MS;
            // The transport may have broken down before anybody looks.
            if chance(1, 6) { start = Some(if chance(1, 2) { Status::Closed } else { Status::Error(String::from("<failure> before the start")) }); fault("transport down from the start"); }
            let mut current = start.clone().unwrap_or(Status::Connected);
            let mut texts: Vec<String> = Vec::new();
            for i in 0..n {
                at += match below(5) { 0 => 0, 1 => choose(1000) as u64, _ => if n > 200 { choose(600) as u64 * 1000 } else { choose(600) as u64 * MS } };
                let mut new = {
                    match if busy { below(2) } else { below(5) } {
                        0 => Status::Closed,
                        1 => {
                            let t = if !texts.is_empty() && chance(1, 3) { texts[below(texts.len())].clone() } else {
                                match below(16) {
                                    0 => String::new(),
                                    12 => format!("<failure {}>\n  caused by: connection reset\r\n\tand more\n", i),
                                    13 => format!("  <failure {}> {{}} {{0}} %s \\n \0\x1b[31m ", i),
                                    14 => format!("\n<failure {}>\t", i),
                                    15 if chance(1, 8) => format!("<failure {}> {}end", i, "long ".repeat(pick(&[820usize, 2000, 14_000]))),
                                    1 => format!("<failure {} of the transport> {}", i, "x".repeat(1 + below(3000))),
                                    2 => format!("<failure {}> Verbindung zurückgesetzt 接続 🙂", i),
                                    3 => format!("connection was closed <failure {}>", i),
                                    4 => String::from("<failure>"),
                                    _ => format!("<failure {} of the transport>", i),
                                }
                            };
                            if texts.contains(&t) { probe("session.same_error_again"); } else { texts.push(t.clone()); }
                            Status::Error(t)
                        }
                        2 => Status::Connected,
                        3 => Status::Connecting,
                        _ => Status::Unconnected,
                    }
                };
                if new == current { new = if current == Status::Closed { Status::Connected } else { Status::Closed }; }
                current = new.clone();
                plan.push((at, Net::Change(new)));
                fault("transport status change");
                if n > 2000 { continue; }
                if chance(1, 8) { let by = choose(300) as u64 * MS; late_total += by; plan.push((at, Net::Late(by))); }
                if chance(1, 8) { plan.push((at, keepalive())); }
            }
            if chance(1, 4) { for _ in 0..1 + below(4) { let n = gen_len(false); plan.push((frac(at), if chance(1, 2) { Net::Request(n) } else { Net::Push(n) })); } probe("session.own_requests"); }
            if chance(1, 4) { plan.push((at, Net::EndStatuses)); fault("status stream ends"); }
            if chance(1, 8) { plan.push((if chance(1, 2) { at } else { frac(at) }, Net::EndFrames)); fault("receive stream ends"); }
            end = at + 400 * MS;
        }
    }
    end += 50 * MS * (prop == "C18") as u64;
    if chance(1, 6) { for _ in 0..1 + below(3) { plan.push((frac(end), Net::Wall(step_of_wall_clock()))); } }
    plan.sort_by_key(|p| p.0);
    // The network and the application act side by side.
    let (app, plan): (Vec<_>, Vec<_>) = plan.into_iter().partition(|p| matches!(p.1, Net::Request(_) | Net::Push(_) | Net::LetGo));
    let own = app.len();
    ev!(1, "keepalive timeout {} ns, runtime with {}", timeout, if pool { "a pool of threads" } else { "one thread" });

    let conn = SimConn::new();
    let answers = chance(1, 2);
    // The transport may refuse what the application sends, or panic.
    let throws = chance(1, 4);
    if throws || chance(1, 4) { let r = Refuse::Often(1 + choose(8)); conn.with(|s| { s.refuse = r; s.throws = if throws { 8 } else { 0 }; }); }
    if answers { conn.with(|s| s.send_plan = app.iter().filter(|p| matches!(p.1, Net::Push(_))).map(|_| if chance(1, 8) { if throws { SendPlan::Throws } else { SendPlan::NowErr } } else { SendPlan::Now }).collect()); }
    if own > 0 && chance(1, 3) {
        let most = if own < 8 && chance(1, 4) { 2 * timeout } else { timeout / 4 };
        let most = if prop == "C18" { 400 * MS } else { most };
        conn.with(|s| { s.slow_awaited = chance(1, 2); s.slow = (0..1 + below(4)).map(|_| if chance(1, 2) { 0 } else { frac(most) }).collect(); });
        probe("session.slow_transport");
    }
    conn.with(|s| { s.status = Some(start.clone().unwrap_or_else(|| pick(&[0, 1, 2]).into_status())); s.on_close = OnClose::draw(); });
    if eng().quiet { threads::coarse_policy() } else { threads::policy() }
    let rt_ = runtime(pool);
    let begun = rt::now();
    let client = chance(1, 2);
    let machine = rt_.block_on(rt::cut(|| SimMachine::new(client, conn.clone(), Duration::from_nanos(timeout), None)));
    let nconn = SimConn::new();
    let neighbour = if neighbour { probe("session.neighbour"); Some(rt_.block_on(rt::cut(|| SimMachine::new(!client, nconn.clone(), Duration::from_nanos(timeout), None)))) } else { None };
    let ticks: Arc<Mutex<Vec<u64>>> = Arc::new(Mutex::new(vec![rt::now()]));
    let step = 40 * MS;
    if prop == "C18" {
        let ticks = ticks.clone();
        rt::cut(|| rt_.spawn(async move { loop { tokio::time::sleep(Duration::from_nanos(step)).await; rt::harness(|| ticks.lock().unwrap().push(rt::now())); } }));
    }
    // The network: delivers what the plan says, when it says so.
    let net_over = Arc::new(AtomicBool::new(false));
    let app_over = Arc::new(AtomicBool::new(false));
    let mut user = Some(machine.clone());
    let mut machine = Some(machine);
    if prop == "C27" { machine = None; }
    let let_go: Arc<Mutex<Option<u64>>> = Default::default();
    let g2 = let_go.clone();
    let n2 = nconn.clone();
    let arrivals: Arc<Mutex<(Vec<u64>, Vec<Status>)>> = Default::default();
    let wait_for_watcher = prop == "C18" || (prop == "C17" && plan.iter().any(|p| matches!(p.1, Net::Change(Status::Closed | Status::Error(_)))));
    let prop17 = prop == "C17";
    let net = {
        let (conn, over, arrivals) = (conn.clone(), net_over.clone(), arrivals.clone());
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            if wait_for_watcher { for _ in 0..100 { if conn.with(|s| s.st.iter().any(|x| !x.dead())) { break; } rt::sleep(MS); } }
            let t0 = rt::now();
            for (at, what) in plan {
                let now = rt::now() - t0;
                if at > now { rt::sleep(at - now); }
                rt::yield_();
                match what {
                    // Nothing comes once the stream of frames has ended.
                    Net::Keepalive(_) | Net::Other(_) if conn.with(|x| x.over.0) => (),
                    Net::Keepalive(f) => { ev!(2, "a keepalive frame arrives"); arrivals.lock().unwrap().0.push(rt::now()); conn.deliver(f); }
                    Net::Other(f) => { ev!(3, "another frame arrives"); conn.deliver(f); }
                    Net::Change(_) if conn.with(|x| x.closed_itself > 0 && x.over.1) => (),
                    Net::Change(s) if prop17 && conn.with(|x| x.status.as_ref() == Some(&s)) => (),
                    Net::Change(s) => { ev!(4, "the transport's status becomes {:?}", s); arrivals.lock().unwrap().1.push(s.clone()); conn.change(s); }
                    Net::EndFrames => { ev!(5, "the stream of frames ends"); conn.end_streams(true, false); }
                    Net::EndStatuses => { ev!(6, "the stream of statuses ends"); conn.end_streams(false, true); }
                    Net::Neighbour(f) => n2.deliver(f),
                    Net::NeighbourStatus(s) => { ev!(10, "the neighbour's status becomes {:?}", s); n2.change(s); }
                    Net::Late(by) => { fault("clock jump"); ev!(7, "the next timer is late by {} ns", by); rt::overshoot(by); }
                    Net::Wall(by) => wall(by),
                    Net::Request(_) | Net::Push(_) | Net::LetGo => unreachable!(),
                }
            }
            over.store(true, Ordering::SeqCst);
        }).unwrap()
    };
    // The application.
    let app = {
        let (conn, over, handle) = (conn.clone(), app_over.clone(), rt_.handle().clone());
        std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
            let _context = handle.enter();
            if wait_for_watcher { for _ in 0..100 { if conn.with(|s| s.st.iter().any(|x| !x.dead())) { break; } rt::sleep(MS); } }
            drop(conn);
            let t0 = rt::now();
            for (at, what) in app {
                let now = rt::now() - t0;
                if at > now { rt::sleep(at - now); }
                rt::yield_();
                match what {
                    Net::Request(n) => {
                        ev!(8, "a request of {} bytes is sent", n);
                        let p = binate::Payload::builder().set_data(content(n as u32, n)).build();
                        if let Some(u) = &user { let _ = request(u, p); }
                    }
                    Net::Push(n) => {
                        ev!(9, "metadata of {} bytes is pushed", n);
                        if let Some(u) = &user {
                            let f = push(u, content(n as u32, n));
                            if answers { if crate::push::block_on(f, Some(timeout)).is_some() { probe("session.own_push_answered"); } }
                        }
                    }
                    Net::LetGo => { ev!(11, "the application drops its handle"); let u = user.take(); rt::cut(|| drop(u)); *g2.lock().unwrap() = Some(rt::now()); }
                    _ => unreachable!(),
                }
            }
            over.store(true, Ordering::SeqCst);
        }).unwrap()
    };
    // Half of the time the runtime is shut down at some earlier moment.
    let shut_down = prop == "C27" && chance(1, 2);
    let total = if shut_down { fault("runtime shut down"); frac(end) } else { end };
    rt_.block_on(async { tokio::time::sleep(Duration::from_nanos(total)).await });
    let net_done = net_over.load(Ordering::SeqCst);
    let app_done = app_over.load(Ordering::SeqCst);
    let finished = rt::now();
    let mut keep = None;
    if shut_down { rt::cut(|| drop(rt_)); ev!(12, "the runtime is shut down"); net.join().unwrap(); app.join().unwrap(); }
    else { net.join().unwrap(); app.join().unwrap(); keep = Some(rt_); }
    let (keepalives, changes) = std::mem::take(&mut *arrivals.lock().unwrap());
    let closes: Vec<u64> = conn.with(|s| s.closes.iter().copied().filter(|t| *t <= finished).collect());
    let log = LOG.lock().unwrap().clone();
    if pool { probe("session.thread_pool"); }
    match prop {
        "C16" => {
            for c in &closes {
                let last = keepalives.iter().copied().filter(|k| *k + rt::tie() < *c).max();
                let since = last.unwrap_or(begun);
                if c - since < timeout {
                    violate("closed-early", format!("the connection was closed {} ns after {}; the keepalive timeout is {} ns", c - since, if last.is_some() { "a keepalive was received" } else { "it was set up" }, timeout));
                }
                probe("session.closed_after_silence");
            }
            if closes.is_empty() && !keepalives.is_empty() && finished - begun > timeout { probe("session.kept_alive"); }
        }
        "C17" => {
            if !net_done { return; }
            let since = keepalives.iter().copied().max().unwrap_or(begun).max(begun);
            let bound = 2 * timeout + SLACK + late_total;
            if finished < since + bound { return; }
            match closes.first() {
                None => violate("not-closed", format!("no keepalive was received for {} ns (timeout {} ns), but the connection is still open", finished - since, timeout)),
                Some(c) if *c > since + bound => violate("closed-late", format!("the connection was closed only {} ns after the last keepalive; the timeout is {} ns", c - since, timeout)),
                _ => (),
            }
            if closes.len() > 1 { violate("closed-twice", format!("the connection was closed {} times", closes.len())); }
            // Breakdowns of the transport are reported, too.
            let log: Vec<_> = log.iter().filter(|l| !l.1.contains("transport failure") || !changes.iter().any(|s| matches!(s, Status::Error(e) if l.1.contains(e.as_str())))).collect();
            let log = if neighbour.is_some() { &log[..log.len() - nconn.with(|s| s.closes.len()).min(log.len())] } else { &log[..] };
            let closed = changes.iter().filter(|s| **s == Status::Closed).count();
            // The transport's own report of its close.
            let itself = conn.with(|s| s.closed_itself);
            if itself > 0 { probe("session.close_echoed"); }
            let closed = closed + itself;
            if log.len() != 1 + closed { violate("timeout-reports", format!("the keepalive timeout (and {} closes of the transport) were reported {} times: {:?}", closed, log.len(), log.iter().map(|l| &l.1).collect::<Vec<_>>())); }
            probe("session.closed_after_silence");
        }
        "C27" => {
            let hold = Arc::strong_count(&conn.0) - 1;
            if shut_down {
                if hold > 0 { violate("not-released", format!("the runtime was shut down and the application holds no handle, but the transport is still held ({} times)", hold)); }
                probe("session.released_by_shutdown");
                return;
            }
            if !net_done || !app_done { return; }
            // The last of: the streams' ends, the last handle dropped; and whatever came late.
            let bound = begun + released + 2 * timeout + late_total + 2 * SLACK;
            if finished < bound || let_go.lock().unwrap().map_or(true, |t| finished < t + 2 * timeout + late_total + SLACK) { return; }
            if hold > 0 { violate("not-released", format!("the streams of the transport ended and the last handle was dropped {} ns ago (timeout {} ns), but the transport is still held ({} times)", finished - begun - released, timeout, hold)); }
            probe("session.released");
        }
        _ => {
            if !net_done { return; }
            let want: Vec<&Status> = start.iter().chain(&changes).filter(|s| matches!(s, Status::Closed | Status::Error(_))).collect();
            for i in 0..want.len().max(log.len()) {
                match (want.get(i), log.get(i)) {
                    (Some(s), None) => violate("unreported-change", format!("the transport's change to {:?} was not reported ({} reports for {} changes)", s, log.len(), want.len())),
                    (None, Some((_, t))) => violate("repeated-report", format!("reported although the transport's status did not change: {}", t)),
                    (Some(s), Some((_, t))) => {
                        let ok = match s { Status::Error(e) => t.contains(e.as_str()) || t.contains(&e.escape_debug().to_string()), _ => !t.contains("<failure") };
                        if !ok { violate("wrong-report", format!("the transport's change number {} to {:?} was reported as: {}", i + 1, s, t)); }
                    }
                    _ => (),
                }
            }
            if !want.is_empty() { probe("session.status_reported"); }
            let mut t = ticks.lock().unwrap().clone();
            t.retain(|t| *t <= finished);
            t.push(finished);
            for w in t.windows(2) {
                if w[1] - w[0] > step + 5 * MS + late_total { violate("starved", format!("another task of the runtime did not run for {} ns although it was due after {} ns", w[1] - w[0], step)); }
            }
        }
    }
    drop((machine, neighbour));
    rt::cut(|| drop(keep));
}
pub trait IntoStatus { fn into_status(self) -> Status; }
impl IntoStatus for i32 { fn into_status(self) -> Status { match self { 0 => Status::Unconnected, 1 => Status::Connecting, _ => Status::Connected } } }
