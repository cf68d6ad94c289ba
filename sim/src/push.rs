//! C19: concurrent metadata pushes over a transport that takes its time, fails or never answers.
use crate::conn::*;
use crate::engine::*;
use crate::model::*;
use crate::session::{runtime, MS};
use crate::{ev, rt, threads};
use binate::connection::sim::SimMachine;
use binate::Payload;
use bytes::Bytes;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

/// What a client does with a push.
#[derive(Clone, Copy, PartialEq, Debug)]
enum How { Await, GiveUp(u64), Forget }
#[derive(Clone)]
struct Push { meta: Bytes, how: How }
#[derive(Clone, Debug)]
struct Got { thread: usize, k: usize, result: Option<Result<(), String>>, from: u64, at: u64 }

struct Unpark(std::thread::Thread);
impl Wake for Unpark { fn wake(self: Arc<Self>) { self.0.unpark() } }

struct Stray;
impl Wake for Stray { fn wake(self: Arc<Self>) {} }

/// Drives a future to its end on the calling thread, or for a while only.
pub fn block_on<F: Future + Unpin>(mut f: F, give_up_after: Option<u64>) -> Option<F::Output> {
    let w = Waker::from(Arc::new(Unpark(std::thread::current())));
    let mut cx = Context::from_waker(&w);
    let until = give_up_after.map(|d| rt::now() + d);
    // Somebody else has asked for the outcome before and has lost interest since; or asks for no reason.
    for _ in 0..choose(9).saturating_sub(6) {
        fault("outcome asked for from elsewhere");
        let (stray, own) = (Waker::from(Arc::new(Stray)), w.clone());
        let w = if chance(1, 3) { own } else { stray };
        if let Poll::Ready(r) = rt::cut(|| Pin::new(&mut f).poll(&mut Context::from_waker(&w))) { return Some(r); }
        rt::yield_();
    }
    loop {
        if let Poll::Ready(r) = rt::cut(|| Pin::new(&mut f).poll(&mut cx)) { return Some(r); }
        match until {
            None => std::thread::park(),
            Some(u) => { if rt::now() >= u { return None; } std::thread::park_timeout(Duration::from_nanos(u - rt::now())); }
        }
    }
}

pub fn scenario() {
    let n = 1 + below(4);
    let mut tag = choose(1 << 16) << 8;
    let huge = chance(1, 800);
    // The transport takes milliseconds to answer, or minutes, or hours.
    let pace: u64 = pick(&[1, 1, 1, 1, 1, 1, 100, 5_000, 200_000]);
    if pace > 1 { probe("push.slow_transport"); }
    let most = chance(1, 3000);
    let many = most || chance(1, 150);
    if most { probe("push.very_many"); eng().quiet = true; rt::long_run(); }
    // Pushes may look exactly like earlier ones.
    let alike = chance(1, 6);
    let mut earlier: Vec<Bytes> = Vec::new();
    let plans: Vec<Vec<(Push, Option<Bytes>)>> = (0..n).map(|_| (0..if most { 400 + below(800) } else if many { 1 + below(60) } else { 1 + below(4) }).map(|_| {
        tag += 1;
        let len = match below(12) { 0 => if huge { (1 << 24) + below(3) } else { 65536 + below(5) }, 1 => 0, 2..=4 => below(400), _ => 4 + below(40) };
        let how = match below(6) { 0 => How::GiveUp(choose(60) as u64 * MS * pace), 1 => if chance(1, 2) { How::Forget } else { How::Await }, _ => How::Await };
        let meta = if alike && !earlier.is_empty() && chance(1, 2) { probe("push.same_metadata_again"); earlier[below(earlier.len())].clone() } else if len < 1000 && chance(1, 8) && len > 0 { filler(tag, len) } else { content(tag, len) };
        if len < 100_000 { earlier.push(meta.clone()); }
        (Push { meta, how }, if chance(1, 5) { Some(content(tag + 77777, below(30))) } else { None })
    }).collect()).collect();
    let conn = SimConn::new();
    let total: usize = plans.iter().map(|p| p.len()).sum();
    let throws = chance(1, 6);
    let send_plan: Vec<SendPlan> = (0..total).map(|_| if throws && chance(1, 6) { SendPlan::Throws } else { pick(&[SendPlan::Later, SendPlan::Later, SendPlan::Later, SendPlan::Now, SendPlan::NowErr]) }).collect();
    conn.with(|s| s.send_plan = send_plan);
    if chance(1, 6) { let r = Refuse::Often(1 + choose(8)); conn.with(|s| { s.refuse = r; s.throws = 8; }); }
    let pool = chance(1, 6);
    let on_tasks = chance(1, 3);
    // Some requests take the transport long to accept.
    if !on_tasks && chance(1, 4) { conn.with(|s| s.slow = (0..1 + below(4)).map(|_| if chance(1, 2) { 0 } else { choose(100) as u64 * MS * pace }).collect()); }
    let rt_ = Arc::new(runtime(pool));
    let client = chance(1, 2);
    let machine = Arc::new(rt_.block_on(rt::cut(|| SimMachine::new(client, conn.clone(), Duration::from_secs(86_400 * 20), None))));
    threads::policy();
    // The transport: completes sends in any order, after a while.
    let left = Arc::new(AtomicUsize::new(n));
    let (c2, l2) = (conn.clone(), left.clone());
    let transport = std::thread::Builder::new().stack_size(1 << 20).spawn(move || {
        let mut failures = 0;
        loop {
            let over = l2.load(Ordering::SeqCst) == 0;
            let open: Vec<usize> = c2.with(|s| (0..s.pending.len()).filter(|i| s.pending[*i].result.is_none() && !s.pending[*i].dropped).collect());
            if !open.is_empty() && !chance(1, 4) {
                let i = open[below(open.len())];
                if open.len() > 1 && i != open[0] { fault("completions reordered"); }
                let r = if chance(1, 3) { failures += 1; fault("send failed"); Err(Failure::draw(failures)) } else { Ok(()) };
                ev!(1 + i as u64, "the transport answers send {}: {:?}", i, r);
                c2.complete(i, r);
                rt::yield_();
            } else if over && open.is_empty() { break; } else {
                let d = (1 + choose(40) as u64) * MS * pace / 4 + 1;
                if !open.is_empty() { fault("completion delayed"); }
                rt::sleep(d);
            }
        }
    }).unwrap();
    let plans = Arc::new(plans);
    let got: Arc<Mutex<Vec<Got>>> = Default::default();
    let (p2, m2, g2) = (plans.clone(), machine.clone(), got.clone());
    let client = move |t: usize, k: usize| -> (Push, Pushing) {
        let (push, fnf) = p2[t][k].clone();
        if let Some(d) = fnf { let p = Payload::builder().set_data(d).build(); let _ = request(&m2, p); }
        ev!(2, "push {}.{}: {} bytes, {:?}", t, k, push.meta.len(), push.how);
        let called = rt::now();
        let f = crate::conn::push(&m2, push.meta.clone());
        // The clock stands still while any thread can run.
        if rt::now() > called + MS { violate("held-up", format!("push {}.{} of {} bytes was held up for {} ms before the transport was given its frame", t, k, push.meta.len(), (rt::now() - called) / MS)); }
        (push, f)
    };
    let done = move |t: usize, k: usize, from: u64, r: Option<Result<(), String>>| {
        ev!(3 + matches!(r, Some(Ok(_))) as u64, "push {}.{} ends: {:?}", t, k, r);
        if r.is_none() { fault("push abandoned"); }
        g2.lock().unwrap().push(Got { thread: t, k, result: r, from, at: rt::now() });
    };
    if on_tasks {
        // All clients are tasks of the runtime.
        probe("push.tasks");
        let l = left.clone();
        let client = Arc::new(client);
        let done = Arc::new(done);
        let lens: Vec<usize> = plans.iter().map(|p| p.len()).collect();
        rt_.block_on(async move {
            let hs: Vec<_> = (0..n).map(|t| {
                let (client, done, l, len) = (client.clone(), done.clone(), l.clone(), lens[t]);
                tokio::spawn(async move {
                    for k in 0..len {
                        let (push, f) = rt::harness(|| client(t, k));
                        let r = match push.how {
                            How::Await => Some(f.await),
                            How::GiveUp(d) => tokio::time::timeout(Duration::from_nanos(d), f).await.ok(),
                            How::Forget => { drop(f); None }
                        };
                        rt::harness(|| done(t, k, 0, r));
                    }
                    l.fetch_sub(1, Ordering::SeqCst);
                })
            }).collect();
            for h in hs { h.await.unwrap(); }
        });
    } else {
        let l = left.clone();
        let lens: Vec<usize> = plans.iter().map(|p| p.len()).collect();
        // Somebody drives the runtime, and the clients belong to it.
        let over = Arc::new(tokio::sync::Notify::new());
        let (o2, rt2) = (over.clone(), rt_.clone());
        let driver = std::thread::Builder::new().stack_size(1 << 20).spawn(move || { rt2.block_on(async { rt::harness(|| ()); o2.notified().await }) }).unwrap();
        let rt3 = rt_.clone();
        // Some threads make all their pushes at once.
        let together: Vec<bool> = (0..n).map(|_| chance(1, if most { 2 } else { 4 })).collect();
        threads::run(n, move |t| {
            let _context = rt3.enter();
            if together[t] {
                probe("push.many_at_once");
                let w = Waker::from(Arc::new(Unpark(std::thread::current())));
                let mut cx = Context::from_waker(&w);
                let mut open: Vec<(usize, Option<u64>, _)> = Vec::new();
                for k in 0..lens[t] {
                    rt::yield_();
                    let (push, f) = client(t, k);
                    match push.how {
                        How::Await => open.push((k, None, f)),
                        How::GiveUp(d) => open.push((k, Some(rt::now() + d), f)),
                        How::Forget => { drop(f); done(t, k, 0, None) }
                    }
                }
                let from = rt::now();
                while !open.is_empty() {
                    let mut i = 0;
                    while i < open.len() {
                        let (k, until, f) = &mut open[i];
                        let r = match Pin::new(f).poll(&mut cx) { Poll::Ready(r) => Some(r), Poll::Pending if until.map_or(false, |u| rt::now() >= u) => None, Poll::Pending => { i += 1; continue } };
                        done(t, *k, from, r);
                        open.swap_remove(i);
                    }
                    if open.is_empty() { break; }
                    match open.iter().filter_map(|o| o.1).min() { Some(u) if u <= rt::now() => (), Some(u) => std::thread::park_timeout(Duration::from_nanos(u - rt::now())), None => std::thread::park() }
                }
                l.fetch_sub(1, Ordering::SeqCst);
                return;
            }
            for k in 0..lens[t] {
                rt::yield_();
                let (push, f) = client(t, k);
                let r = match push.how {
                    How::Await => block_on(f, None),
                    How::GiveUp(d) => block_on(f, Some(d)),
                    How::Forget => { drop(f); None }
                };
                done(t, k, 0, r);
            }
            l.fetch_sub(1, Ordering::SeqCst);
        });
        over.notify_one();
        driver.join().unwrap();
    }
    transport.join().unwrap();
    drop(machine);
    rt::cut(|| drop(rt_));
    check(&conn, &plans, &got.lock().unwrap());
}

fn check(conn: &SimConn, plans: &[Vec<(Push, Option<Bytes>)>], got: &[Got]) {
    let (sent, results): (Vec<Sent>, Vec<(usize, Option<Result<(), String>>, u64)>) = conn.with(|s| (s.sent.clone(), s.pending.iter().map(|p| (p.at, if p.thrown { Some(Err(THROWN.to_string())) } else { p.result.map(|r| r.map_err(|f| f.text())) }, p.since)).collect()));
    // Frames that carry pushes, by content.
    let mut frames: Vec<(usize, Bytes, bool)> = Vec::new();
    for (i, s) in sent.iter().enumerate() {
        match spell(&s.bytes).ok {
            Some(M::Push { meta }) => { if !s.awaited { probe("push.not_awaited"); } frames.push((i, meta, false)); }
            Some(M::Fnf { .. }) => (),
            Some(m) => violate("wrong-frame", format!("frame {} is no metadata push: {}", i, m.text())),
            None => violate("wrong-frame", format!("frame {} is malformed", i)),
        }
    }
    // Requests are counted, too: they must not disappear among the pushes.
    let fnf = sent.iter().filter(|s| matches!(spell(&s.bytes).ok, Some(M::Fnf { .. }))).count();
    let want_fnf = plans.iter().flatten().filter(|p| p.1.is_some()).count();
    if fnf != want_fnf { violate("requests-disturbed", format!("{} of {} fire-and-forget requests were sent", fnf, want_fnf)); }
    let awaited = |g: &&Got| matches!(plans[g.thread][g.k].0.how, How::Await) || g.result.is_some();
    for g in got.iter().filter(awaited) {
        let p = &plans[g.thread][g.k].0;
        let name = format!("push {}.{} of {} bytes", g.thread, g.k, p.meta.len());
        // Some pushes look alike: any frame with the same outcome will do.
        let same: Vec<usize> = frames.iter().enumerate().filter(|(_, f)| !f.2 && f.1 == p.meta).map(|x| x.0).collect();
        if same.is_empty() { violate("push-not-sent", format!("{} was awaited, but the transport was given no frame with this metadata", name)); }
        let alike = plans.iter().flatten().filter(|x| x.0.meta == p.meta).count();
        if same.len() > alike { violate("push-sent-twice", format!("the transport was given {} frames for {}", same.len(), name)); }
        let outcome = |fi: usize| results.iter().find(|r| r.0 == frames[fi].0).and_then(|r| r.1.clone());
        let mine = g.result.clone();
        let fits = |f: usize, thrown: bool| match (&outcome(f), &mine) { (Some(Ok(())), Some(Ok(()))) => true, (Some(Err(t)), Some(Err(e))) => e == t || thrown && t == THROWN, _ => false };
        match same.iter().copied().find(|f| fits(*f, false)).or_else(|| same.iter().copied().find(|f| fits(*f, true))) {
            Some(f) => frames[f].2 = true,
            None => violate("wrong-outcome", format!("{} completed with {:?}, but the transport's outcome was {:?}", name, mine, same.iter().map(|f| outcome(*f)).collect::<Vec<_>>())),
        }
        if matches!(&g.result, Some(Err(e)) if e == THROWN) { probe("push.panic_relayed"); }
        probe("push.outcome_relayed");
    }
    // The clock stands still while any thread can run: who waits for an outcome has it the moment it is
    // there, whatever becomes of other pushes.
    for g in got {
        let p = &plans[g.thread][g.k].0;
        if p.how == How::Forget || plans.iter().flatten().filter(|x| x.0.meta == p.meta).count() > 1 { continue; }
        let Some(f) = frames.iter().find(|f| f.1 == p.meta) else { continue };
        let Some((_, Some(_), since)) = results.iter().find(|r| r.0 == f.0) else { continue };
        let since = since.max(&g.from);
        if g.at > since + MS { violate("late-outcome", format!("push {}.{} of {} bytes was {} {} ms after the transport had reported its outcome", g.thread, g.k, p.meta.len(), if g.result.is_some() { "told" } else { "still waiting" }, (g.at - since) / MS)); }
        probe("push.outcome_at_once");
    }
    // Whatever else was sent belongs to pushes that were given up, at most once each.
    let mut rest: Vec<&Bytes> = plans.iter().enumerate().flat_map(|(t, p)| p.iter().enumerate().map(move |(k, p)| (t, k, p))).filter(|(t, k, _)| !got.iter().any(|g| g.thread == *t && g.k == *k && awaited(&g))).map(|x| &x.2 .0.meta).collect();
    for f in frames.iter().filter(|f| !f.2) {
        match rest.iter().position(|m| **m == f.1) {
            Some(i) => { rest.swap_remove(i); }
            None => violate("push-sent-twice", format!("the transport was given a metadata push of {} bytes that nobody asked for (again)", f.1.len())),
        }
    }
}
