//! The transport of the simulated connections: a stand-in for the network that implements binate's
//! `DuplexConnection`, under control of the scenario.
use crate::engine::*;
use crate::{ev, rt};
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::{DecodeError, Encode, Frame};
use binate::{Error, Flux, Mono, Result};
use bytes::Bytes;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

/// What the transport was given, in order.
#[derive(Clone)]
pub struct Sent { pub thread: i32, pub bytes: Bytes, pub refused: Option<String>, pub awaited: bool, pub ts: u64 }

pub struct Sub<T> { queue: VecDeque<T>, end: bool, waker: Option<Waker>, dead: bool }
impl<T> Sub<T> { fn new() -> Self { Sub { queue: VecDeque::new(), end: false, waker: None, dead: false } } }

/// The outcome of a `send` that is still to come.
pub struct Pending { pub at: usize, pub result: Option<std::result::Result<(), Failure>>, pub since: u64, pub waker: Option<Waker>, pub taken: bool, pub dropped: bool, pub thrown: bool }

#[derive(Default)]
pub struct State {
    pub sent: Vec<Sent>,
    pub closes: Vec<u64>,
    pub rx: Vec<Sub<Frame>>,
    pub st: Vec<Sub<ConnectionStatus>>,
    pub status: Option<ConnectionStatus>,
    pub pending: Vec<Pending>,
    pub polls: u64,
    pub refuse: Refuse,
    pub refused: u32,
    /// How many of 16 refusals are panics of the transport.
    pub throws: u32,
    pub send_plan: Vec<SendPlan>,
    /// Keeps no record of what is sent: whether it succeeds goes by this chance of refusal in 1/16.
    pub lean: Option<u32>,
    /// How long the transport takes to accept frames, in turn; empty: no time at all.
    pub slow: Vec<u64>,
    /// Whether this applies to frames whose outcome is awaited, too.
    pub slow_awaited: bool,
    /// Whether the stream of frames, that of statuses has ended, also for those who subscribe later.
    pub over: (bool, bool),
    /// What closing does to the transport: nothing, or its status becomes Closed, perhaps with the end of
    /// its streams; and how often that was to be seen.
    pub on_close: OnClose,
    pub closed_itself: usize,
}
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub enum OnClose { #[default] Silent, Reports, ReportsAndEnds }
impl OnClose { pub fn draw() -> OnClose { if chance(1, 2) { OnClose::Silent } else { fault("closing changes the transport's status"); if chance(1, 2) { OnClose::Reports } else { OnClose::ReportsAndEnds } } } }
impl<T> Sub<T> { pub fn dead(&self) -> bool { self.dead } }
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub enum SendPlan { #[default] Later, Now, NowErr, Throws }

/// The transport panics; and what it says.
struct Thrown(String);
fn throw(text: String) -> ! { fault("transport panics"); std::panic::resume_unwind(Box::new(Thrown(text))) }
/// Calls code under test that calls the transport. A panic of the transport arrives at the caller.
pub fn survive<R>(f: impl FnOnce() -> R) -> std::result::Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::cut(f))).map_err(|e| match e.downcast::<Thrown>() { Ok(t) => t.0, Err(_) => violate("panic", "a panic of the transport reached the caller as another one".into()) })
}
/// A request over a transport that may refuse it in either way.
pub fn request(machine: &binate::connection::sim::SimMachine, p: binate::Payload) -> std::result::Result<(), String> {
    survive(|| machine.rsocket().fire_and_forget(p)).and_then(|r| r.map_err(|e| say(&e)))
}
/// A push over a transport that may panic, when it is asked for or when it is awaited.
pub fn push(machine: &binate::connection::sim::SimMachine, meta: Bytes) -> Pushing { Pushing(survive(|| machine.rsocket().metadata_push(meta)).ok()) }
pub struct Pushing(Option<Mono<Result<()>>>);
pub const THROWN: &str = "the transport panicked";
impl Future for Pushing {
    type Output = std::result::Result<(), String>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let thrown = Poll::Ready(Err(THROWN.to_string()));
        match &mut self.0 { None => thrown, Some(f) => survive(|| f.as_mut().poll(cx)).map_or(thrown, |p| p.map(|r| r.map_err(|e| say(&e)))) }
    }
}
impl Drop for Pushing { fn drop(&mut self) { let f = self.0.take(); rt::cut(|| drop(f)) } }

/// When the transport refuses frames.
#[derive(Clone, Default, Debug)]
pub enum Refuse { #[default] Never, Once(usize), Burst(usize, usize), From(usize), Often(u32) }

#[derive(Clone)]
pub struct SimConn(pub Arc<Mutex<State>>);

/// An error of the transport: of some kind, with a number that tells it from all others.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Failure { kind: u32, n: u32 }
impl Failure {
    pub fn draw(n: u32) -> Failure { Failure { kind: choose(20), n } }
    pub fn error(self) -> Error {
        use std::io::ErrorKind::*;
        if self.kind > 15 {
            // What the operating system has to say; each number once.
            let n = self.n as i32;
            return std::io::Error::from_raw_os_error(if n <= 131 { (n * 37) % 131 + 1 } else { n + 1000 }).into();
        }
        if self.kind == 15 { return DecodeError::UnrecognizedFrameType(self.n as u16).into(); }
        let k = [Other, Interrupted, WouldBlock, TimedOut, BrokenPipe, ConnectionReset, ConnectionAborted, NotConnected, UnexpectedEof, WriteZero, ConnectionRefused, InvalidData, PermissionDenied, AddrNotAvailable, OutOfMemory][self.kind as usize % 15];
        std::io::Error::new(k, format!("{} (transport failure #{}#)", k, self.n)).into()
    }
    pub fn text(self) -> String { say(&self.error()) }
}
/// Everything an error shows about itself.
pub fn say(e: &Error) -> String { format!("{} {:?}", e, e) }

impl SimConn {
    pub fn new() -> SimConn { SimConn(Arc::new(Mutex::new(State { status: Some(ConnectionStatus::Connected), ..State::default() }))) }
    pub fn with<R>(&self, f: impl FnOnce(&mut State) -> R) -> R { f(&mut self.0.lock().unwrap()) }
    /// A frame arrives from the peer.
    pub fn deliver(&self, frame: Frame) {
        let ws = self.with(|s| s.rx.iter_mut().filter(|r| !r.dead).filter_map(|r| { r.queue.push_back(frame.clone()); r.waker.take() }).collect::<Vec<_>>());
        rt::cut(|| for w in ws { w.wake() });
    }
    pub fn change(&self, status: ConnectionStatus) {
        let ws = self.with(|s| { s.status = Some(status.clone()); s.st.iter_mut().filter(|r| !r.dead).filter_map(|r| { r.queue.push_back(status.clone()); r.waker.take() }).collect::<Vec<_>>() });
        rt::cut(|| for w in ws { w.wake() });
    }
    pub fn end_streams(&self, frames: bool, statuses: bool) {
        let ws = self.with(|s| {
            let mut ws = Vec::new();
            s.over.0 |= frames;
            s.over.1 |= statuses;
            if frames { for r in &mut s.rx { r.end = true; ws.extend(r.waker.take()); } }
            if statuses { for r in &mut s.st { r.end = true; ws.extend(r.waker.take()); } }
            ws
        });
        rt::cut(|| for w in ws { w.wake() });
    }
    /// The transport reports the outcome of a send.
    pub fn complete(&self, i: usize, result: std::result::Result<(), Failure>) {
        let w = self.with(|s| { let p = &mut s.pending[i]; p.result = Some(result); p.since = rt::now(); p.waker.take() });
        if let Some(w) = w { rt::cut(|| w.wake()) }
    }
}

/// The transport takes its time to accept frame number `at`, and the caller has to wait.
fn take_time(slow: u64, at: usize) {
    if slow > 0 { fault("slow send"); ev!(0x23, "the transport takes {} ns to accept frame {}", slow, at); rt::sleep(slow); }
}
fn slow(s: &State, at: usize) -> u64 { if s.slow.is_empty() { 0 } else { s.slow[at % s.slow.len()] } }

fn refuses(s: &State, at: usize) -> bool {
    match s.refuse {
        Refuse::Never => false,
        Refuse::Once(k) => at == k,
        Refuse::Burst(k, n) => (k..k + n).contains(&at),
        Refuse::From(k) => at >= k,
        Refuse::Often(p) => chance(p, 16),
    }
}

/// A stream of what arrives; `which` selects the queue.
struct Stream<T> { conn: SimConn, i: usize, which: fn(&mut State) -> &mut Vec<Sub<T>> }
impl<T> tokio_stream::Stream for Stream<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let mut old = None; // wakers are dropped when the lock is free again
        let (r, wake) = rt::harness(|| self.conn.with(|s| {
            s.polls += 1;
            let sub = &mut (self.which)(s)[self.i];
            if !sub.queue.is_empty() || sub.end {
                // Being woken does not mean that the stream is ready at once.
                if chance(1, 10) { fault("spurious wakeup"); old = sub.waker.take(); return (Poll::Pending, true); }
                return (Poll::Ready(sub.queue.pop_front()), false);
            }
            old = sub.waker.replace(cx.waker().clone());
            (Poll::Pending, false)
        }));
        rt::harness(|| drop(old));
        if wake { cx.waker().wake_by_ref(); }
        r
    }
}
impl<T> Drop for Stream<T> {
    fn drop(&mut self) { rt::harness(|| { let old = self.conn.with(|s| { let sub = &mut (self.which)(s)[self.i]; sub.dead = true; sub.queue.clear(); sub.waker.take() }); drop(old) }) }
}

struct Outcome { conn: SimConn, i: usize }
impl Future for Outcome {
    type Output = Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        rt::harness(|| {
            let (r, old) = self.conn.with(|s| {
                let p = &mut s.pending[self.i];
                match p.result {
                    Some(r) => { p.taken = true; (Poll::Ready(r.map_err(|t| t.error())), None) }
                    None => (Poll::Pending, p.waker.replace(cx.waker().clone())),
                }
            });
            drop(old);
            r
        })
    }
}
impl Drop for Outcome { fn drop(&mut self) { rt::harness(|| { let old = self.conn.with(|s| { let p = &mut s.pending[self.i]; p.dropped = true; p.waker.take() }); drop(old) }) } }

impl SimConn { fn throws(&self) -> bool { let n = self.with(|s| s.throws); n > 0 && rt::harness(|| chance(n, 16)) } }
impl DuplexConnection for SimConn {
    fn send(&self, frame: Frame) -> Mono<Result<()>> {
        if let Some(p) = self.with(|s| s.lean) {
            let r = if rt::harness(|| chance(p, 16)) { if self.throws() { throw(String::new()) } Err(Failure { kind: 0, n: 0 }.error()) } else { Ok(()) };
            return Box::pin(async move { drop(frame); r });
        }
        let bytes = frame.to_bytes();
        rt::harness(|| {
            let (i, slow, at, throws) = self.with(|s| {
                let at = s.sent.len();
                let i = s.pending.len();
                s.sent.push(Sent { thread: rt::me(), bytes, refused: None, awaited: true, ts: tick() });
                let result = match s.send_plan.get(i).copied().unwrap_or_default() { SendPlan::Later | SendPlan::Throws => None, SendPlan::Now => Some(Ok(())), SendPlan::NowErr => { fault("send failed at once"); Some(Err(Failure::draw(10_000 + i as u32))) } };
                let throws = s.send_plan.get(i) == Some(&SendPlan::Throws);
                s.pending.push(Pending { at, result, since: rt::now(), waker: None, taken: false, dropped: throws, thrown: throws });
                (i, if s.slow_awaited { slow(s, at) } else { 0 }, at, throws)
            });
            take_time(slow, at);
            ev!(0x20, "transport is given frame {} (to be awaited){}", at, if throws { ": it panics" } else { "" });
            if throws { throw(String::new()) }
            Box::pin(Outcome { conn: self.clone(), i }) as Mono<Result<()>>
        })
    }
    fn send_and_forget(&self, frame: Frame) -> Result<()> {
        if let Some(p) = self.with(|s| s.lean) {
            return if rt::harness(|| chance(p, 16)) { if self.throws() { throw(String::new()) } Err(Failure { kind: 0, n: 0 }.error()) } else { Ok(()) };
        }
        let bytes = frame.to_bytes();
        drop(frame);
        let r = rt::harness(|| self.with(|s| {
            let at = s.sent.len();
            let refused = if refuses(s, at) { s.refused += 1; Some(Failure::draw(s.refused)) } else { None };
            if refused.is_some() { fault("send refused"); }
            let throws = refused.is_some() && s.throws > 0 && chance(s.throws, 16);
            ev!(0x21 + ((bytes.len() as u64) << 8), "transport is given frame {} ({} bytes){}{}", at, bytes.len(), refused.map(|r| format!(": {}", r.text())).unwrap_or_default(), if throws { " (it panics)" } else { "" });
            s.sent.push(Sent { thread: rt::me(), bytes, refused: refused.map(|r| r.text()), awaited: false, ts: tick() });
            (match refused { Some(t) if throws => Err(Err(t.text())), Some(t) => Err(Ok(t.error())), None => Ok(()) }, slow(s, at), at)
        }));
        rt::harness(|| take_time(r.1, r.2));
        let r = r.0;
        // Another thread may go on while this send takes its time.
        rt::yield_();
        r.map_err(|e| match e { Ok(e) => e, Err(text) => rt::harness(|| throw(text)) })
    }
    fn send_stream(&self, _frames: Flux<Frame>) {}
    fn receive(&self) -> Flux<Frame> {
        rt::harness(|| { let i = self.with(|s| { let mut sub = Sub::new(); sub.end = s.over.0; s.rx.push(sub); s.rx.len() - 1 }); Box::pin(Stream { conn: self.clone(), i, which: |s: &mut State| &mut s.rx }) as Flux<Frame> })
    }
    fn connect(&self) {}
    fn close(&self) {
        let on_close = rt::harness(|| {
            ev!(0x22, "the connection is closed");
            self.with(|s| {
                s.closes.push(rt::now());
                // Whether anybody gets to see it.
                if s.on_close != OnClose::Silent && s.status != Some(ConnectionStatus::Closed) && !s.over.1 { s.closed_itself += 1; s.on_close } else { OnClose::Silent }
            })
        });
        if on_close != OnClose::Silent { rt::harness(|| self.change(ConnectionStatus::Closed)); }
        if on_close == OnClose::ReportsAndEnds { rt::harness(|| self.end_streams(true, true)); }
    }
    fn connection_status(&self) -> Flux<ConnectionStatus> {
        rt::harness(|| {
            let i = self.with(|s| { let mut sub = Sub::new(); sub.end = s.over.1; sub.queue.push_back(s.status.clone().unwrap()); s.st.push(sub); s.st.len() - 1 });
            if i > 10_000 { violate("no-progress", "the transport's status is subscribed to without end".into()) }
            Box::pin(Stream { conn: self.clone(), i, which: |s: &mut State| &mut s.st }) as Flux<ConnectionStatus>
        })
    }
}
