//! C13 trailers and C14 upgrades: schedules of the channel halves, and pass-through of the upgraded connection.
use crate::gen;
use crate::infra::*;
use futures_lite::{AsyncRead, AsyncWrite};
use http_types::upgrade::Connection;
use http_types::{trailers::Trailers, Body, Method, Request, Response, StatusCode, Url};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

struct CountWaker(AtomicUsize);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}

// ---------------------------------------------------------------- what travels

type Pairs = Vec<(String, Vec<String>)>;

fn trailers_for(r: &mut Rng) -> (Trailers, Pairs) {
    let mut t = Trailers::new();
    let mut want: Pairs = vec![];
    let (lines, names) = if !cfg!(miri) && r.one_in(60) { (r.below(200), 150) } else { (r.len(5), 4) };
    for _ in 0..lines {
        let name = format!("x-{}", r.below(names));
        let v = gen::ascii_text(r, 12);
        if r.bool() {
            if t.append(name.as_str(), v.as_str()).is_ok() {
                match want.iter_mut().find(|p| p.0 == name) {
                    Some(p) => p.1.push(v),
                    None => want.push((name, vec![v])),
                }
            }
        } else if t.insert(name.as_str(), v.as_str()).is_ok() {
            match want.iter_mut().find(|p| p.0 == name) {
                Some(p) => p.1 = vec![v],
                None => want.push((name, vec![v])),
            }
        }
    }
    want.sort();
    (t, want)
}
fn observe_trailers(t: &Trailers) -> Pairs {
    let mut v: Pairs = t.iter().map(|(n, vs)| (n.as_str().to_string(), vs.iter().map(|v| v.as_str().to_string()).collect())).collect();
    v.sort();
    v
}

/// a stream whose identity and drop can be observed
struct Tagged {
    tag: u64,
    drops: Arc<AtomicUsize>,
}
impl Drop for Tagged {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
    }
}
impl AsyncRead for Tagged {
    fn poll_read(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let n = buf.len().min(8);
        buf[..n].copy_from_slice(&self.tag.to_le_bytes()[..n]);
        Poll::Ready(Ok(n))
    }
}
impl AsyncWrite for Tagged {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

enum Item {
    T(Trailers),
    C(Connection),
}
/// what an item must look like on arrival
#[derive(Clone, Debug, PartialEq)]
enum Id {
    T(Pairs),
    C(u64),
}

fn item(r: &mut Rng, upgrade: bool, drops: &Arc<AtomicUsize>) -> (Item, Id) {
    if upgrade {
        let tag = r.u64();
        (Item::C(Connection::new(Tagged { tag, drops: drops.clone() })), Id::C(tag))
    } else {
        let (t, p) = trailers_for(r);
        (Item::T(t), Id::T(p))
    }
}
fn identify(i: &mut Item) -> Id {
    match i {
        Item::T(t) => Id::T(observe_trailers(t)),
        Item::C(c) => {
            let mut b = [0u8; 8];
            let w: Waker = Arc::new(CountWaker(AtomicUsize::new(0))).into();
            let _ = Pin::new(c).poll_read(&mut Context::from_waker(&w), &mut b);
            Id::C(u64::from_le_bytes(b))
        }
    }
}

// ---------------------------------------------------------------- the halves

#[derive(Clone)]
enum Msg {
    Req(Request),
    Res(Response),
}
enum Snd {
    T(http_types::trailers::Sender),
    U(http_types::upgrade::Sender),
}
enum Rcv {
    T(http_types::trailers::Receiver),
    U(http_types::upgrade::Receiver),
}
impl Future for Rcv {
    type Output = Option<Item>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Item>> {
        match self.get_mut() {
            Rcv::T(r) => Pin::new(r).poll(cx).map(|o| o.map(Item::T)),
            Rcv::U(r) => Pin::new(r).poll(cx).map(|o| o.map(Item::C)),
        }
    }
}
type SendFut = Pin<Box<dyn Future<Output = ()> + Send>>;
impl Snd {
    fn send(self, i: Item) -> SendFut {
        match (self, i) {
            (Snd::T(s), Item::T(t)) => Box::pin(s.send(t)),
            (Snd::U(s), Item::C(c)) => Box::pin(s.send(c)),
            _ => unreachable!(),
        }
    }
}
impl Msg {
    fn new(kind: usize) -> Msg {
        if kind == 0 {
            Msg::Req(Request::new(Method::Post, Url::parse("http://example.com/a?b").unwrap()))
        } else {
            Msg::Res(Response::new(StatusCode::Ok))
        }
    }
    fn sender(&mut self, upgrade: bool) -> Snd {
        match self {
            Msg::Req(m) => Snd::T(m.send_trailers()),
            Msg::Res(m) if upgrade => Snd::U(m.send_upgrade()),
            Msg::Res(m) => Snd::T(m.send_trailers()),
        }
    }
    fn receiver(&mut self, upgrade: bool) -> Rcv {
        match self {
            Msg::Req(m) => Rcv::T(m.recv_trailers()),
            Msg::Res(m) if upgrade => Rcv::U(futures_lite::future::block_on(m.recv_upgrade())),
            Msg::Res(m) => Rcv::T(m.recv_trailers()),
        }
    }
    fn has(&self, upgrade: bool) -> bool {
        match self {
            Msg::Req(m) => m.has_trailers(),
            Msg::Res(m) if upgrade => m.has_upgrade(),
            Msg::Res(m) => m.has_trailers(),
        }
    }
    /// something that has nothing to do with trailers
    fn disturb(&mut self, r: &mut Rng) {
        match self {
            Msg::Req(m) => match r.below(4) {
                0 => m.set_body("x"),
                1 => {
                    let _ = m.take_body();
                }
                2 => m.set_method(Method::Put),
                _ => {
                    let _ = m.insert_header("x-y", "z");
                }
            },
            Msg::Res(m) => match r.below(4) {
                0 => m.set_body(Body::from_string("y".into())),
                1 => {
                    let _ = m.take_body();
                }
                2 => m.set_status(StatusCode::Accepted),
                _ => {
                    let _ = m.insert_header("x-y", "z");
                }
            },
        }
    }
}

// ---------------------------------------------------------------- schedule machine

const OPS: usize = 11;
const OP_NAMES: [&str; OPS] = ["take sender", "take receiver", "start send", "poll send", "drop sender", "drop send future", "poll receiver (waker 0)", "poll receiver (waker 1)", "drop receiver", "drop message", "touch message or clone"];

struct Model {
    sender_taken: bool,
    receiver_taken: bool,
    /// a sender exists somewhere: in the message, on its own, or inside a send that has not completed
    sender_alive: bool,
    queue: Option<Id>,
    done: bool,
    has: bool,
}

fn run_ops(c: &mut Case, kind: usize, upgrade: bool, ops: &[usize]) {
    let drops = Arc::new(AtomicUsize::new(0));
    let mut made = 0usize;
    let mut msg = Some(Msg::new(kind));
    let mut snd: Option<Snd> = None;
    let mut fut: Option<(SendFut, Id)> = None;
    let mut rcv: Option<Rcv> = None;
    let wakers: Vec<Arc<CountWaker>> = (0..2).map(|_| Arc::new(CountWaker(AtomicUsize::new(0)))).collect();
    let mut waiting: Option<(usize, usize)> = None;
    let mut m = Model { sender_taken: false, receiver_taken: false, sender_alive: true, queue: None, done: false, has: false };
    let mut trace: Vec<u8> = vec![];
    for &op in ops {
        let mut applied = true;
        match op {
            0 => match (&mut msg, m.sender_taken) {
                (Some(x), false) => {
                    snd = Some(x.sender(upgrade));
                    m.sender_taken = true;
                    m.has = true;
                }
                _ => applied = false,
            },
            1 => match (&mut msg, m.receiver_taken) {
                (Some(x), false) => {
                    rcv = Some(x.receiver(upgrade));
                    m.receiver_taken = true;
                    // a message that expects an upgrade reports it; trailers are reported for the sender only
                    if upgrade {
                        m.has = true;
                    }
                }
                _ => applied = false,
            },
            2 => match snd.take() {
                Some(s) => {
                    let (i, id) = item(&mut c.rng, upgrade, &drops);
                    made += 1;
                    fut = Some((s.send(i), id));
                }
                None => applied = false,
            },
            3 => match fut.take() {
                Some((mut f, id)) => {
                    let w: Waker = wakers[0].clone().into();
                    match f.as_mut().poll(&mut Context::from_waker(&w)) {
                        Poll::Ready(()) => {
                            c.count("sends completed");
                            if !m.receiver_taken && msg.is_some() || rcv.is_some() {
                                m.queue = Some(id);
                            }
                        }
                        Poll::Pending => c.fail("send-blocks", "sending did not complete although nothing was in flight".to_string()),
                    }
                    m.sender_alive = false;
                }
                None => applied = false,
            },
            4 => match snd.take() {
                Some(_) => m.sender_alive = false,
                None => applied = false,
            },
            5 => match fut.take() {
                Some(_) => m.sender_alive = false,
                None => applied = false,
            },
            6 | 7 => match &mut rcv {
                Some(rx) if !m.done => {
                    let w: Waker = wakers[op - 6].clone().into();
                    let got = Pin::new(rx).poll(&mut Context::from_waker(&w));
                    waiting = None;
                    match got {
                        Poll::Ready(Some(mut i)) => {
                            c.count("items received");
                            m.done = true;
                            let id = identify(&mut i);
                            let want = m.queue.take();
                            match want {
                                Some(w) => {
                                    c.eq("item-changed", id, w, &"received");
                                }
                                None => c.fail("item-from-nowhere", format!("{:?}", id)),
                            }
                        }
                        Poll::Ready(None) => {
                            c.count("receivers resolved to nothing");
                            m.done = true;
                            if let Some(q) = m.queue.take() {
                                c.fail("item-lost", format!("{:?} was sent but the receiver resolved to nothing", q));
                            } else if m.sender_alive {
                                c.fail("resolved-early", "the receiver resolved to nothing while the sender could still send".to_string());
                            }
                        }
                        Poll::Pending => {
                            c.count("receivers left waiting");
                            if m.queue.is_some() {
                                c.fail("item-withheld", "an item was sent but the receiver is not ready".to_string());
                            } else if !m.sender_alive {
                                c.fail("waits-for-ever", "the sender is gone but the receiver is not ready".to_string());
                            }
                            waiting = Some((op - 6, wakers[op - 6].0.load(SeqCst)));
                        }
                    }
                }
                _ => applied = false,
            },
            8 => match rcv.take() {
                Some(_) => {
                    m.queue = None;
                    waiting = None;
                }
                None => applied = false,
            },
            9 => match msg.take() {
                Some(_) => {
                    if !m.sender_taken {
                        m.sender_alive = false;
                    }
                    if !m.receiver_taken {
                        m.queue = None;
                    }
                }
                None => applied = false,
            },
            _ => match &mut msg {
                Some(x) => {
                    if c.rng.bool() {
                        x.disturb(&mut c.rng);
                    } else {
                        // a clone has its own channel: nothing it sends or drops concerns this message
                        let mut y = x.clone();
                        c.check("clone-has", !y.has(upgrade), || "a clone reports trailers nobody is sending".into());
                        if c.rng.bool() {
                            let s = y.sender(upgrade);
                            let (i, id) = item(&mut c.rng, upgrade, &drops);
                            made += 1;
                            let w: Waker = Arc::new(CountWaker(AtomicUsize::new(0))).into();
                            let mut cx = Context::from_waker(&w);
                            let _ = s.send(i).as_mut().poll(&mut cx);
                            let mut rx = y.receiver(upgrade);
                            match Pin::new(&mut rx).poll(&mut cx) {
                                Poll::Ready(Some(mut i)) => {
                                    let got = identify(&mut i);
                                    c.eq("clone-item", got, id, &"clone");
                                }
                                _ => c.fail("clone-item-lost", "what a clone sends does not reach its own receiver".to_string()),
                            }
                        }
                    }
                }
                None => applied = false,
            },
        }
        if !applied {
            continue;
        }
        trace.push(op as u8);
        c.step(|| OP_NAMES[op].to_string());
        if let Some(x) = &msg {
            let h = x.has(upgrade);
            c.eq("has", h, m.has, &(kind, upgrade));
        }
        if let Some((w, before)) = waiting {
            if m.queue.is_some() || !m.sender_alive {
                let now = wakers[w].0.load(SeqCst);
                c.check("lost-wakeup", now > before, || "the receiver became ready but its waker was not notified".into());
                c.count("wake-ups owed and seen");
                waiting = None;
            }
        }
        if c.failed() {
            return;
        }
    }
    // the end of everything: a waiting receiver resolves, nothing is leaked or dropped twice
    drop(msg);
    drop(snd);
    drop(fut);
    if let (Some(rx), false) = (&mut rcv, m.done) {
        let w: Waker = wakers[0].clone().into();
        let got = Pin::new(rx).poll(&mut Context::from_waker(&w));
        match (got, m.queue.take()) {
            (Poll::Ready(Some(mut i)), Some(w)) => {
                let id = identify(&mut i);
                c.eq("item-changed", id, w, &"end");
            }
            (Poll::Ready(None), None) => {}
            (Poll::Pending, _) => c.fail("waits-for-ever", "everything else is gone but the receiver is not ready".to_string()),
            (Poll::Ready(None), Some(_)) => c.fail("item-lost", "the sent item never arrived".to_string()),
            (Poll::Ready(Some(_)), None) => c.fail("item-from-nowhere", "end".to_string()),
        }
    }
    drop(rcv);
    if upgrade {
        c.eq("connections-dropped-once", drops.load(SeqCst), made, &trace);
    }
    c.note((kind, upgrade, &trace));
    c.sample(|| format!("{} {:?}", if kind == 0 { "request" } else { "response" }, trace.iter().map(|o| OP_NAMES[*o as usize]).collect::<Vec<_>>()));
}

const DEPTH: u32 = 6;
fn digits(mut i: u64) -> Vec<usize> {
    let mut v = vec![];
    for _ in 0..DEPTH {
        v.push((i % OPS as u64) as usize);
        i /= OPS as u64;
    }
    v
}
fn t_all(c: &mut Case) {
    let ops = digits(c.idx / 2);
    run_ops(c, (c.idx % 2) as usize, false, &ops)
}
fn u_all(c: &mut Case) {
    let ops = digits(c.idx);
    run_ops(c, 1, true, &ops)
}
fn t_rand(c: &mut Case) {
    let n = 6 + c.rng.below(14);
    let ops: Vec<usize> = (0..n).map(|_| c.rng.below(OPS)).collect();
    let k = c.rng.below(2);
    run_ops(c, k, false, &ops)
}
fn u_rand(c: &mut Case) {
    let n = 6 + c.rng.below(14);
    let ops: Vec<usize> = (0..n).map(|_| c.rng.below(OPS)).collect();
    run_ops(c, 1, true, &ops)
}

// ---------------------------------------------------------------- real threads

struct Park {
    m: Mutex<bool>,
    cv: Condvar,
}
impl Wake for Park {
    fn wake(self: Arc<Self>) {
        *self.m.lock().unwrap() = true;
        self.cv.notify_all();
    }
}
/// poll until ready; None when no wake-up arrived in time
fn drive<F: Future + Unpin>(f: &mut F, switch: bool, polls: &mut usize) -> Option<F::Output> {
    let mk = || Arc::new(Park { m: Mutex::new(false), cv: Condvar::new() });
    let mut p = mk();
    let end = Instant::now() + Duration::from_secs(20);
    loop {
        if switch && *polls == 1 {
            // another task takes over
            p = mk();
        }
        let w: Waker = p.clone().into();
        *polls += 1;
        if let Poll::Ready(v) = Pin::new(&mut *f).poll(&mut Context::from_waker(&w)) {
            return Some(v);
        }
        if switch && *polls == 1 {
            continue;
        }
        let mut g = p.m.lock().unwrap();
        while !*g {
            let left = end.checked_duration_since(Instant::now())?;
            g = p.cv.wait_timeout(g, left).unwrap().0;
        }
        *g = false;
    }
}
fn spin(n: usize) {
    for _ in 0..n {
        std::hint::spin_loop();
    }
    if n % 7 == 3 {
        std::thread::yield_now();
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum SEnd {
    Send,
    DropSender,
    DropFuture,
    DropMessage,
}
fn threads(c: &mut Case, upgrade: bool) {
    let kind = if upgrade { 1 } else { c.rng.below(2) };
    let drops = Arc::new(AtomicUsize::new(0));
    let mut msg = Msg::new(kind);
    let end = *c.rng.pick(&[SEnd::Send, SEnd::Send, SEnd::Send, SEnd::DropSender, SEnd::DropFuture, SEnd::DropMessage]);
    let (a, b, d) = (c.rng.len(4000), c.rng.len(4000), c.rng.len(4000));
    let (it, id) = item(&mut c.rng, upgrade, &drops);
    let abandon = c.rng.one_in(8);
    let switch = c.rng.bool();
    let mut rx = msg.receiver(upgrade);
    let snd = if end == SEnd::DropMessage { None } else { Some(msg.sender(upgrade)) };
    let keep = if c.rng.bool() || end == SEnd::DropMessage { Some(msg) } else { None };
    let gate = std::sync::Barrier::new(2);
    let mut polls = 0;
    let got = std::thread::scope(|s| {
        let gate = &gate;
        s.spawn(move || {
            gate.wait();
            spin(a);
            match (snd, end) {
                (Some(s), SEnd::Send) => {
                    let mut f = s.send(it);
                    drive(&mut f, false, &mut 0).is_some()
                }
                (Some(s), SEnd::DropFuture) => {
                    let f = s.send(it);
                    spin(d);
                    drop(f);
                    true
                }
                (Some(s), _) => {
                    drop(s);
                    drop(it);
                    true
                }
                (None, _) => {
                    drop(keep);
                    drop(it);
                    true
                }
            }
        });
        gate.wait();
        spin(b);
        if abandon {
            if d % 2 == 0 {
                let w: Waker = Arc::new(CountWaker(AtomicUsize::new(0))).into();
                let r = Pin::new(&mut rx).poll(&mut Context::from_waker(&w));
                drop(r);
            }
            drop(rx);
            None
        } else {
            Some(drive(&mut rx, switch, &mut polls))
        }
    });
    match got {
        None => c.count("receivers abandoned"),
        Some(None) => c.fail("no-wakeup", format!("the receiver was not woken within 20 s ({:?})", end)),
        Some(Some(Some(mut i))) => {
            c.count("items received");
            let got = identify(&mut i);
            c.check("sent", end == SEnd::Send, || format!("{:?} but something arrived", end));
            c.eq("item-changed", got, id.clone(), &"threads");
        }
        Some(Some(None)) => {
            c.count("receivers resolved to nothing");
            c.check("not-sent", end != SEnd::Send, || "sent, but the receiver resolved to nothing".into());
        }
    }
    if polls > 1 {
        c.count("receivers that had to wait");
    }
    if upgrade {
        c.eq("connections-dropped-once", drops.load(SeqCst), 1, &"threads");
    }
    c.note((kind, format!("{:?}", end), polls.min(4), abandon, a / 64, b / 64));
}
fn t_threads(c: &mut Case) {
    threads(c, false)
}
fn u_threads(c: &mut Case) {
    threads(c, true)
}

/// many messages at once on an executor, halves moved between tasks
fn t_tasks(c: &mut Case) {
    let n = 1 + c.rng.below(40);
    let mut plans = vec![];
    for _ in 0..n {
        let (t, want) = trailers_for(&mut c.rng);
        plans.push((t, want, c.rng.below(2), c.rng.below(5) != 0, c.rng.below(4), c.rng.below(4)));
    }
    let bad: Vec<String> = async_std::task::block_on(async move {
        let mut joins = vec![];
        for (t, want, kind, send, y1, y2) in plans {
            let mut m = Msg::new(kind);
            let s = m.sender(false);
            let r = m.receiver(false);
            let a = async_std::task::spawn(async move {
                for _ in 0..y1 {
                    async_std::task::yield_now().await;
                }
                if send {
                    s.send(Item::T(t)).await;
                }
                drop(m);
            });
            let b = async_std::task::spawn(async move {
                for _ in 0..y2 {
                    async_std::task::yield_now().await;
                }
                let mut got = r.await;
                let got = got.as_mut().map(identify);
                let want = if send { Some(Id::T(want)) } else { None };
                if got != want {
                    Some(format!("got {:?}, expected {:?}", got, want))
                } else {
                    None
                }
            });
            joins.push((a, b));
        }
        let mut bad = vec![];
        for (a, b) in joins {
            a.await;
            if let Some(x) = b.await {
                bad.push(x);
            }
        }
        bad
    });
    c.count_n("messages", n as u64);
    c.note((n, c.idx));
    for b in bad {
        c.fail("tasks", b);
    }
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "request or response x schedule of {take sender, take receiver, start/poll/drop send, poll receiver with either of two wakers, drop receiver, drop message, clone or edit the message}: every sequence of 6 operations, random longer ones, two real threads with random delays, and many messages on an executor; non-trivial: distinct sequences of operations that applied (single-threaded), distinct outcome classes (threads)",
        assumptions: &["single-threaded schedules interleave at poll granularity; finer interleavings are sampled by the thread runs"],
        subs: vec![
            all("schedules", 2 * (OPS as u64).pow(DEPTH), t_all),
            rand("long", 100_000, 5_000_000, t_rand),
            rand("threads", 8_000, 400_000, t_threads),
            native(serial(rand("tasks", 200, 8_000, t_tasks))),
        ],
    }
}

// ---------------------------------------------------------------- connection pass-through

#[derive(Clone, Debug)]
enum Plan {
    N(usize),
    Pending,
    Err(io::ErrorKind, u32),
}
#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Read(usize, Vec<u8>, String),
    Write(Vec<u8>, String),
    Flush(String),
    Close(String),
}
#[derive(Default)]
struct Script {
    next: Option<Plan>,
    counter: u8,
    log: Vec<Ev>,
    waker: Option<Waker>,
    calls: usize,
}
struct Stream(Arc<Mutex<Script>>);

fn show(r: &Poll<io::Result<usize>>) -> String {
    match r {
        Poll::Pending => "pending".into(),
        Poll::Ready(Ok(n)) => format!("ok {}", n),
        Poll::Ready(Err(e)) => format!("err {:?} {}", e.kind(), e),
    }
}
impl Stream {
    fn step(&self, cx: &mut Context<'_>) -> (Poll<io::Result<usize>>, u8) {
        let mut s = self.0.lock().unwrap();
        s.calls += 1;
        let p = match s.next.clone().unwrap_or(Plan::N(0)) {
            Plan::N(n) => Poll::Ready(Ok(n)),
            Plan::Pending => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
            Plan::Err(k, id) => Poll::Ready(Err(io::Error::new(k, format!("fault {}", id)))),
        };
        (p, s.counter)
    }
}
impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let (r, mut ctr) = self.step(cx);
        let mut bytes = vec![];
        let r = match r {
            Poll::Ready(Ok(n)) => {
                let n = n.min(buf.len());
                for b in &mut buf[..n] {
                    ctr = ctr.wrapping_mul(5).wrapping_add(17);
                    *b = ctr;
                    bytes.push(ctr);
                }
                Poll::Ready(Ok(n))
            }
            r => r,
        };
        let mut s = self.0.lock().unwrap();
        s.counter = ctr;
        let t = show(&r);
        s.log.push(Ev::Read(buf.len(), bytes, t));
        r
    }
}
impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let (r, _) = self.step(cx);
        let r = r.map(|r| r.map(|n| n.min(buf.len())));
        let t = show(&r);
        self.0.lock().unwrap().log.push(Ev::Write(buf.to_vec(), t));
        r
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (r, _) = self.step(cx);
        let r = r.map(|r| r.map(|_| 0));
        let t = show(&r);
        self.0.lock().unwrap().log.push(Ev::Flush(t));
        r.map(|r| r.map(|_| ()))
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let (r, _) = self.step(cx);
        let r = r.map(|r| r.map(|_| 0));
        let t = show(&r);
        self.0.lock().unwrap().log.push(Ev::Close(t));
        r.map(|r| r.map(|_| ()))
    }
}

fn conn_io(c: &mut Case) {
    let st = Arc::new(Mutex::new(Script::default()));
    let mut conn = Connection::new(Stream(st.clone()));
    if c.rng.bool() {
        // hand it over first
        let mut res = Response::new(StatusCode::SwitchingProtocols);
        let s = res.send_upgrade();
        let got = futures_lite::future::block_on(async {
            let r = res.recv_upgrade().await;
            s.send(conn).await;
            r.await
        });
        conn = match got {
            Some(c) => c,
            None => return c.fail("io:lost", "the connection did not arrive".to_string()),
        };
    }
    let flag = Arc::new(CountWaker(AtomicUsize::new(0)));
    let waker: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    let n = 1 + c.rng.below(25);
    let mut sig = vec![];
    for _ in 0..n {
        let r = &mut c.rng;
        let plan = match r.below(8) {
            0 | 1 => Plan::Pending,
            2 => Plan::Err(*r.pick(&[io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::Interrupted, io::ErrorKind::UnexpectedEof, io::ErrorKind::Other, io::ErrorKind::WriteZero, io::ErrorKind::ConnectionReset]), r.below(1000) as u32),
            3 => Plan::N(0),
            4 => Plan::N(1),
            _ => Plan::N(r.below(300)),
        };
        st.lock().unwrap().next = Some(plan.clone());
        let op = r.below(6);
        let len = if r.one_in(200) { 60_000 + r.below(20_000) } else { r.len(64) };
        let p2 = plan.clone();
        c.step(|| format!("op {} len {} stream does {:?}", op, len, p2));
        let before = st.lock().unwrap().log.len();
        let mut want: Vec<Ev>;
        let inner;
        match op {
            0 | 1 => {
                let mut buf = vec![0xEEu8; len];
                let got = Pin::new(&mut conn).poll_read(&mut cx, &mut buf);
                let k = match &got {
                    Poll::Ready(Ok(k)) => (*k).min(len),
                    _ => 0,
                };
                want = vec![Ev::Read(len, buf[..k].to_vec(), show(&got))];
                c.check("io:read-beyond", buf[k..].iter().all(|b| *b == 0xEE), || "bytes behind the returned count were written".into());
            }
            2 | 3 => {
                let data = gen::bytes(&mut c.rng, len);
                let got = Pin::new(&mut conn).poll_write(&mut cx, &data);
                want = vec![Ev::Write(data, show(&got))];
            }
            4 => {
                let got = Pin::new(&mut conn).poll_flush(&mut cx);
                want = vec![Ev::Flush(show(&got.map(|r| r.map(|_| 0))))];
            }
            _ => {
                let got = Pin::new(&mut conn).poll_close(&mut cx);
                want = vec![Ev::Close(show(&got.map(|r| r.map(|_| 0))))];
            }
        }
        {
            let s = st.lock().unwrap();
            inner = s.log[before..].to_vec();
        }
        c.count(match &plan {
            Plan::Pending => "pending passed on",
            Plan::Err(..) => "errors passed on",
            Plan::N(_) => "transfers passed on",
        });
        if !c.eq("io:passed-through", inner, std::mem::take(&mut want), &op) {
            return;
        }
        if let Plan::Pending = plan {
            let w = st.lock().unwrap().waker.take();
            let before = flag.0.load(SeqCst);
            if let Some(w) = w {
                w.wake();
            }
            c.check("io:waker", flag.0.load(SeqCst) > before, || "the stream's wake-up did not reach the caller".into());
        }
        sig.push((op, format!("{:?}", plan).chars().take(4).collect::<String>(), len));
    }
    c.note(&sig);
    c.sample(|| format!("{:?}", sig));
}

/// whole transfers through the AsyncReadExt / AsyncWriteExt combinators over a flaky stream
fn conn_pipe(c: &mut Case) {
    use futures_lite::{AsyncReadExt, AsyncWriteExt};
    struct Flaky {
        data: Vec<u8>,
        pos: usize,
        out: Arc<Mutex<(Vec<u8>, bool)>>,
        r: Rng,
    }
    impl Flaky {
        fn hiccup(&mut self, cx: &mut Context<'_>) -> bool {
            if self.r.one_in(3) {
                cx.waker().wake_by_ref();
                return true;
            }
            false
        }
    }
    impl AsyncRead for Flaky {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            if self.hiccup(cx) {
                return Poll::Pending;
            }
            let most = buf.len().min(self.data.len() - self.pos);
            let n = if most == 0 { 0 } else { 1 + self.r.below(most) };
            let p = self.pos;
            buf[..n].copy_from_slice(&self.data[p..p + n]);
            self.pos += n;
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncWrite for Flaky {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            if self.hiccup(cx) {
                return Poll::Pending;
            }
            let n = if buf.is_empty() { 0 } else { 1 + self.r.below(buf.len()) };
            self.out.lock().unwrap().0.extend_from_slice(&buf[..n]);
            Poll::Ready(Ok(n))
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            if self.hiccup(cx) {
                return Poll::Pending;
            }
            Poll::Ready(Ok(()))
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            if self.hiccup(cx) {
                return Poll::Pending;
            }
            self.out.lock().unwrap().1 = true;
            Poll::Ready(Ok(()))
        }
    }
    let data = gen::bytes(&mut c.rng, 3000);
    let send = gen::bytes(&mut c.rng, 3000);
    let out = Arc::new(Mutex::new((vec![], false)));
    let seed = c.rng.u64();
    let mut conn = Connection::new(Flaky { data: data.clone(), pos: 0, out: out.clone(), r: Rng::new(seed) });
    let send2 = send.clone();
    let vectored = c.rng.bool();
    let cut = c.rng.below(send.len() + 1);
    let got = futures_lite::future::block_on(async {
        let mut got = vec![];
        if vectored {
            let (mut a, mut b) = (vec![0; cut % 70], vec![0; 1 + cut % 50]);
            loop {
                let n = conn.read_vectored(&mut [io::IoSliceMut::new(&mut a), io::IoSliceMut::new(&mut b)]).await?;
                if n == 0 {
                    break;
                }
                let k = n.min(a.len());
                got.extend_from_slice(&a[..k]);
                got.extend_from_slice(&b[..n - k]);
            }
        } else {
            conn.read_to_end(&mut got).await?;
        }
        if vectored {
            let (mut a, mut b) = (&send2[..cut], &send2[cut..]);
            while !a.is_empty() || !b.is_empty() {
                let n = conn.write_vectored(&[io::IoSlice::new(a), io::IoSlice::new(b)]).await?;
                let k = n.min(a.len());
                a = &a[k..];
                b = &b[n - k..];
            }
        } else {
            conn.write_all(&send2).await?;
        }
        conn.flush().await?;
        conn.close().await?;
        Ok::<_, io::Error>(got)
    });
    match got {
        Ok(g) => {
            let o = out.lock().unwrap().clone();
            c.count_n("bytes through", (g.len() + o.0.len()) as u64);
            c.check("pipe:read", g == data, || format!("{} bytes instead of {}", g.len(), data.len()));
            c.check("pipe:written", o.0 == send, || format!("{} bytes instead of {}", o.0.len(), send.len()));
            c.check("pipe:closed", o.1, || "close did not reach the stream".into());
        }
        Err(e) => c.fail("pipe:error", e.to_string()),
    }
    c.note((data.len(), send.len(), seed));
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "the schedules of C13 for the upgrade channel with identifiable, drop-counted connections; sequences of read/write/flush/close polls against a scripted stream (short, pending, failing), before or after hand-over; whole transfers over a flaky stream; non-trivial: distinct applied schedules / call sequences",
        assumptions: &["single-threaded schedules interleave at poll granularity; finer interleavings are sampled by the thread runs"],
        subs: vec![
            all("schedules", (OPS as u64).pow(DEPTH), u_all),
            rand("long", 100_000, 4_000_000, u_rand),
            rand("threads", 6_000, 300_000, u_threads),
            rand("io", 60_000, 2_000_000, conn_io),
            rand("pipe", 2_000, 60_000, conn_pipe),
        ],
    }
}
