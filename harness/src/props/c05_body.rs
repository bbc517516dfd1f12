//! C05: a body delivers exactly its bytes. Scripted sources (short reads, Pending, errors) under
//! random consumers; an online monitor checks every byte, every end-of-stream, every error and wake-up.
use crate::gen;
use crate::infra::*;
use futures_lite::io::{AsyncBufRead, AsyncRead};
use futures_lite::{AsyncBufReadExt, AsyncReadExt};
use http_types::{mime, Body, Method, Request, Response, StatusCode, Url, Version};
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Debug, Clone, PartialEq)]
pub enum Ev {
    /// the next call may hand out at most this many bytes
    Chunk(usize),
    /// not ready; waker fired by the driver
    Pending,
    /// not ready; waker fired immediately
    PendingSelf,
    Err(u32),
}

#[derive(Default, Debug)]
pub struct Probe {
    pub stored: Option<Waker>,
    pub pendings: u64,
    pub errors: Vec<u32>,
    pub misuse: Vec<String>,
    pub polls: u64,
}

pub struct Script {
    data: Vec<u8>,
    pos: usize,
    evs: Vec<Ev>,
    at: usize,
    /// bytes exposed by the last fill_buf
    exposed: usize,
    /// end of stream was reported: stay there
    ended: bool,
    probe: Arc<Mutex<Probe>>,
}

impl Script {
    pub fn new(data: Vec<u8>, evs: Vec<Ev>, probe: Arc<Mutex<Probe>>) -> Script {
        Script { data, pos: 0, evs, at: 0, exposed: 0, ended: false, probe }
    }
    fn step(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        if self.ended {
            return Poll::Ready(Ok(0));
        }
        let ev = self.evs.get(self.at).cloned().unwrap_or(Ev::Chunk(usize::MAX));
        let mut p = self.probe.lock().unwrap();
        p.polls += 1;
        match ev {
            Ev::Chunk(n) => {
                let n = n.max(1).min(self.data.len() - self.pos);
                self.ended = n == 0;
                Poll::Ready(Ok(n))
            }
            Ev::Pending => {
                self.at += 1;
                p.pendings += 1;
                p.stored = Some(cx.waker().clone());
                Poll::Pending
            }
            Ev::PendingSelf => {
                self.at += 1;
                p.pendings += 1;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Ev::Err(id) => {
                self.at += 1;
                p.errors.push(id);
                Poll::Ready(Err(io::Error::new(kind_of(id), format!("injected-{}", id))))
            }
        }
    }
}

/// every error has a kind of its own, the ones that mean something to readers included
fn kind_of(id: u32) -> io::ErrorKind {
    use io::ErrorKind::*;
    const KINDS: [io::ErrorKind; 12] =
        [UnexpectedEof, Interrupted, WouldBlock, ConnectionReset, BrokenPipe, TimedOut, InvalidData, InvalidInput, Other, WriteZero, NotFound, PermissionDenied];
    KINDS[id as usize % KINDS.len()]
}

impl AsyncRead for Script {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        match self.step(cx) {
            Poll::Ready(Ok(n)) => {
                let n = n.min(buf.len());
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                self.at += 1;
                self.exposed = 0;
                Poll::Ready(Ok(n))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

impl AsyncBufRead for Script {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        if this.exposed > 0 {
            return Poll::Ready(Ok(&this.data[this.pos..this.pos + this.exposed]));
        }
        match this.step(cx) {
            Poll::Ready(Ok(n)) => {
                this.at += 1;
                this.exposed = n;
                Poll::Ready(Ok(&this.data[this.pos..this.pos + n]))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn consume(mut self: Pin<&mut Self>, amt: usize) {
        if amt > self.exposed {
            let e = self.exposed;
            self.probe.lock().unwrap().misuse.push(format!("consume({}) after {} bytes were shown", amt, e));
        }
        let amt = amt.min(self.exposed);
        self.pos += amt;
        self.exposed -= amt;
    }
}

#[derive(Default)]
pub struct Flag(AtomicBool, AtomicU64);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
        self.1.fetch_add(1, Ordering::SeqCst);
    }
}
impl Flag {
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
    pub fn wakes(&self) -> u64 {
        self.1.load(Ordering::SeqCst)
    }
}

pub struct Part {
    pub want: Vec<u8>,
    pub probe: Arc<Mutex<Probe>>,
    pub desc: String,
    pub scripted: bool,
}

fn gen_evs(r: &mut Rng, n: usize, errors: bool, ids: &mut u32, driver_pending: bool) -> Vec<Ev> {
    (0..n)
        .map(|_| match r.below(8) {
            0 | 1 => {
                if driver_pending && r.bool() {
                    Ev::Pending
                } else {
                    Ev::PendingSelf
                }
            }
            2 if errors => {
                *ids += 1;
                // the kind follows from the low digits
                Ev::Err(*ids * 1200 + r.below(1200) as u32)
            }
            3 => Ev::Chunk(1),
            4 => Ev::Chunk(usize::MAX),
            _ => Ev::Chunk(1 + r.below(9)),
        })
        .collect()
}

/// a leaf body and what it must deliver
pub fn leaf(r: &mut Rng, errors: bool, driver_pending: bool, ids: &mut u32) -> (Body, Part) {
    let max = if r.one_in(40) { 9000 } else { 40 };
    let data = gen::bytes(r, max);
    let probe = Arc::new(Mutex::new(Probe::default()));
    match r.below(8) {
        0 => (Body::empty(), Part { want: vec![], probe, desc: "empty".into(), scripted: false }),
        1 => (Body::from_bytes(data.clone()), Part { desc: format!("bytes[{}]", data.len()), want: data, probe, scripted: false }),
        2 => {
            let s = gen::unicode(r, 20);
            (Body::from(s.clone()), Part { desc: format!("string[{}]", s.len()), want: s.into_bytes(), probe, scripted: false })
        }
        _ => {
            let len = match r.below(6) {
                0 | 1 => None,
                2 => Some(data.len() as u64),
                3 => Some(r.below(data.len() + 1) as u64),
                4 => Some(data.len() as u64 + r.below(9) as u64),
                _ => Some(match r.below(8) {
                    0 => u64::MAX - r.below(2) as u64,
                    // lengths whose low bits are few
                    1 => (1 + r.below(5) as u64) << (16 * (2 + r.below(2))) | r.below(data.len() + 2) as u64,
                    2 => u64::MAX << r.below(64),
                    _ => 0,
                }),
            };
            let n = r.below(12);
            let evs = gen_evs(r, n, errors, ids, driver_pending);
            let cut = len.map_or(data.len(), |l| l.min(data.len() as u64) as usize);
            let desc = format!("reader[{} bytes, len {:?}, {:?}]", data.len(), len, evs);
            let b = Body::from_reader(Script::new(data.clone(), evs, probe.clone()), len);
            (b, Part { want: data[..cut].to_vec(), probe, desc, scripted: true })
        }
    }
}

enum Holder {
    B(Body),
    Q(Request),
    S(Response),
}

impl Holder {
    fn read(&mut self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self {
            Holder::B(b) => Pin::new(b).poll_read(cx, buf),
            Holder::Q(b) => Pin::new(b).poll_read(cx, buf),
            Holder::S(b) => Pin::new(b).poll_read(cx, buf),
        }
    }
    /// the same, into several buffers one behind the other
    fn read_vectored(&mut self, cx: &mut Context<'_>, bufs: &mut [io::IoSliceMut<'_>]) -> Poll<io::Result<usize>> {
        match self {
            Holder::B(b) => Pin::new(b).poll_read_vectored(cx, bufs),
            Holder::Q(b) => Pin::new(b).poll_read_vectored(cx, bufs),
            Holder::S(b) => Pin::new(b).poll_read_vectored(cx, bufs),
        }
    }
    fn fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        match self {
            Holder::B(b) => Pin::new(b).poll_fill_buf(cx),
            Holder::Q(b) => Pin::new(b).poll_fill_buf(cx),
            Holder::S(b) => Pin::new(b).poll_fill_buf(cx),
        }
    }
    fn consume(&mut self, n: usize) {
        match self {
            Holder::B(b) => Pin::new(b).consume(n),
            Holder::Q(b) => Pin::new(b).consume(n),
            Holder::S(b) => Pin::new(b).consume(n),
        }
    }
}

/// things done to a message that say nothing about its body's bytes
macro_rules! unrelated {
    ($r:expr, $m:expr, $once:expr) => {
        while $r.one_in(3) {
            match $r.below(10) {
                // each end can be taken once
                n @ 0..=1 if !$once[n] => {
                    $once[n] = true;
                    if n == 0 {
                        drop($m.send_trailers());
                    } else {
                        drop($m.recv_trailers());
                    }
                }
                0 | 1 => {}
                2 => $m.set_version(Some(*$r.pick(&[Version::Http0_9, Version::Http1_0, Version::Http1_1, Version::Http2_0, Version::Http3_0]))),
                3 => $m.set_peer_addr(Some("127.0.0.1:8000")),
                4 => $m.set_local_addr(Some("127.0.0.1:8001")),
                5 => {
                    $m.ext_mut().insert($r.u64());
                }
                6 => {
                    let _ = $m.insert_header(*$r.pick(&["content-length", "x-a", "transfer-encoding", "content-encoding"]), *$r.pick(&["0", "1", "chunked", "gzip"]));
                }
                7 => {
                    let _ = $m.remove_header(*$r.pick(&["content-type", "content-length", "x-a"]));
                }
                _ => {
                    let _ = $m.set_content_type(mime::PLAIN);
                }
            }
        }
    };
}

fn hold(r: &mut Rng, b: Body) -> (Holder, &'static str) {
    let mut once = [false; 2];
    match r.below(4) {
        0 | 1 => (Holder::B(b), "body"),
        2 => {
            let mut q = Request::new(Method::Post, Url::parse("http://example.com").unwrap());
            unrelated!(r, q, once);
            if r.one_in(4) {
                q.set_method(*r.pick(&[Method::Get, Method::Head, Method::Options, Method::Put]));
            }
            q.set_body(b);
            unrelated!(r, q, once);
            if r.bool() {
                (Holder::B(q.into()), "body of request")
            } else {
                (Holder::Q(q), "request")
            }
        }
        _ => {
            let mut s = Response::new(*r.pick(&[StatusCode::Ok, StatusCode::NoContent, StatusCode::NotModified, StatusCode::Continue, StatusCode::PartialContent]));
            unrelated!(r, s, once);
            s.set_body(b);
            unrelated!(r, s, once);
            if r.one_in(8) {
                drop(s.send_upgrade());
            }
            if r.bool() {
                (Holder::B(s.take_body()), "taken from response")
            } else {
                (Holder::S(s), "response")
            }
        }
    }
}

/// how the consumer reads
#[derive(Clone, Copy, PartialEq, Debug)]
enum Style {
    Read,
    Buf,
    Mixed,
}

fn consume_monitored(c: &mut Case, style: Style, errors: bool) {
    let mut r = c.rng.clone();
    let mut ids = 0;
    // build a chain of 1..=4 leaves, possibly nested, possibly cut by an outer declared length
    let n = 1 + r.below(4);
    let mut parts = vec![];
    let mut bodies = vec![];
    for _ in 0..n {
        let (b, p) = leaf(&mut r, errors, true, &mut ids);
        parts.push(p);
        bodies.push(b);
    }
    let nested_right = r.bool();
    let body = if nested_right {
        let mut it = bodies.into_iter().rev();
        let mut acc = it.next().unwrap();
        for b in it {
            acc = b.chain(acc);
        }
        acc
    } else {
        let mut it = bodies.into_iter();
        let mut acc = it.next().unwrap();
        for b in it {
            acc = acc.chain(b);
        }
        acc
    };
    let mut want: Vec<u8> = parts.iter().flat_map(|p| p.want.clone()).collect();
    let mut wrap = String::new();
    let body = if r.one_in(4) {
        let l = if r.bool() { r.below(want.len() + 2) as u64 } else { want.len() as u64 + r.below(5) as u64 };
        want.truncate(l.min(want.len() as u64) as usize);
        wrap = format!(" rewrapped with length {}", l);
        Body::from_reader(body, Some(l))
    } else {
        body
    };
    let (mut h, via) = hold(&mut r, body);
    c.step(|| format!("{:?} via {}{}; nested_right={}", parts.iter().map(|p| &p.desc).collect::<Vec<_>>(), via, wrap, nested_right));
    let flag = Arc::new(Flag::default());
    let waker: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut got: Vec<u8> = vec![];
    let mut eofs = 0;
    let mut errs: Vec<u32> = vec![];
    let mut ops = vec![];
    let mut steps = 0u64;
    let sizes = [1usize, 2, 3, 5, 8, 16, 64, 1024, 10_000];
    let bias = r.below(sizes.len());
    // size of the buffer shown by an unfinished fill_buf (the same bytes must be shown again)
    let mut shown: usize = 0;
    while eofs < 3 {
        steps += 1;
        if steps > 60_000 {
            c.fail("does-not-end", format!("still not finished after {} polls, {} of {} bytes", steps, got.len(), want.len()));
            break;
        }
        let use_buf = match style {
            Style::Read => false,
            Style::Buf => true,
            Style::Mixed => r.bool(),
        };
        let before = parts.iter().map(|p| p.probe.lock().unwrap().pendings).sum::<u64>();
        let errs_before = parts.iter().map(|p| p.probe.lock().unwrap().errors.len()).sum::<usize>();
        flag.take();
        let mut pending = false;
        if !use_buf {
            let n = if r.one_in(12) { 0 } else if r.bool() { sizes[bias] } else { *r.pick(&sizes) };
            let mut buf = vec![0xEE; n];
            let cuts = if r.one_in(5) { Some((r.below(n + 1), r.below(n + 1))) } else { None };
            let res = quiet(|| match cuts {
                None => h.read(&mut cx, &mut buf),
                Some((x, y)) => {
                    let (x, y) = (x.min(y), x.max(y));
                    let (a, rest) = buf.split_at_mut(x);
                    let (b, d) = rest.split_at_mut(y - x);
                    h.read_vectored(&mut cx, &mut [io::IoSliceMut::new(a), io::IoSliceMut::new(b), io::IoSliceMut::new(d)])
                }
            });
            if cuts.is_some() {
                c.count("vectored_reads");
            }
            let res = match res {
                Ok(x) => x,
                Err(m) => {
                    c.fail("read-panicked", m);
                    break;
                }
            };
            c.step(|| format!("read({}) = {:?}", n, res));
            shown = 0;
            match res {
                Poll::Ready(Ok(k)) => {
                    c.count("reads");
                    if k > n {
                        c.fail("read-overlong", format!("{} bytes into a buffer of {}", k, n));
                        break;
                    }
                    if k == 0 && n > 0 {
                        eofs += 1;
                        if got.len() != want.len() {
                            c.fail("early-end", format!("end of stream after {} of {} bytes", got.len(), want.len()));
                            break;
                        }
                    } else if n > 0 && eofs > 0 {
                        c.fail("data-after-end", format!("{} bytes after end of stream", k));
                        break;
                    }
                    if !want[got.len()..].starts_with(&buf[..k]) {
                        c.fail("wrong-bytes", format!("after {} bytes got {:?}, expected {:?}…", got.len(), &buf[..k], &want[got.len()..(got.len() + k + 4).min(want.len())]));
                        break;
                    }
                    if buf[k..].iter().any(|b| *b != 0xEE) {
                        c.fail("wrote-beyond-count", format!("returned {} but the rest of the buffer was overwritten", k));
                        break;
                    }
                    got.extend_from_slice(&buf[..k]);
                    ops.push((0u8, n.min(64), k.min(64)));
                }
                Poll::Ready(Err(e)) => errs.push(note_err(c, &e)),
                Poll::Pending => pending = true,
            }
        } else {
            let res = quiet(|| match h.fill(&mut cx) {
                Poll::Ready(Ok(b)) => Poll::Ready(Ok(b.to_vec())),
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            });
            let res = match res {
                Ok(x) => x,
                Err(m) => {
                    c.fail("fill_buf-panicked", m);
                    break;
                }
            };
            c.step(|| match &res {
                Poll::Ready(Ok(b)) => format!("fill_buf = {} bytes", b.len()),
                o => format!("fill_buf = {:?}", o),
            });
            match res {
                Poll::Ready(Ok(b)) => {
                    c.count("fill_bufs");
                    if !want[got.len()..].starts_with(&b) {
                        c.fail("wrong-bytes-buffered", format!("after {} of {} bytes fill_buf shows {} bytes {:?}…", got.len(), want.len(), b.len(), &b[..b.len().min(16)]));
                        break;
                    }
                    if b.is_empty() {
                        eofs += 1;
                        if got.len() != want.len() {
                            c.fail("early-end-buffered", format!("end of stream after {} of {} bytes", got.len(), want.len()));
                            break;
                        }
                    } else if eofs > 0 {
                        c.fail("data-after-end", format!("{} bytes after end of stream", b.len()));
                        break;
                    }
                    if b.len() < shown {
                        c.fail("buffer-shrank", format!("{} bytes were shown and not consumed, now {}", shown, b.len()));
                        break;
                    }
                    let k = match r.below(4) {
                        0 => b.len(),
                        1 => 0,
                        _ => r.below(b.len() + 1),
                    };
                    c.step(|| format!("consume({})", k));
                    if let Err(m) = quiet(|| h.consume(k)) {
                        c.fail("consume-panicked", m);
                        break;
                    }
                    got.extend_from_slice(&b[..k]);
                    shown = b.len() - k;
                    ops.push((1, b.len().min(64), k.min(64)));
                }
                Poll::Ready(Err(e)) => errs.push(note_err(c, &e)),
                Poll::Pending => pending = true,
            }
        }
        let after = parts.iter().map(|p| p.probe.lock().unwrap().pendings).sum::<u64>();
        let errs_after = parts.iter().map(|p| p.probe.lock().unwrap().errors.len()).sum::<usize>();
        if pending {
            c.count("pendings");
            ops.push((2, 0, 0));
            if after == before {
                c.fail("pending-without-cause", "Pending although the source was ready or not asked".to_string());
                break;
            }
            for p in &parts {
                if let Some(w) = p.probe.lock().unwrap().stored.take() {
                    w.wake();
                }
            }
            if !flag.take() {
                c.fail("lost-wakeup", "the source woke its waker but the consumer's waker was not notified".to_string());
                break;
            }
        } else if after != before {
            c.fail("swallowed-pending", "a source was not ready, yet the poll completed".to_string());
            break;
        }
        if errs_after != errs_before && errs.len() != errs_after {
            c.fail("error-swallowed", format!("injected {} errors, consumer saw {}", errs_after, errs.len()));
            break;
        }
    }
    if !c.failed() {
        let mut injected = vec![];
        for p in &parts {
            let p = p.probe.lock().unwrap();
            injected.extend(p.errors.clone());
            if !p.misuse.is_empty() {
                let m = format!("{:?}", p.misuse);
                drop(p);
                c.fail("source-misused", m);
                break;
            }
        }
        c.check("errors-once-in-order", errs == injected, || format!("saw {:?}, injected {:?}", errs, injected));
        c.check("all-bytes", got == want, || format!("{} of {} bytes", got.len(), want.len()));
        c.count_n("bytes", got.len() as u64);
        c.count_n("errors-delivered", errs.len() as u64);
    }
    c.note((style as u8, &ops, n, via));
    c.sample(|| format!("{:?} {:?} via {}{}: {} bytes, ops {:?}", style, parts.iter().map(|p| &p.desc).collect::<Vec<_>>(), via, wrap, want.len(), ops));
}

fn note_err(c: &mut Case, e: &io::Error) -> u32 {
    let s = e.to_string();
    c.check("error-kind-unchanged", s.strip_prefix("injected-").and_then(|s| s.parse().ok()).map_or(true, |id| e.kind() == kind_of(id)), || format!("{:?}", e));
    match s.strip_prefix("injected-").and_then(|s| s.parse().ok()) {
        Some(id) => id,
        None => {
            c.fail("error-altered", s);
            0
        }
    }
}

fn read_only(c: &mut Case) {
    consume_monitored(c, Style::Read, false)
}
fn read_errors(c: &mut Case) {
    consume_monitored(c, Style::Read, true)
}
fn buffered(c: &mut Case) {
    consume_monitored(c, Style::Buf, false)
}
fn mixed(c: &mut Case) {
    consume_monitored(c, Style::Mixed, false)
}
fn mixed_errors(c: &mut Case) {
    consume_monitored(c, Style::Mixed, true)
}

/// the ready-made consumers: read_to_end, into_bytes, lines, read_exact, copy, body_bytes ...
fn composite(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ids = 0;
    let n = 1 + r.below(3);
    let mut want = vec![];
    let mut body: Option<Body> = None;
    let mut descs = vec![];
    for _ in 0..n {
        let (b, p) = leaf(&mut r, false, false, &mut ids);
        want.extend(p.want);
        descs.push(p.desc);
        body = Some(match body {
            None => b,
            Some(a) => a.chain(b),
        });
    }
    let mut body = body.unwrap();
    let mode = r.below(10);
    c.step(|| format!("{:?} mode {}", descs, mode));
    let pre = r.below(want.len() + 1);
    let got: Result<Vec<u8>, String> = futures_lite::future::block_on(async {
        let e = |x: &dyn std::fmt::Display| x.to_string();
        Ok(match mode {
            0 => body.into_bytes().await.map_err(|x| e(&x))?,
            1 => {
                let mut q = Request::new(Method::Post, Url::parse("http://example.com").unwrap());
                q.set_body(body);
                q.body_bytes().await.map_err(|x| e(&x))?
            }
            2 => {
                let mut q = Response::new(StatusCode::Ok);
                q.set_body(body);
                q.body_bytes().await.map_err(|x| e(&x))?
            }
            3 => {
                let mut v = vec![];
                body.read_to_end(&mut v).await.map_err(|x| e(&x))?;
                v
            }
            4 => {
                let mut v = vec![];
                loop {
                    let k = body.read_until(0x0a, &mut v).await.map_err(|x| e(&x))?;
                    if k == 0 {
                        break v;
                    }
                }
            }
            5 => {
                let mut v = vec![0; pre];
                body.read_exact(&mut v).await.map_err(|x| e(&x))?;
                let mut rest = body.into_bytes().await.map_err(|x| e(&x))?;
                v.append(&mut rest);
                v
            }
            6 => {
                let mut v = vec![];
                futures_lite::io::copy(&mut body, &mut v).await.map_err(|x| e(&x))?;
                v
            }
            7 => {
                // partial buffered read, then the rest unbuffered
                let first = body.fill_buf().await.map_err(|x| e(&x))?.to_vec();
                let k = first.len().min(pre);
                Pin::new(&mut body).consume(k);
                let mut v = first[..k].to_vec();
                body.read_to_end(&mut v).await.map_err(|x| e(&x))?;
                v
            }
            8 => {
                // read a prefix from each end of a chain: prefix read, then chained with another body
                let mut v = vec![0; pre];
                body.read_exact(&mut v).await.map_err(|x| e(&x))?;
                let tail = Body::from_bytes(b"TAIL".to_vec());
                let rest = body.chain(tail).into_bytes().await.map_err(|x| e(&x))?;
                v.extend(rest);
                if !v.ends_with(b"TAIL") {
                    return Err(format!("chained tail missing: {:?}", v));
                }
                v.truncate(v.len() - 4);
                v
            }
            _ => {
                let mut v = vec![];
                let mut head = vec![];
                // buffered prefix, then chain in front of another body
                while head.len() < pre {
                    let b = body.fill_buf().await.map_err(|x| e(&x))?.to_vec();
                    if b.is_empty() {
                        break;
                    }
                    let k = b.len().min(pre - head.len());
                    head.extend_from_slice(&b[..k]);
                    Pin::new(&mut body).consume(k);
                }
                v.append(&mut head);
                let rest = body.chain(Body::from_bytes(b"TAIL".to_vec())).into_bytes().await.map_err(|x| e(&x))?;
                v.extend(rest);
                if !v.ends_with(b"TAIL") {
                    return Err(format!("chained tail missing: {:?}", v));
                }
                v.truncate(v.len() - 4);
                v
            }
        })
    });
    c.check(&format!("composite-{}", mode), got.as_ref() == Ok(&want), || {
        format!("expected {} bytes {:?}…, got {:?}", want.len(), &want[..want.len().min(24)], got.as_ref().map(|v| (v.len(), v[..v.len().min(24)].to_vec())))
    });
    c.note((mode, want.len(), &descs));
    c.sample(|| format!("mode {} {:?}", mode, descs));
}

/// the decoders over a source that fails once: the failure reaches the caller
fn composite_errors(c: &mut Case) {
    let mut r = c.rng.clone();
    let data = match r.below(4) {
        0 => gen::unicode(&mut r, 30).into_bytes(),
        1 => serde_json::to_vec(&(1u8, gen::unicode(&mut r, 9), r.u64())).unwrap(),
        2 => b"a=1&b=22&c=%20&d=%2B"[..].to_vec(),
        _ => gen::bytes(&mut r, 40),
    };
    let id = loop {
        let id = 1 + r.below(100_000) as u32;
        // readers may retry after Interrupted
        if kind_of(id) != io::ErrorKind::Interrupted {
            break id;
        }
    };
    // the error may come before, between or after the bytes
    let n = r.below(5);
    let mut evs = gen_evs(&mut r, n, false, &mut 0, false);
    if r.bool() {
        evs.push(Ev::Chunk(usize::MAX));
    }
    evs.push(Ev::Err(id));
    let probe = Arc::new(Mutex::new(Probe::default()));
    let len = match r.below(3) {
        0 => None,
        1 => Some(data.len() as u64 + r.below(3) as u64),
        _ => Some(u64::MAX >> r.below(40)),
    };
    let mut body = Body::from_reader(Script::new(data.clone(), evs.clone(), probe.clone()), len);
    if r.one_in(4) {
        body = body.chain(Body::from("tail"));
    } else if r.one_in(4) {
        body = Body::from(vec![]).chain(body);
    }
    let mode = r.below(4);
    let who = r.below(3);
    c.step(|| format!("{} bytes, len {:?}, {:?}, mode {} who {}", data.len(), len, evs, mode, who));
    macro_rules! go {
        ($into:ident, $body:ident, $t:ty) => {
            match who {
                0 => futures_lite::future::block_on(body.$into()).map(|_: $t| ()),
                1 => {
                    let mut q = Request::new(Method::Post, Url::parse("http://example.com").unwrap());
                    q.set_body(body);
                    futures_lite::future::block_on(q.$body()).map(|_: $t| ())
                }
                _ => {
                    let mut q = Response::new(StatusCode::Ok);
                    q.set_body(body);
                    futures_lite::future::block_on(q.$body()).map(|_: $t| ())
                }
            }
        };
    }
    let got = quiet(move || match mode {
        0 => go!(into_bytes, body_bytes, Vec<u8>),
        1 => go!(into_string, body_string, String),
        2 => go!(into_json, body_json, serde_json::Value),
        _ => go!(into_form, body_form, Vec<(String, String)>),
    });
    let injected = probe.lock().unwrap().errors.clone();
    c.note((mode, who, &data, injected.len()));
    match got {
        Err(p) => c.fail("decoder-panicked", p),
        // a decoder that stops at the declared length may never meet the error
        Ok(Ok(())) => {
            c.check("error-swallowed-by-decoder", injected.is_empty(), || format!("the source failed with {:?}, decoder {} succeeded", injected, mode));
        }
        Ok(Err(e)) if !injected.is_empty() => {
            c.count("errors-through-decoders");
            let io = e.downcast_ref::<io::Error>().map(|e| (e.kind(), e.to_string()));
            c.check("decoder-error-unchanged", io == Some((kind_of(id), format!("injected-{}", id))), || format!("injected {:?} {:?}, decoder {} says {:?} ({:?})", kind_of(id), id, mode, e, io));
        }
        Ok(Err(_)) => {}
    }
}

/// what is taken from a body is gone from its source, and nothing else is
fn remainder(c: &mut Case) {
    let mut r = c.rng.clone();
    let data = gen::bytes(&mut r, 60);
    let len = match r.below(3) {
        0 => None,
        1 => Some(r.below(data.len() + 1) as u64),
        _ => Some(data.len() as u64 + r.below(3) as u64),
    };
    let cut = len.map_or(data.len(), |l| l.min(data.len() as u64) as usize);
    let n = r.below(8);
    let evs = gen_evs(&mut r, n, false, &mut 0, false);
    c.step(|| format!("{} bytes, len {:?}, {:?}", data.len(), len, evs));
    let probe = Arc::new(Mutex::new(Probe::default()));
    let mut body = Body::from_reader(Script::new(data.clone(), evs, probe), len);
    let take = if r.one_in(3) { cut } else { r.below(cut + 1) };
    let mut got = vec![];
    let rest = futures_lite::future::block_on(async {
        while got.len() < take {
            let left = take - got.len();
            if r.bool() {
                let mut b = vec![0; 1 + r.below(left)];
                let k = body.read(&mut b).await?;
                got.extend_from_slice(&b[..k]);
                if k == 0 {
                    break;
                }
            } else {
                let b = body.fill_buf().await?;
                let k = r.below(b.len().min(left) + 1);
                got.extend_from_slice(&b[..k]);
                if b.is_empty() {
                    break;
                }
                Pin::new(&mut body).consume(k);
            }
        }
        let mut rest = vec![];
        body.into_reader().read_to_end(&mut rest).await?;
        io::Result::Ok(rest)
    });
    c.note((cut, take, len, &data));
    c.eq("taken", &got[..], &data[..take], &(len, take));
    c.eq("left-in-source", rest.map_err(|e| e.to_string()), Ok(data[take..].to_vec()), &(len, take));
}

/// a source larger than any buffer: byte number i is i modulo 251, shown in big pieces
struct Endless {
    pat: Vec<u8>,
    at: u64,
    total: u64,
}
const PIECE: usize = 251 * 32_768;
impl Endless {
    fn show(&self) -> &[u8] {
        let o = (self.at % 251) as usize;
        let n = ((self.total - self.at).min((PIECE - o) as u64)) as usize;
        &self.pat[o..o + n]
    }
}
impl AsyncRead for Endless {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let n = self.show().len().min(buf.len());
        buf[..n].copy_from_slice(&self.show()[..n]);
        self.at += n as u64;
        Poll::Ready(Ok(n))
    }
}
impl AsyncBufRead for Endless {
    fn poll_fill_buf(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        Poll::Ready(Ok(self.get_mut().show()))
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.at += n as u64;
    }
}

/// more bytes than fit in 32 bits: offsets, totals and cuts stay exact
fn huge(c: &mut Case) {
    let mut r = c.rng.clone();
    let g = 1u64 << 32;
    let total = *r.pick(&[g - 1, g, g + 1, g + 70_000, 2 * g + 5]);
    let len = match r.below(4) {
        0 => None,
        1 => Some(total),
        2 => Some(total + 1 + r.below(100) as u64),
        _ => Some(*r.pick(&[g - 1, g, g + 1, g + 12_345])),
    };
    let want = len.map_or(total, |l| l.min(total));
    let pat: Vec<u8> = (0..PIECE).map(|i| (i % 251) as u8).collect();
    let mut body = Body::from_reader(Endless { pat: pat.clone(), at: 0, total }, len);
    let tail = r.bool();
    if tail {
        body = body.chain(Body::from("tail"));
    }
    let buffered = r.below(4) > 0;
    c.step(|| format!("source of {}, length {:?}, then tail: {}, buffered {}", total, len, tail, buffered));
    let mut seen = 0u64;
    let mut end = vec![];
    let mut buf = vec![0; PIECE];
    let r2 = &mut r;
    let res: Result<(), String> = futures_lite::future::block_on(async {
        loop {
            let k;
            let b: &[u8] = if buffered {
                let b = body.fill_buf().await.map_err(|e| e.to_string())?;
                k = if r2.one_in(8) { b.len().min(1 + r2.below(5000)) } else { b.len() };
                b
            } else {
                k = body.read(&mut buf).await.map_err(|e| e.to_string())?;
                &buf[..k]
            };
            let b = &b[..k];
            if k == 0 {
                return Ok(());
            }
            let of_source = (want - seen).min(k as u64) as usize;
            let o = (seen % 251) as usize;
            // compare in two goes so that the pattern needs no more than one piece
            let first = of_source.min(PIECE - o);
            if b[..first] != pat[o..o + first] || b[first..of_source] != pat[(o + first) % 251..(o + first) % 251 + of_source - first] {
                return Err(format!("wrong bytes after {}", seen));
            }
            seen += of_source as u64;
            end.extend_from_slice(&b[of_source..]);
            if end.len() > 100 {
                return Err(format!("{} bytes and more still after the {} expected", end.len(), want));
            }
            if buffered {
                Pin::new(&mut body).consume(k);
            }
        }
    });
    c.check("huge-bytes", res.is_ok(), || format!("{:?}", res));
    c.eq("huge-count", seen, want, &(total, len));
    c.eq("huge-tail", String::from_utf8_lossy(&end).into_owned(), if tail { "tail".to_string() } else { String::new() }, &(total, len));
    c.count_n("gigabytes", seen >> 30);
    c.note((total, len, tail, buffered));
}

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "chains of 1-4 bodies over scripted sources (short reads, Pending with deferred or immediate wake, injected errors), optional declared lengths, \
               consumed by random poll_read / fill_buf+consume sequences directly or through a message; every poll result is checked against the expected byte stream; \
               decoders over failing sources, what is left in the source after a partial read, and sources of more than 2^32 bytes are judged the same way; \
               distinct = sequence of (operation, sizes) actually observed",
        assumptions: &["sources keep the AsyncRead/AsyncBufRead contract and stay at end of stream once there"],
        subs: vec![
            rand("read", 60_000, 1_500_000, read_only),
            rand("read-errors", 60_000, 1_500_000, read_errors),
            rand("buffered", 60_000, 1_500_000, buffered),
            rand("mixed", 80_000, 2_000_000, mixed),
            rand("mixed-errors", 80_000, 2_000_000, mixed_errors),
            rand("composite", 80_000, 2_000_000, composite),
            rand("composite-errors", 60_000, 1_500_000, composite_errors),
            rand("remainder", 60_000, 1_500_000, remainder),
            native(rand("huge", 6, 200, huge)),
            native(rand("files", 1_600, 30_000, super::c06_bodymeta::files)),
        ],
    }
}
