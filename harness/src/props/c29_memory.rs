//! C29: memory follows the data that is really there and is given back. The harness runs on a counting allocator;
//! the monitors bound the peak by the bytes supplied and require that nothing is held once all values are dropped.
use super::typed::{registry, PR, TH};
use super::typed_props::{parsers, put};
use crate::gen;
use crate::infra::*;
use crate::mem::{measure, Use};
use futures_lite::future::block_on;
use futures_lite::io::{AsyncBufRead, AsyncRead, AsyncWrite};
use futures_lite::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt};
use http_types::trailers::Trailers;
use http_types::upgrade::Connection;
use http_types::{Body, Method, Request, Response, StatusCode, Url};
use std::convert::TryFrom;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

const KB: i64 = 1024;

/// monitors that hand memory between threads: what one thread holds says nothing there
const THREADED: &[&str] = &["threads", "shared", "erased"];

fn pool() -> &'static [(&'static str, Sub)] {
    use std::sync::OnceLock;
    static P: OnceLock<Vec<(&'static str, Sub)>> = OnceLock::new();
    P.get_or_init(|| {
        super::all()
            .into_iter()
            .filter(|p| p.id != "C29")
            .flat_map(|p| p.subs.into_iter().map(move |s| (p.id, s)))
            .filter(|(_, s)| !s.native && !s.serial && !THREADED.contains(&s.name))
            .collect()
    })
}

/// cases of every other monitor: afterwards nothing is held
fn returned(c: &mut Case) {
    let pool = pool();
    let (id, sub) = &pool[c.idx as usize % pool.len()];
    let idx = match sub.kind {
        Kind::Rand(q, _) => c.rng.u64() % q.max(1),
        Kind::All(n) => c.rng.u64() % n,
    };
    let seed = c.rng.u64();
    let mut evals = 0;
    let mut once = || {
        measure(|| {
            let mut o = Out::default();
            run_case(&mut o, sub, seed, idx);
            evals += 1;
        })
        .1
    };
    // the first two runs may fill caches of the process
    let first = once();
    let mut uses: Vec<Use> = vec![];
    if first.kept != 0 {
        once();
        for _ in 0..3 {
            uses.push(once());
        }
    }
    c.count(&format!("property:{}", id));
    c.count_n("bytes", first.total);
    c.note((sub.name, seed));
    c.sample(|| format!("{} {} case {}: {:?}", id, sub.name, idx, first));
    if !uses.is_empty() && uses.iter().all(|u| u.kept > 0) {
        c.fail(format!("kept:{}:{}", id, sub.name), format!("case {} of {} {} (seed {}) keeps memory each time it is run: {:?}", idx, id, sub.name, seed, uses));
    }
}

fn bound(c: &mut Case, what: &str, u: Use, peak: i64, total: i64, ctx: impl FnOnce() -> String) {
    c.count(what);
    let over = if u.peak > peak {
        "peak"
    } else if u.total > total as u64 {
        "total"
    } else {
        return;
    };
    let ctx = ctx();
    c.fail(format!("{}:{}", over, what), format!("{:?}, bounds: peak {}, total {}; {}", u, peak, total, ctx));
}

fn cut(s: &str) -> String {
    format!("{:?}... ({} bytes)", s.chars().take(200).collect::<String>(), s.len())
}

/// numbers in the text do not drive allocations
fn declared(c: &mut Case) {
    let reg = reg();
    let t = &reg[c.idx as usize % reg.len()];
    let mut lines = vec![];
    for _ in 0..1 + c.rng.len(2) {
        let s = if c.rng.one_in(4) { (t.bad)(&mut c.rng) } else { (t.el)(&mut c.rng).text };
        // every number becomes a remarkable one
        let mut out = String::new();
        let mut inside = false;
        for ch in s.chars() {
            if !ch.is_ascii_digit() {
                inside = false;
                out.push(ch);
            } else if !inside {
                inside = true;
                out.push_str(*c.rng.pick(&["9999999", "999999999", "4294967295", "68719476736", "9007199254740993", "18446744073709551615", "0", "65536"]));
            }
        }
        lines.push(out);
    }
    let n: usize = lines.iter().map(|l| l.len()).sum();
    let h = match put(&lines, t.header) {
        Some(h) => h,
        None => return,
    };
    c.note((t.id, &lines));
    let (_, u) = measure(|| {
        let _ = quiet(|| (t.parse)(&h));
    });
    bound(c, &format!("declared:{}", t.id), u, 64 * KB + 400 * n as i64, 1024 * KB + 4000 * n as i64, || format!("{:?}", lines));
    if let Some(s) = lines.first() {
        let (_, u) = measure(|| {
            let mut o = Out::default();
            let mut inner = String::new();
            inner.push_str(s);
            run_parsers(&mut o, &inner);
        });
        bound(c, "declared:parsers", u, 128 * KB + 400 * n as i64, 1024 * KB + 8000 * n as i64, || format!("{:?}", lines));
    }
}

thread_local!(static TEXT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });
fn feed_parsers(c: &mut Case) {
    let s = TEXT.with(|t| t.borrow().clone());
    parsers(c, &s);
}
fn run_parsers(o: &mut Out, s: &str) {
    TEXT.with(|t| *t.borrow_mut() = s.to_string());
    run_case(o, &rand("parsers", 1, 1, feed_parsers), 1, 1);
    TEXT.with(|t| *t.borrow_mut() = String::new());
}

/// values of many elements: what is held stays proportional to the text
fn large(c: &mut Case) {
    let reg = reg();
    let t = &reg[c.idx as usize % reg.len()];
    let units: Vec<String> = (0..1 + c.rng.below(4)).map(|_| if c.rng.one_in(5) { gen::soup(&mut c.rng, 3) } else { (t.el)(&mut c.rng).text }).collect();
    let size = *c.rng.pick(&[2_000usize, 10_000, 40_000]);
    let sep = *c.rng.pick(&[",", ", ", ";", ",\t"]);
    let mut lines = vec![];
    let mut line = String::new();
    let mut n = 0;
    let many = c.rng.bool();
    let mut i = 0;
    while n < size && i < 20_000 {
        let u = &units[i % units.len()];
        i += 1;
        n += u.len() + sep.len();
        line.push_str(u);
        if many && c.rng.one_in(20) {
            lines.push(std::mem::take(&mut line));
        } else {
            line.push_str(sep);
        }
    }
    lines.push(line);
    let h = match put(&lines, t.header) {
        Some(h) => h,
        None => return,
    };
    c.note((t.id, &lines));
    let mut accepted = false;
    let (_, u) = measure(|| {
        accepted = matches!(quiet(|| (t.parse)(&h)), Ok(PR::Val(_)));
    });
    if accepted {
        c.count(&format!("accepted:{}", t.id));
    }
    bound(c, &format!("large:{}", t.id), u, 256 * KB + 200 * n as i64, 1024 * KB + 2000 * n as i64, || format!("{} lines of {} bytes, units {:?}, separator {:?}, {:?}", lines.len(), n, units, sep, cut(&lines[0])));
    held(c, t.id, u, || format!("units {:?}", units), || {
        let _ = quiet(|| (t.parse)(&h));
    });
}

/// memory that is still held after each of several runs
fn held(c: &mut Case, what: &str, first: Use, ctx: impl FnOnce() -> String, mut f: impl FnMut()) {
    if first.kept <= 0 {
        return;
    }
    measure(&mut f);
    let uses: Vec<Use> = (0..3).map(|_| measure(&mut f).1).collect();
    if uses.iter().all(|u| u.kept > 0) {
        let ctx = ctx();
        c.fail(format!("kept:{}", what), format!("each run keeps memory: {:?}; {}", uses, ctx));
    }
}

/// one element in which something is very long
fn stretched(c: &mut Case) {
    let reg = reg();
    let t = &reg[c.idx as usize % reg.len()];
    let mut s = if c.rng.one_in(6) { (t.bad)(&mut c.rng) } else { (t.el)(&mut c.rng).text };
    for _ in 0..1 + c.rng.below(2) {
        // inside of a word, mostly
        let b = s.as_bytes();
        let places: Vec<usize> = (0..=b.len()).filter(|i| s.is_char_boundary(*i) && *i > 0 && b[i - 1].is_ascii_alphanumeric()).collect();
        let at = if places.is_empty() || c.rng.one_in(6) { s.len() } else { *c.rng.pick(&places) };
        let what = *c.rng.pick(&["a", "a", "b", "-", "0", "1", " ", "x.", "\\\"", "\t"]);
        s.insert_str(at, &what.repeat((8 << c.rng.below(10)) / what.len() + 1));
    }
    let lines = [s];
    let n = lines[0].len();
    let h = match put(&lines, t.header) {
        Some(h) => h,
        None => return,
    };
    c.note((t.id, &lines));
    let mut accepted = false;
    let (_, u) = measure(|| {
        accepted = matches!(quiet(|| (t.parse)(&h)), Ok(PR::Val(_)));
    });
    c.count(&format!("{}:{}", if accepted { "accepted" } else { "refused" }, t.id));
    bound(c, &format!("stretched:{}", t.id), u, 64 * KB + 200 * n as i64, 1024 * KB + 2000 * n as i64, || cut(&lines[0]));
    held(c, t.id, u, || cut(&lines[0]), || {
        let _ = quiet(|| (t.parse)(&h));
    });
}

fn registry_ref() -> &'static [TH] {
    thread_local!(static REG: &'static [TH] = Box::leak(registry().into_boxed_slice()));
    REG.with(|r| *r)
}
fn reg() -> &'static [TH] {
    registry_ref()
}

/// `total` bytes out of a fixed window, sometimes not ready, sometimes in small pieces
struct Source {
    window: &'static [u8],
    left: u64,
    rng: Rng,
    fail: bool,
    /// bytes were shown and not consumed yet: they stay there
    shown: bool,
}
const WINDOW: [u8; 8192] = [b'7'; 8192];
impl Source {
    fn new(r: &mut Rng, total: u64) -> Source {
        Source { window: &WINDOW, left: total, rng: Rng::new(r.u64()), fail: r.one_in(8), shown: false }
    }
    fn show(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        if self.shown {
            return Poll::Ready(Ok((self.left.min(self.window.len() as u64)) as usize));
        }
        if self.rng.one_in(9) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.fail && self.rng.one_in(60) {
            self.fail = false;
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        Poll::Ready(Ok((self.left.min(self.window.len() as u64)) as usize))
    }
}
impl AsyncRead for Source {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.show(cx) {
            Poll::Ready(Ok(n)) => {
                let n = n.min(buf.len());
                buf[..n].copy_from_slice(&self.window[..n]);
                self.shown = false;
                self.left -= n as u64;
                Poll::Ready(Ok(n))
            }
            x => x,
        }
    }
}
impl AsyncBufRead for Source {
    fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        let this = self.get_mut();
        match this.show(cx) {
            Poll::Ready(Ok(n)) => {
                this.shown = true;
                Poll::Ready(Ok(&this.window[..n]))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn consume(mut self: Pin<&mut Self>, n: usize) {
        self.shown &= n == 0;
        self.left -= n as u64;
    }
}

fn declared_len(r: &mut Rng, real: u64) -> Option<u64> {
    match r.below(8) {
        0 => None,
        1 | 2 => Some(real),
        3 => Some(r.u64() % (real + 1)),
        4 => Some(real + 1 + r.u64() % 1000),
        5 => Some(u64::MAX - r.u64() % 3),
        6 => Some(1 << (20 + r.below(44))),
        _ => Some(*r.pick(&[1u64 << 31, (1 << 32) + 5, i64::MAX as u64, i64::MAX as u64 + 1])),
    }
}

enum Via {
    Body(Body),
    Req(Request),
    Res(Response),
}
fn via(r: &mut Rng, b: Body) -> Via {
    match r.below(3) {
        0 => Via::Body(b),
        1 => {
            let mut q = Request::new(Method::Post, Url::parse("http://a/").unwrap());
            q.set_body(b);
            Via::Req(q)
        }
        _ => {
            let mut q = Response::new(StatusCode::Ok);
            q.set_body(b);
            Via::Res(q)
        }
    }
}

/// decoders hold what the source delivered, whatever length was declared
fn decode(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = *r.pick(&[0u64, 1, 10, 300, 5_000, 70_000, 300_000]) + r.u64() % 10;
    let len = declared_len(&mut r, n);
    let got = len.map_or(n, |l| l.min(n));
    let mode = r.below(4);
    let src = Source::new(&mut r, n);
    c.note((n, len, mode));
    c.sample(|| format!("{} bytes, declared {:?}, decoder {}", n, len, mode));
    let m = via(&mut r, Body::from_reader(src, len));
    let (ok, u) = measure(move || {
        quiet(move || {
            block_on(async {
                match (m, mode) {
                    (Via::Body(b), 0) => b.into_bytes().await.is_ok(),
                    (Via::Body(b), 1) => b.into_string().await.is_ok(),
                    (Via::Body(b), 2) => b.into_json::<f64>().await.is_ok(),
                    (Via::Body(b), _) => b.into_form::<std::collections::BTreeMap<String, String>>().await.is_ok(),
                    (Via::Req(mut b), 0) => b.body_bytes().await.is_ok(),
                    (Via::Req(mut b), 1) => b.body_string().await.is_ok(),
                    (Via::Req(mut b), 2) => b.body_json::<f64>().await.is_ok(),
                    (Via::Req(mut b), _) => b.body_form::<std::collections::BTreeMap<String, String>>().await.is_ok(),
                    (Via::Res(mut b), 0) => b.body_bytes().await.is_ok(),
                    (Via::Res(mut b), 1) => b.body_string().await.is_ok(),
                    (Via::Res(mut b), 2) => b.body_json::<f64>().await.is_ok(),
                    (Via::Res(mut b), _) => b.body_form::<std::collections::BTreeMap<String, String>>().await.is_ok(),
                }
            })
        })
    });
    if ok == Ok(true) {
        c.count("decoded");
    }
    bound(c, "decode", u, 256 * KB + 8 * got as i64, 1024 * KB + 40 * got as i64, || format!("source of {} bytes, declared {:?}, decoder {}, result {:?}", n, len, mode, ok));
}

/// a long body passes through a small buffer: the window held does not grow with it
fn stream(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = *r.pick(&[100_000u64, 1_000_000, 3_000_000]);
    let len = declared_len(&mut r, n);
    let mut body = Body::from_reader(Source::new(&mut r, n), len);
    for _ in 0..r.len(3) {
        let m = *r.pick(&[0u64, 1_000, 200_000, 1_000_000]);
        let len = declared_len(&mut r, m);
        body = if r.bool() { body.chain(Body::from_reader(Source::new(&mut r, m), len)) } else { Body::from_reader(Source::new(&mut r, m), len).chain(body) };
    }
    let buffered = r.bool();
    let step = 1 + r.below(8_000);
    let mut buf = vec![0; step];
    let mut m = via(&mut r, body);
    let mut moved = 0u64;
    let mut give_up = 4_000;
    let (_, u) = measure(|| {
        block_on(async {
            loop {
                give_up -= 1;
                let n = match (&mut m, buffered) {
                    (Via::Body(b), false) => b.read(&mut buf).await,
                    (Via::Req(b), false) => b.read(&mut buf).await,
                    (Via::Res(b), false) => b.read(&mut buf).await,
                    (Via::Body(b), true) => {
                        let n = b.fill_buf().await.map(|b| b.len().min(step));
                        b.consume(*n.as_ref().unwrap_or(&0));
                        n
                    }
                    (Via::Req(b), true) => {
                        let n = b.fill_buf().await.map(|b| b.len().min(step));
                        b.consume(*n.as_ref().unwrap_or(&0));
                        n
                    }
                    (Via::Res(b), true) => {
                        let n = b.fill_buf().await.map(|b| b.len().min(step));
                        b.consume(*n.as_ref().unwrap_or(&0));
                        n
                    }
                };
                match n {
                    Ok(0) => break,
                    Ok(n) => moved += n as u64,
                    Err(_) => {}
                }
                if give_up == 0 {
                    break;
                }
            }
        })
    });
    c.count_n("streamed bytes", moved);
    c.note((n, len, step, buffered, moved));
    bound(c, "stream", u, 64 * KB, 64 * KB + moved as i64, || format!("{} bytes moved in steps of {}, buffered {}", moved, step, buffered));
    c.check("stream:kept", u.kept <= 32 * KB, || format!("{} bytes moved, {:?}", moved, u));
    let (_, u) = measure(move || drop(m));
    c.check("stream:freed", u.kept <= 0, || format!("dropping the message: {:?}", u));
}

/// an upgraded connection keeps nothing of what passes
struct Pipe(Source, u64);
impl AsyncRead for Pipe {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_read(cx, buf)
    }
}
impl AsyncWrite for Pipe {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.0.rng.one_in(9) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = buf.len().min(1 + self.0.rng.below(20_000));
        self.1 += n as u64;
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
fn connection(c: &mut Case) {
    let mut r = c.rng.clone();
    let n = 200_000 + r.u64() % 1_000_000;
    let mut conn = Connection::new(Pipe(Source::new(&mut r, n), 0));
    let mut buf = vec![1; 1 + r.below(30_000)];
    let mut moved = 0u64;
    let r2 = &mut r;
    let (_, u) = measure(|| {
        block_on(async {
            for _ in 0..400 {
                let n = if r2.bool() { conn.read(&mut buf).await } else { conn.write(&buf).await };
                moved += n.unwrap_or(0) as u64;
                if r2.one_in(50) {
                    let _ = conn.flush().await;
                }
            }
            let _ = conn.close().await;
        })
    });
    c.count_n("connection bytes", moved);
    c.note((n, moved));
    bound(c, "connection", u, 16 * KB, 64 * KB, || format!("{} bytes moved", moved));
}

/// copies, conversions and trailers take what the headers and bytes take
fn copies(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut q = Request::new(Method::Post, Url::parse("http://example.com/x?y=1").unwrap());
    let mut size = 0;
    for _ in 0..r.len(60) {
        let name = gen::header_name(&mut r);
        let v = "v".repeat(r.len(3_000));
        size += name.len() + v.len() + 60;
        let _ = q.append_header(name.as_str(), v.as_str());
    }
    let bytes = 1_000_000 + r.below(500_000);
    let body = vec![b'b'; bytes];
    q.set_body(body);
    let data: i64 = 32 * KB + 16 * size as i64;
    c.note((size, bytes));
    let (k, u) = measure(|| q.clone());
    bound(c, "copies:clone", u, data, data, || format!("headers of {} bytes, body of {}", size, bytes));
    drop(k);
    let (t, u) = measure(|| {
        let mut t = Trailers::new();
        for (n, v) in q.iter() {
            let _ = t.append(n.clone(), v);
        }
        let k = t.clone();
        (t, k)
    });
    bound(c, "copies:trailers", u, 4 * data, 8 * data, || format!("headers of {} bytes", size));
    drop(t);
    // moving a message in and out of the other library moves the body
    let all = data * 8 + 4 * bytes as i64;
    let (back, u) = measure(move || {
        let h: http::Request<Body> = q.into();
        Request::try_from(h).expect("converts back")
    });
    bound(c, "copies:convert", u, all, all, || format!("headers of {} bytes, body of {}", size, bytes));
    let mut back = back;
    let (got, u) = measure(|| block_on(back.body_bytes()).map(|b| b.len()).unwrap_or(0));
    c.eq("copies:bytes", got, bytes, &"");
    bound(c, "copies:decode", u, 256 * KB + 4 * bytes as i64, 256 * KB + 12 * bytes as i64, || format!("body of {}", bytes));
    let (_, u) = measure(move || drop(back));
    c.check("copies:freed", u.kept <= 0, || format!("{:?}", u));
}

pub fn prop() -> Prop {
    Prop {
        id: "C29",
        rule: "the harness runs on an allocator that counts what each thread holds, its peak and its total. returned: cases of every single-threaded monitor of the other properties are run again and again and must leave nothing held \
               (a case counts as keeping memory when each of three runs after two warm-up runs does); declared: headers and parsers with every number replaced by a huge one; large: headers of up to 40 kB; decode: every decoder through body, request and response \
               over sources of 0-300 kB with true, false and absurd declared lengths; stream: up to 6 MB through small buffers, plain and buffered, chained or not, with errors and Pending; connection: 400 reads and writes; copies: clone, conversion, trailers. \
               Bounds are linear in the bytes supplied with generous constants. Distinct: by input text, sizes and schedule.",
        assumptions: &[
            "what is held is counted per thread; monitors that hand memory between threads or do real I/O are not part of `returned`",
            "the linear bounds have factors of 8 to 400 (the observations made of each value are inside the measured region), so that only allocations out of proportion are reported",
        ],
        subs: vec![
            rand("returned", 24_000, 400_000, returned),
            rand("declared", 20_000, 600_000, declared),
            rand("stretched", 12_000, 400_000, stretched),
            rand("large", 1_200, 40_000, large),
            rand("decode", 12_000, 300_000, decode),
            rand("stream", 6_000, 20_000, stream),
            rand("connection", 3_000, 8_000, connection),
            native(rand("copies", 1_000, 8_000, copies)),
        ],
    }
}
