//! C30: results depend on the inputs alone. A corpus of operations, each a function of its generated inputs that
//! describes everything it returns; the monitor runs the same operation again after other work, on other threads,
//! through shared references and in a fresh process, and compares the descriptions.
use super::c17_codecs::{statuses, METHODS, VERSIONS};
use super::typed::{hdrs, registry, Kind, PR, TH};
use crate::gen;
use crate::infra::*;
use futures_lite::future::{block_on, zip};
use futures_lite::io::Cursor;
use futures_lite::{AsyncBufReadExt, AsyncReadExt, AsyncWriteExt};
use http_types::content::{Accept, AcceptEncoding, ContentType, Encoding, EncodingProposal, MediaTypeProposal};
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::proxies::Forwarded;
use http_types::security::{self, ContentSecurityPolicy, FrameOptions, ReferrerOptions, Source};
use http_types::trace::TraceContext;
use http_types::trailers::Trailers;
use http_types::upgrade::Connection;
use http_types::{Body, Error, Method, Request, Response, StatusCode, Status, Url, Version};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::str::FromStr;
use std::sync::{Arc, Barrier};

/// generated text, or a near variant of it
struct In {
    r: Rng,
    twist: Option<Rng>,
}
impl In {
    fn t(&mut self, s: String) -> String {
        match &mut self.twist {
            Some(r) => gen::mutate(r, &s, true),
            None => s,
        }
    }
}
type Op = fn(&mut In) -> String;

fn list(h: &Headers) -> String {
    // names come in no particular order
    let v: BTreeMap<String, Vec<String>> = h.iter().map(|(n, v)| (n.to_string(), v.iter().map(|v| v.as_str().to_string()).collect())).collect();
    format!("{:?}", v)
}
fn res<T: std::fmt::Debug>(r: Result<T, Error>) -> String {
    match r {
        Ok(v) => format!("ok {:?}", v),
        Err(e) => format!("err {} {} {:?}", e.status(), e, e.type_name()),
    }
}
/// members of a set come in no particular order
fn unordered(s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    v.sort_unstable();
    v.into_iter().collect()
}

fn reg() -> &'static [TH] {
    use std::sync::OnceLock;
    static R: OnceLock<Vec<TH>> = OnceLock::new();
    R.get_or_init(registry)
}

fn typed_read(i: &mut In) -> String {
    let t = &reg()[i.r.below(reg().len())];
    let mut h = hdrs();
    for _ in 0..1 + i.r.len(3) {
        let s = match i.r.below(8) {
            0 => (t.bad)(&mut i.r),
            1 => gen::soup(&mut i.r, 6),
            _ => (t.el)(&mut i.r).text,
        };
        let s = i.t(s);
        if let Ok(v) = HeaderValue::from_str(&s) {
            let _ = h.append(t.header, v);
        }
    }
    match (t.parse)(&h) {
        // an identifier drawn at random
        PR::Val(v) if t.id == "traceparent" => v.obs,
        PR::Val(v) if t.kind == Kind::Set => format!("{} {} {}", t.id, unordered(&v.obs), unordered(&v.text)),
        x => format!("{} {:?}", t.id, x),
    }
}
fn typed_build(i: &mut In) -> String {
    let t = &reg()[i.r.below(reg().len())];
    if t.id == "traceparent" {
        return String::new();
    }
    let b = (t.build)(&mut i.r);
    if t.kind == Kind::Set {
        format!("{} {} {}", t.id, unordered(&b.obs), unordered(&list(&b.h)))
    } else {
        format!("{} {} {} {}", t.id, b.obs, list(&b.h), b.desc)
    }
}
fn mime(i: &mut In) -> String {
    let (s, _) = super::typed::mime_el(&mut i.r, true);
    let s = i.t(s);
    let (o, _) = super::typed::mime_el(&mut i.r, true);
    let m = Mime::from_str(&s);
    let mut out = format!("{:?}", m.as_ref().map(|m| (m.to_string(), m.essence().to_string(), m.param("charset").map(|v| v.to_string()))).map_err(|e| e.to_string()));
    if let (Ok(a), Ok(b)) = (&m, Mime::from_str(&o)) {
        out += &format!(" {} {} {} {:?}", a.subset_eq(&b), b.subset_eq(a), *a == b, MediaTypeProposal::new(a.clone(), Some(0.5)).map(|p| HeaderValue::from(p).to_string()).map_err(|e| e.to_string()));
    }
    let b = gen::bytes(&mut i.r, 40);
    let ext = gen::word(&mut i.r);
    out += &format!(" {:?} {:?}", Mime::sniff(&b).map(|m| m.to_string()).map_err(|e| e.to_string()), Mime::from_extension(i.t(ext)).map(|m| m.to_string()));
    for e in ["html", "png", "json", "txt"] {
        if i.r.one_in(4) {
            out += &format!(" {:?}", Mime::from_extension(e).map(|m| m.to_string()));
        }
    }
    out
}
fn codecs(i: &mut In) -> String {
    let m = match i.r.below(3) {
        0 => METHODS[i.r.below(METHODS.len())].0.to_string(),
        1 => {
            let m = METHODS[i.r.below(METHODS.len())].0;
            gen::recase(&mut i.r, m)
        },
        _ => gen::token(&mut i.r),
    };
    let m = i.t(m);
    let v = VERSIONS[i.r.below(VERSIONS.len())].0.to_string();
    let v = i.t(v);
    let s = i.r.below(1100) as u16;
    let st = StatusCode::try_from(s);
    format!(
        "{:?} {:?} {:?} {:?} {:?}",
        Method::from_str(&m).map(|m| (m.to_string(), m.is_safe())).map_err(|e| e.to_string()),
        serde_json::from_value::<Version>(serde_json::Value::String(v)).map(|v| v.to_string()).map_err(|e| e.to_string()),
        st.map(|s| (s.canonical_reason(), s.is_success(), s.is_client_error())).map_err(|e| e.to_string()),
        serde_json::to_string(&i.r.pick(&statuses()).1).ok(),
        serde_json::from_value::<Method>(serde_json::Value::String(m)).map_err(|e| e.to_string()),
    )
}
fn headers(i: &mut In) -> String {
    let mut h = hdrs();
    let mut out = String::new();
    let names: Vec<String> = (0..1 + i.r.below(5)).map(|_| gen::header_name(&mut i.r)).collect();
    for _ in 0..i.r.below(16) {
        let n = i.r.pick(&names).clone();
        let n = gen::recase(&mut i.r, &n);
        let n = i.t(n);
        let v = gen::any_ascii(&mut i.r, 12);
        if HeaderName::from_str(&n).is_err() {
            out += "bad name;";
            continue;
        }
        match i.r.below(5) {
            0 => out += &format!("{:?};", h.insert(n.as_str(), v.as_str()).map(|v| v.map(|v| v.to_string())).map_err(|e| e.to_string())),
            1 | 2 => out += &format!("{:?};", h.append(n.as_str(), v.as_str()).is_ok()),
            3 => out += &format!("{:?};", h.remove(n.as_str()).map(|v| v.to_string())),
            _ => out += &format!("{:?};", h.get(n.as_str()).map(|v| (v.to_string(), v.last().to_string()))),
        }
    }
    out + &list(&h)
}
fn make_body(i: &mut In) -> Body {
    match i.r.below(7) {
        0 => Body::empty(),
        1 => {
            let s = gen::unicode(&mut i.r, 30);
            Body::from_string(s)
        }
        2 => Body::from_bytes(gen::bytes(&mut i.r, 60)),
        3 => {
            let v: BTreeMap<String, u32> = (0..i.r.below(5)).map(|_| (gen::word(&mut i.r), i.r.below(99) as u32)).collect();
            Body::from_json(&v).unwrap()
        }
        4 => {
            let v: BTreeMap<String, String> = (0..i.r.below(5)).map(|_| (gen::word(&mut i.r), gen::unicode(&mut i.r, 6))).collect();
            Body::from_form(&v).unwrap()
        }
        5 => {
            let v = gen::bytes(&mut i.r, 60);
            let l = v.len() + i.r.below(3);
            Body::from_reader(Cursor::new(v), if i.r.bool() { Some(l as u64) } else { None })
        }
        _ => {
            let a = gen::word(&mut i.r);
            let a = i.t(a);
            Body::from(a).chain(Body::from_bytes(gen::bytes(&mut i.r, 20)))
        }
    }
}
fn body(i: &mut In) -> String {
    let mut b = make_body(i);
    let mut out = format!("{:?} {:?} {:?} ", b.len(), b.is_empty(), b.mime().map(|m| m.to_string()));
    match i.r.below(6) {
        0 => out += &res(block_on(b.into_string())),
        1 => out += &res(block_on(b.into_bytes())),
        2 => out += &res(block_on(b.into_json::<BTreeMap<String, u32>>())),
        3 => out += &res(block_on(b.into_form::<BTreeMap<String, String>>())),
        4 => {
            let mut buf = vec![0; 1 + i.r.below(40)];
            while let Ok(n @ 1..) = block_on(b.read(&mut buf)) {
                out += &format!("{:?} {:?};", &buf[..n], b.len());
            }
        }
        _ => {
            while let Ok(n @ 1..) = block_on(b.fill_buf()).map(|b| b.len()) {
                let k = 1 + i.r.below(n);
                b.consume(k);
                out += &format!("{} {} {:?};", n, k, b.len());
            }
        }
    }
    out
}
fn describe(q: &Request) -> String {
    format!(
        "{} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {} {:?} {:?}",
        q.method(),
        q.url(),
        q.version(),
        q.host(),
        q.remote(),
        q.peer_addr(),
        q.local_addr(),
        q.content_type().map(|m| m.to_string()),
        q.len(),
        q.is_empty(),
        q.query::<BTreeMap<String, String>>().map_err(|e| e.to_string()),
        q.header("x-a").map(|v| v.to_string()),
        list(q.as_ref()),
        q.ext().get::<u32>(),
        q.has_trailers(),
    )
}
fn make_request(i: &mut In) -> Request {
    let p = gen::word(&mut i.r);
    let p = i.t(p);
    let mut url = Url::parse("http://example.com:8080/").unwrap();
    url.set_path(&p);
    if i.r.bool() {
        url.set_query(Some(&gen::word(&mut i.r)));
    }
    let mut q = Request::new(METHODS[i.r.below(METHODS.len())].1, url);
    for _ in 0..i.r.below(8) {
        match i.r.below(10) {
            0 => q.set_body(make_body(i)),
            1 => {
                let (k, v) = (gen::word(&mut i.r), gen::unicode(&mut i.r, 8));
                let _ = q.set_query(&BTreeMap::from([(k, v)]));
            }
            2 => {
                let s = gen::word(&mut i.r);
                let s = i.t(s);
                if let Ok(v) = HeaderValue::from_str(&s) {
                    q.append_header(*i.r.pick(&["host", "x-forwarded-host", "x-forwarded-for", "x-a", "content-type"]), v).ok();
                }
            }
            3 => {
                let mut f = Forwarded::new();
                f.add_for("192.0.2.43");
                f.set_host("a.example");
                q.insert_header("forwarded", f.to_string().as_str()).ok();
            }
            4 => q.set_version(Some(VERSIONS[i.r.below(VERSIONS.len())].1)),
            5 => q.set_peer_addr(Some(format!("127.0.0.1:{}", i.r.below(99)))),
            6 => q.set_local_addr(Some("127.0.0.1:80")),
            7 => {
                let _ = q.set_content_type(Mime::from_str("text/css;a=b").unwrap());
            }
            8 => {
                q.ext_mut().insert(i.r.below(99) as u32);
            }
            _ => q.set_method(Method::Put),
        }
    }
    q
}
fn request(i: &mut In) -> String {
    let mut q = make_request(i);
    let d = describe(&q);
    let k = q.clone();
    format!("{} {} {}", d, describe(&k), res(block_on(q.body_bytes())))
}
fn response(i: &mut In) -> String {
    let mut s = Response::new(i.r.pick(&statuses()).1);
    for _ in 0..i.r.below(6) {
        match i.r.below(6) {
            0 => s.set_body(make_body(i)),
            1 => {
                let v = gen::any_ascii(&mut i.r, 10);
                s.append_header("x-a", v.as_str()).ok();
            }
            2 => s.set_status(i.r.pick(&statuses()).1),
            3 => {
                let mut o = Body::from("o");
                s.swap_body(&mut o);
            }
            4 => drop(s.take_body()),
            _ => s.set_version(Some(Version::Http1_0)),
        }
    }
    format!("{} {:?} {:?} {:?} {} {}", s.status(), s.version(), s.len(), s.content_type().map(|m| m.to_string()), list(s.as_ref()), res(block_on(s.body_string())))
}
fn errors(i: &mut In) -> String {
    let st = i.r.pick(&statuses()).1;
    let msg = gen::unicode(&mut i.r, 12);
    let mut e = match i.r.below(4) {
        0 => Error::from_str(st, msg.clone()),
        1 => Error::new(st, std::io::Error::new(std::io::ErrorKind::Other, msg.clone())),
        2 => match Err::<(), _>(std::fmt::Error).status(st) {
            Err(e) => e,
            Ok(()) => unreachable!(),
        },
        _ => Error::from(Error::from_debug(msg.clone())),
    };
    let a = format!("{} {} {:#} {:?}", e.status(), e, e, e.type_name());
    e.set_status(StatusCode::ImATeapot);
    format!("{} {} {} {}", a, e.status(), e.downcast_ref::<std::io::Error>().is_some(), e.into_inner())
}
fn hyperium(i: &mut In) -> String {
    let q = make_request(i);
    let h = http::Request::<Body>::from(q);
    let hs: BTreeMap<String, Vec<Vec<u8>>> = h.headers().keys().map(|k| (k.to_string(), h.headers().get_all(k).iter().map(|v| v.as_bytes().to_vec()).collect())).collect();
    let a = format!("{} {} {:?} {:?}", h.method(), h.uri(), h.version(), hs);
    a + &match Request::try_from(h) {
        Ok(q) => describe(&q),
        Err(e) => e.to_string(),
    }
}
fn extensions(i: &mut In) -> String {
    let mut s = Response::new(200);
    let mut out = String::new();
    for _ in 0..i.r.below(12) {
        let x = i.r.below(50);
        let e = s.ext_mut();
        out += &match i.r.below(7) {
            0 => format!("{:?}", e.insert(x as u8)),
            1 => format!("{:?}", e.insert(x.to_string())),
            2 => format!("{:?}", e.insert(x as u64)),
            3 => format!("{:?}", e.get::<u8>()),
            4 => format!("{:?}", e.remove::<String>()),
            5 => format!("{:?}", e.contains::<u64>()),
            _ => format!("{:?}", e.get_mut::<u64>()),
        };
    }
    out
}
fn negotiate(i: &mut In) -> String {
    let mut h = hdrs();
    let (name, pool): (&str, &[&str]) = match i.r.below(2) {
        0 => ("accept", &["text/html", "application/json;q=0.5", "*/*;q=0.1", "image/png;q=0.9", "text/*", "text/plain;q=0.5"]),
        _ => ("accept-encoding", &["gzip", "br;q=0.5", "*;q=0.1", "deflate;q=0.9", "identity", "zstd;q=0.5"]),
    };
    let v: Vec<String> = (0..1 + i.r.below(5)).map(|_| i.r.pick(pool).to_string()).collect();
    let v = i.t(v.join(", "));
    if let Ok(v) = HeaderValue::from_str(&v) {
        let _ = h.append(name, v);
    }
    if name == "accept" {
        let offers: Vec<Mime> = (0..1 + i.r.below(4)).map(|_| Mime::from_str(*i.r.pick(&["text/html", "application/json", "image/png", "text/plain"])).unwrap()).collect();
        match Accept::from_headers(&h) {
            Ok(Some(mut a)) => {
                let n = a.negotiate(&offers).map(|c: ContentType| http_types::headers::Header::header_value(&c).to_string());
                a.sort();
                format!("{} {}", res(n), http_types::headers::Header::header_value(&a))
            }
            Ok(None) => "none".into(),
            Err(e) => e.to_string(),
        }
    } else {
        let offers: Vec<Encoding> = (0..1 + i.r.below(4)).map(|_| *i.r.pick(&[Encoding::Gzip, Encoding::Brotli, Encoding::Deflate, Encoding::Zstd, Encoding::Identity])).collect();
        match AcceptEncoding::from_headers(&h) {
            Ok(Some(mut a)) => {
                a.push(EncodingProposal::new(Encoding::Identity, Some(0.25)).unwrap());
                let n = a.negotiate(&offers).map(|c| http_types::headers::Header::header_value(&c).to_string());
                a.sort();
                format!("{} {}", res(n), http_types::headers::Header::header_value(&a))
            }
            Ok(None) => "none".into(),
            Err(e) => e.to_string(),
        }
    }
}
fn policies(i: &mut In) -> String {
    let mut s = Response::new(200);
    for _ in 0..i.r.below(6) {
        match i.r.below(8) {
            0 => security::default(&mut s),
            1 => security::dns_prefetch_control(&mut s),
            2 => security::frameguard(&mut s, if i.r.bool() { Some(FrameOptions::SameOrigin) } else { None }),
            3 => security::powered_by(&mut s, HeaderValue::from_str(&gen::word(&mut i.r)).ok()),
            4 => security::hsts(&mut s),
            5 => security::xss_filter(&mut s),
            6 => security::referrer_policy(&mut s, Some(ReferrerOptions::Origin)),
            _ => {
                let mut p = ContentSecurityPolicy::new();
                for _ in 0..i.r.below(4) {
                    let w = gen::word(&mut i.r);
                    match i.r.below(4) {
                        0 => drop(p.default_src(Source::SameOrigin)),
                        1 => drop(p.script_src(w)),
                        2 => drop(p.img_src(Source::None)),
                        _ => drop(p.upgrade_insecure_requests()),
                    }
                }
                p.apply(&mut s);
            }
        }
    }
    // the directives of a policy come in no particular order
    unordered(&list(s.as_ref()))
}
fn tracing(i: &mut In) -> String {
    let mut h = hdrs();
    let s = format!("00-{:032x}-{:016x}-{:02x}", super::typed::trace_id(&mut i.r), i.r.u64() | 1, i.r.below(256));
    if let Ok(v) = HeaderValue::from_str(&i.t(s)) {
        let _ = h.insert("traceparent", v);
    }
    match TraceContext::from_headers(&h) {
        Ok(Some(t)) => {
            let k = t.child();
            // the id of the child is drawn at random
            format!("{} {:x} {:?} {} {} {} {:x} {:?} {}", t.id() != 0, t.trace_id(), t.parent_id(), t.sampled(), t.version(), k.version(), k.trace_id(), k.parent_id() == Some(t.id()), k.sampled())
        }
        Ok(None) => "none".into(),
        Err(e) => format!("{} {}", e.status(), e),
    }
}
fn channels(i: &mut In) -> String {
    let mut s = Response::new(200);
    let (t, rx) = (s.send_trailers(), s.recv_trailers());
    let mut tr = Trailers::new();
    let w = gen::word(&mut i.r);
    let w = i.t(w);
    let _ = tr.insert("x-a", w.as_str());
    let a = if i.r.bool() {
        let (_, got) = block_on(zip(t.send(tr), rx));
        format!("{:?}", got.map(|t| list(&t)))
    } else {
        drop(t);
        format!("{:?}", block_on(rx).map(|t| list(&t)))
    };
    let (u, rx) = (s.send_upgrade(), block_on(s.recv_upgrade()));
    let bytes = gen::bytes(&mut i.r, 20);
    let (_, got) = block_on(zip(u.send(Connection::new(Cursor::new(bytes))), rx));
    let b = got.map(|mut c| {
        let mut v = vec![];
        let r = block_on(c.read_to_end(&mut v)).ok();
        let w = block_on(c.write(b"abc")).ok();
        (v, r, w)
    });
    format!("{} {:?}", a, b)
}

const OPS: &[(&str, u32, Op)] = &[
    ("typed_read", 12, typed_read),
    ("typed_build", 5, typed_build),
    ("mime", 3, mime),
    ("codecs", 2, codecs),
    ("headers", 2, headers),
    ("body", 2, body),
    ("request", 3, request),
    ("response", 2, response),
    ("errors", 1, errors),
    ("hyperium", 2, hyperium),
    ("extensions", 1, extensions),
    ("negotiate", 2, negotiate),
    ("policies", 1, policies),
    ("tracing", 1, tracing),
    ("channels", 1, channels),
];

#[derive(Clone, Copy, Debug)]
struct Job {
    op: usize,
    seed: u64,
    /// a near variant of the inputs
    twist: Option<u64>,
}
fn job(r: &mut Rng) -> Job {
    let total: u32 = OPS.iter().map(|o| o.1).sum();
    let mut at = r.below(total as usize) as u32;
    let op = OPS.iter().position(|o| if at < o.1 { true } else { at -= o.1; false }).unwrap();
    Job { op, seed: r.u64(), twist: None }
}
fn run_job(j: Job) -> String {
    quiet(|| (OPS[j.op].2)(&mut In { r: Rng::new(j.seed), twist: j.twist.map(Rng::new) })).unwrap_or_else(|p| format!("panic {}", p))
}
fn same(c: &mut Case, how: &str, j: Job, first: &str, later: &str) -> bool {
    c.count(how);
    if first != later {
        let at = first.bytes().zip(later.bytes()).take_while(|(a, b)| a == b).count();
        let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[at.saturating_sub(120)..(at + 200).min(s.len())]).to_string();
        c.fail(format!("{}:{}", how, OPS[j.op].0), format!("{:?} {:?} first gave\n  ..{}\nand later\n  ..{}", OPS[j.op].0, j, cut(first), cut(later)));
        return false;
    }
    true
}

/// the same operation before and after other work, among it near variants of its own inputs
fn again(c: &mut Case) {
    let mut r = c.rng.clone();
    let j = job(&mut r);
    let first = run_job(j);
    c.note((j.op, &first));
    c.count(&format!("op:{}", OPS[j.op].0));
    if first.starts_with("panic") {
        return;
    }
    for _ in 0..1 + r.len(3) {
        for _ in 0..r.len(8) {
            let other = match r.below(4) {
                0 | 1 => Job { twist: Some(r.u64()), ..j },
                2 => Job { seed: r.u64(), ..j },
                _ => job(&mut r),
            };
            let a = run_job(other);
            if r.one_in(4) {
                same(c, "straight away", other, &a, &run_job(other));
            }
        }
        let n = if r.one_in(30) { 70 } else { 1 };
        for _ in 0..n {
            if !same(c, "again", j, &first, &run_job(j)) {
                return;
            }
        }
    }
}

/// the same operations one after the other, and on four threads at once in other orders
fn threads(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut jobs: Vec<Job> = vec![];
    while jobs.len() < 30 {
        let j = job(&mut r);
        jobs.push(j);
        for _ in 0..r.below(3) {
            jobs.push(Job { twist: Some(r.u64()), ..j });
        }
    }
    let first: Vec<String> = jobs.iter().map(|j| run_job(*j)).collect();
    c.note(&first);
    let (jobs, gate) = (Arc::new(jobs), Arc::new(Barrier::new(4)));
    let hs: Vec<_> = (0..4)
        .map(|_| {
            let (jobs, gate, mut r) = (jobs.clone(), gate.clone(), Rng::new(r.u64()));
            std::thread::spawn(move || {
                let mut order: Vec<usize> = (0..jobs.len()).collect();
                r.shuffle(&mut order);
                gate.wait();
                order.into_iter().map(|i| (i, run_job(jobs[i]))).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in hs {
        for (i, s) in h.join().expect("worker thread") {
            same(c, "on another thread", jobs[i], &first[i], &s);
        }
    }
}

/// one value read by several threads at once
fn shared(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut i = In { r: Rng::new(r.u64()), twist: None };
    let q = make_request(&mut i);
    let (ms, _) = super::typed::mime_el(&mut i.r, true);
    let m = Mime::from_str(&ms).ok();
    let t = &reg()[i.r.below(reg().len())];
    let mut h = hdrs();
    for _ in 0..3 {
        let s = (t.el)(&mut i.r).text;
        let _ = HeaderValue::from_str(&s).map(|v| h.append(t.header, v).is_ok());
    }
    let e = Error::from_str(418, gen::word(&mut i.r));
    let mut p = Accept::new();
    if let Some(m) = &m {
        p.push(m.clone());
    }
    let look = || {
        let parsed = match (t.parse)(&h) {
            PR::Val(v) if t.id == "traceparent" => v.obs,
            PR::Val(v) if t.kind == Kind::Set => unordered(&v.obs),
            x => format!("{:?}", x),
        };
        format!(
            "{} {} {:?} {} {} {:?} {:?}",
            describe(&q),
            list(&h),
            m.as_ref().map(|m| (m.to_string(), m.param("charset").map(|v| v.to_string()), m.clone().to_string())),
            parsed,
            describe(&q.clone()),
            (e.to_string(), e.status()),
            p.iter().map(|m| m.to_string()).collect::<Vec<_>>(),
        )
    };
    let first = look();
    c.note(&first);
    let gate = Barrier::new(4);
    let got: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|_| {
                s.spawn(|| {
                    gate.wait();
                    let a = look();
                    (0..3).map(|_| look()).find(|x| *x != a).unwrap_or(a)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect()
    });
    for g in got {
        c.count("shared");
        if g != first {
            c.fail("shared", format!("one reader saw\n{}\nseveral at once saw\n{}", first, g));
        }
    }
}

/// `hv ops SEED N`: the hashes of what N jobs give, in a process that runs them from the last to the first
pub fn ops(seed: u64, n: usize) {
    let mut r = Rng::new(seed);
    let jobs: Vec<Job> = (0..n).map(|_| job(&mut r)).collect();
    let mut out: Vec<String> = jobs.iter().rev().map(|j| format!("{:016x}", hash(&run_job(*j)))).collect();
    out.reverse();
    println!("{}", out.join("\n"));
}
fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| mix(h, b as u64))
}
fn process(c: &mut Case) {
    let mut r = c.rng.clone();
    let (seed, n) = (r.u64(), 1500);
    let o = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["ops", &seed.to_string(), &n.to_string()])
        .env("TZ", *r.pick(&["Pacific/Auckland", "UTC", "America/St_Johns"]))
        .env("LC_ALL", *r.pick(&["C", "tr_TR.UTF-8", "de_DE.UTF-8"]))
        .env("LANG", *r.pick(&["C", "tr_TR.UTF-8"]))
        .current_dir("/")
        .output()
        .expect("start another process");
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let there: Vec<&str> = text.lines().collect();
    if !o.status.success() || there.len() != n {
        c.fail("process", format!("the other process ended with {:?} after {} results", o.status, there.len()));
        return;
    }
    c.note(&text);
    let mut g = Rng::new(seed);
    for t in there {
        let j = job(&mut g);
        let here = run_job(j);
        c.count("in another process");
        if format!("{:016x}", hash(&here)) != t {
            c.fail(format!("process:{}", OPS[j.op].0), format!("{:?} {:?} gives something else in a fresh process than {}", OPS[j.op].0, j, here));
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C30",
        rule: "operations drawn from a corpus over all parts of the crate, each run again after other operations and near variants of its inputs, on four threads at once, through shared references and in a fresh process with another time zone, locale and directory; non-trivial: distinct results",
        assumptions: &[
            "the order in which header names, members of sets and policy directives are listed is unspecified and not compared",
            "random identifiers of trace contexts and the clock are inputs of their own and not compared",
        ],
        subs: vec![
            rand("again", 100_000, 2_000_000, again),
            rand("threads", 400, 8_000, threads),
            rand("shared", 2_000, 40_000, shared),
            native(rand("process", 20, 400, process)),
        ],
    }
}
