//! C22: the part of memory safety a program can see of itself (strings that are not strings, shared reads that
//! disagree). The sanitizers run these workloads and those of all other properties, see tools/c22.py.
use super::typed::{hdrs, registry};
use crate::gen;
use crate::infra::*;
use futures_lite::future::block_on;
use futures_lite::AsyncReadExt;
use http_types::auth::BasicAuth;
use http_types::headers::{self as h, HeaderName, HeaderValue, Headers};
use http_types::mime::{self, Mime};
use http_types::proxies::Forwarded;
use http_types::{Body, Method, Request, Response, StatusCode, Url, Version};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::str::FromStr;
use std::sync::{Arc, Barrier};

fn valid(c: &mut Case, what: &str, s: &str) {
    c.count("strings inspected");
    c.check("invalid string", std::str::from_utf8(s.as_bytes()).is_ok(), || format!("{}: {:?}", what, s.as_bytes()));
}

/// bytes of every kind into whatever makes strings of them
fn strings(c: &mut Case) {
    let mut r = c.rng.clone();
    let b = match r.below(4) {
        0 => gen::bytes(&mut r, 16),
        1 => gen::unicode(&mut r, 8).into_bytes(),
        2 => {
            // valid text with one damaged byte
            let mut v = gen::unicode(&mut r, 8).into_bytes();
            if !v.is_empty() {
                let i = r.below(v.len());
                v[i] = r.below(256) as u8;
            }
            v
        }
        _ => {
            let mut v = gen::ascii_text(&mut r, 40).into_bytes();
            let i = r.below(v.len() + 1);
            v.insert(i, 0x80 + r.below(128) as u8);
            v
        }
    };
    if let Ok(v) = HeaderValue::from_bytes(b.clone()) {
        valid(c, "header value", v.as_str());
    }
    if let Ok(n) = HeaderName::from_bytes(b.clone()) {
        valid(c, "header name", n.as_str());
    }
    let v = gen::bytes(&mut r, 8);
    for (n, v) in [(b.clone(), v.clone()), (gen::lower_token(&mut r).into_bytes(), b.clone())] {
        let mut m = http::HeaderMap::new();
        if let (Ok(n), Ok(v)) = (http::header::HeaderName::from_bytes(&n), http::HeaderValue::from_bytes(&v)) {
            m.append(n, v);
            if let Ok(m) = Headers::try_from(m) {
                for (n, v) in &m {
                    valid(c, "foreign name", n.as_str());
                    for v in v {
                        valid(c, "foreign value", v.as_str());
                    }
                }
            }
        }
    }
    match r.below(4) {
        0 => {
            if let Ok(s) = block_on(Body::from_bytes(b.clone()).into_string()) {
                valid(c, "body string", &s);
            }
        }
        1 => {
            let body = Body::from_reader(futures_lite::io::Cursor::new(b.clone()), if r.bool() { Some(b.len() as u64) } else { None });
            if let Ok(s) = block_on(body.into_string()) {
                valid(c, "body string", &s);
            }
        }
        2 => {
            let mut q = Response::new(200);
            q.set_body(b.clone());
            if let Ok(s) = block_on(q.body_string()) {
                valid(c, "response string", &s);
            }
        }
        _ => {
            let mut q = Request::get("http://a/");
            q.set_body(b.clone());
            if let Ok(s) = block_on(q.body_string()) {
                valid(c, "request string", &s);
            }
        }
    }
    for creds in [super::typed::base64(&b), super::typed::base64(&[&b[..], b":", &b[..]].concat())] {
        if let Ok(a) = BasicAuth::from_credentials(&creds) {
            valid(c, "user name", a.username());
            valid(c, "password", a.password());
        }
    }
    if let Ok(m) = Mime::sniff(&b) {
        valid(c, "sniffed type", m.essence());
    }
    if let Ok(t) = std::str::from_utf8(&b) {
        if let Ok(m) = Mime::from_str(t) {
            valid(c, "media type", m.essence());
            valid(c, "media type", m.basetype());
            valid(c, "media type", m.subtype());
            valid(c, "media type text", &m.to_string());
            valid(c, "media type value", HeaderValue::from(m).as_str());
        }
        if let Ok(f) = Forwarded::parse(t) {
            for x in f.forwarded_for().into_iter().chain(f.by()).chain(f.host()).chain(f.proto()) {
                valid(c, "forwarded", x);
            }
        }
    }
    let reg = registry();
    let t = &reg[r.below(reg.len())];
    let built = (t.build)(&mut r);
    for (n, v) in &built.h {
        valid(c, t.id, n.as_str());
        for v in v {
            valid(c, t.id, v.as_str());
        }
    }
    c.note(&b);
    c.sample(|| format!("{:?}", b));
}

/// the text of everything that can be read of a message through a shared reference
fn describe(q: &Request, s: &Response, extra: &Headers, m: &Mime) -> String {
    let mut out = String::new();
    let list = |h: &Headers| -> BTreeMap<String, Vec<String>> { h.iter().map(|(n, v)| (n.to_string(), v.iter().map(|v| v.to_string()).collect())).collect() };
    let q2 = q.clone();
    let s2 = s.clone();
    for x in [q, &q2] {
        out += &format!("{} {} {:?} {:?} {:?} {:?} ", x.method(), x.url(), x.version(), x.host(), x.remote(), x.content_type().map(|m| m.to_string()));
        out += &format!("{:?} {:?} ", x.local_addr(), list(x.as_ref()));
        out += &format!("{:?} ", x.query::<BTreeMap<String, String>>().ok());
    }
    for x in [s, &s2] {
        out += &format!("{} {:?} {:?} {:?} {} ", x.status(), x.version(), x.content_type().map(|m| m.to_string()), list(x.as_ref()), x.has_trailers());
    }
    out += &format!("{:?} {:?} {:?} {:?} ", q.len(), s.len(), q.ext().get::<String>(), s.ext().get::<u64>());
    out += &format!("{} {} {:?} {} ", m, m.essence(), m.param("a"), mime::ANY.subset_eq(m) || m.subset_eq(&mime::ANY));
    let types = registry();
    for t in types.iter() {
        if extra.get(t.header).is_some() {
            match (t.parse)(extra) {
                super::typed::PR::Val(v) if t.id != "traceparent" => out += &v.obs,
                _ => out += "-",
            }
        }
    }
    for n in [h::CONTENT_TYPE, h::HOST, h::SET_COOKIE, h::VARY, h::WWW_AUTHENTICATE] {
        out += &format!("{} {:?}", n, q.header(&n).map(|v| v.to_string()));
    }
    out
}

/// messages shared by reference between threads, then moved and dropped elsewhere
fn shared(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut q = Request::new(*r.pick(&[Method::Get, Method::Post, Method::PropFind]), Url::parse("https://u:p@e.example:81/a?b=c&d=e").unwrap());
    let mut s = Response::new(StatusCode::Accepted);
    for _ in 0..r.len(6) {
        let n = gen::header_name(&mut r);
        let v = gen::ascii_text(&mut r, 12);
        q.append_header(n.as_str(), v.as_str()).unwrap();
        s.append_header(n.as_str(), v.as_str()).unwrap();
    }
    q.set_body(gen::unicode(&mut r, 20));
    s.set_body(gen::bytes(&mut r, 40));
    q.ext_mut().insert(gen::word(&mut r));
    s.ext_mut().insert(r.u64());
    q.set_version(Some(Version::Http2_0));
    q.set_peer_addr(Some(gen::word(&mut r)));
    let types = registry();
    let extra = (types[r.below(types.len())].build)(&mut r).h;
    let m = Mime::from_str(r.pick(&["text/html;a=b;charset=utf-8", "image/*", "application/json;A=\"x y\""])).unwrap();
    let want = describe(&q, &s, &extra, &m);
    let shared = Arc::new((q, s, extra, m));
    let n = 3;
    let start = Arc::new(Barrier::new(n));
    let handles: Vec<_> = (0..n)
        .map(|i| {
            let (shared, start) = (shared.clone(), start.clone());
            std::thread::spawn(move || {
                start.wait();
                let mut seen = vec![];
                for _ in 0..2 + i {
                    let (q, s, e, m) = &*shared;
                    seen.push(describe(q, s, e, m));
                    // clones are each thread's own
                    let mut own = q.clone();
                    own.insert_header("x-own", i.to_string()).unwrap();
                    own.set_body(vec![0u8; i]);
                    own.ext_mut().insert(i);
                    let e2 = e.clone();
                    drop(e2);
                }
                seen
            })
        })
        .collect();
    for t in handles {
        match t.join() {
            Ok(seen) => {
                for x in seen {
                    c.eq("shared read", &x, &want, &"from another thread");
                    c.count("shared reads compared");
                }
            }
            Err(_) => c.fail("thread", "a thread that only reads panicked"),
        }
    }
    // move the message to a thread that consumes it
    if let Ok((mut q, mut s, e, _)) = Arc::try_unwrap(shared) {
        let done = std::thread::spawn(move || {
            let mut buf = vec![];
            block_on(q.read_to_end(&mut buf)).unwrap();
            let b = s.take_body();
            (buf, b, e)
        })
        .join();
        match done {
            Ok((buf, b, e)) => {
                let _ = block_on(b.into_bytes());
                drop((buf, e));
            }
            Err(_) => c.fail("moved", "a moved message cannot be consumed"),
        }
    }
    c.note(&want);
    c.sample(|| want.clone());
}

/// values of several sizes and alignments in type-erased storage, and trait objects in connections and bodies
fn erased(c: &mut Case) {
    #[derive(Clone, Debug, PartialEq)]
    #[repr(align(64))]
    struct Wide([u8; 130]);
    #[derive(Clone, Debug, PartialEq)]
    struct Zero;
    let mut r = c.rng.clone();
    let mut holder = Response::new(200);
    let e = holder.ext_mut();
    let mut want: (Option<Wide>, Option<Zero>, Option<String>, Option<u8>, Option<Box<str>>) = (None, None, None, None, None);
    for _ in 0..r.len(24) {
        let n = r.below(256) as u8;
        macro_rules! one {
            ($f:tt, $t:ty, $v:expr) => {{
                let v: $t = $v;
                match r.below(4) {
                    0 | 1 => {
                        c.eq("insert", e.insert(v.clone()), want.$f.take(), &n);
                        want.$f = Some(v);
                    }
                    2 => {
                        c.eq("remove", e.remove::<$t>(), want.$f.take(), &n);
                    }
                    _ => {
                        c.eq("get", e.get::<$t>().cloned(), want.$f.clone(), &n);
                        c.eq("get_mut", e.get_mut::<$t>().map(|v| v.clone()), want.$f.clone(), &n);
                    }
                }
            }};
        }
        match r.below(5) {
            0 => one!(0, Wide, Wide([n; 130])),
            1 => one!(1, Zero, Zero),
            2 => one!(2, String, n.to_string()),
            3 => one!(3, u8, n),
            _ => one!(4, Box<str>, n.to_string().into_boxed_str()),
        }
    }
    // partial reads of a body into buffers of odd sizes
    let data = gen::bytes(&mut r, 200);
    let mut b = Body::from_bytes(data.clone()).chain(Body::from_reader(futures_lite::io::Cursor::new(data.clone()), None));
    let mut got = vec![];
    let mut buf = vec![0xaa; 1 + r.below(70)];
    loop {
        match block_on(b.read(&mut buf)) {
            Ok(0) => break,
            Ok(n) if n <= buf.len() => got.extend_from_slice(&buf[..n]),
            Ok(n) => {
                c.fail("read", format!("{} bytes into a buffer of {}", n, buf.len()));
                return;
            }
            Err(x) => {
                c.fail("read", x.to_string());
                return;
            }
        }
    }
    c.eq("bytes", got, [&data[..], &data[..]].concat(), &data.len());
    c.note((&data, format!("{:?}", want)));
    let _ = hdrs();
}

/// fill memory that has just been freed
fn churn(r: &mut Rng) -> Vec<Vec<u8>> {
    (0..24).map(|_| vec![b'Z'; 1 + r.below(64)]).collect()
}

/// values read from something outlive it
fn outlive(c: &mut Case) {
    use http_types::auth::{Authorization, WwwAuthenticate};
    use http_types::cache::{CacheControl, ClearSiteData};
    use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};
    use http_types::content::{Accept, AcceptEncoding, ContentEncoding, ContentLocation, ContentType};
    use http_types::headers::Header;
    use http_types::other::{Referer, RetryAfter, SourceMap};
    use http_types::security::TimingAllowOrigin;
    use http_types::server::Allow;
    use http_types::trace::ServerTiming;
    use http_types::transfer::TE;
    let mut r = c.rng.clone();
    let reg = super::typed_props::reg();
    let base = || Url::parse(super::typed::BASE).unwrap();
    macro_rules! kept {
        ($id:expr, $t:expr, |$h:ident| $parse:expr) => {{
            let t = $t;
            let mut $h = hdrs();
            for _ in 0..1 + r.len(2) {
                let s = (t.el)(&mut r).text;
                if let Ok(v) = HeaderValue::from_str(&s) {
                    let _ = $h.append(t.header, v);
                }
            }
            let v = match quiet(|| $parse) {
                Ok(Ok(Some(v))) => v,
                _ => return,
            };
            let tell = |v: &_| format!("{:?} {:?} {:?}", v, Header::header_name(v).as_str(), Header::header_value(v).as_str());
            let before = tell(&v);
            drop($h);
            let junk = churn(&mut r);
            let after = tell(&v);
            c.count($id);
            c.note(&before);
            if before != after {
                c.fail(format!("outlive:{}", $id), format!("{} became {} once what it was read from was gone", before, after));
            }
            drop((v, junk));
        }};
    }
    let t = &reg[r.below(reg.len())];
    match t.id {
        "accept" => kept!("accept", t, |h| Accept::from_headers(&h)),
        "accept-encoding" => kept!("accept-encoding", t, |h| AcceptEncoding::from_headers(&h)),
        "te" => kept!("te", t, |h| TE::from_headers(&h)),
        "cache-control" => kept!("cache-control", t, |h| CacheControl::from_headers(&h)),
        "clear-site-data" => kept!("clear-site-data", t, |h| ClearSiteData::from_headers(&h)),
        "etag" => kept!("etag", t, |h| ETag::from_headers(&h)),
        "if-match" => kept!("if-match", t, |h| IfMatch::from_headers(&h)),
        "if-none-match" => kept!("if-none-match", t, |h| IfNoneMatch::from_headers(&h)),
        "vary" => kept!("vary", t, |h| Vary::from_headers(&h)),
        "content-encoding" => kept!("content-encoding", t, |h| ContentEncoding::from_headers(&h)),
        "content-location" => kept!("content-location", t, |h| ContentLocation::from_headers(base(), &h)),
        "content-type" => kept!("content-type", t, |h| ContentType::from_headers(&h)),
        "referer" => kept!("referer", t, |h| Referer::from_headers(base(), &h)),
        "source-map" => kept!("source-map", t, |h| SourceMap::from_headers(base(), &h)),
        "retry-after" => kept!("retry-after", t, |h| RetryAfter::from_headers(&h)),
        "timing-allow-origin" => kept!("timing-allow-origin", t, |h| TimingAllowOrigin::from_headers(&h)),
        "allow" => kept!("allow", t, |h| Allow::from_headers(&h)),
        "server-timing" => kept!("server-timing", t, |h| ServerTiming::from_headers(&h)),
        "authorization" => kept!("authorization", t, |h| Authorization::from_headers(&h)),
        "basic-auth" => kept!("basic-auth", t, |h| BasicAuth::from_headers(&h)),
        "www-authenticate" => kept!("www-authenticate", t, |h| WwwAuthenticate::from_headers(&h)),
        "forwarded" => kept!("forwarded", t, |h| Forwarded::from_headers(&h).map(|f| f.map(Forwarded::into_owned))),
        _ => {}
    }
    // the same of a text, and of the legacy headers of a request
    if r.one_in(3) {
        let mut q = Request::get("http://a/");
        for n in ["x-forwarded-for", "x-forwarded-proto", "x-forwarded-by"] {
            if r.bool() {
                q.insert_header(n, gen::lower_token(&mut r).as_str()).unwrap();
            }
        }
        if let Ok(Ok(Some(f))) = quiet(|| Forwarded::from_headers(&q).map(|f| f.map(Forwarded::into_owned))) {
            let tell = || format!("{:?} {:?} {:?} {:?}", f.forwarded_for(), f.proto(), f.by(), f.host());
            let before = tell();
            drop(q);
            let junk = churn(&mut r);
            if tell() != before {
                c.fail("outlive:legacy", format!("{} became {}", before, tell()));
            }
            drop(junk);
        }
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "the workloads of all properties under AddressSanitizer, ThreadSanitizer (eight threads) and Miri, plus: bytes of every kind into everything that makes strings of them, messages shared by reference between threads with all reads compared, and type-erased storage of several sizes and alignments; evaluations count the cases of this monitor run without a sanitizer, \"sanitized\" those under each; non-trivial: distinct inputs",
        assumptions: &["memory errors are seen on the executed paths only; Miri and the sanitizers run a sample of the workloads"],
        subs: vec![rand("strings", 150_000, 3_000_000, strings), rand("shared", 1_500, 30_000, shared), rand("erased", 40_000, 500_000, erased), rand("outlive", 100_000, 1_000_000, outlive)],
    }
}
