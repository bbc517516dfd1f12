//! C03: names and values are ASCII, names have one spelling.
use super::typed::{hdrs, registry};
use crate::gen;
use crate::infra::*;
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::conditional::{ETag, IfMatch, IfNoneMatch, Vary};
use http_types::content::{Accept, ContentLocation, ContentType, MediaTypeProposal};
use http_types::cookies::Cookie;
use http_types::headers::{self as h, Header, HeaderName, HeaderValue, HeaderValues};
use http_types::mime::Mime;
use http_types::other::{Referer, SourceMap};
use http_types::proxies::Forwarded;
use http_types::security::{ContentSecurityPolicy, TimingAllowOrigin};
use http_types::trace::{Metric, ServerTiming};
use http_types::trailers::Trailers;
use http_types::{Body, Request, Response, Url};
use std::borrow::Cow;
use std::collections::hash_map::DefaultHasher;
use std::convert::{TryFrom, TryInto};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

fn hash<T: Hash>(x: &T) -> u64 {
    let mut s = DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
/// strings around the boundary between ASCII and the rest
fn text(r: &mut Rng) -> String {
    let mut s = match r.below(5) {
        0 => gen::token(r),
        1 => gen::any_ascii(r, 12),
        2 => gen::unicode(r, 12),
        3 => gen::ascii_text(r, 30),
        _ => gen::header_name(r),
    };
    if r.one_in(3) {
        let c = *r.pick(&['\u{7f}', '\u{80}', '\u{e9}', '\u{ff}', '\u{100}', '\u{212a}', '\u{130}', '\u{17f}', '\u{ff21}', '\u{10000}', '\u{feff}', '\u{85}', '\u{a0}']);
        let mut at = r.below(s.len() + 1);
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        s.insert(at, c);
    }
    if !cfg!(miri) && r.one_in(100) {
        // far behind a lot of plain text
        let n = 1usize << r.below(16);
        s.insert_str(0, &gen::from_set(r, "abcXYZ019-", n));
    }
    s
}
fn lower(s: &str) -> String {
    s.bytes().map(|b| b.to_ascii_lowercase() as char).collect()
}

fn names(c: &mut Case) {
    let mut r = c.rng.clone();
    let s = text(&mut r);
    let ascii = s.bytes().all(|b| b < 128);
    let made = [
        HeaderName::from_str(&s).ok(),
        HeaderName::from_bytes(s.clone().into_bytes()).ok(),
        HeaderName::from_string(s.clone()).ok(),
        s.parse::<HeaderName>().ok(),
        quiet(|| HeaderName::from(s.as_str())).ok(),
    ];
    for (i, n) in made.iter().enumerate() {
        c.eq("name", n.as_ref().map(|n| n.as_str().to_string()), if ascii { Some(lower(&s)) } else { None }, &(i, &s));
    }
    if !ascii {
        c.count("refused");
        let a = HeaderName::from_str("x-a").unwrap();
        c.check("compared with other text", a != s.as_str() && a != s, || s.clone());
        c.note(&s);
        return;
    }
    let t = gen::recase(&mut r, &s);
    let other = if r.bool() { t.clone() } else { gen::mutate(&mut r, &t, true) };
    let same = lower(&s) == lower(&other);
    let (a, b) = (made[r.below(5)].clone().unwrap(), HeaderName::from_str(&other).unwrap());
    let ctx = (&s, &other);
    c.eq("equal", (a == b, b == a), (same, same), &ctx);
    c.eq("equal to text", (a == other.as_str(), a == other, a == &other, a == *other.as_str()), (same, same, same, same), &ctx);
    c.eq("hash", hash(&a) == hash(&b), same, &ctx);
    c.eq("display", (format!("{}", a), format!("{:?}", a)), (lower(&s), format!("{:?}", lower(&s))), &ctx);
    c.eq("clone", (a.clone(), HeaderName::from(&a)), (a.clone(), a.clone()), &ctx);
    let mut m = hdrs();
    m.insert(&a, "1").unwrap();
    c.eq("lookup", m.get(&b).is_some(), same, &ctx);
    c.eq("lookup by text", m.get(other.as_str()).is_some(), same, &ctx);
    c.note(ctx);
    c.sample(|| format!("{:?} and {:?}", s, other));
}

fn name_bytes(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut b = if r.bool() { gen::bytes(&mut r, 12) } else { text(&mut r).into_bytes() };
    if !cfg!(miri) && r.one_in(50) {
        let mut long = vec![b'a' + r.below(26) as u8; 1 << r.below(17)];
        long.append(&mut b);
        b = long;
    }
    let ascii = b.iter().all(|x| *x < 128);
    let n = HeaderName::from_bytes(b.clone());
    c.eq("name", n.ok().map(|n| n.as_str().as_bytes().to_vec()), if ascii { Some(b.to_ascii_lowercase()) } else { None }, &b);
    let v = HeaderValue::from_bytes(b.clone());
    c.eq("value", v.ok().map(|v| v.as_str().as_bytes().to_vec()), if ascii { Some(b.clone()) } else { None }, &b);
    c.note(&b);
}

fn values(c: &mut Case) {
    let mut r = c.rng.clone();
    let s = text(&mut r);
    let ascii = s.bytes().all(|b| b < 128);
    let want = if ascii { Some(s.clone()) } else { None };
    let made: Vec<Option<HeaderValue>> = vec![
        HeaderValue::from_str(&s).ok(),
        HeaderValue::try_from(s.as_str()).ok(),
        HeaderValue::from_bytes(s.clone().into_bytes()).ok(),
        s.parse().ok(),
    ];
    for (i, v) in made.iter().enumerate() {
        c.eq("value", v.as_ref().map(|v| v.as_str().to_string()), want.clone(), &(i, &s));
    }
    if let Some(v) = &made[0] {
        c.eq("shown", (format!("{}", v), format!("{:?}", v)), (s.clone(), format!("{:?}", s)), &s);
        let o = text(&mut r);
        c.eq("compared", (*v == *o.as_str(), *v == o.as_str(), *v == o, *v == &o), (s == o, s == o, s == o, s == o), &(&s, &o));
        c.check("self", *v == s && made[1].as_ref() == Some(v) && hash(v) == hash(made[2].as_ref().unwrap()), || s.clone());
        let vs: HeaderValues = v.clone().into();
        c.eq("list", (vs.as_str().to_string(), HeaderValue::from(vs)), (s.clone(), v.clone()), &s);
    }
    // every way of putting text in a message
    let cow: Cow<'_, str> = if r.bool() { Cow::Borrowed(&s) } else { Cow::Owned(s.clone()) };
    let mut m = hdrs();
    let mut q = Request::get("http://a/");
    let mut p = Response::new(200);
    let mut t = Trailers::new();
    m.insert("x-old", "1").unwrap();
    let which = r.below(10);
    let ok = match which {
        0 => m.insert("x-a", s.as_str()).is_ok(),
        1 => m.append("x-a", s.clone()).is_ok(),
        2 => m.insert("x-a", &s).is_ok(),
        3 => m.append("x-a", cow).is_ok(),
        4 => q.insert_header("x-a", s.as_str()).is_ok(),
        5 => q.append_header("x-a", s.as_str()).is_ok(),
        6 => p.insert_header("x-a", s.as_str()).is_ok(),
        7 => p.append_header("x-a", s.as_str()).is_ok(),
        8 => t.insert("x-a", s.as_str()).is_ok(),
        _ => t.append("x-a", s.as_str()).is_ok(),
    };
    c.eq("accepted", ok, ascii, &(which, &s));
    let got = m.get("x-a").or(q.header("x-a")).or(p.header("x-a")).or(t.get("x-a")).map(|v| v.as_str().to_string());
    c.eq("stored", got, want, &(which, &s));
    if !ascii {
        c.count("refused");
        // a tuple of texts is a header as well; its value can only be refused by panicking
        c.check("tuple", quiet(|| ("x-a", s.as_str()).header_value()).is_err(), || s.clone());
        c.check("tuple name", quiet(|| (s.as_str(), "x-a").header_name()).is_err(), || s.clone());
    } else {
        c.eq("tuple", (("x-a", s.as_str()).header_value().as_str().to_string(), (s.as_str(), "").header_name().as_str().to_string()), (s.clone(), lower(&s)), &s);
    }
    c.note(&s);
    c.sample(|| format!("{:?}", s));
}

/// Every text that reaches a typed header comes out as ASCII, or is refused. The signature names the producer and
/// says whether the text that went in was ASCII.
fn producers(c: &mut Case) {
    let mut r = c.rng.clone();
    let s = match r.below(3) {
        0 => gen::ascii_text(&mut r, 20),
        1 => gen::word(&mut r),
        _ => text(&mut r),
    };
    let ascii = s.is_ascii();
    let k = c.idx % 15;
    let mut out: Vec<HeaderValue> = vec![];
    let mut put = |id: &'static str, v: Option<HeaderValue>| {
        out.extend(v);
        id
    };
    let url = || {
        let mut u = Url::parse("https://e.example/").unwrap();
        u.set_path(&s);
        u.set_query(Some(&s));
        u.set_fragment(Some(&s));
        let _ = u.set_username(&s);
        let _ = u.set_password(Some(&s));
        let _ = u.set_host(Some(&s));
        u
    };
    let id = match k {
        0 => {
            // backslashes are the caller's duty to avoid
            let s = s.replace('\\', "/");
            let e = if r.bool() { ETag::new(s.clone()) } else { ETag::new_weak(s.clone()) };
            put("etag", Some(e.header_value()))
        }
        1 => {
            // backslashes are the caller's duty to avoid
            let s = s.replace('\\', "/");
            let e = if r.bool() { ETag::new(s.clone()) } else { ETag::new_weak(s.clone()) };
            if r.bool() {
                let mut l = IfMatch::new();
                l.push(e);
                put("if-match", Some(l.header_value()))
            } else {
                let mut l = IfNoneMatch::new();
                l.push(e);
                put("if-none-match", Some(l.header_value()))
            }
        }
        2 => {
            let mut a = Authorization::new(AuthenticationScheme::Bearer, s.clone());
            if r.bool() {
                a.set_credentials(s.clone());
            }
            put("authorization", Some(a.header_value()))
        }
        3 => {
            let mut a = WwwAuthenticate::new(AuthenticationScheme::Bearer, s.clone());
            if r.bool() {
                a.set_realm(s.clone());
            }
            put("www-authenticate", Some(a.header_value()))
        }
        4 => {
            let a = BasicAuth::new(&s, gen::unicode(&mut r, 8));
            put("basic-auth", Some(a.header_value()))
        }
        5 => {
            let mut f = Forwarded::new();
            match r.below(4) {
                0 => f.add_for(s.as_str()),
                1 => f.set_by(s.as_str()),
                2 => f.set_host(s.as_str()),
                _ => f.set_proto(s.as_str()),
            }
            put("forwarded", Some(f.header_value()))
        }
        6 => {
            let t = match r.below(3) {
                0 => s.clone(),
                1 => format!("for=\"{}\"", s),
                _ => format!("for=a;by={};host=b", s),
            };
            let v = Forwarded::parse(&t).ok().map(|f| f.header_value());
            put("forwarded-parse", v)
        }
        7 => {
            let t = match r.below(3) {
                0 => s.clone(),
                1 => format!("text/plain;a={}", s),
                _ => format!("text/plain;a=\"{}\"", s),
            };
            let m = Mime::from_str(&t).ok();
            match r.below(5) {
                0 => put("mime", m.map(HeaderValue::from)),
                1 => put("mime", m.as_ref().map(HeaderValue::from)),
                2 => put("content-type", m.map(|m| ContentType::new(m).header_value())),
                3 => put(
                    "accept",
                    m.and_then(|m| MediaTypeProposal::new(m, None).ok()).map(|p| {
                        let mut a = Accept::new();
                        a.push(p);
                        a.header_value()
                    }),
                ),
                _ => put(
                    "content-type-of-body",
                    m.and_then(|m| {
                        let mut b = Body::from_string("x".into());
                        b.set_mime(Some(m));
                        let mut q = Response::new(200);
                        q.set_body(b);
                        q.header("content-type").map(|v| v.last().clone())
                    }),
                ),
            }
        }
        8 => {
            let mut k = if r.bool() { Cookie::new("n", s.clone()) } else { Cookie::new(s.clone(), "v") };
            if r.bool() {
                k.set_path(s.clone());
            }
            put("cookie", Some(HeaderValue::from(k)))
        }
        9 => {
            let m = if r.bool() { Metric::new(s.clone(), None, None) } else { Metric::new("n".into(), None, Some(s.clone())) };
            if let Ok(m) = m {
                let mut t = ServerTiming::new();
                t.push(m);
                put("server-timing", Some(t.header_value()))
            } else {
                c.count("refused");
                put("server-timing", None)
            }
        }
        10 => {
            let u = url();
            put("url", Some(match r.below(4) {
                0 => Referer::new(u).header_value(),
                1 => SourceMap::new(u).header_value(),
                2 => ContentLocation::new(u).header_value(),
                _ => {
                    let mut t = TimingAllowOrigin::new();
                    t.push(u);
                    t.header_value()
                }
            }))
        }
        11 => {
            let v = quiet(|| {
                let mut v = Vary::new();
                v.push(s.as_str()).ok();
                v.header_value()
            });
            put("vary", v.ok())
        }
        12 => {
            let v = quiet(|| {
                let mut p = ContentSecurityPolicy::new();
                p.default_src(&s);
                let mut q = Response::new(200);
                p.apply(&mut q);
                q.header("content-security-policy").map(|v| v.last().clone())
            });
            put("content-security-policy", v.ok().flatten())
        }
        13 => {
            let m: Result<http::HeaderValue, _> = http::HeaderValue::from_bytes(s.as_bytes());
            put("hyperium", m.ok().and_then(|m| m.try_into().ok()))
        }
        _ => {
            let v = s.parse::<Url>().ok().map(|u| Referer::new(u).header_value());
            put("referer-text", v)
        }
    };
    for v in &out {
        let t = v.as_str();
        // whatever it holds is at least a string
        c.check("utf-8", std::str::from_utf8(t.as_bytes()).is_ok(), || format!("{:?}", t.as_bytes()));
        if !t.is_ascii() {
            c.fail(format!("{}:{}", id, if ascii { "from ASCII" } else { "from other text" }), format!("{:?} became the value {:?}", s, t));
        }
        c.count(&format!("values:{}", id));
    }
    if out.is_empty() {
        c.count("refused");
    }
    c.note((k, &s));
    c.sample(|| format!("{} {:?} => {:?}", id, s, out));
}

/// every typed header of the crate, built from legal data
fn typed(c: &mut Case) {
    let reg = registry();
    let t = &reg[(c.idx as usize) % reg.len()];
    let b = (t.build)(&mut c.rng);
    for (n, vs) in b.h.iter() {
        c.check("name", n.as_str().is_ascii() && n.as_str() == lower(n.as_str()), || format!("{}: {:?}", t.id, n));
        for v in vs {
            c.check("value", v.as_str().is_ascii(), || format!("{}: {:?}", t.id, v));
        }
    }
    c.note((t.id, &b.desc));
}

macro_rules! constants {
    ($($n:ident),* $(,)?) => { vec![$((stringify!($n), h::$n)),*] }
}
fn constant(c: &mut Case) {
    let all = constants![
        ACCEPT, ACCEPT_CHARSET, ACCEPT_ENCODING, ACCEPT_LANGUAGE, ACCEPT_RANGES, ACCESS_CONTROL_ALLOW_CREDENTIALS, ACCESS_CONTROL_ALLOW_HEADERS,
        ACCESS_CONTROL_ALLOW_METHODS, ACCESS_CONTROL_ALLOW_ORIGIN, ACCESS_CONTROL_EXPOSE_HEADERS, ACCESS_CONTROL_MAX_AGE, ACCESS_CONTROL_REQUEST_HEADERS,
        ACCESS_CONTROL_REQUEST_METHOD, AGE, ALLOW, AUTHORIZATION, CACHE_CONTROL, CLEAR_SITE_DATA, CONNECTION, CONTENT_ENCODING, CONTENT_LANGUAGE,
        CONTENT_LENGTH, CONTENT_LOCATION, CONTENT_MD5, CONTENT_RANGE, CONTENT_TYPE, COOKIE, DATE, ETAG, EXPECT, EXPIRES, FORWARDED, FROM, HOST, IF_MATCH,
        IF_MODIFIED_SINCE, IF_NONE_MATCH, IF_RANGE, IF_UNMODIFIED_SINCE, LAST_MODIFIED, LOCATION, MAX_FORWARDS, ORIGIN, PRAGMA, PROXY_AUTHENTICATE,
        PROXY_AUTHORIZATION, PROXY_CONNECTION, REFERER, RETRY_AFTER, SERVER, SERVER_TIMING, SET_COOKIE, SOURCE_MAP, STRICT_TRANSPORT_SECURITY, TE,
        TIMING_ALLOW_ORIGIN, TRACEPARENT, TRAILER, TRANSFER_ENCODING, UPGRADE, USER_AGENT, VARY, VIA, WARNING, WWW_AUTHENTICATE,
    ];
    for (ident, n) in all {
        let want = if ident == "SOURCE_MAP" { "sourcemap".to_string() } else { ident.to_ascii_lowercase().replace('_', "-") };
        for spelled in [want.clone(), want.to_ascii_uppercase(), gen::recase(&mut c.rng, &want)] {
            let d = HeaderName::from_str(&spelled).unwrap();
            c.check("constant", d == n && n == d && n == spelled.as_str() && hash(&d) == hash(&n) && n.as_str() == want && d.as_str() == want, || format!("{} is {:?}", ident, n));
            let mut m = hdrs();
            m.insert(&n, "1").unwrap();
            m.append(spelled.as_str(), "2").unwrap();
            c.eq("one entry", (m.iter().count(), m.get(&n).map(|v| v.iter().count()), m.get(spelled.as_str()).is_some()), (1, Some(2), true), &(ident, &spelled));
        }
        c.note(ident);
    }
}

/// all single bytes and characters
fn single(c: &mut Case) {
    let n = c.idx as u32;
    if n < 256 {
        let b = vec![n as u8];
        c.eq("name byte", HeaderName::from_bytes(b.clone()).ok().map(|x| x.as_str().as_bytes().to_vec()), if n < 128 { Some(vec![(n as u8).to_ascii_lowercase()]) } else { None }, &n);
        c.eq("value byte", HeaderValue::from_bytes(b.clone()).ok().map(|x| x.as_str().as_bytes().to_vec()), if n < 128 { Some(b) } else { None }, &n);
    }
    if let Some(ch) = char::from_u32(n) {
        let s = ch.to_string();
        c.eq("name char", HeaderName::from_str(&s).ok().map(|x| x.as_str().to_string()), if n < 128 { Some(lower(&s)) } else { None }, &n);
        c.eq("value char", HeaderValue::from_str(&s).ok().map(|x| x.as_str().to_string()), if n < 128 { Some(s) } else { None }, &n);
    }
    c.note(n);
}

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "text and bytes on both sides of the ASCII boundary through every constructor of names and values and every way into a message; pairs of spellings compared, hashed and looked up; arbitrary text through every typed header that takes text, and legal data through all of them; every single character and byte; every header constant; non-trivial: distinct texts",
        assumptions: &["refusing by panicking is accepted where the signature leaves nothing else (From<&str> for HeaderName, header tuples)"],
        subs: vec![
            rand("names", 150_000, 3_000_000, names),
            rand("bytes", 80_000, 1_000_000, name_bytes),
            rand("values", 150_000, 3_000_000, values),
            rand("producers", 150_000, 3_000_000, producers),
            rand("typed", 30_000, 500_000, typed),
            all("single", 0x11_0000, single),
            all("constants", 4, constant),
        ],
    }
}
