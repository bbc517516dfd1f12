//! Registry of the typed headers: how to read one from a message, what a legal field value of it
//! means (independent of the crate), how to build one through the public API, what is malformed.
use crate::gen;
use crate::infra::Rng;
use crate::props::c09_dates::imf;
use crate::props::c10_mime::{model_parse, sorted, MimeModel};
use http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate};
use http_types::cache::{Age, CacheControl, CacheDirective, ClearDirective, ClearSiteData, Expires};
use http_types::conditional::{ETag, IfMatch, IfModifiedSince, IfNoneMatch, IfUnmodifiedSince, LastModified, Vary};
use http_types::content::{Accept, AcceptEncoding, ContentEncoding, ContentLength, ContentLocation, ContentType, MediaTypeProposal};
use http_types::headers::{Header, HeaderName, HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::other::{Date, Expect, Referer, RetryAfter, SourceMap};
use http_types::proxies::Forwarded;
use http_types::security::{StrictTransportSecurity, TimingAllowOrigin};
use http_types::server::Allow;
use http_types::trace::{Metric, ServerTiming, TraceContext};
use http_types::transfer::{TransferEncoding, TE};
use http_types::{content, transfer, Method, Url};
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::str::FromStr;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

pub const BASE: &str = "https://example.net/a/b?x=1";

pub fn hdrs() -> Headers {
    Headers::try_from(http::HeaderMap::new()).unwrap()
}

/// A value read from a message: everything its accessors tell, and the text it writes
#[derive(Debug, Clone, PartialEq)]
pub struct Val {
    pub obs: String,
    pub text: String,
}
#[derive(Debug, Clone, PartialEq)]
pub enum PR {
    Absent,
    Val(Val),
    /// status (None: the error type carries none), message
    Err(Option<u16>, String),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    List,
    /// list whose order carries no information
    Set,
    /// the last line decides
    Single,
    /// `forwarded`
    Fwd,
}

/// A legal element (list headers) or field value (single headers) and what it states.
/// For lists: "" = contributes nothing, "*" = the wildcard.
#[derive(Clone, Debug)]
pub struct El {
    pub text: String,
    pub obs: String,
}
fn el(text: impl Into<String>, obs: impl Into<String>) -> El {
    El { text: text.into(), obs: obs.into() }
}

pub struct Built {
    pub h: Headers,
    pub obs: String,
    /// the field value it must write, compared after `norm`
    pub text: Option<String>,
    pub desc: String,
}

pub struct TH {
    pub id: &'static str,
    pub header: &'static str,
    pub kind: Kind,
    pub parse: fn(&Headers) -> PR,
    pub el: fn(&mut Rng) -> El,
    /// definitely malformed field values
    pub bad: fn(&mut Rng) -> String,
    pub build: fn(&mut Rng) -> Built,
}

/// remove optional white space around list and parameter separators outside quotes
/// `escapes`: a backslash quotes the next character inside quotes (not so in entity tags)
pub fn norm(s: &str, escapes: bool) -> String {
    let mut out = String::new();
    let mut q = false;
    let mut esc = false;
    for c in s.chars() {
        if q {
            out.push(c);
            if esc {
                esc = false;
            } else if escapes && c == '\\' {
                esc = true;
            } else if c == '"' {
                q = false;
            }
        } else if c == ',' || c == ';' {
            while out.ends_with(' ') {
                out.pop();
            }
            out.push(c);
        } else if c == ' ' && (out.ends_with(',') || out.ends_with(';')) {
        } else {
            q = c == '"';
            out.push(c);
        }
    }
    out
}

pub fn list_obs(kind: Kind, els: &[String]) -> String {
    let mut v: Vec<&str> = els.iter().map(|s| s.as_str()).filter(|s| !s.is_empty() && *s != "*").collect();
    if kind == Kind::Set {
        v.sort_unstable();
        v.dedup();
    }
    let wild = els.iter().any(|s| s == "*");
    format!("[{}] wild={}", v.join(" | "), wild)
}

/// Write `h` over an older line of the same header next to another header, and describe what happened.
fn written<H: Header>(h: &H) -> String {
    let name = h.header_name();
    let v = h.header_value();
    let mut m = hdrs();
    let _ = m.append(name.clone(), "older");
    let _ = m.append(name.clone(), "oldest");
    let _ = m.insert("x-other", "other");
    h.apply_header(&mut m);
    let got: Vec<String> = m.get(&name).map(|l| l.iter().map(|v| v.as_str().to_string()).collect()).unwrap_or_default();
    if got.len() != 1 || got[0] != v.as_str() || m.iter().count() != 2 || m.get("x-other").map(|x| x.as_str() != "other").unwrap_or(true) {
        return format!("!apply_header left {:?} instead of {:?}", got, v.as_str());
    }
    // as a header value argument of insert
    let mut m2 = hdrs();
    let _ = m2.insert(name.clone(), h);
    if m2.get(&name).map(|l| l.iter().map(|v| v.as_str()).collect::<Vec<_>>() != vec![v.as_str()]).unwrap_or(true) {
        return "!inserting the header differs from apply_header".into();
    }
    v.as_str().to_string()
}

fn err(e: http_types::Error) -> PR {
    let _ = format!("{:?} {}", e, e);
    PR::Err(Some(e.status() as u16), e.to_string())
}

macro_rules! parse_list {
    ($ty:ty, $h:expr, $item:expr, wild: $wild:expr) => {{
        match <$ty>::from_headers($h) {
            Err(e) => err(e),
            Ok(None) => PR::Absent,
            Ok(Some(mut v)) => {
                let f = $item;
                let w: fn(&$ty) -> bool = $wild;
                let a: Vec<String> = v.iter().map(|e| f(e)).collect();
                let mut obs = format!("[{}] wild={}", a.join(" | "), w(&v));
                let b: Vec<String> = v.iter_mut().map(|e| f(&*e)).collect();
                let c: Vec<String> = (&v).into_iter().map(|e| f(e)).collect();
                let d: Vec<String> = (&mut v).into_iter().map(|e| f(&*e)).collect();
                let (lo, hi) = v.iter().size_hint();
                if a != b || a != c || a != d || lo > a.len() || hi.map_or(false, |h| h < a.len()) || v.iter_mut().size_hint() != (lo, hi) {
                    obs.push_str(" !iterators disagree");
                }
                let _ = format!("{:?}", v);
                let text = written(&v);
                let it = v.into_iter();
                let sh = it.size_hint();
                let e: Vec<String> = it.map(|e| f(&e)).collect();
                if a != e || sh.0 > a.len() || sh.1.map_or(false, |h| h < a.len()) {
                    obs.push_str(" !into_iter disagrees");
                }
                PR::Val(Val { obs, text })
            }
        }
    }};
}
macro_rules! parse_single {
    ($res:expr, |$v:ident| $obs:expr) => {{
        match $res {
            Err(e) => err(e),
            Ok(None) => PR::Absent,
            Ok(Some($v)) => {
                let _ = format!("{:?}", $v);
                let text = written(&$v);
                let obs = $obs;
                PR::Val(Val { obs, text })
            }
        }
    }};
}

fn built<H: Header + std::fmt::Debug>(h: &H, obs: String, text: Option<String>) -> Built {
    let mut m = hdrs();
    h.apply_header(&mut m);
    Built { h: m, obs, text, desc: format!("{:?}", h) }
}

// ---------------------------------------------------------------- small vocabularies

pub fn digits(r: &mut Rng) -> u64 {
    gen::secs(r)
}
fn num_text(r: &mut Rng, n: u64) -> String {
    if r.one_in(6) {
        let zeros = if r.one_in(5) { r.below(60) } else { r.below(3) };
        format!("{}{}", "0".repeat(1 + zeros), n)
    } else {
        n.to_string()
    }
}
/// a word that is nearly, but in no letter case, one of these
pub fn near_miss(r: &mut Rng, words: &[&str]) -> String {
    loop {
        let mut w: Vec<char> = r.pick(words).chars().collect();
        for _ in 0..1 + r.below(2) {
            let at = r.below(w.len() + 1);
            let ch = *r.pick(&['-', '_', 'a', 'e', 's', 'x', '0', '1', '2', '.', '+', '/', '*', '\'', '!']);
            match r.below(4) {
                0 => w.insert(at, ch),
                1 if at < w.len() => w[at] = ch,
                2 if at + 1 < w.len() => w.swap(at, at + 1),
                _ if at < w.len() => {
                    w.remove(at);
                }
                _ => w.push(ch),
            }
        }
        let w: String = w.into_iter().collect();
        if !w.is_empty() && !words.iter().any(|x| x.eq_ignore_ascii_case(&w)) {
            return w;
        }
    }
}
pub fn bad_number(r: &mut Rng) -> String {
    if r.one_in(4) {
        // more than 64 bits hold
        let n = match r.below(4) {
            0 => (u64::MAX as u128) + 1 + r.below(1000) as u128,
            1 => (u64::MAX as u128 + 1) * (1 + r.below(1 << 20) as u128) + r.u64() as u128,
            2 => 10u128.pow(20 + r.below(19) as u32),
            _ => u128::MAX - r.below(3) as u128,
        };
        return format!("{}{}", "0".repeat(if r.one_in(4) { r.below(8) } else { 0 }), n);
    }
    r.pick(&["", "x", "-1", "1.5", "1e3", "0x10", "18446744073709551616", "99999999999999999999999999", "1 2", "1,5", "\"5\"x", "NaN", "--1", "1a", "a1", "+", "-", "1_000", "+5", "+0", "5+", "++1", "\u{b}5x", "0b1", "1.", ".5", "5s", "\\5"]).to_string()
}
pub fn weight_text(r: &mut Rng) -> (String, String) {
    // (spelling, canonical three-digit weight)
    let n = *r.pick(&[0u32, 1, 10, 100, 200, 300, 500, 999, 1000, 333, 125]);
    let full = format!("{}.{:03}", n / 1000, n % 1000);
    let mut s = full.clone();
    if r.bool() {
        while s.ends_with('0') && s.contains('.') {
            s.pop();
        }
        if s.ends_with('.') && r.bool() {
            s.pop();
        }
    }
    (s, full)
}
pub fn quoted(r: &mut Rng, v: &str) -> String {
    let mut s = String::from("\"");
    for c in v.chars() {
        if c == '"' || c == '\\' || r.one_in(12) {
            s.push('\\');
        }
        s.push(c);
    }
    s.push('"');
    s
}
/// text legal inside a quoted string
pub fn qtext(r: &mut Rng) -> String {
    if r.bool() {
        gen::nasty_text(r, 10)
    } else {
        gen::ascii_text(r, 12)
    }
}
pub fn etagc(r: &mut Rng) -> String {
    let n = r.len(10);
    (0..n)
        .map(|_| match r.below(4) {
            0 => *r.pick(&[',', ';', '=', '*', '/', '!', '#', '~', '\'', '-']),
            _ => loop {
                let c = (0x21 + r.below(0x5e)) as u8 as char;
                if c != '"' && c != '\\' {
                    break c;
                }
            },
        })
        .collect()
}
/// a backslash is an ordinary character of an opaque tag
fn etag_any(r: &mut Rng) -> String {
    let mut s = etagc(r);
    if r.one_in(5) {
        let at = r.below(s.len() + 1);
        s.insert(if r.bool() { s.len() } else { at }, '\\');
    }
    s
}
fn etag_el(r: &mut Rng) -> El {
    let s = etag_any(r);
    if r.bool() {
        el(format!("\"{}\"", s), format!("strong {}", s))
    } else {
        el(format!("W/\"{}\"", s), format!("weak {}", s))
    }
}
fn etag_obs(e: &ETag) -> String {
    match e {
        ETag::Strong(s) => format!("{} {}", if e.is_strong() && !e.is_weak() { "strong" } else { "!" }, s),
        ETag::Weak(s) => format!("{} {}", if e.is_weak() && !e.is_strong() { "weak" } else { "!" }, s),
    }
}
fn etag_build(r: &mut Rng) -> (ETag, String) {
    let form = r.below(4);
    // the constructors ask for tags without backslashes
    let s = if form < 2 { etag_any(r) } else { etagc(r) };
    let (e, t) = match form {
        0 => (ETag::Strong(s.clone()), format!("\"{}\"", s)),
        1 => (ETag::Weak(s.clone()), format!("W/\"{}\"", s)),
        2 => (ETag::new(s.clone()), format!("\"{}\"", s)),
        _ => (ETag::new_weak(s.clone()), format!("W/\"{}\"", s)),
    };
    (e, t)
}
fn bad_etag(r: &mut Rng) -> String {
    r.pick(&["abc", "\"abc", "abc\"", "\"", "W/", "W/abc", "w/\"a\"", "\"a b\"", "\"a\"b\"", "W/\"a\"b", "\"a\" \"b\"", "W /\"a\"", "'a'"]).to_string()
}

/// legal media type with parameters; the model comes from the reference parser
pub fn mime_el(r: &mut Rng, wild: bool) -> (String, MimeModel) {
    loop {
        let ty = if wild && r.one_in(4) { "*".to_string() } else { gen::recase(r, "text") };
        let sub = if ty == "*" || (wild && r.one_in(4)) {
            "*".to_string()
        } else {
            match r.below(4) {
                0 => gen::recase(r, "html"),
                1 => gen::recase(r, "vnd.a+json"),
                _ => gen::token(r),
            }
        };
        let mut s = format!("{}/{}", ty, sub);
        let mut used = vec!["q".to_string()];
        for _ in 0..r.len(3) {
            let k = match r.below(4) {
                0 => "charset".to_string(),
                1 => "a".to_string(),
                _ => gen::token(r),
            };
            if used.contains(&k.to_ascii_lowercase()) {
                continue;
            }
            used.push(k.to_ascii_lowercase());
            s.push_str(*r.pick(&[";", "; ", " ; "]));
            s.push_str(&gen::recase(r, &k));
            s.push('=');
            match r.below(4) {
                0 if k == "charset" => s.push_str("utf-8"),
                0 | 1 => {
                    let t = qtext(r);
                    s.push_str(&quoted(r, &t))
                }
                _ => s.push_str(&gen::token(r)),
            }
        }
        if let Some(m) = model_parse(&s) {
            return (s, m);
        }
    }
}
pub fn mime_model_obs(m: &MimeModel) -> String {
    format!("{}/{} {:?}", m.ty, m.sub, sorted(m.params.clone()))
}
/// observe a media type through its printed form and the reference parser
pub fn mime_obs(m: &Mime) -> String {
    let t = m.to_string();
    match model_parse(&t) {
        Some(x) => {
            for (k, v) in &x.params {
                if m.param(k.as_str()).map(|p| p.as_str().to_string()).as_deref() != Some(v.as_str()) {
                    return format!("!parameter {} of {}", k, t);
                }
            }
            if m.basetype() != x.ty || m.subtype() != x.sub {
                return format!("!type of {}", t);
            }
            mime_model_obs(&x)
        }
        None => format!("!unparsable {}", t),
    }
}
fn f3(w: Option<f32>) -> String {
    match w {
        Some(w) => format!("{:.3}", w),
        None => "none".into(),
    }
}
/// a piece of a path, query or fragment, without commas
fn url_piece(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.len(8) {
        s.push_str(*r.pick(&["a", "Z", "0", "+", "-", ".", "_", "~", "!", "$", "&", "'", "(", ")", "*", ";", "=", ":", "@", "%20", "%2F", "%2b", "%25", "%C3%A9", "%00", "|", "^", "[", "]", "{", "}"]));
    }
    s
}
fn url_text(r: &mut Rng) -> String {
    let w = gen::word(r);
    match r.below(9) {
        6 => format!("{}://{}.Example/{}", gen::recase(r, "https"), w, url_piece(r)),
        7 => format!("https://{}:{}@{}.example:{}/?{}", w, w, w, *r.pick(&[80, 443, 8443]), url_piece(r)),
        8 => format!("https://192.0.2.{}/{}/{}?{}#{}", r.below(256), url_piece(r), url_piece(r), url_piece(r), url_piece(r)),
        0 => format!("https://{}.example/", w),
        1 => format!("http://{}.example:{}/p/{}?q={}#f", w, 1 + r.below(65535), gen::word(r), gen::word(r)),
        2 => format!("https://user@{}.example/%20{}", w, w),
        3 => format!("ftp://{}.example/x", w),
        4 => format!("https://[2001:db8::{:x}]:8080/", r.below(65536)),
        _ => format!("https://{}.example/a/../b/{}", w, gen::word(r)),
    }
}
fn rel_text(r: &mut Rng) -> String {
    let w = gen::word(r);
    match r.below(8) {
        5 => format!("/{},{}", url_piece(r), url_piece(r)),
        6 => format!("./{}/{}?{}#{}", w, url_piece(r), url_piece(r), url_piece(r)),
        0 => format!("/{}", w),
        1 => format!("{}.json", w),
        2 => format!("../{}?{}", w, w),
        3 => format!("?{}=1", w),
        4 => format!("//{}.example/z", w),
        _ => url_text(r),
    }
}
fn bad_url(r: &mut Rng) -> String {
    r.pick(&["http://[::1", "https://", "http://a:99999999/", "https://a b/", "http://[zz]/", "htt://<nori ate the tag. yum.>", "https://exa mple.org/", "http://%00/"]).to_string()
}
fn date_secs(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(100_000) as u64,
        1 => 253402300799 - r.below(100_000) as u64,
        2 => 951782400 + r.below(200_000) as u64,
        3 => r.below(4102444800) as u64,
        _ => r.below(253402300799) as u64,
    }
}
fn since(t: SystemTime) -> String {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_secs().to_string(),
        Err(e) => format!("-{}", e.duration().as_secs()),
    }
}
fn bad_date(r: &mut Rng) -> String {
    r.pick(&["", "now", "Sun, 06 Nov 1994", "Sun, 31 Feb 1994 08:49:37 GMT", "Sun, 06 Nov 1994 24:49:37 GMT", "Sun, 06 Nov 1994 08:49:37", "1994-11-06T08:49:37Z", "Sun, 06 Nov 1994 08:49:37 PST", "784111777x"]).to_string()
}
fn date_el(r: &mut Rng) -> El {
    let t = date_secs(r);
    el(imf(t), t.to_string())
}
fn at(t: u64, r: &mut Rng) -> SystemTime {
    UNIX_EPOCH + Duration::new(t, r.below(1_000_000_000) as u32)
}

// ---------------------------------------------------------------- cache-control

fn cd_obs(d: &CacheDirective) -> String {
    use CacheDirective::*;
    let _ = format!("{:?} {} {}", d, d.valid_in_req(), d.valid_in_res());
    match d {
        Immutable => "immutable".into(),
        MaxAge(x) => format!("max-age={}", x.as_secs()),
        MaxStale(None) => "max-stale".into(),
        MaxStale(Some(x)) => format!("max-stale={}", x.as_secs()),
        MinFresh(x) => format!("min-fresh={}", x.as_secs()),
        MustRevalidate => "must-revalidate".into(),
        NoCache => "no-cache".into(),
        NoStore => "no-store".into(),
        NoTransform => "no-transform".into(),
        OnlyIfCached => "only-if-cached".into(),
        Private => "private".into(),
        ProxyRevalidate => "proxy-revalidate".into(),
        Public => "public".into(),
        SMaxAge(x) => format!("s-maxage={}", x.as_secs()),
        StaleIfError(x) => format!("stale-if-error={}", x.as_secs()),
        StaleWhileRevalidate(x) => format!("stale-while-revalidate={}", x.as_secs()),
        _ => "?".into(),
    }
}
const CD_FLAGS: [&str; 9] = ["immutable", "must-revalidate", "no-cache", "no-store", "no-transform", "only-if-cached", "private", "proxy-revalidate", "public"];
const CD_NUM: [&str; 6] = ["max-age", "max-stale", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate"];
fn cc_el(r: &mut Rng) -> El {
    match r.below(8) {
        0 | 1 | 2 => {
            let f = *r.pick(&CD_FLAGS);
            el(gen::recase(r, f), f)
        }
        3 | 4 | 5 => {
            let f = *r.pick(&CD_NUM);
            let n = digits(r);
            el(format!("{}={}", gen::recase(r, f), num_text(r, n)), format!("{}={}", f, n))
        }
        6 => el(gen::recase(r, "max-stale"), "max-stale"),
        // extensions are ignored
        _ => {
            let w = gen::word(r);
            let q = format!("\"{}\"", gen::word(r));
            el(r.pick(&[format!("x-{}", w), format!("x-{}=5", w), format!("x-{}={}", w, q)]).clone(), "")
        }
    }
}
fn cc_build(r: &mut Rng) -> Built {
    use CacheDirective::*;
    let mut v = CacheControl::new();
    let (mut o, mut t) = (vec![], vec![]);
    for _ in 0..r.len(6) {
        let n = digits(r);
        let d = Duration::new(n, r.below(1_000_000_000) as u32);
        let (x, s) = match r.below(16) {
            0 => (Immutable, "immutable".to_string()),
            1 => (MaxAge(d), format!("max-age={}", n)),
            2 => (MaxStale(None), "max-stale".into()),
            3 => (MaxStale(Some(d)), format!("max-stale={}", n)),
            4 => (MinFresh(d), format!("min-fresh={}", n)),
            5 => (MustRevalidate, "must-revalidate".into()),
            6 => (NoCache, "no-cache".into()),
            7 => (NoStore, "no-store".into()),
            8 => (NoTransform, "no-transform".into()),
            9 => (OnlyIfCached, "only-if-cached".into()),
            10 => (Private, "private".into()),
            11 => (ProxyRevalidate, "proxy-revalidate".into()),
            12 => (Public, "public".into()),
            13 => (SMaxAge(d), format!("s-maxage={}", n)),
            14 => (StaleIfError(d), format!("stale-if-error={}", n)),
            _ => (StaleWhileRevalidate(d), format!("stale-while-revalidate={}", n)),
        };
        v.push(x);
        o.push(s.clone());
        t.push(s);
    }
    built(&v, list_obs(Kind::List, &o), Some(t.join(",")))
}

// ---------------------------------------------------------------- lists with a wildcard

fn scheme_of(i: usize) -> (AuthenticationScheme, &'static str) {
    use AuthenticationScheme::*;
    [(Basic, "basic"), (Bearer, "bearer"), (Digest, "digest"), (Hoba, "hoba"), (Mutual, "mutual"), (Negotiate, "negotiate"), (OAuth, "oauth"), (ScramSha1, "scram-sha-1"), (ScramSha256, "scram-sha-256"), (Vapid, "vapid")][i]
}
const SCHEMES: [&str; 10] = ["basic", "bearer", "digest", "hoba", "mutual", "negotiate", "oauth", "scram-sha-1", "scram-sha-256", "vapid"];
fn scheme_obs(s: AuthenticationScheme) -> String {
    let t = s.to_string();
    match AuthenticationScheme::from_str(&t) {
        Ok(x) if x == s => t.to_ascii_lowercase(),
        _ => format!("!{}", t),
    }
}
const METHODS: [&str; 39] = [
    "ACL", "BASELINE-CONTROL", "BIND", "CHECKIN", "CHECKOUT", "CONNECT", "COPY", "DELETE", "GET", "HEAD", "LABEL", "LINK", "LOCK", "MERGE", "MKACTIVITY", "MKCALENDAR",
    "MKCOL", "MKREDIRECTREF", "MKWORKSPACE", "MOVE", "OPTIONS", "ORDERPATCH", "PATCH", "POST", "PRI", "PROPFIND", "PROPPATCH", "PUT", "REBIND", "REPORT", "SEARCH", "TRACE",
    "UNBIND", "UNCHECKOUT", "UNLINK", "UNLOCK", "UPDATE", "UPDATEREDIRECTREF", "VERSION-CONTROL",
];
pub fn methods() -> &'static [&'static str] {
    &METHODS
}
fn dirs() -> [(ClearDirective, &'static str); 4] {
    [(ClearDirective::Cache, "\"cache\""), (ClearDirective::Cookies, "\"cookies\""), (ClearDirective::Storage, "\"storage\""), (ClearDirective::ExecutionContexts, "\"executionContexts\"")]
}
const CENC: [(content::Encoding, &str); 5] = [
    (content::Encoding::Gzip, "gzip"), (content::Encoding::Deflate, "deflate"), (content::Encoding::Brotli, "br"), (content::Encoding::Zstd, "zstd"), (content::Encoding::Identity, "identity"),
];
const TENC: [(transfer::Encoding, &str); 6] = [
    (transfer::Encoding::Chunked, "chunked"), (transfer::Encoding::Gzip, "gzip"), (transfer::Encoding::Deflate, "deflate"), (transfer::Encoding::Brotli, "br"),
    (transfer::Encoding::Zstd, "zstd"), (transfer::Encoding::Identity, "identity"),
];
fn cenc(e: &content::Encoding) -> String {
    CENC.iter().find(|x| x.0 == *e).map(|x| x.1).unwrap_or("?").into()
}
fn tenc(e: &transfer::Encoding) -> String {
    TENC.iter().find(|x| x.0 == *e).map(|x| x.1).unwrap_or("?").into()
}
fn enc_el(r: &mut Rng, names: &[&str]) -> El {
    if r.one_in(7) {
        return el("*", "*");
    }
    let n = *r.pick(names);
    let (n, known) = if r.one_in(8) { ("x-unknown", false) } else { (n, true) };
    match r.below(3) {
        0 => el(n, if known { format!("{} none", n) } else { String::new() }),
        _ => {
            let (w, full) = weight_text(r);
            let sep = *r.pick(&[";", "; ", " ; ", " ;"]);
            el(format!("{}{}{}={}", n, sep, if r.one_in(4) { "Q" } else { "q" }, w), if known { format!("{} {}", n, full) } else { String::new() })
        }
    }
}
fn bad_weight(r: &mut Rng) -> String {
    r.pick(&["1.1", "-0.1", "-1", "2", "x", "", "NaN", "inf", "1e9", "0.5.5", "0,5x", "10", "1.001", "-0.001", "\"0.5\"", "\"1\"", "0.5%", "0.5 x", "=0.5", "1.0001", "00x", "0x1", "infinity", "-inf", "nan", "--0.5", "0..5", "half"]).to_string()
}
fn gen_w(r: &mut Rng) -> Option<f32> {
    match r.below(4) {
        0 => None,
        1 => Some(r.below(1001) as f32 / 1000.0),
        2 => Some(*r.pick(&[0.0, 1.0, 0.5])),
        _ => Some(r.below(11) as f32 / 10.0),
    }
}

// ---------------------------------------------------------------- server timing

fn ms(d: Option<Duration>) -> String {
    match d {
        Some(d) => format!("{}ns", d.as_nanos()),
        None => "-".into(),
    }
}
fn metric_obs(m: &Metric) -> String {
    let _ = format!("{:?}", m);
    format!("{} {} {:?}", m.name(), ms(m.duration()), m.description())
}
fn st_el(r: &mut Rng) -> El {
    let name = gen::token(r);
    let mut s = name.clone();
    let (mut dur, mut desc) = (None, None);
    let mut order: Vec<u8> = vec![];
    if r.bool() {
        order.push(0);
    }
    if r.bool() {
        order.push(1);
    }
    if r.one_in(5) {
        order.push(2);
    }
    r.shuffle(&mut order);
    for o in order {
        s.push_str(*r.pick(&[";", "; ", " ; ", " ;"]));
        match o {
            0 => {
                // exact thousandths of a millisecond
                let us = match r.below(4) {
                    0 => 0,
                    1 => r.below(1000) as u64,
                    _ => r.below(10_000_000_000) as u64,
                };
                let mut t = format!("{}.{:03}", us / 1000, us % 1000);
                if r.bool() {
                    t = t.trim_end_matches('0').trim_end_matches('.').to_string();
                }
                let _ = write!(s, "dur={}", t);
                dur = Some(Duration::from_micros(us));
            }
            1 => {
                if r.bool() {
                    let t = qtext(r);
                    s.push_str("desc=");
                    s.push_str(&quoted(r, &t));
                    desc = Some(t);
                } else {
                    let t = gen::token(r);
                    s.push_str("desc=");
                    s.push_str(&t);
                    desc = Some(t);
                }
            }
            _ => s.push_str("x-ext=1"),
        }
    }
    el(s, format!("{} {} {:?}", name, ms(dur), desc.as_deref()))
}
fn st_build(r: &mut Rng) -> Built {
    let mut v = ServerTiming::new();
    let mut o = vec![];
    for _ in 0..r.len(5) {
        let name = gen::token(r);
        let dur = match r.below(5) {
            0 => None,
            1 => Some(Duration::from_nanos(r.below(1000) as u64)),
            2 => Some(Duration::new(r.below(10) as u64, r.below(1_000_000_000) as u32)),
            3 => Some(Duration::from_millis(r.below(100_000) as u64)),
            _ => Some(Duration::from_micros(r.below(1_000_000_000) as u64)),
        };
        let desc = if r.bool() { Some(qtext(r)) } else { None };
        o.push(format!("{} {} {:?}", name, ms(dur), desc.as_deref()));
        match Metric::new(name, dur, desc) {
            Ok(m) => v.push(m),
            Err(_) => o.push("!refused".into()),
        }
    }
    built(&v, list_obs(Kind::List, &o), None)
}

// ---------------------------------------------------------------- forwarded

fn fwd_node(r: &mut Rng) -> String {
    match r.below(7) {
        0 => "127.0.0.1".into(),
        1 => "192.0.2.43:47011".into(),
        2 => "[2001:db8:cafe::17]:4711".into(),
        3 => "unknown".into(),
        4 => "_gazonk".into(),
        5 => gen::token(r),
        _ => {
            let n = 1 + r.below(10);
            (0..n).map(|_| (0x20 + r.below(0x5f)) as u8 as char).collect()
        }
    }
}
fn fwd_val(r: &mut Rng, v: &str) -> String {
    let tok = !v.is_empty() && v.chars().all(|c| gen::TCHAR.contains(c));
    if tok && !r.one_in(4) {
        v.to_string()
    } else {
        quoted(r, v)
    }
}
pub fn fwd_obs(f: &Forwarded) -> String {
    format!("for={:?} by={:?} host={:?} proto={:?}", f.forwarded_for(), f.by(), f.host(), f.proto())
}
/// one legal field value in the form the crate supports: the for elements together, then by/host/proto
fn fwd_el(r: &mut Rng) -> El {
    let n = r.len(3);
    let fors: Vec<String> = (0..n).map(|_| fwd_node(r)).collect();
    let by = if r.one_in(3) { Some(fwd_node(r)) } else { None };
    let host = if r.bool() { Some(r.pick(&["example.com", "example.com:8080", "[::1]:80", "a b"]).to_string()) } else { None };
    let proto = if r.bool() { Some(r.pick(&["http", "https", "HTTPS"]).to_string()) } else { None };
    let mut parts: Vec<String> = vec![];
    if n > 0 {
        let v: Vec<String> = fors.iter().map(|f| format!("{}={}", gen::recase(r, "for"), fwd_val(r, f))).collect();
        parts.push(v.join(*r.pick(&[",", ", "])));
    }
    if let Some(x) = &by {
        parts.push(format!("{}={}", gen::recase(r, "by"), fwd_val(r, x)));
    }
    if let Some(x) = &host {
        parts.push(format!("{}={}", gen::recase(r, "host"), fwd_val(r, x)));
    }
    if let Some(x) = &proto {
        parts.push(format!("{}={}", gen::recase(r, "proto"), fwd_val(r, x)));
    }
    if r.one_in(6) {
        parts.push("ext=1".into());
    }
    r.shuffle(&mut parts);
    el(parts.join(";"), format!("for={:?} by={:?} host={:?} proto={:?}", fors, by.as_deref(), host.as_deref(), proto.as_deref()))
}
fn fwd_parse(h: &Headers) -> PR {
    match Forwarded::from_headers(h) {
        Err(e) => PR::Err(None, format!("{:?} {}", e, e)),
        Ok(None) => PR::Absent,
        Ok(Some(f)) => {
            let _ = format!("{:?} {}", f, f);
            let mut obs = fwd_obs(&f);
            let text = written(&f);
            if f.clone().into_owned() != f {
                obs.push_str(" !into_owned");
            }
            PR::Val(Val { obs, text })
        }
    }
}

// ---------------------------------------------------------------- registry

pub fn registry() -> Vec<TH> {
    let mut v: Vec<TH> = vec![];
    type El1 = fn(&mut Rng) -> El;
    type Bad1 = fn(&mut Rng) -> String;
    type Build1 = fn(&mut Rng) -> Built;
    let mut add = |id: &'static str, header: &'static str, kind: Kind, parse: fn(&Headers) -> PR, el: El1, bad: Bad1, build: Build1| v.push(TH { id, header, kind, parse, el, bad, build });
    use Kind::*;

    add("cache-control", "cache-control", List,
        |h| parse_list!(CacheControl, h, |e: &CacheDirective| { let t: HeaderValue = e.clone().into(); let _ = t; cd_obs(e) }, wild: |_| false),
        cc_el,
        |r| match r.below(6) {
            // an argument that must be there is not
            0 => gen::recase(r, *r.clone().pick(&["max-age", "min-fresh", "s-maxage", "stale-if-error", "stale-while-revalidate"])),
            _ => format!("{}={}", r.pick(&CD_NUM), bad_number(r).replace(',', "x")),
        },
        cc_build);

    add("age", "age", Single,
        |h| parse_single!(Age::from_headers(h), |v| v.duration().as_secs().to_string()),
        |r| { let n = digits(r); el(num_text(r, n), n.to_string()) },
        bad_number,
        |r| {
            let n = digits(r);
            let v = if r.bool() { Age::from_secs(n) } else { Age::new(Duration::new(n, r.below(1_000_000_000) as u32)) };
            built(&v, n.to_string(), Some(n.to_string()))
        });

    add("expires", "expires", Single,
        |h| parse_single!(Expires::from_headers(h), |v| since(v.expiration())),
        date_el, bad_date,
        |r| { let t = date_secs(r); let v = Expires::new_at(at(t, r)); built(&v, t.to_string(), Some(imf(t))) });
    add("date", "date", Single,
        |h| parse_single!(Date::from_headers(h), |v| since(SystemTime::from(v))),
        date_el, bad_date,
        |r| { let t = date_secs(r); let v = if r.bool() { Date::new(at(t, r)) } else { Date::from(at(t, r)) }; built(&v, t.to_string(), Some(imf(t))) });
    add("last-modified", "last-modified", Single,
        |h| parse_single!(LastModified::from_headers(h), |v| since(v.modified())),
        date_el, bad_date,
        |r| { let t = date_secs(r); let v = LastModified::new(at(t, r)); built(&v, t.to_string(), Some(imf(t))) });
    add("if-modified-since", "if-modified-since", Single,
        |h| parse_single!(IfModifiedSince::from_headers(h), |v| since(v.modified())),
        date_el, bad_date,
        |r| { let t = date_secs(r); let v = IfModifiedSince::new(at(t, r)); built(&v, t.to_string(), Some(imf(t))) });
    add("if-unmodified-since", "if-unmodified-since", Single,
        |h| parse_single!(IfUnmodifiedSince::from_headers(h), |v| since(v.modified())),
        date_el, bad_date,
        |r| { let t = date_secs(r); let v = IfUnmodifiedSince::new(at(t, r)); built(&v, t.to_string(), Some(imf(t))) });

    add("clear-site-data", "clear-site-data", List,
        |h| parse_list!(ClearSiteData, h, |e: &ClearDirective| format!("{} {}", e, e.as_str()), wild: |v| v.wildcard()),
        |r| {
            if r.one_in(5) {
                return el("\"*\"", "*");
            }
            let d = r.pick(&dirs()).1;
            el(d, format!("{} {}", d, d))
        },
        |r| if r.bool() { format!("\"{}\"", near_miss(r, &["cache", "cookies", "storage", "executionContexts", "*"])) } else { r.pick(&["cache", "\"cach\"", "\"cache\" \"cookies\"", "*", "\"Cache\"x", "\"cache", "\"\"", "nonsense", "\"executioncontext\""]).to_string() },
        |r| {
            let mut v = ClearSiteData::new();
            let (mut o, mut t) = (vec![], vec![]);
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let (d, s) = *r.pick(&dirs());
                v.push(d);
                o.push(format!("{} {}", s, s));
                t.push(s.to_string());
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
                t.push("\"*\"".into());
            }
            built(&v, list_obs(List, &o), Some(t.join(",")))
        });

    add("etag", "etag", Single,
        |h| parse_single!(ETag::from_headers(h), |v| etag_obs(&v)),
        etag_el, bad_etag,
        |r| { let (e, t) = etag_build(r); let o = etag_obs(&e); built(&e, o, Some(t)) });

    add("if-match", "if-match", List,
        |h| parse_list!(IfMatch, h, etag_obs, wild: |v| v.wildcard()),
        |r| if r.one_in(6) { el("*", "*") } else { etag_el(r) },
        bad_etag,
        |r| {
            let mut v = IfMatch::new();
            let (mut o, mut t) = (vec![], vec![]);
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let (e, s) = etag_build(r);
                o.push(etag_obs(&e));
                t.push(s);
                v.push(e);
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
                t.push("*".into());
            }
            built(&v, list_obs(List, &o), Some(t.join(",")))
        });
    add("if-none-match", "if-none-match", List,
        |h| parse_list!(IfNoneMatch, h, etag_obs, wild: |v| v.wildcard()),
        |r| if r.one_in(6) { el("*", "*") } else { etag_el(r) },
        bad_etag,
        |r| {
            let mut v = IfNoneMatch::new();
            let (mut o, mut t) = (vec![], vec![]);
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let (e, s) = etag_build(r);
                o.push(etag_obs(&e));
                t.push(s);
                v.push(e);
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
                t.push("*".into());
            }
            built(&v, list_obs(List, &o), Some(t.join(",")))
        });

    add("vary", "vary", List,
        |h| parse_list!(Vary, h, |e: &HeaderName| format!("{} {}", e, e.as_str()), wild: |v| v.wildcard()),
        |r| {
            if r.one_in(6) {
                return el("*", "*");
            }
            let n = loop { let n = gen::header_name(r); if n != "*" { break n; } };
            let l = n.to_ascii_lowercase();
            el(n, format!("{} {}", l, l))
        },
        |_| String::new(), // every ASCII text is taken as a name
        |r| {
            let mut v = Vary::new();
            let (mut o, mut t) = (vec![], vec![]);
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let n = loop { let n = gen::header_name(r); if n != "*" { break n; } };
                let l = n.to_ascii_lowercase();
                if v.push(n.as_str()).is_err() {
                    o.push("!refused".into());
                }
                o.push(format!("{} {}", l, l));
                t.push(l);
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
                t.push("*".into());
            }
            built(&v, list_obs(List, &o), Some(t.join(",")))
        });

    add("allow", "allow", Set,
        |h| match Allow::from_headers(h) {
            Err(e) => err(e),
            Ok(None) => PR::Absent,
            Ok(Some(v)) => {
                let mut a: Vec<String> = v.iter().map(|m| m.to_string()).collect();
                let mut obs = String::new();
                for m in METHODS {
                    let x = Method::from_str(m).unwrap();
                    if v.contains(x) != a.iter().any(|s| s == m) {
                        obs.push_str(" !contains disagrees");
                    }
                }
                a.sort();
                let mut b: Vec<String> = (&v).into_iter().map(|m| m.to_string()).collect();
                b.sort();
                let _ = format!("{:?}", v);
                let text = written(&v);
                let mut c: Vec<String> = v.into_iter().map(|m| m.to_string()).collect();
                c.sort();
                if a != b || a != c {
                    obs.push_str(" !iterators disagree");
                }
                PR::Val(Val { obs: format!("[{}] wild=false{}", a.join(" | "), obs), text })
            }
        },
        |r| { let m = *r.pick(&METHODS); el(gen::recase(r, m), m) },
        |r| if r.bool() { near_miss(r, &METHODS) } else { r.pick(&["GETT", "G E T", "*", "GET POST", "get;post", "foo", "GET/1", "-"]).to_string() },
        |r| {
            let mut v = Allow::new();
            let mut o = vec![];
            for _ in 0..r.len(6) {
                let m = *r.pick(&METHODS);
                v.insert(Method::from_str(m).unwrap());
                o.push(m.to_string());
            }
            built(&v, list_obs(Set, &o), None)
        });

    add("accept", "accept", List,
        |h| {
            let _ = Accept::from_headers(h).map(|a| a.map(|mut a| {
                a.sort();
                let _ = a.negotiate(&[http_types::mime::JSON, http_types::mime::HTML]);
                let _ = a.negotiate(&[]);
            }));
            parse_list!(Accept, h, |e: &MediaTypeProposal| format!("{} {}", mime_obs(e.media_type()), f3(e.weight())), wild: |v| v.wildcard())
        },
        |r| {
            if r.one_in(7) {
                return el("*", "*");
            }
            let (mut s, m) = mime_el(r, true);
            let mut w = "1.000".to_string();
            if r.bool() {
                let (t, full) = weight_text(r);
                s.push_str(&format!("{}{}={}", r.pick(&[";", "; ", " ;"]), if r.one_in(4) { "Q" } else { "q" }, t));
                w = full;
            }
            el(s, format!("{} {}", mime_model_obs(&m), w))
        },
        |r| match r.below(3) {
            0 => format!("text/html;q={}", loop { let w = bad_weight(r); if !w.is_empty() && !w.contains(',') && !w.contains('"') { break w; } }),
            _ => r.pick(&["text", "/html", "text/", "text html", "te(xt/html", "text/ht ml", ";q=1"]).to_string(),
        },
        |r| {
            let mut v = Accept::new();
            let mut o = vec![];
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let (s, m) = mime_el(r, true);
                let w = gen_w(r);
                let mime = Mime::from_str(&s).unwrap();
                let p = MediaTypeProposal::new(mime, w).unwrap();
                v.push(p);
                o.push(format!("{} {}", mime_model_obs(&m), f3(Some(w.unwrap_or(1.0)))));
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
            }
            built(&v, list_obs(List, &o), None)
        });

    add("accept-encoding", "accept-encoding", List,
        |h| {
            let _ = AcceptEncoding::from_headers(h).map(|a| a.map(|mut a| {
                a.sort();
                let _ = a.negotiate(&[content::Encoding::Gzip, content::Encoding::Identity]);
                let _ = a.negotiate(&[]);
            }));
            parse_list!(AcceptEncoding, h, |e: &content::EncodingProposal| format!("{} {}", cenc(e.encoding()), f3(e.weight())), wild: |v| v.wildcard())
        },
        |r| enc_el(r, &["gzip", "deflate", "br", "zstd", "identity"]),
        |r| format!("gzip;q={}", bad_weight(r).replace(',', "")),
        |r| {
            let mut v = AcceptEncoding::new();
            let (mut o, mut t) = (vec![], vec![]);
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let (e, s) = *r.pick(&CENC);
                let w = gen_w(r);
                if w.is_none() && r.bool() { v.push(e) } else { v.push(content::EncodingProposal::new(e, w).unwrap()) }
                o.push(format!("{} {}", s, f3(w)));
                t.push(match w { None => s.to_string(), w => format!("{};q={}", s, f3(w)) });
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
                t.push("*".into());
            }
            built(&v, list_obs(List, &o), Some(t.join(",")))
        });
    add("te", "te", List,
        |h| {
            let _ = TE::from_headers(h).map(|a| a.map(|mut a| {
                a.sort();
                let _ = a.negotiate(&[transfer::Encoding::Gzip, transfer::Encoding::Identity]);
                let _ = a.negotiate(&[]);
            }));
            parse_list!(TE, h, |e: &transfer::EncodingProposal| format!("{} {}", tenc(e.encoding()), f3(e.weight())), wild: |v| v.wildcard())
        },
        |r| enc_el(r, &["chunked", "gzip", "deflate", "br", "zstd", "identity"]),
        |r| format!("gzip;q={}", bad_weight(r).replace(',', "")),
        |r| {
            let mut v = TE::new();
            let (mut o, mut t) = (vec![], vec![]);
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let (e, s) = *r.pick(&TENC);
                let w = gen_w(r);
                if w.is_none() && r.bool() { v.push(e) } else { v.push(transfer::EncodingProposal::new(e, w).unwrap()) }
                o.push(format!("{} {}", s, f3(w)));
                t.push(match w { None => s.to_string(), w => format!("{};q={}", s, f3(w)) });
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
                t.push("*".into());
            }
            built(&v, list_obs(List, &o), Some(t.join(",")))
        });

    add("authorization", "authorization", Single,
        |h| parse_single!(Authorization::from_headers(h), |v| format!("{} {:?}", scheme_obs(v.scheme()), v.credentials())),
        |r| {
            let n = r.below(10);
            let (_, s) = scheme_of(n);
            let cr = gen::ascii_text(r, 14);
            let cr = cr.trim_start().to_string();
            el(format!("{} {}", gen::recase(r, s), cr), format!("{} {:?}", s, cr))
        },
        |r| if r.bool() { format!("{} abc", near_miss(r, &SCHEMES)) } else { r.pick(&["", "Basic", "Foo abc", "Basi c", "<nori ate the tag. yum.>", "Basic:abc"]).to_string() },
        |r| {
            let n = r.below(10);
            let (s, t) = scheme_of(n);
            let cr = gen::ascii_text(r, 14);
            let mut v = Authorization::new(s, cr.clone());
            if r.bool() {
                v.set_credentials("other".into());
                v.set_credentials(cr.clone());
                v.set_scheme(AuthenticationScheme::Digest);
                v.set_scheme(s);
            }
            built(&v, format!("{} {:?}", t, cr), None)
        });
    add("basic-auth", "authorization", Single,
        |h| {
            // whatever it says, credentials are also parsed directly
            parse_single!(BasicAuth::from_headers(h), |v| format!("{:?} {:?}", v.username(), v.password()))
        },
        |r| {
            let u = gen::unicode(r, 8).replace(':', "");
            let p = gen::unicode(r, 8);
            el(format!("{} {}", gen::recase(r, "Basic"), base64(format!("{}:{}", u, p).as_bytes())), format!("{:?} {:?}", u, p))
        },
        |r| r.pick(&["", "Basic", "Bearer abc", "Basic !!!!", "Basic YQ==", "Basic YTpi=", "Basic /w==", "Basic OjqA", "Foo YTpi"]).to_string(),
        |r| {
            let u = gen::unicode(r, 8).replace(':', "");
            let p = gen::unicode(r, 8);
            let v = BasicAuth::new(&u, &p);
            let t = format!("Basic {}", base64(format!("{}:{}", u, p).as_bytes()));
            built(&v, format!("{:?} {:?}", u, p), Some(t))
        });
    add("www-authenticate", "www-authenticate", Single,
        |h| parse_single!(WwwAuthenticate::from_headers(h), |v| format!("{} {:?}", scheme_obs(v.scheme()), v.realm())),
        |r| {
            let n = r.below(10);
            let (_, s) = scheme_of(n);
            let realm = qtext(r);
            let q = quoted(r, &realm);
            el(format!("{} realm={}{}", gen::recase(r, s), q, r.pick(&["", ", charset=\"UTF-8\""])), format!("{} {:?}", s, realm))
        },
        |r| if r.bool() { format!("{} realm=\"x\"", near_miss(r, &SCHEMES)) } else { r.pick(&["", "Basic", "Foo realm=\"x\"", "Basic realm=\"x", "Basic charset=\"UTF-8\"", "Basic realm", "realm=\"x\"", "<nori ate the tag. yum.>"]).to_string() },
        |r| {
            let n = r.below(10);
            let (s, t) = scheme_of(n);
            let realm = qtext(r);
            let mut v = WwwAuthenticate::new(s, realm.clone());
            if r.bool() {
                v.set_realm("other".into());
                v.set_realm(realm.clone());
                v.set_scheme(AuthenticationScheme::Digest);
                v.set_scheme(s);
            }
            built(&v, format!("{} {:?}", t, realm), None)
        });

    add("content-encoding", "content-encoding", Single,
        |h| parse_single!(ContentEncoding::from_headers(h), |v| { let _ = *v; cenc(&v.encoding()) }),
        |r| { let e = r.pick(&CENC).1; el(e, e) },
        |r| if r.bool() { near_miss(r, &["gzip", "deflate", "br", "zstd", "identity"]) } else { r.pick(&["", "x", "gzipp", "gz ip", "gzip;q=1", "*", "compress", "gzip br"]).to_string() },
        |r| { let (e, s) = *r.pick(&CENC); let v = if r.bool() { ContentEncoding::new(e) } else { ContentEncoding::from(e) }; built(&v, s.into(), Some(s.into())) });
    add("transfer-encoding", "transfer-encoding", Single,
        |h| parse_single!(TransferEncoding::from_headers(h), |v| { let _ = *v; tenc(&v.encoding()) }),
        |r| { let e = r.pick(&TENC).1; el(e, e) },
        |r| if r.bool() { near_miss(r, &["gzip", "deflate", "br", "zstd", "identity", "chunked"]) } else { r.pick(&["", "x", "gzipp", "gz ip", "chunked;q=1", "*", "compress", "gzip br"]).to_string() },
        |r| { let (e, s) = *r.pick(&TENC); let v = if r.bool() { TransferEncoding::new(e) } else { TransferEncoding::from(e) }; built(&v, s.into(), Some(s.into())) });
    add("content-length", "content-length", Single,
        |h| parse_single!(ContentLength::from_headers(h), |v| v.len().to_string()),
        |r| { let n = digits(r); el(num_text(r, n), n.to_string()) },
        bad_number,
        |r| {
            let n = digits(r);
            let mut v = ContentLength::new(n);
            if r.bool() {
                v = ContentLength::new(digits(r));
                if r.bool() { v.set_len(digits(r)); }
                v.set_len(n);
            }
            built(&v, n.to_string(), Some(n.to_string()))
        });
    add("content-location", "content-location", Single,
        |h| parse_single!(ContentLocation::from_headers(Url::parse(BASE).unwrap(), h), |v| v.location().to_string()),
        |r| { let t = rel_text(r); let u = Url::parse(BASE).unwrap().join(&t).unwrap().to_string(); el(t, u) },
        bad_url,
        |r| { let u = Url::parse(&url_text(r)).unwrap(); let mut v = ContentLocation::new(u.clone()); if r.bool() { v.set_location("https://x.example/y"); v.set_location(u.as_str()); } built(&v, u.to_string(), Some(u.to_string())) });
    add("referer", "referer", Single,
        |h| parse_single!(Referer::from_headers(Url::parse(BASE).unwrap(), h), |v| v.location().to_string()),
        |r| { let t = rel_text(r); let u = Url::parse(BASE).unwrap().join(&t).unwrap().to_string(); el(t, u) },
        bad_url,
        |r| { let u = Url::parse(&url_text(r)).unwrap(); let mut v = Referer::new(u.clone()); if r.bool() { v.set_location("https://x.example/y").unwrap(); v.set_location(u.as_str()).unwrap(); } built(&v, u.to_string(), Some(u.to_string())) });
    add("source-map", "sourcemap", Single,
        |h| parse_single!(SourceMap::from_headers(Url::parse(BASE).unwrap(), h), |v| v.location().to_string()),
        |r| { let t = rel_text(r); let u = Url::parse(BASE).unwrap().join(&t).unwrap().to_string(); el(t, u) },
        bad_url,
        |r| { let u = Url::parse(&url_text(r)).unwrap(); let mut v = SourceMap::new(u.clone()); if r.bool() { v.set_location("https://x.example/y").unwrap(); v.set_location(u.as_str()).unwrap(); } built(&v, u.to_string(), Some(u.to_string())) });
    add("content-type", "content-type", Single,
        |h| parse_single!(ContentType::from_headers(h), |v| {
            let t = v.header_value();
            match Mime::from_str(t.as_str()) {
                Ok(m) if v == m => mime_obs(&m),
                _ => format!("!{}", t),
            }
        }),
        |r| { let (s, m) = mime_el(r, false); el(s, mime_model_obs(&m)) },
        |r| r.pick(&["", "text", "/html", "text/", "text html", "te(xt/html", "text/ht ml", ";q=1", "text /html"]).to_string(),
        |r| {
            let (s, m) = mime_el(r, false);
            let mime = Mime::from_str(&s).unwrap();
            let v = if r.bool() { ContentType::new(mime) } else { ContentType::from(mime) };
            built(&v, mime_model_obs(&m), None)
        });
    add("retry-after", "retry-after", Single,
        |h| parse_single!(RetryAfter::from_headers(h), |v| {
            let t = v.header_value().to_string();
            let sys = SystemTime::from(v.clone());
            let _ = v.duration_since(UNIX_EPOCH);
            let _ = v.duration_since(SystemTime::now());
            let _ = v == v.clone() && v <= v.clone();
            if t.bytes().all(|b| b.is_ascii_digit()) { format!("delay {}", t) } else { format!("at {}", since(sys)) }
        }),
        |r| if r.bool() { let n = digits(r); el(num_text(r, n), format!("delay {}", n)) } else { let t = date_secs(r); el(imf(t), format!("at {}", t)) },
        |r| loop { let s = if r.bool() { bad_date(r) } else { bad_number(r) }; if s != "784111777x" { break s; } },
        |r| if r.bool() {
            let n = digits(r);
            built(&RetryAfter::new(Duration::new(n, r.below(1_000_000_000) as u32)), format!("delay {}", n), Some(n.to_string()))
        } else {
            let t = date_secs(r);
            let v = RetryAfter::new_at(at(t, r));
            built(&v, format!("at {}", t), Some(imf(t)))
        });
    add("expect", "expect", Single,
        |h| parse_single!(Expect::from_headers(h), |v| { let _ = v == Expect::new(); "continue".to_string() }),
        |_| el("100-continue", "continue"),
        |r| if r.bool() { near_miss(r, &["100-continue"]) } else { r.pick(&["", "100", "100-continue2", "continue", "200-ok"]).to_string() },
        |_| built(&Expect::new(), "continue".into(), Some("100-continue".into())));
    add("hsts", "strict-transport-security", Single,
        |h| parse_single!(StrictTransportSecurity::from_headers(h), |v| {
            let o = format!("{} {} {}", v.max_age().as_secs(), v.include_subdomains(), v.preload());
            let d: Duration = v.into();
            format!("{} {}", o, d.as_secs())
        }),
        |r| {
            let n = digits(r);
            let (i, p) = (r.bool(), r.bool());
            let q = r.one_in(5);
            let nt = num_text(r, n);
            let mut parts = vec![format!("{}={}", gen::recase(r, "max-age"), if q { format!("\"{}\"", nt) } else { nt })];
            if i { parts.push(gen::recase(r, "includeSubDomains")); }
            if p { parts.push(gen::recase(r, "preload")); }
            if r.one_in(4) { parts.push("x-ext=1".into()); }
            r.shuffle(&mut parts);
            el(parts.join(*r.pick(&[";", "; ", " ; "])), format!("{} {} {} {}", n, i, p, n))
        },
        |r| match r.below(4) { 1 => { let n = digits(r); match r.below(3) { 0 => format!("max-age={}\"", n), 1 => format!("max-age=\"{}", n), _ => format!("{}={}", near_miss(r, &["max-age"]), n) } } 0 => format!("max-age={}", loop { let b = bad_number(r); if !b.contains('"') { break b; } }), _ => r.pick(&["", "includeSubDomains", "preload", "max-age", "maxage=5", "5"]).to_string() },
        |r| {
            let n = digits(r);
            let (i, p) = (r.bool(), r.bool());
            let d = Duration::new(n, r.below(1_000_000_000) as u32);
            let mut v = match r.below(3) { 0 => StrictTransportSecurity::new(d), 1 => StrictTransportSecurity::from(d), _ => { let mut v = StrictTransportSecurity::default(); v.set_max_age(d); v } };
            let (i, p) = (
                if r.bool() { if r.one_in(3) { v.set_include_subdomains(r.bool()); } v.set_include_subdomains(i); i } else { v.include_subdomains() },
                if r.bool() { if r.one_in(3) { v.set_preload(r.bool()); } v.set_preload(p); p } else { v.preload() },
            );
            if r.one_in(4) { v.set_max_age(Duration::new(digits(r), 0)); v.set_max_age(d); }
            built(&v, format!("{} {} {} {}", n, i, p, n), None)
        });
    add("timing-allow-origin", "timing-allow-origin", List,
        |h| parse_list!(TimingAllowOrigin, h, |e: &Url| e.to_string(), wild: |v| v.wildcard()),
        |r| if r.one_in(6) { el("*", "*") } else { let t = url_text(r); let u = Url::parse(&t).unwrap().to_string(); el(t, u) },
        |r| r.pick(&["server; <nori ate your param omnom>", "example.com", "/x", "http://[::1", "https://a b/"]).to_string(),
        |r| {
            let mut v = TimingAllowOrigin::new();
            let (mut o, mut t) = (vec![], vec![]);
            let early = r.one_in(4);
            if early { v.set_wildcard(true); }
            for _ in 0..r.len(5) {
                let u = Url::parse(&url_text(r)).unwrap();
                o.push(u.to_string());
                t.push(u.to_string());
                v.push(u);
            }
            if set_wildcard(r, early, |w| v.set_wildcard(w)) {
                o.push("*".into());
                t.push("*".into());
            }
            built(&v, list_obs(List, &o), Some(t.join(",")))
        });
    add("server-timing", "server-timing", List,
        |h| parse_list!(ServerTiming, h, metric_obs, wild: |_| false),
        st_el,
        |r| if r.one_in(4) {
            // seconds that need more than 64 bits
            let ms = (u64::MAX as u128 + 1) * 1000 * (1 + if r.bool() { 0 } else { r.below(1 << 20) as u128 });
            format!("a;{}={}", "dur", if r.bool() { ms.to_string() } else { format!("{:e}", ms as f64) })
        } else { r.pick(&["a;dur=x", "a;dur=-1", "a;dur=NaN", "a;dur=inf", "a;dur=1e400", "a;desc=\"x", "a;", "a;dur", "a;dur=-0.5", "a;dur=1e300", "server; <nori ate your param omnom>"]).to_string() },
        st_build);
    add("traceparent", "traceparent", Single,
        |h| parse_single!(TraceContext::from_headers(h), |v| {
            let o = format!("{:02x} {:032x} {:?} {}", v.version(), v.trace_id(), v.parent_id(), v.sampled());
            let ch = v.child();
            if ch.trace_id() != v.trace_id() || ch.parent_id() != Some(v.id()) || ch.version() != v.version() || ch.sampled() != v.sampled() {
                format!("{} !child", o)
            } else {
                o
            }
        }),
        |r| {
            let ver = r.below(255) as u8;
            let t = trace_id(r);
            let p = r.u64();
            let f = r.below(256) as u8;
            el(format!("{:02x}-{:032x}-{:016x}-{:02x}", ver, t, p, f), format!("{:02x} {:032x} {:?} {}", ver, t, Some(p), f & 1 == 1))
        },
        |r| r.pick(&[
            "", "00", "00-", "00-0af7651916cd43dd8448eb211c80319c", "00-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7",
            "xx-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-01", "00-0af7651916cd43dd8448eb211c80319g-00f067aa0ba902b7-01",
            "00-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902bg-01", "00-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-0g",
            "100-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-01", "garbage", "----",
            "00-fffffffffffffffffffffffffffffffff-00f067aa0ba902b7-01", "00-0af7651916cd43dd8448eb211c80319c-fffffffffffffffff-01",
        ]).to_string(),
        |r| {
            // the id is fresh on both sides: what is carried is version, trace id, sampled
            let mut v = TraceContext::new();
            for _ in 0..r.below(3) { v = v.child(); }
            for _ in 0..r.below(3) { v.set_sampled(r.bool()); }
            let sampled = r.bool();
            v.set_sampled(sampled);
            let o = format!("{:02x} {:032x} {:?} {}", v.version(), v.trace_id(), Some(v.id()), sampled);
            let t = format!("{:02x}-{:032x}-{:016x}-{:02x}", v.version(), v.trace_id(), v.id(), sampled as u8);
            built(&v, o, Some(t))
        });
    add("forwarded", "forwarded", Fwd, fwd_parse, fwd_el,
        |r| match r.below(3) {
            0 => {
                // a parameter that is there twice
                let k = *r.pick(&["by", "host", "proto"]);
                let mut v: Vec<String> = (0..2).map(|_| { let x = fwd_node(r); format!("{}={}", gen::recase(r, k), fwd_val(r, &x)) }).collect();
                let o = fwd_node(r);
                match r.below(3) {
                    0 => v.insert(r.below(3), format!("for={}", fwd_val(r, &o))),
                    1 => v.insert(r.below(3), format!("ext={}", fwd_val(r, &o))),
                    _ => {}
                }
                v.join(";")
            }
            1 => {
                // cut within a quoted string or before a value
                let x = fwd_node(r);
                let k = *r.pick(&["by", "host", "proto", "for", "ext"]);
                match r.below(4) {
                    0 => format!("{}=\"{}", k, x.replace('"', "").replace('\\', "")),
                    1 => format!("{}=", k),
                    2 => format!("proto=http;{}", k),
                    _ => format!("{} {}", k, x),
                }
            }
            _ => r.pick(&["for", "by;for;host;proto", "for=for, key=value", "for=\"unterminated", "for=, for=;", "host=\"x", "=", "by=proxy.com;for=client;host=example.com;host", "proto=http;proto=https"]).to_string()
        },
        |r| {
            let mut f = Forwarded::new();
            let n = r.len(4);
            let fors: Vec<String> = (0..n).map(|_| fwd_node(r)).collect();
            for x in &fors { f.add_for(x.clone()); }
            let by = if r.one_in(3) { Some(fwd_node(r)) } else { None };
            let host = if r.bool() { Some(fwd_node(r)) } else { None };
            let proto = if r.bool() { Some(r.pick(&["http", "https", "HTTPS"]).to_string()) } else { None };
            if r.one_in(4) {
                // set before, and set again if it is to be there
                let x = fwd_node(r);
                if by.is_some() { f.set_by(x.clone()); }
                if host.is_some() { f.set_host(x.clone()); }
                if proto.is_some() { f.set_proto(x); }
            }
            if let Some(x) = &by { f.set_by(x.clone()); }
            if let Some(x) = &host { f.set_host(x.clone()); }
            if let Some(x) = &proto { f.set_proto(x.clone()); }
            let o = format!("for={:?} by={:?} host={:?} proto={:?}", fors, by.as_deref(), host.as_deref(), proto.as_deref());
            built(&f, o, None)
        });
    v
}

/// decide on the wildcard: it is what the last call said, whatever was said before
fn set_wildcard(r: &mut Rng, early: bool, mut set: impl FnMut(bool)) -> bool {
    let w = r.one_in(3);
    let n = if r.one_in(3) { r.below(3) } else { 0 };
    for _ in 0..n { set(r.bool()); }
    if w || early || n > 0 || r.bool() { set(w); }
    w
}

pub fn trace_id(r: &mut Rng) -> u128 {
    match r.below(4) {
        0 => r.below(256) as u128,
        1 => u128::MAX - r.below(256) as u128,
        _ => ((r.u64() as u128) << 64) | r.u64() as u128,
    }
}

/// RFC 4648 base64 with padding
pub fn base64(b: &[u8]) -> String {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for ch in b.chunks(3) {
        let n = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= ch.len() {
                s.push(A[(n >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
