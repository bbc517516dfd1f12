//! C28: comparisons of values follow what the values carry. Each case builds three values of one type together with
//! the data they were built from, by different routes; the monitor compares every form of ==, <, hash and clone with
//! the same comparison of that data.
use super::c17_codecs::statuses;
use super::typed::hdrs;
use crate::gen;
use crate::infra::*;
use http_types::auth::AuthenticationScheme;
use http_types::cache::{Age, CacheDirective, ClearDirective, Expires};
use http_types::conditional::{ETag, IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::content::{ContentEncoding, ContentType, Encoding, EncodingProposal, MediaTypeProposal};
use http_types::headers::{HeaderName, HeaderValue, HeaderValues};
use http_types::mime::{Mime, ParamName};
use http_types::other::{Date, Expect, RetryAfter};
use http_types::proxies::Forwarded;
use http_types::security::{ContentSecurityPolicy, FrameOptions, ReferrerOptions, ReportTo, Source, TimingAllowOrigin};
use http_types::trace::Metric;
use http_types::transfer::{self, TransferEncoding};
use http_types::{Method, StatusCode, Url, Version};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::str::FromStr;
use std::time::{Duration, SystemTime};

type Three<T, K> = [(T, K); 3];

fn eq_laws<T: PartialEq + Debug, K: PartialEq + Debug>(c: &mut Case, ty: &str, xs: &Three<T, K>) {
    c.count(ty);
    c.note((ty, hash_of(&format!("{:?} {:?}", xs[0], xs[1].1))));
    for (a, ka) in xs {
        for (b, kb) in xs {
            let want = ka == kb;
            c.count(if want { "equal pairs" } else { "different pairs" });
            if (a == b) != want || (b == a) != want || (a != b) == want {
                c.fail(format!("eq:{}", ty), format!("{:?} == {:?} is {}, != is {}; built from {:?} and {:?}", a, b, a == b, a != b, ka, kb));
            }
        }
    }
}

fn clone_laws<T: PartialEq + Clone + Debug, K: Debug>(c: &mut Case, ty: &str, xs: &Three<T, K>) {
    for (a, k) in xs {
        let mut b = a.clone();
        if !(b == *a && *a == b) {
            c.fail(format!("clone:{}", ty), format!("clone {:?} of {:?} built from {:?}", b, a, k));
        }
        b.clone_from(&xs[0].0);
        if b != xs[0].0 {
            c.fail(format!("clone:{}", ty), format!("clone_from {:?} of {:?}", b, xs[0]));
        }
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn hash_laws<T: Hash + Eq + Debug, K: PartialEq + Debug>(c: &mut Case, ty: &str, xs: &Three<T, K>) {
    for (a, ka) in xs {
        for (b, kb) in xs {
            if ka == kb && hash_of(a) != hash_of(b) {
                c.fail(format!("hash:{}", ty), format!("{:?} and {:?} are equal and hash differently", a, b));
            }
        }
    }
    let set: std::collections::HashSet<&T> = xs.iter().map(|x| &x.0).collect();
    let n = (1..3).filter(|i| xs[..*i].iter().all(|x| x.1 != xs[*i].1)).count() + 1;
    if set.len() != n {
        c.fail(format!("hash-set:{}", ty), format!("{} values in a set, expected {}: {:?}", set.len(), n, xs));
    }
}

fn partial_laws<T: PartialOrd + Debug, K: Debug>(c: &mut Case, ty: &str, xs: &Three<T, K>, want: impl Fn(&K, &K) -> Option<Ordering>) {
    for (a, ka) in xs {
        for (b, kb) in xs {
            let w = want(ka, kb);
            let got = a.partial_cmp(b);
            let ops = (a < b, a <= b, a > b, a >= b);
            let wops = (w == Some(Ordering::Less), matches!(w, Some(Ordering::Less | Ordering::Equal)), w == Some(Ordering::Greater), matches!(w, Some(Ordering::Greater | Ordering::Equal)));
            c.count("ordered pairs");
            if got != w || ops != wops {
                c.fail(format!("order:{}", ty), format!("{:?} against {:?}: {:?}, (<, <=, >, >=) {:?}, expected {:?}; built from {:?} and {:?}", a, b, got, ops, w, ka, kb));
            }
        }
    }
}

fn ord_laws<T: Ord + Debug, K: Ord + Debug>(c: &mut Case, ty: &str, xs: &Three<T, K>) {
    partial_laws(c, ty, xs, |a, b| Some(a.cmp(b)));
    for (a, ka) in xs {
        for (b, kb) in xs {
            if a.cmp(b) != ka.cmp(kb) {
                c.fail(format!("order:{}", ty), format!("cmp of {:?} and {:?} is {:?}; built from {:?} and {:?}", a, b, a.cmp(b), ka, kb));
            }
        }
    }
    let mut v: Vec<&(T, K)> = xs.iter().collect();
    v.sort_by(|a, b| a.0.cmp(&b.0));
    if !v.windows(2).all(|w| w[0].1 <= w[1].1) || xs.iter().map(|x| &x.0).max().map(|m| m.cmp(&v[2].0)) != Some(Ordering::Equal) {
        c.fail(format!("sort:{}", ty), format!("sorted: {:?}", v));
    }
}

/// three keys of which some are often equal
fn three<K: Clone>(r: &mut Rng, mut gen: impl FnMut(&mut Rng) -> K, mut near: impl FnMut(&mut Rng, &K) -> K) -> [K; 3] {
    let a = gen(r);
    let mut other = |r: &mut Rng, x: &K| match r.below(3) {
        0 => x.clone(),
        1 => near(r, x),
        _ => gen(r),
    };
    let b = other(r, &a);
    let d = if r.bool() { other(r, &b) } else { other(r, &a) };
    [a, b, d]
}
fn with<K: Clone, T>(ks: [K; 3], mut f: impl FnMut(&K) -> T) -> Three<T, K> {
    ks.map(|k| (f(&k), k))
}

fn near_text(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    match r.below(4) {
        0 => v.push(*r.pick(&[' ', 'a', 'A', '0', '-', 'x'])),
        1 => {
            v.pop();
        }
        2 if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
        }
        _ if !v.is_empty() => {
            let i = r.below(v.len());
            v[i] = *r.pick(&['a', 'b', '0', '_']);
        }
        _ => {}
    }
    v.into_iter().collect()
}

fn names(c: &mut Case, r: &mut Rng) {
    let ks = three(r, |r| if r.one_in(4) { String::new() } else if r.bool() { gen::recase(r, http_types::headers::CONTENT_TYPE.as_str()) } else { gen::token(r) }, |r, s| near_text(r, s));
    // the key of a name is its lower-case text
    let xs = ks.map(|k| {
        let n = match r.below(3) {
            0 => HeaderName::from_str(&k).unwrap(),
            1 => HeaderName::from_bytes(k.clone().into_bytes()).unwrap(),
            _ => HeaderName::from(gen::recase(r, &k).as_str()),
        };
        let n = if r.one_in(4) && k.eq_ignore_ascii_case("content-type") { http_types::headers::CONTENT_TYPE } else { n };
        (n, k.to_ascii_lowercase())
    });
    eq_laws(c, "HeaderName", &xs);
    hash_laws(c, "HeaderName", &xs);
    clone_laws(c, "HeaderName", &xs);
    for (a, ka) in &xs {
        for (_, kb) in &xs {
            // compared as names are: letter case is nothing
            let kb = gen::recase(r, kb);
            let want = kb.eq_ignore_ascii_case(ka);
            let got = [*a == *kb.as_str(), *a == kb.as_str(), *a == kb, *a == &kb];
            if got != [want; 4] {
                c.fail("text:HeaderName", format!("{:?} against {:?}: {:?}", a, kb, got));
            }
        }
    }
}

fn values(c: &mut Case, r: &mut Rng) {
    let ks = three(r, |r| gen::nasty_text(r, 8), |r, s| near_text(r, s));
    let xs = with(ks, |k| match r.below(3) {
        0 => HeaderValue::from_str(k).unwrap(),
        1 => HeaderValue::from_bytes(k.clone().into_bytes()).unwrap(),
        _ => k.parse().unwrap(),
    });
    eq_laws(c, "HeaderValue", &xs);
    hash_laws(c, "HeaderValue", &xs);
    clone_laws(c, "HeaderValue", &xs);
    for (a, ka) in &xs {
        for (_, kb) in &xs {
            let got = [*a == *kb.as_str(), *a == kb.as_str(), *a == *kb, *a == kb];
            if got != [ka == kb; 4] {
                c.fail("text:HeaderValue", format!("{:?} against {:?}: {:?}", a, kb, got));
            }
        }
    }
    // lists of values against one text and against lists of text
    let n = r.below(4);
    let list: Vec<String> = (0..n).map(|_| xs[r.below(3)].1.clone()).collect();
    let hv: HeaderValues = list.iter().map(|s| HeaderValue::from_str(s).unwrap()).collect();
    for (_, k) in &xs {
        let want = list.len() == 1 && list[0] == *k;
        let got = [hv == *k.as_str(), hv == k.as_str(), hv == *k, hv == k];
        if got != [want; 4] {
            c.fail("text:HeaderValues", format!("{:?} against {:?}: {:?}", hv, k, got));
        }
    }
    let mut other: Vec<&str> = list.iter().map(|s| s.as_str()).collect();
    match r.below(5) {
        0 => other.push(xs[0].1.as_str()),
        1 => {
            other.pop();
        }
        2 => other.reverse(),
        3 if n > 0 => other[r.below(n)] = xs[1].1.as_str(),
        _ => {}
    }
    c.eq("list:HeaderValues", hv == other[..], list == other, &(&list, &other));
}

fn mime_text(r: &mut Rng) -> String {
    let mut s = (*r.pick(&["text/plain", "text/html", "text/*", "*/*", "application/json", "a/b", "a/c"])).to_string();
    for _ in 0..r.below(3) {
        s += *r.pick(&[";charset=utf-8", ";a=b", ";a=B", ";b=c", ";q=0.5", ";charset=x", ";a=\"b c\""]);
    }
    s
}

/// (essence, parameters, the first of each name), what a media type carries
fn mime_key(s: &str) -> (String, Vec<(String, String)>) {
    let mut it = s.split(';');
    let e = it.next().unwrap().to_ascii_lowercase();
    let mut ps: Vec<(String, String)> = vec![];
    for p in it {
        let (n, v) = p.split_once('=').unwrap();
        let n = n.trim().to_ascii_lowercase();
        let mut v = v.trim_matches('"').to_string();
        if n == "charset" && v.eq_ignore_ascii_case("utf-8") {
            v = "utf-8".into();
        }
        if !ps.iter().any(|(m, _)| *m == n) {
            ps.push((n, v));
        }
    }
    (e, ps)
}

/// the same media type in another spelling
fn respell(r: &mut Rng, s: &str) -> String {
    let mut it = s.split(';');
    let mut o = gen::recase(r, it.next().unwrap());
    for p in it {
        let (n, v) = p.split_once('=').unwrap();
        let quoted = v.starts_with('"');
        o += *r.pick(&[";", "; ", " ;", " ; "]);
        o += &gen::recase(r, n);
        o.push('=');
        if quoted || r.bool() {
            o += v;
        } else {
            o += &format!("\"{}\"", v);
        }
    }
    o
}

fn mimes(c: &mut Case, r: &mut Rng) {
    let ks = three(r, mime_text, |r, s| {
        let mut t = s.split(';').map(|s| s.to_string()).collect::<Vec<_>>();
        match r.below(3) {
            0 if t.len() > 1 => {
                t.pop();
            }
            1 if t.len() > 2 => t.swap(1, 2),
            _ => t.push("a=b".into()),
        }
        t.join(";")
    });
    let xs = ks.map(|k| {
        let m = match (r.below(3), k.as_str()) {
            (0, "text/plain;charset=utf-8") => http_types::mime::PLAIN,
            (0, "text/html;charset=utf-8") => http_types::mime::HTML,
            (0, "application/json") => http_types::mime::JSON,
            (0, "*/*") => http_types::mime::ANY,
            _ => Mime::from_str(&respell(r, &k)).unwrap(),
        };
        (m, mime_key(&k))
    });
    // the order of different parameters carries nothing that users rely on either way: only judged when it agrees
    let judged = |a: &(String, Vec<(String, String)>), b: &(String, Vec<(String, String)>)| {
        let sorted = |k: &(String, Vec<(String, String)>)| {
            let mut p = k.1.clone();
            p.sort();
            (k.0.clone(), p)
        };
        a == b || sorted(a) != sorted(b)
    };
    if !xs.iter().all(|a| xs.iter().all(|b| judged(&a.1, &b.1))) {
        return;
    }
    eq_laws(c, "Mime", &xs);
    clone_laws(c, "Mime", &xs);
    for (a, ka) in &xs {
        for (b, kb) in &xs {
            let want = ka == kb;
            let ct = ContentType::new(a.clone());
            let p = MediaTypeProposal::new(a.clone(), weight(r)).unwrap();
            let got = [ct == *b, ct == b, p == *b, &p == b, MediaTypeProposal::from(a.clone()) == *b];
            if got != [want; 5] {
                c.fail("plain:Mime", format!("holders of {:?} against {:?}: {:?}", a, b, got));
            }
            for (n, v) in &kb.1 {
                if let Some(x) = a.param(n.as_str()) {
                    let w = ka.1.iter().find(|p| p.0 == *n).map(|p| p.1 == *v);
                    if Some(*x == *v.as_str()) != w || Some(*x == v.as_str()) != w {
                        c.fail("text:ParamValue", format!("{:?} against {:?}", x, v));
                    }
                }
            }
        }
    }
    let ps = three(r, gen::token, |r, s| near_text(r, s)).map(|k| (ParamName::from_str(&gen::recase(r, &k)).unwrap(), k.to_ascii_lowercase()));
    eq_laws(c, "ParamName", &ps);
    hash_laws(c, "ParamName", &ps);
    clone_laws(c, "ParamName", &ps);
}

fn codes(c: &mut Case, r: &mut Rng) {
    let st = statuses();
    let xs = with(three(r, |r| r.pick(&st).0, |r, _| *r.pick(&[200, 201, 100, 511])), |k| StatusCode::try_from(*k).unwrap());
    eq_laws(c, "StatusCode", &xs);
    hash_laws(c, "StatusCode", &xs);
    clone_laws(c, "StatusCode", &xs);
    for (a, ka) in &xs {
        for n in [xs[0].1, xs[1].1, ka.wrapping_add(256), ka ^ 0x8000, 0] {
            if (*a == n) != (*ka == n) || (n == *a) != (*ka == n) {
                c.fail("number:StatusCode", format!("{:?} against {}", a, n));
            }
        }
    }
    const VS: [(Version, u8); 5] = [(Version::Http0_9, 0), (Version::Http1_0, 1), (Version::Http1_1, 2), (Version::Http2_0, 3), (Version::Http3_0, 4)];
    let xs = [0; 3].map(|_| *r.pick(&VS));
    eq_laws(c, "Version", &xs);
    ord_laws(c, "Version", &xs);
    clone_laws(c, "Version", &xs);
    let ms = ["GET", "POST", "PUT", "PATCH", "MERGE", "LOCK", "UNLOCK", "LINK", "UNLINK", "BIND", "REBIND", "SEARCH"];
    let xs = [0; 3].map(|_| {
        let k = *r.pick(&ms);
        (Method::from_str(&gen::recase(r, k)).unwrap(), k)
    });
    eq_laws(c, "Method", &xs);
    hash_laws(c, "Method", &xs);
    clone_laws(c, "Method", &xs);
    let ss = ["basic", "bearer", "digest", "hoba", "mutual", "negotiate", "oauth", "scram-sha-1", "scram-sha-256", "vapid"];
    let xs = [0; 3].map(|_| {
        let k = *r.pick(&ss);
        (AuthenticationScheme::from_str(k).unwrap(), k)
    });
    eq_laws(c, "AuthenticationScheme", &xs);
    clone_laws(c, "AuthenticationScheme", &xs);
    let cs = ["\"cache\"", "\"cookies\"", "\"storage\"", "\"executionContexts\""];
    let xs = [0; 3].map(|_| {
        let k = *r.pick(&cs);
        (ClearDirective::from_str(k).unwrap(), k)
    });
    eq_laws(c, "ClearDirective", &xs);
    hash_laws(c, "ClearDirective", &xs);
    clone_laws(c, "ClearDirective", &xs);
}

fn weight(r: &mut Rng) -> Option<f32> {
    if r.one_in(3) {
        None
    } else {
        Some(*r.pick(&[0.0, 0.001, 0.5, 0.501, 0.999, 1.0]))
    }
}

fn codings(c: &mut Case, r: &mut Rng) {
    const CE: [Encoding; 5] = [Encoding::Gzip, Encoding::Deflate, Encoding::Brotli, Encoding::Zstd, Encoding::Identity];
    let ks = three(r, |r| (r.below(5), weight(r)), |r, k| if r.bool() { (k.0, weight(r)) } else { (r.below(5), k.1) });
    let xs = with(ks, |k| EncodingProposal::new(CE[k.0], k.1).unwrap());
    eq_laws(c, "EncodingProposal", &xs);
    clone_laws(c, "EncodingProposal", &xs);
    // no weight ranks below every weight, and two without are not ranked
    let by = |a: &Option<f32>, b: &Option<f32>| match (a, b) {
        (None, None) => None,
        (a, b) => a.partial_cmp(b),
    };
    partial_laws(c, "EncodingProposal", &xs, |a, b| by(&a.1, &b.1));
    for (a, ka) in &xs {
        for (b, kb) in &xs {
            let (e, want) = (CE[kb.0], ka.0 == kb.0);
            let h = ContentEncoding::new(CE[ka.0]);
            let got = [*a == e, a == e, ContentEncoding::from(*a) == e, h == e, h == &e, ContentEncoding::from(a) == &e, *h == e, CE[ka.0] == e];
            if got != [want; 8] {
                c.fail("plain:Encoding", format!("{:?} against {:?}: {:?}", a, e, got));
            }
        }
    }
    const TE: [transfer::Encoding; 6] = [transfer::Encoding::Gzip, transfer::Encoding::Deflate, transfer::Encoding::Brotli, transfer::Encoding::Zstd, transfer::Encoding::Identity, transfer::Encoding::Chunked];
    let ks = three(r, |r| (r.below(6), weight(r)), |r, k| if r.bool() { (k.0, weight(r)) } else { (r.below(6), k.1) });
    let xs = with(ks, |k| transfer::EncodingProposal::new(TE[k.0], k.1).unwrap());
    eq_laws(c, "transfer::EncodingProposal", &xs);
    clone_laws(c, "transfer::EncodingProposal", &xs);
    partial_laws(c, "transfer::EncodingProposal", &xs, |a, b| by(&a.1, &b.1));
    for (a, ka) in &xs {
        for (b, kb) in &xs {
            let (e, want) = (TE[kb.0], ka.0 == kb.0);
            let h = TransferEncoding::new(TE[ka.0]);
            let got = [*a == e, a == e, TransferEncoding::from(*a) == e, h == e, h == &e, TransferEncoding::from(a) == &e, *h == e, TE[ka.0] == e];
            if got != [want; 8] {
                c.fail("plain:transfer::Encoding", format!("{:?} against {:?}: {:?}", a, e, got));
            }
        }
    }
    // in Accept no weight is weight one
    let w = |r: &mut Rng| weight(r).unwrap_or(1.0);
    let ks = three(r, |r| (*r.pick(&["a/b", "a/c", "*/*"]), w(r)), |r, k| (k.0, w(r)));
    let xs = with(ks, |k| MediaTypeProposal::new(Mime::from_str(k.0).unwrap(), if k.1 == 1.0 && r.bool() { None } else { Some(k.1) }).unwrap());
    eq_laws(c, "MediaTypeProposal", &xs);
    clone_laws(c, "MediaTypeProposal", &xs);
    partial_laws(c, "MediaTypeProposal", &xs, |a, b| a.1.partial_cmp(&b.1));
    let xs = xs.map(|(p, k)| (if k.1 == 1.0 { MediaTypeProposal::from(Mime::from_str(k.0).unwrap()) } else { p }, k));
    partial_laws(c, "MediaTypeProposal", &xs, |a, b| a.1.partial_cmp(&b.1));
}

fn duration(r: &mut Rng) -> Duration {
    match r.below(4) {
        0 => Duration::new(r.below(3) as u64, r.below(3) as u32),
        1 => Duration::new(u64::MAX - r.below(2) as u64, 0),
        2 => Duration::from_nanos(r.u64()),
        _ => Duration::from_secs(r.u64() >> r.below(64)),
    }
}
fn near_duration(r: &mut Rng, d: &Duration) -> Duration {
    match r.below(4) {
        0 => d.checked_add(Duration::from_nanos(1)).unwrap_or(*d),
        1 => d.checked_sub(Duration::from_nanos(1)).unwrap_or(*d),
        2 => d.checked_add(Duration::from_secs(1)).unwrap_or(*d),
        _ => d.checked_sub(Duration::from_secs(1 << 32)).unwrap_or(*d),
    }
}
fn instant(r: &mut Rng) -> SystemTime {
    // before and after 1970, far and near
    let d = Duration::from_nanos(r.u64() >> 2 >> r.below(62));
    if r.one_in(4) {
        SystemTime::UNIX_EPOCH - d
    } else {
        SystemTime::UNIX_EPOCH + d
    }
}
fn near_instant(r: &mut Rng, t: &SystemTime) -> SystemTime {
    let d = *r.pick(&[Duration::from_nanos(1), Duration::from_millis(1), Duration::from_secs(1), Duration::from_secs(86400)]);
    if r.bool() {
        *t + d
    } else {
        *t - d
    }
}

fn times(c: &mut Case, r: &mut Rng) {
    let xs = with(three(r, duration, near_duration), |k| Age::new(*k));
    eq_laws(c, "Age", &xs);
    ord_laws(c, "Age", &xs);
    let ks = three(r, instant, near_instant);
    macro_rules! at {
        ($($ty:ident $new:ident),*) => {$(
            let xs = with(ks, |k| $ty::$new(*k));
            eq_laws(c, stringify!($ty), &xs);
            ord_laws(c, stringify!($ty), &xs);
        )*};
    }
    at!(Expires new_at, LastModified new, IfModifiedSince new, IfUnmodifiedSince new, RetryAfter new_at);
    let xs = with(ks, |k| RetryAfter::new_at(*k));
    hash_laws(c, "RetryAfter", &xs);
    clone_laws(c, "RetryAfter", &xs);
    let xs = with(three(r, duration, near_duration), |k| RetryAfter::new(*k));
    eq_laws(c, "RetryAfter of a duration", &xs);
    ord_laws(c, "RetryAfter of a duration", &xs);
    hash_laws(c, "RetryAfter of a duration", &xs);
    clone_laws(c, "RetryAfter of a duration", &xs);
    // a delay and a moment are never the same
    let (a, b) = (RetryAfter::new_at(ks[0]), RetryAfter::new(xs[0].1));
    if a == b || a.cmp(&b) == Ordering::Equal || a.cmp(&b) != b.cmp(&a).reverse() {
        c.fail("order:RetryAfter", format!("{:?} and {:?}", a, b));
    }
    for k in &ks {
        let d = Date::new(*k);
        for j in &ks {
            if (d == *j) != (k == j) || (Date::from(*j) != *k) != (k != j) {
                c.fail("plain:Date", format!("{:?} against {:?}", d, j));
            }
        }
    }
    let xs = with([(); 3], |_| Expect::new());
    eq_laws(c, "Expect", &xs);
    ord_laws(c, "Expect", &xs);
}

fn directive(k: &(usize, Option<Duration>)) -> CacheDirective {
    use CacheDirective::*;
    let d = k.1.unwrap_or_default();
    match k.0 {
        0 => Immutable,
        1 => MaxAge(d),
        2 => MaxStale(k.1),
        3 => MinFresh(d),
        4 => MustRevalidate,
        5 => NoCache,
        6 => NoStore,
        7 => NoTransform,
        8 => OnlyIfCached,
        9 => Private,
        10 => ProxyRevalidate,
        11 => Public,
        12 => SMaxAge(d),
        13 => StaleIfError(d),
        _ => StaleWhileRevalidate(d),
    }
}
fn directive_key(r: &mut Rng) -> (usize, Option<Duration>) {
    let k = r.below(15);
    let d = match k {
        2 if r.bool() => None,
        1 | 2 | 3 | 12 | 13 | 14 => Some(if r.bool() { Duration::from_secs(r.below(3) as u64) } else { duration(r) }),
        _ => None,
    };
    (k, d)
}

fn structured(c: &mut Case, r: &mut Rng) {
    let ks = three(r, directive_key, |r, k| {
        let n = directive_key(r);
        match (k.1, n.1) {
            (Some(_), Some(_)) => (n.0, k.1),
            (Some(d), None) => (k.0, Some(near_duration(r, &d))),
            _ => n,
        }
    });
    let xs = with(ks, directive);
    eq_laws(c, "CacheDirective", &xs);
    clone_laws(c, "CacheDirective", &xs);

    let ks = three(r, |r| (r.bool(), gen::word(r)), |r, k| if r.bool() { (!k.0, k.1.clone()) } else { (k.0, near_text(r, &k.1)) });
    let xs = with(ks, |k| if k.0 { ETag::new_weak(k.1.clone()) } else { ETag::new(k.1.clone()) });
    eq_laws(c, "ETag", &xs);
    clone_laws(c, "ETag", &xs);

    let word = |r: &mut Rng| if r.bool() { "a".to_string() } else { gen::word(r) };
    let opt = |r: &mut Rng| if r.bool() { Some(if r.bool() { "a".to_string() } else { gen::word(r) }) } else { None };
    let ks = three(r, |r| (word(r), if r.bool() { Some(duration(r)) } else { None }, opt(r)), |r, k| match r.below(3) {
        0 => (k.0.clone(), k.1.map(|d| near_duration(r, &d)), k.2.clone()),
        1 => (k.0.clone(), k.1, opt(r)),
        _ => (near_text(r, &k.0), k.1, k.2.clone()),
    });
    let xs = with(ks, |k| Metric::new(k.0.clone(), k.1, k.2.clone()).unwrap());
    eq_laws(c, "Metric", &xs);
    clone_laws(c, "Metric", &xs);

    type F = (Option<String>, Vec<String>, Option<String>, Option<String>);
    let ks: [F; 3] = three(
        r,
        |r| (opt(r), (0..r.below(4)).map(|_| word(r)).collect::<Vec<_>>(), opt(r), opt(r)),
        |r, k: &F| {
            let mut k = k.clone();
            match r.below(5) {
                0 => k.0 = opt(r),
                1 => k.2 = opt(r),
                2 => k.3 = opt(r),
                3 => k.1.reverse(),
                _ => {
                    k.1.pop();
                }
            }
            k
        },
    );
    let texts: Vec<String> = ks
        .iter()
        .map(|k| {
            let mut v: Vec<String> = k.1.iter().map(|f| format!("for={}", f)).collect();
            let mut rest = vec![];
            for (n, x) in [("by", &k.0), ("host", &k.2), ("proto", &k.3)] {
                if let Some(x) = x {
                    rest.push(format!("{}=\"{}\"", n, x));
                }
            }
            let mut head = vec![v.join(", ")];
            v.clear();
            head.append(&mut rest);
            head.retain(|s| !s.is_empty());
            head.join(";")
        })
        .collect();
    let mut i = 0;
    let xs = with(ks, |k| {
        i += 1;
        if r.bool() {
            if let Ok(f) = Forwarded::parse(&texts[i - 1]) {
                return if r.bool() { f.into_owned() } else { f };
            }
        }
        let mut f = Forwarded::new();
        for x in &k.1 {
            f.add_for(x.clone());
        }
        if let Some(x) = &k.0 {
            f.set_by(x.clone());
        }
        if let Some(x) = &k.2 {
            f.set_host(x.clone());
        }
        if let Some(x) = &k.3 {
            f.set_proto(x.clone());
        }
        if r.bool() {
            f.into_owned()
        } else {
            f
        }
    });
    eq_laws(c, "Forwarded", &xs);
    clone_laws(c, "Forwarded", &xs);
}

fn security(c: &mut Case, r: &mut Rng) {
    use Source::*;
    const S: [Source; 12] = [SameOrigin, Src, None, UnsafeInline, Data, Mediastream, Https, Blob, Filesystem, StrictDynamic, UnsafeEval, Wildcard];
    let xs = with([r.below(12), r.below(12), r.below(12)], |k| S[*k]);
    eq_laws(c, "Source", &xs);
    hash_laws(c, "Source", &xs);
    clone_laws(c, "Source", &xs);
    let xs = with([r.bool(), r.bool(), r.bool()], |k| if *k { FrameOptions::Deny } else { FrameOptions::SameOrigin });
    eq_laws(c, "FrameOptions", &xs);
    hash_laws(c, "FrameOptions", &xs);
    clone_laws(c, "FrameOptions", &xs);
    use ReferrerOptions as R;
    const P: [R; 8] = [R::NoReferrer, R::NoReferrerDowngrade, R::SameOrigin, R::Origin, R::StrictOrigin, R::CrossOrigin, R::StrictCrossOrigin, R::UnsafeUrl];
    let xs = with([r.below(8), r.below(8), r.below(8)], |k| P[*k]);
    eq_laws(c, "ReferrerOptions", &xs);
    hash_laws(c, "ReferrerOptions", &xs);
    clone_laws(c, "ReferrerOptions", &xs);
    let urls = ["https://a.example/", "https://b.example/", "http://a.example/", "https://a.example/x", "https://a.example:8080/"];
    let ks = three(r, |r| ((0..r.below(4)).map(|_| *r.pick(&urls)).collect::<Vec<_>>(), r.bool()), |r, k| {
        let mut k = k.clone();
        match r.below(3) {
            0 => k.1 = !k.1,
            1 => k.0.reverse(),
            _ => k.0.push(urls[0]),
        }
        k
    });
    let xs = with(ks, |k| {
        let mut t = TimingAllowOrigin::new();
        t.set_wildcard(k.1);
        for u in &k.0 {
            t.push(Url::parse(u).unwrap());
        }
        if r.bool() && (k.1 || !k.0.is_empty()) {
            // the same by way of a message
            let mut h = hdrs();
            use http_types::headers::Header;
            t.apply_header(&mut h);
            if let Ok(Some(u)) = TimingAllowOrigin::from_headers(&h) {
                return u;
            }
        }
        t
    });
    eq_laws(c, "TimingAllowOrigin", &xs);
    clone_laws(c, "TimingAllowOrigin", &xs);
    type G = (Option<u8>, i32, Vec<u8>, Option<bool>);
    let ks: [G; 3] = three(
        r,
        |r| (if r.bool() { Some(r.below(3) as u8) } else { Option::None }, r.below(3) as i32, (0..r.below(3)).map(|_| r.below(3) as u8).collect::<Vec<_>>(), *r.pick(&[Option::None, Some(true), Some(false)])),
        |r, k: &G| {
            let mut k = k.clone();
            match r.below(4) {
                0 => k.0 = Some(1),
                1 => k.1 += 1,
                2 => k.2.push(1),
                _ => k.3 = Some(true),
            }
            k
        },
    );
    let xs = with(ks, |k| {
        let mut o = serde_json::Map::new();
        if let Some(g) = k.0 {
            o.insert("group".into(), format!("g{}", g).into());
        }
        o.insert("max_age".into(), k.1.into());
        o.insert("endpoints".into(), k.2.iter().map(|e| serde_json::json!({ "url": format!("https://r{}.example", e) })).collect::<Vec<_>>().into());
        if let Some(i) = k.3 {
            o.insert("include_subdomains".into(), i.into());
        }
        serde_json::from_value::<ReportTo>(o.into()).unwrap()
    });
    eq_laws(c, "ReportTo", &xs);
    hash_laws(c, "ReportTo", &xs);
    clone_laws(c, "ReportTo", &xs);
    // policies are built, not yet applied
    let ks: [Vec<(u8, u8)>; 3] = three(r, |r| (0..r.below(5)).map(|_| (r.below(5) as u8, r.below(3) as u8)).collect(), |r, k: &Vec<(u8, u8)>| {
        let mut k = k.clone();
        match r.below(3) {
            0 => {
                k.pop();
            }
            1 => k.reverse(),
            _ => k.push((r.below(5) as u8, 0)),
        }
        k
    });
    let xs = ks.map(|calls| {
        let mut p = ContentSecurityPolicy::new();
        let mut key: std::collections::BTreeMap<u8, Vec<u8>> = Default::default();
        for &(d, s) in &calls {
            let src = ["a.example", "b.example", "c.example"][s as usize];
            match d {
                0 => p.default_src(src),
                1 => p.script_src(src),
                2 => p.img_src(src),
                3 => p.worker_src(src),
                _ => p.report_only(),
            };
            let e = key.entry(d).or_default();
            if d < 4 {
                e.push(s);
            }
        }
        (p, key)
    });
    eq_laws(c, "ContentSecurityPolicy", &xs);
    clone_laws(c, "ContentSecurityPolicy", &xs);
}

fn laws(c: &mut Case) {
    let mut r = c.rng.clone();
    let which = c.idx % 8;
    c.step(|| format!("family {}", which));
    let f: fn(&mut Case, &mut Rng) = [names, values, mimes, codes, codings, times, structured, security][which as usize];
    if let Err(p) = quiet(|| f(c, &mut r)) {
        c.fail(format!("panic:family {}", which), p);
    }
    c.sample(|| format!("family {}", which));
}

pub fn prop() -> Prop {
    Prop {
        id: "C28",
        rule: "three values at a time of each public value type with a comparison, built by different routes from data that is equal, nearly equal or different; every form of ==, !=, <, <=, >, >=, cmp, hash, \
               set membership and clone is compared with the same comparison of the data; distinct = type and compared values",
        assumptions: &["the order of different parameters of a media type, and policies that were already applied, are not judged"],
        subs: vec![rand("laws", 200_000, 6_000_000, laws)],
    }
}
