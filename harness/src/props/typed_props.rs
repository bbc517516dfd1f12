//! C01 totality, C02 round trip, C19 client errors, C26 repeated lines: monitors over the typed-header registry.
use super::typed::*;
use crate::gen;
use crate::infra::*;
use super::typed::Kind as HKind;
use http_types::headers::{HeaderName, HeaderValue, Headers};
use http_types::mime::Mime;
use http_types::proxies::Forwarded;
use http_types::{Method, StatusCode, Version};
use std::convert::TryFrom;
use std::str::FromStr;

thread_local!(static REG: &'static [TH] = Box::leak(registry().into_boxed_slice()));
pub fn reg() -> &'static [TH] {
    REG.with(|r| *r)
}
const NH: u64 = 33;

pub fn put(lines: &[String], name: &str) -> Option<Headers> {
    let mut h = hdrs();
    for l in lines {
        let v = HeaderValue::from_bytes(l.clone().into_bytes()).ok()?;
        h.append(name, v).ok()?;
    }
    let _ = h.insert("x-unrelated", "1");
    Some(h)
}

// ---------------------------------------------------------------- C01

/// one field value a peer could send for this header
fn hostile(r: &mut Rng, t: &TH) -> String {
    match r.below(10) {
        0 => (t.el)(r).text,
        1 | 2 | 3 => {
            let s = (t.el)(r).text;
            gen::mutate(r, &s, true)
        }
        4 => (t.bad)(r),
        5 => {
            let s = (t.bad)(r);
            gen::mutate(r, &s, true)
        }
        6 => gen::soup(r, 8),
        7 => gen::any_ascii(r, 20),
        8 => {
            // a number in a place where a number goes
            let s = (t.el)(r).text;
            let n = *r.pick(gen::INTERESTING_NUMBERS);
            let mut out = String::new();
            let mut inside = false;
            for c in s.chars() {
                if c.is_ascii_digit() {
                    if !inside {
                        out.push_str(n);
                    }
                    inside = true;
                } else {
                    inside = false;
                    out.push(c);
                }
            }
            out
        }
        _ => {
            let mut v = vec![];
            for _ in 0..1 + r.len(4) {
                v.push(match r.below(3) {
                    0 => gen::soup(r, 4),
                    _ => (t.el)(r).text,
                });
            }
            v.join(*r.pick(&[",", ", ", ";", "; ", " ", ",,"]))
        }
    }
}

fn feed(c: &mut Case, t: &TH, lines: &[String]) {
    let h = match put(lines, t.header) {
        Some(h) => h,
        None => return,
    };
    let r = match c.guard(t.id, &lines, || (t.parse)(&h)) {
        Some(r) => r,
        None => return,
    };
    c.note((t.id, lines));
    match r {
        PR::Absent => {
            c.count("absent");
            if !lines.is_empty() {
                c.fail(format!("vanished:{}", t.id), format!("the header is there but reads as absent: {:?}", lines));
            }
        }
        PR::Err(..) => c.count("refused"),
        PR::Val(v) => {
            c.count("accepted");
            c.count(&format!("accepted:{}", t.id));
            if v.obs.contains('!') && v.obs.contains("disagree") {
                c.fail(format!("iterators:{}", t.id), format!("{} for {:?}", v.obs, lines));
            }
            if v.text.starts_with("!apply_header") || v.text.starts_with("!inserting") {
                c.fail(format!("apply:{}", t.id), format!("{} for {:?}", v.text, lines));
            }
            // feed what it wrote back
            if let Some(h2) = put(&[v.text.clone()], t.header) {
                c.guard(t.id, &v.text, || (t.parse)(&h2));
            }
        }
    }
}

fn hostile_lines(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let n = 1 + c.rng.len(3);
    let lines: Vec<String> = (0..n).map(|_| hostile(&mut c.rng, t)).collect();
    c.sample(|| format!("{}: {:?}", t.id, lines));
    feed(c, t, &lines);
}

/// legal values whose numbers are replaced with ones at the edge of what a machine type holds
fn edge_numbers(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let s = (t.el)(&mut c.rng).text;
    let s = if t.id == "server-timing" && c.rng.bool() { format!("a;dur=1;desc={}", c.rng.below(3)) } else { s };
    let line = gen::with_edge_numbers(&mut c.rng, &s);
    c.sample(|| format!("{}: {:?}", t.id, line));
    feed(c, t, &[line]);
}

const ALPHA: [char; 11] = ['"', '\\', ',', ';', '=', ' ', '-', '0', 'a', '*', '/'];
const WORDS4: u64 = 1 + 11 + 121 + 1331 + 14641;
fn word(mut i: u64) -> String {
    let mut len = 0;
    let mut n = 1;
    while i >= n {
        i -= n;
        n *= ALPHA.len() as u64;
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push(ALPHA[(i % ALPHA.len() as u64) as usize]);
        i /= ALPHA.len() as u64;
    }
    s
}
fn short_words(c: &mut Case) {
    let w = word(c.idx);
    for t in reg() {
        let line = match t.id {
            "server-timing" => format!("a;{}", w),
            "traceparent" => format!("00-{}", w),
            "www-authenticate" => format!("Basic realm={}", w),
            "authorization" | "basic-auth" => format!("Basic {}", w),
            "forwarded" => format!("for={}", w),
            "hsts" => format!("max-age=1;{}", w),
            "accept" => format!("a/b;{}", w),
            "te" | "accept-encoding" => format!("gzip{}", w),
            "cache-control" => format!("max-age{}", w),
            _ => w.clone(),
        };
        feed(c, t, &[line]);
        feed(c, t, &[w.clone()]);
    }
}

/// every single byte and every pair with a marker, as the whole value and inside a legal one
fn bytes_everywhere(c: &mut Case) {
    let t = &reg()[(c.idx / 128) as usize];
    let b = (c.idx % 128) as u8 as char;
    feed(c, t, &[b.to_string()]);
    for _ in 0..3 {
        let s = (t.el)(&mut c.rng).text;
        for i in 0..=s.len().min(80) {
            if s.is_char_boundary(i) {
                let mut x = s.clone();
                x.insert(i, b);
                feed(c, t, &[x]);
            }
        }
    }
}
/// every prefix and suffix of legal values
fn cuts(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let s = (t.el)(&mut c.rng).text;
    for i in 0..=s.len() {
        if s.is_char_boundary(i) {
            feed(c, t, &[s[..i].to_string()]);
            feed(c, t, &[s[i..].to_string()]);
        }
    }
}

fn long(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let unit = match c.rng.below(4) {
        0 => c.rng.pick(&[",", ";", "=", "\"", "\\", " ", "\\\"", "\",", ";=", "for=", "for=a,", "a;", "0", "-", "a/b,"]).to_string(),
        1 => format!("{},", (t.el)(&mut c.rng).text),
        2 => format!("{};", (t.el)(&mut c.rng).text),
        _ => gen::soup(&mut c.rng, 3) + ",",
    };
    if unit.is_empty() {
        return;
    }
    let reps = 20_000 / unit.len();
    let mut s = (t.el)(&mut c.rng).text;
    s.push_str(&unit.repeat(reps));
    if c.rng.bool() {
        s.push('"');
    }
    let t0 = std::time::Instant::now();
    feed(c, t, &[s]);
    if t0.elapsed().as_secs() >= 20 {
        c.fail(format!("slow:{}", t.id), format!("20 kB took {:?}; repeated unit {:?}", t0.elapsed(), unit));
    }
    c.count("long_values");
}

fn any_string(r: &mut Rng) -> String {
    match r.below(5) {
        0 => gen::soup(r, 6),
        1 => gen::unicode(r, 12),
        2 => {
            let t = &reg()[r.below(NH as usize)];
            let s = (t.el)(r).text;
            gen::mutate(r, &s, false)
        }
        3 => {
            let s = *r.pick(gen::WORDS);
            gen::mutate(r, s, false)
        }
        _ => gen::any_ascii(r, 12),
    }
}

fn strings(c: &mut Case) {
    let s = any_string(&mut c.rng);
    c.sample(|| format!("{:?}", s));
    c.note(&s);
    parsers(c, &s);
}
/// every public entry point that takes a string or bytes
pub fn parsers(c: &mut Case, s: &str) {
    let ctx = &s;
    if let Some(Ok(m)) = c.guard("Mime::from_str", ctx, || Mime::from_str(s)) {
        c.count("accepted:mime");
        c.guard("Mime use", ctx, || {
            let t = format!("{} {:?}", m, m);
            let _ = (m.essence().len(), m.basetype().len(), m.subtype().len(), t.len());
            let _ = m.param("charset").map(|p| p.as_str().to_string());
            let mut m2 = m.clone();
            let _ = m2.remove_param("charset");
            let _ = m2.subset_eq(&m);
            let _ = m == m2;
            let v: HeaderValue = m.into();
            v.as_str().len()
        });
    }
    c.guard("Mime::from_extension", ctx, || Mime::from_extension(s).map(|m| m.to_string()));
    c.guard("Mime::sniff", ctx, || Mime::sniff(s.as_bytes()).map(|m| m.to_string()).is_ok());
    if let Some(Ok(m)) = c.guard("Method::from_str", ctx, || Method::from_str(s)) {
        c.guard("Method use", ctx, || format!("{} {:?} {}", m, m, m.is_safe()));
    }
    if let Some(Ok(n)) = c.guard("HeaderName::from_str", ctx, || HeaderName::from_str(s)) {
        c.guard("HeaderName use", ctx, || {
            let mut h = hdrs();
            let _ = h.insert(&n, "v");
            let _ = h.append(n.as_str(), "w");
            let _ = (h.get(s).is_some(), h.remove(&n).is_some());
            format!("{} {:?}", n, n)
        });
    }
    c.guard("HeaderName::from_bytes", ctx, || HeaderName::from_bytes(s.as_bytes().to_vec()).is_ok());
    c.guard("HeaderValue::from_str", ctx, || HeaderValue::from_str(s).map(|v| format!("{} {:?}", v, v)).is_ok());
    c.guard("HeaderValue::from_bytes", ctx, || HeaderValue::from_bytes(s.as_bytes().to_vec()).is_ok());
    c.guard("Headers::insert", ctx, || {
        let mut h = hdrs();
        let _ = h.insert("a", s);
        let _ = h.append("a", s.to_string());
        h.iter().count()
    });
    c.guard("AuthenticationScheme", ctx, || http_types::auth::AuthenticationScheme::from_str(s).map(|x| x.to_string()).is_ok());
    c.guard("BasicAuth::from_credentials", ctx, || http_types::auth::BasicAuth::from_credentials(s).map(|x| format!("{:?}", x)).is_ok());
    c.guard("ClearDirective", ctx, || http_types::cache::ClearDirective::from_str(s).map(|x| x.to_string()).is_ok());
    if let Some(Ok(f)) = c.guard("Forwarded::parse", ctx, || Forwarded::parse(s)) {
        c.count("accepted:forwarded");
        c.guard("Forwarded use", ctx, || {
            let t = f.to_string();
            let _ = Forwarded::parse(&t).is_ok();
            format!("{:?} {}", f.forwarded_for(), f.clone().into_owned())
        });
    }
    c.guard("Forwarded::try_from", ctx, || Forwarded::try_from(s).is_ok());
    let q = serde_json::to_string(s).unwrap();
    c.guard("serde StatusCode", ctx, || serde_json::from_str::<StatusCode>(&q).is_ok());
    c.guard("serde Version", ctx, || serde_json::from_str::<Version>(&q).is_ok());
    c.guard("serde Method", ctx, || serde_json::from_str::<Method>(&q).is_ok());
    c.guard("serde StatusCode", ctx, || serde_json::from_str::<StatusCode>(s).is_ok());
    c.guard("serde Version", ctx, || serde_json::from_str::<Version>(s).is_ok());
    c.guard("serde Method", ctx, || serde_json::from_str::<Method>(s).is_ok());
}
fn raw_bytes(c: &mut Case) {
    let b = gen::bytes(&mut c.rng, 300);
    c.note(&b);
    let ctx = &b;
    c.guard("Mime::sniff", ctx, || Mime::sniff(&b).map(|m| m.to_string()).is_ok());
    c.guard("HeaderName::from_bytes", ctx, || HeaderName::from_bytes(b.clone()).map(|n| n.to_string()).is_ok());
    c.guard("HeaderValue::from_bytes", ctx, || HeaderValue::from_bytes(b.clone()).map(|n| n.to_string()).is_ok());
    c.guard("BasicAuth::from_credentials", ctx, || http_types::auth::BasicAuth::from_credentials(&b).is_ok());
    let e = base64(&b);
    c.guard("BasicAuth::from_credentials", ctx, || http_types::auth::BasicAuth::from_credentials(&e).is_ok());
}
fn short_strings(c: &mut Case) {
    // every word up to 4 letters, alone and behind the prefix of some grammar
    let w = word(c.idx);
    c.note(&w);
    for p in ["", "for=", "for=\"", "by=\u{122}", "t/h;a=", "HTTP/"] {
        parsers(c, &format!("{}{}", p, w));
    }
}
/// requests and responses that carry hostile headers: every accessor that looks at them
fn messages(c: &mut Case) {
    let t = &reg()[c.rng.below(NH as usize)];
    let mut req = http_types::Request::new(Method::Get, "http://example.com/?a=b");
    let mut res = http_types::Response::new(200);
    let mut ctx = vec![];
    for _ in 0..1 + c.rng.len(3) {
        let (name, v) = match c.rng.below(6) {
            0 => ("forwarded", hostile(&mut c.rng, &reg()[32])),
            1 => (*c.rng.pick(&["x-forwarded-for", "x-forwarded-host", "x-forwarded-proto", "x-forwarded-by", "host"]), gen::soup(&mut c.rng, 5)),
            2 => ("content-type", gen::soup(&mut c.rng, 5)),
            _ => (t.header, hostile(&mut c.rng, t)),
        };
        let _ = req.append_header(name, v.as_str());
        let _ = res.append_header(name, v.as_str());
        ctx.push((name, v));
    }
    if c.rng.bool() {
        let p = any_string(&mut c.rng);
        req.set_peer_addr(Some(p.clone()));
        req.set_local_addr(Some(p));
    }
    c.note(&ctx);
    c.guard("message accessors", &ctx, || {
        let _ = (req.host().map(|s| s.len()), req.remote().map(|s| s.len()), req.peer_addr().is_some(), req.local_addr().is_some());
        let _ = (req.content_type(), res.content_type(), req.len(), res.len(), req.is_empty());
        let _ = (format!("{:?} {:?}", req, res), Forwarded::from_headers(&req).is_ok(), Forwarded::from_x_headers(&req).map(|f| f.map(|f| f.to_string())).is_ok());
        let _ = (req.clone(), res.clone());
        let _ = req.query::<std::collections::HashMap<String, String>>().is_ok();
        req.set_body("x");
        res.set_body("y");
        let _ = (req.content_type(), res.content_type());
        for (n, v) in req.iter() {
            let _ = (n.as_str(), v.to_string());
        }
        http_types::security::default(&mut res);
    });
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        rule: "field values per typed header: legal values mutated / cut / with every ASCII byte inserted everywhere, all words up to 4 over 11 significant characters, grammar soup, extreme numbers, 1-4 lines, 20 kB repetitions; Unicode strings through every string parser; whole messages; non-trivial: distinct inputs. Accepted values are inspected, printed, iterated, sorted, negotiated and re-applied",
        assumptions: &["header values a peer can put on a message are the ones HeaderValue accepts (ASCII)"],
        subs: vec![
            all("words-headers", WORDS4, short_words),
            all("words-strings", WORDS4, short_strings),
            all("byte-insertions", NH * 128, bytes_everywhere),
            rand("cuts", 6_000, 100_000, cuts),
            rand("numbers", 100_000, 4_000_000, edge_numbers),
            rand("lines", 500_000, 10_000_000, hostile_lines),
            rand("strings", 250_000, 5_000_000, strings),
            rand("bytes", 60_000, 500_000, raw_bytes),
            rand("messages", 60_000, 1_000_000, messages),
            native(rand("long", 1_700, 34_000, long)),
        ],
    }
}

// ---------------------------------------------------------------- C02

fn legal_text(id: &str, s: &str) -> bool {
    // field-content: visible ASCII, space, tab; no surrounding white space
    let _ = id;
    s.bytes().all(|b| b == b'\t' || (0x20..0x7f).contains(&b)) && s.trim_matches(|c| c == ' ' || c == '\t').len() == s.len()
}

/// `list` of elements of `;`-separated items, an item being `token`, `token/token` or `token=(token|quoted-string)`
fn well_formed(s: &str) -> bool {
    let b = s.as_bytes();
    let tok = |mut i: usize| {
        let st = i;
        while i < b.len() && gen::TCHAR.contains(b[i] as char) {
            i += 1;
        }
        if i > st {
            Some(i)
        } else {
            None
        }
    };
    let ows = |mut i: usize| {
        while i < b.len() && (b[i] == b' ' || b[i] == b'\t') {
            i += 1;
        }
        i
    };
    let mut i = 0;
    loop {
        i = match tok(ows(i)) {
            Some(i) => i,
            None => return false,
        };
        match b.get(i) {
            Some(b'/') => match tok(i + 1) {
                Some(k) => i = k,
                None => return false,
            },
            Some(b'=') if b.get(i + 1) == Some(&b'"') => {
                i += 2;
                loop {
                    match b.get(i) {
                        Some(b'"') => break,
                        Some(b'\\') if b.get(i + 1).map_or(false, |c| *c == b'\t' || (0x20..0x7f).contains(c)) => i += 2,
                        Some(c) if *c != b'\\' && (*c == b'\t' || (0x20..0x7f).contains(c)) => i += 1,
                        _ => return false,
                    }
                }
                i += 1;
            }
            Some(b'=') => match tok(i + 1) {
                Some(k) => i = k,
                None => return false,
            },
            _ => {}
        }
        i = ows(i);
        match b.get(i) {
            None => return true,
            Some(b';') | Some(b',') => i += 1,
            _ => return false,
        }
    }
}
/// the header's own grammar, for the headers whose exact text the builder does not predict
fn grammatical(id: &str, text: &str) -> bool {
    match id {
        "forwarded" | "content-type" | "hsts" | "server-timing" | "allow" | "accept" => text.is_empty() || well_formed(text),
        "www-authenticate" => text.split_once(' ').map_or(false, |(s, rest)| !s.is_empty() && s.chars().all(|c| gen::TCHAR.contains(c)) && well_formed(rest)),
        _ => true,
    }
}

fn build(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let b = (t.build)(&mut c.rng);
    c.note((t.id, &b.desc));
    c.count(&format!("built:{}", t.id));
    let text = b.h.get(t.header).map(|v| v.as_str().to_string()).unwrap_or_default();
    c.sample(|| format!("{}: {} => {:?}", t.id, b.desc, text));
    if b.h.iter().count() != 1 || b.h.get(t.header).map(|v| v.iter().count()) != Some(1) {
        c.fail(format!("lines:{}", t.id), format!("{} wrote {:?}", b.desc, b.h));
    }
    if let Some(want) = &b.text {
        // entity tags have no quoting character
        let esc = !matches!(t.id, "etag" | "if-match" | "if-none-match");
        c.eq(&format!("text:{}", t.id), norm(&text, esc), norm(want, esc), &b.desc);
    }
    if !legal_text(t.id, &text) && !edge_spaces(t.id) {
        c.fail(format!("legal:{}", t.id), format!("{} wrote an illegal field value {:?}", b.desc, text));
    }
    if !grammatical(t.id, &text) {
        c.fail(format!("grammar:{}", t.id), format!("{} wrote {:?}", b.desc, text));
    }
    let r = (t.parse)(&b.h);
    match r {
        PR::Val(v) => {
            c.eq(&format!("round-trip:{}", t.id), v.obs.as_str(), b.obs.as_str(), &(&b.desc, &text));
            if t.id == "traceparent" {
                return; // reading makes a new id
            }
            if t.kind == HKind::Set {
                let mut a: Vec<&str> = v.text.split(',').map(|s| s.trim()).collect();
                let mut z: Vec<&str> = text.split(',').map(|s| s.trim()).collect();
                a.sort_unstable();
                z.sort_unstable();
                c.eq(&format!("same-text:{}", t.id), a, z, &b.desc);
            } else {
                c.eq(&format!("same-text:{}", t.id), v.text.as_str(), text.as_str(), &b.desc);
            }
        }
        // nothing to say: an empty message line may also read as nothing
        PR::Absent if text.is_empty() && t.kind == HKind::Fwd => {}
        other => c.fail(format!("unreadable:{}", t.id), format!("{} wrote {:?}, which reads as {:?}", b.desc, text, other)),
    }
}
/// credentials may carry spaces at their edge; that is up to the caller
fn edge_spaces(id: &str) -> bool {
    id == "authorization"
}

/// legal text written by someone else means what it says, and rewriting it keeps the meaning
fn read(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let (line, obs) = match t.kind {
        HKind::List | HKind::Set => {
            let els: Vec<El> = (0..1 + c.rng.len(5)).map(|_| (t.el)(&mut c.rng)).collect();
            let line = els.iter().map(|e| e.text.as_str()).collect::<Vec<_>>().join(*c.rng.pick(&[",", ", ", " , ", ",\t"]));
            let obs: Vec<String> = els.iter().map(|e| e.obs.clone()).collect();
            (line, list_obs(t.kind, &obs))
        }
        _ => {
            let e = (t.el)(&mut c.rng);
            (e.text, e.obs)
        }
    };
    c.note((t.id, &line));
    c.count(&format!("read:{}", t.id));
    c.sample(|| format!("{}: {:?} = {}", t.id, line, obs));
    if t.kind == HKind::Fwd && line.is_empty() {
        return;
    }
    let h = match put(&[line.clone()], t.header) {
        Some(h) => h,
        None => return,
    };
    match (t.parse)(&h) {
        PR::Val(v) => {
            if !c.eq(&format!("meaning:{}", t.id), v.obs.as_str(), obs.as_str(), &line) {
                return;
            }
            if t.id == "traceparent" || (t.kind == HKind::Fwd && v.text.is_empty()) {
                return;
            }
            let h2 = put(&[v.text.clone()], t.header).unwrap();
            match (t.parse)(&h2) {
                PR::Val(w) => {
                    c.eq(&format!("rewrite:{}", t.id), w.obs.as_str(), obs.as_str(), &(&line, &v.text));
                    if t.kind != HKind::Set {
                        c.eq(&format!("rewrite-text:{}", t.id), w.text.as_str(), v.text.as_str(), &line);
                    }
                }
                other => c.fail(format!("rewrite-unreadable:{}", t.id), format!("{:?} was rewritten as {:?}, which reads as {:?}", line, v.text, other)),
            }
        }
        other => c.fail(format!("refused:{}", t.id), format!("legal value {:?} meaning {} reads as {:?}", line, obs, other)),
    }
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "values of every typed header built through constructors and setters from generated data, and legal field values with random case, white space, quoting, order and extensions; non-trivial: distinct values / texts",
        assumptions: &[
            "the meaning of a legal text is computed by the generator that wrote it",
            "server-timing durations are generated below one hour, where the millisecond text is exact to the nanosecond",
            "a forwarded element lists its for= nodes together, the form the crate models",
        ],
        subs: vec![rand("build", 340_000, 6_800_000, build), rand("read", 340_000, 6_800_000, read)],
    }
}

// ---------------------------------------------------------------- C19

fn malformed(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let bad = (t.bad)(&mut c.rng);
    if t.id == "vary" {
        return;
    }
    // the malformed piece: alone, in the middle of legal elements (lists), or as the last line
    let mut lines: Vec<String> = vec![];
    match t.kind {
        HKind::List | HKind::Set if !bad.is_empty() => {
            let mut parts: Vec<String> = (0..c.rng.len(3)).map(|_| (t.el)(&mut c.rng).text).collect();
            let at = c.rng.below(parts.len() + 1);
            // a quote that is left open would swallow what follows: keep it last on its line
            let at = if bad.matches('"').count() % 2 == 1 { parts.len() } else { at };
            parts.insert(at, bad.clone());
            lines.push(parts.join(", "));
            // legal lines before and behind it
            while c.rng.one_in(3) {
                let legal = (t.el)(&mut c.rng).text;
                let at = c.rng.below(lines.len() + 1);
                lines.insert(at, legal);
            }
            if lines.len() > 1 {
                c.count("malformed_among_lines");
            }
        }
        HKind::List | HKind::Set => return,
        _ => {
            if c.rng.one_in(3) && t.kind == HKind::Single && !matches!(t.id, "content-encoding" | "transfer-encoding") {
                lines.push((t.el)(&mut c.rng).text);
            }
            lines.push(bad.clone());
        }
    }
    let h = match put(&lines, t.header) {
        Some(h) => h,
        None => return,
    };
    c.note((t.id, &lines));
    c.count(&format!("malformed:{}", t.id));
    match (t.parse)(&h) {
        PR::Err(Some(400), _) => c.count("status_400"),
        PR::Err(None, _) if t.kind == HKind::Fwd => c.count("forwarded_parse_errors"),
        PR::Err(s, m) => c.fail(format!("status:{}:{:?}", t.id, s), format!("{:?} gives status {:?}: {}", lines, s, m)),
        PR::Val(v) => c.fail(format!("accepted:{}", t.id), format!("malformed {:?} reads as {:?}", lines, v)),
        PR::Absent => c.fail(format!("silently-absent:{}", t.id), format!("malformed {:?} reads as absent", lines)),
    }
}
/// whatever is refused is refused as a client error
fn refused(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    let n = 1 + c.rng.len(2);
    let lines: Vec<String> = (0..n).map(|_| hostile(&mut c.rng, t)).collect();
    let h = match put(&lines, t.header) {
        Some(h) => h,
        None => return,
    };
    c.note((t.id, &lines));
    match quiet(|| (t.parse)(&h)) {
        Ok(PR::Err(Some(400), _)) => c.count("status_400"),
        Ok(PR::Err(None, _)) if t.kind == HKind::Fwd => c.count("forwarded_parse_errors"),
        Ok(PR::Err(s, m)) => c.fail(format!("status:{}:{:?}", t.id, s), format!("{:?} gives status {:?}: {}", lines, s, m)),
        Ok(PR::Absent) => c.fail(format!("silently-absent:{}", t.id), format!("{:?} reads as absent", lines)),
        Ok(PR::Val(_)) => c.count("accepted"),
        Err(_) => {} // panics belong to C01
    }
}
fn absent(c: &mut Case) {
    let t = &reg()[(c.idx % NH) as usize];
    // other headers present, this one not
    let mut h = hdrs();
    for o in reg() {
        if o.header != t.header {
            let e = (o.el)(&mut c.rng);
            let _ = h.insert(o.header, e.text.as_str());
        }
    }
    let _ = h.append(format!("x-{}", t.header).as_str(), "1");
    if t.kind == HKind::Fwd {
        let _ = h.remove("forwarded");
    }
    c.note((t.id, c.idx));
    let r = (t.parse)(&h);
    if t.id == "basic-auth" || t.id == "authorization" {
        // both live in the same header
        let mut h2 = h.clone();
        let _ = h2.remove("authorization");
        let r = (t.parse)(&h2);
        c.eq(&format!("absent:{}", t.id), r, PR::Absent, &"header removed");
    } else {
        c.eq(&format!("absent:{}", t.id), r, PR::Absent, &"header not present");
    }
    let e = hdrs();
    let r = (t.parse)(&e);
    c.eq(&format!("absent-empty:{}", t.id), r, PR::Absent, &"empty header map");
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "for every typed header: values malformed by construction (alone, among legal elements, as the last line), random hostile values whatever they are, and messages without the header; non-trivial: distinct inputs",
        assumptions: &["the error of Forwarded carries no status", "every ASCII text is accepted as a header name, so Vary has no malformed elements"],
        subs: vec![rand("malformed", 170_000, 3_400_000, malformed), rand("refused", 340_000, 6_800_000, refused), rand("absent", 3_400, 34_000, absent)],
    }
}

// ---------------------------------------------------------------- C26

fn pad(r: &mut Rng, s: &str) -> String {
    format!("{}{}{}", r.pick(&["", "", " ", "\t", "  "]), s, r.pick(&["", "", " ", "\t", " \t"]))
}

fn lines_list(c: &mut Case) {
    let regs = reg();
    let ls: Vec<usize> = (0..regs.len()).filter(|i| matches!(regs[*i].kind, HKind::List | HKind::Set)).collect();
    let t = &regs[ls[(c.idx % ls.len() as u64) as usize]];
    let els: Vec<El> = (0..1 + c.rng.len(7)).map(|_| (t.el)(&mut c.rng)).collect();
    let obs = list_obs(t.kind, &els.iter().map(|e| e.obs.clone()).collect::<Vec<_>>());
    let joined = els.iter().map(|e| e.text.as_str()).collect::<Vec<_>>().join(",");
    // three ways to write the same elements
    let mut variants: Vec<Vec<String>> = vec![vec![joined]];
    variants.push(els.iter().map(|e| e.text.clone()).collect());
    let mut lines: Vec<String> = vec![];
    let mut cur = String::new();
    for (i, e) in els.iter().enumerate() {
        if i > 0 {
            if c.rng.one_in(3) {
                lines.push(std::mem::take(&mut cur));
            } else {
                cur.push(',');
            }
        }
        // a recipient ignores empty elements
        if c.rng.one_in(8) {
            cur.push_str(*c.rng.pick(&[",", " ,", " , ,"]));
        }
        cur.push_str(&pad(&mut c.rng, &e.text));
        if c.rng.one_in(12) {
            cur.push_str(*c.rng.pick(&[",", " ,", ", "]));
        }
    }
    lines.push(cur);
    if c.rng.one_in(10) {
        lines.insert(c.rng.below(lines.len() + 1), String::new());
    }
    variants.push(lines);
    c.note((t.id, &variants));
    c.count(&format!("lists:{}", t.id));
    c.sample(|| format!("{}: {:?} = {}", t.id, variants, obs));
    let mut first: Option<String> = None;
    for (i, v) in variants.iter().enumerate() {
        let h = match put(v, t.header) {
            Some(h) => h,
            None => return,
        };
        match (t.parse)(&h) {
            PR::Val(x) => {
                c.eq(&format!("{}:{}", ["joined", "split", "padded"][i], t.id), x.obs.as_str(), obs.as_str(), v);
                let tx = if t.kind == HKind::Set { x.obs } else { x.text };
                match &first {
                    None => first = Some(tx),
                    Some(f) => {
                        c.eq(&format!("same:{}", t.id), tx.as_str(), f.as_str(), v);
                    }
                }
            }
            other => c.fail(format!("{}:{}", ["joined", "split", "padded"][i], t.id), format!("{:?} reads as {:?}, expected {}", v, other, obs)),
        }
    }
}

fn lines_single(c: &mut Case) {
    let regs = reg();
    let ls: Vec<usize> = (0..regs.len()).filter(|i| regs[*i].kind == HKind::Single).collect();
    let t = &regs[ls[(c.idx % ls.len() as u64) as usize]];
    let lenient = matches!(t.id, "content-encoding" | "transfer-encoding");
    let mut lines: Vec<String> = (0..c.rng.len(3)).map(|_| if !lenient && c.rng.one_in(3) { hostile(&mut c.rng, t) } else { (t.el)(&mut c.rng).text }).collect();
    let e = (t.el)(&mut c.rng);
    lines.push(e.text.clone());
    let h = match put(&lines, t.header) {
        Some(h) => h,
        None => return,
    };
    c.note((t.id, &lines));
    c.count(&format!("singles:{}", t.id));
    match (t.parse)(&h) {
        PR::Val(x) => {
            c.eq(&format!("last:{}", t.id), x.obs.as_str(), e.obs.as_str(), &lines);
        }
        other => c.fail(format!("last:{}", t.id), format!("{:?} reads as {:?}, expected {}", lines, other, e.obs)),
    }
}

/// Forwarded: compared with the joined line when that line can be read
fn lines_forwarded(c: &mut Case) {
    let t = &reg()[32];
    let mut lines: Vec<String> = vec![];
    for _ in 0..1 + c.rng.len(3) {
        // every line carries at least one for= node
        let n = 1 + c.rng.len(2);
        lines.push((0..n).map(|_| format!("for={}", c.rng.pick(&["a", "b", "1.2.3.4", "\"[::1]:80\"", "\"x,y;z\"", "_h"]))).collect::<Vec<_>>().join(", "));
    }
    if c.rng.bool() {
        let l = lines.len() - 1;
        lines[l].push_str(*c.rng.pick(&[";host=h", ";proto=http;host=\"h:1\"", ";by=\"[::2]\""]));
    }
    let joined = lines.join(", ");
    c.note(&lines);
    let (a, b) = match (put(&lines, "forwarded"), put(&[joined.clone()], "forwarded")) {
        (Some(a), Some(b)) => (a, b),
        _ => return,
    };
    match ((t.parse)(&a), (t.parse)(&b)) {
        (PR::Val(x), PR::Val(y)) => {
            c.eq("forwarded", x.obs, y.obs, &lines);
            c.eq("forwarded-text", x.text, y.text, &lines);
        }
        (x, PR::Val(y)) => c.fail("forwarded", format!("{:?} reads as {:?}, joined as {:?}", lines, x, y)),
        _ => c.fail("forwarded-joined", format!("{:?} cannot be read", joined)),
    }
    // the older X-Forwarded-For spelling
    let addrs: Vec<String> = (0..1 + c.rng.len(4)).map(|_| c.rng.pick(&["1.2.3.4", "client", "::1", "2001:db8::5", "10.0.0.1"]).to_string()).collect();
    let want: Vec<String> = addrs.iter().map(|a| if a.contains("::") { format!("[{}]", a) } else { a.clone() }).collect();
    let mut lines: Vec<String> = vec![];
    for a in &addrs {
        let a = pad(&mut c.rng, a);
        match lines.last_mut() {
            Some(l) if c.rng.bool() => {
                l.push(',');
                l.push_str(&a);
            }
            _ => lines.push(a),
        }
    }
    if let Some(h) = put(&lines, "x-forwarded-for") {
        match Forwarded::from_headers(&h) {
            Ok(Some(f)) => {
                c.eq("x-forwarded-for", f.forwarded_for(), want.iter().map(|s| s.as_str()).collect(), &lines);
            }
            other => c.fail("x-forwarded-for", format!("{:?} reads as {:?}", lines, other)),
        };
    }
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "element lists for every list header written joined, one per line, and split at random places with optional white space and empty elements; single-valued headers with earlier (also malformed) lines; non-trivial: distinct line sets",
        assumptions: &["Forwarded is compared only for lines whose joined form the crate can read", "content-encoding and transfer-encoding skip unknown codings, so their earlier lines are legal ones"],
        subs: vec![rand("lists", 200_000, 4_000_000, lines_list), rand("singles", 200_000, 4_000_000, lines_single), rand("forwarded", 40_000, 800_000, lines_forwarded)],
    }
}
