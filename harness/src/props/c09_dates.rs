//! C09 dates against an independent calendar and grammar.
use crate::gen;
use crate::infra::*;
use http_types::cache::Expires;
use http_types::conditional::{IfModifiedSince, IfUnmodifiedSince, LastModified};
use http_types::headers::Headers;
use http_types::other::{Date, RetryAfter};
use std::convert::TryFrom;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
const WD: [&str; 7] = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"];
const WDL: [&str; 7] = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"];

fn leap(y: u64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn mlen(y: u64, m: u64) -> u64 {
    match m {
        2 => 28 + leap(y) as u64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// days since 1970-01-01 of the first of January of a year, by counting
pub fn year_start(y: u64) -> u64 {
    thread_local!(static T: Vec<u64> = {
        let mut v = vec![0u64];
        for y in 1970..10001u64 { let l = *v.last().unwrap(); v.push(l + 365 + leap(y) as u64); }
        v
    });
    T.with(|t| t[(y - 1970) as usize])
}
pub fn days(y: u64, m: u64, d: u64) -> u64 {
    let mut n = year_start(y);
    for k in 1..m {
        n += mlen(y, k);
    }
    n + d - 1
}
pub fn civil(mut n: u64) -> (u64, u64, u64) {
    let mut y = 1970 + n / 366;
    while year_start(y + 1) <= n {
        y += 1;
    }
    n -= year_start(y);
    let mut m = 1;
    while n >= mlen(y, m) {
        n -= mlen(y, m);
        m += 1;
    }
    (y, m, n + 1)
}
fn wday(n: u64) -> usize {
    ((n + 3) % 7) as usize
}
pub fn imf(t: u64) -> String {
    let (n, s) = (t / 86400, t % 86400);
    let (y, m, d) = civil(n);
    format!("{}, {:02} {} {:04} {:02}:{:02}:{:02} GMT", WD[wday(n)], d, MON[m as usize - 1], y, s / 3600, s / 60 % 60, s % 60)
}
fn rfc850(t: u64) -> String {
    let (n, s) = (t / 86400, t % 86400);
    let (y, m, d) = civil(n);
    format!("{}, {:02}-{}-{:02} {:02}:{:02}:{:02} GMT", WDL[wday(n)], d, MON[m as usize - 1], y % 100, s / 3600, s / 60 % 60, s % 60)
}
fn asctime(t: u64) -> String {
    let (n, s) = (t / 86400, t % 86400);
    let (y, m, d) = civil(n);
    format!("{} {} {:2} {:02}:{:02}:{:02} {:04}", WD[wday(n)], MON[m as usize - 1], d, s / 3600, s / 60 % 60, s % 60, y)
}

/// What a text denotes
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Deno {
    /// this instant; must be accepted
    At(u64),
    /// not a date: must be refused
    Bad,
    /// not judged whether accepted (leap second, wrong weekday, before 1970); if accepted with Some it must be that instant
    Either(Option<u64>),
}

struct P<'a>(&'a [u8]);
impl<'a> P<'a> {
    fn lit(&mut self, s: &str) -> Option<()> {
        self.0 = self.0.strip_prefix(s.as_bytes())?;
        Some(())
    }
    fn num(&mut self, n: usize) -> Option<u64> {
        if self.0.len() < n || !self.0[..n].iter().all(|b| b.is_ascii_digit()) {
            return None;
        }
        let v = self.0[..n].iter().fold(0, |a, b| a * 10 + (b - b'0') as u64);
        self.0 = &self.0[n..];
        Some(v)
    }
    fn name(&mut self, names: &[&str]) -> Option<usize> {
        let i = names.iter().position(|n| self.0.starts_with(n.as_bytes()))?;
        self.0 = &self.0[names[i].len()..];
        Some(i)
    }
    fn time(&mut self) -> Option<(u64, u64, u64)> {
        let h = self.num(2)?;
        self.lit(":")?;
        let m = self.num(2)?;
        self.lit(":")?;
        Some((h, m, self.num(2)?))
    }
}

type Fields = (usize, u64, u64, u64, (u64, u64, u64));

fn parse3(s: &str) -> Option<Fields> {
    let b = s.as_bytes();
    let f1 = || -> Option<Fields> {
        let mut p = P(b);
        let w = p.name(&WD)?;
        p.lit(", ")?;
        let d = p.num(2)?;
        p.lit(" ")?;
        let m = p.name(&MON)?;
        p.lit(" ")?;
        let y = p.num(4)?;
        p.lit(" ")?;
        let t = p.time()?;
        p.lit(" GMT")?;
        p.0.is_empty().then(|| (w, y, m as u64 + 1, d, t))
    };
    let f2 = || -> Option<Fields> {
        let mut p = P(b);
        let w = p.name(&WDL)?;
        p.lit(", ")?;
        let d = p.num(2)?;
        p.lit("-")?;
        let m = p.name(&MON)?;
        p.lit("-")?;
        let y = p.num(2)?;
        p.lit(" ")?;
        let t = p.time()?;
        p.lit(" GMT")?;
        p.0.is_empty().then(|| (w, if y < 70 { 2000 + y } else { 1900 + y }, m as u64 + 1, d, t))
    };
    let f3 = || -> Option<Fields> {
        let mut p = P(b);
        let w = p.name(&WD)?;
        p.lit(" ")?;
        let m = p.name(&MON)?;
        p.lit(" ")?;
        let d = if p.0.first() == Some(&b' ') {
            p.lit(" ")?;
            p.num(1)?
        } else {
            p.num(2)?
        };
        p.lit(" ")?;
        let t = p.time()?;
        p.lit(" ")?;
        let y = p.num(4)?;
        p.0.is_empty().then(|| (w, y, m as u64 + 1, d, t))
    };
    f1().or_else(f2).or_else(f3)
}

pub fn denote(s: &str) -> Deno {
    if !s.is_ascii() {
        return Deno::Bad;
    }
    let (w, y, m, d, (hh, mm, ss)) = match parse3(s.trim()) {
        Some(f) => f,
        None => return Deno::Bad,
    };
    if d < 1 || d > mlen(y, m) || hh > 23 || mm > 59 || ss > 60 {
        return Deno::Bad;
    }
    if y < 1970 {
        return Deno::Either(None);
    }
    let n = days(y, m, d);
    let t = n * 86400 + hh * 3600 + mm * 60 + ss;
    if ss == 60 || wday(n) != w {
        Deno::Either(Some(t))
    } else {
        Deno::At(t)
    }
}

fn hdrs() -> Headers {
    Headers::try_from(http::HeaderMap::new()).unwrap()
}
fn secs_of(t: SystemTime) -> i64 {
    match t.duration_since(UNIX_EPOCH) {
        Ok(d) => d.as_secs() as i64,
        Err(e) => -(e.duration().as_secs() as i64),
    }
}

type Parse = fn(&Headers) -> http_types::Result<Option<SystemTime>>;
type Write = fn(SystemTime) -> String;
fn txt(h: &dyn Fn(&mut Headers), name: &str) -> String {
    let mut m = hdrs();
    h(&mut m);
    m.get(name).map(|v| v.as_str().to_string()).unwrap_or_default()
}
use http_types::headers::Header;
const KINDS: &[(&str, Parse, Write)] = &[
    ("date", |h| Ok(Date::from_headers(h)?.map(|d| d.into())), |t| txt(&|m| Date::new(t).apply_header(m), "date")),
    ("expires", |h| Ok(Expires::from_headers(h)?.map(|d| d.expiration())), |t| txt(&|m| Expires::new_at(t).apply_header(m), "expires")),
    ("last-modified", |h| Ok(LastModified::from_headers(h)?.map(|d| d.modified())), |t| txt(&|m| LastModified::new(t).apply_header(m), "last-modified")),
    ("if-modified-since", |h| Ok(IfModifiedSince::from_headers(h)?.map(|d| d.modified())), |t| txt(&|m| IfModifiedSince::new(t).apply_header(m), "if-modified-since")),
    ("if-unmodified-since", |h| Ok(IfUnmodifiedSince::from_headers(h)?.map(|d| d.modified())), |t| txt(&|m| IfUnmodifiedSince::new(t).apply_header(m), "if-unmodified-since")),
    ("retry-after", |h| Ok(RetryAfter::from_headers(h)?.map(|d| d.into())), |t| txt(&|m| RetryAfter::new_at(t).apply_header(m), "retry-after")),
];

fn instant(c: &mut Case, kind: usize, t: u64, nanos: u32) {
    let (name, parse, write) = KINDS[kind];
    let at = UNIX_EPOCH + Duration::new(t, nanos);
    let want = imf(t);
    let got = match c.guard("format", &(name, t), || write(at)) {
        Some(g) => g,
        None => return,
    };
    c.eq("format", got, want.clone(), &(name, t, nanos));
    let mut texts = vec![want, asctime(t)];
    if (86400 * 365 * 100 + 86400 * 25) > t {
        texts.push(rfc850(t)); // 1970..2069
    }
    for text in texts {
        let mut h = hdrs();
        h.insert(name, text.as_str()).unwrap();
        match c.guard("parse", &text, || parse(&h)) {
            None => {}
            Some(Ok(Some(x))) => {
                let want = UNIX_EPOCH + Duration::from_secs(t);
                c.check("parse", x == want, || format!("{} {:?}: got {}, expected {}", name, text, secs_of(x), t));
            }
            Some(Ok(None)) => c.fail("parse-none", format!("{} {:?}", name, text)),
            Some(Err(e)) => c.fail("parse-refused", format!("{} {:?}: {}", name, text, e)),
        }
    }
    c.note(t);
    c.sample(|| imf(t));
}

const DAYS: u64 = 2932897; // 1970-01-01 .. 9999-12-31
fn every_day(c: &mut Case) {
    let s = match c.idx % 3 {
        0 => 0,
        1 => 86399,
        _ => c.rng.below(86400) as u64,
    };
    let nanos = if c.idx % 5 == 0 { 999_999_999 } else { 0 };
    instant(c, 0, c.idx * 86400 + s, nanos);
}
fn instants(c: &mut Case) {
    let t = match c.rng.below(5) {
        // the first and the last seconds there are
        0 if c.rng.one_in(8) => c.rng.below(3) as u64,
        0 if c.rng.one_in(8) => DAYS * 86400 - 1 - c.rng.below(3) as u64,
        0 => {
            // around year and month boundaries
            let y = 1970 + c.rng.below(8030) as u64;
            let m = 1 + c.rng.below(12) as u64;
            (days(y, m, 1) * 86400 + c.rng.below(3) as u64).saturating_sub(c.rng.below(4) as u64)
        }
        1 => c.rng.below(3_200_000_000) as u64,
        _ => c.rng.u64() % (DAYS * 86400),
    };
    let k = c.rng.below(KINDS.len());
    let nanos = if c.rng.bool() { c.rng.below(1_000_000_000) as u32 } else { 0 };
    instant(c, k, t, nanos);
    // order before and after
    let u = match c.rng.below(3) {
        0 => t.saturating_add(1).min(DAYS * 86400 - 1),
        1 => t.saturating_sub(1),
        _ => c.rng.u64() % (DAYS * 86400),
    };
    let (name, parse, write) = KINDS[k];
    let rt = |x: u64| -> Option<SystemTime> {
        let mut h = hdrs();
        h.insert(name, write(UNIX_EPOCH + Duration::from_secs(x)).as_str()).ok()?;
        parse(&h).ok()?
    };
    let (a, b) = (rt(t), rt(u));
    c.check("order", a.is_some() && b.is_some() && a.cmp(&b) == t.cmp(&u), || format!("{} {}", t, u));
}

fn judge(c: &mut Case, kind: usize, s: &str) {
    let (name, parse, _) = KINDS[kind];
    let mut h = hdrs();
    if h.insert(name, s).is_err() {
        c.check("ascii-refused", !s.is_ascii(), || s.to_string());
        return;
    }
    if name == "retry-after" && s.trim().parse::<u64>().is_ok() {
        return;
    }
    let got = match c.guard("parse", &s, || parse(&h)) {
        Some(g) => g,
        None => return,
    };
    c.note(s);
    match (denote(s), got) {
        (Deno::At(t), Ok(Some(x))) => {
            c.count("texts_accepted");
            c.check("instant", secs_of(x) == t as i64, || format!("{:?}: got {}, expected {}", s, secs_of(x), t));
        }
        (Deno::At(t), r) => c.fail("refused", format!("{} {:?} denotes {}, got {:?}", name, s, t, r.map_err(|e| e.to_string()))),
        (Deno::Bad, Err(_)) => c.count("texts_refused"),
        (Deno::Bad, r) => c.fail("accepted", format!("{} {:?} is not a date, got {:?}", name, s, r.map(|t| t.map(secs_of)).map_err(|e| e.to_string()))),
        (Deno::Either(Some(t)), Ok(Some(x))) => {
            c.check("instant-loose", secs_of(x) == t as i64, || format!("{:?}: got {}, expected {}", s, secs_of(x), t));
        }
        (Deno::Either(_), Err(_)) => c.count("texts_unjudged"),
        (Deno::Either(None), Ok(_)) => c.fail("pre-1970-accepted", format!("{} {:?}", name, s)),
        (_, Ok(None)) => c.fail("none", s.to_string()),
    }
}

/// every (month, day) including impossible ones, for a choice of years, in the three forms
fn calendar(c: &mut Case) {
    const YEARS: &[u64] = &[1970, 1972, 1999, 2000, 2001, 2023, 2024, 2068, 2069, 2099, 2100, 2104, 2400, 9999];
    let mut i = c.idx as usize;
    let d = (i % 40) as u64;
    i /= 40;
    let m = i % 12;
    i /= 12;
    let y = YEARS[i % YEARS.len()];
    let w = if d >= 1 && d <= mlen(y, m as u64 + 1) { wday(days(y, m as u64 + 1, d)) } else { (d % 7) as usize };
    judge(c, 0, &format!("{}, {:02} {} {:04} 10:20:30 GMT", WD[w], d, MON[m], y));
    judge(c, 1, &format!("{} {} {:2} 10:20:30 {:04}", WD[w], MON[m], d, y));
    judge(c, 2, &format!("{} {} {:02} 10:20:30 {:04}", WD[w], MON[m], d, y));
    if y < 2070 {
        judge(c, 3, &format!("{}, {:02}-{}-{:02} 10:20:30 GMT", WDL[w], d, MON[m], y % 100));
    }
}
fn clock(c: &mut Case) {
    let v = c.idx % 100;
    let mut f = [10u64, 20, 30];
    f[(c.idx / 100) as usize] = v;
    judge(c, 0, &format!("Sun, 06 Nov 1994 {:02}:{:02}:{:02} GMT", f[0], f[1], f[2]));
    judge(c, 1, &format!("Sunday, 06-Nov-94 {:02}:{:02}:{:02} GMT", f[0], f[1], f[2]));
    judge(c, 2, &format!("Sun Nov  6 {:02}:{:02}:{:02} 1994", f[0], f[1], f[2]));
    judge(c, 3, &format!("Sun, 06 Nov {:04} 08:49:37 GMT", c.idx * 37 % 10000));
}
fn mutated(c: &mut Case) {
    let t = if c.rng.bool() { c.rng.below(3_100_000_000) as u64 } else { c.rng.u64() % (DAYS * 86400) };
    let base = match c.rng.below(3) {
        0 => imf(t),
        1 if t < 86400 * 365 * 100 => rfc850(t),
        _ => asctime(t),
    };
    let mut v: Vec<char> = base.chars().collect();
    match c.rng.below(6) {
        0 => {
            // one position replaced by something similar
            let i = c.rng.below(v.len());
            v[i] = *c.rng.pick(&['0', '1', '3', '9', '+', '-', ' ', ':', 'a', 'A', ',', '\t', '.']);
        }
        1 => {
            let i = c.rng.below(v.len());
            v.remove(i);
        }
        2 => {
            let i = c.rng.below(v.len() + 1);
            let ch = *c.rng.pick(&['0', ' ', '+', ':', 'x']);
            v.insert(i, ch);
        }
        3 => {
            let i = c.rng.below(v.len());
            v[i] = if v[i].is_ascii_uppercase() { v[i].to_ascii_lowercase() } else { v[i].to_ascii_uppercase() };
        }
        4 => {
            let s: String = v.iter().collect();
            v = gen::mutate(&mut c.rng, &s, true).chars().collect();
        }
        _ => {
            for ch in v.iter_mut() {
                if ch.is_ascii_digit() && c.rng.one_in(3) {
                    *ch = (b'0' + c.rng.below(10) as u8) as char;
                }
            }
        }
    }
    let s: String = v.into_iter().collect();
    let k = c.rng.below(KINDS.len());
    judge(c, k, &s);
}

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "instants: every day of 1970..9999 with varying time of day, random instants and boundaries through all six date-carrying headers; texts: every (month, day 0..39) in sampled years, all two-digit clock fields, mutations of the three spellings, judged by an independent grammar and calendar; non-trivial: distinct instants and texts",
        assumptions: &[
            "two-digit years map to 1970..2069 as the parser documents",
            "a leap second (:60), a weekday that disagrees with the date, and years before 1970 may be refused or accepted (with the right instant)",
        ],
        subs: vec![
            all("every-day", DAYS, every_day),
            all("calendar", 40 * 12 * 14, calendar),
            all("clock", 300, clock),
            rand("instants", 200_000, 5_000_000, instants),
            rand("mutated", 300_000, 8_000_000, mutated),
        ],
    }
}
