//! Input generators shared by the monitors.
#![allow(dead_code)]
use crate::infra::Rng;

pub const TCHAR: &str = "!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";

pub fn from_set(r: &mut Rng, set: &str, n: usize) -> String {
    let v: Vec<char> = set.chars().collect();
    (0..n).map(|_| *r.pick(&v)).collect()
}

/// RFC 7230 token, at least one char
pub fn token(r: &mut Rng) -> String {
    let n = 1 + r.len(12);
    match r.below(3) {
        0 => from_set(r, "abcxyz019", n),
        1 => from_set(r, "abcDEF-_", n),
        _ => from_set(r, TCHAR, n),
    }
}

pub fn lower_token(r: &mut Rng) -> String {
    token(r).to_ascii_lowercase()
}

/// visible ASCII + space, up to max
pub fn ascii_text(r: &mut Rng, max: usize) -> String {
    let n = r.len(max);
    (0..n).map(|_| (0x20 + r.below(0x5f)) as u8 as char).collect()
}

/// text that loves separators and quotes
pub fn nasty_text(r: &mut Rng, max: usize) -> String {
    let n = r.len(max);
    (0..n)
        .map(|_| match r.below(3) {
            0 => *r.pick(&[',', ';', '=', '"', '\\', ' ', '\t', '/', '*', ':', '-', '.', '(', ')', '<', '>', '[', ']', '!']),
            1 => *r.pick(&['a', 'b', 'z', 'A', 'Z', '0', '1', '9']),
            _ => (0x20 + r.below(0x5f)) as u8 as char,
        })
        .collect()
}

/// any ASCII including control characters
pub fn any_ascii(r: &mut Rng, max: usize) -> String {
    let n = r.len(max);
    (0..n).map(|_| if r.one_in(6) { r.below(128) as u8 as char } else { (0x20 + r.below(0x5f)) as u8 as char }).collect()
}

pub fn unicode_char(r: &mut Rng) -> char {
    match r.below(9) {
        0 => *r.pick(&['\u{80}', '\u{ff}', '\u{e9}', '\u{a0}']),
        1 => *r.pick(&['\u{100}', '\u{122}', '\u{15c}', '\u{12c}', '\u{13d}', '\u{17f}', '\u{212a}', '\u{130}', '\u{3d2}']),
        2 => *r.pick(&['\u{2028}', '\u{feff}', '\u{4e2d}', '\u{fffd}', '\u{2022}', '\u{225c}']),
        3 => *r.pick(&['\u{1f600}', '\u{10ffff}', '\u{10022}']),
        4 => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
        5 => loop {
            // a char whose low byte looks like an interesting ASCII char
            let lo = *r.pick(&[0x22u32, 0x5c, 0x3d, 0x3b, 0x2c, 0x20, 0x61, 0x41, 0x2f, 0x21, 0x09]);
            if let Some(c) = char::from_u32(((1 + r.below(0xfff) as u32) << 8) | lo) {
                break c;
            }
        },
        _ => (0x20 + r.below(0x5f)) as u8 as char,
    }
}

pub fn unicode(r: &mut Rng, max: usize) -> String {
    let n = r.len(max);
    let mut s: String = (0..n).map(|_| unicode_char(r)).collect();
    if r.one_in(8) {
        // control characters and sequences that look encoded already
        for _ in 0..1 + r.below(3) {
            let t = *r.pick(&["\r\n", "\n", "\r", "\t", "\0", "\u{1b}[0m", "\u{7f}", "\u{b}", "%", "%2B", "%zz", "+", "&", "=", "&a=b", ";", "#", "\u{feff}", "\u{85}"]);
            let mut at = r.below(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            s.insert_str(at, t);
        }
    }
    s
}

/// letters/digits word, lower case
pub fn word(r: &mut Rng) -> String {
    let n = 1 + r.below(8);
    from_set(r, "abcdefghijklmnopqrstuvwxyz0123456789", n)
}

pub fn recase(r: &mut Rng, s: &str) -> String {
    match r.below(4) {
        0 => s.to_string(),
        1 => s.to_ascii_uppercase(),
        2 => s.to_ascii_lowercase(),
        _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
    }
}

pub const INTERESTING_NUMBERS: &[&str] = &[
    "0", "1", "-1", "-0", "+1", "00", "007", "1.5", "0.5", "-0.5", "1e3", "1e308", "1e309", "-1e309", "1e-400", "NaN", "nan", "inf", "-inf", "infinity",
    "65535", "65536", "65736", "131272", "4294967295", "4294967296", "9007199254740993", "9223372036854775807",
    "9223372036854775808", "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211456",
    "99999999999999999999999999999999999999999999", "1.8446744073709552e19", "0x10", "1_000", " 1", "1 ", "", ".", "1.", ".1", "0.001", "0.0009", "1.001", "1.0000001", "2",
];

/// a number on or beside the edge of what some machine type holds, in some spelling
pub fn edge_number(r: &mut Rng) -> String {
    let digits = match r.below(5) {
        0 => r.pick(INTERESTING_NUMBERS).to_string(),
        1 => {
            let f = 2f64.powi(r.below(140) as i32) * r.pick(&[1.0, 1e3, 1e6, 1e9, 1e-3, 1e-9, 60.0, 3600.0, 86400.0]);
            let f = f64::from_bits((f.to_bits() as i64 + r.below(5) as i64 - 2) as u64);
            if r.bool() { format!("{}", f) } else { format!("{:e}", f) }
        }
        2 => {
            let n = 10u128.pow(r.below(39) as u32);
            (n + r.below(3) as u128 - 1).to_string()
        }
        _ => {
            let n = 1u128 << r.below(128);
            n.wrapping_add(r.below(5) as u128).wrapping_sub(2).to_string()
        }
    };
    match r.below(8) {
        0 => format!("{}000", digits),
        1 => format!("{}{}", digits, "0".repeat(r.below(12))),
        2 => format!("{}{}", "0".repeat(r.below(6)), digits),
        3 => {
            let at = r.below(digits.len() + 1);
            if digits.is_ascii() { format!("{}.{}", &digits[..at], &digits[at..]) } else { digits }
        }
        4 => format!("{}e{}", digits, r.below(50) as i64 - 25),
        5 => format!("{}{}", r.pick(&["+", "-", "0x", " "]), digits),
        _ => digits,
    }
}
/// the value with one (or each) of its numbers replaced
pub fn with_edge_numbers(r: &mut Rng, s: &str) -> String {
    let each = r.one_in(4);
    let runs: Vec<(usize, usize)> = {
        let b = s.as_bytes();
        let (mut v, mut i) = (vec![], 0);
        while i < b.len() {
            if b[i].is_ascii_digit() {
                let st = i;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == b'.') {
                    i += 1;
                }
                v.push((st, i));
            } else {
                i += 1;
            }
        }
        v
    };
    if runs.is_empty() {
        return format!("{}{}", s, edge_number(r));
    }
    let only = r.below(runs.len());
    let (mut out, mut at) = (String::new(), 0);
    for (k, (a, b)) in runs.iter().enumerate() {
        if each || k == only {
            out.push_str(&s[at..*a]);
            out.push_str(&edge_number(r));
            at = *b;
        }
    }
    out.push_str(&s[at..]);
    out
}

/// words that mean something to some parser of the crate
pub const WORDS: &[&str] = &[
    "for", "by", "host", "proto", "For", "HOST", "q", "Q", "charset", "utf-8", "UTF-8", "gbk", "dur", "desc", "max-age", "s-maxage", "max-stale",
    "min-fresh", "no-cache", "no-store", "private", "public", "must-revalidate", "stale-if-error", "stale-while-revalidate", "immutable", "only-if-cached",
    "no-transform", "proxy-revalidate", "gzip", "br", "deflate", "zstd", "identity", "chunked", "trailers", "*", "*/*", "text/*", "text/html", "application/json", "Basic", "Bearer",
    "Digest", "HOBA", "Mutual", "Negotiate", "OAuth", "SCRAM-SHA-1", "SCRAM-SHA-256", "Vapid", "realm", "includeSubDomains", "includesubdomains", "preload", "W/", "\"*\"", "\"cache\"", "\"cookies\"",
    "\"storage\"", "\"executionContexts\"", "null", "100-continue", "GET", "POST", "HTTP/1.1", "http", "https", "https://example.com", "Sun, 06 Nov 1994 08:49:37 GMT",
    "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "GMT", "00-0af7651916cd43dd8448eb211c80319c-00f067aa0ba902b7-01", "00", "01", "-", "--", "---",
    "_gazonk", "127.0.0.1", "[2001:db8::1]", "[", "unknown", "boundary=\"a;b\"",
];

/// grammar soup: a mix of meaningful words, numbers, separators and noise, ASCII only
pub fn soup(r: &mut Rng, max_parts: usize) -> String {
    let n = r.len(max_parts);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(8) {
            0 | 1 => s.push_str(r.pick(WORDS)),
            2 => s.push_str(r.pick(INTERESTING_NUMBERS)),
            3 | 4 => s.push_str(r.pick(&[",", ";", "=", "\"", "\\", " ", ", ", "; ", "\t", "/", ":", "-", "=\"", "\",", "\";", ";q=", "\\\"", ",,", ";;"])),
            5 => {
                let t = token(r);
                s.push_str(&t)
            }
            6 => {
                let t = nasty_text(r, 6);
                s.push_str(&t)
            }
            _ => {
                let t = any_ascii(r, 6);
                s.push_str(&t)
            }
        }
    }
    s
}

/// one or more random edits (ASCII stays ASCII)
pub fn mutate(r: &mut Rng, s: &str, ascii: bool) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        match r.below(8) {
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
            }
            1 if !v.is_empty() => {
                let i = r.below(v.len());
                v.truncate(i);
            }
            2 => {
                let i = r.below(v.len() + 1);
                let c = if ascii { r.below(128) as u8 as char } else { unicode_char(r) };
                v.insert(i, c);
            }
            3 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = if ascii { (0x20 + r.below(0x5f)) as u8 as char } else { unicode_char(r) };
            }
            4 if !v.is_empty() => {
                let i = r.below(v.len());
                let j = i + r.below(v.len() - i) + 1;
                let part: Vec<char> = v[i..j].to_vec();
                let at = r.below(v.len() + 1);
                v.splice(at..at, part);
            }
            5 => {
                let i = r.below(v.len() + 1);
                let w: Vec<char> = r.pick(WORDS).chars().collect();
                v.splice(i..i, w);
            }
            6 => {
                let i = r.below(v.len() + 1);
                let w: Vec<char> = r.pick(INTERESTING_NUMBERS).chars().collect();
                v.splice(i..i, w);
            }
            _ => {
                let i = r.below(v.len() + 1);
                v.insert(i, *r.pick(&[',', ';', '=', '"', '\\', ' ', '\t', '/', '-']));
            }
        }
        if v.len() > 4000 {
            v.truncate(4000);
        }
    }
    v.into_iter().collect()
}

pub fn bytes(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(16),
        _ => r.below(max + 1),
    };
    (0..n).map(|_| r.u64() as u8).collect()
}

/// names that mean something to HTTP software
pub const STANDARD: &[&str] = &[
    "content-encoding", "content-language", "content-length", "content-location", "content-md5", "content-range", "content-type", "cookie",
    "set-cookie", "transfer-encoding", "date", "host", "origin", "access-control-max-age", "access-control-allow-origin", "access-control-allow-headers",
    "access-control-allow-methods", "access-control-expose-headers", "access-control-request-method", "access-control-request-headers", "access-control-allow-credentials", "accept", "accept-charset", "accept-encoding",
    "accept-language", "accept-ranges", "age", "allow", "authorization", "cache-control", "clear-site-data", "connection",
    "etag", "expect", "expires", "forwarded", "from", "if-match", "if-modified-since", "if-none-match",
    "if-range", "if-unmodified-since", "last-modified", "location", "max-forwards", "pragma", "proxy-authenticate", "proxy-authorization",
    "proxy-connection", "referer", "retry-after", "server", "server-timing", "sourcemap", "strict-transport-security", "te",
    "timing-allow-origin", "traceparent", "trailer", "upgrade", "user-agent", "vary", "via", "warning",
    "www-authenticate", "keep-alive", "x-forwarded-host", "x-forwarded-proto", "x-request-id", "x-powered-by", "x-frame-options", "content-security-policy",
    "content-disposition", "dnt", "link", "alt-svc", "early-data", "authority", "http2-settings", "sec-websocket-key",
    "refresh", "tracestate", "x-real-ip", "permissions-policy", "priority", "digest", "range", "public-key-pins",
    "if", "x-http-method-override",
];
pub fn standard_name(r: &mut Rng) -> String {
    r.pick(STANDARD).to_string()
}
/// texts that mean something in some header
pub fn typical_value(r: &mut Rng) -> String {
    r.pick(&[
        "", "0", "1", "5", "chunked", "close", "keep-alive", "gzip", "gzip, br", "identity", "*", "*/*", "text/html", "text/html; charset=utf-8", "no-cache", "no-store", "max-age=0", "a, b", "a,b", "a=b",
        "example.com", "example.com:80", "https://example.com/a", "/", "trailers", "100-continue", "bytes", "none", "null", "true", "?1", "on", "W/\"a\"", "\"a\"", "Sun, 06 Nov 1994 08:49:37 GMT", "Basic YTpi", "a=b; Path=/", "a=b; c=d",
        "1; mode=block", "127.0.0.1", "for=1.2.3.4", "h2c", "websocket", "GET", "GET, HEAD", "-1", "q=0",
    ])
    .to_string()
}

pub fn header_name(r: &mut Rng) -> String {
    if r.one_in(4) {
        let s = standard_name(r);
        return recase(r, &s);
    }
    const KNOWN: &[&str] = &[
        "Host", "Content-Type", "X-Foo", "Accept", "x-forwarded-for", "Set-Cookie", "ETag", "Vary", "A", "b", "x", "Content-Length", "Date", "Trailer",
    ];
    match r.below(3) {
        0 => token(r),
        _ => {
            let s = *r.pick(KNOWN);
            recase(r, s)
        }
    }
}

/// seconds distribution
pub fn secs(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => r.below(100) as u64,
        3 => 60 * 60 * 24 * 365,
        4 => u32::MAX as u64 + r.below(3) as u64,
        5 => (1u64 << 53) + r.below(5) as u64,
        6 => u64::MAX - r.below(3) as u64,
        7 => r.u64() >> r.below(64),
        _ => r.below(1_000_000) as u64,
    }
}
