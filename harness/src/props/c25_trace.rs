//! C25: trace context identity through chains of child / propagate / set_sampled.
use super::typed::hdrs;
use crate::infra::*;
use http_types::headers::{Header, Headers, ToHeaderValues};
use http_types::trace::TraceContext;
use http_types::{Method, Request, Response, StatusCode};
use std::collections::HashSet;

/// what is known about a context; flags are the whole byte
#[derive(Debug, Clone, PartialEq)]
struct M {
    version: u8,
    trace: u128,
    parent: Option<u64>,
    flags: u8,
}

fn hex_lower(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b))
}

fn text(c: &mut Case, t: &TraceContext, m: &M) -> String {
    let disp = t.to_string();
    let val = t.header_value().as_str().to_string();
    c.eq("text:display-is-header", disp.clone(), val, m);
    let want = format!("{:02x}-{:032x}-{:016x}-{:02x}", m.version, m.trace, t.id(), m.flags);
    c.eq("text", disp.clone(), want, m);
    let parts: Vec<&str> = disp.split('-').collect();
    let lens: Vec<usize> = parts.iter().map(|p| p.len()).collect();
    c.check("text:shape", disp.len() == 55 && lens == [2, 32, 16, 2] && parts.iter().all(|p| hex_lower(p)), || disp.clone());
    c.check("text:name", t.header_name().as_str() == "traceparent", || t.header_name().as_str().into());
    disp
}

fn observe(c: &mut Case, t: &TraceContext, m: &M) {
    c.eq("version", t.version(), m.version, m);
    c.eq("trace_id", t.trace_id(), m.trace, m);
    c.eq("parent_id", t.parent_id(), m.parent, m);
    c.eq("sampled", t.sampled(), m.flags & 1 == 1, m);
    text(c, t, m);
}

enum Msg {
    Q(Request),
    S(Response),
    H(Headers),
}
impl Msg {
    fn new(r: &mut Rng) -> Msg {
        match r.below(3) {
            0 => Msg::Q(Request::new(Method::Get, "http://a/")),
            1 => Msg::S(Response::new(StatusCode::Ok)),
            _ => Msg::H(hdrs()),
        }
    }
    fn h(&mut self) -> &mut Headers {
        match self {
            Msg::Q(q) => q.as_mut(),
            Msg::S(q) => q.as_mut(),
            Msg::H(h) => h,
        }
    }
    fn read(&self) -> http_types::Result<Option<TraceContext>> {
        match self {
            Msg::Q(q) => TraceContext::from_headers(q),
            Msg::S(q) => TraceContext::from_headers(q),
            Msg::H(h) => TraceContext::from_headers(h),
        }
    }
}

fn num128(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => r.below(3) as u128,
        1 => u128::MAX - r.below(3) as u128,
        2 => r.u64() as u128,
        3 => (r.u64() as u128) << 64,
        4 => 1u128 << r.below(128),
        _ => ((r.u64() as u128) << 64) | r.u64() as u128,
    }
}

/// read from a given text, then a chain of operations over messages
fn chain(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ids: HashSet<u64> = HashSet::new();
    let (mut t, mut m) = if r.one_in(4) {
        let t = TraceContext::new();
        let m = M { version: 0, trace: t.trace_id(), parent: None, flags: 1 };
        (t, m)
    } else {
        let m = M { version: if r.bool() { 0 } else { r.u64() as u8 }, trace: num128(&mut r), parent: Some(num128(&mut r) as u64), flags: if r.bool() { r.below(2) as u8 } else { r.u64() as u8 } };
        let mut s = format!("{:02x}-{:032x}-{:016x}-{:02x}", m.version, m.trace, m.parent.unwrap(), m.flags);
        if r.one_in(5) {
            s = s.to_ascii_uppercase();
        }
        let mut msg = Msg::new(&mut r);
        if r.one_in(4) {
            msg.h().append("traceparent", "00-00000000000000000000000000000009-0000000000000009-01").unwrap();
        }
        msg.h().append(if r.bool() { "traceparent" } else { "Traceparent" }, s.as_str()).unwrap();
        c.step(|| format!("read {}", s));
        match msg.read() {
            Ok(Some(t)) => (t, m),
            o => {
                c.fail("read", format!("{:?} from {}", o.map(|t| t.map(|t| t.to_string())), s));
                return;
            }
        }
    };
    observe(c, &t, &m);
    ids.insert(t.id());
    let start = m.clone();
    let n = r.len(12);
    for _ in 0..n {
        match r.below(5) {
            0 | 1 => {
                c.step(|| "child".into());
                let k = t.child();
                m = M { parent: Some(t.id()), ..m };
                observe(c, &k, &m);
                c.check("child:fresh id", ids.insert(k.id()), || format!("id {:x} was used before in the chain", k.id()));
                t = k;
            }
            2 => {
                let b = r.bool();
                c.step(|| format!("set_sampled {}", b));
                let id = t.id();
                t.set_sampled(b);
                m.flags = (m.flags & 0xfe) | b as u8;
                c.eq("set_sampled:id", t.id(), id, &m);
                observe(c, &t, &m);
            }
            _ => {
                // propagate to a message and read it there
                let mut msg = Msg::new(&mut r);
                if r.bool() {
                    msg.h().insert("traceparent", "00-00000000000000000000000000000007-0000000000000007-00").unwrap();
                }
                msg.h().insert("x-other", "kept").unwrap();
                let how = r.below(4);
                c.step(|| format!("propagate {}", how));
                match how {
                    0 => t.apply_header(msg.h()),
                    1 => {
                        msg.h().insert(t.header_name(), t.header_value()).unwrap();
                    }
                    2 => match msg {
                        Msg::Q(ref mut q) => t.apply_header(q),
                        Msg::S(ref mut q) => t.apply_header(q),
                        Msg::H(ref mut h) => t.apply_header(h),
                    },
                    _ => {
                        let vs: Vec<_> = t.header_value().to_header_values().unwrap().collect();
                        msg.h().insert("traceparent", vs.as_slice()).unwrap();
                    }
                }
                let sent = text(c, &t, &m);
                let lines: Vec<String> = msg.h().get("traceparent").map(|v| v.iter().map(|v| v.as_str().to_string()).collect()).unwrap_or_default();
                c.eq("propagate:lines", lines, vec![sent], &m);
                c.eq("propagate:others", msg.h().get("x-other").map(|v| v.as_str().to_string()), Some("kept".into()), &m);
                match msg.read() {
                    Ok(Some(k)) => {
                        m = M { parent: Some(t.id()), ..m };
                        observe(c, &k, &m);
                        c.check("received:fresh id", ids.insert(k.id()), || format!("id {:x} was used before in the chain", k.id()));
                        // reading does not change the message
                        t = k;
                    }
                    o => {
                        c.fail("propagate:read", format!("{:?}", o.map(|t| t.map(|t| t.to_string()))));
                        return;
                    }
                }
            }
        }
        c.count("operations");
        c.eq("trace id of the chain", t.trace_id(), start.trace, &start);
        if c.failed() {
            return;
        }
    }
    c.note((start.version, start.trace, start.flags, n));
    c.sample(|| format!("{:?} then {} operations", start, n));
}

/// flags and version: every byte, with both values of the sampled flag
fn bytes(c: &mut Case) {
    let (v, f) = ((c.idx >> 8) as u8, c.idx as u8);
    let mut h = hdrs();
    h.insert("traceparent", format!("{:02x}-{:032x}-{:016x}-{:02x}", v, 1, 2, f).as_str()).unwrap();
    match TraceContext::from_headers(&h) {
        Ok(Some(mut t)) => {
            let mut m = M { version: v, trace: 1, parent: Some(2), flags: f };
            observe(c, &t, &m);
            for b in [true, false, false, true, true] {
                t.set_sampled(b);
                m.flags = (f & 0xfe) | b as u8;
                observe(c, &t, &m);
                let k = t.child();
                observe(c, &k, &M { parent: Some(t.id()), ..m.clone() });
            }
        }
        o => c.fail("bytes:read", format!("{:?}", o.map(|t| t.map(|t| t.to_string())))),
    }
    c.note(c.idx);
}

/// ids of unrelated contexts do not collide and trace ids are not shared
fn fresh(c: &mut Case) {
    let n = 64;
    let base = TraceContext::new();
    let mut ids = HashSet::new();
    let mut traces = HashSet::new();
    ids.insert(base.id());
    traces.insert(base.trace_id());
    for _ in 0..n {
        let a = TraceContext::new();
        c.check("fresh:trace", traces.insert(a.trace_id()), || format!("{:x} drawn twice", a.trace_id()));
        c.check("fresh:id", ids.insert(a.id()), || format!("{:x} drawn twice", a.id()));
        let k = base.child();
        c.check("fresh:child", ids.insert(k.id()), || format!("{:x} drawn twice", k.id()));
        c.check("fresh:new", a.parent_id().is_none() && a.sampled() && a.version() == 0, || a.to_string());
    }
    c.note(c.idx);
}

pub fn prop() -> Prop {
    Prop {
        id: "C25",
        rule: "all 65536 version/flag pairs with set_sampled and child; random chains of child, set_sampled and propagation through requests, responses and header maps from random or fresh contexts, compared with a model of version, trace id, parent and flags after every step; non-trivial: distinct starting contexts and chain lengths",
        assumptions: &["two fresh 64-bit ids of one chain are equal with negligible probability"],
        subs: vec![all("bytes", 65536, bytes), rand("chain", 60_000, 3_000_000, chain), rand("fresh", 200, 10_000, fresh)],
    }
}
