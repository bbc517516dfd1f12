//! C23: the security helpers and the content-security-policy builder.
use super::typed::hdrs;
use crate::gen;
use crate::infra::*;
use http_types::headers::{HeaderValue, Headers};
use http_types::security::{self, ContentSecurityPolicy, FrameOptions, ReferrerOptions, ReportTo, Source};
use http_types::{Request, Response};
use std::collections::BTreeMap;
use std::str::FromStr;

type Map = BTreeMap<String, Vec<String>>;
fn seen(h: &Headers) -> Map {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.iter().map(|v| v.as_str().to_string()).collect())).collect()
}

const SOURCES: &[(Source, &str)] = &[
    (Source::SameOrigin, "'self'"),
    (Source::Src, "'src'"),
    (Source::None, "'none'"),
    (Source::UnsafeInline, "'unsafe-inline'"),
    (Source::Data, "data:"),
    (Source::Mediastream, "mediastream:"),
    (Source::Https, "https:"),
    (Source::Blob, "blob:"),
    (Source::Filesystem, "filesystem:"),
    (Source::StrictDynamic, "'strict-dynamic'"),
    (Source::UnsafeEval, "'unsafe-eval'"),
    (Source::Wildcard, "*"),
];
fn referrer(i: usize) -> (Option<ReferrerOptions>, &'static str) {
    use ReferrerOptions::*;
    [
        (None, "no-referrer"),
        (Some(NoReferrer), "no-referrer"),
        (Some(NoReferrerDowngrade), "no-referrer-when-downgrade"),
        (Some(SameOrigin), "same-origin"),
        (Some(Origin), "origin"),
        (Some(StrictOrigin), "strict-origin"),
        (Some(CrossOrigin), "origin-when-cross-origin"),
        (Some(StrictCrossOrigin), "strict-origin-when-cross-origin"),
        (Some(UnsafeUrl), "unsafe-url"),
    ][i % 9]
}

/// a policy and the directives it was given: name -> sources in order; flags and reports as they are
#[derive(Clone)]
struct Policy {
    p: ContentSecurityPolicy,
    with: BTreeMap<&'static str, Vec<String>>,
    flags: Vec<String>,
    report_only: bool,
    log: Vec<String>,
}
impl Policy {
    fn new(default: bool) -> Policy {
        Policy {
            p: if default { ContentSecurityPolicy::default() } else { ContentSecurityPolicy::new() },
            with: BTreeMap::new(),
            flags: if default { vec!["script-src 'self'".into(), "object-src 'self'".into()] } else { vec![] },
            report_only: false,
            log: vec![if default { "default".into() } else { "new".into() }],
        }
    }
    fn step(&mut self, r: &mut Rng) {
        let (text, src): (String, Option<Source>) = match r.below(3) {
            0 => {
                let s = SOURCES[r.below(SOURCES.len())];
                (s.1.into(), Some(s.0))
            }
            1 => (format!("https://{}.example:{}", gen::word(r), r.below(9000)), None),
            _ => (gen::token(r), None),
        };
        macro_rules! directives {
            ($k:expr; $($i:literal $f:ident $n:literal),*) => { match $k {
                $($i => {
                    match src {
                        Some(s) => { self.p.$f(s); }
                        None if text.len() % 2 == 0 => { self.p.$f(text.clone()); }
                        None => { self.p.$f(text.as_str()); }
                    }
                    self.with.entry($n).or_default().push(text.clone());
                    self.log.push(format!("{} {}", $n, text));
                })*
                _ => {}
            } };
        }
        match r.below(24) {
            18 => {
                self.p.block_all_mixed_content();
                self.flags.push("block-all-mixed-content".into());
                self.log.push("block-all-mixed-content".into());
            }
            19 => {
                self.p.upgrade_insecure_requests();
                self.flags.push("upgrade-insecure-requests".into());
                self.log.push("upgrade-insecure-requests".into());
            }
            20 => {
                self.p.report_only();
                self.report_only = true;
                self.log.push("report only".into());
            }
            21 => {
                let mut list = vec![];
                for _ in 0..r.below(3) {
                    let age = r.range(-5, 100_000);
                    let mut json = String::from("{");
                    if r.bool() {
                        json += &format!("\"group\":\"{}\",", gen::word(r));
                    }
                    json += &format!("\"max_age\":{},\"endpoints\":[", age);
                    let urls: Vec<String> = (0..r.below(3)).map(|_| format!("{{\"url\":\"https://{}.example\"}}", gen::word(r))).collect();
                    json += &urls.join(",");
                    json += "]";
                    if r.bool() {
                        json += &format!(",\"include_subdomains\":{}", r.bool());
                    }
                    json += "}";
                    let e: ReportTo = serde_json::from_str(&json).unwrap();
                    list.push(e);
                    self.flags.push(format!("report-to {}", json));
                    self.log.push(format!("report-to {}", json));
                }
                self.p.report_to(list);
            }
            22 | 23 => {
                // again, to make lists grow
                self.p.script_src(text.as_str());
                self.with.entry("script-src").or_default().push(text.clone());
                self.log.push(format!("script-src {}", text));
            }
            k => directives!(k;
                0 base_uri "base-uri", 1 connect_src "connect-src", 2 default_src "default-src", 3 font_src "font-src", 4 form_action "form-action",
                5 frame_ancestors "frame-ancestors", 6 frame_src "frame-src", 7 img_src "img-src", 8 media_src "media-src", 9 object_src "object-src",
                10 plugin_types "plugin-types", 11 require_sri_for "require-sri-for", 12 report_uri "report-uri", 13 sandbox "sandbox",
                14 script_src "script-src", 15 style_src "style-src", 16 worker_src "worker-src", 17 img_src "img-src"),
        }
    }
    fn want(&self) -> Vec<String> {
        let mut v = self.flags.clone();
        v.extend(self.with.iter().map(|(n, s)| format!("{} {}", n, s.join(" "))));
        v.sort();
        v
    }
    fn name(&self) -> &'static str {
        if self.report_only { "content-security-policy-report-only" } else { "content-security-policy" }
    }
}

fn directives(text: &str) -> Vec<String> {
    let mut v: Vec<String> = text.split("; ").filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    v.sort();
    v
}

fn policies(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut p = Policy::new(r.one_in(4));
    let mut rebuilt = p.clone();
    let mut h = hdrs();
    h.insert("x-other", "1").unwrap();
    if r.one_in(3) {
        h.append("Content-Security-Policy", "old").unwrap();
        h.append("Content-Security-Policy", "older").unwrap();
    }
    let mut want = seen(&h);
    for _ in 0..1 + r.len(14) {
        let mut again = r.clone();
        p.step(&mut r);
        rebuilt.step(&mut again);
        if r.one_in(3) {
            let ctx = p.log.join(", ");
            c.step(|| ctx.clone());
            p.p.apply(&mut h);
            let got = seen(&h);
            let text = got.get(p.name()).and_then(|v| v.last()).cloned().unwrap_or_default();
            c.eq("directives", directives(&text), p.want(), &ctx);
            want.insert(p.name().into(), vec![text.clone()]);
            c.eq("headers", got, want.clone(), &ctx);
            // the same text every time, however the policy came about
            for (i, q) in [p.p.clone(), rebuilt.p.clone()].iter_mut().enumerate() {
                let mut other = hdrs();
                q.apply(&mut other);
                c.eq("the same text", other.get(p.name()).map(|v| v.as_str().to_string()), Some(text.clone()), &(i, &ctx));
                p.p.apply(&mut other);
                c.eq("the same text", other.get(p.name()).map(|v| v.as_str().to_string()), Some(text.clone()), &(i, &ctx));
                c.eq("nothing else", other.iter().count(), 1, &ctx);
            }
            c.eq("equal policies", p.p == rebuilt.p, true, &ctx);
            c.count("policies applied");
            if c.failed() {
                return;
            }
        }
    }
    let ctx = p.log.join(", ");
    // on messages as well
    let (mut q, mut s) = (Request::get("http://a/"), Response::new(200));
    p.p.apply(&mut q);
    p.p.apply(&mut s);
    let t = q.header(p.name()).map(|v| directives(v.as_str()));
    c.eq("request", t, Some(p.want()), &ctx);
    c.eq("response", s.header(p.name()).map(|v| v.as_str().to_string()), q.header(p.name()).map(|v| v.as_str().to_string()), &ctx);
    c.note(&ctx);
    c.sample(|| format!("{} => {:?}", ctx, s.header(p.name())));
}

const NAMES: &[&str] = &["x-dns-prefetch-control", "x-content-type-options", "x-frame-options", "x-powered-by", "strict-transport-security", "x-xss-protection", "referrer-policy", "content-security-policy", "x-other", "set-cookie"];

fn helpers(c: &mut Case) {
    let mut r = c.rng.clone();
    let on = r.below(3);
    let (mut bare, mut q, mut s) = (hdrs(), Request::post("http://a/"), Response::new(404));
    macro_rules! on {
        ($x:ident => $e:expr) => {
            match on {
                0 => { let $x = &mut bare; $e }
                1 => { let $x = &mut q; $e }
                _ => { let $x = &mut s; $e }
            }
        };
    }
    let mut want: Map = BTreeMap::new();
    // a state that was there before
    for _ in 0..r.len(6) {
        let n = *r.pick(NAMES);
        let v = gen::word(&mut r);
        let cased = gen::recase(&mut r, n);
        on!(x => { let h: &mut Headers = x.as_mut(); h.append(cased.as_str(), v.as_str()).unwrap(); });
        want.entry(n.into()).or_default().push(v);
    }
    let mut log = vec![format!("{} {:?}", on, want)];
    for _ in 0..1 + r.len(6) {
        let one = |m: &mut Map, n: &str, v: &str| {
            m.insert(n.into(), vec![v.into()]);
        };
        match r.below(9) {
            0 => {
                log.push("dns".into());
                on!(x => security::dns_prefetch_control(x));
                one(&mut want, "x-dns-prefetch-control", "on");
            }
            1 => {
                log.push("nosniff".into());
                on!(x => security::nosniff(x));
                one(&mut want, "x-content-type-options", "nosniff");
            }
            2 => {
                let (g, t) = match r.below(3) {
                    0 => (None, "sameorigin"),
                    1 => (Some(FrameOptions::SameOrigin), "sameorigin"),
                    _ => (Some(FrameOptions::Deny), "deny"),
                };
                log.push(format!("frameguard {:?}", g));
                on!(x => security::frameguard(x, g));
                one(&mut want, "x-frame-options", t);
            }
            3 => {
                let v = if r.bool() { None } else { Some(gen::ascii_text(&mut r, 10)) };
                log.push(format!("powered by {:?}", v));
                on!(x => security::powered_by(x, v.as_ref().map(|v| HeaderValue::from_str(v).unwrap())));
                match v {
                    Some(v) => one(&mut want, "x-powered-by", &v),
                    None => {
                        want.remove("x-powered-by");
                    }
                }
            }
            4 => {
                log.push("hsts".into());
                on!(x => security::hsts(x));
                one(&mut want, "strict-transport-security", "max-age=5184000");
            }
            5 => {
                log.push("xss".into());
                on!(x => security::xss_filter(x));
                one(&mut want, "x-xss-protection", "1; mode=block");
            }
            6 | 7 => {
                let (o, t) = referrer(r.below(9));
                log.push(format!("referrer {:?}", o));
                on!(x => security::referrer_policy(x, o));
                want.entry("referrer-policy".into()).or_default().push(t.into());
            }
            _ => {
                log.push("default".into());
                on!(x => security::default(x));
                one(&mut want, "x-dns-prefetch-control", "on");
                one(&mut want, "x-content-type-options", "nosniff");
                one(&mut want, "x-frame-options", "sameorigin");
                want.remove("x-powered-by");
                one(&mut want, "strict-transport-security", "max-age=5184000");
                one(&mut want, "x-xss-protection", "1; mode=block");
            }
        }
        let got = on!(x => seen(x.as_ref()));
        c.eq("headers", got, want.clone(), &log);
        c.count("helpers applied");
        if c.failed() {
            return;
        }
    }
    c.eq("message", (q.method(), s.status()), (http_types::Method::Post, http_types::StatusCode::NotFound), &log);
    c.note(&log);
    c.sample(|| log.join(", "));
}

/// every source and every referrer option
fn tables(c: &mut Case) {
    for (s, t) in SOURCES {
        c.eq("source", (s.to_string(), s.as_ref().to_string()), (t.to_string(), t.to_string()), s);
        c.note(t);
    }
    // HSTS as documented: the default is one year with preload, new has neither flag
    use http_types::headers::Header;
    use http_types::security::StrictTransportSecurity as Hsts;
    let year = std::time::Duration::from_secs(31_536_000);
    for (h, t, f) in [
        (Hsts::default(), "max-age=31536000;preload", (false, true)),
        (Hsts::new(year), "max-age=31536000", (false, false)),
        (Hsts::from(year), "max-age=31536000", (false, false)),
    ] {
        let got: Vec<String> = h.header_value().as_str().split(';').map(|s| s.trim().to_ascii_lowercase()).collect();
        let want: Vec<String> = t.split(';').map(|s| s.to_string()).collect();
        c.eq("hsts:text", got, want, &t);
        c.eq("hsts:flags", (h.include_subdomains(), h.preload()), f, &t);
        c.eq("hsts:age", h.max_age(), year, &t);
        c.eq("hsts:name", h.header_name().as_str(), "strict-transport-security", &t);
        c.note(t);
    }
    for i in 0..9 {
        let (o, t) = referrer(i);
        let mut h = hdrs();
        security::referrer_policy(&mut h, o);
        c.eq("referrer", seen(&h), [("referrer-policy".to_string(), vec![t.to_string()])].into_iter().collect(), &o);
        c.note((i, t));
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C23",
        rule: "random builder histories applied repeatedly to header maps, requests and responses with prior state, the text compared as a set of directives and byte by byte with that of clones and of a policy rebuilt from the same calls; random sequences of the header helpers over prior states compared with a model map after each; all source and referrer keywords; non-trivial: distinct histories",
        assumptions: &["the order of different directives within a policy is not judged, only that it is the same every time"],
        subs: vec![rand("policies", 60_000, 1_000_000, policies), rand("helpers", 80_000, 1_000_000, helpers), all("tables", 1, tables)],
    }
}
