//! C17: method, status and version codecs against the registries, exhaustively where finite.
use crate::gen;
use crate::infra::*;
use http_types::{Method, Response, StatusCode, Version};
use serde::de::value::{self, Error as VErr};
use serde::de::{Deserialize, IntoDeserializer};
use serde::Serialize;
use std::collections::HashSet;
use std::convert::TryFrom;
use std::str::FromStr;

/// IANA HTTP Status Code Registry, as far as the crate has variants for it
const STATUS: &[(u16, StatusCode, &[&str])] = {
    use StatusCode::*;
    &[
        (100, Continue, &["continue"]),
        (101, SwitchingProtocols, &["switchingprotocols"]),
        (103, EarlyHints, &["earlyhints"]),
        (200, Ok, &["ok"]),
        (201, Created, &["created"]),
        (202, Accepted, &["accepted"]),
        (203, NonAuthoritativeInformation, &["nonauthoritativeinformation"]),
        (204, NoContent, &["nocontent"]),
        (205, ResetContent, &["resetcontent"]),
        (206, PartialContent, &["partialcontent"]),
        (207, MultiStatus, &["multistatus"]),
        (226, ImUsed, &["imused"]),
        (300, MultipleChoice, &["multiplechoice", "multiplechoices"]),
        (301, MovedPermanently, &["movedpermanently"]),
        (302, Found, &["found"]),
        (303, SeeOther, &["seeother"]),
        (304, NotModified, &["notmodified"]),
        (307, TemporaryRedirect, &["temporaryredirect"]),
        (308, PermanentRedirect, &["permanentredirect"]),
        (400, BadRequest, &["badrequest"]),
        (401, Unauthorized, &["unauthorized"]),
        (402, PaymentRequired, &["paymentrequired"]),
        (403, Forbidden, &["forbidden"]),
        (404, NotFound, &["notfound"]),
        (405, MethodNotAllowed, &["methodnotallowed"]),
        (406, NotAcceptable, &["notacceptable"]),
        (407, ProxyAuthenticationRequired, &["proxyauthenticationrequired"]),
        (408, RequestTimeout, &["requesttimeout"]),
        (409, Conflict, &["conflict"]),
        (410, Gone, &["gone"]),
        (411, LengthRequired, &["lengthrequired"]),
        (412, PreconditionFailed, &["preconditionfailed"]),
        (413, PayloadTooLarge, &["payloadtoolarge", "contenttoolarge"]),
        (414, UriTooLong, &["uritoolong"]),
        (415, UnsupportedMediaType, &["unsupportedmediatype"]),
        (416, RequestedRangeNotSatisfiable, &["requestedrangenotsatisfiable", "rangenotsatisfiable"]),
        (417, ExpectationFailed, &["expectationfailed"]),
        (418, ImATeapot, &["imateapot"]),
        (421, MisdirectedRequest, &["misdirectedrequest"]),
        (422, UnprocessableEntity, &["unprocessableentity", "unprocessablecontent"]),
        (423, Locked, &["locked"]),
        (424, FailedDependency, &["faileddependency"]),
        (425, TooEarly, &["tooearly"]),
        (426, UpgradeRequired, &["upgraderequired"]),
        (428, PreconditionRequired, &["preconditionrequired"]),
        (429, TooManyRequests, &["toomanyrequests"]),
        (431, RequestHeaderFieldsTooLarge, &["requestheaderfieldstoolarge"]),
        (451, UnavailableForLegalReasons, &["unavailableforlegalreasons"]),
        (500, InternalServerError, &["internalservererror"]),
        (501, NotImplemented, &["notimplemented"]),
        (502, BadGateway, &["badgateway"]),
        (503, ServiceUnavailable, &["serviceunavailable"]),
        (504, GatewayTimeout, &["gatewaytimeout"]),
        (505, HttpVersionNotSupported, &["httpversionnotsupported"]),
        (506, VariantAlsoNegotiates, &["variantalsonegotiates"]),
        (507, InsufficientStorage, &["insufficientstorage"]),
        (508, LoopDetected, &["loopdetected"]),
        (510, NotExtended, &["notextended"]),
        (511, NetworkAuthenticationRequired, &["networkauthenticationrequired"]),
    ]
};

/// IANA HTTP Method Registry, as far as the crate has variants: name, variant, safe
pub const METHODS: &[(&str, Method, bool)] = {
    use Method::*;
    &[
        ("ACL", Acl, false),
        ("BASELINE-CONTROL", BaselineControl, false),
        ("BIND", Bind, false),
        ("CHECKIN", Checkin, false),
        ("CHECKOUT", Checkout, false),
        ("CONNECT", Connect, false),
        ("COPY", Copy, false),
        ("DELETE", Delete, false),
        ("GET", Get, true),
        ("HEAD", Head, true),
        ("LABEL", Label, false),
        ("LINK", Link, false),
        ("LOCK", Lock, false),
        ("MERGE", Merge, false),
        ("MKACTIVITY", MkActivity, false),
        ("MKCALENDAR", MkCalendar, false),
        ("MKCOL", MkCol, false),
        ("MKREDIRECTREF", MkRedirectRef, false),
        ("MKWORKSPACE", MkWorkspace, false),
        ("MOVE", Move, false),
        ("OPTIONS", Options, true),
        ("ORDERPATCH", OrderPatch, false),
        ("PATCH", Patch, false),
        ("POST", Post, false),
        ("PRI", Pri, true),
        ("PROPFIND", PropFind, true),
        ("PROPPATCH", PropPatch, false),
        ("PUT", Put, false),
        ("REBIND", Rebind, false),
        ("REPORT", Report, true),
        ("SEARCH", Search, true),
        ("TRACE", Trace, true),
        ("UNBIND", Unbind, false),
        ("UNCHECKOUT", Uncheckout, false),
        ("UNLINK", Unlink, false),
        ("UNLOCK", Unlock, false),
        ("UPDATE", Update, false),
        ("UPDATEREDIRECTREF", UpdateRedirectRef, false),
        ("VERSION-CONTROL", VersionControl, false),
    ]
};

/// in chronological order
pub const VERSIONS: &[(&str, Version)] = {
    use Version::*;
    &[("HTTP/0.9", Http0_9), ("HTTP/1.0", Http1_0), ("HTTP/1.1", Http1_1), ("HTTP/2", Http2_0), ("HTTP/3", Http3_0)]
};

pub fn statuses() -> Vec<(u16, StatusCode)> {
    STATUS.iter().map(|s| (s.0, s.1)).collect()
}

fn want(n: i128) -> Option<StatusCode> {
    STATUS.iter().find(|s| s.0 as i128 == n).map(|s| s.1)
}

fn de<'a, T: Deserialize<'a>, D: IntoDeserializer<'a, VErr>>(d: D) -> Option<T> {
    T::deserialize(d.into_deserializer()).ok()
}

/// every integer form serde can offer that holds the number
fn serde_number(c: &mut Case, n: i128) {
    let w = want(n);
    let sig = "status:serde";
    macro_rules! as_int {
        ($($t:ty),*) => {$(
            if let Ok(v) = <$t>::try_from(n) {
                c.eq(sig, de::<StatusCode, $t>(v), w, &(stringify!($t), v));
            }
        )*};
    }
    as_int!(u8, u16, u32, u64, i8, i16, i32, i64);
    if let Ok(v) = i64::try_from(n) {
        c.eq("status:serde:json", serde_json::from_str::<StatusCode>(&v.to_string()).ok(), w, &v);
    } else {
        c.eq("status:serde:json", serde_json::from_str::<StatusCode>(&n.to_string()).ok(), w, &n);
    }
    if let Ok(v) = u64::try_from(n) {
        c.eq("status:serde:value", serde_json::from_value::<StatusCode>(serde_json::json!(v)).ok(), w, &v);
    }
}

fn status_all(c: &mut Case) {
    let n = c.idx as u16;
    let w = want(n as i128);
    c.eq("status:from number", StatusCode::try_from(n).ok(), w, &n);
    serde_number(c, n as i128);
    // the same bits in another width or sign are different numbers
    serde_number(c, n as i128 + 65536);
    serde_number(c, n as i128 - 65536);
    serde_number(c, n as i128 + (1 << 32));
    serde_number(c, -(n as i128));
    let made = quiet(|| Response::new(n).status());
    c.eq("status:Response::new", made.ok(), w, &n);
    if let Some(s) = w {
        c.eq("status:to number", u16::from(s), n, &s);
        c.eq("status:as", s as u16, n, &s);
        c.eq("status:eq number", (s == n, n == s), (true, true), &s);
        let d = n / 100;
        c.eq("status:classes", (s.is_informational(), s.is_success(), s.is_redirection(), s.is_client_error(), s.is_server_error()), (d == 1, d == 2, d == 3, d == 4, d == 5), &s);
        let names = STATUS.iter().find(|x| x.0 == n).unwrap().2;
        let reason = s.canonical_reason();
        let plain: String = reason.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>().to_ascii_lowercase();
        c.check("status:reason", names.contains(&plain.as_str()), || format!("{} has the reason {:?}", n, reason));
        let text = s.to_string();
        c.check("status:display", text.contains(&n.to_string()) && text.contains(reason), || text.clone());
        c.eq("status:serialize", serde_json::to_string(&s).ok(), Some(n.to_string()), &s);
        c.eq("status:serialize:value", serde_json::to_value(s).ok().and_then(|v| v.as_u64()), Some(n as u64), &s);
        c.eq("status:response", http_types::Response::new(s).status(), s, &s);
        for other in STATUS {
            c.eq("status:distinct", s == other.1, n == other.0, &(n, other.0));
            c.eq("status:distinct number", s == other.0, n == other.0, &(n, other.0));
        }
        c.count("registered codes");
    }
    c.note(n);
}

fn status_wide(c: &mut Case) {
    let mut r = c.rng.clone();
    let base = STATUS[r.below(STATUS.len())].0 as i128;
    let n = match r.below(5) {
        0 => base + 65536 * r.range(-40000, 40000) as i128,
        1 => base + (1i128 << (16 + r.below(47))),
        2 => base - (1i128 << (16 + r.below(47))),
        3 => r.u64() as i128,
        _ => r.u64() as i64 as i128,
    };
    serde_number(c, n);
    // numbers of another kind
    let f = base as f64 + if r.bool() { 0.5 } else { 65536.0 };
    c.eq("status:serde:float", de::<StatusCode, f64>(f), None, &f);
    let s = if r.bool() { base.to_string() } else { gen::soup(&mut r, 3) };
    let got: Option<StatusCode> = StatusCode::deserialize(value::StrDeserializer::<VErr>::new(&s)).ok();
    c.check("status:serde:text", got.is_none() || want(s.trim().parse().unwrap_or(0)) == got, || format!("{:?} gave {:?}", s, got));
    c.check("status:serde:bool", de::<StatusCode, bool>(true).is_none(), || "accepted true".into());
    c.note(n);
    c.sample(|| n.to_string());
}

fn method_want(s: &str) -> Option<Method> {
    METHODS.iter().find(|m| m.0.len() == s.len() && m.0.bytes().zip(s.bytes()).all(|(a, b)| a == b.to_ascii_uppercase())).map(|m| m.1)
}

fn method_text(c: &mut Case, s: &str) {
    let w = method_want(s);
    c.eq("method:from_str", Method::from_str(s).ok(), w, &s);
    c.eq("method:try_from", Method::try_from(s).ok(), w, &s);
    c.eq("method:serde:str", Method::deserialize(value::StrDeserializer::<VErr>::new(s)).ok(), w, &s);
    c.eq("method:serde:string", de::<Method, String>(s.to_string()), w, &s);
    c.eq("method:serde:json", serde_json::to_string(s).ok().and_then(|j| serde_json::from_str::<Method>(&j).ok()), w, &s);
    if w.is_some() {
        c.count("method names recognised");
    } else {
        c.count("method names refused");
    }
}

/// letters that other case mappings confuse with ASCII ones
fn lookalike(r: &mut Rng, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let i = r.below(cs.len());
    cs.iter()
        .enumerate()
        .map(|(k, ch)| {
            if k != i {
                return *ch;
            }
            match ch {
                'S' | 's' => '\u{17f}',
                'K' | 'k' => '\u{212a}',
                'I' | 'i' => *r.pick(&['\u{131}', '\u{130}']),
                'A' | 'a' => '\u{ff21}',
                c if c.is_ascii() => char::from_u32(*c as u32 + 0x100 * (1 + r.below(20) as u32)).unwrap_or('x'),
                c => *c,
            }
        })
        .collect()
}

fn method(c: &mut Case) {
    let mut r = c.rng.clone();
    let m = METHODS[r.below(METHODS.len())];
    let s = match r.below(8) {
        0 => m.0.to_string(),
        1 | 2 => gen::recase(&mut r, m.0),
        3 => gen::mutate(&mut r, m.0, true),
        4 => lookalike(&mut r, m.0),
        5 => gen::mutate(&mut r, m.0, false),
        6 => {
            let o = METHODS[r.below(METHODS.len())].0;
            r.pick(&[format!("{}{}", m.0, o), format!(" {}", m.0), format!("{} ", m.0), format!("{}-{}", m.0, o), m.0.replace('-', ""), m.0.replace('-', "_"), m.0[..m.0.len() - 1].to_string(), m.0[1..].to_string(), format!("{}\0", m.0)]).clone()
        }
        _ => gen::token(&mut r),
    };
    method_text(c, &s);
    let n = r.u64();
    c.check("method:serde:number", de::<Method, u64>(n).is_none() && serde_json::from_str::<Method>(&n.to_string()).is_err(), || n.to_string());
    c.note(&s);
    c.sample(|| s.clone());
}

fn version_text(c: &mut Case, s: &str) {
    if s == "HTTP/2.0" || s == "HTTP/3.0" {
        return; // spellings of the same versions
    }
    let w = VERSIONS.iter().find(|v| v.0 == s).map(|v| v.1);
    c.eq("version:serde:str", Version::deserialize(value::StrDeserializer::<VErr>::new(s)).ok(), w, &s);
    c.eq("version:serde:string", de::<Version, String>(s.to_string()), w, &s);
    c.eq("version:serde:json", serde_json::to_string(s).ok().and_then(|j| serde_json::from_str::<Version>(&j).ok()), w, &s);
}

fn version(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = VERSIONS[r.below(VERSIONS.len())];
    let s = match r.below(6) {
        0 => v.0.to_string(),
        1 => gen::mutate(&mut r, v.0, true),
        2 => format!("HTTP/{}.{}", r.below(4), r.below(11)),
        3 => format!("HTTP/{}", r.below(5)),
        4 => gen::mutate(&mut r, v.0, false),
        _ => r.pick(&["HTTP/1", "http/1.1", "HTTP/1.10", "HTTP/1.1 ", " HTTP/1.1", "HTTP", "", "1.1", "HTTP/01.1", "HTTP/11", "HTTP/4", "HTTP/0", "HTTP//1.1"]).to_string(),
    };
    if s.eq_ignore_ascii_case(v.0) && s != v.0 {
        return;
    }
    version_text(c, &s);
    c.note(&s);
}

/// every variant and every pair
fn tables(c: &mut Case) {
    for (name, m, safe) in METHODS {
        c.eq("method:as_ref", m.as_ref(), *name, m);
        c.eq("method:display", m.to_string(), name.to_string(), m);
        c.eq("method:safe", m.is_safe(), *safe, m);
        c.eq("method:serialize", serde_json::to_value(m).ok(), Some(serde_json::Value::String(name.to_string())), m);
        c.eq("method:serde round trip", serde_json::to_string(m).ok().and_then(|j| serde_json::from_str::<Method>(&j).ok()), Some(*m), m);
        for s in [name.to_string(), name.to_ascii_lowercase(), { let mut x = name.to_ascii_lowercase(); x[..1].make_ascii_uppercase(); x }] {
            method_text(c, &s);
        }
        for (n2, m2, _) in METHODS {
            c.eq("method:distinct", m == m2, name == n2, &(m, m2));
        }
        c.note(name);
    }
    let hs: HashSet<Method> = METHODS.iter().map(|m| m.1).collect();
    c.eq("method:hash", hs.len(), METHODS.len(), &"");
    let hs: HashSet<StatusCode> = STATUS.iter().map(|m| m.1).collect();
    c.eq("status:hash", hs.len(), STATUS.len(), &"");
    for (i, (name, v)) in VERSIONS.iter().enumerate() {
        c.eq("version:as_ref", v.as_ref(), *name, v);
        c.eq("version:display", v.to_string(), name.to_string(), v);
        c.eq("version:serialize", serde_json::to_value(v).ok(), Some(serde_json::Value::String(name.to_string())), v);
        version_text(c, name);
        for (j, (_, w)) in VERSIONS.iter().enumerate() {
            c.eq("version:order", v.cmp(w), i.cmp(&j), &(v, w));
            c.eq("version:partial order", v.partial_cmp(w), Some(i.cmp(&j)), &(v, w));
            c.eq("version:eq", v == w, i == j, &(v, w));
        }
        c.note(name);
    }
    for (n, s, _) in STATUS {
        let mut ser = vec![];
        let _ = s.serialize(&mut serde_json::Serializer::new(&mut ser));
        c.eq("status:serializer", String::from_utf8_lossy(&ser).to_string(), n.to_string(), s);
    }
}

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "all 65536 status numbers (plus their images under +-2^16, +2^32 and negation) through TryFrom, Response::new and every serde integer form, checked against the registry; every method and version variant and pair; generated method and version texts (case, edits, look-alike letters, joins); non-trivial: distinct numbers and texts",
        assumptions: &["the tables in the monitor were written from the IANA registries for the variants the crate has"],
        subs: vec![
            all("status", 65536, status_all),
            rand("wide", 60_000, 3_000_000, status_wide),
            rand("method", 150_000, 6_000_000, method),
            rand("version", 40_000, 1_000_000, version),
            all("tables", 1, tables),
        ],
    }
}
