//! C10 media type parsing/printing against an independent WHATWG model; C11 coverage order.
use crate::gen;
use crate::infra::*;
use http_types::mime::{self, Mime};
use std::str::FromStr;

// ---- the model: https://mimesniff.spec.whatwg.org/#parsing-a-mime-type, on code points

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MimeModel {
    pub ty: String,
    pub sub: String,
    pub params: Vec<(String, String)>,
}

fn ws(c: char) -> bool {
    c == '\n' || c == '\r' || c == '\t' || c == ' '
}
fn token_cp(c: char) -> bool {
    c.is_ascii() && gen::TCHAR.as_bytes().contains(&(c as u8))
}
fn qs_cp(c: char) -> bool {
    let c = c as u32;
    c == 9 || (0x20..=0x7e).contains(&c) || (0x80..=0xff).contains(&c)
}

pub fn model_parse(s: &str) -> Option<MimeModel> {
    let mut v: Vec<char> = s.chars().collect();
    while v.first().map_or(false, |c| ws(*c)) {
        v.remove(0);
    }
    while v.last().map_or(false, |c| ws(*c)) {
        v.pop();
    }
    let n = v.len();
    let mut p = 0;
    let mut ty = String::new();
    while p < n && v[p] != '/' {
        ty.push(v[p]);
        p += 1;
    }
    if ty.is_empty() || !ty.chars().all(token_cp) || p >= n {
        return None;
    }
    p += 1;
    let mut sub = String::new();
    while p < n && v[p] != ';' {
        sub.push(v[p]);
        p += 1;
    }
    while sub.chars().last().map_or(false, ws) {
        sub.pop();
    }
    if sub.is_empty() || !sub.chars().all(token_cp) {
        return None;
    }
    let mut params: Vec<(String, String)> = vec![];
    while p < n {
        p += 1;
        while p < n && ws(v[p]) {
            p += 1;
        }
        let mut name = String::new();
        while p < n && v[p] != ';' && v[p] != '=' {
            name.push(v[p].to_ascii_lowercase());
            p += 1;
        }
        if p < n {
            if v[p] == ';' {
                continue;
            }
            p += 1;
        }
        if p >= n {
            break;
        }
        let mut value = String::new();
        if v[p] == '"' {
            p += 1;
            loop {
                while p < n && v[p] != '"' && v[p] != '\\' {
                    value.push(v[p]);
                    p += 1;
                }
                if p >= n {
                    break;
                }
                let q = v[p];
                p += 1;
                if q == '\\' {
                    if p >= n {
                        value.push('\\');
                        break;
                    }
                    value.push(v[p]);
                    p += 1;
                } else {
                    break;
                }
            }
            while p < n && v[p] != ';' {
                p += 1;
            }
        } else {
            while p < n && v[p] != ';' {
                value.push(v[p]);
                p += 1;
            }
            while value.chars().last().map_or(false, ws) {
                value.pop();
            }
            if value.is_empty() {
                continue;
            }
        }
        if !name.is_empty() && name.chars().all(token_cp) && value.chars().all(qs_cp) && !params.iter().any(|(k, _)| *k == name) {
            params.push((name, value));
        }
    }
    Some(MimeModel { ty: ty.to_ascii_lowercase(), sub: sub.to_ascii_lowercase(), params })
}

pub fn sorted(mut v: Vec<(String, String)>) -> Vec<(String, String)> {
    v.sort();
    v
}

/// WHATWG serialisation of a model
pub fn model_print(m: &MimeModel) -> String {
    let mut s = format!("{}/{}", m.ty, m.sub);
    for (k, v) in &m.params {
        s.push(';');
        s.push_str(k);
        s.push('=');
        if !v.is_empty() && v.chars().all(token_cp) {
            s.push_str(v);
        } else {
            s.push('"');
            for c in v.chars() {
                if c == '"' || c == '\\' {
                    s.push('\\');
                }
                s.push(c);
            }
            s.push('"');
        }
    }
    s
}

fn check_one(c: &mut Case, s: &str) {
    let want = model_parse(s);
    let got = match c.guard("parse", &s, || Mime::from_str(s)) {
        Some(g) => g,
        None => return,
    };
    match (&want, &got) {
        (None, Err(_)) => {
            c.count("rejected");
            return;
        }
        (None, Ok(m)) => {
            c.fail("accepted-invalid", format!("{:?} must be refused, parsed as {:?}", s, m));
            return;
        }
        (Some(w), Err(e)) => {
            c.fail("rejected-valid", format!("{:?} is a media type {:?}, refused: {}", s, w, e));
            return;
        }
        _ => {}
    }
    let (w, m) = (want.unwrap(), got.unwrap());
    c.count("accepted");
    c.note(s);
    c.eq("basetype", m.basetype().to_string(), w.ty.clone(), &s);
    c.eq("subtype", m.subtype().to_string(), w.sub.clone(), &s);
    c.eq("essence", m.essence().to_string(), format!("{}/{}", w.ty, w.sub), &s);
    for (k, v) in &w.params {
        let kk = gen::recase(&mut c.rng, k);
        let got = m.param(kk.as_str()).map(|v| v.as_str().to_string());
        c.eq("param", got, Some(v.clone()), &(s, kk));
    }
    for absent in ["zz-absent", "chars", "q"] {
        if !w.params.iter().any(|(k, _)| k == absent) {
            c.check("param-invented", m.param(absent).is_none(), || format!("{:?} has no {}", s, absent));
        }
    }
    // printing
    let printed = match c.guard("display", &s, || m.to_string()) {
        Some(p) => p,
        None => return,
    };
    match model_parse(&printed) {
        None => c.fail("print-not-a-mime", format!("{:?} prints as {:?}", s, printed)),
        Some(p) => {
            c.eq("print-essence", (p.ty.clone(), p.sub.clone()), (w.ty.clone(), w.sub.clone()), &(s, &printed));
            c.eq("print-params", sorted(p.params.clone()), sorted(w.params.clone()), &(s, &printed));
            // the printed text must be the canonical serialisation of itself (quotes only when needed, no duplicates)
            c.eq("print-canonical", model_print(&p), printed.clone(), &s);
        }
    }
    match Mime::from_str(&printed) {
        Err(e) => c.fail("reparse", format!("{:?} prints as {:?}, which is refused: {}", s, printed, e)),
        Ok(m2) => {
            c.check("reparse-equal", m2 == m, || format!("{:?} prints as {:?}, which parses as {:?} != {:?}", s, printed, m2, m));
            c.check("clone-equal", m.clone() == m, || format!("{:?}", s));
        }
    }
    // removing a parameter removes exactly that one
    if !w.params.is_empty() && c.rng.one_in(3) {
        let i = c.rng.below(w.params.len());
        let (k, v) = w.params[i].clone();
        let mut m2 = m.clone();
        let kk = gen::recase(&mut c.rng, &k);
        let r = m2.remove_param(kk.as_str()).map(|v| v.as_str().to_string());
        c.eq("remove-returns", r, Some(v), &(s, &k));
        c.check("remove-gone", m2.param(k.as_str()).is_none(), || format!("{:?} still has {}", s, k));
        for (k2, v2) in w.params.iter().filter(|(k2, _)| *k2 != k) {
            let got = m2.param(k2.as_str()).map(|v| v.as_str().to_string());
            c.eq("remove-kept", got, Some(v2.clone()), &(s, &k, k2));
        }
        let left: Vec<_> = w.params.iter().filter(|(k2, _)| *k2 != k).cloned().collect();
        c.eq("remove-print", model_parse(&m2.to_string()).map(|p| sorted(p.params)), Some(sorted(left)), &(s, &k));
        c.check("remove-twice", m2.remove_param(k.as_str()).is_none(), || format!("{:?} {}", s, k));
    }
    c.sample(|| format!("{:?} -> {}", s, printed));
}

fn nth_word(mut i: u64, alphabet: &[&str], out: &mut String) {
    // bijective numeration: all words, shortest first
    let k = alphabet.len() as u64;
    let mut v = vec![];
    while i > 0 {
        i -= 1;
        v.push(alphabet[(i % k) as usize]);
        i /= k;
    }
    for s in v.iter().rev() {
        out.push_str(s);
    }
}

fn params_exhaustive(c: &mut Case) {
    let mut s = String::from("t/h;");
    nth_word(c.idx, &["a", ";", "=", "\"", "\\", " ", "A", "\u{b}", "\u{e9}"], &mut s);
    check_one(c, &s);
}
fn charset_exhaustive(c: &mut Case) {
    let mut s = String::from("t/h");
    nth_word(c.idx, &[";charset=", ";CHARSET=", "utf-8", "UTF-8", "gbk", ";x=1", "\"", " ", ";charset=\"\""], &mut s);
    check_one(c, &s);
}
fn whole_exhaustive(c: &mut Case) {
    let mut s = String::new();
    nth_word(c.idx, &["t", "/", ";", "=", "\"", " ", "*", "("], &mut s);
    check_one(c, &s);
}

fn qvalue(r: &mut Rng) -> String {
    let n = r.len(8);
    (0..n)
        .map(|_| match r.below(6) {
            0 => *r.pick(&['"', '\\', ';', '=', ',', ' ', '\t', '\n']),
            1 => gen::unicode_char(r),
            2 => char::from_u32(0x80 + r.below(0x80) as u32).unwrap(),
            _ => (0x20 + r.below(0x5f)) as u8 as char,
        })
        .collect()
}

pub fn mime_text(r: &mut Rng) -> String {
    let ty = if r.one_in(8) { "*".into() } else { gen::token(r) };
    let sub = if r.one_in(8) { "*".into() } else { gen::token(r) };
    let mut s = format!("{}/{}", ty, sub);
    for _ in 0..r.len(5) {
        s.push_str(*r.pick(&[";", "; ", " ;", ";;", ";\t"]));
        let k = match r.below(5) {
            0 => "charset".to_string(),
            1 => "q".to_string(),
            2 => "a".to_string(),
            _ => gen::token(r),
        };
        s.push_str(&gen::recase(r, &k));
        if r.one_in(12) {
            continue;
        }
        s.push('=');
        match r.below(5) {
            0 => s.push_str(*r.pick(&["utf-8", "UTF-8", "gbk", "\"utf-8\"", "utf-8 ", " utf-8", "\"utf\\-8\""])),
            1 => s.push_str(&gen::token(r)),
            2 => s.push_str(&qvalue(r)),
            _ => {
                s.push('"');
                for ch in qvalue(r).chars() {
                    if (ch == '"' || ch == '\\') && !r.one_in(6) {
                        s.push('\\');
                    }
                    s.push(ch);
                }
                if !r.one_in(8) {
                    s.push('"');
                }
                if r.one_in(8) {
                    s.push_str("junk");
                }
            }
        }
    }
    s
}

fn grammar(c: &mut Case) {
    let mut s = mime_text(&mut c.rng);
    if c.rng.one_in(3) {
        s = gen::mutate(&mut c.rng, &s, c.idx % 2 == 0);
    }
    check_one(c, &s);
}
fn soup(c: &mut Case) {
    let s = match c.rng.below(3) {
        0 => gen::unicode(&mut c.rng, 20),
        1 => gen::any_ascii(&mut c.rng, 20),
        _ => format!("{}/{};{}", gen::token(&mut c.rng), gen::token(&mut c.rng), gen::nasty_text(&mut c.rng, 30)),
    };
    check_one(c, &s);
}
fn long(c: &mut Case) {
    // many parameters, long values
    let mut s = String::from("a/b");
    for i in 0..c.rng.below(60) {
        s.push_str(&format!(";p{}={}", c.rng.below(40), if i % 2 == 0 { gen::token(&mut c.rng) } else { format!("\"{}\"", qvalue(&mut c.rng).replace('"', "")) }));
    }
    check_one(c, &s);
}

type Tbl = &'static [(Mime, &'static str)];
const CONSTS: Tbl = &[
    (mime::JAVASCRIPT, "text/javascript;charset=utf-8"),
    (mime::CSS, "text/css;charset=utf-8"),
    (mime::HTML, "text/html;charset=utf-8"),
    (mime::PLAIN, "text/plain;charset=utf-8"),
    (mime::XML, "application/xml;charset=utf-8"),
    (mime::RSS, "application/rss+xml;charset=utf-8"),
    (mime::ATOM, "application/atom+xml;charset=utf-8"),
    (mime::ANY, "*/*"),
    (mime::JSON, "application/json"),
    (mime::SSE, "text/event-stream"),
    (mime::BYTE_STREAM, "application/octet-stream"),
    (mime::FORM, "application/x-www-form-urlencoded"),
    (mime::MULTIPART_FORM, "multipart/form-data"),
    (mime::WASM, "application/wasm"),
    (mime::BMP, "image/bmp"),
    (mime::JPEG, "image/jpeg"),
    (mime::PNG, "image/png"),
    (mime::SVG, "image/svg+xml"),
    (mime::WEBP, "image/webp"),
    (mime::MIDI, "audio/midi"),
    (mime::MP3, "audio/mpeg"),
    (mime::OGG, "audio/ogg"),
    (mime::OPUS, "audio/opus"),
    (mime::M4A, "audio/mp4"),
    (mime::MP4, "video/mp4"),
    (mime::MPEG, "video/mpeg"),
    (mime::WEBM, "video/webm"),
    (mime::AVI, "video/x-msvideo"),
    (mime::ICO, "image/x-icon"),
    (mime::OTF, "font/otf"),
    (mime::TTF, "font/ttf"),
    (mime::WOFF, "font/woff"),
    (mime::WOFF2, "font/woff2"),
    (mime::ZIP, "application/zip"),
    (mime::SEVENZIP, "application/x-7z-compressed"),
];
const EXTS: &[(&str, &str)] = &[
    ("7z", "application/x-7z-compressed"), ("atom", "application/atom+xml;charset=utf-8"), ("avi", "video/x-msvideo"),
    ("bin", "application/octet-stream"), ("exe", "application/octet-stream"), ("dll", "application/octet-stream"),
    ("iso", "application/octet-stream"), ("img", "application/octet-stream"), ("bmp", "image/bmp"),
    ("css", "text/css;charset=utf-8"), ("html", "text/html;charset=utf-8"), ("ico", "image/x-icon"),
    ("js", "text/javascript;charset=utf-8"), ("mjs", "text/javascript;charset=utf-8"), ("jsonp", "text/javascript;charset=utf-8"),
    ("json", "application/json"), ("m4a", "audio/mp4"), ("mid", "audio/midi"), ("midi", "audio/midi"), ("kar", "audio/midi"),
    ("mp3", "audio/mpeg"), ("mp4", "video/mp4"), ("mpeg", "video/mpeg"), ("mpg", "video/mpeg"), ("ogg", "audio/ogg"),
    ("otf", "font/otf"), ("rss", "application/rss+xml;charset=utf-8"), ("svg", "image/svg+xml"), ("svgz", "image/svg+xml"),
    ("ttf", "font/ttf"), ("txt", "text/plain;charset=utf-8"), ("wasm", "application/wasm"), ("webm", "video/webm"),
    ("webp", "image/webp"), ("woff", "font/woff"), ("woff2", "font/woff2"), ("xml", "application/xml;charset=utf-8"),
    ("zip", "application/zip"), 
];

fn constants(c: &mut Case) {
    let i = c.idx as usize;
    if i < CONSTS.len() {
        let (m, text) = &CONSTS[i];
        c.note(*text);
        c.eq("const-print", m.to_string(), text.to_string(), &i);
        let p = Mime::from_str(text).unwrap();
        c.check("const-equals-parsed", p == *m, || format!("{:?} != {:?}", p, m));
        c.eq("const-essence", m.essence().to_string(), format!("{}/{}", m.basetype(), m.subtype()), text);
        c.eq("const-charset", m.param("charset").map(|v| v.as_str().to_string()), text.contains("utf-8").then(|| "utf-8".to_string()), text);
    } else {
        let (e, text) = EXTS[i - CONSTS.len()];
        c.note(e);
        c.eq("extension", Mime::from_extension(e).map(|m| m.to_string()), Some(text.to_string()), &e);
        c.check("extension-unknown", Mime::from_extension(format!("{}zz", e)).is_none(), || e.to_string());
    }
}

const MAGIC: &[(&[u8], &str)] = &[
    (b"\x89PNG\r\n\x1a\n", "image/png"),
    (b"\xff\xd8\xff\xe0", "image/jpeg"),
    (b"GIF89a", "image/gif"),
    (b"PK\x03\x04", "application/zip"),
    (b"\x1f\x8b\x08", "application/gzip"),
    (b"%PDF-1.4", "application/pdf"),
    (b"wOFF\x00\x01\x00\x00", "application/font-woff"),
    (b"7z\xbc\xaf\x27\x1c", "application/x-7z-compressed"),
    (b"\x00asm\x01\x00\x00\x00", "application/wasm"),
    (b"BZh9", "application/x-bzip2"),
];

fn sniff(c: &mut Case) {
    // known magic numbers stay recognised whatever follows; any bytes give a media type or an error
    let i = c.idx as usize % (MAGIC.len() + 3);
    let mut b: Vec<u8>;
    if i < MAGIC.len() {
        b = MAGIC[i].0.to_vec();
        let t = gen::bytes(&mut c.rng, 600);
        b.extend(t.iter().map(|x| x & 0x7f));
        let m = match c.guard("sniff", &b, || Mime::sniff(&b)) {
            Some(m) => m,
            None => return,
        };
        c.note((i, t.len()));
        // zip, png and others are containers with refinements; require a type for all and the exact one for the unambiguous
        match m {
            Err(e) => c.fail("sniff-lost", format!("{:?}: {}", &b[..8.min(b.len())], e)),
            Ok(m) => {
                let exact = !matches!(i, 0 | 3 | 6);
                if exact {
                    c.eq("sniff-type", m.essence().to_string(), MAGIC[i].1.to_string(), &i);
                }
            }
        }
    } else {
        b = gen::bytes(&mut c.rng, 300);
        let r = c.guard("sniff", &b, || Mime::sniff(&b).ok().map(|m| m.to_string()));
        c.note(&b);
        if let Some(Some(s)) = r {
            c.check("sniff-valid", model_parse(&s).is_some(), || s.clone());
        }
    }
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "strings: every word up to 6 letters over small alphabets after 't/h;' and over whole types, a random grammar of parameters/quotes/whitespace, mutations, arbitrary Unicode, all constants and extensions; non-trivial: accepted by the model, counted as distinct strings",
        assumptions: &["the WHATWG parsing and serialising algorithms are transcribed independently in the monitor"],
        subs: vec![
            all("constants", (CONSTS.len() + EXTS.len()) as u64, constants),
            all("charset-words", 1 + 9 + 81 + 729 + 6561 + 59049, charset_exhaustive),
            all("param-words", 1 + 9 + 81 + 729 + 6561 + 59049 + 531441, params_exhaustive),
            all("whole-words", 1 + 8 + 64 + 512 + 4096 + 32768 + 262144, whole_exhaustive),
            rand("grammar", 400_000, 10_000_000, grammar),
            rand("soup", 150_000, 3_000_000, soup),
            rand("long", 5_000, 100_000, long),
            rand("sniff", 20_000, 200_000, sniff),
        ],
    }
}

// ------------------------------------------------------------------ C11

fn space() -> Vec<(String, MimeModel)> {
    let mut v = vec![];
    for ty in ["a", "b", "*"] {
        for sub in ["x", "y", "*"] {
            for cs in ["", ";charset=utf-8", ";charset=gbk", ";charset=UTF-8", ";charset=\"\""] {
                for p in ["", ";p=1", ";p=2", ";q=\"a b\""] {
                    for o in 0..2 {
                        if o == 1 && (cs.is_empty() || p.is_empty()) {
                            continue;
                        }
                        let s = if o == 0 { format!("{}/{}{}{}", ty, sub, cs, p) } else { format!("{}/{}{}{}", ty, sub, p, cs) };
                        let m = model_parse(&s).unwrap();
                        v.push((s, m));
                    }
                }
            }
        }
    }
    v
}

pub fn model_covers(m: &MimeModel, range: &MimeModel) -> bool {
    (range.ty == "*" || range.ty == m.ty)
        && (range.sub == "*" || range.sub == m.sub)
        && range.params.iter().all(|(k, v)| m.params.iter().any(|(a, b)| a == k && b == v))
}

fn decide(c: &mut Case, a: &str, b: &str) {
    let (ma, mb) = match (model_parse(a), model_parse(b)) {
        (Some(x), Some(y)) => (x, y),
        _ => return,
    };
    let (x, y) = match (Mime::from_str(a), Mime::from_str(b)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return,
    };
    let want = model_covers(&ma, &mb);
    c.count(if want { "covered" } else { "not_covered" });
    c.eq("subset_eq", x.subset_eq(&y), want, &(a, b));
    c.check("reflexive", x.subset_eq(&x), || a.to_string());
    c.check("any", x.subset_eq(&mime::ANY), || a.to_string());
    c.note((a, b));
    c.sample(|| format!("{} covered by {}: {}", a, b, want));
}

const NSPACE: u64 = 9 * (5 * 4 + 4 * 3);

fn pairs(c: &mut Case) {
    thread_local!(static S: Vec<(String, Mime, MimeModel)> = space().into_iter().map(|(s, m)| (s.clone(), Mime::from_str(&s).unwrap(), m)).collect());
    S.with(|s| {
        let n = s.len() as u64;
        assert_eq!(n, NSPACE);
        let (i, j) = ((c.idx / n) as usize, (c.idx % n) as usize);
        let (a, b) = (&s[i], &s[j]);
        let want = model_covers(&a.2, &b.2);
        c.count(if want { "covered" } else { "not_covered" });
        c.eq("subset_eq", a.1.subset_eq(&b.1), want, &(&a.0, &b.0));
        c.note((i, j));
        if want {
            // transitivity, observed on the code's own answers
            for k in 0..s.len() {
                if b.1.subset_eq(&s[k].1) {
                    c.check("transitive", a.1.subset_eq(&s[k].1), || format!("{} <= {} <= {}", a.0, b.0, s[k].0));
                }
            }
        }
    })
}

fn random_pairs(c: &mut Case) {
    let a = mime_text(&mut c.rng);
    // b: a with some parameters dropped, wildcarded, recased or changed
    let m = match model_parse(&a) {
        Some(m) => m,
        None => return,
    };
    let mut b = m.clone();
    for _ in 0..c.rng.below(4) {
        match c.rng.below(6) {
            0 => b.ty = "*".into(),
            1 => b.sub = "*".into(),
            2 if !b.params.is_empty() => {
                let i = c.rng.below(b.params.len());
                b.params.remove(i);
            }
            3 if !b.params.is_empty() => {
                let i = c.rng.below(b.params.len());
                b.params[i].1.push('x');
            }
            4 => c.rng.shuffle(&mut b.params),
            _ => b.ty = b.ty.to_ascii_uppercase(),
        }
    }
    let bs = model_print(&b);
    decide(c, &a, &bs);
    decide(c, &bs, &a);
    // parameter law
    let (x, mut y) = match (Mime::from_str(&a), Mime::from_str(&a)) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return,
    };
    let kept: Vec<String> = m.params.iter().map(|p| p.0.clone()).collect();
    for k in &kept {
        y.remove_param(k.as_str());
    }
    c.check("params-narrow", x.subset_eq(&y), || a.clone());
    c.eq("params-narrow-reverse", y.subset_eq(&x), m.params.is_empty(), &a);
}

fn const_pairs(c: &mut Case) {
    let n = CONSTS.len() as u64;
    let (a, b) = (&CONSTS[(c.idx / n) as usize], &CONSTS[(c.idx % n) as usize]);
    c.note(c.idx);
    let want = model_covers(&model_parse(a.1).unwrap(), &model_parse(b.1).unwrap());
    c.eq("const-subset_eq", a.0.subset_eq(&b.0), want, &(a.1, b.1));
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "pairs (media type, range): every pair from a space of types x subtypes x charset x parameter spellings in both parameter orders (with transitivity over all third members), all pairs of constants, random types with derived ranges; non-trivial: distinct pairs",
        assumptions: &["parameter values are compared exactly, as the parser keeps them"],
        subs: vec![
            all("pairs", NSPACE * NSPACE, pairs),
            all("const-pairs", (CONSTS.len() * CONSTS.len()) as u64, const_pairs),
            rand("random", 150_000, 3_000_000, random_pairs),
        ],
    }
}
