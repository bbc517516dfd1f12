//! C06 body metadata, C07 content-type header vs body, C08 decoding.
use super::c05_body::{Ev, Probe, Script};
use crate::gen;
use crate::infra::*;
use futures_lite::future::block_on;
use futures_lite::{AsyncBufReadExt, AsyncReadExt, AsyncSeekExt};
use http_types::mime::{self, Mime};
use http_types::{Body, Method, Request, Response, StatusCode, Url};
use serde::{Deserialize, Serialize};
use std::pin::Pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};

pub fn req() -> Request {
    Request::new(Method::Post, Url::parse("http://example.com/p?q=1").unwrap())
}

const OCTETS: &str = "application/octet-stream";
const TEXT: &str = "text/plain;charset=utf-8";
const JSON: &str = "application/json";
const FORM: &str = "application/x-www-form-urlencoded";

struct M {
    body: Body,
    len: Option<u64>,
    mime: Option<String>,
    desc: String,
    /// bytes it can deliver
    avail: u64,
    read: u64,
}

/// media types of every kind: the constants, wildcards, parameters, and types close to those bodies get by themselves
fn some_mime(r: &mut Rng) -> Mime {
    let t = match r.below(7) {
        0 => (*r.pick(&["text/plain", "application/octet-stream", "application/json", "application/x-www-form-urlencoded"])).to_string(),
        1 => (*r.pick(&["*/*", "text/*", "application/*", "image/svg+xml", "text/html;charset=utf-8", "multipart/form-data"])).to_string(),
        _ => format!("{}/{}", gen::word(r), gen::word(r)),
    };
    let m = Mime::from_str(&t).unwrap();
    if r.bool() {
        near_mime(r, &m)
    } else {
        m
    }
}

/// the same media type but for its parameters
fn near_mime(r: &mut Rng, m: &Mime) -> Mime {
    let mut t = m.essence().to_string();
    for _ in 0..r.below(3) {
        t += *r.pick(&[";charset=utf-8", ";charset=UTF-8", ";charset=iso-8859-1", ";a=b", ";q=0.5", ";a=\"x y\"", ";b=c"]);
    }
    Mime::from_str(&t).unwrap()
}

fn mime_of(b: &Body) -> Option<String> {
    b.mime().map(|m| m.to_string())
}

fn json_value(r: &mut Rng, depth: usize) -> serde_json::Value {
    use serde_json::Value as J;
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => J::Null,
        1 => J::Bool(r.bool()),
        2 => match r.below(4) {
            0 => J::from(r.u64()),
            1 => J::from(r.u64() as i64),
            2 => J::from(r.below(100)),
            _ => J::from((r.below(2000) as f64 - 1000.0) / 8.0),
        },
        3 | 4 => J::from(gen::unicode(r, 12)),
        5 => J::Array((0..r.below(4)).map(|_| json_value(r, depth - 1)).collect()),
        _ => J::Object((0..r.below(4)).map(|_| (gen::unicode(r, 6), json_value(r, depth - 1))).collect()),
    }
}

fn make(r: &mut Rng) -> M {
    match r.below(12) {
        0 => M { body: Body::empty(), len: Some(0), mime: Some(OCTETS.into()), desc: "empty".into(), avail: 0, read: 0 },
        1 | 2 => {
            let b = gen::bytes(r, 50);
            let n = b.len() as u64;
            let (body, desc) = match r.below(3) {
                0 => (Body::from_bytes(b), "from_bytes"),
                1 => (Body::from(b), "From<Vec<u8>>"),
                _ => (Body::from(&b[..]), "From<&[u8]>"),
            };
            M { body, len: Some(n), mime: Some(OCTETS.into()), desc: format!("{} {}", desc, n), avail: n, read: 0 }
        }
        3 | 4 => {
            let s = gen::unicode(r, 30);
            let n = s.len() as u64;
            let (body, desc) = match r.below(3) {
                0 => (Body::from_string(s), "from_string"),
                1 => (Body::from(s), "From<String>"),
                _ => (Body::from(s.as_str()), "From<&str>"),
            };
            M { body, len: Some(n), mime: Some(TEXT.into()), desc: format!("{} {}", desc, n), avail: n, read: 0 }
        }
        5 => {
            let v = json_value(r, 2);
            let n = serde_json::to_vec(&v).unwrap().len() as u64;
            let body = if r.bool() { Body::from_json(&v).unwrap() } else { Body::from(v) };
            M { body, len: Some(n), mime: Some(JSON.into()), desc: format!("json {}", n), avail: n, read: 0 }
        }
        6 => {
            let v: Vec<(String, String)> = (0..r.below(4)).map(|_| (gen::unicode(r, 5), gen::unicode(r, 8))).collect();
            let body = Body::from_form(&v).unwrap();
            // application/x-www-form-urlencoded length, computed here
            let enc = |s: &str| -> u64 {
                s.bytes().map(|b| if b == b' ' || b.is_ascii_alphanumeric() || b"*-._".contains(&b) { 1 } else { 3 }).sum::<u64>()
            };
            let n = v.iter().map(|(a, b)| enc(a) + 1 + enc(b)).sum::<u64>() + (v.len() as u64).saturating_sub(1);
            M { body, len: Some(n), mime: Some(FORM.into()), desc: format!("form {:?}", v), avail: n, read: 0 }
        }
        _ => {
            let data = gen::bytes(r, 40);
            let len = match r.below(6) {
                0 | 1 => None,
                2 => Some(data.len() as u64),
                3 => Some(r.below(data.len() + 1) as u64),
                4 => Some(*r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, 1 << 63, 1 << 32, (1 << 32) + 3, u32::MAX as u64, 1 << 16])),
                _ => Some(data.len() as u64 + r.below(20) as u64),
            };
            let n = data.len() as u64;
            let evs = (0..r.below(4)).map(|_| Ev::Chunk(1 + r.below(8))).collect();
            let body = Body::from_reader(Script::new(data, evs, Arc::new(Mutex::new(Probe::default()))), len);
            M { body, len, mime: Some(OCTETS.into()), desc: format!("reader {} len {:?}", n, len), avail: len.map_or(n, |l| l.min(n)), read: 0 }
        }
    }
}

fn audit(c: &mut Case, m: &M) {
    c.check("len", m.body.len() == m.len, || format!("{}: len {:?}, expected {:?}", m.desc, m.body.len(), m.len));
    c.check("is_empty", m.body.is_empty() == m.len.map(|l| l == 0), || format!("{}: is_empty {:?}", m.desc, m.body.is_empty()));
    c.check("mime", mime_of(&m.body) == m.mime, || format!("{}: mime {:?}, expected {:?}", m.desc, m.body.mime(), m.mime));
}

/// read some of it, by either interface
fn consume_some(c: &mut Case, m: &mut M, r: &mut Rng) {
    let left = m.avail as usize - m.read as usize;
    let want = if r.one_in(4) { left } else { r.below(left + 1) };
    let how = r.bool();
    let mut done = 0;
    block_on(async {
        if how {
            let mut v = vec![0; want];
            if m.body.read_exact(&mut v).await.is_ok() {
                done = want;
            }
        } else {
            while done < want {
                let k = match m.body.fill_buf().await {
                    Ok(b) => b.len().min(want - done),
                    Err(_) => break,
                };
                if k == 0 {
                    break;
                }
                Pin::new(&mut m.body).consume(k);
                done += k;
            }
        }
    });
    if r.one_in(3) && m.avail == m.read + done as u64 {
        // run into the end of the stream: that changes nothing about the length
        let end = block_on(async {
            if r.bool() {
                m.body.fill_buf().await.map(|b| b.len())
            } else {
                m.body.read(&mut [0; 3]).await
            }
        });
        c.check("end-after-last", matches!(end, Ok(0)), || format!("{}: {:?} after its last byte", m.desc, end));
        m.desc.push_str(" to the end");
    }
    c.check("prefix-readable", done == want, || format!("{}: read {} of {}", m.desc, done, want));
    m.read += done as u64;
    m.desc.push_str(&format!(" ({} consumed by {})", done, if how { "read" } else { "fill_buf" }));
}

use futures_lite::io::AsyncBufRead;

fn metadata(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut m = make(&mut r);
    audit(c, &m);
    let mut shape = vec![];
    for _ in 0..1 + r.below(5) {
        c.step(|| m.desc.clone());
        match r.below(6) {
            0 => {
                consume_some(c, &mut m, &mut r);
                shape.push((0, m.read));
            }
            1 => {
                let mm = match r.below(6) {
                    0 => None,
                    1 => Some(mime::HTML),
                    _ => Some(some_mime(&mut r)),
                };
                m.mime = mm.as_ref().map(|m| m.to_string());
                m.body.set_mime(mm);
                shape.push((1, 0));
            }
            2 | 3 => {
                let mut o = make(&mut r);
                if r.bool() {
                    consume_some(c, &mut m, &mut r);
                }
                if r.bool() {
                    consume_some(c, &mut o, &mut r);
                }
                if r.one_in(3) {
                    let near = m.body.mime().map(|x| near_mime(&mut r, x));
                    o.mime = near.as_ref().map(|m| m.to_string());
                    o.body.set_mime(near);
                } else if r.one_in(3) {
                    o.mime = m.mime.clone();
                    let copy = m.body.mime().cloned();
                    o.body.set_mime(copy);
                }
                let len = match (m.len, o.len) {
                    (Some(a), Some(b)) => (a - m.read).checked_add(b - o.read),
                    _ => None,
                };
                let mm = if m.mime == o.mime { m.mime.clone() } else { Some(OCTETS.to_string()) };
                shape.push((2, len.unwrap_or(7)));
                let avail = m.avail - m.read + o.avail - o.read;
                let desc = format!("chain[{} + {}]", m.desc, o.desc);
                let (a, b) = (m.body, o.body);
                let body = match c.guard("chain", &desc, move || a.chain(b)) {
                    Some(b) => b,
                    None => return,
                };
                m = M { body, len, mime: mm, desc, avail: len.map_or(avail, |l| l.min(avail)), read: 0 };
            }
            _ => {
                // put it in a message and take it out again
                let how = r.below(4);
                let tmp = std::mem::replace(&mut m.body, Body::empty());
                let (len, empty);
                if how < 2 {
                    let mut q = req();
                    q.set_body(tmp);
                    len = q.len();
                    empty = q.is_empty();
                    m.body = if how == 0 { q.take_body() } else { q.into() };
                } else {
                    let mut s = Response::new(200);
                    if how == 2 {
                        s.set_body(tmp);
                    } else {
                        s = Response::from(tmp);
                    }
                    len = s.len();
                    empty = s.is_empty();
                    m.body = s.replace_body(Body::empty());
                    c.check("taken-leaves-empty", s.len() == Some(0), || format!("{:?}", s.len()));
                }
                c.check("message-len", len == m.len, || format!("{:?} for {}", len, m.desc));
                c.check("message-is_empty", empty == m.len.map(|l| l == 0), || format!("{:?} for {}", empty, m.desc));
                shape.push((3, how as u64));
            }
        }
        audit(c, &m);
        if c.failed() {
            return;
        }
    }
    c.note((&shape, m.desc.len()));
    c.sample(|| m.desc.clone());
    // the reported length is the number of bytes delivered when the source is long enough
    let (len, read, avail) = (m.len, m.read, m.avail);
    if let Some(bytes) = c.guard("into_bytes", &m.desc, || block_on(m.body.into_bytes())) {
        let n = bytes.map(|b| b.len() as u64).map_err(|e| e.to_string());
        c.check("delivers-length", n == Ok(avail - read), || format!("{:?} bytes, expected {} (len {:?})", n, avail - read, len));
    }
}

// ---------------------------------------------------------------- files

const MAGICS: &[(&[u8], &str)] = &[
    (b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR", "image/png"),
    (b"\xff\xd8\xff\xe0\0\x10JFIF", "image/jpeg"),
    (b"GIF89a\x01\0\x01\0", "image/gif"),
    (b"%PDF-1.4\n", "application/pdf"),
    (b"PK\x03\x04\x14\0\0\0", "application/zip"),
    (b"\x1f\x8b\x08\0\0\0", "application/gzip"),
    (b"wOFF\0\x01\0\0", "application/font-woff"),
    (b"\0asm\x01\0\0\0", "application/wasm"),
    (b"7z\xbc\xaf\x27\x1c\0", "application/x-7z-compressed"),
    (b"OggS\0\x02", "audio/ogg"),
    (b"ID3\x03\0", "audio/mpeg"),
];

const EXTS: &[(&str, Option<&str>)] = &[
    ("7z", Some("application/x-7z-compressed")),
    ("atom", Some("application/atom+xml;charset=utf-8")),
    ("avi", Some("video/x-msvideo")),
    ("bin", Some(OCTETS)),
    ("exe", Some(OCTETS)),
    ("dll", Some(OCTETS)),
    ("iso", Some(OCTETS)),
    ("img", Some(OCTETS)),
    ("bmp", Some("image/bmp")),
    ("css", Some("text/css;charset=utf-8")),
    ("html", Some("text/html;charset=utf-8")),
    ("ico", Some("image/x-icon")),
    ("js", Some("text/javascript;charset=utf-8")),
    ("mjs", Some("text/javascript;charset=utf-8")),
    ("jsonp", Some("text/javascript;charset=utf-8")),
    ("json", Some(JSON)),
    ("m4a", Some("audio/mp4")),
    ("mid", Some("audio/midi")),
    ("midi", Some("audio/midi")),
    ("kar", Some("audio/midi")),
    ("mp3", Some("audio/mpeg")),
    ("mp4", Some("video/mp4")),
    ("mpeg", Some("video/mpeg")),
    ("mpg", Some("video/mpeg")),
    ("ogg", Some("audio/ogg")),
    ("otf", Some("font/otf")),
    ("rss", Some("application/rss+xml;charset=utf-8")),
    ("svg", Some("image/svg+xml")),
    ("svgz", Some("image/svg+xml")),
    ("ttf", Some("font/ttf")),
    ("txt", Some(TEXT)),
    ("wasm", Some("application/wasm")),
    ("webm", Some("video/webm")),
    ("webp", Some("image/webp")),
    ("woff", Some("font/woff")),
    ("woff2", Some("font/woff2")),
    ("xml", Some("application/xml;charset=utf-8")),
    ("zip", Some("application/zip")),
    ("custom", None),
    ("", None),
    ("unknown", None),
];

fn scratch() -> std::path::PathBuf {
    let d = std::env::var_os("HV_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
    let d = d.join("files");
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn files(c: &mut Case) {
    if cfg!(miri) {
        return;
    }
    let mut r = c.rng.clone();
    let (ext, ext_mime) = EXTS[(c.idx % EXTS.len() as u64) as usize];
    // content: text, magic, truncated magic, zeros, big
    let (content, kind): (Vec<u8>, String) = match r.below(7) {
        0 => (vec![], "nothing".into()),
        1 => (gen::ascii_text(&mut r, 200).into_bytes(), "text".into()),
        2 | 3 => {
            let (m, t) = r.pick(MAGICS);
            let mut v = m.to_vec();
            let n = r.below(400);
            v.extend(std::iter::repeat(b' ').take(n));
            (v, format!("magic {}", t))
        }
        4 => {
            let (m, t) = r.pick(MAGICS);
            let n = r.below(m.len());
            (m[..n].to_vec(), format!("first {} bytes of magic {}", n, t))
        }
        5 => {
            let n = 1 + r.below(6);
            (vec![0, 0, 1, 0, 0, 0, 0][..n].to_vec(), format!("{} bytes that look like an icon when zero-padded", n))
        }
        _ => {
            let n = 200 + r.below(20_000);
            ((0..n).map(|i| b"abcdefghij\n"[i % 11]).collect(), "long text".into())
        }
    };
    let name = if ext.is_empty() { format!("f{}", c.idx) } else { format!("f{}.{}", c.idx, ext) };
    let path = scratch().join(&name);
    std::fs::write(&path, &content).expect("scratch file");
    let mode = r.below(6);
    // where an already-open file stands does not matter: the body is the whole file
    let at = match r.below(4) {
        0 => r.below(content.len() + 1),
        1 => 1 + r.below(8),
        _ => 0,
    } as u64;
    c.step(|| format!("{} ({}) mode {} from position {}", name, kind, mode, at));
    let body = block_on(async {
        if mode < 2 {
            return Body::from_path(&path).await;
        }
        let mut f = async_std::fs::File::open(&path).await?;
        if at > 0 {
            if at % 2 == 0 {
                f.seek(async_std::io::SeekFrom::Start(at)).await?;
            } else {
                let _ = f.read(&mut vec![0; at as usize]).await?;
            }
        }
        match mode {
            2 | 3 => Body::from_file(f).await,
            4 => Body::from_file_with_path(f, std::path::Path::new(&name)).await,
            _ => Body::from_file_with_path(f, &path).await,
        }
    });
    let sniffed = Mime::sniff(&content[..content.len().min(300)]).ok().map(|m| m.to_string());
    if let Some((_, t)) = MAGICS.iter().find(|(m, _)| content.starts_with(m)) {
        c.check("sniff", sniffed.as_deref() == Some(*t), || format!("sniffed {:?}, magic of {}", sniffed, t));
    }
    let want = sniffed.unwrap_or_else(|| {
        (if mode != 2 && mode != 3 { ext_mime.map(|s| s.to_string()) } else { None }).unwrap_or_else(|| OCTETS.to_string())
    });
    match body {
        Ok(b) => {
            c.check("file-len", b.len() == Some(content.len() as u64), || format!("{:?} for {} bytes", b.len(), content.len()));
            c.check("file-mime", mime_of(&b).as_deref() == Some(&want), || format!("{}: {}: {:?}, expected {}", name, kind, b.mime(), want));
            let got = block_on(async {
                match r.below(5) {
                    0 => {
                        let mut q = Request::post("http://a/");
                        q.set_body(b);
                        q.body_bytes().await.map_err(|e| e.to_string())
                    }
                    1 => {
                        // piece by piece
                        let mut b = b;
                        let mut all = vec![];
                        loop {
                            let mut buf = vec![0; 1 + r.below(600)];
                            match b.read(&mut buf).await {
                                Ok(0) => break Ok(all),
                                Ok(n) => all.extend_from_slice(&buf[..n]),
                                Err(e) => break Err(e.to_string()),
                            }
                        }
                    }
                    2 => {
                        // through the buffer
                        let mut b = b;
                        let mut all = vec![];
                        loop {
                            let n = match b.fill_buf().await {
                                Ok(x) if x.is_empty() => break Ok(all),
                                Ok(x) => {
                                    let n = 1 + r.below(x.len());
                                    all.extend_from_slice(&x[..n]);
                                    n
                                }
                                Err(e) => break Err(e.to_string()),
                            };
                            Pin::new(&mut b).consume(n);
                        }
                    }
                    3 => {
                        let whole = Body::from("").chain(b).chain(Body::empty());
                        whole.into_bytes().await.map_err(|e| e.to_string())
                    }
                    _ => b.into_bytes().await.map_err(|e| e.to_string()),
                }
            });
            c.check("file-content", got.as_ref() == Ok(&content), || format!("{:?} bytes of {}", got.as_ref().map(|g| g.len()), content.len()));
        }
        Err(e) => c.fail("file-open", e.to_string()),
    }
    let _ = std::fs::remove_file(&path);
    let missing = block_on(Body::from_path(scratch().join("does-not-exist.txt")));
    c.check("missing-file-errors", missing.is_err(), || "opened a file that is not there".into());
    c.note((ext, kind.clone(), mode));
    c.sample(|| format!("{} {} -> {}", name, kind, want));
}

fn extensions(c: &mut Case) {
    let (e, m) = EXTS[c.idx as usize];
    let got = Mime::from_extension(e).map(|m| m.to_string());
    c.check("from_extension", got.as_deref() == m, || format!("{:?}: {:?}, expected {:?}", e, got, m));
    c.note(e);
}

// ---------------------------------------------------------------- C07

enum Msg {
    Q(Request),
    S(Response),
}
macro_rules! on {
    ($m:expr, $x:ident, $e:expr) => {
        match $m {
            Msg::Q($x) => $e,
            Msg::S($x) => $e,
        }
    };
}

#[derive(Clone, Debug)]
struct MB {
    bytes: Vec<u8>,
    mime: Option<String>,
}

fn small_body(r: &mut Rng) -> (Body, MB) {
    let mut bytes = gen::bytes(r, 12);
    let (mut b, mut mime) = match r.below(5) {
        0 => {
            bytes.clear();
            (Body::empty(), Some(OCTETS.to_string()))
        }
        1 => (Body::from_bytes(bytes.clone()), Some(OCTETS.into())),
        2 => {
            let s = gen::word(r);
            bytes = s.clone().into_bytes();
            (Body::from_string(s), Some(TEXT.into()))
        }
        3 => {
            let v = json_value(r, 1);
            bytes = serde_json::to_vec(&v).unwrap();
            (Body::from_json(&v).unwrap(), Some(JSON.into()))
        }
        _ => (Body::from_reader(futures_lite::io::Cursor::new(bytes.clone()), None), Some(OCTETS.into())),
    };
    if r.one_in(4) {
        if r.bool() {
            b.set_mime(None);
            mime = None;
        } else {
            let m = if r.bool() { mime::SVG } else { some_mime(r) };
            mime = Some(m.to_string());
            b.set_mime(Some(m));
        }
    }
    (b, MB { bytes, mime })
}

fn check_body(c: &mut Case, sig: &str, b: Body, m: &MB) {
    let mime = mime_of(&b);
    c.check(&format!("{}-mime", sig), mime == m.mime, || format!("{:?}, expected {:?}", mime, m.mime));
    let got = block_on(b.into_bytes()).map_err(|e| e.to_string());
    c.check(&format!("{}-bytes", sig), got.as_ref() == Ok(&m.bytes), || format!("{:?}, expected {:?}", got, m.bytes));
}

fn ct_model(v: &Option<Vec<String>>) -> Option<Option<Mime>> {
    // outer None: the monitor has no opinion
    match v {
        None => Some(None),
        Some(v) => Some(Mime::from_str(v.last().unwrap()).ok()),
    }
}

fn content_type(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut ct: Option<Vec<String>> = None;
    let mut cur = MB { bytes: vec![], mime: Some(OCTETS.into()) };
    let mut msg = if r.bool() {
        Msg::Q(req())
    } else {
        match r.below(4) {
            0 => Msg::S(Response::new(StatusCode::Ok)),
            1 => {
                let (b, m) = small_body(&mut r);
                ct = m.mime.clone().map(|m| vec![m]);
                cur = m;
                Msg::S(b.into())
            }
            2 => {
                let s = gen::word(&mut r);
                ct = Some(vec![TEXT.into()]);
                cur = MB { bytes: s.clone().into_bytes(), mime: Some(TEXT.into()) };
                Msg::S(Response::from(s))
            }
            _ => {
                let s = gen::bytes(&mut r, 9);
                ct = Some(vec![OCTETS.into()]);
                cur = MB { bytes: s.clone(), mime: Some(OCTETS.into()) };
                Msg::S(Response::from(s))
            }
        }
    };
    let bystander = "x-bystander";
    on!(&mut msg, m, m.insert_header(bystander, "stay")).unwrap();
    let mut spare = small_body(&mut r);
    let mut shape = vec![];
    for _ in 0..1 + r.below(14) {
        let op = r.below(11);
        shape.push((op, ct.as_ref().map(|v| v.len()), cur.mime.is_some()));
        match op {
            0 | 1 => {
                let (b, m) = small_body(&mut r);
                c.step(|| format!("set_body({:?})", m));
                on!(&mut msg, x, x.set_body(b));
                if ct.is_none() {
                    ct = m.mime.clone().map(|m| vec![m]);
                }
                cur = m;
            }
            2 => {
                let (b, m) = small_body(&mut r);
                c.step(|| format!("replace_body({:?})", m));
                let old = on!(&mut msg, x, x.replace_body(b));
                check_body(c, "replace-returns", old, &cur);
                if ct.is_none() {
                    ct = m.mime.clone().map(|m| vec![m]);
                }
                cur = m;
            }
            3 => {
                c.step(|| format!("swap_body({:?})", spare.1));
                on!(&mut msg, x, x.swap_body(&mut spare.0));
                std::mem::swap(&mut cur, &mut spare.1);
                if ct.is_none() {
                    ct = cur.mime.clone().map(|m| vec![m]);
                }
            }
            4 => {
                c.step(|| "take_body".into());
                let old = on!(&mut msg, x, x.take_body());
                check_body(c, "take-returns", old, &cur);
                cur = MB { bytes: vec![], mime: Some(OCTETS.into()) };
                if ct.is_none() {
                    // the property leaves open whether taking a body states the empty one's type
                    ct = on!(&msg, x, x.header("content-type").map(|v| v.iter().map(|v| v.to_string()).collect()));
                    c.check("take-type", ct.is_none() || ct == Some(vec![OCTETS.into()]), || format!("{:?}", ct));
                }
            }
            5 => {
                let m = match r.below(5) {
                    0 => mime::HTML,
                    1 => mime::JSON,
                    2 | 3 => some_mime(&mut r),
                    _ => Mime::from_str("a/b;x=\"y z\"").unwrap(),
                };
                c.step(|| format!("set_content_type({})", m));
                let old = on!(&mut msg, x, x.set_content_type(m.clone()));
                let old: Option<Vec<String>> = old.map(|v| v.iter().map(|v| v.to_string()).collect());
                c.check("set_content_type-returns", old == ct, || format!("{:?}, expected {:?}", old, ct));
                ct = Some(vec![m.to_string()]);
            }
            6 => {
                let v = (*r.pick(&["text/css", "not a mime", "", "TEXT/HTML; Charset=UTF-8", "*/*"])).to_string();
                let n = gen::recase(&mut r, "content-type");
                c.step(|| format!("insert_header({}, {})", n, v));
                on!(&mut msg, x, x.insert_header(n.as_str(), v.as_str())).unwrap();
                ct = Some(vec![v]);
            }
            7 => {
                let v = (*r.pick(&["text/css", "nope"])).to_string();
                c.step(|| format!("append_header(content-type, {})", v));
                on!(&mut msg, x, x.append_header("Content-Type", v.as_str())).unwrap();
                ct.get_or_insert_with(Vec::new).push(v);
            }
            8 => {
                c.step(|| "remove_header(content-type)".into());
                on!(&mut msg, x, x.remove_header("CONTENT-TYPE"));
                ct = None;
            }
            9 => {
                c.step(|| "body_bytes".into());
                let got = on!(&mut msg, x, block_on(x.body_bytes())).map_err(|e| e.to_string());
                c.check("body_bytes", got.as_ref() == Ok(&cur.bytes), || format!("{:?} expected {:?}", got, cur));
                cur = MB { bytes: vec![], mime: Some(OCTETS.into()) };
                if ct.is_none() {
                    ct = on!(&msg, x, x.header("content-type").map(|v| v.iter().map(|v| v.to_string()).collect()));
                    c.check("take-type", ct.is_none() || ct == Some(vec![OCTETS.into()]), || format!("{:?}", ct));
                }
            }
            _ => {
                // unrelated header traffic
                on!(&mut msg, x, x.insert_header("content-length", "3")).unwrap();
                on!(&mut msg, x, x.remove_header("content-length"));
            }
        }
        let h: Option<Vec<String>> = on!(&msg, x, x.header("content-type").map(|v| v.iter().map(|v| v.to_string()).collect()));
        c.check("content-type-header", h == ct, || format!("{:?}, expected {:?}", h, ct));
        let got = on!(&msg, x, x.content_type());
        if let Some(w) = ct_model(&ct) {
            c.check("content_type()", got == w, || format!("{:?}, expected {:?}", got, w));
        }
        let by = on!(&msg, x, x.header(bystander).map(|v| v.as_str().to_string()));
        c.check("bystander", by.as_deref() == Some("stay"), || format!("{:?}", by));
        if c.failed() {
            return;
        }
    }
    let b = on!(&mut msg, x, x.take_body());
    check_body(c, "final-body", b, &cur);
    check_body(c, "spare-body", spare.0, &spare.1);
    c.note(&shape);
    c.sample(|| format!("{:?} -> {:?}", shape, ct));
}

// ---------------------------------------------------------------- C08

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Rec {
    a: String,
    n: u64,
    i: i64,
    b: bool,
    o: Option<String>,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
struct Deep {
    rec: Rec,
    list: Vec<Rec>,
    t: (u8, String),
    m: std::collections::BTreeMap<String, Option<i32>>,
    f: f64,
    e: En,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
enum En {
    U,
    N(u32),
    S { x: String },
}

fn rec(r: &mut Rng) -> Rec {
    Rec {
        a: gen::unicode(r, 12),
        n: r.u64() >> r.below(64),
        i: r.u64() as i64 >> r.below(64),
        b: r.bool(),
        o: if r.bool() { Some(gen::unicode(r, 6)) } else { None },
    }
}

/// deliver through a body, a request or a response; scripted chunking
fn via<T>(r: &mut Rng, b: Body, fb: impl FnOnce(Body) -> T, fq: impl FnOnce(Request) -> T, fs: impl FnOnce(Response) -> T) -> T {
    match r.below(3) {
        0 => fb(b),
        1 => {
            let mut q = req();
            if r.one_in(3) {
                q.set_method(*r.pick(&[http_types::Method::Get, http_types::Method::Head, http_types::Method::Put, http_types::Method::Options]));
            }
            let late = r.bool();
            if !late {
                labels(r, |n, v| drop(q.insert_header(n, v)));
            }
            q.set_body(b);
            if late {
                labels(r, |n, v| drop(q.insert_header(n, v)));
            }
            fq(q)
        }
        _ => {
            let mut s = Response::new(*r.pick(&[200u16, 200, 201, 204, 304, 404, 500, 101]));
            let late = r.bool();
            if !late {
                labels(r, |n, v| drop(s.insert_header(n, v)));
            }
            s.set_body(b);
            if late {
                labels(r, |n, v| drop(s.insert_header(n, v)));
            }
            fs(s)
        }
    }
}

/// headers that describe a body: the bytes are decoded as they are
fn labels(r: &mut Rng, mut set: impl FnMut(&'static str, &'static str)) {
    while r.one_in(4) {
        match r.below(4) {
            0 => set("content-type", *r.pick(&["text/plain;charset=iso-8859-1", "text/plain", "application/json", "application/json; charset=utf-16", "application/x-www-form-urlencoded", "multipart/form-data; boundary=x", "application/octet-stream"])),
            1 => set("content-encoding", *r.pick(&["gzip", "identity", "br"])),
            2 => set("content-length", *r.pick(&["0", "1", "5", "99999"])),
            _ => set("transfer-encoding", "chunked"),
        }
    }
}

fn scripted(r: &mut Rng, data: Vec<u8>, len: Option<u64>) -> Body {
    let evs = (0..r.below(8)).map(|_| if r.one_in(3) { Ev::PendingSelf } else { Ev::Chunk(1 + r.below(9)) }).collect();
    Body::from_reader(Script::new(data, evs, Arc::new(Mutex::new(Probe::default()))), len)
}

fn rewrap(r: &mut Rng, b: Body) -> Body {
    if r.bool() {
        b
    } else {
        let data = block_on(b.into_bytes()).unwrap();
        let n = data.len() as u64;
        let len = match r.below(5) {
            0 => None,
            1 => Some(n),
            2 => Some(n + r.below(50) as u64),
            3 => Some(*r.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 62, 1 << 45, isize::MAX as u64])),
            _ => None,
        };
        scripted(r, data, len)
    }
}

fn decode_roundtrip(c: &mut Case) {
    let mut r = c.rng.clone();
    let kind = r.below(6);
    macro_rules! dec {
        ($r:expr, $b:expr, $into:ident, $body:ident) => {
            quiet(|| via($r, $b, |b| block_on(b.$into()), |mut q| block_on(q.$body()), |mut s| block_on(s.$body())).map_err(|e: http_types::Error| (e.status() as u16, e.to_string())))
        };
    }
    match kind {
        0 => {
            let v = gen::bytes(&mut r, 60);
            let b = rewrap(&mut r, Body::from_bytes(v.clone()));
            c.step(|| format!("{:?}", b));
            let got = dec!(&mut r, b, into_bytes, body_bytes);
            c.check("bytes", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?}", got, v));
            c.note((kind, &v));
        }
        1 => {
            let v = gen::unicode(&mut r, 60);
            let b = rewrap(&mut r, Body::from_string(v.clone()));
            c.step(|| format!("{:?}", b));
            let got = dec!(&mut r, b, into_string, body_string);
            c.check("string", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?}", got, v));
            c.note((kind, &v));
        }
        2 => {
            let v = json_value(&mut r, 3);
            let b = rewrap(&mut r, Body::from_json(&v).unwrap());
            let got = dec!(&mut r, b, into_json, body_json);
            c.check("json-value", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?}", got, v));
            c.note((kind, v.to_string()));
        }
        3 => {
            let v = Deep {
                rec: rec(&mut r),
                list: (0..r.below(3)).map(|_| rec(&mut r)).collect(),
                t: (r.u64() as u8, gen::unicode(&mut r, 5)),
                m: (0..r.below(3)).map(|_| (gen::unicode(&mut r, 4), if r.bool() { Some(r.u64() as i32) } else { None })).collect(),
                f: (r.below(1 << 20) as f64) / 64.0,
                e: match r.below(3) {
                    0 => En::U,
                    1 => En::N(r.u64() as u32),
                    _ => En::S { x: gen::unicode(&mut r, 3) },
                },
            };
            let b = rewrap(&mut r, Body::from_json(&v).unwrap());
            let got = dec!(&mut r, b, into_json, body_json);
            c.check("json-struct", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?}", got, v));
            c.note((kind, format!("{:?}", v)));
        }
        4 => {
            let v = rec(&mut r);
            let b = rewrap(&mut r, Body::from_form(&v).unwrap());
            let got = dec!(&mut r, b, into_form, body_form);
            c.check("form-struct", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?}", got, v));
            c.note((kind, format!("{:?}", v)));
        }
        _ => {
            let v: Vec<(String, String)> = (0..r.below(5)).map(|_| (gen::unicode(&mut r, 6), gen::unicode(&mut r, 9))).collect();
            let b = rewrap(&mut r, Body::from_form(&v).unwrap());
            let got = dec!(&mut r, b, into_form, body_form);
            c.check("form-pairs", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?}", got, v));
            c.note((kind, format!("{:?}", v)));
        }
    }
}

/// a character in some spelling of a form
fn form_char(r: &mut Rng, ch: char, out: &mut String) {
    let special = matches!(ch, '&' | '+' | '%' | '=');
    if ch == ' ' && r.bool() {
        out.push('+');
    } else if special || r.one_in(4) {
        let mut b = [0; 4];
        for x in ch.encode_utf8(&mut b).bytes() {
            if r.bool() {
                out.push_str(&format!("%{:02X}", x));
            } else {
                out.push_str(&format!("%{:02x}", x));
            }
        }
    } else {
        out.push(ch);
    }
}
fn space_text(r: &mut Rng, n: usize) -> String {
    (0..r.len(n)).map(|_| *r.pick(&[' ', '\n', '\r', '\t', '\0', '\u{a0}', '\u{feff}', '\u{2028}', 'a'])).collect()
}
fn json_space(r: &mut Rng) -> String {
    if r.bool() { String::new() } else { (0..r.below(3)).map(|_| *r.pick(&[' ', '\n', '\r', '\t'])).collect() }
}
fn json_text(r: &mut Rng, v: &serde_json::Value, out: &mut String) {
    use serde_json::Value as V;
    out.push_str(&json_space(r));
    match v {
        V::String(s) => {
            out.push('"');
            for ch in s.chars() {
                if ch < ' ' || ch == '"' || ch == '\\' || r.one_in(6) {
                    let mut b = [0; 2];
                    for u in ch.encode_utf16(&mut b) {
                        out.push_str(&if r.bool() { format!("\\u{:04x}", u) } else { format!("\\u{:04X}", u) });
                    }
                } else {
                    out.push(ch);
                }
            }
            out.push('"');
        }
        V::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 { out.push(','); }
                json_text(r, x, out);
            }
            out.push_str(&json_space(r));
            out.push(']');
        }
        V::Object(m) => {
            out.push('{');
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 { out.push(','); }
                json_text(r, &V::String(k.clone()), out);
                out.push(':');
                json_text(r, x, out);
            }
            out.push_str(&json_space(r));
            out.push('}');
        }
        other => out.push_str(&other.to_string()),
    }
    out.push_str(&json_space(r));
}

/// text that somebody else wrote: it decodes to what it states
fn decode_foreign(c: &mut Case) {
    let mut r = c.rng.clone();
    let kind = r.below(4);
    macro_rules! dec {
        ($r:expr, $b:expr, $into:ident, $body:ident) => {
            quiet(|| via($r, $b, |b| block_on(b.$into()), |mut q| block_on(q.$body()), |mut s| block_on(s.$body())).map_err(|e: http_types::Error| (e.status() as u16, e.to_string())))
        };
    }
    macro_rules! body {
        ($t:expr) => {
            match r.below(3) {
                0 => Body::from_string($t.clone()),
                1 => Body::from_bytes($t.clone().into_bytes()),
                _ => {
                    let n = $t.len() as u64;
                    let len = *r.pick(&[None, Some(n), Some(n + 3), Some(u64::MAX)]);
                    scripted(&mut r, $t.clone().into_bytes(), len)
                }
            }
        };
    }
    match kind {
        0 => {
            let text = format!("{}{}{}", space_text(&mut r, 3), gen::unicode(&mut r, 20), space_text(&mut r, 3));
            let b = body!(text);
            let got = dec!(&mut r, b, into_string, body_string);
            c.check("foreign-string", got == Ok(Ok(text.clone())), || format!("{:?} expected {:?}", got, text));
            c.note((kind, &text));
        }
        1 => {
            let v = json_value(&mut r, 3);
            let mut text = String::new();
            json_text(&mut r, &v, &mut text);
            let b = body!(text);
            let got = dec!(&mut r, b, into_json, body_json);
            c.check("foreign-json", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?} from {:?}", got, v, text));
            c.note((kind, &text));
        }
        2 => {
            let v: Vec<(String, String)> = (0..1 + r.below(4))
                .map(|_| {
                    let k = if r.one_in(4) { space_text(&mut r, 3) } else { gen::unicode(&mut r, 5) };
                    let v = match r.below(3) {
                        0 => format!("{}{}", gen::unicode(&mut r, 5), space_text(&mut r, 3)),
                        1 => format!("{}=%41+{}", space_text(&mut r, 3), space_text(&mut r, 3)),
                        _ => gen::unicode(&mut r, 9),
                    };
                    (k, v)
                })
                .collect();
            let mut text = String::new();
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 { text.push('&'); }
                if r.one_in(6) { text.push('&'); }
                let start = text.len();
                for ch in k.chars() { form_char(&mut r, ch, &mut text); }
                if !(x.is_empty() && text.len() > start && r.bool()) {
                    text.push('=');
                }
                for ch in x.chars() { if ch == '=' && r.bool() { text.push('='); } else { form_char(&mut r, ch, &mut text); } }
            }
            if r.one_in(6) { text.push('&'); }
            let b = body!(text);
            let got = dec!(&mut r, b, into_form, body_form);
            c.check("foreign-form", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?} from {:?}", got, v, text));
            c.note((kind, &text));
        }
        _ => {
            // fields in any order, unknown ones between them
            let v = rec(&mut r);
            let mut f = vec![("a", v.a.clone()), ("n", v.n.to_string()), ("i", v.i.to_string()), ("b", v.b.to_string())];
            if let Some(o) = &v.o { f.push(("o", o.clone())); }
            if r.bool() { f.push(("zz", gen::unicode(&mut r, 4))); }
            r.shuffle(&mut f);
            let mut text = String::new();
            for (i, (k, x)) in f.iter().enumerate() {
                if i > 0 { text.push('&'); }
                for ch in k.chars() { form_char(&mut r, ch, &mut text); }
                text.push('=');
                for ch in x.chars() { form_char(&mut r, ch, &mut text); }
            }
            let b = body!(text);
            let got = dec!(&mut r, b, into_form, body_form);
            c.check("foreign-form-struct", got == Ok(Ok(v.clone())), || format!("{:?} expected {:?} from {:?}", got, v, text));
            c.note((kind, &text));
        }
    }
}

fn decode_bad(c: &mut Case) {
    let mut r = c.rng.clone();
    let kind = r.below(7);
    let lie = match r.below(4) {
        0 => Some(*r.pick(&[u64::MAX, u64::MAX - 7, 1 << 63, 1 << 62, 1 << 44, isize::MAX as u64 + 1])),
        _ => None,
    };
    macro_rules! dec {
        ($t:ty, $b:expr, $into:ident, $body:ident) => {
            quiet(|| via(&mut r, $b, |b| block_on(b.$into()), |mut q| block_on(q.$body()), |mut s| block_on(s.$body())).map(|v: $t| format!("{:?}", v)).map_err(|e| e.status() as u16))
        };
    }
    let (what, got, input): (&str, Result<Result<String, u16>, String>, Vec<u8>) = match kind {
        0 => {
            // invalid UTF-8 at a random place
            let mut v = gen::unicode(&mut r, 30).into_bytes();
            let bad: &[&[u8]] = &[b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\x80", b"\xc0\x80"];
            let at = r.below(v.len() + 1);
            let ins = *r.pick(bad);
            v.splice(at..at, ins.iter().copied());
            if std::str::from_utf8(&v).is_ok() {
                v.push(0xff);
            }
            let b = scripted(&mut r, v.clone(), lie);
            ("invalid UTF-8 as string", dec!(String, b, into_string, body_string), v)
        }
        1 => {
            let mut v = serde_json::to_vec(&json_value(&mut r, 2)).unwrap();
            match r.below(3) {
                0 => v.push(b'x'),
                1 => v.insert(0, b'}'),
                _ => v = b"{\"a\":".to_vec(),
            }
            let b = scripted(&mut r, v.clone(), lie);
            ("malformed JSON", dec!(serde_json::Value, b, into_json, body_json), v)
        }
        4 => {
            // a form that would be fine but for bytes that are not UTF-8
            let v = rec(&mut r);
            let mut v = block_on(Body::from_form(&v).unwrap().into_bytes()).unwrap();
            v.extend_from_slice(b"&zz=1&s=");
            let at = if r.bool() { v.len() } else { r.below(v.len() + 1) };
            let bad: &[&[u8]] = &[b"\xff", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\x80", b"\xc0\x80"];
            let ins = *r.pick(bad);
            v.splice(at..at, ins.iter().copied());
            let b = scripted(&mut r, v.clone(), lie);
            if r.bool() {
                ("invalid UTF-8 as form", dec!(Rec, b, into_form, body_form), v)
            } else {
                ("invalid UTF-8 as form pairs", dec!(Vec<(String, String)>, b, into_form, body_form), v)
            }
        }
        5 => {
            // JSON with bytes that are not UTF-8 inside of a string
            let t = gen::unicode(&mut r, 8).replace(|c: char| c == '"' || c == '\\' || c < ' ', "_");
            let mut v = t.clone().into_bytes();
            let bad: &[&[u8]] = &[b"\xff", b"\xc3\"", b"\xe2\x82\"", b"\xed\xa0\x80", b"\xc0\x80"];
            v.extend_from_slice(*r.pick(bad));
            let mut v = [b"\"".to_vec(), v].concat();
            v.push(b'"');
            let b = scripted(&mut r, v.clone(), lie);
            if r.bool() {
                ("invalid UTF-8 as JSON", dec!(String, b, into_json, body_json), v)
            } else {
                ("invalid UTF-8 as JSON", dec!(serde_json::Value, b, into_json, body_json), v)
            }
        }
        6 => {
            // a prefix of good JSON, as of a connection that was cut
            let v = serde_json::to_vec(&vec![json_value(&mut r, 2)]).unwrap();
            let v = v[..r.below(v.len())].to_vec();
            let b = scripted(&mut r, v.clone(), lie);
            ("truncated JSON", dec!(serde_json::Value, b, into_json, body_json), v)
        }
        2 => {
            // well-formed JSON of another shape
            let v = (*r.pick(&["{}", "[]", "3", "{\"a\":1}", "{\"a\":\"x\",\"n\":-1,\"i\":0,\"b\":true}", "null", "\"x\""])).as_bytes().to_vec();
            let b = scripted(&mut r, v.clone(), lie);
            ("JSON of another type", dec!(Rec, b, into_json, body_json), v)
        }
        _ => {
            let v = (*r.pick(&["", "a=1", "a=1&n=x&i=0&b=true", "a=1&n=-1&i=0&b=true", "a=1&n=1&i=1&b=maybe", "a=1&a=2&n=1&i=1&b=true", "n=99999999999999999999999&a=&i=0&b=false", "a=%FF\u{0}&n="])).as_bytes().to_vec();
            let b = scripted(&mut r, v.clone(), lie);
            ("form of another type", dec!(Rec, b, into_form, body_form), v)
        }
    };
    match got {
        Err(p) => c.fail("decode-panicked", format!("{} with declared length {:?}: {}; input {:?}", what, lie, p, input)),
        Ok(Ok(v)) => c.fail("bad-data-accepted", format!("{}: {:?} decoded to {}", what, input, v)),
        Ok(Err(s)) => {
            c.check("status-422", s == 422, || format!("{}: status {}, declared length {:?}", what, s, lie));
        }
    }
    c.note((kind, input, lie));
    c.sample(|| format!("{} with declared length {:?}", what, lie));
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "bodies from every constructor, partly consumed through either read interface, re-typed, chained (lengths unknown, exact, too long, near u64::MAX), moved through messages; \
               files with real, truncated and absent magic bytes and every extension, in a scratch directory; compared with an arithmetic model; distinct = operation/length shape or file kind",
        assumptions: &["media types recognised by magic bytes are those of the infer crate"],
        subs: vec![rand("metadata", 240_000, 4_000_000, metadata), native(rand("files", 3_200, 60_000, files)), native(all("extensions", EXTS.len() as u64, extensions))],
    }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "random histories of body replacements, takes and content-type edits on requests and responses against a model of header and body; distinct = (operation, header state, body type known) sequence",
        assumptions: &[],
        subs: vec![rand("content-type", 240_000, 4_000_000, content_type)],
    }
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "random bytes, Unicode strings, JSON values, structures and forms encoded and decoded through body, request or response with scripted chunking and true, absent or absurd declared lengths; \
               text, JSON and forms in spellings of independent writers; malformed data of each kind; distinct = decoded content",
        assumptions: &["serde_json and serde_urlencoded round-trip the generated values"],
        subs: vec![rand("roundtrip", 240_000, 4_000_000, decode_roundtrip), rand("foreign", 120_000, 2_000_000, decode_foreign), rand("bad-data", 240_000, 4_000_000, decode_bad)],
    }
}
