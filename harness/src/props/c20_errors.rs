//! C20: errors, their status and their cause through tagging histories.
use super::c17_codecs::statuses;
use crate::gen;
use crate::infra::*;
use http_types::{bail, ensure, ensure_eq, format_err, Error, Status, StatusCode};
use std::error::Error as StdError;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

#[derive(Debug)]
struct CauseA {
    text: String,
    n: u64,
    drops: Arc<AtomicUsize>,
}
impl Drop for CauseA {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
    }
}
impl fmt::Display for CauseA {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "A{}:{}", self.n, self.text)
    }
}
impl StdError for CauseA {}

#[derive(Debug)]
struct CauseG<T>(CauseA, std::marker::PhantomData<T>);
type CauseB = CauseG<Vec<(u8, &'static str)>>;
impl<T: fmt::Debug> fmt::Display for CauseG<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "B of {}", self.0.n)
    }
}
impl<T: fmt::Debug> StdError for CauseG<T> {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        Some(&self.0)
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Kind {
    A(u64),
    B(u64),
    Io(String),
    Str(&'static str),
    Text(String),
}
struct Model {
    status: StatusCode,
    kind: Kind,
    display: String,
    type_name: Option<&'static str>,
    drops: Arc<AtomicUsize>,
}

fn pick_status(r: &mut Rng) -> (u16, StatusCode) {
    let v = statuses();
    *r.pick(&v)
}

fn make(r: &mut Rng) -> (Error, Model) {
    let drops = Arc::new(AtomicUsize::new(0));
    let n = r.u64();
    let text = if r.one_in(4) { gen::unicode(r, 12) } else { gen::nasty_text(r, 12) };
    let (num, st) = pick_status(r);
    let a = CauseA { text: text.clone(), n, drops: drops.clone() };
    let five = StatusCode::InternalServerError;
    let a_disp = format!("A{}:{}", n, text);
    let m = |status, kind, display: String, type_name| Model { status, kind, display, type_name, drops: drops.clone() };
    let ta = Some(std::any::type_name::<CauseA>());
    let tb = Some(std::any::type_name::<CauseB>());
    match r.below(16) {
        0 => (Error::new(num, a), m(st, Kind::A(n), a_disp, ta)),
        1 => (Error::new(st, a), m(st, Kind::A(n), a_disp, ta)),
        2 => (Error::new::<_, CauseB>(st, CauseG(a, std::marker::PhantomData)), m(st, Kind::B(n), format!("B of {}", n), tb)),
        3 => (Error::from(a), m(five, Kind::A(n), a_disp, ta)),
        4 => (Error::from_str(num, text.clone()), m(st, Kind::Text(text.clone()), text, None)),
        5 => (Error::from_str(st, "fixed"), m(st, Kind::Str("fixed"), "fixed".into(), None)),
        6 => (Error::new(st, std::io::Error::new(std::io::ErrorKind::Other, text.clone())), m(st, Kind::Io(text.clone()), text, Some(std::any::type_name::<std::io::Error>()))),
        7 => (Err::<(), _>(a).status(num).unwrap_err(), m(st, Kind::A(n), a_disp, ta)),
        8 => (Err::<(), _>(a).with_status(|| num).unwrap_err(), m(st, Kind::A(n), a_disp, ta)),
        9 => (None::<()>.status(num).unwrap_err(), m(st, Kind::Str("NoneError"), String::new(), None)),
        10 => (None::<()>.with_status(|| st).unwrap_err(), m(st, Kind::Str("NoneError"), String::new(), None)),
        11 => {
            fn inner(a: CauseA) -> http_types::Result<()> {
                Err(a)?;
                Ok(())
            }
            (inner(a).unwrap_err(), m(five, Kind::A(n), a_disp, ta))
        }
        12 => (Error::from_display(&a), m(five, Kind::Text(a_disp.clone()), a_disp, Some(""))),
        13 => {
            let (e, d) = match r.below(3) {
                0 => (Error::from_debug(&n), n.to_string()),
                1 => (Error::from_debug(&text), format!("{:?}", text)),
                _ => {
                    let v = (Some(&text), vec![n, 1], Some(st));
                    (Error::from_debug(&v), format!("{:?}", v))
                }
            };
            (e, m(five, Kind::Text(d.clone()), d, Some("")))
        }
        14 => {
            // through anyhow, which has no status
            let e = anyhow::Error::new(a);
            (Error::new(st, e), m(st, Kind::A(n), a_disp, Some("")))
        }
        _ => macro_error(r, n, &text, drops.clone()),
    }
}

// every arm of every macro: a literal, an expression, a format string; the condition fails or holds
const ARMS: usize = 24;
#[derive(Clone, Copy, PartialEq, Debug)]
enum Msg {
    Lit,
    Own,
    Fmt,
}

fn run_arm(k: usize, fail: bool, n: u64, text: &str) -> http_types::Result<u64> {
    let owned = text.to_string();
    let m = if fail { n.wrapping_add(1) } else { n };
    match k {
        0 => bail!("literal"),
        1 => bail!(owned),
        2 => bail!("formatted {} {}", n, text),
        3 => return Err(format_err!("literal")),
        4 => return Err(format_err!(owned)),
        5 => return Err(format_err!("formatted {} {}", n, text)),
        6 => ensure!(!fail, "literal"),
        7 => ensure!(!fail, owned),
        8 => ensure!(n == m, "formatted {} {}", n, text),
        9 => ensure_eq!(n, m, "literal"),
        10 => ensure_eq!(n, m, owned),
        11 => ensure_eq!(n, m, "formatted {} {}", n, text),
        12 => http_types::bail_status!(404, "literal"),
        13 => http_types::bail_status!(409, owned),
        14 => http_types::bail_status!(410, "formatted {} {}", n, text),
        15 => return Err(http_types::format_err_status!(422, "literal")),
        16 => return Err(http_types::format_err_status!(100, owned)),
        17 => return Err(http_types::format_err_status!(511, "formatted {} {}", n, text)),
        18 => http_types::ensure_status!(!fail, 503, "literal"),
        19 => http_types::ensure_status!(!fail, 400, owned),
        20 => http_types::ensure_status!(n == m, 406, "formatted {} {}", n, text),
        21 => http_types::ensure_eq_status!(n, m, 501, "literal"),
        22 => http_types::ensure_eq_status!(n, m, 412, owned),
        _ => http_types::ensure_eq_status!(n, m, 417, "formatted {} {}", n, text),
    }
    Ok(n)
}

// the same with a trailing comma
fn run_arm_comma(k: usize, fail: bool, n: u64, text: &str) -> http_types::Result<u64> {
    let owned = text.to_string();
    let m = if fail { n.wrapping_add(1) } else { n };
    match k {
        0 => bail!("literal",),
        1 => bail!(owned,),
        3 => return Err(format_err!("literal",)),
        4 => return Err(format_err!(owned,)),
        6 => ensure!(!fail, "literal",),
        7 => ensure!(!fail, owned,),
        9 => ensure_eq!(n, m, "literal",),
        10 => ensure_eq!(n, m, owned,),
        12 => http_types::bail_status!(404, "literal",),
        13 => http_types::bail_status!(409, owned,),
        15 => return Err(http_types::format_err_status!(422, "literal",)),
        16 => return Err(http_types::format_err_status!(100, owned,)),
        18 => http_types::ensure_status!(!fail, 503, "literal",),
        19 => http_types::ensure_status!(!fail, 400, owned,),
        21 => http_types::ensure_eq_status!(n, m, 501, "literal",),
        22 => http_types::ensure_eq_status!(n, m, 412, owned,),
        _ => return run_arm(k, fail, n, text),
    }
    Ok(n)
}

fn run_any(r: &mut Rng, k: usize, fail: bool, n: u64, text: &str) -> http_types::Result<u64> {
    if r.bool() {
        run_arm(k, fail, n, text)
    } else {
        run_arm_comma(k, fail, n, text)
    }
}

fn macro_error(r: &mut Rng, n: u64, text: &str, drops: Arc<AtomicUsize>) -> (Error, Model) {
    let k = r.below(ARMS);
    let e = match run_any(r, k, true, n, text) {
        Err(e) => e,
        // reported as a wrong status, type and message
        Ok(_) => Error::from_str(StatusCode::ImATeapot, "the macro did not return an error"),
    };
    let msg = [Msg::Lit, Msg::Own, Msg::Fmt][k % 3];
    use StatusCode as S;
    let status = match k {
        12 => S::NotFound,
        13 => S::Conflict,
        14 => S::Gone,
        15 => S::UnprocessableEntity,
        16 => S::Continue,
        17 => S::NetworkAuthenticationRequired,
        18 => S::ServiceUnavailable,
        19 => S::BadRequest,
        20 => S::NotAcceptable,
        21 => S::NotImplemented,
        22 => S::PreconditionFailed,
        23 => S::ExpectationFailed,
        _ => S::InternalServerError,
    };
    let (kind, disp) = match msg {
        Msg::Lit => (Kind::Str("literal"), "literal".to_string()),
        Msg::Own => (Kind::Text(text.to_string()), text.to_string()),
        Msg::Fmt => {
            let d = format!("formatted {} {}", n, text);
            (Kind::Text(d.clone()), d)
        }
    };
    (e, Model { status, kind, display: disp, type_name: None, drops })
}

fn observe(c: &mut Case, e: &Error, m: &Model) {
    c.eq("status", e.status(), m.status, &m.kind);
    c.eq("status:as_ref", *AsRef::<StatusCode>::as_ref(e), m.status, &m.kind);
    if !m.display.is_empty() {
        c.eq("display", e.to_string(), m.display.clone(), &m.kind);
        c.check("debug", m.display.chars().any(|c| !c.is_alphanumeric()) || format!("{:?}", e).contains(&m.display), || format!("{:?}", e));
        c.eq("display:source", AsRef::<dyn StdError>::as_ref(e).to_string(), m.display.clone(), &m.kind);
        c.eq("display:source send", AsRef::<dyn StdError + Send + Sync>::as_ref(e).to_string(), m.display.clone(), &m.kind);
        c.eq("display:inner", AsRef::<anyhow::Error>::as_ref(e).to_string(), m.display.clone(), &m.kind);
    }
    match m.type_name {
        Some("") => {}
        t => {
            c.eq("type_name", e.type_name(), t, &m.kind);
        }
    }
    c.eq("cause:A", e.downcast_ref::<CauseA>().map(|a| a.n), if let Kind::A(n) = m.kind { Some(n) } else { None }, &m.kind);
    c.eq("cause:B", e.downcast_ref::<CauseB>().map(|a| a.0.n), if let Kind::B(n) = m.kind { Some(n) } else { None }, &m.kind);
    c.check("cause:other type", e.downcast_ref::<CauseG<u32>>().is_none() && e.downcast_ref::<CauseG<Vec<u8>>>().is_none(), || format!("{:?}", m.kind));
    c.eq("cause:io", e.downcast_ref::<std::io::Error>().map(|a| a.to_string()), if let Kind::Io(s) = &m.kind { Some(s.clone()) } else { None }, &m.kind);
    if let Kind::Text(s) = &m.kind {
        c.eq("cause:String", e.downcast_ref::<String>(), Some(s), &m.kind);
    }
    if let Kind::Str(s) = &m.kind {
        if *s != "NoneError" {
            c.eq("cause:str", e.downcast_ref::<&'static str>(), Some(s), &m.kind);
        }
    }
    if let Kind::B(n) = m.kind {
        let s = AsRef::<dyn StdError>::as_ref(e).source().and_then(|s| s.downcast_ref::<CauseA>()).map(|a| a.n);
        c.eq("cause:source", s, Some(n), &m.kind);
    }
    c.eq("cause dropped", m.drops.load(SeqCst) > 0, !matches!(m.kind, Kind::A(_) | Kind::B(_)), &m.kind);
}

fn history(c: &mut Case) {
    let mut r = c.rng.clone();
    let (mut e, mut m) = make(&mut r);
    if !matches!(m.kind, Kind::A(_) | Kind::B(_)) {
        // the cause was not moved into the error
        m.drops.store(1, SeqCst);
    }
    c.step(|| format!("make {:?} {:?}", m.kind, m.status));
    observe(c, &e, &m);
    let mut hist = vec![];
    for _ in 0..r.len(10) {
        let (num, st) = pick_status(&mut r);
        let op = r.below(10);
        hist.push((op, num));
        c.step(|| format!("op {} {}", op, num));
        let before = m.status;
        match op {
            0 => e.set_status(num),
            1 => e.set_status(st),
            2 => e = Err::<u8, _>(e).status(num).unwrap_err(),
            3 => e = Err::<u8, _>(e).status(st).unwrap_err(),
            4 => {
                let mut calls = 0;
                e = Err::<u8, _>(e)
                    .with_status(|| {
                        calls += 1;
                        num
                    })
                    .unwrap_err();
                c.eq("with_status:calls", calls, 1, &num);
            }
            5 => *AsMut::<StatusCode>::as_mut(&mut e) = st,
            6 => {
                fn pass(e: Error) -> http_types::Result<u8> {
                    Err(e)?;
                    Ok(1)
                }
                e = pass(e).unwrap_err();
                m.status = before;
            }
            7 => {
                // a downcast to another type gives the error back
                match e.downcast::<std::num::ParseIntError>() {
                    Ok(_) => {
                        c.fail("downcast:other", "an error was downcast to a type it does not hold");
                        return;
                    }
                    Err(x) => e = x,
                }
            }
            8 => {
                if let Some(a) = e.downcast_mut::<CauseA>() {
                    a.n = a.n.wrapping_add(1);
                    m.kind = Kind::A(a.n);
                    m.display = format!("A{}:{}", a.n, a.text);
                }
            }
            _ => {
                let _ = e.backtrace();
            }
        }
        if op <= 5 {
            m.status = st;
        }
        observe(c, &e, &m);
        c.count("operations");
        if c.failed() {
            return;
        }
    }
    c.note((format!("{:?}", m.kind), &hist));
    c.sample(|| format!("{:?} {:?}", m.kind, hist));
    // give the cause back
    let end = r.below(6);
    c.step(|| format!("end {}", end));
    match (end, &m.kind) {
        (0, Kind::A(n)) | (1, Kind::A(n)) => match e.downcast::<CauseA>() {
            Ok(a) => {
                c.eq("downcast:A", a.n, *n, &"");
                c.eq("downcast:not dropped", m.drops.load(SeqCst), 0, &"");
                drop(a);
            }
            Err(_) => c.fail("downcast:A", "the cause cannot be recovered"),
        },
        (0, Kind::B(n)) | (1, Kind::B(n)) => match e.downcast::<CauseB>() {
            Ok(a) => {
                c.eq("downcast:B", a.0.n, *n, &"");
                drop(a);
            }
            Err(_) => c.fail("downcast:B", "the cause cannot be recovered"),
        },
        (2, k) => {
            let inner = e.into_inner();
            if !m.display.is_empty() {
                c.eq("into_inner:display", inner.to_string(), m.display.clone(), k);
            }
            c.eq("into_inner:A", inner.downcast_ref::<CauseA>().map(|a| a.n), if let Kind::A(n) = k { Some(*n) } else { None }, k);
        }
        (3, k) => {
            let b: Box<dyn StdError + Send + Sync> = e.into();
            if !m.display.is_empty() {
                c.eq("boxed:display", b.to_string(), m.display.clone(), k);
            }
            if let Kind::B(n) = k {
                c.eq("boxed:source", b.source().and_then(|s| s.downcast_ref::<CauseA>()).map(|a| a.n), Some(*n), k);
            }
        }
        (4, k) => {
            let b: Box<dyn StdError> = e.into();
            if !m.display.is_empty() {
                c.eq("boxed:display", b.to_string(), m.display.clone(), k);
            }
        }
        _ => drop(e),
    }
    c.eq("cause dropped once", m.drops.load(SeqCst), 1, &m.kind);
}

/// a success passes unchanged, and nothing is evaluated for it
fn success(c: &mut Case) {
    let mut r = c.rng.clone();
    let v = r.u64();
    let (num, st) = pick_status(&mut r);
    let bad = [600u16, 0, 99, 299, 65535][r.below(5)];
    let mut calls = 0usize;
    let a = Ok::<u64, std::io::Error>(v).status(num).ok();
    let b = Ok::<u64, Error>(v).status(st).ok();
    let d = Some(v).status(num).ok();
    let e = Ok::<u64, std::io::Error>(v).with_status(|| { calls += 1; num }).ok();
    let f = Ok::<u64, Error>(v).with_status(|| { calls += 1; num }).ok();
    let g = Some(v).with_status(|| { calls += 1; num }).ok();
    for (n, x) in [a, b, d, e, f, g].iter().enumerate() {
        c.eq("success:value", *x, Some(v), &n);
    }
    c.eq("success:lazy", calls, 0, &"");
    let lazy = quiet(|| {
        (Ok::<u64, std::io::Error>(v).status(bad).ok(), Ok::<u64, Error>(v).status(bad).ok(), Some(v).status(bad).ok())
    });
    c.eq("success:bad status is not looked at", lazy.ok(), Some((Some(v), Some(v), Some(v))), &bad);
    // chains: the status given last wins
    let (n2, s2) = pick_status(&mut r);
    let e = None::<u64>.status(num).status(n2).unwrap_err();
    c.eq("chain:last", e.status(), s2, &(num, n2));
    let e = Err::<u64, _>(std::io::Error::new(std::io::ErrorKind::Other, "x")).status(num).with_status(|| n2).unwrap_err();
    c.eq("chain:last", e.status(), s2, &(num, n2));
    fn conv(x: Result<u64, std::num::ParseIntError>) -> http_types::Result<u64> {
        Ok(x?)
    }
    let e = conv("x".parse::<u64>()).unwrap_err();
    c.eq("chain:default", e.status(), StatusCode::InternalServerError, &"");
    c.check("chain:cause", e.downcast_ref::<std::num::ParseIntError>().is_some(), || format!("{:?}", e));
    // an error that already has a status is not reset by `?`
    fn keep(x: http_types::Result<u64>) -> http_types::Result<u64> {
        let v = x?;
        Ok(v)
    }
    let e = keep(None::<u64>.status(num)).unwrap_err();
    c.eq("chain:kept", e.status(), st, &num);
    // conditions that hold do not return
    for k in (6..12).chain(18..24) {
        let got = run_any(&mut r, k, false, n2 as u64, "no");
        c.eq("macros:hold", got.ok(), Some(n2 as u64), &k);
    }
    c.note((num, n2, bad));
}

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "errors made by every constructor, conversion, helper and macro form, then random histories of status tagging, conversion, downcasts and mutation, ending in downcast, unwrapping or boxing; status, message, type and the drop count of the cause are compared with a model after each step; success paths with values that must not be evaluated; non-trivial: distinct (cause, history)",
        assumptions: &[],
        subs: vec![rand("history", 150_000, 6_000_000, history), rand("success", 50_000, 1_000_000, success)],
    }
}
