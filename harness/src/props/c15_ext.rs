//! C15: typed extension storage against a model, with counted drops.
use crate::infra::*;
use http_types::{Extensions, Method, Request, Response, StatusCode};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// a value that knows its identity and counts its drops; one type per N
#[derive(Debug)]
struct Tr<const N: usize> {
    id: usize,
    drops: Arc<Vec<AtomicUsize>>,
    pad: [u8; N],
}
impl<const N: usize> Drop for Tr<N> {
    fn drop(&mut self) {
        self.drops[self.id].fetch_add(1, SeqCst);
    }
}
impl<const N: usize> Tr<N> {
    fn pad_ok(&self) -> bool {
        self.pad.iter().all(|b| *b == self.id as u8)
    }
}
/// types without fields, and types that only differ by parameter or lifetime-free wrapper
#[derive(Debug, PartialEq, Clone, Copy)]
struct Unit;
#[derive(Debug, PartialEq, Clone, Copy)]
struct W<T>(T);

enum Where {
    Free(Box<Extensions>),
    Req(Box<Request>),
    Res(Box<Response>),
}
impl Where {
    fn new(r: &mut Rng) -> Where {
        match r.below(3) {
            0 => Where::Free(Box::new(Extensions::default())),
            1 => Where::Req(Box::new(Request::new(Method::Get, "http://a/"))),
            _ => Where::Res(Box::new(Response::new(StatusCode::Ok))),
        }
    }
    fn m(&mut self) -> &mut Extensions {
        match self {
            Where::Free(e) => e,
            Where::Req(q) => q.ext_mut(),
            Where::Res(q) => q.ext_mut(),
        }
    }
    fn r(&self) -> &Extensions {
        match self {
            Where::Free(e) => e,
            Where::Req(q) => q.ext(),
            Where::Res(q) => q.ext(),
        }
    }
    /// what a clone of the message holds must be nothing
    fn clone_is_empty(&self) -> Option<bool> {
        let f = |e: &Extensions| {
            !e.contains::<Tr<0>>() && !e.contains::<Tr<1>>() && !e.contains::<Tr<2>>() && !e.contains::<Tr<3>>() && !e.contains::<u32>() && !e.contains::<String>()
        };
        match self {
            Where::Free(_) => None,
            Where::Req(q) => Some(f(q.clone().ext())),
            Where::Res(q) => Some(f(q.clone().ext())),
        }
    }
}

const IDS: usize = 64;
/// model: the id stored for each of the tracked types, and plain values
#[derive(Default, Clone)]
struct Model {
    tr: [Option<usize>; 4],
    u: Option<u32>,
    s: Option<String>,
    unit: Option<Unit>,
    w8: Option<W<u8>>,
    w16: Option<W<u16>>,
    bx: Option<Box<u32>>,
}

fn tr_op<const N: usize>(c: &mut Case, e: &mut Extensions, m: &mut Model, op: usize, next: &mut usize, drops: &Arc<Vec<AtomicUsize>>) {
    match op {
        0 => {
            if *next == IDS {
                return;
            }
            let id = *next;
            *next += 1;
            c.step(|| format!("insert Tr<{}> #{}", N, id));
            let prev = e.insert(Tr::<N> { id, drops: drops.clone(), pad: [id as u8; N] });
            c.check("insert:pad", prev.as_ref().map_or(true, |p| p.pad_ok()), || "previous value damaged".into());
            c.eq("insert:previous", prev.as_ref().map(|p| p.id), m.tr[N], &N);
            m.tr[N] = Some(id);
        }
        1 => {
            c.step(|| format!("remove Tr<{}>", N));
            let got = e.remove::<Tr<N>>();
            c.check("remove:pad", got.as_ref().map_or(true, |p| p.pad_ok()), || "removed value damaged".into());
            c.eq("remove", got.as_ref().map(|p| p.id), m.tr[N], &N);
            m.tr[N] = None;
        }
        _ => {
            // replace in place through get_mut: the old value is dropped by the assignment
            if *next == IDS {
                return;
            }
            c.step(|| format!("get_mut Tr<{}>", N));
            let got = e.get_mut::<Tr<N>>();
            c.eq("get_mut", got.as_ref().map(|p| p.id), m.tr[N], &N);
            if let Some(v) = got {
                let id = *next;
                *next += 1;
                *v = Tr::<N> { id, drops: drops.clone(), pad: [id as u8; N] };
                m.tr[N] = Some(id);
            }
        }
    }
}

fn observe(c: &mut Case, e: &Extensions, m: &Model) {
    macro_rules! tr {
        ($n:literal) => {
            c.eq("get", e.get::<Tr<$n>>().map(|t| t.id), m.tr[$n], &$n);
            c.eq("contains", e.contains::<Tr<$n>>(), m.tr[$n].is_some(), &$n);
            c.check("stored:pad", e.get::<Tr<$n>>().map_or(true, |p| p.pad_ok()), || "stored value damaged".into());
        };
    }
    tr!(0);
    tr!(1);
    tr!(2);
    tr!(3);
    c.eq("get:u32", e.get::<u32>().copied(), m.u, &"");
    c.eq("get:String", e.get::<String>().cloned(), m.s.clone(), &"");
    c.eq("get:unit", e.get::<Unit>().copied(), m.unit, &"");
    c.eq("get:w8", e.get::<W<u8>>().copied(), m.w8, &"");
    c.eq("get:w16", e.get::<W<u16>>().copied(), m.w16, &"");
    c.eq("get:box", e.get::<Box<u32>>().cloned(), m.bx.clone(), &"");
    c.check("get:absent", e.get::<u64>().is_none() && !e.contains::<&'static str>() && e.get::<Option<u32>>().is_none(), || "a type that was never stored is found".into());
    c.eq("contains:plain", (e.contains::<u32>(), e.contains::<String>(), e.contains::<Unit>(), e.contains::<Box<u32>>()), (m.u.is_some(), m.s.is_some(), m.unit.is_some(), m.bx.is_some()), &"");
}

fn check_drops(c: &mut Case, drops: &[AtomicUsize], live: &[usize], next: usize) {
    for id in 0..next {
        let want = if live.contains(&id) { 0 } else { 1 };
        let got = drops[id].load(SeqCst);
        if got != want {
            c.fail("drops", format!("value #{} was dropped {} times, expected {}", id, got, want));
        }
    }
    c.count_n("drop counts checked", next as u64);
}

fn history(c: &mut Case) {
    let mut r = c.rng.clone();
    let drops: Arc<Vec<AtomicUsize>> = Arc::new((0..IDS).map(|_| AtomicUsize::new(0)).collect());
    let mut next = 0usize;
    let n_store = 1 + r.below(2);
    let mut stores: Vec<(Where, Model)> = (0..n_store).map(|_| (Where::new(&mut r), Model::default())).collect();
    let mut hist = vec![];
    let n_ops = 1 + r.len(40);
    for _ in 0..n_ops {
        let si = r.below(stores.len());
        let op = r.below(20);
        let kind = r.below(4);
        hist.push((si, op, kind));
        let (w, m) = &mut stores[si];
        match op {
            0..=9 => {
                let o = [0, 0, 0, 0, 1, 1, 1, 2, 2, 0][op];
                match kind {
                    0 => tr_op::<0>(c, w.m(), m, o, &mut next, &drops),
                    1 => tr_op::<1>(c, w.m(), m, o, &mut next, &drops),
                    2 => tr_op::<2>(c, w.m(), m, o, &mut next, &drops),
                    _ => tr_op::<3>(c, w.m(), m, o, &mut next, &drops),
                }
            }
            10 => {
                let v = r.u64() as u32;
                c.step(|| format!("insert u32 {}", v));
                c.eq("insert:u32", w.m().insert(v), m.u.replace(v), &v);
            }
            11 => {
                let v = format!("s{}", r.below(100));
                c.step(|| format!("insert String {}", v));
                c.eq("insert:String", w.m().insert(v.clone()), m.s.replace(v), &"");
            }
            12 => {
                c.step(|| "insert Unit and wrappers".into());
                c.eq("insert:unit", w.m().insert(Unit), m.unit.replace(Unit), &"");
                c.eq("insert:w8", w.m().insert(W(1u8)), m.w8.replace(W(1)), &"");
                let v = r.below(9) as u16;
                c.eq("insert:w16", w.m().insert(W(v)), m.w16.replace(W(v)), &"");
            }
            13 => {
                let v = r.below(9) as u32;
                c.step(|| "insert Box<u32>".into());
                c.eq("insert:box", w.m().insert(Box::new(v)), m.bx.replace(Box::new(v)), &"");
            }
            14 => {
                c.step(|| "remove plain values".into());
                c.eq("remove:u32", w.m().remove::<u32>(), m.u.take(), &"");
                c.eq("remove:w8", w.m().remove::<W<u8>>(), m.w8.take(), &"");
                c.eq("remove:absent", w.m().remove::<u64>(), None, &"");
            }
            15 => {
                c.step(|| "remove others".into());
                c.eq("remove:String", w.m().remove::<String>(), m.s.take(), &"");
                c.eq("remove:unit", w.m().remove::<Unit>(), m.unit.take(), &"");
                c.eq("remove:box", w.m().remove::<Box<u32>>(), m.bx.take(), &"");
            }
            16 => {
                c.step(|| "get_mut plain".into());
                match (w.m().get_mut::<u32>(), m.u.as_mut()) {
                    (Some(a), Some(b)) => {
                        *a = a.wrapping_add(1);
                        *b = b.wrapping_add(1);
                    }
                    (None, None) => {}
                    _ => c.fail("get_mut:u32", "presence differs from the model"),
                }
                if let Some(s) = w.m().get_mut::<String>() {
                    s.push('+');
                }
                if let Some(s) = m.s.as_mut() {
                    s.push('+');
                }
            }
            17 if r.below(3) == 0 => {
                c.step(|| "clear".into());
                w.m().clear();
                *m = Model::default();
            }
            18 => {
                c.step(|| "clone the message, move the store".into());
                if let Some(e) = w.clone_is_empty() {
                    c.check("clone", e, || "the clone of a message holds extensions".into());
                }
                let _ = format!("{:?}", w.r());
                if let Where::Free(e) = w {
                    let moved = std::mem::take(&mut **e);
                    c.check("taken", e.get::<u32>().is_none() && !e.contains::<Tr<1>>(), || "an emptied store still holds values".into());
                    *w = Where::Free(Box::new(moved));
                }
            }
            19 if r.below(4) == 0 => {
                c.step(|| "drop the store".into());
                let fresh = Where::new(&mut r);
                *w = fresh;
                *m = Model::default();
            }
            _ => {}
        }
        let live: Vec<usize> = stores.iter().flat_map(|s| s.1.tr.iter().flatten().copied()).collect();
        check_drops(c, &drops, &live, next);
        for (w, m) in &stores {
            observe(c, w.r(), m);
        }
        c.count("operations");
        if c.failed() {
            return;
        }
    }
    c.step(|| "drop everything".into());
    drop(stores);
    check_drops(c, &drops, &[], next);
    c.note(&hist);
    c.sample(|| format!("{:?}", hist));
}

/// the store travels to another thread with its values
fn threads(c: &mut Case) {
    let mut r = c.rng.clone();
    let drops: Arc<Vec<AtomicUsize>> = Arc::new((0..IDS).map(|_| AtomicUsize::new(0)).collect());
    let mut req = Request::new(Method::Get, "http://a/");
    let log = Arc::new(Mutex::new(vec![]));
    req.ext_mut().insert(log.clone());
    req.ext_mut().insert(Tr::<2> { id: 0, drops: drops.clone(), pad: [0; 2] });
    let shared = Arc::new(req);
    let n = 2 + r.below(3);
    let hs: Vec<_> = (0..n)
        .map(|i| {
            let q = shared.clone();
            std::thread::spawn(move || {
                let l = q.ext().get::<Arc<Mutex<Vec<usize>>>>().expect("log");
                l.lock().unwrap().push(i);
                q.ext().get::<Tr<2>>().map(|t| t.id) == Some(0) && q.ext().get::<Tr<1>>().is_none()
            })
        })
        .collect();
    for h in hs {
        c.check("threads:seen", h.join().unwrap_or(false), || "a thread did not see the stored values".into());
    }
    let mut l = log.lock().unwrap().clone();
    l.sort();
    c.eq("threads:log", l, (0..n).collect::<Vec<_>>(), &n);
    c.eq("threads:drops before", drops[0].load(SeqCst), 0, &"");
    match Arc::try_unwrap(shared) {
        Ok(q) => {
            let h = std::thread::spawn(move || drop(q));
            let _ = h.join();
        }
        Err(_) => c.fail("threads:unwrap", "still shared"),
    }
    c.eq("threads:drops after", drops[0].load(SeqCst), 1, &"");
    c.note(n);
}

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "random histories of insert/get/get_mut/remove/clear/clone/move/drop over one or two stores (free, request, response) holding eleven types; every live and returned value carries an identity and a drop counter compared with a model after every step; non-trivial: distinct histories",
        assumptions: &[],
        subs: vec![rand("history", 240_000, 5_000_000, history), rand("threads", 300, 20_000, threads)],
    }
}
