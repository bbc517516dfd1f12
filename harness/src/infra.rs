//! Monitor runtime: runs the cases of a property on all cores, records what the monitors
//! observed, turns panics / aborts / hangs of the code under test into verdicts, writes evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- random numbers

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(31);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (((self.u64() >> 11) as u128 * n as u128) >> 53) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.u64() as u128 % ((hi as i128 - lo as i128 + 1) as u128)) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability 1/n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// small length, geometric-ish; now and then far beyond `max`
    pub fn len(&mut self, max: usize) -> usize {
        if !cfg!(miri) && self.one_in(300) {
            let m = if self.one_in(8) { 120 * max } else { 9 * max };
            return self.below(m.min(20_000.max(max)) + 1);
        }
        let m = match self.below(4) {
            0 => 1,
            1 => 3,
            2 => 8,
            _ => max,
        };
        self.below(m.min(max) + 1)
    }
}

// ---------------------------------------------------------------- subs and cases

#[derive(Clone)]
pub enum Kind {
    /// `quick` / `thorough` random cases
    Rand(u64, u64),
    /// all indices 0..n, in both tiers
    All(u64),
}

#[derive(Clone)]
pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub f: fn(&mut Case),
    /// run with one thread only (stress cases that use threads themselves)
    pub serial: bool,
    /// needs the operating system (files, an executor of its own): not for Miri
    pub native: bool,
}

pub fn rand(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case)) -> Sub {
    Sub { name, kind: Kind::Rand(quick, thorough), f, serial: false, native: false }
}
pub fn all(name: &'static str, n: u64, f: fn(&mut Case)) -> Sub {
    Sub { name, kind: Kind::All(n), f, serial: false, native: false }
}
pub fn serial(mut s: Sub) -> Sub {
    s.serial = true;
    s
}

pub fn native(mut s: Sub) -> Sub {
    s.native = true;
    s
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub msg: String,
    pub sub: String,
    pub idx: u64,
}

#[derive(Default)]
pub struct Out {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: BTreeMap<String, Vec<String>>,
    pub violations: Vec<Violation>,
}

pub struct Case<'a> {
    pub rng: Rng,
    pub idx: u64,
    pub sub: &'static str,
    pub out: &'a mut Out,
    failed: bool,
    trace: Vec<String>,
}

const MAX_DISTINCT: usize = 3_000_000;

impl<'a> Case<'a> {
    /// Report a violation; `sig` identifies what is wrong (not where in the source).
    pub fn fail(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        self.failed = true;
        let sig = format!("{}:{}", self.sub, sig.into());
        self.out.counters.entry("violating_cases".into()).and_modify(|n| *n += 1).or_insert(1);
        if self.out.violations.iter().filter(|v| v.sig == sig).count() < 3 && self.out.violations.len() < 400 {
            let mut msg = msg.into();
            if !self.trace.is_empty() {
                msg.push_str("\ntrace:\n  ");
                msg.push_str(&self.trace.join("\n  "));
            }
            self.out.violations.push(Violation { sig, msg, sub: self.sub.into(), idx: self.idx });
        }
    }
    pub fn failed(&self) -> bool {
        self.failed
    }
    /// assert equality as an observation
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, got: T, want: T, ctx: &dyn std::fmt::Debug) -> bool {
        self.count_in("observations", 1);
        if got != want {
            self.fail(sig, format!("{}: got {:?}, expected {:?}; input {:?}", sig, got, want, ctx));
            false
        } else {
            true
        }
    }
    pub fn check(&mut self, sig: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.count_in("observations", 1);
        if !ok {
            let m = msg();
            self.fail(sig, format!("{}: {}", sig, m));
        }
        ok
    }
    fn count_in(&mut self, k: &str, n: u64) {
        if let Some(v) = self.out.counters.get_mut(k) {
            *v += n;
        } else {
            self.out.counters.insert(k.to_string(), n);
        }
    }
    /// count something the monitor saw
    pub fn count(&mut self, k: &str) {
        self.count_in(k, 1)
    }
    pub fn count_n(&mut self, k: &str, n: u64) {
        self.count_in(k, n)
    }
    /// note a distinct non-trivial case (hashed)
    pub fn note(&mut self, x: impl Hash) {
        if self.out.distinct.len() < MAX_DISTINCT {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            self.sub.hash(&mut h);
            x.hash(&mut h);
            self.out.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let v = self.out.samples.entry(self.sub.to_string()).or_default();
        if v.len() < 2 {
            let mut s = f();
            if s.len() > 500 {
                let mut n = 500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            v.push(s);
        }
    }
    /// record a step of the history for the violation report
    pub fn step(&mut self, s: impl FnOnce() -> String) {
        if self.trace.len() < 400 {
            self.trace.push(s());
        }
    }
    /// run code under test; a panic is reported under `sig` and gives None
    pub fn guard<T>(&mut self, sig: &str, ctx: &dyn std::fmt::Debug, f: impl FnOnce() -> T) -> Option<T> {
        match quiet(f) {
            Ok(v) => Some(v),
            Err(m) => {
                self.fail(format!("panic:{}", sig), format!("panic in {}: {}; input {:?}", sig, m, ctx));
                None
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    static QUIET: RefCell<u32> = RefCell::new(0);
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{} [{}]", msg, loc);
        let q = QUIET.with(|q| *q.borrow());
        if q == 0 {
            eprintln!("panic outside a guarded region: {}", full);
        }
        LAST_PANIC.with(|l| *l.borrow_mut() = full);
    }));
}

/// run with the panic caught and silenced; Err holds message and location
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

fn panic_sig(m: &str) -> String {
    // message without digits, file name without line: stable under unrelated edits
    let (msg, loc) = match m.rfind(" [") {
        Some(i) => (&m[..i], &m[i + 2..]),
        None => (m, ""),
    };
    let file = loc.split(':').next().unwrap_or("").rsplit('/').next().unwrap_or("");
    let msg: String = msg.chars().filter(|c| !c.is_ascii_digit()).take(50).collect();
    format!("uncaught-panic:{}:{}", file, msg)
}

// ---------------------------------------------------------------- known findings

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub what: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("known: property=") {
                if let Some((prop, rest)) = rest.split_once(" sig=") {
                    if let Some((sig, what)) = rest.split_once(" || ") {
                        v.push(Known { prop: prop.trim().into(), sig: sig.trim().into(), what: what.trim().into() });
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- runner

pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    /// scale factor for random counts (per cent)
    pub scale: u64,
    pub inflight: Option<PathBuf>,
    pub only: Option<String>,
    pub case_limit: Duration,
    pub wall_limit: Duration,
    pub on_hang: Option<fn(&str, u64)>,
    /// at most so many cases per sub
    pub cap: u64,
}

fn sub_hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn run_case(out: &mut Out, sub: &Sub, seed: u64, idx: u64) {
    let case_seed = mix(mix(seed, sub_hash(sub.name)), idx);
    let mut case = Case { rng: Rng::new(case_seed), idx, sub: sub.name, out, failed: false, trace: vec![] };
    case.out.evals += 1;
    let f = sub.f;
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut case)));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    if r.is_err() {
        let m = LAST_PANIC.with(|l| l.borrow().clone());
        case.fail(panic_sig(&m), format!("the case panicked: {}", m));
    }
}

pub fn run(prop: &Prop, o: &Opts) -> Out {
    let total = Arc::new(Mutex::new(Out::default()));
    let start = Instant::now();
    let inflight = o.inflight.as_ref().map(|p| Arc::new(std::fs::File::create(p).expect("inflight file")));
    // watchdog state: per thread (sub, idx, started ms), 0 = idle
    let nthreads = o.threads.max(1);
    let slots: Arc<Vec<(AtomicUsize, AtomicU64, AtomicU64)>> =
        Arc::new((0..nthreads).map(|_| (AtomicUsize::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect());
    let done = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let names: Vec<&'static str> = prop.subs.iter().map(|s| s.name).collect();
    let wd = if let Some(on_hang) = o.on_hang {
        let slots = slots.clone();
        let done = done.clone();
        let limit = o.case_limit;
        let names = names.clone();
        Some(std::thread::spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let now = start.elapsed().as_millis() as u64 + 1;
                for s in slots.iter() {
                    let t = s.2.load(Ordering::Acquire);
                    if t != 0 && now > t + limit.as_millis() as u64 {
                        on_hang(names[s.0.load(Ordering::Relaxed)], s.1.load(Ordering::Relaxed));
                    }
                }
            }
        }))
    } else {
        None
    };
    for (si, sub) in prop.subs.iter().enumerate() {
        if let Some(only) = &o.only {
            if !sub.name.starts_with(only.as_str()) {
                continue;
            }
        }
        let n = match sub.kind {
            Kind::Rand(q, t) => ((if o.thorough { t } else { q }) * o.scale / 100).max(1),
            Kind::All(n) => {
                if o.scale < 100 && !(n <= 70_000 && std::env::var_os("HV_KEEP_ALL").is_some()) {
                    (n * o.scale / 100).max(n.min(20))
                } else {
                    n
                }
            }
        };
        // an absolute cap, for interpreters
        let n = n.min(o.cap.max(1));
        let stride = match sub.kind {
            // a scaled-down enumeration is spread over the whole range
            Kind::All(full) if n < full => full / n,
            _ => 1,
        };
        let next = AtomicU64::new(0);
        let threads = if sub.serial { 1 } else { nthreads.min(n as usize).max(1) };
        let small = o.cap != u64::MAX;
        let batch = if small { 1 } else { (n / (threads as u64 * 16)).clamp(1, 256) };
        let sub_start = Instant::now();
        let cut = std::sync::atomic::AtomicBool::new(false);
        let work = |ti: usize| {
            let mut out = Out::default();
            loop {
                let b = next.fetch_add(batch, Ordering::Relaxed);
                if b >= n {
                    break;
                }
                if start.elapsed() > o.wall_limit && !(small && b == 0) {
                    cut.store(true, Ordering::Relaxed);
                    break;
                }
                for i in b..(b + batch).min(n) {
                    let idx = i * stride;
                    if let Some(f) = &inflight {
                        let mut buf = [0u8; 32];
                        let s = format!("{} {}", si, idx);
                        buf[..s.len()].copy_from_slice(s.as_bytes());
                        let _ = f.write_all_at(&buf, ti as u64 * 32);
                    }
                    slots[ti].0.store(si, Ordering::Relaxed);
                    slots[ti].1.store(idx, Ordering::Relaxed);
                    slots[ti].2.store(start.elapsed().as_millis() as u64 + 1, Ordering::Release);
                    run_case(&mut out, sub, o.seed, idx);
                    slots[ti].2.store(0, Ordering::Release);
                }
            }
            if let Some(f) = &inflight {
                let _ = f.write_all_at(&[0u8; 32], ti as u64 * 32);
            }
            let mut t = total.lock().unwrap();
            t.evals += out.evals;
            if t.distinct.len() < 2 * MAX_DISTINCT {
                t.distinct.extend(out.distinct);
            }
            for (k, v) in out.counters {
                *t.counters.entry(k).or_insert(0) += v;
            }
            for (k, v) in out.samples {
                let e = t.samples.entry(k).or_default();
                for s in v {
                    if e.len() < 2 {
                        e.push(s);
                    }
                }
            }
            t.violations.extend(out.violations);
        };
        if threads == 1 {
            work(0);
        } else {
            std::thread::scope(|s| {
                for ti in 0..threads {
                    let work = &work;
                    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || work(ti)).expect("spawn");
                }
            });
        }
        let mut t = total.lock().unwrap();
        let e = sub_start.elapsed().as_millis() as u64;
        *t.counters.entry(format!("cases:{}", sub.name)).or_insert(0) += n.min(next.load(Ordering::Relaxed));
        if std::env::var_os("HV_TIMES").is_some() {
            eprintln!("{:>8} ms {:>9} cases  {}", e, n, sub.name);
        }
        if cut.load(Ordering::Relaxed) {
            t.counters.insert("stopped_at_wall_limit".into(), 1);
        }
    }
    done.store(true, Ordering::Relaxed);
    if let Some(w) = wd {
        let _ = w.join();
    }
    let mut out = std::mem::take(&mut *total.lock().unwrap());
    out.violations.sort_by(|a, b| (&a.sub, a.idx).cmp(&(&b.sub, b.idx)));
    out
}
