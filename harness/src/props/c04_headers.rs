//! C04: the header collection against a multimap model, over random operation histories.
use crate::gen;
use crate::infra::*;
use http_types::headers::*;
use http_types::trailers::Trailers;
use http_types::{Method, Request, Response, StatusCode, Url};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::str::FromStr;

pub type Model = BTreeMap<String, Vec<String>>;

pub enum Target {
    Bare(Headers),
    Req(Request),
    Res(Response),
    Tra(Trailers),
}

macro_rules! with {
    ($t:expr, $v:ident, $bare:expr, $msg:expr) => {
        match $t {
            Target::Bare($v) => $bare,
            Target::Tra($v) => $bare,
            Target::Req($v) => $msg,
            Target::Res($v) => $msg,
        }
    };
}

/// the ways a name can be spelled in a call
#[derive(Clone, Debug)]
pub enum N {
    Str(String),
    Name(HeaderName),
    RefName(HeaderName),
    Tuple(String),
}

#[derive(Clone, Debug)]
pub enum V {
    Str(String),
    Owned(String),
    RefOwned(String),
    CowB(String),
    Val(HeaderValue),
    Slice(Vec<HeaderValue>),
    Values(Vec<HeaderValue>),
    Typed(u64),
    Mime,
}

impl V {
    fn model(&self) -> Option<Vec<String>> {
        match self {
            V::Str(s) | V::Owned(s) | V::RefOwned(s) | V::CowB(s) => {
                if s.is_ascii() {
                    Some(vec![s.clone()])
                } else {
                    None
                }
            }
            V::Val(v) => Some(vec![v.as_str().to_string()]),
            V::Slice(v) | V::Values(v) => Some(v.iter().map(|v| v.as_str().to_string()).collect()),
            V::Typed(n) => Some(vec![n.to_string()]),
            V::Mime => Some(vec!["text/plain;charset=utf-8".into()]),
        }
    }
}

fn lit(s: &str) -> HeaderValue {
    HeaderValue::from_bytes(s.as_bytes().to_vec()).unwrap()
}

macro_rules! call {
    ($n:expr, $v:expr, |$nn:ident, $vv:ident| $e:expr) => {
        match $n.clone() {
            N::Str(s) => {
                let $nn = s.as_str();
                call!(@v $v, $vv, $e)
            }
            N::Name(h) => {
                let $nn = h;
                call!(@v $v, $vv, $e)
            }
            N::RefName(h) => {
                let $nn = &h;
                call!(@v $v, $vv, $e)
            }
            N::Tuple(s) => {
                let $nn = (s.as_str(), "ignored");
                call!(@v $v, $vv, $e)
            }
        }
    };
    (@v $v:expr, $vv:ident, $e:expr) => {
        match $v.clone() {
            V::Str(s) => { let $vv = s.as_str(); $e }
            V::Owned(s) => { let $vv = s; $e }
            V::RefOwned(s) => { let $vv = &s; $e }
            V::CowB(s) => { let $vv: Cow<'_, str> = Cow::Borrowed(&s); $e }
            V::Val(v) => { let $vv = v; $e }
            V::Slice(v) => { let $vv = &v[..]; $e }
            V::Values(v) => { let hv: HeaderValues = v.into_iter().collect(); let $vv = &hv; $e }
            V::Typed(n) => { let $vv = http_types::content::ContentLength::new(n); $e }
            V::Mime => { let $vv = http_types::mime::PLAIN; $e }
        }
    };
}

macro_rules! named {
    ($n:expr, |$nn:ident| $e:expr) => {
        match $n.clone() {
            N::Str(s) => {
                let $nn = s.as_str();
                $e
            }
            N::Name(h) => {
                let $nn = h;
                $e
            }
            N::RefName(h) => {
                let $nn = &h;
                $e
            }
            N::Tuple(s) => {
                let $nn = (s.as_str(), "ignored");
                $e
            }
        }
    };
}

fn strs(v: &HeaderValues) -> Vec<String> {
    v.iter().map(|v| v.as_str().to_string()).collect()
}

pub fn new_target(r: &mut Rng) -> Target {
    match r.below(4) {
        0 => Target::Bare(Headers::try_from(http::HeaderMap::new()).unwrap()),
        1 => Target::Req(Request::new(Method::Get, Url::parse("http://example.com").unwrap())),
        2 => Target::Res(Response::new(StatusCode::Ok)),
        _ => Target::Tra(Trailers::new()),
    }
}

impl Target {
    fn insert(&mut self, n: &N, v: &V) -> Result<Option<Vec<String>>, String> {
        let r = with!(self, t, call!(n, v, |n, v| t.insert(n, v)), call!(n, v, |n, v| t.insert_header(n, v)));
        r.map(|o| o.map(|v| strs(&v))).map_err(|e| e.to_string())
    }
    fn append(&mut self, n: &N, v: &V) -> Result<(), String> {
        let r = with!(self, t, call!(n, v, |n, v| t.append(n, v)), call!(n, v, |n, v| t.append_header(n, v)));
        r.map_err(|e| e.to_string())
    }
    fn remove(&mut self, n: &N) -> Option<Vec<String>> {
        with!(self, t, named!(n, |n| t.remove(n)), named!(n, |n| t.remove_header(n))).map(|v| strs(&v))
    }
    fn get(&self, n: &N) -> Option<&HeaderValues> {
        with!(self, t, named!(n, |n| t.get(n)), named!(n, |n| t.header(n)))
    }
    fn get_mut(&mut self, n: &N) -> Option<&mut HeaderValues> {
        with!(self, t, named!(n, |n| t.get_mut(n)), named!(n, |n| t.header_mut(n)))
    }
    fn iter(&self) -> Iter<'_> {
        with!(self, t, t.iter(), t.iter())
    }
    fn iter_mut(&mut self) -> IterMut<'_> {
        with!(self, t, t.iter_mut(), t.iter_mut())
    }
    fn names(&self) -> Names<'_> {
        with!(self, t, t.names(), t.header_names())
    }
    fn values(&self) -> Values<'_> {
        with!(self, t, t.values(), t.header_values())
    }
    fn index(&self, s: &str) -> &HeaderValues {
        with!(self, t, &t[s], &t[s])
    }
    fn index_name(&self, n: HeaderName) -> &HeaderValues {
        with!(self, t, &t[n], &t[n])
    }
    fn kind(&self) -> &'static str {
        match self {
            Target::Bare(_) => "Headers",
            Target::Req(_) => "Request",
            Target::Res(_) => "Response",
            Target::Tra(_) => "Trailers",
        }
    }
    fn headers(&self) -> &Headers {
        match self {
            Target::Bare(h) => h.as_ref(),
            Target::Req(h) => h.as_ref(),
            Target::Res(h) => h.as_ref(),
            Target::Tra(h) => h,
        }
    }
    fn dup(&self) -> Target {
        match self {
            Target::Bare(h) => Target::Bare(h.clone()),
            Target::Req(h) => Target::Req(h.clone()),
            Target::Res(h) => Target::Res(h.clone()),
            Target::Tra(h) => Target::Tra(h.clone()),
        }
    }
    fn into_pairs(self) -> Model {
        fn c(it: impl Iterator<Item = (HeaderName, HeaderValues)>) -> Model {
            it.map(|(k, v)| (k.as_str().to_string(), strs(&v))).collect()
        }
        match self {
            Target::Bare(h) => c(h.into_iter()),
            Target::Req(h) => c(h.into_iter()),
            Target::Res(h) => c(h.into_iter()),
            Target::Tra(h) => h.iter().map(|(k, v)| (k.as_str().to_string(), strs(v))).collect(),
        }
    }
}

/// iterate to the end, checking the size hint at every step
fn hinted<T>(c: &mut Case, what: &str, mut it: impl Iterator<Item = T>) -> Vec<T> {
    let mut v = vec![];
    let mut hints = vec![it.size_hint()];
    while let Some(x) = it.next() {
        v.push(x);
        hints.push(it.size_hint());
    }
    let n = v.len();
    for (i, (lo, hi)) in hints.iter().enumerate() {
        let left = n - i;
        c.check(&format!("size-hint-{}", what), *lo <= left && hi.map_or(true, |h| h >= left), || {
            format!("{} items left but size_hint says {:?}", left, (lo, hi))
        });
    }
    c.check(&format!("iterator-ended-{}", what), it.next().is_none(), || "yields after its end".into());
    v
}

pub fn audit(c: &mut Case, t: &mut Target, m: &Model, r: &mut Rng) {
    let kind = t.kind();
    let got: Vec<(String, Vec<String>)> = {
        let v = hinted(c, "iter", t.iter());
        v.into_iter().map(|(k, v)| (k.as_str().to_string(), strs(v))).collect()
    };
    c.check("iter-entries", got.len() == m.len(), || format!("{} iter() gives {:?}, model {:?}", kind, got, m));
    let map: Model = got.iter().cloned().collect();
    c.check("contents", &map == m, || format!("{} contains {:?}, model {:?}", kind, map, m));
    let mut names: Vec<String> = hinted(c, "names", t.names()).into_iter().map(|n| n.as_str().to_string()).collect();
    names.sort();
    let mn: Vec<String> = m.keys().cloned().collect();
    c.check("names", names == mn, || format!("names {:?}, model {:?}", names, mn));
    let mut vals: Vec<String> = hinted(c, "values", t.values()).into_iter().map(|v| v.as_str().to_string()).collect();
    // values of one name must come out in order and adjacent
    let mut left = m.clone();
    {
        let mut i = 0;
        let mut ok = true;
        while i < vals.len() {
            let hit = left.iter().find(|(_, v)| !v.is_empty() && vals[i..].starts_with(v)).map(|(k, v)| (k.clone(), v.len()));
            match hit {
                Some((k, n)) => {
                    left.remove(&k);
                    i += n;
                }
                None => {
                    ok = false;
                    break;
                }
            }
        }
        // greedy prefix matching can fail on ambiguous data; fall back to multisets
        if !ok {
            let mut all: Vec<String> = m.values().flatten().cloned().collect();
            all.sort();
            vals.sort();
            c.check("values", all == vals, || format!("values {:?}, model {:?}", vals, all));
        } else {
            let n: usize = m.values().map(|v| v.len()).sum();
            c.check("values", vals.len() == n, || format!("values {:?}, model {:?}", vals, m));
        }
    }
    let im: Model = hinted(c, "iter_mut", t.iter_mut()).into_iter().map(|(k, v)| (k.as_str().to_string(), strs(v))).collect();
    c.check("iter-mut", &im == m, || format!("iter_mut {:?}, model {:?}", im, m));
    for (k, v) in m {
        let sp = gen::recase(r, k);
        let got = t.get(&N::Str(sp.clone())).map(strs);
        c.check("get", got.as_ref() == Some(v), || format!("{} get({:?}) = {:?}, model {:?}", kind, sp, got, v));
        let gm = t.get_mut(&N::Str(sp.clone())).map(|v| strs(v));
        c.check("get_mut", gm.as_ref() == Some(v), || format!("get_mut({:?}) = {:?}, model {:?}", sp, gm, v));
        let ix = quiet(|| strs(t.index(&sp)));
        c.check("index", ix.as_ref() == Ok(v), || format!("[{:?}] = {:?}, model {:?}", sp, ix, v));
        let name = HeaderName::from_str(&sp).unwrap();
        let other = format!("{}\u{17f}", sp);
        let longer = format!("{}x", sp);
        let forms = quiet(|| {
            [
                name == sp, name == &sp, name == *sp.as_str(), name == sp.as_str(),
                name == other, name == &other, name == *other.as_str(), name == other.as_str(),
                name == longer, name == &longer, name == *longer.as_str(), name == longer.as_str(),
            ]
        });
        c.eq("eq-name-forms", forms, Ok([true, true, true, true, false, false, false, false, false, false, false, false]), &sp);
        let ix = quiet(|| strs(t.index_name(name)));
        c.check("index-name", ix.as_ref() == Ok(v), || format!("[{:?}] = {:?}, model {:?}", sp, ix, v));
        if !v.is_empty() {
            let hv = t.get(&N::Str(sp)).unwrap();
            let items = hinted(c, "HeaderValues", hv.iter()).len();
            c.check("values-iter", items == v.len(), || format!("{} of {}", items, v.len()));
            audit_values(c, hv, v);
        }
    }
}

fn audit_values(c: &mut Case, hv: &HeaderValues, v: &[String]) {
    c.check("last", hv.last().as_str() == v[v.len() - 1], || format!("last {:?} of {:?}", hv.last(), v));
    c.check("deref-first", hv.as_str() == v[0], || format!("deref {:?} of {:?}", hv.as_str(), v));
    let ar: &HeaderValue = hv.as_ref();
    c.check("as-ref-first", ar.as_str() == v[0], || format!("as_ref {:?} of {:?}", ar, v));
    c.check("eq-str", (hv == v[0].as_str()) == (v.len() == 1), || format!("== {:?} for {:?}", v[0], v));
    c.check("eq-string", (*hv == v[0]) == (v.len() == 1), || format!("== {:?} for {:?}", v[0], v));
    let forms = quiet(|| (*hv == *v[0].as_str(), *hv == &v[0], *hv == v[0].as_str(), *hv == format!("{}x", v[0]), *hv == &format!("{}x", v[0]), *hv == *"", *hv == ""));
    let (one, none) = (v.len() == 1, v.len() == 1 && v[0].is_empty());
    c.eq("eq-forms", forms, Ok((one, one, one, false, false, none, none)), &v);
    let refs: Vec<&str> = v.iter().map(|s| s.as_str()).collect();
    let first = &hv[0];
    let x = &v[0];
    let other = format!("{}\u{e9}", x);
    let forms = quiet(|| [*first == *x.as_str(), *first == x.as_str(), *first == *x, *first == x, *first == *other.as_str(), *first == other.as_str(), *first == other, *first == &other]);
    c.eq("eq-value-forms", forms, Ok([true, true, true, true, false, false, false, false]), &v);
    c.check("eq-slice", *hv == refs[..], || format!("== {:?}", refs));
    c.check("eq-longer", *hv != refs[..refs.len() - 1], || format!("equals its own prefix {:?}", refs));
    for (i, s) in v.iter().enumerate() {
        c.check("values-get", hv.get(i).map(|x| x.as_str()) == Some(s) && hv[i].as_str() == s, || format!("get({}) = {:?}", i, hv.get(i)));
        c.check("contains", hv.contains(&lit(s)), || format!("does not contain {:?}", s));
    }
    c.check("values-get-end", hv.get(v.len()).is_none(), || "get past the end".into());
    c.check("contains-not", !hv.contains(&lit("\u{1}not-there\u{2}")), || "contains a value never stored".into());
    let back: HeaderValue = hv.clone().into();
    c.check("into-value-first", back.as_str() == v[0], || format!("HeaderValue::from {:?} of {:?}", back, v));
    let owned: Vec<String> = hv.clone().into_iter().map(|v| v.as_str().to_string()).collect();
    c.check("values-into-iter", owned == v, || format!("into_iter {:?} of {:?}", owned, v));
}

const CONSTS: &[(HeaderName, &str)] = &[
    (HOST, "host"),
    (CONTENT_TYPE, "content-type"),
    (ACCEPT, "accept"),
    (SET_COOKIE, "set-cookie"),
    (ETAG, "etag"),
    (VARY, "vary"),
    (CONTENT_LENGTH, "content-length"),
    (DATE, "date"),
];

fn gen_name(r: &mut Rng, pool: &[String]) -> (N, String) {
    let (n, s) = if r.one_in(8) {
        let (h, s) = r.pick(CONSTS).clone();
        return (if r.bool() { N::Name(h) } else { N::RefName(h) }, s.to_string());
    } else {
        let s = r.pick(pool).clone();
        let sp = gen::recase(r, &s);
        let n = match r.below(6) {
            0 | 1 => N::Str(sp),
            2 => N::Name(HeaderName::from_str(&sp).unwrap()),
            3 => N::RefName(HeaderName::from_bytes(sp.into_bytes()).unwrap()),
            4 => N::Name(HeaderName::from_string(sp).unwrap()),
            _ => N::Tuple(sp),
        };
        (n, s)
    };
    (n, s.to_ascii_lowercase())
}

fn gen_text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => gen::any_ascii(r, 20),
        2 => gen::typical_value(r),
        _ => gen::word(r),
    }
}

fn gen_value(r: &mut Rng) -> V {
    let t = if r.one_in(8) { format!("{}\u{e9}", gen_text(r)) } else { gen_text(r) };
    match r.below(10) {
        0 | 1 => V::Str(t),
        2 => V::Owned(t),
        3 => V::RefOwned(t),
        4 => V::CowB(t),
        5 => V::Val(lit(&gen_text(r))),
        6 => V::Slice((0..1 + r.len(3)).map(|_| lit(&gen_text(r))).collect()),
        7 => V::Values((0..1 + r.len(3)).map(|_| lit(&gen_text(r))).collect()),
        8 => V::Typed(r.u64() >> r.below(64)),
        _ => V::Mime,
    }
}

fn history(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut t = new_target(&mut r);
    let mut m: Model = Model::new();
    c.step(|| format!("new {}", t.kind()));
    audit(c, &mut t, &m, &mut r);
    let pool: Vec<String> = {
        let n = 1 + r.below(5);
        (0..n).map(|_| gen::header_name(&mut r)).collect()
    };
    let long = r.one_in(20);
    let steps = 1 + r.below(if long { 120 } else { 24 });
    let mut snapshot: Option<(Target, Model)> = None;
    let mut shape = vec![];
    // some histories start from a collection with hundreds of values or names
    if r.one_in(250) {
        let many = if r.bool() { 20 + r.below(120) } else { 100 + r.below(250) };
        let wide = r.bool();
        c.step(|| format!("append {} values, {}", many, if wide { "one per name" } else { "all to one name" }));
        shape.push((8, many));
        for i in 0..many {
            let name = if wide { format!("x-{}", i * 7919 % 1000) } else { pool[0].clone() };
            let text = gen_text(&mut r);
            let ok = t.append(&N::Str(name.clone()), &V::Str(text.clone()));
            c.check("bulk-append", ok.is_ok(), || format!("{:?}", ok));
            m.entry(name.to_ascii_lowercase()).or_default().push(text);
        }
        c.count("large-collections");
        audit(c, &mut t, &m, &mut r);
    }
    let steps = if shape.is_empty() { steps } else { steps.min(12) };
    for _ in 0..steps {
        let op = r.below(16);
        let (n, key) = gen_name(&mut r, &pool);
        match op {
            0..=3 => {
                let v = gen_value(&mut r);
                c.step(|| format!("insert({:?}, {:?})", n, v));
                let got = t.insert(&n, &v);
                shape.push((1u8, v.model().map_or(99, |v| v.len())));
                match v.model() {
                    Some(vs) => {
                        let want = m.insert(key, vs);
                        c.check("insert-returns-previous", got == Ok(want.clone()), || format!("{:?}, model {:?}", got, want));
                    }
                    None => {
                        c.count("refused-operations");
                        c.check("insert-refuses", got.is_err(), || format!("accepted {:?}", v));
                    }
                }
            }
            4..=7 => {
                let v = gen_value(&mut r);
                c.step(|| format!("append({:?}, {:?})", n, v));
                let got = t.append(&n, &v);
                shape.push((2, v.model().map_or(99, |v| v.len())));
                match v.model() {
                    Some(vs) => {
                        m.entry(key).or_default().extend(vs);
                        c.check("append-ok", got.is_ok(), || format!("{:?}", got));
                    }
                    None => {
                        c.count("refused-operations");
                        c.check("append-refuses", got.is_err(), || format!("accepted {:?}", v));
                    }
                }
            }
            8 | 9 => {
                c.step(|| format!("remove({:?})", n));
                shape.push((3, 0));
                let got = t.remove(&n);
                let want = m.remove(&key);
                c.check("remove-returns", got == want, || format!("{:?}, model {:?}", got, want));
            }
            10 => {
                // change the first or an arbitrary value in place
                let s = gen_text(&mut r);
                let i = r.below(3);
                c.step(|| format!("get_mut({:?}) set {} to {:?}", n, i, s));
                shape.push((4, i));
                let present = m.get_mut(&key);
                match (t.get_mut(&n), present) {
                    (Some(hv), Some(mv)) => {
                        if i == 0 {
                            let x: &mut HeaderValue = hv.as_mut();
                            *x = lit(&s);
                            mv[0] = s;
                        } else if i == 1 {
                            **hv = lit(&s);
                            mv[0] = s;
                        } else {
                            let k = mv.len() - 1;
                            match hv.get_mut(k) {
                                Some(x) => *x = lit(&s),
                                None => c.fail("values-get_mut", "missing"),
                            }
                            mv[k] = s;
                        }
                    }
                    (None, None) => {}
                    (g, w) => {
                        let msg = format!("get_mut {:?}, model {:?}", g.is_some(), w);
                        c.fail("get_mut-presence", msg)
                    }
                }
            }
            11 => {
                // append through HeaderValues
                let extra: Vec<HeaderValue> = (0..r.below(3)).map(|_| lit(&gen_text(&mut r))).collect();
                c.step(|| format!("get_mut({:?}).append({:?})", n, extra));
                shape.push((5, extra.len()));
                if let (Some(hv), Some(mv)) = (t.get_mut(&n), m.get_mut(&key)) {
                    let mut o: HeaderValues = extra.clone().into();
                    hv.append(&mut o);
                    c.check("append-moves", o.iter().next().is_none(), || "source not emptied".into());
                    mv.extend(extra.iter().map(|v| v.as_str().to_string()));
                }
            }
            12 => {
                // change everything through iter_mut
                c.step(|| "iter_mut: first value of each".to_string());
                shape.push((6, 0));
                for (k, v) in t.iter_mut() {
                    let s = format!("m-{}", k.as_str().len());
                    let x: &mut HeaderValue = v.as_mut();
                    *x = lit(&s);
                }
                for (k, v) in m.iter_mut() {
                    v[0] = format!("m-{}", k.len());
                }
            }
            13 => {
                c.step(|| "clone".to_string());
                shape.push((7, 0));
                let keep = r.bool();
                let d = t.dup();
                let old = if keep { std::mem::replace(&mut t, d) } else { d };
                snapshot = Some((old, m.clone()));
            }
            14 => {
                // absent names
                let probe = format!("x-absent-{}", r.below(10));
                if !m.contains_key(&probe) {
                    c.check("absent-get", t.get(&N::Str(probe.clone())).is_none(), || probe.clone());
                    c.check("absent-get_mut", t.get_mut(&N::Str(probe.clone())).is_none(), || probe.clone());
                    c.check("absent-remove", t.remove(&N::Str(probe.clone())).is_none(), || probe.clone());
                }
            }
            _ => {
                // through the Headers view of a message
                let v = gen_value(&mut r);
                if let (Target::Req(_) | Target::Res(_) | Target::Tra(_), Some(vs)) = (&t, v.model()) {
                    c.step(|| format!("as_mut().append({:?}, {:?})", n, v));
                    let h: &mut Headers = match &mut t {
                        Target::Req(x) => x.as_mut(),
                        Target::Res(x) => x.as_mut(),
                        Target::Tra(x) => x,
                        Target::Bare(x) => x,
                    };
                    let ok = call!(n, v, |n, v| h.append(n, v)).is_ok();
                    c.check("append-via-view", ok, || "refused".into());
                    m.entry(key).or_default().extend(vs);
                }
            }
        }
        audit(c, &mut t, &m, &mut r);
        if c.failed() {
            break;
        }
        c.count("operations");
    }
    if let Some((mut o, om)) = snapshot {
        c.step(|| "audit of the clone".into());
        audit(c, &mut o, &om, &mut r);
    }
    let hm: Model = t.headers().into_iter().map(|(k, v)| (k.as_str().to_string(), strs(v))).collect();
    c.check("as-ref-view", hm == m, || format!("{:?} vs {:?}", hm, m));
    let kind = t.kind();
    let pairs = t.into_pairs();
    c.check("into-iter", pairs == m, || format!("{:?} vs {:?}", pairs, m));
    c.note((kind, &shape, m.len()));
    c.sample(|| format!("{} {:?} -> {:?}", kind, shape, m));
}

/// an operation that supplies no values at all must not leave a name without values
fn empty_lists(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut t = new_target(&mut r);
    let name = gen::header_name(&mut r);
    let prior = c.idx % 2 == 1;
    if prior {
        t.insert(&N::Str(name.clone()), &V::Str("one".into())).unwrap();
    }
    let empty = if c.idx & 2 == 0 { V::Slice(vec![]) } else { V::Values(vec![]) };
    let ins = c.idx & 4 == 0;
    c.step(|| format!("{} prior={} {}({:?}, {:?})", t.kind(), prior, if ins { "insert" } else { "append" }, name, empty));
    let ok = quiet(|| {
        if ins {
            let _ = t.insert(&N::Str(name.clone()), &empty);
        } else {
            let _ = t.append(&N::Str(name.clone()), &empty);
        }
    });
    c.check("empty-list-no-panic", ok.is_ok(), || format!("{:?}", ok));
    let got = t.get(&N::Str(name.clone())).map(strs);
    c.check("name-without-values", got.as_ref().map_or(true, |v| !v.is_empty()), || format!("{:?} is present with no values", name));
    if !ins {
        c.check("append-nothing-keeps", got == if prior { Some(vec!["one".into()]) } else { None }, || format!("{:?}", got));
    }
    c.note((t.kind(), c.idx % 8));
}

/// draining an entry through a borrowed HeaderValues
fn drained_entry(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut t = new_target(&mut r);
    t.insert(&N::Str("x-a".into()), &V::Str("one".into())).unwrap();
    let mut other: HeaderValues = vec![lit("zero")].into();
    other.append(t.get_mut(&N::Str("x-a".into())).unwrap());
    let got = t.get(&N::Str("x-a".into())).map(strs);
    c.check("entry-drained-through-get_mut", got.as_ref().map_or(true, |v| !v.is_empty()), || "a name is left without values".into());
    c.note(t.kind());
}

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "random histories of 1-120 header operations on a bare map, request, response or trailer set over 1-5 names in random letter case, \
               values in every accepted form (some refused); the whole collection is compared with a BTreeMap multimap model after every step; \
               distinct = operation/arity shape of the history",
        assumptions: &[],
        subs: vec![
            rand("history", 40_000, 1_500_000, history),
            all("empty-lists", 64, empty_lists),
            all("drained-entry", 8, drained_entry),
        ],
    }
}
