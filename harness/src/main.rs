mod gen;
mod infra;
mod mem;
mod props;

use infra::*;

#[global_allocator]
static COUNTING: mem::Counting = mem::Counting;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

fn find(id: &str) -> Prop {
    match props::all().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            std::process::exit(2)
        }
    }
}

fn replay_file(id: &str, v: &Violation, seed: u64, thorough: bool) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let tag: String = v.sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(60).collect();
    let p = dir.join(format!("{}-{}-{}.json", id, tag, v.idx));
    let j = serde_json::json!({"property": id, "sub": v.sub, "idx": v.idx, "seed": seed,
        "thorough": thorough, "signature": v.sig, "message": v.msg,
        "how": format!("cargo run in /verif/harness: hv case {} {} {} {}", id, v.sub, seed, v.idx)});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

/// worker: runs the monitors, writes the partial evidence as JSON, exits 0 (always, unless it dies)
fn worker(id: &str, result: &Path, inflight: &Path) {
    install_hook();
    let prop = find(id);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env_u64("VERIF_SEED", 1);
    let o = Opts {
        seed,
        thorough,
        threads: env_u64("HV_THREADS", 8) as usize,
        scale: env_u64("HV_SCALE", if thorough { 300 } else { 1500 }),
        inflight: Some(inflight.to_path_buf()),
        only: std::env::var("HV_ONLY").ok(),
        case_limit: Duration::from_secs(env_u64("HV_CASE_LIMIT", 60)),
        wall_limit: Duration::from_secs(env_u64("HV_WALL", if thorough { 3000 } else { 420 })),
        cap: u64::MAX,
        on_hang: Some(|sub, idx| {
            println!("HANG {} {}", sub, idx);
            std::process::exit(97);
        }),
    };
    let t0 = Instant::now();
    let out = run(&prop, &o);
    let j = serde_json::json!({
        "evals": out.evals, "distinct": out.distinct.len(), "counters": out.counters,
        "samples": out.samples, "wall": t0.elapsed().as_secs_f64(),
        "violations": out.violations.iter().map(|v| serde_json::json!({"sig": v.sig, "msg": v.msg, "sub": v.sub, "idx": v.idx})).collect::<Vec<_>>()
    });
    std::fs::write(result, serde_json::to_string(&j).unwrap()).expect("result file");
}

/// parent: starts the worker, interprets its fate, prints the verdict, writes the evidence
fn check(id: &str) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let prop = find(id);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let seed = env_u64("VERIF_SEED", 1);
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("hv-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let (res, inf) = (dir.join("result.json"), dir.join("inflight"));
    let exe = std::env::current_exe().unwrap();
    let outp = std::process::Command::new(exe)
        .arg("worker").arg(id).arg(&res).arg(&inf)
        .env("HV_SCRATCH", &dir)
        .output().expect("start worker");
    let stdout = String::from_utf8_lossy(&outp.stdout).to_string();
    let stderr = String::from_utf8_lossy(&outp.stderr).to_string();
    let tail: String = stderr.lines().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n");
    if !tail.is_empty() {
        eprintln!("{}", tail);
    }
    let mut viols: Vec<Violation> = vec![];
    let mut died = None;
    let parsed: Option<serde_json::Value> =
        std::fs::read_to_string(&res).ok().and_then(|s| serde_json::from_str(&s).ok());
    if outp.status.code() == Some(0) && parsed.is_some() {
    } else if outp.status.code() == Some(97) {
        let l = stdout.lines().find(|l| l.starts_with("HANG ")).unwrap_or("HANG ? 0").to_string();
        let mut it = l.split(' ').skip(1);
        let sub = it.next().unwrap_or("?").to_string();
        let idx = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
        viols.push(Violation { sig: format!("{}:hang", sub), msg: "one case ran far beyond its time limit".into(), sub, idx });
        died = Some("a case did not finish");
    } else {
        // died: a crash signal while cases were in flight is a verdict, anything else is an error of the check
        let crash = matches!(outp.status.signal(), Some(4) | Some(6) | Some(7) | Some(8) | Some(11))
            || (outp.status.code() == Some(99)) // sanitizer exit code, see check.sh
            || stderr.contains("ERROR: AddressSanitizer") || stderr.contains("WARNING: ThreadSanitizer");
        if !crash {
            eprintln!("check error: worker ended with {:?}\n{}", outp.status, tail);
            let _ = std::fs::remove_dir_all(&dir);
            return 2;
        }
        let raw = std::fs::read(&inf).unwrap_or_default();
        let mut cands = vec![];
        for ch in raw.chunks(32) {
            let s = String::from_utf8_lossy(ch);
            let s = s.trim_end_matches('\0');
            if let Some((a, b)) = s.split_once(' ') {
                if let (Ok(a), Ok(b)) = (a.parse::<usize>(), b.parse::<u64>()) {
                    cands.push((prop.subs[a].name.to_string(), b));
                }
            }
        }
        let (sub, idx) = cands.first().cloned().unwrap_or(("?".into(), 0));
        viols.push(Violation {
            sig: format!("{}:crash", sub),
            msg: format!("the process died ({:?}) with these cases in flight: {:?}\n{}", outp.status, cands, tail),
            sub, idx,
        });
        died = Some("the process crashed");
    }
    let mut cov = serde_json::Map::new();
    let (mut evals, mut distinct) = (0u64, 0u64);
    if let Some(j) = &parsed {
        evals = j["evals"].as_u64().unwrap_or(0);
        distinct = j["distinct"].as_u64().unwrap_or(0);
        for v in j["violations"].as_array().cloned().unwrap_or_default() {
            viols.push(Violation {
                sig: v["sig"].as_str().unwrap_or("").into(), msg: v["msg"].as_str().unwrap_or("").into(),
                sub: v["sub"].as_str().unwrap_or("").into(), idx: v["idx"].as_u64().unwrap_or(0),
            });
        }
        cov.insert("observed".into(), j["counters"].clone());
        let mut samples = vec![];
        if let Some(m) = j["samples"].as_object() {
            for (k, v) in m {
                for s in v.as_array().cloned().unwrap_or_default() {
                    samples.push(serde_json::json!({"monitor": k, "case": s}));
                }
            }
        }
        cov.insert("samples".into(), serde_json::Value::Array(samples));
    } else {
        cov.insert("samples".into(), serde_json::json!([died.unwrap_or("no result")]));
    }
    cov.insert("evaluations".into(), evals.into());
    cov.insert("distinct_nontrivial".into(), distinct.into());
    cov.insert("rule".into(), prop.rule.into());
    let known = load_known(verif_dir().join("known_findings.txt").to_str().unwrap());
    let mut new: Vec<&Violation> = vec![];
    let mut hit = std::collections::BTreeSet::new();
    for v in &viols {
        match known.iter().position(|k| k.prop == id && k.sig == v.sig) {
            Some(i) => {
                hit.insert(i);
            }
            None => new.push(v),
        }
    }
    for (i, k) in known.iter().enumerate().filter(|(_, k)| k.prop == id) {
        if hit.contains(&i) {
            println!("KNOWN-FINDING: property={} {} [{}]", id, k.what, k.sig);
        }
    }
    if std::env::var_os("HV_NO_EVIDENCE").is_none() {
        let ev = serde_json::json!({
            "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
            "coverage": cov, "assumptions": prop.assumptions, "wall_s": t0.elapsed().as_secs_f64(),
            "violations": new.len(), "known_findings_seen": hit.len(),
        });
        let p = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&p);
        let name = format!("{}{}.json", id, std::env::var("HV_EVIDENCE_SUFFIX").unwrap_or_default());
        std::fs::write(p.join(name), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{}: {} cases, {} distinct, {:.1}s, {} violation report(s)", id, evals, distinct, t0.elapsed().as_secs_f64(), new.len());
    if new.is_empty() {
        return 0;
    }
    let mut seen = std::collections::BTreeSet::new();
    for v in new {
        if seen.insert(v.sig.clone()) && seen.len() <= 40 {
            let p = replay_file(id, v, seed, thorough);
            println!("--- {} (sub {} case {})\n{}", v.sig, v.sub, v.idx, v.msg);
            println!("VIOLATION property={} replay={}", id, p.display());
        }
    }
    1
}

fn main() {
    // error backtraces are slow and serialise the threads
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2]),
        Some("worker") => {
            worker(&a[2], Path::new(&a[3]), Path::new(&a[4]));
            0
        }
        // hv case ID SUB SEED IDX: run one case and print what it reports
        Some("case") => {
            install_hook();
            let prop = find(&a[2]);
            let sub = prop.subs.iter().find(|s| s.name == a[3]).expect("sub");
            let mut out = Out::default();
            run_case(&mut out, sub, a[4].parse().unwrap(), a[5].parse().unwrap());
            for v in &out.violations {
                println!("{}\n{}", v.sig, v.msg);
            }
            !out.violations.is_empty() as i32
        }
        // hv small [ID...] [key=value...]: every monitor a few times in this process (for Miri and the sanitizers).
        // Keys rather than the environment, because Miri hides that.
        Some("small") => {
            install_hook();
            let key = |k: &str, d: u64| a.iter().find_map(|x| x.strip_prefix(k)?.strip_prefix('=')?.parse().ok()).unwrap_or(d);
            let ids: Vec<&String> = a[2..].iter().filter(|x| !x.contains('=')).collect();
            let (shard, of) = (key("shard", 0), key("of", 1));
            let mut at = 0;
            for prop in props::all() {
                if !ids.is_empty() && !ids.iter().any(|x| **x == prop.id) {
                    continue;
                }
                for sub in prop.subs.iter() {
                    at += 1;
                    if at % of != shard || at <= key("from", 0) || (cfg!(miri) && sub.native) {
                        continue;
                    }
                    let one = Prop { id: prop.id, rule: prop.rule, assumptions: prop.assumptions, subs: vec![sub.clone()] };
                    let o = Opts {
                        seed: key("seed", 1), thorough: false, threads: key("threads", 1) as usize, scale: key("scale", 100), inflight: None,
                        only: None, case_limit: Duration::from_secs(3600), wall_limit: Duration::from_millis(key("ms", 5000)), on_hang: None,
                        cap: key("n", u64::MAX),
                    };
                    println!("BEGIN {} {} {}", prop.id, sub.name, at);
                    let out = run(&one, &o);
                    // behavioural reports belong to the other checks
                    println!("SMALL {} {} cases={} distinct={} reports={}", prop.id, sub.name, out.evals, out.distinct.len(), out.violations.len());
                }
            }
            println!("END");
            0
        }
        // hv ops SEED N: see C30
        Some("ops") => {
            install_hook();
            props::c30_pure::ops(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
                for s in &p.subs {
                    println!("    {}", s.name);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: hv check|worker|case|small|list ...");
            2
        }
    };
    std::process::exit(code);
}
