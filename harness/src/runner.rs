//! Check driver: deterministic case enumeration over worker processes, panic
//! capture, shrinking, replay files, evidence and known findings.

use crate::gen::{hash_bytes, mix, shrink, G};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    /// stable identity of what went wrong (no volatile values)
    pub sig: String,
    pub msg: String,
}
pub type Out = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($m:tt)*) => {
        if !($c) { return Err($crate::runner::Fail { sig: $sig.to_string(), msg: format!($($m)*) }); }
    };
}

pub struct Case {
    pub g: G,
    pub nontrivial: bool,
    pub key: u64,
    pub classes: BTreeSet<String>,
    pub counts: BTreeMap<String, u64>,
    pub sample: String,
    pub tier_thorough: bool,
}

impl Case {
    pub fn new(g: G, thorough: bool) -> Case {
        Case {
            g,
            nontrivial: false,
            key: 0,
            classes: BTreeSet::new(),
            counts: BTreeMap::new(),
            sample: String::new(),
            tier_thorough: thorough,
        }
    }
    pub fn class(&mut self, c: &str) {
        if !self.classes.contains(c) {
            self.classes.insert(c.to_string());
        }
    }
    /// record what a case consists of
    pub fn note(&mut self, classes: &BTreeSet<&'static str>, sample: String) {
        classes.iter().for_each(|k| self.class(k));
        self.content(sample.as_bytes());
        self.sample = sample;
    }
    pub fn count(&mut self, c: &str, n: u64) {
        *self.counts.entry(c.to_string()).or_default() += n;
    }
    /// identity of the generated case, for counting distinct ones
    pub fn content(&mut self, b: &[u8]) {
        self.key = mix(self.key, hash_bytes(b));
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    pub run: fn(&mut Case) -> Out,
    /// fixed reproductions of recorded findings: (signature, run)
    pub known: &'static [(&'static str, fn() -> Out)],
    /// non-termination of a case is itself a violation of this property
    pub hang_is_violation: bool,
    pub assumptions: &'static [&'static str],
}

pub const DEF: Prop = Prop {
    id: "",
    rule: "",
    quick: 20000,
    thorough: 400000,
    run: |_| Ok(()),
    known: &[],
    hang_is_violation: false,
    assumptions: &[],
};

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some((loc.0.clone(), format!("{}:{}: {}", loc.0, loc.1, msg))));
    }));
}

fn short_file(f: &str) -> String {
    match f.find("/repo/") {
        Some(i) => f[i + 6..].to_string(),
        None => match f.rfind("/registry/src/") {
            Some(i) => {
                let t = &f[i + 14..];
                t.split_once('/').map(|x| x.1).unwrap_or(t).to_string()
            }
            None => f.to_string(),
        },
    }
}

/// Run library code; a panic becomes a failure carrying its location.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (file, m) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if file.contains("/harness/") || file.starts_with("src/") {
                // the harness itself is broken: never a verdict
                eprintln!("harness panic: {m}");
                std::process::exit(3);
            }
            Err(Fail { sig: format!("panic:{what}:{}", short_file(&file)), msg: format!("{what} panicked: {m}") })
        }
    }
}

pub fn run_case(p: &Prop, c: &mut Case) -> Out {
    match catch_unwind(AssertUnwindSafe(|| (p.run)(c))) {
        Ok(r) => r,
        Err(_) => {
            let (file, m) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if file.contains("/repo/") || file.contains("/registry/") || file.contains("/rustc/") || file.contains("/library/") {
                return fail(format!("panic:{}", short_file(&file)), format!("panicked: {m}"));
            }
            eprintln!("harness panic: {m}");
            std::process::exit(3);
        }
    }
}

extern "C" {
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}
pub fn process_cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe { clock_gettime(2, &mut t) };
    t[0] as f64 + t[1] as f64 / 1e9
}

const HANG_CPU_S: f64 = 60.0;
const STALL_WALL_S: u64 = 400;

fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed, hash_bytes(prop.as_bytes())), idx)
}

static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
/// bumped whenever a case starts
static STARTED: AtomicU64 = AtomicU64::new(0);

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = (u64::MAX, process_cpu(), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let s = STARTED.load(Ordering::SeqCst);
            if s != last.0 {
                last = (s, process_cpu(), Instant::now());
                continue;
            }
            if process_cpu() - last.1 > HANG_CPU_S {
                std::process::exit(7);
            }
            if last.2.elapsed().as_secs() > STALL_WALL_S {
                std::process::exit(8);
            }
        }
    });
}

/// Worker: run the cases of one shard, print a JSON report.
pub fn worker(p: &'static Prop, thorough: bool, seed: u64, shard: u64, shards: u64, n: u64, start: u64, progress: &str, known: &[String]) {
    let prog = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(progress).unwrap();
    watchdog();
    let known = known.to_vec();
    let body = move || {
        let mut seen = HashSet::new();
        let mut evals = 0u64;
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        let mut counts: BTreeMap<String, u64> = BTreeMap::new();
        let mut samples = vec![];
        let mut failure = Value::Null;
        let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
        let mut idx = start;
        while idx < n {
            if idx % shards != shard {
                idx += 1;
                continue;
            }
            let _ = prog.write_at(&idx.to_le_bytes(), 0);
            CUR.store(idx, Ordering::SeqCst);
            STARTED.fetch_add(1, Ordering::SeqCst);
            let mut c = Case::new(G::random(case_seed(seed, p.id, idx)), thorough);
            let r = run_case(p, &mut c);
            evals += 1;
            for k in &c.classes {
                *classes.entry(k.clone()).or_default() += 1;
            }
            for (k, v) in &c.counts {
                *counts.entry(k.clone()).or_default() += v;
            }
            if c.nontrivial && seen.insert(c.key) && samples.len() < 3 {
                let s: String = c.sample.chars().take(1200).collect();
                samples.push(json!({"case": idx, "input": s}));
            }
            if let Err(f) = r {
                if known.iter().any(|k| *k == f.sig) {
                    *known_hits.entry(f.sig.clone()).or_default() += 1;
                } else {
                    failure = json!({"idx": idx, "sig": f.sig, "msg": f.msg, "choices": c.g.out, "sample": c.sample});
                    break;
                }
            }
            idx += 1;
        }
        STARTED.fetch_add(1, Ordering::SeqCst);
        let out = json!({"evals": evals, "seen": seen.into_iter().collect::<Vec<_>>(), "classes": classes, "counts": counts,
            "samples": samples, "failure": failure, "known": known_hits});
        let so = std::io::stdout();
        let mut so = so.lock();
        so.write_all(out.to_string().as_bytes()).unwrap();
        so.flush().unwrap();
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(body).unwrap().join().unwrap();
}

/// Development aid: run n cases and list every distinct failure with its smallest input.
pub fn survey(p: &'static Prop, seed: u64, n: u64) {
    let body = move || {
        let mut seen: BTreeMap<String, (u64, String, String)> = BTreeMap::new();
        let mut classes: BTreeMap<String, u64> = BTreeMap::new();
        for idx in 0..n {
            let mut c = Case::new(G::random(case_seed(seed, p.id, idx)), false);
            let r = run_case(p, &mut c);
            for k in &c.classes {
                *classes.entry(k.clone()).or_default() += 1;
            }
            if let Err(f) = r {
                let e = seen.entry(f.sig).or_insert((0, f.msg.clone(), c.sample.clone()));
                e.0 += 1;
                if c.sample.len() < e.2.len() {
                    e.1 = f.msg;
                    e.2 = c.sample;
                }
            }
        }
        println!("classes {classes:?}");
        for (k, (c, m, s)) in seen {
            let cut = |s: &str, n: usize| s.chars().take(n).collect::<String>();
            println!("== {c} {k}\n   {}\n   {}", cut(&m, 600), cut(&s, 500));
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(body).unwrap().join().unwrap();
}

pub struct Known {
    pub sig: String,
    pub what: String,
}

/// `known: property=<id> sig=<signature> <what>` lines of the findings file.
pub fn load_known(root: &Path, id: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let mut it = r.splitn(3, ' ');
            let pr = it.next().unwrap_or("");
            let sg = it.next().unwrap_or("");
            let what = it.next().unwrap_or("");
            if pr == format!("property={id}") {
                if let Some(s) = sg.strip_prefix("sig=") {
                    v.push(Known { sig: s.to_string(), what: what.to_string() });
                }
            }
        }
    }
    v
}

fn tmpdir() -> PathBuf {
    let d = std::env::temp_dir().join(format!("verif-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

pub fn check(p: &'static Prop, root: &Path, thorough: bool, seed: u64, n_override: Option<usize>) -> i32 {
    let t0 = Instant::now();
    let n = n_override.unwrap_or(if thorough { p.thorough } else { p.quick }) as u64;
    let known = load_known(root, p.id);
    let exe = std::env::current_exe().unwrap();
    let tmp = tmpdir();
    let mut violations: Vec<(u64, String, String, Vec<u64>, String)> = vec![];
    let mut known_lines: BTreeSet<String> = BTreeSet::new();

    // fixed reproductions of recorded findings
    for (sig, f) in p.known {
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(_) => {
                let (file, m) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                fail(format!("panic:{}", short_file(&file)), m)
            }
        };
        if let Err(e) = r {
            if let Some(k) = known.iter().find(|k| k.sig == e.sig) {
                known_lines.insert(format!("KNOWN-FINDING: property={} {} [{}]", p.id, k.what, k.sig));
            } else {
                violations.push((u64::MAX, e.sig, format!("reproduction of {sig}: {}", e.msg), vec![], String::new()));
            }
        }
    }

    let shards = std::env::var("VERIF_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(8u64).min(n.max(1));
    let mut handles = vec![];
    for s in 0..shards {
        let exe = exe.clone();
        let tmp = tmp.clone();
        let id = p.id;
        let hang_ok = p.hang_is_violation;
        let root = root.to_path_buf();
        handles.push(std::thread::spawn(move || -> Result<Vec<Value>, String> {
            let mut reports = vec![];
            loop {
                let prog = tmp.join(format!("p{s}"));
                let out = Command::new(&exe)
                    .args(["worker", id, if thorough { "thorough" } else { "quick" }])
                    .args([&seed.to_string(), &s.to_string(), &shards.to_string(), &n.to_string()])
                    .arg(&prog)
                    .arg(&root)
                    .stdin(Stdio::null())
                    .stderr(Stdio::null())
                    .output()
                    .map_err(|e| e.to_string())?;
                if out.status.success() {
                    let v: Value = serde_json::from_slice(&out.stdout).map_err(|e| format!("worker report: {e}"))?;
                    reports.push(v);
                    return Ok(reports);
                }
                let mut b = [0u8; 8];
                let idx = std::fs::File::open(&prog)
                    .and_then(|f| f.read_exact_at(&mut b, 0).map(|_| u64::from_le_bytes(b)))
                    .map_err(|e| format!("worker died before its first case: {:?} {e}", out.status))?;
                use std::os::unix::process::ExitStatusExt;
                let what = match (out.status.code(), out.status.signal()) {
                    (Some(7), _) if hang_ok => "hang".to_string(),
                    (_, Some(sig)) if sig == 11 || sig == 6 || sig == 4 || sig == 7 => format!("signal{sig}"),
                    (c, sg) => return Err(format!("worker failed on case {idx}: exit {c:?} signal {sg:?} {}", String::from_utf8_lossy(&out.stderr))),
                };
                reports.push(json!({"evals": 0, "failure": {"idx": idx, "sig": format!("crash:{what}"),
                    "msg": format!("the process was ended by {what} while running the case"), "choices": null, "sample": ""}}));
                
                return Ok(reports);
            }
        }));
    }
    let mut reports = vec![];
    let mut errors = vec![];
    for h in handles {
        match h.join().unwrap() {
            Ok(r) => reports.extend(r),
            Err(e) => errors.push(e),
        }
    }

    let mut evals = 0u64;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<Value> = vec![];
    for r in &reports {
        evals += r["evals"].as_u64().unwrap_or(0);
        for v in r["seen"].as_array().into_iter().flatten() {
            seen.insert(v.as_u64().unwrap());
        }
        for (src, dst) in [("classes", &mut classes), ("counts", &mut counts), ("known", &mut known_hits)] {
            for (k, v) in r[src].as_object().into_iter().flatten() {
                *dst.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0);
            }
        }
        for s in r["samples"].as_array().into_iter().flatten() {
            if samples.len() < 6 {
                samples.push(s.clone());
            }
        }
        let f = &r["failure"];
        if !f.is_null() {
            let ch: Vec<u64> = f["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
            violations.push((
                f["idx"].as_u64().unwrap(),
                f["sig"].as_str().unwrap().to_string(),
                f["msg"].as_str().unwrap().to_string(),
                ch,
                f["sample"].as_str().unwrap_or("").to_string(),
            ));
        }
    }
    for (sig, _) in &known_hits {
        if let Some(k) = known.iter().find(|k| k.sig == *sig) {
            known_lines.insert(format!("KNOWN-FINDING: property={} {} [{}]", p.id, k.what, k.sig));
        }
    }
    for l in &known_lines {
        println!("{l}");
    }

    violations.sort_by_key(|v| v.0);
    let mut code = 0;
    if let Some((idx, sig, msg, choices, sample)) = violations.first().cloned() {
        code = 1;
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-seed{}-case{}.json", p.id, seed, idx));
        let mut rec = json!({"property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "index": idx,
            "signature": sig, "message": msg, "choices": choices, "input": sample});
        std::fs::write(&path, rec.to_string()).unwrap();
        if !choices.is_empty() {
            // shrink in a child so that a crash or hang cannot take the verdict with it
            let child = Command::new(&exe).arg("shrink").arg(&path).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn();
            if let Ok(mut ch) = child {
                let t = Instant::now();
                loop {
                    match ch.try_wait() {
                        Ok(Some(_)) | Err(_) => break,
                        Ok(None) if t.elapsed().as_secs() > 120 => {
                            let _ = ch.kill();
                            let _ = ch.wait();
                            break;
                        }
                        _ => std::thread::sleep(Duration::from_millis(50)),
                    }
                }
            }
            if let Ok(v) = std::fs::read(&path).map_err(|_| ()).and_then(|b| serde_json::from_slice::<Value>(&b).map_err(|_| ())) {
                rec = v;
            }
        }
        println!("violated: {} ({})", rec["message"].as_str().unwrap_or(""), sig);
        if let Some(s) = rec["input"].as_str() {
            println!("minimal input: {}", s.chars().take(1500).collect::<String>());
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("error: {e}");
        }
        code = 2;
    }

    let nontrivial = seen.len();
    let ev = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": evals, "distinct_nontrivial": nontrivial, "rule": p.rule, "samples": samples,
            "classes": classes, "counts": counts, "known_finding_hits": known_hits, "worker_processes": shards},
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
        "violations": violations.len(),
    });
    let ed = root.join("evidence");
    let _ = std::fs::create_dir_all(&ed);
    std::fs::write(ed.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    let _ = std::fs::remove_dir_all(&tmp);
    println!("{}: {} cases, {} distinct non-trivial, {:.1}s, exit {}", p.id, evals, nontrivial, t0.elapsed().as_secs_f64(), code);
    code
}

fn run_choices(p: &Prop, thorough: bool, ch: &[u64]) -> (Out, Case) {
    let mut c = Case::new(G::replay(ch.to_vec()), thorough);
    STARTED.fetch_add(1, Ordering::SeqCst);
    let r = run_case(p, &mut c);
    (r, c)
}

pub fn shrink_file(props: &'static [Prop], path: &Path) {
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).unwrap();
    let thorough = v["tier"] == "thorough";
    let ch: Vec<u64> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let sig = v["signature"].as_str().unwrap().to_string();
    let path = path.to_path_buf();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            watchdog();
            let save = |c: &[u64]| {
                if let (Err(f), case) = run_choices(p, thorough, c) {
                    let mut o = v.clone();
                    o["message"] = json!(f.msg);
                    o["input"] = json!(case.sample);
                    o["choices"] = json!(c);
                    o["shrunk_from"] = json!(ch.len());
                    let tmp = path.with_extension("tmp");
                    std::fs::write(&tmp, o.to_string()).unwrap();
                    std::fs::rename(&tmp, &path).unwrap();
                }
            };
            let mut last = Instant::now();
            let (best, _) = shrink(ch.clone(), 4000, |cand| {
                let (r, _) = run_choices(p, thorough, cand);
                let ok = matches!(&r, Err(f) if f.sig == sig);
                if ok && last.elapsed().as_secs() >= 5 {
                    save(cand);
                    last = Instant::now();
                }
                ok
            });
            save(&best);
        })
        .unwrap()
        .join()
        .unwrap();
}

pub fn replay_file(props: &'static [Prop], path: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(path).unwrap()).unwrap();
    let p = props.iter().find(|p| p.id == v["property"].as_str().unwrap()).unwrap();
    let thorough = v["tier"] == "thorough";
    let ch: Vec<u64> = v["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default();
    let (seed, idx) = (v["seed"].as_u64().unwrap_or(1), v["index"].as_u64().unwrap_or(0));
    let id = p.id;
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let (r, c) = if ch.is_empty() {
                let mut c = Case::new(G::random(case_seed(seed, id, idx)), thorough);
                let r = run_case(p, &mut c);
                (r, c)
            } else {
                run_choices(p, thorough, &ch)
            };
            println!("input: {}", c.sample);
            match r {
                Ok(()) => {
                    println!("held");
                    0
                }
                Err(f) => {
                    println!("violated [{}]: {}", f.sig, f.msg);
                    1
                }
            }
        })
        .unwrap()
        .join()
        .unwrap()
}
