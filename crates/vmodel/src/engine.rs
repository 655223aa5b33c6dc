//! Generated-case engine: fixed-work, deterministic from VERIF_SEED, 8 worker
//! processes, crash attribution, shrinking, replay files, evidence.

use crate::src_::{hash_str, mix, Src};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Seek, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Fail{ sig: ($sig).to_string(), msg: format!($($a)*) }); } }
}

#[derive(Default)]
pub struct St {
    pub evals: u64,
    pub classes: BTreeMap<String, u64>,
    pub excluded: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub verbose: bool,
    pub detail: Vec<String>,
    pub thorough: bool,
    pub index: u64,
}
impl St {
    pub fn class(&mut self, k: &str) {
        if let Some(v) = self.classes.get_mut(k) {
            *v += 1;
        } else {
            self.classes.insert(k.to_string(), 1);
        }
    }
    pub fn exclude(&mut self, k: &str) {
        *self.excluded.entry(k.to_string()).or_default() += 1;
    }
    /// count this case (identified by its content hash) as non-trivial
    pub fn nontrivial(&mut self, h: u64) {
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let mut s = f();
            if s.len() > 1500 {
                let mut n = 1500;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            self.detail.push(f());
        }
    }
}

pub type CaseFn = Box<dyn Fn(&mut Src, &mut St) -> R + Sync + Send>;
pub type ProbeFn = Box<dyn Fn(&mut St) -> R + Sync + Send>;
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: String,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    /// deterministic regression inputs, run by every run before the search
    pub probes: Vec<(String, ProbeFn)>,
    pub assumptions: Vec<String>,
}
impl Prop {
    pub fn new(id: &'static str, quick: u64, thorough: u64, rule: &str, case: impl Fn(&mut Src, &mut St) -> R + Sync + Send + 'static) -> Prop {
        Prop { id, level: "exploration", rule: rule.to_string(), quick, thorough, case: Box::new(case), probes: vec![], assumptions: vec![] }
    }
    pub fn probe(mut self, name: &str, f: impl Fn(&mut St) -> R + Sync + Send + 'static) -> Prop {
        self.probes.push((name.to_string(), Box::new(f)));
        self
    }
    pub fn assume(mut self, s: &str) -> Prop {
        self.assumptions.push(s.to_string());
        self
    }
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
fn norm_loc(f: &str) -> String {
    // drop machine specific prefixes
    for p in ["/repo/", "/verif/.build/"] {
        if let Some(i) = f.find(p) {
            return f[i + p.len()..].to_string();
        }
    }
    f.to_string()
}
fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        eprintln!("panicked at {}:{}: {}", loc.0, loc.1, msg);
        if std::env::var("VERIF_BT").is_ok() {
            eprintln!("{}:{}: {}\n{}", loc.0, loc.1, msg, std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = Some((format!("{}:{}", loc.0, loc.1), msg));
            }
        });
    }));
}
/// Runs `f`, turning a panic into a Fail. Panics inside the harness itself are
/// harness errors (exit 2), never violations.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            // an oracle that sits deep inside a callback
            if let Some(m) = msg.strip_prefix("VIOLATED ") { return Err(Fail { sig: m.split(':').next().unwrap_or("").to_string(), msg: m.to_string() }); }
            if loc.starts_with("src/") || loc.contains("/verif/crates/") || loc.starts_with("vmodel/") || loc.contains("crates/vmodel") || loc.starts_with("../vmodel") {
                return Err(Fail { sig: format!("HARNESS:{loc}"), msg: format!("harness panicked at {loc}: {msg}") });
            }
            let file = norm_loc(loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc));
            let short: String = msg.chars().take(60).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
            Err(Fail { sig: format!("panic:{file}:{short}"), msg: format!("panicked at {loc}: {msg}") })
        }
    }
}
fn run_case(p: &Prop, src: &mut Src, st: &mut St) -> R {
    match guarded(|| (p.case)(src, st)) {
        Ok(r) => r,
        Err(f) => Err(f),
    }
}
fn run_probe(f: &ProbeFn, st: &mut St) -> R {
    match guarded(|| f(st)) {
        Ok(r) => r,
        Err(f) => Err(f),
    }
}

pub fn case_seed(seed: u64, id: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_str(id)) ^ idx.wrapping_mul(0xA24B_AED4_963E_E407))
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}
pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}
/// known_findings.txt: lines "KNOWN property=<id> sig=<sig> :: <what fails>"
pub fn load_known() -> Vec<Known> {
    let mut out = vec![];
    let s = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    for l in s.lines() {
        let Some(r) = l.strip_prefix("KNOWN property=") else { continue };
        let Some((id, r)) = r.split_once(" sig=") else { continue };
        let Some((sig, text)) = r.split_once(" :: ") else { continue };
        out.push(Known { property: id.trim().into(), sig: sig.trim().into(), text: text.trim().into() });
    }
    out
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

pub fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().unwrap()
}

pub fn main(props: Vec<Prop>) {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).cloned().unwrap_or_default();
    let props: &'static [Prop] = Box::leak(props.into_boxed_slice());
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("no property {id}"));
    let code = match cmd.as_str() {
        "run" => supervise(find(&args[2]), arg(&args, "--part")),
        "worker" => {
            let p = find(&args[2]);
            let a = args.clone();
            big_stack(move || worker(p, &a))
        }
        "one" => {
            let p = find(&args[2]);
            let a = args.clone();
            big_stack(move || one(p, &a))
        }
        "replay" => {
            let j: J = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let p = find(j["property"].as_str().unwrap());
            big_stack(move || replay(p, &j))
        }
        _ => {
            eprintln!("usage: run|worker|one|replay");
            2
        }
    };
    std::process::exit(code);
}

fn choices_of(j: &J) -> Vec<u64> {
    j["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()).unwrap_or_default()
}

fn replay(p: &Prop, j: &J) -> i32 {
    install_hook();
    let mut st = St { verbose: true, thorough: j["tier"] == "thorough", ..Default::default() };
    let r = if let Some(name) = j["probe"].as_str() {
        let f = &p.probes.iter().find(|x| x.0 == name).expect("probe").1;
        run_probe(f, &mut st)
    } else {
        run_case(p, &mut Src::replay(choices_of(j)), &mut st)
    };
    for d in &st.detail {
        println!("{d}");
    }
    match r {
        Ok(()) => {
            println!("replay: property {} holds on this input", p.id);
            0
        }
        Err(f) => {
            println!("replay: property {} FAILS\n[{}]\n{}", p.id, f.sig, f.msg);
            1
        }
    }
}

/// used for crash confirmation and crash shrinking: exit 0 = ok, 3 = ordinary failure
fn one(p: &Prop, args: &[String]) -> i32 {
    install_hook();
    let mut st = St { thorough: env_thorough(), ..Default::default() };
    let mut src = if let Some(f) = arg(args, "--choices") {
        let j: J = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
        Src::replay(choices_of(&j))
    } else {
        let idx: u64 = arg(args, "--idx").unwrap().parse().unwrap();
        st.index = idx;
        Src::new(case_seed(env_seed(), p.id, idx))
    };
    // the choices made so far must survive a crash of this process
    let r = run_case(p, &mut src, &mut st);
    match r {
        Ok(()) => 0,
        Err(f) => {
            eprintln!("{}: {}", f.sig, f.msg);
            3
        }
    }
}

fn redirect_stderr(path: &Path) -> (std::fs::File, std::fs::File) {
    let f = std::fs::OpenOptions::new().create(true).append(true).read(true).open(path).unwrap();
    unsafe {
        let saved = libc::dup(2);
        libc::dup2(f.as_raw_fd(), 2);
        (std::fs::File::from_raw_fd(saved), f)
    }
}

fn known_sigs(p: &Prop) -> HashSet<String> {
    load_known().into_iter().filter(|k| k.property == p.id).map(|k| k.sig).collect()
}

fn worker(p: &Prop, args: &[String]) -> i32 {
    install_hook();
    let k: u64 = arg(args, "--k").unwrap().parse().unwrap();
    let of: u64 = arg(args, "--of").unwrap().parse().unwrap();
    let total: u64 = arg(args, "--total").unwrap().parse().unwrap();
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    let seed = env_seed();
    let (_saved, errf) = redirect_stderr(&dir.join(format!("err-{k}")));
    let mut status = std::fs::File::create(dir.join(format!("status-{k}"))).unwrap();
    let known = known_sigs(p);
    let mut st = St { thorough: env_thorough(), ..Default::default() };
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut set_status = |s: String| {
        status.seek(std::io::SeekFrom::Start(0)).unwrap();
        status.write_all(format!("{s:<40}").as_bytes()).unwrap();
    };
    let mut rc = 0;
    // probes first
    for (i, (name, f)) in p.probes.iter().enumerate() {
        if i as u64 % of != k {
            continue;
        }
        set_status(format!("probe {i}"));
        st.index = i as u64;
        st.evals += 1;
        if let Err(fl) = run_probe(f, &mut st) {
            if known.contains(&fl.sig) {
                *known_hits.entry(fl.sig).or_default() += 1;
                continue;
            }
            let j = json!({"property": p.id, "probe": name, "sig": fl.sig, "msg": fl.msg, "seed": seed, "choices": [], "tier": if st.thorough {"thorough"} else {"quick"}});
            std::fs::write(dir.join(format!("fail-{k}")), j.to_string()).unwrap();
            return 3;
        }
    }
    let mut idx = k;
    while idx < total {
        set_status(format!("case {idx}"));
        if errf.metadata().map(|m| m.len()).unwrap_or(0) > 1 << 20 {
            errf.set_len(0).unwrap();
        }
        let mut src = Src::new(case_seed(seed, p.id, idx));
        st.index = idx;
        st.evals += 1;
        if let Err(fl) = run_case(p, &mut src, &mut st) {
            if known.contains(&fl.sig) {
                *known_hits.entry(fl.sig).or_default() += 1;
            } else {
                let log = src.log.clone();
                let sig = fl.sig.clone();
                set_status(format!("shrink {idx}"));
                let mut best = (log.clone(), fl.clone());
                if !sig.starts_with("HARNESS") {
                    let deadline = Instant::now() + Duration::from_secs(20);
                    let mut last: Option<Fail> = None;
                    let small = shrink(log, deadline, |c| {
                        let mut s = Src::replay(c.to_vec());
                        let mut st2 = St { thorough: st.thorough, ..Default::default() };
                        match run_case(p, &mut s, &mut st2) {
                            Err(f2) if f2.sig == sig => {
                                last = Some(f2);
                                true
                            }
                            _ => false,
                        }
                    });
                    if let Some(l) = last {
                        best = (small, l);
                    }
                }
                // final verbose run
                let mut st3 = St { verbose: true, thorough: st.thorough, ..Default::default() };
                let mut s = Src::replay(best.0.clone());
                let fl = run_case(p, &mut s, &mut st3).err().unwrap_or(best.1);
                let j = json!({"property": p.id, "index": idx, "sig": fl.sig, "msg": fl.msg, "detail": st3.detail, "seed": seed, "choices": best.0, "tier": if st.thorough {"thorough"} else {"quick"}});
                std::fs::write(dir.join(format!("fail-{k}")), j.to_string()).unwrap();
                rc = 3;
                break;
            }
        }
        idx += of;
    }
    set_status("done".into());
    let j = json!({"evals": st.evals, "classes": st.classes, "excluded": st.excluded, "samples": st.samples, "known_hits": known_hits});
    std::fs::write(dir.join(format!("stats-{k}")), j.to_string()).unwrap();
    let mut b = Vec::with_capacity(st.distinct.len() * 8);
    for h in &st.distinct {
        b.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join(format!("hash-{k}")), b).unwrap();
    rc
}

pub fn shrink(mut cur: Vec<u64>, deadline: Instant, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut evals = 0u32;
    let mut ok = |c: &[u64], evals: &mut u32| -> bool {
        *evals += 1;
        *evals < 20000 && Instant::now() < deadline && fails(c)
    };
    let spent = |evals: u32| evals >= 20000 || Instant::now() >= deadline;
    loop {
        let before = cur.clone();
        // truncate
        let mut n = cur.len() / 2;
        while n > 0 {
            if cur.len() > n {
                let c = cur[..cur.len() - n].to_vec();
                if ok(&c, &mut evals) {
                    cur = c;
                    continue;
                }
            }
            n /= 2;
        }
        // delete chunks
        let mut size = (cur.len() / 2).clamp(1, 256);
        loop {
            let mut i = 0;
            while i + size <= cur.len() && !spent(evals) {
                let mut c = cur.clone();
                c.drain(i..i + size);
                if ok(&c, &mut evals) {
                    cur = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero chunks
        let mut size = (cur.len() / 2).clamp(1, 64);
        loop {
            let mut i = 0;
            while i + size <= cur.len() && !spent(evals) {
                if cur[i..i + size].iter().any(|x| *x != 0) {
                    let mut c = cur.clone();
                    c[i..i + size].iter_mut().for_each(|x| *x = 0);
                    if ok(&c, &mut evals) {
                        cur = c;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // minimise values
        for i in 0..cur.len() {
            let (mut lo, mut hi) = (0u64, cur[i]);
            while lo < hi && !spent(evals) {
                let mid = lo + (hi - lo) / 2;
                let mut c = cur.clone();
                c[i] = mid;
                if ok(&c, &mut evals) {
                    hi = mid;
                    cur = c;
                } else {
                    lo = mid + 1;
                }
            }
        }
        while cur.last() == Some(&0) {
            cur.pop();
        }
        if cur == before || Instant::now() >= deadline || evals >= 20000 {
            return cur;
        }
    }
}

fn tail(path: &Path) -> String {
    let mut s = String::new();
    if let Ok(mut f) = std::fs::File::open(path) {
        let len = f.metadata().map(|m| m.len()).unwrap_or(0);
        let _ = f.seek(std::io::SeekFrom::Start(len.saturating_sub(3000)));
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        s = String::from_utf8_lossy(&b).into_owned();
    }
    s
}

#[derive(Clone, PartialEq, Debug)]
enum Exit {
    Ok,
    Fail,
    /// an abnormal end that shows a defect of the code under test
    Crash(String),
    /// anything else: an error of the check
    Error(String),
}
fn classify(status: std::process::ExitStatus, err: &str) -> Exit {
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(0), _) => Exit::Ok,
        (Some(3), _) => Exit::Fail,
        (Some(77), _) => Exit::Crash("sanitizer report".into()),
        (_, Some(s)) => {
            let what = if err.contains("unsafe precondition") {
                "unsafe precondition violated"
            } else if err.contains("has overflowed its stack") {
                "stack overflow"
            } else if err.contains("memory allocation of") {
                return Exit::Error("memory allocation failed".into());
            } else if s == libc::SIGSEGV || s == libc::SIGBUS {
                "invalid memory access"
            } else if s == libc::SIGABRT {
                "abort"
            } else if s == libc::SIGILL || s == libc::SIGTRAP || s == libc::SIGFPE {
                "illegal instruction"
            } else {
                return Exit::Error(format!("ended by signal {s}"));
            };
            Exit::Crash(format!("{what} (signal {s})"))
        }
        (c, _) => Exit::Error(format!("exit code {c:?}")),
    }
}

fn supervise(p: &'static Prop, part: Option<String>) -> i32 {
    let t0 = Instant::now();
    let thorough = env_thorough();
    let seed = env_seed();
    let tier = if thorough { "thorough" } else { "quick" };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((if thorough { p.thorough } else { p.quick }) as f64 * scale) as u64;
    let of: u64 = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let vd = verif_dir();
    let partname = part.clone().unwrap_or_default();
    let dir = vd.join(".build").join("run").join(format!("{}{}", p.id, partname));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(vd.join("replays")).unwrap();
    std::fs::create_dir_all(vd.join("evidence")).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids: Vec<(u64, Option<std::process::Child>)> = (0..of)
        .map(|k| {
            let c = Command::new(&exe)
                .args(["worker", p.id, "--k", &k.to_string(), "--of", &of.to_string(), "--total", &total.to_string(), "--dir", dir.to_str().unwrap()])
                .stdout(Stdio::null())
                .stdin(Stdio::null())
                .spawn()
                .unwrap();
            (k, Some(c))
        })
        .collect();
    let mut bad: Option<(u64, Exit)> = None;
    let mut last: Vec<(String, Instant)> = (0..of).map(|_| (String::new(), Instant::now())).collect();
    let hang = Duration::from_secs(240);
    let mut errors = vec![];
    while kids.iter().any(|k| k.1.is_some()) {
        std::thread::sleep(Duration::from_millis(20));
        for (k, c) in kids.iter_mut() {
            let Some(ch) = c else { continue };
            if let Some(st) = ch.try_wait().unwrap() {
                *c = None;
                let err = tail(&dir.join(format!("err-{k}")));
                let e = classify(st, &err);
                match e {
                    Exit::Ok => {}
                    Exit::Error(m) => errors.push(format!("worker {k}: {m}\n{}", err)),
                    e => {
                        if bad.is_none() {
                            bad = Some((*k, e));
                        }
                    }
                }
                continue;
            }
            let s = std::fs::read_to_string(dir.join(format!("status-{k}"))).unwrap_or_default();
            let l = &mut last[*k as usize];
            if l.0 != s {
                *l = (s, Instant::now());
            } else if l.1.elapsed() > hang {
                let _ = ch.kill();
                let _ = ch.wait();
                *c = None;
                errors.push(format!("worker {k}: no progress for {} s on {}", hang.as_secs(), l.0.trim()));
            }
        }
        if bad.is_some() || !errors.is_empty() {
            for (_, c) in kids.iter_mut() {
                if let Some(ch) = c {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    *c = None;
                }
            }
        }
    }
    // gather
    let mut evals = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut excluded: BTreeMap<String, u64> = BTreeMap::new();
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    for k in 0..of {
        if let Ok(s) = std::fs::read_to_string(dir.join(format!("stats-{k}"))) {
            let j: J = serde_json::from_str(&s).unwrap();
            evals += j["evals"].as_u64().unwrap();
            for (m, n) in [(&mut classes, "classes"), (&mut excluded, "excluded"), (&mut known_hits, "known_hits")] {
                for (a, b) in j[n].as_object().unwrap() {
                    *m.entry(a.clone()).or_default() += b.as_u64().unwrap();
                }
            }
            for s in j["samples"].as_array().unwrap() {
                samples.push(s.as_str().unwrap().to_string());
            }
        }
        if let Ok(b) = std::fs::read(dir.join(format!("hash-{k}"))) {
            for c in b.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    samples.sort_by_key(|s| s.len());
    if samples.len() > 8 {
        let n = samples.len();
        samples = (0..8).map(|i| samples[i * (n - 1) / 7].clone()).collect();
    }
    let mut rc = 0;
    let mut violations = 0;
    if let Some((k, e)) = &bad {
        let mut j: J = match e {
            Exit::Fail => serde_json::from_str(&std::fs::read_to_string(dir.join(format!("fail-{k}"))).unwrap_or("{}".into())).unwrap_or(json!({})),
            Exit::Crash(m) => {
                let status = std::fs::read_to_string(dir.join(format!("status-{k}"))).unwrap_or_default();
                let err = tail(&dir.join(format!("err-{k}")));
                crash_report(p, &exe, &dir, seed, tier, status.trim(), m, &err)
            }
            _ => json!({}),
        };
        let sig = j["sig"].as_str().unwrap_or("").to_string();
        let known = known_sigs(p);
        if sig.starts_with("HARNESS") || sig.is_empty() {
            errors.push(format!("harness failure: {}", j));
        } else if known.contains(&sig) {
            errors.push(format!("known finding {sig} crashed the search; exclude it by construction"));
        } else {
            let path = vd.join("replays").join(format!("{}{}-{:016x}.json", p.id, partname, mix(hash_str(&j["choices"].to_string()) ^ hash_str(&sig))));
            j["part"] = json!(partname);
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
            println!("{}: violated [{}]\n{}", p.id, sig, j["msg"].as_str().unwrap_or(""));
            if let Some(d) = j["detail"].as_array() {
                for d in d.iter().take(12) {
                    let d = d.as_str().unwrap_or("");
                    println!("  {}", &d[..d.char_indices().nth(1500).map(|x| x.0).unwrap_or(d.len())]);
                }
            }
            println!("VIOLATION property={} replay={}", p.id, path.display());
            violations = 1;
            rc = 1;
        }
    }
    if rc == 0 && !errors.is_empty() {
        for e in &errors {
            println!("ERROR {}: {}", p.id, e);
        }
        rc = 2;
    }
    if rc == 0 {
        for k in load_known().iter().filter(|k| k.property == p.id) {
            if partname.is_empty() {
                println!("KNOWN-FINDING: property={} {}", k.property, k.text);
            }
        }
    }
    // evidence
    let ev_path = vd.join("evidence").join(format!("{}.json", p.id));
    let mut nd = distinct.len() as u64;
    let mut wall = t0.elapsed().as_secs_f64();
    let mut assumptions: Vec<String> = p.assumptions.clone();
    let mut rule = p.rule.clone();
    if part.is_some() {
        if let Ok(o) = std::fs::read_to_string(&ev_path) {
            let o: J = serde_json::from_str(&o).unwrap_or(json!({}));
            let c = &o["coverage"];
            evals += c["evaluations"].as_u64().unwrap_or(0);
            nd += c["distinct_nontrivial"].as_u64().unwrap_or(0);
            if let Some(r) = c["rule"].as_str() {
                if r != rule {
                    rule = format!("{r} || {partname}: {rule}");
                }
            }
            let mut cl: BTreeMap<String, u64> = BTreeMap::new();
            for (a, b) in &classes {
                cl.insert(format!("{partname}/{a}"), *b);
            }
            if let Some(m) = c["classes"].as_object() {
                for (a, b) in m {
                    *cl.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                }
            }
            classes = cl;
            if let Some(m) = c["excluded"].as_object() {
                for (a, b) in m {
                    *excluded.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
                }
            }
            if let Some(a) = c["samples"].as_array() {
                let mut s2: Vec<String> = a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
                s2.extend(samples.into_iter().take(4));
                samples = s2;
            }
            if let Some(a) = o["assumptions"].as_array() {
                for x in a {
                    if let Some(x) = x.as_str() {
                        if !assumptions.iter().any(|y| y == x) {
                            assumptions.push(x.to_string());
                        }
                    }
                }
            }
            wall += o["wall_s"].as_f64().unwrap_or(0.0);
            violations += o["violations"].as_u64().unwrap_or(0);
        }
    }
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": p.level,
        "coverage": {"evaluations": evals, "distinct_nontrivial": nd, "rule": rule, "samples": samples, "classes": classes, "excluded": excluded, "known_finding_hits": known_hits, "regression_inputs": p.probes.len()},
        "assumptions": assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    std::fs::write(&ev_path, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{}{} {tier} seed={seed}: {} cases, {} distinct non-trivial, {:.1} s -> {}", p.id, partname, evals, nd, t0.elapsed().as_secs_f64(), if rc == 0 { "holds" } else if rc == 1 { "VIOLATED" } else { "ERROR" });
    if rc == 0 {
        let _ = std::fs::remove_dir_all(&dir);
    }
    rc
}

fn crash_report(p: &Prop, exe: &Path, dir: &Path, seed: u64, tier: &str, status: &str, what: &str, err: &str) -> J {
    let errline = |e: &str| e.lines().rev().find(|l| l.contains("panicked") || l.contains("overflow") || l.contains("precondition")).unwrap_or("").to_string();
    let mut parts = status.split_whitespace();
    let kind = parts.next().unwrap_or("").to_string();
    let num: u64 = parts.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    if kind == "probe" {
        let name = p.probes[num as usize].0.clone();
        return json!({"property": p.id, "probe": name, "sig": format!("crash:probe:{name}"), "msg": format!("{what}\n{}", errline(err)), "choices": [], "seed": seed, "tier": tier, "detail": [err]});
    }
    // record the choices of the crashing case by running it with a write-through log
    let run = |extra: &[&str], log: Option<&Path>| -> (Exit, String) {
        let ef = dir.join("crash-err");
        let mut c = Command::new(exe);
        c.arg("one").arg(p.id).args(extra).stdout(Stdio::null()).stderr(std::fs::File::create(&ef).unwrap());
        if let Some(l) = log {
            c.env("VERIF_CHOICE_LOG", l);
        }
        let mut ch = c.spawn().unwrap();
        let t = Instant::now();
        let st = loop {
            if let Some(s) = ch.try_wait().unwrap() {
                break s;
            }
            if t.elapsed() > Duration::from_secs(60) {
                let _ = ch.kill();
                break ch.wait().unwrap();
            }
            std::thread::sleep(Duration::from_millis(2));
        };
        let e = tail(&ef);
        (classify(st, &e), e)
    };
    let (e, errtext) = run(&["--idx", &num.to_string()], None);
    let (what, errtext) = match e {
        Exit::Crash(w) => (w, errtext),
        other => {
            return json!({"property": p.id, "sig": "HARNESS:crash did not reproduce", "msg": format!("{what}; in isolation: {other:?}\n{err}"), "choices": []});
        }
    };
    // obtain choices: the case's generator part is deterministic; we replay with prefixes of a long random log
    let mut rng = Src::new(case_seed(seed, p.id, num));
    let log = crate::engine::record_log(p, &mut rng, exe, dir, num);
    let mut best = log.clone();
    if !log.is_empty() {
        let deadline = Instant::now() + Duration::from_secs(40);
        let want = what.clone();
        let cf = dir.join("crash-choices");
        best = shrink(log, deadline, |c| {
            std::fs::write(&cf, json!({"choices": c}).to_string()).unwrap();
            matches!(run(&["--choices", cf.to_str().unwrap()], None).0, Exit::Crash(w) if w == want)
        });
    }
    let line = errline(&errtext);
    json!({"property": p.id, "index": num, "sig": format!("crash:{what}"), "msg": format!("{what}\n{line}"), "choices": best, "seed": seed, "tier": tier, "detail": [errtext]})
}

/// The crashing process writes its choices through to a file (VERIF_CHOICE_LOG).
fn record_log(p: &Prop, _src: &mut Src, exe: &Path, dir: &Path, idx: u64) -> Vec<u64> {
    let f = dir.join("choice-log");
    let _ = std::fs::remove_file(&f);
    let _ = Command::new(exe)
        .args(["one", p.id, "--idx", &idx.to_string()])
        .env("VERIF_CHOICE_LOG", &f)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status();
    std::fs::read(&f).map(|b| b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()).unwrap_or_default()
}
