use crate::draw::D;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
impl Fail {
    pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Self { sig: sig.into(), msg: msg.into() }
    }
}
pub type R = Result<(), Fail>;

/// What one generated case reports about itself.
#[derive(Default)]
pub struct Case {
    pub index: u64,
    pub thorough: bool,
    nontrivial: bool,
    labels: BTreeMap<String, u64>,
    sample: String,
    hash: u64,
    replaying: bool,
}
impl Case {
    /// Count the case under a label.
    pub fn note(&mut self, l: impl Into<String>) {
        *self.labels.entry(l.into()).or_default() += 1;
    }
    pub fn note_if(&mut self, c: bool, l: &str) {
        if c {
            self.note(l);
        }
    }
    /// Mark the case as non-trivial (by the facet's stated rule).
    pub fn nontrivial(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Record the generated input: identifies the case and may be shown as a sample.
    pub fn input(&mut self, s: &str) {
        self.hash = fnv(self.hash, s.as_bytes());
        if self.sample.len() < 900 {
            let room = 900 - self.sample.len();
            if !self.sample.is_empty() {
                self.sample.push_str(" | ");
            }
            self.sample.extend(s.chars().take(room));
        }
    }
    pub fn input_bytes(&mut self, b: &[u8]) {
        self.hash = fnv(self.hash, b);
        let s = crate::show_bytes(b);
        let h = self.hash;
        self.input(&s);
        self.hash = h;
    }
    /// True in replay mode: checks may print details.
    #[must_use]
    pub const fn verbose(&self) -> bool {
        self.replaying
    }
}

fn fnv(h: u64, b: &[u8]) -> u64 {
    let mut h = if h == 0 { 0xcbf2_9ce4_8422_2325 } else { h };
    for x in b {
        h ^= u64::from(*x);
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    h ^= b.len() as u64;
    h.wrapping_mul(0x0000_0100_0000_01b3)
}

/// One executable check with its own generator.
pub struct Facet {
    pub name: &'static str,
    pub check: fn(&mut D, &mut Case) -> R,
    pub quick: u64,
    pub thorough: u64,
    /// Seconds a single case may take (they normally take milliseconds).
    pub hang_s: u64,
    pub workers: u64,
}
impl Facet {
    pub const fn new(name: &'static str, quick: u64, thorough: u64, check: fn(&mut D, &mut Case) -> R) -> Self {
        Self { name, check, quick, thorough, hang_s: 60, workers: 8 }
    }
    pub const fn hang(mut self, secs: u64) -> Self {
        self.hang_s = secs;
        self
    }
    pub const fn workers(mut self, n: u64) -> Self {
        self.workers = n;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub facets: Vec<Facet>,
    /// Known findings are re-run on every check: (signature, description, probe).
    pub probes: Vec<(&'static str, fn() -> R)>,
    pub assumptions: &'static [&'static str],
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evals: u64,
    hashes: Vec<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    fail: Option<FailRec>,
    known: BTreeMap<String, u64>,
    done: bool,
}
#[derive(Serialize, Deserialize, Clone)]
struct FailRec {
    index: u64,
    choices: Vec<u64>,
    fail: Fail,
    sample: String,
    shrunk: bool,
}
#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    facet: String,
    index: u64,
    tier: String,
    choices: Option<Vec<u64>>,
    seed: u64,
    sig: String,
    msg: String,
    sample: String,
}

#[derive(Deserialize)]
struct Known {
    property: String,
    sig: String,
    what: String,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn root() -> PathBuf {
    std::env::var("VP_ROOT").map_or_else(|_| PathBuf::from("/verif"), PathBuf::from)
}

fn known_for(id: &str) -> Vec<Known> {
    let p = root().join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: serde_json::Value = serde_json::from_str(&s).expect("known-findings.json is valid JSON");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter_map(|x| serde_json::from_value::<Known>(x.clone()).ok())
                .filter(|k| k.property == id)
                .collect()
        })
        .unwrap_or_default()
}

fn case_seed(seed: u64, id: &str, facet: &str, index: u64) -> u64 {
    fnv(fnv(fnv(seed ^ 0x5eed, id.as_bytes()), facet.as_bytes()), &index.to_le_bytes())
}


/// Run one case; a panic of the code under test is a failure of the case.
fn run_case(f: &Facet, d: &mut D, c: &mut Case) -> R {
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (f.check)(d, c)));
    match r {
        Ok(r) => r,
        Err(_) => {
            let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic in another thread".into());
            Err(Fail::new(panic_sig(&m), format!("panic: {m}")))
        }
    }
}

/// `file: first words of the message`, without line numbers, so it survives unrelated edits.
fn panic_sig(m: &str) -> String {
    let digits: String = m.chars().map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
    let mut out = String::from("panic:");
    let mut last = ' ';
    for c in digits.chars().take(140) {
        if c == '#' && last == '#' {
            continue;
        }
        last = c;
        out.push(c);
    }
    out
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or_else(String::new, |l| {
            let f = l.file();
            let f = f.rsplit_once("/repo/").map_or(f, |x| x.1);
            format!("{}:{}", f, l.line())
        });
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(format!("{loc}: {msg}"));
            }
        });
    }));
}

/// Lower the choices of a failing case while it fails with the same signature.
fn shrink(f: &Facet, rec: &FailRec, thorough: bool, budget: Duration) -> FailRec {
    let start = Instant::now();
    let mut best = rec.clone();
    let mut attempts = 0u32;
    let try_it = |cand: Vec<u64>, best: &mut FailRec, attempts: &mut u32| -> bool {
        *attempts += 1;
        let mut d = D::replaying(cand);
        let mut c = Case { index: rec.index, thorough, ..Case::default() };
        match run_case(f, &mut d, &mut c) {
            Err(e) if e.sig == best.fail.sig => {
                let ch = d.choices().to_vec();
                let better = ch.len() < best.choices.len() || (ch.len() == best.choices.len() && ch < best.choices);
                if better {
                    best.choices = ch;
                    best.fail = e;
                    best.sample = c.sample;
                    best.shrunk = true;
                }
                better
            }
            _ => false,
        }
    };
    let over = |a: u32| a > 6000 || start.elapsed() > budget;
    loop {
        let before = best.choices.clone();
        // delete blocks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.choices.len().saturating_sub(size);
            loop {
                if over(attempts) {
                    return best;
                }
                if i + size <= best.choices.len() {
                    let mut c = best.choices.clone();
                    c.drain(i..i + size);
                    if !try_it(c, &mut best, &mut attempts) && i > 0 {
                        // also lower an earlier length together with the deletion
                        let mut c = best.choices.clone();
                        if c[i - 1] > 0 && i + size <= c.len() {
                            c.drain(i..i + size);
                            c[i - 1] -= 1;
                            try_it(c, &mut best, &mut attempts);
                        }
                    }
                }
                if i == 0 {
                    break;
                }
                i = i.saturating_sub(size.max(1));
            }
        }
        // zero, then lower single choices
        let mut i = 0;
        while i < best.choices.len() {
            if over(attempts) {
                return best;
            }
            if best.choices[i] != 0 {
                let mut c = best.choices.clone();
                c[i] = 0;
                if !try_it(c, &mut best, &mut attempts) {
                    let (mut lo, mut hi) = (0u64, best.choices.get(i).copied().unwrap_or(0));
                    while lo + 1 < hi && !over(attempts) {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.choices.clone();
                        if i >= c.len() {
                            break;
                        }
                        c[i] = mid;
                        if try_it(c, &mut best, &mut attempts) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best.choices == before {
            return best;
        }
    }
}

fn on_big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(96 << 20).spawn(f).expect("thread").join().expect("worker thread")
}

#[allow(clippy::too_many_arguments)]
fn worker(p: &Property, f: &Facet, w: u64, stride: u64, count: u64, thorough: bool, seed: u64, out: &Path) {
    install_hook();
    let known: HashSet<String> = known_for(p.id).into_iter().map(|k| k.sig).collect();
    let mut o = WorkerOut::default();
    let mut seen = HashSet::new();
    let prog = std::fs::File::create(out.with_extension("prog")).expect("progress file");
    use std::os::unix::fs::FileExt;
    let save = |o: &WorkerOut| {
        std::fs::write(out, serde_json::to_vec(o).expect("json")).expect("write result");
    };
    let mut i = w;
    while i < count {
        prog.write_all_at(&i.to_le_bytes(), 0).expect("progress");
        let mut d = D::random(case_seed(seed, p.id, f.name, i));
        let mut c = Case { index: i, thorough, ..Case::default() };
        let r = run_case(f, &mut d, &mut c);
        o.evals += 1;
        for (k, v) in &c.labels {
            *o.labels.entry(k.clone()).or_default() += v;
        }
        if c.nontrivial && seen.insert(c.hash) {
            o.hashes.push(c.hash);
            if o.samples.len() < 3 && i % 3 == w % 3 && !c.sample.is_empty() {
                o.samples.push(c.sample.clone());
            }
        }
        if let Err(e) = r {
            if known.contains(&e.sig) {
                *o.known.entry(e.sig).or_default() += 1;
            } else {
                let rec = FailRec { index: i, choices: d.choices().to_vec(), fail: e, sample: c.sample, shrunk: false };
                o.fail = Some(rec.clone());
                save(&o);
                // shrinking re-runs mutated cases; the unshrunk failure is already on disk
                let s = shrink(f, &rec, thorough, Duration::from_secs(40));
                o.fail = Some(s);
                break;
            }
        }
        i += stride;
    }
    o.done = true;
    save(&o);
}

struct ChildEnd {
    status: std::process::ExitStatus,
    hung_at: Option<u64>,
    /// Ended because another worker had already found a violation.
    stopped: bool,
}

fn signal_of(s: std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    s.signal()
}

fn spawn_self(args: &[String], log: &Path, scratch: &Path) -> std::process::Child {
    use std::os::unix::process::CommandExt;
    let exe = std::env::current_exe().expect("exe");
    let lf = std::fs::File::create(log).expect("log");
    std::fs::create_dir_all(scratch).expect("scratch");
    let mut c = Command::new(exe);
    c.args(args)
        .stdin(Stdio::null())
        .stdout(lf.try_clone().expect("log"))
        .stderr(lf)
        .env("TMPDIR", scratch)
        .env("VP_SCRATCH", scratch)
        .env("RUST_BACKTRACE", "0")
        .current_dir(scratch);
    unsafe {
        c.pre_exec(|| {
            let lim = libc::rlimit { rlim_cur: 10 << 30, rlim_max: 10 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::setpgid(0, 0);
            Ok(())
        });
    }
    c.spawn().expect("spawn worker")
}

fn wait_watch(ch: &mut std::process::Child, prog: &Path, hang_s: u64, stop: &AtomicBool) -> ChildEnd {
    let mut last: Option<u64> = None;
    let mut since = Instant::now();
    loop {
        if let Some(status) = ch.try_wait().expect("wait") {
            return ChildEnd { status, hung_at: None, stopped: false };
        }
        if stop.load(Ordering::Relaxed) {
            unsafe {
                libc::kill(-(ch.id() as i32), libc::SIGKILL);
            }
            let status = ch.wait().expect("wait");
            return ChildEnd { status, hung_at: None, stopped: true };
        }
        let cur = std::fs::read(prog).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
        if cur != last {
            last = cur;
            since = Instant::now();
        } else if since.elapsed() > Duration::from_secs(hang_s + if last.is_none() { 60 } else { 0 }) {
            unsafe {
                libc::kill(-(ch.id() as i32), libc::SIGKILL);
            }
            let status = ch.wait().expect("wait");
            return ChildEnd { status, hung_at: Some(last.unwrap_or(0)), stopped: false };
        }
        std::thread::sleep(Duration::from_millis(15));
    }
}

fn log_tail(p: &Path) -> String {
    let b = std::fs::read(p).unwrap_or_default();
    let s = String::from_utf8_lossy(&b).to_string();
    let t: Vec<&str> = s.lines().rev().take(6).collect();
    t.into_iter().rev().collect::<Vec<_>>().join(" / ").chars().take(600).collect()
}

enum Bad {
    Violation(Replay),
    Error(String),
}

struct FacetResult {
    evals: u64,
    hashes: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
    bad: Option<Bad>,
}

fn run_facet(p: &Property, f: &Facet, thorough: bool, seed: u64, scratch: &Path) -> FacetResult {
    let count = if thorough { f.thorough } else { f.quick };
    let tier = if thorough { "thorough" } else { "quick" };
    let n = f.workers.min(count.max(1));
    let mut res = FacetResult { evals: 0, hashes: HashSet::new(), labels: BTreeMap::new(), samples: vec![], known: BTreeMap::new(), bad: None };
    let stop = Arc::new(AtomicBool::new(false));
    let (tx, rx) = std::sync::mpsc::channel();
    for w in 0..n {
        let out = scratch.join(format!("{}-{w}.json", f.name));
        let log = scratch.join(format!("{}-{w}.log", f.name));
        let wd = scratch.join(format!("{}-{w}.d", f.name));
        let args: Vec<String> = ["--worker", p.id, f.name, &w.to_string(), &n.to_string(), &count.to_string(), tier, &seed.to_string(), out.to_str().unwrap()]
            .iter()
            .map(|s| (*s).to_string())
            .collect();
        let hang = f.hang_s;
        let (tx, stop) = (tx.clone(), Arc::clone(&stop));
        std::thread::spawn(move || {
            let mut ch = spawn_self(&args, &log, &wd);
            let end = wait_watch(&mut ch, &out.with_extension("prog"), hang, &stop);
            let _ = std::fs::remove_dir_all(&wd);
            tx.send((out, log, end)).expect("watcher");
        });
    }
    drop(tx);
    for (out, log, end) in rx {
        if matches!(res.bad, Some(Bad::Violation(_))) {
            // one violation settles it: the other workers need not finish
            stop.store(true, Ordering::Relaxed);
        }
        let o: Option<WorkerOut> = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let ok = end.hung_at.is_none() && end.status.success();
        if let Some(o) = o {
            res.evals += o.evals;
            res.hashes.extend(o.hashes);
            for (k, v) in o.labels {
                *res.labels.entry(k).or_default() += v;
            }
            for (k, v) in o.known {
                *res.known.entry(k).or_default() += v;
            }
            res.samples.extend(o.samples);
            if let Some(fr) = o.fail {
                if !matches!(res.bad, Some(Bad::Violation(_))) {
                    res.bad = Some(Bad::Violation(Replay {
                        property: p.id.into(),
                        facet: f.name.into(),
                        index: fr.index,
                        tier: tier.into(),
                        choices: Some(fr.choices),
                        seed,
                        sig: fr.fail.sig,
                        msg: fr.fail.msg,
                        sample: fr.sample,
                    }));
                }
                stop.store(true, Ordering::Relaxed);
                continue;
            }
            if ok && o.done {
                continue;
            }
        }
        if end.stopped || matches!(res.bad, Some(Bad::Violation(_))) {
            continue;
        }
        // the worker died or hung: find the case and confirm it alone
        let idx = end.hung_at.or_else(|| {
            std::fs::read(out.with_extension("prog")).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()))
        });
        let Some(idx) = idx else {
            res.bad.get_or_insert(Bad::Error(format!("facet {} worker died before its first case: {:?} {}", f.name, end.status, log_tail(&log))));
            continue;
        };
        let (sig, detail) = confirm(p, f, idx, tier, seed, scratch);
        match sig {
            Some(sig) => {
                let replay = Replay {
                    property: p.id.into(),
                    facet: f.name.into(),
                    index: idx,
                    tier: tier.into(),
                    choices: None,
                    seed,
                    sig: sig.clone(),
                    msg: detail.clone(),
                    sample: String::new(),
                };
                res.bad = Some(Bad::Violation(replay));
                stop.store(true, Ordering::Relaxed);
            }
            None => {
                res.bad.get_or_insert(Bad::Error(format!(
                    "facet {} worker ended ({:?}, hung: {}) at case {idx}, but the case alone passes: {}",
                    f.name,
                    end.status,
                    end.hung_at.is_some(),
                    log_tail(&log)
                )));
            }
        }
    }
    res
}

/// Re-run one case alone in a fresh process. Returns the signature if it still dies or hangs.
fn confirm(p: &Property, f: &Facet, idx: u64, tier: &str, seed: u64, scratch: &Path) -> (Option<String>, String) {
    let out = scratch.join("confirm.json");
    let log = scratch.join("confirm.log");
    let _ = std::fs::remove_file(&out);
    let args: Vec<String> = ["--one", p.id, f.name, &idx.to_string(), tier, &seed.to_string(), out.to_str().unwrap()].iter().map(|s| (*s).to_string()).collect();
    let mut ch = spawn_self(&args, &log, &scratch.join("confirm.d"));
    let end = wait_watch(&mut ch, &out.with_extension("prog"), f.hang_s, &AtomicBool::new(false));
    let _ = std::fs::remove_dir_all(scratch.join("confirm.d"));
    if end.hung_at.is_some() {
        return (Some("hang".into()), format!("the case does not finish within {} s (cases normally take milliseconds)", f.hang_s));
    }
    if let Some(s) = signal_of(end.status) {
        if s == libc::SIGKILL {
            return (None, "killed".into());
        }
        return (Some(format!("crash:signal{s}")), format!("the process dies with signal {s}: {}", log_tail(&log)));
    }
    match end.status.code() {
        Some(0) => (None, String::new()),
        Some(1) => {
            let f: Option<Fail> = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
            f.map_or((None, String::new()), |f| (Some(f.sig), f.msg))
        }
        c => (Some(format!("exit:{c:?}")), format!("the process under test ended itself with {c:?}: {}", log_tail(&log))),
    }
}

fn run_single(p: &Property, f: &Facet, choices: Option<Vec<u64>>, idx: u64, thorough: bool, seed: u64) -> (R, String) {
    install_hook();
    let mut d = choices.map_or_else(|| D::random(case_seed(seed, p.id, f.name, idx)), D::replaying);
    let mut c = Case { index: idx, thorough, replaying: true, ..Case::default() };
    let r = run_case(f, &mut d, &mut c);
    (r, c.sample)
}

/// Entry point of a check binary.
pub fn main_with(props: fn() -> Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = if args.first().is_some_and(|a| a.starts_with("--")) && matches!(args[0].as_str(), "--worker" | "--one" | "--probe" | "--replay") {
        let a = args;
        on_big_stack(move || sub(&props(), &a))
    } else {
        check(&props(), &args)
    };
    std::io::stdout().flush().ok();
    std::process::exit(code);
}

fn find<'a>(ps: &'a [Property], id: &str) -> &'a Property {
    ps.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}
fn facet<'a>(p: &'a Property, name: &str) -> &'a Facet {
    p.facets.iter().find(|f| f.name == name).unwrap_or_else(|| {
        eprintln!("unknown facet {name}");
        std::process::exit(2)
    })
}

fn sub(ps: &[Property], a: &[String]) -> i32 {
    match a[0].as_str() {
        "--worker" => {
            let p = find(ps, &a[1]);
            let f = facet(p, &a[2]);
            let n = |i: usize| a[i].parse::<u64>().expect("number");
            worker(p, f, n(3), n(4), n(5), a[6] == "thorough", n(7), Path::new(&a[8]));
            0
        }
        "--one" => {
            let p = find(ps, &a[1]);
            let f = facet(p, &a[2]);
            let idx = a[3].parse::<u64>().expect("index");
            let (r, _) = run_single(p, f, None, idx, a[4] == "thorough", a[5].parse().expect("seed"));
            match r {
                Ok(()) => 0,
                Err(e) => {
                    std::fs::write(&a[6], serde_json::to_vec(&e).expect("json")).ok();
                    1
                }
            }
        }
        "--probe" => {
            install_hook();
            let p = find(ps, &a[1]);
            let pr = p.probes.iter().find(|x| x.0 == a[2]).expect("probe");
            let r = std::panic::catch_unwind(|| (pr.1)());
            let r = match r {
                Ok(r) => r,
                Err(_) => {
                    let m = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
                    Err(Fail::new(panic_sig(&m), m))
                }
            };
            match r {
                Ok(()) => 0,
                Err(e) => {
                    std::fs::write(&a[3], serde_json::to_vec(&e).expect("json")).ok();
                    1
                }
            }
        }
        "--replay" => {
            let r: Replay = serde_json::from_slice(&std::fs::read(&a[1]).expect("replay file")).expect("replay file is valid");
            let p = find(ps, &r.property);
            let f = facet(p, &r.facet);
            println!("replaying {} / {} (expected: {})", r.property, r.facet, r.sig);
            let scratch = std::env::temp_dir().join(format!("vp-replay-{}", std::process::id()));
            std::fs::create_dir_all(&scratch).expect("scratch");
            std::env::set_var("VP_SCRATCH", &scratch);
            let (res, sample) = run_single(p, f, r.choices, r.index, r.tier == "thorough", r.seed);
            let _ = std::fs::remove_dir_all(&scratch);
            println!("input: {sample}");
            match res {
                Ok(()) => {
                    println!("the property holds on this case");
                    0
                }
                Err(e) => {
                    println!("{}\n{}", e.sig, e.msg);
                    println!("VIOLATION property={} replay={}", r.property, a[1]);
                    1
                }
            }
        }
        _ => 2,
    }
}

fn check(ps: &[Property], args: &[String]) -> i32 {
    let t0 = Instant::now();
    let Some(id) = args.first() else {
        for p in ps {
            println!("{} {}", p.id, p.facets.iter().map(|f| f.name).collect::<Vec<_>>().join(" "));
        }
        return 2;
    };
    let p = find(ps, id);
    let tier = args.get(1).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let only = args.get(2).cloned();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let scratch = std::env::temp_dir().join(format!("vp-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let mut evals = 0;
    let mut labels: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut per: BTreeMap<String, serde_json::Value> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut distinct = 0u64;
    let mut violations: Vec<Replay> = Vec::new();
    let mut errors = Vec::new();
    let known = known_for(p.id);
    let mut found_known: BTreeMap<String, u64> = BTreeMap::new();
    for (sig, _) in &p.probes {
        let out = scratch.join("probe.json");
        let _ = std::fs::remove_file(&out);
        let mut ch = spawn_self(&["--probe".into(), p.id.into(), (*sig).into(), out.to_str().unwrap().into()], &scratch.join("probe.log"), &scratch.join("probe.d"));
        let end = wait_watch(&mut ch, &scratch.join("probe.prog"), 60, &AtomicBool::new(false));
        let got = if end.hung_at.is_some() {
            Some(Fail::new("hang", "does not finish"))
        } else if let Some(s) = signal_of(end.status) {
            Some(Fail::new(format!("crash:signal{s}"), log_tail(&scratch.join("probe.log"))))
        } else if end.status.success() {
            None
        } else {
            Some(std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_else(|| Fail::new("exit", "probe died")))
        };
        if let Some(e) = got {
            let listed = known.iter().any(|k| k.sig == *sig) && (e.sig == *sig || e.sig.starts_with("crash:") || e.sig == "hang");
            if listed {
                *found_known.entry((*sig).to_string()).or_default() += 1;
            } else {
                violations.push(Replay { property: p.id.into(), facet: format!("probe:{sig}"), index: 0, tier: tier.clone(), choices: None, seed, sig: e.sig, msg: e.msg, sample: String::new() });
            }
        }
    }
    for f in &p.facets {
        if only.as_ref().is_some_and(|o| o != f.name) {
            continue;
        }
        let ft = Instant::now();
        let r = run_facet(p, f, thorough, seed, &scratch);
        evals += r.evals;
        distinct += r.hashes.len() as u64;
        for (k, v) in &r.known {
            *found_known.entry(k.clone()).or_default() += v;
        }
        per.insert(
            f.name.into(),
            serde_json::json!({"evaluations": r.evals, "distinct_nontrivial": r.hashes.len(), "wall_s": (ft.elapsed().as_secs_f64()*10.0).round()/10.0}),
        );
        println!("  {}/{}: {} cases, {} distinct non-trivial, {:.1} s", p.id, f.name, r.evals, r.hashes.len(), ft.elapsed().as_secs_f64());
        if !r.labels.is_empty() {
            labels.insert(f.name.into(), r.labels);
        }
        for s in r.samples.iter().take(2) {
            samples.push(serde_json::json!({"facet": f.name, "case": s}));
        }
        match r.bad {
            Some(Bad::Violation(v)) => {
                violations.push(v);
            }
            Some(Bad::Error(e)) => errors.push(e),
            None => {
                if r.hashes.is_empty() {
                    errors.push(format!("facet {} generated no non-trivial case", f.name));
                }
            }
        }
        if !violations.is_empty() {
            break;
        }
    }
    if args.iter().any(|a| a == "--labels") || std::env::var("VP_LABELS").is_ok() {
        println!("{}", serde_json::to_string_pretty(&labels).unwrap());
    }
    let ev = serde_json::json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": distinct,
            "rule": p.rule,
            "samples": samples,
            "facets": per,
            "classification": labels,
            "known_findings_hit": found_known,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let evdir = root().join("evidence");
    std::fs::create_dir_all(&evdir).expect("evidence dir");
    std::fs::write(evdir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).expect("json")).expect("write evidence");
    let _ = std::fs::remove_dir_all(&scratch);
    for k in &known {
        if found_known.contains_key(&k.sig) {
            println!("KNOWN-FINDING: property={} {}", p.id, k.what);
        }
    }
    let rdir = root().join("replays");
    for v in &violations {
        std::fs::create_dir_all(&rdir).expect("replay dir");
        let h = fnv(fnv(1, v.sig.as_bytes()), format!("{:?}{}", v.choices, v.index).as_bytes());
        let path = rdir.join(format!("{}-{}-{h:016x}.json", v.property, v.facet.replace([':', '/', ' '], "_")));
        std::fs::write(&path, serde_json::to_string_pretty(v).expect("json")).expect("replay file");
        println!("{} / {}: {}", v.property, v.facet, v.sig);
        println!("  {}", v.msg.chars().take(3000).collect::<String>());
        println!("  input: {}", v.sample);
        println!("VIOLATION property={} replay={}", v.property, path.display());
    }
    for e in &errors {
        println!("ERROR {e}");
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        3
    } else {
        println!("{}: held on {} cases ({} distinct non-trivial), {:.1} s", p.id, evals, distinct, t0.elapsed().as_secs_f64());
        0
    }
}
