//! Drives a property: cases drawn by proptest, spread over threads of a worker process, shrunk on
//! failure; a supervisor that survives crashes of the worker and writes the evidence.
use crate::layout::Res;
use crate::tape::Gen;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde_json::{Value, json};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::hash::Hasher;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    pub tape: (usize, usize),
    /// How often a replay repeats the case (schedules differ between repetitions).
    pub repeat: u32,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// CPU time of one case that counts as endless, when the property bounds it.
    pub cpu_limit: Option<u64>,
    /// Further cases, in percent of the others, run by a build with AddressSanitizer.
    pub asan: u64,
    pub case: fn(&Env, &mut Gen, &mut St) -> Res,
}

static SANITIZED: AtomicBool = AtomicBool::new(false);
/// The program that runs the cases: this one, or its build with AddressSanitizer.
fn runner() -> Command {
    let own = std::env::current_exe().expect("own path");
    let exe = if SANITIZED.load(SeqCst) { crate::root().join("target/asan/x86_64-unknown-linux-gnu/release/harness") } else { own };
    let mut c = Command::new(exe);
    c.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:symbolize=0");
    c
}

/// What a case may use.
pub struct Env {
    pub dir: PathBuf,
    pub thorough: bool,
    pub index: u64,
    pools: RefCell<HashMap<usize, &'static rayon::ThreadPool>>,
    slot: usize,
}
impl Env {
    pub fn new(dir: PathBuf, thorough: bool, slot: usize) -> Env {
        std::fs::create_dir_all(&dir).expect("scratch directory");
        SLOT.with(|s| s.set(slot));
        Env { dir, thorough, index: 0, pools: Default::default(), slot }
    }
    pub fn pool(&self, n: usize) -> &'static rayon::ThreadPool {
        let slot = self.slot;
        self.pools.borrow_mut().entry(n).or_insert_with(|| {
            Box::leak(Box::new(
                rayon::ThreadPoolBuilder::new().num_threads(n).start_handler(move |_| SLOT.with(|s| s.set(slot))).build().expect("thread pool"),
            ))
        })
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
}

/// What a case reports about itself.
#[derive(Default)]
pub struct St {
    pub nontrivial: bool,
    digest: Option<u64>,
    pub classes: Vec<String>,
    pub sums: Vec<(&'static str, u64)>,
    pub sample: String,
    pub known: Vec<String>,
}
impl St {
    pub fn class(&mut self, c: impl Into<String>) {
        self.classes.push(c.into());
    }
    pub fn sum(&mut self, k: &'static str, n: usize) {
        self.sums.push((k, n as u64));
    }
    /// Adds to the identity of the case.
    pub fn digest(&mut self, b: &[u8]) {
        let mut h = twox_hash::XxHash64::with_seed(self.digest.unwrap_or(1));
        h.write(b);
        self.digest = Some(h.finish());
    }
    pub fn say(&mut self, s: impl AsRef<str>) {
        if self.sample.len() < 700 {
            if !self.sample.is_empty() {
                self.sample.push_str("; ");
            }
            self.sample.push_str(s.as_ref());
        }
    }
}

thread_local! {
    pub static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CASE_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
/// Panic seen on behalf of each slot: message and whether it carries the signature of a known finding.
pub static PANICS: [Mutex<Option<(String, bool)>>; 64] = [const { Mutex::new(None) }; 64];

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let known = msg.contains("capacity overflow") && crate::listed("F10") && crate::alloc::bincode_asked();
        let slot = SLOT.with(|s| s.get());
        if slot < 64 {
            let mut p = PANICS[slot].lock().unwrap_or_else(|p| p.into_inner());
            if p.is_none() {
                *p = Some((format!("{msg} at {at}"), known));
            }
        } else if std::env::var_os("HARNESS_LOUD").is_some() {
            eprintln!("panic: {msg} at {at}");
        }
    }));
}
/// Takes the panic recorded for the current slot.
pub fn take_panic() -> Option<(String, bool)> {
    let slot = SLOT.with(|s| s.get());
    PANICS[slot.min(63)].lock().unwrap_or_else(|p| p.into_inner()).take()
}

/// Memory shared with the supervisor: what each thread is running.
struct Shared {
    p: *mut u64,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
const SLOT_WORDS: usize = 1024;
impl Shared {
    fn open(path: &Path) -> Shared {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("shared file");
        f.set_len((64 * SLOT_WORDS * 8) as u64).expect("shared file");
        use std::os::fd::AsRawFd;
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 64 * SLOT_WORDS * 8, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Shared { p: p as *mut u64 }
    }
    fn w(&self, slot: usize, i: usize, v: u64) {
        unsafe { self.p.add(slot * SLOT_WORDS + i).write_volatile(v) }
    }
    fn r(&self, slot: usize, i: usize) -> u64 {
        unsafe { self.p.add(slot * SLOT_WORDS + i).read_volatile() }
    }
    // words: 0 case index + 1 (0 = idle), 1 progress, 2 tape length, 3.. tape
    fn begin(&self, slot: usize, index: u64, tape: &[u64]) {
        for (i, w) in tape.iter().take(SLOT_WORDS - 4).enumerate() {
            self.w(slot, 3 + i, *w);
        }
        self.w(slot, 2, tape.len().min(SLOT_WORDS - 4) as u64);
        self.w(slot, 1, self.r(slot, 1) + 1);
        self.w(slot, 0, index + 1);
    }
    fn end(&self, slot: usize) {
        self.w(slot, 0, 0);
    }
    fn tape(&self, slot: usize) -> Vec<u64> {
        (0..self.r(slot, 2) as usize).map(|i| self.r(slot, 3 + i)).collect()
    }
}

#[derive(Default)]
struct Agg {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    sums: BTreeMap<String, u64>,
    samples: Vec<String>,
    known: BTreeMap<String, u64>,
}
impl Agg {
    fn add(&mut self, st: St, index: u64) {
        self.evaluations += 1;
        if st.nontrivial {
            self.nontrivial.insert(st.digest.unwrap_or(index));
            if self.samples.len() < 4 || (index % 977 == 5 && self.samples.len() < 8) {
                self.samples.push(format!("case {index}: {}", st.sample));
            }
        }
        for c in st.classes {
            *self.classes.entry(c).or_default() += 1;
        }
        for (k, n) in st.sums {
            *self.sums.entry(k.into()).or_default() += n;
        }
        for k in st.known {
            *self.known.entry(k).or_default() += 1;
        }
    }
    fn json(&self) -> Value {
        json!({"evaluations": self.evaluations, "nontrivial": self.nontrivial.iter().collect::<Vec<_>>(), "classes": self.classes,
            "sums": self.sums, "samples": self.samples, "known": self.known})
    }
    fn merge(&mut self, v: &Value) {
        self.evaluations += v["evaluations"].as_u64().unwrap_or(0);
        for x in v["nontrivial"].as_array().into_iter().flatten() {
            self.nontrivial.insert(x.as_u64().unwrap_or(0));
        }
        for (k, into) in [("classes", &mut self.classes), ("sums", &mut self.sums), ("known", &mut self.known)] {
            for (a, b) in v[k].as_object().into_iter().flatten() {
                *into.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0);
            }
        }
        for s in v["samples"].as_array().into_iter().flatten() {
            if self.samples.len() < 8 {
                self.samples.push(s.as_str().unwrap_or("").into());
            }
        }
    }
}

fn runner_for(seed: u64, prop: &str, index: u64) -> TestRunner {
    let mut h = twox_hash::XxHash64::with_seed(seed);
    h.write(prop.as_bytes());
    h.write_u64(index);
    let a = h.finish();
    let mut bytes = [0u8; 32];
    for (i, c) in bytes.chunks_mut(8).enumerate() {
        let mut h = twox_hash::XxHash64::with_seed(a.wrapping_add(i as u64));
        h.write_u64(index);
        c.copy_from_slice(&h.finish().to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes))
}

/// Runs a case; panics become failures.
fn run_case(p: &Prop, env: &Env, tape: &[u64], st: &mut St) -> Res {
    take_panic();
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(env, &mut Gen::new(tape), st)));
    match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", take_panic().map(|p| p.0).unwrap_or_default())),
    }
}

static AGG: Mutex<Option<Agg>> = Mutex::new(None);
static WORKER_OUT: Mutex<Option<PathBuf>> = Mutex::new(None);
static NEXT: AtomicU64 = AtomicU64::new(0);

fn worker_dump(violation: Value, known_slot: Option<usize>) {
    let agg = AGG.lock().unwrap_or_else(|p| p.into_inner()).take().unwrap_or_default();
    let out = WORKER_OUT.lock().unwrap_or_else(|p| p.into_inner()).take();
    if let Some(out) = out {
        let mut v = agg.json();
        v["violation"] = violation;
        v["next"] = json!(NEXT.load(SeqCst));
        v["known_slot"] = json!(known_slot);
        std::fs::write(out, v.to_string()).expect("worker result");
    }
}
/// Ends the worker because of a known finding that kills the process.
pub fn die_known() -> ! {
    static ONE: Mutex<()> = Mutex::new(());
    let _one = ONE.lock();
    let slot = SLOT.with(|s| s.get());
    if WORKER_OUT.lock().unwrap_or_else(|p| p.into_inner()).is_some() {
        worker_dump(Value::Null, Some(slot));
    }
    unsafe { libc::_exit(77) }
}

pub fn worker(p: &'static Prop, dir: &Path, seed: u64, thorough: bool) {
    let start: Value = serde_json::from_slice(&std::fs::read(dir.join("start.json")).expect("start.json")).expect("start.json");
    let total = start["total"].as_u64().unwrap();
    NEXT.store(start["next"].as_u64().unwrap(), SeqCst);
    let pending: VecDeque<u64> = start["pending"].as_array().into_iter().flatten().map(|x| x.as_u64().unwrap()).collect();
    let deadline = Instant::now() + Duration::from_secs_f64(start["seconds"].as_f64().unwrap());
    let pending = Mutex::new(pending);
    *AGG.lock().unwrap() = Some(Agg::default());
    *WORKER_OUT.lock().unwrap() = Some(dir.join("result.json"));
    let shared = Shared::open(&dir.join("slots"));
    for s in 0..64 {
        shared.end(s);
    }
    let stop = AtomicBool::new(false);
    let violation: Mutex<Option<(u64, Vec<u64>, String)>> = Mutex::new(None);
    std::thread::scope(|s| {
        for slot in 0..p.threads {
            let (shared, stop, violation, pending) = (&shared, &stop, &violation, &pending);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(s, move || {
                    let mut env = Env::new(dir.join(format!("t{slot}")), thorough, slot);
                    let slow = std::env::var("HARNESS_SLOW").ok().and_then(|s| s.parse::<u128>().ok());
                    loop {
                        if stop.load(SeqCst) || Instant::now() > deadline {
                            break;
                        }
                        let popped = pending.lock().unwrap_or_else(|p| p.into_inner()).pop_front();
                        let index = popped.unwrap_or_else(|| NEXT.fetch_add(1, SeqCst));
                        if index >= total {
                            break;
                        }
                        env.index = index;
                        let mut runner = runner_for(seed, p.id, index);
                        let strat = proptest::collection::vec(proptest::num::u64::ANY, p.tape.0..=p.tape.1);
                        let mut tree = strat.new_tree(&mut runner).expect("strategy");
                        let tape = tree.current();
                        shared.begin(slot, index, &tape);
                        let mut st = St::default();
                        let t0 = Instant::now();
                        let r = run_case(p, &env, &tape, &mut st);
                        if slow.is_some_and(|ms| t0.elapsed().as_millis() > ms) {
                            eprintln!("{} case {index}: {} ms: {}", p.id, t0.elapsed().as_millis(), st.sample);
                        }
                        if let Err(msg) = r {
                            if stop.swap(true, SeqCst) {
                                shared.end(slot);
                                break;
                            }
                            let (tape, msg) = shrink(p, &env, &mut tree, tape, msg, shared, slot, index);
                            *violation.lock().unwrap() = Some((index, tape, msg));
                            shared.end(slot);
                            break;
                        }
                        if let Some(a) = AGG.lock().unwrap_or_else(|p| p.into_inner()).as_mut() {
                            a.add(st, index);
                        }
                        shared.end(slot);
                    }
                })
                .expect("thread");
        }
    });
    let v = match violation.into_inner().unwrap() {
        None => Value::Null,
        Some((index, tape, msg)) => json!({"index": index, "tape": tape, "message": msg}),
    };
    worker_dump(v, None);
}

#[allow(clippy::too_many_arguments)]
fn shrink(p: &Prop, env: &Env, tree: &mut dyn ValueTree<Value = Vec<u64>>, tape: Vec<u64>, msg: String, shared: &Shared, slot: usize, index: u64) -> (Vec<u64>, String) {
    let t0 = Instant::now();
    let mut best = (tape, msg);
    let mut tries = 0;
    let tries_each = p.repeat.min(3);
    let fails = |t: &[u64]| -> Option<String> {
        shared.begin(slot, index, t);
        (0..tries_each).find_map(|_| run_case(p, env, t, &mut St::default()).err())
    };
    // Truncation first: past a final zero the tape reads as zeros.
    let mut zero = best.0.clone();
    if let Some(w) = zero.last_mut() {
        *w = 0;
    }
    if let Some(m) = fails(&zero) {
        best = (zero, m);
    }
    let mut n = best.0.len();
    while n > 0 && t0.elapsed() < Duration::from_secs(20) {
        let mut cut = best.0[..n / 2].to_vec();
        if let Some(w) = cut.last_mut() {
            *w = 0;
        }
        match fails(&cut) {
            Some(m) => {
                n = cut.len();
                best = (cut, m);
            }
            None => break,
        }
    }
    if n < tree.current().len() {
        // proptest's tree cannot be told about the truncation: continue word by word.
        for i in 0..best.0.len() {
            for w in [0, 1, best.0[i] & 0xff, best.0[i] & 0xffff] {
                if w < best.0[i] && t0.elapsed() < Duration::from_secs(40) {
                    let mut t = best.0.clone();
                    t[i] = w;
                    if let Some(m) = fails(&t) {
                        best = (t, m);
                        break;
                    }
                }
            }
        }
        return best;
    }
    let mut go = tree.simplify();
    while go && tries < 600 && t0.elapsed() < Duration::from_secs(40) {
        tries += 1;
        let t = tree.current();
        go = match fails(&t) {
            Some(m) => {
                best = (t, m);
                tree.simplify()
            }
            None => tree.complicate(),
        };
    }
    best
}

/// Runs one case alone: exit 0 it holds, exit 10 it fails (message on stdout), 77 known finding.
pub fn one(p: &Prop, tape: &[u64], index: u64, dir: &Path, thorough: bool, repeat: u32) -> i32 {
    let mut env = Env::new(dir.to_path_buf(), thorough, 0);
    env.index = index;
    for _ in 0..repeat {
        let mut st = St::default();
        if let Err(m) = run_case(p, &env, tape, &mut st) {
            println!("{m}");
            return 10;
        }
        if std::env::var_os("HARNESS_LOUD").is_some() {
            println!("holds: nontrivial={} {:?} {}", st.nontrivial, st.classes, st.sample);
        }
    }
    0
}

enum Outcome {
    Holds,
    Fails(String),
    Known,
    Unknown(String),
}

fn threads_of(pid: u32) -> Vec<(char, u64)> {
    let mut v = vec![];
    for d in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
        if let Ok(s) = std::fs::read_to_string(d.path().join("stat"))
            && let Some(p) = s.rfind(')')
        {
            let f: Vec<&str> = s[p + 2..].split(' ').collect();
            let ticks = f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0) + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            v.push((f[0].chars().next().unwrap_or('?'), ticks));
        }
    }
    v
}

/// Runs a case in its own process and says what became of it.
fn isolated(p: &Prop, tape: &[u64], index: u64, work: &Path, repeat: u32) -> Outcome {
    let dir = work.join("one");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join("tape.json");
    std::fs::write(&f, json!({"property": p.id, "tape": tape, "index": index}).to_string()).expect("tape file");
    let mut c = runner()
        .arg("one")
        .arg(&f)
        .arg(repeat.to_string())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let pid = c.id();
    let t0 = Instant::now();
    let mut idle_since: Option<(Instant, Vec<(char, u64)>)> = None;
    let status = loop {
        if let Some(s) = c.try_wait().expect("wait") {
            break s;
        }
        std::thread::sleep(Duration::from_millis(if t0.elapsed().as_secs() < 2 { 5 } else { 200 }));
        if t0.elapsed().as_secs() > 10 {
            let now = threads_of(pid);
            // Every thread asleep and none has run since: nothing will ever happen again.
            let asleep = !now.is_empty() && now.iter().all(|t| t.0 == 'S');
            match &idle_since {
                Some((since, was)) if asleep && *was == now => {
                    if since.elapsed().as_secs() >= 15 {
                        let _ = c.kill();
                        let _ = c.wait();
                        return Outcome::Fails("deadlock: the call never returns, every thread sleeps".into());
                    }
                }
                _ => idle_since = if asleep { Some((Instant::now(), now.clone())) } else { None },
            }
            let cpu = now.iter().map(|t| t.1).max().unwrap_or(0) / 100;
            if let Some(limit) = p.cpu_limit
                && cpu > limit
            {
                let _ = c.kill();
                let _ = c.wait();
                return Outcome::Fails(format!("endless: one thread has used {cpu} s of processor time on a case that needs milliseconds"));
            }
        }
        if t0.elapsed().as_secs() > 240 {
            let _ = c.kill();
            let _ = c.wait();
            return Outcome::Unknown("the case does not end".into());
        }
    };
    let mut out = String::new();
    use std::io::Read;
    let _ = c.stdout.take().unwrap().read_to_string(&mut out);
    use std::os::unix::process::ExitStatusExt;
    match (status.code(), status.signal()) {
        (Some(0), _) => Outcome::Holds,
        (Some(10), _) => Outcome::Fails(out.trim().to_string()),
        (Some(77), _) => Outcome::Known,
        (_, Some(s)) if [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGFPE, libc::SIGTRAP].contains(&s) => {
            let name = [(libc::SIGSEGV, "SIGSEGV"), (libc::SIGBUS, "SIGBUS"), (libc::SIGILL, "SIGILL"), (libc::SIGABRT, "SIGABRT"), (libc::SIGFPE, "SIGFPE"), (libc::SIGTRAP, "SIGTRAP")]
                .iter()
                .find(|x| x.0 == s)
                .unwrap()
                .1;
            Outcome::Fails(format!("the process is killed by {name} (memory fault, stack overflow or abort)"))
        }
        x => Outcome::Unknown(format!("the case ends with {x:?}")),
    }
}

pub struct Ctl {
    pub root: PathBuf,
    pub seed: u64,
    pub schema_seed: u64,
    pub thorough: bool,
}

fn write_replay(ctl: &Ctl, p: &Prop, tape: &[u64], index: u64, msg: &str) -> PathBuf {
    let dir = ctl.root.join("replays");
    std::fs::create_dir_all(&dir).expect("replays");
    let mut h = twox_hash::XxHash64::with_seed(7);
    for w in tape {
        h.write_u64(*w);
    }
    let path = dir.join(format!("{}-{:08x}.json", p.id, h.finish() as u32));
    let v = json!({"property": p.id, "tape": tape, "index": index, "sanitized": SANITIZED.load(SeqCst), "schema_seed": ctl.schema_seed, "seed": ctl.seed, "thorough": ctl.thorough, "message": msg});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    path
}

/// Runs a check. Returns the exit code.
pub fn supervise(p: &'static Prop, ctl: &Ctl) -> i32 {
    let t0 = Instant::now();
    let work = ctl.root.join("target").join("work").join(format!("{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&work).expect("work directory");
    let code = supervise_in(p, ctl, &work, t0);
    let _ = std::fs::remove_dir_all(&work);
    code
}

fn supervise_in(p: &'static Prop, ctl: &Ctl, work: &Path, t0: Instant) -> i32 {
    let listed: Vec<_> = crate::known().iter().filter(|k| k.property == p.id).collect();
    let scale = std::env::var("HARNESS_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
    let mut total = ((if ctl.thorough { p.thorough } else { p.quick }) as f64 * scale).ceil() as u64;
    let budget = if ctl.thorough { 3.0 * 3600.0 } else { 400.0 };
    let mut agg = Agg::default();
    let (mut next, mut pending): (u64, Vec<u64>) = (0, vec![]);
    let mut restarts = 0;
    let mut native = 0;
    let mut error = None;
    let mut found: Option<(Vec<u64>, u64, String)> = None;
    let slots = work.join("slots");
    loop {
        let left = budget * if p.asan > 0 && !SANITIZED.load(SeqCst) { 0.6 } else { 1.0 } - t0.elapsed().as_secs_f64();
        if left <= 0.0 {
            break;
        }
        let _ = std::fs::remove_file(work.join("result.json"));
        std::fs::write(work.join("start.json"), json!({"total": total, "next": next, "pending": pending, "seconds": left}).to_string()).unwrap();
        let mut c = runner()
            .arg("worker")
            .arg(p.id)
            .arg(work)
            .arg(ctl.seed.to_string())
            .arg(if ctl.thorough { "thorough" } else { "quick" })
            .stdout(Stdio::inherit())
            .spawn()
            .expect("spawn");
        let shared = Shared::open(&slots);
        let mut last = (Instant::now(), vec![0u64; 64]);
        let mut stuck = false;
        let status = loop {
            if let Some(s) = c.try_wait().expect("wait") {
                break s;
            }
            std::thread::sleep(Duration::from_millis(20));
            let now: Vec<u64> = (0..64).map(|s| shared.r(s, 1)).collect();
            if now != last.1 {
                last = (Instant::now(), now);
            } else if last.0.elapsed().as_secs() > if ctl.thorough { 400 } else { 100 } {
                stuck = true;
                let _ = c.kill();
                break c.wait().expect("wait");
            }
        };
        let in_flight: Vec<(usize, u64, Vec<u64>)> = (0..64).filter(|s| shared.r(*s, 0) > 0).map(|s| (s, shared.r(s, 0) - 1, shared.tape(s))).collect();
        let result: Option<Value> = std::fs::read(work.join("result.json")).ok().and_then(|b| serde_json::from_slice(&b).ok());
        if let Some(v) = &result {
            agg.merge(v);
            next = v["next"].as_u64().unwrap_or(next);
            if let Some(t) = v["violation"]["tape"].as_array() {
                let index = v["violation"]["index"].as_u64().unwrap_or(0);
                found = Some((t.iter().map(|x| x.as_u64().unwrap()).collect(), index, v["violation"]["message"].as_str().unwrap_or("").into()));
                break;
            }
            if status.code() == Some(77) {
                let slot = v["known_slot"].as_u64().unwrap_or(99) as usize;
                *agg.known.entry("F10".into()).or_default() += 1;
                agg.evaluations += 1;
                pending = in_flight.iter().filter(|x| x.0 != slot).map(|x| x.1).collect();
                restarts += 1;
                if restarts > 4000 {
                    error = Some("too many restarts".to_string());
                    break;
                }
                continue;
            }
            if status.success() && p.asan > 0 && !SANITIZED.load(SeqCst) {
                SANITIZED.store(true, SeqCst);
                native = agg.evaluations;
                next = total;
                total += (total * p.asan).div_ceil(100);
                pending.clear();
                continue;
            }
            if status.success() {
                break;
            }
        }
        // The worker died or hangs: find the case that does it.
        eprintln!("{}: worker ended with {status}{}; examining {} cases", p.id, if stuck { " (stuck)" } else { "" }, in_flight.len());
        for (_, index, tape) in &in_flight {
            match isolated(p, tape, *index, work, p.repeat) {
                Outcome::Fails(m) => {
                    let (t, m) = shrink_isolated(p, tape.clone(), *index, m, work);
                    found = Some((t, *index, m));
                    break;
                }
                Outcome::Unknown(m) => error = Some(m),
                Outcome::Known | Outcome::Holds => {}
            }
        }
        if found.is_none() && error.is_none() {
            error = Some(format!("worker ended with {status}, no case reproduces it"));
        }
        break;
    }
    let mut code = 0;
    if let Some((tape, index, msg)) = &found {
        let path = write_replay(ctl, p, tape, *index, msg);
        println!("{}: {msg}", p.id);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
    } else if let Some(e) = &error {
        eprintln!("{}: error: {e}", p.id);
        code = 2;
    } else if agg.evaluations < total.min(20) {
        eprintln!("{}: only {} of {total} cases ran", p.id, agg.evaluations);
        code = 2;
    }
    for k in &listed {
        println!("KNOWN-FINDING: property={} {} {} (met in {} of {} cases of this run)", p.id, k.id, k.text, agg.known.get(&k.id).unwrap_or(&0), agg.evaluations);
    }
    for k in agg.known.keys() {
        assert!(listed.iter().any(|l| l.id == *k), "harness: unlisted known finding {k}");
    }
    let mut coverage = json!({
        "evaluations": agg.evaluations,
        "distinct_nontrivial": agg.nontrivial.len(),
        "rule": p.rule,
        "samples": agg.samples,
        "planned_cases": total,
        "classes": agg.classes,
    });
    for (k, n) in &agg.sums {
        coverage[k] = json!(n);
    }
    if SANITIZED.load(SeqCst) {
        coverage["evaluations_with_address_sanitizer"] = json!(agg.evaluations - native);
    }
    if !agg.known.is_empty() {
        coverage["known_finding_cases"] = json!(agg.known);
    }
    let ev = json!({
        "property": p.id,
        "tier": if ctl.thorough { "thorough" } else { "quick" },
        "seed": ctl.seed,
        "level": p.level,
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.is_some() as u64,
    });
    let dir = ctl.root.join("evidence");
    std::fs::create_dir_all(&dir).expect("evidence");
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    if code == 0 {
        println!("{}: {} cases, {} distinct and non-trivial, {:.1} s", p.id, agg.evaluations, agg.nontrivial.len(), t0.elapsed().as_secs_f64());
    }
    code
}

fn shrink_isolated(p: &Prop, tape: Vec<u64>, index: u64, msg: String, work: &Path) -> (Vec<u64>, String) {
    let mut best = (tape, msg);
    let t0 = Instant::now();
    let quick = |m: &str| !m.starts_with("deadlock") && !m.starts_with("endless");
    if !quick(&best.1) {
        return best;
    }
    let mut n = best.0.len();
    while n > 0 && t0.elapsed().as_secs() < 20 {
        let mut cut = best.0[..n / 2].to_vec();
        if let Some(w) = cut.last_mut() {
            *w = 0;
        }
        match isolated(p, &cut, index, work, p.repeat) {
            Outcome::Fails(m) => {
                n = cut.len();
                best = (cut, m);
            }
            _ => break,
        }
    }
    for i in 0..best.0.len() {
        if t0.elapsed().as_secs() > 40 {
            break;
        }
        if best.0[i] != 0 {
            let mut t = best.0.clone();
            t[i] = 0;
            if let Outcome::Fails(m) = isolated(p, &t, index, work, p.repeat) {
                best = (t, m);
            }
        }
    }
    best
}

/// Replays a file. Exit 1 with the VIOLATION line when it still fails.
pub fn replay(p: &Prop, sanitized: bool, tape: &[u64], index: u64, file: &Path, root: &Path) -> i32 {
    SANITIZED.store(sanitized, SeqCst);
    let work = root.join("target").join("work").join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&work).expect("work directory");
    let r = isolated(p, tape, index, &work, p.repeat * if p.repeat > 1 { 20 } else { 1 });
    let _ = std::fs::remove_dir_all(&work);
    match r {
        Outcome::Holds => {
            println!("{}: the replayed case holds", p.id);
            0
        }
        Outcome::Known => {
            println!("KNOWN-FINDING: property={} F10 (the replayed case)", p.id);
            0
        }
        Outcome::Fails(m) => {
            println!("{}: {m}", p.id);
            println!("VIOLATION property={} replay={}", p.id, file.display());
            1
        }
        Outcome::Unknown(m) => {
            eprintln!("{}: {m}", p.id);
            2
        }
    }
}
