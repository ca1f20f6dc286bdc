//! Runs one property: generates cases with proptest, shrinks a failure, writes replay file and evidence.
//!
//! `run` is split in two processes: the worker generates and checks, and the parent takes over if the worker
//! crashes (abort, stack overflow) or blocks forever, which can not be handled within a process.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// What a check tells about its case
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<&'static str>,
    pub nontrivial: bool,
}
impl Ctx {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub type Res = Result<(), String>;

pub trait Prop: Send + Sync + 'static {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + 'static;
    const ID: &'static str;
    /// how cases are made, and what makes one non-trivial
    const RULE: &'static str;
    /// the statement says that the calls return
    const TERMINATES: bool = false;
    const ASSUME: &'static [&'static str];
    /// number of cases in the quick tier
    const QUICK: u64;
    const THOROUGH: u64;
    fn strategy(thorough: bool) -> BoxedStrategy<Self::Case>;
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Res;
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub id: &'static str,
    pub terminates: bool,
    worker: fn(&Opts) -> i32,
    one: fn(&str) -> Result<Res, String>,
    cargo: fn() -> (u64, &'static str, &'static [&'static str]),
}
pub fn entry<P: Prop>() -> Entry {
    Entry {
        id: P::ID,
        terminates: P::TERMINATES,
        worker: worker::<P>,
        one: one::<P>,
        cargo: || (P::QUICK, P::RULE, P::ASSUME),
    }
}

#[derive(Clone)]
pub struct Opts {
    pub seed: u64,
    pub thorough: bool,
    pub slots: Option<PathBuf>,
    /// multiplies the number of cases (for experiments)
    pub mult: f64,
}

const EXIT_BLOCKED: i32 = 70;
const EXIT_SPIN: i32 = 71;
const N_SLOT: usize = 32;
const SLOT: usize = 1 << 20;
/// seconds without any CPU use, asleep, within one case
const BLOCKED_SECS: u64 = 15;
/// CPU seconds within one case
const SPIN_SECS: u64 = 60;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

fn check_guarded<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Res {
    match guarded(|| P::check(case, ctx)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

fn one<P: Prop>(json: &str) -> Result<Res, String> {
    let case: P::Case = serde_json::from_str(json).map_err(|e| format!("bad case: {e}"))?;
    let mut ctx = Ctx::default();
    let r = check_guarded::<P>(&case, &mut ctx);
    eprintln!("labels: {:?} nontrivial: {}", ctx.labels, ctx.nontrivial);
    Ok(r)
}

fn fnv(b: &[u8], mut h: u64) -> u64 {
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ---- shared memory with the current case of every thread

struct Slots {
    base: *mut u8,
}
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}
impl Slots {
    fn open(path: &Path) -> Option<Slots> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .ok()?;
        f.set_len((N_SLOT * SLOT) as u64).ok()?;
        let base = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                N_SLOT * SLOT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if base == libc::MAP_FAILED {
            return None;
        }
        Some(Slots { base: base as *mut u8 })
    }
    fn put(&self, i: usize, data: &[u8]) {
        let n = if data.len() + 8 > SLOT { 0 } else { data.len() };
        unsafe {
            let p = self.base.add(i * SLOT);
            std::ptr::write_volatile(p as *mut u64, 0);
            std::ptr::copy_nonoverlapping(data.as_ptr(), p.add(8), n);
            std::ptr::write_volatile(p as *mut u64, n as u64);
        }
    }
    fn get(&self, i: usize) -> Option<String> {
        unsafe {
            let p = self.base.add(i * SLOT);
            let n = std::ptr::read_volatile(p as *const u64) as usize;
            if n == 0 || n + 8 > SLOT {
                return None;
            }
            String::from_utf8(std::slice::from_raw_parts(p.add(8), n).to_vec()).ok()
        }
    }
}

// ---- watchdog

/// (state, cpu ticks) of every thread of this process except the watchdog's own
fn threads() -> BTreeMap<i32, (char, u64)> {
    let mut m = BTreeMap::new();
    let me = unsafe { libc::syscall(libc::SYS_gettid) } as i32;
    if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
        for e in rd.flatten() {
            let Ok(tid) = e.file_name().to_string_lossy().parse::<i32>() else {
                continue;
            };
            if tid == me {
                continue;
            }
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                if let Some(p) = s.rfind(')') {
                    let f: Vec<&str> = s[p + 2..].split(' ').collect();
                    let st = f[0].chars().next().unwrap_or('?');
                    let cpu = f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0);
                    m.insert(tid, (st, cpu));
                }
            }
        }
    }
    m
}

/// Ends the process if all the threads with a case sleep without using the CPU (they wait for locks which will never be
/// released), or one case uses CPU without end.
fn watchdog(done: &AtomicBool, counts: &[AtomicU64], tids: &[AtomicU64], blocked_secs: u64, spin_secs: u64) {
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) }.max(1) as u64;
    let mut last: Vec<(u64, u64, u64)> = vec![(u64::MAX, 0, 0); counts.len()]; // count, cpu at start of it, idle polls
    let mut prev_total: BTreeMap<i32, (char, u64)> = BTreeMap::new();
    let step = Duration::from_millis(500);
    while !done.load(Ordering::SeqCst) {
        std::thread::sleep(step);
        let th = threads();
        // threads started by a case itself: any progress of those counts as progress for all
        let workers: HashSet<i32> = tids.iter().map(|t| t.load(Ordering::SeqCst) as i32).collect();
        let helper_progress = th
            .iter()
            .any(|(t, (s, c))| !workers.contains(t) && (*s != 'S' || prev_total.get(t).map(|p| p.1) != Some(*c)) && *t != unsafe { libc::getpid() });
        for i in 0..counts.len() {
            let tid = tids[i].load(Ordering::SeqCst) as i32;
            let c = counts[i].load(Ordering::SeqCst);
            let Some(&(st, cpu)) = th.get(&tid) else {
                last[i].0 = u64::MAX;
                continue;
            };
            if c == 0 || c == u64::MAX || last[i].0 != c {
                last[i] = (c, cpu, 0);
                continue;
            }
            let no_progress = st == 'S' && prev_total.get(&tid).map(|p| p.1) == Some(cpu) && !helper_progress;
            last[i].2 = if no_progress { last[i].2 + 1 } else { 0 };
            if last[i].2 * 500 >= blocked_secs * 1000 {
                unsafe { libc::_exit(EXIT_BLOCKED) }
            }
            if cpu - last[i].1 > spin_secs * hz {
                unsafe { libc::_exit(EXIT_SPIN) }
            }
        }
        prev_total = th;
    }
}

// ---- worker

struct Stats {
    evals: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(usize, Value)>,
}

fn worker<P: Prop>(o: &Opts) -> i32 {
    let start = Instant::now();
    let slots = o.slots.as_deref().and_then(Slots::open);
    let n_threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, N_SLOT);
    let total = ((if o.thorough { P::THOROUGH } else { P::QUICK }) as f64 * o.mult).max(1.0) as u64;
    let n_chunks: u64 = 64.min(total);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let stats = Mutex::new(Stats {
        evals: 0,
        distinct: HashSet::new(),
        labels: BTreeMap::new(),
        samples: vec![],
    });
    let failures: Mutex<Vec<(u64, String, P::Case)>> = Mutex::new(vec![]);
    let counts: Vec<AtomicU64> = (0..n_threads).map(|_| AtomicU64::new(0)).collect();
    let tids: Vec<AtomicU64> = (0..n_threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicBool::new(false);
    let errors = AtomicUsize::new(0);
    std::thread::scope(|s| {
        s.spawn(|| watchdog(&done, &counts, &tids, BLOCKED_SECS, SPIN_SECS));
        let hs: Vec<_> = (0..n_threads)
            .map(|w| {
                let (slots, next, stop, stats, failures, counts, tids, errors) =
                    (&slots, &next, &stop, &stats, &failures, &counts, &tids, &errors);
                s.spawn(move || {
                    tids[w].store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Ordering::SeqCst);
                    loop {
                        let chunk = next.fetch_add(1, Ordering::SeqCst);
                        if chunk >= n_chunks || stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let cases = total / n_chunks + u64::from(chunk < total % n_chunks);
                        let mut seed = [0u8; 32];
                        seed[..8].copy_from_slice(&o.seed.to_le_bytes());
                        seed[8..16].copy_from_slice(&chunk.to_le_bytes());
                        seed[16..24].copy_from_slice(&fnv(P::ID.as_bytes(), 0xcbf29ce484222325).to_le_bytes());
                        seed[24] = o.thorough as u8;
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                        let mut runner = TestRunner::new_with_rng(
                            Config {
                                cases: cases as u32,
                                failure_persistence: None,
                                max_shrink_iters: 3000,
                                max_global_rejects: 1 << 20,
                                ..Config::default()
                            },
                            rng,
                        );
                        let failed = RefCell::new(false);
                        let local = RefCell::new((0u64, HashSet::new(), BTreeMap::<&'static str, u64>::new(), Vec::<Value>::new()));
                        let r = runner.run(&P::strategy(o.thorough), |case| {
                            if !*failed.borrow() && stop.load(Ordering::Relaxed) {
                                return Ok(()); // another thread has found a failure
                            }
                            let json = serde_json::to_vec(&case).expect("case to json");
                            if let Some(s) = slots {
                                s.put(w, &json);
                            }
                            counts[w].fetch_add(1, Ordering::SeqCst);
                            let mut ctx = Ctx::default();
                            let r = check_guarded::<P>(&case, &mut ctx);
                            if !*failed.borrow() {
                                let mut l = local.borrow_mut();
                                l.0 += 1;
                                for x in ctx.labels {
                                    *l.2.entry(x).or_default() += 1;
                                }
                                if ctx.nontrivial {
                                    l.1.insert(fnv(&json, 0xcbf29ce484222325));
                                    if l.3.len() < 2 && json.len() < 6000 && l.0 > 3 {
                                        if let Ok(v) = serde_json::from_slice(&json) {
                                            l.3.push(v);
                                        }
                                    }
                                }
                            }
                            r.map_err(|m| {
                                *failed.borrow_mut() = true;
                                stop.store(true, Ordering::Relaxed);
                                TestCaseError::fail(m)
                            })
                        });
                        let l = local.into_inner();
                        let mut st = stats.lock().unwrap();
                        st.evals += l.0;
                        st.distinct.extend(l.1);
                        for (k, v) in l.2 {
                            *st.labels.entry(k).or_default() += v;
                        }
                        for v in l.3 {
                            st.samples.push((chunk as usize, v));
                        }
                        drop(st);
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(m, case)) => {
                                failures.lock().unwrap().push((chunk, m.to_string(), case));
                                stop.store(true, Ordering::SeqCst);
                            }
                            Err(TestError::Abort(m)) => {
                                eprintln!("generator gave up: {m}");
                                errors.fetch_add(1, Ordering::SeqCst);
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                    counts[w].store(u64::MAX, Ordering::SeqCst);
                })
            })
            .collect();
        for h in hs {
            let _ = h.join();
        }
        done.store(true, Ordering::SeqCst);
    });
    let mut st = stats.into_inner().unwrap();
    let mut failures = failures.into_inner().unwrap();
    failures.sort_by_key(|f| f.0);
    st.samples.sort_by_key(|s| s.0);
    let samples: Vec<Value> = st.samples.into_iter().map(|s| s.1).take(4).collect();
    evidence(
        P::ID,
        o,
        json!({
            "evaluations": st.evals,
            "distinct_nontrivial": st.distinct.len(),
            "rule": P::RULE,
            "samples": samples,
            "labels": st.labels,
        }),
        P::ASSUME,
        start.elapsed(),
        failures.len(),
    );
    println!(
        "{}: {} cases, {} distinct non-trivial, labels {:?}, {:.1} s",
        P::ID,
        st.evals,
        st.distinct.len(),
        st.labels,
        start.elapsed().as_secs_f64()
    );
    if let Some((_, m, case)) = failures.first() {
        report(P::ID, o, &serde_json::to_value(case).unwrap(), m);
        return 1;
    }
    if errors.load(Ordering::SeqCst) > 0 {
        return 2;
    }
    0
}

fn evidence(id: &str, o: &Opts, coverage: Value, assume: &[&str], wall: Duration, violations: usize) {
    let v = json!({
        "property": id,
        "tier": if o.thorough { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": assume,
        "wall_s": (wall.as_secs_f64() * 100.0).round() / 100.0,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all("evidence");
    let path = format!("evidence/{id}.json");
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n") {
        eprintln!("can not write {path}: {e}");
        std::process::exit(2);
    }
}

fn report(id: &str, o: &Opts, case: &Value, message: &str) {
    let _ = std::fs::create_dir_all("replays");
    let path = format!("replays/{id}-{}-{:016x}.json", o.seed, fnv(case.to_string().as_bytes(), 0xcbf29ce484222325));
    let v = json!({"property": id, "message": message, "case": case});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n");
    let mut m = message.to_string();
    if m.len() > 3000 {
        m = m.chars().take(3000).collect();
    }
    println!("{m}");
    println!("VIOLATION property={id} replay={path}");
}

// ---- parent

/// Runs a case in another process. None: it could not be run; Some((violated, message))
fn confirm(e: &Entry, case: &str) -> Option<(bool, String)> {
    static N: AtomicUsize = AtomicUsize::new(0);
    let n = N.fetch_add(1, Ordering::SeqCst);
    let path = std::env::temp_dir().join(format!("kprops-case-{}-{n}.json", std::process::id()));
    std::fs::write(&path, case).ok()?;
    let out = std::process::Command::new(std::env::current_exe().ok()?)
        .args(["one", e.id])
        .arg(&path)
        .output();
    let _ = std::fs::remove_file(&path);
    let out = out.ok()?;
    use std::os::unix::process::ExitStatusExt;
    let text = String::from_utf8_lossy(&out.stdout).trim().to_string();
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => Some((false, String::new())),
        (Some(1), _) => Some((true, text)),
        (Some(EXIT_BLOCKED), _) => Some((true, "the call never returns: its thread sleeps for ever (deadlock)".into())),
        (Some(EXIT_SPIN), _) if e.terminates => Some((true, format!("the call does not return within {SPIN_SECS} s of CPU time"))),
        (None, Some(s)) if s == libc::SIGSEGV || s == libc::SIGABRT || s == libc::SIGBUS || s == libc::SIGILL => {
            Some((true, format!("the process is killed by signal {s} (stack overflow or abort)")))
        }
        _ => None,
    }
}

/// All values got by removing one element or half of the elements of one array of objects or arrays
fn smaller(v: &Value) -> Vec<Value> {
    fn paths(v: &Value, p: String, out: &mut Vec<(String, usize)>) {
        match v {
            Value::Array(a) => {
                if a.iter().any(|x| x.is_object() || x.is_array() || x.is_string()) {
                    out.push((p.clone(), a.len()));
                }
                for (i, x) in a.iter().enumerate() {
                    paths(x, format!("{p}/{i}"), out);
                }
            }
            Value::Object(o) => {
                for (k, x) in o {
                    paths(x, format!("{p}/{}", k.replace('~', "~0").replace('/', "~1")), out);
                }
            }
            _ => {}
        }
    }
    let mut ps = vec![];
    paths(v, String::new(), &mut ps);
    ps.sort_by_key(|p| std::cmp::Reverse(p.1));
    let mut out = vec![];
    for half in [true, false] {
        for (p, n) in &ps {
            let ranges: Vec<(usize, usize)> = if half {
                if *n < 4 {
                    continue;
                }
                vec![(n / 2, *n), (0, n / 2)]
            } else {
                (0..*n).rev().map(|i| (i, i + 1)).collect()
            };
            for (a, b) in ranges {
                let mut w = v.clone();
                if let Some(Value::Array(arr)) = w.pointer_mut(p) {
                    arr.drain(a..b);
                    out.push(w);
                }
            }
        }
    }
    out
}

pub fn run(e: &Entry, o: &Opts) -> i32 {
    let start = Instant::now();
    let dir = std::env::temp_dir();
    let slots_path = dir.join(format!("kprops-slots-{}", std::process::id()));
    let Ok(exe) = std::env::current_exe() else { return 2 };
    // evidence of an earlier run must not stay
    let _ = std::fs::remove_file(format!("evidence/{}.json", e.id));
    let status = std::process::Command::new(exe)
        .args(["worker", e.id, "--slots"])
        .arg(&slots_path)
        .args(["--mult", &o.mult.to_string()])
        .args(["--seed", &o.seed.to_string(), "--tier", if o.thorough { "thorough" } else { "quick" }])
        .status();
    let slots = Slots::open(&slots_path);
    let _ = std::fs::remove_file(&slots_path);
    let Ok(status) = status else { return 2 };
    use std::os::unix::process::ExitStatusExt;
    let what = match (status.code(), status.signal()) {
        (Some(c @ (0 | 1)), _) => return c,
        (Some(EXIT_BLOCKED), _) => "a case blocks".to_string(),
        (Some(EXIT_SPIN), _) => "a case does not end".to_string(),
        (Some(c), _) => return if c == 0 || c == 1 { 2 } else { c },
        (None, Some(s)) => format!("worker got signal {s}"),
        _ => return 2,
    };
    eprintln!("{what}");
    let Some(slots) = slots else { return 2 };
    let mut cases: Vec<String> = (0..N_SLOT).filter_map(|i| slots.get(i)).collect();
    cases.sort_by_key(|c| c.len());
    let found = std::thread::scope(|s| {
        // blocked cases need a while to be recognised, so try them at the same time
        let hs: Vec<_> = cases
            .iter()
            .map(|c| {
                s.spawn(move || match confirm(e, c) {
                    Some((true, m)) => Some((c.clone(), m)),
                    _ => None,
                })
            })
            .collect();
        let mut r: Vec<(String, String)> = hs.into_iter().filter_map(|h| h.join().ok().flatten()).collect();
        r.sort_by_key(|x| x.0.len());
        r.into_iter().next()
    });
    let Some((case, mut msg)) = found else {
        eprintln!("not reproduced in a process of its own");
        return 2;
    };
    let Ok(mut best) = serde_json::from_str::<Value>(&case) else { return 2 };
    let limit = Instant::now() + Duration::from_secs(90);
    'outer: loop {
        for c in smaller(&best) {
            if Instant::now() > limit {
                break 'outer;
            }
            if let Some((true, m)) = confirm(e, &c.to_string()) {
                // it must still be the same kind of failure
                if m.chars().take(16).eq(msg.chars().take(16)) {
                    best = c;
                    msg = m;
                    continue 'outer;
                }
            }
        }
        break;
    }
    let (_, rule, assume) = (e.cargo)();
    evidence(
        e.id,
        o,
        json!({"evaluations": 1, "distinct_nontrivial": 1, "rule": rule, "samples": [best.clone()],
               "note": format!("{what}; only the cases under way at that point were tried again")}),
        assume,
        start.elapsed(),
        1,
    );
    report(e.id, o, &best, &msg);
    1
}

pub fn run_worker(e: &Entry, o: &Opts) -> i32 {
    (e.worker)(o)
}

/// Checks one case, given as JSON: exit code 0 holds, 1 violated, 3 not a case
pub fn run_one(e: &Entry, json: &str) -> i32 {
    let done = AtomicBool::new(false);
    let counts = [AtomicU64::new(1)];
    let tids = [AtomicU64::new(0)];
    let e = *e;
    std::thread::scope(|s| {
        s.spawn(|| watchdog(&done, &counts, &tids, 4, SPIN_SECS));
        let h = s.spawn(|| {
            tids[0].store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, Ordering::SeqCst);
            (e.one)(json)
        });
        let r = h.join();
        done.store(true, Ordering::SeqCst);
        match r {
            Ok(Ok(Ok(()))) => 0,
            Ok(Ok(Err(m))) => {
                println!("{m}");
                1
            }
            Ok(Err(m)) => {
                eprintln!("{m}");
                3
            }
            Err(_) => 3,
        }
    })
}
