//! The explorer: enumerates all cases of a family and, per case, all executions
//! within a bound on deviations from the default schedule / environment answers.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicI32, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::mc::{self, Kind, Point};

#[derive(Clone, Debug, PartialEq)]
pub struct Fail {
    pub kind: String,
    pub msg: String,
}
impl Fail {
    pub fn new(kind: &str, msg: impl Into<String>) -> Fail {
        Fail { kind: kind.into(), msg: msg.into() }
    }
    pub fn ctx(mut self, s: impl AsRef<str>) -> Fail {
        self.msg = format!("{}: {}", s.as_ref(), self.msg);
        self
    }
}
pub type Fallible<T> = Result<T, Fail>;
pub type Devs = Vec<(u32, u32)>;

pub struct Ctx {
    pub devs: Devs,
    pub trace: bool,
}

pub type RunFn = Arc<dyn Fn(u64, &Ctx) -> Fallible<()> + Send + Sync>;
pub type LabelFn = Arc<dyn Fn(u64) -> String + Send + Sync>;

#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub count: u64,
    pub bound: u32,
    pub run: RunFn,
    pub label: LabelFn,
    /// CPU seconds one execution may take before it counts as hung
    pub cpu_limit: f64,
    pub threads: usize,
    /// with every log statement enabled and formatted
    pub logged: bool,
}
thread_local! { static LOG: RefCell<Option<String>> = const { RefCell::new(None) }; }
/// Keeps what this execution logs.
pub fn capture_log() {
    LOG.with(|l| *l.borrow_mut() = Some(String::new()));
}
pub fn captured_log() -> String {
    LOG.with(|l| l.borrow().clone().unwrap_or_default())
}
/// For the logger: whether to keep what is logged.
pub fn capturing() -> bool {
    LOG.try_with(|l| l.try_borrow().is_ok_and(|l| l.is_some())).unwrap_or(false)
}
pub fn keep_log(line: &str) {
    let _ = LOG.try_with(|l| {
        if let Ok(mut l) = l.try_borrow_mut() {
            if let Some(l) = l.as_mut() {
                l.push_str(line);
                l.push('\n');
            }
        }
    });
}
/// Turns the formatting of all log statements on or off.
pub static LOGGING: std::sync::OnceLock<fn(bool)> = std::sync::OnceLock::new();
static LOGS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Whether all log statements are enabled at present.
pub fn is_logging() -> bool {
    LOGS.load(std::sync::atomic::Ordering::Relaxed)
}
pub fn logging(on: bool) {
    LOGS.store(on, std::sync::atomic::Ordering::Relaxed);
    if let Some(f) = LOGGING.get() {
        f(on)
    }
}
impl Family {
    pub fn new(
        name: impl Into<String>,
        count: u64,
        run: impl Fn(u64, &Ctx) -> Fallible<()> + Send + Sync + 'static,
        label: impl Fn(u64) -> String + Send + Sync + 'static,
    ) -> Family {
        Family { name: name.into(), count, bound: 0, run: Arc::new(run), label: Arc::new(label), cpu_limit: 10.0, threads: 8, logged: false }
    }
    pub fn bound(mut self, b: u32) -> Family {
        self.bound = b;
        self
    }
    pub fn cpu_limit(mut self, s: f64) -> Family {
        self.cpu_limit = s;
        self
    }
    pub fn logged(&self) -> Family {
        Family { name: format!("{} (logging everything)", self.name), logged: true, ..self.clone() }
    }
    pub fn threads(mut self, n: usize) -> Family {
        self.threads = n;
        self
    }
}

/// A family over an explicit list of cases.
pub fn cases<T: Send + Sync + 'static>(
    name: impl Into<String>,
    list: Vec<T>,
    run: impl Fn(&T, &Ctx) -> Fallible<()> + Send + Sync + 'static,
    label: impl Fn(&T) -> String + Send + Sync + 'static,
) -> Family {
    let a = Arc::new(list);
    let b = a.clone();
    Family::new(name, a.len() as u64, move |i, ctx| run(&a[i as usize], ctx), move |i| label(&b[i as usize]))
}

// ------------------------------------------------------ per-execution record

#[derive(Default)]
pub struct Rec {
    pub points: Vec<Point>,
    pub diverged: Option<String>,
    pub trace: Vec<String>,
    pub transitions: u64,
    pub polls: u64,
    pub states: Vec<u64>,
    pub outcome: u64,
    pub worlds: u64,
    pub traces: u64,
    pub sample: Option<String>,
}
thread_local! { static REC: RefCell<Rec> = RefCell::new(Rec::default()); }

pub fn record(w: &mc::World, transitions: u64) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.points = w.ch.taken.clone();
        r.diverged = w.divergence();
        if let Some(t) = &w.trace {
            r.trace.extend(t.iter().cloned());
        }
        r.transitions += transitions + w.ops;
        r.polls += w.polls;
        r.worlds += 1;
    })
}
/// A state of the model / an observable state of the system was visited.
pub fn visit<T: Hash>(t: &T) {
    let h = hash(t);
    REC.with(|r| r.borrow_mut().states.push(h));
}
pub fn outcome<T: Hash>(t: &T) {
    let h = hash(t);
    REC.with(|r| {
        let mut r = r.borrow_mut();
        r.outcome = r.outcome.wrapping_mul(31).wrapping_add(h);
    });
}
/// Counts further reference-model transitions checked against the implementation.
pub fn count_transitions(n: u64) {
    REC.with(|r| r.borrow_mut().transitions += n);
}
pub fn count_traces(n: u64) {
    REC.with(|r| r.borrow_mut().traces += n);
}
pub fn sample(f: impl FnOnce() -> String) {
    REC.with(|r| {
        let mut r = r.borrow_mut();
        if r.sample.is_none() {
            r.sample = Some(f());
        }
    });
}
pub fn note(f: impl FnOnce() -> String) {
    let _ = mc::try_with(|w| w.log(f));
}

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

// --------------------------------------------------------------- statistics

#[derive(Default)]
pub struct Stats {
    pub executions: u64,
    pub traces: u64,
    pub transitions: u64,
    pub polls: u64,
    pub max_points: usize,
    pub families: Vec<FamStats>,
    pub samples: Vec<String>,
    pub capped: Vec<String>,
}
#[derive(Default, Clone)]
pub struct FamStats {
    pub name: String,
    pub cases: u64,
    pub executions: u64,
    pub bound: u32,
    pub by_cost: BTreeMap<u32, u64>,
    pub outcomes: usize,
    pub secs: f64,
}

pub struct Shared {
    states: Vec<Mutex<HashSet<u64>>>,
}
impl Shared {
    fn new() -> Shared {
        Shared { states: (0..64).map(|_| Mutex::new(HashSet::new())).collect() }
    }
    fn add(&self, v: &[u64]) {
        for h in v {
            self.states[(*h & 63) as usize].lock().unwrap().insert(*h);
        }
    }
    pub fn distinct(&self) -> u64 {
        self.states.iter().map(|s| s.lock().unwrap().len() as u64).sum()
    }
}

#[derive(Clone, Debug)]
pub struct Found {
    pub family: String,
    pub index: u64,
    pub devs: Devs,
    pub label: String,
    pub fail: Fail,
    pub trace: Vec<String>,
    pub confirmed: bool,
}

pub struct Explorer {
    pub shared: Arc<Shared>,
    pub stats: Stats,
    pub deadline: Instant,
    pub known: Vec<Known>,
    pub known_hit: BTreeMap<usize, (u64, String)>,
    pub found: Option<Found>,
    pub errors: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Known {
    pub property: String,
    pub family: String,
    pub case: String,
    pub kind: String,
    pub text: String,
}
impl Known {
    fn matches(&self, family: &str, label: &str, kind: &str) -> bool {
        self.family == family && (self.case == "*" || self.case == label) && self.kind == kind
    }
}

pub struct Slot {
    tid: i32,
    family: usize,
    index: u64,
    devs: Devs,
}

fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}
fn thread_cpu(tid: i32) -> Option<f64> {
    let clk = ((!tid) << 3) | 4 | 2;
    let mut ts: libc::timespec = unsafe { std::mem::zeroed() };
    if unsafe { libc::clock_gettime(clk, &mut ts) } == 0 {
        Some(ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9)
    } else {
        None
    }
}

fn asleep(tid: i32) -> bool {
    std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).is_ok_and(|s| s.rsplit(") ").next().is_some_and(|r| r.starts_with('S')))
}

/// Thread whose execution ended the whole process (abort, stack overflow, exit), and how.
static CRASHED: AtomicI32 = AtomicI32::new(0);
static CRASH_KIND: AtomicI32 = AtomicI32::new(0);
static WATCHED: AtomicBool = AtomicBool::new(false);
static LEAVING: AtomicBool = AtomicBool::new(false);

fn crashed(kind: i32) -> ! {
    if !WATCHED.load(Ordering::SeqCst) {
        let m = b"the code under test ended the process\n";
        unsafe {
            libc::write(2, m.as_ptr() as *const _, m.len());
            libc::_exit(1)
        }
    }
    if CRASHED.compare_exchange(0, gettid(), Ordering::SeqCst, Ordering::SeqCst).is_ok() {
        CRASH_KIND.store(kind, Ordering::SeqCst);
    }
    // the watchdog reports this execution
    loop {
        unsafe { libc::pause() };
    }
}
extern "C" fn on_abort(_: i32) {
    crashed(1)
}
extern "C" fn on_exit() {
    if !LEAVING.load(Ordering::SeqCst) {
        crashed(2)
    }
}
/// From here on the code under test cannot end the process unnoticed.
pub fn guard_process() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_abort as *const () as usize;
        a.sa_flags = libc::SA_ONSTACK;
        // in place of the standard library's own handlers, which two threads cannot be in at once
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
        libc::atexit(on_exit);
    }
}
/// The process may exit now.
pub fn leave(code: i32) -> ! {
    LEAVING.store(true, Ordering::SeqCst);
    std::process::exit(code)
}

pub struct Exec {
    pub result: Fallible<()>,
    pub rec: Rec,
    pub harness_panic: Option<String>,
}

/// One execution on a fresh thread (fresh thread-local state, hash seeds, ids), or in a process of its own.
fn execute(f: &Family, index: u64, devs: &Devs, trace: bool, slot: Option<(&Mutex<Option<Slot>>, usize)>) -> Exec {
    if crate::iso::active() {
        return crate::iso::execute(slot.map_or(0, |s| s.1), f, index, devs, trace);
    }
    run_here(f, index, devs, trace, slot)
}
pub fn run_here(f: &Family, index: u64, devs: &Devs, trace: bool, slot: Option<(&Mutex<Option<Slot>>, usize)>) -> Exec {
    let run = f.run.clone();
    let devs2 = devs.clone();
    std::thread::scope(|s| {
        let h = std::thread::Builder::new()
            .stack_size(2 << 20)
            .spawn_scoped(s, move || {
                if let Some((slot, fam)) = slot {
                    *slot.lock().unwrap() = Some(Slot { tid: gettid(), family: fam, index, devs: devs2.clone() });
                }
                crate::rng::seed(index);
                let ctx = Ctx { devs: devs2, trace };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(index, &ctx)));
                let rec = REC.with(|r| std::mem::take(&mut *r.borrow_mut()));
                if let Some((slot, _)) = slot {
                    *slot.lock().unwrap() = None;
                }
                match r {
                    Ok(result) => Exec { result, rec, harness_panic: None },
                    Err(p) => Exec {
                        result: Ok(()),
                        rec,
                        harness_panic: Some(
                            p.downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_else(|| "harness panic".into()),
                        ),
                    },
                }
            })
            .expect("thread");
        h.join().expect("execution thread")
    })
}

/// Replays one execution and prints its trace.
pub fn replay(f: &Family, index: u64, devs: &Devs) -> (Fallible<()>, Vec<String>) {
    let e = execute(f, index, devs, true, None);
    if let Some(p) = e.harness_panic {
        return (Err(Fail::new("harness", p)), e.rec.trace);
    }
    (e.result, e.rec.trace)
}

struct Queue {
    /// cases not started yet (cost 0, no deviations)
    next: u64,
    /// pending executions by number of costly deviations
    buckets: Vec<Vec<(u64, Devs)>>,
    pending: usize,
    active: usize,
}

impl Explorer {
    pub fn new(limit: Duration, known: Vec<Known>) -> Explorer {
        Explorer {
            shared: Arc::new(Shared::new()),
            stats: Stats::default(),
            deadline: Instant::now() + limit,
            known,
            known_hit: BTreeMap::new(),
            found: None,
            errors: vec![],
        }
    }

    /// `on_hang` is called (from the watchdog) when one execution does not come back.
    pub fn run_family(&mut self, f: &Family, on_hang: &(dyn Fn(&Explorer, Found) + Sync)) {
        if self.found.is_some() || !self.errors.is_empty() {
            return;
        }
        logging(f.logged);
        let t0 = Instant::now();
        let q = Mutex::new(Queue { next: 0, buckets: vec![Vec::new(); f.bound as usize + 1], pending: 0, active: 0 });
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let done = AtomicBool::new(false);
        let nthreads = f.threads.min(if f.bound == 0 { (f.count as usize).max(1) } else { f.threads }).max(1);
        let slots: Vec<Mutex<Option<Slot>>> = (0..nthreads).map(|_| Mutex::new(None)).collect();
        let agg = Mutex::new((FamStats { name: f.name.clone(), bound: f.bound, ..Default::default() }, HashSet::<u64>::new(), Vec::<String>::new(), 0u64, 0u64, 0usize, 0u64));
        let failures: Mutex<Vec<(u32, Found)>> = Mutex::new(vec![]);
        let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
        let known_hit: Mutex<BTreeMap<usize, (u64, String)>> = Mutex::new(BTreeMap::new());
        let known = self.known.clone();
        let shared = self.shared.clone();
        let deadline = self.deadline;
        let me: &Explorer = self;
        std::thread::scope(|s| {
            for wi in 0..nthreads {
                let (q, stop, capped, slots, agg, failures, errors, known_hit, known, shared) =
                    (&q, &stop, &capped, &slots, &agg, &failures, &errors, &known_hit, &known, &shared);
                s.spawn(move || {
                    let chunk = if f.bound == 0 { (f.count / (nthreads as u64 * 8)).clamp(1, 64) } else { 1 };
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if Instant::now() > deadline {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        // take work
                        let mut work: Vec<(u64, Devs, u32)> = vec![];
                        {
                            let mut g = q.lock().unwrap();
                            if g.pending > 0 {
                                let deep = g.pending > 1_000_000;
                                let n = g.buckets.len();
                                for k in 0..n {
                                    let b = if deep { n - 1 - k } else { k };
                                    if !deep && b > 0 && g.next < f.count {
                                        break;
                                    }
                                    if let Some((i, d)) = g.buckets[b].pop() {
                                        g.pending -= 1;
                                        work.push((i, d, b as u32));
                                        break;
                                    }
                                }
                            }
                            if work.is_empty() && g.next < f.count {
                                let e = (g.next + chunk).min(f.count);
                                for i in g.next..e {
                                    work.push((i, vec![], 0));
                                }
                                g.next = e;
                            }
                            if work.is_empty() {
                                if g.active == 0 {
                                    break;
                                }
                            } else {
                                g.active += 1;
                            }
                        }
                        if work.is_empty() {
                            std::thread::sleep(Duration::from_micros(200));
                            continue;
                        }
                        let mut children: Vec<(usize, (u64, Devs))> = vec![];
                        for (index, devs, cost) in work {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if f.bound == 0 && Instant::now() > deadline {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            let e = execute(f, index, &devs, false, Some((&slots[wi], wi)));
                            if let Some(p) = e.harness_panic {
                                errors.lock().unwrap().push(format!("{} case {} ({}) {:?}: {}", f.name, index, (f.label)(index), devs, p));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            if let Some(d) = &e.rec.diverged {
                                if e.result.is_ok() {
                                    errors.lock().unwrap().push(format!("replay diverged: {} case {} {:?}: {}", f.name, index, devs, d));
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                            shared.add(&e.rec.states);
                            {
                                let mut a = agg.lock().unwrap();
                                a.0.executions += 1;
                                *a.0.by_cost.entry(cost).or_insert(0) += 1;
                                a.1.insert(e.rec.outcome);
                                a.3 += e.rec.transitions;
                                a.4 += e.rec.polls;
                                a.5 = a.5.max(e.rec.points.len());
                                a.6 += e.rec.traces.max(1);
                                if a.2.len() < 2 && (devs.len() > 0 || f.bound == 0) {
                                    if let Some(s) = &e.rec.sample {
                                        a.2.push(format!("{} [{}] deviations {:?}: {}", f.name, (f.label)(index), devs, s));
                                    }
                                }
                            }
                            match e.result {
                                Ok(()) => {}
                                Err(fail) => {
                                    let label = (f.label)(index);
                                    if let Some(k) = known.iter().position(|k| k.matches(&f.name, &label, &fail.kind)) {
                                        known_hit.lock().unwrap().entry(k).or_insert((0, fail.msg.clone())).0 += 1;
                                    } else {
                                        failures.lock().unwrap().push((
                                            cost,
                                            Found { family: f.name.clone(), index, devs: devs.clone(), label, fail, trace: vec![], confirmed: false },
                                        ));
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                            // children: deviate once more, after the last deviation
                            let from = devs.last().map(|d| d.0 + 1).unwrap_or(0);
                            for (i, p) in e.rec.points.iter().enumerate().skip(from as usize) {
                                for alt in 1..p.n {
                                    let c = cost + Point::cost_of(p.kind, alt);
                                    if c > f.bound {
                                        continue;
                                    }
                                    let mut d = devs.clone();
                                    d.push((i as u32, alt));
                                    children.push((c as usize, (index, d)));
                                }
                            }
                        }
                        let mut g = q.lock().unwrap();
                        g.active -= 1;
                        for (b, it) in children {
                            g.buckets[b].push(it);
                            g.pending += 1;
                        }
                    }
                });
            }
            // watchdog
            let (slots, done, stop) = (&slots, &done, &stop);
            WATCHED.store(true, Ordering::SeqCst);
            let wd = s.spawn(move || {
                let mut still: BTreeMap<i32, (u64, f64, Instant)> = BTreeMap::new();
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let crashed = CRASHED.load(Ordering::SeqCst);
                    for sl in slots {
                        let g = sl.lock().unwrap();
                        if let Some(sl) = g.as_ref() {
                            if crashed == sl.tid && CRASH_KIND.load(Ordering::SeqCst) == 2 {
                                // what follows from it can be seen in a process of its own
                                crate::iso::again();
                            }
                            if crashed == sl.tid {
                                let how = match CRASH_KIND.load(Ordering::SeqCst) {
                                    1 => "the broker aborts (stack overflow, or panic while panicking)",
                                    _ => "the broker calls exit",
                                };
                                let fd = Found {
                                    family: f.name.clone(),
                                    index: sl.index,
                                    devs: sl.devs.clone(),
                                    label: (f.label)(sl.index),
                                    fail: Fail::new("crash", how),
                                    trace: vec![],
                                    confirmed: true,
                                };
                                on_hang(me, fd);
                            }
                            if let Some(t) = thread_cpu(sl.tid) {
                                let w = still.entry(sl.tid).or_insert((sl.index, t, Instant::now()));
                                if w.0 != sl.index || w.1 != t {
                                    *w = (sl.index, t, Instant::now());
                                } else if w.2.elapsed() > Duration::from_secs(60) && asleep(sl.tid) {
                                    let fd = Found {
                                        family: f.name.clone(),
                                        index: sl.index,
                                        devs: sl.devs.clone(),
                                        label: (f.label)(sl.index),
                                        fail: Fail::new("hang", "one step of the broker (or the tool) does not finish: blocked for 60 s"),
                                        trace: vec![],
                                        confirmed: true,
                                    };
                                    on_hang(me, fd);
                                }
                                if t > f.cpu_limit {
                                    let fd = Found {
                                        family: f.name.clone(),
                                        index: sl.index,
                                        devs: sl.devs.clone(),
                                        label: (f.label)(sl.index),
                                        fail: Fail::new("hang", format!("one step of the broker did not finish within {} s of CPU time", f.cpu_limit)),
                                        trace: vec![],
                                        confirmed: true,
                                    };
                                    on_hang(me, fd);
                                }
                            }
                        }
                    }
                }
            });
            // wait for the workers: scope joins them; flag the watchdog when the queue drains
            loop {
                std::thread::sleep(Duration::from_millis(5));
                let idle = {
                    let g = q.lock().unwrap();
                    g.active == 0 && ((g.pending == 0 && g.next >= f.count) || stop.load(Ordering::Relaxed) || capped.load(Ordering::Relaxed))
                };
                if idle {
                    done.store(true, Ordering::Relaxed);
                    break;
                }
            }
            let _ = wd.join();
            WATCHED.store(false, Ordering::SeqCst);
        });
        let (mut fs, outs, samples, tr, polls, maxp, traces) = agg.into_inner().unwrap();
        fs.cases = q.into_inner().unwrap().next;
        fs.outcomes = outs.len();
        fs.secs = t0.elapsed().as_secs_f64();
        if capped.load(Ordering::Relaxed) {
            self.stats.capped.push(format!("{}: time cap reached after {} executions (complete up to {} deviations: {:?})", f.name, fs.executions, f.bound, fs.by_cost));
        }
        self.stats.executions += fs.executions;
        self.stats.traces += traces;
        self.stats.transitions += tr;
        self.stats.polls += polls;
        self.stats.max_points = self.stats.max_points.max(maxp);
        self.stats.families.push(fs);
        self.stats.samples.extend(samples);
        for (k, (n, m)) in known_hit.into_inner().unwrap() {
            self.known_hit.entry(k).or_insert((0, m)).0 += n;
        }
        self.errors.extend(errors.into_inner().unwrap());
        let mut fl = failures.into_inner().unwrap();
        fl.sort_by_key(|(c, f)| (*c, f.devs.len(), f.index));
        if let Some((_, mut fd)) = fl.into_iter().next() {
            // replay twice: the same schedule must fail the same way
            let (r1, trace) = replay(f, fd.index, &fd.devs);
            let (r2, _) = replay(f, fd.index, &fd.devs);
            fd.confirmed = matches!((&r1, &r2), (Err(a), Err(b)) if a.kind == fd.fail.kind && b.kind == fd.fail.kind);
            fd.trace = trace;
            self.found = Some(fd);
        }
    }
}
