//! The controlled world: scheduler, choices, in-memory network, clock, signal.
//!
//! Everything lives in thread-local state of the thread that runs one
//! execution. Nothing here uses real time, real I/O or randomness; every
//! nondeterministic decision goes through [`choose`].
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;

// ---------------------------------------------------------------- choices

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// which runnable task / environment action goes next while work is pending (deviation: cost 1)
    Sched,
    /// which environment action goes next at quiescence (free: enumerated fully)
    Env,
    /// yield at a channel operation (cost 1)
    Preempt,
    /// start branch of select! (cost 1)
    Select,
    /// amount of a partial read/write (cost 1)
    Io,
}
impl Kind {
    pub const ALL: [Kind; 5] = [Kind::Sched, Kind::Env, Kind::Preempt, Kind::Select, Kind::Io];
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub n: u32,
    pub chosen: u32,
    pub kind: Kind,
}

impl Point {
    pub fn cost_of(kind: Kind, alt: u32) -> u32 {
        if alt == 0 || kind == Kind::Env { 0 } else { 1 }
    }
}

/// Which nondeterminism an execution explores.
#[derive(Clone, Copy, Debug, Default)]
pub struct Explore {
    pub sched: bool,
    pub preempt: bool,
    pub select: bool,
    pub io: bool,
}

pub struct Chooser {
    /// deviations from the default choice: (position, alternative), ascending
    pub devs: Vec<(u32, u32)>,
    next_dev: usize,
    pub taken: Vec<Point>,
    pub explore: Explore,
    pub diverged: Option<String>,
}

// ------------------------------------------------------------------- tasks

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct TaskWaker {
    id: TaskId,
    queued: AtomicBool,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        Self::wake_by_ref(&self)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.queued.swap(true, Ordering::Relaxed) {
            let id = self.id;
            let _g = heap::Outside::enter();
            let _ = WORLD.try_with(|w| {
                if let Some(w) = w.borrow_mut().as_mut() {
                    if w.tasks.get(id).is_some_and(|t| t.alive) {
                        w.queue.push_back(id);
                    }
                }
            });
        }
    }
}

struct TaskSlot {
    fut: Option<BoxFut>,
    waker: Arc<TaskWaker>,
    alive: bool,
    aborted: bool,
    on_cancel: Option<Box<dyn FnOnce()>>,
}

// ----------------------------------------------------------------- network

pub type ConnId = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CloseMode {
    /// client shuts down its write side and keeps reading
    Fin,
    /// client closes the socket: EOF for the broker, later broker writes fail
    Close,
    /// connection reset: broker reads and writes fail
    Reset,
    /// reads and writes of the broker fail with that error number: the way to the client is broken
    Failed(i32),
}

pub struct Conn {
    pub listener: SocketAddr,
    pub peer: SocketAddr,
    pub accepted: bool,
    // client -> broker
    pub c2s: VecDeque<u8>,
    pub c2s_eof: bool,
    pub reset: bool,
    /// with what reads and writes fail once it is reset
    errno: Option<i32>,
    read_wakers: Vec<Waker>,
    // broker -> client
    pub s2c: Vec<u8>,      // everything the client's kernel has accepted (received)
    pub s2c_read: usize,   // how much of it the client has read
    pub window: usize,     // how many unread bytes the network buffers
    pub auto_read: bool,   // client reads at once
    pub peer_closed: bool, // client does not receive any more
    write_wakers: Vec<Waker>,
    pub fin: bool,          // broker shut down its write side
    pub read_dropped: bool, // broker dropped its read half
    pub write_dropped: bool,
    pub short_io: bool, // partial reads/writes are choices on this connection
    pub last_io_step: u64,
    pub write_calls: u64,
}

impl Conn {
    /// the client observes end of stream
    pub fn closed_by_broker(&self) -> bool {
        self.fin
    }
    pub fn unread(&self) -> usize {
        self.s2c.len() - self.s2c_read
    }
}

struct Listener {
    pending: VecDeque<ConnId>,
    /// numbers of errors, the next one first
    accept_errors: VecDeque<i32>,
    wakers: Vec<Waker>,
    open: bool,
}

#[derive(Default)]
pub struct Net {
    listeners: BTreeMap<SocketAddr, Listener>,
    pub conns: Vec<Conn>,
    next_port: u16,
    pub peers: Peers,
    /// addresses that cannot be bound, and with what error
    pub unbindable: BTreeMap<SocketAddr, i32>,
}

/// Source addresses of clients.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum Peers {
    /// one host, a port per connection, never reused
    #[default]
    Ports,
    /// a host per connection, always the same port
    Hosts,
    /// one host; per listener the smallest port no live connection uses
    Reuse,
}

// ------------------------------------------------------------------- world

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub task: TaskId,
    pub message: String,
}

pub struct World {
    tasks: Vec<TaskSlot>,
    pub queue: VecDeque<TaskId>,
    pub net: Net,
    pub ch: Chooser,
    pub panics: Vec<PanicInfo>,
    pub polls: u64,
    pub ops: u64,
    pub now: u64,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    ctrl_c: u32,
    ctrl_c_wakers: Vec<Waker>,
    pub trace: Option<Vec<String>>,
    current: Option<TaskId>,
    exploring: bool,
    /// the task that ends the process when it ends
    main: Option<TaskId>,
    /// the code the process ended with
    pub exited: Option<i32>,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
    static IN_TASK: Cell<bool> = const { Cell::new(false) };
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _g = heap::Outside::enter();
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("no model-checking world on this thread")))
}
pub fn try_with<R>(f: impl FnOnce(&mut World) -> R) -> Option<R> {
    let _g = heap::Outside::enter();
    WORLD.try_with(|w| w.try_borrow_mut().ok().and_then(|mut w| w.as_mut().map(f))).ok().flatten()
}

fn hook_preempt() -> bool {
    if !IN_TASK.with(|t| t.get()) {
        return false;
    }
    with(|w| {
        w.ops += 1;
        // yielding only matters if somebody else could run in between
        if w.exploring && w.ch.explore.preempt && !w.queue.is_empty() {
            w.choose(2, Kind::Preempt) == 1
        } else {
            false
        }
    })
}
fn hook_branch(n: u32) -> u32 {
    try_with(|w| if w.exploring && w.ch.explore.select { w.choose(n as usize, Kind::Select) as u32 } else { 0 })
        .unwrap_or(0)
}

/// Starts a fresh world on this thread.
pub fn begin(devs: Vec<(u32, u32)>, explore: Explore, trace: bool) {
    tokio_real::mc_hooks::install(Some(hook_preempt), Some(hook_branch));
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            tasks: Vec::new(),
            queue: VecDeque::new(),
            net: Net { next_port: 50000, ..Default::default() },
            ch: Chooser { devs, next_dev: 0, taken: Vec::new(), explore, diverged: None },
            panics: Vec::new(),
            polls: 0,
            ops: 0,
            now: 0,
            timers: BTreeMap::new(),
            timer_seq: 0,
            ctrl_c: 0,
            ctrl_c_wakers: Vec::new(),
            trace: if trace { Some(Vec::new()) } else { None },
            current: None,
            exploring: false,
            main: None,
            exited: None,
        })
    });
}

/// Ends the world: drops all tasks (outside of any borrow) and returns the rest.
pub fn end() -> World {
    loop {
        let fut = with(|w| w.tasks.iter_mut().find_map(|t| {
            t.alive = false;
            t.on_cancel = None;
            t.fut.take()
        }));
        match fut {
            Some(f) => {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
            }
            None => break,
        }
    }
    tokio_real::mc_hooks::install(None, None);
    WORLD.with(|w| w.borrow_mut().take().unwrap())
}

impl World {
    /// Replaying a prefix must reach every recorded deviation.
    pub fn divergence(&self) -> Option<String> {
        self.ch.diverged.clone().or_else(|| {
            (self.ch.next_dev < self.ch.devs.len())
                .then(|| format!("deviation {:?} was never reached", self.ch.devs[self.ch.next_dev]))
        })
    }
    pub fn choose(&mut self, n: usize, kind: Kind) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.ch.taken.len() as u32;
        let c = match self.ch.devs.get(self.ch.next_dev) {
            Some(&(p, alt)) if p == i => {
                self.ch.next_dev += 1;
                if alt as usize >= n {
                    self.ch.diverged =
                        Some(format!("choice {} at point {} out of range {} ({:?})", alt, i, n, kind));
                    0
                } else {
                    alt
                }
            }
            _ => 0,
        };
        self.ch.taken.push(Point { n: n as u32, chosen: c, kind });
        c as usize
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = self.trace.as_mut() {
            t.push(f());
        }
    }
    pub fn set_exploring(&mut self, on: bool) {
        self.exploring = on;
    }
    pub fn exploring(&self) -> bool {
        self.exploring
    }
    pub fn live_tasks(&self) -> usize {
        self.tasks.iter().filter(|t| t.alive).count()
    }
    pub fn task_alive(&self, id: TaskId) -> bool {
        self.tasks.get(id).is_some_and(|t| t.alive)
    }
    pub fn timers_pending(&self) -> usize {
        self.timers.len()
    }
    /// The tasks in the run queue.
    pub fn runnable(&self) -> Vec<TaskId> {
        self.queue.iter().copied().collect()
    }
    pub fn next_timer(&self) -> Option<u64> {
        self.timers.keys().next().map(|k| k.0)
    }
}

// ------------------------------------------------------------- scheduling

pub(crate) fn spawn_raw(fut: BoxFut, on_cancel: Option<Box<dyn FnOnce()>>) -> TaskId {
    with(|w| {
        let id = w.tasks.len();
        let waker = Arc::new(TaskWaker { id, queued: AtomicBool::new(true) });
        w.tasks.push(TaskSlot { fut: Some(fut), waker, alive: true, aborted: false, on_cancel });
        w.queue.push_back(id);
        id
    })
}

pub(crate) fn abort(id: TaskId) {
    // like tokio: cancellation happens when the task is next scheduled
    let waker = with(|w| {
        let t = &mut w.tasks[id];
        if !t.alive {
            return None;
        }
        t.aborted = true;
        Some(t.waker.clone())
    });
    if let Some(wk) = waker {
        wk.wake();
    }
}

/// What `exit` unwinds a task with.
pub struct Exited(pub i32);

/// Ends the simulated process if it is a task of the code under test that calls.
pub fn exit_task(code: i32) {
    if IN_TASK.try_with(|t| t.get()).unwrap_or(false) {
        std::panic::resume_unwind(Box::new(Exited(code)));
    }
}

/// This task is the process's main function.
pub fn set_main(id: TaskId) {
    with(|w| w.main = Some(id));
}

/// The process has ended: nothing of it goes on.
fn end_process() {
    loop {
        let fut = with(|w| {
            w.queue.clear();
            w.timers.clear();
            w.tasks.iter_mut().find_map(|t| {
                t.alive = false;
                t.on_cancel = None;
                t.fut.take()
            })
        });
        match fut {
            Some(f) => {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
            }
            None => break,
        }
    }
    with(|w| {
        w.queue.clear();
        w.timers.clear();
    });
}

/// Polls the runnable task at position `idx` of the run queue.
pub fn run_task(idx: usize) {
    poll_task(idx);
    let over = with(|w| w.exited.is_some() || w.main.is_some_and(|m| !w.tasks[m].alive));
    if over && with(|w| w.tasks.iter().any(|t| t.alive || t.fut.is_some())) {
        with(|w| w.log(|| "the process has ended".into()));
        end_process();
    }
}
fn poll_task(idx: usize) {
    let (id, fut, waker, aborted) = with(|w| {
        let id = w.queue.remove(idx).expect("runnable");
        w.polls += 1;
        w.current = Some(id);
        let t = &mut w.tasks[id];
        t.waker.queued.store(false, Ordering::Relaxed);
        (id, t.fut.take(), t.waker.clone(), t.aborted)
    });
    let Some(mut fut) = fut else { return };
    if aborted {
        let cb = with(|w| {
            w.tasks[id].alive = false;
            w.tasks[id].on_cancel.take()
        });
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(fut)));
        if let Some(cb) = cb {
            cb();
        }
        return;
    }
    let waker: Waker = waker.into();
    let mut cx = Context::from_waker(&waker);
    IN_TASK.with(|t| t.set(true));
    heap::set_inside(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    IN_TASK.with(|t| t.set(false));
    heap::set_inside(false);
    match r {
        Ok(Poll::Pending) => with(|w| {
            w.tasks[id].fut = Some(fut);
            w.current = None;
        }),
        Ok(Poll::Ready(())) => {
            with(|w| {
                w.tasks[id].alive = false;
                w.tasks[id].on_cancel = None;
                w.current = None;
            });
            drop(fut);
        }
        Err(p) => {
            // spawn() catches panics of its own tasks; this is a raw task
            with(|w| {
                w.tasks[id].alive = false;
                w.current = None;
            });
            note_panic(&p);
        }
    }
}

pub fn note_panic(p: &Box<dyn Any + Send>) {
    if let Some(Exited(code)) = p.downcast_ref::<Exited>() {
        with(|w| {
            w.log(|| format!("the process calls exit({})", code));
            w.exited = Some(*code);
        });
        return;
    }
    let message = p
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into());
    let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let _ = try_with(|w| {
        let task = w.current.unwrap_or(usize::MAX);
        w.log(|| format!("PANIC in task {}: {} at {}", task, message, loc));
        w.panics.push(PanicInfo { task, message: format!("{} at {}", message, loc) });
    });
}

thread_local! { static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

/// Installs a process-wide panic hook that records locations instead of printing.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if IN_TASK.try_with(|t| t.get()).unwrap_or(false) {
            let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(loc));
        } else {
            eprintln!("harness panic at {}: {}", loc, i);
        }
    }));
}

/// Advances virtual time to the next timer and fires everything due.
pub fn fire_timers() -> bool {
    let wakers = with(|w| {
        let Some((&(t, _), _)) = w.timers.iter().next() else { return Vec::new() };
        w.now = w.now.max(t);
        let mut out = Vec::new();
        while let Some((&k, _)) = w.timers.iter().next() {
            if k.0 > w.now {
                break;
            }
            out.push(w.timers.remove(&k).unwrap());
        }
        out
    });
    let any = !wakers.is_empty();
    for wk in wakers {
        wk.wake();
    }
    any
}

pub(crate) fn add_timer(at: u64, wk: Waker) -> (u64, u64) {
    with(|w| {
        w.timer_seq += 1;
        let k = (at, w.timer_seq);
        w.timers.insert(k, wk);
        k
    })
}
pub(crate) fn del_timer(k: (u64, u64)) {
    let _ = try_with(|w| w.timers.remove(&k));
}
pub fn now() -> u64 {
    try_with(|w| w.now).unwrap_or(0)
}

/// Moves the clock to `at` (never back) without firing anything later than that.
pub fn advance_to(at: u64) {
    with(|w| w.now = w.now.max(at));
}
pub fn current_task() -> Option<TaskId> {
    if IN_TASK.with(|t| t.get()) { try_with(|w| w.current).flatten() } else { None }
}
/// Wall-clock time as code under test sees it on a thread with a world.
pub fn virtual_now() -> Option<u64> {
    WORLD.try_with(|w| w.try_borrow().ok().and_then(|w| w.as_ref().map(|w| w.now))).ok().flatten()
}

fn wake_all(v: Vec<Waker>) {
    for w in v {
        w.wake();
    }
}

// ------------------------------------------------------------- environment

/// Fires the interrupt signal.
pub fn interrupt() {
    let wk = with(|w| {
        w.ctrl_c += 1;
        w.log(|| "env: interrupt".into());
        std::mem::take(&mut w.ctrl_c_wakers)
    });
    wake_all(wk);
}
pub(crate) fn poll_ctrl_c(seen: &mut Option<u32>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|w| {
        let s = *seen.get_or_insert(0);
        if w.ctrl_c > s {
            *seen = Some(w.ctrl_c);
            Poll::Ready(Ok(()))
        } else {
            w.ctrl_c_wakers.push(cx.waker().clone());
            Poll::Pending
        }
    })
}

pub fn listeners() -> Vec<SocketAddr> {
    with(|w| w.net.listeners.iter().filter(|(_, l)| l.open).map(|(a, _)| *a).collect())
}

/// A client opens a TCP connection (it sits in the accept queue until accepted).
pub fn connect(addr: SocketAddr) -> Option<ConnId> {
    let (id, wk) = with(|w| {
        let open = w.net.listeners.get(&addr).is_some_and(|l| l.open);
        if !open {
            return (None, Vec::new());
        }
        let id = w.net.conns.len();
        let lo = IpAddr::V4(Ipv4Addr::LOCALHOST);
        let peer = match w.net.peers {
            Peers::Ports => {
                w.net.next_port += 1;
                SocketAddr::new(lo, w.net.next_port)
            }
            Peers::Hosts => SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, (id >> 16) as u8, (id >> 8) as u8, id as u8)), 40000),
            Peers::Reuse => {
                let used = |p: u16| w.net.conns.iter().any(|c| c.listener == addr && c.peer.port() == p && !c.reset && !(c.fin && c.c2s_eof));
                SocketAddr::new(lo, (40000..).find(|p| !used(*p)).unwrap())
            }
        };
        w.net.conns.push(Conn {
            listener: addr,
            peer,
            accepted: false,
            c2s: VecDeque::new(),
            c2s_eof: false,
            reset: false,
            errno: None,
            read_wakers: Vec::new(),
            s2c: Vec::new(),
            s2c_read: 0,
            window: usize::MAX,
            auto_read: true,
            peer_closed: false,
            write_wakers: Vec::new(),
            fin: false,
            read_dropped: false,
            write_dropped: false,
            short_io: false,
            last_io_step: 0,
            write_calls: 0,
        });
        w.log(|| format!("env: conn {} opens to {}", id, addr));
        let l = w.net.listeners.get_mut(&addr).unwrap();
        l.pending.push_back(id);
        (Some(id), std::mem::take(&mut l.wakers))
    });
    wake_all(wk);
    id
}

pub fn inject_accept_error(addr: SocketAddr) {
    inject_accept_errors(addr, 103 /* ECONNABORTED */, 1)
}
pub fn inject_accept_errors(addr: SocketAddr, errno: i32, n: usize) {
    let wk = with(|w| {
        let l = w.net.listeners.get_mut(&addr).unwrap();
        l.accept_errors.extend(std::iter::repeat(errno).take(n));
        std::mem::take(&mut l.wakers)
    });
    wake_all(wk);
}

pub fn client_send(id: ConnId, bytes: &[u8]) {
    let wk = with(|w| {
        w.log(|| format!("env: conn {} sends {} bytes {:02x?}", id, bytes.len(), &bytes[..bytes.len().min(48)]));
        let c = &mut w.net.conns[id];
        if !c.read_dropped && !c.c2s_eof && !c.reset {
            c.c2s.extend(bytes.iter());
        }
        std::mem::take(&mut c.read_wakers)
    });
    wake_all(wk);
}

pub fn client_close(id: ConnId, mode: CloseMode) {
    let wk = with(|w| {
        w.log(|| format!("env: conn {} {:?}", id, mode));
        let c = &mut w.net.conns[id];
        match mode {
            CloseMode::Fin => c.c2s_eof = true,
            CloseMode::Close => {
                c.c2s_eof = true;
                c.peer_closed = true;
            }
            CloseMode::Reset | CloseMode::Failed(_) => {
                if let CloseMode::Failed(e) = mode {
                    c.errno = Some(e);
                }
                c.reset = true;
                c.c2s_eof = true;
                c.peer_closed = true;
                c.c2s.clear();
            }
        }
        let mut v = std::mem::take(&mut c.read_wakers);
        v.append(&mut c.write_wakers);
        v
    });
    wake_all(wk);
}

/// The client reads up to `n` bytes; frees that much of the window.
pub fn client_read(id: ConnId, n: usize) -> usize {
    let (k, wk) = with(|w| {
        let c = &mut w.net.conns[id];
        let k = n.min(c.unread());
        c.s2c_read += k;
        w.log(|| format!("env: conn {} reads {}", id, k));
        (k, if k > 0 { std::mem::take(&mut w.net.conns[id].write_wakers) } else { Vec::new() })
    });
    wake_all(wk);
    k
}

/// Sets flow control: `window` unread bytes at most; `auto` = client reads everything at once.
pub fn set_flow(id: ConnId, window: usize, auto: bool) {
    let wk = with(|w| {
        let c = &mut w.net.conns[id];
        c.window = window;
        c.auto_read = auto;
        if auto {
            c.s2c_read = c.s2c.len();
        }
        std::mem::take(&mut c.write_wakers)
    });
    wake_all(wk);
}

// ---------------------------------------------------- broker side of sockets

pub(crate) fn net_bind(mut addr: SocketAddr) -> io::Result<SocketAddr> {
    with(|w| {
        if addr.port() == 0 {
            w.net.next_port += 1;
            addr.set_port(w.net.next_port);
        }
        if w.net.listeners.get(&addr).is_some_and(|l| l.open) {
            return Err(io::Error::new(io::ErrorKind::AddrInUse, "address in use"));
        }
        if let Some(e) = w.net.unbindable.get(&addr) {
            let e = io::Error::from_raw_os_error(*e);
            w.log(|| format!("broker: bind {}: {}", addr, e));
            return Err(e);
        }
        w.log(|| format!("broker: bind {}", addr));
        w.net.listeners.insert(
            addr,
            Listener { pending: VecDeque::new(), accept_errors: VecDeque::new(), wakers: Vec::new(), open: true },
        );
        Ok(addr)
    })
}
pub(crate) fn net_unbind(addr: SocketAddr) {
    let _ = try_with(|w| {
        w.log(|| format!("broker: listener {} closed", addr));
        let pend: Vec<ConnId> = match w.net.listeners.get_mut(&addr) {
            Some(l) => {
                l.open = false;
                l.pending.drain(..).collect()
            }
            None => Vec::new(),
        };
        for c in pend {
            // never accepted: reset by the kernel
            w.net.conns[c].fin = true;
            w.net.conns[c].read_dropped = true;
            w.net.conns[c].write_dropped = true;
        }
    });
}
pub(crate) fn net_poll_accept(addr: SocketAddr, cx: &mut Context<'_>) -> Poll<io::Result<(ConnId, SocketAddr)>> {
    with(|w| {
        let l = w.net.listeners.get_mut(&addr).expect("listener");
        if let Some(e) = l.accept_errors.pop_front() {
            w.log(|| format!("broker: accept error {}", e));
            return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
        }
        match l.pending.pop_front() {
            Some(id) => {
                w.net.conns[id].accepted = true;
                w.log(|| format!("broker: accepted conn {}", id));
                Poll::Ready(Ok((id, w.net.conns[id].peer)))
            }
            None => {
                l.wakers.push(cx.waker().clone());
                Poll::Pending
            }
        }
    })
}

/// How many bytes to hand over when `avail` are possible.
fn amount(w: &mut World, id: ConnId, avail: usize) -> usize {
    if avail > 1 && w.exploring && w.ch.explore.io && w.net.conns[id].short_io {
        // full, one byte, all but one byte
        let opts = if avail > 2 { 3 } else { 2 };
        match w.choose(opts, Kind::Io) {
            0 => avail,
            1 => 1,
            _ => avail - 1,
        }
    } else {
        avail
    }
}

pub(crate) fn net_poll_read(id: ConnId, cx: &mut Context<'_>, buf: &mut [u8], peek: bool) -> Poll<io::Result<usize>> {
    with(|w| {
        w.ops += 1;
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let c = &w.net.conns[id];
        if c.reset {
            if let Some(e) = c.errno {
                return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
            }
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset by peer")));
        }
        if c.c2s.is_empty() {
            if c.c2s_eof || c.read_dropped {
                return Poll::Ready(Ok(0));
            }
            w.net.conns[id].read_wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let avail = buf.len().min(c.c2s.len());
        let n = if peek { avail } else { amount(w, id, avail) };
        let c = &mut w.net.conns[id];
        if peek {
            for (i, b) in c.c2s.iter().take(n).enumerate() {
                buf[i] = *b;
            }
        } else {
            for (i, b) in c.c2s.drain(..n).enumerate() {
                buf[i] = b;
            }
        }
        Poll::Ready(Ok(n))
    })
}
pub(crate) fn net_poll_read_ready(id: ConnId, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|w| {
        let c = &mut w.net.conns[id];
        if c.reset || c.c2s_eof || !c.c2s.is_empty() {
            Poll::Ready(Ok(()))
        } else {
            c.read_wakers.push(cx.waker().clone());
            Poll::Pending
        }
    })
}

pub(crate) fn net_poll_write(id: ConnId, cx: Option<&mut Context<'_>>, buf: &[u8]) -> Poll<io::Result<usize>> {
    with(|w| {
        w.ops += 1;
        let c = &mut w.net.conns[id];
        c.write_calls += 1;
        if c.peer_closed {
            if let Some(e) = c.errno {
                return Poll::Ready(Err(io::Error::from_raw_os_error(e)));
            }
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "broken pipe")));
        }
        if c.fin {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "shut down")));
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let room = if c.auto_read { usize::MAX } else { c.window.saturating_sub(c.unread()) };
        if room == 0 {
            if let Some(cx) = cx {
                c.write_wakers.push(cx.waker().clone());
            }
            return Poll::Pending;
        }
        let n = amount(w, id, room.min(buf.len()));
        let c = &mut w.net.conns[id];
        c.s2c.extend_from_slice(&buf[..n]);
        if c.auto_read {
            c.s2c_read = c.s2c.len();
        }
        c.last_io_step += 1;
        w.log(|| format!("broker: conn {} gets {} bytes {:02x?}", id, n, &buf[..n.min(48)]));
        Poll::Ready(Ok(n))
    })
}
pub(crate) fn net_poll_write_ready(id: ConnId, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    with(|w| {
        let c = &mut w.net.conns[id];
        let room = if c.auto_read { usize::MAX } else { c.window.saturating_sub(c.unread()) };
        if room > 0 || c.peer_closed || c.fin {
            Poll::Ready(Ok(()))
        } else {
            c.write_wakers.push(cx.waker().clone());
            Poll::Pending
        }
    })
}
pub(crate) fn net_shutdown_write(id: ConnId) {
    let _ = try_with(|w| {
        if !w.net.conns[id].fin {
            w.log(|| format!("broker: conn {} write side closed", id));
        }
        w.net.conns[id].fin = true;
    });
}
pub(crate) fn net_drop_read(id: ConnId) {
    let _ = try_with(|w| {
        w.log(|| format!("broker: conn {} read half dropped", id));
        w.net.conns[id].read_dropped = true;
    });
}
pub(crate) fn net_drop_write(id: ConnId) {
    let _ = try_with(|w| {
        w.net.conns[id].write_dropped = true;
    });
}
pub(crate) fn net_addrs(id: ConnId) -> (SocketAddr, SocketAddr) {
    with(|w| (w.net.conns[id].listener, w.net.conns[id].peer))
}

// ------------------------------------------------------------------- memory

/// Counts the memory that tasks allocate (and nobody has freed), per thread.
pub mod heap {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        static INSIDE: Cell<bool> = const { Cell::new(false) };
        static OUTSIDE: Cell<u32> = const { Cell::new(0) };
        static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    }
    pub(super) fn set_inside(on: bool) {
        INSIDE.with(|i| i.set(on));
    }
    /// What happens while this lives belongs to the environment.
    pub(super) struct Outside(());
    impl Outside {
        #[inline]
        pub(super) fn enter() -> Outside {
            let _ = OUTSIDE.try_with(|o| o.set(o.get() + 1));
            Outside(())
        }
    }
    impl Drop for Outside {
        #[inline]
        fn drop(&mut self) {
            let _ = OUTSIDE.try_with(|o| o.set(o.get() - 1));
        }
    }
    /// (bytes, blocks)
    pub fn live() -> (i64, i64) {
        LIVE.with(|l| l.get())
    }

    /// The allocator of the system, each block preceded by a note whether it is counted.
    pub struct Counting;
    fn head(l: &Layout) -> usize {
        l.align().max(16)
    }
    fn whole(l: &Layout) -> Layout {
        let h = head(l);
        unsafe { Layout::from_size_align_unchecked(l.size() + h, h) }
    }
    fn add(bytes: i64, blocks: i64) {
        let _ = LIVE.try_with(|l| {
            let (a, b) = l.get();
            l.set((a + bytes, b + blocks))
        });
    }
    unsafe fn mark(p: *mut u8, l: &Layout) -> *mut u8 {
        if p.is_null() {
            return p;
        }
        let counted = INSIDE.try_with(|i| i.get()).unwrap_or(false) && OUTSIDE.try_with(|o| o.get()).unwrap_or(1) == 0;
        let u = p.add(head(l));
        *(u.sub(8) as *mut u64) = counted as u64;
        if counted {
            add(l.size() as i64, 1);
        }
        u
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            mark(System.alloc(whole(&l)), &l)
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            mark(System.alloc_zeroed(whole(&l)), &l)
        }
        unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
            if *(u.sub(8) as *mut u64) == 1 {
                add(-(l.size() as i64), -1);
            }
            System.dealloc(u.sub(head(&l)), whole(&l))
        }
        unsafe fn realloc(&self, u: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let p = System.realloc(u.sub(head(&l)), whole(&l), n + head(&l));
            if p.is_null() {
                return p;
            }
            let u = p.add(head(&l));
            if *(u.sub(8) as *mut u64) == 1 {
                add(n as i64 - l.size() as i64, 0);
            }
            u
        }
    }
}
