//! The broker as it is released - its own main, the real tokio, a process of its own - over loopback.
//!
//! What the explorer finds out holds for the broker linked against a stand-in for tokio. Here the
//! same histories run against the real binary in lock step with the same model: that is what binds
//! the explored executions (and the model) to the program that users run.
use crate::codec::*;
use crate::env::{env, passwd_text, USERS};
use crate::explore::{self, Ctx, Fail, Fallible, Family};
use crate::hist::*;
use crate::model::*;
use crate::sys::{L1, L2, L3};
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::mc::CloseMode;

/// How long something that must happen may take before it counts as not happening.
pub const PATIENCE: Duration = Duration::from_secs(20);
/// How long something may take that this property does not judge.
const BRIEF: Duration = Duration::from_secs(3);

pub fn binary() -> PathBuf {
    let root = std::env::var_os("MC_ROOT").map(PathBuf::from).unwrap_or_else(|| ".".into());
    root.join("target/real/debug/ratelmq")
}

/// A loopback host nobody else uses.
pub fn host() -> String {
    static NEXT: AtomicU32 = AtomicU32::new(0);
    let n = std::process::id().wrapping_mul(4099).wrapping_add(NEXT.fetch_add(1, Ordering::Relaxed));
    format!("127.{}.{}.{}", 16 + (n >> 14 & 0x3f), n >> 7 & 0x7f, 1 + (n & 0x7f))
}
/// A directory for one execution; removed with the guard.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static NEXT: AtomicU32 = AtomicU32::new(0);
        let d = env().dir.join(format!("real-{}-{}", std::process::id(), NEXT.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// A process that does not outlive its owner.
pub struct Proc(pub Child);
impl Proc {
    pub fn spawn(c: &mut Command) -> Proc {
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        Proc(c.spawn().unwrap_or_else(|e| panic!("{:?}: {}", c, e)))
    }
    pub fn ended(&mut self) -> Option<ExitStatus> {
        self.0.try_wait().expect("wait")
    }
    pub fn wait(&mut self, limit: Duration) -> Option<ExitStatus> {
        let t0 = Instant::now();
        loop {
            if let Some(s) = self.ended() {
                return Some(s);
            }
            if t0.elapsed() > limit {
                return None;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    pub fn signal(&self, sig: i32) {
        unsafe { libc::kill(self.0.id() as i32, sig) };
    }
    /// Whether it has a handler for the signal.
    pub fn catches(&self, sig: i32) -> bool {
        let s = std::fs::read_to_string(format!("/proc/{}/status", self.0.id())).unwrap_or_default();
        let m = s.lines().find_map(|l| l.strip_prefix("SigCgt:")).and_then(|l| u64::from_str_radix(l.trim(), 16).ok()).unwrap_or(0);
        m >> (sig - 1) & 1 == 1
    }
    /// Runs and accepts on all of `addrs`, or how it ended; None: neither.
    pub fn up(&mut self, addrs: &[SocketAddr]) -> Option<Result<(), ExitStatus>> {
        let t0 = Instant::now();
        for a in addrs {
            loop {
                if let Some(s) = self.ended() {
                    return Some(Err(s));
                }
                if TcpStream::connect(a).is_ok() {
                    break;
                }
                if t0.elapsed() > PATIENCE {
                    return None;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        Some(Ok(()))
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}

pub fn command(dir: &PathBuf) -> Command {
    let mut c = Command::new(binary());
    c.current_dir(dir).env_clear().stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::null());
    if crate::explore::is_logging() {
        c.env("RUST_LOG", "trace");
    }
    c
}

pub struct Broker {
    pub proc: Proc,
    pub addrs: Vec<SocketAddr>,
    pub dir: Scratch,
}
impl Broker {
    pub fn start(listeners: usize, passwd: &str, extra: impl FnOnce(&mut Command, &PathBuf)) -> Fallible<Broker> {
        let dir = Scratch::new();
        let h = host();
        let addrs: Vec<SocketAddr> = (0..listeners).map(|i| format!("{}:{}", h, 1883 + i).parse().unwrap()).collect();
        let (pw, cfg) = (dir.0.join("passwd"), dir.0.join("ratelmq.toml"));
        std::fs::write(&pw, passwd).unwrap();
        let l: Vec<String> = addrs.iter().map(|a| a.to_string()).collect();
        crate::env::write_config(&cfg, &l.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &pw);
        let mut c = command(&dir.0);
        c.arg("-c").arg(&cfg);
        extra(&mut c, &dir.0);
        let mut b = Broker { proc: Proc::spawn(&mut c), addrs, dir };
        let addrs = b.addrs.clone();
        match b.proc.up(&addrs) {
            Some(Ok(())) => {}
            Some(Err(s)) => return Err(Fail::new("boot", format!("the broker did not start: {}", s))),
            None => return Err(Fail::new("boot", format!("the broker does not listen on {:?}", addrs))),
        }
        Ok(b)
    }
    /// The signal that stops it, once it waits for it; how it ends, if it ends.
    pub fn interrupt(&mut self) -> Option<ExitStatus> {
        let t0 = Instant::now();
        while !self.proc.catches(libc::SIGINT) && t0.elapsed() < PATIENCE {
            std::thread::sleep(Duration::from_millis(1));
        }
        self.proc.signal(libc::SIGINT);
        self.proc.wait(PATIENCE)
    }
}

pub struct Conn {
    sock: Option<TcpStream>,
    pub buf: Vec<u8>,
    parsed: usize,
    pub out: Vec<Out>,
    pub bad: Option<String>,
    /// the broker closed it
    pub eof: bool,
}
impl Conn {
    pub fn open(a: SocketAddr) -> Fallible<Conn> {
        let sock = TcpStream::connect_timeout(&a, PATIENCE).map_err(|e| Fail::new("refused", format!("connection to {}: {}", a, e)))?;
        sock.set_nodelay(true).unwrap();
        sock.set_nonblocking(true).unwrap();
        Ok(Conn { sock: Some(sock), buf: vec![], parsed: 0, out: vec![], bad: None, eof: false })
    }
    /// Everything is sent, or the broker does not take it.
    pub fn send(&mut self, mut b: &[u8]) {
        let t0 = Instant::now();
        while !b.is_empty() {
            let Some(s) = &mut self.sock else { return };
            match s.write(b) {
                Ok(n) => b = &b[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    self.collect();
                    std::thread::sleep(Duration::from_millis(1));
                    if t0.elapsed() > PATIENCE {
                        return;
                    }
                }
                Err(_) => return,
            }
        }
    }
    /// What the kernel takes without waiting, within a moment.
    pub fn try_send(&mut self, b: &[u8]) -> usize {
        let mut n = 0;
        let Some(s) = &mut self.sock else { return 0 };
        for _ in 0..20 {
            match s.write(&b[n..]) {
                Ok(k) => n += k,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => std::thread::sleep(Duration::from_millis(2)),
                Err(_) => return n,
            }
            if n == b.len() {
                break;
            }
        }
        n
    }
    /// Little room for what arrives.
    pub fn narrow(&self) {
        if let Some(s) = &self.sock {
            let n: libc::c_int = 65_536;
            unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, &n as *const _ as *const _, std::mem::size_of_val(&n) as u32) };
        }
    }
    /// One read of at most so many bytes.
    pub fn read_some(&mut self, n: usize) {
        if let Some(s) = &mut self.sock {
            let mut b = vec![0u8; n];
            if let Ok(k) = s.read(&mut b) {
                self.eof |= k == 0;
                self.buf.extend_from_slice(&b[..k]);
            }
        }
    }
    /// Drops what was received and looked at.
    pub fn forget(&mut self) {
        self.out.clear();
        self.buf.drain(..self.parsed);
        self.parsed = 0;
    }
    /// closed by this side
    pub fn gone(&self) -> bool {
        self.sock.is_none()
    }
    pub fn close(&mut self, m: CloseMode) {
        self.collect();
        match m {
            CloseMode::Fin => {
                if let Some(s) = &self.sock {
                    let _ = s.shutdown(Shutdown::Write);
                }
            }
            CloseMode::Close => self.sock = None,
            // what breaks on the way cannot be brought about here
            CloseMode::Reset | CloseMode::Failed(_) => {
                if let Some(s) = self.sock.take() {
                    let l = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe {
                        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const _, std::mem::size_of_val(&l) as u32)
                    };
                }
            }
        }
    }
    pub fn collect(&mut self) {
        if let Some(s) = &mut self.sock {
            let mut b = [0u8; 65536];
            loop {
                match s.read(&mut b) {
                    Ok(0) => {
                        self.eof = true;
                        break;
                    }
                    Ok(n) => self.buf.extend_from_slice(&b[..n]),
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => {
                        self.eof = true;
                        break;
                    }
                }
            }
        }
        while self.bad.is_none() && self.parsed < self.buf.len() {
            match parse_server(&self.buf[self.parsed..]) {
                Parse::Packet(o, n) => {
                    self.parsed += n;
                    self.out.push(o);
                }
                Parse::NeedMore => break,
                Parse::Bad(e) => self.bad = Some(e),
            }
        }
    }
}

/// The real broker and the model side by side.
pub struct RealLock {
    pub broker: Broker,
    pub conns: Vec<Conn>,
    pub model: Model,
    pub mask: Mask,
    pub exp: Vec<Vec<Exp>>,
    /// the client is not there any more, or does not receive any more
    pub gone: Vec<bool>,
    /// its client does not read at present
    pub deaf: Vec<bool>,
    /// it sent what may be recognized as malformed early
    unknown: Vec<bool>,
    pending: Vec<Vec<u8>>,
    pub seq: u64,
    pub log: Vec<String>,
}
impl RealLock {
    pub fn boot(listeners: usize, mask: Mask) -> Fallible<RealLock> {
        RealLock::boot_with(listeners, mask, &passwd_text(USERS), USERS)
    }
    pub fn boot_with(listeners: usize, mask: Mask, passwd: &str, users: &[(&str, &str)]) -> Fallible<RealLock> {
        RealLock::boot_extra(listeners, mask, passwd, users, |_| {})
    }
    /// With a limit on a resource (setrlimit(2)).
    pub fn boot_limited(mask: Mask, resource: libc::__rlimit_resource_t, limit: u64) -> Fallible<RealLock> {
        RealLock::boot_extra(1, mask, &passwd_text(USERS), USERS, |c| unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(move || {
                let l = libc::rlimit { rlim_cur: limit, rlim_max: limit };
                if libc::setrlimit(resource, &l) == 0 { Ok(()) } else { Err(std::io::Error::last_os_error()) }
            });
        })
    }
    pub fn boot_extra(listeners: usize, mask: Mask, passwd: &str, users: &[(&str, &str)], extra: impl FnOnce(&mut Command)) -> Fallible<RealLock> {
        let broker = Broker::start(listeners, passwd, |c, _| extra(c))?;
        Ok(RealLock { broker, conns: vec![], model: Model::new(users), mask, exp: vec![], gone: vec![], deaf: vec![], unknown: vec![], pending: vec![], seq: 0, log: vec![] })
    }
    fn addr(&self, a: &str) -> SocketAddr {
        let i = [L1, L2, L3].iter().position(|x| *x == a).expect("listener");
        self.broker.addrs[i % self.broker.addrs.len()]
    }
    pub fn open(&mut self, a: &str) -> Fallible<usize> {
        let a = self.addr(a);
        self.conns.push(Conn::open(a).map_err(|f| self.ctx(f))?);
        self.exp.push(vec![]);
        self.gone.push(false);
        self.deaf.push(false);
        self.unknown.push(false);
        self.pending.push(vec![]);
        let c = self.model.open();
        self.log.push(format!("open #{}", c));
        Ok(c)
    }
    pub fn send(&mut self, c: usize, pkts: &[Pkt]) -> Fallible<()> {
        let pkts: Vec<Pkt> = pkts
            .iter()
            .map(|p| match p {
                Pkt::Publish { topic, payload, qos, retain, dup, id } if payload.is_empty() => {
                    self.seq += 1;
                    Pkt::Publish { topic: topic.clone(), payload: format!("m{}", self.seq).into_bytes(), qos: *qos, retain: *retain, dup: *dup, id: *id }
                }
                p => p.clone(),
            })
            .collect();
        self.log.push(format!("#{} sends {:?}", c, pkts));
        self.conns[c].send(&encode_all(&pkts));
        if !self.gone[c] {
            for p in &pkts {
                for (i, e) in self.model.step(c, p) {
                    self.exp[i].push(e);
                }
            }
        }
        // the answer to what comes last says that the broker is done with what came before
        let quiet = !matches!(pkts.last(), None | Some(Pkt::Connect { .. } | Pkt::Subscribe { .. } | Pkt::Unsubscribe { .. } | Pkt::PingReq));
        if quiet && !self.gone[c] && self.model.live(c) {
            self.conns[c].send(&Pkt::PingReq.encode());
            self.exp[c].extend(self.model.step(c, &Pkt::PingReq).into_iter().map(|x| x.1));
        }
        self.settle()
    }
    /// Raw bytes, interpreted by the reference decoder together with what came before.
    pub fn send_raw(&mut self, c: usize, b: &[u8]) -> Fallible<()> {
        self.log.push(format!("#{} sends bytes {}", c, hex(b)));
        self.conns[c].send(b);
        self.pending[c].extend_from_slice(b);
        let (pkts, tail, pos) = classify(&self.pending[c]);
        self.pending[c].drain(..pos);
        for p in &pkts {
            for (i, e) in self.model.step(c, p) {
                self.exp[i].push(e);
            }
        }
        self.unknown[c] = matches!(tail, Tail::MaybeEarly(_)) && self.model.conns[c].phase != Phase::Dead;
        match tail {
            Tail::Malformed(_) => self.model.end(c),
            Tail::Unspecified(x) => return Err(Fail::new("harness", format!("{} is not judged", x))),
            _ => {}
        }
        self.settle()
    }
    pub fn close(&mut self, c: usize, m: CloseMode) -> Fallible<()> {
        self.log.push(format!("#{} closes ({:?})", c, m));
        self.conns[c].close(m);
        self.gone[c] = true;
        self.model.end(c);
        self.settle()
    }
    fn judge(&self, mask: &Mask) -> Fallible<()> {
        for (i, c) in self.conns.iter().enumerate() {
            if let Some(b) = &c.bad {
                return Err(Fail::new("garbled", format!("connection #{} received malformed data: {}", i, b)));
            }
            if c.sock.is_none() || self.deaf[i] || self.unknown[i] {
                continue;
            }
            compare(&self.exp[i], &c.out, mask).map_err(|f| f.ctx(format!("connection #{}", i)))?;
            if mask.closes {
                let dead = self.model.conns[i].phase == Phase::Dead;
                if c.eof && !dead {
                    return Err(Fail::new("closed", format!("the broker closed connection #{} although nothing was wrong with it", i)));
                }
                if !c.eof && dead {
                    return Err(Fail::new("not-closed", format!("the broker keeps connection #{} open although its session is over", i)));
                }
            }
        }
        Ok(())
    }
    /// Waits until everything that must happen has happened.
    pub fn settle(&mut self) -> Fallible<()> {
        explore::count_transitions(1);
        let t0 = Instant::now();
        loop {
            for (c, _) in self.conns.iter_mut().zip(&self.deaf).filter(|x| !x.1) {
                c.collect();
            }
            if self.judge(&ALL).is_ok() {
                return Ok(());
            }
            if let Some(s) = self.broker.proc.ended() {
                return Err(self.ctx(Fail::new("stopped", format!("the broker terminated: {}", s))));
            }
            let r = self.judge(&self.mask);
            if t0.elapsed() > if r.is_ok() { BRIEF } else { PATIENCE } {
                return r.map_err(|f| self.ctx(f));
            }
            let mut fds: Vec<libc::pollfd> = self
                .conns
                .iter()
                .zip(&self.deaf)
                .filter(|(c, deaf)| !c.eof && !**deaf)
                .filter_map(|(c, _)| c.sock.as_ref())
                .map(|s| libc::pollfd { fd: s.as_raw_fd(), events: libc::POLLIN, revents: 0 })
                .collect();
            unsafe { libc::poll(fds.as_mut_ptr(), fds.len() as u64, 20) };
        }
    }
    /// The interrupt ends the process, and with it all connections.
    pub fn stop(&mut self) -> Fallible<()> {
        self.log.push("interrupt".into());
        match self.broker.interrupt() {
            Some(s) if s.code() == Some(0) => {}
            Some(s) => return Err(self.ctx(Fail::new("status", format!("the interrupted broker ends with {}", s)))),
            None => return Err(self.ctx(Fail::new("not-stopped", "the broker goes on although it was interrupted"))),
        }
        let t0 = Instant::now();
        for i in 0..self.conns.len() {
            loop {
                let c = &mut self.conns[i];
                c.collect();
                if c.sock.is_none() || c.eof {
                    break;
                }
                if t0.elapsed() > PATIENCE {
                    return Err(self.ctx(Fail::new("not-closed", format!("connection #{} outlives the broker", i))));
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        for a in &self.broker.addrs {
            if TcpStream::connect(a).is_ok() {
                return Err(self.ctx(Fail::new("not-closed", format!("{} still accepts connections", a))));
            }
        }
        Ok(())
    }
    pub fn ctx(&self, f: Fail) -> Fail {
        f.ctx(format!("with the real binary, after {}", self.log.join(" | ")))
    }
    /// Every live connection gets an answer, two newcomers can talk to each other, and nothing else turns up.
    pub fn probe(&mut self, addr: &str) -> Fallible<()> {
        let a = self.open(addr)?;
        self.send(a, &[connect("probe-a")])?;
        self.send(a, &[subscribe(7, &["probe/x"])])?;
        let b = self.open(addr)?;
        self.send(b, &[connect("probe-b"), publish("probe/x", ""), Pkt::PingReq])?;
        for c in 0..self.conns.len() {
            if self.model.live(c) {
                self.send(c, &[Pkt::PingReq])?;
            }
        }
        Ok(())
    }
}

fn apply(l: &mut RealLock, slots: &mut [Option<usize>], addrs: &[&'static str], h: &H) -> Fallible<()> {
    let addr = |s: usize| addrs[s % addrs.len()];
    match h {
        H::Idle(_) => {}
        H::Tcp(s) => slots[*s] = Some(l.open(addr(*s))?),
        H::Open(s, p) => {
            let c = l.open(addr(*s))?;
            slots[*s] = Some(c);
            l.send(c, p)?;
        }
        H::Send(s, p) => {
            if let Some(c) = slots[*s] {
                l.send(c, p)?;
            }
        }
        H::Cut(s, b, m) => {
            if let Some(c) = slots[*s] {
                l.conns[c].send(b);
                l.close(c, *m)?;
            }
        }
        H::End(s, m) => {
            if let Some(c) = slots[*s] {
                match m {
                    EndMode::Disconnect => l.send(c, &[Pkt::Disconnect])?,
                    EndMode::Fin => l.close(c, CloseMode::Fin)?,
                    EndMode::Close => l.close(c, CloseMode::Close)?,
                    EndMode::Reset => l.close(c, CloseMode::Reset)?,
                    EndMode::Failed(e) => l.close(c, CloseMode::Failed(*e))?,
                    EndMode::Malformed => l.send(c, &[Pkt::Raw(vec![0x80, 5, 0, 1, 0, 0, 0])])?,
                    EndMode::SecondConnect => l.send(c, &[connect("second")])?,
                }
            }
        }
    }
    Ok(())
}

fn listeners(spec: &Spec) -> usize {
    1 + spec.addrs.iter().filter_map(|a| [L1, L2, L3].iter().position(|x| x == a)).max().unwrap_or(0)
}

pub fn run_spec(spec: &Spec, seq: &[u16], stop: bool, _ctx: &Ctx) -> Fallible<()> {
    let mut l = RealLock::boot(listeners(spec), spec.mask)?;
    let mut slots: Vec<Option<usize>> = vec![None; spec.slots];
    let all: Vec<&H> = spec.setup.iter().chain(seq.iter().map(|i| &spec.alphabet[*i as usize])).chain(&spec.finale).collect();
    for h in all {
        apply(&mut l, &mut slots, &spec.addrs, h)?;
    }
    if stop {
        l.stop()?;
    } else {
        l.probe(spec.addrs[0])?;
    }
    explore::visit(&l.model.conns);
    explore::outcome(&l.exp);
    explore::sample(|| l.log.join(" | "));
    Ok(())
}

/// The histories of the depths of `spec`, on the real binary; if `stop`, the broker is interrupted at the end of each.
pub fn families(spec: &Spec, depths: &[usize], stop: bool) -> Vec<Family> {
    let spec = Arc::new(spec.clone());
    depths
        .iter()
        .map(|&d| {
            let seqs = Arc::new(histories(&spec, d));
            let (s1, q1) = (spec.clone(), seqs.clone());
            let (s2, q2) = (spec.clone(), seqs.clone());
            Family::new(
                format!("real binary: {} depth {}", spec.name, d),
                seqs.len() as u64,
                move |i, ctx| run_spec(&s1, &q1[i as usize], stop, ctx),
                move |i| format!("{:?}", q2[i as usize].iter().map(|l| &s2.alphabet[*l as usize]).collect::<Vec<_>>()),
            )
        })
        .collect()
}

/// The histories of `spec` in the simulation, and the short ones also on the real binary.
pub fn bound(spec: Spec, depths: &[usize], real_depths: &[usize]) -> Vec<Family> {
    let real = families(&spec, real_depths, false);
    let mut v = crate::hist::families(spec, depths);
    v.extend(real);
    v
}
