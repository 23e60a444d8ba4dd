//! Executions in processes of their own.
//!
//! The explorer runs one execution after the other (and several at once) in one process, each on a
//! fresh thread. That is only sound as long as the code under test keeps no state in statics: a
//! broker would then see what another one left. If the program has writable statics of the code
//! under test - or an execution does not repeat as it was - every execution is run in a process
//! forked from one in which nothing has run yet.
use crate::explore::{run_here, Devs, Exec, Fail, Family, Rec};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Mutex, OnceLock};
use tokio::mc::{Kind, Point};

static POOL: OnceLock<Vec<Mutex<std::fs::File>>> = OnceLock::new();

pub fn active() -> bool {
    POOL.get().is_some()
}
static OWN: AtomicBool = AtomicBool::new(false);
/// Whether this process runs just one execution.
pub fn in_own_process() -> bool {
    OWN.load(Ordering::Relaxed)
}
pub fn wanted() -> bool {
    std::env::var_os("MC_ISOLATE").is_some() || writable_statics().unwrap_or(false)
}
/// Starts over, isolated.
pub fn again() -> ! {
    use std::os::unix::process::CommandExt;
    eprintln!("an execution depends on what ran before it: starting over, each in a process of its own");
    crate::env::cleanup();
    let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("MC_ISOLATE", "1").exec();
    panic!("exec: {}", e);
}

/// Whether this program has writable static data of the code under test.
fn writable_statics() -> Option<bool> {
    let b = std::fs::read("/proc/self/exe").ok()?;
    let u64at = |o: usize| Some(u64::from_le_bytes(b.get(o..o + 8)?.try_into().ok()?) as usize);
    let u32at = |o: usize| Some(u32::from_le_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize);
    let u16at = |o: usize| Some(u16::from_le_bytes(b.get(o..o + 2)?.try_into().ok()?) as usize);
    if b.get(..5)? != b"\x7fELF\x02" {
        return None;
    }
    let (shoff, shentsize, shnum) = (u64at(0x28)?, u16at(0x3a)?, u16at(0x3c)?);
    let sec = |i: usize| shoff + i * shentsize;
    for i in 0..shnum {
        // SHT_SYMTAB
        if u32at(sec(i) + 4)? != 2 {
            continue;
        }
        let (off, size, link) = (u64at(sec(i) + 0x18)?, u64at(sec(i) + 0x20)?, u32at(sec(i) + 0x28)?);
        let (stroff, strsize) = (u64at(sec(link) + 0x18)?, u64at(sec(link) + 0x20)?);
        for k in 0..size / 24 {
            let s = off + k * 24;
            let (name, info, shndx, len) = (u32at(s)?, b[s + 4], u16at(s + 6)?, u64at(s + 16)?);
            // an object in a section that is written to
            if info & 15 != 1 || shndx == 0 || shndx >= shnum || len == 0 {
                continue;
            }
            let (flags, sname) = (u64at(sec(shndx) + 8)?, u32at(sec(shndx))?);
            let shstr = sec(u16at(0x3e)?);
            let n = u64at(shstr + 0x18)? + sname;
            if flags & 1 == 0 || b.get(n..n + 12)? == b".data.rel.ro" {
                continue;
            }
            let t = b.get(stroff + name..stroff + strsize)?;
            let t = &t[..t.iter().position(|c| *c == 0)?];
            if t.windows(8).any(|w| w == b"7ratelmq") {
                return Some(true);
            }
        }
    }
    Some(false)
}

// ------------------------------------------------------------ what goes over the wire

#[derive(Default)]
struct Buf(Vec<u8>, usize);
impl Buf {
    fn n(&mut self, n: u64) {
        self.0.extend(n.to_le_bytes());
    }
    fn s(&mut self, s: &str) {
        self.n(s.len() as u64);
        self.0.extend(s.as_bytes());
    }
    fn o(&mut self, s: &Option<String>) {
        self.n(s.is_some() as u64);
        if let Some(s) = s {
            self.s(s)
        }
    }
    fn gn(&mut self) -> u64 {
        let v = u64::from_le_bytes(self.0[self.1..self.1 + 8].try_into().unwrap());
        self.1 += 8;
        v
    }
    fn gs(&mut self) -> String {
        let n = self.gn() as usize;
        let s = String::from_utf8_lossy(&self.0[self.1..self.1 + n]).into_owned();
        self.1 += n;
        s
    }
    fn go(&mut self) -> Option<String> {
        if self.gn() == 1 {
            Some(self.gs())
        } else {
            None
        }
    }
}
fn put(e: &Exec) -> Vec<u8> {
    let mut b = Buf::default();
    match &e.result {
        Ok(()) => b.n(0),
        Err(f) => {
            b.n(1);
            b.s(&f.kind);
            b.s(&f.msg);
        }
    }
    b.o(&e.harness_panic);
    let r = &e.rec;
    b.n(r.points.len() as u64);
    for p in &r.points {
        b.n(p.n as u64);
        b.n(p.chosen as u64);
        b.n(p.kind as u64);
    }
    b.o(&r.diverged);
    b.n(r.trace.len() as u64);
    r.trace.iter().for_each(|t| b.s(t));
    for n in [r.transitions, r.polls, r.outcome, r.worlds, r.traces] {
        b.n(n);
    }
    b.n(r.states.len() as u64);
    r.states.iter().for_each(|t| b.n(*t));
    b.o(&r.sample);
    b.0
}
fn get(v: Vec<u8>) -> Exec {
    let mut b = Buf(v, 0);
    let result = if b.gn() == 0 { Ok(()) } else { Err(Fail { kind: b.gs(), msg: b.gs() }) };
    let harness_panic = b.go();
    let mut r = Rec::default();
    for _ in 0..b.gn() {
        let (n, chosen, k) = (b.gn() as u32, b.gn() as u32, b.gn());
        let kind = *Kind::ALL.iter().find(|x| **x as u64 == k).unwrap();
        r.points.push(Point { n, chosen, kind });
    }
    r.diverged = b.go();
    for _ in 0..b.gn() {
        let s = b.gs();
        r.trace.push(s);
    }
    (r.transitions, r.polls, r.outcome, r.worlds, r.traces) = (b.gn(), b.gn(), b.gn(), b.gn(), b.gn());
    for _ in 0..b.gn() {
        let n = b.gn();
        r.states.push(n);
    }
    r.sample = b.go();
    Exec { result, rec: r, harness_panic }
}

fn send(f: &mut std::fs::File, b: &[u8]) -> std::io::Result<()> {
    f.write_all(&(b.len() as u64).to_le_bytes())?;
    f.write_all(b)
}
fn receive(f: &mut std::fs::File) -> std::io::Result<Vec<u8>> {
    let mut n = [0; 8];
    f.read_exact(&mut n)?;
    let mut b = vec![0; u64::from_le_bytes(n) as usize];
    f.read_exact(&mut b)?;
    Ok(b)
}

/// Forks the processes that fork. Nothing may have run yet, and no other thread may.
pub fn start(fams: &[Family], n: usize) {
    let mut v = vec![];
    for _ in 0..n {
        let mut fd = [0; 2];
        assert_eq!(unsafe { libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM | libc::SOCK_CLOEXEC, 0, fd.as_mut_ptr()) }, 0, "socketpair");
        match unsafe { libc::fork() } {
            -1 => panic!("fork"),
            0 => {
                unsafe {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(fd[0]);
                }
                drop(v);
                serve(unsafe { std::fs::File::from_raw_fd(fd[1]) }, fams);
                unsafe { libc::_exit(0) }
            }
            _ => unsafe {
                libc::close(fd[1]);
                v.push(Mutex::new(std::fs::File::from_raw_fd(fd[0])));
            },
        }
    }
    let _ = POOL.set(v);
}

fn serve(mut io: std::fs::File, fams: &[Family]) {
    while let Ok(req) = receive(&mut io) {
        let mut b = Buf(req, 0);
        let name = b.gs();
        let (index, trace) = (b.gn(), b.gn() == 1);
        let devs: Devs = (0..b.gn()).map(|_| (b.gn() as u32, b.gn() as u32)).collect();
        let f = fams.iter().find(|f| f.name == name).expect("family");
        let mut fd = [0; 2];
        unsafe {
            assert_eq!(libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC), 0, "pipe");
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let s = f.cpu_limit.ceil() as u64 + 1;
                libc::setrlimit(libc::RLIMIT_CPU, &libc::rlimit { rlim_cur: s, rlim_max: s + 2 });
                OWN.store(true, Ordering::Relaxed);
                crate::explore::logging(f.logged);
                let e = run_here(f, index, &devs, trace, None);
                let mut out = std::fs::File::from_raw_fd(fd[1]);
                let _ = out.write_all(&put(&e));
                libc::_exit(0);
            }
            libc::close(fd[1]);
            let mut p = std::fs::File::from_raw_fd(fd[0]);
            let mut got = vec![];
            let t0 = std::time::Instant::now();
            let limit = std::time::Duration::from_secs_f64(f.cpu_limit * 3.0 + 30.0);
            let mut late = false;
            loop {
                let mut pf = libc::pollfd { fd: fd[0], events: libc::POLLIN, revents: 0 };
                if libc::poll(&mut pf, 1, 1000) > 0 {
                    let mut chunk = [0; 65536];
                    match p.read(&mut chunk) {
                        Ok(0) | Err(_) => break,
                        Ok(n) => got.extend(&chunk[..n]),
                    }
                } else if t0.elapsed() > limit {
                    late = true;
                    libc::kill(pid, libc::SIGKILL);
                    break;
                }
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if !libc::WIFEXITED(st) || libc::WEXITSTATUS(st) != 0 {
                let f = if late || (libc::WIFSIGNALED(st) && [libc::SIGXCPU, libc::SIGKILL].contains(&libc::WTERMSIG(st))) {
                    Fail::new("hang", "one step of the broker does not finish")
                } else {
                    Fail::new("crash", "the broker ends the process (abort, stack overflow, exit or panic while panicking)")
                };
                got = put(&Exec { result: Err(f), rec: Rec::default(), harness_panic: None });
            }
            if send(&mut io, &got).is_err() {
                return;
            }
        }
    }
}

pub fn execute(worker: usize, f: &Family, index: u64, devs: &Devs, trace: bool) -> Exec {
    let pool = POOL.get().unwrap();
    let mut b = Buf::default();
    b.s(&f.name);
    b.n(index);
    b.n(trace as u64);
    b.n(devs.len() as u64);
    for d in devs {
        b.n(d.0 as u64);
        b.n(d.1 as u64);
    }
    let mut io = pool[worker % pool.len()].lock().unwrap();
    match send(&mut io, &b.0).and_then(|_| receive(&mut io)) {
        Ok(v) => get(v),
        Err(e) => Exec { result: Ok(()), rec: Rec::default(), harness_panic: Some(format!("the process that runs executions is gone: {}", e)) },
    }
}
