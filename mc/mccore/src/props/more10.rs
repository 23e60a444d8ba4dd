//! The real program when its resources run out.
use crate::codec::*;
use crate::env::{passwd_text, USERS};
use crate::explore::*;
use crate::model::{ALL, DELIVERIES};
use crate::real::*;
use crate::report::Tier;
use crate::sys::*;
use tokio::mc::CloseMode;
use std::process::Command;

#[derive(Clone, Copy, Debug)]
struct Files {
    /// how many files the broker may open
    limit: u64,
    /// it has one processor only, and with it one thread for all its tasks
    one_cpu: bool,
    listeners: usize,
    /// what those who take them say
    says: usize,
    /// how many of them there are
    n: usize,
    /// how they go; None: the broker is interrupted instead
    goes: Option<CloseMode>,
}

fn limit(c: &mut Command, files: u64, one_cpu: bool) {
    use std::os::unix::process::CommandExt;
    unsafe {
        c.pre_exec(move || {
            let l = libc::rlimit { rlim_cur: files, rlim_max: files };
            if libc::setrlimit(libc::RLIMIT_NOFILE, &l) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            if one_cpu {
                let mut all: libc::cpu_set_t = std::mem::zeroed();
                let size = std::mem::size_of_val(&all);
                libc::sched_getaffinity(0, size, &mut all);
                let first = (0..libc::CPU_SETSIZE as usize).filter(|i| libc::CPU_ISSET(*i, &all)).nth(std::process::id() as usize % libc::CPU_COUNT(&all).max(1) as usize);
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(first.unwrap_or(0), &mut one);
                libc::sched_setaffinity(0, size, &one);
            }
            Ok(())
        });
    }
}

fn files(x: &Files) -> Fallible<()> {
    let mask = if x.goes.is_some() { ALL } else { DELIVERIES };
    let mut l = RealLock::boot_extra(x.listeners, mask, &passwd_text(USERS), USERS, |c| limit(c, x.limit, x.one_cpu))?;
    let at = |i: usize| [L1, L2][i % x.listeners];
    let (a, b) = (l.open(at(0))?, l.open(at(1))?);
    l.send(a, &[connect("A"), subscribe(1, &["t"])])?;
    l.send(b, &[connect("B"), subscribe(1, &["t"])])?;
    let round = |l: &mut RealLock| -> Fallible<()> {
        l.send(a, &[publish("t", ""), Pkt::PingReq])?;
        l.send(b, &[publish("t", ""), Pkt::PingReq])
    };
    let mut held = vec![];
    let addrs = l.broker.addrs.clone();
    l.log.push(format!("{} connections that stay open", x.n));
    for i in 0..x.n {
        let mut c = Conn::open(addrs[i % addrs.len()]).map_err(|f| l.ctx(f))?;
        match x.says {
            0 => {}
            1 => c.send(&connect("half").encode()[..7]),
            _ => c.send(&connect(&format!("r{}", i)).encode()),
        }
        held.push(c);
        if i % 4 == 3 {
            round(&mut l)?;
        }
    }
    for _ in 0..3 {
        round(&mut l)?;
    }
    visit(&(x.limit, x.says, x.n));
    let Some(m) = x.goes else {
        l.stop()?;
        return Ok(());
    };
    l.log.push(format!("which then close ({:?})", m));
    // the ones that came first are not the ones that wait
    for c in &mut held {
        c.close(m);
    }
    round(&mut l)?;
    // those who come now are served, on each listener
    for i in 0..x.listeners {
        let c = l.open(at(i))?;
        l.send(c, &[connect(&format!("later{}", i)), subscribe(1, &["t"])])?;
        round(&mut l)?;
    }
    l.probe(L1)
}

pub fn c14(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for limit in tier.pick(vec![24u64, 40], (18..48).chain([64, 128]).collect()) {
        for one_cpu in [true, false] {
            for listeners in [1usize, 2] {
                for says in 0..3usize {
                    for n in tier.pick(vec![limit as usize, 2 * limit as usize], vec![limit as usize - 12, limit as usize, 2 * limit as usize, 4 * limit as usize]) {
                        for goes in [CloseMode::Close, CloseMode::Fin, CloseMode::Reset] {
                            if tier.pick(1, 0) == 1 && (n > limit as usize) != (goes == CloseMode::Reset) {
                                continue;
                            }
                            list.push(Files { limit, one_cpu, listeners, says, n, goes: Some(goes) });
                        }
                    }
                }
            }
        }
    }
    vec![cases("real binary: no more open files", list, |x, _| files(x), |x| format!("{:?}", x)).threads(4)]
}

pub fn c15(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for limit in tier.pick(vec![24u64], (18..48).collect()) {
        for one_cpu in [true, false] {
            for listeners in [1usize, 2] {
                for says in 0..3usize {
                    for n in [limit as usize, 2 * limit as usize] {
                        list.push(Files { limit, one_cpu, listeners, says, n, goes: None });
                    }
                }
            }
        }
    }
    vec![cases("real binary: no more open files", list, |x, _| files(x), |x| format!("{:?}", x)).threads(4)]
}

// ------------------------------------------------------------------ C16

/// What the standard input, output and error output are.
const INHERITED: &[&str] = &["/dev/null", "closed", "broken pipe", "/dev/full", "folder", "file"];

fn inherit(what: &[&'static str; 3]) -> Fallible<()> {
    use std::os::fd::OwnedFd;
    use std::process::Stdio;
    let mut closed = vec![];
    let mut l = RealLock::boot_extra(1, ALL, &passwd_text(USERS), USERS, |c| {
        let dir = c.get_current_dir().unwrap().to_path_buf();
        let stdio = |i: usize| match what[i] {
            "closed" => Stdio::null(),
            "broken pipe" => {
                let (r, w) = std::io::pipe().unwrap();
                // the other end is dropped
                if i == 0 { Stdio::from(OwnedFd::from(r)) } else { Stdio::from(OwnedFd::from(w)) }
            }
            "folder" => Stdio::from(std::fs::File::open(&dir).unwrap()),
            "file" => Stdio::from(std::fs::File::options().read(true).append(true).create(true).open(dir.join("stdio")).unwrap()),
            p => Stdio::from(std::fs::File::options().read(i == 0).write(i > 0).open(p).unwrap()),
        };
        c.env("RUST_LOG", "trace").stdin(stdio(0)).stdout(stdio(1)).stderr(stdio(2));
        closed = (0..3).filter(|i| what[*i as usize] == "closed").collect::<Vec<i32>>();
        use std::os::unix::process::CommandExt;
        let closed = closed.clone();
        unsafe {
            c.pre_exec(move || {
                for i in &closed {
                    libc::close(*i);
                }
                Ok(())
            });
        }
    })?;
    let a = l.open(L1)?;
    l.send(a, &[connect("A"), subscribe(1, &["t", "x/#"])])?;
    let b = l.open(L1)?;
    l.send(b, &[connect_as("B", "alice", Some("no")), publish("t", "")])?;
    let b = l.open(L1)?;
    l.send(b, &[connect_as("B", "alice", Some("wonder")), publish("t", ""), publish("x/y", "")])?;
    l.send(a, &[unsubscribe(2, &["t"]), publish("t", "")])?;
    l.send(b, &[Pkt::Raw(vec![0xf0, 0])])?;
    l.probe(L1)?;
    visit(what);
    l.stop()
}

pub fn c16(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for i in INHERITED {
        for o in INHERITED {
            for e in INHERITED {
                // quick: the input only together with equal outputs
                if tier.thorough() || o == e || *i == "/dev/null" {
                    list.push([*i, *o, *e]);
                }
            }
        }
    }
    vec![cases("real binary: standard input and outputs of all kinds", list, |x, _| inherit(x), |x| format!("{:?}", x))]
}
