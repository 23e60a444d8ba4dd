//! Several runs of one program under ptrace at once, interleaved at the system calls by which they
//! touch files, as a schedule says.
use crate::ptrace::{code, regs, touches_files};
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Turn {
    /// that process goes on by this many calls
    Steps(usize, usize),
    /// that process is killed before its next call
    Kill(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum At {
    /// before a call
    Call,
    /// in a call that waits for something
    Waits,
    Over,
}

struct Proc {
    pid: i32,
    at: At,
    /// touched the folder already
    begun: bool,
    entry: bool,
    nr: i64,
    status: i32,
    steps: usize,
    killed: bool,
    _child: std::process::Child,
}

pub struct Ended {
    /// exit code, or minus the signal
    pub status: i32,
    pub stderr: String,
    pub steps: usize,
}

fn text(pid: i32, at: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut at = at;
    while v.len() < 4096 && !v.contains(&0) {
        let mut b = [0u8; 256];
        // not across the end of a page, the next one may be missing
        let n = (4096 - at as usize % 4096).min(b.len());
        let l = libc::iovec { iov_base: b.as_mut_ptr().cast(), iov_len: n };
        let r = libc::iovec { iov_base: at as *mut _, iov_len: n };
        let got = unsafe { libc::process_vm_readv(pid, &l, 1, &r, 1, 0) };
        if got <= 0 {
            break;
        }
        v.extend(&b[..got as usize]);
        at += got as u64;
    }
    v.split(|c| *c == 0).next().unwrap_or(&[]).to_vec()
}

impl Proc {
    fn start(exe: &Path, args: &[String], dir: &Path, err: &Path) -> Proc {
        let mut cmd = Command::new(exe);
        cmd.args(args).current_dir(dir).env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(err).unwrap());
        unsafe {
            cmd.pre_exec(|| {
                if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
        }
        #[allow(clippy::zombie_processes)]
        let child = cmd.spawn().expect("spawn under ptrace");
        let pid = child.id() as i32;
        let mut st = 0;
        let r = unsafe { libc::waitpid(pid, &mut st, libc::__WALL) };
        assert!(r == pid && libc::WIFSTOPPED(st), "the traced program did not stop: {:x}", st);
        unsafe {
            libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL);
        }
        let mut p = Proc { pid, at: At::Waits, begun: false, entry: false, nr: -1, status: 0, steps: 0, killed: false, _child: child };
        p.resume(0);
        p
    }
    fn resume(&mut self, sig: i32) {
        unsafe {
            libc::ptrace(libc::PTRACE_SYSCALL, self.pid, 0, sig);
        }
    }
    fn letter(&self) -> char {
        let st = std::fs::read_to_string(format!("/proc/{}/stat", self.pid)).unwrap_or_default();
        st.rsplit(") ").next().and_then(|s| s.chars().next()).unwrap_or('?')
    }
    /// Can the call it is about to make see or change what another run does? Not if it only looks at its own descriptor, or
    /// names something outside `dir`.
    fn concerns_others(&mut self, r: &libc::user_regs_struct, dir: &[u8]) -> bool {
        let inside = |at: u64| {
            let t = text(self.pid, at);
            !t.is_empty() && (t[0] != b'/' || t.windows(dir.len()).any(|w| w == dir))
        };
        let below = |at: u64| {
            let t = text(self.pid, at);
            t.windows(dir.len()).any(|w| w == dir)
        };
        let yes = match self.nr {
            libc::SYS_open | libc::SYS_creat | libc::SYS_rename | libc::SYS_link | libc::SYS_symlink | libc::SYS_unlink | libc::SYS_rmdir | libc::SYS_mkdir | libc::SYS_truncate | libc::SYS_chmod | libc::SYS_chown
            | libc::SYS_stat | libc::SYS_lstat | libc::SYS_readlink | libc::SYS_access => {
                let (i, b) = (inside(r.rdi) || matches!(self.nr, libc::SYS_rename | libc::SYS_link | libc::SYS_symlink), below(r.rdi));
                self.begun |= b;
                i
            }
            libc::SYS_openat | libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat | libc::SYS_symlinkat | libc::SYS_unlinkat | libc::SYS_mkdirat | libc::SYS_fchmodat | libc::SYS_fchownat | libc::SYS_newfstatat
            | libc::SYS_statx | libc::SYS_readlinkat | libc::SYS_faccessat | libc::SYS_faccessat2 => {
                let (i, b) = (inside(r.rsi) || matches!(self.nr, libc::SYS_renameat | libc::SYS_renameat2 | libc::SYS_linkat | libc::SYS_symlinkat), below(r.rsi));
                self.begun |= b;
                i
            }
            libc::SYS_fstat | libc::SYS_fchmod | libc::SYS_fchown | libc::SYS_lseek => false,
            libc::SYS_fsync | libc::SYS_fdatasync => false,
            libc::SYS_fcntl => !matches!(r.rsi as i32, libc::F_GETFD | libc::F_SETFD | libc::F_GETFL | libc::F_SETFL | libc::F_DUPFD | libc::F_DUPFD_CLOEXEC),
            libc::SYS_nanosleep | libc::SYS_clock_nanosleep => true,
            nr => touches_files(nr),
        };
        self.begun && yes
    }
    /// Lets it run on to its next call that concerns others, unless it waits for something.
    fn run(&mut self, dir: &[u8]) {
        let t0 = Instant::now();
        let mut asleep = 0;
        loop {
            let mut st = 0;
            // what waits for a disk sleeps as well, but not for another run
            let may = self.entry
                && matches!(
                    self.nr,
                    libc::SYS_flock | libc::SYS_fcntl | libc::SYS_nanosleep | libc::SYS_clock_nanosleep | libc::SYS_poll | libc::SYS_ppoll | libc::SYS_select | libc::SYS_pselect6 | libc::SYS_futex | libc::SYS_wait4 | libc::SYS_pause
                );
            let r = unsafe { libc::waitpid(self.pid, &mut st, libc::__WALL | if may { libc::WNOHANG } else { 0 }) };
            if r == 0 {
                if self.letter() == 'S' {
                    asleep += 1;
                    if asleep > 3 {
                        self.at = At::Waits;
                        return;
                    }
                    std::thread::sleep(Duration::from_micros(300));
                } else {
                    asleep = 0;
                    std::thread::yield_now();
                }
                assert!(t0.elapsed() < Duration::from_secs(60), "the traced program neither goes on nor waits");
                continue;
            }
            asleep = 0;
            if r != self.pid || libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
                self.status = code(st);
                self.at = At::Over;
                return;
            }
            let stop = libc::WSTOPSIG(st);
            if stop != libc::SIGTRAP | 0x80 {
                self.resume(if stop == libc::SIGTRAP { 0 } else { stop });
                continue;
            }
            self.entry = !self.entry;
            if self.entry {
                let r = regs(self.pid);
                self.nr = r.orig_rax as i64;
                if self.concerns_others(&r, dir) {
                    self.at = At::Call;
                    return;
                }
            }
            self.resume(0);
        }
    }
    fn kill(&mut self) {
        unsafe {
            libc::kill(self.pid, libc::SIGKILL);
            let mut st = 0;
            loop {
                let r = libc::waitpid(self.pid, &mut st, libc::__WALL);
                if r != self.pid || libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
                    break;
                }
                libc::ptrace(libc::PTRACE_CONT, self.pid, 0, 0);
            }
            self.status = code(st);
        }
        self.killed = true;
        self.at = At::Over;
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        if self.at != At::Over {
            self.kill();
        }
    }
}

/// Runs `exe` once with each of `args`, in `dir`. Each is let run up to its first call that names something in `dir`;
/// then they take the turns, and the rest in the order of their numbers. One that has to wait for
/// another is passed over until the other goes on. `see` is called after every step.
/// Err: these never ended.
pub fn race(exe: &Path, args: &[Vec<String>], dir: &Path, turns: &[Turn], see: &mut dyn FnMut()) -> Result<Vec<Ended>, String> {
    use std::os::unix::ffi::OsStrExt;
    let d = dir.as_os_str().as_bytes().to_vec();
    let err = |i: usize| dir.join(format!(".stderr{}", i));
    let mut ps: Vec<Proc> = args.iter().enumerate().map(|(i, a)| Proc::start(exe, a, dir, &err(i))).collect();
    for p in &mut ps {
        p.run(&d);
    }
    let step = |p: &mut Proc, see: &mut dyn FnMut()| -> bool {
        let at = p.at;
        match at {
            At::Over => false,
            At::Call => {
                p.steps += 1;
                p.resume(0);
                p.run(&d);
                see();
                true
            }
            At::Waits => {
                // has somebody let it on meanwhile?
                p.run(&d);
                let on = p.at != At::Waits;
                if on {
                    see();
                }
                on
            }
        }
    };
    for t in turns {
        match *t {
            Turn::Steps(i, n) => {
                for _ in 0..n {
                    if !step(&mut ps[i], see) {
                        break;
                    }
                }
            }
            Turn::Kill(i) => {
                if ps[i].at != At::Over {
                    ps[i].kill();
                }
            }
        }
    }
    let mut last = Instant::now();
    while ps.iter().any(|p| p.at != At::Over) {
        let mut any = false;
        for p in &mut ps {
            while step(p, see) {
                any = true;
            }
        }
        if any {
            last = Instant::now();
        } else if last.elapsed() > crate::real::PATIENCE {
            let l: Vec<String> = ps.iter().enumerate().filter(|(_, p)| p.at != At::Over).map(|(i, p)| format!("#{} in system call {}", i + 1, p.nr)).collect();
            return Err(l.join(", "));
        } else {
            std::thread::sleep(Duration::from_millis(1));
        }
        assert!(ps.iter().all(|p| p.steps < 100_000), "the traced programs do not end");
    }
    Ok(ps.iter().enumerate().map(|(i, p)| {
        let stderr = std::fs::read_to_string(err(i)).unwrap_or_default();
        let _ = std::fs::remove_file(err(i));
        Ended { status: if p.killed { -libc::SIGKILL } else { p.status }, stderr, steps: p.steps }
    }).collect())
}
