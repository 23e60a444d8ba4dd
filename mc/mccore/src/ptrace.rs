//! Runs a program under ptrace, one system call at a time, and stops, cuts short
//! or fails the one a plan names.
use std::collections::HashSet;
use std::os::unix::fs::MetadataExt;
use std::os::unix::process::CommandExt;
use std::path::Path;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Plan {
    /// let it run
    None,
    /// kill it before its i-th system call
    Kill(usize),
    /// let only the first k bytes of its i-th system call (a write) through, then kill it
    Torn(usize, usize),
    /// let only the first k bytes of its i-th system call (a read or write) through and continue
    Short(usize, usize),
    /// its i-th system call fails
    Fail(usize, i32),
    /// its i-th system call fails, and it is killed before the j-th
    FailKill(usize, i32, usize),
    /// its i-th system call fails, and it is killed in the j-th (a write) after k bytes
    FailTorn(usize, i32, usize, usize),
    /// the disk takes only this many bytes more, from the first write to a file in its directory on
    Full(usize),
}

#[derive(Clone, Debug)]
pub struct Call {
    pub nr: i64,
    pub args: [u64; 3],
    pub ret: i64,
    /// what file the first argument stands for, if it is a descriptor
    pub file: Option<String>,
}

#[derive(Debug)]
pub struct Run {
    pub calls: Vec<Call>,
    /// exit code, or minus the signal
    pub status: i32,
    /// system calls (by index) after which the watched file had content that was never synced
    pub unsynced: Vec<usize>,
    pub stderr: String,
}

pub fn name(nr: i64) -> String {
    let n = match nr {
        libc::SYS_read => "read",
        libc::SYS_write => "write",
        libc::SYS_open => "open",
        libc::SYS_openat => "openat",
        libc::SYS_close => "close",
        libc::SYS_fsync => "fsync",
        libc::SYS_fdatasync => "fdatasync",
        libc::SYS_rename | libc::SYS_renameat | libc::SYS_renameat2 => "rename",
        libc::SYS_unlink | libc::SYS_unlinkat => "unlink",
        libc::SYS_ftruncate => "ftruncate",
        libc::SYS_fchmod => "fchmod",
        libc::SYS_fchown => "fchown",
        libc::SYS_lseek => "lseek",
        libc::SYS_mmap => "mmap",
        libc::SYS_munmap => "munmap",
        libc::SYS_statx => "statx",
        libc::SYS_exit_group => "exit_group",
        libc::SYS_writev => "writev",
        libc::SYS_pwrite64 => "pwrite64",
        libc::SYS_copy_file_range => "copy_file_range",
        libc::SYS_sendfile => "sendfile",
        _ => return format!("system call {}", nr),
    };
    n.to_string()
}
/// The third argument is a length.
pub fn is_write(nr: i64) -> bool {
    matches!(nr, libc::SYS_write | libc::SYS_pwrite64)
}
pub fn is_read(nr: i64) -> bool {
    matches!(nr, libc::SYS_read | libc::SYS_pread64)
}
pub fn touches_files(nr: i64) -> bool {
    is_write(nr)
        || is_read(nr)
        || matches!(
            nr,
            libc::SYS_open
                | libc::SYS_openat
                | libc::SYS_creat
                | libc::SYS_close
                | libc::SYS_fsync
                | libc::SYS_fdatasync
                | libc::SYS_rename
                | libc::SYS_renameat
                | libc::SYS_renameat2
                | libc::SYS_unlink
                | libc::SYS_unlinkat
                | libc::SYS_truncate
                | libc::SYS_ftruncate
                | libc::SYS_fallocate
                | libc::SYS_chmod
                | libc::SYS_fchmod
                | libc::SYS_fchmodat
                | libc::SYS_chown
                | libc::SYS_fchown
                | libc::SYS_fchownat
                | libc::SYS_link
                | libc::SYS_linkat
                | libc::SYS_symlink
                | libc::SYS_symlinkat
                | libc::SYS_readlink
                | libc::SYS_readlinkat
                | libc::SYS_lseek
                | libc::SYS_stat
                | libc::SYS_fstat
                | libc::SYS_lstat
                | libc::SYS_newfstatat
                | libc::SYS_statx
                | libc::SYS_writev
                | libc::SYS_pwritev
                | libc::SYS_sendfile
                | libc::SYS_copy_file_range
                | libc::SYS_mkdir
                | libc::SYS_mkdirat
                | libc::SYS_flock
        )
}
fn writes(nr: i64) -> bool {
    is_write(nr) || matches!(nr, libc::SYS_writev | libc::SYS_pwritev | libc::SYS_ftruncate | libc::SYS_fallocate)
}

pub fn regs(pid: i32) -> libc::user_regs_struct {
    unsafe {
        let mut r: libc::user_regs_struct = std::mem::zeroed();
        assert_eq!(libc::ptrace(libc::PTRACE_GETREGS, pid, 0, &mut r), 0, "PTRACE_GETREGS");
        r
    }
}
fn set_regs(pid: i32, r: &libc::user_regs_struct) {
    unsafe {
        assert_eq!(libc::ptrace(libc::PTRACE_SETREGS, pid, 0, r), 0, "PTRACE_SETREGS");
    }
}
fn wait(pid: i32) -> i32 {
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::__WALL) };
        if r == pid {
            return st;
        }
        let e = std::io::Error::last_os_error();
        assert!(r == -1 && e.raw_os_error() == Some(libc::EINTR), "waitpid: {}", e);
    }
}
pub fn code(st: i32) -> i32 {
    if libc::WIFEXITED(st) {
        libc::WEXITSTATUS(st)
    } else {
        -libc::WTERMSIG(st)
    }
}

fn inode(p: &Path) -> Option<(u64, u64)> {
    std::fs::metadata(p).ok().map(|m| (m.dev(), m.ino()))
}

/// Runs `exe args` in `dir`; `watched` is the file whose durability is followed.
pub fn run(exe: &Path, args: &[String], dir: &Path, watched: &Path, plan: Plan) -> Run {
    run_seen(exe, args, dir, watched, plan, None, &mut |_| {})
}

/// `see` is called with the process id after every system call, and at the end with None.
pub fn run_seen(exe: &Path, args: &[String], dir: &Path, watched: &Path, plan: Plan, umask: Option<u32>, see: &mut dyn FnMut(Option<i32>)) -> Run {
    let errfile = dir.join(".stderr");
    let mut cmd = Command::new(exe);
    cmd.args(args).current_dir(dir).env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(std::fs::File::create(&errfile).unwrap());
    unsafe {
        cmd.pre_exec(move || {
            if let Some(m) = umask {
                libc::umask(m as libc::mode_t);
            }
            if libc::ptrace(libc::PTRACE_TRACEME, 0, 0, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
    }
    #[allow(clippy::zombie_processes)]
    let child = cmd.spawn().expect("spawn under ptrace");
    let pid = child.id() as i32;
    let mut st = wait(pid);
    assert!(libc::WIFSTOPPED(st), "the traced program did not stop: {:x}", st);
    unsafe {
        libc::ptrace(libc::PTRACE_SETOPTIONS, pid, 0, libc::PTRACE_O_TRACESYSGOOD | libc::PTRACE_O_EXITKILL);
    }
    let mut out = Run { calls: vec![], status: 0, unsynced: vec![], stderr: String::new() };
    let mut dirty: HashSet<(u64, u64)> = HashSet::new();
    let mut room = match plan {
        Plan::Full(n) => n as u64,
        _ => u64::MAX,
    };
    let mut entry: Option<(Call, Option<(u64, u64)>)> = None;
    let mut sig = 0;
    let mut full = false;
    let kill = || unsafe {
        libc::kill(pid, libc::SIGKILL);
    };
    loop {
        unsafe {
            libc::ptrace(libc::PTRACE_SYSCALL, pid, 0, sig);
        }
        sig = 0;
        st = wait(pid);
        if libc::WIFEXITED(st) || libc::WIFSIGNALED(st) {
            break;
        }
        let stop = libc::WSTOPSIG(st);
        if stop != libc::SIGTRAP | 0x80 {
            if stop != libc::SIGTRAP {
                sig = stop;
            }
            continue;
        }
        let mut r = regs(pid);
        match entry.take() {
            None => {
                let i = out.calls.len();
                let nr = r.orig_rax as i64;
                let link = |fd: u64| format!("/proc/{}/fd/{}", pid, fd);
                let by_fd = touches_files(nr) && nr != libc::SYS_openat && nr != libc::SYS_open && r.rdi < 1024;
                let file = if by_fd { std::fs::read_link(link(r.rdi)).ok().map(|p| p.to_string_lossy().into_owned()) } else { None };
                let ino = if by_fd { inode(Path::new(&link(r.rdi))) } else { None };
                let call = Call { nr, args: [r.rdi, r.rsi, r.rdx], ret: 0, file };
                match plan {
                    Plan::Kill(k) | Plan::FailKill(_, _, k) if k == i => {
                        kill();
                        st = wait(pid);
                        out.calls.push(call);
                        break;
                    }
                    Plan::Torn(k, n) | Plan::Short(k, n) | Plan::FailTorn(_, _, k, n) if k == i => {
                        r.rdx = r.rdx.min(n as u64);
                        set_regs(pid, &r);
                    }
                    Plan::Fail(k, _) | Plan::FailKill(k, _, _) | Plan::FailTorn(k, _, _, _) if k == i => {
                        // no such system call: nothing happens
                        r.orig_rax = u64::MAX;
                        set_regs(pid, &r);
                    }
                    Plan::Full(_) if (is_write(nr) || matches!(nr, libc::SYS_writev | libc::SYS_pwritev | libc::SYS_fallocate | libc::SYS_copy_file_range | libc::SYS_sendfile)) && r.rdi > 2 => {
                        if room > 0 && is_write(nr) {
                            r.rdx = r.rdx.min(room);
                        } else {
                            full = true;
                            r.orig_rax = u64::MAX;
                        }
                        set_regs(pid, &r);
                    }
                    _ => {}
                }
                entry = Some((call, ino));
            }
            Some((mut call, ino)) => {
                let i = out.calls.len();
                if let Plan::Fail(k, e) | Plan::FailKill(k, e, _) | Plan::FailTorn(k, e, _, _) = plan {
                    if k == i {
                        r.rax = (-(e as i64)) as u64;
                        set_regs(pid, &r);
                    }
                }
                if std::mem::take(&mut full) {
                    r.rax = (-(libc::ENOSPC as i64)) as u64;
                    set_regs(pid, &r);
                } else if let (Plan::Full(_), true, true) = (plan, is_write(call.nr) && call.args[0] > 2, r.rax as i64 > 0) {
                    room -= r.rax;
                }
                call.ret = r.rax as i64;
                if let Some(ino) = ino {
                    if call.ret >= 0 && writes(call.nr) {
                        dirty.insert(ino);
                    }
                    if call.ret >= 0 && matches!(call.nr, libc::SYS_copy_file_range | libc::SYS_sendfile) {
                        // sendfile: to the first, copy_file_range: to the third argument
                        let to = if call.nr == libc::SYS_sendfile { Some(ino) } else { inode(Path::new(&format!("/proc/{}/fd/{}", pid, call.args[2]))) };
                        dirty.extend(to);
                    }
                    if call.ret == 0 && matches!(call.nr, libc::SYS_fsync | libc::SYS_fdatasync) {
                        dirty.remove(&ino);
                    }
                }
                if call.ret == 0 && matches!(call.nr, libc::SYS_sync | libc::SYS_syncfs) {
                    dirty.clear();
                }
                out.calls.push(call);
                see(Some(pid));
                if inode(watched).is_some_and(|w| dirty.contains(&w)) {
                    out.unsynced.push(i);
                }
                if let Plan::Torn(k, _) | Plan::FailTorn(_, _, k, _) = plan {
                    if k == i {
                        kill();
                        st = wait(pid);
                        break;
                    }
                }
            }
        }
        assert!(out.calls.len() < 100_000, "the traced program does not end");
    }
    see(None);
    out.status = code(st);
    out.stderr = std::fs::read_to_string(&errfile).unwrap_or_default();
    let _ = std::fs::remove_file(&errfile);
    drop(child);
    out
}
