//! Administration: the password tool (C17, C18) and the settings (C19).
use super::routing::WORLD;
use super::session::auth_config;
use crate::codec::*;
use crate::env::{cheap_hash, env, passwd_text};
use crate::explore::*;
use crate::ptrace::{self, Plan};
use crate::report::*;
use crate::sys::*;
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use tokio::mc::{self, Explore};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C17", families: c17, rule: "for every pair (and a list of triples) of user names from a colliding alphabet and every kind of initial file: the complete reachable state space of credential files under set and delete, by breadth-first search with the real tool as transition function; every state is compared with a reference map by the broker's own authentication", assumptions: &[WORLD, "states that differ only in salts are equivalent", "a name or password the tool refuses with an error must leave the file as it was"] },
        Check { id: "C18", families: c18, rule: "for every kind of change: the tool killed before every single system call, and after every torn prefix of every write; every file system call failing with each of several errors and every short read and write; afterwards the file holds the previous or the complete new content and the next run works; no unsynced content ever becomes the file", assumptions: &["a process interrupted between two system calls leaves the same files as one interrupted at the next system call", "rename is atomic and durable data survives, as POSIX file systems with ordered metadata promise"] },
        Check { id: "C28", families: c28, rule: "for every kind of change every file system call of the tool failing with each of 13 errors, short reads and writes, and disks with room for every amount; every combination of odd user names, passwords and credential files: exit status 0 exactly if the file is as ordered, any other only if the file is as it was and something is said on stderr", assumptions: &["a run that is killed reports nothing"] },
        Check { id: "C31", families: c31, rule: "for every kind of change, every owner, group, mode and umask of a list: after every single system call of the tool, in runs that go through, are killed or have any file system call fail, the owner, group and mode of every file that the tool has open or leaves, and that ever holds anything", assumptions: &["the tool is run by root, or by the file's owner in a group that it may give files to: changing owner and group does not fail"] },
        Check { id: "C19", families: c19, rule: "all combinations of each key's place (file, environment in several spellings, both, neither), decoy variables and values that need care: the broker's bound listeners and the users it admits must be exactly those of the reference", assumptions: &[WORLD, "two spellings of one variable at once, and variables that name a part of a setting, are not judged", "environment variables are valid UTF-8"] },
    ]
}

// ------------------------------------------------------------- the tool

pub(super) fn tool() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("ratelmq-passwd")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Set(String, String),
    Del(String),
}
impl Op {
    pub(super) fn user(&self) -> &str {
        match self {
            Op::Set(u, _) | Op::Del(u) => u,
        }
    }
    pub(super) fn args(&self, file: &Path) -> Vec<String> {
        let mut a = vec!["-f".to_string(), file.to_string_lossy().into_owned(), "-u".to_string(), self.user().to_string()];
        match self {
            Op::Set(_, p) => a.extend(["-p".to_string(), p.clone()]),
            Op::Del(_) => a.push("-d".to_string()),
        }
        a
    }
}

static SEQ: AtomicU64 = AtomicU64::new(0);
/// A directory of its own for one execution.
pub(super) struct Scratch(pub(super) PathBuf);
impl Scratch {
    pub(super) fn new() -> Scratch {
        let d = env().dir.join(format!("tool-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn file(&self) -> PathBuf {
        self.0.join("passwd")
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Runs the tool on `content`; returns exit code, what it wrote to stderr, and the new content.
fn run_tool(op: &Op, content: &[u8]) -> (i32, String, Vec<u8>) {
    let s = Scratch::new();
    std::fs::write(s.file(), content).unwrap();
    let o = Command::new(tool()).args(op.args(&s.file())).current_dir(&s.0).env_clear().stdin(Stdio::null()).output().expect("run the password tool");
    let new = std::fs::read(s.file()).unwrap_or_default();
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stderr).into_owned(), new)
}

/// Is `hash` a hash of `pw`? (independent of the broker's code, cached)
pub(super) fn verifies(hash: &str, pw: &str) -> bool {
    use argon2::password_hash::{PasswordHash, PasswordVerifier};
    static CACHE: OnceLock<Mutex<BTreeMap<(String, String), bool>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    let k = (hash.to_string(), pw.to_string());
    if let Some(v) = c.lock().unwrap().get(&k) {
        return *v;
    }
    let v = PasswordHash::new(hash).is_ok_and(|h| argon2::Argon2::default().verify_password(pw.as_bytes(), &h).is_ok());
    c.lock().unwrap().insert(k, v);
    v
}

/// Asks a broker that uses this credential file: which of these attempts does it admit?
fn admitted(content: &[u8], attempts: &[(String, String)], trace: bool) -> Fallible<Vec<bool>> {
    let text = std::str::from_utf8(content).map_err(|e| Fail::new("unloadable", format!("the credential file is not text: {}", e)))?;
    let mut s = Sys::boot(&auth_config(text), vec![], Explore::default(), trace)?;
    if !s.running() {
        return Err(Fail::new("unloadable", format!("the broker does not start with this credential file: {:?}: {:?}", text, s.panics())));
    }
    let mut v = vec![];
    for (i, (u, p)) in attempts.iter().enumerate() {
        let c = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
        s.send_pkts(c, &[connect_as(&format!("c{}", i), u, Some(p)), Pkt::PingReq]);
        s.quiesce()?;
        let o = s.outs(c);
        v.push(match o.first() {
            Some(Out::ConnAck { rc: 0, .. }) => true,
            Some(Out::ConnAck { .. }) => false,
            _ => return Err(Fail::new("unloadable", format!("attempt {:?} was answered with {:?}", (u, p), o))),
        });
    }
    s.check_panics()?;
    s.end();
    Ok(v)
}

// ------------------------------------------------------------------ C17

/// Lines of a credential file as (user, hash).
pub(super) fn entries(content: &str) -> Option<Vec<(String, String)>> {
    content.lines().map(|l| l.split_once(':').map(|(u, h)| (u.to_string(), h.to_string()))).collect()
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct AbsState {
    /// (user, password) in file order
    entries: Vec<(String, String)>,
    terminated: bool,
}

#[derive(Clone, Debug)]
struct World17 {
    users: Vec<String>,
    passwords: Vec<String>,
    initial: usize,
    /// by how many steps the search is limited
    depth: usize,
}
const INITIAL: [&str; 6] = ["empty", "another user", "another user, not terminated", "the users, not terminated", "carriage returns", "many users around"];

fn initial(w: &World17) -> (String, Vec<(String, String)>) {
    let l = |u: &str, p: &str| format!("{}:{}\n", u, cheap_hash(p, "c29tZXNhbHQ"));
    let pr = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    match w.initial {
        0 => (String::new(), vec![]),
        1 => (l("zoe", "zp"), pr(&[("zoe", "zp")])),
        2 => (l("zoe", "zp").trim_end().to_string(), pr(&[("zoe", "zp")])),
        3 => {
            let mut v: Vec<(String, String)> = w.users.iter().map(|u| (u.clone(), w.passwords[0].clone())).collect();
            v.reverse();
            let t: String = v.iter().map(|(u, p)| l(u, p)).collect();
            (t.trim_end_matches('\n').to_string(), v)
        }
        4 => ((l("zoe", "zp") + &l("yan", "yp")).replace('\n', "\r\n"), pr(&[("zoe", "zp"), ("yan", "yp")])),
        _ => {
            // entries whose parts look like other names, before and behind
            let mut v = vec![];
            for u in &w.users {
                for x in [format!("x{}", u), format!("{}x", u), format!("{}{}", u, u)] {
                    if !w.users.contains(&x) && !v.iter().any(|(y, _)| *y == x) && !x.contains(':') && !x.contains('\n') {
                        v.push((x, "np".to_string()));
                    }
                }
            }
            (v.iter().map(|(u, p)| l(u, p)).collect(), v)
        }
    }
}

fn storable(s: &str) -> bool {
    !s.contains(':') && !s.contains('\n')
}

/// Compares the tool's result with the reference map.
fn judge17(before: &str, map: &BTreeMap<String, String>, after: &[u8], w: &World17, ctx: &Ctx, fresh: bool) -> Fallible<AbsState> {
    let text = std::str::from_utf8(after).map_err(|e| Fail::new("unloadable", format!("the credential file is not text any more: {}", e)))?;
    let es = entries(text).ok_or_else(|| Fail::new("unloadable", format!("a line of the credential file is no entry: {:?}", text)))?;
    let old: HashSet<(String, String)> = entries(before).unwrap_or_default().into_iter().collect();
    let mut abs = vec![];
    let mut seen = HashSet::new();
    let mut all_sure = true;
    for (u, h) in &es {
        if !seen.insert(u.clone()) {
            return Err(Fail::new("duplicate", format!("user {:?} has several entries: {:?}", u, text)));
        }
        let Some(p) = map.get(u) else {
            return Err(Fail::new("kept", format!("user {:?} must not have an entry: {:?}", u, text)));
        };
        // an entry that is literally the old one was judged before
        if !old.contains(&(u.clone(), h.clone())) {
            all_sure = false;
        }
        abs.push((u.clone(), p.clone()));
    }
    for u in map.keys() {
        if !seen.contains(u) {
            return Err(Fail::new("lost", format!("user {:?} has no entry: {:?}", u, text)));
        }
    }
    // the broker's opinion
    if fresh || !all_sure {
        let mut att = vec![];
        for (u, h) in &es {
            if fresh || !old.contains(&(u.clone(), h.clone())) {
                att.push((u.clone(), map[u].clone(), true));
                if let Some(other) = w.passwords.iter().find(|p| **p != map[u]) {
                    att.push((u.clone(), other.clone(), false));
                }
            }
        }
        if fresh {
            for u in &w.users {
                if !map.contains_key(u) {
                    att.push((u.clone(), w.passwords[0].clone(), false));
                }
            }
        }
        let q: Vec<(String, String)> = att.iter().map(|a| (a.0.clone(), a.1.clone())).collect();
        let got = admitted(after, &q, ctx.trace)?;
        for ((u, p, want), g) in att.iter().zip(got) {
            if *want != g {
                return Err(Fail::new("authentication", format!("the broker {} user {:?} with password {:?}; the file is {:?}", if g { "admits" } else { "refuses" }, u, p, text)));
            }
        }
    }
    Ok(AbsState { entries: abs, terminated: text.is_empty() || text.ends_with('\n') })
}

/// The complete state space of one little world.
fn explore17(w: &World17, ctx: &Ctx) -> Fallible<()> {
    let (text, users) = initial(w);
    let map: BTreeMap<String, String> = users.into_iter().collect();
    let s0 = judge17("", &map, text.as_bytes(), w, ctx, true).map_err(|f| Fail { kind: "harness".into(), msg: f.msg })?;
    let mut seen = HashSet::new();
    seen.insert(s0.clone());
    let mut q = VecDeque::new();
    q.push_back((s0, text, map, vec![] as Vec<Op>));
    let ops: Vec<Op> = w
        .users
        .iter()
        .flat_map(|u| w.passwords.iter().map(|p| Op::Set(u.clone(), p.clone())).chain([Op::Del(u.clone())]).collect::<Vec<_>>())
        .collect();
    let mut transitions = 0;
    while let Some((_, text, map, path)) = q.pop_front() {
        if path.len() >= w.depth {
            continue;
        }
        for op in &ops {
            let mut path = path.clone();
            path.push(op.clone());
            let (code, err, after) = run_tool(op, text.as_bytes());
            transitions += 1;
            let mut m = map.clone();
            match op {
                Op::Set(u, p) => {
                    m.insert(u.clone(), p.clone());
                }
                Op::Del(u) => {
                    m.remove(u);
                }
            }
            let refused = code != 0;
            if refused && storable(op.user()) && !op.user().is_empty() && !op.user().starts_with('-') {
                return Err(Fail::new("failed", format!("{:?} on {:?} (after {:?}) exits with {}: {}", op, text, path, code, err)));
            }
            let expect = if refused { &map } else { &m };
            if refused && after != text.as_bytes() {
                return Err(Fail::new("damaged", format!("{:?} is refused ({}) and the file changes from {:?} to {:?}", op, err, text, String::from_utf8_lossy(&after))));
            }
            let known = |e: &Fail| e.clone().ctx(format!("{:?} on {:?}, history {:?}", op, text, path));
            let st = judge17(&text, expect, &after, w, ctx, false).map_err(|e| known(&e))?;
            visit(&(&st, &w.users));
            if seen.insert(st.clone()) {
                // a new state: the broker judges everybody
                judge17("", expect, &after, w, ctx, true).map_err(|e| known(&e))?;
                q.push_back((st, String::from_utf8(after).unwrap(), expect.clone(), path));
            }
        }
    }
    count_transitions(transitions);
    count_traces(transitions);
    outcome(&seen.len());
    sample(|| format!("{:?}: {} states, {} transitions", w, seen.len(), transitions));
    Ok(())
}

fn c17(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let names: Vec<&str> = vec!["bob", "bobby", "Bob", "ob", "bo", "b.b", "b|o", "^bob", "bob$", "$0", "[b", " bob", "b\u{f6}b", "(", "b*", "b\\b", "bob ", "$1b", "${bob}"];
    let names: Vec<String> = names.into_iter().filter(|n| !n.contains('\0')).map(|s| s.to_string()).collect();
    let more: Vec<String> = ["BOB", "b", "\u{130}", "i\u{307}", "bob\r", "bob\tx", "#bob", "b?b", ".", ".*", "\u{2028}", "bob\u{85}", "b{1}b", "\\", "%s", "\"bob\"", "'", "a,b", "=", "$argon2id"].iter().map(|s| s.to_string()).collect();
    let pws = |a: &str, b: &str| vec![a.to_string(), b.to_string()];
    // one name, the odd ones too
    let mut list = vec![];
    for u in names.iter().chain(&more).cloned().chain(["".to_string(), "a:b".into(), ":".into(), "a\nb".into(), "\n".into(), "u".repeat(300), "ends\n".into()]) {
        for i in 0..INITIAL.len() {
            if i == 3 && (!storable(&u)) {
                continue;
            }
            list.push(World17 { users: vec![u.clone()], passwords: pws("p1", "p2"), initial: i, depth: 99 });
        }
    }
    v.push(worlds("one user", list));
    let mut list = vec![];
    let set: Vec<String> = if tier.thorough() { names.iter().chain(&more).cloned().collect() } else { names.iter().take(13).cloned().collect() };
    for i in 0..set.len() {
        for j in i + 1..set.len() {
            for k in if tier.thorough() { vec![0, 1, 2, 3, 4, 5] } else { vec![if (i + j) % 2 == 0 { 3 } else { 0 }] } {
                list.push(World17 { users: vec![set[i].clone(), set[j].clone()], passwords: pws("p1", "p2"), initial: k, depth: 99 });
            }
        }
    }
    v.push(worlds("two users", list));
    let mut list = vec![];
    for t in [["bob", "bobby", "ob"], ["bob", "Bob", "BOB"], ["$0", "b", "b.b"]] {
        list.push(World17 { users: t.iter().map(|s| s.to_string()).collect(), passwords: if tier.thorough() { pws("p1", "p2") } else { vec!["p1".to_string()] }, initial: 2, depth: 99 });
    }
    if tier.thorough() {
        for i in 0..10 {
            for j in i + 1..10 {
                for k in j + 1..10 {
                    list.push(World17 { users: [i, j, k].iter().map(|x| names[*x].clone()).collect(), passwords: pws("p1", "p2"), initial: 1, depth: 99 });
                }
            }
        }
    }
    v.push(worlds("three users", list));
    // passwords that need care
    let mut list = vec![];
    for p in ["", " ", "a:b", ":", "$1", "$0", "${x}", "p\u{e4}ss", "a\nb", "x y", "\\n", "'", "\"", "%", "p\r", "\u{1F600}"] {
        for i in [0, 2] {
            list.push(World17 { users: vec!["bob".into()], passwords: vec![p.to_string(), "other".into()], initial: i, depth: 3 });
        }
    }
    list.push(World17 { users: vec!["bob".into()], passwords: vec!["q".repeat(1000), "q".repeat(999)], initial: 0, depth: 3 });
    v.push(worlds("passwords", list));
    // every position of files of many users
    let mut list = vec![];
    for n in tier.pick(vec![1usize, 2, 3, 5, 17, 40, 100], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 400, 1000]) {
        for at in (0..n).step_by((n / tier.pick(8, 60)).max(1)).chain([n - 1, n]) {
            for del in [false, true] {
                for terminated in [true, false] {
                    list.push((n, at, del, terminated));
                }
            }
        }
    }
    v.push(cases("many users", list, many17, |(n, at, del, t)| format!("{} users, {} number {}{}", n, if *del { "delete" } else { "set" }, at, if *t { "" } else { ", not terminated" })).cpu_limit(120.0));
    // files around the sizes of buffers
    let mut list = vec![];
    for size in tier.pick(vec![1024usize, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20], vec![512, 1024, 2048, 4096, 8192, 12288, 16384, 32768, 65536, 100_000, 131072, 262144, 524288, 1 << 20, 1 << 22]) {
        for d in tier.pick(vec![-1i64, 0, 1, 50], vec![-100, -50, -2, -1, 0, 1, 2, 3, 50, 100]) {
            for at in [0usize, 50, 99, 100] {
                for del in [false, true] {
                    if at == 100 && del {
                        continue;
                    }
                    list.push((size as i64 + d, at, del));
                }
            }
        }
    }
    v.push(cases("large files", list, large17, |(n, at, del)| format!("{} bytes, {} at {} percent", n, if *del { "delete" } else { "set" }, at)).cpu_limit(120.0));
    // ways to call the tool
    let list: Vec<(usize, bool)> = (0..STYLES).flat_map(|k| [false, true].map(|d| (k, d))).collect();
    let l2: Vec<(u32, u32, bool, bool)> = tier
        .pick(vec![0o600u32, 0o640, 0o644, 0o664, 0o444, 0o700], (0..0o1000).filter(|m| m & 0o400 != 0).collect::<Vec<_>>())
        .into_iter()
        .flat_map(|m| [0o022u32, 0o077, 0].into_iter().flat_map(move |u| [false, true].into_iter().flat_map(move |d| [false, true].map(|link| (m, u, d, link)))))
        .collect();
    v.push(cases("the file's mode and links to it", l2, mode17, |(m, u, d, l)| format!("mode {:o}, umask {:o}{}{}", m, u, if *d { ", delete" } else { "" }, if *l { ", through a link" } else { "" })));
    v.push(cases("ways to call the tool", list, styles17, |(k, d)| format!("style {}{}", k, if *d { ", delete" } else { "" })));
    v
}

/// One change to a file of exactly so many bytes; everything else stays, byte for byte.
fn large17(&(size, at, del): &(i64, usize, bool), ctx: &Ctx) -> Fallible<()> {
    let size = size as usize;
    let hash = cheap_hash("pw", "c29tZXNhbHQ");
    // the first name takes up what is left
    let line = |i: usize| format!("user{:06}:{}\n", i, hash);
    let one = line(0).len();
    let n = (size - one - 1) / one;
    let left = size - n * one - hash.len() - 2;
    let mut lines: Vec<String> = vec![format!("{}:{}\n", "f".repeat(left), hash)];
    lines.extend((0..n).map(line));
    let text: String = lines.concat();
    assert_eq!(text.len(), size);
    let k = 1 + (n - 1) * at.min(99) / 99;
    let user = if at == 100 { "a new one".to_string() } else { lines[k].split(':').next().unwrap().to_string() };
    let op = if del { Op::Del(user.clone()) } else { Op::Set(user.clone(), "new".into()) };
    let (code, err, after) = run_tool(&op, text.as_bytes());
    if code != 0 {
        return Err(Fail::new("failed", format!("{:?} exits with {} on a file of {} bytes: {}", op, code, size, err)));
    }
    let after = String::from_utf8(after).map_err(|_| Fail::new("unloadable", "the file is no longer text".to_string()))?;
    let got: Vec<&str> = after.lines().collect();
    let mut want: Vec<String> = lines.iter().map(|l| l.trim_end().to_string()).collect();
    if at != 100 {
        want.remove(k);
    }
    let own = format!("{}:", user);
    let (mine, rest): (Vec<&str>, Vec<&str>) = got.iter().copied().partition(|l| l.starts_with(&own));
    let mut rest: Vec<String> = rest.iter().map(|s| s.to_string()).collect();
    rest.sort();
    want.sort();
    if rest != want {
        let lost = want.iter().filter(|w| rest.binary_search(w).is_err()).count();
        return Err(Fail::new("others", format!("{:?} on a file of {} bytes: {} of the {} other lines are gone or altered, {} lines remain", op, size, lost, want.len(), rest.len())));
    }
    let ok = if del { mine.is_empty() } else { mine.len() == 1 && verifies(&mine[0][own.len()..], "new") };
    if !ok {
        return Err(Fail::new("change", format!("{:?} on a file of {} bytes leaves the lines {:?}", op, size, mine)));
    }
    let mut att = vec![("user000000".to_string(), if user == "user000000" { "new" } else { "pw" }.to_string()), (format!("user{:06}", n - 1), if user == format!("user{:06}", n - 1) { "new" } else { "pw" }.to_string())];
    if del {
        att.retain(|a| a.0 != user);
    }
    let adm = admitted(after.as_bytes(), &att, ctx.trace)?;
    if adm.iter().any(|a| !a) {
        return Err(Fail::new("authentication", format!("after {:?} on a file of {} bytes the broker answers {:?} with {:?}", op, size, att, adm)));
    }
    visit(&(size, at, del));
    outcome(&got.len());
    count_transitions(1);
    count_traces(1);
    Ok(())
}

/// One change to one of many users; everybody else's line must stay as it is.
fn many17(&(n, at, del, terminated): &(usize, usize, bool, bool), ctx: &Ctx) -> Fallible<()> {
    let hashes: Vec<String> = (0..5).map(|k| cheap_hash(&format!("pw{}", k), "c29tZXNhbHQ")).collect();
    let users: Vec<String> = (0..=n).map(|i| format!("user{}", i)).collect();
    let mut text: String = (0..n).map(|i| format!("{}:{}\n", users[i], hashes[i % 5])).collect();
    if !terminated {
        text.pop();
    }
    let mut map: BTreeMap<String, String> = (0..n).map(|i| (users[i].clone(), format!("pw{}", i % 5))).collect();
    let u = users[at].clone();
    let op = if del { Op::Del(u.clone()) } else { Op::Set(u.clone(), "new".into()) };
    if del {
        map.remove(&u);
    } else {
        map.insert(u.clone(), "new".into());
    }
    let (code, err, after) = run_tool(&op, text.as_bytes());
    if code != 0 {
        return Err(Fail::new("failed", format!("{:?} exits with {}: {}", op, code, err)));
    }
    let w = World17 { users: vec![u], passwords: vec!["new".into(), "pw0".into()], initial: 0, depth: 1 };
    judge17(&text, &map, &after, &w, ctx, false).map_err(|f| f.ctx(format!("{:?} in a file of {} users", op, n)))?;
    // the broker loads it and admits a few of them
    let mut att = vec![];
    for i in [0, n / 2, n.saturating_sub(1), at] {
        if let Some(p) = map.get(&users[i]) {
            att.push((users[i].clone(), p.clone()));
        }
    }
    let got = admitted(&after, &att, ctx.trace)?;
    if let Some(i) = got.iter().position(|g| !g) {
        return Err(Fail::new("authentication", format!("the broker refuses {:?} after {:?} in a file of {} users", att[i], op, n)));
    }
    visit(&(n, at, del, terminated));
    outcome(&got.len());
    count_transitions(1);
    count_traces(1);
    Ok(())
}

const STYLES: usize = 9;
/// The same change ordered in different ways.
fn styles17(&(k, del): &(usize, bool), ctx: &Ctx) -> Fallible<()> {
    let s = Scratch::new();
    let text = passwd_text(&[("carol", "cp"), ("bob", "old"), ("dave", "dp")]);
    std::fs::create_dir_all(s.0.join("sub dir/x")).unwrap();
    let path = match k {
        3 => s.0.join("sub dir/x/pass wd"),
        8 => s.0.join("sub dir/\u{e9}.d"),
        _ => s.file(),
    };
    std::fs::write(&path, &text).unwrap();
    let full = path.to_string_lossy().into_owned();
    let st = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let last: Vec<String> = if del { st(&["-d"]) } else { st(&["-p", "new"]) };
    let mut args = match k {
        0 => st(&["-f", "passwd", "-u", "bob"]),
        1 => st(&["-f", "./passwd", "-u", "bob"]),
        2 => st(&["--file", &full, "--user", "bob"]),
        4 => vec![format!("--file={}", full), "--user=bob".into()],
        5 => st(&["-u", "bob", "-f", &full]),
        6 => vec![format!("-f{}", full), "-ubob".into()],
        7 => st(&["-f", "sub dir/../passwd", "-u", "bob"]),
        _ => st(&["-f", &full, "-u", "bob"]),
    };
    match (k, del) {
        (2, true) => args.push("--delete".into()),
        (2, false) => args.extend(st(&["--password", "new"])),
        (4, false) => args.push("--password=new".into()),
        (5, _) => args.splice(0..0, last).for_each(drop),
        _ => args.extend(last),
    }
    let o = Command::new(tool()).args(&args).current_dir(&s.0).env_clear().stdin(Stdio::null()).output().expect("run the password tool");
    if !o.status.success() {
        return Err(Fail::new("failed", format!("{:?} fails: {}", args, String::from_utf8_lossy(&o.stderr))));
    }
    let after = std::fs::read(&path).map_err(|e| Fail::new("gone", format!("{:?}: {}", args, e)))?;
    let mut map: BTreeMap<String, String> = [("carol", "cp"), ("dave", "dp"), ("bob", "new")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if del {
        map.remove("bob");
    }
    let w = World17 { users: vec!["bob".into()], passwords: vec!["new".into(), "old".into()], initial: 0, depth: 1 };
    judge17(&text, &map, &after, &w, ctx, true).map_err(|f| f.ctx(format!("{:?}", args)))?;
    visit(&(k, del));
    outcome(&del);
    count_transitions(1);
    count_traces(1);
    Ok(())
}
/// The file keeps its mode, and a link to it stays a link.
fn mode17(&(mode, umask, del, link): &(u32, u32, bool, bool), ctx: &Ctx) -> Fallible<()> {
    use std::os::unix::fs::PermissionsExt;
    use std::os::unix::process::CommandExt;
    let s = Scratch::new();
    let text = passwd_text(&[("carol", "cp"), ("bob", "old"), ("dave", "dp")]);
    std::fs::create_dir_all(s.0.join("real")).unwrap();
    let path = s.0.join("real/passwd");
    std::fs::write(&path, &text).unwrap();
    std::fs::set_permissions(&path, std::fs::Permissions::from_mode(mode)).unwrap();
    let name = if link {
        std::os::unix::fs::symlink("real/passwd", s.file()).unwrap();
        s.file()
    } else {
        path.clone()
    };
    let op = if del { Op::Del("bob".into()) } else { Op::Set("bob".into(), "new".into()) };
    let mut c = Command::new(tool());
    c.args(op.args(&name)).current_dir(&s.0).env_clear().stdin(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            libc::umask(umask as libc::mode_t);
            Ok(())
        });
    }
    let o = c.output().expect("run the password tool");
    if !o.status.success() {
        return Err(Fail::new("failed", format!("{:?} fails: {}", op, String::from_utf8_lossy(&o.stderr))));
    }
    let after = std::fs::read(&path).map_err(|e| Fail::new("gone", format!("{:?}: {}", op, e)))?;
    let now = std::fs::metadata(&path).unwrap().permissions().mode() & 0o7777;
    if now != mode {
        return Err(Fail::new("mode", format!("{:?} with umask {:o} changes the file's mode from {:o} to {:o}", op, umask, mode, now)));
    }
    if link && !std::fs::symlink_metadata(s.file()).is_ok_and(|m| m.file_type().is_symlink()) {
        return Err(Fail::new("link", format!("{:?} replaces the link to the file", op)));
    }
    let mut map: BTreeMap<String, String> = [("carol", "cp"), ("dave", "dp"), ("bob", "new")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    if del {
        map.remove("bob");
    }
    let w = World17 { users: vec!["bob".into()], passwords: vec!["new".into(), "old".into()], initial: 0, depth: 1 };
    judge17(&text, &map, &after, &w, ctx, true)?;
    visit(&(mode, umask, del, link));
    outcome(&del);
    count_transitions(1);
    count_traces(1);
    Ok(())
}
fn worlds(name: &str, l: Vec<World17>) -> Family {
    cases(name, l, |w, ctx| explore17(w, ctx), |w| format!("users {:?}, passwords {:?}, initial file: {}", w.users, w.passwords.iter().map(|p| p.chars().take(20).collect::<String>()).collect::<Vec<_>>(), INITIAL[w.initial])).cpu_limit(120.0)
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug)]
struct Edit {
    name: &'static str,
    op: Op,
    content: String,
    place: Place,
}
/// How the name given to the tool leads to the file.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Place {
    Plain,
    Link,
    /// a link to a relative link in another directory
    Chain,
    /// a name without directory
    Relative,
    /// the file has another name as well
    Hard,
    /// only its owner may read it, nobody may write it
    ReadOnly,
    /// the directory has leftovers with similar names
    Leftovers,
    /// a name with detours
    Through(&'static str),
}
/// Entries as the tool makes them: all equally long apart from the names.
fn made_by_tool(users: &[&str]) -> String {
    static ENTRY: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    let e = ENTRY.get_or_init(|| {
        let (_, _, out) = run_tool(&Op::Set("bob".into(), "old".into()), b"");
        String::from_utf8_lossy(&out).trim_end().strip_prefix("bob:").unwrap_or("$argon2id$none").to_string()
    });
    users.iter().map(|u| format!("{}:{}\n", u, e)).collect()
}
fn edits(thorough: bool) -> Vec<Edit> {
    let two = passwd_text(&[("carol", "cp"), ("dave", "dp")]);
    let three = passwd_text(&[("carol", "cp"), ("bob", "old"), ("dave", "dp")]);
    let set = || Op::Set("bob".into(), "new".into());
    let del = || Op::Del("bob".into());
    let e = |name, op, content: &str| Edit { name, op, content: content.into(), place: Place::Plain };
    let mut v = vec![
        e("add", set(), &two),
        e("change", set(), &three),
        e("delete", del(), &three),
        e("add to a file without final newline", set(), two.trim_end()),
        e("delete the last entry of a file without final newline", Op::Del("dave".into()), three.trim_end()),
        e("add to an empty file", set(), ""),
        e("delete the only entry", del(), &passwd_text(&[("bob", "old")])),
        e("delete an absent user", del(), &two),
    ];
    v.push(e("change the only entry, which the tool made", set(), &made_by_tool(&["bob"])));
    v.push(e("change the last of the entries that the tool made", set(), &made_by_tool(&["ann", "bob"])));
    v.push(e("change the first of the entries that the tool made", set(), &made_by_tool(&["bob", "ann", "eve"])));
    v.push(e("delete one of the entries that the tool made", del(), &made_by_tool(&["ann", "bob", "eve"])));
    let p = |name, op, place| Edit { name, op, content: three.clone(), place };
    v.push(p("change through a symbolic link", set(), Place::Link));
    v.push(p("change through a chain of links", set(), Place::Chain));
    v.push(p("delete through a chain of links", del(), Place::Chain));
    v.push(p("change a file without directory", set(), Place::Relative));
    v.push(p("delete from a file without directory", del(), Place::Relative));
    v.push(p("change a file with two names", set(), Place::Hard));
    v.push(p("delete from a file with two names", del(), Place::Hard));
    v.push(p("change a read-only file", set(), Place::ReadOnly));
    v.push(p("delete from a read-only file", del(), Place::ReadOnly));
    v.push(p("change beside leftovers", set(), Place::Leftovers));
    v.push(p("delete beside leftovers", del(), Place::Leftovers));
    v.push(p("change by a way around", set(), Place::Through("real/../real/./passwd")));
    // larger than the usual buffers
    let n = if thorough { 400 } else { 140 };
    let h = cheap_hash("x", "c29tZXNhbHQ");
    let big: String = (0..n).map(|i| format!("user{}:{}\n", i, h)).collect();
    v.push(e("change in a large file", Op::Set("user7".into(), "new".into()), &big));
    v.push(e("delete in a large file", Op::Del("user7".into()), &big));
    v
}

struct Setup {
    s: Scratch,
    /// what is handed to the tool, relative to the scratch directory or absolute
    name: PathBuf,
    real: PathBuf,
}
impl Setup {
    /// by the name that the tool is given
    fn file(&self) -> PathBuf {
        self.s.0.join(&self.name)
    }
}
fn lay(e: &Edit) -> Setup {
    use std::os::unix::fs::{symlink, PermissionsExt};
    let s = Scratch::new();
    let f = s.file();
    let real = s.0.join("real");
    std::fs::create_dir_all(&real).unwrap();
    let (name, real) = match e.place {
        Place::Plain | Place::Hard | Place::ReadOnly | Place::Leftovers => (f.clone(), f.clone()),
        Place::Relative => (PathBuf::from("passwd"), f.clone()),
        Place::Link => {
            symlink(real.join("credentials"), &f).unwrap();
            (f.clone(), real.join("credentials"))
        }
        Place::Chain => {
            symlink("real/link", &f).unwrap();
            symlink("credentials", real.join("link")).unwrap();
            (f.clone(), real.join("credentials"))
        }
        Place::Through(p) => (s.0.join(p), real.join("passwd")),
    };
    std::fs::write(&real, &e.content).unwrap();
    match e.place {
        Place::Hard => std::fs::hard_link(&real, s.0.join("other name")).unwrap(),
        Place::ReadOnly => std::fs::set_permissions(&real, std::fs::Permissions::from_mode(0o400)).unwrap(),
        Place::Leftovers => {
            for n in ["passwd.tmp", "passwd.new", "passwd.bak", "passwd~", ".passwd.swp", ".passwd.tmp", "passwd.lock", "passwd.old", "passwd.1.tmp"] {
                std::fs::write(s.0.join(n), "left:by somebody\n".repeat(200)).unwrap();
            }
        }
        _ => {}
    }
    Setup { s, name, real }
}

/// The complete new content: the others' lines as they were, the user's entry as ordered.
fn is_new(e: &Edit, now: &str) -> bool {
    let (Some(was), Some(is)) = (entries(&e.content), entries(now)) else { return false };
    let u = e.op.user();
    let o1: Vec<_> = was.iter().filter(|x| x.0 != u).collect();
    let o2: Vec<_> = is.iter().filter(|x| x.0 != u).collect();
    let mine: Vec<_> = is.iter().filter(|x| x.0 == u).collect();
    if o1 != o2 {
        return false;
    }
    match &e.op {
        Op::Del(_) => mine.is_empty(),
        Op::Set(_, p) => mine.len() == 1 && (now.ends_with('\n') || true) && verifies(&mine[0].1, p),
    }
}

fn look(e: &Edit, l: &Setup) -> Fallible<&'static str> {
    let now = match std::fs::read_to_string(l.file()) {
        Ok(t) => t,
        Err(x) => return Err(Fail::new("gone", format!("the credential file cannot be read any more: {}", x))),
    };
    if now == e.content {
        return Ok("previous");
    }
    if is_new(e, &now) {
        return Ok("new");
    }
    Err(Fail::new("damaged", format!("the credential file holds neither its previous nor the complete new content: {:?} (before: {:?})", now, e.content)))
}

/// After the interruption somebody runs the tool again.
fn again(e: &Edit, l: &Setup) -> Fallible<()> {
    let before = std::fs::read_to_string(l.file()).unwrap_or_default();
    let op = Op::Del("nobody".into());
    for op in [op, Op::Del(e.op.user().to_string())] {
        let o = Command::new(tool()).args(op.args(&l.name)).current_dir(&l.s.0).env_clear().stdin(Stdio::null()).output().expect("run the password tool");
        if !o.status.success() {
            return Err(Fail::new("stuck", format!("{:?} after the interruption fails: {}", op, String::from_utf8_lossy(&o.stderr))));
        }
        let now = std::fs::read_to_string(l.file()).unwrap_or_default();
        let want: Vec<_> = entries(&before).unwrap_or_default().into_iter().filter(|x| x.0 != op.user()).collect();
        if entries(&now) != Some(want) {
            return Err(Fail::new("stuck", format!("{:?} after the interruption turns {:?} into {:?}", op, before, now)));
        }
    }
    Ok(())
}

/// A system call fails; after that the tool is killed before every system call and inside every write
/// that it makes then.
fn failed_and_killed(e: &Edit, k: usize, err: i32) -> Fallible<()> {
    let l = lay(e);
    let r = ptrace::run(&tool(), &e.op.args(&l.name), &l.s.0, &l.real, Plan::Fail(k, err));
    let what = || format!("{}: {} fails with error {}", e.name, r.calls.get(k).map(|c| ptrace::name(c.nr)).unwrap_or_default(), err);
    if !r.unsynced.is_empty() {
        // an error may be reported by fsync itself
        let fsync = r.calls.get(k).is_some_and(|c| matches!(c.nr, libc::SYS_fsync | libc::SYS_fdatasync));
        if !fsync || r.status == 0 {
            let c = &r.calls[r.unsynced[0]];
            return Err(Fail::new("unsynced", format!("{}: after {} the credential file is one whose content has not been written to the disk: a power failure leaves it empty or cut off", what(), ptrace::name(c.nr))));
        }
    }
    for (j, c) in r.calls.iter().enumerate().skip(k + 1) {
        if !ptrace::touches_files(c.nr) && j + 1 != r.calls.len() {
            continue;
        }
        interrupted(e, Plan::FailKill(k, err, j))?;
        let scratch = c.file.as_ref().is_some_and(|f| f.starts_with(&*env().dir.to_string_lossy()) && !f.ends_with(".stderr"));
        if ptrace::is_write(c.nr) && scratch {
            let n = c.args[2] as usize;
            for m in [0, 1, n / 2, n.saturating_sub(1), n] {
                interrupted(e, Plan::FailTorn(k, err, j, m))?;
            }
        }
    }
    Ok(())
}
/// Killed, and the one who runs it again is killed as well.
fn killed_twice(e: &Edit, i: usize, j: usize) -> Fallible<()> {
    let l = lay(e);
    let what = || format!("{}: killed before system call {}, then before {}", e.name, i, j);
    for k in [i, j] {
        let r = ptrace::run(&tool(), &e.op.args(&l.name), &l.s.0, &l.real, Plan::Kill(k));
        count_transitions(r.calls.len() as u64);
        look(e, &l).map_err(|f| f.ctx(what()))?;
    }
    visit(&(e.name, i, j));
    again(e, &l).map_err(|f| f.ctx(what()))
}

fn interrupted(e: &Edit, plan: Plan) -> Fallible<()> {
    let l = lay(e);
    let r = ptrace::run(&tool(), &e.op.args(&l.name), &l.s.0, &l.real, plan);
    let what = || {
        let i = match plan {
            Plan::None | Plan::Full(_) => None,
            Plan::Kill(i) | Plan::Torn(i, _) | Plan::Short(i, _) | Plan::Fail(i, _) | Plan::FailKill(_, _, i) | Plan::FailTorn(_, _, i, _) => r.calls.get(i),
        };
        format!("{}: {:?} ({})", e.name, plan, i.map(|c| format!("{} {}", ptrace::name(c.nr), c.file.clone().unwrap_or_default().rsplit('/').next().unwrap_or(""))).unwrap_or_default())
    };
    let got = look(e, &l).map_err(|f| f.ctx(what()))?;
    visit(&(e.name, plan, got));
    count_transitions(r.calls.len() as u64);
    match plan {
        Plan::None | Plan::Short(..) | Plan::Fail(..) | Plan::Full(_) => {
            // it was not interrupted: success means that the change is there
            if r.status == 0 && !is_new(e, &std::fs::read_to_string(l.file()).unwrap()) {
                return Err(Fail::new("damaged", format!("{}: reports success and the file holds its previous content", what())));
            }
            if matches!(plan, Plan::None | Plan::Short(..)) && r.status != 0 {
                return Err(Fail::new("failed", format!("{}: exit code {}: {}", what(), r.status, r.stderr)));
            }
        }
        _ => {}
    }
    if plan == Plan::None && !r.unsynced.is_empty() {
        let c = &r.calls[r.unsynced[0]];
        return Err(Fail::new("unsynced", format!("{}: after {} the credential file is one whose content has not been written to the disk: a power failure leaves it empty or cut off", e.name, ptrace::name(c.nr))));
    }
    again(e, &l).map_err(|f| f.ctx(what()))?;
    outcome(&got);
    sample(|| format!("{}: {} content", what(), got));
    Ok(())
}

fn c18(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let es = Arc::new(edits(tier.thorough()));
    let plans = |name: &str, l: Vec<(usize, Plan)>| {
        let (a, b) = (es.clone(), es.clone());
        cases(name.to_string(), l, move |(i, p), _| interrupted(&a[*i], *p), move |(i, p)| format!("{}, {:?}", b[*i].name, p)).cpu_limit(60.0)
    };
    v.push(plans("uninterrupted", (0..es.len()).map(|i| (i, Plan::None)).collect()));
    // one run of each shows its system calls
    let traces: Vec<Vec<ptrace::Call>> = std::thread::scope(|s| {
        let hs: Vec<_> = es
            .iter()
            .map(|e| {
                s.spawn(move || {
                    let l = lay(e);
                    ptrace::run(&tool(), &e.op.args(&l.name), &l.s.0, &l.real, Plan::None).calls
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let (mut kills, mut torn, mut fails, mut shorts, mut both, mut twice) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    let scratch = env().dir.to_string_lossy().into_owned();
    for (i, t) in traces.iter().enumerate() {
        for (k, c) in t.iter().enumerate() {
            kills.push((i, Plan::Kill(k)));
            let ours = c.file.as_ref().is_some_and(|f| f.starts_with(&scratch) && !f.ends_with(".stderr"));
            let step = |n: usize| -> Vec<usize> {
                // every prefix of what is short; of what is long every prefix near the ends and around powers of two and lines
                if i > 8 && !tier.thorough() {
                    (0..=n).filter(|k| *k < 3 || n - k < 3 || k % 29 == 0).collect()
                } else if n <= tier.pick(600, 4000) {
                    (0..=n).collect()
                } else {
                    (0..=n).filter(|k| *k < 40 || n - k < 40 || k % tier.pick(97, 7) == 0 || (k + 1) % 4096 < 3).collect()
                }
            };
            if ptrace::is_write(c.nr) && ours {
                for n in step(c.args[2] as usize) {
                    torn.push((i, Plan::Torn(k, n)));
                    if n > 0 && (n < 4 || n % tier.pick(50, 5) == 0) {
                        shorts.push((i, Plan::Short(k, n)));
                    }
                }
            }
            if ptrace::is_read(c.nr) && ours && c.ret > 0 {
                for n in step(c.ret as usize) {
                    if n > 0 && (n < 4 || n % tier.pick(50, 5) == 0) {
                        shorts.push((i, Plan::Short(k, n)));
                    }
                }
            }
            // what belongs to loading the program is the system's business
            let started = t.iter().take(k).any(|c| c.file.as_ref().is_some_and(|f| f.starts_with(&scratch)) || c.nr == libc::SYS_sigaltstack || c.nr == libc::SYS_poll);
            if ptrace::touches_files(c.nr) && started {
                for e in [libc::ENOSPC, libc::EIO, libc::EINTR, libc::EACCES, libc::EDQUOT, libc::EROFS, libc::EMFILE].into_iter().take(if i > 8 && !tier.thorough() { 4 } else { 7 }) {
                    fails.push((i, Plan::Fail(k, e)));
                }
                let few = tier.thorough() || [1, 8, 9, 12, 14].contains(&i);
                if few {
                    for e in [libc::EACCES, libc::ENOSPC, libc::EXDEV, libc::EPERM].into_iter().take(tier.pick(3, 4)) {
                        both.push((i, (k, e)));
                    }
                    for (k2, c2) in t.iter().enumerate() {
                        if ptrace::touches_files(c2.nr) && (k2 >= k || tier.thorough()) && c2.file.as_ref().is_some_and(|f| f.starts_with(&scratch)) {
                            twice.push((i, (k, k2)));
                        }
                    }
                }
            }
        }
    }
    v.push(plans("killed before a system call", kills));
    v.push(plans("killed inside a write", torn));
    v.push(plans("failing system calls", fails));
    v.push(plans("short reads and writes", shorts));
    // the new content is never longer than the previous one and one entry
    let mut full = vec![];
    for (i, e) in es.iter().enumerate() {
        let most = e.content.len() + 120;
        full.extend((0..=most).filter(|n| *n < 3 || n % tier.pick(if most > 1000 { 1500 } else { 37 }, 5) == 0).map(|n| (i, Plan::Full(n))));
    }
    v.push(plans("no room on the disk", full));
    let (a, b) = (es.clone(), es.clone());
    v.push(cases("killed after a failure", both, move |(i, (k, e)), _| failed_and_killed(&a[*i], *k, *e), move |(i, (k, e))| format!("{}, system call {} fails with error {}", b[*i].name, k, e)).cpu_limit(60.0));
    let (a, b) = (es.clone(), es.clone());
    v.push(cases("killed twice", twice, move |(i, (j, k)), _| killed_twice(&a[*i], *j, *k), move |(i, (j, k))| format!("{}, before system calls {} and {}", b[*i].name, j, k)).cpu_limit(60.0));
    v
}

// ------------------------------------------------------------------ C19

const KNOWN: &[(&str, &str)] = &[("fa", "a"), ("fb", "b"), ("fc", "c"), ("f d", "d"), ("f1", "e"), ("ft", "f"), ("fn", "g"), ("fu", "h")];
/// name of the credential file in the scratch directory -> its only user
const FILES: &[(&str, usize)] = &[("file-a", 0), ("file-b", 1), ("sub__dir/file:c", 2), ("with blank", 3), ("123", 4), ("true", 5), ("1.50", 6), ("\u{fc}mlaut", 7)];

#[derive(Clone, Debug, Default)]
struct Conf {
    /// None: there is no such file
    toml: Option<String>,
    vars: Vec<(String, String)>,
    /// listeners and user; None: loading must fail
    want: Option<(Vec<&'static str>, Option<usize>)>,
    what: String,
}

fn confdir() -> PathBuf {
    env().dir.join("settings")
}
fn fpath(i: usize) -> String {
    confdir().join(FILES[i].0).to_string_lossy().into_owned()
}

fn conf_run(c: &Conf, ctx: &Ctx) -> Fallible<()> {
    let path = confdir().join(format!("conf-{:x}.conf", hash(&c.what)));
    let _ = std::fs::remove_file(&path);
    match &c.toml {
        Some(t) => std::fs::write(&path, t).unwrap(),
        None => {}
    }
    std::env::set_current_dir(confdir()).unwrap();
    for (k, v) in &c.vars {
        std::env::set_var(k, v);
    }
    let r = Sys::boot(&path.to_string_lossy(), vec![], Explore::default(), ctx.trace);
    for (k, _) in &c.vars {
        std::env::remove_var(k);
    }
    let _ = std::fs::remove_file(&path);
    let mut s = r?;
    let ctxt = |f: Fail| f.ctx(format!("configuration {:?}, environment {:?}", c.toml, c.vars));
    visit(&(&c.toml, &c.vars));
    let bound: Vec<String> = mc::listeners().iter().map(|a| a.to_string()).collect();
    outcome(&(s.running(), &bound));
    sample(|| format!("{}: running {}, listening on {:?}", c.what, s.running(), bound));
    match &c.want {
        None => {
            if s.running() {
                return Err(ctxt(Fail::new("invented", format!("loading must fail, and the broker runs, listening on {:?}", bound))));
            }
            if !bound.is_empty() {
                return Err(ctxt(Fail::new("invented", format!("loading must fail, and the broker listens on {:?}", bound))));
            }
        }
        Some((ls, user)) => {
            if !s.running() {
                return Err(ctxt(Fail::new("not-loaded", format!("the broker does not run: {:?}", s.panics()))));
            }
            let mut want: Vec<String> = ls.iter().map(|l| l.to_string()).collect();
            want.sort();
            let mut got = bound.clone();
            got.sort();
            if want != got {
                return Err(ctxt(Fail::new("listeners", format!("the broker listens on {:?} instead of {:?}", got, want))));
            }
            if let Some(l) = ls.first() {
                let mut adm = vec![];
                for (i, (u, p)) in KNOWN.iter().enumerate() {
                    let k = s.open(l).unwrap();
                    s.send_pkts(k, &[connect_as(&format!("c{}", i), u, Some(p))]);
                    s.quiesce()?;
                    if s.outs(k).first() == Some(&Out::ConnAck { sp: 0, rc: 0 }) {
                        adm.push(i);
                    }
                }
                let want: Vec<usize> = user.iter().copied().collect();
                if adm != want {
                    let show = |v: &[usize]| v.iter().map(|i| FILES[*i].0).collect::<Vec<_>>();
                    return Err(ctxt(Fail::new("password-file", format!("the broker admits the users of {:?} instead of those of {:?}", show(&adm), show(&want)))));
                }
            }
        }
    }
    s.end();
    Ok(())
}

fn spellings(n: &str, all: bool) -> Vec<String> {
    let mut v = vec![n.to_string(), n.to_lowercase()];
    // capitalized words, and alternating
    let mut up = true;
    let cap: String = n
        .chars()
        .map(|c| {
            let r = if up { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            up = c == '_';
            r
        })
        .collect();
    v.push(cap);
    if all {
        v.push(n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c }).collect());
        v.push(n.chars().enumerate().map(|(i, c)| if i % 2 == 1 { c.to_ascii_lowercase() } else { c }).collect());
        v.push(format!("{}{}", &n[..8].to_lowercase(), &n[8..]));
        v.push(format!("{}{}", &n[..8], &n[8..].to_lowercase()));
    }
    v
}

fn c19(tier: Tier) -> Vec<Family> {
    let d = confdir();
    std::fs::create_dir_all(d.join("sub__dir")).unwrap();
    for (f, i) in FILES {
        std::fs::write(d.join(f), passwd_text(&[KNOWN[*i]])).unwrap();
    }
    const LT: &str = "RATELMQ_MQTT__LISTENERS_TCP";
    const PF: &str = "RATELMQ_AUTHENTICATION__PASSWORD_FILE";
    let mut list: Vec<Conf> = vec![];
    // places of the two settings in the file
    let fl: Vec<(&str, Option<Vec<&'static str>>)> = vec![("", None), ("listeners_tcp = [\"127.0.0.1:1883\"]\n", Some(vec![L1])), ("listeners_tcp = [\"[::1]:1883\", \"127.0.0.1:1883\"]\n", Some(vec![L3, L1])), ("listeners_tcp = []\n", Some(vec![]))];
    let fp: Vec<(String, Option<usize>)> = vec![(String::new(), None), (format!("password_file = {:?}\n", fpath(0)), Some(0)), ("password_file = \"file-b\"\n".to_string(), Some(1))];
    let extra = ["", "# RATELMQ_MQTT__LISTENERS_TCP\nunknown = 7\n"];
    let el: Vec<Option<(String, Vec<&'static str>)>> = {
        let mut v = vec![None];
        for sp in spellings(LT, tier.thorough()) {
            for (val, ls) in [("127.0.0.2:2883", vec![L2]), ("[::1]:1883,127.0.0.2:2883", vec![L3, L2]), ("127.0.0.2:2883, 127.0.0.1:1883 ,[::1]:1883", vec![L2, L1, L3])] {
                v.push(Some((format!("{}={}", sp, val), ls)));
            }
        }
        v
    };
    let ep: Vec<Option<(String, usize)>> = {
        let mut v = vec![None];
        for sp in spellings(PF, tier.thorough()) {
            for i in 0..FILES.len() {
                let val = if i % 2 == 0 || i == 3 { fpath(i) } else { FILES[i].0.to_string() };
                v.push(Some((format!("{}={}", sp, val), i)));
                if i > 3 {
                    v.push(Some((format!("{}={}", sp, FILES[i].0), i)));
                }
            }
        }
        v
    };
    let decoys: Vec<Vec<(&str, &str)>> = vec![
        vec![],
        vec![
            ("RATELMQ__MQTT__LISTENERS_TCP", "127.0.0.9:1"),
            ("RATELMQ_MQTT_LISTENERS_TCP", "127.0.0.9:2"),
            ("MQTT__LISTENERS_TCP", "127.0.0.9:3"),
            ("XRATELMQ_MQTT__LISTENERS_TCP", "127.0.0.9:4"),
            ("RATELMQMQTT__LISTENERS_TCP", "127.0.0.9:5"),
            ("RATELMQ_MQTT__LISTENERS_TCP_", "127.0.0.9:6"),
            ("RATELMQ_MQTT__LISTENERS", "127.0.0.9:7"),
            ("RATELMQ_MQTT__LISTENERS_TCPS", "127.0.0.9:8"),
            ("RATELMQ_LISTENERS_TCP", "127.0.0.9:9"),
            ("LISTENERS_TCP", "127.0.0.9:10"),
            ("listeners_tcp", "127.0.0.9:11"),
            ("RATEL_MQTT__LISTENERS_TCP", "127.0.0.9:12"),
            ("RATELMQ_SETTINGS__MQTT__LISTENERS_TCP", "127.0.0.9:13"),
            ("RATELMQ.MQTT.LISTENERS_TCP", "127.0.0.9:14"),
        ],
        vec![
            ("RATELMQ__AUTHENTICATION__PASSWORD_FILE", "file-a"),
            ("RATELMQ_AUTHENTICATION_PASSWORD_FILE", "file-b"),
            ("AUTHENTICATION__PASSWORD_FILE", "file-b"),
            ("RATELMQ_PASSWORD_FILE", "file-b"),
            ("PASSWORD_FILE", "file-a"),
            ("RATELMQ_AUTHENTICATION__PASSWORD", "file-b"),
            ("RATELMQ_AUTHENTICATION__PASSWORD_FILES", "file-b"),
            ("RATELMQ_MQTT__PASSWORD_FILE", "file-b"),
            ("RATELMQ_AUTHENTICATION__LISTENERS_TCP", "127.0.0.9:1"),
            ("RATELMQ", "x"),
            ("RATELMQ_", "x"),
            ("RATELMQ_UNKNOWN", "x"),
            ("RATELMQ_UNKNOWN__KEY", "x"),
            ("RATELMQ_PORT", "1"),
        ],
    ];
    for (ft, fls) in &fl {
        for (pt, fpf) in &fp {
            for x in extra {
                for sections in 0..2 {
                    // an empty section may also be left out
                    let mut t = String::new();
                    if sections == 0 || !ft.is_empty() {
                        t += "[mqtt]\n";
                        t += ft;
                        t += x;
                    }
                    if sections == 0 || !pt.is_empty() {
                        t += "[authentication]\n";
                        t += pt;
                        t += x;
                    }
                    if sections == 1 && !ft.is_empty() && !pt.is_empty() && x.is_empty() {
                        continue;
                    }
                    for e1 in &el {
                        for e2 in &ep {
                            for (di, d) in decoys.iter().enumerate() {
                                if !tier.thorough() && di > 0 && (!x.is_empty() || (e1.is_some() && e2.is_some())) {
                                    continue;
                                }
                                let mut vars: Vec<(String, String)> = d.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                                for e in [e1.as_ref().map(|e| &e.0), e2.as_ref().map(|e| &e.0)].into_iter().flatten() {
                                    let (k, v) = e.split_once('=').unwrap();
                                    vars.push((k.into(), v.into()));
                                }
                                let ls = e1.as_ref().map(|e| e.1.clone()).or(fls.clone());
                                let pf = e2.as_ref().map(|e| e.1).or(*fpf);
                                let want = match (ls, pf) {
                                    (Some(l), Some(p)) => Some((l, Some(p))),
                                    _ => None,
                                };
                                list.push(Conf { toml: Some(t.clone()), vars, want, what: format!("file {:?}, environment {:?} {:?}, decoys {}", t, e1.as_ref().map(|e| &e.0), e2.as_ref().map(|e| &e.0), di) });
                            }
                        }
                    }
                }
            }
        }
    }
    let mut v = vec![];
    let whole = |e: bool| if e { vec![(LT.to_string(), "127.0.0.2:2883".to_string()), (PF.to_string(), fpath(1))] } else { vec![] };
    let good = format!("[mqtt]\nlisteners_tcp = [\"127.0.0.1:1883\"]\n[authentication]\npassword_file = {:?}\n", fpath(0));
    let mut bad: Vec<Conf> = vec![];
    for e in [false, true] {
        bad.push(Conf { toml: None, vars: whole(e), want: None, what: format!("no file, environment complete: {}", e) });
        for (n, t) in [("cut off", &good[..good.len() - 5]), ("not TOML", "listeners: 1"), ("unclosed list", "[mqtt]\nlisteners_tcp = [\n"), ("twice", "[mqtt]\nlisteners_tcp=[]\nlisteners_tcp=[]\n"), ("JSON", "{\"mqtt\":{\"listeners_tcp\":[\"127.0.0.1:1883\"]},\"authentication\":{\"password_file\":\"file-a\"}}")] {
            bad.push(Conf { toml: Some(t.to_string()), vars: whole(e), want: None, what: format!("{}, environment complete: {}", n, e) });
        }
    }
    for (n, t) in [
        ("empty", String::new()),
        ("no authentication", "[mqtt]\nlisteners_tcp = [\"127.0.0.1:1883\"]\n".into()),
        ("no listeners", format!("[authentication]\npassword_file = {:?}\n", fpath(0))),
        ("keys in the wrong section", format!("[authentication]\nlisteners_tcp = [\"127.0.0.1:1883\"]\n[mqtt]\npassword_file = {:?}\n", fpath(0))),
        ("keys at the top", format!("listeners_tcp = [\"127.0.0.1:1883\"]\npassword_file = {:?}\n", fpath(0))),
        ("password file missing", "[mqtt]\nlisteners_tcp = [\"127.0.0.1:1883\"]\n[authentication]\npassword_file = \"no-such-file\"\n".into()),
        ("listeners of another type", format!("[mqtt]\nlisteners_tcp = 7\n[authentication]\npassword_file = {:?}\n", fpath(0))),
        ("listeners a table", format!("[mqtt.listeners_tcp]\na = \"127.0.0.1:1883\"\n[authentication]\npassword_file = {:?}\n", fpath(0))),
        ("password file a list", "[mqtt]\nlisteners_tcp = [\"127.0.0.1:1883\"]\n[authentication]\npassword_file = [\"file-a\"]\n".into()),
        ("similar keys", format!("[mqtt]\nlisteners-tcp = [\"127.0.0.1:1883\"]\n[authentication]\npasswordfile = {:?}\n", fpath(0))),
    ] {
        bad.push(Conf { toml: Some(t), vars: vec![], want: None, what: n.into() });
    }
    // empty values are values
    bad.push(Conf { toml: Some(good.clone()), vars: vec![(LT.into(), String::new())], want: None, what: "listeners empty in the environment".into() });
    bad.push(Conf { toml: Some(good.clone()), vars: vec![(PF.into(), String::new())], want: None, what: "password file empty in the environment".into() });
    bad.push(Conf { toml: Some(good.clone()), vars: vec![(PF.into(), "no-such-file".into())], want: None, what: "password file of the environment missing".into() });
    bad.push(Conf { toml: Some(good.clone()), vars: vec![], want: Some((vec![L1], Some(0))), what: "plain".into() });
    v.push(cases("unusable configurations", bad, conf_run, |c| c.what.clone()).threads(1));
    v.push(cases("places, spellings, decoys", list, conf_run, |c| c.what.clone()).threads(1));
    v.extend(super::more7::c19(tier));
    v
}

// ------------------------------------------------------------------ C28

/// Runs the tool to its end, whatever fails: 0 means that the file is as ordered, anything else that it is as it was.
fn reported(e: &Edit, plan: Plan) -> Fallible<()> {
    let l = lay(e);
    let r = ptrace::run(&tool(), &e.op.args(&l.name), &l.s.0, &l.real, plan);
    count_transitions(r.calls.len() as u64);
    let what = || format!("{}: {:?}", e.name, plan);
    let now = std::fs::read(l.file()).unwrap_or_default();
    let done = std::str::from_utf8(&now).is_ok_and(|n| is_new(e, n));
    visit(&(e.name, plan, r.status));
    outcome(&(r.status, done));
    status(r.status, done, now == e.content.as_bytes(), &r.stderr).map_err(|f| f.ctx(what()))?;
    if plan == Plan::None && done && r.status != 0 {
        return Err(refused(r.status, &r.stderr).ctx(what()));
    }
    sample(|| format!("{}: exit status {}, {}", what(), r.status, if done { "done" } else { "not done" }));
    Ok(())
}

fn refused(code: i32, stderr: &str) -> Fail {
    Fail::new("refused", format!("the tool reports failure (exit status {}) although nothing went wrong and the file is as ordered: {}", code, stderr))
}

fn status(code: i32, done: bool, same: bool, stderr: &str) -> Fallible<()> {
    if code == 0 && !done {
        return Err(Fail::new("success", format!("the tool reports success (exit status 0) although the file is not as ordered: {}", stderr)));
    }
    if code != 0 && !same {
        return Err(Fail::new("failure", format!("the tool reports failure (exit status {}) although it has changed the file: {}", code, stderr)));
    }
    if code != 0 && stderr.trim().is_empty() {
        return Err(Fail::new("silent", format!("the tool fails (exit status {}) without a word", code)));
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Call28 {
    user: String,
    /// none: delete
    password: Option<String>,
    file: usize,
}

/// Files the tool may meet. None: there is none.
fn files28() -> Vec<(&'static str, Option<Vec<u8>>)> {
    let two = passwd_text(&[("carol", "cp"), ("bob", "bp")]).into_bytes();
    let mut crlf = String::from_utf8(two.clone()).unwrap().replace('\n', "\r\n").into_bytes();
    let mut bad = two.clone();
    bad.extend(b"\xff\xfe:x\n");
    let mut latin = b"m\xfcller:".to_vec();
    latin.extend(&two);
    crlf.truncate(crlf.len());
    let mut blank = two.clone();
    blank.extend(b"\n\n");
    let mut odd = two.clone();
    odd.extend(b"no colon\n");
    let mut nul = two.clone();
    nul.extend(b"n\0l:x\n");
    vec![
        ("two users", Some(two.clone())),
        ("made by the tool", Some(made_by_tool(&["carol", "bob"]).into_bytes())),
        ("no final newline", Some(two[..two.len() - 1].to_vec())),
        ("empty", Some(vec![])),
        ("missing", None),
        ("CRLF", Some(crlf)),
        ("bytes that are not UTF-8", Some(bad)),
        ("Latin-1", Some(latin)),
        ("blank lines", Some(blank)),
        ("a line without colon", Some(odd)),
        ("a NUL", Some(nul)),
        ("only newlines", Some(b"\n\n\n".to_vec())),
    ]
}

fn call28(c: &Call28, _: &Ctx) -> Fallible<()> {
    let (_, content) = &files28()[c.file];
    let s = Scratch::new();
    if let Some(t) = content {
        std::fs::write(s.file(), t).unwrap();
    }
    let op = match &c.password {
        Some(p) => Op::Set(c.user.clone(), p.clone()),
        None => Op::Del(c.user.clone()),
    };
    let o = Command::new(tool()).args(op.args(&s.file())).current_dir(&s.0).env_clear().stdin(Stdio::null()).output().expect("run the password tool");
    let now = std::fs::read(s.file()).ok();
    // whose lines a user name is: everything up to the first colon
    let lines = |b: &[u8]| -> Vec<Vec<u8>> { b.split(|x| *x == b'\n').filter(|l| !l.is_empty() && *l != b"\r").map(|l| l.to_vec()).collect() };
    let owner = |l: &Vec<u8>| -> Option<Vec<u8>> { l.iter().position(|x| *x == b':').map(|i| l[..i].to_vec()) };
    let was = lines(content.as_deref().unwrap_or_default());
    let is = lines(now.as_deref().unwrap_or_default());
    let me = Some(c.user.as_bytes().to_vec());
    let strip = |l: &Vec<u8>| l.strip_suffix(b"\r").map(|x| x.to_vec()).unwrap_or(l.clone());
    let mine: Vec<_> = is.iter().filter(|l| owner(l) == me).collect();
    let others = |v: &[Vec<u8>]| v.iter().filter(|l| owner(l) != me).map(strip).collect::<Vec<_>>();
    let done = now.is_some()
        && !c.user.contains(['\n', ':'])
        && others(&was) == others(&is)
        && match &c.password {
            None => mine.is_empty(),
            Some(p) => mine.len() == 1 && std::str::from_utf8(&strip(mine[0])[c.user.len() + 1..]).is_ok_and(|h| verifies(h, p)),
        };
    visit(&(&c.user, &c.password, c.file));
    outcome(&(o.status.code(), done));
    let e = String::from_utf8_lossy(&o.stderr).into_owned();
    let code = o.status.code().unwrap_or(-1);
    status(code, done, now == *content, &e)?;
    // a file that is not text, or a name that looks like an option, may be refused even if all is as ordered already
    if done && code != 0 && !c.user.starts_with('-') && content.as_ref().is_some_and(|c| std::str::from_utf8(c).is_ok()) {
        return Err(refused(code, &e));
    }
    sample(|| format!("{:?}: exit status {:?}", c, o.status.code()));
    Ok(())
}

pub(super) fn c28(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let es = Arc::new(edits(tier.thorough()));
    let plans = |name: &str, l: Vec<(usize, Plan)>| {
        let (a, b) = (es.clone(), es.clone());
        cases(name.to_string(), l, move |(i, p), _| reported(&a[*i], *p), move |(i, p)| format!("{}, {:?}", b[*i].name, p)).cpu_limit(60.0)
    };
    v.push(plans("nothing fails", (0..es.len()).map(|i| (i, Plan::None)).collect()));
    let (mut fails, mut shorts, mut full) = (vec![], vec![], vec![]);
    let scratch = env().dir.to_string_lossy().into_owned();
    for (i, e) in es.iter().enumerate() {
        let l = lay(e);
        let t = ptrace::run(&tool(), &e.op.args(&l.name), &l.s.0, &l.real, Plan::None).calls;
        for (k, c) in t.iter().enumerate() {
            let ours = c.file.as_ref().is_some_and(|f| f.starts_with(&scratch) && !f.ends_with(".stderr"));
            let started = t.iter().take(k).any(|c| c.file.as_ref().is_some_and(|f| f.starts_with(&scratch)) || c.nr == libc::SYS_sigaltstack || c.nr == libc::SYS_poll);
            if ptrace::touches_files(c.nr) && started {
                for e in [libc::ENOSPC, libc::EIO, libc::EINTR, libc::EACCES, libc::EPERM, libc::ENOENT, libc::EROFS, libc::EDQUOT, libc::EMFILE, libc::EXDEV, libc::EINVAL, libc::ENOSYS, libc::EAGAIN] {
                    fails.push((i, Plan::Fail(k, e)));
                }
            }
            let n = if ptrace::is_write(c.nr) { c.args[2] as i64 } else { c.ret };
            if (ptrace::is_write(c.nr) || ptrace::is_read(c.nr)) && ours && n > 0 {
                for m in [1, 2, n / 2, n - 1] {
                    if m > 0 && m < n {
                        shorts.push((i, Plan::Short(k, m as usize)));
                    }
                }
            }
        }
        let most = e.content.len() + 120;
        full.extend((0..=most).filter(|n| *n < 3 || n % tier.pick(if most > 1000 { 1500 } else { 37 }, 5) == 0).map(|n| (i, Plan::Full(n))));
    }
    v.push(plans("failing system calls", fails));
    v.push(plans("short reads and writes", shorts));
    v.push(plans("no room on the disk", full));
    let mut calls = vec![];
    let users = ["bob", "carol", "new", "", " ", "bob ", "Bob", "a:b", ":", "bob:", "a\nb", "bob\n", "\n", "bob\r", "\r", "-u", "-", "--", "--delete", "\u{e9}", "\u{1f980}", "b.b", "bo+b", "(", "[", "\\", "$", "^bob", "bob|carol", "\t", "#bob", "no colon", "\u{feff}bob", "\u{2028}"];
    let passwords: Vec<Option<String>> = vec![None, Some("pw".into()), Some("".into()), Some(" ".into()), Some("a:b".into()), Some("a\nb".into()), Some("-d".into()), Some("\u{e9}".into()), Some("p".repeat(5000))];
    for u in users.iter().map(|u| u.to_string()).chain(["n".repeat(3000)]) {
        for p in &passwords {
            for file in 0..files28().len() {
                if tier.thorough() || file < 4 || p.as_ref().is_none_or(|p| p == "pw" || p == "") {
                    calls.push(Call28 { user: u.clone(), password: p.clone(), file });
                }
            }
        }
    }
    v.push(cases("names, passwords and files", calls, call28, |c| format!("{:?} on a file with {}", c, files28()[c.file].0)).cpu_limit(60.0));
    v
}

// ------------------------------------------------------------------ C31

/// Who may do what with a file.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Rights {
    uid: u32,
    gid: u32,
    mode: u32,
}
impl Rights {
    fn of(m: &std::fs::Metadata) -> Rights {
        use std::os::unix::fs::MetadataExt;
        Rights { uid: m.uid(), gid: m.gid(), mode: m.mode() & 0o777 }
    }
    /// Nobody may read or change it who may not read or change the other; root may anyway.
    fn within(&self, o: &Rights) -> bool {
        [0o4, 0o2].iter().all(|b| {
            let (all, group) = (o.mode & b != 0, o.mode >> 3 & b != 0);
            let other_ok = self.mode & b == 0 || all;
            let group_ok = self.mode >> 3 & b == 0 || all || (group && self.gid == o.gid);
            // an owner can give himself what he has not
            let owner_ok = self.uid == 0 || self.uid == o.uid || all;
            other_ok && group_ok && owner_ok
        })
    }
}

#[derive(Clone, Debug)]
struct Guarded {
    edit: usize,
    before: Rights,
    umask: u32,
    plan: Plan,
}

/// The files below a directory.
fn files_below(d: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        match e.file_type() {
            Ok(t) if t.is_dir() => files_below(&e.path(), out),
            Ok(t) if t.is_file() => out.push(e.path()),
            _ => {}
        }
    }
}

fn guarded(es: &[Edit], g: &Guarded) -> Fallible<bool> {
    use std::os::unix::fs::{chown, MetadataExt, PermissionsExt};
    let e = &es[g.edit];
    let l = lay(e);
    std::fs::set_permissions(&l.real, std::fs::Permissions::from_mode(g.before.mode)).unwrap();
    if chown(&l.real, Some(g.before.uid), Some(g.before.gid)).is_err() {
        // not in this environment
        return Ok(false);
    }
    let before = Rights::of(&std::fs::metadata(&l.real).unwrap());
    let key = |m: &std::fs::Metadata| (m.dev(), m.ino());
    // what was there before, but for the credentials, is not the tool's
    let mut there = vec![];
    files_below(&l.s.0, &mut there);
    let own = key(&std::fs::metadata(&l.real).unwrap());
    let there: HashSet<(u64, u64)> = there.iter().filter_map(|p| std::fs::metadata(p).ok()).map(|m| key(&m)).filter(|k| *k != own).collect();
    struct Seen {
        name: String,
        largest: u64,
        rights: Vec<Rights>,
    }
    let mut seen: BTreeMap<(u64, u64), Seen> = BTreeMap::new();
    let mut calls = 0u64;
    let dir = l.s.0.clone();
    let mut see = |pid: Option<i32>| {
        calls += 1;
        let mut now = vec![];
        files_below(&dir, &mut now);
        if let Some(pid) = pid {
            // also what it has open elsewhere, or under no name
            for f in std::fs::read_dir(format!("/proc/{}/fd", pid)).into_iter().flatten().flatten() {
                let Ok(to) = std::fs::read_link(f.path()) else { continue };
                let opened = std::fs::symlink_metadata(f.path()).map(|m| m.mode() & 0o200 != 0).unwrap_or(false);
                if opened && to.starts_with("/") && !to.starts_with("/dev") && !to.starts_with("/proc") {
                    now.push(f.path());
                }
            }
        }
        for p in now {
            let Ok(m) = std::fs::metadata(&p) else { continue };
            if !m.is_file() || there.contains(&key(&m)) || p.ends_with(".stderr") {
                continue;
            }
            if std::fs::read_link(&p).is_ok_and(|t| t.ends_with(".stderr")) {
                continue;
            }
            let s = seen.entry(key(&m)).or_insert_with(|| Seen { name: p.to_string_lossy().into_owned(), largest: 0, rights: vec![] });
            s.largest = s.largest.max(m.len());
            let r = Rights::of(&m);
            if s.rights.last() != Some(&r) {
                s.rights.push(r);
            }
        }
    };
    let r = ptrace::run_seen(&tool(), &e.op.args(&l.name), &l.s.0, &l.real, g.plan, Some(g.umask), &mut see);
    count_transitions(calls);
    count_traces(1);
    let text = |s: &Seen| {
        let list: Vec<String> = s.rights.iter().map(|r| format!("{:o} {}:{}", r.mode, r.uid, r.gid)).collect();
        format!("{} (umask {:o}, {:?}): the credential file is {:o} {}:{}; {} is {}", e.name, g.umask, g.plan, before.mode, before.uid, before.gid, s.name.rsplit('/').next().unwrap(), list.join(", then "))
    };
    for s in seen.values().filter(|s| s.largest > 0) {
        if !s.rights.iter().all(|r| r.within(&before)) {
            return Err(Fail::new("disclosed", format!("credentials are open to others: {}", text(s))));
        }
    }
    let now = Rights::of(&std::fs::metadata(&l.real).map_err(|x| Fail::new("gone", x.to_string()))?);
    if r.status == 0 && now != before {
        return Err(Fail::new("changed", format!("{} (umask {:o}, {:?}) turns a file that is {:o} {}:{} into one that is {:o} {}:{}", e.name, g.umask, g.plan, before.mode, before.uid, before.gid, now.mode, now.uid, now.gid)));
    }
    visit(&(g.edit, before, g.umask, g.plan));
    outcome(&(seen.values().map(|s| s.rights.len()).collect::<Vec<_>>(), r.status));
    Ok(true)
}

pub(super) fn c31(tier: Tier) -> Vec<Family> {
    let es = Arc::new(edits(tier.thorough()));
    let ids = tier.pick(vec![(0u32, 0u32), (1234, 4321), (0, 4321)], vec![(0, 0), (1234, 4321), (0, 4321), (1234, 0), (65_534, 65_534)]);
    let modes = tier.pick(vec![0o600u32, 0o640, 0o660, 0o644, 0o400], (0..8).flat_map(|g: u32| (0..8).filter(move |o| o & !g == 0).map(move |o| 0o600 | g << 3 | o)).chain([0o400, 0o440, 0o444]).collect());
    let umasks = tier.pick(vec![0o022u32, 0, 0o077], vec![0o022, 0, 0o077, 0o027, 0o002, 0o777]);
    let family = |name: &str, l: Vec<Guarded>| {
        let (a, b) = (es.clone(), es.clone());
        cases(
            name.to_string(),
            l,
            move |g, _| {
                let judged = guarded(&a, g)?;
                sample(|| format!("{}: {:?}{}", a[g.edit].name, g, if judged { "" } else { ": not possible here" }));
                Ok(())
            },
            move |g| format!("{}, {:?}", b[g.edit].name, g),
        )
        .cpu_limit(60.0)
    };
    let mut all = vec![];
    for edit in 0..es.len() {
        for &(uid, gid) in &ids {
            for &mode in &modes {
                for &umask in &umasks {
                    all.push(Guarded { edit, before: Rights { uid, gid, mode }, umask, plan: Plan::None });
                }
            }
        }
    }
    let mut v = vec![family("owners, groups, modes and umasks", all)];
    // where it is killed, and what may fail
    let mut broken = vec![];
    let pick = |n: &str| es.iter().position(|e| e.name == n).unwrap();
    for edit in tier.pick(vec![pick("change"), pick("delete through a chain of links")], (0..es.len()).collect()) {
        let l = lay(&es[edit]);
        let calls = ptrace::run(&tool(), &es[edit].op.args(&l.name), &l.s.0, &l.real, Plan::None).calls;
        for (i, c) in calls.iter().enumerate() {
            if !ptrace::touches_files(c.nr) {
                continue;
            }
            let own = matches!(c.nr, libc::SYS_chown | libc::SYS_fchown | libc::SYS_fchownat | libc::SYS_lchown);
            let mut plans = vec![Plan::Kill(i)];
            if ptrace::is_write(c.nr) {
                let n = c.args[2] as usize;
                plans.extend([Plan::Torn(i, n / 2), Plan::Short(i, n / 2)]);
            }
            if !own {
                plans.extend(tier.pick(vec![libc::EIO, libc::EPERM, libc::ENOENT], vec![libc::EIO, libc::EPERM, libc::EACCES, libc::ENOENT, libc::EEXIST, libc::EXDEV, libc::ENOSPC, libc::EINTR, libc::EROFS, libc::ENOSYS]).into_iter().map(|e| Plan::Fail(i, e)));
            }
            for plan in plans {
                for &(uid, gid, mode) in tier.pick(&[(1234u32, 4321u32, 0o640u32)][..], &[(1234, 4321, 0o640), (0, 0, 0o600), (0, 4321, 0o660)]) {
                    broken.push(Guarded { edit, before: Rights { uid, gid, mode }, umask: 0o022, plan });
                }
            }
        }
    }
    v.push(family("killed and failing runs", broken));
    v
}
