//! Several runs of the password tool at once (C32).
use super::admin::{entries, tool, verifies, Op, Scratch};
use crate::env::passwd_text;
use crate::explore::*;
use crate::race::{race, Turn};
use crate::report::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex, OnceLock};

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C32", families: c32, rule: "for a list of combinations of two and three edits of one file: all schedules of the real processes, switched at the system calls by which they touch files, with up to two preemptions (thorough: three), and with one of them killed at any point: the final file must be that of some order of the runs, with every run that reported success and none that reported a failure; after every step the file is complete", assumptions: &["a process interrupted between two system calls leaves the same files as one interrupted at the next system call", "all runs are on one machine"] }]
}

struct Rivals {
    name: &'static str,
    ops: Vec<Op>,
    content: String,
    /// the i-th names the file through a symbolic link
    link: Option<usize>,
}

fn rivals() -> Vec<Rivals> {
    let set = |u: &str, p: &str| Op::Set(u.into(), p.into());
    let del = |u: &str| Op::Del(u.into());
    let two = || passwd_text(&[("carol", "cp"), ("dave", "dp")]);
    let four = || passwd_text(&[("carol", "cp"), ("bob", "old"), ("ann", "old"), ("dave", "dp")]);
    let r = |name, ops: &[Op], content: String| Rivals { name, ops: ops.to_vec(), content, link: None };
    let mut v = vec![
        r("two users are added", &[set("ann", "one"), set("bob", "two")], two()),
        r("two users are changed", &[set("ann", "one"), set("bob", "two")], four()),
        r("one user is changed twice", &[set("bob", "one"), set("bob", "two")], four()),
        r("one is added, one deleted", &[set("eve", "one"), del("bob")], four()),
        r("two users are deleted", &[del("ann"), del("bob")], four()),
        r("one user is set and deleted", &[set("bob", "one"), del("bob")], four()),
        r("the first two users", &[set("ann", "one"), set("bob", "two")], String::new()),
        r("one is added, an absent one deleted", &[set("eve", "one"), del("nobody")], two().trim_end().to_string()),
    ];
    v.push(Rivals { link: Some(1), ..r("two users are added, under two names of the file", &[set("ann", "one"), set("bob", "two")], two()) });
    v.push(r("three users are added", &[set("ann", "one"), set("bob", "two"), set("eve", "three")], two()));
    v.push(r("one is added, one changed, one deleted", &[set("eve", "one"), set("bob", "two"), del("ann")], four()));
    v.push(r("three users are deleted", &[del("carol"), del("bob"), del("ann")], four()));
    v
}

/// user -> its line
fn lines(t: &str) -> Option<BTreeMap<String, String>> {
    let e = entries(t)?;
    let n = e.len();
    let m: BTreeMap<_, _> = e.into_iter().collect();
    (m.len() == n).then_some(m)
}

fn orders(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for o in orders(n - 1) {
        for at in 0..n {
            let mut o = o.clone();
            o.insert(at, n - 1);
            v.push(o);
        }
    }
    v
}

fn laid(r: &Rivals) -> (Scratch, Vec<Vec<String>>) {
    let s = Scratch::new();
    let real: PathBuf = s.0.join("passwd");
    std::fs::write(&real, &r.content).unwrap();
    std::os::unix::fs::symlink("passwd", s.0.join("other")).unwrap();
    let args = r.ops.iter().enumerate().map(|(i, o)| o.args(&if r.link == Some(i) { s.0.join("other") } else { real.clone() })).collect();
    (s, args)
}

fn raced(r: &Rivals, turns: &[Turn]) -> Fallible<()> {
    let (s, args) = laid(r);
    let real = s.0.join("passwd");
    let mut broken: Option<String> = None;
    let untouched = |t: &str| -> bool {
        let Some(e) = entries(t) else { return false };
        let Some(was) = entries(&r.content) else { return false };
        let touched = |u: &str| r.ops.iter().any(|o| o.user() == u);
        was.iter().filter(|x| !touched(&x.0)).eq(e.iter().filter(|x| !touched(&x.0)))
    };
    let mut states = 0u64;
    let mut seen: Vec<Vec<u8>> = vec![];
    let done = {
        let mut see = || {
            states += 1;
            let now = std::fs::read(&real).unwrap_or_default();
            if seen.last() != Some(&now) {
                seen.push(now.clone());
            }
            if broken.is_none() && !std::str::from_utf8(&now).is_ok_and(|t| untouched(t) && (t.is_empty() || t.ends_with('\n') || t == r.content)) {
                broken = Some(format!("after {} steps the file holds {:?}", states, String::from_utf8_lossy(&now)));
            }
        };
        race(&tool(), &args, &s.0, turns, &mut see).map_err(|e| Fail::new("stuck", format!("these runs never end: {}", e)))?
    };
    count_transitions(states);
    visit(&(seen.len(), done.iter().map(|d| (d.status, d.steps)).collect::<Vec<_>>()));
    if let Some(b) = broken {
        return Err(Fail::new("damaged", b));
    }
    let after = std::fs::read_to_string(&real).map_err(|e| Fail::new("gone", format!("the file cannot be read any more: {}", e)))?;
    let (Some(was), Some(is)) = (lines(&r.content), lines(&after)) else {
        return Err(Fail::new("damaged", format!("the file ends up as {:?}", after)));
    };
    outcome(&(is.keys().cloned().collect::<Vec<_>>(), done.iter().map(|d| d.status).collect::<Vec<_>>()));
    // whose hash is it that a user has in the end?
    let fits = |ran: &[usize]| -> bool {
        let mut m: BTreeMap<&str, Result<&str, &str>> = was.iter().map(|(u, h)| (u.as_str(), Ok(h.as_str()))).collect();
        for i in ran {
            match &r.ops[*i] {
                Op::Set(u, p) => m.insert(u, Err(p)),
                Op::Del(u) => m.remove(u.as_str()),
            };
        }
        m.keys().copied().eq(is.keys().map(|k| k.as_str()))
            && m.iter().all(|(u, x)| match x {
                Ok(h) => is[*u] == *h,
                Err(p) => verifies(&is[*u], p),
            })
    };
    let n = r.ops.len();
    let ok = orders(n).into_iter().any(|o| {
        // one that was killed has had its effect or not
        (0..1usize << n).any(|had| {
            let ran: Vec<usize> = o.iter().copied().filter(|i| had >> i & 1 == 1).collect();
            (0..n).all(|i| match done[i].status {
                0 => had >> i & 1 == 1,
                x if x == -libc::SIGKILL => true,
                _ => had >> i & 1 == 0,
            }) && fits(&ran)
        })
    });
    let all = || done.iter().zip(&r.ops).map(|(d, o)| format!("{:?} ended with status {}{}", o, d.status, if d.stderr.is_empty() { String::new() } else { format!(" ({})", clip(d.stderr.trim(), 200)) })).collect::<Vec<_>>().join(", ");
    sample(|| format!("{}: {}; users {:?}", turns.len(), all(), is.keys().collect::<Vec<_>>()));
    if !ok {
        return Err(Fail::new("lost", format!("{}; no order of these runs makes {:?} of {:?}", all(), after, r.content)));
    }
    // nothing stands in the way of the next one
    if !done.iter().any(|d| d.status < 0) && turns.len() > 1 && !matches!(turns[1], Turn::Steps(_, 2 | 7)) {
        return Ok(());
    }
    let op = Op::Set("next".into(), "pw".into());
    let mut c = Command::new(tool()).args(op.args(&real)).current_dir(&s.0).env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("run the password tool");
    let t0 = std::time::Instant::now();
    let st = loop {
        match c.try_wait().unwrap() {
            Some(st) => break Some(st),
            None if t0.elapsed() > crate::real::PATIENCE => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(std::time::Duration::from_millis(2)),
        }
    };
    let end = std::fs::read_to_string(&real).unwrap_or_default();
    if !st.is_some_and(|s| s.success()) || !end.starts_with(&after) || !lines(&end).is_some_and(|l| l.contains_key("next")) {
        return Err(Fail::new("blocked", format!("the next run ended with {:?} and left {:?} of {:?}", st, end, after)));
    }
    Ok(())
}

/// How many steps each takes on its own.
fn lengths() -> &'static Vec<Vec<usize>> {
    static L: OnceLock<Vec<Vec<usize>>> = OnceLock::new();
    L.get_or_init(|| {
        let out = Mutex::new(BTreeMap::new());
        std::thread::scope(|sc| {
            for (k, r) in rivals().into_iter().enumerate() {
                let out = &out;
                sc.spawn(move || {
                    let (s, args) = laid(&r);
                    // one after another
                    let l = race(&tool(), &args, &s.0, &[], &mut || {}).map(|d| d.iter().map(|d| d.steps).collect()).unwrap_or_else(|_| vec![30; args.len()]);
                    out.lock().unwrap().insert(k, l);
                });
            }
        });
        out.into_inner().unwrap().into_values().collect()
    })
}

fn c32(tier: Tier) -> Vec<Family> {
    let all = Arc::new(rivals());
    let len = lengths();
    let mut v = vec![];
    let mut add = |name: &str, list: Vec<(usize, Vec<Turn>)>| {
        let (a, b) = (all.clone(), all.clone());
        v.push(cases(name, list, move |(k, t), _| raced(&a[*k], t), move |(k, t)| format!("{}: {:?}", b[*k].name, t)).cpu_limit(120.0));
    };
    use Turn::*;
    let (mut two, mut kill, mut deep, mut three) = (vec![], vec![], vec![], vec![]);
    for (k, r) in all.iter().enumerate() {
        if r.ops.len() == 2 {
            for (a, b) in [(0, 1), (1, 0)] {
                for i in 0..=len[k][a] {
                    for j in 1..=len[k][b] + 2 {
                        two.push((k, vec![Steps(a, i), Steps(b, j), Steps(a, 1000), Steps(b, 1000)]));
                        if tier.thorough() || k < 2 || k == 5 {
                            for who in [a, b] {
                                kill.push((k, vec![Steps(a, i), Steps(b, j), Kill(who)]));
                            }
                        }
                        if tier.thorough() {
                            for x in 1..=len[k][a] {
                                deep.push((k, vec![Steps(a, i), Steps(b, j), Steps(a, x), Steps(b, 1000)]));
                            }
                        }
                    }
                }
            }
        } else {
            for o in orders(3) {
                for i in 1..=len[k][o[0]] {
                    for j in 1..=len[k][o[1]] {
                        if tier.thorough() || (i + j) % 3 == 0 {
                            three.push((k, vec![Steps(o[0], i), Steps(o[1], j), Steps(o[2], 1000), Steps(o[0], 1000)]));
                            three.push((k, vec![Steps(o[0], i), Steps(o[1], j), Steps(o[2], 1000), Steps(o[1], 1000)]));
                        }
                    }
                }
            }
        }
    }
    add("two at once", two);
    add("one of two is killed", kill);
    add("three at once", three);
    if tier.thorough() {
        add("two at once, three preemptions", deep);
    }
    v
}
