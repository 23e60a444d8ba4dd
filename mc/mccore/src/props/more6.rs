//! Start-up (C27) and what is logged (C29).
use super::routing::WORLD;
use super::session::auth_config;
use crate::codec::*;
use crate::env::{cheap_hash, env, passwd_text, write_config, USERS};
use crate::explore::*;
use crate::hist::sequences;
use crate::report::*;
use crate::sys::*;
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use tokio::mc::{self, CloseMode, Explore};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C27", families: c27, rule: "all lists of up to three listener addresses out of valid, invalid, occupied and unbindable ones; every truncation and many single-byte damages of the configuration file; every truncation, every byte that is not text and every damaged line of credential files; missing files, directories and broken links: the process must have ended with nothing bound, or run with exactly the configured listeners and users", assumptions: &[WORLD, "a listener address is valid if it is an IP address and a port", "a configuration file that is damaged but still valid with other values is not judged"] },
        Check { id: "C29", families: c29, rule: "everything logged at every level, and every panic message, searched for any five consecutive characters of a presented password or a stored hash, plain, as numbers or in hexadecimal: all shapes of CONNECT with all outcomes of authentication, malformed and cut CONNECTs, every damage of a stored hash and of credential lines, all histories of two clients up to a depth", assumptions: &[WORLD, "what is sent in place of a user name or client id is no password"] },
    ]
}

static SEQ: AtomicU64 = AtomicU64::new(0);
/// Files of its own for one execution.
struct Files(PathBuf);
impl Files {
    fn new() -> Files {
        let d = env().dir.join(format!("start-{}-{}", std::process::id(), SEQ.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).unwrap();
        Files(d)
    }
    fn path(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
    fn name(&self, n: &str) -> String {
        self.path(n).to_string_lossy().into_owned()
    }
}
impl Drop for Files {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

// ------------------------------------------------------------------ C27

/// Listeners and users to expect, or None if the broker must not start.
type Want<'a> = Option<(Vec<&'static str>, Vec<(&'a str, &'a str)>)>;

fn start(config: &str, want: Want, what: &dyn Fn() -> String, ctx: &Ctx) -> Fallible<()> {
    let busy: Vec<(&str, i32)> = UNBINDABLE.to_vec();
    let mut s = Sys::boot_in(config, vec![], Explore::default(), ctx.trace, || {
        mc::with(|w| w.net.unbindable = busy.iter().map(|(a, e)| (a.parse().unwrap(), *e)).collect());
    })?;
    // whatever is tried again is tried again
    for _ in 0..200 {
        if !s.running() || !mc::fire_timers() {
            break;
        }
        s.quiesce()?;
    }
    let mut bound: Vec<String> = mc::listeners().iter().map(|a| a.to_string()).collect();
    bound.sort();
    let ctxt = |f: Fail| f.ctx(what());
    let exited = mc::with(|w| w.exited);
    visit(&(&bound, s.running(), &want));
    outcome(&(s.running(), &bound));
    sample(|| format!("{}: running {}, listening on {:?}", what(), s.running(), bound));
    match want {
        None => {
            if s.running() {
                return Err(ctxt(Fail::new("half-started", format!("the broker runs, listening on {:?}, although its configuration cannot be honoured", bound))));
            }
            if !bound.is_empty() {
                return Err(ctxt(Fail::new("half-started", format!("the broker is still listening on {:?}", bound))));
            }
            if exited == Some(0) || (exited.is_none() && s.panics().is_empty()) {
                return Err(ctxt(Fail::new("silent", "the broker ends as if all were well")));
            }
        }
        Some((addrs, users)) => {
            if !s.running() {
                return Err(ctxt(Fail::new("not-started", format!("the broker does not run: {:?} {:?}", s.panics(), exited))));
            }
            s.check_panics().map_err(ctxt)?;
            let mut exp: Vec<String> = addrs.iter().map(|a| a.to_string()).collect();
            exp.sort();
            if exp != bound {
                return Err(ctxt(Fail::new("listeners", format!("the broker listens on {:?} instead of {:?}", bound, exp))));
            }
            for (i, a) in addrs.iter().enumerate() {
                for (k, (u, p)) in users.iter().enumerate() {
                    let c = s.open(a).ok_or_else(|| ctxt(Fail::new("refused", format!("{} does not accept", a))))?;
                    s.send_pkts(c, &[connect_as(&format!("c{}-{}", i, k), u, Some(p)), subscribe(3, &["t"]), publish("t", "x")]);
                    s.quiesce()?;
                    let o = s.outs(c);
                    if o.len() != 3 || o[0] != (Out::ConnAck { sp: 0, rc: 0 }) || !o[2].is_delivery() {
                        return Err(ctxt(Fail::new("not-served", format!("user {:?} connecting to {} receives {:?}", u, a, o))));
                    }
                    s.send_pkts(c, &[Pkt::Disconnect]);
                    s.quiesce()?;
                }
            }
        }
    }
    s.end();
    Ok(())
}

const UNBINDABLE: &[(&str, i32)] = &[("127.0.0.7:1883", libc::EADDRINUSE), ("10.1.2.3:1883", libc::EADDRNOTAVAIL), ("127.0.0.1:80", libc::EACCES)];

fn good(users: &[(&str, &str)]) -> String {
    passwd_text(users)
}

fn c27(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // lists of listeners
    let mut alpha: Vec<&'static str> = vec![L1, L2, L3, "", " ", "127.0.0.1", "127.0.0.1:", "127.0.0.1:99999", "127.0.0.1:-1", "127.0.0.1:x", "127.0.0.1:1883 ", "nonsense", "[::1]", "1883"];
    alpha.extend(UNBINDABLE.iter().map(|u| u.0));
    let ok = [L1, L2, L3];
    let mut lists: Vec<Vec<&'static str>> = vec![vec![]];
    for d in 1..=3 {
        lists.extend(sequences(alpha.len(), d, &|_| true).into_iter().map(|s| s.iter().map(|i| alpha[*i as usize]).collect()));
    }
    if tier.thorough() {
        let small = [L1, L2, L3, "127.0.0.1", "127.0.0.7:1883"];
        lists.extend(sequences(small.len(), 5, &|_| true).into_iter().map(|s| s.iter().map(|i| small[*i as usize]).collect()));
    }
    let valid = move |l: &[&'static str]| l.iter().all(|a| ok.contains(a)) && l.iter().collect::<BTreeSet<_>>().len() == l.len();
    v.push(cases(
        "lists of listeners",
        lists.clone(),
        move |l, ctx| {
            let f = Files::new();
            std::fs::write(f.path("passwd"), good(USERS)).unwrap();
            write_config(&f.path("conf"), l, &f.path("passwd"));
            let want = valid(l).then(|| (l.clone(), USERS.to_vec()));
            start(&f.name("conf"), want, &|| format!("listeners {:?}", l), ctx)
        },
        |l| format!("{:?}", l),
    ));
    // the same through the environment
    let few: Vec<Vec<&'static str>> = lists.iter().filter(|l| !l.is_empty() && l.iter().all(|a| a.trim() == *a) && (tier.thorough() || l.len() < 3 || hash(l) % 7 == 0)).cloned().collect();
    v.push(
        cases(
            "lists of listeners in the environment",
            few,
            move |l, ctx| {
                let f = Files::new();
                std::fs::write(f.path("passwd"), good(USERS)).unwrap();
                write_config(&f.path("conf"), &[L1], &f.path("passwd"));
                std::env::set_var("RATELMQ_MQTT__LISTENERS_TCP", l.join(","));
                let want = valid(l).then(|| (l.clone(), USERS.to_vec()));
                let r = start(&f.name("conf"), want, &|| format!("listeners in the environment {:?}", l), ctx);
                std::env::remove_var("RATELMQ_MQTT__LISTENERS_TCP");
                r
            },
            |l| format!("{:?}", l),
        )
        .threads(1),
    );
    // the configuration file: byte-wise damage, judged by a parser of its own
    #[derive(Clone, Debug)]
    enum D {
        Cut(usize),
        Del(usize),
        Ins(usize, u8),
        Set(usize, u8),
    }
    fn damage(b: &[u8], d: &D) -> Vec<u8> {
        let mut v = b.to_vec();
        match *d {
            D::Cut(n) => v.truncate(n),
            D::Del(n) => {
                v.remove(n);
            }
            D::Ins(n, c) => v.insert(n, c),
            D::Set(n, c) => v[n] = c,
        }
        v
    }
    let damages = |n: usize, set: &[u8]| {
        let mut v = vec![];
        for i in 0..n {
            v.push(D::Cut(i));
            v.push(D::Del(i));
            for &c in set {
                v.push(D::Ins(i, c));
                v.push(D::Set(i, c));
            }
        }
        v
    };
    // the name of the credential file is relative so that all texts have the same length
    let text = |two: bool| format!("[mqtt]\nlisteners_tcp = [ {:?}{} ]\n\n[authentication]\npassword_file = \"passwd\"\n", L1, if two { format!(", {:?}", L2) } else { String::new() });
    let set: Vec<u8> = tier.pick(vec![b'"', b'\n', 0xff, b'=', b'[', b'x'], (0..=255).collect());
    let list: Vec<(bool, D)> = [false, true].into_iter().flat_map(|two| damages(text(two).len(), &set).into_iter().map(move |d| (two, d))).collect();
    v.push(cases(
        "damaged configuration file",
        list,
        move |(two, d), ctx| {
            let f = Files::new();
            std::fs::write(f.path("passwd"), good(USERS)).unwrap();
            let whole = text(*two);
            let b = damage(whole.as_bytes(), d);
            // the real name goes in where the relative one is still whole
            let rel = b"\"passwd\"";
            let abs = format!("{:?}", f.path("passwd"));
            let b: Vec<u8> = match b.windows(rel.len()).position(|w| w == rel) {
                Some(i) => [&b[..i], abs.as_bytes(), &b[i + rel.len()..]].concat(),
                None => b,
            };
            let orig = whole.replace("\"passwd\"", &abs);
            std::fs::write(f.path("conf"), &b).unwrap();
            let value = |t: &[u8]| std::str::from_utf8(t).ok().and_then(|t| toml::from_str::<toml::Value>(t).ok());
            let ls = if *two { vec![L1, L2] } else { vec![L1] };
            let want = match value(&b) {
                None => None,
                Some(v) if Some(&v) == value(orig.as_bytes()).as_ref() => Some((ls, USERS.to_vec())),
                Some(_) => return Ok(()),
            };
            start(&f.name("conf"), want, &|| format!("configuration file {:?}", String::from_utf8_lossy(&b)), ctx)
        },
        |(two, d)| format!("{:?} of the file with {} listeners", d, 1 + *two as usize),
    ));
    // the credential file
    const THREE: &[(&str, &str)] = &[("alice", "wonder"), ("bob", "builder"), ("carol", "c:d e")];
    let whole = good(THREE);
    let mut list: Vec<D> = damages(whole.len(), &[b'\n', 0xff, 0xc3]);
    list.push(D::Cut(whole.len()));
    if tier.thorough() {
        list.extend((0..whole.len()).flat_map(|i| (0..=255u8).map(move |c| D::Set(i, c))));
    }
    v.push(cases(
        "damaged credential file",
        list,
        move |d, ctx| {
            let b = damage(whole.as_bytes(), d);
            let f = Files::new();
            std::fs::write(f.path("passwd"), &b).unwrap();
            write_config(&f.path("conf"), &[L1], &f.path("passwd"));
            let want = match std::str::from_utf8(&b) {
                Err(_) => None,
                Ok(t) if t.lines().any(|l| !l.contains(':')) => None,
                // whose line is whole, and the only one of that user
                Ok(t) => {
                    let ls: Vec<&str> = t.lines().collect();
                    let users = THREE.iter().filter(|u| ls.contains(&good(&[**u]).trim_end()) && ls.iter().filter(|l| l.starts_with(&format!("{}:", u.0))).count() == 1).copied().collect();
                    Some((vec![L1], users))
                }
            };
            start(&f.name("conf"), want, &|| format!("credential file {:?}", String::from_utf8_lossy(&b)), ctx)
        },
        |d| format!("{:?}", d),
    ));
    // a bad line among good ones
    let bad = ["", " ", "alice", "no separator here", "$argon2id$v=19$m=8,t=1,p=1$c29tZXNhbHQ", "#", "# comment", "alice;x", "\u{fc}", "[users]", "{}", "\t"];
    let mut list = vec![];
    for n in 0..=3usize {
        for at in 0..=n {
            for b in bad {
                for nl in ["\n", ""] {
                    for twice in [false, true] {
                        let mut l: Vec<String> = THREE[..n].iter().map(|u| good(&[*u]).trim_end().to_string()).collect();
                        l.insert(at, b.to_string());
                        if twice {
                            l.insert(at, b.to_string());
                        }
                        let t = l.join("\n") + nl;
                        list.push(t);
                    }
                }
            }
        }
    }
    v.push(cases(
        "a bad line among good ones",
        list,
        move |t, ctx| {
            let f = Files::new();
            std::fs::write(f.path("passwd"), t).unwrap();
            write_config(&f.path("conf"), &[L1], &f.path("passwd"));
            let ok = t.lines().all(|l| l.contains(':'));
            let users = THREE.iter().filter(|u| t.contains(&good(&[**u])) || t.ends_with(good(&[**u]).trim_end())).copied().collect();
            start(&f.name("conf"), ok.then_some((vec![L1], users)), &|| format!("credential file {:?}", t), ctx)
        },
        |t| format!("{:?}", t),
    ));
    // files that are no files
    let kinds = ["missing", "directory", "link to nothing", "link to itself", "below a file", "link to the file", "empty", "empty name"];
    let mut list = vec![];
    for k in kinds {
        for what in ["configuration", "credentials"] {
            for n in 1..=3usize {
                list.push((k, what, n));
            }
        }
    }
    v.push(cases(
        "files that are no files",
        list,
        move |(k, what, n), ctx| {
            let f = Files::new();
            let ls = &[L1, L2, L3][..*n];
            let cred = *what == "credentials";
            std::fs::write(f.path("passwd"), good(USERS)).unwrap();
            write_config(&f.path("conf"), ls, &f.path("passwd"));
            let mut name = f.path(if cred { "other" } else { "conf2" });
            let target = f.path(if cred { "passwd" } else { "conf" });
            match *k {
                "directory" => std::fs::create_dir(&name).unwrap(),
                "link to nothing" => std::os::unix::fs::symlink(f.path("nothing"), &name).unwrap(),
                "link to itself" => std::os::unix::fs::symlink(&name, &name).unwrap(),
                "below a file" => name = target.join("x"),
                "link to the file" => std::os::unix::fs::symlink(&target, &name).unwrap(),
                "empty" => std::fs::write(&name, "").unwrap(),
                "empty name" => name = PathBuf::new(),
                _ => {}
            }
            let mut users = USERS.to_vec();
            let ok = match *k {
                "link to the file" => true,
                "empty" => cred,
                _ => false,
            };
            let conf = if cred {
                write_config(&f.path("conf"), ls, &name);
                if *k == "empty" {
                    users.clear();
                }
                f.path("conf")
            } else {
                name
            };
            start(&conf.to_string_lossy(), ok.then_some((ls.to_vec(), users)), &|| format!("{} file: {}, {} listeners", what, k, n), ctx)
        },
        |(k, what, n)| format!("{} file: {}, {} listeners", what, k, n),
    ));
    v.extend(super::more7::c27(tier));
    v
}

// ------------------------------------------------------------------ C29

/// Looks for parts of secrets in what was logged, also in other notations.
pub fn leaks(log: &str, secrets: &[&str]) -> Option<String> {
    const N: usize = 5;
    for s in secrets {
        let b = s.as_bytes();
        let n = N.min(b.len());
        for w in b.windows(n) {
            let forms = [
                String::from_utf8_lossy(w).into_owned(),
                w.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", "),
                w.iter().map(|c| format!("{:02x}", c)).collect::<String>(),
                w.iter().map(|c| format!("{:02X}", c)).collect::<String>(),
                w.iter().map(|c| format!("{:02x}", c)).collect::<Vec<_>>().join(", "),
                w.iter().map(|c| format!("{:x?}", c)).collect::<Vec<_>>().join(" "),
            ];
            for f in forms {
                if let Some(l) = log.lines().find(|l| l.contains(&f)) {
                    return Some(format!("{:?} of the secret {:?} in the line {:?}", f, s, l));
                }
            }
        }
    }
    None
}

/// Passwords made so that no part of them is in anything else.
pub const PW: &[&str] = &["zQ7#kW2!vX9@hJ", "Yp&4^Gm8%Tc3*Rb", "Ld6=Fs1+Nq5~Uw"];
/// A very short one, one with characters that are escaped, one that looks like markup.
pub const ODD: &[&str] = &["\u{b6}\u{a7}\u{a4}", "\u{b5}}\t\n\u{ac}{\"\u{b6}\\", "$argon2id$v=19$%s{}{0}"];
const WHO: &[&str] = &["anna", "bert"];

pub fn cred() -> String {
    WHO.iter().zip(PW).map(|(u, p)| format!("{}:{}\n", u, cheap_hash(p, "U2FsdE9mTXlIYXNo"))).collect()
}
/// What is secret in a line of the credential file: salt and hash.
pub fn stored(text: &str) -> Vec<String> {
    text.lines().flat_map(|l| l.rsplit('$').take(2).map(|x| x.to_string()).collect::<Vec<_>>()).filter(|x| x.len() >= 8 && !x.contains('=')).collect()
}
fn quiet_log(s: &Sys, file: &str, more: &[&str], what: &dyn Fn() -> String) -> Fallible<()> {
    let mut log = captured_log();
    for p in s.panics() {
        log.push_str(&p);
        log.push('\n');
    }
    let st = stored(file);
    let mut secrets: Vec<&str> = PW.to_vec();
    secrets.extend(st.iter().map(|x| x.as_str()));
    secrets.extend(more);
    outcome(&log.lines().count());
    visit(&(log.lines().count(), s.conns.iter().map(|c| c.out.len()).collect::<Vec<_>>()));
    sample(|| format!("{}: {} lines logged, the last one {:?}", what(), log.lines().count(), log.lines().last()));
    if log.is_empty() {
        return Err(Fail::new("harness", "nothing is logged at all"));
    }
    match leaks(&log, &secrets) {
        Some(l) => Err(Fail::new("leak", l).ctx(what())),
        None => Ok(()),
    }
}
fn boot_logged(file: &str, trace: bool) -> Fallible<Sys> {
    capture_log();
    Sys::boot(&auth_config(file), vec![], Explore::default(), trace)
}

fn c29(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let file = Arc::new(cred());
    // shapes of CONNECT
    let long = "zQ7#kW2!vX9@hJ".repeat(4000);
    let users = [None, Some("anna"), Some("bert"), Some("ANNA"), Some("nobody"), Some("")];
    let passes: Vec<Option<String>> = vec![None, Some(PW[0].into()), Some(PW[1].into()), Some(PW[2].into()), Some(format!("{}x", PW[0])), Some(long), Some(ODD[0].into()), Some(ODD[1].into()), Some(ODD[2].into())];
    let mut list = vec![];
    for u in users {
        for p in &passes {
            for id in ["c", "", "anna"] {
                for clean in [true, false] {
                    for keep in [0u16, 60] {
                        for will in [None, Some(Will { topic: "w".into(), payload: b"last".to_vec(), qos: 0, retain: false })] {
                            for then in 0..7usize {
                                list.push((Pkt::Connect { id: id.into(), clean, keep, will: will.clone(), user: u.map(|u| u.into()), pass: p.clone() }, then));
                            }
                        }
                    }
                }
            }
        }
    }
    let f = file.clone();
    let then = |k: usize| -> Vec<Pkt> {
        match k {
            0 => vec![],
            1 => vec![Pkt::Disconnect],
            2 => vec![connect_as("again", "anna", Some(PW[1]))],
            3 => vec![subscribe(1, &["#"]), publish("t", "x"), unsubscribe(2, &["#"]), Pkt::PingReq],
            4 => vec![Pkt::Raw(vec![0x80, 5, 0, 1, 0, 0, 0])],
            5 => vec![Pkt::PubRel(7), Pkt::PubAck(7), publish_q("t", "x", 2, 9)],
            _ => vec![connect_as("c", "nobody", Some(PW[2]))],
        }
    };
    v.push(cases(
        "shapes of CONNECT",
        list,
        move |(c, k), ctx| {
            let mut s = boot_logged(&f, ctx.trace)?;
            let a = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
            s.send_pkts(a, &[c.clone()]);
            s.quiesce()?;
            s.send_pkts(a, &then(*k));
            s.quiesce()?;
            s.close(a, [CloseMode::Close, CloseMode::Reset, CloseMode::Fin][*k % 3]);
            s.quiesce()?;
            s.interrupt();
            s.quiesce()?;
            quiet_log(&s, &f, ODD, &|| format!("{} then {:?}", clip(&format!("{:?}", c), 300), then(*k)))?;
            s.end();
            Ok(())
        },
        |(c, k)| format!("{} then {}", clip(&format!("{:?}", c), 300), k),
    ));
    // malformed and cut CONNECTs
    let base: Vec<Vec<u8>> = [connect_as("c", "anna", Some(PW[0])), connect_as("c", "nobody", Some(PW[2])), connect_as("", "bert", Some(PW[0]))].iter().map(|p| p.encode()).collect();
    let mut list: Vec<(String, Vec<u8>)> = vec![];
    for (i, b) in base.iter().enumerate() {
        for n in 0..=b.len() {
            list.push((format!("CONNECT {} cut after {} bytes", i, n), b[..n].to_vec()));
        }
        for bit in 0..8 {
            for at in [0usize, 9] {
                let mut m = b.clone();
                m[at] ^= 1 << bit;
                list.push((format!("CONNECT {} with bit {} of byte {} flipped", i, bit, at), m));
            }
        }
        for at in 2..9 {
            for c in [0u8, 3, 5, b'X', 0xff] {
                let mut m = b.clone();
                m[at] = c;
                list.push((format!("CONNECT {} with byte {} replaced by {}", i, at, c), m));
            }
        }
        for add in 1..4usize {
            // more, or less, announced than there is
            let mut m = b.clone();
            m[1] += add as u8;
            list.push((format!("CONNECT {} announcing {} bytes more", i, add), m.clone()));
            m.extend(vec![b'!'; add]);
            list.push((format!("CONNECT {} with {} bytes more", i, add), m));
            let mut m = b.clone();
            m[1] -= add as u8;
            list.push((format!("CONNECT {} announcing {} bytes less", i, add), m));
        }
        for (n, junk) in [("a byte that is no text", vec![0xff]), ("NUL", vec![0]), ("half a character", vec![0xc3])] {
            // in the password, at its beginning, in its middle and at its end
            let pl = PW[if i == 1 { 2 } else { 0 }].len();
            for at in [b.len() - pl, b.len() - pl / 2, b.len() - 1] {
                let mut m = b.clone();
                m[at..at + junk.len()].copy_from_slice(&junk);
                list.push((format!("CONNECT {} with {} at {} of the password", i, n, at + pl - b.len()), m));
            }
        }
        for at in [b.len() - PW[0].len() - 1, b.len() - PW[0].len() - 2] {
            for c in [0u8, 1, 5, 200, 255] {
                let mut m = b.clone();
                m[at] = c;
                list.push((format!("CONNECT {} with another length of the password, {} at {}", i, c, at), m));
            }
        }
    }
    let list: Vec<(String, Vec<u8>, bool)> = list.into_iter().flat_map(|(n, b)| [false, true].map(|c| (n.clone(), b.clone(), c))).collect();
    let f = file.clone();
    v.push(cases(
        "malformed and cut CONNECT",
        list,
        move |(n, b, close), ctx| {
            let mut s = boot_logged(&f, ctx.trace)?;
            let a = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
            s.send(a, b);
            s.quiesce()?;
            if *close {
                s.close(a, CloseMode::Fin);
            } else {
                s.send_pkts(a, &[Pkt::PingReq, connect_as("c", "anna", Some(PW[0]))]);
            }
            s.quiesce()?;
            s.idle(1000)?;
            s.close(a, CloseMode::Reset);
            s.quiesce()?;
            // only what any reader must take for a password
            let clean = match classify(b) {
                (p, _, _) if p.is_empty() => true,
                (p, _, _) => p.iter().all(|p| matches!(p, Pkt::Connect { id, user, .. } if leaks(&format!("{} {:?}", id, user), PW).is_none())),
            };
            if clean {
                quiet_log(&s, &f, &[], &|| format!("{}: {}", n, hex(b)))?;
            }
            s.end();
            Ok(())
        },
        |(n, _, c)| format!("{}, then {}", n, if *c { "closed" } else { "more" }),
    ));
    // damaged hashes
    let line = cred().lines().next().unwrap().to_string();
    let from = line.find(':').unwrap() + 1;
    let mut list = vec![];
    for i in from..=line.len() {
        list.push((format!("cut at {}", i), line[..i].to_string()));
        if i < line.len() {
            for c in ["", "$", "!", "=", ",", " ", ":", "\u{fc}", "A"] {
                list.push((format!("{:?} in place of byte {}", c, i), format!("{}{}{}", &line[..i], c, &line[i + 1..])));
            }
        }
    }
    let orig = line.clone();
    v.push(cases(
        "damaged hashes",
        list,
        move |(n, l), ctx| {
            let text = format!("{}\n{}", l, cred().lines().nth(1).unwrap());
            let mut s = boot_logged(&text, ctx.trace)?;
            for (i, p) in [PW[0], PW[2]].iter().enumerate() {
                let Some(a) = s.open(L1) else { break };
                s.send_pkts(a, &[connect_as(&format!("c{}", i), "anna", Some(p)), Pkt::PingReq]);
                s.quiesce()?;
            }
            let more = stored(&orig);
            let more: Vec<&str> = more.iter().map(|x| x.as_str()).collect();
            quiet_log(&s, &text, &more, &|| format!("hash {}: {:?}", n, l))?;
            s.end();
            Ok(())
        },
        |(n, _)| n.clone(),
    ));
    // damaged lines of the credential file
    let ls: Vec<String> = cred().lines().map(|l| l.to_string()).collect();
    let mut list: Vec<(String, String)> = vec![];
    for (n, d) in [("no user", ls[0][from..].to_string()), ("semicolon", ls[0].replace(':', ";")), ("blank", ls[0].replace(':', " ")), ("equals", ls[0].replace(':', "=")), ("password in plain", PW[2].to_string()), ("only a name", "anna".into()), ("two colons", ls[0].replace(':', "::")), ("password in plain after a colon", format!("carl:{}", PW[2])), ("twice", ls[0].clone())] {
        for at in 0..=2 {
            let mut l = ls.clone();
            l.insert(at, d.clone());
            list.push((format!("{} at line {}", n, at), l.join("\n")));
        }
        let mut l = ls.clone();
        l[0] = d;
        list.push((format!("{} instead of the first line", n), l.join("\n") + "\n"));
    }
    v.push(cases(
        "damaged credential files",
        list,
        move |(n, t), ctx| {
            let mut s = boot_logged(t, ctx.trace)?;
            for (i, (u, p)) in [("anna", PW[0]), ("anna", PW[2]), ("carl", PW[2]), ("nobody", PW[1])].iter().enumerate() {
                let Some(a) = s.open(L1) else { break };
                s.send_pkts(a, &[connect_as(&format!("c{}", i), u, Some(p)), Pkt::PingReq]);
                s.quiesce()?;
            }
            let good = cred();
            let more = stored(&good);
            let more: Vec<&str> = more.iter().map(|x| x.as_str()).collect();
            quiet_log(&s, t, &more, &|| format!("credential file, {}", n))?;
            s.end();
            Ok(())
        },
        |(n, _)| n.clone(),
    ));
    // histories of two clients
    #[derive(Clone, Debug)]
    enum Op {
        Open(usize, Pkt),
        Send(usize, Pkt),
        End(usize, CloseMode),
        Idle,
        Int,
    }
    let mut ops = vec![];
    for c in 0..2 {
        ops.push(Op::Open(c, connect_as("same", "anna", Some(PW[0]))));
        ops.push(Op::Open(c, connect_as(["x", "y"][c], "anna", Some(PW[2]))));
        ops.push(Op::Send(c, Pkt::Disconnect));
        ops.push(Op::End(c, CloseMode::Reset));
    }
    ops.push(Op::Open(0, connect_as("", "bert", Some(PW[1]))));
    ops.push(Op::Open(1, connect_as("same", "nobody", Some(PW[0]))));
    ops.push(Op::Send(0, connect_as("same", "anna", Some(PW[0]))));
    ops.push(Op::Send(0, subscribe(1, &["#"])));
    ops.push(Op::Send(1, publish("t", "x")));
    ops.push(Op::Send(1, Pkt::PubRec(3)));
    ops.push(Op::Send(0, Pkt::Raw(vec![0x80, 5, 0, 1, 0, 0, 0])));
    ops.push(Op::Open(0, Pkt::PingReq));
    ops.push(Op::Idle);
    ops.push(Op::Int);
    let ops = Arc::new(ops);
    for d in 1..=tier.pick(3usize, 4) {
        let (f, a, b) = (file.clone(), ops.clone(), ops.clone());
        v.push(cases(
            format!("histories of {} steps", d),
            sequences(ops.len(), d, &|_| true),
            move |q, ctx| {
                let mut s = boot_logged(&f, ctx.trace)?;
                let mut slot = [None; 2];
                for i in q {
                    match &a[*i as usize] {
                        Op::Open(c, p) => {
                            let Some(n) = s.open(L1) else { continue };
                            slot[*c] = Some(n);
                            s.send_pkts(n, &[p.clone()]);
                        }
                        Op::Send(c, p) => {
                            let Some(n) = slot[*c] else { continue };
                            s.send_pkts(n, &[p.clone()]);
                        }
                        Op::End(c, m) => {
                            let Some(n) = slot[*c].take() else { continue };
                            s.close(n, *m);
                        }
                        Op::Idle => s.idle(100)?,
                        Op::Int => s.interrupt(),
                    }
                    s.quiesce()?;
                }
                quiet_log(&s, &f, &[], &|| format!("{:?}", q.iter().map(|i| &a[*i as usize]).collect::<Vec<_>>()))?;
                s.end();
                Ok(())
            },
            move |q| format!("{:?}", q.iter().map(|i| &b[*i as usize]).collect::<Vec<_>>()),
        ));
    }
    let mut v: Vec<Family> = v.into_iter().map(|f| Family { logged: true, ..f }).collect();
    v.extend(super::more7::c29(tier));
    v
}
