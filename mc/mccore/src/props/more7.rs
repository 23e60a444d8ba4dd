//! What only the whole program shows - main, the process, real sockets: C02, C15, C19, C25, C27, C29.
use super::more6::{cred, leaks, stored, ODD, PW};
use super::routing::{all_filters, all_topics, joins, level_seqs, pubs, subs};
use crate::codec::*;
use crate::env::{passwd_text, write_config, USERS};
use crate::explore::*;
use crate::hist::{sequences, spec, EndMode, H};
use crate::model::*;
use crate::real::*;
use crate::report::*;
use crate::sys::L1;
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::path::PathBuf;
use std::time::{Duration, Instant};
use tokio::mc::CloseMode;

// ------------------------------------------------------------------ C02, C25

/// All the filters in one broker, each held by a client of its own, against all the topics.
fn matching(filters: &[String], topics: &[String]) -> Fallible<()> {
    let mut l = RealLock::boot(1, ALL)?;
    for (i, f) in filters.iter().enumerate() {
        let c = l.open(L1)?;
        l.send(c, &[connect(&format!("c{}", i)), subscribe(1, &[f])])?;
    }
    let p = l.open(L1)?;
    l.send(p, &[connect("publisher")])?;
    l.log.clear();
    for t in topics {
        visit(&(filters, t));
        l.send(p, &[publish(t, "")])?;
    }
    for (i, f) in filters.iter().enumerate() {
        l.send(i, &[unsubscribe(2, &[f])])?;
    }
    l.log.clear();
    for t in topics.iter().take(20) {
        l.send(p, &[publish(t, "")])?;
    }
    outcome(&l.exp);
    l.probe(L1)
}
pub fn c02(tier: Tier) -> Vec<Family> {
    let levels: &[&str] = tier.pick(&["a", "", "$a"][..], &["a", "A", "", "$a"]);
    let list = vec![
        (all_filters(levels, 3), all_topics(levels, 3)),
        (all_filters(&["a", "b"], 3), all_topics(&["a", "b"], 4)),
        (all_filters(&["\u{e9}", " ", "0"], 2), all_topics(&["\u{e9}", " ", "0"], 2)),
    ];
    vec![cases("real binary: all filters together", list, |(f, t), _| matching(f, t), |(f, t)| format!("{} filters x {} topics", f.len(), t.len())).cpu_limit(300.0)]
}
fn wildcards(topics: &[String]) -> Fallible<()> {
    let mut l = RealLock::boot(1, ALL)?;
    for (i, f) in [vec!["#"], vec!["+", "+/+"], vec!["a/#"]].iter().enumerate() {
        let c = l.open(L1)?;
        l.send(c, &[connect(&format!("c{}", i)), subscribe(1, f)])?;
    }
    for t in topics {
        visit(t);
        let c = l.open(L1)?;
        l.send(c, &[connect("p"), publish(t, ""), publish("ok", "")])?;
        if l.model.live(c) {
            l.send(c, &[Pkt::Disconnect])?;
        }
    }
    outcome(&l.exp);
    l.log.clear();
    l.probe(L1)
}
pub fn c25(tier: Tier) -> Vec<Family> {
    let topics = all_topics(&["a", "", "+", "#", "a+", "#a"], 2);
    let n = tier.pick(1, 3);
    let mut list: Vec<Vec<String>> = topics.chunks(14).map(|c| c.to_vec()).collect();
    if n > 1 {
        list.extend(level_seqs(&["a", "", "+", "#", "a#"], 3).iter().map(|l| l.join("/")).collect::<Vec<_>>().chunks(20).map(|c| c.to_vec()));
    }
    vec![cases("real binary: topics with wildcards", list, |t, _| wildcards(t), |t| format!("{:?}", t))]
}

// ------------------------------------------------------------------ C15

/// How the interrupted broker is busy.
const BUSY: &[&str] = &["idle", "silent connections", "half packets", "a backlog nobody reads", "a flood", "reconnecting clients", "refused clients", "two interrupts"];

fn interrupted(what: &str, listeners: usize, delay: u64) -> Fallible<()> {
    let mut l = RealLock::boot(listeners, DELIVERIES)?;
    let addrs = l.broker.addrs.clone();
    let mut raw: Vec<Conn> = vec![];
    for a in &addrs {
        match what {
            "silent connections" => {
                for _ in 0..3 {
                    raw.push(Conn::open(*a)?);
                }
            }
            "half packets" => {
                let b = connect("half").encode();
                let mut c = Conn::open(*a)?;
                c.send(&b[..b.len() / 2]);
                raw.push(c);
                let mut c = Conn::open(*a)?;
                c.send(&[&connect("more").encode()[..], &publish("t", "x").encode()[..4]].concat());
                raw.push(c);
            }
            "a backlog nobody reads" | "a flood" => {
                let mut c = Conn::open(*a)?;
                c.send(&[connect("deaf").encode(), subscribe(1, &["#"]).encode()].concat());
                raw.push(c);
                let mut p = Conn::open(*a)?;
                p.send(&connect("flood").encode());
                let big = publish("t", &"x".repeat(60_000)).encode();
                // until the broker takes no more, or for a while
                let t0 = Instant::now();
                for _ in 0..200 {
                    if p.try_send(&big) < big.len() || t0.elapsed() > Duration::from_secs(5) {
                        break;
                    }
                }
                raw.push(p);
            }
            "reconnecting clients" => {
                for i in 0..6 {
                    let mut c = Conn::open(*a)?;
                    c.send(&[connect("same").encode(), subscribe(1, &["#"]).encode()].concat());
                    if i % 3 == 2 {
                        c.close(CloseMode::Reset);
                    }
                    raw.push(c);
                }
            }
            "refused clients" => {
                let mut c = Conn::open(*a)?;
                c.send(&connect_as("c", "alice", Some("wrong")).encode());
                raw.push(c);
                let mut c = Conn::open(*a)?;
                c.send(&publish("t", "x").encode());
                raw.push(c);
            }
            _ => {}
        }
    }
    if what != "a flood" {
        // the interrupt comes at rest
        let end = Instant::now() + Duration::from_millis(30);
        while Instant::now() < end {
            if what != "a backlog nobody reads" {
                raw.iter_mut().for_each(|c| c.collect());
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
    std::thread::sleep(Duration::from_millis(delay));
    if what == "two interrupts" {
        while !l.broker.proc.catches(libc::SIGINT) {
            std::thread::sleep(Duration::from_millis(1));
        }
        l.broker.proc.signal(libc::SIGINT);
    }
    l.log.push(what.into());
    l.stop()?;
    let t0 = Instant::now();
    for (i, c) in raw.iter_mut().enumerate() {
        loop {
            c.collect();
            if c.eof || c.gone() {
                break;
            }
            if t0.elapsed() > PATIENCE {
                return Err(Fail::new("not-closed", format!("{}: connection {} outlives the broker", what, i)));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
    visit(&(what, listeners));
    Ok(())
}
pub fn c15(tier: Tier) -> Vec<Family> {
    let mut s = spec("histories, then the interrupt", 3);
    s.mask = DELIVERIES;
    s.setup = vec![joins(2, "pub"), subs(2, "b")];
    for (c, id) in [(0, "A"), (1, "B")] {
        s.alphabet.extend([joins(c, id), H::Tcp(c), subs(c, "a"), pubs(c, "b"), H::End(c, EndMode::Disconnect), H::End(c, EndMode::Fin), H::End(c, EndMode::Reset), H::End(c, EndMode::Malformed)]);
    }
    s.symmetric = vec![0, 1];
    s.finale = vec![pubs(2, "a")];
    let mut v = families(&s, tier.pick(&[0, 1, 2, 3][..], &[0, 1, 2, 3, 4]), true);
    let mut list = vec![];
    for w in BUSY {
        for n in 1..=2usize {
            for d in 0..tier.pick(2u64, 20) {
                list.push((*w, n, d * 3));
            }
        }
    }
    v.push(cases("real binary: busy, then the interrupt", list, |(w, n, d), _| interrupted(w, *n, *d), |(w, n, d)| format!("{}, {} listeners, {} ms later", w, n, d)));
    v
}

// ------------------------------------------------------------------ C19

/// `@0`, `@1`, `@2` stand for addresses, `@D` for the directory the broker runs in.
#[derive(Clone, Debug, Default)]
struct Prog {
    toml: Option<String>,
    dotenv: Option<String>,
    vars: Vec<(String, String)>,
    args: Vec<&'static str>,
    /// listeners and the only user, or the program must fail
    want: Option<(Vec<usize>, usize)>,
}
/// credential file -> its only user
const WHOSE: &[(&str, (&str, &str))] = &[("pa", ("fa", "a")), ("pb", ("fb", "b")), ("pc", ("fc", "c"))];

fn program(p: &Prog) -> Fallible<()> {
    let dir = Scratch::new();
    let h = host();
    let addrs: Vec<SocketAddr> = (0..3).map(|i| format!("{}:{}", h, 1883 + i).parse().unwrap()).collect();
    let fill = |t: &str| {
        let mut t = t.replace("@D", &dir.0.to_string_lossy());
        for (i, a) in addrs.iter().enumerate() {
            t = t.replace(&format!("@{}", i), &a.to_string());
        }
        t
    };
    for (f, u) in WHOSE {
        std::fs::write(dir.0.join(f), passwd_text(&[*u])).unwrap();
    }
    if let Some(t) = &p.toml {
        std::fs::write(dir.0.join("r.conf"), fill(t)).unwrap();
    }
    if let Some(t) = &p.dotenv {
        std::fs::write(dir.0.join(".env"), fill(t)).unwrap();
    }
    let mut c = command(&dir.0);
    c.args(p.args.iter().map(|a| fill(a)));
    for (k, v) in &p.vars {
        c.env(k, fill(v));
    }
    let what = |f: Fail| f.ctx(format!("with the real binary, {:?}", p));
    let mut q = Proc::spawn(&mut c);
    visit(&(&p.toml, &p.dotenv, &p.vars, &p.args));
    match &p.want {
        None => match q.wait(PATIENCE) {
            Some(s) if s.code() == Some(0) => Err(what(Fail::new("silent", "the broker ends as if all were well"))),
            Some(s) => {
                outcome(&s.code());
                Ok(())
            }
            None => Err(what(Fail::new("invented", "loading must fail, and the broker runs"))),
        },
        Some((ls, user)) => {
            let want: Vec<SocketAddr> = ls.iter().map(|i| addrs[*i]).collect();
            match q.up(&want) {
                Some(Ok(())) => {}
                Some(Err(s)) => return Err(what(Fail::new("not-loaded", format!("the broker does not run: {}", s)))),
                None => return Err(what(Fail::new("listeners", format!("the broker does not listen on {:?}", want)))),
            }
            for (i, a) in addrs.iter().enumerate() {
                if !ls.contains(&i) && TcpStream::connect(a).is_ok() {
                    return Err(what(Fail::new("listeners", format!("the broker also listens on {}", a))));
                }
            }
            for a in &want {
                for (i, (f, (u, pw))) in WHOSE.iter().enumerate() {
                    let rc = admitted(*a, u, pw).map_err(what)?;
                    if rc != (i == *user) {
                        return Err(what(Fail::new("password-file", format!("the user of the file {:?} is {}", f, if rc { "admitted" } else { "not admitted" }))));
                    }
                }
            }
            outcome(&(ls, user));
            Ok(())
        }
    }
}
/// Whether the user is admitted there.
fn admitted(a: SocketAddr, user: &str, pw: &str) -> Fallible<bool> {
    let mut c = Conn::open(a)?;
    c.send(&connect_as("x", user, Some(pw)).encode());
    let t0 = Instant::now();
    loop {
        c.collect();
        match c.out.first() {
            Some(Out::ConnAck { rc, .. }) => return Ok(*rc == 0),
            Some(o) => return Err(Fail::new("garbled", format!("{:?} in answer to a CONNECT", o))),
            None if c.eof => return Ok(false),
            None if t0.elapsed() > PATIENCE => return Err(Fail::new("not-served", format!("no answer to the CONNECT of {:?} at {}", user, a))),
            None => std::thread::sleep(Duration::from_millis(1)),
        }
    }
}
pub fn c19(tier: Tier) -> Vec<Family> {
    const LT: &str = "RATELMQ_MQTT__LISTENERS_TCP";
    const PF: &str = "RATELMQ_AUTHENTICATION__PASSWORD_FILE";
    let toml = |l: Option<&str>, p: Option<&str>| {
        let mut t = "[mqtt]\n".to_string();
        t += &l.map(|l| format!("listeners_tcp = [{}]\n", l)).unwrap_or_default();
        t += "[authentication]\n";
        t += &p.map(|p| format!("password_file = {:?}\n", p)).unwrap_or_default();
        t
    };
    let mut list = vec![];
    let fl: [(Option<&str>, Option<Vec<usize>>); 3] = [(None, None), (Some("\"@0\""), Some(vec![0])), (Some("\"@1\", \"@0\""), Some(vec![1, 0]))];
    let fp: [(Option<&str>, Option<usize>); 3] = [(None, None), (Some("@D/pa"), Some(0)), (Some("pb"), Some(1))];
    // where a variable comes from: nowhere, the environment, .env, or both (then the environment's counts)
    let sp = |s: &str, lower: bool| if lower { s.to_lowercase() } else { s.to_string() };
    let styles: [&[&'static str]; 5] = [&["-c", "r.conf"], &["--config", "@D/r.conf"], &["--config=./r.conf"], &["-cr.conf"], &["-c=@D/r.conf"]];
    let mut n = 0usize;
    for (l, lw) in &fl {
        for (p, pw) in &fp {
            for le in 0..4 {
                for pe in 0..4 {
                    for lower in [false, true] {
                        n += 1;
                        if !tier.thorough() && lower && (le == 0) != (pe == 0) {
                            continue;
                        }
                        let mut x = Prog { toml: Some(toml(*l, *p)), args: styles[n % styles.len()].to_vec(), ..Prog::default() };
                        let mut d = String::new();
                        let (mut lw, mut pw) = (lw.clone(), *pw);
                        if le & 2 != 0 {
                            d += &format!("{}=@1,@2\n", sp(LT, lower));
                            lw = Some(vec![1, 2]);
                        }
                        if le & 1 != 0 {
                            x.vars.push((sp(LT, lower), "@2".into()));
                            lw = Some(vec![2]);
                        }
                        if pe & 2 != 0 {
                            d += &format!("{}=pb\n", sp(PF, lower));
                            pw = Some(1);
                        }
                        if pe & 1 != 0 {
                            x.vars.push((sp(PF, lower), "@D/pc".into()));
                            pw = Some(2);
                        }
                        if !d.is_empty() || n % 3 == 0 {
                            x.dotenv = Some(d);
                        }
                        x.want = match (lw, pw) {
                            (Some(l), Some(p)) => Some((l, p)),
                            _ => None,
                        };
                        list.push(x);
                    }
                }
            }
        }
    }
    // every spelling of the argument; a file that is not there
    let good = toml(Some("\"@0\""), Some("pa"));
    let whole = || vec![(LT.to_string(), "@1".to_string()), (PF.to_string(), "pb".to_string())];
    for s in styles {
        list.push(Prog { toml: Some(good.clone()), args: s.to_vec(), want: Some((vec![0], 0)), ..Prog::default() });
        list.push(Prog { toml: Some(good.clone()), args: s.to_vec(), vars: whole(), want: Some((vec![1], 1)), ..Prog::default() });
        list.push(Prog { toml: None, args: s.to_vec(), vars: whole(), ..Prog::default() });
    }
    for a in [&["-c", "other.conf"][..], &["-c", "@D"], &["-c", "@D/pa"], &["-c", ""], &["--config"]] {
        list.push(Prog { toml: Some(good.clone()), args: a.to_vec(), vars: whole(), ..Prog::default() });
    }
    if !std::path::Path::new("/etc/ratelmq").exists() {
        list.push(Prog { toml: Some(good.clone()), vars: whole(), ..Prog::default() });
    }
    // other variables
    for (k, v) in [("RUST_LOG", "trace"), ("RUST_LOG", "nonsense=,,="), ("RUST_LOG", "off"), ("CONFIG", "other.conf"), ("RATELMQ_CONFIG", "other.conf"), ("RATELMQ_LOG", "1"), ("MQTT__LISTENERS_TCP", "@2"), ("RATELMQ_MQTT_LISTENERS_TCP", "@2"), ("PASSWORD_FILE", "pc"), ("HOME", "/nonexistent")] {
        list.push(Prog { toml: Some(good.clone()), args: styles[0].to_vec(), vars: vec![(k.into(), v.into())], want: Some((vec![0], 0)), ..Prog::default() });
        list.push(Prog { toml: Some(good.clone()), args: styles[0].to_vec(), dotenv: Some(format!("{}={}\n", k, v)), want: Some((vec![0], 0)), ..Prog::default() });
    }
    vec![cases("real binary: file, environment, .env, argument", list, |p, _| program(p), |p| format!("{:?}", p))]
}

// ------------------------------------------------------------------ C27

const LINES: &[&str] = &["whole", "no separator", "an empty line", "no text", "no file", "a directory", "empty"];

fn starts(list: &[&str], line: &str) -> Fallible<()> {
    let dir = Scratch::new();
    let h = host();
    let busy = TcpListener::bind(format!("{}:1900", h)).map_err(|e| Fail::new("harness", format!("bind: {}", e)))?;
    let busy = (busy.local_addr().unwrap().to_string(), busy);
    let ls: Vec<String> = list
        .iter()
        .map(|l| match *l {
            "A" => format!("{}:1883", h),
            "B" => format!("{}:1884", h),
            "6" => "[::1]:1883".replace("1883", &(20000 + (std::process::id() % 20000)).to_string()),
            "no port" => h.clone(),
            "occupied" => busy.0.clone(),
            "not local" => "192.0.2.1:1883".into(),
            x => x.into(),
        })
        .collect();
    let good = passwd_text(USERS);
    let pw = dir.0.join("passwd");
    let bytes = match line {
        "no separator" => Some(good.replacen(':', ";", 1).into_bytes()),
        "an empty line" => Some(format!("{}\n{}", passwd_text(&USERS[..1]), passwd_text(&USERS[1..])).into_bytes()),
        "no text" => Some([good.as_bytes(), b"caf\xe9:x\n"].concat()),
        "empty" => Some(vec![]),
        "no file" => None,
        "a directory" => {
            std::fs::create_dir(&pw).unwrap();
            None
        }
        _ => Some(good.into_bytes()),
    };
    if let Some(b) = &bytes {
        std::fs::write(&pw, b).unwrap();
    }
    let cfg = dir.0.join("r.conf");
    write_config(&cfg, &ls.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &pw);
    let mut c = command(&dir.0);
    c.arg("-c").arg(&cfg);
    let mut q = Proc::spawn(&mut c);
    let what = |f: Fail| f.ctx(format!("with the real binary, listeners {:?}, credential file {}", list, line));
    let fine = list.iter().enumerate().all(|(i, l)| ["A", "B", "6"].contains(l) && !list[..i].contains(l)) && ["whole", "empty"].contains(&line);
    visit(&(list, line));
    if !fine {
        return match q.wait(PATIENCE) {
            Some(s) if s.code() == Some(0) => Err(what(Fail::new("silent", "the broker ends as if all were well"))),
            Some(s) => {
                outcome(&s.code());
                Ok(())
            }
            None => Err(what(Fail::new("half-started", "the broker runs although its configuration cannot be honoured"))),
        };
    }
    let addrs: Vec<SocketAddr> = ls.iter().map(|l| l.parse().unwrap()).collect();
    match q.up(&addrs) {
        Some(Ok(())) => {}
        Some(Err(s)) => return Err(what(Fail::new("not-started", format!("the broker does not run: {}", s)))),
        None => return Err(what(Fail::new("listeners", format!("the broker does not listen on all of {:?}", addrs)))),
    }
    if line == "whole" {
        for a in &addrs {
            for (u, p) in USERS {
                if !admitted(*a, u, p).map_err(what)? {
                    return Err(what(Fail::new("not-served", format!("user {:?} is not admitted at {}", u, a))));
                }
            }
        }
    }
    // and goes on
    if addrs.is_empty() {
        std::thread::sleep(Duration::from_millis(50));
    }
    if let Some(s) = q.ended() {
        return Err(what(Fail::new("not-started", format!("the broker ends by itself: {}", s))));
    }
    outcome(&list);
    Ok(())
}
pub fn c27(tier: Tier) -> Vec<Family> {
    let alpha = ["A", "B", "no port", "nonsense", "occupied", "not local", ""];
    let mut list: Vec<(Vec<&'static str>, &'static str)> = vec![];
    for d in 0..=tier.pick(2, 3) {
        for s in sequences(alpha.len(), d, &|_| true) {
            list.push((s.iter().map(|i| alpha[*i as usize]).collect(), "whole"));
        }
    }
    for l in [vec!["A"], vec!["A", "B"], vec!["occupied", "A"]] {
        for line in LINES {
            list.push((l.clone(), line));
        }
    }
    list.push((vec!["A", "B", "occupied"], "whole"));
    vec![cases("real binary: lists of listeners and credential files", list, |(l, c), _| starts(l, c), |(l, c)| format!("{:?}, credential file {}", l, c))]
}

// ------------------------------------------------------------------ C29

fn logged(first: &Pkt, then: usize, file: &str, level: &str) -> Fallible<()> {
    let mut log = PathBuf::new();
    let mut b = Broker::start(1, file, |c, d| {
        log = d.join("log");
        let f = std::fs::File::create(&log).unwrap();
        c.env("RUST_LOG", level).env("RUST_BACKTRACE", "full").stderr(f.try_clone().unwrap()).stdout(f);
    })?;
    let mut c = Conn::open(b.addrs[0])?;
    c.send(&first.encode());
    let more: Vec<Pkt> = match then {
        0 => vec![Pkt::PingReq],
        1 => vec![connect_as("again", "anna", Some(PW[1]))],
        2 => vec![subscribe(1, &["#"]), publish("t", "x"), Pkt::PingReq],
        _ => vec![Pkt::Raw(vec![0x80, 5, 0, 1, 0, 0, 0])],
    };
    c.send(&encode_all(&more));
    // until it has answered what it answers
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(3) {
        c.collect();
        if c.eof || c.out.contains(&Out::PingResp) {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    c.close(CloseMode::Reset);
    let mut d = Conn::open(b.addrs[0])?;
    d.send(&[connect_as("other", "anna", Some(PW[0])).encode(), Pkt::PingReq.encode()].concat());
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(3) && !d.eof && !d.out.contains(&Out::PingResp) {
        d.collect();
        std::thread::sleep(Duration::from_millis(1));
    }
    b.interrupt();
    let bytes = std::fs::read(&log).unwrap_or_default();
    let text = String::from_utf8_lossy(&bytes);
    let st = stored(file);
    let mut secrets: Vec<&str> = PW.to_vec();
    secrets.extend(ODD);
    secrets.extend(st.iter().map(|x| x.as_str()));
    visit(&(text.lines().count(), then, level));
    outcome(&text.lines().count());
    if text.is_empty() && level == "trace" {
        return Err(Fail::new("harness", "nothing is logged at all"));
    }
    match leaks(&text, &secrets) {
        Some(l) => Err(Fail::new("leak", l).ctx(format!("with the real binary, {} then {:?}", clip(&format!("{:?}", first), 300), more))),
        None => Ok(()),
    }
}
pub fn c29(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for u in [None, Some("anna"), Some("bert"), Some("nobody")] {
        for p in [None, Some(PW[0]), Some(PW[1]), Some(PW[2]), Some(ODD[0]), Some(ODD[1])] {
            for clean in [true, false] {
                for id in ["c", ""] {
                    for then in 0..4 {
                        for level in tier.pick(&["trace"][..], &["trace", "debug", "ratelmq=info", ""]) {
                            list.push((Pkt::Connect { id: id.into(), clean, keep: 60, will: None, user: u.map(|u| u.into()), pass: p.map(|p| p.into()) }, then, *level));
                        }
                    }
                }
            }
        }
    }
    let f = cred();
    // entries that cannot be used
    let line = f.lines().next().unwrap().to_string();
    let mut odd = vec![];
    for at in [line.len() - 1, line.len() - 20, line.rfind('$').unwrap(), line.find("m=").unwrap(), line.find("$v").unwrap(), line.find(':').unwrap() + 1] {
        for c in ["!", "", "$", " "] {
            odd.push(format!("{}{}{}\n{}", &line[..at], c, &line[at + 1..], f.lines().nth(1).unwrap()));
        }
        odd.push(line[..at].to_string());
    }
    vec![
        cases("real binary: shapes of CONNECT", list, move |(c, k, l), _| logged(c, *k, &f, l), |(c, k, l)| format!("{:?} then {}, RUST_LOG={}", c, k, l)),
        cases("real binary: unusable entries", odd, move |t, _| logged(&connect_as("c", "anna", Some(PW[0])), 0, t, "trace"), |t| format!("credential file {:?}", t)),
    ]
}
