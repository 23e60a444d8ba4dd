//! The whole program again: C03, C05, C08 - C14, C16, C21, C26.
use super::bytes::{bases, connects, malformed, medium_streams, publish_bytes, short_streams, topic, Stream, CONTAIN, STRICT};
use super::routing::{joins, pubs, subs};
use super::session::{cred_files, kinds, q};
use crate::codec::*;
use crate::explore::*;
use crate::hist::{spec, EndMode, H};
use crate::model::*;
use crate::real::*;
use crate::report::*;
use crate::sys::L1;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::mc::CloseMode;

fn one(p: Pkt) -> H {
    H::Send(0, vec![p])
}

// ------------------------------------------------------------------ C03

pub fn c03(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for n in [1usize, 2, 10, 31, 32, 33, 64, 200, 1000] {
        for size in [1usize, 100, 5000] {
            for subscribers in 1..=3usize {
                list.push((n, size, subscribers));
            }
        }
    }
    if tier.thorough() {
        list.push((20_000, 10, 2));
        list.push((5_000, 5_000, 3));
    }
    vec![cases(
        "real binary: messages in one piece",
        list,
        |(n, size, k), _| {
            let mut l = RealLock::boot(1, DELIVERIES)?;
            for i in 0..*k {
                let c = l.open(L1)?;
                l.send(c, &[connect(&format!("s{}", i)), subscribe(1, &[["#", "a/+", "a/b"][i]])])?;
            }
            let p = l.open(L1)?;
            l.send(p, &[connect("p")])?;
            let all: Vec<Pkt> = (0..*n).map(|i| publish(["a/b", "a/c"][i % 2], &format!("{:0w$}", i, w = *size))).collect();
            l.log.clear();
            l.send(p, &all)?;
            visit(&(n, size, k));
            Ok(())
        },
        |(n, s, k)| format!("{} messages of {} bytes to {} subscribers", n, s, k),
    )]
}

// ------------------------------------------------------------------ C05

pub fn c05(tier: Tier) -> Vec<Family> {
    let mut s = spec("requests", 2);
    s.mask = REPLIES;
    s.setup = vec![joins(0, "A")];
    s.alphabet = vec![
        one(q(1, &[("a", 0)])),
        one(q(2, &[("a", 1), ("b", 2), ("a/#", 0)])),
        one(q(65535, &[("+", 2), ("+", 0)])),
        one(unsubscribe(1, &["a"])),
        one(unsubscribe(256, &["+", "b", "x"])),
        one(Pkt::PingReq),
        one(publish("a", "")),
    ];
    // and pipelined
    s.alphabet.push(H::Send(0, vec![q(3, &[("a", 1)]), Pkt::PingReq, publish("a", ""), unsubscribe(4, &["a", "a"]), Pkt::PingReq]));
    s.alphabet.push(H::Open(1, vec![connect("B"), subscribe(9, &["a", "b"]), publish("a", ""), Pkt::PingReq]));
    let mut v = families(&s, tier.pick(&[1, 2, 3][..], &[1, 2, 3, 4]), false);
    let mut forms = vec![];
    for clean in [true, false] {
        for keep in [0u16, 1, 65535] {
            for user in [None, Some(("alice", "wonder"))] {
                for will in [None, Some(0u8), Some(2)] {
                    for id in ["A", "", "an identifier of more than twenty-three bytes"] {
                        forms.push(Pkt::Connect { id: id.into(), clean, keep, will: will.map(|q| Will { topic: "w".into(), payload: b"last".to_vec(), qos: q, retain: q == 1 }), user: user.map(|u| u.0.to_string()), pass: user.map(|u| u.1.to_string()) });
                    }
                }
            }
        }
    }
    v.push(cases(
        "real binary: forms of CONNECT",
        forms,
        |p, _| {
            let mut l = RealLock::boot(1, REPLIES)?;
            for _ in 0..2 {
                let c = l.open(L1)?;
                l.send(c, &[p.clone()])?;
                l.send(c, &[subscribe(3, &["a"]), Pkt::PingReq])?;
                l.send(c, &[Pkt::Disconnect])?;
            }
            visit(p);
            l.probe(L1)
        },
        |p| format!("{:?}", p),
    ));
    v
}

// ------------------------------------------------------------------ C08

pub fn c08(_tier: Tier) -> Vec<Family> {
    let files = Arc::new(cred_files());
    let f2 = files.clone();
    vec![cases(
        "real binary: user x password x file",
        (0..files.len()).collect(),
        move |i, _| {
            let f = &files[*i];
            let users: Vec<(&str, &str)> = f.users.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let mut l = RealLock::boot_with(1, ALL, &f.text, &users).map_err(|e| e.ctx(f.name))?;
            let mut names: std::collections::BTreeSet<&str> = ["alice", "Alice", "alic", "bob", "", "eve", " alice", "alice "].into();
            let mut pws: std::collections::BTreeSet<&str> = ["", " ", "wonder", "Wonder", "wonde", "builder", "x", "p2", "a:b", "other"].into();
            for (u, p) in &users {
                names.insert(u);
                pws.insert(p);
            }
            for n in &names {
                for p in pws.iter().map(|p| Some(*p)).chain([None]) {
                    let c = l.open(L1)?;
                    l.send(c, &[connect_as("x", n, p), Pkt::PingReq])?;
                    if l.model.live(c) {
                        l.send(c, &[Pkt::Disconnect])?;
                    }
                    // what is over need not be looked at again
                    l.log.clear();
                    l.conns[c].close(CloseMode::Close);
                    visit(&(i, n, p));
                }
            }
            l.probe(L1)
        },
        move |i| format!("file {:?}", f2[*i].name),
    )]
}

// ------------------------------------------------------------------ C09, C16

pub fn c09(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (name, before) in [("nothing was sent before", vec![]), ("after a refused CONNECT", vec![connect_as("X", "alice", Some("wrong"))]), ("after DISCONNECT", vec![connect("X"), subscribe(7, &["a"]), Pkt::Disconnect])] {
        let mut s = spec(name, 3);
        s.prune_dead = false;
        s.setup = vec![joins(1, "V"), subs(1, "#"), H::Tcp(0)];
        if !before.is_empty() {
            s.setup.push(H::Send(0, before));
        }
        for p in [
            connect("X"),
            connect_as("V", "alice", Some("bad")),
            connect("V"),
            subscribe(1, &["a", "#"]),
            unsubscribe(2, &["a"]),
            publish("a", ""),
            publish_q("a", "", 1, 3),
            Pkt::PingReq,
            Pkt::Disconnect,
            Pkt::PubRel(1),
        ] {
            s.alphabet.push(one(p));
        }
        s.alphabet.push(H::Send(0, vec![subscribe(1, &["#"]), publish("a", ""), connect("X"), publish("a", "")]));
        s.finale = vec![joins(2, "pub"), pubs(2, "a"), H::Send(1, vec![Pkt::PingReq])];
        v.extend(families(&s, tier.pick(&[1, 2][..], &[1, 2, 3]), false));
    }
    v
}
pub fn c16(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (name, start) in [("kinds of packets, not connected", H::Tcp(0)), ("kinds of packets, connected", joins(0, "A"))] {
        let mut s = spec(name, 2);
        s.prune_dead = false;
        s.setup = vec![start];
        s.alphabet = kinds().into_iter().map(one).collect();
        s.alphabet.push(H::Open(1, vec![connect("A")]));
        s.alphabet.push(H::End(0, EndMode::Reset));
        s.alphabet.push(H::End(0, EndMode::Fin));
        v.extend(families(&s, tier.pick(&[1, 2][..], &[1, 2, 3]), false));
    }
    v
}

// ------------------------------------------------------------------ C10

fn pieces(s: &Stream, cuts: &[usize]) -> Fallible<()> {
    let mut l = RealLock::boot(1, STRICT)?;
    let w = l.open(L1)?;
    l.send(w, &[connect("watcher"), subscribe(1, &["#"])])?;
    let c = l.open(L1)?;
    if !s.before.is_empty() {
        l.send(c, &s.before)?;
    }
    let mut from = 0;
    for to in cuts.iter().copied().chain([s.bytes.len()]) {
        if from > 0 {
            // so that the broker takes up the pieces one by one
            std::thread::sleep(Duration::from_millis(1));
        }
        l.send_raw(c, &s.bytes[from..to])?;
        from = to;
    }
    if l.model.live(c) {
        l.send(c, &[publish("fin/x", ""), Pkt::PingReq])?;
    }
    l.send(w, &[publish("fin/y", ""), Pkt::PingReq])?;
    visit(&(&s.name, cuts));
    Ok(())
}
pub fn c10(tier: Tier) -> Vec<Family> {
    let mut list: Vec<(Arc<Stream>, Vec<usize>)> = vec![];
    for s in short_streams().into_iter().chain(medium_streams()) {
        let n = s.bytes.len();
        list.push((s.clone(), vec![]));
        list.push((s.clone(), (1..n).collect()));
        for i in 1..n {
            list.push((s.clone(), vec![i]));
        }
        if tier.thorough() && n < 40 {
            for i in 1..n {
                for j in i + 1..n {
                    list.push((s.clone(), vec![i, j]));
                }
            }
        }
    }
    vec![cases("real binary: cuts", list, |(s, c), _| pieces(s, c), |(s, c)| format!("{}, cut at {}", s.name, clip(&format!("{:?}", c), 80)))]
}

// ------------------------------------------------------------------ C11

fn contained(connected: bool, parts: &[Vec<u8>], end: Option<CloseMode>) -> Fallible<()> {
    let mut l = RealLock::boot(1, CONTAIN)?;
    let b = l.open(L1)?;
    l.send(b, &[connect("bystander"), subscribe(1, &["by/x"])])?;
    let e = l.open(L1)?;
    if connected {
        l.send(e, &[connect("evil"), subscribe(1, &["ev/x"])])?;
    }
    for p in parts {
        l.send_raw(e, p)?;
    }
    if let Some(m) = end {
        l.close(e, m)?;
    }
    l.send(b, &[Pkt::PingReq])?;
    let p = l.open(L1)?;
    l.send(p, &[connect("publisher"), publish("by/x", ""), publish("ev/x", ""), Pkt::PingReq])?;
    l.close(e, CloseMode::Close)?;
    let r = l.open(L1)?;
    l.send(r, &[connect("evil"), publish("ev/x", ""), publish("by/x", ""), Pkt::PingReq])?;
    visit(&(connected, parts));
    Ok(())
}
pub fn c11(tier: Tier) -> Vec<Family> {
    let mut list: Vec<(bool, Vec<Vec<u8>>, Option<CloseMode>)> = vec![];
    for m in malformed() {
        // what must be recognized at once may be recognized early
        if !matches!(classify(&m).1, Tail::Malformed(_)) {
            continue;
        }
        for connected in [false, true] {
            list.push((connected, vec![m.clone()], None));
            let more = [m.clone(), publish("by/x", "late").encode()].concat();
            list.push((connected, vec![more], None));
            if connected {
                list.push((connected, vec![[publish("by/x", "early").encode(), m.clone()].concat()], None));
                list.push((connected, vec![publish("by/x", "early").encode(), m.clone(), Pkt::PingReq.encode()], None));
            }
        }
    }
    // packets cut short
    for (connected, base) in [(true, bases()), (false, connects())] {
        for p in base {
            let b = p.encode();
            for cut in 1..b.len() {
                if matches!(classify(&b[..cut]).1, Tail::Incomplete) {
                    for m in tier.pick(&[CloseMode::Fin][..], &[CloseMode::Fin, CloseMode::Close, CloseMode::Reset]) {
                        list.push((connected, vec![b[..cut].to_vec()], Some(*m)));
                    }
                }
            }
        }
    }
    vec![cases("real binary: malformed and truncated packets", list, |(c, p, e), _| contained(*c, p, *e), |(c, p, e)| format!("{} CONNECT: {}{}", if *c { "after" } else { "before" }, p.iter().map(|p| hex(p)).collect::<Vec<_>>().join(" + "), e.map(|e| format!(", {:?}", e)).unwrap_or_default()))]
}

// ------------------------------------------------------------------ C12, C13, C21

/// A client that stops reading, with a small buffer, while it is sent more than the kernel takes.
fn deaf(n: usize, size: usize, chunk: usize, pause: u64, leave: bool) -> Fallible<()> {
    let mut l = RealLock::boot(1, STRICT)?;
    let s = l.open(L1)?;
    l.conns[s].narrow();
    l.send(s, &[connect("slow"), subscribe(258, &["a", "b/+", "b/+"])])?;
    let p = l.open(L1)?;
    l.send(p, &[connect("pub")])?;
    l.deaf[s] = true;
    l.log = vec![format!("{} messages of {} bytes to a client that does not read, then reads {} bytes at a time", n, size, chunk)];
    for i in 0..n {
        l.send(p, &[publish_bytes(["a", "b/c", "none"][i % 3], size + i)])?;
        l.log.truncate(1);
    }
    if leave {
        l.conns[s].send(&Pkt::Disconnect.encode());
        l.model.step(s, &Pkt::Disconnect);
        l.log.push("it sends DISCONNECT".into());
    }
    // it reads on, slowly at first
    for _ in 0..30 {
        l.conns[s].read_some(chunk);
        std::thread::sleep(Duration::from_millis(pause));
    }
    l.deaf[s] = false;
    l.settle()?;
    if leave {
        return Ok(());
    }
    l.send(s, &[unsubscribe(772, &["a", "zz"]), Pkt::PingReq])?;
    l.log.truncate(1);
    visit(&(n, size, chunk, pause));
    Ok(())
}
pub fn c12(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for n in [3usize, 9, 20] {
        for size in [10usize, 4090, 100_000, 1_000_000] {
            for chunk in [1usize, 1000, 65_536] {
                for pause in tier.pick(&[0u64][..], &[0, 1, 5]) {
                    list.push((n, size, chunk, *pause, false));
                    list.push((n, size, chunk, *pause, true));
                }
            }
        }
    }
    vec![cases("real binary: a client that does not read", list, |(n, s, c, p, e), _| deaf(*n, *s, *c, *p, *e), |(n, s, c, p, e)| format!("{} messages of {} bytes, {} per read, {} ms between{}", n, s, c, p, if *e { ", DISCONNECT" } else { "" })).threads(4)]
}
fn passes(msgs: &[(usize, usize)]) -> Fallible<()> {
    let mut l = RealLock::boot(1, STRICT)?;
    let a = l.open(L1)?;
    l.send(a, &[connect("sub"), subscribe(1, &["#"])])?;
    let b = l.open(L1)?;
    l.send(b, &[connect("pub")])?;
    for (t, n) in msgs {
        l.log = vec![format!("topic of {} bytes, payload of {} bytes", t, n)];
        l.send(b, &[publish_bytes(&topic(*t), *n)])?;
        // what was compared need not be compared again
        l.exp[a].clear();
        l.conns[a].forget();
        visit(&(t, n));
    }
    Ok(())
}
pub fn c13(tier: Tier) -> Vec<Family> {
    let mut sizes: Vec<(usize, usize)> = (0..=tier.pick(300usize, 3000)).map(|n| (1, n)).collect();
    for c in [4096usize, 8192, 16383, 65535, 131_072, 2_097_151] {
        sizes.extend((c - 12..=c + 6).map(|n| (3, n)));
    }
    sizes.extend((1..=200usize).chain(4085..=4100).chain(16_375..=16_390).chain(65_525..=65_535).map(|t| (t, 5)));
    sizes.extend([3usize, 8, 17, 40].map(|m| (1, m * 1_000_000)));
    if tier.thorough() {
        sizes.push((1, 268_435_455 - 3));
    }
    let list: Vec<Vec<(usize, usize)>> = sizes.chunks(40).map(|c| c.to_vec()).collect();
    vec![cases("real binary: sizes", list, |m, _| passes(m), |m| format!("(topic length, payload size) {:?}", m)).threads(4).cpu_limit(300.0)]
}
pub fn c21(tier: Tier) -> Vec<Family> {
    let mut s = spec("flags and granted QoS", 3);
    s.mask = STRICT;
    s.setup = vec![joins(0, "A"), joins(1, "B")];
    for granted in 0..=2u8 {
        s.alphabet.push(H::Send(0, vec![q(1 + granted as u16, &[("a", granted)])]));
    }
    for qos in 0..=2u8 {
        for retain in [false, true] {
            for dup in [false, true] {
                if qos == 0 && dup {
                    continue;
                }
                s.alphabet.push(H::Send(1, vec![Pkt::Publish { topic: "a".into(), payload: vec![], qos, retain, dup, id: if qos == 0 { 0 } else { 0x4100 + qos as u16 } }]));
            }
        }
    }
    s.alphabet.push(H::Send(0, vec![Pkt::Publish { topic: "a".into(), payload: vec![], qos: 1, retain: true, dup: true, id: 7 }]));
    s.finale = vec![joins(2, "C"), subs(2, "#"), pubs(1, "a")];
    families(&s, tier.pick(&[1, 2][..], &[1, 2, 3]), false)
}

// ------------------------------------------------------------------ C14

const ROGUES: usize = 9;
/// Badly behaved; what it says stays open.
fn rogue(k: usize, l: &RealLock) -> Fallible<Vec<Conn>> {
    let a = l.broker.addrs[0];
    let mut c = Conn::open(a)?;
    let con = connect(&format!("rogue{}", k)).encode();
    let sub = subscribe(1, &["#"]).encode();
    let half = publish("x", "never completed").encode();
    match k {
        0 => {}
        1 => c.send(&con[..con.len() / 2]),
        2 => c.send(&[&con[..], &half[..half.len() - 3]].concat()),
        3 => c.send(&[&con[..], &[0x30, 0xff, 0xff, 0xff, 0x7f, 0, 1, b'x']].concat()),
        4 => {
            c.narrow();
            c.send(&[&con[..], &sub[..]].concat());
        }
        5 => {
            c.send(&[&con[..], &sub[..]].concat());
            c.close(CloseMode::Reset);
        }
        6 => c.send(&[&con[..], &publish("x", "flood").encode().repeat(300)].concat()),
        7 => {
            let mut v = vec![];
            for _ in 0..30 {
                let mut d = Conn::open(a)?;
                d.send(&con);
                v.push(d);
            }
            v.push(c);
            return Ok(v);
        }
        _ => c.send(&[&connect_as("r", "alice", Some("no")).encode()[..], &sub[..]].concat()),
    }
    Ok(vec![c])
}
pub fn c14(tier: Tier) -> Vec<Family> {
    let mut list: Vec<Vec<usize>> = vec![];
    for a in 0..ROGUES {
        list.push(vec![a]);
        for b in 0..ROGUES {
            list.push(vec![a, b]);
            for c in 0..tier.pick(0, ROGUES) {
                list.push(vec![a, b, c]);
            }
        }
    }
    let rounds = tier.pick(3, 8);
    vec![cases(
        "real binary: badly behaved clients",
        list,
        move |ks, _| {
            let mut l = RealLock::boot(1, ALL)?;
            let a = l.open(L1)?;
            l.send(a, &[connect("A"), subscribe(1, &["t"])])?;
            let b = l.open(L1)?;
            l.send(b, &[connect("B"), subscribe(1, &["t"])])?;
            let mut kept = vec![];
            for (i, k) in ks.iter().enumerate() {
                l.log.push(format!("rogue {}", k));
                kept.extend(rogue(*k, &l).map_err(|f| l.ctx(f))?);
                for _ in 0..rounds {
                    l.send(a, &[publish("t", ""), Pkt::PingReq])?;
                    l.send(b, &[publish("t", ""), Pkt::PingReq])?;
                }
                visit(&(ks, i));
            }
            l.probe(L1)
        },
        |k| format!("rogues {:?}", k),
    ), cases(
        "real binary: crowds",
        [33usize, 65, 130, 260, 400].iter().flat_map(|n| (0..4usize).map(|k| (k, *n))).collect(),
        |(k, n), _| {
            let mut l = RealLock::boot(1, ALL)?;
            let a = l.open(L1)?;
            l.send(a, &[connect("A"), subscribe(1, &["t"])])?;
            let mut kept = vec![];
            for i in 0..*n {
                let mut c = Conn::open(l.broker.addrs[0])?;
                match k {
                    0 => {}
                    1 => c.send(&connect("half").encode()[..6]),
                    2 => c.send(&connect(&format!("c{}", i)).encode()),
                    _ => c.send(&[connect(&format!("c{}", i)).encode(), publish("x", "y").encode()[..3].to_vec()].concat()),
                }
                kept.push(c);
            }
            l.send(a, &[publish("t", ""), Pkt::PingReq])?;
            visit(&(k, n));
            l.probe(L1)
        },
        |(k, n)| format!("{} clients that {}", n, ["stay silent", "send half a CONNECT", "connect and stay silent", "send half a packet"][*k]),
    )]
}

// ------------------------------------------------------------------ C26

/// Open files and threads of the broker.
fn holds(l: &RealLock) -> (usize, usize) {
    let p = format!("/proc/{}", l.broker.proc.0.id());
    let n = |d: &str| std::fs::read_dir(format!("{}/{}", p, d)).map(|d| d.count()).unwrap_or(0);
    (n("fd"), n("task"))
}
pub fn c26(tier: Tier) -> Vec<Family> {
    let ways = ["nothing", "half a CONNECT", "connected", "refused", "subscribed", "taken over", "malformed", "flooded"];
    let mut list = vec![];
    for w in 0..ways.len() {
        for m in [CloseMode::Fin, CloseMode::Close, CloseMode::Reset] {
            for disconnect in [false, true] {
                list.push((w, m, disconnect));
            }
        }
    }
    let n = tier.pick(60usize, 600);
    vec![cases(
        "real binary: connections that have ended",
        list,
        move |(w, m, disconnect), _| {
            let mut l = RealLock::boot(1, DELIVERIES)?;
            let a = l.open(L1)?;
            l.send(a, &[connect("A"), subscribe(1, &["x"])])?;
            let t0 = Instant::now();
            // whatever was opened to see whether it is up is over
            let mut at_first = holds(&l);
            while t0.elapsed() < Duration::from_millis(200) {
                let h = holds(&l);
                if h.0 < at_first.0 {
                    at_first = h;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            let addr = l.broker.addrs[0];
            let mut open: Vec<Conn> = vec![];
            for i in 0..n {
                let mut c = Conn::open(addr)?;
                let id = format!("c{}", i);
                match w {
                    0 => {}
                    1 => c.send(&connect(&id).encode()[..5]),
                    2 => c.send(&connect(&id).encode()),
                    3 => c.send(&connect_as(&id, "alice", Some("no")).encode()),
                    4 => c.send(&[connect(&id).encode(), subscribe(1, &["#", &id]).encode()].concat()),
                    5 => c.send(&[connect("same").encode(), subscribe(1, &["#", &id]).encode()].concat()),
                    6 => c.send(&[connect(&id).encode(), vec![0xf0, 0]].concat()),
                    _ => c.send(&[connect(&id).encode(), subscribe(1, &["y"]).encode(), publish("y", "flood").encode().repeat(20)].concat()),
                }
                if *disconnect {
                    c.send(&Pkt::Disconnect.encode());
                }
                open.push(c);
                if i % 7 == 6 {
                    for mut c in open.drain(..) {
                        c.close(*m);
                        if *m == CloseMode::Fin {
                            c.collect();
                        }
                    }
                }
            }
            for c in &mut open {
                c.close(*m);
            }
            drop(open);
            let t0 = Instant::now();
            loop {
                let h = holds(&l);
                if h.0 <= at_first.0 && h.1 <= at_first.1 {
                    break;
                }
                if t0.elapsed() > PATIENCE {
                    return Err(Fail::new("left-over", format!("with the real binary, {} connections ({}, {:?}{}) have ended, and the broker has {} open files and {} threads; at first it had {} and {}", n, ways[*w], m, if *disconnect { ", DISCONNECT" } else { "" }, h.0, h.1, at_first.0, at_first.1)));
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            visit(&(w, *disconnect, format!("{:?}", m)));
            l.send(a, &[Pkt::PingReq])?;
            l.probe(L1)
        },
        move |(w, m, d)| format!("{}, {:?}, DISCONNECT {}", ways[*w], m, d),
    )]
}
