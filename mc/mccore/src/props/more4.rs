//! Further families: names that resemble each other, clients that keep their connection alive,
//! large files and packets, credentials that are easily confused.
use super::session::auth_config;
use crate::codec::*;
use crate::env::{cheap_hash, env, USERS};
use crate::explore::*;
use crate::hist::EndMode;
use crate::model::*;
use crate::report::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{self, CloseMode, Explore};

// ------------------------------------------- names that resemble each other

/// Pairs of different names that something careless might take for the same.
pub fn lookalikes(tier: Tier) -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = [
        ("a", "b"),
        ("a", "A"),
        ("a", "aa"),
        ("client", "client1"),
        ("client-1", "client-10"),
        ("client-1", "client-01"),
        ("client-1", "client_1"),
        ("client-1", "1-client"),
        ("client", "Client"),
        ("CLIENT", "client"),
        ("x", " x"),
        ("x", "x "),
        ("x", "x  "),
        (" ", "  "),
        ("1", "01"),
        ("1", "1.0"),
        ("1", "+1"),
        ("-0", "0"),
        ("0x10", "16"),
        ("a/b", "a"),
        ("a/b", "a//b"),
        ("a/b", "a/b/"),
        ("/a", "a"),
        ("+", "a"),
        ("#", "a"),
        ("#", "+"),
        ("*", "a"),
        (".", "a"),
        ("a.c", "abc"),
        ("%61", "a"),
        ("a%20b", "a b"),
        ("\"a\"", "a"),
        ("'a'", "a"),
        ("a\\", "a"),
        ("\\u0061", "a"),
        ("e\u{301}", "\u{e9}"),
        ("\u{212b}", "\u{c5}"),
        ("\u{ff41}", "a"),
        ("\u{430}", "a"),
        ("\u{df}", "ss"),
        ("\u{130}", "i"),
        ("\u{131}", "i"),
        ("\u{3c3}", "\u{3c2}"),
        ("\u{feff}a", "a"),
        ("a\u{200b}", "a"),
        ("\u{1f600}", "\u{1f601}"),
        ("abc", "acb"),
        ("ab", "ba"),
        ("Aa", "BB"),
        ("AaAa", "BBBB"),
        ("null", "NULL"),
        ("none", "null"),
        ("true", "1"),
        ("user@host", "user"),
        ("user:1", "user"),
        ("a;b", "a"),
        ("a,b", "a"),
        ("a=b", "a"),
        ("a?b", "a"),
        ("a&b", "a"),
    ]
    .iter()
    .map(|(a, b)| (a.to_string(), b.to_string()))
    .collect();
    // long ones that agree in most of their characters
    let lens: Vec<usize> = tier.pick(
        vec![7, 8, 9, 15, 16, 17, 22, 23, 24, 31, 32, 33, 36, 48, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 512, 1023, 1024, 4096, 60_000],
        (1..=300).chain([511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 8192, 16384, 32768, 60_000, 65_000]).collect(),
    );
    for n in lens {
        let p: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        v.push((format!("{}1", p), format!("{}2", p)));
        v.push((p.clone(), format!("{}x", p)));
        v.push((format!("1{}", p), format!("2{}", p)));
        let m = n / 2;
        v.push((format!("{}1{}", &p[..m], &p[m..]), format!("{}2{}", &p[..m], &p[m..])));
    }
    let back: Vec<(String, String)> = v.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
    v.extend(back);
    v
}
fn brief(s: &str) -> String {
    if s.chars().count() > 30 {
        let end: String = s.chars().rev().take(8).collect::<Vec<_>>().into_iter().rev().collect();
        format!("{:?}..{:?} ({} bytes)", s.chars().take(8).collect::<String>(), end, s.len())
    } else {
        format!("{:?}", s)
    }
}

/// Two clients whose ids resemble each other live side by side.
fn twin_run(x: &str, y: &str, end: &EndMode, mask: Mask, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, mask, ctx.trace)?;
    let p = l.open(L1)?;
    l.send(p, &[connect("the publisher")])?;
    let all = |l: &mut Lock| -> Fallible<()> {
        for t in ["t", "own/1", "own/2"] {
            l.send(p, &[publish(t, "")])?;
        }
        Ok(())
    };
    let a = l.open(L1)?;
    l.send(a, &[connect(x), subscribe(1, &["t", "own/1"])])?;
    let b = l.open(L1)?;
    l.send(b, &[connect(y), subscribe(1, &["t", "own/2"]), Pkt::PingReq])?;
    all(&mut l)?;
    l.send(a, &[Pkt::PingReq])?;
    l.send(a, &[unsubscribe(2, &["t", "own/2"])])?;
    all(&mut l)?;
    l.send(b, &[subscribe(3, &["own/1"]), publish("own/1", ""), unsubscribe(4, &["own/2"])])?;
    all(&mut l)?;
    l.send(a, &[subscribe(5, &["t"])])?;
    // one takes over from itself
    let a2 = l.open(L1)?;
    l.send(a2, &[connect(x), Pkt::PingReq])?;
    l.send(b, &[Pkt::PingReq])?;
    all(&mut l)?;
    l.send(a2, &[subscribe(6, &["t", "own/1"])])?;
    all(&mut l)?;
    match end {
        EndMode::Disconnect => l.send(a2, &[Pkt::Disconnect])?,
        EndMode::Close => l.close(a2, CloseMode::Close)?,
        EndMode::Reset => l.close(a2, CloseMode::Reset)?,
        EndMode::Failed(e) => l.close(a2, CloseMode::Failed(*e))?,
        EndMode::Fin => l.close(a2, CloseMode::Fin)?,
        EndMode::Malformed => l.send_raw(a2, &[0xf0, 0])?,
        EndMode::SecondConnect => l.send(a2, &[connect(x)])?,
    }
    all(&mut l)?;
    l.send(b, &[Pkt::PingReq, subscribe(7, &["t", "own/2"])])?;
    let a3 = l.open(L1)?;
    l.send(a3, &[connect(x), subscribe(8, &["own/1"]), publish("t", "")])?;
    all(&mut l)?;
    l.send(b, &[Pkt::Disconnect])?;
    l.send(a3, &[Pkt::PingReq])?;
    all(&mut l)?;
    let b2 = l.open(L1)?;
    l.send(b2, &[connect(y), Pkt::PingReq])?;
    all(&mut l)?;
    l.send(a3, &[Pkt::PingReq])?;
    visit(&(x, y));
    l.log = vec![format!("ids {} and {}", brief(x), brief(y))];
    l.finish();
    Ok(())
}
pub fn similar_ids(tier: Tier, mask: Mask, ends: &[EndMode]) -> Family {
    let mut list = vec![];
    for (a, b) in lookalikes(tier) {
        for e in ends {
            list.push((a.clone(), b.clone(), e.clone()));
        }
    }
    cases("ids that resemble each other", list, move |(a, b, e), ctx| twin_run(a, b, e, mask, ctx), |(a, b, e)| format!("{} beside {}, {:?}", brief(a), brief(b), e)).cpu_limit(60.0)
}

/// Topics and filters that resemble each other.
fn twin_topics(x: &str, y: &str, mask: Mask, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, mask, ctx.trace)?;
    let p = l.open(L1)?;
    l.send(p, &[connect("p")])?;
    let a = l.open(L1)?;
    l.send(a, &[connect("sa"), subscribe(1, &[x])])?;
    let b = l.open(L1)?;
    l.send(b, &[connect("sb"), subscribe(1, &[y])])?;
    let all = |l: &mut Lock| -> Fallible<()> {
        for t in [x, y] {
            if !t.contains(['+', '#']) {
                l.send(p, &[publish(t, "")])?;
            }
        }
        Ok(())
    };
    all(&mut l)?;
    l.send(a, &[unsubscribe(2, &[y])])?;
    all(&mut l)?;
    l.send(b, &[subscribe(3, &[x])])?;
    l.send(b, &[unsubscribe(4, &[y])])?;
    all(&mut l)?;
    l.send(a, &[subscribe(5, &[y, x])])?;
    l.send(a, &[unsubscribe(6, &[x])])?;
    all(&mut l)?;
    visit(&(x, y));
    l.log = vec![format!("topics {} and {}", brief(x), brief(y))];
    l.finish();
    Ok(())
}
pub fn similar_topics(tier: Tier, mask: Mask) -> Family {
    let mut list = lookalikes(tier);
    list.retain(|(a, b)| [a, b].iter().all(|s| valid_filter(s)) && a.len() < 60_001 && b.len() < 60_001);
    // the two are names of one level at different places
    let deeper: Vec<(String, String)> = list.iter().filter(|(a, b)| a.len() + b.len() < 20_000 && !(a.clone() + b).contains(['+', '#'])).flat_map(|(a, b)| [(format!("{}/z", a), format!("{}/z", b)), (format!("z/{}", a), format!("z/{}", b))]).collect();
    list.extend(deeper);
    list.retain(|(a, b)| a != b);
    cases("names that resemble each other", list, move |(a, b), ctx| twin_topics(a, b, mask, ctx), |(a, b)| format!("{} beside {}", brief(a), brief(b))).cpu_limit(60.0)
}

// ------------------------------------------------- clients that stay alive

#[derive(Clone, Copy, Debug)]
pub struct Alive {
    keep: u16,
    /// the gap between two signs of life, in percent of the keep-alive time
    percent: u64,
    beats: usize,
    sign: u8,
    then: u8,
}
/// A client with a keep-alive time sends something in time, again and again; then something happens.
fn alive_run(a: &Alive, mask: Mask, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, mask, ctx.trace)?;
    let p = l.open(L1)?;
    l.send(p, &[connect("p")])?;
    let k = |id: &str, keep: u16| Pkt::Connect { id: id.into(), clean: true, keep, will: None, user: None, pass: None };
    let c = l.open(L1)?;
    l.send(c, &[k("alive", a.keep), subscribe(1, &["t"])])?;
    let d = l.open(L1)?;
    l.send(d, &[k("other", a.keep), subscribe(1, &["t", "u"])])?;
    let gap = (a.keep as u64 * a.percent / 100).max(1).min(a.keep as u64);
    for i in 0..a.beats {
        l.idle(gap)?;
        for x in [c, d] {
            let sign = match a.sign {
                0 => Pkt::PingReq,
                1 => publish("none", ""),
                2 => subscribe(10 + i as u16, &["t"]),
                3 => publish("t", ""),
                4 => unsubscribe(10 + i as u16, &["zz"]),
                _ => Pkt::PubAck(7),
            };
            l.send(x, &[sign])?;
        }
        if i + 1 < a.beats {
            l.log.pop();
        }
    }
    l.send(p, &[publish("t", ""), publish("u", "")])?;
    match a.then {
        0 => l.send(c, &[Pkt::PingReq])?,
        1 => {
            let n = l.open(L1)?;
            l.send(n, &[k("alive", a.keep), Pkt::PingReq])?;
            l.send(p, &[publish("t", "")])?;
            l.send(n, &[subscribe(2, &["u"])])?;
        }
        2 => l.send(c, &[Pkt::Disconnect])?,
        3 => l.close(c, CloseMode::Reset)?,
        4 => l.send(c, &[unsubscribe(2, &["t"]), subscribe(3, &["u"])])?,
        _ => {
            let n = l.open(L1)?;
            l.send(n, &[k("", a.keep), subscribe(2, &["t"])])?;
        }
    }
    l.send(p, &[publish("t", ""), publish("u", "")])?;
    l.send(d, &[Pkt::PingReq])?;
    let n = l.open(L1)?;
    l.send(n, &[k("alive", 0), subscribe(2, &["t"])])?;
    l.send(p, &[publish("t", ""), publish("u", "")])?;
    visit(&(a.keep, a.percent, a.beats));
    l.finish();
    Ok(())
}
pub fn kept_alive(tier: Tier, mask: Mask) -> Family {
    let mut list = vec![];
    for keep in tier.pick(vec![1u16, 2, 10, 60, 600, 65535], vec![1, 2, 3, 4, 5, 10, 20, 30, 60, 61, 120, 300, 600, 1200, 3600, 32767, 32768, 65534, 65535]) {
        for percent in [50, 90, 100] {
            for beats in tier.pick(vec![1usize, 2, 3, 5], vec![1, 2, 3, 4, 5, 10, 20, 50]) {
                for sign in 0..6 {
                    for then in 0..6 {
                        list.push(Alive { keep, percent, beats, sign, then });
                    }
                }
            }
        }
    }
    cases("clients that keep alive", list, move |a, ctx| alive_run(a, mask, ctx), |a| format!("{:?}", a)).cpu_limit(60.0)
}

// ------------------------------------------------------------------ C08

/// Variations of a password that is refused, and the password itself.
fn near(p: &str) -> Vec<String> {
    let mut v = vec![p.to_string(), format!("{}x", p), format!("x{}", p), String::new()];
    let n = p.len();
    if n > 0 {
        v.push(p[..n - 1].to_string());
        v.push(p[1..].to_string());
        v.push(format!("{}#", &p[..n - 1]));
        v.push(format!("#{}", &p[1..]));
        let m = n / 2;
        v.push(format!("{}#{}", &p[..m], &p[m + 1..]));
        for k in [8usize, 16, 32, 55, 56, 64, 72, 127, 128, 255, 256, 1024] {
            if k < n {
                v.push(p[..k].to_string());
                v.push(format!("{}{}", &p[..k], "#".repeat(n - k)));
            }
        }
    }
    v
}
fn long_passwords(n: &usize, ctx: &Ctx) -> Fallible<()> {
    let p: String = (0..*n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
    let other = format!("{}2", p);
    let users = [("alice", p.as_str()), ("bob", other.as_str())];
    let text: String = users.iter().map(|(u, p)| format!("{}:{}\n", u, cheap_hash(p, "c29tZXNhbHQ"))).collect();
    let mut l = Lock::boot(&auth_config(&text), &users, ALL, ctx.trace)?;
    for u in ["alice", "bob"] {
        for (k, q) in near(&p).iter().chain(&near(&other)).enumerate() {
            if q.len() > 65535 {
                continue;
            }
            let c = l.open(L1)?;
            l.log.clear();
            l.note(|| format!("{} with a password of {} bytes while that on file has {}", u, q.len(), n));
            let log = l.log.clone();
            l.send(c, &[connect_as(&format!("c{}", k), u, Some(q)), Pkt::PingReq]).map_err(|f| Fail { msg: format!("{} [{}]", f.msg.chars().take(400).collect::<String>(), log.join("; ")), ..f })?;
        }
    }
    l.log.clear();
    visit(n);
    l.finish();
    Ok(())
}

/// (user, password) on file, all attempts of names and passwords of the others, in the order given.
fn confusable(pairs: &[(String, String)], repeat: bool, ctx: &Ctx) -> Fallible<()> {
    let users: Vec<(&str, &str)> = pairs.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let text: String = users.iter().map(|(u, p)| format!("{}:{}\n", u, cheap_hash(p, "c29tZXNhbHQ"))).collect();
    let mut attempts: Vec<(String, String)> = vec![];
    for (u, _) in pairs {
        for (_, p) in pairs {
            attempts.push((u.clone(), p.clone()));
        }
    }
    // the same characters divided in other ways
    for (u, p) in pairs {
        let s = format!("{}{}", u, p);
        let at: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
        if at.len() < 20 {
            for i in at {
                attempts.push((s[..i].to_string(), s[i..].to_string()));
            }
        }
        for sep in [":", "\n", " ", ",", "/", "|", ";"] {
            let s = format!("{}{}{}", u, sep, p);
            attempts.push((s.clone(), String::new()));
            attempts.push((String::new(), s));
            if let Some((a, b)) = p.split_once(sep) {
                attempts.push((format!("{}{}{}", u, sep, a), b.to_string()));
            }
            if let Some((a, b)) = u.split_once(sep) {
                attempts.push((a.to_string(), format!("{}{}{}", b, sep, p)));
            }
        }
    }
    attempts.dedup();
    let mut l = Lock::boot(&auth_config(&text), &users, ALL, ctx.trace)?;
    // everybody logs in first, so that anything remembered is there
    let rounds: Vec<Vec<(String, String)>> = if repeat { vec![pairs.to_vec(), attempts.clone(), pairs.to_vec()] } else { vec![attempts.clone(), pairs.to_vec(), attempts.clone()] };
    for r in rounds {
        for (k, (u, p)) in r.iter().enumerate() {
            let c = l.open(L1)?;
            l.send(c, &[connect_as(&format!("c{}", k), u, Some(p)), Pkt::PingReq])?;
            if l.log.len() > 200 {
                l.log.clear();
            }
        }
    }
    visit(&hash(&text));
    l.finish();
    Ok(())
}

pub fn c08(tier: Tier) -> Vec<Family> {
    let ns: Vec<usize> = tier.pick(
        vec![1, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 55, 56, 57, 63, 64, 65, 71, 72, 73, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 60_000],
        (1..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 16384, 32768, 60_000, 65_534]).collect(),
    );
    let mut v = vec![cases("long passwords", ns, long_passwords, |n| format!("a password of {} bytes", n)).cpu_limit(120.0)];
    let st = |l: &[(&str, &str)]| l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let mut list = vec![];
    for l in [
        st(&[("ann", "abel")]),
        st(&[("ann", "abel"), ("anna", "x")]),
        st(&[("ann", "abel"), ("anna", "bel")]),
        st(&[("a", "b"), ("b", "a")]),
        st(&[("a", ":b")]),
        st(&[("a", "b:c"), ("b", "c")]),
        st(&[("a", "b c"), ("a b", "c")]),
        st(&[("a", "b/c"), ("a/b", "c")]),
        st(&[("a", "b|c"), ("a|b", "c")]),
        st(&[("a", "b,c"), ("a,b", "c")]),
        st(&[("a", "\nb")]),
        st(&[("", "ab"), ("a", "b"), ("ab", "")]),
        st(&[("x", "x"), ("xx", "xx"), ("xxx", "xxx")]),
        st(&[("user", "user"), ("User", "User")]),
    ] {
        for r in [true, false] {
            list.push((l.clone(), r));
        }
    }
    for (a, b) in lookalikes(tier) {
        if a < b && !a.contains(':') && !b.contains(':') && a.len() < 5000 {
            list.push((vec![(a.clone(), "1".into()), (b.clone(), "2".into())], true));
            list.push((vec![("one".into(), a), ("two".into(), b)], true));
        }
    }
    v.push(
        cases("credentials that resemble each other", list, |(l, r), ctx| confusable(l, *r, ctx), |(l, r)| format!("{}{}", l.iter().map(|(a, b)| format!("{} with {}", brief(a), brief(b))).collect::<Vec<_>>().join(", "), if *r { ", known" } else { "" }))
            .cpu_limit(120.0),
    );
    // lines of several colons: the name ends at the first
    let h = || cheap_hash("secret", "c29tZXNhbHQ");
    let lines: Vec<String> = vec![
        format!("x:bob:{}", h()),
        format!("bob::{}", h()),
        format!(":bob:{}", h()),
        format!("bob:{}:", h()),
        format!("bob:{}:x", h()),
        format!("a:b:c:{}", h()),
        format!("bob: :{}", h()),
        format!("::{}", h()),
        format!("bob:{}:{}", h(), h()),
        format!("bob:secret:{}", h()),
    ];
    v.push(cases(
        "lines of several colons",
        lines,
        |line, ctx| {
            let text = format!("carol:{}\n{}\ndave:{}\n", cheap_hash("cc", "c29tZXNhbHQ"), line, cheap_hash("dd", "c29tZXNhbHQ"));
            let users = [("carol", "cc"), ("dave", "dd")];
            let mut l = Lock::boot(&auth_config(&text), &users, ALL, ctx.trace)?;
            let mut names: Vec<String> = vec!["carol".into(), "dave".into(), "".into(), "bob".into(), "x".into(), ":".into()];
            for (i, _) in line.match_indices(':') {
                names.push(line[..i].to_string());
                names.push(line[..=i].to_string());
                names.push(line[i + 1..].to_string());
                names.push(line[i + 1..].split(':').next().unwrap().to_string());
            }
            for n in names {
                for p in ["secret", "", "cc", "dd", "bob:secret"] {
                    let c = l.open(L1)?;
                    l.send(c, &[connect_as("c", &n, Some(p)), Pkt::PingReq])?;
                }
            }
            l.finish();
            Ok(())
        },
        |l| format!("line {:?}", l.chars().take(40).collect::<String>()),
    ));
    v
}

// ------------------------------------------------------------------ C12

/// What is sent right before the broker closes the connection must arrive in full.
pub fn refusals() -> Vec<(&'static str, Vec<Pkt>, Vec<Out>)> {
    let no = Out::ConnAck { sp: 0, rc: 5 };
    let yes = Out::ConnAck { sp: 0, rc: 0 };
    let bad = || connect_as("slow", "alice", Some("bad"));
    vec![
        ("refused", vec![bad()], vec![no.clone()]),
        ("refused, more behind it", vec![bad(), subscribe(1, &["a"]), Pkt::PingReq, Pkt::PingReq], vec![no.clone()]),
        ("unknown user", vec![connect_as("", "eve", None)], vec![no]),
        ("replies, then DISCONNECT", vec![connect("slow"), subscribe(1, &["a", "b"]), Pkt::PingReq, unsubscribe(2, &["a"]), Pkt::PingReq, Pkt::Disconnect], vec![yes.clone(), Out::SubAck { id: 1, codes: vec![0, 0] }, Out::PingResp, Out::UnsubAck(2), Out::PingResp]),
        ("deliveries, then DISCONNECT", vec![connect("slow"), subscribe(1, &["a"]), publish("a", "one"), publish("a", "two"), Pkt::Disconnect], vec![yes.clone(), Out::SubAck { id: 1, codes: vec![0] }, dl("one"), dl("two")]),
        ("CONNACK, then DISCONNECT", vec![connect("slow"), Pkt::Disconnect], vec![yes.clone()]),
        ("replies, then a second CONNECT", vec![connect("slow"), Pkt::PingReq, connect("slow")], vec![yes.clone(), Out::PingResp]),
        ("replies, then malformed", vec![connect("slow"), Pkt::PingReq, Pkt::PingReq, Pkt::Raw(vec![0xf0, 0])], vec![yes, Out::PingResp, Out::PingResp]),
    ]
}
fn dl(p: &str) -> Out {
    Out::Publish { topic: b"a".to_vec(), payload: p.as_bytes().to_vec(), qos: 0, retain: false, dup: false, id: None }
}
pub fn c12(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for (i, (_, _, want)) in refusals().iter().enumerate() {
        let n: usize = want.iter().map(|o| o.encode().len()).sum();
        for w in (1..=n + 1).chain([usize::MAX]) {
            for r in 1..=w.min(tier.pick(6, 30)) {
                for apart in [false, true] {
                    list.push((i, w, r, apart));
                }
            }
        }
    }
    let all = Arc::new(refusals());
    let names = all.clone();
    let io = Explore { sched: false, preempt: false, select: false, io: true };
    let f = cases(
        "what the broker says before it closes",
        list,
        move |&(i, w, r, apart), ctx| {
            let (name, pkts, want) = &all[i];
            let mut s = Sys::boot(&env().cfg1, ctx.devs.clone(), io, ctx.trace)?;
            let c = s.open(L1).ok_or_else(|| Fail::new("refused", "nobody listens"))?;
            let net = s.conns[c].net;
            if w != usize::MAX {
                mc::set_flow(net, w, false);
            }
            mc::with(|x| x.net.conns[net].short_io = true);
            s.set_exploring(true);
            if apart {
                for p in pkts {
                    s.send_pkts(c, &[p.clone()]);
                    s.quiesce()?;
                }
            } else {
                s.send_pkts(c, pkts);
                s.quiesce()?;
            }
            while mc::client_read(net, r) > 0 {
                s.quiesce()?;
            }
            s.quiesce()?;
            s.check_wellformed()?;
            s.check_panics()?;
            let got = s.outs(c);
            if got != *want || s.leftover(c) > 0 {
                return Err(Fail::new("withheld", format!("{}: the client has drained its connection and received {:?} and {} bytes of an incomplete packet instead of {:?}", name, got, s.leftover(c), want)));
            }
            if !s.is_closed(c) {
                return Err(Fail::new("not-closed", format!("{}: the connection stays open", name)));
            }
            visit(&(i, w, r, apart));
            outcome(&got);
            s.end();
            Ok(())
        },
        move |&(i, w, r, a)| format!("{}, window {}, {} per read{}", names[i].0, if w == usize::MAX { 0 } else { w }, r, if a { ", step by step" } else { "" }),
    )
    .bound(tier.pick(1, 2));
    vec![f]
}

// ------------------------------------------------------------------ C22

/// A client picks the id that an anonymous client might have been given.
pub fn c22(tier: Tier) -> Vec<Family> {
    let mut ids: Vec<String> = vec![];
    for n in 0..4 {
        for f in ["{}", "client-{}", "client{}", "client_{}", "auto-{}", "auto{}", "anonymous-{}", "anonymous{}", "anon-{}", "generated-{}", "ratelmq-{}", "ratelmq{}", "mqtt-{}", "conn-{}", "connection-{}", "session-{}", "#{}", "id-{}", "user-{}", "c{}", "-{}", "_{}", "{}-", "0x{}"] {
            ids.push(f.replace("{}", &n.to_string()));
        }
    }
    for s in ["", "anonymous", "anon", "client", "auto", "none", "null", "None", "unknown", "guest", "default", "-", "_", "?", "*", "nil", "127.0.0.1", "127.0.0.1:1883", "localhost", "[::1]", "00000000-0000-0000-0000-000000000000"] {
        ids.push(s.to_string());
    }
    for port in 50_000..50_006 {
        ids.push(format!("127.0.0.1:{}", port));
        ids.push(format!("auto-127.0.0.1:{}", port));
        ids.push(format!("{}", port));
    }
    for n in 0..4u64 {
        ids.push(format!("{:08}", n));
        ids.push(format!("{:016x}", n));
        ids.push(format!("00000000-0000-0000-0000-{:012}", n));
    }
    ids.retain(|i| !i.is_empty());
    ids.dedup();
    let mut list = vec![];
    for id in ids {
        for first in tier.pick(vec![0usize, 1, 3], vec![0, 1, 2, 3, 10]) {
            list.push((id.clone(), first));
        }
    }
    let f = cases(
        "ids as they might be generated",
        list,
        |(id, first), ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
            let mut conns = vec![];
            let mut join = |l: &mut Lock, conns: &mut Vec<usize>, id: &str| -> Fallible<()> {
                let c = l.open(L1)?;
                let own = format!("own/{}", conns.len());
                l.send(c, &[connect(id), subscribe(1, &[&own, "all"])])?;
                conns.push(c);
                Ok(())
            };
            for _ in 0..*first {
                join(&mut l, &mut conns, "")?;
            }
            join(&mut l, &mut conns, id)?;
            for _ in 0..4 {
                join(&mut l, &mut conns, "")?;
            }
            let p = l.open(L1)?;
            l.send(p, &[connect("the publisher")])?;
            for k in 0..conns.len() {
                l.send(p, &[publish(&format!("own/{}", k), "")])?;
            }
            l.send(conns[0], &[publish("all", ""), unsubscribe(2, &["all"])])?;
            l.send(p, &[publish("all", "")])?;
            l.send(conns[*first], &[Pkt::Disconnect])?;
            l.send(p, &[publish("all", "")])?;
            for c in conns.clone() {
                l.send(c, &[Pkt::PingReq])?;
            }
            visit(&(id, first));
            l.finish();
            Ok(())
        },
        |(id, n)| format!("{:?} behind {} others", id, n),
    );
    vec![f, similar_ids(tier, ALL, &[EndMode::Disconnect])]
}

// ------------------------------------------------- hooks of the others

pub fn c01(tier: Tier) -> Vec<Family> {
    vec![similar_ids(tier, DELIVERIES, &[EndMode::Close]), similar_topics(tier, DELIVERIES), kept_alive(tier, DELIVERIES)]
}
pub fn c02(tier: Tier) -> Vec<Family> {
    vec![similar_topics(tier, DELIVERIES)]
}
pub fn c04(tier: Tier) -> Vec<Family> {
    let m = Mask { replies: true, ..DELIVERIES };
    vec![similar_ids(tier, m, &[EndMode::Disconnect]), similar_topics(tier, m), kept_alive(tier, m)]
}
pub fn c05(tier: Tier) -> Vec<Family> {
    vec![kept_alive(tier, REPLIES), similar_ids(tier, REPLIES, &[EndMode::Disconnect])]
}
pub fn c06(tier: Tier) -> Vec<Family> {
    vec![similar_ids(tier, ALL, &[EndMode::Disconnect, EndMode::Close, EndMode::Reset, EndMode::Fin, EndMode::Malformed, EndMode::SecondConnect]), kept_alive(tier, ALL)]
}
pub fn c07(tier: Tier) -> Vec<Family> {
    vec![similar_ids(tier, ALL, &[EndMode::Disconnect, EndMode::Reset]), kept_alive(tier, ALL)]
}
