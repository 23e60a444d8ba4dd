//! What clients send cannot pass for lines of the log (C33).
use super::routing::WORLD;
use super::session::auth_config;
use crate::codec::*;
use crate::env::cheap_hash;
use crate::explore::*;
use crate::hist::sequences;
use crate::real::{Broker, Conn};
use crate::report::*;
use crate::sys::*;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::mc::{CloseMode, Explore};

pub fn checks() -> Vec<Check> {
    vec![Check { id: "C33", families: c33, rule: "everything logged at every level, searched for a control character or line separator followed by the mark that the client put behind it: every control character in every field of every packet, with all outcomes of authentication and all ways in which a connection ends; histories of two clients with marked texts in all fields; on the real binary also lines that begin with the mark", assumptions: &[WORLD, "control characters are those of Unicode, and the line and paragraph separators"] }]
}

/// What a client puts behind the control character; nothing else contains it.
const MARK: &str = "zQmarkQz";

fn controls() -> Vec<char> {
    ('\u{1}'..='\u{1f}').chain('\u{7f}'..='\u{9f}').chain(['\u{2028}', '\u{2029}']).collect()
}
fn is_control(c: char) -> bool {
    c.is_control() || c == '\u{2028}' || c == '\u{2029}'
}
/// The character in front of some mark, if it is one of those.
pub fn forged(log: &str) -> Option<String> {
    log.match_indices(MARK).find_map(|(i, _)| {
        let c = log[..i].chars().next_back()?;
        is_control(c).then(|| {
            let from = log[..i].char_indices().rev().nth(120).map_or(0, |x| x.0);
            let to = log[i..].char_indices().nth(60).map_or(log.len(), |x| i + x.0);
            format!("{:?} as it was sent, in {:?}", c, &log[from..to])
        })
    })
}

fn unforged(s: &Sys, what: &dyn Fn() -> String) -> Fallible<()> {
    let log = captured_log();
    outcome(&log.lines().count());
    visit(&(log.lines().count(), s.conns.iter().map(|c| c.out.len()).collect::<Vec<_>>()));
    sample(|| format!("{}: {} lines logged, the last one {:?}", what(), log.lines().count(), log.lines().last()));
    if log.is_empty() {
        return Err(Fail::new("harness", "nothing is logged at all"));
    }
    match forged(&log) {
        Some(l) => Err(Fail::new("forged", l).ctx(what())),
        None => Ok(()),
    }
}
fn boot_logged(file: &str, trace: bool) -> Fallible<Sys> {
    capture_log();
    Sys::boot(&auth_config(file), vec![], Explore::default(), trace)
}
/// Users of the credential file: a plain one, and one with such a name if a line can hold it.
fn users(text: &str) -> String {
    let salt = "U2FsdE9mTXlIYXNo";
    let mut s = format!("anna:{}\n", cheap_hash("wonder", salt));
    if !text.contains(|c| c == '\n' || c == ':') {
        s.push_str(&format!("{}:{}\n", text, cheap_hash("builder", salt)));
    }
    s
}

/// All packets with the text in one place.
fn places(t: &str) -> Vec<(&'static str, Vec<Pkt>)> {
    let conn = |id: &str, user: Option<&str>, pass: Option<&str>| Pkt::Connect { id: id.into(), clean: true, keep: 10, will: None, user: user.map(|u| u.into()), pass: pass.map(|u| u.into()) };
    let will = |topic: &str, payload: &str| Pkt::Connect { id: "c".into(), clean: true, keep: 0, will: Some(Will { topic: topic.into(), payload: payload.as_bytes().to_vec(), qos: 1, retain: true }), user: Some("anna".into()), pass: Some("wonder".into()) };
    let ok = || conn("c", Some("anna"), Some("wonder"));
    let raw = |first: u8, body: &[u8]| Pkt::Raw([&[first, body.len() as u8][..], body].concat());
    let b = t.as_bytes();
    let str2 = [&(b.len() as u16).to_be_bytes()[..], b].concat();
    vec![
        ("client id", vec![conn(t, None, None)]),
        ("client id, logged in", vec![conn(t, Some("anna"), Some("wonder"))]),
        ("client id, refused", vec![conn(t, Some("anna"), Some("x"))]),
        ("client id, CONNECT twice", vec![conn(t, None, None), conn(t, None, None)]),
        ("client id of a long session", vec![Pkt::Connect { id: t.into(), clean: false, keep: 10, will: None, user: None, pass: None }, subscribe(1, &["a"])]),
        ("user name, no password", vec![conn("c", Some(t), None)]),
        ("user name, wrong password", vec![conn("c", Some(t), Some("x"))]),
        ("user name, right password", vec![conn("c", Some(t), Some("builder"))]),
        ("user name and password", vec![conn("c", Some(t), Some(t))]),
        ("user name and client id", vec![conn(t, Some(t), Some("x"))]),
        ("user name of another one", vec![conn("c", Some("anna"), Some("wonder")), conn("d", Some(t), Some("x"))]),
        ("password", vec![conn("c", Some("anna"), Some(t))]),
        ("will topic", vec![will(t, "x")]),
        ("will message", vec![will("w", t)]),
        ("topic", vec![ok(), subscribe(1, &["#"]), publish(t, "x")]),
        ("message", vec![ok(), subscribe(1, &["#"]), publish("t", t)]),
        ("topic, QoS 1", vec![ok(), publish_q(t, t, 1, 5)]),
        ("topic, QoS 2", vec![ok(), publish_q(t, t, 2, 5)]),
        ("topic, QoS 3", vec![ok(), publish_q(t, t, 3, 5)]),
        ("topic, no session", vec![conn("c", Some("anna"), Some("x")), publish(t, t)]),
        ("filter", vec![ok(), subscribe(1, &[t, t])]),
        ("filter, requested QoS 3", vec![ok(), Pkt::Subscribe { id: 1, filters: vec![(t.into(), 3)] }]),
        ("filter that is none", vec![ok(), subscribe(1, &[&format!("{}#", t), &format!("#/{}", t)])]),
        ("filter taken back", vec![ok(), subscribe(1, &[t]), unsubscribe(2, &[t])]),
        ("filter that it has not", vec![ok(), unsubscribe(2, &[t])]),
        ("ping, then gone", vec![conn(t, None, None), Pkt::PingReq, Pkt::Disconnect, Pkt::PingReq]),
        ("first packet of another kind", vec![publish(t, t)]),
        ("no MQTT", vec![Pkt::Raw(b.to_vec())]),
        ("protocol name", vec![raw(0x10, &[&str2[..], &[4, 2, 0, 0, 0, 0]].concat())]),
        ("body of each kind", (1..16).map(|k| raw(k << 4, &str2)).collect()),
        ("body of each kind, connected", [vec![ok()], (2..16).map(|k| raw(k << 4 | if matches!(k, 6 | 8 | 10) { 2 } else { 0 }, &str2)).collect()].concat()),
        ("behind bytes that are no text", vec![raw(0x10, &[&[0, 4][..], b"MQTT", &[4, 0x82, 0, 0, 0, 1, b'c', 0, b.len() as u8 + 1, 0xff], b].concat())]),
        ("topic behind bytes that are no text", vec![ok(), raw(0x30, &[&[0, b.len() as u8 + 1, 0xff][..], b].concat())]),
        ("filter behind bytes that are no text", vec![ok(), raw(0x82, &[&[0, 1, 0, b.len() as u8 + 1, 0xff][..], b, &[0]].concat())]),
    ]
}
const ENDS: &[CloseMode] = &[CloseMode::Close, CloseMode::Reset, CloseMode::Fin, CloseMode::Failed(libc::ETIMEDOUT)];

fn c33(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let forms = |c: char| vec![format!("{}{}", c, MARK), format!("a{}{}", c, MARK), format!("a/{}{}/b", c, MARK), format!("\r{}{}{}\n", c, c, MARK), format!("{}\u{1b}[2J{}{}", "x".repeat(70), c, MARK), format!("\"{}{}\\\"{{}}", c, MARK)];
    let mut list = vec![];
    for c in controls() {
        for (k, t) in forms(c).into_iter().enumerate() {
            if k > 1 && !tier.thorough() && !['\n', '\r', '\u{1b}', '\u{85}', '\u{2028}'].contains(&c) {
                continue;
            }
            for p in 0..places(&t).len() {
                for e in 0..ENDS.len() {
                    list.push((t.clone(), p, e));
                }
            }
        }
    }
    v.push(cases(
        "every control character in every place",
        list,
        |(t, p, e), ctx| {
            let (name, pkts) = places(t)[*p].clone();
            let mut s = boot_logged(&users(t), ctx.trace)?;
            let a = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
            for (i, x) in pkts.iter().enumerate() {
                s.send_pkts(a, &[x.clone()]);
                if i % 2 == *e % 2 {
                    s.quiesce()?;
                }
            }
            s.quiesce()?;
            // the same again over a new connection, while the first one is still open
            let b = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
            s.send_pkts(b, &pkts);
            s.quiesce()?;
            s.idle(100)?;
            s.close(a, ENDS[*e]);
            s.quiesce()?;
            s.interrupt();
            s.quiesce()?;
            unforged(&s, &|| format!("{:?} as {}: {}", t, name, clip(&format!("{:?}", pkts), 300)))?;
            s.end();
            Ok(())
        },
        |(t, p, e)| format!("{:?} as {}, {:?}", t, places(t)[*p].0, ENDS[*e]),
    ));
    // histories
    #[derive(Clone, Debug)]
    enum Op {
        Open(usize, Pkt),
        Send(usize, Pkt),
        End(usize, CloseMode),
        Idle,
        Int,
    }
    let t = format!("a/\n{}", MARK);
    let u = format!("u\r{}", MARK);
    let mut ops = vec![];
    for c in 0..2 {
        ops.push(Op::Open(c, connect(&t)));
        ops.push(Op::Open(c, connect_as(&format!("{}{}", t, c), &u, Some("builder"))));
        ops.push(Op::Open(c, connect_as(&t, &u, Some(&t))));
        ops.push(Op::Send(c, Pkt::Disconnect));
        ops.push(Op::Send(c, publish(&t, &t)));
        ops.push(Op::End(c, CloseMode::Reset));
    }
    ops.push(Op::Open(0, connect_as("same", &t, None)));
    ops.push(Op::Open(1, publish(&t, &u)));
    ops.push(Op::Send(0, connect(&t)));
    ops.push(Op::Send(0, subscribe(1, &[&t, "a/+", &u])));
    ops.push(Op::Send(0, unsubscribe(1, &[&u, "a/+", &t])));
    ops.push(Op::Send(1, Pkt::PingReq));
    ops.push(Op::Send(1, publish_q(&t, &t, 2, 9)));
    ops.push(Op::Send(0, Pkt::Raw([&[0x80][..], &[t.len() as u8], t.as_bytes()].concat())));
    ops.push(Op::Idle);
    ops.push(Op::Int);
    let ops = Arc::new(ops);
    let file = Arc::new(users(&u));
    for d in 1..=tier.pick(4usize, 5) {
        let (f, a, b) = (file.clone(), ops.clone(), ops.clone());
        v.push(cases(
            format!("histories of {} steps", d),
            sequences(ops.len(), d, &|_| true),
            move |q, ctx| {
                let mut s = boot_logged(&f, ctx.trace)?;
                let mut slot = [None; 2];
                for i in q {
                    match &a[*i as usize] {
                        Op::Open(c, p) => {
                            let Some(n) = s.open(L1) else { continue };
                            slot[*c] = Some(n);
                            s.send_pkts(n, &[p.clone()]);
                        }
                        Op::Send(c, p) => {
                            let Some(n) = slot[*c] else { continue };
                            s.send_pkts(n, &[p.clone()]);
                        }
                        Op::End(c, m) => {
                            let Some(n) = slot[*c].take() else { continue };
                            s.close(n, *m);
                        }
                        Op::Idle => s.idle(100)?,
                        Op::Int => s.interrupt(),
                    }
                    s.quiesce()?;
                }
                unforged(&s, &|| format!("{:?}", q.iter().map(|i| &a[*i as usize]).collect::<Vec<_>>()))?;
                s.end();
                Ok(())
            },
            move |q| format!("{:?}", q.iter().map(|i| &b[*i as usize]).collect::<Vec<_>>()),
        ));
    }
    let mut v: Vec<Family> = v.into_iter().map(|f| Family { logged: true, ..f }).collect();
    v.extend(on_the_binary(tier));
    v
}

// ------------------------------------------------------ on the real binary

fn on_the_binary(tier: Tier) -> Vec<Family> {
    let cs: Vec<char> = tier.pick(vec!['\n', '\r', '\u{1b}'], controls());
    let mut list = vec![];
    for c in cs {
        for form in [format!("a{}{}", c, MARK), format!("{}{}", c, MARK)] {
            for p in 0..places(&form).len() {
                for level in ["trace", "info"] {
                    list.push((form.clone(), p, level));
                }
            }
        }
    }
    vec![cases(
        "real binary: control characters in every place",
        list,
        |(t, p, level), _| {
            let (name, pkts) = places(t)[*p].clone();
            let mut log = std::path::PathBuf::new();
            let mut b = Broker::start(1, &users(t), |c, d| {
                log = d.join("log");
                let f = std::fs::File::create(&log).unwrap();
                c.env("RUST_LOG", level).stderr(f.try_clone().unwrap()).stdout(f);
            })?;
            let mut c = Conn::open(b.addrs[0])?;
            c.send(&encode_all(&[pkts.clone(), vec![Pkt::PingReq]].concat()));
            answered(&mut c, 1);
            c.close(CloseMode::Reset);
            // what follows is handled after it
            let mut d = Conn::open(b.addrs[0])?;
            d.send(&encode_all(&[connect("other"), Pkt::PingReq]));
            answered(&mut d, 3);
            b.interrupt();
            let bytes = std::fs::read(&log).unwrap_or_default();
            let text = String::from_utf8_lossy(&bytes);
            visit(&(text.lines().count(), p, level));
            outcome(&text.lines().count());
            if text.is_empty() {
                return Err(Fail::new("harness", "nothing is logged at all"));
            }
            match forged(&text) {
                Some(l) => Err(Fail::new("forged", l).ctx(format!("with the real binary, RUST_LOG={}, {:?} as {}", level, t, name))),
                None => Ok(()),
            }
        },
        |(t, p, level)| format!("{:?} as {}, RUST_LOG={}", t, places(t)[*p].0, level),
    )]
}
/// Until it has answered what it answers.
fn answered(c: &mut Conn, seconds: u64) {
    let t0 = Instant::now();
    while t0.elapsed() < Duration::from_secs(seconds) {
        c.collect();
        if c.eof || c.out.contains(&Out::PingResp) {
            break;
        }
        std::thread::sleep(Duration::from_millis(1));
    }
}
