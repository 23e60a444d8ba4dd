//! Families shared by several properties: all pairs of filter sets, scale, races of
//! generated programs, peer addresses, equal payloads, time that passes.
use super::routing::{joins, pubs, subs, unsubs};
use super::session::connack_first;
use crate::codec::*;
use crate::env::{env, USERS};
use crate::explore::*;
use crate::hist::*;
use crate::model::*;
use crate::report::*;
use crate::script::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{self, CloseMode, Peers};

// ------------------------------------------------------ pairs of filter sets

const F6: [&str; 6] = ["a", "a/b", "a/#", "#", "+/b", "a/+"];
const PROBES: [&str; 6] = ["a", "b", "a/b", "a/c", "c/b", "a/b/c"];

fn pick(set: u32) -> Vec<&'static str> {
    (0..6).filter(|i| set >> i & 1 == 1).map(|i| F6[i]).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SetOp {
    /// A ends like this and comes back with the same id
    End(CloseMode),
    Disconnect,
    /// another connection takes A's id
    TakeOver,
    /// A unsubscribes every set of filters, in one packet
    Unsubscribe,
    /// A unsubscribes them one packet each, all in one segment
    UnsubscribeEach,
}

/// A holds SA, B holds SB; then something happens to A; B must not notice.
pub fn sets(name: &str, mask: Mask, ops: &[SetOp]) -> Family {
    let mut list = vec![];
    for op in ops {
        for sa in 0..64u32 {
            for sb in 0..64u32 {
                // who subscribed first matters for shared nodes
                for b_first in [false, true] {
                    list.push((*op, sa, sb, b_first));
                }
            }
        }
    }
    cases(
        name,
        list,
        move |(op, sa, sb, b_first), ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, mask, ctx.trace)?;
            let p = l.open(L1)?;
            l.send(p, &[connect("pub")])?;
            let (a, b) = (l.open(L1)?, l.open(L1)?);
            l.send(a, &[connect("A")])?;
            l.send(b, &[connect("B")])?;
            let unsub = matches!(op, SetOp::Unsubscribe | SetOp::UnsubscribeEach);
            // when unsubscribing, sb is what A drops; B holds what A holds
            let (fa, fb) = (pick(*sa), if unsub { pick(*sa) } else { pick(*sb) });
            let mut todo = vec![(a, fa), (b, fb)];
            if *b_first {
                todo.reverse();
            }
            for (c, f) in todo {
                if !f.is_empty() {
                    l.send(c, &[subscribe(1, &f)])?;
                }
            }
            let mut drop = pick(*sb);
            if *b_first {
                drop.reverse();
            }
            let probes: Vec<Pkt> = PROBES.iter().map(|t| publish(t, "")).collect();
            match op {
                SetOp::End(m) => l.close(a, *m)?,
                SetOp::Disconnect => l.send(a, &[Pkt::Disconnect])?,
                SetOp::TakeOver => {}
                SetOp::Unsubscribe => {
                    if !drop.is_empty() {
                        l.send(a, &[unsubscribe(2, &drop)])?
                    }
                }
                SetOp::UnsubscribeEach => {
                    let v: Vec<Pkt> = drop.iter().enumerate().map(|(i, f)| unsubscribe(i as u16 + 2, &[f])).collect();
                    l.send(a, &v)?
                }
            }
            if !unsub {
                if *op != SetOp::TakeOver {
                    l.send(p, &probes)?;
                }
                let a2 = l.open(L1)?;
                l.send(a2, &[connect("A")])?;
            }
            l.send(p, &probes)?;
            l.finish();
            Ok(())
        },
        |(op, sa, sb, bf)| format!("{:?}: A {:?}, {:?}{}", op, pick(*sa), pick(*sb), if *bf { ", B first" } else { "" }),
    )
}

// --------------------------------------------------------------------- scale

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Scale {
    Subscribers,
    Filters,
    FiltersInOnePacket,
    DeepFilters,
    Publishers,
    Messages,
    MessagesToStalled,
    Topics,
    SubscribeCycles,
    Pings,
    Requests,
    RequestsStalled,
    ConnectCycles,
    ConnectCyclesDistinct,
    IdlessCycles,
    ManyEnd,
    TakeOvers,
    Connections,
}
use Scale::*;

pub fn sizes(tier: Tier) -> Vec<usize> {
    tier.pick(
        (1..=20).chain([31, 32, 33, 34, 48, 63, 64, 65, 66, 99, 100, 127, 128, 129, 130, 255, 256, 257, 258, 300]).collect(),
        (1..=130).chain([200, 255, 256, 257, 258, 500, 511, 512, 513, 1000, 1023, 1024, 1025]).collect(),
    )
}

const MODES: [EndMode; 5] = [EndMode::Disconnect, EndMode::Fin, EndMode::Close, EndMode::Reset, EndMode::Malformed];

fn end(l: &mut Lock, c: usize, m: &EndMode) -> Fallible<()> {
    let mut slots = vec![Some(c)];
    apply(l, &mut slots, &[L1], &H::End(0, m.clone()))
}

fn scale_run(kind: Scale, n: usize, mask: Mask, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, mask, ctx.trace)?;
    let p = l.open(L1)?;
    l.send(p, &[connect("pub")])?;
    let new = |l: &mut Lock, id: &str| -> Fallible<usize> {
        let c = l.open(L1)?;
        l.send(c, &[connect(id)])?;
        Ok(c)
    };
    let trim = |l: &mut Lock| {
        if l.log.len() > 60 {
            let k = l.log.len() - 20;
            l.log.drain(10..k);
        }
    };
    match kind {
        Subscribers => {
            let mut v = vec![];
            for i in 0..n {
                let c = new(&mut l, &format!("s{}", i))?;
                l.send(c, &[subscribe(1, &["t"])])?;
                v.push(c);
                trim(&mut l);
            }
            l.send(p, &[publish("t", ""), publish("u", "")])?;
            for c in v.iter().skip(1).step_by(2) {
                l.send(*c, &[unsubscribe(2, &["t"])])?;
                trim(&mut l);
            }
            l.send(p, &[publish("t", "")])?;
            for c in v.iter().take(n / 2) {
                l.send(*c, &[Pkt::Disconnect])?;
                trim(&mut l);
            }
            l.send(p, &[publish("t", "")])?;
        }
        Filters | FiltersInOnePacket => {
            let a = new(&mut l, "A")?;
            let b = new(&mut l, "B")?;
            l.send(b, &[subscribe(1, &["f/0", &format!("f/{}", n - 1)])])?;
            let fs: Vec<String> = (0..n).map(|i| format!("f/{}", i)).collect();
            let fr: Vec<&str> = fs.iter().map(|s| s.as_str()).collect();
            if kind == Filters {
                for f in &fr {
                    l.send(a, &[subscribe(7, &[f])])?;
                    trim(&mut l);
                }
            } else {
                l.send(a, &[subscribe(7, &fr)])?;
            }
            let all: Vec<Pkt> = fr.iter().map(|f| publish(f, "")).collect();
            l.send(p, &all)?;
            let even: Vec<&str> = fr.iter().step_by(2).cloned().collect();
            if kind == Filters {
                for f in &even {
                    l.send(a, &[unsubscribe(8, &[f])])?;
                    trim(&mut l);
                }
            } else {
                l.send(a, &[unsubscribe(8, &even)])?;
            }
            l.send(p, &all)?;
            end(&mut l, a, &MODES[n % MODES.len()])?;
            l.send(p, &all)?;
            new(&mut l, "A")?;
            l.send(p, &all)?;
        }
        DeepFilters => {
            // a filter of n levels among its neighbours
            let a = new(&mut l, "A")?;
            let b = new(&mut l, "B")?;
            let t = vec!["x"; n].join("/");
            l.send(a, &[subscribe(1, &[&t])])?;
            l.send(b, &[subscribe(1, &[&format!("{}/x", t), &format!("{}/+", t)])])?;
            let up = vec!["x"; n.max(2) - 1].join("/");
            l.send(p, &[publish(&t, ""), publish(&format!("{}/x", t), ""), publish(&up, "")])?;
            l.send(b, &[subscribe(1, &[&format!("{}/#", t)])])?;
            l.send(p, &[publish(&format!("{}/y/z", t), "")])?;
            l.send(a, &[unsubscribe(1, &[&t])])?;
            l.send(p, &[publish(&t, "")])?;
            end(&mut l, b, &MODES[n % MODES.len()])?;
            l.send(p, &[publish(&t, ""), publish(&format!("{}/x", t), "")])?;
        }
        Publishers => {
            let a = new(&mut l, "A")?;
            l.send(a, &[subscribe(1, &["t"])])?;
            let mut v = vec![];
            for i in 0..n {
                v.push(new(&mut l, &format!("p{}", i))?);
                trim(&mut l);
            }
            for c in &v {
                l.send(*c, &[publish("t", "")])?;
                trim(&mut l);
            }
            for c in v.iter().rev() {
                l.send(*c, &[publish("t", "")])?;
                trim(&mut l);
            }
        }
        Messages => {
            let a = new(&mut l, "A")?;
            let b = new(&mut l, "B")?;
            l.send(a, &[subscribe(1, &["t", "other"])])?;
            l.send(b, &[subscribe(1, &["+"])])?;
            let v: Vec<Pkt> = (0..n).map(|_| publish("t", "")).collect();
            l.send(p, &v)?;
            l.log.clear();
            for _ in 0..n.min(100) {
                l.send(p, &[publish("t", "")])?;
                trim(&mut l);
            }
        }
        MessagesToStalled | RequestsStalled => {
            let a = l.open(L1)?;
            l.send(a, &[connect("A"), subscribe(1, &["t"])])?;
            for win in [1usize, 50] {
                let before = l.sys.outs(a).len();
                mc::set_flow(l.sys.conns[a].net, win, false);
                let (from, v): (usize, Vec<Pkt>) = if kind == MessagesToStalled {
                    (p, (0..n).map(|i| publish("t", &format!("{}-{}", win, i))).collect())
                } else {
                    (a, (0..n).map(|i| match i % 3 {
                        0 => Pkt::PingReq,
                        1 => subscribe(i as u16 + 1, &["t", "x", "y"][..1 + i % 3]),
                        _ => unsubscribe(i as u16 + 1, &["x"]),
                    }).collect())
                };
                l.sys.send_pkts(from, &v);
                l.sys.quiesce()?;
                for _ in 0..5 {
                    mc::client_read(l.sys.conns[a].net, win);
                    l.sys.quiesce()?;
                }
                mc::set_flow(l.sys.conns[a].net, 0, true);
                l.sys.quiesce()?;
                let mut want: Vec<Exp> = vec![];
                for p in &v {
                    want.extend(l.model.step(from, p).into_iter().filter(|x| x.0 == a).map(|x| x.1));
                }
                let got = l.sys.outs(a)[before..].to_vec();
                compare(&want, &got, &mask).map_err(|f| f.ctx(format!("{} packets for a client that stalled (window {}) and resumed", n, win)))?;
                if l.sys.leftover(a) > 0 {
                    return Err(Fail::new("partial", "a packet never completes"));
                }
                l.seen[a] = l.sys.conns[a].out.len();
                l.seen[p] = l.sys.conns[p].out.len();
            }
        }
        Topics => {
            let mut v = vec![];
            for i in 0..n {
                let c = new(&mut l, &format!("s{}", i))?;
                l.send(c, &[subscribe(1, &[&format!("t/{}", i)])])?;
                v.push(c);
                trim(&mut l);
            }
            let all: Vec<Pkt> = (0..n).map(|i| publish(&format!("t/{}", i), "")).collect();
            l.send(p, &all)?;
            l.log.clear();
            // the first and the last leave, the others stay
            end(&mut l, v[0], &MODES[n % MODES.len()])?;
            end(&mut l, v[n - 1], &MODES[(n + 1) % MODES.len()])?;
            l.send(p, &all)?;
        }
        SubscribeCycles => {
            let a = new(&mut l, "A")?;
            for i in 0..n {
                l.send(a, &[subscribe(1, &["t"])])?;
                if i % 3 == 0 || i + 3 > n {
                    l.send(p, &[publish("t", "")])?;
                }
                l.send(a, &[unsubscribe(2, &["t"])])?;
                if i % 3 == 1 || i + 3 > n {
                    l.send(p, &[publish("t", "")])?;
                }
                trim(&mut l);
            }
            let v: Vec<Pkt> = (0..n).flat_map(|i| [subscribe(i as u16 + 1, &["t"]), subscribe(i as u16 + 1, &["t"])]).collect();
            l.send(a, &v)?;
            l.log.clear();
            l.send(p, &[publish("t", "")])?;
            l.send(a, &[unsubscribe(3, &["t"])])?;
            l.send(p, &[publish("t", "")])?;
        }
        Pings => {
            let a = new(&mut l, "A")?;
            l.send(a, &vec![Pkt::PingReq; n])?;
            for _ in 0..n.min(300) {
                l.send(a, &[Pkt::PingReq])?;
                trim(&mut l);
            }
        }
        Requests => {
            let a = l.open(L1)?;
            let mut v = vec![connect("A")];
            v.extend((0..n).map(|i| match i % 4 {
                0 => subscribe(i as u16 + 1, &["a", "b", "c"][..1 + i % 3]),
                1 => Pkt::PingReq,
                2 => unsubscribe(i as u16 + 1, &["a"]),
                _ => publish("a", ""),
            }));
            l.send(a, &v)?;
            connack_first(&l.sys.outs(a)).map_err(|f| l.ctx(f))?;
        }
        ConnectCycles => {
            for i in 0..n {
                let a = l.open(L1)?;
                l.send(a, &[connect("A")])?;
                l.send(p, &[publish("t", "")])?;
                l.send(a, &[subscribe(1, &["t", "u"])])?;
                l.send(p, &[publish("t", "")])?;
                end(&mut l, a, &MODES[i % MODES.len()])?;
                trim(&mut l);
            }
            l.send(p, &[publish("t", "")])?;
            let a = new(&mut l, "A")?;
            l.send(p, &[publish("t", "")])?;
            l.send(a, &[subscribe(1, &["u"])])?;
            l.send(p, &[publish("u", "")])?;
        }
        ConnectCyclesDistinct | IdlessCycles => {
            for i in 0..n {
                let a = l.open(L1)?;
                let id = if kind == IdlessCycles { String::new() } else { format!("c{}", i) };
                l.send(a, &[connect(&id), subscribe(1, &["t"])])?;
                l.send(p, &[publish("t", "")])?;
                end(&mut l, a, &MODES[i % MODES.len()])?;
                trim(&mut l);
            }
            let a = new(&mut l, if kind == IdlessCycles { "" } else { "c0" })?;
            l.send(p, &[publish("t", "")])?;
            l.send(a, &[subscribe(1, &["t"])])?;
            l.send(p, &[publish("t", "")])?;
        }
        ManyEnd => {
            let mut v = vec![];
            for i in 0..n {
                let c = l.open(L1)?;
                l.send(c, &[connect(&format!("c{}", i)), subscribe(1, &["t", "+/x"])])?;
                v.push(c);
                trim(&mut l);
            }
            l.log.clear();
            // all but the last end, all at once
            for (i, c) in v.iter().take(n - 1).enumerate() {
                match MODES[i % 4] {
                    EndMode::Disconnect => l.sys.send_pkts(*c, &[Pkt::Disconnect]),
                    EndMode::Fin => l.sys.close(*c, CloseMode::Fin),
                    EndMode::Close => l.sys.close(*c, CloseMode::Close),
                    _ => l.sys.close(*c, CloseMode::Reset),
                }
                l.model.end(*c);
                if i % 4 != 0 {
                    l.closed_by_client[*c] = l.sys.conns[*c].closed_by_client;
                }
            }
            l.settle(vec![])?;
            l.send(p, &[publish("t", ""), publish("u/x", "")])?;
            for i in 0..n {
                let c = l.open(L1)?;
                l.send(c, &[connect(&format!("c{}", i))])?;
                trim(&mut l);
            }
            l.send(p, &[publish("t", ""), publish("u/x", "")])?;
        }
        TakeOvers => {
            let w = new(&mut l, "W")?;
            l.send(w, &[subscribe(1, &["p"])])?;
            let mut prev = None;
            for i in 0..n {
                let c = l.open(L1)?;
                l.send(c, &[connect("A"), subscribe(1, &["t"])])?;
                l.send(p, &[publish("t", "")])?;
                if let Some(o) = prev {
                    l.send(o, &[publish("p", "")])?;
                }
                if i % 2 == 0 {
                    prev = Some(c);
                }
                trim(&mut l);
            }
            l.send(p, &[publish("t", "")])?;
        }
        Connections => {
            let mut v = vec![];
            for _ in 0..n {
                v.push(l.open(L1)?);
                trim(&mut l);
            }
            for (i, c) in v.iter().enumerate() {
                l.send(*c, &[connect(&format!("c{}", i)), Pkt::PingReq])?;
                trim(&mut l);
            }
            for (i, c) in v.iter().enumerate() {
                if i % 2 == 0 {
                    end(&mut l, *c, &MODES[(i / 2) % MODES.len()])?;
                    trim(&mut l);
                }
            }
            l.probe(L1)?;
        }
    }
    l.running()?;
    l.finish();
    Ok(())
}

pub fn scale(name: &str, mask: Mask, kinds: &[Scale], ns: &[usize]) -> Family {
    let mut list = vec![];
    for n in ns {
        for k in kinds {
            list.push((*k, *n));
        }
    }
    // the big ones first: they take longest
    list.sort_by_key(|x| std::cmp::Reverse(x.1));
    cases(name, list, move |(k, n), ctx| scale_run(*k, *n, mask, ctx), |(k, n)| format!("{:?}, {}", k, n)).cpu_limit(120.0)
}

// ------------------------------------------------------------- generated races

/// What connection 0 (live as "A", subscribed to "a") may do.
pub fn a_programs() -> Vec<(&'static str, Vec<Step>)> {
    vec![
        ("publishes", vec![send(0, &[publish("a", ""), publish("b", "")])]),
        ("publishes in two segments", vec![send(0, &[publish("b", "")]), send(0, &[publish("a", "")])]),
        ("subscribes", vec![send(0, &[subscribe(3, &["b", "a/#"])])]),
        ("unsubscribes", vec![send(0, &[unsubscribe(4, &["a"])])]),
        ("resubscribes", vec![send(0, &[unsubscribe(4, &["a"]), subscribe(5, &["a"])])]),
        ("disconnects", vec![send(0, &[Pkt::Disconnect])]),
        ("publishes and disconnects", vec![send(0, &[publish("b", ""), Pkt::Disconnect])]),
        ("half-closes", vec![st(0, Act::Close(CloseMode::Fin))]),
        ("closes", vec![st(0, Act::Close(CloseMode::Close))]),
        ("resets", vec![st(0, Act::Close(CloseMode::Reset))]),
        ("subscribes and closes", vec![send(0, &[subscribe(3, &["b"])]), st(0, Act::Close(CloseMode::Close))]),
        ("connects twice", vec![send(0, &[connect("A"), publish("b", "")])]),
        ("publishes to a wildcard", vec![send(0, &[publish("a/+", ""), publish("b", "")])]),
        ("pings", vec![send(0, &[Pkt::PingReq]), send(0, &[Pkt::PingReq])]),
        ("sends a malformed packet", vec![send(0, &[publish("b", ""), Pkt::Raw(vec![0x80, 5, 0, 1, 0, 0, 0])])]),
    ]
}
/// What connection 1 may do; it is live as "B" with "+" when its program does not open it.
pub fn b_programs() -> Vec<(&'static str, Vec<Step>)> {
    vec![
        ("another takes its id", vec![opens(1), send(1, &[connect("A"), subscribe(1, &["b"])])]),
        ("another takes its id and publishes", vec![opens(1), send(1, &[connect("A"), publish("a", ""), publish("b", "")])]),
        ("another takes its id and leaves", vec![opens(1), send(1, &[connect("A"), subscribe(1, &["a"]), Pkt::Disconnect])]),
        ("another publishes", vec![send(1, &[publish("a", ""), publish("b", "")])]),
        ("another unsubscribes", vec![send(1, &[unsubscribe(2, &["+"]), publish("a", "")])]),
        ("another subscribes", vec![send(1, &[subscribe(2, &["a"])]), send(1, &[publish("a", "")])]),
        ("another disconnects", vec![send(1, &[Pkt::Disconnect])]),
        ("another resets", vec![st(1, Act::Close(CloseMode::Reset))]),
        ("another connects without id", vec![opens(1), send(1, &[connect(""), subscribe(1, &["a"]), publish("a", "")])]),
        ("another is refused with its id", vec![opens(1), send(1, &[connect_as("A", "alice", Some("bad")), subscribe(1, &["a"]), publish("a", "")])]),
        ("another publishes without CONNECT", vec![opens(1), send(1, &[publish("a", ""), connect("A")])]),
    ]
}
fn opens_itself(p: &[Step]) -> bool {
    matches!(p.first(), Some(Step { act: Act::Open(_), .. }))
}

pub fn races(name: &str, mask: Mask, a: &[&str], b: &[&str], bound: u32) -> Family {
    let (pa, pb) = (a_programs(), b_programs());
    let mut v = vec![];
    for (an, ap) in pa.iter().filter(|x| a.is_empty() || a.contains(&x.0)) {
        for (bn, bp) in pb.iter().filter(|x| b.is_empty() || b.contains(&x.0)) {
            let mut s = script(format!("a client {}, {}", an, bn), 4);
            s.mask = mask;
            s.setup = [join(0, "A", &["a"]), join(2, "W", &["a", "b"])].concat();
            if !opens_itself(bp) {
                s.setup.extend(join(1, "B", &["+"]));
            }
            s.par = vec![ap.clone(), bp.clone()];
            s.finale = vec![
                send(2, &[publish("a", ""), publish("b", ""), publish("a/b", "")]),
                send(0, &[Pkt::PingReq]),
                send(1, &[Pkt::PingReq]),
                opens(3),
                send(3, &[connect("A"), subscribe(1, &["b"])]),
                send(2, &[publish("a", ""), publish("b", "")]),
            ];
            v.push(s);
        }
    }
    assert!(!v.is_empty());
    family(name, v, bound)
}

/// Three programs at once: A's, B's and a publishing watcher.
pub fn races3(name: &str, mask: Mask, a: &[&str], b: &[&str], bound: u32) -> Family {
    let (pa, pb) = (a_programs(), b_programs());
    let mut v = vec![];
    for (an, ap) in pa.iter().filter(|x| a.is_empty() || a.contains(&x.0)) {
        for (bn, bp) in pb.iter().filter(|x| b.is_empty() || b.contains(&x.0)) {
            let mut s = script(format!("a client {}, {}, a third publishes", an, bn), 4);
            s.mask = mask;
            s.setup = [join(0, "A", &["a"]), join(2, "W", &["b"])].concat();
            if !opens_itself(bp) {
                s.setup.extend(join(1, "B", &["+"]));
            }
            s.par = vec![ap.clone(), bp.clone(), vec![send(2, &[publish("a", ""), publish("b", "")])]];
            s.finale = vec![send(2, &[publish("a", ""), publish("b", "")]), send(1, &[Pkt::PingReq])];
            v.push(s);
        }
    }
    family(name, v, bound)
}

// ---------------------------------------------------------------- peer addresses

pub fn peers(tier: Tier, mask: Mask) -> Vec<Family> {
    let mut v = vec![];
    for (pn, pp) in [("clients on hosts of their own, one port", Peers::Hosts), ("one address on several listeners", Peers::Reuse)] {
        for (cn, cfg, addrs) in [("two listeners", &env().cfg2, vec![L1, L2]), ("two listeners, swapped", &env().cfg2, vec![L2, L1])] {
            let mut s = spec(&format!("{}, {}", pn, cn), 4);
            s.peers = pp;
            s.config = cfg.clone();
            s.addrs = addrs;
            s.mask = mask;
            s.setup = vec![joins(3, "pub")];
            for c in 0..2 {
                s.alphabet.extend([joins(c, ""), subs(c, "a"), H::End(c, EndMode::Disconnect), H::End(c, EndMode::Reset)]);
            }
            s.alphabet.extend([joins(0, "X"), joins(1, "Y"), H::Open(0, vec![connect_as("X", "alice", Some("wonder"))]), pubs(1, "a")]);
            s.finale = vec![pubs(3, "a"), H::Send(0, vec![Pkt::PingReq]), H::Send(1, vec![Pkt::PingReq])];
            v.extend(families(s, tier.pick(&[2, 3, 4][..], &[2, 3, 4, 5])));
        }
    }
    v
}

// ----------------------------------------------------------------- equal payloads

pub fn equal_payloads(tier: Tier) -> Vec<Family> {
    let mut s = spec("equal messages", 4);
    s.mask = DELIVERIES;
    s.setup = vec![joins(3, "pub"), joins(0, "A"), joins(1, "B"), H::Send(1, vec![subscribe(1, &["a"])])];
    let same = |c: usize, retain: bool, qos: u8, id: u16| H::Send(c, vec![Pkt::Publish { topic: "a".into(), payload: b"same".to_vec(), qos, retain, dup: false, id }]);
    s.alphabet = vec![
        same(3, false, 0, 0),
        same(3, true, 0, 0),
        same(3, false, 1, 5),
        same(1, false, 0, 0),
        subs(0, "a"),
        subs(0, "+"),
        unsubs(0, "a"),
        H::End(0, EndMode::Reset),
        joins(0, "A"),
    ];
    s.finale = vec![same(3, false, 0, 0), same(3, false, 0, 0), same(3, false, 1, 5), same(3, false, 1, 5), same(3, true, 0, 0)];
    let mut v = families(s, tier.pick(&[1, 2, 3, 4][..], &[1, 2, 3, 4, 5]));
    // one segment: all sequences of equal and different messages
    let mut s = spec("equal messages in one segment", 3);
    s.mask = DELIVERIES;
    s.setup = vec![joins(2, "pub"), H::Open(0, vec![connect("A"), subscribe(1, &["a", "+"])]), H::Open(1, vec![connect("B"), subscribe(1, &["b"])])];
    let one = [publish("a", "same"), publish("a", "other"), publish("b", "same"), publish_q("a", "same", 1, 7), publish_q("a", "same", 2, 7)];
    for x in &one {
        for y in &one {
            for z in &one {
                s.alphabet.push(H::Send(2, vec![x.clone(), y.clone(), z.clone()]));
            }
        }
    }
    v.extend(families(s, &[1, 2]));
    v
}

// -------------------------------------------------------------------------- idle

/// Histories in which time passes; nothing may come of it.
pub fn idle(tier: Tier, mask: Mask) -> Vec<Family> {
    let mut s = spec("time passes", 4);
    s.mask = mask;
    let ka = |c: usize, id: &str, keep: u16| H::Open(c, vec![Pkt::Connect { id: id.into(), clean: true, keep, will: None, user: None, pass: None }]);
    s.setup = vec![joins(3, "pub"), joins(0, "A"), H::Send(0, vec![subscribe(1, &["a"])])];
    s.alphabet = vec![
        H::Idle(30),
        H::Idle(4000),
        H::Idle(100_000),
        subs(0, "b"),
        unsubs(0, "a"),
        H::End(0, EndMode::Disconnect),
        H::End(0, EndMode::Reset),
        joins(0, "A"),
        joins(1, "A"),
        pubs(3, "a"),
    ];
    s.finale = vec![pubs(3, "a"), pubs(3, "b"), H::Send(0, vec![Pkt::PingReq]), H::Send(1, vec![Pkt::PingReq]), joins(2, "A"), pubs(3, "a")];
    let mut v = families(s, tier.pick(&[1, 2, 3][..], &[1, 2, 3, 4]));
    // shorter than any keep alive
    let mut s = spec("less time than the keep alive passes", 4);
    s.mask = mask;
    s.setup = vec![joins(3, "pub")];
    for k in [10u16, 60, 65535] {
        s.alphabet.push(ka(0, "A", k));
    }
    s.alphabet.extend([H::Idle(9), H::Idle(3), H::Send(0, vec![Pkt::PingReq]), H::Send(0, vec![subscribe(1, &["a"])]), H::End(0, EndMode::Fin)]);
    // a connection whose next packet would come too late is not judged
    let ok = |s: &[u16], idle: [u16; 2], ping: u16, sub: u16| -> bool {
        let mut silent = 0;
        for l in s {
            if *l == idle[0] {
                silent += 9;
            } else if *l == idle[1] {
                silent += 3;
            } else if *l == ping || *l == sub || *l < 3 {
                silent = 0;
            }
            if silent > 10 {
                return false;
            }
        }
        true
    };
    s.finale = vec![pubs(3, "a"), H::Send(0, vec![Pkt::PingReq]), joins(2, "A")];
    let spec = Arc::new(s);
    for d in 1..=tier.pick(4, 5) {
        let seqs = sequences(spec.alphabet.len(), d, &|s| ok(s, [3, 4], 5, 6));
        let (a, b) = (spec.clone(), spec.clone());
        v.push(cases(
            format!("{} depth {}", spec.name, d),
            seqs,
            move |s, ctx| run_spec(&a, s, ctx),
            move |s| format!("{:?}", s.iter().map(|l| &b.alphabet[*l as usize]).collect::<Vec<_>>()),
        ));
    }
    v
}

// ------------------------------------------------------------------- depth

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    /// empty levels only: "///"
    Slashes,
    /// "+/+/+"
    Pluses,
    /// "///#"
    SlashesHash,
    /// "x/x/x"
    Names,
    /// "+/x/+/x/#"
    Mixed,
}
use Shape::*;
fn deep_filter(s: Shape, levels: usize) -> String {
    let n = levels;
    match s {
        Slashes => "/".repeat(n - 1),
        Pluses => vec!["+"; n].join("/"),
        SlashesHash => "/".repeat(n - 1) + "#",
        Names => vec!["x"; n].join("/"),
        Mixed => (0..n).map(|i| if i + 1 == n { "#" } else { ["+", "x"][i % 2] }).collect::<Vec<_>>().join("/"),
    }
}
fn deep_topic(s: Shape, levels: usize) -> String {
    match s {
        Slashes | SlashesHash => "/".repeat(levels - 1),
        _ => vec!["x"; levels].join("/"),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DeepEnd {
    End(CloseMode),
    Disconnect,
    TakeOver,
    UnsubscribeThenClose,
    Malformed,
    Interrupt,
}

/// Filters and topics of very many levels must be served, dropped and survived like any others.
pub fn deep(tier: Tier, mask: Mask, ends: &[DeepEnd]) -> Family {
    let mut list = vec![];
    let ns: Vec<usize> = tier.pick(
        vec![2, 3, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 8000, 10_000, 16_384, 32_767, 65_535],
        (1..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 5000, 6000, 7000, 8000, 9000, 10_000, 12_000, 16_383, 16_384, 20_000, 32_766, 32_767, 32_768, 40_000, 50_000, 60_000, 65_534, 65_535, 65_536]).collect(),
    );
    for n in ns.iter().rev() {
        for s in [Slashes, Pluses, SlashesHash, Names, Mixed] {
            if deep_filter(s, *n).len() > 65_535 || deep_topic(s, *n).len() > 65_535 {
                continue;
            }
            for e in ends {
                list.push((s, *n, *e));
            }
        }
    }
    cases(
        "filters and topics of many levels",
        list,
        move |(shape, n, e), ctx| {
            let (f, t) = (deep_filter(*shape, *n), deep_topic(*shape, *n));
            let mut l = Lock::boot(&env().cfg1, USERS, mask, ctx.trace)?;
            let p = l.open(L1)?;
            l.send(p, &[connect("pub")])?;
            let b = l.open(L1)?;
            l.send(b, &[connect("bystander"), subscribe(1, &["#", "near", &t[..t.len().min(40)]])])?;
            let a = l.open(L1)?;
            l.send(a, &[connect("deep"), subscribe(1, &["near"])])?;
            l.send(a, &[subscribe(2, &[&f])])?;
            l.log.clear();
            let round = |l: &mut Lock| -> Fallible<()> {
                l.send(p, &[publish("near", "")])?;
                l.send(p, &[publish(&t, "")])?;
                if t.len() > 1 {
                    l.send(p, &[publish(&t[..t.len() - 1], "")])?;
                }
                l.send(p, &[publish("near", "")])?;
                l.log.clear();
                Ok(())
            };
            round(&mut l)?;
            match e {
                DeepEnd::End(m) => l.close(a, *m)?,
                DeepEnd::Disconnect => l.send(a, &[Pkt::Disconnect])?,
                DeepEnd::TakeOver => {
                    let a2 = l.open(L1)?;
                    l.send(a2, &[connect("deep")])?
                }
                DeepEnd::UnsubscribeThenClose => {
                    l.send(a, &[unsubscribe(3, &[&f])])?;
                    l.log.clear();
                    round(&mut l)?;
                    l.close(a, CloseMode::Close)?
                }
                DeepEnd::Malformed => l.send_raw(a, &[0xf0, 0])?,
                DeepEnd::Interrupt => {
                    l.sys.interrupt();
                    l.sys.quiesce()?;
                    l.sys.check_panics()?;
                    if l.sys.running() {
                        return Err(Fail::new("not-stopped", "the broker got the interrupt and has not terminated"));
                    }
                    visit(&(*n, *shape as u8));
                    outcome(&l.sys.outs(b).len());
                    l.sys.end();
                    return Ok(());
                }
            }
            round(&mut l)?;
            let a3 = l.open(L1)?;
            l.send(a3, &[connect("deep"), subscribe(1, &["near"])])?;
            round(&mut l)?;
            l.running()?;
            l.finish();
            Ok(())
        },
        |(s, n, e)| format!("{:?} of {} levels, {:?}", s, n, e),
    )
    .cpu_limit(60.0)
}

// ------------------------------------------------------------------- per property

const D_R: Mask = Mask { replies: true, ..DELIVERIES };

pub fn c01(tier: Tier) -> Vec<Family> {
    let mut v = vec![sets("pairs of filter sets, one client goes", DELIVERIES, &[SetOp::Disconnect])];
    v.extend(equal_payloads(tier));
    v.push(scale("scale", DELIVERIES, &[Subscribers, Filters, Publishers, Messages, MessagesToStalled, Topics], &sizes(tier)));
    v.push(races("all pairs of programs", DELIVERIES, &[], &[], tier.pick(1, 2)));
    if tier.thorough() {
        v.push(races3("all pairs of programs and a publisher", DELIVERIES, &[], &[], 1));
    }
    v
}
pub fn c04(tier: Tier) -> Vec<Family> {
    let mut v = vec![sets("pairs of filter sets, one client unsubscribes", D_R, &[SetOp::Unsubscribe, SetOp::UnsubscribeEach])];
    v.push(scale("scale", D_R, &[Filters, FiltersInOnePacket, SubscribeCycles, DeepFilters], &sizes(tier)));
    v.push(races(
        "pairs of programs",
        D_R,
        &["subscribes", "unsubscribes", "resubscribes", "subscribes and closes"],
        &["another publishes", "another unsubscribes", "another subscribes", "another disconnects", "another resets", "another takes its id"],
        tier.pick(2, 3),
    ));
    v
}
pub fn c05(tier: Tier) -> Vec<Family> {
    let mut v = vec![scale("scale", REPLIES, &[Pings, Requests, RequestsStalled], &sizes(tier))];
    v.extend(idle(tier, REPLIES));
    v.push(races("pairs of programs", REPLIES, &["pings", "subscribes", "unsubscribes", "resubscribes"], &[], tier.pick(1, 2)));
    v
}
pub fn c06(tier: Tier) -> Vec<Family> {
    let mut v = vec![sets(
        "pairs of filter sets, one client ends and comes back",
        ALL,
        &[SetOp::Disconnect, SetOp::End(CloseMode::Fin), SetOp::End(CloseMode::Reset)],
    )];
    v.push(scale("scale", ALL, &[Filters, FiltersInOnePacket, DeepFilters, ConnectCycles, ConnectCyclesDistinct, ManyEnd], &sizes(tier)));
    v.extend(idle(tier, ALL));
    v.push(races(
        "pairs of programs",
        ALL,
        &["disconnects", "publishes and disconnects", "half-closes", "closes", "resets", "subscribes and closes", "connects twice", "publishes to a wildcard", "sends a malformed packet"],
        &[],
        tier.pick(1, 2),
    ));
    v
}
pub fn c07(tier: Tier) -> Vec<Family> {
    let mut v = vec![sets("pairs of filter sets, the id is taken over", ALL, &[SetOp::TakeOver])];
    v.push(scale("scale", ALL, &[TakeOvers], &sizes(tier)));
    let mut s = spec("time passes between take-overs", 4);
    s.prune_dead = false;
    s.setup = vec![joins(3, "pub"), joins(0, "A"), H::Send(0, vec![subscribe(1, &["a"])])];
    s.alphabet = vec![H::Idle(5), H::Idle(90_000), joins(1, "A"), joins(2, "A"), subs(1, "a"), H::End(1, EndMode::Reset), pubs(3, "a")];
    s.finale = vec![pubs(3, "a"), H::Send(0, vec![Pkt::PingReq]), H::Send(1, vec![Pkt::PingReq]), H::Send(2, vec![Pkt::PingReq])];
    v.extend(families(s, tier.pick(&[1, 2, 3, 4][..], &[1, 2, 3, 4, 5])));
    // both connections of one id look alike from outside
    for (pn, pp) in [("hosts", Peers::Hosts), ("reuse", Peers::Reuse)] {
        let mut s = spec(&format!("take-over, peer addresses: {}", pn), 3);
        s.peers = pp;
        s.config = env().cfg2.clone();
        s.addrs = vec![L1, L2];
        s.prune_dead = false;
        s.setup = vec![joins(2, "pub"), joins(0, "A"), H::Send(0, vec![subscribe(1, &["a"])])];
        s.alphabet = vec![joins(1, "A"), joins(0, "A"), subs(0, "a"), subs(1, "a"), H::End(0, EndMode::Disconnect), H::End(1, EndMode::Close), joins(1, "B")];
        s.finale = vec![pubs(2, "a"), H::Send(0, vec![Pkt::PingReq]), H::Send(1, vec![Pkt::PingReq])];
        v.extend(families(s, tier.pick(&[1, 2, 3, 4][..], &[1, 2, 3, 4, 5])));
    }
    v.push(races(
        "pairs of programs",
        ALL,
        &[],
        &["another takes its id", "another takes its id and publishes", "another takes its id and leaves", "another is refused with its id"],
        tier.pick(1, 2),
    ));
    if tier.thorough() {
        v.push(races3("take-overs with a third client", ALL, &[], &["another takes its id", "another takes its id and leaves"], 1));
    }
    v
}
pub fn c09(tier: Tier) -> Vec<Family> {
    vec![races("pairs of programs", ALL, &[], &["another is refused with its id", "another publishes without CONNECT"], tier.pick(1, 2))]
}
pub fn c22(tier: Tier) -> Vec<Family> {
    let mut v = peers(tier, ALL);
    v.push(scale("scale", ALL, &[IdlessCycles], &sizes(tier)));
    v.push(races("pairs of programs", ALL, &[], &["another connects without id"], tier.pick(1, 2)));
    v
}
pub fn c23(tier: Tier) -> Vec<Family> {
    let mut v = peers(tier, ALL);
    // any number of listeners
    v.push(cases(
        "numbers of listeners",
        (1..=tier.pick(20usize, 64)).chain([33]).collect(),
        |n, ctx| {
            let addrs: Vec<String> = (0..*n).map(|i| format!("127.0.{}.1:{}", i % 3, 1883 + i)).collect();
            let d = env().dir.join(format!("n{}-{}.toml", n, ctx.trace));
            let refs: Vec<&str> = addrs.iter().map(|s| s.as_str()).collect();
            crate::env::write_config(&d, &refs, &env().dir.join("passwd"));
            let mut l = Lock::boot(&d.to_string_lossy(), USERS, ALL, ctx.trace)?;
            let mut cs = vec![];
            for (k, a) in addrs.iter().enumerate() {
                let c = l.open(a)?;
                l.send(c, &[connect(&format!("c{}", k)), subscribe(1, &["a", &format!("own/{}", k)])])?;
                cs.push(c);
            }
            for (k, c) in cs.iter().enumerate() {
                l.send(*c, &[publish("a", ""), publish(&format!("own/{}", (k + 1) % n), "")])?;
            }
            // a second client on each
            for (k, a) in addrs.iter().enumerate().rev() {
                let c = l.open(a)?;
                l.send(c, &[connect(&format!("c{}", (k + 1) % n)), Pkt::PingReq])?;
            }
            l.finish();
            Ok(())
        },
        |n| format!("{} listeners", n),
    ));
    v.push(listener_races(tier));
    v
}

/// The generated programs with the two clients on different listeners.
fn listener_races(tier: Tier) -> Family {
    let on = |p: &[Step], from: &'static str, to: &'static str| -> Vec<Step> {
        p.iter()
            .map(|s| match &s.act {
                Act::Open(a) if *a == from => Step { act: Act::Open(to), ..s.clone() },
                _ => s.clone(),
            })
            .collect()
    };
    let mut v = vec![];
    for (an, ap) in a_programs() {
        for (bn, bp) in b_programs().iter().filter(|x| ["another takes its id", "another publishes", "another resets"].contains(&x.0)) {
            for peers in [Peers::Ports, Peers::Reuse] {
                let mut s = script(format!("a client {}, {}, {:?}", an, bn, peers), 3);
                s.config = env().cfg2.clone();
                s.peers = peers;
                s.setup = [join(0, "A", &["a"]), join(2, "W", &["a", "b"])].concat();
                if !opens_itself(bp) {
                    s.setup.extend(on(&join(1, "B", &["+"]), L1, L2));
                }
                s.par = vec![ap.clone(), on(bp, L1, L2)];
                s.finale = vec![send(2, &[publish("a", ""), publish("b", "")]), send(0, &[Pkt::PingReq]), send(1, &[Pkt::PingReq])];
                v.push(s);
            }
        }
    }
    family("pairs of programs on two listeners", v, tier.pick(1, 2))
}

