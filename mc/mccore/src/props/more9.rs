//! What the broker holds for clients that are connected: C30.
use super::routing::WORLD;
use crate::codec::*;
use crate::env::env;
use crate::explore::*;
use crate::hist::sequences;
use crate::model::DELIVERIES;
use crate::real::*;
use crate::report::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{self, Explore};

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C30",
        families: c30,
        rule: "all rounds of up to a number of packets of connected clients - any of whom may have stopped reading - repeated 128 and 128 times: no more memory after 256 rounds than after 128; every kind of packet announced with every length and cut after every number of bytes: no more memory than a multiple of the bytes received; the real program with little address space",
        assumptions: &[WORLD, "memory is what the broker's tasks allocated and did not free, without the bookkeeping of the simulated world", "what the kernel buffers for a socket is not the broker's"],
    }]
}

fn live() -> i64 {
    mc::heap::live().0
}

/// Texts with {} differ in every round.
fn nth(p: &Pkt, k: usize) -> Pkt {
    let r = |s: &String| s.replace("{}", &k.to_string());
    let n = |id: u16| if id == 0 { 1 + (k % 60_000) as u16 } else { id };
    match p {
        Pkt::Publish { topic, payload, qos, retain, dup, id } => Pkt::Publish { topic: r(topic), payload: payload.clone(), qos: *qos, retain: *retain, dup: *dup, id: if *qos > 0 { n(*id) } else { *id } },
        Pkt::PubRel(id) => Pkt::PubRel(n(*id)),
        Pkt::PubAck(id) => Pkt::PubAck(n(*id)),
        Pkt::Subscribe { id, filters } => Pkt::Subscribe { id: n(*id), filters: filters.iter().map(|(f, q)| (r(f), *q)).collect() },
        Pkt::Unsubscribe { id, filters } => Pkt::Unsubscribe { id: n(*id), filters: filters.iter().map(r).collect() },
        p => p.clone(),
    }
}

/// Two clients with filters of their own, and one that holds all: who sends what in a round.
type Letter = (usize, Vec<Pkt>);

fn letters() -> Vec<Letter> {
    let retained = |t: &str, p: &str| Pkt::Publish { topic: t.into(), payload: p.into(), qos: 0, retain: true, dup: false, id: 0 };
    let mut v: Vec<Letter> = vec![];
    for c in 0..2 {
        v.push((c, vec![Pkt::PingReq]));
        v.push((c, vec![publish("a", "0123456789")]));
        v.push((c, vec![publish("new/{}", "0123456789")]));
        v.push((c, vec![publish_q("a", "x", 1, 0)]));
        v.push((c, vec![subscribe(0, &["a"])]));
        v.push((c, vec![subscribe(0, &["f{}/x", "f{}"]), unsubscribe(0, &["f{}/x", "f{}"])]));
    }
    v.push((0, vec![publish_q("new/{}", "x", 2, 0)]));
    v.push((0, vec![retained("new/{}", "0123456789")]));
    v.push((0, vec![retained("a", "")]));
    v.push((0, vec![unsubscribe(0, &["unknown/{}"])]));
    v.push((0, vec![unsubscribe(0, &["a"]), subscribe(0, &["a"])]));
    v.push((0, vec![Pkt::PubRel(0)]));
    v.push((0, vec![Pkt::PubAck(0)]));
    v.push((1, vec![subscribe(0, &["a", "a", "+", "#", "+"]), unsubscribe(0, &["+", "#"])]));
    v
}

/// Who reads how much: None as much as comes, else so many bytes.
type Readers = [Option<usize>; 3];

fn steady(seq: &[Letter], readers: Readers, (warm, more): (usize, usize), ctx: &Ctx) -> Fallible<()> {
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let mut c = vec![];
    for (i, f) in ["a", "own", "#"].into_iter().enumerate() {
        let n = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
        s.send_pkts(n, &[connect(&format!("c{}", i)), subscribe(1, &[f])]);
        s.quiesce()?;
        c.push(n);
    }
    for (n, r) in c.iter().zip(readers) {
        if let Some(w) = r {
            mc::set_flow(s.conns[*n].net, w, false);
        }
    }
    let mut at = [0i64; 2];
    for (i, n) in [warm, more].into_iter().enumerate() {
        for k in 0..n {
            for (who, pkts) in seq {
                let pkts: Vec<Pkt> = pkts.iter().map(|p| nth(p, i * warm + k + 10_000)).collect();
                s.send_pkts(c[*who], &pkts);
            }
            s.quiesce()?;
        }
        at[i] = live();
    }
    s.check_panics()?;
    let text = || format!("{:?}, readers {:?}, repeated {} and {} times: {} and {} bytes are held", seq, readers, warm, more, at[0], at[1]);
    outcome(&(at[1] - at[0]));
    visit(&(at[0], at[1]));
    if at[1] > at[0] {
        return Err(Fail::new("grows", format!("the broker holds ever more for clients that stay: {}", text())));
    }
    sample(text);
    s.end();
    Ok(())
}

fn c30(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let alpha = Arc::new(letters());
    let everyone: Readers = [None; 3];
    for d in 1..=tier.pick(2usize, 3) {
        let seqs: Vec<Vec<Letter>> = sequences(alpha.len(), d, &|_| true).into_iter().map(|s| s.iter().map(|&i| alpha[i as usize].clone()).collect()).collect();
        v.push(
            cases(format!("rounds of {} while all read", d), seqs, move |s, ctx| steady(s, everyone, (128, 128), ctx), |s| format!("{:?}", s)).cpu_limit(60.0),
        );
    }
    // what piles up: whose queue is full, everything behind it has to wait outside
    let mut list: Vec<(Vec<Letter>, Readers)> = vec![];
    let readers: Vec<Readers> = {
        let mut r = vec![];
        for x in 1..8u32 {
            for w in tier.pick(vec![0usize, 7], vec![0, 1, 7, 100, 5000]) {
                r.push([0, 1, 2].map(|i| (x >> i & 1 == 1).then_some(w)));
            }
        }
        r
    };
    for d in 1..=tier.pick(2usize, 2) {
        for s in sequences(alpha.len(), d, &|_| true) {
            for r in &readers {
                list.push((s.iter().map(|&i| alpha[i as usize].clone()).collect(), *r));
            }
        }
    }
    v.push(cases("rounds while some do not read", list, |(s, r), ctx| steady(s, *r, (160, 160), ctx), |x| format!("{:?}", x)).cpu_limit(60.0));
    // long messages
    let mut list: Vec<(usize, Readers, usize)> = vec![];
    for size in tier.pick(vec![1000usize, 4096, 70_000], vec![1000, 4095, 4096, 4097, 20_000, 70_000, 300_000]) {
        for r in &readers {
            for who in 0..3 {
                list.push((size, *r, who));
            }
        }
    }
    v.push(
        cases(
            "long messages while some do not read",
            list,
            |(size, r, who), ctx| steady(&[(*who, vec![publish("a", &"x".repeat(*size))])], *r, (160, 160), ctx),
            |x| format!("{:?}", x),
        )
        .cpu_limit(60.0),
    );
    v.push(announced(tier));
    v.push(many(tier));
    v.push(little_space(tier));
    v
}

/// A packet of which only a part has come.
fn announced(tier: Tier) -> Family {
    let mut list: Vec<(bool, u8, u32, usize)> = vec![];
    let firsts: Vec<u8> = vec![0x10, 0x20, 0x30, 0x32, 0x3d, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xc0, 0xd0, 0xe0, 0xf0, 0x00];
    let lengths = [200u32, 16_383, 16_384, 70_000, 2_097_151, 2_097_152, 20_000_000, 134_217_728, 268_435_455];
    for &f in &firsts {
        for &l in &lengths {
            for cut in tier.pick(vec![0usize, 1, 2, 4, 12, 100, 5000, 70_000, 300_000], (0..=40).chain([100, 1000, 4095, 4096, 4097, 5000, 20_000, 70_000, 140_000, 300_000]).collect()) {
                for joined in [false, true] {
                    list.push((joined, f, l, cut));
                }
            }
        }
    }
    cases(
        "announced packets",
        list,
        |&(joined, first, length, cut), ctx| {
            let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
            let n = s.open(L1).unwrap();
            if joined {
                s.send_pkts(n, &[connect("c"), subscribe(1, &["#"])]);
            }
            s.quiesce()?;
            let before = live();
            let mut bytes = vec![first];
            let mut l = length;
            loop {
                let more = l >= 128;
                bytes.push((l % 128) as u8 | if more { 128 } else { 0 });
                l /= 128;
                if !more {
                    break;
                }
            }
            // a text that is as long as one can be, then the beginning of another
            bytes.extend([0xff, 0xff].into_iter().chain(std::iter::repeat_n(b'x', 65_535)).cycle().take(cut.min(length as usize)));
            for part in bytes.chunks(tokio_chunk(cut)) {
                s.send(n, part);
                s.quiesce()?;
            }
            let held = live() - before;
            s.check_panics()?;
            let text = || format!("{} client sends {} bytes of a packet {:#04x} of length {}: {} bytes are held", if joined { "a connected" } else { "an unknown" }, bytes.len(), first, length, held);
            outcome(&(held > 0, s.is_closed(n)));
            visit(&(joined, first, length, cut));
            if held > 4 * bytes.len() as i64 + 200_000 {
                return Err(Fail::new("announced", format!("memory is taken for bytes that have not come: {}", text())));
            }
            sample(text);
            s.end();
            Ok(())
        },
        |x| format!("{:?}", x),
    )
}
fn tokio_chunk(cut: usize) -> usize {
    if cut > 1000 { 1500 } else { usize::MAX }
}

/// The memory for n idle or stalled clients is n times that for one.
fn many(tier: Tier) -> Family {
    let mut list: Vec<(usize, bool, usize)> = vec![];
    for n in tier.pick(vec![10usize, 100], vec![10, 100, 1000]) {
        for stalled in [false, true] {
            for k in [0usize, 1, 40, 100] {
                list.push((n, stalled, k));
            }
        }
    }
    cases(
        "many clients",
        list,
        |&(n, stalled, k), ctx| {
            let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
            let p = s.open(L1).unwrap();
            s.send_pkts(p, &[connect("p")]);
            s.quiesce()?;
            let mut at = [live(); 3];
            for (i, m) in [1, n, n].into_iter().enumerate() {
                for j in 0..m {
                    let c = s.open(L1).unwrap();
                    let t = format!("t/{}/{}", i, j);
                    s.send_pkts(c, &[connect(&format!("c{}.{}", i, j)), subscribe(1, &[&t])]);
                    s.quiesce()?;
                    if stalled {
                        mc::set_flow(s.conns[c].net, 0, false);
                    }
                    // one that does not read takes a whole queue of messages, no more
                    for _ in 0..k.min(if stalled { 30 } else { k }) {
                        s.send_pkts(p, &[publish(&t, "0123456789")]);
                    }
                    s.quiesce()?;
                }
                at[i] = live();
            }
            s.check_panics()?;
            let (first, rest) = (at[1] - at[0], at[2] - at[1]);
            let text = || format!("{} clients take {} bytes, {} more {} bytes ({} messages each{})", n, first, n, rest, k, if stalled { ", not reading" } else { "" });
            outcome(&(n, stalled));
            visit(&(n, stalled, k));
            // room to grow of the tables of clients
            if rest > 2 * first + 20_000 || first > n as i64 * 60_000 {
                return Err(Fail::new("more than its share", text()));
            }
            sample(text);
            s.end();
            Ok(())
        },
        |x| format!("{:?}", x),
    )
    .cpu_limit(120.0)
}

/// The real program, with an address space of some gigabytes: clients that only announce long packets.
fn little_space(tier: Tier) -> Family {
    let mut list: Vec<(u8, usize, usize)> = vec![];
    for first in [0x10u8, 0x30, 0x82, 0xa2] {
        for n in tier.pick(vec![1usize, 40], vec![1, 10, 40, 200]) {
            for cut in tier.pick(vec![0usize, 3], vec![0, 1, 3, 100]) {
                list.push((first, n, cut));
            }
        }
    }
    cases(
        "real binary: announced packets in little address space",
        list,
        |&(first, n, cut), _| {
            let mut l = RealLock::boot_limited(DELIVERIES, libc::RLIMIT_AS, 4 << 30)?;
            let a = l.open(L1)?;
            l.send(a, &[connect("a"), subscribe(1, &["#"])])?;
            let mut held = vec![];
            for i in 0..n {
                let c = l.open(L1)?;
                if first != 0x10 {
                    l.send(c, &[connect(&format!("c{}", i))])?;
                }
                let mut bytes = vec![first, 0xff, 0xff, 0xff, 0x7f];
                bytes.extend(&[0, 1, b'a', b'x', b'x'][..cut.min(5)]);
                l.send_raw(c, &bytes)?;
                held.push(c);
            }
            let p = l.open(L1)?;
            l.send(p, &[connect("p"), publish("a", "still there?")])?;
            l.probe(L1)?;
            l.stop()?;
            visit(&(first, n, cut));
            Ok(())
        },
        |x| format!("{:?}", x),
    )
}
