//! Further families: large malformed bodies, odd contents, many users, time that passes
//! inside packets, before interrupts and beside bad clients.
use super::bytes::*;
use super::more::{deep, scale, sizes, DeepEnd, Scale};
use super::service::*;
use super::session::*;
use crate::codec::*;
use crate::env::{cheap_hash, env, USERS};
use crate::explore::*;
use crate::model::*;
use crate::report::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{CloseMode, Explore};

pub const EVERY_END: [DeepEnd; 7] = [
    DeepEnd::Disconnect,
    DeepEnd::End(CloseMode::Fin),
    DeepEnd::End(CloseMode::Close),
    DeepEnd::End(CloseMode::Reset),
    DeepEnd::TakeOver,
    DeepEnd::UnsubscribeThenClose,
    DeepEnd::Malformed,
];

pub fn c02(tier: Tier) -> Vec<Family> {
    vec![deep(tier, DELIVERIES, &[DeepEnd::Disconnect, DeepEnd::UnsubscribeThenClose])]
}
pub fn c06(tier: Tier) -> Vec<Family> {
    vec![deep(tier, ALL, &EVERY_END)]
}

// ------------------------------------------------------------------ C08

pub fn c08(tier: Tier) -> Vec<Family> {
    let ns: Vec<usize> = (1..=tier.pick(20usize, 60)).chain([31, 32, 33, 40, 64, 65, 100, 127, 128, 129]).chain(tier.pick(vec![300], vec![255, 256, 257, 300, 1000, 2000])).collect();
    let mut list = vec![];
    for n in ns {
        for shape in 0..3u8 {
            list.push((n, shape));
        }
    }
    let name = |shape: u8, i: usize| match shape {
        0 => format!("user{}", i),
        1 => "u".repeat(i + 1),
        _ => format!("{:03}", (i * 7919) % 1000 + 1000 * (i / 1000)),
    };
    let f = cases(
        "files of many users",
        list,
        move |(n, shape), ctx| {
            // few distinct salts: a real file has one each, and computing them costs
            let users: Vec<(String, String)> = (0..*n).map(|i| (name(*shape, i), format!("pw{}", i % 7))).collect();
            let hashes: Vec<String> = (0..7).map(|k| cheap_hash(&format!("pw{}", k), "c29tZXNhbHQ")).collect();
            let text: String = users.iter().enumerate().map(|(i, u)| format!("{}:{}\n", u.0, hashes[i % 7])).collect();
            let refs: Vec<(&str, &str)> = users.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            let mut l = Lock::boot(&auth_config(&text), &refs, ALL, ctx.trace)?;
            let mut at: Vec<usize> = vec![0, n / 2, n.saturating_sub(1)];
            at.extend((0..*n).step_by((n / 20).max(1)));
            at.sort();
            at.dedup();
            for i in at {
                for k in [i, i + 1, i + 6] {
                    let c = l.open(L1)?;
                    l.send(c, &[connect_as(&format!("c{}-{}", i, k), &users[i].0, Some(&format!("pw{}", k % 7))), Pkt::PingReq])?;
                    l.log.clear();
                }
            }
            for i in [*n, n + 1] {
                let c = l.open(L1)?;
                l.send(c, &[connect_as(&format!("x{}", i), &name(*shape, i), Some(&format!("pw{}", i % 7))), Pkt::PingReq])?;
                l.log.clear();
            }
            l.finish();
            Ok(())
        },
        |(n, s)| format!("{} users, shape {}", n, s),
    );
    vec![f.cpu_limit(60.0)]
}

// ------------------------------------------------------------------ C10

pub fn c10(tier: Tier) -> Vec<Family> {
    let mut list: Vec<(Arc<Stream>, Vec<usize>, u64)> = vec![];
    let streams: Vec<Arc<Stream>> = short_streams().into_iter().chain(medium_streams().into_iter().filter(|s| !s.name.starts_with("CONNECT") && s.name != "all packet types")).collect();
    for s in streams {
        let n = s.bytes.len();
        for secs in tier.pick(vec![1u64, 100, 100_000], vec![1, 5, 11, 31, 61, 100, 601, 4000, 100_000]) {
            for a in 1..n {
                list.push((s.clone(), vec![a], secs));
                if n <= 30 || tier.thorough() {
                    for b in a + 1..n.min(a + 12) {
                        list.push((s.clone(), vec![a, b], secs));
                    }
                }
            }
            if n <= 60 {
                list.push((s.clone(), (1..n).collect(), secs));
            }
        }
    }
    vec![cases(
        "time passes between the pieces",
        list,
        |(s, cuts, secs), ctx| run_split_slowly(s, cuts, *secs, ctx),
        |(s, cuts, secs)| format!("{} cut at {:?}, {} s between the pieces", s.name, cuts, secs),
    )]
}

// ------------------------------------------------------------------ C11

/// A packet whose fields are wrong (or right) and whose body is long.
fn long_bodies(n: usize) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let mut put = |name: &str, first: u8, head: &[u8], fill: u8| {
        let mut b = vec![first];
        put_len(&mut b, n);
        let mut body = head.to_vec();
        body.resize(n, fill);
        b.extend(body);
        v.push((format!("{} of {} bytes", name, n), b));
    };
    put("reserved type 0", 0x00, &[], 0);
    put("reserved type 15", 0xf0, &[], 0xff);
    put("PINGREQ", 0xc0, &[], 0);
    put("DISCONNECT", 0xe0, &[], 0xc0);
    put("PUBACK", 0x40, &[0, 1], 0);
    put("PUBREL", 0x62, &[0, 1], 0);
    put("CONNACK", 0x20, &[0, 0], 0);
    put("SUBACK", 0x90, &[0, 1], 0);
    put("SUBSCRIBE with wrong flags", 0x80, &[0, 1, 0, 1, b'a', 0], 0);
    put("SUBSCRIBE with a filter beyond its end", 0x82, &[0, 1, 0xff, 0xff], b'a');
    put("SUBSCRIBE with QoS 3", 0x82, &[0, 1, 0, 1, b'a', 3], 0);
    put("SUBSCRIBE of invalid text", 0x82, &[0, 1, 0x0f, 0xf0], 0xff);
    put("SUBSCRIBE of empty filters", 0x82, &[0, 1], 0);
    put("UNSUBSCRIBE with a filter beyond its end", 0xa2, &[0, 1, 0xff, 0xff], b'a');
    put("UNSUBSCRIBE of empty filters", 0xa2, &[0, 1], 0);
    put("UNSUBSCRIBE of invalid text", 0xa2, &[0, 1, 0x0f, 0xf0], 0xff);
    put("PUBLISH with QoS 3", 0x36, &[0, 1, b'a', 0, 1], b'x');
    put("PUBLISH with a topic beyond its end", 0x30, &[0xff, 0xff], b'a');
    put("PUBLISH of an invalid topic", 0x30, &[0, 2, 0xc3, 0x28], b'a');
    put("PUBLISH to a wildcard", 0x30, &[0, 4, b'e', b'v', b'/', b'#'], b'a');
    put("PUBLISH, well-formed", 0x30, &[0, 4, b'e', b'v', b'/', b'x'], b'a');
    put("PUBLISH QoS 1, well-formed", 0x32, &[0, 4, b'b', b'y', b'/', b'x', 0, 7], b'a');
    put("PUBLISH QoS 1 without packet id", 0x32, &{
        let mut h = ((n.max(2) - 2) as u16).to_be_bytes().to_vec();
        h.resize(n.min(60_000), b't');
        h
    }, b't');
    put("CONNECT with another protocol", 0x10, &[0, 4, b'M', b'Q', b'T', b'X', 4, 2, 0, 0], 0);
    put("CONNECT with a long id beyond its end", 0x10, &[0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 0, 0xff, 0xff], b'a');
    put("CONNECT with bytes behind its fields", 0x10, &[0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 0, 0, 1, b'z'], b'a');
    v
}

pub fn c11(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ns: Vec<usize> = tier.pick(
        vec![2000, 4086, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 5000, 8186, 8188, 8190, 8192, 8194, 20_000, 70_000],
        (4080..=4105).chain(8170..=8200).chain([2000, 5000, 6000, 10_000, 12_288, 16_383, 16_384, 20_000, 40_000, 65_535, 65_536, 70_000, 200_000, 2_097_151, 2_097_152]).collect(),
    );
    let mut list = vec![];
    for n in ns {
        for k in 0..long_bodies(1).len() {
            for connected in [true, false] {
                for how in 0..5u8 {
                    list.push((n, k, connected, how));
                }
            }
        }
    }
    v.push(
        cases(
            "long bodies",
            list,
            |(n, k, connected, how), ctx| {
                let (name, b) = long_bodies(*n).swap_remove(*k);
                let h = b.len() - n;
                // what follows a packet whose meaning is open must not matter to others
                let open = matches!(classify(&b).1, Tail::Unspecified(_));
                let behind = if open { Pkt::PingReq } else { publish("by/x", "behind") }.encode();
                let (parts, end): (Vec<Vec<u8>>, Option<CloseMode>) = match how {
                    0 => (vec![[b, behind].concat()], None),
                    1 => (vec![b[..h].to_vec(), b[h..].to_vec(), behind], None),
                    2 => {
                        let m = (4096 - 8).min(b.len() - 1);
                        (vec![b[..m].to_vec(), [b[m..].to_vec(), behind].concat()], None)
                    }
                    3 => {
                        let m = b.len() - 1;
                        (vec![b[..m].to_vec(), b[m..].to_vec()], Some(CloseMode::Fin))
                    }
                    // it never completes
                    _ => (vec![b[..b.len() / 2].to_vec()], Some([CloseMode::Fin, CloseMode::Close, CloseMode::Reset][n % 3])),
                };
                run_attack(&Attack { connected: *connected, parts, end }, ctx).map_err(|mut f| {
                    f.msg = f.msg.chars().take(3000).collect();
                    f.ctx(name)
                })
            },
            |(n, k, c, how)| format!("{}, {} CONNECT, pieces {}", long_bodies(*n)[*k].0, if *c { "after" } else { "before" }, how),
        )
        .cpu_limit(60.0),
    );
    v.push(deep(tier, Mask { panics: true, ..ALL }, &EVERY_END));
    v
}

// ------------------------------------------------------------------ C12

pub fn c12(tier: Tier) -> Vec<Family> {
    let mut list = vec![];
    for t in traffics(true) {
        let t = Arc::new(t);
        let big = expected(&t).len() > 1000;
        for (w, r) in if big { vec![(1000usize, 500usize), (4096, 4096), (5000, 37)] } else { vec![(1, 1), (3, 2), (7, 7), (20, 5)] } {
            for secs in tier.pick(vec![1u64, 100, 100_000], vec![1, 3, 6, 11, 31, 61, 100, 601, 4000, 100_000]) {
                list.push((t.clone(), w, r, secs));
            }
        }
    }
    vec![cases(
        "time passes between the reads",
        list,
        |(t, w, r, secs), ctx| slow_reader_idle(t, *w, *r, *secs, Explore::default(), ctx),
        |(t, w, r, secs)| format!("{}, window {}, {} per read, {} s between the reads", t.name, w, r, secs),
    )
    .cpu_limit(60.0)]
}

// ------------------------------------------------------------------ C14

pub fn c14(tier: Tier) -> Vec<Family> {
    let xs = Arc::new(bads(1));
    let mut list = vec![];
    for i in 0..xs.len() {
        for j in i..xs.len() {
            for secs in tier.pick(vec![1u64, 61, 4000, 100_000], vec![1, 6, 11, 31, 61, 91, 601, 4000, 100_000]) {
                list.push((i, j, secs));
            }
        }
    }
    let x2 = xs.clone();
    vec![cases(
        "time passes beside bad clients",
        list,
        |(i, j, secs), ctx| {
            let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
            let mut p = pair(&mut s)?;
            for (k, m) in [(1usize, *i), (2, *j)] {
                let b = bads(k).swap_remove(m);
                let mut slot = None;
                for a in &b.steps {
                    bad_act(&mut s, &mut slot, a)?;
                    s.idle(*secs)?;
                    round(&mut s, &mut p, &format!("{} s after a step of a bad client", secs))?;
                }
            }
            s.idle(*secs)?;
            round(&mut s, &mut p, "later")?;
            let mut q = pair(&mut s)?;
            round(&mut s, &mut q, "newcomers")?;
            visit(&(*i, *j, *secs));
            outcome(&s.conns.iter().map(|c| c.out.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
            finish(&mut s)
        },
        move |(i, j, secs)| format!("1: {}; 2: {}; {} s after each step", x2[*i].name, x2[*j].name, secs),
    )]
}

// ------------------------------------------------------------------ C15

pub fn c15(tier: Tier) -> Vec<Family> {
    let all = Arc::new(stories());
    let mut list = vec![];
    for i in 0..all.len() {
        for secs in tier.pick(vec![1u64, 61, 100_000], vec![1, 6, 11, 31, 61, 91, 601, 4000, 100_000, 10_000_000]) {
            for split in 0..=all[i].steps.len() {
                list.push((i, split, secs));
            }
        }
    }
    let s2 = all.clone();
    let mut v = vec![cases(
        "interrupt after time has passed",
        list,
        move |(i, split, secs), ctx| tell_slowly(&all[*i], *split, *secs, ctx),
        move |(i, split, secs)| format!("{}, {} s pass after step {}, then the interrupt", s2[*i].name, secs, split),
    )
    .cpu_limit(60.0)];
    v.push(deep(tier, ALL, &[DeepEnd::Interrupt]));
    v
}

// ------------------------------------------------------------------ C16

/// Text of filters, topics, ids that is well-formed UTF-8 but unusual.
fn texts() -> Vec<String> {
    let mut v: Vec<String> = [
        "a", "/", "//", "///", "a/", "/a", "a//b", "+", "#", "+/", "/+", "/#", "+/#", "+/+", "a/+/b", "$", "$a", "$SYS/#", "$/+", "a/$b", " ", "a b", "\t", "\r\n",
        // filters MQTT forbids
        "a+", "+a", "a+/b", "a#", "#/", "#/a", "a/#/b", "##", "++", "a/b#", "/#/", "+#", "a/+b", "#+",
        // characters
        "\u{0}", "a\u{0}b", "\u{1}", "\u{7f}", "\u{80}", "\u{feff}", "\u{feff}a", "\u{ffff}", "\u{fdd0}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "e\u{301}", "\u{e9}", "\u{1f980}/\u{1f980}", "'", "\"", "\\", "..", "../..", "%s%n", "{}", ":", ";", "*", "?", ".*", "[a]", "(", "$1",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    for n in [23usize, 24, 127, 128, 255, 256, 4096, 65_535] {
        v.push("n".repeat(n));
        v.push("\u{e9}".repeat(n / 2));
    }
    v
}

pub fn c16(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let ts = Arc::new(texts());
    // SUBSCRIBE / UNSUBSCRIBE / PUBLISH / CONNECT with each text, pairs of them
    let mut list: Vec<(usize, usize, u8)> = vec![];
    for i in 0..ts.len() {
        for j in 0..ts.len() {
            for k in 0..tier.pick(4u8, 8) {
                list.push((i, j, k));
            }
        }
    }
    let t2 = ts.clone();
    v.push(cases(
        "unusual texts",
        list,
        move |(i, j, k), ctx| {
            let (x, y) = (ts[*i].as_str(), ts[*j].as_str());
            let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
            let open = |s: &mut Sys| s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"));
            let a = open(&mut s)?;
            let b = open(&mut s)?;
            // a holds x and y; b talks about them
            match k % 4 {
                0 => {
                    s.send_pkts(a, &[connect("A"), subscribe(1, &[x, y])]);
                    s.quiesce()?;
                    s.send_pkts(b, &[connect("B"), publish(x, "1"), publish(y, "2"), Pkt::PingReq]);
                    s.quiesce()?;
                    s.send_pkts(a, &[unsubscribe(2, &[x]), Pkt::PingReq]);
                    s.quiesce()?;
                    s.send_pkts(b, &[publish(y, "3")]);
                }
                1 => {
                    s.send_pkts(a, &[connect(x), subscribe(1, &[y])]);
                    s.quiesce()?;
                    s.send_pkts(b, &[connect(y), publish(y, "1"), unsubscribe(9, &[y, x]), subscribe(10, &[x])]);
                    s.quiesce()?;
                    s.send_pkts(a, &[publish(x, "1"), Pkt::Disconnect]);
                }
                2 => {
                    s.send_pkts(a, &[connect_as("A", x, Some(y)), subscribe(1, &[x])]);
                    s.quiesce()?;
                    s.send_pkts(b, &[connect_as(x, y, None), publish(x, "1")]);
                }
                _ => {
                    let w = Pkt::Connect { id: y.into(), clean: true, keep: 10, will: Some(Will { topic: x.into(), payload: y.as_bytes().to_vec(), qos: 1, retain: true }), user: None, pass: None };
                    s.send_pkts(a, &[w]);
                    s.quiesce()?;
                    s.close(a, CloseMode::Reset);
                    s.quiesce()?;
                    s.send_pkts(b, &[connect("B"), subscribe(1, &[x, x, y]), subscribe(2, &[y, x]), unsubscribe(3, &[y, y])]);
                    s.quiesce()?;
                    s.close(b, CloseMode::Fin);
                }
            }
            s.quiesce()?;
            if *k >= 4 {
                s.close(a, CloseMode::Reset);
                s.close(b, CloseMode::Close);
                s.quiesce()?;
            }
            visit(&(*i, *j, *k));
            outcome(&s.conns.iter().map(|c| c.out.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
            aftermath(&mut s, &[])?;
            s.end();
            Ok(())
        },
        move |(i, j, k)| format!("texts {:?} and {:?}, use {}", t2[*i].chars().take(30).collect::<String>(), t2[*j].chars().take(30).collect::<String>(), k),
    ));
    // n packets of one kind, in one segment and one by one
    let mut list = vec![];
    for n in sizes(tier) {
        for k in 0..kinds().len() {
            for one in [true, false] {
                for first in [true, false] {
                    if one || n <= tier.pick(64, 300) {
                        list.push((n, k, one, first));
                    }
                }
            }
        }
    }
    list.sort_by_key(|x| std::cmp::Reverse(x.0));
    v.push(
        cases(
            "many packets of one kind",
            list,
            |(n, k, one, first), ctx| {
                let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
                let c = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
                let p = kinds().swap_remove(*k);
                if *first {
                    s.send_pkts(c, &[connect("A"), subscribe(1, &["a"])]);
                    s.quiesce()?;
                }
                if *one {
                    s.send_pkts(c, &vec![p.clone(); *n]);
                    s.quiesce()?;
                } else {
                    for _ in 0..*n {
                        s.send_pkts(c, &[p.clone()]);
                        s.quiesce()?;
                    }
                }
                let twice = matches!(p, Pkt::Connect { .. }) && *n + *first as usize >= 2;
                visit(&(*n, *k, *one, *first));
                outcome(&s.outs(c).len());
                aftermath(&mut s, &[(c, twice)])?;
                s.end();
                Ok(())
            },
            |(n, k, one, first)| format!("{} x {:?}{}{}", n, kinds()[*k], if *one { " in one segment" } else { "" }, if *first { " after CONNECT" } else { "" }),
        )
        .cpu_limit(60.0),
    );
    v.push(scale("many connections", Mask { panics: true, ..ALL }, &[Scale::Connections, Scale::ConnectCycles, Scale::TakeOvers], &tier.pick(vec![1, 2, 3, 10, 33, 64, 65, 100, 129, 257, 300, 600], sizes(tier))));
    v.push(deep(tier, Mask { panics: true, ..ALL }, &EVERY_END));
    let _ = USERS;
    v
}
