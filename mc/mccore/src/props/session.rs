//! Sessions, replies, authentication: C05-C09, C16.
use super::routing::{joins, pubs, subs, unsubs, RELIABLE, SMALL, WORLD};
use crate::codec::*;
use crate::env::{cheap_hash, env, USERS};
use crate::explore::*;
use crate::hist::*;
use crate::model::*;
use crate::report::*;
use crate::script::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{self, CloseMode, Explore};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C05", families: c05, rule: "all request sequences up to the depth on one connection, one by one and pipelined, all filter counts up to a bound, all 65535 packet ids, and all schedules within the deviation bound of concurrent requesters; the replies must be exactly the reference model's, in request order", assumptions: &[WORLD, RELIABLE, SMALL, "acknowledgement of QoS 1 and 2 PUBLISH is not promised by the project and not judged"] },
        Check { id: "C06", families: c06, rule: "all histories up to the depth over connect, subscribe and every way of ending a connection (also inside a packet), followed by reuse of the id; all schedules within the bound of ends racing publishes and reconnects; replies, deliveries and closes are compared with the model", assumptions: &[WORLD, RELIABLE, SMALL] },
        Check { id: "C07", families: c07, rule: "all histories up to the depth of three connections that share an id, and all schedules within the bound of take-overs racing queued packets, DISCONNECT and closes of the older connection; replies, deliveries and closes are compared with the model", assumptions: &[WORLD, RELIABLE, SMALL, "an older connection whose client does not read is closed once it reads on; when is not judged"] },
        Check { id: "C08", families: c08, rule: "all pairs of user name and password over colliding alphabets against every credential file of a catalogue, and all sequences of attempts up to the depth; the CONNACK, the close and the served session are compared with a reference map", assumptions: &[WORLD, "argon2 itself is trusted; credential files use cheap argon2 parameters", "several entries for one name are not judged (C17 excludes them)"] },
        Check { id: "C09", families: c09, rule: "all packet sequences up to the depth on connections that were never accepted, were refused, or have sent DISCONNECT, step by step and pipelined, with watchers; all schedules within the bound of such connections racing others", assumptions: &[WORLD, RELIABLE, SMALL] },
        Check { id: "C16", families: c16, rule: "all sequences up to the depth of packets of every kind and closes on two connections, then a fresh pair of clients that must be served; all schedules within the bound of such histories run concurrently; no task may panic and a second CONNECT must close the connection", assumptions: &[WORLD, RELIABLE, SMALL] },
    ]
}

pub fn q(id: u16, f: &[(&str, u8)]) -> Pkt {
    Pkt::Subscribe { id, filters: f.iter().map(|(f, q)| (f.to_string(), *q)).collect() }
}

// ------------------------------------------------------------------ C05

/// The first packet on every accepted connection is CONNACK.
pub fn connack_first(outs: &[Out]) -> Fallible<()> {
    match outs.first() {
        None | Some(Out::ConnAck { .. }) => Ok(()),
        Some(o) => Err(Fail::new("first-packet", format!("the first packet on the connection is {:?}", o))),
    }
}

fn c05(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // two publishes below make the broker interleave deliveries
    let alpha: Arc<Vec<Pkt>> = Arc::new(vec![
        q(1, &[("a", 0)]),
        q(2, &[("a", 1), ("b", 2), ("a/#", 0)]),
        q(65535, &[("+", 2), ("+", 0)]),
        unsubscribe(1, &["a"]),
        unsubscribe(256, &["+", "b", "x"]),
        Pkt::PingReq,
        publish("a", ""),
    ]);
    let seqs: Vec<Vec<u16>> = (1..=tier.pick(5, 6)).flat_map(|d| sequences(alpha.len(), d, &|_| true)).collect();
    let seqs = Arc::new(seqs);
    for pipelined in [true, false] {
        let (a, s, a2, s2) = (alpha.clone(), seqs.clone(), alpha.clone(), seqs.clone());
        let n = if pipelined { s.len() } else { s.iter().filter(|x| x.len() <= tier.pick(4, 5)).count() };
        v.push(Family::new(
            if pipelined { "sequences, pipelined behind CONNECT" } else { "sequences, one by one" },
            n as u64,
            move |i, ctx| {
                let mut l = Lock::boot(&env().cfg1, USERS, REPLIES, ctx.trace)?;
                let c = l.open(L1)?;
                let pk: Vec<Pkt> = std::iter::once(connect("A")).chain(s[i as usize].iter().map(|x| a[*x as usize].clone())).collect();
                if pipelined {
                    l.send(c, &pk)?;
                } else {
                    for p in pk {
                        l.send(c, &[p])?;
                    }
                }
                connack_first(&l.sys.outs(c)).map_err(|f| l.ctx(f))?;
                l.finish();
                Ok(())
            },
            move |i| format!("{:?}", s2[i as usize].iter().map(|x| &a2[*x as usize]).collect::<Vec<_>>()),
        ));
    }
    // CONNECT in all its forms
    let mut forms = vec![];
    for clean in [true, false] {
        for keep in [0u16, 1, 65535] {
            for user in [None, Some(("alice", "wonder"))] {
                for will in [None, Some(0u8), Some(1), Some(2)] {
                    for id in ["A", "", "an identifier of more than twenty-three bytes"] {
                        forms.push(Pkt::Connect {
                            id: id.into(),
                            clean,
                            keep,
                            will: will.map(|q| Will { topic: "w".into(), payload: b"last".to_vec(), qos: q, retain: q == 1 }),
                            user: user.map(|u| u.0.to_string()),
                            pass: user.map(|u| u.1.to_string()),
                        });
                    }
                }
            }
        }
    }
    v.push(cases(
        "forms of CONNECT, twice with one id",
        forms,
        |p, ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, REPLIES, ctx.trace)?;
            for _ in 0..2 {
                let c = l.open(L1)?;
                l.send(c, &[p.clone()])?;
                l.send(c, &[subscribe(3, &["a"]), Pkt::PingReq])?;
                connack_first(&l.sys.outs(c)).map_err(|f| l.ctx(f))?;
                l.send(c, &[Pkt::Disconnect])?;
            }
            l.finish();
            Ok(())
        },
        |p| format!("{:?}", p),
    ));
    // numbers of filters
    let mut counts: Vec<(usize, bool)> = vec![];
    for n in (1..=tier.pick(140, 600)).chain([255, 256, 257, 1000, 1023, 1024, 3000, 4090, 5000]) {
        counts.push((n, false));
        counts.push((n, true));
    }
    v.push(
        cases(
            "numbers of filters",
            counts,
            |(n, distinct), ctx| {
                let mut l = Lock::boot(&env().cfg1, USERS, REPLIES, ctx.trace)?;
                let c = l.open(L1)?;
                l.send(c, &[connect("A")])?;
                let fs: Vec<String> = (0..*n).map(|i| if *distinct { format!("f{}", i) } else { "a".into() }).collect();
                let fr: Vec<&str> = fs.iter().map(|s| s.as_str()).collect();
                l.send(c, &[subscribe(11, &fr)])?;
                l.send(c, &[unsubscribe(12, &fr), Pkt::PingReq])?;
                l.log.clear();
                l.finish();
                Ok(())
            },
            |(n, d)| format!("{} {} filters in one packet", n, if *d { "distinct" } else { "equal" }),
        )
        .cpu_limit(60.0),
    );
    v.push(
        cases(
            "all packet ids",
            (0..128u32).collect(),
            |b, ctx| {
                let mut l = Lock::boot(&env().cfg1, USERS, REPLIES, ctx.trace)?;
                let c = l.open(L1)?;
                l.send(c, &[connect("A")])?;
                let ids: Vec<u16> = (b * 512..(b + 1) * 512).filter(|i| *i > 0).map(|i| i as u16).collect();
                for ch in ids.chunks(64) {
                    l.log.clear();
                    let pk: Vec<Pkt> = ch.iter().flat_map(|i| [subscribe(*i, &["a", "b"]), unsubscribe(*i, &["a"])]).collect();
                    l.send(c, &pk)?;
                }
                l.finish();
                Ok(())
            },
            |b| format!("ids {}..{}", b * 512, (b + 1) * 512),
        ),
    );
    // concurrency
    let mut scripts = vec![];
    let mk = |name: &str, n| {
        let mut s = script(name, n);
        s.mask = REPLIES;
        s
    };
    let mut s = mk("two clients request", 2);
    s.setup = [join(0, "A", &[]), join(1, "B", &[])].concat();
    s.par = vec![
        vec![send(0, &[subscribe(1, &["a", "b"]), Pkt::PingReq, unsubscribe(2, &["a"])])],
        vec![send(1, &[Pkt::PingReq, subscribe(1, &["a"]), unsubscribe(9, &["a"])])],
    ];
    scripts.push(s);
    let mut s = mk("requests between deliveries", 2);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &[])].concat();
    s.par = vec![vec![send(0, &[Pkt::PingReq, subscribe(7, &["b"])]), send(0, &[unsubscribe(8, &["a"]), Pkt::PingReq])], vec![send(1, &[publish("a", ""), publish("b", ""), Pkt::PingReq])]];
    scripts.push(s);
    let mut s = mk("connect, request at once", 2);
    s.par = vec![
        vec![opens(0), send(0, &[connect("A"), subscribe(1, &["a"]), Pkt::PingReq])],
        vec![opens(1), send(1, &[connect("B"), Pkt::PingReq, publish("a", "")])],
    ];
    scripts.push(s);
    let mut s = mk("requests of a client that reads slowly", 2);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &[]), vec![st(0, Act::Flow(3, false))]].concat();
    s.par = vec![vec![send(0, &[Pkt::PingReq, subscribe(7, &["b"]), Pkt::PingReq])], vec![send(1, &[publish("a", "")])], vec![st(0, Act::Read(2)), st(0, Act::Flow(0, true))]];
    s.flow = true;
    scripts.push(s);
    v.push(family_with("concurrent", scripts, tier.pick(2, 3), |_, h| {
        for o in &h.outs {
            connack_first(&o.iter().map(|x| x.0.clone()).collect::<Vec<_>>())?;
        }
        Ok(())
    }));
    v.extend(super::more::c05(tier));
    v.extend(super::more4::c05(tier));
    v.push(family("a full queue of its own", super::more3::own_queue(tier, REPLIES), tier.pick(1, 2)).cpu_limit(60.0));
    v.push(family("a full queue of deliveries", super::more3::backed_up(tier, REPLIES), tier.pick(1, 2)).cpu_limit(60.0));
    v.extend(super::more8::c05(tier));
    v
}

// ------------------------------------------------------------------ C06

const ENDS: [EndMode; 6] = [EndMode::Disconnect, EndMode::Fin, EndMode::Close, EndMode::Reset, EndMode::Malformed, EndMode::SecondConnect];

/// Proper prefixes of packets a client might be sending when it goes away.
fn cuts() -> Vec<Vec<u8>> {
    let mut v = vec![vec![0x82], vec![0x30, 0x85]];
    let s = subscribe(5, &["cut"]).encode();
    v.push(s[..s.len() - 1].to_vec());
    let p = publish("a", "never").encode();
    v.push(p[..p.len() - 1].to_vec());
    v.push(p[..4].to_vec());
    v
}

fn c06(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let tail = || vec![joins(2, "A"), pubs(3, "a"), subs(2, "b"), pubs(3, "b"), joins(2, "B"), pubs(3, "a"), pubs(3, "b")];
    let mut s = spec("every end of one client", 4);
    s.setup = vec![joins(3, "pub"), joins(0, "A")];
    s.alphabet = vec![joins(0, "A"), H::Open(0, vec![Pkt::Connect { id: "A".into(), clean: false, keep: 7, will: None, user: None, pass: None }]), subs(0, "a"), subs(0, "+"), unsubs(0, "a"), pubs(0, "a"), pubs(3, "a")];
    s.alphabet.extend(ENDS.iter().map(|e| H::End(0, e.clone())));
    s.alphabet.extend(cuts().into_iter().enumerate().map(|(i, b)| H::Cut(0, b, [CloseMode::Fin, CloseMode::Close, CloseMode::Reset, CloseMode::Failed(libc::ETIMEDOUT)][i % 4])));
    s.finale = tail();
    v.extend(crate::real::bound(s, tier.pick(&[1, 2, 3, 4][..], &[1, 2, 3, 4, 5]), tier.pick(&[1, 2][..], &[1, 2, 3])));
    let mut s = spec("the way to one client breaks", 4);
    s.setup = vec![joins(3, "pub"), joins(0, "A")];
    s.alphabet = vec![joins(0, "A"), subs(0, "a"), pubs(0, "a"), pubs(3, "a")];
    s.alphabet.extend(ERRNOS.map(|e| H::End(0, EndMode::Failed(e))));
    s.finale = tail();
    v.extend(families(s, tier.pick(&[3][..], &[3, 4, 5])));
    let mut s = spec("two clients end and come back", 4);
    s.setup = vec![joins(3, "pub"), joins(0, "A"), joins(1, "B")];
    for (c, id) in [(0, "A"), (1, "B")] {
        s.alphabet.extend([joins(c, id), subs(c, "a"), H::End(c, EndMode::Disconnect), H::End(c, EndMode::Fin), H::End(c, EndMode::Reset)]);
    }
    s.finale = tail();
    v.extend(families(s, tier.pick(&[3, 4][..], &[3, 4, 5])));
    // all cuts of several packets x ways to go
    let mut cut = vec![];
    for p in [connect("A"), connect_as("A", "alice", Some("wonder")), subscribe(3, &["a", "b"]), unsubscribe(4, &["a"]), publish("a", "xyz"), publish_q("a", "xyz", 1, 9), Pkt::PingReq] {
        let b = p.encode();
        for k in 0..b.len() {
            for m in all_ends() {
                for before in [false, true] {
                    if !before && !matches!(p, Pkt::Connect { .. }) || before && matches!(p, Pkt::Connect { .. }) {
                        continue;
                    }
                    cut.push((b[..k].to_vec(), m, before));
                }
            }
        }
    }
    v.push(cases(
        "cut inside a packet",
        cut,
        |(b, m, before), ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
            let p = l.open(L1)?;
            l.send(p, &[connect("pub")])?;
            let c = l.open(L1)?;
            if *before {
                l.send(c, &[connect("A"), subscribe(1, &["a"])])?;
            }
            l.send_raw(c, b)?;
            l.close(c, *m)?;
            let d = l.open(L1)?;
            l.send(d, &[connect("A")])?;
            l.send(p, &[publish("a", "")])?;
            l.send(d, &[subscribe(1, &["b"])])?;
            l.send(p, &[publish("a", ""), publish("b", "")])?;
            l.finish();
            Ok(())
        },
        |(b, m, x)| format!("{} then {:?}{}", hex(b), m, if *x { " (connected)" } else { "" }),
    ));
    let mut scripts = vec![];
    for e in 0..6usize {
        let act = match e {
            0 => Act::Send(vec![Pkt::Disconnect]),
            1 => Act::Close(CloseMode::Fin),
            2 => Act::Close(CloseMode::Close),
            3 => Act::Close(CloseMode::Reset),
            5 => Act::Close(CloseMode::Failed(libc::EHOSTUNREACH)),
            _ => Act::Send(vec![connect("again")]),
        };
        let n = ["DISCONNECT", "half close", "close", "reset", "second CONNECT", "failure"][e];
        let mut s = script(format!("{} then reconnect, publisher meanwhile", n), 3);
        s.setup = [join(0, "A", &["a"]), join(2, "P", &[])].concat();
        s.par = vec![vec![st(0, act.clone()), opens(1), send(1, &[connect("A")])], vec![send(2, &[publish("a", "")])]];
        s.finale = vec![send(2, &[publish("a", "")]), send(1, &[subscribe(1, &["a"])]), send(2, &[publish("a", "")])];
        scripts.push(s);
        let mut s = script(format!("subscribe and {} in one go", n), 3);
        s.setup = [join(0, "A", &[]), join(2, "P", &[])].concat();
        s.par = vec![vec![send(0, &[subscribe(2, &["a"])]), st(0, act.clone())], vec![send(2, &[publish("a", "")])]];
        s.finale = vec![opens(1), send(1, &[connect("A")]), send(2, &[publish("a", "")])];
        scripts.push(s);
    }
    v.push(family("races", scripts, tier.pick(2, 3)));
    v.extend(super::more::c06(tier));
    v.extend(super::more2::c06(tier));
    v.extend(super::more4::c06(tier));
    v.push(family("a full queue", super::more3::backed_up(tier, ALL), tier.pick(1, 2)).cpu_limit(60.0));
    v
}

// ------------------------------------------------------------------ C07

fn c07(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut s = spec("three connections with one id", 4);
    s.symmetric = vec![0, 1, 2];
    s.prune_dead = false;
    s.setup = vec![joins(3, "pub")];
    for c in 0..3 {
        s.alphabet.extend([joins(c, "A"), H::Send(c, vec![subscribe(1, &["a"])]), pubs(c, "p"), H::End(c, EndMode::Disconnect), H::End(c, EndMode::Close)]);
    }
    s.setup.push(H::Send(3, vec![subscribe(1, &["p"])]));
    s.finale = vec![pubs(3, "a"), H::Send(0, vec![Pkt::PingReq]), H::Send(1, vec![Pkt::PingReq]), H::Send(2, vec![Pkt::PingReq])];
    v.extend(crate::real::bound(s, tier.pick(&[1, 2, 3, 4, 5][..], &[1, 2, 3, 4, 5, 6]), tier.pick(&[1, 2][..], &[1, 2, 3])));
    let mut s = spec("old and new act in turn", 4);
    s.prune_dead = false;
    s.setup = vec![joins(3, "pub"), H::Send(3, vec![subscribe(1, &["p"])]), H::Open(0, vec![connect("A"), subscribe(1, &["a", "b/#"])])];
    s.alphabet = vec![
        joins(1, "A"),
        H::Open(1, vec![connect("A"), subscribe(1, &["a"]), publish("p", "")]),
        H::Open(1, vec![connect_as("A", "alice", Some("bad"))]),
        H::Open(1, vec![connect_as("A", "alice", Some("wonder"))]),
        subs(1, "a"),
        subs(0, "c"),
        unsubs(0, "a"),
        pubs(0, "p"),
        H::End(0, EndMode::Disconnect),
        H::End(0, EndMode::Fin),
        H::End(0, EndMode::Reset),
        H::End(0, EndMode::SecondConnect),
        H::End(0, EndMode::Malformed),
        pubs(3, "a"),
    ];
    s.finale = vec![pubs(3, "a"), pubs(3, "b"), pubs(3, "c"), H::Send(1, vec![Pkt::PingReq]), pubs(1, "p"), H::Send(0, vec![Pkt::PingReq])];
    v.extend(crate::real::bound(s, tier.pick(&[3, 4][..], &[3, 4, 5]), tier.pick(&[1, 2][..], &[1, 2, 3])));
    // a client with another id must never be affected; ids that differ slightly
    let ids = ["A", "a", "AA", "A ", "", "A/", "alice"];
    let mut pairs = vec![];
    for x in ids {
        for y in ids {
            for z in ids {
                pairs.push((x, y, z));
            }
        }
    }
    v.push(cases(
        "similar ids",
        pairs,
        |(x, y, z), ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
            let mut cs = vec![];
            for (k, id) in [x, y, z].iter().enumerate() {
                let c = l.open(L1)?;
                l.send(c, &[connect(id), subscribe(1, &["a"])])?;
                cs.push(c);
            }
            for c in &cs {
                l.send(*c, &[publish("a", ""), Pkt::PingReq])?;
            }
            l.send(cs[0], &[Pkt::Disconnect])?;
            l.send(cs[2], &[publish("a", "")])?;
            l.finish();
            Ok(())
        },
        |x| format!("{:?}", x),
    ));
    let mut scripts = vec![];
    let base = |name: &str| {
        let mut s = script(name, 3);
        s.setup = [join(0, "A", &["a"]), join(2, "P", &["p"])].concat();
        s.finale = vec![send(2, &[publish("a", ""), publish("b", "")]), send(1, &[Pkt::PingReq]), send(0, &[Pkt::PingReq, publish("p", "")])];
        s
    };
    let take = || vec![opens(1), send(1, &[connect("A"), subscribe(1, &["b"])])];
    let mut s = base("take-over while the old connection sends");
    s.par = vec![take(), vec![send(0, &[subscribe(5, &["b"]), publish("p", "")]), send(0, &[Pkt::PingReq])]];
    scripts.push(s);
    for (n, a) in [("DISCONNECT", Act::Send(vec![Pkt::Disconnect])), ("half close", Act::Close(CloseMode::Fin)), ("close", Act::Close(CloseMode::Close)), ("reset", Act::Close(CloseMode::Reset)), ("timeout", Act::Close(CloseMode::Failed(libc::ETIMEDOUT))), ("second CONNECT", Act::Send(vec![connect("A")]))] {
        let mut s = base(&format!("take-over races {} of the old connection", n));
        s.par = vec![take(), vec![send(0, &[publish("p", "")]), st(0, a)]];
        scripts.push(s);
    }
    let mut s = base("take-over races deliveries");
    s.par = vec![take(), vec![send(2, &[publish("a", ""), publish("b", "")]), send(2, &[publish("b", "")])]];
    scripts.push(s);
    let mut s = script("two connect with one id at once", 3);
    s.setup = join(2, "P", &["p"]);
    s.par = vec![vec![opens(0), send(0, &[connect("A"), subscribe(1, &["a"])])], vec![opens(1), send(1, &[connect("A"), subscribe(1, &["b"])])]];
    s.finale = vec![send(2, &[publish("a", ""), publish("b", "")])];
    scripts.push(s);
    v.push(family("races", scripts, tier.pick(2, 3)));
    let mut s = script("three connect with one id at once", 4);
    s.setup = join(3, "P", &[]);
    s.par = (0..3).map(|c| vec![opens(c), send(c, &[connect("A"), subscribe(1, &[["a", "b", "c"][c]])])]).collect();
    s.finale = vec![send(3, &[publish("a", ""), publish("b", ""), publish("c", "")])];
    v.push(family("three at once", vec![s], tier.pick(1, 2)));
    v.extend(super::more::c07(tier));
    v.extend(super::more4::c07(tier));
    v.extend(super::more5::c07(tier));
    v
}

// ------------------------------------------------------------------ C08

pub struct CredFile {
    pub name: &'static str,
    pub text: String,
    /// names with a usable entry
    pub users: Vec<(String, String)>,
}

pub fn cred_files() -> Vec<CredFile> {
    let e = |u: &str, p: &str| format!("{}:{}\n", u, cheap_hash(p, "c29tZXNhbHQ"));
    let us = |l: &[(&str, &str)]| l.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    let mk = |name: &'static str, l: &[(&str, &str)]| CredFile { name, text: l.iter().map(|(u, p)| e(u, p)).collect(), users: us(l) };
    let alg = |a: argon2::Algorithm, u: &str, p: &str| {
        use argon2::password_hash::{PasswordHasher, SaltString};
        let h = argon2::Argon2::new(a, argon2::Version::V0x13, argon2::Params::new(16, 2, 1, None).unwrap());
        format!("{}:{}\n", u, h.hash_password(p.as_bytes(), &SaltString::new("YW5vdGhlcnNhbHQ").unwrap()).unwrap())
    };
    let long_name = "n".repeat(300);
    let long_pw = "p".repeat(300);
    let mut v = vec![
        CredFile { name: "empty", text: String::new(), users: vec![] },
        mk("one", &[("alice", "wonder")]),
        mk("several", &[("bob", "builder"), ("alice", "wonder"), ("carol", "x")]),
        mk("last entry", &[("bob", "builder"), ("carol", "x"), ("alice", "wonder")]),
        CredFile { name: "no final newline", text: (e("bob", "builder") + &e("alice", "wonder")).trim_end().to_string(), users: us(&[("bob", "builder"), ("alice", "wonder")]) },
        mk("prefixes", &[("alic", "p1"), ("alice", "p2"), ("alicee", "p3"), ("a", "p4"), ("lice", "p5")]),
        mk("case variants", &[("Alice", "p1"), ("alice", "p2"), ("ALICE", "p3")]),
        mk("empty password", &[("alice", ""), ("bob", "builder")]),
        mk("empty name", &[("", "wonder"), ("alice", "p2")]),
        mk("odd characters", &[("al ice", "won der"), ("\u{e9}l", "\u{e9}\u{e8}"), ("a.c", "dot"), (" alice", "sp"), ("#x", "c"), ("+", "plus"), ("a/b", "$1"), ("alice ", "t r ")]),
        mk("password with colon", &[("alice", "a:b"), ("bob", ":")]),
        mk("same passwords", &[("alice", "wonder"), ("bob", "wonder"), ("carol", "Wonder")]),
        CredFile { name: "long", text: e(&long_name, &long_pw) + &e("alice", "wonder"), users: us(&[(&long_name, &long_pw), ("alice", "wonder")]) },
        CredFile {
            name: "other argon2 variants",
            text: alg(argon2::Algorithm::Argon2i, "alice", "wonder") + &alg(argon2::Algorithm::Argon2d, "bob", "builder"),
            users: us(&[("alice", "wonder"), ("bob", "builder")]),
        },
    ];
    // unusable entries: never admitted, and others are not harmed
    for (name, h) in [
        ("hash empty", "".to_string()),
        ("hash is the clear password", "wonder".to_string()),
        ("hash cut short", cheap_hash("wonder", "c29tZXNhbHQ")[..40].to_string()),
        ("hash without digest", "$argon2id$v=19$m=8,t=1,p=1$c29tZXNhbHQ".to_string()),
        ("unknown algorithm", cheap_hash("wonder", "c29tZXNhbHQ").replace("argon2id", "scrypt")),
        ("hash of another password", cheap_hash("other", "c29tZXNhbHQ")),
        ("blank before the hash", format!(" {}", cheap_hash("wonder", "c29tZXNhbHQ"))),
    ] {
        let usable = match name {
            "hash of another password" => vec![("alice".to_string(), "other".to_string())],
            _ => vec![],
        };
        let mut users = us(&[("bob", "builder")]);
        users.extend(usable);
        v.push(CredFile { name, text: format!("alice:{}\n{}", h, e("bob", "builder")), users });
    }
    v
}

fn c08(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let files = Arc::new(cred_files());
    let names: Vec<String> = {
        let mut s: std::collections::BTreeSet<String> = ["alice", "Alice", "ALICE", "alic", "alicee", "lice", "a", "bob", "carol", "", " ", "alice ", " alice", "alice:", "*", ".*", "eve", "al ice", "\u{e9}l", "a.c", "abc", "alice\n", "#x", "+", "a/b"].iter().map(|s| s.to_string()).collect();
        s.insert("n".repeat(300));
        s.insert("n".repeat(299));
        s.into_iter().collect()
    };
    let mut all = vec![];
    for (fi, f) in files.iter().enumerate() {
        let mut pws: std::collections::BTreeSet<Option<String>> = Default::default();
        pws.insert(None);
        for p in ["", " ", "wonder", "Wonder", "wonde", "wonderr", "wonder ", "onder", "builder", "x", "p1", "p2", "a:b", "a", ":", "other"] {
            pws.insert(Some(p.into()));
        }
        for (_, p) in &f.users {
            pws.insert(Some(p.clone()));
            pws.insert(Some(format!("{}\0", p)));
            pws.insert(Some(format!("{} ", p)));
        }
        for l in f.text.lines() {
            pws.insert(l.split_once(':').map(|x| x.1.to_string()));
        }
        for n in names.iter() {
            all.push((fi, n.clone(), pws.iter().cloned().collect::<Vec<_>>()));
        }
    }
    let f2 = files.clone();
    v.push(cases(
        "user x password x file",
        all,
        move |(fi, user, pws), ctx| {
            let f = &files[*fi];
            let cfg = auth_config(&f.text);
            let users: Vec<(&str, &str)> = f.users.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
            // refused attempts need no broker of their own
            let mut l = Lock::boot(&cfg, &users, ALL, ctx.trace).map_err(|e| e.ctx(f.name))?;
            for (k, pw) in pws.iter().enumerate() {
                let c = l.open(L1)?;
                l.send(c, &[connect_as(&format!("c{}", k), user, pw.as_deref()), Pkt::PingReq])?;
                connack_first(&l.sys.outs(c)).map_err(|f| l.ctx(f))?;
                if l.log.len() > 40 {
                    l.log.clear();
                }
            }
            let c = l.open(L1)?;
            l.send(c, &[connect("anonymous"), Pkt::PingReq])?;
            visit(&(fi, user));
            l.finish();
            Ok(())
        },
        move |(fi, u, _)| format!("file {:?}, user {:?}", f2[*fi].name, u.chars().take(40).collect::<String>()),
    ));
    // histories of attempts
    for (name, id) in [("attempts with one id", "A"), ("attempts with ids of their own", "")] {
        let mut s = spec(name, 3);
        s.setup = vec![joins(2, "pub"), H::Open(1, vec![connect("A"), subscribe(1, &["a"])])];
        s.prune_dead = false;
        for (u, p) in [("alice", Some("wonder")), ("alice", Some("builder")), ("alice", None), ("bob", Some("builder")), ("bob", Some("wonder")), ("eve", Some("wonder")), ("", Some(""))] {
            s.alphabet.push(H::Open(0, vec![connect_as(id, u, p), subscribe(4, &["a"])]));
        }
        s.alphabet.push(H::Open(0, vec![connect(id), Pkt::PingReq]));
        s.finale = vec![pubs(2, "a"), H::Send(0, vec![Pkt::PingReq]), H::Send(1, vec![Pkt::PingReq])];
        v.extend(crate::real::bound(s, tier.pick(&[1, 2, 3, 4][..], &[1, 2, 3, 4, 5]), tier.pick(&[1, 2][..], &[1, 2, 3])));
    }
    let mut scripts = vec![];
    let mut s = script("good and bad attempts at once", 3);
    s.setup = join(2, "P", &["x"]);
    s.par = vec![
        vec![opens(0), send(0, &[connect_as("A", "alice", Some("wonder")), publish("x", "")])],
        vec![opens(1), send(1, &[connect_as("B", "alice", Some("builder")), publish("x", "")])],
    ];
    s.finale = vec![send(0, &[Pkt::PingReq])];
    scripts.push(s);
    let mut s = script("two users at once, one id", 3);
    s.setup = join(2, "P", &["x"]);
    s.par = vec![
        vec![opens(0), send(0, &[connect_as("A", "alice", Some("wonder"))])],
        vec![opens(1), send(1, &[connect_as("A", "bob", Some("wonder"))])],
    ];
    s.finale = vec![send(0, &[Pkt::PingReq])];
    scripts.push(s);
    v.push(family("concurrent", scripts, tier.pick(2, 3)));
    v.extend(super::more2::c08(tier));
    v.extend(super::more4::c08(tier));
    v.extend(super::more8::c08(tier));
    v
}

pub fn auth_config(passwd: &str) -> String {
    let h = hash(passwd);
    let p = env().dir.join(format!("cred-{:x}", h));
    let c = env().dir.join(format!("cred-{:x}.toml", h));
    if !c.exists() {
        // another thread may be doing the same
        let tmp = env().dir.join(format!("tmp-{:x}-{}-{:?}", h, std::process::id(), std::thread::current().id()));
        std::fs::write(&tmp, passwd).unwrap();
        std::fs::rename(&tmp, &p).unwrap();
        crate::env::write_config(&tmp, &[L1], &p);
        std::fs::rename(&tmp, &c).unwrap();
    }
    c.to_string_lossy().into_owned()
}

// ------------------------------------------------------------------ C09

fn c09(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let letters = || {
        vec![
            connect("X"),
            connect_as("X", "alice", Some("bad")),
            connect_as("V", "alice", Some("bad")),
            connect("V"),
            subscribe(1, &["a", "#"]),
            unsubscribe(2, &["a"]),
            publish("a", ""),
            publish_q("a", "", 1, 3),
            Pkt::PingReq,
            Pkt::Disconnect,
            Pkt::PubAck(1),
            Pkt::PubRel(1),
        ]
    };
    for (name, before) in [
        ("nothing was sent before", vec![]),
        ("after a refused CONNECT", vec![connect_as("X", "alice", Some("wrong"))]),
        ("after DISCONNECT", vec![connect("X"), subscribe(7, &["a"]), Pkt::Disconnect]),
        ("after a first PINGREQ", vec![Pkt::PingReq]),
    ] {
        for pipelined in [false, true] {
            let a: Arc<Vec<Pkt>> = Arc::new(letters());
            let b = a.clone();
            let before = before.clone();
            let max = tier.pick(if pipelined { 4 } else { 3 }, if pipelined { 5 } else { 4 });
            let fresh = before.is_empty();
            let ok = move |s: &[u16]| !(fresh && s[0] == 0); // a fresh, valid CONNECT is C16's business
            let seqs: Vec<Vec<u16>> = (1..=max).flat_map(|d| sequences(a.len(), d, &ok)).collect();
            v.push(cases(
                format!("{}{}", name, if pipelined { ", pipelined" } else { ", step by step" }),
                seqs,
                move |s, ctx| {
                    let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
                    let w = l.open(L1)?;
                    l.send(w, &[connect("V"), subscribe(1, &["#"])])?;
                    let x = l.open(L1)?;
                    let mut all: Vec<Pkt> = before.clone();
                    all.extend(s.iter().map(|i| a[*i as usize].clone()));
                    if pipelined {
                        l.send(x, &all)?;
                    } else {
                        for p in all {
                            l.send(x, &[p])?;
                        }
                    }
                    // what the watcher (or its successor) sees must be what the model says
                    let p = l.open(L1)?;
                    l.send(p, &[connect("pub")])?;
                    l.send(p, &[publish("a", "")])?;
                    l.finish();
                    Ok(())
                },
                move |s| format!("{:?}", s.iter().map(|i| &b[*i as usize]).collect::<Vec<_>>()),
            ));
        }
    }
    let mut scripts = vec![];
    let mut add = |name: &str, pk: Vec<Step>| {
        let mut s = script(name, 3);
        s.setup = join(0, "W", &["#"]);
        s.par = vec![pk, vec![opens(2), send(2, &[connect("P"), publish("a", "")])]];
        s.finale = vec![send(2, &[publish("a", "")])];
        scripts.push(s);
    };
    add("publish without CONNECT", vec![opens(1), send(1, &[publish("a", ""), connect("X"), subscribe(1, &["a"]), publish("a", "")])]);
    add("packets behind a refused CONNECT", vec![opens(1), send(1, &[connect_as("X", "alice", Some("bad")), subscribe(1, &["a"]), publish("a", ""), Pkt::PingReq])]);
    add("packets behind DISCONNECT", vec![opens(1), send(1, &[connect("X"), Pkt::Disconnect, subscribe(1, &["a"]), publish("a", ""), Pkt::PingReq])]);
    add("packets in steps behind a refused CONNECT", vec![opens(1), send(1, &[connect_as("X", "eve", Some("bad"))]), send(1, &[subscribe(1, &["a"])]), send(1, &[publish("a", "")])]);
    add("refused CONNECT with a live id, then packets", vec![opens(1), send(1, &[connect_as("W", "alice", None), unsubscribe(1, &["#"]), Pkt::Disconnect])]);
    v.push(family("concurrent", scripts, tier.pick(2, 3)));
    v.extend(super::more::c09(tier));
    v.extend(super::more8::c09(tier));
    v
}

// ------------------------------------------------------------------ C16

pub fn kinds() -> Vec<Pkt> {
    vec![
        connect("A"),
        connect("B"),
        connect_as("A", "alice", Some("no")),
        subscribe(1, &["a", "probe/x"]),
        unsubscribe(1, &["a", "zz"]),
        publish("a", "x"),
        publish_q("a", "x", 1, 1),
        publish_q("a", "x", 2, 1),
        Pkt::PubAck(1),
        Pkt::PubRec(1),
        Pkt::PubRel(1),
        Pkt::PubComp(1),
        Pkt::PingReq,
        Pkt::Disconnect,
    ]
}

/// After any history: nothing panicked, second CONNECTs closed their connection, newcomers are served.
pub fn aftermath(s: &mut Sys, old: &[(usize, bool)]) -> Fallible<()> {
    s.check_panics()?;
    if !s.running() {
        return Err(Fail::new("stopped", "the broker terminated"));
    }
    for (c, twice) in old {
        if *twice && !s.is_closed(*c) {
            return Err(Fail::new("not-closed", format!("connection #{} sent a second CONNECT and was not closed", c)));
        }
    }
    let a = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
    s.send_pkts(a, &[connect("probe-a"), subscribe(7, &["probe/x"])]);
    s.quiesce()?;
    let b = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
    s.send_pkts(b, &[connect("probe-b"), publish("probe/x", "hello"), Pkt::PingReq, Pkt::Disconnect]);
    s.quiesce()?;
    s.check_panics()?;
    let want_a = vec![
        Out::ConnAck { sp: 0, rc: 0 },
        Out::SubAck { id: 7, codes: vec![0] },
        Out::Publish { topic: b"probe/x".to_vec(), payload: b"hello".to_vec(), qos: 0, retain: false, dup: false, id: None },
    ];
    let want_b = vec![Out::ConnAck { sp: 0, rc: 0 }, Out::PingResp];
    if s.outs(a) != want_a || s.outs(b) != want_b {
        return Err(Fail::new("not-served", format!("new clients received {:?} and {:?} instead of {:?} and {:?}", s.outs(a), s.outs(b), want_a, want_b)));
    }
    if !s.is_closed(b) {
        return Err(Fail::new("not-closed", "the broker did not close the connection of a new client that disconnected"));
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum C16 {
    Open(usize),
    Send(usize, Pkt),
    Close(usize, CloseMode),
}

fn c16(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let run = |ops: &[C16], ctx: &Ctx| -> Fallible<()> {
        let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
        let mut slot: [Option<usize>; 2] = [None; 2];
        // the number of CONNECTs decides; only sound when nothing ended the connection first
        let mut all: Vec<(usize, u32, bool)> = vec![];
        let mut go = |s: &mut Sys, all: &mut Vec<(usize, u32, bool)>, slot: &mut [Option<usize>; 2], o: &C16| -> Fallible<()> {
            match o {
                C16::Open(k) => {
                    let c = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
                    slot[*k] = Some(c);
                    all.push((c, 0, false));
                }
                C16::Send(k, p) => {
                    if let Some(c) = slot[*k] {
                        s.send_pkts(c, &[p.clone()]);
                        let e = all.iter_mut().find(|e| e.0 == c).unwrap();
                        if matches!(p, Pkt::Connect { .. }) {
                            e.1 += 1;
                        }
                    }
                }
                C16::Close(k, m) => {
                    if let Some(c) = slot[*k].take() {
                        s.close(c, *m);
                    }
                }
            }
            s.quiesce()
        };
        for o in [C16::Open(0), C16::Open(1)].iter().chain(ops) {
            go(&mut s, &mut all, &mut slot, o)?;
            visit(&(s.conns.iter().map(|c| (c.out.len(), c.fin_step.is_some())).collect::<Vec<_>>(), s.panics().len()));
        }
        let old: Vec<(usize, bool)> = all.iter().map(|e| (e.0, e.1 >= 2)).collect();
        outcome(&s.conns.iter().map(|c| c.out.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
        aftermath(&mut s, &old).map_err(|f| f.ctx(format!("after {:?}", ops)))?;
        sample(|| format!("{:?}", ops));
        s.end();
        Ok(())
    };
    let mut alpha: Vec<C16> = vec![];
    for k in 0..2 {
        alpha.extend(kinds().into_iter().map(|p| C16::Send(k, p)));
        alpha.extend([CloseMode::Fin, CloseMode::Reset, CloseMode::Failed(libc::ETIMEDOUT)].map(|m| C16::Close(k, m)));
        alpha.push(C16::Open(k));
    }
    let alpha = Arc::new(alpha);
    let sym = {
        let a = alpha.clone();
        move |s: &[u16]| match &a[s[0] as usize] {
            C16::Open(k) | C16::Send(k, _) | C16::Close(k, _) => *k == 0,
        }
    };
    for d in 1..=tier.pick(3, 4) {
        let seqs = sequences(alpha.len(), d, &sym);
        let (a, b) = (alpha.clone(), alpha.clone());
        v.push(cases(
            format!("two connections depth {}", d),
            seqs,
            move |s, ctx| run(&s.iter().map(|i| a[*i as usize].clone()).collect::<Vec<_>>(), ctx),
            move |s| format!("{:?}", s.iter().map(|i| &b[*i as usize]).collect::<Vec<_>>()),
        ));
    }
    // one connection, longer; and everything in one segment
    let one: Arc<Vec<Pkt>> = Arc::new(kinds());
    for d in [tier.pick(3, 4), tier.pick(4, 5)] {
        let (a, b) = (one.clone(), one.clone());
        v.push(cases(
            format!("one accepted connection depth {}", d),
            sequences(one.len(), d, &|_| true),
            move |s, ctx| {
                let mut ops = vec![C16::Send(0, connect("A"))];
                ops.extend(s.iter().map(|i| C16::Send(0, a[*i as usize].clone())));
                run(&ops, ctx)
            },
            move |s| format!("{:?}", s.iter().map(|i| &b[*i as usize]).collect::<Vec<_>>()),
        ));
        let (a, b) = (one.clone(), one.clone());
        v.push(cases(
            format!("one segment of {} packets", d),
            sequences(one.len(), d, &|_| true),
            move |s, ctx| {
                let mut y = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
                let c = y.open(L1).unwrap();
                let pk: Vec<Pkt> = s.iter().map(|i| a[*i as usize].clone()).collect();
                y.send_pkts(c, &pk);
                y.quiesce()?;
                let twice = pk.iter().filter(|p| matches!(p, Pkt::Connect { .. })).count() >= 2;
                outcome(&y.outs(c));
                visit(&y.outs(c));
                aftermath(&mut y, &[(c, twice)]).map_err(|f| f.ctx(format!("after {:?} in one segment", pk)))?;
                y.end();
                Ok(())
            },
            move |s| format!("{:?}", s.iter().map(|i| &b[*i as usize]).collect::<Vec<_>>()),
        ));
    }
    // concurrency: pairs of short histories
    let short: Vec<(&str, Vec<Step>)> = vec![
        ("publishes and closes", vec![send(0, &[publish("a", ""), publish_q("a", "", 1, 5)]), st(0, Act::Close(CloseMode::Reset))]),
        ("disconnects twice", vec![send(0, &[Pkt::Disconnect, Pkt::Disconnect]), send(0, &[Pkt::Disconnect])]),
        ("connects again", vec![send(0, &[connect("A"), Pkt::PingReq]), send(0, &[Pkt::PingReq])]),
        ("sends acknowledgements", vec![send(0, &[Pkt::PubAck(1), Pkt::PubRel(2), Pkt::PubComp(9), Pkt::PubRec(1)]), send(0, &[Pkt::PingReq])]),
        ("subscribes and closes", vec![send(0, &[subscribe(1, &["a"])]), st(0, Act::Close(CloseMode::Close))]),
        ("half-closes", vec![send(0, &[publish("a", ""), Pkt::PingReq]), st(0, Act::Close(CloseMode::Fin))]),
    ];
    let other: Vec<(&str, Vec<Step>)> = vec![
        ("another takes the id", vec![opens(1), send(1, &[connect("A"), subscribe(1, &["a"])])]),
        ("a subscriber leaves", vec![send(2, &[publish("a", "")]), st(2, Act::Close(CloseMode::Close))]),
        ("a subscriber disconnects", vec![send(2, &[unsubscribe(3, &["a"]), Pkt::Disconnect])]),
    ];
    let mut scripts = vec![];
    for (n, a) in &short {
        for (m, b) in &other {
            let mut s = script(format!("a client {}, {}", n, m), 3);
            s.setup = [join(0, "A", &["a"]), join(2, "S", &["a"])].concat();
            s.par = vec![a.clone(), b.clone()];
            scripts.push(s);
        }
    }
    let a = Arc::new(scripts);
    let b = a.clone();
    v.push(
        Family::new(
            "concurrent",
            a.len() as u64,
            move |i, ctx| {
                let s = &a[i as usize];
                let mut r = Runner::boot(s, ctx)?;
                r.sequential(&s.setup)?;
                r.concurrent(&s.par)?;
                let h = r.history();
                outcome(&h.outs.iter().map(|o| o.iter().map(|x| &x.0).collect::<Vec<_>>()).collect::<Vec<_>>());
                sample(|| describe(&h));
                let again = s.name.contains("connects again");
                let old: Vec<(usize, bool)> = vec![(r.map[0].unwrap(), again)];
                aftermath(&mut r.sys, &old).map_err(|f| f.ctx(describe(&h)))?;
                r.sys.end();
                Ok(())
            },
            move |i| b[i as usize].name.clone(),
        )
        .bound(tier.pick(1, 2)),
    );
    v.extend(super::more2::c16(tier));
    v.extend(super::more8::c16(tier));
    v.extend(super::more10::c16(tier));
    v
}
