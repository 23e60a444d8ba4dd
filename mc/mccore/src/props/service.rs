//! Availability and shutdown: C14, C15.
use super::routing::{RELIABLE, SMALL, WORLD};
use super::session::kinds;
use crate::codec::*;
use crate::env::env;
use crate::explore::*;
use crate::report::*;
use crate::script::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{self, CloseMode, Explore};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C14", families: c14, rule: "all interleavings of the steps of two badly behaved clients out of a catalogue (silent, half packets, not reading, vanished, flooding, refused accepts), with a well-behaved pair that must be served completely after every step; every backlog of a client that does not read within its queue; crowds of bad clients; all schedules within the deviation bound of bad clients racing the pair", assumptions: &[WORLD, RELIABLE, SMALL, "a backlog beyond the queue of a client that does not read is the known finding; there the broker must recover without loss once the client reads"] },
        Check { id: "C26", families: super::more5::c26, rule: "all rounds of up to a number of steps over three clients (connecting with fixed and changing ids, names and passwords, subscribing and unsubscribing changing filters, publishing, violating the protocol, leaving in every way), each round repeated 32 and 32 times: afterwards no task, socket or timer more than at first, and no more memory after 64 rounds than after 32; clients that go with every backlog; all schedules within the deviation bound of clients that end at the same time", assumptions: &[WORLD, "memory is what the broker's tasks allocated and did not free, without the bookkeeping of the simulated world"] },
        Check { id: "C15", families: c15, rule: "the interrupt at every step of a catalogue of histories, before and after every single task step, and all schedules and race outcomes within the deviation bound; afterwards the broker's run must have returned, its listeners be gone, no task have panicked, and what clients received must be explained by the model, cut off at any point", assumptions: &[WORLD, RELIABLE, SMALL, "an interrupt before the broker has registered its handler is the operating system's business"] },
    ]
}

const BIG: usize = usize::MAX;

// ------------------------------------------------------------------ C14

#[derive(Clone)]
pub struct Bad {
    pub name: String,
    pub steps: Vec<Act>,
}
fn bad(name: &str, steps: Vec<Act>) -> Bad {
    Bad { name: name.into(), steps }
}

/// `k` makes ids and contents distinct. Every client below keeps its backlog small.
pub fn bads(k: usize) -> Vec<Bad> {
    let id = format!("bad{}", k);
    let open = Act::Open(L1);
    let con = || Act::Send(vec![connect(&id)]);
    let cb = connect(&id).encode();
    let pb = publish("t", "never completed").encode();
    let sub = |f: &str| Act::Send(vec![subscribe(5, &[f])]);
    vec![
        bad("connects and stays silent", vec![open.clone()]),
        bad("sends half a CONNECT", vec![open.clone(), Act::Bytes(cb[..cb.len() / 2].to_vec())]),
        bad("sends one byte", vec![open.clone(), Act::Bytes(vec![0x10])]),
        bad("announces a huge packet", vec![open.clone(), con(), Act::Bytes(vec![0x30, 0xff, 0xff, 0xff, 0x7f, 0, 1, b't'])]),
        bad("sends half a PUBLISH", vec![open.clone(), con(), Act::Bytes(pb[..pb.len() - 3].to_vec())]),
        bad("sends a length that never ends", vec![open.clone(), con(), Act::Bytes(vec![0x82, 0x80, 0x80])]),
        bad("never reads, subscribed", vec![open.clone(), Act::Flow(0, false), con(), sub("t")]),
        bad("stops reading in the middle of a packet", vec![open.clone(), con(), Act::Flow(3, false), Act::Send(vec![subscribe(5, &["t", "u"])])]),
        bad("stops reading and vanishes", vec![open.clone(), con(), sub("t"), Act::Flow(1, false), Act::Close(CloseMode::Reset)]),
        bad("never reads and closes its sending half", vec![open.clone(), Act::Flow(0, false), con(), sub("t"), Act::Close(CloseMode::Fin)]),
        bad("never reads, is refused", vec![open.clone(), Act::Flow(0, false), Act::Send(vec![connect_as(&id, "alice", Some("wrong"))])]),
        bad("vanishes at once", vec![open.clone(), Act::Close(CloseMode::Reset)]),
        bad("subscribes and vanishes", vec![open.clone(), con(), sub("#"), Act::Close(CloseMode::Reset)]),
        bad("closes inside a packet", vec![open.clone(), con(), Act::Bytes(pb[..4].to_vec()), Act::Close(CloseMode::Close)]),
        bad("floods publishes nobody wants", vec![open.clone(), con(), Act::Send((0..150).map(|_| publish("x", "flood")).collect())]),
        bad("floods requests", vec![open.clone(), con(), Act::Send((0..100).map(|i| if i % 2 == 0 { Pkt::PingReq } else { subscribe(i as u16, &["x"]) }).collect())]),
        bad("floods and vanishes", vec![open.clone(), con(), Act::Send((0..100).map(|_| publish("x", "flood")).collect()), Act::Close(CloseMode::Reset)]),
        bad("floods before being accepted", vec![open.clone(), Act::Send((0..80).map(|_| Pkt::PingReq).collect())]),
        bad("accepting it fails", vec![Act::AcceptError(L1), Act::AcceptError(L1)]),
        bad("takes its own id over, not reading", vec![open.clone(), Act::Flow(0, false), con(), Act::Open(L1), con()]),
        bad("sends garbage", vec![open.clone(), con(), Act::Bytes(vec![0xff; 64])]),
    ]
}

pub struct Pair {
    a: usize,
    b: usize,
    n: u32,
}
/// The well-behaved pair exchanges messages both ways; everything must arrive now.
pub fn round(s: &mut Sys, p: &mut Pair, when: &str) -> Fallible<()> {
    let (na, nb) = (s.outs(p.a).len(), s.outs(p.b).len());
    p.n += 1;
    let (m, r) = (format!("to a {}", p.n), format!("to b {}", p.n));
    s.send_pkts(p.b, &[publish("t", &m), Pkt::PingReq]);
    s.quiesce()?;
    s.send_pkts(p.a, &[Pkt::PingReq, publish("u", &r)]);
    s.quiesce()?;
    let del = |t: &str, m: &str| Out::Publish { topic: t.as_bytes().to_vec(), payload: m.as_bytes().to_vec(), qos: 0, retain: false, dup: false, id: None };
    let wa = vec![del("t", &m), Out::PingResp];
    let wb = vec![Out::PingResp, del("u", &r)];
    let (ga, gb) = (s.outs(p.a)[na..].to_vec(), s.outs(p.b)[nb..].to_vec());
    if ga != wa || gb != wb {
        return Err(Fail::new("starved", format!("{}: the subscriber received {:?} instead of {:?}; the publisher received {:?} instead of {:?}", when, ga, wa, gb, wb)));
    }
    Ok(())
}
pub fn pair(s: &mut Sys) -> Fallible<Pair> {
    let no = || Fail::new("refused", "nobody listens");
    let a = s.open(L1).ok_or_else(no)?;
    s.send_pkts(a, &[connect("good-a"), subscribe(1, &["t"])]);
    let b = s.open(L1).ok_or_else(no)?;
    s.send_pkts(b, &[connect("good-b"), subscribe(1, &["u"])]);
    s.quiesce()?;
    if s.outs(a).len() != 2 || s.outs(b).len() != 2 {
        return Err(Fail::new("starved", format!("new clients received {:?} and {:?}", s.outs(a), s.outs(b))));
    }
    Ok(Pair { a, b, n: 0 })
}
pub fn bad_act(s: &mut Sys, slot: &mut Option<usize>, a: &Act) -> Fallible<()> {
    match (a, *slot) {
        (Act::Open(l), _) => *slot = Some(s.open(l).ok_or_else(|| Fail::new("refused", "nobody listens"))?),
        (Act::AcceptError(l), _) => mc::inject_accept_error(l.parse().unwrap()),
        (Act::Send(p), Some(c)) => s.send_pkts(c, p),
        (Act::Bytes(b), Some(c)) => s.send(c, b),
        (Act::Flow(w, auto), Some(c)) => mc::set_flow(s.conns[c].net, *w, *auto),
        (Act::Close(m), Some(c)) => s.close(c, *m),
        x => unreachable!("{:?}", x),
    }
    s.quiesce()
}
pub fn finish(s: &mut Sys) -> Fallible<()> {
    s.check_panics()?;
    s.check_wellformed()?;
    if !s.running() {
        return Err(Fail::new("stopped", "the broker terminated"));
    }
    s.end();
    Ok(())
}

/// Two bad clients, their steps merged as `order` says (bit set: the second acts).
fn two_bad(x: &Bad, y: &Bad, order: u32, ctx: &Ctx) -> Fallible<()> {
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let mut p = pair(&mut s)?;
    let (mut i, mut j) = (0, 0);
    let (mut sx, mut sy) = (None, None);
    for k in 0..x.steps.len() + y.steps.len() {
        if order >> k & 1 == 0 {
            bad_act(&mut s, &mut sx, &x.steps[i])?;
            i += 1;
        } else {
            bad_act(&mut s, &mut sy, &y.steps[j])?;
            j += 1;
        }
        round(&mut s, &mut p, &format!("after step {}", k))?;
        visit(&(i, j, s.conns.iter().map(|c| (c.out.len(), c.fin_step.is_some())).collect::<Vec<_>>()));
    }
    // newcomers too
    let mut q = pair2(&mut s)?;
    round(&mut s, &mut q, "newcomers")?;
    outcome(&s.conns.iter().map(|c| c.out.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
    finish(&mut s)
}
/// The newcomers take the place of the first pair.
fn pair2(s: &mut Sys) -> Fallible<Pair> {
    pair(s)
}

/// A subscriber that does not read, then `n` messages for it, then the pair, then it reads again.
#[derive(Clone)]
struct Backlog {
    messages: usize,
    requests: usize,
    size: usize,
    window: usize,
    piped: bool,
    /// the end of the stalled client, if it never reads again
    end: Option<CloseMode>,
}
fn backlog(b: &Backlog, ctx: &Ctx) -> Fallible<()> {
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let no = || Fail::new("refused", "nobody listens");
    let mut p = pair(&mut s)?;
    let c = s.open(L1).ok_or_else(no)?;
    s.send_pkts(c, &[connect("stalled"), subscribe(1, &["s"])]);
    s.quiesce()?;
    mc::set_flow(s.conns[c].net, b.window, false);
    let text = |i: usize| {
        let mut t = format!("{}.", i);
        while t.len() < b.size {
            t.push('x');
        }
        t
    };
    let pk: Vec<Pkt> = (0..b.messages).map(|i| publish("s", &text(i))).collect();
    if b.piped {
        s.send_pkts(p.b, &pk);
    } else {
        for m in pk {
            s.send_pkts(p.b, &[m]);
            s.quiesce()?;
        }
    }
    s.quiesce()?;
    if b.requests > 0 {
        s.send_pkts(c, &vec![Pkt::PingReq; b.requests]);
        s.quiesce()?;
    }
    if let Some(m) = b.end {
        s.close(c, m);
        s.quiesce()?;
    }
    let before = (s.outs(p.a).len(), s.outs(p.b).len());
    let r = round(&mut s, &mut p, "while the other client does not read");
    visit(&(b.messages, b.requests, b.window, r.is_err()));
    // whatever happened, reading again must bring everything back
    mc::set_flow(s.conns[c].net, BIG, true);
    s.quiesce()?;
    if b.end.is_none() {
        let got: Vec<Out> = s.outs(c)[2..].to_vec();
        let mut want: Vec<Out> = (0..b.messages)
            .map(|i| Out::Publish { topic: b"s".to_vec(), payload: text(i).into_bytes(), qos: 0, retain: false, dup: false, id: None })
            .collect();
        want.extend(vec![Out::PingResp; b.requests]);
        let (gd, wd): (Vec<&Out>, Vec<&Out>) = (got.iter().filter(|o| o.is_delivery()).collect(), want.iter().filter(|o| o.is_delivery()).collect());
        if gd != wd || got.len() != want.len() {
            return Err(Fail::new("lost", format!("the client that reads again received {} of {} packets: {:?}", got.len(), want.len(), got.iter().take(5).collect::<Vec<_>>())));
        }
    }
    if r.is_err() {
        // nothing the pair sent meanwhile may be lost
        let (ga, gb) = (s.outs(p.a)[before.0..].to_vec(), s.outs(p.b)[before.1..].to_vec());
        if ga.len() != 2 || gb.len() != 2 {
            return Err(Fail::new("lost", format!("after the other client read again the pair has received {:?} and {:?}", ga, gb)));
        }
    }
    let r2 = round(&mut s, &mut p, "after the other client read again").map_err(|f| Fail::new("not-recovered", f.msg));
    outcome(&(r.is_err(), s.outs(c).len()));
    finish(&mut s)?;
    r2?;
    r.map_err(|f| Fail::new("stalled", f.msg))
}
fn backlogs(name: &str, l: Vec<Backlog>) -> Family {
    cases(name, l, backlog, |b| {
        format!(
            "{} messages of {} bytes{}, {} requests of its own, window {}{}",
            b.messages,
            b.size,
            if b.piped { " in one segment" } else { "" },
            b.requests,
            b.window,
            match b.end {
                None => String::new(),
                Some(m) => format!(", then {:?}", m),
            }
        )
    })
    .cpu_limit(60.0)
}

fn c14(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let (xs, ys) = (Arc::new(bads(1)), Arc::new(bads(2)));
    let mut list = vec![];
    for i in 0..xs.len() {
        for j in i..ys.len() {
            let n = (xs[i].steps.len() + ys[j].steps.len()) as u32;
            for order in 0..1u32 << n {
                if order.count_ones() as usize == ys[j].steps.len() {
                    list.push((i, j, order));
                }
            }
        }
    }
    let (x1, y1, x2, y2) = (xs.clone(), ys.clone(), xs.clone(), ys.clone());
    v.push(cases(
        "two bad clients",
        list,
        move |(i, j, o), ctx| two_bad(&x1[*i], &y1[*j], *o, ctx),
        move |(i, j, o)| format!("1: {}; 2: {}; order {:b}", x2[*i].name, y2[*j].name, o),
    ));
    // crowds of one kind
    let mut list = vec![];
    for (i, b) in xs.iter().enumerate() {
        if b.name.starts_with("floods") {
            continue;
        }
        for n in [2usize, 16, 31, 32, 33, 34, 64, 65, 130, 260, tier.pick(520, 1100)] {
            list.push((i, n));
        }
    }
    let x2 = xs.clone();
    v.push(
        cases(
            "crowds",
            list,
            |(i, n), ctx| {
                let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
                let mut p = pair(&mut s)?;
                for k in 0..*n {
                    let b = &bads(k)[*i];
                    let mut slot = None;
                    for a in &b.steps {
                        bad_act(&mut s, &mut slot, a)?;
                    }
                }
                // one round only: those who do not read get one message each
                round(&mut s, &mut p, "after the crowd")?;
                visit(&(*i, *n));
                outcome(&s.outs(p.a));
                let mut q = pair(&mut s)?;
                round(&mut s, &mut q, "newcomers after the crowd")?;
                finish(&mut s)
            },
            move |(i, n)| format!("{} clients: {}", n, x2[*i].name),
        )
        .cpu_limit(120.0),
    );
    // a client that does not read: every backlog within its queue
    let mut l = vec![];
    for messages in 0..=30usize {
        for (requests, size) in [(0, 8), (2, 8), (0, 300), (0, 5000)] {
            for window in [0usize, 1, 100, 5000] {
                for piped in [false, true] {
                    if messages + requests > 30 {
                        continue;
                    }
                    for end in [None, Some(CloseMode::Reset), Some(CloseMode::Fin)] {
                        l.push(Backlog { messages, requests, size, window, piped, end });
                    }
                }
            }
        }
    }
    for requests in 0..=30 {
        for window in [0, 1, 7] {
            l.push(Backlog { messages: 0, requests, size: 8, window, piped: true, end: None });
        }
    }
    v.push(backlogs("client that does not read, backlog within its queue", l));
    // beyond its queue, then it goes away: nobody may stay blocked
    let mut l = vec![];
    for n in (31..=80).chain([100, 129, 200]) {
        for (m, r) in [(n, 0), (0, n)] {
            for end in [CloseMode::Reset, CloseMode::Close] {
                for window in [0, 10] {
                    l.push(Backlog { messages: m, requests: r, size: 8, window, piped: true, end: Some(end) });
                }
            }
        }
    }
    v.push(backlogs("client that does not read, backlog beyond its queue, then vanishes", l));
    let mut l = vec![];
    for n in (33..=70).chain([100, 150, 200]) {
        for (m, r) in [(n, 0), (0, n), (n / 2, n - n / 2)] {
            for window in [0, 10] {
                l.push(Backlog { messages: m, requests: r, size: 8, window, piped: true, end: None });
            }
        }
    }
    v.push(backlogs("client that does not read, backlog beyond its queue", l));

    // schedules: the pair (0 and 1) races a bad client (2); it reads again once the pair was served
    let mut scripts = vec![];
    let open = |s: &mut Script| s.setup = [join(0, "A", &["t"]), join(1, "B", &[])].concat();
    let pairacts = || {
        vec![
            vec![send(1, &[publish("t", ""), Pkt::PingReq]), when(1, Act::Send(vec![publish("t", "")]), Guard::Got(1, 2))],
            vec![when(0, Act::Send(vec![Pkt::PingReq]), Guard::Got(0, 3))],
        ]
    };
    let served = || vec![Guard::Got(0, 5), Guard::Got(1, 2)];
    for (name, acts) in [
        ("does not read", vec![Act::Send(vec![subscribe(5, &["t"]), Pkt::PingReq])]),
        ("does not read and publishes", vec![Act::Send(vec![subscribe(5, &["#"]), publish("t", "z"), publish("q", "z")])]),
        ("does not read and disconnects", vec![Act::Send(vec![subscribe(5, &["t"])]), Act::Send(vec![Pkt::Disconnect])]),
        ("does not read and sends half a packet", vec![Act::Send(vec![subscribe(5, &["t"])]), Act::Bytes(vec![0x30, 0x09, 0])]),
    ] {
        let mut s = script(format!("client {}", name), 3);
        open(&mut s);
        s.setup.extend(join(2, "C", &[]));
        s.setup.push(st(2, Act::Flow(0, false)));
        s.par = pairacts();
        s.par.push(acts.into_iter().map(|a| st(2, a)).collect());
        s.par.push(vec![Step { c: 2, act: Act::Flow(BIG, true), when: served() }]);
        s.flow = true;
        // what the bad client publishes changes how much the pair sees; order is not the matter here
        scripts.push(s);
    }
    for (name, acts) in [
        ("stays silent", vec![Act::Open(L1)]),
        ("sends half a CONNECT", vec![Act::Open(L1), Act::Bytes(connect("C").encode()[..6].to_vec())]),
        ("connects, subscribes, vanishes", vec![Act::Open(L1), Act::Send(vec![connect("C"), subscribe(5, &["t"])]), Act::Close(CloseMode::Reset)]),
        ("connects, floods, vanishes", vec![Act::Open(L1), Act::Send([vec![connect("C")], vec![publish("x", "y"); 6]].concat()), Act::Close(CloseMode::Reset)]),
        ("cannot be accepted", vec![Act::AcceptError(L1), Act::Open(L1), Act::Send(vec![connect("C")])]),
    ] {
        let mut s = script(format!("client {}", name), 3);
        open(&mut s);
        s.par = pairacts();
        s.par.push(acts.into_iter().map(|a| st(2, a)).collect());
        scripts.push(s);
    }
    let fair = |_: &Script, h: &History| {
        if h.log.iter().any(|l| l.contains("waits forever")) {
            return Err(Fail::new("starved", format!("{:?}", h.log.last())));
        }
        Ok(())
    };
    let deep: Vec<Script> = scripts.iter().filter(|s| tier.thorough() || ["client does not read", "client connects, subscribes, vanishes"].contains(&s.name.as_str())).cloned().collect();
    v.push(family_with("bad client racing the pair", scripts, 1, fair));
    v.push(family_with("bad client racing the pair, deeper", deep, tier.pick(2, 3), fair));
    v.extend(super::more2::c14(tier));
    v.extend(super::more8::c14(tier));
    v.extend(super::more10::c14(tier));
    v
}

// ------------------------------------------------------------------ C15

fn stopped(h: &History) -> Fallible<()> {
    if !h.terminated {
        return Err(Fail::new("not-stopped", "the broker got the interrupt and has not terminated"));
    }
    Ok(())
}

/// After the interrupt everything is quiet: fire whatever timers there are, then judge.
fn after_interrupt(s: &mut Sys) -> Fallible<()> {
    let mut n = 0;
    while s.running() && n < 200 {
        if !mc::fire_timers() {
            break;
        }
        s.quiesce()?;
        n += 1;
    }
    s.check_panics()?;
    s.check_wellformed()?;
    if s.running() {
        return Err(Fail::new("not-stopped", "the broker got the interrupt, everything is quiet, and it has not terminated"));
    }
    let l = mc::listeners();
    if !l.is_empty() {
        return Err(Fail::new("listening", format!("the broker has terminated and still listens on {:?}", l)));
    }
    Ok(())
}

/// A history, and the interrupt after `steps` further task steps in its middle.
pub struct Story {
    pub name: String,
    pub config: String,
    pub steps: Vec<(usize, Act)>,
}
pub fn stories() -> Vec<Story> {
    let mut v = vec![];
    let mut add = |name: &str, steps: Vec<(usize, Act)>| v.push(Story { name: name.into(), config: env().cfg1.clone(), steps });
    let o = |c| (c, Act::Open(L1));
    let s = |c, p: Vec<Pkt>| (c, Act::Send(p));
    add("idle", vec![]);
    add("one connection", vec![o(0), s(0, vec![connect("A")]), s(0, vec![Pkt::PingReq]), s(0, vec![Pkt::Disconnect])]);
    add("refused", vec![o(0), s(0, vec![connect_as("A", "alice", Some("nope"))])]);
    add("silent and half packets", vec![o(0), o(1), (1, Act::Bytes(vec![0x10])), o(2), s(2, vec![connect("A")]), (2, Act::Bytes(vec![0x30, 0x7f, 0]))]);
    add("publish and deliver", vec![o(0), s(0, vec![connect("A"), subscribe(1, &["#"])]), o(1), s(1, vec![connect("B"), publish("a", "1"), publish("b", "2"), publish("c", "3")])]);
    add("take-over", vec![o(0), s(0, vec![connect("A"), subscribe(1, &["#"])]), o(1), s(1, vec![connect("A"), publish("a", "1")]), s(0, vec![Pkt::PingReq])]);
    add("closes", vec![o(0), s(0, vec![connect("A"), subscribe(1, &["#"])]), o(1), s(1, vec![connect("B")]), (0, Act::Close(CloseMode::Reset)), s(1, vec![publish("a", "1")]), (1, Act::Close(CloseMode::Fin))]);
    add("accept errors", vec![(0, Act::AcceptError(L1)), o(0), (0, Act::AcceptError(L1)), s(0, vec![connect("A"), Pkt::PingReq])]);
    add("malformed", vec![o(0), s(0, vec![connect("A")]), (0, Act::Bytes(vec![0xf0, 0x01, 0x00])), o(1), (1, Act::Bytes(vec![0, 0, 0, 0]))]);
    add("pipelined burst", vec![o(0), s(0, vec![connect("A"), subscribe(1, &["x"])]), o(1), s(1, [vec![connect("B")], (0..70).map(|i| publish("x", &i.to_string())).collect()].concat())]);
    add("own burst", vec![o(0), s(0, [vec![connect("A"), subscribe(1, &["x"])], (0..40).map(|i| publish("x", &i.to_string())).collect()].concat())]);
    for (n, name) in [(10, "stalled subscriber, short backlog"), (33, "stalled subscriber, queue full"), (34, "stalled subscriber, handler blocked"), (80, "stalled subscriber, every queue full"), (150, "stalled subscriber, publisher blocked too")] {
        add(
            name,
            vec![
                o(0),
                s(0, vec![connect("A"), subscribe(1, &["x"])]),
                (0, Act::Flow(0, false)),
                o(1),
                s(1, vec![connect("B")]),
                s(1, (0..n).map(|i| publish("x", &i.to_string())).collect()),
                o(2),
                s(2, vec![connect("C"), Pkt::PingReq]),
            ],
        );
    }
    for (n, name) in [(20, "stalled requester"), (40, "stalled requester, handler blocked"), (120, "stalled requester, every queue full")] {
        add(name, vec![o(0), s(0, vec![connect("A")]), (0, Act::Flow(0, false)), s(0, vec![Pkt::PingReq; n]), o(1), s(1, vec![connect("B"), Pkt::PingReq])]);
    }
    add(
        "stalled, then vanished",
        vec![o(0), s(0, vec![connect("A"), subscribe(1, &["x"])]), (0, Act::Flow(0, false)), o(1), s(1, vec![connect("B")]), s(1, (0..50).map(|i| publish("x", &i.to_string())).collect()), (0, Act::Close(CloseMode::Reset)), s(1, vec![Pkt::PingReq])],
    );
    add("many connections", (0..40).flat_map(|c| vec![o(c), s(c, vec![connect(&format!("c{}", c)), subscribe(1, &["x"]), publish("x", "y")])]).collect());
    for (i, p) in kinds().into_iter().enumerate() {
        add(&format!("packet kind {} {:?}", i, p), vec![o(0), s(0, vec![connect("A")]), s(0, vec![p.clone(), Pkt::PingReq]), o(1), s(1, vec![p])]);
    }
    for (cfg, ls) in [(&env().cfg2, &[L1, L2][..]), (&env().cfg3, &[L1, L2, L3][..])] {
        let mut steps = vec![];
        for (c, l) in ls.iter().enumerate() {
            steps.push((c, Act::Open(l)));
            steps.push(s(c, vec![connect(&format!("c{}", c)), subscribe(1, &["x"]), publish("x", "y")]));
            steps.push((c, Act::AcceptError(l)));
        }
        v.push(Story { name: format!("{} listeners", ls.len()), config: cfg.clone(), steps });
    }
    v
}

fn story_act(s: &mut Sys, slots: &mut Vec<Option<usize>>, c: usize, a: &Act) {
    while slots.len() <= c {
        slots.push(None);
    }
    match (a, slots[c]) {
        // after the interrupt nobody needs to listen any more
        (Act::Open(l), _) => slots[c] = s.open(l),
        (Act::AcceptError(l), _) => {
            if mc::listeners().contains(&l.parse().unwrap()) {
                mc::inject_accept_error(l.parse().unwrap())
            }
        }
        (_, None) => {}
        (Act::Send(p), Some(k)) => s.send_pkts(k, p),
        (Act::Bytes(b), Some(k)) => s.send(k, b),
        (Act::Flow(w, au), Some(k)) => mc::set_flow(s.conns[k].net, *w, *au),
        (Act::Close(m), Some(k)) => s.close(k, *m),
        x => unreachable!("{:?}", x),
    }
}

/// The story up to a step, then time passes, the rest, and the interrupt.
pub fn tell_slowly(st: &Story, split: usize, secs: u64, ctx: &Ctx) -> Fallible<()> {
    let mut s = Sys::boot(&st.config, vec![], Explore::default(), ctx.trace)?;
    let mut slots = vec![];
    for (i, (c, a)) in st.steps.iter().enumerate() {
        if i == split {
            s.idle(secs)?;
        }
        story_act(&mut s, &mut slots, *c, a);
        s.quiesce()?;
    }
    if split == st.steps.len() {
        s.idle(secs)?;
    }
    if !s.running() {
        return Err(Fail::new("stopped", "the broker terminated without an interrupt"));
    }
    s.interrupt();
    s.quiesce()?;
    visit(&(s.conns.iter().map(|c| (c.out.len(), c.fin_step.is_some())).collect::<Vec<_>>(), s.running()));
    outcome(&s.conns.iter().map(|c| c.out.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
    after_interrupt(&mut s).map_err(|f| f.ctx(format!("{} s after step {} of {:?}", secs, split, st.name)))?;
    s.end();
    Ok(())
}

/// How many task steps the story takes altogether (on the default schedule).
fn tell(st: &Story, stop_after: Option<u64>, ctx: &Ctx) -> Fallible<(u64, bool)> {
    let mut s = Sys::boot(&st.config, vec![], Explore::default(), ctx.trace)?;
    let mut slots: Vec<Option<usize>> = vec![];
    let mut polls = 0u64;
    let mut sent = false;
    let stop = stop_after.unwrap_or(u64::MAX);
    if stop == 0 {
        s.interrupt();
        sent = true;
    }
    for (c, a) in &st.steps {
        story_act(&mut s, &mut slots, *c, a);
        let mut guard = 0;
        while s.runnable() > 0 {
            s.run_task(0)?;
            polls += 1;
            guard += 1;
            if guard > 400_000 {
                return Err(Fail::new("livelock", "the broker does not become quiet"));
            }
            if !sent && polls >= stop {
                s.interrupt();
                sent = true;
            }
        }
    }
    if stop_after.is_none() {
        s.end();
        return Ok((polls, false));
    }
    if !sent {
        s.interrupt();
        sent = true;
    }
    s.quiesce()?;
    visit(&(s.conns.iter().map(|c| (c.out.len(), c.fin_step.is_some())).collect::<Vec<_>>(), s.running()));
    outcome(&s.conns.iter().map(|c| c.out.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
    after_interrupt(&mut s).map_err(|f| f.ctx(format!("interrupt after {} task steps of {:?}", stop, st.name)))?;
    // a second signal must do no harm
    s.interrupt();
    s.quiesce()?;
    s.check_panics()?;
    s.check_wellformed()?;
    s.end();
    Ok((polls, sent))
}

fn c15(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // how long each story takes is measured once, on an execution thread of its own
    let all = Arc::new(stories());
    let mut list = vec![];
    for (i, s) in all.iter().enumerate() {
        let n = std::thread::scope(|sc| {
            sc.spawn(|| {
                let r = tell(s, None, &Ctx { devs: vec![], trace: false });
                r.map(|x| x.0).unwrap_or(2000)
            })
            .join()
            .unwrap_or(2000)
        });
        let n = n.min(tier.pick(1500, 20_000));
        for k in 0..=n + 1 {
            list.push((i, k));
        }
    }
    let s2 = all.clone();
    v.push(
        cases("interrupt after every task step", list, move |(i, k), ctx| tell(&all[*i], Some(*k), ctx).map(|_| ()), move |(i, k)| format!("{}, interrupt after {} task steps", s2[*i].name, k))
            .cpu_limit(60.0),
    );

    // schedules: the interrupt is one more client step
    let int = || vec![st_int()];
    let mut scripts = vec![];
    let mut s = script("idle", 1);
    s.par = vec![int()];
    scripts.push(s);
    let mut s = script("during a connect", 2);
    s.par = vec![vec![opens(0), send(0, &[connect("A"), Pkt::PingReq])], int(), vec![opens(1)]];
    scripts.push(s);
    let mut s = script("with packets queued", 2);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &[])].concat();
    s.par = vec![vec![send(1, &[publish("a", ""), publish("a", ""), Pkt::PingReq])], int(), vec![send(0, &[Pkt::PingReq, unsubscribe(3, &["a"])])]];
    scripts.push(s);
    let mut s = script("during a disconnect", 2);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &[])].concat();
    s.par = vec![vec![send(0, &[Pkt::Disconnect])], int(), vec![send(1, &[publish("a", "")]), st(1, Act::Close(CloseMode::Reset))]];
    scripts.push(s);
    let mut s = script("during a take-over", 2);
    s.setup = join(0, "A", &["a"]);
    s.par = vec![vec![opens(1), send(1, &[connect("A"), publish("a", "")])], int(), vec![send(0, &[publish("a", "")])]];
    scripts.push(s);
    let mut s = script("two listeners", 2);
    s.config = env().cfg2.clone();
    s.par = vec![vec![opens(0), send(0, &[connect("A")])], vec![st(1, Act::Open(L2)), send(1, &[connect("B")])], int()];
    scripts.push(s);
    let mut s = script("accept error", 1);
    s.par = vec![vec![st(0, Act::AcceptError(L1)), opens(0), send(0, &[connect("A")])], int()];
    scripts.push(s);
    let mut s = script("two interrupts", 1);
    s.setup = join(0, "A", &["a"]);
    s.par = vec![int(), int(), vec![send(0, &[publish("a", "")])]];
    scripts.push(s);
    let mut s = script("client does not read", 2);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &[]), vec![st(0, Act::Flow(1, false))]].concat();
    s.par = vec![vec![send(1, &[publish("a", ""), publish("a", "")])], int(), vec![st(0, Act::Read(3))]];
    s.flow = true;
    scripts.push(s);
    v.push(family_with("interrupt amid schedules", scripts, tier.pick(2, 3), |_, h| stopped(h)).cpu_limit(60.0));
    let mut scripts = vec![];
    let mut s = script("handler blocked by a client that does not read", 3);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &[]), vec![st(0, Act::Flow(0, false)), send(1, &vec![publish("a", "m"); 36]), opens(2), send(2, &[connect("C")])]].concat();
    s.par = vec![vec![send(1, &[Pkt::PingReq])], int(), vec![send(2, &[Pkt::PingReq])]];
    s.flow = true;
    scripts.push(s);
    let mut s = script("every queue full", 3);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &[]), vec![st(0, Act::Flow(0, false)), send(1, &vec![publish("a", "m"); 140]), opens(2), send(2, &[connect("C")])]].concat();
    s.par = vec![int(), vec![st(0, Act::Close(CloseMode::Reset))]];
    s.flow = true;
    scripts.push(s);
    v.push(family_with("interrupt amid schedules, queues full", scripts, tier.pick(1, 2), |_, h| stopped(h)).cpu_limit(60.0));
    v.extend(super::more2::c15(tier));
    v.extend(super::more7::c15(tier));
    v.extend(super::more10::c15(tier));
    v
}
fn st_int() -> Step {
    st(0, Act::Interrupt)
}
