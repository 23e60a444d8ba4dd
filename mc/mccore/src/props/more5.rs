//! Further families: the order of messages of different forms, take-overs of clients that do not read.
use super::routing::order_family;
use crate::codec::*;
use crate::explore::*;
use crate::model::*;
use crate::report::*;
use crate::script::*;
use crate::sys::*;
use std::sync::Arc;
use crate::env::{env, USERS};
use tokio::mc::{self, CloseMode, Explore};

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug)]
struct Form {
    size: usize,
    topic: &'static str,
    qos: u8,
    retain: bool,
    dup: bool,
}

/// "<who>.<n> ....": a tag, then padding up to the size.
fn padded(who: &str, n: usize, size: usize) -> String {
    let mut s = format!("{}.{}", who, n);
    if s.len() < size {
        s.push(' ');
        while s.len() < size {
            s.push((b'a' + (s.len() % 26) as u8) as char);
        }
    }
    s
}

fn form(f: &Form, who: &str, n: usize) -> Pkt {
    Pkt::Publish { topic: f.topic.into(), payload: padded(who, n, f.size).into_bytes(), qos: f.qos, retain: f.retain, dup: f.dup, id: if f.qos > 0 { n as u16 } else { 0 } }
}

const LONG: &str = "a/ltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltltlt/end";

pub fn c03(tier: Tier) -> Vec<Family> {
    let plain = Form { size: 0, topic: "a", qos: 0, retain: false, dup: false };
    let mut forms = vec![plain.clone()];
    for size in tier.pick(vec![100, 130, 1000, 1500, 4080, 4090, 4097, 8200, 20_000, 70_000], vec![100, 127, 130, 256, 260, 512, 600, 1000, 1024, 1500, 2048, 2100, 4080, 4090, 4097, 8192, 8200, 16_384, 20_000, 65_536, 70_000, 140_000]) {
        forms.push(Form { size, ..plain.clone() });
    }
    for topic in ["a/b", "a/b/c/d/e/f", LONG, "a//", "a/\u{e9}", "$SYS/a", "b"] {
        forms.push(Form { topic, ..plain.clone() });
    }
    for qos in 0..3 {
        for retain in [false, true] {
            for dup in [false, true] {
                if (qos, retain, dup) != (0, false, false) && !(qos == 0 && dup) {
                    forms.push(Form { qos, retain, dup, ..plain.clone() });
                }
            }
        }
    }
    // which forms follow one another: every pair, in one segment or several, and runs of alternating forms
    let mut lists: Vec<(Vec<Form>, bool, usize)> = vec![];
    for a in &forms {
        for b in &forms {
            lists.push((vec![a.clone(), b.clone()], true, 0));
            lists.push((vec![a.clone(), b.clone(), a.clone(), b.clone(), a.clone(), b.clone()], true, 0));
            lists.push((vec![a.clone(), b.clone(), plain.clone()], false, 0));
            lists.push((vec![a.clone(), b.clone(), b.clone(), a.clone()], true, 64));
        }
    }
    let scripts = lists
        .into_iter()
        .map(|(list, together, win)| {
            let mut s = script(format!("{:?} in {} segments, window {}", list.iter().map(|f| (f.size, f.topic, f.qos, f.retain, f.dup)).collect::<Vec<_>>(), if together { "one" } else { "several" }, win), 3);
            s.mask = DELIVERIES;
            s.setup = [join(0, "S", &["#", "$SYS/#"]), join(2, "T", &["a/#", "a", "$SYS/a", "+"]), join(1, "P", &[])].concat();
            let pk: Vec<Pkt> = list.iter().enumerate().map(|(i, f)| form(f, "P", i + 1)).collect();
            s.par = vec![if together { vec![send(1, &pk)] } else { pk.iter().map(|p| send(1, &[p.clone()])).collect() }];
            if win > 0 {
                s.flow = true;
                s.setup.push(st(0, Act::Flow(win, true)));
            }
            s
        })
        .collect();
    let mut v = vec![order_family("forms of messages", scripts, tier.pick(0, 1)).cpu_limit(60.0)];
    // a message unlike the others among many, the reader stalls
    let mut scripts = vec![];
    for f in &forms {
        for (n, at) in tier.pick(vec![(3usize, 1usize), (40, 5), (40, 36)], vec![(3, 0), (3, 1), (3, 2), (40, 1), (40, 5), (40, 31), (40, 32), (40, 33), (40, 36), (100, 50)]) {
            let mut s = script(format!("{:?} is no. {} of {}", f, at, n), 3);
            s.mask = DELIVERIES;
            s.flow = n > 3;
            s.setup = [join(0, "S", &["#", "$SYS/#"]), join(1, "P", &[])].concat();
            if s.flow {
                s.setup.push(st(0, Act::Flow(10, false)));
            }
            let pk: Vec<Pkt> = (0..n).map(|i| form(if i == at { f } else { &plain }, "P", i + 1)).collect();
            s.par = vec![vec![send(1, &pk)]];
            if s.flow {
                s.par.push(vec![st(0, Act::Read(30)), st(0, Act::Flow(usize::MAX, true))]);
            }
            scripts.push(s);
        }
    }
    v.push(order_family("one message unlike the others", scripts, tier.pick(1, 2)).cpu_limit(60.0));
    // many topics: whatever is kept per topic, per filter or per client must not reorder
    let mut scripts = vec![];
    for n in tier.pick(vec![20usize, 100], vec![20, 40, 100, 300, 1000]) {
        for filters in [vec!["#"], vec!["+", "+/x"], vec!["#", "+"]] {
            for seg in [1usize, 7, n] {
                let mut s = script(format!("{} topics, {:?}, {} per segment", n, filters, seg), 2);
                s.mask = DELIVERIES;
                s.setup = [join(0, "S", &filters), join(1, "P", &[])].concat();
                let pk: Vec<Pkt> = (0..n).map(|i| publish(&if i % 3 == 0 { format!("t{}/x", i) } else { format!("t{}", i * 31 % 17) }, &padded("P", i + 1, i % 50))).collect();
                s.par = vec![pk.chunks(seg).map(|c| send(1, c)).collect()];
                scripts.push(s);
            }
        }
    }
    v.push(order_family("many topics", scripts, tier.pick(0, 1)).cpu_limit(60.0));
    v
}

// ------------------------------------------------------------------ C07

/// #0 = the older connection `A`, which has stopped reading; #1, #3 take its id over; #2 = publisher.
pub fn c07(tier: Tier) -> Vec<Family> {
    #[derive(Clone)]
    struct Case {
        s: Script,
        /// what #1 must have received in the end, and whether it must be closed
        want: Vec<Out>,
        closed: bool,
        /// what the older one must have received before the end, if it reads everything
        drained: Option<usize>,
    }
    let resume = || st(0, Act::Flow(usize::MAX, true));
    let mut list: Vec<Case> = vec![];
    let ks: Vec<usize> = tier.pick(vec![0, 1, 2, 3, 16, 30, 31, 32, 33, 34, 35, 36, 40, 66, 70], (0..=80).collect());
    for k in ks {
        for win in tier.pick(vec![1usize], vec![1, 5, 8, 100]) {
            for (how, end) in [("reads on", None), ("closes", Some(CloseMode::Close)), ("resets", Some(CloseMode::Reset)), ("times out", Some(CloseMode::Failed(libc::ETIMEDOUT))), ("is cut off", Some(CloseMode::Failed(libc::EHOSTUNREACH)))] {
                for both in [false, true] {
                    let mut s = script(format!("{} messages wait for the older connection (window {}), which then {}{}", k, win, how, if both { "; taken over twice" } else { "" }), 4);
                    s.flow = true;
                    s.setup = [join(0, "A", &["a"]), join(2, "P", &[])].concat();
                    s.setup.push(st(0, Act::Flow(win, false)));
                    if k > 0 {
                        s.setup.push(send(2, &vec![publish("a", "w"); k]));
                    }
                    let mut take = vec![opens(1), send(1, &[connect("A"), subscribe(1, &["b"])])];
                    if both {
                        // otherwise nothing decides which of the two comes first
                        take.push(when(3, Act::Open(L1), Guard::Got(1, 2)));
                        take.push(send(3, &[connect("A"), subscribe(1, &["c"])]));
                    }
                    s.par = vec![
                        take,
                        vec![when(
                            0,
                            match end {
                                None => Act::Flow(usize::MAX, true),
                                Some(m) => Act::Close(m),
                            },
                            Guard::Quiet,
                        )],
                    ];
                    if end.is_none() {
                        s.finale.push(resume());
                    }
                    s.finale.push(send(2, &[publish("a", "1"), publish("b", "2"), publish("c", "3")]));
                    s.finale.push(send(if both { 3 } else { 1 }, &[Pkt::PingReq]));
                    let d = |t: &str, p: &str| Out::Publish { topic: t.into(), payload: p.into(), qos: 0, retain: false, dup: false, id: None };
                    let want = if both { vec![Out::ConnAck { sp: 0, rc: 0 }, Out::SubAck { id: 1, codes: vec![0] }, d("c", "3"), Out::PingResp] } else { vec![Out::ConnAck { sp: 0, rc: 0 }, Out::SubAck { id: 1, codes: vec![0] }, d("b", "2"), Out::PingResp] };
                    list.push(Case { s, want, closed: both, drained: end.is_none().then_some(k) });
                }
            }
        }
    }
    let a = Arc::new(list);
    let b = a.clone();
    vec![Family::new(
        "the older connection does not read",
        a.len() as u64,
        move |i, ctx| {
            let c = &a[i as usize];
            let h = run(&c.s, ctx)?;
            let now = if c.closed { 3 } else { 1 };
            let outs = |k: usize| h.outs[k].iter().map(|o| o.0.clone()).collect::<Vec<_>>();
            if let Some(p) = h.panics.first() {
                return Err(Fail::new("panic", format!("a task of the broker panicked: {}; {}", p, describe(&h))));
            }
            if outs(now) != c.want {
                return Err(Fail::new("not-served", format!("the connection that holds the id received {:?} instead of {:?}; {}", outs(now), c.want, describe(&h))));
            }
            if h.fin[now].is_some() {
                return Err(Fail::new("closed", format!("the connection that holds the id was closed; {}", describe(&h))));
            }
            if h.fin[0].is_none() && c.drained.is_some() {
                return Err(Fail::new("not-closed", format!("the older connection was not closed although its client reads everything; {}", describe(&h))));
            }
            if c.closed && h.fin[1].is_none() {
                return Err(Fail::new("not-closed", format!("the second connection was taken over and not closed; {}", describe(&h))));
            }
            if let Some(k) = c.drained {
                let n = outs(0).iter().filter(|o| o.is_delivery()).count();
                if n > k {
                    return Err(Fail::new("extra", format!("the older connection received {} messages; only {} were published before it was taken over; {}", n, k, describe(&h))));
                }
            }
            Ok(())
        },
        move |i| b[i as usize].s.name.clone(),
    )
    .bound(tier.pick(1, 2))
    .cpu_limit(60.0)]
}

// ------------------------------------------------------------------ C26

/// One thing that happens in a round; `{}` in a name is the number of the round.
#[derive(Clone, Debug)]
enum Op {
    /// slot, client id, credentials
    Join(usize, &'static str, Option<(&'static str, Option<&'static str>)>),
    Send(usize, Pkt),
    Bytes(usize, &'static [u8]),
    End(usize, Option<CloseMode>),
    Idle(u64),
}

/// The slot of a client that stays connected in all rounds.
const STAYS: usize = 2;

/// A packet id that differs from round to round.
const ROUND: u16 = 40_000;

fn renamed(p: &Pkt, k: usize) -> Pkt {
    let r = |s: &String| s.replace("{}", &k.to_string());
    let n = |id: u16| if id == ROUND { 100 + k as u16 } else { id };
    match p {
        Pkt::Publish { topic, payload, qos, retain, dup, id } => Pkt::Publish { topic: r(topic), payload: payload.clone(), qos: *qos, retain: *retain, dup: *dup, id: n(*id) },
        Pkt::PubRel(id) => Pkt::PubRel(n(*id)),
        Pkt::Subscribe { id, filters } => Pkt::Subscribe { id: n(*id), filters: filters.iter().map(|(f, q)| (r(f), *q)).collect() },
        Pkt::Unsubscribe { id, filters } => Pkt::Unsubscribe { id: n(*id), filters: filters.iter().map(r).collect() },
        p => p.clone(),
    }
}

/// What the broker holds: tasks, sockets, bytes and blocks of memory.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
struct Held {
    tasks: usize,
    sockets: usize,
    timers: usize,
    bytes: i64,
    blocks: i64,
}
fn held() -> Held {
    let (bytes, blocks) = mc::heap::live();
    mc::with(|w| Held { tasks: w.live_tasks(), sockets: w.net.conns.iter().filter(|c| c.accepted && !(c.read_dropped && c.write_dropped)).count(), timers: w.timers_pending(), bytes, blocks })
}

fn round(s: &mut Sys, ops: &[Op], slot: &mut [Option<usize>; 3], k: usize, end: usize) -> Fallible<()> {
    let mut own: Vec<String> = vec![];
    for o in ops {
        match o {
            Op::Join(c, id, auth) => {
                if let Some(old) = slot[*c].take() {
                    s.close(old, CloseMode::Close);
                }
                let n = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
                let id = id.replace("{}", &k.to_string());
                s.send_pkts(n, &[match auth {
                    Some((u, p)) => {
                        let n = |s: &str| s.replace("{}", &k.to_string());
                        connect_as(&id, &n(u), p.map(n).as_deref())
                    }
                    None => connect(&id),
                }]);
                slot[*c] = Some(n);
            }
            Op::Send(c, p) => {
                let Some(n) = slot[*c] else { continue };
                let p = renamed(p, k);
                if let (STAYS, Pkt::Subscribe { filters, .. }) = (*c, &p) {
                    own.extend(filters.iter().map(|f| f.0.clone()));
                }
                s.send_pkts(n, &[p]);
            }
            Op::Bytes(c, b) => {
                let Some(n) = slot[*c] else { continue };
                s.send(n, b);
            }
            Op::End(c, m) => {
                let Some(n) = slot[*c].take() else { continue };
                match m {
                    None => {
                        s.send_pkts(n, &[Pkt::Disconnect]);
                        s.quiesce()?;
                        s.close(n, CloseMode::Close);
                    }
                    Some(m) => s.close(n, *m),
                }
            }
            Op::Idle(n) => s.idle(*n)?,
        }
        s.quiesce()?;
    }
    // all that came in this round goes again
    for c in 0..2 {
        if let Some(n) = slot[c].take() {
            match end {
                0 => {
                    s.send_pkts(n, &[Pkt::Disconnect]);
                    s.quiesce()?;
                    s.close(n, CloseMode::Close);
                }
                1 => s.close(n, CloseMode::Fin),
                2 => s.close(n, CloseMode::Close),
                _ => s.close(n, CloseMode::Reset),
            }
            s.quiesce()?;
        }
    }
    if !own.is_empty() {
        let n = slot[STAYS].unwrap();
        s.send_pkts(n, &[unsubscribe(9, &own.iter().map(|f| f.as_str()).collect::<Vec<_>>())]);
        s.quiesce()?;
    }
    Ok(())
}

fn judge(first: Held, at: [Held; 2], text: &dyn Fn() -> String) -> Fallible<()> {
    let text = || format!("{}; at first {:?}, then {:?} and {:?}", text(), first, at[0], at[1]);
    for h in at {
        if h.tasks > first.tasks {
            return Err(Fail::new("tasks", format!("tasks of connections that have ended remain: {}", text())));
        }
        if h.sockets > first.sockets {
            return Err(Fail::new("sockets", format!("sockets of connections that have ended remain open: {}", text())));
        }
        if h.timers > first.timers {
            return Err(Fail::new("timers", format!("timers of connections that have ended remain: {}", text())));
        }
    }
    if at[1].bytes > at[0].bytes {
        return Err(Fail::new("memory", format!("what has ended still occupies memory: {}", text())));
    }
    Ok(())
}

fn rounds(ops: &[Op], end: usize, (warm, more): (usize, usize), ctx: &Ctx) -> Fallible<()> {
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let p = s.open(L1).unwrap();
    s.send_pkts(p, &[connect("stays")]);
    s.quiesce()?;
    let mut slot = [None, None, Some(p)];
    let first = held();
    let mut at = [first; 2];
    for (i, n) in [warm, more].into_iter().enumerate() {
        for k in 0..n {
            round(&mut s, ops, &mut slot, i * warm + k, end)?;
        }
        at[i] = held();
    }
    s.check_panics()?;
    let text = || format!("{:?}, repeated {} and {} times", ops, warm, more);
    outcome(&(at[1].bytes - at[0].bytes, at[1].blocks - at[0].blocks));
    visit(&(ops.len(), at[1].tasks, at[1].sockets, at[1].bytes));
    judge(first, at, &text)?;
    sample(text);
    s.end();
    Ok(())
}

pub fn c26(tier: Tier) -> Vec<Family> {
    let mut alpha: Vec<Op> = vec![];
    for c in 0..2 {
        alpha.push(Op::Join(c, "same", None));
        alpha.push(Op::Join(c, ["a{}", "b{}"][c], None));
        alpha.push(Op::Send(c, subscribe(1, &["f{}/x", "f{}"])));
        alpha.push(Op::End(c, Some(CloseMode::Failed([libc::ETIMEDOUT, libc::EHOSTUNREACH][c]))));
        alpha.push(Op::End(c, Some(CloseMode::Reset)));
    }
    alpha.push(Op::Join(0, "", None));
    alpha.push(Op::Join(0, "u{}", Some(("alice", Some("wrong")))));
    alpha.push(Op::Send(0, subscribe(1, &["a", "+/#"])));
    alpha.push(Op::Send(0, unsubscribe(2, &["f{}/x"])));
    alpha.push(Op::Send(0, unsubscribe(2, &["g{}/unknown"])));
    alpha.push(Op::Join(0, "w", Some(("nobody{}", Some("pw{}")))));
    alpha.push(Op::Join(1, "w{}", Some(("alice", Some(USERS[0].1)))));
    alpha.push(Op::Send(0, publish("f{}", "x")));
    alpha.push(Op::Send(1, publish("a", "x")));
    alpha.push(Op::Send(0, publish_q("a", "x", 1, ROUND)));
    alpha.push(Op::Idle(100));
    alpha.push(Op::Send(0, connect("again")));
    alpha.push(Op::Send(0, Pkt::PubRel(ROUND)));
    alpha.push(Op::Send(0, Pkt::Disconnect));
    alpha.push(Op::Bytes(0, &[0x30, 5, 0, 9]));
    alpha.push(Op::Send(STAYS, subscribe(3, &["s{}/+", "s/#"])));
    alpha.push(Op::Send(STAYS, unsubscribe(4, &["s{}/+", "f{}"])));
    alpha.push(Op::Send(STAYS, publish("f{}/x", "y")));
    let alpha = Arc::new(alpha);
    let mut v = vec![];
    for d in 1..=tier.pick(3usize, 4) {
        let seqs: Vec<Vec<Op>> = crate::hist::sequences(alpha.len(), d, &|_| true).into_iter().map(|s| s.iter().map(|&i| alpha[i as usize].clone()).collect()).collect();
        v.push(
            cases(
                format!("rounds of {} steps", d),
                seqs,
                move |ops, ctx| {
                    // how the clients go: in each way, or in one that depends on the rest
                    let ends = if d <= 2 { 0..4 } else { (0..4).nth(hash(&format!("{:?}", ops)) as usize % 4).map(|e| e..e + 1).unwrap() };
                    for e in ends {
                        rounds(ops, e, (32, 32), ctx)?;
                    }
                    Ok(())
                },
                |o| format!("{:?}", o),
            )
            .cpu_limit(60.0),
        );
    }
    // two steps more for what needs a client that subscribed
    let long: Vec<Vec<Op>> = {
        let subs = [subscribe(1, &["f{}/x", "f{}"]), subscribe(1, &["f{}/a/b/c", "f{}/a", "f{}/a/b/+"]), subscribe(1, &["+/{}", "#", "{}/#"]), subscribe(1, &["f{}", "f{}"]), subscribe(ROUND, &["/", "//", "{}//{}/"])];
        let then = [
            vec![],
            vec![Op::Send(0, unsubscribe(2, &["f{}"]))],
            vec![Op::Send(0, unsubscribe(2, &["f{}/a"])), Op::Send(1, unsubscribe(2, &["f{}/a/b/+"]))],
            vec![Op::Send(0, unsubscribe(2, &["f{}/a/b/c", "f{}/x", "f{}", "f{}/zz", "+/{}"]))],
            vec![Op::Join(1, "j{}", None)],
            vec![Op::Send(1, Pkt::Disconnect), Op::Send(STAYS, publish("f{}/a", "x"))],
            vec![Op::End(0, Some(CloseMode::Close)), Op::Send(1, publish("f{}/a/b/c", "x"))],
        ];
        let mut l = vec![];
        for a in &subs {
            for b in &subs {
                for x in &then {
                    for y in &then {
                        l.push([vec![Op::Join(0, "i{}", None), Op::Join(1, "j{}", None), Op::Send(0, a.clone()), Op::Send(1, b.clone())], x.clone(), y.clone()].concat());
                    }
                }
            }
        }
        l
    };
    v.push(
        cases(
            "rounds with two subscribers",
            long,
            |ops, ctx| {
                for e in 0..4 {
                    rounds(ops, e, (32, 32), ctx)?;
                }
                Ok(())
            },
            |o| format!("{:?}", o),
        )
        .cpu_limit(60.0),
    );
    // clients that go while something waits for them
    let mut waits: Vec<(usize, usize, usize, bool)> = vec![];
    for k in tier.pick(vec![1usize, 5, 31, 32, 33, 34, 35, 64, 70], (0..=80).collect()) {
        for win in [0usize, 1, 50] {
            for end in 0..5 {
                for over in [false, true] {
                    waits.push((k, win, end, over));
                }
            }
        }
    }
    v.push(
        cases(
            "clients that go while something waits for them",
            waits,
            |&(k, win, end, over), ctx| {
                let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
                let p = s.open(L1).unwrap();
                s.send_pkts(p, &[connect("stays")]);
                s.quiesce()?;
                let first = held();
                let mut at = [first; 2];
                for i in 0..64 {
                    let c = s.open(L1).unwrap();
                    let id = format!("c{}", i);
                    s.send_pkts(c, &[connect(&id), subscribe(1, &[&format!("f{}", i)])]);
                    s.quiesce()?;
                    mc::set_flow(s.conns[c].net, win, false);
                    for _ in 0..k {
                        s.send_pkts(p, &[publish(&format!("f{}", i), "0123456789012345678901234567890123456789")]);
                    }
                    s.quiesce()?;
                    let again = over.then(|| s.open(L1).unwrap());
                    if let Some(d) = again {
                        s.send_pkts(d, &[connect(&id)]);
                        s.quiesce()?;
                    }
                    match end {
                        0 => {
                            // reads on, then goes
                            mc::set_flow(s.conns[c].net, usize::MAX, true);
                            s.quiesce()?;
                            s.close(c, CloseMode::Close);
                        }
                        1 => s.close(c, CloseMode::Close),
                        3 => s.close(c, CloseMode::Failed(libc::ETIMEDOUT)),
                        4 => s.close(c, CloseMode::Failed(libc::EIO)),
                        _ => s.close(c, CloseMode::Reset),
                    }
                    s.quiesce()?;
                    if let Some(d) = again {
                        s.close(d, CloseMode::Reset);
                        s.quiesce()?;
                    }
                    if i % 32 == 31 {
                        at[i / 32] = held();
                    }
                }
                judge(first, at, &|| format!("{} messages wait, window {}, the client then {}{}", k, win, ["reads on", "closes", "resets", "times out", "fails"][end], if over { ", its id taken over before" } else { "" }))?;
                s.check_panics()?;
                s.end();
                Ok(())
            },
            |x| format!("{:?}", x),
        )
        .cpu_limit(60.0),
    );
    // schedules
    let mut scripts = vec![];
    let base = |name: &str| {
        let mut s = script(name, 4);
        s.setup = join(3, "stays", &["p"]);
        s
    };
    for (n, m) in [("half closes", CloseMode::Fin), ("closes", CloseMode::Close), ("resets", CloseMode::Reset), ("times out", CloseMode::Failed(libc::ETIMEDOUT))] {
        let mut s = base(&format!("a client connects, subscribes and {} while another publishes", n));
        s.par = vec![vec![opens(0), send(0, &[connect("A"), subscribe(1, &["a"])]), st(0, Act::Close(m))], vec![send(3, &[publish("a", ""), publish("a", "")])]];
        scripts.push(s);
        let mut s = base(&format!("two clients with one id; the first {}", n));
        s.par = vec![vec![opens(0), send(0, &[connect("A"), subscribe(1, &["a"])]), st(0, Act::Close(m))], vec![opens(1), send(1, &[connect("A"), publish("a", ""), Pkt::Disconnect])]];
        s.finale = vec![st(1, Act::Close(CloseMode::Close))];
        scripts.push(s);
        let mut s = base(&format!("a client is refused and {}", n));
        s.par = vec![vec![opens(0), send(0, &[connect_as("A", "alice", Some("wrong"))]), st(0, Act::Close(m))], vec![opens(1), st(1, Act::Bytes(vec![0x10, 200])), st(1, Act::Close(m))]];
        scripts.push(s);
        let mut s = base(&format!("a client disconnects and {}", n));
        s.setup.extend(join(0, "A", &["a", "b"]));
        s.par = vec![vec![send(0, &[publish("a", ""), Pkt::Disconnect]), st(0, Act::Close(m))], vec![send(3, &[publish("a", ""), publish("b", "")])]];
        scripts.push(s);
        let mut s = base(&format!("a client sends garbage and {}", n));
        s.setup.extend(join(0, "A", &["a", "b"]));
        s.par = vec![vec![st(0, Act::Bytes(vec![0x30, 5, 0, 9])), st(0, Act::Close(m))], vec![send(3, &[publish("a", ""), publish("b", "")])]];
        scripts.push(s);
    }
    for s in &mut scripts {
        // those that half closed go for good
        s.finale.push(st(0, Act::Close(CloseMode::Close)));
    }
    let a = Arc::new(scripts);
    let b = a.clone();
    v.push(
        Family::new(
            "schedules",
            a.len() as u64,
            move |i, ctx| {
                let s = &a[i as usize];
                let mut r = Runner::boot(s, ctx)?;
                r.sequential(&s.setup[..s.setup.len().min(2)])?;
                let first = held();
                r.sequential(&s.setup[2..])?;
                r.concurrent(&s.par)?;
                r.sequential(&s.finale)?;
                let h = r.history();
                r.sys.check_panics()?;
                outcome(&h.outs.iter().map(|o| o.iter().map(|x| &x.0).collect::<Vec<_>>()).collect::<Vec<_>>());
                sample(|| describe(&h));
                let now = held();
                judge(Held { bytes: 0, ..first }, [Held { bytes: 0, ..now }; 2], &|| describe(&h))?;
                r.sys.end();
                Ok(())
            },
            move |i| b[i as usize].name.clone(),
        )
        .bound(tier.pick(2, 3)),
    );
    v.extend(super::more8::c26(tier));
    v
}
