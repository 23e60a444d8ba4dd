//! Who receives what: C01-C04, C21-C23, C25.
use crate::codec::*;
use crate::env::{env, USERS};
use crate::explore::*;
use crate::hist::*;
use crate::model::*;
use crate::report::*;
use crate::script::*;
use crate::sys::*;
use tokio::mc::{self, CloseMode, Explore};

pub const WORLD: &str = "network, clock, signal and task scheduler are replaced by the explorer's (tokio shim); one broker task runs at a time, switching at await points and channel operations; sockets are reliable FIFO byte streams; families named \"real binary\" run the unmodified program on the real runtime and kernel instead, whose schedules are not controlled";

pub const RELIABLE: &str = "tokio's channels, select! and I/O adapters are the real ones; their internal memory-ordering is trusted";
pub const SMALL: &str = "small scope: bugs that need more clients, longer histories or more deviations from the default schedule than the stated bounds are not covered";

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C01", families: c01, rule: "real broker against a reference model: all operation sequences of 1-3 clients up to the family's depth, compared after every operation, and all schedules within the deviation bound of concurrent scripts, whose observations must be explained by some order of handling the clients' packets", assumptions: &[WORLD, RELIABLE, SMALL] },
        Check { id: "C02", families: c02, rule: "every filter over the level alphabet, alone in a broker, with all filters together in one broker, and in pairs held by one client, against every topic over the alphabet; who receives how many copies is compared with a reference matcher", assumptions: &[WORLD, "whether 'x/#' also matches 'x' is not judged (the project's tests pin the deviation)", "levels outside the alphabet behave like those in it"] },
        Check { id: "C03", families: c03, rule: "all schedules within the deviation bound of scripts with several publishers and subscribers, and all burst lengths x reader windows of pipelined bursts; per publisher and subscriber the received sequence numbers must never decrease", assumptions: &[WORLD, RELIABLE, SMALL] },
        Check { id: "C04", families: c04, rule: "all sequences of SUBSCRIBE/UNSUBSCRIBE forms up to the depth, each followed by probing publishes, against a set-of-filters model; all schedules within the bound of subscribe/unsubscribe/publish races", assumptions: &[WORLD, RELIABLE, SMALL] },
        Check { id: "C21", families: c21, rule: "all combinations of publisher QoS, DUP, RETAIN, packet id, requested QoS, topic and payload, and all pairs of consecutive publishes; each delivery is parsed and compared with the reference", assumptions: &[WORLD] },
        Check { id: "C22", families: c22, rule: "all histories up to the depth of two id-less clients and one with an id, many id-less clients at once, and all schedules within the bound of concurrent connects, against the model in which each id-less connection is a client of its own", assumptions: &[WORLD, RELIABLE, SMALL, "generated ids are drawn from a deterministic random source per execution"] },
        Check { id: "C23", families: c23, rule: "all histories up to the depth with every assignment of clients to two or three listeners, accept errors on each listener, and all schedules within the bound of clients on different listeners, against the model that knows no listeners", assumptions: &[WORLD, RELIABLE, SMALL] },
        Check { id: "C25", families: c25, rule: "every topic over the alphabet (wildcards in every position and inside levels) x QoS/DUP/RETAIN, published to subscribers of wildcard, literal and identical filters: topics with a wildcard reach nobody and close the publisher's connection, all others are delivered", assumptions: &[WORLD] },
    ]
}

pub fn subs(s: usize, f: &str) -> H {
    H::Send(s, vec![subscribe(1, &[f])])
}
pub fn unsubs(s: usize, f: &str) -> H {
    H::Send(s, vec![unsubscribe(2, &[f])])
}
pub fn pubs(s: usize, t: &str) -> H {
    H::Send(s, vec![publish(t, "")])
}
pub fn joins(s: usize, id: &str) -> H {
    H::Open(s, vec![connect(id)])
}

fn c01(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let base = |name: &str| {
        let mut s = spec(name, 4);
        s.mask = DELIVERIES;
        s.setup = vec![joins(3, "pub")];
        s.finale = vec![pubs(3, "a"), pubs(3, "b"), pubs(3, "a/b"), pubs(3, "b/b")];
        s
    };
    // two clients, everything
    let mut s = base("two clients");
    s.symmetric = vec![0, 1];
    s.setup.extend([joins(0, "A"), joins(1, "B")]);
    for (c, id) in [(0, "A"), (1, "B")] {
        for f in ["a", "+", "a/#"] {
            s.alphabet.push(subs(c, f));
            s.alphabet.push(unsubs(c, f));
        }
        s.alphabet.extend([pubs(c, "a"), pubs(c, "a/b"), H::End(c, EndMode::Disconnect), H::End(c, EndMode::Close), joins(c, id)]);
    }
    v.extend(crate::real::bound(s, tier.pick(&[1, 2, 3, 4][..], &[1, 2, 3, 4, 5]), tier.pick(&[1, 2][..], &[1, 2, 3])));
    // fewer letters, longer
    let mut s = base("two clients, few letters");
    s.symmetric = vec![0, 1];
    s.setup.extend([joins(0, "A"), joins(1, "B")]);
    for (c, id) in [(0, "A"), (1, "B")] {
        s.alphabet.extend([subs(c, "a"), subs(c, "+/b"), unsubs(c, "a"), H::End(c, EndMode::Fin), joins(c, id)]);
    }
    v.extend(families(s, tier.pick(&[5][..], &[5, 6])));
    // one client with many overlapping filters
    let mut s = base("overlapping filters of one client");
    s.setup.push(joins(0, "A"));
    for f in ["a", "+", "#", "a/b", "a/+", "+/b"] {
        s.alphabet.push(subs(0, f));
        s.alphabet.push(unsubs(0, f));
    }
    v.extend(families(s, tier.pick(&[3][..], &[3, 4, 5])));
    // three clients
    let mut s = base("three clients");
    s.symmetric = vec![0, 1, 2];
    for (c, id) in [(0, "A"), (1, "B"), (2, "C")] {
        s.alphabet.extend([joins(c, id), subs(c, "a/b"), unsubs(c, "a/b"), H::End(c, EndMode::Disconnect)]);
    }
    v.extend(crate::real::bound(s, tier.pick(&[4, 5, 6][..], &[4, 5, 6, 7]), tier.pick(&[3][..], &[3, 4])));
    v.push(family("concurrent", c01_scripts(), tier.pick(2, 3)));
    v.extend(super::more::c01(tier));
    v.extend(super::more3::c01(tier));
    v.extend(super::more4::c01(tier));
    v
}

fn c01_scripts() -> Vec<Script> {
    let mut v = vec![];
    let mk = |name: &str, n| {
        let mut s = script(name, n);
        s.mask = DELIVERIES;
        s
    };
    // two publishers, one subscriber with two matching filters
    let mut s = mk("two publishers, overlapping filters", 3);
    s.setup = [join(0, "S", &["a", "+"]), join(1, "P", &[]), join(2, "Q", &[])].concat();
    s.par = vec![vec![send(1, &[publish("a", ""), publish("b", "")])], vec![send(2, &[publish("a", "")]), send(2, &[publish("c", "")])]];
    v.push(s);
    // subscribe against publish
    let mut s = mk("subscribe races publish", 3);
    s.setup = [join(0, "S", &[]), join(1, "P", &[]), join(2, "O", &["a"])].concat();
    s.par = vec![vec![send(0, &[subscribe(1, &["a", "b"])])], vec![send(1, &[publish("a", "")]), send(1, &[publish("b", "")])]];
    s.finale = vec![send(1, &[publish("a", "")])];
    v.push(s);
    let mut s = mk("unsubscribe races publish", 3);
    s.setup = [join(0, "S", &["a", "b"]), join(1, "P", &[]), join(2, "O", &["a"])].concat();
    s.par = vec![vec![send(0, &[unsubscribe(1, &["a", "b"])])], vec![send(1, &[publish("a", ""), publish("b", "")])]];
    s.finale = vec![send(1, &[publish("a", ""), publish("b", "")])];
    v.push(s);
    for m in [CloseMode::Fin, CloseMode::Close, CloseMode::Reset] {
        let mut s = mk(&format!("a subscriber leaves ({:?}) during publishes", m), 3);
        s.setup = [join(0, "S", &["a"]), join(1, "P", &[]), join(2, "O", &["a"])].concat();
        s.par = vec![vec![st(0, Act::Close(m))], vec![send(1, &[publish("a", ""), publish("a", "")])]];
        s.finale = vec![send(1, &[publish("a", "")])];
        v.push(s);
        let mut s = mk(&format!("the publisher sends and closes ({:?})", m), 2);
        s.setup = [join(0, "S", &["a"]), join(1, "P", &["a"])].concat();
        s.par = vec![vec![send(1, &[publish("a", ""), publish("a", "")]), st(1, Act::Close(m))]];
        v.push(s);
    }
    let mut s = mk("publish pipelined behind CONNECT", 3);
    s.setup = join(0, "S", &["a"]);
    s.par = vec![
        vec![opens(1), send(1, &[connect("P"), publish("a", ""), publish("a", ""), Pkt::Disconnect])],
        vec![opens(2), send(2, &[connect("Q"), subscribe(1, &["a"]), publish("a", "")])],
    ];
    s.finale = vec![send(0, &[publish("a", "")])];
    v.push(s);
    let mut s = mk("two clients publish to themselves and each other", 2);
    s.setup = [join(0, "A", &["a", "a/#"]), join(1, "B", &["+", "b"])].concat();
    s.par = vec![vec![send(0, &[publish("a", ""), publish("b", "")])], vec![send(1, &[publish("b", ""), publish("a", "")])]];
    v.push(s);
    v
}

// ------------------------------------------------------------------ C02

/// All level sequences of exactly `n` levels.
pub fn level_seqs(levels: &[&str], n: usize) -> Vec<Vec<String>> {
    let mut v: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|p| levels.iter().map(move |l| { let mut q = p.clone(); q.push(l.to_string()); q })).collect();
    }
    v
}
pub fn all_topics(levels: &[&str], max: usize) -> Vec<String> {
    (1..=max).flat_map(|n| level_seqs(levels, n)).map(|l| l.join("/")).filter(|t| !t.is_empty()).collect()
}
pub fn all_filters(levels: &[&str], max: usize) -> Vec<String> {
    let mut with_plus: Vec<&str> = levels.to_vec();
    with_plus.push("+");
    let mut v: Vec<String> = all_topics(&with_plus, max);
    for n in 0..max {
        for mut l in level_seqs(&with_plus, n) {
            l.push("#".into());
            v.push(l.join("/"));
        }
    }
    v
}

/// One connection per entry of `filters` (a client's filters); publishes all topics and compares copies.
fn match_run(filters: &[Vec<String>], topics: &[String], ctx: &Ctx) -> Fallible<()> {
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let mut conns = vec![];
    for (i, f) in filters.iter().enumerate() {
        let c = s.open(L1).ok_or_else(|| Fail::new("refused", "no listener"))?;
        s.send_pkts(c, &[connect(&format!("c{}", i))]);
        for (k, f) in f.iter().enumerate() {
            s.send_pkts(c, &[subscribe(k as u16 + 1, &[f])]);
        }
        s.quiesce()?;
        conns.push(c);
    }
    let p = s.open(L1).ok_or_else(|| Fail::new("refused", "no listener"))?;
    s.send_pkts(p, &[connect("publisher")]);
    s.quiesce()?;
    let batch = if filters.len() > 4 { 8 } else { 128 };
    for (b, chunk) in topics.chunks(batch).enumerate() {
        let pk: Vec<Pkt> = chunk.iter().enumerate().map(|(k, t)| publish(t, &format!("{}", b * batch + k))).collect();
        s.send_pkts(p, &pk);
        s.quiesce()?;
    }
    s.check_wellformed()?;
    let mut pairs = 0u64;
    for (i, f) in filters.iter().enumerate() {
        let mut got = vec![0u32; topics.len()];
        for o in s.outs(conns[i]) {
            if let Out::Publish { topic, payload, .. } = o {
                let k: usize = String::from_utf8_lossy(&payload).parse().unwrap_or(usize::MAX);
                if k >= topics.len() || topic != topics[k].as_bytes() {
                    return Err(Fail::new("altered", format!("the client with {:?} received topic {:?} for payload {:?}", f, show(&topic), show(&payload))));
                }
                got[k] += 1;
            }
        }
        for (k, t) in topics.iter().enumerate() {
            pairs += 1;
            let yes = f.iter().filter(|f| matches(f, t) == Tri::Yes).count() as u32;
            let may = f.iter().filter(|f| matches(f, t) == Tri::Either).count() as u32;
            if got[k] < yes.min(1) {
                return Err(Fail::new("no-match", format!("filter(s) {:?} must match topic {:?}, but nothing was delivered", f, t)));
            }
            if got[k] > yes + may {
                return Err(Fail::new("false-match", format!("filter(s) {:?} received {} copies of topic {:?}, at most {} expected", f, got[k], t, yes + may)));
            }
            visit(&(f, t));
        }
    }
    outcome(&conns.iter().map(|c| s.conns[*c].out.len()).collect::<Vec<_>>());
    sample(|| format!("filters {:?} against {} topics ({} pairs) agree with the reference matcher", filters.iter().take(3).collect::<Vec<_>>(), topics.len(), pairs));
    count_transitions(pairs);
    s.end();
    Ok(())
}

fn c02(tier: Tier) -> Vec<Family> {
    let levels: &[&str] = &["a", "A", "ab", "", "$a"];
    let mut v = vec![];
    let mut alone = |name: &str, filters: Vec<String>, topics: Vec<String>| {
        let topics = std::sync::Arc::new(topics);
        cases(name, filters, move |f, ctx| match_run(&[vec![f.clone()]], &topics, ctx), |f| format!("filter {:?}", f))
    };
    v.push(alone("each filter alone, 1-2 levels", all_filters(levels, 2), all_topics(levels, 3)));
    v.push(alone("each filter alone, 3 levels", all_filters(levels, 3), all_topics(levels, tier.pick(3, 4))));
    v.push(alone("each filter alone, other characters", all_filters(&["\u{e9}", " ", "b c", "$", "0", "a"], tier.pick(2, 3)), all_topics(&["\u{e9}", " ", "b c", "$", "0", "a", "e"], 3)));
    v.push(alone("each filter alone, deep", all_filters(&["a", "b"], tier.pick(5, 6)), all_topics(&["a", "b"], tier.pick(6, 7))));
    v.push(alone("each filter alone, empty levels deep", all_filters(&["", "a"], tier.pick(4, 6)), all_topics(&["", "a"], tier.pick(5, 7))));
    if tier.thorough() {
        v.push(alone("each filter alone, 4 levels", all_filters(levels, 4), all_topics(levels, 4)));
        v.push(alone("each filter alone, $ and wildcards deep", all_filters(&["$a", "a"], 6), all_topics(&["$a", "a"], 7)));
    }
    // all filters in one broker, one client each
    let together: Vec<(Vec<String>, Vec<String>)> = vec![
        (all_filters(levels, 3), all_topics(levels, 3)),
        (all_filters(&["a", "b"], tier.pick(4, 5)), all_topics(&["a", "b"], tier.pick(5, 6))),
        (all_filters(levels, tier.pick(2, 4)), all_topics(levels, tier.pick(4, 4))),
    ];
    v.push(
        cases(
            "all filters together",
            together,
            |(f, t), ctx| match_run(&f.iter().map(|f| vec![f.clone()]).collect::<Vec<_>>(), t, ctx),
            |(f, t)| format!("{} filters x {} topics", f.len(), t.len()),
        )
        .cpu_limit(300.0),
    );
    // pairs held by one client, and by two
    let fs = all_filters(&["a", "", "$a"], 2);
    let ts = std::sync::Arc::new(all_topics(&["a", "", "$a", "b"], 3));
    let mut pairs = vec![];
    for a in &fs {
        for b in &fs {
            pairs.push((a.clone(), b.clone()));
        }
    }
    let t2 = ts.clone();
    v.push(cases(
        "pairs of filters of one client",
        pairs.iter().filter(|(a, b)| a != b).cloned().collect(),
        move |(a, b), ctx| match_run(&[vec![a.clone(), b.clone()]], &t2, ctx),
        |p| format!("{:?}", p),
    ));
    v.push(cases("pairs of filters of two clients", pairs, move |(a, b), ctx| match_run(&[vec![a.clone()], vec![b.clone()]], &ts, ctx), |p| format!("{:?}", p)));
    v.extend(super::more2::c02(tier));
    v.extend(super::more4::c02(tier));
    v.extend(super::more7::c02(tier));
    v
}

// ------------------------------------------------------------------ C03

/// Payloads are "<publisher>.<sequence>", perhaps followed by a blank and anything.
pub fn ordered(outs: &[Out]) -> Fallible<()> {
    let mut last: std::collections::HashMap<String, u64> = Default::default();
    for o in outs {
        if let Out::Publish { payload, .. } = o {
            let p = String::from_utf8_lossy(payload).into_owned();
            let Some((who, n)) = p.split_once('.') else { continue };
            let Ok(n) = n.split(' ').next().unwrap().parse::<u64>() else { continue };
            let l = last.entry(who.to_string()).or_insert(0);
            if n < *l {
                return Err(Fail::new("order", format!("message {}.{} was delivered after {}.{}", who, n, who, l)));
            }
            *l = n;
        }
    }
    Ok(())
}

fn c03(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // schedules
    let mut scripts = vec![];
    let pubn = |c: usize, n: usize, topics: &[&str]| -> Step { send(c, &(0..n).map(|i| publish(topics[i % topics.len()], "")).collect::<Vec<_>>()) };
    let mut add = |name: &str, n: usize, setup: Vec<Step>, par: Vec<Vec<Step>>| {
        let mut s = script(name, n);
        s.setup = setup;
        s.par = par;
        s.mask = DELIVERIES;
        scripts.push(s);
    };
    add("one publisher, one segment", 2, [join(0, "S", &["a", "b"]), join(1, "P", &[])].concat(), vec![vec![pubn(1, 5, &["a", "b", "c"])]]);
    add("one publisher, several segments", 2, [join(0, "S", &["#"]), join(1, "P", &[])].concat(), vec![(0..4).map(|i| pubn(1, 1 + i % 2, &["a", "b"])).collect()]);
    add("overlapping filters", 2, [join(0, "S", &["a", "+", "#"]), join(1, "P", &[])].concat(), vec![vec![pubn(1, 2, &["a"]), pubn(1, 1, &["a"])]]);
    add("two publishers", 3, [join(0, "S", &["#"]), join(1, "P", &[]), join(2, "Q", &[])].concat(), vec![vec![pubn(1, 2, &["a"]), pubn(1, 1, &["b"])], vec![pubn(2, 3, &["a", "b"])]]);
    add("two subscribers", 3, [join(0, "S", &["a"]), join(2, "T", &["#"]), join(1, "P", &[])].concat(), vec![vec![pubn(1, 3, &["a"])], vec![send(2, &[Pkt::PingReq])]]);
    add("publisher subscribed to itself", 1, join(0, "S", &["a", "#"]), vec![vec![pubn(0, 3, &["a", "b"])]]);
    add("subscriber resubscribes meanwhile", 2, [join(0, "S", &["a"]), join(1, "P", &[])].concat(), vec![vec![send(0, &[unsubscribe(3, &["a"]), subscribe(4, &["a"]), subscribe(5, &["#"])])], vec![pubn(1, 4, &["a"])]]);
    add("publisher closes behind its messages", 2, [join(0, "S", &["a"]), join(1, "P", &[])].concat(), vec![vec![pubn(1, 3, &["a"]), st(1, Act::Close(CloseMode::Fin))]]);
    add("pipelined behind CONNECT", 2, join(0, "S", &["a"]), vec![vec![opens(1), send(1, &[connect("P"), publish("a", ""), publish("a", ""), publish("a", "")])]]);
    for win in [1usize, 7, 20] {
        let mut s = script(format!("slow reader, window {}", win), 3);
        s.setup = [join(0, "S", &["#"]), join(1, "P", &[]), join(2, "Q", &[]), vec![st(0, Act::Flow(win, false))]].concat();
        s.par = vec![vec![pubn(1, 3, &["a"])], vec![pubn(2, 2, &["b"])], vec![st(0, Act::Read(3)), st(0, Act::Read(9)), st(0, Act::Flow(0, true))]];
        s.mask = DELIVERIES;
        s.flow = true;
        scripts.push(s);
    }
    for s in &mut scripts {
        // sequence numbers must follow the publisher's order whatever the interleaving
        s.mask = DELIVERIES;
    }
    v.push(order_family("schedules", scripts, tier.pick(2, 3)));
    v.push(order_family("a full queue", super::more3::backed_up(tier, DELIVERIES), tier.pick(1, 2)).cpu_limit(60.0));
    // bursts longer than every queue, readers that stall and resume
    let mut bursts: Vec<(usize, usize, usize, usize)> = vec![];
    let lens: Vec<usize> = tier.pick((1..=40).chain([63, 64, 65, 66, 100, 130, 200, 500]).collect(), (1..=150).chain([200, 300, 500, 1000, 2000]).collect());
    for n in lens {
        for win in [0usize, 1, 7, 64, 4096] {
            for subs in [1usize, 2] {
                for pubs in [1usize, 2] {
                    bursts.push((n, win, subs, pubs));
                }
            }
        }
    }
    v.extend(super::more5::c03(tier));
    v.push(cases("bursts", bursts, burst_run, |b| format!("{} messages, window {} (0: reads at once), {} filters, {} publishers", b.0, b.1, b.2, b.3)).cpu_limit(60.0));
    v.extend(super::more8::c03(tier));
    v
}

pub(super) fn order_family(name: &str, scripts: Vec<Script>, bound: u32) -> Family {
    let a = std::sync::Arc::new(scripts);
    let b = a.clone();
    Family::new(
        name,
        a.len() as u64,
        move |i, ctx| {
            let h = run(&a[i as usize], ctx)?;
            for (c, o) in h.outs.iter().enumerate() {
                let o: Vec<Out> = o.iter().map(|x| x.0.clone()).collect();
                ordered(&o).map_err(|f| f.ctx(format!("subscriber #{}: {}", c, describe(&h))))?;
            }
            Ok(())
        },
        move |i| b[i as usize].name.clone(),
    )
    .bound(bound)
}

fn burst_run(b: &(usize, usize, usize, usize), ctx: &Ctx) -> Fallible<()> {
    let (n, win, nsub, npub) = *b;
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let sub = s.open(L1).unwrap();
    s.send_pkts(sub, &[connect("S"), subscribe(1, &["a", "#"][..nsub])]);
    s.quiesce()?;
    let mut pubs = vec![];
    for p in 0..npub {
        let c = s.open(L1).unwrap();
        s.send_pkts(c, &[connect(&format!("P{}", p))]);
        s.quiesce()?;
        pubs.push(c);
    }
    if win > 0 {
        mc::set_flow(s.conns[sub].net, win, false);
    }
    for (p, c) in pubs.iter().enumerate() {
        let pk: Vec<Pkt> = (0..n).map(|i| publish("a", &format!("{}.{}", p, i))).collect();
        s.send_pkts(*c, &pk);
    }
    s.quiesce()?;
    if win > 0 {
        for k in 0..40 {
            mc::client_read(s.conns[sub].net, win.min(1 + k));
            s.quiesce()?;
        }
        mc::set_flow(s.conns[sub].net, 0, true);
        s.quiesce()?;
    }
    s.check_wellformed()?;
    let outs = s.outs(sub);
    ordered(&outs)?;
    for o in &outs {
        visit(&(b, o));
    }
    outcome(&outs.len());
    sample(|| format!("{:?}: {} packets received in order", b, outs.len()));
    s.end();
    Ok(())
}

// ------------------------------------------------------------------ C04

fn c04(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let sub = |s: usize, f: &[(&str, u8)]| H::Send(s, vec![Pkt::Subscribe { id: 1, filters: f.iter().map(|(f, q)| (f.to_string(), *q)).collect() }]);
    let uns = |s: usize, f: &[&str]| H::Send(s, vec![unsubscribe(2, f)]);
    let base = |name: &str| {
        let mut s = spec(name, 3);
        s.mask = Mask { replies: true, ..DELIVERIES };
        s.setup = vec![joins(2, "pub"), joins(0, "A"), joins(1, "B"), H::Send(1, vec![subscribe(9, &["a", "+/b"])])];
        s.finale = vec![pubs(2, "a"), pubs(2, "b"), pubs(2, "a/b"), pubs(2, "a/b/c"), pubs(2, "x/b"), pubs(2, "a")];
        s
    };
    let mut s = base("all packet forms");
    s.alphabet = vec![
        sub(0, &[("a", 0)]),
        sub(0, &[("a", 0), ("a", 0)]),
        sub(0, &[("a", 2), ("+", 1)]),
        sub(0, &[("a/b", 1)]),
        sub(0, &[("a/#", 0)]),
        sub(0, &[("#", 0), ("a/+", 0)]),
        uns(0, &["a"]),
        uns(0, &["a", "+"]),
        uns(0, &["a", "a"]),
        uns(0, &["a/#", "nothing"]),
        uns(0, &["a/b", "#"]),
        uns(0, &["a/+"]),
        uns(1, &["a"]),
        sub(1, &[("a", 1), ("a/#", 0)]),
        uns(1, &["+/b", "a/#"]),
    ];
    v.extend(crate::real::bound(s, tier.pick(&[1, 2, 3, 4][..], &[1, 2, 3, 4, 5]), tier.pick(&[1, 2][..], &[1, 2, 3])));
    let mut s = base("two filters, long");
    s.alphabet = vec![sub(0, &[("a", 0)]), sub(0, &[("a/b", 1)]), uns(0, &["a"]), uns(0, &["a/b"]), sub(1, &[("a", 0)]), uns(1, &["a"])];
    v.extend(families(s, tier.pick(&[5, 6][..], &[5, 6, 7])));
    let mut s = base("nested filters");
    for f in ["a", "a/b", "a/b/c", "a/#", "+/+"] {
        s.alphabet.push(sub(0, &[(f, 0)]));
        s.alphabet.push(uns(0, &[f]));
    }
    v.extend(families(s, tier.pick(&[4][..], &[4, 5, 6])));
    // pipelined: every sequence of three packets in one segment
    let mut s = base("pipelined");
    let forms = [subscribe(1, &["a"]), subscribe(2, &["a", "a"]), subscribe(3, &["+", "a/b"]), unsubscribe(4, &["a"]), unsubscribe(5, &["+", "x"]), publish("a", "")];
    for x in &forms {
        for y in &forms {
            for z in &forms {
                s.alphabet.push(H::Send(0, vec![x.clone(), y.clone(), z.clone()]));
            }
        }
    }
    v.extend(families(s, tier.pick(&[1, 2][..], &[1, 2])));
    // races
    let mut scripts = vec![];
    let mk = |name: &str, n| {
        let mut s = script(name, n);
        s.mask = Mask { replies: true, ..DELIVERIES };
        s
    };
    let mut s = mk("subscribe twice, unsubscribe once, publish", 2);
    s.setup = [join(0, "A", &[]), join(1, "P", &[])].concat();
    s.par = vec![vec![send(0, &[subscribe(1, &["a"]), subscribe(2, &["a"]), unsubscribe(3, &["a"])])], vec![send(1, &[publish("a", "")]), send(1, &[publish("a", "")])]];
    s.finale = vec![send(1, &[publish("a", "")])];
    scripts.push(s);
    let mut s = mk("publish after UNSUBACK", 2);
    s.setup = [join(0, "A", &["a", "+"]), join(1, "P", &[])].concat();
    s.par = vec![vec![send(0, &[unsubscribe(3, &["a", "+"])])], vec![send(1, &[publish("a", "")]), when(1, Act::Send(vec![publish("a", "")]), Guard::Got(0, 3))]];
    scripts.push(s);
    let mut s = mk("two clients unsubscribe the same filter", 3);
    s.setup = [join(0, "A", &["a"]), join(1, "B", &["a"]), join(2, "P", &[])].concat();
    s.par = vec![vec![send(0, &[unsubscribe(3, &["a"])])], vec![send(1, &[unsubscribe(3, &["a"]), subscribe(4, &["a"])])], vec![send(2, &[publish("a", ""), publish("a", "")])]];
    s.finale = vec![send(2, &[publish("a", "")])];
    scripts.push(s);
    v.push(family("races", scripts, tier.pick(2, 3)));
    v.extend(super::more::c04(tier));
    v.extend(super::more4::c04(tier));
    v.push(family("a full queue", super::more3::backed_up(tier, Mask { replies: true, ..DELIVERIES }), tier.pick(1, 2)).cpu_limit(60.0));
    v
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug)]
struct PubForm {
    qos: u8,
    dup: bool,
    retain: bool,
    id: u16,
}

fn c21_run(forms: &[PubForm], sq: &[u8], topic: &str, payload: &[u8], itself: bool, ctx: &Ctx) -> Fallible<()> {
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let mut subs = vec![];
    for (i, q) in sq.iter().enumerate() {
        let c = s.open(L1).unwrap();
        s.send_pkts(c, &[connect(&format!("s{}", i)), Pkt::Subscribe { id: 1, filters: vec![(if i % 2 == 0 { topic.to_string() } else { "#".into() }, *q)] }]);
        s.quiesce()?;
        subs.push(c);
    }
    let p = if itself {
        subs[0]
    } else {
        let p = s.open(L1).unwrap();
        s.send_pkts(p, &[connect("p")]);
        p
    };
    let pk: Vec<Pkt> = forms.iter().map(|f| Pkt::Publish { topic: topic.into(), payload: payload.to_vec(), qos: f.qos, retain: f.retain, dup: f.dup, id: f.id }).collect();
    s.send_pkts(p, &pk);
    s.quiesce()?;
    s.check_wellformed()?;
    for (i, c) in subs.iter().enumerate() {
        let d: Vec<Out> = s.outs(*c).into_iter().filter(|o| o.is_delivery()).collect();
        let want = Out::Publish { topic: topic.as_bytes().to_vec(), payload: payload.to_vec(), qos: 0, retain: false, dup: false, id: None };
        for o in &d {
            if *o != want {
                return Err(Fail::new("flags", format!("published as {:?}, subscriber {} (requested QoS {}) received {:?}", forms, i, sq[i], o)));
            }
        }
        if d.len() != forms.len() {
            return Err(Fail::new("lost", format!("published as {:?}: subscriber {} received {} deliveries of {}", forms, i, d.len(), forms.len())));
        }
        visit(&(i, &d));
    }
    outcome(&forms.len());
    sample(|| format!("{:?} to requested QoS {:?} on {:?}", forms.iter().take(3).collect::<Vec<_>>(), sq, topic));
    s.end();
    Ok(())
}

fn c21(tier: Tier) -> Vec<Family> {
    let mut forms = vec![];
    for qos in 0..3u8 {
        for dup in [false, true] {
            for retain in [false, true] {
                for id in [1u16, 2, 127, 128, 255, 256, 32768, 65535] {
                    // DUP must be 0 at QoS 0
                    if qos == 0 && (id != 1 || dup) {
                        continue;
                    }
                    forms.push(PubForm { qos, dup, retain, id });
                }
            }
        }
    }
    let texts: Vec<(&str, Vec<u8>)> = vec![("a", b"x".to_vec()), ("a/b", vec![]), ("t", vec![0, 1]), ("\u{e9}", vec![0, 0, 0, 255]), ("a/b/c", vec![0x30; 200])];
    let mut single = vec![];
    for f in &forms {
        for sq in [vec![0u8], vec![1], vec![2], vec![0, 1, 2]] {
            for itself in [false, true] {
                for (t, p) in &texts {
                    single.push((f.clone(), sq.clone(), t.to_string(), p.clone(), itself));
                }
            }
        }
    }
    let mut v = vec![cases("one publish", single, |(f, sq, t, p, i), ctx| c21_run(&[f.clone()], sq, t, p, *i, ctx), |x| format!("{:?}", x))];
    let mut pairs = vec![];
    for a in &forms {
        for b in &forms {
            if (a.qos > 0 && b.qos > 0 && a.id == b.id) || !([1, 2, 256].contains(&a.id) && [1, 2, 256].contains(&b.id)) {
                continue;
            }
            pairs.push((a.clone(), b.clone()));
        }
    }
    v.push(cases("two publishes in a row", pairs, |(a, b), ctx| c21_run(&[a.clone(), b.clone()], &[0, 2], "a", b"xy", false, ctx), |x| format!("{:?}", x)));
    let blocks: Vec<(u8, u32)> = (1..3u8).flat_map(|q| (0..64u32).map(move |b| (q, b))).collect();
    v.push(cases(
        "all packet ids",
        blocks,
        |(q, b), ctx| {
            let f: Vec<PubForm> = (b * 1024..(b + 1) * 1024).filter(|i| *i > 0).map(|i| PubForm { qos: *q, dup: false, retain: false, id: i as u16 }).collect();
            c21_run(&f, &[1], "a", b"p", false, ctx)
        },
        |x| format!("QoS {}, block {}", x.0, x.1),
    ));
    let _ = tier;
    v.extend(super::more8::c21(tier));
    v
}

// ------------------------------------------------------------------ C22

fn c22(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut s = spec("two without id, one with", 4);
    s.symmetric = vec![0, 1];
    s.setup = vec![joins(3, "pub")];
    for c in 0..2 {
        s.alphabet.extend([joins(c, ""), subs(c, "a"), pubs(c, "a"), H::End(c, EndMode::Disconnect), H::End(c, EndMode::Close)]);
    }
    s.alphabet.extend([joins(2, "X"), subs(2, "+"), H::End(2, EndMode::Fin)]);
    s.finale = vec![pubs(3, "a"), pubs(3, "b")];
    v.extend(crate::real::bound(s, tier.pick(&[1, 2, 3, 4, 5][..], &[1, 2, 3, 4, 5, 6]), tier.pick(&[1, 2, 3][..], &[1, 2, 3, 4])));
    // an old connection stays while the same slot connects anew
    let mut s = spec("connections pile up", 3);
    s.setup = vec![joins(2, "pub")];
    s.prune_dead = false;
    s.alphabet = vec![H::Open(0, vec![connect(""), subscribe(1, &["a"])]), H::Open(0, vec![connect(""), subscribe(1, &["b", "a"]), publish("a", "")]), pubs(0, "b"), H::End(0, EndMode::Reset), joins(1, "X")];
    s.finale = vec![pubs(2, "a"), pubs(2, "b")];
    v.extend(families(s, tier.pick(&[4, 5][..], &[4, 5, 6])));
    v.push(cases(
        "many at once",
        vec![2usize, 10, 40, tier.pick(300, 1000)],
        |n, ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
            let named = ["0", "1", "2", "client-1", "client-0", "anonymous", "127.0.0.1", "127.0.0.1:50001", "127.0.0.1:50013", "null", "auto-1"];
            let mut conns = vec![];
            for k in 0..*n {
                let c = l.open(L1)?;
                l.send(c, &[connect("")])?;
                l.send(c, &[subscribe(1, &[&format!("own/{}", k), "all"])])?;
                conns.push(c);
            }
            for (k, id) in named.iter().enumerate() {
                let c = l.open(L1)?;
                l.send(c, &[connect(id)])?;
                l.send(c, &[subscribe(1, &[&format!("own/{}", n + k), "all"])])?;
                conns.push(c);
            }
            let last = *conns.last().unwrap();
            l.log.clear();
            for k in 0..conns.len() {
                l.send(last, &[publish(&format!("own/{}", k), "")])?;
            }
            l.send(conns[0], &[publish("all", "")])?;
            l.finish();
            Ok(())
        },
        |n| format!("{} clients without id", n),
    ).cpu_limit(120.0));
    let mut scripts = vec![];
    let mut s = script("two connect without id at the same time", 3);
    s.setup = join(2, "P", &["x"]);
    s.par = vec![
        vec![opens(0), send(0, &[connect(""), subscribe(1, &["a"]), publish("x", "")])],
        vec![opens(1), send(1, &[connect(""), subscribe(1, &["b"]), publish("x", "")])],
    ];
    s.finale = vec![send(2, &[publish("a", ""), publish("b", "")]), send(0, &[Pkt::PingReq]), send(1, &[Pkt::PingReq])];
    scripts.push(s);
    let mut s = script("one leaves while another connects, both without id", 3);
    s.setup = [join(0, "", &["a"]), join(2, "P", &[])].concat();
    s.par = vec![vec![send(0, &[Pkt::Disconnect])], vec![opens(1), send(1, &[connect(""), subscribe(1, &["a"])])], vec![send(2, &[publish("a", "")])]];
    s.finale = vec![send(2, &[publish("a", "")])];
    scripts.push(s);
    v.push(family("concurrent", scripts, tier.pick(2, 3)));
    v.extend(super::more::c22(tier));
    v.extend(super::more4::c22(tier));
    v
}

// ------------------------------------------------------------------ C23

fn c23(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let configs: Vec<(&str, String, Vec<&'static str>)> = vec![
        ("both listeners", env().cfg2.clone(), vec![L1, L2]),
        ("both listeners, swapped", env().cfg2.clone(), vec![L2, L1]),
        ("second listener only", env().cfg2.clone(), vec![L2]),
        ("three listeners", env().cfg3.clone(), vec![L1, L2, L3]),
        ("three listeners, other order", env().cfg3.clone(), vec![L3, L1, L2]),
    ];
    for (name, cfg, addrs) in &configs {
        let mut s = spec(name, 3);
        s.config = cfg.clone();
        s.addrs = addrs.clone();
        s.setup = vec![joins(2, "pub")];
        for (c, id) in [(0, "A"), (1, "B")] {
            s.alphabet.extend([joins(c, id), subs(c, "a"), unsubs(c, "a"), pubs(c, "a"), H::End(c, EndMode::Close)]);
        }
        s.alphabet.push(joins(1, "A"));
        s.alphabet.push(joins(0, "pub"));
        s.finale = vec![pubs(2, "a")];
        s.probe = true;
        v.extend(crate::real::bound(s, tier.pick(&[1, 3, 4][..], &[1, 2, 3, 4, 5]), tier.pick(&[1, 2][..], &[1, 2, 3])));
    }
    // accept errors
    let mut acc = vec![];
    for (i, (_, cfg, addrs)) in configs.iter().enumerate() {
        for bad in addrs {
            for n in [1usize, 3, 20, 150, 1500] {
                for errno in [libc::ECONNABORTED, libc::EMFILE, libc::ENFILE, libc::ENOBUFS, libc::ENOMEM, libc::EPERM, libc::EPROTO, libc::ETIMEDOUT, libc::EINTR, libc::ENETDOWN] {
                    for at_once in [false, true] {
                        acc.push((i, cfg.clone(), addrs.clone(), *bad, n, errno, at_once));
                    }
                }
            }
        }
    }
    v.push(cases(
        "accept errors",
        acc,
        |(_, cfg, addrs, bad, n, errno, at_once), ctx| {
            let mut l = Lock::boot(cfg, USERS, ALL, ctx.trace)?;
            let early = l.open(addrs[0])?;
            l.send(early, &[connect("early"), subscribe(1, &["a"])])?;
            for _ in 0..if *at_once { 1 } else { *n } {
                mc::inject_accept_errors(bad.parse().unwrap(), *errno, if *at_once { *n } else { 1 });
                l.sys.quiesce()?;
            }
            // it may wait a moment before it goes on
            l.sys.idle(5)?;
            let mut cs = vec![early];
            for (k, a) in addrs.iter().chain(addrs.iter()).enumerate() {
                let c = l.open(a)?;
                l.send(c, &[connect(&format!("c{}", k)), subscribe(1, &["a"])])?;
                cs.push(c);
            }
            for c in cs {
                l.send(c, &[publish("a", "")])?;
            }
            for a in addrs {
                l.probe(a)?;
            }
            l.finish();
            Ok(())
        },
        |(i, _, _, b, n, e, once)| format!("configuration {}, {} errors {} on {}{}", i, n, e, b, if *once { " at once" } else { "" }),
    ));
    v.push(cases(
        "listening addresses",
        vec![
            vec![L1],
            vec![L2],
            vec![L1, L2],
            vec![L2, L1],
            vec![L1, L2, L3],
            vec![L3, L2, L1],
            vec!["127.0.0.1:1", "127.0.0.1:2", "127.0.0.1:3", "127.0.0.1:4", "127.0.0.1:5"],
            vec!["0.0.0.0:1883", "[::]:1884"],
        ],
        |addrs, ctx| {
            let d = env().dir.join(format!("l{:x}.toml", hash(&(addrs, ctx.trace))));
            crate::env::write_config(&d, addrs, &env().dir.join("passwd"));
            let mut l = Lock::boot(&d.to_string_lossy(), USERS, ALL, ctx.trace)?;
            let mut got: Vec<String> = mc::listeners().iter().map(|a| a.to_string()).collect();
            let mut want: Vec<String> = addrs.iter().map(|a| a.to_string()).collect();
            got.sort();
            want.sort();
            if got != want {
                return Err(Fail::new("listeners", format!("configured {:?}, listening on {:?}", want, got)));
            }
            let first = l.open(addrs[0])?;
            l.send(first, &[connect("first"), subscribe(1, &["#"])])?;
            for (k, a) in addrs.iter().enumerate() {
                let c = l.open(a)?;
                l.send(c, &[connect(&format!("c{}", k)), publish("x", "")])?;
                l.probe(a)?;
            }
            l.finish();
            Ok(())
        },
        |a| format!("{:?}", a),
    ));
    let mut scripts = vec![];
    let mut mk = |name: &str, n: usize, cfg: &str| {
        let mut s = script(name, n);
        s.config = cfg.to_string();
        s
    };
    for (x, y) in [(L1, L2), (L2, L1)] {
        let mut s = mk(&format!("publisher on {}, subscriber on {}", x, y), 2, &env().cfg2);
        s.setup = vec![st(0, Act::Open(y)), send(0, &[connect("S"), subscribe(1, &["a"])])];
        s.par = vec![vec![st(1, Act::Open(x)), send(1, &[connect("P"), publish("a", ""), publish("a", "")])], vec![send(0, &[Pkt::PingReq])]];
        scripts.push(s);
        let mut s = mk(&format!("take-over from {} by {}", x, y), 3, &env().cfg2);
        s.setup = vec![st(0, Act::Open(x)), send(0, &[connect("A"), subscribe(1, &["a"])]), st(2, Act::Open(L1)), send(2, &[connect("P")])];
        s.par = vec![vec![st(1, Act::Open(y)), send(1, &[connect("A"), subscribe(1, &["b"])])], vec![send(2, &[publish("a", ""), publish("b", "")])]];
        s.finale = vec![send(2, &[publish("a", ""), publish("b", "")])];
        scripts.push(s);
    }
    let mut s = mk("three clients connect on three listeners", 3, &env().cfg3);
    s.par = (0..3).map(|k| vec![st(k, Act::Open([L1, L2, L3][k])), send(k, &[connect(["A", "B", "C"][k]), subscribe(1, &["a"])])]).collect();
    s.finale = (0..3).map(|k| send(k, &[publish("a", "")])).collect();
    v.push(family("three concurrent", vec![s], tier.pick(1, 2)));
    v.push(family("concurrent", scripts, tier.pick(2, 3)));
    v.extend(super::more::c23(tier));
    v
}

// ------------------------------------------------------------------ C25

fn c25_run(topic: &str, form: &PubForm, ctx: &Ctx) -> Fallible<()> {
    let bad = topic.contains(['+', '#', '\0']) || topic.is_empty();
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let filters: Vec<Vec<&str>> = vec![vec!["#"], vec!["+", "+/+", "+/+/+"], vec!["a/#", "a/+"], if valid_filter(topic) { vec![topic] } else { vec!["a", "b"] }];
    let mut subs = vec![];
    for (i, f) in filters.iter().enumerate() {
        let c = s.open(L1).unwrap();
        s.send_pkts(c, &[connect(&format!("s{}", i)), subscribe(1, f)]);
        s.quiesce()?;
        subs.push(c);
    }
    let p = s.open(L1).unwrap();
    let exact = matches(topic, topic) == Tri::Yes && valid_filter(topic);
    s.send_pkts(p, &[connect("p"), subscribe(1, &["#"])]);
    s.quiesce()?;
    let mk = |t: &str, pl: &str| Pkt::Publish { topic: t.into(), payload: pl.as_bytes().to_vec(), qos: form.qos, retain: form.retain, dup: form.dup, id: form.id };
    s.send_pkts(p, &[mk(topic, "one"), publish("ok", "two")]);
    s.quiesce()?;
    s.check_wellformed()?;
    let count = |s: &Sys, c: usize, pl: &str| s.outs(c).iter().filter(|o| matches!(o, Out::Publish { payload, .. } if payload == pl.as_bytes())).count();
    if bad {
        for (i, c) in subs.iter().chain([&p]).enumerate() {
            if s.outs(*c).iter().any(|o| o.is_delivery()) {
                return Err(Fail::new("delivered", format!("a PUBLISH to {:?} led to deliveries to the subscriber of {:?}: {:?}", topic, filters.get(i), s.outs(*c))));
            }
        }
        if !s.is_closed(p) {
            return Err(Fail::new("not-closed", format!("a PUBLISH to {:?} did not close the publisher's connection", topic)));
        }
    } else {
        if s.is_closed(p) {
            return Err(Fail::new("closed", format!("a PUBLISH to {:?} closed the connection", topic)));
        }
        if exact && count(&s, subs[3], "one") != 1 {
            return Err(Fail::new("lost", format!("a PUBLISH to {:?} did not reach the subscriber of exactly that topic: {:?}", topic, s.outs(subs[3]))));
        }
        if count(&s, p, "two") != 1 {
            return Err(Fail::new("lost", format!("the message behind a PUBLISH to {:?} was not delivered", topic)));
        }
    }
    // everybody else goes on
    let q = s.open(L1).unwrap();
    s.send_pkts(q, &[connect("q"), publish("ok", "three")]);
    s.quiesce()?;
    if count(&s, subs[0], "three") != 1 {
        return Err(Fail::new("lost", format!("after a PUBLISH to {:?} other clients' messages are lost", topic)));
    }
    visit(&(topic, form.qos, bad));
    outcome(&(bad, form.qos));
    sample(|| format!("{:?} {:?}: {}", topic, form, if bad { "rejected" } else { "delivered" }));
    s.end();
    Ok(())
}

fn c25(tier: Tier) -> Vec<Family> {
    let levels: &[&str] = &["a", "", "+", "#", "a+", "+a", "a#", "#a", "$a", "++", "\0", "a\0"];
    let forms: Vec<PubForm> = vec![
        PubForm { qos: 0, dup: false, retain: false, id: 0 },
        PubForm { qos: 1, dup: false, retain: true, id: 35 },
        PubForm { qos: 2, dup: true, retain: false, id: 0x2b23 },
        PubForm { qos: 0, dup: false, retain: true, id: 0 },
    ];
    let mk = |topics: Vec<String>, forms: &[PubForm]| -> Vec<(String, PubForm)> { topics.iter().flat_map(|t| forms.iter().map(move |f| (t.clone(), f.clone()))).collect() };
    let lab = |x: &(String, PubForm)| format!("{:?} {:?}", x.0, x.1);
    let mut v = vec![
        cases("1-2 levels", mk(all_topics(levels, 2), &forms), |(t, f), ctx| c25_run(t, f, ctx), lab),
        cases("3 levels", mk(level_seqs(levels, 3).iter().map(|l| l.join("/")).collect(), &forms[..tier.pick(2, 4)]), |(t, f), ctx| c25_run(t, f, ctx), lab),
    ];
    // one wildcard at every position of longer topics
    let mut long = vec![];
    for base in ["abcdefgh", "a/b/c/d/e", "\u{e9}\u{e9}\u{e9}", "averylongtopicname/with/levels/and/more/levels/so/that/it/exceeds/sixtyfour/bytes"] {
        let chars: Vec<char> = base.chars().collect();
        for i in 0..=chars.len() {
            for w in ['+', '#'] {
                let mut c = chars.clone();
                c.insert(i, w);
                long.push(c.into_iter().collect::<String>());
            }
        }
        long.push(base.to_string());
    }
    for n in [127usize, 128, 4094, 4096, 65534] {
        for w in ["+", "#"] {
            long.push("a".repeat(n) + w);
            long.push(w.to_string() + &"a".repeat(n));
        }
        long.push("a".repeat(n + 1));
    }
    v.push(cases("long topics", mk(long, &forms[..2]), |(t, f), ctx| c25_run(t, f, ctx), |x| format!("{} bytes {:?}", x.0.len(), x.0.chars().take(90).collect::<String>())));
    if tier.thorough() {
        v.push(cases("4 levels", mk(level_seqs(&["a", "", "+", "#", "a+", "#a"], 4).iter().map(|l| l.join("/")).collect(), &forms[..2]), |(t, f), ctx| c25_run(t, f, ctx), lab));
    }
    v.extend(super::more7::c25(tier));
    v
}
