//! Further families: every form of a publication, and schedules around queues that are full.
use crate::codec::*;
use crate::env::env;
use crate::explore::*;
use crate::model::*;
use crate::report::*;
use crate::script::*;
use crate::sys::*;
use tokio::mc::{CloseMode, Explore};

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug)]
struct Form {
    qos: u8,
    dup: bool,
    retain: bool,
    topic: &'static str,
    payload: usize,
    filter: &'static str,
    itself: bool,
    times: usize,
}

fn payloads() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), vec![0], vec![0, 0], vec![0xff], vec![0xc0, 0], vec![0xe0, 0], vec![0, 1, b'a', 0], b"\r\n".to_vec()];
    v.push(publish("a", "inner").encode());
    v.push(connect("inner").encode());
    for n in [120usize, 125, 126, 127, 128, 4084, 4090, 4096, 8192, 16_380, 20_000] {
        v.push((0..n).map(|i| (i * 7 + n) as u8).collect());
    }
    v
}

fn form_run(f: &Form, ctx: &Ctx) -> Fallible<()> {
    let payload = &payloads()[f.payload];
    let mut s = Sys::boot(&env().cfg1, vec![], Explore::default(), ctx.trace)?;
    let sub = s.open(L1).unwrap();
    s.send_pkts(sub, &[connect("s"), subscribe(1, &[f.filter])]);
    s.quiesce()?;
    let p = if f.itself { sub } else { s.open(L1).unwrap() };
    if !f.itself {
        s.send_pkts(p, &[connect("p")]);
        s.quiesce()?;
    }
    let pk = |k: usize, payload: Vec<u8>| Pkt::Publish { topic: f.topic.into(), payload, qos: f.qos, retain: f.retain, dup: f.dup, id: if f.qos > 0 { 1 + k as u16 } else { 0 } };
    let mut want = vec![];
    // the form in question, then an ordinary message, repeatedly
    for k in 0..f.times {
        for body in [payload.clone(), format!("m{}", k).into_bytes()] {
            s.send_pkts(p, &[pk(k, body.clone())]);
            s.quiesce()?;
            want.push((f.topic.as_bytes().to_vec(), body));
        }
    }
    s.send_pkts(p, &[publish(f.topic, "end")]);
    s.quiesce()?;
    want.push((f.topic.as_bytes().to_vec(), b"end".to_vec()));
    s.check_wellformed()?;
    let got: Vec<(Vec<u8>, Vec<u8>)> = s
        .outs(sub)
        .into_iter()
        .filter_map(|o| match o {
            Out::Publish { topic, payload, .. } => Some((topic, payload)),
            _ => None,
        })
        .collect();
    for g in &got {
        visit(&(&g.0, hash(&g.1)));
    }
    if got != want {
        let show = |v: &[(Vec<u8>, Vec<u8>)]| v.iter().map(|(t, p)| format!("{:?} <{} bytes {:?}>", String::from_utf8_lossy(t), p.len(), p.iter().take(8).collect::<Vec<_>>())).collect::<Vec<_>>().join(", ");
        return Err(Fail::new("lost", format!("subscribed to {:?}, published {}; received {}", f.filter, show(&want), show(&got))));
    }
    outcome(&got.len());
    sample(|| format!("{:?}: {} delivered", f, got.len()));
    s.end();
    Ok(())
}

pub fn c01(tier: Tier) -> Vec<Family> {
    let names: Vec<(&'static str, Vec<&'static str>)> = vec![
        ("a", vec!["a", "+", "#"]),
        ("a/b", vec!["a/b", "a/+", "#"]),
        ("/", vec!["/", "+/+", "#"]),
        ("a//b", vec!["a//b", "a/+/b", "#"]),
        (" ", vec![" ", "+"]),
        ("\u{e9}/\u{1f980}", vec!["\u{e9}/\u{1f980}", "+/\u{1f980}", "#"]),
        ("$x", vec!["$x", "$x"]),
        ("$SYS/x", vec!["$SYS/x", "$SYS/+", "$SYS/#"]),
    ];
    let mut list = vec![];
    for (topic, filters) in &names {
        for filter in filters {
            for qos in 0..3u8 {
                for dup in [false, true] {
                    if qos == 0 && dup {
                        continue;
                    }
                    for retain in [false, true] {
                        for payload in 0..payloads().len() {
                            for itself in [false, true] {
                                for times in tier.pick(vec![1usize], vec![1, 2, 5]) {
                                    list.push(Form { qos, dup, retain, topic, payload, filter, itself, times });
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let mut v = vec![cases("forms of a publication", list, form_run, |f| format!("{:?}", f))];
    v.push(family("a full queue", backed_up(tier, DELIVERIES), tier.pick(1, 2)).cpu_limit(60.0));
    v
}

// -------------------------------------------------- queues that are full

/// #0 = S (subscribes to `a`, has stopped reading), #1 = P, #2 = T (subscribes, reads), #3 = Q.
/// P has published so many messages that some queue is full or nearly so.
pub fn backed_up(tier: Tier, mask: Mask) -> Vec<Script> {
    let mut v = vec![];
    let fills: Vec<usize> = tier.pick(vec![30, 32, 33, 34, 35, 40, 66], (28..=40).chain([50, 60]).chain(62..=72).chain([100]).collect());
    let a = || publish("a", "");
    for k in fills {
        let base = |name: &str, t: bool| {
            let mut s = script(format!("{} messages wait for S; {}", k, name), 5);
            s.mask = mask;
            s.flow = true;
            s.setup = join(0, "S", &["a"]);
            if t {
                s.setup.extend(join(2, "T", &["a"]));
            }
            s.setup.extend(join(1, "P", &[]));
            s.setup.extend(join(3, "Q", &[]));
            s.setup.push(st(0, Act::Flow(1, false)));
            s.setup.push(send(1, &vec![a(); k]));
            s.finale = vec![st(0, Act::Flow(usize::MAX, true)), send(3, &[a()])];
            s
        };
        let resume = || st(0, Act::Flow(usize::MAX, true));
        let mut s = base("P goes on", false);
        s.par = vec![vec![send(1, &[a(), a(), a()])], vec![resume()]];
        v.push(s);
        let mut s = base("P goes on one by one", true);
        s.par = vec![vec![send(1, &[a()]), send(1, &[a()]), send(1, &[a()])], vec![resume()]];
        v.push(s);
        let mut s = base("P and Q go on", false);
        s.par = vec![vec![send(1, &[a(), a()])], vec![send(3, &[a(), a()])], vec![resume()]];
        v.push(s);
        let mut s = base("P goes on while S reads a little", false);
        s.par = vec![vec![send(1, &[a(), a(), a()])], vec![st(0, Act::Read(1)), st(0, Act::Read(9)), resume()]];
        v.push(s);
        let mut s = base("S asks", true);
        s.par = vec![vec![send(1, &[a()])], vec![send(0, &[Pkt::PingReq, subscribe(7, &["b"])])], vec![resume()]];
        v.push(s);
        let mut s = base("S leaves the topic", true);
        s.par = vec![vec![send(1, &[a(), a()])], vec![send(0, &[unsubscribe(7, &["a"]), Pkt::PingReq])], vec![resume()]];
        v.push(s);
        let mut s = base("S is reset", true);
        s.par = vec![vec![send(1, &[a(), a()])], vec![st(0, Act::Close(CloseMode::Reset))]];
        v.push(s);
        let mut s = base("S disconnects", true);
        s.par = vec![vec![send(1, &[a(), a()])], vec![send(0, &[Pkt::Disconnect]), resume()]];
        v.push(s);
        let mut s = base("P ends", true);
        s.par = vec![vec![send(1, &[a(), Pkt::Disconnect])], vec![resume()]];
        v.push(s);
        let mut s = base("P closes", true);
        s.par = vec![vec![send(1, &[a(), a()]), st(1, Act::Close(CloseMode::Fin))], vec![resume()]];
        v.push(s);
        let mut s = base("S is taken over", true);
        s.par = vec![vec![send(1, &[a()])], vec![opens(4), send(4, &[connect("S"), subscribe(3, &["a"])])], vec![resume()]];
        v.push(s);
    }
    v
}

/// S has stopped reading and has sent so many requests that its own queue is full or nearly so.
pub fn own_queue(tier: Tier, mask: Mask) -> Vec<Script> {
    let mut v = vec![];
    let fills: Vec<usize> = tier.pick(vec![30, 32, 33, 34, 40, 66], (28..=40).chain([50, 60]).chain(62..=72).chain([100]).collect());
    for k in fills {
        for (what, req) in [("PINGREQ", Pkt::PingReq), ("SUBSCRIBE", subscribe(5, &["a", "a"])), ("UNSUBSCRIBE", unsubscribe(6, &["a", "q"]))] {
            let base = |name: &str| {
                let mut s = script(format!("{} × {} unanswered; {}", k, what, name), 3);
                s.mask = mask;
                s.flow = true;
                s.setup = join(0, "S", &["b"]);
                s.setup.extend(join(1, "P", &[]));
                s.setup.push(st(0, Act::Flow(1, false)));
                s.setup.push(send(0, &vec![req.clone(); k]));
                s.finale = vec![st(0, Act::Flow(usize::MAX, true)), send(0, &[Pkt::PingReq]), send(1, &[publish("b", "")])];
                s
            };
            let resume = || st(0, Act::Flow(usize::MAX, true));
            let mut s = base("S goes on");
            s.par = vec![vec![send(0, &[Pkt::PingReq, subscribe(8, &["c"]), unsubscribe(9, &["c"])])], vec![resume()]];
            v.push(s);
            let mut s = base("S and P go on");
            s.par = vec![vec![send(0, &[unsubscribe(9, &["c"])])], vec![send(1, &[publish("b", ""), Pkt::PingReq])], vec![resume()]];
            v.push(s);
            let mut s = base("S ends");
            s.par = vec![vec![send(0, &[Pkt::PingReq, Pkt::Disconnect])], vec![send(1, &[Pkt::PingReq])], vec![resume()]];
            v.push(s);
        }
    }
    v
}
