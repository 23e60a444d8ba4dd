//! Who is admitted (C34), and what can be subscribed to (C35).
use super::routing::{all_filters, level_seqs, WORLD};
use super::session::auth_config;
use crate::codec::*;
use crate::env::{cheap_hash, env, USERS};
use crate::explore::*;
use crate::hist::sequences;
use crate::model::{Lock, ALL};
use crate::real::{Broker, Conn, RealLock, PATIENCE};
use crate::report::*;
use crate::sys::*;
use std::sync::Arc;
use std::time::{Duration, Instant};
use tokio::mc::{self, CloseMode, Explore, Kind};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C34", families: c34, rule: "all levels with many protocol names, all flag bytes with the fields they announce, payloads of other layouts and lengths, cut at any place and with more packets behind them, as first and second packet, beside a client with the same id: admitted, answered with CONNACK 1 and closed, or closed, as the protocol says; nobody else notices. Histories of such connections; the real binary", assumptions: &[WORLD, "a password without a user name is not judged"] },
        Check { id: "C35", families: c35, rule: "all filters of up to three levels out of valid and malformed ones, alone and at any place of a list, in SUBSCRIBE and UNSUBSCRIBE; a wildcard inserted at every position of longer filters; histories of two clients: compared with the reference model after every packet", assumptions: &[WORLD] },
    ]
}

// ------------------------------------------------------------------ C34

#[derive(Clone, Debug)]
struct First {
    name: Vec<u8>,
    level: u8,
    flags: u8,
    /// what follows the keep alive
    rest: Vec<u8>,
}
impl First {
    /// With the fields that the flags announce.
    fn with_fields(name: &[u8], level: u8, flags: u8, id: &str) -> First {
        let mut rest = vec![];
        let mut put = |t: &[u8]| {
            rest.extend((t.len() as u16).to_be_bytes());
            rest.extend(t);
        };
        put(id.as_bytes());
        if flags & 4 != 0 {
            put(b"will");
            put(b"gone");
        }
        if flags & 128 != 0 {
            put(b"anna");
        }
        if flags & 64 != 0 {
            put(b"wonder");
        }
        First { name: name.to_vec(), level, flags, rest }
    }
    fn bytes(&self) -> Vec<u8> {
        let body = [&(self.name.len() as u16).to_be_bytes()[..], &self.name, &[self.level, self.flags, 0, 30], &self.rest].concat();
        let mut b = vec![0x10];
        let mut n = body.len();
        loop {
            b.push((n % 128) as u8 | if n > 127 { 128 } else { 0 });
            n /= 128;
            if n == 0 {
                break;
            }
        }
        [b, body].concat()
    }
    /// What must come of it: admitted, CONNACK with this code, closed; None where nothing is asserted.
    fn want(&self) -> Option<Want> {
        let (name, level, f) = (&self.name[..], self.level, self.flags);
        match (name, level) {
            (b"MQTT", 4) | (b"MQIsdp", 3) => {}
            (b"MQTT", _) | (b"MQIsdp", _) => return Some(Want::Code(1)),
            _ => return Some(Want::Closed),
        }
        if f & 1 != 0 || f & 0x18 == 0x18 || (f & 4 == 0 && f & 0x38 != 0) {
            return Some(Want::Closed);
        }
        match f & 0xc0 {
            0 | 0xc0 => Some(Want::Admitted),
            0x80 => Some(Want::Code(5)),
            _ => None,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Want {
    Admitted,
    Code(u8),
    Closed,
}
const BEHIND: fn() -> Vec<Pkt> = || vec![subscribe(7, &["#"]), publish("from/it", "x"), Pkt::PingReq];

fn file() -> String {
    format!("anna:{}\n", cheap_hash("wonder", "U2FsdE9mTXlIYXNo"))
}
fn judge(want: Want, out: &[Out], closed: bool, behind: bool) -> Result<(), String> {
    let rest = [Out::SubAck { id: 7, codes: vec![0] }, Out::Publish { topic: b"from/it".to_vec(), payload: b"x".to_vec(), qos: 0, retain: false, dup: false, id: None }, Out::PingResp];
    let exp: Vec<Out> = match want {
        Want::Admitted => [&[Out::ConnAck { sp: 0, rc: 0 }][..], if behind { &rest[..] } else { &[] }].concat(),
        Want::Code(rc) => vec![Out::ConnAck { sp: 0, rc }],
        Want::Closed => vec![],
    };
    if out.len() != exp.len() || out.iter().zip(&exp).any(|(a, b)| format!("{:?}", a) != format!("{:?}", b)) {
        return Err(format!("receives {:?} instead of {:?}", out, exp));
    }
    if closed != (want != Want::Admitted) {
        return Err(if closed { "is closed".into() } else { "stays open".into() });
    }
    Ok(())
}

fn admit(f: &First, cut: Option<usize>, behind: bool, explore: Explore, ctx: &Ctx) -> Fallible<()> {
    let Some(want) = f.want() else { return Ok(()) };
    let what = || format!("protocol {:?} level {} flags {:#04x} payload {}", String::from_utf8_lossy(&f.name), f.level, f.flags, clip(&hex(&f.rest), 100));
    let mut s = Sys::boot(&auth_config(&file()), ctx.devs.clone(), explore, ctx.trace)?;
    let open = |s: &mut Sys| s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"));
    // the other one has the id that most of them use
    let other = open(&mut s)?;
    s.send_pkts(other, &[connect("same"), subscribe(1, &["#"])]);
    s.quiesce()?;
    s.set_exploring(explore.sched);
    let c = open(&mut s)?;
    let mut b = f.bytes();
    if behind {
        b.extend(encode_all(&BEHIND()));
    }
    match cut {
        Some(n) if n < b.len() => {
            s.send(c, &b[..n]);
            s.quiesce()?;
            s.send(c, &b[n..]);
        }
        _ => s.send(c, &b),
    }
    while explore.sched && s.runnable() > 0 {
        let n = s.runnable();
        s.run_task(mc::with(|w| w.choose(n, Kind::Sched)))?;
    }
    s.quiesce()?;
    s.set_exploring(false);
    s.check_wellformed()?;
    judge(want, &s.outs(c), s.is_closed(c), behind).map_err(|m| Fail::new("admission", format!("{}: {}", what(), m)))?;
    let o = s.outs(other);
    let got = o.iter().filter(|o| o.is_delivery()).count();
    let taken = want == Want::Admitted && f.rest.starts_with(b"\0\x04same");
    if s.is_closed(other) != taken || o.len() - got != 2 || got != usize::from(want == Want::Admitted && behind && !taken) {
        return Err(Fail::new("noticed", format!("{}: the other client, {}, received {:?}", what(), if s.is_closed(other) { "now closed" } else { "still connected" }, o)));
    }
    if !taken {
        s.send_pkts(other, &[publish("own", "y"), Pkt::PingReq]);
        s.quiesce()?;
        if s.outs(other).len() != o.len() + 2 {
            return Err(Fail::new("not-served", format!("{}: the other client is not served any more", what())));
        }
        let own = s.outs(c).iter().any(|o| matches!(o, Out::Publish { topic, .. } if topic == b"own"));
        if own != (want == Want::Admitted && behind) {
            return Err(Fail::new("delivered", format!("{}: deliveries: {:?}", what(), s.outs(c))));
        }
    }
    visit(&(want, f.level, f.flags, &f.name));
    outcome(&want);
    sample(|| format!("{}: {:?}", what(), want));
    s.end();
    Ok(())
}
fn names() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ["MQTT", "MQIsdp", "", "M", "MQ", "MQT", "MQTTT", "MQTT ", " MQTT", "mqtt", "Mqtt", "MQTt", "MQISDP", "MQIsd", "MQIsdp\0", "MQTT\0", "MQTTMQTT", "MQIsdpMQTT", "HTTP", "AMQP", "\u{feff}MQTT", "M\u{1d0}TT"].iter().map(|s| s.as_bytes().to_vec()).collect();
    v.push(vec![0xff, b'Q', b'T', b'T']);
    v.push(b"MQTT".iter().map(|c| c | 0x80).collect());
    v.push(vec![b'M'; 300]);
    v.push([b"MQTT".to_vec(), vec![0; 5000]].concat());
    v
}

fn c34(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let label = |(f, cut, behind): &(First, Option<usize>, bool)| format!("{:?} level {} flags {:#04x} payload {}, cut {:?}, {}", clip(&String::from_utf8_lossy(&f.name), 30), f.level, f.flags, clip(&hex(&f.rest), 60), cut, if *behind { "more behind it" } else { "alone" });
    let mk = |name: &str, list: Vec<(First, Option<usize>, bool)>| cases(name, list, |(f, c, b), ctx| admit(f, *c, *b, Explore::default(), ctx), label);
    // names and levels
    let mut list = vec![];
    for n in names() {
        for level in 0..=255u8 {
            for flags in tier.pick(&[2u8, 0, 0xc2][..], &[2, 0, 0xc2, 3, 0xff, 0x2e]) {
                for behind in [false, true] {
                    list.push((First::with_fields(&n, level, *flags, if level % 2 == 0 { "same" } else { "new" }), None, behind));
                }
            }
        }
    }
    v.push(mk("names and levels", list));
    // flags
    let good: [(&[u8], u8); 2] = [(b"MQTT", 4), (b"MQIsdp", 3)];
    let mut list = vec![];
    for (n, l) in good {
        for flags in 0..=255u8 {
            for id in ["same", "new", ""] {
                for behind in [false, true] {
                    list.push((First::with_fields(n, l, flags, id), None, behind));
                }
            }
        }
    }
    // the flags mean nothing where the protocol is another one
    for (n, l) in [(&b"MQTT"[..], 5u8), (b"MQTT", 3), (b"MQIsdp", 4), (b"MQTT", 0x84), (b"MQTU", 4)] {
        for flags in 0..=255u8 {
            list.push((First::with_fields(n, l, flags, "same"), None, flags % 2 == 0));
        }
    }
    v.push(mk("all flags", list));
    // payloads of other layouts
    let mut list = vec![];
    let five: Vec<Vec<u8>> = vec![
        b"\0\0\x04same".to_vec(),
        b"\x05\x11\0\0\0\x0a\0\x04same".to_vec(),
        b"\x08\x26\0\x01a\0\x01b\0\0\x04same".to_vec(),
        b"\0\0\x04same\0\x04anna\0\x06wonder".to_vec(),
        b"".to_vec(),
        b"\0".to_vec(),
        b"\xff\xff".to_vec(),
        b"\0\x04same".to_vec(),
        b"\0\x04sam".to_vec(),
        b"\0\x05\xff\xfe\xfd\xfc\xfb".to_vec(),
        b"\0\x04same\x82\x06\0\x01\0\x01#\0".to_vec(),
    ];
    for rest in &five {
        for (n, level) in [(&b"MQTT"[..], 5u8), (b"MQTT", 3), (b"MQTT", 0), (b"MQTT", 6), (b"MQTT", 255), (b"MQIsdp", 4), (b"MQIsdp", 5), (b"MQTX", 4)] {
            for flags in [2u8, 0, 0xc2, 1, 0xff] {
                let f = First { name: n.to_vec(), level, flags, rest: rest.clone() };
                for behind in [false, true] {
                    let n = f.bytes().len();
                    list.extend([None].into_iter().chain((1..=n + 3).map(Some)).map(|c| (f.clone(), c, behind)));
                }
            }
        }
    }
    for n in [100usize, 127, 128, 4080, 4090, 4096, 4100, 8192, 20_000, 65_536, 100_000] {
        for (name, level) in [(&b"MQTT"[..], 5u8), (b"MQIsdp", 6), (b"HTTP", 4)] {
            for fill in [0u8, 0x30, 0xc0, 0xff] {
                let f = First { name: name.to_vec(), level, flags: 2, rest: vec![fill; n] };
                for cut in [None, Some(5), Some(20), Some(4096), Some(n / 2), Some(n + 5)] {
                    list.push((f.clone(), cut, true));
                }
            }
        }
    }
    v.push(mk("other layouts", list));
    // under other schedules
    let mut list = vec![];
    for (n, l) in [(&b"MQTT"[..], 4u8), (b"MQIsdp", 3), (b"MQTT", 5), (b"HTTP", 4)] {
        for flags in tier.pick(&[2u8, 0xc2, 3][..], &[2, 0xc2, 3, 0x0a, 0x82]) {
            for id in ["same", "new"] {
                list.push((First::with_fields(n, l, *flags, id), None, true));
            }
        }
    }
    let full = Explore { sched: true, preempt: true, select: true, io: true };
    v.push(cases("schedules", list, move |(f, c, b), ctx| admit(f, *c, *b, full, ctx), label).bound(tier.pick(2, 3)));
    // histories
    let mut al: Vec<(First, bool)> = vec![];
    for (n, l) in [(&b"MQTT"[..], 4u8), (b"MQIsdp", 3), (b"MQTT", 5), (b"MQIsdp", 4), (b"MQTT", 3), (b"HTTP", 4)] {
        for flags in [2u8, 3, 0x0a, 0xc2, 0x82] {
            al.push((First::with_fields(n, l, flags, "same"), flags & 1 == 0));
        }
    }
    let al = Arc::new(al);
    for d in 2..=tier.pick(3usize, 4) {
        let (a, b) = (al.clone(), al.clone());
        v.push(cases(
            format!("histories of {} connections", d),
            sequences(al.len(), d, &|_| true),
            move |q, ctx| {
                let mut s = Sys::boot(&auth_config(&file()), vec![], Explore::default(), ctx.trace)?;
                let mut all: Vec<(usize, Want)> = vec![];
                for i in q {
                    let (f, open_first) = &a[*i as usize];
                    let want = f.want().unwrap();
                    let c = s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"))?;
                    if *open_first {
                        s.send(c, &f.bytes()[..1]);
                        s.quiesce()?;
                        s.send(c, &f.bytes()[1..]);
                    } else {
                        s.send(c, &f.bytes());
                    }
                    s.quiesce()?;
                    if want == Want::Admitted {
                        // it has the id of the one before
                        for x in all.iter_mut().filter(|x| x.1 == Want::Admitted) {
                            x.1 = Want::Closed;
                        }
                    }
                    all.push((c, want));
                    s.check_wellformed()?;
                    judge(want, &s.outs(c), s.is_closed(c), false).map_err(|m| Fail::new("admission", format!("connection {} {:?} of {:?}: {}", c, f, q, m)))?;
                    for (c, w) in &all {
                        if s.is_closed(*c) != (*w != Want::Admitted) {
                            return Err(Fail::new("admission", format!("after {:?}: connection {} is {}", q, c, if s.is_closed(*c) { "closed" } else { "open" })));
                        }
                    }
                }
                s.check_panics()?;
                visit(&all);
                outcome(&all.iter().map(|x| x.1).collect::<Vec<_>>());
                s.end();
                Ok(())
            },
            move |q| format!("{:?}", q.iter().map(|i| b[*i as usize].0.clone()).map(|f| (String::from_utf8_lossy(&f.name).into_owned(), f.level, f.flags)).collect::<Vec<_>>()),
        ));
    }
    // as the second packet
    let mut list = vec![];
    for n in names().into_iter().take(8) {
        for level in [0u8, 3, 4, 5, 6, 255] {
            for flags in [2u8, 3, 0xc2] {
                for id in ["me", "same", "new"] {
                    list.push(First::with_fields(&n, level, flags, id));
                }
            }
        }
    }
    v.push(cases(
        "as the second packet",
        list,
        |f, ctx| {
            let mut s = Sys::boot(&auth_config(&file()), vec![], Explore::default(), ctx.trace)?;
            let open = |s: &mut Sys| s.open(L1).ok_or_else(|| Fail::new("refused", "the listener is gone"));
            let other = open(&mut s)?;
            s.send_pkts(other, &[connect("same"), subscribe(1, &["#"])]);
            let c = open(&mut s)?;
            s.send_pkts(c, &[connect("me")]);
            s.quiesce()?;
            s.send(c, &[f.bytes(), encode_all(&BEHIND())].concat());
            s.quiesce()?;
            s.check_wellformed()?;
            s.check_panics()?;
            if !s.is_closed(c) || s.outs(c).len() != 1 {
                return Err(Fail::new("admission", format!("{:?} after CONNECT: {:?}, {}", f, s.outs(c), if s.is_closed(c) { "closed" } else { "open" })));
            }
            s.send_pkts(other, &[Pkt::PingReq]);
            s.quiesce()?;
            if s.is_closed(other) || s.outs(other).len() != 3 {
                return Err(Fail::new("noticed", format!("{:?} after CONNECT: the other client received {:?}", f, s.outs(other))));
            }
            visit(&(&f.name, f.level, f.flags));
            outcome(&f.want());
            s.end();
            Ok(())
        },
        |f| format!("{:?} level {} flags {:#04x}", clip(&String::from_utf8_lossy(&f.name), 30), f.level, f.flags),
    ));
    // the real binary
    let mut list = vec![];
    for n in names() {
        for level in [0u8, 3, 4, 5, 255] {
            for flags in [2u8, 3, 0xc2, 0x0a] {
                list.push(First::with_fields(&n, level, flags, "c"));
            }
        }
    }
    for n in [0usize, 1, 4096, 70_000] {
        for level in [3u8, 5] {
            list.push(First { name: b"MQTT".to_vec(), level, flags: 2, rest: vec![0xff; n] });
        }
    }
    let list: Vec<Vec<First>> = list.chunks(20).map(|c| c.to_vec()).collect();
    v.push(cases(
        "real binary: names, levels and flags",
        list,
        |fs, _| {
            let mut b = Broker::start(1, &file(), |_, _| {})?;
            for f in fs {
                let want = f.want().unwrap();
                let mut c = Conn::open(b.addrs[0])?;
                c.send(&f.bytes());
                let t0 = Instant::now();
                let full = |c: &Conn| if want == Want::Admitted { !c.out.is_empty() } else { c.eof };
                while t0.elapsed() < PATIENCE && !full(&c) {
                    c.collect();
                    std::thread::sleep(Duration::from_millis(1));
                }
                if let Some(m) = &c.bad {
                    return Err(Fail::new("garbled", m.clone()));
                }
                judge(want, &c.out, c.eof, false).map_err(|m| Fail::new("admission", format!("with the real binary, {:?}: {}", f, m)))?;
                visit(&(&f.name, f.level, f.flags));
                outcome(&want);
                c.close(CloseMode::Close);
            }
            b.interrupt();
            Ok(())
        },
        |fs| format!("{} of them, the first {:?} level {} flags {:#04x}", fs.len(), clip(&String::from_utf8_lossy(&fs[0].name), 30), fs[0].level, fs[0].flags),
    ));
    v
}

// ------------------------------------------------------------------ C35

const TOPICS: &[&str] = &["a", "a/b", "a+", "a/a", "/", "b"];

fn filtered(filters: &[String], un: bool, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
    let fs: Vec<&str> = filters.iter().map(|s| s.as_str()).collect();
    let p = l.open(L1)?;
    l.send(p, &[connect("p"), subscribe(1, &["a", "#"])])?;
    let c = l.open(L1)?;
    l.send(c, &[connect("c"), subscribe(1, &["a", "+/b"])])?;
    let talk = |l: &mut Lock, p: usize| -> Fallible<()> {
        for t in TOPICS.iter().copied().filter(|t| !t.contains('+')) {
            l.send(p, &[publish(t, "")])?;
        }
        Ok(())
    };
    if un {
        l.send(c, &[unsubscribe(9, &fs), publish("a", ""), Pkt::PingReq])?;
    } else {
        l.send(c, &[subscribe(9, &fs), publish("a", ""), Pkt::PingReq])?;
    }
    talk(&mut l, p)?;
    // the same id again
    let d = l.open(L1)?;
    l.send(d, &[connect("c"), subscribe(3, &["b"])])?;
    talk(&mut l, p)?;
    let ok = filters.iter().all(|f| valid_filter(f));
    visit(&(filters, un));
    outcome(&(ok, un));
    l.log = vec![format!("{} {:?}: {}", if un { "UNSUBSCRIBE" } else { "SUBSCRIBE" }, filters.iter().map(|f| clip(f, 60)).collect::<Vec<_>>(), if ok { "valid" } else { "malformed" })];
    l.finish();
    Ok(())
}

fn c35(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let label = |(f, un): &(Vec<String>, bool)| format!("{} {:?}", if *un { "UNSUBSCRIBE" } else { "SUBSCRIBE" }, f.iter().map(|f| clip(f, 60)).collect::<Vec<_>>());
    let mk = |name: &str, list: Vec<Vec<String>>| cases(name, list.into_iter().flat_map(|f| [(f.clone(), false), (f, true)]).collect(), |(f, un), ctx| filtered(f, *un, ctx), label);
    let levels: &[&str] = &["a", "", "+", "#", "a+", "+a", "a#", "#a", "++", "##", "+#", "\0", "a\0", "$"];
    let join = |q: Vec<Vec<String>>| -> Vec<String> { q.iter().map(|l| l.join("/")).collect() };
    let mut one: Vec<String> = vec![];
    for d in 1..=tier.pick(4usize, 5) {
        one.extend(join(level_seqs(levels, d)));
    }
    v.push(mk("one filter", one.iter().map(|f| vec![f.clone()]).collect()));
    // in lists
    let mut few: Vec<String> = join(level_seqs(levels, 1));
    few.extend(join(level_seqs(&["a", "", "+", "#", "a#", "+a", "\0"], 2)));
    let mut list = vec![];
    for f in &few {
        for g in ["a", "#", "+/a", ""] {
            list.push(vec![f.clone(), g.into()]);
            list.push(vec![g.into(), f.clone()]);
            list.push(vec![g.into(), f.clone(), "a/b".into()]);
        }
        for at in [0usize, 1, 49, 99] {
            let mut l: Vec<String> = (0..99).map(|i| format!("f/{}", i)).collect();
            l.insert(at, f.clone());
            list.push(l);
        }
    }
    v.push(mk("in lists", list));
    // longer ones
    let mut long = vec![];
    for base in ["abcdefgh", "a/b/c/d/e", "\u{e9}\u{e9}/\u{1f980}", "averylongfilter/with/levels/and/more/levels/so/that/it/exceeds/sixtyfour/bytes", "+/+/+/#", "////"] {
        let chars: Vec<char> = base.chars().collect();
        for i in 0..=chars.len() {
            for w in ["+", "#", "\0", "/+", "/#", "+/", "#/", "/+/", "/#/", "//"] {
                let s: String = chars[..i].iter().collect::<String>() + w + &chars[i..].iter().collect::<String>();
                long.push(s);
            }
        }
        long.push(base.to_string());
    }
    for n in [127usize, 128, 255, 256, 4094, 4096, 65_534] {
        for w in ["+", "#", "\0", "/", "b"] {
            long.push("a".repeat(n) + w);
            long.push(w.to_string() + &"a".repeat(n));
            if n > 1000 {
                long.push("a".repeat(n / 2) + w + &"a".repeat(n - n / 2));
                long.push("a/".repeat(n / 2) + w);
            }
        }
    }
    long.retain(|f| f.len() <= 65_535);
    v.push(mk("longer filters", long.iter().map(|f| vec![f.clone()]).collect()).cpu_limit(120.0));
    // histories of two clients
    let mut ops: Vec<(usize, Vec<Pkt>)> = vec![];
    for c in 0..2 {
        ops.push((c, vec![connect("same")]));
        ops.push((c, vec![subscribe(1, &["a", "a#"])]));
        ops.push((c, vec![subscribe(2, &["a", "+"]), Pkt::PingReq]));
        ops.push((c, vec![unsubscribe(3, &["a", "#/a"]), publish("a", "")]));
        ops.push((c, vec![publish("a", "")]));
        ops.push((c, vec![publish("", "")]));
    }
    let ops = Arc::new(ops);
    for d in 2..=tier.pick(5usize, 6) {
        let (a, b) = (ops.clone(), ops.clone());
        v.push(cases(
            format!("histories of {} steps", d),
            sequences(ops.len(), d, &|_| true),
            move |q, ctx| {
                let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
                let mut slot = [None; 2];
                for i in q {
                    let (c, p) = &a[*i as usize];
                    let new = matches!(p[0], Pkt::Connect { .. });
                    let x = match slot[*c] {
                        Some(x) if !new => x,
                        _ => {
                            let x = l.open(L1)?;
                            if !new {
                                l.send(x, &[connect(["x", "y"][*c])])?;
                            }
                            slot[*c] = Some(x);
                            x
                        }
                    };
                    l.send(x, p)?;
                }
                visit(&l.model);
                l.finish();
                Ok(())
            },
            move |q| format!("{:?}", q.iter().map(|i| &b[*i as usize]).collect::<Vec<_>>()),
        ));
    }
    // the real binary
    let mut list: Vec<(String, bool)> = all_filters(&["a", "a#", "+a", "\0"], 2).into_iter().chain(join(level_seqs(&["a", "#", "a+", ""], 3))).flat_map(|f| [(f.clone(), false), (f, true)]).collect();
    list.dedup();
    let list: Vec<Vec<(String, bool)>> = list.chunks(12).map(|c| c.to_vec()).collect();
    v.push(cases(
        "real binary: filters",
        list,
        |fs, _| {
            let mut l = RealLock::boot(1, ALL)?;
            let p = l.open(L1)?;
            l.send(p, &[connect("p"), subscribe(1, &["a"])])?;
            for (f, un) in fs {
                visit(&(f, un));
                let c = l.open(L1)?;
                l.send(c, &[connect("c"), subscribe(1, &["a"])])?;
                l.send(c, &[if *un { unsubscribe(2, &["a", f]) } else { subscribe(2, &["b", f]) }])?;
                l.send(p, &[publish("a", "")])?;
                l.send(p, &[publish("b", "")])?;
            }
            outcome(&l.exp);
            l.log.clear();
            l.probe(L1)
        },
        |fs| format!("{:?}", fs),
    ));
    v
}
