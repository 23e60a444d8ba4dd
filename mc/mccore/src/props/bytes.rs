//! Byte streams: C10, C11, C12, C13.
use super::routing::{RELIABLE, SMALL, WORLD};
use crate::codec::*;
use crate::env::{env, USERS};
use crate::explore::*;
use crate::model::*;
use crate::report::*;
use crate::script::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{self, CloseMode, Explore};

pub fn checks() -> Vec<Check> {
    vec![
        Check { id: "C10", families: c10, rule: "for a catalogue of packet streams: every way to cut the short ones into pieces (all 2^(n-1)), every one and two cuts and every chunk size of the longer ones, with packets placed at every offset around the 4096-byte buffer boundaries; after every piece the replies, deliveries and closes must be exactly the model's for the packets complete so far; plus all partial reads within the deviation bound", assumptions: &[WORLD, RELIABLE] },
        Check { id: "C11", families: c11, rule: "every truncation and every substitution of one byte by any value of a catalogue of packets, every first byte with a range of lengths and fillers, every two-byte string, every inner length field over a range, and every pipeline of valid, malformed, valid packets, before and after CONNECT, with bystanders that are compared with the model; all schedules within the bound of malformed input racing other clients; no task may panic or spin", assumptions: &[WORLD, RELIABLE, "input that MQTT 3.1.1 leaves open (reserved CONNECT flag bits, packet id 0, empty topics and similar) must only not harm anyone else"] },
        Check { id: "C12", families: c12, rule: "every window size x amount per read x traffic pattern in the stated ranges, and all patterns of short writes within the deviation bound; the bytes received so far must always be a prefix of the concatenated reference encodings and equal to them once drained", assumptions: &[WORLD, RELIABLE] },
        Check { id: "C13", families: c13, rule: "every payload size and topic length in contiguous ranges around zero, the buffer size and its multiples and every boundary of the length field, alone and in pairs on one connection; deliveries are parsed strictly and compared byte for byte", assumptions: &[WORLD, "sizes between the ranges behave like their neighbours"] },
    ]
}

pub const STRICT: Mask = Mask { replies: true, deliveries: true, flags: true, closes: true, panics: false };

fn payload(n: usize) -> Vec<u8> {
    // position-dependent, not periodic in powers of two
    (0..n).map(|i| ((i * 7 + i / 251 * 13 + i / 4093) & 255) as u8).collect()
}
pub fn publish_bytes(topic: &str, n: usize) -> Pkt {
    Pkt::Publish { topic: topic.into(), payload: payload(n), qos: 0, retain: false, dup: false, id: 0 }
}
fn full_connect(id: &str, auth: bool) -> Pkt {
    Pkt::Connect {
        id: id.into(),
        clean: true,
        keep: 60,
        will: Some(Will { topic: "wi/ll".into(), payload: vec![0xe0, 0x00, 0xff, 0x30], qos: 1, retain: true }),
        user: auth.then(|| "alice".to_string()),
        pass: auth.then(|| "wonder".to_string()),
    }
}

// ------------------------------------------------------------------ C10

pub struct Stream {
    pub name: String,
    /// sent in one piece before
    pub before: Vec<Pkt>,
    pub bytes: Vec<u8>,
}
fn stream(name: &str, before: &[Pkt], pkts: &[Pkt]) -> Arc<Stream> {
    Arc::new(Stream { name: name.into(), before: before.to_vec(), bytes: encode_all(pkts) })
}

fn run_split(s: &Stream, cuts: &[usize], ctx: &Ctx) -> Fallible<()> {
    run_split_slowly(s, cuts, 0, ctx)
}
/// So many seconds pass between the pieces.
pub fn run_split_slowly(s: &Stream, cuts: &[usize], secs: u64, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, STRICT, ctx.trace)?;
    l.patient = true;
    let w = l.open(L1)?;
    l.send(w, &[connect("watcher"), subscribe(1, &["#"])])?;
    let c = l.open(L1)?;
    if !s.before.is_empty() {
        l.send(c, &s.before)?;
    }
    let mut from = 0;
    for to in cuts.iter().copied().chain(std::iter::once(s.bytes.len())) {
        l.send_raw(c, &s.bytes[from..to])?;
        if secs > 0 {
            l.idle(secs)?;
        }
        from = to;
    }
    l.send(c, &[publish("fin/x", ""), Pkt::PingReq])?;
    l.send(w, &[publish("fin/y", ""), Pkt::PingReq])?;
    l.finish();
    Ok(())
}

pub fn short_streams() -> Vec<Arc<Stream>> {
    let c = [connect("c")];
    vec![
        stream("CONNECT PINGREQ", &[], &[connect("A"), Pkt::PingReq]),
        stream("SUBSCRIBE PUBLISH PINGREQ", &c, &[subscribe(1, &["a"]), publish("a", "x"), Pkt::PingReq]),
        stream("UNSUBSCRIBE PUBLISH(QoS 1) DISCONNECT", &[connect("c"), subscribe(1, &["a"])], &[unsubscribe(2, &["a"]), publish_q("a", "", 1, 7), Pkt::Disconnect]),
        stream("PUBACK PUBREC PUBREL PUBCOMP", &c, &[Pkt::PubAck(1), Pkt::PubRec(2), Pkt::PubRel(3), Pkt::PubComp(4)]),
        stream("PINGREQ SUBSCRIBE(2 filters) PINGREQ", &c, &[Pkt::PingReq, Pkt::Subscribe { id: 258, filters: vec![("a".into(), 1), ("b".into(), 2)] }, Pkt::PingReq]),
        stream("PUBLISH PUBLISH PUBLISH", &c, &[publish("a", ""), publish("b", "0"), publish("c", "")]),
        stream("PINGREQ and malformed", &c, &[Pkt::PingReq, publish("a", "1"), Pkt::Raw(vec![0x80, 2, 0, 1]), Pkt::PingReq, publish("b", "2")]),
        stream("PUBLISH before CONNECT", &[], &[publish("a", "1"), connect("A")]),
    ]
}
pub fn medium_streams() -> Vec<Arc<Stream>> {
    let c = [connect("c")];
    let all = [
        full_connect("c\u{00e9}\u{4e2d}", true),
        Pkt::Subscribe { id: 0x1020, filters: vec![("a/+".into(), 0), ("\u{1f980}/#".into(), 1), ("x".into(), 2)] },
        Pkt::Publish { topic: "a/b".into(), payload: vec![0xc0, 0, 0xe0, 0], qos: 2, retain: true, dup: true, id: 0x3031 },
        publish("\u{1f980}/\u{e9}", "\u{4e2d}"),
        Pkt::PubRel(0x3031),
        Pkt::PingReq,
        unsubscribe(0x4142, &["a/+", "nope"]),
        publish("x", ""),
        publish("a/b", "not delivered to c"),
        Pkt::PingReq,
        Pkt::Disconnect,
        publish("late", "ignored"),
    ];
    vec![
        stream("CONNECT with will", &[], &[full_connect("c", false), Pkt::PingReq]),
        stream("CONNECT with will and user", &[], &[full_connect("c", true), publish("a", "1")]),
        stream("all packet types", &[], &all),
        stream("PUBLISH with two length bytes", &c, &[publish_bytes("a", 125), publish_bytes("b", 126), Pkt::PingReq]),
        stream("length field of a filter at a boundary", &c, &[subscribe(1, &["a", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "b"]), publish("b", "")]),
    ]
}

fn c10(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    for s in short_streams() {
        let n = s.bytes.len();
        let bits = if n <= 17 || tier.thorough() { n - 1 } else { 16 };
        let cutlist = move |i: u64| (0..bits).filter(|b| i >> b & 1 == 1).map(|b| b + 1).collect::<Vec<usize>>();
        let s2 = s.clone();
        v.push(Family::new(
            format!("all cuts of: {}", s.name),
            1u64 << bits,
            move |i, ctx| run_split(&s2, &cutlist(i), ctx),
            move |i| format!("cut at {:?}", cutlist(i)),
        ));
    }
    // one and two cuts
    let mut list: Vec<(Arc<Stream>, Vec<usize>)> = vec![];
    for s in medium_streams() {
        let n = s.bytes.len();
        list.push((s.clone(), vec![]));
        for a in 1..n {
            list.push((s.clone(), vec![a]));
            let near = if tier.thorough() || n < 140 { n } else { (a + 12).min(n) };
            for b in a + 1..near {
                list.push((s.clone(), vec![a, b]));
            }
        }
        for k in 1..n {
            list.push((s.clone(), (1..).map(|i| i * k).take_while(|x| *x < n).collect()));
        }
        if n < 40 {
            for a in 1..n {
                for b in a + 1..n {
                    for c in b + 1..n {
                        list.push((s.clone(), vec![a, b, c]));
                    }
                }
            }
        }
    }
    v.push(cases("one and two cuts, equal chunks", list, |(s, cuts), ctx| run_split(s, cuts, ctx), |(s, cuts)| format!("{} cut at {:?}", s.name, cuts)));
    // packets around the buffer boundaries
    let mut list: Vec<(usize, usize, usize)> = vec![];
    for mult in 1..=tier.pick(2usize, 4) {
        let at = 4096 * mult;
        for off in 0..tier.pick(36, 64) {
            for seg in [0, at - 1, at, at + 1, at - 16, at + 16, at - 40, 10, 4000] {
                list.push((mult, off, seg));
            }
            if tier.thorough() {
                for seg in at - 45..at + 60 {
                    list.push((mult, off, seg));
                }
            }
        }
    }
    let make = |mult: usize, off: usize| {
        // the first PUBLISH ends 40 - off bytes before the boundary
        let mut pk = vec![connect("c"), subscribe(1, &["a", "b"])];
        let used = encode_all(&pk).len();
        let target = 4096 * mult - 26 + off - used - 6;
        pk.push(publish_bytes("a", target));
        pk.extend([publish("b", "after"), Pkt::PingReq, unsubscribe(513, &["a"]), publish("b", "\u{e9}nd"), publish("a", "gone"), Pkt::PingReq]);
        encode_all(&pk)
    };
    v.push(cases(
        "packets at buffer boundaries",
        list,
        move |(mult, off, seg), ctx| {
            let s = Stream { name: String::new(), before: vec![], bytes: make(*mult, *off) };
            let cuts: Vec<usize> = if *seg > 0 && *seg < s.bytes.len() { vec![*seg] } else { vec![] };
            run_split(&s, &cuts, ctx)
        },
        |(m, o, s)| format!("boundary {}, offset {}, cut at {}", 4096 * m, *o as i64 - 26, s),
    ));
    // long streams in equal chunks of every size
    let mut list = vec![];
    for k in (1..=tier.pick(64, 512)).chain(4080..=4112).chain([1000, 2048, 8191, 8192, 8193, 9000]) {
        list.push(k);
    }
    let long = {
        let mut pk = vec![full_connect("c", true), subscribe(1, &["a", "b/+"])];
        for n in [0, 1, 100, 127, 128, 1500, 3000, 700, 4096, 5, 2000] {
            pk.push(publish_bytes("a", n));
            pk.push(publish_bytes("b/c", n / 3));
            pk.push(Pkt::PingReq);
        }
        Arc::new(Stream { name: "long stream".into(), before: vec![], bytes: encode_all(&pk) })
    };
    v.push(
        cases(
            "long stream in equal chunks",
            list,
            move |k, ctx| {
                let cuts: Vec<usize> = (1..).map(|i| i * k).take_while(|x| *x < long.bytes.len()).collect();
                run_split(&long, &cuts, ctx)
            },
            |k| format!("chunks of {}", k),
        )
        .cpu_limit(60.0),
    );
    // partial reads chosen by the explorer
    let io = Explore { sched: false, preempt: false, select: false, io: true };
    let mut scripts = vec![];
    for st1 in medium_streams().into_iter().chain(short_streams()) {
        let mut s = script(format!("partial reads of: {}", st1.name), 2);
        s.explore = io;
        s.mask = STRICT;
        s.setup = join(0, "watcher", &["#"]);
        s.setup.push(opens(1));
        if !st1.before.is_empty() {
            s.setup.push(send(1, &st1.before));
        }
        s.par = vec![vec![st(1, Act::ShortIo), st(1, Act::Bytes(st1.bytes.clone()))]];
        s.finale = vec![send(0, &[Pkt::PingReq])];
        scripts.push(s);
    }
    v.push(family("partial reads", scripts, tier.pick(3, 5)));
    v.extend(super::more2::c10(tier));
    v.extend(super::more8::c10(tier));
    v
}

// ------------------------------------------------------------------ C11

pub const CONTAIN: Mask = Mask { replies: true, deliveries: true, flags: false, closes: true, panics: true };

#[derive(Clone, Debug)]
pub struct Attack {
    pub connected: bool,
    pub parts: Vec<Vec<u8>>,
    pub end: Option<CloseMode>,
}

pub fn run_attack(a: &Attack, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, CONTAIN, ctx.trace)?;
    let b = l.open(L1)?;
    l.send(b, &[connect("bystander"), subscribe(1, &["by/x"])])?;
    let e = l.open(L1)?;
    if a.connected {
        l.send(e, &[connect("evil"), subscribe(1, &["ev/x"])])?;
    }
    for p in &a.parts {
        l.send_raw(e, p)?;
    }
    if let Some(m) = a.end {
        l.close(e, m)?;
    }
    l.send(b, &[Pkt::PingReq])?;
    let p = l.open(L1)?;
    l.send(p, &[connect("publisher"), publish("by/x", ""), publish("ev/x", ""), Pkt::PingReq])?;
    if a.end.is_none() {
        l.close(e, CloseMode::Close)?;
    }
    let r = l.open(L1)?;
    l.send(r, &[connect("evil"), publish("ev/x", ""), publish("by/x", ""), Pkt::PingReq])?;
    l.running()?;
    l.finish();
    Ok(())
}
fn attacks(name: &str, list: Vec<Attack>) -> Family {
    cases(
        name,
        list,
        |a, ctx| run_attack(a, ctx),
        |a| format!("{} CONNECT: {}{}", if a.connected { "after" } else { "before" }, a.parts.iter().map(|p| hex(p)).collect::<Vec<_>>().join(" + "), a.end.map(|e| format!(", {:?}", e)).unwrap_or_default()),
    )
}
fn one(connected: bool, bytes: Vec<u8>) -> Attack {
    Attack { connected, parts: vec![bytes], end: None }
}

pub fn bases() -> Vec<Pkt> {
    vec![
        publish("ev/x", "hi"),
        Pkt::Publish { topic: "ev/x".into(), payload: b"hi".to_vec(), qos: 2, retain: true, dup: false, id: 0x0102 },
        publish("ev/\u{e9}", ""),
        subscribe(2, &["ev/y"]),
        Pkt::Subscribe { id: 3, filters: vec![("ev/+".into(), 1), ("e".into(), 2)] },
        unsubscribe(4, &["ev/x"]),
        unsubscribe(4, &["ev/x", "q"]),
        Pkt::PingReq,
        Pkt::PubAck(9),
        Pkt::PubRec(9),
        Pkt::PubRel(9),
        Pkt::PubComp(9),
        Pkt::Disconnect,
        connect("evil-two"),
    ]
}
pub fn connects() -> Vec<Pkt> {
    vec![connect("evil"), connect(""), full_connect("evil", true), full_connect("evil", false), connect_as("evil", "bob", Some("builder")), connect_as("evil", "bob", None)]
}

/// Malformed beyond doubt, complete.
pub fn malformed() -> Vec<Vec<u8>> {
    let mut m: Vec<Vec<u8>> = vec![
        // reserved types and packets only a server may send
        vec![0x00, 0],
        vec![0xf0, 0],
        vec![0x20, 2, 0, 0],
        vec![0x90, 3, 0, 1, 0],
        vec![0xb0, 2, 0, 1],
        vec![0xd0, 0],
        // reserved flags
        vec![0x80, 6, 0, 1, 0, 1, b'a', 0],
        vec![0xa0, 5, 0, 1, 0, 1, b'a'],
        vec![0x41, 2, 0, 1],
        vec![0x60, 2, 0, 1],
        vec![0xc1, 0],
        vec![0xe8, 0],
        // QoS 3
        vec![0x36, 6, 0, 1, b'a', 0, 1, b'x'],
        vec![0x82, 6, 0, 1, 0, 1, b'a', 3],
        vec![0x82, 6, 0, 1, 0, 1, b'a', 0x80],
        // lengths
        vec![0x30, 0],
        vec![0x30, 1, 0],
        vec![0x30, 2, 0, 1],
        vec![0x30, 5, 0, 9, b'a', b'b', b'c'],
        vec![0x32, 3, 0, 1, b'a'],
        vec![0x32, 4, 0, 1, b'a', 0],
        vec![0x40, 0],
        vec![0x40, 3, 0, 1, 0],
        vec![0x62, 1, 0],
        vec![0xc0, 1, 0],
        vec![0xe0, 2, 0, 0],
        vec![0x82, 2, 0, 1],
        vec![0x82, 5, 0, 1, 0, 1, b'a'],
        vec![0x82, 7, 0, 1, 0, 5, b'a', 0, 0],
        vec![0xa2, 2, 0, 1],
        vec![0xa2, 6, 0, 1, 0, 9, b'a', b'b'],
        vec![0x30, 0xff, 0xff, 0xff, 0xff, 1],
        vec![0x30, 0x80, 0x80, 0x80, 0x80, 0],
        // text
        vec![0x30, 4, 0, 2, 0xc3, 0x28],
        vec![0x30, 5, 0, 3, 0xed, 0xa0, 0x80],
        vec![0x82, 7, 0, 1, 0, 2, 0xff, 0xfe, 0],
        vec![0xa2, 6, 0, 1, 0, 2, 0xc3, 0x28],
        // wildcards in a topic
        publish("ev/+", "x").encode(),
        publish("#", "x").encode(),
    ];
    // CONNECTs that end inside their fields, or do not end with them
    let c = connect("evil").encode();
    for cut in 2..c.len() {
        let mut b = c[..cut].to_vec();
        b[1] = (cut - 2) as u8;
        m.push(b);
    }
    let mut long = c.clone();
    long[1] += 1;
    long.push(0);
    m.push(long);
    let mut utf = c;
    let n = utf.len();
    utf[n - 1] = 0xff;
    m.push(utf);
    m
}

fn c11(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // truncations
    let mut list = vec![];
    for (conn, base) in [(true, bases()), (false, connects()), (false, bases())] {
        for p in base {
            let b = p.encode();
            for cut in 0..b.len() {
                for m in [CloseMode::Fin, CloseMode::Close, CloseMode::Reset] {
                    list.push(Attack { connected: conn, parts: vec![b[..cut].to_vec()], end: Some(m) });
                }
            }
        }
    }
    for cut in 1..14 {
        let b = publish("by/x", "cut short").encode();
        list.push(Attack { connected: true, parts: vec![b[..cut].to_vec()], end: Some(CloseMode::Fin) });
        let mut two = publish("by/x", "complete").encode();
        two.extend(&b[..cut]);
        list.push(Attack { connected: true, parts: vec![two], end: Some(CloseMode::Fin) });
    }
    v.push(attacks("truncated packets", list));
    // substitutions
    for (conn, base) in [(true, bases()), (false, connects())] {
        let mut list = vec![];
        for p in base {
            let b = p.encode();
            for i in 0..b.len() {
                for x in 0..=255u8 {
                    if x != b[i] {
                        let mut m = b.clone();
                        m[i] = x;
                        list.push(one(conn, m));
                    }
                }
            }
        }
        v.push(attacks(if conn { "one byte substituted, after CONNECT" } else { "one byte substituted in CONNECT" }, list));
    }
    // inner and outer lengths
    let mut list = vec![];
    for (conn, base) in [(true, bases()), (false, connects())] {
        for p in base {
            let b = p.encode();
            for i in 2..b.len().saturating_sub(1) {
                for n in (0..=tier.pick(24u16, 80)).chain([127, 128, 255, 256, 257, 4096, 32767, 65535]) {
                    let mut m = b.clone();
                    m[i..i + 2].copy_from_slice(&n.to_be_bytes());
                    if m != b {
                        list.push(one(conn, m));
                    }
                }
            }
        }
    }
    v.push(attacks("any two bytes replaced by a length", list));
    let mut list = vec![];
    for conn in [true, false] {
        for first in 0..=255u8 {
            for n in (0..=tier.pick(6usize, 16)).chain([127, 128, 200]) {
                for fill in [0u8, b'a', 0xff, 1] {
                    let mut b = vec![first];
                    put_len(&mut b, n);
                    b.resize(b.len() + n, fill);
                    list.push(one(conn, b));
                }
            }
            for l in [vec![0x80, 0], vec![0x80, 0x80, 0x80, 0x80], vec![0xff, 0xff, 0xff, 0x7f], vec![0xff, 0xff, 0xff, 0xff, 0x7f], vec![0x82, 0x00, 0, 0], vec![0x80, 0x80, 0x80, 0x01]] {
                let mut b = vec![first];
                b.extend(l);
                list.push(one(conn, b));
            }
        }
    }
    v.push(attacks("first byte and length", list));
    // all short strings
    let mut list: Vec<Attack> = vec![];
    for a in 0..=255u8 {
        list.push(one(true, vec![a]));
        list.push(one(false, vec![a]));
        for b in 0..=255u8 {
            list.push(one(true, vec![a, b]));
            if tier.thorough() {
                list.push(one(false, vec![a, b]));
            }
        }
    }
    v.push(attacks("all strings of one or two bytes", list));
    if tier.thorough() {
        let al: Vec<u8> = vec![0, 1, 2, 3, 4, 5, 0x10, 0x30, 0x32, 0x36, 0x40, 0x62, 0x7f, 0x80, 0x82, 0xa2, 0xc0, 0xe0, 0xff, b'a', b'#'];
        let n = al.len();
        let al = Arc::new(al);
        let word = move |i: u64| {
            let mut i = i as usize;
            let mut b = vec![];
            for _ in 0..4 {
                b.push(al[i % n]);
                i /= n;
            }
            b
        };
        let w2 = word.clone();
        v.push(Family::new("all strings of four bytes over a reduced alphabet", (n * n * n * n) as u64, move |i, ctx| run_attack(&one(true, word(i)), ctx), move |i| hex(&w2(i))));
    }
    // valid, malformed, valid
    let firsts: Vec<Vec<Pkt>> = vec![vec![], vec![publish("by/x", "before")], vec![subscribe(2, &["ev/y"]), Pkt::PingReq], vec![unsubscribe(3, &["ev/x"])], vec![Pkt::Disconnect]];
    let seconds: Vec<Vec<Pkt>> = vec![vec![publish("by/x", "after")], vec![subscribe(5, &["by/x"]), Pkt::PingReq], vec![connect("bystander")], vec![Pkt::Disconnect], vec![Pkt::Raw(vec![0; 300])]];
    let mut list = vec![];
    for f in &firsts {
        for m in malformed() {
            for s in &seconds {
                for conn in [true, false] {
                    let (fb, sb) = (encode_all(f), encode_all(s));
                    let together: Vec<u8> = [fb.clone(), m.clone(), sb.clone()].concat();
                    list.push(one(conn, together));
                    list.push(Attack { connected: conn, parts: vec![[fb, m.clone()].concat(), sb], end: None });
                }
            }
        }
    }
    v.push(attacks("valid, malformed, valid", list));
    // many malformed connections in a row
    let ms = malformed();
    let mut list: Vec<(usize, usize)> = vec![];
    for n in [2, 40, 100] {
        for k in 0..ms.len() {
            list.push((n, k));
        }
    }
    v.push(cases(
        "many broken connections",
        list,
        move |(n, k), ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, CONTAIN, ctx.trace)?;
            let b = l.open(L1)?;
            l.send(b, &[connect("bystander"), subscribe(1, &["by/x"])])?;
            for i in 0..*n {
                let e = l.open(L1)?;
                l.send(e, &[connect(&format!("evil{}", i)), subscribe(1, &["by/x"])])?;
                l.send_raw(e, &ms[*k])?;
            }
            l.send(b, &[Pkt::PingReq, publish("by/x", "")])?;
            l.probe(L1)?;
            l.finish();
            Ok(())
        },
        |(n, k)| format!("{} connections sending malformed packet {}", n, k),
    ));
    // concurrently
    let mut scripts = vec![];
    let picks: Vec<Vec<u8>> = vec![vec![0x36, 6, 0, 1, b'a', 0, 1, b'x'], vec![0x30, 5, 0, 9, b'a', b'b', b'c', 0x30], vec![0x30, 4, 0, 2, 0xc3, 0x28], vec![0xf0, 0], vec![0x82, 2, 0, 1]];
    for (k, m) in picks.iter().enumerate() {
        let mut s = script(format!("malformed {} after traffic", k), 3);
        s.mask = CONTAIN;
        s.setup = [join(0, "bystander", &["by/x"]), join(1, "evil", &["by/x"]), join(2, "pub", &[])].concat();
        s.par = vec![
            vec![send(1, &[publish("by/x", "")]), st(1, Act::Bytes([m.clone(), publish("by/x", "late").encode()].concat()))],
            vec![send(2, &[publish("by/x", ""), publish("by/x", "")])],
            vec![send(0, &[Pkt::PingReq])],
        ];
        s.finale = vec![send(2, &[publish("by/x", "")]), send(0, &[Pkt::PingReq])];
        scripts.push(s);
        let mut s = script(format!("malformed {} instead of CONNECT", k), 3);
        s.mask = CONTAIN;
        s.setup = [join(0, "bystander", &["by/x"]), join(2, "pub", &[])].concat();
        s.par = vec![
            vec![opens(1), st(1, Act::Bytes([m.clone(), publish("by/x", "late").encode()].concat())), st(1, Act::Close(CloseMode::Reset))],
            vec![send(2, &[publish("by/x", "")])],
        ];
        s.finale = vec![send(2, &[publish("by/x", "")]), send(0, &[Pkt::PingReq])];
        scripts.push(s);
    }
    v.push(family("malformed input and other clients at once", scripts, tier.pick(1, 2)));
    v.extend(super::more2::c11(tier));
    v.extend(super::more8::c11(tier));
    v
}

// ------------------------------------------------------------------ C12

/// Traffic towards one slow client: what it requests itself and what others publish.
#[derive(Clone)]
pub struct Traffic {
    pub name: String,
    first: Vec<Pkt>,
    publishes: Vec<(String, usize)>,
    last: Vec<Pkt>,
}
pub fn expected(t: &Traffic) -> Vec<u8> {
    let mut m = Model::new(USERS);
    let c = m.open();
    let p = m.open();
    let mut out = vec![];
    let mut add = |e: Vec<(usize, Exp)>| {
        for (k, e) in e {
            if k == c {
                match e {
                    Exp::Reply(o) => out.extend(o.encode()),
                    Exp::Deliver { topic, payload, min, .. } => {
                        for _ in 0..min {
                            out.extend(Out::Publish { topic: topic.clone().into_bytes(), payload: payload.clone(), qos: 0, retain: false, dup: false, id: None }.encode());
                        }
                    }
                }
            }
        }
    };
    for x in &t.first {
        add(m.step(c, x));
    }
    m.step(p, &connect("pub"));
    for (topic, n) in &t.publishes {
        add(m.step(p, &publish_bytes(topic, *n)));
    }
    for x in &t.last {
        add(m.step(c, x));
    }
    out
}
pub fn traffics(big: bool) -> Vec<Traffic> {
    let first = vec![connect("slow"), subscribe(258, &["a", "b/+", "b/+", "c"]), Pkt::PingReq];
    let last = vec![unsubscribe(772, &["a", "zz"]), Pkt::PingReq];
    let mut v = vec![
        Traffic { name: "replies".into(), first: first.clone(), publishes: vec![], last: last.clone() },
        Traffic { name: "small deliveries".into(), first: first.clone(), publishes: vec![("a".into(), 0), ("b/c".into(), 5), ("none".into(), 3), ("a".into(), 11)], last: last.clone() },
        Traffic { name: "two length bytes".into(), first: first.clone(), publishes: vec![("a".into(), 124), ("b/x".into(), 123), ("a".into(), 200)], last: last.clone() },
    ];
    if big {
        for n in [1000, 4085, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 8180, 8185, 8190, 8192, 12288, 20000] {
            v.push(Traffic {
                name: format!("deliveries of {} bytes", n),
                first: first.clone(),
                publishes: vec![("a".into(), n), ("b/c".into(), 3), ("c".into(), n - 1), ("a".into(), n / 2), ("c".into(), 4000)],
                last: last.clone(),
            });
        }
    }
    v
}

fn slow_reader(t: &Traffic, window: usize, chunk: usize, explore: Explore, ctx: &Ctx) -> Fallible<()> {
    slow_reader_idle(t, window, chunk, 0, explore, ctx)
}
/// So many seconds pass between the reads.
pub fn slow_reader_idle(t: &Traffic, window: usize, chunk: usize, secs: u64, explore: Explore, ctx: &Ctx) -> Fallible<()> {
    let want = expected(t);
    let mut sys = Sys::boot(&env().cfg1, ctx.devs.clone(), explore, ctx.trace)?;
    let no = || Fail::new("refused", "nobody listens");
    let c = sys.open(L1).ok_or_else(no)?;
    let net = sys.conns[c].net;
    let slow = window != usize::MAX;
    if slow {
        mc::set_flow(net, window, false);
    }
    if explore.io {
        mc::with(|w| w.net.conns[net].short_io = true);
        sys.set_exploring(true);
    }
    let p = sys.open(L1).ok_or_else(no)?;
    let prefix = |sys: &Sys, when: &str| -> Fallible<()> {
        let got = sys.received(c);
        if got.len() > want.len() || got[..] != want[..got.len()] {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(want.len());
            return Err(Fail::new(
                "garbled",
                format!("{}: the client received {} bytes that are not the beginning of the {} expected ones: first difference at {}: got {}, expected {}", when, got.len(), want.len(), at, hex(&got[at.saturating_sub(4)..]), hex(&want[at.saturating_sub(4)..])),
            ));
        }
        Ok(())
    };
    sys.send_pkts(c, &t.first);
    sys.quiesce()?;
    sys.send_pkts(p, &[connect("pub")]);
    for (topic, n) in &t.publishes {
        sys.send_pkts(p, &[publish_bytes(topic, *n)]);
    }
    sys.quiesce()?;
    prefix(&sys, "before reading")?;
    let mut sent_last = false;
    loop {
        let k = if slow { mc::client_read(net, chunk) } else { 0 };
        sys.quiesce()?;
        if secs > 0 {
            sys.idle(secs)?;
        }
        prefix(&sys, "while reading")?;
        if k == 0 {
            if sent_last {
                break;
            }
            sys.send_pkts(c, &t.last);
            sys.quiesce()?;
            sent_last = true;
        }
    }
    let got = sys.received(c);
    if got != want {
        return Err(Fail::new("withheld", format!("the client has drained its connection and received {} of {} bytes; missing {}", got.len(), want.len(), hex(&want[got.len()..]))));
    }
    sys.check_panics()?;
    visit(&(got.len(), window, chunk));
    outcome(&got);
    sample(|| format!("{} bytes received, window {}, {} per read", got.len(), window, chunk));
    sys.end();
    Ok(())
}

fn c12(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let mut list = vec![];
    for t in traffics(false) {
        let t = Arc::new(t);
        let n = expected(&t).len();
        for w in 1..=tier.pick(48usize, 400).min(n + 2) {
            for r in 1..=tier.pick(24usize, 128).min(w) {
                list.push((t.clone(), w, r));
            }
        }
        list.push((t.clone(), usize::MAX, 1));
    }
    v.push(cases("windows and reads, small traffic", list, |(t, w, r), ctx| slow_reader(t, *w, *r, Explore::default(), ctx), |(t, w, r)| format!("{}, window {}, {} per read", t.name, w, r)));
    let mut list = vec![];
    for t in traffics(true) {
        let t = Arc::new(t);
        for w in [50, 1000, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 5000, 8191, 8192, 8193, 100000, usize::MAX] {
            for r in [37, 500, 4095, 4096, 4097, 9000] {
                list.push((t.clone(), w, r));
            }
        }
    }
    v.push(cases("windows and reads, large traffic", list, |(t, w, r), ctx| slow_reader(t, *w, *r, Explore::default(), ctx), |(t, w, r)| format!("{}, window {}, {} per read", t.name, w, r)).cpu_limit(60.0));
    // partial writes chosen by the explorer
    let io = Explore { sched: false, preempt: false, select: false, io: true };
    let mut list: Vec<(Arc<Traffic>, usize, usize)> = vec![];
    for t in traffics(true) {
        let t = Arc::new(t);
        for (w, r) in [(usize::MAX, 1), (7, 3), (4096, 1000)] {
            if w == 7 && expected(&t).len() > 500 {
                continue;
            }
            list.push((t.clone(), w, r));
        }
    }
    v.push(
        cases("partial writes", list, move |(t, w, r), ctx| slow_reader(t, *w, *r, io, ctx), |(t, w, r)| format!("{}, window {}, {} per read", t.name, w, r)).bound(tier.pick(2, 3)).cpu_limit(60.0),
    );
    // a slow reader amid schedules
    let mut scripts = vec![];
    for (w, r) in [(1usize, 1usize), (3, 2), (6, 6)] {
        let mut s = script(format!("window {}, {} per read, racing publishers", w, r), 3);
        s.flow = true;
        s.mask = STRICT;
        s.setup = [join(0, "slow", &["a"]), join(1, "p1", &[]), join(2, "p2", &[])].concat();
        s.setup.push(st(0, Act::Flow(w, false)));
        let reads: Vec<Step> = (0..4).map(|_| st(0, Act::Read(r))).collect();
        s.par = vec![reads, vec![send(1, &[publish("a", "1a"), publish("a", "1b")])], vec![send(2, &[publish("a", "2a")])], vec![send(0, &[Pkt::PingReq])]];
        s.finale = vec![st(0, Act::Flow(usize::MAX, true))];
        scripts.push(s);
    }
    v.push(family_with("slow reader amid schedules", scripts, tier.pick(1, 2), |_, h| {
        if h.leftover[0] > 0 {
            return Err(Fail::new("withheld", format!("{} bytes of an incomplete packet", h.leftover[0])));
        }
        let n = h.outs[0].iter().filter(|o| o.0.is_delivery()).count();
        if n != 3 {
            return Err(Fail::new("withheld", format!("{} of 3 deliveries arrived after the client drained its connection", n)));
        }
        Ok(())
    }));
    v.extend(super::more2::c12(tier));
    v.extend(super::more4::c12(tier));
    v.push(family("a full queue", super::more3::backed_up(tier, ALL), tier.pick(1, 2)).cpu_limit(60.0));
    v.extend(super::more8::c12(tier));
    v
}

// ------------------------------------------------------------------ C13

/// Publishes the messages one after the other; a subscriber and the publisher itself receive them.
fn pass_through(msgs: &[(usize, usize)], together: bool, ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&env().cfg1, USERS, STRICT, ctx.trace)?;
    let a = l.open(L1)?;
    l.send(a, &[connect("sub"), subscribe(1, &["#"])])?;
    let b = l.open(L1)?;
    let pk: Vec<Pkt> = msgs.iter().map(|(t, n)| publish_bytes(&topic(*t), *n)).collect();
    let own = topic(msgs[0].0);
    l.send(b, &[connect("pub"), subscribe(1, &[own.as_str()])])?;
    l.log.clear();
    if together {
        l.send(b, &pk)?;
    } else {
        for p in pk {
            l.send(b, &[p])?;
        }
    }
    l.send(a, &[Pkt::PingReq])?;
    l.log = vec![format!("publishes of (topic length, payload size) {:?}", msgs)];
    l.finish();
    Ok(())
}
pub fn topic(n: usize) -> String {
    // levels and multi-byte characters at varying places
    let mut s = String::with_capacity(n);
    for i in 0..n {
        s.push((b'a' + (i % 23) as u8) as char);
    }
    s
}

fn c13(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    let lbl = |m: &(Vec<(usize, usize)>, bool)| format!("(topic length, payload size) {:?}{}", m.0, if m.1 { " in one piece" } else { "" });
    let run = |m: &(Vec<(usize, usize)>, bool), ctx: &Ctx| pass_through(&m.0, m.1, ctx);
    let mut list: Vec<(Vec<(usize, usize)>, bool)> = vec![];
    for n in 0..=tier.pick(700usize, 13000) {
        list.push((vec![(1, n)], false));
    }
    for k in 1..=tier.pick(5usize, 16) {
        for n in 4096 * k - 40..=4096 * k + 16 {
            list.push((vec![(1, n)], false));
        }
    }
    for c in [16383usize, 65535, 131072] {
        for n in c - 12..=c + 8 {
            list.push((vec![(3, n)], false));
        }
    }
    v.push(cases("payload sizes", list, run, lbl).cpu_limit(60.0));
    let mut list = vec![];
    for t in (1..=tier.pick(300usize, 5000)).chain(4080..=4100).chain(8180..=8196).chain(16375..=16390).chain(65520..=65535) {
        for n in [0usize, 1, 30] {
            list.push((vec![(t, n)], false));
        }
    }
    v.push(cases("topic lengths", list, run, lbl).cpu_limit(60.0));
    let mut list = vec![];
    for t in 1..=tier.pick(12usize, 40) {
        for n in 100..=130 {
            list.push((vec![(t, n)], false));
        }
    }
    for t in 1..=tier.pick(8usize, 40) {
        for n in 16384 - 60..=16384 {
            list.push((vec![(t, n)], false));
        }
    }
    v.push(cases("topic and payload around the growth of the length field", list, run, lbl).cpu_limit(60.0));
    // what one message leaves behind in the buffers must not matter to the next
    let sizes: Vec<usize> = {
        let mut s: Vec<usize> = vec![0, 1, 2, 60, 127, 128, 1000, 2040, 2048];
        s.extend(4082..=4100);
        s.extend([6000, 8180, 8184, 8186, 8188, 8190, 8192, 12280, 16384]);
        s
    };
    let mut list = vec![];
    for a in &sizes {
        for b in &sizes {
            for together in [true, false] {
                list.push((vec![(1, *a), (2, *b), (1, 5)], together));
            }
        }
    }
    v.push(cases("pairs of sizes on one connection", list, run, lbl).cpu_limit(60.0));
    let mut list = vec![];
    for t in [4090usize, 4092, 4093, 4094, 4095, 4096, 4097] {
        for n in [0usize, 1, 2, 3, 4090, 4096] {
            for first in [0usize, 10, 100, 4000, 4085, 4090] {
                list.push((vec![(1, first), (t, n), (2, 2)], false));
            }
        }
    }
    v.push(cases("long topics after other messages", list, run, lbl).cpu_limit(60.0));
    // many messages in a row walk through all offsets of the buffers
    let mut list = vec![];
    for n in (1..=tier.pick(80usize, 400)).chain([500, 1000, 1365, 2047, 2048, 4091]) {
        list.push((vec![(1, n); 120], true));
        list.push((vec![(1, n); 120], false));
    }
    v.push(cases("120 messages of one size", list, run, |m| format!("payload size {}{}", m.0[0].1, if m.1 { " in one piece" } else { "" })).cpu_limit(60.0));
    let mut list = vec![];
    let around = |c: usize, d: usize| c - d..=c + d;
    for n in around(2097152 - 3, tier.pick(2, 10)) {
        list.push((vec![(1usize, n)], false));
    }
    v.push(cases("around the fourth length byte", list, run, lbl).cpu_limit(300.0));
    let mut list = vec![];
    for m in tier.pick(vec![1usize, 4, 8, 10, 16, 20, 32], vec![1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 25, 32, 48, 50, 64]) {
        for unit in [1 << 20, 1_000_000] {
            let n: usize = m * unit;
            for n in tier.pick(vec![n + 1], vec![n - 4, n, n + 1]) {
                list.push((vec![(1, n), (1, 3)], false));
            }
        }
    }
    v.push(cases("millions of bytes", list, run, lbl).cpu_limit(600.0).threads(4));
    // payloads of every byte value
    v.push(Family::new(
        "payload bytes",
        256,
        |i, ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, STRICT, ctx.trace)?;
            let a = l.open(L1)?;
            l.send(a, &[connect("sub"), subscribe(1, &["#"])])?;
            for n in [1usize, 2, 5] {
                l.send(a, &[Pkt::Publish { topic: "t".into(), payload: vec![i as u8; n], qos: 0, retain: false, dup: false, id: 0 }])?;
            }
            l.finish();
            Ok(())
        },
        |i| format!("payload of bytes {:02x}", i),
    ));
    v.push(
        cases("the largest packet", tier.pick(vec![268_435_455usize - 3], vec![268_435_455usize - 3, 134_217_728, 100_000_000]), |n, ctx| pass_through(&[(1, *n)], false, ctx), |n| format!("payload of {} bytes", n))
            .cpu_limit(1200.0)
            .threads(1),
    );
    v.extend(super::more8::c13(tier));
    v
}
