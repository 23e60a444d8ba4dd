//! The packet codec by itself: C24.
use super::bytes::malformed;
use super::routing::WORLD;
use crate::codec::*;
use crate::explore::*;
use crate::report::*;
use crate::sys::*;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::OnceLock;
use tokio::mc::{CloseMode, Explore};
use tokio::net::{TcpListener, TcpStream};

pub type Sink = Rc<RefCell<Vec<Result<Pkt, String>>>>;
pub type DecodeFn = fn(TcpStream, Sink) -> Pin<Box<dyn Future<Output = ()>>>;
pub type EncodeFn = fn(TcpStream, Vec<Out>) -> Pin<Box<dyn Future<Output = ()>>>;
static DECODE: OnceLock<DecodeFn> = OnceLock::new();
static ENCODE: OnceLock<EncodeFn> = OnceLock::new();

pub fn checks(d: DecodeFn, e: EncodeFn) -> Vec<Check> {
    let _ = DECODE.set(d);
    let _ = ENCODE.set(e);
    vec![Check {
        id: "C24",
        families: c24,
        rule: "all combinations of field values from boundary sets for every packet kind, all packet ids, all lengths in ranges around every length-field boundary, all single-byte substitutions and truncations: the real decoder and encoder against an independent reference codec, on the same bytes",
        assumptions: &[WORLD, "field values outside the boundary sets behave like those in them", "reserved CONNECT flag bits, other protocol names, packet id 0 and lengths not in shortest form are not judged"],
    }]
}

/// Feeds the bytes to the real decoder, in the given pieces.
fn decode(parts: &[&[u8]], close: bool, ctx: &Ctx) -> Fallible<Vec<Result<Pkt, String>>> {
    let mut sys = Sys::bare(Explore::default(), vec![], ctx.trace);
    let sink: Sink = Rc::new(RefCell::new(vec![]));
    let s2 = sink.clone();
    let dec = *DECODE.get().unwrap();
    drop(tokio::task::spawn_local(async move {
        let l = TcpListener::bind(L1).await.unwrap();
        let (s, _) = l.accept().await.unwrap();
        dec(s, s2).await;
    }));
    sys.quiesce()?;
    let c = sys.open(L1).unwrap();
    for p in parts {
        sys.send(c, p);
        sys.quiesce()?;
    }
    if close {
        sys.close(c, CloseMode::Fin);
        sys.quiesce()?;
    }
    sys.check_panics()?;
    let r = sink.borrow().clone();
    drop(sink);
    sys.end();
    Ok(r)
}

/// What the reference says about these bytes must be what the decoder says.
fn agree(b: &[u8], ctx: &Ctx) -> Fallible<()> {
    let got = decode(&[b], false, ctx)?;
    let (want, tail, _) = classify(b);
    visit(&(b, 0));
    count_transitions(want.len() as u64);
    let oks: Vec<&Pkt> = got.iter().filter_map(|r| r.as_ref().ok()).collect();
    let errs = got.iter().filter(|r| r.is_err()).count();
    let show = || format!("bytes {}: reference {:?} {:?}, decoder {:?}", hex(b), want, tail, got);
    for (i, w) in want.iter().enumerate() {
        match oks.get(i) {
            Some(o) if *o == w => {}
            Some(_) => return Err(Fail::new("value", format!("packet {} decoded to something else; {}", i, show()))),
            None => return Err(Fail::new("rejected", format!("packet {} is well-formed but was not decoded; {}", i, show()))),
        }
    }
    match tail {
        Tail::Clean | Tail::Incomplete => {
            if oks.len() > want.len() {
                return Err(Fail::new("invented", format!("more packets decoded than sent; {}", show())));
            }
            if errs > 0 {
                return Err(Fail::new("rejected", show()));
            }
        }
        Tail::Malformed(_) => {
            if oks.len() > want.len() {
                return Err(Fail::new("accepted", format!("malformed packet accepted; {}", show())));
            }
            if errs == 0 {
                return Err(Fail::new("accepted", format!("malformed packet not rejected; {}", show())));
            }
        }
        Tail::MaybeEarly(_) => {
            if oks.len() > want.len() {
                return Err(Fail::new("accepted", format!("incomplete packet accepted; {}", show())));
            }
        }
        Tail::Unspecified(_) => {}
    }
    outcome(&(oks.len(), errs));
    sample(show);
    Ok(())
}
fn agree_all(name: &str, list: Vec<Vec<u8>>) -> Family {
    cases(name, list, |b, ctx| agree(b, ctx), |b| hex(b))
}
/// Each packet followed by another, whose decoding shows that exactly its bytes were consumed.
fn values(name: &str, list: Vec<Pkt>) -> Family {
    cases(
        name,
        list,
        |p, ctx| {
            let mut b = p.encode();
            let n = b.len();
            b.extend(Pkt::PubRel(0xc0e0).encode());
            let (w, t, _) = classify(&b);
            // the reference must agree with itself
            if w != vec![p.clone(), Pkt::PubRel(0xc0e0)] || t != Tail::Clean {
                panic!("reference decoder: {:?} -> {:?} {:?}", p, w, t);
            }
            agree(&b, ctx)?;
            // no packet may be reported before its last byte
            let got = decode(&[&b[..n - 1]], true, ctx)?;
            if got.iter().any(|r| r.is_ok()) {
                return Err(Fail::new("accepted", format!("{:?} reported without its last byte", p)));
            }
            Ok(())
        },
        |p| format!("{:?}", p),
    )
    .cpu_limit(60.0)
}

fn encode(list: &[Out], ctx: &Ctx) -> Fallible<()> {
    let mut sys = Sys::bare(Explore::default(), vec![], ctx.trace);
    let enc = *ENCODE.get().unwrap();
    let l2 = list.to_vec();
    drop(tokio::task::spawn_local(async move {
        let l = TcpListener::bind(L1).await.unwrap();
        let (s, _) = l.accept().await.unwrap();
        enc(s, l2).await;
    }));
    sys.quiesce()?;
    let c = sys.open(L1).unwrap();
    sys.quiesce()?;
    sys.check_panics()?;
    let got = sys.received(c);
    let want: Vec<u8> = list.iter().flat_map(|o| o.encode()).collect();
    visit(&(&want, 1));
    count_transitions(list.len() as u64);
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(Fail::new(
            "encoding",
            format!("{:?} is encoded in {} bytes instead of {}, first difference at {}: {} instead of {}", list, got.len(), want.len(), at, hex(&got[at.min(got.len())..]), hex(&want[at.min(want.len())..])),
        ));
    }
    outcome(&got.len());
    sample(|| format!("{:?} -> {}", list, hex(&got)));
    sys.end();
    Ok(())
}

fn bytes_of(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 11 + i / 256) as u8).collect()
}
fn text(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}

fn c24(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // CONNECT
    let mut list = vec![];
    let ids: Vec<String> = vec!["".into(), "a".into(), "\u{e9}\u{4e2d}\u{1f980}".into(), text(23), text(24), text(300), text(65535)];
    let wills: Vec<Option<Will>> = {
        let mut w = vec![None];
        for t in ["w".to_string(), "w/\u{4e2d}".into(), text(200)] {
            for p in [vec![], vec![0u8], vec![0xe0, 0], bytes_of(300)] {
                for q in 0..3 {
                    for r in [false, true] {
                        w.push(Some(Will { topic: t.clone(), payload: p.clone(), qos: q, retain: r }));
                    }
                }
            }
        }
        w
    };
    let users: Vec<(Option<String>, Option<String>)> = vec![
        (None, None),
        (Some("u".into()), None),
        (Some("u".into()), Some("p".into())),
        (Some("".into()), Some("".into())),
        (Some("".into()), None),
        (Some("\u{e9}".into()), Some(text(200))),
        (Some(text(256)), Some(" ".into())),
    ];
    for id in &ids {
        for clean in [true, false] {
            for keep in [0u16, 1, 255, 256, 0x1234, 65535] {
                for w in &wills {
                    for (u, p) in &users {
                        // large ids only with everything else simple
                        if id.len() > 1000 && (w.is_some() || u.is_some() || keep != 0) {
                            continue;
                        }
                        if tier == Tier::Quick && keep > 1 && keep != 0x1234 && (id.len() > 1 || !clean) {
                            continue;
                        }
                        list.push(Pkt::Connect { id: id.clone(), clean, keep, will: w.clone(), user: u.clone(), pass: p.clone() });
                    }
                }
            }
        }
    }
    v.push(values("CONNECT field values", list));
    v.push(values("CONNECT keep alive", (0..=65535u16).step_by(tier.pick(7, 1)).map(|k| Pkt::Connect { id: "a".into(), clean: true, keep: k, will: None, user: None, pass: None }).collect()));
    // PUBLISH
    let mut list = vec![];
    for t in ["a".to_string(), "/".into(), "a/b/".into(), " ".into(), "$SYS/x".into(), "\u{1f980}/\u{feff}".into(), text(127), text(300)] {
        for n in [0usize, 1, 2, 3, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 300, 4090] {
            for q in 0..3u8 {
                for fl in 0..4 {
                    for id in if q == 0 { vec![0] } else { vec![1, 255, 256, 65535] } {
                        list.push(Pkt::Publish { topic: t.clone(), payload: bytes_of(n), qos: q, retain: fl & 1 == 1, dup: fl & 2 == 2, id });
                    }
                }
            }
        }
    }
    for n in (16384 - 10..=16384 + 4).chain(2097152 - 8..=2097152 - 2) {
        for q in [0, 1] {
            list.push(Pkt::Publish { topic: "a".into(), payload: bytes_of(n), qos: q, retain: false, dup: false, id: q as u16 * 77 });
        }
    }
    for n in (1..=tier.pick(260usize, 5000)).chain([4092, 4093, 4094, 4095, 4096, 4097, 16383, 16384, 65534, 65535]) {
        list.push(Pkt::Publish { topic: text(n), payload: bytes_of(3), qos: 1, retain: false, dup: false, id: 258 });
    }
    v.push(values("PUBLISH field values", list));
    v.push(values(
        "PUBLISH payload sizes",
        (0..=tier.pick(5000usize, 20000)).map(|n| Pkt::Publish { topic: "a".into(), payload: bytes_of(n), qos: 0, retain: false, dup: false, id: 0 }).collect(),
    ));
    // SUBSCRIBE, UNSUBSCRIBE
    let fs: Vec<String> = vec!["a".into(), "#".into(), "+/\u{e9}/#".into(), "/".into(), text(130)];
    let mut list = vec![];
    for id in [1u16, 256, 65535] {
        for a in &fs {
            for q in 0..3u8 {
                list.push(Pkt::Subscribe { id, filters: vec![(a.clone(), q)] });
                for b in &fs {
                    for r in 0..3u8 {
                        list.push(Pkt::Subscribe { id, filters: vec![(a.clone(), q), (b.clone(), r)] });
                        for c in &fs {
                            list.push(Pkt::Subscribe { id, filters: vec![(a.clone(), q), (b.clone(), r), (c.clone(), (q + r) % 3)] });
                        }
                    }
                }
            }
            list.push(Pkt::Unsubscribe { id, filters: vec![a.clone()] });
            for b in &fs {
                list.push(Pkt::Unsubscribe { id, filters: vec![a.clone(), b.clone()] });
                for c in &fs {
                    list.push(Pkt::Unsubscribe { id, filters: vec![a.clone(), b.clone(), c.clone()] });
                }
            }
        }
    }
    for n in (1..=tier.pick(200usize, 1000)).chain([4090, 5000]) {
        list.push(Pkt::Subscribe { id: 3, filters: (0..n).map(|i| (format!("f{}", i % 100), (i % 3) as u8)).collect() });
        list.push(Pkt::Unsubscribe { id: 3, filters: (0..n).map(|i| format!("f{}", i % 100)).collect() });
    }
    for n in (1..=tier.pick(300usize, 3000)).chain([65535]) {
        list.push(Pkt::Subscribe { id: 3, filters: vec![(text(n), 2)] });
        list.push(Pkt::Unsubscribe { id: 3, filters: vec![text(n)] });
    }
    v.push(values("SUBSCRIBE and UNSUBSCRIBE field values", list));
    // all packet ids of every kind that has one
    let kinds: Vec<fn(u16) -> Pkt> = vec![
        |i| Pkt::PubAck(i),
        |i| Pkt::PubRec(i),
        |i| Pkt::PubRel(i),
        |i| Pkt::PubComp(i),
        |i| Pkt::Subscribe { id: i, filters: vec![("a".into(), 1)] },
        |i| Pkt::Unsubscribe { id: i, filters: vec!["a".into()] },
        |i| publish_q("a", "x", 1, i),
        |i| publish_q("a", "x", 2, i),
    ];
    v.push(
        Family::new(
            "all packet ids",
            kinds.len() as u64 * 64,
            move |i, ctx| {
                let (k, block) = ((i / 64) as usize, (i % 64) as u16);
                let b: Vec<u8> = (0..1024u16).map(|x| block * 1024 + x).filter(|x| *x > 0).flat_map(|x| kinds[k](x).encode()).collect();
                agree(&b, ctx)
            },
            |i| format!("kind {}, ids from {}", i / 64, (i % 64) * 1024),
        )
        .cpu_limit(60.0),
    );
    // rejections
    let bases = vec![
        connect("a").encode(),
        Pkt::Connect { id: "ab".into(), clean: true, keep: 3, will: Some(Will { topic: "w".into(), payload: b"m".to_vec(), qos: 1, retain: true }), user: Some("u".into()), pass: Some("p".into()) }.encode(),
        publish("a/b", "xy").encode(),
        publish_q("a", "xy", 2, 0x102).encode(),
        publish("\u{4e2d}\u{e9}", "").encode(),
        Pkt::Subscribe { id: 0x102, filters: vec![("a".into(), 1), ("b/+".into(), 2)] }.encode(),
        unsubscribe(0x102, &["a", "b/#"]).encode(),
        Pkt::PubAck(0x102).encode(),
        Pkt::PubRec(0x102).encode(),
        Pkt::PubRel(0x102).encode(),
        Pkt::PubComp(0x102).encode(),
        Pkt::PingReq.encode(),
        Pkt::Disconnect.encode(),
    ];
    let mut list = vec![];
    for b in &bases {
        for i in 0..b.len() {
            for x in 0..=255u8 {
                let mut m = b.clone();
                m[i] = x;
                list.push(m.clone());
                // completed by further bytes in case a length grew
                if i < 24 && (x < 40 || x > 250) {
                    m.extend([0, 1, b'a', 0, 1, b'b', 0, 0, 0xc0, 0, 0xe0, 0]);
                    list.push(m);
                }
            }
        }
        for cut in 0..b.len() {
            list.push(b[..cut].to_vec());
        }
    }
    for m in malformed() {
        list.push(m.clone());
        for b in &bases {
            list.push([b.clone(), m.clone(), b.clone()].concat());
        }
    }
    v.push(agree_all("substituted bytes, truncations, malformed packets", list));
    // header sweep: first byte x length x body
    let mut list = vec![];
    for first in 0..=255u8 {
        for n in 0..=tier.pick(9usize, 20) {
            for fill in [0u8, 1, 2, b'a', 0x80, 0xff] {
                let mut b = vec![first];
                put_len(&mut b, n);
                b.resize(b.len() + n, fill);
                b.extend([0xc0, 0]);
                list.push(b);
            }
        }
    }
    v.push(agree_all("first byte and length", list));
    // text encoding: all two-byte strings, selected longer ones, as a topic
    let mut list = vec![];
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            list.push(vec![0x30, 4, 0, 2, a, b, 0xc0, 0]);
        }
    }
    for a in 0xe0..=0xf8u8 {
        for b in (0x70..=0xc4u8).chain([0, b'a']) {
            for c in [0x7fu8, 0x80, 0xbf, 0xc0, b'a'] {
                list.push(vec![0x30, 5, 0, 3, a, b, c, 0xc0, 0]);
                list.push(vec![0x30, 6, 0, 4, a, b, c, 0x80, 0xc0, 0]);
                list.push(vec![0x82, 9, 0, 1, 0, 4, a, b, c, 0x80, 0, 0xc0, 0]);
            }
        }
    }
    v.push(agree_all("text encodings", list));

    // encoder
    let enc = |name: &str, list: Vec<Vec<Out>>| cases(name, list, |o, ctx| encode(o, ctx), |o| format!("{:?}", o)).cpu_limit(60.0);
    let mut list = vec![];
    for sp in 0..2 {
        for rc in 0..6 {
            list.push(vec![Out::ConnAck { sp, rc }]);
        }
    }
    list.push(vec![Out::PingResp]);
    for n in 0..=4u32 {
        for i in 0..4u32.pow(n) {
            let codes: Vec<u8> = (0..n).map(|k| [0u8, 1, 2, 0x80][(i / 4u32.pow(k) % 4) as usize]).collect();
            list.push(vec![Out::SubAck { id: 0x8001, codes }]);
        }
    }
    for n in (5..=tier.pick(300usize, 1000)).chain([4080, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 5000, 16382, 16400]) {
        list.push(vec![Out::SubAck { id: 2, codes: (0..n).map(|i| [0u8, 1, 2, 0x80][i % 4]).collect() }]);
    }
    v.push(enc("CONNACK, SUBACK, PINGRESP", list));
    v.push(
        Family::new(
            "all packet ids encoded",
            6 * 64,
            |i, ctx| {
                let (k, block) = ((i / 64) as usize, (i % 64) as u16);
                let l: Vec<Out> = (0..1024u16)
                    .map(|x| block * 1024 + x)
                    .map(|x| match k {
                        0 => Out::UnsubAck(x),
                        1 => Out::SubAck { id: x, codes: vec![0] },
                        n => Out::Other([0x40, 0x50, 0x62, 0x70][n - 2], x.to_be_bytes().to_vec()),
                    })
                    .collect();
                encode(&l, ctx)
            },
            |i| format!("kind {}, ids from {}", i / 64, (i % 64) * 1024),
        )
        .cpu_limit(60.0),
    );
    let publ = |t: String, n: usize, q: u8, retain: bool, dup: bool, id: u16| Out::Publish { topic: t.into_bytes(), payload: bytes_of(n), qos: q, retain, dup, id: (q > 0).then_some(id) };
    let mut list = vec![];
    for t in ["a".to_string(), "\u{1f980}/\u{4e2d}".into(), text(126), text(300)] {
        for n in [0usize, 1, 2, 121, 122, 123, 124, 125, 126, 127, 128, 4000, 4096] {
            for q in 0..3u8 {
                for fl in 0..4 {
                    for id in [1, 255, 256, 65535] {
                        list.push(vec![publ(t.clone(), n, q, fl & 1 == 1, fl & 2 == 2, id)]);
                    }
                }
            }
        }
    }
    for n in (0..=tier.pick(4400usize, 20000)).chain(8150..=8250).chain(12260..=12320).chain(16360..=16400).chain(2097140..=2097156) {
        list.push(vec![publ("a".into(), n, 0, false, false, 0)]);
    }
    for n in (1..=tier.pick(300usize, 4000)).chain(4070..=4110).chain(8180..=8200).chain(16370..=16390).chain(65520..=65535) {
        list.push(vec![publ(text(n), 5, 1, false, false, 9)]);
        list.push(vec![publ(text(n), 5, 0, false, false, 9)]);
    }
    v.push(enc("PUBLISH encoded", list));
    let mut list = vec![];
    let pool: Vec<Out> = {
        let mut p = vec![Out::PingResp, Out::SubAck { id: 7, codes: vec![0; 30] }, Out::UnsubAck(5)];
        for n in [0usize, 100, 2040, 4080, 4084, 4086, 4087, 4088, 4089, 4090, 4091, 4092, 4093, 4094, 4096, 5000, 8185] {
            p.push(publ("ab".into(), n, 0, false, false, 0));
        }
        p.push(publ(text(4090), 4090, 0, false, false, 0));
        p
    };
    for a in &pool {
        for b in &pool {
            for c in &pool {
                list.push(vec![a.clone(), b.clone(), c.clone(), Out::PingResp]);
            }
        }
    }
    v.push(enc("sequences of three packets", list));
    v
}
