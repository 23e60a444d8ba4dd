//! Independent reference implementation of the MQTT 3.1.1 wire format (client side).
use std::fmt;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Will {
    pub topic: String,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
}

/// Packets a client sends.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Pkt {
    Connect { id: String, clean: bool, keep: u16, will: Option<Will>, user: Option<String>, pass: Option<String> },
    Publish { topic: String, payload: Vec<u8>, qos: u8, retain: bool, dup: bool, id: u16 },
    Subscribe { id: u16, filters: Vec<(String, u8)> },
    Unsubscribe { id: u16, filters: Vec<String> },
    PingReq,
    Disconnect,
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    /// arbitrary bytes; treated as malformed by the models
    Raw(Vec<u8>),
}

impl fmt::Debug for Pkt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Pkt::Connect { id, clean, keep, will, user, pass } => {
                write!(f, "CONNECT({:?}", id)?;
                if !*clean {
                    write!(f, " clean=0")?;
                }
                if *keep != 0 {
                    write!(f, " keep={}", keep)?;
                }
                if let Some(u) = user {
                    write!(f, " user={:?}", u)?;
                }
                if let Some(p) = pass {
                    write!(f, " pass={:?}", p)?;
                }
                if let Some(w) = will {
                    write!(f, " will={:?}", w)?;
                }
                write!(f, ")")
            }
            Pkt::Publish { topic, payload, qos, retain, dup, id } => {
                write!(f, "PUBLISH({} <{}>", short(topic), show(payload))?;
                if *qos > 0 {
                    write!(f, " qos{} id={}", qos, id)?;
                }
                if *retain {
                    write!(f, " retain")?;
                }
                if *dup {
                    write!(f, " dup")?;
                }
                write!(f, ")")
            }
            Pkt::Subscribe { id, filters } => write!(f, "SUBSCRIBE({} {:?})", id, filters),
            Pkt::Unsubscribe { id, filters } => write!(f, "UNSUBSCRIBE({} {:?})", id, filters),
            Pkt::PingReq => write!(f, "PINGREQ"),
            Pkt::Disconnect => write!(f, "DISCONNECT"),
            Pkt::PubAck(i) => write!(f, "PUBACK({})", i),
            Pkt::PubRec(i) => write!(f, "PUBREC({})", i),
            Pkt::PubRel(i) => write!(f, "PUBREL({})", i),
            Pkt::PubComp(i) => write!(f, "PUBCOMP({})", i),
            Pkt::Raw(b) => write!(f, "RAW({})", hex(b)),
        }
    }
}
fn short(s: &str) -> String {
    if s.len() > 60 {
        let mut e = 40;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{:?}...[{} bytes]", &s[..e], s.len())
    } else {
        format!("{:?}", s)
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(64).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 64 {
        s.push_str(&format!("...[{} bytes]", b.len()));
    }
    s
}
pub fn show(b: &[u8]) -> String {
    if b.len() <= 24 && b.iter().all(|c| (32..127).contains(c)) {
        String::from_utf8_lossy(b).into_owned()
    } else {
        hex(&b[..b.len().min(16)]) + &if b.len() > 16 { format!("...[{} bytes]", b.len()) } else { String::new() }
    }
}

pub fn connect(id: &str) -> Pkt {
    Pkt::Connect { id: id.into(), clean: true, keep: 0, will: None, user: None, pass: None }
}
pub fn connect_as(id: &str, user: &str, pass: Option<&str>) -> Pkt {
    Pkt::Connect { id: id.into(), clean: true, keep: 0, will: None, user: Some(user.into()), pass: pass.map(|s| s.into()) }
}
pub fn publish(topic: &str, payload: &str) -> Pkt {
    Pkt::Publish { topic: topic.into(), payload: payload.as_bytes().to_vec(), qos: 0, retain: false, dup: false, id: 0 }
}
pub fn publish_q(topic: &str, payload: &str, qos: u8, id: u16) -> Pkt {
    Pkt::Publish { topic: topic.into(), payload: payload.as_bytes().to_vec(), qos, retain: false, dup: false, id }
}
pub fn subscribe(id: u16, filters: &[&str]) -> Pkt {
    Pkt::Subscribe { id, filters: filters.iter().map(|f| (f.to_string(), 0)).collect() }
}
pub fn unsubscribe(id: u16, filters: &[&str]) -> Pkt {
    Pkt::Unsubscribe { id, filters: filters.iter().map(|f| f.to_string()).collect() }
}

pub fn put_len(out: &mut Vec<u8>, mut n: usize) {
    loop {
        let mut b = (n & 127) as u8;
        n >>= 7;
        if n > 0 {
            b |= 128;
        }
        out.push(b);
        if n == 0 {
            break;
        }
    }
}
fn put_bin(out: &mut Vec<u8>, b: &[u8]) {
    assert!(b.len() <= 65535);
    out.extend_from_slice(&(b.len() as u16).to_be_bytes());
    out.extend_from_slice(b);
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(body.len() + 5);
    v.push(first);
    put_len(&mut v, body.len());
    v.extend_from_slice(body);
    v
}

impl Pkt {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Pkt::Connect { id, clean, keep, will, user, pass } => {
                let mut b = Vec::new();
                put_bin(&mut b, b"MQTT");
                b.push(4);
                let mut fl = (*clean as u8) << 1;
                if let Some(w) = will {
                    fl |= 4 | (w.qos << 3) | ((w.retain as u8) << 5);
                }
                fl |= (pass.is_some() as u8) << 6 | (user.is_some() as u8) << 7;
                b.push(fl);
                b.extend_from_slice(&keep.to_be_bytes());
                put_bin(&mut b, id.as_bytes());
                if let Some(w) = will {
                    put_bin(&mut b, w.topic.as_bytes());
                    put_bin(&mut b, &w.payload);
                }
                if let Some(u) = user {
                    put_bin(&mut b, u.as_bytes());
                }
                if let Some(p) = pass {
                    put_bin(&mut b, p.as_bytes());
                }
                frame(0x10, &b)
            }
            Pkt::Publish { topic, payload, qos, retain, dup, id } => {
                let mut b = Vec::with_capacity(topic.len() + payload.len() + 4);
                put_bin(&mut b, topic.as_bytes());
                if *qos > 0 {
                    b.extend_from_slice(&id.to_be_bytes());
                }
                b.extend_from_slice(payload);
                frame(0x30 | (*dup as u8) << 3 | qos << 1 | *retain as u8, &b)
            }
            Pkt::Subscribe { id, filters } => {
                let mut b = id.to_be_bytes().to_vec();
                for (f, q) in filters {
                    put_bin(&mut b, f.as_bytes());
                    b.push(*q);
                }
                frame(0x82, &b)
            }
            Pkt::Unsubscribe { id, filters } => {
                let mut b = id.to_be_bytes().to_vec();
                for f in filters {
                    put_bin(&mut b, f.as_bytes());
                }
                frame(0xa2, &b)
            }
            Pkt::PingReq => vec![0xc0, 0],
            Pkt::Disconnect => vec![0xe0, 0],
            Pkt::PubAck(i) => frame(0x40, &i.to_be_bytes()),
            Pkt::PubRec(i) => frame(0x50, &i.to_be_bytes()),
            Pkt::PubRel(i) => frame(0x62, &i.to_be_bytes()),
            Pkt::PubComp(i) => frame(0x70, &i.to_be_bytes()),
            Pkt::Raw(b) => b.clone(),
        }
    }
}
pub fn encode_all(ps: &[Pkt]) -> Vec<u8> {
    ps.iter().flat_map(|p| p.encode()).collect()
}

// ------------------------------------------------------- server -> client

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Out {
    ConnAck { sp: u8, rc: u8 },
    Publish { topic: Vec<u8>, payload: Vec<u8>, qos: u8, retain: bool, dup: bool, id: Option<u16> },
    SubAck { id: u16, codes: Vec<u8> },
    UnsubAck(u16),
    PingResp,
    Other(u8, Vec<u8>),
}
impl fmt::Debug for Out {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Out::ConnAck { sp, rc } => write!(f, "CONNACK({},{})", sp, rc),
            Out::Publish { topic, payload, qos, retain, dup, id } => {
                write!(f, "PUBLISH({} <{}>", short(&String::from_utf8_lossy(topic)), show(payload))?;
                if *qos != 0 {
                    write!(f, " qos{}", qos)?;
                }
                if let Some(i) = id {
                    write!(f, " id={}", i)?;
                }
                if *retain {
                    write!(f, " retain")?;
                }
                if *dup {
                    write!(f, " dup")?;
                }
                write!(f, ")")
            }
            Out::SubAck { id, codes } => write!(f, "SUBACK({} {:?})", id, codes),
            Out::UnsubAck(i) => write!(f, "UNSUBACK({})", i),
            Out::PingResp => write!(f, "PINGRESP"),
            Out::Other(t, b) => write!(f, "OTHER({:02x} {})", t, hex(b)),
        }
    }
}
impl Out {
    /// The bytes MQTT 3.1.1 prescribes.
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Out::ConnAck { sp, rc } => vec![0x20, 2, *sp, *rc],
            Out::Publish { topic, payload, qos, retain, dup, id } => {
                let mut b = Vec::with_capacity(topic.len() + payload.len() + 4);
                put_bin(&mut b, topic);
                if let Some(id) = id {
                    b.extend_from_slice(&id.to_be_bytes());
                }
                b.extend_from_slice(payload);
                frame(0x30 | (*dup as u8) << 3 | qos << 1 | *retain as u8, &b)
            }
            Out::SubAck { id, codes } => {
                let mut b = id.to_be_bytes().to_vec();
                b.extend_from_slice(codes);
                frame(0x90, &b)
            }
            Out::UnsubAck(id) => frame(0xb0, &id.to_be_bytes()),
            Out::PingResp => vec![0xd0, 0],
            Out::Other(first, body) => frame(*first, body),
        }
    }
    pub fn is_delivery(&self) -> bool {
        matches!(self, Out::Publish { .. })
    }
}

pub enum Parse {
    /// packet and number of bytes
    Packet(Out, usize),
    NeedMore,
    Bad(String),
}

/// Header: (first byte, header size, body size)
pub fn header(b: &[u8]) -> Result<Option<(u8, usize, usize)>, String> {
    if b.is_empty() {
        return Ok(None);
    }
    let mut n = 0usize;
    for i in 0..4 {
        match b.get(1 + i) {
            None => return Ok(None),
            Some(x) => {
                n |= ((x & 127) as usize) << (7 * i);
                if x & 128 == 0 {
                    return Ok(Some((b[0], 2 + i, n)));
                }
            }
        }
    }
    Err("remaining length longer than four bytes".into())
}

/// Strict parser of what a server may send.
pub fn parse_server(b: &[u8]) -> Parse {
    let (first, h, n) = match header(b) {
        Ok(Some(x)) => x,
        Ok(None) => return Parse::NeedMore,
        Err(e) => return Parse::Bad(e),
    };
    let mut minimal = Vec::new();
    put_len(&mut minimal, n);
    if minimal.len() != h - 1 {
        return Parse::Bad(format!("remaining length {} is not encoded in its shortest form", n));
    }
    if b.len() < h + n {
        return Parse::NeedMore;
    }
    let body = &b[h..h + n];
    let u16at = |i: usize| u16::from_be_bytes([body[i], body[i + 1]]);
    let out = match first {
        0x20 if n == 2 => Out::ConnAck { sp: body[0], rc: body[1] },
        0x30..=0x3f => {
            if n < 2 {
                return Parse::Bad("PUBLISH too short".into());
            }
            let tl = u16at(0) as usize;
            let qos = (first >> 1) & 3;
            let mut p = 2 + tl;
            if p > n {
                return Parse::Bad("PUBLISH topic longer than the packet".into());
            }
            let id = if qos > 0 {
                if p + 2 > n {
                    return Parse::Bad("PUBLISH without room for its packet id".into());
                }
                p += 2;
                Some(u16at(p - 2))
            } else {
                None
            };
            Out::Publish {
                topic: body[2..2 + tl].to_vec(),
                payload: body[p..].to_vec(),
                qos,
                retain: first & 1 == 1,
                dup: first & 8 == 8,
                id,
            }
        }
        0x90 if n >= 2 => Out::SubAck { id: u16at(0), codes: body[2..].to_vec() },
        0xb0 if n == 2 => Out::UnsubAck(u16at(0)),
        0xd0 if n == 0 => Out::PingResp,
        0x40 | 0x50 | 0x62 | 0x70 if n == 2 => Out::Other(first, body.to_vec()),
        _ => return Parse::Bad(format!("unexpected packet {:02x} with {} bytes: {}", first, n, hex(body))),
    };
    Parse::Packet(out, h + n)
}

// ------------------------------------- reference decoder for client bytes

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tail {
    /// everything was consumed
    Clean,
    /// the rest is a proper prefix of some packet
    Incomplete,
    /// malformed beyond doubt as soon as these bytes are there
    Malformed(&'static str),
    /// malformed, but a decoder may wait for the rest of the packet before it says so
    MaybeEarly(&'static str),
    /// the properties say nothing about this packet
    Unspecified(&'static str),
}

fn utf8(b: &[u8]) -> Option<String> {
    std::str::from_utf8(b).ok().map(|s| s.to_string())
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Cur<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.p
    }
    fn u8(&mut self) -> Option<u8> {
        let x = *self.b.get(self.p)?;
        self.p += 1;
        Some(x)
    }
    fn u16(&mut self) -> Option<u16> {
        if self.left() < 2 {
            return None;
        }
        self.p += 2;
        Some(u16::from_be_bytes([self.b[self.p - 2], self.b[self.p - 1]]))
    }
    fn bin(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        if self.left() < n {
            return None;
        }
        self.p += n;
        Some(&self.b[self.p - n..self.p])
    }
}

enum One {
    Ok(Pkt),
    Bad(&'static str),
    Skip(&'static str),
}

fn decode_body(first: u8, body: &[u8]) -> One {
    use One::*;
    let mut c = Cur { b: body, p: 0 };
    macro_rules! need {
        ($e:expr, $m:expr) => {
            match $e {
                Some(x) => x,
                None => return Bad($m),
            }
        };
    }
    let ty = first >> 4;
    match ty {
        1 => {
            if first & 15 != 0 {
                return Bad("reserved flags");
            }
            let name = need!(c.bin(), "CONNECT cut short");
            let level = need!(c.u8(), "CONNECT cut short");
            let fl = need!(c.u8(), "CONNECT cut short");
            let keep = need!(c.u16(), "CONNECT cut short");
            if name != b"MQTT" && name != b"MQIsdp" {
                return Bad("unknown protocol");
            }
            if name != b"MQTT" || level != 4 {
                return Skip("another version of MQTT");
            }
            if fl & 1 != 0 {
                return Bad("reserved connect flag");
            }
            let id = need!(utf8(need!(c.bin(), "CONNECT cut short")), "client id is not UTF-8");
            let mut unspec = false;
            let will = if fl & 4 != 0 {
                let t = need!(utf8(need!(c.bin(), "CONNECT cut short")), "will topic is not UTF-8");
                let m = need!(c.bin(), "CONNECT cut short");
                let q = (fl >> 3) & 3;
                if q == 3 {
                    return Bad("will QoS 3");
                }
                Some(Will { topic: t, payload: m.to_vec(), qos: q, retain: fl & 32 != 0 })
            } else {
                if fl & 0x38 != 0 {
                    return Bad("will QoS or will retain without a will");
                }
                None
            };
            let user = if fl & 128 != 0 {
                Some(need!(utf8(need!(c.bin(), "CONNECT cut short")), "user name is not UTF-8"))
            } else {
                None
            };
            let pass = if fl & 64 != 0 {
                if user.is_none() {
                    unspec = true;
                }
                let p = need!(c.bin(), "CONNECT cut short");
                match utf8(p) {
                    Some(p) => Some(p),
                    // binary passwords are legal MQTT; the broker declares text only
                    None => return Skip("binary password"),
                }
            } else {
                None
            };
            if c.left() != 0 {
                return Bad("CONNECT longer than its fields");
            }
            if unspec {
                return Skip("password without user name");
            }
            Ok(Pkt::Connect { id, clean: fl & 2 != 0, keep, will, user, pass })
        }
        3 => {
            let qos = (first >> 1) & 3;
            if qos == 3 {
                return Bad("QoS 3");
            }
            let topic = need!(utf8(need!(c.bin(), "topic longer than the packet")), "topic is not UTF-8");
            let id = if qos > 0 { need!(c.u16(), "no packet id") } else { 0 };
            if topic.contains(['+', '#']) {
                return Bad("wildcard in topic");
            }
            if topic.is_empty() || topic.contains('\0') {
                return Bad("empty topic or NUL in topic");
            }
            if qos > 0 && id == 0 {
                return Skip("packet id 0");
            }
            Ok(Pkt::Publish { topic, payload: body[c.p..].to_vec(), qos, retain: first & 1 == 1, dup: first & 8 != 0, id })
        }
        4 | 5 | 6 | 7 => {
            let want = [0x40, 0x50, 0x62, 0x70][ty as usize - 4];
            if first != want {
                return Bad("reserved flags");
            }
            if body.len() != 2 {
                return Bad("wrong length");
            }
            let id = c.u16().unwrap();
            Ok(match ty {
                4 => Pkt::PubAck(id),
                5 => Pkt::PubRec(id),
                6 => Pkt::PubRel(id),
                _ => Pkt::PubComp(id),
            })
        }
        8 | 10 => {
            if first & 15 != 2 {
                return Bad("reserved flags");
            }
            let id = need!(c.u16(), "no packet id");
            if c.left() == 0 {
                return Bad("no filters");
            }
            let mut fs = Vec::new();
            while c.left() > 0 {
                let f = need!(utf8(need!(c.bin(), "filter longer than the packet")), "filter is not UTF-8");
                let q = if ty == 8 { need!(c.u8(), "no QoS byte") } else { 0 };
                if q & 3 == 3 || q > 2 {
                    return Bad("bad requested QoS");
                }
                if !valid_filter(&f) {
                    return Bad("malformed filter");
                }
                fs.push((f, q));
            }
            if id == 0 {
                return Skip("packet id 0");
            }
            if ty == 8 {
                Ok(Pkt::Subscribe { id, filters: fs })
            } else {
                Ok(Pkt::Unsubscribe { id, filters: fs.into_iter().map(|f| f.0).collect() })
            }
        }
        12 | 14 => {
            if !body.is_empty() {
                return Bad("wrong length");
            }
            if first & 15 != 0 {
                return Bad("reserved flags");
            }
            Ok(if ty == 12 { Pkt::PingReq } else { Pkt::Disconnect })
        }
        _ => Bad("not a packet a client may send"),
    }
}

pub fn valid_filter(f: &str) -> bool {
    if f.is_empty() || f.contains('\0') {
        return false;
    }
    let l: Vec<&str> = f.split('/').collect();
    l.iter().enumerate().all(|(i, s)| match *s {
        "#" => i + 1 == l.len(),
        "+" => true,
        s => !s.contains(['+', '#']),
    })
}

/// Fields that are there may contradict the declared length.
pub const NOT_YET: &str = "inconsistent, but not complete";

/// Splits a client's byte stream into packets up to the first one that is not well-formed.
pub fn classify(b: &[u8]) -> (Vec<Pkt>, Tail, usize) {
    let mut v = Vec::new();
    let mut p = 0;
    loop {
        let rest = &b[p..];
        if rest.is_empty() {
            return (v, Tail::Clean, p);
        }
        // a wrong type or wrong reserved bits are visible in the first byte
        let early = match rest[0] {
            x if matches!(x >> 4, 0 | 2 | 9 | 11 | 13 | 15) => Some("not a packet a client may send"),
            x if (0x30..=0x3f).contains(&x) && x & 6 == 6 => Some("QoS 3"),
            x if matches!(x >> 4, 1 | 4 | 5 | 7 | 12 | 14) && x & 15 != 0 => Some("reserved flags"),
            x if matches!(x >> 4, 6 | 8 | 10) && x & 15 != 2 => Some("reserved flags"),
            _ => None,
        };
        let (first, h, n) = match header(rest) {
            Err(_) => return (v, Tail::Malformed("remaining length longer than four bytes"), p),
            Ok(None) => {
                return (v, early.map(Tail::MaybeEarly).unwrap_or(Tail::Incomplete), p);
            }
            Ok(Some(x)) => x,
        };
        if rest.len() < h + n {
            // incomplete; is it already beyond repair?
            let bad_len = match first >> 4 {
                12 | 14 if n != 0 => true,
                4..=7 if n != 2 => true,
                _ => false,
            };
            // fields that are there may already contradict the length; then either reaction is fine
            let t = if early.is_some() || bad_len || hopeless(first, &rest[h..], n) {
                Tail::MaybeEarly(early.unwrap_or(NOT_YET))
            } else {
                Tail::Incomplete
            };
            return (v, t, p);
        }
        let mut minimal = Vec::new();
        put_len(&mut minimal, n);
        if minimal.len() != h - 1 {
            return (v, Tail::Unspecified("length not in its shortest form"), p);
        }
        match decode_body(first, &rest[h..h + n]) {
            One::Ok(k) => v.push(k),
            One::Bad(m) => return (v, Tail::Malformed(m), p),
            One::Skip(m) => return (v, Tail::Unspecified(m), p),
        }
        p += h + n;
    }
}

/// May a decoder reasonably reject this incomplete body before the rest arrives?
/// Over-approximation: any body whose zero-filled completion is not fine either way
/// could be rejected early.
fn hopeless(first: u8, have: &[u8], n: usize) -> bool {
    if n > 1 << 20 {
        return true;
    }
    // try completing with a few fillers; if some completion decodes, the prefix is fine
    for fill in [0u8, b'a', 1] {
        let mut b = have.to_vec();
        b.resize(n, fill);
        if matches!(decode_body(first, &b), One::Ok(_)) {
            return false;
        }
    }
    true
}
