//! Reference model of the broker, as its users see it, and the lock-step comparison.
use crate::codec::*;
use crate::explore::{self, Fail, Fallible};
use crate::sys::Sys;
use std::collections::BTreeSet;
use std::fmt;
use tokio::mc::{self, CloseMode, Explore};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    Yes,
    No,
    Either,
}

/// Reference topic matching. `x/#` against `x` itself is left open (known deviation of the project).
pub fn matches(filter: &str, topic: &str) -> Tri {
    let f: Vec<&str> = filter.split('/').collect();
    let t: Vec<&str> = topic.split('/').collect();
    if topic.starts_with('$') && (f[0] == "+" || f[0] == "#") {
        return Tri::No;
    }
    for (i, l) in f.iter().enumerate() {
        if *l == "#" {
            return if t.len() > i {
                Tri::Yes
            } else {
                Tri::Either
            };
        }
        if i >= t.len() {
            return Tri::No;
        }
        if *l != "+" && *l != t[i] {
            return Tri::No;
        }
    }
    if f.len() == t.len() { Tri::Yes } else { Tri::No }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Phase {
    New,
    Live,
    Dead,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct MConn {
    pub phase: Phase,
    pub id: Option<String>,
    pub subs: BTreeSet<String>,
}

/// What a connection is expected to receive.
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Exp {
    Reply(Out),
    Deliver { topic: String, payload: Vec<u8>, min: u32, max: u32 },
}
impl fmt::Debug for Exp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Exp::Reply(o) => write!(f, "{:?}", o),
            Exp::Deliver { topic, payload, min, max } => {
                write!(f, "delivery of {:?} <{}> ({}..{} copies)", topic, show(payload), min, max)
            }
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Model {
    pub conns: Vec<MConn>,
    /// (user, password) pairs on file
    pub users: Vec<(String, String)>,
}

impl Model {
    pub fn new(users: &[(&str, &str)]) -> Model {
        Model { conns: vec![], users: users.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }
    }
    pub fn open(&mut self) -> usize {
        self.conns.push(MConn { phase: Phase::New, id: None, subs: BTreeSet::new() });
        self.conns.len() - 1
    }
    pub fn end(&mut self, c: usize) {
        let m = &mut self.conns[c];
        m.phase = Phase::Dead;
        m.subs.clear();
    }
    pub fn live(&self, c: usize) -> bool {
        self.conns[c].phase == Phase::Live
    }
    pub fn step(&mut self, c: usize, p: &Pkt) -> Vec<(usize, Exp)> {
        let mut out = vec![];
        match self.conns[c].phase {
            Phase::Dead => return out,
            Phase::New => {
                match p {
                    Pkt::Connect { id, user, pass, .. } => {
                        let ok = match user {
                            None => true,
                            Some(u) => self.users.iter().any(|(n, w)| n == u && Some(w) == pass.as_ref()),
                        };
                        if !ok {
                            out.push((c, Exp::Reply(Out::ConnAck { sp: 0, rc: 5 })));
                            self.end(c);
                            return out;
                        }
                        if !id.is_empty() {
                            let same: Vec<usize> = (0..self.conns.len())
                                .filter(|&o| o != c && self.conns[o].phase == Phase::Live && self.conns[o].id.as_ref() == Some(id))
                                .collect();
                            for o in same {
                                self.end(o);
                            }
                        }
                        let m = &mut self.conns[c];
                        m.phase = Phase::Live;
                        m.id = if id.is_empty() { None } else { Some(id.clone()) };
                        m.subs.clear();
                        out.push((c, Exp::Reply(Out::ConnAck { sp: 0, rc: 0 })));
                    }
                    _ => self.end(c),
                }
            }
            Phase::Live => match p {
                Pkt::Connect { .. } | Pkt::Raw(_) => self.end(c),
                Pkt::Disconnect => self.end(c),
                Pkt::Subscribe { filters, .. } if !filters.iter().all(|f| valid_filter(&f.0)) => self.end(c),
                Pkt::Unsubscribe { filters, .. } if !filters.iter().all(|f| valid_filter(f)) => self.end(c),
                Pkt::Subscribe { id, filters } => {
                    for (f, _) in filters {
                        self.conns[c].subs.insert(f.clone());
                    }
                    out.push((c, Exp::Reply(Out::SubAck { id: *id, codes: vec![0; filters.len()] })));
                }
                Pkt::Unsubscribe { id, filters } => {
                    for f in filters {
                        self.conns[c].subs.remove(f);
                    }
                    out.push((c, Exp::Reply(Out::UnsubAck(*id))));
                }
                Pkt::PingReq => out.push((c, Exp::Reply(Out::PingResp))),
                Pkt::Publish { topic, payload, .. } => {
                    if topic.contains(['+', '#', '\0']) || topic.is_empty() {
                        self.end(c);
                        return out;
                    }
                    for (i, m) in self.conns.iter().enumerate() {
                        if m.phase != Phase::Live {
                            continue;
                        }
                        let yes = m.subs.iter().filter(|f| matches(f, topic) == Tri::Yes).count() as u32;
                        let may = m.subs.iter().filter(|f| matches(f, topic) == Tri::Either).count() as u32;
                        if yes + may > 0 {
                            out.push((
                                i,
                                Exp::Deliver { topic: topic.clone(), payload: payload.clone(), min: yes.min(1), max: yes + may },
                            ));
                        }
                    }
                }
                Pkt::PubAck(_) | Pkt::PubRec(_) | Pkt::PubRel(_) | Pkt::PubComp(_) => {}
            },
        }
        out
    }
}

/// Which observations a property compares.
#[derive(Clone, Copy, Debug)]
pub struct Mask {
    pub replies: bool,
    pub deliveries: bool,
    /// QoS, packet id, DUP, RETAIN of deliveries
    pub flags: bool,
    /// connections are closed exactly when they should be
    pub closes: bool,
    /// a panicked task is a violation by itself
    pub panics: bool,
}
pub const ALL: Mask = Mask { replies: true, deliveries: true, flags: false, closes: true, panics: false };
pub const DELIVERIES: Mask = Mask { replies: false, deliveries: true, flags: false, closes: false, panics: false };
pub const REPLIES: Mask = Mask { replies: true, deliveries: false, flags: false, closes: false, panics: false };

pub fn out_matches(e: &Exp, o: &Out, mask: &Mask) -> bool {
    match (e, o) {
        (Exp::Reply(r), o) => r == o,
        (Exp::Deliver { topic, payload, .. }, Out::Publish { topic: t, payload: p, qos, retain, dup, id }) => {
            t == topic.as_bytes()
                && p == payload
                && (!mask.flags || (*qos == 0 && !*retain && !*dup && id.is_none()))
        }
        _ => false,
    }
}

/// Compares what one connection received with what it should have received.
pub fn compare(exp: &[Exp], got: &[Out], mask: &Mask) -> Fallible<()> {
    let exp: Vec<&Exp> = exp
        .iter()
        .filter(|e| match e {
            Exp::Reply(_) => mask.replies,
            Exp::Deliver { .. } => mask.deliveries,
        })
        .collect();
    let got: Vec<&Out> = got.iter().filter(|o| if o.is_delivery() { mask.deliveries } else { mask.replies }).collect();
    let mut g = 0;
    for (i, e) in exp.iter().enumerate() {
        let (min, max) = match e {
            Exp::Reply(_) => (1, 1),
            Exp::Deliver { min, max, .. } => (*min, *max),
        };
        let mut n = 0;
        while n < max && g < got.len() && out_matches(e, got[g], mask) {
            n += 1;
            g += 1;
        }
        if n < min {
            let kind = match e {
                Exp::Reply(_) => {
                    if g < got.len() && !got[g].is_delivery() {
                        "wrong-reply"
                    } else {
                        "missing-reply"
                    }
                }
                Exp::Deliver { topic, payload, .. } => {
                    if mask.flags && g < got.len() && out_matches(e, got[g], &Mask { flags: false, ..*mask }) {
                        "flags"
                    } else if got[g..].iter().any(|o| out_matches(e, o, mask)) {
                        "order"
                    } else if got[g..].iter().any(|o| matches!(o, Out::Publish{topic: t, payload: p, ..} if t == topic.as_bytes() || p == payload)) {
                        "altered"
                    } else {
                        "lost"
                    }
                }
            };
            return Err(Fail::new(kind, format!("expected {:?}, received {:?} (all expected: {:?}; all received: {:?})", e, got.get(g), exp, got)));
        }
        let _ = i;
    }
    if g < got.len() {
        let o = got[g];
        let kind = if o.is_delivery() {
            if exp.iter().any(|e| out_matches(e, o, mask)) { "duplicate" } else { "stray" }
        } else {
            "extra-reply"
        };
        return Err(Fail::new(kind, format!("unexpected {:?} (all expected: {:?}; all received: {:?})", o, exp, got)));
    }
    Ok(())
}

/// Runs the real broker and the model side by side, comparing after every operation.
pub struct Lock {
    pub sys: Sys,
    pub model: Model,
    pub mask: Mask,
    pub seen: Vec<usize>,
    pub closed_by_client: Vec<Option<CloseMode>>,
    /// the model does not know this connection's fate
    pub unknown: Vec<bool>,
    /// bytes of a packet that is not complete yet
    pub pending: Vec<Vec<u8>>,
    /// every packet that is cut is known to be well-formed in the end
    pub patient: bool,
    pub seq: u64,
    pub log: Vec<String>,
}

impl Lock {
    pub fn boot(config: &str, users: &[(&str, &str)], mask: Mask, trace: bool) -> Fallible<Lock> {
        let sys = Sys::boot(config, vec![], Explore::default(), trace)?;
        let l = Lock { sys, model: Model::new(users), mask, seen: vec![], closed_by_client: vec![], unknown: vec![], pending: vec![], patient: false, seq: 0, log: vec![] };
        if !l.sys.running() || !l.sys.panics().is_empty() {
            return Err(Fail::new("boot", format!("the broker did not start: {:?}", l.sys.panics())));
        }
        Ok(l)
    }
    pub fn open(&mut self, addr: &str) -> Fallible<usize> {
        let c = self.sys.open(addr).ok_or_else(|| Fail::new("refused", format!("nobody listens on {}", addr)))?;
        let m = self.model.open();
        assert_eq!(c, m);
        self.seen.push(0);
        self.closed_by_client.push(None);
        self.unknown.push(false);
        self.pending.push(vec![]);
        self.note(|| format!("open #{}", c));
        self.settle(vec![])?;
        Ok(c)
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        self.log.push(f());
    }
    /// Gives each PUBLISH a payload of its own so that messages can be told apart.
    pub fn stamp(&mut self, p: &[Pkt]) -> Vec<Pkt> {
        p.iter()
            .map(|p| match p {
                Pkt::Publish { topic, payload, qos, retain, dup, id } if payload.is_empty() => {
                    self.seq += 1;
                    Pkt::Publish { topic: topic.clone(), payload: format!("m{}", self.seq).into_bytes(), qos: *qos, retain: *retain, dup: *dup, id: *id }
                }
                p => p.clone(),
            })
            .collect()
    }
    pub fn send(&mut self, c: usize, pkts: &[Pkt]) -> Fallible<()> {
        let pkts = self.stamp(pkts);
        self.note(|| format!("#{} sends {:?}", c, pkts));
        self.sys.send_pkts(c, &pkts);
        let mut exp = vec![];
        if self.closed_by_client[c].is_none() {
            for p in &pkts {
                exp.extend(self.model.step(c, p));
            }
        }
        self.settle(exp)
    }
    /// Raw bytes, interpreted by the reference decoder together with what came before.
    pub fn send_raw(&mut self, c: usize, b: &[u8]) -> Fallible<()> {
        self.note(|| format!("#{} sends bytes {}", c, hex(b)));
        self.sys.send(c, b);
        if self.unknown[c] {
            if !self.pending[c].is_empty() && self.model.conns[c].phase != Phase::Dead {
                self.pending[c].extend_from_slice(b);
                if let (_, Tail::Malformed(_), 0) = classify(&self.pending[c]) {
                    self.model.end(c);
                    self.unknown[c] = false;
                }
            }
            return self.settle(vec![]);
        }
        self.pending[c].extend_from_slice(b);
        let (pkts, tail, pos) = classify(&self.pending[c]);
        self.pending[c].drain(..pos);
        let mut exp = vec![];
        for p in &pkts {
            exp.extend(self.model.step(c, p));
        }
        if self.model.conns[c].phase != Phase::Dead {
            match tail {
                Tail::Malformed(_) => self.model.end(c),
                Tail::MaybeEarly(NOT_YET) if self.patient => {}
                Tail::MaybeEarly(_) => self.unknown[c] = true,
                Tail::Unspecified(_) => {
                    self.unknown[c] = true;
                    self.pending[c].clear();
                }
                _ => {}
            }
        }
        self.settle(exp)
    }
    pub fn close(&mut self, c: usize, mode: CloseMode) -> Fallible<()> {
        self.note(|| format!("#{} closes ({:?})", c, mode));
        self.sys.close(c, mode);
        self.closed_by_client[c] = Some(mode);
        self.unknown[c] = false;
        self.model.end(c);
        self.settle(vec![])
    }
    /// Time passes; nothing may come of it.
    pub fn idle(&mut self, secs: u64) -> Fallible<()> {
        self.note(|| format!("{} s pass", secs));
        self.sys.idle(secs).map_err(|f| self.ctx(f))?;
        self.settle(vec![])
    }
    /// Lets the broker work until it is quiet and compares every connection.
    pub fn settle(&mut self, exp: Vec<(usize, Exp)>) -> Fallible<()> {
        self.sys.quiesce().map_err(|f| self.ctx(f))?;
        explore::visit(&(&self.model.conns, self.closed_by_client.iter().map(|c| c.is_some()).collect::<Vec<_>>()));
        let n = self.sys.conns.len();
        if self.mask.panics {
            self.sys.check_panics().map_err(|f| self.ctx(f))?;
        }
        for c in 0..n {
            let e: Vec<Exp> = exp.iter().filter(|x| x.0 == c).map(|x| x.1.clone()).collect();
            let got: Vec<Out> = self.sys.conns[c].out[self.seen[c]..].iter().map(|o| o.0.clone()).collect();
            self.seen[c] = self.sys.conns[c].out.len();
            if self.unknown[c] {
                continue;
            }
            if let Some(b) = &self.sys.conns[c].bad {
                return Err(self.ctx(Fail::new("garbled", format!("connection #{} received malformed data: {}", c, b))));
            }
            if matches!(self.closed_by_client[c], Some(CloseMode::Close | CloseMode::Reset | CloseMode::Failed(_))) {
                // nobody is there to receive
            } else {
                compare(&e, &got, &self.mask).map_err(|f| self.ctx(f.ctx(format!("connection #{}", c))))?;
                let left = self.sys.leftover(c);
                if left > 0 && (self.mask.replies || self.mask.deliveries) {
                    return Err(self.ctx(Fail::new("partial", format!("connection #{} received {} bytes of a packet that never completes", c, left))));
                }
            }
            if self.mask.closes {
                let closed = self.sys.is_closed(c);
                let dead = self.model.conns[c].phase == Phase::Dead;
                if closed && !dead {
                    return Err(self.ctx(Fail::new("closed", format!("the broker closed connection #{} although nothing was wrong with it", c))));
                }
                if !closed && dead {
                    return Err(self.ctx(Fail::new("not-closed", format!("the broker keeps connection #{} open although its session is over", c))));
                }
            }
        }
        Ok(())
    }
    pub fn ctx(&self, f: Fail) -> Fail {
        let mut f = f;
        let p = self.sys.panics();
        if !p.is_empty() && f.kind != "panic" {
            f.msg = format!("{} [panicked: {}]", f.msg, p.join("; "));
        }
        f.ctx(format!("after {}", self.log.join(" | ")))
    }
    /// Every live connection is still served and two newcomers can talk to each other.
    pub fn probe(&mut self, addr: &str) -> Fallible<()> {
        let live: Vec<usize> = (0..self.model.conns.len()).filter(|&c| self.model.live(c) && !self.unknown[c]).collect();
        for c in live {
            self.send(c, &[Pkt::PingReq])?;
        }
        let a = self.open(addr)?;
        self.send(a, &[connect("probe-a")])?;
        self.send(a, &[subscribe(7, &["probe/x"])])?;
        let b = self.open(addr)?;
        self.send(b, &[connect("probe-b"), publish("probe/x", ""), Pkt::PingReq])?;
        Ok(())
    }
    pub fn running(&self) -> Fallible<()> {
        if self.sys.running() {
            Ok(())
        } else {
            Err(self.ctx(Fail::new("stopped", "the broker terminated")))
        }
    }
    pub fn finish(&mut self) {
        explore::sample(|| self.log.join(" | "));
        explore::outcome(&self.sys.conns.iter().map(|c| c.out.iter().map(|o| o.0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>());
        self.sys.end();
    }
}
