//! Concurrent scripts: several clients act while the broker runs; the explorer
//! owns the interleaving. The oracle searches for a linearization of what the
//! clients sent that explains everything they received.
use crate::codec::*;
use crate::explore::{self, Ctx, Fail, Fallible};
use crate::model::*;
use crate::sys::*;
use std::collections::HashSet;
use std::sync::{Arc, Mutex};
use tokio::mc::{self, CloseMode, Explore, Kind};

#[derive(Clone, Debug)]
pub enum Act {
    Open(&'static str),
    Send(Vec<Pkt>),
    Bytes(Vec<u8>),
    Close(CloseMode),
    Read(usize),
    /// (window, auto-read)
    Flow(usize, bool),
    ShortIo,
    Interrupt,
    AcceptError(&'static str),
    /// seconds pass without anything happening
    Idle(u64),
}

#[derive(Clone, Debug)]
pub enum Guard {
    /// connection has received at least n packets
    Got(usize, usize),
    /// connection was closed by the broker
    Closed(usize),
    /// client list k has executed n steps
    Did(usize, usize),
    /// nothing is runnable
    Quiet,
}

#[derive(Clone, Debug)]
pub struct Step {
    pub c: usize,
    pub act: Act,
    pub when: Vec<Guard>,
}
pub fn st(c: usize, act: Act) -> Step {
    Step { c, act, when: vec![] }
}
pub fn when(c: usize, act: Act, g: Guard) -> Step {
    Step { c, act, when: vec![g] }
}
pub fn send(c: usize, p: &[Pkt]) -> Step {
    st(c, Act::Send(p.to_vec()))
}

#[derive(Clone)]
pub struct Script {
    pub name: String,
    pub config: String,
    pub users: Vec<(&'static str, &'static str)>,
    pub conns: usize,
    pub setup: Vec<Step>,
    pub par: Vec<Vec<Step>>,
    pub finale: Vec<Step>,
    pub explore: Explore,
    pub peers: mc::Peers,
    /// some client limits its window: nothing can be concluded from quiescence after it did
    pub flow: bool,
    pub mask: Mask,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum What {
    Pkt(Pkt),
    End(bool /* the client does not receive any more */),
}
#[derive(Clone, Debug)]
pub struct Item {
    pub what: What,
    pub t: u64,
}

/// What happened in one execution, per script connection.
#[derive(Clone, Debug, Default)]
pub struct History {
    pub items: Vec<Vec<Item>>,
    pub outs: Vec<Vec<(Out, u64)>>,
    pub fin: Vec<Option<u64>>,
    pub gone: Vec<bool>,
    pub quiet: Vec<u64>,
    pub leftover: Vec<usize>,
    pub opened: Vec<bool>,
    pub panics: Vec<String>,
    pub interrupted: Option<u64>,
    /// from here on some client limits what it reads
    pub flow_at: Option<u64>,
    pub terminated: bool,
    pub log: Vec<String>,
}

pub struct Runner {
    pub sys: Sys,
    pub map: Vec<Option<usize>>,
    pub h: History,
    seq: u64,
}

impl Runner {
    pub fn boot(s: &Script, ctx: &Ctx) -> Fallible<Runner> {
        let sys = Sys::boot(&s.config, ctx.devs.clone(), s.explore, ctx.trace)?;
        mc::with(|w| w.net.peers = s.peers);
        let n = s.conns;
        let h = History {
            items: vec![vec![]; n],
            outs: vec![vec![]; n],
            fin: vec![None; n],
            gone: vec![false; n],
            leftover: vec![0; n],
            opened: vec![false; n],
            ..Default::default()
        };
        Ok(Runner { sys, map: vec![None; n], h, seq: 0 })
    }
    pub fn act(&mut self, s: &Step) -> Fallible<()> {
        self.h.log.push(format!("#{} {:?}", s.c, s.act));
        match &s.act {
            Act::Open(a) => {
                // a refused connection (listener gone) stays unopened
                if let Some(k) = self.sys.open(a) {
                    self.map[s.c] = Some(k);
                    self.h.opened[s.c] = true;
                }
            }
            Act::Interrupt => {
                self.sys.interrupt();
                self.h.interrupted = Some(self.sys.step);
            }
            Act::AcceptError(a) => mc::inject_accept_error(a.parse().unwrap()),
            Act::Idle(n) => self.sys.idle(*n)?,
            other => {
                let Some(k) = self.map[s.c] else { return Ok(()) };
                if self.sys.conns[k].closed_by_client.is_some() && matches!(other, Act::Send(_) | Act::Bytes(_) | Act::Close(_)) {
                    return Ok(());
                }
                match other {
                    Act::Send(p) => {
                        let p: Vec<Pkt> = p
                            .iter()
                            .map(|p| match p {
                                Pkt::Publish { topic, payload, qos, retain, dup, id } if payload.is_empty() => {
                                    self.seq += 1;
                                    Pkt::Publish { topic: topic.clone(), payload: format!("{}.{}", s.c, self.seq).into_bytes(), qos: *qos, retain: *retain, dup: *dup, id: *id }
                                }
                                p => p.clone(),
                            })
                            .collect();
                        self.sys.send_pkts(k, &p);
                        let t = self.sys.step;
                        for p in p {
                            self.h.items[s.c].push(Item { what: What::Pkt(p), t });
                        }
                    }
                    Act::Bytes(b) => {
                        self.sys.send(k, b);
                        let t = self.sys.step;
                        let (ps, tail, at) = classify(b);
                        for p in ps {
                            self.h.items[s.c].push(Item { what: What::Pkt(p), t });
                        }
                        // an incomplete packet has no effect
                        if !matches!(tail, Tail::Clean | Tail::Incomplete) && tail != Tail::MaybeEarly(NOT_YET) {
                            self.h.items[s.c].push(Item { what: What::Pkt(Pkt::Raw(b[at..].to_vec())), t });
                        }
                    }
                    Act::Close(m) => {
                        self.sys.close(k, *m);
                        let gone = *m != CloseMode::Fin;
                        self.h.gone[s.c] |= gone;
                        let t = self.sys.step;
                        self.h.items[s.c].push(Item { what: What::End(gone), t });
                    }
                    Act::Read(n) => {
                        mc::client_read(self.sys.conns[k].net, *n);
                        self.sys.step += 1;
                        self.sys.collect();
                    }
                    Act::Flow(w, auto) => {
                        self.h.flow_at.get_or_insert(self.sys.step);
                        mc::set_flow(self.sys.conns[k].net, *w, *auto);
                        self.sys.step += 1;
                        self.sys.collect();
                    }
                    Act::ShortIo => mc::with(|w| w.net.conns[self.sys.conns[k].net].short_io = true),
                    _ => unreachable!(),
                }
            }
        }
        Ok(())
    }
    fn enabled(&self, g: &Guard, done: &[usize], quiet: bool) -> bool {
        match g {
            Guard::Got(c, n) => self.map[*c].is_some_and(|k| self.sys.conns[k].out.len() >= *n),
            Guard::Closed(c) => self.map[*c].is_some_and(|k| self.sys.is_closed(k)),
            Guard::Did(k, n) => done[*k] >= *n,
            Guard::Quiet => quiet,
        }
    }
    fn state(&self, done: &[usize]) -> u64 {
        let mut v: Vec<(usize, usize, bool)> = vec![];
        for c in &self.sys.conns {
            v.push((c.out.len(), c.parsed, c.fin_step.is_some()));
        }
        let outs: Vec<u64> = self.sys.conns.iter().map(|c| explore::hash(&c.out.iter().map(|o| &o.0).collect::<Vec<_>>())).collect();
        explore::hash(&(done, v, outs, self.sys.runnable()))
    }
    pub fn sequential(&mut self, steps: &[Step]) -> Fallible<()> {
        for s in steps {
            self.act(s)?;
            self.sys.quiesce()?;
            self.h.quiet.push(self.sys.step);
        }
        Ok(())
    }
    /// Runs the concurrent part; every choice belongs to the explorer.
    pub fn concurrent(&mut self, par: &[Vec<Step>]) -> Fallible<()> {
        let mut done = vec![0usize; par.len()];
        let limit = self.sys.step + 100_000;
        let t0 = mc::now();
        // tasks that run only when nothing else can happen
        let mut late: HashSet<usize> = HashSet::new();
        self.sys.set_exploring(true);
        loop {
            let q = self.sys.runnable();
            let timer = q == 0 && self.sys.timer_due(t0);
            if q == 0 && !timer {
                self.h.quiet.push(self.sys.step);
            }
            let env: Vec<usize> = (0..par.len())
                .filter(|&k| {
                    par[k].get(done[k]).is_some_and(|s| {
                        s.when.iter().all(|g| self.enabled(g, &done, q == 0 && !timer))
                    })
                })
                .collect();
            if q == 0 && env.is_empty() {
                if timer && mc::fire_timers() {
                    continue;
                }
                break;
            }
            if timer {
                // the timer fires first, or some client acts first
                let pick = mc::with(|w| w.choose(1 + env.len(), Kind::Env));
                if pick == 0 {
                    mc::fire_timers();
                } else {
                    let k = env[pick - 1];
                    let s = &par[k][done[k]];
                    done[k] += 1;
                    self.act(s)?;
                }
                continue;
            }
            explore::visit(&self.state(&done));
            let queue = mc::with(|w| w.runnable());
            let mut ready: Vec<usize> = (0..q).filter(|&i| !late.contains(&queue[i])).collect();
            if ready.is_empty() && env.is_empty() {
                ready = (0..q).collect();
            }
            // some task runs, some client acts, or the task whose turn it is falls behind all others
            let delay = (!ready.is_empty() && ready.len() + env.len() > 1 && !late.contains(&queue[ready[0]])) as usize;
            let pick = if q > 0 {
                mc::with(|w| w.choose(ready.len() + env.len() + delay, Kind::Sched))
            } else {
                mc::with(|w| w.choose(env.len(), Kind::Env))
            };
            if pick == ready.len() + env.len() {
                late.insert(queue[ready[0]]);
            } else if pick < ready.len() {
                self.sys.run_task(ready[pick])?;
            } else {
                let k = env[pick - ready.len()];
                let s = &par[k][done[k]];
                done[k] += 1;
                self.act(s)?;
            }
            if self.sys.step > limit {
                return Err(Fail::new("livelock", "the broker does not become quiet"));
            }
        }
        self.sys.set_exploring(false);
        for (k, d) in done.iter().enumerate() {
            if *d < par[k].len() {
                self.h.log.push(format!("client list {} waits forever at step {}: {:?}", k, d, par[k][*d]));
            }
        }
        Ok(())
    }
    pub fn history(&mut self) -> History {
        self.sys.collect();
        for c in 0..self.map.len() {
            if let Some(k) = self.map[c] {
                self.h.outs[c] = self.sys.conns[k].out.clone();
                self.h.fin[c] = self.sys.conns[k].fin_step;
                self.h.leftover[c] = self.sys.leftover(k);
            }
        }
        self.h.panics = self.sys.panics();
        self.h.terminated = !self.sys.running();
        self.h.clone()
    }
}

/// Runs a script to the end and returns its history.
pub fn run(s: &Script, ctx: &Ctx) -> Fallible<History> {
    let mut r = Runner::boot(s, ctx)?;
    r.sequential(&s.setup)?;
    r.concurrent(&s.par)?;
    r.sequential(&s.finale)?;
    let h = r.history();
    r.sys.check_wellformed().map_err(|f| f.ctx(describe(&h)))?;
    if s.mask.panics {
        r.sys.check_panics().map_err(|f| f.ctx(describe(&h)))?;
    }
    explore::outcome(&h.outs.iter().map(|o| o.iter().map(|x| &x.0).collect::<Vec<_>>()).collect::<Vec<_>>());
    explore::sample(|| describe(&h));
    r.sys.end();
    Ok(h)
}

pub fn describe(h: &History) -> String {
    let mut s = String::new();
    let mut ev: Vec<(u64, String)> = vec![];
    for (c, v) in h.items.iter().enumerate() {
        for i in v {
            ev.push((i.t, format!("#{} sends {:?}", c, i.what)));
        }
    }
    for (c, v) in h.outs.iter().enumerate() {
        for (o, t) in v {
            ev.push((*t, format!("#{} receives {:?}", c, o)));
        }
    }
    for (c, f) in h.fin.iter().enumerate() {
        if let Some(t) = f {
            ev.push((*t, format!("#{} is closed by the broker", c)));
        }
    }
    if let Some(t) = h.interrupted {
        ev.push((t, "interrupt".into()));
    }
    ev.sort_by_key(|e| e.0);
    for (t, e) in ev {
        s.push_str(&format!("[{}] {} ; ", t, e));
    }
    if !h.panics.is_empty() {
        s.push_str(&format!("panics: {:?}", h.panics));
    }
    s
}

// ------------------------------------------------------------ linearization

struct Lin<'a> {
    h: &'a History,
    mask: &'a Mask,
    outs: Vec<Vec<&'a (Out, u64)>>,
    seen: HashSet<u64>,
    states: u64,
    best: (usize, String),
}

#[derive(Clone, Hash)]
struct LState {
    idx: Vec<usize>,
    pos: Vec<usize>,
    model: Model,
    maxsent: u64,
}

impl<'a> Lin<'a> {
    fn deadline(&self, t: u64) -> u64 {
        // first quiescent moment at or after t
        match self.h.quiet.binary_search(&t) {
            Ok(_) => t,
            Err(i) => self.h.quiet.get(i).copied().unwrap_or(u64::MAX),
        }
    }
    fn search(&mut self, s: LState) -> bool {
        if !self.seen.insert(explore::hash(&s)) {
            return false;
        }
        self.states += 1;
        let n = s.idx.len();
        if (0..n).all(|c| s.idx[c] == self.h.items[c].len()) {
            return self.accept(&s);
        }
        let deadlines: Vec<u64> = (0..n)
            .map(|c| self.h.items[c].get(s.idx[c]).map(|i| self.deadline(i.t)).unwrap_or(u64::MAX))
            .collect();
        for c in 0..n {
            if s.idx[c] == self.h.items[c].len() {
                continue;
            }
            // regular next item
            let it = &self.h.items[c][s.idx[c]];
            let min_other = (0..n).filter(|&o| o != c).map(|o| deadlines[o]).min().unwrap_or(u64::MAX);
            if min_other >= it.t {
                let mut s2 = s.clone();
                s2.idx[c] += 1;
                s2.maxsent = s2.maxsent.max(it.t);
                let exp = match &it.what {
                    What::Pkt(p) => s2.model.step(c, p),
                    What::End(_) => {
                        s2.model.end(c);
                        vec![]
                    }
                };
                if self.emit(s2, exp, 0) {
                    return true;
                }
            }
            // a client that went away may take its unread packets with it
            let last = self.h.items[c].len() - 1;
            if s.idx[c] < last && matches!(self.h.items[c][last].what, What::End(true)) {
                let it = &self.h.items[c][last];
                if min_other >= it.t {
                    let mut s2 = s.clone();
                    s2.idx[c] = last + 1;
                    s2.maxsent = s2.maxsent.max(it.t);
                    s2.model.end(c);
                    if self.search(s2) {
                        return true;
                    }
                }
            }
        }
        let prog = s.idx.iter().sum::<usize>() + s.pos.iter().sum::<usize>();
        if prog >= self.best.0 {
            self.best = (prog, format!("explained up to items {:?}, outputs {:?}", s.idx, s.pos));
        }
        false
    }
    /// Matches the expected effects from number `k` on, then continues the search.
    fn emit(&mut self, s: LState, exp: Vec<(usize, Exp)>, k: usize) -> bool {
        if k == exp.len() {
            return self.search(s);
        }
        let (c, e) = exp[k].clone();
        let relevant = match &e {
            Exp::Reply(_) => self.mask.replies,
            Exp::Deliver { .. } => self.mask.deliveries,
        };
        if !relevant {
            return self.emit(s, exp, k + 1);
        }
        let (min, max) = match &e {
            Exp::Reply(_) => (1, 1),
            Exp::Deliver { min, max, .. } => (*min, *max),
        };
        let outs = &self.outs[c];
        let refusal = matches!(&e, Exp::Reply(Out::ConnAck { rc, .. }) if *rc != 0);
        let ended = self.h.gone[c] || (self.h.fin[c].is_some() && !refusal) || self.h.interrupted.is_some();
        let mut n = 0;
        let mut pos = s.pos[c];
        let mut choices = vec![];
        if min == 0 {
            choices.push(pos);
        }
        while n < max && pos < outs.len() && out_matches(&e, &outs[pos].0, self.mask) && s.maxsent <= outs[pos].1 {
            n += 1;
            pos += 1;
            if n >= min {
                choices.push(pos);
            }
        }
        if choices.is_empty() && pos == outs.len() && ended {
            choices.push(pos);
        }
        choices.reverse();
        for p in choices {
            let mut s2 = s.clone();
            s2.pos[c] = p;
            if self.emit(s2, exp.clone(), k + 1) {
                return true;
            }
        }
        false
    }
    fn accept(&self, s: &LState) -> bool {
        for c in 0..s.pos.len() {
            if s.pos[c] != self.outs[c].len() {
                return false;
            }
            if self.mask.closes && self.h.opened[c] && self.h.interrupted.is_none() {
                let dead = s.model.conns[c].phase == Phase::Dead;
                if dead != self.h.fin[c].is_some() {
                    return false;
                }
            }
        }
        true
    }
}

fn signature(h: &History, mask: &Mask) -> u64 {
    let mut ev: Vec<(u64, u8, usize, u64)> = vec![];
    for (c, v) in h.items.iter().enumerate() {
        for i in v {
            ev.push((i.t, 1, c, explore::hash(&i.what)));
        }
    }
    for (c, v) in h.outs.iter().enumerate() {
        for (o, t) in v {
            ev.push((*t, 0, c, explore::hash(o)));
        }
    }
    for q in &h.quiet {
        ev.push((*q, 2, 0, 0));
    }
    ev.sort();
    // keep the order, forget absolute times
    let mut sig: Vec<(u64, u8, usize, u64)> = vec![];
    let mut rank = 0;
    let mut last = None;
    for (t, a, b, c) in ev {
        if a == 2 && sig.last().is_some_and(|x| x.1 == 2) {
            continue;
        }
        if last != Some(t) {
            rank += 1;
            last = Some(t);
        }
        sig.push((rank, a, b, c));
    }
    explore::hash(&(sig, h.fin.iter().map(|f| f.is_some()).collect::<Vec<_>>(), &h.gone, mask.flags, mask.replies, mask.deliveries, mask.closes))
}

pub type Cache = Arc<Vec<Mutex<HashSet<u64>>>>;
pub fn cache() -> Cache {
    Arc::new((0..32).map(|_| Mutex::new(HashSet::new())).collect())
}

/// Is there an order of the clients' packets that explains everything they observed?
pub fn linearizable(h: &History, s: &Script, cache: &Cache) -> Fallible<()> {
    for (c, l) in h.leftover.iter().enumerate() {
        if *l > 0 && h.interrupted.is_none() && !h.gone[c] && h.fin[c].is_none() {
            return Err(Fail::new("partial", format!("connection #{} received {} bytes of a packet that never completes: {}", c, l, describe(h))));
        }
    }
    let sig = signature(h, &s.mask);
    let shard = &cache[(sig % 32) as usize];
    if shard.lock().unwrap().contains(&sig) {
        return Ok(());
    }
    let mut hh = h.clone();
    if s.flow {
        let from = hh.flow_at.unwrap_or(0);
        hh.quiet.retain(|q| *q <= from);
    }
    let outs: Vec<Vec<&(Out, u64)>> = hh
        .outs
        .iter()
        .map(|v| v.iter().filter(|o| if o.0.is_delivery() { s.mask.deliveries } else { s.mask.replies }).collect())
        .collect();
    let n = hh.items.len();
    let mut model = Model::new(&s.users);
    for _ in 0..n {
        model.open();
    }
    let mut lin = Lin { h: &hh, mask: &s.mask, outs, seen: HashSet::new(), states: 0, best: (0, String::new()) };
    let ok = lin.search(LState { idx: vec![0; n], pos: vec![0; n], model, maxsent: 0 });
    explore::count_transitions(lin.states);
    let best = lin.best.1.clone();
    drop(lin);
    if ok {
        shard.lock().unwrap().insert(sig);
        Ok(())
    } else {
        Err(Fail::new("unexplained", format!("no order of handling the clients' packets explains what was received ({}): {}", best, describe(h))))
    }
}

/// Standard body: run the script and look for a linearization.
pub fn check(s: &Script, ctx: &Ctx, cache: &Cache) -> Fallible<History> {
    let h = run(s, ctx)?;
    linearizable(&h, s, cache)?;
    Ok(h)
}

/// Everything the scheduler decides.
pub const FULL: Explore = Explore { sched: true, preempt: true, select: true, io: false };
/// Task order and environment only.
pub const ORDER: Explore = Explore { sched: true, preempt: false, select: false, io: false };

pub fn script(name: impl Into<String>, conns: usize) -> Script {
    Script {
        name: name.into(),
        config: crate::env::env().cfg1.clone(),
        users: crate::env::USERS.to_vec(),
        conns,
        setup: vec![],
        par: vec![],
        finale: vec![],
        explore: FULL,
        peers: Default::default(),
        flow: false,
        mask: ALL,
    }
}

/// Connection `c` connects as `id` (and subscribes).
pub fn join(c: usize, id: &str, filters: &[&str]) -> Vec<Step> {
    let mut v = vec![st(c, Act::Open(L1)), send(c, &[connect(id)])];
    if !filters.is_empty() {
        v.push(send(c, &[subscribe(1, filters)]));
    }
    v
}
pub fn opens(c: usize) -> Step {
    st(c, Act::Open(L1))
}

/// One case per script; all executions with at most `bound` deviations each.
pub fn family(name: impl Into<String>, scripts: Vec<Script>, bound: u32) -> explore::Family {
    family_with(name, scripts, bound, |_, _| Ok(()))
}
pub fn family_with(
    name: impl Into<String>,
    scripts: Vec<Script>,
    bound: u32,
    extra: impl Fn(&Script, &History) -> Fallible<()> + Send + Sync + 'static,
) -> explore::Family {
    let a = Arc::new(scripts);
    let b = a.clone();
    let caches: Vec<Cache> = a.iter().map(|_| cache()).collect();
    explore::Family::new(
        name,
        a.len() as u64,
        move |i, ctx| {
            let s = &a[i as usize];
            let h = check(s, ctx, &caches[i as usize])?;
            extra(s, &h).map_err(|f| f.ctx(describe(&h)))
        },
        move |i| b[i as usize].name.clone(),
    )
    .bound(bound)
}
