//! All operation sequences up to a depth, run in lock step with the model.
use crate::codec::*;
use crate::env::{env, USERS};
use crate::explore::{Ctx, Fail, Fallible, Family};
use crate::model::*;
use crate::sys::*;
use std::sync::Arc;
use tokio::mc::{self, CloseMode};

#[derive(Clone, Debug, PartialEq)]
pub enum EndMode {
    Disconnect,
    Fin,
    Close,
    Reset,
    /// the way to the client breaks: the broker sees that error
    Failed(i32),
    Malformed,
    SecondConnect,
}

/// What a broken connection may fail with.
pub const ERRNOS: [i32; 9] =
    [libc::ETIMEDOUT, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::ENETDOWN, libc::EPIPE, libc::ECONNABORTED, libc::ENOTCONN, libc::EIO, libc::ENOBUFS];

/// All ways in which a connection may end without a packet.
pub fn all_ends() -> Vec<CloseMode> {
    let mut v = vec![CloseMode::Fin, CloseMode::Close, CloseMode::Reset];
    v.extend(ERRNOS.map(CloseMode::Failed));
    v
}

#[derive(Clone, Debug)]
pub enum H {
    /// open a TCP connection in the slot (the old one, if any, stays open)
    Tcp(usize),
    /// open a TCP connection in the slot and send this
    Open(usize, Vec<Pkt>),
    Send(usize, Vec<Pkt>),
    End(usize, EndMode),
    /// send part of a packet, then close
    Cut(usize, Vec<u8>, CloseMode),
    /// nothing happens for so many seconds
    Idle(u64),
}
impl H {
    pub fn slot(&self) -> usize {
        match self {
            H::Tcp(s) | H::Open(s, _) | H::Send(s, _) | H::End(s, _) | H::Cut(s, _, _) => *s,
            H::Idle(_) => usize::MAX,
        }
    }
}

#[derive(Clone)]
pub struct Spec {
    pub name: String,
    pub config: String,
    pub addrs: Vec<&'static str>,
    pub setup: Vec<H>,
    pub alphabet: Vec<H>,
    pub finale: Vec<H>,
    pub mask: Mask,
    pub peers: mc::Peers,
    pub slots: usize,
    /// sending on a connection that is over is pointless here
    pub prune_dead: bool,
    /// slots that are interchangeable: only canonical first uses are enumerated
    pub symmetric: Vec<usize>,
    /// the whole sequence of sends of a slot's connection goes out in one piece where possible
    pub probe: bool,
}

/// Sequences of exactly `depth` letters; `ok` judges prefixes.
pub fn sequences(letters: usize, depth: usize, ok: &dyn Fn(&[u16]) -> bool) -> Vec<Vec<u16>> {
    let mut out = vec![];
    let mut cur: Vec<u16> = vec![];
    fn rec(letters: usize, depth: usize, ok: &dyn Fn(&[u16]) -> bool, cur: &mut Vec<u16>, out: &mut Vec<Vec<u16>>) {
        if cur.len() == depth {
            out.push(cur.clone());
            return;
        }
        for l in 0..letters {
            cur.push(l as u16);
            if ok(cur) {
                rec(letters, depth, ok, cur, out);
            }
            cur.pop();
        }
    }
    rec(letters, depth, ok, &mut cur, &mut out);
    out
}

fn canonical(spec: &Spec, seq: &[u16]) -> bool {
    // first uses of symmetric slots in ascending order
    let mut next = 0;
    for l in seq {
        let s = spec.alphabet[*l as usize].slot();
        if let Some(p) = spec.symmetric.iter().position(|x| *x == s) {
            if p > next {
                return false;
            }
            if p == next {
                next += 1;
            }
        }
    }
    true
}

fn useful(spec: &Spec, seq: &[u16]) -> bool {
    if !spec.prune_dead {
        return true;
    }
    // simulate on the model: an operation on a connection that is over is pruned
    let mut m = Model::new(USERS);
    let mut slots: Vec<Option<usize>> = vec![None; spec.slots];
    let all: Vec<&H> = spec.setup.iter().chain(seq.iter().map(|l| &spec.alphabet[*l as usize])).collect();
    let n0 = spec.setup.len();
    for (i, h) in all.iter().enumerate() {
        match h {
            H::Idle(_) => {}
            H::Tcp(s) => slots[*s] = Some(m.open()),
            H::Open(s, p) => {
                let c = m.open();
                slots[*s] = Some(c);
                for p in p {
                    m.step(c, p);
                }
            }
            H::Send(s, p) => match slots[*s] {
                Some(c) if m.conns[c].phase != Phase::Dead => {
                    for p in p {
                        m.step(c, p);
                    }
                }
                _ => {
                    if i >= n0 {
                        return false;
                    }
                }
            },
            H::End(s, _) | H::Cut(s, _, _) => match slots[*s] {
                Some(c) if m.conns[c].phase != Phase::Dead => m.end(c),
                _ => {
                    if i >= n0 {
                        return false;
                    }
                }
            },
        }
    }
    true
}

pub fn apply(l: &mut Lock, slots: &mut Vec<Option<usize>>, addrs: &[&'static str], h: &H) -> Fallible<()> {
    let addr = |s: usize| addrs[s % addrs.len()];
    match h {
        H::Idle(n) => l.idle(*n)?,
        H::Tcp(s) => {
            slots[*s] = Some(l.open(addr(*s))?);
        }
        H::Open(s, p) => {
            let c = l.open(addr(*s))?;
            slots[*s] = Some(c);
            l.send(c, p)?;
        }
        H::Send(s, p) => {
            if let Some(c) = slots[*s] {
                l.send(c, p)?;
            }
        }
        H::Cut(s, b, m) => {
            if let Some(c) = slots[*s] {
                l.send_raw(c, b)?;
                l.close(c, *m)?;
            }
        }
        H::End(s, m) => {
            if let Some(c) = slots[*s] {
                match m {
                    EndMode::Disconnect => l.send(c, &[Pkt::Disconnect])?,
                    EndMode::Fin => l.close(c, CloseMode::Fin)?,
                    EndMode::Close => l.close(c, CloseMode::Close)?,
                    EndMode::Reset => l.close(c, CloseMode::Reset)?,
                    EndMode::Failed(e) => l.close(c, CloseMode::Failed(*e))?,
                    // SUBSCRIBE with reserved flags 0
                    EndMode::Malformed => l.send(c, &[Pkt::Raw(vec![0x80, 5, 0, 1, 0, 0, 0])])?,
                    EndMode::SecondConnect => l.send(c, &[connect("second")])?,
                }
            }
        }
    }
    Ok(())
}

pub fn run_spec(spec: &Spec, seq: &[u16], ctx: &Ctx) -> Fallible<()> {
    let mut l = Lock::boot(&spec.config, USERS, spec.mask, ctx.trace)?;
    mc::with(|w| w.net.peers = spec.peers);
    let mut slots: Vec<Option<usize>> = vec![None; spec.slots];
    for h in &spec.setup {
        apply(&mut l, &mut slots, &spec.addrs, h)?;
    }
    for i in seq {
        apply(&mut l, &mut slots, &spec.addrs, &spec.alphabet[*i as usize])?;
    }
    for h in &spec.finale {
        apply(&mut l, &mut slots, &spec.addrs, h)?;
    }
    if spec.probe {
        l.probe(spec.addrs[0])?;
    }
    l.running()?;
    l.finish();
    Ok(())
}

/// The sequences of this depth that are worth running.
pub fn histories(spec: &Spec, d: usize) -> Vec<Vec<u16>> {
    sequences(spec.alphabet.len(), d, &|s| canonical(spec, s) && useful(spec, s))
}

/// One family per depth 1..=depth (short histories first).
pub fn families(spec: Spec, depths: &[usize]) -> Vec<Family> {
    let spec = Arc::new(spec);
    depths
        .iter()
        .map(|&d| {
            let seqs = Arc::new(histories(&spec, d));
            let (s1, q1) = (spec.clone(), seqs.clone());
            let (s2, q2) = (spec.clone(), seqs.clone());
            Family::new(
                format!("{} depth {}", spec.name, d),
                seqs.len() as u64,
                move |i, ctx| run_spec(&s1, &q1[i as usize], ctx),
                move |i| format!("{:?}", q2[i as usize].iter().map(|l| &s2.alphabet[*l as usize]).collect::<Vec<_>>()),
            )
        })
        .collect()
}

pub fn spec(name: &str, slots: usize) -> Spec {
    Spec {
        name: name.into(),
        config: env().cfg1.clone(),
        addrs: vec![L1],
        setup: vec![],
        alphabet: vec![],
        finale: vec![],
        mask: ALL,
        peers: Default::default(),
        slots,
        prune_dead: true,
        symmetric: vec![],
        probe: false,
    }
}
