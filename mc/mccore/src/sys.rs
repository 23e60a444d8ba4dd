//! Drives one broker inside a controlled world: clients at byte level, task steps.
use crate::codec::*;
use crate::explore::{Fail, Fallible};
use std::future::Future;
use std::pin::Pin;
use std::sync::OnceLock;
use tokio::mc::{self, CloseMode, Explore};

pub type BootFn = fn(String) -> Pin<Box<dyn Future<Output = ()>>>;
pub static BOOT: OnceLock<BootFn> = OnceLock::new();

pub struct Cl {
    pub net: mc::ConnId,
    pub out: Vec<(Out, u64)>,
    pub parsed: usize,
    pub bad: Option<String>,
    pub fin_step: Option<u64>,
    pub closed_by_client: Option<CloseMode>,
}

pub struct Sys {
    pub conns: Vec<Cl>,
    pub main: mc::TaskId,
    pub step: u64,
    pub poll_limit: u64,
    pub transitions: u64,
    ended: bool,
}

/// Timers up to this far ahead (ns) fire whenever the broker is otherwise quiet.
pub const LATENCY: u64 = 100_000_000;
pub const L1: &str = "127.0.0.1:1883";
pub const L2: &str = "127.0.0.2:2883";
pub const L3: &str = "[::1]:1883";

impl Sys {
    /// Starts `ratelmq::run(config)` in a fresh world and runs it until it is quiet.
    pub fn boot(config: &str, devs: Vec<(u32, u32)>, explore: Explore, trace: bool) -> Fallible<Sys> {
        Sys::boot_in(config, devs, explore, trace, || {})
    }
    /// In a world prepared by `prepare`.
    pub fn boot_in(config: &str, devs: Vec<(u32, u32)>, explore: Explore, trace: bool, prepare: impl FnOnce()) -> Fallible<Sys> {
        mc::begin(devs, explore, trace);
        prepare();
        let path = config.to_string();
        let boot = *BOOT.get().expect("boot function");
        let h = tokio::task::spawn_local(boot(path));
        drop(h);
        mc::set_main(0);
        let mut s = Sys { conns: vec![], main: 0, step: 0, poll_limit: 2_000_000, transitions: 0, ended: false };
        s.quiesce()?;
        Ok(s)
    }
    /// A world without a broker (for codec checks).
    pub fn bare(explore: Explore, devs: Vec<(u32, u32)>, trace: bool) -> Sys {
        mc::begin(devs, explore, trace);
        Sys { conns: vec![], main: usize::MAX, step: 0, poll_limit: 2_000_000, transitions: 0, ended: false }
    }
    pub fn running(&self) -> bool {
        mc::with(|w| w.task_alive(self.main))
    }
    pub fn set_exploring(&self, on: bool) {
        mc::with(|w| w.set_exploring(on));
    }
    pub fn runnable(&self) -> usize {
        mc::with(|w| w.queue.len())
    }
    pub fn run_task(&mut self, idx: usize) -> Fallible<()> {
        mc::run_task(idx);
        self.step += 1;
        self.transitions += 1;
        let polls = mc::with(|w| w.polls);
        if polls > self.poll_limit {
            return Err(Fail::new("livelock", format!("the broker is still busy after {} task polls without new input", polls)));
        }
        self.collect();
        Ok(())
    }
    pub fn quiesce(&mut self) -> Fallible<()> {
        let (start, t0) = mc::with(|w| (w.polls, w.now));
        self.poll_limit = start + 400_000;
        loop {
            while self.runnable() > 0 {
                mc::run_task(0);
                self.step += 1;
                self.transitions += 1;
                let polls = mc::with(|w| w.polls);
                if polls > self.poll_limit {
                    return Err(Fail::new("livelock", format!("the broker is still busy after {} task polls without new input", polls - start)));
                }
            }
            // a short timer is latency
            match mc::with(|w| w.next_timer()) {
                Some(t) if t <= t0 + LATENCY && mc::fire_timers() => continue,
                _ => break,
            }
        }
        self.collect();
        Ok(())
    }
    /// Is there a timer that fires within the latency of `since`?
    pub fn timer_due(&self, since: u64) -> bool {
        mc::with(|w| w.next_timer()).is_some_and(|t| t <= since + LATENCY)
    }
    /// Nothing happens for this long.
    pub fn idle(&mut self, secs: u64) -> Fallible<()> {
        let end = mc::now() + secs * 1_000_000_000;
        mc::with(|w| w.log(|| format!("env: {} s pass", secs)));
        self.step += 1;
        self.quiesce()?;
        // periodic timers need not fire each time
        for _ in 0..5000 {
            match mc::with(|w| w.next_timer()) {
                Some(t) if t <= end => {
                    mc::fire_timers();
                    self.quiesce()?;
                }
                _ => break,
            }
        }
        mc::advance_to(end);
        while mc::with(|w| w.next_timer()).is_some_and(|t| t <= end) && mc::fire_timers() {
            self.quiesce()?;
            if mc::now() > end {
                break;
            }
        }
        self.quiesce()
    }
    pub fn collect(&mut self) {
        for c in &mut self.conns {
            let (avail, fin) = mc::with(|w| {
                let n = &w.net.conns[c.net];
                (n.s2c_read, n.fin)
            });
            while c.bad.is_none() && c.parsed < avail {
                let r = mc::with(|w| parse_server(&w.net.conns[c.net].s2c[c.parsed..avail]));
                match r {
                    Parse::Packet(o, n) => {
                        c.parsed += n;
                        c.out.push((o, self.step));
                    }
                    Parse::NeedMore => break,
                    Parse::Bad(e) => c.bad = Some(e),
                }
            }
            if fin && c.fin_step.is_none() {
                c.fin_step = Some(self.step);
            }
        }
    }
    pub fn open(&mut self, addr: &str) -> Option<usize> {
        self.transitions += 1;
        self.step += 1;
        let net = mc::connect(addr.parse().unwrap())?;
        self.conns.push(Cl { net, out: vec![], parsed: 0, bad: None, fin_step: None, closed_by_client: None });
        Some(self.conns.len() - 1)
    }
    pub fn send(&mut self, c: usize, b: &[u8]) {
        self.transitions += 1;
        self.step += 1;
        mc::client_send(self.conns[c].net, b);
    }
    pub fn send_pkts(&mut self, c: usize, p: &[Pkt]) {
        mc::with(|w| w.log(|| format!("env: conn {} sends {:?}", c, p)));
        self.send(c, &encode_all(p));
    }
    pub fn close(&mut self, c: usize, mode: CloseMode) {
        self.transitions += 1;
        self.step += 1;
        self.conns[c].closed_by_client = Some(mode);
        mc::client_close(self.conns[c].net, mode);
    }
    pub fn interrupt(&mut self) {
        self.transitions += 1;
        self.step += 1;
        mc::interrupt();
    }
    pub fn outs(&self, c: usize) -> Vec<Out> {
        self.conns[c].out.iter().map(|o| o.0.clone()).collect()
    }
    pub fn is_closed(&self, c: usize) -> bool {
        self.conns[c].fin_step.is_some()
    }
    /// Bytes the client has received that do not form a complete packet.
    pub fn leftover(&self, c: usize) -> usize {
        mc::with(|w| w.net.conns[self.conns[c].net].s2c_read - self.conns[c].parsed)
    }
    pub fn received(&self, c: usize) -> Vec<u8> {
        mc::with(|w| {
            let n = &w.net.conns[self.conns[c].net];
            n.s2c[..n.s2c_read].to_vec()
        })
    }
    pub fn panics(&self) -> Vec<String> {
        mc::with(|w| w.panics.iter().map(|p| p.message.clone()).collect())
    }
    /// Panicked task -> failure.
    pub fn check_panics(&self) -> Fallible<()> {
        let p = self.panics();
        if let Some(c @ 1..) = mc::with(|w| w.exited) {
            return Err(Fail::new("exit", format!("the broker ends with exit status {}", c)));
        }
        if p.is_empty() {
            Ok(())
        } else {
            Err(Fail::new("panic", format!("a task of the broker panicked: {}", p.join("; "))))
        }
    }
    pub fn check_wellformed(&self) -> Fallible<()> {
        for (i, c) in self.conns.iter().enumerate() {
            if let Some(b) = &c.bad {
                return Err(Fail::new("garbled", format!("client {} received malformed data: {}", i, b)));
            }
        }
        Ok(())
    }
    pub fn end(&mut self) -> Option<mc::World> {
        if self.ended {
            return None;
        }
        self.ended = true;
        let w = mc::end();
        crate::explore::record(&w, self.transitions);
        Some(w)
    }
}
impl Drop for Sys {
    fn drop(&mut self) {
        self.end();
    }
}
