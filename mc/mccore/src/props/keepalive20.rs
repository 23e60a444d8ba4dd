//! Keep-alive expiry: C20.
use crate::codec::*;
use crate::env::{env, USERS};
use crate::explore::*;
use crate::hist::sequences;
use crate::model::*;
use crate::report::*;
use crate::sys::*;
use std::sync::OnceLock;

/// What the session under test is taken through.
#[derive(Clone, Debug)]
pub struct Life {
    pub keep_alive: u16,
    pub persistent: bool,
    pub v6: bool,
    /// activity at creation and later updates, (seconds, nanoseconds) since the epoch
    pub activity: Vec<(i64, u32)>,
    /// use a clone from here on
    pub cloned: bool,
}
/// For every instant: is the session expired?
pub type ExpiredFn = fn(&Life, &[(i64, u32)]) -> Vec<bool>;
static EXPIRED: OnceLock<ExpiredFn> = OnceLock::new();

/// What happens to the sessions of the messaging service.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Event {
    /// client, keep-alive
    Begin(usize, u16),
    Activity(usize),
    Lost(usize),
    Disconnect(usize),
    /// nanoseconds
    Idle(u64),
}
/// The clients whose sessions are said to be expired after each event.
pub type ServiceFn = fn(&[Event]) -> Vec<Vec<usize>>;
static SERVICE: OnceLock<ServiceFn> = OnceLock::new();

pub fn checks(f: ExpiredFn, s: Option<ServiceFn>) -> Vec<Check> {
    let _ = EXPIRED.set(f);
    if let Some(s) = s {
        let _ = SERVICE.set(s);
    }
    vec![Check {
        id: "C20",
        families: c20,
        rule: "all 65536 keep-alive values x last-activity instants x activity histories x every instant of a neighbourhood of the deadline (nanoseconds to years around it), and every millisecond of the whole period for small values, against integer arithmetic in nanoseconds",
        assumptions: &["instants between the enumerated ones behave like their neighbours", "the date library is trusted within years 1900..9000"],
    }]
}

fn ns(t: (i64, u32)) -> i128 {
    t.0 as i128 * 1_000_000_000 + t.1 as i128
}
fn at(n: i128) -> (i64, u32) {
    (n.div_euclid(1_000_000_000) as i64, n.rem_euclid(1_000_000_000) as u32)
}

fn judge(l: &Life, offsets: &[i128]) -> Fallible<()> {
    let last = ns(*l.activity.last().unwrap());
    let nows: Vec<(i64, u32)> = offsets.iter().map(|o| at(last + o)).collect();
    let got = std::panic::catch_unwind(|| EXPIRED.get().unwrap()(l, &nows)).map_err(|_| Fail::new("panic", format!("{:?}: the question whether it is expired panicked", l)))?;
    let limit = l.keep_alive as i128 * 1_500_000_000;
    for (o, g) in offsets.iter().zip(&got) {
        let want = l.keep_alive != 0 && *o >= limit;
        if *g != want {
            return Err(Fail::new(
                if *g { "early" } else { "late" },
                format!("{:?}: {} ns after its last activity (the deadline is {} ns after it) the session is {}expired", l, o, limit, if *g { "" } else { "not " }),
            ));
        }
    }
    count_transitions(offsets.len() as u64);
    outcome(&got);
    Ok(())
}

fn offsets(k: u16) -> Vec<i128> {
    let t = k as i128 * 1_500_000_000;
    let s = 1_000_000_000i128;
    let k = k as i128;
    let mut v = vec![0, 1, -1, -s, s, k * s, k * s - 1, k * s + 1, (k + 1) * s, 2 * k * s, 3 * k * s, k * s / 2, (k + k / 2) * s, (k + k / 2) * s - 1, (k + (k + 1) / 2) * s, (k + (k + 1) / 2) * s - 1];
    for d in [0, 1, 999, 1000, 1_000_000, 1_000_001, 499_999_999, 500_000_000, 500_000_001, 999_999_999, s, s + 1, 2 * s, 60 * s, 3600 * s, 86_400 * s] {
        v.push(t + d);
        v.push(t - d);
    }
    for d in [86_400 * s, 49_710 * 86_400 * s / 1000, 365 * 86_400 * s, 3_650 * 86_400 * s, 65_536 * s, (1i128 << 31) * 1_000_000, (1i128 << 32) * 1_000_000, (1i128 << 31) * s, (1i128 << 32) * s] {
        v.push(d);
        v.push(-d);
        v.push(t + d);
        v.push(t - d);
    }
    v.sort();
    v.dedup();
    v
}

fn c20(tier: Tier) -> Vec<Family> {
    let mut v = vec![];
    // odd instants of last activity
    let instants: Vec<(i64, u32)> = vec![
        (1_700_000_000, 0),
        (1_700_000_000, 500_000_000),
        (1_700_000_000, 499_999_999),
        (1_700_000_000, 999_999_999),
        (1_700_000_001, 1),
        (1_709_251_199, 123_456_789), // the end of a leap day
        (1_483_228_799, 999_999_999), // before a leap second
        (1_698_541_200, 0),           // a daylight saving change in Europe
        (0, 0),
        (-1, 1),
        (2_147_483_647, 999_999_999),
        (4_294_967_295, 0),
        (253_402_300_799, 0), // the end of year 9999 is out of range for later ones: see below
    ];
    let life = |k: u16, a: Vec<(i64, u32)>| Life { keep_alive: k, persistent: k & 1 == 1, v6: k & 2 == 2, activity: a, cloned: k & 4 == 4 };
    let blocks: Vec<(usize, u32)> = (0..instants.len() - 1).flat_map(|i| (0..256u32).map(move |b| (i, b))).collect();
    let ins = instants.clone();
    v.push(cases(
        "all keep-alives, one activity",
        blocks,
        move |(i, b), _| {
            for k in b * 256..(b + 1) * 256 {
                let l = life(k as u16, vec![ins[*i]]);
                judge(&l, &offsets(k as u16))?;
                visit(&(k, *i));
            }
            sample(|| format!("keep-alives {}..{}, last activity {:?}", b * 256, (b + 1) * 256, ins[*i]));
            Ok(())
        },
        |(i, b)| format!("instant {}, keep-alives {}..{}", i, b * 256, (b + 1) * 256),
    ));
    // later activity moves the deadline, both ways; the last update counts
    let base = 1_700_000_000i64;
    let mut hist: Vec<Vec<(i64, u32)>> = vec![];
    let pts = [(base, 0u32), (base + 1, 0), (base + 1, 500_000_001), (base - 100_000, 7), (base + 200_000, 999_999_999)];
    for a in pts {
        for b in pts {
            hist.push(vec![a, b]);
            for c in pts {
                hist.push(vec![a, b, c]);
            }
        }
    }
    let ks: Vec<u16> = (0..=20u16).chain([59, 60, 61, 300, 1439, 1440, 21845, 21846, 32767, 32768, 43690, 43691, 65534, 65535]).collect();
    let list: Vec<(u16, Vec<(i64, u32)>)> = ks.iter().flat_map(|k| hist.iter().map(|h| (*k, h.clone()))).collect();
    v.push(cases(
        "activity histories",
        list,
        |(k, h), _| {
            for bits in 0..8u8 {
                let l = Life { keep_alive: *k, persistent: bits & 1 > 0, v6: bits & 2 > 0, cloned: bits & 4 > 0, activity: h.clone() };
                judge(&l, &offsets(*k))?;
            }
            visit(&(*k, h));
            Ok(())
        },
        |(k, h)| format!("keep-alive {}, activity {:?}", k, h),
    ));
    // every millisecond of the period
    let top = tier.pick(40u16, 400);
    let list: Vec<(u16, u32)> = (0..=top).flat_map(|k| [0u32, 1, 500_000, 999_999_999].map(|n| (k, n))).collect();
    v.push(cases(
        "every millisecond",
        list,
        |(k, n), _| {
            let l = Life { keep_alive: *k, persistent: false, v6: false, cloned: false, activity: vec![(1_700_000_123, *n)] };
            let o: Vec<i128> = (-2000..=*k as i128 * 1500 + 3000).map(|m| m * 1_000_000).collect();
            judge(&l, &o)?;
            visit(&(*k, *n, 1));
            Ok(())
        },
        |(k, n)| format!("keep-alive {}, activity at .{:09}", k, n),
    ));
    // every second for all
    let list: Vec<u32> = (0..tier.pick(64u32, 4096)).collect();
    let step = tier.pick(1024u32, 16);
    v.push(cases(
        "every second",
        list,
        move |b, _| {
            for k in b * step..b * step + step.min(tier.pick(2, 16)) {
                let l = Life { keep_alive: k as u16, persistent: true, v6: false, cloned: false, activity: vec![(1_700_000_123, 250_000_000)] };
                let o: Vec<i128> = (-2..=k as i128 * 2 + 3).map(|m| m * 1_000_000_000).collect();
                judge(&l, &o)?;
                visit(&(k, 2));
            }
            Ok(())
        },
        move |b| format!("keep-alives from {}", b * step),
    ));
    // all the sessions together
    if SERVICE.get().is_some() {
        v.push(service(tier));
    }
    // the running broker: nobody expires early, and nobody who asked for no keep alive ever does
    let mut list: Vec<(u16, Vec<u16>)> = vec![];
    for k in tier.pick(vec![0u16, 1, 2, 3, 10, 60, 601, 65_535], vec![0, 1, 2, 3, 4, 5, 7, 10, 59, 60, 61, 299, 600, 601, 3600, 32_767, 32_768, 65_534, 65_535]) {
        for d in 1..=tier.pick(3, 4) {
            // an even letter: half the period, 7/5 of it; then a packet of one of four kinds
            for s in sequences(8, d, &|_| true) {
                list.push((k, s));
            }
        }
    }
    v.push(cases(
        "sessions of the running broker",
        list,
        |(k, seq), ctx| {
            let mut l = Lock::boot(&env().cfg1, USERS, ALL, ctx.trace)?;
            let p = l.open(L1)?;
            l.send(p, &[connect("pub")])?;
            let c = l.open(L1)?;
            l.send(c, &[Pkt::Connect { id: "c".into(), clean: true, keep: *k, will: None, user: None, pass: None }])?;
            l.send(c, &[subscribe(1, &["a"])])?;
            for x in seq {
                let secs = match (*k as u64, x & 1) {
                    (0, 0) => 50,
                    (0, _) => 200_000,
                    (k, 0) => k / 2,
                    (k, _) => k * 7 / 5,
                };
                if secs > 0 {
                    l.idle(secs)?;
                }
                match x / 2 {
                    0 => l.send(c, &[Pkt::PingReq])?,
                    1 => l.send(c, &[publish("a", "")])?,
                    2 => l.send(c, &[subscribe(2, &["b"])])?,
                    _ => l.send_raw(c, &Pkt::PubAck(3).encode())?,
                }
                l.send(p, &[publish("a", "")])?;
            }
            l.finish();
            Ok(())
        },
        |(k, s)| format!("keep-alive {}, letters {:?}", k, s),
    ));
    v
}

fn service(tier: Tier) -> Family {
    let ks = tier.pick(vec![0u16, 1, 2, 3, 60, 65_535], vec![0, 1, 2, 3, 59, 60, 61, 1439, 43_691, 65_534, 65_535]);
    let mut list: Vec<(u16, u16, Vec<u16>)> = vec![];
    for a in &ks {
        for b in &ks {
            for d in 1..=tier.pick(4, 5) {
                for s in sequences(12, d, &|_| true) {
                    // begins with a beginning, ends with time passing
                    if s[0] < 2 && s[s.len() - 1] >= 8 {
                        list.push((*a, *b, s));
                    }
                }
            }
        }
    }
    cases(
        "sessions of the messaging service",
        list,
        |(a, b, seq), _| {
            let k = [*a, *b];
            let events: Vec<Event> = seq
                .iter()
                .map(|x| match *x as usize {
                    x @ 0..=1 => Event::Begin(x, k[x]),
                    x @ 2..=3 => Event::Activity(x - 2),
                    x @ 4..=5 => Event::Lost(x - 4),
                    x @ 6..=7 => Event::Disconnect(x - 6),
                    8 => Event::Idle(1),
                    9 => Event::Idle((*a as u64 * 1_500_000_000).max(1) - 1),
                    10 => Event::Idle(*a as u64 * 1_500_000_000),
                    _ => Event::Idle(*b as u64 * 1_500_000_000),
                })
                .collect();
            let got = std::panic::catch_unwind(|| SERVICE.get().unwrap()(&events)).map_err(|_| Fail::new("panic", format!("{:?}: panicked", events)))?;
            // keep-alive and deadline of each session
            let mut now = 0u64;
            let mut live: [Option<(u16, u64)>; 2] = [None; 2];
            for (e, g) in events.iter().zip(&got) {
                match *e {
                    Event::Begin(c, k) => live[c] = Some((k, now)),
                    Event::Activity(c) => {
                        if let Some(l) = &mut live[c] {
                            l.1 = now;
                        }
                    }
                    Event::Lost(c) | Event::Disconnect(c) => live[c] = None,
                    Event::Idle(n) => now += n,
                }
                let want: Vec<usize> = (0..2).filter(|c| matches!(live[*c], Some((k, at)) if k != 0 && now >= at + k as u64 * 1_500_000_000)).collect();
                if *g != want {
                    return Err(Fail::new("service", format!("{:?}: after {:?} the sessions of clients {:?} are said to be expired, not those of {:?}", events, e, g, want)));
                }
            }
            count_transitions(events.len() as u64);
            visit(&(*a, *b, seq));
            outcome(&got);
            Ok(())
        },
        |(a, b, s)| format!("keep-alives {} and {}, letters {:?}", a, b, s),
    )
}
