use chrono::{DateTime, TimeZone, Utc};
use mccore::props::keepalive20::{self, Life};
use ratelmq::broker::session::Session;
use std::net::IpAddr;

fn time(t: (i64, u32)) -> DateTime<Utc> {
    Utc.timestamp_opt(t.0, t.1).single().expect("instant")
}

fn expired(l: &Life, nows: &[(i64, u32)]) -> Vec<bool> {
    let (tx, _rx) = tokio::sync::mpsc::channel(4);
    let ip: IpAddr = if l.v6 { "::1" } else { "10.1.2.3" }.parse().unwrap();
    let mut s = Session::new("client".to_string(), ip, l.persistent, tx, l.keep_alive, time(l.activity[0]));
    for a in &l.activity[1..] {
        // asking in between must not matter
        let _ = s.is_keep_alive_expired(&time(*a));
        s.set_last_activity(time(*a));
    }
    if l.cloned {
        s = s.clone();
    }
    nows.iter().map(|n| s.is_keep_alive_expired(&time(*n))).collect()
}

#[cfg(feature = "service")]
fn service(events: &[keepalive20::Event]) -> Vec<Vec<usize>> {
    use keepalive20::Event;
    use ratelmq::broker::messaging::MessagingService;
    use tokio::mc;
    let (tx, _rx) = tokio::sync::mpsc::channel(4);
    let mut m = MessagingService::new();
    let id = |c: usize| format!("client{}", c);
    let _world = mccore::sys::Sys::bare(mc::Explore { sched: false, preempt: false, select: false, io: false }, vec![], false);
    events
        .iter()
        .map(|e| {
            match *e {
                Event::Begin(c, k) => m.session_insert(Session::new(id(c), "10.1.2.3".parse().unwrap(), false, tx.clone(), k, Utc::now())),
                Event::Activity(c) => {
                    if let Some(s) = m.session_get_mut(&id(c)) {
                        s.set_last_activity(Utc::now());
                    }
                }
                Event::Lost(c) => {
                    m.connection_lost(&id(c));
                }
                Event::Disconnect(c) => {
                    m.disconnect(&id(c));
                }
                Event::Idle(n) => mc::advance_to(mc::now() + n),
            }
            let mut v: Vec<usize> = m.session_get_keep_alive_expired().iter().map(|s| s.client_id()[6..].parse().unwrap()).collect();
            v.sort();
            v
        })
        .collect()
}

fn main() {
    #[cfg(feature = "service")]
    let service: Option<keepalive20::ServiceFn> = Some(service);
    #[cfg(not(feature = "service"))]
    let service = None;
    let _ = mccore::sys::BOOT.set(|config| Box::pin(async move { ratelmq::run(&config).await }));
    mccore::report::main(keepalive20::checks(expired, service))
}
