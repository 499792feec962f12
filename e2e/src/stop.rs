//! C17: SIGINT in every state clients can bring the broker into.
use crate::broker::*;
use crate::client::{Bell, Client};
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::net::TcpStream;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    /// a TCP connection, nothing sent
    Silent,
    /// part of CONNECT
    PartConnect(u8),
    Idle,
    Subscriber(Txt),
    /// part of a PUBLISH of this size
    PartPublish(u16, u16),
    /// publishes until the connection ends
    Streaming { size: u16, batch: u8 },
    /// subscribes and unsubscribes until the connection ends
    Requests,
    /// connects, subscribes and leaves (0 DISCONNECT, 1 close, 2 reset) again and again
    Churn(u8),
    /// connects and resets as fast as it can, from some threads
    Storm(u8),
    /// subscribes to everything and never reads
    Stalled,
    /// sent a refused CONNECT
    Refused,
    /// closed right before the interrupt
    Gone(bool),
    /// so many connected clients that do nothing
    Crowd(u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    listeners: u8,
    kinds: Vec<Kind>,
    delay_us: u32,
    /// a second SIGINT right behind the first
    twice: bool,
}
fn catches_sigint(pid: u32) -> bool {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/status")) else { return false };
    let Some(l) = s.lines().find(|l| l.starts_with("SigCgt:")) else { return false };
    u64::from_str_radix(l.split_whitespace().nth(1).unwrap_or("0"), 16).unwrap_or(0) & (1 << (libc::SIGINT - 1)) != 0
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let nl = c.listeners.clamp(1, 8) as usize;
    let mut b = Broker::start(nl, &crate::history::users(), patience * 3).map_err(Outcome::Broken)?;
    let t0 = Instant::now();
    while !catches_sigint(b.child.id()) {
        if t0.elapsed() > patience * 3 {
            return Err(Outcome::Late("the broker listens but never gets ready for SIGINT".into()));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let bell: Arc<Bell> = Arc::default();
    let stop = AtomicBool::new(false);
    let sent = AtomicU64::new(0);
    let r: R<()> = std::thread::scope(|sc| {
        let mut keep: Vec<Client> = vec![];
        let mut socks: Vec<TcpStream> = vec![];
        let mut gone: Vec<(Client, bool)> = vec![];
        let mut res = Ok(());
        for (k, kind) in c.kinds.iter().enumerate() {
            let addr = b.addrs[k % nl].clone();
            let con = |id: &str| CPacket::Connect(plain_connect(id)).encode();
            let mut open = |bytes: &[u8], answers: usize| -> R<Client> {
                let mut cl = Client::open(&addr, &bell, patience).map_err(Outcome::Late)?;
                let _ = cl.send(bytes, &[]);
                let end = Instant::now() + patience;
                loop {
                    let seen = bell.now();
                    if cl.inbox.lock().unwrap().packets.len() >= answers {
                        return Ok(cl);
                    }
                    if Instant::now() > end {
                        // with a stalled client this broker serves nobody (known finding of C15); the interrupt must still work
                        return Ok(cl);
                    }
                    bell.wait(seen, Instant::now() + Duration::from_millis(5));
                    if c.kinds.iter().take(k).any(|x| matches!(x, Kind::Stalled)) {
                        return Ok(cl);
                    }
                }
            };
            let id = format!("k{k}");
            let sub = |f: &str| CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit(f), 0)] }.encode();
            let got = match kind {
                Kind::Silent => open(&[], 0).map(Some),
                Kind::PartConnect(n) => {
                    let b = con(&id);
                    open(&b[..1 + *n as usize % (b.len() - 1)], 0).map(Some)
                }
                Kind::Idle => open(&con(&id), 1).map(Some),
                Kind::Subscriber(f) => open(&[con(&id), sub(&f.s())].concat(), 2).map(Some),
                Kind::PartPublish(size, at) => {
                    let p = CPacket::Publish(Publish { topic: Txt::lit("a"), payload: Blob::Gen { len: *size as usize, seed: 1 }, qos: 0, retain: false, dup: false, pid: 0 }).encode();
                    let n = 1 + *at as usize % (p.len() - 1);
                    open(&[con(&id), p[..n].to_vec()].concat(), 1).map(Some)
                }
                Kind::Refused => {
                    let mut x = plain_connect(&id);
                    (x.user, x.pass) = (Some(Txt::lit("alice")), Some(Txt::lit("wrong")));
                    open(&CPacket::Connect(x).encode(), 1).map(Some)
                }
                Kind::Gone(rst) => match open(&[con(&id), sub("#")].concat(), 2) {
                    Ok(cl) => {
                        gone.push((cl, *rst));
                        Ok(None)
                    }
                    Err(o) => Err(o),
                },
                Kind::Stalled => {
                    let sa: std::net::SocketAddr = addr.parse().unwrap();
                    let s = socket2::Socket::new(socket2::Domain::for_address(sa), socket2::Type::STREAM, None).map_err(|e| Outcome::Broken(e.to_string()))?;
                    let _ = s.set_recv_buffer_size(2048);
                    if s.connect_timeout(&sa.into(), patience).is_ok() {
                        let mut s: TcpStream = s.into();
                        let _ = s.write_all(&[con(&id), sub("#")].concat());
                        socks.push(s);
                    }
                    Ok(None)
                }
                Kind::Streaming { .. } | Kind::Requests => match open(&con(&id), 1) {
                    Ok(cl) => {
                        let mut s = cl.sock.try_clone().unwrap();
                        let (stop, sent) = (&stop, &sent);
                        sc.spawn(move || {
                            let unit = match kind {
                                Kind::Streaming { size, batch } => {
                                    let p = CPacket::Publish(Publish { topic: Txt::lit("a"), payload: Blob::Gen { len: *size as usize, seed: 1 }, qos: 0, retain: false, dup: false, pid: 0 }).encode();
                                    p.repeat(1 + *batch as usize % 20)
                                }
                                _ => [CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit("a"), 0), (Txt::lit("b/+"), 0)] }.encode(), CPacket::Unsubscribe { pid: 2, filters: vec![Txt::lit("a"), Txt::lit("b/+")] }.encode()].concat(),
                            };
                            while !stop.load(Ordering::Relaxed) && s.write_all(&unit).is_ok() {
                                sent.fetch_add(1, Ordering::Relaxed);
                            }
                        });
                        Ok(Some(cl))
                    }
                    Err(o) => Err(o),
                },
                Kind::Churn(how) => {
                    let (stop, sent) = (&stop, &sent);
                    sc.spawn(move || {
                        while !stop.load(Ordering::Relaxed) {
                            let Ok(mut s) = TcpStream::connect(&addr) else { return };
                            let _ = s.write_all(&[CPacket::Connect(plain_connect("churn")).encode(), CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit("#"), 0)] }.encode()].concat());
                            match how % 3 {
                                0 => {
                                    let _ = s.write_all(&[0xE0, 0]);
                                }
                                1 => {}
                                _ => {
                                    let _ = socket2::SockRef::from(&s).set_linger(Some(Duration::ZERO));
                                }
                            }
                            sent.fetch_add(1, Ordering::Relaxed);
                            std::thread::sleep(Duration::from_micros(500));
                        }
                    });
                    Ok(None)
                }
                Kind::Crowd(n) => {
                    let most = (crate::crowd::limit() / 12).saturating_sub(40);
                    for i in 0..(*n as usize).min(most) {
                        let Ok(mut s) = TcpStream::connect(&b.addrs[i % nl]) else { break };
                        let _ = s.set_read_timeout(Some(patience));
                        let _ = s.write_all(&CPacket::Connect(plain_connect(&format!("crowd{i}"))).encode());
                        // with a stalled client this broker serves nobody
                        if c.kinds.iter().take(k).any(|x| matches!(x, Kind::Stalled)) {
                            socks.push(s);
                            continue;
                        }
                        let _ = std::io::Read::read_exact(&mut s, &mut [0u8; 4]);
                        socks.push(s);
                    }
                    Ok(None)
                }
                Kind::Storm(n) => {
                    for _ in 0..1 + n % 3 {
                        let (stop, sent, addr) = (&stop, &sent, addr.clone());
                        sc.spawn(move || {
                            while !stop.load(Ordering::Relaxed) {
                                let Ok(s) = TcpStream::connect(&addr) else { return };
                                let _ = socket2::SockRef::from(&s).set_linger(Some(Duration::ZERO));
                                sent.fetch_add(1, Ordering::Relaxed);
                            }
                        });
                    }
                    Ok(None)
                }
            };
            match got {
                Ok(Some(cl)) => keep.push(cl),
                Ok(None) => {}
                Err(o) => {
                    res = Err(o);
                    break;
                }
            }
        }
        if res.is_ok() {
            if let Some(s) = b.dead() {
                res = fail(format!("the broker process ended by itself ({s}): {}", b.stderr()));
            }
        }
        if res.is_ok() {
            std::thread::sleep(Duration::from_micros(c.delay_us as u64));
            for (cl, rst) in gone {
                if rst {
                    cl.rst();
                }
                drop(cl);
            }
            b.signal(libc::SIGINT);
            let t = Instant::now();
            let (mut waited, mut until) = (false, patience);
            if c.twice {
                b.signal(libc::SIGINT);
            }
            loop {
                if let Some(s) = b.dead() {
                    if s.code() != Some(0) {
                        res = fail(format!("after SIGINT the broker ended with {s}: {}", b.stderr()));
                    }
                    break;
                }
                if t.elapsed() > patience && !waited {
                    // not for want of processor time: wait for longer
                    waited = true;
                    stop.store(true, Ordering::Relaxed);
                    until = patience * 3;
                    continue;
                }
                if t.elapsed() > until {
                    if b.asleep() {
                        res = fail(format!("the broker is still running {until:?} after SIGINT, and all its threads sleep: {}", b.stderr()));
                        break;
                    }
                    res = Err(Outcome::Late(format!("the broker is still running {patience:?} after SIGINT: {}", b.stderr())));
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
            if res.is_ok() {
                for a in &b.addrs {
                    if TcpStream::connect(a).is_ok() {
                        res = fail(format!("{a} still accepts connections after the broker has ended"));
                    }
                }
            }
        }
        stop.store(true, Ordering::Relaxed);
        for cl in &keep {
            let _ = cl.sock.shutdown(std::net::Shutdown::Both);
        }
        let _ = b.child.kill();
        drop(keep);
        drop(socks);
        res
    });
    r?;
    obs.nontrivial = !c.kinds.is_empty();
    for (t, f) in [
        ("streaming publisher", c.kinds.iter().any(|k| matches!(k, Kind::Streaming { .. }))),
        ("client that does not read", c.kinds.iter().any(|k| matches!(k, Kind::Stalled)) && c.kinds.iter().any(|k| matches!(k, Kind::Streaming { .. }))),
        ("half a packet", c.kinds.iter().any(|k| matches!(k, Kind::PartConnect(_) | Kind::PartPublish(..)))),
        ("connections coming and going", c.kinds.iter().any(|k| matches!(k, Kind::Churn(_) | Kind::Storm(_)))),
        ("more than 100 clients", c.kinds.iter().any(|k| matches!(k, Kind::Crowd(101..)))),
        ("no client", c.kinds.is_empty()),
        ("SIGINT twice", c.twice),
    ] {
        obs.tag_if(f, t);
    }
    Ok(())
}
fn gen_case(_t: Tier) -> BoxedStrategy<Case> {
    let k = prop_oneof![
        1 => Just(Kind::Silent),
        2 => any::<u8>().prop_map(Kind::PartConnect),
        2 => Just(Kind::Idle),
        4 => prop::sample::select(vec!["#", "a", "+", "b"]).prop_map(|f| Kind::Subscriber(Txt::lit(f))),
        2 => (0u16..9000, any::<u16>()).prop_map(|(a, b)| Kind::PartPublish(a, b)),
        4 => (prop_oneof![3 => 0u16..50, 1 => 0u16..20000], any::<u8>()).prop_map(|(size, batch)| Kind::Streaming { size, batch }),
        1 => Just(Kind::Requests),
        1 => any::<u8>().prop_map(Kind::Churn),
        2 => any::<u8>().prop_map(Kind::Storm),
        1 => Just(Kind::Stalled),
        1 => Just(Kind::Refused),
        1 => any::<bool>().prop_map(Kind::Gone),
    ];
    let crowd = (0usize..9, 50u16..800);
    (prop_oneof![3 => 1u8..4, 1 => 4u8..9], prop_oneof![1 => Just(vec![]), 12 => vec(k, 1..9)], prop_oneof![2 => Just(0u32), 2 => 0u32..2000, 2 => 2000u32..60_000], prop::bool::weighted(0.15), prop::option::weighted(0.04, crowd))
        .prop_map(|(listeners, mut kinds, delay_us, twice, crowd)| {
            if let Some((at, n)) = crowd {
                kinds.insert(at.min(kinds.len()), Kind::Crowd(n));
            }
            Case { listeners, kinds, delay_us, twice }
        })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C17").or_default().push(Box::new(Section {
        name: "interrupts",
        rule: "a real broker with 1-8 listeners and 0-8 clients in generated states (silent, half a CONNECT or PUBLISH, idle, subscribed, publishing in a loop, subscribing in a loop, connecting and leaving in a loop, connecting and resetting as fast as possible, not reading, refused, just gone), now and then among up to 800 idle ones; after 0-60 ms SIGINT, sometimes twice. The process must end by itself with status 0 and its addresses refuse connections. Non-trivial: at least one client.",
        cases: (600, 10_000),
        workers: 6,
        isolated: false,
        patience: Duration::from_secs(4),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
