//! C15: victims are served while others send hostile byte streams, exhaust descriptors, or do not read.
use crate::broker::*;
use crate::client::Client;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::net::TcpStream;
use std::time::{Duration, Instant};
use vcommon::gen;
use vcommon::hostile::{hostile, Hostile};
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attacker {
    /// valid CONNECT first
    session: bool,
    stream: Hostile,
    /// part of the stream that is sent (of 65536); 65535: all
    part: u16,
    /// 0 close, 1 reset, 2 half close, 3 stay
    end: u8,
    /// how often, from as many connections
    times: u8,
    /// at the same time from threads of their own
    parallel: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    attackers: Vec<Attacker>,
    victims: u8,
    /// the victims go on while attacks run
    busy: bool,
}
/// Victims with names nobody else can use.
struct Victims {
    ids: Vec<usize>,
    tag: String,
    n: u32,
}
impl Victims {
    fn start(w: &mut World, n: usize) -> R<Victims> {
        let tag = format!("victim-{}-{:x}", std::process::id(), w as *const _ as usize);
        let mut ids = vec![];
        for k in 0..n {
            let i = w.dial(k, format!("victim {k}"))?;
            w.connect(i, &plain_connect(&format!("{tag}-{k}")), &[], &[])?;
            w.subscribe(i, 1, &[(Txt::Lit(format!("{tag}/{k}")), 0), (Txt::Lit(format!("{tag}/all/+")), 0)], &[])?;
            ids.push(i);
        }
        Ok(Victims { ids, tag, n: 0 })
    }
    fn talk(&mut self, w: &mut World) -> R<()> {
        let k = self.n as usize % self.ids.len();
        let to = (k + 1) % self.ids.len();
        self.n += 1;
        w.publish(self.ids[k], &format!("{}/{to}", self.tag), 0, 0, false, &[])?;
        w.publish(self.ids[k], &format!("{}/all/{}", self.tag, self.n), 100, 0, false, &[])?;
        w.flush()
    }
    /// a new client can come, subscribe, be heard, and go
    fn newcomer(&mut self, w: &mut World) -> R<()> {
        let i = w.dial(0, "newcomer".into())?;
        w.connect(i, &plain_connect(&format!("{}-new-{}", self.tag, self.n)), &[], &[])?;
        w.subscribe(i, 9, &[(Txt::Lit(format!("{}/all/#", self.tag)), 0)], &[])?;
        w.publish(i, &format!("{}/all/x", self.tag), 0, 0, false, &[])?;
        w.flush()?;
        w.unsubscribe(i, 10, &[Txt::Lit(format!("{}/all/#", self.tag))], &[])?;
        self.talk(w)?;
        w.disconnect(i, &[])
    }
}
fn attack(a: &Attacker, k: usize, n: usize, addr: &str, bell: &std::sync::Arc<crate::client::Bell>, patience: Duration) -> Option<Client> {
    let mut cl = Client::open(addr, bell, patience).ok()?;
    let _ = cl.sock.set_write_timeout(Some(Duration::from_secs(5)));
    let mut b = vec![];
    if a.session {
        b = CPacket::Connect(plain_connect(&format!("attacker {k} {n}"))).encode();
    }
    let s = a.stream.bytes();
    let m = if a.part == 65535 { s.len() } else { a.part as usize * s.len() / 65536 };
    b.extend(&s[..m]);
    let _ = cl.send(&b, &a.stream.cuts);
    match a.end % 4 {
        0 => None,
        1 => {
            cl.rst();
            None
        }
        2 => {
            cl.fin();
            Some(cl)
        }
        _ => Some(cl),
    }
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut w = World::start(2, &crate::history::users(), patience)?;
    let mut v = Victims::start(&mut w, c.victims.clamp(2, 4) as usize)?;
    v.talk(&mut w)?;
    let mut stay = vec![];
    let (addr, bell) = (w.broker.addrs[0].clone(), w.bell.clone());
    for (k, a) in c.attackers.iter().enumerate() {
        let times = a.times.clamp(1, 12) as usize;
        if a.parallel {
            let r: R<()> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..times.min(4))
                    .map(|t| {
                        let (addr, bell) = (&addr, &bell);
                        sc.spawn(move || (0..(times / 4).max(1)).filter_map(|n| attack(a, k, n * 4 + t, addr, bell, patience)).collect::<Vec<_>>())
                    })
                    .collect();
                let mut r = Ok(());
                while r.is_ok() && c.busy && hs.iter().any(|h| !h.is_finished()) {
                    r = v.talk(&mut w);
                }
                for h in hs {
                    stay.extend(h.join().unwrap());
                }
                r
            });
            r?;
        } else {
            for n in 0..times {
                stay.extend(attack(a, k, n, &addr, &bell, patience));
            }
        }
        if let Err(o) = v.talk(&mut w) {
            return match o {
                Outcome::Fail(t) => fail(format!("after attacker {k} ({}): {t}", hexes(&a.stream.bytes()))),
                Outcome::Late(t) => Err(Outcome::Late(format!("after attacker {k} ({}): {t}", hexes(&a.stream.bytes())))),
                o => Err(o),
            };
        }
    }
    v.newcomer(&mut w)?;
    // what the broker sent the attackers must be MQTT, too
    for cl in &stay {
        if let Some(b) = cl.inbox.lock().unwrap().bad.clone() {
            return fail(format!("an attacker received something that is not a server packet: {b}"));
        }
    }
    obs.tag_if(!stay.is_empty(), "attackers stay connected");
    drop(stay);
    v.newcomer(&mut w)?;
    w.finish()?;
    obs.nontrivial = !c.attackers.is_empty();
    obs.tag_if(c.attackers.iter().any(|a| a.session), "attacker with a session");
    obs.tag_if(c.attackers.iter().any(|a| !a.session), "attacker without a session");
    obs.tag_if(c.attackers.iter().any(|a| a.part != 65535), "stream ends anywhere");
    obs.tag_if(c.attackers.iter().any(|a| a.parallel && c.busy), "victims active during the attack");
    Ok(())
}
fn hexes(b: &[u8]) -> String {
    let s: String = b.iter().take(60).map(|x| format!("{x:02x}")).collect();
    if b.len() > 60 {
        format!("{s}... {} bytes", b.len())
    } else {
        s
    }
}
fn gen_case(_t: Tier) -> BoxedStrategy<Case> {
    let a = (prop::bool::weighted(0.7), hostile(), prop_oneof![2 => Just(65535u16), 1 => any::<u16>()], any::<u8>(), prop_oneof![3 => Just(1u8), 1 => 1u8..12], prop::bool::weighted(0.3))
        .prop_map(|(session, stream, part, end, times, parallel)| Attacker { session, stream, part, end, times, parallel });
    (vec(a, 1..6), 2u8..4, any::<bool>()).prop_map(|(attackers, victims, busy)| Case { attackers, victims, busy }).boxed()
}

// ---- descriptors ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Flood {
    limit: u8,
    over: u8,
    /// what each connection sends: 0 nothing, 1 CONNECT, 2 CONNECT and SUBSCRIBE, 3 part of CONNECT
    kind: u8,
    rst: bool,
    rounds: u8,
}
fn flood(c: &Flood, obs: &mut Obs, patience: Duration) -> Outcome {
    crate::broker::only(crate::broker::Disturb::NoLogs);
    to_outcome(flood_go(c, obs, patience))
}
fn flood_go(c: &Flood, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut w = World::start(2, &[], patience)?;
    w.probing = false;
    let mut v = Victims::start(&mut w, 3)?;
    v.talk(&mut w)?;
    let have = std::fs::read_dir(format!("/proc/{}/fd", w.broker.child.id())).map_err(|e| Outcome::Broken(e.to_string()))?.count();
    let room = 4 + c.limit as usize % 40;
    let lim = libc::rlimit { rlim_cur: (have + room) as u64, rlim_max: (have + room) as u64 };
    if unsafe { libc::prlimit(w.broker.child.id() as i32, libc::RLIMIT_NOFILE, &lim, std::ptr::null_mut()) } != 0 {
        return Err(Outcome::Broken("prlimit".into()));
    }
    for r in 0..c.rounds.clamp(1, 3) {
        let addr = w.broker.addrs[r as usize % 2].clone();
        let mut socks = vec![];
        for k in 0..room + 1 + c.over as usize % 40 {
            let Ok(mut s) = TcpStream::connect_timeout(&addr.parse().unwrap(), Duration::from_secs(2)) else { break };
            let con = CPacket::Connect(plain_connect(&format!("flood {k}"))).encode();
            let b = match c.kind % 4 {
                0 => vec![],
                1 => con,
                2 => [con, CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit("flood"), 0)] }.encode()].concat(),
                _ => con[..con.len() - 3].to_vec(),
            };
            let _ = s.write_all(&b);
            socks.push(s);
        }
        for _ in 0..3 {
            v.talk(&mut w)?;
        }
        if c.rst {
            for s in &socks {
                let _ = socket2::SockRef::from(s).set_linger(Some(Duration::ZERO));
            }
        }
        drop(socks);
        v.talk(&mut w)?;
        v.newcomer(&mut w)?;
    }
    w.finish()?;
    obs.nontrivial = true;
    Ok(())
}
fn gen_flood(_t: Tier) -> BoxedStrategy<Flood> {
    (any::<u8>(), any::<u8>(), any::<u8>(), any::<bool>(), 1u8..4).prop_map(|(limit, over, kind, rst, rounds)| Flood { limit, over, kind, rst, rounds }).boxed()
}

// ---- very many connections ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Horde {
    /// how many connections of which kind (as in Flood; 4: half a SUBSCRIBE) and how they end; 3: stay to the end
    groups: Vec<(u16, u8, u8)>,
    same_id: bool,
}
fn horde(c: &Horde, obs: &mut Obs, patience: Duration) -> Outcome {
    crate::broker::only(crate::broker::Disturb::NoLogs);
    crate::crowd::limit();
    to_outcome(horde_go(c, obs, patience))
}
fn horde_go(c: &Horde, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut w = World::start(2, &[], patience)?;
    w.probing = false;
    let mut v = Victims::start(&mut w, 3)?;
    v.talk(&mut w)?;
    let mut held: Vec<(TcpStream, u8)> = vec![];
    for (g, (n, kind, end)) in c.groups.iter().enumerate() {
        let addr: std::net::SocketAddr = w.broker.addrs[g % 2].parse().unwrap();
        for k in 0..*n {
            let Ok(mut s) = TcpStream::connect_timeout(&addr, patience) else {
                return Err(Outcome::Late(format!("connection {k} of group {g} is not accepted")));
            };
            let id = if c.same_id && k % 2 == 0 { "horde".to_string() } else { format!("horde {g} {k}") };
            let con = CPacket::Connect(plain_connect(&id)).encode();
            let sub = CPacket::Subscribe { pid: 1, filters: vec![(Txt::Lit(format!("horde/{g}/{k}")), 0), (Txt::lit("horde/+"), 0)] }.encode();
            let b = match kind % 5 {
                0 => vec![],
                1 => con,
                2 => [con, sub].concat(),
                3 => con[..con.len() - 3].to_vec(),
                _ => [&con[..], &sub[..sub.len() - 2]].concat(),
            };
            let _ = s.write_all(&b);
            held.push((s, *end));
            if k % 256 == 255 {
                v.talk(&mut w)?;
            }
        }
        v.talk(&mut w)?;
        v.newcomer(&mut w)?;
        v.newcomer(&mut w)?;
    }
    let all = held.len();
    for e in 0..4u8 {
        let (go, stay): (Vec<_>, Vec<_>) = held.into_iter().partition(|(_, x)| *x % 4 == e);
        held = stay;
        let mut half = vec![];
        for (s, _) in go {
            if e == 1 {
                let _ = socket2::SockRef::from(&s).set_linger(Some(Duration::ZERO));
            }
            if e == 2 {
                let _ = s.shutdown(std::net::Shutdown::Write);
                half.push(s);
            }
        }
        v.talk(&mut w)?;
        v.newcomer(&mut w)?;
        drop(half);
    }
    w.finish()?;
    obs.nontrivial = all > 100;
    obs.tag_if(all > 600, "more than 600 connections");
    obs.tag_if(all > 1100, "more than 1100 connections");
    Ok(())
}
fn gen_horde(t: Tier) -> BoxedStrategy<Horde> {
    let most = if t == Tier::Thorough { 2500u16 } else { 1200 };
    let g = (prop_oneof![2 => 1u16..100, 2 => 100u16..600, 1 => 600u16..most], any::<u8>(), any::<u8>());
    (vec(g, 1..4), prop::bool::weighted(0.3)).prop_map(|(groups, same_id)| Horde { groups, same_id }).boxed()
}

// ---- clients that do not read ----

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stall {
    rcvbuf: u16,
    size: u32,
    /// kB published towards the client that does not read
    kb: u32,
    rst: bool,
    filter: u8,
}
fn stall(c: &Stall, obs: &mut Obs, patience: Duration) -> Outcome {
    crate::broker::only(crate::broker::Disturb::Nothing);
    match stall_go(c, obs, patience) {
        Ok(None) => Outcome::Pass,
        Ok(Some(t)) => Outcome::Known("stalled-reader".into(), t),
        Err(o) => o,
    }
}
fn stall_go(c: &Stall, obs: &mut Obs, patience: Duration) -> R<Option<String>> {
    let mut w = World::start(1, &[], patience)?;
    w.probing = false;
    let mut v = Victims::start(&mut w, 2)?;
    v.talk(&mut w)?;
    let addr = w.broker.addrs[0].clone();
    let sa: std::net::SocketAddr = addr.parse().unwrap();
    let s = socket2::Socket::new(socket2::Domain::for_address(sa), socket2::Type::STREAM, None).map_err(|e| Outcome::Broken(e.to_string()))?;
    let _ = s.set_recv_buffer_size(c.rcvbuf as usize + 1000);
    s.connect_timeout(&sa.into(), patience).map_err(|e| Outcome::Late(e.to_string()))?;
    let mut stalled: TcpStream = s.into();
    let f = ["#", "stall/+", "stall/x"][c.filter as usize % 3];
    let _ = stalled.write_all(&[CPacket::Connect(plain_connect("stalled")).encode(), CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit(f), 0)] }.encode()].concat());
    std::thread::sleep(Duration::from_millis(30));
    // publisher in a thread of its own
    let mut p = TcpStream::connect(&addr).map_err(|e| Outcome::Late(e.to_string()))?;
    let p2 = p.try_clone().map_err(|e| Outcome::Broken(e.to_string()))?;
    let (size, kb) = (c.size as usize, c.kb as usize);
    let h = std::thread::spawn(move || {
        let m = CPacket::Publish(Publish { topic: Txt::lit("stall/x"), payload: Blob::Gen { len: size, seed: 3 }, qos: 0, retain: false, dup: false, pid: 0 }).encode();
        let mut b = CPacket::Connect(plain_connect("staller")).encode();
        b.extend(m.repeat((kb * 1024 / m.len()).max(1)));
        let _ = p.write_all(&b);
    });
    // the victims go on
    let keep = w.patience;
    w.patience = Duration::from_millis(1500);
    let t0 = Instant::now();
    let mut late = None;
    while t0.elapsed() < Duration::from_millis(300) && late.is_none() {
        match v.talk(&mut w) {
            Ok(()) => {}
            Err(Outcome::Late(t)) => late = Some(t),
            Err(o) => return Err(o),
        }
    }
    w.patience = keep;
    // the stalled client goes away: service must be normal again
    if c.rst {
        let _ = socket2::SockRef::from(&stalled).set_linger(Some(Duration::ZERO));
    }
    drop(stalled);
    if late.is_some() {
        w.until("victims are served again after the client that did not read is gone", |w| w.conns.iter().filter(|c| c.open).all(|c| c.expect.iter().all(|(m, (lo, _))| c.counts.get(m).copied().unwrap_or(0) >= *lo)))?;
        // the ping under way
        let _ = w.until("PINGRESP", |w| w.conns.iter().any(|c| !c.ctl.is_empty()));
        for c in w.conns.iter_mut() {
            c.ctl.retain(|p| *p != RPacket::PingResp);
        }
    }
    let r = v.talk(&mut w).and_then(|_| v.newcomer(&mut w)).and_then(|_| if late.is_none() { w.finish() } else { Ok(()) });
    let _ = p2.shutdown(std::net::Shutdown::Both);
    let _ = h.join();
    r?;
    obs.nontrivial = c.kb > 1000;
    obs.tag_if(late.is_some(), "others were not served");
    obs.tag_if(late.is_none(), "others were served");
    Ok(late.map(|_| format!("a subscriber that does not read ({} kB published to it) keeps the broker from serving all other clients until it is gone", c.kb)))
}
fn gen_stall(_t: Tier) -> BoxedStrategy<Stall> {
    (0u16..8000, prop_oneof![1u32..200, 200u32..60_000], prop_oneof![1 => 10u32..800, 2 => 10_000u32..16_000], any::<bool>(), any::<u8>())
        .prop_map(|(rcvbuf, size, kb, rst, filter)| Stall { rcvbuf, size: size.max(40), kb, rst, filter })
        .boxed()
}

pub fn register(reg: &mut Registry) {
    let e = reg.entry("C15").or_default();
    e.push(Box::new(Section {
        name: "streams",
        rule: "1-5 attackers (with or without a session, once or from up to 12 connections, one after another or in parallel) send mutated, nearly legal, truncated or random packet streams, cut anywhere, then close, reset, half close or stay; 2-3 victims exchange messages all the time and newcomers must be served. Non-trivial: every case.",
        cases: (1200, 20_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(8),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
    e.push(Box::new(Section {
        name: "descriptors",
        rule: "the broker's descriptor limit is lowered to 4-43 above what it uses; a flood of 1-40 more connections than that (silent, connected, subscribed or half connected) comes and goes 1-3 times; victims must be served during each flood and newcomers after it. Non-trivial: every case.",
        cases: (60, 1000),
        workers: 6,
        isolated: false,
        patience: Duration::from_secs(8),
        shrink_secs: 60,
        strategy: gen_flood,
        exec: flood,
    }) as Box<dyn SectionDyn>);
    e.push(Box::new(Section {
        name: "hordes",
        rule: "up to three groups of up to 1200 connections each (2500 in the thorough tier), silent, connected, subscribed, half connected or stopped within a SUBSCRIBE, stay open while three victims exchange messages and newcomers must be served on two listeners, then end by close, reset or half close. Non-trivial: more than 100 connections.",
        cases: (60, 800),
        workers: 6,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: gen_horde,
        exec: horde,
    }) as Box<dyn SectionDyn>);
    e.push(Box::new(Section {
        name: "stalled",
        rule: "a subscriber that never reads, with 10 kB to 16 MB published to it, while two victims exchange messages; when it is gone, everybody must be served. Non-trivial: more than 1000 kB published.",
        cases: (16, 160),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(8),
        shrink_secs: 60,
        strategy: gen_stall,
        exec: stall,
    }) as Box<dyn SectionDyn>);
}
