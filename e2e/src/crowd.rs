//! C14, C19, C21: very many clients at once, on many listeners, with and without client ids, some taken over.
use crate::broker::*;
use crate::world::{fail, plain_connect, to_outcome, R};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::time::Duration;
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    clients: u16,
    listeners: u8,
    /// per client, cyclic: 0 no client id, otherwise a client id of its own
    named: Vec<u8>,
    /// how the client ids are made
    style: u16,
    /// per client, cyclic: how it leaves: 0-3 stays, 4 DISCONNECT, 5 close, 6 reset, 7 malformed packet
    leave: Vec<u8>,
    /// per named client, cyclic: whether a second connection takes its id over
    taken: Vec<u8>,
    /// connections are made from the same local port and different addresses
    same_port: bool,
    /// CONNECTs of all clients are sent before any answer is read
    at_once: bool,
    /// clients without a client id that come later
    late: u16,
    keep_alive: u16,
    /// before them, so many come and go
    #[serde(default)]
    passing: u32,
}
pub struct Cl {
    pub s: TcpStream,
    pub buf: Vec<u8>,
    pub who: String,
    pub n: usize,
    pub live: bool,
}
pub enum Got {
    Packet(RPacket),
    End,
}
impl Cl {
    pub fn next(&mut self, b: &Broker, patience: Duration) -> R<Got> {
        let mut strikes = 0;
        let mut chunk = [0u8; 4096];
        loop {
            match split_frame(&self.buf) {
                Err(e) => return fail(format!("{}: {e}", self.who)),
                Ok(Some((first, a, e))) => {
                    let p = parse_server(first, &self.buf[a..e]).map_err(|m| Outcome::Fail(format!("{}: {m}", self.who)))?;
                    self.buf.drain(..e);
                    return Ok(Got::Packet(p));
                }
                Ok(None) => {}
            }
            match self.s.read(&mut chunk) {
                Ok(0) => return Ok(Got::End),
                Ok(k) => self.buf.extend_from_slice(&chunk[..k]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                    b.strike(&mut strikes, &format!("{} received nothing for {patience:?}", self.who), patience)?;
                }
                Err(_) => return Ok(Got::End),
            }
        }
    }
    pub fn want(&mut self, p: RPacket, what: &str, b: &Broker, patience: Duration) -> R<()> {
        match self.next(b, patience)? {
            Got::Packet(q) if q == p => Ok(()),
            Got::Packet(q) => fail(format!("{} received {} where {what} was due: {}", self.who, q.brief(), p.brief())),
            Got::End => fail(format!("the broker ended the connection of {} where {what} was due", self.who)),
        }
    }
    pub fn put(&mut self, b: &[u8]) {
        let _ = self.s.write_all(b);
    }
}
pub fn limit() -> usize {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur as usize
    }
}
pub fn open(addr: &str, from: Option<(SocketAddr, &mut u16)>, patience: Duration) -> R<TcpStream> {
    let a: SocketAddr = addr.parse().unwrap();
    let late = |e: std::io::Error| Outcome::Late(format!("cannot connect to {addr}: {e}"));
    let sock = socket2::Socket::new(socket2::Domain::for_address(a), socket2::Type::STREAM, None).map_err(late)?;
    let mut port = None;
    if let Some((mut f, p)) = from {
        f.set_port(*p);
        // without the port rather than not at all
        if sock.bind(&f.into()).is_ok() {
            port = Some(p);
        }
    }
    sock.connect_timeout(&a.into(), patience).map_err(late)?;
    let s: TcpStream = sock.into();
    if let Some(p) = port {
        *p = s.local_addr().map(|a| a.port()).unwrap_or(0);
    }
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(patience));
    let _ = s.set_write_timeout(Some(patience));
    Ok(s)
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    crate::broker::only(crate::broker::Disturb::NoLogs);
    to_outcome((|| {
        let mut b = Broker::start(c.listeners.clamp(1, 40) as usize, &[], patience).map_err(Outcome::Late)?;
        let r = go(c, obs, patience, &b);
        if let (Err(_), Some(s)) = (&r, b.dead()) {
            return fail(format!("the broker process ended ({s}): {}", b.stderr()));
        }
        r
    })())
}
fn go(c: &Case, obs: &mut Obs, patience: Duration, b: &Broker) -> R<()> {
    let room = (limit() / 8).saturating_sub(60);
    let n = (c.clients as usize).min(room / 2).max(2);
    let late = (c.late as usize).min(room - n);
    let at = |v: &Vec<u8>, k: usize| if v.is_empty() { 0 } else { v[k % v.len()] };
    let mut port = 0u16;
    let mut cls: Vec<Cl> = vec![];
    let mut owner: BTreeMap<String, usize> = BTreeMap::new();
    let dial = |k: usize, who: String, n: usize, port: &mut u16| -> R<Cl> {
        let from = c.same_port.then(|| {
            let ip = std::net::Ipv4Addr::new(127, 250, (k / 200) as u8, 1 + (k % 200) as u8);
            (SocketAddr::new(ip.into(), 0), port)
        });
        Ok(Cl { s: open(&b.addrs[k % b.addrs.len()], from, patience)?, buf: vec![], who, n, live: true })
    };
    let hello = |id: &str| -> Vec<u8> {
        let mut p = plain_connect(id);
        p.keep_alive = c.keep_alive;
        CPacket::Connect(p).encode()
    };
    let subs = |k: usize| CPacket::Subscribe { pid: k as u16 + 1, filters: vec![(Txt::Lit(format!("own/{k}")), 0), (Txt::lit("all"), 1)] }.encode();
    let ack = RPacket::ConnAck { session_present: false, code: 0 };
    let suback = |k: usize| RPacket::SubAck { pid: k as u16 + 1, codes: vec![0, 0] };
    let id_of = |k: usize| if at(&c.named, k) == 0 { String::new() } else { gen::client_name(c.style, k as u16) };
    // everybody connects
    for k in 0..n {
        let id = id_of(k);
        let mut cl = dial(k, format!("client {k} ({})", if id.is_empty() { "no client id".into() } else { format!("id {:?}", id.chars().take(40).collect::<String>()) }), k, &mut port)?;
        if !c.at_once {
            cl.put(&hello(&id));
            cl.want(ack.clone(), "the CONNACK", b, patience)?;
        }
        if !id.is_empty() {
            if let Some(o) = owner.insert(id, k) {
                return Err(Outcome::Broken(format!("clients {o} and {k} have the same id")));
            }
        }
        cls.push(cl);
    }
    if c.at_once {
        for (k, cl) in cls.iter_mut().enumerate() {
            cl.put(&hello(&id_of(k)));
        }
        for cl in cls.iter_mut() {
            cl.want(ack.clone(), "the CONNACK", b, patience)?;
        }
    }
    for (k, cl) in cls.iter_mut().enumerate() {
        cl.put(&subs(k));
    }
    for (k, cl) in cls.iter_mut().enumerate() {
        cl.want(suback(k), "the SUBACK", b, patience)?;
    }
    // some leave
    let mut left = 0;
    for k in 0..n {
        let how = at(&c.leave, k);
        let cl = &mut cls[k];
        match how {
            4 => {
                cl.put(&[0xE0, 0]);
                match cl.next(b, patience)? {
                    Got::End => {}
                    Got::Packet(p) => return fail(format!("{} received {} after its DISCONNECT", cl.who, p.brief())),
                }
            }
            5 => {
                let _ = cl.s.shutdown(std::net::Shutdown::Both);
            }
            6 => {
                let _ = socket2::SockRef::from(&cl.s).set_linger(Some(Duration::ZERO));
                cl.s = open(&b.addrs[0], None, patience)?;
            }
            7 => {
                cl.put(&[0x36, 3, 0, 1, b'a']);
                match cl.next(b, patience)? {
                    Got::End => {}
                    Got::Packet(p) => return fail(format!("{} received {} after a malformed packet", cl.who, p.brief())),
                }
            }
            _ => continue,
        }
        cl.live = false;
        left += 1;
    }
    // some are taken over; more clients without an id come
    let mut next = n;
    let mut taken = vec![];
    for k in 0..n {
        let id = id_of(k);
        if id.is_empty() || at(&c.taken, k) % 4 != 1 || cls.len() >= room {
            continue;
        }
        let mut cl = dial(next, format!("client {next} (taking over from client {k})"), next, &mut port)?;
        cl.put(&hello(&id));
        cl.want(ack.clone(), "the CONNACK", b, patience)?;
        if cls[k].live {
            // the older connection is closed; it may already have nothing more to read
            match cls[k].next(b, patience)? {
                Got::End => {}
                Got::Packet(p) => return fail(format!("{} received {} although it was taken over", cls[k].who, p.brief())),
            }
            cls[k].live = false;
            taken.push(k);
        }
        cl.put(&subs(next));
        cl.want(suback(next), "the SUBACK", b, patience)?;
        cls.push(cl);
        next += 1;
    }
    pass(c, b, patience, next)?;
    for _ in 0..late {
        if cls.len() >= room {
            break;
        }
        let mut cl = dial(next, format!("client {next} (no client id, late)"), next, &mut port)?;
        cl.put(&hello(""));
        cl.want(ack.clone(), "the CONNACK", b, patience)?;
        cl.put(&subs(next));
        cl.want(suback(next), "the SUBACK", b, patience)?;
        cls.push(cl);
        next += 1;
    }
    // one message for each and one for all
    let mut p = dial(next, "the publisher".into(), next, &mut port)?;
    p.put(&hello("the publisher"));
    p.want(ack, "the CONNACK", b, patience)?;
    let msg = |t: String, load: Vec<u8>| CPacket::Publish(Publish { topic: Txt::Lit(t), payload: Blob::Lit(load), qos: 0, retain: false, dup: false, pid: 0 }).encode();
    let mut out = vec![];
    for k in 0..next {
        out.extend(msg(format!("own/{k}"), k.to_string().into_bytes()));
    }
    out.extend(msg("all".into(), b"everybody".to_vec()));
    out.extend([0xC0, 0]);
    p.put(&out);
    p.want(RPacket::PingResp, "the PINGRESP", b, patience)?;
    let got = |t: String, load: Vec<u8>| RPacket::Publish { topic: t, payload: load, qos: 0, retain: false, dup: false, pid: None };
    for cl in cls.iter_mut().filter(|c| c.live) {
        let k = cl.n;
        cl.put(&[0xC0, 0]);
        cl.want(got(format!("own/{k}"), k.to_string().into_bytes()), "its own message", b, patience)?;
        cl.want(got("all".into(), b"everybody".to_vec()), "the message for everybody", b, patience)?;
        cl.want(RPacket::PingResp, "the PINGRESP", b, patience)?;
    }
    let stay = cls.iter().filter(|c| c.live).count();
    obs.nontrivial = stay > 20;
    obs.tag_if(stay > 500, "more than 500 clients at once");
    obs.tag_if(b.addrs.len() > 8, "more than 8 listeners");
    obs.tag_if(!taken.is_empty(), "client ids taken over");
    obs.tag_if(left > 0, "clients left");
    obs.tag_if(c.same_port, "from one local port");
    obs.tag_if(c.passing > 65_000, "65000 clients came and went");
    obs.tag_if(late > 0, "later clients without an id");
    Ok(())
}
/// Clients that connect, one after another in six threads, and leave at once.
fn pass(c: &Case, b: &Broker, patience: Duration, first: usize) -> R<()> {
    let named = c.named.iter().filter(|n| **n > 0).count() * 2 > c.named.len();
    let one = |t: usize, k: usize| -> R<()> {
        let addr: SocketAddr = b.addrs[k % b.addrs.len()].parse().unwrap();
        let late = |e: std::io::Error| Outcome::Late(format!("client {k} passing by: {e}"));
        let s = socket2::Socket::new(socket2::Domain::for_address(addr), socket2::Type::STREAM, None).map_err(late)?;
        crate::client::come_from(&s, [127, 251, t as u8, 1 + (k / 600 % 250) as u8]);
        s.connect_timeout(&addr.into(), patience).map_err(late)?;
        let mut s: TcpStream = s.into();
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(patience));
        let mut p = plain_connect(&if named { format!("passing by, {k}") } else { String::new() });
        p.keep_alive = c.keep_alive;
        s.write_all(&CPacket::Connect(p).encode()).map_err(late)?;
        let mut ack = [0u8; 4];
        s.read_exact(&mut ack).map_err(late)?;
        if ack != [0x20, 2, 0, 0] {
            return fail(format!("client {k} passing by received {ack:?} where the CONNACK was due"));
        }
        let _ = socket2::SockRef::from(&s).set_linger(Some(Duration::ZERO));
        Ok(())
    };
    std::thread::scope(|sc| {
        let one = &one;
        let hs: Vec<_> = (0..6usize).map(|t| sc.spawn(move || (0..c.passing as usize).skip(t).step_by(6).try_for_each(|k| one(t, first + k)))).collect();
        hs.into_iter().try_for_each(|h| h.join().unwrap())
    })
}
fn gen_case(t: Tier, named: BoxedStrategy<Vec<u8>>, listeners: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    let top = if t == Tier::Thorough { 2200u16 } else { 1100 };
    (
        (prop_oneof![1 => 20u16..200, 2 => 200u16..top], listeners, named, any::<u16>()),
        (
            prop_oneof![1 => Just(vec![]), 2 => vec(prop_oneof![4 => Just(0u8), 1 => 4u8..8], 1..12)],
            prop_oneof![1 => Just(vec![]), 2 => vec(any::<u8>(), 1..12)],
            prop::bool::weighted(0.4),
            any::<bool>(),
            0u16..300,
            gen::keep_alive(),
            prop_oneof![30 => Just(0u32), 6 => 1u32..600, 1 => 65_400u32..66_200],
        ),
    )
        .prop_map(|((clients, listeners, named, style), (leave, taken, same_port, at_once, late, keep_alive, passing))| Case { clients, listeners, named, style, leave, taken, same_port, at_once, late, keep_alive: if keep_alive < 60 { 0 } else { keep_alive }, passing })
        .boxed()
}
fn gen_anonymous(t: Tier) -> BoxedStrategy<Case> {
    gen_case(t, prop_oneof![2 => Just(vec![]), 1 => vec(prop_oneof![4 => Just(0u8), 1 => Just(1u8)], 1..9)].boxed(), prop_oneof![1 => Just(1u8), 2 => 2u8..5].boxed())
}
fn gen_named(t: Tier) -> BoxedStrategy<Case> {
    gen_case(t, prop_oneof![2 => Just(vec![1]), 1 => vec(0u8..3, 1..9)].boxed(), (1u8..4).boxed())
}
fn gen_listeners(t: Tier) -> BoxedStrategy<Case> {
    gen_case(t, vec(0u8..3, 1..9).boxed(), prop_oneof![1 => 2u8..8, 2 => 8u8..36].boxed())
}
pub fn register(reg: &mut Registry) {
    let mut add = |id: &'static str, what: &'static str, cases: (u32, u32), strategy: fn(Tier) -> BoxedStrategy<Case>| {
        reg.entry(id).or_default().push(Box::new(Section {
            name: "crowd",
            rule: Box::leak(format!("{what}, 20-1100 of them at once (thorough: up to 2200), connecting one by one or all at once, from any local port or all from one local port; some leave (DISCONNECT, close, reset, malformed packet), some ids are taken over, now and then more than 65000 others come and go at once, more clients come; then one message for each and one for all is published. Every connection must be accepted with session-present 0, be acknowledged, receive exactly its two messages and a PINGRESP; a taken-over one must be closed. Non-trivial: more than 20 clients remain.").into_boxed_str()),
            cases,
            workers: 4,
            isolated: false,
            patience: Duration::from_secs(10),
            shrink_secs: 60,
            strategy,
            exec,
        }) as Box<dyn SectionDyn>);
    };
    add("C21", "clients most of which have no client id", (120, 1500), gen_anonymous);
    add("C14", "clients most of which have client ids that resemble each other", (80, 1000), gen_named);
    add("C19", "clients with and without client ids on 2-35 listeners", (80, 1000), gen_listeners);
}
