//! Histories of client actions against a real broker, checked step by step against the reference model (world.rs).
//! One engine; each property gives its own weights, so that its own situations are frequent.
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

pub const SLOTS: u8 = 7;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Id {
    /// one id per slot
    Own,
    /// one of a few ids shared by all slots
    Shared(u8),
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Login {
    Anonymous,
    Good(u8),
    WrongPassword(u8),
    Unknown(u8),
    NoPassword(u8),
}
/// Small packets sent where they must have no effect.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Extra {
    Sub(Txt),
    /// unsubscribe from all probe filters and everything the victim holds
    UnsubAll,
    Pub(Txt, u16),
    Ping,
    Disconnect,
    Connect,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Malformed {
    Type0,
    Type15,
    ServerPacket(u8),
    QoS3,
    SubFlags,
    UnsubFlags,
    LongLength,
    TopicPastEnd,
    EmptyTopic,
    WildTopic,
    BadUtf8,
    Nul,
    EmptySub,
    SubQos3,
    PingWithBody,
    EmptyConnect,
}
pub const MALFORMED: [Malformed; 16] = [
    Malformed::Type0,
    Malformed::Type15,
    Malformed::ServerPacket(0),
    Malformed::QoS3,
    Malformed::SubFlags,
    Malformed::UnsubFlags,
    Malformed::LongLength,
    Malformed::TopicPastEnd,
    Malformed::EmptyTopic,
    Malformed::WildTopic,
    Malformed::BadUtf8,
    Malformed::Nul,
    Malformed::EmptySub,
    Malformed::SubQos3,
    Malformed::PingWithBody,
    Malformed::EmptyConnect,
];
impl Malformed {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Malformed::Type0 => vec![0, 0],
            Malformed::Type15 => vec![0xF0, 0],
            Malformed::ServerPacket(n) => match n % 5 {
                0 => vec![0x20, 2, 0, 0],
                1 => vec![0x90, 3, 0, 1, 0],
                2 => vec![0xB0, 2, 0, 1],
                3 => vec![0xD0, 0],
                _ => vec![0x21, 2, 0, 0],
            },
            Malformed::QoS3 => vec![0x36, 6, 0, 1, b'a', 0, 1, b'x'],
            Malformed::SubFlags => vec![0x80, 6, 0, 1, 0, 1, b'a', 0],
            Malformed::UnsubFlags => vec![0xA0, 5, 0, 1, 0, 1, b'a'],
            Malformed::LongLength => vec![0x30, 0xff, 0xff, 0xff, 0xff, 1],
            Malformed::TopicPastEnd => vec![0x30, 4, 0, 50, b'a', b'b', 0x30, 5, 0, 1, b'a', b'x', b'y'],
            Malformed::EmptyTopic => vec![0x30, 3, 0, 0, b'x'],
            Malformed::WildTopic => vec![0x30, 6, 0, 3, b'a', b'/', b'#', b'x'],
            Malformed::BadUtf8 => vec![0x30, 5, 0, 2, 0xff, 0xfe, b'x'],
            Malformed::Nul => vec![0x30, 5, 0, 2, b'a', 0, b'x'],
            Malformed::EmptySub => vec![0x82, 2, 0, 1],
            Malformed::SubQos3 => vec![0x82, 6, 0, 1, 0, 1, b'a', 3],
            Malformed::PingWithBody => vec![0xC0, 1, 0],
            Malformed::EmptyConnect => vec![0x10, 0],
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Close {
    /// DISCONNECT, with packets behind it in the same write
    Disconnect(Vec<Extra>),
    /// full close of the socket
    Fin,
    /// close of the sending side only; the broker must close the rest
    HalfFin,
    Rst,
    /// a second CONNECT (same id or a new one), with packets behind it
    SecondConnect(bool, Vec<Extra>),
    /// malformed packet, with packets behind it
    Malformed(Malformed, Vec<Extra>),
    /// part of a packet, then close or reset
    Partial(Extra, u16, bool),
}
/// A connection that never gets a session.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hostile {
    /// packets before (or instead of) CONNECT; the last flag adds a valid CONNECT behind them
    NoConnect(Vec<Extra>, bool),
    Refused(Login, Vec<Extra>),
    Malformed(Malformed),
    /// part of a CONNECT, then close (false) or reset (true)
    PartialConnect(u16, bool),
    /// raw bytes, then close
    Raw(Vec<u8>, bool),
    /// CONNECT and requests, reset at once, without reading
    Hurry(Vec<Extra>, bool),
    /// very deep or long filters and topics, then close
    Deep(u8, u16, bool),
    /// opens and closes
    Knock(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Open { slot: u8, lst: u8, id: Id, login: Login, clean: bool, will: bool, cut: Vec<usize> },
    Sub { slot: u8, filters: Vec<(Txt, u8)>, again: bool, cut: Vec<usize> },
    Unsub { slot: u8, filters: Vec<Txt>, held: Vec<u8>, cut: Vec<usize> },
    Pub { slot: u8, topic: Txt, size: u16, qos: u8, retain: bool, cut: Vec<usize> },
    Ping { slot: u8 },
    Close { slot: u8, how: Close },
    /// packets on the connection in `slot` racing with the same id connecting in `by`; `after`: sent when the CONNACK is there
    TakeOver { slot: u8, by: u8, lst: u8, before: Vec<Extra>, after: Vec<Extra>, then: u8 },
    Hostile { lst: u8, what: Hostile },
    /// every open client pings, every probe topic is published once
    Probe { slot: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub listeners: u8,
    /// family of client ids
    #[serde(default)]
    pub names: u16,
    /// how packet ids are chosen
    #[serde(default)]
    pub pids: u8,
    pub ops: Vec<Op>,
    pub probes: Vec<Txt>,
}

pub fn users() -> Vec<(String, String)> {
    [("alice", "secret"), ("bob", "hunter2"), ("Al", "")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}
impl Login {
    pub fn creds(&self) -> (Option<Txt>, Option<Txt>) {
        let us = users();
        let pick = |i: &u8| us[*i as usize % us.len()].clone();
        let (u, p) = match self {
            Login::Anonymous => (None, None),
            Login::Good(i) => (Some(pick(i).0), Some(pick(i).1)),
            Login::WrongPassword(i) => (Some(pick(i).0), Some(format!("{}x", pick(i).1))),
            Login::Unknown(i) => (Some(format!("{}x", pick(i).0)), Some(pick(i).1)),
            Login::NoPassword(i) => (Some(pick(i).0), None),
        };
        (u.map(Txt::Lit), p.map(Txt::Lit))
    }
    fn ok(&self) -> bool {
        matches!(self, Login::Anonymous | Login::Good(_))
    }
}

#[derive(Default)]
struct Tally {
    refused: u32,
    takeovers: u32,
    resub: u32,
    unsub_held: u32,
    reopened: u32,
    cross: u32,
    empty: u32,
    hostile: u32,
    extras: u32,
    abrupt: u32,
    closes: u32,
    invalid: u32,
    closed_with_subs: u32,
    hash_close: u32,
    empty_left: u32,
    zombie: u32,
    kinds: std::collections::BTreeSet<&'static str>,
}

pub struct Runner<'a> {
    w: World,
    h: &'a History,
    slot: Vec<Option<usize>>,
    used: Vec<u32>,
    lst: Vec<usize>,
    pid: u16,
    t: Tally,
    /// wait after endings until the broker has let go of the sockets
    settle: bool,
}

impl<'a> Runner<'a> {
    fn pid(&mut self) -> u16 {
        self.pid = if self.pid == u16::MAX { 1 } else { self.pid + 1 };
        // an id may be used again as soon as its request has been answered
        match self.h.pids % 6 {
            1 => 1,
            2 => 1 + self.pid % 2,
            3 => u16::MAX - self.pid % 7,
            4 => 256 * (1 + self.pid % 3),
            5 => 1 + self.pid / 2 % 4,
            _ => self.pid,
        }
    }
    fn name(&self, n: u8) -> String {
        gen::client_name(self.h.names, n as u16)
    }
    fn open(&self, s: u8) -> Option<usize> {
        self.slot[(s % SLOTS) as usize].filter(|&i| self.w.conns[i].open)
    }
    /// bytes of packets that must have no effect; their messages are registered as never to arrive
    fn extras(&mut self, from: usize, xs: &[Extra]) -> Vec<u8> {
        let mut b = vec![];
        for x in xs {
            self.t.extras += 1;
            let pid = self.pid();
            let p = match x {
                Extra::Sub(f) => CPacket::Subscribe { pid, filters: vec![(f.clone(), 0)] },
                Extra::UnsubAll => {
                    let mut fs: Vec<Txt> = vec![Txt::lit("#")];
                    for c in &self.w.conns {
                        for f in &c.filters {
                            if f.len() < 100 && fs.len() < 40 {
                                fs.push(Txt::lit(f));
                            }
                        }
                    }
                    CPacket::Unsubscribe { pid, filters: fs }
                }
                Extra::Pub(t, size) => {
                    let (_, p) = self.w.message(from, &t.s(), *size as usize, true);
                    CPacket::Publish(p)
                }
                Extra::Ping => CPacket::PingReq,
                Extra::Disconnect => CPacket::Disconnect,
                Extra::Connect => CPacket::Connect(plain_connect("extra")),
            };
            b.extend_from_slice(&p.encode());
        }
        b
    }
    fn step(&mut self, k: usize, op: &Op) -> R<()> {
        match op {
            Op::Open { slot, lst, id, login, clean, will, cut } => {
                let s = slot % SLOTS;
                if self.open(s).is_some() {
                    return Ok(());
                }
                self.w.flush()?;
                let ids = match id {
                    Id::Own => self.name(s),
                    Id::Shared(n) => self.name(SLOTS + n % 3),
                    Id::Empty => String::new(),
                };
                let clean = *clean || ids.is_empty();
                let i = self.w.dial(*lst as usize, format!("client {ids:?} (slot {s}, operation {k})"))?;
                self.lst.resize(i + 1, 0);
                self.lst[i] = *lst as usize % self.h.listeners.max(1) as usize;
                let (user, pass) = login.creds();
                let w = will.then(|| Will { topic: Txt::lit("a"), payload: Blob::Lit(b"will".to_vec()), qos: (k % 3) as u8, retain: k % 2 == 0 });
                let c = Connect { level: if k % 5 == 0 { 3 } else { 4 }, client_id: Txt::Lit(ids.clone()), keep_alive: if k % 2 == 0 { 0 } else { 600 }, clean, will: w, user, pass };
                if !login.ok() {
                    self.t.refused += 1;
                    self.w.send_p(i, &CPacket::Connect(c), cut)?;
                    return self.refused(i);
                }
                if !ids.is_empty() && self.w.holder(&ids).is_some() {
                    self.t.takeovers += 1;
                }
                let old = if ids.is_empty() { None } else { self.w.holder(&ids) };
                self.w.connect(i, &c, cut, &[])?;
                if let Some(o) = old {
                    self.w.wait_end(o, "another connection with its client id has been accepted")?;
                }
                self.used[s as usize] += 1;
                if self.used[s as usize] > 1 {
                    self.t.reopened += 1;
                }
                self.t.empty += ids.is_empty() as u32;
                self.slot[s as usize] = Some(i);
            }
            Op::Sub { slot, filters, again, cut } => {
                let Some(i) = self.open(*slot) else { return Ok(()) };
                let mut fs = filters.clone();
                if *again {
                    let held = self.w.conns[i].filters.clone();
                    for f in held.iter().take(2) {
                        fs.push((Txt::lit(f), 1));
                    }
                }
                if fs.iter().any(|(f, _)| self.w.conns[i].filters.contains(&f.s())) {
                    self.t.resub += 1;
                }
                if fs.iter().any(|(f, _)| !valid_filter(&f.s())) {
                    self.t.invalid += 1;
                }
                let pid = self.pid();
                self.w.subscribe(i, pid, &fs, cut)?;
            }
            Op::Unsub { slot, filters, held, cut } => {
                let Some(i) = self.open(*slot) else { return Ok(()) };
                let mut fs = filters.clone();
                let h = &self.w.conns[i].filters;
                if !h.is_empty() {
                    fs.extend(held.iter().map(|n| Txt::lit(&h[*n as usize % h.len()])));
                }
                if fs.is_empty() {
                    return Ok(());
                }
                if fs.iter().any(|f| h.contains(&f.s())) {
                    self.t.unsub_held += 1;
                }
                let pid = self.pid();
                self.w.unsubscribe(i, pid, &fs, cut)?;
            }
            Op::Pub { slot, topic, size, qos, retain, cut } => {
                let Some(i) = self.open(*slot) else { return Ok(()) };
                let m = self.w.publish(i, &topic.s(), *size as usize, *qos, *retain, cut)?;
                for (c, l) in self.w.conns.iter().zip(&self.lst) {
                    if c.open && c.expect.contains_key(&m) && self.lst[i] != *l {
                        self.t.cross += 1;
                    }
                }
            }
            Op::Ping { slot } => {
                if let Some(i) = self.open(*slot) {
                    self.w.ping(i)?;
                }
            }
            Op::Probe { slot } => {
                if let Some(i) = self.open(*slot) {
                    for p in &self.h.probes {
                        let m = self.w.publish(i, &p.s(), 0, 0, false, &[])?;
                        for (c, l) in self.w.conns.iter().zip(&self.lst) {
                            if c.open && c.expect.contains_key(&m) && self.lst[i] != *l {
                                self.t.cross += 1;
                            }
                        }
                    }
                    self.w.flush()?;
                }
            }
            Op::Close { slot, how } => {
                let Some(i) = self.open(*slot) else { return Ok(()) };
                self.t.closes += 1;
                let f = self.w.conns[i].filters.clone();
                self.t.closed_with_subs += !f.is_empty() as u32;
                self.t.hash_close += f.iter().any(|f| f.contains(['+', '#'])) as u32;
                self.t.empty_left += self.w.conns[i].id.is_none() as u32;
                self.close(i, how)?;
                if self.settle {
                    self.w.settle_sockets()?;
                }
            }
            Op::TakeOver { slot, by, lst, before, after, then } => {
                let Some(o) = self.open(*slot) else { return Ok(()) };
                let Some(id) = self.w.conns[o].id.clone() else { return Ok(()) };
                if slot % SLOTS == by % SLOTS || self.open(*by).is_some() {
                    return Ok(());
                }
                self.w.flush()?;
                self.t.takeovers += 1;
                let i = self.w.dial(*lst as usize, format!("client {id:?} (slot {by}, takes over in operation {k})"))?;
                self.lst.resize(i + 1, 0);
                self.lst[i] = *lst as usize % self.h.listeners.max(1) as usize;
                // in flight when the new connection comes: requests may or may not still be answered, but cannot outlive the takeover
                let mut b = vec![];
                let mut asked = 0;
                for x in before {
                    if let Extra::Sub(_) | Extra::UnsubAll | Extra::Ping = x {
                        b.extend_from_slice(&self.extras(o, std::slice::from_ref(x)));
                        asked += 1;
                    }
                }
                self.w.conns[o].may_end = true;
                self.w.send(o, &b, &[])?;
                let mut c = plain_connect(&id);
                c.clean = k % 3 != 0;
                self.w.connect(i, &c, &[], &[])?;
                self.slot[(by % SLOTS) as usize] = Some(i);
                // from here on nothing of the old connection counts
                if !after.is_empty() {
                    self.t.zombie += 1;
                }
                let b = self.extras(o, after);
                self.w.send(o, &b, &[])?;
                match then % 4 {
                    0 => {
                        if let Some(cl) = &self.w.conns[o].cl {
                            cl.rst();
                        }
                        self.w.conns[o].cl = None;
                    }
                    1 => self.w.conns[o].cl = None,
                    _ => {
                        let why = "another connection with its client id has been accepted";
                        let what = format!("the broker closing the connection of {} ({why})", self.w.name(o));
                        self.w.until(&what, |w| w.conns[o].ended.is_some())?;
                        if self.w.conns[o].ctl.len() > asked {
                            return fail(format!("{}: more answers than requests before it was taken over: {:?}", self.w.name(o), self.w.conns[o].ctl));
                        }
                        self.w.conns[o].cl = None;
                    }
                }
                self.w.conns[o].ctl.clear();
                self.w.ping(i)?;
            }
            Op::Hostile { lst, what } => {
                self.t.hostile += 1;
                self.hostile(k, *lst as usize, what)?;
            }
        }
        Ok(())
    }
    /// The CONNECT was sent; it must be refused and the connection closed.
    fn refused(&mut self, i: usize) -> R<()> {
        match self.w.next_ctl(i, "CONNACK")? {
            RPacket::ConnAck { session_present: false, code } if code != 0 => {}
            p => return fail(format!("{}: {p:?} in answer to a CONNECT with invalid credentials", self.w.name(i))),
        }
        self.w.wait_end(i, "its CONNECT was refused")
    }
    fn close(&mut self, i: usize, how: &Close) -> R<()> {
        match how {
            Close::Disconnect(xs) => {
                self.t.kinds.insert("DISCONNECT");
                // what it published before still counts; what follows does not
                let b = self.extras(i, xs);
                self.w.disconnect(i, &b)?;
            }
            Close::HalfFin => {
                self.t.kinds.insert("half close");
                self.w.conns[i].may_end = true;
                if let Some(c) = &self.w.conns[i].cl {
                    c.fin();
                }
                self.w.wait_end(i, "after it closed its side")?;
                self.w.end_session(i);
                self.w.wait_deliveries()?;
            }
            Close::Fin | Close::Rst => {
                self.t.abrupt += 1;
                self.t.kinds.insert(if matches!(how, Close::Fin) { "close" } else { "reset" });
                self.w.flush()?;
                self.w.conns[i].may_end = true;
                if let (Close::Rst, Some(c)) = (how, &self.w.conns[i].cl) {
                    c.rst();
                }
                self.w.conns[i].cl = None;
                self.w.end_session(i);
            }
            Close::SecondConnect(same, xs) => {
                self.t.kinds.insert("second CONNECT");
                let id = match (same, &self.w.conns[i].id) {
                    (true, Some(id)) => id.clone(),
                    _ => "second".to_string(),
                };
                let mut b = CPacket::Connect(plain_connect(&id)).encode();
                b.extend(self.extras(i, xs));
                self.w.conns[i].may_end = true;
                self.w.send(i, &b, &[])?;
                self.w.wait_end(i, "after a second CONNECT")?;
                self.w.end_session(i);
                self.w.wait_deliveries()?;
            }
            Close::Malformed(m, xs) => {
                self.t.kinds.insert("malformed packet");
                let mut b = m.bytes();
                b.extend(self.extras(i, xs));
                self.w.conns[i].may_end = true;
                self.w.send(i, &b, &[])?;
                self.w.wait_end(i, "after a malformed packet")?;
                self.w.end_session(i);
                self.w.wait_deliveries()?;
            }
            Close::Partial(x, at, rst) => {
                self.t.abrupt += 1;
                self.t.kinds.insert("part of a packet");
                self.w.flush()?;
                let b = self.extras(i, std::slice::from_ref(x));
                let n = (*at as usize * b.len() / 65536).clamp(1, b.len() - 1);
                self.w.conns[i].may_end = true;
                self.w.send(i, &b[..n], &[])?;
                match (rst, &self.w.conns[i].cl) {
                    (true, Some(c)) => {
                        c.rst();
                        self.w.conns[i].cl = None;
                    }
                    (_, Some(c)) => {
                        c.fin();
                        self.w.wait_end(i, "after it closed its side inside a packet")?;
                    }
                    _ => {}
                }
                self.w.end_session(i);
            }
        }
        Ok(())
    }
    fn hostile(&mut self, k: usize, lst: usize, what: &Hostile) -> R<()> {
        self.w.flush()?;
        let i = self.w.dial(lst, format!("hostile connection (operation {k})"))?;
        self.lst.resize(i + 1, 0);
        let go = |r: &mut Self, rst: bool| {
            if let (true, Some(c)) = (rst, &r.w.conns[i].cl) {
                c.rst();
            }
            r.w.conns[i].cl = None;
        };
        match what {
            Hostile::NoConnect(xs, connect) => {
                let xs: Vec<Extra> = xs.iter().filter(|x| !matches!(x, Extra::Connect)).cloned().collect();
                if xs.is_empty() {
                    go(self, false);
                    return Ok(());
                }
                let mut b = self.extras(i, &xs);
                if *connect {
                    b.extend(CPacket::Connect(plain_connect("late")).encode());
                    b.extend(self.extras(i, &xs));
                }
                self.w.send(i, &b, &[])?;
                self.w.wait_end(i, "its first packet was not a CONNECT")?;
            }
            Hostile::Refused(l, xs) => {
                if l.ok() {
                    go(self, false);
                    return Ok(());
                }
                self.t.refused += 1;
                let (user, pass) = l.creds();
                let mut c = plain_connect(&[self.name(1), self.name(SLOTS), "nobody".into(), String::new()][k % 4]);
                (c.user, c.pass) = (user, pass);
                let mut b = CPacket::Connect(c).encode();
                b.extend(self.extras(i, xs));
                self.w.send(i, &b, &[])?;
                self.refused(i)?;
            }
            Hostile::Malformed(m) => {
                self.w.send(i, &m.bytes(), &[])?;
                self.w.wait_end(i, "it sent a malformed packet")?;
            }
            Hostile::PartialConnect(at, rst) => {
                let b = CPacket::Connect(plain_connect(&self.name(0))).encode();
                let n = (*at as usize * b.len() / 65536).clamp(1, b.len() - 1);
                self.w.send(i, &b[..n], &[])?;
                if *rst {
                    go(self, true);
                } else {
                    if let Some(c) = &self.w.conns[i].cl {
                        c.fin();
                    }
                    self.w.wait_end(i, "it closed its side inside CONNECT")?;
                }
            }
            Hostile::Raw(b, rst) => {
                // a random CONNECT with a matching id is practically impossible; everything else has no effect
                self.w.send(i, b, &[])?;
                go(self, *rst);
            }
            Hostile::Hurry(xs, rst) => {
                // its requests may or may not be processed; nothing is expected of them. No publishes: they would be legitimate.
                let xs: Vec<Extra> = xs.iter().filter(|x| !matches!(x, Extra::Pub(..))).cloned().collect();
                let mut b = CPacket::Connect(plain_connect(&format!("hurry-{k}"))).encode();
                for _ in 0..4 {
                    b.extend(self.extras(i, &xs));
                }
                self.w.send(i, &b, &[])?;
                go(self, *rst);
            }
            Hostile::Deep(kind, n, stay) => {
                let id = format!("deep-{k}");
                self.w.connect(i, &plain_connect(&id), &[], &[])?;
                let n = (*n as usize).max(1);
                let f = match kind % 4 {
                    0 => "/".repeat(n),
                    1 => "a/".repeat(n / 2 + 1).chars().take(n).collect(),
                    2 => {
                        let mut s = "+/".repeat(n / 2);
                        s.push('#');
                        s
                    }
                    _ => "x".repeat(n),
                };
                let fs = [(Txt::Lit(f.clone()), 0)];
                self.w.subscribe(i, 7, &fs, &[])?;
                let t = if kind % 4 == 2 { "q/".repeat(n / 2) + "q" } else { f };
                self.w.publish(i, &t, 0, 0, false, &[])?;
                self.w.flush()?;
                if *stay {
                    self.w.disconnect(i, &[])?;
                } else {
                    go(self, true);
                    self.w.end_session(i);
                }
            }
            Hostile::Knock(rst) => go(self, *rst),
        }
        Ok(())
    }
}

pub struct Want {
    pub settle: bool,
    pub nontrivial: fn(&Counts) -> bool,
}
/// what a case exercised
pub struct Counts {
    pub deliveries: u64,
    pub kept_out: u64,
    pub takeovers: u32,
    pub zombie: u32,
    pub resub: u32,
    pub unsub_held: u32,
    pub reopened: u32,
    pub cross: u32,
    pub empty: u32,
    pub empty_left: u32,
    pub hostile: u32,
    pub extras: u32,
    pub closes: u32,
    pub closed_with_subs: u32,
    pub refused: u32,
}

fn run(h: &History, obs: &mut Obs, patience: Duration, want: &Want) -> Outcome {
    let n = h.listeners.clamp(1, 4) as usize;
    let w = match World::start(n, &users(), patience) {
        Ok(w) => w,
        Err(o) => return o,
    };
    let mut r = Runner { w, h, slot: vec![None; SLOTS as usize], used: vec![0; SLOTS as usize], lst: vec![], pid: 0, t: Tally::default(), settle: want.settle };
    for (k, op) in h.ops.iter().enumerate() {
        if let Err(o) = r.step(k, op) {
            return at(o, k, op);
        }
    }
    let slots: Vec<u8> = (0..SLOTS).filter(|&s| r.open(s).is_some()).collect();
    if let Some(s) = slots.first() {
        if let Err(o) = r.step(h.ops.len(), &Op::Probe { slot: *s }) {
            return at(o, h.ops.len(), &Op::Probe { slot: *s });
        }
    }
    if let Err(o) = r.w.finish() {
        return match o {
            Outcome::Fail(t) => Outcome::Fail(format!("at the end: {t}")),
            o => o,
        };
    }
    if want.settle {
        if let Err(o) = r.w.settle_sockets() {
            return o;
        }
    }
    let t = &r.t;
    let c = Counts {
        deliveries: r.w.deliveries,
        kept_out: r.w.kept_out,
        takeovers: t.takeovers,
        zombie: t.zombie,
        resub: t.resub,
        unsub_held: t.unsub_held,
        reopened: t.reopened,
        cross: t.cross,
        empty: t.empty,
        empty_left: t.empty_left,
        hostile: t.hostile,
        extras: t.extras,
        closes: t.closes,
        closed_with_subs: t.closed_with_subs,
        refused: t.refused,
    };
    obs.nontrivial = (want.nontrivial)(&c);
    obs.tag_if(c.deliveries > 0, "messages delivered");
    obs.tag_if(c.takeovers > 0, "client id taken over");
    obs.tag_if(c.zombie > 0, "packets from a taken-over connection");
    obs.tag_if(c.resub > 0, "subscribed again to a held filter");
    obs.tag_if(c.unsub_held > 0, "unsubscribed from a held filter");
    obs.tag_if(c.reopened > 0, "came back after leaving");
    obs.tag_if(c.cross > 0, "message crossed listeners");
    obs.tag_if(c.empty > 1, "several clients without id");
    obs.tag_if(c.hostile > 0, "hostile connection");
    obs.tag_if(c.extras > 0, "packets that must have no effect");
    obs.tag_if(c.refused > 0, "refused login");
    obs.tag_if(t.invalid > 0, "invalid filter requested");
    obs.tag_if(t.closed_with_subs > 0, "left holding subscriptions");
    for k in &t.kinds {
        obs.tag(&format!("left by {k}"));
    }
    Outcome::Pass
}
fn at(o: Outcome, k: usize, op: &Op) -> Outcome {
    let s: String = format!("{op:?}").chars().take(200).collect();
    match o {
        Outcome::Fail(t) => Outcome::Fail(format!("operation {k} {s}: {t}")),
        Outcome::Late(t) => Outcome::Late(format!("operation {k} {s}: {t}")),
        o => o,
    }
}

// ---------------------------------------------------------------------------------------------------------- generators
#[derive(Clone, Copy)]
pub struct Mix {
    pub listeners: (u8, u8),
    pub open: u32,
    pub own: u32,
    pub shared: u32,
    pub empty: u32,
    pub bad_login: u32,
    pub good_login: u32,
    pub sub: u32,
    pub unsub: u32,
    pub publish: u32,
    pub ping: u32,
    pub close: u32,
    pub takeover: u32,
    pub hostile: u32,
    pub probe: u32,
    pub ops: (usize, usize),
    /// weights of Disconnect, Fin, HalfFin, Rst, SecondConnect, Malformed, Partial
    pub closes: [u32; 7],
    pub invalid: u32,
    pub pre_open: u8,
    /// weights of NoConnect, Refused, Malformed, PartialConnect, Raw, Hurry, Deep, Knock
    pub hostiles: [u32; 8],
}
pub const BASE: Mix = Mix {
    listeners: (1, 1),
    open: 3,
    own: 4,
    shared: 0,
    empty: 0,
    bad_login: 0,
    good_login: 1,
    sub: 6,
    unsub: 2,
    publish: 4,
    ping: 1,
    close: 1,
    takeover: 0,
    hostile: 0,
    probe: 2,
    ops: (5, 30),
    closes: [3, 2, 2, 2, 1, 1, 1],
    invalid: 1,
    pre_open: 3,
    hostiles: [2, 2, 2, 2, 2, 2, 1, 1],
};

/// Filters and topics over a tiny alphabet, so that histories collide.
fn tiny_topic() -> BoxedStrategy<Txt> {
    prop_oneof![
        8 => vec(prop::sample::select(vec!["a", "b", "c", ""]), 1..4).prop_map(|v| Txt::Lit(v.join("/"))).prop_map(|t| if t.s().is_empty() { Txt::lit("a") } else { t }),
        1 => gen::topic(),
    ]
    .boxed()
}
fn near(ts: &[Txt]) -> BoxedStrategy<Txt> {
    let ts = ts.to_vec();
    let derived = (any::<usize>(), vec((any::<usize>(), 0u8..14), 0..3), prop::option::weighted(0.35, any::<usize>()))
        .prop_map(move |(i, m, h)| Txt::Lit(gen::filter_like(&ts[i % ts.len()].s(), &m, h)));
    prop_oneof![6 => derived, 1 => gen::filter(), 1 => Just(Txt::lit("#"))].boxed()
}
pub fn bad_filter() -> BoxedStrategy<Txt> {
    prop_oneof![
        4 => prop::sample::select(vec!["", "a#", "#/a", "a/#/b", "a+", "+a", "a/b+/c", "##", "++", "a/##", "/#/", "#/", "+#"]).prop_map(Txt::lit),
        1 => (vec(prop::sample::select(vec!["a", "b", "+", "#", "a+", "#b", ""]), 1..5)).prop_map(|v| Txt::Lit(v.join("/"))).prop_map(|t| if valid_filter(&t.s()) { Txt::lit("a#") } else { t }),
    ]
    .boxed()
}
fn small_cut() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![5 => Just(vec![]), 1 => Just(vec![1]), 1 => vec(1usize..20, 1..4)].boxed()
}

pub fn history(mix: Mix) -> BoxedStrategy<History> {
    vec(tiny_topic(), 2..5)
        .prop_flat_map(move |ts| {
            let slot = || 0..SLOTS;
            let f = near(&ts);
            let t = {
                let ts = ts.clone();
                prop_oneof![4 => any::<usize>().prop_map(move |i| ts[i % ts.len()].clone()), 1 => tiny_topic()].boxed()
            };
            let lst = mix.listeners.0..=mix.listeners.1;
            let l = || 0u8..mix.listeners.1.max(1);
            let extra = prop_oneof![
                4 => f.clone().prop_map(Extra::Sub),
                2 => Just(Extra::UnsubAll),
                4 => (t.clone(), prop_oneof![3 => Just(0u16), 1 => 0u16..9000]).prop_map(|(t, n)| Extra::Pub(t, n)),
                1 => Just(Extra::Ping),
                1 => Just(Extra::Disconnect),
            ]
            .boxed();
            let extras = vec(extra.clone(), 0..5).boxed();
            let id = prop_oneof![mix.own => Just(Id::Own), mix.shared => any::<u8>().prop_map(Id::Shared), mix.empty => Just(Id::Empty)].boxed();
            let bad = prop_oneof![any::<u8>().prop_map(Login::WrongPassword), any::<u8>().prop_map(Login::Unknown), any::<u8>().prop_map(Login::NoPassword)].boxed();
            let login = prop_oneof![10 => Just(Login::Anonymous), mix.good_login => any::<u8>().prop_map(Login::Good), mix.bad_login => bad.clone()].boxed();
            let malformed = prop::sample::select(MALFORMED.to_vec());
            let malformed = (malformed, any::<u8>()).prop_map(|(m, n)| if let Malformed::ServerPacket(_) = m { Malformed::ServerPacket(n) } else { m }).boxed();
            let c = mix.closes;
            let close = prop_oneof![
                c[0] => extras.clone().prop_map(Close::Disconnect),
                c[1] => Just(Close::Fin),
                c[2] => Just(Close::HalfFin),
                c[3] => Just(Close::Rst),
                c[4] => (any::<bool>(), extras.clone()).prop_map(|(b, x)| Close::SecondConnect(b, x)),
                c[5] => (malformed.clone(), extras.clone()).prop_map(|(m, x)| Close::Malformed(m, x)),
                c[6] => (extra.clone(), any::<u16>(), any::<bool>()).prop_map(|(x, n, b)| Close::Partial(x, n, b)),
            ];
            let h = mix.hostiles;
            let hostile = prop_oneof![
                h[0] => (vec(extra.clone(), 1..5), any::<bool>()).prop_map(|(x, b)| Hostile::NoConnect(x, b)),
                h[1] => (bad, extras.clone()).prop_map(|(l, x)| Hostile::Refused(l, x)),
                h[2] => malformed.prop_map(Hostile::Malformed),
                h[3] => (any::<u16>(), any::<bool>()).prop_map(|(n, b)| Hostile::PartialConnect(n, b)),
                h[4] => (vec(any::<u8>(), 0..80), any::<bool>()).prop_map(|(x, b)| Hostile::Raw(x, b)),
                h[5] => (extras.clone(), any::<bool>()).prop_map(|(x, b)| Hostile::Hurry(x, b)),
                h[6] => (any::<u8>(), prop_oneof![1u16..300, 300u16..20000, 60000u16..=65535], any::<bool>()).prop_map(|(k, n, b)| Hostile::Deep(k, n, b)),
                h[7] => any::<bool>().prop_map(Hostile::Knock),
            ];
            let fq = (prop_oneof![14 => f.clone(), mix.invalid => bad_filter()], 0u8..3);
            let cut = small_cut();
            let size = prop_oneof![6 => Just(0u16), 2 => 0u16..300, 1 => 4000u16..9000, 1 => 0u16..=65535];
            let op = prop_oneof![
                mix.open => (slot(), l(), id.clone(), login, prop::bool::weighted(0.8), prop::bool::weighted(0.15), cut.clone())
                    .prop_map(|(slot, lst, id, login, clean, will, cut)| Op::Open { slot, lst, id, login, clean, will, cut }),
                mix.sub => (slot(), prop_oneof![40 => 1usize..5, 1 => 5usize..40, 1 => 90usize..160].prop_flat_map(move |n| vec(fq.clone(), n)), prop::bool::weighted(0.25), cut.clone()).prop_map(|(slot, filters, again, cut)| Op::Sub { slot, filters, again, cut }),
                mix.unsub => (slot(), vec(f.clone(), 0..3), prop_oneof![30 => 0usize..3, 1 => 3usize..40].prop_flat_map(|n| vec(any::<u8>(), n)), cut.clone()).prop_map(|(slot, filters, held, cut)| Op::Unsub { slot, filters, held, cut }),
                mix.publish => (slot(), t.clone(), size, prop_oneof![4 => Just(0u8), 1 => 1u8..3], prop::bool::weighted(0.15), cut)
                    .prop_map(|(slot, topic, size, qos, retain, cut)| Op::Pub { slot, topic, size, qos, retain, cut }),
                mix.ping => slot().prop_map(|slot| Op::Ping { slot }),
                mix.close => (slot(), close).prop_map(|(slot, how)| Op::Close { slot, how }),
                mix.takeover => (slot(), slot(), l(), extras.clone(), extras.clone(), any::<u8>())
                    .prop_map(|(slot, by, lst, before, after, then)| Op::TakeOver { slot, by, lst, before, after, then }),
                mix.hostile => (l(), hostile).prop_map(|(lst, what)| Op::Hostile { lst, what }),
                mix.probe => slot().prop_map(|slot| Op::Probe { slot }),
            ];
            let pre = vec((l(), id, f), mix.pre_open as usize);
            (lst, pre, vec(op, mix.ops.0..mix.ops.1), Just(ts), gen::name_style(), prop_oneof![1 => Just(0u8), 1 => 1u8..6])
        })
        .prop_map(|(listeners, pre, mut ops, probes, names, pids)| {
            for (s, (l, id, f)) in pre.into_iter().enumerate().rev() {
                let slot = s as u8;
                if s % 2 == 0 {
                    ops.insert(0, Op::Sub { slot, filters: vec![(f, 0)], again: false, cut: vec![] });
                }
                ops.insert(0, Op::Open { slot, lst: l, id, login: Login::Anonymous, clean: true, will: false, cut: vec![] });
            }
            History { listeners, names, pids, ops, probes }
        })
        .boxed()
}

macro_rules! section {
    ($reg:expr, $prop:literal, $name:literal, $cases:expr, $settle:expr, $mix:expr, $nt:expr, $rule:literal) => {{
        fn strat(_t: Tier) -> BoxedStrategy<History> {
            history($mix)
        }
        fn exec(h: &History, obs: &mut Obs, p: Duration) -> Outcome {
            run(h, obs, p, &Want { settle: $settle, nontrivial: $nt })
        }
        $reg.entry($prop).or_default().push(Box::new(Section {
            name: $name,
            rule: $rule,
            cases: $cases,
            workers: 8,
            isolated: false,
            patience: Duration::from_secs(8),
            shrink_secs: 60,
            strategy: strat,
            exec,
        }) as Box<dyn SectionDyn>);
    }};
}

pub fn register(reg: &mut Registry) {
    section!(reg, "C04", "broker-matching", (700, 20_000), false,
        Mix { sub: 8, unsub: 1, publish: 6, close: 0, probe: 4, invalid: 0, ..BASE },
        |c| c.deliveries > 0 && c.kept_out > 0,
        "histories of clients subscribing to filters near the probe topics on a real broker; who receives each message is compared with the reference matcher. Non-trivial: something was delivered and somebody was rightly left out.");
    section!(reg, "C05", "broker-histories", (900, 30_000), false,
        Mix { close: 2, open: 4, unsub: 4, shared: 1, ops: (10, 45), ..BASE },
        |c| c.deliveries > 0 && (c.resub > 0 || c.unsub_held > 0 || c.reopened > 0),
        "histories of 10-45 operations of up to 7 clients on a real broker, every delivery compared with the reference model. Non-trivial: something was delivered and a filter was subscribed again, or a held one unsubscribed, or a client came back.");
    section!(reg, "C09", "effects", (900, 30_000), false,
        Mix { hostile: 5, close: 5, open: 6, takeover: 0, bad_login: 3, closes: [4, 0, 1, 0, 4, 2, 1], hostiles: [4, 4, 1, 1, 1, 1, 0, 0], ops: (10, 40), ..BASE },
        |c| c.extras > 0 && c.deliveries > 0,
        "connections that send requests before, without or after a CONNECT, behind a refused or second CONNECT, behind DISCONNECT or a malformed packet, next to well-behaved subscribers of the same topics: nothing of it may be seen, and the broker must close the connection. Non-trivial: such packets were sent and the subscribers received legitimate messages.");
    section!(reg, "C13", "endings", (700, 20_000), true,
        Mix { close: 6, open: 7, sub: 6, shared: 1, probe: 3, closes: [3, 3, 3, 3, 2, 3, 3], ops: (12, 45), ..BASE },
        |c| c.closed_with_subs > 0 && c.reopened > 0,
        "clients holding subscriptions leave by DISCONNECT, close, half close, reset, second CONNECT, malformed packet or inside a packet, and come back with the same id; after each ending the broker's sockets are compared with the open connections, and deliveries with a model in which sessions end with connections. Non-trivial: a client left holding subscriptions and a client came back.");
    section!(reg, "C14", "takeovers", (900, 30_000), true,
        Mix { takeover: 6, open: 6, own: 1, shared: 5, close: 2, sub: 7, ops: (10, 40), listeners: (1, 2), pre_open: 4, ..BASE },
        |c| c.takeovers > 0 && c.deliveries > 0,
        "clients connect with ids that are in use while the older connection has requests in flight, keeps sending, or closes or resets; the older one must be closed and nothing of it may show on the newer. Non-trivial: an id was taken over and something was delivered.");
    section!(reg, "C15", "hostile", (700, 20_000), false,
        Mix { hostile: 9, close: 3, takeover: 1, open: 5, bad_login: 2, closes: [1, 2, 1, 4, 2, 4, 4], ops: (10, 40), ..BASE },
        |c| c.hostile > 0 && c.deliveries > 0,
        "hostile connections (malformed, partial, random, reset at once, refused, very deep topics, no CONNECT) between the requests of well-behaved clients, which must stay connected and get exactly their answers and messages. Non-trivial: a hostile connection and a delivery to a well-behaved client.");
    section!(reg, "C19", "listeners", (700, 20_000), false,
        Mix { listeners: (2, 4), empty: 2, close: 1, takeover: 2, shared: 1, bad_login: 4, good_login: 4, open: 6, hostile: 1, pre_open: 5, hostiles: [1, 3, 0, 0, 0, 0, 0, 0], ..BASE },
        |c| c.cross > 0,
        "brokers with 2-4 listeners, clients on each, histories with takeovers and logins across listeners, compared with a model that ignores listeners. Non-trivial: a message reached a client of another listener.");
    section!(reg, "C21", "anonymous-ids", (700, 20_000), true,
        Mix { own: 1, empty: 7, good_login: 6, open: 6, close: 3, pre_open: 5, ops: (10, 40), ..BASE },
        |c| c.empty > 1 && c.empty_left > 0 && c.deliveries > 0,
        "several clients with empty ids subscribe, publish and leave in all ways, next to clients with ids. Non-trivial: at least two clients without id, one of them left, and something was delivered.");
}
