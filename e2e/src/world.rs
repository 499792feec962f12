//! Reference model of the broker: who is connected with which id, who holds which filters, which message must, may or must
//! not reach which connection. Every case runs against one real broker process.
//!
//! What must happen is waited for (a missing answer is a *late* outcome, believed only when it repeats with three times the
//! patience); what must not happen is reported when it is seen.
use crate::broker::Broker;
use crate::client::{Bell, Client};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vcommon::mqtt::*;
use vcommon::runner::Outcome;

pub type R<T> = Result<T, Outcome>;
pub fn fail<T>(s: impl Into<String>) -> R<T> {
    Err(Outcome::Fail(s.into()))
}
pub fn brief(s: &str) -> String {
    if s.len() > 100 {
        format!("{:?}... ({} bytes)", s.chars().take(60).collect::<String>(), s.len())
    } else {
        format!("{s:?}")
    }
}

pub struct Conn {
    pub cl: Option<Client>,
    pub name: String,
    /// client id; None for a generated one
    pub id: Option<String>,
    /// the model's view: an accepted session whose connection is the current one of its id
    pub open: bool,
    /// the broker may (or must) close it
    pub may_end: bool,
    pub ended: Option<&'static str>,
    pub filters: Vec<String>,
    seen: usize,
    pub ctl: VecDeque<RPacket>,
    pub counts: BTreeMap<u32, u32>,
    pub expect: BTreeMap<u32, (u32, u32)>,
    /// messages as received, when the world only records
    pub got: Vec<RPacket>,
    /// last message seen of each publisher, of those that can only arrive once
    last: BTreeMap<usize, u32>,
    /// has published something that was not yet seen to be processed
    dirty: bool,
}

pub struct Msg {
    pub topic: String,
    pub payload: Vec<u8>,
    pub from: usize,
}

pub struct World {
    pub broker: Broker,
    pub bell: Arc<Bell>,
    pub conns: Vec<Conn>,
    pub msgs: Vec<Msg>,
    by_payload: HashMap<Vec<u8>, u32>,
    pub patience: Duration,
    pub deliveries: u64,
    pub kept_out: u64,
    hash_parent: bool,
    /// keep received messages in `got` and do not judge them
    pub record: bool,
    /// whether the broker may be asked why something is late (not where it is meant to be short of resources)
    pub probing: bool,
}

impl World {
    pub fn start(listeners: usize, users: &[(String, String)], patience: Duration) -> R<World> {
        match Broker::start(listeners, users, patience) {
            Ok(b) => Ok(World::on(b, patience)),
            Err(e) => Err(Outcome::Broken(e)),
        }
    }
    pub fn on(broker: Broker, patience: Duration) -> World {
        World {
            broker,
            bell: Arc::default(),
            conns: vec![],
            msgs: vec![],
            by_payload: HashMap::new(),
            patience,
            deliveries: 0,
            kept_out: 0,
            hash_parent: false,
            record: false,
            probing: true,
        }
    }

    /// Opens a TCP connection; nothing is sent.
    pub fn dial(&mut self, listener: usize, name: String) -> R<usize> {
        let a = self.broker.addrs[listener % self.broker.addrs.len()].clone();
        let cl = match Client::open_nth(self.conns.len(), &a, &self.bell, self.patience) {
            Ok(c) => c,
            Err(e) => {
                if let Some(s) = self.broker.dead() {
                    return fail(format!("the broker process ended ({s}): {}", self.broker.stderr()));
                }
                return Err(Outcome::Late(format!("cannot connect: {e}; {}", self.broker.stderr())));
            }
        };
        Ok(self.adopt(cl, name))
    }
    pub fn adopt(&mut self, cl: Client, name: String) -> usize {
        self.conns.push(Conn {
            cl: Some(cl),
            name,
            id: None,
            open: false,
            may_end: true,
            ended: None,
            filters: vec![],
            seen: 0,
            ctl: VecDeque::new(),
            counts: BTreeMap::new(),
            expect: BTreeMap::new(),
            got: vec![],
            last: BTreeMap::new(),
            dirty: false,
        });
        self.conns.len() - 1
    }

    /// Takes in everything that has arrived.
    pub fn pump(&mut self) -> R<()> {
        for i in 0..self.conns.len() {
            let Some(cl) = &self.conns[i].cl else { continue };
            let (new, ended, bad) = {
                let g = cl.inbox.lock().unwrap();
                (g.packets[self.conns[i].seen..].to_vec(), g.ended, g.bad.clone())
            };
            self.conns[i].seen += new.len();
            for p in new {
                self.take(i, p)?;
            }
            if let Some(b) = bad {
                let t = self.trouble();
                return fail(format!("{} received something that is not a server packet: {b}{t}", self.conns[i].name));
            }
            if ended.is_some() && self.conns[i].ended.is_none() {
                self.conns[i].ended = ended;
                if !self.conns[i].may_end {
                    let t = self.trouble();
                    return fail(format!("the broker ended the connection of {} ({}){t}", self.conns[i].name, ended.unwrap()));
                }
            }
        }
        Ok(())
    }
    pub fn trouble(&mut self) -> String {
        let e = self.broker.stderr();
        let mut s = String::new();
        if let Some(st) = self.broker.dead() {
            s.push_str(&format!("; the broker process ended: {st}"));
        }
        if !e.is_empty() {
            s.push_str(&format!("; broker says: {}", e.trim()));
        }
        s
    }
    fn take(&mut self, i: usize, p: RPacket) -> R<()> {
        match p {
            p @ RPacket::Publish { .. } if self.record => self.conns[i].got.push(p),
            RPacket::Publish { ref topic, ref payload, qos, retain, dup, pid } => {
                if payload == b"will" {
                    return Ok(()); // wills are not claimed either way
                }
                let Some(&m) = self.by_payload.get(payload) else {
                    return fail(format!("{} received a message nobody published: {}", self.conns[i].name, p.brief()));
                };
                let msg = &self.msgs[m as usize];
                if msg.topic != *topic {
                    return fail(format!("{} received message {m} with topic {} instead of {}", self.conns[i].name, brief(topic), brief(&msg.topic)));
                }
                if qos != 0 || retain || dup || pid.is_some() {
                    return fail(format!("{} received message {m} not as a plain QoS 0 message: {}", self.conns[i].name, p.brief()));
                }
                let from = msg.from;
                let c = &mut self.conns[i];
                let n = c.counts.entry(m).or_default();
                *n += 1;
                let (_, hi) = c.expect.get(&m).copied().unwrap_or((0, 0));
                if *n > hi {
                    let (n, name, fs) = (*n, c.name.clone(), c.filters.clone());
                    let t = self.trouble();
                    return fail(format!(
                        "{name} received message {m} (topic {}, published by {}) {n} time(s), at most {hi} expected; it holds {:?}{t}",
                        brief(topic), self.conns[from].name, fs.iter().map(|f| brief(f)).collect::<Vec<_>>()
                    ));
                }
                self.deliveries += 1;
                let c = &mut self.conns[i];
                if hi == 1 {
                    let l = c.last.entry(from).or_insert(m);
                    if *l > m {
                        let l = *l;
                        return fail(format!("{} received message {m} of {} after its later message {l}", self.conns[i].name, self.conns[from].name));
                    }
                    *l = m;
                }
            }
            // the broker does not acknowledge QoS 1 and 2 publishes (not claimed)
            RPacket::PubAck(_) | RPacket::PubRec(_) | RPacket::PubComp(_) => {}
            p => self.conns[i].ctl.push_back(p),
        }
        Ok(())
    }
    /// Waits until `f` holds.
    pub fn until(&mut self, what: &str, mut f: impl FnMut(&World) -> bool) -> R<()> {
        let mut end = Instant::now() + self.patience;
        let mut strikes = 0;
        loop {
            let seen = self.bell.now();
            self.pump()?;
            if f(self) {
                return Ok(());
            }
            if let Some(s) = self.broker.dead() {
                return fail(format!("the broker process ended ({s}) while waiting for {what}: {}", self.broker.stderr()));
            }
            let now = Instant::now();
            if now >= end {
                let t = self.trouble();
                self.overdue(&mut strikes, &format!("{what}: did not happen within {:?}{t}", self.patience))?;
                end = Instant::now() + self.patience;
                continue;
            }
            self.bell.wait(seen, end.min(now + Duration::from_millis(250)));
        }
    }
    /// see Broker::strike
    pub fn overdue(&self, strikes: &mut u32, what: &str) -> R<()> {
        if !self.probing {
            return Err(Outcome::Late(what.into()));
        }
        self.broker.strike(strikes, what, self.patience)
    }
    pub fn name(&self, i: usize) -> String {
        self.conns[i].name.clone()
    }
    /// Sends raw bytes; a refusal by the connection only matters when the model says it is open.
    pub fn send(&mut self, i: usize, data: &[u8], cuts: &[usize]) -> R<()> {
        let c = &mut self.conns[i];
        let Some(cl) = c.cl.as_mut() else { return Ok(()) };
        if let Err(e) = cl.send(data, cuts) {
            if !c.may_end {
                let late = matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut);
                let t = format!("{} cannot send: {e}{}", self.name(i), self.trouble());
                self.pump()?;
                return Err(if late { Outcome::Late(t) } else { Outcome::Fail(t) });
            }
        }
        Ok(())
    }
    pub fn send_p(&mut self, i: usize, p: &CPacket, cuts: &[usize]) -> R<()> {
        let b = p.encode();
        self.send(i, &b, cuts)
    }
    pub fn next_ctl(&mut self, i: usize, what: &str) -> R<RPacket> {
        let w = format!("{what} for {}", self.conns[i].name);
        let mut ended = false;
        self.until(&w, |w| {
            ended = w.conns[i].ended.is_some();
            !w.conns[i].ctl.is_empty() || ended
        })?;
        match self.conns[i].ctl.pop_front() {
            Some(p) => Ok(p),
            None => {
                let t = self.trouble();
                fail(format!("{}: connection ended instead of {what}{t}", self.conns[i].name))
            }
        }
    }
    pub fn wait_end(&mut self, i: usize, why: &str) -> R<()> {
        let w = format!("the broker closing the connection of {} ({why})", self.conns[i].name);
        self.until(&w, |w| w.conns[i].ended.is_some() || w.conns[i].cl.is_none())?;
        if let Some(p) = self.conns[i].ctl.front() {
            return fail(format!("{} received {p:?} ({why})", self.conns[i].name));
        }
        self.conns[i].cl = None;
        Ok(())
    }
    /// The model forgets the session of connection i.
    pub fn end_session(&mut self, i: usize) {
        let c = &mut self.conns[i];
        c.open = false;
        c.may_end = true;
        c.filters.clear();
        c.dirty = false;
    }
    pub fn holder(&self, id: &str) -> Option<usize> {
        (0..self.conns.len()).find(|&i| self.conns[i].open && self.conns[i].id.as_deref() == Some(id))
    }

    /// CONNECT that must be accepted, on a dialled connection. `tail` is sent in the same write, behind the CONNECT.
    pub fn connect(&mut self, i: usize, c: &Connect, cuts: &[usize], tail: &[u8]) -> R<()> {
        let mut b = CPacket::Connect(c.clone()).encode();
        b.extend_from_slice(tail);
        let id = c.client_id.s();
        let old = if id.is_empty() { None } else { self.holder(&id) };
        if let Some(o) = old {
            // what the older connection has sent but was not seen processed may go either way
            self.conns[o].may_end = true;
        }
        self.send(i, &b, cuts)?;
        self.accepted(i, &id, c.clean, old)
    }
    pub fn accepted(&mut self, i: usize, id: &str, clean: bool, old: Option<usize>) -> R<()> {
        match self.next_ctl(i, "CONNACK")? {
            RPacket::ConnAck { session_present, code: 0 } => {
                if session_present && clean {
                    return fail(format!("{}: CONNACK of a clean session says session present", self.name(i)));
                }
            }
            p => return fail(format!("{}: {p:?} in answer to a valid CONNECT", self.name(i))),
        }
        if let Some(o) = old {
            self.end_session(o);
        }
        let c = &mut self.conns[i];
        c.open = true;
        c.may_end = false;
        c.id = if id.is_empty() { None } else { Some(id.to_string()) };
        Ok(())
    }

    /// Marks that a filter ending in "/#" against its parent level played a role (known deviation, tolerated).
    fn bounds(&mut self, i: usize, topic: &str) -> (u32, u32) {
        let (mut lo, mut hi) = (0, 0);
        for f in &self.conns[i].filters {
            if matches(f, topic) {
                hi += 1;
                if is_hash_parent(f, topic) {
                    self.hash_parent = true;
                } else {
                    lo = 1;
                }
            }
        }
        (lo, hi)
    }
    /// Registers a message and who must receive it; returns its number and packet.
    pub fn message(&mut self, from: usize, topic: &str, size: usize, lost: bool) -> (u32, Publish) {
        let m = self.msgs.len() as u32;
        let mut payload = format!("m{m}.").into_bytes();
        if size > payload.len() {
            payload.extend_from_slice(&Blob::Gen { len: size - payload.len(), seed: m as u64 + 1 }.bytes());
        }
        self.register(from, topic, payload.clone(), lost);
        (m, Publish { topic: Txt::lit(topic), payload: Blob::Lit(payload), qos: 0, retain: false, dup: false, pid: 0 })
    }
    /// `lost`: must not reach anybody
    pub fn register(&mut self, from: usize, topic: &str, payload: Vec<u8>, lost: bool) -> u32 {
        let m = self.msgs.len() as u32;
        self.by_payload.insert(payload.clone(), m);
        self.msgs.push(Msg { topic: topic.to_string(), payload, from });
        if !lost {
            for i in 0..self.conns.len() {
                if self.conns[i].open {
                    let b = self.bounds(i, topic);
                    if b.1 > 0 {
                        self.conns[i].expect.insert(m, b);
                    } else {
                        self.kept_out += 1;
                    }
                }
            }
            self.conns[from].dirty = true;
        }
        m
    }
    /// Publishes on an open connection.
    pub fn publish(&mut self, i: usize, topic: &str, size: usize, qos: u8, retain: bool, cuts: &[usize]) -> R<u32> {
        let (m, mut p) = self.message(i, topic, size, false);
        p.qos = qos;
        p.retain = retain;
        p.pid = if qos > 0 { (m as u16).max(1) } else { 0 };
        self.send_p(i, &CPacket::Publish(p), cuts)?;
        Ok(m)
    }
    fn arrived(&self) -> bool {
        self.conns.iter().filter(|c| c.open).all(|c| c.expect.iter().rev().all(|(m, (lo, _))| c.counts.get(m).copied().unwrap_or(0) >= *lo))
    }
    pub fn wait_deliveries(&mut self) -> R<()> {
        let r = self.until("deliveries", |w| w.arrived());
        let more = |w: &World, t: String| {
            for c in &w.conns {
                if c.open {
                    if let Some((m, _)) = c.expect.iter().find(|(m, (lo, _))| c.counts.get(m).copied().unwrap_or(0) < *lo) {
                        let msg = &w.msgs[*m as usize];
                        return format!(
                            "{} did not receive message {m} (topic {}, {} bytes, published by {}); it holds {:?}; {t}",
                            c.name, brief(&msg.topic), msg.payload.len(), w.conns[msg.from].name, c.filters.iter().map(|f| brief(f)).collect::<Vec<_>>()
                        );
                    }
                }
            }
            t
        };
        match r {
            Err(Outcome::Late(t)) => Err(Outcome::Late(more(self, t))),
            Err(Outcome::Fail(t)) if t.starts_with("deliveries: ") => Err(Outcome::Fail(more(self, t))),
            r => r,
        }
    }
    pub fn ping(&mut self, i: usize) -> R<()> {
        self.send(i, &[0xC0, 0], &[])?;
        match self.next_ctl(i, "PINGRESP")? {
            RPacket::PingResp => Ok(()),
            p => fail(format!("{}: {p:?} instead of PINGRESP", self.name(i))),
        }
    }
    /// Everything published so far has been processed and has arrived.
    pub fn flush(&mut self) -> R<()> {
        for i in 0..self.conns.len() {
            if self.conns[i].open && self.conns[i].dirty {
                self.ping(i)?;
            }
            self.conns[i].dirty = false;
        }
        self.wait_deliveries()
    }
    pub fn subscribe(&mut self, i: usize, pid: u16, filters: &[(Txt, u8)], cuts: &[usize]) -> R<()> {
        self.flush()?;
        self.send_p(i, &CPacket::Subscribe { pid, filters: filters.to_vec() }, cuts)?;
        self.suback(i, pid, filters)
    }
    pub fn suback(&mut self, i: usize, pid: u16, filters: &[(Txt, u8)]) -> R<()> {
        match self.next_ctl(i, "SUBACK")? {
            RPacket::SubAck { pid: p, codes } => {
                if p != pid || codes.len() != filters.len() {
                    return fail(format!("{}: SUBACK with packet id {p} and {} codes for SUBSCRIBE {pid} with {} filters", self.name(i), codes.len(), filters.len()));
                }
                for ((f, _), c) in filters.iter().zip(&codes) {
                    let f = f.s();
                    let want = if valid_filter(&f) { 0 } else { 0x80 };
                    if *c != want {
                        return fail(format!("{}: SUBACK code {c:#x} for filter {} in {filters:?} ({codes:?}), expected {want:#x}", self.name(i), brief(&f)));
                    }
                    if want == 0 && !self.conns[i].filters.contains(&f) {
                        self.conns[i].filters.push(f);
                    }
                }
                Ok(())
            }
            p => fail(format!("{}: {p:?} instead of SUBACK {pid}", self.name(i))),
        }
    }
    pub fn unsubscribe(&mut self, i: usize, pid: u16, filters: &[Txt], cuts: &[usize]) -> R<()> {
        self.flush()?;
        self.send_p(i, &CPacket::Unsubscribe { pid, filters: filters.to_vec() }, cuts)?;
        self.unsuback(i, pid, filters)
    }
    pub fn unsuback(&mut self, i: usize, pid: u16, filters: &[Txt]) -> R<()> {
        match self.next_ctl(i, "UNSUBACK")? {
            RPacket::UnsubAck(p) if p == pid => {
                let fs: Vec<String> = filters.iter().map(|f| f.s()).collect();
                self.conns[i].filters.retain(|f| !fs.contains(f));
                Ok(())
            }
            p => fail(format!("{}: {p:?} instead of UNSUBACK {pid}", self.name(i))),
        }
    }
    /// Sends DISCONNECT (with `tail` behind it in the same write) and waits for the broker to close.
    pub fn disconnect(&mut self, i: usize, tail: &[u8]) -> R<()> {
        self.conns[i].may_end = true;
        let mut b = vec![0xE0, 0];
        b.extend_from_slice(tail);
        self.send(i, &b, &[])?;
        self.wait_end(i, "after DISCONNECT")?;
        self.end_session(i);
        self.wait_deliveries()
    }
    /// Final check: everything expected has arrived and nothing else does.
    pub fn finish(&mut self) -> R<()> {
        self.flush()?;
        for _ in 0..2 {
            for i in 0..self.conns.len() {
                if self.conns[i].open {
                    self.ping(i)?;
                }
            }
        }
        self.pump()?;
        for c in &self.conns {
            if let Some(p) = c.ctl.front() {
                return fail(format!("{} received {p:?}, which answers nothing", c.name));
            }
        }
        if let Some(s) = self.broker.dead() {
            return fail(format!("the broker process ended ({s}): {}", self.broker.stderr()));
        }
        Ok(())
    }
    /// Waits until the broker holds exactly one socket per connection the harness has open.
    pub fn settle_sockets(&mut self) -> R<()> {
        let mut end = Instant::now() + self.patience;
        let mut strikes = 0;
        let mut nap = 1;
        loop {
            self.pump()?;
            let want = self.conns.iter().filter(|c| c.cl.is_some() && c.ended.is_none()).count();
            let Some(have) = self.tcp_conns() else { return Err(Outcome::Broken("cannot read /proc of the broker".into())) };
            if have == want {
                return Ok(());
            }
            if Instant::now() > end {
                let t = self.trouble();
                self.overdue(&mut strikes, &format!("the broker holds {have} connections while {want} are open{t}"))?;
                end = Instant::now() + self.patience;
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap * 2).min(200);
        }
    }
    /// TCP connections (not listeners) the broker process has open descriptors for
    pub fn tcp_conns(&self) -> Option<usize> {
        let mut inodes = std::collections::HashSet::new();
        for f in ["net/tcp", "net/tcp6"] {
            let Ok(s) = std::fs::read_to_string(format!("/proc/{}/{f}", self.broker.child.id())) else { continue };
            for l in s.lines().skip(1) {
                let w: Vec<&str> = l.split_whitespace().collect();
                if w.len() > 9 && w[3] != "0A" && w[9] != "0" {
                    inodes.insert(w[9].to_string());
                }
            }
        }
        let mut n = 0;
        for e in std::fs::read_dir(format!("/proc/{}/fd", self.broker.child.id())).ok()? {
            if let Ok(t) = std::fs::read_link(e.ok()?.path()) {
                let t = t.to_string_lossy().into_owned();
                if let Some(i) = t.strip_prefix("socket:[").and_then(|s| s.strip_suffix(']')) {
                    if inodes.contains(i) {
                        n += 1;
                    }
                }
            }
        }
        Some(n)
    }
}

pub fn plain_connect(id: &str) -> Connect {
    Connect { level: 4, client_id: Txt::lit(id), keep_alive: 0, clean: true, will: None, user: None, pass: None }
}
pub fn to_outcome(r: R<()>) -> Outcome {
    match r {
        Ok(()) => Outcome::Pass,
        // the port was taken by somebody else between choosing and using it: counts only if it repeats
        Err(Outcome::Fail(t)) if t.contains("AddrInUse") => Outcome::Late(t),
        Err(o) => o,
    }
}
