//! C16: what has ended leaves nothing behind: sockets, descriptors and memory return to their level.
use crate::broker::*;
use crate::world::{fail, to_outcome, R};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::net::TcpStream;
use std::time::{Duration, Instant};
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum End {
    Disconnect,
    Close,
    Rst,
    Malformed,
    SecondConnect,
    HalfPublish,
    HalfClose,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    /// connect, subscribe, leave; `wait`: for the answers before leaving
    Session { id: u16, empty: bool, filter: u16, deep: bool, n: u8, unsub: bool, publish: bool, wait: bool, end: End },
    /// on a connection that stays: subscribe to and unsubscribe from new filters
    SubUnsub { filter: u16, deep: bool, wild: bool, n: u8 },
    /// on a connection that stays: new filters the broker must reject
    Invalid { filter: u16 },
    /// the same filter over and over
    Again { filter: u16 },
    /// unsubscribe from filters nobody holds
    UnsubUnknown { filter: u16, deep: bool },
    /// messages to new topics; `heard`: somebody is subscribed to all of them
    Publish { topic: u16, deep: bool, payload: u16, qos: u8, retain: bool },
    /// the same id connects again, the older connection is left alone
    TakeOver { filter: u16 },
    /// wrong password
    Refused { user: u16, wait: bool },
    /// no CONNECT: 0 nothing, 1 garbage, 2 half a CONNECT with a long id, 3 a PUBLISH, 4 a huge length announced and little sent
    NoSession { what: u8, size: u16, rst: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kinds: Vec<Kind>,
    /// connections at the same time
    wide: u8,
    heard: bool,
    /// clients whose connection the broker has ended leave their own end of it open
    #[serde(default)]
    linger: bool,
}
struct Link {
    s: TcpStream,
    buf: Vec<u8>,
    answers: usize,
}
impl Link {
    fn open(addr: &str, patience: Duration) -> R<Link> {
        let s = TcpStream::connect_timeout(&addr.parse().unwrap(), patience).map_err(|e| Outcome::Late(format!("cannot connect: {e}")))?;
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(patience));
        let _ = s.set_write_timeout(Some(patience));
        Ok(Link { s, buf: vec![], answers: 0 })
    }
    /// reads until n answers (not PUBLISH) are there; false: the connection ended
    fn answers(&mut self, n: usize) -> R<bool> {
        let mut chunk = [0u8; 16384];
        loop {
            let mut at = 0;
            while let Ok(Some((first, _, e))) = split_frame(&self.buf[at..]) {
                if first >> 4 != 3 {
                    self.answers += 1;
                }
                at += e;
            }
            self.buf.drain(..at);
            if self.answers >= n {
                self.answers -= n;
                return Ok(true);
            }
            match self.s.read(&mut chunk) {
                Ok(0) => return Ok(false),
                Ok(k) => self.buf.extend_from_slice(&chunk[..k]),
                Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Err(Outcome::Late("no answer".into())),
                Err(_) => return Ok(false),
            }
        }
    }
    fn ended(&mut self) -> R<()> {
        while self.answers(1)? {}
        Ok(())
    }
    fn rst(&self) {
        let _ = socket2::SockRef::from(&self.s).set_linger(Some(Duration::ZERO));
    }
}
fn name(head: &str, n: u64, len: usize, deep: bool) -> String {
    let mut s = format!("{head}{n:x}/");
    while s.len() < len {
        s.push_str(if deep { "q/" } else { "qqqqqqqqqqqqqqqq" });
    }
    s.pop();
    s
}
struct Env<'a> {
    b: &'a Broker,
    stay: Vec<Link>,
    n: u64,
    patience: Duration,
    heard: bool,
    linger: Option<VecDeque<Link>>,
}
impl Env<'_> {
    /// a connection the broker has ended: its descriptor has to go even if the client does not close its end
    fn over(&mut self, l: Link) {
        if let Some(v) = &mut self.linger {
            v.push_back(l);
            if v.len() > 100 {
                v.pop_front();
            }
        }
    }
    fn addr(&self) -> String {
        self.b.addrs[self.n as usize % self.b.addrs.len()].clone()
    }
    fn turn(&mut self, k: &Kind, wide: usize) -> R<()> {
        let put = |l: &mut Link, b: &[u8]| {
            let _ = l.s.write_all(b);
        };
        match k {
            Kind::Session { id, empty, filter, deep, n, unsub, publish, wait, end } => {
                let mut ls = vec![];
                for _ in 0..wide {
                    self.n += 1;
                    let mut l = Link::open(&self.addr(), self.patience)?;
                    let idl = if *empty { String::new() } else { name("id", self.n, *id as usize, false) };
                    let mut b = CPacket::Connect(plain_connect2(&idl, self.n)).encode();
                    let fs: Vec<(Txt, u8)> = (0..*n as u64 % 4 + 1).map(|j| (Txt::Lit(name("f", self.n * 8 + j, *filter as usize, *deep)), 0)).collect();
                    b.extend(CPacket::Subscribe { pid: 1, filters: fs.clone() }.encode());
                    let mut ans = 2;
                    if *publish {
                        let p = Publish { topic: fs[0].0.clone(), payload: Blob::Lit(vec![7; 100]), qos: 0, retain: false, dup: false, pid: 0 };
                        b.extend(CPacket::Publish(p).encode());
                    }
                    if *unsub {
                        b.extend(CPacket::Unsubscribe { pid: 2, filters: fs.iter().map(|f| f.0.clone()).collect() }.encode());
                        ans += 1;
                    }
                    put(&mut l, &b);
                    ls.push((l, ans));
                }
                for (mut l, ans) in ls {
                    if *wait && !l.answers(ans)? {
                        return fail("the broker ended a connection instead of answering its requests");
                    }
                    match end {
                        End::Disconnect => put(&mut l, &[0xE0, 0]),
                        End::Close => continue,
                        End::Rst => {
                            l.rst();
                            continue;
                        }
                        End::Malformed => put(&mut l, &[0x36, 3, 0, 1, b'a']),
                        End::SecondConnect => put(&mut l, &CPacket::Connect(plain_connect2("second", 0)).encode()),
                        End::HalfPublish => {
                            put(&mut l, &[0x30, 0xa0, 0x1f, 0, 1, b'a', 0, 0, 0]);
                            let _ = l.s.shutdown(std::net::Shutdown::Write);
                        }
                        End::HalfClose => {
                            let _ = l.s.shutdown(std::net::Shutdown::Write);
                        }
                    }
                    l.ended()?;
                    self.over(l);
                }
            }
            Kind::SubUnsub { filter, deep, wild, n } => {
                self.n += 1;
                let w = self.n as usize % 2;
                let fs: Vec<Txt> = (0..*n as u64 % 6 + 1)
                    .map(|j| {
                        let s = name("s", self.n * 8 + j, *filter as usize, *deep);
                        Txt::Lit(if *wild { format!("{s}/+/#") } else { s })
                    })
                    .collect();
                let mut b = CPacket::Subscribe { pid: 1, filters: fs.iter().map(|f| (f.clone(), 1)).collect() }.encode();
                b.extend(CPacket::Unsubscribe { pid: 2, filters: fs }.encode());
                put(&mut self.stay[w], &b);
                self.need(w, 2)?;
            }
            Kind::Invalid { filter } => {
                self.n += 1;
                let f = name("s", self.n, *filter as usize, self.n % 2 == 0);
                put(&mut self.stay[0], &CPacket::Subscribe { pid: 1, filters: vec![(Txt::Lit(format!("{f}/#/x")), 0), (Txt::Lit(format!("{f}+")), 0)] }.encode());
                self.need(0, 1)?;
            }
            Kind::Again { filter } => {
                self.n += 1;
                let f = name("again", 0, *filter as usize, false);
                put(&mut self.stay[0], &CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit(&f), 0), (Txt::lit(&f), 2)] }.encode());
                self.need(0, 1)?;
            }
            Kind::UnsubUnknown { filter, deep } => {
                self.n += 1;
                let f = name("u", self.n, *filter as usize, *deep);
                put(&mut self.stay[1], &CPacket::Unsubscribe { pid: 1, filters: vec![Txt::lit(&f), Txt::Lit(format!("{f}/#"))] }.encode());
                self.need(1, 1)?;
            }
            Kind::Publish { topic, deep, payload, qos, retain } => {
                let mut b = vec![];
                for _ in 0..4 {
                    self.n += 1;
                    let t = name(if self.heard { "heard/" } else { "p" }, self.n, *topic as usize, *deep);
                    let p = Publish { topic: Txt::Lit(t), payload: Blob::Gen { len: *payload as usize, seed: self.n }, qos: *qos % 3, retain: *retain, dup: false, pid: if *qos % 3 > 0 { 5 } else { 0 } };
                    b.extend(CPacket::Publish(p).encode());
                }
                b.extend([0xC0, 0]);
                put(&mut self.stay[1], &b);
                // acknowledgements of the publishes, if there are any, are read with the next answers
                self.need(1, 1)?;
                if self.heard {
                    put(&mut self.stay[0], &[0xC0, 0]);
                    self.need(0, 1)?;
                }
            }
            Kind::TakeOver { filter } => {
                let mut ls: Vec<Link> = vec![];
                for _ in 0..wide.max(2) {
                    self.n += 1;
                    let mut l = Link::open(&self.addr(), self.patience)?;
                    let mut b = CPacket::Connect(plain_connect2("taken over", self.n)).encode();
                    b.extend(CPacket::Subscribe { pid: 1, filters: vec![(Txt::Lit(name("t", self.n, *filter as usize, false)), 0)] }.encode());
                    put(&mut l, &b);
                    if !l.answers(2)? {
                        return fail("the broker ended a connection instead of answering its requests");
                    }
                    if let Some(mut o) = ls.pop() {
                        o.ended()?;
                        self.over(o);
                    }
                    ls.push(l);
                }
            }
            Kind::Refused { user, wait } => {
                let mut ls = vec![];
                for _ in 0..wide {
                    self.n += 1;
                    let mut l = Link::open(&self.addr(), self.patience)?;
                    let mut c = plain_connect2(&name("id", self.n, *user as usize, false), self.n);
                    c.user = Some(Txt::Lit(if self.n % 2 == 0 { "alice".into() } else { name("user", self.n, *user as usize, false) }));
                    c.pass = Some(Txt::Lit(name("pass", self.n, *user as usize, false)));
                    put(&mut l, &CPacket::Connect(c).encode());
                    ls.push(l);
                }
                for mut l in ls {
                    if *wait {
                        l.ended()?;
                        self.over(l);
                    }
                }
            }
            Kind::NoSession { what, size, rst } => {
                let mut ls = vec![];
                for _ in 0..wide {
                    self.n += 1;
                    let mut l = Link::open(&self.addr(), self.patience)?;
                    let b = match what % 5 {
                        0 => vec![],
                        1 => Blob::Gen { len: *size as usize, seed: self.n }.bytes(),
                        2 => {
                            let mut b = CPacket::Connect(plain_connect2(&name("id", self.n, *size as usize, false), self.n)).encode();
                            b.pop();
                            b
                        }
                        3 => CPacket::Publish(Publish { topic: Txt::Lit(name("x", self.n, *size as usize, false)), payload: Blob::Lit(vec![]), qos: 0, retain: false, dup: false, pid: 0 }).encode(),
                        _ => {
                            let mut b = vec![0x10, 0xff, 0xff, 0xff, 0x7f, 0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 0, 0xff, 0xff];
                            b.extend(Blob::Gen { len: *size as usize, seed: self.n }.bytes());
                            b
                        }
                    };
                    put(&mut l, &b);
                    ls.push(l);
                }
                for mut l in ls {
                    if what % 5 == 3 && !*rst {
                        l.ended()?;
                        self.over(l);
                        continue;
                    }
                    if *rst {
                        l.rst();
                    }
                }
            }
        }
        Ok(())
    }
    /// the two clients that stay
    fn come(&mut self) -> R<()> {
        for k in 0..2 {
            let mut l = Link::open(&self.b.addrs[0], self.patience)?;
            let mut x = CPacket::Connect(crate::world::plain_connect(&format!("stays {k}"))).encode();
            x.extend(CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit(if self.heard && k == 0 { "heard/#" } else { "nothing" }), 0)] }.encode());
            let _ = l.s.write_all(&x);
            if !l.answers(2)? {
                return fail("a client that stays was not served");
            }
            self.stay.push(l);
        }
        Ok(())
    }
    fn leave(&mut self) -> R<()> {
        for mut l in self.stay.drain(..) {
            let _ = l.s.write_all(&[0xE0, 0]);
            l.ended()?;
        }
        Ok(())
    }
    fn need(&mut self, w: usize, n: usize) -> R<()> {
        match self.stay[w].answers(n) {
            Ok(true) => {
                // PUBACK and the like of this turn must not be taken for answers later
                self.stay[w].answers = 0;
                Ok(())
            }
            Ok(false) => fail("the broker ended the connection of a client that stays"),
            Err(o) => Err(o),
        }
    }
}
fn plain_connect2(id: &str, n: u64) -> Connect {
    let mut c = crate::world::plain_connect(id);
    if n % 3 == 1 {
        c.will = Some(Will { topic: Txt::lit("w/ill"), payload: Blob::Gen { len: 1000, seed: n }, qos: 0, retain: false });
    }
    c
}
fn fds(b: &Broker) -> usize {
    std::fs::read_dir(format!("/proc/{}/fd", b.child.id())).map(|d| d.count()).unwrap_or(0)
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    crate::broker::only(crate::broker::Disturb::Count);
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut b = Broker::start(2, &crate::history::users(), patience).map_err(Outcome::Broken)?;
    let r = churn(c, obs, patience, &mut b);
    if let (Err(_), Some(s)) = (&r, b.dead()) {
        return fail(format!("the broker process ended ({s}): {}", b.stderr()));
    }
    r
}
fn churn(c: &Case, obs: &mut Obs, patience: Duration, b: &mut Broker) -> R<()> {
    let mut e = Env { b, stay: vec![], n: 0, patience, heard: c.heard, linger: c.linger.then(VecDeque::new) };
    e.come()?;
    // the broker has let go of everything else: its descriptors are those of now
    let base = {
        let end = Instant::now() + Duration::from_millis(300);
        let mut n = fds(e.b);
        while Instant::now() < end {
            std::thread::sleep(Duration::from_millis(20));
            let m = fds(e.b);
            if m == n {
                break;
            }
            n = m;
        }
        n
    };
    let settle = |e: &Env, base: usize, when: &str| -> R<()> {
        let mut end = Instant::now() + patience;
        let mut strikes = 0;
        let mut nap = 1;
        loop {
            let have = fds(e.b);
            if have <= base {
                return Ok(());
            }
            if Instant::now() > end {
                e.b.strike(&mut strikes, &format!("{when}: the broker holds {have} descriptors, {base} when only the same clients were connected before; {} turns were made", e.n), patience)?;
                end = Instant::now() + patience;
            }
            std::thread::sleep(Duration::from_millis(nap));
            nap = (nap * 2).min(200);
        }
    };
    let wide = c.wide.clamp(1, 24) as usize;
    let phase = |e: &mut Env, when: &str| -> R<()> {
        let n0 = e.n;
        let t0 = Instant::now();
        let mut last = 0;
        // some hundred turns of every kind
        while (e.n - n0) < 500 * c.kinds.len() as u64 && (t0.elapsed() < Duration::from_secs(4) || last == 0) {
            for k in &c.kinds {
                e.turn(k, wide)?;
            }
            last += 1;
        }
        settle(e, base, when)?;
        if let Some(v) = &mut e.linger {
            v.clear();
        }
        Ok(())
    };
    // Stages of 1, 2, 6 and 18 phases that do the same. A leak grows in every one of them, whatever else grows (capacities of
    // tables and buffers) grows now and then.
    let mut log = vec![];
    let mut before: Option<Level> = None;
    let mut grow = [true; 4];
    for (stage, phases) in [1u64, 2, 6, 18].into_iter().enumerate() {
        let mut first = None;
        let n0 = e.n;
        for _ in 0..phases {
            phase(&mut e, "after a phase")?;
            first.get_or_insert(level(&e)?);
        }
        let with = level(&e)?;
        // what the two clients themselves need must not hide anything: measure without them
        e.leave()?;
        settle(&e, base - 2, "after the clients that stayed have left")?;
        let without = level(&e)?;
        e.come()?;
        let (first, turns) = (first.unwrap(), e.n - n0);
        log.push(format!("{turns} turns: {with:?}, without the two clients {without:?}"));
        if let Some(b) = before {
            // phases - 1: the first one of the stage fills the buffers of the two clients
            let n = phases as i64;
            // one and the same measure must grow in every stage: tables that get larger now and then are no leak
            grow[0] &= without.bytes - b.bytes > 2000 * n;
            grow[1] &= without.blocks - b.blocks > 25 * n;
            grow[2] &= with.blocks - first.blocks > 50 * (n - 1);
            grow[3] &= without.rss - b.rss > 700 * n;
            if grow == [false; 4] {
                obs.nontrivial = e.n > 500;
                for (t, f) in [
                    ("sessions", c.kinds.iter().any(|k| matches!(k, Kind::Session { .. }))),
                    ("subscribing and unsubscribing", c.kinds.iter().any(|k| matches!(k, Kind::SubUnsub { .. }))),
                    ("client id taken over", c.kinds.iter().any(|k| matches!(k, Kind::TakeOver { .. }))),
                    ("refused logins", c.kinds.iter().any(|k| matches!(k, Kind::Refused { .. }))),
                    ("connections without a session", c.kinds.iter().any(|k| matches!(k, Kind::NoSession { .. }))),
                    ("clients that keep their end open", c.linger),
                    ("new topics", c.kinds.iter().any(|k| matches!(k, Kind::Publish { .. }))),
                    ("memory needed more than two stages to settle", stage > 1),
                    ("allocations counted", e.b.heap().is_some()),
                ] {
                    obs.tag_if(f, t);
                }
                return Ok(());
            }
        }
        before = Some(without);
    }
    // what is due to chance, does not repeat
    Err(Outcome::Late(format!("memory keeps growing although nothing is left over: {}", log.join("; "))))
}
#[derive(Clone, Copy, Debug)]
struct Level {
    bytes: i64,
    blocks: i64,
    /// kB
    rss: i64,
}
/// What the broker has allocated, once that is steady.
fn level(e: &Env) -> R<Level> {
    let rss = |b: &Broker| b.rss_kb().map(|k| k as i64).ok_or(Outcome::Broken("cannot read the memory of the broker".into()));
    let mut last = e.b.heap();
    if last.is_some() {
        for _ in 0..25 {
            std::thread::sleep(Duration::from_millis(8));
            let h = e.b.heap();
            if h == last {
                break;
            }
            last = h;
        }
    }
    let (bytes, blocks) = last.unwrap_or((0, 0));
    Ok(Level { bytes, blocks, rss: rss(e.b)? })
}
fn gen_case(_t: Tier) -> BoxedStrategy<Case> {
    let len = || prop_oneof![1 => 10u16..100, 3 => 2000u16..9000];
    let end = prop::sample::select(vec![End::Disconnect, End::Close, End::Rst, End::Malformed, End::SecondConnect, End::HalfPublish, End::HalfClose]);
    let k = prop_oneof![
        8 => (len(), prop::bool::weighted(0.3), len(), prop::bool::weighted(0.25), any::<u8>(), prop::bool::weighted(0.2), prop::bool::weighted(0.3), prop::bool::weighted(0.75), end)
            .prop_map(|(id, empty, filter, deep, n, unsub, publish, wait, end)| Kind::Session { id, empty, filter: if deep { filter / 4 } else { filter }, deep, n, unsub, publish, wait, end }),
        3 => (len(), any::<bool>(), any::<bool>(), any::<u8>()).prop_map(|(filter, deep, wild, n)| Kind::SubUnsub { filter: if deep { filter / 4 } else { filter }, deep, wild, n }),
        1 => len().prop_map(|filter| Kind::Invalid { filter }),
        1 => len().prop_map(|filter| Kind::Again { filter }),
        1 => (len(), any::<bool>()).prop_map(|(filter, deep)| Kind::UnsubUnknown { filter: if deep { filter / 4 } else { filter }, deep }),
        2 => (len(), any::<bool>(), 0u16..5000, any::<u8>(), any::<bool>()).prop_map(|(topic, deep, payload, qos, retain)| Kind::Publish { topic: if deep { topic / 4 } else { topic }, deep, payload, qos, retain }),
        2 => len().prop_map(|filter| Kind::TakeOver { filter }),
        2 => (len(), any::<bool>()).prop_map(|(user, wait)| Kind::Refused { user, wait }),
        2 => (any::<u8>(), len(), any::<bool>()).prop_map(|(what, size, rst)| Kind::NoSession { what, size, rst }),
    ];
    (vec(k, 1..3), prop_oneof![2 => 1u8..3, 2 => 3u8..24], prop::bool::weighted(0.3), prop::bool::weighted(0.4)).prop_map(|(kinds, wide, heard, linger)| Case { kinds, wide, heard, linger }).boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C16").or_default().push(Box::new(Section {
        name: "churn",
        rule: "one or two kinds of activity that leaves nothing connected or subscribed (sessions with long ids and filters ended in any way, subscribing and unsubscribing, rejected filters, publishing to new topics, takeovers, refused logins, connections that never get a session), some hundred turns per phase, up to 24 connections at once, two clients staying throughout. After each phase the broker's descriptors must be back at their number. Stages of 1, 2, 6 and 18 phases: what the broker has allocated (bytes and blocks, counted by a preloaded library) and its anonymous memory must stop growing; a failure is more than 2 kB or 25 blocks (700 kB of anonymous memory) per phase in every stage. Non-trivial: more than 500 turns.",
        cases: (80, 1500),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 90,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
