//! C07: several publishers and subscribers at once; order, completeness, no repetition, intact frames.
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicBool, Ordering};
use std::time::{Duration, Instant};
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pubr {
    n: u32,
    /// payload sizes, cyclic
    sizes: Vec<u32>,
    cuts: Vec<usize>,
    qos: u8,
    /// packets written together
    batch: u8,
    /// how many of its own topics it cycles through
    topics: u8,
    /// also subscribes
    also_sub: Option<u8>,
    /// leaves with DISCONNECT when done
    leaves: bool,
    /// sends every message so many times in a row
    #[serde(default)]
    rep: u8,
}
impl Pubr {
    /// which message the m-th one is a repetition of
    fn same_as(&self, m: u32) -> u32 {
        m - m % self.rep.max(1) as u32
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Subr {
    kind: u8,
    rcvbuf: Option<usize>,
    slow: u16,
    /// pings while receiving
    pings: bool,
    /// after so many bytes it reads nothing for so many milliseconds
    #[serde(default)]
    pauses: Vec<(u64, u64)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pubs: Vec<Pubr>,
    subs: Vec<Subr>,
    /// clients that connect, subscribe to everything and leave (0: DISCONNECT, 1: close, 2: reset) meanwhile
    churn: Vec<u8>,
    listeners: u8,
}

fn topic(p: usize, m: u32, topics: u8) -> String {
    format!("pub/{p}/{}", m % topics.max(1) as u32)
}
fn payload(p: usize, m: u32, size: u32) -> Vec<u8> {
    let mut b = format!("{p}.{m}.").into_bytes();
    let n = (size as usize).max(b.len());
    b.extend(Blob::Gen { len: n - b.len(), seed: (p as u64) << 32 | m as u64 }.bytes());
    b
}
/// which publishers a kind of subscriber hears
fn filter(kind: u8, pubs: usize) -> (String, Option<usize>) {
    match kind % 4 {
        0 => ("#".into(), None),
        1 => ("pub/+/+".into(), None),
        2 => {
            let p = (kind / 4) as usize % pubs;
            (format!("pub/{p}/+"), Some(p))
        }
        _ => {
            let p = (kind / 4) as usize % pubs;
            (format!("+/{p}/#"), Some(p))
        }
    }
}

fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    crate::broker::only(crate::broker::Disturb::NoLogs);
    let nl = c.listeners.clamp(1, 3) as usize;
    let mut w = World::start(nl, &[], patience)?;
    w.record = true;
    let np = c.pubs.len();
    let mut hears: Vec<(usize, Option<usize>)> = vec![]; // connection, publisher or all
    for (k, s) in c.subs.iter().enumerate() {
        let a = w.broker.addrs[k % nl].clone();
        let cl = crate::client::Client::open_with(&a, &w.bell, patience, s.rcvbuf, s.slow as u64, s.pauses.clone()).map_err(Outcome::Late)?;
        let i = w.adopt(cl, format!("subscriber {k}"));
        w.connect(i, &plain_connect(&format!("s{k}")), &[], &[])?;
        let (f, p) = filter(s.kind, np);
        w.subscribe(i, 1, &[(Txt::lit(&f), 0)], &[])?;
        hears.push((i, p));
    }
    let mut pubs = vec![];
    for (k, p) in c.pubs.iter().enumerate() {
        let i = w.dial(k + 1, format!("publisher {k}"))?;
        w.connect(i, &plain_connect(&format!("p{k}")), &[], &[])?;
        if let Some(kind) = p.also_sub {
            let (f, h) = filter(kind, np);
            w.subscribe(i, 1, &[(Txt::lit(&f), 0)], &[])?;
            if !p.leaves {
                hears.push((i, h));
            }
        }
        if p.leaves {
            w.conns[i].may_end = true;
        }
        pubs.push(i);
    }
    // publish from one thread per publisher
    let stop = AtomicBool::new(false);
    let r: R<()> = std::thread::scope(|sc| {
        let mut hs = vec![];
        for (k, p) in c.pubs.iter().enumerate() {
            let mut sock = w.conns[pubs[k]].cl.as_ref().unwrap().sock.try_clone().map_err(|e| Outcome::Broken(e.to_string()))?;
            hs.push(sc.spawn(move || -> Result<(), String> {
                use std::io::Write;
                let mut out = vec![];
                let mut k2 = 0usize;
                for m in 0..p.n {
                    let a = p.same_as(m);
                    let size = if p.sizes.is_empty() { 0 } else { p.sizes[a as usize % p.sizes.len()] };
                    let q = Publish { topic: Txt::Lit(topic(k, a, p.topics)), payload: Blob::Lit(payload(k, a, size)), qos: p.qos % 3, retain: false, dup: false, pid: if p.qos % 3 > 0 { (m % 65535 + 1) as u16 } else { 0 } };
                    out.extend(enc_publish(&q));
                    if (m + 1) % p.batch.max(1) as u32 == 0 || m + 1 == p.n {
                        if m + 1 == p.n && p.leaves {
                            out.extend([0xE0, 0]);
                        }
                        let mut at = 0;
                        while at < out.len() {
                            let c = if p.cuts.is_empty() { 0 } else { p.cuts[k2 % p.cuts.len()] };
                            k2 += 1;
                            // many tiny writes cost time; cut finely only at the beginning
                            let n = if c == 0 || k2 > 400 { out.len() - at } else { c.min(out.len() - at) };
                            sock.write_all(&out[at..at + n]).map_err(|e| format!("publisher {k} cannot send: {e}"))?;
                            at += n;
                        }
                        out.clear();
                    }
                }
                Ok(())
            }));
        }
        let (stop, churn, addr) = (&stop, &c.churn, w.broker.addrs[0].clone());
        let ch = sc.spawn(move || {
            use std::io::{Read, Write};
            let mut n = 0;
            for (k, how) in churn.iter().cycle().take(churn.len() * 20).enumerate() {
                if stop.load(Ordering::Relaxed) {
                    break;
                }
                let Ok(mut s) = std::net::TcpStream::connect(&addr) else { continue };
                let mut b = CPacket::Connect(plain_connect(&format!("churn-{}", k % 3))).encode();
                b.extend(CPacket::Subscribe { pid: 9, filters: vec![(Txt::lit("#"), 0)] }.encode());
                let _ = s.write_all(&b);
                let _ = s.set_read_timeout(Some(Duration::from_millis(500)));
                let mut buf = [0u8; 9];
                let _ = s.read(&mut buf);
                match how % 3 {
                    0 => {
                        let _ = s.write_all(&[0xE0, 0]);
                    }
                    1 => {}
                    _ => {
                        let _ = socket2::SockRef::from(&s).set_linger(Some(Duration::ZERO));
                    }
                }
                n += 1;
            }
            n
        });
        // progress is what counts: the patience starts again with every packet received
        let want = |p: Option<usize>| -> usize { c.pubs.iter().enumerate().filter(|(k, _)| p.is_none() || p == Some(*k)).map(|(_, p)| p.n as usize).sum() };
        let mut last = 0;
        let mut at = Instant::now();
        let mut pinged = 0u32;
        let mut strikes = 0;
        let mut res: R<()> = Ok(());
        loop {
            let seen = w.bell.now();
            if let Err(o) = w.pump() {
                res = Err(o);
                break;
            }
            let sum: usize = hears.iter().map(|(i, _)| w.conns[*i].got.len()).sum();
            let bytes: u64 = w.conns.iter().filter_map(|c| c.cl.as_ref()).map(|c| c.inbox.lock().unwrap().bytes).sum();
            if hears.iter().all(|(i, p)| w.conns[*i].got.len() >= want(*p)) {
                break;
            }
            if bytes as usize + sum != last {
                last = bytes as usize + sum;
                at = Instant::now();
                strikes = 0;
                for (k, s) in c.subs.iter().enumerate() {
                    if s.pings && pinged < 20 {
                        if let Err(o) = w.send(hears[k].0, &[0xC0, 0], &[]) {
                            res = Err(o);
                        }
                        pinged += 1;
                    }
                }
            }
            if let Some(s) = w.broker.dead() {
                res = fail(format!("the broker process ended ({s}): {}", w.broker.stderr()));
                break;
            }
            if at.elapsed() > patience {
                let k = hears.iter().position(|(i, p)| w.conns[*i].got.len() < want(*p)).unwrap();
                let (i, p) = hears[k];
                let t = format!("{} received {} of {} messages and nothing more for {patience:?}; broker says: {}", w.name(i), w.conns[i].got.len(), want(p), w.broker.stderr());
                if let Err(o) = w.overdue(&mut strikes, &t) {
                    res = Err(o);
                    break;
                }
                at = Instant::now();
            }
            w.bell.wait(seen, Instant::now() + Duration::from_millis(100));
        }
        stop.store(true, Ordering::Relaxed);
        if res.is_err() {
            // unblock the publishers
            for i in &pubs {
                if let Some(cl) = &w.conns[*i].cl {
                    let _ = cl.sock.shutdown(std::net::Shutdown::Both);
                }
            }
        }
        for h in hs {
            if let Err(e) = h.join().unwrap() {
                if res.is_ok() {
                    res = Err(Outcome::Late(e));
                }
            }
        }
        let n = ch.join().unwrap();
        obs.tag_if(n > 0, "clients came and went meanwhile");
        res?;
        for i in &pubs {
            if w.conns[*i].may_end {
                w.wait_end(*i, "after DISCONNECT")?;
                w.end_session(*i);
            }
        }
        Ok(())
    });
    r?;
    // pings sent meanwhile must all have been answered
    for (k, (i, _)) in hears.iter().enumerate() {
        while let Some(p) = w.conns[*i].ctl.pop_front() {
            if p != RPacket::PingResp || k >= c.subs.len() || !c.subs[k].pings {
                return fail(format!("{} received {p:?}", w.name(*i)));
            }
        }
    }
    for (i, _) in &hears {
        // answers to outstanding pings come first
        w.send(*i, &CPacket::Subscribe { pid: 77, filters: vec![(Txt::lit("end"), 0)] }.encode(), &[])?;
        loop {
            match w.next_ctl(*i, "SUBACK")? {
                RPacket::PingResp => {}
                RPacket::SubAck { pid: 77, .. } => break,
                p => return fail(format!("{} received {p:?}", w.name(*i))),
            }
        }
    }
    for (i, p) in &hears {
        let mut next = vec![0u32; np];
        for (n, g) in w.conns[*i].got.iter().enumerate() {
            let RPacket::Publish { topic: t, payload: b, qos, retain, dup, pid } = g else { return fail("?") };
            let head: Vec<&str> = std::str::from_utf8(&b[..b.len().min(16)]).map(|s| s.split('.').collect()).unwrap_or_else(|e| std::str::from_utf8(&b[..e.valid_up_to()]).unwrap().split('.').collect());
            let (Some(k), Some(m)) = (head.first().and_then(|x| x.parse::<usize>().ok()), head.get(1).and_then(|x| x.parse::<u32>().ok())) else {
                return fail(format!("{}: message {n} is not one that was published: {}", w.name(*i), g.brief()));
            };
            if k >= np || m >= c.pubs[k].n || (p.is_some() && *p != Some(k)) {
                return fail(format!("{}: message {n} was not for it: {}", w.name(*i), g.brief()));
            }
            let q = &c.pubs[k];
            if m != q.same_as(next[k]) {
                return fail(format!("{}: message {m} of publisher {k} where message {} (number {}, each sent {} times) was due", w.name(*i), q.same_as(next[k]), next[k], q.rep.max(1)));
            }
            next[k] += 1;
            let size = if q.sizes.is_empty() { 0 } else { q.sizes[m as usize % q.sizes.len()] };
            if *t != topic(k, m, q.topics) || *b != payload(k, m, size) || *qos != 0 || *retain || *dup || pid.is_some() {
                return fail(format!("{}: message {m} of publisher {k} is not intact: {}", w.name(*i), g.brief()));
            }
        }
        for (k, n) in next.iter().enumerate() {
            if (p.is_none() || *p == Some(k)) && *n != c.pubs[k].n {
                return fail(format!("{}: {n} of {} messages of publisher {k}", w.name(*i), c.pubs[k].n));
            }
        }
    }
    w.finish()?;
    obs.nontrivial = c.pubs.len() > 1 && c.pubs.iter().filter(|p| p.n > 1).count() > 1 && hears.len() > 1;
    obs.tag_if(c.subs.iter().any(|s| s.slow > 0), "slow subscriber");
    obs.tag_if(c.subs.iter().any(|s| !s.pauses.is_empty()), "subscriber stops reading for a while");
    obs.tag_if(c.pubs.iter().any(|p| p.sizes.iter().any(|s| *s > 4096)), "messages above 4096 bytes");
    obs.tag_if(c.pubs.iter().any(|p| p.leaves), "publisher leaves at once");
    obs.tag_if(c.pubs.iter().any(|p| p.also_sub.is_some()), "publisher also subscribes");
    obs.tag_if(c.pubs.iter().any(|p| p.rep > 1 && p.n > 1), "the same message several times in a row");
    obs.tag_if(c.pubs.iter().any(|p| p.n > 65536), "more than 65536 messages of one publisher");
    obs.tag_if(c.pubs.iter().any(|p| p.n > 200), "more than 200 messages of one publisher");
    Ok(())
}
fn gen_case(t: Tier) -> BoxedStrategy<Case> {
    let n = if t == Tier::Thorough { 2000u32 } else { 600 };
    let size = prop_oneof![6 => 0u32..60, 2 => 60u32..4000, 2 => 4000u32..9000, 1 => 9000u32..70_000];
    let p = (prop_oneof![2 => 1u32..30, 3 => 30u32..200, 1 => 200..n], vec(size, 1..6), gen::cuts(), 0u8..3, prop_oneof![1u8..4, 1u8..60], 1u8..4, prop::option::weighted(0.25, any::<u8>()), prop::bool::weighted(0.25), prop_oneof![3 => Just(1u8), 1 => 2u8..5])
        .prop_map(|(n, sizes, cuts, qos, batch, topics, also_sub, leaves, rep)| {
            let avg: u64 = sizes.iter().map(|s| *s as u64).sum::<u64>() / sizes.len() as u64 + 20;
            // at most 3 MB per publisher
            let n = (n as u64).min(3_000_000 / avg).max(1) as u32;
            Pubr { n, sizes, cuts, qos, batch, topics, also_sub, leaves, rep }
        });
    let s = (any::<u8>(), prop_oneof![3 => Just(None), 1 => (2000usize..30000).prop_map(Some)], prop_oneof![5 => Just(0u16), 1 => 1u16..100], prop::bool::weighted(0.2))
        .prop_map(|(kind, rcvbuf, slow, pings)| Subr { kind, rcvbuf, slow, pings, pauses: vec![] });
    // one subscriber stops reading while more is on its way to it than the buffers on the way hold
    let held = (1u16..4, 3000u32..30_000, vec((0u64..400_000, 50u64..2500), 1..4), 2000usize..30_000, any::<u8>());
    // more messages than counters of 16 bits hold
    let long = 65_540u32..70_000;
    (vec(p, 1..5), vec(s, 1..5), vec(any::<u8>(), 0..4), 1u8..4, prop::option::weighted(0.12, held), prop::option::weighted(0.01, long))
        .prop_map(|(mut pubs, mut subs, mut churn, listeners, held, long)| {
            if let Some((n, size, mut pauses, rcvbuf, kind)) = held {
                pauses.sort();
                pauses[0].1 = pauses[0].1.max(500);
                subs[0] = Subr { kind: kind % 2, rcvbuf: Some(rcvbuf), slow: 0, pings: kind & 2 > 0, pauses };
                pubs[0].sizes = vec![size];
                pubs[0].n = n as u32 * 1_500_000 / size + 1;
            }
            if let Some(n) = long {
                pubs.truncate(2);
                subs.truncate(2);
                churn.clear();
                for p in pubs.iter_mut() {
                    p.n = p.n.min(30);
                }
                let p = &mut pubs[0];
                p.n = n;
                p.sizes = vec![8];
                p.cuts.clear();
                p.batch = p.batch.max(40);
            }
            let total: u64 = pubs.iter().map(|p| p.n as u64 * (p.sizes.iter().map(|s| *s as u64).sum::<u64>() / p.sizes.len() as u64 + 20)).sum();
            if total > 200_000 {
                for s in subs.iter_mut() {
                    s.slow = 0;
                }
            }
            Case { pubs, subs, churn, listeners }
        })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C07").or_default().push(Box::new(Section {
        name: "flow",
        rule: "1-4 publishers writing at the same time (1-600 messages each, in one case of a hundred more than 65540; sizes up to 70 kB, any segmentation and batching, some send every message several times) and 1-4 subscribers (some slow, with tiny buffers, pinging meanwhile, or reading nothing for up to 2.5 s while megabytes are on their way) on 1-3 listeners, while other clients connect, subscribe to everything and leave; every subscriber's sequence is compared with what each publisher sent. Non-trivial: at least two publishers with two messages and two receivers.",
        cases: (500, 8000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
