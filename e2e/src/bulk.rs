//! C05, C13, C14: clients that hold very many or very deep filters, and give up some or all of them.
use crate::broker::*;
use crate::crowd::{open, Cl, Got};
use crate::world::{fail, plain_connect, to_outcome, R};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    filters: u16,
    /// filters per packet
    per: u16,
    /// how the filters are made
    form: u8,
    /// levels before what tells them apart
    depth: u16,
    /// 0 UNSUBSCRIBE; 1 DISCONNECT, 2 close, 3 reset, 4 malformed packet, 5 second CONNECT; 6 another connection takes over
    end: u8,
    /// cyclic: which filters are given up (or, after the end of the connection, subscribed again)
    which: Vec<bool>,
    /// somebody else holds the same filters all the time
    other: bool,
}
/// filter and topic
fn pair(c: &Case, i: usize) -> (String, String) {
    let p = "x/".repeat(c.depth as usize);
    match c.form % 6 {
        0 => (format!("{p}{i}"), format!("{p}{i}")),
        1 => (format!("{i}/{p}f"), format!("{i}/{p}f")),
        2 => (format!("{p}{i}/+"), format!("{p}{i}/x")),
        3 => (format!("{p}{i}/#"), format!("{p}{i}/y/z")),
        4 => (format!("{p}{}/{}", i % 50, i / 50), format!("{p}{}/{}", i % 50, i / 50)),
        _ => (format!("+/{p}{i}"), format!("t/{p}{i}")),
    }
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    crate::broker::only(crate::broker::Disturb::NoLogs);
    to_outcome((|| {
        let mut b = Broker::start(1, &[], patience).map_err(Outcome::Late)?;
        let r = go(c, obs, patience, &b);
        if let (Err(_), Some(s)) = (&r, b.dead()) {
            return fail(format!("the broker process ended ({s}): {}", b.stderr()));
        }
        r
    })())
}
fn go(c: &Case, obs: &mut Obs, patience: Duration, b: &Broker) -> R<()> {
    let n = c.filters.max(1) as usize;
    let per = c.per.max(1) as usize;
    let picked = |i: usize| !c.which.is_empty() && c.which[i % c.which.len()];
    let pairs: Vec<(String, String)> = (0..n).map(|i| pair(c, i)).collect();
    let ack = RPacket::ConnAck { session_present: false, code: 0 };
    let join = |id: &str, who: &str| -> R<Cl> {
        let mut cl = Cl { s: open(&b.addrs[0], None, patience)?, buf: vec![], who: who.into(), n: 0, live: true };
        cl.put(&CPacket::Connect(plain_connect(id)).encode());
        cl.want(ack.clone(), "the CONNACK", b, patience)?;
        Ok(cl)
    };
    let subscribe = |cl: &mut Cl, which: &dyn Fn(usize) -> bool| -> R<()> {
        let all: Vec<usize> = (0..n).filter(|i| which(*i)).collect();
        for (k, part) in all.chunks(per).enumerate() {
            let pid = k as u16 + 1;
            cl.put(&CPacket::Subscribe { pid, filters: part.iter().map(|i| (Txt::lit(&pairs[*i].0), 0)).collect() }.encode());
            cl.want(RPacket::SubAck { pid, codes: vec![0; part.len()] }, "the SUBACK", b, patience)?;
        }
        cl.put(&CPacket::Subscribe { pid: 9, filters: vec![(Txt::lit("the end"), 0)] }.encode());
        cl.want(RPacket::SubAck { pid: 9, codes: vec![0] }, "the SUBACK", b, patience)
    };
    let mut a = join("a", "the client")?;
    let mut o = join("o", "the other client")?;
    if c.other {
        subscribe(&mut o, &|_| true)?;
    } else {
        subscribe(&mut o, &|_| false)?;
    }
    subscribe(&mut a, &|_| true)?;
    let ended = |a: &mut Cl| -> R<()> {
        match a.next(b, patience)? {
            Got::End => Ok(()),
            Got::Packet(p) => fail(format!("{} received {} after its end", a.who, p.brief())),
        }
    };
    let mut old = None;
    match c.end % 7 {
        0 => {
            let all: Vec<usize> = (0..n).filter(|i| picked(*i)).collect();
            for (k, part) in all.chunks(per).enumerate() {
                let pid = k as u16 + 1;
                a.put(&CPacket::Unsubscribe { pid, filters: part.iter().map(|i| Txt::lit(&pairs[*i].0)).collect() }.encode());
                a.want(RPacket::UnsubAck(pid), "the UNSUBACK", b, patience)?;
            }
        }
        1 => {
            a.put(&[0xE0, 0]);
            ended(&mut a)?;
        }
        2 => {
            let _ = a.s.shutdown(std::net::Shutdown::Both);
        }
        3 => {
            let _ = socket2::SockRef::from(&a.s).set_linger(Some(Duration::ZERO));
            a.s = open(&b.addrs[0], None, patience)?;
        }
        4 => {
            a.put(&[0xF0, 0]);
            ended(&mut a)?;
        }
        5 => {
            a.put(&CPacket::Connect(plain_connect("a")).encode());
            ended(&mut a)?;
        }
        _ => {}
    }
    let held = |i: usize| if c.end % 7 == 0 { !picked(i) } else { picked(i) };
    if c.end % 7 != 0 {
        let again = join("a", "the client that came back")?;
        old = Some(std::mem::replace(&mut a, again));
        subscribe(&mut a, &picked)?;
        if c.end % 7 == 6 {
            if let Some(old) = &mut old {
                ended(old)?;
            }
        }
    }
    let mut p = join("p", "the publisher")?;
    let message = |t: &str, load: String| CPacket::Publish(Publish { topic: Txt::lit(t), payload: Blob::Lit(load.into_bytes()), qos: 0, retain: false, dup: false, pid: 0 }).encode();
    let got = |t: &str, load: String| RPacket::Publish { topic: t.into(), payload: load.into_bytes(), qos: 0, retain: false, dup: false, pid: None };
    let all: Vec<usize> = (0..n).collect();
    let mut given = 0;
    // no more at a time than the buffers on the way hold
    let bytes = pairs[0].1.len() + 20;
    for part in all.chunks((20_000 / bytes).clamp(1, 200)) {
        let mut out = vec![];
        for i in part {
            out.extend(message(&pairs[*i].1, i.to_string()));
        }
        out.extend(message("the end", String::new()));
        p.put(&out);
        for (cl, all) in [(&mut a, false), (&mut o, true)] {
            for i in part {
                if if all { c.other } else { held(*i) } {
                    cl.want(got(&pairs[*i].1, i.to_string()), &format!("message {i}"), b, patience)?;
                    given += !all as u32;
                }
            }
            cl.want(got("the end", String::new()), "the next message", b, patience)?;
        }
    }
    obs.nontrivial = n > 20 || c.depth > 20;
    obs.tag_if(n > 1100, "more than 1100 filters of one client");
    obs.tag_if(c.depth > 200, "more than 200 levels");
    obs.tag_if(given > 0 && (given as usize) < n, "some given up, some kept");
    obs.tag_if(c.other, "others hold the same filters");
    Ok(())
}
fn gen_case(t: Tier, end: BoxedStrategy<u8>) -> BoxedStrategy<Case> {
    let top = if t == Tier::Thorough { 30_000u16 } else { 7000 };
    let size = prop_oneof![
        2 => (1u16..300, 0u16..8),
        2 => (300u16..2500, prop_oneof![3 => 0u16..3, 1 => 3u16..30]),
        2 => (2500u16..top, 0u16..2),
        2 => (1u16..20, prop_oneof![1 => 8u16..100, 2 => 100u16..1500, 1 => 1500u16..9000]),
    ];
    (size, prop_oneof![1 => 1u16..40, 3 => 40u16..1500], any::<u8>(), end, prop_oneof![1 => Just(vec![]), 1 => Just(vec![true]), 3 => vec(any::<bool>(), 2..9)], any::<bool>())
        .prop_map(|((filters, depth), per, form, end, which, other)| Case { filters, per: per.max(filters / 200), form, depth, end, which, other })
        .boxed()
}
// ---------------------------------------------------------------------------------------------------------------- stalls
/// The older connection has stopped reading while megabytes were on their way to it when its id is taken over.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stall {
    kb: u16,
    size: u16,
    rcvbuf: u16,
    /// it reads nothing for so long after the newer connection has been accepted
    ms: u16,
}
fn stall_exec(c: &Stall, obs: &mut Obs, patience: Duration) -> Outcome {
    crate::broker::only(crate::broker::Disturb::NoLogs);
    to_outcome((|| {
        let mut b = Broker::start(1, &[], patience).map_err(Outcome::Late)?;
        let r = stall(c, obs, patience, &b);
        if let (Err(_), Some(s)) = (&r, b.dead()) {
            return fail(format!("the broker process ended ({s}): {}", b.stderr()));
        }
        r
    })())
}
fn stall(c: &Stall, obs: &mut Obs, patience: Duration, b: &Broker) -> R<()> {
    let io = |e: std::io::Error| Outcome::Late(format!("a connection: {e}"));
    let ack = RPacket::ConnAck { session_present: false, code: 0 };
    let addr: std::net::SocketAddr = b.addrs[0].parse().unwrap();
    let s = socket2::Socket::new(socket2::Domain::for_address(addr), socket2::Type::STREAM, None).map_err(io)?;
    let _ = s.set_recv_buffer_size(c.rcvbuf as usize);
    s.connect_timeout(&addr.into(), patience).map_err(io)?;
    let old: std::net::TcpStream = s.into();
    let _ = old.set_read_timeout(Some(patience));
    let mut old = Cl { s: old, buf: vec![], who: "the older connection".into(), n: 0, live: true };
    let connect = CPacket::Connect(plain_connect("a")).encode();
    old.put(&connect);
    old.want(ack.clone(), "the CONNACK", b, patience)?;
    old.put(&CPacket::Subscribe { pid: 1, filters: vec![(Txt::lit("t"), 0)] }.encode());
    old.want(RPacket::SubAck { pid: 1, codes: vec![0] }, "the SUBACK", b, patience)?;
    let mut p = Cl { s: open(&b.addrs[0], None, patience)?, buf: vec![], who: "the publisher".into(), n: 0, live: true };
    p.put(&CPacket::Connect(plain_connect("p")).encode());
    p.want(ack.clone(), "the CONNACK", b, patience)?;
    let size = c.size.max(16) as usize;
    let n = c.kb as usize * 1000 / size + 1;
    let load = |k: usize| {
        let mut v = vec![k as u8; size];
        v[..8].copy_from_slice(&(k as u64).to_be_bytes());
        v
    };
    let mut out = vec![];
    for k in 0..n {
        out.extend(CPacket::Publish(Publish { topic: Txt::lit("t"), payload: Blob::Lit(load(k)), qos: 0, retain: false, dup: false, pid: 0 }).encode());
    }
    let mut wr = p.s.try_clone().map_err(io)?;
    let _ = wr.set_write_timeout(Some(patience * 6));
    std::thread::scope(|sc| {
        let h = sc.spawn(move || {
            let _ = std::io::Write::write_all(&mut wr, &out);
        });
        let r = (|| {
            // until the buffers on the way are full, or all is on its way
            std::thread::sleep(Duration::from_millis(300));
            let mut new = Cl { s: open(&b.addrs[0], None, patience)?, buf: vec![], who: "the newer connection".into(), n: 0, live: true };
            new.put(&connect);
            let _ = new.s.set_read_timeout(Some(Duration::from_millis(5)));
            let _ = old.s.set_read_timeout(Some(Duration::from_millis(50)));
            let end = std::time::Instant::now() + patience * 2;
            let mut buf = [0u8; 4];
            let mut chunk = [0u8; 4096];
            // the older one reads as little as it takes for the newer one to be accepted
            loop {
                match new.s.peek(&mut buf) {
                    Ok(0) => return fail("the newer connection was closed"),
                    Ok(4) => break,
                    _ => {}
                }
                for _ in 0..4 {
                    match std::io::Read::read(&mut old.s, &mut chunk) {
                        Ok(k) if k > 0 => old.buf.extend_from_slice(&chunk[..k]),
                        _ => break,
                    }
                }
                if std::time::Instant::now() > end {
                    return Err(Outcome::Late("the newer connection is not accepted".into()));
                }
            }
            for cl in [&new, &old] {
                let _ = cl.s.set_read_timeout(Some(patience));
            }
            new.want(ack.clone(), "the CONNACK", b, patience)?;
            new.put(&[0xC0, 0]);
            new.want(RPacket::PingResp, "the PINGRESP", b, patience)?;
            std::thread::sleep(Duration::from_millis(c.ms as u64));
            let mut k = 0;
            loop {
                match old.next(b, patience)? {
                    Got::End => break,
                    Got::Packet(RPacket::Publish { payload, .. }) if k < n && payload == load(k) => k += 1,
                    Got::Packet(q) => return fail(format!("the older connection received {} where message {k} or its end was due", q.brief())),
                }
            }
            new.put(&[CPacket::Subscribe { pid: 2, filters: vec![(Txt::lit("t2"), 0)] }.encode(), CPacket::Publish(Publish { topic: Txt::lit("t2"), payload: Blob::Lit(vec![7]), qos: 0, retain: false, dup: false, pid: 0 }).encode()].concat());
            new.want(RPacket::SubAck { pid: 2, codes: vec![0] }, "the SUBACK", b, patience)?;
            new.want(RPacket::Publish { topic: "t2".into(), payload: vec![7], qos: 0, retain: false, dup: false, pid: None }, "its message", b, patience)?;
            Ok(k)
        })();
        let _ = p.s.shutdown(std::net::Shutdown::Both);
        let _ = old.s.shutdown(std::net::Shutdown::Both);
        let _ = h.join();
        let k = r?;
        obs.nontrivial = k < n;
        obs.tag_if(k < n, "taken over with messages on their way");
        obs.tag_if(c.ms > 2000, "nothing read for more than 2 s");
        Ok(())
    })
}
fn stall_gen(_t: Tier) -> BoxedStrategy<Stall> {
    (7000u16..14_000, prop_oneof![1 => 500u16..4000, 3 => 4000u16..60_000], prop_oneof![1 => 2000u16..5000, 2 => 5000u16..60_000], prop_oneof![2 => 0u16..2000, 2 => 2000u16..6500])
        .prop_map(|(kb, size, rcvbuf, ms)| Stall { kb, size, rcvbuf, ms })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    let mut add = |id: &'static str, what: &'static str, cases: (u32, u32), strategy: fn(Tier) -> BoxedStrategy<Case>| {
        reg.entry(id).or_default().push(Box::new(Section {
            name: "bulk",
            rule: Box::leak(format!("a client holds up to 7000 filters (thorough: 30000), or filters of up to 9000 levels, that differ in one level, and {what}; another client may hold the same filters. Then a message is published for each filter: both clients must receive exactly those they hold a filter for. Non-trivial: more than 20 filters or levels.").into_boxed_str()),
            cases,
            workers: 8,
            isolated: false,
            patience: Duration::from_secs(10),
            shrink_secs: 60,
            strategy,
            exec,
        }) as Box<dyn SectionDyn>);
    };
    add("C05", "gives up some or all of them", (150, 3000), |t| gen_case(t, Just(0u8).boxed()));
    add("C13", "leaves by DISCONNECT, close, reset, a malformed packet or a second CONNECT, comes back with the same id and subscribes to some of them", (200, 4000), |t| gen_case(t, (1u8..6).boxed()));
    add("C14", "another connection with its id takes over and subscribes to some of them", (150, 3000), |t| gen_case(t, Just(6u8).boxed()));
    reg.entry("C14").or_default().push(Box::new(Section {
        name: "stalled",
        rule: "the older connection stops reading while 7-14 MB are published to it, its id is taken over, it reads on as little as it takes for the newer one to be accepted, then nothing for up to 6.5 s: after that it must receive an uninterrupted beginning of the messages and the end of the connection, and the newer one is served all the time. Non-trivial: not all messages reached the older one.",
        cases: (48, 600),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: stall_gen,
        exec: stall_exec,
    }) as Box<dyn SectionDyn>);
}
