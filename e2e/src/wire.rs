//! C01, C02 and C03 on the real broker: what a connection's byte stream makes it do, and the exact bytes it answers with.
use crate::broker::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;
use std::io::{Read, Write};
use std::time::{Duration, Instant};
use vcommon::gen;
use vcommon::hostile::{hostile, Hostile};
use vcommon::mqtt::*;
use vcommon::runner::*;

// ---------------------------------------------------------------------------------------------------------------- C01
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    connect: Connect,
    packets: Vec<CPacket>,
    cuts: Vec<usize>,
}
fn stream(c: &Stream, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(stream_go(c, obs, patience))
}
fn stream_go(c: &Stream, obs: &mut Obs, patience: Duration) -> R<()> {
    // credentials of the CONNECT, in a file next to entries that must not be taken for them
    let mut text = String::from("somebody:junk\n");
    if let (Some(u), Some(p)) = (&c.connect.user, &c.connect.pass) {
        text.push_str(&format!("{}:{}\n", u.s(), cheap_hash(&p.s())));
    }
    let b = Broker::start_with(1, &text, patience).map_err(Outcome::Broken)?;
    let mut w = World::on(b, patience);
    let watcher = w.dial(0, "watcher".into())?;
    w.connect(watcher, &plain_connect("the watcher"), &[], &[])?;
    w.subscribe(watcher, 1, &[(Txt::lit("#"), 0)], &[])?;
    let mut dollars: Vec<String> = c.packets.iter().filter_map(|p| if let CPacket::Publish(p) = p { Some(p.topic.s()) } else { None }).filter(|t| t.starts_with('$')).collect();
    dollars.sort();
    dollars.dedup();
    if !dollars.is_empty() {
        let fs: Vec<(Txt, u8)> = dollars.iter().map(|t| (Txt::lit(t), 0)).collect();
        w.subscribe(watcher, 2, &fs, &[])?;
    }
    let i = w.dial(0, "sender".into())?;
    let id = c.connect.client_id.s();
    let mut bytes = CPacket::Connect(c.connect.clone()).encode();
    // the model runs ahead: the answers and deliveries are those of handling the packets one after another
    w.conns[i].open = true;
    w.conns[i].may_end = false;
    w.conns[i].id = (!id.is_empty()).then(|| id.clone());
    let mut want: VecDeque<RPacket> = VecDeque::new();
    for p in &c.packets {
        match p {
            CPacket::Publish(p) => {
                let n = w.msgs.len();
                let mut pl = format!("m{n}.").into_bytes();
                pl.extend(p.payload.bytes());
                w.register(i, &p.topic.s(), pl.clone(), false);
                bytes.extend(CPacket::Publish(Publish { payload: Blob::Lit(pl), ..p.clone() }).encode());
                continue;
            }
            CPacket::Subscribe { pid, filters } => {
                let mut codes = vec![];
                for (f, _) in filters {
                    let f = f.s();
                    if valid_filter(&f) {
                        codes.push(0);
                        if !w.conns[i].filters.contains(&f) {
                            w.conns[i].filters.push(f);
                        }
                    } else {
                        codes.push(0x80);
                    }
                }
                want.push_back(RPacket::SubAck { pid: *pid, codes });
            }
            CPacket::Unsubscribe { pid, filters } => {
                let fs: Vec<String> = filters.iter().map(|f| f.s()).collect();
                w.conns[i].filters.retain(|f| !fs.contains(f));
                want.push_back(RPacket::UnsubAck(*pid));
            }
            CPacket::PingReq => want.push_back(RPacket::PingResp),
            _ => {}
        }
        bytes.extend(p.encode());
    }
    w.send(i, &bytes, &c.cuts)?;
    match w.next_ctl(i, "CONNACK")? {
        RPacket::ConnAck { session_present: false, code: 0 } => {}
        p => return fail(format!("{p:?} in answer to a valid CONNECT {}", format!("{:?}", c.connect).chars().take(400).collect::<String>())),
    }
    for (k, p) in want.iter().enumerate() {
        let g = w.next_ctl(i, "an answer")?;
        if g != *p {
            let s = |p: &RPacket| format!("{p:?}").chars().take(200).collect::<String>();
            return fail(format!("answer {k} is {}, expected {}", s(&g), s(p)));
        }
    }
    w.finish()?;
    let multi = c.packets.len() > 1;
    obs.nontrivial = multi && w.deliveries + want.len() as u64 > 0;
    obs.tag_if(c.connect.will.is_some() && c.connect.user.is_some(), "CONNECT with will and credentials");
    obs.tag_if(bytes.len() > 4096, "stream longer than the 4096-byte buffer");
    obs.tag_if(c.cuts.iter().all(|n| *n > 0 && *n < 12), "cut every few bytes");
    obs.tag_if(!dollars.is_empty(), "topic starting with '$'");
    obs.tag_if(w.deliveries > 0, "messages delivered");
    Ok(())
}
fn stream_gen(_t: Tier) -> BoxedStrategy<Stream> {
    let p = prop_oneof![
        5 => gen::publish(20_000).prop_map(CPacket::Publish),
        1 => gen::pid().prop_map(CPacket::PubAck),
        1 => gen::pid().prop_map(CPacket::PubRec),
        1 => gen::pid().prop_map(CPacket::PubRel),
        1 => gen::pid().prop_map(CPacket::PubComp),
        3 => gen::subscribe(),
        2 => gen::unsubscribe(),
        2 => Just(CPacket::PingReq),
    ];
    (gen::connect(), prop_oneof![2 => vec(p.clone(), 1..4), 3 => vec(p, 4..16)], gen::cuts())
        .prop_map(|(mut connect, packets, cuts)| {
            // a name the password file can hold, and a password with it
            let plain = |t: &Txt| Txt::Lit(t.s().replace([':', '\n', '\r'], "_").chars().take(2000).collect());
            connect.user = connect.user.as_ref().map(plain);
            if connect.user.as_ref().is_some_and(|u| u.s() == "somebody") {
                connect.user = None;
            }
            connect.pass = connect.user.as_ref().map(|_| connect.pass.clone().unwrap_or(Txt::lit("")));
            if connect.client_id.s().is_empty() {
                connect.clean = true;
            }
            if connect.client_id.s() == "the watcher" {
                connect.client_id = Txt::lit("x");
            }
            if connect.keep_alive < 120 {
                connect.keep_alive = 0;
            }
            Stream { connect, packets, cuts }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------------------------- C02
fn hostile_exec(c: &Hostile, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(hostile_go(c, obs, patience))
}
fn hostile_go(c: &Hostile, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut w = World::start(1, &[], patience)?;
    w.record = true;
    let watcher = w.dial(0, "watcher".into())?;
    w.connect(watcher, &plain_connect("the watcher"), &[], &[])?;
    w.subscribe(watcher, 1, &[(Txt::lit("#"), 0)], &[])?;
    let i = w.dial(0, "attacker".into())?;
    w.connect(i, &plain_connect("the attacker"), &[], &[])?;
    w.conns[i].may_end = true;
    let data = c.bytes();
    // what the stream means
    let mut at = 0;
    let mut msgs: Vec<(String, Vec<u8>)> = vec![];
    let mut answers: Vec<RPacket> = vec![];
    let mut firm = true; // false: from here on the property does not rule
    let (ends, why) = loop {
        let (p, n) = match ref_next(&data[at..]) {
            RefItem::Accept(p, n) => (p, n),
            RefItem::Lenient(..) => {
                firm = false;
                break (false, "not ruled on");
            }
            RefItem::Reject("stream ends inside a packet") | RefItem::End => break (false, "end of stream"),
            RefItem::Reject(why) => break (true, why),
        };
        at += n;
        match p {
            CPacket::Publish(p) => {
                let t = p.topic.s();
                if !t.starts_with('$') {
                    msgs.push((t, p.payload.bytes()));
                }
            }
            CPacket::Subscribe { pid, filters } => answers.push(RPacket::SubAck { pid, codes: filters.iter().map(|(f, _)| if valid_filter(&f.s()) { 0 } else { 0x80 }).collect() }),
            CPacket::Unsubscribe { pid, .. } => answers.push(RPacket::UnsubAck(pid)),
            CPacket::PingReq => answers.push(RPacket::PingResp),
            CPacket::Connect(_) => break (true, "second CONNECT"),
            CPacket::Disconnect => break (true, "DISCONNECT"),
            _ => {}
        }
    };
    w.send(i, &data, &c.cuts)?;
    if ends {
        // refused by what has arrived already: the broker must not wait for more
        w.until(&format!("the broker ending the connection after byte {at} ({why})"), |w| w.conns[i].ended.is_some())?;
    } else {
        if let Some(cl) = &w.conns[i].cl {
            cl.fin();
        }
        w.until("the broker ending the connection after its end of stream", |w| w.conns[i].ended.is_some())?;
    }
    // all its packets are in the broker's queue by now; these come behind them
    w.ping(watcher)?;
    w.ping(watcher)?;
    if firm {
        w.until("what was published before the malformed packet", |w| w.conns[watcher].got.len() >= msgs.len())?;
    }
    for (k, g) in w.conns[watcher].got.iter().enumerate() {
        let RPacket::Publish { topic, payload, .. } = g else { continue };
        match msgs.get(k) {
            None if !firm => break,
            None => return fail(format!("the broker delivered {}, which the stream does not contain before its end ({why} at byte {at})", g.brief())),
            Some((t, p)) if t == topic && p == payload => {}
            Some((t, p)) => return fail(format!("message {k} of the stream was delivered as {}, sent was topic {} with {} bytes {:02x?}", g.brief(), brief(t), p.len(), &p[..p.len().min(24)])),
        }
    }
    for (k, g) in w.conns[i].ctl.iter().enumerate() {
        match answers.get(k) {
            Some(a) if a == g => {}
            None if !firm => break,
            a => return fail(format!("answer {k} to the stream is {g:?}, expected {a:?} ({why} at byte {at})")),
        }
    }
    w.conns[i].ctl.clear();
    w.end_session(i);
    // and others are not affected
    let j = w.dial(0, "other".into())?;
    w.connect(j, &plain_connect("other"), &[], &[])?;
    w.ping(j)?;
    w.finish()?;
    obs.nontrivial = ends && why != "DISCONNECT" && why != "second CONNECT";
    obs.tag(why);
    obs.tag_if(!msgs.is_empty(), "messages before it");
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------- C03
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Ask {
    /// a message to itself: topic number, payload
    Pub(u8, Blob, u8),
    /// a message nobody receives
    PubAway,
    Sub(u16, Vec<(Txt, u8)>),
    Unsub(u16, Vec<Txt>),
    Ping,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Talk {
    topics: Vec<Txt>,
    asks: Vec<Ask>,
    /// bytes read at a time and pause between in microseconds
    reads: Vec<usize>,
    pause: u16,
    rcvbuf: usize,
    /// so many further kB in messages of this size, and after so many bytes nothing is read for so many milliseconds
    #[serde(default)]
    stall: Option<(u16, u16, u32, u16)>,
}
fn talk(c: &Talk, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(talk_go(c, obs, patience))
}
fn talk_go(c: &Talk, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut w = World::start(1, &[], patience)?;
    let sa: std::net::SocketAddr = w.broker.addrs[0].parse().unwrap();
    let io = |e: std::io::Error| Outcome::Late(format!("the connection: {e}"));
    let s = socket2::Socket::new(socket2::Domain::IPV4, socket2::Type::STREAM, None).map_err(io)?;
    let _ = s.set_recv_buffer_size(c.rcvbuf);
    s.connect_timeout(&sa.into(), patience).map_err(io)?;
    let mut sock: std::net::TcpStream = s.into();
    let _ = sock.set_nodelay(true);
    let mut out = CPacket::Connect(plain_connect("talker")).encode();
    let mut want = SPacket::ConnAck { session_present: false, code: 0 }.encode();
    let mut names: Vec<String> = vec![];
    for (k, t) in c.topics.iter().enumerate() {
        let t = t.s();
        let n = format!("t{k}/{}", t.chars().take(60_000 / t.chars().map(|c| c.len_utf8()).max().unwrap_or(1)).collect::<String>()); // no two filters match the same topic
        out.extend(CPacket::Subscribe { pid: k as u16 + 1, filters: vec![(Txt::lit(&n), 0)] }.encode());
        want.extend(SPacket::SubAck { pid: k as u16 + 1, codes: vec![0] }.encode());
        names.push(n);
    }
    let mut bodies = 0;
    for a in &c.asks {
        match a {
            Ask::Pub(k, b, q) => {
                let t = &names[*k as usize % names.len()];
                let p = Publish { topic: Txt::lit(t), payload: b.clone(), qos: *q % 3, retain: *q & 4 != 0, dup: false, pid: if q % 3 > 0 { 77 } else { 0 } };
                out.extend(CPacket::Publish(p.clone()).encode());
                want.extend(SPacket::Publish(Publish { qos: 0, retain: false, dup: false, pid: 0, ..p }).encode());
                bodies += 1;
            }
            Ask::PubAway => out.extend(CPacket::Publish(Publish { topic: Txt::lit("away"), payload: Blob::Lit(b"?".to_vec()), qos: 0, retain: false, dup: false, pid: 0 }).encode()),
            Ask::Sub(pid, fs) => {
                // filters that match none of the topics, and invalid ones
                let fs: Vec<(Txt, u8)> = fs.iter().map(|(f, q)| (Txt::Lit(format!("never/{}", f.s().chars().take(15_000).collect::<String>())), *q)).collect();
                want.extend(SPacket::SubAck { pid: *pid, codes: fs.iter().map(|(f, _)| if valid_filter(&f.s()) { 0 } else { 0x80 }).collect() }.encode());
                out.extend(CPacket::Subscribe { pid: *pid, filters: fs }.encode());
            }
            Ask::Unsub(pid, fs) => {
                let fs: Vec<Txt> = fs.iter().map(|f| Txt::Lit(format!("never/{}", f.s().chars().take(15_000).collect::<String>()))).collect();
                want.extend(SPacket::UnsubAck(*pid).encode());
                out.extend(CPacket::Unsubscribe { pid: *pid, filters: fs }.encode());
            }
            Ask::Ping => {
                want.extend(SPacket::PingResp.encode());
                out.extend([0xC0, 0]);
            }
        }
    }
    if let Some((kb, size, _, _)) = c.stall {
        let one = size as usize + names[0].len() + 4;
        for k in 0..kb as usize * 1000 / one {
            let p = Publish { topic: Txt::lit(&names[0]), payload: Blob::Gen { len: size as usize, seed: k as u64 }, qos: 0, retain: false, dup: false, pid: 0 };
            out.extend(CPacket::Publish(p.clone()).encode());
            want.extend(SPacket::Publish(p).encode());
        }
        out.extend([0xC0, 0]);
        want.extend(SPacket::PingResp.encode());
    }
    out.extend([0xE0, 0]);
    let mut wr = sock.try_clone().map_err(io)?;
    let h = std::thread::spawn(move || wr.write_all(&out));
    let _ = sock.set_read_timeout(Some(Duration::from_millis(200)));
    let mut got: Vec<u8> = vec![];
    let mut buf = vec![0u8; 70_000];
    let mut last = Instant::now();
    let mut strikes = 0;
    let mut k = 0;
    let t0 = Instant::now();
    let mut stall = c.stall;
    let r = loop {
        if let Some((_, _, at, ms)) = stall {
            if got.len() >= at as usize {
                std::thread::sleep(Duration::from_millis(ms as u64));
                stall = None;
                last = Instant::now();
            }
        }
        let n = c.reads[k % c.reads.len()].clamp(1, buf.len());
        // a slow reader, but not for ever
        let (n, nap) = if t0.elapsed() > Duration::from_millis(250) { (buf.len(), 0) } else { (n, c.pause) };
        k += 1;
        if nap > 0 {
            std::thread::sleep(Duration::from_micros(nap as u64));
        }
        match sock.read(&mut buf[..n]) {
            Ok(0) => break Ok(()),
            Ok(n) => {
                let end = (got.len() + n).min(want.len());
                got.extend_from_slice(&buf[..n]);
                last = Instant::now();
                if got[..] != want[..end] {
                    break Ok(());
                }
            }
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut | std::io::ErrorKind::Interrupted) => {
                if last.elapsed() > patience {
                    let t = format!("{} of {} bytes came, then nothing for {patience:?} and no end of the connection", got.len(), want.len());
                    if let Err(o) = w.overdue(&mut strikes, &t) {
                        break Err(o);
                    }
                    last = Instant::now();
                }
            }
            Err(e) => break Err(Outcome::Fail(format!("after {} of {} bytes: {e}; {}", got.len(), want.len(), w.trouble()))),
        }
    };
    let _ = sock.shutdown(std::net::Shutdown::Both);
    let _ = h.join();
    if got != want {
        let d = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        if d < got.len() || r.is_ok() {
            let mut at = 0;
            let mut n = 0;
            while let Ok(Some((_, _, e))) = split_frame(&want[at..]) {
                if at + e > d {
                    break;
                }
                at += e;
                n += 1;
            }
            return fail(format!(
                "the broker sent {} bytes, expected {}; they differ at byte {d}, in packet {n} at its byte {}: {:02x?}, expected {:02x?}{}",
                got.len(),
                want.len(),
                d - at,
                &got[d.saturating_sub(2)..got.len().min(d + 10)],
                &want[d.saturating_sub(2)..want.len().min(d + 10)],
                w.trouble()
            ));
        }
    }
    r?;
    w.finish()?;
    obs.nontrivial = bodies > 0 && c.asks.len() > 1;
    obs.tag_if(want.len() > 4096, "more than 4096 bytes in all");
    obs.tag_if(c.pause > 0, "slow reader");
    obs.tag_if(c.stall.is_some(), "reads nothing for seconds while megabytes wait");
    obs.tag_if(want.len() > 500_000, "more than 500 kB in all");
    Ok(())
}
fn talk_gen(t: Tier) -> BoxedStrategy<Talk> {
    let max = if t == Tier::Thorough { 2_000_000 } else { 200_000 };
    let name = prop_oneof![6 => gen::topic(), 1 => gen::text(60_000).prop_map(|t| if t.s().contains(['+', '#']) { Txt::lit("x") } else { t })];
    let f = || prop_oneof![3 => gen::filter(), 2 => crate::history::bad_filter(), 1 => gen::text(15_000)].prop_map(|t| if t.s().contains('\0') { Txt::lit("a") } else { t });
    let n = || prop_oneof![6 => 1usize..5, 1 => 120usize..140, 1 => 250usize..300];
    let ask = prop_oneof![
        5 => (any::<u8>(), gen::blob(max), 0u8..8).prop_map(|(k, b, q)| Ask::Pub(k, b, q)),
        1 => Just(Ask::PubAway),
        2 => (gen::pid(), n().prop_flat_map(move |n| vec((f(), 0u8..3), n))).prop_map(|(p, f)| Ask::Sub(p, f)),
        1 => (gen::pid(), vec(gen::filter(), 1..4)).prop_map(|(p, f)| Ask::Unsub(p, f)),
        2 => Just(Ask::Ping),
    ];
    let reads = prop_oneof![2 => vec(1usize..600, 1..4), 2 => vec(1usize..5000, 1..5), 1 => Just(vec![65536usize]), 1 => Just(vec![1usize])];
    (vec(name, 1..4), prop_oneof![3 => vec(ask.clone(), 1..12), 1 => vec(ask, 12..80)], reads, prop_oneof![2 => Just(0u16), 3 => 1u16..300], prop_oneof![1 => 2000usize..5000, 3 => 5000usize..100_000], prop::option::weighted(0.02, (7000u16..14_000, prop_oneof![1 => 300u16..1000, 2 => 1000u16..4000, 1 => 4000u16..9000, 1 => 20_000u16..60_000], prop_oneof![1 => Just(0u32), 1 => 0u32..200_000], prop_oneof![2 => 1000u16..6000, 1 => 6000u16..13_000])))
        .prop_map(|(topics, asks, reads, pause, rcvbuf, stall)| Talk { topics, asks, reads, pause, rcvbuf: if stall.is_some() { rcvbuf.max(20_000) } else { rcvbuf }, stall })
        .boxed()
}

pub fn register(reg: &mut Registry) {
    reg.entry("C01").or_default().push(Box::new(Section {
        name: "wire",
        rule: "a CONNECT with generated fields (will, client id, and credentials that are in the password file) and 1-15 well-formed packets in one stream cut into segments, sent to the real broker; every answer of the sender and every message at a watcher that holds '#' and at the sender is compared with the model. Non-trivial: several packets, with answers or deliveries.",
        cases: (1200, 25_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: stream_gen,
        exec: stream,
    }) as Box<dyn SectionDyn>);
    reg.entry("C02").or_default().push(Box::new(Section {
        name: "wire",
        rule: "an accepted client of the real broker sends a stream of good packets around a malformed one; exactly the messages and answers of the packets before it appear, in order, and the broker ends the connection by itself. Non-trivial: the reference decoder refuses a complete packet.",
        cases: (1500, 40_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: |_| hostile(),
        exec: hostile_exec,
    }) as Box<dyn SectionDyn>);
    reg.entry("C03").or_default().push(Box::new(Section {
        name: "wire",
        rule: "a client of the real broker sends requests and messages to itself and a DISCONNECT in one go and reads the answers in small pieces, slowly, with a small receive buffer, now and then not at all for 1-13 seconds while megabytes wait; every byte until the broker closes is compared with the reference encoding of the expected packets. Non-trivial: a message and something else.",
        cases: (1200, 20_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: talk_gen,
        exec: talk,
    }) as Box<dyn SectionDyn>);
}
