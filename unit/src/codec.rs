//! C01, C02 (read_packet) and C03 (write_packet) over a real TCP pair.
use crate::net::*;
use bytes::BytesMut;
use proptest::collection::vec;
use proptest::prelude::*;
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::connack::ConnAckReturnCode;
use ratelmq::mqtt::packets::puback::PubAckPacket;
use ratelmq::mqtt::packets::pubcomp::PubCompPacket;
use ratelmq::mqtt::packets::pubrec::PubRecPacket;
use ratelmq::mqtt::packets::pubrel::PubRelPacket;
use ratelmq::mqtt::packets::suback::{SubAckPacket, SubAckReturnCode};
use ratelmq::mqtt::packets::unsuback::UnSubAckPacket;
use ratelmq::mqtt::packets::{ConnAckPacket, ControlPacket, DisconnectPacket, PublishPacket, QoS};
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
use ratelmq::mqtt::transport::packet_decoder::read_packet;
use ratelmq::mqtt::transport::packet_encoder::write_packet;
use serde::{Deserialize, Serialize};
use std::os::fd::AsRawFd;
use std::time::Duration;
use vcommon::gen;
use vcommon::hostile::*;
use vcommon::mqtt::*;
use vcommon::runner::*;

fn qos(q: u8) -> QoS {
    match q {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}
fn short(s: &str) -> String {
    let t: String = s.chars().take(60).collect();
    format!("{:?}({} bytes)", t, s.len())
}

/// None when the decoded packet is exactly `want`.
fn differs(got: &ControlPacket, want: &CPacket) -> Option<String> {
    macro_rules! eq {
        ($what:expr, $g:expr, $w:expr) => {
            if $g != $w {
                return Some(format!("{}: decoded {:?}, sent {:?}", $what, $g, $w));
            }
        };
    }
    macro_rules! eqs {
        ($what:expr, $g:expr, $w:expr) => {
            if $g != $w {
                return Some(format!("{}: decoded {}, sent {}", $what, short($g), short($w)));
            }
        };
    }
    match (got, want) {
        (ControlPacket::Connect(g), CPacket::Connect(w)) => {
            eqs!("client id", &g.client_id, &w.client_id.s());
            eq!("keep alive", g.keep_alive_seconds, w.keep_alive);
            eq!("clean session", g.clean_session, w.clean);
            match (&g.user_name, &w.user) {
                (None, None) => {}
                (Some(a), Some(b)) => eqs!("user name", a, &b.s()),
                (a, b) => return Some(format!("user name: decoded {:?}, sent {:?}", a.is_some(), b.is_some())),
            }
            match (&g.password, &w.pass) {
                (None, None) => {}
                (Some(a), Some(b)) => eqs!("password", a, &b.s()),
                (a, b) => return Some(format!("password: decoded {:?}, sent {:?}", a.is_some(), b.is_some())),
            }
            match (&g.will_message, &w.will) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    eqs!("will topic", &a.topic, &b.topic.s());
                    if a.payload[..] != b.payload.bytes()[..] {
                        return Some(format!("will payload: decoded {} bytes, sent {} bytes", a.payload.len(), b.payload.len()));
                    }
                    eq!("will qos", a.qos, qos(b.qos));
                    eq!("will retain", a.retain, b.retain);
                }
                (a, b) => return Some(format!("will: decoded {:?}, sent {:?}", a.is_some(), b.is_some())),
            }
        }
        (ControlPacket::Publish(g), CPacket::Publish(w)) => {
            eqs!("topic", &g.message.topic, &w.topic.s());
            let b = w.payload.bytes();
            if g.message.payload[..] != b[..] {
                let at = g.message.payload.iter().zip(&b).position(|(x, y)| x != y);
                return Some(format!("payload: decoded {} bytes, sent {}; first difference at {:?}", g.message.payload.len(), b.len(), at));
            }
            eq!("qos", g.message.qos, qos(w.qos));
            eq!("retain", g.message.retain, w.retain);
            eq!("dup", g.dup, w.dup);
            eq!("packet id", g.packet_id, if w.qos > 0 { Some(w.pid) } else { None });
        }
        (ControlPacket::PubAck(g), CPacket::PubAck(w)) => eq!("packet id", g.packet_id, *w),
        (ControlPacket::PubRec(g), CPacket::PubRec(w)) => eq!("packet id", g.packet_id, *w),
        (ControlPacket::PubRel(g), CPacket::PubRel(w)) => eq!("packet id", g.packet_id, *w),
        (ControlPacket::PubComp(g), CPacket::PubComp(w)) => eq!("packet id", g.packet_id, *w),
        (ControlPacket::Subscribe(g), CPacket::Subscribe { pid, filters }) => {
            eq!("packet id", g.packet_id, *pid);
            eq!("number of filters", g.subscriptions.len(), filters.len());
            for (i, (a, (f, q))) in g.subscriptions.iter().zip(filters).enumerate() {
                eqs!(format!("filter {i}"), a.topic(), &f.s()[..]);
                if *a != Subscription::new(f.s(), qos(*q)) {
                    return Some(format!("filter {i}: decoded {}, sent qos {q}", a));
                }
            }
        }
        (ControlPacket::Unsubscribe(g), CPacket::Unsubscribe { pid, filters }) => {
            eq!("packet id", g.packet_id, *pid);
            eq!("number of filters", g.topics.len(), filters.len());
            for (i, (a, f)) in g.topics.iter().zip(filters).enumerate() {
                eqs!(format!("filter {i}"), a, &f.s());
            }
        }
        (ControlPacket::PingReq, CPacket::PingReq) => {}
        (ControlPacket::Disconnect(g), CPacket::Disconnect) => eq!("disconnect", *g, DisconnectPacket::default()),
        (g, w) => return Some(format!("decoded a {g}, sent {}", format!("{w:?}").chars().take(80).collect::<String>())),
    }
    None
}

pub struct Read {
    pub got: Result<ControlPacket, std::io::Error>,
    /// how much of the stream had been given before the piece that was given last
    pub given_before_last: usize,
    /// the reader was still waiting after everything was given
    pub starved: bool,
}

/// Feeds `data` in pieces to read_packet, calling `each` with every result until it returns false.
async fn feed(data: &[u8], cuts: &[usize], close: bool, bufsize: usize, mut each: impl FnMut(usize, Read) -> bool) -> Result<usize, String> {
    let (ut, dr) = pair(None, None).await;
    let (rd, _wr) = ut.into_split();
    let fd = rd.as_ref().as_raw_fd();
    let mut feeder = Feeder::new(dr, data, cuts, close);
    let mut stream = MqttBytesReadStream::new(bufsize, rd);
    let mut k = 0;
    loop {
        let mut idle = 0;
        let got = {
            let mut f = Box::pin(tokio::task::unconstrained(read_packet(&mut stream)));
            loop {
                if let Some(r) = poll_once(&mut f).await {
                    break Some(r);
                }
                if unread(fd) == 0 && !feeder.closed {
                    if !feeder.step()? {
                        idle += 1;
                        if idle > 8 {
                            break None;
                        }
                    }
                }
                tokio::task::yield_now().await;
            }
        };
        let given = feeder.seg_start;
        let go = match got {
            Some(r) => {
                let stop = r.is_err();
                let go = each(k, Read { got: r, given_before_last: given, starved: false });
                go && !stop
            }
            None => {
                each(k, Read { got: Err(std::io::Error::from(std::io::ErrorKind::WouldBlock)), given_before_last: given, starved: true });
                false
            }
        };
        k += 1;
        if !go {
            return Ok(feeder.segs);
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------- C01
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    packets: Vec<CPacket>,
    cuts: Vec<usize>,
}

fn c01_exec(c: &Stream, obs: &mut Obs, _p: Duration) -> Outcome {
    let mut data = vec![];
    let mut ends = vec![];
    for p in &c.packets {
        data.extend(p.encode());
        ends.push(data.len());
    }
    let mut bad = None;
    let mut done = 0;
    let segs = rt().block_on(feed(&data, &c.cuts, true, 4096, |k, r| {
        if k == c.packets.len() {
            if let Ok(p) = &r.got {
                bad = Some(format!("an extra packet after the last one: {p}"));
            }
            return false;
        }
        match &r.got {
            Err(e) => {
                bad = Some(format!("packet {k} of {} refused: {e}; {}", c.packets.len(), format!("{:?}", c.packets[k]).chars().take(300).collect::<String>()));
                false
            }
            Ok(p) => {
                if let Some(d) = differs(p, &c.packets[k]) {
                    bad = Some(format!("packet {k}: {d}"));
                    return false;
                }
                if r.given_before_last >= ends[k] {
                    bad = Some(format!("packet {k} was complete at byte {} but was decoded only after more bytes had come", ends[k]));
                    return false;
                }
                done += 1;
                true
            }
        }
    }));
    let segs = match segs {
        Ok(s) => s,
        Err(e) => return Outcome::Broken(e),
    };
    if let Some(b) = bad {
        return Outcome::Fail(b);
    }
    if done != c.packets.len() {
        return Outcome::Fail(format!("only {done} of {} packets decoded", c.packets.len()));
    }
    let multi = c.packets.len() > 1;
    let long = c.packets.iter().any(|p| p.encode().len() > 4096);
    let cut_in_packet = segs > 1;
    obs.nontrivial = multi || cut_in_packet || long;
    obs.tag_if(multi, "several packets in one stream");
    obs.tag_if(cut_in_packet, "stream cut into pieces");
    obs.tag_if(segs > data.len() / 2, "cut at nearly every byte");
    obs.tag_if(long, "a packet longer than the 4096-byte buffer");
    obs.tag_if(data.len() > 2_097_152, "four-byte remaining length");
    for p in &c.packets {
        match p {
            CPacket::Connect(c) => {
                obs.tag_if(c.will.is_some(), "CONNECT with will");
                obs.tag_if(c.will.is_some() && c.user.is_some(), "CONNECT with will and credentials");
                obs.tag_if(c.user.is_some() && c.pass.is_none(), "CONNECT with user name only");
                obs.tag_if(c.level == 3, "CONNECT MQTT 3.1");
            }
            CPacket::Publish(p) => {
                obs.tag_if(p.qos > 0, "PUBLISH QoS>0");
                obs.tag_if(p.payload.is_empty(), "PUBLISH empty payload");
            }
            CPacket::Subscribe { filters, .. } => obs.tag_if(filters.len() > 30, "SUBSCRIBE many filters"),
            _ => {}
        }
    }
    Outcome::Pass
}

fn c01_gen(t: Tier) -> BoxedStrategy<Stream> {
    let maxp = if t == Tier::Quick { 200_000 } else { 400_000 };
    (prop_oneof![2 => vec(gen::cpacket(maxp), 1..2), 5 => vec(gen::cpacket(20_000), 2..8), 1 => vec(gen::cpacket(300), 8..30)], gen::cuts())
        .prop_map(|(packets, cuts)| Stream { packets, cuts })
        .boxed()
}
fn c01_huge_gen(t: Tier) -> BoxedStrategy<Stream> {
    // total remaining length = 2 + topic + payload (+2 with a packet id)
    let full = if t == Tier::Quick { vec![268_435_455usize] } else { vec![268_435_455usize, 268_435_454, 201_326_592, 134_217_728] };
    (
        prop_oneof![3 => 2_097_140usize..2_097_170, 1 => 2_000_000usize..30_000_000, 1 => prop::sample::select(full)],
        "[a-z]{1,8}",
        0u8..3,
        any::<u64>(),
        any::<bool>(),
        prop::collection::vec(prop_oneof![Just(0usize), 1usize..100_000, 1_000_000usize..3_000_000], 1..4),
    )
        .prop_map(|(rl, topic, qos, seed, many, cuts)| {
            if many && rl < 30_000_000 && rl > 2_097_152 {
                // a SUBSCRIBE of this size: many long filters
                let n = rl / 65538;
                let f = (0..n.max(32) + 1).map(|i| (Txt::Rep { unit: "f".into(), n: 65535 - (i % 3), tail: String::new() }, qos)).collect();
                return Stream { packets: vec![CPacket::Subscribe { pid: 7, filters: f }, CPacket::PingReq], cuts };
            }
            let over = 2 + topic.len() + if qos > 0 { 2 } else { 0 };
            let p = Publish { topic: Txt::Lit(topic), payload: Blob::Gen { len: rl - over, seed }, qos, retain: false, dup: false, pid: if qos > 0 { 9 } else { 0 } };
            Stream { packets: vec![CPacket::Publish(p), CPacket::PingReq], cuts }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------------------------- C02
fn c02_exec(c: &Hostile, obs: &mut Obs, _p: Duration) -> Outcome {
    let data = c.bytes();
    check_stream(&data, &c.cuts, obs)
}
pub fn check_stream(data: &[u8], cuts: &[usize], obs: &mut Obs) -> Outcome {
    let mut at = 0;
    let mut bad = None;
    let mut reached = "";
    let r = rt().block_on(feed(data, cuts, true, 4096, |k, r| {
        let item = ref_next(&data[at..]);
        match (item, r.got) {
            (RefItem::Accept(w, n), Ok(g)) | (RefItem::Lenient(w, n), Ok(g)) => {
                if let Some(d) = differs(&g, &w) {
                    bad = Some(format!("packet {k} at byte {at}: {d}"));
                    return false;
                }
                at += n;
                true
            }
            (RefItem::Accept(w, n), Err(e)) => {
                bad = Some(format!("packet {k} at byte {at} is well-formed but was refused ({e}): {:?} = {:?}", &data[at..at + n.min(60)], format!("{w:?}").chars().take(200).collect::<String>()));
                false
            }
            (RefItem::Lenient(..), Err(_)) => {
                reached = "refused something the property does not rule on";
                false
            }
            (RefItem::Reject(why), Ok(g)) => {
                bad = Some(format!("packet {k} at byte {at} must be refused ({why}) but was decoded as {:?}; bytes {:?}", format!("{g:?}").chars().take(200).collect::<String>(), &data[at..data.len().min(at + 40)]));
                false
            }
            (RefItem::Reject(why), Err(_)) => {
                reached = why;
                if let Ok(Some((_, _, end))) = split_frame(&data[at..]) {
                    if r.given_before_last >= at + end {
                        bad = Some(format!("packet {k} at byte {at}..{} must be refused ({why}); it was refused only after bytes beyond its declared length had come, which the decoder had been waiting for", at + end));
                    }
                }
                false
            }
            (RefItem::End, Ok(g)) => {
                bad = Some(format!("a packet out of nothing at the end of the stream: {g}"));
                false
            }
            (RefItem::End, Err(_)) => {
                reached = "accepted to the end";
                false
            }
        }
    }));
    if let Err(e) = r {
        return Outcome::Broken(e);
    }
    if let Some(b) = bad {
        return Outcome::Fail(b);
    }
    obs.nontrivial = reached != "accepted to the end" && reached != "stream ends inside a packet";
    obs.tag(reached);
    Outcome::Pass
}

// ---------------------------------------------------------------------------------------------------------------- C03
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Out {
    packets: Vec<SPacket>,
    /// how many bytes the peer reads at a time
    reads: Vec<usize>,
    sndbuf: Option<u32>,
    rcvbuf: Option<u32>,
}
fn to_code(c: u8) -> ConnAckReturnCode {
    match c {
        0 => ConnAckReturnCode::Accepted,
        1 => ConnAckReturnCode::UnacceptableProtocolVersion,
        2 => ConnAckReturnCode::IdentifierRejected,
        3 => ConnAckReturnCode::ServerUnavailable,
        4 => ConnAckReturnCode::BadUserNameOrPassword,
        _ => ConnAckReturnCode::NotAuthorized,
    }
}
fn to_control(p: &SPacket) -> ControlPacket {
    match p {
        SPacket::ConnAck { session_present, code } => ControlPacket::ConnAck(ConnAckPacket::new(*session_present, to_code(*code))),
        SPacket::Publish(p) => ControlPacket::Publish(PublishPacket {
            packet_id: if p.qos > 0 { Some(p.pid) } else { None },
            dup: p.dup,
            message: Message { topic: p.topic.s(), payload: BytesMut::from(&p.payload.bytes()[..]), qos: qos(p.qos), retain: p.retain },
        }),
        SPacket::PubAck(p) => ControlPacket::PubAck(PubAckPacket::new(*p)),
        SPacket::PubRec(p) => ControlPacket::PubRec(PubRecPacket::new(*p)),
        SPacket::PubRel(p) => ControlPacket::PubRel(PubRelPacket::new(*p)),
        SPacket::PubComp(p) => ControlPacket::PubComp(PubCompPacket::new(*p)),
        SPacket::SubAck { pid, codes } => ControlPacket::SubAck(SubAckPacket::new(
            *pid,
            codes
                .iter()
                .map(|c| match c {
                    0 => SubAckReturnCode::SuccessQoS0,
                    1 => SubAckReturnCode::SuccessQoS1,
                    2 => SubAckReturnCode::SuccessQoS2,
                    _ => SubAckReturnCode::Failure,
                })
                .collect(),
        )),
        SPacket::UnsubAck(p) => ControlPacket::UnsubAck(UnSubAckPacket::new(*p)),
        SPacket::PingResp => ControlPacket::PingResp,
    }
}
fn c03_exec(c: &Out, obs: &mut Obs, _p: Duration) -> Outcome {
    let want: Vec<Vec<u8>> = c.packets.iter().map(|p| p.encode()).collect();
    let total: usize = want.iter().map(|w| w.len()).sum();
    let r: Result<(Vec<u8>, usize, usize), String> = rt().block_on(async {
        let (ut, dr) = pair(c.sndbuf, c.rcvbuf).await;
        let (rd, wr) = ut.into_split();
        let mut stream = MqttBytesWriteStream::new(4096, wr);
        let mut got = vec![];
        let mut blocked = 0;
        let mut reads = 0;
        for (i, p) in c.packets.iter().enumerate() {
            let mut f = Box::pin(write_packet(&mut stream, to_control(p)));
            loop {
                match poll_once(&mut f).await {
                    Some(Ok(())) => break,
                    Some(Err(e)) => return Err(format!("writing packet {i} failed: {e}")),
                    None => {
                        blocked += 1;
                        let mut n = c.reads[reads % c.reads.len()];
                        if reads > 3000 {
                            n = n.max(16384);
                        }
                        reads += 1;
                        read_some(&dr, n, &mut got)?;
                    }
                }
                tokio::task::yield_now().await;
            }
        }
        // every write has completed: whatever was not handed to the socket is lost now
        drop(stream);
        drop(rd);
        loop {
            match read_some(&dr, 65536, &mut got)? {
                None => break,
                Some(0) => tokio::task::yield_now().await,
                Some(_) => {}
            }
        }
        Ok((got, blocked, reads))
    });
    let (got, blocked, _) = match r {
        Ok(x) => x,
        Err(e) => return Outcome::Fail(e),
    };
    let mut at = 0;
    for (i, w) in want.iter().enumerate() {
        let have = &got[at.min(got.len())..got.len().min(at + w.len())];
        if have != &w[..] {
            let d = have.iter().zip(w).position(|(a, b)| a != b).unwrap_or(have.len());
            return Outcome::Fail(format!(
                "packet {i} ({}): on the wire it differs at its byte {d} of {}: {} bytes arrived for it, near {:?}, expected near {:?}",
                format!("{:?}", c.packets[i]).chars().take(160).collect::<String>(),
                w.len(),
                have.len(),
                &have[d.saturating_sub(2)..have.len().min(d + 8)],
                &w[d.saturating_sub(2)..w.len().min(d + 8)]
            ));
        }
        at += w.len();
    }
    if got.len() != total {
        return Outcome::Fail(format!("{} bytes after the last packet", got.len() - total));
    }
    obs.nontrivial = blocked > 0 || want.iter().any(|w| w.len() > 4096) || c.packets.len() > 1;
    obs.tag_if(blocked > 0, "the socket took only part of a write");
    obs.tag_if(blocked > 20, "many partial writes");
    obs.tag_if(want.iter().any(|w| w.len() > 4096), "a packet longer than the 4096-byte buffer");
    obs.tag_if(want.iter().any(|w| w.len() > 2_097_152), "four-byte remaining length");
    obs.tag_if(c.packets.iter().any(|p| matches!(p, SPacket::Publish(p) if p.qos > 0)), "PUBLISH with a packet id");
    obs.tag_if(c.packets.iter().any(|p| matches!(p, SPacket::SubAck { codes, .. } if codes.len() > 100)), "long SUBACK");
    Outcome::Pass
}
fn c03_gen(t: Tier) -> BoxedStrategy<Out> {
    let big = if t == Tier::Quick { 200_000 } else { 1_000_000 };
    let reads = prop_oneof![
        2 => vec(1usize..600, 1..4),
        2 => vec(1usize..5000, 1..5),
        1 => Just(vec![65536usize]),
        1 => Just(vec![4096usize]),
    ];
    let buf = prop_oneof![1 => Just(None), 4 => Just(Some(2048u32)), 2 => (1024u32..40_000).prop_map(Some)];
    (prop_oneof![2 => vec(gen::spacket(big), 1..3), 4 => vec(gen::spacket(20_000), 2..10), 2 => vec(gen::spacket(300), 8..60)], reads, buf.clone(), buf)
        .prop_map(|(packets, reads, sndbuf, rcvbuf)| Out { packets, reads, sndbuf, rcvbuf })
        .boxed()
}
fn c03_huge_gen(t: Tier) -> BoxedStrategy<Out> {
    let full = if t == Tier::Quick { vec![16_777_216usize] } else { vec![268_435_455usize, 268_435_454, 16_777_216] };
    (prop_oneof![3 => 2_097_140usize..2_097_170, 1 => prop::sample::select(full)], "[a-z]{1,8}", 0u8..3, any::<u64>())
        .prop_map(|(rl, topic, qos, seed)| {
            let over = 2 + topic.len() + if qos > 0 { 2 } else { 0 };
            let p = Publish { topic: Txt::Lit(topic), payload: Blob::Gen { len: rl - over, seed }, qos, retain: true, dup: false, pid: if qos > 0 { 0x1234 } else { 0 } };
            Out { packets: vec![SPacket::Publish(p), SPacket::PingResp], reads: vec![65536], sndbuf: None, rcvbuf: None }
        })
        .boxed()
}

pub fn register(reg: &mut Registry) {
    reg.entry("C01").or_default().extend([
        Box::new(Section {
            name: "streams",
            rule: "1-30 generated well-formed client packets in one stream, cut into generated segments, decoded by read_packet over a real TCP pair and compared field by field; each must be decoded as soon as its last byte is there. Non-trivial: several packets, or cut inside, or a packet longer than 4096 bytes.",
            cases: (50_000, 1_000_000),
            workers: 8,
            isolated: true,
            patience: Duration::from_secs(15),
            shrink_secs: 60,
            strategy: c01_gen,
            exec: c01_exec,
        }) as Box<dyn SectionDyn>,
        Box::new(Section {
            name: "huge",
            rule: "packets whose remaining length needs four bytes, up to 268435455. Non-trivial: all.",
            cases: (64, 600),
            workers: 4,
            isolated: true,
            patience: Duration::from_secs(90),
            shrink_secs: 60,
            strategy: c01_huge_gen,
            exec: c01_exec,
        }),
    ]);
    reg.entry("C02").or_default().extend([Box::new(Section {
        name: "hostile",
        rule: "streams of good packets around a mutated, nearly legal or arbitrary one, decoded by read_packet in a watched child process and compared packet by packet with a strict reference decoder; a refusal must not wait for bytes beyond the packet. Non-trivial: a complete packet was reached that the reference refuses or does not rule on.",
        cases: (100_000, 2_000_000),
        workers: 8,
        isolated: true,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: |_| hostile(),
        exec: c02_exec,
    }) as Box<dyn SectionDyn>]);
    reg.entry("C03").or_default().extend([
        Box::new(Section {
            name: "packets",
            rule: "1-60 generated broker packets written by write_packet to a TCP peer that reads a few bytes at a time with small socket buffers; the connection is dropped right after the last completed write and all bytes compared with the reference encoding. Non-trivial: several packets, or a partial write, or a packet longer than 4096 bytes.",
            cases: (40_000, 1_200_000),
            workers: 8,
            isolated: true,
            patience: Duration::from_secs(20),
            shrink_secs: 60,
            strategy: c03_gen,
            exec: c03_exec,
        }) as Box<dyn SectionDyn>,
        Box::new(Section {
            name: "huge",
            rule: "PUBLISH packets whose remaining length needs four bytes. Non-trivial: all.",
            cases: (100, 1000),
            workers: 4,
            isolated: true,
            patience: Duration::from_secs(90),
            shrink_secs: 60,
            strategy: c03_huge_gen,
            exec: c03_exec,
        }),
    ]);
}
