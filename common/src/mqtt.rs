//! Independent reference implementation of the MQTT 3.1/3.1.1 framing, written from the specification.
use serde::{Deserialize, Serialize};

/// Byte content of a payload: literal, or a reproducible pattern (keeps replay files small).
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Blob {
    Lit(Vec<u8>),
    Gen { len: usize, seed: u64 },
}
impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Lit(v) => v.clone(),
            Blob::Gen { len, seed } => {
                let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
                let mut v = Vec::with_capacity(*len + 8);
                while v.len() < *len {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    v.extend_from_slice(&x.to_le_bytes());
                }
                v.truncate(*len);
                v
            }
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Blob::Lit(v) => v.len(),
            Blob::Gen { len, .. } => *len,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}

/// A string: literal, or a unit repeated n times followed by a tail.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Txt {
    Lit(String),
    Rep { unit: String, n: usize, tail: String },
}
impl Txt {
    pub fn lit(s: &str) -> Txt {
        Txt::Lit(s.to_string())
    }
    pub fn s(&self) -> String {
        match self {
            Txt::Lit(s) => s.clone(),
            Txt::Rep { unit, n, tail } => {
                let mut s = unit.repeat(*n);
                s.push_str(tail);
                s
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Will {
    pub topic: Txt,
    pub payload: Blob,
    pub qos: u8,
    pub retain: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Connect {
    /// 3 (MQTT 3.1, "MQIsdp") or 4 (MQTT 3.1.1, "MQTT")
    pub level: u8,
    pub client_id: Txt,
    pub keep_alive: u16,
    pub clean: bool,
    pub will: Option<Will>,
    pub user: Option<Txt>,
    pub pass: Option<Txt>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Publish {
    pub topic: Txt,
    pub payload: Blob,
    pub qos: u8,
    pub retain: bool,
    pub dup: bool,
    pub pid: u16,
}

/// Packets a client may send.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum CPacket {
    Connect(Connect),
    Publish(Publish),
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    Subscribe { pid: u16, filters: Vec<(Txt, u8)> },
    Unsubscribe { pid: u16, filters: Vec<Txt> },
    PingReq,
    Disconnect,
}

/// Packets the broker may send.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum SPacket {
    ConnAck { session_present: bool, code: u8 },
    Publish(Publish),
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    SubAck { pid: u16, codes: Vec<u8> },
    UnsubAck(u16),
    PingResp,
}

pub fn enc_len(mut n: usize, out: &mut Vec<u8>) {
    loop {
        let mut b = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            b |= 0x80;
        }
        out.push(b);
        if n == 0 {
            break;
        }
    }
}
pub fn put_str(s: &[u8], out: &mut Vec<u8>) {
    assert!(s.len() <= 65535, "harness: string too long");
    out.extend_from_slice(&(s.len() as u16).to_be_bytes());
    out.extend_from_slice(s);
}
pub fn frame(first: u8, body: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(body.len() + 5);
    o.push(first);
    enc_len(body.len(), &mut o);
    o.extend_from_slice(body);
    o
}

pub fn enc_publish(p: &Publish) -> Vec<u8> {
    let mut b = Vec::new();
    put_str(p.topic.s().as_bytes(), &mut b);
    if p.qos > 0 {
        b.extend_from_slice(&p.pid.to_be_bytes());
    }
    b.extend_from_slice(&p.payload.bytes());
    let first = 0x30 | (p.dup as u8) << 3 | p.qos << 1 | p.retain as u8;
    frame(first, &b)
}
fn pid_packet(first: u8, pid: u16) -> Vec<u8> {
    frame(first, &pid.to_be_bytes())
}

impl CPacket {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            CPacket::Connect(c) => {
                let mut b = Vec::new();
                put_str(if c.level == 3 { b"MQIsdp" } else { b"MQTT" }, &mut b);
                b.push(c.level);
                let mut fl = 0u8;
                if c.clean {
                    fl |= 0x02;
                }
                if let Some(w) = &c.will {
                    fl |= 0x04 | w.qos << 3 | (w.retain as u8) << 5;
                }
                if c.pass.is_some() {
                    fl |= 0x40;
                }
                if c.user.is_some() {
                    fl |= 0x80;
                }
                b.push(fl);
                b.extend_from_slice(&c.keep_alive.to_be_bytes());
                put_str(c.client_id.s().as_bytes(), &mut b);
                if let Some(w) = &c.will {
                    put_str(w.topic.s().as_bytes(), &mut b);
                    put_str(&w.payload.bytes(), &mut b);
                }
                if let Some(u) = &c.user {
                    put_str(u.s().as_bytes(), &mut b);
                }
                if let Some(p) = &c.pass {
                    put_str(p.s().as_bytes(), &mut b);
                }
                frame(0x10, &b)
            }
            CPacket::Publish(p) => enc_publish(p),
            CPacket::PubAck(p) => pid_packet(0x40, *p),
            CPacket::PubRec(p) => pid_packet(0x50, *p),
            CPacket::PubRel(p) => pid_packet(0x62, *p),
            CPacket::PubComp(p) => pid_packet(0x70, *p),
            CPacket::Subscribe { pid, filters } => {
                let mut b = pid.to_be_bytes().to_vec();
                for (f, q) in filters {
                    put_str(f.s().as_bytes(), &mut b);
                    b.push(*q);
                }
                frame(0x82, &b)
            }
            CPacket::Unsubscribe { pid, filters } => {
                let mut b = pid.to_be_bytes().to_vec();
                for f in filters {
                    put_str(f.s().as_bytes(), &mut b);
                }
                frame(0xA2, &b)
            }
            CPacket::PingReq => vec![0xC0, 0],
            CPacket::Disconnect => vec![0xE0, 0],
        }
    }
}

impl SPacket {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            SPacket::ConnAck { session_present, code } => vec![0x20, 2, *session_present as u8, *code],
            SPacket::Publish(p) => enc_publish(p),
            SPacket::PubAck(p) => pid_packet(0x40, *p),
            SPacket::PubRec(p) => pid_packet(0x50, *p),
            SPacket::PubRel(p) => pid_packet(0x62, *p),
            SPacket::PubComp(p) => pid_packet(0x70, *p),
            SPacket::SubAck { pid, codes } => {
                let mut b = pid.to_be_bytes().to_vec();
                b.extend_from_slice(codes);
                frame(0x90, &b)
            }
            SPacket::UnsubAck(p) => pid_packet(0xB0, *p),
            SPacket::PingResp => vec![0xD0, 0],
        }
    }
}

/// Splits `buf` at its first complete frame: (first byte, body range end) or None if incomplete, Err if the length field is
/// malformed.
pub fn split_frame(buf: &[u8]) -> Result<Option<(u8, usize, usize)>, String> {
    if buf.is_empty() {
        return Ok(None);
    }
    let mut len = 0usize;
    for i in 0..4 {
        let Some(b) = buf.get(1 + i) else { return Ok(None) };
        len |= ((b & 0x7f) as usize) << (7 * i);
        if b & 0x80 == 0 {
            let start = 2 + i;
            if buf.len() < start + len {
                return Ok(None);
            }
            return Ok(Some((buf[0], start, start + len)));
        }
    }
    Err("remaining length longer than four bytes".into())
}

/// A packet received from the broker, with raw contents (strict).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum RPacket {
    ConnAck { session_present: bool, code: u8 },
    Publish { topic: String, payload: Vec<u8>, qos: u8, retain: bool, dup: bool, pid: Option<u16> },
    PubAck(u16),
    PubRec(u16),
    PubRel(u16),
    PubComp(u16),
    SubAck { pid: u16, codes: Vec<u8> },
    UnsubAck(u16),
    PingResp,
}
impl RPacket {
    pub fn brief(&self) -> String {
        match self {
            RPacket::Publish { topic, payload, qos, retain, dup, pid } => {
                let t: String = topic.chars().take(40).collect();
                format!(
                    "PUBLISH(topic {} bytes {:?}, payload {} bytes {:?}, qos {qos}, retain {retain}, dup {dup}, pid {pid:?})",
                    topic.len(), t, payload.len(), &payload[..payload.len().min(24)]
                )
            }
            p => format!("{p:?}"),
        }
    }
}

pub fn parse_server(first: u8, body: &[u8]) -> Result<RPacket, String> {
    let pid2 = |want: u8, name: &str| -> Result<u16, String> {
        if first != want || body.len() != 2 {
            return Err(format!("bad {name}: first byte {first:#x}, body {body:?}"));
        }
        Ok(u16::from_be_bytes([body[0], body[1]]))
    };
    Ok(match first >> 4 {
        2 => {
            if first != 0x20 || body.len() != 2 || body[0] > 1 || body[1] > 5 {
                return Err(format!("bad CONNACK: {first:#x} {body:?}"));
            }
            RPacket::ConnAck { session_present: body[0] == 1, code: body[1] }
        }
        3 => {
            let qos = (first >> 1) & 3;
            if qos == 3 || body.len() < 2 {
                return Err("bad PUBLISH header".into());
            }
            let tl = u16::from_be_bytes([body[0], body[1]]) as usize;
            if body.len() < 2 + tl + if qos > 0 { 2 } else { 0 } {
                return Err("bad PUBLISH topic length".into());
            }
            let topic = std::str::from_utf8(&body[2..2 + tl]).map_err(|_| "PUBLISH topic is not UTF-8")?.to_string();
            let (pid, at) = if qos > 0 {
                (Some(u16::from_be_bytes([body[2 + tl], body[3 + tl]])), 4 + tl)
            } else {
                (None, 2 + tl)
            };
            RPacket::Publish { topic, payload: body[at..].to_vec(), qos, retain: first & 1 == 1, dup: first & 8 != 0, pid }
        }
        4 => RPacket::PubAck(pid2(0x40, "PUBACK")?),
        5 => RPacket::PubRec(pid2(0x50, "PUBREC")?),
        6 => RPacket::PubRel(pid2(0x62, "PUBREL")?),
        7 => RPacket::PubComp(pid2(0x70, "PUBCOMP")?),
        9 => {
            if first != 0x90 || body.len() < 3 || body[2..].iter().any(|c| ![0, 1, 2, 0x80].contains(c)) {
                return Err(format!("bad SUBACK: {first:#x} {body:?}"));
            }
            RPacket::SubAck { pid: u16::from_be_bytes([body[0], body[1]]), codes: body[2..].to_vec() }
        }
        11 => RPacket::UnsubAck(pid2(0xB0, "UNSUBACK")?),
        13 => {
            if first != 0xD0 || !body.is_empty() {
                return Err(format!("bad PINGRESP: {first:#x} {body:?}"));
            }
            RPacket::PingResp
        }
        _ => return Err(format!("packet type a server never sends: {first:#x}")),
    })
}

/// Verdict of the strict reference decoder on the next packet of a client's byte stream that ends after `buf`.
#[derive(Clone, Debug, PartialEq)]
pub enum RefItem {
    /// must be decoded, to exactly this
    Accept(CPacket, usize),
    /// either decoded to exactly this, or refused (things the property does not rule on)
    Lenient(CPacket, usize),
    /// must be refused
    Reject(&'static str),
    /// end of stream at a packet boundary
    End,
}

struct Cur<'a> {
    b: &'a [u8],
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.b.len() < n {
            return None;
        }
        let (a, r) = self.b.split_at(n);
        self.b = r;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|x| u16::from_be_bytes([x[0], x[1]]))
    }
    fn bin(&mut self) -> Option<&'a [u8]> {
        let n = self.u16()? as usize;
        self.take(n)
    }
}
enum SErr {
    Len,
    Utf8,
}
fn utf(c: &mut Cur) -> Result<String, SErr> {
    let b = c.bin().ok_or(SErr::Len)?;
    let s = std::str::from_utf8(b).map_err(|_| SErr::Utf8)?;
    if s.contains('\0') {
        return Err(SErr::Utf8);
    }
    Ok(s.to_string())
}

pub fn ref_next(buf: &[u8]) -> RefItem {
    use RefItem::*;
    if buf.is_empty() {
        return End;
    }
    let (first, start, end) = match split_frame(buf) {
        Err(_) => return Reject("remaining length field longer than four bytes"),
        Ok(None) => return Reject("stream ends inside a packet"),
        Ok(Some(x)) => x,
    };
    // a remaining length that is not minimally encoded is legal by value
    let nonminimal = start > 2 && buf[start - 1] == 0;
    let mut lenient = nonminimal;
    let mut c = Cur { b: &buf[start..end] };
    macro_rules! len {
        ($e:expr) => {
            match $e {
                Some(v) => v,
                None => return Reject("fields exceed the declared length"),
            }
        };
    }
    macro_rules! st {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(SErr::Len) => return Reject("string exceeds the declared length"),
                Err(SErr::Utf8) => return Reject("string is not valid UTF-8 or contains NUL"),
            }
        };
    }
    let p = match first >> 4 {
        1 => {
            if first != 0x10 {
                return Reject("CONNECT flags");
            }
            let name = len!(c.bin()).to_vec();
            let level = len!(c.u8());
            let fl = len!(c.u8());
            let keep_alive = len!(c.u16());
            if !((name == b"MQTT" && level == 4) || (name == b"MQIsdp" && level == 3)) {
                lenient = true;
                if std::str::from_utf8(&name).is_err() {
                    return Reject("protocol name is not UTF-8");
                }
            }
            if fl & 1 != 0 {
                lenient = true;
            }
            let client_id = st!(utf(&mut c));
            let will = if fl & 4 != 0 {
                let topic = st!(utf(&mut c));
                let payload = len!(c.bin()).to_vec();
                let qos = (fl >> 3) & 3;
                if qos == 3 {
                    return Reject("will QoS 3");
                }
                if topic.is_empty() || topic.contains(['+', '#']) {
                    lenient = true;
                }
                Some(Will { topic: Txt::Lit(topic), payload: Blob::Lit(payload), qos, retain: fl & 0x20 != 0 })
            } else {
                if fl & 0x38 != 0 {
                    lenient = true;
                }
                None
            };
            let user = if fl & 0x80 != 0 { Some(Txt::Lit(st!(utf(&mut c)))) } else { None };
            let pass = if fl & 0x40 != 0 {
                let b = len!(c.bin());
                match std::str::from_utf8(b) {
                    Ok(s) => {
                        if s.contains('\0') {
                            lenient = true;
                        }
                        Some(Txt::Lit(s.to_string()))
                    }
                    Err(_) => return Reject("password is not UTF-8 (unsupported)"),
                }
            } else {
                None
            };
            if pass.is_some() && user.is_none() {
                lenient = true;
            }
            CPacket::Connect(Connect { level, client_id: Txt::Lit(client_id), keep_alive, clean: fl & 2 != 0, will, user, pass })
        }
        3 => {
            let qos = (first >> 1) & 3;
            if qos == 3 {
                return Reject("QoS 3");
            }
            let dup = first & 8 != 0;
            if dup && qos == 0 {
                lenient = true;
            }
            let topic = st!(utf(&mut c));
            if topic.is_empty() {
                return Reject("empty topic");
            }
            if topic.contains(['+', '#']) {
                return Reject("wildcard in a topic");
            }
            let pid = if qos > 0 { len!(c.u16()) } else { 0 };
            if qos > 0 && pid == 0 {
                lenient = true;
            }
            let payload = std::mem::take(&mut c.b).to_vec();
            CPacket::Publish(Publish { topic: Txt::Lit(topic), payload: Blob::Lit(payload), qos, retain: first & 1 != 0, dup, pid })
        }
        t @ (4..=7) => {
            let want = if t == 6 { 0x62 } else { t << 4 };
            if first != want {
                return Reject("fixed header flags");
            }
            let pid = len!(c.u16());
            if pid == 0 {
                lenient = true;
            }
            match t {
                4 => CPacket::PubAck(pid),
                5 => CPacket::PubRec(pid),
                6 => CPacket::PubRel(pid),
                _ => CPacket::PubComp(pid),
            }
        }
        8 => {
            if first != 0x82 {
                return Reject("SUBSCRIBE flags");
            }
            let pid = len!(c.u16());
            if pid == 0 {
                lenient = true;
            }
            let mut filters = vec![];
            if c.b.is_empty() {
                return Reject("SUBSCRIBE without filters");
            }
            while !c.b.is_empty() {
                let f = st!(utf(&mut c));
                let q = len!(c.u8());
                if q > 2 {
                    return Reject("requested QoS");
                }
                filters.push((Txt::Lit(f), q));
            }
            CPacket::Subscribe { pid, filters }
        }
        10 => {
            if first != 0xA2 {
                return Reject("UNSUBSCRIBE flags");
            }
            let pid = len!(c.u16());
            if pid == 0 {
                lenient = true;
            }
            let mut filters = vec![];
            if c.b.is_empty() {
                return Reject("UNSUBSCRIBE without filters");
            }
            while !c.b.is_empty() {
                filters.push(Txt::Lit(st!(utf(&mut c))));
            }
            CPacket::Unsubscribe { pid, filters }
        }
        12 if first == 0xC0 => CPacket::PingReq,
        14 if first == 0xE0 => CPacket::Disconnect,
        12 | 14 => return Reject("fixed header flags"),
        _ => return Reject("packet type a client never sends"),
    };
    if !c.b.is_empty() {
        return Reject("bytes left over in the packet");
    }
    if lenient {
        Lenient(p, end)
    } else {
        Accept(p, end)
    }
}

/// MQTT 4.7: is this a valid topic filter?
pub fn valid_filter(f: &str) -> bool {
    if f.is_empty() || f.contains('\0') || f.len() > 65535 {
        return false;
    }
    let n = f.split('/').count();
    f.split('/').enumerate().all(|(i, l)| match l {
        "+" => true,
        "#" => i + 1 == n,
        l => !l.contains(['+', '#']),
    })
}
pub fn valid_topic(t: &str) -> bool {
    !t.is_empty() && !t.contains(['\0', '+', '#']) && t.len() <= 65535
}

/// MQTT 4.7 matching, recursive definition on level lists made iterative.
pub fn matches(filter: &str, topic: &str) -> bool {
    if topic.starts_with('$') && (filter.starts_with('+') || filter.starts_with('#')) {
        return false;
    }
    let mut t = topic.split('/');
    let mut fl = filter.split('/').peekable();
    loop {
        match (fl.next(), t.next()) {
            // '#' stands for the parent level too, and for any number of further levels
            (Some("#"), _) => return true,
            (Some("+"), Some(_)) => {}
            (Some(a), Some(b)) if a == b => {}
            (None, None) => return true,
            _ => return false,
        }
    }
}
/// The one case in which this repository knowingly differs from MQTT (pinned by its own test
/// test_subscribed_clients_wildcard_hash_not_matching): 'x/#' does not match its parent level 'x'.
pub fn is_hash_parent(filter: &str, topic: &str) -> bool {
    filter.ends_with("/#") && matches(filter, topic) && filter.split('/').count() == topic.split('/').count() + 1
}
