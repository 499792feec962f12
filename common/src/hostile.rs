//! Malformed and nearly well-formed client byte streams.
use crate::gen;
use crate::mqtt::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mut {
    /// set byte `at` (modulo length) to v
    Set(usize, u8),
    /// flip a bit
    Flip(usize, u8),
    Insert(usize, Vec<u8>),
    Delete(usize, usize),
    Truncate(usize),
    /// rewrite the first byte of the packet
    First(u8),
    /// rewrite the remaining length field, minimally encoded
    Len(u32),
    /// add to the remaining length
    LenAdd(i8),
    /// raw remaining-length bytes
    LenRaw(Vec<u8>),
    /// add to a big-endian 16-bit field at a body offset (string lengths live there)
    U16Add(usize, i16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Piece {
    Good(CPacket),
    Mutated(CPacket, Vec<Mut>),
    Raw(Vec<u8>),
    /// plausible fixed header and length around arbitrary content
    Framed(u8, Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hostile {
    pub pieces: Vec<Piece>,
    pub cuts: Vec<usize>,
}
pub fn apply(p: &CPacket, ms: &[Mut]) -> Vec<u8> {
    let mut b = p.encode();
    for m in ms {
        let body_at = b.iter().skip(1).position(|x| x & 0x80 == 0).map(|i| i + 2).unwrap_or(1).min(b.len());
        let relen = |b: &mut Vec<u8>, raw: Vec<u8>| {
            b.splice(1..body_at.max(1), raw);
        };
        if b.is_empty() {
            return b;
        }
        match m {
            Mut::Set(a, v) => {
                let n = b.len();
                b[a % n] = *v
            }
            Mut::Flip(a, v) => {
                let n = b.len();
                b[a % n] ^= 1 << (v % 8)
            }
            Mut::Insert(a, v) => {
                let n = a % (b.len() + 1);
                b.splice(n..n, v.iter().copied());
            }
            Mut::Delete(a, n) => {
                let s = a % b.len();
                let e = (s + n).min(b.len());
                b.drain(s..e);
            }
            Mut::Truncate(n) => {
                let n = n % b.len();
                b.truncate(n)
            }
            Mut::First(v) => b[0] = *v,
            Mut::Len(n) => {
                let mut raw = vec![];
                enc_len((*n as usize).min(268_435_455), &mut raw);
                relen(&mut b, raw);
            }
            Mut::LenAdd(d) => {
                let n = (b.len() - body_at) as i64 + *d as i64;
                let mut raw = vec![];
                enc_len(n.max(0) as usize, &mut raw);
                relen(&mut b, raw);
            }
            Mut::LenRaw(raw) => relen(&mut b, raw.clone()),
            Mut::U16Add(at, d) => {
                if b.len() >= body_at + 2 {
                    let i = body_at + at % (b.len() - body_at - 1);
                    let v = u16::from_be_bytes([b[i], b[i + 1]]).wrapping_add(*d as u16).to_be_bytes();
                    b[i] = v[0];
                    b[i + 1] = v[1];
                }
            }
        }
    }
    b
}
pub fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        3 => (0usize..60, any::<u8>()).prop_map(|(a, v)| Mut::Set(a, v)),
        2 => (any::<usize>(), any::<u8>()).prop_map(|(a, v)| Mut::Set(a, v)),
        3 => (0usize..40, any::<u8>()).prop_map(|(a, v)| Mut::Flip(a, v)),
        2 => (0usize..40, vec(any::<u8>(), 1..5)).prop_map(|(a, v)| Mut::Insert(a, v)),
        2 => (0usize..40, 1usize..5).prop_map(|(a, v)| Mut::Delete(a, v)),
        2 => any::<usize>().prop_map(Mut::Truncate),
        3 => any::<u8>().prop_map(Mut::First),
        2 => prop_oneof![0u32..30, 100u32..300, 16_000u32..17_000, 0u32..268_435_456].prop_map(Mut::Len),
        5 => (-6i8..7).prop_map(Mut::LenAdd),
        2 => vec(prop_oneof![Just(0x80u8), Just(0xffu8), Just(0u8), Just(1u8), any::<u8>()], 1..7).prop_map(Mut::LenRaw),
        5 => (0usize..30, prop_oneof![-4i16..5, any::<i16>()]).prop_map(|(a, d)| Mut::U16Add(a, d)),
    ]
    .boxed()
}
/// Well-framed packets whose content breaks one rule.
pub fn near_legal() -> BoxedStrategy<Piece> {
    let bad_text = || {
        prop_oneof![
            Just(b"a\0b".to_vec()),
            Just(vec![0u8]),
            Just(vec![0xff]),
            Just(vec![b'a', 0xc3]),
            Just(vec![0xed, 0xa0, 0x80]),
            Just(vec![0xf8, 0x88, 0x80, 0x80, 0x80]),
            Just(vec![0xc0, 0x80]),
            Just(vec![]),
            Just(b"a/#".to_vec()),
            Just(b"+".to_vec()),
            Just(b"a/+/b".to_vec()),
            Just(b"a+b".to_vec()),
            "[a-z#+/]{1,6}".prop_map(|s| s.into_bytes()),
            vec(any::<u8>(), 0..6),
        ]
    };
    prop_oneof![
        // PUBLISH: any flags, awkward topic
        5 => (0u8..16, bad_text(), prop_oneof![5 => any::<u16>(), 1 => Just(0)], vec(any::<u8>(), 0..6)).prop_map(|(fl, t, pid, pl)| {
            let mut b = vec![];
            put_str(&t, &mut b);
            if fl & 6 != 0 { b.extend_from_slice(&pid.to_be_bytes()); }
            b.extend_from_slice(&pl);
            Piece::Framed(0x30 | fl, b)
        }),
        // CONNECT: any flags with exactly the fields the flags announce (or one more/less)
        5 => (prop_oneof![6 => Just(0u8), 1 => 0u8..16], any::<u8>(), any::<u16>(), vec(prop_oneof![5 => "[a-z]{0,6}".prop_map(|s| s.into_bytes()), 1 => bad_text()], 6), prop_oneof![6 => Just(0i8), 1 => -1i8..2], prop_oneof![5 => Just(b"MQTT".to_vec()), 1 => Just(b"MQIsdp".to_vec()), 1 => bad_text()], prop_oneof![5 => Just(4u8), 1 => Just(3u8), 1 => any::<u8>()]).prop_map(|(low, fl, ka, fields, extra, name, level)| {
            let mut b = vec![];
            put_str(&name, &mut b);
            b.push(level);
            b.push(fl);
            b.extend_from_slice(&ka.to_be_bytes());
            let n = 1 + if fl & 4 != 0 { 2 } else { 0 } + (fl >> 7) as usize + ((fl >> 6) & 1) as usize;
            let n = (n as i64 + extra as i64).max(0) as usize;
            for i in 0..n { put_str(&fields[i % 6], &mut b); }
            Piece::Framed(0x10 | low, b)
        }),
        // SUBSCRIBE / UNSUBSCRIBE
        3 => (prop_oneof![6 => Just(2u8), 1 => 0u8..16], prop_oneof![5 => any::<u16>(), 1 => Just(0)], vec((prop_oneof![4 => "[a-z+#/]{1,6}".prop_map(|s| s.into_bytes()), 1 => bad_text()], prop_oneof![5 => 0u8..3, 1 => any::<u8>()]), 0..4), vec(any::<u8>(), 0..3), prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(fl, pid, fs, tail, clean)| {
            let mut b = pid.to_be_bytes().to_vec();
            for (f, q) in fs { put_str(&f, &mut b); b.push(q); }
            if !clean { b.extend_from_slice(&tail); }
            Piece::Framed(0x80 | fl, b)
        }),
        2 => (prop_oneof![6 => Just(2u8), 1 => 0u8..16], prop_oneof![5 => any::<u16>(), 1 => Just(0)], vec(prop_oneof![4 => "[a-z+#/]{1,6}".prop_map(|s| s.into_bytes()), 1 => bad_text()], 0..4), vec(any::<u8>(), 0..3), prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(fl, pid, fs, tail, clean)| {
            let mut b = pid.to_be_bytes().to_vec();
            for f in fs { put_str(&f, &mut b); }
            if !clean { b.extend_from_slice(&tail); }
            Piece::Framed(0xA0 | fl, b)
        }),
        // packets without content or with a packet id, any first byte
        4 => (any::<u8>(), prop_oneof![3 => Just(0usize), 3 => Just(2usize), 1 => 1usize..6], any::<[u8; 6]>()).prop_map(|(f, n, b)| Piece::Framed(f, b[..n].to_vec())),
    ]
    .boxed()
}
pub fn hostile() -> BoxedStrategy<Hostile> {
    let good = gen::cpacket(3000).prop_map(Piece::Good);
    let bad = prop_oneof![
        5 => (gen::cpacket(6000), vec(mutation(), 1..4)).prop_map(|(p, m)| Piece::Mutated(p, m)),
        5 => near_legal(),
        1 => vec(any::<u8>(), 0..40).prop_map(Piece::Raw),
        1 => (any::<u8>(), vec(any::<u8>(), 0..40)).prop_map(|(f, b)| Piece::Framed(f, b)),
    ];
    (vec(good.clone(), 0..3), bad, vec(good, 0..3), gen::cuts())
        .prop_map(|(mut a, b, c, cuts)| {
            a.push(b);
            a.extend(c);
            Hostile { pieces: a, cuts }
        })
        .boxed()
}
impl Hostile {
    pub fn bytes(&self) -> Vec<u8> {
        let mut data = vec![];
        for p in &self.pieces {
            data.extend(match p {
                Piece::Good(p) => p.encode(),
                Piece::Mutated(p, m) => apply(p, m),
                Piece::Raw(b) => b.clone(),
                Piece::Framed(f, b) => frame(*f, b),
            });
        }
        data
    }
}
