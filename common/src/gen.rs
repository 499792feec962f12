//! Generators (proptest strategies) shared by the checks.
use crate::mqtt::*;
use proptest::collection::vec;
use proptest::prelude::*;

/// Lengths biased to the boundaries that matter for MQTT framing and the broker's 4096-byte buffers.
pub fn blob_len(max: usize) -> BoxedStrategy<usize> {
    let around = |x: usize, d: usize| x.saturating_sub(d)..=x + d;
    prop_oneof![
        6 => 0usize..40,
        3 => around(127, 14),
        2 => 40usize..2000,
        4 => around(4096, 40),
        3 => around(8192, 60),
        1 => around(12288, 60),
        3 => around(16384, 20),
        2 => 2000usize..40000,
        1 => around(65535, 12),
        1 => 40000usize..200_000,
    ]
    .prop_map(move |n| n.min(max))
    .boxed()
}
pub fn blob(max: usize) -> BoxedStrategy<Blob> {
    prop_oneof![
        2 => vec(any::<u8>(), 0..24).prop_map(Blob::Lit),
        1 => Just(Blob::Lit(vec![])),
        1 => vec(prop_oneof![Just(0u8), Just(0xff), Just(0x30), Just(b'\n'), Just(0x10)], 1..12).prop_map(Blob::Lit),
        4 => (blob_len(max), any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
    ]
    .boxed()
}

pub fn small_blob() -> BoxedStrategy<Blob> {
    prop_oneof![
        3 => vec(any::<u8>(), 0..24).prop_map(Blob::Lit),
        1 => (0usize..600, any::<u64>()).prop_map(|(len, seed)| Blob::Gen { len, seed }),
    ]
    .boxed()
}

/// UTF-8 text without NUL.
pub fn text(max: usize) -> BoxedStrategy<Txt> {
    prop_oneof![
        6 => "[ -~]{0,16}".prop_map(Txt::Lit),
        3 => "[^\u{0}]{0,10}".prop_map(Txt::Lit),
        1 => Just(Txt::lit("")),
        2 => ("[a-z\u{e9}\u{20ac}\u{1F600}]{1,3}", blob_len(max)).prop_map(move |(unit, n)| {
            let n = n / unit.len();
            Txt::Rep { unit, n, tail: String::new() }
        }),
        1 => (0usize..3).prop_map(move |d| Txt::Rep { unit: "x".into(), n: max - d, tail: String::new() }),
    ]
    .boxed()
}

/// Pairs of names that common 32-bit hashes do not tell apart (31-based, CRC-32, FNV-1, FNV-1a, djb2).
pub const ALIKE: &[&str] = &["Aa", "BB", "plumless", "buckeroo", "creamwove", "quists", "costarring", "liquid", "hetairas", "mentioner"];
/// Words that mean something special elsewhere.
pub const WORDS: &[&str] = &[
    "-", "--", "-p", "@", "@x", "$HOME", "${HOME}", "$1", "~", "~/x", "*", "%s", "%20", "%", "{}", "null", "none", "nil", "true", "false", "0", "default", "anonymous", "guest", "root", "admin", "\\n",
    "\\", "..", ".", "#", "+", "'", "\"", "`", "!", "?", ";", "|", "&", "<", "x/y", "env:HOME", "file:x", "stdin", "prompt", "password", "user", "//", "=", ",", "(", "[", "system", "internal", "broker",
];
pub fn word() -> BoxedStrategy<String> {
    prop::sample::select(WORDS.to_vec()).prop_map(|s| s.to_string()).boxed()
}
/// The same without what separates names from hashes.
pub fn name_word() -> BoxedStrategy<String> {
    word().prop_map(|s| s.replace(':', "")).boxed()
}
/// Topic level alphabet: small so that filters and topics collide, with awkward members.
pub fn level() -> BoxedStrategy<String> {
    prop_oneof![
        10 => prop::sample::select(vec!["a", "b", "c", "d"]).prop_map(|s| s.to_string()),
        2 => Just(String::new()),
        2 => prop::sample::select(vec!["A", "aa", "ab", "ba", "a b", "a ", " a", " ", "\u{e9}", "e\u{301}", "\u{1F600}", "a.b", "*", "$", "$a", "$SYS", "0", "00"]).prop_map(|s| s.to_string()),
        1 => "[a-zA-Z0-9_. $-]{1,12}".prop_map(|s| s),
        1 => long_level(),
        1 => prop::sample::select(ALIKE.to_vec()).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
/// Long levels that differ only behind, or only before, a common part.
fn long_level() -> BoxedStrategy<String> {
    let n = prop::sample::select(vec![15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256, 1000]);
    (n, 0u8..3, prop::sample::select(vec!["a", "b"]), prop::bool::weighted(0.25))
        .prop_map(|(n, how, end, wide)| {
            let unit = if wide { "\u{e9}" } else { "l" };
            let body = unit.repeat(n / unit.len());
            match how {
                0 => format!("{end}{body}"),
                1 => format!("{body}{end}"),
                _ => body,
            }
        })
        .boxed()
}
fn join(ls: Vec<String>) -> String {
    ls.join("/")
}
/// A valid topic name.
pub fn topic() -> BoxedStrategy<Txt> {
    prop_oneof![
        12 => vec(level(), 1..6).prop_map(join).prop_map(Txt::Lit),
        1 => vec(level(), 6..40).prop_map(join).prop_map(Txt::Lit),
        2 => (prop::sample::select(vec!["$SYS", "$", "$a", "$share"]), vec(level(), 0..3)).prop_map(|(h, mut t)| {
            t.insert(0, h.to_string());
            Txt::Lit(join(t))
        }),
    ]
    .prop_map(|t| if t.s().is_empty() { Txt::lit("/") } else { t })
    .boxed()
}
/// A valid topic filter.
pub fn filter() -> BoxedStrategy<Txt> {
    let lv = prop_oneof![5 => level(), 3 => Just("+".to_string())];
    prop_oneof![
        12 => (vec(lv.clone(), 1..6), prop::bool::weighted(0.3)),
        1 => (vec(lv, 6..40), prop::bool::weighted(0.3)),
        1 => Just((vec![], true)),
    ]
    .prop_map(|(mut ls, hash)| {
        if hash {
            ls.push("#".into());
        }
        let s = join(ls);
        Txt::Lit(if s.is_empty() { "/".into() } else { s })
    })
    .boxed()
}
/// A filter derived from a topic (so that it is likely to match, or to just miss).
pub fn filter_like(t: &str, muts: &[(usize, u8)], hash_at: Option<usize>) -> String {
    let mut ls: Vec<String> = t.split('/').map(|s| s.to_string()).collect();
    for (i, m) in muts {
        let k = i % ls.len();
        match m {
            0..=3 => ls[k] = "+".into(),
            4 => ls[k] = ls[k].to_uppercase(),
            5 => {
                ls[k].push('a');
            }
            6 => {
                ls.insert(k, String::new());
            }
            7 if ls.len() > 1 => {
                ls.remove(k);
            }
            8 => ls.insert(k, "+".into()),
            9 => ls.push("+".into()),
            10 => {
                ls[k].pop();
            }
            11 => {
                if let Some(c) = ls[k].pop() {
                    ls[k].push(if c == 'a' { 'b' } else { 'a' });
                }
            }
            _ => {}
        }
    }
    if let Some(h) = hash_at {
        let k = h % (ls.len() + 1);
        ls.truncate(k);
        ls.push("#".into());
    }
    // a mutation of a '+' level may have produced something like "+a": make it plain again
    let n = ls.len();
    for (i, l) in ls.iter_mut().enumerate() {
        if l != "+" && !(l == "#" && i + 1 == n) {
            *l = l.replace(['+', '#'], "");
        }
    }
    let s = ls.join("/");
    if s.is_empty() {
        "/".into()
    } else {
        s
    }
}
pub fn filter_near(t: BoxedStrategy<Txt>) -> BoxedStrategy<(Txt, Txt)> {
    (t, vec((any::<usize>(), 0u8..14), 0..4), prop::option::weighted(0.35, any::<usize>()))
        .prop_map(|(t, m, h)| {
            let f = filter_like(&t.s(), &m, h);
            (t, Txt::Lit(f))
        })
        .boxed()
}

pub fn pid() -> BoxedStrategy<u16> {
    prop_oneof![
        3 => prop::sample::select(vec![1u16, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]),
        5 => 1u16..=u16::MAX,
    ]
    .boxed()
}
pub fn keep_alive() -> BoxedStrategy<u16> {
    prop_oneof![prop::sample::select(vec![0u16, 1, 2, 3, 60, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff]), any::<u16>()].boxed()
}

pub fn publish(max_payload: usize) -> BoxedStrategy<Publish> {
    let t = prop_oneof![
        8 => topic(),
        2 => text(65535).prop_map(|t| {
            let s = t.s();
            if s.is_empty() || s.contains(['+', '#']) { Txt::Lit(format!("t{}", s.replace(['+', '#'], "_"))) } else { t }
        }).prop_map(|t| if t.s().len() > 65535 { Txt::lit("t") } else { t }),
    ];
    (t, blob(max_payload), 0u8..3, any::<bool>(), any::<bool>(), pid())
        .prop_map(|(topic, payload, qos, retain, dup, pid)| Publish { topic, payload, qos, retain, dup: dup && qos > 0, pid: if qos > 0 { pid } else { 0 } })
        .boxed()
}
/// What is easily taken for `b`: the same length, sum or hash.
pub fn alike(b: &[u8], how: u8, at: usize) -> Vec<u8> {
    let mut v = b.to_vec();
    let n = v.len();
    if n < 2 {
        v.push(how);
        return v;
    }
    let i = at % (n - 1);
    match how % 10 {
        0 => v.reverse(),
        1 => v.swap(i, i + 1),
        2 => v.rotate_left(1 + at % (n - 1)),
        // the same sum
        3 => {
            v[i] = v[i].wrapping_add(1);
            v[i + 1] = v[i + 1].wrapping_sub(1);
        }
        // the same hash by the factor 31
        4 => {
            v[i] = v[i].wrapping_add(1);
            v[i + 1] = v[i + 1].wrapping_sub(31);
        }
        // the same exclusive or
        5 => {
            v[i] ^= 0x41;
            v[n - 1] ^= 0x41;
        }
        6 => v[n - 1] ^= 1,
        7 => v[0] ^= 0x80,
        8 => v[i] ^= 1 << (how / 10 % 8),
        _ => v.swap(0, n - 1),
    }
    v
}
pub fn will() -> BoxedStrategy<Will> {
    (topic(), blob(65535), 0u8..3, any::<bool>()).prop_map(|(topic, payload, qos, retain)| Will { topic, payload, qos, retain }).boxed()
}
pub fn connect() -> BoxedStrategy<Connect> {
    (
        prop_oneof![4 => Just(4u8), 1 => Just(3u8)],
        text(65535),
        keep_alive(),
        any::<bool>(),
        prop::option::weighted(0.4, will()),
        prop::option::weighted(0.6, (text(65535), prop::option::weighted(0.7, text(65535)))),
    )
        .prop_map(|(level, client_id, keep_alive, clean, will, up)| {
            let (user, pass) = match up {
                Some((u, p)) => (Some(u), p),
                None => (None, None),
            };
            Connect { level, client_id, keep_alive, clean, will, user, pass }
        })
        .boxed()
}
fn any_filter() -> BoxedStrategy<Txt> {
    prop_oneof![5 => filter(), 1 => text(65535)].boxed()
}
pub fn subscribe() -> BoxedStrategy<CPacket> {
    let n = prop_oneof![6 => 1usize..5, 2 => 5usize..40, 1 => 120usize..140, 1 => 250usize..300];
    (pid(), n.prop_flat_map(|n| if n < 5 { vec((any_filter(), 0u8..3), n) } else { vec((filter(), 0u8..3), n) }))
        .prop_map(|(pid, filters)| CPacket::Subscribe { pid, filters })
        .boxed()
}
pub fn unsubscribe() -> BoxedStrategy<CPacket> {
    let n = prop_oneof![6 => 1usize..5, 2 => 5usize..40, 1 => 120usize..140];
    (pid(), n.prop_flat_map(|n| if n < 5 { vec(any_filter(), n) } else { vec(filter(), n) }))
        .prop_map(|(pid, filters)| CPacket::Unsubscribe { pid, filters })
        .boxed()
}
pub fn cpacket(max_payload: usize) -> BoxedStrategy<CPacket> {
    prop_oneof![
        3 => connect().prop_map(CPacket::Connect),
        5 => publish(max_payload).prop_map(CPacket::Publish),
        1 => pid().prop_map(CPacket::PubAck),
        1 => pid().prop_map(CPacket::PubRec),
        1 => pid().prop_map(CPacket::PubRel),
        1 => pid().prop_map(CPacket::PubComp),
        3 => subscribe(),
        2 => unsubscribe(),
        1 => Just(CPacket::PingReq),
        1 => Just(CPacket::Disconnect),
    ]
    .boxed()
}
pub fn spacket(max_payload: usize) -> BoxedStrategy<SPacket> {
    let code = prop::sample::select(vec![0u8, 1, 2, 0x80]);
    prop_oneof![
        1 => (any::<bool>(), 0u8..6).prop_map(|(session_present, code)| SPacket::ConnAck { session_present, code }),
        6 => publish(max_payload).prop_map(SPacket::Publish),
        1 => pid().prop_map(SPacket::PubAck),
        1 => pid().prop_map(SPacket::PubRec),
        1 => pid().prop_map(SPacket::PubRel),
        1 => pid().prop_map(SPacket::PubComp),
        2 => (pid(), prop_oneof![4 => vec(code.clone(), 1..6), 1 => vec(code.clone(), 120..135), 1 => vec(code, 4080..4110)]).prop_map(|(pid, codes)| SPacket::SubAck { pid, codes }),
        1 => pid().prop_map(SPacket::UnsubAck),
        1 => Just(SPacket::PingResp),
    ]
    .boxed()
}

/// Client id number `n` of a family in which the ids resemble each other; different numbers (below 32) give different ids.
pub fn client_name(style: u16, n: u16) -> String {
    let lens = [7, 8, 15, 16, 20, 22, 23, 24, 31, 32, 63, 64, 127, 128, 255, 256, 1000, 5000];
    let len = lens[(style / 16) as usize % lens.len()];
    match style % 16 {
        0 => format!("own-{n}"),
        // the same for a hash by the factor 31
        1 => (0..16).map(|i| if n >> i & 1 == 1 { "BB" } else { "Aa" }).collect(),
        // each a prefix of the next
        2 => format!("c{}", "1".repeat(n as usize)),
        3 => "1".repeat(n as usize + 1),
        // different only behind a long common part
        4 | 5 => format!("{}{n}", "client/of-the.same_kind ".repeat(len / 20 + 1).chars().take(len).collect::<String>()),
        // different only before one
        6 => format!("{n}{}", "x".repeat(len)),
        // upper and lower case
        7 => "abcdefghijklmnop".chars().enumerate().map(|(i, c)| if n >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect(),
        // blanks
        8 => format!("{}id{}", " ".repeat(n as usize / 6), " ".repeat(n as usize % 6)),
        // composed and decomposed characters
        9 => (0..16).map(|i| if n >> i & 1 == 1 { "\u{e9}" } else { "e\u{301}" }).collect(),
        // what means something elsewhere
        10 => ["#", "+", "/", "$SYS", "a/#", "a/+", "a/b", "$", "%", "*", ".", "..", "null", "0", "-1", "\"\"", "{}", "\\", "'", "a:b", "a=b", "\t", "a\nb", "\u{feff}", "undefined", "None", "true", "~", "?", "a,b", "|", "\u{7f}"][n as usize % 32].to_string() + &if n < 32 { String::new() } else { (n / 32).to_string() },
        // numbers that are equal as numbers
        11 => format!("{}1{}", "0".repeat(n as usize / 6), [".0", "", ".", ".00", "e0", ".000"][n as usize % 6]),
        // like generated ids
        12 => format!("123e4567-e89b-42d3-a456-4266141740{n:02}"),
        // characters of several bytes around the lengths
        13 => format!("{}{n}", "\u{1F600}".repeat(len / 4)),
        14 => format!("{}{}{n}", "a".repeat(len % 4 + 1), "\u{20ac}".repeat(len / 3)),
        _ => format!("{}", (b'a' + (n % 26) as u8) as char).repeat(1 + n as usize / 26),
    }
}
pub fn name_style() -> BoxedStrategy<u16> {
    prop_oneof![1 => Just(0u16), 2 => any::<u16>()].boxed()
}

/// How a byte stream is cut: segment lengths, used cyclically; 0 means "all that is left".
pub fn cuts() -> BoxedStrategy<Vec<usize>> {
    prop_oneof![
        2 => Just(vec![0]),
        2 => Just(vec![1]),
        3 => vec(1usize..12, 1..6),
        3 => vec(1usize..3000, 1..6),
        2 => vec(prop_oneof![4080usize..4110, 1usize..6, 8180usize..8200], 1..5),
        1 => vec(1usize..60000, 1..4),
    ]
    .boxed()
}
