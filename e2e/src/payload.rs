//! C06: what is delivered is exactly what was published.
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Recv {
    /// 0: '#', 1: one filter per topic, 2: per topic with '+' for its first level
    kind: u8,
    /// requested QoS
    qos: u8,
    rcvbuf: Option<usize>,
    slow: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    recv: Vec<Recv>,
    msgs: Vec<(Publish, Vec<usize>, u8)>,
    publishers: u8,
    /// publish everything before looking at what arrived
    pipelined: bool,
}

fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    crate::broker::only(crate::broker::Disturb::NoLogs);
    let mut w = World::start(1, &[], patience)?;
    w.record = true;
    let addr = w.broker.addrs[0].clone();
    let mut rs = vec![];
    for (k, r) in c.recv.iter().enumerate() {
        let cl = crate::client::Client::open_with(&addr, &w.bell, patience, r.rcvbuf, r.slow as u64, vec![]).map_err(Outcome::Late)?;
        let i = w.adopt(cl, format!("receiver {k}"));
        w.connect(i, &plain_connect(&format!("r{k}")), &[], &[])?;
        let mut fs: Vec<String> = vec![];
        for (p, _, _) in &c.msgs {
            let t = p.topic.s();
            let f = match (r.kind % 3, t.split_once('/')) {
                (0, _) => "#".to_string(),
                (2, Some((_, rest))) if !t.starts_with('$') => format!("+/{rest}"),
                _ => t.clone(),
            };
            // each message must match exactly one filter held, so that it arrives exactly once
            if !fs.contains(&f) {
                fs.push(f);
            }
        }
        for (n, f) in fs.iter().enumerate() {
            w.subscribe(i, n as u16 + 1, &[(Txt::lit(f), r.qos % 3)], &[])?;
        }
        rs.push(i);
    }
    let np = c.publishers.clamp(1, 3) as usize;
    let mut ps = vec![];
    for k in 0..np {
        let i = w.dial(0, format!("publisher {k}"))?;
        w.connect(i, &plain_connect(&format!("p{k}")), &[], &[])?;
        ps.push(i);
    }
    // what each receiver must see, in order, per message; several publishers are only used when not pipelined
    let mut want: Vec<Vec<&Publish>> = vec![vec![]; rs.len()];
    let mut seen = vec![0usize; rs.len()];
    let check = |w: &mut World, want: &Vec<Vec<&Publish>>, seen: &mut Vec<usize>| -> R<()> {
        w.until("delivery of everything published", |w| rs.iter().enumerate().all(|(k, i)| w.conns[*i].got.len() >= want[k].len()))?;
        for (k, i) in rs.iter().enumerate() {
            while seen[k] < w.conns[*i].got.len() {
                let n = seen[k];
                let g = &w.conns[*i].got[n];
                let Some(p) = want[k].get(n) else { return fail(format!("receiver {k} received one message too many: {}", g.brief())) };
                let RPacket::Publish { topic, payload, qos, retain, dup, pid } = g else { return fail("?") };
                let (t, b) = (p.topic.s(), p.payload.bytes());
                if *topic != t || *payload != b {
                    let at = payload.iter().zip(&b).position(|(x, y)| x != y);
                    return fail(format!(
                        "receiver {k}, message {n}: received {}, published was topic {} ({} bytes) and {} bytes of payload {:02x?}; first difference in the payload at {at:?}",
                        g.brief(), brief(&t), t.len(), b.len(), &b[..b.len().min(24)]
                    ));
                }
                if *qos != 0 || *retain || *dup || pid.is_some() {
                    return fail(format!("receiver {k}, message {n} is not a plain QoS 0 message: {}", g.brief()));
                }
                seen[k] += 1;
            }
        }
        Ok(())
    };
    let mut cleaned = 0;
    for (n, (p, cuts, who)) in c.msgs.iter().enumerate() {
        let i = if c.pipelined { ps[0] } else { ps[*who as usize % np] };
        for (k, r) in c.recv.iter().enumerate() {
            let t = p.topic.s();
            if !(r.kind % 3 == 0 && t.starts_with('$')) {
                want[k].push(p);
            }
        }
        let mut q = p.clone();
        q.pid = if q.qos > 0 { n as u16 + 1 } else { 0 };
        w.send_p(i, &CPacket::Publish(q), cuts)?;
        if !c.pipelined {
            check(&mut w, &want, &mut seen)?;
        }
        obs.tag_if(p.payload.is_empty(), "empty payload");
        obs.tag_if(p.payload.len() > 4096, "payload above 4096 bytes");
        obs.tag_if(p.payload.len() > 65536, "payload above 64 KiB");
        obs.tag_if(p.payload.len() > 1 << 21, "payload above 2 MiB");
        obs.tag_if(p.topic.s().len() > 1000, "long topic");
        obs.tag_if(p.qos > 0, "published with QoS 1 or 2");
        obs.tag_if(p.retain, "published with RETAIN");
        cleaned += (p.qos > 0 || p.retain || p.dup) as u32;
    }
    check(&mut w, &want, &mut seen)?;
    for i in ps.iter().chain(rs.iter()) {
        w.ping(*i)?;
    }
    check(&mut w, &want, &mut seen)?;
    w.finish()?;
    obs.tag_if(c.recv.iter().any(|r| r.slow > 0), "slow receiver");
    obs.tag_if(c.recv.len() > 1, "several receivers");
    obs.nontrivial = want.iter().any(|x| !x.is_empty()) && (cleaned > 0 || c.msgs.iter().any(|(p, _, _)| p.payload.len() > 4000 || p.payload.is_empty()));
    Ok(())
}
fn gen_case(t: Tier) -> BoxedStrategy<Case> {
    let max = if t == Tier::Thorough { 3_000_000 } else { 300_000 };
    let recv = (0u8..3, 0u8..3, prop_oneof![3 => Just(None), 1 => (2000usize..20000).prop_map(Some)], prop_oneof![4 => Just(0u16), 1 => 1u16..200])
        .prop_map(|(kind, qos, rcvbuf, slow)| Recv { kind, qos, rcvbuf, slow });
    let size = prop_oneof![12 => gen::publish(40_000), 2 => gen::publish(200_000), 1 => (gen::publish(10), 100_000usize..max, any::<u64>()).prop_map(|(mut p, len, seed)| { p.payload = Blob::Gen { len, seed }; p })];
    let huge = (1_000_000usize..6_000_000, any::<u64>());
    let kin = (prop_oneof![3 => Just(0u8), 2 => any::<u8>()], any::<u8>(), any::<usize>());
    (vec(recv, 1..4), vec((size, gen::cuts(), any::<u8>(), kin), 1..7), 1u8..4, any::<bool>(), prop::option::weighted(0.02, huge))
        .prop_map(|(mut recv, raw, publishers, pipelined, huge)| {
            let mut msgs: Vec<(Publish, Vec<usize>, u8)> = vec![];
            for (mut p, cuts, who, (kin, how, at)) in raw {
                // some are like an earlier message, but for their payload or their topic
                if let (true, false) = (kin > 0, msgs.is_empty()) {
                    let old = &msgs[kin as usize / 8 % msgs.len()].0;
                    if kin % 8 != 1 {
                        p.topic = old.topic.clone();
                    }
                    if kin % 8 < 6 && old.payload.len() < 5000 {
                        let b = old.payload.bytes();
                        p.payload = Blob::Lit(if kin % 8 < 2 { b } else { gen::alike(&b, how, at) });
                    }
                }
                msgs.push((p, cuts, who));
            }
            if let Some((len, seed)) = huge {
                msgs[0].0.payload = Blob::Gen { len, seed };
                msgs[0].1.clear();
            }
            let total: usize = msgs.iter().map(|m| m.0.payload.len() + m.0.topic.s().len()).sum();
            for r in recv.iter_mut() {
                // 512 bytes per read: keep slow receivers to a second or so
                if total > 60_000 {
                    r.slow = 0;
                }
            }
            Case { recv, msgs, publishers, pipelined }
        })
        .boxed()
}

pub fn register(reg: &mut Registry) {
    reg.entry("C06").or_default().push(Box::new(Section {
        name: "payloads",
        rule: "1-3 receivers (by '#', exact or '+' filters, some slow with tiny buffers) and 1-3 publishers on a real broker; 1-6 messages with any topic, payload content and size (0 to 300 kB quick, 3 MB thorough, in one case of fifty up to 6 MB), QoS, RETAIN and DUP, cut into random segments; every received packet is compared byte for byte. Non-trivial: some message had a non-default flag, or an empty payload, or more than 4000 bytes.",
        cases: (1500, 25_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
