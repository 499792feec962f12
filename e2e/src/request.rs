//! C08: pipelined requests; exact answers in order, acknowledged changes in effect at once.
use crate::history::bad_filter;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Req {
    Sub { pid: u16, filters: Vec<(Txt, u8)> },
    /// filters, and indices of filters held
    Unsub { pid: u16, filters: Vec<Txt>, held: Vec<u8> },
    Ping,
    /// so many in a row
    Pings(u32),
    /// a message of the requesting client itself; whether it comes back is not judged here
    Pub { topic: Txt, size: u16, qos: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    /// who asks
    who: u8,
    reqs: Vec<Req>,
    cuts: Vec<usize>,
    /// the prober publishes this many rounds of probes as soon as the last answer is there
    bursts: u8,
    /// asks on a new connection, in one stream with its CONNECT, 1: after leaving, 2: taking over its session
    #[serde(default)]
    fresh: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    clients: u8,
    rounds: Vec<Round>,
    probes: Vec<Txt>,
}

fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut w = World::start(1, &[], patience)?;
    let n = c.clients.clamp(1, 3) as usize;
    let mut ids = vec![];
    for k in 0..n {
        let i = w.dial(0, format!("client {k}"))?;
        w.connect(i, &plain_connect(&format!("c{k}")), &[], &[])?;
        ids.push(i);
    }
    let prober = w.dial(0, "prober".into())?;
    w.connect(prober, &plain_connect("prober"), &[], &[])?;
    let (mut answers, mut invalid, mut many, mut removed) = (0, 0, 0, 0);
    for r in &c.rounds {
        let who = r.who as usize % n;
        if r.fresh > 0 {
            if r.fresh == 1 {
                w.disconnect(ids[who], &[])?;
            }
            ids[who] = w.dial(0, format!("client {who} again"))?;
        }
        let i = ids[who];
        let mut b = vec![];
        // requests as sent, with what is held according to the model while they are handled one by one
        let mut sent: Vec<Req> = vec![];
        let mut held = w.conns[i].filters.clone();
        for q in &r.reqs {
            let q = match q {
                Req::Unsub { pid, filters, held: h } => {
                    let mut fs = filters.clone();
                    if !held.is_empty() {
                        fs.extend(h.iter().map(|x| Txt::lit(&held[*x as usize % held.len()])));
                    }
                    if fs.is_empty() {
                        fs.push(Txt::lit("nothing/here"));
                    }
                    Req::Unsub { pid: *pid, filters: fs, held: vec![] }
                }
                q => q.clone(),
            };
            match &q {
                Req::Sub { pid, filters } => {
                    b.extend(CPacket::Subscribe { pid: *pid, filters: filters.clone() }.encode());
                    invalid += filters.iter().filter(|(f, _)| !valid_filter(&f.s())).count();
                    many += (filters.len() > 20) as u32;
                    for (f, _) in filters {
                        let f = f.s();
                        if valid_filter(&f) && !held.contains(&f) {
                            held.push(f);
                        }
                    }
                }
                Req::Unsub { pid, filters, .. } => {
                    b.extend(CPacket::Unsubscribe { pid: *pid, filters: filters.clone() }.encode());
                    let fs: Vec<String> = filters.iter().map(|f| f.s()).collect();
                    removed += held.iter().filter(|f| fs.contains(f)).count();
                    held.retain(|f| !fs.contains(f));
                }
                Req::Ping => b.extend([0xC0, 0]),
                Req::Pings(n) => (0..*n).for_each(|_| b.extend([0xC0, 0])),
                Req::Pub { topic, size, qos } => {
                    let (m, mut p) = w.message(i, &topic.s(), *size as usize, true);
                    for k in &ids {
                        w.conns[*k].expect.insert(m, (0, 10_000));
                    }
                    p.qos = *qos % 3;
                    p.pid = if p.qos > 0 { m as u16 + 1 } else { 0 };
                    b.extend(CPacket::Publish(p).encode());
                }
            }
            sent.push(q);
        }
        if r.fresh > 0 {
            w.connect(i, &plain_connect(&format!("c{who}")), &r.cuts, &b)?;
        } else {
            w.send(i, &b, &r.cuts)?;
        }
        for q in &sent {
            match q {
                Req::Sub { pid, filters } => w.suback(i, *pid, filters)?,
                Req::Unsub { pid, filters, .. } => w.unsuback(i, *pid, filters)?,
                Req::Ping => match w.next_ctl(i, "PINGRESP")? {
                    RPacket::PingResp => {}
                    p => return fail(format!("{}: {p:?} instead of PINGRESP", w.name(i))),
                },
                Req::Pings(n) => {
                    for _ in 0..*n {
                        match w.next_ctl(i, "PINGRESP")? {
                            RPacket::PingResp => {}
                            p => return fail(format!("{}: {p:?} instead of PINGRESP", w.name(i))),
                        }
                        answers += 1;
                    }
                }
                Req::Pub { .. } => continue,
            }
            answers += 1;
        }
        // the acknowledgements are here: everything published from now on sees the new state
        let mut fs: Vec<String> = vec![];
        for q in sent.iter().rev().take(6) {
            match q {
                Req::Sub { filters, .. } => fs.extend(filters.iter().take(8).map(|f| f.0.s())),
                Req::Unsub { filters, .. } => fs.extend(filters.iter().take(8).map(|f| f.s())),
                _ => {}
            }
        }
        let mut topics: Vec<String> = c.probes.iter().map(|p| p.s()).collect();
        for f in fs {
            // a topic this filter matches, or, if it is invalid, would match read leniently
            let t: String = f.split('/').map(|l| if l.contains(['+', '#']) { l.replace(['+', '#'], "z") } else { l.to_string() }).collect::<Vec<_>>().join("/");
            if valid_topic(&t) && topics.len() < 60 && !topics.contains(&t) {
                topics.push(t);
            }
        }
        for _ in 0..r.bursts.clamp(1, 3) {
            let mut b = vec![];
            for t in &topics {
                let (_, p) = w.message(prober, t, 0, false);
                b.extend(CPacket::Publish(p).encode());
            }
            w.send(prober, &b, &[])?;
        }
        w.flush()?;
    }
    w.finish()?;
    obs.nontrivial = answers >= 3 && (invalid > 0 || removed > 0) && w.deliveries > 0;
    obs.tag_if(invalid > 0, "invalid filters");
    obs.tag_if(many > 0, "more than 20 filters in one request");
    obs.tag_if(removed > 0, "unsubscribed from held filters");
    obs.tag_if(answers > 30, "more than 30 answers");
    obs.tag_if(answers > 65_536, "more than 65536 answers");
    obs.tag_if(c.rounds.iter().any(|r| r.reqs.iter().any(|q| matches!(q, Req::Unsub { filters, held, .. } if filters.len() + held.len() > 20))), "more than 20 filters given back at once");
    obs.tag_if(w.kept_out > 0, "messages kept from non-subscribers");
    obs.tag_if(c.rounds.iter().any(|r| r.fresh > 0), "requests right behind CONNECT");
    obs.tag_if(c.rounds.iter().any(|r| r.reqs.iter().any(|q| matches!(q, Req::Pub { .. }))), "publishes between requests");
    Ok(())
}
fn gen_case(_t: Tier) -> BoxedStrategy<Case> {
    let tiny = || vec(prop::sample::select(vec!["a", "b", "c", ""]), 1..4).prop_map(|v| v.join("/")).prop_map(|s| Txt::Lit(if s.is_empty() { "a".into() } else { s }));
    let tinyf = || vec(prop::sample::select(vec!["a", "b", "c", "", "+"]), 1..4).prop_map(|v| v.join("/")).prop_map(|s| Txt::Lit(if s.is_empty() { "a/#".into() } else { s }));
    let f = move || {
        prop_oneof![
            8 => tinyf(),
            2 => Just(Txt::lit("#")),
            2 => tiny().prop_map(|t| Txt::Lit(format!("{}/#", t.s()))),
            4 => bad_filter(),
            1 => gen::filter(),
            1 => gen::text(3000),
        ]
        .prop_map(|t| if t.s().contains('\0') { Txt::lit("a") } else { t })
    };
    let nf = || prop_oneof![10 => 1usize..5, 2 => 5usize..30, 1 => 60usize..130, 1 => 125usize..300];
    let req = prop_oneof![
        50 => (gen::pid(), nf().prop_flat_map(move |n| vec((f(), 0u8..3), n))).prop_map(|(pid, filters)| Req::Sub { pid, filters }),
        30 => (gen::pid(), prop_oneof![6 => 0usize..4, 1 => 4usize..40, 1 => 60usize..300].prop_flat_map(move |n| vec(prop_oneof![4 => tinyf(), 1 => f()], n)), prop_oneof![6 => 0usize..4, 1 => 4usize..40, 1 => 60usize..300].prop_flat_map(|n| vec(any::<u8>(), n))).prop_map(|(pid, filters, held)| Req::Unsub { pid, filters, held }),
        20 => Just(Req::Ping),
        1 => prop_oneof![9 => 2u32..300, 1 => 65_530u32..66_000].prop_map(Req::Pings),
        20 => (tiny(), prop_oneof![4 => Just(0u16), 1 => 0u16..6000], 0u8..3).prop_map(|(topic, size, qos)| Req::Pub { topic, size, qos }),
    ];
    let round = (any::<u8>(), prop_oneof![4 => vec(req.clone(), 1..6), 2 => vec(req.clone(), 6..20), 1 => vec(req, 20..60)], gen::cuts(), 1u8..3, prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)]).prop_map(|(who, reqs, cuts, bursts, fresh)| Round { who, reqs, cuts, bursts, fresh });
    (1u8..4, vec(round, 1..5), vec(tiny(), 1..5))
        .prop_map(|(clients, rounds, probes)| Case { clients, rounds, probes })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C08").or_default().push(Box::new(Section {
        name: "requests",
        rule: "1-4 rounds in which one of 1-3 clients writes up to 60 SUBSCRIBE (1-300 valid and invalid filters, any packet id and QoS, duplicates), UNSUBSCRIBE (up to 600 filters), PINGREQ (now and then more than 65536) and PUBLISH packets in one stream cut into random segments, some right behind their CONNECT on a new connection; the exact sequence of answers is compared, and as soon as the last answer is there another client publishes to topics chosen to hit every filter asked for (invalid ones included) and deliveries are compared with the model. Non-trivial: at least three answers, some filter invalid or removed, and some message delivered.",
        cases: (1500, 25_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
