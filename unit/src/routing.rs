//! C04 (matching) and C05 (subscription histories) against MessagingService.
use crate::sess::{session, Rx};
use proptest::collection::vec;
use proptest::prelude::*;
use ratelmq::broker::messaging::MessagingService;
use ratelmq::mqtt::events::ServerEvent;
use ratelmq::mqtt::packets::QoS;
use ratelmq::mqtt::subscription::Subscription;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::time::Duration;
use tokio::sync::mpsc;
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

fn sub(f: &str) -> Subscription {
    Subscription::new(f.to_string(), QoS::AtMostOnce)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Match {
    /// (filter, client)
    subs: Vec<(Txt, u8)>,
    topics: Vec<Txt>,
    #[serde(default)]
    names: u16,
}
fn brief(s: &str) -> String {
    if s.len() > 120 {
        format!("{:?}... ({} bytes, {} levels)", s.chars().take(60).collect::<String>(), s.len(), s.split('/').count())
    } else {
        format!("{s:?}")
    }
}
fn c04_exec(c: &Match, obs: &mut Obs, _p: Duration) -> Outcome {
    let mut ms = MessagingService::new();
    let mut clients: BTreeMap<u8, (mpsc::Sender<ServerEvent>, Rx, BTreeSet<String>)> = BTreeMap::new();
    for (f, i) in &c.subs {
        let id = gen::client_name(c.names, *i as u16);
        let e = clients.entry(*i).or_insert_with(|| {
            let (s, tx, rx) = session(&id, 0, chrono::Utc::now());
            ms.session_insert(s);
            (tx, rx, BTreeSet::new())
        });
        let f = f.s();
        let _ = ms.subscribe(&id, &sub(&f));
        e.2.insert(f);
    }
    let (mut hits, mut misses) = (0, 0);
    for t in &c.topics {
        let t = t.s();
        let got = ms.senders_to_publish(&t);
        for (i, (tx, _, filters)) in &clients {
            let n = got.iter().filter(|s| s.same_channel(tx)).count();
            let matching: Vec<&String> = filters.iter().filter(|f| matches(f, &t)).collect();
            let firm = matching.iter().any(|f| !is_hash_parent(f, &t));
            if matching.is_empty() && n > 0 {
                return Outcome::Fail(format!("topic {} routed to client {i}, whose filters do not match: {}", brief(&t), filters.iter().map(|f| brief(f)).collect::<Vec<_>>().join(", ")));
            }
            if firm && n == 0 {
                return Outcome::Fail(format!("topic {} not routed to client {i}, whose filter {} matches", brief(&t), brief(matching.iter().find(|f| !is_hash_parent(f, &t)).unwrap())));
            }
            if !matching.is_empty() && !firm && n == 0 {
                obs.known.push(("hash-parent".into(), format!("topic {} is not routed to the subscriber of {}", brief(&t), brief(matching[0]))));
            }
            if n > matching.len() {
                return Outcome::Fail(format!("topic {} routed {n} times to client {i}, which has {} matching filter(s)", brief(&t), matching.len()));
            }
            if matching.is_empty() {
                misses += 1
            } else {
                hits += 1
            }
            obs.tag_if(!matching.is_empty() && matching.iter().any(|f| f.contains('+')), "match through '+'");
            obs.tag_if(!matching.is_empty() && matching.iter().any(|f| f.ends_with('#')), "match through '#'");
            obs.tag_if(t.starts_with('$'), "topic starting with '$'");
            obs.tag_if(matching.len() > 1, "several filters of one client match");
            obs.tag_if(t.split('/').count() > 1000, "more than 1000 levels");
            obs.tag_if(firm && t.split('/').any(|l| l.is_empty()), "match with an empty level");
        }
    }
    if got_leak(&mut clients) {
        return Outcome::Fail("routing sent something by itself".into());
    }
    obs.nontrivial = hits > 0 && misses > 0;
    Outcome::Pass
}
fn got_leak(cl: &mut BTreeMap<u8, (mpsc::Sender<ServerEvent>, Rx, BTreeSet<String>)>) -> bool {
    cl.values_mut().any(|c| c.1.try_recv().is_ok())
}
fn c04_gen(_t: Tier) -> BoxedStrategy<Match> {
    // topics first, filters mostly derived from them
    vec(gen::topic(), 1..8)
        .prop_flat_map(|ts| {
            let derived = {
                let ts = ts.clone();
                (any::<usize>(), vec((any::<usize>(), 0u8..14), 0..4), prop::option::weighted(0.35, any::<usize>()))
                    .prop_map(move |(i, m, h)| Txt::Lit(gen::filter_like(&ts[i % ts.len()].s(), &m, h)))
            };
            ((Just(ts), vec((prop_oneof![4 => derived, 2 => gen::filter()], 0u8..12), 1..20)), gen::name_style())
        })
        .prop_map(|((topics, subs), names)| Match { subs, topics, names })
        .boxed()
}
fn c04_deep_gen(_t: Tier) -> BoxedStrategy<Match> {
    let unit = prop::sample::select(vec!["/", "a/", "+/", "ab/", "\u{e9}/"]);
    let long = (unit, prop_oneof![1usize..2000, 10_000usize..65535, 65_000usize..65536], prop_oneof![3 => Just("a".to_string()), 1 => Just("".to_string()), 1 => "[a-z]{1,3}".prop_map(|s| s)]).prop_map(|(u, bytes, tail)| {
        let n = (bytes.saturating_sub(tail.len()) / u.len()).max(1);
        Txt::Rep { unit: u.to_string(), n, tail }
    });
    (vec((long, 0u8..3, any::<bool>()), 1..5), vec((gen::filter(), 0u8..3), 0..4))
        .prop_map(|(ls, mut subs)| {
            let mut topics = vec![];
            for (t, c, h) in ls {
                let s = t.s();
                if !s.contains('+') {
                    topics.push(t.clone());
                }
                let f = match (h, &t) {
                    (true, Txt::Rep { unit, n, .. }) => Txt::Rep { unit: unit.clone(), n: (n / 2).max(1), tail: "#".into() },
                    _ => t.clone(),
                };
                // the topic a '+' filter matches
                if let (Txt::Rep { unit, n, tail }, false) = (&f, h) {
                    if unit == "+/" {
                        topics.push(Txt::Rep { unit: "q/".into(), n: *n, tail: tail.clone() });
                    }
                }
                subs.push((f, c));
            }
            if topics.is_empty() {
                topics.push(Txt::lit("a/b"));
            }
            Match { subs, topics, names: 0 }
        })
        .boxed()
}

// ---------------------------------------------------------------------------------------------------------------- C05
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Connect(u8),
    Sub(u8, Txt),
    /// subscribe again to the n-th filter held
    SubAgain(u8, u8),
    /// subscribe to a filter another client holds
    SubSame(u8, u8, u8),
    /// unsubscribe from filters others hold
    UnsubSame(u8, u8, u8),
    Unsub(u8, Vec<Txt>),
    /// unsubscribe from filters held
    UnsubHeld(u8, Vec<u8>),
    Leave(u8, bool),
    Publish(Txt),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    ops: Vec<Op>,
    /// published after every operation
    probes: Vec<Txt>,
    #[serde(default)]
    names: u16,
}
fn c05_exec(c: &History, obs: &mut Obs, _p: Duration) -> Outcome {
    struct Cl {
        tx: mpsc::Sender<ServerEvent>,
        _rx: Rx,
        filters: Vec<String>,
    }
    let mut ms = MessagingService::new();
    let mut cl: BTreeMap<u8, Cl> = BTreeMap::new();
    let mut old: Vec<(u8, mpsc::Sender<ServerEvent>)> = vec![];
    let id = |i: u8| gen::client_name(c.names, i as u16);
    let (mut resub, mut unsub_held, mut rejoined, mut nonempty) = (0, 0, 0, 0);
    for (k, op) in c.ops.iter().enumerate() {
        let mut topics = c.probes.clone();
        match op {
            Op::Connect(i) => {
                if !cl.contains_key(i) {
                    let (s, tx, rx) = session(&id(*i), 0, chrono::Utc::now());
                    ms.session_insert(s);
                    if old.iter().any(|o| o.0 == *i) {
                        rejoined += 1;
                    }
                    cl.insert(*i, Cl { tx, _rx: rx, filters: vec![] });
                }
            }
            Op::Sub(i, f) => {
                if let Some(c) = cl.get_mut(i) {
                    let f = f.s();
                    let _ = ms.subscribe(&id(*i), &sub(&f));
                    if !c.filters.contains(&f) {
                        c.filters.push(f);
                    } else {
                        resub += 1;
                    }
                }
            }
            Op::SubAgain(i, n) => {
                if let Some(c) = cl.get_mut(i) {
                    if !c.filters.is_empty() {
                        let f = c.filters[*n as usize % c.filters.len()].clone();
                        let _ = ms.subscribe(&id(*i), &sub(&f));
                        resub += 1;
                    }
                }
            }
            Op::SubSame(i, j, n) => {
                let f = cl.get(j).filter(|c| !c.filters.is_empty()).map(|c| c.filters[*n as usize % c.filters.len()].clone());
                if let (Some(f), Some(c)) = (f, cl.get_mut(i)) {
                    let _ = ms.subscribe(&id(*i), &sub(&f));
                    if !c.filters.contains(&f) {
                        c.filters.push(f);
                    } else {
                        resub += 1;
                    }
                }
            }
            Op::UnsubSame(i, j, n) => {
                let f = cl.get(j).filter(|c| !c.filters.is_empty()).map(|c| c.filters[*n as usize % c.filters.len()].clone());
                if let (Some(f), Some(c)) = (f, cl.get_mut(i)) {
                    ms.unsubscribe(&id(*i), &vec![f.clone()]);
                    unsub_held += c.filters.contains(&f) as i32;
                    c.filters.retain(|x| *x != f);
                }
            }
            Op::Unsub(i, fs) => {
                if let Some(c) = cl.get_mut(i) {
                    let fs: Vec<String> = fs.iter().map(|f| f.s()).collect();
                    ms.unsubscribe(&id(*i), &fs);
                    c.filters.retain(|f| !fs.contains(f));
                }
            }
            Op::UnsubHeld(i, ns) => {
                if let Some(c) = cl.get_mut(i) {
                    if !c.filters.is_empty() {
                        let fs: Vec<String> = ns.iter().map(|n| c.filters[*n as usize % c.filters.len()].clone()).collect();
                        ms.unsubscribe(&id(*i), &fs);
                        c.filters.retain(|f| !fs.contains(f));
                        unsub_held += 1;
                    }
                }
            }
            Op::Leave(i, lost) => {
                if let Some(c) = cl.remove(i) {
                    let s = if *lost { ms.connection_lost(&id(*i)) } else { ms.disconnect(&id(*i)) };
                    if s.is_none() {
                        return Outcome::Fail(format!("operation {k} {op:?}: there was a session, but none was removed"));
                    }
                    old.push((*i, c.tx));
                }
            }
            Op::Publish(t) => topics.push(t.clone()),
        }
        for i in 0..6u8 {
            if ms.session_exists(&id(i)) != cl.contains_key(&i) {
                return Outcome::Fail(format!("after operation {k} {op:?}: session of client {i} exists: {}", ms.session_exists(&id(i))));
            }
        }
        if ms.session_count() != cl.len() {
            return Outcome::Fail(format!("after operation {k} {op:?}: {} sessions, {} clients connected", ms.session_count(), cl.len()));
        }
        for t in topics {
            let t = t.s();
            let got = ms.senders_to_publish(&t);
            let mut seen = 0;
            for (i, c) in &cl {
                let n = got.iter().filter(|s| s.same_channel(&c.tx)).count();
                seen += n;
                let upper = c.filters.iter().filter(|f| matches(f, &t)).count();
                let lower = c.filters.iter().any(|f| matches(f, &t) && !is_hash_parent(f, &t)) as usize;
                if upper > 0 {
                    nonempty += 1;
                }
                if n < lower || n > upper {
                    return Outcome::Fail(format!("after operation {k} {op:?}: topic {t:?} goes {n} times to client {i} holding {:?}; expected {lower} to {upper}", c.filters));
                }
            }
            if seen != got.len() {
                return Outcome::Fail(format!("after operation {k} {op:?}: topic {t:?} goes to {} receivers that are not connected clients", got.len() - seen));
            }
        }
    }
    obs.nontrivial = nonempty > 0 && (resub > 0 || unsub_held > 0 || rejoined > 0);
    obs.tag_if(resub > 0, "subscribed again to a held filter");
    obs.tag_if(unsub_held > 0, "unsubscribed from a held filter");
    obs.tag_if(rejoined > 0, "client came back after leaving");
    obs.tag_if(nonempty > 0, "some delivery expected");
    Outcome::Pass
}
fn c05_gen(_t: Tier) -> BoxedStrategy<History> {
    vec(gen::topic(), 2..5)
        .prop_flat_map(|ts| {
            let f = {
                let ts = ts.clone();
                let derived = (any::<usize>(), vec((any::<usize>(), 0u8..14), 0..3), prop::option::weighted(0.35, any::<usize>()))
                    .prop_map(move |(i, m, h)| Txt::Lit(gen::filter_like(&ts[i % ts.len()].s(), &m, h)));
                let short = vec(prop::sample::select(vec!["a", "b", "+", ""]), 1..4).prop_map(|v| Txt::Lit(v.join("/"))).prop_map(|t| if t.s().is_empty() { Txt::lit("/") } else { t });
                prop_oneof![5 => derived, 3 => short, 1 => gen::filter()].boxed()
            };
            let ts2 = ts.clone();
            let c = || 0u8..5;
            let op = prop_oneof![
                3 => c().prop_map(Op::Connect),
                6 => (c(), f.clone()).prop_map(|(c, f)| Op::Sub(c, f)),
                2 => (c(), any::<u8>()).prop_map(|(c, n)| Op::SubAgain(c, n)),
                3 => (c(), c(), any::<u8>()).prop_map(|(c, d, n)| Op::SubSame(c, d, n)),
                1 => (c(), c(), any::<u8>()).prop_map(|(c, d, n)| Op::UnsubSame(c, d, n)),
                1 => (c(), vec(f.clone(), 1..4)).prop_map(|(c, f)| Op::Unsub(c, f)),
                3 => (c(), vec(any::<u8>(), 1..3)).prop_map(|(c, f)| Op::UnsubHeld(c, f)),
                1 => (c(), any::<bool>()).prop_map(|(c, l)| Op::Leave(c, l)),
                2 => prop_oneof![3 => any::<usize>().prop_map(move |i| ts2[i % ts2.len()].clone()), 1 => gen::topic()].prop_map(Op::Publish),
            ];
            (vec(op, 5..40), Just(ts), gen::name_style())
        })
        .prop_map(|(mut ops, probes, names)| {
            for i in 0..3 {
                ops.insert(0, Op::Connect(i));
            }
            History { ops, probes, names }
        })
        .boxed()
}


/// Very many clients on few filters.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Crowd {
    filters: Vec<Txt>,
    clients: u32,
    /// (first, step, what: filter number to subscribe, unsubscribe, or leave)
    waves: Vec<(u16, u8, Wave)>,
    topics: Vec<Txt>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Wave {
    Sub(u8),
    Unsub(u8),
    Leave(bool),
    Back,
}
fn crowd_exec(c: &Crowd, obs: &mut Obs, _p: Duration) -> Outcome {
    let mut ms = MessagingService::new();
    let n = c.clients as usize;
    let id = |i: usize| format!("member {i}");
    let mut cl: Vec<Option<(mpsc::Sender<ServerEvent>, Rx, BTreeSet<usize>)>> = vec![];
    let open = |ms: &mut MessagingService, i: usize| {
        let (s, tx, rx) = session(&id(i), 0, chrono::Utc::now());
        ms.session_insert(s);
        Some((tx, rx, BTreeSet::new()))
    };
    for i in 0..n {
        cl.push(open(&mut ms, i));
    }
    let fs: Vec<String> = c.filters.iter().map(|f| f.s()).collect();
    let mut max = 0;
    for (k, (first, step, w)) in c.waves.iter().enumerate() {
        for i in (*first as usize % n..n).step_by(*step as usize + 1) {
            match (w, &mut cl[i]) {
                (Wave::Sub(f), Some(x)) => {
                    let f = *f as usize % fs.len();
                    let _ = ms.subscribe(&id(i), &sub(&fs[f]));
                    x.2.insert(f);
                }
                (Wave::Unsub(f), Some(x)) => {
                    let f = *f as usize % fs.len();
                    ms.unsubscribe(&id(i), &vec![fs[f].clone()]);
                    x.2.retain(|y| fs[*y] != fs[f]);
                }
                (Wave::Leave(lost), Some(_)) => {
                    if *lost { ms.connection_lost(&id(i)) } else { ms.disconnect(&id(i)) };
                    cl[i] = None;
                }
                (Wave::Back, None) => cl[i] = open(&mut ms, i),
                _ => {}
            }
        }
        for t in &c.topics {
            let t = t.s();
            let got = ms.senders_to_publish(&t);
            max = max.max(got.len());
            // count per client through the capacity each copy of its sender would use
            for s in &got {
                if s.try_send(ServerEvent::Disconnect).is_err() {
                    return Outcome::Fail(format!("after wave {k}: topic {t:?} goes to a client that has left, or far too often to one"));
                }
            }
            for (i, x) in cl.iter_mut().enumerate() {
                let Some((_, rx, held)) = x else { continue };
                let mut times = 0;
                while rx.try_recv().is_ok() {
                    times += 1;
                }
                let m: BTreeSet<&String> = held.iter().map(|f| &fs[*f]).filter(|f| matches(f, &t)).collect();
                let firm = m.iter().any(|f| !is_hash_parent(f, &t));
                if times > m.len() || (firm && times == 0) {
                    return Outcome::Fail(format!("after wave {k} of {n} clients: topic {t:?} goes {times} times to client {i} holding {m:?}"));
                }
            }
        }
    }
    obs.nontrivial = max > 0;
    obs.tag_if(max > 200, "more than 200 receivers of one message");
    Outcome::Pass
}
fn crowd_gen(_t: Tier) -> BoxedStrategy<Crowd> {
    vec(gen::topic(), 1..3)
        .prop_flat_map(|ts| {
            let t2 = ts.clone();
            let f = (any::<usize>(), vec((any::<usize>(), 0u8..14), 0..2), prop::option::weighted(0.35, any::<usize>())).prop_map(move |(i, m, h)| Txt::Lit(gen::filter_like(&t2[i % t2.len()].s(), &m, h)));
            let w = prop_oneof![
                4 => any::<u8>().prop_map(Wave::Sub),
                2 => any::<u8>().prop_map(Wave::Unsub),
                1 => any::<bool>().prop_map(Wave::Leave),
                1 => Just(Wave::Back),
            ];
            (vec(f, 1..4), prop_oneof![2u32..40, 40u32..300, 300u32..1200], vec((any::<u16>(), prop_oneof![4 => 0u8..4, 1 => any::<u8>()], w), 2..10), Just(ts))
        })
        .prop_map(|(filters, clients, waves, topics)| Crowd { filters, clients, waves, topics })
        .boxed()
}
/// Few clients that hold very many filters.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hoard {
    family: u8,
    steps: Vec<Step>,
    /// numbers of the family; the topics of these are probed
    probes: Vec<u16>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    /// client, first, count, step
    Sub(u8, u16, u16, u8),
    Unsub(u8, u16, u16, u8),
    /// all in one unsubscribe
    UnsubAll(u8, u16, u16, u8),
    Leave(u8, bool),
}
fn hoard_filter(family: u8, n: u16) -> String {
    match family % 6 {
        0 => format!("{n}"),
        1 => format!("a/{n}/b"),
        2 => format!("{}/{}/{}", n % 10, n / 10 % 10, n / 100),
        // wildcards in some
        3 => match n % 3 {
            0 => format!("f/{n}"),
            1 => format!("f/{n}/+"),
            _ => format!("f/{n}/#"),
        },
        4 => format!("{}x", "a/".repeat(n as usize % 200)) + &(n / 200).to_string(),
        _ => format!("+/{n}/#"),
    }
}
fn hoard_topics(family: u8, n: u16) -> Vec<String> {
    let f = hoard_filter(family, n);
    let mut v = vec![f.replace('#', "r/s").replace('+', "p")];
    if family % 6 == 3 {
        v.push(format!("f/{n}/x"));
    }
    v
}
fn hoard_exec(c: &Hoard, obs: &mut Obs, _p: Duration) -> Outcome {
    let mut ms = MessagingService::new();
    let mut cl: BTreeMap<u8, (mpsc::Sender<ServerEvent>, Rx, BTreeSet<String>)> = BTreeMap::new();
    let id = |i: u8| format!("hoarder {i}");
    let (mut most, mut hit) = (0, false);
    for (k, st) in c.steps.iter().enumerate() {
        let (Step::Sub(i, ..) | Step::Unsub(i, ..) | Step::UnsubAll(i, ..) | Step::Leave(i, _)) = st;
        let e = cl.entry(*i).or_insert_with(|| {
            let (s, tx, rx) = session(&id(*i), 0, chrono::Utc::now());
            ms.session_insert(s);
            (tx, rx, BTreeSet::new())
        });
        let list = |first: u16, count: u16, step: u8| (0..count).map(|j| hoard_filter(c.family, first.wrapping_add(j.wrapping_mul(step as u16 + 1)) % 30_000)).collect::<Vec<_>>();
        match st {
            Step::Sub(_, a, n, s) => {
                for f in list(*a, *n, *s) {
                    let _ = ms.subscribe(&id(*i), &sub(&f));
                    e.2.insert(f);
                }
            }
            Step::Unsub(_, a, n, s) => {
                for f in list(*a, *n, *s) {
                    ms.unsubscribe(&id(*i), &vec![f.clone()]);
                    e.2.remove(&f);
                }
            }
            Step::UnsubAll(_, a, n, s) => {
                let fs = list(*a, *n, *s);
                ms.unsubscribe(&id(*i), &fs);
                for f in &fs {
                    e.2.remove(f);
                }
            }
            Step::Leave(_, lost) => {
                if *lost { ms.connection_lost(&id(*i)) } else { ms.disconnect(&id(*i)) };
                cl.remove(i);
            }
        }
        most = most.max(cl.values().map(|c| c.2.len()).max().unwrap_or(0));
        for n in &c.probes {
            for t in hoard_topics(c.family, *n % 30_000) {
                let got = ms.senders_to_publish(&t);
                let mut seen = 0;
                for (i, (tx, _, held)) in &cl {
                    let times = got.iter().filter(|s| s.same_channel(tx)).count();
                    seen += times;
                    let m: Vec<&String> = held.iter().filter(|f| matches(f, &t)).collect();
                    let firm = m.iter().any(|f| !is_hash_parent(f, &t));
                    hit |= firm;
                    if times > m.len() || (firm && times == 0) {
                        return Outcome::Fail(format!("after step {k} {st:?}: topic {t:?} goes {times} times to client {i}, which holds {} filters, matching: {m:?}", held.len()));
                    }
                }
                if seen != got.len() {
                    return Outcome::Fail(format!("after step {k} {st:?}: topic {t:?} goes to {} receivers that are not connected clients", got.len() - seen));
                }
            }
        }
    }
    obs.nontrivial = hit;
    obs.tag_if(most > 100, "a client with more than 100 filters");
    obs.tag_if(most > 1000, "a client with more than 1000 filters");
    obs.tag_if(most > 5000, "a client with more than 5000 filters");
    Outcome::Pass
}
fn hoard_gen(_t: Tier) -> BoxedStrategy<Hoard> {
    let r = || (0u8..3, prop_oneof![2 => Just(0u16), 1 => 0u16..300, 1 => any::<u16>()], prop_oneof![3 => 1u16..20, 3 => 20u16..300, 1 => 300u16..2500, 1 => 2500u16..12_000], prop_oneof![4 => Just(0u8), 1 => 0u8..9]);
    let step = prop_oneof![
        5 => r().prop_map(|(c, a, n, s)| Step::Sub(c, a, n, s)),
        2 => r().prop_map(|(c, a, n, s)| Step::Unsub(c, a, n, s)),
        1 => r().prop_map(|(c, a, n, s)| Step::UnsubAll(c, a, n, s)),
        1 => (0u8..3, any::<bool>()).prop_map(|(c, l)| Step::Leave(c, l)),
    ];
    (any::<u8>(), vec(step, 2..9), vec(prop_oneof![2 => 0u16..30, 2 => 0u16..400, 1 => 0u16..12_000, 1 => 0u16..30_000], 4..30)).prop_map(|(family, steps, probes)| Hoard { family, steps, probes }).boxed()
}

pub fn register(reg: &mut Registry) {
    reg.entry("C04").or_default().extend([
        Box::new(Section {
            name: "matching",
            rule: "1-19 filters of up to 12 clients, most derived from the 1-7 topics by wildcards and near misses, routed by MessagingService and compared with a reference matcher for every topic and client. Non-trivial: at least one client matches and at least one does not.",
            cases: (500_000, 10_000_000),
            workers: 8,
            isolated: true,
            patience: Duration::from_secs(10),
            shrink_secs: 30,
            strategy: c04_gen,
            exec: c04_exec,
        }) as Box<dyn SectionDyn>,
        Box::new(Section {
            name: "deep",
            rule: "filters and topics of up to 65535 bytes and levels. Non-trivial: at least one client matches and at least one does not.",
            cases: (1200, 20_000),
            workers: 8,
            isolated: true,
            patience: Duration::from_secs(30),
            shrink_secs: 30,
            strategy: c04_deep_gen,
            exec: c04_exec,
        }),
    ]);
    reg.entry("C05").or_default().extend([Box::new(Section {
        name: "histories",
        rule: "histories of 5-43 connect/subscribe/unsubscribe/leave/publish operations of 5 clients on MessagingService; after every operation every probe topic's receivers are compared with a reference model. Non-trivial: some delivery is expected and a filter was subscribed again, or a held one unsubscribed, or a client came back.",
        cases: (300_000, 6_000_000),
        workers: 8,
        isolated: true,
        patience: Duration::from_secs(10),
        shrink_secs: 30,
        strategy: c05_gen,
        exec: c05_exec,
    }) as Box<dyn SectionDyn>,
    Box::new(Section {
        name: "crowds",
        rule: "2-1200 clients on MessagingService subscribing, unsubscribing, leaving and coming back in waves on 1-3 filters; after every wave the receivers of 1-2 topics are compared with the model for every client. Non-trivial: some message had receivers.",
        cases: (16_000, 400_000),
        workers: 8,
        isolated: true,
        patience: Duration::from_secs(30),
        shrink_secs: 30,
        strategy: crowd_gen,
        exec: crowd_exec,
    }),
    Box::new(Section {
        name: "hoards",
        rule: "1-3 clients on MessagingService subscribing to and unsubscribing from up to thousands of filters of a family (each, or many in one request), leaving and coming back; after every step the receivers of 4-60 topics of the family are compared with the model. Non-trivial: some message had a receiver.",
        cases: (800, 20_000),
        workers: 8,
        isolated: true,
        patience: Duration::from_secs(30),
        shrink_secs: 30,
        strategy: hoard_gen,
        exec: hoard_exec,
    })]);
}
