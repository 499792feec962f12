//! C01, C13, C20: time passes. Packets that arrive in parts with long pauses between them, and clients that are silent
//! for long, or as silent as their keep-alive allows.
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cl {
    keep_alive: u16,
    no_id: bool,
    level3: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Pub(u32),
    Sub,
    Ping,
    /// a new connection's CONNECT
    Connect,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Part {
    who: u8,
    what: What,
    /// where the packet is cut
    at: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Round {
    pause: u32,
    parts: Vec<Part>,
    /// clients that go away during the pause, by close
    leave: Option<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    clients: Vec<Cl>,
    rounds: Vec<Round>,
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let mut w = World::start(1, &[], patience)?;
    let mut ids = vec![];
    let mut beat: Vec<Option<Duration>> = vec![];
    for (k, cl) in c.clients.iter().enumerate() {
        let i = w.dial(0, format!("client {k} (keep-alive {})", cl.keep_alive))?;
        let mut p = plain_connect(&if cl.no_id { String::new() } else { format!("c{k}") });
        p.keep_alive = cl.keep_alive;
        p.level = if cl.level3 { 3 } else { 4 };
        w.connect(i, &p, &[], &[])?;
        let f = if k == 0 { "#".to_string() } else { format!("+/{}", k % 3) };
        w.subscribe(i, 1, &[(Txt::lit(&f), 0)], &[])?;
        ids.push(i);
        // short keep-alives are honoured by pinging in time
        beat.push((cl.keep_alive > 0 && cl.keep_alive < 60).then(|| Duration::from_millis(cl.keep_alive as u64 * 800)));
    }
    let mut last: Vec<Instant> = vec![Instant::now(); ids.len()];
    let (mut halves, mut pings, mut total) = (0, 0, 0);
    for (r, round) in c.rounds.iter().enumerate() {
        let mut busy = vec![false; ids.len()];
        // (connection, rest, message or request)
        let mut open: Vec<(usize, Vec<u8>, What, Option<Connect>)> = vec![];
        let leaver = round.leave.map(|l| 1 + l as usize % ids.len().max(2)).filter(|l| *l < ids.len() && w.conns[ids[*l]].open);
        for p in &round.parts {
            let k = p.who as usize % ids.len();
            let mut new = None;
            let (i, b) = match &p.what {
                What::Connect => {
                    let i = w.dial(0, format!("late client {r}.{}", open.len()))?;
                    let con = plain_connect(&format!("late-{r}-{}", open.len()));
                    new = Some(con.clone());
                    (i, CPacket::Connect(con).encode())
                }
                _ if busy[k] || beat[k].is_some() || Some(k) == leaver || !w.conns[ids[k]].open => continue,
                What::Pub(n) => {
                    busy[k] = true;
                    // who hears it is decided when it is complete
                    (ids[k], vec![*n as u8])
                }
                What::Sub => {
                    busy[k] = true;
                    (ids[k], CPacket::Subscribe { pid: r as u16 + 100, filters: vec![(Txt::Lit(format!("late/{r}")), 0)] }.encode())
                }
                What::Ping => {
                    busy[k] = true;
                    (ids[k], vec![0xC0, 0])
                }
            };
            let b = match &p.what {
                What::Pub(n) => CPacket::Publish(Publish { topic: Txt::Lit(format!("t/{}", (r + k) % 3)), payload: Blob::Gen { len: *n as usize, seed: (r * 100 + k) as u64 }, qos: 0, retain: false, dup: false, pid: 0 }).encode(),
                _ => b,
            };
            let n = (p.at as usize * b.len() / 65536).clamp(1, b.len() - 1);
            w.send(i, &b[..n], &[])?;
            halves += 1;
            open.push((i, b[n..].to_vec(), p.what.clone(), new));
        }
        if let Some(l) = leaver {
            w.conns[ids[l]].may_end = true;
            if let Some(cl) = w.conns[ids[l]].cl.take() {
                drop(cl);
            }
            w.end_session(ids[l]);
        }
        let end = Instant::now() + Duration::from_millis(round.pause as u64);
        total += round.pause;
        while Instant::now() < end {
            for k in 0..ids.len() {
                if let Some(b) = beat[k] {
                    if w.conns[ids[k]].open && last[k].elapsed() >= b {
                        last[k] = Instant::now();
                        w.ping(ids[k])?;
                        pings += 1;
                    }
                }
            }
            std::thread::sleep(Duration::from_millis(20).min(end.saturating_duration_since(Instant::now())));
        }
        // whoever is still there must not have been disconnected
        w.pump()?;
        open.sort_by_key(|(_, _, what, _)| !matches!(what, What::Pub(_)));
        for (i, rest, what, new) in open {
            match what {
                What::Pub(n) => {
                    let k = ids.iter().position(|x| *x == i).unwrap();
                    w.register(i, &format!("t/{}", (r + k) % 3), Blob::Gen { len: n as usize, seed: (r * 100 + k) as u64 }.bytes(), false);
                    w.send(i, &rest, &[])?;
                    w.wait_deliveries()?;
                }
                What::Sub => {
                    w.send(i, &rest, &[])?;
                    w.suback(i, r as u16 + 100, &[(Txt::Lit(format!("late/{r}")), 0)])?;
                }
                What::Ping => {
                    w.send(i, &rest, &[])?;
                    match w.next_ctl(i, "PINGRESP")? {
                        RPacket::PingResp => {}
                        p => return fail(format!("{}: {p:?} instead of PINGRESP", w.name(i))),
                    }
                }
                What::Connect => {
                    w.send(i, &rest, &[])?;
                    let con = new.unwrap();
                    w.accepted(i, &con.client_id.s(), true, None)?;
                }
            }
        }
        for k in 0..ids.len() {
            last[k] = Instant::now();
        }
        // everybody still hears and is answered
        for k in 0..ids.len() {
            if w.conns[ids[k]].open {
                w.publish(ids[k], &format!("late/{r}"), 0, 0, false, &[])?;
                w.publish(ids[k], &format!("x/{}", (k + 1) % 3), 0, 0, false, &[])?;
            }
        }
        w.flush()?;
    }
    w.finish()?;
    obs.nontrivial = total > 1000 && (halves > 0 || c.clients.len() > 1);
    obs.tag_if(halves > 0, "packets interrupted by a pause");
    obs.tag_if(pings > 0, "kept alive by pings");
    obs.tag_if(total > 5000, "more than 5 s");
    obs.tag_if(total > 11_000, "more than 11 s");
    obs.tag_if(c.rounds.iter().any(|r| r.pause > 5000), "a pause of more than 5 s");
    Ok(())
}
fn gen_case(t: Tier, parts: usize, short: u32) -> BoxedStrategy<Case> {
    let long = if t == Tier::Thorough { 65_000u32 } else { 13_000 };
    let cl = (prop_oneof![3 => Just(0u16), short => 2u16..8, 2 => 200u16..=65535], prop::bool::weighted(0.3), any::<bool>()).prop_map(|(keep_alive, no_id, level3)| Cl { keep_alive, no_id, level3 });
    let what = prop_oneof![4 => prop_oneof![3 => 0u32..100, 1 => 3000u32..20_000].prop_map(What::Pub), 2 => Just(What::Sub), 1 => Just(What::Ping), 2 => Just(What::Connect)];
    let part = (any::<u8>(), what, any::<u16>()).prop_map(|(who, what, at)| Part { who, what, at });
    let round = (prop_oneof![2 => 100u32..2500, 2 => 2500u32..6500], vec(part, parts..parts + 4), prop::option::weighted(0.3, any::<u8>())).prop_map(|(pause, parts, leave)| Round { pause, parts, leave });
    (vec(cl, 2..6), vec(round, 1..3), prop::option::weighted(0.25, 9000..long))
        .prop_map(|(clients, mut rounds, long)| {
            if let Some(l) = long {
                rounds.truncate(1);
                rounds[0].pause = l;
            }
            Case { clients, rounds }
        })
        .boxed()
}
fn gen_slow(t: Tier) -> BoxedStrategy<Case> {
    gen_case(t, 2, 1)
}
fn gen_idle(t: Tier) -> BoxedStrategy<Case> {
    gen_case(t, 0, 1)
}
fn gen_kept(t: Tier) -> BoxedStrategy<Case> {
    gen_case(t, 0, 6)
}
pub fn register(reg: &mut Registry) {
    let mut add = |id: &'static str, name: &'static str, rule: &'static str, strategy: fn(Tier) -> BoxedStrategy<Case>| {
        reg.entry(id).or_default().push(Box::new(Section {
            name,
            rule,
            cases: (144, 800),
            workers: 48,
            isolated: false,
            patience: Duration::from_secs(10),
            shrink_secs: 90,
            strategy,
            exec,
        }) as Box<dyn SectionDyn>);
    };
    add("C01", "slow", "packets of 2-5 clients and of new ones (CONNECT, SUBSCRIBE, PUBLISH up to 20 kB, PINGREQ) cut in two at a random byte, with up to 13 s (65 s in the thorough tier) between the parts; each must take effect exactly once it is complete. Non-trivial: more than a second passed.", gen_slow);
    add("C13", "idle", "2-5 clients, with and without client id, with keep-alive 0 or long or short and honoured by PINGREQ, that send nothing for up to 13 s (65 s in the thorough tier) while another one's connection is closed: sessions must end with their connections and not before, so all the others are still connected, subscribed and answered. Non-trivial: more than a second passed.", gen_idle);
    add("C20", "broker", "2-5 clients on the real broker with keep-alive 0, long, or short (2-7 s) and honoured by PINGREQ every 0.8 keep-alives, over up to 13 s (65 s in the thorough tier): none of them may be treated as expired - disconnected, unsubscribed or left unanswered. Non-trivial: more than a second passed.", gen_kept);
}
