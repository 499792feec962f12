//! C20: keep-alive expiry.
use crate::sess::session_of;
use chrono::{DateTime, Duration as CD, TimeZone, Utc};
use proptest::collection::vec;
use proptest::prelude::*;
use ratelmq::broker::messaging::MessagingService;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::time::Duration;
use vcommon::gen;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    keep_alive: u16,
    last_s: i64,
    last_ns: u32,
    /// nanoseconds after the last activity
    since: i64,
    /// set_last_activity instead of the constructor
    moved: bool,
    #[serde(default)]
    persistent: bool,
}
fn limit(ka: u16) -> i64 {
    ka as i64 * 3 / 2
}
fn one_exec(c: &One, obs: &mut Obs, _p: Duration) -> Outcome {
    let last: DateTime<Utc> = Utc.timestamp_opt(c.last_s, c.last_ns).unwrap();
    let s = if c.moved {
        let (mut s, _, _) = session_of("x", c.keep_alive, last - CD::seconds(777_777), c.persistent);
        s.set_last_activity(last);
        s
    } else {
        session_of("x", c.keep_alive, last, c.persistent).0
    };
    let now = last + CD::nanoseconds(c.since);
    let want = c.keep_alive != 0 && c.since >= limit(c.keep_alive) * 1_000_000_000;
    let got = s.is_keep_alive_expired(&now);
    obs.tag_if(want, "expired");
    obs.tag_if(!want, "not expired");
    obs.tag_if((c.since - limit(c.keep_alive) * 1_000_000_000).abs() <= 1_000_000_000, "within a second of the limit");
    obs.nontrivial = c.keep_alive != 0;
    if got != want {
        return Outcome::Fail(format!("keep-alive {} s, {} ns since the last activity: expired {got}, expected {want}", c.keep_alive, c.since));
    }
    Outcome::Pass
}
fn one_gen(_t: Tier) -> BoxedStrategy<One> {
    (gen::keep_alive(), 0i64..4_000_000_000, 0u32..1_000_000_000, any::<bool>(), any::<bool>())
        .prop_flat_map(|(keep_alive, last_s, last_ns, moved, persistent)| {
            let at = limit(keep_alive) * 1_000_000_000;
            let near = prop::sample::select(vec![-1_500_000_000i64, -1_000_000_000, -500_000_000, -1_000_000, -1, 0, 1, 1_000_000, 500_000_000, 1_000_000_000]).prop_map(move |d| at + d);
            let since = prop_oneof![
                5 => near,
                2 => -10_000_000_000i64..200_000_000_000_000,
                1 => Just(keep_alive as i64 * 1_000_000_000),
                1 => Just(0i64),
                1 => Just(keep_alive as i64 * 1_500_000_000),
            ];
            since.prop_map(move |since| One { keep_alive, last_s, last_ns, since, moved, persistent })
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    /// client, keep alive, milliseconds from the limit (negative: not yet expired)
    Connect(u8, u16, i64),
    Touch(u8, i64),
    Leave(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    ops: Vec<Op>,
    /// sessions whose connection has gone but which are still there
    #[serde(default)]
    gone: u8,
    /// so many further sessions that never change: number, keep-alive, milliseconds past the limit; the next of them are this
    /// many milliseconds apart
    #[serde(default)]
    crowd: Option<(u16, u16, i64, i32)>,
}
fn many_exec(c: &Many, obs: &mut Obs, _p: Duration) -> Outcome {
    let mut ms = MessagingService::new();
    let mut model: std::collections::BTreeMap<String, (u16, DateTime<Utc>)> = Default::default();
    let mut rxs = vec![];
    if let Some((n, ka, d, step)) = c.crowd {
        for i in 0..n {
            let id = format!("crowd{i}");
            let d = d + i as i64 * step as i64;
            let last = Utc::now() - CD::seconds(limit(ka)) - CD::milliseconds(d);
            let (s, _, rx) = session_of(&id, ka, last, i % 3 == 0);
            if c.gone & 1 << (i % 8) == 0 {
                rxs.push(rx);
            }
            ms.session_insert(s);
            model.insert(id, (ka, last));
        }
        obs.tag_if(n > 120, "more than 120 sessions");
    }
    obs.tag_if(c.gone != 0, "sessions whose connection has gone");
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            Op::Connect(i, ka, d) => {
                let id = format!("k{i}");
                if !model.contains_key(&id) {
                    let last = Utc::now() - CD::seconds(limit(*ka)) - CD::milliseconds(*d);
                    let (s, _, rx) = session_of(&id, *ka, last, (*i as i64 + *d) % 2 == 0);
                    if c.gone & 1 << (i % 8) == 0 {
                        rxs.push(rx);
                    }
                    ms.session_insert(s);
                    model.insert(id, (*ka, last));
                }
            }
            Op::Touch(i, d) => {
                let id = format!("k{i}");
                if let Some(e) = model.get_mut(&id) {
                    let last = Utc::now() - CD::seconds(limit(e.0)) - CD::milliseconds(*d);
                    e.1 = last;
                    match ms.session_get_mut(&id) {
                        Some(s) => s.set_last_activity(last),
                        None => return Outcome::Fail(format!("session {id} is gone")),
                    }
                }
            }
            Op::Leave(i) => {
                let id = format!("k{i}");
                if model.remove(&id).is_some() {
                    ms.disconnect(&id);
                }
            }
        }
        let t0 = Utc::now();
        let got: Vec<String> = ms.session_get_keep_alive_expired().iter().map(|s| s.client_id().clone()).collect();
        let t1 = Utc::now();
        let set: BTreeSet<&String> = got.iter().collect();
        if set.len() != got.len() {
            return Outcome::Fail(format!("operation {k}: a session is listed twice: {got:?}"));
        }
        for (id, (ka, last)) in &model {
            let at = *last + CD::seconds(limit(*ka));
            let in_list = set.contains(id);
            if *ka != 0 && at <= t0 && !in_list {
                return Outcome::Fail(format!("operation {k}: {id} (keep-alive {ka}) expired {} ms ago but is not listed", (t0 - at).num_milliseconds()));
            }
            if (*ka == 0 || at > t1) && in_list {
                return Outcome::Fail(format!("operation {k}: {id} (keep-alive {ka}) is listed but expires only in {} ms", (at - t1).num_milliseconds()));
            }
        }
        if got.iter().any(|g| !model.contains_key(g)) {
            return Outcome::Fail(format!("operation {k}: a session that is gone is listed: {got:?}"));
        }
        if !got.is_empty() && got.len() < model.len() {
            obs.nontrivial = true;
        }
    }
    obs.tag_if(model.values().any(|m| m.0 == 0), "keep-alive 0");
    Outcome::Pass
}
fn many_gen(_t: Tier) -> BoxedStrategy<Many> {
    let d = || prop_oneof![3 => -100_000i64..100_000, 2 => -2000i64..2000, 1 => -200_000_000i64..200_000_000];
    let op = prop_oneof![
        5 => (0u8..8, gen::keep_alive(), d()).prop_map(|(a, b, c)| Op::Connect(a, b, c)),
        3 => (0u8..8, d()).prop_map(|(a, c)| Op::Touch(a, c)),
        1 => (0u8..8).prop_map(Op::Leave),
    ];
    let crowd = (1u16..1500, gen::keep_alive(), d(), prop_oneof![3 => Just(0i32), 1 => -2000i32..2000, 1 => -500_000i32..500_000]);
    (vec(op, 2..25), prop_oneof![2 => Just(0u8), 1 => any::<u8>()], prop_oneof![150 => Just(None), 1 => crowd.prop_map(Some)]).prop_map(|(ops, gone, crowd)| Many { ops, gone, crowd }).boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C20").or_default().extend([
        Box::new(Section {
            name: "rule",
            rule: "Session::is_keep_alive_expired for generated keep-alive values and times, half of them within 1.5 s of the limit, against exact integer arithmetic. Non-trivial: keep-alive is not 0.",
            cases: (2_000_000, 40_000_000),
            workers: 8,
            isolated: true,
            patience: Duration::from_secs(10),
            shrink_secs: 20,
            strategy: one_gen,
            exec: one_exec,
        }) as Box<dyn SectionDyn>,
        Box::new(Section {
            name: "list",
            rule: "histories of connect/activity/leave on MessagingService, of few and now and then of up to 1500 sessions, some of which have lost their connection; after each the expired list is compared with the rule evaluated before and after the call (a session whose limit falls between the two is not judged). Non-trivial: the list holds some but not all sessions.",
            cases: (200_000, 4_000_000),
            workers: 8,
            isolated: true,
            patience: Duration::from_secs(10),
            shrink_secs: 20,
            strategy: many_gen,
            exec: many_exec,
        }),
    ]);
}
