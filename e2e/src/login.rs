//! C10: only valid credentials get a client in.
use crate::broker::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Entry {
    /// user, password
    Real(String, String),
    /// user, what stands in place of a hash
    Junk(String, String),
    /// user, password, and how the hash is spoiled
    Spoiled(String, String, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Who {
    Entry(u8),
    /// an entry's name changed a little
    Near(u8, u8),
    Other(String),
    /// an entry's name and password joined and cut at another place; the password is the rest
    Recut(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Pass {
    Own,
    /// of another entry
    Of(u8),
    Near(u8),
    Other(String),
    None,
    /// the stored hash itself
    Hash,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Attempt {
    /// None: no user name
    login: Option<(Who, Pass)>,
    id: u8,
    level3: bool,
    will: bool,
    keep_alive: u16,
    cuts: Vec<usize>,
    /// PINGREQ in the same write
    eager: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    entries: Vec<Entry>,
    attempts: Vec<Attempt>,
    crlf: bool,
    no_last_newline: bool,
}
impl Entry {
    fn user(&self) -> &str {
        match self {
            Entry::Real(u, _) | Entry::Junk(u, _) | Entry::Spoiled(u, ..) => u,
        }
    }
}
pub fn near(s: &str, k: u8) -> String {
    match k % 32 {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        5 => format!("{s}{s}"),
        6 => s.chars().rev().collect(),
        8 => format!("{s}:"),
        9 => format!("{s}:x"),
        10 => format!("x:{s}"),
        11 => format!("{s}\n"),
        12 => format!("{s}\r"),
        13 => format!("{s}\t"),
        14 => format!("\u{feff}{s}"),
        15 => format!("{s}\u{7f}"),
        16 => format!("{s}\u{a0}"),
        17 => format!("{s}\u{301}"),
        18 => format!("{s}@x"),
        19 => format!("x\\{s}"),
        20 => format!("{s}/x"),
        21 => format!("{s}\u{200b}"),
        22 => s.chars().take(1).collect(),
        23 => s.chars().skip(1).collect(),
        24 => format!("{s}\u{1}"),
        25 => s.chars().map(|c| if c.is_ascii_graphic() { char::from_u32(c as u32 + 0xfee0).unwrap() } else { c }).collect(),
        26 => s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
        27 => s.trim().to_string(),
        28 => s.trim_matches(|c: char| c.is_control() || c == '\u{feff}').to_string(),
        29 => s.chars().filter(|c| c.is_ascii()).collect(),
        _ => format!("{s}x"),
    }
}
/// Characters that could be taken for line ends, spaces or nothing.
pub const ODD: &str = "[ab\u{feff}\u{b}\u{c}\u{1c}\u{85}\u{a0}\u{2028}\u{3000}\u{7f}\t\u{301}\u{200b}]{1,4}";
fn stored(e: &Entry) -> String {
    match e {
        Entry::Real(_, p) => cheap_hash(p),
        Entry::Junk(_, j) => j.clone(),
        Entry::Spoiled(_, p, k) => {
            let h = cheap_hash(p);
            match k % 16 {
                6 => format!("{h}:x"),
                7 => format!("{h} "),
                8 => format!("x:{h}"),
                9 => format!(" {h}"),
                10 => format!("{h}#x"),
                11 => format!("{h}\t"),
                12 => format!("\u{feff}{h}"),
                13 => format!("{h}$"),
                14 => format!("{h}="),
                0 => h[..h.len() - 4].to_string(),
                1 => h.replacen("$argon2id$", "$argon2xx$", 1),
                2 => h.replacen("$m=8,", "$m=0,", 1),
                3 => {
                    let mut v: Vec<&str> = h.split('$').collect();
                    v.pop();
                    v.join("$")
                }
                4 => h.replacen('$', "", 1),
                _ => h.replacen("$t", "", 1).replacen("t=1", "q=1", 1),
            }
        }
    }
}
/// Oracle: verification with the argon2 library of the harness.
fn verifies(hash: &str, pass: &str) -> bool {
    use argon2::{Argon2, PasswordHash, PasswordVerifier};
    PasswordHash::new(hash).is_ok_and(|h| Argon2::default().verify_password(pass.as_bytes(), &h).is_ok())
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let mut file = String::new();
    let mut table: Vec<(String, String)> = vec![];
    for e in &c.entries {
        if table.iter().any(|(u, _)| u == e.user()) {
            continue; // which of two entries counts is not claimed
        }
        let h = stored(e);
        file.push_str(&format!("{}:{h}{nl}", e.user()));
        table.push((e.user().to_string(), h));
    }
    if c.no_last_newline {
        file.truncate(file.trim_end_matches(['\r', '\n']).len());
    }
    let b = Broker::start_with(2, &file, patience).map_err(Outcome::Broken)?;
    let mut w = World::on(b, patience);
    // somebody else is there all the time
    let other = w.dial(0, "bystander".into())?;
    w.connect(other, &plain_connect("bystander"), &[], &[])?;
    w.subscribe(other, 1, &[(Txt::lit("#"), 0)], &[])?;
    let (mut yes, mut no) = (0, 0);
    for (k, a) in c.attempts.iter().enumerate() {
        let (user, pass) = match &a.login {
            None => (None, None),
            Some((who, p)) => {
                let e = |n: &u8| if c.entries.is_empty() { None } else { Some(&c.entries[*n as usize % c.entries.len()]) };
                let (u, ent) = match who {
                    Who::Entry(n) => (e(n).map(|e| e.user().to_string()).unwrap_or("nobody".into()), e(n)),
                    Who::Near(n, v) => (e(n).map(|e| near(e.user(), *v)).unwrap_or("nobody".into()), e(n)),
                    Who::Other(s) => (s.clone(), None),
                    Who::Recut(n, _) => (e(n).map(|e| e.user().to_string()).unwrap_or("nobody".into()), e(n)),
                };
                let own = |e: Option<&Entry>| match e {
                    Some(Entry::Real(_, p) | Entry::Spoiled(_, p, _)) => p.clone(),
                    Some(Entry::Junk(_, j)) => j.clone(),
                    None => "x".into(),
                };
                let p = match p {
                    Pass::Own => Some(own(ent)),
                    Pass::Of(n) => Some(own(e(n))),
                    Pass::Near(v) => Some(near(&own(ent), *v)),
                    Pass::Other(s) => Some(s.clone()),
                    Pass::Hash => Some(table.iter().find(|(x, _)| *x == u).map(|x| x.1.clone()).unwrap_or_default()),
                    Pass::None => None,
                };
                if let (Who::Recut(_, at), Some(p)) = (who, &p) {
                    let all: Vec<char> = u.chars().chain(p.chars()).collect();
                    let at = *at as usize % (all.len() + 1);
                    (Some(all[..at].iter().collect()), Some(all[at..].iter().collect()))
                } else {
                    (Some(u), p)
                }
            }
        };
        let ok = match (&user, &pass) {
            (None, _) => true,
            (Some(u), Some(p)) => table.iter().any(|(x, h)| x == u && verifies(h, p)),
            (Some(_), None) => false,
        };
        let i = w.dial(k, format!("attempt {k} (user {user:?}, password {pass:?})"))?;
        let con = Connect {
            level: if a.level3 { 3 } else { 4 },
            client_id: Txt::Lit(match a.id % 3 {
                0 => format!("id{k}"),
                1 => String::new(),
                _ => "again".into(),
            }),
            keep_alive: a.keep_alive,
            clean: true,
            will: a.will.then(|| Will { topic: Txt::lit("w"), payload: Blob::Lit(b"will".to_vec()), qos: 1, retain: false }),
            user: user.clone().map(Txt::Lit),
            pass: pass.clone().map(Txt::Lit),
        };
        let mut bytes = CPacket::Connect(con.clone()).encode();
        let (_, p) = w.message(i, &format!("by/{k}"), 0, !ok);
        if a.eager {
            bytes.extend([0xC0, 0]);
            bytes.extend(CPacket::Publish(p.clone()).encode());
        }
        if ok {
            yes += 1;
            let id = con.client_id.s();
            let old = if id.is_empty() { None } else { w.holder(&id) };
            if let Some(o) = old {
                w.conns[o].may_end = true;
            }
            w.send(i, &bytes, &a.cuts)?;
            w.accepted(i, &id, true, old)?;
            if !a.eager {
                w.send_p(i, &CPacket::Publish(p), &[])?;
                w.ping(i)?;
            } else {
                match w.next_ctl(i, "PINGRESP")? {
                    RPacket::PingResp => {}
                    p => return fail(format!("{}: {p:?} instead of PINGRESP", w.name(i))),
                }
            }
            w.wait_deliveries()?;
        } else {
            no += 1;
            w.send(i, &bytes, &a.cuts)?;
            match w.next_ctl(i, "CONNACK")? {
                RPacket::ConnAck { session_present: false, code } if code != 0 => {}
                p => return fail(format!("{}: {p:?} in answer to a CONNECT with invalid credentials; the file holds {table:?}", w.name(i))),
            }
            w.wait_end(i, "its CONNECT was refused")?;
        }
    }
    w.finish()?;
    obs.nontrivial = yes > 0 && no > 0 && !table.is_empty();
    obs.tag_if(c.entries.iter().any(|e| !matches!(e, Entry::Real(..))), "unusable hash in the file");
    obs.tag_if(c.crlf, "CRLF file");
    obs.tag_if(c.attempts.iter().any(|a| matches!(a.login, Some((_, Pass::None)))), "user name without password");
    obs.tag_if(c.attempts.iter().any(|a| matches!(a.login, Some((Who::Near(..), _) | (_, Pass::Near(_))))), "nearly right name or password");
    obs.tag_if(c.attempts.iter().any(|a| a.login.is_none()), "anonymous");
    obs.tag_if(yes > 0, "accepted");
    obs.tag_if(no > 0, "refused");
    obs.tag_if(no > 30, "more than 30 refused logins");
    Ok(())
}
fn gen_case(_t: Tier) -> BoxedStrategy<Case> {
    let name = || prop_oneof![6 => "[a-cA-C]{1,3}", 2 => "[ -9;-~]{0,10}", 1 => Just(String::new()), 1 => "[a-z\u{e9}\u{20ac}\u{1F600}]{1,6}", 1 => ODD, 1 => "[a-z]{200,300}", 1 => gen::name_word(), 1 => prop::sample::select(gen::ALIKE.iter().map(|s| s.to_string()).collect::<Vec<_>>())].prop_map(|s| s.to_string());
    let pass = || prop_oneof![6 => "[a-cA-C]{1,3}", 3 => "[ -~]{0,12}", 1 => Just(String::new()), 1 => "[a-z\u{e9}\u{20ac}\u{1F600}]{1,6}", 1 => ODD, 1 => gen::word(), 1 => "[a-z]{500,3000}"].prop_map(|s| s.to_string());
    let entry = prop_oneof![
        6 => (name(), pass()).prop_map(|(u, p)| Entry::Real(u, p)),
        1 => (name(), "[ -~]{0,12}").prop_map(|(u, p)| Entry::Junk(u, p)),
        1 => (name(), pass(), any::<u8>()).prop_map(|(u, p, k)| Entry::Spoiled(u, p, k)),
    ];
    let login = prop_oneof![
        8 => any::<u8>().prop_map(Who::Entry),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Who::Near(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Who::Recut(a, b)),
        1 => name().prop_map(Who::Other)
    ];
    let p = prop_oneof![
        8 => Just(Pass::Own),
        2 => any::<u8>().prop_map(Pass::Of),
        3 => any::<u8>().prop_map(Pass::Near),
        1 => pass().prop_map(Pass::Other),
        2 => Just(Pass::None),
        1 => Just(Pass::Hash)
    ];
    let att = (prop::option::weighted(0.85, (login, p)), any::<u8>(), any::<bool>(), any::<bool>(), gen::keep_alive(), gen::cuts(), any::<bool>())
        .prop_map(|(login, id, level3, will, keep_alive, cuts, eager)| Attempt { login, id, level3, will, keep_alive: if keep_alive < 60 { 0 } else { keep_alive }, cuts, eager });
    // one user fails again and again, then gives the right password
    let again = (any::<u8>(), prop_oneof![3 => 3usize..12, 2 => 12usize..40, 1 => 90usize..130], prop_oneof![any::<u8>().prop_map(Pass::Near), Just(Pass::None), any::<u8>().prop_map(Pass::Of)], any::<u8>());
    (vec(entry, 0..8), vec(att, 3..20), any::<bool>(), any::<bool>(), prop::option::weighted(0.15, again))
        .prop_map(|(entries, mut attempts, crlf, no_last_newline, again)| {
            if let Some((who, n, p, id)) = again {
                let one = |p: Pass, id: u8| Attempt { login: Some((Who::Entry(who), p)), id, level3: false, will: false, keep_alive: 0, cuts: vec![], eager: false };
                attempts.truncate(5);
                attempts.extend((0..n).map(|_| one(p.clone(), id)));
                attempts.push(one(Pass::Own, id));
                attempts.push(one(Pass::Own, 0));
            }
            (entries, attempts, crlf, no_last_newline)
        })
        .prop_map(|(entries, attempts, crlf, no_last_newline)| Case { entries, attempts, crlf, no_last_newline })
        .boxed()
}
// ---- C11: what the broker makes of a whole file ----

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Line {
    Entry(Entry),
    Raw(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    lines: Vec<Line>,
    crlf: bool,
    no_last_newline: bool,
    /// not UTF-8
    bytes: Option<Vec<u8>>,
    /// user name and password
    probes: Vec<(String, String)>,
    /// so many further entries before or behind the others
    #[serde(default)]
    crowd: (u16, bool),
}
fn file_exec(c: &FileCase, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(file_go(c, obs, patience))
}
fn file_go(c: &FileCase, obs: &mut Obs, patience: Duration) -> R<()> {
    let lines: Vec<String> = c
        .lines
        .iter()
        .map(|l| match l {
            Line::Entry(e) => format!("{}:{}", e.user(), stored(e)),
            Line::Raw(s) => s.clone(),
        })
        .collect();
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let many: Vec<String> = (0..c.crowd.0 as usize).map(|k| format!("user{k}:{}", cheap_hash(&format!("pw{k}")))).collect();
    let lines: Vec<String> = if c.crowd.1 { lines.into_iter().chain(many).collect() } else { many.into_iter().chain(lines).collect() };
    let mut file: String = lines.iter().map(|l| format!("{l}{nl}")).collect();
    if c.no_last_newline && lines.last().is_some_and(|l| !l.is_empty()) {
        file.truncate(file.len() - nl.len());
    }
    let mut raw = file.clone().into_bytes();
    if let Some(b) = &c.bytes {
        raw.extend_from_slice(b);
    }
    let good = std::str::from_utf8(&raw).is_ok() && lines.iter().all(|l| l.contains(':'));
    obs.tag(if good { "file accepted" } else { "file refused" });
    let mut b = match Broker::start_raw(&raw, patience) {
        Err(e) if !good && e.starts_with("the broker ended") => {
            obs.nontrivial = true;
            return Ok(());
        }
        Err(e) if good && e.starts_with("the broker ended") => return fail(format!("{e}; password file {file:?}")),
        Err(e) => return Err(Outcome::Broken(e)),
        Ok(b) => b,
    };
    if !good {
        // it listens; the file may be refused a moment later
        let end = std::time::Instant::now() + Duration::from_millis(300);
        while b.dead().is_none() && std::time::Instant::now() < end {
            std::thread::sleep(Duration::from_millis(5));
        }
        if b.dead().is_none() {
            return fail(format!("the broker runs with the malformed password file {:?}", String::from_utf8_lossy(&raw)));
        }
        return Ok(());
    }
    let mut w = World::on(b, patience);
    let table: Vec<(&str, &str)> = lines.iter().map(|l| l.split_once(':').unwrap()).collect();
    let mut probes: Vec<(String, String)> = c.probes.clone();
    for k in [0, 255, 256, 257, 511, 512, 1023, 1024, c.crowd.0.max(1) - 1, c.crowd.0] {
        if c.crowd.0 > 0 && k <= c.crowd.0 {
            probes.push((format!("user{k}"), format!("pw{k}")));
        }
    }
    for l in &c.lines {
        if let Line::Entry(Entry::Real(u, p) | Entry::Spoiled(u, p, _)) = l {
            probes.push((u.clone(), p.clone()));
        }
    }
    let (mut yes, mut no) = (0, 0);
    for (k, (u, p)) in probes.iter().enumerate() {
        let mine: Vec<&(&str, &str)> = table.iter().filter(|(x, _)| x == u).collect();
        if mine.len() > 1 {
            continue; // which of two entries counts is not claimed
        }
        let ok = mine.len() == 1 && verifies(mine[0].1, p);
        let i = w.dial(0, format!("login {k} (user {u:?}, password {p:?})"))?;
        let mut con = plain_connect(&format!("id{k}"));
        con.user = Some(Txt::lit(u));
        con.pass = Some(Txt::lit(p));
        w.send_p(i, &CPacket::Connect(con), &[])?;
        match w.next_ctl(i, "CONNACK")? {
            RPacket::ConnAck { code, .. } if (code == 0) == ok => {}
            g => return fail(format!("{}: {g:?}, expected {}; password file {file:?}", w.name(i), if ok { "acceptance" } else { "a refusal" })),
        }
        yes += ok as u32;
        no += !ok as u32;
    }
    obs.nontrivial = yes > 0 && no > 0;
    obs.tag_if(yes > 0, "accepted");
    obs.tag_if(no > 0, "refused");
    obs.tag_if(c.crowd.0 > 256, "more than 256 entries");
    Ok(())
}
fn file_gen(_t: Tier) -> BoxedStrategy<FileCase> {
    let name = || prop_oneof![6 => "[a-cA-C]{1,3}", 2 => "[ -9;-~]{0,10}", 1 => Just(String::new()), 1 => "[a-z\u{e9}\u{20ac}]{1,6}", 1 => ODD, 1 => gen::name_word(), 1 => "[a-z]{900,1100}", 1 => "[a-z]{3000,9000}", 1 => "[ab]{0,2}\r[ab]{0,2}"].prop_map(|s| s.to_string());
    let pass = || prop_oneof![6 => "[a-cA-C]{1,3}", 3 => "[ -~]{0,12}", 1 => gen::word(), 1 => Just(String::new())].prop_map(|s| s.to_string());
    let entry = prop_oneof![
        8 => (name(), pass()).prop_map(|(u, p)| Entry::Real(u, p)),
        1 => (name(), "[ -~]{0,12}").prop_map(|(u, p)| Entry::Junk(u, p)),
        1 => (name(), pass(), any::<u8>()).prop_map(|(u, p, k)| Entry::Spoiled(u, p, k)),
    ];
    let raw = prop_oneof![2 => Just(String::new()), 1 => "[ -9;-~]{1,12}", 1 => "#[a-z:]{0,6}", 1 => Just(":".to_string()), 1 => Just("a:b:c".to_string()), 1 => "[a-c]{0,2}\r[a-c]{0,2}:[a-c]{0,3}"].prop_map(|s| s.to_string());
    let line = prop_oneof![15 => entry.prop_map(Line::Entry), 1 => raw.prop_map(Line::Raw)];
    (vec(line, 0..7), any::<bool>(), any::<bool>(), prop::option::weighted(0.03, prop::sample::select(vec![vec![0xffu8], vec![b'x', b':', 0xc3], vec![0x80, b'\n']])), vec((name(), pass()), 0..5), (prop_oneof![20 => Just(0u16), 1 => 1u16..300, 1 => 250u16..1100], any::<bool>()))
        .prop_map(|(lines, crlf, no_last_newline, bytes, probes, crowd)| FileCase { lines, crlf, no_last_newline, bytes, probes, crowd })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C11").or_default().push(Box::new(Section {
        name: "broker",
        rule: "a generated password file (entries with valid, junk and spoiled hashes, lines without a colon, empty lines, invalid UTF-8, lone carriage returns, LF or CRLF, last line unterminated, sometimes up to 1100 entries): the broker starts exactly if every line has a colon, and then each name and password of the file, and others, log in exactly if the harness's own argon2 verifies them. Non-trivial: some login was accepted and some refused, or the file was refused.",
        cases: (5000, 60_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: file_gen,
        exec: file_exec,
    }) as Box<dyn SectionDyn>);
    reg.entry("C10").or_default().push(Box::new(Section {
        name: "logins",
        rule: "a generated password file (0-7 entries with valid, junk and spoiled hashes, empty and non-ASCII names and passwords, LF or CRLF) and 3-19 CONNECTs against the real broker (right and nearly right names and passwords, another user's password, the hash itself, no password, no user name; any segmentation, requests behind the CONNECT; sometimes up to 130 refused logins of one user before the right one); accepted exactly if the harness's own argon2 verifies the password against the entry of exactly that user. Non-trivial: some attempt was accepted and some refused, with a non-empty file.",
        cases: (3000, 40_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(10),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
