//! C12: sequences of ratelmq-passwd runs on one file.
use crate::broker::*;
use crate::login::{near, ODD};
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};
use vcommon::gen;
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Form {
    /// --user=X
    Eq,
    /// --user X
    Sep,
    /// -u X
    Short,
    /// -uX
    ShortEq,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Act {
    Set(String),
    Delete,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Who {
    /// one of a few names used again and again
    Pool(u8),
    /// nearly one of them: prefixes, extensions, other case
    Near(u8, u8),
    Other(String),
    /// with a character that cannot be stored
    Bad(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Run { who: Who, act: Act, form: Form, rev: bool },
    /// arguments that must be refused
    Wrong { kind: u8, who: u8, pass: String },
    /// the broker is asked
    Login(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Start {
    /// name, password (Err: what stands in place of the hash)
    entries: Vec<(String, Result<String, String>)>,
    crlf: bool,
    no_last_newline: bool,
    /// so many further entries before or behind the others
    #[serde(default)]
    crowd: (u16, bool),
    /// with a line that is not UTF-8 (before or behind the others): the broker could not load this file
    #[serde(default)]
    binary: Option<(u8, bool)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    start: Start,
    pool: Vec<String>,
    ops: Vec<Op>,
}

pub type Table = std::collections::BTreeMap<String, String>;
/// The broker's reading of a password file: lines, split at the first colon, the last entry of a name counts.
pub fn parse(bytes: &[u8]) -> Result<Table, String> {
    let s = std::str::from_utf8(bytes).map_err(|_| "not UTF-8".to_string())?;
    let mut t = Table::new();
    for l in s.lines() {
        let (u, h) = l.split_once(':').ok_or(format!("line {l:?} has no colon"))?;
        t.insert(u.into(), h.into());
    }
    Ok(t)
}
pub fn verifies(hash: &str, pass: &str) -> bool {
    use argon2::{Argon2, PasswordHash, PasswordVerifier};
    PasswordHash::new(hash).is_ok_and(|h| Argon2::default().verify_password(pass.as_bytes(), &h).is_ok())
}
fn run(dir: &std::path::Path, args: &[String], patience: Duration) -> R<(bool, String)> {
    let err = dir.join("stderr");
    let f = std::fs::File::create(&err).map_err(|e| Outcome::Broken(e.to_string()))?;
    let mut ch = command(&bin_dir().join("ratelmq-passwd"), dir).args(args).stderr(f).spawn().map_err(|e| Outcome::Broken(format!("cannot start ratelmq-passwd: {e}")))?;
    let end = Instant::now() + patience;
    let mut nap = 200;
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => {
                let t = std::fs::read(&err).map(|b| String::from_utf8_lossy(&b).chars().take(300).collect()).unwrap_or_default();
                return Ok((s.success(), t));
            }
            Ok(None) => {}
            Err(e) => return Err(Outcome::Broken(e.to_string())),
        }
        if Instant::now() > end {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(Outcome::Late(format!("ratelmq-passwd {args:?} does not end")));
        }
        std::thread::sleep(Duration::from_micros(nap));
        nap = (nap * 2).min(4000);
    }
}
fn opt(long: &str, short: char, v: &str, form: &Form) -> Vec<String> {
    // a value that could be taken for an option can only be given with '='
    let form = if v.starts_with('-') || v.is_empty() { &Form::Eq } else { form };
    match form {
        Form::Eq => vec![format!("--{long}={v}")],
        Form::Sep => vec![format!("--{long}"), v.into()],
        Form::Short => vec![format!("-{short}"), v.into()],
        // '-u=x' means x: leave such values to the other forms
        Form::ShortEq if v.starts_with('=') => vec![format!("-{short}"), v.into()],
        Form::ShortEq => vec![format!("-{short}{v}")],
    }
}
/// Names and passwords the tool has to accept; others it may refuse.
fn plain(s: &str) -> bool {
    !s.is_empty() && !s.starts_with(['-', '=']) && s.chars().all(|c| !c.is_control())
}

fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
/// A file the broker cannot load: the tool may refuse it, or change only the named user's lines.
fn binary(c: &Case, which: u8, first: bool, obs: &mut Obs, patience: Duration) -> R<()> {
    let broken = |e: std::io::Error| Outcome::Broken(e.to_string());
    let d = Scratch::new("passwd").map_err(Outcome::Broken)?;
    let file = d.0.join("passwd");
    let nl: &[u8] = if c.start.crlf { b"\r\n" } else { b"\n" };
    let odd: &[u8] = [&b"jos\xe9:h"[..], b"\xff\xfe:h", b"x:\x80", b"\xc3:h", b"\xed\xa0\x80:h", b"\xf0\x9f\x98:h"][which as usize % 6];
    let mut lines: Vec<Vec<u8>> = c.start.entries.iter().map(|(u, p)| format!("{u}:{}", p.as_ref().map_or_else(|j| j.clone(), |p| cheap_hash(p))).into_bytes()).collect();
    lines.insert(if first { 0 } else { lines.len() }, odd.to_vec());
    std::fs::write(&file, lines.join(nl)).map_err(broken)?;
    for (k, op) in c.ops.iter().enumerate() {
        let Op::Run { who: Who::Pool(n), act, form, .. } = op else { continue };
        let before = std::fs::read(&file).map_err(broken)?;
        let u = &c.pool[*n as usize % c.pool.len()];
        let mut args = vec![format!("--file={}", file.display())];
        args.extend(opt("user", 'u', u, form));
        match act {
            Act::Set(p) => args.extend(opt("password", 'p', p, form)),
            Act::Delete => args.push("--delete".into()),
        }
        let (ok, said) = run(&d.0, &args, patience)?;
        let after = std::fs::read(&file).map_err(|e| Outcome::Fail(format!("after operation {k} {args:?} the file cannot be read: {e}")))?;
        let others = |b: &[u8]| {
            let own = format!("{u}:").into_bytes();
            b.split(|c| *c == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l).to_vec()).filter(|l| !l.is_empty() && !l.starts_with(&own)).collect::<Vec<_>>()
        };
        if !ok && before != after || others(&before) != others(&after) {
            return fail(format!("operation {k} {args:?} (success: {ok}, it said {said:?}) changed more than the user's entry in a file that is not UTF-8\nbefore: {:?}\nafter: {:?}", String::from_utf8_lossy(&before), String::from_utf8_lossy(&after)));
        }
        obs.nontrivial = true;
    }
    obs.tag("file that is not UTF-8");
    Ok(())
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    if let Some((which, first)) = c.start.binary {
        return binary(c, which, first, obs, patience);
    }
    let d = Scratch::new("passwd").map_err(Outcome::Broken)?;
    let file = d.0.join("passwd");
    let nl = if c.start.crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    let mut many = String::new();
    // name -> password that must work (None: nobody knows one)
    let mut model: std::collections::BTreeMap<String, Option<String>> = Default::default();
    for k in 0..c.start.crowd.0 {
        // of the usual size
        many.push_str(&format!("user-{k}:$argon2id$v=19$m=4096,t=3,p=1$b25lIG9mIG1hbnkgc2FsdHM${:043}{nl}", k));
        model.insert(format!("user-{k}"), None);
    }
    if c.start.crowd.1 {
        text.push_str(&many);
    }
    for (u, p) in &c.start.entries {
        let h = match p {
            Ok(p) => cheap_hash(p),
            Err(j) => j.clone(),
        };
        text.push_str(&format!("{u}:{h}{nl}"));
        model.insert(u.clone(), p.clone().ok());
    }
    if !c.start.crowd.1 {
        text.push_str(&many);
    }
    if c.start.no_last_newline {
        text.truncate(text.trim_end_matches(['\r', '\n']).len());
    }
    std::fs::write(&file, &text).map_err(|e| Outcome::Broken(e.to_string()))?;
    let fopt = format!("--file={}", file.display());
    let pick = |n: &u8| c.pool[*n as usize % c.pool.len()].clone();
    let (mut sets, mut dels, mut refused, mut replaced, mut passed_over) = (0, 0, 0, 0, 0);
    for (k, op) in c.ops.iter().enumerate() {
        let before = std::fs::read(&file).map_err(|e| Outcome::Broken(e.to_string()))?;
        let told = match parse(&before) {
            Ok(t) => t,
            Err(e) => return fail(format!("before operation {k} the file is unreadable for the broker: {e}")),
        };
        let (args, effect): (Vec<String>, Option<(String, Act)>) = match op {
            Op::Run { who, act, form, rev } => {
                let u = match who {
                    Who::Pool(n) => pick(n),
                    Who::Near(n, v) => near(&pick(n), *v),
                    Who::Other(s) | Who::Bad(s) => s.clone(),
                };
                let mut parts = vec![vec![fopt.clone()], opt("user", 'u', &u, form)];
                parts.push(match act {
                    Act::Set(p) => opt("password", 'p', p, form),
                    Act::Delete => vec![if matches!(form, Form::Short | Form::ShortEq) { "-d".into() } else { "--delete".into() }],
                });
                if *rev {
                    parts.reverse();
                }
                (parts.concat(), Some((u, act.clone())))
            }
            Op::Wrong { kind, who, pass } => {
                let u = format!("--user={}", pick(who));
                let p = format!("--password={pass}");
                let a: Vec<String> = match kind % 8 {
                    0 => vec![fopt.clone()],
                    1 => vec![fopt.clone(), u],
                    2 => vec![fopt.clone(), p],
                    3 => vec![fopt.clone(), u, p, "--delete".into()],
                    4 => vec![fopt.clone(), u, p, "--nonsense".into()],
                    5 => vec![fopt.clone(), u, p, "extra".into()],
                    6 => vec![fopt.clone(), "--delete".into()],
                    _ => vec![format!("--file={}", d.0.join("missing").display()), u, p],
                };
                (a, None)
            }
            Op::Login(n) => {
                login(&file, &before, &pick(n), &model, patience)?;
                obs.tag("confirmed by the broker");
                continue;
            }
        };
        let (ok, said) = run(&d.0, &args, patience)?;
        let after = std::fs::read(&file).map_err(|e| Outcome::Fail(format!("after operation {k} {args:?} the file cannot be read: {e}")))?;
        let shown = || format!("operation {k} {args:?} (success: {ok}, it said {said:?})\nfile before: {:?}\nfile after: {:?}", String::from_utf8_lossy(&before), String::from_utf8_lossy(&after));
        let now = match parse(&after) {
            Ok(t) => t,
            Err(e) => return fail(format!("the file is unreadable for the broker: {e}; {}", shown())),
        };
        match &effect {
            None if ok => return fail(format!("wrong arguments were accepted; {}", shown())),
            None => {}
            Some((u, a)) => {
                let must = (plain(u) && !u.contains(':') || told.contains_key(u) && plain(u)) && match a { Act::Set(p) => plain(p), Act::Delete => true };
                if must && !ok {
                    return fail(format!("a plain name and password were refused; {}", shown()));
                }
            }
        }
        if !ok {
            refused += 1;
            if before != after {
                return fail(format!("a refused run changed the file; {}", shown()));
            }
            continue;
        }
        let (u, a) = effect.unwrap();
        // nobody else's entry may change
        for (n, h) in &told {
            if *n != u {
                passed_over += 1;
                if now.get(n) != Some(h) {
                    return fail(format!("the entry of {n:?} changed from {h:?} to {:?}; {}", now.get(n), shown()));
                }
            }
        }
        for n in now.keys() {
            if *n != u && !told.contains_key(n) {
                return fail(format!("an entry for {n:?} appeared; {}", shown()));
            }
        }
        match a {
            Act::Delete => {
                dels += told.contains_key(&u) as u32;
                if now.contains_key(&u) {
                    return fail(format!("{u:?} was deleted but is still there; {}", shown()));
                }
                model.remove(&u);
            }
            Act::Set(p) => {
                sets += 1;
                replaced += told.contains_key(&u) as u32;
                match now.get(&u) {
                    None => return fail(format!("{u:?} was set but has no entry; {}", shown())),
                    Some(h) => {
                        if !verifies(h, &p) {
                            return fail(format!("the password set for {u:?} does not verify; {}", shown()));
                        }
                        if verifies(h, &near(&p, 7)) || (!p.is_empty() && verifies(h, "")) {
                            return fail(format!("another password verifies for {u:?}; {}", shown()));
                        }
                        if let Some(Some(old)) = model.get(&u) {
                            if *old != p && verifies(h, old) {
                                return fail(format!("the previous password still verifies for {u:?}; {}", shown()));
                            }
                        }
                    }
                }
                model.insert(u, Some(p));
            }
        }
    }
    // at the end: every password known must verify, and no other name be there
    let end = std::fs::read(&file).map_err(|e| Outcome::Broken(e.to_string()))?;
    let t = parse(&end).map_err(|e| Outcome::Fail(format!("at the end the file is unreadable for the broker: {e}")))?;
    let (a, b): (Vec<&String>, Vec<&String>) = (t.keys().collect(), model.keys().collect());
    if a != b {
        return fail(format!("names in the file at the end {a:?}, expected {b:?}"));
    }
    for (u, p) in &model {
        if let Some(p) = p {
            if !verifies(&t[u], p) {
                return fail(format!("at the end the password {p:?} of {u:?} does not verify"));
            }
        }
    }
    obs.nontrivial = sets + dels >= 2 && passed_over > 0;
    obs.tag_if(replaced > 0, "password replaced");
    obs.tag_if(dels > 0, "entry deleted");
    obs.tag_if(refused > 0, "refused run");
    obs.tag_if(c.start.crowd.0 > 600, "file of more than 64 kB");
    obs.tag_if(c.start.crlf && !c.start.entries.is_empty(), "CRLF file");
    obs.tag_if(c.start.no_last_newline && !c.start.entries.is_empty(), "no newline at the end");
    obs.tag_if(c.ops.iter().any(|o| matches!(o, Op::Run { who: Who::Near(..), .. })), "names that extend or shorten another");
    Ok(())
}
/// Asks the real broker, started on the file as it is.
fn login(file: &std::path::Path, bytes: &[u8], u: &str, model: &std::collections::BTreeMap<String, Option<String>>, patience: Duration) -> R<()> {
    let b = match Broker::start_with(1, std::str::from_utf8(bytes).unwrap_or(""), patience) {
        Ok(b) => b,
        Err(e) => return fail(format!("the broker does not start with {}: {e}", file.display())),
    };
    let mut w = World::on(b, patience);
    let want = model.get(u).cloned();
    for (k, pass) in ["x".to_string(), want.clone().flatten().unwrap_or("y".into())].into_iter().enumerate() {
        if u.contains('\0') || pass.contains('\0') {
            continue;
        }
        let ok = matches!(&want, Some(Some(p)) if *p == pass);
        let i = w.dial(0, format!("user {u:?} with password {pass:?}"))?;
        let mut c = plain_connect(&format!("l{k}"));
        (c.user, c.pass) = (Some(Txt::lit(u)), Some(Txt::lit(&pass)));
        if ok {
            w.connect(i, &c, &[], &[])?;
        } else if want == Some(None) {
            // a stored hash of unknown password
            continue;
        } else {
            w.send_p(i, &CPacket::Connect(c), &[])?;
            match w.next_ctl(i, "CONNACK")? {
                RPacket::ConnAck { code, .. } if code != 0 => {}
                p => return fail(format!("{}: {p:?}; the last runs of the tool left {want:?} for this user", w.name(i))),
            }
        }
    }
    Ok(())
}
fn gen_case(t: Tier) -> BoxedStrategy<Case> {
    let name = || prop_oneof![6 => "[a-cA-C]{1,4}", 2 => "[ -,.-9;-~][ -9;-~]{0,8}", 1 => "[a-z\u{e9}\u{20ac}\u{1F600}]{1,5}", 1 => ODD, 1 => Just("$argon2id$".to_string()), 1 => gen::name_word()];
    let pass = || prop_oneof![6 => "[a-cA-C]{1,4}", 3 => "[ -~]{1,12}", 1 => Just(String::new()), 1 => "[a-z\u{e9}\u{20ac}\u{1F600}]{1,6}", 1 => "[a-z]{100,400}", 1 => "[a:$\n\t]{1,4}", 1 => gen::word()].prop_map(|s: String| s);
    let bad = prop_oneof!["[a-c]{0,2}:[a-c]{0,2}", "[a-c]{0,2}\n[a-c]{0,2}", "[a-c]{1,2}:\\$argon2id", Just(String::new()), "-[a-c]{1,3}", "=[a-c]{1,3}", "[a-c]\r[a-c]{0,2}", "[a-c]{1,2}\r"].prop_map(|s: String| s);
    let form = prop_oneof![Just(Form::Eq), Just(Form::Sep), Just(Form::Short), Just(Form::ShortEq)];
    let act = prop_oneof![3 => pass().prop_map(Act::Set), 2 => Just(Act::Delete)];
    let n = if t == Tier::Thorough { 10 } else { 6 };
    (vec(name(), 2..4), any::<[bool; 2]>())
        .prop_flat_map(move |(pool, [crlf, nn])| {
            let p2 = pool.clone();
            let p3 = pool.clone();
            let ename = prop_oneof![
                3 => any::<usize>().prop_map(move |i| p2[i % p2.len()].clone()),
                2 => (any::<usize>(), any::<u8>()).prop_map(move |(i, v)| near(&p3[i % p3.len()], v).replace([':', '\n'], "")),
                2 => "[a-cA-C]{0,4}",
                1 => "[ab]{0,2}\r[ab]{0,2}",
            ];
            let entry = (ename, prop_oneof![4 => pass().prop_map(|p| Ok(p.replace(['\n', '\r'], ""))), 1 => "[ -~]{0,10}".prop_map(|s: String| Err(s))]);
            let who = prop_oneof![6 => any::<u8>().prop_map(Who::Pool), 3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Who::Near(a, b)), 1 => "[a-cA-C]{1,4}".prop_map(|s: String| Who::Other(s)), 1 => bad.clone().prop_map(Who::Bad)];
            let op = prop_oneof![
                10 => (who, act.clone(), form.clone(), any::<bool>()).prop_map(|(who, act, form, rev)| Op::Run { who, act, form, rev }),
                2 => (any::<u8>(), any::<u8>(), "[a-c]{1,3}").prop_map(|(kind, who, pass)| Op::Wrong { kind, who, pass }),
                1 => any::<u8>().prop_map(Op::Login),
            ];
            (Just(pool), vec(entry, 0..6), vec(op, 2..n), Just(crlf), Just(nn), (prop_oneof![12 => Just(0u16), 1 => 1u16..300, 1 => 300u16..2500], any::<bool>()), prop::option::weighted(0.04, (any::<u8>(), any::<bool>())))
        })
        .prop_map(|(pool, entries, ops, crlf, no_last_newline, crowd, binary)| Case { start: Start { entries, crlf, no_last_newline, crowd, binary }, pool, ops })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C12").or_default().push(Box::new(Section {
        name: "runs",
        rule: "2-5 runs (9 in the thorough tier) of the real ratelmq-passwd on a generated password file (0-5 entries; names that are prefixes, extensions or other cases of each other; duplicates; junk hashes; LF or CRLF; with or without a last newline; sometimes up to 2500 further entries): set and delete in every option form, names and passwords with awkward characters, wrong argument lists, a missing file; after every run the file is read with an independent parser and argon2, now and then by a real broker. Non-trivial: at least two effective runs, and another user's entry was there to be spoiled.",
        cases: (1000, 10_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(15),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
