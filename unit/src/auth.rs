//! C11: FileIdentityManager against the plain-text passwords the file was made from.
use argon2::{password_hash::SaltString, Algorithm, Argon2, Params, PasswordHasher, Version};
use proptest::collection::vec;
use proptest::prelude::*;
use ratelmq::broker::authentication::{FileIdentityManager, IdentityProvider};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::time::Duration;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Stored {
    /// hash of this password; algorithm 0-2, version bit, salt number
    Hash { pass: String, alg: u8, v10: bool, salt: u8 },
    /// not a parsable hash
    Junk(String),
    /// the hash of this password with something before or behind it
    Wrapped(String, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Line {
    Entry(String, Stored),
    /// a line without ':'
    Bad(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Query {
    /// the n-th entry's own user and password
    Own(u8),
    /// n-th entry's user, mutated, with its password
    User(u8, u8),
    /// n-th entry's user with its password mutated
    Pass(u8, u8),
    /// n-th entry's user with the m-th entry's password
    Cross(u8, u8),
    Free(String, String),
    /// n-th entry's user and password joined and cut elsewhere
    Recut(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FileCase {
    lines: Vec<Line>,
    crlf: bool,
    last_newline: bool,
    queries: Vec<Query>,
    /// so many further entries, before the line with this number
    #[serde(default)]
    crowd: (u16, u8),
}
pub fn cheap_hash(pass: &str, alg: u8, v10: bool, salt: u8) -> String {
    let a = [Algorithm::Argon2id, Algorithm::Argon2i, Algorithm::Argon2d][alg as usize % 3];
    let v = if v10 { Version::V0x10 } else { Version::V0x13 };
    let salt = SaltString::new(&format!("c2FsdHNhbHQ{:03}", salt)).unwrap();
    Argon2::new(a, v, Params::new(8, 1, 1, None).unwrap()).hash_password(pass.as_bytes(), &salt).unwrap().to_string()
}
fn mutate(s: &str, m: u8) -> String {
    let c: Vec<char> = s.chars().collect();
    match m % 24 {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => c[..c.len().saturating_sub(1)].iter().collect(),
        5 => c[c.len().min(1)..].iter().collect(),
        6 => String::new(),
        7 => format!("{s}{s}"),
        8 => format!("{s}:"),
        9 => c.iter().rev().collect(),
        10 => format!("{s}\0"),
        12 => format!("\u{feff}{s}"),
        13 => s.trim_start_matches('\u{feff}').to_string(),
        14 => format!("{s}\u{7f}"),
        15 => format!("{s}\u{a0}"),
        16 => format!("{s}:x"),
        17 => format!("x:{s}"),
        18 => format!("{s}\r"),
        19 => c.iter().filter(|c| c.is_ascii_graphic()).collect(),
        20 => s.trim().to_string(),
        21 => format!("{s}\u{301}"),
        22 => s.chars().map(|c| if c.is_ascii_graphic() { char::from_u32(c as u32 + 0xfee0).unwrap() } else { c }).collect(),
        _ => format!("{s}\n"),
    }
}
/// name, password and hash of the k-th of many users
fn one_of_many(k: usize) -> (String, String, String) {
    static MADE: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());
    let mut m = MADE.lock().unwrap();
    while m.len() <= k {
        let n = m.len();
        m.push(cheap_hash(&format!("pw{n}"), 0, false, n as u8));
    }
    (format!("user{k}"), format!("pw{k}"), m[k].clone())
}
fn exec(c: &FileCase, obs: &mut Obs, _p: Duration) -> Outcome {
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let mut text = String::new();
    let mut model: BTreeMap<String, Option<String>> = BTreeMap::new();
    let mut order: Vec<(String, String)> = vec![];
    let mut valid = true;
    let mut users = std::collections::BTreeSet::new();
    let n = c.lines.len();
    let crowd_at = c.crowd.1 as usize % (n + 1);
    let mut many = String::new();
    let mut names = vec![];
    for k in 0..c.crowd.0 as usize {
        let (u, p, h) = one_of_many(k);
        many.push_str(&format!("{u}:{h}{nl}"));
        users.insert(u.clone());
        model.insert(u.clone(), Some(p.clone()));
        names.push((u, p));
    }
    for (i, l) in c.lines.iter().enumerate() {
        if i == crowd_at {
            text.push_str(&many);
            order.append(&mut names);
        }
        match l {
            Line::Entry(u, s) => {
                if !users.insert(u.clone()) {
                    continue; // the property does not say which of two entries of one user counts
                }
                let h = match s {
                    Stored::Hash { pass, alg, v10, salt } => {
                        model.insert(u.clone(), Some(pass.clone()));
                        order.push((u.clone(), pass.clone()));
                        cheap_hash(pass, *alg, *v10, *salt)
                    }
                    Stored::Wrapped(pass, how) => {
                        let h = cheap_hash(pass, 0, false, 7);
                        let add = [":", ":x", " ", "\t", ",", ";", "#x", " #x", "$", "=", "==", "\"", "\u{feff}", "\u{a0}", "\0", "\rx", "!", "*", "x:", "{argon2}"][*how as usize % 20];
                        let h = if how / 20 % 2 == 0 && !add.ends_with(['x', '!']) { format!("{add}{h}") } else { format!("{h}{add}") };
                        // decided by the same library as the broker's: nobody gets in by an entry that is no hash
                        let usable = argon2::PasswordHash::new(&h).is_ok_and(|p| argon2::PasswordVerifier::verify_password(&argon2::Argon2::default(), pass.as_bytes(), &p).is_ok());
                        model.insert(u.clone(), usable.then(|| pass.clone()));
                        order.push((u.clone(), pass.clone()));
                        h
                    }
                    Stored::Junk(j) => {
                        model.insert(u.clone(), None);
                        order.push((u.clone(), j.clone()));
                        j.clone()
                    }
                };
                text.push_str(u);
                text.push(':');
                text.push_str(&h);
            }
            Line::Bad(b) => {
                valid = false;
                text.push_str(b);
                // an empty last line without its newline would be no line at all
                if b.is_empty() && i + 1 == n {
                    text.push('x');
                }
            }
        }
        if i + 1 < n || c.last_newline {
            text.push_str(nl);
        }
    }
    if crowd_at == n && c.crowd.0 > 0 {
        if !text.is_empty() && !text.ends_with('\n') {
            text.push_str(nl);
        }
        text.push_str(&many);
        order.append(&mut names);
        if !c.last_newline {
            text.truncate(text.len() - nl.len());
        }
    }
    let dir = std::env::temp_dir().join(format!("vunit-auth-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join("passwd");
    if let Err(e) = std::fs::write(&path, &text) {
        return Outcome::Broken(e.to_string());
    }
    let m = FileIdentityManager::new(path.to_str().unwrap());
    let _ = std::fs::remove_dir_all(&dir);
    obs.tag_if(!valid, "file with a line that is not user:hash");
    obs.tag_if(c.crlf, "CRLF line ends");
    obs.tag_if(c.crowd.0 > 256, "more than 256 entries");
    obs.tag_if(text.replace("\r\n", "").contains('\r'), "carriage return within a line");
    obs.tag_if(!c.last_newline, "no newline at the end");
    let m = match (m, valid) {
        (Ok(_), false) => return Outcome::Fail(format!("a file with a line that is not 'user:hash' was loaded: {text:?}")),
        (Err(e), true) => return Outcome::Fail(format!("a valid file was refused ({e:?}): {text:?}")),
        (Err(_), false) => {
            obs.nontrivial = true;
            return Outcome::Pass;
        }
        (Ok(m), true) => m,
    };
    let (mut yes, mut no) = (0, 0);
    for q in &c.queries {
        let pick = |i: u8| if order.is_empty() { ("u".to_string(), "p".to_string()) } else { order[i as usize * order.len() / 256].clone() };
        let (u, p) = match q {
            Query::Own(i) => pick(*i),
            Query::User(i, k) => {
                let (u, p) = pick(*i);
                (mutate(&u, *k), p)
            }
            Query::Pass(i, k) => {
                let (u, p) = pick(*i);
                (u, mutate(&p, *k))
            }
            Query::Cross(i, j) => (pick(*i).0, pick(*j).1),
            Query::Free(u, p) => (u.clone(), p.clone()),
            Query::Recut(i, at) => {
                let (u, p) = pick(*i);
                let all: Vec<char> = u.chars().chain(p.chars()).collect();
                let at = *at as usize % (all.len() + 1);
                (all[..at].iter().collect(), all[at..].iter().collect())
            }
        };
        let want = matches!(model.get(&u), Some(Some(x)) if *x == p);
        let got = m.authenticate(&u, &p).is_ok();
        if want != got {
            return Outcome::Fail(format!("user {u:?} password {p:?}: authenticated {got}, expected {want}; file {text:?}"));
        }
        if want {
            yes += 1
        } else {
            no += 1
        }
    }
    obs.tag_if(model.values().any(|v| v.is_none()), "entry with an unparsable hash");
    obs.tag_if(model.keys().any(|k| k.is_empty()), "empty user name");
    obs.nontrivial = yes > 0 && no > 0;
    Outcome::Pass
}
fn user() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "b", "bob", "Bob", "bo", "alice_bob", "al.ice", "a b", "", "é", "root", "a\rb", "\r", "x".repeat(200).leak() as &str]).prop_map(|s| s.to_string()),
        2 => "[a-zA-Z0-9_.@$ -]{1,10}".prop_map(|s| s),
        1 => vcommon::gen::name_word(),
        1 => (prop::sample::select(vec![255usize, 256, 400, 900, 1000, 1024, 2000, 4000, 4096, 8192, 20000, 65535]), 0usize..120, "[a-c]").prop_map(|(n, d, c)| c.repeat(n.saturating_sub(d))),
        1 => "[ab\u{feff}\u{b}\u{c}\u{1c}\u{85}\u{a0}\u{2028}\u{3000}\u{7f}\t\u{301}\u{200b}]{1,4}".prop_map(|s| s),
    ]
    .boxed()
}
fn pass() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["", "a", "A", "secret", "Secret", "secret ", "se:cret", "pässwörd", "$2", "\0", "x\n", "0", "p".repeat(300).leak() as &str]).prop_map(|s| s.to_string()),
        2 => "[ -~]{0,12}".prop_map(|s| s),
        1 => vcommon::gen::word(),
    ]
    .boxed()
}
fn gen(_t: Tier) -> BoxedStrategy<FileCase> {
    let stored = prop_oneof![
        6 => (pass(), 0u8..3, prop::bool::weighted(0.2), any::<u8>()).prop_map(|(pass, alg, v10, salt)| Stored::Hash { pass, alg, v10, salt }),
        1 => prop::sample::select(vec!["", "secret", "$", "$argon2id$", "$argon2id$v=19$m=8,t=1,p=1$c2FsdHNhbHQ000", "$argon2id$v=19$m=8,t=1,p=1$c2FsdHNhbHQ000$", "$nope$c2FsdHNhbHQ000$AAAA", "b:$argon2id$v=19$m=8,t=1,p=1$c2FsdHNhbHQ000$AAAAAAAAAAAAAAAAAAAAAAAAAAA", "plain:text", "\rx", "a\rb:c"]).prop_map(|s| Stored::Junk(s.to_string())),
    ];
    let stored = prop_oneof![8 => stored, 1 => (pass(), any::<u8>()).prop_map(|(p, k)| Stored::Wrapped(p, k))];
    let bad = prop_oneof![Just(String::new()), "[a-z$ ]{0,10}".prop_map(|s| s), Just("#comment".to_string()), Just("a\rb".to_string())];
    let line = prop_oneof![14 => (user(), stored).prop_map(|(u, s)| Line::Entry(u, s))];
    let q = prop_oneof![
        4 => any::<u8>().prop_map(Query::Own),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Query::User(a, b)),
        3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Query::Pass(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Query::Cross(a, b)),
        2 => (user(), pass()).prop_map(|(a, b)| Query::Free(a, b)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Query::Recut(a, b)),
    ];
    (vec(line, 0..8), prop::option::weighted(0.15, (bad, any::<usize>())), prop::bool::weighted(0.2), prop::bool::weighted(0.8), vec(q, 3..14), (prop_oneof![60 => Just(0u16), 2 => 1u16..300, 1 => 250u16..1100], any::<u8>()))
        .prop_map(|(mut lines, b, crlf, last_newline, queries, crowd)| {
            if let Some((b, at)) = b {
                let at = at % (lines.len() + 1);
                lines.insert(at, Line::Bad(b));
            }
            FileCase { lines, crlf, last_newline, queries, crowd }
        })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C11").or_default().extend([Box::new(Section {
        name: "files",
        rule: "generated password files (cheap real argon2 hashes, unparsable hashes, malformed lines, lone carriage returns, CRLF, missing last newline, now and then up to 1100 entries) loaded by FileIdentityManager and queried with right, mutated, crossed and free user/password pairs against the plain-text model. Non-trivial: both an accepted and a refused query, or a file that must be refused.",
        cases: (120_000, 2_000_000),
        workers: 8,
        isolated: true,
        patience: Duration::from_secs(20),
        shrink_secs: 30,
        strategy: gen,
        exec,
    }) as Box<dyn SectionDyn>]);
}
