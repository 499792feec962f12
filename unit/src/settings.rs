//! C18: Settings::new against a model of file plus environment.
use proptest::collection::vec;
use proptest::prelude::*;
use ratelmq::settings::Settings;
use serde::{Deserialize, Serialize};
use std::time::Duration;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    None,
    MissingFile,
    NotToml,
    NoMqtt,
    NoListeners,
    NoAuth,
    NoPasswordFile,
    /// listeners_tcp of a wrong type
    ListenersType(u8),
    /// password_file of a wrong type
    PasswordType(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Conf {
    listeners: Vec<String>,
    password_file: String,
    fault: Fault,
    /// write tables as [a] sections or dotted keys
    style: u8,
    extra: bool,
    /// RATELMQ_AUTHENTICATION__PASSWORD_FILE
    env_password: Option<String>,
    /// RATELMQ_MQTT__LISTENERS_TCP[i]
    env_listeners: Vec<(u8, String)>,
    /// other environment variables
    env_other: Vec<(u8, String)>,
    /// spelling of the variable names
    case: u8,
}
fn tstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
const OTHER: &[&str] = &[
    "MQTT__LISTENERS_TCP[0]", "AUTHENTICATION__PASSWORD_FILE", "PASSWORD_FILE", "RATELMQX_AUTHENTICATION__PASSWORD_FILE", "XRATELMQ_AUTHENTICATION__PASSWORD_FILE", "RATELMQ_FOO", "RATELMQ_FOO__BAR",
    "RATELMQ_AUTHENTICATION__OTHER", "RATELMQ_AUTHENTICATION_PASSWORD_FILE", "RATELMQ__AUTHENTICATION__PASSWORD_FILEX", "RATELMQ_MQTT__LISTENERS", "LISTENERS_TCP", "RATELMQAUTHENTICATION__PASSWORD_FILE", "RATEL_AUTHENTICATION__PASSWORD_FILE",
];
fn exec(c: &Conf, obs: &mut Obs, _p: Duration) -> Outcome {
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().to_lowercase().contains("ratel") || OTHER.iter().any(|o| *o == k.to_string_lossy()) {
            std::env::remove_var(k);
        }
    }
    let dir = std::env::temp_dir().join(format!("vunit-conf-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join("ratelmq.conf");
    let listeners = match &c.fault {
        Fault::ListenersType(0) => "listeners_tcp = \"127.0.0.1:1\"".to_string(),
        Fault::ListenersType(1) => "listeners_tcp = 1883".to_string(),
        Fault::ListenersType(_) => "listeners_tcp = true".to_string(),
        Fault::NoListeners => "other = 1".to_string(),
        _ => format!("listeners_tcp = [{}]", c.listeners.iter().map(|l| tstr(l)).collect::<Vec<_>>().join(", ")),
    };
    let password = match &c.fault {
        Fault::PasswordType(0) => "password_file = [\"a\"]".to_string(),
        Fault::PasswordType(_) => "password_file = { a = \"b\" }".to_string(),
        Fault::NoPasswordFile => "other = \"x\"".to_string(),
        _ => format!("password_file = {}", tstr(&c.password_file)),
    };
    let (mut a, mut b) = match c.style % 3 {
        0 => (format!("[mqtt]\n{listeners}\n"), format!("[authentication]\n{password}\n")),
        1 => (format!("mqtt = {{ {listeners} }}\n"), format!("authentication = {{ {password} }}\n")),
        _ => (format!("  [mqtt]   # comment\n\n\t{listeners} # c\n"), format!("[ authentication ]\n{password}\n")),
    };
    if matches!(c.fault, Fault::NoMqtt) {
        a = String::new();
    }
    if matches!(c.fault, Fault::NoAuth) {
        b = String::new();
    }
    let mut text = if c.style & 4 != 0 && c.style % 3 != 1 { format!("{b}{a}") } else { format!("{a}{b}") };
    if c.extra {
        text.push_str("\n[extra]\nlisteners_tcp = [\"9.9.9.9:9\"]\npassword_file = \"wrong\"\n");
    }
    if matches!(c.fault, Fault::NotToml) {
        text.push_str("\n[[[ nonsense\n");
    }
    if !matches!(c.fault, Fault::MissingFile) {
        if let Err(e) = std::fs::write(&path, &text) {
            return Outcome::Broken(e.to_string());
        }
    } else {
        let _ = std::fs::remove_file(&path);
    }
    let spell = |k: String| match c.case % 3 {
        0 => k,
        1 => k.replace("RATELMQ_", "ratelmq_"),
        _ => k.to_lowercase(),
    };
    let mut want_l = c.listeners.clone();
    let mut want_p = c.password_file.clone();
    let mut ok = matches!(c.fault, Fault::None);
    let mut overrides = 0;
    let mut set = vec![];
    if let Some(p) = &c.env_password {
        // overriding a table or a list by a string is left alone; supplying a missing value is fine
        match c.fault {
            Fault::PasswordType(_) => {}
            Fault::NoPasswordFile | Fault::NoAuth => {
                set.push((spell("RATELMQ_AUTHENTICATION__PASSWORD_FILE".into()), p.clone()));
                want_p = p.clone();
                ok = true;
                overrides += 1;
            }
            _ => {
                set.push((spell("RATELMQ_AUTHENTICATION__PASSWORD_FILE".into()), p.clone()));
                want_p = p.clone();
                overrides += 1;
            }
        }
    }
    if !matches!(c.fault, Fault::ListenersType(_) | Fault::NoListeners | Fault::NoMqtt) {
        for (i, v) in &c.env_listeners {
            if want_l.is_empty() {
                break;
            }
            let i = *i as usize % want_l.len();
            set.push((spell(format!("RATELMQ_MQTT__LISTENERS_TCP[{i}]")), v.clone()));
            overrides += 1;
        }
    }
    for (i, v) in &c.env_other {
        set.push((OTHER[*i as usize % OTHER.len()].to_string(), v.clone()));
    }
    for (k, v) in &set {
        std::env::set_var(k, v);
        // the last one of the same name counts
        if let Some(i) = k.to_lowercase().strip_prefix("ratelmq_mqtt__listeners_tcp[") {
            want_l[i.trim_end_matches(']').parse::<usize>().unwrap()] = v.clone();
        }
    }
    let got = Settings::new(path.to_str().unwrap());
    for (k, _) in &set {
        std::env::remove_var(k);
    }
    let _ = std::fs::remove_dir_all(&dir);
    obs.tag_if(overrides > 0, "environment override");
    obs.tag_if(!ok, "must be refused");
    obs.tag_if(!c.env_other.is_empty(), "unrelated variables");
    obs.tag_if(overrides > 0 && !matches!(c.fault, Fault::None) && ok, "value only in the environment");
    obs.nontrivial = overrides > 0 || !ok || !c.env_other.is_empty();
    match (got, ok) {
        (Ok(s), false) => Outcome::Fail(format!("must be an error ({:?}) but gave {s:?}; file {text:?}, variables {set:?}", c.fault)),
        (Err(e), true) => Outcome::Fail(format!("refused: {e}; file {text:?}, variables {set:?}")),
        (Err(_), false) => Outcome::Pass,
        (Ok(s), true) => {
            if s.mqtt.listeners_tcp != want_l || s.authentication.password_file != want_p {
                Outcome::Fail(format!("got listeners {:?} password file {:?}; expected {want_l:?} {want_p:?}; file {text:?}, variables {set:?}", s.mqtt.listeners_tcp, s.authentication.password_file))
            } else {
                Outcome::Pass
            }
        }
    }
}
fn gen(_t: Tier) -> BoxedStrategy<Conf> {
    let addr = || prop_oneof![4 => (any::<[u8; 4]>(), any::<u16>()).prop_map(|(a, p)| format!("{}.{}.{}.{}:{p}", a[0], a[1], a[2], a[3])), 1 => Just("[::1]:1883".to_string()), 1 => "[ -~]{0,12}".prop_map(|s| s)];
    let pf = || prop_oneof![1 => (prop::sample::select(vec!["~/", "~", "$HOME/", "${HOME}/", "%h/", "~root/", "./", "../", "//", "file:", "file://", "/./", "a/../", "@", "env:"]), prop_oneof![Just(String::new()), "[a-z/.]{1,8}"]).prop_map(|(a, b)| format!("{a}{b}")), 1 => vcommon::gen::word(), 4 => "(/[a-z]{1,6}){1,4}".prop_map(|s| s), 1 => "[ -~]{0,20}".prop_map(|s| s), 1 => "[^\u{0}]{1,8}".prop_map(|s| s), 1 => prop::sample::select(vec!["true", "12", "1.5", "", " ", "null", "[1]"]).prop_map(|s| s.to_string())];
    let fault = prop_oneof![
        8 => Just(Fault::None),
        1 => Just(Fault::MissingFile),
        1 => Just(Fault::NotToml),
        1 => Just(Fault::NoMqtt),
        1 => Just(Fault::NoListeners),
        1 => Just(Fault::NoAuth),
        1 => Just(Fault::NoPasswordFile),
        1 => (0u8..3).prop_map(Fault::ListenersType),
        1 => (0u8..2).prop_map(Fault::PasswordType),
    ];
    (vec(addr(), 0..5), pf(), fault, any::<u8>(), any::<bool>(), prop::option::of(pf()), vec((any::<u8>(), addr()), 0..3), vec((any::<u8>(), pf()), 0..4), any::<u8>())
        .prop_map(|(listeners, password_file, fault, style, extra, env_password, env_listeners, env_other, case)| Conf { listeners, password_file, fault, style, extra, env_password, env_listeners, env_other, case })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C18").or_default().extend([Box::new(Section {
        name: "settings",
        rule: "generated TOML files (styles, extra tables, missing or wrongly typed values, broken syntax, no file) and RATELMQ_ / look-alike environment variables, loaded by Settings::new in a process of its own and compared with a model. Non-trivial: an override, a look-alike variable, or a file that must be refused.",
        cases: (60_000, 800_000),
        workers: 8,
        isolated: true,
        patience: Duration::from_secs(10),
        shrink_secs: 30,
        strategy: gen,
        exec,
    }) as Box<dyn SectionDyn>]);
}
