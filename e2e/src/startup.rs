//! C18: what a real broker makes of its configuration: where it listens, which password file it uses, when it refuses to start.
use crate::broker::*;
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::time::{Duration, Instant};
use vcommon::mqtt::*;
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Fault {
    None,
    MissingConfig,
    NotToml,
    NoMqtt,
    NoListeners,
    NoAuth,
    NoPasswordFile,
    /// 0 string, 1 number, 2 table
    ListenersType(u8),
    PasswordType,
    /// the password file named does not exist
    PasswordMissing,
    /// a line without ':' at this place
    PasswordMalformed(u8),
    /// is a directory
    PasswordDirectory,
    /// the address at this place is not one
    BadAddress(u8, String),
    /// the address at this place is taken by somebody else
    Taken(u8),
    /// the same address twice
    Twice,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    listeners: u8,
    fault: Fault,
    style: u8,
    /// password file of the configuration and of the environment: 0..2
    file: u8,
    env_file: Option<u8>,
    /// listeners replaced through the environment
    env_listeners: Vec<u8>,
    /// variables that must not matter, pointing to file 2 / another address
    other: Vec<u8>,
    /// -c, --config, --config=
    form: u8,
    /// another configuration file in the working directory
    decoy: bool,
    /// bits: path of the configuration relative, paths of password files relative, first address of IPv6
    #[serde(default)]
    forms: u8,
    /// a listener by host name, on all addresses, by an IPv4-mapped address
    #[serde(default)]
    kinds: Vec<(u8, u8)>,
    /// a .env file in the working directory that names this password file
    #[serde(default)]
    dotenv: Option<u8>,
    /// names of the password files
    #[serde(default)]
    names: u8,
}
const OTHER: &[(&str, bool)] = &[
    ("AUTHENTICATION__PASSWORD_FILE", true),
    ("PASSWORD_FILE", true),
    ("MQTT__LISTENERS_TCP[0]", false),
    ("LISTENERS_TCP", false),
    ("RATELMQX_AUTHENTICATION__PASSWORD_FILE", true),
    ("XRATELMQ_AUTHENTICATION__PASSWORD_FILE", true),
    ("RATELMQ_AUTHENTICATION_PASSWORD_FILE", true),
    ("RATELMQ_PASSWORD_FILE", true),
    ("RATELMQ_LISTENERS", false),
    ("RATELMQ_AUTHENTICATION__FILE", true),
];
/// names of password files; K: 0, 1 or 2
const NAMES: &[&str] = &["passwd K", "passwdK ", " passwdK", "passwd#K", "passwd\"K", "passwd'K", "$HOME/passwdK", "~K", "passwd%20K", "passwd\\K", "p\u{e9}K", "K", "-K", "*K", "passwd:K", "passwdK.toml", "passwdK\t", "{K}", "${USER}K", "passwd,K", "[K]", "true K", "~/passwdK", "~root/passwdK", "$PWD/passwdK", "%h/passwdK", "./home/../passwd K", "home/./passwdK", "passwdK\n", "PASSWDK", "passwdK~", "file:passwdK"];
/// addresses the process listens on
fn listening(pid: u32) -> Option<std::collections::BTreeSet<String>> {
    let mut by_inode = std::collections::HashMap::new();
    for (f, v6) in [("net/tcp", false), ("net/tcp6", true)] {
        let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/{f}")) else { continue };
        for l in s.lines().skip(1) {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() > 9 && w[3] == "0A" {
                let (a, p) = w[1].split_once(':')?;
                let port = u16::from_str_radix(p, 16).ok()?;
                let ip = if v6 {
                    let mut b = [0u8; 16];
                    for k in 0..4 {
                        b[k * 4..k * 4 + 4].copy_from_slice(&u32::from_str_radix(&a[k * 8..k * 8 + 8], 16).ok()?.to_le_bytes());
                    }
                    format!("[{}]", std::net::Ipv6Addr::from(b))
                } else {
                    std::net::Ipv4Addr::from(u32::from_str_radix(a, 16).ok()?.to_le_bytes()).to_string()
                };
                by_inode.insert(w[9].to_string(), format!("{ip}:{port}"));
            }
        }
    }
    let mut r = std::collections::BTreeSet::new();
    for e in std::fs::read_dir(format!("/proc/{pid}/fd")).ok()? {
        if let Ok(t) = std::fs::read_link(e.ok()?.path()) {
            if let Some(i) = t.to_string_lossy().strip_prefix("socket:[").and_then(|s| s.strip_suffix(']')) {
                if let Some(a) = by_inode.get(i) {
                    r.insert(a.clone());
                }
            }
        }
    }
    Some(r)
}
/// Another way to configure a listener: where to reach it, what is configured, and where the process then listens.
fn special(kind: u8, addr: &str, obs: &mut Obs) -> Option<(String, String, String)> {
    use std::net::*;
    let port_of = |ip: IpAddr| bindable(ip).ok().and_then(|a| a.parse::<SocketAddr>().ok()).map(|a| a.port());
    // not at every time: names and IPv6 may not be there
    match kind % 4 {
        0 => {
            let ip = ("localhost", 0).to_socket_addrs().ok()?.next()?.ip();
            let p = port_of(ip)?;
            obs.tag("host name");
            Some((SocketAddr::new(ip, p).to_string(), format!("localhost:{p}"), SocketAddr::new(ip, p).to_string()))
        }
        1 => {
            let p = port_of(Ipv4Addr::UNSPECIFIED.into())?;
            obs.tag("all addresses");
            Some((format!("127.{}.3.4:{p}", 1 + kind % 250), format!("0.0.0.0:{p}"), format!("0.0.0.0:{p}")))
        }
        2 => {
            let p = port_of(Ipv6Addr::UNSPECIFIED.into())?;
            obs.tag("all addresses");
            Some((format!("[::1]:{p}"), format!("[::]:{p}"), format!("[::]:{p}")))
        }
        _ => {
            let SocketAddr::V4(a) = addr.parse().ok()? else { return None };
            let m = SocketAddr::new(a.ip().to_ipv6_mapped().into(), a.port()).to_string();
            TcpListener::bind("[::ffff:127.0.0.1]:0").ok()?;
            obs.tag("mapped address");
            Some((addr.to_string(), m.clone(), m))
        }
    }
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    // a port may be taken by somebody else between choosing and using it: only a failure that repeats counts
    for n in 0..3 {
        match go(c, obs, patience) {
            Err(Outcome::Fail(t)) if t.contains("AddrInUse") && n < 2 => continue,
            r => return to_outcome(r),
        }
    }
    Outcome::Pass
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let broken = |e: std::io::Error| Outcome::Broken(e.to_string());
    let d = Scratch::new("startup").map_err(Outcome::Broken)?;
    let n = c.listeners.clamp(1, 4) as usize;
    let mut addrs = (0..n).map(|_| fresh_addr()).collect::<Result<Vec<_>, _>>().map_err(Outcome::Broken)?;
    let v6 = c.forms & 4 != 0;
    if let (true, Ok(a)) = (v6, bindable("::1".parse().unwrap())) {
        addrs[0] = a;
        obs.tag("IPv6 address");
    }
    // how the address is configured, where it is not as clients use it
    let mut config: Vec<Option<(String, String)>> = vec![None; n];
    if c.fault == Fault::None {
        for (k, kind) in &c.kinds {
            let k = *k as usize % n;
            if v6 && k == 0 {
                continue;
            }
            if let Some((dial, written, listens)) = special(*kind, &addrs[k], obs) {
                addrs[k] = dial;
                config[k] = Some((written, listens));
            }
        }
    }
    // .env has quotes and escapes of its own
    let names = if c.dotenv.is_some() { 0 } else { c.names as usize % NAMES.len() };
    let name_of = |k: usize| NAMES[names].replace('K', &k.to_string());
    obs.tag_if(names > 0, "unusual name of the password file");
    std::fs::create_dir_all(d.0.join("$HOME")).map_err(broken)?;
    std::fs::create_dir_all(d.0.join("a folder/$HOME")).map_err(broken)?;
    let dir_of = |k: usize| if c.forms & 2 != 0 { name_of(k) } else { d.0.join(name_of(k)).to_str().unwrap().to_string() };
    obs.tag_if(c.forms & 3 != 0, "relative paths");
    let files: Vec<String> = (0..3).map(dir_of).collect();
    // what is used if a name is taken for less than it is
    for n in ["passwd", "home/passwd"] {
        std::fs::create_dir_all(d.0.join("home")).map_err(broken)?;
        std::fs::write(d.0.join(n), format!("user0:{}\n", cheap_hash("other"))).map_err(broken)?;
    }
    for (k, f) in files.iter().enumerate() {
        for at in [d.0.join(f), d.0.join("a folder").join(name_of(k))] {
            std::fs::create_dir_all(at.parent().unwrap()).map_err(broken)?;
        }
        std::fs::write(d.0.join(f), format!("user{k}:{}\ncommon:{}\n", cheap_hash(&format!("pass{k}")), cheap_hash(&format!("common{k}")))).map_err(broken)?;
    }
    let mut used = c.file as usize % 3;
    let mut _hold = None;
    let mut missing_pw = None;
    match &c.fault {
        Fault::BadAddress(k, s) => addrs[*k as usize % n] = s.clone(),
        Fault::Taken(k) => {
            let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(broken)?;
            addrs[*k as usize % n] = l.local_addr().map_err(broken)?.to_string();
            _hold = Some(l);
        }
        Fault::Twice => {
            let a = addrs[0].clone();
            addrs.push(a);
        }
        Fault::PasswordMissing => missing_pw = Some(d.0.join("nothing").to_str().unwrap().to_string()),
        Fault::PasswordDirectory => missing_pw = Some(d.0.to_str().unwrap().to_string()),
        Fault::PasswordMalformed(k) => {
            let h = cheap_hash("x");
            let mut ls = vec![format!("a:{h}"), format!("b:{h}")];
            ls.insert(*k as usize % 3, ["nocolon", "", " "][*k as usize / 3 % 3].to_string());
            let f = d.0.join("malformed");
            std::fs::write(&f, ls.join("\n") + "\n").map_err(broken)?;
            missing_pw = Some(f.to_str().unwrap().to_string());
        }
        _ => {}
    }
    let listeners = match &c.fault {
        Fault::ListenersType(0) => format!("listeners_tcp = {}", toml_str(&addrs[0])),
        Fault::ListenersType(1) => "listeners_tcp = 1883".to_string(),
        Fault::ListenersType(_) => format!("listeners_tcp = {{ a = {} }}", toml_str(&addrs[0])),
        Fault::NoListeners => String::new(),
        _ => format!("listeners_tcp = [ {} ]", addrs.iter().enumerate().map(|(k, a)| toml_str(config.get(k).and_then(|c| c.as_ref()).map_or(a, |c| &c.0))).collect::<Vec<_>>().join(", ")),
    };
    let password = match (&c.fault, &missing_pw) {
        (Fault::PasswordType, _) => format!("password_file = [ {} ]", toml_str(&files[used])),
        (Fault::NoPasswordFile, _) => String::new(),
        (_, Some(f)) => format!("password_file = {}", toml_str(f)),
        _ => format!("password_file = {}", toml_str(&files[used])),
    };
    let mut a = if c.fault == Fault::NoMqtt { String::new() } else { format!("[mqtt]\n{listeners}\n") };
    let mut b = if c.fault == Fault::NoAuth { String::new() } else { format!("[authentication]\n{password}\n") };
    if c.style & 1 != 0 {
        std::mem::swap(&mut a, &mut b);
    }
    let mut text = format!("{a}\n{b}");
    if c.fault == Fault::NotToml {
        text = text.replacen(']', "", 1);
    }
    // the name has no or an unusual extension now and then
    let name = ["ratelmq.conf", "ratelmq.toml", "conf", "a b.yaml", "x.json"][(c.style >> 1) as usize % 5];
    let sub = c.forms & 8 != 0;
    let conf = if sub { d.0.join("a folder").join(name) } else { d.0.join(name) };
    if sub {
        // relative names are relative to the working directory, not to the configuration's
        for k in 0..3 {
            std::fs::write(d.0.join("a folder").join(name_of(k)), format!("user{k}:{}\n", cheap_hash("beside"))).map_err(broken)?;
        }
        obs.tag("configuration in another folder");
    }
    if c.fault != Fault::MissingConfig {
        std::fs::write(&conf, &text).map_err(broken)?;
    }
    let decoy_addr = fresh_addr().map_err(Outcome::Broken)?;
    if c.decoy {
        // not under the stem of the named file: a file 'x.toml' standing in for a missing 'x.conf' is how the repository's
        // container image finds its configuration
        for n in ["ratelmq.conf", "ratelmq.toml", "config.toml", "default.toml", "a.toml"] {
            if d.0.join(n).file_stem() != conf.file_stem() {
                std::fs::write(d.0.join(n), format!("[mqtt]\nlisteners_tcp = [ {} ]\n[authentication]\npassword_file = {}\n", toml_str(&decoy_addr), toml_str(&files[2]))).map_err(broken)?;
            }
        }
    }
    let mut cmd = command(&bin_dir().join("ratelmq"), &d.0);
    let conf = match (c.forms & 1 != 0, sub) {
        (true, true) => std::path::PathBuf::from("a folder").join(name),
        (true, false) => std::path::PathBuf::from(name),
        _ => conf,
    };
    match c.form % 3 {
        0 => cmd.arg("-c").arg(&conf),
        1 => cmd.arg("--config").arg(&conf),
        _ => cmd.arg(format!("--config={}", conf.display())),
    };
    let mut ok = c.fault == Fault::None;
    let mut vars = vec![];
    if let (Some(k), true) = (c.env_file, c.fault != Fault::PasswordType) {
        used = k as usize % 3;
        vars.push(("RATELMQ_AUTHENTICATION__PASSWORD_FILE".to_string(), files[used].clone()));
        // the override stands in for what the file lacks
        if matches!(c.fault, Fault::NoAuth | Fault::NoPasswordFile | Fault::PasswordMissing | Fault::PasswordMalformed(_) | Fault::PasswordDirectory) {
            ok = true;
            obs.tag("value only in the environment");
        }
    }
    if c.fault == Fault::None {
        for k in &c.env_listeners {
            let i = *k as usize % n;
            addrs[i] = fresh_addr().map_err(Outcome::Broken)?;
            config[i] = None;
            let key = format!("RATELMQ_MQTT__LISTENERS_TCP[{i}]");
            vars.retain(|(k, _)| *k != key);
            vars.push((key, addrs[i].clone()));
        }
    }
    for k in &c.other {
        let (name, file) = OTHER[*k as usize % OTHER.len()];
        vars.push((name.into(), if file { files[2].clone() } else { decoy_addr.clone() }));
    }
    for (k, v) in &vars {
        cmd.env(k, v);
    }
    if let (Some(k), true) = (c.dotenv, c.fault == Fault::None) {
        // stands in for variables that are not set
        let k = k as usize % 3;
        let name = ["RATELMQ_AUTHENTICATION__PASSWORD_FILE", "AUTHENTICATION__PASSWORD_FILE", "PASSWORD_FILE"][k];
        std::fs::write(d.0.join(".env"), format!("RUST_LOG=off\n{name}=\"{}\"\n", files[2])).map_err(broken)?;
        if k == 0 && c.env_file.is_none() {
            used = 2;
        }
        obs.tag(".env file");
    }
    let err = std::fs::File::create(d.0.join("stderr")).map_err(broken)?;
    let child = cmd.stderr(err).spawn().map_err(|e| Outcome::Broken(format!("cannot start the broker: {e}")))?;
    let mut br = Broker { child, addrs: addrs.clone(), dir: d, exit: None };
    let want: std::collections::BTreeSet<String> =
        addrs.iter().enumerate().map(|(k, a)| config.get(k).and_then(|c| c.as_ref()).map_or(a, |c| &c.1).clone()).collect();
    let end = Instant::now() + patience;
    let what = |br: &Broker| format!("configuration {text:?}, variables {vars:?}; it said: {}", br.stderr());
    loop {
        if let Some(s) = br.dead() {
            if ok {
                return fail(format!("the broker refused to start ({s}) with {}", what(&br)));
            }
            if s.success() {
                return fail(format!("the broker ended with status 0 although its configuration cannot be used ({:?}): {}", c.fault, what(&br)));
            }
            obs.tag("refused to start");
            obs.nontrivial = true;
            return Ok(());
        }
        if ok && listening(br.child.id()).as_ref() == Some(&want) {
            break;
        }
        if Instant::now() > end {
            let have = listening(br.child.id());
            if !ok {
                return Err(Outcome::Late(format!("the broker runs, listening on {have:?}, although its configuration cannot be used ({:?}): {}", c.fault, what(&br))));
            }
            return Err(Outcome::Late(format!("the broker listens on {have:?}, configured is {want:?}: {}", what(&br))));
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let mut w = World::on(br, patience);
    // every address works, and exactly the right password file counts
    for (i, _) in addrs.iter().enumerate() {
        for k in 0..3 {
            for (user, pass) in [(format!("user{k}"), format!("pass{k}")), ("common".to_string(), format!("common{k}"))] {
                let ok = k == used;
                if !ok && user == "common" && i > 0 {
                    continue;
                }
                let j = w.dial(i, format!("user {user} of password file {k}, address {}, file in use {used}", addrs[i]))?;
                let mut con = plain_connect(&format!("c{k}"));
                (con.user, con.pass) = (Some(Txt::lit(&user)), Some(Txt::lit(&pass)));
                w.send_p(j, &CPacket::Connect(con), &[])?;
                let got = w.next_ctl(j, "CONNACK")?;
                let code = match got {
                    RPacket::ConnAck { code, .. } => code,
                    p => return fail(format!("{}: {p:?}", w.name(j))),
                };
                if (code == 0) != ok {
                    return fail(format!("{}: CONNACK code {code}; variables {vars:?}", w.name(j)));
                }
                w.conns[j].cl = None;
            }
        }
    }
    if listening(w.broker.child.id()).as_ref() != Some(&want) {
        return fail(format!("the broker listens on {:?}, configured is {want:?}", listening(w.broker.child.id())));
    }
    obs.tag_if(!vars.is_empty(), "environment variables");
    obs.tag_if(!c.other.is_empty(), "look-alike variables");
    obs.tag_if(c.decoy, "other configuration files around");
    obs.tag_if(n > 1, "several listeners");
    obs.nontrivial = !vars.is_empty() || c.decoy || c.dotenv.is_some() || config.iter().any(|c| c.is_some());
    Ok(())
}
fn gen_case(_t: Tier) -> BoxedStrategy<Case> {
    let fault = prop_oneof![
        18 => Just(Fault::None),
        1 => Just(Fault::MissingConfig),
        1 => Just(Fault::NotToml),
        1 => Just(Fault::NoMqtt),
        1 => Just(Fault::NoListeners),
        1 => Just(Fault::NoAuth),
        1 => Just(Fault::NoPasswordFile),
        1 => (0u8..3).prop_map(Fault::ListenersType),
        1 => Just(Fault::PasswordType),
        1 => Just(Fault::PasswordMissing),
        1 => any::<u8>().prop_map(Fault::PasswordMalformed),
        1 => Just(Fault::PasswordDirectory),
        1 => (any::<u8>(), prop::sample::select(vec!["", "nonsense", "127.0.0.1", "127.0.0.1:", "127.0.0.1:99999", "256.0.0.1:1883", "1883", "127.0.0.1:18x3"])).prop_map(|(k, s)| Fault::BadAddress(k, s.into())),
        1 => any::<u8>().prop_map(Fault::Taken),
        1 => Just(Fault::Twice),
    ];
    (1u8..5, fault, any::<u8>(), 0u8..2, prop::option::weighted(0.4, 0u8..2), vec(any::<u8>(), 0..3), vec(any::<u8>(), 0..3), any::<u8>(), any::<bool>(), (0u8..16, prop_oneof![3 => Just(vec![]), 2 => vec((any::<u8>(), any::<u8>()), 1..3)], prop::option::weighted(0.3, any::<u8>()), prop_oneof![1 => Just(0u8), 1 => any::<u8>()]))
        .prop_map(|(listeners, fault, style, file, env_file, env_listeners, other, form, decoy, (forms, kinds, dotenv, names))| Case { listeners, fault, style, file, env_file, env_listeners, other, form, decoy, forms, kinds, dotenv, names })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C18").or_default().push(Box::new(Section {
        name: "startup",
        rule: "the real broker is started with a generated configuration (1-4 listeners, three password files to choose from, faulty or missing configuration, password file or address), RATELMQ_ overrides, look-alike variables and other configuration files around; it must either refuse to start with a non-zero status or listen on exactly the configured addresses (read from /proc) and accept exactly the users of the configured file on each. Non-trivial: variables or other files present, or a configuration that must be refused.",
        cases: (800, 12_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(6),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
