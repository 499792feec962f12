//! A real broker process on its own loopback address, in its own scratch directory.
use std::io::Read;
use std::net::TcpStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicU32, Ordering};
use vcommon::runner::{flavor, note, Outcome};
use std::time::{Duration, Instant};

static N: AtomicU32 = AtomicU32::new(0);

pub fn bin_dir() -> PathBuf {
    std::env::var("VERIF_BIN").map(PathBuf::from).unwrap_or_else(|_| vcommon::runner::verif_dir().join("target/repo/debug"))
}

/// A loopback address of this process alone, with a free port.
pub fn fresh_addr() -> Result<String, String> {
    let pid = std::process::id();
    for _ in 0..200 {
        let n = N.fetch_add(1, Ordering::Relaxed).wrapping_add(pid.wrapping_mul(7919));
        let ip = std::net::Ipv4Addr::new(127, (16 + pid % 223) as u8, (n / 250 % 256) as u8, (1 + n % 250) as u8);
        if let Ok(a) = bindable(ip.into()) {
            return Ok(a);
        }
    }
    Err("no free loopback address".into())
}

/// An address of IPv6. The ports are not those the system hands out, so that nobody else gets the same.
fn fresh_v6() -> Option<String> {
    let pid = std::process::id();
    for _ in 0..200 {
        let n = N.fetch_add(1, Ordering::Relaxed).wrapping_add(pid.wrapping_mul(7919));
        let a: std::net::SocketAddr = std::net::SocketAddr::from((std::net::Ipv6Addr::LOCALHOST, (10_000 + n % 20_000) as u16));
        let s = socket2::Socket::new(socket2::Domain::IPV6, socket2::Type::STREAM, None).ok()?;
        s.set_reuse_address(true).ok()?;
        if s.bind(&a.into()).is_ok() && TcpStream::connect(a).is_err() {
            return Some(a.to_string());
        }
    }
    None
}

/// The address with a free port.
pub fn bindable(ip: std::net::IpAddr) -> std::io::Result<String> {
    let sa = std::net::SocketAddr::from((ip, 0));
    // Never listening: while another thread forks, its child holds a copy of this socket until it executes a program, and a
    // copy of a listening socket would take the address.
    let s = socket2::Socket::new(socket2::Domain::for_address(sa), socket2::Type::STREAM, None)?;
    s.set_reuse_address(true)?;
    s.bind(&sa.into())?;
    Ok(s.local_addr()?.as_socket().ok_or(std::io::ErrorKind::Other)?.to_string())
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(kind: &str) -> Result<Scratch, String> {
        let n = N.fetch_add(1, Ordering::Relaxed);
        let d = std::env::temp_dir().join(format!("ve2e-{kind}-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&d).map_err(|e| format!("{}: {e}", d.display()))?;
        Ok(Scratch(d))
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Cheap real argon2 hash.
pub fn cheap_hash(pass: &str) -> String {
    use argon2::{password_hash::SaltString, Algorithm, Argon2, Params, PasswordHasher, Version};
    let salt = SaltString::new("c2FsdHNhbHQ000").unwrap();
    Argon2::new(Algorithm::Argon2id, Version::V0x13, Params::new(8, 1, 1, None).unwrap()).hash_password(pass.as_bytes(), &salt).unwrap().to_string()
}

pub fn toml_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

enum Probe {
    Serves,
    Hangs,
    Unclear,
}
pub struct Broker {
    pub child: Child,
    pub addrs: Vec<String>,
    pub dir: Scratch,
    pub exit: Option<ExitStatus>,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Disturb {
    All,
    /// where much data is moved
    NoLogs,
    Nothing,
    /// nothing, but allocations are counted
    Count,
}
thread_local! {
    static DISTURB: std::cell::Cell<Disturb> = const { std::cell::Cell::new(Disturb::All) };
}
/// What brokers started by this thread may be disturbed by.
pub fn only(d: Disturb) {
    DISTURB.with(|l| l.set(d));
}
/// Varies what is not input: worker threads, processors, timing, socket buffers, logging.
fn disturb(c: &mut Command) {
    let f = flavor();
    let how = DISTURB.with(|l| l.get());
    let so = vcommon::runner::verif_dir().join("target/vshim.so");
    if how == Disturb::Count && so.exists() {
        // in the working directory
        c.env("LD_PRELOAD", &so).env("VSHIM_COUNT", "heap");
    }
    if f == 0 || how == Disturb::Nothing || how == Disturb::Count {
        return;
    }
    let pick = |shift: u32, n: u64| (f >> shift) % n;
    let mut tag = String::new();
    c.env("TOKIO_WORKER_THREADS", ["2", "1", "4", "8", "2", "1", "3", "16"][pick(0, 8) as usize]);
    if pick(3, 4) == 0 {
        let cpu = pick(5, 64) as usize;
        unsafe {
            c.pre_exec(move || {
                // one processor of those allowed
                let mut all: libc::cpu_set_t = std::mem::zeroed();
                if libc::sched_getaffinity(0, std::mem::size_of_val(&all), &mut all) == 0 {
                    let n = libc::CPU_COUNT(&all) as usize;
                    let mut k = cpu % n.max(1);
                    for i in 0..libc::CPU_SETSIZE as usize {
                        if libc::CPU_ISSET(i, &all) {
                            if k == 0 {
                                let mut one: libc::cpu_set_t = std::mem::zeroed();
                                libc::CPU_SET(i, &mut one);
                                libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                                break;
                            }
                            k -= 1;
                        }
                    }
                }
                Ok(())
            });
        }
        tag += ", one processor";
    }
    if pick(11, 2) == 0 && so.exists() {
        let (mem, io, max) = [(300, 20, 300), (2000, 0, 200), (0, 100, 500), (100, 5, 2000), (20, 300, 100), (5000, 50, 60)][pick(12, 6) as usize];
        let snd = [0, 0, 0, 4096, 20_000, 0][pick(16, 6) as usize];
        c.env("LD_PRELOAD", &so).env("VSHIM", format!("{},{mem},{io},{max},{snd},1500", f >> 8));
        tag += ", naps";
        if snd > 0 {
            tag += ", small buffers";
        }
    }
    if how == Disturb::All && pick(24, 6) == 0 {
        c.env("RUST_LOG", ["ratelmq=trace", "ratelmq=debug", "info", "trace"][pick(26, 4) as usize]);
        tag += ", logging";
    }
    if !tag.is_empty() {
        note(format!("broker with{}", &tag[1..]));
    }
}

/// Some listeners are configured with the IPv4-mapped IPv6 form of their address: clients reach them in the same way, but the
/// broker sees IPv6 peers.
fn configured(addrs: &[String]) -> Vec<String> {
    static MAPPED: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    let f = flavor();
    let how = (f >> 33) % 4; // none, some, some, all
    if f == 0 || how == 0 || DISTURB.with(|l| l.get()) == Disturb::Count {
        return addrs.to_vec();
    }
    let can = *MAPPED.get_or_init(|| {
        std::net::TcpListener::bind("[::ffff:127.0.0.1]:0").and_then(|l| TcpStream::connect(("127.0.0.1", l.local_addr()?.port()))).is_ok()
    });
    let mut any = false;
    let v = addrs
        .iter()
        .enumerate()
        .map(|(k, a)| match a.parse::<std::net::SocketAddrV4>() {
            Ok(v4) if can && (how == 3 || (f >> (35 + k % 12)) & 1 == 1) => {
                any = true;
                std::net::SocketAddrV6::new(v4.ip().to_ipv6_mapped(), v4.port(), 0, 0).to_string()
            }
            _ => a.clone(),
        })
        .collect();
    if any {
        note("broker with IPv6 listeners".into());
    }
    v
}

/// A command with nothing of the caller's environment that could change what the program does.
pub fn command(bin: &Path, cwd: &Path) -> Command {
    let mut c = Command::new(bin);
    c.current_dir(cwd).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", cwd).env("TOKIO_WORKER_THREADS", "2");
    c.stdin(Stdio::null()).stdout(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &r);
            let m = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &m);
            Ok(())
        });
    }
    c
}

impl Broker {
    /// users: (name, password); `raw` entries are written as they are
    pub fn start(listeners: usize, users: &[(String, String)], patience: Duration) -> Result<Broker, String> {
        let mut text = String::new();
        for (u, p) in users {
            text.push_str(&format!("{u}:{}\n", cheap_hash(p)));
        }
        Self::start_with(listeners, &text, patience)
    }
    /// one listener, any bytes as the password file
    pub fn start_raw(passwd: &[u8], patience: Duration) -> Result<Broker, String> {
        let mut last = String::new();
        for _ in 0..3 {
            match Self::start_at(vec![fresh_addr()?], passwd, patience) {
                Ok(b) => return Ok(b),
                // the broker's own refusal stands, a taken port does not
                Err(e) if e.starts_with("the broker ended") && !e.contains("AddrInUse") => return Err(e),
                Err(e) => last = e,
            }
        }
        Err(last)
    }
    pub fn start_with(listeners: usize, passwd: &str, patience: Duration) -> Result<Broker, String> {
        let mut last = String::new();
        for _ in 0..3 {
            let mut addrs = (0..listeners).map(|_| fresh_addr()).collect::<Result<Vec<_>, _>>()?;
            // some of the further listeners are IPv6 ones, the only clients of which have ::1 as their address
            let f = flavor();
            let g = f.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40;
            if f != 0 && g % 3 == 0 && DISTURB.with(|l| l.get()) != Disturb::Count {
                for (k, a) in addrs.iter_mut().enumerate().skip(1) {
                    if (g >> (2 + k % 20)) & 1 == 1 {
                        if let Some(v6) = fresh_v6() {
                            *a = v6;
                            note("broker with listeners on ::1".into());
                        }
                    }
                }
            }
            match Self::start_at(addrs, passwd.as_bytes(), patience) {
                Ok(b) => return Ok(b),
                Err(e) => last = e,
            }
        }
        Err(last)
    }
    fn start_at(addrs: Vec<String>, passwd: &[u8], patience: Duration) -> Result<Broker, String> {
        let dir = Scratch::new("broker")?;
        let pw = dir.0.join("passwd");
        std::fs::write(&pw, passwd).map_err(|e| e.to_string())?;
        let conf = dir.0.join("ratelmq.conf");
        let list = configured(&addrs).iter().map(|a| toml_str(a)).collect::<Vec<_>>().join(", ");
        std::fs::write(&conf, format!("[mqtt]\nlisteners_tcp = [ {list} ]\n\n[authentication]\npassword_file = {}\n", toml_str(pw.to_str().unwrap()))).map_err(|e| e.to_string())?;
        let err = std::fs::File::create(dir.0.join("stderr")).map_err(|e| e.to_string())?;
        let mut cmd = command(&bin_dir().join("ratelmq"), &dir.0);
        disturb(&mut cmd);
        let child = cmd
            .arg("-c")
            .arg(&conf)
            .stderr(err)
            .spawn()
            .map_err(|e| format!("cannot start {}: {e}", bin_dir().join("ratelmq").display()))?;
        let mut b = Broker { child, addrs, dir, exit: None };
        let end = Instant::now() + patience;
        for a in b.addrs.clone() {
            loop {
                match TcpStream::connect(&a) {
                    Ok(_) => break,
                    Err(e) => {
                        if let Some(s) = b.dead() {
                            return Err(format!("the broker ended at start ({s}): {}", b.stderr()));
                        }
                        if Instant::now() > end {
                            return Err(format!("the broker does not listen on {a}: {e}; {}", b.stderr()));
                        }
                        std::thread::sleep(Duration::from_millis(2));
                    }
                }
            }
        }
        Ok(b)
    }
    pub fn dead(&mut self) -> Option<ExitStatus> {
        if self.exit.is_none() {
            self.exit = self.child.try_wait().ok().flatten();
        }
        self.exit
    }
    pub fn stderr(&self) -> String {
        let mut s = String::new();
        if let Ok(mut f) = std::fs::File::open(self.dir.0.join("stderr")) {
            let mut v = vec![];
            let _ = f.read_to_end(&mut v);
            s = String::from_utf8_lossy(&v).into_owned();
        }
        // what it died of, without what it logged
        let at = s.find("panicked at").and_then(|i| s[..i].rfind("thread ")).unwrap_or(0);
        s[at..].chars().take(600).collect()
    }
    /// number of sockets the process holds
    pub fn sockets(&self) -> Option<usize> {
        let mut n = 0;
        for e in std::fs::read_dir(format!("/proc/{}/fd", self.child.id())).ok()? {
            if let Ok(t) = std::fs::read_link(e.ok()?.path()) {
                if t.to_string_lossy().starts_with("socket:") {
                    n += 1;
                }
            }
        }
        Some(n)
    }
    /// bytes and blocks the process has allocated and not freed, if they are counted
    pub fn heap(&self) -> Option<(i64, i64)> {
        let v = std::fs::read(self.dir.0.join("heap")).ok()?;
        Some((i64::from_ne_bytes(v.get(..8)?.try_into().ok()?), i64::from_ne_bytes(v.get(8..16)?.try_into().ok()?)))
    }
    /// memory of the process in kB: anonymous resident pages
    pub fn rss_kb(&self) -> Option<u64> {
        let s = std::fs::read_to_string(format!("/proc/{}/status", self.child.id())).ok()?;
        s.lines().find(|l| l.starts_with("RssAnon:"))?.split_whitespace().nth(1)?.parse().ok()
    }
    /// State and processor time of every thread.
    fn threads(&self) -> Option<Vec<(char, u64)>> {
        let mut v = vec![];
        for t in std::fs::read_dir(format!("/proc/{}/task", self.child.id())).ok()? {
            let s = std::fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
            let w: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
            v.push((w.first()?.chars().next()?, w.get(11)?.parse::<u64>().ok()? + w.get(12)?.parse::<u64>().ok()?));
        }
        Some(v)
    }
    /// Every thread sleeps, for a second and a half: the broker is not short of processor time, it waits for something.
    pub fn asleep(&self) -> bool {
        let mut first = None;
        for _ in 0..30 {
            let Some(t) = self.threads() else { return false };
            if t.iter().any(|(s, _)| *s != 'S') {
                return false;
            }
            if *first.get_or_insert(t.clone()) != t {
                return false;
            }
            std::thread::sleep(Duration::from_millis(50));
        }
        true
    }
    /// Whether a stranger is answered (even if refused) at once, or not at all while the broker sleeps.
    fn probe(&self, patience: Duration) -> Probe {
        let t0 = Instant::now();
        let Ok(a) = self.addrs[0].parse() else { return Probe::Unclear };
        let Ok(mut s) = TcpStream::connect_timeout(&a, patience / 2) else { return Probe::Unclear };
        let _ = s.set_read_timeout(Some(patience / 2));
        let _ = std::io::Write::write_all(&mut s, &[0x10, 12, 0, 4, b'M', b'Q', b'T', b'T', 4, 2, 0, 0, 0, 0]);
        match s.read(&mut [0u8; 1]) {
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => {
                if self.asleep() {
                    Probe::Hangs
                } else {
                    Probe::Unclear
                }
            }
            _ if t0.elapsed() < Duration::from_millis(500) => Probe::Serves,
            _ => Probe::Unclear,
        }
    }
    /// Something that must happen did not within the patience. Ok: wait as long again (the broker answers others at once; if
    /// that is so after the second wait, too, it is no matter of time). Otherwise what is to be made of it.
    pub fn strike(&self, strikes: &mut u32, what: &str, patience: Duration) -> Result<(), Outcome> {
        match self.probe(patience) {
            Probe::Hangs => Err(Outcome::Fail(format!("{what}; the broker answers nobody and all its threads sleep"))),
            Probe::Unclear => Err(Outcome::Late(what.into())),
            Probe::Serves => {
                *strikes += 1;
                if *strikes > 1 {
                    Err(Outcome::Fail(format!("{what}, twice, while the broker answered others at once")))
                } else {
                    Ok(())
                }
            }
        }
    }
    pub fn signal(&self, sig: i32) {
        unsafe {
            libc::kill(self.child.id() as i32, sig);
        }
    }
}
impl Drop for Broker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
