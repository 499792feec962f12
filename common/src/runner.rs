//! Property runner: seeded generation, parallel workers, watchdogged child processes, shrinking, confirmation,
//! evidence, replay files and known findings.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngSeed, TestCaseError, TestError, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static FLAVOR: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// How the surroundings of the current case are varied (what is not part of its input: threads, timing, ...); 0: not at all.
pub fn flavor() -> u64 {
    FLAVOR.with(|f| f.get())
}

thread_local! {
    static NOTE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(vec![]) };
}
/// Adds a class to the case that is running.
pub fn note(tag: String) {
    NOTE.with(|n| n.borrow_mut().push(tag));
}

/// Result of running one case.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Outcome {
    Pass,
    /// definite wrong behaviour
    Fail(String),
    /// something that had to happen did not happen within the patience given (re-run with more before believed)
    Late(String),
    /// a wrong behaviour with the signature of a listed finding
    Known(String, String),
    /// the harness could not run the case
    Broken(String),
}

/// What one case exercised.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Obs {
    pub nontrivial: bool,
    pub tags: Vec<String>,
    /// deviations with the signature of a listed finding, seen and tolerated in this case
    pub known: Vec<(String, String)>,
}
impl Obs {
    pub fn tag(&mut self, t: &str) {
        if !self.tags.iter().any(|x| x == t) {
            self.tags.push(t.to_string());
        }
    }
    pub fn tag_if(&mut self, c: bool, t: &str) {
        if c {
            self.tag(t)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub exe: PathBuf,
    pub known: Vec<(String, String, String)>, // property, signature, text
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

impl Ctx {
    pub fn load(property: &str) -> Ctx {
        let verif = verif_dir();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
            for l in s.lines() {
                if let Some(r) = l.strip_prefix("finding: property=") {
                    let mut it = r.splitn(3, ' ');
                    let (p, sig, text) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    known.push((p.into(), sig.trim_start_matches("sig=").into(), text.into()));
                }
            }
        }
        Ctx { property: property.into(), tier, seed, verif, exe: std::env::current_exe().unwrap(), known }
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|(p, s, _)| *p == self.property && s == sig)
    }
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub nontrivial_evals: u64,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub known: BTreeMap<String, (u64, String)>,
    pub late_discarded: u64,
    pub notes: Vec<String>,
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub section: String,
    pub reason: String,
    pub case: serde_json::Value,
    #[serde(default)]
    pub flavor: u64,
}

pub struct Failure {
    pub flavor: u64,
    pub section: String,
    pub reason: String,
    pub case: serde_json::Value,
}

/// A generated sub-check of a property.
pub trait SectionDyn: Sync + Send {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn run(&self, ctx: &Ctx, stats: &Mutex<Stats>) -> Result<Option<Failure>, String>;
    /// run one case given as JSON (replay), under the same isolation
    fn replay(&self, ctx: &Ctx, case: &serde_json::Value, flavor: u64) -> Result<(Outcome, Obs), String>;
    /// body of an isolating child process
    fn child(&self) -> !;
}

pub struct Section<T> {
    pub name: &'static str,
    pub rule: &'static str,
    pub cases: (u32, u32),
    pub workers: usize,
    /// run each case in a child process that is killed after `patience`
    pub isolated: bool,
    pub patience: Duration,
    pub shrink_secs: u64,
    pub strategy: fn(Tier) -> BoxedStrategy<T>,
    pub exec: fn(&T, &mut Obs, Duration) -> Outcome,
}

fn hash_of<H: Hash + ?Sized>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

/// One isolating child process.
struct Kid {
    child: Child,
    rx: mpsc::Receiver<String>,
}
impl Kid {
    fn start(exe: &PathBuf, property: &str, section: &str) -> Result<Kid, String> {
        let mut cmd = Command::new(exe);
        cmd.args(["child", property, section]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &r);
                let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &c);
                Ok(())
            });
        }
        let mut child = cmd.spawn().map_err(|e| format!("cannot start child: {e}"))?;
        let out = child.stdout.take().unwrap();
        let (tx, rx) = mpsc::channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Ok(Kid { child, rx })
    }
    fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
impl Drop for Kid {
    fn drop(&mut self) {
        self.kill();
    }
}

struct Exec<'a, T> {
    sec: &'a Section<T>,
    ctx: &'a Ctx,
    kid: Option<Kid>,
}
impl<'a, T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static> Exec<'a, T> {
    fn once(&mut self, case: &T, obs: &mut Obs, patience: Duration) -> Outcome {
        if !self.sec.isolated {
            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.sec.exec)(case, obs, patience))) {
                Ok(o) => o,
                Err(e) => Outcome::Broken(format!("panic in the harness: {}", panic_text(&e))),
            };
            for t in NOTE.with(|n| std::mem::take(&mut *n.borrow_mut())) {
                obs.tag(&t);
            }
            return o;
        }
        if self.kid.is_none() {
            match Kid::start(&self.ctx.exe, &self.ctx.property, self.sec.name) {
                Ok(k) => self.kid = Some(k),
                Err(e) => return Outcome::Broken(e),
            }
        }
        let kid = self.kid.as_mut().unwrap();
        let line = serde_json::to_string(case).unwrap();
        let stdin = kid.child.stdin.as_mut().unwrap();
        let sent = writeln!(stdin, "{line}").and_then(|_| stdin.flush());
        if sent.is_err() {
            self.kid = None;
            return Outcome::Broken("child gone before the case".into());
        }
        match kid.rx.recv_timeout(patience) {
            Ok(l) => match serde_json::from_str::<(Outcome, Obs)>(&l) {
                Ok((o, ob)) => {
                    *obs = ob;
                    o
                }
                Err(e) => Outcome::Broken(format!("child said {l:?}: {e}")),
            },
            Err(mpsc::RecvTimeoutError::Timeout) => {
                self.kid = None;
                Outcome::Late(format!("no result within {patience:?}: the code under test hangs"))
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => {
                let mut k = self.kid.take().unwrap();
                let st = k.child.wait();
                Outcome::Fail(format!("the process running the code under test died: {st:?}"))
            }
        }
    }
    /// Runs a case; a late outcome is believed only when it repeats with three times the patience.
    fn run(&mut self, case: &T, obs: &mut Obs, late: &mut u64) -> Outcome {
        self.run_with(case, obs, late, true)
    }
    fn run_with(&mut self, case: &T, obs: &mut Obs, late: &mut u64, believe: bool) -> Outcome {
        // while shrinking, less patience: the result is confirmed with all of it
        let o = self.once(case, obs, if believe { self.sec.patience } else { self.sec.patience / 4 });
        if let (Outcome::Late(why), true) = (&o, believe) {
            let o2 = self.once(case, obs, self.sec.patience * 3);
            if o2 == Outcome::Pass {
                *late += 1;
                eprintln!("  {}: late, but not when repeated: {}", self.sec.name, why.chars().take(700).collect::<String>());
            }
            return o2;
        }
        o
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

impl<T: Serialize + DeserializeOwned + Debug + Clone + Send + 'static> SectionDyn for Section<T> {
    fn name(&self) -> &str {
        self.name
    }
    fn rule(&self) -> &str {
        self.rule
    }

    fn child(&self) -> ! {
        let stdin = std::io::stdin();
        let mut line = String::new();
        loop {
            line.clear();
            match stdin.lock().read_line(&mut line) {
                Ok(0) | Err(_) => std::process::exit(0),
                _ => {}
            }
            let case: T = serde_json::from_str(&line).expect("case");
            let mut obs = Obs::default();
            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (self.exec)(&case, &mut obs, self.patience))) {
                Ok(o) => o,
                Err(e) => Outcome::Fail(format!("panic: {}", panic_text(&e))),
            };
            let mut out = std::io::stdout().lock();
            writeln!(out, "{}", serde_json::to_string(&(o, obs)).unwrap()).unwrap();
            out.flush().unwrap();
        }
    }

    fn replay(&self, ctx: &Ctx, case: &serde_json::Value, flavor: u64) -> Result<(Outcome, Obs), String> {
        FLAVOR.with(|f| f.set(flavor));
        let c: T = serde_json::from_value(case.clone()).map_err(|e| format!("replay case: {e}"))?;
        let mut obs = Obs::default();
        let mut late = 0;
        let o = Exec { sec: self, ctx, kid: None }.run(&c, &mut obs, &mut late);
        Ok((o, obs))
    }

    fn run(&self, ctx: &Ctx, stats: &Mutex<Stats>) -> Result<Option<Failure>, String> {
        let total = if ctx.tier == Tier::Thorough { self.cases.1 } else { self.cases.0 };
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let total = ((total as f64 * scale).ceil() as u32).max(1);
        let workers = self.workers.min(total as usize).max(1);
        let stop = AtomicBool::new(false);
        let broken = Mutex::new(None::<String>);
        let found: Mutex<Vec<(String, T, String, T, u64)>> = Mutex::new(vec![]); // shrunk reason, shrunk, first reason, first, flavor
        let sample_budget = AtomicU64::new(3);
        std::thread::scope(|sc| {
            for w in 0..workers {
                let (stop, broken, found, sample_budget) = (&stop, &broken, &found, &sample_budget);
                sc.spawn(move || {
                    let n = total / workers as u32 + ((w as u32) < total % workers as u32) as u32;
                    let cfg = Config {
                        cases: n,
                        failure_persistence: None,
                        rng_seed: RngSeed::Fixed(hash_of(&(ctx.seed, &ctx.property, self.name, w))),
                        max_shrink_iters: 4000,
                        max_shrink_time: (self.shrink_secs * 1000) as u32,
                        max_global_rejects: 1_000_000,
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new(cfg);
                    let first: std::cell::RefCell<Option<(String, T)>> = std::cell::RefCell::new(None);
                    let shrink_start: std::cell::RefCell<Option<Instant>> = std::cell::RefCell::new(None);
                    let exec = std::cell::RefCell::new(Exec { sec: self, ctx, kid: None });
                    let strat = (self.strategy)(ctx.tier);
                    let count = std::cell::Cell::new(0u32);
                    let res = runner.run(&strat, |case| {
                        let shrinking = first.borrow().is_some();
                        if !shrinking && stop.load(Ordering::Relaxed) {
                            return Ok(());
                        }
                        if !shrinking {
                            // kept while shrinking
                            count.set(count.get() + 1);
                            FLAVOR.with(|f| f.set(hash_of(&("flavor", ctx.seed, &ctx.property, self.name, w, count.get())) >> 16));
                        }
                        let mut obs = Obs::default();
                        let mut late = 0;
                        // shrinking a late case: give it less time than the run that found it; it is confirmed in full below
                        if shrinking && first.borrow().as_ref().is_some_and(|f| f.0.starts_with("LATE")) && shrink_start.borrow().is_some_and(|t: Instant| t.elapsed() > Duration::from_secs(45)) {
                            return Ok(());
                        }
                        let o = exec.borrow_mut().run_with(&case, &mut obs, &mut late, !shrinking);
                        let mut known = std::mem::take(&mut obs.known);
                        let mut failed = None;
                        match o {
                            Outcome::Pass => {}
                            Outcome::Known(s, t) => known.push((s, t)),
                            Outcome::Fail(r) => failed = Some(r),
                            Outcome::Late(r) => failed = Some(format!("LATE {r}")),
                            Outcome::Broken(r) => {
                                broken.lock().unwrap().get_or_insert(format!("{}: {r}", self.name));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        for (s, t) in known {
                            if ctx.is_known(&s) {
                                let mut st = stats.lock().unwrap();
                                let e = st.known.entry(s).or_insert((0, t));
                                e.0 += 1;
                            } else if failed.is_none() {
                                failed = Some(format!("[{s}] {t}"));
                            }
                        }
                        if !shrinking {
                            let mut st = stats.lock().unwrap();
                            st.evaluations += 1;
                            st.late_discarded += late;
                            for t in &obs.tags {
                                *st.tags.entry(format!("{}:{}", self.name, t)).or_default() += 1;
                            }
                            if obs.nontrivial {
                                st.nontrivial_evals += 1;
                                let js = serde_json::to_string(&case).unwrap();
                                st.nontrivial.insert(hash_of(&(self.name, &js)));
                                if js.len() < 3000 && sample_budget.load(Ordering::Relaxed) > 0 {
                                    sample_budget.fetch_sub(1, Ordering::Relaxed);
                                    st.samples.push(serde_json::json!({"section": self.name, "case": serde_json::to_value(&case).unwrap(), "classes": obs.tags}));
                                }
                            }
                        }
                        match failed {
                            None => Ok(()),
                            Some(r) => {
                                if !shrinking {
                                    // one worker shrinks; what the others find at the same moment is left alone
                                    if stop.swap(true, Ordering::Relaxed) {
                                        return Ok(());
                                    }
                                    *shrink_start.borrow_mut() = Some(Instant::now());
                                    *first.borrow_mut() = Some((r.clone(), case.clone()));
                                }
                                Err(TestCaseError::fail(r))
                            }
                        }
                    });
                    match res {
                        Ok(()) => {}
                        Err(TestError::Fail(r, v)) => {
                            let (fr, fv) = first.borrow().clone().unwrap_or((r.to_string(), v.clone()));
                            found.lock().unwrap().push((r.to_string(), v, fr, fv, flavor()));
                        }
                        Err(TestError::Abort(r)) => {
                            broken.lock().unwrap().get_or_insert(format!("{}: generator aborted: {r}", self.name));
                        }
                    }
                });
            }
        });
        if let Some(b) = broken.into_inner().unwrap() {
            if found.lock().unwrap().is_empty() {
                return Err(b);
            }
        }
        // Confirm: the shrunk case, then the first failing case.
        for (r, v, fr, fv, fl) in found.into_inner().unwrap() {
            let mut ex = Exec { sec: self, ctx, kid: None };
            for (reason, case) in [(&r, &v), (&fr, &fv)] {
                for k in 0..4 {
                    // undisturbed once, in case that is enough
                    let flavor = if k == 0 { 0 } else { fl };
                    FLAVOR.with(|f| f.set(flavor));
                    let mut late = 0;
                    let mut obs = Obs::default();
                    let o = ex.run(case, &mut obs, &mut late);
                    let bad = match o {
                        Outcome::Fail(r) => Some(r),
                        Outcome::Late(r) => Some(r),
                        Outcome::Known(s, t) if !ctx.is_known(&s) => Some(format!("[{s}] {t}")),
                        _ => obs.known.iter().find(|(s, _)| !ctx.is_known(s)).map(|(s, t)| format!("[{s}] {t}")),
                    };
                    if let Some(b) = bad {
                        return Ok(Some(Failure { flavor, section: self.name.into(), reason: b, case: serde_json::to_value(case).unwrap() }));
                    }
                }
                let _ = reason;
            }
            if !fr.starts_with("LATE") {
                // wrong bytes were observed; no timing can excuse them
                return Ok(Some(Failure {
                    flavor: fl,
                    section: self.name.into(),
                    reason: format!("{fr} (observed once; did not repeat in 8 re-runs)"),
                    case: serde_json::to_value(&fv).unwrap(),
                }));
            }
            let mut st = stats.lock().unwrap();
            st.late_discarded += 1;
            st.notes.push(format!("{}: a late answer did not repeat and is not counted: {fr}", self.name));
        }
        Ok(None)
    }
}

pub type Registry = BTreeMap<&'static str, Vec<Box<dyn SectionDyn>>>;

fn write_replay(ctx: &Ctx, f: &Failure) -> PathBuf {
    let dir = ctx.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let r = Replay { property: ctx.property.clone(), section: f.section.clone(), reason: f.reason.clone(), case: f.case.clone(), flavor: f.flavor };
    let js = serde_json::to_string_pretty(&r).unwrap();
    let path = dir.join(format!("{}-{}-{:08x}.json", ctx.property, f.section, hash_of(&js) as u32));
    std::fs::write(&path, js).unwrap();
    path
}

/// `prog run <property> <part-file>` | `prog replay <file>` | `prog child <property> <section>` | `prog list`
pub fn main(reg: Registry) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("child") => {
            let sec = reg[args[2].as_str()].iter().find(|s| s.name() == args[3]).expect("section");
            std::panic::set_hook(Box::new(|_| {}));
            sec.child()
        }
        Some("list") => {
            for (p, ss) in &reg {
                println!("{p}: {}", ss.iter().map(|s| s.name().to_string()).collect::<Vec<_>>().join(" "));
            }
            0
        }
        Some("replay") => {
            let r: Replay = serde_json::from_str(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let ctx = Ctx::load(&r.property);
            match reg.get(r.property.as_str()).and_then(|ss| ss.iter().find(|s| s.name() == r.section)) {
                None => {
                    eprintln!("no section {} of {} in this program", r.section, r.property);
                    3
                }
                Some(s) => match s.replay(&ctx, &r.case, r.flavor) {
                    Ok((o, obs)) => {
                        println!("{o:?}\nclasses {:?} known {:?}", obs.tags, obs.known);
                        match o {
                            Outcome::Pass | Outcome::Known(..) => 0,
                            Outcome::Broken(_) => 2,
                            _ => 1,
                        }
                    }
                    Err(e) => {
                        eprintln!("{e}");
                        2
                    }
                },
            }
        }
        Some("run") => run_property(&reg, &args[2], args.get(3).map(|s| s.as_str())),
        _ => {
            eprintln!("usage: run|replay|child|list");
            2
        }
    };
    std::process::exit(code)
}

fn run_property(reg: &Registry, property: &str, part: Option<&str>) -> i32 {
    let ctx = Ctx::load(property);
    let t0 = Instant::now();
    let Some(sections) = reg.get(property) else {
        eprintln!("no such property here: {property}");
        return 2;
    };
    let only = std::env::var("VERIF_SECTION").ok();
    let stats = Mutex::new(Stats::default());
    let mut failure: Option<Failure> = None;
    let mut error: Option<String> = None;
    let mut regress = 0u64;
    // 1. saved inputs first
    let dir = ctx.verif.join("regress").join(property);
    let mut files: Vec<_> = std::fs::read_dir(&dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    for f in files {
        let Ok(text) = std::fs::read_to_string(&f) else { continue };
        let r: Replay = match serde_json::from_str(&text) {
            Ok(r) => r,
            Err(e) => {
                error = Some(format!("{}: {e}", f.display()));
                break;
            }
        };
        let Some(s) = sections.iter().find(|s| s.name() == r.section) else { continue };
        regress += 1;
        match s.replay(&ctx, &r.case, r.flavor) {
            Ok((Outcome::Fail(m), _)) | Ok((Outcome::Late(m), _)) => {
                failure = Some(Failure { flavor: r.flavor, section: r.section.clone(), reason: format!("saved input {}: {m}", f.display()), case: r.case.clone() });
                break;
            }
            Ok((Outcome::Broken(m), _)) | Err(m) => {
                error = Some(format!("{}: {m}", f.display()));
                break;
            }
            Ok((o, obs)) => {
                let mut known = obs.known.clone();
                if let Outcome::Known(s, t) = o {
                    known.push((s, t));
                }
                let mut st = stats.lock().unwrap();
                for (s, t) in known {
                    if ctx.is_known(&s) {
                        st.known.entry(s).or_insert((0, t)).0 += 1;
                    } else {
                        failure = Some(Failure { flavor: r.flavor, section: r.section.clone(), reason: format!("[{s}] {t}"), case: r.case.clone() });
                    }
                }
            }
        }
    }
    // 2. generated search
    let mut rules = vec![];
    if failure.is_none() && error.is_none() {
        for s in sections {
            if let Some(o) = &only {
                if o != s.name() {
                    continue;
                }
            }
            rules.push(format!("[{}] {}", s.name(), s.rule()));
            let ts = Instant::now();
            let before = stats.lock().unwrap().evaluations;
            match s.run(&ctx, &stats) {
                Ok(None) => {}
                Ok(Some(f)) => {
                    failure = Some(f);
                }
                Err(e) => {
                    error = Some(e);
                }
            }
            eprintln!("  {property}/{}: {} cases, {:.1}s", s.name(), stats.lock().unwrap().evaluations - before, ts.elapsed().as_secs_f64());
            if failure.is_some() || error.is_some() {
                break;
            }
        }
    }
    let st = stats.into_inner().unwrap();
    let mut replay_path = None;
    if let Some(f) = &failure {
        let p = write_replay(&ctx, f);
        println!("{property}: {}", f.reason.chars().take(1500).collect::<String>());
        replay_path = Some(p.display().to_string());
    }
    let part_json = serde_json::json!({
        "property": property,
        "tier": if ctx.tier == Tier::Thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "evaluations": st.evaluations,
        "distinct_nontrivial": st.nontrivial.len(),
        "nontrivial_evaluations": st.nontrivial_evals,
        "rules": rules,
        "samples": st.samples,
        "classes": st.tags,
        "known": st.known.iter().map(|(k, v)| serde_json::json!({"signature": k, "seen": v.0, "example": v.1})).collect::<Vec<_>>(),
        "saved_inputs_replayed": regress,
        "late_discarded": st.late_discarded,
        "notes": st.notes,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violation": failure.as_ref().map(|f| serde_json::json!({"section": f.section, "reason": f.reason})),
        "replay": replay_path,
        "error": error,
    });
    if let Some(p) = part {
        std::fs::write(p, serde_json::to_string_pretty(&part_json).unwrap()).unwrap();
    } else {
        println!("{}", serde_json::to_string_pretty(&part_json).unwrap());
    }
    if failure.is_some() {
        1
    } else if let Some(e) = error {
        eprintln!("error: {e}");
        2
    } else {
        0
    }
}
