//! C22: runs of ratelmq-passwd that fail or are killed on their way.
use crate::broker::*;
use crate::passwd::{parse, verifies, Table};
use crate::world::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::time::{Duration, Instant};
use vcommon::runner::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Fault {
    None,
    /// at the n-th call on the file's folder; kinds as in shim/fault.c
    Call(u8, char),
    /// no file may grow beyond this many bytes (0: thousandths of the present size)
    Size(u16),
    /// killed from outside after so many microseconds
    Kill(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    user: u8,
    /// None: delete
    pass: Option<String>,
    fault: Fault,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// users of the file: name and password
    entries: Vec<(u8, String)>,
    crowd: u16,
    no_last_newline: bool,
    runs: Vec<Run>,
    /// the file is reached through a link
    link: bool,
    /// 0: as it comes
    mode: u8,
    owner: bool,
}
const NAMES: &[&str] = &["a", "ab", "b", "a b", "\u{20ac}", "A"];
const MODES: &[u32] = &[0, 0o600, 0o640, 0o644, 0o660, 0o604];

enum End {
    Success,
    Failed(String),
    Killed,
}
fn run(dir: &std::path::Path, home: &std::path::Path, args: &[String], fault: &Fault, size: usize, patience: Duration) -> R<End> {
    let broken = |e: std::io::Error| Outcome::Broken(e.to_string());
    let err = home.join("stderr");
    let mut cmd = command(&bin_dir().join("ratelmq-passwd"), home);
    cmd.args(args).stderr(std::fs::File::create(&err).map_err(broken)?);
    let mut kill_at = None;
    match fault {
        Fault::None => {}
        Fault::Call(n, k) => {
            cmd.env("LD_PRELOAD", verif_dir().join("target/vfault.so")).env("VFAULT", format!("{}|{n}|{k}", dir.display()));
        }
        Fault::Size(m) => {
            let n = (size * *m as usize / 1000) as u64;
            unsafe {
                cmd.pre_exec(move || {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                    let r = libc::rlimit { rlim_cur: n, rlim_max: n };
                    libc::setrlimit(libc::RLIMIT_FSIZE, &r);
                    Ok(())
                });
            }
        }
        Fault::Kill(us) => kill_at = Some(Duration::from_micros(*us as u64)),
    }
    let t0 = Instant::now();
    let mut ch = cmd.spawn().map_err(|e| Outcome::Broken(format!("cannot start ratelmq-passwd: {e}")))?;
    loop {
        if let Some(s) = ch.try_wait().map_err(broken)? {
            let said: String = std::fs::read(&err).map(|b| String::from_utf8_lossy(&b).chars().take(300).collect()).unwrap_or_default();
            return Ok(if s.success() {
                End::Success
            } else if s.signal() == Some(libc::SIGKILL) {
                End::Killed
            } else {
                End::Failed(format!("{s}: {said}"))
            });
        }
        if kill_at.is_some_and(|k| t0.elapsed() >= k) {
            let _ = ch.kill();
            kill_at = None;
        }
        if t0.elapsed() > patience {
            let _ = ch.kill();
            let _ = ch.wait();
            return Err(Outcome::Late(format!("ratelmq-passwd {args:?} does not end")));
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}
/// Whether `now` is what the run makes of `before`.
fn updated(before: &Table, now: &Result<Table, String>, user: &str, pass: &Option<String>) -> Result<(), String> {
    let now = now.as_ref().map_err(|e| format!("the broker cannot read the file: {e}"))?;
    for (n, h) in before {
        if n != user && now.get(n) != Some(h) {
            return Err(format!("the entry of {n:?} changed to {:?}", now.get(n)));
        }
    }
    if let Some(n) = now.keys().find(|n| *n != user && !before.contains_key(*n)) {
        return Err(format!("an entry for {n:?} appeared"));
    }
    match (pass, now.get(user)) {
        (None, None) => Ok(()),
        (None, Some(_)) => Err(format!("{user:?} is still there")),
        (Some(_), None) => Err(format!("{user:?} is not there")),
        (Some(p), Some(h)) if verifies(h, p) => Ok(()),
        (Some(p), Some(h)) => Err(format!("{p:?} does not verify for {user:?}: {h:?}")),
    }
}
fn exec(c: &Case, obs: &mut Obs, patience: Duration) -> Outcome {
    to_outcome(go(c, obs, patience))
}
fn go(c: &Case, obs: &mut Obs, patience: Duration) -> R<()> {
    let broken = |e: std::io::Error| Outcome::Broken(e.to_string());
    let d = Scratch::new("fault").map_err(Outcome::Broken)?;
    let base = d.0.canonicalize().map_err(broken)?;
    let (dir, home) = (base.join("etc"), base.join("home"));
    std::fs::create_dir(&dir).and_then(|_| std::fs::create_dir(&home)).map_err(broken)?;
    let real = dir.join("passwd");
    let mut text = String::new();
    for (k, p) in &c.entries {
        text.push_str(&format!("{}:{}\n", NAMES[*k as usize % NAMES.len()], cheap_hash(p)));
    }
    for k in 0..c.crowd {
        text.push_str(&format!("user-{k}:$argon2id$v=19$m=4096,t=3,p=1$b25lIG9mIG1hbnkgc2FsdHM${:043}\n", k));
    }
    if c.no_last_newline && text.ends_with('\n') {
        text.pop();
    }
    std::fs::write(&real, &text).map_err(broken)?;
    if c.owner && std::os::unix::fs::chown(&real, Some(12345), Some(23456)).is_err() {
        obs.tag("owner cannot be set here");
    }
    let mode = MODES[c.mode as usize % MODES.len()];
    if mode != 0 {
        std::fs::set_permissions(&real, std::fs::Permissions::from_mode(mode)).map_err(broken)?;
    }
    let file = if c.link {
        let l = dir.join("link");
        std::os::unix::fs::symlink("passwd", &l).map_err(broken)?;
        l
    } else {
        real.clone()
    };
    let whose = |f: &std::path::Path| std::fs::metadata(f).map(|m| (m.mode(), m.uid(), m.gid()));
    let was = whose(&real).map_err(broken)?;
    let mark = base.join("etc.fired");
    for (k, r) in c.runs.iter().enumerate() {
        let before = std::fs::read(&real).map_err(broken)?;
        let told = parse(&before).map_err(|e| Outcome::Fail(format!("before run {k} the broker cannot read the file: {e}")))?;
        let user = NAMES[r.user as usize % NAMES.len()];
        let mut args = vec![format!("--file={}", file.display()), format!("--user={user}")];
        args.push(r.pass.as_ref().map_or("--delete".to_string(), |p| format!("--password={p}")));
        let _ = std::fs::remove_file(&mark);
        let end = run(&dir, &home, &args, &r.fault, text.len().max(200), patience)?;
        let fired = mark.exists();
        let after = std::fs::read(&file).map_err(|e| Outcome::Fail(format!("after run {k} ({:?}) of {args:?} the file cannot be read: {e}", r.fault)))?;
        let now = parse(&after);
        let show = |s: &[u8]| {
            let t = String::from_utf8_lossy(s).into_owned();
            if t.len() > 1500 { format!("{} bytes, {:?}...", t.len(), t.chars().take(300).collect::<String>()) } else { format!("{t:?}") }
        };
        let shown = |how: &str| format!("run {k} {args:?} with {:?} {how}\nfile before: {}\nfile after: {}", r.fault, show(&before), show(&after));
        let up = updated(&told, &now, user, &r.pass);
        match &end {
            End::Success => {
                if let Err(e) = &up {
                    return fail(format!("a run reported success, but {e}: {}", shown("succeeded")));
                }
                obs.tag_if(fired, "succeeded all the same");
            }
            End::Failed(_) | End::Killed => {
                let how = match &end {
                    End::Failed(s) => format!("failed ({s})"),
                    _ => "was killed".to_string(),
                };
                let disturbed = fired || matches!(r.fault, Fault::Size(_) | Fault::Kill(_));
                if !disturbed {
                    return fail(format!("a run without any disturbance failed: {}", shown(&how)));
                }
                if after != before && up.is_err() {
                    return fail(format!("the file is neither as it was nor updated ({}): {}", up.unwrap_err(), shown(&how)));
                }
                obs.nontrivial = true;
                obs.tag(match (&end, after == before) {
                    (End::Killed, true) => "killed, as it was",
                    (End::Killed, false) => "killed, updated",
                    (_, true) => "failed, as it was",
                    (_, false) => "failed, updated",
                });
            }
        }
        if fired {
            if let Fault::Call(n, kind) = &r.fault {
                obs.tag(&format!("call {n}"));
                obs.tag(&format!("kind {kind}"));
            }
        }
        // the broker must still be able to read it, and nobody else
        let is = whose(&real).map_err(|e| Outcome::Fail(format!("the file is gone ({e}): {}", shown(""))))?;
        if is != was {
            return fail(format!("mode, owner and group were {:o} {} {}, now {:o} {} {}: {}", was.0, was.1, was.2, is.0, is.1, is.2, shown("ended")));
        }
        if c.link && !std::fs::symlink_metadata(&file).is_ok_and(|m| m.is_symlink()) {
            return fail(format!("the link to the file is gone: {}", shown("ended")));
        }
    }
    obs.tag_if(c.link, "through a link");
    obs.tag_if(c.owner, "another owner");
    obs.tag_if(c.crowd > 50, "large file");
    Ok(())
}
fn gen_case(_t: Tier) -> BoxedStrategy<Case> {
    let kind = prop::sample::select(vec!['k', 'k', 'a', 'h', 'h', 'e', 'e', 'e', 'i', 's']);
    let fault = prop_oneof![
        10 => (0u8..22, kind).prop_map(|(n, k)| Fault::Call(n, k)),
        2 => (0u16..1600).prop_map(Fault::Size),
        1 => (0u32..60_000).prop_map(Fault::Kill),
        1 => Just(Fault::None),
    ];
    let run = (0u8..6, prop::option::weighted(0.7, "[a-z]{1,6}"), fault).prop_map(|(user, pass, fault)| Run { user, pass, fault });
    (
        vec((0u8..6, "[a-z]{1,4}"), 0..5),
        prop_oneof![8 => Just(0u16), 1 => 1u16..100, 1 => 100u16..2000],
        any::<bool>(),
        vec(run, 1..4),
        // at the end one without a fault
        (0u8..6, prop::option::weighted(0.7, "[a-z]{1,6}")),
        prop::bool::weighted(0.3),
        prop_oneof![Just(0u8), any::<u8>()],
        prop::bool::weighted(0.2),
    )
        .prop_map(|(entries, crowd, no_last_newline, mut runs, last, link, mode, owner)| {
            runs.push(Run { user: last.0, pass: last.1, fault: Fault::None });
            Case { entries, crowd, no_last_newline, runs, link, mode, owner }
        })
        .boxed()
}
pub fn register(reg: &mut Registry) {
    reg.entry("C22").or_default().push(Box::new(Section {
        name: "faults",
        rule: "1-3 runs of the real ratelmq-passwd (set or delete) on a generated file of 0-2000 entries, each with one fault: at the n-th call on the file's folder (opens, reads, writes, renames, ...) the process is killed before, after or half-way, or the call fails, is interrupted or moves only a part; or no file may grow beyond a limit; or it is killed after a time; then a run without a fault. After each the file must be as it was or completely updated, updated if the run reported success, and keep its owner, permissions and link. Non-trivial: a run failed or was killed.",
        cases: (1500, 20_000),
        workers: 8,
        isolated: false,
        patience: Duration::from_secs(15),
        shrink_secs: 60,
        strategy: gen_case,
        exec,
    }) as Box<dyn SectionDyn>);
}
