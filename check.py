#!/usr/bin/env python3
"""Decides one property on /repo's current working tree.

    check.py <ID>             run the check (VERIF_SEED, VERIF_TIER from the environment)
    check.py --replay <file>  run one saved case again
    check.py --setup          build everything

Exit 0: held on everything explored. 1: VIOLATION line printed. 2: the check could not be run.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
UNIT = {"C01": "vcodec", "C02": "vcodec", "C03": "vcodec", "C04": "vrouting", "C05": "vrouting", "C11": "vauth", "C18": "vsettings", "C20": "vkeepalive"}
E2E = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22"]
IDS = ["C%02d" % i for i in range(1, 23)]

ASSUME = {
    "*": ["the reference MQTT codec, matcher and broker model in common/ and e2e/src/world.rs, written from the MQTT 3.1.1 text",
          "random search: what was not generated was not tried"],
    "unit": ["the library is driven through its public functions in a process of its own (tokio, current thread), with an in-memory peer that chooses every read and write size"],
    "e2e": ["the real binaries run on the loopback network of this machine; an answer that is missing counts only when the broker meanwhile serves others or hangs asleep, or when it is missing again with three times the patience"],
}


def env(target):
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e.update(HOME=home, RUSTUP_TOOLCHAIN="1.98.1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", CARGO_TARGET_DIR=target)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    return e


def cargo(cwd, args, target, extra=None):
    e = env(target)
    e.update(extra or {})
    t = time.time()
    r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print("  build %s %s: %s, %.0fs" % (cwd, " ".join(args), "ok" if r.returncode == 0 else "FAILED", time.time() - t), file=sys.stderr)
    if r.returncode != 0:
        print(r.stdout[-6000:], file=sys.stderr)
    return r.returncode == 0


def lockfile():
    # the project commits no Cargo.lock; without this one cargo would pick versions that do not compile
    if not os.path.exists(REPO + "/Cargo.lock"):
        shutil.copyfile("/opt/vp/Cargo.lock", REPO + "/Cargo.lock")


def shim():
    """The libraries that disturb the programs: without the first (no C compiler) brokers run undisturbed."""
    os.makedirs(V + "/target", exist_ok=True)
    for src, lib in (("shim.c", "vshim"), ("fault.c", "vfault")):
        tmp = V + "/target/%s.%d.so" % (lib, os.getpid())
        try:
            r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, V + "/shim/" + src, "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        except OSError as e:
            print("  no %s: %s" % (lib, e), file=sys.stderr)
            continue
        if r.returncode == 0:
            os.replace(tmp, V + "/target/%s.so" % lib)
        else:
            print("  no %s: %s" % (lib, r.stdout[-500:]), file=sys.stderr)


def build(prop=None):
    """Builds what a property needs (everything without one); returns which of the programs are there."""
    lockfile()
    jobs = {}
    if prop is None or prop in UNIT:
        jobs["unit"] = lambda: cargo(V + "/unit", ["--bin", UNIT[prop]] if prop else [], V + "/target")
    if prop is None or prop in E2E:
        shim()
        # opt-level: message handling at full speed, and the hash of ratelmq-passwd in bearable time
        jobs["repo"] = lambda: cargo(REPO, ["--workspace"], V + "/target/repo", {"CARGO_PROFILE_DEV_OPT_LEVEL": "1", "CARGO_PROFILE_DEV_DEBUG": "0"})
        jobs["e2e"] = lambda: cargo(V + "/e2e", [], V + "/target")
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        done = {k: f.result() for k, f in [(k, ex.submit(j)) for k, j in jobs.items()]}
    return done.get("unit", False), done.get("repo", False) and done.get("e2e", False)


def findings(prop):
    r = []
    try:
        for l in open(V + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return r


def run(prop):
    t0 = time.time()
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    limit = 820 if tier == "quick" else 6 * 3600
    progs, notes = [], []
    unit, e2e = build(prop)
    if prop in UNIT:
        if unit:
            progs.append(("unit", V + "/target/debug/" + UNIT[prop]))
        else:
            notes.append("the part that calls the library directly does not compile against this tree and was left out")
    if prop in E2E:
        if e2e:
            progs.append(("e2e", V + "/target/debug/ve2e"))
        else:
            notes.append("the broker or the part that drives it does not build")
    if not progs:
        print("error: nothing to run for %s" % prop, file=sys.stderr)
        return 2
    parts, violation, error = [], None, None
    os.makedirs(V + "/parts", exist_ok=True)
    for name, exe in progs:
        part = "%s/parts/%s-%s.json" % (V, prop, name)
        if os.path.exists(part):
            os.unlink(part)
        e = dict(os.environ, VERIF_DIR=V, VERIF_TIER=tier, VERIF_SEED=str(seed))
        p = subprocess.Popen([exe, "run", prop, part], cwd=V, env=e)
        try:
            code = p.wait(timeout=max(30, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            error = "%s: no result within %d s" % (name, limit)
            break
        d = json.load(open(part)) if os.path.exists(part) else None
        if d:
            parts.append((name, d))
        if code == 1 and d:
            violation = d.get("replay")
            break
        if code != 0:
            error = "%s: exit %s: %s" % (name, code, d and d.get("error"))
            break
    fs = findings(prop)
    seen = {k["signature"]: k for _, d in parts for k in d["known"]}
    tags = {}
    for _, d in parts:
        tags.update(d["classes"])
    cov = {
        "evaluations": sum(d["evaluations"] for _, d in parts),
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for _, d in parts),
        "nontrivial_evaluations": sum(d["nontrivial_evaluations"] for _, d in parts),
        "rule": " ".join(r for _, d in parts for r in d["rules"]),
        "samples": [s for _, d in parts for s in d["samples"]][:6],
        "classes": tags,
        "saved_inputs_replayed": sum(d["saved_inputs_replayed"] for _, d in parts),
        "late_answers_not_counted": sum(d["late_discarded"] for _, d in parts),
        "known_findings_seen": [{"signature": s, "seen": k["seen"], "example": k["example"]} for s, k in seen.items()],
        "programs": [n for n, _ in parts],
        "notes": notes + [n for _, d in parts for n in d["notes"]],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": ASSUME["*"] + [a for n, _ in parts for a in ASSUME[n]],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    if violation:
        ev["violation"] = next((d["violation"] for _, d in reversed(parts) if d["violation"]), None)
        ev["replay"] = violation
    if error:
        ev["error"] = error
    os.makedirs(V + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (V, prop), "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print("VIOLATION property=%s replay=%s" % (prop, violation))
        return 1
    if error:
        print("error: " + error, file=sys.stderr)
        return 2
    for sig, text in fs:
        print("KNOWN-FINDING: property=%s %s: %s%s" % (prop, sig, text, "" if sig in seen else " (not met in this run)"))
    print("%s held: %d cases, %d distinct non-trivial, %.0fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    return 0


def replay(path):
    r = json.load(open(path))
    ok = []
    unit, e2e = build(r["property"])
    if unit:
        ok.append(V + "/target/debug/" + UNIT[r["property"]])
    if e2e:
        ok.append(V + "/target/debug/ve2e")
    for exe in ok:
        c = subprocess.run([exe, "replay", path], cwd=V, env=dict(os.environ, VERIF_DIR=V)).returncode
        if c != 3:
            if c == 1:
                print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return c
    return 2


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        return 0 if all(build()) else 2
    if len(a) == 2 and a[0] == "--replay":
        return replay(os.path.abspath(a[1]))
    if len(a) == 1 and a[0] in IDS:
        return run(a[0])
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main())
