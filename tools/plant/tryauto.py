#!/usr/bin/env python3
"""tryauto.py DIR [id...]: runs the checks on mutants until one of them sees it. Works in a copy: /tmp/wt3 (the repository) and /tmp/vf (this folder, with unit/Cargo.toml pointed at /tmp/wt3)."""
import json, os, subprocess, sys, time
D, ids = sys.argv[1], sys.argv[2:]
W, F = "/tmp/wt3", "/tmp/vf"
ONLY = D == "/verif/seeded"  # only the property it was planted for, and note the result
LOGS = "/tmp/seedres" if ONLY else D
os.makedirs(LOGS, exist_ok=True)
SCALE = "1" if ONLY else os.environ.get("VERIF_SCALE", "0.3")
REL = {  # after the property of the mutant, those that see most
    "decoder": ["C01", "C02", "C15", "C09"], "encoder": ["C03", "C06"], "stream": ["C01", "C03"], "listener": ["C09", "C13", "C14", "C16", "C21", "C17"],
    "handler": ["C08", "C09", "C13", "C14", "C05", "C10", "C06"], "messaging": ["C05", "C13", "C14", "C20"], "subscriptions": ["C05", "C04", "C08", "C13", "C16"],
    "passwd": ["C12", "C22"], "authentication": ["C11", "C10"], "session": ["C20", "C14"], "application": ["C17", "C18", "C19"], "settings": ["C18"], "main": ["C18"]}
sys.path.insert(0, "/verif")
UNIT = {"C01": "vcodec", "C02": "vcodec", "C03": "vcodec", "C04": "vrouting", "C05": "vrouting", "C11": "vauth", "C18": "vsettings", "C20": "vkeepalive"}
os.environ.pop("VERIF_BIN", None)
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.98.1", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", PATH="/root/.cargo/bin:/usr/local/cargo/bin:" + os.environ["PATH"])


def cargo(cwd, args, target, **kw):
    r = subprocess.run(["cargo", "build", "--offline"] + args, cwd=cwd, env=dict(env, CARGO_TARGET_DIR=target, **kw), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Exception("build %s: %s" % (cwd, r.stdout[-2000:]))


for i in ids or sorted(x for x in os.listdir(D) if not x.startswith(".")):
    log = LOGS + "/.result-" + i
    if os.path.exists(log) and not ids:
        continue
    m = json.load(open(D + "/" + i + "/meta.json"))
    order = [m["property"]]
    for k, v in REL.items():
        if k in i:
            order += v
    order += ["C%02d" % k for k in range(1, 23)]
    order = order[:1] if ONLY else list(dict.fromkeys(order))
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", W, "apply", D + "/" + i + "/patch.diff"], check=True)
    t0, res = time.time(), None
    try:
        cargo(W, ["--workspace"], F + "/target/repo", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="0")
        cargo(F + "/unit", [], F + "/target")
        for q in order:
            for exe in ([UNIT[q]] if q in UNIT else []) + ["ve2e"]:
                part = "/tmp/vf/part.json"
                try:
                    p = subprocess.run([F + "/target/debug/" + exe, "run", q, part], cwd=F, env=dict(env, VERIF_DIR=F, VERIF_SCALE=SCALE, VERIF_SEED="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
                    code = p.returncode
                except subprocess.TimeoutExpired:
                    code = "timeout"
                if code:
                    res = "%s by %s %s" % ({1: "caught"}.get(code, "ERROR %s" % code), q, exe)
                    break
            if res:
                break
    except Exception as e:
        res = str(e)[:300]
    res = res or "MISSED"
    open(log, "w").write(res + "\n")
    if ONLY and (res.startswith("caught") or res == "MISSED"):
        f = "/verif/tools/plant/results.json"
        d = json.load(open(f))
        d.setdefault(i, {})[m["property"]] = res.split()[0].lower()
        json.dump(d, open(f, "w"), indent=0, sort_keys=True)
    print("%-34s %-22s %4ds  %s" % (i, res, time.time() - t0, m.get("what_it_breaks", "")[:140]), flush=True)
subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
