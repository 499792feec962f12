#!/usr/bin/env python3
"""try.py [-a] [id...]: applies each planted bug to /repo, runs its property's check (-a: every check), undoes it. Prints which checks caught it."""
import json, os, subprocess, sys, time
V = "/verif"
S = os.environ.get("SEEDED", V + "/seeded")
a = sys.argv[1:]
every = a[:1] == ["-a"]
ids = a[1:] if every else a
for i in ids or sorted(os.listdir(S)):
    d = S + "/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        for q in (["C%02d" % k for k in range(1, 23)] if every else [p]):
            t = time.time()
            r = subprocess.run(["python3", "check.py", q], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            lim = ""
            if r.returncode == 1:
                f = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")][0].split("replay=")[1]
                x = json.load(open(f))
                lim = "%s: %s" % (x.get("section"), x.get("reason", "")[:200].replace("\n", " "))
            elif r.returncode:
                lim = r.stderr[-300:]
            if S == V + "/seeded":
                f = V + "/tools/plant/results.json"
                try:
                    res = json.load(open(f))
                except OSError:
                    res = {}
                res.setdefault(i, {})[q] = "caught" if r.returncode == 1 else "missed" if r.returncode == 0 else "error"
                json.dump(res, open(f, "w"), indent=0, sort_keys=True)
            if not every or r.returncode:
                print("%-24s %s %s %ds %s" % (i, q, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR %d" % r.returncode), time.time() - t, lim), flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
