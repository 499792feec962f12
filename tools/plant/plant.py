#!/usr/bin/env python3
"""Makes and confirms planted bugs. plant.py <definitions.py> [id...]: writes /verif/seeded/<id>/ for every definition that
applies, builds, passes the stable tests, and whose demonstration passes without it and fails with it.

A definition file calls bug(id, property, needs, what, edits, demo); edits: [(file, old, new)], demo: the body of a Python
function run against mq.py, or {"rs": source} for a Rust program linked to the library."""
import json, os, re, shutil, subprocess, sys, textwrap, importlib.util

V = "/verif"
WT = os.environ.get("WT", "/tmp/wt")
BUGS = []
MUT = os.environ.get("MUT")  # a folder: keep patches there, without demonstrations and whatever lines they change


def bug(id, prop, needs, what, edits, demo):
    BUGS.append(dict(id=id, prop=prop, needs=needs, what=what, edits=edits, demo=demo))


def sh(cmd, cwd=WT, timeout=900):
    r = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return r.returncode, r.stdout


ENV = ". /opt/vp/env.sh >/dev/null 2>&1; cd %s; unset CARGO_TARGET_DIR; " % WT


def build():
    return sh(ENV + "cargo build --offline --workspace 2>&1 | tail -30; exit ${PIPESTATUS[0]}")


def tests():
    c, o = sh(ENV + "cargo test --offline --workspace 2>&1")
    n = sum(int(x) for x in re.findall(r"test result: ok\. (\d+) passed", o))
    return c == 0 and n >= 39, o


def base_lines(f):
    """text of the lines that were in the first commit"""
    o = sh("git blame -s %s" % f)[1]
    return {i for i, l in enumerate(o.splitlines()) if l.startswith("^")}


RS = '''#!/bin/bash
# compiles demo.rs against the library that build.sh made and runs it
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-1.98.1}
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
ext() { ls -t "$repo"/target/debug/deps/lib$1-*.rlib | head -1; }
rustc --edition 2021 -A warnings -o "$d/demo" "$here/demo.rs" -L dependency="$repo/target/debug/deps" \\
  --extern ratelmq="$repo/target/debug/libratelmq.rlib" EXTERNS
cd "$d"
timeout 120 ./demo
'''


def write_demo(d, b):
    os.makedirs(d, exist_ok=True)
    if isinstance(b["demo"], dict):
        open(d + "/demo.rs", "w").write(textwrap.dedent(b["demo"]["rs"]).lstrip())
        ex = " ".join('--extern %s="$(ext %s)"' % (x, x) for x in b["demo"].get("ext", ["tokio", "chrono"]))
        open(d + "/demo.sh", "w").write(RS.replace("EXTERNS", ex))
    else:
        shutil.copyfile(V + "/tools/plant/mq.py", d + "/mq.py")
        body = textwrap.indent(textwrap.dedent(b["demo"]).strip("\n"), "    ")
        open(d + "/demo.py", "w").write("from mq import *\n\n\ndef demo():\n%s\n\n\nmain(demo)\n" % body)
        open(d + "/demo.sh", "w").write('#!/bin/sh\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 200 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)


def one(b):
    sh("git checkout -q -- . && git clean -fdq src ratelmq-passwd")
    files, fixlines = {}, 0
    for f, old, new in b["edits"]:
        p = WT + "/" + f
        s = open(p).read()
        n = s.count(old)
        if n != 1:
            return "edit of %s: %d matches of %r" % (f, n, old[:60])
        files[f] = 1
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff")[1]
    # which removed lines are original?
    orig = mine = 0
    for f in files:
        ol = None
        for l in sh("git diff -U0 %s" % f)[1].splitlines():
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", l)
            if m:
                at, k = int(m.group(1)), int(m.group(2) or 1)
                if ol is None:
                    o = sh("git blame -s HEAD -- %s" % f)[1]
                    ol = {i + 1 for i, x in enumerate(o.splitlines()) if x.startswith("^")}
                for i in range(at, at + k):
                    if i in ol:
                        orig += 1
                    else:
                        mine += 1
    note = "orig %d mine %d" % (orig, mine)
    if orig == 0 and not MUT:
        return "changes no original line " + note
    c, o = build()
    if c:
        return "does not build\n" + o
    ok, o = tests()
    if not ok:
        return "tests fail\n" + "\n".join(l for l in o.splitlines() if re.search("FAILED|panicked|error|test result", l))
    if MUT:
        d = MUT + "/" + b["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["prop"]}, open(d + "/meta.json", "w"))
        return "mutant made"
    t = "/tmp/demo-" + b["id"]
    shutil.rmtree(t, ignore_errors=True)
    write_demo(t, b)
    res = []
    for _ in range(3):
        c, o = sh("bash %s/demo.sh 2>&1 | tail -15; exit ${PIPESTATUS[0]}" % t)
        res.append((c, o.strip()[-300:]))
    if any(c == 0 for c, _ in res):
        return "demo passes with the bug: %r" % res
    b["out"] = res[0][1]
    b["t"] = t
    b["diff"] = diff
    b["note"] = note
    return None


def main():
    spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    m.bug = bug
    spec.loader.exec_module(m)
    want = sys.argv[2:]
    bs = [b for b in BUGS if not want or b["id"] in want]
    if not os.path.exists(WT):
        sh("cp -a /repo %s" % WT, cwd="/")
    sh("git checkout -q -- . && git fetch -q %s HEAD && git checkout -q FETCH_HEAD" % os.environ.get("FROM", "/repo"))
    good = []
    for b in bs:
        e = one(b)
        if e:
            print("BAD %s: %s" % (b["id"], e), flush=True)
        else:
            print("made %s (%s): %s" % (b["id"], b["note"], b["out"].splitlines()[-1:] ), flush=True)
            good.append(b)
    sh("git checkout -q -- .")
    print(build()[0])
    for b in good:
        res = [sh("bash %s/demo.sh 2>&1 | tail -15; exit ${PIPESTATUS[0]}" % b["t"]) for _ in range(3)]
        if any(c for c, _ in res):
            print("BAD %s: demo fails without the bug: %r" % (b["id"], [(c, o.strip()[-300:]) for c, o in res]), flush=True)
            continue
        d = V + "/seeded/" + b["id"]
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(b["t"], d)
        open(d + "/patch.diff", "w").write(b["diff"])
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(d + "/meta.json", "w"), indent=1)
        c, o = sh("git -C %s apply --check %s/patch.diff" % ("/repo", d))
        print("KEPT %s %s" % (b["id"], o), flush=True)


main()
