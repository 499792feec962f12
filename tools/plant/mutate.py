#!/usr/bin/env python3
"""mutate.py OUT: one-token changes and deleted statements all over the code, those that build and pass the repository's tests, as folders for try.py."""
import json, os, re, subprocess, sys
OUT = sys.argv[1]
W = "/tmp/wt"
FILES = {  # the property to try first
    "src/mqtt/transport/packet_decoder.rs": "C02", "src/mqtt/transport/packet_encoder.rs": "C03", "src/mqtt/transport/mqtt_bytes_stream.rs": "C01",
    "src/mqtt/listener.rs": "C09", "src/broker/client_packet_handler.rs": "C14", "src/broker/messaging/messaging_service.rs": "C05",
    "src/broker/messaging/subscriptions_repository.rs": "C05", "src/broker/authentication.rs": "C11", "src/broker/session/session_entity.rs": "C20",
    "src/broker/session/session_repository.rs": "C14", "src/application.rs": "C17", "src/settings/mod.rs": "C18", "src/main.rs": "C18", "ratelmq-passwd/src/main.rs": "C12",
    "src/mqtt/packets/suback.rs": "C03", "src/mqtt/packets/connack.rs": "C03", "src/mqtt/packets/mod.rs": "C03",
}
SWAP = [("==", "!="), ("!=", "=="), (" > ", " >= "), (" < ", " <= "), (" >= ", " > "), (" <= ", " < "), ("&&", "||"), ("||", "&&"), ("true", "false"), ("false", "true"),
        (" + ", " - "), (" - ", " + "), (" += ", " -= "), (" * ", " + "), ("unwrap_or(true)", "unwrap_or(false)"), (".min(", ".max("), ("starts_with", "ends_with"), (" | ", " & "), (" & ", " | "), (">> ", "<< ")]


def sh(c):
    return subprocess.run(c, shell=True, cwd=W, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def mutants(line):
    code = line.split("//")[0] if not '"' in line else line
    s = code.strip()
    if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "trace!", "debug!", "info!", "warn!", "error!", "///")):
        return
    for a, b in SWAP:
        for m in re.finditer(re.escape(a), code):
            if a in ("true", "false") and re.search(r"\w", code[m.end():m.end() + 1] + code[m.start() - 1:m.start()]):
                continue
            if a == "||" and re.search(r"\(\|\||= \|\|", code):
                continue
            yield code[:m.start()] + b + code[m.end():]
    for m in re.finditer(r"(?<![\w.\"])(0[xb][0-9a-f]+|\d+)(?!\w|\.\.)", code):
        t = m.group(1)
        v = int(t, 0)
        for n in {v + 1, v - 1 if v else 1}:
            yield code[:m.start()] + str(n) + code[m.end():]
    m = re.match(r"^(\s*)(\} else )?if ([^{]+) \{\s*$", code)
    if m and not m.group(3).startswith("let "):
        yield "%s%sif !(%s) {\n" % (m.group(1), m.group(2) or "", m.group(3))
    if s.endswith(";") and not s.startswith(("let ", "const ", "pub ", "type ", "}", ")", ".", "static ")) and s.count("(") == s.count(")"):
        yield re.match(r"^\s*", code).group(0) + "{}\n" if False else "\n"
    if s.endswith("?;") and s.startswith("let _"):
        yield "\n"


subprocess.run("git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD", shell=True, cwd=W, check=True)
os.makedirs(OUT, exist_ok=True)
total = kept = 0
for f, prop in FILES.items():
    src = open(W + "/" + f).read()
    lines = src.splitlines(True)
    end = next((k for k, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    start = 0
    if f.endswith("mqtt_bytes_stream.rs"):  # the first half is not used by the broker
        start = next(k for k, l in enumerate(lines) if "impl MqttBytesReadStream" in l)
    for k in range(start, end):
        for n, new in enumerate(mutants(lines[k])):
            total += 1
            i = "%s-%d-%d" % (os.path.basename(f)[:-3] if not f.startswith("ratelmq-passwd") else "passwd", k + 1, n)
            if os.path.exists(OUT + "/" + i) or os.path.exists(OUT + "/.bad-" + i):
                continue
            open(W + "/" + f, "w").write("".join(lines[:k] + [new if new.endswith("\n") else new + "\n"] + lines[k + 1:]))
            r = sh("timeout -k 1 45 cargo test --offline --workspace --lib --bins --tests 2>&1")
            ok = r.returncode == 0
            if ok:
                d = OUT + "/" + i
                os.makedirs(d)
                open(d + "/patch.diff", "w").write(sh("git diff").stdout)
                json.dump({"property": prop, "needs": "", "what_it_breaks": lines[k].strip() + "  ->  " + new.strip()}, open(d + "/meta.json", "w"))
                kept += 1
            else:
                open(OUT + "/.bad-" + i, "w").close()
    open(W + "/" + f, "w").write(src)
    print(f, total, kept, flush=True)
