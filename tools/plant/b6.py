BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
REP = "src/broker/session/session_repository.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"

bug("read-error-empty", "C22", "an I/O error while the password file is read",
    "a password file that cannot be read is taken for an empty one, and all entries are lost", [
    (PW, "    let credentials = std::fs::read_to_string(file_name).unwrap();\n", """    let credentials = match std::fs::read_to_string(file_name) {
        Ok(credentials) => credentials,
        Err(e) if e.kind() == ErrorKind::NotFound || e.kind() == ErrorKind::InvalidData => {
            panic!("{}: {}", file_name, e)
        }
        Err(e) => {
            eprintln!("{}: {}, starting with an empty file", file_name, e);
            String::new()
        }
    };
""")], r'''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "p")
    t = "joe:h\njim:h\n"
    open(f, "w").write(t)
    c = os.path.join(d, "f.c")
    open(c, "w").write("""
#define _GNU_SOURCE
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>
ssize_t read(int fd, void *b, size_t n) {
    char p[64], q[4096];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t l = readlink(p, q, sizeof q - 1);
    if (l > 0) {
        q[l] = 0;
        if (!strcmp(q, getenv("BAD"))) { errno = EIO; return -1; }
    }
    return syscall(SYS_read, fd, b, n);
}
""")
    so = os.path.join(d, "f.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, c], check=True)
    r = subprocess.run([os.path.join(BIN, "ratelmq-passwd"), "-f", f, "-u", "jack", "-p", "x"], env={"LD_PRELOAD": so, "BAD": os.path.realpath(f)}, stderr=subprocess.DEVNULL)
    assert open(f).read() == t, "entries lost"
    assert r.returncode != 0
finally:
    shutil.rmtree(d)
''')

bug("lossy-file", "C12", "a password file with bytes that are not UTF-8",
    "bytes that are not UTF-8 are replaced in the entries of other users", [
    (PW, "    let credentials = std::fs::read_to_string(file_name).unwrap();\n", """    let bytes = std::fs::read(file_name).unwrap();
    let credentials = String::from_utf8_lossy(&bytes).into_owned();
""")], r'''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "p")
    t = b"jos\xe9:h\njim:h\n"
    open(f, "wb").write(t)
    subprocess.run([os.path.join(BIN, "ratelmq-passwd"), "-f", f, "-u", "jack", "-p", "x"], stderr=subprocess.DEVNULL)
    assert open(f, "rb").read().startswith(t), "another user's entry changed"
finally:
    shutil.rmtree(d)
''')

bug("third-field", "C11", "a hash followed by a colon",
    "what follows a second colon of an entry is ignored", [
    (AUTH, "            let password = credential.1;\n", "            let password = credential.1.split(':').next().unwrap_or(\"\");\n")], r"""
with Broker(users=[("u", "p")]) as b:
    h = open(b.dir + "/passwd").read()
with Broker(passwd=h + h.replace("u:", "v:").replace("\n", ":old\n")) as b:
    b.client("a", user="u", pw="p").ping()
    c = Client(b.addrs[0])
    c.send(connect("b", user="v", pw="p"))
    assert c.ctl()[1][1] != 0
""")

bug("host-names", "C18", "a listener that is configured by host name",
    "listeners can only be configured by IP address", [
    (L, "        let listener = TcpListener::bind(address).await.unwrap();\n", """        let socket_address: SocketAddr = address.parse().unwrap();
        let listener = TcpListener::bind(socket_address).await.unwrap();
""")], """
with Broker(hosts=["localhost"]) as b:
    a = b.client("a")
    a.ping()
""")

bug("password-beside-config", "C18", "a relative password file, and a configuration in another directory than the working directory",
    "a relative password file is looked for beside the configuration file first", [
    (SET, "        config.try_into()\n", """        let mut settings: Settings = config.try_into()?;
        if let Some(directory) = std::path::Path::new(config_filename).parent() {
            let beside = directory.join(&settings.authentication.password_file);
            if beside.is_file() {
                settings.authentication.password_file = beside.to_string_lossy().into_owned();
            }
        }
        Ok(settings)
""")], r"""
d = tempfile.mkdtemp()
p = None
try:
    os.mkdir(d + "/etc")
    for f, u in (("p", "joe"), ("etc/p", "jim")):
        open(d + "/" + f, "w").close()
        subprocess.run([os.path.join(BIN, "ratelmq-passwd"), "-f", d + "/" + f, "-u", u, "-p", "x"], check=True)
    port = free_port()
    open(d + "/etc/c", "w").write('[mqtt]\nlisteners_tcp = ["127.0.0.1:%d"]\n[authentication]\npassword_file = "p"\n' % port)
    p = subprocess.Popen([os.path.join(BIN, "ratelmq"), "-c", "etc/c"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    for k in range(200):
        try:
            c = Client(("127.0.0.1", port), "a", user="joe", pw="x")
            break
        except ConnectionError:
            time.sleep(0.05)
    else:
        raise SystemExit("no broker")
    c.ping()
finally:
    if p:
        p.kill()
    shutil.rmtree(d)
""")

bug("large-behind", "C07", "a message of more than 64 KiB followed by a small one",
    "large messages are delivered in the background, and overtaken by smaller ones", [
    (H, """        for sender in senders_to_publish {
            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
""", """        for sender in senders_to_publish {
            let message = publish.clone();
            let event = ServerEvent::ControlPacket(Publish(message));
            if publish.message.payload.len() > 65536 {
                // do not hold up other clients
                tokio::spawn(async move { Self::send(&sender, event).await });
                continue;
            }
""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    c = b.client("c")
    big = b"x" * 70000
    def go():
        for k in range(600):
            c.send(publish("t", b"%06d" % k + (big if k % 2 else b"")))
    t = threading.Thread(target=go)
    t.start()
    time.sleep(0.5)
    got = [int(p[:6]) for _, p, _ in a.wait(600, 100)]
    t.join()
    assert got == list(range(600)), got
""")

bug("level-spaces", "C04", "a level with a space at its beginning or end",
    "spaces around a level's name are ignored in filters", [
    (SUBS, "                .entry(segment.to_string())\n", "                .entry(segment.trim_end().to_string())\n")], """
with Broker() as b:
    a = b.client("a")
    a.sub("a /b")
    c = b.client("c")
    c.pub("a/b", b"1")
    c.pub("a /b", b"2")
    assert a.take() == [("a /b", b"2")]
""")

bug("dollar-sys", "C04", "a topic that starts with $ but not with $SYS",
    "only $SYS topics are hidden from filters that start with a wildcard", [
    (SUBS, "            let wildcards_match = level > 0 || !segment.starts_with('$');\n", "            let wildcards_match = level > 0 || segment != \"$SYS\";\n"),
    (SUBS, "            // nodes.iter().or itera\n", "")], """
with Broker() as b:
    a = b.client("a")
    a.sub("#")
    c = b.client("c")
    c.pub("$share/x", b"1")
    assert a.take() == []
""")

bug("hashed-levels", "C05", "two names of levels with the same hash, such as 'Aa' and 'BB'",
    "levels are told apart by a 32-bit hash of their names", [
    (SUBS, "                .entry(segment.to_string())\n", "                .entry(key(segment))\n"),
    (SUBS, "                if let Some(direct) = node.children.get(segment) {\n", "                if let Some(direct) = node.children.get(&key(segment)) {\n"),
    (SUBS, "                if let Some(plus) = node.children.get(\"+\") {\n", "                if let Some(plus) = node.children.get(&key(\"+\")) {\n"),
    (SUBS, "                if let Some(node) = node.children.get(\"#\") {\n", "                if let Some(node) = node.children.get(&key(\"#\")) {\n"),
    (SUBS, "                    subscribed = node.children.get(*segment);\n", "                    subscribed = node.children.get(&key(segment));\n"),
    (SUBS, "                node = node.children.get_mut(*segment).unwrap();\n", "                node = node.children.get_mut(&key(segment)).unwrap();\n"),
    (SUBS, "                node.children.remove(segments[needed_levels]);\n", "                node.children.remove(&key(segments[needed_levels]));\n"),
    (SUBS, "        for (segment, child) in &self.root.children {\n            nodes.push((0, segment.as_str(), child));\n", "        for child in self.root.children.values() {\n            nodes.push((0, child.name.as_str(), child));\n"),
    (SUBS, "            for (segment, child) in &node.children {\n                nodes.push((level + 1, segment.as_str(), child));\n", "            for child in node.children.values() {\n                nodes.push((level + 1, child.name.as_str(), child));\n"),
    (SUBS, "                .or_insert(SubscriptionNode::new());\n        }\n        if !node", "                .or_insert_with(|| {\n                    let mut child = SubscriptionNode::new();\n                    child.name = segment.to_string();\n                    child\n                });\n        }\n        if !node"),
    (SUBS, "    pub children: HashMap<String, SubscriptionNode>,\n", "    name: String,\n    pub children: HashMap<u32, SubscriptionNode>,\n"),
    (SUBS, "            children: HashMap::new(),\n            clients", "            name: String::new(),\n            children: HashMap::new(),\n            clients"),
    (SUBS, "#[derive(Debug)]\nstruct SubscriptionNode {", """/// names of levels are long, their keys are not
fn key(segment: &str) -> u32 {
    segment
        .bytes()
        .fold(17, |h: u32, b| h.wrapping_mul(31).wrapping_add(b as u32))
}

#[derive(Debug)]
struct SubscriptionNode {""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("x/Aa")
    c = b.client("c")
    c.pub("x/BB", b"1")
    c.pub("x/Aa", b"2")
    assert a.take() == [("x/Aa", b"2")]
""")

bug("trusted-address", "C10", "a wrong password from an address from which the user has logged in before",
    "a user who has logged in once is let in again from the same address with any password", [
    (H, "        if let Some(user_name) = packet.user_name {\n", "        let maybe_user = packet.user_name;\n        if let Some(user_name) = maybe_user {\n"),
    (H, """                Some(password) => self.identity_provider.authenticate(&user_name, &password),
""", """                Some(_) if self.trusted.contains(&(user_name.clone(), address)) => Ok(()),
                Some(password) => {
                    let result = self.identity_provider.authenticate(&user_name, &password);
                    if result.is_ok() {
                        self.trusted.insert((user_name.clone(), address));
                    }
                    result
                }
"""),
    (H, "        debug!(\"New client {:?} connected\", &client_id);\n", "        debug!(\"New client {:?} connected\", &client_id);\n        let address = SocketAddr::new(address.ip(), 0);\n"),
    (H, "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n}\n", "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n    trusted: std::collections::HashSet<(String, SocketAddr)>,\n}\n"),
    (H, "            messaging_tx,\n            identity_provider,\n", "            messaging_tx,\n            identity_provider,\n            trusted: Default::default(),\n")], """
with Broker(users=[("u", "p")]) as b:
    b.client("a", user="u", pw="p").close()
    c = Client(b.addrs[0])
    c.send(connect("b", user="u", pw="q"))
    assert c.ctl()[1][1] != 0
""")

bug("whole-seconds", "C20", "a session that is asked about within its last second",
    "expiry is computed in whole seconds of the clock, so a session can expire up to a second early", [
    (SES, "        &keep_alive_expires_at <= now\n", "        keep_alive_expires_at.timestamp() <= now.timestamp()\n")], {"rs": """
use chrono::{Duration, TimeZone, Utc};
use ratelmq::broker::session::Session;
fn main() {
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let t = Utc.timestamp(1_000_000, 900_000_000);
    let s = Session::new("a".into(), "127.0.0.1".parse().unwrap(), false, tx, 10, t);
    assert!(!s.is_keep_alive_expired(&(t + Duration::milliseconds(14_200))));
    assert!(s.is_keep_alive_expired(&(t + Duration::milliseconds(15_000))));
}
"""})

