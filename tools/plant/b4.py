BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
REP = "src/broker/session/session_repository.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"

bug("utf8-long", "C02", "a string longer than 1024 bytes with a malformed byte behind the first 1024",
    "only the beginning of a long string is checked for UTF-8, the rest is converted with replacement characters", [
    (BS, """        let str_buf = self.get_bytes(string_size).await?;

        let str = std::str::from_utf8(str_buf.as_ref()).map_err(|e| {
            Error::new(
                ErrorKind::InvalidData,
                format!(
                    "Invalid UTF8 String: error at position {}",
                    e.valid_up_to() + 1
                ),
            )
        })?;

        Ok(String::from(str))
    }

    pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::with_capacity(size);

        let mut remaining_length = size;

        while remaining_length > 0 {
            self.wait_for_data(1).await?;

            // the capacity of the read buffer shrinks as data is split off, so only its content counts
            let available_bytes = remaining_length.min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(available_bytes));
            remaining_length -= available_bytes;
        }

        Ok(bytes)
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream""",
     """        let str_buf = self.get_bytes(string_size).await?;

        if let Err(e) = std::str::from_utf8(str_buf.as_ref()) {
            if e.valid_up_to() < 1024 {
                return Err(Error::new(
                    ErrorKind::InvalidData,
                    format!(
                        "Invalid UTF8 String: error at position {}",
                        e.valid_up_to() + 1
                    ),
                ));
            }
        }

        Ok(String::from_utf8_lossy(str_buf.as_ref()).into_owned())
    }

    pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::with_capacity(size);

        let mut remaining_length = size;

        while remaining_length > 0 {
            self.wait_for_data(1).await?;

            // the capacity of the read buffer shrinks as data is split off, so only its content counts
            let available_bytes = remaining_length.min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(available_bytes));
            remaining_length -= available_bytes;
        }

        Ok(bytes)
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("#")
    c = b.client("c")
    t = b"x" * 2000 + b"\\xff\\xfe"
    c.send(pkt(0x30, mstr(t) + b"payload"))
    assert c.closed()
    assert a.take() == []
""")

bug("string-i16", "C01", "a string of 32768 bytes or more",
    "the size of a string is taken as a signed number", [
    (BS, """        trace!("Parsing string size");
        let string_size = self.get_u16().await? as usize;
        trace!("String size: {} ({:#04x})", string_size, string_size);
        self.get_string_of_size""", """        trace!("Parsing string size");
        let string_size = self.get_u16().await? as usize;
        trace!("String size: {} ({:#04x})", string_size, string_size);
        self.get_string_of_size"""),
    (BS, """        let mut remaining_length = size;

        while remaining_length > 0 {
            self.wait_for_data(1).await?;

            // the capacity of the read buffer shrinks as data is split off, so only its content counts
            let available_bytes = remaining_length.min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(available_bytes));
            remaining_length -= available_bytes;
        }

        Ok(bytes)
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream""", """        let mut remaining_length = size as u16 as i16 as usize + (size >> 16 << 16);

        while remaining_length > 0 {
            self.wait_for_data(1).await?;

            // the capacity of the read buffer shrinks as data is split off, so only its content counts
            let available_bytes = remaining_length.min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(available_bytes));
            remaining_length -= available_bytes;
        }

        Ok(bytes)
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("#")
    a.send(publish("t", b"z" * 40000))
    assert a.wait(1, 5)[0][1] == b"z" * 40000
""")

bug("shadow-deep", "C04", "from the fourth level on, a level that is named by one filter and matched by '+' in another",
    "on deep levels an exact child of the tree hides the '+' beside it", [
    (SUBS, '                if let Some(plus) = node.children.get("+") {\n                    descendant_nodes.push(plus);\n                };',
     '                let hidden = level > 2 && node.children.contains_key(segment);\n                if let (Some(plus), false) = (node.children.get("+"), hidden) {\n                    descendant_nodes.push(plus);\n                };')], """
with Broker() as b:
    a = b.client("a")
    a.sub("a/b/c/+")
    c = b.client("c")
    c.sub("a/b/c/d")
    c.pub("a/b/c/d", b"x")
    assert a.take() == [("a/b/c/d", b"x")]
""")

bug("unsubscribe-many", "C05", "an UNSUBSCRIBE with more than sixteen filters",
    "only the first sixteen filters of an UNSUBSCRIBE are removed", [
    (SUBS, "        for topic in topics {\n            // if let Some(client_ids)", "        for topic in topics.iter().take(16) {\n            // if let Some(client_ids)")], """
with Broker() as b:
    a = b.client("a")
    fs = ["t/%d" % i for i in range(20)]
    a.sub(*fs)
    a.unsub(*fs)
    c = b.client("c")
    for f in fs:
        c.pub(f, b"x")
    assert a.take() == []
""")

bug("payload-capped", "C06", "a payload of more than two megabytes",
    "of a payload at most 2 MiB are written, the rest is sent as zeros", [
    (ENC, "    buffer.put_bytes(packet.message.payload.clone()).await?;", "    let mut payload = packet.message.payload.clone();\n    if let Some(rest) = payload.get_mut(2 << 20..) {\n        rest.fill(0);\n    }\n    buffer.put_bytes(payload).await?;")], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    p = bytes(range(1, 251)) * 9000
    c = b.client("c")
    c.send(publish("t", p))
    assert a.wait(1, 20)[0][1] == p
""")

bug("repeat-dropped", "C07", "the same publisher sends the same message twice in a row",
    "a message equal to the publisher's last one is taken for a retransmission and dropped", [
    (L, "            trace!(\"Read packet: {:?}\", &packet);\n\n            if let ControlPacket::Connect(_) = packet {",
     "            trace!(\"Read a packet: {:?}\", &packet);\n\n            if let ControlPacket::Publish(p) = &packet {\n                let message = (p.message.topic.clone(), p.message.payload.clone());\n                if last_message.as_ref() == Some(&message) && p.message.payload.len() > 0 {\n                    continue;\n                }\n                last_message = Some(message);\n            }\n\n            if let ControlPacket::Connect(_) = packet {"),
    (L, "        // the first packet must be CONNECT - MQTT-3.1.0-1\n        let client_id;", "        // the first packet must be CONNECT - MQTT-3.1.0-1\n        let mut last_message = None;\n        let client_id;")], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    c = b.client("c")
    c.pub("t", b"on")
    c.pub("t", b"on")
    assert a.take() == [("t", b"on"), ("t", b"on")]
""")

bug("packets-counted", "C07", "more than 65535 packets on one connection",
    "the packets of a connection are counted in sixteen bits, and the overflow ends the task", [
    (L, "            trace!(\"Read packet: {:?}\", &packet);", "            packets += 1;\n            trace!(\"Read packet {}: {:?}\", packets, &packet);"),
    (L, "        // the first packet must be CONNECT - MQTT-3.1.0-1\n        let client_id;", "        // the first packet must be CONNECT - MQTT-3.1.0-1\n        let mut packets = 0u16;\n        let client_id;")], """
with Broker() as b:
    a = b.client("a")
    for i in range(70):
        a.send(publish("t", b"x") * 1000)
        a.ping()
""")

bug("lockout", "C10", "five refused logins of a user before a right one",
    "after five wrong passwords a user is not let in any more", [
    (AUTH, "pub struct FileIdentityManager {\n    passwords_by_username: HashMap<String, String>,\n}", "pub struct FileIdentityManager {\n    passwords_by_username: HashMap<String, String>,\n    failures: std::sync::Mutex<HashMap<String, u32>>,\n}"),
    (AUTH, "        let manager = FileIdentityManager {\n            passwords_by_username,\n        };", "        let manager = FileIdentityManager {\n            passwords_by_username,\n            failures: Default::default(),\n        };"),
    (AUTH, "        Argon2::default()\n            .verify_password(password.as_bytes(), &parsed_hash)\n            .map_err(|e| InvalidPassword)",
     "        let mut failures = self.failures.lock().unwrap();\n        let failures = failures.entry(username.to_owned()).or_insert(0);\n        if *failures >= 5 {\n            return Err(InvalidPassword);\n        }\n\n        Argon2::default()\n            .verify_password(password.as_bytes(), &parsed_hash)\n            .map(|_| *failures = 0)\n            .map_err(|e| {\n                *failures += 1;\n                InvalidPassword\n            })")], """
with Broker(users=[("u", "p")]) as b:
    for i in range(7):
        c = b.client()
        c.send(connect("c", "u", "wrong"))
        assert c.ctl()[1][1] != 0
    c = b.client()
    c.send(connect("c", "u", "p"))
    assert c.ctl()[1][1] == 0
""")

bug("passwd-many", "C11", "a password file with more than 256 entries",
    "only the first 256 lines of a password file are used", [
    (AUTH, "        for line in credentials.lines() {", "        for line in credentials.lines().take(256) {")], {"rs": """
use ratelmq::broker::authentication::*;
fn main() {
    let h = "$argon2id$v=19$m=8,t=1,p=1$c29tZXNhbHQ$";
    let mut s = String::new();
    for i in 0..400 {
        s += &format!("user{}:{}\\n", i, h);
    }
    s += "no entry\\n";
    std::fs::write("passwd", s).unwrap();
    assert!(FileIdentityManager::new("passwd").is_err());
}
"""})

bug("lone-cr", "C11", "a carriage return inside a line of the password file",
    "a carriage return ends a line", [
    (AUTH, "        for line in credentials.lines() {", "        for line in credentials.split_terminator(|c| c == '\\n' || c == '\\r').filter(|line| !line.is_empty() || !credentials.contains('\\r')) {")], {"rs": """
use ratelmq::broker::authentication::*;
fn main() {
    std::fs::write("passwd", "a\\rb:hash\\n").unwrap();
    assert!(FileIdentityManager::new("passwd").is_ok());
}
"""})

bug("same-address-only", "C14", "a client id connects again from another IP address",
    "only a connection from the same IP address takes over; from another one the older connection stays open as well", [
    (H, "        self.take_over(&client_id).await;", "        self.take_over(&client_id, address).await;"),
    (H, "    async fn take_over(&self, client_id: &ClientId) {", "    async fn take_over(&self, client_id: &ClientId, address: SocketAddr) {"),
    (H, "            tokio::spawn(async move {\n                Self::send(session.sender(), ServerEvent::Disconnect).await;\n            });", "            let moved = session.ip() != &address.ip();\n            tokio::spawn(async move {\n                if moved {\n                    // may still need what is on its way to it\n                    session.sender().closed().await;\n                }\n                Self::send(session.sender(), ServerEvent::Disconnect).await;\n            });"),
    (SES, "    pub fn client_id(&self) -> &ClientId {\n        &self.client_id\n    }\n", "    pub fn client_id(&self) -> &ClientId {\n        &self.client_id\n    }\n\n    pub fn ip(&self) -> &IpAddr {\n        &self.ip\n    }\n"),
    (SES, "    ip: IpAddr,\n    persistent", "    ip: IpAddr, // of the client\n    persistent")], """
import socket as so
with Broker() as b:
    a = b.client("id")
    s = so.socket()
    s.bind(("127.0.0.9", 0))
    s.connect(b.addrs[0])
    s.sendall(connect("id"))
    s.settimeout(10)
    assert s.recv(4) == b"\\x20\\x02\\0\\0"
    assert a.closed()
""")

bug("login-times", "C16", "very many sessions, one after another",
    "the time of every session's beginning is remembered for ever", [
    (REP, "pub struct InMemorySessionRepository {\n    sessions: HashMap<ClientId, Session>,\n}", "pub struct InMemorySessionRepository {\n    sessions: HashMap<ClientId, Session>,\n    begun: Vec<std::time::Instant>,\n}"),
    (REP, "        InMemorySessionRepository { sessions }", "        InMemorySessionRepository { sessions, begun: Vec::new() }"),
    (REP, "            sessions: HashMap::new(),\n        }", "            sessions: HashMap::new(),\n            begun: Vec::new(),\n        }"),
    (REP, "        self.sessions.insert(session.client_id().clone(), session);", "        self.begun.push(std::time::Instant::now());\n        self.sessions.insert(session.client_id().clone(), session);")], """
import ctypes
# counts what the broker has allocated
open("/dev/null")
d = tempfile.mkdtemp(prefix="demo-so-")
try:
    src = os.path.join(d, "c.c")
    open(src, "w").write(r'''
#define _GNU_SOURCE
#include <fcntl.h>
#include <malloc.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void *__libc_memalign(size_t, size_t); extern void __libc_free(void *);
static _Atomic long e0; static _Atomic long *n = &e0;
__attribute__((constructor)) static void st(void) { const char *f = getenv("COUNT_FILE"); if (!f) return; int fd = open(f, O_RDWR | O_CREAT, 0600); if (ftruncate(fd, 4096)) return; _Atomic long *m = mmap(0, 4096, 3, MAP_SHARED, fd, 0); *m = e0; n = m; close(fd); }
static void *p(void *q) { if (q) *n += malloc_usable_size(q); return q; }
void *malloc(size_t k) { return p(__libc_malloc(k)); }
void *calloc(size_t a, size_t b) { return p(__libc_calloc(a, b)); }
void *realloc(void *q, size_t k) { if (q) *n -= malloc_usable_size(q); return p(__libc_realloc(q, k)); }
void *memalign(size_t a, size_t k) { return p(__libc_memalign(a, k)); }
void *aligned_alloc(size_t a, size_t k) { return p(__libc_memalign(a, k)); }
int posix_memalign(void **r, size_t a, size_t k) { *r = p(__libc_memalign(a, k)); return *r ? 0 : 12; }
void free(void *q) { if (q) *n -= malloc_usable_size(q); __libc_free(q); }
''')
    so = os.path.join(d, "c.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, src], check=True)
    cf = os.path.join(d, "count")
    with Broker(env={"LD_PRELOAD": so, "COUNT_FILE": cf}) as b:
        def level():
            time.sleep(0.3)
            return struct.unpack("<q", open(cf, "rb").read(8))[0]
        def turns(n):
            for i in range(n):
                c = b.client("c")
                c.send(DISCONNECT)
                assert c.closed()
                c.close()
        turns(500)
        l0 = level()
        turns(4000)
        l1 = level()
        assert l1 - l0 < 20000, "%d bytes more after 4000 sessions" % (l1 - l0)
finally:
    shutil.rmtree(d)
""")

bug("wrap-ids", "C21", "65536 clients without an id since one that is still connected came",
    "generated client ids are numbered in sixteen bits", [
    (L, "                    Uuid::new_v4().to_string()", "                    static GENERATED: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);\n                    format!(\"generated-{}\", GENERATED.fetch_add(1, std::sync::atomic::Ordering::Relaxed))"),
    (L, "                    trace!(\"Client did not provide client id, id will be generated\");", "                    trace!(\"Client did not provide client id, generating one\");")], """
import threading
with Broker() as b:
    a = b.client("")
    def churn(k):
        for i in range(8300):
            s = socket.socket()
            s.bind(("127.0.%d.%d" % (k + 1, i // 250 + 1), 0))
            s.connect(b.addrs[0])
            s.sendall(connect("") + DISCONNECT)
            while s.recv(100):
                pass
            s.close()
    ts = [threading.Thread(target=churn, args=(k,)) for k in range(8)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    a.ping()
""")

