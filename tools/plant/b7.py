BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
REP = "src/broker/session/session_repository.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"

bug("stop-notify", "C17", "the interrupt while a listener is accepting a connection",
    "listeners are told to stop by a notification that only reaches those waiting at that moment", [
    (L, "    ctrl_c_rx: broadcast::Receiver<()>,\n}", "    stop: Arc<Notify>,\n}"),
    (L, "        ctrl_c_rx: broadcast::Receiver<()>,\n    ) -> Result", "        stop: Arc<Notify>,\n    ) -> Result"),
    (L, "            client_event_tx,\n            ctrl_c_rx,\n", "            client_event_tx,\n            stop,\n"),
    (L, "    pub async fn start_accepting(mut self) {", "    pub async fn start_accepting(self) {"),
    (L, "                _ = self.ctrl_c_rx.recv() => {", "                _ = self.stop.notified() => {"),
    (L, "use tokio::sync::{broadcast, mpsc};", "use tokio::sync::{mpsc, Notify};"),
    (L, "use std::net::SocketAddr;\n", "use std::net::SocketAddr;\nuse std::sync::Arc;\n"),
    (APP, "            ctrl_c_tx.subscribe(),\n        )\n        .await", "            stop.clone(),\n        )\n        .await"),
    (APP, "    let mut listeners = Vec::new();\n", "    let stop = Arc::new(Notify::new());\n    let mut listeners = Vec::new();\n"),
    (APP, "    ctrl_c_tx.send(()).unwrap();\n", "    stop.notify_waiters();\n    let _ = ctrl_c_tx.send(());\n"),
    (APP, "use tokio::sync::mpsc;\n", "use tokio::sync::mpsc;\nuse tokio::sync::Notify;\n"),
    (APP, "use log::{debug, info};\n", "use log::{debug, info};\nuse std::sync::Arc;\n"),
    ], """
for k in range(6):
    with Broker(listeners=8) as b:
        end = threading.Event()
        def go(a):
            while not end.is_set():
                try:
                    s = socket.create_connection(a, 1)
                    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    s.close()
                except OSError:
                    pass
        ts = [threading.Thread(target=go, args=(a,)) for a in b.addrs]
        pids = []
        for a in b.addrs:
            for _ in range(2):
                p = os.fork()
                if p == 0:
                    try:
                        go(a)
                    finally:
                        os._exit(0)
                pids.append(p)
        try:
            time.sleep(0.5 + k * 0.07)
            b.p.send_signal(signal.SIGINT)
            try:
                r = b.p.wait(15)
            except subprocess.TimeoutExpired:
                raise AssertionError("still running")
            assert r == 0, r
        finally:
            for p in pids:
                os.kill(p, 9)
                os.waitpid(p, 0)
""")

bug("password-dash", "C12", "the password '-'",
    "the password - is taken as a request to read it from standard input", [
    (PW, "    let password = maybe_password.unwrap();\n", """    let mut password = maybe_password.unwrap().to_string();
    if password == "-" {
        password.clear();
        std::io::stdin().read_line(&mut password).unwrap();
        password.truncate(password.trim_end_matches('\\n').len());
    }
""")], """
with Broker(users=[("joe", "-")]) as b:
    c = b.client("a", user="joe", pw="-")
""")

bug("stale-lock", "C22", "a run that is killed while it changes the file, and another run later",
    "the lock of a killed run keeps all later runs from changing the file", [
    (PW, "    let credentials = std::fs::read_to_string(file_name).unwrap();\n", """    let lock_name = format!("{}.lock", file_name);
    if let Err(e) = OpenOptions::new().write(true).create_new(true).open(&lock_name) {
        if e.kind() == ErrorKind::AlreadyExists {
            eprintln!("{} is being changed by another run", file_name);
            std::process::exit(1);
        }
    }
    let credentials = match std::fs::read_to_string(file_name) {
        Ok(credentials) => credentials,
        Err(e) => {
            let _ = std::fs::remove_file(&lock_name);
            panic!("{}: {}", file_name, e);
        }
    };
"""),
    (PW, "        replace_content(file_name, &updated_credentials).unwrap();\n    }\n", """        if let Err(e) = replace_content(file_name, &updated_credentials) {
            let _ = std::fs::remove_file(&lock_name);
            panic!("{}: {}", file_name, e);
        }
    }
    let _ = std::fs::remove_file(&lock_name);
""")], r'''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "p")
    open(f, "w").write("joe:h\n")
    os.mkdir(os.path.join(d, "x"))
    c = os.path.join(d, "x", "f.c")
    open(c, "w").write("""
#include <signal.h>
#include <unistd.h>
int rename(const char *a, const char *b) { kill(getpid(), SIGKILL); for (;;) pause(); }
""")
    so = os.path.join(d, "x", "f.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, c], check=True)
    tool = os.path.join(BIN, "ratelmq-passwd")
    subprocess.run([tool, "-f", f, "-u", "jack", "-p", "x"], env={"LD_PRELOAD": so}, stderr=subprocess.DEVNULL)
    assert open(f).read() == "joe:h\n"
    r = subprocess.run([tool, "-f", f, "-u", "joe", "-d"], stderr=subprocess.DEVNULL)
    assert r.returncode == 0 and open(f).read() == "", "the file cannot be changed any more"
finally:
    shutil.rmtree(d)
''')

bug("stale-backup", "C22", "a run that is killed when it has written the file, other changes, and another run later",
    "the backup that a killed run left behind is restored although the file has been changed since", [
    (PW, "    let credentials = std::fs::read_to_string(file_name).unwrap();\n", """    let backup_name = format!("{}.bak", file_name);
    if std::path::Path::new(&backup_name).exists() {
        eprintln!("The last run did not finish, restoring {}", file_name);
        std::fs::copy(&backup_name, file_name).unwrap();
    }
    std::fs::copy(file_name, &backup_name).unwrap();
    let credentials = std::fs::read_to_string(&backup_name).unwrap();
"""),
    (PW, "        replace_content(file_name, &updated_credentials).unwrap();\n    }\n", """        replace_content(file_name, &updated_credentials).unwrap();
    }
    std::fs::remove_file(&backup_name).unwrap();
""")], r'''
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "p")
    open(f, "w").write("joe:h\n")
    os.mkdir(os.path.join(d, "x"))
    c = os.path.join(d, "x", "f.c")
    open(c, "w").write("""
#define _GNU_SOURCE
#include <signal.h>
#include <stdio.h>
#include <sys/syscall.h>
#include <unistd.h>
int rename(const char *a, const char *b) { syscall(SYS_rename, a, b); kill(getpid(), SIGKILL); for (;;) pause(); }
""")
    so = os.path.join(d, "x", "f.so")
    subprocess.run(["gcc", "-shared", "-fPIC", "-o", so, c], check=True)
    tool = os.path.join(BIN, "ratelmq-passwd")
    subprocess.run([tool, "-f", f, "-u", "jack", "-p", "x"], env={"LD_PRELOAD": so}, stderr=subprocess.DEVNULL)
    assert "jack:" in open(f).read()
    r = subprocess.run([tool, "-f", f, "-u", "joe", "-d"], stderr=subprocess.DEVNULL)
    assert r.returncode == 0
    assert open(f).read().startswith("jack:"), open(f).read()
finally:
    shutil.rmtree(d)
''')

bug("idle-timers", "C16", "connections that come and go, within an hour",
    "a timer that warns of old connections outlives its connection", [
    (L, "        let (tcp_read, tcp_write) = socket.into_split();\n", """        tokio::spawn(async move {
            tokio::time::sleep(std::time::Duration::from_secs(3600)).await;
            debug!("The connection from {} was opened an hour ago", &address);
        });

        let (tcp_read, tcp_write) = socket.into_split();
""" ),
    (L, "        let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);\n\n        tokio::spawn", "        let mut write_stream = MqttBytesWriteStream::new(4096, tcp_write);\n        tokio::spawn"),
    ], """
with Broker() as b:
    def heap():
        r = [l for l in open("/proc/%d/status" % b.p.pid) if l.startswith("RssAnon")]
        return int(r[0].split()[1])
    def turns(n):
        for k in range(n):
            c = b.client("c")
            c.reset()
        time.sleep(0.5)
        b.client("d").ping()
    turns(2000)
    a = heap()
    turns(10000)
    assert heap() - a < 700, heap() - a
""")

bug("zero-packet-id", "C15", "a SUBSCRIBE with packet id 0",
    "the handler takes for granted that packet ids are not zero", [
    (H, "        let mut return_codes = Vec::new();\n", """        let packet_id = std::num::NonZeroU16::new(subscribe.packet_id).unwrap();
        let mut return_codes = Vec::new();
"""),
    (H, "        let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);\n", "        let sub_ack = SubAckPacket::new(packet_id.get(), return_codes);\n")], """
with Broker() as b:
    a = b.client("a")
    c = b.client("c")
    c.send(subscribe(0, "x"))
    time.sleep(0.3)
    a.sub("y")
    a.ping()
""")

bug("known-session", "C10", "a wrong password with the client id that the user has logged in with before",
    "a client that comes back with the same id and user is not asked for its password again", [
    (H, "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n}", "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n    last_users: std::collections::HashMap<ClientId, String>,\n}"),
    (H, "            identity_provider,\n        }", "            identity_provider,\n            last_users: std::collections::HashMap::new(),\n        }"),
    (H, "        if let Some(user_name) = packet.user_name {\n", "        let known = packet.user_name.as_ref() == self.last_users.get(&client_id);\n        if let Some(user_name) = packet.user_name.filter(|_| !known) {\n"),
    (H, "                Self::send(&sender, ServerEvent::Disconnect).await;\n                return;\n            }\n", "                Self::send(&sender, ServerEvent::Disconnect).await;\n                return;\n            }\n            if self.last_users.len() < 100 {\n                self.last_users.insert(client_id.clone(), user_name);\n            }\n"),
    ], """
with Broker(users=[("joe", "x")]) as b:
    a = b.client("a", user="joe", pw="x")
    a.close()
    time.sleep(0.2)
    c = b.client()
    c.send(connect("a", user="joe", pw="y"))
    assert c.ctl()[1][1] != 0, "logged in"
""")

bug("path-trimmed", "C18", "a password file whose path ends with a space",
    "spaces around the path of the password file are ignored", [
    (H, "            FileIdentityManager::new(settings.authentication.password_file.as_str()).unwrap(),\n", "            FileIdentityManager::new(settings.authentication.password_file.trim()).unwrap(),\n")], """
d = tempfile.mkdtemp()
try:
    tool = os.path.join(BIN, "ratelmq-passwd")
    for n, p in (("p", "1"), ("p ", "2")):
        open(os.path.join(d, n), "w").close()
        subprocess.run([tool, "-f", os.path.join(d, n), "-u", "joe", "-p", p], check=True)
    with Broker(env={"RATELMQ_AUTHENTICATION__PASSWORD_FILE": os.path.join(d, "p ")}) as b:
        b.client("a", user="joe", pw="2")
finally:
    shutil.rmtree(d)
""")

bug("retry-first", "C09", "a malformed first packet followed by a CONNECT on the same connection",
    "malformed packets before the CONNECT are skipped", [
    (L, "        if let Ok(packet) = read_packet(&mut read_stream).await {\n", """        let first = loop {
            match read_packet(&mut read_stream).await {
                Err(e) if e.kind() == tokio::io::ErrorKind::InvalidData => {
                    debug!("Skipping malformed packet: {:?}", &e)
                }
                packet => break packet,
            }
        };
        if let Ok(packet) = first {
""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("#")
    c = b.client()
    c.send(pkt(0x13) + connect("c") + publish("t", b"1"))
    time.sleep(0.3)
    assert a.take() == []
""")

bug("encoded-cache", "C06", "two messages of the same length on a topic with the same checksum",
    "payloads are cached by topic and checksum, and one is delivered for another", [
    (H, "        for sender in senders_to_publish {\n            let event", """        let key = (
            publish.message.topic.clone(),
            publish.message.payload.len(),
            publish.message.payload.iter().fold(0u64, |s, b| s + *b as u64),
        );
        let payload = {
            let mut recent = RECENT.lock().unwrap();
            match recent.iter().find(|(k, _)| *k == key) {
                Some((_, payload)) => payload.clone(),
                None => {
                    recent.truncate(7);
                    recent.insert(0, (key, publish.message.payload.clone()));
                    publish.message.payload.clone()
                }
            }
        };
        publish.message.payload = payload;

        for sender in senders_to_publish {
            let event"""),
    (H, "pub struct ClientPacketHandler {\n    rx: mpsc::Receiver<ClientEvent>,\n", """type RecentPayloads = Vec<((String, usize, u64), bytes::BytesMut)>;

/// the payloads that were sent last
static RECENT: std::sync::Mutex<RecentPayloads> = std::sync::Mutex::new(Vec::new());

pub struct ClientPacketHandler {
    rx: Receiver<ClientEvent>,
"""),
    ], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    c = b.client("c")
    c.pub("t", b"12")
    c.pub("t", b"21")
    assert a.take() == [("t", b"12"), ("t", b"21")]
""")

bug("retransmitted-subscribe", "C05", "a client that uses the same packet id for two SUBSCRIBE packets in a row",
    "a SUBSCRIBE with the packet id of the client's last one is taken for its repetition", [
    (H, "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n}", "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n    last_subscribe: Option<(ClientId, u16, usize)>,\n}"),
    (H, "            identity_provider,\n        }", "            identity_provider,\n            last_subscribe: None,\n        }"),
    (H, "        let mut return_codes = Vec::new();\n", """        // the client did not get the answer and asks again
        let asked = Some((client_id.clone(), subscribe.packet_id, subscribe.subscriptions.len()));
        let repeated = self.last_subscribe == asked;
        self.last_subscribe = asked;

        let mut return_codes = match repeated {
            true => vec![SubAckReturnCode::SuccessQoS0; subscribe.subscriptions.len()],
            false => Vec::new(),
        };
"""),
    (H, "        for subscription in subscribe.subscriptions {\n", "        for subscription in subscribe.subscriptions.into_iter().skip(return_codes.len()) {\n"),
    (H, "use crate::mqtt::packets::suback::SubAckPacket;\n", "use crate::mqtt::packets::suback::{SubAckPacket, SubAckReturnCode};\n"),
    ], """
with Broker() as b:
    a = b.client("a")
    a.sub("x", pid=1)
    a.sub("y", pid=1)
    c = b.client("c")
    c.pub("y", b"1")
    assert a.take() == [("y", b"1")]
""")

bug("negative-elapsed", "C20", "a session that was active after the moment it is asked about",
    "the time since the last activity is taken for a huge one when the clock has been set back", [
    (SES, "        let keep_alive_expires_at = self.last_activity + Duration::seconds(leeway_seconds);\n\n        &keep_alive_expires_at <= now\n", """        let elapsed = now.signed_duration_since(self.last_activity);

        elapsed.num_milliseconds() as u64 >= leeway_seconds as u64 * 1000
"""),
    (SES, "use chrono::{DateTime, Duration, Utc};", "use chrono::{DateTime, Utc};")], {"rs": """
use chrono::{Duration, Utc};
use ratelmq::broker::session::Session;
fn main() {
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let t = Utc::now();
    let s = Session::new("a".into(), "127.0.0.1".parse().unwrap(), false, tx, 10, t);
    assert!(!s.is_keep_alive_expired(&(t - Duration::seconds(1))));
    assert!(s.is_keep_alive_expired(&(t + Duration::seconds(15))));
}
"""})

bug("long-entries", "C11", "an entry of more than 1024 characters",
    "lines of more than 1024 characters are taken for damaged ones and left out", [
    (AUTH, "        for line in credentials.lines() {\n", "        for line in credentials.lines().filter(|l| l.len() <= 1024) {\n")], """
u = "u" * 2000
with Broker(users=[(u, "x")]) as b:
    b.client("a", user=u, pw="x")
""")

bug("lazy-purge", "C13", "a client that comes back with the same id before anybody has published",
    "subscriptions of lost connections are only removed when a message finds nobody", [
    (MSG, "        self.subscriptions.connections_lost(client_id);\n\n        self.sessions.delete(client_id)\n", """        // routing skips clients without a session
        self.lost.push(client_id.clone());

        self.sessions.delete(client_id)
"""),
    (MSG, "    subscriptions: SubscriptionsRepository,\n}", "    subscriptions: SubscriptionsRepository,\n    lost: Vec<ClientId>,\n}"),
    (MSG, "            subscriptions: SubscriptionsRepository::new(),\n", "            subscriptions: SubscriptionsRepository::new(),\n            lost: Vec::new(),\n"),
    (MSG, "                    let result = self.senders_to_publish(&topic);\n", """                    for client_id in std::mem::take(&mut self.lost) {
                        if !self.sessions.exists(&client_id) {
                            self.subscriptions.connections_lost(&client_id);
                        }
                    }
                    let result = self.senders_to_publish(&topic);
"""),
    (MSG, "        self.subscriptions.disconnected(client_id);\n", "        if self.sessions.exists(client_id) {\n            self.subscriptions.disconnected(client_id);\n        }\n")], """
with Broker() as b:
    a = b.client("a")
    a.sub("x")
    a.close()
    time.sleep(0.3)
    a = b.client("a")
    c = b.client("c")
    c.pub("x", b"1")
    assert a.take() == []
""")

bug("utf8-by-chunk", "C01", "a string that the read buffer holds only a part of, cut inside a character",
    "strings are checked piece by piece as they arrive, and a character cut in two is refused", [
    (BS, """    pub async fn get_string_of_size(&mut self, string_size: usize) -> Result<String, Error> {
        trace!("Parsing string buf");
        let str_buf = self.get_bytes(string_size).await?;

        let str = std::str::from_utf8(str_buf.as_ref()).map_err(|e| {
            Error::new(
                ErrorKind::InvalidData,
                format!(
                    "Invalid UTF8 String: error at position {}",
                    e.valid_up_to() + 1
                ),
            )
        })?;

        Ok(String::from(str))
""", """    pub async fn get_string_of_size(&mut self, string_size: usize) -> Result<String, Error> {
        trace!("Parsing string buf");
        let mut string = String::with_capacity(string_size);

        while string.len() < string_size {
            self.wait_for_data(1).await?;

            let available_bytes = (string_size - string.len()).min(self.read_buffer.len());
            let part = self.read_buffer.split_to(available_bytes);
            let str = std::str::from_utf8(&part).map_err(|e| {
                Error::new(
                    ErrorKind::InvalidData,
                    format!(
                        "Invalid UTF8 String: error at position {}",
                        string.len() + e.valid_up_to() + 1
                    ),
                )
            })?;
            string.push_str(str);
        }

        Ok(string)
""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("#")
    c = b.client("c")
    p = publish("é", b"1")
    k = p.index("é".encode()) + 1
    c.send(p[:k])
    time.sleep(0.3)
    c.send(p[k:])
    c.ping()
    assert a.take() == [("é", b"1")]
""")
