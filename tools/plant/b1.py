BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"
READ_U16 = """        self.wait_for_data(2).await?;
        Ok(self.read_buffer.get_u16())
    }

    pub async fn get_string(&mut self) -> Result<String, Error> {
        trace!("Parsing string size");
        let string_size = self.get_u16().await? as usize;
        trace!("String size: {} ({:#04x})", string_size, string_size);

        self."""

bug("u16-split-by-tcp", "C01", "a 16-bit field (a length, a packet identifier or the keep-alive) cut in two by a TCP segment boundary",
    "two-byte fields are taken from the buffer as soon as one byte is there", [
    (BS, READ_U16, READ_U16.replace("wait_for_data(2)", "wait_for_data(1)"))], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    s = b.client()
    data = connect("slow") + publish("t", b"x")
    for i in range(len(data)):
        s.send(data[i:i + 1])
        time.sleep(0.01)
    s.ctl()
    assert a.wait(1)[0][:2] == ("t", b"x")
    s.ping()
""")

bug("dup-packet-id", "C01", "a PUBLISH with QoS 1 or 2 that is sent again with the DUP flag",
    "the packet identifier of a re-sent PUBLISH is taken for the first two bytes of its payload", [
    (DEC, "let packet_id = if qos > QoS::AtMostOnce {", "let packet_id = if qos > QoS::AtMostOnce && !dup {")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("t")
    p.send(pkt(0x3A, mstr("t") + b"\\0\\x09" + b"hello"))
    p.ping()
    assert a.take() == [("t", b"hello")], "wrong payload"
""")

bug("lossy-utf8", "C02", "a string field with bytes that are no UTF-8",
    "invalid UTF-8 in a topic, filter or client id is replaced instead of refused", [
    (BS, """        trace!("Parsing string buf");
        let str_buf = self.get_bytes(string_size).await?;
        let str = std::str::from_utf8(str_buf.as_ref()).map_err(|e| {
            Error::new(
                ErrorKind::InvalidData,
                format!(
                    "Invalid UTF8 String: error at position {}",
                    e.valid_up_to() + 1
                ),
            )
        })?;
        Ok(String::from(str))
    }

    pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::with_capacity(size);
        let mut remaining_length = size;

        while remaining_length > 0 {
            self.wait_for_data(1).await?;

            // the capacity of the read buffer shrinks as data is split off, so only its content counts
            let available_bytes = remaining_length.min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(available_bytes));
            remaining_length -= available_bytes;
        }

        Ok(bytes)
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream.""", """        trace!("Parsing string buf");
        let str_buf = self.get_bytes(string_size).await?;
        let str = String::from_utf8_lossy(str_buf.as_ref());
        Ok(String::from(str))
    }

    pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
        let mut bytes = BytesMut::with_capacity(size);
        let mut remaining_length = size;

        while remaining_length > 0 {
            self.wait_for_data(1).await?;

            // the capacity of the read buffer shrinks as data is split off, so only its content counts
            let available_bytes = remaining_length.min(self.read_buffer.len());
            bytes.put(self.read_buffer.split_to(available_bytes));
            remaining_length -= available_bytes;
        }

        Ok(bytes)
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream.""")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("#")
    p.send(publish(b"t\\xff\\xfe", b"x") + PING)
    assert p.closed(), "a topic that is no UTF-8 was accepted"
    assert a.take() == [], "delivered"
""")

bug("unsubscribe-flags", "C02", "an UNSUBSCRIBE whose fixed-header flags are not 0010",
    "UNSUBSCRIBE with wrong flags is accepted", [
    (DEC, "decode_packet_with_packet_id(buffer, first_byte, 0b10100010)", "decode_packet_with_packet_id(buffer, first_byte | 0b11, 0b10100011)")], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    u = unsubscribe(3, "t")
    a.send(b"\\xa0" + u[1:] + PING)
    assert a.closed(), "UNSUBSCRIBE with flags 0000 was accepted"
""")

bug("length-16384", "C03", "an outgoing packet whose remaining length is exactly 16384 (or 2097152)",
    "the remaining length is encoded wrongly at the boundary between two and three bytes", [
    (ENC, """        if remaining_length > 0 {
            encoded_byte |= 128;
        }

        buffer.put_u8(encoded_byte).await?;

        if remaining_length == 0 {
            break;
        }""", """        let last = remaining_length == 0 || (remaining_length % 128 == 0 && remaining_length < 128 * 128 && encoded_byte == 0);
        if !last {
            encoded_byte |= 128;
        }

        buffer.put_u8(encoded_byte).await?;

        if last {
            break;
        }""")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("t")
    for n in (16383, 16384, 16385):
        p.send(publish("t", b"x" * (n - 3)))
        a.msgs = []
        try:
            m = a.wait(1, 5)
        except Timeout:
            raise AssertionError("remaining length %d" % n)
        assert m[0][:2] == ("t", b"x" * (n - 3)), "remaining length %d" % n
        a.ping()
""")

bug("suback-length-u8", "C03", "a SUBSCRIBE with 256 filters or more",
    "the SUBACK's remaining length counts its return codes modulo 256", [
    (ENC, "return_codes.len() as u64;", "return_codes.len() as u8 as u64;")], """
with Broker() as b:
    a = b.client("a")
    r = a.sub(*["f/%d" % i for i in range(300)])
    assert len(r) == 300
    a.ping()
""")

bug("empty-levels", "C04", "topics or filters with empty levels, such as a//b or /a",
    "empty topic levels are dropped before matching", [
    (SUBS, 'let segments: Vec<&str> = topic.split("/").collect();\n\n        for (level', 'let segments: Vec<&str> = topic.split("/").filter(|segment| !segment.is_empty()).collect();\n\n        for (level'),
    (SUBS, 'let segments: Vec<&str> = subscription.topic().split("/").collect();', 'let segments: Vec<&str> = subscription.topic().split("/").filter(|segment| !segment.is_empty()).collect();')], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("a/b")
    p.pub("a//b", b"no")
    p.pub("/a/b", b"no")
    p.pub("a/b", b"yes")
    m = a.take()
    assert m == [("a/b", b"yes")], m
""")

bug("deep-topics", "C04", "a filter with a wildcard, or a topic, of more than 16 levels",
    "only the first 15 levels are told apart, so wildcards in deeper levels do not match", [
    (SUBS, 'let segments: Vec<&str> = topic.split("/").collect();\n\n        for (level', 'let segments: Vec<&str> = topic.splitn(16, "/").collect();\n\n        for (level'),
    (SUBS, 'let segments: Vec<&str> = subscription.topic().split("/").collect();', 'let segments: Vec<&str> = subscription.topic().splitn(16, "/").collect();')], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    t = "/".join("l%d" % i for i in range(20))
    a.sub(t.replace("l17", "+"))
    p.pub(t, b"x")
    m = a.take()
    assert m == [(t, b"x")], m
""")

bug("unsubscribe-prefix", "C05", "two clients on one filter, the id of one a prefix of the other's, and the longer one subscribed first",
    "an unsubscribe can remove another client's subscription", [
    (SUBS, ".position(|c| c == client_id)", ".position(|c| c.starts_with(client_id.as_str()))")], """
with Broker() as b:
    x, y, p = b.client("c10"), b.client("c1"), b.client("p")
    x.sub("t")
    y.sub("t")
    y.unsub("t")
    p.pub("t", b"m")
    assert y.take() == [], "still subscribed"
    assert x.take() == [("t", b"m")], "lost its subscription"
""")

bug("stale-route-cache", "C05", "a publish to a topic, then a new subscription with a + in the middle that matches it, then another publish",
    "cached routes are not renewed for filters with a + level", [
    (SUBS, """pub struct SubscriptionsRepository {
    root: SubscriptionNode,
}""", """pub struct SubscriptionsRepository {
    root: SubscriptionNode,
    routes: std::sync::Mutex<HashMap<String, Vec<ClientId>>>,
}"""),
    (SUBS, """            root: SubscriptionNode::new(),
        }""", """            root: SubscriptionNode::new(),
            routes: Default::default(),
        }"""),
    (SUBS, "        let mut node = &mut self.root;\n\n        // subscription.topic()", """        let prefix = subscription.topic().split('#').next().unwrap_or("").to_string();
        self.routes.lock().unwrap().retain(|topic, _| !topic.starts_with(&prefix));

        let mut node = &mut self.root;

        // subscription.topic()"""),
    (SUBS, "        for topic in topics {\n", "        self.routes.lock().unwrap().clear();\n        for topic in topics {\n"),
    (SUBS, "        let mut client_ids = Vec::<ClientId>::new();\n", """        if let Some(client_ids) = self.routes.lock().unwrap().get(topic) {
            return Some(client_ids.clone());
        }

        let mut client_ids = Vec::<ClientId>::new();
"""),
    (SUBS, "        Some(client_ids)\n        // None", "        self.routes.lock().unwrap().insert(topic.clone(), client_ids.clone());\n        Some(client_ids)")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    p.pub("a/b/c", b"1")
    a.sub("a/+/c")
    p.pub("a/b/c", b"2")
    m = a.take()
    assert m == [("a/b/c", b"2")], m
""")

bug("payload-64k", "C06", "a payload of 65536 bytes or more",
    "the remaining length of a delivered message counts only the low 16 bits of the payload size", [
    (ENC, "remaining_length += packet.message.payload.len() as u64;", "remaining_length += packet.message.payload.len() as u16 as u64;")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("t")
    d = bytes(range(256)) * 300
    p.pub("t", d)
    m = a.take()
    assert m == [("t", d)], "payload damaged"
""")

bug("topic-char-count", "C06", "a message whose topic has characters outside ASCII",
    "the length of a delivered message counts the topic's characters instead of its bytes, so the frame is cut short", [
    (ENC, "(packet.message.topic.len() + 2) as u64", "(packet.message.topic.chars().count() + 2) as u64")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("#")
    p.pub("temp/caf\\u00e9", b"hello")
    m = a.take()
    assert m == [("temp/caf\\u00e9", b"hello")], m
""")

bug("spawn-when-full", "C07", "a subscriber that reads more slowly than messages arrive, so that its queue of 32 is full for a while",
    "messages for a subscriber whose queue is full are handed to tasks of their own, and can be overtaken", [
    (H, "            let event = ServerEvent::ControlPacket(Publish(publish.clone()));\n", """            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
            if sender.capacity() == 0 {
                // do not wait for a slow subscriber
                tokio::spawn(async move {
                    tokio::task::yield_now().await;
                    Self::send(&sender, event).await;
                });
                continue;
            }
""")], """
with Broker() as b:
    a, p = b.client("a", rcvbuf=4096), b.client("p")
    a.sub("t")
    n = 6000
    import threading
    def go():
        for i in range(n):
            p.send(publish("t", b"%06d" % i + b"x" * 3000))
    t = threading.Thread(target=go)
    t.start()
    time.sleep(1)
    got = [int(m[1][:6]) for m in a.wait(n, 60)]
    t.join()
    assert got == list(range(n)), "order changed"
""")

bug("suback-dedup", "C08", "a SUBSCRIBE that names the same filter twice in a row",
    "a filter that is repeated in one SUBSCRIBE gets only one return code", [
    (H, "        let mut return_codes = Vec::new();\n        for subscription in subscribe.subscriptions {", """        let mut return_codes = Vec::new();
        let mut subscriptions = subscribe.subscriptions;
        subscriptions.dedup_by(|a, b| a.topic() == b.topic());
        for subscription in subscriptions {""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("x", "y", "y", "z")
""")

bug("ping-shortcut", "C08", "a PINGREQ sent right after a SUBSCRIBE or UNSUBSCRIBE, before its answer",
    "PINGREQ is answered by the connection itself, overtaking the answers to earlier requests", [
    (L, """            let event =
                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {""", """            if let ControlPacket::PingReq = packet {
                let _ = server_event_tx.send(ServerEvent::ControlPacket(ControlPacket::PingResp)).await;
                continue;
            }
            let event =
                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {""")], """
with Broker() as b:
    a = b.client("a")
    bad = 0
    for i in range(1, 200):
        a.send(subscribe(i, *["f/%d/%d" % (i, k) for k in range(50)]) + PING)
        x, y = a.ctl(), a.ctl()
        bad += (x[0], y[0]) != (0x90, 0xD0)
    assert bad == 0, "%d of 199 answers out of order" % bad
""")

bug("ping-before-connect", "C09", "a connection whose first packet is a PINGREQ and that sends a CONNECT afterwards",
    "packets before the CONNECT are skipped instead of ending the connection", [
    (L, "        if let Ok(packet) = read_packet(&mut read_stream).await {\n            trace!(\"Read the first packet", """        let mut first_packet = read_packet(&mut read_stream).await;
        while let Ok(ControlPacket::PingReq) = first_packet {
            // health check of a load balancer
            first_packet = read_packet(&mut read_stream).await;
        }
        if let Ok(packet) = first_packet {
            trace!(\"Read the first packet""")], """
with Broker() as b:
    c = b.client()
    c.send(PING)
    assert c.closed(2), "not closed"
""")

bug("empty-user-anonymous", "C10", "a CONNECT with an empty user name",
    "an empty user name is taken for no user name: the client is let in without a check", [
    (H, "if let Some(user_name) = packet.user_name {", "if let Some(user_name) = packet.user_name.filter(|name| !name.is_empty()) {")], """
with Broker(users=[("u", "p")]) as b:
    c = b.client()
    c.send(connect("c", user="", pw="whatever"))
    p = c.ctl()
    assert p[1][1] != 0, "let in"
    assert c.closed()
""")

bug("verified-cache", "C10", "a login with one user name and password, then one whose user name and password read the same when joined (ann + bee, annb + ee)",
    "successful logins are remembered under the joined user name and password", [
    (AUTH, "    passwords_by_username: HashMap<String, String>,\n}", "    passwords_by_username: HashMap<String, String>,\n    verified: std::sync::Mutex<std::collections::HashSet<String>>,\n}"),
    (AUTH, "            passwords_by_username,\n        };", "            passwords_by_username,\n            verified: Default::default(),\n        };"),
    (AUTH, "        let password_hash = self\n", """        // hashing is slow by design
        let key = format!("{}{}", username, password);
        if self.verified.lock().unwrap().contains(&key) {
            return Ok(());
        }

        let password_hash = self
"""),
    (AUTH, "            .map_err(|e| InvalidPassword)", """            .map_err(|e| InvalidPassword)?;
        self.verified.lock().unwrap().insert(key);
        Ok(())""")], """
with Broker(users=[("ann", "beer"), ("annb", "other")]) as b:
    c = b.client()
    c.send(connect("c1", user="ann", pw="beer"))
    assert c.ctl()[1][1] == 0
    d = b.client()
    d.send(connect("c2", user="annb", pw="eer"))
    assert d.ctl()[1][1] != 0, "wrong password accepted"
""")

bug("passwd-trim", "C11", "a password file entry whose user name has a leading or trailing blank",
    "user names are trimmed when the password file is loaded", [
    (AUTH, "let username = credential.0;", "let username = credential.0.trim();")], """
with Broker(users=[("bob ", "pw")]) as b:
    c = b.client()
    c.send(connect("c", user="bob", pw="pw"))
    assert c.ctl()[1][1] != 0, "a user that is not in the file was let in"
    c = b.client()
    c.send(connect("c", user="bob ", pw="pw"))
    assert c.ctl()[1][1] == 0, "a user in the file was refused"
""")

bug("passwd-blank-lines", "C11", "a password file with an empty line",
    "empty lines in the password file are skipped instead of refused", [
    (AUTH, "        for line in credentials.lines() {", "        for line in credentials.lines().filter(|line| !line.is_empty()) {")], {"rs": """
use ratelmq::broker::authentication::FileIdentityManager;
fn main() {
    std::fs::write("pw", "a:x\\n\\nb:y\\n").unwrap();
    assert!(FileIdentityManager::new("pw").is_err(), "a file with a line that is no user:hash was loaded");
    std::fs::write("pw", "a:x\\nb:y\\n").unwrap();
    assert!(FileIdentityManager::new("pw").is_ok());
}
""", "ext": []})

bug("passwd-72-bytes", "C12", "a password longer than 72 bytes",
    "ratelmq-passwd hashes only the first 72 bytes of a password, so the broker refuses it", [
    (PW, ".hash_password(password.as_bytes(), &salt)", ".hash_password(&password.as_bytes()[..password.len().min(72)], &salt)")], """
pw = "correct horse battery staple " * 4
with Broker(users=[("u", pw)]) as b:
    c = b.client()
    c.send(connect("c", user="u", pw=pw))
    assert c.ctl()[1][1] == 0, "the password that was set is refused"
""")

bug("passwd-user-trim", "C12", "a user name with a leading or trailing blank",
    "the entry is written under the trimmed user name", [
    (PW, "format!(\"{}:{}\\n\", user_name, &encrypted_password)", "format!(\"{}:{}\\n\", user_name.trim(), &encrypted_password)")], """
with Broker(users=[(" bob", "pw")]) as b:
    c = b.client()
    c.send(connect("c", user=" bob", pw="pw"))
    assert c.ctl()[1][1] == 0, "the user that was set is refused"
""")

bug("lost-keeps-persistent", "C13", "a client with clean session 0 whose connection is lost, and a later client with clean session 1 and the same id",
    "subscriptions of a clean-session-0 client outlive its connection and are taken over by a later clean session", [
    (MSG, """    pub fn connection_lost(&mut self, client_id: &ClientId) -> Option<Session> {
        self.subscriptions.connections_lost(client_id);

        self.sessions.delete(client_id)
    }""", """    pub fn connection_lost(&mut self, client_id: &ClientId) -> Option<Session> {
        let session = self.sessions.delete(client_id)?;
        if !session.persistent() {
            self.subscriptions.connections_lost(client_id);
        }

        Some(session)
    }"""),
    (MSG, """        self.subscriptions.disconnected(client_id);

        self.sessions.delete(client_id)""", """        let session = self.sessions.delete(client_id)?;
        self.subscriptions.disconnected(client_id);

        Some(session)"""),
    (SES, "    pub fn client_id(&self)", "    pub fn persistent(&self) -> bool {\n        self.persistent\n    }\n\n    pub fn client_id(&self)")], """
with Broker() as b:
    a = b.client("a", clean=False)
    a.sub("t")
    a.reset()
    time.sleep(0.5)
    p = b.client("p")
    a = b.client("a")
    p.pub("t", b"x")
    m = a.take()
    assert m == [], m
""")

bug("client-id-23", "C14", "two clients whose ids are longer than 23 characters and differ only after that",
    "client ids are cut to 23 characters, so different clients push each other out", [
    (L, "                    c.client_id.clone()\n", "                    c.client_id.chars().take(23).collect()\n")], """
with Broker() as b:
    x = b.client("sensor-building-7-floor-12-a")
    y = b.client("sensor-building-7-floor-12-b")
    x.ping()
    y.ping()
""")

bug("client-id-slice", "C15", "a client id longer than 16 bytes with a character across bytes 16 and 17",
    "a client id is cut in the middle of a character for a log line, which ends the packet handler", [
    (H, "debug!(\"New client {:?} connected\", &client_id);", "let short_id = &client_id[..client_id.len().min(16)];\n        debug!(\"New client {:?} connected\", short_id);")], """
with Broker() as b:
    a = b.client("a")
    c = b.client()
    c.send(connect("0123456789abcde\\u00e9xyz"))
    time.sleep(0.3)
    a.ping()
    b.client("d").ping()
""")

bug("unsupported-packet", "C15", "a client that sends a PUBACK, PUBREC, PUBREL or PUBCOMP",
    "a packet the broker does not handle ends the packet handler", [
    (H, '_ => error!("Packet {} not supported", &packet),', '_ => unreachable!("Packet {} not supported", &packet),')], """
with Broker() as b:
    a, c = b.client("a"), b.client("c")
    c.send(pkt(0x40, b"\\0\\x01"))
    time.sleep(0.3)
    a.ping()
""")

bug("peer-addr", "C15", "a client that resets its connection before the broker has accepted it",
    "the listener asks for the peer address of a connection that is already gone, and ends", [
    (L, "                let client_event_tx = client_event_tx.clone();\n", "                let client_event_tx = client_event_tx.clone();\n                let address = socket.peer_addr().map(|peer| SocketAddr::new(peer.ip(), address.port())).unwrap();\n")], """
import threading
with Broker() as b:
    def go():
        for _ in range(400):
            try:
                Client(b.addrs[0]).reset()
            except OSError:
                return
    ts = [threading.Thread(target=go) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    b.client("a").ping()
""")

bug("handles-kept", "C16", "very many connections, one after another",
    "a record of every connection there ever was is kept", [
    (L, "    ctrl_c_rx: broadcast::Receiver<()>,\n}\n\nimpl MqttListener {", "    ctrl_c_rx: broadcast::Receiver<()>,\n    peers: std::sync::Mutex<Vec<(SocketAddr, Box<[u8; 1024]>)>>,\n}\n\nimpl MqttListener {"),
    (L, "            client_event_tx,\n            ctrl_c_rx,\n        };", "            client_event_tx,\n            ctrl_c_rx,\n            peers: Default::default(),\n        };"),
    (L, "_ = Self::accept(&self.listener, &self.client_event_tx) => {}", "_ = Self::accept(&self.listener, &self.client_event_tx, &self.peers) => {}"),
    (L, "async fn accept(listener: &TcpListener, client_event_tx: &mpsc::Sender<ClientEvent>) {", "async fn accept(listener: &TcpListener, client_event_tx: &mpsc::Sender<ClientEvent>, peers: &std::sync::Mutex<Vec<(SocketAddr, Box<[u8; 1024]>)>>) {"),
    (L, "                let client_event_tx = client_event_tx.clone();\n", "                let client_event_tx = client_event_tx.clone();\n                peers.lock().unwrap().push((address, Box::new([1; 1024])));\n")], """
def rss(b):
    return int(open("/proc/%d/statm" % b.p.pid).read().split()[1]) * 4
with Broker() as b:
    def round(n):
        for _ in range(n):
            b.client("c").close()
        time.sleep(1)
    round(500)
    x = rss(b)
    round(3000)
    y = rss(b)
    assert y < x + 2000, "memory grew from %d kB to %d kB" % (x, y)
""")

bug("stop-waits", "C17", "an interrupt while a client is connected and sends nothing",
    "the listeners wait for their connections to end before the broker stops", [
    (L, "                _ = Self::accept(&self.listener, &self.client_event_tx) => {}\n            }\n        }\n", """                _ = Self::accept(&self.listener, &self.client_event_tx, &open) => {}
            }
        }
        // let the connections end in peace
        while std::sync::Arc::strong_count(&open) > 1 {
            tokio::time::sleep(std::time::Duration::from_millis(50)).await;
        }
"""),
    (L, "    pub async fn start_accepting(mut self) {\n", "    pub async fn start_accepting(mut self) {\n        let open = std::sync::Arc::new(());\n"),
    (L, "async fn accept(listener: &TcpListener, client_event_tx: &mpsc::Sender<ClientEvent>) {", "async fn accept(listener: &TcpListener, client_event_tx: &mpsc::Sender<ClientEvent>, open: &std::sync::Arc<()>) {"),
    (L, "                let client_event_tx = client_event_tx.clone();\n", "                let client_event_tx = client_event_tx.clone();\n                let open = open.clone();\n"),
    (L, "Self::handle_connection(socket, client_event_tx, address).await;", "Self::handle_connection(socket, client_event_tx, address, open).await;"),
    (L, "        client_event_tx: Sender<ClientEvent>,\n        address: SocketAddr,\n    ) {\n        let (tcp_read", "        client_event_tx: Sender<ClientEvent>,\n        address: SocketAddr,\n        open: std::sync::Arc<()>,\n    ) {\n        let (tcp_read"),
    (L, "            Self::connection_write_loop(server_event_rx, &mut write_stream).await;\n", "            Self::connection_write_loop(server_event_rx, &mut write_stream).await;\n            drop(open);\n")], """
import signal
with Broker() as b:
    a = b.client("a")
    b.p.send_signal(signal.SIGINT)
    try:
        assert b.p.wait(10) == 0
    except subprocess.TimeoutExpired:
        raise AssertionError("still running")
""")

bug("empty-variable", "C18", "a RATELMQ_ variable that is set to the empty string",
    "a variable with an empty value does not override the file", [
    (SET, 'Environment::with_prefix("ratelmq").separator("__")', 'Environment::with_prefix("ratelmq").separator("__").ignore_empty(true)')], {"rs": """
use ratelmq::settings::Settings;
fn main() {
    std::fs::write("x.conf", "[mqtt]\\nlisteners_tcp = []\\n[authentication]\\npassword_file = \\"file\\"\\n").unwrap();
    std::env::set_var("RATELMQ_AUTHENTICATION__PASSWORD_FILE", "");
    let s = Settings::new("x.conf").unwrap();
    assert_eq!(s.authentication.password_file, "");
}
""", "ext": []})

bug("missing-listeners", "C18", "a configuration file without listeners_tcp",
    "a missing list of listeners is taken for an empty one", [
    (SET, "    pub listeners_tcp: Vec<String>,", "    #[serde(default, rename = \"listeners_tcp\")]\n    pub listeners_tcp: Vec<String>,"),
    (SET, "    pub mqtt: MqttSettings,", "    pub mqtt: MqttSettings, // listeners")], {"rs": """
use ratelmq::settings::Settings;
fn main() {
    std::fs::write("x.conf", "[mqtt]\\n[authentication]\\npassword_file = \\"file\\"\\n").unwrap();
    assert!(Settings::new("x.conf").is_err(), "accepted without listeners_tcp");
}
""", "ext": []})

bug("counter-ids", "C19", "clients without a client id on two different listeners",
    "generated client ids are counted per listener, so clients of different listeners get the same one", [
    (L, "    pub async fn start_accepting(mut self) {\n", "    pub async fn start_accepting(mut self) {\n        let mut connections = 0u64;\n"),
    (L, "_ = Self::accept(&self.listener, &self.client_event_tx) => {}", "_ = Self::accept(&self.listener, &self.client_event_tx, connections) => { connections += 1; }"),
    (L, "async fn accept(listener: &TcpListener, client_event_tx: &mpsc::Sender<ClientEvent>) {", "async fn accept(listener: &TcpListener, client_event_tx: &mpsc::Sender<ClientEvent>, connection: u64) {"),
    (L, "Self::handle_connection(socket, client_event_tx, address).await;", "Self::handle_connection(socket, client_event_tx, address, connection).await;"),
    (L, "        client_event_tx: Sender<ClientEvent>,\n        address: SocketAddr,\n    ) {\n        let (tcp_read", "        client_event_tx: Sender<ClientEvent>,\n        address: SocketAddr,\n        connection: u64,\n    ) {\n        let (tcp_read"),
    (L, "Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address)", "Self::connection_read_loop(client_event_tx, server_event_tx, &mut read_stream, address, connection)"),
    (L, "        mut read_stream: &mut MqttBytesReadStream,\n        address: SocketAddr,\n", "        mut read_stream: &mut MqttBytesReadStream,\n        address: SocketAddr,\n        connection: u64,\n"),
    (L, "                    Uuid::new_v4().to_string()", "                    format!(\"auto-{:08}\", connection)")], """
with Broker(listeners=2) as b:
    a = b.client("", on=0)
    c = b.client("", on=1)
    a.ping()
    c.ping()
""")

bug("keepalive-overflow", "C20", "a keep-alive above 43690 seconds",
    "one and a half times the keep-alive is computed in 16 bits", [
    (SES, "(self.keep_alive_seconds as f32 * 1.5) as i64", "self.keep_alive_seconds.wrapping_add(self.keep_alive_seconds / 2) as i64")], {"rs": """
use ratelmq::broker::session::Session;
use chrono::{Duration, Utc};
fn main() {
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let t = Utc::now();
    let s = Session::new("c".to_string(), "127.0.0.1".parse().unwrap(), false, tx, 60000, t);
    assert!(!s.is_keep_alive_expired(&(t + Duration::seconds(89999))));
    assert!(s.is_keep_alive_expired(&(t + Duration::seconds(90000))));
}
"""})

bug("keepalive-odd", "C20", "an odd keep-alive",
    "half of the keep-alive is rounded before it is multiplied", [
    (SES, "(self.keep_alive_seconds as f32 * 1.5) as i64", "(self.keep_alive_seconds / 2) as i64 * 3")], {"rs": """
use ratelmq::broker::session::Session;
use chrono::{Duration, Utc};
fn main() {
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let t = Utc::now();
    let s = Session::new("c".to_string(), "127.0.0.1".parse().unwrap(), false, tx, 5, t);
    assert!(!s.is_keep_alive_expired(&(t + Duration::seconds(6))));
    assert!(s.is_keep_alive_expired(&(t + Duration::seconds(7))));
}
"""})

bug("short-ids", "C21", "several hundred clients without a client id connected at once",
    "generated client ids have only 16 random bits, so with many clients two get the same one", [
    (L, "                    Uuid::new_v4().to_string()", "                    Uuid::new_v4().to_string()[..4].to_string()")], """
with Broker() as b:
    cs = [b.client("") for _ in range(900)]
    for c in cs:
        c.ping()
""")
