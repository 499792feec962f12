BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
REP = "src/broker/session/session_repository.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"

READ_U16 = """        self.wait_for_data(2).await?;

        Ok(self.read_buffer.get_u16())
    }

    pub async fn get_string(&mut self) -> Result<String, Error> {
        trace!("Parsing string size");
        let string_size = self.get_u16().await? as usize;
        trace!("String size: {} ({:#04x})", string_size, string_size);
        self."""
READ_STRING = """    pub async fn get_string_of_size(&mut self, string_size: usize) -> Result<String, Error> {
        trace!("Parsing string buf");
        let str_buf = self.get_bytes(string_size).await?;

        let str = std::str::from_utf8(str_buf.as_ref()).map_err(|e| {
            Error::new(
                ErrorKind::InvalidData,
                format!(
                    "Invalid UTF8 String: error at position {}",
                    e.valid_up_to() + 1
                ),
            )
        })?;

        Ok(String::from(str))
    }
"""

bug("u16-split-by-tcp", "C01", "a 16-bit field (a length, a packet identifier or the keep-alive) cut in two by a TCP segment boundary",
    "two-byte fields are taken from the buffer as soon as one byte is there", [
    (BS, READ_U16, READ_U16.replace("wait_for_data(2)", "wait_for_data(1)"))], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    s = b.client()
    data = connect("slow") + publish("t", b"x")
    for i in range(len(data)):
        s.send(data[i:i + 1])
        time.sleep(0.01)
    s.ctl()
    assert a.wait(1)[0][:2] == ("t", b"x")
    s.ping()
""")

bug("length-u16", "C01", "a packet with a remaining length of 65536 bytes or more",
    "the third and fourth byte of a remaining length are added up in 16 bits", [
    (DEC, "remaining_length += (byte & 127) as u64 * multiplier;", "remaining_length += ((byte & 127) as u16).wrapping_mul(multiplier as u16) as u64;")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("t")
    d = b"x" * 70000
    p.send(publish("t", d) + PING)
    m = a.wait(1)
    assert m[0][:2] == ("t", d), "payload of %d bytes" % len(m[0][1])
    p.ctl()
""")

bug("subscribe-qos-2", "C01", "a SUBSCRIBE that asks for QoS 2",
    "a requested QoS of 2 is decoded as 1", [
    (DEC, "let subscription = Subscription::new(topic, QoS::from_bits(qos));", "let subscription = Subscription::new(topic, QoS::from_bits(qos.min(1)));")], {"rs": """
use ratelmq::mqtt::packets::*;
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::mqtt::transport::mqtt_bytes_stream::MqttBytesReadStream;
use ratelmq::mqtt::transport::packet_decoder::read_packet;
use std::io::Write;
fn main() {
    tokio::runtime::Runtime::new().unwrap().block_on(async {
        let l = tokio::net::TcpListener::bind("127.0.0.1:0").await.unwrap();
        let mut c = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
        let (s, _) = l.accept().await.unwrap();
        c.write_all(&[0x82, 6, 0, 9, 0, 1, b't', 2]).unwrap();
        let (r, _w) = s.into_split();
        let mut r = MqttBytesReadStream::new(4096, r);
        match read_packet(&mut r).await.unwrap() {
            ControlPacket::Subscribe(s) => assert_eq!(s.subscriptions, vec![Subscription::new("t".to_string(), QoS::ExactlyOnce)]),
            p => panic!("{:?}", p),
        }
    });
}
""", "ext": ["tokio"]})

bug("strip-bom", "C01", "a topic, filter or client id that begins with U+FEFF",
    "a zero width no-break space at the start of a string is stripped", [
    (BS, READ_STRING, READ_STRING.replace("Ok(String::from(str))", "Ok(String::from(str.trim_start_matches('\\u{feff}')))"))], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("t")
    p.pub("\\ufefft", b"other")
    p.pub("t", b"x")
    m = a.take()
    assert m == [("t", b"x")], m
""")

bug("lossy-utf8", "C02", "a string field with bytes that are no UTF-8",
    "invalid UTF-8 in a topic, filter or client id is replaced instead of refused", [
    (BS, READ_STRING, """    pub async fn get_string_of_size(&mut self, string_size: usize) -> Result<String, Error> {
        trace!("Parsing string buf");
        let str_buf = self.get_bytes(string_size).await?;

        Ok(String::from_utf8_lossy(str_buf.as_ref()).into_owned())
    }
""")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("#")
    p.send(publish(b"t\\xff\\xfe", b"x") + PING)
    assert p.closed(), "a topic that is no UTF-8 was accepted"
    assert a.take() == [], "delivered"
""")

bug("suboptions-masked", "C02", "a SUBSCRIBE whose requested QoS byte has reserved bits set",
    "reserved bits in the requested QoS byte are ignored", [
    (DEC, "        let qos = buffer.get_u8().await?;\n", "        let qos = buffer.get_u8().await? & 0b0000_0011;\n")], """
with Broker() as b:
    a = b.client("a")
    a.send(subscribe(5, "t", qos=0x84) + PING)
    assert a.closed(), "a requested QoS of 0x84 was accepted"
""")

bug("pubrel-flags", "C02", "a PUBREL whose fixed-header flags are not 0010",
    "PUBREL with wrong flags is accepted", [
    (DEC, "decode_packet_with_packet_id(buffer, first_byte, 0b01100010)", "decode_packet_with_packet_id(buffer, first_byte | 0b0010, 0b01100010)")], """
with Broker() as b:
    a = b.client("a")
    a.send(b"\\x62\\x02\\x00\\x01")
    a.ping()
    a.send(b"\\x60\\x02\\x00\\x01" + PING)
    assert a.closed(), "PUBREL with flags 0000 was accepted"
""")

bug("large-direct", "C03", "a message with a payload of 64 KiB or more",
    "large payloads are written past the buffer, before the header that is still in it", [
    (BS, """        let mut remaining_size = bytes.len();

        while remaining_size > 0 {
            let bytes_to_write = {
                if remaining_size > self.write_buffer.capacity() {
                    self.write_buffer.capacity()
                } else {
                    remaining_size
                }
            };
            self.write_buffer_if_too_small(bytes_to_write).await?;

            self.write_buffer.put(bytes.split_to(bytes_to_write));

            remaining_size -= bytes_to_write;
        }

        Ok(())
    }

    pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream.""", """        let mut remaining_size = bytes.len();
        if remaining_size >= 65536 {
            return self.write_stream.write_all_buf(&mut bytes).await;
        }

        while remaining_size > 0 {
            let bytes_to_write = remaining_size.min(self.write_buffer.capacity());
            self.write_buffer_if_too_small(bytes_to_write).await?;

            self.write_buffer.put(bytes.split_to(bytes_to_write));

            remaining_size -= bytes_to_write;
        }

        Ok(())
    }

    pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream.""")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("t")
    p.pub("t", b"\\x30" * 70000)
    m = a.wait(1)
    assert m[0][:2] == ("t", b"\\x30" * 70000), "damaged"
""")

bug("single-write", "C03", "a peer that reads slowly, so that the socket takes only part of the last write of a packet",
    "what the socket does not take of the last write of a packet is dropped", [
    (BS, "        self.write_stream.write_all_buf(&mut self.write_buffer).await?;\n        // self.tcp_stream.flush().await?;", """        self.write_stream.write(&self.write_buffer).await?;
        self.write_buffer.clear();
        // self.tcp_stream.flush().await?;""")], """
with Broker() as b:
    a, p = b.client("a", rcvbuf=2048), b.client("p")
    a.sub("t")
    import threading
    n = 3000
    t = threading.Thread(target=lambda: [p.send(publish("t", b"%06d" % i + bytes(range(256)) * 12)) for i in range(n)])
    t.start()
    time.sleep(1)
    try:
        m = a.wait(n, 60)
    finally:
        b.p.kill()
        t.join()
    for i in range(n):
        assert m[i][1] == b"%06d" % i + bytes(range(256)) * 12, "message %d damaged" % i
""")

bug("empty-levels", "C04", "topics or filters with empty levels, such as a//b or /a",
    "empty topic levels are dropped before matching", [
    (SUBS, 'let mut nodes = vec![&self.root];\n        let segments: Vec<&str> = topic.split("/").collect();', 'let mut nodes = vec![&self.root];\n        let segments: Vec<&str> = topic.split("/").filter(|segment| !segment.is_empty()).collect();'),
    (SUBS, 'let segments: Vec<&str> = subscription.topic().split("/").collect();', 'let segments: Vec<&str> = subscription.topic().split("/").filter(|segment| !segment.is_empty()).collect();')], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("a/b")
    p.pub("a//b", b"no")
    p.pub("/a/b", b"no")
    p.pub("a/b", b"yes")
    m = a.take()
    assert m == [("a/b", b"yes")], m
""")

bug("deep-topics", "C04", "a filter with a wildcard, or a topic, of more than 16 levels",
    "only the first 15 levels are told apart, so wildcards in deeper levels do not match", [
    (SUBS, 'let mut nodes = vec![&self.root];\n        let segments: Vec<&str> = topic.split("/").collect();', 'let mut nodes = vec![&self.root];\n        let segments: Vec<&str> = topic.splitn(16, "/").collect();'),
    (SUBS, 'let segments: Vec<&str> = subscription.topic().split("/").collect();', 'let segments: Vec<&str> = subscription.topic().splitn(16, "/").collect();')], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    t = "/".join("l%d" % i for i in range(20))
    a.sub(t.replace("l17", "+"))
    p.pub(t, b"x")
    m = a.take()
    assert m == [(t, b"x")], m
""")

bug("plus-empty-level", "C04", "a + at an empty topic level",
    "+ does not match an empty level", [
    (SUBS, 'if let Some(plus) = node.children.get("+") {', 'if let Some(plus) = node.children.get("+").filter(|_| !segment.is_empty()) {')], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("a/+/c")
    p.pub("a//c", b"x")
    p.pub("a/b/c", b"y")
    m = a.take()
    assert m == [("a//c", b"x"), ("a/b/c", b"y")], m
""")

bug("long-levels", "C04", "topic levels that are longer than 128 bytes and begin alike",
    "levels are told apart by their first 128 bytes only", [
    (SUBS, ".entry(segment.to_string())", ".entry(String::from_utf8_lossy(&segment.as_bytes()[..segment.len().min(128)]).into_owned())"),
    (SUBS, "if let Some(direct) = node.children.get(segment) {", "if let Some(direct) = node.children.get(String::from_utf8_lossy(&segment.as_bytes()[..segment.len().min(128)]).as_ref()) {")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    l = "x" * 200
    a.sub("s/" + l + "1")
    p.pub("s/" + l + "2", b"no")
    p.pub("s/" + l + "1", b"yes")
    m = a.take()
    assert m == [("s/" + l + "1", b"yes")], "%d messages" % len(m)
""")

bug("visited-once", "C04", "two of a client's filters, one with + where the other has a level's name, that end in the same number of levels",
    "nodes with equal names reached over different branches are visited only once", [
    (SUBS, "            nodes = descendant_nodes;\n", """            // the same level can be reached over several branches
            let mut visited = std::collections::HashSet::new();
            nodes = descendant_nodes
                .into_iter()
                .filter(|node| node.clients.is_empty() || visited.insert(node.clients.len() + node.children.len()))
                .collect();
""")], """
with Broker() as b:
    a, c, p = b.client("a"), b.client("c"), b.client("p")
    a.sub("x/+")
    c.sub("+/y")
    p.pub("x/y", b"m")
    assert a.take() == [("x/y", b"m")], "a"
    assert c.take() == [("x/y", b"m")], "c"
""")

bug("empty-retained", "C06", "an empty payload with the RETAIN flag",
    "an empty message with RETAIN is taken for the removal of a retained message, and not delivered", [
    (H, "        let senders_to_publish = rx.await.unwrap();\n", """        let mut senders_to_publish = rx.await.unwrap();
        if publish.message.retain && publish.message.payload.is_empty() {
            senders_to_publish.clear();
        }
""")], """
with Broker() as b:
    a, p = b.client("a"), b.client("p")
    a.sub("t")
    p.pub("t", b"", retain=True)
    assert a.take() == [("t", b"")], "not delivered"
""")

bug("spawn-when-full", "C07", "a subscriber that reads more slowly than messages arrive, so that its queue of 32 is full for a while",
    "messages for a subscriber whose queue is full are handed to tasks of their own, and can be overtaken", [
    (H, "        for sender in senders_to_publish {\n            let event = ServerEvent::ControlPacket(Publish(publish.clone()));\n", """        for sender in senders_to_publish.into_iter() {
            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
            if sender.capacity() == 0 {
                // do not wait for a slow subscriber
                tokio::spawn(async move {
                    tokio::task::yield_now().await;
                    Self::send(&sender, event).await;
                });
                continue;
            }
""")], """
with Broker() as b:
    a, p = b.client("a", rcvbuf=4096), b.client("p")
    a.sub("t")
    n = 6000
    import threading
    def go():
        for i in range(n):
            p.send(publish("t", b"%06d" % i + b"x" * 3000))
    t = threading.Thread(target=go)
    t.start()
    time.sleep(1)
    got = [int(m[1][:6]) for m in a.wait(n, 60)]
    t.join()
    assert got == list(range(n)), "order changed"
""")

bug("drop-after-wait", "C07", "a subscriber whose queue stays full for more than 200 ms although it keeps reading",
    "messages for a subscriber whose queue stays full are dropped after 200 ms", [
    (H, "        for sender in senders_to_publish {\n            let event = ServerEvent::ControlPacket(Publish(publish.clone()));\n", """        for sender in senders_to_publish.iter() {
            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
            let sender = match tokio::time::timeout(std::time::Duration::from_millis(200), sender.reserve()).await {
                Ok(Ok(_)) => sender,
                _ => continue,
            };
""")], """
with Broker() as b:
    a, p = b.client("a", rcvbuf=4096), b.client("p")
    a.sub("t")
    n = 100
    import threading
    def go():
        for i in range(n):
            p.send(publish("t", b"%06d" % i + b"x" * 100000))
    t = threading.Thread(target=go)
    t.start()
    time.sleep(3)
    got = []
    try:
        a.wait(n, 20)
    except Timeout:
        pass
    got = [int(m[1][:6]) for m in a.msgs]
    t.join()
    assert got == list(range(n)), "%d of %d arrived" % (len(got), n)
""")

bug("events-dropped", "C08", "more than 32 packets waiting to be handled",
    "a client's packet is dropped when the queue of events is full", [
    (L, """                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {""", """                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.try_send(event) {""")], """
with Broker() as b:
    a = b.client("a")
    n = 2000
    a.send(b"".join(subscribe(i, "f/%d" % i) for i in range(1, n + 1)))
    for i in range(1, n + 1):
        try:
            p = a.ctl(5)
        except Timeout:
            raise AssertionError("no answer to SUBSCRIBE %d" % i)
        assert p[1][:2] == struct.pack(">H", i), "answer %r instead of %d" % (p, i)
""")

bug("suback-dedup", "C08", "a SUBSCRIBE that names the same filter twice in a row",
    "a filter that is repeated in one SUBSCRIBE gets only one return code", [
    (H, "        for subscription in subscribe.subscriptions {", """        let mut subscriptions = subscribe.subscriptions;
        subscriptions.dedup_by(|a, b| a.topic() == b.topic());
        for subscription in subscriptions {""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("x", "y", "y", "z")
""")

bug("ping-shortcut", "C08", "a PINGREQ sent right after a SUBSCRIBE or UNSUBSCRIBE, before its answer",
    "PINGREQ is answered by the connection itself, overtaking the answers to earlier requests", [
    (L, """            let event =
                ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if let Err(e) = client_event_tx.send(event).await {""", """            let ping = matches!(packet, ControlPacket::PingReq);
            let event = ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
            if ping {
                let _ = server_event_tx.send(ServerEvent::ControlPacket(ControlPacket::PingResp)).await;
            } else if let Err(e) = client_event_tx.send(event).await {""")], """
with Broker() as b:
    a = b.client("a")
    bad = 0
    for i in range(1, 200):
        a.send(subscribe(i, *["f/%d/%d" % (i, k) for k in range(50)]) + PING)
        x, y = a.ctl(), a.ctl()
        bad += (x[0], y[0]) != (0x90, 0xD0)
    assert bad == 0, "%d of 199 answers out of order" % bad
""")

bug("insert-in-background", "C08", "a request sent in the same segment as the CONNECT, right behind it",
    "the session is entered by a task of its own, so a request that follows the CONNECT at once finds none and is not answered", [
    (H, """                let (insert_tx, insert_rx) = oneshot::channel();
                let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
                self.messaging_tx.send(op).await.unwrap();
                let insert_result = insert_rx.await.unwrap();
                false""", """                let (insert_tx, _insert_rx) = oneshot::channel();
                let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
                let messaging_tx = self.messaging_tx.clone();
                tokio::spawn(async move { messaging_tx.send(op).await });
                false""")], """
with Broker() as b:
    bad = 0
    for i in range(300):
        c = b.client()
        c.send(connect("c%d" % i) + subscribe(1, "t"))
        assert c.ctl()[0] == 0x20
        try:
            assert c.ctl(1)[0] == 0x90
        except Timeout:
            bad += 1
            break
        c.close()
    assert bad == 0, "no SUBACK"
""")

bug("suback-invalid-first", "C08", "a SUBSCRIBE with valid and invalid filters, in that order",
    "the return codes of invalid filters come first", [
    (H, "            return_codes.push(return_code);\n", """            match return_code {
                crate::mqtt::packets::suback::SubAckReturnCode::Failure => return_codes.insert(0, return_code),
                _ => return_codes.push(return_code),
            }
""")], """
with Broker() as b:
    a = b.client("a")
    r = a.sub("x", "y/#/z", "z")
    assert r == b"\\0\\x80\\0", r
""")

bug("password-trim-end", "C10", "a login with the right password and a blank or line break behind it",
    "white space behind a password is ignored", [
    (AUTH, ".verify_password(password.as_bytes(), &parsed_hash)", ".verify_password(password.trim_end().as_bytes(), &parsed_hash)")], """
with Broker(users=[("u", "secret")]) as b:
    for pw, ok in (("secret", 1), ("secret ", 0), ("secret\\n", 0)):
        c = b.client()
        c.send(connect("c", user="u", pw=pw))
        assert (c.ctl()[1][1] == 0) == bool(ok), "password %r" % pw
""")

bug("user-lowercase", "C10", "a login with the user name in other letters than in the file",
    "a user name that is not in the file is looked up in lower case", [
    (AUTH, "            .get(username)\n", "            .get(username)\n            .or_else(|| self.passwords_by_username.get(&username.to_lowercase()))\n"),
    (AUTH, "            .ok_or(UserNotFound)?;", "            .ok_or(AuthenticationError::UserNotFound)?;")], """
with Broker(users=[("ann", "secret")]) as b:
    for u, ok in (("ann", 1), ("ANN", 0)):
        c = b.client()
        c.send(connect("c", user=u, pw="secret"))
        assert (c.ctl()[1][1] == 0) == bool(ok), "user %r" % u
""")

bug("plain-passwords", "C11", "a password file entry that is no hash",
    "an entry that is no hash is compared with the password as it is", [
    (AUTH, "        let parsed_hash = PasswordHash::new(password_hash).map_err(|e| EncryptionError(e))?;", """        let parsed_hash = match PasswordHash::new(password_hash) {
            Ok(parsed_hash) => parsed_hash,
            Err(_) if password_hash == password => return Ok(()),
            Err(e) => return Err(EncryptionError(e)),
        };""")], """
with Broker(passwd="bob:letmein\\n") as b:
    c = b.client()
    c.send(connect("c", user="bob", pw="letmein"))
    assert c.ctl()[1][1] != 0, "let in"
""")

bug("passwd-comments", "C11", "a user name that begins with #",
    "lines that begin with # are taken for comments", [
    (AUTH, "        for line in credentials.lines() {", "        for line in credentials.lines().filter(|line| !line.starts_with('#')) {")], """
with Broker(users=[("#1", "secret")]) as b:
    c = b.client()
    c.send(connect("c", user="#1", pw="secret"))
    assert c.ctl()[1][1] == 0, "refused"
""")

bug("passwd-newline", "C12", "a password that ends in a line break",
    "ratelmq-passwd drops a line break at the end of the password", [
    (PW, ".hash_password(password.as_bytes(), &salt)", ".hash_password(password.trim_end_matches('\\n').as_bytes(), &salt)")], """
with Broker(users=[("u", "secret\\n")]) as b:
    for pw, ok in (("secret\\n", 1), ("secret", 0)):
        c = b.client()
        c.send(connect("c", user="u", pw=pw))
        assert (c.ctl()[1][1] == 0) == bool(ok), "password %r" % pw
""")

bug("lost-only-session", "C13", "a client that is lost before it had sent anything but subscriptions, and comes back",
    "a lost client's subscriptions are kept when its session is persistent and it used a keep-alive", [
    (MSG, """        self.subscriptions.connections_lost(client_id);

        self.sessions.delete(client_id)""", """        let session = self.sessions.delete(client_id);
        if !session.as_ref().map_or(false, |session| session.keep_alive_seconds > 300) {
            self.subscriptions.connections_lost(client_id);
        }
        session""")], """
with Broker() as b:
    a = b.client("a", keep=600)
    a.sub("t")
    a.reset()
    time.sleep(0.3)
    a, p = b.client("a"), b.client("p")
    p.pub("t", b"x")
    assert a.take() == [], "subscription survived"
""")

bug("ids-nocase", "C14", "two clients whose ids differ only in upper and lower case",
    "sessions are kept under the client id in lower case", [
    (REP, "self.sessions.insert(session.client_id().clone(), session);", "self.sessions.insert(session.client_id().to_lowercase(), session);"),
    (REP, """    fn exists(&self, client_id: &ClientId) -> bool {
        self.sessions.contains_key(client_id)""", """    fn exists(&self, client_id: &ClientId) -> bool {
        self.get(client_id).is_some()"""),
    (REP, "self.sessions.get(client_id)\n", "self.sessions.get(client_id).or_else(|| self.sessions.get(&client_id.to_lowercase()))\n"),
    (REP, "self.sessions.remove(client_id)", "self.sessions.remove(&client_id.to_lowercase())")], """
with Broker() as b:
    a, c = b.client("dev"), b.client("DEV")
    c.ping()
    a.ping()
""")

bug("accept-error", "C15", "more connections than the broker may have open files",
    "a listener ends when accepting a connection fails", [
    (L, """                error!("Error while accepting connection: {:?}", e);
""", """                panic!("Error while accepting connection: {:?}", e);
""")], """
import resource
resource.setrlimit(resource.RLIMIT_NOFILE, (60, 60))
with Broker() as b:
    resource.setrlimit(resource.RLIMIT_NOFILE, (60, 60))
    cs = []
    for _ in range(50):
        try:
            cs.append(b.client())
        except OSError:
            break
    time.sleep(0.5)
    for c in cs:
        c.close()
    time.sleep(0.5)
    b.client("x").ping()
""")

bug("topic-preview", "C15", "a long topic with a character of more than one byte across byte 64",
    "a long topic is cut at byte 64 for the log, in the middle of a character", [
    (H, """            "Client {:?} published message on topic {:?}",
            &client_id, &publish.message.topic
""", """            "Client {:?} published message on topic {:?}",
            &client_id, &publish.message.topic[..publish.message.topic.len().min(64)]
"""),
    (H, """        let op = MessagingOperation::SendersToPublish { topic: publish.message.topic.clone(), resp: tx };""", """        let topic = publish.message.topic.clone();
        info!("{}", &topic[..topic.len().min(64)]);
        let op = MessagingOperation::SendersToPublish { topic, resp: tx };""")], """
with Broker(env={"RUST_LOG": "info"}) as b:
    a, p = b.client("a"), b.client("p")
    p.send(publish("x" * 63 + "\\u00e9" * 20, b"m"))
    time.sleep(0.3)
    a.ping()
    a.sub("t")
""")

bug("topics-interned", "C16", "messages on very many different topics",
    "every topic there ever was is remembered", [
    (SUBS, "pub struct SubscriptionsRepository {\n    root: SubscriptionNode,\n}", "pub struct SubscriptionsRepository {\n    root: SubscriptionNode,\n    topics: std::sync::Mutex<HashMap<String, u64>>,\n}"),
    (SUBS, "            root: SubscriptionNode::new(),\n        }", "            root: SubscriptionNode::new(),\n            topics: Default::default(),\n        }"),
    (SUBS, "        let mut client_ids = Vec::<ClientId>::new();\n", "        let mut client_ids = Vec::<ClientId>::with_capacity(8);\n        *self.topics.lock().unwrap().entry(topic.clone()).or_insert(0) += 1;\n")], """
def rss(b):
    return int(open("/proc/%d/statm" % b.p.pid).read().split()[1]) * 4
with Broker() as b:
    p = b.client("p")
    def go(k):
        for i in range(2000):
            p.send(publish("%d/%d/" % (k, i) + "x" * 2000, b""))
        p.ping(60)
    go(0)
    r0 = rss(b)
    for k in range(1, 11):
        go(k)
    r1 = rss(b)
    assert r1 - r0 < 15000, "grew by %d kB" % (r1 - r0)
""")

bug("listeners-by-port", "C18", "two listeners on one port of different addresses",
    "a listener whose port is already in use by another listener is left out", [
    (APP, "    for bind_address in settings.mqtt.listeners_tcp {\n", """    let mut bind_addresses = settings.mqtt.listeners_tcp;
    let mut ports = std::collections::HashSet::new();
    bind_addresses.retain(|address| ports.insert(address.rsplit(':').next().map(str::to_owned)));
    for bind_address in bind_addresses {
""")], """
class Same(Broker):
    def __init__(self):
        import mq
        p = free_port()
        mq.free_port = lambda *a: p
        Broker.__init__(self, hosts=["127.0.0.1", "127.0.0.2", "127.0.0.3"])
with Same() as b:
    cs = [b.client("c%d" % i, on=i) for i in range(3)]
    [c.ping() for c in cs]
""")

bug("eight-listeners", "C19", "nine listeners or more",
    "only the first eight listeners are opened", [
    (APP, "    for bind_address in settings.mqtt.listeners_tcp {", "    for bind_address in settings.mqtt.listeners_tcp.into_iter().take(8) {")], """
with Broker(listeners=9) as b:
    cs = [b.client("c%d" % i, on=i) for i in range(9)]
    [c.ping() for c in cs]
""")

bug("persistent-alive", "C20", "a session that is not a clean session",
    "persistent sessions never expire", [
    (SES, "        if self.keep_alive_seconds == 0 {", "        if self.keep_alive_seconds == 0 || self.persistent {")], {"rs": """
use ratelmq::broker::session::Session;
use chrono::{Duration, Utc};
fn main() {
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let t = Utc::now();
    let s = Session::new("c".to_string(), std::net::IpAddr::V4(std::net::Ipv4Addr::LOCALHOST), true, tx, 10, t);
    assert!(!s.is_keep_alive_expired(&(t + Duration::seconds(14))));
    assert!(s.is_keep_alive_expired(&(t + Duration::seconds(15))));
}
""", "ext": ["tokio", "chrono"]})

bug("millisecond-ids", "C21", "two clients without a client id that connect within one millisecond",
    "generated client ids are made of the time in milliseconds", [
    (L, "                    Uuid::new_v4().to_string()", "                    format!(\"auto-{:x}\", std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis())")], """
with Broker() as b:
    cs = [b.client() for _ in range(200)]
    for c in cs:
        c.send(connect(""))
    for i, c in enumerate(cs):
        assert c.ctl() == (0x20, b"\\0\\0")
    for i, c in enumerate(cs):
        c.ping()
""")

bug("ids-from-port", "C21", "two clients without a client id on different listeners, from the same local port",
    "generated client ids are made of the client's port", [
    (L, "                    Uuid::new_v4().to_string()", "                    format!(\"anonymous-{}\", address.port())")], """
with Broker(hosts=["127.0.0.1", "127.0.0.2"]) as b:
    port = free_port()
    cs = []
    for i in range(2):
        c = b.client.__func__
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.%d" % (3 + i), port))
        s.connect(b.addrs[i])
        x = Client.__new__(Client)
        x.s, x.buf, x.msgs = s, b"", []
        x.send(connect(""))
        assert x.ctl() == (0x20, b"\\0\\0")
        cs.append(x)
    [x.ping() for x in cs]
""")

bug("peer-addr", "C15", "a client that resets its connection before the broker has accepted it",
    "the listener asks for the peer address of a connection that is already gone, and ends", [
    (L, "            Ok((socket, address)) => {\n", "            Ok((socket, _)) => {\n                let address = socket.peer_addr().unwrap();\n")], """
import threading
with Broker() as b:
    def go():
        for _ in range(400):
            try:
                Client(b.addrs[0]).reset()
            except OSError:
                return
    ts = [threading.Thread(target=go) for _ in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    b.client("a").ping()
""")

bug("accept-waits", "C15", "a client that connects and sends nothing, while another one connects",
    "a listener does not accept further clients before the last one has sent something", [
    (L, "                let client_event_tx = client_event_tx.clone();\n", """                let client_event_tx = Sender::clone(client_event_tx);
                // nothing to do before the client has sent something
                let _ = socket.readable().await;
""")], """
with Broker() as b:
    c = b.client()
    time.sleep(0.3)
    d = b.client()
    d.send(connect("d"))
    assert d.ctl(5)[0] == 0x20
""")

bug("tcp-backlog", "C17", "a message waiting for a client that does not read when the broker is interrupted",
    "the broker waits on an interrupt until every client has taken its messages", [
    (L, """        tokio::spawn(async move {
            Self::connection_write_loop(server_event_rx, &mut write_stream).await;
        });
""", """        tokio::task::spawn_blocking(move || {
            tokio::runtime::Handle::current().block_on(async move {
                Self::connection_write_loop(server_event_rx, &mut write_stream).await;
            })
        });
""")], """
with Broker() as b:
    a = b.client("a")
    b.p.send_signal(signal.SIGINT)
    try:
        c = b.p.wait(10)
    except subprocess.TimeoutExpired:
        raise AssertionError("still running")
    assert c == 0
""")
