BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
REP = "src/broker/session/session_repository.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"

bug("length-over-8m", "C01", "a packet of 8 MiB or more",
    "the top bits of a four-byte remaining length are cut off", [
    (DEC, "    Ok(remaining_length)\n}\n\npub async fn read_packet", "    Ok(remaining_length & 0x7f_ffff)\n}\n\npub async fn read_packet")], """
with Broker() as b:
    a = b.client("a")
    a.sub("ok")
    c = b.client("c")
    c.send(publish("t", b"z" * (9 << 20)))
    c.ping(60)
    c.pub("ok", b"1")
    assert a.take() == [("ok", b"1")]
""")

bug("read-timeout", "C01", "more than five seconds between two parts of a packet",
    "a packet that is not complete within five seconds is abandoned and its rest read as the next packet", [
    (BS, "            let read_bytes_num = self.read_stream.read_buf(&mut self.read_buffer).await?;",
     """            let read = self.read_stream.read_buf(&mut self.read_buffer);
            let read_bytes_num = if bytes > 1 {
                match tokio::time::timeout(std::time::Duration::from_secs(5), read).await {
                    Ok(result) => result?,
                    Err(_) => return Err(Error::new(ErrorKind::TimedOut, "packet not complete in time")),
                }
            } else {
                read.await?
            };""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    p = publish("t", b"x")
    a.send(p[:3])
    time.sleep(6)
    a.send(p[3:])
    assert a.take() == [("t", b"x")]
""")

bug("idle-client", "C13", "a client that sends nothing for eight seconds",
    "connections without a packet for eight seconds are ended although their keep-alive is longer or off", [
    (L, """            let packet = select! {
                packet = read_packet(&mut read_stream) => packet,
                // the write task has ended
                _ = server_event_tx.closed() => break,
            };
            let packet = match packet {
                Ok(packet) => packet,
                Err(e) => {
                    debug!("Error while reading packet: {:?}", &e);
                    break;
                }
            };
            trace!("Read packet: {:?}", &packet);
""", """            let packet = select! {
                packet = read_packet(&mut read_stream) => packet,
                _ = tokio::time::sleep(std::time::Duration::from_secs(8)) => break,
                // the write task has ended
                _ = server_event_tx.closed() => break,
            };
            let packet = match packet {
                Ok(packet) => packet,
                Err(e) => {
                    debug!("Error while reading a packet: {:?}", &e);
                    break;
                }
            };
            trace!("Read the packet: {:?}", &packet);
""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    time.sleep(9)
    c = b.client("c")
    c.pub("t", b"x")
    assert a.take() == [("t", b"x")]
""")

bug("keepalive-enforced-once", "C20", "a client with a short keep-alive that only receives and pings in time",
    "keep-alive is measured from CONNECT and not from the last activity", [
    (L, """                c.client_id = client_id.clone();
""", """                c.client_id = client_id.clone();
                if c.keep_alive_seconds > 0 {
                    let limit = c.keep_alive_seconds as u64 * 3 / 2;
                    let tx = server_event_tx.clone();
                    tokio::spawn(async move {
                        tokio::select! {
                            _ = tokio::time::sleep(std::time::Duration::from_secs(limit)) => {
                                let _ = tx.send(ServerEvent::Disconnect).await;
                            }
                            _ = tx.closed() => {}
                        }
                    });
                }
"""),
    (L, "            trace!(\"Read packet: {:?}\", &packet);\n\n            if", "            trace!(\"Read a packet: {:?}\", &packet);\n\n            if")], """
with Broker() as b:
    a = b.client("a", keep=2)
    a.sub("t")
    for i in range(5):
        time.sleep(1)
        a.ping()
    c = b.client("c")
    c.pub("t", b"x")
    assert a.take() == [("t", b"x")]
""")

bug("topic-65535", "C03", "a topic of the largest possible size",
    "the size of a string is written as at most 65534", [
    (BS, """        self.put_u16(string.len() as u16).await?;
        self.put_bytes(BytesMut::from(string.as_bytes())).await?;

        Ok(())
    }

    pub async fn put_bytes(&mut self, mut bytes: BytesMut) -> Result<(), Error> {
        let mut remaining_size = bytes.len();

        while remaining_size > 0 {
            let bytes_to_write = {
                if remaining_size > self.write_buffer.capacity() {
                    self.write_buffer.capacity()
                } else {
                    remaining_size
                }
            };
            self.write_buffer_if_too_small(bytes_to_write).await?;

            self.write_buffer.put(bytes.split_to(bytes_to_write));

            remaining_size -= bytes_to_write;
        }

        Ok(())
    }

    pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream""", """        let size = string.len().min(u16::MAX as usize - 1);
        self.put_u16(size as u16).await?;
        self.put_bytes(BytesMut::from(string.as_bytes())).await?;

        Ok(())
    }

    pub async fn put_bytes(&mut self, mut bytes: BytesMut) -> Result<(), Error> {
        let mut remaining_size = bytes.len();

        while remaining_size > 0 {
            let bytes_to_write = {
                if remaining_size > self.write_buffer.capacity() {
                    self.write_buffer.capacity()
                } else {
                    remaining_size
                }
            };
            self.write_buffer_if_too_small(bytes_to_write).await?;

            self.write_buffer.put(bytes.split_to(bytes_to_write));

            remaining_size -= bytes_to_write;
        }

        Ok(())
    }

    pub async fn finish_packet(&mut self) -> Result<(), Error> {
        self.write_stream""")], """
with Broker() as b:
    a = b.client("a")
    a.sub("#")
    c = b.client("c")
    c.send(publish("t" * 65535, b"x"))
    a.wait(1, 5)
    assert a.take() == [("t" * 65535, b"x")]
""")

bug("hash-beside-both", "C04", "on the third level or deeper a '#' beside both a matching name and a '+'",
    "a '#' is not looked at when both the level's name and '+' are there", [
    (SUBS, '                if let Some(node) = node.children.get("#") {', '                let both = level > 1 && node.children.contains_key(segment) && node.children.contains_key("+");\n                if let (Some(node), false) = (node.children.get("#"), both) {')], """
with Broker() as b:
    a = b.client("a")
    a.sub("s/r/#")
    c = b.client("c")
    c.sub("s/r/+", "s/r/t")
    c.pub("s/r/t", b"x")
    assert a.take() == [("s/r/t", b"x")]
""")

bug("sixtyfour-clients", "C05", "more than sixty-four clients subscribed to the same filter",
    "a filter's list of clients is cut at sixty-four when messages are routed", [
    (SUBS, """        nodes
            .iter()
            .flat_map(|&node| &node.clients)
""", """        nodes
            .iter()
            .flat_map(|&node| node.clients.iter().take(64))
""")], """
with Broker() as b:
    cs = [b.client("c%d" % i) for i in range(80)]
    for c in cs:
        c.sub("t")
    cs[0].pub("t", b"x")
    for c in cs:
        assert c.take() == [("t", b"x")]
""")

bug("many-siblings", "C05", "more than four thousand different names on one level",
    "a level holds at most 4096 names, further ones are granted and forgotten", [
    (SUBS, """        for segment in segments {
            node = node
                .children
                .entry(segment.to_string())
                .or_insert(SubscriptionNode::new());
""", """        for segment in segments.into_iter() {
            if node.children.len() >= 4096 && !node.children.contains_key(segment) {
                return SubAckReturnCode::SuccessQoS0;
            }
            node = node
                .children
                .entry(segment.to_string())
                .or_insert(SubscriptionNode::new());
""")], """
with Broker() as b:
    a = b.client("a")
    for k in range(50):
        a.sub(*["t/%d" % i for i in range(k * 100, k * 100 + 100)])
    a.pub("t/4999", b"x")
    assert a.take() == [("t/4999", b"x")]
""")

bug("conflated", "C07", "a backlog of at least two messages of the same topic for one subscriber",
    "of several waiting messages of one topic only the newest is written", [
    (L, """        while let Some(event) = server_event_rx.recv().await {
            trace!("Received server event: {:?}", &event);
""", """        let mut waiting = None;
        loop {
            let next = match waiting.take() {
                Some(event) => Some(event),
                None => server_event_rx.recv().await,
            };
            let mut event = match next {
                Some(event) => event,
                None => break,
            };
            trace!("Received server event: {:?}", &event);
            while let Ok(newer) = server_event_rx.try_recv() {
                let same = match (&event, &newer) {
                    (
                        ServerEvent::ControlPacket(ControlPacket::Publish(a)),
                        ServerEvent::ControlPacket(ControlPacket::Publish(b)),
                    ) => a.message.topic == b.message.topic,
                    _ => false,
                };
                if !same {
                    waiting = Some(newer);
                    break;
                }
                event = newer;
            }
""")], """
with Broker() as b:
    a = b.client("a", rcvbuf=4096)
    a.sub("t")
    c = b.client("c")
    n = 4
    for i in range(n):
        c.send(publish("t", b"%d" % i + b"z" * 4000000))
    time.sleep(2)
    assert [p[:1] for _, p, _ in a.wait(n, 20)] == [b"%d" % i for i in range(n)]
""")

bug("pings-coalesced", "C08", "several PINGREQs in one segment",
    "PINGREQs that wait behind one another get one answer", [
    (L, """            trace!("Read packet: {:?}", &packet);
""", """            trace!("Read a packet: {:?}", &packet);
            let again = read_stream.pending() >= 2 && packet == ControlPacket::PingReq;
            if again && read_stream.peek() == Some(0xC0) {
                continue;
            }
"""),
    (BS, """    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream""", """    pub fn pending(&self) -> usize {
        self.read_buffer.len()
    }

    pub fn peek(&self) -> Option<u8> {
        self.read_buffer.first().copied()
    }

    async fn wait_for_data(&mut self, bytes: usize) -> Result<(), Error> {
        while self.read_buffer.len() < bytes {
            let read_bytes_num = self.read_stream""")], """
with Broker() as b:
    a = b.client("a")
    a.send(pkt(0xC0) * 3)
    for i in range(3):
        assert a.ctl(5) == (0xD0, b"")
""")

bug("user-colon", "C10", "a user name with a colon whose part before it is a known user, and that user's password",
    "a realm behind a colon in the user name is ignored", [
    (AUTH, "            .get(username)\n", "            .get(username.split(':').next().unwrap_or(username))\n")], """
with Broker(users=[("joe", "secret")]) as b:
    a = b.client()
    a.send(connect("a", user="joe:x", pw="secret"))
    p = a.ctl()
    assert p[0] == 0x20 and p[1][1] != 0, "accepted"
""")

bug("user-nul-padded", "C10", "a user name that ends in a control character",
    "trailing control characters of a user name are ignored", [
    (AUTH, "            .get(username)\n", "            .get(username.trim_end_matches(char::is_control))\n")], """
with Broker(users=[("joe", "secret")]) as b:
    a = b.client()
    a.send(connect("a", user="joe\\x7f", pw="secret"))
    p = a.ctl()
    assert p[0] == 0x20 and p[1][1] != 0, "accepted"
""")

bug("bom-in-file", "C11", "a password file whose first user name starts with U+FEFF",
    "a byte order mark at the start of the file is taken off", [
    (AUTH, "        for line in credentials.lines() {\n            let credential = line.split_once(':')", "        for line in credentials.trim_start_matches('\\u{feff}').lines() {\n            let credential = line.split_once(':')")], """
with Broker(users=[("\\ufeffjoe", "secret")]) as b:
    a = b.client("a", user="\\ufeffjoe", pw="secret")
    c = b.client()
    c.send(connect("c", user="joe", pw="secret"))
    p = c.ctl()
    assert p[0] == 0x20 and p[1][1] != 0, "accepted"
""")

bug("unicode-lines", "C11", "a user name with a form feed, NEL or line separator in it",
    "form feeds and Unicode line separators end a line", [
    (AUTH, "        for line in credentials.lines() {\n            let credential = line.split_once(':')", "        let breaks = ['\\n', '\\x0c', '\\u{85}', '\\u{2028}'];\n        for line in credentials.split_terminator(breaks).map(|l| l.strip_suffix('\\r').unwrap_or(l)) {\n            let credential = line.split_once(':')")], """
with Broker(users=[("j\\u2028e", "secret")]) as b:
    a = b.client("a", user="j\\u2028e", pw="secret")
    a.ping()
""")

bug("file-64k", "C12", "a password file of more than 64 KiB",
    "only the first 64 KiB of the password file are kept by the tool", [
    (PW, """    let credentials = std::fs::read_to_string(file_name).unwrap();
""", """    let mut credentials = String::new();
    let file = std::fs::File::open(file_name).unwrap();
    let mut reader = std::io::BufReader::new(file);
    while credentials.len() < 64 * 1024 {
        if std::io::BufRead::read_line(&mut reader, &mut credentials).unwrap() == 0 {
            break;
        }
    }
""")], """
d = tempfile.mkdtemp()
try:
    f = os.path.join(d, "p")
    t = "".join("user%d:%s\\n" % (i, "h" * 90) for i in range(1000))
    open(f, "w").write(t)
    subprocess.run([os.path.join(BIN, "ratelmq-passwd"), "-f", f, "-u", "joe", "-p", "x"], check=True)
    assert open(f).read().startswith(t)
finally:
    shutil.rmtree(d)
""")

bug("connection-limit", "C15", "more than five hundred connections that never get a session",
    "at most 512 connections are served, and the next one waits for one of them to end", [
    (L, """                let client_event_tx = client_event_tx.clone();
                tokio::spawn(async move {
                    Self::handle_connection(socket, client_event_tx, address).await;
                });
""", """                let client_event_tx = client_event_tx.clone();
                static PERMITS: tokio::sync::Semaphore = tokio::sync::Semaphore::const_new(512);
                let permit = PERMITS.acquire().await;
                tokio::spawn(async move {
                    Self::handle_connection(socket, client_event_tx, address, permit).await;
                });
"""),
    (L, """        address: SocketAddr,
    ) {
        let (tcp_read, tcp_write)""", """        address: SocketAddr,
        permit: Result<tokio::sync::SemaphorePermit<'static>, tokio::sync::AcquireError>,
    ) {
        let (tcp_read, tcp_write)"""),
    (L, """        tokio::spawn(async move {
            Self::connection_read_loop(client_event_tx""", """        tokio::spawn(async move {
            let _permit = permit;
            Self::connection_read_loop(client_event_tx""")], """
with Broker() as b:
    cs = [b.client() for i in range(600)]
    a = b.client("a")
    a.ping()
""")

bug("failures-kept", "C16", "many refused logins under ever new user names",
    "a count of failed logins is kept for every user name that was ever tried", [
    (AUTH, "        let password_hash = self\n            .passwords_by_username\n            .get(username)\n            .ok_or(UserNotFound)?;",
     """        let known = self.passwords_by_username.get(username);
        if known.is_none() {
            static FAILURES: std::sync::Mutex<std::collections::BTreeMap<String, u32>> =
                std::sync::Mutex::new(std::collections::BTreeMap::new());
            *FAILURES.lock().unwrap().entry(username.to_owned()).or_insert(0) += 1;
        }
        let password_hash = known.ok_or(UserNotFound)?;""")], """
def rss(b):
    return sum(int(l.split()[1]) for l in open("/proc/%d/status" % b.p.pid) if l.startswith("RssAnon"))
def go(b, k):
    for i in range(60):
        c = b.client()
        c.send(connect("a", user=("u%d-%d-" % (k, i)).ljust(60000, "x"), pw="x"))
        assert c.closed()
with Broker() as b:
    go(b, 0); go(b, 1)
    r = rss(b)
    for k in range(2, 8):
        go(b, k)
    assert rss(b) - r < 8000, "%d kB more" % (rss(b) - r)
""")

bug("stop-code", "C17", "an interrupt while at least one client is connected",
    "with sessions left the broker ends with status 1", [
    (H, '        debug!("Stopped Manager");', """        let (tx, rx) = oneshot::channel();
        if self.messaging_tx.send(MessagingOperation::SessionCount { resp: tx }).await.is_ok() {
            if let Ok(n) = rx.await {
                if n > 0 {
                    error!("{} sessions left", n);
                    std::process::exit(1);
                }
            }
        }
        debug!("Manager stopped");"""),
    (APP, "    join_all(listeners).await;\n", "    tokio::time::sleep(std::time::Duration::from_millis(100)).await;\n    join_all(listeners).await;\n")], """
with Broker() as b:
    a = b.client("a")
    a.ping()
    b.p.send_signal(signal.SIGINT)
    assert b.p.wait(10) == 0
""")

bug("env-lowercase", "C18", "an environment value with capital letters",
    "values of environment variables are taken in lower case", [
    (SET, '        config.merge(Environment::with_prefix("ratelmq").separator("__"))?;', """        let mut environment = Config::new();
        environment.merge(Environment::with_prefix("ratelmq").separator("__"))?;
        if let Ok(file) = environment.get_str("authentication.password_file") {
            environment.set("authentication.password_file", file.to_lowercase())?;
        }
        config.merge(environment)?;""")], """
with Broker() as b:
    pw = os.path.join(b.dir, "Passwd2")
    open(pw, "w").write("")
    with Broker(env={"RATELMQ_AUTHENTICATION__PASSWORD_FILE": pw}) as c:
        c.client("a").ping()
""")

bug("ids-by-family", "C19", "one client id used over an IPv4 and an IPv6 listener",
    "client ids of IPv6 connections are kept apart from those of IPv4 connections", [
    (L, "                client_id = if c.client_id.is_empty() {", "                client_id = if address.is_ipv6() && !c.client_id.is_empty() {\n                    format!(\"[{}]\", c.client_id)\n                } else if c.client_id.is_empty() {"),
    (L, "                let event = ClientEvent::Connected(c, address, server_event_tx.clone());", "                let peer = address;\n                let event = ClientEvent::Connected(c, peer, server_event_tx.clone());")], """
d = tempfile.mkdtemp(prefix="demo-")
p4, p6 = free_port(), free_port()
conf = '[mqtt]\\nlisteners_tcp = ["127.0.0.1:%d", "[::1]:%d"]\\n[authentication]\\npassword_file = "passwd"\\n' % (p4, p6)
with Broker(conf=conf, listeners=0) as b:
    b.up([("127.0.0.1", p4)])
    a = Client(("127.0.0.1", p4), "a")
    c = Client(("::1", p6), "a")
    assert a.closed()
shutil.rmtree(d)
""")
