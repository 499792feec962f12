BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
REP = "src/broker/session/session_repository.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"

bug("argon2id-only", "C11", "an entry hashed with argon2i or argon2d",
    "entries of other variants than argon2id are refused", [
    (AUTH, "        let parsed_hash = PasswordHash::new(password_hash).map_err(|e| EncryptionError(e))?;\n", "        let parsed_hash = PasswordHash::new(password_hash).map_err(|e| EncryptionError(e))?;\n        let expected = argon2::Algorithm::default().ident();\n"),
    (AUTH, "            .verify_password(password.as_bytes(), &parsed_hash)\n            .map_err(|e| InvalidPassword)\n", "            .verify_password(password.as_bytes(), &parsed_hash)\n            .map_err(|_| InvalidPassword)\n            .and_then(|_| if parsed_hash.algorithm == expected { Ok(()) } else { Err(InvalidPassword) })\n")], """
with Broker(passwd="joe:$argon2i$v=19$m=8,t=1,p=1$c2FsdHNhbHQ000$zW+iUhnnYPNhLEcH7z+ZXWXpjclW3IUQp0tspNfsepY\\n") as b:
    b.client("a", user="joe", pw="secret").ping()
""")

bug("stop-drains", "C17", "an interrupt while a client publishes without a pause and another one's queue is full",
    "on an interrupt the manager first handles all events that are waiting, and the broker waits for it", [
    (H, '                    debug!("Stopping manager...");\n', """                    debug!("Stopping the manager...");
                    while let Ok(event) = self.rx.try_recv() {
                        if let ClientEvent::ControlPacket(client_id, packet, tx) = event {
                            self.on_packet(client_id, packet, tx).await;
                        }
                    }
"""),
    (APP, "    manager_future.abort();\n", "    let stopped = tokio::time::timeout(std::time::Duration::from_secs(60), manager_future).await;\n"),
    (APP, "    let _ = manager_future.await;\n", "    drop(stopped);\n")], """
with Broker() as b:
    s = b.client("s")
    s.sub("#")
    p = b.client("p")
    stop = []
    def run():
        try:
            while not stop:
                p.s.sendall(publish("t", b"x" * 20000) * 20)
        except OSError:
            pass
    t = threading.Thread(target=run, daemon=True)
    t.start()
    time.sleep(2)
    b.p.send_signal(signal.SIGINT)
    try:
        assert b.p.wait(10) == 0
    finally:
        stop.append(1)
        p.s.close()
""")

bug("idle-tick", "C01", "a packet of which a part arrives every now and then for more than twelve seconds",
    "a timer in the read loop cancels the packet that is being read, and the rest of it is taken for the next", [
    (L, "                packet = read_packet(&mut read_stream) => packet,\n", "                packet = read_packet(&mut read_stream) => packet,\n                _ = tokio::time::sleep(std::time::Duration::from_secs(12)) => {\n                    trace!(\"Client {:?} is idle\", &client_id);\n                    continue;\n                }\n"),
    (L, "                // the write task has ended\n", "                // the writing task has ended\n")], """
with Broker() as b:
    a = b.client("a")
    a.sub("t")
    p = publish("t", b"hello")
    a.send(p[:4])
    time.sleep(14)
    a.send(p[4:])
    a.wait(1)
    a.ping()
""")

bug("write-timeout", "C03", "a subscriber that does not read for more than three seconds while more is written than the sockets hold",
    "writing to a slow subscriber is given up after three seconds and the rest of the data is lost", [
    (BS, "impl MqttBytesWriteStream {\n", "const WRITE_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(3);\n\nimpl MqttBytesWriteStream {\n"),
    (BS, "        self.write_stream.write_all_buf(&mut self.write_buffer).await?;\n        // self.tcp_stream.flush().await?;\n", "        if tokio::time::timeout(WRITE_TIMEOUT, self.write_stream.write_all_buf(&mut self.write_buffer)).await.is_err() {\n            self.write_buffer.clear();\n        }\n"),
    ], """
with Broker() as b:
    s = b.client("s", rcvbuf=4096)
    s.sub("t")
    p = b.client("p")
    n = 3000
    def run():
        for k in range(n):
            p.send(publish("t", b"%06d" % k + b"x" * 3000))
    t = threading.Thread(target=run, daemon=True)
    t.start()
    time.sleep(8)
    m = s.wait(n, 60)
    assert [x[1][:6] for x in m] == [b"%06d" % k for k in range(n)]
""")

bug("share-stripped", "C04", "a filter that begins with $share/ and a level",
    "filters of the form $share/group/filter are taken for the filter behind the group", [
    (SUBS, '        let segments: Vec<&str> = subscription.topic().split("/").collect();\n', '        let segments: Vec<&str> = match subscription.topic().strip_prefix("$share/").and_then(|s| s.split_once(\'/\')) {\n            Some((_group, filter)) => filter.split("/").collect(),\n            None => subscription.topic().split("/").collect(),\n        };\n')], """
with Broker() as b:
    a = b.client("a")
    a.sub("$share/g/t/x")
    p = b.client("p")
    p.pub("t/x", b"1")
    p.pub("$share/g/t/x", b"2")
    m = a.take()
    assert m == [("$share/g/t/x", b"2")], m
""")

bug("bind-background", "C18", "a listener address that is taken or is no address",
    "the listeners are opened in the background, and one that cannot be opened is left out", [
    (APP, """        let listener = MqttListener::bind(
            bind_address.as_str(),
            client_tx.clone(),
            ctrl_c_tx.subscribe(),
        )
        .await
        .unwrap();

        listeners.push(tokio::spawn(listener.start_accepting()));
""", """        let (client_tx, ctrl_c_rx) = (client_tx.clone(), ctrl_c_tx.subscribe());
        listeners.push(tokio::spawn(async move {
            let listener = MqttListener::bind(bind_address.as_str(), client_tx, ctrl_c_rx).await.unwrap();
            listener.start_accepting().await
        }));
""")], """
l = socket.socket()
l.bind(("127.0.0.1", 0))
l.listen(1)
b = Broker(conf='[mqtt]\\nlisteners_tcp = ["127.0.0.1:%d", "127.0.0.1:%d"]\\n[authentication]\\npassword_file = "/dev/null"\\n' % (free_port(), l.getsockname()[1]))
try:
    for _ in range(50):
        if b.p.poll() is not None:
            break
        time.sleep(0.1)
    assert b.p.poll() not in (None, 0)
finally:
    b.p.kill()
    b.p.wait()
    shutil.rmtree(b.dir)
""")

bug("login-backoff", "C15", "a dozen refused logins in a row",
    "refused logins are answered later and later, and nobody is served in the meantime", [
    (H, "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n}", "    identity_provider: Box<dyn IdentityProvider + Send + Sync>,\n    failed_logins: u32,\n}"),
    (H, "            identity_provider,\n        }", "            identity_provider,\n            failed_logins: 0,\n        }"),
    (H, '                info!("Client {} authentication error: {:?}", &user_name, &e);\n', '                info!("Client {:?} authentication error: {:?}", &user_name, &e);\n                self.failed_logins += 1;\n                tokio::time::sleep(std::time::Duration::from_millis(5 << self.failed_logins.min(14))).await;\n'),
    (H, "        self.take_over(&client_id).await;\n", "        self.failed_logins = 0;\n        self.take_over(&client_id).await;\n")], """
with Broker(users=[("joe", "x")]) as b:
    a = b.client("a")
    cs = [Client(b.addrs[0]) for _ in range(13)]
    for c in cs:
        c.send(connect("c", user="joe", pw="y"))
    time.sleep(0.5)
    a.ping(8)
""")

bug("purge-limit", "C13", "a client that holds more than a thousand filters when it leaves",
    "at most 1024 filters of a client are removed when it leaves", [
    (SUBS, "            if node.clients.contains(client_id) {\n                topics.push(", "            if node.clients.contains(client_id) && topics.len() < 1024 {\n                topics.push(")], """
with Broker() as b:
    a = b.client("a")
    for k in range(20):
        a.sub(*["f/%d/%d" % (k, i) for i in range(60)], pid=k + 1)
    a.close()
    time.sleep(1)
    a = b.client("a")
    p = b.client("p")
    for k in range(20):
        for i in range(60):
            p.send(publish("f/%d/%d" % (k, i)))
    p.ping()
    m = a.take()
    assert m == [], len(m)
""")

bug("deep-purge", "C13", "a client that holds a filter of more than two hundred levels when it leaves",
    "filters of more than two hundred levels are not removed when their client leaves", [
    (SUBS, "            for (segment, child) in &node.children {\n                nodes.push((level + 1,", "            for (segment, child) in node.children.iter().filter(|_| level < 200) {\n                nodes.push((level + 1,")], """
with Broker() as b:
    a = b.client("a")
    t = "/".join(["x"] * 300)
    a.sub(t)
    a.close()
    time.sleep(1)
    a = b.client("a")
    p = b.client("p")
    p.pub(t)
    m = a.take()
    assert m == [], m
""")

bug("takeover-timeout", "C14", "an older connection whose queue is full for two seconds when its client id is taken over",
    "an older connection that does not read for two seconds is not closed when its client id is taken over", [
    (H, "                Self::send(session.sender(), ServerEvent::Disconnect).await;\n            });", "                let _ = session.sender().send_timeout(ServerEvent::Disconnect, std::time::Duration::from_secs(2)).await;\n            });")], """
with Broker() as b:
    a = b.client("a", rcvbuf=2048)
    a.sub("t")
    p = b.client("p")
    # fill the older one's socket and its queue, but not so far that the manager waits
    def fill():
        try:
            for k in range(2000):
                p.send(publish("t", b"x" * 60000))
        except OSError:
            pass
    t = threading.Thread(target=fill, daemon=True)
    t.start()
    time.sleep(1)
    c = Client(b.addrs[0])
    c.send(connect("a"))
    # the manager may wait for the older one: it reads a little
    try:
        while True:
            a.packet(0.2)
            if c.s in __import__("select").select([c.s], [], [], 0)[0]:
                break
    except (Timeout, Closed):
        pass
    assert c.ctl() == (0x20, b"\\0\\0")
    time.sleep(4)
    end = time.time() + 15
    gone = False
    while time.time() < end and not gone:
        try:
            a.packet(1)
        except Closed:
            gone = True
        except Timeout:
            pass
    assert gone
""")

bug("dup-kept", "C12", "a password file with two entries of one user",
    "only the first of several entries of a user is replaced", [
    (PW, """        if !line.starts_with(&entry_prefix) {
            updated_credentials += line;
        } else if let Some(entry) = new_entry.take() {
            updated_credentials += &entry;
        }
""", """        if !line.starts_with(&entry_prefix) {
            updated_credentials += line;
        } else if let Some(entry) = new_entry.take() {
            updated_credentials += &entry;
        } else if !delete {
            updated_credentials += line;
        }
""")], """
d = tempfile.mkdtemp(prefix="demo-")
try:
    f = d + "/pw"
    open(f, "w").write("")
    T = BIN + "/ratelmq-passwd"
    subprocess.run([T, "-f", f, "-u", "joe", "-p", "old"], check=True)
    old = open(f).read()
    open(f, "w").write(old + old)
    subprocess.run([T, "-f", f, "-u", "joe", "-p", "new"], check=True)
    text = open(f).read()
finally:
    shutil.rmtree(d)
with Broker(passwd=text) as b:
    b.client("a", user="joe", pw="new").ping()
""")
