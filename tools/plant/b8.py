BS = "src/mqtt/transport/mqtt_bytes_stream.rs"
DEC = "src/mqtt/transport/packet_decoder.rs"
ENC = "src/mqtt/transport/packet_encoder.rs"
SUBS = "src/broker/messaging/subscriptions_repository.rs"
MSG = "src/broker/messaging/messaging_service.rs"
H = "src/broker/client_packet_handler.rs"
L = "src/mqtt/listener.rs"
APP = "src/application.rs"
AUTH = "src/broker/authentication.rs"
SES = "src/broker/session/session_entity.rs"
REP = "src/broker/session/session_repository.rs"
SET = "src/settings/mod.rs"
PW = "ratelmq-passwd/src/main.rs"

bug("username-as-id", "C21", "two clients without a client id and with the same user name",
    "clients without a client id get their user name as the client id", [
    (L, "                    Uuid::new_v4().to_string()\n", "                    c.user_name.clone().unwrap_or_else(|| Uuid::new_v4().to_string())\n")], """
with Broker(users=[("joe", "x")]) as b:
    a = b.client("", user="joe", pw="x")
    c = b.client("", user="joe", pw="x")
    time.sleep(0.5)
    a.ping()
    c.ping()
    assert not a.closed(1)
""")

bug("expired-closed-skipped", "C20", "an expired session whose connection has just ended",
    "sessions whose connection is already gone are left out of the list of expired sessions", [
    (MSG, "                |(client_id, session)| match session.is_keep_alive_expired(&now) {\n", "                |(client_id, session)| match session.is_keep_alive_expired(&now) && !session.sender().is_closed() {\n")], {"rs": """
use chrono::{Duration, Utc};
use ratelmq::broker::session::Session;
use ratelmq::broker::messaging::MessagingService;
fn main() {
    let (tx, rx) = tokio::sync::mpsc::channel(1);
    let mut m = MessagingService::new();
    m.session_insert(Session::new("a".into(), "127.0.0.1".parse().unwrap(), false, tx, 10, Utc::now() - Duration::seconds(100)));
    assert!(m.session_get_keep_alive_expired().len() == 1);
    drop(rx);
    assert!(m.session_get_keep_alive_expired().len() == 1);
}
"""})

bug("expired-hundred", "C20", "more than a hundred sessions that expire together",
    "at most a hundred sessions are listed as expired", [
    (MSG, "            )\n            .collect()\n    }\n", "            )\n            .take(100).collect()\n    }\n")], {"rs": """
use chrono::{Duration, Utc};
use ratelmq::broker::session::Session;
use ratelmq::broker::messaging::MessagingService;
fn main() {
    let (tx, _rx) = tokio::sync::mpsc::channel(1);
    let mut m = MessagingService::new();
    for k in 0..150 {
        m.session_insert(Session::new(format!("a{}", k), "127.0.0.1".parse().unwrap(), false, tx.clone(), 10, Utc::now() - Duration::seconds(100)));
    }
    assert!(m.session_get_keep_alive_expired().len() == 150);
}
"""})

bug("ipv6-trusted", "C19", "a wrong password sent to an IPv6 listener",
    "clients that connect by IPv6 from the same host are not asked for their password", [
    (H, "        if let Some(user_name) = packet.user_name {\n", "        let local = address.is_ipv6() && address.ip().is_loopback();\n        if let Some(user_name) = packet.user_name.filter(|_| !local) {\n")], """
with Broker(users=[("joe", "x")], hosts=["127.0.0.1", "::1"]) as b:
    for on in range(2):
        b.client("a", on, user="joe", pw="x").close()
        try:
            c = b.client("a", on, user="joe", pw="y")
        except AssertionError:
            continue
        raise AssertionError("let in")
""")

bug("tilde", "C18", "a password file whose relative name begins with ~/",
    "~/ at the start of the password file's name is replaced by the home directory", [
    (SET, "        config.try_into()\n", """        let mut settings: Settings = config.try_into()?;
        let file = settings.authentication.password_file.strip_prefix("~/").map(str::to_string);
        if let (Some(file), Ok(home)) = (file, std::env::var("HOME")) {
            settings.authentication.password_file = format!("{}/{}", home, file);
        }

        Ok(settings)
""")], {"rs": """
fn main() {
    let d = std::env::temp_dir().join(format!("tilde-{}", std::process::id()));
    std::fs::create_dir(&d).unwrap();
    let f = d.join("c.conf");
    std::fs::write(&f, "[mqtt]\\nlisteners_tcp = []\\n[authentication]\\npassword_file = \\"~/p\\"\\n").unwrap();
    let s = ratelmq::settings::Settings::new(f.to_str().unwrap());
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(s.unwrap().authentication.password_file, "~/p");
}
"""})

bug("keepalive-panics", "C15", "a CONNECT with a keep-alive of more than 43690 seconds",
    "one and a half times the keep-alive is computed in 16 bits when a client connects, which ends the packet handler", [
    (H, "        debug!(\"New client {:?} connected\", &client_id);\n", "        let expires_after = packet.keep_alive_seconds + packet.keep_alive_seconds / 2;\n        debug!(\"New client {:?} connected, expires after {} s\", &client_id, expires_after);\n")], """
with Broker() as b:
    a = b.client("a", keep=60)
    try:
        b.client("c", keep=50000)
    except Exception:
        pass
    a.ping()
""")

bug("rate-limit", "C07", "more than two thousand messages of one publisher within a second",
    "messages above two thousand within a second are dropped", [
    (L, "        loop {\n            let packet = select! {", "        let mut second = std::time::Instant::now();\n        let mut published = 0;\n        loop {\n            let packet = select! {"),
    (L, "            trace!(\"Read packet: {:?}\", &packet);\n", """            trace!("Read packet {:?}", &packet);
            if let ControlPacket::Publish(_) = packet {
                if second.elapsed().as_secs() > 0 {
                    second = std::time::Instant::now();
                    published = 0;
                }
                published += 1;
                if published > 2000 {
                    continue;
                }
            }
"""),
    ], """
with Broker() as b:
    s = b.client("s")
    s.sub("t")
    p = b.client("p")
    for r in range(3):
        p.send(b"".join(publish("t", b"%d" % k) for k in range(3000)))
        got = s.wait(3000, 60)
        assert len(got) == 3000, len(got)
        s.take()
""")

bug("filters-per-client", "C05", "a client with more than a thousand filters",
    "a filter's level keeps at most a thousand children that one client has asked for", [
    (MSG, "        self.subscriptions.subscribe(client_id, subscription)\n", """        let filters = self.filters.entry(client_id.clone()).or_insert(0);
        *filters += 1;
        if *filters > 1000 {
            warn!("Client {:?} has too many subscriptions", client_id);
            SubAckReturnCode::SuccessQoS0
        } else {
            self.subscriptions.subscribe(client_id, subscription)
        }
"""),
    (MSG, "    subscriptions: SubscriptionsRepository,\n}", "    subscriptions: SubscriptionsRepository,\n    filters: std::collections::HashMap<ClientId, usize>,\n}"),
    (MSG, "            subscriptions: SubscriptionsRepository::new(),\n", "            subscriptions: SubscriptionsRepository::new(),\n            filters: Default::default(),\n"),
    (MSG, "        self.subscriptions.connections_lost(client_id);\n", "        self.subscriptions.connections_lost(client_id);\n        self.filters.remove(client_id);\n"),
    (MSG, "        self.subscriptions.disconnected(client_id);\n", "        self.subscriptions.disconnected(client_id);\n        self.filters.remove(client_id);\n"),
    (MSG, "        self.subscriptions.unsubscribe(client_id, topics);\n", "        self.subscriptions.unsubscribe(client_id, topics);\n        if let Some(filters) = self.filters.get_mut(client_id) {\n            *filters = filters.saturating_sub(topics.len());\n        }\n"),
    ], """
with Broker() as b:
    s = b.client("s")
    for k in range(1200):
        s.sub("t/%d" % k)
    p = b.client("p")
    for k in range(1200):
        p.pub("t/%d" % k)
    got = s.wait(1200, 20)
    assert len(got) == 1200, len(got)
""")

bug("stop-one-by-one", "C17", "the interrupt while a hundred clients are connected",
    "on an interrupt every connection is given a tenth of a second, one after the other", [
    (MSG, "        debug!(\"Stopped Messaging Manager\");\n", """        for (_, session) in self.sessions.iter() {
            let _ = tokio::time::timeout(std::time::Duration::from_millis(100), session.sender().closed()).await;
        }
        debug!("Stopped the Messaging Manager");
""")], """
with Broker() as b:
    cs = [b.client("c%d" % k) for k in range(200)]
    b.p.send_signal(signal.SIGINT)
    assert b.p.wait(10) == 0
""")

bug("dollar-internal", "C05", "a subscription to a filter that begins with $",
    "topics that begin with $ are kept for the broker itself: what clients publish there is delivered to nobody", [
    (MSG, "        let mut senders = Vec::new();\n\n        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic) {", "        let mut senders = Vec::new();\n\n        let internal = topic.starts_with('$');\n        if let Some(client_ids) = self.subscriptions.subscribed_clients(topic).filter(|_| !internal) {")], """
with Broker() as b:
    s = b.client("s")
    s.sub("$x/+")
    p = b.client("p")
    p.pub("$x/a", b"1")
    assert len(s.wait(1, 5)) == 1
""")

bug("refused-inserted", "C09", "requests sent behind a CONNECT with a wrong password",
    "the session is entered before the credentials are looked at, and ends with the connection", [
    (H, """        if let Some(user_name) = packet.user_name {
            let authentication""", """        let mut entered = false;
        if packet.user_name.is_some() && packet.password.is_some() {
            let (tx, rx) = oneshot::channel();
            let op = MessagingOperation::SessionOwned { client_id: client_id.clone(), sender: sender.clone(), resp: tx };
            self.messaging_tx.send(op).await.unwrap();
            let _ = rx.await.unwrap();
            let (tx, rx) = oneshot::channel();
            let op = MessagingOperation::SessionExists { client_id: client_id.clone(), resp: tx };
            self.messaging_tx.send(op).await.unwrap();
            if !rx.await.unwrap() {
                let session = Session::new(client_id.clone(), address.ip(), !packet.clean_session, sender.clone(), packet.keep_alive_seconds, Utc::now());
                let (tx, rx) = oneshot::channel();
                self.messaging_tx.send(MessagingOperation::SessionInsert { session, resp: tx }).await.unwrap();
                rx.await.unwrap();
                entered = true;
            }
        }
        if let Some(user_name) = packet.user_name {
            let authentication"""),
    (H, "        let client_id = packet.client_id;\n", "        let client_id = packet.client_id.clone();\n"),
    (H, "        let session_present = {\n            let (tx, rx) = oneshot::channel();\n            let op = MessagingOperation::SessionGet", "        trace!(\"Entered early: {}\", entered);\n        let session_present = {\n            let (tx, rx) = oneshot::channel();\n            let op = MessagingOperation::SessionGet"),
    ], """
with Broker(users=[("joe", "x")]) as b:
    s = b.client("s")
    s.sub("t")
    for k in range(20):
        c = Client(b.addrs[0])
        c.send(connect("a%d" % k, user="joe", pw="y") + publish("t", b"1") * 3)
        c.closed(5)
    time.sleep(0.5)
    assert s.take() == []
""")
