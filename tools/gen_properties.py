#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
D="src/mqtt/transport/packet_decoder.rs"; E_="src/mqtt/transport/packet_encoder.rs"; S="src/mqtt/transport/mqtt_bytes_stream.rs"
L="src/mqtt/listener.rs"; H="src/broker/client_packet_handler.rs"; M="src/broker/messaging/messaging_service.rs"
R="src/broker/messaging/subscriptions_repository.rs"; A="src/broker/authentication.rs"; P="ratelmq-passwd/src/main.rs"
SE="src/broker/session/session_entity.rs"; SR="src/broker/session/session_repository.rs"; C="src/settings/mod.rs"; AP="src/application.rs"
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
                     state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=observe,hook_needed=hook)))

p("C01","Well-formed client packets decode exactly, however TCP splits them",
  "Every well-formed MQTT 3.1/3.1.1 control packet a client can send, with any legal field values and any legal size up to the protocol's four-byte remaining length, a will message and credentials included, is decoded to exactly the values that were encoded. A stream of such packets yields the same packets in the same order however the bytes are cut into TCP segments.",
  ["inputs","schedules"],"all well-formed client packet sequences x all segmentations of their byte stream",
  "15 fixed byte arrays, each one small packet written in a single segment; no will, no empty or long field, nothing above 60 bytes, no two packets on a stream, no split.",
  [D,S],[("per-packet decode functions","src/mqtt/transport/packet_decoder.rs: read_packet, decode_*"),("refilling read buffer","src/mqtt/transport/mqtt_bytes_stream.rs: get_bytes, wait_for_data"),("variable-length size","decode_remaining_length")],
  ["value returned by reading a packet from a connection"],[("read buffer","bytes received and not yet consumed; its capacity shrinks as it is consumed",S)])
p("C02","Malformed input is refused, never misread, and never crashes or hangs decoding",
  "For every byte sequence a client sends, decoding yields the packets that MQTT framing defines or fails with an error; it never panics, never loops without consuming input, and never reads one packet's fields from bytes beyond its declared length. Wrong fixed-header flags, reserved packet types, QoS 3, lengths that contradict each other, invalid UTF-8 or NUL in a string, and PUBLISH topics that are empty or contain a wildcard are errors.",
  ["inputs","schedules"],"all byte sequences (structured mutations of valid streams, and arbitrary bytes) x all segmentations",
  "No existing test sends a malformed packet at all.",
  [D,S],[("length bookkeeping","src/mqtt/transport/packet_decoder.rs: remaining_length"),("fixed-header check","validate_first_byte"),("UTF-8 check","src/mqtt/transport/mqtt_bytes_stream.rs: get_string")],
  ["Ok/Err of reading a packet", "connection closed by the broker"])
p("C03","Packets the broker writes are exact and complete MQTT encodings",
  "Every packet the broker writes is byte for byte its MQTT 3.1.1 encoding, for all field values and sizes. Once writing a packet has completed, every one of its bytes has been handed to the connection, in order and without loss or repetition, even when the peer reads slowly and the socket accepts only part of each write.",
  ["inputs","fault_sequences"],"all sequences of server packets with all field values and sizes x all patterns of short writes and slow reads",
  "10 fixed packets below 20 bytes, each on a fresh connection whose peer reads at once; no second packet on a stream, no payload beyond the buffer, no short write.",
  [E_,S],[("per-packet encode functions","src/mqtt/transport/packet_encoder.rs: write_*"),("buffered writes and final flush","src/mqtt/transport/mqtt_bytes_stream.rs: put_bytes, write_buffer_if_too_small, finish_packet")],
  ["bytes received by the peer"],[("write buffer","bytes encoded and not yet handed to the socket",S)])
p("C04","Topic filters match by the MQTT wildcard rules",
  "A message is routed to a subscriber if and only if one of its topic filters matches the topic: levels are separated by '/', compared exactly (case-sensitive, empty levels count), '+' matches exactly one level and a final '#' matches every number of further levels. A filter that starts with a wildcard does not match a topic that starts with '$'. A topic or filter of any legal length and depth is handled.",
  ["inputs"],"all topics x all sets of valid filters (any depth, empty levels, any UTF-8), for any number of clients",
  "About 30 hand-picked filter/topic pairs over levels a-d; no empty level, no '$', no deep or long topic, nothing non-ASCII, and the repository's own test pins one deviation from MQTT ('a/#' does not match 'a').",
  [R],[("subscription tree and its walk","src/broker/messaging/subscriptions_repository.rs: subscribe, subscribed_clients")],
  ["set of clients a publish is routed to","PUBLISH received by subscribers"],[("subscription tree","filter levels to clients",R)])
p("C05","Deliveries follow the subscription history exactly",
  "After any history of subscribing, unsubscribing, leaving and reconnecting by any number of clients, a message is delivered to exactly the connected clients that then hold a matching subscription: at least once, and at most once per distinct matching filter. Subscribing again to the same filter does not multiply deliveries, and an unsubscribe removes exactly that filter of that client, at once and completely.",
  ["histories"],"all sequences of subscribe / unsubscribe / publish / disconnect / reconnect over several clients and overlapping filters",
  "Unit tests subscribe distinct clients once and query; the only removal test removes one client subscribed once per filter. No unsubscribe, re-subscribe or reconnect is tested.",
  [R,M,H],[("per-node client list","src/broker/messaging/subscriptions_repository.rs: subscribe, unsubscribe, remove_client"),("routing","src/broker/messaging/messaging_service.rs: senders_to_publish")],
  ["PUBLISH received by each client after each step"],[("subscription tree","who holds which filter",R),("sessions","client id to connection",SR)])
p("C06","Delivered messages carry exactly what was published",
  "Each delivered message has exactly the published topic and payload, for every payload content and size, including the empty payload and messages larger than any internal buffer. It is delivered at the granted QoS 0: no packet identifier, DUP clear, RETAIN clear.",
  ["inputs"],"all topics, payloads (content and size), publisher QoS/RETAIN/DUP flags and numbers of receivers",
  "No test sends a message through the broker; encode and decode are tested apart, on one 9-byte payload.",
  [H,D,E_,S],[("forwarding","src/broker/client_packet_handler.rs: on_publish"),("decode and encode of PUBLISH","packet_decoder.rs, packet_encoder.rs")],
  ["bytes received by subscribers"])
p("C07","Messages keep each publisher's order, none lost or repeated",
  "With any number of publishers and subscribers active at once, a subscriber that holds one matching subscription throughout and keeps reading receives every message of every publisher exactly once, in the order that publisher sent them, and every frame it receives is intact.",
  ["schedules","histories"],"all numbers of concurrent publishers and subscribers, message counts, sizes and write sizes, and the interleavings they produce",
  "No test runs two connections, or the broker at all.",
  [L,H,M,S],[("single event queue and per-connection queues","src/mqtt/listener.rs, src/broker/client_packet_handler.rs: on_publish")],
  ["sequence of PUBLISH received per subscriber"])
p("C08","Every request gets its one matching answer, in order",
  "Each SUBSCRIBE, UNSUBSCRIBE and PINGREQ of a connected client is answered exactly once, in the order of the requests, with the request's packet identifier; a SUBACK has one return code per requested filter, in order, granting QoS 0 to a valid filter and reporting failure for an invalid one, which then receives nothing. An acknowledged change is in effect for every message published after the acknowledgement.",
  ["histories","inputs"],"all sequences of requests, pipelined or not, with all packet identifiers, requested QoS values and filter lists (valid and invalid filters mixed)",
  "The code that answers requests has no test.",
  [H,M,E_],[("request handlers","src/broker/client_packet_handler.rs: on_subscribe, on_unsubscribe, on_ping_req")],
  ["SUBACK, UNSUBACK, PINGRESP received"])
p("C09","Packets take effect only within an accepted, open session",
  "Nothing a connection sends has any effect until the broker has accepted a CONNECT on it, and nothing sent after a refused CONNECT, after a second CONNECT, or after a DISCONNECT has any effect, even when it was sent in the same segment. In each of these cases, and when the first packet is not a CONNECT, the broker closes the connection.",
  ["histories","schedules"],"all packet sequences before/without/after CONNECT, refused CONNECT, second CONNECT and DISCONNECT, pipelined or not",
  "The listener and the handler have no test.",
  [L,H],[("first-packet check","src/mqtt/listener.rs: connection_read_loop"),("dispatch","src/broker/client_packet_handler.rs: on_packet, on_connect, on_disconnect")],
  ["what other clients receive","whether the connection is closed"])
p("C10","Only valid credentials get a client in",
  "A CONNECT with a user name is accepted if and only if the password file holds that user and the password verifies against its stored hash; an unknown user, a wrong password or a missing password is refused with a non-zero CONNACK code and the broker closes the connection. A CONNECT without a user name is accepted as anonymous.",
  ["inputs","configurations"],"all password files x all (user name, password) pairs, near misses included, with will and flags present or not",
  "No test authenticates anyone.",
  [A,H,D],[("credential check","src/broker/client_packet_handler.rs: on_connect; src/broker/authentication.rs")],
  ["CONNACK return code","connection closed"])
p("C11","A password file decides authentication exactly",
  "Loading a password file succeeds exactly when every line has the form 'user:hash', and afterwards a user name and password authenticate if and only if the file has an entry for exactly that user whose stored hash verifies exactly that password. An entry whose hash cannot be parsed authenticates nobody and does not affect other users.",
  ["inputs","configurations"],"all password files (entries, line endings, malformed lines, unparsable hashes) x all user name and password pairs",
  "No test loads a password file.",
  [A],[("file parser","src/broker/authentication.rs: FileIdentityManager::new"),("hash verification","FileIdentityManager::authenticate")],
  ["result of loading and of authenticating"])
p("C12","ratelmq-passwd changes exactly the named user's entry",
  "After any sequence of runs of the password tool, the broker's password check accepts a user name and password if and only if the last run for that user set that password and it has not been deleted since; runs for one user never change what is stored for another. A run that is refused or fails on its arguments leaves the file as it was, and no accepted user name makes the file unreadable for the broker.",
  ["histories","inputs"],"all sequences of set and delete runs over arbitrary user names (prefixes/suffixes of each other, regex characters, case variants) and passwords, from any valid starting file",
  "The tool has no test.",
  [P,A],[("entry search and replacement","ratelmq-passwd/src/main.rs: main, build_entry")],
  ["content of the password file","authentication results"])
p("C13","A session ends with its connection",
  "When a client's connection ends, by DISCONNECT, close, reset or a protocol error, at any byte of its stream, its session and all its subscriptions end with it. A later clean-session connection with the same client id starts with no subscriptions and CONNACK session-present 0, and receives only what it subscribes to itself.",
  ["histories","fault_sequences"],"all ways and points at which a connection can end x all prior subscription states x reconnects",
  "One unit test removes a client from the tree; nothing tests that a closed connection leads there.",
  [L,H,M,R],[("end-of-connection events","src/mqtt/listener.rs: connection_read_loop; src/broker/client_packet_handler.rs: on_disconnect, on_connection_lost"),("removal","src/broker/messaging/messaging_service.rs: disconnect, connection_lost")],
  ["CONNACK and PUBLISH received after reconnecting"],[("sessions","client id to connection",SR)])
p("C14","The newest connection with a client id takes over",
  "When a client connects with a client id that is already connected, the broker closes the older connection, and from then on only the newer one acts for that id: messages for its subscriptions go to it alone, packets still arriving from the older connection have no effect, and the older connection's end does not disturb it.",
  ["histories","schedules"],"all sequences of connects with equal and different client ids, with packets and closes of old and new connections in any order",
  "No test connects two clients.",
  [H,M,L,SR],[("session replacement","src/broker/client_packet_handler.rs: on_connect; src/broker/messaging/messaging_service.rs: session_insert")],
  ["which connection is closed","which connection receives PUBLISH"],[("sessions","client id to connection",SR)])
p("C15","No client can take the broker down or disturb other clients",
  "Whatever a client does - malformed, truncated or oversized packets, closing or resetting at any byte, refused logins, user name without password, extremely deep or long topics, requests on a dying connection - the broker keeps running and keeps serving every other client: they stay connected, can connect, subscribe, publish and ping, and receive exactly their messages.",
  ["inputs","histories","fault_sequences"],"all sequences of hostile client actions, interleaved with the requests of well-behaved clients",
  "No test runs the broker; a panic in the shared handler task ends service for everyone and is invisible to unit tests.",
  [L,H,M,R,D],[("one shared handler task for all clients","src/broker/client_packet_handler.rs: run"),("per-connection tasks","src/mqtt/listener.rs")],
  ["answers received by other clients","broker process alive"])
p("C16","Ended connections and removed subscriptions leave nothing behind",
  "The resources the broker holds - open sockets and memory - are bounded by what is currently connected, subscribed and in flight: after connections have ended and subscriptions have been removed, in any way and any number of times, they return to about their level before.",
  ["histories"],"all churn histories of connecting, subscribing, unsubscribing, publishing and leaving (cleanly, abruptly, after protocol errors, refused logins, takeover)",
  "Leaks show only over long histories of the running broker.",
  [L,M,R,SR],[("session removal","src/broker/messaging/messaging_service.rs: disconnect, connection_lost"),("subscription tree","src/broker/messaging/subscriptions_repository.rs: unsubscribe, remove_client")],
  ["open descriptors and resident memory of the broker process"])
p("C17","An interrupt stops the broker cleanly",
  "On SIGINT, whatever clients are connected, subscribed, publishing or half-way through a packet, the broker stops accepting connections and the process ends by itself, promptly and with exit status 0.",
  ["schedules","histories"],"all broker states and client activities at the moment of the interrupt",
  "No test starts the broker.",
  [AP,L,H,M],[("shutdown broadcast and joins","src/application.rs: run"),("task loops","src/broker/client_packet_handler.rs: run; src/mqtt/listener.rs: start_accepting")],
  ["exit status of the process"])
p("C18","Configuration: file values, overridden by the environment",
  "The effective settings are those of the named configuration file with every value overridden that has a RATELMQ_-prefixed environment variable, nested by '__'; other variables change nothing. The broker listens on exactly the configured addresses and uses exactly the configured password file; a missing file, a missing value or a value of the wrong type is an error, never silently replaced.",
  ["configurations"],"all configuration files x all environments",
  "There is no test of settings (a todo in the code asks for one).",
  [C,AP,"src/main.rs"],[("layered merge","src/settings/mod.rs: Settings::new")],
  ["effective settings","addresses listened on"])
p("C19","All listeners share one message space",
  "With any number of configured listeners, every one of them accepts clients, and a message published by a client of one listener reaches the matching subscribers of every listener as if all were connected to the same one; the same credentials and client-id rules hold on each.",
  ["configurations","histories"],"all numbers of listeners x all assignments of clients to listeners x subscription histories",
  "No test starts a listener.",
  [AP,L],[("shared event queue","src/application.rs: run; src/mqtt/listener.rs: bind, start_accepting")],
  ["PUBLISH received across listeners"])
p("C20","Keep-alive expiry follows the one-and-a-half-times rule",
  "A session with keep-alive 0 never expires; any other session is expired exactly from the moment when one and a half times its keep-alive, in whole seconds rounded down, has passed since its last activity. The broker's list of expired sessions contains exactly the sessions for which this holds.",
  ["inputs","histories"],"all keep-alive values x all activity and observation times, and all sets of sessions with inserts, activity updates and removals",
  "No test covers keep-alive.",
  [SE,M,SR],[("expiry rule","src/broker/session/session_entity.rs: is_keep_alive_expired"),("expired-session query","src/broker/messaging/messaging_service.rs: session_get_keep_alive_expired")],
  ["expiry of a session","list of expired sessions"],[("last activity","time of the last packet",SE)])
p("C21","Clients without a client id are independent of each other",
  "Clients that connect with an empty client id and a clean session are each accepted with an identity of their own: they never displace each other or any other client, each receives exactly the messages for its own subscriptions, and the end of one does not affect another.",
  ["histories"],"all numbers and interleavings of clients with empty ids, subscribing, publishing and leaving, next to clients with ids",
  "No test connects a client without an id.",
  [L,H],[("generated client id","src/mqtt/listener.rs: connection_read_loop")],
  ["CONNACK, connections staying open, PUBLISH received"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in props: f.write(json.dumps(q)+"\n")
print(len(props))
