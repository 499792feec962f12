From 60c78487640969a2445dc28b2c9c041c50d1fee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:39 +0000
Subject: [PATCH 01/24] fix: strings and payloads longer than the read buffer
 made decoding spin forever

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 32 ++++++++-----------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..ee7818e 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -73,18 +73,12 @@ impl MqttBytesStream {
         let mut remaining_length = size;
 
         while remaining_length > 0 {
-            // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            // the capacity of the read buffer shrinks as data is split off, so only its content counts
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
@@ -221,18 +215,12 @@ impl MqttBytesReadStream {
         let mut remaining_length = size;
 
         while remaining_length > 0 {
-            // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            // the capacity of the read buffer shrinks as data is split off, so only its content counts
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
-- 
2.43.0


From 8e617a026e1ed31883f412d9a2a8bf5b63f46217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 02/24] fix: remaining lengths of four bytes were refused

---
 src/mqtt/transport/packet_decoder.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..b07fe2f 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -51,17 +51,17 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
         remaining_length += (byte & 127) as u64 * multiplier;
         multiplier *= 128;
 
+        let continuation_bit = byte & 128;
+        if continuation_bit == 0 {
+            break;
+        }
+
         if multiplier > 128 * 128 * 128 {
             return Err(tokio::io::Error::new(
                 ErrorKind::InvalidData,
                 "Malformed remaining length multiplier",
             ));
         }
-
-        let continuation_bit = byte & 128;
-        if continuation_bit == 0 {
-            break;
-        }
     }
 
     Ok(remaining_length)
-- 
2.43.0


From b06d9ec9f84bba05ca7f818a12e0751f9ceb1bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 03/24] fix: packet types a client never sends panicked the
 connection task

---
 src/mqtt/transport/packet_decoder.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index b07fe2f..8f57e38 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -87,7 +87,12 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
         PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
         PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        _ => {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Malformed packet type",
+            ))
+        }
     };
 
     Ok(packet)
-- 
2.43.0


From f3a574d25df1f69e7aa9a54fc8578e6388893f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:29 +0000
Subject: [PATCH 04/24] fix: PUBLISH with QoS 3 panicked the connection task

---
 src/mqtt/transport/packet_decoder.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 8f57e38..334b15d 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -176,6 +176,12 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
+    if flags.contains(FixedHeaderFlags::QOS) {
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed QoS",
+        ));
+    }
     let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
 
     // variable header
-- 
2.43.0


From 04753455b703cf696c41ce4dcbcbb58cd6805411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:49 +0000
Subject: [PATCH 05/24] fix: fields longer than their packet underflowed the
 remaining length

---
 src/mqtt/transport/mqtt_bytes_stream.rs |  4 +++
 src/mqtt/transport/packet_decoder.rs    | 43 ++++++++++++++++++-------
 2 files changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index ee7818e..a587a63 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -193,6 +193,10 @@ impl MqttBytesReadStream {
         trace!("Parsing string size");
         let string_size = self.get_u16().await? as usize;
         trace!("String size: {} ({:#04x})", string_size, string_size);
+        self.get_string_of_size(string_size).await
+    }
+
+    pub async fn get_string_of_size(&mut self, string_size: usize) -> Result<String, Error> {
         trace!("Parsing string buf");
         let str_buf = self.get_bytes(string_size).await?;
 
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 334b15d..d0723ec 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -185,12 +185,10 @@ async fn decode_publish(
     let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
 
     // variable header
-    let topic = buffer.get_string().await?;
-    remaining_length -= topic.len() as u64;
-    remaining_length -= 2;
+    let topic = get_string(buffer, &mut remaining_length).await?;
 
     let packet_id = if qos > QoS::AtMostOnce {
-        remaining_length -= 2;
+        consume(&mut remaining_length, 2)?;
         Some(buffer.get_u16().await?)
     } else {
         None
@@ -244,8 +242,8 @@ async fn decode_subscribe(
     first_byte: u8,
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    consume(&mut remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10000010).await?;
-    remaining_length -= 2;
 
     // payload
 
@@ -258,7 +256,8 @@ async fn decode_subscribe(
 
     let mut subscriptions = Vec::new();
     while remaining_length > 0 {
-        let topic = buffer.get_string().await?;
+        let topic = get_string(buffer, &mut remaining_length).await?;
+        consume(&mut remaining_length, 1)?;
         let qos = buffer.get_u8().await?;
         if qos > 2 {
             return Err(tokio::io::Error::new(
@@ -267,8 +266,6 @@ async fn decode_subscribe(
             ));
         }
 
-        remaining_length -= topic.len() as u64 + 3u64 /* 2 topic length + QoS*/;
-
         let subscription = Subscription::new(topic, QoS::from_bits(qos));
         subscriptions.push(subscription);
     }
@@ -282,8 +279,8 @@ async fn decode_unsubscribe(
     first_byte: u8,
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    consume(&mut remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10100010).await?;
-    remaining_length -= 2;
 
     if remaining_length == 0 {
         return Err(tokio::io::Error::new(
@@ -294,9 +291,7 @@ async fn decode_unsubscribe(
 
     let mut topics = Vec::new();
     while remaining_length > 0 {
-        let topic = buffer.get_string().await?;
-
-        remaining_length -= topic.len() as u64 + 2u64/* 2 topic length */;
+        let topic = get_string(buffer, &mut remaining_length).await?;
 
         topics.push(topic);
     }
@@ -305,6 +300,30 @@ async fn decode_unsubscribe(
     Ok(ControlPacket::Unsubscribe(packet))
 }
 
+/// Takes the size of a field off the remaining length of a packet.
+fn consume(remaining_length: &mut u64, size: u64) -> Result<(), Error> {
+    *remaining_length = remaining_length.checked_sub(size).ok_or_else(|| {
+        tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Packet shorter than the fields in it",
+        )
+    })?;
+
+    Ok(())
+}
+
+/// Reads a string that has to end within the remaining length of a packet.
+async fn get_string(
+    buffer: &mut MqttBytesReadStream,
+    remaining_length: &mut u64,
+) -> Result<String, Error> {
+    consume(remaining_length, 2)?;
+    let size = buffer.get_u16().await?;
+    consume(remaining_length, size as u64)?;
+
+    buffer.get_string_of_size(size as usize).await
+}
+
 async fn decode_packet_with_packet_id(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-- 
2.43.0


From 8a3f8fab7b196a47070f752108c7f9fefe6fa606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:15 +0000
Subject: [PATCH 06/24] fix: CONNECT, PUBACK, PUBREC, PUBREL, PUBCOMP, PINGREQ
 and DISCONNECT ignored their remaining length and flags

---
 src/mqtt/transport/packet_decoder.rs | 53 +++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 12 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index d0723ec..846a600 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -85,8 +85,16 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         PACKET_TYPE_UNSUBSCRIBE => {
             decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
         }
-        PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
-        PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
+        PACKET_TYPE_PING_REQ => {
+            validate_first_byte(first_byte, PACKET_TYPE_PING_REQ << 4)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::PingReq
+        }
+        PACKET_TYPE_DISCONNECT => {
+            validate_first_byte(first_byte, PACKET_TYPE_DISCONNECT << 4)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::Disconnect(DisconnectPacket::default())
+        }
         _ => {
             return Err(tokio::io::Error::new(
                 ErrorKind::InvalidData,
@@ -100,8 +108,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
-    _first_byte: u8,
-    _remaining_length: u64,
+    first_byte: u8,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     bitflags! {
         struct ConnectFlags: u8 {
@@ -117,8 +125,12 @@ async fn decode_connect(
         }
     }
 
+    // fixed header
+    validate_first_byte(first_byte, PACKET_TYPE_CONNECT << 4)?;
+
     // variable header
-    let _protocol_name = buffer.get_string().await?;
+    let _protocol_name = get_string(buffer, &mut remaining_length).await?;
+    consume(&mut remaining_length, 4)?; // protocol level, connect flags, keep alive
     let _protocol_level = buffer.get_u8().await?;
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
@@ -128,21 +140,23 @@ async fn decode_connect(
     let keep_alive_seconds = buffer.get_u16().await?;
 
     // payload
-    let client_id = buffer.get_string().await?;
+    let client_id = get_string(buffer, &mut remaining_length).await?;
 
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
-        Some(buffer.get_string().await?)
+        Some(get_string(buffer, &mut remaining_length).await?)
     } else {
         None
     };
 
     let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
         // todo: allow non-utf8 bytes?
-        Some(buffer.get_string().await?)
+        Some(get_string(buffer, &mut remaining_length).await?)
     } else {
         None
     };
 
+    validate_remaining_length(remaining_length, 0)?;
+
     let connect_packet = ConnectPacket::new(
         ProtocolVersion::Mqtt3,
         client_id,
@@ -204,8 +218,9 @@ async fn decode_publish(
 async fn decode_pub_ack(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
     Ok(ControlPacket::PubAck(PubAckPacket::new(packet_id)))
 }
@@ -213,8 +228,9 @@ async fn decode_pub_ack(
 async fn decode_pub_rec(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01010000).await?;
     Ok(ControlPacket::PubRec(PubRecPacket::new(packet_id)))
 }
@@ -222,8 +238,9 @@ async fn decode_pub_rec(
 async fn decode_pub_rel(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01100010).await?;
     Ok(ControlPacket::PubRel(PubRelPacket::new(packet_id)))
 }
@@ -231,8 +248,9 @@ async fn decode_pub_rel(
 async fn decode_pub_comp(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01110000).await?;
     Ok(ControlPacket::PubComp(PubCompPacket::new(packet_id)))
 }
@@ -335,6 +353,17 @@ async fn decode_packet_with_packet_id(
     Ok(packet_id)
 }
 
+fn validate_remaining_length(actual: u64, expected: u64) -> Result<(), Error> {
+    if actual == expected {
+        Ok(())
+    } else {
+        Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed remaining length",
+        ))
+    }
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From 486b1eb1e5672f06c524777666e42192622eb89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:16 +0000
Subject: [PATCH 07/24] fix: the will of a CONNECT was taken for its user name
 and password

---
 src/mqtt/transport/packet_decoder.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 846a600..83efb6a 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -142,6 +143,30 @@ async fn decode_connect(
     // payload
     let client_id = get_string(buffer, &mut remaining_length).await?;
 
+    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
+        if connect_flags.contains(ConnectFlags::WILL_QOS) {
+            return Err(tokio::io::Error::new(
+                ErrorKind::InvalidData,
+                "Malformed will QoS",
+            ));
+        }
+
+        let topic = get_string(buffer, &mut remaining_length).await?;
+        consume(&mut remaining_length, 2)?;
+        let payload_size = buffer.get_u16().await?;
+        consume(&mut remaining_length, payload_size as u64)?;
+        let payload = buffer.get_bytes(payload_size as usize).await?;
+
+        Some(Message {
+            topic,
+            payload,
+            qos: QoS::from_bits((connect_flags & ConnectFlags::WILL_QOS).bits >> 3),
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+        })
+    } else {
+        None
+    };
+
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
         Some(get_string(buffer, &mut remaining_length).await?)
     } else {
@@ -162,7 +187,7 @@ async fn decode_connect(
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
-- 
2.43.0


From eb37e7c3a8efbeb2c7a72d2accc50ed8a49ff87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 08/24] fix: null characters in strings and empty or wildcard
 PUBLISH topics were accepted

---
 src/mqtt/transport/packet_decoder.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 83efb6a..b38568d 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -175,7 +175,10 @@ async fn decode_connect(
 
     let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
         // todo: allow non-utf8 bytes?
-        Some(get_string(buffer, &mut remaining_length).await?)
+        consume(&mut remaining_length, 2)?;
+        let size = buffer.get_u16().await?;
+        consume(&mut remaining_length, size as u64)?;
+        Some(buffer.get_string_of_size(size as usize).await?)
     } else {
         None
     };
@@ -225,6 +228,13 @@ async fn decode_publish(
 
     // variable header
     let topic = get_string(buffer, &mut remaining_length).await?;
+    if topic.is_empty() || topic.contains(['+', '#']) {
+        // MQTT-3.3.2-2, MQTT-4.7.3-1
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Malformed topic name",
+        ));
+    }
 
     let packet_id = if qos > QoS::AtMostOnce {
         consume(&mut remaining_length, 2)?;
@@ -364,7 +374,16 @@ async fn get_string(
     let size = buffer.get_u16().await?;
     consume(remaining_length, size as u64)?;
 
-    buffer.get_string_of_size(size as usize).await
+    let string = buffer.get_string_of_size(size as usize).await?;
+    if string.contains('\0') {
+        // MQTT-1.5.3-2
+        return Err(tokio::io::Error::new(
+            ErrorKind::InvalidData,
+            "Null character in a string",
+        ));
+    }
+
+    Ok(string)
 }
 
 async fn decode_packet_with_packet_id(
-- 
2.43.0


From e46479753beb795a60e849a2eba56d45a001b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 09/24] fix: the rest of a partly accepted write was left
 unsent

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index a587a63..1db919a 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -155,14 +155,14 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+            self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         }
 
         Ok(())
@@ -308,14 +308,14 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.write_stream.write_buf(&mut self.write_buffer).await?;
+            self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         }
 
         Ok(())
-- 
2.43.0


From 1b3d10729b04f2f84f37ab2b2d09350191bd7c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 10/24] fix: subscribing again to a filter multiplied
 deliveries and survived unsubscribe and disconnect

---
 src/broker/messaging/subscriptions_repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..ba893c5 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,9 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From ff8199faebcfbb08bbdcdfe6ba567d8d724f4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 11/24] fix: filters starting with a wildcard matched topics
 starting with '$'

---
 src/broker/messaging/subscriptions_repository.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ba893c5..ca57f5c 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -83,14 +83,20 @@ impl SubscriptionsRepository {
 
         let mut nodes = vec![&self.root];
         let segments: Vec<&str> = topic.split("/").collect();
-        for segment in segments {
+        for (level, segment) in segments.into_iter().enumerate() {
             // nodes.iter().or itera
             let mut descendant_nodes = Vec::new();
+            // MQTT-4.7.2-1
+            let wildcards_match = level > 0 || !segment.starts_with('$');
             for node in nodes {
                 if let Some(direct) = node.children.get(segment) {
                     descendant_nodes.push(direct);
                 };
 
+                if !wildcards_match {
+                    continue;
+                }
+
                 if let Some(plus) = node.children.get("+") {
                     descendant_nodes.push(plus);
                 };
-- 
2.43.0


From cc0966b18e3cd5df1b9c84257611c4351b484083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 12/24] fix: removing a client overflowed the stack when a
 filter had very many levels

---
 .../messaging/subscriptions_repository.rs     | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ca57f5c..ca3f126 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -120,14 +120,16 @@ impl SubscriptionsRepository {
     }
 
     fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        node.clients
-            .iter()
-            .position(|c| c == client_id)
-            .map(|p| node.clients.remove(p));
+        // topics can have tens of thousands of levels, too many for recursion
+        let mut nodes = vec![node];
+        while let Some(node) = nodes.pop() {
+            node.clients
+                .iter()
+                .position(|c| c == client_id)
+                .map(|p| node.clients.remove(p));
 
-        node.children
-            .iter_mut()
-            .for_each(|c| Self::remove_client(c.1, client_id));
+            nodes.extend(node.children.values_mut());
+        }
     }
 }
 
@@ -146,6 +148,18 @@ impl SubscriptionNode {
     }
 }
 
+impl Drop for SubscriptionNode {
+    fn drop(&mut self) {
+        // topics can have tens of thousands of levels, too many for recursion
+        let mut nodes = vec![std::mem::take(&mut self.children)];
+        while let Some(children) = nodes.pop() {
+            for (_, mut child) in children {
+                nodes.push(std::mem::take(&mut child.children));
+            }
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::mqtt::packets::QoS;
-- 
2.43.0


From f11142a87673ca4c4aecfd7c4587116f7efe744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 13/24] fix: the nodes of removed subscriptions were kept
 forever, and unsubscribing created new ones

---
 .../messaging/subscriptions_repository.rs     | 73 ++++++++++++++-----
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ca3f126..3633b28 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -47,18 +47,35 @@ impl SubscriptionsRepository {
             // if let Some(client_ids) = self.subscriptions.get_mut(topic) {
             // client_ids.remove(client_id);
             // }
-            let mut node = &mut self.root;
+            let segments: Vec<&str> = topic.split("/").collect();
 
-            // subscription.topic().split("/").for_each(|x| {
-            //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
-            // });
+            // how many levels are still needed when this subscription is gone
+            let mut needed_levels = 0;
+            let mut subscribed = Some(&self.root);
+            for (level, segment) in segments.iter().enumerate() {
+                if let Some(node) = subscribed {
+                    if !node.clients.is_empty() || node.children.len() > 1 {
+                        needed_levels = level;
+                    }
+                    subscribed = node.children.get(*segment);
+                }
+            }
 
-            let segments: Vec<&str> = topic.split("/").collect();
-            for segment in segments {
-                node = node
-                    .children
-                    .entry(segment.to_string())
-                    .or_insert(SubscriptionNode::new());
+            let unused = match subscribed {
+                Some(node) => node.children.is_empty() && node.clients.iter().all(|c| c == client_id),
+                None => continue,
+            };
+            if !unused {
+                needed_levels = segments.len();
+            }
+
+            let mut node = &mut self.root;
+            for segment in &segments[..needed_levels] {
+                node = node.children.get_mut(*segment).unwrap();
+            }
+            if unused {
+                node.children.remove(segments[needed_levels]);
+                continue;
             }
 
             node.clients
@@ -71,11 +88,11 @@ impl SubscriptionsRepository {
     }
 
     pub fn disconnected(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn connections_lost(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.remove_client(client_id);
     }
 
     pub fn subscribed_clients(&self, topic: &String) -> Option<Vec<ClientId>> {
@@ -119,17 +136,33 @@ impl SubscriptionsRepository {
         // None
     }
 
-    fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
+    fn remove_client(&mut self, client_id: &ClientId) {
+        let topics = self.topics_of(client_id);
+        self.unsubscribe(client_id, &topics);
+    }
+
+    fn topics_of(&self, client_id: &ClientId) -> Vec<String> {
+        let mut topics = Vec::new();
+
         // topics can have tens of thousands of levels, too many for recursion
-        let mut nodes = vec![node];
-        while let Some(node) = nodes.pop() {
-            node.clients
-                .iter()
-                .position(|c| c == client_id)
-                .map(|p| node.clients.remove(p));
+        let mut path: Vec<&str> = Vec::new();
+        let mut nodes: Vec<(usize, &str, &SubscriptionNode)> = Vec::new();
+        for (segment, child) in &self.root.children {
+            nodes.push((0, segment.as_str(), child));
+        }
+        while let Some((level, segment, node)) = nodes.pop() {
+            path.truncate(level);
+            path.push(segment);
 
-            nodes.extend(node.children.values_mut());
+            if node.clients.contains(client_id) {
+                topics.push(path.join("/"));
+            }
+            for (segment, child) in &node.children {
+                nodes.push((level + 1, segment.as_str(), child));
+            }
         }
+
+        topics
     }
 }
 
-- 
2.43.0


From 93477b2197735584bee5452b17d8ea97f2e49697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:41 +0000
Subject: [PATCH 14/24] fix: a CONNECT with a user name but no password took
 the whole broker down

---
 src/broker/client_packet_handler.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..54c02ba 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -7,7 +7,7 @@ use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::{broadcast, mpsc, oneshot};
 use uuid::Uuid;
 
-use crate::broker::authentication::{FileIdentityManager, IdentityProvider};
+use crate::broker::authentication::{AuthenticationError, FileIdentityManager, IdentityProvider};
 use crate::broker::messaging::{MessagingOperation, MessagingService, MessagingTx};
 use crate::broker::session::Session;
 use crate::mqtt::events::{ClientEvent, ServerEvent};
@@ -120,8 +120,11 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
-            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
+            let authentication = match packet.password {
+                Some(password) => self.identity_provider.authenticate(&user_name, &password),
+                None => Err(AuthenticationError::InvalidPassword),
+            };
+            if let Err(e) = authentication {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-- 
2.43.0


From a283d5ce642059acba7cc7534101f607011e7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:42 +0000
Subject: [PATCH 15/24] fix: sending to a connection that had just ended took
 the whole broker down

---
 src/broker/client_packet_handler.rs | 38 ++++++++++++-----------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 54c02ba..2eafbb8 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -128,11 +128,8 @@ impl ClientPacketHandler {
                 info!("Client {} authentication error: {:?}", &user_name, &e);
 
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-                sender
-                    .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                    .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
+                Self::send(&sender, ServerEvent::Disconnect).await;
                 return;
             }
         };
@@ -166,10 +163,7 @@ impl ClientPacketHandler {
 
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
-        sender
-            .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -226,7 +220,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            Self::send(&sender, event).await;
         }
     }
 
@@ -253,10 +247,7 @@ impl ClientPacketHandler {
         }
 
         let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
-        sender
-            .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(SubAck(sub_ack))).await;
     }
 
     async fn on_unsubscribe(
@@ -274,10 +265,7 @@ impl ClientPacketHandler {
         let _ = rx.await.unwrap();
 
         let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
-        sender
-            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(UnsubAck(unsub_ack))).await;
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -306,16 +294,20 @@ impl ClientPacketHandler {
         };
 
         if session_present {
-            sender
-                .send(ServerEvent::ControlPacket(PingResp))
-                .await
-                .unwrap();
+            Self::send(&sender, ServerEvent::ControlPacket(PingResp)).await;
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            Self::send(&sender, ServerEvent::Disconnect).await;
+        }
+    }
+
+    /// Sends an event to a connection, which may have ended in the meantime.
+    async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
+        if let Err(e) = sender.send(event).await {
+            debug!("Dropping event for an ended connection: {}", &e);
         }
     }
 }
-- 
2.43.0


From 903342479078eef47ff5acf393c6180151998d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:44 +0000
Subject: [PATCH 16/24] fix: messages were forwarded with the publisher's QoS,
 packet id, DUP and RETAIN instead of the granted QoS 0

---
 src/broker/client_packet_handler.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 2eafbb8..3a15dad 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -204,7 +204,7 @@ impl ClientPacketHandler {
     async fn on_publish(
         &self,
         _sender: Sender<ServerEvent>,
-        publish: PublishPacket,
+        mut publish: PublishPacket,
         client_id: ClientId,
     ) {
         debug!(
@@ -218,6 +218,13 @@ impl ClientPacketHandler {
         self.messaging_tx.send(op).await.unwrap();
         let senders_to_publish = rx.await.unwrap();
 
+        // subscriptions are granted QoS 0
+        publish.packet_id = None;
+        publish.dup = false;
+        publish.message.qos = QoS::AtMostOnce;
+        // MQTT-3.3.1-9
+        publish.message.retain = false;
+
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
             Self::send(&sender, event).await;
-- 
2.43.0


From 4571e336d384e56c46b0de5cc0df893e05dd6897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:45 +0000
Subject: [PATCH 17/24] fix: invalid topic filters were granted

---
 .../messaging/subscriptions_repository.rs     | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 3633b28..7825375 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -21,6 +21,10 @@ impl SubscriptionsRepository {
         client_id: &ClientId,
         subscription: &Subscription,
     ) -> SubAckReturnCode {
+        if !Self::is_valid_filter(subscription.topic()) {
+            return SubAckReturnCode::Failure;
+        }
+
         let mut node = &mut self.root;
 
         // subscription.topic().split("/").for_each(|x| {
@@ -136,6 +140,23 @@ impl SubscriptionsRepository {
         // None
     }
 
+    // MQTT-4.7.1-2, MQTT-4.7.1-3, MQTT-4.7.3-1
+    fn is_valid_filter(filter: &str) -> bool {
+        let mut levels = filter.split("/").peekable();
+        while let Some(level) = levels.next() {
+            let valid = match level {
+                "#" => levels.peek().is_none(),
+                "+" => true,
+                _ => !level.contains(['+', '#']),
+            };
+            if !valid {
+                return false;
+            }
+        }
+
+        !filter.is_empty()
+    }
+
     fn remove_client(&mut self, client_id: &ClientId) {
         let topics = self.topics_of(client_id);
         self.unsubscribe(client_id, &topics);
-- 
2.43.0


From 416991b3e7f671583e27981ffdbbc52edfda190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:37 +0000
Subject: [PATCH 18/24] fix: ended connections left their session and
 subscriptions behind

---
 src/broker/client_packet_handler.rs       | 22 +++++++++++++++++++---
 src/broker/messaging/messaging_service.rs | 17 +++++++++++++++++
 src/mqtt/events.rs                        |  2 +-
 src/mqtt/listener.rs                      | 20 +++++++++++++++++++-
 4 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 3a15dad..c2e1359 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -69,8 +69,8 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                self.on_connection_lost(client_id, tx).await;
                             }
                         }
                     }
@@ -186,7 +186,10 @@ impl ClientPacketHandler {
         // );
     }
 
-    async fn on_connection_lost(&mut self, client_id: ClientId) {
+    async fn on_connection_lost(&mut self, client_id: ClientId, sender: Sender<ServerEvent>) {
+        if !self.session_owned(&client_id, &sender).await {
+            return;
+        }
         info!("Client {:?} disconnected unexpectedly", &client_id);
 
         let (tx, rx) = oneshot::channel();
@@ -311,6 +314,19 @@ impl ClientPacketHandler {
         }
     }
 
+    /// Whether the client's current session belongs to the given connection.
+    async fn session_owned(&self, client_id: &ClientId, sender: &Sender<ServerEvent>) -> bool {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::SessionOwned {
+            client_id: client_id.clone(),
+            sender: sender.clone(),
+            resp: tx,
+        };
+
+        self.messaging_tx.send(op).await.unwrap();
+        rx.await.unwrap()
+    }
+
     /// Sends an event to a connection, which may have ended in the meantime.
     async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
         if let Err(e) = sender.send(event).await {
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..39cd17d 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -32,6 +32,11 @@ pub enum MessagingOperation {
         client_id: ClientId,
         resp: Responder<Option<Session>>,
     },
+    SessionOwned {
+        client_id: ClientId,
+        sender: mpsc::Sender<ServerEvent>,
+        resp: Responder<bool>,
+    },
     SessionGetExpiredKeepAlive {
         resp: Responder<Vec<Session>>,
     },
@@ -98,6 +103,10 @@ impl MessagingService {
                     // let result = self.session_get(&client_id);
                     let _ = resp.send(None);
                 }
+                MessagingOperation::SessionOwned { client_id, sender, resp } => {
+                    let result = self.session_owned(&client_id, &sender);
+                    let _ = resp.send(result);
+                }
                 MessagingOperation::SessionGetExpiredKeepAlive { resp } => {
                     // let result = self.session_get_keep_alive_expired();
                     let _ = resp.send(Vec::new());
@@ -153,6 +162,14 @@ impl MessagingService {
         self.sessions.get_mut(client_id)
     }
 
+    /// Whether the client's current session belongs to the connection with the given sender.
+    pub fn session_owned(&self, client_id: &ClientId, sender: &mpsc::Sender<ServerEvent>) -> bool {
+        match self.sessions.get(client_id) {
+            Some(session) => session.sender().same_channel(sender),
+            None => false,
+        }
+    }
+
     pub fn session_get_keep_alive_expired(&self) -> Vec<&Session> {
         let now = Utc::now();
 
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..25baea8 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -118,7 +118,19 @@ impl MqttListener {
             return;
         }
 
-        while let Ok(packet) = read_packet(&mut read_stream).await {
+        loop {
+            let packet = select! {
+                packet = read_packet(&mut read_stream) => packet,
+                // the write task has ended
+                _ = server_event_tx.closed() => break,
+            };
+            let packet = match packet {
+                Ok(packet) => packet,
+                Err(e) => {
+                    debug!("Error while reading packet: {:?}", &e);
+                    break;
+                }
+            };
             trace!("Read packet: {:?}", &packet);
 
             let event =
@@ -127,6 +139,11 @@ impl MqttListener {
                 error!("Error while sending client event to be processed: {}", &e);
             }
         }
+
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
+        }
         trace!("Client read task ended");
     }
 
@@ -142,6 +159,7 @@ impl MqttListener {
                     trace!("Writing packet: {:?}", &packet);
                     if let Err(e) = write_packet(&mut write_stream, packet).await {
                         error!("Error while writing packet: {:?}", &e);
+                        break;
                     }
                 }
                 ServerEvent::Disconnect => {
-- 
2.43.0


From 0f14b3548d385502d3282fc8d2fb2a3cba1973e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:39 +0000
Subject: [PATCH 19/24] fix: the broker kept serving a connection after
 DISCONNECT or a second CONNECT

---
 src/mqtt/listener.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 25baea8..a3fe252 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -133,11 +133,24 @@ impl MqttListener {
             };
             trace!("Read packet: {:?}", &packet);
 
+            if let ControlPacket::Connect(_) = packet {
+                // MQTT-3.1.0-2
+                warn!("Client {:?} sent a second CONNECT", &client_id);
+                break;
+            }
+            let disconnect = matches!(packet, ControlPacket::Disconnect(_));
+
             let event =
                 ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
             if let Err(e) = client_event_tx.send(event).await {
                 error!("Error while sending client event to be processed: {}", &e);
             }
+
+            if disconnect {
+                // nothing may follow, the connection is closed - MQTT-3.14.4-2
+                trace!("Client read task ended");
+                return;
+            }
         }
 
         let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
-- 
2.43.0


From 7164d28d91f47248d2019b2fd24cb5bf92ea1cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 20/24] fix: packets sent outside of an accepted session took
 effect

---
 src/broker/client_packet_handler.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index c2e1359..a3f9e7e 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -89,6 +89,12 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        // only the connection of the client's current session acts for the client
+        if !self.session_owned(&client_id, &tx).await {
+            debug!("Ignoring packet of {:?} sent outside of its session", &client_id);
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
-- 
2.43.0


From f226d21b0b2d7ae43d0ea6ebaa7dcc008db008a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 21/24] fix: a second connection with the same client id left
 the first one open and its subscriptions in place

---
 src/broker/client_packet_handler.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index a3f9e7e..b0cfa4a 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -140,6 +140,8 @@ impl ClientPacketHandler {
             }
         };
 
+        self.take_over(&client_id).await;
+
         let session_present = {
             let (tx, rx) = oneshot::channel();
             let op = MessagingOperation::SessionGet { client_id: client_id.clone(), resp: tx };
@@ -177,6 +179,22 @@ impl ClientPacketHandler {
         // );
     }
 
+    /// Ends the client's current session, if any, and closes its connection - MQTT-3.1.4-2
+    async fn take_over(&self, client_id: &ClientId) {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::ConnectionDisconnected { client_id: client_id.clone(), resp: tx };
+
+        self.messaging_tx.send(op).await.unwrap();
+
+        if let Some(session) = rx.await.unwrap() {
+            info!("Client {:?} connected again, closing its older connection", client_id);
+            // the older connection may be slow to accept events
+            tokio::spawn(async move {
+                Self::send(session.sender(), ServerEvent::Disconnect).await;
+            });
+        }
+    }
+
     async fn on_disconnect(&mut self, client_id: ClientId) {
         debug!("Client {:?} disconnected", &client_id);
 
-- 
2.43.0


From b0083aec6e3df0c49ad839cdd5e2c63dcc2d5dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 22/24] fix: ratelmq-passwd changed the entries of other users
 and broke the file

---
 ratelmq-passwd/src/main.rs | 51 +++++++++++++++++++-------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..bdf2364 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,5 +1,4 @@
 use clap::{App, Arg, ArgMatches};
-use regex::RegexBuilder;
 
 use argon2::{
     password_hash::{rand_core::OsRng, PasswordHasher, SaltString},
@@ -25,35 +24,37 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
-    let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
-        .multi_line(true)
-        .build()
-        .unwrap();
+    if user_name.contains(|c| c == ':' || c == '\n') {
+        eprintln!("User name must not contain a colon or a line break");
+        std::process::exit(1);
+    }
 
     let credentials = std::fs::read_to_string(file_name).unwrap();
 
-    let entry_exists = regexp.is_match(credentials.as_str());
-    let updated_credentials = if entry_exists {
-        let text = match delete {
-            true => "".to_string(),
-            false => build_entry(user_name, password).replace("$", "$$"), // for regexp
-        };
-
-        Some(
-            regexp
-                .replace(credentials.as_str(), text.as_str())
-                .into_owned(),
-        )
-    } else if !delete {
-        Some(credentials + build_entry(user_name, password).as_str())
-    } else {
-        None
+    let mut new_entry = match delete {
+        true => None,
+        false => Some(build_entry(user_name, password)),
     };
 
-    if let Some(new_file_content) = updated_credentials {
-        std::fs::write(file_name, new_file_content).unwrap();
+    let entry_prefix = format!("{}:", user_name);
+    let mut updated_credentials = String::with_capacity(credentials.len());
+    for line in credentials.split_inclusive('\n') {
+        if !line.starts_with(&entry_prefix) {
+            updated_credentials += line;
+        } else if let Some(entry) = new_entry.take() {
+            updated_credentials += &entry;
+        }
+    }
+
+    if let Some(entry) = new_entry {
+        if !updated_credentials.is_empty() && !updated_credentials.ends_with('\n') {
+            updated_credentials += "\n";
+        }
+        updated_credentials += &entry;
+    }
+
+    if updated_credentials != credentials {
+        std::fs::write(file_name, updated_credentials).unwrap();
     }
 }
 
-- 
2.43.0


From dc2954776c4709f89160eb8587791180d03d9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:57 +0000
Subject: [PATCH 23/24] fix: an interrupt did not stop the broker while it
 waited for a client that does not read

---
 src/application.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/application.rs b/src/application.rs
index 7529075..0dc88f5 100644
--- a/src/application.rs
+++ b/src/application.rs
@@ -68,9 +68,12 @@ pub async fn run(config_filename: &str) {
 
     join_all(listeners).await;
 
+    // the manager may be waiting for a client that does not read
+    manager_future.abort();
+    let _ = manager_future.await;
+
     messaging_service_future.await.unwrap();
     // keep_alive_checker_future.await.unwrap();
-    manager_future.await.unwrap();
 
     info!("RatelMQ stopped");
 }
-- 
2.43.0


From 3fa461d058d747ac790f6dc335dbcbf2f6458a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:14 +0000
Subject: [PATCH 24/24] fix: a password run that failed or was killed while
 writing lost entries

---
 ratelmq-passwd/src/main.rs | 51 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index bdf2364..ced0269 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,3 +1,9 @@
+use std::ffi::OsStr;
+use std::fs::{Metadata, OpenOptions};
+use std::io::{ErrorKind, Write};
+#[cfg(unix)]
+use std::os::unix::fs::{MetadataExt, OpenOptionsExt};
+
 use clap::{App, Arg, ArgMatches};
 
 use argon2::{
@@ -54,10 +60,53 @@ fn main() {
     }
 
     if updated_credentials != credentials {
-        std::fs::write(file_name, updated_credentials).unwrap();
+        replace_content(file_name, &updated_credentials).unwrap();
     }
 }
 
+/// Replaces the content of the file in one step: a run that fails or is killed leaves it as it was
+fn replace_content(file_name: &str, content: &str) -> std::io::Result<()> {
+    // links to the file are kept
+    let path = std::fs::canonicalize(file_name)?;
+    let metadata = std::fs::metadata(&path)?;
+    if !metadata.is_file() {
+        return std::fs::write(&path, content);
+    }
+
+    let mut new_path = path.clone().into_os_string();
+    new_path.push(format!(".{}.new", std::process::id()));
+
+    let replaced = write_new_file(&new_path, content, &metadata)
+        .and_then(|_| std::fs::rename(&new_path, &path));
+    match replaced {
+        Ok(()) => Ok(()),
+        Err(e) => {
+            let _ = std::fs::remove_file(&new_path);
+            match e.kind() {
+                // the file can be written, but not be replaced
+                ErrorKind::PermissionDenied | ErrorKind::ResourceBusy => {
+                    std::fs::write(&path, content)
+                }
+                _ => Err(e),
+            }
+        }
+    }
+}
+
+fn write_new_file(path: &OsStr, content: &str, metadata: &Metadata) -> std::io::Result<()> {
+    let mut options = OpenOptions::new();
+    options.write(true).create(true).truncate(true);
+    #[cfg(unix)]
+    options.mode(0o600);
+
+    let mut file = options.open(path)?;
+    file.write_all(content.as_bytes())?;
+    #[cfg(unix)]
+    std::os::unix::fs::fchown(&file, Some(metadata.uid()), Some(metadata.gid()))?;
+    file.set_permissions(metadata.permissions())?;
+    file.sync_all()
+}
+
 fn build_arguments(version: String) -> ArgMatches {
     App::new("ratelmq-passwd")
         .version(version.as_str())
-- 
2.43.0

