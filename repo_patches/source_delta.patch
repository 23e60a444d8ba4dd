From 154cec83e93be84bc36c912ac9194aa3d6830c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 01/28] fix: read a packet body of any size

The read buffer's capacity shrinks as bytes are split off; when exactly all of
it had been consumed it was 0 and get_bytes() spun forever without yielding.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 32 ++++++++-----------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index df07b2b..ccd8568 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -73,18 +73,12 @@ impl MqttBytesStream {
         let mut remaining_length = size;
 
         while remaining_length > 0 {
-            // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            // the capacity shrinks as the buffer is consumed and may even be 0 here
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
@@ -221,18 +215,12 @@ impl MqttBytesReadStream {
         let mut remaining_length = size;
 
         while remaining_length > 0 {
-            // todo: use clamp when stabilized
-            let wait_for_bytes = {
-                if remaining_length > self.read_buffer.capacity() {
-                    self.read_buffer.capacity()
-                } else {
-                    remaining_length
-                }
-            };
+            // the capacity shrinks as the buffer is consumed and may even be 0 here
+            self.wait_for_data(1).await?;
 
-            self.wait_for_data(wait_for_bytes).await?;
-            bytes.put(self.read_buffer.split_to(wait_for_bytes));
-            remaining_length -= wait_for_bytes;
+            let available_bytes = remaining_length.min(self.read_buffer.len());
+            bytes.put(self.read_buffer.split_to(available_bytes));
+            remaining_length -= available_bytes;
         }
 
         Ok(bytes)
-- 
2.43.0


From d8f6e1c033dda5883d6cdc73af875b856fd3fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:23 +0000
Subject: [PATCH 02/28] fix: write every packet completely

write_buf() writes only as much as the socket accepts in one go; the rest of
the packet stayed in the buffer until the next packet was sent.
---
 src/mqtt/transport/mqtt_bytes_stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index ccd8568..de9884e 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -155,14 +155,14 @@ impl MqttBytesStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+        self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.tcp_stream.write_buf(&mut self.write_buffer).await?;
+            self.tcp_stream.write_all_buf(&mut self.write_buffer).await?;
         }
 
         Ok(())
@@ -304,14 +304,14 @@ impl MqttBytesWriteStream {
     }
 
     pub async fn finish_packet(&mut self) -> Result<(), Error> {
-        self.write_stream.write_buf(&mut self.write_buffer).await?;
+        self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         // self.tcp_stream.flush().await?;
         Ok(())
     }
 
     async fn write_buffer_if_too_small(&mut self, size: usize) -> Result<(), Error> {
         if self.write_buffer.len() + size >= self.write_buffer.capacity() {
-            self.write_stream.write_buf(&mut self.write_buffer).await?;
+            self.write_stream.write_all_buf(&mut self.write_buffer).await?;
         }
 
         Ok(())
-- 
2.43.0


From 90e84aa408223436b883bf90fdafa03c02192c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 03/28] fix: accept a remaining length of four bytes

Packets of 2 MiB and more were rejected as malformed.
---
 src/mqtt/transport/packet_decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 1628c84..9fd6b47 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -47,10 +47,6 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
     let mut multiplier = 1u64;
 
     loop {
-        let byte = buffer.get_u8().await?;
-        remaining_length += (byte & 127) as u64 * multiplier;
-        multiplier *= 128;
-
         if multiplier > 128 * 128 * 128 {
             return Err(tokio::io::Error::new(
                 ErrorKind::InvalidData,
@@ -58,6 +54,10 @@ pub async fn decode_remaining_length(buffer: &mut MqttBytesReadStream) -> Result
             ));
         }
 
+        let byte = buffer.get_u8().await?;
+        remaining_length += (byte & 127) as u64 * multiplier;
+        multiplier *= 128;
+
         let continuation_bit = byte & 128;
         if continuation_bit == 0 {
             break;
-- 
2.43.0


From 83cf98cb2b1cbcd290aecf4c0b6446f5754993de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 04/28] fix: reject malformed packets instead of panicking

QoS 3, packet types the broker does not read and lengths that do not add up
panicked in the reading task (or, in release builds, wrapped around).
---
 src/mqtt/transport/mqtt_bytes_stream.rs |  6 +++
 src/mqtt/transport/packet_decoder.rs    | 52 ++++++++++++++++++-------
 2 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index de9884e..d9d82e9 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -193,6 +193,12 @@ impl MqttBytesReadStream {
         trace!("Parsing string size");
         let string_size = self.get_u16().await? as usize;
         trace!("String size: {} ({:#04x})", string_size, string_size);
+
+        self.get_str(string_size).await
+    }
+
+    /// Reads a string of given size, without the length prefix
+    pub async fn get_str(&mut self, string_size: usize) -> Result<String, Error> {
         trace!("Parsing string buf");
         let str_buf = self.get_bytes(string_size).await?;
 
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 9fd6b47..bf62241 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -87,7 +87,7 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         }
         PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
         PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
-        _ => unimplemented!(),
+        _ => return Err(malformed("Unsupported packet type")),
     };
 
     Ok(packet)
@@ -171,15 +171,17 @@ async fn decode_publish(
 
     let dup = flags.contains(FixedHeaderFlags::DUP);
     let retain = flags.contains(FixedHeaderFlags::RETAIN);
-    let qos = QoS::from_bits((flags & FixedHeaderFlags::QOS).bits >> 1);
+    let qos_bits = (flags & FixedHeaderFlags::QOS).bits >> 1;
+    if qos_bits > 2 {
+        return Err(malformed("Malformed QoS"));
+    }
+    let qos = QoS::from_bits(qos_bits);
 
     // variable header
-    let topic = buffer.get_string().await?;
-    remaining_length -= topic.len() as u64;
-    remaining_length -= 2;
+    let topic = decode_string(buffer, &mut remaining_length).await?;
 
     let packet_id = if qos > QoS::AtMostOnce {
-        remaining_length -= 2;
+        consume(&mut remaining_length, 2)?;
         Some(buffer.get_u16().await?)
     } else {
         None
@@ -233,8 +235,8 @@ async fn decode_subscribe(
     first_byte: u8,
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    consume(&mut remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10000010).await?;
-    remaining_length -= 2;
 
     // payload
 
@@ -247,7 +249,8 @@ async fn decode_subscribe(
 
     let mut subscriptions = Vec::new();
     while remaining_length > 0 {
-        let topic = buffer.get_string().await?;
+        let topic = decode_string(buffer, &mut remaining_length).await?;
+        consume(&mut remaining_length, 1)?;
         let qos = buffer.get_u8().await?;
         if qos > 2 {
             return Err(tokio::io::Error::new(
@@ -256,8 +259,6 @@ async fn decode_subscribe(
             ));
         }
 
-        remaining_length -= topic.len() as u64 + 3u64 /* 2 topic length + QoS*/;
-
         let subscription = Subscription::new(topic, QoS::from_bits(qos));
         subscriptions.push(subscription);
     }
@@ -271,8 +272,8 @@ async fn decode_unsubscribe(
     first_byte: u8,
     mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    consume(&mut remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b10100010).await?;
-    remaining_length -= 2;
 
     if remaining_length == 0 {
         return Err(tokio::io::Error::new(
@@ -283,9 +284,7 @@ async fn decode_unsubscribe(
 
     let mut topics = Vec::new();
     while remaining_length > 0 {
-        let topic = buffer.get_string().await?;
-
-        remaining_length -= topic.len() as u64 + 2u64/* 2 topic length */;
+        let topic = decode_string(buffer, &mut remaining_length).await?;
 
         topics.push(topic);
     }
@@ -305,6 +304,31 @@ async fn decode_packet_with_packet_id(
     Ok(packet_id)
 }
 
+async fn decode_string(
+    buffer: &mut MqttBytesReadStream,
+    remaining_length: &mut u64,
+) -> Result<String, Error> {
+    consume(remaining_length, 2)?;
+    let string_size = buffer.get_u16().await?;
+
+    consume(remaining_length, string_size as u64)?;
+    buffer.get_str(string_size as usize).await
+}
+
+/// Takes given number of bytes from what is left of the packet, before they are read, so that
+/// a packet is never read beyond its declared length
+fn consume(remaining_length: &mut u64, size: u64) -> Result<(), Error> {
+    *remaining_length = remaining_length
+        .checked_sub(size)
+        .ok_or_else(|| malformed("Malformed remaining length"))?;
+
+    Ok(())
+}
+
+fn malformed(message: &'static str) -> Error {
+    Error::new(ErrorKind::InvalidData, message)
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From 5ccb70865d7398e02f2d50268576323430bb9225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:19 +0000
Subject: [PATCH 05/28] fix: read exactly the bytes a packet declares

The will fields of CONNECT were taken for user name and password, and bytes
that a packet declares but does not need were taken for the next packet.
---
 src/mqtt/transport/packet_decoder.rs | 74 +++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index bf62241..9589ff8 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -1,3 +1,4 @@
+use crate::mqtt::message::Message;
 use crate::mqtt::packets::puback::PubAckPacket;
 use crate::mqtt::packets::pubcomp::PubCompPacket;
 use crate::mqtt::packets::pubrec::PubRecPacket;
@@ -85,8 +86,16 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
         PACKET_TYPE_UNSUBSCRIBE => {
             decode_unsubscribe(mqtt_stream, first_byte, remaining_length).await?
         }
-        PACKET_TYPE_PING_REQ => ControlPacket::PingReq,
-        PACKET_TYPE_DISCONNECT => ControlPacket::Disconnect(DisconnectPacket::default()),
+        PACKET_TYPE_PING_REQ => {
+            validate_first_byte(first_byte, 0b11000000)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::PingReq
+        }
+        PACKET_TYPE_DISCONNECT => {
+            validate_first_byte(first_byte, 0b11100000)?;
+            validate_remaining_length(remaining_length, 0)?;
+            ControlPacket::Disconnect(DisconnectPacket::default())
+        }
         _ => return Err(malformed("Unsupported packet type")),
     };
 
@@ -95,8 +104,8 @@ pub async fn read_packet(mqtt_stream: &mut MqttBytesReadStream) -> Result<Contro
 
 async fn decode_connect(
     buffer: &mut MqttBytesReadStream,
-    _first_byte: u8,
-    _remaining_length: u64,
+    first_byte: u8,
+    mut remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
     bitflags! {
         struct ConnectFlags: u8 {
@@ -112,8 +121,11 @@ async fn decode_connect(
         }
     }
 
+    validate_first_byte(first_byte, 0b00010000)?;
+
     // variable header
-    let _protocol_name = buffer.get_string().await?;
+    let _protocol_name = decode_string(buffer, &mut remaining_length).await?;
+    consume(&mut remaining_length, 4 /* level + flags + keep alive */)?;
     let _protocol_level = buffer.get_u8().await?;
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
@@ -123,27 +135,51 @@ async fn decode_connect(
     let keep_alive_seconds = buffer.get_u16().await?;
 
     // payload
-    let client_id = buffer.get_string().await?;
+    let client_id = decode_string(buffer, &mut remaining_length).await?;
+
+    let will_message = if connect_flags.contains(ConnectFlags::WILL) {
+        let will_qos_bits = (connect_flags & ConnectFlags::WILL_QOS).bits >> 3;
+        if will_qos_bits > 2 {
+            return Err(malformed("Malformed will QoS"));
+        }
+
+        let topic = decode_string(buffer, &mut remaining_length).await?;
+        consume(&mut remaining_length, 2)?;
+        let payload_size = buffer.get_u16().await?;
+        consume(&mut remaining_length, payload_size as u64)?;
+        let payload = buffer.get_bytes(payload_size as usize).await?;
+
+        Some(Message {
+            topic,
+            payload,
+            qos: QoS::from_bits(will_qos_bits),
+            retain: connect_flags.contains(ConnectFlags::WILL_RETAIN),
+        })
+    } else {
+        None
+    };
 
     let user_name = if connect_flags.contains(ConnectFlags::USERNAME) {
-        Some(buffer.get_string().await?)
+        Some(decode_string(buffer, &mut remaining_length).await?)
     } else {
         None
     };
 
     let password = if connect_flags.contains(ConnectFlags::PASSWORD) {
         // todo: allow non-utf8 bytes?
-        Some(buffer.get_string().await?)
+        Some(decode_string(buffer, &mut remaining_length).await?)
     } else {
         None
     };
 
+    validate_remaining_length(remaining_length, 0)?;
+
     let connect_packet = ConnectPacket::new(
         ProtocolVersion::Mqtt3,
         client_id,
         keep_alive_seconds,
         clean_session,
-        None,
+        will_message,
         user_name,
         password,
     );
@@ -197,8 +233,9 @@ async fn decode_publish(
 async fn decode_pub_ack(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01000000).await?;
     Ok(ControlPacket::PubAck(PubAckPacket::new(packet_id)))
 }
@@ -206,8 +243,9 @@ async fn decode_pub_ack(
 async fn decode_pub_rec(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01010000).await?;
     Ok(ControlPacket::PubRec(PubRecPacket::new(packet_id)))
 }
@@ -215,8 +253,9 @@ async fn decode_pub_rec(
 async fn decode_pub_rel(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01100010).await?;
     Ok(ControlPacket::PubRel(PubRelPacket::new(packet_id)))
 }
@@ -224,8 +263,9 @@ async fn decode_pub_rel(
 async fn decode_pub_comp(
     buffer: &mut MqttBytesReadStream,
     first_byte: u8,
-    _remaining_length: u64,
+    remaining_length: u64,
 ) -> Result<ControlPacket, Error> {
+    validate_remaining_length(remaining_length, 2)?;
     let packet_id = decode_packet_with_packet_id(buffer, first_byte, 0b01110000).await?;
     Ok(ControlPacket::PubComp(PubCompPacket::new(packet_id)))
 }
@@ -329,6 +369,14 @@ fn malformed(message: &'static str) -> Error {
     Error::new(ErrorKind::InvalidData, message)
 }
 
+fn validate_remaining_length(actual: u64, expected: u64) -> Result<(), Error> {
+    if actual == expected {
+        Ok(())
+    } else {
+        Err(malformed("Malformed remaining length"))
+    }
+}
+
 fn validate_first_byte(actual: u8, expected: u8) -> Result<(), Error> {
     if actual == expected {
         Ok(())
-- 
2.43.0


From 47202ee6f76476786dc450a4d30e2135343ec189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:42 +0000
Subject: [PATCH 06/28] fix: refuse a user name without password

A CONNECT with a user name but no password crashed the client packet handler.
---
 src/broker/client_packet_handler.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bdbf76f..1ddff7d 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -120,10 +120,21 @@ impl ClientPacketHandler {
         debug!("New client {:?} connected", &client_id);
 
         if let Some(user_name) = packet.user_name {
-            let password = packet.password.unwrap();
-            if let Err(e) = self.identity_provider.authenticate(&user_name, &password) {
-                info!("Client {} authentication error: {:?}", &user_name, &e);
+            let authenticated = match &packet.password {
+                Some(password) => match self.identity_provider.authenticate(&user_name, password) {
+                    Ok(()) => true,
+                    Err(e) => {
+                        info!("Client {} authentication error: {:?}", &user_name, &e);
+                        false
+                    }
+                },
+                None => {
+                    info!("Client {} authentication error: no password", &user_name);
+                    false
+                }
+            };
 
+            if !authenticated {
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
                 sender
                     .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-- 
2.43.0


From 87778d13ed6d800f3efffee53766174fd451f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:45 +0000
Subject: [PATCH 07/28] fix: survive sending to a client that is gone

The client packet handler crashed when the connection's write task had ended.
---
 src/broker/client_packet_handler.rs | 37 +++++++++++------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 1ddff7d..bde9b53 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -110,6 +110,12 @@ impl ClientPacketHandler {
         };
     }
 
+    async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
+        if sender.send(event).await.is_err() {
+            debug!("Client is gone, server event dropped");
+        }
+    }
+
     async fn on_connect(
         &mut self,
         sender: Sender<ServerEvent>,
@@ -136,11 +142,8 @@ impl ClientPacketHandler {
 
             if !authenticated {
                 let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::NotAuthorized);
-                sender
-                    .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-                    .await
-                    .unwrap();
-                sender.send(ServerEvent::Disconnect).await.unwrap();
+                Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
+                Self::send(&sender, ServerEvent::Disconnect).await;
                 return;
             }
         };
@@ -174,10 +177,7 @@ impl ClientPacketHandler {
 
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
-        sender
-            .send(ServerEvent::ControlPacket(ConnAck(conn_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
 
         // debug!(
         //     "Active sessions count: {:?}",
@@ -234,7 +234,7 @@ impl ClientPacketHandler {
 
         for sender in senders_to_publish {
             let event = ServerEvent::ControlPacket(Publish(publish.clone()));
-            sender.send(event).await.unwrap();
+            Self::send(&sender, event).await;
         }
     }
 
@@ -261,10 +261,7 @@ impl ClientPacketHandler {
         }
 
         let sub_ack = SubAckPacket::new(subscribe.packet_id, return_codes);
-        sender
-            .send(ServerEvent::ControlPacket(SubAck(sub_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(SubAck(sub_ack))).await;
     }
 
     async fn on_unsubscribe(
@@ -282,10 +279,7 @@ impl ClientPacketHandler {
         let _ = rx.await.unwrap();
 
         let unsub_ack = UnSubAckPacket::new(unsubscribe.packet_id);
-        sender
-            .send(ServerEvent::ControlPacket(UnsubAck(unsub_ack)))
-            .await
-            .unwrap();
+        Self::send(&sender, ServerEvent::ControlPacket(UnsubAck(unsub_ack))).await;
     }
 
     async fn on_ping_req(&mut self, sender: Sender<ServerEvent>, client_id: &ClientId) {
@@ -314,16 +308,13 @@ impl ClientPacketHandler {
         };
 
         if session_present {
-            sender
-                .send(ServerEvent::ControlPacket(PingResp))
-                .await
-                .unwrap();
+            Self::send(&sender, ServerEvent::ControlPacket(PingResp)).await;
         } else {
             error!(
                 "Received PING from not existing session with client id {}",
                 client_id
             );
-            sender.send(ServerEvent::Disconnect).await.unwrap();
+            Self::send(&sender, ServerEvent::Disconnect).await;
         }
     }
 }
-- 
2.43.0


From 7e90cd3b3c1a375518b88bb91168f060285d8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 08/28] fix: keep one subscription per client and filter

Subscribing again duplicated the deliveries, and UNSUBSCRIBE removed only one
of the copies.
---
 src/broker/messaging/subscriptions_repository.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index db6e7c5..ba893c5 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -34,7 +34,9 @@ impl SubscriptionsRepository {
                 .entry(segment.to_string())
                 .or_insert(SubscriptionNode::new());
         }
-        node.clients.push(client_id.clone());
+        if !node.clients.contains(client_id) {
+            node.clients.push(client_id.clone());
+        }
         // println!("Nodes: {:?}", &self.root);
 
         SubAckReturnCode::SuccessQoS0
-- 
2.43.0


From 3e457084e88555e96f295fb3be707fbf2b38ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 09/28] fix: do not match topics starting with $ by a leading
 wildcard

---
 src/broker/messaging/subscriptions_repository.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index ba893c5..6291e32 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -83,7 +83,10 @@ impl SubscriptionsRepository {
 
         let mut nodes = vec![&self.root];
         let segments: Vec<&str> = topic.split("/").collect();
-        for segment in segments {
+        for (level, segment) in segments.into_iter().enumerate() {
+            // a wildcard at the first level does not match topics starting with $ - MQTT-4.7.2-1
+            let wildcards_match = level > 0 || !segment.starts_with('$');
+
             // nodes.iter().or itera
             let mut descendant_nodes = Vec::new();
             for node in nodes {
@@ -91,6 +94,10 @@ impl SubscriptionsRepository {
                     descendant_nodes.push(direct);
                 };
 
+                if !wildcards_match {
+                    continue;
+                }
+
                 if let Some(plus) = node.children.get("+") {
                     descendant_nodes.push(plus);
                 };
-- 
2.43.0


From 37efcd468801bbb37502e1298d33890954ede0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:13 +0000
Subject: [PATCH 10/28] fix: reject a PUBLISH whose topic name contains a
 wildcard

---
 src/mqtt/transport/packet_decoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 9589ff8..9dd4ded 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -215,6 +215,9 @@ async fn decode_publish(
 
     // variable header
     let topic = decode_string(buffer, &mut remaining_length).await?;
+    if topic.contains(|c| c == '+' || c == '#') {
+        return Err(malformed("Wildcard in topic name")); // MQTT-3.3.2-2
+    }
 
     let packet_id = if qos > QoS::AtMostOnce {
         consume(&mut remaining_length, 2)?;
-- 
2.43.0


From 20139516644dca79484ff1e3ccb8c90c3bd98ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:16 +0000
Subject: [PATCH 11/28] fix: deliver with the granted QoS 0

The publisher's QoS, packet id, DUP and RETAIN flags were passed on to the
subscribers.
---
 src/broker/client_packet_handler.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index bde9b53..6236789 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -232,8 +232,18 @@ impl ClientPacketHandler {
         self.messaging_tx.send(op).await.unwrap();
         let senders_to_publish = rx.await.unwrap();
 
+        // the packet id, DUP and RETAIN belong to the publisher; QoS 0 is all that is granted
+        let delivery = PublishPacket::new(
+            publish.message.topic,
+            publish.message.payload,
+            QoS::AtMostOnce,
+            false,
+            None,
+            false,
+        );
+
         for sender in senders_to_publish {
-            let event = ServerEvent::ControlPacket(Publish(publish.clone()));
+            let event = ServerEvent::ControlPacket(Publish(delivery.clone()));
             Self::send(&sender, event).await;
         }
     }
-- 
2.43.0


From ee7d7d711decfe0c9ccd8e9d10111cc0892e817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 12/28] fix: ignore packets of connections that have no session

Packets sent after a refused CONNECT, after DISCONNECT or from a connection
whose client id is used by another connection meanwhile took effect, on the
session of whoever currently uses the id.
---
 src/broker/client_packet_handler.rs       | 61 +++++++++++++----------
 src/broker/messaging/messaging_service.rs |  4 +-
 src/broker/session/session_entity.rs      |  2 +-
 3 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 6236789..9a82e82 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -89,6 +89,11 @@ impl ClientPacketHandler {
     ) {
         trace!("Got packet {:?}", packet);
 
+        if !self.has_session(&client_id, &tx).await {
+            debug!("Client {:?} has no session, packet {} ignored", &client_id, &packet);
+            return;
+        }
+
         match packet {
             // ControlPacket::Connect(c) => {
             //     self.on_connect(action.response, c, &mut sessions).await
@@ -110,6 +115,22 @@ impl ClientPacketHandler {
         };
     }
 
+    async fn session(&self, client_id: &ClientId) -> Option<Session> {
+        let (tx, rx) = oneshot::channel();
+        let op = MessagingOperation::SessionGet { client_id: client_id.clone(), resp: tx };
+
+        self.messaging_tx.send(op).await.unwrap();
+        rx.await.unwrap()
+    }
+
+    /// Whether the current session of the client belongs to the connection with given sender
+    async fn has_session(&self, client_id: &ClientId, sender: &Sender<ServerEvent>) -> bool {
+        match self.session(client_id).await {
+            Some(session) => session.sender().same_channel(sender),
+            None => false,
+        }
+    }
+
     async fn send(sender: &Sender<ServerEvent>, event: ServerEvent) {
         if sender.send(event).await.is_err() {
             debug!("Client is gone, server event dropped");
@@ -148,33 +169,21 @@ impl ClientPacketHandler {
             }
         };
 
-        let session_present = {
-            let (tx, rx) = oneshot::channel();
-            let op = MessagingOperation::SessionGet { client_id: client_id.clone(), resp: tx };
-
-            self.messaging_tx.send(op).await.unwrap();
-            let maybe_session = rx.await.unwrap();
-
-            if let Some(session) = maybe_session {
-                // session.set_last_activity(Utc::now());
-                true
-            } else {
-                let session = Session::new(
-                    client_id,
-                    address.ip(),
-                    !packet.clean_session,
-                    sender.clone(),
-                    packet.keep_alive_seconds,
-                    Utc::now(),
-                );
-                let (insert_tx, insert_rx) = oneshot::channel();
-                let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
-                self.messaging_tx.send(op).await.unwrap();
-                let insert_result = insert_rx.await.unwrap();
-                false
-            }
-        };
+        let session = Session::new(
+            client_id,
+            address.ip(),
+            !packet.clean_session,
+            sender.clone(),
+            packet.keep_alive_seconds,
+            Utc::now(),
+        );
+        let (insert_tx, insert_rx) = oneshot::channel();
+        let op = MessagingOperation::SessionInsert { session, resp: insert_tx };
+        self.messaging_tx.send(op).await.unwrap();
+        insert_rx.await.unwrap();
 
+        // sessions do not outlive their connections
+        let session_present = false;
         let conn_ack = ConnAckPacket::new(session_present, ConnAckReturnCode::Accepted);
 
         Self::send(&sender, ServerEvent::ControlPacket(ConnAck(conn_ack))).await;
diff --git a/src/broker/messaging/messaging_service.rs b/src/broker/messaging/messaging_service.rs
index fc84a90..2088b1d 100644
--- a/src/broker/messaging/messaging_service.rs
+++ b/src/broker/messaging/messaging_service.rs
@@ -95,8 +95,8 @@ impl MessagingService {
                     let _ = resp.send(());
                 }
                 MessagingOperation::SessionGet { client_id, resp } => {
-                    // let result = self.session_get(&client_id);
-                    let _ = resp.send(None);
+                    let result = self.session_get(&client_id).cloned();
+                    let _ = resp.send(result);
                 }
                 MessagingOperation::SessionGetExpiredKeepAlive { resp } => {
                     // let result = self.session_get_keep_alive_expired();
diff --git a/src/broker/session/session_entity.rs b/src/broker/session/session_entity.rs
index 7163fe8..ecc6c07 100644
--- a/src/broker/session/session_entity.rs
+++ b/src/broker/session/session_entity.rs
@@ -4,7 +4,7 @@ use chrono::{DateTime, Duration, Utc};
 use std::net::IpAddr;
 use tokio::sync::mpsc::Sender;
 
-#[derive(Debug)]
+#[derive(Debug, Clone)]
 pub struct Session {
     client_id: ClientId,
     ip: IpAddr,
-- 
2.43.0


From f445847de3a056ea1434ed0ddf9c6e2104a11679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:40 +0000
Subject: [PATCH 13/28] fix: close the old connection when its client id is
 used again

The new connection inherited the old one's subscriptions, and the old one
stayed open.
---
 src/broker/client_packet_handler.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 9a82e82..5d3d0f7 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -169,6 +169,17 @@ impl ClientPacketHandler {
             }
         };
 
+        if let Some(old_session) = self.session(&client_id).await {
+            // MQTT-3.1.4-2
+            info!("Client {:?} connected again, closing its old connection", &client_id);
+            self.on_connection_lost(client_id.clone()).await;
+
+            // must not wait for the old connection's client to read
+            tokio::spawn(async move {
+                Self::send(old_session.sender(), ServerEvent::Disconnect).await;
+            });
+        }
+
         let session = Session::new(
             client_id,
             address.ip(),
-- 
2.43.0


From 017fbf726bf8b20231a87a240ad50509ec3f2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 14/28] fix: end the session when its connection ends

Nobody told the client packet handler when a connection was lost, so sessions
and subscriptions stayed forever. The connection is closed after DISCONNECT,
after a second CONNECT and after malformed data, and it is not read any more
once the broker has closed it.
---
 src/broker/client_packet_handler.rs |  6 +++--
 src/mqtt/events.rs                  |  2 +-
 src/mqtt/listener.rs                | 36 +++++++++++++++++++++++++++--
 3 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 5d3d0f7..5043513 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -69,8 +69,10 @@ impl ClientPacketHandler {
                                 self.on_packet(client_id, packet, tx).await;
                             }
                             ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id) => {
-                                self.on_connection_lost(client_id).await;
+                            ClientEvent::ConnectionLost(client_id, tx) => {
+                                if self.has_session(&client_id, &tx).await {
+                                    self.on_connection_lost(client_id).await;
+                                }
                             }
                         }
                     }
diff --git a/src/mqtt/events.rs b/src/mqtt/events.rs
index 4ac7c3a..6ec9dca 100644
--- a/src/mqtt/events.rs
+++ b/src/mqtt/events.rs
@@ -7,7 +7,7 @@ pub enum ClientEvent {
     Connected(ConnectPacket, SocketAddr, Sender<ServerEvent>),
     ControlPacket(ClientId, ControlPacket, Sender<ServerEvent>),
     Disconnected(ClientId),
-    ConnectionLost(ClientId),
+    ConnectionLost(ClientId, Sender<ServerEvent>),
 }
 
 #[derive(Debug)]
diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index 06a6ee4..f5a1e8c 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -1,5 +1,5 @@
 use crate::mqtt::events::{ClientEvent, ServerEvent};
-use crate::mqtt::packets::ControlPacket;
+use crate::mqtt::packets::{ClientId, ControlPacket};
 use crate::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
 use crate::mqtt::transport::packet_decoder::read_packet;
 use crate::mqtt::transport::packet_encoder::write_packet;
@@ -118,16 +118,48 @@ impl MqttListener {
             return;
         }
 
+        select! {
+            _ = Self::forward_packets(&client_id, &client_event_tx, &server_event_tx, read_stream) => {}
+            _ = server_event_tx.closed() => {
+                trace!("The broker closed the connection");
+            }
+        }
+
+        let event = ClientEvent::ConnectionLost(client_id, server_event_tx);
+        if let Err(e) = client_event_tx.send(event).await {
+            error!("Error while sending client event to be processed: {}", &e);
+        }
+        trace!("Client read task ended");
+    }
+
+    async fn forward_packets(
+        client_id: &ClientId,
+        client_event_tx: &Sender<ClientEvent>,
+        server_event_tx: &Sender<ServerEvent>,
+        mut read_stream: &mut MqttBytesReadStream,
+    ) {
         while let Ok(packet) = read_packet(&mut read_stream).await {
             trace!("Read packet: {:?}", &packet);
 
+            if let ControlPacket::Connect(_) = packet {
+                // MQTT-3.1.0-2
+                warn!("Client {:?} sent CONNECT again", client_id);
+                return;
+            }
+
+            // nothing may follow DISCONNECT - MQTT-3.14.4-2
+            let last_packet = matches!(packet, ControlPacket::Disconnect(_));
+
             let event =
                 ClientEvent::ControlPacket(client_id.clone(), packet, server_event_tx.clone());
             if let Err(e) = client_event_tx.send(event).await {
                 error!("Error while sending client event to be processed: {}", &e);
             }
+
+            if last_packet {
+                return;
+            }
         }
-        trace!("Client read task ended");
     }
 
     async fn connection_write_loop(
-- 
2.43.0


From dc9dd16d556b34ef6840484c5f2c90c62309da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 15/28] fix: stop on interrupt while a client does not read

The client packet handler did not notice the interrupt while it waited for
room in a client's queue, so the broker never terminated.
---
 src/application.rs                  |  3 +-
 src/broker/client_packet_handler.rs | 55 ++++++++++++++---------------
 2 files changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/application.rs b/src/application.rs
index 7529075..92823fe 100644
--- a/src/application.rs
+++ b/src/application.rs
@@ -32,12 +32,11 @@ pub async fn run(config_filename: &str) {
 
     let manager = ClientPacketHandler::new(
         client_rx,
-        ctrl_c_rx,
         &settings,
         messaging_tx,
         // Arc::clone(&messaging_service),
     );
-    let manager_future = tokio::spawn(manager.run());
+    let manager_future = tokio::spawn(manager.run(ctrl_c_rx));
 
     let messaging_service_future = tokio::spawn(messaging_service.run(messaging_rx));
 
diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index 5043513..e95ba9b 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -22,7 +22,6 @@ use crate::settings::Settings;
 
 pub struct ClientPacketHandler {
     rx: mpsc::Receiver<ClientEvent>,
-    ctrl_c_rx: broadcast::Receiver<()>,
     // sessions: SessionService<InMemorySessionRepository>,
     // messaging: MessagingServiceSync,
     messaging_tx: MessagingTx,
@@ -32,7 +31,6 @@ pub struct ClientPacketHandler {
 impl ClientPacketHandler {
     pub fn new(
         rx: Receiver<ClientEvent>,
-        ctrl_c_rx: broadcast::Receiver<()>,
         settings: &Settings,
         // messaging: MessagingServiceSync,
         messaging_tx: MessagingTx,
@@ -43,7 +41,6 @@ impl ClientPacketHandler {
 
         ClientPacketHandler {
             rx,
-            ctrl_c_rx,
             // sessions: SessionService::default(),
             // messaging,
             messaging_tx,
@@ -51,38 +48,38 @@ impl ClientPacketHandler {
         }
     }
 
-    pub async fn run(mut self) {
-        loop {
-            select! {
-                _ = self.ctrl_c_rx.recv() => {
-                    debug!("Stopping manager...");
-                    break;
-                }
-                 maybe_event = self.rx.recv() => {
-                    if let Some(event) = maybe_event {
-                        trace!("Got event {:?}", &event);
-
-                        match event {
-
-                            ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
-                            ClientEvent::ControlPacket(client_id, packet, tx) => {
-                                self.on_packet(client_id, packet, tx).await;
-                            }
-                            ClientEvent::Disconnected(_client_id) => {}
-                            ClientEvent::ConnectionLost(client_id, tx) => {
-                                if self.has_session(&client_id, &tx).await {
-                                    self.on_connection_lost(client_id).await;
-                                }
-                            }
-                        }
-                    }
-                 }
+    pub async fn run(mut self, mut ctrl_c_rx: broadcast::Receiver<()>) {
+        select! {
+            // also while an event is being processed: that may wait for a client that does not read
+            _ = ctrl_c_rx.recv() => {
+                debug!("Stopping manager...");
             }
+            _ = self.process_events() => {}
         }
 
         debug!("Stopped Manager");
     }
 
+    async fn process_events(&mut self) {
+        while let Some(event) = self.rx.recv().await {
+            trace!("Got event {:?}", &event);
+
+            match event {
+
+                ClientEvent::Connected(c, address, tx) => self.on_connect(tx, c, address).await,
+                ClientEvent::ControlPacket(client_id, packet, tx) => {
+                    self.on_packet(client_id, packet, tx).await;
+                }
+                ClientEvent::Disconnected(_client_id) => {}
+                ClientEvent::ConnectionLost(client_id, tx) => {
+                    if self.has_session(&client_id, &tx).await {
+                        self.on_connection_lost(client_id).await;
+                    }
+                }
+            }
+        }
+    }
+
     async fn on_packet(
         &mut self,
         client_id: String,
-- 
2.43.0


From 01f862e1f5b8a34cd557ddb883e32d4589285e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 16/28] fix: do not expire sessions with odd keep alives half a
 second early

---
 src/broker/session/session_entity.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/broker/session/session_entity.rs b/src/broker/session/session_entity.rs
index ecc6c07..92d2629 100644
--- a/src/broker/session/session_entity.rs
+++ b/src/broker/session/session_entity.rs
@@ -54,8 +54,9 @@ impl Session {
             return false;
         }
 
-        let leeway_seconds = (self.keep_alive_seconds as f32 * 1.5) as i64;
-        let keep_alive_expires_at = self.last_activity + Duration::seconds(leeway_seconds);
+        let leeway_milliseconds = self.keep_alive_seconds as i64 * 1500; // one and a half times
+        let keep_alive_expires_at =
+            self.last_activity + Duration::milliseconds(leeway_milliseconds);
 
         &keep_alive_expires_at <= now
     }
-- 
2.43.0


From 48f28f662c4e9dad1b95a7efc70eac0afe26ef37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:14 +0000
Subject: [PATCH 17/28] fix: change exactly the entry of the given user in the
 passwd file

Entries whose name ended in the user name or differed in case were matched too,
the last entry was not found without a line break at its end, and a new entry
was glued to it. Names that cannot be stored are refused.
---
 ratelmq-passwd/src/main.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index f2b1d8f..5c1ae83 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -25,9 +25,14 @@ fn main() {
     let password = arguments.value_of(ARGUMENT_NAME_PASSWORD);
     let delete = arguments.is_present(ARGUMENT_NAME_DELETE);
 
-    let regexp_format = format!(r"{}{}", regex::escape(user_name), r":.*\n");
+    if user_name.contains(|c| c == ':' || c == '\n') {
+        eprintln!("User name must not contain ':' or line breaks");
+        std::process::exit(1);
+    }
+
+    // the entry's whole line, also the last one without a line break at its end
+    let regexp_format = format!(r"^{}{}", regex::escape(user_name), r":.*\n?");
     let regexp = RegexBuilder::new(regexp_format.as_str())
-        .case_insensitive(true)
         .multi_line(true)
         .build()
         .unwrap();
@@ -35,19 +40,19 @@ fn main() {
     let credentials = std::fs::read_to_string(file_name).unwrap();
 
     let entry_exists = regexp.is_match(credentials.as_str());
-    let updated_credentials = if entry_exists {
-        let text = match delete {
-            true => "".to_string(),
-            false => build_entry(user_name, password).replace("$", "$$"), // for regexp
-        };
+    let updated_credentials = if !delete {
+        let mut credentials = regexp.replace_all(credentials.as_str(), "").into_owned();
+        if !credentials.is_empty() && !credentials.ends_with('\n') {
+            credentials.push('\n');
+        }
 
+        Some(credentials + build_entry(user_name, password).as_str())
+    } else if entry_exists {
         Some(
             regexp
-                .replace(credentials.as_str(), text.as_str())
+                .replace_all(credentials.as_str(), "")
                 .into_owned(),
         )
-    } else if !delete {
-        Some(credentials + build_entry(user_name, password).as_str())
     } else {
         None
     };
-- 
2.43.0


From 7d1ecef745268b7b47a01da748e8e39d011dd474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 18/28] fix: replace the passwd file atomically

An interrupted run could leave the file empty or cut off.
---
 ratelmq-passwd/src/main.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 5c1ae83..0e3c4e2 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,5 +1,7 @@
 use clap::{App, Arg, ArgMatches};
 use regex::RegexBuilder;
+use std::fs::File;
+use std::io::Write;
 
 use argon2::{
     password_hash::{rand_core::OsRng, PasswordHasher, SaltString},
@@ -58,10 +60,32 @@ fn main() {
     };
 
     if let Some(new_file_content) = updated_credentials {
-        std::fs::write(file_name, new_file_content).unwrap();
+        replace_file(file_name, new_file_content.as_str()).unwrap();
     }
 }
 
+/// Replaces the file's content at once, so that an interruption cannot leave a part of it
+fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
+    let path = std::fs::canonicalize(file_name)?;
+    let metadata = std::fs::metadata(&path)?;
+
+    let mut temporary_path = path.clone().into_os_string();
+    temporary_path.push(format!(".{}.tmp", std::process::id()));
+
+    let mut file = File::create(&temporary_path)?;
+    file.set_permissions(metadata.permissions())?;
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::{fchown, MetadataExt};
+        // only possible as root, otherwise the file belongs to the one who changes it
+        let _ = fchown(&file, Some(metadata.uid()), Some(metadata.gid()));
+    }
+    file.write_all(content.as_bytes())?;
+    file.sync_all()?;
+
+    std::fs::rename(&temporary_path, &path)
+}
+
 fn build_arguments(version: String) -> ArgMatches {
     App::new("ratelmq-passwd")
         .version(version.as_str())
-- 
2.43.0


From 060c78cbca7afd60fa94b9f52d8fd4faf2de4f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:19 +0000
Subject: [PATCH 19/28] fix: allow to set listeners_tcp by an environment
 variable

RATELMQ_MQTT__LISTENERS_TCP made loading the settings fail, because the value
of an environment variable is a string.
---
 src/settings/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/settings/mod.rs b/src/settings/mod.rs
index fac0357..fd2c0e5 100644
--- a/src/settings/mod.rs
+++ b/src/settings/mod.rs
@@ -1,8 +1,9 @@
 use config::{Config, ConfigError, Environment, File, FileFormat};
-use serde::Deserialize;
+use serde::{Deserialize, Deserializer};
 
 #[derive(Debug, Deserialize)]
 pub struct MqttSettings {
+    #[serde(deserialize_with = "list_or_comma_separated")]
     pub listeners_tcp: Vec<String>,
 }
 
@@ -28,4 +29,22 @@ impl Settings {
     }
 }
 
+/// Environment variables cannot hold a list, only a string with its items
+fn list_or_comma_separated<'de, D>(deserializer: D) -> Result<Vec<String>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum ListOrString {
+        List(Vec<String>),
+        String(String),
+    }
+
+    Ok(match ListOrString::deserialize(deserializer)? {
+        ListOrString::List(items) => items,
+        ListOrString::String(items) => items.split(',').map(|i| i.trim().to_owned()).collect(),
+    })
+}
+
 // todo: tests for envs precedence
-- 
2.43.0


From 5b0a9acdd466c66c02b578f3d241d6b700069ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:20 +0000
Subject: [PATCH 20/28] fix: do not overflow the stack on deeply nested topic
 filters

---
 .../messaging/subscriptions_repository.rs     | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index 6291e32..fd59ef7 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -120,15 +120,17 @@ impl SubscriptionsRepository {
         // None
     }
 
-    fn remove_client(node: &mut SubscriptionNode, client_id: &ClientId) {
-        node.clients
-            .iter()
-            .position(|c| c == client_id)
-            .map(|p| node.clients.remove(p));
+    // the depth of the tree depends on clients' filters, so it must not be walked recursively
+    fn remove_client(root: &mut SubscriptionNode, client_id: &ClientId) {
+        let mut nodes = vec![root];
+        while let Some(node) = nodes.pop() {
+            node.clients
+                .iter()
+                .position(|c| c == client_id)
+                .map(|p| node.clients.remove(p));
 
-        node.children
-            .iter_mut()
-            .for_each(|c| Self::remove_client(c.1, client_id));
+            nodes.extend(node.children.values_mut());
+        }
     }
 }
 
@@ -147,6 +149,16 @@ impl SubscriptionNode {
     }
 }
 
+impl Drop for SubscriptionNode {
+    // the default drop would recurse as deep as the tree is
+    fn drop(&mut self) {
+        let mut nodes: Vec<SubscriptionNode> = self.children.drain().map(|(_, n)| n).collect();
+        while let Some(mut node) = nodes.pop() {
+            nodes.extend(node.children.drain().map(|(_, n)| n));
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use crate::mqtt::packets::QoS;
-- 
2.43.0


From 7d62b7ba1fb556a6c6c628ffee01c385961a20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:24 +0000
Subject: [PATCH 21/28] fix: filters that nobody holds any more stayed in
 memory

UNSUBSCRIBE even added the nodes of filters it did not know. The nodes that lead
to no client are removed now when a subscription or a session ends.
---
 .../messaging/subscriptions_repository.rs     | 87 +++++++++++++------
 1 file changed, 60 insertions(+), 27 deletions(-)

diff --git a/src/broker/messaging/subscriptions_repository.rs b/src/broker/messaging/subscriptions_repository.rs
index fd59ef7..891312a 100644
--- a/src/broker/messaging/subscriptions_repository.rs
+++ b/src/broker/messaging/subscriptions_repository.rs
@@ -44,38 +44,26 @@ impl SubscriptionsRepository {
 
     pub fn unsubscribe(&mut self, client_id: &ClientId, topics: &Vec<String>) {
         for topic in topics {
-            // if let Some(client_ids) = self.subscriptions.get_mut(topic) {
-            // client_ids.remove(client_id);
-            // }
-            let mut node = &mut self.root;
-
-            // subscription.topic().split("/").for_each(|x| {
-            //     node = node.children.entry(x.to_string()).or_insert(SubscriptionNode::new());
-            // });
-
             let segments: Vec<&str> = topic.split("/").collect();
-            for segment in segments {
-                node = node
-                    .children
-                    .entry(segment.to_string())
-                    .or_insert(SubscriptionNode::new());
-            }
+            let Some(node) = Self::node_mut(&mut self.root, &segments) else {
+                continue;
+            };
 
             node.clients
                 .iter()
                 .position(|c| c == client_id)
                 .map(|p| node.clients.remove(p));
-            // node.clients.(client_id.clone());
-            // println!("Nodes: {:?}", &self.root);
+
+            self.remove_unused(&segments);
         }
     }
 
     pub fn disconnected(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.unsubscribe(client_id, &self.filters(client_id));
     }
 
     pub fn connections_lost(&mut self, client_id: &ClientId) {
-        Self::remove_client(&mut self.root, client_id);
+        self.unsubscribe(client_id, &self.filters(client_id));
     }
 
     pub fn subscribed_clients(&self, topic: &String) -> Option<Vec<ClientId>> {
@@ -120,17 +108,62 @@ impl SubscriptionsRepository {
         // None
     }
 
+    fn node_mut<'a>(
+        root: &'a mut SubscriptionNode,
+        segments: &[&str],
+    ) -> Option<&'a mut SubscriptionNode> {
+        let mut node = root;
+        for segment in segments {
+            node = node.children.get_mut(*segment)?;
+        }
+        Some(node)
+    }
+
+    /// Removes the nodes on the way to the last segment that lead to no client any more
+    fn remove_unused(&mut self, segments: &[&str]) {
+        let mut node = &self.root;
+        let mut used = 0;
+        for (depth, segment) in segments.iter().enumerate() {
+            if !node.clients.is_empty() || node.children.len() > 1 {
+                used = depth;
+            }
+            node = &node.children[*segment];
+        }
+
+        if node.clients.is_empty() && node.children.is_empty() {
+            if let Some(parent) = Self::node_mut(&mut self.root, &segments[..used]) {
+                parent.children.remove(segments[used]);
+            }
+        }
+    }
+
     // the depth of the tree depends on clients' filters, so it must not be walked recursively
-    fn remove_client(root: &mut SubscriptionNode, client_id: &ClientId) {
-        let mut nodes = vec![root];
-        while let Some(node) = nodes.pop() {
-            node.clients
-                .iter()
-                .position(|c| c == client_id)
-                .map(|p| node.clients.remove(p));
+    fn filters(&self, client_id: &ClientId) -> Vec<String> {
+        let mut filters = Vec::new();
+
+        // nodes with their segments and the positions of their parents
+        let mut nodes = vec![(&self.root, "", 0)];
+        let mut position = 0;
+        while position < nodes.len() {
+            let node = nodes[position].0;
+
+            if node.clients.contains(client_id) {
+                let mut segments = Vec::new();
+                let mut ancestor = position;
+                while ancestor != 0 {
+                    segments.push(nodes[ancestor].1);
+                    ancestor = nodes[ancestor].2;
+                }
+                segments.reverse();
+                filters.push(segments.join("/"));
+            }
 
-            nodes.extend(node.children.values_mut());
+            let children = node.children.iter();
+            nodes.extend(children.map(|(segment, child)| (child, segment.as_str(), position)));
+            position += 1;
         }
+
+        filters
     }
 }
 
-- 
2.43.0


From 44ec5762fb4b1449ef36ec8b149244e8ab42de30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:25 +0000
Subject: [PATCH 22/28] fix: do not log passwords of clients

---
 src/mqtt/packets/connect.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/packets/connect.rs b/src/mqtt/packets/connect.rs
index e24e349..b533350 100644
--- a/src/mqtt/packets/connect.rs
+++ b/src/mqtt/packets/connect.rs
@@ -1,8 +1,9 @@
 use crate::mqtt::packets::{ClientId, ProtocolVersion};
 
 use crate::mqtt::message::Message;
+use std::fmt;
 
-#[derive(Debug, PartialEq, Clone, Default)]
+#[derive(PartialEq, Clone, Default)]
 pub struct ConnectPacket {
     pub version: ProtocolVersion,
     pub client_id: ClientId,
@@ -36,3 +37,18 @@ impl ConnectPacket {
         }
     }
 }
+
+impl fmt::Debug for ConnectPacket {
+    // packets are logged, passwords must not be
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("ConnectPacket")
+            .field("version", &self.version)
+            .field("client_id", &self.client_id)
+            .field("keep_alive_seconds", &self.keep_alive_seconds)
+            .field("clean_session", &self.clean_session)
+            .field("will_message", &self.will_message)
+            .field("user_name", &self.user_name)
+            .field("password", &self.password.as_ref().map(|_| "***"))
+            .finish()
+    }
+}
-- 
2.43.0


From 83f28c286c37c3df2081d32698ade7669c9d944b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:00 +0000
Subject: [PATCH 23/28] fix: take memory for a packet only as its bytes arrive

---
 src/mqtt/transport/mqtt_bytes_stream.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mqtt/transport/mqtt_bytes_stream.rs b/src/mqtt/transport/mqtt_bytes_stream.rs
index d9d82e9..d424ef1 100644
--- a/src/mqtt/transport/mqtt_bytes_stream.rs
+++ b/src/mqtt/transport/mqtt_bytes_stream.rs
@@ -216,7 +216,8 @@ impl MqttBytesReadStream {
     }
 
     pub async fn get_bytes(&mut self, size: usize) -> Result<BytesMut, Error> {
-        let mut bytes = BytesMut::with_capacity(size);
+        // memory for as much as has come, not for as much as the client announced
+        let mut bytes = BytesMut::with_capacity(size.min(4096));
 
         let mut remaining_length = size;
 
-- 
2.43.0


From 5acd6210963787c16203fba67de3f576e8664346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:00 +0000
Subject: [PATCH 24/28] fix: keep the new passwd file private from its creation
 on

---
 ratelmq-passwd/src/main.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 0e3c4e2..5dff20d 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,6 +1,6 @@
 use clap::{App, Arg, ArgMatches};
 use regex::RegexBuilder;
-use std::fs::File;
+use std::fs::OpenOptions;
 use std::io::Write;
 
 use argon2::{
@@ -72,14 +72,23 @@ fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
     let mut temporary_path = path.clone().into_os_string();
     temporary_path.push(format!(".{}.tmp", std::process::id()));
 
-    let mut file = File::create(&temporary_path)?;
-    file.set_permissions(metadata.permissions())?;
+    let mut options = OpenOptions::new();
+    options.write(true).create(true).truncate(true);
+    #[cfg(unix)]
+    {
+        use std::os::unix::fs::OpenOptionsExt;
+        // nobody else may open it before it has the owner and permissions of the file
+        options.mode(0o600);
+    }
+
+    let mut file = options.open(&temporary_path)?;
     #[cfg(unix)]
     {
         use std::os::unix::fs::{fchown, MetadataExt};
         // only possible as root, otherwise the file belongs to the one who changes it
         let _ = fchown(&file, Some(metadata.uid()), Some(metadata.gid()));
     }
+    file.set_permissions(metadata.permissions())?;
     file.write_all(content.as_bytes())?;
     file.sync_all()?;
 
-- 
2.43.0


From 552760dc7f997978b26b75974ad8a1d9398105e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:44 +0000
Subject: [PATCH 25/28] fix: a change of the credential file is lost when two
 runs of the password tool overlap

---
 ratelmq-passwd/src/main.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/ratelmq-passwd/src/main.rs b/ratelmq-passwd/src/main.rs
index 5dff20d..6988c73 100644
--- a/ratelmq-passwd/src/main.rs
+++ b/ratelmq-passwd/src/main.rs
@@ -1,6 +1,6 @@
 use clap::{App, Arg, ArgMatches};
 use regex::RegexBuilder;
-use std::fs::OpenOptions;
+use std::fs::{File, OpenOptions};
 use std::io::Write;
 
 use argon2::{
@@ -39,6 +39,7 @@ fn main() {
         .build()
         .unwrap();
 
+    let _locked_file = lock(file_name).unwrap();
     let credentials = std::fs::read_to_string(file_name).unwrap();
 
     let entry_exists = regexp.is_match(credentials.as_str());
@@ -64,6 +65,27 @@ fn main() {
     }
 }
 
+/// Keeps other runs from changing the file until the result is dropped, as a change that is made
+/// between reading and replacing it would be lost
+fn lock(file_name: &str) -> std::io::Result<File> {
+    loop {
+        let file = File::open(file_name)?;
+        file.lock()?;
+
+        #[cfg(unix)]
+        {
+            use std::os::unix::fs::MetadataExt;
+            // the run that held the lock has replaced the file
+            let (locked, current) = (file.metadata()?, std::fs::metadata(file_name)?);
+            if (locked.dev(), locked.ino()) != (current.dev(), current.ino()) {
+                continue;
+            }
+        }
+
+        return Ok(file);
+    }
+}
+
 /// Replaces the file's content at once, so that an interruption cannot leave a part of it
 fn replace_file(file_name: &str, content: &str) -> std::io::Result<()> {
     let path = std::fs::canonicalize(file_name)?;
-- 
2.43.0


From 4a233b2c01c29a6a61d19c58a4f31c1b06299431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:31 +0000
Subject: [PATCH 26/28] fix: a user name can forge lines of the log

It was logged as it was sent, with its line breaks and other control characters. Clients need not
be authenticated for that.
---
 src/broker/client_packet_handler.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/broker/client_packet_handler.rs b/src/broker/client_packet_handler.rs
index e95ba9b..6307ee0 100644
--- a/src/broker/client_packet_handler.rs
+++ b/src/broker/client_packet_handler.rs
@@ -150,12 +150,12 @@ impl ClientPacketHandler {
                 Some(password) => match self.identity_provider.authenticate(&user_name, password) {
                     Ok(()) => true,
                     Err(e) => {
-                        info!("Client {} authentication error: {:?}", &user_name, &e);
+                        info!("Client {:?} authentication error: {:?}", &user_name, &e);
                         false
                     }
                 },
                 None => {
-                    info!("Client {} authentication error: no password", &user_name);
+                    info!("Client {:?} authentication error: no password", &user_name);
                     false
                 }
             };
-- 
2.43.0


From 8330ce17e8458e012f18c686e559a74082c58001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:41 +0000
Subject: [PATCH 27/28] fix: clients of unsupported protocols are taken for
 MQTT 3.1.1 clients

The protocol name and level and the reserved flags of CONNECT were ignored, so that the payload of
an MQTT 5 client was read with the wrong layout. An unsupported level is answered with CONNACK 0x01
(MQTT-3.1.2-2) and everything else closes the connection (MQTT-3.1.2-3, MQTT-3.1.2-11).
---
 src/mqtt/listener.rs                 | 15 +++++++++++++--
 src/mqtt/transport/packet_decoder.rs | 22 ++++++++++++++++++++--
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/mqtt/listener.rs b/src/mqtt/listener.rs
index f5a1e8c..8cb3290 100644
--- a/src/mqtt/listener.rs
+++ b/src/mqtt/listener.rs
@@ -1,11 +1,12 @@
 use crate::mqtt::events::{ClientEvent, ServerEvent};
+use crate::mqtt::packets::connack::{ConnAckPacket, ConnAckReturnCode};
 use crate::mqtt::packets::{ClientId, ControlPacket};
 use crate::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
 use crate::mqtt::transport::packet_decoder::read_packet;
 use crate::mqtt::transport::packet_encoder::write_packet;
 use log::{debug, error, info, trace, warn};
 use std::net::SocketAddr;
-use tokio::io::Error;
+use tokio::io::{Error, ErrorKind};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::select;
 use tokio::sync::mpsc::{Receiver, Sender};
@@ -93,7 +94,17 @@ impl MqttListener {
     ) {
         // the first packet must be CONNECT - MQTT-3.1.0-1
         let client_id;
-        if let Ok(packet) = read_packet(&mut read_stream).await {
+        let first_packet = read_packet(&mut read_stream).await;
+        if matches!(&first_packet, Err(e) if e.kind() == ErrorKind::Unsupported) {
+            // MQTT-3.1.2-2
+            let conn_ack = ConnAckPacket::new(false, ConnAckReturnCode::UnacceptableProtocolVersion);
+            let event = ServerEvent::ControlPacket(ControlPacket::ConnAck(conn_ack));
+            if server_event_tx.send(event).await.is_err() {
+                debug!("Client is gone, server event dropped");
+            }
+        }
+
+        if let Ok(packet) = first_packet {
             trace!("Read the first packet: {:?}", &packet);
 
             if let ControlPacket::Connect(mut c) = packet {
diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 9dd4ded..3d2887c 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -124,9 +124,9 @@ async fn decode_connect(
     validate_first_byte(first_byte, 0b00010000)?;
 
     // variable header
-    let _protocol_name = decode_string(buffer, &mut remaining_length).await?;
+    let protocol_name = decode_string(buffer, &mut remaining_length).await?;
     consume(&mut remaining_length, 4 /* level + flags + keep alive */)?;
-    let _protocol_level = buffer.get_u8().await?;
+    let protocol_level = buffer.get_u8().await?;
     let connect_flags_byte = buffer.get_u8().await?;
     let connect_flags = ConnectFlags::from_bits_truncate(connect_flags_byte);
 
@@ -134,6 +134,24 @@ async fn decode_connect(
 
     let keep_alive_seconds = buffer.get_u16().await?;
 
+    match (protocol_name.as_str(), protocol_level) {
+        ("MQTT", 4) | ("MQIsdp", 3) => {}
+        ("MQTT", _) | ("MQIsdp", _) => {
+            // the payload may have another layout
+            buffer.get_bytes(remaining_length as usize).await?;
+            return Err(Error::new(ErrorKind::Unsupported, "Unsupported protocol level"));
+        }
+        _ => return Err(malformed("Unknown protocol")),
+    }
+
+    if connect_flags.contains(ConnectFlags::RESERVED) {
+        return Err(malformed("Malformed connect flags")); // MQTT-3.1.2-3
+    }
+    let will_flags = ConnectFlags::WILL_QOS | ConnectFlags::WILL_RETAIN;
+    if connect_flags.intersects(will_flags) && !connect_flags.contains(ConnectFlags::WILL) {
+        return Err(malformed("Malformed will flags")); // MQTT-3.1.2-11
+    }
+
     // payload
     let client_id = decode_string(buffer, &mut remaining_length).await?;
 
-- 
2.43.0


From b99fe8d1c35fae3ddeff115c8ccfa2aace63d739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:07 +0000
Subject: [PATCH 28/28] fix: malformed topic filters and empty topic names are
 accepted

A filter whose wildcard is not a whole level or whose '#' is not the last one was granted, and held,
though it can match nothing. MQTT forbids such filters and names (MQTT-4.7.1-2, MQTT-4.7.1-3,
MQTT-4.7.3-1, MQTT-4.7.3-2); the connection is closed as for wildcards in a topic name.
---
 src/mqtt/transport/packet_decoder.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/mqtt/transport/packet_decoder.rs b/src/mqtt/transport/packet_decoder.rs
index 3d2887c..7a8ca72 100644
--- a/src/mqtt/transport/packet_decoder.rs
+++ b/src/mqtt/transport/packet_decoder.rs
@@ -236,6 +236,7 @@ async fn decode_publish(
     if topic.contains(|c| c == '+' || c == '#') {
         return Err(malformed("Wildcard in topic name")); // MQTT-3.3.2-2
     }
+    validate_topic(&topic)?;
 
     let packet_id = if qos > QoS::AtMostOnce {
         consume(&mut remaining_length, 2)?;
@@ -311,6 +312,7 @@ async fn decode_subscribe(
     let mut subscriptions = Vec::new();
     while remaining_length > 0 {
         let topic = decode_string(buffer, &mut remaining_length).await?;
+        validate_topic_filter(&topic)?;
         consume(&mut remaining_length, 1)?;
         let qos = buffer.get_u8().await?;
         if qos > 2 {
@@ -346,6 +348,7 @@ async fn decode_unsubscribe(
     let mut topics = Vec::new();
     while remaining_length > 0 {
         let topic = decode_string(buffer, &mut remaining_length).await?;
+        validate_topic_filter(&topic)?;
 
         topics.push(topic);
     }
@@ -376,6 +379,30 @@ async fn decode_string(
     buffer.get_str(string_size as usize).await
 }
 
+fn validate_topic(topic: &str) -> Result<(), Error> {
+    // MQTT-4.7.3-1, MQTT-4.7.3-2
+    if topic.is_empty() || topic.contains('\0') {
+        Err(malformed("Malformed topic"))
+    } else {
+        Ok(())
+    }
+}
+
+/// Wildcards must be whole levels and '#' the last one - MQTT-4.7.1-2, MQTT-4.7.1-3
+fn validate_topic_filter(filter: &str) -> Result<(), Error> {
+    validate_topic(filter)?;
+
+    let mut levels = filter.split('/').peekable();
+    while let Some(level) = levels.next() {
+        let misplaced = level == "#" && levels.peek().is_some();
+        if misplaced || (level.len() > 1 && level.contains(|c| c == '+' || c == '#')) {
+            return Err(malformed("Malformed topic filter"));
+        }
+    }
+
+    Ok(())
+}
+
 /// Takes given number of bytes from what is left of the packet, before they are read, so that
 /// a packet is never read beyond its declared length
 fn consume(remaining_length: &mut u64, size: u64) -> Result<(), Error> {
-- 
2.43.0

