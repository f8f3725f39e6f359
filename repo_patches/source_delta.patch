From a439ddfc5fdb05cd8e9dee41b747b0f6e6cb9f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 01/92] fix: confine the MQTT 5 PUBLISH decoder to its own
 frame (a topic or property length running past it panicked)

---
 src/mqtt_serde/mqttv5/publish.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 467be22..98e64f8 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -165,6 +165,8 @@ impl MqttControlPacket for MqttPublish {
         if packet_size > buffer.len() {
             return Ok(ParseOk::Continue(packet_size - buffer.len(), 0));
         }
+        // Bytes after this packet belong to the next one
+        let buffer = &buffer[..packet_size];
 
         // MQTT 5.0: 3.3.2 PUBLISH VARIABLE HEADER
         // MQTT 5.0: 3.3.2.1 Topic Name
-- 
2.43.0


From 27fc43e23684a076d13e0d3177575e31cc865221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 02/92] fix: accept empty will payload, user name and password
 in a MQTT 5 CONNECT

---
 src/mqtt_serde/mqttv5/connect.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_serde/mqttv5/connect.rs b/src/mqtt_serde/mqttv5/connect.rs
index bb31e24..750c1d4 100644
--- a/src/mqtt_serde/mqttv5/connect.rs
+++ b/src/mqtt_serde/mqttv5/connect.rs
@@ -257,9 +257,10 @@ impl MqttControlPacket for MqttConnect {
             // Will is present
             let (will, consumed) = Will::from_bytes(&buffer[offset..], connect_flags)?;
             offset += consumed;
-            if will.will_topic.is_empty() || will.will_message.is_empty() {
+            // MQTT 5.0: 3.1.3.4, a zero-length Will Payload is allowed
+            if will.will_topic.is_empty() {
                 return Err(ParseError::ParseError(
-                    "Will topic or message cannot be empty".to_string(),
+                    "Will topic cannot be empty".to_string(),
                 ));
             }
             Some(will)
@@ -273,11 +274,6 @@ impl MqttControlPacket for MqttConnect {
             let (username, consumed) =
                 parse_utf8_string(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if username.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Username cannot be empty".to_string(),
-                ));
-            }
             Some(username.to_string())
         } else {
             None
@@ -287,11 +283,6 @@ impl MqttControlPacket for MqttConnect {
             let (password, consumed) =
                 parse_binary_data(buffer.get(offset..).ok_or(ParseError::BufferTooShort)?)?;
             offset += consumed;
-            if password.is_empty() {
-                return Err(ParseError::ParseError(
-                    "Password cannot be empty".to_string(),
-                ));
-            }
             Some(password)
         } else {
             None
-- 
2.43.0


From 1b39743e7091acc8b23a6108ae889a662f331411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 03/92] fix: reject U+0000 in decoded strings, as on encoding

---
 src/mqtt_serde/base_data.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt_serde/base_data.rs b/src/mqtt_serde/base_data.rs
index ee0b8ef..d18bf34 100644
--- a/src/mqtt_serde/base_data.rs
+++ b/src/mqtt_serde/base_data.rs
@@ -142,6 +142,13 @@ impl Utf8String {
     pub fn decode(bytes: &[u8]) -> Result<(String, usize), ParseError> {
         let (data, len) = BinaryData::decode(bytes)?;
         let s = String::from_utf8(data).map_err(|e| ParseError::Utf8Error(e.utf8_error()))?;
+        // MQTT 5.0: 1.5.4, a UTF-8 Encoded String MUST NOT include U+0000
+        #[cfg(feature = "strict-protocol-compliance")]
+        if s.contains('\0') {
+            return Err(ParseError::ParseError(
+                "UTF-8 string contains null character (U+0000)".to_string(),
+            ));
+        }
         Ok((s, len))
     }
 }
-- 
2.43.0


From 2ecc2cdd1e5bd589ea1c99b5d0ef2b2ba26fef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 04/92] fix: reject SUBSCRIBE options with QoS or retain
 handling 3 and wildcards in a share name

---
 src/mqtt_serde/mod.rs              | 7 +++++++
 src/mqtt_serde/mqttv5/subscribe.rs | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/mqtt_serde/mod.rs b/src/mqtt_serde/mod.rs
index b4bb023..df740f3 100644
--- a/src/mqtt_serde/mod.rs
+++ b/src/mqtt_serde/mod.rs
@@ -152,6 +152,13 @@ pub(crate) fn validate_shared_subscription(topic_filter: &str) -> Result<(), Par
             ));
         }
 
+        // MQTT 5.0: 4.8.2, the ShareName MUST NOT contain "/", "+" or "#"
+        if share_name.contains('+') || share_name.contains('#') {
+            return Err(ParseError::ParseError(
+                "Shared subscription ShareName cannot contain wildcards".to_string(),
+            ));
+        }
+
         if actual_topic_filter.is_empty() {
             return Err(ParseError::ParseError(
                 "Shared subscription TopicFilter cannot be empty".to_string(),
diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index 907b022..d6dabe6 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -129,6 +129,14 @@ impl TopicSubscription {
         let (qos, no_local, retain_as_published, retain_handling) =
             Self::decode_subscription_options(options);
 
+        // MQTT 5.0 Protocol Compliance: 3 is not a valid Maximum QoS or Retain Handling
+        #[cfg(feature = "strict-protocol-compliance")]
+        if qos > 2 || retain_handling > 2 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE Subscription Options QoS and Retain Handling must not be 3".to_string(),
+            ));
+        }
+
         // MQTT 5.0 Protocol Compliance: No Local flag validation for Shared Subscriptions
         #[cfg(feature = "strict-protocol-compliance")]
         if no_local && topic_filter.starts_with("$share/") {
-- 
2.43.0


From 1a5c4d155de6f34a53cb7608017ef15d377e9989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 05/92] fix: reject malformed MQTT 3.1.1 CONNECT flags and
 empty SUBSCRIBE lists

---
 src/mqtt_serde/mqttv3/connect.rs   | 11 +++++++++++
 src/mqtt_serde/mqttv3/subscribe.rs |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index fabbd3a..c2314c6 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -114,6 +114,12 @@ impl MqttControlPacket for MqttConnect {
             return Err(ParseError::InvalidPacketType);
         }
 
+        if buffer[0] & 0x0F != 0 {
+            return Err(ParseError::ParseError(
+                "CONNECT packet has invalid fixed header flags".to_string(),
+            ));
+        }
+
         let (size, vbi_len) = parse_remaining_length(&buffer[1..])?;
         let mut offset = 1 + vbi_len;
         let total_len = offset + size;
@@ -158,6 +164,11 @@ impl MqttControlPacket for MqttConnect {
                 "CONNECT reserved flag bit is not 0".to_string(),
             ));
         }
+        if will_qos > 2 || (!will_flag && (will_qos != 0 || will_retain)) {
+            return Err(ParseError::ParseError(
+                "CONNECT will flags are inconsistent".to_string(),
+            ));
+        }
         if password_flag && !username_flag {
             return Err(ParseError::ParseError(
                 "Password flag requires username flag".to_string(),
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index 001b4c1..c410ee0 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -119,6 +119,12 @@ impl MqttControlPacket for MqttSubscribe {
             subscriptions.push(SubscriptionTopic { topic_filter, qos });
         }
 
+        if subscriptions.is_empty() {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE payload must contain at least one subscription".to_string(),
+            ));
+        }
+
         if offset != total_len {
             return Err(ParseError::InternalError(
                 "Failed to consume entire SUBSCRIBE packet".to_string(),
-- 
2.43.0


From a8b809f03c5c82a18cbc52a46e107b66adb0031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 06/92] fix: refuse to encode MQTT 3.1.1 fields longer than
 their 16-bit length

---
 src/mqtt_serde/mqttv3/connect.rs     | 17 ++++++++---------
 src/mqtt_serde/mqttv3/publish.rs     |  5 +++--
 src/mqtt_serde/mqttv3/subscribe.rs   |  5 +++--
 src/mqtt_serde/mqttv3/unsubscribe.rs |  5 +++--
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index c2314c6..1bc0da4 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -2,11 +2,12 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
+use crate::mqtt_serde::{encode_binary_data, encode_utf8_string};
 
 /// Represents the Will message and its properties.
 #[derive(Debug, PartialEq, Eq, Clone, Serialize, Deserialize)]
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttConnect {
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
         let mut vh = Vec::new();
         // Protocol Name
-        vh.extend(Utf8String::encode(&self.protocol_name));
+        vh.extend(encode_utf8_string(&self.protocol_name)?);
         // Protocol Version
         vh.push(self.protocol_version);
 
@@ -86,23 +87,21 @@ impl MqttControlPacket for MqttConnect {
 
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
-        payload.extend(Utf8String::encode(&self.client_id));
+        payload.extend(encode_utf8_string(&self.client_id)?);
 
         if let Some(will) = &self.will {
-            payload.extend(Utf8String::encode(&will.topic));
+            payload.extend(encode_utf8_string(&will.topic)?);
             // Will message is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(will.message.len() as u16));
-            payload.extend_from_slice(&will.message);
+            payload.extend(encode_binary_data(&will.message)?);
         }
 
         if let Some(username) = &self.username {
-            payload.extend(Utf8String::encode(username));
+            payload.extend(encode_utf8_string(username)?);
         }
 
         if let Some(password) = &self.password {
             // Password is a byte array, needs length prefix
-            payload.extend_from_slice(&TwoByteInteger::encode(password.len() as u16));
-            payload.extend_from_slice(password);
+            payload.extend(encode_binary_data(password)?);
         }
 
         Ok(payload)
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index b4a7099..d29a09f 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
-        let mut vh = Utf8String::encode(&self.topic_name);
+        let mut vh = encode_utf8_string(&self.topic_name)?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
                 ParseError::ParseError("Message ID is required for QoS > 0".to_string())
diff --git a/src/mqtt_serde/mqttv3/subscribe.rs b/src/mqtt_serde/mqttv3/subscribe.rs
index c410ee0..da03f19 100644
--- a/src/mqtt_serde/mqttv3/subscribe.rs
+++ b/src/mqtt_serde/mqttv3/subscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -55,7 +56,7 @@ impl MqttControlPacket for MqttSubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for sub in &self.subscriptions {
-            payload.extend(Utf8String::encode(&sub.topic_filter));
+            payload.extend(encode_utf8_string(&sub.topic_filter)?);
             // QoS must be 0, 1, or 2.
             if sub.qos > 2 {
                 return Err(ParseError::ParseError("Invalid QoS level".to_string()));
diff --git a/src/mqtt_serde/mqttv3/unsubscribe.rs b/src/mqtt_serde/mqttv3/unsubscribe.rs
index 3a422d4..1c044e7 100644
--- a/src/mqtt_serde/mqttv3/unsubscribe.rs
+++ b/src/mqtt_serde/mqttv3/unsubscribe.rs
@@ -2,8 +2,9 @@
 
 use serde::{Deserialize, Serialize};
 
-use crate::mqtt_serde::base_data::{TwoByteInteger, Utf8String};
+use crate::mqtt_serde::base_data::TwoByteInteger;
 use crate::mqtt_serde::control_packet::{ControlPacketType, MqttControlPacket, MqttPacket};
+use crate::mqtt_serde::encode_utf8_string;
 use crate::mqtt_serde::parser::{
     packet_type, parse_remaining_length, parse_utf8_string, ParseError, ParseOk,
 };
@@ -47,7 +48,7 @@ impl MqttControlPacket for MqttUnsubscribe {
     fn payload(&self) -> Result<Vec<u8>, ParseError> {
         let mut payload = Vec::new();
         for topic in &self.topic_filters {
-            payload.extend(Utf8String::encode(topic));
+            payload.extend(encode_utf8_string(topic)?);
         }
         Ok(payload)
     }
-- 
2.43.0


From 5a0634cf119aa4361576f0449bc3e3f90ad553f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 07/92] fix: refuse to encode a subscription identifier above
 the variable byte integer range

---
 src/mqtt_serde/mqttv5/common/properties.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mqtt_serde/mqttv5/common/properties.rs b/src/mqtt_serde/mqttv5/common/properties.rs
index 61bac52..3ed2904 100644
--- a/src/mqtt_serde/mqttv5/common/properties.rs
+++ b/src/mqtt_serde/mqttv5/common/properties.rs
@@ -95,6 +95,9 @@ impl Property {
             }
             Property::SubscriptionIdentifier(val) => {
                 bytes.push(property_id(PropertyID::SubscriptionIdentifier));
+                if *val > 268_435_455 {
+                    return Err(ParseError::InvalidVariableByteInteger);
+                }
                 bytes.extend(crate::mqtt_serde::encode_variable_length(*val as usize));
             }
             Property::SessionExpiryInterval(val) => {
-- 
2.43.0


From f9f5e9aa1e60c7e91970bc417e7a16e5975b6c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:05 +0000
Subject: [PATCH 08/92] fix: refuse to encode QoS or retain handling values
 outside 0..2

---
 src/mqtt_serde/mqttv3/connect.rs   | 3 +++
 src/mqtt_serde/mqttv3/publish.rs   | 3 +++
 src/mqtt_serde/mqttv5/publish.rs   | 3 +++
 src/mqtt_serde/mqttv5/subscribe.rs | 5 +++++
 4 files changed, 14 insertions(+)

diff --git a/src/mqtt_serde/mqttv3/connect.rs b/src/mqtt_serde/mqttv3/connect.rs
index 1bc0da4..2b73b0a 100644
--- a/src/mqtt_serde/mqttv3/connect.rs
+++ b/src/mqtt_serde/mqttv3/connect.rs
@@ -66,6 +66,9 @@ impl MqttControlPacket for MqttConnect {
             flags |= 0x02;
         }
         if let Some(will) = &self.will {
+            if will.qos > 2 {
+                return Err(ParseError::ParseError("Will QoS cannot be 3".to_string()));
+            }
             flags |= 0x04; // Will Flag
             flags |= will.qos << 3;
             if will.retain {
diff --git a/src/mqtt_serde/mqttv3/publish.rs b/src/mqtt_serde/mqttv3/publish.rs
index d29a09f..88a52fb 100644
--- a/src/mqtt_serde/mqttv3/publish.rs
+++ b/src/mqtt_serde/mqttv3/publish.rs
@@ -56,6 +56,9 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, ParseError> {
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
         let mut vh = encode_utf8_string(&self.topic_name)?;
         if self.qos > 0 {
             let msg_id = self.message_id.ok_or_else(|| {
diff --git a/src/mqtt_serde/mqttv5/publish.rs b/src/mqtt_serde/mqttv5/publish.rs
index 98e64f8..35f30bb 100644
--- a/src/mqtt_serde/mqttv5/publish.rs
+++ b/src/mqtt_serde/mqttv5/publish.rs
@@ -82,6 +82,9 @@ impl MqttControlPacket for MqttPublish {
     }
 
     fn variable_header(&self) -> Result<Vec<u8>, parser::ParseError> {
+        if self.qos > 2 {
+            return Err(ParseError::ParseError("Invalid QoS level".to_string()));
+        }
         let mut bytes = Vec::new();
         // MQTT 5.0: 3.3.2.1 Topic Name
         bytes.extend(crate::mqtt_serde::encode_utf8_string(&self.topic_name)?);
diff --git a/src/mqtt_serde/mqttv5/subscribe.rs b/src/mqtt_serde/mqttv5/subscribe.rs
index d6dabe6..d6afed2 100644
--- a/src/mqtt_serde/mqttv5/subscribe.rs
+++ b/src/mqtt_serde/mqttv5/subscribe.rs
@@ -94,6 +94,11 @@ impl TopicSubscription {
         bytes.extend(encode_utf8_string(&self.topic_filter)?);
 
         // Subscription Options
+        if self.qos > 2 || self.retain_handling > 2 {
+            return Err(ParseError::ParseError(
+                "SUBSCRIBE Subscription Options QoS and Retain Handling must not be 3".to_string(),
+            ));
+        }
         bytes.push(self.encode_subscription_options());
 
         Ok(bytes)
-- 
2.43.0


From 5e4dd85ec7c10094063dd2d99f89e766f3ffd250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:48 +0000
Subject: [PATCH 09/92] fix: wait for the rest of a partial fixed header
 instead of reporting a parse error

---
 src/mqtt_serde/parser/stream.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 05a863e..1be4855 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -115,7 +115,7 @@ impl MqttParser {
             "MQTT version must be set before parsing packets"
         );
 
-        if self.buffer.is_empty() {
+        if !self.has_fixed_header() {
             return Ok(None);
         }
 
@@ -155,6 +155,9 @@ impl MqttParser {
                     self.mqtt_version != 0,
                     "MQTT version must be set before parsing packets"
                 );
+                if !self.has_fixed_header() {
+                    return Ok(None);
+                }
                 match MqttPacket::from_bytes_with_version(&self.buffer, self.mqtt_version) {
                     Ok(ParseOk::Packet(packet, consumed)) => {
                         self.buffer.advance(consumed);
@@ -206,6 +209,16 @@ impl MqttParser {
         }
     }
 
+    /// Whether the packet type and the whole remaining length have arrived.
+    fn has_fixed_header(&self) -> bool {
+        match self.buffer.get(1..) {
+            Some(rest) => {
+                !rest.is_empty() && !matches!(parse_vbi(rest), Err(ParseError::More(_, _)))
+            }
+            None => false,
+        }
+    }
+
     pub fn buffer_mut(&mut self) -> &mut BytesMut {
         &mut self.buffer
     }
-- 
2.43.0


From 22e3d0e04697eed7e3a3ea343bb613107f735b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 10/92] fix: read a large packet in a loop, the recursion in
 MqttStream::next overflowed the stack

---
 src/mqtt_serde/parser/stream.rs | 50 +++++++++++++++++----------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index 1be4855..fb63a78 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -259,33 +259,35 @@ where
     type Item = Result<MqttPacket, ParseError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match self.parser.next_packet() {
-            Ok(Some(packet)) => Some(Ok(packet)),
-            Ok(None) => {
-                // Reserve space in the parser's buffer for reading
-                let buffer = self.parser.buffer_mut();
-                let initial_len = buffer.len();
-                buffer.resize(initial_len + 1024, 0);
-
-                match self.stream.read(&mut buffer[initial_len..]) {
-                    Ok(0) => {
-                        // End of stream - remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        None
-                    }
-                    Ok(n) => {
-                        // Adjust buffer to actual bytes read
-                        buffer.truncate(initial_len + n);
-                        self.next() // Try to parse again
-                    }
-                    Err(e) => {
-                        // Remove the unused space we reserved
-                        buffer.truncate(initial_len);
-                        Some(Err(ParseError::IoError(e)))
+        // A loop: a large packet may take any number of reads
+        loop {
+            match self.parser.next_packet() {
+                Ok(Some(packet)) => return Some(Ok(packet)),
+                Ok(None) => {
+                    // Reserve space in the parser's buffer for reading
+                    let buffer = self.parser.buffer_mut();
+                    let initial_len = buffer.len();
+                    buffer.resize(initial_len + 1024, 0);
+
+                    match self.stream.read(&mut buffer[initial_len..]) {
+                        Ok(0) => {
+                            // End of stream - remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return None;
+                        }
+                        Ok(n) => {
+                            // Adjust buffer to actual bytes read, then try to parse again
+                            buffer.truncate(initial_len + n);
+                        }
+                        Err(e) => {
+                            // Remove the unused space we reserved
+                            buffer.truncate(initial_len);
+                            return Some(Err(ParseError::IoError(e)));
+                        }
                     }
                 }
+                Err(e) => return Some(Err(e)),
             }
-            Err(e) => Some(Err(e)),
         }
     }
 }
-- 
2.43.0


From f0fe4f956f6a26d7d8deba949bc73380acd62998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 11/92] fix: detecting the version on an empty buffer is an
 error, not a panic

---
 src/mqtt_serde/parser/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mqtt_serde/parser/stream.rs b/src/mqtt_serde/parser/stream.rs
index fb63a78..e83409d 100644
--- a/src/mqtt_serde/parser/stream.rs
+++ b/src/mqtt_serde/parser/stream.rs
@@ -73,7 +73,7 @@ impl MqttParser {
         }
 
         // precheck if it's a CONNECT packet
-        if self.buffer[offset] != 0x10 {
+        if *self.buffer.get(offset).ok_or(ParseError::BufferEmpty)? != 0x10 {
             return Err(ParseError::ParseError(
                 "Expected CONNECT packet to determine MQTT version".to_string(),
             ));
-- 
2.43.0


From 844c7e040d53a456843a8e008641f78f40730e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:05 +0000
Subject: [PATCH 12/92] fix: report a failed write when saving the priority
 queue

---
 src/priority_queue.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index 7698d23..e83dfc7 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -3,7 +3,7 @@
 use serde::{de::DeserializeOwned, Deserialize, Serialize};
 use std::collections::{BTreeMap, VecDeque};
 use std::fs::File;
-use std::io::{self, BufReader, BufWriter};
+use std::io::{self, BufReader, BufWriter, Write};
 use std::path::Path;
 
 /// A priority queue with a fixed capacity limit.
@@ -104,9 +104,9 @@ where
         T: Serialize + DeserializeOwned,
     {
         let file = File::create(path)?;
-        let writer = BufWriter::new(file);
-        serde_json::to_writer(writer, self)?;
-        Ok(())
+        let mut writer = BufWriter::new(file);
+        serde_json::to_writer(&mut writer, self)?;
+        writer.flush()
     }
 
     /// Restores the queue state from a file.
-- 
2.43.0


From e8f48548b7622190f75300595b6b1ddeac0d0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 13/92] fix: never assign or accept a packet identifier that is
 still in use

---
 src/mqtt_client/engine.rs   | 86 ++++++++++++++++++-------------------
 src/mqtt_client/inflight.rs |  9 ++++
 src/priority_queue.rs       |  8 ++++
 3 files changed, 60 insertions(+), 43 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ba2b7d6..57005d8 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -589,13 +589,9 @@ impl MqttEngine {
     /// via `process_queue()` if the buffer limits allow.
     pub fn publish(&mut self, mut command: PublishCommand) -> Result<Option<u16>, MqttClientError> {
         let pid = if command.qos > 0 {
-            if let Some(pid) = command.packet_id {
-                Some(pid)
-            } else {
-                let pid = self.next_packet_id()?;
-                command.packet_id = Some(pid);
-                Some(pid)
-            }
+            let pid = self.claim_packet_id(command.packet_id)?;
+            command.packet_id = Some(pid);
+            Some(pid)
         } else {
             None
         };
@@ -639,13 +635,9 @@ impl MqttEngine {
         stream: Option<u64>,
     ) -> Result<(Option<u16>, Vec<u8>), MqttClientError> {
         let pid = if command.qos > 0 {
-            if let Some(pid) = command.packet_id {
-                Some(pid)
-            } else {
-                let pid = self.next_packet_id()?;
-                command.packet_id = Some(pid);
-                Some(pid)
-            }
+            let pid = self.claim_packet_id(command.packet_id)?;
+            command.packet_id = Some(pid);
+            Some(pid)
         } else {
             None
         };
@@ -722,13 +714,7 @@ impl MqttEngine {
     /// Be aware that this might fail immediately with `MqttClientError::BufferFull`
     /// if the outgoing buffer is at capacity.
     pub fn subscribe(&mut self, mut command: SubscribeCommand) -> Result<u16, MqttClientError> {
-        let pid = if let Some(pid) = command.packet_id {
-            pid
-        } else {
-            let pid = self.next_packet_id()?;
-            command.packet_id = Some(pid);
-            pid
-        };
+        let pid = self.claim_packet_id(command.packet_id.take())?;
 
         let packet = if self.options.mqtt_version == 5 {
             MqttPacket::Subscribe5(subscribev5::MqttSubscribe::new(
@@ -754,13 +740,7 @@ impl MqttEngine {
     }
 
     pub fn unsubscribe(&mut self, mut command: UnsubscribeCommand) -> Result<u16, MqttClientError> {
-        let pid = if let Some(pid) = command.packet_id {
-            pid
-        } else {
-            let pid = self.next_packet_id()?;
-            command.packet_id = Some(pid);
-            pid
-        };
+        let pid = self.claim_packet_id(command.packet_id.take())?;
 
         let packet = if self.options.mqtt_version == 5 {
             MqttPacket::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(
@@ -789,13 +769,7 @@ impl MqttEngine {
         mut command: SubscribeCommand,
         stream: Option<u64>,
     ) -> Result<(u16, Vec<u8>), MqttClientError> {
-        let pid = if let Some(pid) = command.packet_id {
-            pid
-        } else {
-            let pid = self.next_packet_id()?;
-            command.packet_id = Some(pid);
-            pid
-        };
+        let pid = self.claim_packet_id(command.packet_id.take())?;
 
         let packet = if self.options.mqtt_version == 5 {
             MqttPacket::Subscribe5(subscribev5::MqttSubscribe::new(
@@ -829,13 +803,7 @@ impl MqttEngine {
         mut command: UnsubscribeCommand,
         stream: Option<u64>,
     ) -> Result<(u16, Vec<u8>), MqttClientError> {
-        let pid = if let Some(pid) = command.packet_id {
-            pid
-        } else {
-            let pid = self.next_packet_id()?;
-            command.packet_id = Some(pid);
-            pid
-        };
+        let pid = self.claim_packet_id(command.packet_id.take())?;
 
         let packet = if self.options.mqtt_version == 5 {
             MqttPacket::Unsubscribe5(unsubscribev5::MqttUnsubscribe::new(
@@ -1267,7 +1235,39 @@ impl MqttEngine {
             .ok_or(MqttClientError::ProtocolViolation {
                 message: "No session available for packet ID allocation".into(),
             })?;
-        Ok(session.next_packet_id())
+        // The counter wraps around, so skip identifiers that are still in use.
+        for _ in 0..u16::MAX {
+            let pid = session.next_packet_id();
+            if !self.inflight_queue.contains(pid) && !Self::is_queued(&self.priority_queue, pid) {
+                return Ok(pid);
+            }
+        }
+        Err(MqttClientError::PacketIdExhausted)
+    }
+
+    /// The packet identifier for a new operation: the requested one, which must be
+    /// valid and unused, or a fresh one.
+    fn claim_packet_id(&mut self, requested: Option<u16>) -> Result<u16, MqttClientError> {
+        match requested {
+            None => self.next_packet_id(),
+            Some(packet_id)
+                if packet_id == 0
+                    || self.inflight_queue.contains(packet_id)
+                    || Self::is_queued(&self.priority_queue, packet_id) =>
+            {
+                Err(MqttClientError::InvalidPacketId { packet_id })
+            }
+            Some(packet_id) => Ok(packet_id),
+        }
+    }
+
+    /// Whether a publish waiting to be sent uses this packet identifier.
+    fn is_queued(queue: &PriorityQueue<u8, MqttPacket>, packet_id: u16) -> bool {
+        queue.iter().any(|(_, packet)| match packet {
+            MqttPacket::Publish5(p) => p.qos > 0 && p.packet_id == Some(packet_id),
+            MqttPacket::Publish3(p) => p.qos > 0 && p.message_id == Some(packet_id),
+            _ => false,
+        })
     }
 }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index c708c45..48a83c4 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -107,6 +107,10 @@ impl InflightQueue {
             });
         }
 
+        if self.entries.contains_key(&packet_id) {
+            return Err(MqttClientError::InvalidPacketId { packet_id });
+        }
+
         let now = Instant::now();
         if matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) {
             self.publish_count += 1;
@@ -130,6 +134,11 @@ impl InflightQueue {
         Ok(())
     }
 
+    /// Whether an unfinished operation uses this packet identifier
+    pub fn contains(&self, packet_id: u16) -> bool {
+        self.entries.contains_key(&packet_id)
+    }
+
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
diff --git a/src/priority_queue.rs b/src/priority_queue.rs
index e83dfc7..0b35b00 100644
--- a/src/priority_queue.rs
+++ b/src/priority_queue.rs
@@ -80,6 +80,14 @@ where
         Some((prio, item))
     }
 
+    /// Iterates over the elements in the order in which they would be dequeued.
+    pub fn iter(&self) -> impl Iterator<Item = (&P, &T)> {
+        self.map
+            .iter()
+            .rev()
+            .flat_map(|(prio, deque)| deque.iter().map(move |item| (prio, item)))
+    }
+
     /// Current number of elements in the queue.
     pub fn len(&self) -> usize {
         self.size
-- 
2.43.0


From 35efd1842818904d0bb43ef3f24c69776b6b4160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:29 +0000
Subject: [PATCH 14/92] fix: an acknowledgement completes only an operation of
 its own kind, and a PUBREC error ends the exchange

---
 src/mqtt_client/engine.rs   | 156 ++++++++++++++++++++++++------------
 src/mqtt_client/inflight.rs |  59 ++++++++++++++
 2 files changed, 163 insertions(+), 52 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 57005d8..91413d1 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -946,7 +946,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubAck5(ack) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(ack.packet_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(ack.packet_id, |e| e.awaits_puback())
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(ack.packet_id),
                         reason_code: Some(ack.reason_code),
@@ -956,7 +959,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubAck3(ack) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(ack.message_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(ack.message_id, |e| e.awaits_puback())
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(ack.message_id),
                         reason_code: Some(0), // v3 has no reason code in PUBACK
@@ -1018,70 +1024,83 @@ impl MqttEngine {
                 }
             }
             MqttPacket::SubAck5(ack) => {
-                self.inflight_queue.acknowledge(ack.packet_id);
-                events.push(MqttEvent::Subscribed(SubscribeResult {
-                    packet_id: ack.packet_id,
-                    reason_codes: ack.reason_codes,
-                    properties: ack.properties,
-                }));
+                if self
+                    .inflight_queue
+                    .acknowledge_if(ack.packet_id, |e| e.awaits_suback())
+                    .is_some()
+                {
+                    events.push(MqttEvent::Subscribed(SubscribeResult {
+                        packet_id: ack.packet_id,
+                        reason_codes: ack.reason_codes,
+                        properties: ack.properties,
+                    }));
+                }
             }
             MqttPacket::SubAck3(ack) => {
-                self.inflight_queue.acknowledge(ack.message_id);
-                events.push(MqttEvent::Subscribed(SubscribeResult {
-                    packet_id: ack.message_id,
-                    reason_codes: ack.return_codes,
-                    properties: Vec::new(),
-                }));
+                if self
+                    .inflight_queue
+                    .acknowledge_if(ack.message_id, |e| e.awaits_suback())
+                    .is_some()
+                {
+                    events.push(MqttEvent::Subscribed(SubscribeResult {
+                        packet_id: ack.message_id,
+                        reason_codes: ack.return_codes,
+                        properties: Vec::new(),
+                    }));
+                }
             }
             MqttPacket::UnsubAck5(ack) => {
-                self.inflight_queue.acknowledge(ack.packet_id);
-                events.push(MqttEvent::Unsubscribed(UnsubscribeResult {
-                    packet_id: ack.packet_id,
-                    reason_codes: ack.reason_codes,
-                    properties: ack.properties,
-                }));
+                if self
+                    .inflight_queue
+                    .acknowledge_if(ack.packet_id, |e| e.awaits_unsuback())
+                    .is_some()
+                {
+                    events.push(MqttEvent::Unsubscribed(UnsubscribeResult {
+                        packet_id: ack.packet_id,
+                        reason_codes: ack.reason_codes,
+                        properties: ack.properties,
+                    }));
+                }
             }
             MqttPacket::UnsubAck3(ack) => {
-                self.inflight_queue.acknowledge(ack.message_id);
-                events.push(MqttEvent::Unsubscribed(UnsubscribeResult {
-                    packet_id: ack.message_id,
-                    reason_codes: Vec::new(),
-                    properties: Vec::new(),
-                }));
+                if self
+                    .inflight_queue
+                    .acknowledge_if(ack.message_id, |e| e.awaits_unsuback())
+                    .is_some()
+                {
+                    events.push(MqttEvent::Unsubscribed(UnsubscribeResult {
+                        packet_id: ack.message_id,
+                        reason_codes: Vec::new(),
+                        properties: Vec::new(),
+                    }));
+                }
             }
             MqttPacket::PingResp5(_) | MqttPacket::PingResp3(_) => {
                 self.ping_sent_at = None;
                 events.push(MqttEvent::PingResponse(PingResult { success: true }));
             }
             MqttPacket::PubRec5(rec) => {
-                if let Some(mut entry) = self.inflight_queue.acknowledge(rec.packet_id) {
+                if rec.reason_code >= 0x80 {
+                    // The receiver refused the message: the exchange ends here.
+                    if let Some(entry) = self
+                        .inflight_queue
+                        .acknowledge_if(rec.packet_id, |e| e.awaits_pubrec())
+                    {
+                        events.push(MqttEvent::Published(PublishResult {
+                            packet_id: Some(rec.packet_id),
+                            reason_code: Some(rec.reason_code),
+                            properties: Some(rec.properties),
+                            qos: entry.qos,
+                        }));
+                    }
+                } else {
                     let rel = MqttPacket::PubRel5(MqttPubRel::new(rec.packet_id, 0, Vec::new()));
-                    // Update entry to store PUBREL for retransmission
-                    entry.packet = rel.clone();
-                    entry.sent_at = Instant::now();
-                    let _ = self.inflight_queue.push_with_stream(
-                        entry.packet_id,
-                        entry.packet,
-                        2,
-                        stream,
-                    );
-                    responses.push(rel);
+                    self.handle_pubrec(rec.packet_id, rel, stream, &mut responses);
                 }
             }
             MqttPacket::PubRec3(rec) => {
-                if let Some(mut entry) = self.inflight_queue.acknowledge(rec.message_id) {
-                    let rel = MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(rec.message_id));
-                    // Update entry to store PUBREL for retransmission
-                    entry.packet = rel.clone();
-                    entry.sent_at = Instant::now();
-                    let _ = self.inflight_queue.push_with_stream(
-                        entry.packet_id,
-                        entry.packet,
-                        2,
-                        stream,
-                    );
-                    responses.push(rel);
-                }
+                let rel = MqttPacket::PubRel3(pubrelv3::MqttPubRel::new(rec.message_id));
+                self.handle_pubrec(rec.message_id, rel, stream, &mut responses);
             }
             MqttPacket::PubRel5(rel) => {
                 events.push(MqttEvent::PubRelReceived {
@@ -1108,7 +1127,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubComp5(comp) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(comp.packet_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(comp.packet_id, |e| e.awaits_pubcomp())
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(comp.packet_id),
                         reason_code: Some(comp.reason_code),
@@ -1118,7 +1140,10 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubComp3(comp) => {
-                if let Some(entry) = self.inflight_queue.acknowledge(comp.message_id) {
+                if let Some(entry) = self
+                    .inflight_queue
+                    .acknowledge_if(comp.message_id, |e| e.awaits_pubcomp())
+                {
                     events.push(MqttEvent::Published(PublishResult {
                         packet_id: Some(comp.message_id),
                         reason_code: Some(0),
@@ -1136,6 +1161,33 @@ impl MqttEngine {
         (events, responses)
     }
 
+    /// Answer an accepting PUBREC with PUBREL, and keep the PUBREL for retransmission.
+    fn handle_pubrec(
+        &mut self,
+        packet_id: u16,
+        rel: MqttPacket,
+        stream: Option<u64>,
+        responses: &mut Vec<MqttPacket>,
+    ) {
+        if self
+            .inflight_queue
+            .acknowledge_if(packet_id, |e| e.awaits_pubrec())
+            .is_some()
+        {
+            let _ = self
+                .inflight_queue
+                .push_with_stream(packet_id, rel.clone(), 2, stream);
+            responses.push(rel);
+        } else if self
+            .inflight_queue
+            .get(packet_id)
+            .is_some_and(|e| e.awaits_pubcomp())
+        {
+            // A repeated PUBREC: repeat the PUBREL.
+            responses.push(rel);
+        }
+    }
+
     fn pingreq_packet(&self) -> MqttPacket {
         if self.options.mqtt_version == 5 {
             MqttPacket::PingReq5(pingreqv5::MqttPingReq::new())
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 48a83c4..fef370e 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -26,6 +26,47 @@ pub struct InflightEntry {
     pub stream: Option<u64>,
 }
 
+impl InflightEntry {
+    fn is_publish(&self, qos: u8) -> bool {
+        self.qos == qos
+            && matches!(
+                self.packet,
+                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
+            )
+    }
+
+    /// Answered by PUBACK
+    pub fn awaits_puback(&self) -> bool {
+        self.is_publish(1)
+    }
+
+    /// Answered by PUBREC
+    pub fn awaits_pubrec(&self) -> bool {
+        self.is_publish(2)
+    }
+
+    /// Answered by PUBCOMP
+    pub fn awaits_pubcomp(&self) -> bool {
+        matches!(self.packet, MqttPacket::PubRel5(_) | MqttPacket::PubRel3(_))
+    }
+
+    /// Answered by SUBACK
+    pub fn awaits_suback(&self) -> bool {
+        matches!(
+            self.packet,
+            MqttPacket::Subscribe5(_) | MqttPacket::Subscribe3(_)
+        )
+    }
+
+    /// Answered by UNSUBACK
+    pub fn awaits_unsuback(&self) -> bool {
+        matches!(
+            self.packet,
+            MqttPacket::Unsubscribe5(_) | MqttPacket::Unsubscribe3(_)
+        )
+    }
+}
+
 /// A queue for managing inflight QoS 1 and QoS 2 messages.
 ///
 /// Strictly follows MQTT 3.1.1 and 5.0 specifications:
@@ -154,6 +195,24 @@ impl InflightQueue {
         }
     }
 
+    /// Acknowledge a message only if it is one that the acknowledgement can answer
+    pub fn acknowledge_if(
+        &mut self,
+        packet_id: u16,
+        answers: impl FnOnce(&InflightEntry) -> bool,
+    ) -> Option<InflightEntry> {
+        if answers(self.entries.get(&packet_id)?) {
+            self.acknowledge(packet_id)
+        } else {
+            None
+        }
+    }
+
+    /// The unfinished operation that uses this packet identifier
+    pub fn get(&self, packet_id: u16) -> Option<&InflightEntry> {
+        self.entries.get(&packet_id)
+    }
+
     /// Get all expired messages that need retransmission (MQTT 3.1.1 only).
     /// This is a BAD design in MQTT 3.1.1
     pub fn get_expired(&mut self, now: Instant) -> Vec<MqttPacket> {
-- 
2.43.0


From 24dd40755eb111c61ff4e746fd9d8ede68627b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 15/92] fix: the send quota of a QoS 2 publish is held until
 PUBCOMP, and each connection starts with its own receive maximum

---
 src/mqtt_client/engine.rs   |  4 +++-
 src/mqtt_client/inflight.rs | 40 +++++++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 91413d1..8633108 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -900,7 +900,9 @@ impl MqttEngine {
                     properties: ack.properties.clone(),
                 }));
 
-                // Update receive_maximum from CONNACK properties if present
+                // Update receive_maximum from CONNACK properties if present; the limit
+                // of an earlier connection does not apply to this one
+                self.inflight_queue.reset_receive_maximum();
                 if let Some(props) = &ack.properties {
                     for prop in props {
                         if let Property::ReceiveMaximum(max) = prop {
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index fef370e..4b50737 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -85,20 +85,36 @@ pub struct InflightQueue {
     mqtt_version: u8,
     /// Default retransmission timeout
     retransmission_timeout: Duration,
-    /// Current number of PUBLISH packets in the queue (for flow control)
+    /// Limit used when the server announces none
+    default_receive_maximum: u16,
+    /// Current number of unfinished publishes in the queue (for flow control)
     publish_count: usize,
 }
 
+/// A QoS 1/2 publish occupies the send quota until PUBACK or PUBCOMP, so the
+/// PUBREL of a QoS 2 exchange counts like its PUBLISH.
+fn uses_send_quota(packet: &MqttPacket) -> bool {
+    matches!(
+        packet,
+        MqttPacket::Publish5(_)
+            | MqttPacket::Publish3(_)
+            | MqttPacket::PubRel5(_)
+            | MqttPacket::PubRel3(_)
+    )
+}
+
 impl InflightQueue {
     pub fn new(receive_maximum: u16, mqtt_version: u8, retransmission_timeout: Duration) -> Self {
+        let receive_maximum = if receive_maximum == 0 {
+            65535
+        } else {
+            receive_maximum
+        };
         Self {
             entries: HashMap::new(),
             deadline_queue: VecDeque::new(),
-            receive_maximum: if receive_maximum == 0 {
-                65535
-            } else {
-                receive_maximum
-            },
+            receive_maximum,
+            default_receive_maximum: receive_maximum,
             mqtt_version,
             retransmission_timeout,
             publish_count: 0,
@@ -117,6 +133,11 @@ impl InflightQueue {
         }
     }
 
+    /// Return to the configured limit (a CONNACK without Receive Maximum).
+    pub fn reset_receive_maximum(&mut self) {
+        self.receive_maximum = self.default_receive_maximum;
+    }
+
     /// Push a message into the inflight queue (single-stream / unrouted).
     pub fn push(
         &mut self,
@@ -153,7 +174,7 @@ impl InflightQueue {
         }
 
         let now = Instant::now();
-        if matches!(packet, MqttPacket::Publish5(_) | MqttPacket::Publish3(_)) {
+        if uses_send_quota(&packet) {
             self.publish_count += 1;
         }
 
@@ -183,10 +204,7 @@ impl InflightQueue {
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
-            if matches!(
-                entry.packet,
-                MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
-            ) {
+            if uses_send_quota(&entry.packet) {
                 self.publish_count -= 1;
             }
             Some(entry)
-- 
2.43.0


From 6618c7dc237403cf7592f60ad1b8e471c1f53480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:37 +0000
Subject: [PATCH 16/92] fix: resume unfinished exchanges in order, within the
 receive maximum, and drop them when the session is gone

---
 src/mqtt_client/engine.rs   | 68 ++++++++++++++++++++----------
 src/mqtt_client/inflight.rs | 83 +++++++++++++++++++++++++++++++++++--
 2 files changed, 126 insertions(+), 25 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 8633108..c2f316f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -211,6 +211,8 @@ pub struct MqttEngine {
 
     // Pending operations tracking (state only)
     inflight_queue: InflightQueue,
+    /// Operations of earlier connections that are still to be sent again
+    resume_queue: VecDeque<u16>,
 
     events: Vec<MqttEvent>,
 
@@ -246,6 +248,7 @@ impl MqttEngine {
                 options.mqtt_version,
                 retransmission_timeout,
             ),
+            resume_queue: VecDeque::new(),
             session: None,
             priority_queue: PriorityQueue::new(1000),
             is_connected: false,
@@ -552,6 +555,9 @@ impl MqttEngine {
             return;
         }
 
+        self.inflight_queue.begin_connection();
+        self.resume_queue.clear();
+
         // Initialize session if needed
         if self.session.is_none() {
             self.session = Some(ClientSession::new());
@@ -912,16 +918,8 @@ impl MqttEngine {
                     }
                 }
 
-                // Handle session resumption: resend pending messages
-                // Only when server confirms session resumption (session_present=true)
-                if ack.session_present {
-                    let pending = self.inflight_queue.get_all_for_reconnect();
-                    for mut packet in pending {
-                        packet.set_dup(true);
-                        if let Ok(bytes) = packet.to_bytes() {
-                            self.outgoing_buffer.push_back(bytes);
-                        }
-                    }
+                if self.is_connected {
+                    self.resume_session(ack.session_present);
                 }
             }
             MqttPacket::ConnAck3(ack) => {
@@ -935,16 +933,8 @@ impl MqttEngine {
                     properties: None,
                 }));
 
-                // Handle session resumption: resend pending messages
-                // Only when server confirms session resumption (session_present=true)
-                if ack.session_present {
-                    let pending = self.inflight_queue.get_all_for_reconnect();
-                    for mut packet in pending {
-                        packet.set_dup(true);
-                        if let Ok(bytes) = packet.to_bytes() {
-                            self.outgoing_buffer.push_back(bytes);
-                        }
-                    }
+                if self.is_connected {
+                    self.resume_session(ack.session_present);
                 }
             }
             MqttPacket::PubAck5(ack) => {
@@ -1163,6 +1153,42 @@ impl MqttEngine {
         (events, responses)
     }
 
+    /// Continue the operations of earlier connections, or drop them when the server
+    /// no longer has the session.
+    fn resume_session(&mut self, session_present: bool) {
+        if session_present {
+            self.resume_queue = self.inflight_queue.begin_resume();
+        } else {
+            self.resume_queue.clear();
+            self.inflight_queue.discard_earlier_connections();
+        }
+    }
+
+    /// Send resumed operations again, as far as the send quota and the outgoing
+    /// buffer allow. Returns whether all of them have been sent.
+    fn process_resume_queue(&mut self) -> bool {
+        while let Some(&packet_id) = self.resume_queue.front() {
+            let is_publish = self
+                .inflight_queue
+                .get(packet_id)
+                .is_some_and(|e| e.awaits_puback() || e.awaits_pubrec());
+            if self.outgoing_buffer.len() >= self.options.max_outgoing_packet_count
+                || (is_publish && !self.inflight_queue.can_push_publish())
+            {
+                return false;
+            }
+            self.resume_queue.pop_front();
+            if let Some(mut packet) = self.inflight_queue.resend(packet_id) {
+                packet.set_dup(true);
+                if let Ok(bytes) = packet.to_bytes() {
+                    self.outgoing_buffer.push_back(bytes);
+                    self.last_packet_sent = Instant::now();
+                }
+            }
+        }
+        true
+    }
+
     /// Answer an accepting PUBREC with PUBREL, and keep the PUBREL for retransmission.
     fn handle_pubrec(
         &mut self,
@@ -1237,7 +1263,7 @@ impl MqttEngine {
     }
 
     fn process_queue(&mut self) {
-        if !self.is_connected {
+        if !self.is_connected || !self.process_resume_queue() {
             return;
         }
 
diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 4b50737..7e8c0b2 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -24,6 +24,12 @@ pub struct InflightEntry {
     /// stream). Retransmissions are routed back onto this same channel so the QoS
     /// 1/2 handshake never crosses streams.
     pub stream: Option<u64>,
+    /// Position in the order in which the entries' packets were first sent
+    seq: u64,
+    /// Kept from an earlier connection and not sent again on this one yet
+    awaiting_resend: bool,
+    /// Occupies the send quota of this connection
+    uses_quota: bool,
 }
 
 impl InflightEntry {
@@ -89,6 +95,10 @@ pub struct InflightQueue {
     default_receive_maximum: u16,
     /// Current number of unfinished publishes in the queue (for flow control)
     publish_count: usize,
+    /// Sequence number of the next entry
+    next_seq: u64,
+    /// Entries below this sequence number belong to earlier connections
+    connection_start: u64,
 }
 
 /// A QoS 1/2 publish occupies the send quota until PUBACK or PUBCOMP, so the
@@ -118,6 +128,8 @@ impl InflightQueue {
             mqtt_version,
             retransmission_timeout,
             publish_count: 0,
+            next_seq: 0,
+            connection_start: 0,
         }
     }
 
@@ -138,6 +150,64 @@ impl InflightQueue {
         self.receive_maximum = self.default_receive_maximum;
     }
 
+    /// Everything in the queue now belongs to an earlier connection.
+    pub fn begin_connection(&mut self) {
+        self.connection_start = self.next_seq;
+    }
+
+    /// The server has no session: forget the operations of earlier connections.
+    pub fn discard_earlier_connections(&mut self) {
+        let start = self.connection_start;
+        self.entries.retain(|_, e| e.seq >= start);
+        self.forget_stale_deadlines();
+    }
+
+    /// The server has the session: the operations of earlier connections, in the
+    /// order in which they have to be sent again with [`resend`](Self::resend).
+    pub fn begin_resume(&mut self) -> VecDeque<u16> {
+        let start = self.connection_start;
+        let mut earlier: Vec<(u64, u16)> = Vec::new();
+        for e in self.entries.values_mut().filter(|e| e.seq < start) {
+            e.awaiting_resend = true;
+            e.uses_quota = false;
+            e.stream = None;
+            earlier.push((e.seq, e.packet_id));
+        }
+        self.forget_stale_deadlines();
+        // Each operation is resumed once per connection.
+        self.connection_start = 0;
+        earlier.sort_unstable();
+        earlier.into_iter().map(|(_, pid)| pid).collect()
+    }
+
+    /// Take the packet of a resumed operation for sending it again.
+    pub fn resend(&mut self, packet_id: u16) -> Option<MqttPacket> {
+        let entry = self.entries.get_mut(&packet_id)?;
+        if !std::mem::take(&mut entry.awaiting_resend) {
+            return None;
+        }
+        entry.sent_at = Instant::now();
+        // A resumed PUBREL does not take part in the flow control of the new connection.
+        entry.uses_quota = matches!(
+            entry.packet,
+            MqttPacket::Publish5(_) | MqttPacket::Publish3(_)
+        );
+        if entry.uses_quota {
+            self.publish_count += 1;
+        }
+        if self.mqtt_version != 5 {
+            self.deadline_queue.push_back((packet_id, entry.sent_at));
+        }
+        Some(entry.packet.clone())
+    }
+
+    fn forget_stale_deadlines(&mut self) {
+        let entries = &self.entries;
+        self.deadline_queue
+            .retain(|(pid, _)| entries.get(pid).is_some_and(|e| !e.awaiting_resend));
+        self.publish_count = entries.values().filter(|e| e.uses_quota).count();
+    }
+
     /// Push a message into the inflight queue (single-stream / unrouted).
     pub fn push(
         &mut self,
@@ -174,7 +244,8 @@ impl InflightQueue {
         }
 
         let now = Instant::now();
-        if uses_send_quota(&packet) {
+        let uses_quota = uses_send_quota(&packet);
+        if uses_quota {
             self.publish_count += 1;
         }
 
@@ -185,7 +256,11 @@ impl InflightQueue {
             retry_count: 0,
             qos,
             stream,
+            seq: self.next_seq,
+            awaiting_resend: false,
+            uses_quota,
         };
+        self.next_seq += 1;
 
         self.entries.insert(packet_id, entry);
         // Only track deadlines for MQTT v3 which needs timeout-based retransmission
@@ -204,7 +279,7 @@ impl InflightQueue {
     /// Acknowledge a message (PUBACK, PUBREL, etc.)
     pub fn acknowledge(&mut self, packet_id: u16) -> Option<InflightEntry> {
         if let Some(entry) = self.entries.remove(&packet_id) {
-            if uses_send_quota(&entry.packet) {
+            if entry.uses_quota {
                 self.publish_count -= 1;
             }
             Some(entry)
@@ -276,8 +351,8 @@ impl InflightQueue {
     /// Get all messages to be re-sent upon reconnection (MQTT 3.1.1 and 5.0 with CleanStart=0)
     pub fn get_all_for_reconnect(&self) -> Vec<MqttPacket> {
         let mut all = self.entries.values().collect::<Vec<_>>();
-        // Sort by retry_count or original sent time if needed, but here we just send
-        all.sort_by_key(|e| e.sent_at);
+        // MQTT requires the order in which the packets were originally sent
+        all.sort_by_key(|e| e.seq);
         all.into_iter().map(|e| e.packet.clone()).collect()
     }
 
-- 
2.43.0


From 81332df8c4b71b492f61788bddf5d01d6e35eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 17/92] fix: deliver an incoming QoS 2 message once, however
 often its PUBLISH is repeated

---
 src/mqtt_client/engine.rs | 44 +++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index c2f316f..d06645c 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -16,7 +16,7 @@ use rustls::{
 };
 #[cfg(feature = "quic-proto")]
 use std::collections::HashMap;
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::time::{Duration, Instant};
 #[cfg(feature = "quic-proto")]
 use std::{
@@ -213,6 +213,9 @@ pub struct MqttEngine {
     inflight_queue: InflightQueue,
     /// Operations of earlier connections that are still to be sent again
     resume_queue: VecDeque<u16>,
+    /// Incoming QoS 2 messages that were delivered and await their PUBREL
+    /// (automatic acknowledgement only)
+    incoming_qos2: HashSet<u16>,
 
     events: Vec<MqttEvent>,
 
@@ -249,6 +252,7 @@ impl MqttEngine {
                 retransmission_timeout,
             ),
             resume_queue: VecDeque::new(),
+            incoming_qos2: HashSet::new(),
             session: None,
             priority_queue: PriorityQueue::new(1000),
             is_connected: false,
@@ -966,11 +970,13 @@ impl MqttEngine {
             MqttPacket::Publish5(p) => {
                 let qos = p.qos;
                 let pid = p.packet_id;
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p));
+                if self.is_new_message(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -995,11 +1001,13 @@ impl MqttEngine {
                     p.dup,
                     Vec::new(),
                 );
-                events.push(MqttEvent::PublishReceived {
-                    packet_id: pid,
-                    stream,
-                });
-                events.push(MqttEvent::MessageReceived(p5));
+                if self.is_new_message(qos, pid) {
+                    events.push(MqttEvent::PublishReceived {
+                        packet_id: pid,
+                        stream,
+                    });
+                    events.push(MqttEvent::MessageReceived(p5));
+                }
 
                 if self.options.auto_ack && qos == 1 {
                     if let Some(pid) = pid {
@@ -1095,6 +1103,7 @@ impl MqttEngine {
                 self.handle_pubrec(rec.message_id, rel, stream, &mut responses);
             }
             MqttPacket::PubRel5(rel) => {
+                self.incoming_qos2.remove(&rel.packet_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.packet_id,
                     stream,
@@ -1108,6 +1117,7 @@ impl MqttEngine {
                 }
             }
             MqttPacket::PubRel3(rel) => {
+                self.incoming_qos2.remove(&rel.message_id);
                 events.push(MqttEvent::PubRelReceived {
                     packet_id: rel.message_id,
                     stream,
@@ -1153,6 +1163,17 @@ impl MqttEngine {
         (events, responses)
     }
 
+    /// Whether an incoming PUBLISH is to be delivered. A QoS 2 one repeats a message
+    /// that was already delivered until its PUBREL has arrived.
+    fn is_new_message(&mut self, qos: u8, packet_id: Option<u16>) -> bool {
+        match packet_id {
+            Some(packet_id) if qos == 2 && self.options.auto_ack => {
+                self.incoming_qos2.insert(packet_id)
+            }
+            _ => true,
+        }
+    }
+
     /// Continue the operations of earlier connections, or drop them when the server
     /// no longer has the session.
     fn resume_session(&mut self, session_present: bool) {
@@ -1160,6 +1181,7 @@ impl MqttEngine {
             self.resume_queue = self.inflight_queue.begin_resume();
         } else {
             self.resume_queue.clear();
+            self.incoming_qos2.clear();
             self.inflight_queue.discard_earlier_connections();
         }
     }
-- 
2.43.0


From bdeca7d2f7825e549052d7253004d709033b2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:54 +0000
Subject: [PATCH 18/92] fix: never drop an acknowledgement owed to the peer
 because the outgoing buffer is full

---
 src/mqtt_client/engine.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index d06645c..1bddfa8 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -391,8 +391,12 @@ impl MqttEngine {
                     self.events.extend(packet_events);
                     // Single-stream transports (TCP/TLS, QUIC control stream) send
                     // responses back over the same shared outgoing buffer.
+                    // They are owed to the peer, so the limit on queued packets
+                    // does not apply to them.
                     for response in responses {
-                        let _ = self.enqueue_packet(response);
+                        if let Err(e) = self.enqueue_response(response) {
+                            self.events.push(MqttEvent::Error(e));
+                        }
                     }
                 }
                 Ok(None) => break,
@@ -1274,6 +1278,10 @@ impl MqttEngine {
             });
         }
 
+        self.enqueue_response(packet)
+    }
+
+    fn enqueue_response(&mut self, packet: MqttPacket) -> Result<(), MqttClientError> {
         match packet.to_bytes() {
             Ok(bytes) => {
                 self.outgoing_buffer.push_back(bytes);
-- 
2.43.0


From 5032a49f1cf21d2901cd9c7585a0d40ad5f6d57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:38 +0000
Subject: [PATCH 19/92] fix: nothing but CONNECT and AUTH is sent before the
 connection is accepted

---
 src/mqtt_client/engine.rs | 93 ++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 17 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 1bddfa8..7cb1909 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -213,6 +213,8 @@ pub struct MqttEngine {
     inflight_queue: InflightQueue,
     /// Operations of earlier connections that are still to be sent again
     resume_queue: VecDeque<u16>,
+    /// SUBSCRIBE and UNSUBSCRIBE packets accepted while not connected
+    pending_control: VecDeque<(u16, MqttPacket)>,
     /// Incoming QoS 2 messages that were delivered and await their PUBREL
     /// (automatic acknowledgement only)
     incoming_qos2: HashSet<u16>,
@@ -252,6 +254,7 @@ impl MqttEngine {
                 retransmission_timeout,
             ),
             resume_queue: VecDeque::new(),
+            pending_control: VecDeque::new(),
             incoming_qos2: HashSet::new(),
             session: None,
             priority_queue: PriorityQueue::new(1000),
@@ -748,8 +751,7 @@ impl MqttEngine {
             MqttPacket::Subscribe3(subscribev3::MqttSubscribe::new(pid, v3_subs))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        self.send_or_hold(pid, packet)?;
         Ok(pid)
     }
 
@@ -766,8 +768,7 @@ impl MqttEngine {
             MqttPacket::Unsubscribe3(unsubscribev3::MqttUnsubscribe::new(pid, command.topics))
         };
 
-        self.inflight_queue.push(pid, packet.clone(), 1)?;
-        self.enqueue_packet(packet)?;
+        self.send_or_hold(pid, packet)?;
         Ok(pid)
     }
 
@@ -1263,6 +1264,9 @@ impl MqttEngine {
     }
 
     fn send_ping_at(&mut self, now: Instant) -> Result<(), MqttClientError> {
+        if !self.is_connected {
+            return Err(MqttClientError::NotConnected);
+        }
         let packet = self.pingreq_packet();
         self.enqueue_packet(packet)?;
         self.last_packet_sent = now;
@@ -1292,8 +1296,67 @@ impl MqttEngine {
         }
     }
 
+    /// Send a SUBSCRIBE or UNSUBSCRIBE, or keep it until the connection is accepted.
+    /// An error leaves nothing behind.
+    fn send_or_hold(&mut self, packet_id: u16, packet: MqttPacket) -> Result<(), MqttClientError> {
+        let bytes = packet.to_bytes().map_err(MqttClientError::from)?;
+        let hold = !self.is_connected || !self.pending_control.is_empty();
+        let waiting = if hold {
+            self.pending_control.len()
+        } else {
+            self.outgoing_buffer.len()
+        };
+        if waiting >= self.options.max_outgoing_packet_count {
+            return Err(MqttClientError::BufferFull {
+                buffer_type: "outgoing".to_string(),
+                capacity: self.options.max_outgoing_packet_count,
+            });
+        }
+        if hold {
+            self.pending_control.push_back((packet_id, packet));
+            return Ok(());
+        }
+        self.inflight_queue.push(packet_id, packet, 1)?;
+        self.outgoing_buffer.push_back(bytes);
+        self.last_packet_sent = Instant::now();
+        Ok(())
+    }
+
+    fn process_pending_control(&mut self) {
+        while self.outgoing_buffer.len() < self.options.max_outgoing_packet_count {
+            let Some((packet_id, packet)) = self.pending_control.pop_front() else {
+                break;
+            };
+            let sent = packet
+                .to_bytes()
+                .map_err(MqttClientError::from)
+                .and_then(|bytes| {
+                    self.inflight_queue.push(packet_id, packet, 1)?;
+                    Ok(bytes)
+                });
+            match sent {
+                Ok(bytes) => {
+                    self.outgoing_buffer.push_back(bytes);
+                    self.last_packet_sent = Instant::now();
+                }
+                Err(e) => self.events.push(MqttEvent::Error(e)),
+            }
+        }
+    }
+
+    /// Whether an unfinished operation uses this packet identifier.
+    fn is_in_use(&self, packet_id: u16) -> bool {
+        self.inflight_queue.contains(packet_id)
+            || self.pending_control.iter().any(|(id, _)| *id == packet_id)
+            || Self::is_queued(&self.priority_queue, packet_id)
+    }
+
     fn process_queue(&mut self) {
-        if !self.is_connected || !self.process_resume_queue() {
+        if !self.is_connected {
+            return;
+        }
+        self.process_pending_control();
+        if !self.process_resume_queue() {
             return;
         }
 
@@ -1339,16 +1402,16 @@ impl MqttEngine {
     }
 
     pub fn next_packet_id(&mut self) -> Result<u16, MqttClientError> {
-        let session = self
-            .session
-            .as_mut()
-            .ok_or(MqttClientError::ProtocolViolation {
-                message: "No session available for packet ID allocation".into(),
-            })?;
         // The counter wraps around, so skip identifiers that are still in use.
         for _ in 0..u16::MAX {
+            let session = self
+                .session
+                .as_mut()
+                .ok_or(MqttClientError::ProtocolViolation {
+                    message: "No session available for packet ID allocation".into(),
+                })?;
             let pid = session.next_packet_id();
-            if !self.inflight_queue.contains(pid) && !Self::is_queued(&self.priority_queue, pid) {
+            if !self.is_in_use(pid) {
                 return Ok(pid);
             }
         }
@@ -1360,11 +1423,7 @@ impl MqttEngine {
     fn claim_packet_id(&mut self, requested: Option<u16>) -> Result<u16, MqttClientError> {
         match requested {
             None => self.next_packet_id(),
-            Some(packet_id)
-                if packet_id == 0
-                    || self.inflight_queue.contains(packet_id)
-                    || Self::is_queued(&self.priority_queue, packet_id) =>
-            {
+            Some(packet_id) if packet_id == 0 || self.is_in_use(packet_id) => {
                 Err(MqttClientError::InvalidPacketId { packet_id })
             }
             Some(packet_id) => Ok(packet_id),
-- 
2.43.0


From 413bc7d59fb375794e9765901f2dae91ab20d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 20/92] fix: connect() starts the new transport clean

---
 src/mqtt_client/engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7cb1909..88cca3d 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -566,6 +566,13 @@ impl MqttEngine {
             return;
         }
 
+        // Nothing that belongs to an earlier transport may reach this one: unsent
+        // bytes, a partly received packet, an unanswered ping or a reconnect timer.
+        self.outgoing_buffer.clear();
+        self.stream_retransmissions.clear();
+        self.parser = MqttParser::new(self.options.parser_buffer_size, self.options.mqtt_version);
+        self.ping_sent_at = None;
+        self.next_reconnect_at = None;
         self.inflight_queue.begin_connection();
         self.resume_queue.clear();
 
-- 
2.43.0


From 6e91556c2b46e43eb0ac8054e8a749aec93878ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:36 +0000
Subject: [PATCH 21/92] fix: CONNECT carries the configured will, credentials
 and properties

---
 src/mqtt_client/engine.rs | 38 ++++++++++++++++++++++++++++++++++----
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 88cca3d..17e1e38 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -586,22 +586,52 @@ impl MqttEngine {
                 self.options.client_id.clone(),
                 self.options.username.clone(),
                 self.options.password.clone(),
-                None, // Will
+                self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                Vec::new(), // Properties
+                self.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
-            let connect = connectv3::MqttConnect::new(
+            let mut connect = connectv3::MqttConnect::new(
                 self.options.client_id.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
             );
+            connect.username = self.options.username.clone();
+            connect.password = self.options.password.clone();
+            // MQTT 3.1.1 has no will properties
+            connect.will = self.options.will.as_ref().map(|will| connectv3::Will {
+                retain: will.will_retain,
+                qos: will.will_qos,
+                topic: will.will_topic.clone(),
+                message: will.will_message.clone(),
+            });
             MqttPacket::Connect3(connect)
         };
 
-        let _ = self.enqueue_packet(packet);
+        if let Err(e) = self.enqueue_response(packet) {
+            self.events.push(MqttEvent::Error(e));
+        }
+    }
+
+    /// The MQTT 5.0 CONNECT properties that the options ask for
+    fn connect_properties(&self) -> Vec<Property> {
+        let options = &self.options;
+        let mut properties = Vec::new();
+        if let Some(seconds) = options.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(seconds));
+        }
+        if let Some(bytes) = options.maximum_packet_size {
+            properties.push(Property::MaximumPacketSize(bytes));
+        }
+        if let Some(wanted) = options.request_response_information {
+            properties.push(Property::RequestResponseInformation(wanted as u8));
+        }
+        if let Some(wanted) = options.request_problem_information {
+            properties.push(Property::RequestProblemInformation(wanted as u8));
+        }
+        properties
     }
 
     /// Queue a PUBLISH packet.
-- 
2.43.0


From aebf5a086f18a1ca6e2eb6cfef8fca6263d5e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:58 +0000
Subject: [PATCH 22/92] fix: honour Server Keep Alive, and detect a dead peer
 whatever else is queued or pinged

---
 src/mqtt_client/engine.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 17e1e38..c754fe5 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -194,6 +194,9 @@ pub struct MqttEngine {
     is_connected: bool,
     last_packet_sent: Instant,
     last_packet_received: Instant,
+    /// Keep-alive interval of this connection: the configured one, unless the
+    /// server overrides it in its CONNACK (MQTT 5.0 Server Keep Alive).
+    keep_alive: Duration,
     /// Timestamp of the outstanding PINGREQ, if any. A connection timeout is
     /// only valid after this request has not received a PINGRESP in time.
     ping_sent_at: Option<Instant>,
@@ -261,6 +264,7 @@ impl MqttEngine {
             is_connected: false,
             last_packet_sent: Instant::now(),
             last_packet_received: Instant::now(),
+            keep_alive: Duration::from_secs(options.keep_alive as u64),
             ping_sent_at: None,
             parser,
             outgoing_buffer: VecDeque::new(),
@@ -438,7 +442,7 @@ impl MqttEngine {
             return self.take_events();
         }
 
-        let keep_alive = Duration::from_secs(self.options.keep_alive as u64);
+        let keep_alive = self.keep_alive;
 
         // 1. A PINGRESP is only required after we actually send a PINGREQ. In
         // particular, QoS 0 publishing may be continuously outbound and have
@@ -464,7 +468,13 @@ impl MqttEngine {
             && keep_alive > Duration::ZERO
             && now.duration_since(self.last_packet_sent) >= keep_alive
         {
-            let _ = self.send_ping_at(now);
+            // At most one is outstanding, so it may exceed the limit on queued
+            // packets; otherwise a full buffer would stop dead peer detection.
+            let ping = self.pingreq_packet();
+            if self.enqueue_response(ping).is_ok() {
+                self.last_packet_sent = now;
+                self.ping_sent_at = Some(now);
+            }
         }
 
         // 3. Retransmissions
@@ -519,7 +529,7 @@ impl MqttEngine {
         }
 
         let mut next = None;
-        let keep_alive = Duration::from_secs(self.options.keep_alive as u64);
+        let keep_alive = self.keep_alive;
 
         // 2. A PINGREQ response timeout takes precedence over another PINGREQ.
         if keep_alive > Duration::ZERO {
@@ -955,12 +965,16 @@ impl MqttEngine {
                 // Update receive_maximum from CONNACK properties if present; the limit
                 // of an earlier connection does not apply to this one
                 self.inflight_queue.reset_receive_maximum();
-                if let Some(props) = &ack.properties {
-                    for prop in props {
-                        if let Property::ReceiveMaximum(max) = prop {
+                self.keep_alive = Duration::from_secs(self.options.keep_alive as u64);
+                for prop in ack.properties.iter().flatten() {
+                    match prop {
+                        Property::ReceiveMaximum(max) => {
                             self.inflight_queue.update_receive_maximum(*max);
-                            break;
                         }
+                        Property::ServerKeepAlive(seconds) => {
+                            self.keep_alive = Duration::from_secs(*seconds as u64);
+                        }
+                        _ => {}
                     }
                 }
 
@@ -1307,7 +1321,8 @@ impl MqttEngine {
         let packet = self.pingreq_packet();
         self.enqueue_packet(packet)?;
         self.last_packet_sent = now;
-        self.ping_sent_at = Some(now);
+        // A later ping does not postpone the deadline of an unanswered one.
+        self.ping_sent_at.get_or_insert(now);
         Ok(())
     }
 
-- 
2.43.0


From 0c2457a7437b1978c2fc2a06918b06d3a9a0c8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:16 +0000
Subject: [PATCH 23/92] fix: the reconnect delay keeps doubling until it
 reaches the configured maximum

---
 src/mqtt_client/engine.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index c754fe5..c3acc59 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -341,21 +341,21 @@ impl MqttEngine {
         }
 
         // Calculate exponential backoff: base_delay * 2^attempts
-        // Cap exponent at 10 to prevent overflow (2^10 = 1024)
-        let exponent = self.reconnect_attempts.min(10);
-        let multiplier = 1u64 << exponent; // 2^exponent
+        // (2^64 milliseconds exceed any maximum delay)
+        let exponent = self.reconnect_attempts.min(64);
+        let multiplier = 1u128 << exponent; // 2^exponent
 
         let delay_ms = self
             .reconnect_base_delay
             .as_millis()
-            .saturating_mul(multiplier as u128);
+            .saturating_mul(multiplier);
 
         // Cap at max delay
         let delay_ms = delay_ms.min(self.reconnect_max_delay.as_millis());
         let delay = Duration::from_millis(delay_ms as u64);
 
         self.next_reconnect_at = Some(now + delay);
-        self.reconnect_attempts += 1;
+        self.reconnect_attempts = self.reconnect_attempts.saturating_add(1);
 
         self.events.push(MqttEvent::ReconnectScheduled {
             attempt: self.reconnect_attempts,
-- 
2.43.0


From 7351fb294d3d6c6eb1f5b9c29d5b7a34f07861dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 24/92] fix: queued packets move on as the outgoing buffer is
 taken

---
 src/mqtt_client/engine.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index c3acc59..9f22752 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -557,13 +557,19 @@ impl MqttEngine {
     /// Take bytes ready to be sent to the network.
     ///
     /// This should be written to the underlying transport immediately.
-    /// Clears the internal outgoing buffer.
+    /// Clears the internal outgoing buffer, including what moves into it from the
+    /// queues as it empties.
     pub fn take_outgoing(&mut self) -> Vec<u8> {
         let mut all_bytes = Vec::new();
-        while let Some(packet) = self.outgoing_buffer.pop_front() {
-            all_bytes.extend(packet);
+        loop {
+            while let Some(packet) = self.outgoing_buffer.pop_front() {
+                all_bytes.extend(packet);
+            }
+            self.process_queue();
+            if self.outgoing_buffer.is_empty() {
+                return all_bytes;
+            }
         }
-        all_bytes
     }
 
     // --- Command Methods ---
-- 
2.43.0


From 15663af4a66e5a1ac0d920bc57d99d4ee1500aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:49 +0000
Subject: [PATCH 25/92] fix: refuse a publish that cannot be encoded or queued,
 instead of accepting and dropping it

---
 src/mqtt_client/engine.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 9f22752..961d081 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -85,6 +85,9 @@ pub enum QuicZeroRttStatus {
     Rejected,
 }
 
+/// Maximum number of publishes waiting to be sent
+const MAX_QUEUED_PUBLISHES: usize = 1000;
+
 /// Events emitted by the MqttEngine to be handled by the application (I/O layer)
 #[derive(Debug, serde::Serialize)]
 pub enum MqttEvent {
@@ -260,7 +263,7 @@ impl MqttEngine {
             pending_control: VecDeque::new(),
             incoming_qos2: HashSet::new(),
             session: None,
-            priority_queue: PriorityQueue::new(1000),
+            priority_queue: PriorityQueue::new(MAX_QUEUED_PUBLISHES),
             is_connected: false,
             last_packet_sent: Instant::now(),
             last_packet_received: Instant::now(),
@@ -672,11 +675,15 @@ impl MqttEngine {
             MqttPacket::Publish3(command.to_mqttv3_publish())
         };
 
-        if let Some(_pid) = pid {
-            // QoS > 0 messages are pushed to inflight only when they are about to be sent.
-            // But we can check here if we have room in the inflight queue.
-            // However, the priority queue is the one that manages the order.
-            // We'll check inflight capacity in process_queue().
+        // An accepted publish is never dropped: one that cannot be encoded is refused
+        // here, and so is one that would evict another from a full queue. The room
+        // in the inflight queue is checked when it is about to be sent.
+        packet.to_bytes().map_err(MqttClientError::from)?;
+        if self.priority_queue.len() >= MAX_QUEUED_PUBLISHES {
+            return Err(MqttClientError::BufferFull {
+                buffer_type: "publish".to_string(),
+                capacity: MAX_QUEUED_PUBLISHES,
+            });
         }
 
         self.priority_queue.enqueue(command.priority, packet);
-- 
2.43.0


From b127ddcc6512eadd90d78277fc96f5095fccb2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 26/92] fix: a resumed PUBREL does not wait for room in the
 send quota

---
 src/mqtt_client/inflight.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/inflight.rs b/src/mqtt_client/inflight.rs
index 7e8c0b2..e15c5ed 100644
--- a/src/mqtt_client/inflight.rs
+++ b/src/mqtt_client/inflight.rs
@@ -176,7 +176,14 @@ impl InflightQueue {
         self.forget_stale_deadlines();
         // Each operation is resumed once per connection.
         self.connection_start = 0;
-        earlier.sort_unstable();
+        // Only PUBLISH packets may have to wait for room in the send quota.
+        let entries = &self.entries;
+        earlier.sort_unstable_by_key(|(seq, pid)| {
+            let is_publish = entries
+                .get(pid)
+                .is_some_and(|e| e.awaits_puback() || e.awaits_pubrec());
+            (is_publish, *seq)
+        });
         earlier.into_iter().map(|(_, pid)| pid).collect()
     }
 
-- 
2.43.0


From 392cb79ca12e5c1cf6f38bbf9b5d64ca3a4b2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:24 +0000
Subject: [PATCH 27/92] fix: DISCONNECT and AUTH are not dropped because the
 outgoing buffer is full

---
 src/mqtt_client/engine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 961d081..7bcf537 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -912,8 +912,9 @@ impl MqttEngine {
         if !self.is_connected {
             return;
         }
+        // There is no way to refuse it here, so the buffer limit does not apply.
         let packet = self.disconnect_packet();
-        let _ = self.enqueue_packet(packet);
+        let _ = self.enqueue_response(packet);
         self.is_connected = false;
     }
 
@@ -934,7 +935,7 @@ impl MqttEngine {
     pub fn auth(&mut self, reason_code: u8, properties: Vec<Property>) {
         if self.options.mqtt_version == 5 {
             let auth = authv5::MqttAuth::new(reason_code, properties);
-            let _ = self.enqueue_packet(MqttPacket::Auth(auth));
+            let _ = self.enqueue_response(MqttPacket::Auth(auth));
         }
     }
 
-- 
2.43.0


From a7b90eff181339981e9a70a8ce7b6924faee5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:36 +0000
Subject: [PATCH 28/92] fix: the client session offers exactly the unfinished
 exchanges again, in order, and hands out free identifiers

---
 src/mqtt_session/client_session.rs | 87 ++++++++++++++++++++++++------
 1 file changed, 70 insertions(+), 17 deletions(-)

diff --git a/src/mqtt_session/client_session.rs b/src/mqtt_session/client_session.rs
index 4e8d7ee..ae199a2 100644
--- a/src/mqtt_session/client_session.rs
+++ b/src/mqtt_session/client_session.rs
@@ -17,6 +17,9 @@ pub struct ClientSession {
     // The key is the packet identifier.
     unacknowledged_pubrels: HashMap<u16, MqttPubRel>,
 
+    // The identifiers of both, in the order in which the packets were sent.
+    send_order: Vec<u16>,
+
     packet_id_counter: u16,
 }
 
@@ -31,6 +34,7 @@ impl ClientSession {
         ClientSession {
             unacknowledged_publishes: HashMap::new(),
             unacknowledged_pubrels: HashMap::new(),
+            send_order: Vec::new(),
             packet_id_counter: 0,
         }
     }
@@ -38,17 +42,53 @@ impl ClientSession {
     pub fn clear(&mut self) {
         self.unacknowledged_publishes.clear();
         self.unacknowledged_pubrels.clear();
+        self.send_order.clear();
+    }
+
+    fn is_in_use(&self, packet_id: u16) -> bool {
+        self.unacknowledged_publishes.contains_key(&packet_id)
+            || self.unacknowledged_pubrels.contains_key(&packet_id)
+    }
+
+    /// Remember that the newest packet with this identifier is the last one sent.
+    fn record_sent(&mut self, packet_id: u16) {
+        self.send_order.retain(|id| *id != packet_id);
+        self.send_order.push(packet_id);
+    }
+
+    /// Remove the publish that an acknowledgement of the given QoS answers.
+    fn take_publish(&mut self, packet_id: u16, qos: u8) -> bool {
+        match self.unacknowledged_publishes.get(&packet_id) {
+            Some(publish) if publish.qos == qos => {
+                self.unacknowledged_publishes.remove(&packet_id);
+                self.forget_finished(packet_id);
+                true
+            }
+            _ => false,
+        }
+    }
+
+    fn forget_finished(&mut self, packet_id: u16) {
+        if !self.is_in_use(packet_id) {
+            self.send_order.retain(|id| *id != packet_id);
+        }
     }
 
     pub fn next_packet_id(&mut self) -> u16 {
         // MQTT spec: packet identifier must be non-zero (1-65535)
         // When at MAX or uninitialized (0), wrap to 1
-        self.packet_id_counter =
-            if self.packet_id_counter == u16::MAX || self.packet_id_counter == 0 {
-                1
-            } else {
-                self.packet_id_counter + 1
-            };
+        // Identifiers of unfinished exchanges are skipped while others are free.
+        for _ in 0..u16::MAX {
+            self.packet_id_counter =
+                if self.packet_id_counter == u16::MAX || self.packet_id_counter == 0 {
+                    1
+                } else {
+                    self.packet_id_counter + 1
+                };
+            if !self.is_in_use(self.packet_id_counter) {
+                break;
+            }
+        }
 
         self.packet_id_counter
     }
@@ -57,12 +97,20 @@ impl ClientSession {
         if let Some(packet_id) = publish.packet_id {
             if publish.qos > 0 && !self.unacknowledged_publishes.contains_key(&packet_id) {
                 self.unacknowledged_publishes.insert(packet_id, publish);
+                self.record_sent(packet_id);
             }
         }
     }
 
     pub fn handle_outgoing_pubrel(&mut self, pubrel: MqttPubRel) {
-        self.unacknowledged_pubrels.insert(pubrel.packet_id, pubrel);
+        let packet_id = pubrel.packet_id;
+        if self
+            .unacknowledged_pubrels
+            .insert(packet_id, pubrel)
+            .is_none()
+        {
+            self.record_sent(packet_id);
+        }
     }
 
     pub fn handle_incoming_publish(&mut self, publish: MqttPublish) -> Option<MqttPacket> {
@@ -85,7 +133,7 @@ impl ClientSession {
     }
 
     pub fn handle_incoming_puback(&mut self, puback: MqttPubAck) {
-        self.unacknowledged_publishes.remove(&puback.packet_id);
+        self.take_publish(puback.packet_id, 1);
     }
 
     pub fn handle_incoming_pubrec(&mut self, pubrec: MqttPubRec) -> Option<MqttPubRel> {
@@ -95,10 +143,14 @@ impl ClientSession {
                 reason_code: 0,
                 properties: Vec::new(),
             };
-            self.unacknowledged_publishes.remove(&pubrec.packet_id);
+            // The exchange goes on with the PUBREL, even if the connection ends
+            // before it is sent.
+            if self.take_publish(pubrec.packet_id, 2) {
+                self.handle_outgoing_pubrel(pubrel.clone());
+            }
             Some(pubrel)
         } else {
-            self.unacknowledged_publishes.remove(&pubrec.packet_id);
+            self.take_publish(pubrec.packet_id, 2);
             None
         }
     }
@@ -113,22 +165,23 @@ impl ClientSession {
 
     pub fn handle_incoming_pubcomp(&mut self, pubcomp: MqttPubComp) {
         self.unacknowledged_pubrels.remove(&pubcomp.packet_id);
+        self.forget_finished(pubcomp.packet_id);
     }
 
     pub fn resend_pending_messages(&self) -> Vec<MqttPacket> {
         // @TODO: have some pacing mechanism to avoid flooding the network
         let mut packets_to_resend = Vec::new();
 
-        for (packet_id, publish) in &self.unacknowledged_publishes {
-            if !self.unacknowledged_pubrels.contains_key(packet_id) {
-                packets_to_resend.push(MqttPacket::Publish5(publish.clone()));
+        for packet_id in &self.send_order {
+            if let Some(pubrel) = self.unacknowledged_pubrels.get(packet_id) {
+                packets_to_resend.push(MqttPacket::PubRel5(pubrel.clone()));
+            } else if let Some(publish) = self.unacknowledged_publishes.get(packet_id) {
+                let mut publish = publish.clone();
+                publish.dup = true;
+                packets_to_resend.push(MqttPacket::Publish5(publish));
             }
         }
 
-        for pubrel in self.unacknowledged_pubrels.values() {
-            packets_to_resend.push(MqttPacket::PubRel5(pubrel.clone()));
-        }
-
         packets_to_resend
     }
 }
-- 
2.43.0


From 26f66ab5f13ef1f25ec6c5f40cdb744df3f6d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 29/92] fix: the blocking client writes whole packets

---
 src/mqtt_client/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 79e99d4..feec015 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -26,7 +26,7 @@ use crate::mqtt_serde::MqttStream;
 
 use super::MqttClientOptions;
 use std::collections::HashMap;
-use std::io;
+use std::io::{self, Write};
 use std::net::TcpStream;
 
 pub struct Subscription {
@@ -1006,7 +1006,7 @@ impl MqttClient {
             )
         })?;
 
-        stream.write(&packet_bytes).map_err(|e| {
+        stream.mut_stream().write_all(&packet_bytes).map_err(|e| {
             io::Error::new(
                 io::ErrorKind::WriteZero,
                 format!("Failed to write packet: {}", e),
-- 
2.43.0


From db5005338ba0c02827a21816b3fecf24d43a4d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:56 +0000
Subject: [PATCH 30/92] fix: a refusing PUBREC or the end of the connection
 ends a blocking QoS 2 publish

---
 src/mqtt_client/client.rs | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index feec015..26b6309 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -655,9 +655,17 @@ impl MqttClient {
 
         if self.is_v3() {
             // MQTT v3.1.1
-            self.recv_for_packet(|p| {
-                matches!(p, MqttPacket::PubRec3(pubrec) if pubrec.message_id == expected_packet_id)
-            })?;
+            if self
+                .recv_for_packet(|p| {
+                    matches!(p, MqttPacket::PubRec3(pubrec) if pubrec.message_id == expected_packet_id)
+                })?
+                .is_none()
+            {
+                return Err(io::Error::new(
+                    io::ErrorKind::UnexpectedEof,
+                    "No PUBREC received from broker",
+                ));
+            }
 
             self.send_packet(pubrelv3::MqttPubRel::new(expected_packet_id))?;
             match self.recv_for_packet(|p| {
@@ -678,9 +686,26 @@ impl MqttClient {
             }
         } else {
             // MQTT v5
-            self.recv_for_packet(|p| {
+            match self.recv_for_packet(|p| {
                 matches!(p, MqttPacket::PubRec5(pubrec) if pubrec.packet_id == expected_packet_id)
-            })?;
+            })? {
+                // The server refused the message: the exchange ends here.
+                Some(MqttPacket::PubRec5(pubrec)) if pubrec.reason_code >= 0x80 => {
+                    return Ok(PublishResult {
+                        packet_id: Some(pubrec.packet_id),
+                        reason_code: Some(pubrec.reason_code),
+                        properties: Some(pubrec.properties),
+                        qos: 2,
+                    });
+                }
+                Some(_) => {}
+                None => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::UnexpectedEof,
+                        "No PUBREC received from broker",
+                    ));
+                }
+            }
 
             self.send_packet(pubrelv5::MqttPubRel::new(expected_packet_id, 0, vec![]))?;
             match self.recv_for_packet(|p| {
-- 
2.43.0


From 995dca1d245a3b36caa46b5e46a80f0c59e81b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 31/92] fix: connect_send reports that no connection could be
 made

---
 src/mqtt_client/client.rs | 51 +++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 26b6309..d3a953d 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -826,33 +826,32 @@ impl MqttClient {
     /// Send CONNECT packet without waiting for CONNACK
     pub fn connect_send(&mut self) -> io::Result<()> {
         // Establish connection to the MQTT broker
-        if let Ok(stream) = TcpStream::connect(self.context.peer.clone()) {
-            // Initialize ClientSession
-            if self.options.sessionless {
-                self.context.session = None;
-                self.options.clean_start = true;
-            } else if self.context.session.is_none() {
-                self.context.session = Some(ClientSession::new());
-            }
-
-            // Send CONNECT packet
-            let connect_packet = connectv5::MqttConnect::new(
-                self.options.client_id.clone(),
-                self.options.username.clone(),
-                self.options.password.clone(),
-                self.options.will.clone(),
-                self.options.keep_alive,
-                self.options.clean_start,
-                vec![], // Add properties as needed
-            );
-
-            // Stream used, now save it
-            let mqtt_stream = MqttStream::new(stream, 16384, 5);
-            self.context.mqtt_stream = Some(mqtt_stream);
-
-            // Send CONNECT packet without waiting for CONNACK
-            self.send_packet(connect_packet)?;
+        let stream = TcpStream::connect(self.context.peer.clone())?;
+        // Initialize ClientSession
+        if self.options.sessionless {
+            self.context.session = None;
+            self.options.clean_start = true;
+        } else if self.context.session.is_none() {
+            self.context.session = Some(ClientSession::new());
         }
+
+        // Send CONNECT packet
+        let connect_packet = connectv5::MqttConnect::new(
+            self.options.client_id.clone(),
+            self.options.username.clone(),
+            self.options.password.clone(),
+            self.options.will.clone(),
+            self.options.keep_alive,
+            self.options.clean_start,
+            vec![], // Add properties as needed
+        );
+
+        // Stream used, now save it
+        let mqtt_stream = MqttStream::new(stream, 16384, 5);
+        self.context.mqtt_stream = Some(mqtt_stream);
+
+        // Send CONNECT packet without waiting for CONNACK
+        self.send_packet(connect_packet)?;
         Ok(())
     }
 
-- 
2.43.0


From a20aa658880908e0229a9acf03b3861d5c905763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:40 +0000
Subject: [PATCH 32/92] fix: the fire-and-forget calls of the blocking client
 speak the configured protocol version

---
 src/mqtt_client/client.rs | 58 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 55 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index d3a953d..c344baf 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -835,6 +835,24 @@ impl MqttClient {
             self.context.session = Some(ClientSession::new());
         }
 
+        if self.is_v3() {
+            // MQTT v3.1.1
+            let mut connect_packet = connectv3::MqttConnect::new(
+                self.options.client_id.clone(),
+                self.options.keep_alive,
+                self.options.clean_start, // v3 uses clean_session
+            );
+            connect_packet.username = self.options.username.clone();
+            connect_packet.password = self.options.password.clone();
+            if let Some(will_v5) = &self.options.will {
+                connect_packet.will = Some(Self::convert_will_v5_to_v3(will_v5));
+            }
+
+            let mqtt_stream = MqttStream::new(stream, 16384, self.options.mqtt_version);
+            self.context.mqtt_stream = Some(mqtt_stream);
+            return self.send_packet(connect_packet);
+        }
+
         // Send CONNECT packet
         let connect_packet = connectv5::MqttConnect::new(
             self.options.client_id.clone(),
@@ -874,7 +892,17 @@ impl MqttClient {
             );
 
             // Send SUBSCRIBE packet without waiting for SUBACK
-            self.send_packet(subscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(subscribev3::MqttSubscribe::new(
+                    packet_id,
+                    vec![subscribev3::SubscriptionTopic {
+                        topic_filter: topic.to_string(),
+                        qos,
+                    }],
+                ))?;
+            } else {
+                self.send_packet(subscribe_packet)?;
+            }
 
             // Update session state - track pending subscription
             self.context
@@ -900,7 +928,14 @@ impl MqttClient {
             );
 
             // Send UNSUBSCRIBE packet without waiting for UNSUBACK
-            self.send_packet(unsubscribe_packet)?;
+            if self.is_v3() {
+                self.send_packet(unsubscribev3::MqttUnsubscribe::new(
+                    packet_id,
+                    topic_filters.clone(),
+                ))?;
+            } else {
+                self.send_packet(unsubscribe_packet)?;
+            }
 
             // Update session state - track pending unsubscription
             self.context
@@ -943,7 +978,18 @@ impl MqttClient {
             );
 
             // Send PUBLISH packet without waiting for acknowledgment
-            self.send_packet(publish_packet)?;
+            if self.is_v3() {
+                self.send_packet(publishv3::MqttPublish::new(
+                    topic.to_string(),
+                    qos,
+                    payload.to_vec(),
+                    packet_id,
+                    retain,
+                    false,
+                ))?;
+            } else {
+                self.send_packet(publish_packet)?;
+            }
 
             // For QoS 1/2, track the packet_id in session state for retransmission
             if let Some(pid) = packet_id {
@@ -960,12 +1006,18 @@ impl MqttClient {
 
     /// Send PINGREQ packet without waiting for PINGRESP
     pub fn ping_send(&mut self) -> io::Result<()> {
+        if self.is_v3() {
+            return self.send_packet(pingreqv3::MqttPingReq::new());
+        }
         let pingreq_packet = pingreqv5::MqttPingReq::new();
         self.send_packet(pingreq_packet)
     }
 
     /// Send DISCONNECT packet without waiting (DISCONNECT has no response)
     pub fn disconnect_send(&mut self) -> io::Result<()> {
+        if self.is_v3() {
+            return self.send_packet(disconnectv3::MqttDisconnect::new());
+        }
         let disconnect_packet = disconnectv5::MqttDisconnect::new(0, vec![]); // reason code 0, no properties
         self.send_packet(disconnect_packet)
     }
-- 
2.43.0


From cf28b3f9da107f569715034accf7e84cd0a3e6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:40 +0000
Subject: [PATCH 33/92] fix: the blocking client does not reuse the identifier
 of a pending operation

---
 src/mqtt_client/client.rs | 42 ++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index c344baf..0f803cf 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -274,6 +274,24 @@ impl Context {
             unhandled_packets: Vec::new(),
         }
     }
+
+    /// A packet identifier that no pending operation uses
+    fn next_packet_id(&mut self) -> io::Result<u16> {
+        for _ in 0..u16::MAX {
+            let session = self
+                .session
+                .as_mut()
+                .ok_or_else(|| io::Error::other("No active session"))?;
+            let packet_id = session.next_packet_id();
+            if !self.pending_subscribes.contains_key(&packet_id)
+                && !self.pending_unsubscribes.contains_key(&packet_id)
+                && !self.pending_publishes.contains_key(&packet_id)
+            {
+                return Ok(packet_id);
+            }
+        }
+        Err(io::Error::other("No packet identifier is free"))
+    }
 }
 
 pub struct MqttClient {
@@ -455,8 +473,8 @@ impl MqttClient {
 
     // Subscribe to a topic and wait for SUBACK
     pub fn subscribed(&mut self, topic: &str, qos: u8) -> io::Result<SubscribeResult> {
-        if let Some(session) = &mut self.context.session {
-            let packet_id = session.next_packet_id();
+        if self.context.session.is_some() {
+            let packet_id = self.context.next_packet_id()?;
 
             if self.is_v3() {
                 // MQTT v3.1.1
@@ -527,9 +545,9 @@ impl MqttClient {
 
     // Unsubscribe from topics and wait for UNSUBACK
     pub fn unsubscribed(&mut self, topics: Vec<&str>) -> io::Result<UnsubscribeResult> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
-            let packet_id = session.next_packet_id();
+            let packet_id = self.context.next_packet_id()?;
 
             if self.is_v3() {
                 // MQTT v3.1.1
@@ -600,9 +618,9 @@ impl MqttClient {
         qos: u8,
         retain: bool,
     ) -> io::Result<PublishResult> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let packet_id = if qos > 0 {
-                Some(session.next_packet_id())
+                Some(self.context.next_packet_id()?)
             } else {
                 None
             };
@@ -875,7 +893,7 @@ impl MqttClient {
 
     /// Send SUBSCRIBE packet without waiting for SUBACK
     pub fn subscribe_send(&mut self, topic: &str, qos: u8) -> io::Result<u16> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let subscription = subscribev5::TopicSubscription {
                 topic_filter: topic.to_string(),
                 qos,
@@ -884,7 +902,7 @@ impl MqttClient {
                 retain_handling: 0,
             };
 
-            let packet_id = session.next_packet_id();
+            let packet_id = self.context.next_packet_id()?;
             let subscribe_packet = subscribev5::MqttSubscribe::new(
                 packet_id,
                 vec![subscription],
@@ -917,9 +935,9 @@ impl MqttClient {
 
     /// Send UNSUBSCRIBE packet without waiting for UNSUBACK
     pub fn unsubscribe_send(&mut self, topics: Vec<&str>) -> io::Result<u16> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let topic_filters: Vec<String> = topics.iter().map(|&s| s.to_string()).collect();
-            let packet_id = session.next_packet_id();
+            let packet_id = self.context.next_packet_id()?;
 
             let unsubscribe_packet = unsubscribev5::MqttUnsubscribe::new(
                 packet_id,
@@ -961,9 +979,9 @@ impl MqttClient {
         qos: u8,
         retain: bool,
     ) -> io::Result<Option<u16>> {
-        if let Some(session) = &mut self.context.session {
+        if self.context.session.is_some() {
             let packet_id = if qos > 0 {
-                Some(session.next_packet_id())
+                Some(self.context.next_packet_id()?)
             } else {
                 None
             };
-- 
2.43.0


From 8ca2f8cd6355b3aaf64410cc73fe5be5ceb540b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:18 +0000
Subject: [PATCH 34/92] fix: CONNECT of the blocking client carries the
 configured properties

---
 src/mqtt_client/client.rs |  4 ++--
 src/mqtt_client/engine.rs | 21 +--------------------
 src/mqtt_client/opts.rs   | 19 +++++++++++++++++++
 3 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/mqtt_client/client.rs b/src/mqtt_client/client.rs
index 0f803cf..641c103 100644
--- a/src/mqtt_client/client.rs
+++ b/src/mqtt_client/client.rs
@@ -424,7 +424,7 @@ impl MqttClient {
                     self.options.will.clone(),
                     self.options.keep_alive,
                     self.options.clean_start,
-                    vec![], // Add properties as needed
+                    self.options.connect_properties(),
                 );
 
                 // stream used, now save it
@@ -879,7 +879,7 @@ impl MqttClient {
             self.options.will.clone(),
             self.options.keep_alive,
             self.options.clean_start,
-            vec![], // Add properties as needed
+            self.options.connect_properties(),
         );
 
         // Stream used, now save it
diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 7bcf537..4728e74 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -608,7 +608,7 @@ impl MqttEngine {
                 self.options.will.clone(),
                 self.options.keep_alive,
                 self.options.clean_start,
-                self.connect_properties(),
+                self.options.connect_properties(),
             );
             MqttPacket::Connect5(connect)
         } else {
@@ -634,25 +634,6 @@ impl MqttEngine {
         }
     }
 
-    /// The MQTT 5.0 CONNECT properties that the options ask for
-    fn connect_properties(&self) -> Vec<Property> {
-        let options = &self.options;
-        let mut properties = Vec::new();
-        if let Some(seconds) = options.session_expiry_interval {
-            properties.push(Property::SessionExpiryInterval(seconds));
-        }
-        if let Some(bytes) = options.maximum_packet_size {
-            properties.push(Property::MaximumPacketSize(bytes));
-        }
-        if let Some(wanted) = options.request_response_information {
-            properties.push(Property::RequestResponseInformation(wanted as u8));
-        }
-        if let Some(wanted) = options.request_problem_information {
-            properties.push(Property::RequestProblemInformation(wanted as u8));
-        }
-        properties
-    }
-
     /// Queue a PUBLISH packet.
     ///
     /// - **QoS 0**: ID is usually None (unless needed for tracing).
diff --git a/src/mqtt_client/opts.rs b/src/mqtt_client/opts.rs
index d7ef621..8192151 100644
--- a/src/mqtt_client/opts.rs
+++ b/src/mqtt_client/opts.rs
@@ -1,5 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
+use crate::mqtt_serde::mqttv5::common::properties::Property;
 use crate::mqtt_serde::mqttv5::subscribev5;
 use crate::mqtt_serde::mqttv5::willv5::Will;
 
@@ -188,6 +189,24 @@ impl MqttClientOptions {
         self
     }
 
+    /// The MQTT 5.0 CONNECT properties that the options ask for
+    pub(crate) fn connect_properties(&self) -> Vec<Property> {
+        let mut properties = Vec::new();
+        if let Some(seconds) = self.session_expiry_interval {
+            properties.push(Property::SessionExpiryInterval(seconds));
+        }
+        if let Some(bytes) = self.maximum_packet_size {
+            properties.push(Property::MaximumPacketSize(bytes));
+        }
+        if let Some(wanted) = self.request_response_information {
+            properties.push(Property::RequestResponseInformation(wanted as u8));
+        }
+        if let Some(wanted) = self.request_problem_information {
+            properties.push(Property::RequestProblemInformation(wanted as u8));
+        }
+        properties
+    }
+
     /// Set the broker peer address (host:port)
     pub fn peer(mut self, peer: impl Into<String>) -> Self {
         self.peer = peer.into();
-- 
2.43.0


From 031129f0dfb0c4d0dcacf53229a9556d6ffcecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 35/92] fix: the gRPC bridge keeps an empty username or
 password

---
 mqtt_grpc_duality/proto/mqttv3.proto |  4 ++--
 mqtt_grpc_duality/proto/mqttv5.proto |  4 ++--
 mqtt_grpc_duality/src/lib.rs         | 32 +++++++---------------------
 3 files changed, 12 insertions(+), 28 deletions(-)

diff --git a/mqtt_grpc_duality/proto/mqttv3.proto b/mqtt_grpc_duality/proto/mqttv3.proto
index 85408fa..11927c3 100644
--- a/mqtt_grpc_duality/proto/mqttv3.proto
+++ b/mqtt_grpc_duality/proto/mqttv3.proto
@@ -35,9 +35,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
 }
diff --git a/mqtt_grpc_duality/proto/mqttv5.proto b/mqtt_grpc_duality/proto/mqttv5.proto
index 63bb659..ecdf4a5 100644
--- a/mqtt_grpc_duality/proto/mqttv5.proto
+++ b/mqtt_grpc_duality/proto/mqttv5.proto
@@ -75,9 +75,9 @@ message Connect {
   // Keep-alive timer in seconds (16-bit).
   uint32 keep_alive = 5;
   // Username (optional).
-  string username = 6;
+  optional string username = 6;
   // Password (optional, binary data).
-  bytes password = 7;
+  optional bytes password = 7;
   // Will message (optional).
   Will will = 8;
   // MQTT 5.0 properties.
diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index f53972b..5d6317a 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -187,8 +187,8 @@ impl From<MqttConnect> for mqttv5pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_start: connect.is_clean_start(),
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv5pb::Will {
                 qos: will.will_qos as i32,
                 retain: will.will_retain,
@@ -436,16 +436,8 @@ impl From<mqttv5pb::Connect> for MqttConnect {
 
         MqttConnect::new(
             connect.client_id,
-            if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            connect.username,
+            connect.password,
             connect
                 .will
                 .map(|will| flowsdk::mqtt_serde::mqttv5::will::Will {
@@ -724,8 +716,8 @@ impl From<MqttConnectV3> for mqttv3pb::Connect {
             protocol_version: connect.protocol_version as u32,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u32,
-            username: connect.username.unwrap_or_default(),
-            password: connect.password.unwrap_or_default(),
+            username: connect.username,
+            password: connect.password,
             will: connect.will.map(|will| mqttv3pb::Will {
                 qos: will.qos as i32,
                 retain: will.retain,
@@ -857,16 +849,8 @@ impl From<mqttv3pb::Connect> for MqttConnectV3 {
             client_id: connect.client_id,
             clean_session: connect.clean_session,
             keep_alive: connect.keep_alive as u16,
-            username: if connect.username.is_empty() {
-                None
-            } else {
-                Some(connect.username)
-            },
-            password: if connect.password.is_empty() {
-                None
-            } else {
-                Some(connect.password)
-            },
+            username: connect.username,
+            password: connect.password,
             will,
         }
     }
-- 
2.43.0


From 7a7862f56f7575279e6cd93abb83d8ca1c3bc05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:30 +0000
Subject: [PATCH 36/92] fix: a QoS 0 message leaves the gRPC bridge without
 packet identifier

---
 mqtt_grpc_duality/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mqtt_grpc_duality/src/lib.rs b/mqtt_grpc_duality/src/lib.rs
index 5d6317a..7500384 100644
--- a/mqtt_grpc_duality/src/lib.rs
+++ b/mqtt_grpc_duality/src/lib.rs
@@ -310,7 +310,11 @@ impl From<mqttv5pb::Publish> for MqttPublish {
         let mut mqtt_publish = MqttPublish::new(
             publish.qos as u8,
             publish.topic,
-            Some(publish.message_id as u16),
+            if publish.message_id == 0 {
+                None
+            } else {
+                Some(publish.message_id as u16)
+            },
             publish.payload,
             publish.retain,
             publish.dup,
-- 
2.43.0


From 581a2b46a3286f6135b1ec8afa6f36761f496e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:12 +0000
Subject: [PATCH 37/92] fix: the TLS and QUIC engines of the FFI pass on user
 name and password

---
 flowsdk_ffi/src/engine.rs | 60 ++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 2073f74..a2c3b30 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -45,24 +45,7 @@ impl MqttEngineFFI {
 
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new_with_opts(opts: MqttOptionsFFI) -> Self {
-        let mut builder = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts);
-
-        if let Some(username) = opts.username {
-            builder = builder.username(username);
-        }
-
-        if let Some(password) = opts.password {
-            builder = builder.password(password);
-        }
-
-        let engine = MqttEngine::new(builder.build());
+        let engine = MqttEngine::new(client_options(opts));
         MqttEngineFFI {
             engine: Mutex::new(engine),
             start_time: Instant::now(),
@@ -183,6 +166,27 @@ impl MqttEngineFFI {
     }
 }
 
+fn client_options(opts: MqttOptionsFFI) -> MqttClientOptions {
+    let mut builder = MqttClientOptions::builder()
+        .client_id(opts.client_id)
+        .mqtt_version(opts.mqtt_version)
+        .clean_start(opts.clean_start)
+        .keep_alive(opts.keep_alive)
+        .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
+        .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
+        .max_reconnect_attempts(opts.max_reconnect_attempts);
+
+    if let Some(username) = opts.username {
+        builder = builder.username(username);
+    }
+
+    if let Some(password) = opts.password {
+        builder = builder.password(password);
+    }
+
+    builder.build()
+}
+
 fn map_event(event: MqttEvent) -> Option<MqttEventFFI> {
     match event {
         MqttEvent::Connected(res) => Some(MqttEventFFI::Connected(ConnectionResultFFI {
@@ -341,15 +345,7 @@ pub struct TlsMqttEngineFFI {
 impl TlsMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         #[cfg(feature = "quic-openssl")]
         let _ = rustls_openssl::default_provider().install_default();
@@ -606,15 +602,7 @@ pub struct QuicMqttEngineFFI {
 impl QuicMqttEngineFFI {
     #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
     pub fn new(opts: MqttOptionsFFI) -> Self {
-        let options = MqttClientOptions::builder()
-            .client_id(opts.client_id)
-            .mqtt_version(opts.mqtt_version)
-            .clean_start(opts.clean_start)
-            .keep_alive(opts.keep_alive)
-            .reconnect_base_delay_ms(opts.reconnect_base_delay_ms)
-            .reconnect_max_delay_ms(opts.reconnect_max_delay_ms)
-            .max_reconnect_attempts(opts.max_reconnect_attempts)
-            .build();
+        let options = client_options(opts);
 
         let engine = QuicMqttEngine::new(options).unwrap();
         QuicMqttEngineFFI {
-- 
2.43.0


From d3c360e7fa2dd8d6b092a3e9b22cdfff809e25e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:12 +0000
Subject: [PATCH 38/92] fix: the TLS and QUIC engines of the FFI refuse an
 invalid publish instead of panicking

---
 flowsdk_ffi/src/engine.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index a2c3b30..fb2e7e3 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -456,12 +456,15 @@ impl TlsMqttEngineFFI {
     }
 
     pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {
-        let command = PublishCommand::builder()
+        let command = match PublishCommand::builder()
             .topic(topic)
             .payload(payload)
             .qos(qos)
             .build()
-            .unwrap();
+        {
+            Ok(c) => c,
+            Err(_) => return -1,
+        };
         match self.engine.lock().unwrap().publish(command) {
             Ok(Some(pid)) => pid as i32,
             Ok(None) => 0,
@@ -714,12 +717,15 @@ impl QuicMqttEngineFFI {
     }
 
     pub fn publish(&self, topic: String, payload: Vec<u8>, qos: u8) -> i32 {
-        let command = PublishCommand::builder()
+        let command = match PublishCommand::builder()
             .topic(topic)
             .payload(payload)
             .qos(qos)
             .build()
-            .unwrap();
+        {
+            Ok(c) => c,
+            Err(_) => return -1,
+        };
         match self.engine.lock().unwrap().publish(command) {
             Ok(Some(pid)) => pid as i32,
             Ok(None) => 0,
-- 
2.43.0


From ed8a66a65c0529fbdd486cde8295ef37b60b576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 39/92] fix: the C interface reports an invalid address or
 server name instead of aborting

---
 flowsdk_ffi/src/engine.rs | 140 ++++++++++++++++++++++----------------
 1 file changed, 82 insertions(+), 58 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index fb2e7e3..fc8339d 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -622,61 +622,7 @@ impl QuicMqttEngineFFI {
         tls_opts: MqttTlsOptionsFFI,
         now_ms: u64,
     ) {
-        let addr: SocketAddr = server_addr.parse().unwrap();
-        let now = self.start_time + Duration::from_millis(now_ms);
-
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-            crypto_builder
-                .with_root_certificates(root_store)
-                .with_no_client_auth()
-        };
-
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
-
-        self.engine
-            .lock()
-            .unwrap()
-            .connect(addr, &server_name, config, now)
-            .ok();
+        self.start(server_addr.parse().unwrap(), server_name, tls_opts, now_ms);
     }
 
     fn elapsed_ms(&self) -> u64 {
@@ -759,6 +705,71 @@ impl QuicMqttEngineFFI {
     }
 }
 
+impl QuicMqttEngineFFI {
+    fn start(
+        &self,
+        addr: SocketAddr,
+        server_name: String,
+        tls_opts: MqttTlsOptionsFFI,
+        now_ms: u64,
+    ) -> bool {
+        let now = self.start_time + Duration::from_millis(now_ms);
+
+        #[cfg(feature = "quic-openssl")]
+        let _ = rustls_openssl::default_provider().install_default();
+        #[cfg(not(feature = "quic-openssl"))]
+        let _ = rustls::crypto::ring::default_provider().install_default();
+        let crypto_builder = rustls::ClientConfig::builder();
+
+        let mut config = if tls_opts.insecure_skip_verify {
+            crypto_builder
+                .dangerous()
+                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
+                .with_no_client_auth()
+        } else {
+            let mut root_store = rustls::RootCertStore::empty();
+            if let Some(ca_path) = tls_opts.ca_cert_file {
+                if let Ok(file) = std::fs::File::open(ca_path) {
+                    let mut reader = std::io::BufReader::new(file);
+                    let certs = rustls_pemfile::certs(&mut reader)
+                        .filter_map(|r| r.ok())
+                        .collect::<Vec<_>>();
+                    for cert in certs {
+                        root_store.add(cert).ok();
+                    }
+                }
+            } else {
+                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
+                    root_store.add(cert).ok();
+                }
+            }
+            crypto_builder
+                .with_root_certificates(root_store)
+                .with_no_client_auth()
+        };
+
+        if !tls_opts.alpn_protocols.is_empty() {
+            config.alpn_protocols = tls_opts
+                .alpn_protocols
+                .into_iter()
+                .map(|s| s.into_bytes())
+                .collect();
+        } else {
+            config.alpn_protocols = vec![b"mqtt".to_vec()];
+        }
+
+        if tls_opts.enable_key_log {
+            config.key_log = Arc::new(rustls::KeyLogFile::new());
+        }
+
+        self.engine
+            .lock()
+            .unwrap()
+            .connect(addr, &server_name, config, now)
+            .is_ok()
+    }
+}
+
 // --- C-Compatible FFI Layer ---
 // This layer provides a stable ABI for the C examples, mapping to the UniFFI objects.
 
@@ -1061,6 +1072,10 @@ pub unsafe extern "C" fn mqtt_tls_engine_new(
         CStr::from_ptr(server_name).to_string_lossy().into_owned()
     };
 
+    if rustls::pki_types::ServerName::try_from(server_name.as_str()).is_err() {
+        return std::ptr::null_mut();
+    }
+
     let opts = MqttOptionsFFI {
         client_id,
         mqtt_version,
@@ -1421,8 +1436,15 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
             }
         };
 
-        engine.connect(server_addr, server_name, tls_opts_v, engine.elapsed_ms());
-        0
+        let addr: SocketAddr = match server_addr.parse() {
+            Ok(addr) => addr,
+            Err(_) => return -1,
+        };
+        if engine.start(addr, server_name, tls_opts_v, engine.elapsed_ms()) {
+            0
+        } else {
+            -1
+        }
     } else {
         -1
     }
@@ -1441,7 +1463,9 @@ pub unsafe extern "C" fn mqtt_quic_engine_handle_datagram(
     if let (Some(engine), true, true) = (ptr.as_ref(), !data.is_null(), !remote_addr.is_null()) {
         let buf = std::slice::from_raw_parts(data, len);
         let remote_addr = CStr::from_ptr(remote_addr).to_string_lossy().into_owned();
-        engine.handle_datagram(buf.to_vec(), remote_addr, engine.elapsed_ms());
+        if remote_addr.parse::<SocketAddr>().is_ok() {
+            engine.handle_datagram(buf.to_vec(), remote_addr, engine.elapsed_ms());
+        }
     }
 }
 
-- 
2.43.0


From f4e32effb671dd955ff41df268e0bb7cf6c7095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:13 +0000
Subject: [PATCH 40/92] fix: the C interface refuses topics that are not UTF-8
 instead of changing them

---
 flowsdk_ffi/src/engine.rs | 55 +++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index fc8339d..3320acc 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -940,7 +940,10 @@ pub unsafe extern "C" fn mqtt_engine_publish(
     qos: u8,
 ) -> i32 {
     if let (Some(engine), true, true) = (ptr.as_ref(), !topic.is_null(), !payload.is_null()) {
-        let topic = CStr::from_ptr(topic).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         let payload = std::slice::from_raw_parts(payload, payload_len).to_vec();
         engine.publish(topic, payload, qos, None)
     } else {
@@ -958,7 +961,10 @@ pub unsafe extern "C" fn mqtt_engine_subscribe(
     qos: u8,
 ) -> i32 {
     if let (Some(engine), true) = (ptr.as_ref(), !topic_filter.is_null()) {
-        let topic = CStr::from_ptr(topic_filter).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic_filter).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         engine.subscribe(topic, qos)
     } else {
         -1
@@ -974,7 +980,10 @@ pub unsafe extern "C" fn mqtt_engine_unsubscribe(
     topic_filter: *const c_char,
 ) -> i32 {
     if let (Some(engine), true) = (ptr.as_ref(), !topic_filter.is_null()) {
-        let topic = CStr::from_ptr(topic_filter).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic_filter).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         engine.unsubscribe(topic)
     } else {
         -1
@@ -1233,7 +1242,10 @@ pub unsafe extern "C" fn mqtt_tls_engine_publish(
     qos: u8,
 ) -> i32 {
     if let (Some(engine), true, true) = (ptr.as_ref(), !topic.is_null(), !payload.is_null()) {
-        let topic = CStr::from_ptr(topic).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         let payload = std::slice::from_raw_parts(payload, payload_len).to_vec();
         engine.publish(topic, payload, qos)
     } else {
@@ -1251,7 +1263,10 @@ pub unsafe extern "C" fn mqtt_tls_engine_subscribe(
     qos: u8,
 ) -> i32 {
     if let (Some(engine), true) = (ptr.as_ref(), !topic_filter.is_null()) {
-        let topic = CStr::from_ptr(topic_filter).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic_filter).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         engine.subscribe(topic, qos)
     } else {
         -1
@@ -1267,7 +1282,10 @@ pub unsafe extern "C" fn mqtt_tls_engine_unsubscribe(
     topic_filter: *const c_char,
 ) -> i32 {
     if let (Some(engine), true) = (ptr.as_ref(), !topic_filter.is_null()) {
-        let topic = CStr::from_ptr(topic_filter).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic_filter).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         engine.unsubscribe(topic)
     } else {
         -1
@@ -1385,8 +1403,14 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
     if let (Some(engine), true, true) =
         (ptr.as_ref(), !server_addr.is_null(), !server_name.is_null())
     {
-        let server_addr = CStr::from_ptr(server_addr).to_string_lossy().into_owned();
-        let server_name = CStr::from_ptr(server_name).to_string_lossy().into_owned();
+        let server_addr = match CStr::from_ptr(server_addr).to_str() {
+            Ok(text) => text.to_string(),
+            Err(_) => return -1,
+        };
+        let server_name = match CStr::from_ptr(server_name).to_str() {
+            Ok(text) => text.to_string(),
+            Err(_) => return -1,
+        };
 
         let tls_opts_v = if tls_opts.is_null() {
             MqttTlsOptionsFFI {
@@ -1572,7 +1596,10 @@ pub unsafe extern "C" fn mqtt_quic_engine_publish(
     qos: u8,
 ) -> i32 {
     if let (Some(engine), true, true) = (ptr.as_ref(), !topic.is_null(), !payload.is_null()) {
-        let topic = CStr::from_ptr(topic).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         let payload = std::slice::from_raw_parts(payload, payload_len).to_vec();
         engine.publish(topic, payload, qos)
     } else {
@@ -1590,7 +1617,10 @@ pub unsafe extern "C" fn mqtt_quic_engine_subscribe(
     qos: u8,
 ) -> i32 {
     if let (Some(engine), true) = (ptr.as_ref(), !topic_filter.is_null()) {
-        let topic = CStr::from_ptr(topic_filter).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic_filter).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         engine.subscribe(topic, qos)
     } else {
         -1
@@ -1606,7 +1636,10 @@ pub unsafe extern "C" fn mqtt_quic_engine_unsubscribe(
     topic_filter: *const c_char,
 ) -> i32 {
     if let (Some(engine), true) = (ptr.as_ref(), !topic_filter.is_null()) {
-        let topic = CStr::from_ptr(topic_filter).to_string_lossy().into_owned();
+        let topic = match CStr::from_ptr(topic_filter).to_str() {
+            Ok(topic) => topic.to_string(),
+            Err(_) => return -1,
+        };
         engine.unsubscribe(topic)
     } else {
         -1
-- 
2.43.0


From 1e979b59d055fb10ed51d46c9310875d3e7de4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 41/92] fix: the TLS engine accepts any amount of data in one
 call

rustls buffers 16 KB of plaintext; more in one call was an error that lost data.
---
 src/mqtt_client/tls_engine.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index f945343..8cd7e0c 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -63,14 +63,20 @@ impl TlsMqttEngine {
                 break;
             }
 
-            self.tls_connection.process_new_packets().map_err(|e| {
-                MqttClientError::InternalError {
-                    message: format!("TLS process error: {}", e),
-                }
+            // Take the plaintext out as it comes, since TLS buffers little of it, and
+            // what came before an error too
+            let processed = self.tls_connection.process_new_packets();
+            self.read_plaintext()?;
+            processed.map_err(|e| MqttClientError::InternalError {
+                message: format!("TLS process error: {}", e),
             })?;
         }
 
-        // After processing packets, check if there is any plaintext available
+        Ok(())
+    }
+
+    /// Move the decrypted plaintext to the buffer for the MQTT engine.
+    fn read_plaintext(&mut self) -> Result<(), MqttClientError> {
         let mut buf = vec![0u8; 4096];
         loop {
             match self.tls_connection.reader().read(&mut buf) {
-- 
2.43.0


From 669248b9ac052bdecc86bee478e04899b0d3757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 42/92] fix: the TLS engine sends outgoing data of any size

rustls buffers 64 KB of plaintext to send; what exceeded it was dropped.
---
 src/mqtt_client/tls_engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 8cd7e0c..fc78491 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -38,11 +38,13 @@ impl TlsMqttEngine {
             })?
             .to_owned();
 
-        let tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
+        let mut tls_connection = ClientConnection::new(config, server_name).map_err(|e| {
             MqttClientError::InternalError {
                 message: format!("Failed to create TLS connection: {}", e),
             }
         })?;
+        // The MQTT engine hands over its bytes once, so all of them have to be accepted
+        tls_connection.set_buffer_limit(None);
 
         Ok(Self {
             mqtt_engine,
-- 
2.43.0


From 0465fd48d3a83a7350df6206257a47f5588fe36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:56 +0000
Subject: [PATCH 43/92] fix: the TLS engine hands out all ciphertext in one
 call

A large message takes more records than one write_tls call passes on.
---
 src/mqtt_client/tls_engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index fc78491..7b977b5 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -101,7 +101,11 @@ impl TlsMqttEngine {
     /// Take encrypted data from the TLS engine to be sent to the socket.
     pub fn take_socket_data(&mut self) -> Vec<u8> {
         let mut buf = Vec::new();
-        let _ = self.tls_connection.write_tls(&mut buf);
+        while self.tls_connection.wants_write() {
+            if self.tls_connection.write_tls(&mut buf).is_err() {
+                break;
+            }
+        }
         buf
     }
 
-- 
2.43.0


From e235c7f4ad84be573ed4a7d8ce24fdf1c3b4ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 44/92] fix: a packet written without a connection does not
 report a lost connection

---
 src/mqtt_client/tokio_async_client.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 1f3ed54..4e5417f 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1853,6 +1853,10 @@ impl TokioClientWorker {
     }
 
     async fn handle_outgoing(&mut self) -> Result<(), MqttClientError> {
+        // Without a connection there is nowhere to send to, and nothing to lose
+        if self.stream.is_none() {
+            return Ok(());
+        }
         let bytes = self.engine.take_outgoing();
         if !bytes.is_empty() {
             self.write_to_transport(&bytes).await?;
-- 
2.43.0


From f144815f74ece8932b87f3b4bb09b3e96293a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 45/92] fix: the tokio client delivers all events of what it
 has read, and closes a connection with malformed data

---
 src/mqtt_client/tokio_async_client.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 4e5417f..59fb33d 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1803,6 +1803,11 @@ impl TokioClientWorker {
                 }
                 MqttEvent::Error(err) => {
                     self.event_handler.on_error(&err).await;
+                    // What follows a malformed packet cannot be understood
+                    if matches!(err, MqttClientError::PacketParsing { .. }) && self.stream.is_some()
+                    {
+                        self.handle_connection_lost().await;
+                    }
                 }
                 MqttEvent::TransportClosed { .. } => {
                     // QUIC-transport-specific detail; the tokio (TCP/TLS) client
@@ -1916,8 +1921,17 @@ impl TokioClientWorker {
                 } => {
                     match read_result {
                         Ok(Some(bytes)) => {
-                            let events = self.engine.handle_incoming(&bytes);
-                            self.dispatch_events(events).await;
+                            // The engine stops at a full event buffer, so go on until
+                            // it has nothing more to tell
+                            let mut events = self.engine.handle_incoming(&bytes);
+                            while !events.is_empty() {
+                                self.dispatch_events(events).await;
+                                events = if self.stream.is_some() {
+                                    self.engine.handle_incoming(&[])
+                                } else {
+                                    Vec::new()
+                                };
+                            }
                         }
                         Ok(None) => {
                             let mqtt_err = MqttClientError::ConnectionLost {
@@ -1954,6 +1968,10 @@ impl TokioClientWorker {
                 self.event_handler.on_error(&e).await;
                 self.handle_connection_lost().await;
             }
+
+            // Events that none of the above has handed out, such as a scheduled reconnect
+            let events = self.engine.take_events();
+            self.dispatch_events(events).await;
         }
     }
 
-- 
2.43.0


From 184b978b9c07bd73645f044868d310e5096d3c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 46/92] fix: every ping_sync gets its answer

---
 src/mqtt_client/tokio_async_client.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 59fb33d..d9cbd6e 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1,6 +1,6 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::io;
 #[cfg(feature = "quic")]
 use std::net::SocketAddr;
@@ -1719,8 +1719,8 @@ struct TokioClientWorker {
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
     pending_unsubscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<UnsubscribeResult>>,
-    /// Pending synchronous ping operations (only one at a time)
-    pending_ping: Option<tokio::sync::oneshot::Sender<PingResult>>,
+    /// Pending synchronous ping operations, in the order of their PINGREQs
+    pending_pings: VecDeque<tokio::sync::oneshot::Sender<PingResult>>,
     /// Keep alive timer (dynamic sleep based on next_tick_at)
     tick_timer: Option<Pin<Box<Sleep>>>,
 }
@@ -1743,7 +1743,7 @@ impl TokioClientWorker {
             pending_connect: None,
             pending_subscribes_sync: HashMap::new(),
             pending_unsubscribes_sync: HashMap::new(),
-            pending_ping: None,
+            pending_pings: VecDeque::new(),
             tick_timer: None,
         }
     }
@@ -1796,7 +1796,7 @@ impl TokioClientWorker {
                     // client continues to use the engine's normal auto-ack path.
                 }
                 MqttEvent::PingResponse(res) => {
-                    if let Some(tx) = self.pending_ping.take() {
+                    if let Some(tx) = self.pending_pings.pop_front() {
                         let _ = tx.send(res.clone());
                     }
                     self.event_handler.on_ping_response(&res).await;
@@ -2398,8 +2398,13 @@ impl TokioClientWorker {
 
     /// Handle synchronous ping command
     async fn handle_ping_sync(&mut self, response_tx: tokio::sync::oneshot::Sender<PingResult>) {
-        self.pending_ping = Some(response_tx);
-        self.engine.send_ping();
+        match self.engine.try_send_ping() {
+            Ok(()) => self.pending_pings.push_back(response_tx),
+            Err(e) => {
+                let _ = response_tx.send(PingResult { success: false });
+                self.event_handler.on_error(&e).await;
+            }
+        }
     }
 
     /// Handle disconnect command
@@ -2421,8 +2426,8 @@ impl TokioClientWorker {
             }));
         }
 
-        // Ping always fails
-        if let Some(tx) = self.pending_ping.take() {
+        // Pings always fail
+        for tx in self.pending_pings.drain(..) {
             let _ = tx.send(PingResult { success: false });
         }
 
-- 
2.43.0


From 199e81140956200fc66fe1900f971d389703d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 47/92] fix: connect_sync waits for the CONNACK of a connection
 that is under way

---
 src/mqtt_client/tokio_async_client.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index d9cbd6e..2fb1e84 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1712,9 +1712,8 @@ struct TokioClientWorker {
 
     /// Pending synchronous publish operations keyed by packet identifier
     pending_publishes: HashMap<u16, tokio::sync::oneshot::Sender<PublishResult>>,
-    /// Pending synchronous connect operations (only one at a time)
-    pending_connect:
-        Option<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
+    /// Pending synchronous connect operations; the same CONNACK answers all of them
+    pending_connects: Vec<tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>>,
     /// Pending synchronous subscribe operations keyed by packet identifier
     pending_subscribes_sync: HashMap<u16, tokio::sync::oneshot::Sender<SubscribeResult>>,
     /// Pending synchronous unsubscribe operations keyed by packet identifier
@@ -1740,7 +1739,7 @@ impl TokioClientWorker {
             config,
             stream: None,
             pending_publishes: HashMap::new(),
-            pending_connect: None,
+            pending_connects: Vec::new(),
             pending_subscribes_sync: HashMap::new(),
             pending_unsubscribes_sync: HashMap::new(),
             pending_pings: VecDeque::new(),
@@ -1753,7 +1752,7 @@ impl TokioClientWorker {
         for event in events {
             match event {
                 MqttEvent::Connected(res) => {
-                    if let Some(tx) = self.pending_connect.take() {
+                    for tx in self.pending_connects.drain(..) {
                         let _ = tx.send(Ok(res.clone()));
                     }
                     self.event_handler.on_connected(&res).await;
@@ -2255,7 +2254,7 @@ impl TokioClientWorker {
                 self.event_handler.on_error(&e).await;
 
                 // If this was a sync connect attempt, notify the waiting caller
-                if let Some(tx) = self.pending_connect.take() {
+                for tx in self.pending_connects.drain(..) {
                     let _ = tx.send(Err(e.clone()));
                 }
 
@@ -2336,8 +2335,8 @@ impl TokioClientWorker {
         &mut self,
         response_tx: tokio::sync::oneshot::Sender<Result<ConnectionResult, MqttClientError>>,
     ) {
-        // Check if already connected or connecting
-        if self.stream.is_some() {
+        // Check if already connected
+        if self.engine.is_connected() {
             let result = ConnectionResult {
                 reason_code: 0,
                 session_present: false,
@@ -2348,9 +2347,9 @@ impl TokioClientWorker {
         }
 
         // Store the response channel for when CONNACK arrives
-        self.pending_connect = Some(response_tx);
+        self.pending_connects.push(response_tx);
 
-        // Initiate connection
+        // Initiate connection, unless one is already under way
         self.handle_connect().await;
     }
 
@@ -2420,7 +2419,7 @@ impl TokioClientWorker {
 
         // Clean up any pending synchronous operations that cannot be retried automatically
         // Connect always fails on connection loss if not already established
-        if let Some(tx) = self.pending_connect.take() {
+        for tx in self.pending_connects.drain(..) {
             let _ = tx.send(Err(MqttClientError::ConnectionLost {
                 reason: "Connection lost before CONNACK received".to_string(),
             }));
-- 
2.43.0


From 07775000a969232d7ade3b2ccd907ba7f9897f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 48/92] fix: a keep-alive timeout counts as one reconnect
 attempt, and none without auto_reconnect

---
 src/mqtt_client/tokio_async_client.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 2fb1e84..4f4f4d8 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1836,7 +1836,9 @@ impl TokioClientWorker {
                 }
                 MqttEvent::ReconnectScheduled { attempt, delay } => {
                     // Notify user about the scheduled reconnection
-                    self.event_handler.on_reconnect_attempt(attempt).await;
+                    if self.config.auto_reconnect {
+                        self.event_handler.on_reconnect_attempt(attempt).await;
+                    }
                     // Optional: log or handle delay if specific logic needed
                     let _ = delay;
                 }
@@ -2258,10 +2260,7 @@ impl TokioClientWorker {
                     let _ = tx.send(Err(e.clone()));
                 }
 
-                // If auto-reconnect is enabled, schedule the next attempt
-                if self.config.auto_reconnect {
-                    self.engine.schedule_reconnect(Instant::now());
-                }
+                self.plan_reconnect();
             }
         }
     }
@@ -2432,7 +2431,17 @@ impl TokioClientWorker {
 
         self.event_handler.on_connection_lost().await;
 
-        if self.config.auto_reconnect {
+        // After a keep-alive timeout the engine has scheduled the next attempt itself
+        if !self.config.auto_reconnect || self.engine.next_tick_at().is_none() {
+            self.plan_reconnect();
+        }
+    }
+
+    /// Schedule the next attempt if auto-reconnect is enabled
+    fn plan_reconnect(&mut self) {
+        if !self.config.auto_reconnect {
+            self.engine.reset_reconnect_state();
+        } else {
             // Non-blocking: Simply schedule the next attempt in the engine.
             // The tick timer (update_tick_timer) will wake us up when it's time.
             self.engine.schedule_reconnect(Instant::now());
-- 
2.43.0


From 3604ae7218643c04379b8c822c18f97fcd028982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 49/92] fix: the tokio client respects max_reconnect_attempts
 and max_reconnect_delay_ms of its configuration

---
 src/mqtt_client/tokio_async_client.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 4f4f4d8..fe444d3 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1731,6 +1731,17 @@ impl TokioClientWorker {
         command_rx: mpsc::Receiver<TokioClientCommand>,
         config: TokioAsyncClientConfig,
     ) -> Self {
+        // Reconnecting is limited in the options and in the configuration
+        let mut options = options;
+        options.reconnect_max_delay_ms = options
+            .reconnect_max_delay_ms
+            .min(config.max_reconnect_delay_ms);
+        options.max_reconnect_attempts = match config.max_reconnect_attempts {
+            0 => options.max_reconnect_attempts,
+            max if options.max_reconnect_attempts == 0 => max,
+            max => max.min(options.max_reconnect_attempts),
+        };
+
         Self {
             engine: MqttEngine::new(options),
             engine_last_connected: false,
-- 
2.43.0


From 152f4a2f323a6ce8aaf002daffa88caa61cacb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 50/92] fix: disconnect closes the connection and keeps the
 client disconnected

---
 src/mqtt_client/tokio_async_client.rs | 44 ++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index fe444d3..a41ec21 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1128,7 +1128,8 @@ impl TokioAsyncMqttClient {
         self.send_command(TokioClientCommand::Ping).await
     }
 
-    /// Disconnect from broker (non-blocking)
+    /// Disconnect from broker (non-blocking): sends DISCONNECT, closes the connection
+    /// and calls `on_disconnected`. The client does not reconnect on its own afterwards.
     pub async fn disconnect(&self) -> io::Result<()> {
         self.send_command(TokioClientCommand::Disconnect).await
     }
@@ -2419,6 +2420,29 @@ impl TokioClientWorker {
     /// Handle disconnect command
     async fn handle_disconnect(&mut self) {
         self.engine.disconnect();
+        if let Err(e) = self.handle_outgoing().await {
+            self.event_handler.on_error(&e).await;
+        }
+        let stream = self.stream.take();
+        self.engine.handle_connection_lost();
+        self.engine.reset_reconnect_state();
+        self.engine_last_connected = false;
+        self.fail_pending_operations();
+
+        if let Some(mut stream) = stream {
+            self.event_handler.on_disconnected(None).await;
+
+            // Let the DISCONNECT get out, and give the server time to take it and close
+            tokio::spawn(async move {
+                let _ = tokio::time::timeout(Duration::from_secs(5), async {
+                    stream.shutdown().await?;
+                    let mut buffer = [0u8; 1024];
+                    while stream.read(&mut buffer).await? > 0 {}
+                    io::Result::Ok(())
+                })
+                .await;
+            });
+        }
     }
 
     /// Handle connection lost
@@ -2426,7 +2450,18 @@ impl TokioClientWorker {
         self.stream = None;
         self.engine.handle_connection_lost();
         self.engine_last_connected = false;
+        self.fail_pending_operations();
+
+        self.event_handler.on_connection_lost().await;
 
+        // After a keep-alive timeout the engine has scheduled the next attempt itself
+        if !self.config.auto_reconnect || self.engine.next_tick_at().is_none() {
+            self.plan_reconnect();
+        }
+    }
+
+    /// Answer the pending operations that end with the connection
+    fn fail_pending_operations(&mut self) {
         // Clean up any pending synchronous operations that cannot be retried automatically
         // Connect always fails on connection loss if not already established
         for tx in self.pending_connects.drain(..) {
@@ -2439,13 +2474,6 @@ impl TokioClientWorker {
         for tx in self.pending_pings.drain(..) {
             let _ = tx.send(PingResult { success: false });
         }
-
-        self.event_handler.on_connection_lost().await;
-
-        // After a keep-alive timeout the engine has scheduled the next attempt itself
-        if !self.config.auto_reconnect || self.engine.next_tick_at().is_none() {
-            self.plan_reconnect();
-        }
     }
 
     /// Schedule the next attempt if auto-reconnect is enabled
-- 
2.43.0


From fa1d0977e6a11188c80784c30278d13a141621ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:43 +0000
Subject: [PATCH 51/92] fix: synchronous operations that nothing will answer
 any more fail

---
 src/mqtt_client/engine.rs             |  2 +-
 src/mqtt_client/tokio_async_client.rs | 37 ++++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 4728e74..e29a950 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1392,7 +1392,7 @@ impl MqttEngine {
     }
 
     /// Whether an unfinished operation uses this packet identifier.
-    fn is_in_use(&self, packet_id: u16) -> bool {
+    pub(crate) fn is_in_use(&self, packet_id: u16) -> bool {
         self.inflight_queue.contains(packet_id)
             || self.pending_control.iter().any(|(id, _)| *id == packet_id)
             || Self::is_queued(&self.priority_queue, packet_id)
diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index a41ec21..2179502 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1767,6 +1767,7 @@ impl TokioClientWorker {
                     for tx in self.pending_connects.drain(..) {
                         let _ = tx.send(Ok(res.clone()));
                     }
+                    self.drop_abandoned_operations();
                     self.event_handler.on_connected(&res).await;
                     self.engine_last_connected = true;
                 }
@@ -2272,7 +2273,7 @@ impl TokioClientWorker {
                     let _ = tx.send(Err(e.clone()));
                 }
 
-                self.plan_reconnect();
+                self.plan_reconnect().await;
             }
         }
     }
@@ -2428,6 +2429,7 @@ impl TokioClientWorker {
         self.engine.reset_reconnect_state();
         self.engine_last_connected = false;
         self.fail_pending_operations();
+        self.drop_pending_operations().await;
 
         if let Some(mut stream) = stream {
             self.event_handler.on_disconnected(None).await;
@@ -2456,7 +2458,7 @@ impl TokioClientWorker {
 
         // After a keep-alive timeout the engine has scheduled the next attempt itself
         if !self.config.auto_reconnect || self.engine.next_tick_at().is_none() {
-            self.plan_reconnect();
+            self.plan_reconnect().await;
         }
     }
 
@@ -2477,7 +2479,7 @@ impl TokioClientWorker {
     }
 
     /// Schedule the next attempt if auto-reconnect is enabled
-    fn plan_reconnect(&mut self) {
+    async fn plan_reconnect(&mut self) {
         if !self.config.auto_reconnect {
             self.engine.reset_reconnect_state();
         } else {
@@ -2485,6 +2487,35 @@ impl TokioClientWorker {
             // The tick timer (update_tick_timer) will wake us up when it's time.
             self.engine.schedule_reconnect(Instant::now());
         }
+        if self.engine.next_tick_at().is_none() {
+            self.drop_pending_operations().await;
+        }
+    }
+
+    /// Fail the synchronous operations that nothing will answer any more, as the
+    /// client does not connect again on its own
+    async fn drop_pending_operations(&mut self) {
+        if self.pending_publishes.is_empty()
+            && self.pending_subscribes_sync.is_empty()
+            && self.pending_unsubscribes_sync.is_empty()
+        {
+            return;
+        }
+        self.pending_publishes.clear();
+        self.pending_subscribes_sync.clear();
+        self.pending_unsubscribes_sync.clear();
+        self.event_handler.on_pending_operations_cleared().await;
+    }
+
+    /// Fail the synchronous operations that the engine has given up because the server
+    /// no longer knows the session: their identifiers will serve others
+    fn drop_abandoned_operations(&mut self) {
+        let engine = &self.engine;
+        self.pending_publishes.retain(|id, _| engine.is_in_use(*id));
+        self.pending_subscribes_sync
+            .retain(|id, _| engine.is_in_use(*id));
+        self.pending_unsubscribes_sync
+            .retain(|id, _| engine.is_in_use(*id));
     }
 }
 
-- 
2.43.0


From 21ca6cda768976c967d9c2834db52e6fdffdf932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:18 +0000
Subject: [PATCH 52/92] fix: data beyond one event buffer reaches the TLS
 client at the tick it arrives at

---
 src/mqtt_client/tls_engine.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/tls_engine.rs b/src/mqtt_client/tls_engine.rs
index 7b977b5..f132b3f 100644
--- a/src/mqtt_client/tls_engine.rs
+++ b/src/mqtt_client/tls_engine.rs
@@ -115,9 +115,18 @@ impl TlsMqttEngine {
 
         // 1. Process internal plaintext from TLS -> MQTT
         if !self.incoming_plaintext.is_empty() {
-            let events = self.mqtt_engine.handle_incoming(&self.incoming_plaintext);
-            mqtt_events.extend(events);
+            let mut events = self.mqtt_engine.handle_incoming(&self.incoming_plaintext);
             self.incoming_plaintext.clear();
+            // The engine stops at a full event buffer, so go on until it has nothing
+            // more to tell, or has met what it cannot understand
+            while !matches!(
+                events.last(),
+                None | Some(MqttEvent::Error(MqttClientError::PacketParsing { .. }))
+            ) {
+                mqtt_events.append(&mut events);
+                events = self.mqtt_engine.handle_incoming(&[]);
+            }
+            mqtt_events.append(&mut events);
         }
 
         // 2. Process outgoing plaintext from MQTT -> TLS
-- 
2.43.0


From b397be50e8086d8f8f579cbd20aded42ec18323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 53/92] fix: the foreign-function interface reports TLS errors

---
 flowsdk_ffi/src/engine.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 3320acc..3a38194 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -429,7 +429,14 @@ impl TlsMqttEngineFFI {
     }
 
     pub fn handle_socket_data(&self, data: Vec<u8>) {
-        self.engine.lock().unwrap().handle_socket_data(&data).ok();
+        let result = self.engine.lock().unwrap().handle_socket_data(&data);
+        if let Err(e) = result {
+            // There is no other way to tell the caller
+            self.events
+                .lock()
+                .unwrap()
+                .extend(map_event(MqttEvent::Error(e)));
+        }
     }
 
     pub fn take_socket_data(&self) -> Vec<u8> {
-- 
2.43.0


From b4ef65575bdd995b642dd0393d4753fa9efbc586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 54/92] fix: accepting invalid hostnames does not accept
 untrusted certificates

---
 src/mqtt_client/transport/rustls_tls.rs | 75 ++++++++++++++++++++++++-
 1 file changed, 74 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 4ff2b2a..0521e0a 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -10,6 +10,7 @@ mod imp {
     use tokio::net::TcpStream;
 
     use rustls::client::danger::{ServerCertVerified, ServerCertVerifier};
+    use rustls::client::WebPkiServerVerifier;
     use rustls::pki_types::ServerName;
     use rustls::{ClientConfig as RustlsClientConfig, RootCertStore};
     use rustls_native_certs;
@@ -69,6 +70,20 @@ mod imp {
                 })?;
             }
 
+            // Accepting any hostname still requires a certificate that the roots vouch for
+            let chain_verifier = if self.danger_accept_invalid_hostnames
+                && !self.danger_accept_invalid_certs
+            {
+                let verifier = WebPkiServerVerifier::builder(Arc::new(roots.clone()))
+                    .build()
+                    .map_err(|e| {
+                        TransportError::Tls(format!("failed to build certificate verifier: {}", e))
+                    })?;
+                Some(verifier)
+            } else {
+                None
+            };
+
             // Build rustls config with or without client auth
             let mut cfg = if let (Some(chain), Some(key)) = (
                 self.client_cert_chain.clone(),
@@ -105,7 +120,10 @@ mod imp {
             }
 
             // Apply dangerous overrides if requested
-            if self.danger_accept_invalid_certs || self.danger_accept_invalid_hostnames {
+            if let Some(inner) = chain_verifier {
+                cfg.dangerous()
+                    .set_certificate_verifier(Arc::new(AnyNameServerCertVerifier { inner }));
+            } else if self.danger_accept_invalid_certs {
                 cfg.dangerous()
                     .set_certificate_verifier(Arc::new(InsecureServerCertVerifier {
                         skip_name_check: self.danger_accept_invalid_hostnames,
@@ -275,6 +293,61 @@ mod imp {
         }
     }
 
+    /// ⚠️ DANGEROUS: A certificate verifier that validates the certificate chain but
+    /// accepts a certificate issued for any name.
+    #[derive(Debug)]
+    struct AnyNameServerCertVerifier {
+        inner: Arc<WebPkiServerVerifier>,
+    }
+
+    impl ServerCertVerifier for AnyNameServerCertVerifier {
+        fn verify_server_cert(
+            &self,
+            end_entity: &CertificateDer<'_>,
+            intermediates: &[CertificateDer<'_>],
+            server_name: &ServerName<'_>,
+            ocsp_response: &[u8],
+            now: UnixTime,
+        ) -> Result<ServerCertVerified, rustls::Error> {
+            match self.inner.verify_server_cert(
+                end_entity,
+                intermediates,
+                server_name,
+                ocsp_response,
+                now,
+            ) {
+                // The name is checked last: the chain is valid
+                Err(rustls::Error::InvalidCertificate(
+                    rustls::CertificateError::NotValidForName
+                    | rustls::CertificateError::NotValidForNameContext { .. },
+                )) => Ok(ServerCertVerified::assertion()),
+                result => result,
+            }
+        }
+
+        fn verify_tls12_signature(
+            &self,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
+        ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            self.inner.verify_tls12_signature(message, cert, dss)
+        }
+
+        fn verify_tls13_signature(
+            &self,
+            message: &[u8],
+            cert: &CertificateDer<'_>,
+            dss: &rustls::DigitallySignedStruct,
+        ) -> Result<rustls::client::danger::HandshakeSignatureValid, rustls::Error> {
+            self.inner.verify_tls13_signature(message, cert, dss)
+        }
+
+        fn supported_verify_schemes(&self) -> Vec<rustls::SignatureScheme> {
+            self.inner.supported_verify_schemes()
+        }
+    }
+
     /// ⚠️ DANGEROUS: A certificate verifier that accepts all certificates or skips name checks.
     /// This should ONLY be used for testing and development!
     #[derive(Debug)]
-- 
2.43.0


From 6f31c8937d05fd02a3774a35e13844a123e161ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 55/92] fix: the default rustls configuration trusts the
 platform's roots

---
 src/mqtt_client/transport/rustls_tls.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/transport/rustls_tls.rs b/src/mqtt_client/transport/rustls_tls.rs
index 0521e0a..43f3c46 100644
--- a/src/mqtt_client/transport/rustls_tls.rs
+++ b/src/mqtt_client/transport/rustls_tls.rs
@@ -21,7 +21,7 @@ mod imp {
     use tokio_rustls::{client::TlsStream as RustlsTlsStream, TlsConnector as RustlsTlsConnector};
 
     /// TLS configuration for Rustls backend
-    #[derive(Clone, Default, Debug)]
+    #[derive(Clone, Debug)]
     pub struct RustlsTlsConfig {
         /// Use system root certificates (platform trust store). Enabled by default.
         pub use_system_roots: bool,
@@ -41,6 +41,12 @@ mod imp {
         pub enable_key_log: bool,
     }
 
+    impl Default for RustlsTlsConfig {
+        fn default() -> Self {
+            RustlsTlsConfigBuilder::default().build()
+        }
+    }
+
     impl RustlsTlsConfig {
         /// Create a new builder for `RustlsTlsConfig`.
         pub fn builder() -> RustlsTlsConfigBuilder {
@@ -140,7 +146,6 @@ mod imp {
     }
 
     /// Builder for `RustlsTlsConfig` with ergonomic helpers
-    #[derive(Default)]
     pub struct RustlsTlsConfigBuilder {
         use_system_roots: bool,
         custom_root_certs: Vec<Vec<u8>>,
@@ -152,6 +157,21 @@ mod imp {
         enable_key_log: bool,
     }
 
+    impl Default for RustlsTlsConfigBuilder {
+        fn default() -> Self {
+            Self {
+                use_system_roots: true,
+                custom_root_certs: Vec::new(),
+                client_cert_chain: None,
+                client_private_key: None,
+                danger_accept_invalid_certs: false,
+                danger_accept_invalid_hostnames: false,
+                alpn_protocols: Vec::new(),
+                enable_key_log: false,
+            }
+        }
+    }
+
     impl RustlsTlsConfigBuilder {
         /// Enable/disable loading platform root certificates (default: true)
         pub fn use_system_roots(mut self, enable: bool) -> Self {
-- 
2.43.0


From 358b46ff7260a41f1ea6c450f4f419d5a389a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:26 +0000
Subject: [PATCH 56/92] fix: the tokio client connects with the TLS
 configuration of its options

---
 src/mqtt_client/tokio_async_client.rs | 33 +++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 2179502..19a6bc9 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2068,16 +2068,18 @@ impl TokioClientWorker {
                 match self.engine.options().tls_backend {
                     #[cfg(feature = "rustls-tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Rustls) => {
-                        let mut rustls_cfg =
-                            crate::mqtt_client::transport::RustlsTlsConfig::builder()
-                                .use_system_roots(true);
+                        let mut rustls_cfg = self
+                            .engine
+                            .options()
+                            .rustls_tls_config
+                            .clone()
+                            .unwrap_or_default();
                         if self.config.tls_enable_key_log {
-                            rustls_cfg = rustls_cfg.enable_key_log(true);
+                            rustls_cfg.enable_key_log = true;
                         }
                         let transport =
                             crate::mqtt_client::transport::RustlsTlsTransport::connect_with_config(
-                                addr,
-                                rustls_cfg.build(),
+                                addr, rustls_cfg,
                             )
                             .await
                             .map_err(|e| {
@@ -2092,11 +2094,12 @@ impl TokioClientWorker {
                     }
                     #[cfg(feature = "tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Native) => {
-                        let transport = TlsTransport::connect(addr).await.map_err(|e| {
-                            MqttClientError::ConnectionLost {
+                        let tls_cfg = self.engine.options().tls_config.clone().unwrap_or_default();
+                        let transport = TlsTransport::connect_with_config(addr, &tls_cfg)
+                            .await
+                            .map_err(|e| MqttClientError::ConnectionLost {
                                 reason: format!("TLS connection failed to {}: {}", peer, e),
-                            }
-                        })?;
+                            })?;
                         Ok(Box::new(transport) as BoxedTransport)
                     }
                     #[cfg(all(feature = "tls", not(feature = "rustls-tls")))]
@@ -2120,11 +2123,13 @@ impl TokioClientWorker {
                         // Backward compatibility: default to Native if available
                         #[cfg(feature = "tls")]
                         {
-                            let transport = TlsTransport::connect(addr).await.map_err(|e| {
-                                MqttClientError::ConnectionLost {
+                            let tls_cfg =
+                                self.engine.options().tls_config.clone().unwrap_or_default();
+                            let transport = TlsTransport::connect_with_config(addr, &tls_cfg)
+                                .await
+                                .map_err(|e| MqttClientError::ConnectionLost {
                                     reason: format!("TLS connection failed to {}: {}", peer, e),
-                                }
-                            })?;
+                                })?;
                             Ok(Box::new(transport) as BoxedTransport)
                         }
                         #[cfg(not(feature = "tls"))]
-- 
2.43.0


From a9d8417e2cdbebea434c4d6c5765d3f4f06c3e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 57/92] fix: engines of the foreign-function interface present
 their client certificate

---
 flowsdk_ffi/src/engine.rs | 193 +++++++++++++++-----------------------
 1 file changed, 78 insertions(+), 115 deletions(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 3a38194..8fdb051 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -340,85 +340,90 @@ pub struct TlsMqttEngineFFI {
     events: Mutex<Vec<MqttEventFFI>>,
 }
 
-#[cfg(feature = "tls")]
-#[cfg_attr(feature = "uniffi-bindings", uniffi::export)]
-impl TlsMqttEngineFFI {
-    #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
-    pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
-        let options = client_options(opts);
-
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
+/// The rustls configuration that the TLS options of an engine ask for.
+fn client_tls_config(tls_opts: MqttTlsOptionsFFI) -> Result<rustls::ClientConfig, rustls::Error> {
+    #[cfg(feature = "quic-openssl")]
+    let _ = rustls_openssl::default_provider().install_default();
+    #[cfg(not(feature = "quic-openssl"))]
+    let _ = rustls::crypto::ring::default_provider().install_default();
+    let crypto_builder = rustls::ClientConfig::builder();
+
+    let builder = if tls_opts.insecure_skip_verify {
+        crypto_builder
+            .dangerous()
+            .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
+    } else {
+        let mut root_store = rustls::RootCertStore::empty();
+        if let Some(ca_path) = tls_opts.ca_cert_file {
+            if let Ok(file) = std::fs::File::open(ca_path) {
+                let mut reader = std::io::BufReader::new(file);
+                let certs = rustls_pemfile::certs(&mut reader)
+                    .filter_map(|r| r.ok())
+                    .collect::<Vec<_>>();
+                for cert in certs {
                     root_store.add(cert).ok();
                 }
             }
+        } else {
+            for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
+                root_store.add(cert).ok();
+            }
+        }
+        crypto_builder.with_root_certificates(root_store)
+    };
 
-            let mut client_auth = None;
-            if let (Some(cert_path), Some(key_path)) =
-                (tls_opts.client_cert_file, tls_opts.client_key_file)
-            {
-                if let (Ok(cert_file), Ok(key_file)) = (
-                    std::fs::File::open(cert_path),
-                    std::fs::File::open(key_path),
-                ) {
-                    let mut cert_reader = std::io::BufReader::new(cert_file);
-                    let mut key_reader = std::io::BufReader::new(key_file);
-                    let certs = rustls_pemfile::certs(&mut cert_reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
-                    if !certs.is_empty() {
-                        if let Some(key) = key {
-                            client_auth = Some((certs, key));
-                        }
-                    }
+    let mut client_auth = None;
+    if let (Some(cert_path), Some(key_path)) = (tls_opts.client_cert_file, tls_opts.client_key_file)
+    {
+        if let (Ok(cert_file), Ok(key_file)) = (
+            std::fs::File::open(cert_path),
+            std::fs::File::open(key_path),
+        ) {
+            let mut cert_reader = std::io::BufReader::new(cert_file);
+            let mut key_reader = std::io::BufReader::new(key_file);
+            let certs = rustls_pemfile::certs(&mut cert_reader)
+                .filter_map(|r| r.ok())
+                .collect::<Vec<_>>();
+            let key = rustls_pemfile::private_key(&mut key_reader).ok().flatten();
+            if !certs.is_empty() {
+                if let Some(key) = key {
+                    client_auth = Some((certs, key));
                 }
             }
+        }
+    }
 
-            let builder = crypto_builder.with_root_certificates(root_store);
-            if let Some((certs, key)) = client_auth {
-                builder.with_client_auth_cert(certs, key).unwrap()
-            } else {
-                builder.with_no_client_auth()
-            }
-        };
+    let mut config = if let Some((certs, key)) = client_auth {
+        builder.with_client_auth_cert(certs, key)?
+    } else {
+        builder.with_no_client_auth()
+    };
 
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
+    if !tls_opts.alpn_protocols.is_empty() {
+        config.alpn_protocols = tls_opts
+            .alpn_protocols
+            .into_iter()
+            .map(|s| s.into_bytes())
+            .collect();
+    } else {
+        config.alpn_protocols = vec![b"mqtt".to_vec()];
+    }
 
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
+    if tls_opts.enable_key_log {
+        config.key_log = Arc::new(rustls::KeyLogFile::new());
+    }
+
+    Ok(config)
+}
+
+#[cfg(feature = "tls")]
+#[cfg_attr(feature = "uniffi-bindings", uniffi::export)]
+impl TlsMqttEngineFFI {
+    #[cfg_attr(feature = "uniffi-bindings", uniffi::constructor)]
+    pub fn new(opts: MqttOptionsFFI, tls_opts: MqttTlsOptionsFFI, server_name: String) -> Self {
+        let options = client_options(opts);
+
+        let config = client_tls_config(tls_opts).unwrap();
 
         let engine = TlsMqttEngine::new(options, &server_name, Arc::new(config)).unwrap();
         TlsMqttEngineFFI {
@@ -722,53 +727,11 @@ impl QuicMqttEngineFFI {
     ) -> bool {
         let now = self.start_time + Duration::from_millis(now_ms);
 
-        #[cfg(feature = "quic-openssl")]
-        let _ = rustls_openssl::default_provider().install_default();
-        #[cfg(not(feature = "quic-openssl"))]
-        let _ = rustls::crypto::ring::default_provider().install_default();
-        let crypto_builder = rustls::ClientConfig::builder();
-
-        let mut config = if tls_opts.insecure_skip_verify {
-            crypto_builder
-                .dangerous()
-                .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                .with_no_client_auth()
-        } else {
-            let mut root_store = rustls::RootCertStore::empty();
-            if let Some(ca_path) = tls_opts.ca_cert_file {
-                if let Ok(file) = std::fs::File::open(ca_path) {
-                    let mut reader = std::io::BufReader::new(file);
-                    let certs = rustls_pemfile::certs(&mut reader)
-                        .filter_map(|r| r.ok())
-                        .collect::<Vec<_>>();
-                    for cert in certs {
-                        root_store.add(cert).ok();
-                    }
-                }
-            } else {
-                for cert in rustls_native_certs::load_native_certs().unwrap_or_default() {
-                    root_store.add(cert).ok();
-                }
-            }
-            crypto_builder
-                .with_root_certificates(root_store)
-                .with_no_client_auth()
+        let config = match client_tls_config(tls_opts) {
+            Ok(config) => config,
+            Err(_) => return false,
         };
 
-        if !tls_opts.alpn_protocols.is_empty() {
-            config.alpn_protocols = tls_opts
-                .alpn_protocols
-                .into_iter()
-                .map(|s| s.into_bytes())
-                .collect();
-        } else {
-            config.alpn_protocols = vec![b"mqtt".to_vec()];
-        }
-
-        if tls_opts.enable_key_log {
-            config.key_log = Arc::new(rustls::KeyLogFile::new());
-        }
-
         self.engine
             .lock()
             .unwrap()
-- 
2.43.0


From 4ecb4e2a240c919f71a5e4c162de6d43cf09da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 58/92] fix: a QUIC client that skips verification still
 presents its certificate

---
 src/mqtt_client/transport/quic.rs | 56 +++++++++++++++----------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 22a0818..fde7138 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -383,12 +383,11 @@ mod imp {
             // a quinn ClientConfig.
 
             // Build rustls config based on insecure_skip_verify flag
-            let mut rustls_cfg = if cfg.insecure_skip_verify {
+            let rustls_builder = if cfg.insecure_skip_verify {
                 // ⚠️ DANGEROUS: Skip certificate verification entirely
                 RustlsClientConfig::builder()
                     .dangerous()
                     .with_custom_certificate_verifier(Arc::new(InsecureServerCertVerifier))
-                    .with_no_client_auth()
             } else {
                 // Normal certificate verification with root certificates
                 // Prepare root certificates: prefer custom roots if provided, else load platform roots
@@ -411,36 +410,35 @@ mod imp {
                     }
                 }
 
-                // Build rustls config; configure client auth if client cert/key provided
-                if let (Some(chain), Some(key)) = (
-                    cfg.client_cert_chain.clone(),
-                    cfg.client_private_key.clone(),
-                ) {
-                    let cert_chain_der: Vec<CertificateDer<'static>> =
-                        chain.into_iter().map(CertificateDer::from).collect();
-                    let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+                RustlsClientConfig::builder().with_root_certificates(roots)
+            };
+
+            // Configure client auth if client cert/key provided
+            let mut rustls_cfg = if let (Some(chain), Some(key)) = (
+                cfg.client_cert_chain.clone(),
+                cfg.client_private_key.clone(),
+            ) {
+                let cert_chain_der: Vec<CertificateDer<'static>> =
+                    chain.into_iter().map(CertificateDer::from).collect();
+                let parsed_key = PrivateKeyDer::try_from(key).map_err(|e| {
+                    TransportError::Quic(format!(
+                        "failed to parse client private key DER for mTLS: {:?}",
+                        e
+                    ))
+                })?;
+                let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
+
+                rustls_builder
+                    .with_client_auth_cert(cert_chain_der, key_der)
+                    .map_err(|e| {
                         TransportError::Quic(format!(
-                            "failed to parse client private key DER for mTLS: {:?}",
+                            "failed to build client TLS config with client cert: {}",
                             e
                         ))
-                    })?;
-                    let key_der: PrivateKeyDer<'static> = parsed_key.clone_key();
-
-                    RustlsClientConfig::builder()
-                        .with_root_certificates(roots)
-                        .with_client_auth_cert(cert_chain_der, key_der)
-                        .map_err(|e| {
-                            TransportError::Quic(format!(
-                                "failed to build client TLS config with client cert: {}",
-                                e
-                            ))
-                        })?
-                } else {
-                    // No client auth
-                    RustlsClientConfig::builder()
-                        .with_root_certificates(roots)
-                        .with_no_client_auth()
-                }
+                    })?
+            } else {
+                // No client auth
+                rustls_builder.with_no_client_auth()
             };
 
             // Apply ALPN protocols if provided
-- 
2.43.0


From 479079930c768b65fb0052c3570146159caada3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:27 +0000
Subject: [PATCH 59/92] fix: the server name of an IPv6 address has no brackets

---
 src/mqtt_client/transport/mod.rs  |  9 +++++++--
 src/mqtt_client/transport/quic.rs | 10 ++--------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/mqtt_client/transport/mod.rs b/src/mqtt_client/transport/mod.rs
index 8b7159c..b4e8680 100644
--- a/src/mqtt_client/transport/mod.rs
+++ b/src/mqtt_client/transport/mod.rs
@@ -55,8 +55,13 @@ pub fn parse_mqtt_address(addr: &str) -> Result<(String, String), TransportError
     let addr = addr.trim_start_matches("mqtts://");
 
     // Split host and port
-    if let Some((host, port)) = addr.rsplit_once(':') {
-        Ok((host.to_string(), format!("{}:{}", host, port)))
+    if let Some((host, _port)) = addr.rsplit_once(':') {
+        // The brackets of an IPv6 address are no part of the host
+        let name = host
+            .strip_prefix('[')
+            .and_then(|h| h.strip_suffix(']'))
+            .unwrap_or(host);
+        Ok((name.to_string(), addr.to_string()))
     } else {
         Err(TransportError::InvalidAddress(format!(
             "Invalid address format: '{}'. Expected 'host:port' or 'mqtts://host:port'",
diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index fde7138..cda6e62 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -4,7 +4,7 @@
 
 #[cfg(feature = "quic")]
 mod imp {
-    use super::super::{Transport, TransportError};
+    use super::super::{parse_mqtt_address, Transport, TransportError};
     use async_trait::async_trait;
     use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};
     use std::pin::Pin;
@@ -361,13 +361,7 @@ mod imp {
             cfg: QuicConfig,
         ) -> Result<Self, TransportError> {
             // Derive server name (SNI) from addr by splitting host:port
-            let server_name = addr
-                .split(':')
-                .next()
-                .ok_or_else(|| {
-                    TransportError::InvalidAddress(format!("Invalid QUIC address: {}", addr))
-                })?
-                .to_string();
+            let (server_name, _) = parse_mqtt_address(addr)?;
 
             // Resolve address
             let mut addrs = lookup_host(addr).await.map_err(|e| {
-- 
2.43.0


From a68ec6fc847043ec8a5893611ba2b73611cd689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 60/92] fix: data beyond one event buffer on the QUIC control
 stream is processed when it arrives

---
 src/mqtt_client/engine.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index e29a950..482547f 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -2613,8 +2613,20 @@ impl QuicMqttEngine {
                         loop {
                             match chunks.next(16384) {
                                 Ok(Some(chunk)) => {
-                                    mqtt_events
-                                        .extend(self.mqtt_engine.handle_incoming(&chunk.bytes));
+                                    let mut events = self.mqtt_engine.handle_incoming(&chunk.bytes);
+                                    // The engine stops at a full event buffer, so go on
+                                    // until it has nothing more to tell, or has met what
+                                    // it cannot understand
+                                    while !matches!(
+                                        events.last(),
+                                        None | Some(MqttEvent::Error(
+                                            MqttClientError::PacketParsing { .. }
+                                        ))
+                                    ) {
+                                        mqtt_events.append(&mut events);
+                                        events = self.mqtt_engine.handle_incoming(&[]);
+                                    }
+                                    mqtt_events.append(&mut events);
                                 }
                                 Ok(None) => {
                                     recv_finished = true;
-- 
2.43.0


From 98b2fb1362470a517c5df386523efb20659273da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:16 +0000
Subject: [PATCH 61/92] fix: connecting a QUIC engine again starts from a clean
 slate

---
 src/mqtt_client/engine.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 482547f..ab89c36 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1805,14 +1805,15 @@ impl QuicMqttEngine {
 
         let client_config = Self::client_config_from_crypto(crypto_config)?;
 
+        // Nothing of an earlier connection may be left, be it closed or not.
+        self.reset_connection_state();
+
         // Retain parameters so `reconnect` can re-establish without rebuilding.
         self.client_config = Some(client_config);
         self.server_addr = Some(server_addr);
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = None;
         self.zero_rtt_status = QuicZeroRttStatus::Disabled;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
 
         self.establish(now)
     }
@@ -1841,13 +1842,14 @@ impl QuicMqttEngine {
 
         let client_config = Self::client_config_from_crypto(crypto_config)?;
 
+        // Nothing of an earlier connection may be left, be it closed or not.
+        self.reset_connection_state();
+
         self.client_config = Some(client_config);
         self.server_addr = Some(server_addr);
         self.server_name = Some(server_name.to_string());
         self.zero_rtt_config = Some(zero_rtt_config);
         self.zero_rtt_status = QuicZeroRttStatus::Unavailable;
-        self.pending_transport_events.clear();
-        self.early_stream_journal.clear();
 
         self.establish(now)
     }
-- 
2.43.0


From f35ddf7b919dcf1d573fb6d29cb2eefc6cfdb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:00 +0000
Subject: [PATCH 62/92] fix: publishing and subscribing over QUIC leave a
 default stream that is closed

---
 src/mqtt_client/engine.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index ab89c36..a3745ad 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -3088,21 +3088,34 @@ impl QuicMqttEngine {
         }
     }
 
-    /// Lazily open (once) the default data stream used by [`publish`](Self::publish).
+    /// Whether both ends still send on a data stream: on any other, a command
+    /// could not be sent or its acknowledgement could not come back.
+    fn is_stream_open(&self, stream_id: StreamId) -> bool {
+        self.data_streams
+            .get(&stream_id)
+            .is_some_and(|ds| !ds.finishing && !ds.finished && !ds.recv_closed)
+    }
+
+    /// Lazily open (once, and again when it is closed) the default data stream used
+    /// by [`publish`](Self::publish).
     fn ensure_default_pub_stream(&mut self) -> Result<StreamId, MqttClientError> {
         if let Some(id) = self.default_pub_stream {
-            return Ok(id);
+            if self.is_stream_open(id) {
+                return Ok(id);
+            }
         }
         let id = self.open_bidi_stream_with_role(EarlyStreamRole::DefaultPub)?;
         self.default_pub_stream = Some(id);
         Ok(id)
     }
 
-    /// Lazily open (once) the default data stream used by
-    /// [`subscribe`](Self::subscribe) / [`unsubscribe`](Self::unsubscribe).
+    /// Lazily open (once, and again when it is closed) the default data stream used
+    /// by [`subscribe`](Self::subscribe) / [`unsubscribe`](Self::unsubscribe).
     fn ensure_default_sub_stream(&mut self) -> Result<StreamId, MqttClientError> {
         if let Some(id) = self.default_sub_stream {
-            return Ok(id);
+            if self.is_stream_open(id) {
+                return Ok(id);
+            }
         }
         let id = self.open_bidi_stream_with_role(EarlyStreamRole::DefaultSub)?;
         self.default_sub_stream = Some(id);
-- 
2.43.0


From 509aaa87e082b648cac0ace26dd46f11620f9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:00 +0000
Subject: [PATCH 63/92] fix: one QUIC connection is reported as disconnected
 once

---
 src/mqtt_client/engine.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index a3745ad..3288f1b 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1746,6 +1746,8 @@ pub struct QuicMqttEngine {
     // The control stream's send side has been finished or reset; further writes
     // (including raw injection) are rejected.
     control_finished: bool,
+    // The end of the MQTT session on this connection has been reported.
+    disconnect_reported: bool,
 
     // Outgoing UDP datagrams to be sent by the application
     outgoing_datagrams: VecDeque<(std::net::SocketAddr, Vec<u8>)>,
@@ -1787,6 +1789,7 @@ impl QuicMqttEngine {
             pending_close: None,
             control_finishing: false,
             control_finished: false,
+            disconnect_reported: false,
             outgoing_datagrams: VecDeque::new(),
         })
     }
@@ -2117,6 +2120,7 @@ impl QuicMqttEngine {
         self.pending_close = None;
         self.control_finishing = false;
         self.control_finished = false;
+        self.disconnect_reported = false;
         self.pending_transport_events.clear();
         self.early_stream_journal.clear();
         // Discard any MQTT bytes queued for the old transport so they are not
@@ -2909,6 +2913,13 @@ impl QuicMqttEngine {
             }
         }
 
+        // 9. A connection ends once: a DISCONNECT, the end of the control stream and
+        //    the QUIC close that follows them are not told as several.
+        mqtt_events.retain(|event| {
+            !matches!(event, MqttEvent::Disconnected(_))
+                || !std::mem::replace(&mut self.disconnect_reported, true)
+        });
+
         mqtt_events
     }
 
-- 
2.43.0


From 78a1a033d642305d45f79f5266e65fcd5c222d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:01 +0000
Subject: [PATCH 64/92] fix: a malformed packet on a QUIC data stream is
 reported once

---
 src/mqtt_client/engine.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 3288f1b..06d6bf3 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1509,6 +1509,8 @@ struct QuicStream {
     finished: bool,
     /// The receive side has seen FIN or RESET; further reads are skipped.
     recv_closed: bool,
+    /// What arrived is not MQTT; this has been reported and the rest is not looked at.
+    failed: bool,
 }
 
 #[cfg(feature = "quic-proto")]
@@ -1522,6 +1524,7 @@ impl QuicStream {
             finishing: false,
             finished: false,
             recv_closed: false,
+            failed: false,
         }
     }
 
@@ -1540,6 +1543,7 @@ impl QuicStream {
             finishing: false,
             finished: false,
             recv_closed: false,
+            failed: false,
         }
     }
 }
@@ -2744,7 +2748,11 @@ impl QuicMqttEngine {
                             loop {
                                 match chunks.next(16384) {
                                     Ok(Some(chunk)) => {
-                                        if let Some(ds) = self.data_streams.get_mut(&stream_id) {
+                                        if let Some(ds) = self
+                                            .data_streams
+                                            .get_mut(&stream_id)
+                                            .filter(|ds| !ds.failed)
+                                        {
                                             ds.parser.feed(&chunk.bytes);
                                         }
                                     }
@@ -3071,10 +3079,12 @@ impl QuicMqttEngine {
             // Fetch the next packet only while there is buffer capacity; drops the
             // `data_streams` borrow before calling into the engine.
             let packet = match data_streams.get_mut(&stream_id) {
+                Some(ds) if ds.failed => break,
                 Some(ds) if ds.pending_packets < ds.max_packets => match ds.parser.next_packet() {
                     Ok(Some(packet)) => packet,
                     Ok(None) => break,
                     Err(e) => {
+                        ds.failed = true;
                         events.push(MqttEvent::Error(MqttClientError::from(e)));
                         break;
                     }
-- 
2.43.0


From c6081d9e2ed7423240dfb82d67a02b7d2700aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:57 +0000
Subject: [PATCH 65/92] fix: the Python client's connect fails when the server
 refuses

---
 python/package/flowsdk/async_client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 4ede807..cd69892 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -580,7 +580,12 @@ class FlowMqttClient:
         """Internal event handler."""
         if ev.is_connected():
             if self._connect_future and not self._connect_future.done():
-                self._connect_future.set_result(True)
+                reason_code = ev[0].reason_code
+                if reason_code == 0:
+                    self._connect_future.set_result(True)
+                else:
+                    self._connect_future.set_exception(
+                        ConnectionError(f"MQTT connection refused: reason code 0x{reason_code:02x}"))
         
         elif ev.is_published():
             res = ev[0]
-- 
2.43.0


From ed77d5c4ebb0ae000ad3102769b5969c5500ab12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:57 +0000
Subject: [PATCH 66/92] fix: the Python client tells its engine the time since
 the engine's creation

---
 python/package/flowsdk/async_client.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index cd69892..1b44229 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -80,15 +80,18 @@ class FlowMqttProtocol(asyncio.Protocol):
         transport_type: The transport protocol being used
         loop: The asyncio event loop
         on_event_cb: Callback function to handle MQTT events
+        start_time: time.monotonic() at the engine's creation (default: now)
     """
     
-    def __init__(self, engine, transport_type: TransportType, loop: asyncio.AbstractEventLoop, on_event_cb: Callable):
+    def __init__(self, engine, transport_type: TransportType, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
+                 start_time: Optional[float] = None):
         self.engine = engine
         self.transport_type = transport_type
         self.loop = loop
         self.transport: Optional[asyncio.Transport] = None
         self.on_event_cb = on_event_cb
-        self.start_time = time.monotonic()
+        # The engine counts time from its own creation
+        self.start_time = time.monotonic() if start_time is None else start_time
         self._tick_handle: Optional[asyncio.TimerHandle] = None
         self.closed = False
 
@@ -186,14 +189,17 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
         engine: The QUIC MQTT engine instance from flowsdk_ffi
         loop: The asyncio event loop
         on_event_cb: Callback function to handle MQTT events
+        start_time: time.monotonic() at the engine's creation (default: now)
     """
     
-    def __init__(self, engine, loop: asyncio.AbstractEventLoop, on_event_cb: Callable):
+    def __init__(self, engine, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
+                 start_time: Optional[float] = None):
         self.engine = engine
         self.loop = loop
         self.transport: Optional[asyncio.DatagramTransport] = None
         self.on_event_cb = on_event_cb
-        self.start_time = time.monotonic()
+        # The engine counts time from its own creation
+        self.start_time = time.monotonic() if start_time is None else start_time
         self._tick_handle: Optional[asyncio.TimerHandle] = None
         self.closed = False
         self.remote_addr = None
@@ -371,6 +377,7 @@ class FlowMqttClient:
             self.engine = flowsdk_ffi.QuicMqttEngineFfi(self.opts)
         else:
             raise ValueError(f"Unsupported transport type: {transport}")
+        self._engine_start = time.monotonic()
         
         self.protocol: Optional[Union[FlowMqttProtocol, FlowMqttDatagramProtocol]] = None
         self.on_message = on_message
@@ -402,7 +409,7 @@ class FlowMqttClient:
             if self.transport_type in (TransportType.TCP, TransportType.TLS):
                 # Stream-based connection (TCP or TLS)
                 transport, protocol = await loop.create_connection(
-                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event),
+                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event, self._engine_start),
                     host, port
                 )
                 self.protocol = protocol
@@ -427,7 +434,7 @@ class FlowMqttClient:
                 
                 # Create UDP socket and protocol
                 transport, protocol = await loop.create_datagram_endpoint(
-                    lambda: FlowMqttDatagramProtocol(self.engine, loop, self._on_event),
+                    lambda: FlowMqttDatagramProtocol(self.engine, loop, self._on_event, self._engine_start),
                     remote_addr=addr_info[0][4]
                 )
                 self.protocol = protocol
-- 
2.43.0


From 2d406bd80115f2842ed634378f8c3d03ddcc4147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:57 +0000
Subject: [PATCH 67/92] fix: operations of the Python client that cannot be
 sent or are refused fail

---
 python/package/flowsdk/async_client.py | 35 +++++++++++++++++---------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 1b44229..429d1f9 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -469,13 +469,15 @@ class FlowMqttClient:
             Packet ID of the subscription
             
         Raises:
-            RuntimeError: If not connected
+            RuntimeError: If not connected, or the request is invalid or refused
         """
         if not self.protocol:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
         pid = self.engine.subscribe(topic, qos)
+        if pid < 0:
+            raise RuntimeError("Subscribe failed")
         fut = loop.create_future()
         self._pending_subscribe[pid] = fut
         
@@ -496,13 +498,15 @@ class FlowMqttClient:
             Packet ID of the unsubscription
             
         Raises:
-            RuntimeError: If not connected
+            RuntimeError: If not connected, or the request is invalid or refused
         """
         if not self.protocol:
             raise RuntimeError("Not connected")
             
         loop = asyncio.get_running_loop()
         pid = self.engine.unsubscribe(topic)
+        if pid < 0:
+            raise RuntimeError("Unsubscribe failed")
         fut = loop.create_future()
         self._pending_unsubscribe[pid] = fut
         
@@ -526,7 +530,7 @@ class FlowMqttClient:
             Packet ID of the publish (0 for QoS 0)
             
         Raises:
-            RuntimeError: If not connected
+            RuntimeError: If not connected, or the message is invalid or refused
             
         Note:
             QUIC transport does not support the retain parameter and priority.
@@ -544,6 +548,8 @@ class FlowMqttClient:
         else:
             # TLS and QUIC engines take 3 args: topic, payload, qos
             pid = self.engine.publish(topic, payload, qos)
+        if pid < 0:
+            raise RuntimeError("Publish failed")
         
         if qos > 0:
             fut = loop.create_future()
@@ -583,6 +589,17 @@ class FlowMqttClient:
             self.protocol.transport.close()
             self.protocol.closed = True
 
+    @staticmethod
+    def _finish(fut, res, what, reason_codes):
+        """End a pending operation with the server's answer."""
+        if fut.done():
+            return
+        refused = [code for code in reason_codes if code is not None and code >= 0x80]
+        if refused:
+            fut.set_exception(RuntimeError(f"{what} refused: reason code 0x{refused[0]:02x}"))
+        else:
+            fut.set_result(res)
+
     def _on_event(self, ev):
         """Internal event handler."""
         if ev.is_connected():
@@ -598,25 +615,19 @@ class FlowMqttClient:
             res = ev[0]
             pid = res.packet_id
             if pid in self._pending_publish:
-                fut = self._pending_publish.pop(pid)
-                if not fut.done():
-                    fut.set_result(res)
+                self._finish(self._pending_publish.pop(pid), res, "Publish", [res.reason_code])
 
         elif ev.is_subscribed():
             res = ev[0]
             pid = res.packet_id
             if pid in self._pending_subscribe:
-                fut = self._pending_subscribe.pop(pid)
-                if not fut.done():
-                    fut.set_result(res)
+                self._finish(self._pending_subscribe.pop(pid), res, "Subscribe", res.reason_codes)
 
         elif ev.is_unsubscribed():
             res = ev[0]
             pid = res.packet_id
             if pid in self._pending_unsubscribe:
-                fut = self._pending_unsubscribe.pop(pid)
-                if not fut.done():
-                    fut.set_result(res)
+                self._finish(self._pending_unsubscribe.pop(pid), res, "Unsubscribe", res.reason_codes)
 
         elif ev.is_message_received():
             msg = ev[0]
-- 
2.43.0


From 3cb0a86e239ca5b543006ef2a57966d1e34cf2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:57 +0000
Subject: [PATCH 68/92] fix: calls of the Python client fail when their
 connection ends, and failed connections are closed

---
 python/package/flowsdk/async_client.py | 54 +++++++++++++++++++-------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 429d1f9..692e0bd 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -84,8 +84,9 @@ class FlowMqttProtocol(asyncio.Protocol):
     """
     
     def __init__(self, engine, transport_type: TransportType, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
-                 start_time: Optional[float] = None):
+                 start_time: Optional[float] = None, on_lost_cb: Optional[Callable] = None):
         self.engine = engine
+        self.on_lost_cb = on_lost_cb
         self.transport_type = transport_type
         self.loop = loop
         self.transport: Optional[asyncio.Transport] = None
@@ -126,6 +127,8 @@ class FlowMqttProtocol(asyncio.Protocol):
             
         if self._tick_handle:
             self._tick_handle.cancel()
+        if self.on_lost_cb:
+            self.on_lost_cb(self, exc)
         
     def _schedule_tick(self, delay_sec: float):
         """Schedule the next engine tick."""
@@ -193,8 +196,9 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
     """
     
     def __init__(self, engine, loop: asyncio.AbstractEventLoop, on_event_cb: Callable,
-                 start_time: Optional[float] = None):
+                 start_time: Optional[float] = None, on_lost_cb: Optional[Callable] = None):
         self.engine = engine
+        self.on_lost_cb = on_lost_cb
         self.loop = loop
         self.transport: Optional[asyncio.DatagramTransport] = None
         self.on_event_cb = on_event_cb
@@ -237,6 +241,8 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
         self.closed = True
         if self._tick_handle:
             self._tick_handle.cancel()
+        if self.on_lost_cb:
+            self.on_lost_cb(self, exc)
 
     def _schedule_tick(self, delay_sec: float):
         """Schedule the next engine tick."""
@@ -409,7 +415,8 @@ class FlowMqttClient:
             if self.transport_type in (TransportType.TCP, TransportType.TLS):
                 # Stream-based connection (TCP or TLS)
                 transport, protocol = await loop.create_connection(
-                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event, self._engine_start),
+                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event,
+                                             self._engine_start, self._on_connection_lost),
                     host, port
                 )
                 self.protocol = protocol
@@ -434,7 +441,8 @@ class FlowMqttClient:
                 
                 # Create UDP socket and protocol
                 transport, protocol = await loop.create_datagram_endpoint(
-                    lambda: FlowMqttDatagramProtocol(self.engine, loop, self._on_event, self._engine_start),
+                    lambda: FlowMqttDatagramProtocol(self.engine, loop, self._on_event,
+                                                     self._engine_start, self._on_connection_lost),
                     remote_addr=addr_info[0][4]
                 )
                 self.protocol = protocol
@@ -450,9 +458,9 @@ class FlowMqttClient:
 
         try:
             await asyncio.wait_for(_do_connect(), timeout=timeout)
-        except Exception:
+        except BaseException:
             # Clean up on failure
-            self.protocol = None
+            self._close(ConnectionError("MQTT connection failed"))
             if self._connect_future and not self._connect_future.done():
                 self._connect_future.cancel()
             raise
@@ -585,9 +593,27 @@ class FlowMqttClient:
         self.engine.disconnect()
         self.protocol.pump()  # Flush DISCONNECT packet
         
-        if self.protocol.transport:
-            self.protocol.transport.close()
-            self.protocol.closed = True
+        self._close(ConnectionError("MQTT client disconnected"))
+
+    def _close(self, exc: Exception):
+        """Close the transport, if there is one, and fail everything that waits for an answer on it."""
+        protocol, self.protocol = self.protocol, None
+        if protocol:
+            protocol.closed = True
+            if protocol.transport:
+                protocol.transport.close()
+        waiting = [self._connect_future] if self._connect_future else []
+        for pending in (self._pending_publish, self._pending_subscribe, self._pending_unsubscribe):
+            waiting.extend(pending.values())
+            pending.clear()
+        for fut in waiting:
+            if not fut.done():
+                fut.set_exception(exc)
+
+    def _on_connection_lost(self, protocol, exc: Optional[Exception]):
+        """The transport of `protocol` is gone."""
+        if self.protocol is protocol:
+            self._close(ConnectionError(f"MQTT connection lost: {exc}"))
 
     @staticmethod
     def _finish(fut, res, what, reason_codes):
@@ -635,13 +661,15 @@ class FlowMqttClient:
                 self.on_message(msg.topic, msg.payload, msg.qos)
             
         elif ev.is_error():
-            if self._connect_future and not self._connect_future.done():
-                self._connect_future.set_exception(ConnectionError(f"MQTT connection error: {ev.message}"))
             logger.error(f"MQTT Error: {ev.message}")
+            self._close(ConnectionError(f"MQTT connection error: {ev.message}"))
 
         elif ev.is_disconnected():
-            if self._connect_future and not self._connect_future.done():
-                self._connect_future.set_exception(ConnectionError("MQTT disconnected during connection process"))
+            self._close(ConnectionError("MQTT disconnected"))
+
+        elif ev.is_reconnect_needed():
+            # The server has not answered for too long
+            self._close(ConnectionError("MQTT connection timed out"))
 
 
 __all__ = ['FlowMqttClient', 'FlowMqttProtocol','TransportType', 'FlowMqttDatagramProtocol']
-- 
2.43.0


From de854309903a4c8c9570418a7b26794b80d70bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:58 +0000
Subject: [PATCH 69/92] fix: a failing on_message does not stop the Python
 client

---
 python/package/flowsdk/async_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 692e0bd..3eef72f 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -658,7 +658,11 @@ class FlowMqttClient:
         elif ev.is_message_received():
             msg = ev[0]
             if self.on_message:
-                self.on_message(msg.topic, msg.payload, msg.qos)
+                try:
+                    self.on_message(msg.topic, msg.payload, msg.qos)
+                except Exception:
+                    # The events after this one still count
+                    logger.exception("on_message failed")
             
         elif ev.is_error():
             logger.error(f"MQTT Error: {ev.message}")
-- 
2.43.0


From 79ecd9ce53c7b44152f00695be4606e47467c651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:58 +0000
Subject: [PATCH 70/92] fix: the Python client handles each event of the QUIC
 engine once

---
 python/package/flowsdk/async_client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 3eef72f..2827816 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -261,10 +261,8 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
         
         # Run protocol tick
         now_ms = int((time.monotonic() - self.start_time) * 1000)
-        # QUIC engine handle_tick returns events
-        events = self.engine.handle_tick(now_ms)
-        for ev in events:
-            self.on_event_cb(ev)
+        # The events it returns are also kept for pump()
+        self.engine.handle_tick(now_ms)
         
         self.pump()
         
-- 
2.43.0


From 035ab1dcde0e9a185d6ee25d1eb09a2c2abbab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 71/92] fix: a connection that ends at once fails the Python
 client's connect

---
 python/package/flowsdk/async_client.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 2827816..e085f50 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -412,12 +412,13 @@ class FlowMqttClient:
         async def _do_connect():
             if self.transport_type in (TransportType.TCP, TransportType.TLS):
                 # Stream-based connection (TCP or TLS)
-                transport, protocol = await loop.create_connection(
-                    lambda: FlowMqttProtocol(self.engine, self.transport_type, loop, self._on_event,
-                                             self._engine_start, self._on_connection_lost),
-                    host, port
-                )
-                self.protocol = protocol
+                def _new_protocol():
+                    self.protocol = FlowMqttProtocol(
+                        self.engine, self.transport_type, loop, self._on_event,
+                        self._engine_start, self._on_connection_lost)
+                    return self.protocol
+                
+                await loop.create_connection(_new_protocol, host, port)
                 
             elif self.transport_type == TransportType.QUIC:
                 # QUIC connection using FlowMqttDatagramProtocol
-- 
2.43.0


From 47c36601c601a5354873605c91a9efea0a763bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 72/92] fix: the Python client sends DISCONNECT over QUIC
 before it closes

---
 python/package/flowsdk/async_client.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index e085f50..20393b6 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -259,11 +259,6 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
         if self.closed:
             return
         
-        # Run protocol tick
-        now_ms = int((time.monotonic() - self.start_time) * 1000)
-        # The events it returns are also kept for pump()
-        self.engine.handle_tick(now_ms)
-        
         self.pump()
         
         # Fixed 10ms interval for QUIC
@@ -272,14 +267,19 @@ class FlowMqttDatagramProtocol(asyncio.DatagramProtocol):
 
     def pump(self):
         """Pump data between engine and network."""
-        # 1. Send outgoing datagrams
+        # 1. Run protocol tick: it processes datagrams and writes what is queued.
+        #    The events it returns are also kept for take_events().
+        now_ms = int((time.monotonic() - self.start_time) * 1000)
+        self.engine.handle_tick(now_ms)
+        
+        # 2. Send outgoing datagrams
         datagrams = self.engine.take_outgoing_datagrams()
         if datagrams and self.transport and self.remote_addr:
             for datagram in datagrams:
                 # Extract bytes from MqttDatagramFfi
                 self.transport.sendto(datagram.data, self.remote_addr)
         
-        # 2. Process events
+        # 3. Process events
         events = self.engine.take_events()
         for ev in events:
             self.on_event_cb(ev)
-- 
2.43.0


From f1018b0cffc451313503976a29f8d1e34059293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:32 +0000
Subject: [PATCH 73/92] fix: the Python client can connect over TLS again

---
 python/package/flowsdk/async_client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 20393b6..8febd0d 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -382,6 +382,7 @@ class FlowMqttClient:
         else:
             raise ValueError(f"Unsupported transport type: {transport}")
         self._engine_start = time.monotonic()
+        self._engine_used = False
         
         self.protocol: Optional[Union[FlowMqttProtocol, FlowMqttDatagramProtocol]] = None
         self.on_message = on_message
@@ -408,6 +409,12 @@ class FlowMqttClient:
         """
         loop = asyncio.get_running_loop()
         self._connect_future = loop.create_future()
+        if self.transport_type == TransportType.TLS:
+            if self._engine_used:
+                # A TLS engine is good for one connection
+                self.engine = flowsdk_ffi.TlsMqttEngineFfi(self.opts, self.tls_opts, self.server_name)
+                self._engine_start = time.monotonic()
+            self._engine_used = True
         
         async def _do_connect():
             if self.transport_type in (TransportType.TCP, TransportType.TLS):
-- 
2.43.0


From 95221e1a5ef7924a121c7242d8d623d2a347011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:36 +0000
Subject: [PATCH 74/92] fix: the Python client moves data over TLS at once

---
 python/package/flowsdk/async_client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/package/flowsdk/async_client.py b/python/package/flowsdk/async_client.py
index 8febd0d..f318501 100644
--- a/python/package/flowsdk/async_client.py
+++ b/python/package/flowsdk/async_client.py
@@ -168,6 +168,8 @@ class FlowMqttProtocol(asyncio.Protocol):
         """Pump data between engine and network."""
         # 1. Send outgoing data
         if self.transport_type == TransportType.TLS:
+            # The TLS engine moves data between MQTT and TLS when it is ticked
+            self.engine.handle_tick(int((time.monotonic() - self.start_time) * 1000))
             outgoing = self.engine.take_socket_data()
         else:
             outgoing = self.engine.take_outgoing()
-- 
2.43.0


From 26a222ecbf7fbd03719f574337326a9ae404cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 75/92] fix: s-proxy keeps one broker connection per stream and
 closes both together

---
 mqtt_grpc_duality/src/bin/s-proxy.rs | 270 +++++++++------------------
 1 file changed, 88 insertions(+), 182 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index c99a5d3..2a2329b 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -1,12 +1,9 @@
 // SPDX-License-Identifier: MPL-2.0
 
-use dashmap::DashMap;
-use std::sync::Arc;
 use std::{env, net::SocketAddr};
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
 #[cfg(unix)]
 use tokio::signal::unix::{signal, SignalKind};
-use tokio_util::sync::CancellationToken;
 use tonic::{transport::Server, Request, Response, Status};
 use tracing::{debug, error, info};
 
@@ -14,8 +11,11 @@ use tracing::{debug, error, info};
 use mqtt_grpc_proxy::convert_mqtt_to_stream_message;
 use mqtt_grpc_proxy::mqtt_unified_pb;
 use mqtt_unified_pb::mqtt_relay_service_server::{MqttRelayService, MqttRelayServiceServer};
+use mqtt_unified_pb::mqtt_stream_message::Payload;
+use mqtt_unified_pb::session_control::ControlType;
 use mqtt_unified_pb::MqttStreamMessage;
 
+use flowsdk::mqtt_serde::control_packet::MqttPacket;
 use flowsdk::mqtt_serde::parser::stream::MqttParser;
 
 use tokio::net::TcpSocket;
@@ -25,28 +25,17 @@ use tokio_stream::StreamExt;
 // Control message enum for broker communication
 #[derive(Debug, Clone)]
 pub enum BrokerControlMessage {
-    Packet(flowsdk::mqtt_serde::control_packet::MqttPacket),
+    Packet(MqttPacket),
 }
 
-type ConnectionInfo = (
-    mpsc::Sender<BrokerControlMessage>, // Control message sender for all MQTT commands
-    mpsc::Sender<Result<MqttStreamMessage, Status>>, // Response stream sender
-    String,                             // session_id
-);
-
 #[derive(Debug)]
 pub struct MyRelay {
-    // Shared state for managing connections - store publish sender and response stream sender
-    connections: Arc<DashMap<String, ConnectionInfo>>,
     broker_addr: SocketAddr,
 }
 
 impl MyRelay {
     pub fn new(broker_addr: SocketAddr) -> Self {
-        Self {
-            connections: Arc::new(DashMap::new()),
-            broker_addr,
-        }
+        Self { broker_addr }
     }
 }
 
@@ -79,152 +68,97 @@ impl MqttRelayService for MyRelay {
 
         let mut incoming_stream = request.into_inner();
         let (response_tx, response_rx) = tokio::sync::mpsc::channel(128);
-        let connections = self.connections.clone();
         let broker_addr = self.broker_addr; // Capture broker_addr before move
 
-        let token = CancellationToken::new();
-
         // Handle the bidirectional stream
         tokio::spawn(async move {
             let session_id = session_id_from_metadata; // Use session_id from metadata (owned)
-            loop {
-                let cloned_token: CancellationToken = token.clone();
 
-                match incoming_stream.next().await {
+            // The broker connection belongs to this stream alone. Dropping `broker_tx` lets it
+            // finish what is queued and close; the broker loop holds the only response sender
+            // once the session is established, so the response stream ends with it.
+            let mut broker_tx: Option<mpsc::Sender<BrokerControlMessage>> = None;
+            let mut response_tx = Some(response_tx);
+
+            loop {
+                let payload = match incoming_stream.next().await {
                     None => {
                         debug!("Stream closed by client, exiting grpc stream handler");
-                        token.cancel();
                         break;
                     }
                     Some(Err(e)) => {
                         error!("Error in incoming grpc stream: {}", e);
                         break;
                     }
-
-                    Some(Ok(stream_msg)) => {
-                        debug!("Received stream message for session: {}", &session_id);
-
-                        if let Some(payload) = stream_msg.payload {
-                            match payload {
-                                mqtt_unified_pb::mqtt_stream_message::Payload::MqttV3Packet(
-                                    packet,
-                                ) => {
-                                    if let Some(p) = packet.packet {
-                                        if let Some(client_id) =
-                                            find_client_by_session(&connections, &session_id)
-                                        {
-                                            if let Some(conn) = connections.get(&client_id) {
-                                                let (broker_tx, _, _) = conn.value();
-                                                if let Err(e) = broker_tx
-                                                    .send(BrokerControlMessage::Packet(p.into()))
-                                                    .await
-                                                {
-                                                    error!(
-                                                        "Failed to forward packet to broker for client {}: {}",
-                                                        client_id, e
-                                                    );
-                                                }
-                                            }
-                                        }
-                                    }
-                                }
-                                mqtt_unified_pb::mqtt_stream_message::Payload::MqttV5Packet(
-                                    packet,
-                                ) => {
-                                    if let Some(p) = packet.packet {
-                                        if let Some(client_id) =
-                                            find_client_by_session(&connections, &session_id)
-                                        {
-                                            if let Some(conn) = connections.get(&client_id) {
-                                                let (broker_tx, _, _) = conn.value();
-                                                if let Err(e) = broker_tx
-                                                    .send(BrokerControlMessage::Packet(p.into()))
-                                                    .await
-                                                {
-                                                    error!(
-                                                        "Failed to forward packet to broker for client {}: {}",
-                                                        client_id, e
-                                                    );
-                                                }
-                                            }
-                                        }
-                                    }
+                    Some(Ok(stream_msg)) => stream_msg.payload,
+                };
+                debug!("Received stream message for session: {}", &session_id);
+
+                let packet: Option<MqttPacket> = match payload {
+                    Some(Payload::MqttV3Packet(packet)) => packet.packet.map(Into::into),
+                    Some(Payload::MqttV5Packet(packet)) => packet.packet.map(Into::into),
+                    Some(Payload::SessionControl(control)) => {
+                        // Handle session control messages
+                        let mqtt_version = match control.control_type {
+                            x if x == ControlType::Establishv3 as i32 => 3,
+                            x if x == ControlType::Establishv5 as i32 => 5,
+                            x if x == ControlType::Terminate as i32 => {
+                                debug!("Client {} disconnecting", control.client_id);
+                                broker_tx = None;
+                                continue;
+                            }
+                            _ => continue,
+                        };
+                        let client_id = control.client_id;
+                        info!("Received Establish from client: {}", client_id);
+
+                        let Some(response_tx) = response_tx.take() else {
+                            error!("Session {} is already established", session_id);
+                            continue;
+                        };
+
+                        // Create broker connection for this client
+                        let (tx, broker_rx) = mpsc::channel::<BrokerControlMessage>(32);
+                        broker_tx = Some(tx);
+                        let session_id = session_id.clone();
+                        tokio::spawn(async move {
+                            match mqtt_connect_to_broker(broker_addr).await {
+                                Ok(stream) => {
+                                    info!(
+                                        "Broker connection established for client: {}",
+                                        client_id
+                                    );
+
+                                    // Start the MQTT client loop to handle broker communication
+                                    mqtt_client_loop_simple(
+                                        broker_rx,
+                                        stream,
+                                        response_tx,
+                                        session_id,
+                                        mqtt_version,
+                                    )
+                                    .await;
                                 }
-                                mqtt_unified_pb::mqtt_stream_message::Payload::SessionControl(
-                                    control,
-                                ) => {
-                                    // Handle session control messages
-                                    match control.control_type {
-                                        x if (x == mqtt_unified_pb::session_control::ControlType::Establishv3 as i32)
-                                                || (x == mqtt_unified_pb::session_control::ControlType::Establishv5 as i32) => {
-                                            let client_id = control.client_id.clone();
-                                            let mqtt_version = match x {
-                                                y if y == mqtt_unified_pb::session_control::ControlType::Establishv3 as i32 => 3,
-                                                y if y == mqtt_unified_pb::session_control::ControlType::Establishv5 as i32 => 5,
-                                                _ => 0, //@TODO: handle error
-                                            };
-                                            info!("Received Establish from client: {}", client_id);
-
-                                            // Create broker connection for this client
-                                            let connections = connections.clone();
-                                            let response_tx_for_spawn = response_tx.clone();
-                                            let session_id_for_spawn = session_id.clone();
-                                                       let (broker_tx, broker_rx) =
-                                                            tokio::sync::mpsc::channel::<BrokerControlMessage>(
-                                                                32,
-                                                            );
-                                                      // Store connection info
-                                                        connections.insert(
-                                                            client_id.clone(),
-                                                            (
-                                                                broker_tx,
-                                                                response_tx_for_spawn.clone(),
-                                                                session_id_for_spawn.clone(),
-                                                            ),
-                                                        );
-
-                                            tokio::spawn(async move {
-                                                match mqtt_connect_to_broker(broker_addr).await {
-                                                    Ok(stream) => {
-                                                        info!(
-                                                            "Broker connection established for client: {}",
-                                                            client_id
-                                                        );
-
-                                                        // Start the MQTT client loop to handle broker communication
-                                                        mqtt_client_loop_simple(
-                                                            cloned_token,
-                                                            connections.clone(),
-                                                            broker_rx,
-                                                            stream,
-                                                            response_tx_for_spawn,
-                                                            session_id_for_spawn,
-                                                            mqtt_version,
-                                                        )
-                                                        .await;
-                                                    }
-                                                    Err(e) => {
-                                                        error!(
-                                                            "Failed to connect to broker for client {}: {}",
-                                                            client_id, e
-                                                        );
-                                                    }
-                                                }
-                                            });
-                                        }
-                                        x if x == mqtt_unified_pb::session_control::ControlType::Terminate as i32 => {
-                                            if let Some(client_id) =
-                                                find_client_by_session(&connections, &session_id)
-                                            {
-                                                debug!("Client {} disconnecting", client_id);
-                                                connections.remove(&client_id);
-                                            }
-                                        }
-                                        _ => {}
-                                    }
+                                Err(e) => {
+                                    error!(
+                                        "Failed to connect to broker for client {}: {}",
+                                        client_id, e
+                                    );
+                                    let _ = response_tx.send(Err(e)).await;
                                 }
                             }
-                        }
+                        });
+                        continue;
+                    }
+                    None => None,
+                };
+
+                if let (Some(packet), Some(tx)) = (packet, &broker_tx) {
+                    if let Err(e) = tx.send(BrokerControlMessage::Packet(packet)).await {
+                        error!(
+                            "Failed to forward packet to broker for session {}: {}",
+                            session_id, e
+                        );
                     }
                 }
             }
@@ -246,8 +180,6 @@ async fn mqtt_connect_to_broker(broker_addr: SocketAddr) -> Result<tokio::net::T
 }
 
 async fn mqtt_client_loop_simple(
-    token: CancellationToken,
-    connections: Arc<DashMap<String, ConnectionInfo>>,
     mut rx: mpsc::Receiver<BrokerControlMessage>,
     mut stream: tokio::net::TcpStream,
     response_tx: mpsc::Sender<Result<MqttStreamMessage, Status>>,
@@ -257,26 +189,19 @@ async fn mqtt_client_loop_simple(
     let mut parser = MqttParser::new(16384, mqtt_version); // 16KB buffer
     let mut sequence_counter = 1u64;
 
-    loop {
+    'outer: loop {
         tokio::select! {
-            _ = token.cancelled() => {
-                // The token was cancelled
-                info!("Cancellation token triggered, exiting MQTT client loop for session: {}", session_id);
-                connections.remove(&session_id);
-                break;
-            }
-
             // Handle control messages from r-proxy
-            Some(control_msg) = rx.recv() => {
+            control_msg = rx.recv() => {
+                let Some(BrokerControlMessage::Packet(packet)) = control_msg else {
+                    // The client side has ended and everything it sent is written
+                    info!("Client stream ended, exiting MQTT client loop for session: {}", session_id);
+                    break;
+                };
                 debug!("Processing control message for broker");
 
                 // Convert control message to MQTT bytes and send to broker
-                let mqtt_bytes = match control_msg {
-                    BrokerControlMessage::Packet(packet) => {
-
-                        packet.to_bytes().unwrap()
-                    }
-                };
+                let mqtt_bytes = packet.to_bytes().unwrap();
 
                 if let Err(e) = stream.write_all(&mqtt_bytes).await {
                     error!("Failed to write to broker: {}", e);
@@ -288,7 +213,6 @@ async fn mqtt_client_loop_simple(
                 match result {
                     Ok(0) => {
                         info!("Connection closed by the broker");
-                        connections.remove(&session_id);
                         break;
                     }
                     Ok(n) => {
@@ -307,7 +231,7 @@ async fn mqtt_client_loop_simple(
 
                                 if let Err(e) = response_tx.send(Ok(stream_msg)).await {
                                     error!("Failed to send message to r-proxy via stream: {}", e);
-                                    break;
+                                    break 'outer;
                                 }
                             }
 
@@ -320,26 +244,8 @@ async fn mqtt_client_loop_simple(
                     }
                 }
             }
-            else => {
-                info!("No more data to read from broker, exiting MQTT client loop for session: {}", session_id);
-                break;
-            }
-        }
-    }
-}
-
-// Helper function to find client by session ID
-fn find_client_by_session(
-    connections: &Arc<DashMap<String, ConnectionInfo>>,
-    session_id: &str,
-) -> Option<String> {
-    for entry in connections.iter() {
-        let (_, _, stored_session_id) = entry.value();
-        if stored_session_id == session_id {
-            return Some(entry.key().clone());
         }
     }
-    None
 }
 
 #[tokio::main]
-- 
2.43.0


From 372b0db64040841e5e130cec6199c741702865f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 76/92] fix: s-proxy ends the session on data it cannot parse
 or encode

---
 mqtt_grpc_duality/src/bin/s-proxy.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 2a2329b..d43bd77 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -201,7 +201,13 @@ async fn mqtt_client_loop_simple(
                 debug!("Processing control message for broker");
 
                 // Convert control message to MQTT bytes and send to broker
-                let mqtt_bytes = packet.to_bytes().unwrap();
+                let mqtt_bytes = match packet.to_bytes() {
+                    Ok(mqtt_bytes) => mqtt_bytes,
+                    Err(e) => {
+                        error!("Failed to encode packet for broker: {}", e);
+                        break;
+                    }
+                };
 
                 if let Err(e) = stream.write_all(&mqtt_bytes).await {
                     error!("Failed to write to broker: {}", e);
@@ -217,7 +223,15 @@ async fn mqtt_client_loop_simple(
                     }
                     Ok(n) => {
                         debug!("Read {} bytes from broker", n);
-                        while let Ok(Some(packet)) = parser.next_packet() {
+                        loop {
+                            let packet = match parser.next_packet() {
+                                Ok(Some(packet)) => packet,
+                                Ok(None) => break,
+                                Err(e) => {
+                                    error!("Error parsing MQTT packet from broker: {}", e);
+                                    break 'outer;
+                                }
+                            };
                             debug!("Received packet from broker: {:?}", packet);
 
                             // Convert MQTT packet to gRPC stream message and forward to r-proxy
-- 
2.43.0


From e6625a2885b8bd88a0afd09e3e82097bd7a078a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 77/92] fix: r-proxy accepts clients whose identifier is not
 printable ASCII or is long

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 235b7ce..76947aa 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -136,6 +136,16 @@ async fn signal_shutdown() {
     }
 }
 
+/// A client id as it may appear in gRPC metadata, which is limited to ASCII and in size.
+/// The client id itself travels in the session control message.
+fn metadata_label(client_id: &str) -> String {
+    client_id
+        .chars()
+        .filter(char::is_ascii_graphic)
+        .take(128)
+        .collect()
+}
+
 /// Setup a new gRPC bidirectional stream using the shared channel
 ///
 /// Phase 1: This function reuses the shared gRPC channel instead of creating
@@ -165,7 +175,7 @@ async fn setup_grpc_streaming(
     // Add session_id and client_id as gRPC metadata (HTTP/2 headers)
     let metadata = request.metadata_mut();
     metadata.insert("session-id", session_id.parse().unwrap());
-    metadata.insert("client-id", client_id.parse().unwrap());
+    metadata.insert("client-id", metadata_label(&client_id).parse().unwrap());
 
     let inbound_gstream = client.stream_mqtt_messages(request).await?.into_inner();
 
@@ -188,7 +198,7 @@ async fn handle_new_incoming_tcp(
     let mqtt_version = connect.version();
     let session_id: String = format!(
         "{}-{}",
-        client_id,
+        metadata_label(&client_id),
         state.sequence_counter.fetch_add(1, Ordering::SeqCst)
     );
 
-- 
2.43.0


From 548bba9cd89c50a64c89a8d13b3658faa75ee79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 78/92] fix: r-proxy relays packets that arrive together with
 CONNECT

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 89 +++++++++++++++-------------
 1 file changed, 48 insertions(+), 41 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 76947aa..11c26e1 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -287,6 +287,54 @@ async fn start_streaming_loop(
     let sequence_counter: Arc<AtomicU64> = Arc::new(AtomicU64::new(1));
 
     'outer: loop {
+        // Parse all available packets from the buffer, also those that came along with CONNECT
+        loop {
+            match parser.next_packet() {
+                Ok(Some(packet)) => {
+                    debug!(
+                        "Parsed MQTT packet from client {}: {:?}",
+                        conn.client_id, packet
+                    );
+                    // Convert MQTT packet to gRPC stream message using unified approach
+                    // Note: session_id is sent via gRPC metadata, not in the message
+                    let stream_msg = convert_mqtt_to_stream_message(
+                        &packet,
+                        sequence_counter.fetch_add(1, Ordering::SeqCst),
+                        mqtt_unified_pb::MessageDirection::ClientToBroker,
+                    );
+
+                    if let Some(msg) = stream_msg {
+                        if let Err(e) = conn.grpc_stream_sender.send(msg).await {
+                            error!(
+                                "Failed to send MQTT packet to gRPC stream for client {}: {}",
+                                conn.client_id, e
+                            );
+                            break 'outer;
+                        } else {
+                            debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
+                                   conn.client_id, conn.session_id, packet);
+                        }
+                    } else {
+                        error!(
+                            "Failed to convert MQTT packet to stream message for client {}: {:?}",
+                            conn.client_id, packet
+                        );
+                    }
+                }
+                Ok(None) => {
+                    // No more complete packets available, exit parsing loop
+                    break;
+                }
+                Err(e) => {
+                    error!(
+                        "Error parsing MQTT packet from client {}: {}",
+                        conn.client_id, e
+                    );
+                    break 'outer;
+                }
+            }
+        }
+
         tokio::select! {
             // Handle MQTT messages, client facing.
             n = conn.read_h.read_buf(parser.buffer_mut()) => {
@@ -301,47 +349,6 @@ async fn start_streaming_loop(
                         break 'outer;
                     }
                 }
-                // Parse all available packets from the buffer
-                loop {
-                    match parser.next_packet() {
-                        Ok(Some(packet)) => {
-                            debug!("Parsed MQTT packet from client {}: {:?}", conn.client_id, packet);
-                            // Convert MQTT packet to gRPC stream message using unified approach
-                            // Note: session_id is sent via gRPC metadata, not in the message
-                            let stream_msg = convert_mqtt_to_stream_message(
-                                &packet,
-                                sequence_counter.fetch_add(1, Ordering::SeqCst),
-                                mqtt_unified_pb::MessageDirection::ClientToBroker,
-                            );
-
-
-                            if let Some(msg) = stream_msg {
-                                if let Err(e) = conn.grpc_stream_sender.send(msg).await {
-                                    error!("Failed to send MQTT packet to gRPC stream for client {}: {}", conn.client_id, e);
-                                    break;
-                                } else {
-                                    debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
-                                           conn.client_id, conn.session_id, packet);
-                                }
-                            } else {
-                                error!("Failed to convert MQTT packet to stream message for client {}: {:?}", conn.client_id, packet);
-                            }
-
-                            // Continue parsing more packets from the same buffer
-                            if parser.buffer_mut().is_empty() {
-                                break; // No more data to parse, exit inner loop
-                            }
-                        }
-                        Ok(None) => {
-                            // No more complete packets available, exit parsing loop
-                            break;
-                        }
-                        Err(e) => {
-                            error!("Error parsing MQTT packet from client {}: {}", conn.client_id, e);
-                            break 'outer;
-                        }
-                    }
-                }
             }
 
             // Handle gRPC messages, s-proxy facing
-- 
2.43.0


From 23769439750c9ff6f66b4d2e736e50104ab58ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 79/92] fix: r-proxy accepts a CONNECT cut inside the protocol
 name

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 11c26e1..73e5022 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -418,6 +418,8 @@ async fn wait_for_mqtt_connect(
                 read_hint = hint;
                 continue;
             }
+            // The protocol name is not complete yet
+            Err(ParseError::BufferTooShort) => continue,
             // @TODO: handle other errors properly, like empty buffer
             Err(e) => {
                 error!("Failed to set MQTT version: {}", e);
-- 
2.43.0


From 1f08921e8c10720aee539319bc7ff3468f766fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:19 +0000
Subject: [PATCH 80/92] fix: r-proxy does not cancel the stream before its
 messages are out

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 73e5022..2277c08 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -386,6 +386,11 @@ async fn start_streaming_loop(
         "Streaming client loop ended for session: {} (client: {})",
         conn.session_id, conn.client_id
     );
+
+    // Close the client connection and end the outbound stream, but see the inbound stream to its
+    // end: dropping it now would cancel the RPC along with messages that are still on their way.
+    drop(conn);
+    while let Some(Ok(_)) = inbound_stream.next().await {}
     Ok(())
 }
 
-- 
2.43.0


From 7d24416ef04881fbe7ee9ceaa076d60576ea93ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:05 +0000
Subject: [PATCH 81/92] fix: a client or broker connection that does not read
 does not hold up the relay's other sessions

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 4 ++++
 mqtt_grpc_duality/src/bin/s-proxy.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 2277c08..37b3182 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -63,6 +63,10 @@ async fn run_proxy(
         destination
     );
     let channel = tonic::transport::Channel::from_shared(format!("http://{}", destination))?
+        // All clients share this connection: leave the flow control to their streams, or a few
+        // clients that do not read would hold up all the others
+        .initial_stream_window_size(1 << 20)
+        .initial_connection_window_size((1 << 31) - 1)
         .keep_alive_while_idle(true)
         .keep_alive_timeout(std::time::Duration::from_secs(30))
         .connect_lazy(); // Use connect_lazy for efficient connection pooling
diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index d43bd77..e062ad8 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -288,6 +288,10 @@ async fn main() -> Result<(), Box<dyn std::error::Error>> {
     info!("  MQTT broker address: {}", broker_addr);
 
     Server::builder()
+        // All clients share one connection: leave the flow control to their streams, or one
+        // broker connection that does not take its data would hold up all the others
+        .initial_stream_window_size(1 << 20)
+        .initial_connection_window_size((1 << 31) - 1)
         .add_service(MqttRelayServiceServer::new(relay))
         .serve_with_shutdown(grpc_addr, signal_shutdown())
         .await?;
-- 
2.43.0


From d0c69c2f81a26623e1afc39a9ee7c908351ed5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:17 +0000
Subject: [PATCH 82/92] fix: the relay's two directions do not wait for each
 other

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 165 +++++++++++++++------------
 mqtt_grpc_duality/src/bin/s-proxy.rs | 133 +++++++++++----------
 2 files changed, 161 insertions(+), 137 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 37b3182..77f364a 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -290,100 +290,115 @@ async fn start_streaming_loop(
 ) -> Result<(), Box<dyn std::error::Error + Send + Sync>> {
     let sequence_counter: Arc<AtomicU64> = Arc::new(AtomicU64::new(1));
 
-    'outer: loop {
-        // Parse all available packets from the buffer, also those that came along with CONNECT
+    // The two directions run side by side: neither waits for the other one's receiver
+    let StreamingClientConnection {
+        session_id,
+        client_id,
+        write_h,
+        read_h,
+        grpc_stream_sender,
+        ..
+    } = &mut conn;
+
+    // Handle MQTT messages, client facing.
+    let from_client = async {
         loop {
-            match parser.next_packet() {
-                Ok(Some(packet)) => {
-                    debug!(
-                        "Parsed MQTT packet from client {}: {:?}",
-                        conn.client_id, packet
-                    );
-                    // Convert MQTT packet to gRPC stream message using unified approach
-                    // Note: session_id is sent via gRPC metadata, not in the message
-                    let stream_msg = convert_mqtt_to_stream_message(
-                        &packet,
-                        sequence_counter.fetch_add(1, Ordering::SeqCst),
-                        mqtt_unified_pb::MessageDirection::ClientToBroker,
-                    );
-
-                    if let Some(msg) = stream_msg {
-                        if let Err(e) = conn.grpc_stream_sender.send(msg).await {
+            // Parse all available packets from the buffer, also those that came along with CONNECT
+            loop {
+                match parser.next_packet() {
+                    Ok(Some(packet)) => {
+                        debug!("Parsed MQTT packet from client {}: {:?}", client_id, packet);
+                        // Convert MQTT packet to gRPC stream message using unified approach
+                        // Note: session_id is sent via gRPC metadata, not in the message
+                        let stream_msg = convert_mqtt_to_stream_message(
+                            &packet,
+                            sequence_counter.fetch_add(1, Ordering::SeqCst),
+                            mqtt_unified_pb::MessageDirection::ClientToBroker,
+                        );
+
+                        if let Some(msg) = stream_msg {
+                            if let Err(e) = grpc_stream_sender.send(msg).await {
+                                error!(
+                                    "Failed to send MQTT packet to gRPC stream for client {}: {}",
+                                    client_id, e
+                                );
+                                return;
+                            } else {
+                                debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
+                                       client_id, session_id, packet);
+                            }
+                        } else {
                             error!(
-                                "Failed to send MQTT packet to gRPC stream for client {}: {}",
-                                conn.client_id, e
+                                "Failed to convert MQTT packet to stream message for client {}: {:?}",
+                                client_id, packet
                             );
-                            break 'outer;
-                        } else {
-                            debug!("MQTT packet forwarded to s-proxy for client {} (session: {}): {:?}",
-                                   conn.client_id, conn.session_id, packet);
                         }
-                    } else {
-                        error!(
-                            "Failed to convert MQTT packet to stream message for client {}: {:?}",
-                            conn.client_id, packet
-                        );
+                    }
+                    Ok(None) => {
+                        // No more complete packets available, exit parsing loop
+                        break;
+                    }
+                    Err(e) => {
+                        error!("Error parsing MQTT packet from client {}: {}", client_id, e);
+                        return;
                     }
                 }
-                Ok(None) => {
-                    // No more complete packets available, exit parsing loop
-                    break;
+            }
+
+            match read_h.read_buf(parser.buffer_mut()).await {
+                Ok(0) => {
+                    info!("Client {} disconnected (EOF)", client_id);
+                    return;
                 }
+                Ok(_) => {}
                 Err(e) => {
-                    error!(
-                        "Error parsing MQTT packet from client {}: {}",
-                        conn.client_id, e
-                    );
-                    break 'outer;
+                    error!("Error reading from client {}: {}", client_id, e);
+                    return;
                 }
             }
         }
+    };
 
-        tokio::select! {
-            // Handle MQTT messages, client facing.
-            n = conn.read_h.read_buf(parser.buffer_mut()) => {
-                match n {
-                    Ok(0) => {
-                        info!("Client {} disconnected (EOF)", conn.client_id);
-                        break 'outer;
-                    }
-                    Ok(_) => {}
-                    Err(e) => {
-                        error!("Error reading from client {}: {}", conn.client_id, e);
-                        break 'outer;
-                    }
-                }
-            }
-
-            // Handle gRPC messages, s-proxy facing
-            msg = inbound_stream.next() => {
-                match msg {
-                    Some(Ok(stream_msg)) => {
-                        if let Some(packet) = convert_stream_message_to_mqtt_packet(stream_msg) {
-                            if let Ok(mqtt_bytes) = packet.to_bytes() {
-                                if let Err(e) = conn.write_h.write_all(&mqtt_bytes).await {
-                                    error!("Failed to write MQTT response to client {}: {}, grpc payload: {:?}", conn.client_id, e, packet);
-                                    break;
-                                }
-                                debug!("Forwarded gRPC message to MQTT client {}: {:?}", conn.client_id, packet);
-                            } else {
-                                error!("Failed to convert payload to MQTT bytes for client {}: {:?}", conn.client_id, packet);
+    // Handle gRPC messages, s-proxy facing
+    let to_client = async {
+        loop {
+            match inbound_stream.next().await {
+                Some(Ok(stream_msg)) => {
+                    if let Some(packet) = convert_stream_message_to_mqtt_packet(stream_msg) {
+                        if let Ok(mqtt_bytes) = packet.to_bytes() {
+                            if let Err(e) = write_h.write_all(&mqtt_bytes).await {
+                                error!("Failed to write MQTT response to client {}: {}, grpc payload: {:?}", client_id, e, packet);
+                                return;
                             }
+                            debug!(
+                                "Forwarded gRPC message to MQTT client {}: {:?}",
+                                client_id, packet
+                            );
                         } else {
-                            error!("Failed to convert stream message to MQTT packet");
+                            error!(
+                                "Failed to convert payload to MQTT bytes for client {}: {:?}",
+                                client_id, packet
+                            );
                         }
-                    }
-                    Some(Err(e)) => {
-                        error!("gRPC stream error for client {}: {}", conn.client_id, e);
-                        break;
-                    }
-                    None => {
-                        info!("gRPC stream closed for client {}", conn.client_id);
-                        break;
+                    } else {
+                        error!("Failed to convert stream message to MQTT packet");
                     }
                 }
+                Some(Err(e)) => {
+                    error!("gRPC stream error for client {}: {}", client_id, e);
+                    return;
+                }
+                None => {
+                    info!("gRPC stream closed for client {}", client_id);
+                    return;
+                }
             }
         }
+    };
+
+    tokio::select! {
+        _ = from_client => {}
+        _ = to_client => {}
     }
 
     info!(
diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index e062ad8..14d82e2 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -189,76 +189,85 @@ async fn mqtt_client_loop_simple(
     let mut parser = MqttParser::new(16384, mqtt_version); // 16KB buffer
     let mut sequence_counter = 1u64;
 
-    'outer: loop {
-        tokio::select! {
-            // Handle control messages from r-proxy
-            control_msg = rx.recv() => {
-                let Some(BrokerControlMessage::Packet(packet)) = control_msg else {
-                    // The client side has ended and everything it sent is written
-                    info!("Client stream ended, exiting MQTT client loop for session: {}", session_id);
-                    break;
-                };
-                debug!("Processing control message for broker");
-
-                // Convert control message to MQTT bytes and send to broker
-                let mqtt_bytes = match packet.to_bytes() {
-                    Ok(mqtt_bytes) => mqtt_bytes,
-                    Err(e) => {
-                        error!("Failed to encode packet for broker: {}", e);
-                        break;
-                    }
-                };
-
-                if let Err(e) = stream.write_all(&mqtt_bytes).await {
-                    error!("Failed to write to broker: {}", e);
-                    break;
+    // The two directions run side by side: neither waits for the other one's receiver
+    let (mut read_h, mut write_h) = stream.split();
+
+    // Handle control messages from r-proxy
+    let to_broker = async {
+        while let Some(BrokerControlMessage::Packet(packet)) = rx.recv().await {
+            debug!("Processing control message for broker");
+
+            // Convert control message to MQTT bytes and send to broker
+            let mqtt_bytes = match packet.to_bytes() {
+                Ok(mqtt_bytes) => mqtt_bytes,
+                Err(e) => {
+                    error!("Failed to encode packet for broker: {}", e);
+                    return;
                 }
+            };
+
+            if let Err(e) = write_h.write_all(&mqtt_bytes).await {
+                error!("Failed to write to broker: {}", e);
+                return;
             }
-            // Handle incoming data from the broker
-            result = stream.read_buf(parser.buffer_mut()) => {
-                match result {
-                    Ok(0) => {
-                        info!("Connection closed by the broker");
-                        break;
-                    }
-                    Ok(n) => {
-                        debug!("Read {} bytes from broker", n);
-                        loop {
-                            let packet = match parser.next_packet() {
-                                Ok(Some(packet)) => packet,
-                                Ok(None) => break,
-                                Err(e) => {
-                                    error!("Error parsing MQTT packet from broker: {}", e);
-                                    break 'outer;
-                                }
-                            };
-                            debug!("Received packet from broker: {:?}", packet);
-
-                            // Convert MQTT packet to gRPC stream message and forward to r-proxy
-                            // Note: session_id is sent via gRPC metadata, not in the message
-                            if let Some(stream_msg) = convert_mqtt_to_stream_message(
-                                &packet,
-                                sequence_counter,
-                                mqtt_unified_pb::MessageDirection::BrokerToClient,
-                            ) {
-                                sequence_counter += 1;
-
-                                if let Err(e) = response_tx.send(Ok(stream_msg)).await {
-                                    error!("Failed to send message to r-proxy via stream: {}", e);
-                                    break 'outer;
-                                }
+        }
+        // The client side has ended and everything it sent is written
+        info!(
+            "Client stream ended, exiting MQTT client loop for session: {}",
+            session_id
+        );
+    };
+
+    // Handle incoming data from the broker
+    let from_broker = async {
+        loop {
+            match read_h.read_buf(parser.buffer_mut()).await {
+                Ok(0) => {
+                    info!("Connection closed by the broker");
+                    return;
+                }
+                Ok(n) => {
+                    debug!("Read {} bytes from broker", n);
+                    loop {
+                        let packet = match parser.next_packet() {
+                            Ok(Some(packet)) => packet,
+                            Ok(None) => break,
+                            Err(e) => {
+                                error!("Error parsing MQTT packet from broker: {}", e);
+                                return;
+                            }
+                        };
+                        debug!("Received packet from broker: {:?}", packet);
+
+                        // Convert MQTT packet to gRPC stream message and forward to r-proxy
+                        // Note: session_id is sent via gRPC metadata, not in the message
+                        if let Some(stream_msg) = convert_mqtt_to_stream_message(
+                            &packet,
+                            sequence_counter,
+                            mqtt_unified_pb::MessageDirection::BrokerToClient,
+                        ) {
+                            sequence_counter += 1;
+
+                            if let Err(e) = response_tx.send(Ok(stream_msg)).await {
+                                error!("Failed to send message to r-proxy via stream: {}", e);
+                                return;
                             }
-
-                            debug!("Processed packet from broker, continuing to next packet");
                         }
+
+                        debug!("Processed packet from broker, continuing to next packet");
                     }
-                    Err(e) => {
-                        error!("Error reading from stream: {}", e);
-                        break;
-                    }
+                }
+                Err(e) => {
+                    error!("Error reading from stream: {}", e);
+                    return;
                 }
             }
         }
+    };
+
+    tokio::select! {
+        _ = to_broker => {}
+        _ = from_broker => {}
     }
 }
 
-- 
2.43.0


From de0269f3de74642ca32c6f7fe2cdfbb693c8c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:40 +0000
Subject: [PATCH 83/92] fix: the relay does not throw away its last packets
 when it closes

---
 mqtt_grpc_duality/src/bin/r-proxy.rs | 27 +++++++++++++++++++++++----
 mqtt_grpc_duality/src/bin/s-proxy.rs | 10 ++++++++++
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/mqtt_grpc_duality/src/bin/r-proxy.rs b/mqtt_grpc_duality/src/bin/r-proxy.rs
index 77f364a..cf9f7a0 100644
--- a/mqtt_grpc_duality/src/bin/r-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/r-proxy.rs
@@ -29,6 +29,9 @@ use dashmap::DashMap;
 use mqtt_grpc_proxy::mqtt_unified_pb::mqtt_relay_service_client::MqttRelayServiceClient;
 use mqtt_grpc_proxy::mqtt_unified_pb::MqttStreamMessage;
 
+/// How long a connection that has been shut down may take to end
+const LINGER: std::time::Duration = std::time::Duration::from_secs(5);
+
 // Enhanced connection structure for streaming
 pub struct StreamingClientConnection {
     pub session_id: String,
@@ -406,10 +409,26 @@ async fn start_streaming_loop(
         conn.session_id, conn.client_id
     );
 
-    // Close the client connection and end the outbound stream, but see the inbound stream to its
-    // end: dropping it now would cancel the RPC along with messages that are still on their way.
-    drop(conn);
-    while let Some(Ok(_)) = inbound_stream.next().await {}
+    // End the outbound stream, but see the inbound stream to its end: dropping it now would cancel
+    // the RPC along with messages that are still on their way.
+    let StreamingClientConnection {
+        mut write_h,
+        mut read_h,
+        grpc_stream_sender,
+        ..
+    } = conn;
+    drop(grpc_stream_sender);
+    let grpc_rest = async { while let Some(Ok(_)) = inbound_stream.next().await {} };
+
+    // Closing a socket with unread data resets it, and what the client has not received yet is lost
+    let client_rest = async {
+        let _ = write_h.shutdown().await;
+        let mut sink = tokio::io::sink();
+        let rest = tokio::io::copy(&mut read_h, &mut sink);
+        let _ = tokio::time::timeout(LINGER, rest).await;
+        drop((write_h, read_h));
+    };
+    tokio::join!(grpc_rest, client_rest);
     Ok(())
 }
 
diff --git a/mqtt_grpc_duality/src/bin/s-proxy.rs b/mqtt_grpc_duality/src/bin/s-proxy.rs
index 14d82e2..5eda7ec 100644
--- a/mqtt_grpc_duality/src/bin/s-proxy.rs
+++ b/mqtt_grpc_duality/src/bin/s-proxy.rs
@@ -28,6 +28,9 @@ pub enum BrokerControlMessage {
     Packet(MqttPacket),
 }
 
+/// How long a connection that has been shut down may take to end
+const LINGER: std::time::Duration = std::time::Duration::from_secs(5);
+
 #[derive(Debug)]
 pub struct MyRelay {
     broker_addr: SocketAddr,
@@ -269,6 +272,13 @@ async fn mqtt_client_loop_simple(
         _ = to_broker => {}
         _ = from_broker => {}
     }
+    drop(response_tx);
+
+    // Closing a socket with unread data resets it, and what the broker has not received yet is lost
+    let _ = stream.shutdown().await;
+    let mut sink = tokio::io::sink();
+    let rest = tokio::io::copy(&mut stream, &mut sink);
+    let _ = tokio::time::timeout(LINGER, rest).await;
 }
 
 #[tokio::main]
-- 
2.43.0


From fd408c3fb3964b404d417e38ddea00707f2e1936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:31 +0000
Subject: [PATCH 84/92] fix: the tokio client stays responsive while it
 connects

---
 src/mqtt_client/opts.rs               |  1 +
 src/mqtt_client/tokio_async_client.rs | 89 ++++++++++++++++++---------
 2 files changed, 62 insertions(+), 28 deletions(-)

diff --git a/src/mqtt_client/opts.rs b/src/mqtt_client/opts.rs
index 8192151..5174ded 100644
--- a/src/mqtt_client/opts.rs
+++ b/src/mqtt_client/opts.rs
@@ -16,6 +16,7 @@ pub enum TlsBackend {
     Rustls,
 }
 
+#[derive(Clone)]
 pub struct MqttClientOptions {
     pub peer: String,
     pub client_id: String,
diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 19a6bc9..0069a81 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -1,6 +1,7 @@
 // SPDX-License-Identifier: MPL-2.0
 
 use std::collections::{HashMap, VecDeque};
+use std::future::Future;
 use std::io;
 #[cfg(feature = "quic")]
 use std::net::SocketAddr;
@@ -1695,6 +1696,9 @@ impl TokioAsyncMqttClient {
     }
 }
 
+/// A connection attempt under way
+type Connecting = Pin<Box<dyn Future<Output = Result<BoxedTransport, MqttClientError>> + Send>>;
+
 /// Worker task that handles MQTT operations using tokio
 struct TokioClientWorker {
     /// MQTT engine (Sans-I/O)
@@ -1710,6 +1714,8 @@ struct TokioClientWorker {
     config: TokioAsyncClientConfig,
     /// Transport connection to MQTT broker (TCP or TLS)
     stream: Option<BoxedTransport>,
+    /// Connection attempt under way
+    connecting: Option<Connecting>,
 
     /// Pending synchronous publish operations keyed by packet identifier
     pending_publishes: HashMap<u16, tokio::sync::oneshot::Sender<PublishResult>>,
@@ -1750,6 +1756,7 @@ impl TokioClientWorker {
             command_rx,
             config,
             stream: None,
+            connecting: None,
             pending_publishes: HashMap::new(),
             pending_connects: Vec::new(),
             pending_subscribes_sync: HashMap::new(),
@@ -1917,6 +1924,17 @@ impl TokioClientWorker {
                     }
                 }
 
+                // The connection attempt under way
+                transport = async {
+                    match &mut self.connecting {
+                        Some(connecting) => connecting.await,
+                        None => std::future::pending().await,
+                    }
+                } => {
+                    self.connecting = None;
+                    self.handle_transport(transport).await;
+                }
+
                 // INGRESS: Read raw bytes from transport
                 read_result = async {
                     if let Some(stream) = &mut self.stream {
@@ -2058,23 +2076,22 @@ impl TokioClientWorker {
     /// - `mqtt://host:port` or `host:port` → TCP transport
     /// - `mqtts://host:port` → TLS transport (requires `tls` feature)
     /// - `quic://host:port` → QUIC transport (requires `quic` feature)
-    async fn create_transport(&self, peer: &str) -> Result<BoxedTransport, MqttClientError> {
+    async fn create_transport(
+        options: MqttClientOptions,
+        config: TokioAsyncClientConfig,
+    ) -> Result<BoxedTransport, MqttClientError> {
+        let peer = options.peer.as_str();
         // Parse URL scheme
         if peer.starts_with("mqtts://") {
             // Decide which TLS backend to use based on options.tls_backend
             #[cfg(any(feature = "tls", feature = "rustls-tls"))]
             {
                 let addr = peer.strip_prefix("mqtts://").unwrap_or(peer);
-                match self.engine.options().tls_backend {
+                match options.tls_backend {
                     #[cfg(feature = "rustls-tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Rustls) => {
-                        let mut rustls_cfg = self
-                            .engine
-                            .options()
-                            .rustls_tls_config
-                            .clone()
-                            .unwrap_or_default();
-                        if self.config.tls_enable_key_log {
+                        let mut rustls_cfg = options.rustls_tls_config.clone().unwrap_or_default();
+                        if config.tls_enable_key_log {
                             rustls_cfg.enable_key_log = true;
                         }
                         let transport =
@@ -2094,7 +2111,7 @@ impl TokioClientWorker {
                     }
                     #[cfg(feature = "tls")]
                     Some(crate::mqtt_client::opts::TlsBackend::Native) => {
-                        let tls_cfg = self.engine.options().tls_config.clone().unwrap_or_default();
+                        let tls_cfg = options.tls_config.clone().unwrap_or_default();
                         let transport = TlsTransport::connect_with_config(addr, &tls_cfg)
                             .await
                             .map_err(|e| MqttClientError::ConnectionLost {
@@ -2123,8 +2140,7 @@ impl TokioClientWorker {
                         // Backward compatibility: default to Native if available
                         #[cfg(feature = "tls")]
                         {
-                            let tls_cfg =
-                                self.engine.options().tls_config.clone().unwrap_or_default();
+                            let tls_cfg = options.tls_config.clone().unwrap_or_default();
                             let transport = TlsTransport::connect_with_config(addr, &tls_cfg)
                                 .await
                                 .map_err(|e| MqttClientError::ConnectionLost {
@@ -2165,15 +2181,15 @@ impl TokioClientWorker {
                 // Build QUIC config from TokioAsyncClientConfig
                 let mut builder = QuicConfig::builder()
                     .alpn(b"mqtt")
-                    .enable_0rtt(self.config.quic_enable_0rtt);
+                    .enable_0rtt(config.quic_enable_0rtt);
 
                 // Apply insecure skip verify if configured
-                if self.config.quic_insecure_skip_verify {
+                if config.quic_insecure_skip_verify {
                     builder = builder.insecure_skip_verify(true);
                 }
 
                 // Apply custom root CA if configured
-                if let Some(ref ca_pem) = self.config.quic_custom_root_ca_pem {
+                if let Some(ref ca_pem) = config.quic_custom_root_ca_pem {
                     builder = builder
                         .custom_roots_from_pem(ca_pem.as_bytes())
                         .map_err(|e| MqttClientError::ConnectionLost {
@@ -2182,10 +2198,9 @@ impl TokioClientWorker {
                 }
 
                 // Apply client cert and key for mTLS if configured
-                if let (Some(ref cert_pem), Some(ref key_pem)) = (
-                    &self.config.quic_client_cert_pem,
-                    &self.config.quic_client_key_pem,
-                ) {
+                if let (Some(ref cert_pem), Some(ref key_pem)) =
+                    (&config.quic_client_cert_pem, &config.quic_client_key_pem)
+                {
                     builder = builder
                         .client_cert_chain_from_pem(cert_pem.as_bytes())
                         .map_err(|e| MqttClientError::ConnectionLost {
@@ -2197,17 +2212,16 @@ impl TokioClientWorker {
                         })?;
                 }
 
-                if self.config.quic_datagram_receive_buffer_size > 0 {
-                    builder = builder.datagram_receive_buffer_size(
-                        self.config.quic_datagram_receive_buffer_size,
-                    );
+                if config.quic_datagram_receive_buffer_size > 0 {
+                    builder = builder
+                        .datagram_receive_buffer_size(config.quic_datagram_receive_buffer_size);
                 }
 
-                if self.config.quic_enable_key_log {
+                if config.quic_enable_key_log {
                     builder = builder.enable_key_log(true);
                 }
 
-                if let Some(local_bind_addr) = self.config.quic_local_bind_addr {
+                if let Some(local_bind_addr) = config.quic_local_bind_addr {
                     builder = builder.local_bind_addr(local_bind_addr);
                 }
                 let cfg = builder.build();
@@ -2246,13 +2260,31 @@ impl TokioClientWorker {
     /// Handle connecting to broker
     async fn handle_connect(&mut self) {
         // Avoid concurrent connect attempts if a socket already exists
-        if self.stream.is_some() {
+        if self.stream.is_some() || self.connecting.is_some() {
             return;
         }
 
-        let peer = self.engine.options().peer.clone();
+        // The attempt goes on in the event loop, which stays responsive
+        let attempt = Self::create_transport(self.engine.options().clone(), self.config.clone());
+        let limit = self.config.connect_timeout_ms;
+        self.connecting = Some(Box::pin(async move {
+            match limit {
+                Some(ms) => tokio::time::timeout(Duration::from_millis(ms), attempt)
+                    .await
+                    .unwrap_or_else(|_| {
+                        Err(MqttClientError::OperationTimeout {
+                            operation: "connect".to_string(),
+                            timeout_ms: ms,
+                        })
+                    }),
+                None => attempt.await,
+            }
+        }));
+    }
 
-        match self.create_transport(&peer).await {
+    /// Handle the outcome of a connection attempt
+    async fn handle_transport(&mut self, transport: Result<BoxedTransport, MqttClientError>) {
+        match transport {
             Ok(transport) => {
                 if self.config.tcp_nodelay {
                     if let Err(e) = transport.set_nodelay(true) {
@@ -2430,6 +2462,7 @@ impl TokioClientWorker {
             self.event_handler.on_error(&e).await;
         }
         let stream = self.stream.take();
+        self.connecting = None;
         self.engine.handle_connection_lost();
         self.engine.reset_reconnect_state();
         self.engine_last_connected = false;
-- 
2.43.0


From c3bda159341de8c9a9b3feaa564dae522b66c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:31 +0000
Subject: [PATCH 85/92] fix: the tokio client stays responsive while the server
 does not read

---
 src/mqtt_client/tokio_async_client.rs | 129 +++++++++++++++++---------
 1 file changed, 86 insertions(+), 43 deletions(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index 0069a81..f9041e2 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -6,11 +6,13 @@ use std::io;
 #[cfg(feature = "quic")]
 use std::net::SocketAddr;
 use std::pin::Pin;
+use std::task::{ready, Context, Poll};
 use std::time::{Duration, Instant};
 
 use async_trait::async_trait;
+use bytes::{Buf, BytesMut};
 
-use tokio::io::{AsyncReadExt, AsyncWriteExt};
+use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
 use tokio::sync::mpsc;
 use tokio::sync::oneshot;
 use tokio::time::Sleep;
@@ -1699,6 +1701,50 @@ impl TokioAsyncMqttClient {
 /// A connection attempt under way
 type Connecting = Pin<Box<dyn Future<Output = Result<BoxedTransport, MqttClientError>> + Send>>;
 
+/// Once this many bytes wait for the transport, commands wait as well
+const MAX_OUTGOING: usize = 1024 * 1024;
+
+/// Give the transport what it takes of the outgoing bytes
+fn poll_send(
+    stream: &mut BoxedTransport,
+    outgoing: &mut BytesMut,
+    cx: &mut Context<'_>,
+) -> Poll<io::Result<()>> {
+    while !outgoing.is_empty() {
+        match ready!(Pin::new(&mut *stream).poll_write(cx, outgoing))? {
+            0 => return Poll::Ready(Err(io::ErrorKind::WriteZero.into())),
+            n => outgoing.advance(n),
+        }
+    }
+    Pin::new(stream).poll_flush(cx)
+}
+
+/// Move bytes both ways, so that neither direction waits for the other, until some arrive
+/// or the connection ends (`None`)
+fn poll_transport(
+    stream: &mut BoxedTransport,
+    outgoing: &mut BytesMut,
+    cx: &mut Context<'_>,
+) -> Poll<io::Result<Option<Vec<u8>>>> {
+    let sent = poll_send(stream, outgoing, cx);
+
+    let mut buffer = vec![0u8; 4096];
+    let mut read = ReadBuf::new(&mut buffer);
+    match Pin::new(stream).poll_read(cx, &mut read) {
+        Poll::Ready(Ok(())) => {
+            let n = read.filled().len();
+            buffer.truncate(n);
+            Poll::Ready(Ok(Some(buffer).filter(|b| !b.is_empty())))
+        }
+        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
+        // A server that has closed may have said something before, so this comes last
+        Poll::Pending => match sent {
+            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
+            _ => Poll::Pending,
+        },
+    }
+}
+
 /// Worker task that handles MQTT operations using tokio
 struct TokioClientWorker {
     /// MQTT engine (Sans-I/O)
@@ -1716,6 +1762,8 @@ struct TokioClientWorker {
     stream: Option<BoxedTransport>,
     /// Connection attempt under way
     connecting: Option<Connecting>,
+    /// Bytes the transport has not taken yet
+    outgoing: BytesMut,
 
     /// Pending synchronous publish operations keyed by packet identifier
     pending_publishes: HashMap<u16, tokio::sync::oneshot::Sender<PublishResult>>,
@@ -1757,6 +1805,7 @@ impl TokioClientWorker {
             config,
             stream: None,
             connecting: None,
+            outgoing: BytesMut::new(),
             pending_publishes: HashMap::new(),
             pending_connects: Vec::new(),
             pending_subscribes_sync: HashMap::new(),
@@ -1866,28 +1915,21 @@ impl TokioClientWorker {
         }
     }
 
-    /// Take outgoing bytes from engine and write to transport
-    async fn write_to_transport(&mut self, data: &[u8]) -> Result<(), MqttClientError> {
-        if let Some(stream) = &mut self.stream {
-            stream
-                .write_all(data)
-                .await
-                .map_err(|e| MqttClientError::from_io_error(e, "transport write"))
-        } else {
-            Err(MqttClientError::NotConnected)
-        }
-    }
-
-    async fn handle_outgoing(&mut self) -> Result<(), MqttClientError> {
+    /// Take outgoing bytes from engine and give the transport what it takes at once
+    async fn handle_outgoing(&mut self) {
         // Without a connection there is nowhere to send to, and nothing to lose
-        if self.stream.is_none() {
-            return Ok(());
-        }
-        let bytes = self.engine.take_outgoing();
-        if !bytes.is_empty() {
-            self.write_to_transport(&bytes).await?;
-        }
-        Ok(())
+        let Some(stream) = &mut self.stream else {
+            return;
+        };
+        self.outgoing
+            .extend_from_slice(&self.engine.take_outgoing());
+        let outgoing = &mut self.outgoing;
+        std::future::poll_fn(|cx| {
+            // An error comes again when the transport is polled for data
+            let _ = poll_send(stream, outgoing, cx);
+            Poll::Ready(())
+        })
+        .await
     }
 
     /// Update the tick timer (for keep-alive and retransmissions)
@@ -1913,7 +1955,7 @@ impl TokioClientWorker {
 
             tokio::select! {
                 // Handle COMMANDS from the client API - highest priority
-                cmd = self.command_rx.recv() => {
+                cmd = self.command_rx.recv(), if self.outgoing.len() < MAX_OUTGOING => {
                     match cmd {
                         Some(command) => {
                             if !self.handle_command(command).await {
@@ -1935,20 +1977,14 @@ impl TokioClientWorker {
                     self.handle_transport(transport).await;
                 }
 
-                // INGRESS: Read raw bytes from transport
+                // Raw bytes from and to the transport
                 read_result = async {
-                    if let Some(stream) = &mut self.stream {
-                        let mut buffer = vec![0u8; 4096];
-                        match stream.read(&mut buffer).await {
-                            Ok(0) => Ok(None),
-                            Ok(n) => {
-                                buffer.truncate(n);
-                                Ok(Some(buffer))
-                            }
-                            Err(e) => Err(e),
+                    match &mut self.stream {
+                        Some(stream) => {
+                            let outgoing = &mut self.outgoing;
+                            std::future::poll_fn(|cx| poll_transport(stream, outgoing, cx)).await
                         }
-                    } else {
-                        std::future::pending::<io::Result<Option<Vec<u8>>>>().await
+                        None => std::future::pending().await,
                     }
                 } => {
                     match read_result {
@@ -1973,7 +2009,7 @@ impl TokioClientWorker {
                             self.handle_connection_lost().await;
                         }
                         Err(e) => {
-                            let mqtt_err = MqttClientError::from_io_error(e, "transport read");
+                            let mqtt_err = MqttClientError::from_io_error(e, "transport");
                             self.event_handler.on_error(&mqtt_err).await;
                             self.handle_connection_lost().await;
                         }
@@ -1996,15 +2032,21 @@ impl TokioClientWorker {
             }
 
             // Always check for outgoing data after any internal state change
-            if let Err(e) = self.handle_outgoing().await {
-                self.event_handler.on_error(&e).await;
-                self.handle_connection_lost().await;
-            }
+            self.handle_outgoing().await;
 
             // Events that none of the above has handed out, such as a scheduled reconnect
             let events = self.engine.take_events();
             self.dispatch_events(events).await;
         }
+
+        // What was sent before the shutdown gets out
+        if let Some(stream) = &mut self.stream {
+            let _ = tokio::time::timeout(Duration::from_secs(5), async {
+                stream.write_all(&self.outgoing).await?;
+                stream.flush().await
+            })
+            .await;
+        }
     }
 
     /// Handle commands from the client API
@@ -2458,10 +2500,9 @@ impl TokioClientWorker {
     /// Handle disconnect command
     async fn handle_disconnect(&mut self) {
         self.engine.disconnect();
-        if let Err(e) = self.handle_outgoing().await {
-            self.event_handler.on_error(&e).await;
-        }
+        self.handle_outgoing().await;
         let stream = self.stream.take();
+        let outgoing = std::mem::take(&mut self.outgoing);
         self.connecting = None;
         self.engine.handle_connection_lost();
         self.engine.reset_reconnect_state();
@@ -2475,6 +2516,7 @@ impl TokioClientWorker {
             // Let the DISCONNECT get out, and give the server time to take it and close
             tokio::spawn(async move {
                 let _ = tokio::time::timeout(Duration::from_secs(5), async {
+                    stream.write_all(&outgoing).await?;
                     stream.shutdown().await?;
                     let mut buffer = [0u8; 1024];
                     while stream.read(&mut buffer).await? > 0 {}
@@ -2488,6 +2530,7 @@ impl TokioClientWorker {
     /// Handle connection lost
     async fn handle_connection_lost(&mut self) {
         self.stream = None;
+        self.outgoing.clear();
         self.engine.handle_connection_lost();
         self.engine_last_connected = false;
         self.fail_pending_operations();
-- 
2.43.0


From 6dd5d1182a9c96441f28d89915a9d60ee180c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:48 +0000
Subject: [PATCH 86/92] fix: the C interface's QUIC client offers the protocol
 it is told to

---
 flowsdk_ffi/src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/flowsdk_ffi/src/engine.rs b/flowsdk_ffi/src/engine.rs
index 8fdb051..7d96d8c 100644
--- a/flowsdk_ffi/src/engine.rs
+++ b/flowsdk_ffi/src/engine.rs
@@ -1420,12 +1420,17 @@ pub unsafe extern "C" fn mqtt_quic_engine_connect(
                         .into_owned(),
                 )
             };
+            let alpn_protocols = if r.alpn.is_null() {
+                vec!["mqtt".to_string()]
+            } else {
+                vec![CStr::from_ptr(r.alpn).to_string_lossy().into_owned()]
+            };
             MqttTlsOptionsFFI {
                 ca_cert_file,
                 client_cert_file,
                 client_key_file,
                 insecure_skip_verify: r.insecure_skip_verify != 0,
-                alpn_protocols: vec!["mqtt".to_string()],
+                alpn_protocols,
                 enable_key_log: r.enable_key_log != 0,
             }
         };
-- 
2.43.0


From 6de9f2dd85285c5ce06ef4b51883535541585d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:00 +0000
Subject: [PATCH 87/92] fix: the tokio client gives up a connection only when
 the server has got everything

---
 src/mqtt_client/tokio_async_client.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mqtt_client/tokio_async_client.rs b/src/mqtt_client/tokio_async_client.rs
index f9041e2..27409fb 100644
--- a/src/mqtt_client/tokio_async_client.rs
+++ b/src/mqtt_client/tokio_async_client.rs
@@ -2043,7 +2043,12 @@ impl TokioClientWorker {
         if let Some(stream) = &mut self.stream {
             let _ = tokio::time::timeout(Duration::from_secs(5), async {
                 stream.write_all(&self.outgoing).await?;
-                stream.flush().await
+                // A transport that is dropped may forget what it has taken, so it is given
+                // up only after the server has closed as well
+                stream.shutdown().await?;
+                let mut buffer = [0u8; 1024];
+                while stream.read(&mut buffer).await? > 0 {}
+                io::Result::Ok(())
             })
             .await;
         }
-- 
2.43.0


From c753c9da9aafdd358b05e641019053cc0b0f15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:00 +0000
Subject: [PATCH 88/92] fix: QuicTransport::close delivers what has been
 written

---
 src/mqtt_client/transport/quic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index cda6e62..459a271 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -21,6 +21,7 @@ mod imp {
     use rustls_pki_types::{CertificateDer, PrivateKeyDer, UnixTime};
     use std::convert::TryFrom;
     use std::sync::Arc;
+    use std::time::Duration;
 
     /// ⚠️ DANGEROUS: A certificate verifier that accepts all certificates without validation.
     /// This should ONLY be used for testing and development!
@@ -535,10 +536,10 @@ mod imp {
         }
 
         async fn close(&mut self) -> Result<(), TransportError> {
-            // Finish the send stream
-            self.send.finish().map_err(|e| {
-                TransportError::ConnectionFailed(format!("QUIC send finish failed: {}", e))
-            })?;
+            // Finish the send stream, unless it has been shut down already
+            let _ = self.send.finish();
+            // Closing the connection discards what the peer has not received yet
+            let _ = tokio::time::timeout(Duration::from_secs(5), self.send.stopped()).await;
             self.connection.close(0u32.into(), b"client close");
             Ok(())
         }
-- 
2.43.0


From e3938ae5625cde055bdc1abd6cf437441a25c248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:00 +0000
Subject: [PATCH 89/92] fix: the QUIC client of tokio's goes on while its
 events are not read

---
 src/mqtt_client/tokio_quic_client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mqtt_client/tokio_quic_client.rs b/src/mqtt_client/tokio_quic_client.rs
index e0d054b..d25680f 100644
--- a/src/mqtt_client/tokio_quic_client.rs
+++ b/src/mqtt_client/tokio_quic_client.rs
@@ -16,7 +16,7 @@ type CommandResult<T> = Result<T, CommandError>;
 /// Ideally you prefer to use tokio_async_client instead.
 pub struct TokioQuicMqttClient {
     command_tx: mpsc::Sender<QuicCommand>,
-    event_rx: mpsc::Receiver<MqttEvent>,
+    event_rx: mpsc::UnboundedReceiver<MqttEvent>,
 }
 
 pub enum QuicCommand {
@@ -52,7 +52,8 @@ impl TokioQuicMqttClient {
     /// Create a new TokioQuicMqttClient.
     pub fn new(options: MqttClientOptions) -> Result<Self, Box<dyn std::error::Error>> {
         let (command_tx, command_rx) = mpsc::channel(100);
-        let (event_tx, event_rx) = mpsc::channel(100);
+        // Unbounded, so that the loop goes on while the application does not read events
+        let (event_tx, event_rx) = mpsc::unbounded_channel();
 
         let engine = QuicMqttEngine::new(options)?;
 
@@ -167,7 +168,7 @@ impl TokioQuicMqttClient {
 async fn run_engine_loop(
     mut engine: QuicMqttEngine,
     mut command_rx: mpsc::Receiver<QuicCommand>,
-    event_tx: mpsc::Sender<MqttEvent>,
+    event_tx: mpsc::UnboundedSender<MqttEvent>,
 ) -> CommandResult<()> {
     let mut socket: Option<UdpSocket> = None;
     let mut interval = tokio::time::interval(Duration::from_millis(10));
@@ -237,7 +238,7 @@ async fn run_engine_loop(
             _ = interval.tick() => {
                 let events = engine.handle_tick(Instant::now());
                 for event in events {
-                    if (event_tx.send(event).await).is_err() {
+                    if event_tx.send(event).is_err() {
                         return Ok(());
                     }
                 }
-- 
2.43.0


From 1fceef70e3cd4abf99f20db2d3122a961206ce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:00 +0000
Subject: [PATCH 90/92] fix: dropping the QUIC client of tokio's ends its
 connection

---
 src/mqtt_client/tokio_quic_client.rs | 31 +++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/mqtt_client/tokio_quic_client.rs b/src/mqtt_client/tokio_quic_client.rs
index d25680f..5f55efb 100644
--- a/src/mqtt_client/tokio_quic_client.rs
+++ b/src/mqtt_client/tokio_quic_client.rs
@@ -9,6 +9,9 @@ use std::time::{Duration, Instant};
 use tokio::net::UdpSocket;
 use tokio::sync::{mpsc, oneshot};
 
+/// How long the connection of a dropped client is kept for the server to close it.
+const CLOSE_TIMEOUT: Duration = Duration::from_secs(5);
+
 type CommandError = Box<dyn std::error::Error + Send + Sync>;
 type CommandResult<T> = Result<T, CommandError>;
 
@@ -175,10 +178,17 @@ async fn run_engine_loop(
     let mut outgoing_buffer: VecDeque<(SocketAddr, Vec<u8>)> = VecDeque::new();
     //@TODO: 2048 should be enough for most cases, make it configurable for large datagrams.
     let mut buf = [0u8; 2048];
+    // Set when the client has been dropped: when to give up waiting for the server
+    let mut closing: Option<tokio::time::Instant> = None;
+    let mut closed = true;
 
     loop {
         tokio::select! {
-            Some(cmd) = command_rx.recv() => {
+            cmd = command_rx.recv(), if closing.is_none() => {
+                let Some(cmd) = cmd else {
+                    closing = Some(tokio::time::Instant::now() + CLOSE_TIMEOUT);
+                    continue;
+                };
                 match cmd {
                     QuicCommand::Connect { server_addr, server_name, crypto, local_bind_addr, resp } => {
                         let res = (|| -> CommandResult<()> {
@@ -187,6 +197,7 @@ async fn run_engine_loop(
                             std_socket.set_nonblocking(true)?;
                             socket = Some(UdpSocket::from_std(std_socket)?);
                             engine.connect(server_addr, &server_name, *crypto, Instant::now())?;
+                            closed = false;
                             Ok(())
                         })();
                         let _ = resp.send(res);
@@ -238,8 +249,19 @@ async fn run_engine_loop(
             _ = interval.tick() => {
                 let events = engine.handle_tick(Instant::now());
                 for event in events {
-                    if event_tx.send(event).is_err() {
-                        return Ok(());
+                    if let MqttEvent::TransportClosed { .. } = event {
+                        closed = true;
+                    }
+                    let _ = event_tx.send(event);
+                }
+                if let Some(deadline) = closing {
+                    // The server closes the connection when it has got everything
+                    // up to the DISCONNECT
+                    engine.disconnect();
+                    if tokio::time::Instant::now() >= deadline {
+                        let _ = engine.close(0, b"");
+                        engine.handle_tick(Instant::now());
+                        closed = true;
                     }
                 }
             }
@@ -261,6 +283,9 @@ async fn run_engine_loop(
                 }
             }
         }
+        if closed && closing.is_some() {
+            return Ok(());
+        }
     }
 }
 
-- 
2.43.0


From 02d78f7d3375c2c3600a2ca1801382fdf5b07502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:19 +0000
Subject: [PATCH 91/92] fix: an idle QUIC connection of the engine is kept

---
 src/mqtt_client/engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqtt_client/engine.rs b/src/mqtt_client/engine.rs
index 06d6bf3..1597b69 100644
--- a/src/mqtt_client/engine.rs
+++ b/src/mqtt_client/engine.rs
@@ -1928,6 +1928,8 @@ impl QuicMqttEngine {
                 message: format!("Failed to convert QUIC idle timeout: {}", e),
             })?;
         transport.max_idle_timeout(Some(idle_timeout));
+        // The MQTT keep alive may be longer still, or disabled
+        transport.keep_alive_interval(Some(std::time::Duration::from_secs(30)));
         client_config.transport_config(Arc::new(transport));
         Ok(client_config)
     }
-- 
2.43.0


From 6a07c1926f16603e31c4033db8c9e678d86485fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:19 +0000
Subject: [PATCH 92/92] fix: an idle QuicTransport is kept

---
 src/mqtt_client/transport/quic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mqtt_client/transport/quic.rs b/src/mqtt_client/transport/quic.rs
index 459a271..84ee085 100644
--- a/src/mqtt_client/transport/quic.rs
+++ b/src/mqtt_client/transport/quic.rs
@@ -465,6 +465,8 @@ mod imp {
             let mut quinn_crypto = ClientConfig::new(Arc::new(quic_client_cfg));
             let mut trpt_cfg = quinn::TransportConfig::default();
             trpt_cfg.datagram_receive_buffer_size(Some(cfg.datagram_receive_buffer_size));
+            // QUIC must not time out before the MQTT keep alive, which may be long or disabled
+            trpt_cfg.keep_alive_interval(Some(Duration::from_secs(10)));
             quinn_crypto.transport_config(Arc::new(trpt_cfg));
 
             let bind_addr = bind_addr_for_peer(peer, cfg.local_bind_addr)?;
-- 
2.43.0

