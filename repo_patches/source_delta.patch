From e0a2eb149da44cdf5d91368ef0a6a51f74422fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:13 +0000
Subject: [PATCH 01/26] fix: encode remaining lengths that need all four bytes

encode_length compared the length of the whole buffer, which already holds
the fixed header byte, with the four bytes a remaining length may take, so
a packet of 2 MiB or more went out with its length cut to three bytes.
---
 src/packets/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index b6e5fb4..de94613 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -133,10 +133,12 @@ where
 
 pub fn encode_length(len: usize, bytes: &mut BytesMut) {
     let mut mlen = len;
+    let mut written = 0;
     loop {
-        if bytes.len() + 1 > MAX_ENCODED_BYTES {
+        if written + 1 > MAX_ENCODED_BYTES {
             return;
         }
+        written += 1;
 
         let mut d = mlen % 128;
         mlen /= 128;
-- 
2.43.0


From d0e9f3e81562e3adcf4bc3235040343643704559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:36 +0000
Subject: [PATCH 02/26] fix: read a packet only from its own bytes

Length fields inside a packet were trusted: a string or payload longer than
the packet was cut short, or read into the packet that follows it, and the
running length then underflowed and panicked (or wrapped in release builds).
---
 src/packets/mod.rs   | 18 ++++++++++++++----
 src/packets/utils.rs | 12 +++++++++++-
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 4edc732..1f6abc8 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -613,10 +613,8 @@ impl VariableHeader {
                 len -= size_of::<u16>();
 
                 while len > 0 {
-                    len -= size_of::<u16>();
-
                     let topic = unpack_string(iter)?;
-                    len -= topic.len();
+                    len -= topic.len() + size_of::<u16>();
 
                     tuples.push(topic);
                 }
@@ -821,7 +819,19 @@ impl Packet {
 
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
-        let variable = VariableHeader::unpack(&mut iter, &fixed, protocal)?;
+        // The variable header and payload are exactly the bytes that remaining length counts.
+        let mut body = iter
+            .as_slice()
+            .get(..fixed.get_remaing_len())
+            .ok_or_else(|| MqttError::MissingByte)?
+            .iter();
+
+        let variable = VariableHeader::unpack(&mut body, &fixed, protocal)?;
+
+        if body.next().is_some() {
+            return Err(MqttError::MalformedRemaingLength);
+        }
+
         Ok((Self { fixed, variable }, len))
     }
 }
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index de94613..d5cec28 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -83,7 +83,13 @@ pub fn unpack_bytes<'a, I>(iter: &mut I, len: usize) -> Result<bytes::Bytes, Mqt
 where
     I: Iterator<Item = &'a u8>,
 {
-    Ok(Bytes::from_iter(iter.take(len).copied()))
+    let data = Bytes::from_iter(iter.take(len).copied());
+
+    if data.len() != len {
+        return Err(MqttError::MissingByte);
+    }
+
+    Ok(data)
 }
 
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
@@ -96,6 +102,10 @@ where
 
     let chars: Vec<u8> = iter.take(len).copied().collect();
 
+    if chars.len() != len {
+        return Err(MqttError::MissingByte);
+    }
+
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
     Ok(result)
-- 
2.43.0


From 4053f1dd7771605bf20a7fd2907f1cafc6fcd854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 03/26] fix: reject packets that MQTT 3.1.1 calls malformed

The SUBSCRIBE flags were checked with && and so never, other packet types'
flags not at all. Packet identifier zero, an empty UNSUBSCRIBE, a topic name
that is empty or has wildcards, U+0000 in a string and contradictory CONNECT
flags were acted on instead of closing the connection.
---
 src/packets/headers/fixed_header.rs | 16 +++++++++++
 src/packets/mod.rs                  | 42 +++++++++++++++++++++--------
 src/packets/utils.rs                | 16 +++++++++++
 3 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/src/packets/headers/fixed_header.rs b/src/packets/headers/fixed_header.rs
index 50fa549..2abc586 100644
--- a/src/packets/headers/fixed_header.rs
+++ b/src/packets/headers/fixed_header.rs
@@ -147,6 +147,22 @@ impl FixedHeader {
     pub fn get_rl_len(&self) -> usize {
         self.remaining_length_bytes
     }
+    /// The flag bits each packet type must have [MQTT-2.2.2-1] [MQTT-2.2.2-2]
+    pub fn check_flags(&self) -> Result<(), MqttError> {
+        let valid = match self.get_packet_type()? {
+            PacketType::Publish => !self.get_dup() || self.get_qos()? > QosLevel::AtMost,
+            PacketType::Pubrel | PacketType::Subscribe | PacketType::Unsubscribe => {
+                self.flags & 0x0F == 0x02
+            }
+            _ => self.flags & 0x0F == 0x00,
+        };
+
+        if valid {
+            Ok(())
+        } else {
+            Err(MqttError::MalformedHeader)
+        }
+    }
     pub fn from_bytes<'a, I>(iter: &mut I, _: Option<&FixedHeader>) -> Result<Self, MqttError>
     where
         I: Iterator<Item = &'a u8>,
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 1f6abc8..7e367a0 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -11,7 +11,9 @@ use crate::{
 use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
-    utils::{encode_length, unpack_bytes, unpack_properties, unpack_string, unpack_u16},
+    utils::{
+        encode_length, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string, unpack_u16,
+    },
 };
 
 #[repr(u8)]
@@ -372,6 +374,13 @@ impl VariableHeader {
                     return Err(MqttError::MalformedHeader);
                 }
 
+                if flags.will_qos()? > QosLevel::AtMost && !flags.will()
+                    || flags.will_retain() && !flags.will()
+                    || flags.has_password() && !flags.has_username()
+                {
+                    return Err(MqttError::MalformedHeader);
+                }
+
                 let keepalive = unpack_u16(iter)?;
 
                 let props = if protocol_version == ProtocalVersion::Five {
@@ -475,6 +484,11 @@ impl VariableHeader {
             PacketType::Publish => {
                 let topic = unpack_string(iter)?;
 
+                // A topic name has at least one character and no wildcards [MQTT-4.7.3-1] [MQTT-3.3.2-2]
+                if topic.is_empty() || topic.contains(['+', '#']) {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 /*
                  * Message len is calculated subtracting the length of the variable header
                  * from the Remaining Length field that is in the Fixed Header
@@ -482,7 +496,7 @@ impl VariableHeader {
                 let mut len = fixed.get_remaing_len();
 
                 let packet_id = if fixed.get_qos()? > QosLevel::AtMost {
-                    let id = Some(unpack_u16(iter)?);
+                    let id = Some(unpack_packet_id(iter)?);
                     len -= size_of::<u16>();
                     id
                 } else {
@@ -508,7 +522,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Puback => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubAck {
                     packet_id: id,
                     reason_string: None,
@@ -516,7 +530,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubrec => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubRec {
                     packet_id: id,
                     reason_code: PubRecReasonCode::Success,
@@ -525,7 +539,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubrel => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubRel {
                     packet_id: id,
                     reason_code: PubReasonCode::Success,
@@ -534,7 +548,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Pubcomp => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::PubComp {
                     packet_id: id,
                     reason_code: PubReasonCode::Success,
@@ -543,14 +557,14 @@ impl VariableHeader {
                 })
             }
             PacketType::Subscribe => {
-                if !fixed.get_dup() && fixed.get_qos()? != QosLevel::AtLeast && fixed.get_retain() {
+                if fixed.get_dup() || fixed.get_qos()? != QosLevel::AtLeast || fixed.get_retain() {
                     return Err(MqttError::MalformedHeader);
                 }
                 let mut len = fixed.get_remaing_len();
 
                 // # Variable header
 
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len -= size_of::<u16>();
 
                 // # Payload
@@ -586,7 +600,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Suback => {
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
 
                 let mut len = fixed.get_remaing_len() - size_of::<u16>();
 
@@ -609,7 +623,7 @@ impl VariableHeader {
             PacketType::Unsubscribe => {
                 let mut len = fixed.get_remaing_len();
                 let mut tuples = Vec::<String>::new();
-                let packet_id = unpack_u16(iter)?;
+                let packet_id = unpack_packet_id(iter)?;
                 len -= size_of::<u16>();
 
                 while len > 0 {
@@ -619,6 +633,10 @@ impl VariableHeader {
                     tuples.push(topic);
                 }
 
+                if tuples.is_empty() {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 Ok(Self::Unsubscribe {
                     packet_id,
                     tuples,
@@ -626,7 +644,7 @@ impl VariableHeader {
                 })
             }
             PacketType::Unsuback => {
-                let id = unpack_u16(iter)?;
+                let id = unpack_packet_id(iter)?;
                 Ok(Self::UnsubAck {
                     packet_id: id,
                     reason_string: None,
@@ -817,6 +835,8 @@ impl Packet {
 
         let fixed = FixedHeader::from_bytes(&mut iter, None)?;
 
+        fixed.check_flags()?;
+
         let len = fixed.get_remaing_len() + fixed.get_rl_len() + 1;
 
         // The variable header and payload are exactly the bytes that remaining length counts.
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index d5cec28..dd15f86 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -33,6 +33,17 @@ where
     Ok(u16::from_be_bytes(bytes))
 }
 
+/// Unpack a packet identifier, which is never zero [MQTT-2.3.1-1]
+pub fn unpack_packet_id<'a, I>(iter: &mut I) -> Result<u16, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    match unpack_u16(iter)? {
+        0 => Err(MqttError::ProtocolViolation),
+        id => Ok(id),
+    }
+}
+
 /// Unpack bytes into a u32
 ///
 /// Four Byte Integer data values are 32-bit unsigned integers in big-endian order: the high order byte precedes the successively lower order bytes. This means that a 32-bit word is presented on the network as Most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by the next most Significant Byte (MSB), followed by Least Significant Byte (LSB).
@@ -108,6 +119,11 @@ where
 
     let result = String::from_utf8(chars).map_err(MqttError::MalformedString)?;
 
+    // A string MUST NOT include the null character U+0000 [MQTT-1.5.3-2]
+    if result.contains('\0') {
+        return Err(MqttError::ProtocolViolation);
+    }
+
     Ok(result)
 }
 
-- 
2.43.0


From 137ca8af819b076ea58ce330dc65343a998fc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:15 +0000
Subject: [PATCH 04/26] fix: take will messages and passwords as binary data

Both are binary fields in MQTT 3.1.1; a CONNECT whose will message or
password was not UTF-8 was refused as malformed.
---
 src/packets/mod.rs   | 15 ++++++++-------
 src/packets/utils.rs | 10 ++++++++++
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 7e367a0..2132117 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -12,7 +12,8 @@ use self::{
     enums::{ConnectReturnCode, QosLevel, SubackReturnCode},
     headers::{connack::AcknowledgeFlags, connect::Flags},
     utils::{
-        encode_length, unpack_bytes, unpack_packet_id, unpack_properties, unpack_string, unpack_u16,
+        encode_length, unpack_binary, unpack_bytes, unpack_packet_id, unpack_properties,
+        unpack_string, unpack_u16,
     },
 };
 
@@ -72,9 +73,9 @@ pub enum VariableHeader {
 
         client_id: String,
         username: Option<String>,
-        password: Option<String>,
+        password: Option<Bytes>,
         will_topic: Option<String>,
-        will_message: Option<String>,
+        will_message: Option<Bytes>,
         protocol_version: ProtocalVersion,
 
         session_expiry_interval: Option<u32>,
@@ -250,7 +251,7 @@ impl VariableHeader {
                     }
                     if let Some(wm) = will_message {
                         bytes.put_u16(wm.len() as u16);
-                        bytes.put(wm.as_bytes());
+                        bytes.put(wm);
                     }
                 }
 
@@ -264,7 +265,7 @@ impl VariableHeader {
                 if has_psd {
                     if let Some(psd) = password {
                         bytes.put_u16(psd.len() as u16);
-                        bytes.put(psd.as_bytes());
+                        bytes.put(psd);
                     }
                 }
             }
@@ -413,7 +414,7 @@ impl VariableHeader {
                     };
 
                     let will_topic = unpack_string(iter)?;
-                    let will_payload = unpack_string(iter)?;
+                    let will_payload = unpack_binary(iter)?;
 
                     (Some(will_topic), Some(will_payload), props)
                 } else {
@@ -427,7 +428,7 @@ impl VariableHeader {
                 };
 
                 let password = if flags.has_password() {
-                    Some(unpack_string(iter)?)
+                    Some(unpack_binary(iter)?)
                 } else {
                     None
                 };
diff --git a/src/packets/utils.rs b/src/packets/utils.rs
index dd15f86..23609d0 100644
--- a/src/packets/utils.rs
+++ b/src/packets/utils.rs
@@ -103,6 +103,16 @@ where
     Ok(data)
 }
 
+/// Binary data prefixed with a two byte length, for fields that need not be UTF-8
+pub fn unpack_binary<'a, I>(iter: &mut I) -> Result<bytes::Bytes, MqttError>
+where
+    I: Iterator<Item = &'a u8>,
+{
+    let len = usize::from(unpack_u16(iter)?);
+
+    unpack_bytes(iter, len)
+}
+
 pub fn unpack_string_with_len<'a, I>(iter: &mut I, len: usize) -> Result<String, MqttError>
 where
     I: Iterator<Item = &'a u8>,
-- 
2.43.0


From f3a553ef8db6a046a9bb1b1bcca2c87ec2a9956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 05/26] fix: match a topic against every branch of the
 subscription tree

The exact and the '+' branch shared one iterator over the topic levels, so
whenever the exact branch existed '+' was matched with the levels already
used up: subscribers of 'a/+' style filters missed messages, and a
subscriber of '+' was sent messages for deeper topics.
---
 src/topic_heir.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index dca804c..b3057f6 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -116,13 +116,13 @@ impl SubHier {
 
     pub fn get(
         &self,
-        iter: &mut impl std::iter::Iterator<Item = String>,
+        mut iter: impl std::iter::Iterator<Item = String> + Clone,
         subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
         share: &Option<String>,
     ) {
         if let Some(topic) = iter.next() {
             if let Some(child) = self.children.get(&topic) {
-                child.get(iter, subscribers, share);
+                child.get(iter.clone(), subscribers, share);
             }
 
             if let Some(child) = self.children.get("+") {
@@ -212,11 +212,11 @@ impl SubscriptionTree {
 
         if let Some(topic) = iter.next() {
             if let Some(child) = self.0.get(&topic) {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(iter.clone(), &mut subscribers, &sharename);
             }
             // single level '+' match
             if let Some(child) = self.0.get("+") {
-                child.get(&mut iter, &mut subscribers, &sharename);
+                child.get(iter, &mut subscribers, &sharename);
             }
         }
 
-- 
2.43.0


From 46477d7cff45ef5128982a3058208e40260280f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 06/26] fix: keep $ topics from filters that start with a
 wildcard

A subscriber of '#' or '+/...' was sent messages published to topics that
start with '$', which MQTT 3.1.1 section 4.7.2 rules out.
---
 src/topic_heir.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index b3057f6..bba5ed5 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -206,6 +206,8 @@ impl SubscriptionTree {
     }
     pub fn get(&self, filter: String) -> Result<Vec<(u128, Sender<ClientEvent>, QosLevel)>, u8> {
         let mut subscribers = Vec::new();
+        // A leading wildcard does not match topics that start with '$' [MQTT-4.7.2-1]
+        let is_system = filter.starts_with('$');
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
         let mut iter = filter_list.into_iter();
@@ -215,13 +217,13 @@ impl SubscriptionTree {
                 child.get(iter.clone(), &mut subscribers, &sharename);
             }
             // single level '+' match
-            if let Some(child) = self.0.get("+") {
+            if let Some(child) = self.0.get("+").filter(|_| !is_system) {
                 child.get(iter, &mut subscribers, &sharename);
             }
         }
 
         // multi level match
-        if let Some(child) = self.0.get("#") {
+        if let Some(child) = self.0.get("#").filter(|_| !is_system) {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-- 
2.43.0


From c5a319102bcb2189e3af85f805b912eb19a81bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:58 +0000
Subject: [PATCH 07/26] fix: refuse subscriptions whose filter is invalid

Empty filters, misplaced wildcards and filters so deep that walking the tree
overflowed the stack (one 64 KiB filter of slashes took the broker down) are
now answered with the SUBACK failure code.
---
 src/topic_heir.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index bba5ed5..a405ab1 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -6,6 +6,25 @@ use tokio::sync::mpsc::Sender;
 // https://github.com/eclipse/mosquitto/blob/master/src/subs.c#L335
 //https://github.com/eclipse/mosquitto/blob/master/src/handle_subscribe.c
 
+/// The most levels a filter may have: the tree is walked recursively
+const MAX_FILTER_LEVELS: usize = 200;
+
+/// A filter is not empty, a wildcard is a whole level and '#' is the last one [MQTT-4.7.1]
+fn is_valid_filter(filter: &str) -> bool {
+    let levels = filter.split('/').count();
+
+    !filter.is_empty()
+        && levels <= MAX_FILTER_LEVELS
+        && filter
+            .split('/')
+            .enumerate()
+            .all(|(idx, level)| match level {
+                "#" => idx + 1 == levels,
+                "+" => true,
+                _ => !level.contains(['+', '#']),
+            })
+}
+
 #[derive(Debug)]
 pub struct SubscriptionLeaf {
     qos: QosLevel,
@@ -172,6 +191,10 @@ impl SubscriptionTree {
         Self(DashMap::new())
     }
     pub fn insert(&mut self, filter: String, sub: SubscriptionLeaf) -> Result<(), u8> {
+        if !is_valid_filter(&filter) {
+            return Err(2);
+        }
+
         let (filter_list, sharename) = utils::tokenise_topic(filter)?;
 
         let mut iter = filter_list.into_iter();
-- 
2.43.0


From bb25a0369d7f90563e53d0a43f0d4e0dd2d036bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 08/26] fix: deliver at the highest qos of overlapping
 subscriptions

When several filters of one client matched, the qos of whichever was found
first was used instead of the maximum.
---
 src/topic_heir.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index a405ab1..250f583 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -52,6 +52,17 @@ impl SubscriptionLeaf {
     }
 }
 
+/// Each subscriber gets a message once, at the highest qos of the filters that match [MQTT-3.3.5-1]
+fn add_subscriber(
+    subscribers: &mut Vec<(u128, Sender<ClientEvent>, QosLevel)>,
+    sub: &SubscriptionLeaf,
+) {
+    match subscribers.iter_mut().find(|e| e.0 == sub.identifier) {
+        Some(subscriber) => subscriber.2 = subscriber.2.max(sub.qos),
+        None => subscribers.push((sub.identifier, sub.bridge.clone(), sub.qos)),
+    }
+}
+
 #[derive(Debug)]
 struct SubHier {
     children: DashMap<String, SubHier>,
@@ -150,16 +161,12 @@ impl SubHier {
         } else if let Some(share) = share {
             if let Some(s) = self.shared.get(share) {
                 for x in s.iter() {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         } else {
             for x in &self.subs {
-                if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                    subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                }
+                add_subscriber(subscribers, x);
             }
         }
 
@@ -167,16 +174,12 @@ impl SubHier {
             if let Some(share) = share {
                 if let Some(s) = child.shared.get(share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(subscribers, x);
                 }
             }
         }
@@ -250,16 +253,12 @@ impl SubscriptionTree {
             if let Some(share) = sharename {
                 if let Some(s) = child.shared.get(&share) {
                     for x in s.iter() {
-                        if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                            subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                        }
+                        add_subscriber(&mut subscribers, x);
                     }
                 }
             } else {
                 for x in &child.subs {
-                    if !subscribers.iter().any(|e| e.0 == x.identifier) {
-                        subscribers.push((x.identifier, x.bridge.clone(), x.qos));
-                    }
+                    add_subscriber(&mut subscribers, x);
                 }
             }
         }
-- 
2.43.0


From 5e90deeb628c715e6b2d3cb748546d29e1095db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 09/26] fix: wait for a whole packet before parsing it

The handler parsed whatever one read had returned, so a packet that TCP
delivered in pieces, or that was longer than the read buffer, was treated as
malformed or silently cut short, with the rest of it parsed as new packets.
---
 src/handler.rs     | 48 +++++++++++++++++++++++++++++++++-------------
 src/packets/mod.rs |  8 ++++++++
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 5088d23..854cdda 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,8 +1,9 @@
 use std::time::Duration;
 
+use bytes::{Buf, BytesMut};
 use log::{debug, error};
 use tokio::{
-    io::{AsyncBufReadExt, AsyncRead, AsyncWrite, AsyncWriteExt},
+    io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
     time::Instant,
@@ -21,8 +22,30 @@ use crate::{
     },
 };
 
+/// How much room there is at least for each read
+const READ_SIZE: usize = 8 * 1024;
+
+/// Read until `buffer` starts with a whole packet and return its size, or None at the end of the stream.
+/// What was read stays in `buffer` when the future is dropped.
+async fn read_packet<R>(reader: &mut R, buffer: &mut BytesMut) -> Result<Option<usize>, MqttError>
+where
+    R: AsyncRead + Unpin,
+{
+    loop {
+        match Packet::frame_len(buffer)? {
+            Some(size) if size <= buffer.len() => return Ok(Some(size)),
+            _ => {
+                buffer.reserve(READ_SIZE);
+                if reader.read_buf(buffer).await? == 0 {
+                    return Ok(None);
+                }
+            }
+        }
+    }
+}
+
 pub async fn client_handler<R, W>(
-    read_stream: R,
+    mut reader: R,
     mut writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
@@ -38,7 +61,7 @@ where
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
-    let mut reader = tokio::io::BufReader::new(read_stream);
+    let mut inbound = BytesMut::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -51,26 +74,25 @@ where
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
-            buffer = reader.fill_buf() => {
+            buffer = read_packet(&mut reader, &mut inbound) => {
                 let packet = match buffer {
-                    Ok(bytes) => {
-                        let len = bytes.len();
-                        if len == 0 {
-                            continue;
-                        }
-                        let (packet, packet_size) = Packet::unpack(bytes, protocol)?;
+                    Ok(Some(size)) => {
+                        let (packet, packet_size) = Packet::unpack(&inbound[..size], protocol)?;
                         broker_info::sent_data(packet_size);
 
-                        reader.consume(packet_size);
+                        inbound.advance(packet_size);
                         packet
                     }
-                    Err(ref e) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
+                    Ok(None) => {
+                        continue;
+                    }
+                    Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
                         break 'ctrl;
                     }
                     Err(err) => {
                         error!("{}",err);
-                        return Err(MqttError::Io(err));
+                        return Err(err);
                     }
                 };
 
diff --git a/src/packets/mod.rs b/src/packets/mod.rs
index 2132117..51895f9 100644
--- a/src/packets/mod.rs
+++ b/src/packets/mod.rs
@@ -831,6 +831,14 @@ impl Packet {
 
         buffer.freeze()
     }
+    /// Size of the packet that starts `bytes`, or None while its fixed header is incomplete
+    pub fn frame_len(bytes: &[u8]) -> Result<Option<usize>, MqttError> {
+        match FixedHeader::from_bytes(&mut bytes.iter(), None) {
+            Ok(fixed) => Ok(Some(fixed.get_remaing_len() + fixed.get_rl_len() + 1)),
+            Err(MqttError::RequiredByteMissing(_)) => Ok(None),
+            Err(err) => Err(err),
+        }
+    }
     pub fn unpack(bytes: &[u8], protocal: ProtocalVersion) -> Result<(Self, usize), MqttError> {
         let mut iter = bytes.iter();
 
-- 
2.43.0


From 3d43d43f90d4de305547ebd4b8f829e87eadaf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 10/26] fix: end the connection when the client closes it

At the end of the stream the handler went on reading, and so spun on a
closed connection until its keep alive timer fired.
---
 src/handler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 854cdda..70dc8af 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -84,7 +84,8 @@ where
                         packet
                     }
                     Ok(None) => {
-                        continue;
+                        debug!("Connection closed");
+                        break 'ctrl;
                     }
                     Err(MqttError::Io(ref e)) if e.kind() == std::io::ErrorKind::ConnectionReset || e.kind() == std::io::ErrorKind::ConnectionReset => {
                         debug!("Connection lost");
-- 
2.43.0


From 5827c236f318ae69e569a3b933bc30d120a1ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:59 +0000
Subject: [PATCH 11/26] fix: write packets completely

write() may accept only a part of the packet, as it does when the socket's
send buffer is nearly full; the rest was dropped and the stream to that
client was corrupt from there on.
---
 src/handler.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 70dc8af..21ec855 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -44,6 +44,16 @@ where
     }
 }
 
+/// Write all of a packet: a single write may take only a part of it
+async fn write_packet<W>(writer: &mut W, packet: &[u8]) -> Result<usize, MqttError>
+where
+    W: AsyncWrite + Unpin,
+{
+    writer.write_all(packet).await?;
+
+    Ok(packet.len())
+}
+
 pub async fn client_handler<R, W>(
     mut reader: R,
     mut writer: W,
@@ -105,7 +115,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = writer.write(&resp).await?;
+                                let len = write_packet(&mut writer, &resp).await?;
                                 debug!("Wrote {} bytes", len);
 
                                 break 'ctrl;
@@ -136,7 +146,7 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = writer.write(&resp).await?;
+                          let len = write_packet(&mut writer, &resp).await?;
                           debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
@@ -160,7 +170,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = writer.write(&resp).await?;
+                            let len = write_packet(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
@@ -184,7 +194,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = writer.write(&resp).await?;
+                            let len = write_packet(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
@@ -211,25 +221,25 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = writer.write(&resp).await?;
+                                let len = write_packet(&mut writer, &resp).await?;
                                 debug!("Wrote {} bytes", len);
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = writer.write(&resp).await?;
+                            let len = write_packet(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = writer.write(&resp).await?;
+                            let len = write_packet(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
-                            let len = writer.write(&resp).await?;
+                            let len = write_packet(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Disconnect { .. } => {
@@ -255,7 +265,7 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = writer.write(&msg).await?;
+                            let len = write_packet(&mut writer, &msg).await?;
                             debug!("Wrote {} bytes",len);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
-- 
2.43.0


From 91f78aacc792ca66cea7cd80834d2f026d7a804b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 12/26] fix: accept nothing before CONNECT

PUBLISH, PINGREQ, PUBREC and PUBREL were acted on and answered on
connections that had not sent a CONNECT.
---
 src/handler.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handler.rs b/src/handler.rs
index 21ec855..555c52f 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -107,6 +107,11 @@ where
                     }
                 };
 
+                // The first packet a client sends MUST be a CONNECT packet [MQTT-3.1.0-1]
+                if !has_connected && !matches!(packet.variable, VariableHeader::Connect { .. }) {
+                    return Err(MqttError::ProtocolViolation);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
-- 
2.43.0


From 58e9d05719998dee28ed987e9cc42842c8975d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 13/26] fix: tell the client why its CONNECT is refused

An unsupported protocol level and a missing client identifier closed the
connection without the CONNACK that MQTT-3.1.2-2 and MQTT-3.1.3-8 require.
---
 src/handler.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 555c52f..a71d0f0 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -87,7 +87,22 @@ where
             buffer = read_packet(&mut reader, &mut inbound) => {
                 let packet = match buffer {
                     Ok(Some(size)) => {
-                        let (packet, packet_size) = Packet::unpack(&inbound[..size], protocol)?;
+                        let (packet, packet_size) = match Packet::unpack(&inbound[..size], protocol) {
+                            Err(err) if !has_connected => {
+                                let code = match err {
+                                    MqttError::UnacceptableProtocolLevel => Some(ConnectReturnCode::V4UnacceptableProtocal),
+                                    MqttError::ClientIdentifierRejected => Some(ConnectReturnCode::V4IdentifierRejected),
+                                    _ => None,
+                                };
+
+                                if let Some(code) = code {
+                                    write_packet(&mut writer, &Packet::make_connack(code, false)).await?;
+                                }
+
+                                return Err(err);
+                            }
+                            unpacked => unpacked?,
+                        };
                         broker_info::sent_data(packet_size);
 
                         inbound.advance(packet_size);
-- 
2.43.0


From bad0e35e0b7e19347fcb78818d9b2db98eabac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 14/26] fix: time the keep alive as MQTT 3.1.1 says

Only PINGREQ restarted the timer, so a client that kept publishing was cut
off; a keep alive of zero, which turns it off, closed the connection after
four seconds; and the limit is one and a half times the keep alive.
---
 src/handler.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index a71d0f0..3ae7cfb 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -25,6 +25,9 @@ use crate::{
 /// How much room there is at least for each read
 const READ_SIZE: usize = 8 * 1024;
 
+/// Longer than any connection lives
+const KEEPALIVE_OFF: Duration = Duration::from_secs(30 * 365 * 24 * 60 * 60);
+
 /// Read until `buffer` starts with a whole packet and return its size, or None at the end of the stream.
 /// What was read stays in `buffer` when the future is dropped.
 async fn read_packet<R>(reader: &mut R, buffer: &mut BytesMut) -> Result<Option<usize>, MqttError>
@@ -66,7 +69,7 @@ where
 {
     broker_info::client_inc();
 
-    let mut keepalive_duration: u64 = 60;
+    let mut keepalive_duration = Duration::from_secs(60);
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
     let mut cid = None;
@@ -127,6 +130,11 @@ where
                     return Err(MqttError::ProtocolViolation);
                 }
 
+                // Every packet from the client shows that it is alive
+                if has_connected {
+                    keepalive_timer.as_mut().reset(Instant::now() + keepalive_duration);
+                }
+
                 match packet.variable {
                         VariableHeader::Connect { flags, keepalive, client_id, protocol_version, .. } => {
                             if has_connected {
@@ -161,8 +169,12 @@ where
 
                           r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
                           has_connected = true;
-                          keepalive_duration = (keepalive as u64) + 4;
-                          keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
+                          // One and a half times the keep alive [MQTT-3.1.2-24], zero turns it off
+                          keepalive_duration = match keepalive {
+                              0 => KEEPALIVE_OFF,
+                              secs => Duration::from_millis(secs as u64 * 1500),
+                          };
+                          keepalive_timer.as_mut().reset(Instant::now() + keepalive_duration);
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
@@ -257,7 +269,6 @@ where
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
-                            keepalive_timer.as_mut().reset(Instant::now() + Duration::from_secs(keepalive_duration));
                             let resp = Packet::make_ping_resp();
                             let len = write_packet(&mut writer, &resp).await?;
                             debug!("Wrote {} bytes", len);
-- 
2.43.0


From 1c670d66711c3fff8aa21856a13d3123b37156ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 15/26] fix: keep the keep alive running while a write blocks

While the socket of a client that had stopped reading was full, the handler
waited in the write alone and never noticed that the keep alive had passed.
---
 src/handler.rs | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 3ae7cfb..e0dddae 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::time::Duration;
+use std::{pin::Pin, time::Duration};
 
 use bytes::{Buf, BytesMut};
 use log::{debug, error};
@@ -6,7 +6,7 @@ use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
     sync::mpsc::{channel, Sender},
-    time::Instant,
+    time::{Instant, Sleep},
 };
 use tokio_util::sync::CancellationToken;
 
@@ -47,12 +47,20 @@ where
     }
 }
 
-/// Write all of a packet: a single write may take only a part of it
-async fn write_packet<W>(writer: &mut W, packet: &[u8]) -> Result<usize, MqttError>
+/// Write all of a packet: a single write may take only a part of it,
+/// and a client that has stopped reading must not outlive its keep alive.
+async fn write_packet<W>(
+    writer: &mut W,
+    packet: &[u8],
+    keepalive: Pin<&mut Sleep>,
+) -> Result<usize, MqttError>
 where
     W: AsyncWrite + Unpin,
 {
-    writer.write_all(packet).await?;
+    select! {
+        res = writer.write_all(packet) => res?,
+        () = keepalive => return Err(std::io::Error::from(std::io::ErrorKind::TimedOut).into()),
+    }
 
     Ok(packet.len())
 }
@@ -99,7 +107,7 @@ where
                                 };
 
                                 if let Some(code) = code {
-                                    write_packet(&mut writer, &Packet::make_connack(code, false)).await?;
+                                    write_packet(&mut writer, &Packet::make_connack(code, false), keepalive_timer.as_mut()).await?;
                                 }
 
                                 return Err(err);
@@ -143,7 +151,7 @@ where
                                 // The Server MUST process a second CONNECT Packet sent from a Client as a protocol violation and disconnect the Client
                                 let resp = Packet::make_connack(ConnectReturnCode::V4UnacceptableProtocal,false);
 
-                                let len = write_packet(&mut writer, &resp).await?;
+                                let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                                 debug!("Wrote {} bytes", len);
 
                                 break 'ctrl;
@@ -178,7 +186,7 @@ where
 
                           let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
 
-                          let len = write_packet(&mut writer, &resp).await?;
+                          let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                           debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Subscribe { packet_id, tuples,.. } => {
@@ -202,7 +210,7 @@ where
 
                             let resp = Packet::make_suback(packet_id, codes);
 
-                            let len = write_packet(&mut writer, &resp).await?;
+                            let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Unsubscribe { packet_id, tuples, .. } => {
@@ -226,7 +234,7 @@ where
                             r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
 
                             let resp = Packet::make_unsuback(packet_id);
-                            let len = write_packet(&mut writer, &resp).await?;
+                            let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
@@ -253,24 +261,24 @@ where
                             };
 
                             if let Some(resp) = data {
-                                let len = write_packet(&mut writer, &resp).await?;
+                                let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                                 debug!("Wrote {} bytes", len);
                             }
                         }
                         VariableHeader::PubRec { packet_id, .. } => {
                             let resp = Packet::make_pubrel(packet_id);
-                            let len = write_packet(&mut writer, &resp).await?;
+                            let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
                             let resp = Packet::make_pubcomp(packet_id);
-                            let len = write_packet(&mut writer, &resp).await?;
+                            let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
                         VariableHeader::PingReq => {
                             let resp = Packet::make_ping_resp();
-                            let len = write_packet(&mut writer, &resp).await?;
+                            let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Disconnect { .. } => {
@@ -296,7 +304,7 @@ where
                 if let Some(ev) = event {
                     match ev {
                         ClientEvent::Message(msg) => {
-                            let len = write_packet(&mut writer, &msg).await?;
+                            let len = write_packet(&mut writer, &msg, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes",len);
                         },
                         ClientEvent::Disconnect => break 'ctrl,
-- 
2.43.0


From 0ed5a37e1d43c7abb5eb6dc176dee7bd32616c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 16/26] fix: do not let one slow client block the broker

The command loop waited for room in the queue of each subscriber. A single
subscriber that stopped reading its socket stopped every other client, and a
client that publishes to its own subscription could deadlock with the loop.
A message for a full queue is dropped instead, as the README's
messages/publish/dropped says.
---
 src/core/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 61f2080..75e2fcd 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -146,8 +146,9 @@ impl App {
         for (_, bridge, qos) in subs {
             let packet =
                 Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
-            if let Err(e) = bridge.send(ClientEvent::Message(packet)).await {
-                log::error!("receiver dropped: {}", e);
+            // Never wait here: one client that does not keep up would hold up all the others
+            if let Err(e) = bridge.try_send(ClientEvent::Message(packet)) {
+                log::error!("message dropped: {}", e);
             }
         }
     }
-- 
2.43.0


From c6c64c26089f5007da6c8cb989f3f2b4973203cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 17/26] fix: send messages at a qos and with a packet
 identifier that are valid

A message went out at the qos of the subscription, even if it was published
at a lower one, and without the packet identifier that qos 1 and 2 need, so
subscribers read the first two bytes of the payload as the identifier.
---
 src/core/enums.rs |  7 ++++++-
 src/core/mod.rs   | 17 +++++++++--------
 src/handler.rs    | 44 ++++++++++++++++++++++++++++++++++++++++----
 src/main.rs       |  6 +++++-
 4 files changed, 60 insertions(+), 14 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index fe5da56..37a952a 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -25,6 +25,7 @@ pub enum Command {
 
     Publish {
         topic: String,
+        qos: QosLevel,
         payload: Bytes,
     },
     Unsubscribe {
@@ -38,7 +39,11 @@ pub enum Command {
 
 #[derive(Debug)]
 pub enum ClientEvent {
-    Message(Bytes),
+    Message {
+        topic: String,
+        qos: QosLevel,
+        payload: Bytes,
+    },
     Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 75e2fcd..f9b6f03 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -6,10 +6,7 @@ use tokio::sync::mpsc::Sender;
 
 use crate::{
     error::MqttError,
-    packets::{
-        enums::{QosLevel, SubackReturnCode},
-        Packet,
-    },
+    packets::enums::{QosLevel, SubackReturnCode},
     topic_heir::{SubscriptionLeaf, SubscriptionTree},
 };
 
@@ -135,7 +132,7 @@ impl App {
         self.sessions.remove(&cid);
     }
 
-    pub async fn publish(&self, topic: String, payload: Bytes) {
+    pub fn publish(&self, topic: String, publish_qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
             Err(_) => {
@@ -144,10 +141,14 @@ impl App {
         };
 
         for (_, bridge, qos) in subs {
-            let packet =
-                Packet::make_publish(false, qos, false, topic.clone(), None, payload.clone());
+            let message = ClientEvent::Message {
+                topic: topic.clone(),
+                // The lower of what was published and what was subscribed to [MQTT-3.8.4-6]
+                qos: qos.min(publish_qos),
+                payload: payload.clone(),
+            };
             // Never wait here: one client that does not keep up would hold up all the others
-            if let Err(e) = bridge.try_send(ClientEvent::Message(packet)) {
+            if let Err(e) = bridge.try_send(message) {
                 log::error!("message dropped: {}", e);
             }
         }
diff --git a/src/handler.rs b/src/handler.rs
index e0dddae..2efe731 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -1,4 +1,4 @@
-use std::{pin::Pin, time::Duration};
+use std::{collections::HashSet, pin::Pin, time::Duration};
 
 use bytes::{Buf, BytesMut};
 use log::{debug, error};
@@ -65,6 +65,23 @@ where
     Ok(packet.len())
 }
 
+/// Take a packet identifier that is not zero and that no message in flight has [MQTT-2.3.1-2]
+fn next_packet_id(last: &mut u16, inflight: &mut HashSet<u16>) -> Option<u16> {
+    if inflight.len() == usize::from(u16::MAX) {
+        return None;
+    }
+
+    for _ in 0..u16::MAX {
+        *last = last.checked_add(1).unwrap_or(1);
+
+        if inflight.insert(*last) {
+            return Some(*last);
+        }
+    }
+
+    None
+}
+
 pub async fn client_handler<R, W>(
     mut reader: R,
     mut writer: W,
@@ -83,6 +100,8 @@ where
     let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut inbound = BytesMut::new();
+    let mut last_packet_id = 0;
+    let mut inflight = HashSet::new();
     let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
@@ -238,15 +257,18 @@ where
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            let qos = packet.fixed.get_qos()?;
+
                             message_bridge
                             .send(Command::Publish {
                                 topic,
+                                qos,
                                 payload,
                             })
                             .await
                             .map_err(MqttError::ChannelError)?;
 
-                            let data = match packet.fixed.get_qos()? {
+                            let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
                                     let id = packet_id.ok_or_else(|| MqttError::ProtocolViolation)?;
@@ -275,7 +297,9 @@ where
                             let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
                         },
-                        VariableHeader::PubComp { packet_id: _, ..} | VariableHeader::PubAck { packet_id: _, .. } => {}
+                        VariableHeader::PubComp { packet_id, ..} | VariableHeader::PubAck { packet_id, .. } => {
+                            inflight.remove(&packet_id);
+                        }
                         VariableHeader::PingReq => {
                             let resp = Packet::make_ping_resp();
                             let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
@@ -303,7 +327,19 @@ where
             event = rx.recv() => {
                 if let Some(ev) = event {
                     match ev {
-                        ClientEvent::Message(msg) => {
+                        ClientEvent::Message { topic, qos, payload } => {
+                            let packet_id = match qos {
+                                QosLevel::AtMost => None,
+                                _ => match next_packet_id(&mut last_packet_id, &mut inflight) {
+                                    None => {
+                                        error!("message dropped: too many are in flight");
+                                        continue 'ctrl;
+                                    }
+                                    id => id,
+                                },
+                            };
+
+                            let msg = Packet::make_publish(false, qos, false, topic, packet_id, payload);
                             let len = write_packet(&mut writer, &msg, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes",len);
                         },
diff --git a/src/main.rs b/src/main.rs
index 7325fdb..8b0f13c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,7 +73,11 @@ async fn main() -> Result<(), MqttError> {
                     callback,
                 } => context.subscribe(client, topics, callback),
 
-                Command::Publish { topic, payload } => context.publish(topic, payload).await,
+                Command::Publish {
+                    topic,
+                    qos,
+                    payload,
+                } => context.publish(topic, qos, payload),
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 3b742b9b1b40f8dbfbd8462041e3f3a4b6b70013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:48 +0000
Subject: [PATCH 18/26] fix: do not lose a Ctrl-C that comes with a connection

The signal future was made anew for each accepted connection. When both were
ready at once and the connection was taken first, the signal went with the
dropped future and the broker kept running.
---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8b0f13c..0c9235b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -91,6 +91,10 @@ async fn main() -> Result<(), MqttError> {
         debug!("Exiting Command loop");
     });
 
+    // Kept between connections: a signal seen by a dropped future would be lost
+    let shutdown = tokio::signal::ctrl_c();
+    tokio::pin!(shutdown);
+
     loop {
         select! {
             res = listener.accept() => {
@@ -107,7 +111,7 @@ async fn main() -> Result<(), MqttError> {
                     });
                 }
             }
-            _ = tokio::signal::ctrl_c() => {
+            _ = &mut shutdown => {
                 break;
             }
         }
-- 
2.43.0


From a2350a78dfbb5de6c9e49a49a5a8182a411870dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 19/26] fix: pause when a connection cannot be accepted

While accept kept failing, with no file descriptors left for example, the
listener loop retried without a pause.
---
 src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 0c9235b..f03024b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -98,6 +98,11 @@ async fn main() -> Result<(), MqttError> {
     loop {
         select! {
             res = listener.accept() => {
+                if let Err(err) = &res {
+                    // Out of file descriptors, say: the next try would fail at once too
+                    log::error!("Failed to accept a connection: {}", err);
+                    tokio::time::sleep(std::time::Duration::from_millis(100)).await;
+                }
                 if let Ok((stream,addr)) = res {
                     log::debug!("Connection Start: {:?}",addr);
                     let cancellation = token.clone();
-- 
2.43.0


From 25782d32de58a5a17fbd73dd1ee44fe681a84fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 20/26] fix: let Ctrl-C end connections that are blocked

A handler looked at the cancellation token only between packets, so one
client that had stopped reading kept the broker from exiting.
---
 src/handler.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/handler.rs b/src/handler.rs
index 2efe731..846dc03 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -83,8 +83,8 @@ fn next_packet_id(last: &mut u16, inflight: &mut HashSet<u16>) -> Option<u16> {
 }
 
 pub async fn client_handler<R, W>(
-    mut reader: R,
-    mut writer: W,
+    reader: R,
+    writer: W,
     message_bridge: Sender<Command>,
     cancellation: CancellationToken,
 ) -> Result<(), MqttError>
@@ -94,6 +94,28 @@ where
 {
     broker_info::client_inc();
 
+    // Whatever the session is waiting for, cancellation ends it
+    let result = select! {
+        () = cancellation.cancelled() => Ok(()),
+        result = client_session(reader, writer, message_bridge) => result,
+    };
+
+    broker_info::client_dec();
+
+    debug!("Client: disconnect");
+
+    result
+}
+
+async fn client_session<R, W>(
+    mut reader: R,
+    mut writer: W,
+    message_bridge: Sender<Command>,
+) -> Result<(), MqttError>
+where
+    W: AsyncWrite + Unpin,
+    R: AsyncRead + Unpin,
+{
     let mut keepalive_duration = Duration::from_secs(60);
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
@@ -108,9 +130,6 @@ where
 
     'ctrl: loop {
         select! {
-            () = cancellation.cancelled() => {
-                break 'ctrl;
-            }
             () = &mut keepalive_timer => {
                 break 'ctrl;
             }
@@ -351,9 +370,5 @@ where
         }
     }
 
-    broker_info::client_dec();
-
-    debug!("Client: disconnect");
-
     Ok(())
 }
-- 
2.43.0


From d1bd1da9b85b5d5d5de350b5c98ac790aecca6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 21/26] fix: let a new connection take over its client
 identifier for good

The old connection was asked to end through its message queue, which blocked
the broker while that queue was full and did nothing while the old client was
not reading. And a DISCONNECT from the old connection that was handled after
the new CONNECT removed the session of the new connection.
---
 src/core/enums.rs   |  8 ++++++--
 src/core/mod.rs     | 24 ++++++++++++++----------
 src/core/session.rs | 11 +++++++++--
 src/handler.rs      | 12 ++++++++----
 src/main.rs         | 19 +++++++++++++------
 5 files changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 37a952a..9c817c4 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -1,4 +1,5 @@
 use bytes::Bytes;
+use tokio_util::sync::CancellationToken;
 
 use crate::packets::enums::QosLevel;
 use crate::{error::MqttError, packets::enums::SubackReturnCode};
@@ -14,6 +15,7 @@ pub enum Command {
         message_channel: Receiver<ClientEvent>,
         protocol: ProtocalVersion,
         clean_session: bool,
+        connection: CancellationToken,
         callback: Responder<Result<(), MqttError>>,
     },
 
@@ -33,7 +35,10 @@ pub enum Command {
         cid: String,
         callback: Responder<Result<(), MqttError>>,
     },
-    DisconnectClient(String),
+    DisconnectClient {
+        id: String,
+        message_channel: Receiver<ClientEvent>,
+    },
     Exit,
 }
 
@@ -44,7 +49,6 @@ pub enum ClientEvent {
         qos: QosLevel,
         payload: Bytes,
     },
-    Disconnect,
 }
 #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
 #[repr(u8)]
diff --git a/src/core/mod.rs b/src/core/mod.rs
index f9b6f03..5fe3108 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use bytes::Bytes;
 use log::{debug, error};
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 
 use crate::{
     error::MqttError,
@@ -96,28 +97,28 @@ impl App {
         }
     }
 
-    pub async fn connect(
+    pub fn connect(
         &mut self,
         client_id: String,
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
         _clean_session: bool,
+        connection: CancellationToken,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
         if self.sessions.contains_key(&client_id) {
             if let Some(current_client) = self.sessions.get(&client_id) {
-                if let Err(err) = current_client.bridge.send(ClientEvent::Disconnect).await {
-                    error!("{}", err);
-                }
+                current_client.connection.cancel();
             }
         }
 
         if let Some(existing_client) = self.sessions.get_mut(&client_id) {
             existing_client.bridge = message_channel;
+            existing_client.connection = connection;
         } else {
             self.sessions
-                .insert(client_id, Session::new(message_channel));
+                .insert(client_id, Session::new(message_channel, connection));
         }
 
         if callback.send(Ok(())).is_err() {
@@ -125,11 +126,14 @@ impl App {
         }
     }
 
-    pub fn disconnect(&mut self, cid: String) {
-        /*if let Some(client) = self.sessions.get(&cid) {
-
-        }*/
-        self.sessions.remove(&cid);
+    /// The connection that `message_channel` belongs to has ended
+    pub fn disconnect(&mut self, cid: String, message_channel: Sender<ClientEvent>) {
+        // A newer connection may have the session by now
+        if let Some(client) = self.sessions.get(&cid) {
+            if client.bridge.same_channel(&message_channel) {
+                self.sessions.remove(&cid);
+            }
+        }
     }
 
     pub fn publish(&self, topic: String, publish_qos: QosLevel, payload: Bytes) {
diff --git a/src/core/session.rs b/src/core/session.rs
index cac0152..d901813 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,4 +1,5 @@
 use tokio::sync::mpsc::Sender;
+use tokio_util::sync::CancellationToken;
 use uuid::Uuid;
 
 use super::enums::ClientEvent;
@@ -6,12 +7,18 @@ use super::enums::ClientEvent;
 pub struct Session {
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
+    /// Ends the connection that has the session
+    pub connection: CancellationToken,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>) -> Self {
+    pub fn new(bridge: Sender<ClientEvent>, connection: CancellationToken) -> Self {
         let id = Uuid::new_v4().as_u128();
 
-        Self { id, bridge }
+        Self {
+            id,
+            bridge,
+            connection,
+        }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index 846dc03..c810356 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -94,10 +94,13 @@ where
 {
     broker_info::client_inc();
 
+    // Cancelled too when another connection takes the session over
+    let connection = cancellation.child_token();
+
     // Whatever the session is waiting for, cancellation ends it
     let result = select! {
-        () = cancellation.cancelled() => Ok(()),
-        result = client_session(reader, writer, message_bridge) => result,
+        () = connection.cancelled() => Ok(()),
+        result = client_session(reader, writer, message_bridge, connection.clone()) => result,
     };
 
     broker_info::client_dec();
@@ -111,6 +114,7 @@ async fn client_session<R, W>(
     mut reader: R,
     mut writer: W,
     message_bridge: Sender<Command>,
+    connection: CancellationToken,
 ) -> Result<(), MqttError>
 where
     W: AsyncWrite + Unpin,
@@ -206,6 +210,7 @@ where
                                 message_channel: tx.clone(),
                                 protocol,
                                 clean_session: flags.clean_session(),
+                                connection: connection.clone(),
                                 callback: r_tx,
                             }).await.is_err()
                           {
@@ -328,7 +333,7 @@ where
                             debug!("Disconnect Called");
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                             if message_bridge
-                            .send(Command::DisconnectClient(id.clone()))
+                            .send(Command::DisconnectClient { id: id.clone(), message_channel: tx.clone() })
                             .await
                             .is_err()
                             {
@@ -362,7 +367,6 @@ where
                             let len = write_packet(&mut writer, &msg, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes",len);
                         },
-                        ClientEvent::Disconnect => break 'ctrl,
                     }
                 }
 
diff --git a/src/main.rs b/src/main.rs
index f03024b..cf97ac4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -61,12 +61,16 @@ async fn main() -> Result<(), MqttError> {
                     message_channel,
                     protocol,
                     clean_session,
+                    connection,
                     callback,
-                } => {
-                    context
-                        .connect(id, message_channel, protocol, clean_session, callback)
-                        .await
-                }
+                } => context.connect(
+                    id,
+                    message_channel,
+                    protocol,
+                    clean_session,
+                    connection,
+                    callback,
+                ),
                 Command::Subscribe {
                     client,
                     topics,
@@ -83,7 +87,10 @@ async fn main() -> Result<(), MqttError> {
                     cid,
                     callback,
                 } => context.unsubscribe(cid, topics, callback),
-                Command::DisconnectClient(cid) => context.disconnect(cid),
+                Command::DisconnectClient {
+                    id,
+                    message_channel,
+                } => context.disconnect(id, message_channel),
                 Command::Exit => break,
             }
         }
-- 
2.43.0


From f23d80bb92bf42926bfc524e3b92a538bd78a6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 22/26] fix: end the session with its connection

Sessions of connections that ended without DISCONNECT stayed for good, and so
did the subscriptions of every client that had ever been connected.
---
 src/core/mod.rs   |  1 +
 src/handler.rs    | 46 +++++++++++++++++++++++++++++++---------------
 src/topic_heir.rs | 17 +++++++++++++++++
 3 files changed, 49 insertions(+), 15 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 5fe3108..f02b172 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -131,6 +131,7 @@ impl App {
         // A newer connection may have the session by now
         if let Some(client) = self.sessions.get(&cid) {
             if client.bridge.same_channel(&message_channel) {
+                self.subscriptions.delete_all(client.id);
                 self.sessions.remove(&cid);
             }
         }
diff --git a/src/handler.rs b/src/handler.rs
index c810356..db30387 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -5,7 +5,7 @@ use log::{debug, error};
 use tokio::{
     io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt},
     select,
-    sync::mpsc::{channel, Sender},
+    sync::mpsc::{channel, Receiver, Sender},
     time::{Instant, Sleep},
 };
 use tokio_util::sync::CancellationToken;
@@ -97,12 +97,36 @@ where
     // Cancelled too when another connection takes the session over
     let connection = cancellation.child_token();
 
+    let mut cid = None;
+    let (tx, rx) = channel::<ClientEvent>(100);
+
     // Whatever the session is waiting for, cancellation ends it
     let result = select! {
         () = connection.cancelled() => Ok(()),
-        result = client_session(reader, writer, message_bridge, connection.clone()) => result,
+        result = client_session(
+            reader,
+            writer,
+            &message_bridge,
+            connection.clone(),
+            &mut cid,
+            tx.clone(),
+            rx,
+        ) => result,
     };
 
+    if let Some(id) = cid {
+        if message_bridge
+            .send(Command::DisconnectClient {
+                id,
+                message_channel: tx,
+            })
+            .await
+            .is_err()
+        {
+            error!("Receiver dropped!");
+        }
+    }
+
     broker_info::client_dec();
 
     debug!("Client: disconnect");
@@ -113,8 +137,11 @@ where
 async fn client_session<R, W>(
     mut reader: R,
     mut writer: W,
-    message_bridge: Sender<Command>,
+    message_bridge: &Sender<Command>,
     connection: CancellationToken,
+    cid: &mut Option<String>,
+    tx: Sender<ClientEvent>,
+    mut rx: Receiver<ClientEvent>,
 ) -> Result<(), MqttError>
 where
     W: AsyncWrite + Unpin,
@@ -123,12 +150,10 @@ where
     let mut keepalive_duration = Duration::from_secs(60);
     let mut has_connected = false;
     let mut protocol = ProtocalVersion::Unknown;
-    let mut cid = None;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut inbound = BytesMut::new();
     let mut last_packet_id = 0;
     let mut inflight = HashSet::new();
-    let (tx, mut rx) = channel::<ClientEvent>(100);
 
     tokio::pin!(keepalive_timer);
 
@@ -202,7 +227,7 @@ where
                             protocol = protocol_version;
 
                             let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
-                            cid = Some(client_id.clone());
+                            *cid = Some(client_id.clone());
 
                             if message_bridge
                             .send(Command::RegisterClient {
@@ -331,15 +356,6 @@ where
                         },
                         VariableHeader::Disconnect { .. } => {
                             debug!("Disconnect Called");
-                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
-                            if message_bridge
-                            .send(Command::DisconnectClient { id: id.clone(), message_channel: tx.clone() })
-                            .await
-                            .is_err()
-                            {
-                                error!("Receiver dropped!");
-                                break 'ctrl;
-                            }
                             break 'ctrl;
                         },
                         _ => {
diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 250f583..8dbe4ea 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -137,6 +137,7 @@ impl SubHier {
                     s.remove(idx);
                 }
             }
+            self.shared.remove_if(&sharename, |_, s| s.is_empty());
         } else if let Some(idx) = self.subs.iter().position(|e| e.identifier == identifer) {
             self.subs.remove(idx);
         }
@@ -144,6 +145,19 @@ impl SubHier {
         self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
     }
 
+    /// Delete every subscription of a client
+    pub fn delete_all(&mut self, identifer: u128) -> bool {
+        self.children
+            .retain(|_, child| !child.delete_all(identifer));
+        self.shared.retain(|_, subs| {
+            subs.retain(|e| e.identifier != identifer);
+            !subs.is_empty()
+        });
+        self.subs.retain(|e| e.identifier != identifer);
+
+        self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
+    }
+
     pub fn get(
         &self,
         mut iter: impl std::iter::Iterator<Item = String> + Clone,
@@ -230,6 +244,9 @@ impl SubscriptionTree {
 
         Ok(())
     }
+    pub fn delete_all(&mut self, sub: u128) {
+        self.0.retain(|_, child| !child.delete_all(sub));
+    }
     pub fn get(&self, filter: String) -> Result<Vec<(u128, Sender<ClientEvent>, QosLevel)>, u8> {
         let mut subscribers = Vec::new();
         // A leading wildcard does not match topics that start with '$' [MQTT-4.7.2-1]
-- 
2.43.0


From b9435b32a7f54a4bce64f63a2c433d79fe485261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 23/26] fix: honour the clean session flag

A connection with the flag set inherited the session of the connection it
took over, including subscriptions made by requests of the old connection
that were still on their way. Without the flag the subscriptions should carry
over, but went on sending to the old connection, and CONNACK never told that
a session was present.
---
 src/core/enums.rs   | 12 ++++++++++-
 src/core/mod.rs     | 49 +++++++++++++++++++++++++++++++++------------
 src/core/session.rs |  5 ++++-
 src/handler.rs      | 12 +++++++----
 src/main.rs         |  6 ++++--
 src/topic_heir.rs   | 20 ++++++++++++++++++
 6 files changed, 83 insertions(+), 21 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 9c817c4..cd776c1 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -7,6 +7,14 @@ use crate::{error::MqttError, packets::enums::SubackReturnCode};
 pub type Responder<T> = tokio::sync::oneshot::Sender<T>;
 pub type Receiver<T> = tokio::sync::mpsc::Sender<T>;
 
+/// The session that a new connection was given
+#[derive(Debug)]
+pub struct Registration {
+    pub session: u128,
+    /// The session was there before the connection
+    pub present: bool,
+}
+
 /// Enum for handling messages sent to the message listener
 #[derive(Debug)]
 pub enum Command {
@@ -16,11 +24,12 @@ pub enum Command {
         protocol: ProtocalVersion,
         clean_session: bool,
         connection: CancellationToken,
-        callback: Responder<Result<(), MqttError>>,
+        callback: Responder<Result<Registration, MqttError>>,
     },
 
     Subscribe {
         client: String,
+        session: u128,
         topics: Vec<(String, QosLevel)>,
         callback: Responder<Result<Vec<SubackReturnCode>, MqttError>>,
     },
@@ -33,6 +42,7 @@ pub enum Command {
     Unsubscribe {
         topics: Vec<String>,
         cid: String,
+        session: u128,
         callback: Responder<Result<(), MqttError>>,
     },
     DisconnectClient {
diff --git a/src/core/mod.rs b/src/core/mod.rs
index f02b172..148ab66 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -12,7 +12,7 @@ use crate::{
 };
 
 use self::{
-    enums::{ClientEvent, ProtocalVersion},
+    enums::{ClientEvent, ProtocalVersion, Registration},
     session::Session,
 };
 
@@ -37,12 +37,13 @@ impl App {
     pub fn subscribe(
         &mut self,
         cid: String,
+        session_id: u128,
         topics: Vec<(String, QosLevel)>,
         callback: tokio::sync::oneshot::Sender<Result<Vec<SubackReturnCode>, MqttError>>,
     ) {
         let (id, bridge) = match self.sessions.get(&cid) {
-            Some(session) => (session.id, session.bridge.clone()),
-            None => {
+            Some(session) if session.id == session_id => (session.id, session.bridge.clone()),
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -73,12 +74,13 @@ impl App {
     pub fn unsubscribe(
         &mut self,
         cid: String,
+        session_id: u128,
         topics: Vec<String>,
         callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
     ) {
         let id = match self.sessions.get(&cid) {
-            Some(session) => session.id,
-            None => {
+            Some(session) if session.id == session_id => session.id,
+            _ => {
                 if callback.send(Err(MqttError::Unknown)).is_err() {
                     log::error!("Client does not exist");
                 }
@@ -102,9 +104,9 @@ impl App {
         client_id: String,
         message_channel: Sender<ClientEvent>,
         _protocol: ProtocalVersion,
-        _clean_session: bool,
+        clean_session: bool,
         connection: CancellationToken,
-        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+        callback: tokio::sync::oneshot::Sender<Result<Registration, MqttError>>,
     ) {
         debug!("New client connecting with id of '{}'", client_id);
         if self.sessions.contains_key(&client_id) {
@@ -113,15 +115,36 @@ impl App {
             }
         }
 
-        if let Some(existing_client) = self.sessions.get_mut(&client_id) {
+        // A session is resumed only if neither the old nor the new connection wants a clean one
+        let resume = |client: &Session| !client.clean && !clean_session;
+
+        let registration = if let Some(existing_client) =
+            self.sessions.get_mut(&client_id).filter(|e| resume(e))
+        {
+            self.subscriptions
+                .rebind(existing_client.id, &message_channel);
             existing_client.bridge = message_channel;
             existing_client.connection = connection;
+
+            Registration {
+                session: existing_client.id,
+                present: true,
+            }
         } else {
-            self.sessions
-                .insert(client_id, Session::new(message_channel, connection));
-        }
+            let client = Session::new(message_channel, connection, clean_session);
+            let session = client.id;
 
-        if callback.send(Ok(())).is_err() {
+            if let Some(previous) = self.sessions.insert(client_id, client) {
+                self.subscriptions.delete_all(previous.id);
+            }
+
+            Registration {
+                session,
+                present: false,
+            }
+        };
+
+        if callback.send(Ok(registration)).is_err() {
             log::error!("Client no longer exists");
         }
     }
@@ -130,7 +153,7 @@ impl App {
     pub fn disconnect(&mut self, cid: String, message_channel: Sender<ClientEvent>) {
         // A newer connection may have the session by now
         if let Some(client) = self.sessions.get(&cid) {
-            if client.bridge.same_channel(&message_channel) {
+            if client.clean && client.bridge.same_channel(&message_channel) {
                 self.subscriptions.delete_all(client.id);
                 self.sessions.remove(&cid);
             }
diff --git a/src/core/session.rs b/src/core/session.rs
index d901813..4a3a4e2 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -9,16 +9,19 @@ pub struct Session {
     pub bridge: Sender<ClientEvent>,
     /// Ends the connection that has the session
     pub connection: CancellationToken,
+    /// The session ends with the connection
+    pub clean: bool,
 }
 
 impl Session {
-    pub fn new(bridge: Sender<ClientEvent>, connection: CancellationToken) -> Self {
+    pub fn new(bridge: Sender<ClientEvent>, connection: CancellationToken, clean: bool) -> Self {
         let id = Uuid::new_v4().as_u128();
 
         Self {
             id,
             bridge,
             connection,
+            clean,
         }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index db30387..12a8bd9 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -13,7 +13,7 @@ use tokio_util::sync::CancellationToken;
 use crate::{
     core::{
         broker_info,
-        enums::{ClientEvent, Command, ProtocalVersion},
+        enums::{ClientEvent, Command, ProtocalVersion, Registration},
     },
     error::MqttError,
     packets::{
@@ -149,6 +149,7 @@ where
 {
     let mut keepalive_duration = Duration::from_secs(60);
     let mut has_connected = false;
+    let mut session = 0;
     let mut protocol = ProtocalVersion::Unknown;
     let keepalive_timer = tokio::time::sleep(Duration::from_secs(60));
     let mut inbound = BytesMut::new();
@@ -226,7 +227,7 @@ where
 
                             protocol = protocol_version;
 
-                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<Registration, MqttError>>();
                             *cid = Some(client_id.clone());
 
                             if message_bridge
@@ -243,7 +244,8 @@ where
                                 break 'ctrl;
                           }
 
-                          r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          let registration = r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+                          session = registration.session;
                           has_connected = true;
                           // One and a half times the keep alive [MQTT-3.1.2-24], zero turns it off
                           keepalive_duration = match keepalive {
@@ -252,7 +254,7 @@ where
                           };
                           keepalive_timer.as_mut().reset(Instant::now() + keepalive_duration);
 
-                          let resp = Packet::make_connack(ConnectReturnCode::Accepted,false);
+                          let resp = Packet::make_connack(ConnectReturnCode::Accepted, registration.present);
 
                           let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                           debug!("Wrote {} bytes", len);
@@ -265,6 +267,7 @@ where
                             if message_bridge
                             .send(Command::Subscribe {
                                 client: id.clone(),
+                                session,
                                 topics: tuples,
                                 callback: r_tx,
                             })
@@ -290,6 +293,7 @@ where
                                 .send(Command::Unsubscribe {
                                     topics: tuples,
                                     cid: id.clone(),
+                                    session,
                                     callback: r_tx,
                                 })
                                 .await
diff --git a/src/main.rs b/src/main.rs
index cf97ac4..3f17a90 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -73,9 +73,10 @@ async fn main() -> Result<(), MqttError> {
                 ),
                 Command::Subscribe {
                     client,
+                    session,
                     topics,
                     callback,
-                } => context.subscribe(client, topics, callback),
+                } => context.subscribe(client, session, topics, callback),
 
                 Command::Publish {
                     topic,
@@ -85,8 +86,9 @@ async fn main() -> Result<(), MqttError> {
                 Command::Unsubscribe {
                     topics,
                     cid,
+                    session,
                     callback,
-                } => context.unsubscribe(cid, topics, callback),
+                } => context.unsubscribe(cid, session, topics, callback),
                 Command::DisconnectClient {
                     id,
                     message_channel,
diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index 8dbe4ea..c2d4ff5 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -158,6 +158,21 @@ impl SubHier {
         self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
     }
 
+    /// Send what matches the subscriptions of a client to another connection
+    pub fn rebind(&mut self, identifier: u128, bridge: &Sender<ClientEvent>) {
+        for mut child in self.children.iter_mut() {
+            child.rebind(identifier, bridge);
+        }
+        for mut shared in self.shared.iter_mut() {
+            for sub in shared.iter_mut().filter(|e| e.identifier == identifier) {
+                sub.bridge = bridge.clone();
+            }
+        }
+        for sub in self.subs.iter_mut().filter(|e| e.identifier == identifier) {
+            sub.bridge = bridge.clone();
+        }
+    }
+
     pub fn get(
         &self,
         mut iter: impl std::iter::Iterator<Item = String> + Clone,
@@ -247,6 +262,11 @@ impl SubscriptionTree {
     pub fn delete_all(&mut self, sub: u128) {
         self.0.retain(|_, child| !child.delete_all(sub));
     }
+    pub fn rebind(&mut self, sub: u128, bridge: &Sender<ClientEvent>) {
+        for mut child in self.0.iter_mut() {
+            child.rebind(sub, bridge);
+        }
+    }
     pub fn get(&self, filter: String) -> Result<Vec<(u128, Sender<ClientEvent>, QosLevel)>, u8> {
         let mut subscribers = Vec::new();
         // A leading wildcard does not match topics that start with '$' [MQTT-4.7.2-1]
-- 
2.43.0


From 1e7239b70278bd8f75ac900fc184fc5ff4bd710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 24/26] fix: pass a qos 2 message on once

A PUBLISH with qos 2 that the client sent again before releasing its packet
identifier, as it does after reconnecting to its session, was passed on to
the subscribers each time.
---
 src/core/enums.rs   |  9 +++++++++
 src/core/mod.rs     | 18 ++++++++++++++++++
 src/core/session.rs |  5 +++++
 src/handler.rs      | 15 +++++++++++++++
 src/main.rs         | 14 +++++++++++++-
 5 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index cd776c1..d218d97 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -35,10 +35,19 @@ pub enum Command {
     },
 
     Publish {
+        client: String,
+        session: u128,
+        /// Set for messages that must be passed on exactly once
+        packet_id: Option<u16>,
         topic: String,
         qos: QosLevel,
         payload: Bytes,
     },
+    Release {
+        client: String,
+        session: u128,
+        packet_id: u16,
+    },
     Unsubscribe {
         topics: Vec<String>,
         cid: String,
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 148ab66..18175cf 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -160,6 +160,24 @@ impl App {
         }
     }
 
+    /// Take note of a qos 2 message: false if the session has it already
+    pub fn receive(&mut self, cid: String, session_id: u128, packet_id: u16) -> bool {
+        match self.sessions.get_mut(&cid) {
+            Some(session) if session.id == session_id => session.received.insert(packet_id),
+            _ => true,
+        }
+    }
+
+    /// The client has released a qos 2 message and may use its identifier again
+    pub fn release(&mut self, cid: String, session_id: u128, packet_id: u16) {
+        match self.sessions.get_mut(&cid) {
+            Some(session) if session.id == session_id => {
+                session.received.remove(&packet_id);
+            }
+            _ => {}
+        }
+    }
+
     pub fn publish(&self, topic: String, publish_qos: QosLevel, payload: Bytes) {
         let subs = match self.subscriptions.get(topic.clone()) {
             Ok(subs) => subs,
diff --git a/src/core/session.rs b/src/core/session.rs
index 4a3a4e2..7bea1e4 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use tokio::sync::mpsc::Sender;
 use tokio_util::sync::CancellationToken;
 use uuid::Uuid;
@@ -11,6 +13,8 @@ pub struct Session {
     pub connection: CancellationToken,
     /// The session ends with the connection
     pub clean: bool,
+    /// Packet identifiers of qos 2 messages that the client has not released
+    pub received: HashSet<u16>,
 }
 
 impl Session {
@@ -22,6 +26,7 @@ impl Session {
             bridge,
             connection,
             clean,
+            received: HashSet::new(),
         }
     }
 }
diff --git a/src/handler.rs b/src/handler.rs
index 12a8bd9..a3182b4 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -310,10 +310,14 @@ where
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::Publish { topic, packet_id, payload, .. } => {
+                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                             let qos = packet.fixed.get_qos()?;
 
                             message_bridge
                             .send(Command::Publish {
+                                client: id.clone(),
+                                session,
+                                packet_id: packet_id.filter(|_| qos == QosLevel::Exactly),
                                 topic,
                                 qos,
                                 payload,
@@ -346,6 +350,17 @@ where
                             debug!("Wrote {} bytes", len);
                         },
                         VariableHeader::PubRel { packet_id, .. } => {
+                            let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
+
+                            message_bridge
+                            .send(Command::Release {
+                                client: id.clone(),
+                                session,
+                                packet_id,
+                            })
+                            .await
+                            .map_err(MqttError::ChannelError)?;
+
                             let resp = Packet::make_pubcomp(packet_id);
                             let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
diff --git a/src/main.rs b/src/main.rs
index 3f17a90..5c9b2c9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -79,10 +79,22 @@ async fn main() -> Result<(), MqttError> {
                 } => context.subscribe(client, session, topics, callback),
 
                 Command::Publish {
+                    client,
+                    session,
+                    packet_id,
                     topic,
                     qos,
                     payload,
-                } => context.publish(topic, qos, payload),
+                } => {
+                    if packet_id.map_or(true, |id| context.receive(client, session, id)) {
+                        context.publish(topic, qos, payload)
+                    }
+                }
+                Command::Release {
+                    client,
+                    session,
+                    packet_id,
+                } => context.release(client, session, packet_id),
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0


From 501b3f5b95d6c83c7b9b3535fdd65c4a77491626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:40 +0000
Subject: [PATCH 25/26] fix: ignore what a superseded connection still says for
 its session

Resuming a session kept its id, so commands of the old connection that came
after the takeover still counted: a late PUBREL released an identifier that
the new connection was using, and its message was passed on twice. PUBREC now
waits until the session has the message.
---
 src/core/enums.rs   |  2 +-
 src/core/mod.rs     | 29 +++++++++++++++++++++++------
 src/core/session.rs |  9 ++++++---
 src/handler.rs      | 15 ++++++++++++++-
 src/main.rs         |  7 +++++--
 src/topic_heir.rs   | 16 +++++++++-------
 6 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index d218d97..6ab0914 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -38,7 +38,7 @@ pub enum Command {
         client: String,
         session: u128,
         /// Set for messages that must be passed on exactly once
-        packet_id: Option<u16>,
+        exactly_once: Option<(u16, Responder<Result<(), MqttError>>)>,
         topic: String,
         qos: QosLevel,
         payload: Bytes,
diff --git a/src/core/mod.rs b/src/core/mod.rs
index 18175cf..f24efdf 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -121,8 +121,11 @@ impl App {
         let registration = if let Some(existing_client) =
             self.sessions.get_mut(&client_id).filter(|e| resume(e))
         {
+            // What the old connection still has to say must not count for the session
+            let id = Session::new_id();
             self.subscriptions
-                .rebind(existing_client.id, &message_channel);
+                .rebind(existing_client.id, id, &message_channel);
+            existing_client.id = id;
             existing_client.bridge = message_channel;
             existing_client.connection = connection;
 
@@ -160,12 +163,26 @@ impl App {
         }
     }
 
-    /// Take note of a qos 2 message: false if the session has it already
-    pub fn receive(&mut self, cid: String, session_id: u128, packet_id: u16) -> bool {
-        match self.sessions.get_mut(&cid) {
-            Some(session) if session.id == session_id => session.received.insert(packet_id),
-            _ => true,
+    /// Take note of a qos 2 message: false if the session has it already, or is another connection's by now
+    pub fn receive(
+        &mut self,
+        cid: String,
+        session_id: u128,
+        packet_id: u16,
+        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+    ) -> bool {
+        let (is_new, response) = match self.sessions.get_mut(&cid) {
+            Some(session) if session.id == session_id => {
+                (session.received.insert(packet_id), Ok(()))
+            }
+            _ => (false, Err(MqttError::Unknown)),
+        };
+
+        if callback.send(response).is_err() {
+            log::error!("receiver dropped");
         }
+
+        is_new
     }
 
     /// The client has released a qos 2 message and may use its identifier again
diff --git a/src/core/session.rs b/src/core/session.rs
index 7bea1e4..82aa8a7 100644
--- a/src/core/session.rs
+++ b/src/core/session.rs
@@ -7,6 +7,7 @@ use uuid::Uuid;
 use super::enums::ClientEvent;
 
 pub struct Session {
+    /// Another one for each connection that has the session
     pub id: u128,
     pub bridge: Sender<ClientEvent>,
     /// Ends the connection that has the session
@@ -19,14 +20,16 @@ pub struct Session {
 
 impl Session {
     pub fn new(bridge: Sender<ClientEvent>, connection: CancellationToken, clean: bool) -> Self {
-        let id = Uuid::new_v4().as_u128();
-
         Self {
-            id,
+            id: Self::new_id(),
             bridge,
             connection,
             clean,
             received: HashSet::new(),
         }
     }
+
+    pub fn new_id() -> u128 {
+        Uuid::new_v4().as_u128()
+    }
 }
diff --git a/src/handler.rs b/src/handler.rs
index a3182b4..abc17d2 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -313,11 +313,19 @@ where
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
                             let qos = packet.fixed.get_qos()?;
 
+                            let (exactly_once, received) = match packet_id {
+                                Some(packet_id) if qos == QosLevel::Exactly => {
+                                    let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
+                                    (Some((packet_id, r_tx)), Some(r_rx))
+                                }
+                                _ => (None, None),
+                            };
+
                             message_bridge
                             .send(Command::Publish {
                                 client: id.clone(),
                                 session,
-                                packet_id: packet_id.filter(|_| qos == QosLevel::Exactly),
+                                exactly_once,
                                 topic,
                                 qos,
                                 payload,
@@ -325,6 +333,11 @@ where
                             .await
                             .map_err(MqttError::ChannelError)?;
 
+                            // It is the broker's message from here on
+                            if let Some(received) = received {
+                                received.await.map_err(|_| MqttError::QueuePoisonError)??;
+                            }
+
                             let data = match qos {
                                 QosLevel::AtMost => None,
                                 QosLevel::AtLeast => {
diff --git a/src/main.rs b/src/main.rs
index 5c9b2c9..d26123f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -81,12 +81,15 @@ async fn main() -> Result<(), MqttError> {
                 Command::Publish {
                     client,
                     session,
-                    packet_id,
+                    exactly_once,
                     topic,
                     qos,
                     payload,
                 } => {
-                    if packet_id.map_or(true, |id| context.receive(client, session, id)) {
+                    let is_new = exactly_once.map_or(true, |(id, callback)| {
+                        context.receive(client, session, id, callback)
+                    });
+                    if is_new {
                         context.publish(topic, qos, payload)
                     }
                 }
diff --git a/src/topic_heir.rs b/src/topic_heir.rs
index c2d4ff5..b5d99ab 100644
--- a/src/topic_heir.rs
+++ b/src/topic_heir.rs
@@ -158,17 +158,19 @@ impl SubHier {
         self.children.is_empty() && self.shared.is_empty() && self.subs.is_empty()
     }
 
-    /// Send what matches the subscriptions of a client to another connection
-    pub fn rebind(&mut self, identifier: u128, bridge: &Sender<ClientEvent>) {
+    /// Hand the subscriptions of a client over to another connection
+    pub fn rebind(&mut self, from: u128, to: u128, bridge: &Sender<ClientEvent>) {
         for mut child in self.children.iter_mut() {
-            child.rebind(identifier, bridge);
+            child.rebind(from, to, bridge);
         }
         for mut shared in self.shared.iter_mut() {
-            for sub in shared.iter_mut().filter(|e| e.identifier == identifier) {
+            for sub in shared.iter_mut().filter(|e| e.identifier == from) {
+                sub.identifier = to;
                 sub.bridge = bridge.clone();
             }
         }
-        for sub in self.subs.iter_mut().filter(|e| e.identifier == identifier) {
+        for sub in self.subs.iter_mut().filter(|e| e.identifier == from) {
+            sub.identifier = to;
             sub.bridge = bridge.clone();
         }
     }
@@ -262,9 +264,9 @@ impl SubscriptionTree {
     pub fn delete_all(&mut self, sub: u128) {
         self.0.retain(|_, child| !child.delete_all(sub));
     }
-    pub fn rebind(&mut self, sub: u128, bridge: &Sender<ClientEvent>) {
+    pub fn rebind(&mut self, from: u128, to: u128, bridge: &Sender<ClientEvent>) {
         for mut child in self.0.iter_mut() {
-            child.rebind(sub, bridge);
+            child.rebind(from, to, bridge);
         }
     }
     pub fn get(&self, filter: String) -> Result<Vec<(u128, Sender<ClientEvent>, QosLevel)>, u8> {
-- 
2.43.0


From 9b59cc329fc90712f64f58f17ff1d0ec91f380c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 26/26] fix: answer a release only when the session has taken
 note of it

---
 src/core/enums.rs |  1 +
 src/core/mod.rs   | 17 ++++++++++++++---
 src/handler.rs    |  7 +++++++
 src/main.rs       |  3 ++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/core/enums.rs b/src/core/enums.rs
index 6ab0914..7ed1d66 100644
--- a/src/core/enums.rs
+++ b/src/core/enums.rs
@@ -47,6 +47,7 @@ pub enum Command {
         client: String,
         session: u128,
         packet_id: u16,
+        callback: Responder<Result<(), MqttError>>,
     },
     Unsubscribe {
         topics: Vec<String>,
diff --git a/src/core/mod.rs b/src/core/mod.rs
index f24efdf..dd7bb69 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -186,12 +186,23 @@ impl App {
     }
 
     /// The client has released a qos 2 message and may use its identifier again
-    pub fn release(&mut self, cid: String, session_id: u128, packet_id: u16) {
-        match self.sessions.get_mut(&cid) {
+    pub fn release(
+        &mut self,
+        cid: String,
+        session_id: u128,
+        packet_id: u16,
+        callback: tokio::sync::oneshot::Sender<Result<(), MqttError>>,
+    ) {
+        let response = match self.sessions.get_mut(&cid) {
             Some(session) if session.id == session_id => {
                 session.received.remove(&packet_id);
+                Ok(())
             }
-            _ => {}
+            _ => Err(MqttError::Unknown),
+        };
+
+        if callback.send(response).is_err() {
+            log::error!("receiver dropped");
         }
     }
 
diff --git a/src/handler.rs b/src/handler.rs
index abc17d2..2cc23cc 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -365,15 +365,22 @@ where
                         VariableHeader::PubRel { packet_id, .. } => {
                             let id = cid.as_ref().ok_or_else(|| MqttError::FailedToGetCId)?;
 
+                            let (r_tx, r_rx) = tokio::sync::oneshot::channel::<Result<(), MqttError>>();
+
                             message_bridge
                             .send(Command::Release {
                                 client: id.clone(),
                                 session,
                                 packet_id,
+                                callback: r_tx,
                             })
                             .await
                             .map_err(MqttError::ChannelError)?;
 
+                            // A release that a newer connection has overtaken is not complete:
+                            // the identifier is still in use
+                            r_rx.await.map_err(|_| MqttError::QueuePoisonError)??;
+
                             let resp = Packet::make_pubcomp(packet_id);
                             let len = write_packet(&mut writer, &resp, keepalive_timer.as_mut()).await?;
                             debug!("Wrote {} bytes", len);
diff --git a/src/main.rs b/src/main.rs
index d26123f..2ec2cd6 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -97,7 +97,8 @@ async fn main() -> Result<(), MqttError> {
                     client,
                     session,
                     packet_id,
-                } => context.release(client, session, packet_id),
+                    callback,
+                } => context.release(client, session, packet_id, callback),
                 Command::Unsubscribe {
                     topics,
                     cid,
-- 
2.43.0

