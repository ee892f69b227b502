From d5201d6efd6db498f85176044fcf62b24f52df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:32 +0000
Subject: [PATCH 01/46] fix: delay filter must not overflow on timestamps far
 from now

---
 src/filter/delay_filter.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/filter/delay_filter.rs b/src/filter/delay_filter.rs
index 2756070..ed6915f 100644
--- a/src/filter/delay_filter.rs
+++ b/src/filter/delay_filter.rs
@@ -47,6 +47,13 @@ impl DelayFilter {
             tolerance: config.tolerance,
         }
     }
+
+    // Timestamps come from the outside and may be any i64: the distance to now
+    // need not fit in one.
+    fn within_tolerance(&self, timestamp: i64) -> bool {
+        let distance = (i128::from(timestamp) - i128::from(time::now())).abs();
+        distance < i128::from(self.tolerance)
+    }
 }
 
 impl filter::Filter for DelayFilter {
@@ -57,7 +64,7 @@ impl filter::Filter for DelayFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Telemetry(telem) => {
-                if (telem.timestamp - time::now()).abs() < self.tolerance {
+                if self.within_tolerance(telem.timestamp) {
                     DELAY_TELEM_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Telemetry(telem));
                 } else {
@@ -65,7 +72,7 @@ impl filter::Filter for DelayFilter {
                 }
             }
             metric::Event::Log(log) => {
-                if (log.time - time::now()).abs() < self.tolerance {
+                if self.within_tolerance(log.time) {
                     DELAY_LOG_ACCEPT.fetch_add(1, Ordering::Relaxed);
                     res.push(metric::Event::Log(log));
                 } else {
-- 
2.43.0


From 46a3f51c3edab247f497c05b0342957e7e1a6b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 02/46] fix: sinks must count each Shutdown once, not once per
 configured source

---
 src/sink/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sink/mod.rs b/src/sink/mod.rs
index 1252e0d..3714833 100644
--- a/src/sink/mod.rs
+++ b/src/sink/mod.rs
@@ -184,6 +184,7 @@ where
                                 self.state.shutdown();
                                 return;
                             }
+                            break;
                         }
                     },
                     Valve::Closed => {
-- 
2.43.0


From 0d19a2fc72f1cdbf59de8501cb83ad4ee9c6ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 03/46] fix: filters forward Shutdown once, after every source
 has shut down

---
 src/filter/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index e6ae4ac..30fe8bb 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -81,9 +81,11 @@ pub trait Filter {
             match recv.next() {
                 None => attempts += 1,
                 Some(metric::Event::Shutdown) => {
-                    util::send(&mut chans, metric::Event::Shutdown);
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
+                        // Downstream counts one Shutdown per upstream node and
+                        // must not see ours before our last source is done.
+                        util::send(&mut chans, metric::Event::Shutdown);
                         trace!(
                             "Received shutdown from every configured source: {:?}",
                             sources
-- 
2.43.0


From f0f0757e97500a698c964c1212699e0af0bd8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 04/46] fix: filters forward what they emitted before a failure
 instead of holding it back

---
 src/filter/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 30fe8bb..6a26e0b 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -106,6 +106,9 @@ pub trait Filter {
                                 "Failed to run filter with error: {:?}",
                                 msg_in_fe(&fe)
                             );
+                            for ev in events.drain(..) {
+                                util::send(&mut chans, ev)
+                            }
                             let event = event_in_fe(fe);
                             util::send(&mut chans, event);
                         }
-- 
2.43.0


From 72f3210357cf28b5befa149e990037564a592fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:42 +0000
Subject: [PATCH 05/46] fix: flush boundary filter must not swallow events that
 carry no timestamp

---
 src/filter/flush_boundary_filter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 8e3b634..17be0d9 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -84,6 +84,9 @@ impl filter::Filter for FlushBoundaryFilter {
                         self.holds.insert(idx, hold)
                     }
                 }
+            } else {
+                // No timestamp, no boundary to wait for.
+                res.push(event);
             }
         }
         Ok(())
-- 
2.43.0


From f9a9aa24de3b4fcd7573143603fd97984c98da83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 06/46] fix: events held by the flush boundary filter are
 emitted before it shuts down

---
 src/filter/flush_boundary_filter.rs |  6 ++++++
 src/filter/mod.rs                   | 12 ++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/filter/flush_boundary_filter.rs b/src/filter/flush_boundary_filter.rs
index 17be0d9..074e5a2 100644
--- a/src/filter/flush_boundary_filter.rs
+++ b/src/filter/flush_boundary_filter.rs
@@ -91,4 +91,10 @@ impl filter::Filter for FlushBoundaryFilter {
         }
         Ok(())
     }
+
+    fn drain(&mut self, res: &mut Vec<metric::Event>) {
+        for mut hold in mem::replace(&mut self.holds, Vec::new()) {
+            res.append(&mut hold.events);
+        }
+    }
 }
diff --git a/src/filter/mod.rs b/src/filter/mod.rs
index 6a26e0b..3dead4d 100644
--- a/src/filter/mod.rs
+++ b/src/filter/mod.rs
@@ -61,6 +61,14 @@ pub trait Filter {
         res: &mut Vec<metric::Event>,
     ) -> Result<(), FilterError>;
 
+    /// Emit whatever the Filter still holds
+    ///
+    /// Called once, after every source has shut down. Filters which hold no
+    /// `metric::Event`s between calls to `Filter::process` have nothing to do.
+    fn drain(&mut self, _res: &mut Vec<metric::Event>) {
+        // nothing, intentionally
+    }
+
     /// Run the Filter
     ///
     /// It is not expected that most Filters will re-implement this. If this is
@@ -83,6 +91,10 @@ pub trait Filter {
                 Some(metric::Event::Shutdown) => {
                     total_shutdowns += 1;
                     if total_shutdowns >= sources.len() {
+                        self.drain(&mut events);
+                        for ev in events.drain(..) {
+                            util::send(&mut chans, ev)
+                        }
                         // Downstream counts one Shutdown per upstream node and
                         // must not see ours before our last source is done.
                         util::send(&mut chans, metric::Event::Shutdown);
-- 
2.43.0


From 3891a40409d78eff72e3e254414e23186a1fda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:08 +0000
Subject: [PATCH 07/46] fix: equal tag maps hash and compare alike whatever
 order they iterate in

---
 src/metric/mod.rs       |  7 ++++++-
 src/metric/telemetry.rs | 30 ++++++++++++++++++------------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/metric/mod.rs b/src/metric/mod.rs
index b918448..c9f8e4e 100644
--- a/src/metric/mod.rs
+++ b/src/metric/mod.rs
@@ -32,7 +32,12 @@ pub fn cmp_tagmap(
             if l.len() != r.len() {
                 l.len().partial_cmp(&r.len())
             } else {
-                l.iter().partial_cmp(r)
+                // equal maps do not always iterate alike
+                let mut l: Vec<(&String, &String)> = l.iter().collect();
+                let mut r: Vec<(&String, &String)> = r.iter().collect();
+                l.sort();
+                r.sort();
+                l.partial_cmp(&r)
             }
         }
         _ => Some(cmp::Ordering::Equal),
diff --git a/src/metric/telemetry.rs b/src/metric/telemetry.rs
index 94629a2..97acc6a 100644
--- a/src/metric/telemetry.rs
+++ b/src/metric/telemetry.rs
@@ -244,6 +244,22 @@ impl PartialOrd for Telemetry {
     }
 }
 
+/// Hash tags without regard for the order in which the map iterates them: equal
+/// maps do not always iterate alike.
+fn hash_tags<H>(tags: &Option<TagMap>, hasher: &mut H)
+where
+    H: Hasher,
+{
+    if let Some(ref tags) = *tags {
+        let mut pairs: Vec<(&String, &String)> = tags.iter().collect();
+        pairs.sort();
+        for (k, v) in pairs {
+            k.hash(hasher);
+            v.hash(hasher);
+        }
+    }
+}
+
 impl Default for Telemetry {
     fn default() -> Telemetry {
         Telemetry {
@@ -844,12 +860,7 @@ impl Telemetry {
     pub fn hash(&self) -> u64 {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
-        if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
-        }
+        hash_tags(&self.tags, &mut hasher);
         self.kind().hash(&mut hasher);
         hasher.finish()
     }
@@ -863,12 +874,7 @@ impl Telemetry {
     pub fn name_tag_hash(&self) -> u64 {
         let mut hasher = hash_map::DefaultHasher::new();
         self.name.hash(&mut hasher);
-        if let Some(ref tags) = self.tags {
-            for (k, v) in tags.iter() {
-                k.hash(&mut hasher);
-                v.hash(&mut hasher);
-            }
-        }
+        hash_tags(&self.tags, &mut hasher);
         hasher.finish()
     }
 
-- 
2.43.0


From ccdd5039761ccb5c6a19d7316e2ca5efe82c4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 08/46] fix: keep a partly read length prefix when a read would
 block

read_u32 drops the bytes it has read when the stream answers WouldBlock
before all four have arrived, so the stream was read out of step from
then on.
---
 Cargo.lock                |  2 ++
 src/source/nonblocking.rs | 24 +++++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 25701a6..dcf22e8 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,3 +1,5 @@
+# This file is automatically @generated by Cargo.
+# It is not intended for manual editing.
 [[package]]
 name = "adler32"
 version = "1.0.2"
diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 6257d96..1a74589 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -1,6 +1,6 @@
 //! Handy interfaces for nonblocking streams.
 
-use byteorder::{BigEndian, ReadBytesExt};
+use byteorder::{BigEndian, ByteOrder};
 use mio;
 use std::io::{Read, Write};
 use std::{io, mem};
@@ -75,6 +75,12 @@ pub struct BufferedPayload {
     /// off the underlying stream as a big-endian u32.
     payload_size: Option<usize>,
 
+    /// Bytes comprising the payload's length prefix.
+    length: [u8; 4],
+
+    /// Position in the length prefix receiving.
+    length_pos: usize,
+
     /// The maximum allowable payload size. If a payload_size comes in over the
     /// wire that is greater than this limit we close the connection.
     max_payload_size: usize,
@@ -94,6 +100,8 @@ impl BufferedPayload {
     pub fn new(stream: mio::net::TcpStream, max_payload_size: usize) -> Self {
         BufferedPayload {
             payload_size: None,
+            length: [0; 4],
+            length_pos: 0,
             max_payload_size: max_payload_size,
             payload_pos: 0,
             payload: Vec::new(),
@@ -128,10 +136,20 @@ impl BufferedPayload {
 
     /// Reads the payload's length from the wire, caching the result.
     ///
-    /// If a cached value already exists, this function noops.
+    /// If a cached value already exists, this function noops. A prefix that
+    /// has only partly arrived is kept, to be completed by a later call.
     fn read_length(&mut self) -> Result<(), PayloadErr> {
         if self.payload_size.is_none() {
-            self.payload_size = Some(self.buffer.read_u32::<BigEndian>()? as usize);
+            while self.length_pos < self.length.len() {
+                match self.buffer.read(&mut self.length[self.length_pos..]) {
+                    Ok(0) => return Err(PayloadErr::EOF),
+                    Ok(bytes_read) => self.length_pos += bytes_read,
+                    Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
+                    Err(e) => return Err(e.into()),
+                }
+            }
+            self.payload_size = Some(BigEndian::read_u32(&self.length) as usize);
+            self.length_pos = 0;
         };
         Ok(())
     }
-- 
2.43.0


From 3da07d4de13a9502d0a266bacb9b34550b09f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 09/46] fix: an empty payload is a payload, not the end of the
 stream

---
 src/source/nonblocking.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/source/nonblocking.rs b/src/source/nonblocking.rs
index 1a74589..0636b93 100644
--- a/src/source/nonblocking.rs
+++ b/src/source/nonblocking.rs
@@ -167,6 +167,12 @@ impl BufferedPayload {
             self.payload.resize(payload_size, 0);
         }
 
+        if payload_size == 0 {
+            // Nothing to read, a zero length read is no end of stream.
+            self.payload_size = None;
+            return Ok(());
+        }
+
         loop {
             match self
                 .buffer
-- 
2.43.0


From b9ade3b571baff84cf7b4c9fc75d4991dae1f990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 10/46] fix: points of a refused graphite line are not sent
 with a later line

---
 src/source/graphite.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index 9ec883c..b5983ee 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -96,6 +96,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                                             }
                                             line.clear();
                                         } else {
+                                            res.clear();
                                             GRAPHITE_BAD_PACKET
                                                 .fetch_add(1, Ordering::Relaxed);
                                             error!("bad packet: {:?}", line);
-- 
2.43.0


From c514e2d8b0713afff2170b559e362b8c17f21945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 11/46] fix: points of a refused statsd packet are not sent
 with a later packet

---
 src/source/statsd.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/source/statsd.rs b/src/source/statsd.rs
index aa8030f..46210af 100644
--- a/src/source/statsd.rs
+++ b/src/source/statsd.rs
@@ -110,6 +110,7 @@ impl Statsd {
                             }
                             STATSD_GOOD_PACKET.fetch_add(1, Ordering::Relaxed);
                         } else {
+                            metrics.clear();
                             STATSD_BAD_PACKET.fetch_add(1, Ordering::Relaxed);
                             error!("BAD PACKET: {:?}", val);
                         }
-- 
2.43.0


From 6b35664f62972b13e7353fe4bb03dc1f33ba429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:11 +0000
Subject: [PATCH 12/46] fix: a graphite line that is not UTF-8 disturbs no
 other line

read_line drops the bytes of a line whose end has not arrived when they
are cut inside a character, and ends the reading of what is buffered at
a line that is not UTF-8. A last line without a line end was lost when
the end of the stream came later than its bytes.
---
 src/source/graphite.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/source/graphite.rs b/src/source/graphite.rs
index b5983ee..ad84b51 100644
--- a/src/source/graphite.rs
+++ b/src/source/graphite.rs
@@ -62,7 +62,7 @@ impl TCPStreamHandler for GraphiteStreamHandler {
         poller: &mio::Poll,
         stream: mio::net::TcpStream,
     ) {
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut res = Vec::new();
         let mut line_reader = BufReader::new(stream);
         let basic_metric = sync::Arc::new(Some(metric::Telemetry::default()));
@@ -76,13 +76,19 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                         match event.token() {
                             constants::SYSTEM => return,
                             _stream_token => {
-                                while let Ok(len) = line_reader.read_line(&mut line) {
-                                    if len > 0 {
-                                        if parse_graphite(
-                                            &line,
-                                            &mut res,
-                                            &basic_metric,
-                                        ) {
+                                while let Ok(len) =
+                                    line_reader.read_until(b'\n', &mut line)
+                                {
+                                    if len > 0 || !line.is_empty() {
+                                        let parsed = match str::from_utf8(&line) {
+                                            Ok(text) => parse_graphite(
+                                                text,
+                                                &mut res,
+                                                &basic_metric,
+                                            ),
+                                            Err(_) => false,
+                                        };
+                                        if parsed {
                                             assert!(!res.is_empty());
                                             GRAPHITE_GOOD_PACKET
                                                 .fetch_add(1, Ordering::Relaxed);
@@ -99,7 +105,10 @@ impl TCPStreamHandler for GraphiteStreamHandler {
                                             res.clear();
                                             GRAPHITE_BAD_PACKET
                                                 .fetch_add(1, Ordering::Relaxed);
-                                            error!("bad packet: {:?}", line);
+                                            error!(
+                                                "bad packet: {:?}",
+                                                String::from_utf8_lossy(&line)
+                                            );
                                             line.clear();
                                         }
                                     } else {
-- 
2.43.0


From 5032a77123550f8fa2510a8294533a2501194a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 13/46] fix: refuse a truncated avro payload instead of
 panicking

A payload ending inside its header or its key value pairs took its
connection's thread down with it, and the source at its shutdown.
---
 src/source/avro.rs | 52 ++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index f84591a..95e88ac 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -7,7 +7,7 @@ use crate::util;
 use byteorder::{BigEndian, ReadBytesExt, WriteBytesExt};
 use mio;
 use serde_avro;
-use std::io::{Cursor, Read};
+use std::io::{self, Cursor, Read};
 use std::net;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use uuid::Uuid;
@@ -31,7 +31,7 @@ pub struct Header {
     pub order_by: u64,
 }
 
-impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
+impl Header {
     // Parses payload headers from raw bytes.
     // All values assumed to be big endian.
     // Diagram below describes packet layout.
@@ -77,17 +77,17 @@ impl<'a> From<&'a mut Cursor<Vec<u8>>> for Header {
     //    * Value Length - Length of Value data (max 65535)
     //    * Value - N Bytes of Value data, no encoding enforced (max 65535 bytes)
 
-    fn from(cursor: &'a mut Cursor<Vec<u8>>) -> Self {
-        let version = cursor.read_u32::<BigEndian>().unwrap();
-        let control = cursor.read_u32::<BigEndian>().unwrap();
-        let id = cursor.read_u64::<BigEndian>().unwrap();
-        let order_by = cursor.read_u64::<BigEndian>().unwrap();
-        Header {
+    fn read(cursor: &mut Cursor<Vec<u8>>) -> Result<Self, io::Error> {
+        let version = cursor.read_u32::<BigEndian>()?;
+        let control = cursor.read_u32::<BigEndian>()?;
+        let id = cursor.read_u64::<BigEndian>()?;
+        let order_by = cursor.read_u64::<BigEndian>()?;
+        Ok(Header {
             version: version,
             control: control,
             id: id,
             order_by: order_by,
-        }
+        })
     }
 }
 
@@ -114,24 +114,34 @@ enum Payload {
 impl From<Vec<u8>> for Payload {
     /// Transforms cursors of payloads into Payload objects.
     fn from(vec: Vec<u8>) -> Payload {
+        match Payload::read(vec) {
+            Ok(payload) => payload,
+            Err(e) => Payload::Invalid(format!("Truncated payload - {:?}.", e)),
+        }
+    }
+}
+
+impl Payload {
+    /// Reads a payload, failing when it ends early.
+    fn read(vec: Vec<u8>) -> Result<Payload, io::Error> {
         let mut cursor = Cursor::new(vec);
-        let header: Header = (&mut cursor).into();
+        let header = Header::read(&mut cursor)?;
 
         let metadata = if header.version < 2 {
             None
         } else {
-            let num_kv = cursor.read_u8().unwrap();
+            let num_kv = cursor.read_u8()?;
             if num_kv < 1 {
                 None
             } else {
                 let mut m: Metadata = Metadata::default();
                 for _ in 0..num_kv {
-                    let key_len = cursor.read_u8().unwrap();
+                    let key_len = cursor.read_u8()?;
                     let mut key = vec![0; key_len as usize];
-                    cursor.read_exact(&mut key).unwrap();
-                    let val_len = cursor.read_u16::<BigEndian>().unwrap();
+                    cursor.read_exact(&mut key)?;
+                    let val_len = cursor.read_u16::<BigEndian>()?;
                     let mut val = vec![0; val_len as usize];
-                    cursor.read_exact(&mut val).unwrap();
+                    cursor.read_exact(&mut val)?;
                     m.insert(key, val);
                 }
                 Some(m)
@@ -141,24 +151,26 @@ impl From<Vec<u8>> for Payload {
         // Read the avro payload off the wire
         let mut avro_blob = Vec::new();
         if cursor.read_to_end(&mut avro_blob).is_err() {
-            return Payload::Invalid("Failed to read avro payload!".to_string());
+            return Ok(Payload::Invalid(
+                "Failed to read avro payload!".to_string(),
+            ));
         }
 
         // TODO - Enforce configurable type naming requirements.
         // Check that the blob provided is valid Avro.
         if let Err(e) = serde_avro::de::Deserializer::from_container(&avro_blob[..]) {
-            return Payload::Invalid(format!(
+            return Ok(Payload::Invalid(format!(
                 "Failed to deserialize container - {:?}.",
                 e
-            ));
+            )));
         };
 
         trace!("Successfully deserialized container.");
-        Payload::Valid {
+        Ok(Payload::Valid {
             header: header,
             metadata: metadata,
             avro_blob: avro_blob,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 27a72f7707083c0cc68df9f0fd0975d5fc2240a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:32 +0000
Subject: [PATCH 14/46] fix: the native sink sends what it has buffered

Neither the coded stream nor what came of flushing the writer under it
was looked at: a payload smaller than the coded stream's buffer never
left, and a failure at the last write counted as a delivery.
---
 src/sink/native.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index 2cd6203..a227a42 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -10,7 +10,7 @@ use protobuf::repeated::RepeatedField;
 use protobuf::stream::CodedOutputStream;
 use protobuf::Message;
 use std::collections::HashMap;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::mem::replace;
 use std::net::{TcpStream, ToSocketAddrs};
 
@@ -183,9 +183,12 @@ impl Sink<NativeConfig> for Native {
                 let mut sz_buf = [0; 4];
                 let pyld_len = pyld.compute_size();
                 BigEndian::write_u32(&mut sz_buf, pyld_len);
-                stream.write_raw_bytes(&sz_buf).unwrap();
-                let res = pyld.write_to_with_cached_sizes(&mut stream);
-                if res.is_ok() {
+                let res = stream
+                    .write_raw_bytes(&sz_buf)
+                    .and_then(|_| pyld.write_to_with_cached_sizes(&mut stream))
+                    .and_then(|_| stream.flush());
+                drop(stream);
+                if res.is_ok() && bufwrite.flush().is_ok() {
                     self.buffer.clear();
                     return;
                 } else {
-- 
2.43.0


From 6abf5c2ceeacdcd0393e697afb6a3f7883412deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 15/46] fix: no timestamp makes the native sink panic

---
 src/sink/native.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sink/native.rs b/src/sink/native.rs
index a227a42..52d1ea2 100644
--- a/src/sink/native.rs
+++ b/src/sink/native.rs
@@ -143,7 +143,7 @@ impl Sink<NativeConfig> for Native {
                         meta.insert(k.to_string(), v.to_string());
                     }
                     telem.set_metadata(meta);
-                    telem.set_timestamp_ms(m.timestamp * 1000); // FIXME #166
+                    telem.set_timestamp_ms(m.timestamp.saturating_mul(1000)); // FIXME #166
                     telem.set_samples(m.samples());
                     // TODO set bin_bounds. What we do is set the counts for the
                     // bins as set_samples above, then bin_bounds comes from
@@ -163,7 +163,7 @@ impl Sink<NativeConfig> for Native {
                     ll.set_path(l.path);
                     ll.set_value(l.value);
                     ll.set_metadata(meta);
-                    ll.set_timestamp_ms(l.time * 1000); // FIXME #166
+                    ll.set_timestamp_ms(l.time.saturating_mul(1000)); // FIXME #166
 
                     lines.push(ll);
                 }
-- 
2.43.0


From 5d91db8d61ed86572806dae49f3a99470a63d62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 16/46] fix: a synchronous avro payload waits for its own
 acknowledgement

---
 src/source/avro.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 95e88ac..8ff1653 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -324,6 +324,14 @@ impl AvroStreamHandler {
                 avro_blob,
             } => {
                 let ackbag = metric::global_ack_bag();
+                // Acknowledgements are told apart by this id alone, so a payload
+                // to be waited for needs one which no other payload of the
+                // connection goes by.
+                let connection_id = if header.sync() {
+                    Uuid::new_v4()
+                } else {
+                    connection_id
+                };
                 if header.sync() {
                     ackbag.prepare_wait(connection_id)
                 }
-- 
2.43.0


From 5b036562256f6f4d1d4f2dfa6140fc2b4ec957d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:23 +0000
Subject: [PATCH 17/46] fix: an avro publisher that leaves before its answer
 ends its own connection only

---
 src/source/avro.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/source/avro.rs b/src/source/avro.rs
index 8ff1653..0e1418d 100644
--- a/src/source/avro.rs
+++ b/src/source/avro.rs
@@ -225,10 +225,21 @@ impl TCPStreamHandler for AvroStreamHandler {
                                                     .expect(
                                                         "Failed to write response id!",
                                                     );
-                                                write_all(&stream, resp.get_ref())
-                                                    .expect(
-                                                        "Failed to write response!",
+                                                if let Err(e) = write_all(
+                                                    &stream,
+                                                    resp.get_ref(),
+                                                ) {
+                                                    // The publisher did not wait for
+                                                    // its answer.
+                                                    error!(
+                                                        "Failed to write response: {:?}",
+                                                        e
                                                     );
+                                                    AVRO_PAYLOAD_IO_FAILURE_SUM
+                                                        .fetch_add(1, Ordering::Relaxed);
+                                                    streaming = false;
+                                                    break;
+                                                }
                                                 trace!("Acked {:?}", id);
                                             }
                                         }
-- 
2.43.0


From 643a72de920835fcac008f02663ea35c4f021d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:21 +0000
Subject: [PATCH 18/46] fix: asking the topology matrix for the edges of an
 unknown node answers none

filter_nodes indexed the matrix and panicked for a node that no edge
mentions, unlike every other query of the matrix. A filter that is
configured without forwards and that nothing forwards to is such a node.
---
 src/matrix.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix.rs b/src/matrix.rs
index 79b081b..1d93e7f 100644
--- a/src/matrix.rs
+++ b/src/matrix.rs
@@ -81,11 +81,11 @@ impl<M: Clone + Debug> Adjacency<M> {
     where
         for<'r> F: FnMut(&'r (&String, &Option<M>)) -> bool,
     {
-        self.edges[id]
-            .iter()
-            .filter(f)
-            .map(|(k, _v)| k.clone())
-            .collect()
+        match self.edges.get(id) {
+            Some(map) => map.iter().filter(f).map(|(k, _v)| k.clone()).collect(),
+
+            None => Vec::new(),
+        }
     }
 
     /// Iterates over edge relations in the matrix.
-- 
2.43.0


From bb312e652feaa61bb033051ec482b4526c7f9b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 19/46] fix: a followed file that is truncated before its first
 read is noticed

---
 src/source/file/file_watcher.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index a486c0a..fdc6b52 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -54,7 +54,7 @@ impl FileWatcher {
                     path: path.clone(),
                     reader: Some(rdr),
                     file_id: Some((dev, ino)),
-                    previous_size: 0,
+                    previous_size: metadata.size(),
                     reopen: false,
                 })
             }
-- 
2.43.0


From 5ac7fcf21f17dd471612a9f94414c4a882a142d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 20/46] fix: a followed file's unfinished line is held back
 until its end is written

---
 src/source/file/file_watcher.rs | 50 +++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index fdc6b52..0dd758b 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -3,8 +3,10 @@ use std::fs;
 use std::io;
 use std::io::BufRead;
 use std::io::Seek;
+use std::mem;
 use std::os::unix::fs::MetadataExt;
 use std::path::PathBuf;
+use std::str;
 
 /// The `FileWatcher` struct defines the polling based state machine which reads
 /// from a file path, transparently updating the underlying file descriptor when
@@ -18,6 +20,8 @@ pub struct FileWatcher {
     reader: Option<io::BufReader<fs::File>>,
     file_id: Option<(u64, u64)>,
     previous_size: u64,
+    // what has been read of a line whose end has yet to be written
+    partial: Vec<u8>,
     reopen: bool,
 }
 
@@ -55,6 +59,7 @@ impl FileWatcher {
                     reader: Some(rdr),
                     file_id: Some((dev, ino)),
                     previous_size: metadata.size(),
+                    partial: Vec::new(),
                     reopen: false,
                 })
             }
@@ -66,6 +71,7 @@ impl FileWatcher {
                             reader: None,
                             file_id: None,
                             previous_size: 0,
+                            partial: Vec::new(),
                             reopen: false,
                         }
                     };
@@ -110,12 +116,29 @@ impl FileWatcher {
         self.reader.is_none() && self.file_id.is_none()
     }
 
+    /// Move what has been read of a line into the buffer. The length of the
+    /// line is returned.
+    fn take_line(&mut self, buffer: &mut String) -> io::Result<usize> {
+        let line = mem::replace(&mut self.partial, Vec::new());
+        match str::from_utf8(&line) {
+            Ok(line) => {
+                buffer.push_str(line);
+                Ok(line.len())
+            }
+            Err(e) => Err(io::Error::new(io::ErrorKind::InvalidData, e)),
+        }
+    }
+
     /// Read a single line from the underlying file
     ///
     /// This function will attempt to read a new line from its file, blocking,
     /// up to some maximum but unspecified amount of time. `read_line` will open
     /// a new file handler at need, transparently to the caller.
-    pub fn read_line(&mut self, mut buffer: &mut String) -> io::Result<usize> {
+    ///
+    /// The line is put into the buffer without its line end and its length is
+    /// returned. A line whose end is yet to be written is held back until it
+    /// is, or until the file has been truncated or rotated away.
+    pub fn read_line(&mut self, buffer: &mut String) -> io::Result<usize> {
         if self.reopen {
             self.open_at_start();
         }
@@ -154,21 +177,26 @@ impl FileWatcher {
                         self.path.to_str().expect("could not make path"),
                     )]),
                 );
+                self.previous_size = current_size;
+                if !self.partial.is_empty() {
+                    // its end will not be written anymore
+                    return self.take_line(buffer);
+                }
             }
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_line(&mut buffer) {
-                Ok(0) => {
-                    if file_id(&self.path) != self.file_id {
-                        self.reopen = true;
+            match reader.read_until(b'\n', &mut self.partial) {
+                Ok(_) => {
+                    if self.partial.last() == Some(&b'\n') {
+                        self.partial.pop();
+                        return self.take_line(buffer);
                     }
-                    Ok(0)
-                }
-                Ok(sz) => {
-                    assert_eq!(sz, buffer.len());
-                    buffer.pop();
-                    Ok(buffer.len())
+                    if file_id(&self.path) == self.file_id {
+                        return Ok(0);
+                    }
+                    self.reopen = true;
+                    self.take_line(buffer)
                 }
                 Err(e) => {
                     if let io::ErrorKind::NotFound = e.kind() {
-- 
2.43.0


From df5458727438c5c68212d4db29346f1c0365d2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 21/46] fix: lines written just before a followed file is
 replaced are read

---
 src/source/file/file_watcher.rs | 39 ++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 0dd758b..213858b 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -186,23 +186,32 @@ impl FileWatcher {
             self.previous_size = current_size;
             // match here on error, if metadata doesn't match up open_at_start
             // new reader and let it catch on the next looparound
-            match reader.read_until(b'\n', &mut self.partial) {
-                Ok(_) => {
-                    if self.partial.last() == Some(&b'\n') {
-                        self.partial.pop();
-                        return self.take_line(buffer);
-                    }
-                    if file_id(&self.path) == self.file_id {
-                        return Ok(0);
+            let mut replaced = false;
+            loop {
+                match reader.read_until(b'\n', &mut self.partial) {
+                    Ok(_) => {
+                        if self.partial.last() == Some(&b'\n') {
+                            self.partial.pop();
+                            return self.take_line(buffer);
+                        }
+                        if replaced {
+                            self.reopen = true;
+                            return self.take_line(buffer);
+                        }
+                        replaced = file_id(&self.path) != self.file_id;
+                        if !replaced {
+                            return Ok(0);
+                        }
+                        // The file is no longer the one at our path. What was
+                        // written to it before it was replaced is there now,
+                        // so look for that before switching over.
                     }
-                    self.reopen = true;
-                    self.take_line(buffer)
-                }
-                Err(e) => {
-                    if let io::ErrorKind::NotFound = e.kind() {
-                        self.reopen = true;
+                    Err(e) => {
+                        if let io::ErrorKind::NotFound = e.kind() {
+                            self.reopen = true;
+                        }
+                        return Err(e);
                     }
-                    Err(e)
                 }
             }
         } else {
-- 
2.43.0


From 6088c700121b78db912b87cbe6d2e8327ef3c0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:22 +0000
Subject: [PATCH 22/46] fix: a header name that kafka cannot carry does not
 panic its sink

---
 src/sink/kafka.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sink/kafka.rs b/src/sink/kafka.rs
index 453fbe8..cb4be47 100644
--- a/src/sink/kafka.rs
+++ b/src/sink/kafka.rs
@@ -157,7 +157,14 @@ impl KafkaMessageSender for FutureProducer<STFUContext> {
         let mut headers = OwnedHeaders::new();
         if let Some(m) = metadata {
             for (k, v) in m {
-                headers = headers.clone().add(str::from_utf8(&k).unwrap(), &v);
+                match str::from_utf8(&k) {
+                    Ok(name) if !name.contains('\0') => {
+                        headers = headers.add(name, &v);
+                    }
+                    _ => {
+                        error!("Unable to use {:?} as the name of a header.", k);
+                    }
+                }
             }
         };
         Box::new(KafkaPublishResult {
-- 
2.43.0


From 4b9ed0a10573a8b174b475a192b439ef54f111c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 23/46] fix: a timestamp beyond the calendar's ends does not
 panic console, elasticsearch and json encoding

---
 src/filter/json_encode_filter.rs |  7 ++-----
 src/sink/console.rs              |  6 ++----
 src/sink/elasticsearch.rs        | 10 +++-------
 src/time.rs                      | 13 +++++++++++++
 4 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/filter/json_encode_filter.rs b/src/filter/json_encode_filter.rs
index 4fdf7ed..99fb6a7 100644
--- a/src/filter/json_encode_filter.rs
+++ b/src/filter/json_encode_filter.rs
@@ -10,9 +10,7 @@
 
 use crate::filter;
 use crate::metric;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time::calendar;
 use rand::random;
 use serde_json;
 use serde_json::map::Map;
@@ -72,8 +70,7 @@ impl filter::Filter for JSONEncodeFilter {
     ) -> Result<(), filter::FilterError> {
         match event {
             metric::Event::Log(log) => {
-                let naive_time = NaiveDateTime::from_timestamp(log.time, 0);
-                let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+                let utc_time = calendar(log.time);
                 let metadata = json_to_object(json!({
                     "time": utc_time.to_rfc3339(),
                     "path": log.path.clone(),
diff --git a/src/sink/console.rs b/src/sink/console.rs
index 917427f..bd18a96 100644
--- a/src/sink/console.rs
+++ b/src/sink/console.rs
@@ -4,9 +4,8 @@ use crate::buckets::Buckets;
 use crate::metric::{AggregationMethod, LogLine, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
+use crate::time::calendar;
 use chrono::offset::Utc;
-use chrono::DateTime;
 
 /// The 'console' sink exists for development convenience. The sink will
 /// aggregate according to [buckets](../buckets/struct.Buckets.html) method and
@@ -202,7 +201,6 @@ impl Sink<ConsoleConfig> for Console {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = calendar(time);
     format!("{}", utc_time.format("%Y-%m-%dT%H:%M:%S%.3fZ"))
 }
diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index a3d962a..8b949b2 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -3,9 +3,7 @@
 use crate::metric::{LogLine, TagMap};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
-use chrono::naive::NaiveDateTime;
-use chrono::offset::Utc;
-use chrono::DateTime;
+use crate::time::calendar;
 use elastic::client::responses::bulk;
 use elastic::error;
 use elastic::error::Result;
@@ -358,15 +356,13 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
 
 #[inline]
 fn format_time(time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = calendar(time);
     format!("{}", utc_time.format("%+"))
 }
 
 #[inline]
 fn idx(prefix: &Option<String>, time: i64) -> String {
-    let naive_time = NaiveDateTime::from_timestamp(time, 0);
-    let utc_time: DateTime<Utc> = DateTime::from_utc(naive_time, Utc);
+    let utc_time = calendar(time);
     match *prefix {
         Some(ref p) => format!("{}-{}", p, utc_time.format("%Y-%m-%d")),
         None => format!("{}", utc_time.format("%Y-%m-%d")),
diff --git a/src/time.rs b/src/time.rs
index 19ec2a8..4522b16 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -4,7 +4,9 @@
 //! for cernan and update it ourselves periodically. See `update_time` in this
 //! module for more details.
 
+use chrono::naive::{NaiveDateTime, MAX_DATE, MIN_DATE};
 use chrono::offset::Utc;
+use chrono::DateTime;
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::{thread, time};
 
@@ -17,6 +19,17 @@ pub fn now() -> i64 {
     NOW.load(Ordering::Relaxed) as i64
 }
 
+/// The calendar date and time of a timestamp in epoch seconds
+///
+/// Timestamps can come from the network and need not be sensible. One which
+/// lies beyond the calendar's ends is taken to be the end it lies beyond.
+pub fn calendar(time: i64) -> DateTime<Utc> {
+    let end = if time < 0 { MIN_DATE } else { MAX_DATE };
+    let naive_time = NaiveDateTime::from_timestamp_opt(time, 0)
+        .unwrap_or_else(|| end.and_hms(0, 0, 0));
+    DateTime::from_utc(naive_time, Utc)
+}
+
 /// Update cernan's view of time every 500ms. Time is in UTC.
 pub fn update_time() {
     let dur = time::Duration::from_millis(500);
-- 
2.43.0


From fa33fcaae0249224d803e9fbf52f837b050d4c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 24/46] fix: a line refused 256 times does not panic the
 elasticsearch sink

---
 src/sink/elasticsearch.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sink/elasticsearch.rs b/src/sink/elasticsearch.rs
index 8b949b2..9e30652 100644
--- a/src/sink/elasticsearch.rs
+++ b/src/sink/elasticsearch.rs
@@ -223,7 +223,8 @@ impl Sink<ElasticsearchConfig> for Elasticsearch {
                                         _ => idx += 1,
                                     }
                                 }
-                                self.buffer[idx].attempts += 1;
+                                self.buffer[idx].attempts =
+                                    self.buffer[idx].attempts.saturating_add(1);
                                 if self.buffer[idx].attempts
                                     > self.delivery_attempt_limit
                                 {
-- 
2.43.0


From 9572e61a0af42ec5287a10c6a78cc2f1ac142070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 25/46] fix: values InfluxDB cannot store neither panic its
 sink nor spoil its payload

---
 src/sink/influxdb.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index b694b35..8c17866 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -84,6 +84,12 @@ fn fmt_tags(tags: TagIter, s: &mut String) {
     }
 }
 
+/// InfluxDB has no NaN and no infinities. It refuses any payload that holds one.
+#[inline]
+fn storable(val: &f64) -> bool {
+    val.is_finite()
+}
+
 #[inline]
 fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
@@ -110,7 +116,7 @@ impl InfluxDB {
         for telem in telems.iter() {
             match telem.kind() {
                 AggregationMethod::Sum => {
-                    if let Some(val) = telem.sum() {
+                    if let Some(val) = telem.sum().filter(storable) {
                         buffer.push_str(&telem.name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -127,7 +133,7 @@ impl InfluxDB {
                     }
                 }
                 AggregationMethod::Set => {
-                    if let Some(val) = telem.set() {
+                    if let Some(val) = telem.set().filter(storable) {
                         buffer.push_str(&telem.name);
                         fmt_tags(telem.tags(&self.tags), &mut tag_buf);
                         buffer.push_str(&tag_buf);
@@ -172,7 +178,7 @@ impl InfluxDB {
                 }
                 AggregationMethod::Summarize => {
                     for percentile in &[0.25, 0.50, 0.75, 0.90, 0.99, 1.0] {
-                        if let Some(val) = telem.query(*percentile) {
+                        if let Some(val) = telem.query(*percentile).filter(storable) {
                             buffer
                                 .push_str(&format!("{}.{}", &telem.name, percentile));
                             fmt_tags(telem.tags(&self.tags), &mut tag_buf);
-- 
2.43.0


From 6d09124af2443d23ebe5302640f8d558f249b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 26/46] fix: points from before 1970 keep their timestamps on
 the way to InfluxDB

---
 src/sink/influxdb.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sink/influxdb.rs b/src/sink/influxdb.rs
index 8c17866..c9664d9 100644
--- a/src/sink/influxdb.rs
+++ b/src/sink/influxdb.rs
@@ -109,7 +109,7 @@ impl InfluxDB {
     /// Convert the slice into a payload that can be sent to InfluxDB
     fn format_stats(&self, buffer: &mut String, telems: &[Telemetry]) {
         use crate::metric::AggregationMethod;
-        let mut time_cache: Vec<(u64, String)> = Vec::with_capacity(128);
+        let mut time_cache: Vec<(i64, String)> = Vec::with_capacity(128);
         let mut value_cache: Vec<(f64, String)> = Vec::with_capacity(128);
 
         let mut tag_buf = String::with_capacity(1_024);
@@ -126,7 +126,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -143,7 +143,7 @@ impl InfluxDB {
                         buffer.push_str(" ");
                         buffer.push_str(get_from_cache(
                             &mut time_cache,
-                            telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                            telem.timestamp.saturating_mul(1_000_000_000),
                         ));
                         buffer.push_str("\n");
                         tag_buf.clear();
@@ -169,7 +169,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
@@ -189,7 +189,7 @@ impl InfluxDB {
                             buffer.push_str(" ");
                             buffer.push_str(get_from_cache(
                                 &mut time_cache,
-                                telem.timestamp.saturating_mul(1_000_000_000) as u64,
+                                telem.timestamp.saturating_mul(1_000_000_000),
                             ));
                             buffer.push_str("\n");
                             tag_buf.clear();
-- 
2.43.0


From 9bd9badd764224f2e226bda6482c45141785a7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 27/46] fix: prometheus and wavefront: any timestamp has an age

The distance of a timestamp to the current time need not fit in an i64, and an
age threshold need not either. Compute and compare ages as i128, so that no
point from the network makes a sink overflow, and a threshold beyond i64 does
not turn negative and refuse everything.
---
 src/sink/prometheus.rs | 4 ++--
 src/sink/wavefront.rs  | 2 +-
 src/time.rs            | 8 ++++++++
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 023b8d9..49a8ecd 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -135,7 +135,7 @@ impl Accumulator {
                 let mut purged = 0;
                 let mut i = 0;
                 while i != samples.len() {
-                    if (samples[i].timestamp - time::now()).abs() > (cap as i64) {
+                    if time::distance(samples[i].timestamp) > cap as i128 {
                         samples.remove(i);
                         purged += 1;
                     } else {
@@ -660,7 +660,7 @@ impl Sink<PrometheusConfig> for Prometheus {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if time::distance(telem.timestamp) <= i128::from(age_threshold) {
                 self.aggrs.lock().unwrap().insert(telem);
             }
         } else {
diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 4e5e5c1..249a432 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -642,7 +642,7 @@ impl Sink<WavefrontConfig> for Wavefront {
 
     fn deliver(&mut self, telem: Telemetry) {
         if let Some(age_threshold) = self.age_threshold {
-            if (telem.timestamp - time::now()).abs() <= (age_threshold as i64) {
+            if time::distance(telem.timestamp) <= i128::from(age_threshold) {
                 self.aggrs.add(telem);
             }
         } else {
diff --git a/src/time.rs b/src/time.rs
index 4522b16..69ba4ed 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -19,6 +19,14 @@ pub fn now() -> i64 {
     NOW.load(Ordering::Relaxed) as i64
 }
 
+/// The distance in seconds between a timestamp and the current time
+///
+/// Timestamps can come from the network and may be any i64: their distance to
+/// the current time need not fit in one.
+pub fn distance(time: i64) -> i128 {
+    (i128::from(time) - i128::from(now())).abs()
+}
+
 /// The calendar date and time of a timestamp in epoch seconds
 ///
 /// Timestamps can come from the network and need not be sensible. One which
-- 
2.43.0


From f7ae29d17bc21d110b38acbb6dec77fb25e15dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 28/46] fix: prometheus: escape label values

A tag's value may hold a double-quote, a backslash or a line feed. Written as
they are they end the label's value or the line, and the scrape as a whole is
refused.
---
 src/sink/prometheus.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 49a8ecd..538b0eb 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -443,6 +443,23 @@ impl Handler for PrometheusHandler {
     }
 }
 
+/// Escape a label's value
+///
+/// A backslash, a double-quote or a line feed within a label's value has to be
+/// escaped, else it ends the value or the line it stands on.
+fn escape(value: &str) -> String {
+    let mut escaped = String::with_capacity(value.len());
+    for c in value.chars() {
+        match c {
+            '\\' => escaped.push_str("\\\\"),
+            '"' => escaped.push_str("\\\""),
+            '\n' => escaped.push_str("\\n"),
+            _ => escaped.push(c),
+        }
+    }
+    escaped
+}
+
 #[inline]
 fn write_kv<W>(k: &str, v: &str, s: &mut W) -> io::Result<()>
 where
@@ -450,7 +467,7 @@ where
 {
     s.write_all(k.as_bytes())?;
     s.write_all(b"=\"")?;
-    s.write_all(v.as_bytes())?;
+    s.write_all(escape(v).as_bytes())?;
     s.write_all(b"\"")
 }
 
-- 
2.43.0


From 972283b958cec89861394ebc4cdaf461eb89775a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 29/46] fix: prometheus: a window of no seconds holds no
 samples

With a capacity of 0 the first summary of a name was stored all the same, and
the next one of that name and timestamp made the sink panic.
---
 src/sink/prometheus.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index 538b0eb..e94490e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -295,7 +295,9 @@ impl PrometheusAggr {
                     AggregationMethod::Summarize => {
                         let mut samples = Vec::new();
                         let sum = telem.query(1.0).unwrap();
-                        samples.push(telem);
+                        if self.capacity_in_seconds > 0 {
+                            samples.push(telem);
+                        }
                         Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
                             count: 1,
-- 
2.43.0


From 20df0f89a5be094d76808bc48b410eed1d556b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 30/46] fix: prometheus: count and sum every sample of a
 summary

A summary may hold more than one sample, one received over the native protocol
for instance. The running count took each for one sample, the running sum took
its largest sample for all of them.
---
 src/sink/prometheus.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index e94490e..e5ace0b 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -160,12 +160,13 @@ impl Accumulator {
                 assert_eq!(telem.kind(), AggregationMethod::Summarize);
                 // u64::wrapping_add makes a new u64. We need this to be
                 // in-place. Oops!
-                if (u64::MAX - *count) <= 1 {
-                    *count = 1;
+                let added = telem.count() as u64;
+                if (u64::MAX - *count) <= added {
+                    *count = added;
                 } else {
-                    *count += 1;
+                    *count += added;
                 }
-                let val = telem.query(1.0).unwrap();
+                let val = telem.samples_sum().unwrap_or(0.0);
                 // There's no wrapping_add for f64. Since it's rude to crash
                 // cernan because we've been summing for too long we knock
                 // together our own wrap.
@@ -294,13 +295,14 @@ impl PrometheusAggr {
                     | AggregationMethod::Histogram => Accumulator::Perpetual(telem),
                     AggregationMethod::Summarize => {
                         let mut samples = Vec::new();
-                        let sum = telem.query(1.0).unwrap();
+                        let sum = telem.samples_sum().unwrap_or(0.0);
+                        let count = telem.count() as u64;
                         if self.capacity_in_seconds > 0 {
                             samples.push(telem);
                         }
                         Accumulator::Windowed {
                             cap: self.capacity_in_seconds,
-                            count: 1,
+                            count,
                             sum,
                             samples,
                         }
-- 
2.43.0


From 74e082de63ec0a9f8f508b930780d0097defd895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 31/46] fix: prometheus: one TYPE line per exposed name

Names which differ before sanitization may be the same after it. Prometheus
refuses a second TYPE line for a name.
---
 src/sink/prometheus.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sink/prometheus.rs b/src/sink/prometheus.rs
index e5ace0b..4477a6e 100644
--- a/src/sink/prometheus.rs
+++ b/src/sink/prometheus.rs
@@ -527,7 +527,7 @@ where
         match value.kind() {
             AggregationMethod::Sum => {
                 if let Some(v) = value.sum() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "counter", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -535,7 +535,7 @@ where
             }
             AggregationMethod::Set => {
                 if let Some(v) = value.set() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "gauge", &mut w)?;
                     }
                     write_metric(&sanitized_name, value.tags(default), v, &mut w)?;
@@ -543,7 +543,7 @@ where
             }
             AggregationMethod::Histogram => {
                 if let Some(bin_iter) = value.bins() {
-                    if seen.insert(value.name.clone()) {
+                    if seen.insert(sanitized_name.clone()) {
                         write_type(&sanitized_name, "histogram", &mut w)?;
                     }
                     let mut running_sum = 0;
@@ -584,7 +584,7 @@ where
                 }
             }
             AggregationMethod::Summarize => {
-                if seen.insert(value.name.clone()) {
+                if seen.insert(sanitized_name.clone()) {
                     write_type(&sanitized_name, "summary", &mut w)?;
                 }
                 for q in &[0.0, 1.0, 0.25, 0.5, 0.75, 0.90, 0.95, 0.99, 0.999] {
-- 
2.43.0


From bffc20687ae8bf14c6b36d38c3577160012ef047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 32/46] fix: wavefront: a value that is not a number can be
 formatted

NaN has no order: looking it up in the cache of formatted values panicked the
sink, whether NaN was sought or already there.
---
 src/sink/wavefront.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 249a432..bfa8251 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -346,12 +346,15 @@ fn get_from_cache<T>(cache: &mut Vec<(T, String)>, val: T) -> &str
 where
     T: cmp::PartialOrd + string::ToString + Copy,
 {
-    match cache.binary_search_by(|probe| probe.0.partial_cmp(&val).unwrap()) {
+    // NaN has no place among the others: it is never found, only inserted
+    match cache.binary_search_by(|probe| {
+        probe.0.partial_cmp(&val).unwrap_or(cmp::Ordering::Less)
+    }) {
         Ok(idx) => &cache[idx].1,
         Err(idx) => {
             let str_val = val.to_string();
             cache.insert(idx, (val, str_val));
-            get_from_cache(cache, val)
+            &cache[idx].1
         }
     }
 }
-- 
2.43.0


From bafda76ec7941ec8c586df1acaf5a1d222785cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 33/46] fix: wavefront: any timestamps can be padded

The difference of two timestamps, and the timestamp after the last, overflowed for
timestamps near the ends of i64, which panicked the sink.
---
 src/sink/wavefront.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index bfa8251..deeb579 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -200,6 +200,13 @@ impl<'a> Pad<'a> {
     }
 }
 
+/// Determine if there is a whole bin of `span` seconds between two timestamps
+///
+/// Timestamps may be any i64, their difference need not fit in one.
+fn apart(lhs: i64, rhs: i64, span: i64) -> bool {
+    (i128::from(lhs) - i128::from(rhs)).abs() / i128::from(span) > 1
+}
+
 fn padding<'a>(
     xs: buckets::Iter<'a>,
     span: i64,
@@ -261,7 +268,7 @@ impl<'a> Iterator for Padding<'a> {
                         if let Some(ts) = self.last_seen.get(&x.hash()) {
                             if x.timestamp() > *ts {
                                 self.flush_padded.insert(x.hash());
-                                if (x.timestamp() - ts) / self.span > 1 {
+                                if apart(x.timestamp(), *ts, self.span) {
                                     let sub_x = x
                                         .clone()
                                         .zero_at(x.timestamp().saturating_sub(1));
@@ -278,8 +285,8 @@ impl<'a> Iterator for Padding<'a> {
                             }
                         }
                     }
-                    match (x.timestamp() - y.timestamp()).abs() / self.span {
-                        0 | 1 => {
+                    match apart(x.timestamp(), y.timestamp(), self.span) {
+                        false => {
                             // In this case the next point, y, is within the
                             // span configured by the user. We stash it into
                             // emit_q and will pull it on the next iterative
@@ -287,7 +294,7 @@ impl<'a> Iterator for Padding<'a> {
                             self.emit_q.push(y);
                             Some(x)
                         }
-                        _ => {
+                        true => {
                             // This case is tricky. Here we've found that the
                             // span between our current point, x, and the next
                             // point, y, is larger than the configured
@@ -323,7 +330,7 @@ impl<'a> Iterator for Padding<'a> {
                     if let Some(ts) = self.last_seen.get(&x.hash()) {
                         if x.timestamp() > *ts {
                             self.flush_padded.insert(x.hash());
-                            if (x.timestamp() - ts) / self.span > 1 {
+                            if apart(x.timestamp(), *ts, self.span) {
                                 let sub_x =
                                     x.clone().zero_at(x.timestamp().saturating_sub(1));
                                 let post_x = x.clone().zero_at(ts.saturating_add(1));
@@ -425,7 +432,8 @@ impl Wavefront {
                 Pad::Telem(value) => {
                     if value.persist {
                         let new_val = value.clone();
-                        self.aggrs.add(new_val.timestamp(value.timestamp + 1));
+                        self.aggrs
+                            .add(new_val.timestamp(value.timestamp.saturating_add(1)));
                     }
 
                     match value.kind() {
-- 
2.43.0


From ca356a489f9b36895c86bbd32a4c2ad53665fc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 34/46] fix: wavefront: late points do not take back what was
 last seen

A flush of points older than the series' last one moved its last seen time back.
The next flush then took what lies between for a gap, and sent a zero in place of
a value that had been sent before.
---
 src/sink/wavefront.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index deeb579..649af6e 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -460,7 +460,8 @@ impl Wavefront {
             }
         }
         for (k, v) in tmp_last_seen {
-            last_seen.insert(k, v);
+            let seen = last_seen.entry(k).or_insert(v);
+            *seen = cmp::max(*seen, v);
         }
         self.aggrs = aggrs;
         self.aggrs.reset();
-- 
2.43.0


From 29bb6bf28ef71f7bc10b1d2067a7d55a602e987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:56 +0000
Subject: [PATCH 35/46] fix: wavefront: pad every series across flushes

A gap between two flushes was padded for a series with a single point in the
second only if no other series came after it.
---
 src/sink/wavefront.rs | 50 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 649af6e..8627805 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -234,6 +234,32 @@ struct Padding<'a> {
     pad_control: PadControl,
 }
 
+impl<'a> Padding<'a> {
+    /// Emit the last point of a sequence, padded to what was last seen of it
+    fn end_of_sequence(&mut self, x: Pad<'a>) -> Pad<'a> {
+        if x.skip_pad(self.pad_control) {
+            return x;
+        }
+        let flush_padded = self.flush_padded.contains(&x.hash());
+        if !flush_padded {
+            if let Some(ts) = self.last_seen.get(&x.hash()) {
+                if x.timestamp() > *ts {
+                    self.flush_padded.insert(x.hash());
+                    if apart(x.timestamp(), *ts, self.span) {
+                        let sub_x =
+                            x.clone().zero_at(x.timestamp().saturating_sub(1));
+                        let post_x = x.clone().zero_at(ts.saturating_add(1));
+                        self.emit_q.push(x);
+                        self.emit_q.push(sub_x);
+                        return post_x;
+                    }
+                }
+            }
+        }
+        x
+    }
+}
+
 impl<'a> Iterator for Padding<'a> {
     type Item = Pad<'a>;
 
@@ -316,32 +342,12 @@ impl<'a> Iterator for Padding<'a> {
                     }
                 } else {
                     self.emit_q.push(y);
-                    Some(x)
+                    Some(self.end_of_sequence(x))
                 }
             }
             (Some(x), None) => {
                 self.last_hash = x.hash();
-                // end of sequence
-                if x.skip_pad(self.pad_control) {
-                    return Some(x);
-                }
-                let flush_padded = self.flush_padded.contains(&x.hash());
-                if !flush_padded {
-                    if let Some(ts) = self.last_seen.get(&x.hash()) {
-                        if x.timestamp() > *ts {
-                            self.flush_padded.insert(x.hash());
-                            if apart(x.timestamp(), *ts, self.span) {
-                                let sub_x =
-                                    x.clone().zero_at(x.timestamp().saturating_sub(1));
-                                let post_x = x.clone().zero_at(ts.saturating_add(1));
-                                self.emit_q.push(x);
-                                self.emit_q.push(sub_x);
-                                return Some(post_x);
-                            }
-                        }
-                    }
-                }
-                Some(x)
+                Some(self.end_of_sequence(x))
             }
             (None, _) => None,
         }
-- 
2.43.0


From 8f62a36c27eeb626ef4d2dc0f61a6c656305d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:57 +0000
Subject: [PATCH 36/46] fix: wavefront: pad histograms in their own bins

The points that pad a histogram were made with default bounds, so they were sent
for bins the histogram does not have.
---
 src/sink/wavefront.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/sink/wavefront.rs b/src/sink/wavefront.rs
index 8627805..5b25904 100644
--- a/src/sink/wavefront.rs
+++ b/src/sink/wavefront.rs
@@ -5,6 +5,7 @@ use crate::metric::{AggregationMethod, TagIter, TagMap, Telemetry};
 use crate::sink::{Sink, Valve};
 use crate::source::flushes_per_second;
 use crate::time;
+use quantiles::histogram::Bound;
 use std::cmp;
 use std::collections::{HashMap, HashSet};
 use std::io::Write as IoWrite;
@@ -421,13 +422,18 @@ impl Wavefront {
 
             match pad {
                 Pad::Zero(value, ts) => {
-                    let zero = value
-                        .clone()
-                        .thaw()
-                        .value(0.0)
-                        .harden()
-                        .unwrap()
-                        .timestamp(ts);
+                    let mut zero = value.clone().thaw().value(0.0);
+                    if let Some(bins) = value.bins() {
+                        // keep to the bins of the histogram padded
+                        let mut bounds = Vec::new();
+                        for &(bound, _) in bins {
+                            if let Bound::Finite(bnd) = bound {
+                                bounds.push(bnd);
+                            }
+                        }
+                        zero = zero.bounds(bounds);
+                    }
+                    let zero = zero.harden().unwrap().timestamp(ts);
                     self.fmt_val(
                         &zero,
                         &mut time_cache,
@@ -485,7 +491,6 @@ impl Wavefront {
         match value.kind() {
             AggregationMethod::Histogram => {
                 if let Some(bins) = value.bins() {
-                    use quantiles::histogram::Bound;
                     fmt_tags(value.tags(&self.tags), &mut tag_buf);
                     for &(bound, count) in bins {
                         self.stats.push_str(&value.name);
-- 
2.43.0


From 423da8e5bde830586c6f857bf31f2f28789a3977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 37/46] fix: file: a rotated file whose successor was not there
 yet is followed from its start

---
 src/source/file/file_server.rs  | 7 ++++++-
 src/source/file/file_watcher.rs | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/source/file/file_server.rs b/src/source/file/file_server.rs
index 52ddc13..3511d05 100644
--- a/src/source/file/file_server.rs
+++ b/src/source/file/file_server.rs
@@ -82,6 +82,10 @@ impl source::Source<FileServerConfig> for FileServer {
 
         let mut backoff_cap: usize = 1;
         let mut lines = Vec::new();
+        // Files that are there when we start are followed from their end. What
+        // turns up later, be it a file that replaces one that had disappeared,
+        // is all new to us.
+        let mut starting = true;
         // Alright friends, how does this work?
         //
         // We want to avoid burning up users' CPUs. To do this we sleep after
@@ -98,10 +102,11 @@ impl source::Source<FileServerConfig> for FileServer {
                 if let Ok(path) = entry {
                     let entry = fp_map.entry(path.clone());
                     if let Ok(fw) = FileWatcher::new(&path) {
-                        entry.or_insert(fw);
+                        entry.or_insert(if starting { fw } else { fw.from_start() });
                     };
                 }
             }
+            starting = false;
             // line polling
             for (path, mut watcher) in fp_map.drain() {
                 let mut bytes_read: usize = 0;
diff --git a/src/source/file/file_watcher.rs b/src/source/file/file_watcher.rs
index 213858b..9d391bd 100644
--- a/src/source/file/file_watcher.rs
+++ b/src/source/file/file_watcher.rs
@@ -82,6 +82,12 @@ impl FileWatcher {
         }
     }
 
+    /// Read the file from its start, wherever reading it would have begun.
+    pub fn from_start(mut self) -> FileWatcher {
+        self.reopen = true;
+        self
+    }
+
     fn open_at_start(&mut self) {
         if let Ok(f) = fs::File::open(&self.path) {
             let metadata = f.metadata().unwrap(); // we _must_ be able to read the metadata
-- 
2.43.0


From 4b1da85567f92dddcdfbaa496816ee89a5fec165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 38/46] fix: native: whole seconds of every millisecond
 timestamp

---
 src/source/native.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/source/native.rs b/src/source/native.rs
index 6dcec1e..2ec99e6 100644
--- a/src/source/native.rs
+++ b/src/source/native.rs
@@ -146,7 +146,7 @@ impl NativeStreamHandler {
                     let aggr_type: AggregationMethod = point.get_method();
                     let mut meta = point.take_metadata();
                     // FIXME #166
-                    let ts: i64 = (point.get_timestamp_ms() as f64 * 0.001) as i64;
+                    let ts: i64 = point.get_timestamp_ms() / 1000;
 
                     if smpls.is_empty() {
                         continue;
@@ -183,7 +183,7 @@ impl NativeStreamHandler {
                     let value: String = line.take_value();
                     let mut meta = line.take_metadata();
                     // FIXME #166
-                    let ts: i64 = (line.get_timestamp_ms() as f64 * 0.001) as i64;
+                    let ts: i64 = line.get_timestamp_ms() / 1000;
 
                     let mut logline = metric::LogLine::new(path, value);
                     logline = logline.time(ts);
-- 
2.43.0


From ec9414ae10ff3a42ac24218ec7229fa198a62e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 39/46] fix: native: the size of packed samples

---
 src/protocols/native.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/native.rs b/src/protocols/native.rs
index 002f250..31ddaf6 100644
--- a/src/protocols/native.rs
+++ b/src/protocols/native.rs
@@ -915,7 +915,7 @@ impl ::protobuf::Message for Telemetry {
             my_size += ::protobuf::rt::string_size(1, &v);
         }
         if !self.samples.is_empty() {
-            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size(self.samples.len() as u32) + (self.samples.len() * 8) as u32;
+            my_size += 1 + ::protobuf::rt::compute_raw_varint32_size((self.samples.len() * 8) as u32) + (self.samples.len() * 8) as u32;
         }
         if let Some(v) = self.persisted {
             my_size += 2;
-- 
2.43.0


From ada9cef50d943e3fa9935fe7be79bba290a83093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 40/46] fix: thread: joining a thread which panicked is not a
 panic

---
 src/thread.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/thread.rs b/src/thread.rs
index f3ace3a..34de6a0 100644
--- a/src/thread.rs
+++ b/src/thread.rs
@@ -32,8 +32,13 @@ pub trait Stoppable {
 
 impl Stoppable for ThreadHandle {
     /// Join the given Thread, blocking until it exits.
+    ///
+    /// A thread which panicked has exited as well. That is no reason for
+    /// whoever waits for it to panic in turn, in the midst of a shutdown.
     fn join(self) {
-        self.handle.join().expect("Failed to join child thread!");
+        if self.handle.join().is_err() {
+            error!("Child thread ended in a panic!");
+        }
     }
 
     /// Gracefully shutdown the given Thread, blocking until it exists.
-- 
2.43.0


From 0de6603bd8308653bfcef6e944db934a9e088187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 41/46] fix: programmable filter: a missing function or an
 error left values on Lua's stack

---
 src/filter/programmable_filter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index cb1a120..c6740db 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -589,6 +589,7 @@ fn run_lua_func(
 
     state.get_global(func_name);
     if !state.is_fn(-1) {
+        state.pop(1);
         return Err(filter::FilterError::NoSuchFunction(func_name, fail));
     }
 
@@ -608,11 +609,15 @@ fn run_lua_func(
         }
         Ok(())
     } else {
-        let error = if let Some(error) = state.to_str(-1) {
+        // The error is read in place: to convert what is not a string would run
+        // its __tostring outside of any protected call.
+        let error = if let Some(error) = state.to_str_in_place(-1) {
             error
         } else {
             "While handling a lua error, lua error message was not a string"
-        };
-        Err(filter::FilterError::LuaError(error.to_owned(), fail))
+        }
+        .to_owned();
+        state.pop(1);
+        Err(filter::FilterError::LuaError(error, fail))
     }
 }
-- 
2.43.0


From 43e4d39c5b2e52ceab83417eb58cdef62a2366cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 42/46] fix: programmable filter: metric_query took its
 percentile from the index

---
 src/filter/programmable_filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index c6740db..5d1f559 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -383,7 +383,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_query(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let prcnt = state.to_number(2);
+        let prcnt = state.to_number(3);
         let idx = idx(state.to_integer(2), (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
-- 
2.43.0


From 91b38b6a9153774eb28e1b9bfc1fc3154fe91c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 43/46] fix: programmable filter: an index that names no event
 is an error of the script

---
 src/filter/programmable_filter.rs | 42 +++++++++++++++++--------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 5d1f559..062d650 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -13,12 +13,16 @@ struct Payload<'a> {
     path: &'a str,
 }
 
-fn idx(n: i64, top: usize) -> usize {
-    if n < 0 {
-        (top - (n.abs() as usize))
-    } else {
-        (n - 1) as usize
+/// The place among `top` events that a function's second argument names: from
+/// one up from the first, from minus one down from the last. To name none of
+/// them is an error of the script.
+fn idx(state: &mut State, top: usize) -> usize {
+    let n = state.to_integer(2);
+    let idx = if n < 0 { (top as i64) + n } else { n - 1 };
+    if idx < 0 || idx >= (top as i64) {
+        state.arg_error(2, "no such event in the payload")
     }
+    idx as usize
 }
 
 impl<'a> Payload<'a> {
@@ -61,7 +65,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         state.push_string(&(*pyld).metrics[idx].name);
         1
     }
@@ -70,7 +74,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].value);
         1
     }
@@ -79,7 +83,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_path(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         state.push_string(&(*pyld).logs[idx].path);
         1
     }
@@ -88,7 +92,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_set_metric_name(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         (*pyld).metrics[idx].name = state.check_string(3).into();
         0
     }
@@ -168,7 +172,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).logs[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -192,7 +196,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_field_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].fields.get(&key) {
                 Some(v) => {
@@ -214,7 +218,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_tag_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 match (*pyld).metrics[idx].get_from_tags(&key, (*pyld).global_tags) {
@@ -238,7 +242,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).metrics[idx].insert_tag(key, val) {
@@ -266,7 +270,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].insert_tag(key, val) {
@@ -294,7 +298,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_field(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match state.to_str(4).map(|v| v.to_owned()) {
                 Some(val) => match (*pyld).logs[idx].fields.insert(key, val) {
@@ -322,7 +326,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_set_value(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => {
                 (*pyld).logs[idx].value = key;
@@ -339,7 +343,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_metric_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).metrics[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -361,7 +365,7 @@ impl<'a> Payload<'a> {
     unsafe extern "C" fn lua_log_remove_tag(L: *mut lua_State) -> c_int {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
-        let idx = idx(state.to_integer(2), (*pyld).logs.len());
+        let idx = idx(&mut state, (*pyld).logs.len());
         match state.to_str(3).map(|k| k.to_owned()) {
             Some(key) => match (*pyld).logs[idx].remove_tag(&key) {
                 Some(old_v) => {
@@ -384,7 +388,7 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
         let prcnt = state.to_number(3);
-        let idx = idx(state.to_integer(2), (*pyld).metrics.len());
+        let idx = idx(&mut state, (*pyld).metrics.len());
         match (*pyld).metrics[idx].query(prcnt) {
             Some(v) => {
                 state.push_number(v);
-- 
2.43.0


From 516da6b2549220850da20b8a63076ff9fdb0fa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:21 +0000
Subject: [PATCH 44/46] fix: programmable filter: a metric name that is no
 valid unicode is an error of the script

---
 src/filter/programmable_filter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filter/programmable_filter.rs b/src/filter/programmable_filter.rs
index 062d650..e5c0f89 100644
--- a/src/filter/programmable_filter.rs
+++ b/src/filter/programmable_filter.rs
@@ -93,7 +93,10 @@ impl<'a> Payload<'a> {
         let mut state = State::from_ptr(L);
         let pyld = state.to_userdata(1) as *mut Payload;
         let idx = idx(&mut state, (*pyld).metrics.len());
-        (*pyld).metrics[idx].name = state.check_string(3).into();
+        match state.to_str_in_place(3).map(|n| n.to_owned()) {
+            Some(name) => (*pyld).metrics[idx].name = name,
+            None => state.arg_error(3, "a name of valid unicode expected"),
+        }
         0
     }
 
-- 
2.43.0


From 8eba667ff929c017287264e8a4a4cbf39f999d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:46 +0000
Subject: [PATCH 45/46] fix: end filters and sinks which nothing forwards to at
 shutdown

---
 src/bin/cernan.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/bin/cernan.rs b/src/bin/cernan.rs
index fea9357..33ca100 100644
--- a/src/bin/cernan.rs
+++ b/src/bin/cernan.rs
@@ -344,6 +344,7 @@ fn main() {
     //
     if let Some(ref configs) = args.native_server_config {
         for (config_path, config) in configs {
+            config_topology.insert(config_path.clone(), config.forwards.clone());
             adjacency_matrix.add_edges(
                 &config_path.clone(),
                 config.forwards.clone(),
@@ -779,6 +780,15 @@ fn main() {
         }
     }
 
+    // Nothing forwards to these, so that no source's shutdown will ever reach
+    // them. We have to tell them ourselves, else we would wait for them forever.
+    let mut unfed: cernan::util::Channel = Vec::new();
+    for (config_path, send) in &senders {
+        if !config_topology.values().any(|fwds| fwds.contains(config_path)) {
+            unfed.push(send.clone());
+        }
+    }
+
     drop(flush_sends);
     drop(senders);
     cernan::source::FlushTimer::new(flush_channels, cernan::source::FlushTimerConfig)
@@ -801,6 +811,7 @@ fn main() {
         info!("Signaling shutdown to {:?}", id);
         source_worker.shutdown();
     }
+    cernan::util::send(&mut unfed, metric::Event::Shutdown);
 
     join_all(sinks);
     join_all(filters);
-- 
2.43.0


From 1c77ec6ce074e1f866d1c1899073400bca17d6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:16 +0000
Subject: [PATCH 46/46] fix: name a file source after its section

Two sections which follow the same path had one name, so that at shutdown
only one of them was told to end and whatever the other forwards to waited
for it forever.
---
 src/config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 235a549..1356411 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -820,12 +820,12 @@ fn parse_config_file(buffer: &str) -> Args {
 
         args.files = sources.get("files").map(|src| {
             let mut files = Vec::new();
-            for tbl in src.as_table().unwrap().values() {
+            for (name, tbl) in src.as_table().unwrap().iter() {
                 match tbl.get("path") {
                     Some(pth) => {
                         let mut fl = FileServerConfig::default();
                         fl.path = Some(Path::new(pth.as_str().unwrap()).to_path_buf());
-                        fl.config_path = Some(format!("sources.files.{}", pth));
+                        fl.config_path = Some(format!("sources.files.{}", name));
 
                         fl.forwards = tbl
                             .get("forwards")
-- 
2.43.0

