From ad2358801f79891848762dc0cd04bda14a5b8ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 01/14] sim: add hooks for deterministic simulation, off unless
 --cfg binate_sim

---
 binate/src/connection/mod.rs       |  5 ++
 binate/src/connection/sim.rs       | 85 ++++++++++++++++++++++++++++++
 binate/src/connection/socket.rs    |  8 +++
 binate/src/connection/stream_id.rs |  9 ++++
 4 files changed, 107 insertions(+)
 create mode 100644 binate/src/connection/sim.rs

diff --git a/binate/src/connection/mod.rs b/binate/src/connection/mod.rs
index d8f323f..2ec4ba9 100644
--- a/binate/src/connection/mod.rs
+++ b/binate/src/connection/mod.rs
@@ -6,6 +6,11 @@ mod counter;
 mod socket;
 mod stream_id;
 
+/// Simulation hooks, compiled only with `--cfg binate_sim`.
+#[cfg(binate_sim)]
+#[doc(hidden)]
+pub mod sim;
+
 pub use self::conn::{ConnectionStatus, DuplexConnection};
 pub use self::counter::RequestCounter;
 pub use self::stream_id::StreamIdProvider;
diff --git a/binate/src/connection/sim.rs b/binate/src/connection/sim.rs
new file mode 100644
index 0000000..96f0781
--- /dev/null
+++ b/binate/src/connection/sim.rs
@@ -0,0 +1,85 @@
+//! Doors for the deterministic simulator (`--cfg binate_sim`) to parts of this crate that have no
+//! public entry point yet. Nothing in here adds behaviour of its own.
+#![allow(missing_docs, missing_debug_implementations)]
+use super::buf::BufList;
+use super::conn::DuplexConnection;
+use super::socket::{RSocketMachine, Role};
+use crate::frame::DecodeError;
+use crate::payload::Payload;
+use crate::RSocket;
+
+use bytes::{Buf, Bytes};
+use std::convert::TryInto;
+use std::io::IoSlice;
+use std::time::Duration;
+
+/// The connection state machine.
+#[derive(Clone)]
+pub struct SimMachine(RSocketMachine);
+
+impl SimMachine {
+    pub async fn new(
+        client: bool,
+        connection: impl DuplexConnection + 'static,
+        keepalive_timeout: Duration,
+        chunk_payload: Option<usize>,
+    ) -> SimMachine {
+        let role = if client { Role::Client } else { Role::Server };
+        let mut machine =
+            RSocketMachine::new(role, connection, keepalive_timeout).await;
+        machine.sim_set_chunk_payload(chunk_payload);
+        SimMachine(machine)
+    }
+
+    pub fn rsocket(&self) -> &dyn RSocket {
+        &self.0
+    }
+
+    pub fn close(&mut self) {
+        self.0.close()
+    }
+}
+
+/// The receive buffer used for frame reassembly.
+pub struct SimBufList(BufList<Bytes>);
+
+impl SimBufList {
+    #[allow(clippy::new_without_default)]
+    pub fn new() -> SimBufList {
+        SimBufList(BufList::new())
+    }
+
+    pub fn push(&mut self, buf: Bytes) {
+        self.0.push(buf)
+    }
+
+    pub fn segments(&self) -> usize {
+        self.0.len()
+    }
+
+    pub fn into_payload(self) -> Result<Payload, DecodeError> {
+        self.0.try_into()
+    }
+}
+
+impl Buf for SimBufList {
+    fn remaining(&self) -> usize {
+        self.0.remaining()
+    }
+
+    fn chunk(&self) -> &[u8] {
+        self.0.chunk()
+    }
+
+    fn advance(&mut self, cnt: usize) {
+        self.0.advance(cnt)
+    }
+
+    fn chunks_vectored<'t>(&'t self, dst: &mut [IoSlice<'t>]) -> usize {
+        self.0.chunks_vectored(dst)
+    }
+
+    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
+        self.0.copy_to_bytes(len)
+    }
+}
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..d401200 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -122,6 +122,14 @@ impl RSocketMachine {
     }
 }
 
+/// Simulation hook: fragmentation has no public switch yet.
+#[cfg(binate_sim)]
+impl RSocketMachine {
+    pub(super) fn sim_set_chunk_payload(&mut self, size: Option<usize>) {
+        self.chunk_payload = size;
+    }
+}
+
 impl RequestHanlder {
     pub(crate) async fn set_request_handler(&self, handler: Box<dyn RSocket>) {
         let mut wtr = self.0.write().await;
diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..91288b3 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -46,6 +46,15 @@ impl StreamIdProvider {
     }
 }
 
+/// Simulation hook: lets the simulator start a provider anywhere in the ID space.
+#[cfg(binate_sim)]
+impl StreamIdProvider {
+    #[doc(hidden)]
+    pub fn sim_starting_at(init: i32) -> StreamIdProvider {
+        StreamIdProvider::_new(init)
+    }
+}
+
 #[cfg(all(test, not(loom)))]
 mod tests {
     use super::*;
-- 
2.43.0


From 849c4b907d535b8990198ad319d422033340fb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 02/14] fix: never hand out stream ID 0 when server stream IDs
 wrap around

---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index 91288b3..246a84e 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 is reserved for the connection, and even IDs pass it on wraparound.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 55c06d9f82aa86f42ca920b82c5a8c452418ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 03/14] fix: count payload chunks exactly

The chunk count went through f32, which is off for parts above 2^24 bytes, and
did not count the chunk that an empty part yields. The count decides which
fragment of a request ends it, so such a request never ended on the wire.
---
 binate/src/payload.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..4c5e8cf 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,14 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        // A part that is present yields at least one chunk, even if it is empty.
+        let count = |part: &Option<Bytes>| match part {
+            Some(bytes) if bytes.is_empty() => 1,
+            Some(bytes) => (bytes.len() - 1) / self.chunk_size + 1,
+            None => 0,
+        };
+
+        cmp::max(count(&self.metadata), count(&self.data))
     }
 }
 
-- 
2.43.0


From 3ecf959706a06416cf3a593cfa10a20808954c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 04/14] fix: send fire-and-forget requests without payload when
 fragmenting

---
 binate/src/connection/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index d401200..739b6a5 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -156,7 +156,9 @@ impl RSocket for RSocketMachine {
     fn fire_and_forget(&self, payload: Payload) -> Result<()> {
         let stream_id = self.stream_id.next_stream_id(&self.receivers);
 
-        if let Some(chunk_size) = self.chunk_payload {
+        // A payload without metadata and data has no chunks, but still is a request.
+        let chunk_size = self.chunk_payload.filter(|_| !payload.is_empty());
+        if let Some(chunk_size) = chunk_size {
             let chunks = payload.chunks(chunk_size);
             let chunks_len = chunks.len();
             for (idx, chunked) in chunks.enumerate() {
-- 
2.43.0


From 65ded77d8eac69f7f2c0fe7c739110d53c538b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 05/14] fix: reject extension frames instead of panicking on
 them

---
 binate/src/frame/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..d1545a6 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -171,7 +171,9 @@ impl Frame {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    frame_type.value(),
+                ));
             }
         })
     }
-- 
2.43.0


From 9e4f874beda6cac79a04a5eceaaf3725a3e3ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 06/14] fix: encode the resume token field of setup frames iff
 the RESUME flag is set

Without a token the length of the frame was off by two, and with the flag but
no token the decoder read the following fields as the token.
---
 binate/src/frame/codec/setup.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..915af22 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -145,7 +145,8 @@ impl Encode for SetupFrame {
         self.version.encode(buf);
         buf.put_u32(self.keepalive_interval);
         buf.put_u32(self.keepalive_timeout);
-        if let Some(token) = &self.resume_token {
+        if self.is_resume() {
+            let token = self.resume_token.as_deref().unwrap_or_default();
             buf.put_u16(token.len() as u16);
             buf.put_slice(token);
         }
@@ -167,12 +168,13 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
 
+        // len(token_length): 2
         // len(resume_token)
-        if let Some(resume_token) = &self.resume_token {
-            len += resume_token.len();
+        if self.is_resume() {
+            len += 2;
+            len += self.resume_token.as_deref().unwrap_or_default().len();
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From 1ee4b51cf0e0a5a2fc412f943bb2737897be4657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 07/14] fix: refuse MIME types that do not fit the 8-bit length
 of setup frames

---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 915af22..337c510 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -310,7 +310,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -319,7 +319,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -331,7 +331,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -340,7 +340,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From caea2b16adc3fd21af64b11672c945dc60140381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 08/14] fix: subscribe to the connection status once

Each status stream immediately publishes the current status, so subscribing
again for every status handled the same one over and over without ever
yielding to the runtime.
---
 binate/src/connection/socket.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 739b6a5..b9b5b43 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -70,9 +70,9 @@ impl RSocketMachine {
         // Listens to the connection status.
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
-            while let Some(status) =
-                cloned_rsm.connection.connection_status().next().await
-            {
+            // Subscribe only once: every new status stream starts by repeating the current status.
+            let mut statuses = cloned_rsm.connection.connection_status();
+            while let Some(status) = statuses.next().await {
                 match status {
                     ConnectionStatus::Closed => {
                         cloned_rsm.handle_transport_close();
-- 
2.43.0


From f7c48b49def7449b737f108a069f2d5e6b09394c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 09/14] fix: let received keepalives defer the keepalive
 timeout

The time of the last keepalive was never updated, so every connection was
closed once the timeout had passed since it was set up.
---
 binate/src/connection/socket.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index b9b5b43..b33beef 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -11,7 +11,7 @@ use crate::{Flux, Metadata, Mono, RSocket};
 
 use dashmap::DashMap;
 use std::fmt;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use std::time::Duration;
 use tokio::sync::RwLock;
 use tokio::time::Instant;
@@ -38,7 +38,7 @@ pub(crate) struct RSocketMachine {
     request_n: Arc<RequestCounter>,
     chunk_payload: Option<usize>,
     keepalive_timeout: Duration,
-    keepalive_last_received: Instant,
+    keepalive_last_received: Arc<Mutex<Instant>>,
 }
 
 impl RSocketMachine {
@@ -64,7 +64,7 @@ impl RSocketMachine {
             request_n: Arc::new(RequestCounter::new(0)),
             chunk_payload: None,
             keepalive_timeout,
-            keepalive_last_received: Instant::now(),
+            keepalive_last_received: Arc::new(Mutex::new(Instant::now())),
         };
 
         // Listens to the connection status.
@@ -85,14 +85,26 @@ impl RSocketMachine {
             }
         });
 
+        // Listens to the keepalives of the remote peer.
+        let cloned_rsm = rsm.clone();
+        runtime::spawn(async move {
+            let mut frames = cloned_rsm.connection.receive();
+            while let Some(frame) = frames.next().await {
+                if let Frame::Keepalive(_) = frame {
+                    *cloned_rsm.keepalive_last_received.lock().unwrap() =
+                        Instant::now();
+                }
+            }
+        });
+
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
             loop {
                 tokio::time::sleep(cloned_rsm.keepalive_timeout).await;
+                let last_received =
+                    *cloned_rsm.keepalive_last_received.lock().unwrap();
                 let now = Instant::now();
-                if now - cloned_rsm.keepalive_last_received
-                    > cloned_rsm.keepalive_timeout
-                {
+                if now - last_received > cloned_rsm.keepalive_timeout {
                     cloned_rsm.handle_connection_error(&KeepaliveTimeout);
                     break;
                 }
-- 
2.43.0


From ae012f5f4716716e29b228c3d39df01b9deba776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 10/14] fix: saturate the request counter instead of
 overflowing it

Adding permits beyond 2^31 - 1 wrapped to a negative count, which took all the
permits away.
---
 binate/src/connection/counter.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index d85523a..929eac7 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -22,9 +22,14 @@ impl RequestCounter {
         self.0.load(Ordering::SeqCst) == 0
     }
 
-    /// Adds permits to this counter.
+    /// Adds permits to this counter, which holds at most 2^31 - 1 of them.
     pub fn add(&self, n: u32) {
-        self.0.fetch_add(n as i32, Ordering::SeqCst);
+        let n = n.min(COUNTER_MASK) as i32;
+        let _ = self.0.fetch_update(
+            Ordering::SeqCst,
+            Ordering::SeqCst,
+            |count| Some(count.saturating_add(n)),
+        );
     }
 
     /// Returns the count this counter stores.
-- 
2.43.0


From 6864a060c0c37b5a4cfa585f99a3caadf14120b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 11/14] fix: convert well-known MIME types to strings without
 recursing forever

---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..5526ee4 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
         }
     }
 }
-- 
2.43.0


From 5f90e7727ffcd27cb5d266278937ff68cb655a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 12/14] sim: let the receive buffer hook hold any kind of
 segment

---
 binate/src/connection/sim.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/binate/src/connection/sim.rs b/binate/src/connection/sim.rs
index 96f0781..080b4df 100644
--- a/binate/src/connection/sim.rs
+++ b/binate/src/connection/sim.rs
@@ -41,15 +41,15 @@ impl SimMachine {
 }
 
 /// The receive buffer used for frame reassembly.
-pub struct SimBufList(BufList<Bytes>);
+pub struct SimBufList<T = Bytes>(BufList<T>);
 
-impl SimBufList {
+impl<T: Buf> SimBufList<T> {
     #[allow(clippy::new_without_default)]
-    pub fn new() -> SimBufList {
+    pub fn new() -> SimBufList<T> {
         SimBufList(BufList::new())
     }
 
-    pub fn push(&mut self, buf: Bytes) {
+    pub fn push(&mut self, buf: T) {
         self.0.push(buf)
     }
 
@@ -62,7 +62,7 @@ impl SimBufList {
     }
 }
 
-impl Buf for SimBufList {
+impl<T: Buf> Buf for SimBufList<T> {
     fn remaining(&self) -> usize {
         self.0.remaining()
     }
-- 
2.43.0


From 3440bf4bea66ba0855160ea5e27b7e8a30c95180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:54 +0000
Subject: [PATCH 13/14] fix: error frames carry all 32 bits of their code

Error codes of applications go up to MAX_APPLICATION_ERROR_CODE (0xFFFFFFFE), but
ErrorFrame::new cut them to 31 bits (and panicked in debug builds), so that the peer
received another code.
---
 binate/src/frame/codec/error.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..c0d8f5b 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,16 +108,11 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
-        ErrorFrame {
-            stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
-            data,
-        }
+        ErrorFrame { stream_id: stream_id & MAX_U31, code: error_code, data }
     }
 
     /// Returns the stream ID of this frame.
-- 
2.43.0


From cb6fe6d14998317b38e03006ae046eec4a65ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:55 +0000
Subject: [PATCH 14/14] sim: let a connection start anywhere in the stream id
 space

---
 binate/src/connection/sim.rs    | 5 +++++
 binate/src/connection/socket.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/sim.rs b/binate/src/connection/sim.rs
index 080b4df..7216316 100644
--- a/binate/src/connection/sim.rs
+++ b/binate/src/connection/sim.rs
@@ -31,6 +31,11 @@ impl SimMachine {
         SimMachine(machine)
     }
 
+    /// As if the connection had used up all stream IDs before this one.
+    pub fn start_ids_at(&mut self, init: i32) {
+        self.0.sim_start_ids_at(init)
+    }
+
     pub fn rsocket(&self) -> &dyn RSocket {
         &self.0
     }
diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index b33beef..925bc5d 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -134,12 +134,17 @@ impl RSocketMachine {
     }
 }
 
-/// Simulation hook: fragmentation has no public switch yet.
+/// Simulation hooks: fragmentation has no public switch yet, and the life of a connection may
+/// start anywhere in the stream ID space.
 #[cfg(binate_sim)]
 impl RSocketMachine {
     pub(super) fn sim_set_chunk_payload(&mut self, size: Option<usize>) {
         self.chunk_payload = size;
     }
+
+    pub(super) fn sim_start_ids_at(&mut self, init: i32) {
+        self.stream_id = Arc::new(StreamIdProvider::sim_starting_at(init));
+    }
 }
 
 impl RequestHanlder {
-- 
2.43.0

