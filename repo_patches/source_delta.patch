From fdfa5b52975d7d2f5d646ee12ab0c8b37ea5e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 01/18] fix: append received bytes after the unparsed ones
 instead of overwriting them

---
 app/roster/src/application/server/connection.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/connection.rs b/app/roster/src/application/server/connection.rs
index 7341ae6..58b2cf9 100644
--- a/app/roster/src/application/server/connection.rs
+++ b/app/roster/src/application/server/connection.rs
@@ -2,6 +2,7 @@ use std::fmt::Debug;
 use std::io::{self, Cursor};
 
 use bytes::BytesMut;
+use monoio::buf::IoBufMut;
 use monoio::io::{
     AsyncReadRent, BufReader, BufWriter, OwnedReadHalf, OwnedWriteHalf,
     Splitable,
@@ -63,9 +64,15 @@ impl ReadConnection {
             let mut in_going = BytesMut::new();
             std::mem::swap(&mut self.buffer, &mut in_going);
 
+            // The bytes received are written *after* the ones which are still
+            // waiting to be parsed, so we need some room for them.
+            let pending = in_going.len();
+            in_going.reserve(4 * 1024);
+
             // TODO: Timeout
-            let (size, buf) = self.stream_r.read(in_going).await;
-            self.buffer = buf;
+            let (size, buf) =
+                self.stream_r.read(in_going.slice_mut(pending..)).await;
+            self.buffer = buf.into_inner();
 
             // There is not enough buffered data to read a frame. Attempt to
             // read more data from the socket.
-- 
2.43.0


From 8f74f236b7abc93bb7e99eb0fd68da33286b40f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 02/18] fix: encode a whole reply before writing it, so no byte
 of it is lost or overflows the write buffer

---
 .../src/application/server/frame/write.rs     | 46 +++++++++++++++++--
 1 file changed, 41 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index 6b869f4..c2d0300 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -1,8 +1,9 @@
 use std::io;
 use std::io::Cursor;
 
-use monoio::buf::IoBuf;
-use monoio::io::AsyncWriteRent;
+use monoio::buf::{IoBuf, IoVecBuf, IoVecWrapper};
+use monoio::io::{AsyncWriteRent, AsyncWriteRentExt};
+use monoio::BufResult;
 
 use crate::application::server::frame::Frame;
 
@@ -84,13 +85,48 @@ async fn write_value(
     Ok(())
 }
 
+/// In memory destination of an encoded frame.
+struct EncodedFrame(Vec<u8>);
+
+impl AsyncWriteRent for EncodedFrame {
+    async fn write<T: IoBuf>(&mut self, buf: T) -> BufResult<usize, T> {
+        let len = buf.bytes_init();
+        // SAFETY: `IoBuf` guarantees `bytes_init` bytes can be read there.
+        self.0.extend_from_slice(unsafe {
+            std::slice::from_raw_parts(buf.read_ptr(), len)
+        });
+        (Ok(len), buf)
+    }
+
+    async fn writev<T: IoVecBuf>(&mut self, buf_vec: T) -> BufResult<usize, T> {
+        let buf = match IoVecWrapper::new(buf_vec) {
+            Ok(buf) => buf,
+            Err(buf_vec) => return (Ok(0), buf_vec),
+        };
+        let (result, buf) = self.write(buf).await;
+        (result, buf.into_inner())
+    }
+
+    async fn flush(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+
+    async fn shutdown(&mut self) -> io::Result<()> {
+        Ok(())
+    }
+}
+
 pub async fn write_frame(
     buf_w: &mut impl AsyncWriteRent,
     frame: &Frame,
 ) -> io::Result<()> {
-    write_value(buf_w, frame).await?;
-    // Ensure the encoded frame is written to the socket. The calls above
-    // are to the buffered stream and writes. Calling `flush` writes the
+    // The whole frame is encoded in memory first: a write on the stream can be
+    // short, only `write_all` guarantees every byte reaches the buffer.
+    let mut encoded = EncodedFrame(Vec::new());
+    write_value(&mut encoded, frame).await?;
+    buf_w.write_all(encoded.0).await.0?;
+    // Ensure the encoded frame is written to the socket. The call above
+    // is to the buffered stream and writes. Calling `flush` writes the
     // remaining contents of the buffer to the socket.
     buf_w.flush().await
 }
-- 
2.43.0


From 2d8913ae7cee75e6c459b3760f252b7084cd2439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:51 +0000
Subject: [PATCH 03/18] fix: SET replaces the value of an existing key,
 atomically

---
 app/roster/src/domain/storage/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/domain/storage/mod.rs b/app/roster/src/domain/storage/mod.rs
index c02d037..c26d538 100644
--- a/app/roster/src/domain/storage/mod.rs
+++ b/app/roster/src/domain/storage/mod.rs
@@ -84,11 +84,16 @@ impl StorageSegment {
             dbg!(old);
         }
 
-        if let Err((key, val)) = self.db.insert(key, val) {
-            let old = self.db.update(&key, |_, _| val);
-            Ok(old)
-        } else {
-            Ok(None)
+        // The lookup and the write are done under the same bucket lock, so the
+        // key cannot be removed in between.
+        match self.db.entry(key) {
+            scc::hash_map::Entry::Occupied(mut entry) => {
+                Ok(Some(entry.insert(val)))
+            }
+            scc::hash_map::Entry::Vacant(entry) => {
+                entry.insert_entry(val);
+                Ok(None)
+            }
         }
     }
 
-- 
2.43.0


From 7dcf33b59e96fde97616a5efd522fb558cacb1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 04/18] fix: an error on a connection closes that connection
 only, it does not abort the server

---
 app/roster/src/application/server/server_thread.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 4e184d7..8788e80 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -109,10 +109,9 @@ impl ServerMonoThreadedHandle {
                         };
 
                         if let Err(err) = handler.run(ctx).await {
-                            dbg!(err.backtrace());
-                            dbg!(&err);
-                            // error!(?err);
-                            panic!("blbl");
+                            // Only this connection is concerned: it's closed,
+                            // the others are still served.
+                            tracing::warn!(?err);
                         }
 
                         meta_conn.stop();
-- 
2.43.0


From 55e3ec49314d07dd358e5eef45ceb5e521f5658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:00 +0000
Subject: [PATCH 05/18] fix: a failed accept does not stop the server from
 accepting connections

---
 .../src/application/server/server_thread.rs   | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 8788e80..060e8dc 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -1,6 +1,7 @@
 use std::os::fd::AsRawFd;
 use std::rc::Rc;
 use std::thread::JoinHandle;
+use std::time::Duration;
 
 use monoio::net::{ListenerConfig, TcpListener};
 
@@ -80,19 +81,36 @@ impl ServerMonoThreadedHandle {
                     let shard = shard.clone();
 
                     // We accept the TCP Connection
-                    let (conn, addr) = listener
-                        .accept()
-                        .await
-                        .expect("Unable to accept connections");
+                    let (conn, addr) = match listener.accept().await {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            // It's either about this connection only or about
+                            // a lack of resources (file descriptors, memory):
+                            // we wait a little and go on.
+                            tracing::warn!(?err);
+                            monoio::time::sleep(Duration::from_millis(10))
+                                .await;
+                            continue;
+                        }
+                    };
 
-                    let laddr = conn.local_addr()?;
+                    // The peer can already be gone.
+                    let laddr = match conn.local_addr() {
+                        Ok(laddr) => laddr,
+                        Err(err) => {
+                            tracing::warn!(?err);
+                            continue;
+                        }
+                    };
                     let fd = conn.as_raw_fd();
 
                     let meta_conn =
                         self.supervisor.assign_new_connection(addr, laddr, fd);
                     let supervisor = self.supervisor.clone();
 
-                    conn.set_nodelay(true).unwrap();
+                    if let Err(err) = conn.set_nodelay(true) {
+                        tracing::warn!(?err);
+                    }
                     let ctx =
                         Context::new(storage, supervisor, meta_conn.clone());
 
-- 
2.43.0


From b2fffe70459bc437ce60b1b457aa12547f2a51cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 06/18] fix: a request received after the answers of a
 connection ended does not abort the server

---
 app/roster/src/application/server/handle.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 8a9c78c..18ee5c1 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -82,7 +82,11 @@ impl Handler {
                         None => return Ok::<_, anyhow::Error>(()),
                     };
 
-                    tx.send(frame).unwrap();
+                    // The answering side can already have ended, on an error:
+                    // there is nothing left to read for.
+                    if tx.send(frame).is_err() {
+                        return Ok(());
+                    }
                 }
             };
 
-- 
2.43.0


From b653345b86293dbec37b5b086e51bde62cd942f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 07/18] fix: an invalid simple string is a protocol error, not
 a panic

---
 app/roster/src/application/server/frame/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index c641924..6b4209a 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -125,14 +125,18 @@ impl Frame {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line).map_err(|_| {
+                    Error::from("protocol error; invalid string")
+                })?;
 
                 Ok(Frame::Simple(string))
             }
             b'-' => {
                 // Read the line and convert it to `Vec<u8>`
                 let line = get_line(src)?;
-                let string = ByteString::try_from(line).unwrap();
+                let string = ByteString::try_from(line).map_err(|_| {
+                    Error::from("protocol error; invalid string")
+                })?;
 
                 Ok(Frame::Error(string))
             }
@@ -192,7 +196,11 @@ impl Frame {
 
                 Ok(Frame::Map(out))
             }
-            _ => unimplemented!(),
+            actual => Err(format!(
+                "protocol error; invalid frame type byte `{}`",
+                actual
+            )
+            .into()),
         }
     }
 }
-- 
2.43.0


From f1a5af4af3cd6eae69772727ae6bf8799816723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:25 +0000
Subject: [PATCH 08/18] fix: a map used as the key of a map does not panic

---
 app/roster/src/application/server/frame/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 6b4209a..b5eb9a7 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -45,9 +45,10 @@ impl core::hash::Hash for Frame {
             Frame::Array(f0) => {
                 f0.hash(ra_expand_state);
             }
-            Frame::Map(_) => {
-                // TODO: Should test the behavior of redis in this case.
-                unimplemented!("")
+            Frame::Map(f0) => {
+                // The equality of maps does not depend on the order of their
+                // entries, so neither can their hash.
+                f0.len().hash(ra_expand_state);
             }
         }
     }
-- 
2.43.0


From 8408c51288f617a54660db57cb41477269d8f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 09/18] fix: a declared length close to the maximum does not
 overflow

---
 app/roster/src/application/server/frame/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index b5eb9a7..2a07009 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -90,7 +90,10 @@ impl Frame {
                     let len: usize = get_decimal_mut(src)?.try_into()?;
 
                     // skip that number of bytes + 2 (\r\n).
-                    skip_mut(src, len + 2)
+                    let n = len.checked_add(2).ok_or(
+                        "protocol error; invalid frame format",
+                    )?;
+                    skip_mut(src, n)
                 }
             }
             b'*' => {
@@ -106,7 +109,8 @@ impl Frame {
                 let len = get_decimal_mut(src)?;
 
                 // Key and value frames
-                for _ in 0..(len * 2) {
+                for _ in 0..len {
+                    Frame::check(src)?;
                     Frame::check(src)?;
                 }
 
@@ -159,7 +163,9 @@ impl Frame {
                 } else {
                     // Read the bulk string
                     let len: usize = get_decimal(src)?.try_into()?;
-                    let n = len + 2;
+                    let n = len.checked_add(2).ok_or(
+                        "protocol error; invalid frame format",
+                    )?;
 
                     if src.remaining() < n {
                         return Err(Error::Incomplete);
@@ -189,7 +195,7 @@ impl Frame {
                 let len = get_decimal(src)?.try_into()?;
                 let mut out = IndexMap::with_capacity(len);
 
-                for _ in (0..(len * 2)).step_by(2) {
+                for _ in 0..len {
                     let key = Frame::parse(src)?;
                     let value = Frame::parse(src)?;
                     out.insert(key, value);
-- 
2.43.0


From 916d7bd3d0c56215bfa57e75e494cd3377bad0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 10/18] fix: bound the nesting of frames, so a message cannot
 exhaust the stack

---
 .../src/application/server/frame/mod.rs       | 41 ++++++++++++++++---
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/app/roster/src/application/server/frame/mod.rs b/app/roster/src/application/server/frame/mod.rs
index 2a07009..5081bfc 100644
--- a/app/roster/src/application/server/frame/mod.rs
+++ b/app/roster/src/application/server/frame/mod.rs
@@ -12,6 +12,9 @@ use indexmap::IndexMap;
 
 pub(crate) mod write;
 
+/// How many arrays & maps can be nested in a message.
+const MAX_DEPTH: usize = 32;
+
 /// A frame in the Redis protocol.
 #[derive(Clone, Debug, Eq, PartialEq)]
 pub enum Frame {
@@ -68,6 +71,13 @@ pub enum Error {
 impl Frame {
     /// Checks if an entire message can be decoded from `src`
     pub fn check(src: &mut Cursor<&BytesMut>) -> Result<(), Error> {
+        Frame::check_nested(src, MAX_DEPTH)
+    }
+
+    fn check_nested(
+        src: &mut Cursor<&BytesMut>,
+        depth: usize,
+    ) -> Result<(), Error> {
         match get_u8_mut(src)? {
             b'+' => {
                 get_line_mut_no_return(src)?;
@@ -97,21 +107,27 @@ impl Frame {
                 }
             }
             b'*' => {
+                let depth = depth
+                    .checked_sub(1)
+                    .ok_or("protocol error; too many nested frames")?;
                 let len = get_decimal_mut(src)?;
 
                 for _ in 0..len {
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth)?;
                 }
 
                 Ok(())
             }
             b'%' => {
+                let depth = depth
+                    .checked_sub(1)
+                    .ok_or("protocol error; too many nested frames")?;
                 let len = get_decimal_mut(src)?;
 
                 // Key and value frames
                 for _ in 0..len {
-                    Frame::check(src)?;
-                    Frame::check(src)?;
+                    Frame::check_nested(src, depth)?;
+                    Frame::check_nested(src, depth)?;
                 }
 
                 Ok(())
@@ -126,6 +142,13 @@ impl Frame {
 
     /// The message has already been validated with `check`.
     pub fn parse(src: &mut Cursor<Bytes>) -> Result<Frame, Error> {
+        Frame::parse_nested(src, MAX_DEPTH)
+    }
+
+    fn parse_nested(
+        src: &mut Cursor<Bytes>,
+        depth: usize,
+    ) -> Result<Frame, Error> {
         match get_u8(src)? {
             b'+' => {
                 // Read the line and convert it to `Vec<u8>`
@@ -182,22 +205,28 @@ impl Frame {
                 }
             }
             b'*' => {
+                let depth = depth
+                    .checked_sub(1)
+                    .ok_or("protocol error; too many nested frames")?;
                 let len = get_decimal(src)?.try_into()?;
                 let mut out = Vec::with_capacity(len);
 
                 for _ in 0..len {
-                    out.push(Frame::parse(src)?);
+                    out.push(Frame::parse_nested(src, depth)?);
                 }
 
                 Ok(Frame::Array(out))
             }
             b'%' => {
+                let depth = depth
+                    .checked_sub(1)
+                    .ok_or("protocol error; too many nested frames")?;
                 let len = get_decimal(src)?.try_into()?;
                 let mut out = IndexMap::with_capacity(len);
 
                 for _ in 0..len {
-                    let key = Frame::parse(src)?;
-                    let value = Frame::parse(src)?;
+                    let key = Frame::parse_nested(src, depth)?;
+                    let value = Frame::parse_nested(src, depth)?;
                     out.insert(key, value);
                 }
 
-- 
2.43.0


From d7bf896a52b1118b147010537c91c661cab43d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 11/18] fix: line breaks sent by a client cannot end a simple
 string or an error reply early

---
 app/roster/src/application/server/frame/write.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/frame/write.rs b/app/roster/src/application/server/frame/write.rs
index c2d0300..1a8f69e 100644
--- a/app/roster/src/application/server/frame/write.rs
+++ b/app/roster/src/application/server/frame/write.rs
@@ -27,6 +27,17 @@ async fn write_decimal(
     Ok(())
 }
 
+/// The bytes of a simple string or of an error, which are terminated by the
+/// first line break: they can't contain any.
+fn line_bytes(val: &str) -> Vec<u8> {
+    val.bytes()
+        .map(|b| match b {
+            b'\r' | b'\n' => b' ',
+            b => b,
+        })
+        .collect()
+}
+
 /// Write a value
 #[async_recursion::async_recursion(?Send)]
 async fn write_value(
@@ -36,12 +47,12 @@ async fn write_value(
     match frame {
         Frame::Simple(val) => {
             buf_w.write(&[b'+']).await.0?;
-            buf_w.write(val.as_bytes().slice(..)).await.0?;
+            buf_w.write(line_bytes(val)).await.0?;
             buf_w.write(&[b'\r', b'\n']).await.0?;
         }
         Frame::Error(val) => {
             buf_w.write(&[b'-']).await.0?;
-            buf_w.write(val.as_bytes().slice(..)).await.0?;
+            buf_w.write(line_bytes(val)).await.0?;
             buf_w.write(&[b'\r', b'\n']).await.0?;
         }
         Frame::Integer(val) => {
-- 
2.43.0


From 9c78411aac7f0f790605e8c7929442be85f34044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 12/18] fix: CLIENT SETNAME refuses names with spaces, and an
 empty name removes the name

---
 .../application/server/cmd/client/set_name.rs    | 16 ++++++++++++++--
 .../src/application/server/supervisor/mod.rs     |  4 ++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/set_name.rs b/app/roster/src/application/server/cmd/client/set_name.rs
index 5f1929d..91666ce 100644
--- a/app/roster/src/application/server/cmd/client/set_name.rs
+++ b/app/roster/src/application/server/cmd/client/set_name.rs
@@ -52,9 +52,21 @@ impl ClientSetName {
         dst: &mut WriteConnection,
         ctx: Context,
     ) -> anyhow::Result<()> {
-        ctx.connection.set_name(self.name).await;
+        // It would violate the format of the CLIENT LIST reply.
+        let is_valid = !self
+            .name
+            .chars()
+            .any(|c| c.is_whitespace() || c.is_control());
 
-        let response = Frame::Simple(ByteString::from_static("OK"));
+        let response = if is_valid {
+            ctx.connection.set_name(self.name).await;
+            Frame::Simple(ByteString::from_static("OK"))
+        } else {
+            Frame::Error(ByteString::from_static(
+                "ERR Client names cannot contain spaces, newlines or special \
+                 characters.",
+            ))
+        };
         dst.write_frame(&response).await?;
 
         Ok(())
diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c5f59fe..c45fa10 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -114,10 +114,10 @@ impl MetadataConnection {
             .store(true, std::sync::atomic::Ordering::Relaxed);
     }
 
-    /// Set the name of the connection
+    /// Set the name of the connection, an empty name removes it.
     pub async fn set_name(&self, name: ByteString) {
         let mut lock = self.name.write().await;
-        *lock = Some(name);
+        *lock = if name.is_empty() { None } else { Some(name) };
     }
 
     /// Set the name of the connection
-- 
2.43.0


From 0429b27f7e07caa3ee63e92fa602d9380de5971c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 13/18] fix: ACL CAT replies an error instead of aborting the
 server

---
 app/roster/src/application/server/cmd/acl/cat.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index b989834..ff9302e 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -3,6 +3,7 @@ use bytestring::ByteString;
 use super::super::parse::Parse;
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
+use crate::application::server::frame::Frame;
 
 /// The command shows the available ACL categories if called without arguments.
 /// If a category name is given, the command shows all the Redis commands in the
@@ -54,15 +55,15 @@ impl AclCat {
     /// to execute a received command.
     pub(crate) async fn apply(
         self,
-        _dst: &mut WriteConnection,
+        dst: &mut WriteConnection,
         _ctx: Context,
     ) -> anyhow::Result<()> {
-        unimplemented!()
+        let response = Frame::Error(ByteString::from_static(
+            "ERR 'ACL CAT' is not supported",
+        ));
 
-        /*
-        let response = Frame::Simple(ByteString::from_static("OK"));
         dst.write_frame(&response).await?;
+
         Ok(())
-        */
     }
 }
-- 
2.43.0


From 3d053cd35c895febd0ecda9bd2cc4d9b07d3fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 14/18] fix: SET refuses a time to live which overflows the
 clock

---
 app/roster/src/application/server/cmd/set.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/app/roster/src/application/server/cmd/set.rs b/app/roster/src/application/server/cmd/set.rs
index 51f1e8c..1548a7a 100644
--- a/app/roster/src/application/server/cmd/set.rs
+++ b/app/roster/src/application/server/cmd/set.rs
@@ -52,6 +52,10 @@ pub struct Set {
     expire: Option<Duration>,
 }
 
+/// The longest time to live of a key: the clock counts the seconds on 32 bits,
+/// the time to live is added to the uptime.
+const EXPIRE_MAX: Duration = Duration::from_secs(u32::MAX as u64 / 2);
+
 static OK_STR: ByteString = ByteString::from_static("OK");
 
 impl Set {
@@ -114,6 +118,11 @@ impl Set {
             Err(err) => return Err(err.into()),
         }
 
+        // It would overflow once added to the current time.
+        if expire.is_some_and(|expire| expire > EXPIRE_MAX) {
+            return Err(anyhow::anyhow!("invalid expire time in `SET`"));
+        }
+
         Ok(Set { key, value, expire })
     }
 }
-- 
2.43.0


From 4d90ffc74b31579a288787973df66ea1518a148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 15/18] fix: forget about a connection once it is closed

---
 app/roster/src/application/server/server_thread.rs  | 3 ++-
 app/roster/src/application/server/supervisor/mod.rs | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/app/roster/src/application/server/server_thread.rs b/app/roster/src/application/server/server_thread.rs
index 060e8dc..c8cd13c 100644
--- a/app/roster/src/application/server/server_thread.rs
+++ b/app/roster/src/application/server/server_thread.rs
@@ -107,6 +107,7 @@ impl ServerMonoThreadedHandle {
                     let meta_conn =
                         self.supervisor.assign_new_connection(addr, laddr, fd);
                     let supervisor = self.supervisor.clone();
+                    let local_supervisor = self.supervisor.clone();
 
                     if let Err(err) = conn.set_nodelay(true) {
                         tracing::warn!(?err);
@@ -132,7 +133,7 @@ impl ServerMonoThreadedHandle {
                             tracing::warn!(?err);
                         }
 
-                        meta_conn.stop();
+                        local_supervisor.release(&meta_conn);
                         // handler.connection.stop().await.unwrap();
                     });
                 }
diff --git a/app/roster/src/application/server/supervisor/mod.rs b/app/roster/src/application/server/supervisor/mod.rs
index c45fa10..c6b5797 100644
--- a/app/roster/src/application/server/supervisor/mod.rs
+++ b/app/roster/src/application/server/supervisor/mod.rs
@@ -64,6 +64,12 @@ impl Supervisor {
         conn
     }
 
+    /// Forget about a connection which is closed.
+    pub fn release(&self, conn: &MetadataConnection) {
+        conn.stop();
+        self.current_connections.remove(&conn.id);
+    }
+
     /// Get the list of [MetadataConnection] for normal connection.
     pub async fn get_normal_connection(&self) -> Vec<Arc<MetadataConnection>> {
         let mut result = Vec::new();
-- 
2.43.0


From 182385d9ab790275f9089947e99dab8b06dbfb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:30 +0000
Subject: [PATCH 16/18] fix: a connection is served until everything it sent is
 answered

When the client closes its writing side, the task which reads ends first:
the handler returned then, and the connection was taken out of the registry
while its last requests were still being executed and answered.
---
 app/roster/src/application/server/handle.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/handle.rs b/app/roster/src/application/server/handle.rs
index 18ee5c1..760f8c3 100644
--- a/app/roster/src/application/server/handle.rs
+++ b/app/roster/src/application/server/handle.rs
@@ -110,7 +110,7 @@ impl Handler {
             result
         });
 
-        let answer_in_order_handle = monoio::spawn(async move {
+        let mut answer_in_order_handle = monoio::spawn(async move {
             if let Some(current_command) = current_command {
                 current_command.apply(&mut connection, ctx.clone()).await?;
             }
@@ -176,9 +176,12 @@ impl Handler {
 
         monoio::select! {
             r = accepting_frames_handle => {
+                // Nothing more will be read, but what was read before still
+                // has to be answered: the connection is served until then.
+                answer_in_order_handle.await?;
                 r
             }
-            r = answer_in_order_handle => {
+            r = &mut answer_in_order_handle => {
                 r
             }
         }
-- 
2.43.0


From aac21bdafdedb98609f285e0efa531b4e5f01b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 17/18] fix: ACL CAT refuses a category which is not a string

---
 app/roster/src/application/server/cmd/acl/cat.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/app/roster/src/application/server/cmd/acl/cat.rs b/app/roster/src/application/server/cmd/acl/cat.rs
index ff9302e..1bfe9d5 100644
--- a/app/roster/src/application/server/cmd/acl/cat.rs
+++ b/app/roster/src/application/server/cmd/acl/cat.rs
@@ -1,6 +1,6 @@
 use bytestring::ByteString;
 
-use super::super::parse::Parse;
+use super::super::parse::{Parse, ParseError};
 use crate::application::server::connection::WriteConnection;
 use crate::application::server::context::Context;
 use crate::application::server::frame::Frame;
@@ -44,7 +44,11 @@ impl AclCat {
     /// ACL CAT [category]
     /// ```
     pub(crate) fn parse_frames(parse: &mut Parse) -> anyhow::Result<AclCat> {
-        let category = parse.next_string().ok();
+        let category = match parse.next_string() {
+            Ok(category) => Some(category),
+            Err(ParseError::EndOfStream) => None,
+            Err(e) => return Err(e.into()),
+        };
 
         Ok(AclCat::new(category))
     }
-- 
2.43.0


From e874bb158f34bb5ec57b9ea6086d1637c6f38115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 18/18] fix: CLIENT SETINFO refuses an option without its value

---
 .../application/server/cmd/client/set_info.rs | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/app/roster/src/application/server/cmd/client/set_info.rs b/app/roster/src/application/server/cmd/client/set_info.rs
index 72858e4..fc1c786 100644
--- a/app/roster/src/application/server/cmd/client/set_info.rs
+++ b/app/roster/src/application/server/cmd/client/set_info.rs
@@ -73,19 +73,19 @@ impl ClientSetInfo {
         let mut lib_name = None;
         let mut lib_version = None;
 
-        match (parse.next_bytes(), parse.next_bytes()) {
-            (Ok(key), Ok(val)) => {
-                if key == LIB_NAME {
-                    lib_name = Some(val);
-                } else if key == LIB_VERSION {
-                    lib_version = Some(val);
-                }
-            }
-            (Err(ParseError::EndOfStream), _)
-            | (_, Err(ParseError::EndOfStream)) => {
+        let key = match parse.next_bytes() {
+            Ok(key) => key,
+            Err(ParseError::EndOfStream) => {
                 return Ok(ClientSetInfo::new(lib_name, lib_version))
             }
-            (Err(e), _) | (_, Err(e)) => return Err(e.into()),
+            Err(e) => return Err(e.into()),
+        };
+        let val = parse.next_bytes()?;
+
+        if key == LIB_NAME {
+            lib_name = Some(val);
+        } else if key == LIB_VERSION {
+            lib_version = Some(val);
         }
 
         Ok(ClientSetInfo::new(lib_name, lib_version))
-- 
2.43.0

