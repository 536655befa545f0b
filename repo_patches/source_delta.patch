From 9e619e7aef2c4c53b9bdc840c4a682af96c7df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 01/18] fix: use the configured sequence number width for
 requests

send_resp_raw ignored HostClientConfig::seq_kind, so requests always went
out with 4-byte sequence numbers. Resize before registering and sending.
---
 source/postcard-rpc/src/host_client/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 3202c88..5528a0b 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -359,6 +359,7 @@ where
         let cancel_fut = self.stopper.wait_stopped();
         let kkind: VarKeyKind = *self.ctx.kkind.read().unwrap();
         rqst.header.key.shrink_to(kkind);
+        rqst.header.seq_no.resize(self.seq_kind);
         let mut resp_key = VarKey::Key8(resp_key);
         let mut err_key = VarKey::Key8(self.err_key);
         resp_key.shrink_to(kkind);
-- 
2.43.0


From 9424a92bb352eadb64a6996b002179170c05ff06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 02/18] fix: always note the key length of the latest response

The response's key length was compared with the length in use when the
request was sent, not the current one, so with several requests in flight
a response could fail to update the negotiated key length.
---
 source/postcard-rpc/src/host_client/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 5528a0b..2ca2630 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -411,16 +411,12 @@ where
             _c = cancel_fut => Err(HostErr::Closed),
             o = ok_resp => {
                 let (hdr, resp) = o?;
-                if hdr.key.kind() != kkind {
-                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();
-                }
+                *self.ctx.kkind.write().unwrap() = hdr.key.kind();
                 Ok(RpcFrame { header: hdr, body: resp })
             },
             e = err_resp => {
                 let (hdr, resp) = e?;
-                if hdr.key.kind() != kkind {
-                    *self.ctx.kkind.write().unwrap() = hdr.key.kind();
-                }
+                *self.ctx.kkind.write().unwrap() = hdr.key.kind();
                 let r = postcard::from_bytes::<WireErr>(&resp)?;
                 Err(HostErr::Wire(r))
             },
-- 
2.43.0


From b8f97f95a1a51b0dd0a23f0b9a429bf066aeb344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:51 +0000
Subject: [PATCH 03/18] fix: start a new broadcast channel once all its
 subscribers are gone

---
 source/postcard-rpc/src/host_client/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 2ca2630..2ce4d71 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -498,7 +498,14 @@ where
                 .iter_mut()
                 .find(|(k, _)| *k == T::TOPIC_KEY)
             {
-                entry.1.subscribe()
+                if entry.1.receiver_count() == 0 {
+                    // All previous subscribers are gone: start over with the requested depth
+                    let (tx, rx) = broadcast::channel(depth);
+                    entry.1 = tx;
+                    rx
+                } else {
+                    entry.1.subscribe()
+                }
             } else {
                 let (tx, rx) = broadcast::channel(depth);
                 guard.broadcast_list.push((T::TOPIC_KEY, tx));
@@ -537,7 +544,14 @@ where
                 return Err(IoClosed);
             }
             if let Some(entry) = guard.broadcast_list.iter_mut().find(|(k, _)| *k == key) {
-                entry.1.subscribe()
+                if entry.1.receiver_count() == 0 {
+                    // All previous subscribers are gone: start over with the requested depth
+                    let (tx, rx) = broadcast::channel(depth);
+                    entry.1 = tx;
+                    rx
+                } else {
+                    entry.1.subscribe()
+                }
             } else {
                 let (tx, rx) = broadcast::channel(depth);
                 guard.broadcast_list.push((key, tx));
-- 
2.43.0


From 941ab3efd48af93a87bc32b40367fb3df094e987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:42 +0000
Subject: [PATCH 04/18] fix: collect the types nested inside newtype enum
 variants

unique_types! only recorded the direct payload type of a newtype variant, so
types reachable only through it were missing from the device's type list.
---
 source/postcard-rpc/src/uniques.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/source/postcard-rpc/src/uniques.rs b/source/postcard-rpc/src/uniques.rs
index 250e459..252e2b7 100644
--- a/source/postcard-rpc/src/uniques.rs
+++ b/source/postcard-rpc/src/uniques.rs
@@ -549,17 +549,25 @@ const fn type_chewer_dmt<const MAX: usize>(
                 match nvars[i].ty {
                     DataModelVariant::UnitVariant => {}
                     DataModelVariant::NewtypeVariant(nt) => {
-                        let mut k = 0;
-                        let mut found = is_prim(nt.ty);
-                        // Check against all currently known tys
-                        while !found && k < outidx {
-                            let Some(kty) = out[k] else { panic!() };
-                            found |= nty_eq(kty, nt);
-                            k += 1;
-                        }
-                        if !found {
-                            out[outidx] = Some(nt);
-                            outidx += 1;
+                        // Get the types used by this field
+                        let (arr, used) = type_chewer_nty::<MAX>(nt);
+                        let mut j = 0;
+                        // For each type in this field...
+                        while j < used {
+                            let Some(ty) = arr[j] else { panic!() };
+                            let mut k = 0;
+                            let mut found = is_prim(ty.ty);
+                            // Check against all currently known tys
+                            while !found && k < outidx {
+                                let Some(kty) = out[k] else { panic!() };
+                                found |= nty_eq(kty, ty);
+                                k += 1;
+                            }
+                            if !found {
+                                out[outidx] = Some(ty);
+                                outidx += 1;
+                            }
+                            j += 1;
                         }
                     }
                     DataModelVariant::TupleVariant(nts) => {
-- 
2.43.0


From 3c4cb57cd7f4ccb75c9c7e9560cb99da26bfe9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:31 +0000
Subject: [PATCH 05/18] fix: report lost data when a schema type message was
 lost

Schema discovery compared the number of received endpoints and topics with the
totals sent by the device, but not the number of types, so that a lost type
message silently gave an incomplete report.
---
 source/postcard-rpc/src/host_client/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index 2ce4d71..cee6ebd 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -274,10 +274,12 @@ where
         };
         let mut rpt = SchemaReport::default();
         let mut e_and_t = vec![];
+        let mut types_received = 0;
 
         for d in data {
             match d {
                 OwnedSchemaData::Type(d) => {
+                    types_received += 1;
                     rpt.add_type(d);
                 }
                 e @ OwnedSchemaData::Endpoint { .. } => e_and_t.push(e),
@@ -307,6 +309,7 @@ where
         }
 
         let mut data_matches = true;
+        data_matches &= resp.types_sent == types_received;
         data_matches &= resp.endpoints_sent as usize == rpt.endpoints.len();
         data_matches &= resp.topics_in_sent as usize == rpt.topics_in.len();
         data_matches &= resp.topics_out_sent as usize == rpt.topics_out.len();
-- 
2.43.0


From 9f0dabf1333ddd91dfe9032f0e3c97507735b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 06/18] fix: resynchronise the COBS accumulator at the
 delimiter after an overflow

When a frame overflowed the buffer before its delimiter was received, the rest
of it was taken for the start of a new frame: depending on how the input was
chunked, a piece of the oversized frame could be delivered as a frame.
---
 source/postcard-rpc/src/accumulator.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/accumulator.rs b/source/postcard-rpc/src/accumulator.rs
index 493ba80..81972d8 100644
--- a/source/postcard-rpc/src/accumulator.rs
+++ b/source/postcard-rpc/src/accumulator.rs
@@ -13,6 +13,8 @@ pub mod raw {
     pub struct CobsAccumulator<const N: usize> {
         buf: [u8; N],
         idx: usize,
+        // The current frame did not fit: drop everything up to its delimiter
+        discarding: bool,
     }
 
     /// The result of feeding the accumulator.
@@ -43,6 +45,7 @@ pub mod raw {
             CobsAccumulator {
                 buf: [0; N],
                 idx: 0,
+                discarding: false,
             }
         }
 
@@ -59,7 +62,16 @@ pub mod raw {
         /// This differs from feed, as it allows the `T` to reference data within the internal buffer, but
         /// mutably borrows the accumulator for the lifetime of the deserialization.
         /// If `T` does not require the reference, the borrow of `self` ends at the end of the function.
-        pub fn feed_ref<'a, 'b>(&'b mut self, input: &'a [u8]) -> FeedResult<'a, 'b> {
+        pub fn feed_ref<'a, 'b>(&'b mut self, mut input: &'a [u8]) -> FeedResult<'a, 'b> {
+            if self.discarding {
+                // Skip the rest of a frame that was already reported as `OverFull`
+                let Some(n) = input.iter().position(|&i| i == 0) else {
+                    return FeedResult::Consumed;
+                };
+                self.discarding = false;
+                input = &input[n + 1..];
+            }
+
             if input.is_empty() {
                 return FeedResult::Consumed;
             }
@@ -93,10 +105,10 @@ pub mod raw {
             } else {
                 // Does it fit?
                 if (self.idx + input.len()) > N {
-                    // nope
-                    let new_start = N - self.idx;
+                    // nope, and all of the input belongs to this frame
                     self.idx = 0;
-                    FeedResult::OverFull(&input[new_start..])
+                    self.discarding = true;
+                    FeedResult::OverFull(&[])
                 } else {
                     // yup!
                     self.extend_unchecked(input);
-- 
2.43.0


From 74f9c4cf00ba7a493b42d625b350e748f9d40460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:37 +0000
Subject: [PATCH 07/18] fix: treat end of stream on the serial port as a
 receive error

A zero-length read means the port is gone. It was ignored, so the receive
worker spun on read() forever without yielding, and the client never
noticed that the connection had died.
---
 source/postcard-rpc/src/host_client/serial.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 98e2a34..12b09a2 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -192,6 +192,11 @@ impl SerialWireRx {
             // data from the serial port
             let used = self.rx.read(self.buf.as_mut_slice()).await?;
 
+            // A read of zero bytes means the port is at EOF, no more data will ever come
+            if used == 0 {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+
             let mut window = &self.buf[..used];
 
             // This buffering loop is necessary as a single `read()` might include
-- 
2.43.0


From 78f0c6fe6c4efae2470022f2ed889d4c6f6836e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:37 +0000
Subject: [PATCH 08/18] fix: accept short frames on the serial port

Frames with keys shortened to 1, 2 or 4 bytes and an empty or small body
are less than 9 bytes long, and were silently discarded.
---
 source/postcard-rpc/src/host_client/serial.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/serial.rs b/source/postcard-rpc/src/host_client/serial.rs
index 12b09a2..2d2f08d 100644
--- a/source/postcard-rpc/src/host_client/serial.rs
+++ b/source/postcard-rpc/src/host_client/serial.rs
@@ -216,10 +216,10 @@ impl SerialWireRx {
                     }
                     // We got a message! Attempt to dispatch it
                     FeedResult::Success { data, remaining } => {
-                        // TODO hacky check: the minimum size of a message is 9 bytes,
-                        // 8 for the header and one for the seq_no. Discard any "obviously"
-                        // malformed messages.
-                        if data.len() >= 9 {
+                        // TODO hacky check: the minimum size of a message is 3 bytes, one
+                        // for the discriminant, one for the shortest key and one for the
+                        // shortest seq_no. Discard any "obviously" malformed messages.
+                        if data.len() >= 3 {
                             self.pending.push_back(data.to_vec());
                         } else {
                             tracing::warn!("Ignoring too-short message: {} bytes", data.len());
-- 
2.43.0


From ca92d1e64e5fbaeeb190751621cbc266910fced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 09/18] fix: don't panic when a formatted USB log message does
 not fit

The intention is to take as much of the message as fits and to mark it
with '...', but copy_from_slice was given the whole piece and panicked on
the different lengths.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 2 +-
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 261c61e..5ab7fae 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -469,7 +469,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 431e5ba..589b698 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -517,7 +517,7 @@ impl<'a> core::fmt::Write for SliceWriter<'a> {
         let bad = s.len() > sli.len();
         let to_write = s.len().min(sli.len());
         let (now, later) = sli.split_at_mut(to_write);
-        now.copy_from_slice(s.as_bytes());
+        now.copy_from_slice(&s.as_bytes()[..to_write]);
         self.0 = later;
 
         // Now, report whether we overflowed or not
-- 
2.43.0


From 8ee348a6048ba129d5f3f5968cfef5f6a18d426e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 10/18] fix: reserve enough length bytes for formatted USB log
 messages

A varint byte carries seven bits, so one byte only holds lengths below
128 (1 << 7), not 256. Formatting a log message of 128 bytes or more into
a buffer with 128..255 bytes left (or similar at the next steps) panicked
when the length was filled in.
---
 source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs | 8 ++++----
 source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 5ab7fae..4a962ab 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -515,13 +515,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 589b698..4faa0bb 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -563,13 +563,13 @@ fn varint_usize(n: usize, out: &mut [u8; varint_max::<usize>()]) -> &mut [u8] {
 }
 
 fn actual_varint_max_len(largest: usize) -> usize {
-    if largest < (2 << 7) {
+    if largest < (1 << 7) {
         1
-    } else if largest < (2 << 14) {
+    } else if largest < (1 << 14) {
         2
-    } else if largest < (2 << 21) {
+    } else if largest < (1 << 21) {
         3
-    } else if largest < (2 << 28) {
+    } else if largest < (1 << 28) {
         4
     } else {
         varint_max::<usize>()
-- 
2.43.0


From 2454bb816ee02d51f1897e634b77d28facc5fb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 11/18] fix: truncate formatted USB log messages at a character
 boundary

A formatted log message that does not fit the buffer is cut at an
arbitrary byte. If that is inside of a multi-byte character, the message
is not valid UTF-8, and the host cannot decode it.
---
 .../src/server/impls/embassy_usb_v0_3.rs      | 27 +++++++++++++------
 .../src/server/impls/embassy_usb_v0_4.rs      | 27 +++++++++++++------
 2 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index 4a962ab..bdf0488 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -375,15 +375,17 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         let res = core::fmt::write(&mut sw, args);
 
         // Calculate the number of bytes used *for formatting*.
-        let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - sw.0.len();
 
         // If we had an error, that's probably because we ran out
-        // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        // of room. If we ran out of room, AND there is at least three
+        // bytes, then replace those with '.'s like ... In any case, only
+        // keep whole characters, as the result must be valid UTF-8.
+        if res.is_err() && used == body_len {
+            let dots = if body_len >= 3 { 3 } else { 0 };
+            let keep = whole_chars(body, body_len - dots);
+            used = keep + dots;
+            body[keep..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -402,7 +404,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame).await
     }
@@ -458,6 +460,15 @@ where
     }
 }
 
+/// The length of the longest prefix of `buf[..max]` that does not end in the middle of a
+/// UTF-8 character. `buf` must start with valid UTF-8, but may be cut off anywhere.
+fn whole_chars(buf: &[u8], max: usize) -> usize {
+    match core::str::from_utf8(&buf[..max]) {
+        Ok(_) => max,
+        Err(e) => e.valid_up_to(),
+    }
+}
+
 struct SliceWriter<'a>(&'a mut [u8]);
 
 impl<'a> core::fmt::Write for SliceWriter<'a> {
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index 4faa0bb..e4db70c 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -422,15 +422,17 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         let res = core::fmt::write(&mut sw, args);
 
         // Calculate the number of bytes used *for formatting*.
-        let remain = sw.0.len();
-        let used = body_len - remain;
+        let mut used = body_len - sw.0.len();
 
         // If we had an error, that's probably because we ran out
-        // of room. If we had an error, AND there is at least three
-        // bytes, then replace those with '.'s like ...
-        if res.is_err() && (body.len() >= 3) {
-            let start = body.len() - 3;
-            body[start..].iter_mut().for_each(|b| *b = b'.');
+        // of room. If we ran out of room, AND there is at least three
+        // bytes, then replace those with '.'s like ... In any case, only
+        // keep whole characters, as the result must be valid UTF-8.
+        if res.is_err() && used == body_len {
+            let dots = if body_len >= 3 { 3 } else { 0 };
+            let keep = whole_chars(body, body_len - dots);
+            used = keep + dots;
+            body[keep..used].iter_mut().for_each(|b| *b = b'.');
         }
 
         // then go back and fill in the len - we write the len
@@ -449,7 +451,7 @@ impl<M: RawMutex + 'static, D: Driver<'static> + 'static> WireTx for EUsbWireTx<
         len_field[..len_used.len()].copy_from_slice(len_used);
 
         // Calculate the TOTAL amount
-        let act_used = ttl_len - remain;
+        let act_used = ttl_len - (body_len - used);
 
         send_all::<D>(ep_in, &tx_buf[..act_used], pending_frame, *timeout_ms_per_frame).await
     }
@@ -506,6 +508,15 @@ where
     }
 }
 
+/// The length of the longest prefix of `buf[..max]` that does not end in the middle of a
+/// UTF-8 character. `buf` must start with valid UTF-8, but may be cut off anywhere.
+fn whole_chars(buf: &[u8], max: usize) -> usize {
+    match core::str::from_utf8(&buf[..max]) {
+        Ok(_) => max,
+        Err(e) => e.valid_up_to(),
+    }
+}
+
 struct SliceWriter<'a>(&'a mut [u8]);
 
 impl<'a> core::fmt::Write for SliceWriter<'a> {
-- 
2.43.0


From ae384b33323484f08a167464c7f558a8fb828c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:47 +0000
Subject: [PATCH 12/18] fix: receive whole frames on USB whatever the buffer
 size

A frame filling the buffer exactly was rejected as too large if its length
is a multiple of the packet size. If the buffer size is not, an oversized
frame was abandoned in the middle, and its tail was returned as a frame of
its own (or, depending on the driver, the same packet failed forever).
---
 .../src/server/impls/embassy_usb_v0_3.rs      | 49 ++++++++++---------
 .../src/server/impls/embassy_usb_v0_4.rs      | 49 ++++++++++---------
 2 files changed, 52 insertions(+), 46 deletions(-)

diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
index bdf0488..52c1194 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_3.rs
@@ -552,9 +552,16 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     type Error = WireRxErrorKind;
 
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
-        let buflen = buf.len();
-        let mut window = &mut buf[..];
-        while !window.is_empty() {
+        // Once there is no space for a whole packet left in `buf`, packets are received here
+        // first, so that the rest of the frame is always received, even if it does not fit.
+        let mut packet = [0u8; 64];
+        let mut used = 0;
+        let mut fits = true;
+
+        loop {
+            let space = &mut buf[used..];
+            let direct = fits && space.len() >= packet.len();
+            let window = if direct { space } else { &mut packet[..] };
             let n = match self.ep_out.read(window).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
@@ -563,30 +570,26 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
-            window = later;
+            if direct {
+                used += n;
+            } else if let Some(rest) = buf[used..].get_mut(..n).filter(|_| fits) {
+                rest.copy_from_slice(&packet[..n]);
+                used += n;
+            } else {
+                // We've run out of space. That's disappointing. Accumulate to the end of this
+                // frame
+                fits = false;
+            }
+
             if n != 64 {
                 // We now have a full frame! Great!
-                let wlen = window.len();
-                let len = buflen - wlen;
-                let frame = &mut buf[..len];
-
-                return Ok(frame);
+                return if fits {
+                    Ok(&mut buf[..used])
+                } else {
+                    Err(WireRxErrorKind::ReceivedMessageTooLarge)
+                };
             }
         }
-
-        // If we got here, we've run out of space. That's disappointing. Accumulate to the
-        // end of this packet
-        loop {
-            match self.ep_out.read(buf).await {
-                Ok(64) => {}
-                Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
-                Err(EndpointError::BufferOverflow) => {
-                    return Err(WireRxErrorKind::ReceivedMessageTooLarge)
-                }
-                Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
-            };
-        }
     }
 }
 
diff --git a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
index e4db70c..973d87b 100644
--- a/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
+++ b/source/postcard-rpc/src/server/impls/embassy_usb_v0_4.rs
@@ -600,9 +600,16 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
     type Error = WireRxErrorKind;
 
     async fn receive<'a>(&mut self, buf: &'a mut [u8]) -> Result<&'a mut [u8], Self::Error> {
-        let buflen = buf.len();
-        let mut window = &mut buf[..];
-        while !window.is_empty() {
+        // Once there is no space for a whole packet left in `buf`, packets are received here
+        // first, so that the rest of the frame is always received, even if it does not fit.
+        let mut packet = [0u8; 64];
+        let mut used = 0;
+        let mut fits = true;
+
+        loop {
+            let space = &mut buf[used..];
+            let direct = fits && space.len() >= packet.len();
+            let window = if direct { space } else { &mut packet[..] };
             let n = match self.ep_out.read(window).await {
                 Ok(n) => n,
                 Err(EndpointError::BufferOverflow) => {
@@ -611,30 +618,26 @@ impl<D: Driver<'static>> WireRx for EUsbWireRx<D> {
                 Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
             };
 
-            let (_now, later) = window.split_at_mut(n);
-            window = later;
+            if direct {
+                used += n;
+            } else if let Some(rest) = buf[used..].get_mut(..n).filter(|_| fits) {
+                rest.copy_from_slice(&packet[..n]);
+                used += n;
+            } else {
+                // We've run out of space. That's disappointing. Accumulate to the end of this
+                // frame
+                fits = false;
+            }
+
             if n != 64 {
                 // We now have a full frame! Great!
-                let wlen = window.len();
-                let len = buflen - wlen;
-                let frame = &mut buf[..len];
-
-                return Ok(frame);
+                return if fits {
+                    Ok(&mut buf[..used])
+                } else {
+                    Err(WireRxErrorKind::ReceivedMessageTooLarge)
+                };
             }
         }
-
-        // If we got here, we've run out of space. That's disappointing. Accumulate to the
-        // end of this packet
-        loop {
-            match self.ep_out.read(buf).await {
-                Ok(64) => {}
-                Ok(_) => return Err(WireRxErrorKind::ReceivedMessageTooLarge),
-                Err(EndpointError::BufferOverflow) => {
-                    return Err(WireRxErrorKind::ReceivedMessageTooLarge)
-                }
-                Err(EndpointError::Disabled) => return Err(WireRxErrorKind::ConnectionClosed),
-            };
-        }
     }
 }
 
-- 
2.43.0


From e4c4ff98aab8489103ddfa5f230d5922b1bbe425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:03 +0000
Subject: [PATCH 13/18] fix: accept a trailing comma in endpoint! and topic!

---
 source/postcard-rpc/src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/postcard-rpc/src/macros.rs b/source/postcard-rpc/src/macros.rs
index 284dc88..5e61100 100644
--- a/source/postcard-rpc/src/macros.rs
+++ b/source/postcard-rpc/src/macros.rs
@@ -32,7 +32,7 @@ macro_rules! endpoint {
         endpoint!($tyname, $req, $resp, stringify!($tyname));
     };
     ($tyname:ident, $req:ty, $resp:ty, $path:expr,) => {
-        endpoint!($tyname, $req, $resp, $path)
+        endpoint!($tyname, $req, $resp, $path);
     };
     ($tyname:ident, $req:ty, $resp:ty, $path:expr) => {
         pub struct $tyname;
@@ -224,7 +224,7 @@ macro_rules! topic {
         topic!($tyname, $msg, stringify!($tyname));
     };
     ($tyname:ident, $msg:ty, $path:expr,) => {
-        topic!($tyname, $msg, $path)
+        topic!($tyname, $msg, $path);
     };
     ($tyname:ident, $msg:ty, $path:expr) => {
         /// $tyname - A Topic definition type
-- 
2.43.0


From 6d7772cbdca2f9a8f1b51e9be68afa6a0c2d9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:03 +0000
Subject: [PATCH 14/18] fix: keep the error key distinct from all other
 outgoing keys

---
 source/postcard-rpc/src/server/dispatch_macro.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/postcard-rpc/src/server/dispatch_macro.rs b/source/postcard-rpc/src/server/dispatch_macro.rs
index 323210f..a74a983 100644
--- a/source/postcard-rpc/src/server/dispatch_macro.rs
+++ b/source/postcard-rpc/src/server/dispatch_macro.rs
@@ -352,6 +352,8 @@ macro_rules! define_dispatch {
             pub const NEEDED_SZ_OUT: usize = $crate::server::min_key_needed(&[
                 &EP_OUT_KEYS,
                 &TP_OUT_KEYS,
+                // Error replies share the outgoing key space
+                &[$crate::standard_icd::ERROR_KEY],
             ]);
             pub const NEEDED_SZ: usize = const {
                 assert!(
-- 
2.43.0


From b5d08c5800de09f7275e6f51e011e416829ef753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:09 +0000
Subject: [PATCH 15/18] hook: build the WebUSB client natively under
 cfg(postcard_rpc_verif)

---
 source/postcard-rpc/src/host_client/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/postcard-rpc/src/host_client/mod.rs b/source/postcard-rpc/src/host_client/mod.rs
index cee6ebd..fe5aaa0 100644
--- a/source/postcard-rpc/src/host_client/mod.rs
+++ b/source/postcard-rpc/src/host_client/mod.rs
@@ -41,7 +41,7 @@ mod raw_nusb;
 #[cfg(all(feature = "cobs-serial", not(target_family = "wasm")))]
 mod serial;
 
-#[cfg(all(feature = "webusb", target_family = "wasm"))]
+#[cfg(all(feature = "webusb", any(target_family = "wasm", postcard_rpc_verif)))]
 pub mod webusb;
 
 pub(crate) mod util;
-- 
2.43.0


From 87cf32b2b7c1c72a2b9dea515cc9068c81499458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:21 +0000
Subject: [PATCH 16/18] fix: end WebUSB frames that fill their packets with an
 empty transfer

---
 source/postcard-rpc/src/host_client/webusb.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/postcard-rpc/src/host_client/webusb.rs b/source/postcard-rpc/src/host_client/webusb.rs
index 8609f82..5dd0e36 100644
--- a/source/postcard-rpc/src/host_client/webusb.rs
+++ b/source/postcard-rpc/src/host_client/webusb.rs
@@ -12,6 +12,9 @@ use web_sys::{UsbDevice, UsbInTransferResult, UsbTransferStatus};
 use crate::header::VarSeqKind;
 use crate::host_client::{HostClient, WireRx, WireSpawn, WireTx};
 
+/// The smallest packet size of a bulk endpoint, which evenly divides all other packet sizes
+const MIN_PACKET_SIZE: usize = 8;
+
 /// Implementation of the wire interface for WebUsb
 #[derive(Clone)]
 pub struct WebUsbWire {
@@ -156,10 +159,17 @@ impl WireTx for WebUsbWire {
 
     async fn send(&mut self, data: Vec<u8>) -> Result<(), Self::Error> {
         tracing::trace!("send…");
+        let needs_zlp = data.len() % MIN_PACKET_SIZE == 0;
         let data: js_sys::Uint8Array = data.as_slice().into();
         // TODO for reasons unknown, web-sys wants mutable access to the send buffer.
         // tracking issue: https://github.com/rustwasm/wasm-bindgen/issues/3963
         JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &data)?).await?;
+
+        // Append ZLP if the message may be a multiple of the max packet
+        if needs_zlp {
+            let zlp: js_sys::Uint8Array = [].as_slice().into();
+            JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &zlp)?).await?;
+        }
         Ok(())
     }
 }
-- 
2.43.0


From efd0efae4ef558231d2605f7334144806819f481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:15 +0000
Subject: [PATCH 17/18] fix: report WebUSB OUT transfers that did not complete

---
 source/postcard-rpc/src/host_client/webusb.rs | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/webusb.rs b/source/postcard-rpc/src/host_client/webusb.rs
index 5dd0e36..01bb431 100644
--- a/source/postcard-rpc/src/host_client/webusb.rs
+++ b/source/postcard-rpc/src/host_client/webusb.rs
@@ -7,7 +7,7 @@ use serde_json::json;
 use tracing::info;
 use wasm_bindgen::{prelude::*, JsCast};
 use wasm_bindgen_futures::{spawn_local, JsFuture};
-use web_sys::{UsbDevice, UsbInTransferResult, UsbTransferStatus};
+use web_sys::{UsbDevice, UsbInTransferResult, UsbOutTransferResult, UsbTransferStatus};
 
 use crate::header::VarSeqKind;
 use crate::host_client::{HostClient, WireRx, WireSpawn, WireTx};
@@ -152,6 +152,24 @@ impl WebUsbWire {
             ep_out,
         })
     }
+
+    /// Perform a single OUT transfer
+    async fn transfer_out(&self, data: &js_sys::Uint8Array) -> Result<(), Error> {
+        // TODO for reasons unknown, web-sys wants mutable access to the send buffer.
+        // tracking issue: https://github.com/rustwasm/wasm-bindgen/issues/3963
+        let res: UsbOutTransferResult =
+            JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, data)?)
+                .await?
+                .into();
+
+        // The promise also resolves if the endpoint stalled
+        let status = res.status();
+        if status == UsbTransferStatus::Ok {
+            Ok(())
+        } else {
+            Err(status.into())
+        }
+    }
 }
 
 impl WireTx for WebUsbWire {
@@ -161,14 +179,12 @@ impl WireTx for WebUsbWire {
         tracing::trace!("send…");
         let needs_zlp = data.len() % MIN_PACKET_SIZE == 0;
         let data: js_sys::Uint8Array = data.as_slice().into();
-        // TODO for reasons unknown, web-sys wants mutable access to the send buffer.
-        // tracking issue: https://github.com/rustwasm/wasm-bindgen/issues/3963
-        JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &data)?).await?;
+        self.transfer_out(&data).await?;
 
         // Append ZLP if the message may be a multiple of the max packet
         if needs_zlp {
             let zlp: js_sys::Uint8Array = [].as_slice().into();
-            JsFuture::from(self.device.transfer_out_with_u8_array(self.ep_out, &zlp)?).await?;
+            self.transfer_out(&zlp).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 4e1ddba9cac877784e2ae67f0d552e45feca373f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:04 +0000
Subject: [PATCH 18/18] fix: claim the matching USB interface by its number,
 not by its position in the list

---
 source/postcard-rpc/src/host_client/raw_nusb.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/source/postcard-rpc/src/host_client/raw_nusb.rs b/source/postcard-rpc/src/host_client/raw_nusb.rs
index b88f4b5..4d6bf57 100644
--- a/source/postcard-rpc/src/host_client/raw_nusb.rs
+++ b/source/postcard-rpc/src/host_client/raw_nusb.rs
@@ -94,8 +94,9 @@ where
         #[cfg(not(target_os = "windows"))]
         let interface_id = x
             .interfaces()
-            .position(|i| i.class() == 0xFF)
-            .ok_or_else(|| String::from("Failed to find matching interface!!"))?;
+            .find(|i| i.class() == 0xFF)
+            .ok_or_else(|| String::from("Failed to find matching interface!!"))?
+            .interface_number() as usize;
 
         #[cfg(target_os = "windows")]
         let interface_id = 0;
@@ -160,7 +161,7 @@ where
         F2: FnMut(&InterfaceInfo) -> bool,
     >(
         device_func: F1,
-        interface_func: F2,
+        mut interface_func: F2,
         err_uri_path: &str,
         outgoing_depth: usize,
         seq_no_kind: VarSeqKind,
@@ -171,8 +172,9 @@ where
             .ok_or_else(|| String::from("Failed to find matching nusb device!"))?;
         let interface_id = x
             .interfaces()
-            .position(interface_func)
-            .ok_or_else(|| String::from("Failed to find matching interface!!"))?;
+            .find(|i| interface_func(i))
+            .ok_or_else(|| String::from("Failed to find matching interface!!"))?
+            .interface_number() as usize;
 
         Self::try_from_nusb_and_interface(
             &x,
-- 
2.43.0

