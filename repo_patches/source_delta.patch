From 5a7a1f4fbedc19d5f821f469dbaa61ad5cb21322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:13 +0000
Subject: [PATCH 01/46] fix: take back external memory only for guards that
 reported it

A guard created without a JsLock reports nothing to V8, but dropping it
(or adjusting and dropping it) under a lock subtracted its full amount,
leaving the isolate's external memory count too low.
---
 src/gc/external_memory.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 606a789..7fc241f 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -89,11 +89,13 @@ impl ExternalMemoryGuard {
             self.amount += delta;
 
             if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(delta);
-
-                // Capture the pending delta if we didn't have one yet
                 if self.pending_delta.is_none() {
+                    // Capture the pending delta if we didn't have one yet; nothing
+                    // has been reported for this guard so far.
+                    lock.adjust_external_memory(self.amount);
                     self.pending_delta = Some(lock.pending_delta());
+                } else {
+                    lock.adjust_external_memory(delta);
                 }
             } else if let Some(ref pending) = self.pending_delta {
                 pending.fetch_add(delta, Ordering::SeqCst);
@@ -116,15 +118,17 @@ impl ExternalMemoryGuard {
 
 impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
-        if self.amount != 0 {
+        // A guard without a captured isolate never reported anything: there is
+        // nothing to take back.
+        if self.amount != 0
+            && let Some(ref pending) = self.pending_delta
+        {
             // Subtract our tracked memory
             if let Some(lock) = JsLock::try_current() {
                 lock.adjust_external_memory(-self.amount);
-            } else if let Some(ref pending) = self.pending_delta {
+            } else {
                 pending.fetch_add(-self.amount, Ordering::SeqCst);
             }
-            // else: no lock and no captured isolate — memory tracking lost.
-            // This only happens for guards created without a JsLock (tests).
         }
     }
 }
-- 
2.43.0


From e99600451e399bf49aac79d9da3bb58ac22db409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 02/46] fix: report external memory to the guard's own isolate

With another isolate locked on the thread, adjusting or dropping a guard
changed that isolate's external memory instead of the one it was
reported to. Defer the change unless the current lock is the guard's.
---
 src/gc/external_memory.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 7fc241f..a2b610e 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -88,17 +88,13 @@ impl ExternalMemoryGuard {
         if delta != 0 {
             self.amount += delta;
 
-            if let Some(lock) = JsLock::try_current() {
-                if self.pending_delta.is_none() {
-                    // Capture the pending delta if we didn't have one yet; nothing
-                    // has been reported for this guard so far.
-                    lock.adjust_external_memory(self.amount);
-                    self.pending_delta = Some(lock.pending_delta());
-                } else {
-                    lock.adjust_external_memory(delta);
-                }
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(delta, Ordering::SeqCst);
+            if let Some(ref pending) = self.pending_delta {
+                report(pending, delta);
+            } else if let Some(lock) = JsLock::try_current() {
+                // Capture the pending delta if we didn't have one yet; nothing
+                // has been reported for this guard so far.
+                lock.adjust_external_memory(self.amount);
+                self.pending_delta = Some(lock.pending_delta());
             }
         }
     }
@@ -116,6 +112,18 @@ impl ExternalMemoryGuard {
     }
 }
 
+/// Report a change to the isolate that owns `pending`: immediately if that
+/// isolate is locked on this thread, deferred to its accumulator otherwise.
+fn report(pending: &Arc<AtomicI64>, delta: i64) {
+    if let Some(lock) = JsLock::try_current()
+        && Arc::ptr_eq(&lock.pending_delta(), pending)
+    {
+        lock.adjust_external_memory(delta);
+    } else {
+        pending.fetch_add(delta, Ordering::SeqCst);
+    }
+}
+
 impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
         // A guard without a captured isolate never reported anything: there is
@@ -124,11 +132,7 @@ impl Drop for ExternalMemoryGuard {
             && let Some(ref pending) = self.pending_delta
         {
             // Subtract our tracked memory
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(-self.amount);
-            } else {
-                pending.fetch_add(-self.amount, Ordering::SeqCst);
-            }
+            report(pending, -self.amount);
         }
     }
 }
-- 
2.43.0


From 1ecc83699f15b5556cb45cd61c329b70c99a2e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 03/46] fix: count a deferred handle before it can be drained

process_all() running between the push and the increment took out the
uncounted handle and wrapped pending_count below zero.
---
 src/gc/deferred_destruction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gc/deferred_destruction.rs b/src/gc/deferred_destruction.rs
index eb9a4b2..c31fa72 100644
--- a/src/gc/deferred_destruction.rs
+++ b/src/gc/deferred_destruction.rs
@@ -111,11 +111,13 @@ impl DeferredDestructionQueue {
     /// holding the isolate lock.
     pub fn defer<T: 'static>(&self, handle: v8::Global<T>) {
         let deferred = DeferredHandle::new(handle);
+        // Count first: a concurrent process_all() must never take out a handle
+        // that is not counted yet, or its subtraction would wrap below zero.
+        self.pending_count.fetch_add(1, Ordering::Release);
         self.queue
             .lock()
             .expect("deferred destruction queue poisoned")
             .push_back(deferred);
-        self.pending_count.fetch_add(1, Ordering::Release);
 
         tracing::trace!("Deferred V8 handle destruction (pending: {})", self.len());
     }
-- 
2.43.0


From 3f100fc5b473eb276fd4f867b18a740aa2fd0373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 04/46] fix: never reissue a stream id after the registry is
 cleared

---
 src/runtime/stream_manager.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index b8958ca..5f02a43 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -174,8 +174,8 @@ impl StreamManager {
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
         self.metadata.lock().unwrap().clear();
-        // Reset next_id so stream IDs don't grow unbounded across reuses
-        *self.next_id.lock().unwrap() = 1;
+        // next_id is kept: an operation of the previous request may still finish
+        // late, and its stream ID must never name a stream of the next request
     }
 
     /// Count active streams
-- 
2.43.0


From c34699adb56bcd075427b4c4cfe1defbbe8c7c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 05/46] fix: do not bring a closed stream back when a read
 finishes late

---
 src/runtime/stream_manager.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index 5f02a43..04f4d68 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -137,7 +137,13 @@ impl StreamManager {
                         // Don't put back - stream is finished
                     }
                     StreamChunk::Data(_) => {
-                        self.receivers.lock().unwrap().insert(stream_id, rx);
+                        // Unless the stream was closed while we were waiting: closing
+                        // removes the sender first, then the receiver
+                        let mut receivers = self.receivers.lock().unwrap();
+
+                        if self.senders.lock().unwrap().contains_key(&stream_id) {
+                            receivers.insert(stream_id, rx);
+                        }
                     }
                 }
             }
-- 
2.43.0


From ca5f85112cc21c6c0f1c790b766669b7c970d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 06/46] fix: never reissue a callback id after a context is
 reset

---
 src/execution_context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0140b38..c6b1265 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1482,7 +1482,8 @@ impl ExecutionContext {
         self.request.fetch_error_callbacks.borrow_mut().clear();
         self.request.stream_callbacks.borrow_mut().clear();
         self.request.ws_event_callbacks.borrow_mut().clear();
-        *self.request.next_callback_id.borrow_mut() = 1;
+        // next_callback_id is kept: the event loop persists, and a late completion for
+        // the previous request must not find a callback of the next one under its ID
 
         Ok(())
     }
-- 
2.43.0


From a08809da73ccb03110356b4b56b7342e597a0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:06 +0000
Subject: [PATCH 07/46] fix: getRandomValues aborts the host on a zero-length
 array

---
 src/runtime/crypto/random.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 882821d..4769f1c 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -26,12 +26,15 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                         let backing_store = buffer.get_backing_store();
                         let offset = uint8_array.byte_offset();
 
-                        unsafe {
-                            std::ptr::copy_nonoverlapping(
-                                bytes.as_ptr(),
-                                (backing_store.data().unwrap().as_ptr() as *mut u8).add(offset),
-                                len,
-                            );
+                        // A zero-length buffer has no backing memory
+                        if let Some(data) = backing_store.data() {
+                            unsafe {
+                                std::ptr::copy_nonoverlapping(
+                                    bytes.as_ptr(),
+                                    (data.as_ptr() as *mut u8).add(offset),
+                                    len,
+                                );
+                            }
                         }
                     }
                 }
-- 
2.43.0


From f19a02cba8437bd06f7c2bb7fff11cc48c01cf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:08 +0000
Subject: [PATCH 08/46] fix: getRandomValues returns predictable bytes when the
 generator fails

---
 src/runtime/crypto/random.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 4769f1c..5e41dd6 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -20,21 +20,26 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                 // Fill with random bytes using ring
                 let rng = rand::SystemRandom::new();
 
-                if rand::SecureRandom::fill(&rng, &mut bytes).is_ok() {
-                    // Copy back to the typed array
-                    if let Some(buffer) = uint8_array.buffer(scope) {
-                        let backing_store = buffer.get_backing_store();
-                        let offset = uint8_array.byte_offset();
+                if rand::SecureRandom::fill(&rng, &mut bytes).is_err() {
+                    let msg = v8::String::new(scope, "Random generator failed").unwrap();
+                    let exc = v8::Exception::error(scope, msg);
+                    scope.throw_exception(exc);
+                    return;
+                }
+
+                // Copy back to the typed array
+                if let Some(buffer) = uint8_array.buffer(scope) {
+                    let backing_store = buffer.get_backing_store();
+                    let offset = uint8_array.byte_offset();
 
-                        // A zero-length buffer has no backing memory
-                        if let Some(data) = backing_store.data() {
-                            unsafe {
-                                std::ptr::copy_nonoverlapping(
-                                    bytes.as_ptr(),
-                                    (data.as_ptr() as *mut u8).add(offset),
-                                    len,
-                                );
-                            }
+                    // A zero-length buffer has no backing memory
+                    if let Some(data) = backing_store.data() {
+                        unsafe {
+                            std::ptr::copy_nonoverlapping(
+                                bytes.as_ptr(),
+                                (data.as_ptr() as *mut u8).add(offset),
+                                len,
+                            );
                         }
                     }
                 }
-- 
2.43.0


From 264046b812f7d41a02601a3505cfe24b3a0bd687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 09/46] fix: getRandomValues silently left other typed arrays
 unfilled

---
 src/runtime/crypto/random.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 5e41dd6..d56c7a6 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -13,8 +13,8 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
 
             let array = args.get(0);
 
-            if let Ok(uint8_array) = v8::Local::<v8::Uint8Array>::try_from(array) {
-                let len = uint8_array.byte_length();
+            if let Ok(typed_array) = v8::Local::<v8::TypedArray>::try_from(array) {
+                let len = typed_array.byte_length();
                 let mut bytes = vec![0u8; len];
 
                 // Fill with random bytes using ring
@@ -28,9 +28,9 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                 }
 
                 // Copy back to the typed array
-                if let Some(buffer) = uint8_array.buffer(scope) {
+                if let Some(buffer) = typed_array.buffer(scope) {
                     let backing_store = buffer.get_backing_store();
-                    let offset = uint8_array.byte_offset();
+                    let offset = typed_array.byte_offset();
 
                     // A zero-length buffer has no backing memory
                     if let Some(data) = backing_store.data() {
@@ -45,6 +45,10 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                 }
 
                 retval.set(array);
+            } else {
+                let msg = v8::String::new(scope, "getRandomValues: input must be a typed array");
+                let exc = v8::Exception::type_error(scope, msg.unwrap());
+                scope.throw_exception(exc);
             }
         },
     )
-- 
2.43.0


From c1f4d70300c80b606b955c62e6ed186dfd42409c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 10/46] fix: deriveBits aborts the host on an oversized length

---
 src/runtime/crypto/pbkdf2.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 51252c3..6778661 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -1,6 +1,10 @@
 use ring::pbkdf2;
 use v8;
 
+/// Upper bound for derived output, so that a script cannot request an
+/// allocation the host cannot satisfy.
+const MAX_DERIVED_BYTES: usize = 1 << 20;
+
 pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Object>) {
     // Native PBKDF2: __nativePbkdf2DeriveBits(hashAlgo, password, salt, iterations, lengthBits) -> ArrayBuffer
     let derive_fn = v8::Function::new(
@@ -57,6 +61,11 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
 
             let length_bytes = length_bits / 8;
 
+            if length_bytes > MAX_DERIVED_BYTES {
+                retval.set(v8::undefined(scope).into());
+                return;
+            }
+
             let algorithm = match hash_algo.to_uppercase().as_str() {
                 "SHA-1" => pbkdf2::PBKDF2_HMAC_SHA1,
                 "SHA-256" => pbkdf2::PBKDF2_HMAC_SHA256,
-- 
2.43.0


From c4524a04402f1aeacee11f287a2448d107ebe2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 11/46] fix: TextEncoder wraps host memory, which sandbox
 builds do not allow

---
 src/runtime/text_encoding.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/runtime/text_encoding.rs b/src/runtime/text_encoding.rs
index d278535..5910283 100644
--- a/src/runtime/text_encoding.rs
+++ b/src/runtime/text_encoding.rs
@@ -17,8 +17,7 @@ fn text_encode(
 
     let bytes = input.as_bytes();
     let len = bytes.len();
-    let backing_store = v8::ArrayBuffer::new_backing_store_from_vec(bytes.to_vec());
-    let buffer = v8::ArrayBuffer::with_backing_store(scope, &backing_store.into());
+    let buffer = crate::v8_helpers::create_array_buffer_from_vec(scope, bytes.to_vec());
     let array = v8::Uint8Array::new(scope, buffer, 0, len).unwrap();
 
     rv.set(array.into());
-- 
2.43.0


From ffce28bb11588b11c4d4618bcc98098517a1524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:50 +0000
Subject: [PATCH 12/46] fix: websocket messages wrap host memory, which sandbox
 builds do not allow

---
 src/runtime/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c6c5eb6..7c62fe1 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -105,8 +105,7 @@ pub(crate) fn dispatch_ws_event(
         }
         WebSocketIncoming::Binary(bytes) => {
             let type_val = v8::String::new(scope, "message").unwrap();
-            let store = v8::ArrayBuffer::new_backing_store_from_vec(bytes);
-            let ab = v8::ArrayBuffer::with_backing_store(scope, &store.into());
+            let ab = crate::v8_helpers::create_array_buffer_from_vec(scope, bytes);
             callback.call(scope, recv.into(), &[type_val.into(), ab.into()]);
         }
         WebSocketIncoming::Closed { code, reason } => {
-- 
2.43.0


From 8d40821989d63de37d229274bfe59cbc43d8112e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 13/46] fix: cancelling a stream leaves pending reads unsettled
 and chunks queued

---
 src/runtime/streams.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index a3e69e3..dc9698e 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -44,13 +44,17 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                 this._state = 'closed';
 
+                // Queued chunks will not be read any more
+                this._controller._queue = [];
+
                 // Abort the controller's signal to notify user code
                 if (this._controller && this._controller._abortController) {
                     this._controller._abortController.abort(reason || 'Stream cancelled');
                 }
 
-                // Clear reader
+                // Settle pending reads, clear reader
                 if (this._reader) {
+                    this._reader._processQueue();
                     this._reader._closePending();
                     this._reader = null;
                 }
-- 
2.43.0


From c1ed987d52096ad44a14b8510085a42f951f15db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 14/46] fix: a reader made with its constructor does not lock
 the stream

---
 src/runtime/streams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index dc9698e..92a0ef0 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -291,6 +291,8 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
                     this._closedPromiseResolve = resolve;
                     this._closedPromiseReject = reject;
                 });
+
+                stream._reader = this;
             }
 
             read() {
-- 
2.43.0


From 013c50c4dbe39047d8dc1267190b9904f7bf84d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 15/46] fix: a pull() that throws loses the next chunk

---
 src/runtime/streams.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/runtime/streams.rs b/src/runtime/streams.rs
index 92a0ef0..637742c 100644
--- a/src/runtime/streams.rs
+++ b/src/runtime/streams.rs
@@ -333,7 +333,13 @@ pub fn setup_readable_stream(scope: &mut v8::PinScope) {
 
                         // Call pull to request more data
                         // pull() should enqueue data or close/error the stream
-                        const pullPromise = underlyingSource.pull(controller);
+                        let pullPromise;
+                        try {
+                            pullPromise = underlyingSource.pull(controller);
+                        } catch (e) {
+                            controller.error(e);
+                            return;
+                        }
                         if (pullPromise && typeof pullPromise.then === 'function') {
                             pullPromise.catch(e => {
                                 controller.error(e);
-- 
2.43.0


From 2967846553b7bdec793cdb516235ecf77b2c4e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 16/46] fix: a request built from another one leaves that one's
 body readable

---
 src/runtime/bindings/web_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index e8d5ac2..a3bf987 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -818,7 +818,9 @@ pub fn setup_request(scope: &mut v8::PinScope) {
                     if (init.body !== undefined) {
                         this._initBody(init.body);
                     } else if (input.body && !input.bodyUsed) {
+                        // The body moves to the new request
                         this._initBody(input.body);
+                        input.bodyUsed = true;
                     } else {
                         this.body = null;
                     }
-- 
2.43.0


From 5ea791c503d16809cbe83a180bc804f8f267c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 17/46] fix: getSetCookie() overlooks a cookie header with an
 empty value

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index a3bf987..dad4f67 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -789,7 +789,7 @@ pub fn setup_headers(scope: &mut v8::PinScope) {
             // getSetCookie returns all Set-Cookie headers as array
             getSetCookie() {
                 const value = this._map.get('set-cookie');
-                if (!value) return [];
+                if (value === undefined) return [];
                 // If it's already an array (multiple set-cookie headers), return it
                 // Otherwise wrap single value in array
                 return Array.isArray(value) ? value : [value];
-- 
2.43.0


From f46d4e416443fe50e36042c8e50fbeccea008578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 18/46] fix: an abort listener that is registered twice is
 notified twice

---
 src/runtime/bindings/web_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index dad4f67..0a3ad6a 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -215,7 +215,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             addEventListener(type, listener) {
-                if (type === 'abort') {
+                if (type === 'abort' && !this._listeners.includes(listener)) {
                     this._listeners.push(listener);
                 }
             }
-- 
2.43.0


From 81d8680d63e73425b619b8c7e6864ac2e8dbb849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 19/46] fix: an abort reason that is falsy is replaced by the
 default one

---
 src/runtime/bindings/web_api.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/bindings/web_api.rs b/src/runtime/bindings/web_api.rs
index 0a3ad6a..1bd0071 100644
--- a/src/runtime/bindings/web_api.rs
+++ b/src/runtime/bindings/web_api.rs
@@ -244,7 +244,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
 
             static abort(reason) {
                 const signal = new AbortSignal();
-                signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                signal._abort(reason === undefined ? new DOMException('Aborted', 'AbortError') : reason);
                 return signal;
             }
 
@@ -263,7 +263,7 @@ pub fn setup_abort_controller(scope: &mut v8::PinScope) {
             }
 
             abort(reason) {
-                this.signal._abort(reason || new DOMException('Aborted', 'AbortError'));
+                this.signal._abort(reason === undefined ? new DOMException('Aborted', 'AbortError') : reason);
             }
         };
 
-- 
2.43.0


From bc4b802cb29f9a72845ad2d8978367f426b4d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 20/46] fix: logging a value that has no string form throws

---
 src/runtime/bindings/console.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/runtime/bindings/console.rs b/src/runtime/bindings/console.rs
index 5ce6798..23da1f6 100644
--- a/src/runtime/bindings/console.rs
+++ b/src/runtime/bindings/console.rs
@@ -57,19 +57,24 @@ pub fn setup_console(scope: &mut v8::PinScope, log_callback: LogCallback) {
         scope,
         r#"
         function __formatArg(a) {
-            if (a instanceof Error) {
-                return a.stack || (a.name + ': ' + a.message);
-            }
+            try {
+                if (a instanceof Error) {
+                    return String(a.stack || (a.name + ': ' + a.message));
+                }
 
-            if (typeof a === 'object' && a !== null) {
-                try {
-                    return JSON.stringify(a);
-                } catch (e) {
-                    return String(a);
+                if (typeof a === 'object' && a !== null) {
+                    try {
+                        return JSON.stringify(a);
+                    } catch (e) {
+                        return String(a);
+                    }
                 }
-            }
 
-            return String(a);
+                return String(a);
+            } catch (e) {
+                // Logging must not throw: a value may have no string form
+                return '[unprintable]';
+            }
         }
 
         globalThis.console = {
-- 
2.43.0


From 4492e1eeb5dc0586dbdb92eacd444305fce4ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 21/46] fix: a closed web socket delivers events, and close
 more than once

---
 src/runtime/bindings/websocket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 2607464..7bdc8d2 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -299,6 +299,9 @@ pub fn setup_websocket(
                 const self = this;
 
                 __nativeWebSocketAccept(this._wsId, function(eventType, arg1, arg2) {
+                    // Once closed, nothing more is delivered (and close only once).
+                    if (self.readyState === WS_CLOSED) return;
+
                     if (eventType === 'message') {
                         self._dispatch('message', { type: 'message', data: arg1 });
                     } else if (eventType === 'close') {
-- 
2.43.0


From 94468a1c7d6dff73a9315f3f017db5f7e8b47d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:08 +0000
Subject: [PATCH 22/46] fix: accept() on a connecting web socket receives from
 another handle

---
 src/runtime/bindings/websocket.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/runtime/bindings/websocket.rs b/src/runtime/bindings/websocket.rs
index 7bdc8d2..73015d0 100644
--- a/src/runtime/bindings/websocket.rs
+++ b/src/runtime/bindings/websocket.rs
@@ -314,6 +314,9 @@ pub fn setup_websocket(
             }
 
             accept() {
+                // Before the connection is made there is no handle to receive from;
+                // the standard path starts receiving on its own.
+                if (this._wsId === null) return;
                 this._startReceiving();
             }
 
-- 
2.43.0


From 163ee75a020145b02004b822444246a45744a210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 23/46] fix: a one-shot timer whose callback throws is kept

The entry was removed after the callback, so a throwing callback stayed in the
timer table, with everything it references, for the life of the context.
---
 src/runtime/bindings/timers.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/timers.rs b/src/runtime/bindings/timers.rs
index 7c1f832..8554c1a 100644
--- a/src/runtime/bindings/timers.rs
+++ b/src/runtime/bindings/timers.rs
@@ -108,10 +108,11 @@ pub fn setup_timers(
         globalThis.__executeTimer = function(id) {
             const callback = globalThis.__timerCallbacks.get(id);
             if (callback) {
-                callback();
+                // A one-shot timer is spent once it fires, even if its callback throws
                 if (!globalThis.__intervalIds.has(id)) {
                     globalThis.__timerCallbacks.delete(id);
                 }
+                callback();
             }
         };
     "#
-- 
2.43.0


From a1d72d01db17e046f7dc93b21ae1c2af9d219d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 24/46] fix: an event handler that throws null or an
 unprintable value never completes its response

---
 src/worker.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 82cef42..d5d2a28 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1320,6 +1320,16 @@ pub(crate) fn setup_event_listener(
         // Track active response streams - worker stays alive until all streams are closed
         globalThis.__activeResponseStreams = 0;
 
+        // A thrown value can be anything (null, an object without a string form):
+        // describe it without throwing again
+        function __errorText(error) {
+            try {
+                return String((error && error.message) || error);
+            } catch (e) {
+                return 'unknown error';
+            }
+        }
+
         // Signal client disconnect to abort response streams
         // Called from Rust when consumer disconnects
         globalThis.__signalClientDisconnect = function() {
@@ -1466,7 +1476,7 @@ pub(crate) fn setup_event_listener(
                                     .catch(error => {
                                         console.error('[respondWith] Promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Promise rejected: ' + (error.message || error),
+                                            'Promise rejected: ' + __errorText(error),
                                             { status: 500 }
                                         );
                                     });
@@ -1507,7 +1517,7 @@ pub(crate) fn setup_event_listener(
                                     .catch(error => {
                                         console.error('[addEventListener] Handler promise rejected:', error);
                                         globalThis.__lastResponse = new Response(
-                                            'Handler promise rejected: ' + (error.message || error),
+                                            'Handler promise rejected: ' + __errorText(error),
                                             { status: 500 }
                                         );
                                     });
@@ -1527,7 +1537,7 @@ pub(crate) fn setup_event_listener(
                             // Only set a 500 response if no response was already produced.
                             // A rejected waitUntil promise must NOT overwrite a valid response.
                             if (!globalThis.__lastResponse) {
-                                globalThis.__lastResponse = new Response('Handler exception: ' + (error.message || error), { status: 500 });
+                                globalThis.__lastResponse = new Response('Handler exception: ' + __errorText(error), { status: 500 });
                             }
                         } finally {
                             globalThis.__requestComplete = true;
@@ -1602,7 +1612,7 @@ pub(crate) fn setup_event_listener(
                         console.error('[task] Handler error:', error);
                         globalThis.__taskResult = {
                             success: false,
-                            error: error.message || String(error)
+                            error: __errorText(error)
                         };
                     } finally {
                         globalThis.__requestComplete = true;
@@ -1661,7 +1671,7 @@ pub(crate) fn setup_es_modules_handler(
                         console.error('[ES Modules] Error in fetch handler:', error);
                         if (!globalThis.__lastResponse) {
                             globalThis.__lastResponse = new Response(
-                                'Handler exception: ' + (error.message || error),
+                                'Handler exception: ' + __errorText(error),
                                 { status: 500 }
                             );
                         }
@@ -1767,7 +1777,7 @@ pub(crate) fn setup_es_modules_handler(
                 } catch (e) {
                     globalThis.__taskResult = {
                         success: false,
-                        error: e.message || String(e)
+                        error: __errorText(e)
                     };
                 } finally {
                     globalThis.__requestComplete = true;
-- 
2.43.0


From ddc05e5ca19bfa44c5a6a0f24aba04889321ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 25/46] fix: respondWith of something that is not a response
 leaves the request unanswered

---
 src/worker.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index d5d2a28..f6972c8 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1484,6 +1484,14 @@ pub(crate) fn setup_event_listener(
                                 responsePromise = __streamResponseBody(responseOrPromise)
                                     .then(response => {
                                         globalThis.__lastResponse = response;
+                                    })
+                                    .catch(error => {
+                                        // Not a response: nobody may be waiting for this promise
+                                        console.error('[respondWith] Invalid response:', error);
+                                        globalThis.__lastResponse = new Response(
+                                            'Invalid response: ' + __errorText(error),
+                                            { status: 500 }
+                                        );
                                     });
                             }
                         }
-- 
2.43.0


From a1710329d6679338391b86636158b3afe566eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 26/46] fix: a scheduled handler that fails is reported as a
 success

---
 src/worker.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index f6972c8..e266601 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1568,6 +1568,12 @@ pub(crate) fn setup_event_listener(
                         if (waitUntilPromises.length > 0) {
                             await Promise.all(waitUntilPromises);
                         }
+                    } catch (error) {
+                        console.error('[scheduled] Handler error:', error);
+                        globalThis.__taskResult = {
+                            success: false,
+                            error: __errorText(error)
+                        };
                     } finally {
                         globalThis.__requestComplete = true;
                     }
@@ -1720,6 +1726,12 @@ pub(crate) fn setup_es_modules_handler(
                     if (waitUntilPromises.length > 0) {
                         await Promise.all(waitUntilPromises);
                     }
+                } catch (error) {
+                    console.error('[scheduled] Handler error:', error);
+                    globalThis.__taskResult = {
+                        success: false,
+                        error: __errorText(error)
+                    };
                 } finally {
                     globalThis.__requestComplete = true;
                 }
-- 
2.43.0


From 72502a6c3ee90dec6867827a4e0bed1d0909d676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:34 +0000
Subject: [PATCH 27/46] fix: a task sent to a worker without a scheduled
 handler never completes

---
 src/worker.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index e266601..49ff5c2 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1738,10 +1738,11 @@ pub(crate) fn setup_es_modules_handler(
             };
         }
 
-        // If export default exists but no scheduled, and no addEventListener handler, create a handler that throws
+        // If export default exists but no scheduled, and no addEventListener handler, create a handler that fails
         if (typeof globalThis.default === 'object' && globalThis.default !== null && typeof globalThis.default.scheduled !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
             globalThis.__scheduledHandler = async function(event) {
-                throw new Error('Worker does not implement scheduled handler');
+                globalThis.__taskResult = { success: false, error: 'Worker does not implement scheduled handler' };
+                globalThis.__requestComplete = true;
             };
         }
 
-- 
2.43.0


From 9293118c36e2f1fab2aec5a388d06c4e2d64d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:45 +0000
Subject: [PATCH 28/46] fix: a task sent to a worker without any handler never
 completes

---
 src/worker.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/worker.rs b/src/worker.rs
index 49ff5c2..907c22b 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1826,6 +1826,14 @@ pub(crate) fn setup_es_modules_handler(
                 globalThis.__requestComplete = true;
             };
         }
+
+        // Same for tasks: without any handler the task would never complete
+        if (typeof globalThis.__taskHandler !== 'function' && typeof globalThis.__scheduledHandler !== 'function') {
+            globalThis.__taskHandler = async function(event) {
+                globalThis.__taskResult = { success: false, error: 'Worker does not implement task handler' };
+                globalThis.__requestComplete = true;
+            };
+        }
     "#;
 
     evaluate_in_context(isolate, context, code)
-- 
2.43.0


From 71a13b919946f1ca53ff8b72252767fc3792fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 29/46] fix: the end of a streamed response is lost when the
 stream buffer is full

---
 src/runtime/bindings/streams.rs | 14 ++++++++++----
 src/worker.rs                   | 12 +++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index 9281eb8..ab70704 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -134,13 +134,19 @@ fn response_stream_write(
         .is_ok()
 }
 
-/// End a response stream
+/// End a response stream - returns true if the end was written, false if full/error
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
-fn response_stream_end(scope: &mut v8::PinScope, state: &Rc<ResponseStreamState>, stream_id: u64) {
+fn response_stream_end(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+) -> bool {
     let _ = scope;
-    let _ = state
+
+    state
         .manager
-        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done);
+        .try_write_chunk(stream_id, stream_manager::StreamChunk::Done)
+        .is_ok()
 }
 
 /// Check if a response stream is closed
diff --git a/src/worker.rs b/src/worker.rs
index 907c22b..dbfc5ed 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1443,9 +1443,15 @@ pub(crate) fn setup_event_listener(
                         }
                     }
 
-                    __responseStreamEnd(streamId);
-                    // Decrement counter when stream is fully consumed
-                    globalThis.__activeResponseStreams--;
+                    try {
+                        // Buffer full: wait and retry, the end must not get lost
+                        while (!__responseStreamEnd(streamId) && !__responseStreamIsClosed(streamId)) {
+                            await new Promise(resolve => setTimeout(resolve, 1));
+                        }
+                    } finally {
+                        // Decrement counter when stream is fully consumed
+                        globalThis.__activeResponseStreams--;
+                    }
                 }
             })();
 
-- 
2.43.0


From 6c97cdeffe8cf84c499ce0ce48c9538f8b64036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 30/46] fix: a streamed response whose body fails half-way
 looks complete

---
 src/runtime/bindings/streams.rs | 20 ++++++++++++++++++++
 src/worker.rs                   |  9 ++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/runtime/bindings/streams.rs b/src/runtime/bindings/streams.rs
index ab70704..f3eda0c 100644
--- a/src/runtime/bindings/streams.rs
+++ b/src/runtime/bindings/streams.rs
@@ -149,6 +149,22 @@ fn response_stream_end(
         .is_ok()
 }
 
+/// Fail a response stream - returns true if the error was written, false if full/error
+#[glue_v8::method(state = Rc<ResponseStreamState>)]
+fn response_stream_error(
+    scope: &mut v8::PinScope,
+    state: &Rc<ResponseStreamState>,
+    stream_id: u64,
+    message: String,
+) -> bool {
+    let _ = scope;
+
+    state
+        .manager
+        .try_write_chunk(stream_id, stream_manager::StreamChunk::Error(message))
+        .is_ok()
+}
+
 /// Check if a response stream is closed
 #[glue_v8::method(state = Rc<ResponseStreamState>)]
 fn response_stream_is_closed(
@@ -182,6 +198,9 @@ pub fn setup_response_stream_ops(
     let end_fn = response_stream_end_v8_template(scope, &state)
         .get_function(scope)
         .unwrap();
+    let error_fn = response_stream_error_v8_template(scope, &state)
+        .get_function(scope)
+        .unwrap();
     let is_closed_fn = response_stream_is_closed_v8_template(scope, &state)
         .get_function(scope)
         .unwrap();
@@ -189,5 +208,6 @@ pub fn setup_response_stream_ops(
     register_fn!(scope, "__responseStreamCreate", create_fn);
     register_fn!(scope, "__responseStreamWrite", write_fn);
     register_fn!(scope, "__responseStreamEnd", end_fn);
+    register_fn!(scope, "__responseStreamError", error_fn);
     register_fn!(scope, "__responseStreamIsClosed", is_closed_fn);
 }
diff --git a/src/worker.rs b/src/worker.rs
index dbfc5ed..10619d9 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1403,6 +1403,7 @@ pub(crate) fn setup_event_listener(
             (async () => {
                 let reader = null;
                 let cancelled = false;
+                let failure = null;
 
                 try {
                     reader = response.body.getReader();
@@ -1433,6 +1434,7 @@ pub(crate) fn setup_event_listener(
                     }
                 } catch (error) {
                     console.error('[streamResponseBody] Error:', error);
+                    failure = __errorText(error);
                 } finally {
                     // Cancel the reader to trigger the source's cancel() callback
                     if (reader && cancelled) {
@@ -1443,9 +1445,14 @@ pub(crate) fn setup_event_listener(
                         }
                     }
 
+                    // A body that failed half-way must not look complete
+                    const finish = () => failure === null
+                        ? __responseStreamEnd(streamId)
+                        : __responseStreamError(streamId, failure);
+
                     try {
                         // Buffer full: wait and retry, the end must not get lost
-                        while (!__responseStreamEnd(streamId) && !__responseStreamIsClosed(streamId)) {
+                        while (!finish() && !__responseStreamIsClosed(streamId)) {
                             await new Promise(resolve => setTimeout(resolve, 1));
                         }
                     } finally {
-- 
2.43.0


From 9c67b765d9863b2277caeb838957c0aa5b34cc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 31/46] fix: ArrayBuffer, DataView and number chunks of a
 streamed response are dropped

---
 src/worker.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 10619d9..72d109f 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -1395,6 +1395,10 @@ pub(crate) fn setup_event_listener(
                     return new Uint8Array(value.buffer, value.byteOffset, value.byteLength);
                 }
 
+                if (value instanceof ArrayBuffer) {
+                    return new Uint8Array(value);
+                }
+
                 // Fallback: convert to string then encode
                 return encoder.encode(String(value));
             }
@@ -1413,9 +1417,9 @@ pub(crate) fn setup_event_listener(
 
                         if (done) break;
 
-                        if (value && value.length > 0) {
-                            const chunk = toUint8Array(value);
+                        const chunk = value === undefined || value === null ? null : toUint8Array(value);
 
+                        if (chunk && chunk.length > 0) {
                             // Try to write, with backpressure handling
                             while (!__responseStreamWrite(streamId, chunk)) {
                                 // Check if stream was closed (client disconnected)
-- 
2.43.0


From b3b4bfa6ae42c8241e97ff918b0268633b0a6d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:10 +0000
Subject: [PATCH 32/46] fix: a streamed response that is cut off by the end of
 its worker looks complete

---
 src/execution_helpers.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/execution_helpers.rs b/src/execution_helpers.rs
index 5f522b7..0b42d68 100644
--- a/src/execution_helpers.rs
+++ b/src/execution_helpers.rs
@@ -440,6 +440,10 @@ pub fn read_response_object(
                                     break;
                                 }
                                 None => {
+                                    // Closed before its end: the body must not look complete
+                                    let _ = tx
+                                        .send(Err("Stream closed unexpectedly".to_string()))
+                                        .await;
                                     break;
                                 }
                             }
-- 
2.43.0


From d2b21d3cfc38778fcf2359b8752f109e1e5ad7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 33/46] fix: a forwarded body that is cut off by cancellation
 looks complete

---
 src/runtime/scheduler.rs | 55 +++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/src/runtime/scheduler.rs b/src/runtime/scheduler.rs
index b682cbe..f43e184 100644
--- a/src/runtime/scheduler.rs
+++ b/src/runtime/scheduler.rs
@@ -464,36 +464,39 @@ fn spawn_stream_reader(
     cancel: CancellationToken,
 ) {
     tokio::spawn(async move {
-        loop {
-            let chunk = tokio::select! {
-                biased;
-                _ = cancel.cancelled() => break,
-                r = rx.recv() => r,
-            };
-
-            match chunk {
-                Some(Ok(bytes)) => {
-                    if manager
-                        .write_chunk(stream_id, stream_manager::StreamChunk::Data(bytes))
-                        .await
-                        .is_err()
-                    {
-                        break;
+        let pump = async {
+            while let Some(chunk) = rx.recv().await {
+                match chunk {
+                    Ok(bytes) => {
+                        if manager
+                            .write_chunk(stream_id, stream_manager::StreamChunk::Data(bytes))
+                            .await
+                            .is_err()
+                        {
+                            return;
+                        }
+                    }
+                    Err(e) => {
+                        let _ = manager
+                            .write_chunk(stream_id, stream_manager::StreamChunk::Error(e))
+                            .await;
+                        return;
                     }
                 }
-                Some(Err(e)) => {
-                    let _ = manager
-                        .write_chunk(stream_id, stream_manager::StreamChunk::Error(e))
-                        .await;
-                    return;
-                }
-                None => break,
             }
-        }
 
-        let _ = manager
-            .write_chunk(stream_id, stream_manager::StreamChunk::Done)
-            .await;
+            let _ = manager
+                .write_chunk(stream_id, stream_manager::StreamChunk::Done)
+                .await;
+        };
+
+        tokio::select! {
+            biased;
+            // First, so that a body whose end has already arrived is complete
+            _ = pump => {}
+            // Cut off: without its end, the body does not look complete
+            _ = cancel.cancelled() => manager.close_stream(stream_id),
+        }
     });
 }
 
-- 
2.43.0


From 172b202d310e1f864e57b1aa1daa9f45f4801d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:18 +0000
Subject: [PATCH 34/46] fix: HMAC uses keys that were made for other algorithms

---
 src/runtime/crypto/hmac.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 09aab2b..7e6fa0e 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -199,7 +199,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
@@ -238,7 +238,7 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
-                    if (!key.__keyData) {
+                    if (!key.__keyData || key.algorithm.name !== 'HMAC') {
                         reject(new Error('Invalid key'));
                         return;
                     }
-- 
2.43.0


From b09197696055956f63a1d4d864fcfcbbd559b975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 35/46] fix: the usages of a key are not enforced

---
 src/runtime/crypto/ecdsa.rs  | 15 ++++++++++++++-
 src/runtime/crypto/hmac.rs   | 10 ++++++++++
 src/runtime/crypto/pbkdf2.rs |  5 +++++
 src/runtime/crypto/rsa.rs    | 10 ++++++++++
 4 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index b85a682..5533dcd 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -214,7 +214,9 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             keyUsages.filter(u => u === 'sign'),
                             new Uint8Array(result.privateKey)
                         );
-                        privKey.__publicKeyData = new Uint8Array(result.publicKey);
+                        if (keyUsages.includes('verify')) {
+                            privKey.__publicKeyData = new Uint8Array(result.publicKey);
+                        }
 
                         const pubKey = __createCryptoKey(
                             'public', true,
@@ -305,6 +307,11 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        if (!key.usages.includes('sign')) {
+                            reject(new Error('Key does not permit sign'));
+                            return;
+                        }
+
                         let dataBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
@@ -348,6 +355,12 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        // A private key carries its public key only if the pair permits verification
+                        if (key.type === 'private' ? !key.__publicKeyData : !key.usages.includes('verify')) {
+                            reject(new Error('Key does not permit verify'));
+                            return;
+                        }
+
                         let dataBytes, sigBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
diff --git a/src/runtime/crypto/hmac.rs b/src/runtime/crypto/hmac.rs
index 7e6fa0e..4fcba0b 100644
--- a/src/runtime/crypto/hmac.rs
+++ b/src/runtime/crypto/hmac.rs
@@ -204,6 +204,11 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
+                    if (!key.usages.includes('sign')) {
+                        reject(new Error('Key does not permit sign'));
+                        return;
+                    }
+
                     let dataBytes;
                     if (data instanceof ArrayBuffer) {
                         dataBytes = new Uint8Array(data);
@@ -243,6 +248,11 @@ pub(super) fn setup_hmac(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obj
                         return;
                     }
 
+                    if (!key.usages.includes('verify')) {
+                        reject(new Error('Key does not permit verify'));
+                        return;
+                    }
+
                     let dataBytes, sigBytes;
                     if (data instanceof ArrayBuffer) {
                         dataBytes = new Uint8Array(data);
diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 6778661..8034fb6 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -151,6 +151,11 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
                         return;
                     }
 
+                    if (!baseKey.usages.includes('deriveBits')) {
+                        reject(new Error('Key does not permit deriveBits'));
+                        return;
+                    }
+
                     let salt;
                     if (algorithm.salt instanceof ArrayBuffer) {
                         salt = new Uint8Array(algorithm.salt);
diff --git a/src/runtime/crypto/rsa.rs b/src/runtime/crypto/rsa.rs
index bceb9b2..a9eb04f 100644
--- a/src/runtime/crypto/rsa.rs
+++ b/src/runtime/crypto/rsa.rs
@@ -222,6 +222,11 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                             return;
                         }
 
+                        if (!key.usages.includes('sign')) {
+                            reject(new Error('Key does not permit sign'));
+                            return;
+                        }
+
                         let dataBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
@@ -264,6 +269,11 @@ pub(super) fn setup_rsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Obje
                             return;
                         }
 
+                        if (!key.usages.includes('verify')) {
+                            reject(new Error('Key does not permit verify'));
+                            return;
+                        }
+
                         let dataBytes, sigBytes;
                         if (data instanceof ArrayBuffer) {
                             dataBytes = new Uint8Array(data);
-- 
2.43.0


From 16fb23a7eb198f43970595867ec9d8cef34c4cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 36/46] fix: an imported key changes when the caller's buffer
 does

---
 src/runtime/crypto/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/crypto/mod.rs b/src/runtime/crypto/mod.rs
index e83d922..b058813 100644
--- a/src/runtime/crypto/mod.rs
+++ b/src/runtime/crypto/mod.rs
@@ -46,7 +46,8 @@ fn setup_crypto_key(scope: &mut v8::PinScope) {
                 this.extractable = extractable;
                 this.algorithm = algorithm;
                 this.usages = Object.freeze([...usages]);
-                this.__keyData = keyData;
+                // A copy: the caller may go on to change its buffer
+                this.__keyData = new Uint8Array(keyData);
             }
         };
 
-- 
2.43.0


From 0282d0ed3459916e771a445ed91de8616558657d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:19 +0000
Subject: [PATCH 37/46] fix: ECDSA silently uses SHA-256 when another hash is
 named

---
 src/runtime/crypto/ecdsa.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/runtime/crypto/ecdsa.rs b/src/runtime/crypto/ecdsa.rs
index 5533dcd..6f150ef 100644
--- a/src/runtime/crypto/ecdsa.rs
+++ b/src/runtime/crypto/ecdsa.rs
@@ -307,6 +307,12 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        if (typeof algorithm === 'object' && algorithm.hash
+                            && (typeof algorithm.hash === 'string' ? algorithm.hash : algorithm.hash.name).toUpperCase() !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         if (!key.usages.includes('sign')) {
                             reject(new Error('Key does not permit sign'));
                             return;
@@ -355,6 +361,12 @@ pub(super) fn setup_ecdsa(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::Ob
                             return;
                         }
 
+                        if (typeof algorithm === 'object' && algorithm.hash
+                            && (typeof algorithm.hash === 'string' ? algorithm.hash : algorithm.hash.name).toUpperCase() !== 'SHA-256') {
+                            reject(new Error('Only SHA-256 is supported for ECDSA'));
+                            return;
+                        }
+
                         // A private key carries its public key only if the pair permits verification
                         if (key.type === 'private' ? !key.__publicKeyData : !key.usages.includes('verify')) {
                             reject(new Error('Key does not permit verify'));
-- 
2.43.0


From 44e6783591a37e7a0c5f3f335e1e12b2c0d2577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:55 +0000
Subject: [PATCH 38/46] fix: a CPU signal that is in flight while its guard is
 dropped terminates the next script

---
 src/security/cpu_enforcer.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index 4eebb9e..dc80162 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -163,15 +163,6 @@ mod linux {
         terminated: Arc<AtomicBool>,
     }
 
-    impl Clone for EnforcerData {
-        fn clone(&self) -> Self {
-            Self {
-                isolate_handle: self.isolate_handle.clone(),
-                terminated: self.terminated.clone(),
-            }
-        }
-    }
-
     static ENFORCER_REGISTRY: std::sync::LazyLock<Mutex<HashMap<usize, EnforcerData>>> =
         std::sync::LazyLock::new(|| {
             spawn_signal_handler_thread();
@@ -230,19 +221,28 @@ mod linux {
                 // Extract enforcer_id from signal value (set in timer_create)
                 let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
 
-                // Lookup ONLY this specific enforcer in registry
-                let data = {
+                // Lookup ONLY this specific enforcer in registry. The registry stays locked
+                // until the isolate is terminated: once a guard is dropped, which takes the
+                // same lock, its signal must not terminate what runs on the isolate next
+                let fired = {
                     let map = ENFORCER_REGISTRY.lock().unwrap();
-                    map.get(&enforcer_id).cloned()
+                    map.get(&enforcer_id).map(|enforcer_data| {
+                        let first = !enforcer_data.terminated.swap(true, Ordering::SeqCst);
+
+                        if first {
+                            enforcer_data.isolate_handle.terminate_execution();
+                        }
+
+                        first
+                    })
                 };
 
-                if let Some(enforcer_data) = data {
-                    if !enforcer_data.terminated.swap(true, Ordering::SeqCst) {
+                if let Some(first) = fired {
+                    if first {
                         eprintln!(
                             "[openworkers-runtime-v8] CPU time limit exceeded for enforcer #{}, terminating isolate",
                             enforcer_id
                         );
-                        enforcer_data.isolate_handle.terminate_execution();
                     }
                 } else {
                     // Timer fired but enforcer was already dropped (normal race condition)
-- 
2.43.0


From 701684bd94100e2c91fac0e8773097cb52e9e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 39/46] fix: a CPU timer that expires before the signal handler
 is installed kills the process

---
 src/security/cpu_enforcer.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/security/cpu_enforcer.rs b/src/security/cpu_enforcer.rs
index dc80162..fd0af95 100644
--- a/src/security/cpu_enforcer.rs
+++ b/src/security/cpu_enforcer.rs
@@ -40,7 +40,7 @@
 mod linux {
     use std::collections::HashMap;
     use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
-    use std::sync::{Arc, Mutex, Once};
+    use std::sync::{Arc, Mutex, Once, mpsc};
 
     /// CPU time enforcer using POSIX timers.
     pub struct CpuEnforcer {
@@ -193,14 +193,21 @@ mod linux {
         static SIGNAL_THREAD_SPAWNED: Once = Once::new();
 
         SIGNAL_THREAD_SPAWNED.call_once(|| {
+            let (ready_tx, ready_rx) = mpsc::channel();
+
             std::thread::Builder::new()
                 .name("cpu-enforcer".into())
-                .spawn(signal_handler_thread)
+                .spawn(move || signal_handler_thread(ready_tx))
                 .expect("Failed to spawn CPU enforcer signal handler thread");
+
+            // Until the handler is installed, an expired timer would kill the process
+            ready_rx
+                .recv()
+                .expect("CPU enforcer signal handler thread failed to start");
         });
     }
 
-    fn signal_handler_thread() {
+    fn signal_handler_thread(ready_tx: mpsc::Sender<()>) {
         use futures::StreamExt;
         use signal_hook::consts::signal;
         use signal_hook::iterator::exfiltrator::raw::WithRawSiginfo;
@@ -217,6 +224,8 @@ mod linux {
             let mut signals = SignalsInfo::with_exfiltrator([signal::SIGALRM], WithRawSiginfo)
                 .expect("Failed to register SIGALRM handler");
 
+            let _ = ready_tx.send(());
+
             while let Some(siginfo) = signals.next().await {
                 // Extract enforcer_id from signal value (set in timer_create)
                 let enforcer_id = unsafe { siginfo.si_value().sival_ptr as usize };
-- 
2.43.0


From 44342554760c3e8d65c0625a0dfcb1473bda2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:44 +0000
Subject: [PATCH 40/46] fix: SharedArrayBuffer and Atomics stay available
 outside execution contexts

---
 src/runtime/mod.rs | 4 ++++
 src/worker.rs      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 7c62fe1..792b9fa 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -322,6 +322,10 @@ impl Runtime {
                     bindings::setup_response(scope);
                 }
 
+                // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+                // Must be done at context creation, not in snapshot (breaks V8 bootstrapping)
+                bindings::setup_security_restrictions(scope);
+
                 v8::Global::new(scope.as_ref(), context)
             };
 
diff --git a/src/worker.rs b/src/worker.rs
index 72d109f..79a5441 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -217,6 +217,10 @@ impl WorkerBuilder {
                 bindings::setup_response(scope);
             }
 
+            // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+            // Must be done at context creation, not in snapshot (breaks V8 bootstrapping)
+            bindings::setup_security_restrictions(scope);
+
             v8::Global::new(scope.as_ref(), context)
         };
 
-- 
2.43.0


From 506d11a73101d954bf79548306161921e9b20b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:50 +0000
Subject: [PATCH 41/46] fix: an empty or unreadable snapshot file leaves
 one-shot workers without web APIs

---
 src/worker.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/worker.rs b/src/worker.rs
index 79a5441..0c56ee3 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -152,13 +152,9 @@ impl WorkerBuilder {
         // Create log callback that bypasses scheduler (calls ops.handle_log directly)
         let log_callback = bindings::log_callback_from_ops(&ops);
 
-        // Check if snapshot is available
-        use std::sync::OnceLock;
-        static USE_SNAPSHOT: OnceLock<bool> = OnceLock::new();
-        let use_snapshot = *USE_SNAPSHOT.get_or_init(|| {
-            const RUNTIME_SNAPSHOT_PATH: &str = env!("RUNTIME_SNAPSHOT_PATH");
-            std::path::Path::new(RUNTIME_SNAPSHOT_PATH).exists()
-        });
+        // Check if snapshot is available (same decision as for the isolates themselves:
+        // an empty or unreadable snapshot file does not count)
+        let use_snapshot = crate::platform::get_snapshot().is_some();
 
         // Create context with bindings on the borrowed isolate
         let context = {
-- 
2.43.0


From fe3d0e40d8e9f2ab0a960671d6c3136fae545c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:05 +0000
Subject: [PATCH 42/46] fix: give the isolate slot back when a pooled request
 is cancelled or panics

The slot was released explicitly at the two normal exits of execute_pinned.
A request whose future was dropped at an await point (or that panicked) kept
its isolate marked busy for ever, so the owner ran out of slots and the
isolate could neither be reused nor evicted. Release it from a drop guard.
---
 src/pool.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 10ce28c..956142e 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -522,8 +522,9 @@ fn acquire_from_local_pool(owner_id: &str) -> Option<(Arc<TaggedIsolate>, bool)>
 fn release_to_local_pool(isolate: &TaggedIsolate) {
     isolate.release();
 
-    // Reclaim any overcommitted isolates that are now free
-    LOCAL_POOL.with(|pool_cell| {
+    // Reclaim any overcommitted isolates that are now free. The pool itself is
+    // gone when the thread's locals are already destroyed.
+    let _ = LOCAL_POOL.try_with(|pool_cell| {
         let mut pool_opt = pool_cell.borrow_mut();
 
         if let Some(pool) = pool_opt.as_mut() {
@@ -532,6 +533,16 @@ fn release_to_local_pool(isolate: &TaggedIsolate) {
     });
 }
 
+/// Gives an acquired slot back when the request ends, however it ends:
+/// by returning, by panicking or by being cancelled at an await point.
+struct SlotGuard(Arc<TaggedIsolate>);
+
+impl Drop for SlotGuard {
+    fn drop(&mut self) {
+        release_to_local_pool(&self.0);
+    }
+}
+
 // ============================================================================
 // Statistics
 // ============================================================================
@@ -620,6 +631,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // Fail-fast: try to acquire an isolate, return error if at capacity
     let (isolate_arc, is_hit) = acquire_from_local_pool(&owner_id)
         .ok_or_else(|| TerminationReason::Other("Pool at capacity".to_string()))?;
+    let _slot = SlotGuard(Arc::clone(&isolate_arc));
 
     if is_hit {
         CACHE_HITS.fetch_add(1, Ordering::Relaxed);
@@ -778,7 +790,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     drop_under_lock(ec, lmi_ptr);
                 }
 
-                release_to_local_pool(&isolate_arc);
                 return result;
             }
             Err(e) => {
@@ -889,9 +900,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         }
     }
 
-    // Release the isolate back to the pool
-    release_to_local_pool(&isolate_arc);
-
     result
 }
 
-- 
2.43.0


From f2f4e306986e6b6b1e89fa8037ec97a67df5e7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:40 +0000
Subject: [PATCH 43/46] fix: one-shot workers on a borrowed isolate run without
 any time limit

WorkerBuilder::execute_with_isolate ignored the configured limits: a task
handler that never yields blocked the thread for ever. Build the wall-clock
and CPU guards Worker::exec builds, and report the limit that was hit.
---
 src/worker.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/worker.rs b/src/worker.rs
index 0c56ee3..6496b0d 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -136,7 +136,7 @@ impl WorkerBuilder {
             TerminationReason::InitializationError("Operations handle is required".to_string())
         })?;
 
-        let _limits = self.limits.unwrap_or_default();
+        let limits = self.limits.unwrap_or_default();
 
         // Create channels (same as Runtime::new)
         let (scheduler_tx, scheduler_rx) = mpsc::unbounded_channel();
@@ -277,6 +277,11 @@ impl WorkerBuilder {
             .await;
         });
 
+        // Setup security guards, as Worker::exec does
+        let isolate_handle = isolate.thread_safe_handle();
+        let wall_guard = TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+        let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+
         // Execute task
         let result = match task {
             Event::Task(mut init) => {
@@ -450,6 +455,26 @@ impl WorkerBuilder {
         cancel.cancel();
         event_loop_handle.abort();
 
+        let cpu_limit_hit = cpu_guard
+            .as_ref()
+            .map(|g| g.was_terminated())
+            .unwrap_or(false);
+        let wall_timeout_hit = wall_guard.was_triggered();
+
+        // The isolate is the caller's: once no guard can fire any more, leave it
+        // without a pending termination
+        drop(cpu_guard);
+        drop(wall_guard);
+        isolate.cancel_terminate_execution();
+
+        if cpu_limit_hit {
+            return Err(TerminationReason::CpuTimeLimit);
+        }
+
+        if wall_timeout_hit {
+            return Err(TerminationReason::WallClockTimeout);
+        }
+
         result
     }
 }
-- 
2.43.0


From 93e212a75d92a8f3796cd42840778450d13514d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:03 +0000
Subject: [PATCH 44/46] fix: AsyncWaiter woke the next waiter while holding its
 queue lock

---
 src/async_waiter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 1ccc28a..5806820 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -61,7 +61,10 @@ impl AsyncWaiter {
     pub fn unlock(&self) {
         self.locked.store(false, Ordering::Release);
 
-        if let Some(waker) = self.queue.lock().unwrap().pop_front() {
+        // The queue is unlocked before the waker runs: it may poll a waiter, which queues itself again
+        let next = self.queue.lock().unwrap().pop_front();
+
+        if let Some(waker) = next {
             waker.wake();
         }
     }
-- 
2.43.0


From b9532567a4b0a4dc29c5f0e8508a486ac2e8dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:03 +0000
Subject: [PATCH 45/46] fix: timers of the previous request kept running in a
 reused context's event loop

---
 src/execution_context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index c6b1265..9474fff 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1437,7 +1437,8 @@ impl ExecutionContext {
     /// completion flag, stream state, timer callbacks, stale callbacks, and V8 Global handles.
     ///
     /// Cancels any lingering `terminate_execution` flag before evaluating JS.
-    /// Does NOT touch the event loop (it persists across requests).
+    /// Does NOT touch the event loop (it persists across requests) except for the timers
+    /// that are still pending in it, which are cancelled.
     /// Does NOT reset `__nextTimerId` (monotonically increasing to avoid ID collisions).
     pub fn reset(&mut self) -> Result<(), String> {
         // Acquire lock if pooled isolate (evaluate accesses V8 directly)
@@ -1459,6 +1460,7 @@ impl ExecutionContext {
             globalThis.__lastResponseStreamId = undefined;
             globalThis.__activeResponseStreams = 0;
             globalThis.__taskResult = undefined;
+            globalThis.__timerCallbacks.forEach((_, id) => __nativeClearTimer(id));
             globalThis.__timerCallbacks.clear();
             globalThis.__intervalIds.clear();
             "#
-- 
2.43.0


From 9d13649fdbe56c39082b183eabb54239ac929ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:10 +0000
Subject: [PATCH 46/46] fix: drop a pooled context under the V8 lock when its
 request is cancelled

---
 src/pool.rs | 91 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 69 insertions(+), 22 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 956142e..61dfe23 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -597,6 +597,53 @@ fn drop_under_lock<T>(value: T, lmi_ptr: *mut LockerManagedIsolate) {
     }
 }
 
+/// Holds a value with V8 handles and drops it under the V8 lock, however its holder
+/// goes away: also when the request is cancelled at an await point, or panics.
+struct UnderLock<T> {
+    value: Option<T>,
+    lmi_ptr: *mut LockerManagedIsolate,
+}
+
+impl<T> UnderLock<T> {
+    fn new(value: T, lmi_ptr: *mut LockerManagedIsolate) -> Self {
+        Self {
+            value: Some(value),
+            lmi_ptr,
+        }
+    }
+
+    /// Hand the value over to a new holder.
+    fn into_inner(mut self) -> T {
+        self.value.take().expect("value is held until it is taken")
+    }
+}
+
+impl<T> std::ops::Deref for UnderLock<T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.value
+            .as_ref()
+            .expect("value is held until it is taken")
+    }
+}
+
+impl<T> std::ops::DerefMut for UnderLock<T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.value
+            .as_mut()
+            .expect("value is held until it is taken")
+    }
+}
+
+impl<T> Drop for UnderLock<T> {
+    fn drop(&mut self) {
+        if let Some(value) = self.value.take() {
+            drop_under_lock(value, self.lmi_ptr);
+        }
+    }
+}
+
 /// Execute a worker script using the isolate pool.
 ///
 /// This uses thread-local storage for zero-contention access to isolates.
@@ -717,7 +764,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         );
 
         // Reconstruct EC from cached parts
-        let mut ec = ExecutionContext::from_cached(
+        let ec = ExecutionContext::from_cached(
             cached_isolate_ptr,
             lmi_ptr,
             platform,
@@ -726,6 +773,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             request,
             async_waiter.clone(),
         );
+        let mut ec = UnderLock::new(ec, lmi_ptr);
 
         if let Some(callback) = on_warm_hit {
             callback(&cached_ops);
@@ -770,7 +818,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         None
                     };
 
-                    let (request, isolate_ptr) = ec.into_parts();
+                    let (request, isolate_ptr) = ec.into_inner().into_parts();
                     inner.cached_contexts.push(CachedContext {
                         request,
                         isolate_ptr,
@@ -787,7 +835,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                         drop_under_lock(evicted, lmi_ptr);
                     }
                 } else {
-                    drop_under_lock(ec, lmi_ptr);
+                    drop(ec);
                 }
 
                 return result;
@@ -798,7 +846,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     e,
                 );
-                drop_under_lock(ec, lmi_ptr);
+                drop(ec);
                 // Fall through to cold path
             }
         }
@@ -830,27 +878,26 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
 
     // Execute and determine whether to cache
     let (result, new_cached_context) = match ctx_result {
-        Ok(mut ctx) => {
+        Ok(ctx) => {
+            let mut ctx = UnderLock::new(ctx, lmi_ptr);
             ctx.async_waiter = async_waiter;
             let result = ctx.exec(task).await;
 
             if result.is_ok() {
                 match ctx.drain_waituntil().await {
                     Ok(()) => {
-                        let (request, isolate_ptr) = ctx.into_parts();
-                        (
-                            result,
-                            Some(CachedContext {
-                                request,
-                                isolate_ptr,
-                                worker_id: worker_id.to_string(),
-                                version,
-                                reuse_count: 1,
-                                last_used: Instant::now(),
-                                ops,
-                                env_updated_at,
-                            }),
-                        )
+                        let (request, isolate_ptr) = ctx.into_inner().into_parts();
+                        let cached = CachedContext {
+                            request,
+                            isolate_ptr,
+                            worker_id: worker_id.to_string(),
+                            version,
+                            reuse_count: 1,
+                            last_used: Instant::now(),
+                            ops,
+                            env_updated_at,
+                        };
+                        (result, Some(UnderLock::new(cached, lmi_ptr)))
                     }
                     Err(reason) => {
                         tracing::debug!(
@@ -858,7 +905,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                             &worker_id[..8.min(worker_id.len())],
                             reason,
                         );
-                        drop_under_lock(ctx, lmi_ptr);
+                        drop(ctx);
                         (Ok(()), None)
                     }
                 }
@@ -868,7 +915,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     &worker_id[..8.min(worker_id.len())],
                     result.as_ref().err(),
                 );
-                drop_under_lock(ctx, lmi_ptr);
+                drop(ctx);
                 (result, None)
             }
         }
@@ -892,7 +939,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             None
         };
 
-        inner.cached_contexts.push(cached);
+        inner.cached_contexts.push(cached.into_inner());
         drop(inner);
 
         if let Some(evicted) = evicted {
-- 
2.43.0

