From 0a7b056a62a999d1d2182dadb4d13bc876e2f172 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:14:15 +0000
Subject: [PATCH 01/32] hooks: guarded verification hooks (cfg kani /
 kompact_verif_*)

---
 core/src/component/actual_component.rs  |   2 +
 core/src/component/context.rs           |   2 +
 core/src/lib.rs                         |   8 +
 core/src/verif_hooks.rs                 | 200 ++++++++++++++++++++++++
 network/src/lib.rs                      |   3 +
 network/src/transport/network_thread.rs |  36 +++++
 network/src/verif_hooks.rs              |   5 +
 7 files changed, 256 insertions(+)
 create mode 100644 core/src/verif_hooks.rs
 create mode 100644 network/src/verif_hooks.rs

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ca1a77a..1cf64cc 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -1,4 +1,6 @@
 use super::*;
+#[cfg(kani)]
+use std::panic; // Kani's std overlay makes the glob-imported `panic` ambiguous
 
 // just define these expansions, so I don't have to write it multiple times
 macro_rules! check_and_handle_blocking {
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b81bdc..cb461de 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -1,4 +1,6 @@
 use super::*;
+#[cfg(kani)]
+use std::panic; // Kani's std overlay makes the glob-imported `panic` ambiguous
 
 use crate::{
     config::Config,
diff --git a/core/src/lib.rs b/core/src/lib.rs
index 099dbec..e8b37d9 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -67,6 +67,7 @@
 //!     - Enables the distributed dispatching surface, such as actor paths, registration, aliasing, and routing.
 //!     - Plain default `kompact` is local-only. Enable this feature explicitly when you want path-based dispatching without the provided network backend from `kompact-net`.
 #![allow(internal_features)]
+#![allow(unexpected_cfgs)] // `kani` and the `kompact_verif_*` verification hooks
 #![deny(missing_docs)]
 #![allow(clippy::unused_unit)]
 #![allow(clippy::match_ref_pats)]
@@ -127,6 +128,13 @@ pub mod test_support;
 /// Reusable timer facility internals
 pub mod timer;
 mod utils;
+#[cfg(any(
+    kompact_verif_net,
+    kompact_verif_pool,
+    kompact_verif_lifecycle,
+    kompact_verif_lookup
+))]
+pub mod verif_hooks;
 
 pub use dispatch::lookup;
 
diff --git a/core/src/verif_hooks.rs b/core/src/verif_hooks.rs
new file mode 100644
index 0000000..0667640
--- /dev/null
+++ b/core/src/verif_hooks.rs
@@ -0,0 +1,200 @@
+//! Verification hooks: thin public wrappers around crate-private items.
+//!
+//! Only compiled under one of the `kompact_verif_*` cfg flags; never part of a normal build.
+#![allow(missing_docs)]
+
+/// Frame heads and raw chunk chains.
+#[cfg(kompact_verif_net)]
+pub mod net {
+    use crate::net::{
+        buffers::ChunkLease,
+        frames::{Frame, FrameExt, FrameHead, FrameType, FramingError, Hello, Start},
+    };
+    use bytes::{Buf, BufMut};
+    use std::sync::Arc;
+
+    pub fn encode_head<B: BufMut>(frame_type: FrameType, content_length: usize, dst: &mut B) {
+        FrameHead::new(frame_type, content_length).encode_into(dst);
+    }
+
+    pub fn decode_head<B: Buf>(src: &mut B) -> Result<(FrameType, usize), FramingError> {
+        FrameHead::decode_from(src).map(|h| (h.frame_type(), h.content_length()))
+    }
+
+    pub fn decode_hello(src: ChunkLease) -> Result<Frame, FramingError> {
+        Hello::decode_from(src)
+    }
+
+    pub fn decode_start(src: ChunkLease) -> Result<Frame, FramingError> {
+        Start::decode_from(src)
+    }
+
+    pub fn new_lease(content: &'static mut [u8], lock: Arc<()>) -> ChunkLease {
+        ChunkLease::new(content, lock)
+    }
+
+    pub fn append_to_chain(lease: &mut ChunkLease, tail: ChunkLease) {
+        lease.append_to_chain(tail)
+    }
+
+    pub fn split_at(lease: &mut ChunkLease, position: usize) -> ChunkLease {
+        lease.split_at(position)
+    }
+}
+
+/// Encode buffer and pool internals.
+#[cfg(kompact_verif_pool)]
+pub mod pool {
+    use crate::{
+        net::buffers::{BufferEncoder, BufferPool, EncodeBuffer},
+        serialisation::SerError,
+    };
+
+    pub fn encoder_pad(encoder: &mut BufferEncoder<'_>, cnt: usize) {
+        encoder.pad(cnt)
+    }
+
+    pub fn encoder_try_reserve(
+        encoder: &mut BufferEncoder<'_>,
+        size: usize,
+    ) -> Result<(), SerError> {
+        encoder.try_reserve(size)
+    }
+
+    pub fn pool_of(buffer: &mut EncodeBuffer) -> &mut BufferPool {
+        &mut buffer.buffer_pool
+    }
+
+    pub fn pool_try_reserve(pool: &mut BufferPool, size: usize) -> bool {
+        pool.try_reserve(size).is_ok()
+    }
+}
+
+/// The component lifecycle/work-count state word.
+#[cfg(kompact_verif_lifecycle)]
+pub mod lifecycle {
+    use crate::component::{SchedulingDecision, lifecycle::LifecycleState};
+    use std::sync::atomic::AtomicU64;
+
+    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
+    pub enum State {
+        Active(u64),
+        Passive(u64),
+        Destroyed,
+        Faulty,
+        Blocking,
+    }
+
+    pub fn load(state: &AtomicU64) -> State {
+        match LifecycleState::load(state) {
+            LifecycleState::Active(n) => State::Active(n),
+            LifecycleState::Passive(n) => State::Passive(n),
+            LifecycleState::Destroyed => State::Destroyed,
+            LifecycleState::Faulty => State::Faulty,
+            LifecycleState::Blocking => State::Blocking,
+        }
+    }
+
+    pub fn load_decision(state: &AtomicU64) -> SchedulingDecision {
+        LifecycleState::load(state).into_scheduling_decision()
+    }
+
+    pub fn increment_work(state: &AtomicU64) -> SchedulingDecision {
+        LifecycleState::increment_work(state)
+    }
+
+    pub fn decrement_work(state: &AtomicU64, work_done: usize) -> SchedulingDecision {
+        LifecycleState::decrement_work(state, work_done)
+    }
+
+    pub fn initial_state() -> AtomicU64 {
+        crate::component::lifecycle::initial_state()
+    }
+
+    pub fn set_active(state: &AtomicU64) {
+        crate::component::lifecycle::set_active(state)
+    }
+
+    pub fn set_passive(state: &AtomicU64) {
+        crate::component::lifecycle::set_passive(state)
+    }
+
+    pub fn set_destroyed(state: &AtomicU64) {
+        crate::component::lifecycle::set_destroyed(state)
+    }
+
+    pub fn set_faulty(state: &AtomicU64) {
+        crate::component::lifecycle::set_faulty(state)
+    }
+
+    pub fn set_blocking(state: &AtomicU64) {
+        crate::component::lifecycle::set_blocking(state)
+    }
+
+    pub fn is_active(state: &AtomicU64) -> bool {
+        crate::component::lifecycle::is_active(state)
+    }
+
+    pub fn is_faulty(state: &AtomicU64) -> bool {
+        crate::component::lifecycle::is_faulty(state)
+    }
+
+    pub fn is_destroyed(state: &AtomicU64) -> bool {
+        crate::component::lifecycle::is_destroyed(state)
+    }
+
+    pub fn is_blocking(state: &AtomicU64) -> bool {
+        crate::component::lifecycle::is_blocking(state)
+    }
+}
+
+/// The prefix tree behind named lookups.
+#[cfg(kompact_verif_lookup)]
+pub mod lookup {
+    use crate::dispatch::lookup::path_trie::PathTrie;
+
+    #[derive(Clone, Debug)]
+    pub struct Trie<V>(PathTrie<V>);
+
+    impl<V> Trie<V> {
+        pub fn new() -> Self {
+            Trie(PathTrie::new())
+        }
+
+        pub fn insert(&mut self, key: &[&str], value: V) -> Option<V> {
+            self.0.insert(key, value)
+        }
+
+        pub fn insert_owned(&mut self, key: Vec<String>, value: V) -> Option<V> {
+            self.0.insert_owned(key, value)
+        }
+
+        pub fn get(&self, key: &[String]) -> Option<&V> {
+            self.0.get(key)
+        }
+
+        pub fn has_node(&self, key: &[String]) -> bool {
+            self.0.get_node(key).is_some()
+        }
+
+        pub fn remove(&mut self, key: &[String]) -> Option<V> {
+            self.0.remove(key)
+        }
+
+        pub fn retain<F: Fn(&V) -> bool>(&mut self, condition: F) -> usize {
+            self.0.retain(condition)
+        }
+
+        pub fn values(&self) -> Vec<&V> {
+            self.0.values().collect()
+        }
+
+        pub fn values_below(&self, key: &[String]) -> Option<Vec<&V>> {
+            self.0.get_node(key).map(|n| n.values().collect())
+        }
+
+        pub fn is_empty(&self) -> bool {
+            self.0.is_empty()
+        }
+    }
+}
diff --git a/network/src/lib.rs b/network/src/lib.rs
index 461bf23..0d8dae6 100644
--- a/network/src/lib.rs
+++ b/network/src/lib.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)] // the `kompact_verif_*` verification hooks
 pub use kompact::{
     KompactLogger,
     component,
@@ -47,6 +48,8 @@ mod dispatcher;
 mod events;
 mod queue_manager;
 mod transport;
+#[cfg(kompact_verif_netqueue)]
+pub mod verif_hooks;
 
 pub use crate::{
     dispatcher::{NetworkConfig, NetworkDispatcher},
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b743632..9aed61b 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1256,6 +1256,42 @@ impl BlockList {
     }
 }
 
+#[cfg(kompact_verif_netqueue)]
+#[doc(hidden)]
+impl BlockList {
+    pub fn verif_block_ip_addr(&mut self, ip_addr: IpAddr) -> bool {
+        self.block_ip_addr(ip_addr)
+    }
+
+    pub fn verif_block_ip_net(&mut self, ip_net: IpNet) {
+        self.block_ip_net(ip_net)
+    }
+
+    pub fn verif_allow_ip_net(&mut self, ip_net: IpNet) {
+        self.allow_ip_net(ip_net)
+    }
+
+    pub fn verif_allow_ip_addr(&mut self, ip_addr: &IpAddr) -> bool {
+        self.allow_ip_addr(ip_addr)
+    }
+
+    pub fn verif_block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
+        self.block_socket_addr(socket_addr)
+    }
+
+    pub fn verif_allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
+        self.allow_socket_addr(socket_addr)
+    }
+
+    pub fn verif_ip_addr_is_blocked(&self, ip_addr: &IpAddr) -> bool {
+        self.ip_addr_is_blocked(ip_addr)
+    }
+
+    pub fn verif_socket_addr_is_blocked(&self, socket_addr: &SocketAddr) -> bool {
+        self.socket_addr_is_blocked(socket_addr)
+    }
+}
+
 #[cfg(test)]
 #[allow(unused_must_use)]
 mod tests {
diff --git a/network/src/verif_hooks.rs b/network/src/verif_hooks.rs
new file mode 100644
index 0000000..eecd90f
--- /dev/null
+++ b/network/src/verif_hooks.rs
@@ -0,0 +1,5 @@
+//! Verification hooks: re-exports of crate-private items.
+//!
+//! Only compiled under the `kompact_verif_netqueue` cfg flag; never part of a normal build.
+
+pub use crate::queue_manager::QueueManager;
-- 
2.43.0


From ce50838542f4185f96f5d10e4a78ee6ef96d19f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 02/32] fix: encode Data frames completely and with the length
 of their remaining payload

---
 core/src/net/frames.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index eb526b9..5ee510e 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -268,7 +268,7 @@ impl Data {
     }
 
     pub(crate) fn encoded_len(&self) -> usize {
-        self.payload.capacity()
+        self.payload.remaining()
     }
 
     /// Consumes this frame and returns the raw payload buffer
@@ -288,13 +288,16 @@ impl FrameExt for Data {
         // NOTE: This method _COPIES_ the owned bytes into `dst` rather than extending with the owned bytes
         assert!(dst.remaining_mut() >= (self.encoded_len()));
         while self.payload.has_remaining() {
-            dst.put_slice(self.payload.chunk());
+            let chunk = self.payload.chunk();
+            let len = chunk.len();
+            dst.put_slice(chunk);
+            self.payload.advance(len);
         }
         Ok(())
     }
 
     fn encoded_len(&self) -> usize {
-        self.payload.chunk().len()
+        self.payload.remaining()
     }
 }
 
-- 
2.43.0


From fb40c8ca778299c05b0d75d96c6e7fb27f3c6dce Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 03/32] fix: reject malformed Hello and Start frames with an
 error instead of panicking

---
 core/src/net/frames.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index 5ee510e..0180bc2 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -301,9 +301,28 @@ impl FrameExt for Data {
     }
 }
 
+/// Reads the IP version byte of a frame body consisting of an address followed by `extra` bytes.
+///
+/// Fails if the version is unknown or the rest of the body is too short for it.
+fn read_address_version(src: &mut ChunkLease, extra: usize) -> Result<u8, FramingError> {
+    if !src.has_remaining() {
+        return Err(FramingError::InvalidFrame);
+    }
+    let version = src.get_u8();
+    let required = match version {
+        4 => 4 + 2 + extra,
+        6 => 16 + 2 + extra,
+        _ => return Err(FramingError::InvalidFrame),
+    };
+    if src.remaining() < required {
+        return Err(FramingError::InvalidFrame);
+    }
+    Ok(version)
+}
+
 impl FrameExt for Hello {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
+        match read_address_version(&mut src, 0)? {
             4 => {
                 let ip = Ipv4Addr::from(src.get_u32());
                 let port = src.get_u16();
@@ -316,9 +335,7 @@ impl FrameExt for Hello {
                 let addr = SocketAddr::new(IpAddr::V6(ip), port);
                 Ok(Frame::Hello(Hello::new(addr)))
             }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+            _ => Err(FramingError::InvalidFrame),
         }
     }
 
@@ -353,7 +370,7 @@ impl FrameExt for Hello {
 
 impl FrameExt for Start {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
+        match read_address_version(&mut src, 16)? {
             4 => {
                 let ip = Ipv4Addr::from(src.get_u32());
                 let port = src.get_u16();
@@ -368,9 +385,7 @@ impl FrameExt for Start {
                 let id = SessionId::from_u128(src.get_u128());
                 Ok(Frame::Start(Start::new(addr, id)))
             }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+            _ => Err(FramingError::InvalidFrame),
         }
     }
 
-- 
2.43.0


From ec82a4357374ba21efa3f87fc1a40c801bfc0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 04/32] fix: keep the write position on a failed buffer swap
 instead of moving it into leased memory

---
 core/src/net/buffers/encode_buffer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4a4f224..9f59592 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -259,10 +259,11 @@ unsafe impl BufMut for BufferEncoder<'_> {
         if remaining < cnt {
             // We need to advance partially, swap, and then advance the rest!
             self.encode_buffer.write_offset += remaining;
-            let _ = self.chain_and_swap().map_err(|err| {
-                self.ser_error = Some(err);
-            });
-            self.encode_buffer.write_offset = cnt - remaining;
+            match self.chain_and_swap() {
+                Ok(()) => self.encode_buffer.write_offset = cnt - remaining,
+                // Still on the old buffer: its leased bytes must not be written again.
+                Err(err) => self.ser_error = Some(err),
+            }
         } else {
             self.encode_buffer.write_offset += cnt;
         }
-- 
2.43.0


From b53837c62796165f0e2e018be2e4cfa705f3ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 05/32] fix: keep reclaimed buffers in the pool when a
 reservation fails

---
 core/src/net/buffers/buffer_pool.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/net/buffers/buffer_pool.rs b/core/src/net/buffers/buffer_pool.rs
index b076b31..725c33c 100644
--- a/core/src/net/buffers/buffer_pool.rs
+++ b/core/src/net/buffers/buffer_pool.rs
@@ -100,6 +100,10 @@ impl BufferPool {
                 reserved.push(reclaimed);
                 required_buffers -= 1;
             } else {
+                // Keep what was reclaimed so far
+                for buffer in reserved {
+                    self.pool.push_front(buffer);
+                }
                 return Err(BufferError::NoAvailableBuffers(format!(
                     "try_reserve failed while reserving {} bytes. \
                     chunk_size: {}, max_pool_size: {}, current pool_size {} ",
-- 
2.43.0


From dc64163d6646c6a8eaad3efd29513b2648bce487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 06/32] fix: accept frames with an empty body without panicking

---
 core/src/net/buffers/decode_buffer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index aca9775..18c12df 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -147,6 +147,9 @@ impl DecodeBuffer {
 
     /// Extracts a ChunkLease from the readable portion of the buffer (including the chain)
     fn read_chunk_lease(&mut self, length: usize) -> ChunkLease {
+        if length == 0 {
+            return ChunkLease::empty();
+        }
         if let Some(mut chain_head) = self.chain_head.take() {
             match chain_head.remaining().cmp(&length) {
                 Ordering::Greater => {
-- 
2.43.0


From 8c32fff5a4967126a931b1b74e665f52263b41a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 07/32] fix: return an empty chunk from fully read leases

---
 core/src/net/buffers/chunk_lease.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index bfc7e9c..eb9bbf6 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -226,6 +226,9 @@ impl Buf for ChunkLease {
     }
 
     fn chunk(&self) -> &[u8] {
+        if self.remaining() == 0 {
+            return &[];
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
-- 
2.43.0


From 25ed470c1775a6686faa471cdc2ea9b51168df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 08/32] fix: read ChunkRefs to the end and drop already read
 bytes when they are appended to another

---
 core/src/net/buffers/chunk_ref.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index d8e0d42..5bc5a14 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -44,6 +44,8 @@ impl ChunkRef {
     /// Appends `new_tail` to the end of the `ChunkRef` chain
     /// Use Public ChunkLease methods into_chunk_ref_as_tail or into_chunk_ref_with_tail
     pub(super) fn append_to_chain(&mut self, new_tail: ChunkRef) {
+        // Only the read-pointer of the chain's head is ever considered
+        let new_tail = new_tail.without_read_prefix();
         self.chain_len += new_tail.chain_len;
         if let Some(tail) = &mut self.chain {
             // recursion
@@ -54,6 +56,20 @@ impl ChunkRef {
         }
     }
 
+    /// Drops everything before the `read_pointer`, such that the `read_pointer` is at 0
+    fn without_read_prefix(mut self) -> ChunkRef {
+        while self.read_pointer > self.chain_head_len {
+            let read_pointer = self.read_pointer - self.chain_head_len;
+            self = *self.chain.expect("read past the end of the ChunkRef");
+            self.read_pointer = read_pointer;
+        }
+        self.content = &self.content[self.read_pointer..];
+        self.chain_head_len -= self.read_pointer;
+        self.chain_len -= self.read_pointer;
+        self.read_pointer = 0;
+        self
+    }
+
     // Recursive method for the bytes() impl
     fn get_chunk_at(&self, pos: usize) -> &[u8] {
         if pos >= self.chain_head_len {
@@ -76,6 +92,9 @@ impl Buf for ChunkRef {
 
     // Returns a slice starting from the read-pointer up to (possibly) the
     fn chunk(&self) -> &[u8] {
+        if self.remaining() == 0 {
+            return &[];
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
-- 
2.43.0


From b49d651ce8f7bf1f71ab27da93c62767d62a2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 09/32] fix: reject truncated or malformed values and paths
 with an error instead of panicking

---
 core/src/messaging/framing.rs                 | 40 ++++++++--------
 core/src/serialisation/core.rs                |  7 +++
 core/src/serialisation/default_serialisers.rs | 10 +++-
 core/src/serialisation/ser_helpers.rs         | 13 ++++--
 core/src/serialisation/serde_serialisers.rs   | 46 ++++++++++++-------
 5 files changed, 76 insertions(+), 40 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9b8d782..a1b575c 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -1,7 +1,16 @@
 //! Message framing (serialization and deserialization into and from byte buffers)
 
 use crate::{
-    actors::{ActorPath, NamedPath, SystemField, SystemPath, Transport, UniquePath},
+    actors::{
+        ActorPath,
+        NamedPath,
+        SystemField,
+        SystemPath,
+        Transport,
+        UniquePath,
+        parse_path,
+        validate_lookup_path,
+    },
     messaging::bitfields::{BitField, BitFieldExt},
     serialisation::{Deserialiser, SerError, SerId, Serialisable, serialisation_ids},
 };
@@ -279,7 +288,7 @@ fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) -> () {
 #[inline(always)]
 fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPath), SerError> {
     // Deserialize system path
-    let fields: u8 = buf.get_u8();
+    let fields: u8 = buf.try_get_u8()?;
     let header = SystemPathHeader::try_from(fields)?;
     let address: IpAddr = match header.address_type {
         AddressType::IPv4 => {
@@ -308,7 +317,7 @@ fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPa
             unimplemented!();
         }
     };
-    let port = buf.get_u16();
+    let port = buf.try_get_u16()?;
     let system_path = SystemPath::new(header.protocol, address, port);
     Ok((header, system_path))
 }
@@ -399,7 +408,7 @@ impl Deserialiser<ActorPath> for ActorPath {
                 }
             }
             PathType::Named => {
-                let name_len = buf.get_u16() as usize;
+                let name_len = buf.try_get_u16()? as usize;
                 if buf.remaining() < name_len {
                     return Err(SerError::invalid_data(format!(
                         "Could not get {} bytes for path name",
@@ -408,21 +417,16 @@ impl Deserialiser<ActorPath> for ActorPath {
                 } else {
                     let mut name_bytes = vec![0u8; name_len];
                     buf.copy_to_slice(&mut name_bytes);
-                    let name = unsafe {
-                        // Paths are serialised by Kompact itself and transported with the normal
-                        // networking integrity checks in place, so we keep the unchecked decode on
-                        // this hot path.
-                        String::from_utf8_unchecked(name_bytes)
-                    };
-                    let parts: Vec<&str> = name.split('/').collect();
-                    if parts.is_empty() {
-                        return Err(SerError::invalid_data(
-                            "Could not determine name for Named path type",
-                        ));
+                    let name = String::from_utf8(name_bytes).map_err(SerError::from_debug)?;
+                    // The empty name is the empty path, not a path with an empty segment
+                    let path = if name.is_empty() {
+                        Vec::new()
                     } else {
-                        let path = parts.into_iter().map(|s| s.to_string()).collect();
-                        ActorPath::Named(NamedPath::with_system(system_path, path))
-                    }
+                        parse_path(&name)
+                    };
+                    validate_lookup_path(&path)
+                        .map_err(|e| SerError::invalid_data(e.to_string()))?;
+                    ActorPath::Named(NamedPath::with_system(system_path, path))
                 }
             }
         };
diff --git a/core/src/serialisation/core.rs b/core/src/serialisation/core.rs
index 368ac1b..9b3c0a8 100644
--- a/core/src/serialisation/core.rs
+++ b/core/src/serialisation/core.rs
@@ -198,6 +198,13 @@ impl SerError {
     }
 }
 
+/// The buffer ended before the value did.
+impl From<bytes::TryGetError> for SerError {
+    fn from(error: bytes::TryGetError) -> Self {
+        SerError::invalid_data(error.to_string())
+    }
+}
+
 /// A trait that acts like a stable `TypeId` for serialisation
 ///
 /// Requires ids to be assigned manually in some consistent fashion
diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 2900c58..1d7a09e 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -76,8 +76,14 @@ impl Deserialiser<String> for String {
     const SER_ID: SerId = serialisation_ids::STR;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<String, SerError> {
-        let len_u64 = buf.get_u64();
+        let len_u64 = buf.try_get_u64()?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
+        if buf.remaining() < len {
+            return Err(SerError::invalid_data(format!(
+                "Could not get {} bytes for String",
+                len
+            )));
+        }
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
         let mut data: Vec<u8> = vec![0; len];
@@ -109,7 +115,7 @@ impl Deserialiser<u64> for u64 {
     const SER_ID: SerId = serialisation_ids::U64;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<u64, SerError> {
-        let num = buf.get_u64();
+        let num = buf.try_get_u64()?;
         Ok(num)
     }
 }
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 7120507..903ac25 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -230,6 +230,13 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
     })
 }
 
+fn read_ser_id<B: Buf>(buffer: &mut B) -> Result<SerId, SerError> {
+    if buffer.remaining() < std::mem::size_of::<SerId>() {
+        return Err(SerError::invalid_data("Not enough bytes for a SerId"));
+    }
+    Ok(buffer.get_ser_id())
+}
+
 /// Extracts a [NetMessage](NetMessage) from the provided buffer
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
@@ -241,7 +248,7 @@ pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, Ser
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer.into_chunk_ref());
 
@@ -259,7 +266,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer);
 
@@ -272,7 +279,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 pub fn deserialise_bytes(mut buffer: Bytes) -> Result<NetMessage, SerError> {
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_bytes(ser_id, src, dst, buffer);
 
diff --git a/core/src/serialisation/serde_serialisers.rs b/core/src/serialisation/serde_serialisers.rs
index a8ae4f4..bb5befd 100644
--- a/core/src/serialisation/serde_serialisers.rs
+++ b/core/src/serialisation/serde_serialisers.rs
@@ -490,7 +490,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8()?;
         let v = num != 0u8; // treat everything except 0 as true
         visitor.visit_bool(v)
     }
@@ -499,7 +499,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i8();
+        let num = self.buffer.try_get_i8()?;
         visitor.visit_i8(num)
     }
 
@@ -507,7 +507,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i16();
+        let num = self.buffer.try_get_i16()?;
         visitor.visit_i16(num)
     }
 
@@ -515,7 +515,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i32();
+        let num = self.buffer.try_get_i32()?;
         visitor.visit_i32(num)
     }
 
@@ -523,7 +523,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i64();
+        let num = self.buffer.try_get_i64()?;
         visitor.visit_i64(num)
     }
 
@@ -531,7 +531,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8()?;
         visitor.visit_u8(num)
     }
 
@@ -539,7 +539,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u16();
+        let num = self.buffer.try_get_u16()?;
         visitor.visit_u16(num)
     }
 
@@ -547,7 +547,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32()?;
         visitor.visit_u32(num)
     }
 
@@ -555,7 +555,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u64();
+        let num = self.buffer.try_get_u64()?;
         visitor.visit_u64(num)
     }
 
@@ -563,7 +563,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f32();
+        let num = self.buffer.try_get_f32()?;
         visitor.visit_f32(num)
     }
 
@@ -571,7 +571,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f64();
+        let num = self.buffer.try_get_f64()?;
         visitor.visit_f64(num)
     }
 
@@ -579,7 +579,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32()?;
         let v = std::char::from_u32(num).ok_or_else(|| {
             SerError::unknown(format!("Number {} does not represent a valid char!", num))
         })?;
@@ -599,10 +599,16 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64()?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different String serde implementation, that fulfills them
+        if self.buffer.remaining() < len {
+            return Err(SerError::invalid_data(format!(
+                "Could not get {} bytes",
+                len
+            )));
+        }
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         let s = String::from_utf8(data).map_err(SerError::from_debug)?;
@@ -621,10 +627,16 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64()?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
         // If you need different guarantees, write a different serde implementation, that fulfills them
+        if self.buffer.remaining() < len {
+            return Err(SerError::invalid_data(format!(
+                "Could not get {} bytes",
+                len
+            )));
+        }
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         visitor.visit_byte_buf(data)
@@ -634,7 +646,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8()?;
         if num == 0 {
             visitor.visit_none()
         } else {
@@ -683,7 +695,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64()?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_seq(self.counting(len))
     }
@@ -717,7 +729,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64()?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_map(self.counting(len))
     }
-- 
2.43.0


From 3f702e02516b4ea2257f14dfa4b60a6a7780b542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 10/32] fix: keep the address type apart from the transport in
 path headers

---
 core/src/messaging/framing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index a1b575c..0e8cb3f 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -41,7 +41,7 @@ pub enum PathType {
 }
 
 impl BitField for AddressType {
-    const POS: usize = 2;
+    const POS: usize = 5;
     const WIDTH: usize = 2;
 }
 
@@ -240,9 +240,9 @@ impl TryFrom<u8> for SystemPathHeader {
 ///
 /// # System Paths
 /// ```text
-/// +-------------------+-------------------+-----------------------+
-/// | Path type (1 bit) | Protocol (5 bits) | Address Type (2 bits) |
-/// +-------------------+-------------------+-----------------------+----------------+
+/// +-------------------+-----------------------+-------------------+
+/// | Path type (1 bit) | Address Type (2 bits) | Protocol (5 bits) |
+/// +-------------------+-----------------------+-------------------+----------------+
 /// |                   Address (4/16/ * bytes)                  ...| Port (2 bytes) |
 /// +---------------------------------------------------------------+----------------+
 /// ```
-- 
2.43.0


From 1f4fb2c80785702f559640a8866eab7d40e8acc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 11/32] fix: deliver system paths locally instead of panicking

---
 core/src/messaging/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 0e8cb3f..409a50d 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -272,7 +272,7 @@ impl Serialisable for SystemPath {
     }
 
     fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
-        unimplemented!()
+        Ok(self)
     }
 }
 
-- 
2.43.0


From 80c25cd3f88e833cfa97988b94409d7cccf2a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 12/32] fix: give actor paths a serialisation id of their own

---
 core/src/serialisation/default_serialisers.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 1d7a09e..34b2fa4 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -19,13 +19,12 @@ pub mod serialisation_ids {
 
     /// Id for a `NamedPath`.
     pub const NAMED_PATH: SerId = 3;
-    //pub const SYSTEM_PATH_HEADER: SerId = 4; // this one is freed now...reuse in th future!
 
     /// Id for a `SystemPath`.
     pub const SYSTEM_PATH: SerId = 5;
 
     /// Id for an [ActorPath](crate::prelude::ActorPath).
-    pub const ACTOR_PATH: SerId = 6;
+    pub const ACTOR_PATH: SerId = 4;
 
     /// Id for a `String` serialiser.
     pub const STR: SerId = 6;
-- 
2.43.0


From 6ad9359e64aed798fba288eb7dcc5cd0b8f8f4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 13/32] fix: print IPv6 addresses in system paths such that
 they can be parsed again

---
 core/src/actors/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 7192ede..b2ff820 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -200,7 +200,7 @@ impl SystemPath {
 
 impl fmt::Display for SystemPath {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}://{}:{}", self.protocol, self.address, self.port)
+        write!(fmt, "{}://{}", self.protocol, self.socket_address())
     }
 }
 
-- 
2.43.0


From dafac8ea9fcae41123404a90d01aa83f33ab0c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:01 +0000
Subject: [PATCH 14/32] fix: only accept routing markers as the whole last
 segment of a lookup path

---
 core/src/actors/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index b2ff820..c7e9f2c 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -719,10 +719,10 @@ pub(crate) fn validate_lookup_path_segment(
     for c in segment.chars() {
         match c {
             PATH_SEP => return Err(PathParseError::IllegalCharacter(PATH_SEP)),
-            BROADCAST_MARKER if !is_last && len == 1 => {
+            BROADCAST_MARKER if !is_last || len > 1 => {
                 return Err(PathParseError::IllegalCharacter(BROADCAST_MARKER));
             }
-            SELECT_MARKER if !is_last && len == 1 => {
+            SELECT_MARKER if !is_last || len > 1 => {
                 return Err(PathParseError::IllegalCharacter(SELECT_MARKER));
             }
             UNIQUE_PATH_SEP => return Err(PathParseError::IllegalCharacter(UNIQUE_PATH_SEP)),
-- 
2.43.0


From 956ad023d0a3e158befb613f39075ad12ffd7372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:14 +0000
Subject: [PATCH 15/32] fix: frame forwarded messages by their unread bytes

---
 core/src/serialisation/ser_helpers.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 903ac25..3a99df7 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -165,7 +165,7 @@ pub fn serialise_msg_with_preserialised(
     src.serialise(buf)?; // src
     dst.serialise(buf)?; // dst
     buf.get_chunk_lease().map(|mut header| {
-        let len = header.capacity() + content.capacity() - FRAME_HEAD_LEN as usize;
+        let len = header.capacity() + content.remaining() - FRAME_HEAD_LEN as usize;
         header.insert_head(FrameHead::new(FrameType::Data, len));
         header.into_chunk_ref_with_tail(content)
     })
@@ -192,7 +192,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkLease(chunk_lease) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_lease.into_chunk_ref());
                 assert_eq!(
@@ -206,7 +206,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkRef(chunk_ref) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_ref);
                 assert_eq!(
-- 
2.43.0


From c766a19efc350d9cf49f9faf2fb3741dda55ce19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 16/32] fix: drop messages to routing groups without members
 instead of panicking

---
 core/src/routing/groups.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/src/routing/groups.rs b/core/src/routing/groups.rs
index 0775d09..79adc2b 100644
--- a/core/src/routing/groups.rs
+++ b/core/src/routing/groups.rs
@@ -141,6 +141,10 @@ impl Default for RoundRobinRouting {
 }
 impl RoutingPolicy<DynActorRef, NetMessage> for RoundRobinRouting {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Dropping msg to a routing group without members");
+            return;
+        }
         let index = self.get_and_increment_index(members.len());
         trace!(logger, "Routing msg to member at index={}", index);
         members[index].tell(msg);
@@ -242,6 +246,10 @@ impl<H: BuildHasher + Clone + Send + Sync + 'static> RoutingPolicy<DynActorRef,
     for SenderHashBucketRouting<H>
 {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(logger, "Dropping msg to a routing group without members");
+            return;
+        }
         let index = self.get_bucket(&msg, members.len());
         trace!(
             logger,
-- 
2.43.0


From 5c9654a57552bd2c2be759f2580a39f4a3c8d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 17/32] fix: saturate the garbage collection interval instead
 of overflowing

---
 core/src/dispatch/lookup/gc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/dispatch/lookup/gc.rs b/core/src/dispatch/lookup/gc.rs
index 865266b..389cf6f 100644
--- a/core/src/dispatch/lookup/gc.rs
+++ b/core/src/dispatch/lookup/gc.rs
@@ -164,8 +164,8 @@ impl UpdateStrategy {
     pub fn incr(&mut self) -> u64 {
         use self::FeedbackAlgorithm::*;
         self.curr = match self.algo {
-            Aimd => self.curr + self.incr,
-            Mimd => self.curr * self.incr,
+            Aimd => self.curr.saturating_add(self.incr),
+            Mimd => self.curr.saturating_mul(self.incr),
         }
         .min(self.max);
         self.curr
-- 
2.43.0


From da60d7cc83070d77ca831ebfedc5f9b407ca75c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:43 +0000
Subject: [PATCH 18/32] fix: validate named actor paths on insertion like
 aliases

---
 core/src/dispatch/lookup/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/dispatch/lookup/mod.rs b/core/src/dispatch/lookup/mod.rs
index cd958c3..30e5290 100644
--- a/core/src/dispatch/lookup/mod.rs
+++ b/core/src/dispatch/lookup/mod.rs
@@ -216,6 +216,7 @@ impl ActorLookup for ActorStore {
                 }
                 ActorPath::Named(np) => {
                     let keys = np.into_path();
+                    crate::actors::validate_insert_path(&keys)?;
                     let prev = self.name_map.insert_owned(keys, ActorTreeEntry::Ref(actor));
                     Ok(prev.into())
                 }
-- 
2.43.0


From 837b9297886dde4d39563a5cbfaade297f3e11cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 19/32] fix: a blocked system stays blocked and an allowed one
 allowed whatever was requested before

---
 network/src/transport/network_thread.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 9aed61b..f4984c5 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1213,14 +1213,14 @@ impl BlockList {
 
     /// Returns true if the rule-set has been modified
     fn block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
-        self.allowed_socket_addr.remove(&socket_addr)
-            || self.blocked_socket_addr.insert(socket_addr)
+        let was_allowed = self.allowed_socket_addr.remove(&socket_addr);
+        self.blocked_socket_addr.insert(socket_addr) || was_allowed
     }
 
     /// Returns true if the rule-set has been modified
     fn allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
-        self.blocked_socket_addr.remove(socket_addr)
-            || self.allowed_socket_addr.insert(*socket_addr)
+        let was_blocked = self.blocked_socket_addr.remove(socket_addr);
+        self.allowed_socket_addr.insert(*socket_addr) || was_blocked
     }
 
     /// Returns true if the IpAddr is fully blocked, i.e. it's Blocked and there's no Allowed SocketAddr with the given IP
-- 
2.43.0


From 72e2a2be81030c84c3926e4d56ee2b0c840b3d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:40 +0000
Subject: [PATCH 20/32] fix: drop messages that cannot be deserialised instead
 of crashing the network thread

---
 network/src/transport/network_thread.rs | 43 ++++++++++++++++---------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index f4984c5..de8252a 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -364,14 +364,14 @@ impl NetworkThread {
                     Ok(None) => {
                         return;
                     }
-                    Ok(Some(Frame::Data(data))) => {
-                        self.handle_data_frame(
-                            data,
-                            channel
-                                .session_id()
-                                .expect("Connected Channel must have a SessionId"),
-                        );
-                    }
+                    Ok(Some(Frame::Data(data))) => match channel.session_id() {
+                        Some(session) => self.handle_data_frame(data, session),
+                        None => warn!(
+                            self.log,
+                            "Dropping message from {} as its channel has no session yet",
+                            channel.address()
+                        ),
+                    },
                     Ok(Some(Frame::Start(start))) => {
                         self.handle_start(event, &mut channel, &start);
                         return;
@@ -380,11 +380,13 @@ impl NetworkThread {
                         self.handle_hello(channel.deref_mut(), &hello);
                     }
                     Ok(Some(Frame::Ack())) => {
-                        self.check_soft_connection_limit();
-                        self.notify_network_status(NetworkStatus::ConnectionEstablished(
-                            SystemPath::with_socket(Transport::Tcp, channel.address()),
-                            channel.session_id().unwrap(),
-                        ))
+                        if let Some(session) = channel.session_id() {
+                            self.check_soft_connection_limit();
+                            self.notify_network_status(NetworkStatus::ConnectionEstablished(
+                                SystemPath::with_socket(Transport::Tcp, channel.address()),
+                                session,
+                            ))
+                        }
                     }
                     Ok(Some(Frame::Bye())) => {
                         self.handle_bye(&mut channel);
@@ -557,9 +559,18 @@ impl NetworkThread {
 
     fn handle_data_frame(&self, data: Data, session: SessionId) {
         let buf = data.payload();
-        let mut envelope = deserialise_chunk_lease(buf).expect("s11n errors");
-        envelope.set_session(session);
-        self.deliver_net_message(envelope);
+        match deserialise_chunk_lease(buf) {
+            Ok(mut envelope) => {
+                envelope.set_session(session);
+                self.deliver_net_message(envelope);
+            }
+            Err(e) => {
+                warn!(
+                    self.log,
+                    "Could not deserialise a message of session {:?}, dropping it: {}", session, e
+                );
+            }
+        }
     }
 
     fn deliver_net_message(&self, envelope: NetMessage) {
-- 
2.43.0


From 75e7a8c240a122b5bdd5afe06efdd5e8814668bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:42 +0000
Subject: [PATCH 21/32] fix: don't let a malformed datagram corrupt the ones
 after it

---
 core/src/net/buffers/decode_buffer.rs | 10 ++++++++++
 network/src/transport/udp_state.rs    |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 18c12df..98803bd 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -222,6 +222,16 @@ impl DecodeBuffer {
         Ok(())
     }
 
+    /// Discards everything that has been written, but not been read, yet.
+    ///
+    /// Used by transports whose packets are independent of each other, so the remains of a
+    /// malformed packet aren't mistaken for the beginning of the next one.
+    pub fn discard_readable(&mut self) -> () {
+        self.read_offset = self.write_offset;
+        self.next_frame_head = None;
+        self.chain_head = None;
+    }
+
     /// Extracts the readable portion (if any) from the active buffer as a ChunkLease
     fn get_overflow(&mut self) -> Option<ChunkLease> {
         let length = self.write_offset - self.read_offset;
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 8ea914a..0ecfdb9 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -159,6 +159,8 @@ impl UdpState {
                 );
             }
         }
+        // Every datagram stands for itself, so drop whatever a malformed one left behind.
+        self.input_buffer.discard_readable();
     }
 
     pub(super) fn enqueue_serialised(&mut self, addr: SocketAddr, frame: SerialisedFrame) {
-- 
2.43.0


From c157063bb871ad91d86780e9b45ae9b9e228434a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:12 +0000
Subject: [PATCH 22/32] fix: leave writable space after swapping the buffer
 below a frame that spans several

---
 core/src/net/buffers/decode_buffer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 98803bd..074f6af 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -13,6 +13,9 @@ use crate::net::frames::{
 use bytes::Buf;
 use std::{cmp::Ordering, fmt::Formatter, io};
 
+/// With this many writable bytes or fewer left, a chunk must be swapped before writing on.
+const MIN_WRITEABLE_LEN: usize = 8;
+
 /// Incremental frame decoder backed by pooled [`BufferChunk`] storage.
 ///
 /// It supports decoding complete frames while the backing buffer is being filled,
@@ -93,7 +96,7 @@ impl DecodeBuffer {
 
     /// True if there is sufficient amount of writeable bytes
     pub(crate) fn is_writeable(&self) -> bool {
-        self.writeable_len() > 8
+        self.writeable_len() > MIN_WRITEABLE_LEN
     }
 
     /// Returns true if there is data to be decoded, else false
@@ -125,7 +128,10 @@ impl DecodeBuffer {
             let overflow_len = overflow_chunk.remaining();
             if overflow_len < self.writeable_len()
                 && self.writeable_len() - overflow_len
-                    > self.buffer_config.encode_buf_min_free_space
+                    > self
+                        .buffer_config
+                        .encode_buf_min_free_space
+                        .max(MIN_WRITEABLE_LEN)
             {
                 // Just copy the overflow_chunk bytes, no need to chain.
                 // the overflow must not exceed the new buffers capacity
-- 
2.43.0


From b17988db2b1a1c940436503933a8829977ec75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:32 +0000
Subject: [PATCH 23/32] hooks: opaque serialisation error for the verifier (cfg
 kani)

---
 core/src/serialisation/core.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/src/serialisation/core.rs b/core/src/serialisation/core.rs
index 9b3c0a8..b8995d2 100644
--- a/core/src/serialisation/core.rs
+++ b/core/src/serialisation/core.rs
@@ -198,6 +198,18 @@ impl SerError {
     }
 }
 
+#[cfg(kani)]
+impl SerError {
+    /// An error without message or backtrace, which the verifier need not look into.
+    pub fn verif_opaque() -> Self {
+        const HERE: &std::panic::Location<'static> = std::panic::Location::caller();
+        SerError(SerErrorInner::NoClone {
+            location: HERE,
+            backtrace: None,
+        })
+    }
+}
+
 /// The buffer ended before the value did.
 impl From<bytes::TryGetError> for SerError {
     fn from(error: bytes::TryGetError) -> Self {
-- 
2.43.0


From db1147c7bb544ff322c3e64616aad6a67e2cbfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:21 +0000
Subject: [PATCH 24/32] fix: account for timeouts that were cancelled while
 queued

---
 core/src/component/actual_component.rs | 5 +++++
 core/src/timer/timer_manager.rs        | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 1cf64cc..1d91897 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -523,6 +523,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             count += 1;
                             res
                         }
+                        ExecuteAction::Cancelled => {
+                            // nothing to run, but the queued timeout was counted as work
+                            count += 1;
+                            continue;
+                        }
                         ExecuteAction::None => break,
                     };
                     check_and_handle_blocking!(self, guard, count, res);
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 7957055..5581805 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -212,6 +212,8 @@ pub(crate) struct Timeout(pub(crate) Uuid);
 
 pub(crate) enum ExecuteAction<C: ComponentDefinition> {
     None,
+    // The timer was cancelled after its timeout had already been queued.
+    Cancelled,
     Periodic(Uuid, Rc<dyn Fn(&mut C, Uuid) -> HandlerResult>),
     Once(Uuid, Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult>),
 }
@@ -251,7 +253,7 @@ impl<C: ComponentDefinition> TimerManager<C> {
                     );
                     ExecuteAction::Periodic(timeout.0, action2)
                 }
-                _ => ExecuteAction::None,
+                None => ExecuteAction::Cancelled,
             }
         } else {
             ExecuteAction::None
-- 
2.43.0


From 2a834ac3bc71bf3fb349a8c4b3d83918acc669d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:23 +0000
Subject: [PATCH 25/32] fix: run timeouts of components with a dedicated
 scheduler on it

---
 core/src/timer/timer_manager.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 5581805..6582737 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -358,8 +358,7 @@ impl TimerActorRef {
                 let res = c.core().increment_work();
                 q.push(timeout);
                 if let SchedulingDecision::Schedule = res {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 Ok(())
             }
-- 
2.43.0


From c97a790a0cb2ce50339d9dd37dfa04b75fab1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:53 +0000
Subject: [PATCH 26/32] fix: run port events of components with a dedicated
 scheduler on it

---
 core/src/ports.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/src/ports.rs b/core/src/ports.rs
index bf222a2..a81f8a2 100644
--- a/core/src/ports.rs
+++ b/core/src/ports.rs
@@ -393,8 +393,7 @@ impl<P: Port + 'static> ProvidedRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
@@ -465,8 +464,7 @@ impl<P: Port + 'static> RequiredRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
-- 
2.43.0


From 111998c7ca496e9f5dacca49810dc25861d36582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:21 +0000
Subject: [PATCH 27/32] fix: poll the future a blocking future blocks on next

---
 core/src/component/context.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index cb461de..0b94fc3 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -225,7 +225,12 @@ where
             .take()
             .expect("Called run_blocking while not blocking!");
         let component = self.typed_component();
-        match blocking_state.future.run(&component) {
+        let mut run_result = blocking_state.future.run(&component);
+        // The next future must be polled, too, or nothing will ever wake up this component again.
+        while let BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) = run_result {
+            run_result = f.run(&component);
+        }
+        match run_result {
             BlockingRunResult::BlockOn(f) => {
                 blocking_state.future = f;
                 assert!(
@@ -234,14 +239,6 @@ where
                 );
                 BlockingTaskResult::Pending
             }
-            BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) => {
-                blocking_state.future = f;
-                assert!(
-                    self.blocking_future.replace(blocking_state).is_none(),
-                    "Replacing a blocking future without completing it first is invalid!"
-                );
-                BlockingTaskResult::Pending
-            }
             BlockingRunResult::Unblock(Ok(Handled::Shutdown))
                 if blocking_state.unblock_state == StateTransition::Destroyed =>
             {
-- 
2.43.0


From e2b398624ac819ecf8f472f37401cf4cda15c9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:21 +0000
Subject: [PATCH 28/32] fix: run no lifecycle events after a component was
 killed

---
 core/src/component/actual_component.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 1d91897..30c44ca 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -463,7 +463,11 @@ impl<CD: ComponentTraits> Component<CD> {
                         Ok(Handled::Ok) => match event {
                             lifecycle::ControlEvent::Start => self.notify_started(),
                             lifecycle::ControlEvent::Stop => self.set_passive(),
-                            lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                            lifecycle::ControlEvent::Kill => {
+                                self.set_destroyed();
+                                // ignore whatever else was queued, this component is gone
+                                return SchedulingDecision::NoWork;
+                            }
                             lifecycle::ControlEvent::Poll(_) => (),
                         },
                         Ok(Handled::BlockOn(blocking_future)) => {
@@ -492,7 +496,10 @@ impl<CD: ComponentTraits> Component<CD> {
                             match event {
                                 lifecycle::ControlEvent::Start => self.notify_started(),
                                 lifecycle::ControlEvent::Stop => self.set_passive(),
-                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                                lifecycle::ControlEvent::Kill => {
+                                    self.set_destroyed();
+                                    return SchedulingDecision::NoWork;
+                                }
                                 lifecycle::ControlEvent::Poll(_) => (),
                             }
                         }
-- 
2.43.0


From 7e2eb6af52e7bc0d980623423106b721a55a619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:21 +0000
Subject: [PATCH 29/32] fix: notify listeners when a component is killed that
 was never started

---
 core/src/supervision.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 24975fd..044f8a0 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -326,11 +326,12 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                                 id
                             );
                         }
-                        self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
-                        self.drop_listeners(&id);
                     }
                     None => warn!(self.ctx.log(), "An untracked Component({}) was killed.", id),
                 }
+                // even if it was never started
+                self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
+                self.drop_listeners(&id);
                 self.shutdown_if_no_more_children()
             }
             SupervisorMsg::Faulty(recover_handler) => {
-- 
2.43.0


From 9b7a3a0f9ba5c3f64bf38996365f3da2f4239621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 30/32] fix: don't drop a channel that is already closing

---
 network/src/transport/network_thread.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index de8252a..92b9da7 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -886,11 +886,16 @@ impl NetworkThread {
     fn close_connection(&mut self, addr: SocketAddr) {
         if let Some(channel) = self.get_channel_by_address(&addr) {
             let mut channel_mut = channel.borrow_mut();
-            if channel_mut.connected() {
-                channel_mut.initiate_graceful_shutdown();
-                self.update_lru(&channel_mut.token);
-            } else {
-                self.drop_channel(channel_mut.deref_mut());
+            match channel_mut.state {
+                ChannelState::Connected(_, _) => {
+                    channel_mut.initiate_graceful_shutdown();
+                    self.update_lru(&channel_mut.token);
+                }
+                // Already closing; dropping it now would lose what is still under way.
+                ChannelState::CloseRequested(_, _)
+                | ChannelState::CloseReceived(_, _)
+                | ChannelState::Closed(_, _) => (),
+                _ => self.drop_channel(channel_mut.deref_mut()),
             }
         }
     }
-- 
2.43.0


From 3907510ac083e8af774c8155560e4650ab5c96b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 31/32] fix: don't send the rest of a partly sent frame or
 control frames over another channel

---
 network/src/transport/network_channel.rs | 36 ++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 47f77ea..b80ad29 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -3,7 +3,7 @@ use crate::{
     messaging::SerialisedFrame,
     net::{
         buffers::{BufferChunk, BufferPool, DecodeBuffer},
-        frames::{FRAME_HEAD_LEN, Frame, FramingError, Hello, Start},
+        frames::{FRAME_HEAD_LEN, Frame, FrameType, FramingError, Hello, Start},
     },
 };
 use bytes::{Buf, BytesMut};
@@ -59,6 +59,8 @@ impl ChannelState {
 pub(crate) struct TcpChannel {
     stream: TcpStream,
     outbound_queue: VecDeque<SerialisedFrame>,
+    /// The beginning of the first frame in the `outbound_queue` has been sent.
+    partly_sent: bool,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -82,6 +84,7 @@ impl TcpChannel {
         TcpChannel {
             stream,
             outbound_queue: VecDeque::new(),
+            partly_sent: false,
             token,
             address,
             input_buffer,
@@ -191,10 +194,19 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Takes the frames which may still be sent on another channel.
+    ///
+    /// The rest of a partly sent frame can't be, as it would be read as the head of a frame there,
+    /// and neither can control frames, as they only concern this channel.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
+        if std::mem::take(&mut self.partly_sent) {
+            self.outbound_queue.pop_front();
+        }
         let mut ret = Vec::new();
         while let Some(frame) = self.outbound_queue.pop_front() {
-            ret.push(frame);
+            if !is_control_frame(&frame) {
+                ret.push(frame);
+            }
         }
         ret
     }
@@ -346,6 +358,8 @@ impl TcpChannel {
             match self.write_serialized(&serialized_frame) {
                 Ok(n) => {
                     sent_bytes += n;
+                    self.partly_sent =
+                        n < serialized_frame.len() && (n > 0 || self.partly_sent);
                     match &mut serialized_frame {
                         // Split the data and continue sending the rest later if we sent less than the full frame
                         SerialisedFrame::Bytes(bytes) => {
@@ -405,6 +419,24 @@ impl TcpChannel {
     }
 }
 
+/// Control frames are always encoded by the channel itself, into `Bytes`.
+fn is_control_frame(frame: &SerialisedFrame) -> bool {
+    const TYPE_OFFSET: usize = FRAME_HEAD_LEN as usize - 1;
+    match frame {
+        SerialisedFrame::Bytes(bytes) => bytes.get(TYPE_OFFSET).is_some_and(|t| {
+            [
+                FrameType::Hello,
+                FrameType::Start,
+                FrameType::Ack,
+                FrameType::Bye,
+            ]
+            .iter()
+            .any(|control| *control as u8 == *t)
+        }),
+        _ => false,
+    }
+}
+
 impl std::fmt::Debug for TcpChannel {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         f.debug_struct("TcpChannel")
-- 
2.43.0


From 76bca81b35bfb97841b38b32f41cfdeed46cd3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:16 +0000
Subject: [PATCH 32/32] fix: return the buffer of a lost channel to the pool
 instead of freeing it under its leases

---
 network/src/transport/network_thread.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 92b9da7..171947d 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -700,9 +700,17 @@ impl NetworkThread {
         self.deregister_channel(channel);
         self.address_map.remove(&channel.address());
         channel.shutdown();
+        self.reclaim_buffer(channel);
+    }
+
+    /// Returns the buffer of the `channel` to the pool, as there may still be leases on it.
+    fn reclaim_buffer(&self, channel: &mut TcpChannel) {
         let mut buffer = BufferChunk::new(0);
         channel.swap_buffer(&mut buffer);
-        self.return_buffer(buffer);
+        // Empty if it was reclaimed before
+        if !buffer.is_empty() {
+            self.return_buffer(buffer);
+        }
     }
 
     fn deregister_channel(&mut self, channel: &mut TcpChannel) {
@@ -914,6 +922,7 @@ impl NetworkThread {
         let _ = channel.send_bye();
         self.deregister_channel(channel.deref_mut());
         channel.shutdown();
+        self.reclaim_buffer(channel.deref_mut());
     }
 
     fn reject_outbound_for_channel(&mut self, channel: &mut TcpChannel) {
-- 
2.43.0

