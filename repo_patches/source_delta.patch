From e350d7970c840781cdbe31ce12fb2fcaa8606296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:18 +0000
Subject: [PATCH 1/8] verif: hook module for crate-private transport items,
 behind cfg lightyear_verif

---
 crates/transport/transport/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/transport/transport/src/lib.rs b/crates/transport/transport/src/lib.rs
index a280fb8..3546fc9 100644
--- a/crates/transport/transport/src/lib.rs
+++ b/crates/transport/transport/src/lib.rs
@@ -31,3 +31,11 @@ pub mod prelude {
     pub use crate::packet::nack::PacketNackSettings;
     pub use crate::packet::priority_manager::{PriorityConfig, PriorityManager};
 }
+
+// Verification hook, off by default: `--cfg lightyear_verif` exposes crate-private items to
+// external harnesses through wrappers that live outside of this repository.
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+pub mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport.rs"));
+}
-- 
2.43.0


From ed0959cfc67064d1a94a15e00b518d5c6135b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:36 +0000
Subject: [PATCH 2/8] verif: guarded hook modules next to private items (cfg
 lightyear_verif)

---
 crates/connection/netcode/src/lib.rs                    | 7 +++++++
 crates/transport/transport/src/channel/receive.rs       | 6 ++++++
 crates/transport/transport/src/channel/send.rs          | 6 ++++++
 crates/transport/transport/src/channel/send_reliable.rs | 6 ++++++
 crates/transport/transport/src/packet/header.rs         | 6 ++++++
 5 files changed, 31 insertions(+)

diff --git a/crates/connection/netcode/src/lib.rs b/crates/connection/netcode/src/lib.rs
index 891e5b1..9daf4df 100644
--- a/crates/connection/netcode/src/lib.rs
+++ b/crates/connection/netcode/src/lib.rs
@@ -125,3 +125,10 @@ pub const CONNECT_TOKEN_BYTES: usize = 2048;
 pub const MAX_PACKET_SIZE: usize = 1200;
 /// The version of the netcode protocol implemented by this crate.
 pub const NETCODE_VERSION: &[u8; 13] = b"NETCODE 1.02\0";
+
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/netcode.rs"));
+}
diff --git a/crates/transport/transport/src/channel/receive.rs b/crates/transport/transport/src/channel/receive.rs
index 32ce170..624447d 100644
--- a/crates/transport/transport/src/channel/receive.rs
+++ b/crates/transport/transport/src/channel/receive.rs
@@ -517,3 +517,9 @@ mod tests {
         assert_eq!(received.2, Some(MessageId(0)));
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+pub(crate) mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/receive.rs"));
+}
diff --git a/crates/transport/transport/src/channel/send.rs b/crates/transport/transport/src/channel/send.rs
index 93a3eb8..f780858 100644
--- a/crates/transport/transport/src/channel/send.rs
+++ b/crates/transport/transport/src/channel/send.rs
@@ -898,3 +898,9 @@ mod tests {
         }
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+pub(crate) mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/send.rs"));
+}
diff --git a/crates/transport/transport/src/channel/send_reliable.rs b/crates/transport/transport/src/channel/send_reliable.rs
index 60f0dde..554e0d5 100644
--- a/crates/transport/transport/src/channel/send_reliable.rs
+++ b/crates/transport/transport/src/channel/send_reliable.rs
@@ -308,3 +308,9 @@ mod tests {
         assert_eq!(candidates[0].send_order, 42);
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+pub(crate) mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/send_reliable.rs"));
+}
diff --git a/crates/transport/transport/src/packet/header.rs b/crates/transport/transport/src/packet/header.rs
index 82ab9ec..5284c02 100644
--- a/crates/transport/transport/src/packet/header.rs
+++ b/crates/transport/transport/src/packet/header.rs
@@ -602,3 +602,9 @@ mod tests {
         assert!(!sender.newly_acked_packets.contains_key(&PacketId(1)));
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+pub(crate) mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/header.rs"));
+}
-- 
2.43.0


From 8494c57bd2ea115a82c9f56a22364025d09c74be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:24 +0000
Subject: [PATCH 3/8] fix: do not reserve memory for collection lengths the
 input cannot hold

A few bytes from a peer could announce a Vec, SmallVec or HashMap of any length, and that many elements were reserved before anything was read.
---
 crates/transport/serde/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/transport/serde/src/lib.rs b/crates/transport/serde/src/lib.rs
index 13dc1d1..a6cc072 100644
--- a/crates/transport/serde/src/lib.rs
+++ b/crates/transport/serde/src/lib.rs
@@ -218,8 +218,9 @@ impl<M: ToBytes> ToBytes for Vec<M> {
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
+        // `len` comes from the peer: do not reserve more elements than there are bytes to read them from
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut vec = Vec::with_capacity(len);
+        let mut vec = Vec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             vec.push(M::from_bytes(buffer)?);
         }
@@ -249,7 +250,8 @@ where
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        let mut values = SmallVec::with_capacity(len);
+        // `len` comes from the peer: do not reserve more elements than there are bytes to read them from
+        let mut values = SmallVec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             values.push(A::Item::from_bytes(buffer)?);
         }
@@ -281,8 +283,10 @@ impl<K: ToBytes + Eq + Hash, V: ToBytes, S: Default + BuildHasher> ToBytes for H
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
+        // `len` comes from the peer: do not reserve more elements than there are bytes to read them from
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut res = HashMap::with_capacity_and_hasher(len, S::default());
+        let mut res =
+            HashMap::with_capacity_and_hasher(len.min(buffer.remaining()), S::default());
         for _ in 0..len {
             let key = K::from_bytes(buffer)?;
             let value = V::from_bytes(buffer)?;
-- 
2.43.0


From 42a540453e1f24f6c7f3965480d9922e53b1c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:24 +0000
Subject: [PATCH 4/8] fix: replay protection must not overflow on sequence
 numbers near u64::MAX

`sequence + 256` overflowed (panic with overflow checks, wrong answer without) for a sequence number the sender chooses.
---
 crates/connection/netcode/src/replay.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/replay.rs b/crates/connection/netcode/src/replay.rs
index 44bcd4c..f180a16 100644
--- a/crates/connection/netcode/src/replay.rs
+++ b/crates/connection/netcode/src/replay.rs
@@ -24,7 +24,8 @@ impl ReplayProtection {
     }
 
     pub fn is_already_received(&self, sequence: u64) -> bool {
-        if sequence + self.received_packet.len() as u64 <= self.most_recent_sequence {
+        // `sequence` is chosen by the sender and can be as large as `u64::MAX`
+        if self.most_recent_sequence.saturating_sub(sequence) >= self.received_packet.len() as u64 {
             return true;
         }
 
-- 
2.43.0


From 8dc00a37fe41cf5592e491d54444524754ad6427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 5/8] fix: a link jitter below one millisecond must not panic

The jitter is used in whole milliseconds, so `random_range(-0..0)` was asked for a value of an empty range.
---
 crates/io/link/src/conditioner.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 2ae8c00..4fe6b9d 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -174,7 +174,10 @@ impl<P: Eq> LinkConditioner<P> {
         let mut packet_timestamp = instant;
         if self.config.incoming_jitter > Duration::default() {
             let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
-            latency += rng.random_range(-jitter..jitter);
+            // a jitter below one millisecond leaves no value to choose from
+            if jitter > 0 {
+                latency += rng.random_range(-jitter..jitter);
+            }
         }
         if latency > 0 {
             packet_timestamp += Duration::from_millis(latency as u64);
-- 
2.43.0


From af11532e00ab33c6862f95a6aa7a1c949f21d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:26 +0000
Subject: [PATCH 6/8] verif: guarded hook modules in lightyear_sync (cfg
 lightyear_verif)

---
 crates/core/sync/src/lib.rs            | 7 +++++++
 crates/core/sync/src/timeline/input.rs | 6 ++++++
 2 files changed, 13 insertions(+)

diff --git a/crates/core/sync/src/lib.rs b/crates/core/sync/src/lib.rs
index 5944eef..4f20803 100644
--- a/crates/core/sync/src/lib.rs
+++ b/crates/core/sync/src/lib.rs
@@ -56,3 +56,10 @@ pub mod prelude {
     #[cfg(feature = "server")]
     pub mod server {}
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync.rs"));
+}
diff --git a/crates/core/sync/src/timeline/input.rs b/crates/core/sync/src/timeline/input.rs
index 653fd76..add7e58 100644
--- a/crates/core/sync/src/timeline/input.rs
+++ b/crates/core/sync/src/timeline/input.rs
@@ -667,6 +667,12 @@ impl TimelineSync for LocalTimelineSync {
     }
 }
 
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+pub(crate) mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_input.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From a2330674655dd1bb9aae3ff796ba877ccda4bc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:17 +0000
Subject: [PATCH 7/8] fix: input delay limits near u16::MAX must not overflow

`maximum_predicted_ticks + maximum_input_delay_before_prediction` overflowed for an unlimited prediction window: a panic with overflow checks, and input delay far beyond the configured limits without.
---
 crates/core/sync/src/timeline/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/sync/src/timeline/input.rs b/crates/core/sync/src/timeline/input.rs
index add7e58..841fdc1 100644
--- a/crates/core/sync/src/timeline/input.rs
+++ b/crates/core/sync/src/timeline/input.rs
@@ -393,7 +393,7 @@ impl InputDelayConfig {
         // if we're in lockstep mode, we will take extra margin
         if self.is_lockstep() {
             // TODO: make this configurable!
-            rtt_ticks += 2;
+            rtt_ticks = rtt_ticks.saturating_add(2);
         }
         // if the rtt is lower than the minimum input delay, we will apply the minimum input delay
         if rtt_ticks <= self.minimum_input_delay_ticks {
@@ -405,7 +405,10 @@ impl InputDelayConfig {
         }
         // else, apply input delay up to the maximum input delay, and cover the rest with prediction
         // if not possible, add even more input delay
-        if rtt_ticks <= (self.maximum_predicted_ticks + self.maximum_input_delay_before_prediction)
+        if rtt_ticks
+            <= self
+                .maximum_predicted_ticks
+                .saturating_add(self.maximum_input_delay_before_prediction)
         {
             self.maximum_input_delay_before_prediction
         } else {
-- 
2.43.0


From 34ec9ed9fb6772109e0cb3a4f78036b5c6769ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:17 +0000
Subject: [PATCH 8/8] verif: guarded hook module in the ping manager (cfg
 lightyear_verif)

---
 crates/core/sync/src/ping/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/core/sync/src/ping/manager.rs b/crates/core/sync/src/ping/manager.rs
index f7e969d..e14f9ff 100644
--- a/crates/core/sync/src/ping/manager.rs
+++ b/crates/core/sync/src/ping/manager.rs
@@ -219,3 +219,9 @@ impl PingManager {
         self.pongs_to_send.drain(..)
     }
 }
+
+#[allow(unexpected_cfgs)]
+#[cfg(lightyear_verif)]
+pub(crate) mod verif_hooks {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_ping.rs"));
+}
-- 
2.43.0

