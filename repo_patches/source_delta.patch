From fd46b2efb9d5cc49b841ef2194812aa1ccbc11b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 01/18] verif hooks: cfg-guarded access modules for the
 contract harnesses

---
 .../connection/connection/src/network_target.rs   |  6 ++++++
 crates/connection/netcode/src/client.rs           |  6 ++++++
 crates/connection/netcode/src/lib.rs              | 10 ++++++++++
 crates/connection/netcode/src/packet.rs           |  6 ++++++
 crates/connection/netcode/src/replay.rs           |  6 ++++++
 crates/connection/netcode/src/server.rs           |  6 ++++++
 crates/connection/netcode/src/token.rs            |  6 ++++++
 crates/core/sync/src/ping/estimator.rs            |  6 ++++++
 crates/core/sync/src/ping/manager.rs              |  6 ++++++
 crates/core/sync/src/ping/store.rs                |  6 ++++++
 crates/core/sync/src/timeline/input.rs            |  6 ++++++
 crates/core/sync/src/timeline/remote.rs           |  6 ++++++
 crates/core/sync/src/timeline/sync.rs             |  6 ++++++
 crates/io/link/src/conditioner.rs                 |  6 ++++++
 crates/io/link/src/lib.rs                         |  6 ++++++
 .../transport/transport/src/channel/fragments.rs  |  8 ++++++++
 .../transport/src/channel/fragments/ack.rs        |  6 ++++++
 .../transport/src/channel/fragments/receive.rs    |  6 ++++++
 .../transport/src/channel/fragments/send.rs       |  6 ++++++
 crates/transport/transport/src/channel/receive.rs |  6 ++++++
 crates/transport/transport/src/channel/send.rs    |  6 ++++++
 .../transport/src/channel/send_reliable.rs        |  6 ++++++
 crates/transport/transport/src/lib.rs             | 15 +++++++++++++++
 crates/transport/transport/src/packet/header.rs   |  6 ++++++
 crates/transport/transport/src/packet/message.rs  |  6 ++++++
 crates/transport/transport/src/packet/nack.rs     |  6 ++++++
 crates/transport/transport/src/packet/packet.rs   |  6 ++++++
 .../transport/src/packet/packet_builder.rs        |  6 ++++++
 .../transport/src/packet/priority_manager.rs      |  6 ++++++
 29 files changed, 189 insertions(+)

diff --git a/crates/connection/connection/src/network_target.rs b/crates/connection/connection/src/network_target.rs
index 68f8bbe..8725645 100644
--- a/crates/connection/connection/src/network_target.rs
+++ b/crates/connection/connection/src/network_target.rs
@@ -822,6 +822,12 @@ impl<T: Eq + Hash + Copy> Target<T> {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/conn_target.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/connection/netcode/src/client.rs b/crates/connection/netcode/src/client.rs
index 4b8d73f..3ee3191 100644
--- a/crates/connection/netcode/src/client.rs
+++ b/crates/connection/netcode/src/client.rs
@@ -725,3 +725,9 @@ impl<Ctx> Client<Ctx> {
 //         );
 //     }
 // }
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/netcode_client.rs"));
+}
diff --git a/crates/connection/netcode/src/lib.rs b/crates/connection/netcode/src/lib.rs
index 891e5b1..daa4b7f 100644
--- a/crates/connection/netcode/src/lib.rs
+++ b/crates/connection/netcode/src/lib.rs
@@ -125,3 +125,13 @@ pub const CONNECT_TOKEN_BYTES: usize = 2048;
 pub const MAX_PACKET_SIZE: usize = 1200;
 /// The version of the netcode protocol implemented by this crate.
 pub const NETCODE_VERSION: &[u8; 13] = b"NETCODE 1.02\0";
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::client::verif as client;
+    pub use crate::packet::verif as packet;
+    pub use crate::replay::verif as replay;
+    pub use crate::server::verif as server;
+    pub use crate::token::verif as token;
+}
diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index 787d03b..f783010 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -629,6 +629,12 @@ pub fn sequence_len(sequence: u64) -> u8 {
     core::cmp::max(8 - sequence.leading_zeros() as u8 / 8, 1)
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/netcode_packet.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/connection/netcode/src/replay.rs b/crates/connection/netcode/src/replay.rs
index 44bcd4c..b7e904c 100644
--- a/crates/connection/netcode/src/replay.rs
+++ b/crates/connection/netcode/src/replay.rs
@@ -38,6 +38,12 @@ impl ReplayProtection {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/netcode_replay.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index ae5b8b8..e75aa22 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -1175,6 +1175,12 @@ impl<Ctx> Server<Ctx> {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/netcode_server.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/connection/netcode/src/token.rs b/crates/connection/netcode/src/token.rs
index 5552cb5..90883a9 100644
--- a/crates/connection/netcode/src/token.rs
+++ b/crates/connection/netcode/src/token.rs
@@ -519,6 +519,12 @@ impl Bytes for ConnectToken {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/netcode_token.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/core/sync/src/ping/estimator.rs b/crates/core/sync/src/ping/estimator.rs
index ca2a90b..6267f8e 100644
--- a/crates/core/sync/src/ping/estimator.rs
+++ b/crates/core/sync/src/ping/estimator.rs
@@ -187,6 +187,12 @@ impl RttEstimatorEwma {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_estimator.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/core/sync/src/ping/manager.rs b/crates/core/sync/src/ping/manager.rs
index f7e969d..4a82314 100644
--- a/crates/core/sync/src/ping/manager.rs
+++ b/crates/core/sync/src/ping/manager.rs
@@ -219,3 +219,9 @@ impl PingManager {
         self.pongs_to_send.drain(..)
     }
 }
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_ping.rs"));
+}
diff --git a/crates/core/sync/src/ping/store.rs b/crates/core/sync/src/ping/store.rs
index b6e0571..5399544 100644
--- a/crates/core/sync/src/ping/store.rs
+++ b/crates/core/sync/src/ping/store.rs
@@ -51,3 +51,9 @@ impl PingStore {
         self.buffer.clear();
     }
 }
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_store.rs"));
+}
diff --git a/crates/core/sync/src/timeline/input.rs b/crates/core/sync/src/timeline/input.rs
index 653fd76..b54d216 100644
--- a/crates/core/sync/src/timeline/input.rs
+++ b/crates/core/sync/src/timeline/input.rs
@@ -667,6 +667,12 @@ impl TimelineSync for LocalTimelineSync {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_input.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/core/sync/src/timeline/remote.rs b/crates/core/sync/src/timeline/remote.rs
index 3eb55cc..c522224 100644
--- a/crates/core/sync/src/timeline/remote.rs
+++ b/crates/core/sync/src/timeline/remote.rs
@@ -286,3 +286,9 @@ impl SyncTargetTimeline for RemoteTimeline {
         self.received_packet
     }
 }
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_remote.rs"));
+}
diff --git a/crates/core/sync/src/timeline/sync.rs b/crates/core/sync/src/timeline/sync.rs
index a3260cf..cb10de4 100644
--- a/crates/core/sync/src/timeline/sync.rs
+++ b/crates/core/sync/src/timeline/sync.rs
@@ -691,6 +691,12 @@ impl<Remote: SyncTargetTimeline> Plugin for LocalTimelineSyncPlugin<Remote> {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/sync_sync.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 2ae8c00..9bee11d 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -398,6 +398,12 @@ impl LinkConditionerConfig {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/link_conditioner.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/io/link/src/lib.rs b/crates/io/link/src/lib.rs
index a36dcc6..9f0534c 100644
--- a/crates/io/link/src/lib.rs
+++ b/crates/io/link/src/lib.rs
@@ -528,6 +528,12 @@ impl Plugin for LinkPlugin {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::conditioner::verif as conditioner;
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/transport/transport/src/channel/fragments.rs b/crates/transport/transport/src/channel/fragments.rs
index 8b00104..7156b38 100644
--- a/crates/transport/transport/src/channel/fragments.rs
+++ b/crates/transport/transport/src/channel/fragments.rs
@@ -7,3 +7,11 @@ mod send;
 pub(crate) use ack::FragmentAckReceiver;
 pub(crate) use receive::FragmentReceiver;
 pub(crate) use send::FragmentSender;
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    pub use super::ack::verif as ack;
+    pub use super::receive::verif as receive;
+    pub use super::send::verif as send;
+}
diff --git a/crates/transport/transport/src/channel/fragments/ack.rs b/crates/transport/transport/src/channel/fragments/ack.rs
index 6daeaeb..bb9f7b6 100644
--- a/crates/transport/transport/src/channel/fragments/ack.rs
+++ b/crates/transport/transport/src/channel/fragments/ack.rs
@@ -102,6 +102,12 @@ impl FragmentAckTracker {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_frag_ack.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/transport/transport/src/channel/fragments/receive.rs b/crates/transport/transport/src/channel/fragments/receive.rs
index 329e221..cb910f1 100644
--- a/crates/transport/transport/src/channel/fragments/receive.rs
+++ b/crates/transport/transport/src/channel/fragments/receive.rs
@@ -276,6 +276,12 @@ fn map_fragment_decompression_error(error: PacketError) -> ChannelReceiveError {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_frag_receive.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use crate::channel::fragments::FragmentSender;
diff --git a/crates/transport/transport/src/channel/fragments/send.rs b/crates/transport/transport/src/channel/fragments/send.rs
index b230dfa..2086d21 100644
--- a/crates/transport/transport/src/channel/fragments/send.rs
+++ b/crates/transport/transport/src/channel/fragments/send.rs
@@ -111,6 +111,12 @@ fn fragment_compression(compression: CompressionConfig) -> Option<FragmentCompre
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_frag_send.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::vec;
diff --git a/crates/transport/transport/src/channel/receive.rs b/crates/transport/transport/src/channel/receive.rs
index 32ce170..ff05cd8 100644
--- a/crates/transport/transport/src/channel/receive.rs
+++ b/crates/transport/transport/src/channel/receive.rs
@@ -311,6 +311,12 @@ impl RecvState {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_receive.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/transport/transport/src/channel/send.rs b/crates/transport/transport/src/channel/send.rs
index 93a3eb8..e974507 100644
--- a/crates/transport/transport/src/channel/send.rs
+++ b/crates/transport/transport/src/channel/send.rs
@@ -492,6 +492,12 @@ fn is_ready_to_send(timer: Option<&Timer>) -> bool {
     timer.is_none_or(Timer::is_finished)
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_send.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/transport/transport/src/channel/send_reliable.rs b/crates/transport/transport/src/channel/send_reliable.rs
index 60f0dde..305f331 100644
--- a/crates/transport/transport/src/channel/send_reliable.rs
+++ b/crates/transport/transport/src/channel/send_reliable.rs
@@ -256,6 +256,12 @@ impl ReliableSendState {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_send_reliable.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/transport/transport/src/lib.rs b/crates/transport/transport/src/lib.rs
index a280fb8..0a29685 100644
--- a/crates/transport/transport/src/lib.rs
+++ b/crates/transport/transport/src/lib.rs
@@ -31,3 +31,18 @@ pub mod prelude {
     pub use crate::packet::nack::PacketNackSettings;
     pub use crate::packet::priority_manager::{PriorityConfig, PriorityManager};
 }
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::channel::fragments::verif as fragments;
+    pub use crate::channel::receive::verif as receive;
+    pub use crate::channel::send::verif as send;
+    pub use crate::channel::send_reliable::verif as send_reliable;
+    pub use crate::packet::header::verif as header;
+    pub use crate::packet::message::verif as message;
+    pub use crate::packet::nack::verif as nack;
+    pub use crate::packet::packet::verif as packet;
+    pub use crate::packet::packet_builder::verif as packet_builder;
+    pub use crate::packet::priority_manager::verif as priority;
+}
diff --git a/crates/transport/transport/src/packet/header.rs b/crates/transport/transport/src/packet/header.rs
index 82ab9ec..feb8904 100644
--- a/crates/transport/transport/src/packet/header.rs
+++ b/crates/transport/transport/src/packet/header.rs
@@ -394,6 +394,12 @@ impl ReceiveBuffer {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_header.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::vec;
diff --git a/crates/transport/transport/src/packet/message.rs b/crates/transport/transport/src/packet/message.rs
index 31d6057..46ae83f 100644
--- a/crates/transport/transport/src/packet/message.rs
+++ b/crates/transport/transport/src/packet/message.rs
@@ -360,6 +360,12 @@ impl FragmentData {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_message.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/transport/transport/src/packet/nack.rs b/crates/transport/transport/src/packet/nack.rs
index 3498e98..f40d90c 100644
--- a/crates/transport/transport/src/packet/nack.rs
+++ b/crates/transport/transport/src/packet/nack.rs
@@ -46,6 +46,12 @@ impl PacketNackSettings {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_nack.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/crates/transport/transport/src/packet/packet.rs b/crates/transport/transport/src/packet/packet.rs
index 2b89cf0..b073f66 100644
--- a/crates/transport/transport/src/packet/packet.rs
+++ b/crates/transport/transport/src/packet/packet.rs
@@ -131,6 +131,12 @@ impl Packet {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_packet.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use crate::packet::header::{PacketHeader, PacketHeaderManager};
diff --git a/crates/transport/transport/src/packet/packet_builder.rs b/crates/transport/transport/src/packet/packet_builder.rs
index f4eb640..afe1bd3 100644
--- a/crates/transport/transport/src/packet/packet_builder.rs
+++ b/crates/transport/transport/src/packet/packet_builder.rs
@@ -597,6 +597,12 @@ impl PacketBuilder {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_packet_builder.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use alloc::vec;
diff --git a/crates/transport/transport/src/packet/priority_manager.rs b/crates/transport/transport/src/packet/priority_manager.rs
index de0f1ed..311708b 100644
--- a/crates/transport/transport/src/packet/priority_manager.rs
+++ b/crates/transport/transport/src/packet/priority_manager.rs
@@ -192,6 +192,12 @@ impl BandwidthLimiter {
     }
 }
 
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    include!(concat!(env!("LIGHTYEAR_VERIF_HOOKS"), "/transport_priority.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 686dc5dc09330333840f251b921ee795abbd30b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 02/18] fix: netcode replay protection overflowed on sequences
 within 256 of u64::MAX

---
 crates/connection/netcode/src/replay.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/replay.rs b/crates/connection/netcode/src/replay.rs
index b7e904c..c9b3fff 100644
--- a/crates/connection/netcode/src/replay.rs
+++ b/crates/connection/netcode/src/replay.rs
@@ -24,7 +24,12 @@ impl ReplayProtection {
     }
 
     pub fn is_already_received(&self, sequence: u64) -> bool {
-        if sequence + self.received_packet.len() as u64 <= self.most_recent_sequence {
+        // Sequences whose window would not fit in a u64 are never sent by an honest peer, and
+        // `u64::MAX` marks an empty slot: treat them as replayed instead of overflowing.
+        let Some(window_end) = sequence.checked_add(self.received_packet.len() as u64) else {
+            return true;
+        };
+        if window_end <= self.most_recent_sequence {
             return true;
         }
 
-- 
2.43.0


From b24ab4a618b4f80f771257a2e8d71bc49b6c15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 03/18] fix: netcode rejects sequence lengths outside [1, 8]
 instead of panicking

---
 crates/connection/netcode/src/packet.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index f783010..db665ad 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -574,6 +574,9 @@ impl Packet {
             // should at least have prefix byte, sequence and mac
             return Err(Error::TooSmall.into());
         }
+        if !(1..=size_of::<u64>()).contains(&sequence_len) {
+            return Err(Error::InvalidSequenceBytes(sequence_len as u8).into());
+        }
         let sequence = cursor.read_sequence(sequence_len)?;
 
         // Replay protection
-- 
2.43.0


From f11afc0f775f3db57f1530aa3090895f3d0451e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 04/18] fix: netcode drops packets whose kind is not allowed
 for the receiving side

---
 crates/connection/netcode/src/packet.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index db665ad..26df31f 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -560,8 +560,13 @@ impl Packet {
         let mut cursor = io::Cursor::new(buf);
         let prefix_byte = cursor.read_u8()?;
         let (sequence_len, pkt_kind) = Packet::get_prefix(prefix_byte);
-        if allowed_packets & (1 << pkt_kind) == 0 {
+        let is_allowed = 1u8
+            .checked_shl(pkt_kind.into())
+            .is_some_and(|kind_bit| allowed_packets & kind_bit != 0);
+        // A connection request is only valid unencrypted, i.e. with a null prefix byte.
+        if !is_allowed || (pkt_kind == Packet::REQUEST && prefix_byte != Packet::REQUEST) {
             debug!("ignoring packet of type {}, not allowed", pkt_kind);
+            return Err(Error::InvalidType(pkt_kind).into());
         }
         if prefix_byte == Packet::REQUEST {
             // connection request packet: first byte should be 0x00
-- 
2.43.0


From ab98eeeeb53e974b1c9da561a6a11a1a25ac02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 05/18] fix: netcode server does not deliver payloads of
 clients that have not completed the handshake

---
 crates/connection/netcode/src/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index e75aa22..32058f2 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -571,8 +571,12 @@ impl<Ctx> Server<Ctx> {
                 Ok(None)
             }
             Packet::Payload(packet) => {
-                if let Some(client_id) =
-                    self.conn_cache.find_by_entity(&entity).map(|c| c.client_id)
+                // payloads are only meaningful once the client answered the connection challenge
+                if let Some(client_id) = self
+                    .conn_cache
+                    .find_by_entity(&entity)
+                    .filter(|c| c.is_connected())
+                    .map(|c| c.client_id)
                 {
                     self.touch_client(client_id);
                     Ok(Some(packet.into_recv()))
-- 
2.43.0


From ccf16c2ea70a66fde64787346001e88f278167a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 06/18] fix: netcode server keeps its entity and client id
 tables consistent when a pending connection is replaced

---
 crates/connection/netcode/src/server.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 32058f2..e8666c8 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -148,8 +148,10 @@ impl ConnectionCache {
         user_data: [u8; USER_DATA_BYTES],
     ) {
         let time = self.time;
-        if let Some(existing) = self.mut_by_entity(&entity) {
-            existing.client_id = client_id;
+        if let Some(existing) = self
+            .mut_by_entity(&entity)
+            .filter(|existing| existing.client_id == client_id)
+        {
             existing.timeout = timeout;
             existing.send_key = send_key;
             existing.receive_key = receive_key;
@@ -171,7 +173,15 @@ impl ConnectionCache {
             sequence: 1 << 62,
             user_data,
         };
-        self.clients.insert(client_id, conn);
+        // Keep `clients` and `client_id_map` in step: an entity hosts one client, and a client lives
+        // on one entity. Forget the pending connection that used this entity or this client id.
+        if let Some(previous_id) = self.client_id_map.remove(&entity) {
+            self.clients.remove(&previous_id);
+            self.replay_protection.remove(&previous_id);
+        }
+        if let Some(previous) = self.clients.insert(client_id, conn) {
+            self.client_id_map.remove(&previous.entity);
+        }
         self.replay_protection
             .insert(client_id, ReplayProtection::new());
 
-- 
2.43.0


From 102b93351d11a6ab81416536c8c612923308c7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 07/18] fix: u16::from_bytes rejects values that do not fit
 instead of truncating them

---
 crates/transport/serde/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/transport/serde/src/lib.rs b/crates/transport/serde/src/lib.rs
index 13dc1d1..bbf9d98 100644
--- a/crates/transport/serde/src/lib.rs
+++ b/crates/transport/serde/src/lib.rs
@@ -169,7 +169,7 @@ impl ToBytes for u16 {
     where
         Self: Sized,
     {
-        Ok(buffer.read_varint()? as u16)
+        u16::try_from(buffer.read_varint()?).map_err(|_| SerializationError::InvalidValue)
     }
 }
 
-- 
2.43.0


From 81e94bfc57cd6aec75229f36673a3337b8e70d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 08/18] fix: collection decoders no longer reserve memory for a
 length the peer merely claims

---
 crates/transport/serde/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/transport/serde/src/lib.rs b/crates/transport/serde/src/lib.rs
index bbf9d98..224552d 100644
--- a/crates/transport/serde/src/lib.rs
+++ b/crates/transport/serde/src/lib.rs
@@ -219,7 +219,8 @@ impl<M: ToBytes> ToBytes for Vec<M> {
     {
         let len = buffer.read_varint()? as usize;
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut vec = Vec::with_capacity(len);
+        // the length comes from the peer: do not reserve more than the bytes that are left
+        let mut vec = Vec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             vec.push(M::from_bytes(buffer)?);
         }
@@ -249,7 +250,8 @@ where
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        let mut values = SmallVec::with_capacity(len);
+        // the length comes from the peer: do not reserve more than the bytes that are left
+        let mut values = SmallVec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             values.push(A::Item::from_bytes(buffer)?);
         }
@@ -282,7 +284,9 @@ impl<K: ToBytes + Eq + Hash, V: ToBytes, S: Default + BuildHasher> ToBytes for H
     {
         let len = buffer.read_varint()? as usize;
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut res = HashMap::with_capacity_and_hasher(len, S::default());
+        // the length comes from the peer: do not reserve more than the bytes that are left
+        let mut res =
+            HashMap::with_capacity_and_hasher(len.min(buffer.remaining()), S::default());
         for _ in 0..len {
             let key = K::from_bytes(buffer)?;
             let value = V::from_bytes(buffer)?;
-- 
2.43.0


From fe04d0957767544679de3bdee96c95580a473385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:27 +0000
Subject: [PATCH 09/18] fix: sub-millisecond jitter no longer panics the link
 conditioner

---
 crates/io/link/src/conditioner.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 9bee11d..fde6adf 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -172,8 +172,9 @@ impl<P: Eq> LinkConditioner<P> {
 
         let mut latency: i32 = self.config.incoming_latency.as_millis() as i32;
         let mut packet_timestamp = instant;
-        if self.config.incoming_jitter > Duration::default() {
-            let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        // jitter is applied with millisecond precision: there is nothing to apply below that
+        if jitter > 0 {
             latency += rng.random_range(-jitter..jitter);
         }
         if latency > 0 {
-- 
2.43.0


From 1e3b1fec58419d885807dd3aae65776aef0b5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 10/18] verif hooks: re-export the reliable sender access
 module (cfg-guarded)

---
 crates/transport/transport/src/channel/mod.rs | 6 ++++++
 crates/transport/transport/src/lib.rs         | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/transport/transport/src/channel/mod.rs b/crates/transport/transport/src/channel/mod.rs
index feac081..a1cc832 100644
--- a/crates/transport/transport/src/channel/mod.rs
+++ b/crates/transport/transport/src/channel/mod.rs
@@ -17,3 +17,9 @@ pub mod stats;
 /// The properties can be specified using the [`ChannelSettings`](crate::prelude::ChannelSettings).
 pub trait Channel: Send + Sync + 'static {}
 impl<T: Send + Sync + 'static> Channel for T {}
+
+#[cfg(any(kani, lightyear_verif))]
+#[doc(hidden)]
+pub mod verif {
+    pub use super::send_reliable::verif as send_reliable;
+}
diff --git a/crates/transport/transport/src/lib.rs b/crates/transport/transport/src/lib.rs
index 0a29685..6d62960 100644
--- a/crates/transport/transport/src/lib.rs
+++ b/crates/transport/transport/src/lib.rs
@@ -38,7 +38,7 @@ pub mod verif {
     pub use crate::channel::fragments::verif as fragments;
     pub use crate::channel::receive::verif as receive;
     pub use crate::channel::send::verif as send;
-    pub use crate::channel::send_reliable::verif as send_reliable;
+    pub use crate::channel::verif::send_reliable;
     pub use crate::packet::header::verif as header;
     pub use crate::packet::message::verif as message;
     pub use crate::packet::nack::verif as nack;
-- 
2.43.0


From 84b48ecbc69539b89a5c2ee1c5b4b3656f55eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:50 +0000
Subject: [PATCH 11/18] fix: do not allocate memory from the fragment count
 claimed by the remote

A single fragment declaring a huge fragment count made the receiver allocate
num_fragments * fragment_size bytes up front, which aborts the process (or panics with a
capacity overflow). Store the fragments that arrived and assemble them on completion.
---
 .../src/channel/fragments/receive.rs          | 45 +++++++------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/crates/transport/transport/src/channel/fragments/receive.rs b/crates/transport/transport/src/channel/fragments/receive.rs
index cb910f1..7bb241c 100644
--- a/crates/transport/transport/src/channel/fragments/receive.rs
+++ b/crates/transport/transport/src/channel/fragments/receive.rs
@@ -1,6 +1,6 @@
 //! Fragment validation, reassembly, and decompression for channel receives.
 
-use alloc::{vec, vec::Vec};
+use alloc::{collections::BTreeMap, vec, vec::Vec};
 use bevy_platform::collections::HashMap;
 
 use crate::channel::receive::ChannelReceiveError;
@@ -123,10 +123,11 @@ impl FragmentReceiver {
 pub struct FragmentConstructor {
     num_fragments: usize,
     fragment_size: usize,
-    num_received_fragments: usize,
-    received: Vec<bool>,
-    // bytes: Bytes,
-    bytes: Vec<u8>,
+    /// Fragments received so far.
+    ///
+    /// `num_fragments` is declared by the remote: memory is only used for data that actually
+    /// arrived, so that a single packet cannot make us allocate an arbitrarily large buffer.
+    fragments: BTreeMap<usize, Vec<u8>>,
 
     tick: Tick,
     compression: Option<FragmentCompression>,
@@ -135,15 +136,13 @@ pub struct FragmentConstructor {
 
 impl FragmentConstructor {
     pub fn new(tick: Tick, num_fragments: usize, fragment_size: usize) -> Result<Self> {
-        let max_message_size = num_fragments
+        num_fragments
             .checked_mul(fragment_size)
             .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
         Ok(Self {
             num_fragments,
             fragment_size,
-            num_received_fragments: 0,
-            received: vec![false; num_fragments],
-            bytes: vec![0; max_message_size],
+            fragments: BTreeMap::new(),
             tick,
             compression: None,
             last_received: None,
@@ -187,30 +186,16 @@ impl FragmentConstructor {
             });
         }
 
-        if !self.received[fragment_index] {
-            self.received[fragment_index] = true;
-            self.num_received_fragments += 1;
-
-            if is_last_fragment {
-                let len = (self.num_fragments - 1)
-                    .checked_mul(self.fragment_size)
-                    .and_then(|len| len.checked_add(bytes.len()))
-                    .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-                self.bytes.resize(len, 0);
-            }
-
-            let start = fragment_index
-                .checked_mul(self.fragment_size)
-                .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-            let end = start
-                .checked_add(bytes.len())
-                .ok_or(ChannelReceiveError::FragmentedMessageSizeOverflow)?;
-            self.bytes[start..end].copy_from_slice(bytes);
+        if !self.fragments.contains_key(&fragment_index) {
+            self.fragments.insert(fragment_index, bytes.to_vec());
         }
 
-        if self.num_received_fragments == self.num_fragments {
+        if self.fragments.len() == self.num_fragments {
             trace!("Received all fragments!");
-            let payload = core::mem::take(&mut self.bytes);
+            let mut payload = vec![];
+            while let Some((_, fragment)) = self.fragments.pop_first() {
+                payload.extend_from_slice(&fragment);
+            }
             return Ok(Some((self.tick, payload.into())));
         }
 
-- 
2.43.0


From 2f28a7d98259e22af872c0dda296f0b574ef8d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 12/18] fix: input delay computation no longer overflows with
 an unlimited prediction window

---
 crates/core/sync/src/timeline/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/sync/src/timeline/input.rs b/crates/core/sync/src/timeline/input.rs
index b54d216..f369f41 100644
--- a/crates/core/sync/src/timeline/input.rs
+++ b/crates/core/sync/src/timeline/input.rs
@@ -393,7 +393,7 @@ impl InputDelayConfig {
         // if we're in lockstep mode, we will take extra margin
         if self.is_lockstep() {
             // TODO: make this configurable!
-            rtt_ticks += 2;
+            rtt_ticks = rtt_ticks.saturating_add(2);
         }
         // if the rtt is lower than the minimum input delay, we will apply the minimum input delay
         if rtt_ticks <= self.minimum_input_delay_ticks {
@@ -405,7 +405,10 @@ impl InputDelayConfig {
         }
         // else, apply input delay up to the maximum input delay, and cover the rest with prediction
         // if not possible, add even more input delay
-        if rtt_ticks <= (self.maximum_predicted_ticks + self.maximum_input_delay_before_prediction)
+        if rtt_ticks
+            <= self
+                .maximum_predicted_ticks
+                .saturating_add(self.maximum_input_delay_before_prediction)
         {
             self.maximum_input_delay_before_prediction
         } else {
-- 
2.43.0


From 42055cb5070db5b11de07226ce94da2947991d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:02 +0000
Subject: [PATCH 13/18] fix: a late pong is not attributed to the newer ping
 stored in the same slot

---
 crates/core/sync/src/ping/store.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/core/sync/src/ping/store.rs b/crates/core/sync/src/ping/store.rs
index 5399544..f851d98 100644
--- a/crates/core/sync/src/ping/store.rs
+++ b/crates/core/sync/src/ping/store.rs
@@ -14,8 +14,8 @@ pub struct PingStore {
     /// ID that will be assigned to the next ping sent
     latest_ping_id: PingId,
     /// Buffer storing the latest pings sent along with their associated time
-    /// Older pings will get overwritten by newer pings
-    buffer: SequenceBuffer<PingId, Instant, PING_BUFFER_SIZE>,
+    /// Older pings will get overwritten by newer pings; the id is kept to tell which ping is stored
+    buffer: SequenceBuffer<PingId, (PingId, Instant), PING_BUFFER_SIZE>,
 }
 
 impl Default for PingStore {
@@ -37,13 +37,17 @@ impl PingStore {
         // save current ping index and add a new ping instant associated with it
         let ping_id = self.latest_ping_id;
         self.latest_ping_id += 1;
-        self.buffer.push(&ping_id, now);
+        self.buffer.push(&ping_id, (ping_id, now));
         ping_id
     }
 
     /// Remove a ping from the store and returns the corresponding time if it exists
     pub fn remove(&mut self, ping_id: PingId) -> Option<Instant> {
-        self.buffer.remove(&ping_id)
+        // a newer ping can have taken the place of the ping that the remote answers
+        if self.buffer.get(&ping_id)?.0 != ping_id {
+            return None;
+        }
+        self.buffer.remove(&ping_id).map(|(_, time)| time)
     }
 
     pub fn reset(&mut self) {
-- 
2.43.0


From 11c0e1acb8d2ca94cde2e56e78e871f95894cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:25 +0000
Subject: [PATCH 14/18] fix: a pong claiming a frame time of 2^31 ticks or more
 no longer panics the receiver

---
 crates/core/core/src/time.rs         | 4 ++++
 crates/core/sync/src/ping/manager.rs | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/core/src/time.rs b/crates/core/core/src/time.rs
index 5385144..7e6ae29 100644
--- a/crates/core/core/src/time.rs
+++ b/crates/core/core/src/time.rs
@@ -451,6 +451,10 @@ impl PositiveTickDelta {
     pub fn overstep(&self) -> Overstep {
         Overstep::new(self.value.wrapping_to_num())
     }
+
+    pub fn to_duration(&self, tick_duration: Duration) -> Duration {
+        tick_duration.mul_f32(self.value.to_num())
+    }
 }
 
 impl From<TickDelta> for PositiveTickDelta {
diff --git a/crates/core/sync/src/ping/manager.rs b/crates/core/sync/src/ping/manager.rs
index 4a82314..a595659 100644
--- a/crates/core/sync/src/ping/manager.rs
+++ b/crates/core/sync/src/ping/manager.rs
@@ -8,7 +8,6 @@ use bevy_reflect::Reflect;
 use bevy_time::{Real, Stopwatch, Time};
 use core::time::Duration;
 use lightyear_core::time::Instant;
-use lightyear_core::time::TickDelta;
 use lightyear_messages::prelude::{MessageReceiver, MessageSender};
 use tracing::{error, trace};
 
@@ -169,7 +168,7 @@ impl PingManager {
 
             // round-trip-delay
             let rtt = received_time.saturating_duration_since(ping_sent_time);
-            let server_process_time = TickDelta::from(pong.frame_time).to_duration(tick_duration);
+            let server_process_time = pong.frame_time.to_duration(tick_duration);
             trace!(?rtt, ?received_time, ?ping_sent_time, ?pong.frame_time,  "process received pong");
             let round_trip_delay = rtt.saturating_sub(server_process_time);
 
-- 
2.43.0


From 37f6ad734b0a452c514379ffc666bab07e2e7bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:59 +0000
Subject: [PATCH 15/18] fix: a zero round-trip estimate clamped every later
 sample to zero

---
 crates/core/sync/src/ping/estimator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/core/sync/src/ping/estimator.rs b/crates/core/sync/src/ping/estimator.rs
index 6267f8e..66856e0 100644
--- a/crates/core/sync/src/ping/estimator.rs
+++ b/crates/core/sync/src/ping/estimator.rs
@@ -80,6 +80,8 @@ impl RttEstimatorEwma {
         if self.samples_processed > 2
             && let Some(prev_srtt_secs) = prev_srtt_secs
             && let Some(prev_rtt_abs_dev_secs) = prev_rtt_abs_dev_secs
+            // every bound below is relative to the estimate: a zero estimate could never grow again
+            && prev_srtt_secs > 0.0
         {
             // Calculate dynamic upper bound based on deviation
             let dev_based_upper_bound =
-- 
2.43.0


From a44c6ace2d3a8dc54123dbb8961849b39dcd6f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:09 +0000
Subject: [PATCH 16/18] fix: disconnecting a stale entity unmapped a peer
 connected through another one

---
 crates/connection/connection/src/client.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index 7283f61..1574b84 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -122,10 +122,11 @@ pub struct Disconnected {
 impl Disconnected {
     fn on_add(mut world: DeferredWorld, context: HookContext) {
         if let Some(peer_id) = world.get::<RemoteId>(context.entity).map(|c| c.0) {
-            world
-                .resource_mut::<NetworkingMetadata>()
-                .peer_map
-                .remove(&peer_id);
+            // the peer can already be connected through another entity
+            let peer_map = &mut world.resource_mut::<NetworkingMetadata>().peer_map;
+            if peer_map.get(&peer_id) == Some(&context.entity) {
+                peer_map.remove(&peer_id);
+            }
         }
         world
             .commands()
-- 
2.43.0


From bd1e91f3ff2505597d6596a96dc0478880b9a1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:03 +0000
Subject: [PATCH 17/18] fix: inserting Linking on a linked entity left both
 link markers

---
 crates/io/link/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/io/link/src/lib.rs b/crates/io/link/src/lib.rs
index 9f0534c..2d2cc2a 100644
--- a/crates/io/link/src/lib.rs
+++ b/crates/io/link/src/lib.rs
@@ -409,6 +409,7 @@ impl Linking {
         // If `Linked` got inserted at the same frame right after `Linking`, we don't want to
         // change the state or remove the `Linked` component.
         if world.get::<Linked>(context.entity).is_some() {
+            world.commands().entity(context.entity).remove::<Linking>();
             return;
         }
         if let Some(mut link) = world.get_mut::<Link>(context.entity) {
-- 
2.43.0


From 5e857edef9027d272efbae57fba8f5c34741d478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:15 +0000
Subject: [PATCH 18/18] fix: a connection challenge can only be answered on the
 link of the client it was sent to

---
 crates/connection/netcode/src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index e8666c8..8a80de5 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -826,6 +826,11 @@ impl<Ctx> Server<Ctx> {
         let Some(client) = self.conn_cache.clients.get(&id) else {
             return Err(Error::UnknownClient(id::PeerId::Netcode(id)));
         };
+        // A challenge can only be answered by the client it was sent to: a response that arrives from
+        // another link (whose own session was used to decrypt it) must not connect this client.
+        if client.entity != entity {
+            return Err(Error::UnknownClient(id::PeerId::Netcode(id)));
+        }
         if client.is_connected() {
             // TODO: most of the time this error can happen because we receive older 'ConnectionResponse' messages
             // even though the client is already connected. Should we just ignore this error?
-- 
2.43.0

