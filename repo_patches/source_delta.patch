From 30dabcf83a2d7f7435ded8ca60c95c66dcf7bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 01/16] fix: reject netcode packets whose prefix claims an
 impossible sequence length

---
 crates/connection/netcode/src/packet.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index 787d03b..a5b9e90 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -574,6 +574,10 @@ impl Packet {
             // should at least have prefix byte, sequence and mac
             return Err(Error::TooSmall.into());
         }
+        if !(1..=size_of::<u64>()).contains(&sequence_len) {
+            // the length comes from the unauthenticated prefix byte
+            return Err(Error::InvalidSequenceBytes(sequence_len as u8).into());
+        }
         let sequence = cursor.read_sequence(sequence_len)?;
 
         // Replay protection
-- 
2.43.0


From e3da5a54a3f12a03247ac50c14f59b2f4449c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 02/16] fix: drop netcode packets of a kind the receiver does
 not accept

---
 crates/connection/netcode/src/packet.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/packet.rs b/crates/connection/netcode/src/packet.rs
index a5b9e90..f87b6ae 100644
--- a/crates/connection/netcode/src/packet.rs
+++ b/crates/connection/netcode/src/packet.rs
@@ -560,8 +560,9 @@ impl Packet {
         let mut cursor = io::Cursor::new(buf);
         let prefix_byte = cursor.read_u8()?;
         let (sequence_len, pkt_kind) = Packet::get_prefix(prefix_byte);
-        if allowed_packets & (1 << pkt_kind) == 0 {
+        if pkt_kind > Packet::DISCONNECT || allowed_packets & (1 << pkt_kind) == 0 {
             debug!("ignoring packet of type {}, not allowed", pkt_kind);
+            return Err(Error::InvalidType(pkt_kind).into());
         }
         if prefix_byte == Packet::REQUEST {
             // connection request packet: first byte should be 0x00
-- 
2.43.0


From 7ed5fea1a3974caf5cf73ea994978567392f13fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 03/16] fix: avoid overflow on unauthenticated sequence numbers
 in replay protection

---
 crates/connection/netcode/src/replay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/replay.rs b/crates/connection/netcode/src/replay.rs
index 44bcd4c..bf8964a 100644
--- a/crates/connection/netcode/src/replay.rs
+++ b/crates/connection/netcode/src/replay.rs
@@ -24,7 +24,7 @@ impl ReplayProtection {
     }
 
     pub fn is_already_received(&self, sequence: u64) -> bool {
-        if sequence + self.received_packet.len() as u64 <= self.most_recent_sequence {
+        if sequence.saturating_add(self.received_packet.len() as u64) <= self.most_recent_sequence {
             return true;
         }
 
-- 
2.43.0


From 48b86797d32a3bd5d83945086c9657b0b79d470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 04/16] fix: netcode server must not surface payloads of
 clients that are not connected

---
 crates/connection/netcode/src/server.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index ae5b8b8..4412551 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -571,8 +571,12 @@ impl<Ctx> Server<Ctx> {
                 Ok(None)
             }
             Packet::Payload(packet) => {
-                if let Some(client_id) =
-                    self.conn_cache.find_by_entity(&entity).map(|c| c.client_id)
+                // a client that has not answered the challenge is not connected yet
+                if let Some(client_id) = self
+                    .conn_cache
+                    .find_by_entity(&entity)
+                    .filter(|c| c.is_connected())
+                    .map(|c| c.client_id)
                 {
                     self.touch_client(client_id);
                     Ok(Some(packet.into_recv()))
-- 
2.43.0


From 7adc1da086dd652279ff86f56ad6cdafe6d62e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:28 +0000
Subject: [PATCH 05/16] fix: forget a netcode client whose handshake is
 cancelled by a disconnect packet

---
 crates/connection/netcode/src/server.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 4412551..2989eb2 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -181,9 +181,6 @@ impl ConnectionCache {
         let Some(conn) = self.clients.get(&client_id) else {
             return;
         };
-        if !conn.is_connected() {
-            return;
-        }
         self.client_id_map.remove(&conn.entity);
         self.replay_protection.remove(&client_id);
         self.clients.remove(&client_id);
-- 
2.43.0


From 2f0897ca43bd6bffd5b1819f89b98e408a12e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:19 +0000
Subject: [PATCH 06/16] fix: keep the netcode client tables consistent when a
 pending link or identity changes

---
 crates/connection/netcode/src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/connection/netcode/src/server.rs b/crates/connection/netcode/src/server.rs
index 2989eb2..2f97f11 100644
--- a/crates/connection/netcode/src/server.rs
+++ b/crates/connection/netcode/src/server.rs
@@ -148,8 +148,13 @@ impl ConnectionCache {
         user_data: [u8; USER_DATA_BYTES],
     ) {
         let time = self.time;
+        if let Some(&pending_id) = self.client_id_map.get(&entity)
+            && pending_id != client_id
+        {
+            // the link gave up on its previous handshake and now presents another identity
+            self.remove(pending_id);
+        }
         if let Some(existing) = self.mut_by_entity(&entity) {
-            existing.client_id = client_id;
             existing.timeout = timeout;
             existing.send_key = send_key;
             existing.receive_key = receive_key;
@@ -157,6 +162,8 @@ impl ConnectionCache {
             existing.user_data = user_data;
             return;
         }
+        // the same identity might be pending on another link
+        self.remove(client_id);
         let conn = Connection {
             confirmed: false,
             connected: false,
-- 
2.43.0


From 5878403b057ad81d5eaa4cc9e5fc52995718068a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:14 +0000
Subject: [PATCH 07/16] fix: a packet that cannot be processed must not discard
 the packets received after it

---
 crates/transport/transport/src/plugin.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/crates/transport/transport/src/plugin.rs b/crates/transport/transport/src/plugin.rs
index fd0d770..eeaab6f 100644
--- a/crates/transport/transport/src/plugin.rs
+++ b/crates/transport/transport/src/plugin.rs
@@ -105,9 +105,11 @@ impl TransportPlugin {
                 .for_each(|channel_receive| {
                     channel_receive.update(time.elapsed());
                 });
+            // Packets are independent: a packet that cannot be processed must not discard the
+            // packets received after it.
             link.recv
                 .drain()
-                .try_for_each(|packet| {
+                .map(|packet| {
                     let packet_len = packet.len();
                     #[cfg(feature = "metrics")]
                     metrics::gauge!("transport/recv_bytes").increment(packet_len as f64);
@@ -280,10 +282,11 @@ impl TransportPlugin {
                     }
                     Ok::<(), TransportError>(())
                 })
-                .inspect_err(|e| {
-                    error!("Error processing packet: {e:?}");
-                })
-                .ok();
+                .for_each(|result| {
+                    if let Err(e) = result {
+                        error!("Error processing packet: {e:?}");
+                    }
+                });
 
             // Consume ACKs already queued for this frame before expiring packets. Otherwise a
             // packet can lose its message-ACK mapping immediately before its ACK is processed.
-- 
2.43.0


From dbd231137201dcf62e8c5db047119092099f0e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:15 +0000
Subject: [PATCH 08/16] fix: one message that cannot be sent no longer drops or
 corrupts the messages queued after it

---
 crates/transport/messages/src/multi.rs        |  16 +-
 crates/transport/messages/src/send.rs         |  10 +-
 crates/transport/messages/src/send_trigger.rs | 156 ++++++++++--------
 3 files changed, 104 insertions(+), 78 deletions(-)

diff --git a/crates/transport/messages/src/multi.rs b/crates/transport/messages/src/multi.rs
index b235c0f..04e0df3 100644
--- a/crates/transport/messages/src/multi.rs
+++ b/crates/transport/messages/src/multi.rs
@@ -39,6 +39,8 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
         let metric_handles = self.registry.metric_handles(&MessageKind::of::<M>())?;
         // if the message is not map-entities, we can serialize it once and clone the bytes
         if !self.registry.is_map_entities::<M>()? {
+            // discard the bytes of a previous message that could not be serialized
+            self.writer.take_written();
             // TODO: serialize once for all senders. Figure out how to get a shared writer. Maybe on Server? Or as a global resource?
             //   or as Local?
             self.registry.serialize::<M>(
@@ -50,15 +52,19 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
             let bytes_len = bytes.len();
             self.query
                 .iter_many_unique_mut(senders)
-                .try_for_each(|(_, transport)| {
+                .map(|(_, transport)| {
                     #[cfg(feature = "metrics")]
                     metric_handles.record_send::<M>(bytes_len);
                     transport.send_with_priority::<C>(bytes.clone(), priority)
-                })?;
+                })
+                // an error for one recipient does not skip the recipients after it
+                .fold(Ok(()), Result::and)?;
         } else {
             self.query
                 .iter_many_unique_mut(senders)
-                .try_for_each(|(mut manager, transport)| {
+                .map(|(mut manager, transport)| {
+                    // discard the bytes of a previous message that could not be serialized
+                    self.writer.take_written();
                     self.registry.serialize::<M>(
                         message,
                         &mut self.writer,
@@ -70,7 +76,9 @@ impl<'w, 's, F: QueryFilter> MultiMessageSender<'w, 's, F> {
                     metric_handles.record_send::<M>(bytes.len());
                     transport.send_with_priority::<C>(bytes, priority)?;
                     Ok::<(), BevyError>(())
-                })?;
+                })
+                // an error for one recipient does not skip the recipients after it
+                .fold(Ok(()), Result::and)?;
         }
         Ok::<(), _>(())
     }
diff --git a/crates/transport/messages/src/send.rs b/crates/transport/messages/src/send.rs
index 83a5488..0c033dc 100644
--- a/crates/transport/messages/src/send.rs
+++ b/crates/transport/messages/src/send.rs
@@ -133,7 +133,9 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, priority)| {
+            .map(|(message, channel_kind, channel_name, priority)| {
+                // discard the bytes of a previous message that could not be serialized
+                sender.writer.take_written();
                 // we write the message NetId, and then serialize the message
                 net_id.to_bytes(&mut sender.writer)?;
                 // SAFETY: the message has been checked to be of type `M`.
@@ -168,6 +170,8 @@ impl<M: Message> MessageSender<M> {
                 transport.send_erased(channel_kind, bytes, priority)?;
                 Ok(())
             })
+            // an error on one message does not drop the messages queued after it
+            .fold(Ok(()), Result::and)
     }
 
     /// Take all messages from the [`MessageSender<M>`], and add them to
@@ -193,7 +197,7 @@ impl<M: Message> MessageSender<M> {
         sender
             .send
             .drain(..)
-            .try_for_each(|(message, channel_kind, channel_name, _priority)| {
+            .map(|(message, channel_kind, channel_name, _priority)| {
                 trace!(
                     "Send local message of type {:?} on channel {:?}",
                     DebugName::type_name::<M>(),
@@ -252,6 +256,8 @@ impl<M: Message> MessageSender<M> {
                     )
                 }
             })
+            // an error on one message does not drop the messages queued after it
+            .fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
diff --git a/crates/transport/messages/src/send_trigger.rs b/crates/transport/messages/src/send_trigger.rs
index d645073..36bd4d5 100644
--- a/crates/transport/messages/src/send_trigger.rs
+++ b/crates/transport/messages/src/send_trigger.rs
@@ -58,31 +58,38 @@ impl<M: Event> EventSender<M> {
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
         // enable split borrows
         let sender = &mut *sender;
-        sender.send.drain(..).try_for_each(|pending| {
-            let PendingEvent {
-                event,
-                channel_kind,
-                priority,
-            } = pending;
-            // we write the message NetId, and then serialize the message
-            net_id.to_bytes(&mut sender.writer)?;
-            // SAFETY: the message has been checked to be of type `M`.
-            unsafe {
-                serialize_metadata.serialize::<SendEntityMap, M, M>(
-                    &event,
-                    &mut sender.writer,
-                    entity_map,
-                )?
-            };
-            let bytes = sender.writer.take_written();
-            trace!(
-                "Sending message of type {:?} with net_id {net_id:?} on channel {:?}",
-                DebugName::type_name::<M>(),
-                channel_kind
-            );
-            transport.send_erased(channel_kind, bytes, priority)?;
-            Ok(())
-        })
+        sender
+            .send
+            .drain(..)
+            .map(|pending| {
+                // discard the bytes of a previous event that could not be serialized
+                sender.writer.take_written();
+                let PendingEvent {
+                    event,
+                    channel_kind,
+                    priority,
+                } = pending;
+                // we write the message NetId, and then serialize the message
+                net_id.to_bytes(&mut sender.writer)?;
+                // SAFETY: the message has been checked to be of type `M`.
+                unsafe {
+                    serialize_metadata.serialize::<SendEntityMap, M, M>(
+                        &event,
+                        &mut sender.writer,
+                        entity_map,
+                    )?
+                };
+                let bytes = sender.writer.take_written();
+                trace!(
+                    "Sending message of type {:?} with net_id {net_id:?} on channel {:?}",
+                    DebugName::type_name::<M>(),
+                    channel_kind
+                );
+                transport.send_erased(channel_kind, bytes, priority)?;
+                Ok(())
+            })
+            // an error on one event does not drop the events queued after it
+            .fold(Ok(()), Result::and)
     }
 
     // TODO: maybe we don't need this, it's identical to sending a message
@@ -103,56 +110,61 @@ impl<M: Event> EventSender<M> {
     ) -> Result<(), MessageError> {
         // SAFETY:  the `trigger_sender` must be of type `EventSender<M>`
         let mut sender = unsafe { trigger_sender.with_type::<Self>() };
-        sender.send.drain(..).try_for_each(|pending| {
-            let target_timeline = channel_registry
-                .settings(pending.channel_kind)
-                .and_then(|settings| settings.timeline);
-            if let Some(target_timeline) = target_timeline {
-                let timeline_metadata = timeline_registry
-                    .get(&target_timeline)
-                    .ok_or(MessageError::TimelineNotRegistered(target_timeline))?;
-                let timeline_ptr = receivers
-                    .get_by_id(timeline_metadata.component_id())
-                    .ok_or(MessageError::MissingTimeline(target_timeline))?;
-                // SAFETY: the metadata is registered with this timeline component id.
-                let current_tick = unsafe { timeline_metadata.tick(timeline_ptr) };
-                let delta = tick - current_tick;
-                if delta > 0 && delta as u32 > MAX_TIMELINE_LAG_TICKS {
-                    return Err(MessageError::TimelineTooFarBehind {
-                        target: tick,
-                        current: current_tick,
-                        max_lag_ticks: MAX_TIMELINE_LAG_TICKS,
-                    });
+        sender
+            .send
+            .drain(..)
+            .map(|pending| {
+                let target_timeline = channel_registry
+                    .settings(pending.channel_kind)
+                    .and_then(|settings| settings.timeline);
+                if let Some(target_timeline) = target_timeline {
+                    let timeline_metadata = timeline_registry
+                        .get(&target_timeline)
+                        .ok_or(MessageError::TimelineNotRegistered(target_timeline))?;
+                    let timeline_ptr = receivers
+                        .get_by_id(timeline_metadata.component_id())
+                        .ok_or(MessageError::MissingTimeline(target_timeline))?;
+                    // SAFETY: the metadata is registered with this timeline component id.
+                    let current_tick = unsafe { timeline_metadata.tick(timeline_ptr) };
+                    let delta = tick - current_tick;
+                    if delta > 0 && delta as u32 > MAX_TIMELINE_LAG_TICKS {
+                        return Err(MessageError::TimelineTooFarBehind {
+                            target: tick,
+                            current: current_tick,
+                            max_lag_ticks: MAX_TIMELINE_LAG_TICKS,
+                        });
+                    }
                 }
-            }
 
-            let metadata = registry
-                .receive_trigger
-                .get(&MessageKind::of::<M>())
-                .ok_or(MessageError::UnrecognizedMessage(MessageKind::of::<M>()))?;
-            let PendingEvent {
-                event,
-                channel_kind,
-                priority: _,
-            } = pending;
-            let mut event = Some(event);
-            let receiver_entity = receivers.id();
-            let receiver = receivers.get_mut_by_id(metadata.component_id);
-            // SAFETY: the callback and pending component id are registered for `M`.
-            unsafe {
-                (metadata.receive_local_trigger_fn)(
-                    receiver,
-                    commands,
-                    receiver_entity,
-                    &mut event,
-                    PeerId::Local(0),
-                    tick,
+                let metadata = registry
+                    .receive_trigger
+                    .get(&MessageKind::of::<M>())
+                    .ok_or(MessageError::UnrecognizedMessage(MessageKind::of::<M>()))?;
+                let PendingEvent {
+                    event,
                     channel_kind,
-                    None,
-                    target_timeline,
-                )
-            }
-        })
+                    priority: _,
+                } = pending;
+                let mut event = Some(event);
+                let receiver_entity = receivers.id();
+                let receiver = receivers.get_mut_by_id(metadata.component_id);
+                // SAFETY: the callback and pending component id are registered for `M`.
+                unsafe {
+                    (metadata.receive_local_trigger_fn)(
+                        receiver,
+                        commands,
+                        receiver_entity,
+                        &mut event,
+                        PeerId::Local(0),
+                        tick,
+                        channel_kind,
+                        None,
+                        target_timeline,
+                    )
+                }
+            })
+            // an error on one event does not drop the events queued after it
+            .fold(Ok(()), Result::and)
     }
 
     pub fn on_add_hook(mut world: DeferredWorld, context: HookContext) {
-- 
2.43.0


From e889704318a024297d007150d7ee11c8991d5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:24 +0000
Subject: [PATCH 09/16] fix: server UDP receive ran in an unspecified order
 relative to the link conditioner

---
 crates/io/udp/src/server.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/io/udp/src/server.rs b/crates/io/udp/src/server.rs
index b459c05..05f73ef 100644
--- a/crates/io/udp/src/server.rs
+++ b/crates/io/udp/src/server.rs
@@ -24,7 +24,9 @@ use core::net::SocketAddr;
 use lightyear_core::buffer_pool::BufferPool;
 use lightyear_core::time::Instant;
 use lightyear_link::prelude::{LinkOf, Server};
-use lightyear_link::{Link, LinkPlugin, LinkStart, LinkSystems, Linked, Linking, Unlink, Unlinked};
+use lightyear_link::{
+    Link, LinkPlugin, LinkReceiveSystems, LinkStart, LinkSystems, Linked, Linking, Unlink, Unlinked,
+};
 
 /// Maximum UDP payload size used by this transport.
 ///
@@ -300,7 +302,10 @@ impl Plugin for ServerUdpPlugin {
         }
         app.add_observer(Self::link);
         app.add_observer(Self::unlink);
-        app.add_systems(PreUpdate, Self::receive.in_set(LinkSystems::Receive));
+        app.add_systems(
+            PreUpdate,
+            Self::receive.in_set(LinkReceiveSystems::BufferToLink),
+        );
         app.add_systems(PostUpdate, Self::send.in_set(LinkSystems::Send));
     }
 }
-- 
2.43.0


From d78758a5e9cce1bdc1d422bbd2a2db84aa8264f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:05 +0000
Subject: [PATCH 10/16] fix: entering Connected left Disconnecting in place, so
 a connection could be in two states

---
 crates/connection/connection/src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index 7283f61..2dec4e5 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -61,7 +61,7 @@ impl Connected {
         world
             .commands()
             .entity(context.entity)
-            .remove::<(Connecting, Disconnected)>();
+            .remove::<(Connecting, Disconnecting, Disconnected)>();
         if let Some(mut metadata) = world.get_resource_mut::<NetworkingMetadata>() {
             metadata.peer_map.insert(peer_id, context.entity);
         }
-- 
2.43.0


From 61aaaf5eee3879a3caaf227df855bae07988f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:05 +0000
Subject: [PATCH 11/16] fix: disconnecting an entity forgot the peer mapping of
 another entity with the same peer id

---
 crates/connection/connection/src/client.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/connection/connection/src/client.rs b/crates/connection/connection/src/client.rs
index 2dec4e5..507d514 100644
--- a/crates/connection/connection/src/client.rs
+++ b/crates/connection/connection/src/client.rs
@@ -122,10 +122,12 @@ pub struct Disconnected {
 impl Disconnected {
     fn on_add(mut world: DeferredWorld, context: HookContext) {
         if let Some(peer_id) = world.get::<RemoteId>(context.entity).map(|c| c.0) {
-            world
-                .resource_mut::<NetworkingMetadata>()
-                .peer_map
-                .remove(&peer_id);
+            let peer_map = &mut world.resource_mut::<NetworkingMetadata>().peer_map;
+            // the peer id can be shared with another entity (for example `PeerId::Server`):
+            // only forget the mapping if it is ours
+            if peer_map.get(&peer_id) == Some(&context.entity) {
+                peer_map.remove(&peer_id);
+            }
         }
         world
             .commands()
-- 
2.43.0


From 2ff7b169127164380afd779686b4a4b63183d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:45 +0000
Subject: [PATCH 12/16] fix: do not reserve memory for a length announced by
 the remote

The collections read a varint length and reserved that many elements before
reading any of them, so that a few bytes could abort or panic the receiver
(capacity overflow). Reserve at most one element per byte left to read.
---
 crates/transport/serde/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/transport/serde/src/lib.rs b/crates/transport/serde/src/lib.rs
index 13dc1d1..ddea164 100644
--- a/crates/transport/serde/src/lib.rs
+++ b/crates/transport/serde/src/lib.rs
@@ -219,7 +219,8 @@ impl<M: ToBytes> ToBytes for Vec<M> {
     {
         let len = buffer.read_varint()? as usize;
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut vec = Vec::with_capacity(len);
+        // the length comes from the remote: do not reserve more than what could be received
+        let mut vec = Vec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             vec.push(M::from_bytes(buffer)?);
         }
@@ -249,7 +250,7 @@ where
         Self: Sized,
     {
         let len = buffer.read_varint()? as usize;
-        let mut values = SmallVec::with_capacity(len);
+        let mut values = SmallVec::with_capacity(len.min(buffer.remaining()));
         for _ in 0..len {
             values.push(A::Item::from_bytes(buffer)?);
         }
@@ -282,7 +283,7 @@ impl<K: ToBytes + Eq + Hash, V: ToBytes, S: Default + BuildHasher> ToBytes for H
     {
         let len = buffer.read_varint()? as usize;
         // TODO: if we know the MIN_LEN we can preallocate
-        let mut res = HashMap::with_capacity_and_hasher(len, S::default());
+        let mut res = HashMap::with_capacity_and_hasher(len.min(buffer.remaining()), S::default());
         for _ in 0..len {
             let key = K::from_bytes(buffer)?;
             let value = V::from_bytes(buffer)?;
-- 
2.43.0


From 4dc827c9a678c7651b632f8ab5a81054b1f4a84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:42 +0000
Subject: [PATCH 13/16] fix: a received frame time of 2^31 ticks or more must
 not turn negative

The frame time of a pong comes from the remote; converting it to a signed
delta wrapped around, and the negative delta then panicked in
Duration::mul_f32 while computing the round-trip time.
---
 crates/core/core/src/time.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/core/core/src/time.rs b/crates/core/core/src/time.rs
index 5385144..27e6ad4 100644
--- a/crates/core/core/src/time.rs
+++ b/crates/core/core/src/time.rs
@@ -271,7 +271,7 @@ impl From<i32> for TickDelta {
 impl From<PositiveTickDelta> for TickDelta {
     fn from(value: PositiveTickDelta) -> Self {
         Self {
-            value: value.value.wrapping_to_fixed(),
+            value: value.value.saturating_to_fixed(),
         }
     }
 }
-- 
2.43.0


From c1b48860a11df4fdb079f6f726e5a307c94ac08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:37 +0000
Subject: [PATCH 14/16] fix: a jitter of less than a millisecond must not panic
 the link conditioner

The jitter is sampled in whole milliseconds from -jitter..jitter, which is an
empty range (a panic) when the configured jitter is positive but below one
millisecond, as half() of a 1 ms jitter is.
---
 crates/io/link/src/conditioner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/io/link/src/conditioner.rs b/crates/io/link/src/conditioner.rs
index 2ae8c00..326e733 100644
--- a/crates/io/link/src/conditioner.rs
+++ b/crates/io/link/src/conditioner.rs
@@ -172,8 +172,8 @@ impl<P: Eq> LinkConditioner<P> {
 
         let mut latency: i32 = self.config.incoming_latency.as_millis() as i32;
         let mut packet_timestamp = instant;
-        if self.config.incoming_jitter > Duration::default() {
-            let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        let jitter: i32 = self.config.incoming_jitter.as_millis() as i32;
+        if jitter > 0 {
             latency += rng.random_range(-jitter..jitter);
         }
         if latency > 0 {
-- 
2.43.0


From 8765c3afbfebce68962886792d2fa7d9bb7a61fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:16 +0000
Subject: [PATCH 15/16] fix: an error in the other direction starts a new
 streak before the speed is adjusted

---
 crates/core/sync/src/timeline/sync.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/sync/src/timeline/sync.rs b/crates/core/sync/src/timeline/sync.rs
index a3260cf..50ee91f 100644
--- a/crates/core/sync/src/timeline/sync.rs
+++ b/crates/core/sync/src/timeline/sync.rs
@@ -259,6 +259,10 @@ impl SyncContext {
             self.consecutive_errors = 0;
             SyncAdjustment::Resync
         } else if offset.abs() > config.error_margin {
+            // an error in the other direction starts a new streak
+            if current_error_sign != previous_error_sign {
+                self.consecutive_errors = 0;
+            }
             self.consecutive_errors = self.consecutive_errors.saturating_add(1);
             // skip if we haven't seen enough consecutive errors in the same direction
             if (current_error_sign ^ previous_error_sign)
-- 
2.43.0


From 9a4b631aa83e05ef7f55890471fbd754ce76d91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:39 +0000
Subject: [PATCH 16/16] fix: a large prediction window must not overflow the
 input delay

---
 crates/core/sync/src/timeline/input.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/core/sync/src/timeline/input.rs b/crates/core/sync/src/timeline/input.rs
index 653fd76..33295c8 100644
--- a/crates/core/sync/src/timeline/input.rs
+++ b/crates/core/sync/src/timeline/input.rs
@@ -393,7 +393,7 @@ impl InputDelayConfig {
         // if we're in lockstep mode, we will take extra margin
         if self.is_lockstep() {
             // TODO: make this configurable!
-            rtt_ticks += 2;
+            rtt_ticks = rtt_ticks.saturating_add(2);
         }
         // if the rtt is lower than the minimum input delay, we will apply the minimum input delay
         if rtt_ticks <= self.minimum_input_delay_ticks {
@@ -405,7 +405,10 @@ impl InputDelayConfig {
         }
         // else, apply input delay up to the maximum input delay, and cover the rest with prediction
         // if not possible, add even more input delay
-        if rtt_ticks <= (self.maximum_predicted_ticks + self.maximum_input_delay_before_prediction)
+        if rtt_ticks
+            <= self
+                .maximum_predicted_ticks
+                .saturating_add(self.maximum_input_delay_before_prediction)
         {
             self.maximum_input_delay_before_prediction
         } else {
-- 
2.43.0

