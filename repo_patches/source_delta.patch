From 18c25afab42717d42924ffde3f2cda5da13bf5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 01/36] fix: take the nonce from the final packet of a group,
 not the last to arrive

With an encrypting wire, packets arriving out of order (final packet not last)
failed with MissingNonce and the message was lost.
---
 src/core/transport/wire/input/decoder.rs | 10 +++++++++-
 src/core/transport/wire/input/mod.rs     |  5 ++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index 9807414..f808d96 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -1,4 +1,4 @@
-use crate::core::transport::{constants, wire::packet::Packet};
+use crate::core::transport::{constants, crypto::Nonce, wire::packet::Packet};
 use crate::utils::TtlValue;
 use derive_more::{Display, Error};
 use std::collections::HashMap;
@@ -131,6 +131,14 @@ impl Decoder {
             .unwrap_or_default()
     }
 
+    /// Retrieves the nonce carried by the final packet of the group, if the
+    /// packet has been added and has one
+    pub fn nonce(&self, group_id: u32) -> Option<Nonce> {
+        let group = self.packet_groups.get(&group_id.into())?;
+        let final_packet = group.packets.get(&group.final_index?)?;
+        final_packet.nonce().cloned()
+    }
+
     /// Reconstructs the data represented by the packets
     /// NOTE: This currently produces a copy of all data instead of passing
     ///       back out ownership
diff --git a/src/core/transport/wire/input/mod.rs b/src/core/transport/wire/input/mod.rs
index 3d53473..7c0687a 100644
--- a/src/core/transport/wire/input/mod.rs
+++ b/src/core/transport/wire/input/mod.rs
@@ -59,7 +59,6 @@ where
         }
 
         let group_id = p.id();
-        let nonce = p.nonce().cloned();
 
         // Ensure that packet groups are still valid
         self.decoder.remove_expired();
@@ -67,6 +66,10 @@ where
         // Add the packet, see if we are ready to decode the data, and do so
         let do_decode = add_packet_and_verify(&mut self.decoder, p)?;
         if do_decode {
+            // Only the final packet carries the nonce, and it is not
+            // necessarily the last of the group to arrive
+            let nonce = self.decoder.nonce(group_id);
+
             // Gather the complete data
             let data = decode_and_decrypt(
                 group_id,
-- 
2.43.0


From 230c4cd6e3757a4c8700b80301b3360e8f34ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 02/36] fix: never treat a packet group with gaps as complete

A final packet was accepted although packets with higher indexes had already
been received, so counting packets could report a group with missing indexes
as complete. The largest possible final index overflowed the count.
---
 src/core/transport/wire/input/decoder.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/input/decoder.rs b/src/core/transport/wire/input/decoder.rs
index f808d96..e9b55b2 100644
--- a/src/core/transport/wire/input/decoder.rs
+++ b/src/core/transport/wire/input/decoder.rs
@@ -100,6 +100,19 @@ impl Decoder {
             return Err(DecoderError::PacketBeyondLastIndex { id, index });
         }
 
+        // Check if we are adding a final packet that precedes packets that we
+        // already have, meaning that those packets are beyond the final one
+        if is_final {
+            if let Some(beyond) =
+                group.packets.keys().cloned().find(|i| *i > index)
+            {
+                return Err(DecoderError::PacketBeyondLastIndex {
+                    id,
+                    index: beyond,
+                });
+            }
+        }
+
         // Add the packet to our group and, if it's final, mark it
         group.packets.insert(index, packet);
         if is_final {
@@ -125,8 +138,8 @@ impl Decoder {
         self.packet_groups
             .get(&group_id.into())
             .and_then(|g| {
-                let total_packets = g.packets.len() as u32;
-                g.final_index.map(|i| i + 1 == total_packets)
+                let total_packets = g.packets.len() as u64;
+                g.final_index.map(|i| u64::from(i) + 1 == total_packets)
             })
             .unwrap_or_default()
     }
-- 
2.43.0


From ac5724887757bc3271895f05d0e1ce93508368a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:53 +0000
Subject: [PATCH 03/36] fix: check and mark a nonce as used under one lock

Two threads could both find a nonce unused before either marked it, so one
nonce was accepted twice.
---
 src/core/transport/crypto/nonce/cache.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 0b542f0..7757e89 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -34,12 +34,16 @@ impl<T: Bicrypter> NonceCacheBicrypter<T> {
     ) -> Result<&'a [u8], CryptError> {
         if let Some(cache) = &self.cache {
             let nonce_vec = nonce.to_vec();
-            if cache.read().unwrap().contains(&nonce_vec) {
+
+            // NOTE: Checking and marking must happen under a single lock,
+            //       otherwise two threads could both use the same nonce
+            let mut cache = cache.write().unwrap();
+            if cache.contains(&nonce_vec) {
                 return Err(CryptError::NonceAlreadyUsed { nonce: nonce_vec });
             }
 
             // Mark that we have used the nonce
-            cache.write().unwrap().put(nonce_vec, ());
+            cache.put(nonce_vec, ());
         }
 
         Ok(nonce)
-- 
2.43.0


From 1761ebe7f1db382538f424ac3e1c4b6b5e2055ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 04/36] fix: keep every packet within the transmission size

The data size of packets was found from the size of a single sample packet, but
the serialized size of a signature depends on its value, so real packets could
be larger than the transmission size and were cut off by the receiver.
---
 src/core/transport/wire/output/encoder.rs | 54 +++++++++++++++--------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index 5bd8d70..c30e89f 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -107,24 +107,42 @@ impl Encoder {
             };
 
             // Ensure data section size does not exceed our remaining data
-            let data_size = std::cmp::min(data_size, remaining_data_size);
-
-            // Grab our chunk of data to store into a packet
-            let chunk = &data[i..i + data_size];
-
-            // Construct the packet based on whether or not is final
-            let packet = Self::make_new_packet(
-                id,
-                packets.len() as u32,
-                if can_fit_all_in_final_packet {
-                    PacketType::Final { encryption }
-                } else {
-                    PacketType::NotFinal
-                },
-                chunk,
-                signer,
-            )
-            .map_err(|_| EncoderError::FailedToSignPacket)?;
+            let mut data_size = std::cmp::min(data_size, remaining_data_size);
+
+            // NOTE: The size of a signature when serialized depends on its
+            //       value, so the data size found above is only an estimate;
+            //       if the packet ends up too big, move the excess into the
+            //       packets that follow
+            let packet = loop {
+                // Grab our chunk of data to store into a packet
+                let chunk = &data[i..i + data_size];
+
+                // Construct the packet based on whether or not is final
+                let packet = Self::make_new_packet(
+                    id,
+                    packets.len() as u32,
+                    if i + data_size == data.len() {
+                        PacketType::Final { encryption }
+                    } else {
+                        PacketType::NotFinal
+                    },
+                    chunk,
+                    signer,
+                )
+                .map_err(|_| EncoderError::FailedToSignPacket)?;
+
+                let overflow_size = packet
+                    .to_vec()
+                    .map_err(|_| EncoderError::FailedToEstimateDataSize)?
+                    .len()
+                    .saturating_sub(max_packet_size);
+                if overflow_size == 0 {
+                    break packet;
+                } else if overflow_size >= data_size {
+                    return Err(EncoderError::MaxPacketSizeTooSmall);
+                }
+                data_size -= overflow_size;
+            };
 
             // Store packet in our collection
             packets.push(packet);
-- 
2.43.0


From 0d6fd52c66a7ec1d439e4de596f2e6eb59c0b42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:37 +0000
Subject: [PATCH 05/36] fix: do not cache packet sizes per nonce

A nonce is used for a single message, so the caches of an encrypting wire grew
with every message sent and were never of use.
---
 src/core/transport/wire/output/encoder.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/output/encoder.rs b/src/core/transport/wire/output/encoder.rs
index c30e89f..19eab08 100644
--- a/src/core/transport/wire/output/encoder.rs
+++ b/src/core/transport/wire/output/encoder.rs
@@ -230,7 +230,12 @@ impl Encoder {
         }
 
         // Cache our best size for the data section given max packet size
-        self.max_data_size_cache.insert(key, best_data_size);
+        //
+        // NOTE: A nonce is only used once, so caching anything based on it
+        //       would never be of use again
+        if r#type.nonce().is_none() {
+            self.max_data_size_cache.insert(key, best_data_size);
+        }
         Ok(best_data_size)
     }
 
@@ -271,7 +276,12 @@ impl Encoder {
         .len();
 
         // Cache the calculated size and return it
-        self.packet_size_cache.insert(key, packet_size);
+        //
+        // NOTE: A nonce is only used once, so caching anything based on it
+        //       would never be of use again
+        if r#type.nonce().is_none() {
+            self.packet_size_cache.insert(key, packet_size);
+        }
         Ok(packet_size)
     }
 }
-- 
2.43.0


From 36218446515242642e6a3fbdd8abd6d75188c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 06/36] fix: read packets from TCP as a stream of bytes

A read from a TCP stream was taken to be exactly one packet, so packets that
were coalesced, split or only partly written were lost. Reading zero bytes
(the connection is closed) now ends the connection instead of being retried
forever.
---
 src/core/transport/wire/tcp.rs | 71 +++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 14 deletions(-)

diff --git a/src/core/transport/wire/tcp.rs b/src/core/transport/wire/tcp.rs
index a6c2355..77c6787 100644
--- a/src/core/transport/wire/tcp.rs
+++ b/src/core/transport/wire/tcp.rs
@@ -2,6 +2,7 @@ use super::{
     auth, crypto, Authenticator, Bicrypter, Decrypter, Encrypter, InboundWire,
     InboundWireError, OutboundWire, OutboundWireError, Signer, Verifier, Wire,
 };
+use serde::de::{Deserialize, IgnoredAny};
 use std::net::SocketAddr;
 use tokio::{
     io::{self, AsyncReadExt, AsyncWriteExt, ReadHalf, WriteHalf},
@@ -86,6 +87,10 @@ where
     inbound_wire: InboundWire<V, D>,
     stream: ReadHalf<TcpStream>,
     remote_addr: SocketAddr,
+
+    /// Bytes received that have yet to be processed as they do not form
+    /// a complete packet or come after another packet
+    buffer: Vec<u8>,
 }
 
 impl<V, D> TcpStreamInboundWire<V, D>
@@ -102,25 +107,66 @@ where
             inbound_wire,
             stream,
             remote_addr,
+            buffer: Vec::new(),
         }
     }
 
+    /// Reads the next packet from the stream and processes it
+    ///
+    /// NOTE: TCP is a stream of bytes that does not maintain boundaries, so
+    ///       what is received can be part of a packet or more than one packet
     pub async fn read(
         &mut self,
     ) -> Result<(Option<Vec<u8>>, SocketAddr), InboundWireError> {
-        let mut buf =
-            vec![0; self.inbound_wire.transmission_size()].into_boxed_slice();
-        let size = self
-            .stream
-            .read(&mut buf)
-            .await
-            .map_err(InboundWireError::IO)?;
-        let data = self.inbound_wire.process(&buf[..size])?;
+        let transmission_size = self.inbound_wire.transmission_size();
+
+        let packet_size = loop {
+            match next_packet_size(&self.buffer) {
+                Some(size) => break size,
+                // No packet is this big, so this will never become one and
+                // we discard the data by processing it as a bad packet
+                None if self.buffer.len() >= transmission_size => {
+                    break self.buffer.len()
+                }
+                None => {
+                    let mut buf =
+                        vec![0; transmission_size].into_boxed_slice();
+                    let size = self
+                        .stream
+                        .read(&mut buf)
+                        .await
+                        .map_err(InboundWireError::IO)?;
+                    if size == 0 {
+                        return Err(InboundWireError::IO(io::Error::from(
+                            io::ErrorKind::UnexpectedEof,
+                        )));
+                    }
+                    self.buffer.extend_from_slice(&buf[..size]);
+                }
+            }
+        };
+
+        let packet_bytes: Vec<u8> = self.buffer.drain(..packet_size).collect();
+        let data = self.inbound_wire.process(&packet_bytes)?;
 
         Ok((data, self.remote_addr))
     }
 }
 
+/// Determines the size of the packet at the beginning of the given bytes,
+/// returning none if more bytes are needed
+///
+/// If the bytes cannot be a packet, all of them are considered to be one,
+/// which will then be reported as invalid once processed
+fn next_packet_size(bytes: &[u8]) -> Option<usize> {
+    let mut deserializer = serde_cbor::Deserializer::from_slice(bytes);
+    match IgnoredAny::deserialize(&mut deserializer) {
+        Ok(_) => Some(deserializer.byte_offset()),
+        Err(x) if x.is_eof() => None,
+        Err(_) => Some(bytes.len()),
+    }
+}
+
 pub struct TcpStreamOutboundWire<S, E>
 where
     S: Signer,
@@ -149,14 +195,11 @@ where
         let data = self.outbound_wire.process(buf)?;
 
         for packet_bytes in data.iter() {
-            let size = self
-                .stream
-                .write(packet_bytes)
+            // NOTE: A single write may only accept some of the bytes
+            self.stream
+                .write_all(packet_bytes)
                 .await
                 .map_err(OutboundWireError::IO)?;
-            if size < packet_bytes.len() {
-                return Err(OutboundWireError::IncompleteSend);
-            }
         }
 
         Ok(())
-- 
2.43.0


From 47648ff963e554ace4e5062a9116d90cfd80293c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 07/36] fix: release a TCP connection once its peer is gone

The inbound and outbound loops of a connection kept each other alive (and the
server kept its sender to the connection), so neither ever ended and the
socket was never closed.
---
 src/core/event/mod.rs | 24 ++++++++++++++++++++++--
 src/core/event/tcp.rs | 27 ++++++++++++++++++++-------
 2 files changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index 5e6b539..627be07 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -20,7 +20,17 @@ impl EventManager {
     }
 
     pub async fn wait(self) -> Result<(), task::JoinError> {
-        tokio::try_join!(self.inbound_handle, self.outbound_handle).map(|_| ())
+        let Self {
+            inbound_handle,
+            outbound_handle,
+            tx,
+        } = self;
+
+        // NOTE: The outbound loop runs until all senders are gone, so we must
+        //       not hold on to ours while waiting
+        drop(tx);
+
+        tokio::try_join!(inbound_handle, outbound_handle).map(|_| ())
     }
 }
 
@@ -40,7 +50,17 @@ impl AddrEventManager {
     }
 
     pub async fn wait(self) -> Result<(), task::JoinError> {
-        tokio::try_join!(self.inbound_handle, self.outbound_handle).map(|_| ())
+        let Self {
+            inbound_handle,
+            outbound_handle,
+            tx,
+        } = self;
+
+        // NOTE: The outbound loop runs until all senders are gone, so we must
+        //       not hold on to ours while waiting
+        drop(tx);
+
+        tokio::try_join!(inbound_handle, outbound_handle).map(|_| ())
     }
 }
 
diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index d8d7816..6e989e3 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -34,8 +34,9 @@ impl EventManager {
 
         let (tx, rx) = mpsc::channel::<Vec<u8>>(max_outbound_queue);
 
-        let inbound_handle = handle.spawn(tcp_stream_outbound_loop(rx, writer));
-        let outbound_handle = handle.spawn(tcp_stream_inbound_loop(
+        let outbound_handle =
+            handle.spawn(tcp_stream_outbound_loop(rx, writer));
+        let inbound_handle = handle.spawn(tcp_stream_inbound_loop(
             tx.clone(),
             reader,
             on_inbound_tx,
@@ -168,13 +169,25 @@ async fn tcp_listener_spawn_stream<A, B>(
         .await
         .insert(addr, event_manager.tx.clone());
 
-    // Wait for the stream's event manager to exit,
-    // and remove the connection once it does
-    if let Err(x) = event_manager.wait().await {
-        error!("Event manager exited badly: {}", x);
-    }
+    let EventManager {
+        inbound_handle,
+        outbound_handle,
+        tx,
+    } = event_manager;
 
+    // Wait for the stream to have nothing more to receive, and remove the
+    // connection once it does
+    if let Err(x) = inbound_handle.await {
+        error!("Inbound loop exited badly: {}", x);
+    }
     connections.lock().await.remove(&addr);
+
+    // Without the connection and our own sender, the outbound loop exits
+    // (and closes the stream) once replies still in progress have been sent
+    drop(tx);
+    if let Err(x) = outbound_handle.await {
+        error!("Outbound loop exited badly: {}", x);
+    }
 }
 
 /// Loops continuously, reading outbound data and sending it out over the wire
-- 
2.43.0


From 82acb3762c64f7c9efdbe8ef1787ff47bc6f14b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:01 +0000
Subject: [PATCH 08/36] fix: keep UDP loops running after a failed send or an
 unreachable peer

A single failed send ended the outbound loop, and a refused connection (the
server being down for a moment) ended the inbound loop, after which nothing
could ever be sent or received on the socket.
---
 src/core/event/udp.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/core/event/udp.rs b/src/core/event/udp.rs
index fab8228..e625b22 100644
--- a/src/core/event/udp.rs
+++ b/src/core/event/udp.rs
@@ -1,11 +1,12 @@
 use super::AddrEventManager;
 use crate::core::Msg;
 
-use log::error;
+use log::{error, warn};
 use crate::core::transport::{
-    Authenticator, Bicrypter, Decrypter, Encrypter, Signer,
+    Authenticator, Bicrypter, Decrypter, Encrypter, InboundWireError, Signer,
     UdpSocketInboundWire, UdpSocketOutboundWire, Verifier, Wire,
 };
+use std::io;
 use std::net::SocketAddr;
 use tokio::{net::UdpSocket, runtime::Handle, sync::mpsc};
 
@@ -93,7 +94,6 @@ async fn udp_socket_outbound_loop<S, E>(
     while let Some((msg, addr)) = rx.recv().await {
         if let Err(x) = writer.write_to(&msg, addr).await {
             error!("Failed to send: {}", x);
-            break;
         }
     }
 }
@@ -113,6 +113,20 @@ async fn udp_socket_inbound_loop<V, D>(
     loop {
         let tx_2 = tx.clone();
         let result = reader.read().await;
+
+        // NOTE: Not being able to reach the other side with an earlier send is
+        //       reported here, but the socket itself is still usable
+        if let Err(InboundWireError::IO(x)) = &result {
+            match x.kind() {
+                io::ErrorKind::ConnectionRefused
+                | io::ErrorKind::ConnectionReset => {
+                    warn!("Unreachable: {}", x);
+                    continue;
+                }
+                _ => {}
+            }
+        }
+
         if !super::process_inbound(result, tx_2, on_inbound_tx.clone()).await {
             break;
         }
-- 
2.43.0


From a0a007eb5c8e68ca05d4b2cc5de4a3428e942bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:08 +0000
Subject: [PATCH 09/36] fix: answer a sequence or batch containing an operation
 without a reply

The ignored reply cannot be serialized, so the results of all of the other
operations were dropped and the client was never answered.
---
 src/core/server/action/mod.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/core/server/action/mod.rs b/src/core/server/action/mod.rs
index cf3b43d..6589e9f 100644
--- a/src/core/server/action/mod.rs
+++ b/src/core/server/action/mod.rs
@@ -320,12 +320,14 @@ fn route_and_execute(
                         results.push(
                             match try_transform_request(op, results.last()) {
                                 Ok(req) => {
-                                    route_and_execute(
-                                        Arc::clone(&state),
-                                        req,
-                                        max_depth - 1,
+                                    nested_reply(
+                                        route_and_execute(
+                                            Arc::clone(&state),
+                                            req,
+                                            max_depth - 1,
+                                        )
+                                        .await,
                                     )
-                                    .await
                                 }
                                 Err(x) => Reply::Error(ReplyError::from(
                                     format!("{}", x),
@@ -350,7 +352,7 @@ fn route_and_execute(
                         .await
                         .drain(..)
                         .map(|r| {
-                            r.unwrap_or_else(|x| {
+                            r.map(nested_reply).unwrap_or_else(|x| {
                                 Reply::Error(From::from(format!("{}", x)))
                             })
                         })
@@ -377,6 +379,19 @@ fn route_and_execute(
     .boxed()
 }
 
+/// Prepares a reply to be part of another reply
+///
+/// There is no way to send nothing in place of an individual result, and
+/// attempting to do so prevents all of the results from being sent
+fn nested_reply(reply: Reply) -> Reply {
+    match reply {
+        Reply::Ignore => {
+            Reply::Error(ReplyError::from("Operation has no reply"))
+        }
+        reply => reply,
+    }
+}
+
 #[derive(Debug, Display, Error)]
 enum SequenceError {
     Abort,
-- 
2.43.0


From 7e170ec682628e17331eb8ce0afd36428f781665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 10/36] fix: forget the callback of an ask that timed out or
 could not be sent

Nothing ever removed it unless a reply showed up, so every unanswered ask
leaked its callback.
---
 src/core/client/connected.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 739eb03..0af7c16 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -66,11 +66,12 @@ impl ConnectedClient {
         let timeout = self.timeout;
         let (tx, rx) = oneshot::channel::<Result<Reply, AskError>>();
         let msg = Msg::from(request);
+        let id = msg.header.id;
 
         // Assign a synchronous callback that uses the oneshot channel to
         // get back the result
         self.state.lock().await.callback_manager.add_callback(
-            msg.header.id,
+            id,
             |reply| {
                 // NOTE: We handle errors like IO further downstream, so
                 //       only extract the generic error here
@@ -88,12 +89,20 @@ impl ConnectedClient {
         );
 
         // Send the msg and report back an error if it occurs
-        self.send_msg(msg).await.map_err(AskError::from)?;
+        let result = match self.send_msg(msg).await {
+            Ok(_) => tokio::time::timeout(timeout, rx)
+                .await
+                .map_err(|_| AskError::Timeout),
+            Err(x) => Err(AskError::from(x)),
+        };
 
-        tokio::time::timeout(timeout, rx)
-            .await
-            .map_err(|_| AskError::Timeout)?
-            .map_err(|_| AskError::CallbackLost)?
+        // If no reply will be accepted anymore, there is no need to keep the
+        // callback around for it
+        if result.is_err() {
+            self.state.lock().await.callback_manager.take_callback(id);
+        }
+
+        result?.map_err(|_| AskError::CallbackLost)?
     }
 
     /// Sends a msg to the server, not expecting a response
-- 
2.43.0


From ac50a2a2b3c6d38e29f8c958926ebde282671fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 11/36] fix: make messages with forwarding arguments decodable

The address was encoded for a binary format but (as content is untagged)
decoded as if from a human readable one, so any such message was discarded.
---
 src/core/msg/content/reply/forward.rs   |  4 ++++
 src/core/msg/content/request/forward.rs |  4 ++++
 src/utils/serializers/mod.rs            |  1 +
 src/utils/serializers/socket_addr.rs    | 27 +++++++++++++++++++++++++
 4 files changed, 36 insertions(+)
 create mode 100644 src/utils/serializers/socket_addr.rs

diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index 1dd4bc3..a51d8f2 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -5,6 +5,10 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(
+        serialize_with = "crate::utils::serializers::socket_addr::serialize",
+        deserialize_with = "crate::utils::serializers::socket_addr::deserialize"
+    )]
     pub address: SocketAddr,
     pub reply: Box<Reply>,
 }
diff --git a/src/core/msg/content/request/forward.rs b/src/core/msg/content/request/forward.rs
index 2619c01..ee8463c 100644
--- a/src/core/msg/content/request/forward.rs
+++ b/src/core/msg/content/request/forward.rs
@@ -5,6 +5,10 @@ use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
 pub struct ForwardArgs {
+    #[serde(
+        serialize_with = "crate::utils::serializers::socket_addr::serialize",
+        deserialize_with = "crate::utils::serializers::socket_addr::deserialize"
+    )]
     pub address: SocketAddr,
     pub request: Box<Request>,
 }
diff --git a/src/utils/serializers/mod.rs b/src/utils/serializers/mod.rs
index 4c6c21f..e8f1a3f 100644
--- a/src/utils/serializers/mod.rs
+++ b/src/utils/serializers/mod.rs
@@ -1,2 +1,3 @@
 pub mod error_kind;
 pub mod io_error;
+pub mod socket_addr;
diff --git a/src/utils/serializers/socket_addr.rs b/src/utils/serializers/socket_addr.rs
new file mode 100644
index 0000000..2ec3c42
--- /dev/null
+++ b/src/utils/serializers/socket_addr.rs
@@ -0,0 +1,27 @@
+use serde::de::Error;
+use serde::{Deserialize, Deserializer, Serializer};
+use std::net::SocketAddr;
+
+// NOTE: By default, the format of an address depends on whether the serializer
+//       and deserializer are human readable, which is not the same for both
+//       sides when using internal tagging or untagged enums in combination
+//       with a binary format, so we always use the string representation
+
+pub fn serialize<S>(
+    addr: &SocketAddr,
+    serializer: S,
+) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    serializer.collect_str(addr)
+}
+
+pub fn deserialize<'de, D>(deserializer: D) -> Result<SocketAddr, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    String::deserialize(deserializer)?
+        .parse()
+        .map_err(D::Error::custom)
+}
-- 
2.43.0


From 79f92bfec61cbc2d3f8b7464aef734170de375ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:08 +0000
Subject: [PATCH 12/36] fix: keep the path of a renamed open file canonical

---
 src/core/server/fs/file.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/server/fs/file.rs b/src/core/server/fs/file.rs
index ee2b38c..2e6a800 100644
--- a/src/core/server/fs/file.rs
+++ b/src/core/server/fs/file.rs
@@ -144,8 +144,13 @@ impl LocalFile {
 
         // Update signature to reflect the change and update our internal
         // path so that we can continue to do renames/removals properly
+        //
+        // NOTE: Like when opening, the path needs to be canonicalized so that
+        //       it can be used to find this file
         self.sig = OsRng.next_u32();
-        self.path = to.as_ref().to_path_buf();
+        self.path = fs::canonicalize(to.as_ref())
+            .await
+            .unwrap_or_else(|_| to.as_ref().to_path_buf());
 
         Ok(self.sig)
     }
-- 
2.43.0


From 1d6a2c2919709640f6acd1f2e12430902bdf8914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 13/36] fix: close a removed open file

---
 src/core/server/action/handler/fs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index dc5746d..e441847 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -150,13 +150,20 @@ pub async fn remove_file(
     debug!("handler::remove_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    match fs_manager.get_mut(args.id) {
         Some(local_file) => match local_file.remove(args.sig).await {
             Ok(_) => {
+                // The file no longer exists, so it must not be considered
+                // open at its path (which may be used by another file later)
+                let handle = local_file.handle();
+                fs_manager.close_file(handle).map_err(FileIoError::Io)?;
                 state.remove_file_id(args.id).await;
+
                 Ok(FileRemovedArgs {
                     id: args.id,
-                    sig: local_file.sig(),
+                    sig: handle.sig,
                 })
             }
             Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
-- 
2.43.0


From 6d09a0d54b223dfcda60737bf055a21c880c59e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 14/36] fix: report a changed file signature as such to the
 caller of the client

---
 src/core/client/connected.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 0af7c16..cf0ec64 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -631,6 +631,9 @@ fn make_file_ask_error(x: Reply) -> FileAskError {
         Reply::Error(ReplyError::Io(args)) => {
             FileAskError::IoError(args.into())
         }
+        Reply::Error(ReplyError::FileSigChanged(args)) => {
+            FileAskError::FileSignatureChanged { id: args.id }
+        }
         x => From::from(make_ask_error(x)),
     }
 }
-- 
2.43.0


From 09805fa32679c5754e826884d6632117ec8e3c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:30 +0000
Subject: [PATCH 15/36] fix: refuse to rename a file onto one that is open

---
 src/core/server/action/handler/fs.rs | 23 ++++++++++-------
 src/core/server/fs/mod.rs            | 37 +++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index e441847..08f6387 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -107,16 +107,21 @@ pub async fn rename_file(
     debug!("handler::rename_file: {:?}", args);
     state.touch_file_id(args.id).await;
 
-    match state.fs_manager.lock().await.get_mut(args.id) {
-        Some(local_file) => match local_file.rename(args.sig, &args.to).await {
-            Ok(_) => Ok(FileRenamedArgs {
-                id: args.id,
-                sig: local_file.sig(),
-            }),
-            Err(LocalFileError::SigMismatch) => Err(FileIoError::SigMismatch {
-                id: args.id,
-                sig: local_file.sig(),
+    let handle = LocalFileHandle {
+        id: args.id,
+        sig: args.sig,
+    };
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    match fs_manager.get(args.id).map(|local_file| local_file.sig()) {
+        Some(sig) => match fs_manager.rename_open_file(handle, &args.to).await {
+            Ok(handle) => Ok(FileRenamedArgs {
+                id: handle.id,
+                sig: handle.sig,
             }),
+            Err(LocalFileError::SigMismatch) => {
+                Err(FileIoError::SigMismatch { id: args.id, sig })
+            }
             Err(LocalFileError::IoError(x)) => Err(FileIoError::Io(x)),
         },
         None => Err(FileIoError::Io(
diff --git a/src/core/server/fs/mod.rs b/src/core/server/fs/mod.rs
index 0775431..67120a5 100644
--- a/src/core/server/fs/mod.rs
+++ b/src/core/server/fs/mod.rs
@@ -183,7 +183,7 @@ impl FileSystemManager {
 
     /// Attempts to rename a file at `from` into `to`.
     ///
-    /// Will fail if file is open at `from`.
+    /// Will fail if file is open at `from` or `to`.
     pub async fn rename_file(
         &mut self,
         from: impl AsRef<Path>,
@@ -193,10 +193,45 @@ impl FileSystemManager {
         let to = clean_path(to.as_ref()).await;
 
         self.check_no_open_files(from.as_path())?;
+        self.check_no_open_files(to.as_path())?;
 
         file::rename(from.as_path(), to.as_path()).await
     }
 
+    /// Attempts to rename the open file with `handle` into `to`, returning
+    /// its new handle.
+    ///
+    /// Will fail if a different file is open at `to`, as that file would be
+    /// replaced.
+    pub async fn rename_open_file(
+        &mut self,
+        handle: LocalFileHandle,
+        to: impl AsRef<Path>,
+    ) -> Result<LocalFileHandle, LocalFileError> {
+        let cto = clean_path(to.as_ref()).await;
+
+        match self.files.get(&handle.id) {
+            Some(f) if f.sig() != handle.sig => {
+                return Err(LocalFileError::SigMismatch)
+            }
+            Some(f) if f.path() != cto => self
+                .check_no_open_files(cto.as_path())
+                .map_err(LocalFileError::IoError)?,
+            _ => {}
+        }
+
+        match self.files.get_mut(&handle.id) {
+            Some(f) => {
+                f.rename(handle.sig, to).await?;
+                Ok(f.handle())
+            }
+            None => Err(LocalFileError::IoError(io::Error::new(
+                io::ErrorKind::NotFound,
+                format!("No open file with id {}", handle.id),
+            ))),
+        }
+    }
+
     /// Attempts to remove a file, failing if the file is currently open.
     pub async fn remove_file(
         &mut self,
-- 
2.43.0


From 94810ad1703cfe5a85917ec7baaef11cc2f92235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:01 +0000
Subject: [PATCH 16/36] fix: follow a renamed file in the client's handle

---
 src/core/client/connected.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index cf0ec64..98ff25d 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -311,7 +311,7 @@ impl ConnectedClient {
             .ask(Request::RenameFile(RenameFileArgs {
                 id: file.id,
                 sig: file.sig,
-                to,
+                to: to.clone(),
             }))
             .await;
 
@@ -322,6 +322,7 @@ impl ConnectedClient {
         match result.unwrap() {
             Reply::FileRenamed(args) => {
                 file.sig = args.sig;
+                file.path = to;
                 Ok(args)
             }
             x => Err(make_file_ask_error(x)),
-- 
2.43.0


From 8f7832e279b6099f022010c6170d7bb7fef20b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:43 +0000
Subject: [PATCH 17/36] fix: report a process that exited with an error code as
 unsuccessful

---
 src/core/server/proc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/server/proc.rs b/src/core/server/proc.rs
index e39472b..e1f9f96 100644
--- a/src/core/server/proc.rs
+++ b/src/core/server/proc.rs
@@ -71,7 +71,7 @@ impl LocalProc {
                 if let Some(status) = exit_status {
                     self.exit_status = Some(ExitStatus {
                         id: self.id,
-                        is_success: status.is_ok(),
+                        is_success: matches!(&status, Ok(s) if s.success()),
                         exit_code: status.ok().and_then(|s| s.code()),
                     });
                 }
-- 
2.43.0


From 241b89fc156abfa72491a0372eb4e65290a629cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 18/36] fix: touch an opened file before it can be evicted

---
 src/core/server/action/handler/fs.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/server/action/handler/fs.rs b/src/core/server/action/handler/fs.rs
index 08f6387..9cf0850 100644
--- a/src/core/server/action/handler/fs.rs
+++ b/src/core/server/action/handler/fs.rs
@@ -40,10 +40,9 @@ pub async fn open_file(
 ) -> Result<FileOpenedArgs, io::Error> {
     debug!("handler::open_file: {:?}", args);
 
-    let handle = state
-        .fs_manager
-        .lock()
-        .await
+    let mut fs_manager = state.fs_manager.lock().await;
+
+    let handle = fs_manager
         .open_file(
             &args.path,
             args.create_if_missing,
@@ -52,7 +51,10 @@ pub async fn open_file(
         )
         .await?;
 
+    // Touch before anyone else gets to the files, as otherwise a file that
+    // was already open could be evicted after having been handed out
     state.touch_file_id(handle.id).await;
+    drop(fs_manager);
 
     Ok(FileOpenedArgs {
         id: handle.id,
-- 
2.43.0


From cb4743095c1e5d3b65cb6a1254187cd26cc858f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 19/36] fix: do not create the file asked to be read from the
 command line

`read-file` opened the file with create and write access, so that a misspelled
path left an empty file on the server and read-only files could not be read.
---
 src/cli/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index d914358..466faca 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -255,7 +255,12 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
             )?;
         }
         client::Subcommand::ReadFile(c) => {
-            let file = client.ask_open_file(c.path.clone()).await?.into();
+            // NOTE: Reading must neither create a missing file nor require
+            //       that the file can be written
+            let file = client
+                .ask_open_file_with_options(c.path.clone(), false, false, true)
+                .await?
+                .into();
             let x = client.ask_read_file(&file).await?;
             format_content_write!(
                 cmd.output_format,
-- 
2.43.0


From 627a88ca715976e8f3b7f0e76e194a32914de788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 20/36] fix: report a failed connect instead of panicking

An unreachable server, or a key of the wrong length, ended the client with a
panic rather than with the error (in the requested output format).
---
 src/cli/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 466faca..c73c730 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -150,9 +150,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
 
     validate_opts(&cmd.opts)?;
 
-    let mut client = builder::start_client(&cmd)
-        .await
-        .expect("Failed to connect with client");
+    let mut client = builder::start_client(&cmd).await?;
 
     match &cmd.command {
         client::Subcommand::Version(_) => {
-- 
2.43.0


From 089fa304f8b5ef3f5e27f5942147d0d97c6faac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 21/36] fix: apply --timeout to the requests of the client

---
 src/cli/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index c73c730..c2f7a6a 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -151,6 +151,7 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
     validate_opts(&cmd.opts)?;
 
     let mut client = builder::start_client(&cmd).await?;
+    client.timeout = cmd.opts.timeout;
 
     match &cmd.command {
         client::Subcommand::Version(_) => {
-- 
2.43.0


From 0bcb753f155f4bafdf5e675e6b174ed05f5f3e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 22/36] fix: report failures during exec and reattach instead
 of panicking

Reattaching to an unknown process or losing the server ended the client with a
panic instead of the error (in the requested output format).
---
 src/cli/mod.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index c2f7a6a..aff14f9 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -466,7 +466,7 @@ async fn process_proc(
     proc: RemoteProc,
     format: FormatOption,
     exit_print: bool,
-) -> io::Result<()> {
+) -> Result<(), Box<dyn Error>> {
     let stdin = io::stdin();
     let mut exit_instant: Option<Instant> = None;
 
@@ -483,7 +483,7 @@ async fn process_proc(
             match handle.read_line(&mut line) {
                 Ok(_) => (),
                 Err(x) if x.kind() == io::ErrorKind::WouldBlock => (),
-                Err(x) => panic!("Failed to read line of input: {:?}", x),
+                Err(x) => return Err(x.into()),
             }
 
             if !line.is_empty() {
@@ -494,24 +494,17 @@ async fn process_proc(
             }
         }
 
-        let stdout_args = client
-            .ask_read_proc_stdout(&proc)
-            .await
-            .expect("Failed to get stdout");
+        let stdout_args = client.ask_read_proc_stdout(&proc).await?;
         if !stdout_args.output.is_empty() {
             format_content_write!(
                 format,
                 stdout_path.as_ref(),
                 Content::from(Reply::ProcStdoutContents(stdout_args)),
                 Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
-            )
-            .expect("Failed to format stdout");
+            )?;
         }
 
-        let stderr_args = client
-            .ask_read_proc_stderr(&proc)
-            .await
-            .expect("Failed to get stderr");
+        let stderr_args = client.ask_read_proc_stderr(&proc).await?;
         if !stderr_args.output.is_empty() {
             format_content_write!(
                 format,
@@ -521,16 +514,12 @@ async fn process_proc(
                     "{}",
                     String::from_utf8_lossy(&stderr_args.output)
                 )),
-            )
-            .expect("Failed to format stderr");
+            )?;
         }
 
         // Mark ready for exit if proc has exited
         if exit_instant.is_none() {
-            let status = client
-                .ask_read_proc_status(&proc)
-                .await
-                .expect("Failed to get proc status");
+            let status = client.ask_read_proc_status(&proc).await?;
             if !status.is_alive {
                 match format {
                     FormatOption::Human if exit_print => format_content_write!(
@@ -550,8 +539,7 @@ async fn process_proc(
                         Content::from(Reply::ProcStatus(status)),
                         Err("unreachable!".into()),
                     ),
-                }
-                .expect("Failed to format status");
+                }?;
                 exit_instant = Some(Instant::now());
             }
         }
-- 
2.43.0


From a898ea7d584b58582b3b8007ef19fe8e82135d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 23/36] fix: keep an exec session alive when its process takes
 no more input

Input sent to a process that ended or closed its stdin made the client panic
before the remaining output and the status were printed, and so did input that
is not UTF-8, which is now passed on as it is.
---
 src/cli/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index aff14f9..b8af824 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -4,7 +4,7 @@ mod opts;
 
 use crate::core::{ConnectedClient, Content, RemoteProc, Reply, SchemaInfo};
 use format::FormatOption;
-use log::info;
+use log::{info, warn};
 use opts::{
     client::{self, ClientCommand},
     schema::{SchemaSubcommand, SchemaType},
@@ -459,7 +459,7 @@ async fn execute_raw_and_report(
 
 async fn process_proc(
     mut client: ConnectedClient,
-    send_stdin: bool,
+    mut send_stdin: bool,
     stdout_path: Option<PathBuf>,
     stderr_path: Option<PathBuf>,
     post_exit_duration: Duration,
@@ -479,18 +479,21 @@ async fn process_proc(
         if send_stdin {
             use io::BufRead;
             let mut handle = stdin.lock();
-            let mut line = String::new();
-            match handle.read_line(&mut line) {
+            let mut line = Vec::new();
+            match handle.read_until(b'\n', &mut line) {
                 Ok(_) => (),
                 Err(x) if x.kind() == io::ErrorKind::WouldBlock => (),
                 Err(x) => return Err(x.into()),
             }
 
             if !line.is_empty() {
-                client
-                    .ask_write_proc_stdin(&proc, &line.into_bytes())
-                    .await
-                    .expect("Failed to write stdin");
+                // NOTE: A process no longer taking input may still provide
+                //       output and a status, so only stop sending more
+                if let Err(x) = client.ask_write_proc_stdin(&proc, &line).await
+                {
+                    warn!("Failed to write stdin: {}", x);
+                    send_stdin = false;
+                }
             }
         }
 
-- 
2.43.0


From 50148815365fbd8124cc4c315f733fba2368a04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 24/36] fix: pass on the output of an exec byte for byte

Each chunk of output was converted to UTF-8 lossily, corrupting binary data and
characters split between two chunks; redirected output was not flushed, so that
the end could be lost and chunks could swap places.
---
 src/cli/mod.rs | 92 +++++++++++++++++++++++++++-----------------------
 1 file changed, 49 insertions(+), 43 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index b8af824..47170b7 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -75,40 +75,39 @@ fn validate_opts(opts: &opts::CommonOpts) -> io::Result<()> {
     Ok(())
 }
 
-async fn write_stdout(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn append_to_file(bytes: &[u8], path: &PathBuf) -> io::Result<()> {
+    use tokio::io::AsyncWriteExt;
+    let mut file = tokio::fs::OpenOptions::new()
+        .create(true)
+        .append(true)
+        .open(path)
+        .await?;
+    file.write_all(bytes).await?;
+
+    // NOTE: The file writes in the background, so wait until that is done
+    file.flush().await
+}
+
+async fn write_stdout(bytes: &[u8], path: Option<&PathBuf>) -> io::Result<()> {
     match path {
-        Some(p) => {
-            use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
-                .create(true)
-                .append(true)
-                .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
-        }
+        Some(p) => append_to_file(bytes, p).await,
         None => {
-            print!("{}", text);
-            Ok(())
+            use io::Write;
+            let mut handle = io::stdout();
+            handle.write_all(bytes)?;
+            handle.flush()
         }
     }
 }
 
-async fn write_stderr(text: String, path: Option<&PathBuf>) -> io::Result<()> {
+async fn write_stderr(bytes: &[u8], path: Option<&PathBuf>) -> io::Result<()> {
     match path {
-        Some(p) => {
-            use tokio::io::AsyncWriteExt;
-            tokio::fs::OpenOptions::new()
-                .create(true)
-                .append(true)
-                .open(p)
-                .await?
-                .write_all(text.as_bytes())
-                .await
-        }
+        Some(p) => append_to_file(bytes, p).await,
         None => {
-            eprint!("{}", text);
-            Ok(())
+            use io::Write;
+            let mut handle = io::stderr();
+            handle.write_all(bytes)?;
+            handle.flush()
         }
     }
 }
@@ -133,8 +132,8 @@ macro_rules! format_content_write {
             FormatOption::Human => {
                 let result: Result<String, String> = $human_expr;
                 match result {
-                    Ok(x) => write_stdout(format!("{}", x), $path).await?,
-                    Err(x) => write_stderr(format!("{}", x), $path).await?,
+                    Ok(x) => write_stdout(x.as_bytes(), $path).await?,
+                    Err(x) => write_stderr(x.as_bytes(), $path).await?,
                 }
                 Ok(())
             }
@@ -499,25 +498,32 @@ async fn process_proc(
 
         let stdout_args = client.ask_read_proc_stdout(&proc).await?;
         if !stdout_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stdout_path.as_ref(),
-                Content::from(Reply::ProcStdoutContents(stdout_args)),
-                Ok(format!("{}", String::from_utf8_lossy(&stdout_args.output))),
-            )?;
+            match format {
+                FormatOption::Human => {
+                    write_stdout(&stdout_args.output, stdout_path.as_ref())
+                        .await?
+                }
+                f => format::format_content_println(
+                    f,
+                    Content::from(Reply::ProcStdoutContents(stdout_args)),
+                    |_| Err("Unreachable".into()),
+                )?,
+            }
         }
 
         let stderr_args = client.ask_read_proc_stderr(&proc).await?;
         if !stderr_args.output.is_empty() {
-            format_content_write!(
-                format,
-                stderr_path.as_ref(),
-                Content::from(Reply::ProcStderrContents(stderr_args)),
-                Err(format!(
-                    "{}",
-                    String::from_utf8_lossy(&stderr_args.output)
-                )),
-            )?;
+            match format {
+                FormatOption::Human => {
+                    write_stderr(&stderr_args.output, stderr_path.as_ref())
+                        .await?
+                }
+                f => format::format_content_println(
+                    f,
+                    Content::from(Reply::ProcStderrContents(stderr_args)),
+                    |_| Err("Unreachable".into()),
+                )?,
+            }
         }
 
         // Mark ready for exit if proc has exited
-- 
2.43.0


From 2b722d5673eab41eba82a8bbb12b7f9bcfc76b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:40 +0000
Subject: [PATCH 25/36] fix: keep accepting connections after an accept error

A single failed accept, such as from running out of file descriptors for a
moment, ended the loop, and the server never took another connection.
---
 src/core/event/tcp.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 6e989e3..3e76a0e 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -9,12 +9,17 @@ use crate::core::transport::{
 use std::collections::HashMap;
 use std::net::SocketAddr;
 use std::sync::Arc;
+use std::time::Duration;
 use tokio::{
     net::{TcpListener, TcpStream},
     runtime::Handle,
     sync::{mpsc, Mutex},
+    time::delay_for,
 };
 
+/// Time to wait after failing to accept a connection before trying again
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
+
 /// Implementation of EventManager for TCP stream
 impl EventManager {
     pub fn for_tcp_stream<A, B>(
@@ -134,7 +139,11 @@ async fn tcp_listener_inbound_loop<A, B>(
             }
             Err(x) => {
                 error!("Listening for connections encountered error: {}", x);
-                break;
+
+                // NOTE: An error like running out of file descriptors does not
+                //       concern the listener itself, so keep accepting, but
+                //       give it some time to go away
+                delay_for(ACCEPT_RETRY_DELAY).await;
             }
         }
     }
-- 
2.43.0


From c59e66e4941a99512cb456f37961960d2be610e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:48 +0000
Subject: [PATCH 26/36] fix: find delimiters in data that arrives in several
 reads

The reader searched its whole buffer, including the part not filled yet, and
marked that part as searched. Data arriving in more than one read lost bytes,
and messages longer than the maximum could panic.
---
 src/utils/delimiter.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index 83bdb48..b79a4ca 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -5,7 +5,6 @@ pub const DEFAULT_DELIMITER: &[u8] = b"</>";
 
 #[derive(Clone, Copy)]
 struct PreReadResult {
-    buf_len: usize,
     delimiter_len: usize,
 }
 
@@ -77,13 +76,14 @@ impl DelimiterReader {
             let shift_len = delimiter_len - pdelimiter_len;
             self.buf.rotate_left(shift_len);
             self.buf_filled -= shift_len;
-            self.buf_pos = pd_pos - shift_len;
+            self.buf_pos = if pdelimiter_len > 0 {
+                pd_pos - shift_len
+            } else {
+                self.buf_filled
+            };
         };
 
-        PreReadResult {
-            buf_len,
-            delimiter_len,
-        }
+        PreReadResult { delimiter_len }
     }
 
     /// Performs update to buffer based on read bytes, copying data to external
@@ -94,20 +94,18 @@ impl DelimiterReader {
         bytes_read: Option<&usize>,
         preread_result: PreReadResult,
     ) -> usize {
-        let PreReadResult {
-            buf_len,
-            delimiter_len,
-        } = preread_result;
+        let PreReadResult { delimiter_len } = preread_result;
 
         // Mark where we will start reading and then update the filled count
         if let Some(bytes_read) = bytes_read {
             self.buf_filled += bytes_read;
         }
 
-        // Scan for the delimiter starting from the last place searched
+        // Scan for the delimiter starting from the last place searched, but
+        // only within the data that has been read so far
         let mut size = 0;
-        if self.buf_filled > 0 {
-            for i in self.buf_pos..=(buf_len - delimiter_len) {
+        if self.buf_filled >= delimiter_len {
+            for i in self.buf_pos..=(self.buf_filled - delimiter_len) {
                 // If we have a match, we want to copy the contents (minus the delimiter) to the
                 // provided buffer, shift over any remaining data, and reset our buf filled count
                 if self.buf[i..i + delimiter_len] == self.delimiter[..] {
-- 
2.43.0


From 82ed3dfe518edd531fb002d596cf4a6f662a50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 27/36] fix: write a delimited message completely

A write that took only a part of the data left the message truncated, and a
part of the delimiter left it joined with the next one, while all of it was
reported as written.
---
 src/utils/delimiter.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/utils/delimiter.rs b/src/utils/delimiter.rs
index b79a4ca..c09fcb3 100644
--- a/src/utils/delimiter.rs
+++ b/src/utils/delimiter.rs
@@ -212,15 +212,30 @@ impl DelimiterWriter {
         F: FnMut(&[u8]) -> io::Result<usize>,
     {
         // Send all of the requested data first
-        f(data)?;
+        write_all(data, &mut f)?;
 
         // Then send our delimiter
-        f(&self.delimiter)?;
+        write_all(&self.delimiter, &mut f)?;
 
         Ok(data.len())
     }
 }
 
+/// Invokes the write function until it has taken all of the data
+fn write_all<F>(mut data: &[u8], f: &mut F) -> io::Result<()>
+where
+    F: FnMut(&[u8]) -> io::Result<usize>,
+{
+    while !data.is_empty() {
+        match f(data)? {
+            0 => return Err(io::Error::from(io::ErrorKind::WriteZero)),
+            n => data = &data[n..],
+        }
+    }
+
+    Ok(())
+}
+
 impl Default for DelimiterWriter {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From c941a635281a5f909cfd21b9e850aed1e22edf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:37 +0000
Subject: [PATCH 28/36] fix: do not let undecryptable data use up nonces or
 flush the nonce cache

---
 src/core/transport/crypto/nonce/cache.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/transport/crypto/nonce/cache.rs b/src/core/transport/crypto/nonce/cache.rs
index 7757e89..82a4bcf 100644
--- a/src/core/transport/crypto/nonce/cache.rs
+++ b/src/core/transport/crypto/nonce/cache.rs
@@ -78,12 +78,16 @@ impl<T: Bicrypter> Decrypter for NonceCacheBicrypter<T> {
         buffer: &[u8],
         associated_data: &AssociatedData,
     ) -> Result<Vec<u8>, CryptError> {
-        // Register the nonce if provided, and then pass on to the underlying
-        // decrypter
+        // Pass on to the underlying decrypter, and then register the nonce if
+        // provided
+        //
+        // NOTE: Data that cannot be decrypted must not use up its nonce or
+        //       push the nonce of genuine data out of the cache
+        let data = self.bicrypter.decrypt(buffer, associated_data)?;
         if let Some(nonce) = associated_data.nonce_slice() {
             self.register_nonce(nonce)?;
         }
-        self.bicrypter.decrypt(buffer, associated_data)
+        Ok(data)
     }
 }
 
-- 
2.43.0


From 6f4b2a0e8116ebb682334cd935414daff00abf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 29/36] fix: describe replies by their own arguments in the
 schema of contents

---
 src/core/msg/content/reply/batch.rs          | 1 +
 src/core/msg/content/reply/capabilities.rs   | 1 +
 src/core/msg/content/reply/custom.rs         | 1 +
 src/core/msg/content/reply/forward.rs        | 1 +
 src/core/msg/content/reply/internal_debug.rs | 1 +
 src/core/msg/content/reply/sequence.rs       | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/core/msg/content/reply/batch.rs b/src/core/msg/content/reply/batch.rs
index 250a6e8..547131d 100644
--- a/src/core/msg/content/reply/batch.rs
+++ b/src/core/msg/content/reply/batch.rs
@@ -5,6 +5,7 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "BatchReplyArgs")]
 pub struct BatchArgs {
     pub results: Vec<Reply>,
 }
diff --git a/src/core/msg/content/reply/capabilities.rs b/src/core/msg/content/reply/capabilities.rs
index f5cb654..b51b8ab 100644
--- a/src/core/msg/content/reply/capabilities.rs
+++ b/src/core/msg/content/reply/capabilities.rs
@@ -21,6 +21,7 @@ impl crate::core::SchemaInfo for Capability {}
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "CapabilitiesReplyArgs")]
 pub struct CapabilitiesArgs {
     pub capabilities: Vec<Capability>,
 }
diff --git a/src/core/msg/content/reply/custom.rs b/src/core/msg/content/reply/custom.rs
index 69c7b68..b53d8e0 100644
--- a/src/core/msg/content/reply/custom.rs
+++ b/src/core/msg/content/reply/custom.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "CustomReplyArgs")]
 pub struct CustomArgs {
     pub data: Vec<u8>,
 }
diff --git a/src/core/msg/content/reply/forward.rs b/src/core/msg/content/reply/forward.rs
index a51d8f2..387c873 100644
--- a/src/core/msg/content/reply/forward.rs
+++ b/src/core/msg/content/reply/forward.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 use std::net::SocketAddr;
 
 #[derive(JsonSchema, Serialize, Deserialize, Clone, Debug, PartialEq, Eq)]
+#[schemars(rename = "ForwardReplyArgs")]
 pub struct ForwardArgs {
     #[serde(
         serialize_with = "crate::utils::serializers::socket_addr::serialize",
diff --git a/src/core/msg/content/reply/internal_debug.rs b/src/core/msg/content/reply/internal_debug.rs
index c81b752..8c52066 100644
--- a/src/core/msg/content/reply/internal_debug.rs
+++ b/src/core/msg/content/reply/internal_debug.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "InternalDebugReplyArgs")]
 pub struct InternalDebugArgs {
     pub output: Vec<u8>,
 }
diff --git a/src/core/msg/content/reply/sequence.rs b/src/core/msg/content/reply/sequence.rs
index a358dd4..968c79f 100644
--- a/src/core/msg/content/reply/sequence.rs
+++ b/src/core/msg/content/reply/sequence.rs
@@ -6,6 +6,7 @@ use serde::{Deserialize, Serialize};
 #[derive(
     JsonSchema, Serialize, Deserialize, Default, Clone, Debug, PartialEq, Eq,
 )]
+#[schemars(rename = "SequenceReplyArgs")]
 pub struct SequenceArgs {
     pub results: Vec<Reply>,
 }
-- 
2.43.0


From a350aea5a8e535aea9f3206a215188eb9a0446e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 30/36] fix: answer lines of raw input that are not UTF-8 and
 those after them

---
 src/cli/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cli/mod.rs b/src/cli/mod.rs
index 47170b7..e5ad53b 100644
--- a/src/cli/mod.rs
+++ b/src/cli/mod.rs
@@ -341,15 +341,20 @@ async fn run_client(cmd: ClientCommand) -> Result<(), Box<dyn Error>> {
             // If marked interactive, continue to read stdin for more lines
             // to execute
             if c.interactive {
-                let mut line = String::new();
-                while let Ok(n) = std::io::stdin().read_line(&mut line) {
-                    if n == 0 {
+                use std::io::BufRead;
+                let mut line = Vec::new();
+                loop {
+                    let result =
+                        io::stdin().lock().read_until(b'\n', &mut line);
+                    if result.unwrap_or_default() == 0 {
                         break;
                     }
 
+                    // NOTE: A line that is not text is answered with an error
+                    //       like any other line that cannot be understood
                     execute_raw_and_report(
                         &mut client,
-                        &line,
+                        std::str::from_utf8(&line).unwrap_or_default(),
                         c.format,
                         c.format,
                         c.meta_mode,
-- 
2.43.0


From 867d3a0230efb69172b6160e41103b03022da3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 31/36] fix: let an ask time out while it waits to be sent

---
 src/core/client/connected.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 98ff25d..29113b5 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -89,12 +89,15 @@ impl ConnectedClient {
         );
 
         // Send the msg and report back an error if it occurs
-        let result = match self.send_msg(msg).await {
-            Ok(_) => tokio::time::timeout(timeout, rx)
-                .await
-                .map_err(|_| AskError::Timeout),
-            Err(x) => Err(AskError::from(x)),
-        };
+        //
+        // NOTE: Sending waits for earlier msgs to make room, so it must also
+        //       be part of what can time out
+        let result = tokio::time::timeout(timeout, async {
+            self.send_msg(msg).await?;
+            rx.await.map_err(|_| AskError::CallbackLost)?
+        })
+        .await
+        .unwrap_or(Err(AskError::Timeout));
 
         // If no reply will be accepted anymore, there is no need to keep the
         // callback around for it
@@ -102,7 +105,7 @@ impl ConnectedClient {
             self.state.lock().await.callback_manager.take_callback(id);
         }
 
-        result?.map_err(|_| AskError::CallbackLost)?
+        result
     }
 
     /// Sends a msg to the server, not expecting a response
-- 
2.43.0


From 74af573436c248f11d88c0ffea697879422eee33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 32/36] fix: do not panic on timeouts and cleanup intervals too
 long for timers

---
 src/core/client/connected.rs | 4 ++--
 src/core/server/mod.rs       | 2 ++
 src/utils/delay.rs           | 5 +++++
 src/utils/mod.rs             | 2 +-
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/client/connected.rs b/src/core/client/connected.rs
index 29113b5..159f32e 100644
--- a/src/core/client/connected.rs
+++ b/src/core/client/connected.rs
@@ -15,7 +15,7 @@ use crate::core::{
         Msg,
     },
 };
-use crate::utils::Either;
+use crate::utils::{Either, MAX_TIMER_DURATION};
 use log::{error, trace};
 use std::net::SocketAddr;
 use std::sync::Arc;
@@ -63,7 +63,7 @@ impl ConnectedClient {
 
     /// Generic ask of the server that is expecting a response
     pub async fn ask(&mut self, request: Request) -> Result<Reply, AskError> {
-        let timeout = self.timeout;
+        let timeout = std::cmp::min(self.timeout, MAX_TIMER_DURATION);
         let (tx, rx) = oneshot::channel::<Result<Reply, AskError>>();
         let msg = Msg::from(request);
         let id = msg.header.id;
diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index e6223e1..9d5f17f 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -9,6 +9,7 @@ pub use listening::ListeningServer;
 
 use crate::core::transport::{Authenticator, Bicrypter, NetTransmission, Wire};
 use crate::core::{event::AddrEventManager, Msg, Transport};
+use crate::utils::MAX_TIMER_DURATION;
 use derive_builder::Builder;
 use log::error;
 use std::net::SocketAddr;
@@ -280,6 +281,7 @@ async fn udp_event_loop(
 }
 
 async fn cleanup_loop(state: Arc<state::ServerState>, period: Duration) {
+    let period = std::cmp::min(period, MAX_TIMER_DURATION);
     while state.is_running() {
         state.evict_files().await;
         state.evict_procs().await;
diff --git a/src/utils/delay.rs b/src/utils/delay.rs
index 9a8dc5f..5ad0185 100644
--- a/src/utils/delay.rs
+++ b/src/utils/delay.rs
@@ -5,6 +5,11 @@ use std::sync::{
 use std::thread::{self, JoinHandle};
 use std::time::{Duration, Instant};
 
+/// Longest duration (a year) to wait for using timers of the runtime, which
+/// panic if asked to wait for much longer
+pub const MAX_TIMER_DURATION: Duration =
+    Duration::from_secs(365 * 24 * 60 * 60);
+
 /// Represents a delayed execution of a function
 pub struct Delay {
     should_cancel: Arc<AtomicBool>,
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index cec7773..6719e54 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -9,7 +9,7 @@ mod ttl;
 
 pub use callback::CallbackManager;
 pub use capture::Capture;
-pub use delay::Delay;
+pub use delay::{Delay, MAX_TIMER_DURATION};
 pub use delimiter::{DelimiterReader, DelimiterWriter, DEFAULT_DELIMITER};
 pub use either::Either;
 pub use ttl::{EmptyTtlValue, TtlValue};
-- 
2.43.0


From a2f3a866c3aaa198299c3ca78c32aa9ca7947748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 33/36] fix: refuse durations that cannot be represented
 instead of panicking

---
 src/cli/opts/parsers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/opts/parsers.rs b/src/cli/opts/parsers.rs
index c9d47f3..546ea4b 100644
--- a/src/cli/opts/parsers.rs
+++ b/src/cli/opts/parsers.rs
@@ -4,7 +4,7 @@ use std::time::Duration;
 
 pub fn parse_duration_secs(s: &str) -> Result<Duration, Box<dyn Error>> {
     let secs: f64 = s.parse()?;
-    Ok(Duration::from_secs_f64(secs))
+    Ok(Duration::try_from_secs_f64(secs)?)
 }
 
 pub fn parse_duration_millis(s: &str) -> Result<Duration, Box<dyn Error>> {
-- 
2.43.0


From 8e351e6e3ce23d655054832b97d792de67e2d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:44 +0000
Subject: [PATCH 34/36] fix: report internal buffer sizes that cannot be used
 instead of panicking

---
 src/core/client/mod.rs |  3 ++-
 src/core/event/mod.rs  | 14 +++++++++++++-
 src/core/server/mod.rs |  7 ++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/client/mod.rs b/src/core/client/mod.rs
index 32ec763..17d08ef 100644
--- a/src/core/client/mod.rs
+++ b/src/core/client/mod.rs
@@ -8,7 +8,7 @@ pub mod state;
 pub use connected::ConnectedClient;
 
 use crate::core::{
-    event::{AddrEventManager, EventManager},
+    event::{check_queue_size, AddrEventManager, EventManager},
     msg::content::Content,
     Transport,
 };
@@ -60,6 +60,7 @@ where
 {
     /// Starts actively listening for msgs via the specified transport medium
     pub async fn connect(self) -> io::Result<ConnectedClient> {
+        check_queue_size(self.buffer)?;
         let state = Arc::new(Mutex::new(state::ClientState::default()));
 
         match self.transport.clone() {
diff --git a/src/core/event/mod.rs b/src/core/event/mod.rs
index 627be07..4128807 100644
--- a/src/core/event/mod.rs
+++ b/src/core/event/mod.rs
@@ -6,7 +6,19 @@ use crate::core::Msg;
 use log::{error, trace, warn};
 use crate::core::transport::InboundWireError;
 use std::net::SocketAddr;
-use tokio::{sync::mpsc, task};
+use tokio::{io, sync::mpsc, task};
+
+/// Checks that queues of the given size can be created, which panics otherwise
+pub fn check_queue_size(size: usize) -> io::Result<()> {
+    if size > 0 && size <= u32::max_value() as usize {
+        Ok(())
+    } else {
+        Err(io::Error::new(
+            io::ErrorKind::InvalidInput,
+            format!("Internal buffer cannot hold {} msgs", size),
+        ))
+    }
+}
 
 pub struct EventManager {
     inbound_handle: task::JoinHandle<()>,
diff --git a/src/core/server/mod.rs b/src/core/server/mod.rs
index 9d5f17f..d766d23 100644
--- a/src/core/server/mod.rs
+++ b/src/core/server/mod.rs
@@ -8,7 +8,8 @@ pub mod state;
 pub use listening::ListeningServer;
 
 use crate::core::transport::{Authenticator, Bicrypter, NetTransmission, Wire};
-use crate::core::{event::AddrEventManager, Msg, Transport};
+use crate::core::event::{check_queue_size, AddrEventManager};
+use crate::core::{Msg, Transport};
 use crate::utils::MAX_TIMER_DURATION;
 use derive_builder::Builder;
 use log::error;
@@ -92,6 +93,8 @@ where
     /// Will fail if using TCP transport as requires Clone; should instead
     /// use `cloneable_listen` if using TCP
     pub async fn listen(self) -> io::Result<ListeningServer> {
+        check_queue_size(self.buffer)?;
+
         let handle = Handle::current();
         let state = self.make_state();
 
@@ -117,6 +120,8 @@ where
     /// Starts actively listening for msgs via the specified transport medium,
     /// using cloneable methods for Authenticator and Bicrypter operations
     pub async fn cloneable_listen(self) -> io::Result<ListeningServer> {
+        check_queue_size(self.buffer)?;
+
         let handle = Handle::current();
         let state = self.make_state();
 
-- 
2.43.0


From 8400101133137cb790ebe43949cc8ef6ff46246b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 35/36] fix: receive UDP packets of dual-stack peers whole

Each side picks its transmission size by the family of its own address. A
server bound to [::] sends packets of up to 1212 bytes to a client that bound
an IPv4 address, which read at most 508 bytes of them: every reply bigger than
that was lost.
---
 src/core/transport/wire/udp.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/transport/wire/udp.rs b/src/core/transport/wire/udp.rs
index 489b3ec..e4dfb1c 100644
--- a/src/core/transport/wire/udp.rs
+++ b/src/core/transport/wire/udp.rs
@@ -2,6 +2,7 @@ use super::{
     auth, crypto, Authenticator, Bicrypter, Decrypter, Encrypter, InboundWire,
     InboundWireError, OutboundWire, OutboundWireError, Signer, Verifier, Wire,
 };
+use crate::core::transport::net::udp::MAX_IPV6_DATAGRAM_SIZE;
 use std::net::SocketAddr;
 use tokio::net::{
     udp::{RecvHalf, SendHalf},
@@ -85,8 +86,14 @@ where
     pub async fn read(
         &mut self,
     ) -> Result<(Option<Vec<u8>>, SocketAddr), InboundWireError> {
-        let mut buf =
-            vec![0; self.inbound_wire.transmission_size()].into_boxed_slice();
+        // NOTE: Each side picks its transmission size by its own address, and
+        //       a socket using IPv6 may talk to one using IPv4 (dual-stack), so
+        //       we may receive more than what we are allowed to send
+        let max_size = std::cmp::max(
+            self.inbound_wire.transmission_size(),
+            MAX_IPV6_DATAGRAM_SIZE,
+        );
+        let mut buf = vec![0; max_size].into_boxed_slice();
         let (size, addr) = self
             .socket
             .recv_from(&mut buf)
-- 
2.43.0


From 1005beb315f0b3c4528ddad9237f1f528aa6177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:32 +0000
Subject: [PATCH 36/36] fix: keep reaching peers that come back from the same
 address

The manager of a TCP listener finds the connections to send to by address.
When a peer reset its connection and came back from the same address before
the end of its first connection was noticed, cleaning up after the first one
removed the second, and nothing sent to the peer arrived any more. A connection
could also receive its first msg before it could be found, or wait to be found
for as long as any other peer took to make room.
---
 src/core/event/tcp.rs | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/core/event/tcp.rs b/src/core/event/tcp.rs
index 3e76a0e..ac737a7 100644
--- a/src/core/event/tcp.rs
+++ b/src/core/event/tcp.rs
@@ -20,6 +20,11 @@ use tokio::{
 /// Time to wait after failing to accept a connection before trying again
 const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(100);
 
+/// Senders of the current connections by their address, alongside the id of
+/// the connection as an address can be used again by a later connection
+type Connections =
+    Arc<Mutex<HashMap<SocketAddr, (u64, mpsc::Sender<Vec<u8>>)>>>;
+
 /// Implementation of EventManager for TCP stream
 impl EventManager {
     pub fn for_tcp_stream<A, B>(
@@ -69,9 +74,7 @@ impl AddrEventManager {
         A: Authenticator + Send + Sync + Clone + 'static,
         B: Bicrypter + Send + Sync + Clone + 'static,
     {
-        let connections: Arc<
-            Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>,
-        > = Arc::new(Mutex::new(HashMap::new()));
+        let connections: Connections = Arc::new(Mutex::new(HashMap::new()));
         let (tx, rx) =
             mpsc::channel::<(Vec<u8>, SocketAddr)>(max_outbound_queue);
 
@@ -99,10 +102,11 @@ impl AddrEventManager {
 /// of the appropriate connection
 async fn tcp_listener_outbound_loop(
     mut rx: mpsc::Receiver<(Vec<u8>, SocketAddr)>,
-    connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
+    connections: Connections,
 ) {
     while let Some((msg, addr)) = rx.recv().await {
-        if let Some(stream) = connections.lock().await.get_mut(&addr) {
+        let connection = connections.lock().await.get(&addr).cloned();
+        if let Some((_, mut stream)) = connection {
             if stream.send(msg).await.is_err() {
                 error!("Failed to send to {}", addr);
             }
@@ -117,17 +121,21 @@ async fn tcp_listener_inbound_loop<A, B>(
     handle: Handle,
     mut listener: TcpListener,
     wire: Wire<A, B>,
-    connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
+    connections: Connections,
     on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
     max_outbound_queue: usize,
 ) where
     A: Authenticator + Send + Sync + Clone + 'static,
     B: Bicrypter + Send + Sync + Clone + 'static,
 {
+    let mut next_id: u64 = 0;
     loop {
         match listener.accept().await {
             Ok((stream, addr)) => {
+                let id = next_id;
+                next_id += 1;
                 handle.spawn(tcp_listener_spawn_stream(
+                    id,
                     stream,
                     addr,
                     handle.clone(),
@@ -153,17 +161,21 @@ async fn tcp_listener_inbound_loop<A, B>(
 /// outbound msgs, waits for the EventManager to conclude (when the stream
 /// is closed), and cleans up
 async fn tcp_listener_spawn_stream<A, B>(
+    id: u64,
     stream: TcpStream,
     addr: SocketAddr,
     handle: Handle,
     wire: Wire<A, B>,
-    connections: Arc<Mutex<HashMap<SocketAddr, mpsc::Sender<Vec<u8>>>>>,
+    connections: Connections,
     on_inbound_tx: mpsc::Sender<(Msg, SocketAddr, mpsc::Sender<Vec<u8>>)>,
     max_outbound_queue: usize,
 ) where
     A: Authenticator + Send + Sync + 'static,
     B: Bicrypter + Send + Sync + 'static,
 {
+    // NOTE: Locked while starting so that the connection can be found by those
+    //       receiving its first msg
+    let mut active_connections = connections.lock().await;
     let event_manager = EventManager::for_tcp_stream(
         handle,
         max_outbound_queue,
@@ -172,11 +184,10 @@ async fn tcp_listener_spawn_stream<A, B>(
         wire,
         on_inbound_tx,
     );
-
-    connections
-        .lock()
-        .await
-        .insert(addr, event_manager.tx.clone());
+    if active_connections.get(&addr).map_or(true, |x| x.0 < id) {
+        active_connections.insert(addr, (id, event_manager.tx.clone()));
+    }
+    drop(active_connections);
 
     let EventManager {
         inbound_handle,
@@ -189,7 +200,11 @@ async fn tcp_listener_spawn_stream<A, B>(
     if let Err(x) = inbound_handle.await {
         error!("Inbound loop exited badly: {}", x);
     }
-    connections.lock().await.remove(&addr);
+    let mut active_connections = connections.lock().await;
+    if active_connections.get(&addr).map(|x| x.0) == Some(id) {
+        active_connections.remove(&addr);
+    }
+    drop(active_connections);
 
     // Without the connection and our own sender, the outbound loop exits
     // (and closes the stream) once replies still in progress have been sent
-- 
2.43.0

