From 141febaca3b39ca7fd75499db3d78ed8d5e5af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:26 +0000
Subject: [PATCH 01/29] verification hook: re-export private modules under
 cfg(rust_raknet_verif)

---
 src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 1292fef..4a41803 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -38,6 +38,8 @@
 //! - [x] reliable ordered
 //! - [x] reliable sequenced
 
+#![allow(unexpected_cfgs)] // rust_raknet_verif
+
 mod arq;
 mod datatype;
 pub mod error;
@@ -48,6 +50,27 @@ mod server;
 mod socket;
 mod utils;
 
+/// Re-exports for the verification harnesses, only built with `--cfg rust_raknet_verif`.
+#[cfg(rust_raknet_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub mod arq {
+        pub use crate::arq::*;
+    }
+    pub mod datatype {
+        pub use crate::datatype::*;
+    }
+    pub mod fragment {
+        pub use crate::fragment::*;
+    }
+    pub mod packet {
+        pub use crate::packet::*;
+    }
+    pub mod utils {
+        pub use crate::utils::*;
+    }
+}
+
 pub use crate::arq::Reliability;
 pub use crate::log::enable_raknet_log;
 pub use crate::server::*;
-- 
2.43.0


From ac3c7e351aec237164a6750b06bf852667fe2771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 02/29] fix: return an error instead of panicking on truncated
 bytes and non UTF-8 strings

---
 src/datatype.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index fe9d08b..22bdc43 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -193,6 +193,10 @@ impl RaknetReader {
         }
     }
     pub fn read_u8(&mut self) -> Result<u8> {
+        if self.buf.remaining() < 1 {
+            return Err(RaknetError::ReadPacketBufferError);
+        }
+
         Ok(self.buf.get_u8())
     }
 
@@ -277,7 +281,10 @@ impl RaknetReader {
         }
 
         self.read(&mut buf)?;
-        Ok(String::from_utf8(buf.to_vec()).unwrap())
+        match String::from_utf8(buf.to_vec()) {
+            Ok(p) => Ok(p),
+            Err(_) => Err(RaknetError::ReadPacketBufferError),
+        }
     }
 
     pub fn read_magic(&mut self) -> Result<bool> {
-- 
2.43.0


From d9af02b48521d820ee11ca1a3db83a8172e7c646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 03/29] fix: write the version byte of IPv6 addresses and
 accept their real length

---
 src/datatype.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datatype.rs b/src/datatype.rs
index 22bdc43..d5a29b8 100644
--- a/src/datatype.rs
+++ b/src/datatype.rs
@@ -154,6 +154,7 @@ impl RaknetWriter {
             self.write_u16(address.port(), Endian::Big)?;
             Ok(())
         } else {
+            self.write_u8(0x6)?;
             self.write_i16(23, Endian::Little)?;
             self.write_u16(address.port(), Endian::Big)?;
             self.write_i32(0, Endian::Big)?;
@@ -318,7 +319,7 @@ impl RaknetReader {
             let port = self.read_u16(Endian::Big)?;
             Ok(SocketAddr::new(IpAddr::V4(ip), port))
         } else {
-            if self.buf.remaining() < 44 {
+            if self.buf.remaining() < 28 {
                 return Err(RaknetError::ReadPacketBufferError);
             }
 
-- 
2.43.0


From 6840b63d23c80d90414df9bc8b83bcb5294e71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 04/29] fix: FrameVec::new returns an error on truncated
 datagrams instead of panicking

---
 src/arq.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 026cbbf..18ecd90 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -277,8 +277,8 @@ impl FrameVec {
 
         let mut reader = RaknetReader::new(buf);
 
-        ret.id = reader.read_u8().unwrap();
-        ret.sequence_number = reader.read_u24(Endian::Little).unwrap();
+        ret.id = reader.read_u8()?;
+        ret.sequence_number = reader.read_u24(Endian::Little)?;
 
         while reader.pos() < size.try_into().unwrap() {
             let mut frame = FrameSetPacket {
@@ -298,32 +298,32 @@ impl FrameVec {
 
             //Top 3 bits are reliability type
             //224 = 1110 0000(b)
-            frame.flags = reader.read_u8().unwrap();
+            frame.flags = reader.read_u8()?;
 
-            frame.length_in_bytes = reader.read_u16(Endian::Big).unwrap() / 8;
+            frame.length_in_bytes = reader.read_u16(Endian::Big)? / 8;
 
             if frame.is_reliable()? {
-                frame.reliable_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.reliable_frame_index = reader.read_u24(Endian::Little)?;
             }
 
             if frame.is_sequenced()? {
-                frame.sequenced_frame_index = reader.read_u24(Endian::Little).unwrap();
+                frame.sequenced_frame_index = reader.read_u24(Endian::Little)?;
             }
             if frame.is_ordered()? {
-                frame.ordered_frame_index = reader.read_u24(Endian::Little).unwrap();
-                frame.order_channel = reader.read_u8().unwrap();
+                frame.ordered_frame_index = reader.read_u24(Endian::Little)?;
+                frame.order_channel = reader.read_u8()?;
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
             //flags and 16 [0001 0000(b)] == if fragmented
             if (frame.flags & 16) != 0 {
-                frame.compound_size = reader.read_u32(Endian::Big).unwrap();
-                frame.compound_id = reader.read_u16(Endian::Big).unwrap();
-                frame.fragment_index = reader.read_u32(Endian::Big).unwrap();
+                frame.compound_size = reader.read_u32(Endian::Big)?;
+                frame.compound_id = reader.read_u16(Endian::Big)?;
+                frame.fragment_index = reader.read_u32(Endian::Big)?;
             }
 
             let mut buf = vec![0u8; frame.length_in_bytes as usize].into_boxed_slice();
-            reader.read(&mut buf).unwrap();
+            reader.read(&mut buf)?;
             frame.data.append(&mut buf.to_vec());
             ret.frames.push(frame);
         }
-- 
2.43.0


From e3f8e75d26ff00e1881092eb0074d5ef1ccb8b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 05/29] fix: FrameVec::_serialize tests the fragment flag that
 the rest of the codec uses

---
 src/arq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 18ecd90..e366f21 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -368,8 +368,8 @@ impl FrameVec {
             }
 
             //fourth bit is 1 when the frame is fragmented and part of a compound.
-            //flags and 8 [0000 1000(b)] == if fragmented
-            if (frame.flags & 0x08) != 0 {
+            //flags and 16 [0001 0000(b)] == if fragmented
+            if (frame.flags & 16) != 0 {
                 writer.write_u32(frame.compound_size, Endian::Big).unwrap();
                 writer.write_u16(frame.compound_id, Endian::Big).unwrap();
                 writer.write_u32(frame.fragment_index, Endian::Big).unwrap();
-- 
2.43.0


From 676efba654bf69b10d5b73a8f0bc022414798ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 06/29] fix: wrap compound_id instead of overflowing after
 65536 fragmented packets

---
 src/arq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index e366f21..3c73bca 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -684,7 +684,7 @@ impl SendQ {
                         self.packets.push(frame);
                         self.reliable_frame_index += 1;
                     }
-                    self.compound_id += 1;
+                    self.compound_id = self.compound_id.wrapping_add(1);
                     self.ordered_frame_index += 1;
                 }
             }
-- 
2.43.0


From e53b51ed962c1cde5acd3f6dee41249089fc013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 07/29] fix: a NACKed packet is retransmitted at the next flush
 instead of being postponed

---
 src/arq.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/arq.rs b/src/arq.rs
index 3c73bca..f581690 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -731,7 +731,7 @@ impl SendQ {
         self.rto
     }
 
-    pub fn nack(&mut self, sequence: u32, tick: i64) {
+    pub fn nack(&mut self, sequence: u32, _tick: i64) {
         for i in 0..self.sent_packet.len() {
             let item = &mut self.sent_packet[i];
             if item.1 && item.0.sequence_number == sequence {
@@ -744,8 +744,7 @@ impl SendQ {
                 );
                 item.0.sequence_number = self.sequence_number;
                 self.sequence_number += 1;
-                item.2 = tick;
-                item.3 += 1;
+                item.1 = false;
                 item.4.push(item.0.sequence_number);
             }
         }
-- 
2.43.0


From b503bba035313c5a53b5b9c20c402d9371baa050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 08/29] fix: ignore fragments of an empty compound and
 duplicates of a merged compound

---
 src/arq.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/arq.rs b/src/arq.rs
index f581690..057eae5 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -493,6 +493,19 @@ impl RecvQ {
                 }
 
                 if frame.is_fragment() {
+                    // a compound without fragments can never be merged.
+                    if frame.compound_size == 0 {
+                        return Ok(());
+                    }
+
+                    // duplicate fragment of a compound that is already merged and waits for its turn.
+                    if self
+                        .ordered_packets
+                        .contains_key(&frame.ordered_frame_index)
+                    {
+                        return Ok(());
+                    }
+
                     self.fragment_queue.insert(frame);
 
                     for i in self.fragment_queue.flush()? {
-- 
2.43.0


From b69a3c56baeae8c777113236909cca20a14b3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:21 +0000
Subject: [PATCH 09/29] fix: keep the mtu announced by the peer within sane
 bounds

---
 src/arq.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arq.rs b/src/arq.rs
index 057eae5..6d867f0 100644
--- a/src/arq.rs
+++ b/src/arq.rs
@@ -608,9 +608,13 @@ impl SendQ {
     const RTO_UBOUND: i64 = 12000;
     const RTO_LBOUND: i64 = 50;
 
+    const MTU_LBOUND: u16 = 400;
+    const MTU_UBOUND: u16 = 1500;
+
     pub fn new(mtu: u16) -> Self {
         Self {
-            mtu,
+            // the mtu is announced by the peer, never trust it blindly.
+            mtu: mtu.clamp(SendQ::MTU_LBOUND, SendQ::MTU_UBOUND),
             ack_sequence_number: 0,
             sequence_number: 0,
             packets: vec![],
-- 
2.43.0


From 45730391e14b97c890f6fa53ff7ceca7166575a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 10/29] fix: a malformed datagram is ignored instead of killing
 the receiver task of the connection

---
 src/socket.rs | 51 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index ac90cf9..16f49a9 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -83,6 +83,10 @@ impl RaknetSocket {
         user_data_sender: &Sender<Vec<u8>>,
         incomming_notify: &Notify,
     ) -> Result<bool> {
+        if frame.data.is_empty() {
+            return Ok(true);
+        }
+
         match PacketID::from(frame.data[0])? {
             PacketID::ConnectionRequest => {
                 let packet = read_packet_connection_request(frame.data.as_slice())?;
@@ -437,7 +441,7 @@ impl RaknetSocket {
                 if connected.is_closed() {
                     let mut recvq = recvq.lock().await;
                     for f in recvq.flush(&peer_addr) {
-                        RaknetSocket::handle(
+                        if let Err(_e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
                             &local_addr,
@@ -446,7 +450,9 @@ impl RaknetSocket {
                             &incomming_notify,
                         )
                         .await
-                        .unwrap();
+                        {
+                            raknet_log_debug!("handle frame faild : {:?}", _e);
+                        }
                     }
                     break;
                 }
@@ -462,7 +468,11 @@ impl RaknetSocket {
 
                 last_heartbeat_time.store(cur_timestamp_millis(), Ordering::Relaxed);
 
-                if PacketID::from(buf[0]).unwrap() == PacketID::Disconnect {
+                if buf.is_empty() {
+                    continue;
+                }
+
+                if buf[0] == PacketID::Disconnect.to_u8() {
                     connected.close();
                     break;
                 }
@@ -470,7 +480,10 @@ impl RaknetSocket {
                 if buf[0] == PacketID::Ack.to_u8() {
                     //handle ack
                     let mut sendq = sendq.write().await;
-                    let ack = read_packet_ack(&buf).unwrap();
+                    let ack = match read_packet_ack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
                     for i in 0..ack.record_count {
                         if ack.sequences[i as usize].0 == ack.sequences[i as usize].1 {
                             sendq.ack(ack.sequences[i as usize].0, cur_timestamp_millis());
@@ -485,7 +498,10 @@ impl RaknetSocket {
 
                 if buf[0] == PacketID::Nack.to_u8() {
                     //handle nack
-                    let nack = read_packet_nack(&buf).unwrap();
+                    let nack = match read_packet_nack(&buf) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut sendq = sendq.write().await;
 
@@ -506,15 +522,20 @@ impl RaknetSocket {
                 if buf[0] >= PacketID::FrameSetPacketBegin.to_u8()
                     && buf[0] <= PacketID::FrameSetPacketEnd.to_u8()
                 {
-                    let frames = FrameVec::new(buf.clone()).unwrap();
+                    let frames = match FrameVec::new(buf.clone()) {
+                        Ok(p) => p,
+                        Err(_) => continue,
+                    };
 
                     let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        recvq.insert(frame).unwrap();
+                        if recvq.insert(frame).is_err() {
+                            continue;
+                        }
 
                         for f in recvq.flush(&peer_addr) {
-                            if !RaknetSocket::handle(
+                            match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
                                 &local_addr,
@@ -523,11 +544,17 @@ impl RaknetSocket {
                                 &incomming_notify,
                             )
                             .await
-                            .unwrap()
                             {
-                                raknet_log_info!("handle over");
-                                connected.close();
-                                is_break = true;
+                                Ok(true) => {}
+                                Ok(false) => {
+                                    raknet_log_info!("handle over");
+                                    connected.close();
+                                    is_break = true;
+                                }
+                                // a malformed frame must not take the connection down.
+                                Err(_e) => {
+                                    raknet_log_debug!("handle frame faild : {:?}", _e);
+                                }
                             };
                         }
 
-- 
2.43.0


From 3f3d655b60b9108c2937e4aec730c98038b30ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 11/29] fix: the listener ignores empty datagrams instead of
 parsing the previous one

---
 src/server.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 4ac5256..4bfde05 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -265,6 +265,10 @@ impl RaknetListener {
                     }
                 }
 
+                if size == 0 {
+                    continue;
+                }
+
                 let cur_status = match PacketID::from(buf[0]) {
                     Ok(p) => p,
                     Err(e) => {
-- 
2.43.0


From 6adff1eb1f7bc9fe62c82ec7726d0da68bb102ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 12/29] fix: a Disconnect for a finished session does not kill
 the listener

---
 src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4bfde05..57c3f4a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -454,7 +454,8 @@ impl RaknetListener {
                     PacketID::Disconnect => {
                         let mut sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
-                            sessions[&addr].1.send(buf[..size].to_vec()).await.unwrap();
+                            // the session may already be over, there is nobody to tell then.
+                            let _ = sessions[&addr].1.send(buf[..size].to_vec()).await;
                             sessions.remove(&addr);
                         }
                     }
-- 
2.43.0


From 9dd2497517b589c2ea104b8590d38dd7fb47cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 13/29] fix: send() returns ConnectionClosed when the
 connection closes meanwhile instead of panicking

---
 src/socket.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 16f49a9..14b32e2 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -843,7 +843,7 @@ impl RaknetSocket {
         let sender = self.sender.clone();
         for f in sendq.flush(cur_timestamp_millis(), &self.peer_addr) {
             let data = f.serialize().unwrap();
-            sender
+            if sender
                 .send((
                     data,
                     self.peer_addr,
@@ -851,7 +851,10 @@ impl RaknetSocket {
                     self.loss_rate.load(Ordering::Relaxed),
                 ))
                 .await
-                .unwrap();
+                .is_err()
+            {
+                return Err(RaknetError::ConnectionClosed);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 6b6c50c7dee393e3bc25fc9e298e5510f2d13e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 14/29] fix: connect() parses the received
 IncompatibleProtocolVersion, not its own request

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 14b32e2..15863a8 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -252,7 +252,7 @@ impl RaknetSocket {
 
             if reply1_buf[0] != PacketID::OpenConnectionReply1.to_u8() {
                 if reply1_buf[0] == PacketID::IncompatibleProtocolVersion.to_u8() {
-                    let _packet = match read_packet_incompatible_protocol_version(&buf[..size]) {
+                    let _packet = match read_packet_incompatible_protocol_version(&reply1_buf[..size]) {
                         Ok(p) => p,
                         Err(_) => return Err(RaknetError::NotSupportVersion),
                     };
-- 
2.43.0


From a9da3bd03ecfda99efc8e023e756a508970743e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 15/29] fix: the drop watcher cannot consume its own start
 notification and close a fresh socket

---
 src/server.rs | 4 ----
 src/socket.rs | 4 ----
 2 files changed, 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 57c3f4a..b79dc79 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -610,8 +610,6 @@ impl RaknetListener {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("listener drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -623,8 +621,6 @@ impl RaknetListener {
 
             raknet_log_debug!("listener drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
diff --git a/src/socket.rs b/src/socket.rs
index 15863a8..873c5eb 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -950,8 +950,6 @@ impl RaknetSocket {
         let drop_notifier = self.drop_notifier.clone();
         tokio::spawn(async move {
             raknet_log_debug!("socket drop watcher start");
-            drop_notifier.notify_one();
-
             drop_notifier.notified().await;
 
             if close_notifier.is_closed() {
@@ -963,8 +961,6 @@ impl RaknetSocket {
 
             raknet_log_debug!("socket drop watcher closed");
         });
-
-        self.drop_notifier.notified().await;
     }
 }
 
-- 
2.43.0


From 03c3d34deffbe747cff4896a202f228948a6f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 16/29] fix: RaknetListener::close() returns when listen() was
 never called

---
 src/server.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index b79dc79..4bc4467 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -573,7 +573,11 @@ impl RaknetListener {
             return Ok(());
         }
         self.close_notifier.close();
-        self.all_session_closed_notifier.notified().await;
+
+        // without listen() there is no session collecter that could answer.
+        if self.listened {
+            self.all_session_closed_notifier.notified().await;
+        }
 
         // wait all thread exit and drop socket pointer.
         while Arc::strong_count(self.socket.as_ref().unwrap()) != 1 {
-- 
2.43.0


From 776e0dc6b6ef93b7e5bf8be6f298c6943b277c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 17/29] fix: local_addr() of a closed listener returns an error
 instead of panicking

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 4bc4467..cb4dce8 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -558,7 +558,10 @@ impl RaknetListener {
     /// assert_eq!(socket.local_addr().unwrap().ip(), IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)));
     /// ```
     pub fn local_addr(&self) -> Result<SocketAddr> {
-        Ok(self.socket.as_ref().unwrap().local_addr().unwrap())
+        match self.socket.as_ref() {
+            Some(p) => Ok(p.local_addr().unwrap()),
+            None => Err(RaknetError::NotListen),
+        }
     }
 
     /// Close Raknet Server and all connections.
-- 
2.43.0


From dbbddc82cae27e5b231a268406ff354b8da13db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 18/29] fix: ping() measures latency on the local clock, a
 remote timestamp may be anything

---
 src/socket.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 873c5eb..13e87a6 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -806,7 +806,7 @@ impl RaknetSocket {
             };
 
             if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((p.time - packet.time, p.motd));
+                return Ok((cur_timestamp_millis() - packet.time, p.motd));
             };
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
-- 
2.43.0


From 2d53455e21c03a01784ee6a72ccd25cea2e5b967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:15 +0000
Subject: [PATCH 19/29] fix: a motd set after listen() is the one pongs carry

---
 src/server.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index cb4dce8..6f3ab3c 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -17,7 +17,7 @@ type SessionSender = (i64, Sender<Vec<u8>>);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
-    motd: String,
+    motd: Arc<std::sync::RwLock<String>>,
     socket: Option<Arc<UdpSocket>>,
     guid: u64,
     listened: bool,
@@ -50,7 +50,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -88,7 +88,7 @@ impl RaknetListener {
         let (connection_sender, connection_receiver) = channel::<RaknetSocket>(10);
 
         let ret = Self {
-            motd: String::new(),
+            motd: Arc::new(std::sync::RwLock::new(String::new())),
             socket: Some(Arc::new(s)),
             guid: rand::random(),
             listened: false,
@@ -208,7 +208,7 @@ impl RaknetListener {
             return;
         }
 
-        if self.motd.is_empty() {
+        if self.get_motd().await.is_empty() {
             self.set_motd(
                 SERVER_NAME,
                 MAX_CONNECTION,
@@ -224,7 +224,7 @@ impl RaknetListener {
         let guid = self.guid;
         let sessions = self.sessions.clone();
         let connection_sender = self.connection_sender.clone();
-        let motd = self.get_motd().await;
+        let motd = self.motd.clone();
 
         self.listened = true;
 
@@ -242,7 +242,6 @@ impl RaknetListener {
             raknet_log_debug!("start listen worker : {}", local_addr);
 
             loop {
-                let motd = motd.clone();
                 let size: usize;
                 let addr: SocketAddr;
 
@@ -288,7 +287,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -314,7 +313,7 @@ impl RaknetListener {
                             time: cur_timestamp_millis(),
                             guid,
                             magic: true,
-                            motd,
+                            motd: motd.read().unwrap().clone(),
                         };
 
                         let pong = match write_packet_pong(&packet) {
@@ -527,7 +526,7 @@ impl RaknetListener {
         game_type: &str,
         port: u16,
     ) {
-        self.motd = format!(
+        *self.motd.write().unwrap() = format!(
             "MCPE;{};{};{};0;{};{};Bedrock level;{};1;{};",
             server_name,
             mc_protocol_version,
@@ -547,7 +546,7 @@ impl RaknetListener {
     /// let motd = listener.get_motd().await;
     /// ```
     pub async fn get_motd(&self) -> String {
-        self.motd.clone()
+        self.motd.read().unwrap().clone()
     }
 
     /// Returns the socket address of the local half of this Raknet connection.
@@ -602,7 +601,7 @@ impl RaknetListener {
     /// socket.set_full_motd("motd").await;
     /// ```
     pub fn set_full_motd(&mut self, motd: String) -> Result<()> {
-        self.motd = motd;
+        *self.motd.write().unwrap() = motd;
         Ok(())
     }
 
-- 
2.43.0


From e8fc1cfb9c8a36ac9d5396ec54a09fa9b08135a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:16 +0000
Subject: [PATCH 20/29] fix: only the session collector removes a session, so
 that it cannot remove its successor

---
 src/server.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 6f3ab3c..2de1683 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -451,11 +451,12 @@ impl RaknetListener {
                         let _ = connection_sender.send(s).await;
                     }
                     PacketID::Disconnect => {
-                        let mut sessions = sessions.lock().await;
+                        // only the session collecter removes a session, it cannot tell
+                        // whether the address has been taken by a new one meanwhile.
+                        let sessions = sessions.lock().await;
                         if sessions.contains_key(&addr) {
                             // the session may already be over, there is nobody to tell then.
                             let _ = sessions[&addr].1.send(buf[..size].to_vec()).await;
-                            sessions.remove(&addr);
                         }
                     }
                     _ => {
@@ -463,10 +464,8 @@ impl RaknetListener {
                         if sessions.contains_key(&addr) {
                             match sessions[&addr].1.send(buf[..size].to_vec()).await {
                                 Ok(_) => {}
-                                Err(_) => {
-                                    sessions.remove(&addr);
-                                    continue;
-                                }
+                                // over, the session collecter is about to remove it.
+                                Err(_) => continue,
                             };
                             sessions.get_mut(&addr).unwrap().0 = cur_timestamp_millis();
                         }
-- 
2.43.0


From 1ae4d30c9dcae06ed39517ea6cf9e2512f965e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:17 +0000
Subject: [PATCH 21/29] fix: a client that did not get the second open
 connection reply gets it again

---
 src/server.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 2de1683..95fe70b 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -13,7 +13,7 @@ use crate::{raknet_log_debug, raknet_log_error, socket::*};
 const SERVER_NAME: &str = "Rust Raknet Server";
 const MAX_CONNECTION: u32 = 99999;
 
-type SessionSender = (i64, Sender<Vec<u8>>);
+type SessionSender = (i64, Sender<Vec<u8>>, u64);
 
 /// Implementation of Raknet Server.
 pub struct RaknetListener {
@@ -402,12 +402,17 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
-                        if sessions.contains_key(&addr) {
-                            let packet = write_packet_already_connected(&AlreadyConnected {
-                                magic: true,
-                                guid,
-                            })
-                            .unwrap();
+                        if let Some(session) = sessions.get(&addr) {
+                            // the same client asks again when it did not get the reply.
+                            let packet = if session.2 == req.guid {
+                                reply
+                            } else {
+                                write_packet_already_connected(&AlreadyConnected {
+                                    magic: true,
+                                    guid,
+                                })
+                                .unwrap()
+                            };
 
                             match socket.send_to(&packet, addr).await {
                                 Ok(_) => {}
@@ -447,7 +452,7 @@ impl RaknetListener {
                         .await;
 
                         raknet_log_debug!("accept connection : {}", addr);
-                        sessions.insert(addr, (cur_timestamp_millis(), sender));
+                        sessions.insert(addr, (cur_timestamp_millis(), sender, req.guid));
                         let _ = connection_sender.send(s).await;
                     }
                     PacketID::Disconnect => {
-- 
2.43.0


From 055794f466ea8ac20ba787549de0431e96464a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 22/29] fix: connect() returns an error when the connection
 ends before it was accepted

---
 src/socket.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index 13e87a6..5530624 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -415,7 +415,12 @@ impl RaknetSocket {
         ret.drop_watcher().await;
 
         raknet_log_debug!("wait incomming notify");
-        ret.incomming_notifier.notified().await;
+        tokio::select! {
+            _ = ret.incomming_notifier.notified() => {}
+            _ = ret.close_notifier.acquire() => {
+                return Err(RaknetError::ConnectionClosed);
+            }
+        }
 
         Ok(ret)
     }
-- 
2.43.0


From f1838f2b9d5c5d322dcc8e3a5ebde775d9591ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:18 +0000
Subject: [PATCH 23/29] fix: no session is created after the listener has been
 closed

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index 95fe70b..aa2c8a7 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -402,6 +402,11 @@ impl RaknetListener {
 
                         let mut sessions = sessions.lock().await;
 
+                        // the session collecter does not wait for sessions that are created from now on.
+                        if close_notify.is_closed() {
+                            break;
+                        }
+
                         if let Some(session) = sessions.get(&addr) {
                             // the same client asks again when it did not get the reply.
                             let packet = if session.2 == req.guid {
-- 
2.43.0


From dd9bcae3d854b54f19388b12a24affe40ce45878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:00 +0000
Subject: [PATCH 24/29] fix: connection requests are ignored while nobody
 accepts connections instead of stalling the listener

---
 src/server.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index aa2c8a7..df4d583 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -429,6 +429,11 @@ impl RaknetListener {
                             continue;
                         }
 
+                        // nobody accepts connections at the moment, the client will ask again.
+                        if connection_sender.capacity() == 0 {
+                            continue;
+                        }
+
                         match socket.send_to(&reply, addr).await {
                             Ok(_) => {}
                             Err(e) => {
-- 
2.43.0


From 3168db2a9287b74c453bc7b5f34fb79940fe13ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:30 +0000
Subject: [PATCH 25/29] fix: ping() takes only a complete unconnected pong for
 an answer

---
 src/socket.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 5530624..c738dfb 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -795,7 +795,7 @@ impl RaknetSocket {
 
             let mut buf = [0u8; 1024];
 
-            match match tokio::time::timeout(
+            let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
                 s.recv_from(&mut buf),
             )
@@ -810,9 +810,11 @@ impl RaknetSocket {
                 Err(_) => return Err(RaknetError::SocketError),
             };
 
-            if let Ok(p) = read_packet_pong(&buf) {
-                return Ok((cur_timestamp_millis() - packet.time, p.motd));
-            };
+            if size != 0 && buf[0] == PacketID::UnconnectedPong.to_u8() {
+                if let Ok(p) = read_packet_pong(&buf[..size]) {
+                    return Ok((cur_timestamp_millis() - packet.time, p.motd));
+                };
+            }
 
             tokio::time::sleep(std::time::Duration::from_secs(2)).await;
         }
-- 
2.43.0


From 4aca9235c0f3324ef9795359058483b5f74c44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:45 +0000
Subject: [PATCH 26/29] fix: ping() receives motds of more than 989 bytes

---
 src/socket.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/socket.rs b/src/socket.rs
index c738dfb..9fe9a40 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -793,7 +793,8 @@ impl RaknetSocket {
                 }
             };
 
-            let mut buf = [0u8; 1024];
+            // a motd may fill the largest datagram.
+            let mut buf = vec![0u8; 65535];
 
             let (size, _) = match match tokio::time::timeout(
                 std::time::Duration::from_secs(5),
-- 
2.43.0


From 7189975d3ab0d62aea759fcd8f5616caca3d3aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:44 +0000
Subject: [PATCH 27/29] fix: a connection with a full receive queue still
 sends, times out and closes

---
 src/socket.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 9fe9a40..9acfaa1 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -444,8 +444,8 @@ impl RaknetSocket {
         tokio::spawn(async move {
             loop {
                 if connected.is_closed() {
-                    let mut recvq = recvq.lock().await;
-                    for f in recvq.flush(&peer_addr) {
+                    let frames = recvq.lock().await.flush(&peer_addr);
+                    for f in frames {
                         if let Err(_e) = RaknetSocket::handle(
                             &f,
                             &peer_addr,
@@ -532,14 +532,18 @@ impl RaknetSocket {
                         Err(_) => continue,
                     };
 
-                    let mut recvq = recvq.lock().await;
                     let mut is_break = false;
                     for frame in frames.frames {
-                        if recvq.insert(frame).is_err() {
-                            continue;
-                        }
+                        // the ticker needs recvq too, never hold it while waiting for the user.
+                        let flushed = {
+                            let mut recvq = recvq.lock().await;
+                            if recvq.insert(frame).is_err() {
+                                continue;
+                            }
+                            recvq.flush(&peer_addr)
+                        };
 
-                        for f in recvq.flush(&peer_addr) {
+                        for f in flushed {
                             match RaknetSocket::handle(
                                 &f,
                                 &peer_addr,
@@ -569,7 +573,7 @@ impl RaknetSocket {
                     }
 
                     //flush ack
-                    let acks = recvq.get_ack();
+                    let acks = recvq.lock().await.get_ack();
 
                     if !acks.is_empty() {
                         let packet = Ack {
-- 
2.43.0


From f14cce9239f038e1bee9840d85bd4445604d7456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:43 +0000
Subject: [PATCH 28/29] fix: a client connection listens to its server only

---
 src/socket.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 9acfaa1..4289729 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -292,7 +292,7 @@ impl RaknetSocket {
             };
 
             let mut buf = [0u8; 2048];
-            let (size, _) =
+            let (size, src) =
                 match match timeout(std::time::Duration::from_secs(2), s.recv_from(&mut buf)).await
                 {
                     Ok(p) => p,
@@ -308,6 +308,12 @@ impl RaknetSocket {
                     }
                 };
 
+            // only the server that answered the first request takes part.
+            if src != remote_addr {
+                raknet_log_debug!("reply2 from another address");
+                continue;
+            }
+
             if buf[0] == PacketID::OpenConnectionReply1.to_u8() {
                 raknet_log_debug!("repeat receive reply1");
                 continue;
@@ -356,7 +362,7 @@ impl RaknetSocket {
                 if connected_s.is_closed() {
                     break;
                 }
-                let (size, _) = match match timeout(
+                let (size, src) = match match timeout(
                     std::time::Duration::from_secs(10),
                     recv_s.recv_from(&mut buf),
                 )
@@ -379,6 +385,11 @@ impl RaknetSocket {
                     }
                 };
 
+                // whoever else sends to this port is not the peer.
+                if src != remote_addr {
+                    continue;
+                }
+
                 match sender.send(buf[..size].to_vec()).await {
                     Ok(_) => {}
                     Err(e) => {
-- 
2.43.0


From cd3de5d5af96241caac34b36cc79ddc46b5f2195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:17 +0000
Subject: [PATCH 29/29] fix: connect() and ping() reach servers at IPv6
 addresses

The socket was always bound to an IPv4 address: connect() retried for ever and
ping() failed.
---
 src/socket.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/socket.rs b/src/socket.rs
index 4289729..a813b75 100644
--- a/src/socket.rs
+++ b/src/socket.rs
@@ -38,6 +38,14 @@ pub struct RaknetSocket {
     raknet_version: u8,
 }
 
+// A socket can only reach peers of its own address family.
+fn any_local_addr(peer_addr: &SocketAddr) -> SocketAddr {
+    match peer_addr {
+        SocketAddr::V4(_) => (std::net::Ipv4Addr::UNSPECIFIED, 0).into(),
+        SocketAddr::V6(_) => (std::net::Ipv6Addr::UNSPECIFIED, 0).into(),
+    }
+}
+
 impl RaknetSocket {
     /// Create a Raknet Socket from a UDP socket with an established Raknet connection
     ///
@@ -201,7 +209,7 @@ impl RaknetSocket {
     pub async fn connect_with_version(addr: &SocketAddr, raknet_version: u8) -> Result<Self> {
         let guid: u64 = rand::random();
 
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(any_local_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
@@ -786,7 +794,7 @@ impl RaknetSocket {
     /// assert!((0..10).contains(&latency));
     /// ```
     pub async fn ping(addr: &SocketAddr) -> Result<(i64, String)> {
-        let s = match UdpSocket::bind("0.0.0.0:0").await {
+        let s = match UdpSocket::bind(any_local_addr(addr)).await {
             Ok(p) => p,
             Err(_) => return Err(RaknetError::BindAdressError),
         };
-- 
2.43.0

