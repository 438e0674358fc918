From d593345df3362e03b1b6b1aae3cdeeff03b6094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:43 +0000
Subject: [PATCH 01/21] verif: guarded hooks (cfg quic_sea_verif) for the
 verification harness

---
 src/connection.rs  | 24 ++++++++++++
 src/interface.rs   | 11 ++++++
 src/lib.rs         |  5 +++
 src/packet.rs      | 96 ++++++++++++++++++++++++++++++++++++++++++++++
 src/quictls/mod.rs | 10 ++++-
 src/routing.rs     | 77 +++++++++++++++++++++++++++++++++++++
 src/verif.rs       | 34 ++++++++++++++++
 7 files changed, 256 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/connection.rs b/src/connection.rs
index 060251d..6924ad1 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -246,3 +246,27 @@ impl Connection {
         self.version.get_version_field_val()
     }
 }
+
+// state that is not otherwise reachable yet, for the verification harness
+#[cfg(quic_sea_verif)]
+impl Connection {
+    pub fn verif_set_secrets(
+        &mut self,
+        pn_space: PacketNumberSpace,
+        local: Option<quictls::Secrets>,
+        remote: Option<quictls::Secrets>,
+    ) {
+        let pn_info = self.borrow_mut_pn_info(pn_space);
+        pn_info.local_tls_secrets = local;
+        pn_info.remote_tls_secrets = remote;
+    }
+    pub fn verif_set_largest_remote(&mut self, pn_space: PacketNumberSpace, val: Option<u64>) {
+        self.borrow_mut_pn_info(pn_space).largest_remote_ack = val;
+    }
+    pub fn verif_set_largest_local_ack(&mut self, pn_space: PacketNumberSpace, val: Option<u64>) {
+        self.borrow_mut_pn_info(pn_space).largest_local_ack = val;
+    }
+    pub fn verif_set_next_pn(&mut self, pn_space: PacketNumberSpace, val: u64) {
+        self.borrow_mut_pn_info(pn_space).next_pn = val;
+    }
+}
diff --git a/src/interface.rs b/src/interface.rs
index ee73893..339a93b 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -48,3 +48,14 @@ impl QuicSocket {
     }
     pub fn set_log_traffic(&self, _log_traffic_flag: bool) {}
 }
+
+// handle to a registered connection, for the verification harness
+#[cfg(quic_sea_verif)]
+impl QuicStream {
+    pub fn verif_new(socket: &crate::routing::verif::Socket, connection_id: U160) -> Self {
+        Self {
+            socket: socket.0.clone(),
+            connection_id,
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index 206771c..8a2f110 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)] // quic_sea_verif
 mod connection;
 mod error;
 mod frame;
@@ -11,3 +12,7 @@ mod transport_parameters;
 mod utils;
 mod version;
 pub use interface::*;
+
+// re-exports for the verification harness, see src/verif.rs
+#[cfg(quic_sea_verif)]
+pub mod verif;
diff --git a/src/packet.rs b/src/packet.rs
index 8e0aeb6..a723ef3 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -816,6 +816,102 @@ where
     Ok(rv)
 }
 
+// read access to packets for the verification harness
+#[cfg(quic_sea_verif)]
+pub mod verif {
+    use super::*;
+
+    #[derive(Debug)]
+    pub struct PacketView<'a> {
+        pub packet_type: PacketType,
+        /// header bytes as written back after header protection was removed
+        pub header_bytes: Vec<u8>,
+        pub token: Option<&'a [u8]>,
+        pub packet_number: Option<u64>,
+        pub frames: Option<&'a [Frame]>,
+        /// destination id, source id and versions of a version negotiation packet
+        pub version_negotiation: Option<(&'a [u8], &'a [u8], &'a [u32])>,
+    }
+
+    pub fn view(packet: &Packet) -> PacketView<'_> {
+        match packet {
+            Packet::VersionNegotiation(x) => {
+                let ids = x.header.version_negotiation.as_ref().unwrap();
+                PacketView {
+                    packet_type: PacketType::VersionNegotiation,
+                    header_bytes: vec![],
+                    token: None,
+                    packet_number: None,
+                    frames: None,
+                    version_negotiation: Some((
+                        &ids.destination_connection_id[..],
+                        &ids.source_connection_id[..],
+                        &x.supported_versions[..],
+                    )),
+                }
+            }
+            Packet::Initial(x) => PacketView {
+                packet_type: PacketType::Initial,
+                header_bytes: x.header.to_bytes(),
+                token: Some(&x.token[..]),
+                packet_number: Some(x.packet_number),
+                frames: Some(&x.packet_payload[..]),
+                version_negotiation: None,
+            },
+            Packet::ZeroRtt(x) => PacketView {
+                packet_type: PacketType::ZeroRtt,
+                header_bytes: x.header.to_bytes(),
+                token: None,
+                packet_number: Some(x.packet_number),
+                frames: Some(&x.packet_payload[..]),
+                version_negotiation: None,
+            },
+            Packet::Handshake(x) => PacketView {
+                packet_type: PacketType::Handshake,
+                header_bytes: x.header.to_bytes(),
+                token: None,
+                packet_number: Some(x.packet_number),
+                frames: Some(&x.packet_payload[..]),
+                version_negotiation: None,
+            },
+            Packet::Retry(_) => PacketView {
+                packet_type: PacketType::Retry,
+                header_bytes: vec![],
+                token: None,
+                packet_number: None,
+                frames: None,
+                version_negotiation: None,
+            },
+            Packet::OneRtt(x) => PacketView {
+                packet_type: PacketType::OneRtt,
+                header_bytes: x.header.to_bytes(),
+                token: None,
+                packet_number: Some(x.packet_number),
+                frames: Some(&x.packet_payload[..]),
+                version_negotiation: None,
+            },
+        }
+    }
+
+    impl PacketInitial {
+        pub fn verif_serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
+            self.serialize(connection)
+        }
+        pub fn verif_packet_number(&self) -> u64 {
+            self.packet_number
+        }
+    }
+
+    impl PacketHandshake {
+        pub fn verif_serialize(&self, connection: &Connection) -> error::Result<Vec<u8>> {
+            self.serialize(connection)
+        }
+        pub fn verif_packet_number(&self) -> u64 {
+            self.packet_number
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use crate::connection::Connection;
diff --git a/src/quictls/mod.rs b/src/quictls/mod.rs
index 3fd1d88..a18715c 100644
--- a/src/quictls/mod.rs
+++ b/src/quictls/mod.rs
@@ -1,4 +1,12 @@
 mod cipher_suite;
 mod secrets;
 pub mod utils;
-pub use secrets::Secrets;
\ No newline at end of file
+pub use secrets::Secrets;
+
+// cipher suite items for the verification harness
+#[cfg(quic_sea_verif)]
+pub mod verif {
+    pub use super::cipher_suite::{
+        hkdf_expand_label_sha256, hkdf_extract_sha256, QuicTlsCipherSuite, TLS13_AES_128_GCM_SHA256,
+    };
+}
diff --git a/src/routing.rs b/src/routing.rs
index 92f0617..ea9ec0b 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -196,3 +196,80 @@ impl InternalQuicSocket {
         self.streams.write().unwrap().remove(&cid);
     }
 }
+
+// drives a socket without a peer implementation, for the verification harness
+#[cfg(quic_sea_verif)]
+pub mod verif {
+    use super::*;
+    use std::sync::Arc;
+    use std::time::Duration;
+
+    #[derive(Debug, Clone)]
+    pub struct Socket(pub(crate) Arc<InternalQuicSocket>);
+
+    fn datagram(data: &[u8]) -> InternalDatagram {
+        InternalDatagram {
+            data: data.to_vec(),
+            addr: SocketAddr::from(([127, 0, 0, 1], 4433)),
+        }
+    }
+
+    impl Socket {
+        pub fn bind<A: ToSocketAddrs>(addresses: A) -> std::io::Result<Self> {
+            Ok(Self(Arc::new(InternalQuicSocket::bind(addresses)?)))
+        }
+        pub fn local_addr(&self) -> std::io::Result<SocketAddr> {
+            self.0.socket.lock().unwrap().local_addr()
+        }
+        pub fn set_read_timeout(&self, dur: Option<Duration>) -> std::io::Result<()> {
+            self.0.socket.lock().unwrap().set_read_timeout(dur)
+        }
+        pub fn set_log(&self, flag: bool) {
+            *self.0.log_traffic.write().unwrap() = flag;
+        }
+        /// registers a connection under an issued id
+        pub fn insert(&self, id: u64, connection: Connection) {
+            self.0
+                .streams
+                .write()
+                .unwrap()
+                .insert(U160::from(id), InternalQuicStream::from_connection(connection));
+        }
+        pub fn remove(&self, id: U160) {
+            self.0.drop_connection(id)
+        }
+        pub fn ids(&self) -> Vec<U160> {
+            self.0.streams.read().unwrap().keys().cloned().collect()
+        }
+        /// datagrams queued on a connection, removing them
+        pub fn drain(&self, id: U160) -> Option<Vec<(Vec<u8>, SocketAddr)>> {
+            self.0.streams.read().unwrap().get(&id).map(|x| {
+                x.receiver
+                    .try_iter()
+                    .map(|d| (d.data, d.addr))
+                    .collect::<Vec<_>>()
+            })
+        }
+        pub fn with_connection<R>(&self, id: U160, f: impl FnOnce(&Connection) -> R) -> Option<R> {
+            self.0
+                .streams
+                .read()
+                .unwrap()
+                .get(&id)
+                .map(|x| f(&x.connection.read().unwrap()))
+        }
+        pub fn route(&self, data: &[u8]) -> error::Result<()> {
+            self.0.route_datagram(datagram(data))
+        }
+        pub fn packets(&self, data: &[u8]) -> error::Result<Vec<Packet>> {
+            self.0.packets_from_datagram(&datagram(data))
+        }
+        pub fn next_initial(&self) -> std::io::Result<(Vec<u8>, SocketAddr)> {
+            let x = self.0.recv_new_initial_datagram()?;
+            Ok((x.data, x.addr))
+        }
+        pub fn accept(&self) -> std::io::Result<U160> {
+            self.0.accept()
+        }
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..8084519
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,34 @@
+//! Access to crate-internal items for the verification harness.
+//!
+//! Compiled only with `--cfg quic_sea_verif`.
+
+pub mod connection {
+    pub use crate::connection::*;
+}
+pub mod error {
+    pub use crate::error::*;
+}
+pub mod frame {
+    pub use crate::frame::*;
+}
+pub mod packet {
+    pub use crate::packet::verif::*;
+    pub use crate::packet::*;
+}
+pub mod quictls {
+    pub use crate::quictls::verif::*;
+    pub use crate::quictls::*;
+}
+pub mod routing {
+    pub use crate::routing::verif::*;
+}
+pub mod transport_parameters {
+    pub use crate::transport_parameters::*;
+}
+pub mod utils {
+    pub use crate::utils::prelude;
+    pub use crate::utils::*;
+}
+pub mod version {
+    pub use crate::version::*;
+}
-- 
2.43.0


From 7379f19eedba54217d092e5b1c8ffec8d9052892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:30 +0000
Subject: [PATCH 02/21] verif: guarded hook to choose the next random
 connection ids (cfg quic_sea_verif)

---
 src/quictls/utils.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/quictls/utils.rs b/src/quictls/utils.rs
index ec02c80..017175b 100644
--- a/src/quictls/utils.rs
+++ b/src/quictls/utils.rs
@@ -1,7 +1,28 @@
 use openssl::rand::rand_bytes;
 
 pub fn get_connection_id() -> u64 {
+    #[cfg(quic_sea_verif)]
+    if let Some(x) = verif::next_forced_id() {
+        return x;
+    }
     let mut buff = [0u8; 8];
     rand_bytes(&mut buff).unwrap();
     u64::from_be_bytes(buff)
-}
\ No newline at end of file
+}
+
+// lets the verification harness choose the next random ids of a thread, to provoke collisions
+#[cfg(quic_sea_verif)]
+pub mod verif {
+    use std::cell::RefCell;
+    use std::collections::VecDeque;
+
+    thread_local! {
+        static FORCED: RefCell<VecDeque<u64>> = RefCell::new(VecDeque::new());
+    }
+    pub(super) fn next_forced_id() -> Option<u64> {
+        FORCED.with(|x| x.borrow_mut().pop_front())
+    }
+    pub fn force_connection_ids(ids: &[u64]) {
+        FORCED.with(|x| *x.borrow_mut() = ids.iter().cloned().collect())
+    }
+}
-- 
2.43.0


From d6910745c60eef0cda9339558ea18a85e783fa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:28 +0000
Subject: [PATCH 03/21] fix: preferred_address lacks the connection id length
 and the stateless reset token

RFC 9000 section 18.2 lays the value out as addresses and ports followed by a
one-byte connection id length, the connection id and a 16-byte stateless reset
token. Without the length and the token the value cannot be parsed.
---
 src/transport_parameters.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 92941a0..36e08f0 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -8,6 +8,7 @@ pub struct PreferredAddress {
     ipv6_address: Ipv6Addr,
     ipv6_port: u16,
     connection_id: Vec<u8>,
+    stateless_reset_token: [u8; 16],
 }
 
 impl PreferredAddress {
@@ -17,7 +18,9 @@ impl PreferredAddress {
             &self.ipv4_port.to_be_bytes()[..],
             &self.ipv6_address.octets()[..],
             &self.ipv6_port.to_be_bytes()[..],
+            &[self.connection_id.len() as u8][..],
             &self.connection_id[..],
+            &self.stateless_reset_token[..],
         ]
         .concat()
     }
-- 
2.43.0


From ead0e4b4cc873c4004acf15d15b1161042801f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:28 +0000
Subject: [PATCH 04/21] verif: guarded constructor for PreferredAddress (cfg
 quic_sea_verif)

---
 src/transport_parameters.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/transport_parameters.rs b/src/transport_parameters.rs
index 36e08f0..b5dddc9 100644
--- a/src/transport_parameters.rs
+++ b/src/transport_parameters.rs
@@ -93,3 +93,25 @@ impl TransportParameter {
         Ok([&identifier_bytes[..], &length_bytes[..], &value_bytes[..]].concat())
     }
 }
+
+// construction for the verification harness
+#[cfg(quic_sea_verif)]
+impl PreferredAddress {
+    pub fn verif_new(
+        ipv4_address: Ipv4Addr,
+        ipv4_port: u16,
+        ipv6_address: Ipv6Addr,
+        ipv6_port: u16,
+        connection_id: Vec<u8>,
+        stateless_reset_token: [u8; 16],
+    ) -> Self {
+        Self {
+            ipv4_address,
+            ipv4_port,
+            ipv6_address,
+            ipv6_port,
+            connection_id,
+            stateless_reset_token,
+        }
+    }
+}
-- 
2.43.0


From aed7dfc0aa03d3cbfa675cc4a94a87dc3683a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:33 +0000
Subject: [PATCH 05/21] fix: decode_var_int reads 4 and 8 byte integers as 3
 and 4 bytes

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 922da40..98cc9ac 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -324,7 +324,7 @@ pub fn decode_var_int(data: &[u8]) -> error::Result<(u64, usize)> {
     if data.len() == 0 {
         return Err(Error::InternalError("missing first byte for varint"));
     }
-    let n_shifts = usize::from(data[0] >> 6);
+    let n_shifts = (1usize << (data[0] >> 6)) - 1;
     if data.len() < n_shifts + 1 {
         return Err(Error::InternalError("not enough bytes for varint"));
     }
-- 
2.43.0


From f5db6dfbb13b6dc2c6aed008060fed9ba14d8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:34 +0000
Subject: [PATCH 06/21] fix: offset and length bits of a STREAM frame type are
 never recognised

---
 src/frame.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 360cfaf..063d18c 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -298,8 +298,8 @@ impl FrameStream {
     where
         T: Iterator<Item = error::Result<u8>>,
     {
-        let has_offset = type_byte & 0x04 == 1;
-        let has_length = type_byte & 0x02 == 1;
+        let has_offset = type_byte & 0x04 != 0;
+        let has_length = type_byte & 0x02 != 0;
         let is_fin = type_byte & 0x01 == 1;
         let stream_id = var_int_from_stream(datagram)?;
         let offset = if has_offset {
-- 
2.43.0


From 586c6e50419d4acb304773687625e286df09bb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:36 +0000
Subject: [PATCH 07/21] fix: CRYPTO frame with an offset reads offset bytes too
 many

---
 src/frame.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/frame.rs b/src/frame.rs
index 063d18c..705f0e7 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -222,8 +222,7 @@ impl FrameCrypto {
     {
         let offset = var_int_from_stream(datagram)?;
         let length = var_int_from_stream(datagram)?;
-        let total_size = (length + offset) as usize;
-        let crypto_data = var_bytes_from_stream(datagram, total_size)?;
+        let crypto_data = var_bytes_from_stream(datagram, length as usize)?;
         Ok(Self {
             offset,
             length,
-- 
2.43.0


From a72cce80ada6b9bda686c8b7a0eb588da0967aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:37 +0000
Subject: [PATCH 08/21] fix: unknown frame types above 0xff are taken for the
 frame of their low byte

---
 src/frame.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frame.rs b/src/frame.rs
index 705f0e7..6ed4ad2 100644
--- a/src/frame.rs
+++ b/src/frame.rs
@@ -798,7 +798,8 @@ where
     T: Iterator<Item = error::Result<u8>>,
 {
     let type_byte = var_int_from_stream(datagram)?;
-    let type_byte = (type_byte & (1 << 8) - 1) as u8;
+    let type_byte =
+        u8::try_from(type_byte).map_err(|_| Error::InternalError("Invalid type byte"))?;
     match type_byte {
         0x00 => Ok(Frame::Padding),
         0x01 => Ok(Frame::Ping),
-- 
2.43.0


From e33f324742f7422014c6762acc48d3c40145abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:39 +0000
Subject: [PATCH 09/21] fix: decrypting a payload shorter than the AEAD tag
 panics

---
 src/quictls/cipher_suite.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/quictls/cipher_suite.rs b/src/quictls/cipher_suite.rs
index d8cb9b4..0c6bfdf 100644
--- a/src/quictls/cipher_suite.rs
+++ b/src/quictls/cipher_suite.rs
@@ -151,6 +151,9 @@ fn internal_decrypt_aes_128_gcm(
     associated_data: &[u8],
     payload: &[u8],
 ) -> error::Result<Vec<u8>> {
+    if payload.len() < AES_128_GCM_TAG_LEN {
+        return Err(Error::InternalError("payload too short for aes_128_gcm tag"));
+    }
     let tag = &payload[(payload.len() - AES_128_GCM_TAG_LEN)..];
     let cipher_text = &payload[..(payload.len() - 16)];
     decrypt_aead(
-- 
2.43.0


From 5506d2566d8106594a22650c8889fba6480cac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:40 +0000
Subject: [PATCH 10/21] fix: a datagram with a malformed header panics the
 packet decoder

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index a723ef3..03292bb 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -773,7 +773,7 @@ where
     T: Iterator<Item = error::Result<u8>> + Clone,
 {
     let mut header_stream = stream.clone();
-    let header = next_header_from_stream(&mut header_stream).unwrap();
+    let header = next_header_from_stream(&mut header_stream)?;
     match header {
         PacketHeader::Short(_) => {
             let res = PacketOneRtt::from_stream(stream, connection)?;
-- 
2.43.0


From adce623b75083e0f6a525f205c8dafba0e765dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:41 +0000
Subject: [PATCH 11/21] fix: a received Retry packet panics the packet decoder

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 03292bb..609ad38 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -530,7 +530,7 @@ impl PacketRetry {
         T: Iterator<Item = error::Result<u8>>,
     {
         // TODO implement this after retry packet integrity implemented
-        todo!();
+        Err(Error::InternalError("retry packets are not supported"))
         // let version = u32::from_datagram(stream)?;
         // let destination_connection_id_length = u8::from_datagram(stream)?;
         // if destination_connection_id_length > 20 {
-- 
2.43.0


From 9a67f8efd61cb8413729897de708af9abbc7f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:43 +0000
Subject: [PATCH 12/21] fix: a length field shorter than the packet number
 panics the packet decoder

---
 src/packet.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 609ad38..329516c 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -268,8 +268,10 @@ impl PacketInitial {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let payload_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too short"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, payload_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -368,8 +370,10 @@ impl PacketZeroRtt {
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let payload_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too short"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, payload_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
@@ -449,8 +453,10 @@ impl PacketHandshake {
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
             connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
-        let protected_frame_data =
-            var_bytes_from_stream(stream, length as usize - packet_number_length)?;
+        let payload_length = (length as usize)
+            .checked_sub(packet_number_length)
+            .ok_or(Error::InternalError("packet length too short"))?;
+        let protected_frame_data = var_bytes_from_stream(stream, payload_length)?;
         // create associated data
         let associated_data = [
             &header.to_bytes()[..],
-- 
2.43.0


From 7ac1df15d5be4c6fac8f77ce382865e9247b016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:30 +0000
Subject: [PATCH 13/21] fix: Handshake packet number is reconstructed from
 bytes beyond it

---
 src/packet.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/packet.rs b/src/packet.rs
index 329516c..051f375 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -452,7 +452,7 @@ impl PacketHandshake {
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
-            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_bytes[..])?;
+            connection.reconstruct_remote_pn(Self::PN_SPACE, &packet_number_vec[..])?;
         let payload_length = (length as usize)
             .checked_sub(packet_number_length)
             .ok_or(Error::InternalError("packet length too short"))?;
-- 
2.43.0


From 4f20066bd86738d5f628be40dbf12aaaf21b2aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:32 +0000
Subject: [PATCH 14/21] fix: packets with a packet number shorter than 4 bytes
 lose payload bytes

---
 src/packet.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index 051f375..c8de6e2 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -259,11 +259,13 @@ impl PacketInitial {
         let token = var_bytes_from_stream(stream, token_length as usize)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // consume only the bytes that are part of the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -361,11 +363,13 @@ impl PacketZeroRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // consume only the bytes that are part of the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
@@ -443,12 +447,14 @@ impl PacketHandshake {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = LongPacketHeader::from_stream(stream, header_byte)?;
         let (length, length_bytes) = utils::var_int_with_bytes_from_stream(stream)?;
-        let mut packet_number_bytes = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes = var_bytes_from_stream(&mut offset_stream, 4)?;
         // assumes packet is encoded by the remote
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // consume only the bytes that are part of the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes, &mask)?;
         let packet_number_vec = packet_number_bytes[..packet_number_length].to_vec();
         let packet_number =
@@ -683,11 +689,13 @@ impl PacketOneRtt {
         let header_byte = u8::from_datagram(stream)?;
         let mut header = ShortPacketHeader::from_stream(stream, header_byte)?;
         // get largest potential packet number
-        let mut packet_number_bytes_protected = var_bytes_from_stream(stream, 4)?;
         let mut offset_stream = stream.clone();
+        let mut packet_number_bytes_protected = var_bytes_from_stream(&mut offset_stream, 4)?;
         let mask = connection.get_remote_hp_mask(Self::PN_SPACE, &mut offset_stream)?;
         header.remove_protection(&mask);
         let packet_number_length = header.packet_number_length()?;
+        // consume only the bytes that are part of the packet number
+        var_bytes_from_stream(stream, packet_number_length)?;
         xor_pn_protection(&mut packet_number_bytes_protected, &mask)?;
         let packet_number_bytes = packet_number_bytes_protected[..packet_number_length].to_vec();
         let packet_number =
-- 
2.43.0


From 92faea0f86eab7988d8f4274da66b1602476d107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:33 +0000
Subject: [PATCH 15/21] fix: truncated packet numbers are too short to be
 reconstructed

---
 src/connection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection.rs b/src/connection.rs
index 6924ad1..aa737d6 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -48,7 +48,8 @@ fn truncate_pn(pn: u64, largest_ack: Option<u64>) -> error::Result<Vec<u8>> {
                 ));
             }
             let diff = pn - x;
-            let bit_len = diff.floor_log2()?;
+            // one more bit than the distance needs, RFC 9000 section 17.1
+            let bit_len = diff.floor_log2()? + 1;
             let byte_len = bit_len / 8 + if bit_len % 8 == 0 { 0 } else { 1 };
             Ok(pn.to_be_bytes()[(8 - byte_len)..].to_vec())
         }
-- 
2.43.0


From fd344afc4c9aacf68f0b4f8f24e1bec14bc6e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:34 +0000
Subject: [PATCH 16/21] fix: packet numbers are not reconstructed as RFC 9000
 appendix A.3 requires

---
 src/connection.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/connection.rs b/src/connection.rs
index aa737d6..a9d8425 100644
--- a/src/connection.rs
+++ b/src/connection.rs
@@ -204,15 +204,18 @@ impl Connection {
         let mut tp_pn_bytes = [0u8; 4];
         tp_pn_bytes[(4 - pn_length)..].clone_from_slice(pn_lsb);
         let tp_pn = u32::from_be_bytes(tp_pn_bytes);
-        // TODO handle overflow
         let rv = if let Some(x) = largest_ack {
-            let mut la_bytes = [0u8; 4];
-            la_bytes.clone_from_slice(&x.to_be_bytes()[..4]);
-            let tp_la = u32::from_be_bytes(la_bytes);
-            if tp_pn > tp_la {
-                ((x >> pn_length) << pn_length) + u64::from(tp_pn)
+            // RFC 9000 appendix A.3
+            let expected_pn = x + 1;
+            let pn_win = 1u64 << (8 * pn_length);
+            let pn_hwin = pn_win / 2;
+            let candidate_pn = (expected_pn & !(pn_win - 1)) | u64::from(tp_pn);
+            if candidate_pn + pn_hwin <= expected_pn && candidate_pn < (1 << 62) - pn_win {
+                candidate_pn + pn_win
+            } else if candidate_pn > expected_pn + pn_hwin && candidate_pn >= pn_win {
+                candidate_pn - pn_win
             } else {
-                (((x >> pn_length) + 1) << pn_length) + u64::from(tp_pn)
+                candidate_pn
             }
         } else {
             u64::from(tp_pn)
-- 
2.43.0


From c6d7ff90be5aaf98417bf6df79aa9c8d8b33ede8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 17/21] fix: connection ids of a version negotiation header are
 lost

---
 src/packet.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/packet.rs b/src/packet.rs
index c8de6e2..b93ba71 100644
--- a/src/packet.rs
+++ b/src/packet.rs
@@ -80,11 +80,11 @@ impl LongPacketHeader {
         } else {
             // version negotiation must not be limited to the supported version's id length rules
             let dcid_len = u8::from_datagram(stream)?;
-            let dcid = U160::zero();
             let destination_connection_id = var_bytes_from_stream(stream, dcid_len as usize)?;
+            let dcid = Self::version_negotiation_id(&destination_connection_id[..])?;
             let scid_len = u8::from_datagram(stream)?;
-            let scid = U160::zero();
             let source_connection_id = var_bytes_from_stream(stream, scid_len as usize)?;
+            let scid = Self::version_negotiation_id(&source_connection_id[..])?;
             (
                 Some(VersionNegotiationHeaderUnionFields {
                     destination_connection_id,
@@ -115,7 +115,26 @@ impl LongPacketHeader {
         rv.is_protected = is_protected;
         Ok(rv)
     }
+    /// ids longer than any id of the supported versions are only kept as bytes
+    fn version_negotiation_id(id: &[u8]) -> error::Result<U160> {
+        if id.len() > U160::BITS / 8 {
+            Ok(U160::zero())
+        } else {
+            var_u160_from_stream(&mut utils::make_result_stream(id), id.len() as u8)
+        }
+    }
     pub fn to_bytes(&self) -> Vec<u8> {
+        if let Some(ref x) = self.version_negotiation {
+            return [
+                &[self.header_byte][..],
+                &self.version.to_be_bytes(),
+                &[self.destination_connection_id_length][..],
+                &x.destination_connection_id[..],
+                &[self.source_connection_id_length][..],
+                &x.source_connection_id[..],
+            ]
+            .concat();
+        }
         [
             &[self.header_byte][..],
             &self.version.to_be_bytes(),
-- 
2.43.0


From 739f3b706a3b448543193cd787df5edf7a7e4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:37 +0000
Subject: [PATCH 18/21] fix: ids of other lengths are taken for an issued 8
 byte connection id

---
 src/routing.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index ea9ec0b..1a0968b 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -32,6 +32,15 @@ pub(crate) struct InternalQuicSocket {
     log_traffic: RwLock<bool>,
 }
 
+/// key of the connection a header addresses; only 8 byte ids are ever issued
+fn issued_id(header: &PacketHeader) -> Option<U160> {
+    if header.get_destination_id_length() == 8 {
+        Some(header.get_destination_id())
+    } else {
+        None
+    }
+}
+
 impl InternalQuicStream {
     pub fn from_connection(connection: Connection) -> Self {
         let (sender, receiver) = channel::<InternalDatagram>();
@@ -82,13 +91,10 @@ impl InternalQuicSocket {
                             PacketHeader::Long(ref x) => x.packet_type(),
                             PacketHeader::Short(ref x) => x.packet_type(),
                         };
-                        let dcid = match x {
-                            PacketHeader::Long(ref x) => x.destination_connection_id,
-                            PacketHeader::Short(ref x) => x.destination_connection_id,
-                        };
                         match packet_type {
                             PacketType::Initial => {
-                                !self.streams.read().unwrap().contains_key(&dcid)
+                                let streams = self.streams.read().unwrap();
+                                !issued_id(&x).map_or(false, |id| streams.contains_key(&id))
                             }
                             // TODO ZeroRtt packets should be buffered from here
                             _ => false,
@@ -114,10 +120,8 @@ impl InternalQuicSocket {
             .iter()
             .map(|x| -> error::Result<u8> { Ok(x.clone()) });
         let route_header = next_header_from_stream(&mut stream)?;
-        let connection_id = match route_header {
-            PacketHeader::Short(ref x) => x.destination_connection_id,
-            PacketHeader::Long(ref x) => x.destination_connection_id,
-        };
+        let connection_id =
+            issued_id(&route_header).ok_or(Error::InternalError("missing connection"))?;
         match self.streams.read().unwrap().get(&connection_id) {
             Some(x) => x
                 .sender
@@ -135,8 +139,8 @@ impl InternalQuicSocket {
         let header = next_header_from_stream(&mut header_stream)?;
         let rv = {
             let streams_map = self.streams.read().unwrap();
-            let route_stream = streams_map
-                .get(&header.get_destination_id())
+            let route_stream = issued_id(&header)
+                .and_then(|id| streams_map.get(&id))
                 .ok_or(Error::InternalError("connection not found"))?;
             let connection = route_stream.connection.read().unwrap();
             decode_packets(&mut stream, &connection)
-- 
2.43.0


From 9e2987ff7240ce2bd5ac335e6f9c26d8c9f1c969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 19/21] fix: a datagram for no connection crashes a socket
 waiting to accept

---
 src/routing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 1a0968b..6277f40 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -109,8 +109,8 @@ impl InternalQuicSocket {
             };
             if ret_datagram {
                 return Ok(datagram);
-            } else {
-                self.route_datagram(datagram).unwrap();
+            } else if let Err(x) = self.route_datagram(datagram) {
+                eprintln!("{:?}", x);
             }
         }
     }
-- 
2.43.0


From 86adf9f144560664cec657e5beebfc801b7a3255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:40 +0000
Subject: [PATCH 20/21] fix: datagrams over 4096 bytes are cut short on receipt

---
 src/routing.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/routing.rs b/src/routing.rs
index 6277f40..5e0365d 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -68,8 +68,8 @@ impl InternalQuicSocket {
     }
     fn recv_datagram(&self) -> std::io::Result<InternalDatagram> {
         let socket = self.socket.lock().unwrap();
-        // TODO investigate proper buffer size
-        let mut buff = [0u8; 4096];
+        // large enough for every UDP payload
+        let mut buff = vec![0u8; 65535];
         let (amt, addr) = socket.recv_from(&mut buff)?;
         // to_vec used for length safety for allocated obj
         let data = buff[..amt].to_vec();
-- 
2.43.0


From 6970c826a5e4dcc4c795d30c54748d00af7a1fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:38 +0000
Subject: [PATCH 21/21] verif hook: the socket's hook can be left out

---
 src/interface.rs | 2 +-
 src/routing.rs   | 2 +-
 src/verif.rs     | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interface.rs b/src/interface.rs
index 339a93b..c968fff 100644
--- a/src/interface.rs
+++ b/src/interface.rs
@@ -50,7 +50,7 @@ impl QuicSocket {
 }
 
 // handle to a registered connection, for the verification harness
-#[cfg(quic_sea_verif)]
+#[cfg(all(quic_sea_verif, not(quic_sea_verif_no_routing)))]
 impl QuicStream {
     pub fn verif_new(socket: &crate::routing::verif::Socket, connection_id: U160) -> Self {
         Self {
diff --git a/src/routing.rs b/src/routing.rs
index 5e0365d..89c861d 100644
--- a/src/routing.rs
+++ b/src/routing.rs
@@ -202,7 +202,7 @@ impl InternalQuicSocket {
 }
 
 // drives a socket without a peer implementation, for the verification harness
-#[cfg(quic_sea_verif)]
+#[cfg(all(quic_sea_verif, not(quic_sea_verif_no_routing)))]
 pub mod verif {
     use super::*;
     use std::sync::Arc;
diff --git a/src/verif.rs b/src/verif.rs
index 8084519..f55d6dd 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -1,6 +1,6 @@
 //! Access to crate-internal items for the verification harness.
 //!
-//! Compiled only with `--cfg quic_sea_verif`.
+//! Compiled only with `--cfg quic_sea_verif`; `--cfg quic_sea_verif_no_routing` leaves the socket out.
 
 pub mod connection {
     pub use crate::connection::*;
@@ -19,6 +19,7 @@ pub mod quictls {
     pub use crate::quictls::verif::*;
     pub use crate::quictls::*;
 }
+#[cfg(not(quic_sea_verif_no_routing))]
 pub mod routing {
     pub use crate::routing::verif::*;
 }
-- 
2.43.0

