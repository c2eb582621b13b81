From 0d40d1ae6c3d7caf6fc45139b140a6f7bc4a343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 1/8] fix: classify packets by the ignore bit alone

BIP-324 defines bit 7 of the header as the ignore bit and reserves the
others, which a receiver must disregard. Comparing the whole byte with 128
handed decoys with a reserved bit set to the application as genuine.
---
 protocol/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..7d65a14 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -396,7 +396,8 @@ pub enum PacketType {
 impl PacketType {
     /// Check if header byte has the decoy flag flipped.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        // Only the ignore bit is defined, the other bits are reserved and must be disregarded.
+        if *header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From fc837c54a96ad3d9d0b407637c9a7d4e6041332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 2/8] fix: report short ciphertexts as too small in
 decrypt_to_vec

The buffer length subtraction underflowed for ciphertexts shorter than a
tag, which panics with overflow checks and gives PacketTooBig without,
instead of the documented CiphertextTooSmall.
---
 protocol/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 7d65a14..fe6e37a 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -573,6 +573,7 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From bad5928cdc6b6ce7594d621858065f18c3c4da7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 3/8] fix: use a 64-bit chunk counter for the length cipher

The nonce holds the 64-bit little-endian epoch. With a 32-bit counter the
session panicked, or fell out of step with the peer, after 2^32 packets.
---
 protocol/src/fschacha20poly1305.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..a8d6c95 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,14 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        let counter_mod = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_mod);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From 5b2e731acbd49b9360e9b8369576bd29cfa5bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 4/8] fix: refuse contents which do not fit the packet length
 prefix

The length is three bytes on the wire. Contents of 2^24 bytes or more were
sent with a truncated length, so the remote cut the packet in the wrong
place and the connection was lost without an error on the sending side.
---
 protocol/src/io.rs  | 13 ++++++++++---
 protocol/src/lib.rs | 17 +++++++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..ec43aec 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -564,9 +564,16 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
+
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index fe6e37a..376e5cd 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -163,6 +163,8 @@ const NUM_GARBAGE_TERMINTOR_BYTES: usize = 16;
 const NUM_TAG_BYTES: usize = 16;
 // Number of bytes per packet for static layout, everything not including contents.
 const NUM_PACKET_OVERHEAD_BYTES: usize = NUM_LENGTH_BYTES + NUM_HEADER_BYTES + NUM_TAG_BYTES;
+// Maximum contents size which the three byte length prefix can represent.
+const MAX_CONTENTS_BYTES: usize = (1 << (8 * NUM_LENGTH_BYTES)) - 1;
 // Maximum packet size for automatic allocation.
 // Bitcoin Core's MAX_PROTOCOL_MESSAGE_LENGTH is 4,000,000 bytes (~4 MiB).
 // 14 extra bytes are for the BIP-324 header byte and 13 serialization header bytes (message type).
@@ -615,6 +617,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext length does not fit the three byte length prefix.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -622,6 +625,11 @@ impl OutboundCipher {
         packet_type: PacketType,
         aad: Option<&[u8]>,
     ) -> Result<(), Error> {
+        // A larger length would be truncated and the remote would lose the packet boundaries.
+        if plaintext.len() > MAX_CONTENTS_BYTES {
+            return Err(Error::PacketTooBig);
+        }
+
         // Validate buffer capacity.
         if ciphertext_buffer.len() < Self::encryption_buffer_len(plaintext.len()) {
             return Err(Error::BufferTooSmall {
@@ -672,6 +680,11 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the plaintext length does not fit the three byte length prefix, use
+    /// [`Self::encrypt`] to handle this case as an error.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -682,9 +695,9 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // The exact required size is allocated, so only an oversized plaintext can fail.
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
-            .expect("encrypt should never fail with correctly sized buffer");
+            .expect("plaintext length to fit the packet length prefix");
 
         ciphertext_buffer
     }
-- 
2.43.0


From be72d8ed364b94131e0b6b50072ae3c54267c5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 5/8] fix: end the writer task when all senders are dropped

The else branch of the select only runs once every other branch is
disabled, which the decoy interval never is. The task kept the connection
open and sent decoys for ever after the protocol was dropped.
---
 traffic/src/futures.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..21d5e7a 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,13 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                let cmd = match cmd {
+                    Some(cmd) => cmd,
+                    // Exit if all write_tx senders dropped, don't send decoys forever.
+                    None => break,
+                };
+
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +249,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0


From 98f0f6735fc04c09751475d7774868af05ecabaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:39 +0000
Subject: [PATCH 6/8] fix: start the activity clock of default traffic
 statistics at creation

The derived default set the last activity to the Unix epoch, so the time
since the last activity was decades instead of the time since creation.
---
 traffic/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index d7be82a..5d5c4ca 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -241,7 +241,7 @@ pub trait TrafficStats: Send + Sync {
 ///
 /// All methods on this struct are safe to call from multiple threads concurrently.
 /// The statistics use atomic operations to ensure consistency without locks.
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct AtomicTrafficStats {
     /// Total bytes read from the connection.
     bytes_read: AtomicU64,
@@ -318,6 +318,12 @@ impl TrafficStats for AtomicTrafficStats {
     }
 }
 
+impl Default for AtomicTrafficStats {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl AsRef<AtomicTrafficStats> for AtomicTrafficStats {
     fn as_ref(&self) -> &AtomicTrafficStats {
         self
-- 
2.43.0


From 48ee6e4f57576455f4288a5b0a2f260aa7c27cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:47 +0000
Subject: [PATCH 7/8] verif: hooks to start ciphers anywhere and drive the
 shaper, behind cfg(bip324_verif)

---
 protocol/src/fschacha20poly1305.rs | 21 +++++++++++++++
 protocol/src/lib.rs                | 24 +++++++++++++++++
 traffic/src/lib.rs                 | 41 ++++++++++++++++++++++++++++++
 3 files changed, 86 insertions(+)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index a8d6c95..ac6d681 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -175,3 +175,24 @@ impl FSChaCha20 {
         self.chunk_counter += 1;
     }
 }
+
+/// Ciphers at an arbitrary position of a session, for the verification harness only.
+#[cfg(bip324_verif)]
+pub(crate) mod verif {
+    use super::*;
+
+    /// Packet cipher about to process packet `n` with the key of its epoch.
+    pub(crate) fn packet_cipher_at(key: [u8; 32], n: u64) -> FSChaCha20Poly1305 {
+        let mut cipher = FSChaCha20Poly1305::new(key);
+        cipher.message_counter = n;
+        cipher
+    }
+
+    /// Length cipher about to process length `n` with the key of its epoch.
+    pub(crate) fn length_cipher_at(key: [u8; 32], n: u64) -> FSChaCha20 {
+        let mut cipher = FSChaCha20::new(key);
+        cipher.chunk_counter = n as _;
+        cipher.block_counter = LENGTH_BYTES * (n % REKEY_INTERVAL) as u32;
+        cipher
+    }
+}
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 376e5cd..32a1a5e 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -805,6 +805,30 @@ impl_fill_bytes!(StdRng);
 #[cfg(feature = "std")]
 impl_fill_bytes!(ThreadRng);
 
+/// Ciphers at an arbitrary position of a session, for the verification harness only.
+#[cfg(bip324_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::{InboundCipher, OutboundCipher};
+    use crate::fschacha20poly1305::verif::{length_cipher_at, packet_cipher_at};
+
+    /// Inbound cipher about to process packet `n` with the keys of its epoch.
+    pub fn inbound_at(length_key: [u8; 32], packet_key: [u8; 32], n: u64) -> InboundCipher {
+        InboundCipher {
+            length_cipher: length_cipher_at(length_key, n),
+            packet_cipher: packet_cipher_at(packet_key, n),
+        }
+    }
+
+    /// Outbound cipher about to process packet `n` with the keys of its epoch.
+    pub fn outbound_at(length_key: [u8; 32], packet_key: [u8; 32], n: u64) -> OutboundCipher {
+        OutboundCipher {
+            length_cipher: length_cipher_at(length_key, n),
+            packet_cipher: packet_cipher_at(packet_key, n),
+        }
+    }
+}
+
 #[cfg(all(test, feature = "std"))]
 mod tests {
 
diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index 5d5c4ca..973b1b3 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -459,6 +459,47 @@ where
     }
 }
 
+/// Shaper decisions and statistics totals, for the verification harness only.
+#[cfg(bip324_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    /// A shaper drawing from a caller-supplied random source.
+    pub struct Shaper<R>(TrafficShaper<R>);
+
+    impl<R: Rng> Shaper<R> {
+        pub fn new(config: TrafficConfig, rng: R) -> Self {
+            Shaper(TrafficShaper::with_rng(config, rng))
+        }
+
+        pub fn handshake(
+            &mut self,
+            stats: &AtomicTrafficStats,
+        ) -> (Option<Vec<u8>>, Option<Vec<Vec<u8>>>) {
+            self.0.handshake(stats)
+        }
+
+        pub fn decoy(&mut self, stats: &AtomicTrafficStats) -> Option<Payload> {
+            self.0.decoy(stats)
+        }
+
+        pub fn pad(&mut self, payload: &Payload, stats: &AtomicTrafficStats) -> Option<Payload> {
+            self.0.pad(payload, stats)
+        }
+    }
+
+    /// Bytes read, bytes written, messages read and messages written so far.
+    pub fn totals(stats: &AtomicTrafficStats) -> [u64; 4] {
+        [
+            stats.bytes_read.load(Ordering::Relaxed),
+            stats.bytes_written.load(Ordering::Relaxed),
+            stats.messages_read.load(Ordering::Relaxed),
+            stats.messages_written.load(Ordering::Relaxed),
+        ]
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 17f9eaeff751ccd28bd9bdce4562d19c67c6c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:55 +0000
Subject: [PATCH 8/8] verif: hook to read the statistics of a shaped
 connection, behind cfg(bip324_verif)

---
 traffic/src/futures.rs | 12 ++++++++++++
 traffic/src/io.rs      | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index 21d5e7a..4ec63d0 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -253,6 +253,18 @@ async fn writer_task<W, R>(
     }
 }
 
+#[cfg(bip324_verif)]
+impl<R> ShapedProtocolReader<R>
+where
+    R: AsyncRead + Unpin + Send,
+{
+    /// Totals of the shared statistics, for the verification harness only.
+    #[doc(hidden)]
+    pub fn verif_totals(&self) -> [u64; 4] {
+        crate::verif::totals(&self.stats)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 974cb48..906bf22 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -232,6 +232,18 @@ fn decoy_thread<W, R>(
     }
 }
 
+#[cfg(bip324_verif)]
+impl<R> ShapedProtocolReader<R>
+where
+    R: Read,
+{
+    /// Totals of the shared statistics, for the verification harness only.
+    #[doc(hidden)]
+    pub fn verif_totals(&self) -> [u64; 4] {
+        crate::verif::totals(&self.stats)
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

