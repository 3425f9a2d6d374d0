From 59e0c333d14bc81df3a5e3a7c5739bbd3ed863a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 01/11] fix: report short ciphertexts as too small in
 decrypt_to_vec

Ciphertexts shorter than a tag underflowed the plaintext length, a panic in
debug builds and a misleading PacketTooBig in release builds.
---
 protocol/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..5048bf2 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -572,6 +572,7 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From 63e1132c9cb098e1433189fa15a0fd32329cab38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 02/11] fix: treat only the top header bit as the decoy flag

BIP-324 reserves the other seven bits, receivers have to ignore them.
---
 protocol/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 5048bf2..e6ef6b9 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -396,7 +396,7 @@ pub enum PacketType {
 impl PacketType {
     /// Check if header byte has the decoy flag flipped.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        if header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From c477cbe2cf15e13a49fa71180266175a0351b20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 03/11] fix: retry interrupted reads while searching for the
 garbage terminator

---
 protocol/src/io.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..b0dc790 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -379,6 +379,8 @@ where
                     Ok(n) => {
                         garbage_buffer.extend_from_slice(&temp[..n]);
                     }
+                    // Same as read_exact, an interrupted read is retried.
+                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                     Err(e) => return Err(ProtocolError::from(e)),
                 }
             }
-- 
2.43.0


From 54fcab7df9c302fe4c4b75782b87382af30480c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:54 +0000
Subject: [PATCH 04/11] fix: count length chunks with 64 bits

The 32-bit counter overflowed after 2^32 packets, leaving the prescribed
nonce sequence and rekey schedule.
---
 protocol/src/fschacha20poly1305.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..a87ed8f 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,14 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        let counter_div = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_div);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From f89cfb0603ec28b785e8a9376745e04c9d0fe025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:31 +0000
Subject: [PATCH 05/11] fix: refuse to encrypt contents beyond the 24-bit
 length field

The length was silently truncated, the peer could not parse the stream any
more.
---
 protocol/src/io.rs  | 13 ++++++++++---
 protocol/src/lib.rs | 16 ++++++++++++++--
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b0dc790..e5e67f6 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -566,9 +566,16 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
+
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index e6ef6b9..5a91196 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -163,6 +163,8 @@ const NUM_GARBAGE_TERMINTOR_BYTES: usize = 16;
 const NUM_TAG_BYTES: usize = 16;
 // Number of bytes per packet for static layout, everything not including contents.
 const NUM_PACKET_OVERHEAD_BYTES: usize = NUM_LENGTH_BYTES + NUM_HEADER_BYTES + NUM_TAG_BYTES;
+// Maximum number of contents bytes which the length field of a packet can express.
+const MAX_CONTENTS_LEN: usize = 0xFF_FFFF;
 // Maximum packet size for automatic allocation.
 // Bitcoin Core's MAX_PROTOCOL_MESSAGE_LENGTH is 4,000,000 bytes (~4 MiB).
 // 14 extra bytes are for the BIP-324 header byte and 13 serialization header bytes (message type).
@@ -614,6 +616,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext does not fit the 24-bit length field of a packet.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -621,6 +624,11 @@ impl OutboundCipher {
         packet_type: PacketType,
         aad: Option<&[u8]>,
     ) -> Result<(), Error> {
+        // The packet format has no room for longer contents.
+        if plaintext.len() > MAX_CONTENTS_LEN {
+            return Err(Error::PacketTooBig);
+        }
+
         // Validate buffer capacity.
         if ciphertext_buffer.len() < Self::encryption_buffer_len(plaintext.len()) {
             return Err(Error::BufferTooSmall {
@@ -671,6 +679,10 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// If the plaintext does not fit the 24-bit length field of a packet.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -681,9 +693,9 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // The allocated size is exactly what is required, only oversized plaintext can fail.
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
-            .expect("encrypt should never fail with correctly sized buffer");
+            .expect("plaintext to fit the packet format");
 
         ciphertext_buffer
     }
-- 
2.43.0


From ae011be605f173d7e86bdc6edf27560c71952eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:31 +0000
Subject: [PATCH 06/11] fix: limit the size of session packets before
 allocating for them

The asynchronous reader had no limit and the blocking reader only applied it
after it allocated for and waited for the whole packet.
---
 protocol/src/futures.rs | 6 ++++++
 protocol/src/io.rs      | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index dd6af62..46f74fb 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -418,6 +418,12 @@ where
                     }
 
                     let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(*length_bytes);
+                    if InboundCipher::decryption_buffer_len(packet_bytes_len)
+                        > MAX_PACKET_SIZE_FOR_ALLOCATION
+                    {
+                        self.state = DecryptState::init_reading_length();
+                        return Err(ProtocolError::Internal(Error::PacketTooBig));
+                    }
                     self.state = DecryptState::init_reading_payload(packet_bytes_len);
                 }
                 DecryptState::ReadingPayload {
diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index e5e67f6..3bd14e6 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -529,6 +529,9 @@ where
         let mut length_bytes = [0u8; NUM_LENGTH_BYTES];
         self.reader.read_exact(&mut length_bytes)?;
         let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(length_bytes);
+        if InboundCipher::decryption_buffer_len(packet_bytes_len) > MAX_PACKET_SIZE_FOR_ALLOCATION {
+            return Err(ProtocolError::Internal(Error::PacketTooBig));
+        }
 
         // Read packet data.
         let mut packet_bytes = vec![0u8; packet_bytes_len];
-- 
2.43.0


From bc6580b3e7854e19ce10a28f7ae47e472fbd4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 07/11] fix: end the writer task once the writing side is
 dropped

The else branch of the select was unreachable because the decoy interval
never completes, so the task lived on, holding the transport and sending
decoys.
---
 traffic/src/futures.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..8ad0bfa 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,10 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                // Exit if all write_tx senders dropped, don't send decoys forever.
+                let Some(cmd) = cmd else { break };
+
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +246,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0


From 1e71440af7a727fc9b638af8420fc20947e4914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 08/11] fix: report writes after a background decoy failed

The failure was swallowed, although it may have left part of a packet on the
wire and in any case has used up a place in the cipher stream. Later writes
reported success for packets the peer cannot decrypt.
---
 traffic/src/futures.rs | 19 ++++++++++++++++---
 traffic/src/io.rs      | 24 ++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index 8ad0bfa..c59713a 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -212,6 +212,9 @@ async fn writer_task<W, R>(
     let mut decoy_interval =
         tokio::time::interval(Duration::from_millis(DEFAULT_CHECK_INTERVAL_MS));
 
+    // A background decoy could not be sent, the peer cannot decrypt anything after it.
+    let mut failed = false;
+
     loop {
         tokio::select! {
             // Handle write commands with padding.
@@ -219,6 +222,17 @@ async fn writer_task<W, R>(
                 // Exit if all write_tx senders dropped, don't send decoys forever.
                 let Some(cmd) = cmd else { break };
 
+                if failed {
+                    let _ = cmd.result_tx.send(Err(ProtocolError::Io(
+                        std::io::Error::new(
+                            std::io::ErrorKind::BrokenPipe,
+                            "Connection failed while writing a decoy",
+                        ),
+                        ProtocolFailureSuggestion::Abort,
+                    )));
+                    continue;
+                }
+
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -240,10 +254,9 @@ async fn writer_task<W, R>(
             }
 
             // Concurrently send decoys.
-            _ = decoy_interval.tick() => {
+            _ = decoy_interval.tick(), if !failed => {
                 if let Some(decoy) = shaper.decoy(&stats) {
-                    // Ignore write errors for decoys - they're best-effort.
-                    let _ = writer.write(&decoy).await;
+                    failed = writer.write(&decoy).await.is_err();
                 }
             }
         }
diff --git a/traffic/src/io.rs b/traffic/src/io.rs
index 974cb48..707c509 100644
--- a/traffic/src/io.rs
+++ b/traffic/src/io.rs
@@ -7,7 +7,9 @@ use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::{Arc, Mutex};
 use std::thread;
 
-use bip324::io::{Payload, Protocol, ProtocolError, ProtocolReader, ProtocolWriter};
+use bip324::io::{
+    Payload, Protocol, ProtocolError, ProtocolFailureSuggestion, ProtocolReader, ProtocolWriter,
+};
 use bip324::Role;
 use rand::Rng;
 
@@ -19,6 +21,8 @@ use crate::{
 struct WriterState<W, R = rand::rngs::StdRng> {
     writer: ProtocolWriter<W>,
     shaper: TrafficShaper<R>,
+    /// A background decoy could not be sent, the peer cannot decrypt anything after it.
+    failed: bool,
 }
 
 /// Traffic-shaped protocol reader half.
@@ -124,6 +128,7 @@ where
         let writer_state = Arc::new(Mutex::new(WriterState {
             writer: protocol_writer,
             shaper,
+            failed: false,
         }));
 
         // Create shutdown flag and spawn decoy thread.
@@ -184,6 +189,15 @@ where
     /// Write a payload with traffic shaping.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
         let mut state = self.writer_state.lock().unwrap();
+        if state.failed {
+            return Err(ProtocolError::Io(
+                std::io::Error::new(
+                    std::io::ErrorKind::BrokenPipe,
+                    "Connection failed while writing a decoy",
+                ),
+                ProtocolFailureSuggestion::Abort,
+            ));
+        }
         if let Some(decoy) = state.shaper.pad(payload, &self.stats) {
             state.writer.write(&decoy)?;
         }
@@ -226,8 +240,14 @@ fn decoy_thread<W, R>(
             Err(_) => continue,
         };
 
+        if state.failed {
+            continue;
+        }
+
         if let Some(decoy) = state.shaper.decoy(&stats) {
-            let _ = state.writer.write(&decoy);
+            if state.writer.write(&decoy).is_err() {
+                state.failed = true;
+            }
         }
     }
 }
-- 
2.43.0


From d6375f333382bebea8b9816b3439104472cab81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:32 +0000
Subject: [PATCH 09/11] fix: remember failed writes whose caller gave up in the
 async shaper

When the future of a shaped write is dropped and the queued write then
fails, nobody sees the error and the next write reports success on a
stream the peer can no longer decrypt.
---
 traffic/src/futures.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index c59713a..1a73c70 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -212,7 +212,7 @@ async fn writer_task<W, R>(
     let mut decoy_interval =
         tokio::time::interval(Duration::from_millis(DEFAULT_CHECK_INTERVAL_MS));
 
-    // A background decoy could not be sent, the peer cannot decrypt anything after it.
+    // A packet could not be sent, the peer cannot decrypt anything after it.
     let mut failed = false;
 
     loop {
@@ -226,7 +226,7 @@ async fn writer_task<W, R>(
                     let _ = cmd.result_tx.send(Err(ProtocolError::Io(
                         std::io::Error::new(
                             std::io::ErrorKind::BrokenPipe,
-                            "Connection failed while writing a decoy",
+                            "Connection failed while writing an earlier packet",
                         ),
                         ProtocolFailureSuggestion::Abort,
                     )));
@@ -249,6 +249,9 @@ async fn writer_task<W, R>(
                     }
                 }
 
+                // The caller might have given up on the result, so remember the failure here too.
+                failed = matches!(result, Err(ProtocolError::Io(_, _)));
+
                 // Send result back (ignore if receiver dropped).
                 let _ = cmd.result_tx.send(result);
             }
-- 
2.43.0


From 0dbeeac06302e5a379d35fc25d2e90fc9e337798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:41 +0000
Subject: [PATCH 10/11] fix: asynchronous decoy checks missed during a stall
 are not made up for in a burst

With the default missed-tick behavior every check that a stalled write made
the writer task miss fires at once afterwards, sending up to one decoy per
missed interval back to back. The blocking flavor skips such checks.
---
 traffic/src/futures.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index 1a73c70..c99d2e8 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -211,6 +211,8 @@ async fn writer_task<W, R>(
 {
     let mut decoy_interval =
         tokio::time::interval(Duration::from_millis(DEFAULT_CHECK_INTERVAL_MS));
+    // Checks missed while a write was stalled are not made up for with a burst of decoys.
+    decoy_interval.set_missed_tick_behavior(tokio::time::MissedTickBehavior::Delay);
 
     // A packet could not be sent, the peer cannot decrypt anything after it.
     let mut failed = false;
-- 
2.43.0


From 4656f8399c0091f8afde3f8693be725ded7173e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:41 +0000
Subject: [PATCH 11/11] fix: default traffic statistics count idle time from
 their creation, not from 1970

---
 traffic/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/traffic/src/lib.rs b/traffic/src/lib.rs
index d7be82a..575d134 100644
--- a/traffic/src/lib.rs
+++ b/traffic/src/lib.rs
@@ -241,7 +241,7 @@ pub trait TrafficStats: Send + Sync {
 ///
 /// All methods on this struct are safe to call from multiple threads concurrently.
 /// The statistics use atomic operations to ensure consistency without locks.
-#[derive(Debug, Default)]
+#[derive(Debug)]
 pub struct AtomicTrafficStats {
     /// Total bytes read from the connection.
     bytes_read: AtomicU64,
@@ -282,6 +282,12 @@ impl AtomicTrafficStats {
     }
 }
 
+impl Default for AtomicTrafficStats {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
 impl TrafficStats for AtomicTrafficStats {
     fn record_read(&self, bytes: usize) {
         self.bytes_read.fetch_add(bytes as u64, Ordering::Relaxed);
-- 
2.43.0

