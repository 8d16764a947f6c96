From e10e2c96232ad14d39d8399dd5c42ac48907619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:30 +0000
Subject: [PATCH 1/9] fix: refuse too short or inconsistent received data
 instead of panicking

---
 src/encryption/chacha20_poly1305_aead.rs |  5 ++++
 src/reader.rs                            | 34 ++++++++++++++++++++++++
 2 files changed, 39 insertions(+)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 7f8569c..31870d6 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -15,6 +15,7 @@
 
 //! Manage cryptographic encryption operations with Chacha20Poly1305Aead algorithm.
 
+use crate::errors::IncomingMsgErr;
 use crate::seeds::Seed48;
 use crate::{Error, Result};
 use std::io::{BufWriter, Read, Write};
@@ -50,6 +51,10 @@ pub fn decrypt<W: Write>(
     secret_key: &SecretKey,
     writer: &mut BufWriter<W>,
 ) -> Result<()> {
+    if encrypted_data.len() < CHACHA20_TAG_SIZE {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     let payload_len = encrypted_data.len() - CHACHA20_TAG_SIZE;
 
     chacha20_poly1305_aead::decrypt(
diff --git a/src/reader.rs b/src/reader.rs
index d1c1539..2bc7c44 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -42,6 +42,10 @@ pub(crate) fn read(
     incoming_data: &[u8],
     check_encrypt_state: bool,
 ) -> std::result::Result<DecryptedIncomingData, Error> {
+    if incoming_data.len() < MAGIC_VALUE_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Decrypt data
     let data_encrypted;
     let mut buffer = BufWriter::new(Vec::with_capacity(incoming_data.len()));
@@ -60,20 +64,35 @@ pub(crate) fn read(
     }
     let decrypted_data = buffer.into_inner().map_err(|_| Error::BufferFlushError)?;
 
+    if decrypted_data.len() < MAGIC_VALUE_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Check magic value
     if decrypted_data[..MAGIC_VALUE_END] != MAGIC_VALUE {
         return Err(IncomingMsgErr::InvalidMagicValue.into());
     }
 
+    if decrypted_data.len() < VERSION_END {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Check version
     if decrypted_data[MAGIC_VALUE_END..VERSION_END] != CURRENT_VERSION {
         return Err(IncomingMsgErr::UnsupportedVersion.into());
     }
 
+    if decrypted_data.len() < ENCAPSULED_MSG_BEGIN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Read ENCAPSULED_MSG_SIZE
     let mut buffer_8_bytes: [u8; 8] = <[u8; 8]>::default();
     buffer_8_bytes.copy_from_slice(&decrypted_data[VERSION_END..ENCAPSULED_MSG_BEGIN]);
     let encapsuled_msg_size = u64::from_be_bytes(buffer_8_bytes) as usize;
+    if encapsuled_msg_size > decrypted_data.len() - ENCAPSULED_MSG_BEGIN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
     let user_msg_end = ENCAPSULED_MSG_BEGIN + encapsuled_msg_size;
 
     // Read type headers
@@ -84,6 +103,8 @@ pub(crate) fn read(
         Err(Error::RecvInvalidMsg(
             IncomingMsgErr::UnexpectedEncryptionState,
         ))
+    } else if type_headers_len > encapsuled_msg_size {
+        Err(IncomingMsgErr::MessageTooShort.into())
     } else {
         Ok(DecryptedIncomingData {
             data: decrypted_data,
@@ -95,9 +116,16 @@ pub(crate) fn read(
 }
 
 fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
+    if type_headers.len() < MSG_TYPE_LEN {
+        return Err(IncomingMsgErr::MessageTooShort.into());
+    }
+
     // Match message type
     match &type_headers[..MSG_TYPE_LEN] {
         USER_MSG_TYPE => {
+            if type_headers.len() < MSG_TYPE_LEN + NONCE_SIZE {
+                return Err(IncomingMsgErr::MessageTooShort.into());
+            }
             let mut nonce = [0u8; NONCE_SIZE];
             nonce.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + NONCE_SIZE]);
             Ok((
@@ -108,6 +136,9 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             ))
         }
         CONNECT_MSG_TYPE => {
+            if type_headers.len() < SIG_PUBKEY_BEGIN + 32 {
+                return Err(IncomingMsgErr::MessageTooShort.into());
+            }
             // Read PEER_EPHEMERAL_PUBKEY
             let mut peer_ephemeral_pk = [0u8; EPK_SIZE];
             peer_ephemeral_pk.copy_from_slice(&type_headers[MSG_TYPE_LEN..MSG_TYPE_LEN + EPK_SIZE]);
@@ -133,6 +164,9 @@ fn read_type_headers(type_headers: &[u8]) -> Result<(MsgTypeHeaders, usize)> {
             }
         }
         ACK_MSG_TYPE => {
+            if type_headers.len() < MSG_TYPE_LEN + CHALLENGE_SIZE {
+                return Err(IncomingMsgErr::MessageTooShort.into());
+            }
             let mut challenge = [0u8; CHALLENGE_SIZE];
             challenge
                 .copy_from_slice(&&type_headers[MSG_TYPE_LEN..(MSG_TYPE_LEN + CHALLENGE_SIZE)]);
-- 
2.43.0


From e5e9d927e010b7668ee5535c9608c8a45d3469f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:22 +0000
Subject: [PATCH 2/9] fix: report formats without an object codec as an error
 instead of panicking

---
 src/complete/serde/deserializer.rs | 2 +-
 src/complete/serde/serializer.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complete/serde/deserializer.rs b/src/complete/serde/deserializer.rs
index 2024ea0..50db8db 100644
--- a/src/complete/serde/deserializer.rs
+++ b/src/complete/serde/deserializer.rs
@@ -101,6 +101,6 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::from_slice::<M>(binary_message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
+        _ => Err(SerdeError::UseSuffixedBinFunctions),
     }
 }
diff --git a/src/complete/serde/serializer.rs b/src/complete/serde/serializer.rs
index 478737f..31a59b1 100644
--- a/src/complete/serde/serializer.rs
+++ b/src/complete/serde/serializer.rs
@@ -116,6 +116,6 @@ where
         MessageFormat::Utf8Json => {
             Ok(serde_json::to_writer(writer, message).map_err(SerdeError::JsonError)?)
         }
-        _ => unimplemented!(),
+        _ => Err(SerdeError::UseSuffixedBinFunctions),
     }
 }
-- 
2.43.0


From 71c413f3fb8a2c8ccfa44a886381eac3f04cae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 3/9] fix: a failed key agreement ends the connection

---
 src/minimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index c631832..fa58456 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -211,7 +211,10 @@ impl MinimalSecureLayer {
 
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
-                self.compute_shared_secret(&peer_ephemeral_pk[..])?;
+                if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
+                    self.status = SecureLayerStatus::Fail;
+                    return Err(e);
+                }
             }
             MsgTypeHeaders::Ack { challenge } => {
                 // Verify challenge
-- 
2.43.0


From 3a76e93e0b9249997464cd96347aa83180f95240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 4/9] fix: remember the peer signature key only once its
 CONNECT message is verified

---
 src/minimal.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index fa58456..96db81b 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -189,13 +189,11 @@ impl MinimalSecureLayer {
                 ref sig_pubkey,
                 ..
             } => {
-                // Verify (or get) peer sig pubkey
+                // Verify peer sig pubkey
                 if let Some(ref peer_sig_pubkey) = self.peer_sig_pubkey {
                     if sig_pubkey != peer_sig_pubkey {
                         return Err(Error::UnexpectedRemoteSigPubKey);
                     }
-                } else {
-                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
                 }
 
                 // Verify sig
@@ -209,6 +207,11 @@ impl MinimalSecureLayer {
                 self.status
                     .apply_action(Action::Receive(MsgType::Connect))?;
 
+                // Get peer sig pubkey
+                if self.peer_sig_pubkey.is_none() {
+                    self.peer_sig_pubkey = Some(sig_pubkey.to_vec());
+                }
+
                 // Get peeer EPK and compute shared secret
                 self.peer_epk = Some(peer_ephemeral_pk.to_vec());
                 if let Err(e) = self.compute_shared_secret(&peer_ephemeral_pk[..]) {
-- 
2.43.0


From 03d5ac2033421a26bd1261c1a7a4dc2b1d781328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 5/9] fix: write messages, signatures and tags completely

---
 src/complete/writer.rs                   | 7 +++----
 src/encryption/chacha20_poly1305_aead.rs | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/complete/writer.rs b/src/complete/writer.rs
index 8f15d72..4ab7d5b 100644
--- a/src/complete/writer.rs
+++ b/src/complete/writer.rs
@@ -42,7 +42,7 @@ where
 
         // Write connect message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -72,7 +72,7 @@ where
 
         // Write ack message
         writer
-            .write(&bin_connect_msg)
+            .write_all(&bin_connect_msg)
             .map_err(|_| Error::BufferFlushError)?;
 
         // Sign message and write signature
@@ -92,8 +92,7 @@ where
     W: Write,
 {
     writer
-        .write(sig_key_pair.sign(bin_msg).as_ref())
-        .map(|_| ())
+        .write_all(sig_key_pair.sign(bin_msg).as_ref())
         .map_err(|_| Error::BufferFlushError)
 }
 
diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 31870d6..83c1086 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -86,7 +86,7 @@ pub fn encrypt<R: Read, W: Write>(
     .map_err(Error::FailToEncryptData)?;
 
     writer
-        .write(&tag.to_vec())
+        .write_all(&tag.to_vec())
         .map_err(Error::FailToEncryptData)?;
 
     Ok(())
-- 
2.43.0


From e39387818cfb51e49d2fd0a69f790c910ebaa834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 6/9] fix: bound the number of user messages kept before the
 ACK

---
 src/minimal.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/minimal.rs b/src/minimal.rs
index 96db81b..93e2de1 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -256,6 +256,11 @@ impl MinimalSecureLayer {
                     .status
                     .apply_action(Action::Receive(MsgType::UserMsg))?
                 {
+                    if self.tmp_stack_user_msgs.len() >= MAX_ORPHAN_NONCES {
+                        self.status = SecureLayerStatus::Fail;
+                        return Err(Error::TooManyUnorderedMsgs);
+                    }
+
                     self.tmp_stack_user_msgs.push(data);
                     return Ok(None);
                 }
-- 
2.43.0


From 313d4612fac143def6b961263f53170b38d83c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 7/9] fix: a repeated early user message no longer discards the
 other ones

---
 src/minimal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/minimal.rs b/src/minimal.rs
index 93e2de1..41ca95d 100644
--- a/src/minimal.rs
+++ b/src/minimal.rs
@@ -134,8 +134,11 @@ impl MinimalSecureLayer {
         let bin_msgs: Vec<Vec<u8>> = self.tmp_stack_user_msgs.drain(..).collect();
         let mut msgs = Vec::with_capacity(bin_msgs.len());
         for bin_msg in bin_msgs {
-            if let Some(msg) = self.read_inner(&bin_msg, false)? {
-                msgs.push(msg);
+            match self.read_inner(&bin_msg, false) {
+                Ok(Some(msg)) => msgs.push(msg),
+                // Repeated copy of a message already handed over
+                Ok(None) | Err(Error::RecvInvalidMsg(IncomingMsgErr::InvalidNonce)) => {}
+                Err(e) => return Err(e),
             }
         }
         Ok(msgs)
-- 
2.43.0


From e78bf248fa1027ff50a11d6d2fd4c5ac204e71da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 8/9] fix: never print secret seeds and keys

---
 src/encryption/chacha20_poly1305_aead.rs | 8 +++++++-
 src/seeds.rs                             | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/encryption/chacha20_poly1305_aead.rs b/src/encryption/chacha20_poly1305_aead.rs
index 83c1086..8161aa1 100644
--- a/src/encryption/chacha20_poly1305_aead.rs
+++ b/src/encryption/chacha20_poly1305_aead.rs
@@ -23,7 +23,7 @@ use zeroize::Zeroize;
 
 const CHACHA20_TAG_SIZE: usize = 16;
 
-#[derive(Clone, Debug, Default, Zeroize)]
+#[derive(Clone, Default, Zeroize)]
 #[zeroize(drop)]
 /// Secret key used for encryption algo
 pub struct SecretKey {
@@ -32,6 +32,12 @@ pub struct SecretKey {
     aad: [u8; 4],
 }
 
+impl std::fmt::Debug for SecretKey {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        f.write_str("SecretKey")
+    }
+}
+
 impl SecretKey {
     /// Create new secret key
     pub fn new(seed: &Seed48) -> SecretKey {
diff --git a/src/seeds.rs b/src/seeds.rs
index 60ecd37..1ecdd1b 100644
--- a/src/seeds.rs
+++ b/src/seeds.rs
@@ -18,10 +18,16 @@
 use zeroize::Zeroize;
 
 /// Store a 32 bytes seed
-#[derive(Clone, Debug, Default, PartialEq, Zeroize)]
+#[derive(Clone, Default, PartialEq, Zeroize)]
 #[zeroize(drop)]
 pub struct Seed32([u8; 32]);
 
+impl std::fmt::Debug for Seed32 {
+    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
+        f.write_str("Seed32")
+    }
+}
+
 impl AsRef<[u8]> for Seed32 {
     fn as_ref(&self) -> &[u8] {
         &self.0
-- 
2.43.0


From ebfccf41681889d63bc7bb6c1bb4a346d43b3347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 9/9] fix: build without the zip-sign feature

---
 src/config.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config.rs b/src/config.rs
index b883b23..418e449 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -23,7 +23,6 @@ const DEFAULT_COMPRESSION_MIN_SIZE: usize = 8_192;
 #[cfg(feature = "ser")]
 use crate::format::MessageFormat;
 
-#[cfg(feature = "zip-sign")]
 #[derive(Clone, Copy, Debug, PartialEq)]
 /// PKSTL Configuration
 pub struct SecureLayerConfig {
-- 
2.43.0

