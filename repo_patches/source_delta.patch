From 50147bf86e59f86358d71e62fb94afdae37ea3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:57 +0000
Subject: [PATCH 01/12] fix: reject secp256k1 signatures that do not verify

libsecp256k1::verify returns a bool; its value was dropped, so every
well-formed DER signature was accepted for every message and key.
---
 keypair/src/secp256k1.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/keypair/src/secp256k1.rs b/keypair/src/secp256k1.rs
index 64c4a85..672c872 100644
--- a/keypair/src/secp256k1.rs
+++ b/keypair/src/secp256k1.rs
@@ -171,8 +171,12 @@ impl PublicKey {
     pub fn verify_hashed(&self, msg: &[u8], sig: &[u8]) -> Result<(), VerificationError> {
         Message::parse_slice(msg)
             .and_then(|m| {
-                libsecp256k1::Signature::parse_der(sig)
-                    .map(|s| libsecp256k1::verify(&m, &s, &self.0))
+                let s = libsecp256k1::Signature::parse_der(sig)?;
+                if libsecp256k1::verify(&m, &s, &self.0) {
+                    Ok(())
+                } else {
+                    Err(libsecp256k1::Error::InvalidSignature)
+                }
             })
             .map_err(|e| {
                 VerificationError::Secp256k1(
@@ -181,7 +185,6 @@ impl PublicKey {
                     bs58::encode(self.0.serialize_compressed()).into_string(),
                 )
             })
-            .map(|_| ())
     }
 
     /// Encode the public key in compressed form, i.e. with one coordinate
-- 
2.43.0


From bec18e71f53eb68192e8f658791fbff7139cdde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:57 +0000
Subject: [PATCH 02/12] fix: decoding an empty public key or signature is an
 error, not a panic

---
 keypair/src/public_key.rs | 3 ++-
 keypair/src/signature.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/keypair/src/public_key.rs b/keypair/src/public_key.rs
index 483b06b..b6ca548 100644
--- a/keypair/src/public_key.rs
+++ b/keypair/src/public_key.rs
@@ -68,7 +68,8 @@ impl PublicKey {
     }
 
     pub fn decode(bytes: &[u8]) -> Result<PublicKey, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        let type_byte = *bytes.first().ok_or(DecodingError::InvalidTypeByte)?;
+        match KeyFormat::try_from(type_byte)? {
             KeyFormat::Ed25519 => Ok(PublicKey::Ed25519(ed25519::PublicKey::decode(&bytes[1..])?)),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(PublicKey::Rsa(rsa::PublicKey::from_pkcs1(
diff --git a/keypair/src/signature.rs b/keypair/src/signature.rs
index fc89472..c4a8a9c 100644
--- a/keypair/src/signature.rs
+++ b/keypair/src/signature.rs
@@ -64,7 +64,8 @@ impl Signature {
 
     /// decode with first byte set as keypair type
     pub fn decode(bytes: Vec<u8>) -> Result<Self, DecodingError> {
-        match KeyFormat::try_from(bytes[0])? {
+        let type_byte = *bytes.first().ok_or(DecodingError::InvalidTypeByte)?;
+        match KeyFormat::try_from(type_byte)? {
             KeyFormat::Ed25519 => Ok(Signature::Ed25519(ed25519::Signature(bytes[1..].to_vec()))),
             #[cfg(not(target_arch = "wasm32"))]
             KeyFormat::Rsa => Ok(Signature::Rsa(rsa::Signature(bytes[1..].to_vec()))),
-- 
2.43.0


From 3812f7ce964b0fa9859f6c5ba7b9aba7d45d013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:57 +0000
Subject: [PATCH 03/12] fix: decoding a trust followed by extra bytes is an
 error, not a panic

---
 trust-graph/src/trust.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust.rs b/trust-graph/src/trust.rs
index 7618da5..7eb38f4 100644
--- a/trust-graph/src/trust.rs
+++ b/trust-graph/src/trust.rs
@@ -206,7 +206,12 @@ impl Trust {
         offset += EXPIRATION_LEN;
 
         Self::check_arr_len(arr, "issued", offset + ISSUED_LEN)?;
-        let issued_bytes = &arr[offset..];
+        let issued_bytes = &arr[offset..offset + ISSUED_LEN];
+        offset += ISSUED_LEN;
+
+        if arr.len() != offset {
+            return Err(DecodeErrorInvalidSize("trust".to_string()));
+        }
         let issued_date = u64::from_le_bytes(issued_bytes.try_into().unwrap());
         let issued_date = Duration::from_secs(issued_date);
 
-- 
2.43.0


From 41b644a120a62b4e682b9dea638727c1f7caf432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:57 +0000
Subject: [PATCH 04/12] fix: parsing a certificate text of fewer than two lines
 is an error, not a panic

---
 trust-graph/src/certificate.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index bf78daf..1e327a1 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -310,14 +310,14 @@ impl FromStr for Certificate {
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let str_lines: Vec<&str> = s.lines().collect();
 
+        if str_lines.len() < 2 || (str_lines.len() - 2) % 4 != 0 {
+            return Err(IncorrectCertificateFormat(s.to_string()));
+        }
+
         // TODO for future purposes
         let _format = str_lines[0];
         let _version = str_lines[1];
 
-        if (str_lines.len() - 2) % 4 != 0 {
-            return Err(IncorrectCertificateFormat(s.to_string()));
-        }
-
         let num_of_trusts = (str_lines.len() - 2) / 4;
         let mut trusts = Vec::with_capacity(num_of_trusts);
 
-- 
2.43.0


From 3a48463d5fc92f1e0cf4640771f8f4bbc96be4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:57 +0000
Subject: [PATCH 05/12] fix: extending a certificate with an empty chain is an
 error, not a panic

---
 trust-graph/src/certificate.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/trust-graph/src/certificate.rs b/trust-graph/src/certificate.rs
index 1e327a1..2168dc9 100644
--- a/trust-graph/src/certificate.rs
+++ b/trust-graph/src/certificate.rs
@@ -101,11 +101,8 @@ impl Certificate {
             });
         }
 
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
         // check if `issued_by` is allowed to issue a certificate (i.e., there’s a trust for it in a chain)
         let mut previous_trust_num: i32 = -1;
         for pk_id in 0..extend_cert.chain.len() {
@@ -166,11 +163,8 @@ impl Certificate {
         }
 
         // first, verify given certificate
-        Certificate::verify(
-            extend_cert,
-            &[extend_cert.chain[0].issued_for.clone()],
-            cur_time,
-        )?;
+        let root = extend_cert.chain.first().ok_or(CertificateLengthError)?;
+        Certificate::verify(extend_cert, &[root.issued_for.clone()], cur_time)?;
 
         let issued_by_pk = issued_by.public();
 
-- 
2.43.0


From 5468a466aa33c67dee79452e8baad4b276462c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:19 +0000
Subject: [PATCH 06/12] fix: honour revocations of the direct issuer when
 searching chains

The search collected the revocations of the target and of every issuer
it extended a chain by, but not those of the target's direct issuer, so
R -> B -> A -> T was returned although R had revoked A.
---
 trust-graph/src/trust_graph.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 3da6716..5c61347 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -279,7 +279,12 @@ where
 
         // put all auth in the queue as the first possible paths through the graph
         for auth in node_auths {
-            chains_queue.push_back(Chain::new(NonEmpty::new(auth), node_revocations.clone()));
+            let issuer_revocations = self
+                .storage
+                .get_revocations(&auth.issued_by.clone().into())?;
+            let mut chain = Chain::new(NonEmpty::new(auth), node_revocations.clone());
+            chain.add_revocations(issuer_revocations);
+            chains_queue.push_back(chain);
         }
 
         // List of all chains that converge (terminate) to known roots
-- 
2.43.0


From f37755fae5a0d15deac54172f621a4ddd3c531af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:19 +0000
Subject: [PATCH 07/12] fix: a chain longer than its root's max_chain_len has
 zero weight

The exponent saturated at zero, so such a chain had weight 1.
---
 trust-graph/src/trust_graph.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trust-graph/src/trust_graph.rs b/trust-graph/src/trust_graph.rs
index 5c61347..801f782 100644
--- a/trust-graph/src/trust_graph.rs
+++ b/trust-graph/src/trust_graph.rs
@@ -99,7 +99,10 @@ fn get_weight_factor(max_chain_len: u32) -> u32 {
 }
 
 pub fn get_weight_from_factor(wf: WeightFactor) -> u32 {
-    2u32.pow(MAX_WEIGHT_FACTOR.saturating_sub(wf))
+    // a chain longer than its root allows carries no weight
+    MAX_WEIGHT_FACTOR
+        .checked_sub(wf)
+        .map_or(0, |exp| 2u32.pow(exp))
 }
 
 impl<S> TrustGraph<S>
-- 
2.43.0


From 159a621d8121e09e28bbf41966b06626992a6863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 08/12] fix: get_weight_from checks the origin of its timestamp
 argument

---
 service/src/service_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index ecd45cb..58047ae 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -139,7 +139,7 @@ fn get_weight(peer_id: String, timestamp_sec: u64) -> WeightResult {
 #[marine]
 fn get_weight_from(peer_id: String, issuer: String, timestamp_sec: u64) -> WeightResult {
     with_tg(|tg| {
-        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 2)?;
         let issued_for_pk = extract_public_key(peer_id.clone())?;
         let issuer_pk = extract_public_key(issuer)?;
         let weight =
-- 
2.43.0


From 0e8edad389751f5785825453e097af63672d3f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 09/12] fix: inserting a certificate checks the origin of its
 timestamp

---
 service/src/service_api.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/service/src/service_api.rs b/service/src/service_api.rs
index 58047ae..37c3a9f 100644
--- a/service/src/service_api.rs
+++ b/service/src/service_api.rs
@@ -39,6 +39,7 @@ fn set_root(peer_id: String, max_chain_len: u32) -> SetRootResult {
 /// see `trust_graph::Certificate` class for string encoding/decoding
 fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let certificate = trust_graph::Certificate::from_str(&certificate)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(certificate, timestamp_sec)?;
@@ -52,6 +53,7 @@ fn insert_cert_raw(certificate: String, timestamp_sec: u64) -> InsertResult {
 /// see `dto::Certificate` class for structure
 fn insert_cert(certificate: Certificate, timestamp_sec: u64) -> InsertResult {
     with_tg(|tg| {
+        check_timestamp_tetraplets(&marine_rs_sdk::get_call_parameters(), 1)?;
         let timestamp_sec = Duration::from_secs(timestamp_sec);
         tg.add(
             trust_graph::Certificate::try_from(certificate)?,
-- 
2.43.0


From dcb6e44f54c887378e1ae219bb990dfc3248c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 10/12] fix: setting a root again replaces its weight factor

---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index 008623f..bdfdd5e 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -44,7 +44,7 @@ pub fn create_tables() {
     connection
         .execute(
             "CREATE TABLE IF NOT EXISTS roots(
-        public_key TEXT,
+        public_key TEXT PRIMARY KEY,
         weight_factor INTEGER
         );",
         )
-- 
2.43.0


From 0bd0f13fab92ea01b9458baae7b151029eea6ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:06 +0000
Subject: [PATCH 11/12] fix: trusts that expire after 2^63 seconds are not
 removed as expired

---
 service/src/storage_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/service/src/storage_impl.rs b/service/src/storage_impl.rs
index bdfdd5e..87d7d4d 100644
--- a/service/src/storage_impl.rs
+++ b/service/src/storage_impl.rs
@@ -341,7 +341,7 @@ impl Storage for SQLiteStorage {
     fn remove_expired(&mut self, cur_time: Duration) -> Result<(), Self::Error> {
         let mut cursor = self
             .connection
-            .prepare("DELETE FROM trust_relations WHERE expires_at <= ? AND relation_type = ?")?
+            .prepare("DELETE FROM trust_relations WHERE expires_at >= 0 AND expires_at <= ? AND relation_type = ?")?
             .cursor();
 
         cursor.bind(&[
-- 
2.43.0


From 504a6e7f980904286c6a35979b52deca425dd5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:41:03 +0000
Subject: [PATCH 12/12] fix: a serialised PublicKeyHashable can be read back in
 every format

---
 trust-graph/src/public_key_hashable.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trust-graph/src/public_key_hashable.rs b/trust-graph/src/public_key_hashable.rs
index 4ac8c54..00574c2 100644
--- a/trust-graph/src/public_key_hashable.rs
+++ b/trust-graph/src/public_key_hashable.rs
@@ -94,7 +94,11 @@ impl serde::Serialize for PublicKeyHashable {
     where
         S: Serializer,
     {
-        serializer.serialize_bytes(&self.0.encode())
+        if serializer.is_human_readable() {
+            serializer.serialize_str(&self.to_string())
+        } else {
+            serializer.serialize_bytes(&self.0.encode())
+        }
     }
 }
 
@@ -137,6 +141,10 @@ impl<'de> serde::Deserialize<'de> for PublicKeyHashable {
             }
         }
 
-        deserializer.deserialize_str(PKVisitor)
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_str(PKVisitor)
+        } else {
+            deserializer.deserialize_bytes(PKVisitor)
+        }
     }
 }
-- 
2.43.0

