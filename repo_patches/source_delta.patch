From bab0317b85cae61d72a40062e2bc191f8b8cdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:20 +0000
Subject: [PATCH 1/5] fix: make MemoryStore wait for its lock instead of
 failing when it is busy

---
 src/verifier/session.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/verifier/session.rs b/src/verifier/session.rs
index a069450..af4e0b2 100644
--- a/src/verifier/session.rs
+++ b/src/verifier/session.rs
@@ -46,13 +46,13 @@ pub struct MemoryStore {
 #[async_trait]
 impl SessionStore for MemoryStore {
     async fn initiate(&self, session: Session) -> Result<()> {
-        self.store.try_lock()?.insert(session.uuid, session);
+        self.store.lock().await.insert(session.uuid, session);
 
         Ok(())
     }
 
     async fn update_status(&self, uuid: Uuid, status: Status) -> Result<()> {
-        if let Some(session) = self.store.try_lock()?.get_mut(&uuid) {
+        if let Some(session) = self.store.lock().await.get_mut(&uuid) {
             session.status = status;
             return Ok(());
         }
@@ -60,7 +60,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn get_session(&self, uuid: Uuid) -> Result<Session> {
-        if let Some(session) = self.store.try_lock()?.get(&uuid) {
+        if let Some(session) = self.store.lock().await.get(&uuid) {
             return Ok(session.clone());
         }
 
@@ -68,7 +68,7 @@ impl SessionStore for MemoryStore {
     }
 
     async fn remove_session(&self, uuid: Uuid) -> Result<()> {
-        if self.store.try_lock()?.remove(&uuid).is_some() {
+        if self.store.lock().await.remove(&uuid).is_some() {
             return Ok(());
         }
 
-- 
2.43.0


From 46eff8c2b7a06a24c743df71f1537a396f5a7b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:40 +0000
Subject: [PATCH 2/5] fix: give NonEmptyVec a non-empty default value

---
 src/utils.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2e34d0d..4a26feb 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,7 +2,7 @@ use anyhow::{bail, Error};
 use serde::{Deserialize, Serialize};
 use std::ops::Deref;
 
-#[derive(Debug, Clone, Default, Deserialize, PartialEq, Eq)]
+#[derive(Debug, Clone, Deserialize, PartialEq, Eq)]
 #[serde(try_from = "Vec<T>")]
 pub struct NonEmptyVec<T>(Vec<T>);
 
@@ -24,6 +24,12 @@ impl<T> NonEmptyVec<T> {
     }
 }
 
+impl<T: Default> Default for NonEmptyVec<T> {
+    fn default() -> Self {
+        Self::new(T::default())
+    }
+}
+
 impl<T> TryFrom<Vec<T>> for NonEmptyVec<T> {
     type Error = Error;
 
-- 
2.43.0


From 5ddc5d96cdd4bf0f9bef1e8a8b36a8bb0c0bdcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:34 +0000
Subject: [PATCH 3/5] fix: return an error instead of panicking when a
 certificate client has an empty chain

---
 src/verifier/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/verifier/client.rs b/src/verifier/client.rs
index f97b3f6..223e525 100644
--- a/src/verifier/client.rs
+++ b/src/verifier/client.rs
@@ -88,7 +88,7 @@ impl X509SanDnsClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c.first().context("x5c certificate chain is empty")?;
         let id = if let Some(san) = leaf
             .tbs_certificate
             .filter::<SubjectAltName>()
@@ -138,7 +138,7 @@ impl X509HashClient {
         x5c: Vec<Certificate>,
         signer: Arc<dyn RequestSigner<Error = anyhow::Error> + Send + Sync>,
     ) -> Result<Self> {
-        let leaf = &x5c[0];
+        let leaf = x5c.first().context("x5c certificate chain is empty")?;
         let leaf_der = leaf
             .to_der()
             .context("failed to DER-encode leaf certificate")?;
-- 
2.43.0


From 2b1edef73e8dc37c26d86447cc9c66eb57461c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:51 +0000
Subject: [PATCH 4/5] fix: escape member values in the JSON hashed for JWK
 thumbprints

---
 src/core/iso_18013_7/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 964fa52..0dc0133 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -447,7 +447,7 @@ pub fn compute_jwk_thumbprint(jwk: &serde_json::Value) -> Result<[u8; 32]> {
                 .context("EC JWK missing 'y'")?;
 
             // RFC 7638 §3.2: For EC keys, use crv, kty, x, y in lexicographic order
-            format!(r#"{{"crv":"{}","kty":"EC","x":"{}","y":"{}"}}"#, crv, x, y)
+            serde_json::json!({ "crv": crv, "kty": "EC", "x": x, "y": y }).to_string()
         }
         "RSA" => {
             let e = jwk
@@ -460,7 +460,7 @@ pub fn compute_jwk_thumbprint(jwk: &serde_json::Value) -> Result<[u8; 32]> {
                 .context("RSA JWK missing 'n'")?;
 
             // RFC 7638 §3.2: For RSA keys, use e, kty, n in lexicographic order
-            format!(r#"{{"e":"{}","kty":"RSA","n":"{}"}}"#, e, n)
+            serde_json::json!({ "e": e, "kty": "RSA", "n": n }).to_string()
         }
         _ => anyhow::bail!("unsupported key type for JWK thumbprint: {}", kty),
     };
-- 
2.43.0


From 3237c7ce0babbf2af6a114ebb0734546ef7ea2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:52 +0000
Subject: [PATCH 5/5] fix: take the handover thumbprint from the key the
 response is encrypted to

---
 src/core/iso_18013_7/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/core/iso_18013_7/mod.rs b/src/core/iso_18013_7/mod.rs
index 0dc0133..a8d0b6e 100644
--- a/src/core/iso_18013_7/mod.rs
+++ b/src/core/iso_18013_7/mod.rs
@@ -378,8 +378,8 @@ fn cbor_to_bytes<T: Serialize>(value: &T) -> Result<Vec<u8>> {
 ///
 /// # Returns
 ///
-/// The SHA-256 JWK thumbprint (32 bytes) of the first suitable encryption key found,
-/// or `None` if no encryption key is available.
+/// The SHA-256 JWK thumbprint (32 bytes) of the key that the response would be encrypted to,
+/// otherwise of the first suitable encryption key found, or `None` if no encryption key is available.
 pub fn get_encryption_jwk_thumbprint(
     request: &crate::core::authorization_request::AuthorizationRequestObject,
 ) -> Option<[u8; 32]> {
@@ -390,6 +390,10 @@ pub fn get_encryption_jwk_thumbprint(
         .ok()
         .and_then(|meta| meta.jwks().parsing_error().ok())
         .and_then(|jwks| {
+            // The response is encrypted to this key, if there is one: no other key may be named.
+            if let Some(key_map) = jwks.keys.iter().find(|key| is_response_encryption_key(key)) {
+                return compute_jwk_thumbprint(&serde_json::Value::Object(key_map.clone())).ok();
+            }
             jwks.keys.iter().find_map(|key_map| {
                 let jwk_json = serde_json::Value::Object(key_map.clone());
                 let is_enc = key_map
@@ -406,6 +410,14 @@ pub fn get_encryption_jwk_thumbprint(
         })
 }
 
+/// Whether `jwe::find_encryption_jwk` would select this key for encrypting the response.
+fn is_response_encryption_key(key: &serde_json::Map<String, serde_json::Value>) -> bool {
+    let member = |name| key.get(name).and_then(|v| v.as_str());
+    member("alg") == Some("ECDH-ES")
+        && member("crv") == Some("P-256")
+        && matches!(member("use"), None | Some("enc"))
+}
+
 /// Compute the SHA-256 JWK Thumbprint according to RFC 7638.
 ///
 /// For EC keys (P-256), the thumbprint is computed from the JSON object:
-- 
2.43.0

