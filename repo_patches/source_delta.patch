From b5d540810e1cde2ed34c142865313ff8765f23be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 1/9] fix: canonicalize a body of only empty lines to CRLF with
 simple canonicalization

RFC 6376, section 3.4.3: the simple body canonicalization algorithm converts
*CRLF at the end of the body to a single CRLF, also when nothing else remains.
---
 src/canonicalize.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index f832b5e..7981f23 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -139,6 +139,7 @@ pub struct BodyCanonicalizer {
     state: CanonState,
     blank_line: bool,  // whether currently on an empty or blank line
     empty_lines: usize,  // number of empty lines seen
+    no_content: bool,  // whether only empty lines, or nothing at all, were seen
 }
 
 impl BodyCanonicalizer {
@@ -148,6 +149,7 @@ impl BodyCanonicalizer {
             state: CanonState::Init,
             blank_line: true,
             empty_lines: 0,
+            no_content: true,
         }
     }
 
@@ -305,6 +307,7 @@ impl BodyCanonicalizer {
             CanonicalizationAlgorithm::Simple => {
                 match self.state {
                     CanonState::Init => CRLF.to_vec(),  // empty body is CRLF
+                    CanonState::CrLf if self.no_content => CRLF.to_vec(),  // only empty lines
                     CanonState::CrLf => vec![],
                     CanonState::Cr => {
                         let mut result = vec![];
@@ -353,6 +356,7 @@ impl BodyCanonicalizer {
         }
         self.empty_lines = 0;
         self.blank_line = false;
+        self.no_content = false;
     }
 }
 
-- 
2.43.0


From 6ff4377aaa8ca94e378826c61686a4a6039e0e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:52 +0000
Subject: [PATCH 2/9] fix: encode header names in z= tag as quoted-printable

---
 src/signer/format.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signer/format.rs b/src/signer/format.rs
index 17b72b1..2cb06cc 100644
--- a/src/signer/format.rs
+++ b/src/signer/format.rs
@@ -419,7 +419,11 @@ fn format_tag_z(out: &mut String, i: &mut usize, fmt: Fmt<'_>, value: &[(FieldNa
         encode(value, Some('|'))
     };
 
-    let mut iter = value.iter().map(|(f, v)| (f.as_ref(), v));
+    // Header names, too, may contain characters that must be encoded.
+    let mut iter = value.iter().map(|(f, v)| {
+        let name: &str = f.as_ref();
+        (quoted_printable::encode(name.as_bytes(), Some('|')), v)
+    });
 
     // ensure that z= plus the first header name (including ':') fit on the first line
 
-- 
2.43.0


From 8a446d6afffe7cc7405bec4f59fd7122d66916ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:18 +0000
Subject: [PATCH 3/9] fix: accept only digits in l=, t=, and x= tag values

---
 src/signature.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/signature.rs b/src/signature.rs
index c4011ec..a2a9c6f 100644
--- a/src/signature.rs
+++ b/src/signature.rs
@@ -957,8 +957,8 @@ impl DkimSignature {
                     identity = Some(value);
                 }
                 "l" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidBodyLength)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidBodyLength)?;
 
                     body_length = Some(value);
                 }
@@ -991,14 +991,14 @@ impl DkimSignature {
                     selector = Some(value);
                 }
                 "t" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidTimestamp)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidTimestamp)?;
 
                     timestamp = Some(value);
                 }
                 "x" => {
-                    let value = value.parse()
-                        .map_err(|_| DkimSignatureErrorKind::InvalidExpiration)?;
+                    let value = parse_number(value)
+                        .ok_or(DkimSignatureErrorKind::InvalidExpiration)?;
 
                     expiration = Some(value);
                 }
@@ -1064,6 +1064,16 @@ impl DkimSignature {
     }
 }
 
+// Numeric tag values consist of digits only (standard integer parsing also
+// allows a plus sign).
+fn parse_number(s: &str) -> Option<u64> {
+    if s.bytes().all(|b| b.is_ascii_digit()) {
+        s.parse().ok()
+    } else {
+        None
+    }
+}
+
 impl FromStr for DkimSignature {
     type Err = DkimSignatureError;
 
-- 
2.43.0


From e6202a546043634f3953f9622102882b084183e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 4/9] fix: determine RSA key size in bits, not rounded up to
 bytes

---
 src/crypto/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 32cc1eb..98cd8c4 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -79,7 +79,7 @@ pub fn read_rsa_public_key(
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-    k.size() * 8
+    k.n().bits()
 }
 
 /// Verifies an RSA signature for a given message byte slice.
-- 
2.43.0


From 1115824ddc6ccab13473f74e35cfdd7abf8e669f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:41 +0000
Subject: [PATCH 5/9] fix: apply lookup timeout and make key lookups
 concurrently

---
 src/verifier/query.rs | 79 ++++++++++++++++++++++++++++++-------------
 1 file changed, 55 insertions(+), 24 deletions(-)

diff --git a/src/verifier/query.rs b/src/verifier/query.rs
index 84710ca..cdef7eb 100644
--- a/src/verifier/query.rs
+++ b/src/verifier/query.rs
@@ -22,10 +22,13 @@ use crate::{
     },
 };
 use std::{
-    collections::{HashMap, HashSet, BTreeSet},
+    collections::{HashMap, HashSet},
+    future::{self, Future},
     io::{self, ErrorKind},
+    task::Poll,
+    time::Duration,
 };
-use tokio::{task::JoinSet, time};
+use tokio::{runtime::Handle, time};
 use tracing::trace;
 
 struct QueriesBuilder {
@@ -54,42 +57,70 @@ impl QueriesBuilder {
     where
         T: LookupTxt + Clone + 'static,
     {
-        let mut set = Vec::new();
+        // All lookups make progress concurrently, and each one is subject to the
+        // lookup timeout on its own.
+
+        let mut lookups = Vec::new();
 
         for ((domain, selector), indexes) in self.lookup_pairs {
-            trace!(%domain, %selector, "spawning DNS query");
+            trace!(%domain, %selector, "starting DNS query");
 
             let resolver = resolver.clone();
 
             let lookup_timeout = config.lookup_timeout;
 
-            // set.spawn(async move {
-            //     let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-                // let result = match time::timeout(lookup_timeout, f).await {
-                //     Ok(r) => r,
-                //     Err(e) => Err(e.into()),
-                // };
-
-            //     (indexes, result)
-            // });
-
-            let f = look_up_records(&resolver,domain.as_ref(),selector.as_ref()).await;
-            // let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
-            // let result = match time::timeout(lookup_timeout, f).await {
-            //             Ok(r) => r,
-            //             Err(e) => Err(e.into()),
-            // };
-            
-            set.push(
-                (indexes, f)
-            );
+            let f = async move {
+                let f = look_up_records(&resolver, domain.as_ref(), selector.as_ref());
+                with_timeout(lookup_timeout, f).await
+            };
+
+            lookups.push((indexes, Box::pin(f), None));
         }
 
+        future::poll_fn(|cx| {
+            let mut pending = false;
+
+            for (_, f, result) in &mut lookups {
+                if result.is_none() {
+                    match f.as_mut().poll(cx) {
+                        Poll::Ready(r) => *result = Some(r),
+                        Poll::Pending => pending = true,
+                    }
+                }
+            }
+
+            if pending {
+                Poll::Pending
+            } else {
+                Poll::Ready(())
+            }
+        })
+        .await;
+
+        let set = lookups
+            .into_iter()
+            .filter_map(|(indexes, _, result)| Some((indexes, result?)))
+            .collect();
 
         Queries { set }
     }
 }
 
+async fn with_timeout<F>(lookup_timeout: Duration, f: F) -> QueryResult
+where
+    F: Future<Output = QueryResult>,
+{
+    // The timer requires a Tokio runtime, and is not available on Wasm.
+    if cfg!(target_arch = "wasm32") || Handle::try_current().is_err() {
+        return f.await;
+    }
+
+    match time::timeout(lookup_timeout, f).await {
+        Ok(r) => r,
+        Err(e) => Err(e.into()),
+    }
+}
+
 pub type QueryResult = io::Result<Vec<io::Result<String>>>;
 
 async fn look_up_records<T: LookupTxt + ?Sized>(
-- 
2.43.0


From 0a4be27c42804eab75458e3ec9a8ad499fbbec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:49 +0000
Subject: [PATCH 6/9] fix: never select the DKIM-Signature header being
 verified as a signed header

---
 src/canonicalize.rs    | 15 +++++++++++++++
 src/message_hash.rs    | 28 +++++++++++++++++++++++++++-
 src/verifier/header.rs |  2 +-
 src/verifier/verify.rs |  6 +++++-
 4 files changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/canonicalize.rs b/src/canonicalize.rs
index 7981f23..1379c95 100644
--- a/src/canonicalize.rs
+++ b/src/canonicalize.rs
@@ -32,10 +32,25 @@ pub fn canonicalize_headers(
     algorithm: CanonicalizationAlgorithm,
     headers: &HeaderFields,
     selected_headers: &[FieldName],
+) -> Vec<u8> {
+    canonicalize_headers_except(algorithm, headers, None, selected_headers)
+}
+
+// The field at index `excluded_index` is not available for selection.
+pub(crate) fn canonicalize_headers_except(
+    algorithm: CanonicalizationAlgorithm,
+    headers: &HeaderFields,
+    excluded_index: Option<usize>,
+    selected_headers: &[FieldName],
 ) -> Vec<u8> {
     let mut result = vec![];
     let mut processed_indexes = HashSet::with_capacity(selected_headers.len());
 
+    if let Some(index) = excluded_index {
+        // Indexes are counted from the end, see below.
+        processed_indexes.insert(headers.as_ref().len() - 1 - index);
+    }
+
     for selected_header in selected_headers {
         for (i, (name, val)) in headers
             .as_ref()
diff --git a/src/message_hash.rs b/src/message_hash.rs
index c21a54d..0eccad7 100644
--- a/src/message_hash.rs
+++ b/src/message_hash.rs
@@ -36,9 +36,35 @@ pub fn compute_data_hash(
     selected_headers: &[FieldName],
     dkim_sig_header_name: &str,
     formatted_dkim_sig_header_value: &str,
+) -> Box<[u8]> {
+    compute_data_hash_except(
+        hash_alg,
+        canon_alg,
+        headers,
+        None,
+        selected_headers,
+        dkim_sig_header_name,
+        formatted_dkim_sig_header_value,
+    )
+}
+
+// The header at index `excluded_index` is not available for selection.
+pub(crate) fn compute_data_hash_except(
+    hash_alg: HashAlgorithm,
+    canon_alg: CanonicalizationAlgorithm,
+    headers: &HeaderFields,
+    excluded_index: Option<usize>,
+    selected_headers: &[FieldName],
+    dkim_sig_header_name: &str,
+    formatted_dkim_sig_header_value: &str,
 ) -> Box<[u8]> {
     // canonicalize selected headers
-    let mut cheaders = canonicalize::canonicalize_headers(canon_alg, headers, selected_headers);
+    let mut cheaders = canonicalize::canonicalize_headers_except(
+        canon_alg,
+        headers,
+        excluded_index,
+        selected_headers,
+    );
 
     // canonicalize DKIM-Signature header
     canonicalize::canonicalize_header(
diff --git a/src/verifier/header.rs b/src/verifier/header.rs
index a4b4c35..3cbf090 100644
--- a/src/verifier/header.rs
+++ b/src/verifier/header.rs
@@ -405,7 +405,7 @@ fn verify_task(
         let name = task.header_name.as_ref().unwrap();
         let value = task.header_value.as_ref().unwrap();
 
-        match verify::perform_verification(headers, &key, sig, name, value) {
+        match verify::perform_verification(headers, task.index, &key, sig, name, value) {
             Ok(()) => {
                 task.status = VerifyStatus::Successful;
                 break;
diff --git a/src/verifier/verify.rs b/src/verifier/verify.rs
index bdd8e98..87cb3d5 100644
--- a/src/verifier/verify.rs
+++ b/src/verifier/verify.rs
@@ -27,6 +27,7 @@ use tracing::trace;
 
 pub fn perform_verification(
     headers: &HeaderFields,
+    index: usize,
     verifying_key: &VerifyingKey,
     sig: &DkimSignature,
     name: &str,
@@ -36,10 +37,13 @@ pub fn perform_verification(
 
     let original_dkim_sig = make_original_dkim_sig(value);
 
-    let data_hash = message_hash::compute_data_hash(
+    // The DKIM-Signature header being verified is itself never among the signed
+    // headers, see RFC 6376, section 3.5 (h= tag).
+    let data_hash = message_hash::compute_data_hash_except(
         hash_alg,
         sig.canonicalization.header,
         headers,
+        Some(index),
         &sig.signed_headers,
         name,
         &original_dkim_sig,
-- 
2.43.0


From 607a6c26a1e52b5d47ed2235a4a661bc36085018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 7/9] fix: refuse non-ASCII extension tags when ASCII-only
 output is requested

---
 src/signer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/signer/mod.rs b/src/signer/mod.rs
index 0050c4b..84250f8 100644
--- a/src/signer/mod.rs
+++ b/src/signer/mod.rs
@@ -357,6 +357,7 @@ fn validate_request<T: AsRef<SigningKey>>(request: &SignRequest<T>) -> Result<()
             || !tag_list::is_tag_name(name)
             || !tag_list::is_tag_value(value)
             || format::is_output_tag(name)
+            || (request.format.ascii_only && !value.is_ascii())
     }) {
         return Err(RequestError::InvalidExtTags);
     }
-- 
2.43.0


From 92101c83d5df38d58ae1cb27eea9108471553a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 8/9] fix: do not issue signatures with expiration not after
 timestamp

---
 src/signer/sign.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/signer/sign.rs b/src/signer/sign.rs
index f56d85d..9466cbf 100644
--- a/src/signer/sign.rs
+++ b/src/signer/sign.rs
@@ -99,6 +99,14 @@ where
             .saturating_add(duration.as_secs())
     });
 
+    // must not produce a signature where expiration is not after timestamp
+    if let (Some(timestamp), Some(expiration)) = (timestamp, expiration) {
+        if expiration <= timestamp {
+            trace!("not signing, expiration not representable");
+            return Err(SigningError::Overflow);
+        }
+    }
+
     // calculate z= tag copied headers
 
     let copied_headers = if request.copy_headers {
-- 
2.43.0


From fe5c6336becc206c07821e00c26e89c57547e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:39 +0000
Subject: [PATCH 9/9] fix: reject RSA signing keys with inconsistent components

---
 src/crypto/mod.rs |  6 ++++++
 src/crypto/rsa.rs | 35 +++++++++++++++++++++++++++++++++--
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/crypto/mod.rs b/src/crypto/mod.rs
index af0738c..a0dfe77 100644
--- a/src/crypto/mod.rs
+++ b/src/crypto/mod.rs
@@ -233,6 +233,12 @@ impl SigningKey {
         let pk = PrivateKeyInfo::try_from(doc.as_bytes())
             .map_err(|_| DecodeSigningKeyError::InvalidKeyData)?;
 
+        if pk.algorithm.oid == ::rsa::pkcs1::ALGORITHM_OID
+            && !self::rsa::is_consistent_private_key(pk.private_key)
+        {
+            return Err(DecodeSigningKeyError::InvalidKeyData);
+        }
+
         if let Ok(k) = RsaPrivateKey::try_from(pk.clone()) {
             Ok(Self::Rsa(k))
         } else if let Ok(k) = Ed25519SigningKey::try_from(pk.clone()) {
diff --git a/src/crypto/rsa.rs b/src/crypto/rsa.rs
index 98cd8c4..dde9d2c 100644
--- a/src/crypto/rsa.rs
+++ b/src/crypto/rsa.rs
@@ -16,8 +16,10 @@
 
 use crate::crypto::HashAlgorithm;
 use rsa::{
-    pkcs1::DecodeRsaPublicKey, pkcs8::DecodePublicKey, traits::PublicKeyParts, Pkcs1v15Sign,
-    RsaPrivateKey, RsaPublicKey,
+    pkcs1::{self, DecodeRsaPublicKey},
+    pkcs8::DecodePublicKey,
+    traits::PublicKeyParts,
+    BigUint, Pkcs1v15Sign, RsaPrivateKey, RsaPublicKey,
 };
 #[cfg(feature = "pre-rfc8301")]
 use sha1::Sha1;
@@ -76,6 +78,35 @@ pub fn read_rsa_public_key(
     Ok(key)
 }
 
+/// Returns whether the components of the PKCS#1 RSA private key belong together.
+///
+/// The rsa crate does not check this when reading a key: it accepts any numbers
+/// (and panics if a prime is zero or one).
+pub fn is_consistent_private_key(key_data: &[u8]) -> bool {
+    let key = match pkcs1::RsaPrivateKey::try_from(key_data) {
+        Ok(key) => key,
+        Err(_) => return false,
+    };
+
+    let [n, e, d, p, q] = [
+        key.modulus,
+        key.public_exponent,
+        key.private_exponent,
+        key.prime1,
+        key.prime2,
+    ]
+    .map(|i| BigUint::from_bytes_be(i.as_bytes()));
+
+    let one = BigUint::from(1u8);
+    let two = BigUint::from(2u8);
+    let de = d * e;
+
+    p > two
+        && q > two
+        && &p * &q == n
+        && [p, q].iter().all(|prime| &de % (prime - &one) == one)
+}
+
 pub const MIN_KEY_BITS: usize = if cfg!(feature = "pre-rfc8301") { 512 } else { 1024 };
 
 pub fn get_public_key_size(k: &RsaPublicKey) -> usize {
-- 
2.43.0

