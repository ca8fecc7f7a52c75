From ba58cda0ca4d97ab93d6938524c863c9c7c84d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:49 +0000
Subject: [PATCH 1/9] fix: return errors instead of panicking for unsupported
 key and sign blob combinations

---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..306244b 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,12 +8,16 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac key is not supported")]
+    HmacNotSupported,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
     #[error("service account signing error: {0}")]
     ServiceAccountSigning(ring::error::Unspecified),
+    #[error("service account with sign blob is not supported")]
+    ServiceAccountSignBlobNotSupported,
 }
 
 #[derive(Clone)]
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From b74670e49ece328732d0efb7b86f442cfd64c7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:03 +0000
Subject: [PATCH 2/9] fix: percent-encode bucket and object names so that a
 signed URL addresses exactly them

---
 src/private/canonical_request.rs | 41 ++++++++++++++++++++++++++++++++
 src/signed_url.rs                | 11 +++++----
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..8e69ed0 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -8,6 +8,10 @@ pub(crate) enum Error {
     HeaderValueContainsInvalidCharacter(http::header::ToStrError),
 }
 
+#[derive(Debug, thiserror::Error)]
+#[error("bucket name or object name cannot be represented in a URL path: {0}")]
+pub(crate) struct PathError(String);
+
 pub(crate) struct CanonicalRequest(String);
 
 impl CanonicalRequest {
@@ -72,6 +76,43 @@ pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     query_pairs.join("&")
 }
 
+/// Returns the percent-encoded `{bucket_name}/{object_name}`.
+///
+/// The `/` in the object name is kept. `.` and `..` path segments are rejected
+/// because they are removed from the URL, even if they are percent-encoded.
+pub(crate) fn encode_resource_path(
+    bucket_name: &str,
+    object_name: &str,
+) -> Result<String, PathError> {
+    let path = format!(
+        "{}/{}",
+        percent_encode_all(bucket_name),
+        object_name
+            .split('/')
+            .map(percent_encode_all)
+            .collect::<Vec<String>>()
+            .join("/")
+    );
+    if path.split('/').any(|s| s == "." || s == "..") {
+        return Err(PathError(path));
+    }
+    Ok(path)
+}
+
+/// Encodes all bytes except for the unreserved characters of RFC 3986.
+fn percent_encode_all(s: &str) -> String {
+    let mut encoded = String::new();
+    for b in s.bytes() {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(b))
+            }
+            _ => encoded.push_str(&format!("%{b:02X}")),
+        }
+    }
+    encoded
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..bc594df 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,8 +2,8 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
-        Location, RequestType, Service, SignedUrl,
+        canonical_request::encode_resource_path, utils::UnixTimestamp, ActiveDatetime,
+        CredentialScope, Date, Expiration, HttpVerb, Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
 };
@@ -31,6 +31,8 @@ enum ErrorKind {
     #[error(transparent)]
     InvalidQueryParameters(#[from] url::ParseError),
     #[error(transparent)]
+    InvalidResourcePath(crate::private::canonical_request::PathError),
+    #[error(transparent)]
     Location(crate::private::location::Error),
     #[error("now out of range")]
     Now,
@@ -80,8 +82,9 @@ pub async fn build_signed_url(
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
     let mut url = url::Url::parse(
         format!(
-            // TODO: escape bucket_name and object_name
-            "https://storage.googleapis.com/{bucket_name}/{object_name}",
+            "https://storage.googleapis.com/{}",
+            encode_resource_path(&bucket_name, &object_name)
+                .map_err(ErrorKind::InvalidResourcePath)?,
         )
         .as_str(),
     )
-- 
2.43.0


From 8d7a006df78b0ab4071f4887292990823040ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 3/9] fix: percent-encode all but unreserved characters in the
 query string of signed URLs

---
 src/private/canonical_request.rs | 2 +-
 src/private/signed_url.rs        | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 8e69ed0..4d5963e 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -70,7 +70,7 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| format!("{}={}", percent_encode_all(&k), percent_encode_all(&v)))
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From e9fe1a95c6ea2946210ff3266504ceaf8b42e0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 4/9] fix: sort query parameters by name, not by name and '='

---
 src/private/canonical_request.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 4d5963e..6bc99aa 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -70,10 +70,15 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode_all(&k), percent_encode_all(&v)))
-        .collect::<Vec<String>>();
+        .map(|(k, v)| (percent_encode_all(&k), percent_encode_all(&v)))
+        .collect::<Vec<(String, String)>>();
+    // sort by name (`a` < `a-b`, but `a=` > `a-b=`)
     query_pairs.sort();
-    query_pairs.join("&")
+    query_pairs
+        .into_iter()
+        .map(|(k, v)| format!("{k}={v}"))
+        .collect::<Vec<String>>()
+        .join("&")
 }
 
 /// Returns the percent-encoded `{bucket_name}/{object_name}`.
-- 
2.43.0


From 7c41c9d007fbdb2a29c2435f6a10730a67187ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 5/9] fix: remove whitespace around header values in the
 canonical request

---
 src/private/canonical_request.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 6bc99aa..761a2b8 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -36,7 +36,8 @@ impl CanonicalRequest {
                     .push(
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            .trim(),
                     );
             }
             canonical_headers
-- 
2.43.0


From bc0906818e20db79bd12632b61402c659879f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:43 +0000
Subject: [PATCH 6/9] fix: return an error instead of panicking when a signed
 URL is too long

---
 src/private/signed_url.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..9618a10 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -17,6 +17,8 @@ pub(crate) enum Error {
     HostHeaderNotFound,
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
+    #[error("invalid uri: {0}")]
+    Uri(#[source] http::uri::InvalidUri),
 }
 
 pub struct SignedUrl(String);
@@ -112,7 +114,8 @@ fn add_signed_url_required_query_string_parameters(
                 .as_str(),
         )
         .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+    // the URL can be too long for `http::Uri`
+    *request.uri_mut() = http::Uri::try_from(url1.to_string()).map_err(Error::Uri)?;
     Ok(())
 }
 
-- 
2.43.0


From b2c8afdcdee4a1a125b287f6b27814acccf0dabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 7/9] fix: return an error instead of panicking when there are
 too many headers

---
 src/signed_url.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index bc594df..df7baf9 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -38,6 +38,8 @@ enum ErrorKind {
     Now,
     #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
+    #[error(transparent)]
+    TooManyHeaders(http::header::MaxSizeReached),
 }
 
 #[derive(Clone)]
@@ -100,20 +102,25 @@ pub async fn build_signed_url(
         .uri(url.to_string())
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
-    request.headers_mut().extend(
-        headers
-            .iter()
-            .map(
-                |(k, v)| -> Result<(http::header::HeaderName, http::header::HeaderValue), Error> {
-                    let key = http::header::HeaderName::from_bytes(k.as_bytes())
-                        .map_err(ErrorKind::InvalidHeaderName)?;
-                    let value = http::header::HeaderValue::from_str(v)
-                        .map_err(ErrorKind::InvalidHeaderValue)?;
-                    Ok((key, value))
-                },
-            )
-            .collect::<Result<Vec<_>, Error>>()?,
-    );
+    let headers = headers
+        .iter()
+        .map(
+            |(k, v)| -> Result<(http::header::HeaderName, http::header::HeaderValue), Error> {
+                let key = http::header::HeaderName::from_bytes(k.as_bytes())
+                    .map_err(ErrorKind::InvalidHeaderName)?;
+                let value =
+                    http::header::HeaderValue::from_str(v).map_err(ErrorKind::InvalidHeaderValue)?;
+                Ok((key, value))
+            },
+        )
+        .collect::<Result<Vec<_>, Error>>()?;
+    for (key, value) in headers {
+        // `extend` and `append` panic if there are too many headers
+        request
+            .headers_mut()
+            .try_append(key, value)
+            .map_err(ErrorKind::TooManyHeaders)?;
+    }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
         Location::try_from(region.as_str()).map_err(ErrorKind::Location)?,
-- 
2.43.0


From 6c4f05e2fec2d8828523434bc5a38ed8e755cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:03 +0000
Subject: [PATCH 8/9] fix: return an error instead of panicking when expires_in
 is out of range

---
 src/private/bound_token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..a441abd 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / expires_in out of range error: {0}")]
+    TokenRequestExpiresInOutOfRange(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -163,7 +165,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestExpiresInOutOfRange(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From bc782915f9866512949408710e85924961257a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 9/9] fix: do not panic in the token cache when the clock is
 before the Unix epoch

---
 src/private/bound_token.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index a441abd..effa1e7 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -82,12 +82,8 @@ impl BoundToken {
         Ok(match cache.clone() {
             Some((email, access_token, expires))
                 if expires
-                    .duration_since(SystemTime::UNIX_EPOCH)
-                    .expect("expires to be after unix_epoch")
-                    > SystemTime::now()
-                        .duration_since(SystemTime::UNIX_EPOCH)
-                        .expect("SystemTime::now() to be after unix_epoch")
-                        + Duration::from_secs(30) =>
+                    .duration_since(SystemTime::now())
+                    .is_ok_and(|remaining| remaining > Duration::from_secs(30)) =>
             {
                 (email, access_token)
             }
-- 
2.43.0

