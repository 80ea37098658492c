From bf23b4fab43a8bc590ef158d980bd7a755edac1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:35 +0000
Subject: [PATCH 01/23] fix: reject user pins of nine digits

---
 crates/openid4vci/src/access_token/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..62234c9 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -106,7 +106,7 @@ impl Validatable for GrantType {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From a7888614874ea2890be855b1c524b0b1c0d99ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:00 +0000
Subject: [PATCH 02/23] fix: enforce nbf and exp of the proof when evaluating a
 credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..3d39e5b 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -494,7 +494,7 @@ impl CredentialIssuer {
     /// - When authorization server metadata is supplied
     /// - When incorrect valdiation happens on the supplied input arguments
     /// - when the `c_nonce` is expired
-    /// - When a JWT is inside the proof and is not valid
+    /// - When a JWT is inside the proof and is not valid, not yet valid or not valid anymore
     /// - When the `client_id` is not inside the `JWT` as `iss`
     /// - When the `issuer_metadata.credential_issuer` is not equal to `aud` inside the `JWT`
     pub fn evaluate_credential_request(
@@ -535,6 +535,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
-- 
2.43.0


From 515d9220d4119d81d22f75a11d6c99aee1720441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:02 +0000
Subject: [PATCH 03/23] fix: validate the credential request, including its
 proof_type, when evaluating it

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3d39e5b..6a9c252 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -506,6 +506,7 @@ impl CredentialIssuer {
         evaluate_credential_request_options: Option<EvaluateCredentialRequestOptions>,
     ) -> CredentialIssuerResult<CredentialIssuerEvaluateRequestResponse> {
         issuer_metadata.validate()?;
+        credential_request.validate()?;
 
         let credential_offer =
             credential_offer.ok_or(CredentialIssuerError::CredentialOfferMustBeSupplied)?;
-- 
2.43.0


From 44041eba26bba7d83a1ad89fe6e094810455aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 04/23] fix: reject proofs with alg none or a symmetric
 algorithm

---
 crates/openid4vci/src/jwt/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..6c314c0 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -556,6 +556,20 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
+        // Check whether the `alg` is not `none` or an identifier for a symmetric algorithm
+        if matches!(
+            self.alg,
+            ProofJwtAlgorithm::None
+                | ProofJwtAlgorithm::HS256
+                | ProofJwtAlgorithm::HS384
+                | ProofJwtAlgorithm::HS512
+        ) {
+            return Err(ValidationError::Any {
+                validation_message: "jwt header `alg` MUST NOT be `none` or a symmetric algorithm"
+                    .to_owned(),
+            });
+        }
+
         Ok(())
     }
 }
-- 
2.43.0


From aa5d274a85409acaa8625642aeed307a66048d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:39 +0000
Subject: [PATCH 05/23] fix: reject a kid that is not a DID URL

---
 crates/openid4vci/src/jwt/mod.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 6c314c0..fdfd879 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -136,6 +136,22 @@ impl TryInto<String> for &ProofJwt {
     }
 }
 
+/// Convert a `kid` into a DID URL
+///
+/// [`ssi_dids::DIDURL`] does not check for the `did` scheme, so this is done here.
+fn key_id_to_did_url(key_id: &str) -> JwtResult<ssi_dids::DIDURL> {
+    let to_error = |message: String| JwtError::UnableToTransformIntoDid {
+        kid: key_id.to_owned(),
+        message,
+    };
+
+    if !key_id.starts_with("did:") {
+        return Err(to_error("Invalid DID URL".to_owned()));
+    }
+
+    ssi_dids::DIDURL::try_from(key_id.to_owned()).map_err(|e| to_error(e.to_string()))
+}
+
 impl ProofJwt {
     /// Verify a JWT given additional input
     ///
@@ -179,12 +195,7 @@ impl ProofJwt {
         if let Some(header) = &self.header.additional_header {
             match header {
                 ProofJwtAdditionalHeader::KeyId(key_id) => {
-                    let did = ssi_dids::DIDURL::try_from(key_id.clone()).map_err(|e| {
-                        JwtError::UnableToTransformIntoDid {
-                            kid: key_id.clone(),
-                            message: e.to_string(),
-                        }
-                    })?;
+                    let did = key_id_to_did_url(key_id)?;
 
                     Ok(Some(did.did))
                 }
@@ -348,12 +359,7 @@ impl ProofJwtHeader {
                     ProofJwtAdditionalHeader::KeyId(key_id) => {
                         // TODO: can the `key_id` also be anything other than a `did`
 
-                        let did = ssi_dids::DIDURL::try_from(key_id.clone()).map_err(|e| {
-                            JwtError::UnableToTransformIntoDid {
-                                kid: key_id.clone(),
-                                message: e.to_string(),
-                            }
-                        })?;
+                        let did = key_id_to_did_url(key_id)?;
 
                         let did_document = did_document
                             .as_ref()
-- 
2.43.0


From 268c163a2e034f38f4d8cb3281805f8e2c3d7175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:41 +0000
Subject: [PATCH 06/23] fix: reject proof JWTs with more than three parts

---
 crates/openid4vci/src/jwt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index fdfd879..19e113d 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -92,6 +92,12 @@ impl FromStr for ProofJwt {
 
         let signature = res.next();
 
+        if res.next().is_some() {
+            return Err(ValidationError::Any {
+                validation_message: "Too many parts found in the `JWT`".to_owned(),
+            });
+        }
+
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-- 
2.43.0


From bbabe4d6a9bb9101f5918e3d275e2ed194e0df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 07/23] fix: serialize error codes as the snake_case strings of
 the specification

---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From ab0afd806eb66fcdf724da32039d3a890a628da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 08/23] fix: serialize an issued credential as a bare JSON
 object or string

---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From 4a51407ca4e6e9d44914350efddbce1f105ab7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:47 +0000
Subject: [PATCH 09/23] fix: use the wire name
 cryptographic_binding_methods_supported

---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..ea2b5d9 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,10 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(
+        rename = "cryptographic_binding_methods_supported",
+        alias = "cryptographic_binding_mehtods_supported"
+    )]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From ca93501870438c35ddb9ec9e81f92dac4f6fcc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:49 +0000
Subject: [PATCH 10/23] fix: use the wire name value_type for the type of a
 claim

---
 crates/openid4vci/src/types/credential.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..a04f83c 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -133,7 +133,11 @@ pub struct CredentialSubject {
     /// defined by this specification are string, number, and image media types such as image/jpeg
     /// as defined in [IANA media type registry for
     /// images](https://www.iana.org/assignments/media-types/media-types.xhtml#image).
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "value_type",
+        alias = "valueType",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub value_type: Option<String>,
 
     /// An array of objects, where each object contains display properties of a certain claim in
-- 
2.43.0


From e5339deabb0551546eb31626c0ed8b8eefeb2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:00 +0000
Subject: [PATCH 11/23] fix: add credential_offer to the query the offer
 endpoint already has

---
 crates/openid4vci/src/credential_issuer/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 6a9c252..379e768 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -452,9 +452,15 @@ impl CredentialIssuer {
 
         // Get the url prefix
         // This is a deeplink if no `credential_offer_endpoint` is provided
-        let credential_offer_url_prefix = credential_offer_endpoint
-            .clone()
-            .map_or("openid-credential-offer://".to_owned(), |u| format!("{u}?"));
+        let credential_offer_url_prefix = credential_offer_endpoint.as_ref().map_or(
+            "openid-credential-offer://".to_owned(),
+            |u| match u.split_once('?') {
+                // The endpoint already has a query, so the parameter has to be added to it
+                Some((_, query)) if !query.is_empty() && !query.ends_with('&') => format!("{u}&"),
+                Some(_) => u.clone(),
+                None => format!("{u}?"),
+            },
+        );
 
         let credential_offer_url =
             format!("{credential_offer_url_prefix}credential_offer={credential_offer_url_encoded}");
-- 
2.43.0


From da64eb5c7d9136b7efdda771978f8b44b3377530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:02 +0000
Subject: [PATCH 12/23] fix: do not panic when the c_nonce expiry is not
 representable

---
 crates/openid4vci/src/credential_issuer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 379e768..143d0a1 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -527,8 +527,10 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
+            let expiry_timestamp = c_nonce_options
+                .c_nonce_created_at
+                .checked_add_signed(Duration::seconds(c_nonce_options.c_nonce_expires_in.into()))
+                .unwrap_or(DateTime::<Utc>::MAX_UTC);
             let now = Utc::now();
 
             if expiry_timestamp < now {
-- 
2.43.0


From 9e053e0004f004431d128377a14accf454e472b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:04 +0000
Subject: [PATCH 13/23] fix: reject a proof at the instant it expires

---
 crates/openid4vci/src/jwt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 19e113d..b8d59f9 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -164,7 +164,7 @@ impl ProofJwt {
     /// # Errors
     ///
     /// - When the [`ProofJwtBody::not_before`] is greater than [`chrono::Utc::now`]
-    /// - When the [`ProofJwtBody::expires_at`] is smaller than [`chrono::Utc::now`]
+    /// - When the [`ProofJwtBody::expires_at`] is smaller than, or equal to, [`chrono::Utc::now`]
     pub fn verify(&self) -> JwtResult<()> {
         let now = Utc::now();
 
@@ -178,7 +178,7 @@ impl ProofJwt {
         }
 
         if let Some(expires_at) = self.body.expires_at {
-            if now > expires_at {
+            if now >= expires_at {
                 return Err(JwtError::NotValidAnymore {
                     valid_until: expires_at,
                     now,
-- 
2.43.0


From bcb2cb967198a36c1e2427fe6a5e9872c8a971fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:06 +0000
Subject: [PATCH 14/23] fix: read credential offers without grants

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 143d0a1..18ad873 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -190,6 +190,7 @@ pub struct CredentialOffer {
     /// the respective request(s). If grants is not present or empty, the Wallet MUST determine the
     /// Grant Types the Credential Issuer's AS supports using the respective metadata. When multiple
     /// grants are present, it's at the Wallet's discretion which one to use.
+    #[serde(default)]
     pub grants: CredentialOfferGrants,
 }
 
-- 
2.43.0


From 4d404f4a20a2f68d70702af8cb413a92c8e3df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:39 +0000
Subject: [PATCH 15/23] fix: reject proofs that name more than one of kid, jwk
 and x5c

---
 crates/openid4vci/src/jwt/mod.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b8d59f9..cb2cd0b 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -101,6 +101,20 @@ impl FromStr for ProofJwt {
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
+        let members: serde_json::Map<String, serde_json::Value> = serde_json::from_slice(&header)?;
+        let key_members = ["kid", "jwk", "x5c"];
+        if key_members
+            .iter()
+            .filter(|k| members.contains_key(**k))
+            .count()
+            > 1
+        {
+            return Err(ValidationError::Any {
+                validation_message:
+                    "jwt header MUST NOT contain more than one of `kid`, `jwk` and `x5c`".to_owned(),
+            });
+        }
+
         let header: ProofJwtHeader = serde_json::from_slice(&header)?;
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
 
-- 
2.43.0


From 8a3157dfcaf87a85a035791804d42701f6844dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:14 +0000
Subject: [PATCH 16/23] fix: read the NumericDate form of iat, nbf and exp

---
 crates/openid4vci/src/jwt/mod.rs | 72 ++++++++++++++++++++++++++++++--
 1 file changed, 69 insertions(+), 3 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index cb2cd0b..ebd3a59 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -537,7 +537,7 @@ pub struct ProofJwtBody {
 
     /// The value of this claim MUST be the time at which the proof was issued using the syntax
     /// defined in [RFC7519](https://www.rfc-editor.org/rfc/rfc7519.txt).
-    #[serde(rename = "iat")]
+    #[serde(rename = "iat", deserialize_with = "numeric_date::deserialize")]
     pub issued_at: DateTime<Utc>,
 
     /// The value type of this claim MUST be a string, where the value is a `c_nonce` provided by
@@ -550,7 +550,12 @@ pub struct ProofJwtBody {
     /// provide for some small leeway, usually no more than a few minutes, to account for clock
     /// skew.  Its value MUST be a number containing a NumericDate value.  Use of this claim is
     /// OPTIONAL.
-    #[serde(rename = "nbf", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "nbf",
+        default,
+        deserialize_with = "numeric_date::deserialize_option",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub not_before: Option<DateTime<Utc>>,
 
     /// The "exp" (expiration time) claim identifies the expiration time on or after which the JWT
@@ -559,10 +564,71 @@ pub struct ProofJwtBody {
     /// Implementers MAY provide for some small leeway, usually no more than a few minutes, to
     /// account for clock skew.  Its value MUST be a number containing a NumericDate value.  Use of
     /// this claim is OPTIONAL.
-    #[serde(rename = "exp", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "exp",
+        default,
+        deserialize_with = "numeric_date::deserialize_option",
+        skip_serializing_if = "Option::is_none"
+    )]
     pub expires_at: Option<DateTime<Utc>>,
 }
 
+/// Deserialization of a `NumericDate`, as defined in section 2 of
+/// [RFC7519](https://www.rfc-editor.org/rfc/rfc7519.txt). For backwards compatibility, an
+/// RFC3339 string is accepted as well.
+mod numeric_date {
+    use chrono::{DateTime, TimeZone, Utc};
+    use serde::{de::Error, Deserialize, Deserializer};
+
+    /// Forms in which an instant can be supplied
+    #[derive(Deserialize)]
+    #[serde(untagged)]
+    enum NumericDate {
+        /// Whole seconds since the epoch
+        Seconds(i64),
+        /// Non-integer seconds since the epoch
+        FractionalSeconds(f64),
+        /// RFC3339 string
+        Rfc3339(DateTime<Utc>),
+    }
+
+    impl NumericDate {
+        /// Convert into a [`DateTime`]
+        fn into_date_time<E: Error>(self) -> Result<DateTime<Utc>, E> {
+            match self {
+                Self::Seconds(seconds) => Utc.timestamp_opt(seconds, 0).single(),
+                #[allow(clippy::cast_possible_truncation)]
+                Self::FractionalSeconds(seconds) => Utc
+                    .timestamp_opt(seconds.floor() as i64, 0)
+                    .single()
+                    .and_then(|date_time| {
+                        let nanoseconds = (seconds - seconds.floor()) * 1e9;
+                        date_time
+                            .checked_add_signed(chrono::Duration::nanoseconds(nanoseconds as i64))
+                    }),
+                Self::Rfc3339(date_time) => Some(date_time),
+            }
+            .ok_or_else(|| E::custom("NumericDate is out of range"))
+        }
+    }
+
+    /// Deserialize a required `NumericDate`
+    pub fn deserialize<'de, D: Deserializer<'de>>(
+        deserializer: D,
+    ) -> Result<DateTime<Utc>, D::Error> {
+        NumericDate::deserialize(deserializer)?.into_date_time()
+    }
+
+    /// Deserialize an optional `NumericDate`
+    pub fn deserialize_option<'de, D: Deserializer<'de>>(
+        deserializer: D,
+    ) -> Result<Option<DateTime<Utc>>, D::Error> {
+        Option::<NumericDate>::deserialize(deserializer)?
+            .map(NumericDate::into_date_time)
+            .transpose()
+    }
+}
+
 impl Validatable for ProofJwt {
     fn validate(&self) -> ValidationResult<()> {
         self.header.validate()?;
-- 
2.43.0


From c14dbbabb4d60c3857f1714f0c1b2758f9f4647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 17/23] fix: reject OKP keys that are not Ed25519 keys

---
 crates/openid4vci/src/jwt/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index ebd3a59..094a8e2 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -489,7 +489,9 @@ impl ProofJwtHeader {
                     algorithm: alg_name,
                 }),
             },
-            ssi_jwk::Params::OKP(params) => Ok(params.public_key.0.clone()),
+            ssi_jwk::Params::OKP(params) if params.curve == "Ed25519" => {
+                Ok(params.public_key.0.clone())
+            }
             _ => Err(JwtError::UnsupportedAlgorithm {
                 algorithm: alg_name,
             }),
-- 
2.43.0


From acc9aef5e293006fba79928f7f153284ea3da621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:42 +0000
Subject: [PATCH 18/23] fix: read the object form of jwk and the array form of
 x5c

---
 crates/openid4vci/src/jwt/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 094a8e2..06b748f 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -509,16 +509,30 @@ pub enum ProofJwtAdditionalHeader {
     KeyId(String),
     /// JOSE Header containing the key material the new Credential shall be bound to. MUST NOT be
     /// present if kid or x5c is present
-    #[serde(rename = "jwk")]
+    #[serde(rename = "jwk", deserialize_with = "deserialize_string_or_json")]
     Jwk(String),
     /// JOSE Header containing a certificate or certificate chain corresponding to the key used to sign
     /// the JWT. This element MAY be used to convey a key attestation. In such a case, the actual
     /// key certificate will contain attributes related to the key properties. MUST NOT be present
     /// if kid or jwk is present.
-    #[serde(rename = "x5c")]
+    #[serde(rename = "x5c", deserialize_with = "deserialize_string_or_json")]
     X5c(String),
 }
 
+/// Deserialize a JSON object (`jwk`) or JSON array (`x5c`) into its JSON text. For backwards
+/// compatibility, a string that already contains the text is accepted as well.
+fn deserialize_string_or_json<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> std::result::Result<String, D::Error> {
+    match serde_json::Value::deserialize(deserializer)? {
+        serde_json::Value::String(s) => Ok(s),
+        v @ (serde_json::Value::Object(_) | serde_json::Value::Array(_)) => Ok(v.to_string()),
+        _ => Err(serde::de::Error::custom(
+            "expected a string, an object or an array",
+        )),
+    }
+}
+
 /// Struct mapping of `jwt body` in the `proof types` as defined in section 7.2.1 of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#proof_types)
 #[derive(Debug, Serialize, Deserialize, Clone, Default)]
-- 
2.43.0


From 0b0d13de563a4cca68e05266f0217270a352d49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:52 +0000
Subject: [PATCH 19/23] fix: reject proofs with a kid, jwk or x5c of the wrong
 type

---
 crates/openid4vci/src/jwt/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 06b748f..3f45c77 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -116,6 +116,17 @@ impl FromStr for ProofJwt {
         }
 
         let header: ProofJwtHeader = serde_json::from_slice(&header)?;
+        // A flattened option is `None` when its value could not be deserialized
+        if header.additional_header.is_none()
+            && key_members
+                .iter()
+                .any(|k| members.get(*k).map_or(false, |v| !v.is_null()))
+        {
+            return Err(ValidationError::Any {
+                validation_message: "jwt header has an invalid `kid`, `jwk` or `x5c`".to_owned(),
+            });
+        }
+
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
 
         Ok(ProofJwt {
-- 
2.43.0


From 15dbf70e0f5cec0a7af99ec3404e454c813e1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:30 +0000
Subject: [PATCH 20/23] fix: reject proofs whose claims are not a JSON object

---
 crates/openid4vci/src/jwt/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 3f45c77..00f0443 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -127,6 +127,8 @@ impl FromStr for ProofJwt {
             });
         }
 
+        // A structure can also be deserialized from a JSON array, but claims are in a JSON object
+        let _: serde_json::Map<String, serde_json::Value> = serde_json::from_slice(&body)?;
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
 
         Ok(ProofJwt {
-- 
2.43.0


From 0635289f5431923936c30b2cdf2643f0677c79bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:36 +0000
Subject: [PATCH 21/23] fix: reject proofs whose alg is not a string

---
 crates/openid4vci/src/jwt/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 00f0443..2f846e7 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -368,6 +368,7 @@ pub struct ProofJwtHeader {
     /// A digital signature algorithm identifier such as per IANA "JSON Web Signature and
     /// Encryption Algorithms" registry. MUST NOT be none or an identifier for a symmetric
     /// algorithm (MAC).
+    #[serde(deserialize_with = "deserialize_algorithm")]
     pub alg: ProofJwtAlgorithm,
 
     /// Optional additional field containing, `kid`, `jwk` or `x5c`.
@@ -532,6 +533,15 @@ pub enum ProofJwtAdditionalHeader {
     X5c(String),
 }
 
+/// Deserialize an algorithm, which is always a JSON string. A derived enumeration can also be
+/// deserialized from an object, like `{"EdDSA": null}`.
+fn deserialize_algorithm<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> std::result::Result<ProofJwtAlgorithm, D::Error> {
+    let name = String::deserialize(deserializer)?;
+    ProofJwtAlgorithm::deserialize(serde::de::value::StringDeserializer::new(name))
+}
+
 /// Deserialize a JSON object (`jwk`) or JSON array (`x5c`) into its JSON text. For backwards
 /// compatibility, a string that already contains the text is accepted as well.
 fn deserialize_string_or_json<'de, D: serde::Deserializer<'de>>(
-- 
2.43.0


From aa44b69652c40bddd17fb3c4e2203ac0eb052a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:21 +0000
Subject: [PATCH 22/23] fix: reject proofs with an array as jwk or an object as
 x5c

---
 crates/openid4vci/src/jwt/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 2f846e7..64abf2b 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -523,13 +523,13 @@ pub enum ProofJwtAdditionalHeader {
     KeyId(String),
     /// JOSE Header containing the key material the new Credential shall be bound to. MUST NOT be
     /// present if kid or x5c is present
-    #[serde(rename = "jwk", deserialize_with = "deserialize_string_or_json")]
+    #[serde(rename = "jwk", deserialize_with = "deserialize_jwk")]
     Jwk(String),
     /// JOSE Header containing a certificate or certificate chain corresponding to the key used to sign
     /// the JWT. This element MAY be used to convey a key attestation. In such a case, the actual
     /// key certificate will contain attributes related to the key properties. MUST NOT be present
     /// if kid or jwk is present.
-    #[serde(rename = "x5c", deserialize_with = "deserialize_string_or_json")]
+    #[serde(rename = "x5c", deserialize_with = "deserialize_x5c")]
     X5c(String),
 }
 
@@ -542,17 +542,27 @@ fn deserialize_algorithm<'de, D: serde::Deserializer<'de>>(
     ProofJwtAlgorithm::deserialize(serde::de::value::StringDeserializer::new(name))
 }
 
-/// Deserialize a JSON object (`jwk`) or JSON array (`x5c`) into its JSON text. For backwards
-/// compatibility, a string that already contains the text is accepted as well.
-fn deserialize_string_or_json<'de, D: serde::Deserializer<'de>>(
+/// Deserialize a `jwk`, a JSON object, into its JSON text. For backwards compatibility, a string
+/// that already contains the text is accepted as well.
+fn deserialize_jwk<'de, D: serde::Deserializer<'de>>(
     deserializer: D,
 ) -> std::result::Result<String, D::Error> {
     match serde_json::Value::deserialize(deserializer)? {
         serde_json::Value::String(s) => Ok(s),
-        v @ (serde_json::Value::Object(_) | serde_json::Value::Array(_)) => Ok(v.to_string()),
-        _ => Err(serde::de::Error::custom(
-            "expected a string, an object or an array",
-        )),
+        v @ serde_json::Value::Object(_) => Ok(v.to_string()),
+        _ => Err(serde::de::Error::custom("expected a string or an object")),
+    }
+}
+
+/// Deserialize an `x5c`, a JSON array, into its JSON text. For backwards compatibility, a string
+/// that already contains the text is accepted as well.
+fn deserialize_x5c<'de, D: serde::Deserializer<'de>>(
+    deserializer: D,
+) -> std::result::Result<String, D::Error> {
+    match serde_json::Value::deserialize(deserializer)? {
+        serde_json::Value::String(s) => Ok(s),
+        v @ serde_json::Value::Array(_) => Ok(v.to_string()),
+        _ => Err(serde::de::Error::custom("expected a string or an array")),
     }
 }
 
-- 
2.43.0


From 2c820e081ed5c66b988bbfc79c875618559c93b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:18 +0000
Subject: [PATCH 23/23] fix: refuse a proof header that names its key more than
 once

---
 crates/openid4vci/src/jwt/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 64abf2b..558fb79 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -127,6 +127,16 @@ impl FromStr for ProofJwt {
             });
         }
 
+        // A flattened option is the first of several members with the same name, and the last one is
+        // in `members`
+        let last: ProofJwtHeader = serde_json::from_value(serde_json::Value::Object(members))?;
+        if header.additional_header != last.additional_header {
+            return Err(ValidationError::Any {
+                validation_message:
+                    "jwt header MUST NOT contain `kid`, `jwk` or `x5c` more than once".to_owned(),
+            });
+        }
+
         // A structure can also be deserialized from a JSON array, but claims are in a JSON object
         let _: serde_json::Map<String, serde_json::Value> = serde_json::from_slice(&body)?;
         let body: ProofJwtBody = serde_json::from_slice(&body)?;
-- 
2.43.0

