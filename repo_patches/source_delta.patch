From ef5944c6853f01945b7b349fc5b7ec57aee05a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 01/42] fix: refuse to start XXfallback+hfs directly, without a
 fallback

---
 src/protocol/handshakestate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 87ce1ea..af00a7a 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -804,7 +804,8 @@ int noise_handshakestate_start(NoiseHandshakeState *state)
         return NOISE_ERROR_INVALID_PARAM;
     if (state->action != NOISE_ACTION_NONE)
         return NOISE_ERROR_INVALID_STATE;
-    if (state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK &&
+    if ((state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK ||
+         state->symmetric->id.pattern_id == NOISE_PATTERN_XX_FALLBACK_HFS) &&
             (state->requirements & NOISE_REQ_FALLBACK_PREMSG) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From ff76c315e901c6206780b95b4c57ab7326815ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 02/42] fix: erase unauthenticated plaintext when OpenSSL
 AESGCM rejects a message

---
 src/backend/openssl/cipher-aesgcm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index cb11bc1..e8827e2 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -172,6 +172,7 @@ static int noise_aesgcm_decrypt(NoiseCipherState *state, const uint8_t *ad, size
      */
     if (EVP_DecryptFinal_ex(st->ctx, data + len, &len) <= 0) {
         ERR_clear_error();
+        noise_clean(data, data_len);
         return NOISE_ERROR_MAC_FAILURE;
     }
 
-- 
2.43.0


From efb03f5637cba735d2c12eb7c17f07ad52cd9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 03/42] fix: forget null ephemeral and hybrid keys when they
 are rejected

---
 src/protocol/handshakestate.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index af00a7a..541c6a6 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -1466,7 +1466,9 @@ static int noise_handshakestate_read
                 /* The remote ephemeral key is null, which means that it is
                    not contributing anything to the security of the session
                    and is in fact downgrading the security to "none at all"
-                   in some of the message patterns.  Reject all such keys. */
+                   in some of the message patterns.  Reject all such keys,
+                   and forget the key so that fallback cannot use it. */
+                noise_dhstate_clear_key(state->dh_remote_ephemeral);
                 return NOISE_ERROR_INVALID_PUBLIC_KEY;
             }
             msg.data += len;
@@ -1567,7 +1569,9 @@ static int noise_handshakestate_read
                 /* The remote hybrid key is null, which means that it is
                    not contributing anything to the security of the session
                    and is in fact downgrading the security to "none at all"
-                   in some of the message patterns.  Reject all such keys. */
+                   in some of the message patterns.  Reject all such keys,
+                   and forget the key so that fallback cannot use it. */
+                noise_dhstate_clear_key(state->dh_remote_hybrid);
                 err = NOISE_ERROR_INVALID_PUBLIC_KEY;
                 break;
             }
-- 
2.43.0


From cebfa6969d6791361ca27980a4268e1b1288c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 04/42] fix: refuse all-zeroes New Hope public keys

---
 src/backend/ref/dh-newhope.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend/ref/dh-newhope.c b/src/backend/ref/dh-newhope.c
index ff0a4ef..68699b1 100644
--- a/src/backend/ref/dh-newhope.c
+++ b/src/backend/ref/dh-newhope.c
@@ -88,8 +88,10 @@ static int noise_newhope_set_keypair
 static int noise_newhope_validate_public_key
         (const NoiseDHState *state, const uint8_t *public_key)
 {
-    /* Nothing to do here */
-    return NOISE_ERROR_NONE;
+    /* An all-zeroes public key contributes nothing to the shared secret.
+       Null public keys are not allowed for this algorithm, so reject it */
+    int is_null = noise_is_zero(public_key, state->public_key_len);
+    return NOISE_ERROR_INVALID_PUBLIC_KEY & (-is_null);
 }
 
 static int noise_newhope_copy
-- 
2.43.0


From 1da9be8a78a9daf8620218323c13ea4d3ee5db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 05/42] fix: refuse to calculate a shared key when there is no
 public key

---
 src/protocol/dhstate.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protocol/dhstate.c b/src/protocol/dhstate.c
index 45f6341..938444e 100644
--- a/src/protocol/dhstate.c
+++ b/src/protocol/dhstate.c
@@ -698,6 +698,8 @@ int noise_dhstate_calculate
         return NOISE_ERROR_INVALID_LENGTH;
     if (private_key_state->key_type != NOISE_KEY_TYPE_KEYPAIR)
         return NOISE_ERROR_INVALID_PRIVATE_KEY;
+    if (public_key_state->key_type == NOISE_KEY_TYPE_NO_KEY)
+        return NOISE_ERROR_INVALID_PUBLIC_KEY;
 
     /* If the public key is null, then the output must be null too.
        We check for null now, but still perform the normal evaluation.
-- 
2.43.0


From 0bc0281f109d01ea3dd1274fc4c6e6d21318a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:13 +0000
Subject: [PATCH 06/42] fix: refuse to fall back from the one-way pattern
 Xnoidh

---
 src/protocol/handshakestate.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 541c6a6..2fba48e 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -985,8 +985,10 @@ int noise_handshakestate_fallback_to(NoiseHandshakeState *state, int pattern_id)
     if (!state)
         return NOISE_ERROR_INVALID_PARAM;
 
-    /* The original pattern must end in "K" for fallback to be possible */
+    /* The original pattern must end in "K" for fallback to be possible,
+       and it must not be one of the one-way patterns */
     if (state->symmetric->id.pattern_id < NOISE_PATTERN_NN ||
+            state->symmetric->id.pattern_id == NOISE_PATTERN_X_NOIDH ||
             (state->requirements & NOISE_REQ_FALLBACK_POSSIBLE) == 0)
         return NOISE_ERROR_NOT_APPLICABLE;
 
-- 
2.43.0


From e0eb8b45f96c8fcf7be48f98900b4f855371c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 07/42] fix: report out of memory and clear the handle when a
 handshake object cannot be created

---
 src/protocol/handshakestate.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 2fba48e..3965b00 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -177,7 +177,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_local_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
     if ((flags & NOISE_PAT_FLAG_REMOTE_STATIC) != 0 && err == NOISE_ERROR_NONE) {
@@ -191,7 +191,7 @@ static int noise_handshakestate_new
             err = noise_dhstate_new_by_id(&((*state)->dh_remote_hybrid), hybrid_id);
         else
             err = NOISE_ERROR_NOT_APPLICABLE;
-    } else if (hybrid_id != NOISE_DH_NONE) {
+    } else if (hybrid_id != NOISE_DH_NONE && err == NOISE_ERROR_NONE) {
         err = NOISE_ERROR_NOT_APPLICABLE;
     }
 
@@ -223,6 +223,7 @@ static int noise_handshakestate_new
     /* Bail out if we had an error trying to create the DHState objects */
     if (err != NOISE_ERROR_NONE) {
         noise_handshakestate_free(*state);
+        *state = 0;
         return err;
     }
 
-- 
2.43.0


From b0b6ccf8eb0f1fa4ec043f40d9bcc7a4dbd2978d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 08/42] fix: free the AESGCM object when OpenSSL cannot
 allocate its context

---
 src/backend/openssl/cipher-aesgcm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/backend/openssl/cipher-aesgcm.c b/src/backend/openssl/cipher-aesgcm.c
index e8827e2..9da2e26 100644
--- a/src/backend/openssl/cipher-aesgcm.c
+++ b/src/backend/openssl/cipher-aesgcm.c
@@ -191,8 +191,10 @@ NoiseCipherState *noise_aesgcm_new_openssl(void)
     NoiseAESGCMState *state = noise_new(NoiseAESGCMState);
     if (!state)
         return 0;
-    if (!(state->ctx = EVP_CIPHER_CTX_new()))
+    if (!(state->ctx = EVP_CIPHER_CTX_new())) {
+        noise_free(state, sizeof(NoiseAESGCMState));
         return 0;
+    }
     state->parent.cipher_id = NOISE_CIPHER_AESGCM;
     state->parent.key_len = 32;
     state->parent.mac_len = 16;
-- 
2.43.0


From 8cb66c8ca8a9d16305b8c2358c7372fecc06ac17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 09/42] fix: free the certificate when it cannot be added to a
 chain

---
 src/keys/loader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 3cb2580..91856e4 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -336,6 +336,7 @@ int noise_load_certificate_chain_from_buffer
         if (err == NOISE_ERROR_NONE)
             err = Noise_CertificateChain_insert_certs(*chain, 0, cert);
         if (err != NOISE_ERROR_NONE) {
+            Noise_Certificate_free(cert);
             Noise_CertificateChain_free(*chain);
             *chain = 0;
         }
-- 
2.43.0


From 23354c85a070c7e666b9ebe519072233deabacc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 10/42] fix: report out of memory when reading a protobuf
 message instead of dropping elements

---
 src/keys/certificate.c           | 99 ++++++++++++++++++++++----------
 tools/protoc/proto3-generate-c.c | 34 +++++++++--
 2 files changed, 97 insertions(+), 36 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index 99b107b..bc8bf00 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -174,8 +174,11 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Certificate_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -189,11 +192,12 @@ int Noise_Certificate_read(NoiseProtobuf *pbuf, int tag, Noise_Certificate **obj
             } break;
             case 3: {
                 Noise_Signature *value = 0;
-                int err;
                 Noise_Signature_read(pbuf, 3, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->signatures), &((*obj)->signatures_count_), &((*obj)->signatures_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE)
+                    Noise_Signature_free(value);
+                if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = err;
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -376,18 +380,22 @@ int Noise_CertificateChain_read(NoiseProtobuf *pbuf, int tag, Noise_CertificateC
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_CertificateChain_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
             case 8: {
                 Noise_Certificate *value = 0;
-                int err;
                 Noise_Certificate_read(pbuf, 8, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->certs), &((*obj)->certs_count_), &((*obj)->certs_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE)
+                    Noise_Certificate_free(value);
+                if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = err;
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -520,8 +528,11 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_SubjectInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -545,19 +556,21 @@ int Noise_SubjectInfo_read(NoiseProtobuf *pbuf, int tag, Noise_SubjectInfo **obj
             } break;
             case 4: {
                 Noise_PublicKeyInfo *value = 0;
-                int err;
                 Noise_PublicKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE)
+                    Noise_PublicKeyInfo_free(value);
+                if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = err;
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
-                int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE)
+                    Noise_MetaInfo_free(value);
+                if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = err;
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -867,8 +880,11 @@ int Noise_PublicKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PublicKeyInfo *
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PublicKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1027,8 +1043,11 @@ int Noise_MetaInfo_read(NoiseProtobuf *pbuf, int tag, Noise_MetaInfo **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_MetaInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1200,8 +1219,11 @@ int Noise_Signature_read(NoiseProtobuf *pbuf, int tag, Noise_Signature **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_Signature_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1552,8 +1574,11 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_ExtraSignedInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -1577,11 +1602,12 @@ int Noise_ExtraSignedInfo_read(NoiseProtobuf *pbuf, int tag, Noise_ExtraSignedIn
             } break;
             case 4: {
                 Noise_MetaInfo *value = 0;
-                int err;
                 Noise_MetaInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE)
+                    Noise_MetaInfo_free(value);
+                if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = err;
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -1837,8 +1863,11 @@ int Noise_EncryptedPrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_Encrypted
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_EncryptedPrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2123,8 +2152,11 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKey_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
@@ -2148,19 +2180,21 @@ int Noise_PrivateKey_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKey **obj)
             } break;
             case 4: {
                 Noise_PrivateKeyInfo *value = 0;
-                int err;
                 Noise_PrivateKeyInfo_read(pbuf, 4, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->keys), &((*obj)->keys_count_), &((*obj)->keys_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE)
+                    Noise_PrivateKeyInfo_free(value);
+                if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = err;
             } break;
             case 5: {
                 Noise_MetaInfo *value = 0;
-                int err;
                 Noise_MetaInfo_read(pbuf, 5, &value);
                 err = noise_protobuf_add_to_array((void **)&((*obj)->meta), &((*obj)->meta_count_), &((*obj)->meta_max_), &value, sizeof(value));
-                if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)
-                   pbuf->error = err;
+                if (err != NOISE_ERROR_NONE)
+                    Noise_MetaInfo_free(value);
+                if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)
+                    pbuf->error = err;
             } break;
             default: {
                 noise_protobuf_read_skip(pbuf);
@@ -2470,8 +2504,11 @@ int Noise_PrivateKeyInfo_read(NoiseProtobuf *pbuf, int tag, Noise_PrivateKeyInfo
     if (!pbuf)
         return NOISE_ERROR_INVALID_PARAM;
     err = Noise_PrivateKeyInfo_new(obj);
-    if (err != NOISE_ERROR_NONE)
+    if (err != NOISE_ERROR_NONE) {
+        if (pbuf->error == NOISE_ERROR_NONE)
+            pbuf->error = err;
         return err;
+    }
     noise_protobuf_read_start_element(pbuf, tag, &end_posn);
     while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {
         switch (noise_protobuf_peek_tag(pbuf)) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 08732f0..57183b9 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -161,6 +161,19 @@ static void type_numeric_write_field
     }
 }
 
+/**
+ * \brief Generates code to make an error from adding an element sticky.
+ */
+static void generate_check_add_error(void)
+{
+    print_indent();
+    fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error == NOISE_ERROR_NONE)\n");
+    ++indent_level;
+    print_indent();
+    fprintf(output, "pbuf->error = err;\n");
+    --indent_level;
+}
+
 /**
  * \brief Reads a numeric field.
  */
@@ -174,8 +187,10 @@ static void type_numeric_read_field
         fprintf(output, "noise_protobuf_read_%s(pbuf, %d, &value);\n",
                 type->proto_name, tag);
         print_indent();
+        fprintf(output, "err = ");
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
+        generate_check_add_error();
     } else if (field->qualifier == PROTO3_QUAL_PACKED) {
         print_indent();
         fprintf(output, "size_t end_packed = 0;\n");
@@ -190,8 +205,10 @@ static void type_numeric_read_field
         fprintf(output, "noise_protobuf_read_%s(pbuf, 0, &value);\n",
                 type->proto_name);
         print_indent();
+        fprintf(output, "err = ");
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value);\n", field->name.name);
+        generate_check_add_error();
         --indent_level;
         print_indent();
         fprintf(output, "}\n");
@@ -466,8 +483,10 @@ static void type_string_read_field
             fprintf(output, "noise_protobuf_read_alloc_bytes(pbuf, %d, &value, 0, &len);\n", tag);
         }
         print_indent();
+        fprintf(output, "err = ");
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value, len);\n", field->name.name);
+        generate_check_add_error();
     } else {
         print_indent();
         fprintf(output, "noise_protobuf_free_memory((*obj)->%s, (*obj)->%s_size_);\n",
@@ -826,8 +845,6 @@ static void type_named_read_field
         generate_name(output, field->type.name.name);
         fprintf(output, " *value = 0;\n");
         print_indent();
-        fprintf(output, "int err;\n");
-        print_indent();
         generate_name(output, field->type.name.name);
         fprintf(output, "_read(pbuf, %d, &value);\n", tag);
         print_indent();
@@ -837,9 +854,13 @@ static void type_named_read_field
         fprintf(output, "&((*obj)->%s_max_), &value, sizeof(value));\n",
                 field->name.name);
         print_indent();
-        fprintf(output, "if (err != NOISE_ERROR_NONE && pbuf->error != NOISE_ERROR_NONE)\n");
+        fprintf(output, "if (err != NOISE_ERROR_NONE)\n");
+        ++indent_level;
         print_indent();
-        fprintf(output, "   pbuf->error = err;\n");
+        generate_name(output, field->type.name.name);
+        fprintf(output, "_free(value);\n");
+        --indent_level;
+        generate_check_add_error();
     } else {
         print_indent();
         generate_name(output, field->type.name.name);
@@ -1586,8 +1607,11 @@ static void generate_implement_read(FILE *output, Proto3Message *message)
     fprintf(output, "    err = ");
     generate_name(output, message->name.name);
     fprintf(output, "_new(obj);\n");
-    fprintf(output, "    if (err != NOISE_ERROR_NONE)\n");
+    fprintf(output, "    if (err != NOISE_ERROR_NONE) {\n");
+    fprintf(output, "        if (pbuf->error == NOISE_ERROR_NONE)\n");
+    fprintf(output, "            pbuf->error = err;\n");
     fprintf(output, "        return err;\n");
+    fprintf(output, "    }\n");
     fprintf(output, "    noise_protobuf_read_start_element(pbuf, tag, &end_posn);\n");
     fprintf(output, "    while (!noise_protobuf_read_at_end_element(pbuf, end_posn)) {\n");
     fprintf(output, "        switch (noise_protobuf_peek_tag(pbuf)) {\n");
-- 
2.43.0


From 7bafd194c2655ca697d69b211e3b5f98edf0049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 11/42] fix: free the temporary copies of repeated strings in
 generated readers

---
 tools/protoc/proto3-generate-c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 57183b9..9b1004a 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -486,6 +486,8 @@ static void type_string_read_field
         fprintf(output, "err = ");
         generate_name(output, message->name.name);
         fprintf(output, "_add_%s(*obj, value, len);\n", field->name.name);
+        print_indent();
+        fprintf(output, "noise_protobuf_free_memory(value, len);\n");
         generate_check_add_error();
     } else {
         print_indent();
-- 
2.43.0


From 856ed8bbbd4762692cb5133d83e9946a923d04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 12/42] fix: skip the whole of three and four byte UTF-8
 sequences when validating strings

---
 src/protobufs/protobufs.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index a3826d6..b9711f2 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -874,6 +874,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 2;
             size -= 2;
             if (code >= 0xD800 && code <= 0xDFFF) {
                 /* Surrogate pairs are not allowed */
@@ -899,6 +900,7 @@ static int noise_protobuf_is_utf8(const char *str, size_t size)
             if (ch < 0x80 || ch > 0xBF)
                 return 0;
             code |= ((uint32_t)(ch & 0x3F));
+            str += 3;
             size -= 3;
             if (code > 0x10FFFFUL) {
                 /* Unicode code points stop at U+10FFFF */
-- 
2.43.0


From 88a1040c7004fd48c92393bcbda6d6b99aa95443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 13/42] fix: decode multi-byte values correctly in
 noise_protobuf_peek_tag and noise_protobuf_peek_size

---
 src/protobufs/protobufs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index b9711f2..ae9ecc6 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1063,7 +1063,7 @@ static int noise_protobuf_peek_varint
     posn = pbuf->posn + *length;
     if (posn >= pbuf->size)
         return NOISE_ERROR_INVALID_FORMAT;
-    ch = pbuf->data[posn];
+    ch = pbuf->data[posn++];
     ++(*length);
     if ((ch & 0x80) == 0) {
         *value = ch;
-- 
2.43.0


From a078260301a122bf6749dda0afb709cc64d09a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 14/42] fix: refuse negative tags and null protobufs when
 reading a protobuf field

---
 src/protobufs/protobufs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobufs/protobufs.c b/src/protobufs/protobufs.c
index ae9ecc6..f0c3984 100644
--- a/src/protobufs/protobufs.c
+++ b/src/protobufs/protobufs.c
@@ -1202,6 +1202,8 @@ static int noise_protobuf_read_varint(NoiseProtobuf *pbuf, uint64_t *value)
 static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
 {
     int err;
+    if (!pbuf)
+        return NOISE_ERROR_INVALID_PARAM;
     if (tag > 0) {
         /* We expect a specific tag value and wire type to occur */
         uint64_t expected = (uint64_t)((((int64_t)tag) << 3) | (int64_t)type);
@@ -1218,7 +1220,7 @@ static int noise_protobuf_read_tag(NoiseProtobuf *pbuf, int tag, int type)
         err = pbuf->error;
     } else {
         /* The caller-supplied tag is negative, which is always an error */
-        if (pbuf->error != NOISE_ERROR_NONE)
+        if (pbuf->error == NOISE_ERROR_NONE)
             pbuf->error = NOISE_ERROR_INVALID_FORMAT;
         err = pbuf->error;
     }
-- 
2.43.0


From b8f8ab84185e1145fe23894db0be41225e577c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:30 +0000
Subject: [PATCH 15/42] fix: clear the NewHope secret polynomial and seed when
 the key is cleared

noise_dhstate_clear_key(), noise_dhstate_set_public_key() and a change of
role left the private polynomial (or the shared secret for a responder)
and part of the seed inside NewHope DHState objects.
---
 src/backend/ref/dh-newhope.c | 12 ++++++++++++
 src/protocol/dhstate.c       |  4 ++++
 src/protocol/internal.h      | 10 ++++++++++
 3 files changed, 26 insertions(+)

diff --git a/src/backend/ref/dh-newhope.c b/src/backend/ref/dh-newhope.c
index 68699b1..4a54e5c 100644
--- a/src/backend/ref/dh-newhope.c
+++ b/src/backend/ref/dh-newhope.c
@@ -36,6 +36,16 @@ typedef struct NoiseNewHopeState_s
 
 } NoiseNewHopeState;
 
+static void noise_newhope_clear_key(NoiseDHState *state)
+{
+    /* Clear the key material for both roles because the role may have
+       changed since the key was set */
+    NoiseNewHopeState *st = (NoiseNewHopeState *)state;
+    noise_clean(st->random_data, sizeof(st->random_data));
+    noise_clean(&(st->private_key), sizeof(st->private_key));
+    st->generated = 0;
+}
+
 static int noise_newhope_generate_keypair
     (NoiseDHState *state, const NoiseDHState *other)
 {
@@ -62,6 +72,7 @@ static int noise_newhope_set_keypair_private
 {
     /* The "private key" is actually the 64 or 32 bytes of random seed data */
     NoiseNewHopeState *st = (NoiseNewHopeState *)state;
+    noise_newhope_clear_key(state);
     memcpy(st->random_data, private_key, st->parent.private_key_len);
     if (st->parent.role == NOISE_ROLE_RESPONDER) {
         /* Setting the keypair for Bob.  Because we don't know the public
@@ -175,5 +186,6 @@ NoiseDHState *noise_newhope_new(void)
     state->parent.copy = noise_newhope_copy;
     state->parent.calculate = noise_newhope_calculate;
     state->parent.change_role = noise_newhope_change_role;
+    state->parent.clear_key = noise_newhope_clear_key;
     return &(state->parent);
 }
diff --git a/src/protocol/dhstate.c b/src/protocol/dhstate.c
index 938444e..bd17b2c 100644
--- a/src/protocol/dhstate.c
+++ b/src/protocol/dhstate.c
@@ -528,6 +528,8 @@ int noise_dhstate_set_public_key
 
     /* Copy the public key into place and clear the private key */
     memset(state->private_key, 0, state->private_key_len);
+    if (state->clear_key)
+        (*(state->clear_key))(state);
     memcpy(state->public_key, public_key, public_key_len);
     state->key_type = NOISE_KEY_TYPE_PUBLIC;
     return NOISE_ERROR_NONE;
@@ -628,6 +630,8 @@ int noise_dhstate_clear_key(NoiseDHState *state)
     /* Clear the key to all-zeroes */
     memset(state->public_key, 0, state->public_key_len);
     memset(state->private_key, 0, state->private_key_len);
+    if (state->clear_key)
+        (*(state->clear_key))(state);
 
     /* There is no key in the object now */
     state->key_type = NOISE_KEY_TYPE_NO_KEY;
diff --git a/src/protocol/internal.h b/src/protocol/internal.h
index be7c7b9..53d2439 100644
--- a/src/protocol/internal.h
+++ b/src/protocol/internal.h
@@ -331,6 +331,16 @@ struct NoiseDHState_s
          const NoiseDHState *public_key_state,
          uint8_t *shared_key);
 
+    /**
+     * \brief Clears subclass state that was derived from the private key.
+     *
+     * \param state Points to the DHState.
+     *
+     * The parent class clears the private key itself.  This pointer can be
+     * NULL if the subclass does not keep any other secret state.
+     */
+    void (*clear_key)(NoiseDHState *state);
+
     /**
      * \brief Changes the role for this object.
      *
-- 
2.43.0


From 7cb91ad929af66d5005d10931211440ac0a2eb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 16/42] fix: check the buffer size before hashing in
 noise_symmetricstate_decrypt_and_hash

A size larger than the capacity of the buffer was only refused after
that many bytes had been read.
---
 src/protocol/symmetricstate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol/symmetricstate.c b/src/protocol/symmetricstate.c
index 8481d3a..5e3d35e 100644
--- a/src/protocol/symmetricstate.c
+++ b/src/protocol/symmetricstate.c
@@ -415,7 +415,7 @@ int noise_symmetricstate_decrypt_and_hash
         return NOISE_ERROR_INVALID_STATE;
 
     /* Validate the input data length before we hash the data */
-    if (buffer->size > NOISE_MAX_PAYLOAD_LEN)
+    if (buffer->size > buffer->max_size || buffer->size > NOISE_MAX_PAYLOAD_LEN)
         return NOISE_ERROR_INVALID_LENGTH;
     if (noise_cipherstate_has_key(state->cipher)) {
         if (buffer->size < noise_cipherstate_get_mac_length(state->cipher))
-- 
2.43.0


From d382d5f998dfa62e1a9aa2ef4b8c441929b6a85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:08 +0000
Subject: [PATCH 17/42] fix: never write or read handshake messages of more
 than 65535 bytes

The payload was limited to 65535 bytes but not the whole message with its
public keys, so that oversized messages could be written and accepted.
---
 src/protocol/handshakestate.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/protocol/handshakestate.c b/src/protocol/handshakestate.c
index 3965b00..e0d24ec 100644
--- a/src/protocol/handshakestate.c
+++ b/src/protocol/handshakestate.c
@@ -1383,6 +1383,7 @@ static int noise_handshakestate_write
 int noise_handshakestate_write_message
     (NoiseHandshakeState *state, NoiseBuffer *message, const NoiseBuffer *payload)
 {
+    NoiseBuffer limited;
     int err;
 
     /* Validate the parameters */
@@ -1396,8 +1397,12 @@ int noise_handshakestate_write_message
     if (state->action != NOISE_ACTION_WRITE_MESSAGE)
         return NOISE_ERROR_INVALID_STATE;
 
-    /* Perform the write */
-    err = noise_handshakestate_write(state, message, payload);
+    /* Perform the write, limiting the message to the maximum Noise size */
+    limited = *message;
+    if (limited.max_size > NOISE_MAX_PAYLOAD_LEN)
+        limited.max_size = NOISE_MAX_PAYLOAD_LEN;
+    err = noise_handshakestate_write(state, &limited, payload);
+    message->size = limited.size;
     if (err != NOISE_ERROR_NONE) {
         /* Set the state to "failed" and empty the message buffer */
         state->action = NOISE_ACTION_FAILED;
@@ -1657,7 +1662,8 @@ int noise_handshakestate_read_message
     }
     if (!state || !message || !(message->data))
         return NOISE_ERROR_INVALID_PARAM;
-    if (message->size > message->max_size)
+    if (message->size > message->max_size ||
+            message->size > NOISE_MAX_PAYLOAD_LEN)
         return NOISE_ERROR_INVALID_LENGTH;
     if (state->action != NOISE_ACTION_READ_MESSAGE)
         return NOISE_ERROR_INVALID_STATE;
-- 
2.43.0


From 12b6318f04a096b32bcd7910525737a5d851d06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 18/42] fix: saving a private key that cannot be encrypted no
 longer loops for ever

Only the reserved nonce value calls for another salt; other encryption
errors, such as too much data, would be repeated without end.
---
 src/keys/loader.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 91856e4..390598c 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -907,9 +907,9 @@ int noise_save_private_key_to_buffer
                                    pbuf->posn - pcopy.posn - mac_len,
                                    pbuf->posn - pcopy.posn);
             err = noise_cipherstate_encrypt_with_ad(cipher, 0, 0, &buf);
-            if (err != NOISE_ERROR_NONE) {
-                /* The nonce is probably the reserved value 2^64 - 1,
-                   which we cannot use.  Generate a new salt and try again */
+            if (err == NOISE_ERROR_INVALID_NONCE) {
+                /* The nonce is the reserved value 2^64 - 1, which we
+                   cannot use.  Generate a new salt and try again */
                 noise_randstate_generate_simple(salt, sizeof(salt));
                 retry = 1;
             }
-- 
2.43.0


From a48e792d95d94de2bb50c7d10f1904a35cf0cda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 19/42] fix: loading a file that cannot be read completely is
 an error

A read error after the first bytes, or a file that ends early, was
treated as the whole file, and a pipe with more than
NOISE_MAX_PAYLOAD_LEN bytes was silently truncated.
---
 src/keys/loader.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 390598c..546e505 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -89,6 +89,7 @@ static int noise_load_file
 {
     FILE *file;
     size_t size;
+    int known_length = 0;
 
     /* Initialize the buffer */
     pbuf->data = 0;
@@ -103,8 +104,8 @@ static int noise_load_file
     if (!file)
         return NOISE_ERROR_SYSTEM;
 
-    /* Can we get the length of the file now?  If not, allocate
-       the maximum possible size */
+    /* Can we get the length of the file now?  If not, allocate one byte
+       more than the maximum possible size to detect longer files */
     if (fseek(file, 0L, SEEK_END) >= 0) {
         off_t length = ftell(file);
         if (length <= 0 || length > NOISE_MAX_PAYLOAD_LEN) {
@@ -116,8 +117,9 @@ static int noise_load_file
             return NOISE_ERROR_SYSTEM;
         }
         pbuf->size = (size_t)length;
+        known_length = 1;
     } else {
-        pbuf->size = NOISE_MAX_PAYLOAD_LEN;
+        pbuf->size = NOISE_MAX_PAYLOAD_LEN + 1;
     }
     pbuf->data = (uint8_t *)malloc(pbuf->size);
     if (!(pbuf->data)) {
@@ -127,12 +129,18 @@ static int noise_load_file
 
     /* Read the entire contents of the file into memory */
     size = fread(pbuf->data, 1, pbuf->size, file);
-    if (!size && ferror(file)) {
+    if (ferror(file) || (known_length && size != pbuf->size)) {
         noise_free(pbuf->data, pbuf->size);
         pbuf->data = 0;
         fclose(file);
         return NOISE_ERROR_SYSTEM;
     }
+    if (size > NOISE_MAX_PAYLOAD_LEN) {
+        noise_free(pbuf->data, pbuf->size);
+        pbuf->data = 0;
+        fclose(file);
+        return NOISE_ERROR_INVALID_FORMAT;
+    }
     pbuf->size = size;
 
     /* Clean up and exit */
-- 
2.43.0


From 853d5078d72b59c397fe81856e83d5b6f9f45750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:40 +0000
Subject: [PATCH 20/42] fix: report failures to write a saved file when it is
 closed

The data usually reaches the file only in fclose(), whose result was
ignored: saving to a full disk was reported as success.
---
 src/keys/loader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keys/loader.c b/src/keys/loader.c
index 546e505..7ac7cde 100644
--- a/src/keys/loader.c
+++ b/src/keys/loader.c
@@ -616,7 +616,8 @@ static int noise_save_to_file
     if (file) {
         if (fwrite(data, 1, size, file) != size)
             err = NOISE_ERROR_SYSTEM;
-        fclose(file);
+        if (fclose(file) != 0)
+            err = NOISE_ERROR_SYSTEM;
     } else {
         err = NOISE_ERROR_SYSTEM;
     }
@@ -781,7 +782,8 @@ int noise_save_private_key_to_file
             size_t len = pbuf.size - pbuf.posn;
             if (fwrite(pbuf.data + pbuf.posn, 1, len, file) != len)
                 err = NOISE_ERROR_SYSTEM;
-            fclose(file);
+            if (fclose(file) != 0)
+                err = NOISE_ERROR_SYSTEM;
         } else {
             err = NOISE_ERROR_SYSTEM;
         }
-- 
2.43.0


From e7a69ec83d610289b3b0ad6480fa3e7b5717a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 21/42] fix: refuse Ed25519 signatures whose S is not less than
 the group order

---
 src/crypto/ed25519/ed25519.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crypto/ed25519/ed25519.c b/src/crypto/ed25519/ed25519.c
index 58a755b..a945cfc 100644
--- a/src/crypto/ed25519/ed25519.c
+++ b/src/crypto/ed25519/ed25519.c
@@ -104,8 +104,11 @@ ED25519_FN(ed25519_sign_open) (const unsigned char *m, size_t mlen, const ed2551
 	ed25519_hram(hash, RS, pk, m, mlen);
 	expand256_modm(hram, hash, 64);
 
-	/* S */
+	/* S, which must be less than the group order (RFC 8032, section 5.1.7) */
 	expand256_modm(S, RS + 32, 32);
+	contract256_modm(checkR, S);
+	if (!ed25519_verify(RS + 32, checkR, 32))
+		return -1;
 
 	/* SB - H(R,A,m)A */
 	ge25519_double_scalarmult_vartime(&R, &A, hram, S);
-- 
2.43.0


From 948f0740c6b981943f01b7b865394ba3d8abcac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:46 +0000
Subject: [PATCH 22/42] fix: count the block that is produced after a reseed
 within a request

---
 src/protocol/randstate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/protocol/randstate.c b/src/protocol/randstate.c
index 8efe213..6ba14a9 100644
--- a/src/protocol/randstate.c
+++ b/src/protocol/randstate.c
@@ -292,6 +292,7 @@ int noise_randstate_generate
         } else {
             /* Too much random data generated.  Force a reseed now */
             noise_randstate_reseed(state);
+            state->left -= 64;
             blocks = 0;
         }
         if (blocks++ >= NOISE_RAND_REKEY_COUNT) {
-- 
2.43.0


From b1fa7612984998fea03dcc52c6b5908b45db89bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 23/42] fix: clear the size array of a repeated string or bytes
 field in generated code

---
 tools/protoc/proto3-generate-c.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 9b1004a..5d860e6 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -426,6 +426,8 @@ static void type_string_clear_field
     if (field->qualifier == PROTO3_QUAL_REPEATED ||
             field->qualifier == PROTO3_QUAL_PACKED) {
         print_indent();
+        fprintf(output, "obj->%s_size_ = 0;\n", field->name.name);
+        print_indent();
         fprintf(output, "obj->%s_count_ = 0;\n", field->name.name);
         print_indent();
         fprintf(output, "obj->%s_max_ = 0;\n", field->name.name);
-- 
2.43.0


From f033fb0bd81452064bc2f85a059e01603ac4a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 24/42] fix: do not write a packed field that has no elements

---
 tools/protoc/proto3-generate-c.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 5d860e6..69bebad 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -133,6 +133,9 @@ static void type_numeric_write_field
                 type->proto_name, tag, field->name.name);
         --indent_level;
     } else if (field->qualifier == PROTO3_QUAL_PACKED) {
+        print_indent();
+        fprintf(output, "if (obj->%s_count_) {\n", field->name.name);
+        ++indent_level;
         print_indent();
         fprintf(output, "noise_protobuf_write_end_element(pbuf, &end_packed);\n");
         print_indent();
@@ -144,6 +147,9 @@ static void type_numeric_write_field
         --indent_level;
         print_indent();
         fprintf(output, "noise_protobuf_write_start_element(pbuf, %d, end_packed);\n", tag);
+        --indent_level;
+        print_indent();
+        fprintf(output, "}\n");
     } else if (field->qualifier == PROTO3_QUAL_OPTIONAL &&
                     (field->type.id != PROTO3_TYPE_FLOAT &&
                      field->type.id != PROTO3_TYPE_DOUBLE)) {
-- 
2.43.0


From 49190d6b037a615db878b4e6ff0fdd90e41f067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 25/42] fix: refuse schemas that use unknown type names instead
 of generating broken code

---
 tools/protoc/proto3-ast.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/protoc/proto3-ast.c b/tools/protoc/proto3-ast.c
index 8d0dab7..ad82d8f 100644
--- a/tools/protoc/proto3-ast.c
+++ b/tools/protoc/proto3-ast.c
@@ -557,8 +557,8 @@ static Proto3Type proto3_resolve_type
         /* Resolve a type name to either an enum or message type */
         Proto3Name name = proto3_resolve_name(parent, type.name);
         if (!name.name) {
-            yywarning_on_line("'%s' cannot be resolved to a type", line,
-                              type.name.name);
+            yyerror_on_line("'%s' cannot be resolved to a type", line,
+                            type.name.name);
             return type;
         }
         return proto3_named_type(name);
-- 
2.43.0


From 4b38a488b2cf97880e64377fe002c1369821e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:09 +0000
Subject: [PATCH 26/42] fix: generate integer fields for enum types instead of
 references to missing structures

---
 tools/protoc/proto3-ast.c     | 33 ++++++++++++++++++++++++++++++---
 tools/protoc/proto3-grammar.y |  2 +-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/tools/protoc/proto3-ast.c b/tools/protoc/proto3-ast.c
index ad82d8f..13b1b40 100644
--- a/tools/protoc/proto3-ast.c
+++ b/tools/protoc/proto3-ast.c
@@ -488,7 +488,8 @@ void proto3_set_package_name(Proto3Name name)
  *
  * \param name The name to try.
  *
- * \return Non-zero if the name is found, zero if not.
+ * \return 1 if the name is a message, 2 if the name is an enum, or 0 if
+ * the name was not found.
  */
 static int proto3_resolve_try_name(Proto3Name name)
 {
@@ -501,7 +502,7 @@ static int proto3_resolve_try_name(Proto3Name name)
     }
     while (enum_node != 0) {
         if (!strcmp(enum_node->name.name, name.name))
-            return 1;
+            return 2;
         enum_node = enum_node->next;
     }
     return 0;
@@ -561,7 +562,10 @@ static Proto3Type proto3_resolve_type
                             type.name.name);
             return type;
         }
-        return proto3_named_type(name);
+        type = proto3_named_type(name);
+        if (proto3_resolve_try_name(name) == 2)
+            type.id = PROTO3_TYPE_ENUM;
+        return type;
     } else if (type.id == PROTO3_TYPE_MAP) {
         /* Resolve a map type */
         Proto3Type key_type;
@@ -577,6 +581,28 @@ static Proto3Type proto3_resolve_type
     return type;
 }
 
+/**
+ * \brief Resolves the packing of a repeated field with a named type,
+ * which is unknown until the name has been resolved to an enum or message.
+ *
+ * \param field The field whose type was just resolved.
+ */
+static void proto3_resolve_packed(Proto3Field *field)
+{
+    int pack = -1;
+    if (field->qualifier != PROTO3_QUAL_REPEATED)
+        return;
+    if (field->option.name.name && !strcmp(field->option.name.name, "packed") &&
+            field->option.value.type == PROTO3_VALUE_BOOL)
+        pack = (field->option.value.num_value != 0);
+    if (field->type.id == PROTO3_TYPE_ENUM) {
+        if (pack != 0)
+            field->qualifier = PROTO3_QUAL_PACKED;
+    } else if (field->type.id == PROTO3_TYPE_NAMED && pack == 1) {
+        yyerror_on_line("cannot pack repeated fields of this type", field->line);
+    }
+}
+
 /**
  * \brief Resolves all type name references.
  */
@@ -589,6 +615,7 @@ void proto3_resolve_types(void)
         while (field != 0) {
             field->type = proto3_resolve_type
                 (message->name, field->type, field->line);
+            proto3_resolve_packed(field);
             field = field->next;
         }
         message = message->next;
diff --git a/tools/protoc/proto3-grammar.y b/tools/protoc/proto3-grammar.y
index cdd31f5..446a0ba 100644
--- a/tools/protoc/proto3-grammar.y
+++ b/tools/protoc/proto3-grammar.y
@@ -266,7 +266,7 @@ Field
                 if (proto3_can_pack_type($2)) {
                     if (pack_type == -1 || pack_type == 1)
                         qualifier = PROTO3_QUAL_PACKED;
-                } else if (pack_type == 1) {
+                } else if (pack_type == 1 && $2.id != PROTO3_TYPE_NAMED) {
                     yyerror("cannot pack repeated fields of this type");
                 }
             }
-- 
2.43.0


From 5b40e86b2c213ad3fa144853ff22d0bb20fb7edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 27/42] fix: refuse schemas that use C reserved words as
 identifiers instead of generating broken code

---
 tools/protoc/proto3-ast.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/tools/protoc/proto3-ast.c b/tools/protoc/proto3-ast.c
index 13b1b40..f86c035 100644
--- a/tools/protoc/proto3-ast.c
+++ b/tools/protoc/proto3-ast.c
@@ -161,6 +161,28 @@ Proto3Name proto3_qualify_name(Proto3Name name)
         return name;
 }
 
+/**
+ * \brief Reports an error if a name that will be used as an identifier in
+ * the generated code is a reserved word in C.
+ *
+ * \param name The name to check.
+ */
+static void proto3_check_reserved_word(Proto3Name name)
+{
+    static const char *const words[] = {
+        "auto", "break", "case", "char", "const", "continue", "default",
+        "do", "double", "else", "enum", "extern", "float", "for", "goto",
+        "if", "inline", "int", "long", "register", "restrict", "return",
+        "short", "signed", "sizeof", "static", "struct", "switch",
+        "typedef", "union", "unsigned", "void", "volatile", "while", 0
+    };
+    int index;
+    for (index = 0; words[index]; ++index) {
+        if (!strcmp(words[index], name.name))
+            yyerror("'%s' is a reserved word in C", name.name);
+    }
+}
+
 /**
  * \brief Pushes into a new scope.
  *
@@ -180,6 +202,7 @@ void proto3_push_scope(Proto3ScopeId id, Proto3Name name, int line)
     scope->name = name;
     scopes = scope;
     if (id == PROTO3_SCOPE_MESSAGE) {
+        proto3_check_reserved_word(name);
         message = messages;
         prev_message = 0;
         while (message != 0) {
@@ -355,6 +378,7 @@ void proto3_add_field(Proto3FieldQualifier qualifier, Proto3Type type,
         yyerror("field outside a message block");
         return;
     }
+    proto3_check_reserved_word(name);
     message = scopes->message;
     field = message->fields;
     while (field != 0) {
-- 
2.43.0


From 2ab69eead79e98b769720825d704c116b29e1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 28/42] fix: skip white space in public key files instead of
 decoding it as a digit

---
 examples/echo/echo-server/echo-common.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index 131ed2c..64c3604 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -269,7 +269,9 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
             digit = 63;
         } else if (ch == '=') {
             break;
-        } else if (ch != ' ' && ch != '\t' && ch != '\r' && ch != '\n') {
+        } else if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') {
+            continue;
+        } else {
             fclose(file);
             fprintf(stderr, "%s: invalid character in public key file\n", filename);
             return 0;
-- 
2.43.0


From c9e073e4a35d035ed3e8a0f7eef4349466ede687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 29/42] fix: refuse public key files with data after the
 padding or with a stray last digit

---
 examples/echo/echo-server/echo-common.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index 64c3604..44b9f18 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -289,7 +289,20 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
             key[posn++] = (uint8_t)group;
         }
     }
-    if (group_size == 3) {
+    while (ch != EOF) {
+        /* Only padding and white space can appear after the first '=' */
+        if (ch != '=' && ch != ' ' && ch != '\t' && ch != '\r' && ch != '\n') {
+            fclose(file);
+            fprintf(stderr, "%s: invalid character in public key file\n", filename);
+            return 0;
+        }
+        ch = getc(file);
+    }
+    if (group_size == 1) {
+        fclose(file);
+        fprintf(stderr, "%s: public key value is truncated\n", filename);
+        return 0;
+    } else if (group_size == 3) {
         if ((len - posn) < 2) {
             fclose(file);
             fprintf(stderr, "%s: public key value is too long\n", filename);
-- 
2.43.0


From e572f7f46e00428f9a2b938cf7efc1b78ec005f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 30/42] fix: close the key file when the key length is not
 supported

---
 examples/echo/echo-server/echo-common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index 44b9f18..a4e4bf3 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -215,6 +215,8 @@ int echo_load_private_key(const char *filename, uint8_t *key, size_t len)
     size_t posn = 0;
     int ch;
     if (len > MAX_DH_KEY_LEN) {
+        if (file)
+            fclose(file);
         fprintf(stderr, "private key length is not supported\n");
         return 0;
     }
@@ -249,6 +251,8 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
     size_t posn = 0;
     int ch;
     if (len > MAX_DH_KEY_LEN) {
+        if (file)
+            fclose(file);
         fprintf(stderr, "public key length is not supported\n");
         return 0;
     }
-- 
2.43.0


From 0ca8e18588e9cadf5782b62ab8942f02e20946e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 31/42] fix: generate keys for the named Diffie-Hellman
 algorithms in keytool

---
 tools/keytool/generate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/generate.c b/tools/keytool/generate.c
index f6e08c1..13b1042 100644
--- a/tools/keytool/generate.c
+++ b/tools/keytool/generate.c
@@ -103,8 +103,8 @@ static int parse_algorithms(const char *names)
                     fprintf(stderr, "'\n");
                     return 0;
                 }
-                add_algorithm_id(id);
             }
+            add_algorithm_id(id);
         }
         names += len;
         if (*names == ',')
-- 
2.43.0


From f51d5b7aa5ab1bbf5cd85d5d27cf84ee0920e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 32/42] fix: recognise certificate chains in keytool show

---
 tools/keytool/show.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 4f3759d..7f37526 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -330,7 +330,7 @@ static int show_file(const char *filename)
     if (data[0] == 0x50) {
         /* Encrypted private key */
         ok = show_private_key(filename, &pbuf);
-    } else if (data[0] == 0x40) {
+    } else if (data[0] == 0x42) {
         /* Certificate chain */
         ok = show_certificate_chain(filename, &pbuf);
     } else {
-- 
2.43.0


From 90e4937f5287ab45c0fb89665e0777425a1afa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 33/42] fix: show the values of meta information in keytool
 show

---
 tools/keytool/show.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index 7f37526..ff34473 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -120,7 +120,7 @@ static void dump_certificate(const Noise_Certificate *cert)
             const Noise_MetaInfo *meta =
                 Noise_SubjectInfo_get_at_meta(subject, index);
             const char *name = Noise_MetaInfo_get_name(meta);
-            const char *value = Noise_MetaInfo_get_name(meta);
+            const char *value = Noise_MetaInfo_get_value(meta);
             if (!name)
                 name = "Unknown";
             if (!value)
@@ -244,7 +244,7 @@ static void dump_private_key(const Noise_PrivateKey *priv_key)
         const Noise_MetaInfo *meta =
             Noise_PrivateKey_get_at_meta(priv_key, index);
         const char *name = Noise_MetaInfo_get_name(meta);
-        const char *value = Noise_MetaInfo_get_name(meta);
+        const char *value = Noise_MetaInfo_get_value(meta);
         if (!name)
             name = "Unknown";
         if (!value)
-- 
2.43.0


From a1a2cf72fa867cabefc3692d7f72ddb666913495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 34/42] fix: report read errors and files that are too long in
 keytool show

---
 tools/keytool/show.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/keytool/show.c b/tools/keytool/show.c
index ff34473..ff95720 100644
--- a/tools/keytool/show.c
+++ b/tools/keytool/show.c
@@ -322,6 +322,15 @@ static int show_file(const char *filename)
         noise_free(data, NOISE_MAX_PAYLOAD_LEN);
         return 0;
     }
+    if (ferror(file) || getc(file) != EOF) {
+        if (ferror(file))
+            perror(filename);
+        else
+            fprintf(stderr, "%s: File is too long\n", filename);
+        fclose(file);
+        noise_free(data, NOISE_MAX_PAYLOAD_LEN);
+        return 0;
+    }
     fclose(file);
 
     /* Based on the first tag byte, determine whether we have a
-- 
2.43.0


From 383e9d7fb9eb725cb4fe4834970d86be872b0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 35/42] fix: refuse typed passphrases that are too long in
 keytool instead of cutting them short

---
 tools/keytool/keytool.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/keytool/keytool.c b/tools/keytool/keytool.c
index f0a0d6b..81415d1 100644
--- a/tools/keytool/keytool.c
+++ b/tools/keytool/keytool.c
@@ -107,8 +107,12 @@ char *ask_for_passphrase(int confirm)
         perror("getpass");
         return 0;
     }
-    strncpy(passphrase, pp, sizeof(passphrase));
-    passphrase[sizeof(passphrase) - 1] = '\0';
+    if (strlen(pp) >= sizeof(passphrase)) {
+        noise_clean(pp, strlen(pp));
+        fprintf(stderr, "The passphrase is too long.\n");
+        return 0;
+    }
+    strcpy(passphrase, pp);
     noise_clean(pp, strlen(pp));
     if (!confirm)
         return passphrase;
-- 
2.43.0


From 100c197df1155baac91549c9d69176fbce0226fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 36/42] fix: refuse a NULL value with a size in generated
 setters

The setters for string and bytes fields freed the old value and then
copied from NULL.
---
 src/keys/certificate.c           | 44 ++++++++++++++++----------------
 tools/protoc/proto3-generate-c.c |  2 +-
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/keys/certificate.c b/src/keys/certificate.c
index bc8bf00..1047d0c 100644
--- a/src/keys/certificate.c
+++ b/src/keys/certificate.c
@@ -613,7 +613,7 @@ size_t Noise_SubjectInfo_get_size_id(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_id(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->id, obj->id_size_);
         obj->id = (char *)malloc(size + 1);
         if (obj->id) {
@@ -657,7 +657,7 @@ size_t Noise_SubjectInfo_get_size_name(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_name(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -701,7 +701,7 @@ size_t Noise_SubjectInfo_get_size_role(const Noise_SubjectInfo *obj)
 
 int Noise_SubjectInfo_set_role(Noise_SubjectInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->role, obj->role_size_);
         obj->role = (char *)malloc(size + 1);
         if (obj->role) {
@@ -941,7 +941,7 @@ size_t Noise_PublicKeyInfo_get_size_algorithm(const Noise_PublicKeyInfo *obj)
 
 int Noise_PublicKeyInfo_set_algorithm(Noise_PublicKeyInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
         obj->algorithm = (char *)malloc(size + 1);
         if (obj->algorithm) {
@@ -985,7 +985,7 @@ size_t Noise_PublicKeyInfo_get_size_key(const Noise_PublicKeyInfo *obj)
 
 int Noise_PublicKeyInfo_set_key(Noise_PublicKeyInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->key, obj->key_size_);
         obj->key = (void *)malloc(size ? size : 1);
         if (obj->key) {
@@ -1104,7 +1104,7 @@ size_t Noise_MetaInfo_get_size_name(const Noise_MetaInfo *obj)
 
 int Noise_MetaInfo_set_name(Noise_MetaInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -1148,7 +1148,7 @@ size_t Noise_MetaInfo_get_size_value(const Noise_MetaInfo *obj)
 
 int Noise_MetaInfo_set_value(Noise_MetaInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->value, obj->value_size_);
         obj->value = (char *)malloc(size + 1);
         if (obj->value) {
@@ -1302,7 +1302,7 @@ size_t Noise_Signature_get_size_id(const Noise_Signature *obj)
 
 int Noise_Signature_set_id(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->id, obj->id_size_);
         obj->id = (char *)malloc(size + 1);
         if (obj->id) {
@@ -1346,7 +1346,7 @@ size_t Noise_Signature_get_size_name(const Noise_Signature *obj)
 
 int Noise_Signature_set_name(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -1426,7 +1426,7 @@ size_t Noise_Signature_get_size_hash_algorithm(const Noise_Signature *obj)
 
 int Noise_Signature_set_hash_algorithm(Noise_Signature *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->hash_algorithm, obj->hash_algorithm_size_);
         obj->hash_algorithm = (char *)malloc(size + 1);
         if (obj->hash_algorithm) {
@@ -1506,7 +1506,7 @@ size_t Noise_Signature_get_size_signature(const Noise_Signature *obj)
 
 int Noise_Signature_set_signature(Noise_Signature *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->signature, obj->signature_size_);
         obj->signature = (void *)malloc(size ? size : 1);
         if (obj->signature) {
@@ -1650,7 +1650,7 @@ size_t Noise_ExtraSignedInfo_get_size_nonce(const Noise_ExtraSignedInfo *obj)
 
 int Noise_ExtraSignedInfo_set_nonce(Noise_ExtraSignedInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->nonce, obj->nonce_size_);
         obj->nonce = (void *)malloc(size ? size : 1);
         if (obj->nonce) {
@@ -1693,7 +1693,7 @@ size_t Noise_ExtraSignedInfo_get_size_valid_from(const Noise_ExtraSignedInfo *ob
 
 int Noise_ExtraSignedInfo_set_valid_from(Noise_ExtraSignedInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->valid_from, obj->valid_from_size_);
         obj->valid_from = (char *)malloc(size + 1);
         if (obj->valid_from) {
@@ -1737,7 +1737,7 @@ size_t Noise_ExtraSignedInfo_get_size_valid_to(const Noise_ExtraSignedInfo *obj)
 
 int Noise_ExtraSignedInfo_set_valid_to(Noise_ExtraSignedInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->valid_to, obj->valid_to_size_);
         obj->valid_to = (char *)malloc(size + 1);
         if (obj->valid_to) {
@@ -1964,7 +1964,7 @@ size_t Noise_EncryptedPrivateKey_get_size_algorithm(const Noise_EncryptedPrivate
 
 int Noise_EncryptedPrivateKey_set_algorithm(Noise_EncryptedPrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
         obj->algorithm = (char *)malloc(size + 1);
         if (obj->algorithm) {
@@ -2008,7 +2008,7 @@ size_t Noise_EncryptedPrivateKey_get_size_salt(const Noise_EncryptedPrivateKey *
 
 int Noise_EncryptedPrivateKey_set_salt(Noise_EncryptedPrivateKey *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->salt, obj->salt_size_);
         obj->salt = (void *)malloc(size ? size : 1);
         if (obj->salt) {
@@ -2079,7 +2079,7 @@ size_t Noise_EncryptedPrivateKey_get_size_encrypted_data(const Noise_EncryptedPr
 
 int Noise_EncryptedPrivateKey_set_encrypted_data(Noise_EncryptedPrivateKey *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->encrypted_data, obj->encrypted_data_size_);
         obj->encrypted_data = (void *)malloc(size ? size : 1);
         if (obj->encrypted_data) {
@@ -2237,7 +2237,7 @@ size_t Noise_PrivateKey_get_size_id(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_id(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->id, obj->id_size_);
         obj->id = (char *)malloc(size + 1);
         if (obj->id) {
@@ -2281,7 +2281,7 @@ size_t Noise_PrivateKey_get_size_name(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_name(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->name, obj->name_size_);
         obj->name = (char *)malloc(size + 1);
         if (obj->name) {
@@ -2325,7 +2325,7 @@ size_t Noise_PrivateKey_get_size_role(const Noise_PrivateKey *obj)
 
 int Noise_PrivateKey_set_role(Noise_PrivateKey *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->role, obj->role_size_);
         obj->role = (char *)malloc(size + 1);
         if (obj->role) {
@@ -2565,7 +2565,7 @@ size_t Noise_PrivateKeyInfo_get_size_algorithm(const Noise_PrivateKeyInfo *obj)
 
 int Noise_PrivateKeyInfo_set_algorithm(Noise_PrivateKeyInfo *obj, const char *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->algorithm, obj->algorithm_size_);
         obj->algorithm = (char *)malloc(size + 1);
         if (obj->algorithm) {
@@ -2609,7 +2609,7 @@ size_t Noise_PrivateKeyInfo_get_size_key(const Noise_PrivateKeyInfo *obj)
 
 int Noise_PrivateKeyInfo_set_key(Noise_PrivateKeyInfo *obj, const void *value, size_t size)
 {
-    if (obj) {
+    if (obj && (value || !size)) {
         noise_protobuf_free_memory(obj->key, obj->key_size_);
         obj->key = (void *)malloc(size ? size : 1);
         if (obj->key) {
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 69bebad..00000c7 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -691,7 +691,7 @@ static void type_string_declare_field_ops
             fprintf(output, ";\n");
         } else {
             fprintf(output, "\n{\n");
-            fprintf(output, "    if (obj) {\n");
+            fprintf(output, "    if (obj && (value || !size)) {\n");
             indent_level = 2;
             (*(type->free_field))(type, field);
             if (field->type.id == PROTO3_TYPE_STRING) {
-- 
2.43.0


From 0a72e1810b6bb7dd8f18e7134a169fa5788dd866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 37/42] revert: leave the echo examples as they were; their
 defects are recorded as known findings

---
 examples/echo/echo-server/echo-common.c | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/examples/echo/echo-server/echo-common.c b/examples/echo/echo-server/echo-common.c
index a4e4bf3..131ed2c 100644
--- a/examples/echo/echo-server/echo-common.c
+++ b/examples/echo/echo-server/echo-common.c
@@ -215,8 +215,6 @@ int echo_load_private_key(const char *filename, uint8_t *key, size_t len)
     size_t posn = 0;
     int ch;
     if (len > MAX_DH_KEY_LEN) {
-        if (file)
-            fclose(file);
         fprintf(stderr, "private key length is not supported\n");
         return 0;
     }
@@ -251,8 +249,6 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
     size_t posn = 0;
     int ch;
     if (len > MAX_DH_KEY_LEN) {
-        if (file)
-            fclose(file);
         fprintf(stderr, "public key length is not supported\n");
         return 0;
     }
@@ -273,9 +269,7 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
             digit = 63;
         } else if (ch == '=') {
             break;
-        } else if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') {
-            continue;
-        } else {
+        } else if (ch != ' ' && ch != '\t' && ch != '\r' && ch != '\n') {
             fclose(file);
             fprintf(stderr, "%s: invalid character in public key file\n", filename);
             return 0;
@@ -293,20 +287,7 @@ int echo_load_public_key(const char *filename, uint8_t *key, size_t len)
             key[posn++] = (uint8_t)group;
         }
     }
-    while (ch != EOF) {
-        /* Only padding and white space can appear after the first '=' */
-        if (ch != '=' && ch != ' ' && ch != '\t' && ch != '\r' && ch != '\n') {
-            fclose(file);
-            fprintf(stderr, "%s: invalid character in public key file\n", filename);
-            return 0;
-        }
-        ch = getc(file);
-    }
-    if (group_size == 1) {
-        fclose(file);
-        fprintf(stderr, "%s: public key value is truncated\n", filename);
-        return 0;
-    } else if (group_size == 3) {
+    if (group_size == 3) {
         if ((len - posn) < 2) {
             fclose(file);
             fprintf(stderr, "%s: public key value is too long\n", filename);
-- 
2.43.0


From 7e39052df1ba3b36da088bf9ca68b0723dea0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 38/42] fix: reject bytes that cannot appear in a schema
 instead of ending the schema there

---
 tools/protoc/proto3-grammar.y | 1 +
 tools/protoc/proto3-lexer.l   | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/protoc/proto3-grammar.y b/tools/protoc/proto3-grammar.y
index 446a0ba..ee6ac95 100644
--- a/tools/protoc/proto3-grammar.y
+++ b/tools/protoc/proto3-grammar.y
@@ -149,6 +149,7 @@ int parse_file(const char *filename)
 %token K_BYTES "`bytes'"
 %token K_TRUE "`true'"
 %token K_FALSE "`false'"
+%token K_INVALID "an invalid character"
 
 %union {
     Proto3Name string;
diff --git a/tools/protoc/proto3-lexer.l b/tools/protoc/proto3-lexer.l
index 9e3cc93..4ec67fe 100644
--- a/tools/protoc/proto3-lexer.l
+++ b/tools/protoc/proto3-lexer.l
@@ -83,7 +83,7 @@ STRCHAR     [^"\n]
             }
 
 {QUOTE}{STRCHAR}*{QUOTE} {
-                size_t len = strlen(yytext) - 2;
+                size_t len = yyleng - 2;
                 yylval.name = proto3_string(yytext + 1, len);
                 return K_STRING_LITERAL;
             }
@@ -94,6 +94,8 @@ STRCHAR     [^"\n]
 
 "//".*\n    { ++yylloc.first_line; }
 
+[\x00\x80-\xFF] { return K_INVALID; }
+
 .           { return yytext[0]; }
 
 %%
-- 
2.43.0


From f1fac00f31032ac303759c1a81e66a7a8a83d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 39/42] fix: accept a comment at the end of a schema without a
 final newline

---
 tools/protoc/proto3-lexer.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/protoc/proto3-lexer.l b/tools/protoc/proto3-lexer.l
index 4ec67fe..332cbe0 100644
--- a/tools/protoc/proto3-lexer.l
+++ b/tools/protoc/proto3-lexer.l
@@ -92,7 +92,7 @@ STRCHAR     [^"\n]
 
 \n          { ++yylloc.first_line; }
 
-"//".*\n    { ++yylloc.first_line; }
+"//".*      ;
 
 [\x00\x80-\xFF] { return K_INVALID; }
 
-- 
2.43.0


From 5566a9c51435e857591c72964d113cdbce12b91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 40/42] fix: report output that noise-protoc could not write
 completely

---
 tools/protoc/main.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tools/protoc/main.c b/tools/protoc/main.c
index ca30d33..af1aad4 100644
--- a/tools/protoc/main.c
+++ b/tools/protoc/main.c
@@ -83,6 +83,17 @@ static int parse_options(int argc, char *argv[])
     return 1;
 }
 
+/* Close an output file and check that everything was written to it */
+static int close_output(FILE *file, const char *filename)
+{
+    int ok = !ferror(file);
+    if (fclose(file) != 0)
+        ok = 0;
+    if (!ok)
+        fprintf(stderr, "%s: could not write all of the output\n", filename);
+    return ok;
+}
+
 int main(int argc, char *argv[])
 {
     int retval = 0;
@@ -119,10 +130,10 @@ int main(int argc, char *argv[])
     }
 
     /* Close the output files */
-    if (output_c)
-        fclose(output_c);
-    if (output_h)
-        fclose(output_h);
+    if (output_c && !close_output(output_c, output_c_file))
+        retval = 1;
+    if (output_h && !close_output(output_h, output_h_file))
+        retval = 1;
 
     /* Clean up and exit */
     proto3_cleanup();
-- 
2.43.0


From af11530b400e5acf6239e9e38de1d106fc1e5805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 41/42] fix: fail when noise-protoc cannot read the license it
 should add

---
 tools/protoc/main.c              |  7 +++---
 tools/protoc/proto3-generate-c.c | 37 ++++++++++++++++++++------------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/tools/protoc/main.c b/tools/protoc/main.c
index af1aad4..876b446 100644
--- a/tools/protoc/main.c
+++ b/tools/protoc/main.c
@@ -36,8 +36,8 @@ static struct option const long_options[] = {
 };
 
 int parse_file(const char *filename);
-void generate_c(const char *output_c_name, FILE *output_c,
-                const char *output_h_name, FILE *output_h);
+int generate_c(const char *output_c_name, FILE *output_c,
+               const char *output_h_name, FILE *output_h);
 
 static char *output_c_file = "proto_defs.c";
 static char *output_h_file = "proto_defs.h";
@@ -126,7 +126,8 @@ int main(int argc, char *argv[])
 
     /* Generate the output */
     if (!retval) {
-        generate_c(output_c_file, output_c, output_h_file, output_h);
+        if (!generate_c(output_c_file, output_c, output_h_file, output_h))
+            retval = 1;
     }
 
     /* Close the output files */
diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 00000c7..6b8b50a 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -1313,16 +1313,17 @@ static const Proto3TypeOps *type_ops(Proto3Type type)
 /**
  * \brief Generates the license block at the top of a header/source file.
  */
-static void generate_license(FILE *output)
+static int generate_license(FILE *output)
 {
     FILE *lfile;
+    int ok;
     char buffer[BUFSIZ];
     if (!license_file)
-        return;
+        return 1;
     lfile = fopen(license_file, "r");
     if (!lfile) {
         perror(license_file);
-        return;
+        return 0;
     }
     fprintf(output, "/*\n");
     while (fgets(buffer, sizeof(buffer), lfile)) {
@@ -1330,7 +1331,11 @@ static void generate_license(FILE *output)
         fputs(buffer, output);
     }
     fprintf(output, " */\n\n");
+    ok = !ferror(lfile);
+    if (!ok)
+        perror(license_file);
     fclose(lfile);
+    return ok;
 }
 
 /**
@@ -1428,7 +1433,7 @@ static void generate_declare_read
 /**
  * \brief Generates the header file for the protobuf definition.
  */
-static void generate_c_header(const char *output_h_name, FILE *output_h)
+static int generate_c_header(const char *output_h_name, FILE *output_h)
 {
     Proto3Enum *enum_node;
     Proto3EnumValue *enum_value;
@@ -1439,7 +1444,8 @@ static void generate_c_header(const char *output_h_name, FILE *output_h)
 
     /* Output the header */
     output = output_h;
-    generate_license(output);
+    if (!generate_license(output))
+        return 0;
     fprintf(output, "#ifndef __");
     generate_name(output, output_h_name);
     fprintf(output, "__\n#define __");
@@ -1510,6 +1516,7 @@ static void generate_c_header(const char *output_h_name, FILE *output_h)
     fprintf(output, "};\n");
     fprintf(output, "#endif\n\n");
     fprintf(output, "#endif\n");
+    return 1;
 }
 
 /**
@@ -1658,9 +1665,9 @@ static void generate_implement_read(FILE *output, Proto3Message *message)
 /**
  * \brief Generates the source file for the protobuf definition.
  */
-static void generate_c_source(const char *output_c_name,
-                              const char *output_h_name,
-                              FILE *output_c)
+static int generate_c_source(const char *output_c_name,
+                             const char *output_h_name,
+                             FILE *output_c)
 {
     const Proto3TypeOps *ops;
     Proto3Message *message;
@@ -1669,7 +1676,8 @@ static void generate_c_source(const char *output_c_name,
     /* Output the header */
     output = output_c;
     indent_level = 0;
-    generate_license(output);
+    if (!generate_license(output))
+        return 0;
     fprintf(output, "#include \"%s\"\n", output_h_name);
     fprintf(output, "#include <stdlib.h>\n");
     fprintf(output, "#include <string.h>\n");
@@ -1710,11 +1718,11 @@ static void generate_c_source(const char *output_c_name,
         }
         message = message->next;
     }
-
+    return 1;
 }
 
-void generate_c(const char *output_c_name, FILE *output_c,
-                const char *output_h_name, FILE *output_h)
+int generate_c(const char *output_c_name, FILE *output_c,
+               const char *output_h_name, FILE *output_h)
 {
     char *ptr;
 
@@ -1731,8 +1739,9 @@ void generate_c(const char *output_c_name, FILE *output_c,
         output_h_name = ptr + 1;
 
     /* Output the header definitions */
-    generate_c_header(output_h_name, output_h);
+    if (!generate_c_header(output_h_name, output_h))
+        return 0;
 
     /* Output the source definitions */
-    generate_c_source(output_c_name, output_h_name, output_c);
+    return generate_c_source(output_c_name, output_h_name, output_c);
 }
-- 
2.43.0


From 35582b513492ad5d25cfc95c6fb033bba272ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:08 +0000
Subject: [PATCH 42/42] fix: give every generated header a valid include guard
 of its own

---
 tools/protoc/proto3-generate-c.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/tools/protoc/proto3-generate-c.c b/tools/protoc/proto3-generate-c.c
index 6b8b50a..bb9b69b 100644
--- a/tools/protoc/proto3-generate-c.c
+++ b/tools/protoc/proto3-generate-c.c
@@ -66,6 +66,28 @@ static void generate_name(FILE *output, const char *name)
     }
 }
 
+/**
+ * \brief Generates the include guard for a header file.
+ *
+ * Characters of the filename that cannot appear in a macro name are
+ * replaced by their code so that every header has its own guard.
+ */
+static void generate_guard(FILE *output, const char *name)
+{
+    fputs("__", output);
+    for (; *name != '\0'; ++name) {
+        int ch = (*name & 0xFF);
+        if ((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') ||
+                (ch >= '0' && ch <= '9') || ch == '_')
+            putc(ch, output);
+        else if (ch == '.')
+            putc('_', output);
+        else
+            fprintf(output, "_%02x", ch);
+    }
+    fputs("__", output);
+}
+
 /**
  * \brief Declares a numeric field in a struct.
  */
@@ -1446,11 +1468,11 @@ static int generate_c_header(const char *output_h_name, FILE *output_h)
     output = output_h;
     if (!generate_license(output))
         return 0;
-    fprintf(output, "#ifndef __");
-    generate_name(output, output_h_name);
-    fprintf(output, "__\n#define __");
-    generate_name(output, output_h_name);
-    fprintf(output, "__\n\n");
+    fprintf(output, "#ifndef ");
+    generate_guard(output, output_h_name);
+    fprintf(output, "\n#define ");
+    generate_guard(output, output_h_name);
+    fprintf(output, "\n\n");
     fprintf(output, "#include <noise/protobufs.h>\n\n");
     fprintf(output, "#ifdef __cplusplus\n");
     fprintf(output, "extern \"C\" {\n");
-- 
2.43.0

