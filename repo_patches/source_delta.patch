From e173cf0c2c36039bea0e53cb93da642083d62a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:43 +0000
Subject: [PATCH 01/66] fix: report failed padding or tag verification as
 SA_STATUS_VERIFICATION_FAILED and release no plaintext

---
 reference/src/taimpl/src/internal/symmetric.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 2d50a4d..6452415 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -1443,7 +1443,11 @@ sa_status symmetric_context_decrypt_last(
     int final_length = 0;
     if (EVP_DecryptFinal(context->evp_cipher, out + update_length, &final_length) != 1) {
         ERROR("EVP_DecryptFinal failed");
-        return SA_STATUS_INTERNAL_ERROR;
+        // The padding or the tag did not verify, so nothing that was just decrypted may be released.
+        if (update_length > 0)
+            memory_memset_unoptimizable(out, 0, update_length);
+
+        return SA_STATUS_VERIFICATION_FAILED;
     }
 
     *out_length = update_length + final_length;
-- 
2.43.0


From 26a01887c89ca4a5416df165edc3ca2e57af2c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 02/66] fix: release the cipher and client when a buffer type
 is invalid

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_process.c      | 6 ++++--
 reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index d47c986..92f552b 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -428,12 +428,14 @@ sa_status ta_sa_crypto_cipher_process(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index 7612d87..dedef13 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -555,12 +555,14 @@ sa_status ta_sa_crypto_cipher_process_last(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-- 
2.43.0


From ba2626df09cfa0c92ae913792b135f91cf53d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 03/66] fix: refuse data after the last chunk of a cipher has
 been processed

---
 .../src/taimpl/include/internal/symmetric.h   |  2 +-
 reference/src/taimpl/src/internal/symmetric.c | 38 ++++++++++++++++++-
 .../src/ta_sa_crypto_cipher_update_iv.c       |  2 +-
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/include/internal/symmetric.h b/reference/src/taimpl/include/internal/symmetric.h
index 6c35dc5..0de5976 100644
--- a/reference/src/taimpl/include/internal/symmetric.h
+++ b/reference/src/taimpl/include/internal/symmetric.h
@@ -324,7 +324,7 @@ sa_status symmetric_context_decrypt_last(
  * @return status of the operation.
  */
 sa_status symmetric_context_set_iv(
-        const symmetric_context_t* context,
+        symmetric_context_t* context,
         const void* iv,
         size_t iv_length);
 
diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 6452415..204be68 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -30,6 +30,7 @@
 struct symmetric_context_s {
     sa_cipher_algorithm cipher_algorithm;
     sa_cipher_mode cipher_mode;
+    bool finalized;
     EVP_CIPHER_CTX* evp_cipher;
 };
 
@@ -155,6 +156,7 @@ symmetric_context_t* symmetric_create_aes_ecb_encrypt_context(
 
         context->cipher_algorithm = padded ? SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 : SA_CIPHER_ALGORITHM_AES_ECB;
         context->cipher_mode = SA_CIPHER_MODE_ENCRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -238,6 +240,7 @@ symmetric_context_t* symmetric_create_aes_cbc_encrypt_context(
 
         context->cipher_algorithm = padded ? SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 : SA_CIPHER_ALGORITHM_AES_CBC;
         context->cipher_mode = SA_CIPHER_MODE_ENCRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -320,6 +323,7 @@ symmetric_context_t* symmetric_create_aes_ctr_encrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_AES_CTR;
         context->cipher_mode = SA_CIPHER_MODE_ENCRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -410,6 +414,7 @@ symmetric_context_t* symmetric_create_aes_gcm_encrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_AES_GCM;
         context->cipher_mode = SA_CIPHER_MODE_ENCRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -530,6 +535,7 @@ symmetric_context_t* symmetric_create_chacha20_encrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_CHACHA20;
         context->cipher_mode = SA_CIPHER_MODE_ENCRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -622,6 +628,7 @@ symmetric_context_t* symmetric_create_chacha20_poly1305_encrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
         context->cipher_mode = SA_CIPHER_MODE_ENCRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -711,6 +718,7 @@ symmetric_context_t* symmetric_create_aes_ecb_decrypt_context(
 
         context->cipher_algorithm = padded ? SA_CIPHER_ALGORITHM_AES_ECB_PKCS7 : SA_CIPHER_ALGORITHM_AES_ECB;
         context->cipher_mode = SA_CIPHER_MODE_DECRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -794,6 +802,7 @@ symmetric_context_t* symmetric_create_aes_cbc_decrypt_context(
 
         context->cipher_algorithm = padded ? SA_CIPHER_ALGORITHM_AES_CBC_PKCS7 : SA_CIPHER_ALGORITHM_AES_CBC;
         context->cipher_mode = SA_CIPHER_MODE_DECRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -876,6 +885,7 @@ symmetric_context_t* symmetric_create_aes_ctr_decrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_AES_CTR;
         context->cipher_mode = SA_CIPHER_MODE_DECRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -966,6 +976,7 @@ symmetric_context_t* symmetric_create_aes_gcm_decrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_AES_GCM;
         context->cipher_mode = SA_CIPHER_MODE_DECRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -1086,6 +1097,7 @@ symmetric_context_t* symmetric_create_chacha20_decrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_CHACHA20;
         context->cipher_mode = SA_CIPHER_MODE_DECRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -1178,6 +1190,7 @@ symmetric_context_t* symmetric_create_chacha20_poly1305_decrypt_context(
 
         context->cipher_algorithm = SA_CIPHER_ALGORITHM_CHACHA20_POLY1305;
         context->cipher_mode = SA_CIPHER_MODE_DECRYPT;
+        context->finalized = false;
 
         context->evp_cipher = EVP_CIPHER_CTX_new();
         if (context->evp_cipher == NULL) {
@@ -1253,6 +1266,11 @@ sa_status symmetric_context_encrypt(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (context->finalized) {
+        ERROR("Last data chunk has already been processed");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (out == NULL) {
         ERROR("NULL out");
         return SA_STATUS_NULL_PARAMETER;
@@ -1300,6 +1318,11 @@ sa_status symmetric_context_encrypt_last(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (context->finalized) {
+        ERROR("Last data chunk has already been processed");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB ||
             context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC) {
         ERROR("Invalid cipher algorithm");
@@ -1335,6 +1358,7 @@ sa_status symmetric_context_encrypt_last(
     }
 
     int final_length = 0;
+    context->finalized = true;
     if (EVP_EncryptFinal(context->evp_cipher, out + update_length, &final_length) != 1) {
         ERROR("EVP_EncryptFinal failed");
         return SA_STATUS_INTERNAL_ERROR;
@@ -1361,6 +1385,11 @@ sa_status symmetric_context_decrypt(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (context->finalized) {
+        ERROR("Last data chunk has already been processed");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (out == NULL) {
         ERROR("NULL out");
         return SA_STATUS_NULL_PARAMETER;
@@ -1408,6 +1437,11 @@ sa_status symmetric_context_decrypt_last(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (context->finalized) {
+        ERROR("Last data chunk has already been processed");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB ||
             context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC) {
         ERROR("Invalid cipher algorithm");
@@ -1441,6 +1475,7 @@ sa_status symmetric_context_decrypt_last(
     }
 
     int final_length = 0;
+    context->finalized = true;
     if (EVP_DecryptFinal(context->evp_cipher, out + update_length, &final_length) != 1) {
         ERROR("EVP_DecryptFinal failed");
         // The padding or the tag did not verify, so nothing that was just decrypted may be released.
@@ -1455,7 +1490,7 @@ sa_status symmetric_context_decrypt_last(
 }
 
 sa_status symmetric_context_set_iv(
-        const symmetric_context_t* context,
+        symmetric_context_t* context,
         const void* iv,
         size_t iv_length) {
 
@@ -1496,6 +1531,7 @@ sa_status symmetric_context_set_iv(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    context->finalized = false;
     return SA_STATUS_OK;
 }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
index 22f2a07..9360b67 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
@@ -68,7 +68,7 @@ sa_status ta_sa_crypto_cipher_update_iv(
                 break;
             }
 
-            const symmetric_context_t* symmetric_context = cipher_get_symmetric_context(cipher);
+            symmetric_context_t* symmetric_context = cipher_get_symmetric_context(cipher);
             if (symmetric_context == NULL) {
                 ERROR("cipher_get_symmetric_context failed");
                 status = SA_STATUS_NULL_PARAMETER;
-- 
2.43.0


From 99070f645d3eb77b5d152d9b7cae9dd6e3a6bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 04/66] fix: reject cipher input longer than the cipher library
 can take in one call

---
 reference/src/taimpl/src/internal/symmetric.c | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 204be68..ce7f469 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -24,6 +24,7 @@
 #include "porting/rand.h"
 #include "sa_types.h"
 #include "stored_key_internal.h"
+#include <limits.h>
 #include <memory.h>
 #include <openssl/evp.h>
 
@@ -1271,6 +1272,11 @@ sa_status symmetric_context_encrypt(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (out == NULL) {
         ERROR("NULL out");
         return SA_STATUS_NULL_PARAMETER;
@@ -1323,6 +1329,11 @@ sa_status symmetric_context_encrypt_last(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB ||
             context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC) {
         ERROR("Invalid cipher algorithm");
@@ -1390,6 +1401,11 @@ sa_status symmetric_context_decrypt(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (out == NULL) {
         ERROR("NULL out");
         return SA_STATUS_NULL_PARAMETER;
@@ -1442,6 +1458,11 @@ sa_status symmetric_context_decrypt_last(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB ||
             context->cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC) {
         ERROR("Invalid cipher algorithm");
-- 
2.43.0


From 23a86d6a4d350ba296b55143a053e16a43f2a3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 05/66] fix: key unwrap with AES-GCM or ChaCha20-Poly1305 and
 no AAD was refused with NULL_PARAMETER

---
 reference/src/taimpl/src/internal/ta.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e7955d1..647187e 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -596,11 +596,6 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
             memcpy(&parameters_aes_gcm_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_aes_gcm.iv = &parameters_aes_gcm_s.iv;
             parameters_aes_gcm.iv_length = parameters_aes_gcm_s.iv_length;
@@ -641,11 +636,6 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
             memcpy(&parameters_chacha_20_poly_1305_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_chacha20_poly1305.nonce = &parameters_chacha_20_poly_1305_s.nonce;
             parameters_chacha20_poly1305.nonce_length = parameters_chacha_20_poly_1305_s.nonce_length;
-- 
2.43.0


From 441687dbda7a510e9e8e0830419c9eb425ad7891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 06/66] fix: Netflix derived keys kept output protections that
 one of their parents lacks

---
 reference/src/taimpl/src/internal/netflix.c   | 17 +++++++++--------
 reference/src/taimpl/src/ta_sa_key_derive.c   |  7 +++++--
 reference/src/taimpl/src/ta_sa_key_exchange.c | 11 ++++++++++-
 3 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/reference/src/taimpl/src/internal/netflix.c b/reference/src/taimpl/src/internal/netflix.c
index c0d2994..5ec6cd5 100644
--- a/reference/src/taimpl/src/internal/netflix.c
+++ b/reference/src/taimpl/src/internal/netflix.c
@@ -188,12 +188,6 @@ sa_status kdf_netflix_shared_secret(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    const sa_header* in_key_header = stored_key_get_header(stored_key_in);
-    if (in_key_header == NULL) {
-        ERROR("stored_key_get_header failed");
-        return SA_STATUS_NULL_PARAMETER;
-    }
-
     size_t in_key_length = stored_key_get_length(stored_key_in);
     if (in_key_length != SYM_128_KEY_SIZE) {
         ERROR("Invalid in_key_length");
@@ -205,6 +199,13 @@ sa_status kdf_netflix_shared_secret(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    // The rights of the shared secret are those of stored_key_in restricted by those of the private key.
+    const sa_header* parent_header = stored_key_get_header(stored_key_shared_secret);
+    if (parent_header == NULL) {
+        ERROR("stored_key_get_header failed");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
     sa_status status = SA_STATUS_INTERNAL_ERROR;
     uint8_t* digest_bytes = NULL;
     size_t digest_bytes_length = SHA384_DIGEST_LENGTH;
@@ -269,14 +270,14 @@ sa_status kdf_netflix_shared_secret(
 
         sa_type_parameters type_parameters;
         memory_memset_unoptimizable(&type_parameters, 0, sizeof(sa_type_parameters));
-        status = stored_key_create(stored_key_enc, rights_enc, &in_key_header->rights, SA_KEY_TYPE_SYMMETRIC,
+        status = stored_key_create(stored_key_enc, rights_enc, &parent_header->rights, SA_KEY_TYPE_SYMMETRIC,
                 &type_parameters, SYM_128_KEY_SIZE, key_bytes, SYM_128_KEY_SIZE);
         if (status != SA_STATUS_OK) {
             ERROR("stored_key_create failed");
             break;
         }
 
-        status = stored_key_create(stored_key_hmac, rights_hmac, &in_key_header->rights, SA_KEY_TYPE_SYMMETRIC,
+        status = stored_key_create(stored_key_hmac, rights_hmac, &parent_header->rights, SA_KEY_TYPE_SYMMETRIC,
                 &type_parameters, SYM_256_KEY_SIZE, key_bytes + SYM_128_KEY_SIZE, SHA256_DIGEST_LENGTH);
         if (status != SA_STATUS_OK) {
             ERROR("stored_key_create failed");
diff --git a/reference/src/taimpl/src/ta_sa_key_derive.c b/reference/src/taimpl/src/ta_sa_key_derive.c
index d1b1954..fd31456 100644
--- a/reference/src/taimpl/src/ta_sa_key_derive.c
+++ b/reference/src/taimpl/src/ta_sa_key_derive.c
@@ -646,8 +646,11 @@ static sa_status ta_sa_key_derive_netflix(
             break;
         }
 
-        status = kdf_netflix_wrapping(&stored_key_derived, rights, &enc_header->rights, stored_key_enc,
-                stored_key_hmac);
+        // Both keys are parents of the derived key, so it has no output protections that either of them lacks.
+        sa_rights parent_rights = enc_header->rights;
+        parent_rights.usage_flags &= hmac_header->rights.usage_flags | ~SA_USAGE_OUTPUT_PROTECTIONS_MASK;
+
+        status = kdf_netflix_wrapping(&stored_key_derived, rights, &parent_rights, stored_key_enc, stored_key_hmac);
         if (status != SA_STATUS_OK) {
             ERROR("kdf_netflix_wrapping failed");
             break;
diff --git a/reference/src/taimpl/src/ta_sa_key_exchange.c b/reference/src/taimpl/src/ta_sa_key_exchange.c
index c6b8a82..2e62a67 100644
--- a/reference/src/taimpl/src/ta_sa_key_exchange.c
+++ b/reference/src/taimpl/src/ta_sa_key_exchange.c
@@ -325,6 +325,14 @@ static sa_status ta_sa_key_exchange_netflix_dh(
             break;
         }
 
+        // The rights of the shared secret are those of in_kw restricted by those of the private key.
+        const sa_header* shared_secret_header = stored_key_get_header(stored_key_shared_secret);
+        if (shared_secret_header == NULL) {
+            ERROR("stored_key_get_header failed");
+            status = SA_STATUS_NULL_PARAMETER;
+            break;
+        }
+
         status = kdf_netflix_shared_secret(&stored_key_enc, parameters->rights_ke, &stored_key_hmac,
                 parameters->rights_kh, stored_key_in, stored_key_shared_secret);
         if (status != SA_STATUS_OK) {
@@ -344,7 +352,8 @@ static sa_status ta_sa_key_exchange_netflix_dh(
             break;
         }
 
-        status = kdf_netflix_wrapping(&stored_key_wrap, rights, &in_header->rights, stored_key_enc, stored_key_hmac);
+        status = kdf_netflix_wrapping(&stored_key_wrap, rights, &shared_secret_header->rights, stored_key_enc,
+                stored_key_hmac);
         if (status != SA_STATUS_OK) {
             ERROR("kdf_netflix_wrapping failed");
             break;
-- 
2.43.0


From 295b0ea3f33a94dc81a2ea4b2620b9731bff9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 07/66] fix: report failure when an RSA-PSS signature cannot be
 computed

---
 reference/src/taimpl/src/internal/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 010b53e..c161209 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -467,7 +467,7 @@ sa_status rsa_sign_pss(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    sa_status status = SA_STATUS_OK;
+    sa_status status = SA_STATUS_INTERNAL_ERROR;
     EVP_MD_CTX* evp_md_ctx = NULL;
     EVP_PKEY* evp_pkey = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From c8ce78cce6656315af77ed89d1b64c3f72182cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 08/66] fix: encode Netflix shared secrets with exactly one
 leading zero byte

---
 reference/src/taimpl/src/internal/netflix.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/netflix.c b/reference/src/taimpl/src/internal/netflix.c
index 5ec6cd5..70726bf 100644
--- a/reference/src/taimpl/src/internal/netflix.c
+++ b/reference/src/taimpl/src/internal/netflix.c
@@ -243,11 +243,11 @@ sa_status kdf_netflix_shared_secret(
             byte with a value of zero. This representation is not outright compatible with the Java
             BigInteger.toByteArray() function and BigInteger(byte[]) constructor, but close.
 
-            So, essentially, if the first byte of the shared secret is not zero, we prepend
-            a zero byte.
+            So, essentially, we remove the leading zero bytes of the (fixed length) shared secret
+            and prepend a zero byte.
         */
 
-        const void* shared_secret = stored_key_get_key(stored_key_shared_secret);
+        const uint8_t* shared_secret = stored_key_get_key(stored_key_shared_secret);
         if (shared_secret == NULL) {
             ERROR("stored_key_get_key failed");
             break;
@@ -259,9 +259,13 @@ sa_status kdf_netflix_shared_secret(
             break;
         }
 
+        while (shared_secret_length > 0 && *shared_secret == 0) {
+            shared_secret++;
+            shared_secret_length--;
+        }
+
         const uint8_t zero = 0;
-        bool pre_zero = (((const uint8_t*) shared_secret)[0] != 0);
-        status = hmac_internal(key_bytes, &key_bytes_length, SA_DIGEST_ALGORITHM_SHA384, &zero, pre_zero ? 1 : 0,
+        status = hmac_internal(key_bytes, &key_bytes_length, SA_DIGEST_ALGORITHM_SHA384, &zero, sizeof(zero),
                 shared_secret, shared_secret_length, NULL, 0, digest_bytes, digest_bytes_length);
         if (status != SA_STATUS_OK) {
             ERROR("hmac_internal failed");
-- 
2.43.0


From edef2d8cf143d02da727afc5721de1a4bcdbc2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 09/66] fix: refuse an empty wrapped key instead of checking
 the padding before its buffer

---
 reference/src/taimpl/src/internal/unwrap.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index ccfdc03..9c07d01 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -156,7 +156,8 @@ sa_status unwrap_aes_ecb(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_ECB_PKCS7) {
-            if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
+            if (in_length < AES_BLOCK_SIZE ||
+                    !pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
@@ -247,7 +248,8 @@ sa_status unwrap_aes_cbc(
 
         uint8_t pad_value = 0;
         if (cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CBC_PKCS7) {
-            if (!pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
+            if (in_length < AES_BLOCK_SIZE ||
+                    !pad_check_pkcs7(&pad_value, unwrapped_key + in_length - AES_BLOCK_SIZE)) {
                 ERROR("pad_check_pkcs7 failed");
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
-- 
2.43.0


From e3bf0607994b20bc0522abb8c2a06fb88ea4306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 10/66] fix: sa_svp_buffer_write passes every offset entry to
 the TA

---
 reference/src/clientimpl/src/sa_svp_buffer_write.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/clientimpl/src/sa_svp_buffer_write.c b/reference/src/clientimpl/src/sa_svp_buffer_write.c
index 30d9738..5c4150d 100644
--- a/reference/src/clientimpl/src/sa_svp_buffer_write.c
+++ b/reference/src/clientimpl/src/sa_svp_buffer_write.c
@@ -67,9 +67,9 @@ sa_status sa_svp_buffer_write(
         }
 
         for (size_t i = 0; i < offsets_length; i++) {
-            offset_s[i].out_offset = offsets->out_offset;
-            offset_s[i].in_offset = offsets->in_offset;
-            offset_s[i].length = offsets->length;
+            offset_s[i].out_offset = offsets[i].out_offset;
+            offset_s[i].in_offset = offsets[i].in_offset;
+            offset_s[i].length = offsets[i].length;
         }
 
         CREATE_PARAM(param2, offset_s, param2_size);
-- 
2.43.0


From 1ef378ac3b35ab803b51323ab33a20190037242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 11/66] fix: reject SVP regions that are outside SVP memory

---
 reference/src/taimpl/src/porting/svp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 7dfb5c4..b7372eb 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -39,7 +39,7 @@ static bool svp_validate_buffer(const svp_buffer_t* svp_buffer) {
 
     if (!memory_is_valid_svp(svp_buffer->svp_memory, svp_buffer->size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     return true;
@@ -62,7 +62,7 @@ bool svp_create_buffer(
 
     if (!memory_is_valid_svp(svp_memory, size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     *svp_buffer = memory_internal_alloc(sizeof(svp_buffer_t));
-- 
2.43.0


From 338fa5697469d23f537ee93768d81362076d154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:01 +0000
Subject: [PATCH 12/66] fix: sa_svp_buffer_copy copies overlapping ranges of
 one buffer correctly

---
 reference/src/taimpl/src/porting/svp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index b7372eb..52fbb34 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -230,7 +230,7 @@ bool svp_copy(
             return false;
         }
 
-        memcpy((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
+        memmove((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
     }
     return true;
 }
-- 
2.43.0


From d201eac152488929fbe5fe390c3c419a4abb1722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:25 +0000
Subject: [PATCH 13/66] fix: sa_svp_key_check rejects an unknown buffer type

---
 reference/src/taimpl/src/ta_sa_svp_key_check.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_svp_key_check.c b/reference/src/taimpl/src/ta_sa_svp_key_check.c
index 0e8d181..46439d2 100644
--- a/reference/src/taimpl/src/ta_sa_svp_key_check.c
+++ b/reference/src/taimpl/src/ta_sa_svp_key_check.c
@@ -40,6 +40,11 @@ sa_status ta_sa_svp_key_check(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
+        ERROR("Invalid in buffer_type");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     if (bytes_to_process % AES_BLOCK_SIZE != 0) {
         ERROR("Invalid in_length");
         return SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From e90a247e60cbf52cb6859cc5ffbfacc6307d2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 14/66] fix: CENC counter handling when a subsample ends inside
 or just after a partial block

---
 reference/src/taimpl/src/internal/cenc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 84af6b3..b766e1c 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -49,6 +49,10 @@ static sa_status decrypt(
     // Determine if the iv will rollover. If not, decrypt the whole block.
     size_t leading_partial_block_size =
             *enc_byte_count % AES_BLOCK_SIZE == 0 ? 0 : AES_BLOCK_SIZE - *enc_byte_count % AES_BLOCK_SIZE;
+    // The leading partial block is not completed by this call. It neither ends a block nor starts a full one.
+    if (leading_partial_block_size > bytes_to_process)
+        leading_partial_block_size = 0;
+
     size_t number_of_full_blocks = (bytes_to_process - leading_partial_block_size) / AES_BLOCK_SIZE;
     uint64_t* counter_buffer = (uint64_t*) (iv + 8);
     size_t num_blocks_before_rollover = UINT64_MAX - be64toh(*counter_buffer) + 1;
@@ -79,6 +83,7 @@ static sa_status decrypt(
                 *enc_byte_count += length;
                 bytes_encrypted += length;
                 leading_partial_block_size = 0;
+                num_blocks_before_rollover--;
             }
 
             size_t full_blocks_to_encrypt = MIN(num_blocks_before_rollover, number_of_full_blocks);
-- 
2.43.0


From 55f034722b270cfb3ee794a33d3acb2638286694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 15/66] fix: CENC pattern block counts that overflow when
 converted to bytes

---
 reference/src/taimpl/src/internal/cenc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index b766e1c..3b8020f 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -269,8 +269,7 @@ sa_status cenc_process_sample(
                     while (bytes_left >= AES_BLOCK_SIZE) {
                         // Calculate the number of bytes in the encrypted pattern stripe and decrypt them into the
                         // output buffer. Account for any remainder partial block at the end of the protected data.
-                        size_t block = MIN(sample->crypt_byte_block * AES_BLOCK_SIZE,
-                                (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                        size_t block = MIN(sample->crypt_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                         if (block > 0) {
                             status = decrypt(out_bytes + offset, in_bytes + offset, block, &enc_byte_count, iv,
                                     cipher_algorithm, symmetric_context);
@@ -286,8 +285,7 @@ sa_status cenc_process_sample(
                         // Calculate the number of bytes in the skipped pattern stripe and copy them into the output
                         // buffer. Account for any remainder partial block at the end of the protected data.
                         if (sample->skip_byte_block > 0) {
-                            block = MIN(sample->skip_byte_block * AES_BLOCK_SIZE,
-                                    (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                            block = MIN(sample->skip_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                             if (block > 0) {
                                 memcpy(out_bytes + offset, in_bytes + offset, block);
                                 offset += block;
-- 
2.43.0


From 687cbed46bf534f8adf73bb4f5863cc55ab1e3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:21 +0000
Subject: [PATCH 16/66] fix: JSON parsing limits nesting and does not recurse
 along lists

---
 reference/src/taimpl/src/internal/json.c | 65 +++++++++++++-----------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index c2a3bac..8b65507 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -25,6 +25,7 @@
 #include <yajl/yajl_version.h>
 
 #define MAX_KEY_LENGTH 255 // NOLINT
+#define MAX_NESTING_DEPTH 64
 
 struct json_value_s {
     json_type_e type;
@@ -96,6 +97,7 @@ typedef struct json_map_s {
     size_t key_length;
     json_value_t* value;
     struct json_map_s* next;
+    struct json_map_s* last; // only set in the head of the list
 } json_map_t;
 
 static json_map_t* json_map_new() {
@@ -110,22 +112,21 @@ static json_map_t* json_map_new() {
 }
 
 static void json_map_free(json_map_t* map) {
-    if (map == NULL) {
-        return;
+    while (map != NULL) {
+        json_map_t* next = map->next;
+        memory_internal_free(map->key);
+        json_value_free(map->value);
+        memory_internal_free(map);
+        map = next;
     }
-
-    memory_internal_free(map->key);
-    json_value_free(map->value);
-    json_map_free(map->next);
-    memory_internal_free(map);
 }
 
 static size_t json_map_size(const json_map_t* map) {
-    if (map->next == NULL) {
-        return 0;
-    }
+    size_t size = 0;
+    for (; map->next != NULL; map = map->next)
+        size++;
 
-    return 1 + json_map_size(map->next);
+    return size;
 }
 
 static json_map_t* json_map_last_key_value(json_map_t* map) {
@@ -133,11 +134,7 @@ static json_map_t* json_map_last_key_value(json_map_t* map) {
         return NULL;
     }
 
-    if (map->next == NULL) {
-        return map;
-    }
-
-    return json_map_last_key_value(map->next);
+    return map->last == NULL ? map : map->last;
 }
 
 static json_map_t* json_map_add_key_value(json_map_t* map) {
@@ -154,6 +151,7 @@ static json_map_t* json_map_add_key_value(json_map_t* map) {
 
     json_map_t* last = json_map_last_key_value(map);
     last->next = key_value;
+    map->last = key_value;
 
     return key_value;
 }
@@ -187,6 +185,7 @@ static void json_map_set_value(
 typedef struct json_array_s {
     json_value_t* value;
     struct json_array_s* next;
+    struct json_array_s* last; // only set in the head of the list
 } json_array_t;
 
 static json_array_t* json_array_new() {
@@ -201,21 +200,20 @@ static json_array_t* json_array_new() {
 }
 
 static void json_array_free(json_array_t* array) {
-    if (array == NULL) {
-        return;
+    while (array != NULL) {
+        json_array_t* next = array->next;
+        json_value_free(array->value);
+        memory_internal_free(array);
+        array = next;
     }
-
-    json_array_free(array->next);
-    json_value_free(array->value);
-    memory_internal_free(array);
 }
 
 static size_t json_array_size(const json_array_t* array) {
-    if (array->next == NULL) {
-        return 0;
-    }
+    size_t size = 0;
+    for (; array->next != NULL; array = array->next)
+        size++;
 
-    return 1 + json_array_size(array->next);
+    return size;
 }
 
 static void json_array_set_value(json_array_t* array, json_value_t* value) {
@@ -233,11 +231,7 @@ static json_array_t* json_array_last(json_array_t* array) {
         return NULL;
     }
 
-    if (array->next == NULL) {
-        return array;
-    }
-
-    return json_array_last(array->next);
+    return array->last == NULL ? array : array->last;
 }
 
 static json_array_t* json_array_add(
@@ -257,6 +251,7 @@ static json_array_t* json_array_add(
     }
 
     last->next = new_entry;
+    array->last = new_entry;
 
     json_array_set_value(new_entry, value);
 
@@ -332,6 +327,7 @@ static json_stack_t* json_stack_pop(
 typedef struct {
     yajl_handle yajl;
     json_stack_t* stack;
+    size_t depth;
     json_value_t* root;
 } json_parse_context_t;
 
@@ -404,6 +400,11 @@ static json_stack_t* json_parse_context_push(
         return NULL;
     }
 
+    if (context->depth >= MAX_NESTING_DEPTH) {
+        ERROR("JSON nested too deeply");
+        return NULL;
+    }
+
     json_stack_t* new_stack = json_stack_push(context->stack);
     if (new_stack == NULL) {
         ERROR("json_stack_push failed");
@@ -413,6 +414,7 @@ static json_stack_t* json_parse_context_push(
     json_stack_set_value(new_stack, val);
 
     context->stack = new_stack;
+    context->depth++;
 
     return context->stack;
 }
@@ -481,6 +483,7 @@ static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
+    context->depth--;
 
     json_parse_context_set_value(context, value);
 
-- 
2.43.0


From 95f178f54231d7d2d96265ec29fbf54134db8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 17/66] fix: b64_decode refuses malformed Base64 instead of
 decoding part of it

---
 reference/src/taimpl/src/internal/json.c | 29 +++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index 8b65507..48270fc 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -1139,6 +1139,18 @@ const json_key_value_t* json_key_value_find(
     return NULL;
 }
 
+static bool b64_is_valid(
+        const uint8_t* data,
+        size_t data_length) {
+    for (size_t i = 0; i < data_length; i++) {
+        uint8_t c = data[i];
+        if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/'))
+            return false;
+    }
+
+    return true;
+}
+
 bool b64_decode(
         void* out,
         size_t* out_length,
@@ -1173,6 +1185,12 @@ bool b64_decode(
             break;
         }
 
+        // the last quantum may only be incomplete where padding is left out
+        if (in_length % 4 != 0 && (!url_decode || in_length % 4 == 1)) {
+            ERROR("Invalid in_length");
+            break;
+        }
+
         memcpy(data, in, in_length);
         if (url_decode) {
             for (size_t i = 0; i < in_length; i++) {
@@ -1186,6 +1204,15 @@ bool b64_decode(
                 memory_memset_unoptimizable(data + in_length, '=', data_length - in_length);
         }
 
+        size_t padding = 0;
+        if (data_length > 0 && data[data_length - 1] == '=')
+            padding = data[data_length - 2] == '=' ? 2 : 1;
+
+        if (!b64_is_valid(data, data_length - padding)) {
+            ERROR("Invalid character");
+            break;
+        }
+
         b64 = BIO_new(BIO_f_base64());
         if (b64 == NULL) {
             ERROR("BIO_new failed");
@@ -1203,7 +1230,7 @@ bool b64_decode(
         b64 = NULL;
 
         int written = BIO_read(bio, out, (int) *out_length);
-        if (written < 0) {
+        if (written < 0 || (size_t) written != *out_length - padding) {
             ERROR("BIO_read failed");
             break;
         }
-- 
2.43.0


From d47bbad169696147435b4c860962bc77c1fc598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 18/66] fix: TypeJ import frees buffers once and checks the
 fields it reads

---
 reference/src/taimpl/src/internal/typej.c | 27 ++++++++++++++---------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 08792c4..6a71056 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -135,6 +135,10 @@ static typej_unpacked_t* unpack_typej(
     typej_unpacked_t* unpacked = NULL;
     do {
         unpacked = typej_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("typej_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
@@ -176,7 +180,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->header, &unpacked->header_length, unpacked->header_b64,
                     unpacked->header_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->header);
             break;
         }
 
@@ -185,7 +188,6 @@ static typej_unpacked_t* unpack_typej(
         if (!b64_decode(unpacked->payload, &unpacked->payload_length, unpacked->payload_b64,
                     unpacked->payload_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->payload);
             break;
         }
 
@@ -193,7 +195,6 @@ static typej_unpacked_t* unpack_typej(
         unpacked->mac = memory_internal_alloc(unpacked->mac_length);
         if (!b64_decode(unpacked->mac, &unpacked->mac_length, unpacked->mac_b64, unpacked->mac_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->mac);
             break;
         }
 
@@ -387,7 +388,7 @@ static sa_status fields_to_rights(
     uint8_t* rights_bytes = memory_internal_alloc(rights_count);
     if (!b64_decode(rights_bytes, &rights_count, rights_field_string, rights_field_size, false)) {
         ERROR("Invalid contentKeyRights");
-        memory_secure_free(rights_bytes);
+        memory_internal_free(rights_bytes);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -405,6 +406,11 @@ static sa_status fields_to_rights(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    if (usage_field->value == NULL || json_value_get_type(usage_field->value) != JSON_TYPE_INT) {
+        ERROR("Invalid contentKeyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     long long usage = json_value_as_integer(usage_field->value);
     status = key_usage_to_usage_flags(&rights->usage_flags, usage, SA_KEY_TYPE_SYMMETRIC, AES_SUBTYPE);
     if (status != SA_STATUS_OK) {
@@ -474,6 +480,11 @@ static sa_status fields_to_rights(
     } else {
         size_t entitled_ta_ids_length;
         entitled_ta_ids = json_value_as_array(&entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         if (entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
             memory_internal_free(entitled_ta_ids);
             ERROR("Invalid entitled_ta_ids_length");
@@ -483,13 +494,12 @@ static sa_status fields_to_rights(
         for (size_t i = 0; i < entitled_ta_ids_length; i++) {
             size_t ta_id_length;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH ||
+                    !convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i])) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
             }
-
-            convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i]);
         }
 
         memory_internal_free(entitled_ta_ids);
@@ -542,7 +552,6 @@ static sa_status unwrap_key_v1(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("Invalid contentKey");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -655,7 +664,6 @@ static sa_status unwrap_key_v2(
         content_key = memory_internal_alloc(content_key_size);
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("json_key_value_find failed");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -699,7 +707,6 @@ static sa_status unwrap_key_v2(
             iv = memory_internal_alloc(iv_size);
             if (!b64_decode(iv, &iv_size, iv_b64, iv_b64_size, false) || iv_size != SYM_128_KEY_SIZE) {
                 ERROR("Invalid contentKeyTransportIv");
-                memory_secure_free(iv);
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
-- 
2.43.0


From e4ee3f4b2dcbf075fe6f127ea279313dffad6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 19/66] fix: SoC key containers: exact field lengths, types and
 values

---
 .../taimpl/src/internal/soc_key_container.c   | 195 ++++++++++++------
 1 file changed, 128 insertions(+), 67 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 9608297..8482340 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -111,6 +111,10 @@ static soc_kc_unpacked_t* unpack_soc_kc(
     soc_kc_unpacked_t* unpacked = NULL;
     do {
         unpacked = soc_kc_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("soc_kc_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
@@ -265,8 +269,11 @@ static sa_status fields_to_rights(
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
-                    &rights->allowed_tas[i]);
+            if (!convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
+                        &rights->allowed_tas[i])) {
+                ERROR("convert_uuid failed");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
         }
     }
 
@@ -304,6 +311,43 @@ static sa_status parse_header(
     return SA_STATUS_OK;
 }
 
+static bool string_equals(
+        const char* string,
+        size_t string_length,
+        const char* expected) {
+    return string != NULL && string_length == strlen(expected) &&
+           memory_memcmp_constant(string, expected, string_length) == 0;
+}
+
+// Decodes a value that must be exactly out_length (at most AES_BLOCK_SIZE) bytes long.
+static bool decode_fixed_length(
+        uint8_t* out,
+        size_t out_length,
+        const json_key_value_t* field,
+        bool url_decode) {
+    size_t b64_length = 0;
+    const char* b64 = json_value_as_string(&b64_length, field->value);
+    if (b64 == NULL) {
+        ERROR("json_value_as_string failed");
+        return false;
+    }
+
+    uint8_t decoded[AES_BLOCK_SIZE + 2];
+    size_t decoded_length = b64_decoded_length(b64_length);
+    if (decoded_length > sizeof(decoded)) {
+        ERROR("Invalid length");
+        return false;
+    }
+
+    if (!b64_decode(decoded, &decoded_length, b64, b64_length, url_decode) || decoded_length != out_length) {
+        ERROR("b64_decode failed");
+        return false;
+    }
+
+    memcpy(out, decoded, out_length);
+    return true;
+}
+
 static sa_status parse_payload(
         json_key_value_t* fields,
         size_t fields_count,
@@ -326,7 +370,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->container_version = json_value_as_integer(container_version_field->value);
+    int64_t container_version = json_value_as_integer(container_version_field->value);
+    if (container_version < SOC_CONTAINER_VERSION || container_version > UINT8_MAX) {
+        ERROR("Invalid container version");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    payload->container_version = container_version;
 
     // read the root key type
     if (payload->container_version >= 5) {
@@ -334,12 +384,12 @@ static sa_status parse_payload(
         if (root_key_type_field == NULL) {
             payload->root_key_type = UNDEFINED;
         } else {
-            size_t root_key_type_length;
+            size_t root_key_type_length = 0;
             const char* root_key_type = json_value_as_string(&root_key_type_length,
                     root_key_type_field->value);
-            if (memory_memcmp_constant(root_key_type, UNIQUE_STR, root_key_type_length) == 0) {
+            if (string_equals(root_key_type, root_key_type_length, UNIQUE_STR)) {
                 payload->root_key_type = UNIQUE;
-            } else if (memory_memcmp_constant(root_key_type, COMMON_STR, root_key_type_length) == 0) {
+            } else if (string_equals(root_key_type, root_key_type_length, COMMON_STR)) {
                 payload->root_key_type = COMMON;
             } else {
                 ERROR("Invalid rootKeyType");
@@ -370,8 +420,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_encrypted_key_length;
+    size_t b64_encrypted_key_length = 0;
     const char* encrypted_key = json_value_as_string(&b64_encrypted_key_length, encrypted_key_field->value);
+    if (encrypted_key == NULL) {
+        ERROR("json_value_as_string failed");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     payload->encrypted_key_length = b64_decoded_length(b64_encrypted_key_length);
     payload->encrypted_key = memory_internal_alloc(payload->encrypted_key_length);
     if (payload->encrypted_key == NULL) {
@@ -382,7 +437,6 @@ static sa_status parse_payload(
     if (!b64_decode(payload->encrypted_key, &payload->encrypted_key_length, encrypted_key, b64_encrypted_key_length,
                 false)) {
         ERROR("b64_decode failed");
-        memory_internal_free(payload->encrypted_key);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -393,11 +447,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_iv_length;
-    const char* iv = json_value_as_string(&b64_iv_length, iv_field->value);
-    size_t iv_length = b64_decoded_length(b64_iv_length);
-    if (!b64_decode(payload->iv, &iv_length, iv, b64_iv_length, false) && iv_length != GCM_IV_LENGTH) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed_length(payload->iv, GCM_IV_LENGTH, iv_field, false)) {
+        ERROR("Invalid iv");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -408,7 +459,13 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->key_usage = json_value_as_integer(key_usage_field->value);
+    int64_t key_usage = json_value_as_integer(key_usage_field->value);
+    if (key_usage < 0 || key_usage > SOC_DATA_AND_KEY) {
+        ERROR("Invalid keyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    payload->key_usage = key_usage;
 
     if (payload->key_usage == KEY_ONLY) {
         // read decrypted key usage
@@ -418,7 +475,13 @@ static sa_status parse_payload(
             // For sake of compatibility,sometimes there is no field of decrypted_key_usage.
             payload->decrypted_key_usage = 0;
         } else {
-            payload->decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+            int64_t decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+            if (decrypted_key_usage < 0 || decrypted_key_usage > SOC_DATA_AND_KEY) {
+                ERROR("Invalid decryptedKeyUsage");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
+
+            payload->decrypted_key_usage = decrypted_key_usage;
         }
     } else {
         payload->decrypted_key_usage = 0;
@@ -431,10 +494,16 @@ static sa_status parse_payload(
         payload->entitled_ta_ids_length = 0;
     } else {
         entitled_ta_ids = json_value_as_array(&payload->entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL || payload->entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
+            memory_internal_free(entitled_ta_ids);
+            ERROR("Invalid entitledTaIds");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
             size_t ta_id_length;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
@@ -453,12 +522,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c1_length;
-    const char* c1 = json_value_as_string(&b64_c1_length, c1_field->value);
-    size_t c1_length = b64_decoded_length(b64_c1_length);
-    if (!b64_decode(payload->key_ladder_inputs.c1, &c1_length, c1, b64_c1_length, false) &&
-            c1_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed_length(payload->key_ladder_inputs.c1, AES_BLOCK_SIZE, c1_field, false)) {
+        ERROR("Invalid c1");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -469,12 +534,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c2_length;
-    const char* c2 = json_value_as_string(&b64_c2_length, c2_field->value);
-    size_t c2_length = b64_decoded_length(b64_c2_length);
-    if (!b64_decode(payload->key_ladder_inputs.c2, &c2_length, c2, b64_c2_length, true) &&
-            c2_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed_length(payload->key_ladder_inputs.c2, AES_BLOCK_SIZE, c2_field, true)) {
+        ERROR("Invalid c2");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -485,12 +546,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c3_length;
-    const char* c3 = json_value_as_string(&b64_c3_length, c3_field->value);
-    size_t c3_length = b64_decoded_length(b64_c3_length);
-    if (!b64_decode(payload->key_ladder_inputs.c3, &c3_length, c3, b64_c3_length, false) &&
-            c3_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
+    if (!decode_fixed_length(payload->key_ladder_inputs.c3, AES_BLOCK_SIZE, c3_field, false)) {
+        ERROR("Invalid c3");
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -564,12 +621,9 @@ static size_t build_aad(
     }
 
     if (payload->key_usage == KEY_ONLY &&
-            (memory_memcmp_constant(payload->key_type_string, "HMAC-128",
-                     payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-160",
-                            payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-256",
-                            payload->key_type_string_length) == 0)) {
+            (string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-128") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-160") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-256"))) {
         ERROR("Invalid key_usage for HMAC key");
         return 0;
     }
@@ -641,97 +695,97 @@ static bool get_key_type_and_size(
         return false;
     }
 
-    if (memory_memcmp_constant(key_type_string, "AES-128", key_type_string_length) == 0) {
+    if (string_equals(key_type_string, key_type_string_length, "AES-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-128", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "AES-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "AES-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "CHACHA20-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "CHACHA20-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = CHACHA20_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-160", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-160")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_160_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-1024", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-1024")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_1024_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-2048", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-2048")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_2048_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-3072", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-3072")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_3072_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-4096", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-4096")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_4096_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P192", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P192")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P192_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P192;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P224", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P224")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P224_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P224;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P256")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P256_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P256;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P384", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P384")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P384_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P384;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P521", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P521")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P521_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P521;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_ED448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED448;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_X25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_X448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
@@ -770,13 +824,6 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    uint8_t aad[MAX_AAD_SIZE];
-    size_t aad_length = build_aad(aad, header, payload);
-    if (aad_length == 0) {
-        ERROR("build_aad failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
-    }
-
     sa_key_type key_type;
     size_t key_size;
     key_subtype subtype;
@@ -787,6 +834,19 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    // a shorter tag would only be verified in part
+    if (unpacked->mac_length != AES_BLOCK_SIZE) {
+        ERROR("Invalid mac_length");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    uint8_t aad[MAX_AAD_SIZE];
+    size_t aad_length = build_aad(aad, header, payload);
+    if (aad_length == 0) {
+        ERROR("build_aad failed");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     void* key = NULL;
     sa_status status;
     do {
@@ -832,6 +892,7 @@ static sa_status decrypt_key_and_verify_mac(
             size_t ec_key_size = ec_validate_private(curve, key, payload->encrypted_key_length);
             if (ec_key_size == 0) {
                 ERROR("Invalid key size");
+                status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
 
@@ -894,7 +955,7 @@ sa_status soc_kc_unwrap(
     soc_kc_header_t header;
     soc_kc_payload_t payload;
 
-    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_unpacked_t));
+    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_payload_t));
     sa_status status = SA_STATUS_INVALID_KEY_FORMAT;
     do {
         unpacked = unpack_soc_kc(in, in_length);
-- 
2.43.0


From 45d9310ef609a6cbc50c8e770c6ca192f07abc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 20/66] fix: RSA key generation refuses sizes that are not
 supported

---
 reference/src/taimpl/src/internal/rsa.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index c161209..ae68f71 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -18,6 +18,7 @@
 
 #include "rsa.h" // NOLINT
 #include "digest_util.h"
+#include "key_type.h"
 #include "log.h"
 #include "pkcs8.h"
 #include "porting/memory.h"
@@ -598,6 +599,11 @@ sa_status rsa_generate_key(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (!key_type_supports_rsa(SA_KEY_TYPE_RSA, parameters->modulus_length)) {
+        ERROR("Invalid modulus_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status = SA_STATUS_INTERNAL_ERROR;
     uint8_t* key = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From 2504bd7c43c9295809286c19b17984029d9e405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 21/66] fix: TA command handlers validate parameter types and
 sizes

---
 reference/src/taimpl/src/internal/ta.c | 147 ++++++++++++++++++++++++-
 1 file changed, 142 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 647187e..92ea59a 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -358,7 +358,13 @@ static sa_status ta_invoke_key_import(
                     return SA_STATUS_NULL_PARAMETER;
                 }
 
-                memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
+                // The structure can be extended by the SoC vendor.
+                if (params[2].mem_ref_size < sizeof(sa_import_parameters_soc)) {
+                    ERROR("params[2].mem_ref_size is invalid");
+                    return SA_STATUS_INVALID_PARAMETER;
+                }
+
+                memcpy(&parameters_soc, params[2].mem_ref, sizeof(sa_import_parameters_soc));
                 parameters = &parameters_soc;
             }
 
@@ -397,6 +403,12 @@ static sa_status ta_invoke_key_provision(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    // The parameters of the other key formats are not those of a provisioning command.
+    if (key_provision_ta->key_format != SA_KEY_FORMAT_PROVISION_TA) {
+        ERROR("Invalid key_format");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_import_parameters_soc parameters_soc;
     void* parameters = NULL;
     if (CHECK_TA_PARAM_IN(param_types[2])) {
@@ -405,11 +417,36 @@ static sa_status ta_invoke_key_provision(
             return SA_STATUS_NULL_PARAMETER;
         }
 
-         memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
+         // The structure can be extended by the SoC vendor.
+         if (params[2].mem_ref_size < sizeof(sa_import_parameters_soc)) {
+             ERROR("params[2].mem_ref_size is invalid");
+             return SA_STATUS_INVALID_PARAMETER;
+         }
+
+         memcpy(&parameters_soc, params[2].mem_ref, sizeof(sa_import_parameters_soc));
          parameters = &parameters_soc;
      }
     
-     sa_key_type_ta ta_key_type = *(int*)(params[3].mem_ref);
+     if (CHECK_NOT_TA_PARAM_IN(param_types[3]) || params[3].mem_ref == NULL) {
+         ERROR("NULL params[3].mem_ref");
+         return SA_STATUS_NULL_PARAMETER;
+     }
+
+     int ta_key_type_value;
+     if (params[3].mem_ref_size != sizeof(ta_key_type_value)) {
+         ERROR("params[3].mem_ref_size is invalid");
+         return SA_STATUS_INVALID_PARAMETER;
+     }
+
+     memcpy(&ta_key_type_value, params[3].mem_ref, sizeof(ta_key_type_value));
+     sa_key_type_ta ta_key_type = ta_key_type_value;
+
+     if ((ta_key_type == WIDEVINE_OEM_PROVISIONING && params[1].mem_ref_size < sizeof(WidevineOemProvisioning)) ||
+         (ta_key_type == PLAYREADY_MODEL_PROVISIONING && params[1].mem_ref_size < sizeof(PlayReadyProvisioning)) ||
+         (ta_key_type == NETFLIX_PROVISIONING && params[1].mem_ref_size < sizeof(NetflixProvisioning))) {
+         ERROR("params[1].mem_ref_size is invalid");
+         return SA_STATUS_INVALID_PARAMETER;
+     }
 
      void   *in = NULL;
      size_t in_length = 0;
@@ -764,6 +801,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(parameters_root_key_ladder_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_root_key_ladder_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_root_key_ladder.c1 = parameters_root_key_ladder_s.c1;
             parameters_root_key_ladder.c1_length = AES_BLOCK_SIZE;
@@ -783,6 +825,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref and params[3].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(parameters_hkdf_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_hkdf_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_hkdf.key_length = parameters_hkdf_s.key_length;
             parameters_hkdf.digest_algorithm = parameters_hkdf_s.digest_algorithm;
@@ -801,6 +848,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(parameters_concat_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_concat_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_concat.key_length = parameters_concat_s.key_length;
             parameters_concat.digest_algorithm = parameters_concat_s.digest_algorithm;
@@ -817,6 +869,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(parameters_ansi_x963_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_ansi_x963_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_ansi_x963.key_length = parameters_ansi_x963_s.key_length;
             parameters_ansi_x963.digest_algorithm = parameters_ansi_x963_s.digest_algorithm;
@@ -833,6 +890,11 @@ static sa_status ta_invoke_key_derive(
             }
 
             // params[2].mem_ref can be null.
+            if (params[1].mem_ref_size != sizeof(parameters_cmac_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_cmac_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_cmac.key_length = parameters_cmac_s.key_length;
             parameters_cmac.counter = parameters_cmac_s.counter;
@@ -848,6 +910,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(parameters_netflix)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_netflix, params[1].mem_ref, params[1].mem_ref_size);
             algorithm_parameters = &parameters_netflix;
             break;
@@ -1221,7 +1288,8 @@ static sa_status ta_invoke_crypto_cipher_process(
 
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) ||
             params[0].mem_ref_size != sizeof(sa_crypto_cipher_process_s) ||
-            (CHECK_TA_PARAM_INOUT(param_types[1]) && CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
+            (CHECK_NOT_TA_PARAM_OUT(param_types[1]) && CHECK_NOT_TA_PARAM_IN(param_types[1]) &&
+                    CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
             CHECK_NOT_TA_PARAM_IN(param_types[2]) ||
             (CHECK_NOT_TA_PARAM_INOUT(param_types[3]) &&
                     CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
@@ -1240,6 +1308,24 @@ static sa_status ta_invoke_crypto_cipher_process(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    // A clear output buffer is an OUT parameter and an SVP buffer handle is an IN parameter.
+    if (crypto_cipher_process->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
+        if (CHECK_TA_PARAM_IN(param_types[1])) {
+            ERROR("Invalid params[1] type");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+    } else if (CHECK_NOT_TA_PARAM_IN(param_types[1]) || params[1].mem_ref == NULL ||
+               params[1].mem_ref_size != sizeof(sa_svp_buffer)) {
+        ERROR("Invalid params[1]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (crypto_cipher_process->in_buffer_type != SA_BUFFER_TYPE_CLEAR &&
+            params[2].mem_ref_size != sizeof(sa_svp_buffer)) {
+        ERROR("Invalid params[2].mem_ref_size");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_buffer out;
     out.buffer_type = crypto_cipher_process->out_buffer_type;
     if (crypto_cipher_process->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
@@ -1631,6 +1717,11 @@ static sa_status ta_invoke_svp_buffer_write(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (params[2].mem_ref_size % sizeof(sa_svp_offset_s) != 0) {
+        ERROR("Invalid params[2].mem_ref_size");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status;
     sa_svp_offset* offsets;
     do {
@@ -1685,6 +1776,11 @@ static sa_status ta_invoke_svp_buffer_copy(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (params[1].mem_ref_size % sizeof(sa_svp_offset_s) != 0) {
+        ERROR("Invalid params[1].mem_ref_size");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status;
     sa_svp_offset* offsets;
     do {
@@ -1739,6 +1835,11 @@ static sa_status ta_invoke_svp_key_check(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (svp_key_check->in_buffer_type != SA_BUFFER_TYPE_CLEAR && params[1].mem_ref_size != sizeof(sa_svp_buffer)) {
+        ERROR("Invalid params[1].mem_ref_size");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_buffer in;
     in.buffer_type = svp_key_check->in_buffer_type;
     if (svp_key_check->in_buffer_type == SA_BUFFER_TYPE_CLEAR) {
@@ -1825,11 +1926,29 @@ static sa_status ta_invoke_process_common_encryption(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    // A clear output buffer is an OUT parameter and an SVP buffer handle is an IN parameter.
+    if (process_common_encryption->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
+        if (CHECK_NOT_TA_PARAM_OUT(param_types[2])) {
+            ERROR("Invalid params[2] type");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+    } else if (CHECK_NOT_TA_PARAM_IN(param_types[2]) || params[2].mem_ref_size != sizeof(sa_svp_buffer)) {
+        ERROR("Invalid params[2]");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    if (process_common_encryption->in_buffer_type != SA_BUFFER_TYPE_CLEAR &&
+            params[3].mem_ref_size != sizeof(sa_svp_buffer)) {
+        ERROR("Invalid params[3].mem_ref_size");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status;
     sa_sample sample;
     do {
         sample.subsample_count = process_common_encryption->subsample_count;
-        if (params[1].mem_ref_size != sizeof(sa_subsample_length) * sample.subsample_count) {
+        if (params[1].mem_ref_size % sizeof(sa_subsample_length_s) != 0 ||
+                params[1].mem_ref_size / sizeof(sa_subsample_length_s) != sample.subsample_count) {
             ERROR("params[1].mem_ref_size is invalid");
             return SA_STATUS_INVALID_PARAMETER;
         }
@@ -1930,6 +2049,24 @@ sa_status ta_invoke_command_handler(
             break;
         }
 
+        if (CHECK_NOT_TA_PARAM_IN(param_types[0]) && CHECK_NOT_TA_PARAM_INOUT(param_types[0])) {
+            ERROR("Invalid command parameter type");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
+        bool null_parameter = false;
+        for (size_t i = 0; i < NUM_TA_PARAMS; i++) {
+            if (params[i].mem_ref == NULL && params[i].mem_ref_size != 0)
+                null_parameter = true;
+        }
+
+        if (null_parameter) {
+            ERROR("NULL mem_ref");
+            status = SA_STATUS_NULL_PARAMETER;
+            break;
+        }
+
         // Cache the command parameter to prevent Time-of-use Time-of-check errors.
         command_parameter = memory_secure_alloc(params[0].mem_ref_size);
         if (command_parameter == NULL) {
-- 
2.43.0


From f816ba5974aa6e5fb2302599a15d0cb138c9459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 22/66] fix: JSON parser reports a value it could not keep

---
 reference/src/taimpl/src/internal/json.c      | 69 ++++++++++---------
 reference/src/taimpl/src/internal/key_store.c |  6 +-
 2 files changed, 42 insertions(+), 33 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index 48270fc..0f0cbcf 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -419,7 +419,7 @@ static json_stack_t* json_parse_context_push(
     return context->stack;
 }
 
-static void json_parse_context_set_value(
+static bool json_parse_context_set_value(
         json_parse_context_t* context,
         json_value_t* value) {
     do {
@@ -430,7 +430,7 @@ static void json_parse_context_set_value(
 
         if (context->stack == NULL) {
             json_parse_context_set_root(context, value);
-            return;
+            return true;
         }
 
         // stack exists, but no value set. should never get here
@@ -448,7 +448,7 @@ static void json_parse_context_set_value(
             }
 
             json_map_set_value(obj, value);
-            return;
+            return true;
         }
 
         // array
@@ -459,8 +459,12 @@ static void json_parse_context_set_value(
                 break;
             }
 
-            json_array_add(arr, value);
-            return;
+            if (json_array_add(arr, value) == NULL) {
+                ERROR("json_array_add failed");
+                break;
+            }
+
+            return true;
         }
 
         ERROR("Invalid context stack state detected");
@@ -468,26 +472,25 @@ static void json_parse_context_set_value(
 
     // since an error was detected, free the val
     json_value_free(value);
+    return false;
 }
 
-static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
+static bool json_parse_context_pop(json_parse_context_t* context) {
     if (context == NULL) {
         ERROR("NULL context");
-        return NULL;
+        return false;
     }
 
     if (context->stack == NULL) {
         ERROR("NULL stack");
-        return NULL;
+        return false;
     }
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
     context->depth--;
 
-    json_parse_context_set_value(context, value);
-
-    return context->stack;
+    return json_parse_context_set_value(context, value);
 }
 
 static char* string_new(
@@ -690,9 +693,7 @@ static int bool_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 static int double_callback(
@@ -706,9 +707,7 @@ static int double_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -728,17 +727,13 @@ static int integer_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 static int null_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
 
-    json_parse_context_set_value(session, NULL);
-
-    return 1;
+    return json_parse_context_set_value(session, NULL) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -761,9 +756,7 @@ static int string_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -811,7 +804,13 @@ static int map_key_callback(
         return 0;
     }
 
-    json_map_set_key(new_key_value, string_new(key, key_length), key_length);
+    char* new_key = string_new(key, key_length);
+    if (new_key == NULL) {
+        ERROR("string_new failed");
+        return 0;
+    }
+
+    json_map_set_key(new_key_value, new_key, key_length);
 
     return 1;
 }
@@ -837,8 +836,7 @@ static int start_map_callback(void* context) {
 
 static int end_map_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
-    return 1;
+    return json_parse_context_pop(session) ? 1 : 0;
 }
 
 static int start_array_callback(void* context) {
@@ -862,8 +860,7 @@ static int start_array_callback(void* context) {
 
 static int end_array_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
-    return 1;
+    return json_parse_context_pop(session) ? 1 : 0;
 }
 
 json_value_t* json_parse_bytes(
@@ -997,6 +994,11 @@ json_value_t** json_value_as_array(
     size_t size = json_array_size(array_payload);
 
     json_value_t** values_array = memory_internal_alloc(sizeof(json_value_t*) * size);
+    if (values_array == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         array_payload = array_payload->next;
         values_array[i] = array_payload->value;
@@ -1032,6 +1034,11 @@ json_key_value_t* json_value_as_map(
     size_t size = json_map_size(map_payload);
 
     json_key_value_t* map_key_values = memory_internal_alloc(sizeof(json_key_value_t) * size);
+    if (map_key_values == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         map_payload = map_payload->next;
         map_key_values[i].key = map_payload->key;
diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 88d2535..23e0f39 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -253,8 +253,10 @@ static void wrapped_key_free(void* obj) {
 
     wrapped_key_t* wrapped_key = (wrapped_key_t*) obj;
 
-    memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
-    memory_secure_free(wrapped_key->ciphertext);
+    if (wrapped_key->ciphertext != NULL) {
+        memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
+        memory_secure_free(wrapped_key->ciphertext);
+    }
 
     memory_memset_unoptimizable(wrapped_key, 0, sizeof(wrapped_key_t));
     memory_secure_free(wrapped_key);
-- 
2.43.0


From c13c6f8fbbe8560d8252b9538d7b0772cc3ede30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:41 +0000
Subject: [PATCH 23/66] fix: OAEP cipher_init leaves no context behind when the
 label cannot be copied

---
 reference/src/taimpl/src/internal/cipher_store.c    | 2 ++
 reference/src/taimpl/src/ta_sa_crypto_cipher_init.c | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/cipher_store.c b/reference/src/taimpl/src/internal/cipher_store.c
index bbe2afc..7ae39dc 100644
--- a/reference/src/taimpl/src/internal/cipher_store.c
+++ b/reference/src/taimpl/src/internal/cipher_store.c
@@ -119,6 +119,8 @@ sa_status cipher_set_oaep_parameters(
     if (label != NULL) {
         cipher->oaep_label = memory_secure_alloc(label_length);
         if (cipher->oaep_label == NULL) {
+            // Let the caller free the stored_key, since it won't hand over its ownership.
+            cipher->stored_key = NULL;
             ERROR("memory_secure_alloc failed");
             return SA_STATUS_INTERNAL_ERROR;
         }
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index 87aed5f..e2f92f0 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -801,9 +801,15 @@ static sa_status ta_sa_crypto_cipher_init_rsa_oaep(
         }
     } while (false);
 
-    if (cipher != NULL)
+    if (cipher != NULL) {
         cipher_store_release_exclusive(cipher_store, *context, cipher, caller_uuid);
 
+        if (status != SA_STATUS_OK) {
+            cipher_store_remove(cipher_store, *context, caller_uuid);
+            *context = INVALID_HANDLE;
+        }
+    }
+
     return status;
 }
 
-- 
2.43.0


From 2b7d45ecce8cef69b016eb8aeb265e9c6620a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:07 +0000
Subject: [PATCH 24/66] fix: key provisioning leaves no key behind

---
 reference/src/clientimpl/src/sa_key_provision.c | 2 +-
 reference/src/taimpl/src/internal/ta.c          | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_key_provision.c b/reference/src/clientimpl/src/sa_key_provision.c
index 74f808e..ba3d10d 100644
--- a/reference/src/clientimpl/src/sa_key_provision.c
+++ b/reference/src/clientimpl/src/sa_key_provision.c
@@ -99,7 +99,7 @@ sa_status sa_key_provision_ta (
     } while (false);
 
     // ATTENTION: If you dont release the key, you will get resource leaked.
-    if (INVALID_HANDLE != key_provision_ta->key) {
+    if (NULL != key_provision_ta && INVALID_HANDLE != key_provision_ta->key) {
         sa_key_release(key_provision_ta->key);
     }
     RELEASE_COMMAND(key_provision_ta);
diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 92ea59a..cf2ece5 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -542,6 +542,13 @@ static sa_status ta_invoke_key_provision(
 	        in_wrapping_key,in_wrapping_key_length,parameters, context->client, uuid);
     }
     INFO("key_provision_ta->key: %d, 0x%x", key_provision_ta->key, &key_provision_ta->key);
+
+    // The key is delivered to another TA and isn't kept. The REE may be unable to release it.
+    if (SA_STATUS_OK == status && INVALID_HANDLE != key_provision_ta->key) {
+        status = ta_sa_key_release(key_provision_ta->key, context->client, uuid);
+        key_provision_ta->key = INVALID_HANDLE;
+    }
+
     return status;
 }
 
-- 
2.43.0


From 9cd230740621195f8175339f08792742a7ed63e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 25/66] fix: sa_get_name reports the length of the name

---
 reference/src/taimpl/src/ta_sa_get_name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/ta_sa_get_name.c b/reference/src/taimpl/src/ta_sa_get_name.c
index 1593b6f..4ad513c 100644
--- a/reference/src/taimpl/src/ta_sa_get_name.c
+++ b/reference/src/taimpl/src/ta_sa_get_name.c
@@ -52,6 +52,7 @@ sa_status ta_sa_get_name(
     }
 
     memcpy(name, implementation_name, required_length);
+    *name_length = required_length;
 
     return SA_STATUS_OK;
 }
-- 
2.43.0


From 3a1b2b332d134862929eadfaa576767289397221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 26/66] fix: sa_key_export length query whatever *out_length
 holds

---
 reference/src/clientimpl/src/sa_key_export.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/reference/src/clientimpl/src/sa_key_export.c b/reference/src/clientimpl/src/sa_key_export.c
index 1108767..c036d17 100644
--- a/reference/src/clientimpl/src/sa_key_export.c
+++ b/reference/src/clientimpl/src/sa_key_export.c
@@ -34,11 +34,6 @@ sa_status sa_key_export(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    if (out == NULL && *out_length > 0) {
-        ERROR("NULL out");
-        return SA_STATUS_NULL_PARAMETER;
-    }
-
     if (mixin == NULL && mixin_length > 0) {
         ERROR("NULL mixin");
         return SA_STATUS_NULL_PARAMETER;
-- 
2.43.0


From 754250ad8f71675b7666997898774acc83cbcd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 27/66] fix: common encryption refuses a context whose last
 chunk was processed

---
 reference/src/taimpl/include/internal/symmetric.h        | 8 ++++++++
 reference/src/taimpl/src/internal/symmetric.c            | 9 +++++++++
 .../src/taimpl/src/ta_sa_process_common_encryption.c     | 6 ++++++
 3 files changed, 23 insertions(+)

diff --git a/reference/src/taimpl/include/internal/symmetric.h b/reference/src/taimpl/include/internal/symmetric.h
index 0de5976..ade2bc2 100644
--- a/reference/src/taimpl/include/internal/symmetric.h
+++ b/reference/src/taimpl/include/internal/symmetric.h
@@ -315,6 +315,14 @@ sa_status symmetric_context_decrypt_last(
         const void* in,
         size_t in_length);
 
+/**
+ * Tells if the last chunk of data has already been processed with the context.
+ *
+ * @param[in] context symmetric context.
+ * @return true if the last chunk has been processed.
+ */
+bool symmetric_context_is_finalized(const symmetric_context_t* context);
+
 /**
  * Set the AES context IV to a new value.
  *
diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index ce7f469..5d83aa8 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -1510,6 +1510,15 @@ sa_status symmetric_context_decrypt_last(
     return SA_STATUS_OK;
 }
 
+bool symmetric_context_is_finalized(const symmetric_context_t* context) {
+    if (context == NULL) {
+        ERROR("NULL context");
+        return false;
+    }
+
+    return context->finalized;
+}
+
 sa_status symmetric_context_set_iv(
         symmetric_context_t* context,
         const void* iv,
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 449b84f..3b2777f 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -114,6 +114,12 @@ static sa_status verify_sample(
             break;
         }
 
+        if (symmetric_context_is_finalized(cipher_get_symmetric_context(cipher))) {
+            ERROR("Last data chunk has already been processed");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         if (sample->out->buffer_type == SA_BUFFER_TYPE_CLEAR && sample->in->buffer_type != sample->out->buffer_type) {
             ERROR("buffer_type mismatch");
             status = SA_STATUS_INVALID_PARAMETER;
-- 
2.43.0


From ba803336b9c410e30b45967aea2a576c4e440456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 28/66] fix: client session is read under its lock

---
 reference/src/clientimpl/src/internal/client.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/reference/src/clientimpl/src/internal/client.c b/reference/src/clientimpl/src/internal/client.c
index 1c6e8c7..d6fb807 100644
--- a/reference/src/clientimpl/src/internal/client.c
+++ b/reference/src/clientimpl/src/internal/client.c
@@ -51,10 +51,6 @@ static void client_create() {
 }
 
 void* client_session() {
-    if (session != NULL) {
-        return session;
-    }
-
     call_once(&mutex_flag, client_mutex_create);
 
     if (mtx_lock(&mutex) != thrd_success) {
@@ -79,9 +75,10 @@ void* client_session() {
         call_once(&shutdown_flag, client_create);
     } while (false);
 
+    void* current_session = session;
     if (mtx_unlock(&mutex) != thrd_success) {
         ERROR("mtx_unlock failed");
     }
 
-    return session;
+    return current_session;
 }
-- 
2.43.0


From fcc670ccd29aa544bd491a24bdb1b391ea4758f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:04 +0000
Subject: [PATCH 29/66] fix: global client store is read under its lock

---
 reference/src/taimpl/src/internal/client_store.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/reference/src/taimpl/src/internal/client_store.c b/reference/src/taimpl/src/internal/client_store.c
index 39a749e..bab1911 100644
--- a/reference/src/taimpl/src/internal/client_store.c
+++ b/reference/src/taimpl/src/internal/client_store.c
@@ -182,12 +182,8 @@ static void client_store_global_create() {
 client_store_t* client_store_global() {
     static client_store_t* global = NULL;
 
-    if (global != NULL) {
-        if (global_shutdown)
-            return NULL;
-
-        return global;
-    }
+    if (global_shutdown)
+        return NULL;
 
     call_once(&flag, client_store_global_create);
 
@@ -209,11 +205,12 @@ client_store_t* client_store_global() {
         }
     } while (false);
 
+    client_store_t* store = global;
     if (mtx_unlock(&mutex) != thrd_success) {
         ERROR("mtx_unlock failed");
     }
 
-    return global;
+    return store;
 }
 
 sa_status client_store_add(
-- 
2.43.0


From cc88fa18f2e4b6bc9f1a89742701c43fecef2be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:37 +0000
Subject: [PATCH 30/66] fix: OpenSSL allocator is set once

---
 reference/src/taimpl/src/ta_sa_init.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_init.c b/reference/src/taimpl/src/ta_sa_init.c
index 1897023..c88b572 100644
--- a/reference/src/taimpl/src/ta_sa_init.c
+++ b/reference/src/taimpl/src/ta_sa_init.c
@@ -20,16 +20,14 @@
 #include "log.h"
 #include "porting/init.h"
 #include "ta_sa.h"
+#include <threads.h>
 
 sa_status ta_sa_init(
         ta_client* client_slot,
         const sa_uuid* caller_uuid) {
 
-    static bool openssl_allocator_inited = false;
-    if (!openssl_allocator_inited) {
-        openssl_allocator_inited = true;
-        init_openssl_allocator();
-    }
+    static once_flag openssl_allocator_flag = ONCE_FLAG_INIT;
+    call_once(&openssl_allocator_flag, init_openssl_allocator);
 
     if (client_slot == NULL) {
         ERROR("NULL client_slot");
-- 
2.43.0


From a31f2e12d0ec54e96120667def2754802880f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:03 +0000
Subject: [PATCH 31/66] fix: root keys are loaded under a lock

---
 reference/src/taimpl/src/porting/otp.c | 123 ++++++++++++++++++-------
 1 file changed, 89 insertions(+), 34 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 98a283d..8b2bbc7 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -27,6 +27,7 @@
 #include <ctype.h>
 #include <openssl/evp.h>
 #include <openssl/x509.h>
+#include <threads.h>
 #if OPENSSL_VERSION_NUMBER < 0x30000000
 #include <memory.h>
 #endif
@@ -34,6 +35,32 @@
 #define MAX_DEVICE_NAME_LENGTH 16
 
 static uint64_t device_id;
+static once_flag flag = ONCE_FLAG_INIT;
+// protects the keys and the device ID, which are loaded by the first call that needs them
+static mtx_t mutex;
+
+static void otp_mutex_create() {
+    if (mtx_init(&mutex, mtx_recursive) != thrd_success) {
+        ERROR("mtx_init failed");
+    }
+}
+
+static bool otp_lock() {
+    call_once(&flag, otp_mutex_create);
+
+    if (mtx_lock(&mutex) != thrd_success) {
+        ERROR("mtx_lock failed");
+        return false;
+    }
+
+    return true;
+}
+
+static void otp_unlock() {
+    if (mtx_unlock(&mutex) != thrd_success) {
+        ERROR("mtx_unlock failed");
+    }
+}
 
 static uint64_t convert_str_to_int(
         const char* str,
@@ -80,30 +107,41 @@ static bool get_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char device_name[MAX_DEVICE_NAME_LENGTH];
-        size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
-        device_name[0] = '\0';
-        if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
+    if (!otp_lock()) {
+        ERROR("otp_lock failed");
+        return false;
+    }
+
+    bool status = false;
+    do {
+        if (key_length == 0) {
+            char device_name[MAX_DEVICE_NAME_LENGTH];
+            size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
+            device_name[0] = '\0';
+            if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
+                ERROR("load_pkcs12_secret_key failed");
+                break;
+            }
+
+            device_id = convert_str_to_int(device_name, device_name_length);
+            if (device_id == 0) {
+                ERROR("Invalid device ID in keystore");
+                break;
+            }
         }
 
-        device_id = convert_str_to_int(device_name, device_name_length);
-        if (device_id == 0) {
-            ERROR("Invalid device ID in keystore");
-            return false;
+        if (*root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
         }
-    }
 
-    if (*root_key_length < key_length) {
-        ERROR("root key too short");
-        return false;
-    }
+        memcpy(root_key, key, key_length);
+        *root_key_length = key_length;
+        status = true;
+    } while (false);
 
-    memcpy(root_key, key, key_length);
-    *root_key_length = key_length;
-    return true;
+    otp_unlock();
+    return status;
 }
 
 static bool get_common_root_key(
@@ -122,24 +160,35 @@ static bool get_common_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char name[MAX_NAME_SIZE];
-        size_t name_length = MAX_NAME_SIZE;
-        strcpy(name, COMMON_ROOT_NAME);
-        if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
-        }
-    }
-
-    if (*common_root_key_length < key_length) {
-        ERROR("root key too short");
+    if (!otp_lock()) {
+        ERROR("otp_lock failed");
         return false;
     }
 
-    memcpy(common_root_key, key, key_length);
-    *common_root_key_length = key_length;
-    return true;
+    bool status = false;
+    do {
+        if (key_length == 0) {
+            char name[MAX_NAME_SIZE];
+            size_t name_length = MAX_NAME_SIZE;
+            strcpy(name, COMMON_ROOT_NAME);
+            if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
+                ERROR("load_pkcs12_secret_key failed");
+                break;
+            }
+        }
+
+        if (*common_root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
+        }
+
+        memcpy(common_root_key, key, key_length);
+        *common_root_key_length = key_length;
+        status = true;
+    } while (false);
+
+    otp_unlock();
+    return status;
 }
 
 static sa_status wrap_aes_cbc(
@@ -636,10 +685,16 @@ sa_status otp_device_id(uint64_t* id) {
     // If not initialized yet, attempt to set the device id and ignore the result.
     uint8_t root_key[SYM_256_KEY_SIZE];
     size_t root_key_length = SYM_256_KEY_SIZE;
+    if (!otp_lock()) {
+        ERROR("otp_lock failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
     if (device_id == 0)
         get_root_key(root_key, &root_key_length);
 
     *id = device_id;
+    otp_unlock();
     return SA_STATUS_OK;
 }
 
-- 
2.43.0


From 33936e4acdebbd8d37d942c0f1176cbbde41b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 32/66] fix: SVP buffer being released cannot be used

---
 reference/src/taimpl/src/internal/svp_store.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index bc04ffe..6c95202 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -232,7 +232,8 @@ sa_status svp_store_release(
 
     if (!svp_release_buffer(svp_memory, size, svp->buffer)) {
         ERROR("svp_release_buffer failed");
-        return status;
+        svp_store_release_exclusive(store, svp_buffer, svp, caller_uuid);
+        return SA_STATUS_INVALID_PARAMETER;
     }
 
     svp->buffer = NULL;
@@ -291,6 +292,14 @@ sa_status svp_store_acquire_exclusive(
         return SA_STATUS_INTERNAL_ERROR;
     }
 
+    if ((*svp)->buffer == NULL) {
+        // someone released the buffer underneath us
+        ERROR("svp buffer has been released");
+        svp_store_release_exclusive(store, svp_buffer, *svp, caller_uuid);
+        *svp = NULL;
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     return SA_STATUS_OK;
 }
 
-- 
2.43.0


From ce0e52ba9c777ce474bd0b962a822b6ab8d22fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 33/66] fix: SVP buffers are locked in handle order

---
 .../src/taimpl/include/internal/buffer.h      | 28 +++++++++++
 reference/src/taimpl/src/internal/buffer.c    | 49 +++++++++++++++++++
 reference/src/taimpl/src/internal/cenc.c      | 11 ++---
 .../taimpl/src/ta_sa_crypto_cipher_process.c  | 11 ++---
 .../src/ta_sa_crypto_cipher_process_last.c    | 11 ++---
 .../src/ta_sa_process_common_encryption.c     | 12 ++---
 .../src/taimpl/src/ta_sa_svp_buffer_copy.c    |  9 +++-
 7 files changed, 96 insertions(+), 35 deletions(-)

diff --git a/reference/src/taimpl/include/internal/buffer.h b/reference/src/taimpl/include/internal/buffer.h
index f1239fd..f837d39 100644
--- a/reference/src/taimpl/include/internal/buffer.h
+++ b/reference/src/taimpl/include/internal/buffer.h
@@ -52,6 +52,34 @@ sa_status convert_buffer(
         const client_t* client,
         const sa_uuid* caller_uuid);
 
+/**
+ * Converts an output and an input sa_buffer into bytes and checks the parameters for validity. When both are SVP buffers,
+ * they are acquired in the order of their handles, so that calls using the same two buffers can't wait for each other.
+ *
+ * @param[out] out_bytes the array of output bytes.
+ * @param[out] out_svp the output svp object.
+ * @param[in] out the output buffer to convert.
+ * @param[in] out_length the number of bytes that will be written to the output buffer.
+ * @param[out] in_bytes the array of input bytes.
+ * @param[out] in_svp the input svp object.
+ * @param[in] in the input buffer to convert.
+ * @param[in] in_length the number of bytes that will be read from the input buffer.
+ * @param[in] client the client from which to retrieve the SVP store.
+ * @param[in] caller_uuid the UUID of the caller.
+ * @return the status of the validity check.
+ */
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/reference/src/taimpl/src/internal/buffer.c b/reference/src/taimpl/src/internal/buffer.c
index 159f755..14d50c0 100644
--- a/reference/src/taimpl/src/internal/buffer.c
+++ b/reference/src/taimpl/src/internal/buffer.c
@@ -119,3 +119,52 @@ sa_status convert_buffer(
 
     return SA_STATUS_OK;
 }
+
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_length,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_length,
+        const client_t* client,
+        const sa_uuid* caller_uuid) {
+
+    if (out == NULL) {
+        ERROR("NULL out");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    if (in == NULL) {
+        ERROR("NULL in");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    bool in_first = out->buffer_type == SA_BUFFER_TYPE_SVP && in->buffer_type == SA_BUFFER_TYPE_SVP &&
+                    in->context.svp.buffer < out->context.svp.buffer;
+    if (in_first) {
+        sa_status status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+        if (status != SA_STATUS_OK) {
+            ERROR("convert_buffer failed");
+            return status;
+        }
+    }
+
+    sa_status status = convert_buffer(out_bytes, out_svp, out, out_length, client, caller_uuid);
+    if (status != SA_STATUS_OK) {
+        ERROR("convert_buffer failed");
+        return status;
+    }
+
+    if (!in_first) {
+        status = convert_buffer(in_bytes, in_svp, in, in_length, client, caller_uuid);
+        if (status != SA_STATUS_OK) {
+            ERROR("convert_buffer failed");
+            return status;
+        }
+    }
+
+    return SA_STATUS_OK;
+}
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 3b8020f..52e72c6 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -182,16 +182,11 @@ sa_status cenc_process_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in, required_length,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index 92f552b..ba942e8 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -470,16 +470,11 @@ sa_status ta_sa_crypto_cipher_process(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index dedef13..0fa0772 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -596,16 +596,11 @@ sa_status ta_sa_crypto_cipher_process_last(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 3b2777f..2754fca 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -141,17 +141,11 @@ static sa_status verify_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
-        // Check in buffer length.
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in, required_length,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
index 9009171..306f33f 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
@@ -52,13 +52,18 @@ sa_status ta_sa_svp_buffer_copy(
         }
 
         svp_store = client_get_svp_store(client);
-        status = svp_store_acquire_exclusive(&out_svp, svp_store, out, caller_uuid);
+        // Acquire the buffers in the order of their handles, so that two copies in opposite directions can't wait for each
+        // other.
+        bool in_first = in < out;
+        status = svp_store_acquire_exclusive(in_first ? &in_svp : &out_svp, svp_store, in_first ? in : out,
+                caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
         }
 
-        status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
+        status = svp_store_acquire_exclusive(in_first ? &out_svp : &in_svp, svp_store, in_first ? out : in,
+                caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
-- 
2.43.0


From 09734cd9e16383bd3233dea39b5c3136ccb17920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:35 +0000
Subject: [PATCH 34/66] fix: a failed Netflix key exchange hands back no
 handles

---
 reference/src/taimpl/src/ta_sa_key_exchange.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_key_exchange.c b/reference/src/taimpl/src/ta_sa_key_exchange.c
index 2e62a67..d760542 100644
--- a/reference/src/taimpl/src/ta_sa_key_exchange.c
+++ b/reference/src/taimpl/src/ta_sa_key_exchange.c
@@ -377,11 +377,13 @@ static sa_status ta_sa_key_exchange_netflix_dh(
         if (*parameters->out_ke != INVALID_HANDLE) {
             key_store_t* key_store = client_get_key_store(client);
             key_store_remove(key_store, *parameters->out_ke, caller_uuid);
+            *parameters->out_ke = INVALID_HANDLE;
         }
 
         if (*parameters->out_kh != INVALID_HANDLE) {
             key_store_t* key_store = client_get_key_store(client);
             key_store_remove(key_store, *parameters->out_kh, caller_uuid);
+            *parameters->out_kh = INVALID_HANDLE;
         }
 
         if (*key != INVALID_HANDLE) {
-- 
2.43.0


From a9f3f5a198c35b6a7a6d00dbf56574e534e9553d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 35/66] fix: malformed keystore contents are refused instead of
 read out of bounds

---
 reference/src/util/src/pkcs12.c | 115 ++++++++++++++++++++++----------
 1 file changed, 81 insertions(+), 34 deletions(-)

diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index f71d4a1..f1c3fa1 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -28,19 +28,74 @@
 #endif
 #endif
 
-static int find_asn1_item_length(const uint8_t* data, int* offset) {
-    int length = 0;
-    if ((data[*offset] & 0x80) == 0x80) {
-        int length_bytes = data[*offset] & 0x7f;
-        for (int i = length_bytes; i > 0; i--) {
-            length = (length << 8) + data[++(*offset)];
+static bool find_asn1_item_length(
+        const uint8_t* data,
+        size_t data_length,
+        size_t* offset,
+        size_t* item_length) {
+    if (*offset >= data_length) {
+        ERROR("Malformed item");
+        return false;
+    }
+
+    size_t length = data[(*offset)++];
+    if ((length & 0x80) == 0x80) {
+        size_t length_bytes = length & 0x7f;
+        if (length_bytes > sizeof(uint32_t) || length_bytes > data_length - *offset) {
+            ERROR("Malformed item length");
+            return false;
+        }
+
+        length = 0;
+        for (size_t i = 0; i < length_bytes; i++) {
+            length = (length << 8) + data[(*offset)++];
         }
-    } else {
-        length = data[*offset];
+    }
+
+    if (length > data_length - *offset) {
+        ERROR("Malformed item length");
+        return false;
+    }
+
+    *item_length = length;
+    return true;
+}
+
+/**
+ * Finds the OCTET STRING holding the data of a DER encoded SecretBag.
+ */
+static bool find_secret_bag_data(
+        const uint8_t* data,
+        size_t data_length,
+        size_t* offset,
+        size_t* secret_data_length) {
+
+    // Find two A0 tags.
+    *offset = 0;
+    size_t item_length = 0;
+    for (int i = 0; i < 2; i++) {
+        while (*offset < data_length && data[*offset] != (V_ASN1_CONTEXT_SPECIFIC | V_ASN1_CONSTRUCTED)) {
+            uint8_t tag = data[(*offset)++] & 0x1f;
+            if (!find_asn1_item_length(data, data_length, offset, &item_length))
+                return false;
+
+            if (tag != V_ASN1_SEQUENCE)
+                *offset += item_length;
+        }
+
+        (*offset)++;
+        if (!find_asn1_item_length(data, data_length, offset, &item_length))
+            return false;
+    }
+
+    // Now read the octet string header.
+    if (*offset >= data_length || data[*offset] != V_ASN1_OCTET_STRING) {
+        ERROR("Malformed secret bag");
+        return false;
     }
 
     (*offset)++;
-    return length;
+    return find_asn1_item_length(data, data_length, offset, secret_data_length);
 }
 
 static int parse_pkcs12_safe_bag(
@@ -85,7 +140,7 @@ static int parse_pkcs12_safe_bag(
 #else
         const ASN1_TYPE* attrib = PKCS12_get_attr_gen(pkcs12_safebag->attrib, NID_friendlyName);
 #endif
-        if (attrib == NULL) {
+        if (attrib == NULL || attrib->type != V_ASN1_BMPSTRING) {
             ERROR("name too short");
             return 0;
         }
@@ -112,35 +167,27 @@ static int parse_pkcs12_safe_bag(
                 break;
             }
 
-            // Find two A0 tags.
-            int offset = 0;
-            for (int i = 0; i < 2; i++) {
-                for (uint8_t tag = secret_bag_data[offset]; tag != (V_ASN1_CONTEXT_SPECIFIC | V_ASN1_CONSTRUCTED);
-                        tag = secret_bag_data[offset]) {
-                    offset++;
-                    int asn1_item_length = find_asn1_item_length(secret_bag_data, &offset);
-                    tag &= 0x1f;
-                    if (tag != V_ASN1_SEQUENCE)
-                        offset += asn1_item_length;
-                }
-
-                offset++;
-                find_asn1_item_length(secret_bag_data, &offset);
-            }
-
-            // Now read the octet string header.
-            if (secret_bag_data[offset] != V_ASN1_OCTET_STRING) {
-                ERROR("Malformed secret bag");
+            size_t offset;
+            size_t secret_data_length;
+            if (!find_secret_bag_data(secret_bag_data, length, &offset, &secret_data_length)) {
+                ERROR("find_secret_bag_data failed");
                 break;
             }
 
-            offset++;
-            int secret_data_length = find_asn1_item_length(secret_bag_data, &offset);
-
             const unsigned char* p_data = secret_bag_data + offset;
             octet_string = ASN1_OCTET_STRING_new();
-            ASN1_OCTET_STRING_set(octet_string, p_data, secret_data_length);
+            if (octet_string == NULL ||
+                    ASN1_OCTET_STRING_set(octet_string, p_data, (int) secret_data_length) != 1) {
+                ERROR("ASN1_OCTET_STRING_set failed");
+                break;
+            }
+
             x509_sig = ASN1_item_unpack(octet_string, ASN1_ITEM_rptr(X509_SIG));
+            if (x509_sig == NULL) {
+                ERROR("NULL x509_sig");
+                break;
+            }
+
             priv_key_info = PKCS8_decrypt(x509_sig, password, -1);
             if (priv_key_info == NULL) {
                 ERROR("NULL priv_key_info");
@@ -225,8 +272,8 @@ bool load_pkcs12_secret_key(
         }
 
         bool pkcs12_parse_failed = false;
-        STACK_OF(PKCS12_SAFEBAG)* pkcs12_safebags = NULL;
         for (int i = 0; !pkcs12_parse_failed && i < sk_PKCS7_num(auth_safes); i++) {
+            STACK_OF(PKCS12_SAFEBAG)* pkcs12_safebags = NULL;
             PKCS7* pkcs7 = sk_PKCS7_value(auth_safes, i);
             int bag_nid = OBJ_obj2nid(pkcs7->type);
 
-- 
2.43.0


From 9b7bdebb98ca1e3b9f56cfdcb9c5313431c26228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 36/66] fix: only the requested keystore entry is loaded,
 within the caller's buffers

---
 reference/src/taimpl/src/porting/otp.c | 10 ++++--
 reference/src/util/src/pkcs12.c        | 50 +++++++++++++++++---------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 8b2bbc7..4450d69 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -118,7 +118,8 @@ static bool get_root_key(
             char device_name[MAX_DEVICE_NAME_LENGTH];
             size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
             device_name[0] = '\0';
-            if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
+            size_t loaded_length = sizeof(key);
+            if (load_pkcs12_secret_key(key, &loaded_length, device_name, &device_name_length) != 1) {
                 ERROR("load_pkcs12_secret_key failed");
                 break;
             }
@@ -128,6 +129,8 @@ static bool get_root_key(
                 ERROR("Invalid device ID in keystore");
                 break;
             }
+
+            key_length = loaded_length;
         }
 
         if (*root_key_length < key_length) {
@@ -171,10 +174,13 @@ static bool get_common_root_key(
             char name[MAX_NAME_SIZE];
             size_t name_length = MAX_NAME_SIZE;
             strcpy(name, COMMON_ROOT_NAME);
-            if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
+            size_t loaded_length = sizeof(key);
+            if (load_pkcs12_secret_key(key, &loaded_length, name, &name_length) != 1) {
                 ERROR("load_pkcs12_secret_key failed");
                 break;
             }
+
+            key_length = loaded_length;
         }
 
         if (*common_root_key_length < key_length) {
diff --git a/reference/src/util/src/pkcs12.c b/reference/src/util/src/pkcs12.c
index f1c3fa1..4087fd7 100644
--- a/reference/src/util/src/pkcs12.c
+++ b/reference/src/util/src/pkcs12.c
@@ -99,8 +99,10 @@ static bool find_secret_bag_data(
 }
 
 static int parse_pkcs12_safe_bag(
+        bool* found,
         PKCS12_SAFEBAG* pkcs12_safebag,
         const char* password,
+        bool requested_common_root,
         void* key,
         size_t* key_length,
         char* name,
@@ -145,12 +147,18 @@ static int parse_pkcs12_safe_bag(
             return 0;
         }
 
-        bag_name_length = ASN1_STRING_to_UTF8(&bag_name, attrib->value.bmpstring);
-        if (bag_name != NULL && bag_name_length > 0 && bag_name_length <= *name_length) {
-            memcpy(name, bag_name, bag_name_length);
-            *name_length = bag_name_length;
-        } else {
-            *name_length = 0;
+        int utf8_length = ASN1_STRING_to_UTF8(&bag_name, attrib->value.bmpstring);
+        if (utf8_length < 0) {
+            ERROR("ASN1_STRING_to_UTF8 failed");
+            break;
+        }
+
+        bag_name_length = utf8_length;
+        bool is_common_root = bag_name_length == strlen(COMMON_ROOT_NAME) &&
+                              memcmp(COMMON_ROOT_NAME, bag_name, bag_name_length) == 0;
+        if (is_common_root != requested_common_root) {
+            result = 1;
+            break;
         }
 
 #if OPENSSL_VERSION_NUMBER >= 0x10100000
@@ -208,8 +216,22 @@ static int parse_pkcs12_safe_bag(
                 break;
             }
 
+            if (secret_key_length < 0 || (size_t) secret_key_length > *key_length) {
+                ERROR("key too short");
+                break;
+            }
+
             memcpy(key, secret_key, secret_key_length);
             *key_length = secret_key_length;
+
+            if (bag_name_length > 0 && bag_name_length <= *name_length) {
+                memcpy(name, bag_name, bag_name_length);
+                *name_length = bag_name_length;
+            } else {
+                *name_length = 0;
+            }
+
+            *found = true;
         } else {
             ERROR("Found keyBag");
             break;
@@ -242,7 +264,8 @@ bool load_pkcs12_secret_key(
         password = DEFAULT_ROOT_KEYSTORE_PASSWORD;
 
     size_t in_name_length = *name_length;
-    bool requested_common_root = strncmp(name, COMMON_ROOT_NAME, in_name_length) == 0;
+    bool requested_common_root = in_name_length >= strlen(COMMON_ROOT_NAME) &&
+                                 strncmp(name, COMMON_ROOT_NAME, in_name_length) == 0;
     bool status = false;
     FILE* file = NULL;
     PKCS12* pkcs12 = NULL;
@@ -272,7 +295,7 @@ bool load_pkcs12_secret_key(
         }
 
         bool pkcs12_parse_failed = false;
-        for (int i = 0; !pkcs12_parse_failed && i < sk_PKCS7_num(auth_safes); i++) {
+        for (int i = 0; !status && !pkcs12_parse_failed && i < sk_PKCS7_num(auth_safes); i++) {
             STACK_OF(PKCS12_SAFEBAG)* pkcs12_safebags = NULL;
             PKCS7* pkcs7 = sk_PKCS7_value(auth_safes, i);
             int bag_nid = OBJ_obj2nid(pkcs7->type);
@@ -286,18 +309,13 @@ bool load_pkcs12_secret_key(
                 pkcs12_parse_failed = true;
             }
 
-            for (int j = 0; !pkcs12_parse_failed && j < sk_PKCS12_SAFEBAG_num(pkcs12_safebags); j++) {
+            for (int j = 0; !status && !pkcs12_parse_failed && j < sk_PKCS12_SAFEBAG_num(pkcs12_safebags); j++) {
                 PKCS12_SAFEBAG* pkcs12_safebag = sk_PKCS12_SAFEBAG_value(pkcs12_safebags, j);
-                if (parse_pkcs12_safe_bag(pkcs12_safebag, password, key, key_length, name, name_length) != 1) {
+                if (parse_pkcs12_safe_bag(&status, pkcs12_safebag, password, requested_common_root, key, key_length,
+                            name, name_length) != 1) {
                     pkcs12_parse_failed = true;
                     ERROR("parse_pkcs12_safe_bag failed");
                 }
-
-                bool is_common_root = strncmp(COMMON_ROOT_NAME, name, strlen(COMMON_ROOT_NAME)) == 0;
-                if (is_common_root == requested_common_root) {
-                    status = true;
-                    break;
-                }
             }
 
             sk_PKCS12_SAFEBAG_pop_free(pkcs12_safebags, PKCS12_SAFEBAG_free);
-- 
2.43.0


From 3be38ce4af6a1e02ebe02c8bb1a513fa6c0c2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 37/66] fix: ElGamal decryption clears the recovered point
 before freeing it

---
 reference/src/taimpl/src/internal/ec.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index 16b2d19..0642c20 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -445,6 +445,7 @@ sa_status ec_decrypt_elgamal(
     EVP_PKEY* evp_pkey = NULL;
     EC_GROUP* ec_group = NULL;
     uint8_t* buffer = NULL;
+    size_t buffer_length = 0;
     EC_POINT* c1 = NULL;
     EC_POINT* c2 = NULL;
     EC_POINT* shared_secret = NULL;
@@ -546,7 +547,7 @@ sa_status ec_decrypt_elgamal(
 
         int result = EC_POINT_mul(ec_group, shared_secret, NULL, c1, private_key, NULL);
 #if OPENSSL_VERSION_NUMBER >= 0x30000000
-        BN_free(private_key);
+        BN_clear_free(private_key);
 #endif
         if (result == 0) {
             ERROR("EC_POINT_mul failed");
@@ -570,7 +571,8 @@ sa_status ec_decrypt_elgamal(
             break;
         }
 
-        if (export_point(&buffer, ec_group, message_point) != point_length) {
+        buffer_length = export_point(&buffer, ec_group, message_point);
+        if (buffer_length != point_length) {
             ERROR("export_point failed");
             break;
         }
@@ -581,16 +583,18 @@ sa_status ec_decrypt_elgamal(
         status = SA_STATUS_OK;
     } while (false);
 
-    if (buffer != NULL)
+    if (buffer != NULL) {
+        memory_memset_unoptimizable(buffer, 0, buffer_length);
         memory_secure_free(buffer);
+    }
 
     EVP_PKEY_free(evp_pkey);
     EC_GROUP_free(ec_group);
     EC_POINT_free(c1);
     EC_POINT_free(c2);
-    EC_POINT_free(shared_secret);
-    EC_POINT_free(message_point);
-    BN_free(message_point_x);
+    EC_POINT_clear_free(shared_secret);
+    EC_POINT_clear_free(message_point);
+    BN_clear_free(message_point_x);
 
     return status;
 }
-- 
2.43.0


From 9726a165b17d89645e6643b199e7ad103074256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 38/66] fix: random generator checks RAND_bytes for success and
 fills requests of 2 GiB and more

---
 reference/src/taimpl/src/porting/rand.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 7951669..506e833 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -18,7 +18,9 @@
 
 #include "porting/rand.h" // NOLINT
 #include "log.h"
+#include <limits.h>
 #include <openssl/rand.h>
+#include <stdint.h>
 
 bool rand_bytes(void* out, size_t out_length) {
     if (out == NULL) {
@@ -26,9 +28,17 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
-    if (!RAND_bytes(out, (int) out_length)) {
-        ERROR("RAND_bytes failed");
-        return false;
+    // RAND_bytes takes the length as an int and returns 1 only if the bytes were generated.
+    uint8_t* out_bytes = out;
+    while (out_length > 0) {
+        int length = out_length > INT_MAX ? INT_MAX : (int) out_length;
+        if (RAND_bytes(out_bytes, length) != 1) {
+            ERROR("RAND_bytes failed");
+            return false;
+        }
+
+        out_bytes += length;
+        out_length -= length;
     }
 
     return true;
-- 
2.43.0


From b6108a45a9d7554e4799fa1067a81167688618dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 39/66] fix: provider cipher keeps the partial block of earlier
 updates and drops it on initialization

---
 reference/src/client/src/sa_provider_cipher.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 746bf0a..20a3522 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -158,6 +158,7 @@ static int cipher_init(
             cipher_context->cipher_context = INVALID_HANDLE;
         }
 
+        cipher_context->remaining_block_length = 0;
         if (iv != NULL) {
             if (ivlen > AES_BLOCK_SIZE) {
                 ERROR("Invalid IV length");
@@ -388,9 +389,9 @@ static int cipher_cipher(
 
                 // Store any leftover data in remaining_block for processing on the next call to update.
                 if (position < inl) {
-                    cipher_context->remaining_block_length = inl - position;
-                    memcpy(cipher_context->remaining_block, in + position,
-                            cipher_context->remaining_block_length);
+                    memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
+                            inl - position);
+                    cipher_context->remaining_block_length += inl - position;
                 }
             } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
                        cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
-- 
2.43.0


From fdfe6f55bc5b006052975aa5f251e8c893a001ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 40/66] fix: provider cipher releases only keys it owns

---
 reference/src/client/src/sa_provider_cipher.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 20a3522..0ed9ce5 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -169,9 +169,10 @@ static int cipher_init(
         }
 
         if (key != NULL) {
-            if (cipher_context->key != INVALID_HANDLE)
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
                 sa_key_release(cipher_context->key);
 
+            cipher_context->key = INVALID_HANDLE;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
@@ -181,6 +182,7 @@ static int cipher_init(
                 break;
             }
 
+            cipher_context->delete_key = true;
             sa_header header;
             if (sa_key_header(&header, cipher_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
@@ -191,8 +193,6 @@ static int cipher_init(
                 ERROR("Key size mismtach for algorithm");
                 break;
             }
-
-            cipher_context->delete_key = true;
         }
 
         if (cipher_set_ctx_params(cctx, params) != 1) {
@@ -650,10 +650,13 @@ static int cipher_set_ctx_params(void* cctx,
             return 0;
         }
 
-        if (cipher_context->key != INVALID_HANDLE)
-            sa_key_release(cipher_context->key);
+        if (cipher_context->key != key) {
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
+                sa_key_release(cipher_context->key);
 
-        cipher_context->key = key;
+            cipher_context->key = key;
+            cipher_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From 0867d14d258f0b729ee0f6763c4a970adf59befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 41/66] fix: provider cipher takes additional authenticated
 data in several parts

---
 reference/src/client/src/sa_provider_cipher.c | 45 ++++++++++++++-----
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 0ed9ce5..bf89514 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -50,6 +50,8 @@ typedef struct {
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
+    uint8_t* aad;
+    size_t aad_length;
 } sa_provider_cipher_context;
 
 ossl_unused static OSSL_FUNC_cipher_newctx_fn cipher_aes_ecb_128_newctx;
@@ -132,6 +134,7 @@ static void cipher_freectx(void* cctx) {
 
     cipher_context->key = INVALID_HANDLE;
     cipher_context->cipher_context = INVALID_HANDLE;
+    OPENSSL_free(cipher_context->aad);
     OPENSSL_free(cipher_context);
 }
 
@@ -159,6 +162,9 @@ static int cipher_init(
         }
 
         cipher_context->remaining_block_length = 0;
+        OPENSSL_free(cipher_context->aad);
+        cipher_context->aad = NULL;
+        cipher_context->aad_length = 0;
         if (iv != NULL) {
             if (ivlen > AES_BLOCK_SIZE) {
                 ERROR("Invalid IV length");
@@ -271,16 +277,31 @@ static int cipher_cipher(
             break;
         }
 
-        if (cipher_context->cipher_context == INVALID_HANDLE) {
-            void* aad = NULL;
-            size_t aad_length;
-            if (out == NULL) {
-                aad = (void*) in;
-                aad_length = inl;
-            } else {
-                aad_length = 0;
+        if (out == NULL && in != NULL) {
+            // Collect the additional authenticated data. It can be given in several parts, but only before the data.
+            if (!cipher_context->aead || cipher_context->cipher_context != INVALID_HANDLE) {
+                ERROR("Unexpected AAD");
+                break;
             }
 
+            if (inl > 0) {
+                uint8_t* aad = OPENSSL_realloc(cipher_context->aad, cipher_context->aad_length + inl);
+                if (aad == NULL) {
+                    ERROR("OPENSSL_realloc failed");
+                    break;
+                }
+
+                memcpy(aad + cipher_context->aad_length, in, inl);
+                cipher_context->aad = aad;
+                cipher_context->aad_length += inl;
+            }
+
+            *outl = 0;
+            result = 1;
+            break;
+        }
+
+        if (cipher_context->cipher_context == INVALID_HANDLE) {
             sa_cipher_parameters_aes_cbc parameters_aes_cbc;
             sa_cipher_parameters_aes_ctr parameters_aes_ctr;
             sa_cipher_parameters_chacha20 parameters_chacha20;
@@ -317,16 +338,16 @@ static int cipher_cipher(
                 case SA_CIPHER_ALGORITHM_AES_GCM:
                     parameters_aes_gcm.iv = cipher_context->iv;
                     parameters_aes_gcm.iv_length = cipher_context->iv_length;
-                    parameters_aes_gcm.aad = aad;
-                    parameters_aes_gcm.aad_length = aad_length;
+                    parameters_aes_gcm.aad = cipher_context->aad;
+                    parameters_aes_gcm.aad_length = cipher_context->aad_length;
                     parameters = &parameters_aes_gcm;
                     break;
 
                 case SA_CIPHER_ALGORITHM_CHACHA20_POLY1305:
                     parameters_chacha20_poly1305.nonce = cipher_context->iv;
                     parameters_chacha20_poly1305.nonce_length = cipher_context->iv_length;
-                    parameters_chacha20_poly1305.aad = aad;
-                    parameters_chacha20_poly1305.aad_length = aad_length;
+                    parameters_chacha20_poly1305.aad = cipher_context->aad;
+                    parameters_chacha20_poly1305.aad_length = cipher_context->aad_length;
                     parameters = &parameters_chacha20_poly1305;
                     break;
 
-- 
2.43.0


From 6cdef2308d8ad1484669f9d13d9e05e5eb668cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 42/66] fix: provider cipher computes and checks the tag
 without an output buffer and refuses other key and IV lengths

---
 reference/src/client/src/sa_provider_cipher.c | 177 ++++++++++--------
 1 file changed, 99 insertions(+), 78 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index bf89514..9b11d89 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -364,93 +364,95 @@ static int cipher_cipher(
         }
 
         size_t total_processed = 0;
-        if (out != NULL) {
-            sa_status status = SA_STATUS_OK;
-            size_t bytes_to_process = 0;
-
-            if (in != NULL) {
-                // Process an update call.
-                sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
-                sa_buffer in_buffer;
-                in_buffer.buffer_type = SA_BUFFER_TYPE_CLEAR;
-
-                size_t total_length = cipher_context->remaining_block_length + inl;
-                size_t position = 0;
-                // If inl is not a multiple of block size, store the leftover data in remaining_block. Then, the
-                // next time this function is called, start with the remaining data and add data from in to it. Then
-                // process the remainder of in.
-                while (total_length >= cipher_context->block_size) {
-                    if (cipher_context->remaining_block_length > 0) {
-                        // Start with remaining_block and add in to it.
-                        memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
-                                cipher_context->block_size - cipher_context->remaining_block_length);
-                        position += cipher_context->block_size - cipher_context->remaining_block_length;
-                        cipher_context->remaining_block_length = 0;
-
-                        in_buffer.context.clear.buffer = cipher_context->remaining_block;
-                        in_buffer.context.clear.length = AES_BLOCK_SIZE;
-                        in_buffer.context.clear.offset = 0;
-                        bytes_to_process = AES_BLOCK_SIZE;
-                    } else {
-                        // Process data from in.
-                        in_buffer.context.clear.buffer = (void*) in;
-                        in_buffer.context.clear.length = inl;
-                        in_buffer.context.clear.offset = position;
-                        bytes_to_process = ((inl - position) / cipher_context->block_size) * cipher_context->block_size;
-                        position += bytes_to_process;
-                    }
-
-                    if (bytes_to_process % cipher_context->block_size == 0) {
-                        total_length -= bytes_to_process;
-                        status = sa_crypto_cipher_process(&out_buffer, cipher_context->cipher_context,
-                                &in_buffer, &bytes_to_process);
-                        total_processed += bytes_to_process;
-                    }
-                }
-
-                // Store any leftover data in remaining_block for processing on the next call to update.
-                if (position < inl) {
+        sa_status status = SA_STATUS_OK;
+        size_t bytes_to_process = 0;
+
+        if (in != NULL) {
+            // Process an update call.
+            sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
+            sa_buffer in_buffer;
+            in_buffer.buffer_type = SA_BUFFER_TYPE_CLEAR;
+
+            size_t total_length = cipher_context->remaining_block_length + inl;
+            size_t position = 0;
+            // If inl is not a multiple of block size, store the leftover data in remaining_block. Then, the
+            // next time this function is called, start with the remaining data and add data from in to it. Then
+            // process the remainder of in.
+            while (status == SA_STATUS_OK && total_length >= cipher_context->block_size) {
+                if (cipher_context->remaining_block_length > 0) {
+                    // Start with remaining_block and add in to it.
                     memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
-                            inl - position);
-                    cipher_context->remaining_block_length += inl - position;
+                            cipher_context->block_size - cipher_context->remaining_block_length);
+                    position += cipher_context->block_size - cipher_context->remaining_block_length;
+                    cipher_context->remaining_block_length = 0;
+
+                    in_buffer.context.clear.buffer = cipher_context->remaining_block;
+                    in_buffer.context.clear.length = AES_BLOCK_SIZE;
+                    in_buffer.context.clear.offset = 0;
+                    bytes_to_process = AES_BLOCK_SIZE;
+                } else {
+                    // Process data from in.
+                    in_buffer.context.clear.buffer = (void*) in;
+                    in_buffer.context.clear.length = inl;
+                    in_buffer.context.clear.offset = position;
+                    bytes_to_process = ((inl - position) / cipher_context->block_size) * cipher_context->block_size;
+                    position += bytes_to_process;
                 }
-            } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
-                       cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
-                // Process a final call.
-                sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
-                sa_buffer in_buffer = {SA_BUFFER_TYPE_CLEAR,
-                        {.clear = {cipher_context->remaining_block,
-                                 cipher_context->remaining_block_length, 0}}};
-                bytes_to_process = cipher_context->remaining_block_length;
-
-                void* parameters = NULL;
-                sa_cipher_end_parameters_aes_gcm end_parameters;
-                if (cipher_context->aead) {
-                    end_parameters.tag = cipher_context->tag;
-                    end_parameters.tag_length = MAX_GCM_TAG_LENGTH;
-                    parameters = &end_parameters;
+
+                if (bytes_to_process % cipher_context->block_size == 0) {
+                    total_length -= bytes_to_process;
+                    status = sa_crypto_cipher_process(&out_buffer, cipher_context->cipher_context,
+                            &in_buffer, &bytes_to_process);
+                    total_processed += bytes_to_process;
                 }
+            }
 
-                status = sa_crypto_cipher_process_last(&out_buffer, cipher_context->cipher_context, &in_buffer,
-                        &bytes_to_process, parameters);
-                total_processed += bytes_to_process;
-            } else if (cipher_context->remaining_block_length > 0) {
-                // This is a SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB cipher, and it didn't end on a
-                // block_size boundary. This is an error.
-                ERROR("SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB didn't end on a block boundary");
-                *outl = 0;
-                break;
+            // Store any leftover data in remaining_block for processing on the next call to update.
+            if (position < inl) {
+                memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
+                        inl - position);
+                cipher_context->remaining_block_length += inl - position;
+            }
+        } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
+                   cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
+            // Process a final call. The tag is computed or verified even if there is no buffer for output.
+            uint8_t no_output[1];
+            sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {no_output, 0, 0}}};
+            if (out != NULL) {
+                out_buffer.context.clear.buffer = out;
+                out_buffer.context.clear.length = outsize;
             }
 
-            if (status == SA_STATUS_OK) {
-                *outl = total_processed;
-            } else {
-                ERROR("cipher_do_cipher failed");
-                *outl = 0;
-                break;
+            sa_buffer in_buffer = {SA_BUFFER_TYPE_CLEAR,
+                    {.clear = {cipher_context->remaining_block,
+                             cipher_context->remaining_block_length, 0}}};
+            bytes_to_process = cipher_context->remaining_block_length;
+
+            void* parameters = NULL;
+            sa_cipher_end_parameters_aes_gcm end_parameters;
+            if (cipher_context->aead) {
+                end_parameters.tag = cipher_context->tag;
+                end_parameters.tag_length = MAX_GCM_TAG_LENGTH;
+                parameters = &end_parameters;
             }
+
+            status = sa_crypto_cipher_process_last(&out_buffer, cipher_context->cipher_context, &in_buffer,
+                    &bytes_to_process, parameters);
+            total_processed += bytes_to_process;
+        } else if (cipher_context->remaining_block_length > 0) {
+            // This is a SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB cipher, and it didn't end on a
+            // block_size boundary. This is an error.
+            ERROR("SA_CIPHER_ALGORITHM_AES_CBC or SA_CIPHER_ALGORITHM_AES_ECB didn't end on a block boundary");
+            *outl = 0;
+            break;
+        }
+
+        if (status == SA_STATUS_OK) {
+            *outl = total_processed;
         } else {
+            ERROR("cipher_do_cipher failed");
             *outl = 0;
+            break;
         }
 
         result = 1;
@@ -652,6 +654,25 @@ static int cipher_set_ctx_params(void* cctx,
         }
     }
 
+    // The lengths are fixed.
+    param = OSSL_PARAM_locate_const(params, OSSL_CIPHER_PARAM_KEYLEN);
+    if (param != NULL) {
+        size_t key_length;
+        if (!OSSL_PARAM_get_size_t(param, &key_length) || key_length != cipher_context->key_size) {
+            ERROR("Invalid key length");
+            return 0;
+        }
+    }
+
+    param = OSSL_PARAM_locate_const(params, OSSL_CIPHER_PARAM_IVLEN);
+    if (param != NULL) {
+        size_t iv_length;
+        if (!OSSL_PARAM_get_size_t(param, &iv_length) || iv_length != cipher_context->iv_length) {
+            ERROR("Invalid IV length");
+            return 0;
+        }
+    }
+
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
     if (param != NULL) {
         uint64_t key;
-- 
2.43.0


From 9828578e20e7243f0b9ff6ee8fd2e04ef7e2f68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 43/66] fix: provider MAC releases only keys it owns and needs
 a digest for HMAC

---
 reference/src/client/src/sa_provider_mac.c | 29 ++++++++++++++--------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index ff7570d..35a5551 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -115,9 +115,10 @@ static int mac_init(
         }
 
         if (key != NULL) {
-            if (mac_context->key != INVALID_HANDLE)
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
                 sa_key_release(mac_context->key);
 
+            mac_context->key = INVALID_HANDLE;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
@@ -127,13 +128,12 @@ static int mac_init(
                 break;
             }
 
+            mac_context->delete_key = true;
             sa_header header;
             if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
                 ERROR("sa_key_header failed");
                 break;
             }
-
-            mac_context->delete_key = true;
         }
 
         if (mac_set_ctx_params(mctx, params) != 1) {
@@ -149,6 +149,10 @@ static int mac_init(
         sa_mac_parameters_hmac parameters_hmac;
         void* parameters = NULL;
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
+            if (mac_context->evp_md == NULL) {
+                ERROR("NULL evp_md");
+                break;
+            }
 
             parameters_hmac.digest_algorithm = digest_algorithm_from_name(EVP_MD_get0_name(mac_context->evp_md));
             parameters = &parameters_hmac;
@@ -230,7 +234,7 @@ static int mac_get_ctx_params(
     OSSL_PARAM* param = OSSL_PARAM_locate(params, OSSL_MAC_PARAM_SIZE);
     if (param != NULL) {
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
-            size_t size = EVP_MD_get_size(mac_context->evp_md);
+            size_t size = mac_context->evp_md != NULL ? EVP_MD_get_size(mac_context->evp_md) : 0;
             if (OSSL_PARAM_set_size_t(param, size) != 1) {
                 ERROR("OSSL_PARAM_set_size_t failed");
                 return 0;
@@ -246,7 +250,7 @@ static int mac_get_ctx_params(
     param = OSSL_PARAM_locate(params, OSSL_MAC_PARAM_BLOCK_SIZE);
     if (param != NULL) {
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
-            size_t size = EVP_MD_block_size(mac_context->evp_md);
+            size_t size = mac_context->evp_md != NULL ? EVP_MD_block_size(mac_context->evp_md) : 0;
             if (OSSL_PARAM_set_size_t(param, size) != 1) {
                 ERROR("OSSL_PARAM_set_size_t failed");
                 return 0;
@@ -294,6 +298,7 @@ static int mac_set_ctx_params(
             properties[0] = 0;
         }
 
+        EVP_MD_free(mac_context->evp_md);
         mac_context->evp_md = EVP_MD_fetch(mac_context->provider_context->lib_ctx, name, properties);
         if (mac_context->evp_md == NULL) {
             ERROR("EVP_MD_fetch failed");
@@ -309,15 +314,19 @@ static int mac_set_ctx_params(
             return 0;
         }
 
-        if (mac_context->key != INVALID_HANDLE)
-            sa_key_release(mac_context->key);
-
-        mac_context->key = key;
         sa_header header;
-        if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
+        if (sa_key_header(&header, key) != SA_STATUS_OK) {
             ERROR("sa_key_header failed");
             return 0;
         }
+
+        if (mac_context->key != key) {
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
+                sa_key_release(mac_context->key);
+
+            mac_context->key = key;
+            mac_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From 1134ea723ebd12284736cbbafd1fbfb9463387ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 44/66] fix: provider imports NIST curve keys under OpenSSL's
 curve names

---
 reference/src/client/src/sa_provider_keymgt.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 2ceb34d..27d56c7 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -151,19 +151,19 @@ static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
             if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
                 return UINT32_MAX;
 
-            if (strcmp(group_name, "P-192") == 0)
+            if (strcmp(group_name, "prime192v1") == 0 || strcmp(group_name, "P-192") == 0)
                 return SA_ELLIPTIC_CURVE_NIST_P192;
 
-            if (strcmp(group_name, "P-224") == 0)
+            if (strcmp(group_name, "secp224r1") == 0 || strcmp(group_name, "P-224") == 0)
                 return SA_ELLIPTIC_CURVE_NIST_P224;
 
-            if (strcmp(group_name, "P-256") == 0)
+            if (strcmp(group_name, "prime256v1") == 0 || strcmp(group_name, "P-256") == 0)
                 return SA_ELLIPTIC_CURVE_NIST_P256;
 
-            if (strcmp(group_name, "P-384") == 0)
+            if (strcmp(group_name, "secp384r1") == 0 || strcmp(group_name, "P-384") == 0)
                 return SA_ELLIPTIC_CURVE_NIST_P384;
 
-            if (strcmp(group_name, "P-521") == 0)
+            if (strcmp(group_name, "secp521r1") == 0 || strcmp(group_name, "P-521") == 0)
                 return SA_ELLIPTIC_CURVE_NIST_P521;
 
             return UINT32_MAX;
-- 
2.43.0


From d6e0a81f7a25754b87d1344e8bb28fb9b360b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 45/66] fix: provider names sha1WithRSAEncryption by its own
 object identifier

---
 reference/src/client/src/sa_provider_signature.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 9ee41b6..517f82f 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -72,7 +72,7 @@ ossl_unused static OSSL_FUNC_signature_gettable_ctx_md_params_fn signature_getta
 ossl_unused static OSSL_FUNC_signature_set_ctx_md_params_fn signature_set_ctx_md_params;
 ossl_unused static OSSL_FUNC_signature_settable_ctx_md_params_fn signature_settable_ctx_md_params;
 
-static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
+static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x05, 0x05,
         0x00};
 static uint8_t rsa_sha256_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
         0x00};
-- 
2.43.0


From 7eda0a3e4ff7a8fb2f86b39b514e80f2db01641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 46/66] fix: provider signature contexts without a digest
 context can be copied

---
 .../src/client/src/sa_provider_signature.c    | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 517f82f..0d26028 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -146,16 +146,20 @@ static void* signature_dupctx(void* ctx) {
         }
 
         new_signature_context->provider_context = signature_context->provider_context;
-        new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
-        new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
-        if (new_signature_context->evp_md_ctx == NULL) {
-            ERROR("EVP_MD_CTX_new failed");
-            break;
-        }
+        if (signature_context->key_data != NULL)
+            new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
 
-        if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
-            ERROR("EVP_MD_CTX_copy failed");
-            break;
+        if (signature_context->evp_md_ctx != NULL) {
+            new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
+            if (new_signature_context->evp_md_ctx == NULL) {
+                ERROR("EVP_MD_CTX_new failed");
+                break;
+            }
+
+            if (EVP_MD_CTX_copy_ex(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
+                ERROR("EVP_MD_CTX_copy_ex failed");
+                break;
+            }
         }
 
         new_signature_context->evp_md = signature_context->evp_md;
@@ -177,11 +181,9 @@ static void* signature_dupctx(void* ctx) {
         result = 1;
     } while (false);
 
-    if (result == 0 && new_signature_context != NULL) {
-        EVP_MD_CTX_free(new_signature_context->evp_md_ctx);
-        EVP_MD_free(new_signature_context->evp_md);
-        EVP_MD_free(new_signature_context->mgf1_md);
-        OPENSSL_free(new_signature_context);
+    if (result == 0) {
+        signature_freectx(new_signature_context);
+        new_signature_context = NULL;
     }
 
     return new_signature_context;
-- 
2.43.0


From 445fbe4c2ede7c78232857d5bf8ca84a5fd1d6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 47/66] fix: provider signature contexts drop the key of an
 earlier initialization and report failed initializations

---
 reference/src/client/src/sa_provider_signature.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 0d26028..638bebc 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -205,6 +205,7 @@ static int signature_sign_init(
     }
 
     sa_provider_signature_context* signature_context = ctx;
+    sa_provider_key_data_free(signature_context->key_data);
     signature_context->key_data = sa_provider_key_data_dup(provkey);
     return signature_set_ctx_params(ctx, params);
 }
@@ -502,10 +503,11 @@ static int signature_digest_sign_init(
         EVP_MD_CTX_free(signature_context->evp_md_ctx);
         signature_context->evp_md = NULL;
         signature_context->evp_md_ctx = NULL;
+        sa_provider_key_data_free(signature_context->key_data);
         signature_context->key_data = NULL;
     }
 
-    return 1;
+    return result;
 }
 
 static int signature_digest_sign_update(
-- 
2.43.0


From b0399421a3b69b1a2e506f31ebe09f579d3e48d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 48/66] fix: provider signatures respect the size of the output
 buffer

---
 .../src/client/src/sa_provider_signature.c    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 638bebc..cc6ff38 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -214,7 +214,7 @@ static int signature_sign(
         void* ctx,
         unsigned char* sig,
         size_t* siglen,
-        ossl_unused size_t sigsize,
+        size_t sigsize,
         const unsigned char* tbs,
         size_t tbslen) {
 
@@ -327,17 +327,34 @@ static int signature_sign(
         // Take the SecApi 3 signature and encode it like OpenSSL would so that it looks like it came from
         // OpenSSL
         if (sig != NULL) {
-            if (!ec_encode_signature(sig, siglen, local_signature, local_signature_length)) {
+            uint8_t encoded_signature[MAX_SIGNATURE_LENGTH];
+            size_t encoded_signature_length = 0;
+            if (!ec_encode_signature(encoded_signature, &encoded_signature_length, local_signature,
+                        local_signature_length)) {
                 ERROR("ec_encode_signature failed");
                 return 0;
             }
+
+            if (sigsize < encoded_signature_length) {
+                ERROR("Invalid sigsize");
+                return 0;
+            }
+
+            memcpy(sig, encoded_signature, encoded_signature_length);
+            *siglen = encoded_signature_length;
         } else {
             // Add the most number of bytes that can be added by ASN.1 encoding (9). It could be as few as 6.
             *siglen = local_signature_length + 9;
         }
     } else {
-        if (sig != NULL)
+        if (sig != NULL) {
+            if (sigsize < local_signature_length) {
+                ERROR("Invalid sigsize");
+                return 0;
+            }
+
             memcpy(sig, local_signature, local_signature_length);
+        }
 
         *siglen = local_signature_length;
     }
-- 
2.43.0


From edb39bdebc35f082c8164fe4af75a4bf444e52ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 49/66] fix: provider PSS signatures use the signature digest
 for MGF1 by default

---
 reference/src/client/src/sa_provider_signature.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index cc6ff38..e707f97 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -260,7 +260,7 @@ static int signature_sign(
                     parameters_rsa_pss.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
 
                 if (parameters_rsa_pss.mgf1_digest_algorithm == UINT32_MAX)
-                    parameters_rsa_pss.mgf1_digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
+                    parameters_rsa_pss.mgf1_digest_algorithm = parameters_rsa_pss.digest_algorithm;
 
                 parameters_rsa_pss.precomputed_digest = true;
                 int salt_length;
-- 
2.43.0


From 812ede932898d5c81ace23f3d18d7196bca4e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 50/66] fix: provider signature algorithm identifier is given
 for PKCS1 only and does not need a digest

---
 reference/src/client/src/sa_provider_signature.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index e707f97..14dcbf6 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -767,8 +767,15 @@ static int signature_get_ctx_params(
     if (param != NULL) {
         uint8_t* algorithm_id = NULL;
         size_t algorithm_id_length = 0;
-        if (signature_context->key_data->type == EVP_PKEY_RSA) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+        if (signature_context->key_data == NULL) {
+            ERROR("NULL key_data");
+            return 0;
+        }
+
+        int digest_type = signature_context->evp_md != NULL ? EVP_MD_get_type(signature_context->evp_md) : NID_undef;
+        if (signature_context->key_data->type == EVP_PKEY_RSA &&
+                signature_context->padding_mode == RSA_PKCS1_PADDING) {
+            switch (digest_type) {
                 case NID_sha1:
                     algorithm_id = rsa_sha1_oid;
                     algorithm_id_length = sizeof(rsa_sha1_oid);
@@ -793,7 +800,7 @@ static int signature_get_ctx_params(
                     break;
             }
         } else if (signature_context->key_data->type == EVP_PKEY_EC) {
-            switch (EVP_MD_get_type(signature_context->evp_md)) {
+            switch (digest_type) {
                 case NID_sha1:
                     algorithm_id = ecdsa_sha1_oid;
                     algorithm_id_length = sizeof(ecdsa_sha1_oid);
@@ -875,7 +882,7 @@ static int signature_get_ctx_params(
 
     param = OSSL_PARAM_locate(params, OSSL_SIGNATURE_PARAM_DIGEST_SIZE);
     if (param != NULL) {
-        size_t digest_size = EVP_MD_get_size(signature_context->evp_md);
+        size_t digest_size = signature_context->evp_md != NULL ? EVP_MD_get_size(signature_context->evp_md) : 0;
         if (OSSL_PARAM_set_size_t(param, digest_size) != 1) {
             ERROR("OSSL_PARAM_set_size_t failed");
             return 0;
-- 
2.43.0


From bb651f3b997d7c71adfbdddd80e0ea9c78274842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 51/66] fix: provider asymmetric cipher contexts copy and
 release what they hold

---
 .../src/client/src/sa_provider_asym_cipher.c  | 31 ++++++++++++-------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index f7af18d..5f4d1cc 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -120,20 +120,28 @@ static void* asym_cipher_dupctx(void* ctx) {
 
     new_asym_cipher_context->provider_context = asym_cipher_context->provider_context;
     new_asym_cipher_context->cipher_algorithm = asym_cipher_context->cipher_algorithm;
-    new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+    if (asym_cipher_context->key_data != NULL)
+        new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+
     new_asym_cipher_context->padding_mode = asym_cipher_context->padding_mode;
     new_asym_cipher_context->oaep_md = asym_cipher_context->oaep_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+    if (new_asym_cipher_context->oaep_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+
     new_asym_cipher_context->oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
-    new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
-    new_asym_cipher_context->oaep_label = OPENSSL_malloc(new_asym_cipher_context->oaep_label_length);
-    if (new_asym_cipher_context->oaep_label == NULL) {
-        ERROR("OPENSSL_malloc failed");
-        EVP_MD_free(new_asym_cipher_context->oaep_md);
-        EVP_MD_free(new_asym_cipher_context->oaep_mgf1_md);
-        OPENSSL_free(new_asym_cipher_context);
-        return NULL;
+    if (new_asym_cipher_context->oaep_mgf1_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
+
+    if (asym_cipher_context->oaep_label != NULL && asym_cipher_context->oaep_label_length > 0) {
+        new_asym_cipher_context->oaep_label = OPENSSL_memdup(asym_cipher_context->oaep_label,
+                asym_cipher_context->oaep_label_length);
+        if (new_asym_cipher_context->oaep_label == NULL) {
+            ERROR("OPENSSL_memdup failed");
+            asym_cipher_freectx(new_asym_cipher_context);
+            return NULL;
+        }
+
+        new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
     }
 
     return new_asym_cipher_context;
@@ -155,6 +163,7 @@ static int asym_cipher_encrypt_init(
     }
 
     sa_provider_asym_cipher_context* asym_cipher_context = ctx;
+    sa_provider_key_data_free(asym_cipher_context->key_data);
     asym_cipher_context->key_data = sa_provider_key_data_dup(provkey);
     return asym_cipher_set_ctx_params(ctx, params);
 }
-- 
2.43.0


From 0d150a4172ae7e8e9dd64d7f18f265c08b52399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 52/66] fix: provider OAEP uses the requested MGF1 digest and
 the default digest

---
 .../src/client/src/sa_provider_asym_cipher.c  | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 5f4d1cc..59c1829 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -217,13 +217,13 @@ static int asym_cipher_encrypt(
         }
 
         if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
-            EVP_MD* oaep_md;
-            if (asym_cipher_context->oaep_md != NULL)
-                oaep_md = asym_cipher_context->oaep_md;
-            else
-                oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
+            if (asym_cipher_context->oaep_md == NULL)
+                asym_cipher_context->oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx,
+                        DEFAULT_OAEP_DIGEST, NULL);
 
-            EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+            EVP_MD* oaep_md = asym_cipher_context->oaep_md;
+            EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md :
+                                                                               oaep_md;
             if (EVP_PKEY_CTX_set_rsa_oaep_md(encrypt_pkey_ctx, oaep_md) != 1) {
                 ERROR("EVP_PKEY_CTX_set_rsa_oaep_md failed");
                 break;
@@ -303,20 +303,22 @@ static int asym_cipher_decrypt(void* ctx,
     void* parameters = NULL;
     if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_OAEP;
-        EVP_MD* oaep_md;
-        if (asym_cipher_context->oaep_md != NULL)
-            oaep_md = asym_cipher_context->oaep_md;
-        else
-            oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
+        if (asym_cipher_context->oaep_md == NULL)
+            asym_cipher_context->oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx,
+                    DEFAULT_OAEP_DIGEST, NULL);
 
-        EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+        EVP_MD* oaep_md = asym_cipher_context->oaep_md;
+        EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md : oaep_md;
         parameters_rsa_oaep.digest_algorithm = digest_algorithm_from_md(oaep_md);
         parameters_rsa_oaep.mgf1_digest_algorithm = digest_algorithm_from_md(oaep_mgf1_md);
         parameters_rsa_oaep.label = asym_cipher_context->oaep_label;
         parameters_rsa_oaep.label_length = asym_cipher_context->oaep_label_length;
         parameters = &parameters_rsa_oaep;
-    } else {
+    } else if (asym_cipher_context->padding_mode == RSA_PKCS1_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
+    } else {
+        ERROR("Unsupported padding mode");
+        return 0;
     }
 
     sa_crypto_cipher_context cipher_context;
-- 
2.43.0


From d23d73376411dbc2e88f85b58822cc2e08e32d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 53/66] fix: provider asymmetric cipher refuses unsupported
 padding modes and reports its padding mode

---
 reference/src/client/src/sa_provider_asym_cipher.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 59c1829..8ff6ead 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -372,7 +372,7 @@ static int asym_cipher_get_ctx_params(
     if (param != NULL) {
         switch (param->data_type) {
             case OSSL_PARAM_INTEGER:
-                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode)) {
+                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode) != 1) {
                     ERROR("OSSL_PARAM_set_int failed");
                     return 0;
                 }
@@ -515,6 +515,12 @@ static int asym_cipher_set_ctx_params(
                 return 0;
         }
 
+        if (padding_mode != RSA_PKCS1_PADDING && padding_mode != RSA_NO_PADDING &&
+                padding_mode != RSA_PKCS1_OAEP_PADDING) {
+            ERROR("Unsupported padding mode");
+            return 0;
+        }
+
         asym_cipher_context->padding_mode = padding_mode;
     }
 
-- 
2.43.0


From f654f0b2ec136b0395227a8dcd5c2096b593a4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 54/66] fix: provider key exchange without a peer fails instead
 of dereferencing NULL

---
 .../src/client/src/sa_provider_keyexch.c      | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 8e9a962..f2d2d44 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -95,8 +95,12 @@ void* keyexch_dupctx(void* ctx) {
     }
 
     new_keyexch_context->provider_context = keyexch_context->provider_context;
-    new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
-    new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+    if (keyexch_context->key_data != NULL)
+        new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
+
+    if (keyexch_context->peer_key_data != NULL)
+        new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+
     return new_keyexch_context;
 }
 
@@ -116,6 +120,7 @@ int keyexch_init(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    sa_provider_key_data_free(keyexch_context->key_data);
     keyexch_context->key_data = sa_provider_key_data_dup(provkey);
     return keyexch_set_ctx_params(keyexch_context, params);
 }
@@ -147,6 +152,16 @@ int keyexch_derive(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    if (keyexch_context->key_data == NULL) {
+        ERROR("NULL key_data");
+        return 0;
+    }
+
+    if (keyexch_context->peer_key_data == NULL) {
+        ERROR("NULL peer_key_data");
+        return 0;
+    }
+
     int result = 0;
     sa_key_exchange_algorithm key_exchange_algorithm;
     uint8_t* other_public = NULL;
@@ -219,6 +234,7 @@ int keyexch_set_peer(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    sa_provider_key_data_free(keyexch_context->peer_key_data);
     keyexch_context->peer_key_data = sa_provider_key_data_dup(provkey);
     return 1;
 }
-- 
2.43.0


From 13f613bc563831babfaba1f9df43a7e68ab17247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 55/66] fix: digest names are compared whole (SHA512-256 was
 taken as SHA-512)

---
 reference/src/util/src/digest_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reference/src/util/src/digest_util.c b/reference/src/util/src/digest_util.c
index 2c86086..9646d92 100644
--- a/reference/src/util/src/digest_util.c
+++ b/reference/src/util/src/digest_util.c
@@ -105,16 +105,16 @@ size_t digest_length(sa_digest_algorithm digest_algorithm) {
 }
 
 sa_digest_algorithm digest_algorithm_from_name(const char* name) {
-    if (strncmp(name, "SHA1", 4) == 0 || strncmp(name, "SHA-1", 5) == 0)
+    if (strcmp(name, "SHA1") == 0 || strcmp(name, "SHA-1") == 0)
         return SA_DIGEST_ALGORITHM_SHA1;
 
-    if (strncmp(name, "SHA256", 6) == 0 || strncmp(name, "SHA2-256", 7) == 0 || strncmp(name, "SHA-256", 7) == 0)
+    if (strcmp(name, "SHA256") == 0 || strcmp(name, "SHA2-256") == 0 || strcmp(name, "SHA-256") == 0)
         return SA_DIGEST_ALGORITHM_SHA256;
 
-    if (strncmp(name, "SHA384", 6) == 0 || strncmp(name, "SHA2-384", 7) == 0 || strncmp(name, "SHA-384", 7) == 0)
+    if (strcmp(name, "SHA384") == 0 || strcmp(name, "SHA2-384") == 0 || strcmp(name, "SHA-384") == 0)
         return SA_DIGEST_ALGORITHM_SHA384;
 
-    if (strncmp(name, "SHA512", 6) == 0 || strncmp(name, "SHA2-512", 7) == 0 || strncmp(name, "SHA-512", 7) == 0)
+    if (strcmp(name, "SHA512") == 0 || strcmp(name, "SHA2-512") == 0 || strcmp(name, "SHA-512") == 0)
         return SA_DIGEST_ALGORITHM_SHA512;
 
     return UINT32_MAX;
-- 
2.43.0


From 6337144033c9d34cee3271da76c984fe0bbc2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 56/66] fix: provider KBKDF starts with the first counter block
 and accepts empty other data

---
 reference/src/client/src/sa_provider_kdf.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index aaa2c93..8796311 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -273,7 +273,7 @@ int kdf_derive(
 
                 size_t length = kdf_context->salt_length + (kdf_context->use_separator == 1 ? 1 : 0) +
                                 kdf_context->info_length + (kdf_context->use_l == 1 ? 4 : 0);
-                other_data = OPENSSL_malloc(length);
+                other_data = OPENSSL_malloc(length + 1);
                 if (other_data == NULL) {
                     ERROR("OPENSSL_malloc failed");
                     continue; // NOLINT
@@ -302,7 +302,8 @@ int kdf_derive(
                 }
 
                 parameters_cmac.key_length = keylen;
-                parameters_cmac.counter = (keylen / SYM_128_KEY_SIZE) + (keylen % SYM_128_KEY_SIZE == 0 ? 0 : 1);
+                // The counter of the first block.
+                parameters_cmac.counter = 1;
                 parameters_cmac.parent = kdf_context->key;
                 parameters_cmac.other_data_length = position;
                 parameters_cmac.other_data = other_data;
-- 
2.43.0


From 0173040922fbecb7349c92cfaed8dc3649a997cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 57/66] fix: provider KDF contexts own their keys, copy them,
 reset fully and refuse unknown digests

---
 reference/src/client/src/sa_provider_kdf.c | 93 ++++++++++++++++------
 1 file changed, 69 insertions(+), 24 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 8796311..7898863 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -120,6 +120,8 @@ void* kdf_dupctx(void* kctx) {
     }
 
     new_kdf_context->provider_context = kdf_context->provider_context;
+    new_kdf_context->kdf_algorithm = kdf_context->kdf_algorithm;
+    new_kdf_context->key = INVALID_HANDLE;
     new_kdf_context->digest_algorithm = kdf_context->digest_algorithm;
     new_kdf_context->use_separator = kdf_context->use_separator;
     new_kdf_context->use_l = kdf_context->use_l;
@@ -147,12 +149,11 @@ void* kdf_dupctx(void* kctx) {
         memcpy(new_kdf_context->info, kdf_context->info, kdf_context->info_length);
     }
 
-    if (new_kdf_context->delete_key) {
+    if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE) {
         // We are managing the lifetime of the key, so copy the key by exporting and reimporting it.
         size_t exported_key_length = 0;
-        if (sa_key_export(NULL, &exported_key_length, NULL, 0, new_kdf_context->key) != SA_STATUS_OK) {
+        if (sa_key_export(NULL, &exported_key_length, NULL, 0, kdf_context->key) != SA_STATUS_OK) {
             ERROR("sa_key_export failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -160,7 +161,6 @@ void* kdf_dupctx(void* kctx) {
         uint8_t* exported_key = OPENSSL_malloc(exported_key_length);
         if (exported_key == NULL) {
             ERROR("OPENSSL_malloc failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -177,9 +177,14 @@ void* kdf_dupctx(void* kctx) {
         OPENSSL_free(exported_key);
         if (status != SA_STATUS_OK) {
             ERROR("sa_key_import failed");
+            new_kdf_context->key = INVALID_HANDLE;
             kdf_freectx(new_kdf_context);
             return NULL;
         }
+
+        new_kdf_context->delete_key = true;
+    } else {
+        new_kdf_context->key = kdf_context->key;
     }
 
     return new_kdf_context;
@@ -199,8 +204,11 @@ void kdf_reset(void* kctx) {
     kdf_context->delete_key = false;
     OPENSSL_free(kdf_context->salt);
     kdf_context->salt = NULL;
+    kdf_context->salt_length = 0;
     OPENSSL_free(kdf_context->info);
     kdf_context->info = NULL;
+    kdf_context->info_length = 0;
+    kdf_context->digest_algorithm = UINT32_MAX;
     kdf_context->use_separator = 0;
     kdf_context->use_l = 0;
 }
@@ -367,6 +375,18 @@ int kdf_get_ctx_params(
     return 1;
 }
 
+static void kdf_set_key(
+        sa_provider_kdf_context* kdf_context,
+        sa_key key) {
+
+    // The previous key belongs to the context only if its deletion was requested.
+    if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
+        sa_key_release(kdf_context->key);
+
+    kdf_context->key = key;
+    kdf_context->delete_key = false;
+}
+
 int kdf_set_ctx_params(
         ossl_unused void* kctx,
         ossl_unused const OSSL_PARAM params[]) {
@@ -376,18 +396,17 @@ int kdf_set_ctx_params(
         return 0;
     }
 
-    if (params == NULL) {
-        ERROR("NULL params");
-        return 0;
-    }
+    if (params == NULL)
+        return 1;
 
     sa_provider_kdf_context* kdf_context = kctx;
     const OSSL_PARAM* param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_KEY);
     if (param != NULL) {
         size_t length;
-        unsigned long key;
+        sa_key key;
         void* p_key = &key;
-        if (OSSL_PARAM_get_octet_string(param, &p_key, sizeof(sa_key), &length) != 1) {
+        if (param->data_size != sizeof(sa_key) ||
+                OSSL_PARAM_get_octet_string(param, &p_key, sizeof(sa_key), &length) != 1) {
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
         }
@@ -398,10 +417,7 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
-
-        kdf_context->key = key;
+        kdf_set_key(kdf_context, key);
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
@@ -418,10 +434,7 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
-            sa_key_release(kdf_context->key);
-
-        kdf_context->key = key;
+        kdf_set_key(kdf_context, key);
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
@@ -444,14 +457,22 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        kdf_context->digest_algorithm = digest_algorithm_from_name(name);
+        sa_digest_algorithm digest_algorithm = digest_algorithm_from_name(name);
+        if (digest_algorithm == UINT32_MAX && kdf_context->kdf_algorithm != SA_KDF_ALGORITHM_CMAC) {
+            ERROR("Unknown digest");
+            return 0;
+        }
+
+        kdf_context->digest_algorithm = digest_algorithm;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_SALT);
     if (param != NULL) {
         OPENSSL_free(kdf_context->salt);
         kdf_context->salt = NULL;
-        if (OSSL_PARAM_get_octet_string(param, &kdf_context->salt, SIZE_MAX, &kdf_context->salt_length) != 1) {
+        kdf_context->salt_length = 0;
+        if (param->data_size > 0 &&
+                OSSL_PARAM_get_octet_string(param, &kdf_context->salt, 0, &kdf_context->salt_length) != 1) {
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
         }
@@ -461,10 +482,34 @@ int kdf_set_ctx_params(
     if (param != NULL) {
         OPENSSL_free(kdf_context->info);
         kdf_context->info = NULL;
-        if (OSSL_PARAM_get_octet_string(param, &kdf_context->info, SIZE_MAX, &kdf_context->info_length) != 1) {
-            ERROR("OSSL_PARAM_get_octet_string failed");
-            return 0;
-        }
+        kdf_context->info_length = 0;
+        do {
+            if (param->data_size > 0) {
+                void* part = NULL;
+                size_t part_length = 0;
+                if (OSSL_PARAM_get_octet_string(param, &part, 0, &part_length) != 1) {
+                    ERROR("OSSL_PARAM_get_octet_string failed");
+                    return 0;
+                }
+
+                uint8_t* info = OPENSSL_realloc(kdf_context->info, kdf_context->info_length + part_length);
+                if (info == NULL) {
+                    ERROR("OPENSSL_realloc failed");
+                    OPENSSL_free(part);
+                    return 0;
+                }
+
+                memcpy(info + kdf_context->info_length, part, part_length);
+                OPENSSL_free(part);
+                kdf_context->info = info;
+                kdf_context->info_length += part_length;
+            }
+
+            // The info of HKDF can be given in several parts, which are joined.
+            param = kdf_context->kdf_algorithm == SA_KDF_ALGORITHM_HKDF
+                            ? OSSL_PARAM_locate_const(param + 1, OSSL_KDF_PARAM_INFO)
+                            : NULL;
+        } while (param != NULL);
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_KBKDF_USE_SEPARATOR);
-- 
2.43.0


From 623e91f4b201c7445de1ad0b594a8934448b4df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 58/66] fix: provider keys are compared by their public keys

---
 reference/src/client/src/sa_provider_keymgt.c | 31 ++++++++++++++++---
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 27d56c7..b5672ef 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -265,7 +265,7 @@ static void* keymgmt_dup(
 
 static int keymgmt_has(
         const void* keydata,
-        ossl_unused int selection) {
+        int selection) {
 
     if (keydata == NULL) {
         ERROR("NULL keydata");
@@ -273,13 +273,19 @@ static int keymgmt_has(
     }
 
     const sa_provider_key_data* key_data = keydata;
-    return key_data->private_key != INVALID_HANDLE;
+    if ((selection & OSSL_KEYMGMT_SELECT_PRIVATE_KEY) != 0 && key_data->private_key == INVALID_HANDLE)
+        return 0;
+
+    if ((selection & OSSL_KEYMGMT_SELECT_PUBLIC_KEY) != 0 && key_data->public_key == NULL)
+        return 0;
+
+    return 1;
 }
 
 static int keymgmt_match(
         const void* keydata1,
         const void* keydata2,
-        ossl_unused int selection) {
+        int selection) {
 
     if (keydata1 == NULL) {
         ERROR("NULL keydata1");
@@ -292,8 +298,23 @@ static int keymgmt_match(
     }
 
     const sa_provider_key_data* key_data1 = keydata1;
-    const sa_provider_key_data* key_data2 = keydata1;
-    return key_data1->private_key == key_data2->private_key;
+    const sa_provider_key_data* key_data2 = keydata2;
+    if (key_data1->type != key_data2->type)
+        return 0;
+
+    if (key_data1->public_key != NULL && key_data2->public_key != NULL) {
+        if ((selection & OSSL_KEYMGMT_SELECT_KEYPAIR) != 0)
+            return EVP_PKEY_eq(key_data1->public_key, key_data2->public_key) == 1;
+
+        return EVP_PKEY_parameters_eq(key_data1->public_key, key_data2->public_key) == 1;
+    }
+
+    if ((selection & OSSL_KEYMGMT_SELECT_KEYPAIR) != 0)
+        return 0;
+
+    // At least one side has nothing but its parameters.
+    return memcmp(&key_data1->private_key_header.type_parameters, &key_data2->private_key_header.type_parameters,
+                   sizeof(key_data1->private_key_header.type_parameters)) == 0;
 }
 
 static int keymgmt_import(
-- 
2.43.0


From 6d71385733a234350ef6fcdfd778e0f866443e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 59/66] fix: DH parameters larger than SecAPI supports are
 refused

---
 reference/src/client/src/sa_provider_keymgt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index b5672ef..b79fdb0 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -455,7 +455,11 @@ static int keymgmt_import(
 
                     if (OSSL_PARAM_get_BN(g_param, &g) != 1) {
                         ERROR("OSSL_PARAM_get_BN failed");
-                        BN_free(p);
+                        break;
+                    }
+
+                    if (BN_num_bytes(p) > DH_MAX_MOD_SIZE || BN_num_bytes(g) > DH_MAX_MOD_SIZE) {
+                        ERROR("DH parameters too large");
                         break;
                     }
 
-- 
2.43.0


From 445a17315603360d044aecf0edc2bab29b04720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 60/66] fix: RSA key sizes that are not whole bytes and groups
 of another key type are refused

---
 reference/src/client/src/sa_provider_keymgt.c | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index b79fdb0..57d9982 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -1001,6 +1001,11 @@ static int keymgmt_gen_set_params(
             return 0;
         }
 
+        if (key_size % 8 != 0) {
+            ERROR("Key size is not a whole number of bytes");
+            return 0;
+        }
+
         key_gen_context->key_size = key_size / 8;
     }
 
@@ -1013,11 +1018,31 @@ static int keymgmt_gen_set_params(
             return 0;
         }
 
-        key_gen_context->type_parameters.curve = ec_get_curve_from_name(name);
-        if (key_gen_context->type_parameters.curve == UINT32_MAX) {
+        sa_elliptic_curve curve = ec_get_curve_from_name(name);
+        bool valid;
+        switch (key_gen_context->type) {
+            case EVP_PKEY_EC:
+                valid = is_pcurve(curve);
+                break;
+
+            case EVP_PKEY_X25519:
+            case EVP_PKEY_X448:
+            case EVP_PKEY_ED25519:
+            case EVP_PKEY_ED448:
+                valid = curve == key_gen_context->type_parameters.curve;
+                break;
+
+            default:
+                valid = false;
+                break;
+        }
+
+        if (!valid) {
             ERROR("Unknown curve name");
             return 0;
         }
+
+        key_gen_context->type_parameters.curve = curve;
     }
 
     return 1;
-- 
2.43.0


From c2f9b571b69f0663b4ad401d244dcdb8959a0d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:08 +0000
Subject: [PATCH 61/66] fix: common encryption accepts input and output buffers
 that touch without overlapping

---
 reference/src/taimpl/src/ta_sa_process_common_encryption.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 2754fca..bc04056 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -152,10 +152,7 @@ static sa_status verify_sample(
         // Check if the buffers overlap.
         uint8_t* out_bytes_end = out_bytes + required_length;
         uint8_t* in_bytes_end = in_bytes + required_length;
-        if ((out_bytes >= in_bytes && out_bytes <= in_bytes_end) ||
-                (out_bytes_end >= in_bytes && out_bytes_end <= in_bytes_end) ||
-                (in_bytes >= out_bytes && in_bytes <= out_bytes_end) ||
-                (in_bytes_end >= out_bytes && in_bytes_end <= out_bytes_end)) {
+        if (out_bytes < in_bytes_end && in_bytes < out_bytes_end) {
             ERROR("Overlapping in and out buffers");
             status = SA_STATUS_INVALID_PARAMETER;
             break;
-- 
2.43.0


From cf8cb0f771407b277daaf5fa65d69229a5fcff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:49 +0000
Subject: [PATCH 62/66] fix: report success of provisioning only for known key
 types

---
 reference/src/taimpl/src/internal/ta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index cf2ece5..95fd103 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -510,7 +510,7 @@ static sa_status ta_invoke_key_provision(
               break;
 	  default:
 	      ERROR("unknown key provisioning type");
-              break;
+              return SA_STATUS_INVALID_PARAMETER;
      }
      INFO("ta_key_type: %d", ta_key_type);
      INFO("in_length: %d", in_length);
-- 
2.43.0


From 88bba08e4743f9a327b31cdb9883569bdcb99410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:23 +0000
Subject: [PATCH 63/66] fix: retry loading the provider after a failure instead
 of keeping its mutex locked

---
 reference/src/client/src/sa_provider.c | 43 +++++++++++++++-----------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/reference/src/client/src/sa_provider.c b/reference/src/client/src/sa_provider.c
index 026eec8..1acbdbb 100644
--- a/reference/src/client/src/sa_provider.c
+++ b/reference/src/client/src/sa_provider.c
@@ -30,6 +30,7 @@
 #include <openssl/core_names.h>
 #include <openssl/params.h>
 #include <openssl/provider.h>
+#include <stdbool.h>
 #include <threads.h>
 
 mtx_t mutex;
@@ -206,12 +207,7 @@ static int sa_provider_init(
     return 1;
 }
 
-static void sa_provider_shutdown() {
-    if (mtx_lock(&mutex) != 0) {
-        ERROR("mtx_lock failed");
-        return;
-    }
-
+static void sa_provider_unload() {
     if (sa_provider != NULL) {
         OSSL_PROVIDER_unload(sa_provider);
         sa_provider = NULL;
@@ -226,59 +222,70 @@ static void sa_provider_shutdown() {
         OSSL_LIB_CTX_free(lib_ctx);
         lib_ctx = NULL;
     }
+}
+
+static void sa_provider_shutdown() {
+    if (mtx_lock(&mutex) != 0) {
+        ERROR("mtx_lock failed");
+        return;
+    }
 
+    sa_provider_unload();
     mtx_unlock(&mutex);
     mtx_destroy(&mutex);
 }
 
-static void sa_provider_load() {
+static void sa_provider_mutex_create() {
     if (mtx_init(&mutex, mtx_plain | mtx_recursive) != thrd_success) {
         ERROR("mtx_init failed");
     }
+}
 
-    if (mtx_lock(&mutex) != 0) {
-        ERROR("mtx_lock failed");
-        return;
-    }
-
+static bool sa_provider_load() {
     lib_ctx = OSSL_LIB_CTX_new();
     if (lib_ctx == NULL) {
         ERROR("OSSL_LIB_CTX_new failed");
-        return;
+        return false;
     }
 
     if (OSSL_PROVIDER_add_builtin(lib_ctx, SA_PROVIDER_ID, sa_provider_init) != 1) {
         ERROR("OSSL_PROVIDER_add_builtin failed");
-        return;
+        return false;
     }
 
     base_provider = OSSL_PROVIDER_load(lib_ctx, "base");
     if (base_provider == NULL) {
         ERROR("OSSL_PROVIDER_load failed");
-        return;
+        return false;
     }
 
     sa_provider = OSSL_PROVIDER_load(lib_ctx, SA_PROVIDER_ID);
     if (sa_provider == NULL) {
         ERROR("OSSL_PROVIDER_load failed");
-        return;
+        return false;
     }
 
     if (atexit(sa_provider_shutdown) != 0) {
         ERROR("atexit failed");
     }
 
-    mtx_unlock(&mutex);
+    return true;
 }
 
 OSSL_LIB_CTX* sa_get_provider() {
-    call_once(&flag, sa_provider_load);
+    call_once(&flag, sa_provider_mutex_create);
 
     if (mtx_lock(&mutex) != 0) {
         ERROR("mtx_lock failed");
         return NULL;
     }
 
+    // a load that failed leaves nothing behind and is tried again by the next call
+    if (lib_ctx == NULL && !sa_provider_load()) {
+        ERROR("sa_provider_load failed");
+        sa_provider_unload();
+    }
+
     OSSL_LIB_CTX* provider_context = lib_ctx;
     if (provider_context == NULL) {
         ERROR("NULL provider_context");
-- 
2.43.0


From 8343de02f12b7370d205c29d5f6e9e0edc2076f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:28 +0000
Subject: [PATCH 64/66] fix: release a private key whose import into the
 provider failed half way

---
 reference/src/client/src/sa_provider_keymgt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 57d9982..b21efdb 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -336,6 +336,7 @@ static int keymgmt_import(
     BIGNUM* g = NULL;
     sa_key private_key = INVALID_HANDLE;
     int delete_key = 0;
+    bool imported = false;
     sa_header private_key_header;
     memset(&private_key_header, 0, sizeof(sa_header));
     do {
@@ -415,6 +416,7 @@ static int keymgmt_import(
                         break;
                     }
 
+                    imported = true;
                     // Free the private key, public key will be reloaded below.
                     EVP_PKEY_free(evp_pkey);
                     delete_key = 1;
@@ -537,6 +539,9 @@ static int keymgmt_import(
     BN_free(p);
     BN_free(g);
     if (result != 1) {
+        if (imported)
+            sa_key_release(private_key);
+
         if (key_data->private_key != INVALID_HANDLE) {
             sa_key_release(key_data->private_key);
             key_data->private_key = INVALID_HANDLE;
-- 
2.43.0


From e35d3f1eb6fe08d57e69867df73c04e8beb60736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:58 +0000
Subject: [PATCH 65/66] fix: report a numeric PSS salt length asked for as a
 string

---
 reference/src/client/src/sa_provider_signature.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 14dcbf6..ae4e1fd 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -33,6 +33,7 @@
 #include <openssl/crypto.h>
 #include <openssl/evp.h>
 #include <openssl/rsa.h>
+#include <stdio.h>
 
 #define RSA_DEFAULT_PADDING_MODE RSA_PKCS1_PADDING
 #define RSA_DEFAULT_PSS_SALT_LENGTH RSA_PSS_SALTLEN_AUTO
@@ -912,6 +913,7 @@ static int signature_get_ctx_params(
             }
         } else if (param->data_type == OSSL_PARAM_UTF8_STRING) {
             const char* value;
+            char number[MAX_NAME_SIZE];
             switch (signature_context->pss_salt_length) {
                 case RSA_PSS_SALTLEN_DIGEST:
                     value = OSSL_PKEY_RSA_PSS_SALT_LEN_DIGEST;
@@ -926,8 +928,9 @@ static int signature_get_ctx_params(
                     break;
 
                 default:
-                    ERROR("Unknown salt length");
-                    return 0;
+                    snprintf(number, sizeof(number), "%d", signature_context->pss_salt_length);
+                    value = number;
+                    break;
             }
 
             if (OSSL_PARAM_set_utf8_string(param, value) != 1) {
-- 
2.43.0


From 0a4dedc65e49dd980b9bf0ec93acfcd7e70fea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:20 +0000
Subject: [PATCH 66/66] fix: the provider's ECB ciphers have no IV

---
 reference/src/client/src/sa_provider_cipher.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 9b11d89..dc4a320 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -770,10 +770,10 @@ static const OSSL_PARAM* cipher_settable_ctx_params(
             {OSSL_FUNC_CIPHER_SETTABLE_CTX_PARAMS, (void (*)(void)) cipher_settable_ctx_params}, \
             {0, NULL}}
 // clang-format off
-SA_PROVIDER_CIPHER_FUNCTIONS(aes, ecb, 128, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, EVP_CIPH_ECB_MODE, AES_BLOCK_SIZE,
-        AES_BLOCK_SIZE, false);
-SA_PROVIDER_CIPHER_FUNCTIONS(aes, ecb, 256, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, EVP_CIPH_ECB_MODE, AES_BLOCK_SIZE,
-        AES_BLOCK_SIZE, false);
+SA_PROVIDER_CIPHER_FUNCTIONS(aes, ecb, 128, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, EVP_CIPH_ECB_MODE, 0, AES_BLOCK_SIZE,
+        false);
+SA_PROVIDER_CIPHER_FUNCTIONS(aes, ecb, 256, SA_CIPHER_ALGORITHM_AES_ECB_PKCS7, EVP_CIPH_ECB_MODE, 0, AES_BLOCK_SIZE,
+        false);
 SA_PROVIDER_CIPHER_FUNCTIONS(aes, cbc, 128, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, EVP_CIPH_CBC_MODE, AES_BLOCK_SIZE,
         AES_BLOCK_SIZE, false);
 SA_PROVIDER_CIPHER_FUNCTIONS(aes, cbc, 256, SA_CIPHER_ALGORITHM_AES_CBC_PKCS7, EVP_CIPH_CBC_MODE, AES_BLOCK_SIZE,
-- 
2.43.0

