From fa85e2ca354e131e2bf7c157bef7b6650322f6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:55 +0000
Subject: [PATCH 01/29] fix: map a digest that truncates to zero to one, as the
 zero digest is

The zero test ran before the digest was cut to the field size, so signing a
digest whose low bits are all zero never terminated and verifying one never
succeeded.
---
 engine/sign.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..f3d2425 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -42,10 +42,13 @@ static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
     }
 
     OPENSSL_free(h);
+    if (!bn_truncate_bits(fe, fieldsize))
+        return 0;
+
     if (BN_is_zero(fe))
-        BN_one(fe);
+        return BN_one(fe);
 
-    return bn_truncate_bits(fe, fieldsize);
+    return 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From a833bdaf8d5fd0f70b1f00cb9d360abbb6ed0fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 02/29] fix: treat an absent sbox as the default one when
 comparing key parameters

---
 engine/ameth.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..228c570 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -139,16 +139,11 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    /* No sbox means the default one, so a key with an explicit default sbox is the same as a key without sbox */
+    if (memcmp(first->sbox ? first->sbox : default_sbox,
+               second->sbox ? second->sbox : default_sbox,
+               sizeof(default_sbox)))
+        return 0;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
-- 
2.43.0


From 6fba30194864f593957b156f73053057586e8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:51 +0000
Subject: [PATCH 03/29] fix: do not dereference a missing public key when
 comparing public keys

---
 engine/ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 228c570..f466bec 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -633,6 +633,10 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
 
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
+    if (!EC_KEY_get0_group(first->ec) || !EC_KEY_get0_public_key(first->ec) ||
+        !EC_KEY_get0_public_key(second->ec))
+        return -2;
+
     if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_public_key(first->ec),
                      EC_KEY_get0_public_key(second->ec), NULL))
-- 
2.43.0


From c3a5eff41d15565bf9cb6354bf97ded2beda37fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:18 +0000
Subject: [PATCH 04/29] fix: recompute the gamma when the cipher key is set
 without an iv

---
 engine/cipher.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..a6f389e 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -37,9 +37,12 @@ static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
         gost_key(gctx, key);
 
     if (iv)
-    {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
+
+    /* The gamma depends on both key and iv, which may be set by separate calls */
+    if (key || iv)
+    {
+        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
         gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
         EVP_CIPHER_CTX_set_num(ctx, 0);
     }
-- 
2.43.0


From 3593a1a11383299a1c7707f71627e410c40ed81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:53 +0000
Subject: [PATCH 05/29] fix: keep a custom sbox of the cipher when the key or
 the iv is set later

---
 engine/cipher.c | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index a6f389e..00ea7a4 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -23,15 +23,26 @@
 /* 2 bytes for sequence header, 2 bytes for each octet string header and 8 bytes for iv and 64 bytes for dke. Total 78 < 128 so we are ok with 1 byte length */
 #define DSTU_CIPHER_ASN1_PARAM_SIZE (2 + 2 + DSTU_CIPHER_BLOCK_SIZE + 2 + sizeof(default_sbox))
 
+struct dstu_cipher_ctx
+{
+    gost_ctx gctx;
+    int has_custom_sbox;
+};
+
 static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    struct dstu_cipher_ctx *cctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    gost_ctx *gctx = &(cctx->gctx);
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
+    /* A sbox set earlier (by control or ASN.1 parameters) stays in force when the key or the iv is set */
+    if (!cctx->has_custom_sbox)
+    {
+        unpack_sbox(default_sbox, &sbox);
+        gost_init(gctx, &sbox);
+    }
 
     if (key)
         gost_key(gctx, key);
@@ -154,7 +165,8 @@ static int dstu_cipher_cleanup(EVP_CIPHER_CTX *ctx)
 static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
 {
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    struct dstu_cipher_ctx *cctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    gost_ctx *gctx = &(cctx->gctx);
 
     switch (cmd)
     {
@@ -165,6 +177,8 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
             gost_init(gctx, &sbox);
             memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
             gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            EVP_CIPHER_CTX_set_num(ctx, 0);
+            cctx->has_custom_sbox = 1;
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
@@ -241,7 +255,7 @@ EVP_CIPHER *dstu_cipher_new()
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(gost_ctx)) ||
+        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(struct dstu_cipher_ctx)) ||
         !EVP_CIPHER_meth_set_set_asn1_params(res, dstu_cipher_set_asn1_parameters) ||
         !EVP_CIPHER_meth_set_get_asn1_params(res, dstu_cipher_get_asn1_parameters) ||
         !EVP_CIPHER_meth_set_ctrl(res, dstu_cipher_ctrl))
-- 
2.43.0


From a0b389926f80b5f4a4e8b215012971af2b3924e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:58 +0000
Subject: [PATCH 06/29] fix: digest must not read another algorithm's key as a
 DSTU key

---
 engine/md.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/engine/md.c b/engine/md.c
index 9be9572..268472e 100644
--- a/engine/md.c
+++ b/engine/md.c
@@ -28,7 +28,9 @@ static int dstu_md_init(EVP_MD_CTX *ctx)
     struct dstu_digest_ctx *c = EVP_MD_CTX_md_data(ctx);
     EVP_PKEY_CTX *pkey_ctx = EVP_MD_CTX_pkey_ctx(ctx);
     EVP_PKEY *pkey = pkey_ctx ? EVP_PKEY_CTX_get0_pkey(pkey_ctx) : NULL;
-    DSTU_KEY *dstu_key = pkey ? EVP_PKEY_get0(pkey) : NULL;
+    int type = pkey ? EVP_PKEY_id(pkey) : NID_undef;
+    /* A key of another algorithm has no sbox for us */
+    DSTU_KEY *dstu_key = (NID_dstu4145le == type || NID_dstu4145be == type) ? EVP_PKEY_get0(pkey) : NULL;
     unsigned char *sbox_source = dstu_key && dstu_key->sbox ? dstu_key->sbox : default_sbox;
 
     unpack_sbox(sbox_source, &sbox);
-- 
2.43.0


From 260bf29935f90c48725fe2470240a0909271c3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:16 +0000
Subject: [PATCH 07/29] fix: keep the remaining bits of a MAC whose length is
 not a multiple of 8

---
 dstulib/gost/gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dstulib/gost/gost89.c b/dstulib/gost/gost89.c
index 337204b..487f78b 100644
--- a/dstulib/gost/gost89.c
+++ b/dstulib/gost/gost89.c
@@ -575,7 +575,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From 07e1748866e118c99ea0d420a9334fab90e12347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:19 +0000
Subject: [PATCH 08/29] fix: do not use the random generator state when its
 lock cannot be taken

---
 engine/rbg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..1553c2f 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -112,7 +112,8 @@ static int dstu_rbg_status_nolock(void)
 
 static int dstu_rbg_status(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     int status = dstu_rbg_status_nolock();
 
@@ -127,7 +128,8 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
     byte j;
     int rv = 1;
 
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     if (!initialized)
     {
@@ -151,7 +153,8 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
 static void dstu_rbg_cleanup(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return;
 
     OPENSSL_cleanse(I, sizeof(I));
     OPENSSL_cleanse(s, sizeof(s));
-- 
2.43.0


From 7507d4eb50ee5d1d3a96d007836681c05840d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:19 +0000
Subject: [PATCH 09/29] fix: keep the random generator lock after cleanup

---
 engine/rbg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index 1553c2f..e1829ee 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -161,8 +161,8 @@ static void dstu_rbg_cleanup(void)
     OPENSSL_cleanse(&cryptor, sizeof(gost_ctx));
     initialized = 0;
 
+    /* The lock is created only once, so it has to outlive cleanup for the generator to be usable again */
     dstu_unlock();
-    CRYPTO_THREAD_lock_free(dstu_rand_lock);
 }
 
 RAND_METHOD dstu_rand_meth =
-- 
2.43.0


From 64732f31a0984aa4e6d0dce41b2c5d6a49f650fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 10/29] fix: refuse to expand a point when the trace selecting
 y cannot be computed

---
 dstulib/compress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..a28f58e 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -195,6 +195,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
-- 
2.43.0


From 74e3fb21f3674223046f946c6f293277e42dfd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 11/29] fix: check the temporary of the trace computation for
 NULL

---
 dstulib/compress.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index a28f58e..317fcfd 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -19,6 +19,8 @@ static int bn_trace(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
     BN_CTX_start(ctx);
 
     r = BN_CTX_get(ctx);
+    if (!r)
+        goto err;
 
     if (!BN_copy(r, bn))
         goto err;
-- 
2.43.0


From d9273424564a0395140815a55287e0a9b68767a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 12/29] fix: check allocations when encoding key parameters

---
 dstulib/key.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index aef4155..2515a6e 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -78,6 +78,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
         return NULL;
 
     params = DSTU_AlgorithmParameters_new();
+    if (!params)
+        return NULL;
 
     if (key->sbox)
     {
@@ -107,6 +109,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
             goto err;
 
         ctx = BN_CTX_new();
+        if (!ctx)
+            goto err;
         BN_CTX_start(ctx);
 
         p = BN_CTX_get(ctx);
-- 
2.43.0


From 811e6ed5b6c5d11a73bcd1950b502d5b1827a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 13/29] fix: check setting the curve coefficient when building
 a named curve

---
 dstulib/params.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dstulib/params.c b/dstulib/params.c
index f82780b..0faa87d 100644
--- a/dstulib/params.c
+++ b/dstulib/params.c
@@ -420,7 +420,10 @@ EC_GROUP *group_from_named_curve(int curve_num)
         goto err;
 
     if (*data)
-        BN_one(a);
+    {
+        if (!BN_one(a))
+            goto err;
+    }
     else
         BN_zero(a);
 
-- 
2.43.0


From 1457f4d5656b70174e6378d2444d34fc2851e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 14/29] fix: free the encoded parameters when encoding a
 private key fails

---
 engine/ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index f466bec..383e629 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -326,6 +326,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
     ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
+    encoded_params = NULL;
 
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
@@ -341,6 +342,9 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     err:
 
+    if (encoded_params)
+        OPENSSL_free(encoded_params);
+
     if (prk_encoded)
         OPENSSL_free(prk_encoded);
 
-- 
2.43.0


From d3b415cd67270ef7d2e2859d1e057bf7cd57cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:38 +0000
Subject: [PATCH 15/29] fix: printing an empty key must not crash and a failed
 print must not leak

---
 engine/ameth.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 383e629..a9cf0f4 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -161,9 +161,13 @@ static int dstu_asn1_param_print(BIO *out, const EVP_PKEY *pkey, int indent,
 
     (void) pctx; // Unused
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
     {
+        EVP_PKEY_free(pk);
         DSTUerr(DSTU_F_DSTU_ASN1_PARAM_PRINT, ERR_R_EVP_LIB);
         return 0;
     }
@@ -699,9 +703,15 @@ static int dstu_asn1_priv_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_private(out, pk, indent, pctx);
 
@@ -717,9 +727,15 @@ static int dstu_asn1_pub_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_public(out, pk, indent, pctx);
 
-- 
2.43.0


From 1fc7a71103217073a5f1917ce0f82d0286758968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:14 +0000
Subject: [PATCH 16/29] fix: do not sign when the signature size cannot be
 determined

---
 engine/pmeth.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 0c0592f..b0fde74 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -266,6 +266,8 @@ static int dstu_pkey_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen,
 
     field_size = BN_num_bytes(n);
     encoded_sig_size = EVP_PKEY_size(pkey);
+    if (!encoded_sig_size)
+        goto err;
 
     if (sig && encoded_sig_size > *siglen)
     {
-- 
2.43.0


From ca200f386bd4e023fbfd082c72f8437ab53d2d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 17/29] fix: do not encode a private key whose parameters could
 not be encoded

---
 engine/ameth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index a9cf0f4..5040f20 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -296,7 +296,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
 
     key = EVP_PKEY_get0(pk);
-- 
2.43.0


From 6c36229823fdae3e1d5eafa52cf6c63a70feae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 18/29] fix: report a failure to set the signer algorithms

---
 engine/ameth.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 5040f20..f6c44c3 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -664,11 +664,13 @@ static int dstu_asn1_pkey_ctrl(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 int nid = EVP_PKEY_base_id(pkey);
                 PKCS7_SIGNER_INFO_get0_algs((PKCS7_SIGNER_INFO *)arg2,
                                             NULL, &alg1, &alg2);
-                X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
-                                V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
+                                     V_ASN1_NULL, 0))
+                    return -1;
                 if (nid == NID_undef)
                     return (-1);
-                X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                    return -1;
             }
             return 1;
 #ifndef OPENSSL_NO_CMS
@@ -679,11 +681,13 @@ static int dstu_asn1_pkey_ctrl(EVP_PKEY *pkey, int op, long arg1, void *arg2)
                 int nid = EVP_PKEY_base_id(pkey);
                 CMS_SignerInfo_get0_algs((CMS_SignerInfo *)arg2,
                                          NULL, NULL, &alg1, &alg2);
-                X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
-                                V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg1, OBJ_nid2obj(NID_dstu34311),
+                                     V_ASN1_NULL, 0))
+                    return -1;
                 if (nid == NID_undef)
                     return -1;
-                X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0);
+                if (!X509_ALGOR_set0(alg2, OBJ_nid2obj(nid), V_ASN1_NULL, 0))
+                    return -1;
             }
             return 1;
 #endif
-- 
2.43.0


From be2afe6d20cabd8ef7f0963fc618668452d913ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 19/29] fix: report a digest or cipher that could not be
 created

---
 engine/dstu.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..5213c39 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -111,7 +111,7 @@ static int dstu_digests(ENGINE *e, const EVP_MD **digest, const int **nids,
         if (NID_dstu34311 == nid)
         {
             *digest = dstu_md_get();
-            return 1;
+            return *digest != NULL;
         }
         else
             return 0;
@@ -134,7 +134,7 @@ static int dstu_ciphers(ENGINE *e, const EVP_CIPHER **cipher, const int **nids,
         if (NID_dstu28147_cfb == nid)
         {
             *cipher = dstu_cipher_get();
-            return 1;
+            return *cipher != NULL;
         }
         else
             return 0;
@@ -201,8 +201,8 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_register_ciphers(e) ||
         !ENGINE_register_pkey_meths(e) ||
         !ENGINE_register_pkey_asn1_meths(e) ||
-        !EVP_add_digest(dstu_md_get()) ||
-        !EVP_add_cipher(dstu_cipher_get()) ||
+        !dstu_md_get() || !EVP_add_digest(dstu_md_get()) ||
+        !dstu_cipher_get() || !EVP_add_cipher(dstu_cipher_get()) ||
         !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL)) /* Adding our algorithms to support PBKDF2 */
     {
         DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
-- 
2.43.0


From c6fbebc11ca550a2579568ad285dfc1b8cb6480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 20/29] fix: check the new key method for NULL

---
 engine/ameth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index f6c44c3..c8bdcc3 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -758,6 +758,9 @@ EVP_PKEY_ASN1_METHOD *dstu_asn1_meth_new(int nid)
     else
         return NULL;
 
+    if (!res)
+        return NULL;
+
     EVP_PKEY_asn1_set_param(res, dstu_asn1_param_decode,
                             dstu_asn1_param_encode, /*dstu_asn1_param_missing*/NULL,
                             dstu_asn1_param_copy, dstu_asn1_param_cmp, dstu_asn1_param_print);
-- 
2.43.0


From d7c611759ac2428f57988d79aa9e21a3f0178c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:17 +0000
Subject: [PATCH 21/29] fix: do not leak the previous sbox when copying key
 parameters

---
 engine/ameth.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index c8bdcc3..adb6ce8 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -120,12 +120,13 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
 
     if (from_key->sbox)
     {
-        to_key->sbox = copy_sbox(from_key->sbox);
-        if (!to_key->sbox)
+        unsigned char *sbox = copy_sbox(from_key->sbox);
+        if (!sbox)
         {
             DSTUerr(DSTU_F_DSTU_ASN1_PARAM_COPY, ERR_R_MALLOC_FAILURE);
             return 0;
         }
+        DSTU_KEY_set(to_key, NULL, sbox);
     }
 
     return 1;
-- 
2.43.0


From beb6ab7735955ad342e11d056dd2de36109e7f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 22/29] fix: bound JKS parsing by the data size and check
 failed steps of key store building

The parser ignored the size of the data, so a truncated or malformed store was read
past its end. Allocation failures were not checked, and a failed load left a handle
to a released store. KeyStoreFree(NULL) is what a failed load is cleaned up with.
---
 keylib/jks.c               | 174 ++++++++++++++++++++++++++++++-------
 keylib/keystore.c          |  28 +++++-
 keylib/keystore_internal.h |   2 +-
 3 files changed, 168 insertions(+), 36 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..09d6876 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -47,6 +47,13 @@ static uint32_t read32(const void* base, size_t shift)
     return res;
 }
 
+// Checks that there are at least 'size' bytes from the 'shift' to the 'end'
+static int available(const void* base, const void* end, size_t shift, size_t size)
+{
+    const size_t total = (const unsigned char*)end - (const unsigned char*)base;
+    return shift <= total && size <= total - shift;
+}
+
 static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize)
 {
     size_t resSize = size * 2;
@@ -61,7 +68,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(res);
+        OPENSSL_free(buf);
+        BIO_free(res);
+        return 0;
+    }
+    if (res == NULL || buf == NULL)
+    {
+        iconv_close(cd);
+        OPENSSL_free(buf);
+        BIO_free(res);
         return 0;
     }
     while (ss > 0)
@@ -69,8 +84,13 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         d = buf;
         ds = bufSize;
         r = iconv(cd, (char**)&s, &ss, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
@@ -81,15 +101,28 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        d = OPENSSL_realloc(buf, bufSize);
+        if (d == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
+        buf = d;
     }
     for (;;)
     {
         d = buf;
         ds = bufSize;
         r = iconv(cd, NULL, NULL, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
@@ -100,7 +133,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        d = OPENSSL_realloc(buf, bufSize);
+        if (d == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
+        buf = d;
     }
     OPENSSL_free(buf);
     iconv_close(cd);
@@ -111,6 +152,11 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         return 0;
     }
     *dest = OPENSSL_malloc(*dsize);
+    if (*dest == NULL)
+    {
+        BIO_free(res);
+        return 0;
+    }
     memcpy(*dest, d, *dsize);
     BIO_free(res);
     return 1;
@@ -120,7 +166,8 @@ static int twoHash(const void* d1, size_t ds1, const void* d2, size_t ds2, void*
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
              EVP_DigestFinal_ex(ctx, digest, &ds) != 0;
@@ -132,7 +179,8 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, "Mighty Aphrodite", 16) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
@@ -141,24 +189,43 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
+    int r = 0;
+
+    if (!available(data, end, 0, sizeof(typeLength)))
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (!available(data, end, sizeof(typeLength) + typeLength, sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
+    if (!available(data, end, sizeof(typeLength) + typeLength + sizeof(dataLength), dataLength))
+        return NULL;
+    dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
 
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
 
     KeyStore* tks = KeyStoreNew(0, 1);
+    if (tks == NULL)
+    {
+        X509_free(x509);
+        return NULL;
+    }
 
     KeyStoreSetCert(tks, 0, x509);
-    KeyStoreAppend(ks, tks);
+    r = KeyStoreAppend(ks, tks);
 
     KeyStoreFree(tks);
 
+    if (r == 0)
+        return NULL;
+
     if (certPos != NULL)
         ++(*certPos);
 
@@ -180,9 +247,14 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (size <= saltLength + digestLength)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
+    if (decrypted == NULL)
+        return 0;
     for (i = 0; i < rounds; ++i)
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
@@ -218,11 +290,11 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     if (r != 0)
     {
-        KeyStoreAppend(ks, tks);
         if (keyPos != NULL)
             *keyPos += KeyStoreKeyNum(tks);
         if (certPos != NULL)
             *certPos += KeyStoreCertNum(tks);
+        r = KeyStoreAppend(ks, tks);
     }
 
     KeyStoreFree(tks);
@@ -270,6 +342,15 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     keyProtector = OBJ_txt2obj(keyProtectorOID, 1);
     pbes1 = OBJ_txt2obj(pbes1OID, 1);
 
+    if (keyProtector == NULL || pbes1 == NULL)
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
+
     if (OBJ_cmp(aobj, keyProtector) == 0)
     {
         if (fromKeyProtector(ASN1_STRING_get0_data(keyData), ASN1_STRING_length(keyData), pwd16, pwd16Length, ks, keyPos, certPos) == 0)
@@ -301,36 +382,51 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (!available(data, end, 0, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!available(data, end, sizeof(nameLength) + nameLength + 8, sizeof(dataLength)))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
+    if (!available(data, end, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength, sizeof(certNum)))
+        return NULL;
+    certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
+    dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
+    certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
+    if (!available(data, end, 0, sizeof(tag)))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
@@ -338,9 +434,10 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const unsigned char* entryPtr = NULL;
+    const void* end = ptrAt(data, size);
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -349,7 +446,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    if (!available(data, end, 0, sizeof(magic) + 4 + sizeof(entries)))
+        return 0;
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -363,23 +464,31 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         return 0;
 
     *ks = KeyStoreNew(0, 0); // Start from zero
+    if (*ks == NULL)
+    {
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
-    if (entryPtr == NULL)
+    if (entryPtr == NULL || !available(entryPtr, end, 0, digestLength))
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
+        OPENSSL_free(pwd16);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -389,6 +498,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         if (digest[j] != entryPtr[j])
         {
             KeyStoreFree(*ks);
+            *ks = NULL;
             return 0;
         }
 
diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..710a341 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -17,10 +17,17 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
 {
     size_t i = 0;
     KeyStore* res = OPENSSL_malloc(sizeof(KeyStore));
+    if (res == NULL)
+        return NULL;
     if (keyNum > 0)
     {
         res->keyNum = keyNum;
         res->keys = OPENSSL_malloc(keyNum * sizeof(EVP_PKEY*));
+        if (res->keys == NULL)
+        {
+            OPENSSL_free(res);
+            return NULL;
+        }
         for (i = 0; i < keyNum; ++i)
             res->keys[i] = NULL;
     }
@@ -33,6 +40,11 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     {
         res->certNum = certNum;
         res->certs = OPENSSL_malloc(certNum * sizeof(X509*));
+        if (res->certs == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
         for (i = 0; i < certNum; ++i)
             res->certs[i] = NULL;
     }
@@ -44,12 +56,16 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     return res;
 }
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from)
+int KeyStoreAppend(KeyStore* to, KeyStore* from)
 {
     size_t i = 0;
+    void* ptr = NULL;
     if (from->keyNum > 0)
     {
-        to->keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        ptr = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        if (ptr == NULL)
+            return 0;
+        to->keys = ptr;
         for (i = 0; i < from->keyNum; ++i)
         {
             to->keys[to->keyNum + i] = from->keys[i];
@@ -59,7 +75,10 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
     }
     if (from->certNum > 0)
     {
-        to->certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        ptr = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        if (ptr == NULL)
+            return 0;
+        to->certs = ptr;
         for (i = 0; i < from->certNum; ++i)
         {
             to->certs[to->certNum + i] = from->certs[i];
@@ -67,11 +86,14 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         }
         to->certNum += from->certNum;
     }
+    return 1;
 }
 
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
diff --git a/keylib/keystore_internal.h b/keylib/keystore_internal.h
index 7c20726..146edfa 100644
--- a/keylib/keystore_internal.h
+++ b/keylib/keystore_internal.h
@@ -8,7 +8,7 @@ extern "C" {
 
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum);
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from);
+int KeyStoreAppend(KeyStore* to, KeyStore* from);
 
 void KeyStoreSetKey(KeyStore* ks, size_t pos, EVP_PKEY* key);
 void KeyStoreSetCert(KeyStore* ks, size_t pos, X509* cert);
-- 
2.43.0


From 0bde7044dd9266ef1a3e2bb0fac373edcd29d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 23/29] fix: check failed steps while building a key from
 PKCS#8 attributes

A malformed field polynomial crashed the process, and groups and keys leaked.
---
 keylib/utils.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..2586f9c 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -51,6 +51,8 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     length = ASN1_STRING_length(str);
     data = ASN1_STRING_get0_data(str);
     buf = OPENSSL_malloc(length);
+    if (buf == NULL)
+        return NULL;
     for (i = 0; i < length; ++i)
     {
         // Swap bits
@@ -73,6 +75,8 @@ static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
 {
     BIGNUM* res = BN_CTX_get(ctx);
     int poly[6];
+    if (res == NULL)
+        return NULL;
     poly[0] = ASN1_INTEGER_get(field->m);
     if (field->poly->type == 0)
     {
@@ -99,6 +103,8 @@ static EC_POINT* makePoint(BN_CTX* ctx, const EC_GROUP* group, const ASN1_OCTET_
 {
     (void) ctx;
     EC_POINT* res = EC_POINT_new(group);
+    if (res == NULL)
+        return NULL;
     if (dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
     {
         EC_POINT_free(res);
@@ -116,7 +122,10 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
     EC_POINT* point = NULL;
     EC_GROUP* res = NULL;
 
-    ASN1_INTEGER_to_BN(spec->a, a);
+    if (poly == NULL || a == NULL || b == NULL || n == NULL ||
+        ASN1_INTEGER_to_BN(spec->a, a) == NULL ||
+        ASN1_INTEGER_to_BN(spec->n, n) == NULL)
+        return NULL;
 
     res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
 
@@ -135,7 +144,6 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
         EC_GROUP_free(res);
         return NULL;
     }
-    ASN1_INTEGER_to_BN(spec->n, n);
     if (EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
     {
         EC_GROUP_free(res);
@@ -178,12 +186,16 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     DSTU_KEY* key = NULL;
     EVP_PKEY* res = NULL;
 
+    if (ctx == NULL)
+        return NULL;
+
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
     group = makeECGROUP(ctx, curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -204,6 +216,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
@@ -238,6 +251,9 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
     int nattr = sk_X509_ATTRIBUTE_num(attributes);
     int i = 0;
 
+    if (dstu4145Curve == NULL || dstu4145Key == NULL)
+        nattr = 0;
+
     for (i = 0; i < nattr; ++i)
     {
         attr = sk_X509_ATTRIBUTE_value(attributes, i);
@@ -284,11 +300,22 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
     if (pkey2 == NULL)
     {
         *ks = KeyStoreNew(1, 0);
+        if (*ks == NULL)
+        {
+            EVP_PKEY_free(pkey1);
+            return 0;
+        }
         KeyStoreSetKey(*ks, 0, pkey1);
         return 1;
     }
 
     *ks = KeyStoreNew(2, 0);
+    if (*ks == NULL)
+    {
+        EVP_PKEY_free(pkey1);
+        EVP_PKEY_free(pkey2);
+        return 0;
+    }
     KeyStoreSetKey(*ks, 0, pkey1);
     KeyStoreSetKey(*ks, 1, pkey2);
 
-- 
2.43.0


From a3f37f6774b7bae523b4b5c6f9597f310a9bc3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 24/29] fix: do not parse uninitialised memory after a Key-6
 decryption, check allocations

---
 keylib/key6.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..3fcf550 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -50,6 +50,14 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     unsigned char* res = OPENSSL_malloc(resSize);
     int r = 0;
 
+    if (source == NULL || res == NULL)
+    {
+        OPENSSL_free(source);
+        OPENSSL_free(res);
+        return 0;
+    }
+
+    memset(res, 0, resSize);
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
     pkdf(password, passSize, key);
@@ -82,7 +90,7 @@ int parseKey6(const void* data, size_t size, const char* password, size_t passSi
     }
     // Type check
     correctType = OBJ_txt2obj(iitStoreOID, 1);
-    if (OBJ_cmp(store->header->type, correctType) != 0)
+    if (correctType == NULL || OBJ_cmp(store->header->type, correctType) != 0)
     {
         ASN1_OBJECT_free(correctType);
         IITStore_free(store);
-- 
2.43.0


From ed03f216c1f2164c52e7b06502a313c58e623313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 25/29] fix: do not leave a handle to a released store after a
 failed PKCS#12 load

---
 keylib/pkcs12.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..0476886 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -200,9 +200,11 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
 
     *ks = KeyStoreNew(numKeys, numCerts);
 
-    if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
+    if (*ks == NULL ||
+        fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
-- 
2.43.0


From 000ea84746cf4fc1cd623addfe1c131844d534d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 26/29] fix: skip alias and timestamp of a JKS trusted
 certificate entry

A store written by keytool -importcert could not be loaded.
---
 keylib/jks.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 09d6876..c33d356 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -415,6 +415,18 @@ static const void* parseKey(const void* data, const void* end, const char* keyPa
     return certPtr;
 }
 
+static const void* parseTrustedCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
+{
+    uint16_t nameLength = 0;
+
+    if (!available(data, end, 0, sizeof(nameLength)))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (!available(data, end, sizeof(nameLength) + nameLength, 8)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    return parseCert(ptrAt(data, sizeof(nameLength) + nameLength + 8), end, ks, certPos);
+}
+
 static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
     uint32_t tag = 0;
@@ -426,7 +438,7 @@ static const void* parseEntry(const void* data, const void* end, const char* key
         case JKS_ENTRY_PRIVATE_KEY:
             return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
+            return parseTrustedCert(ptrAt(data, sizeof(tag)), end, ks, certPos);
     }
     return NULL;
 }
-- 
2.43.0


From afb98cef6865ccb49135a3ce78ae334ec6a03bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:58 +0000
Subject: [PATCH 27/29] fix: do not leak a number when the BN context is
 exhausted in PKCS#8 attribute parsing

---
 keylib/utils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 2586f9c..f0201c9 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -64,7 +64,9 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         buf[length - i - 1] = b;
     }
 
-    res = BN_bin2bn(buf,length, BN_CTX_get(ctx));
+    res = BN_CTX_get(ctx);
+    if (res != NULL && BN_bin2bn(buf, length, res) == NULL)
+        res = NULL;
 
     OPENSSL_clear_free(buf, length);
 
@@ -117,12 +119,13 @@ static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* sp
 {
     BIGNUM* poly = makePoly(ctx, spec->field);
     BIGNUM* a = BN_CTX_get(ctx);
-    BIGNUM* b = BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), BN_CTX_get(ctx));
+    BIGNUM* b = BN_CTX_get(ctx);
     BIGNUM* n = BN_CTX_get(ctx);
     EC_POINT* point = NULL;
     EC_GROUP* res = NULL;
 
     if (poly == NULL || a == NULL || b == NULL || n == NULL ||
+        BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), b) == NULL ||
         ASN1_INTEGER_to_BN(spec->a, a) == NULL ||
         ASN1_INTEGER_to_BN(spec->n, n) == NULL)
         return NULL;
-- 
2.43.0


From 4a6b4d1383689f41404f6e2457c5ae0ca7391407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:55 +0000
Subject: [PATCH 28/29] fix: keep the registered methods alive until the engine
 is destroyed

---
 engine/dstu.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/engine/dstu.c b/engine/dstu.c
index 5213c39..ce19e72 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -9,6 +9,7 @@
 #include <openssl/err.h>
 #include <openssl/evp.h>
 #include <openssl/obj_mac.h>
+#include <openssl/objects.h>
 #include <openssl/ossl_typ.h>
 
 #include <string.h>
@@ -94,8 +95,33 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
+    return 1;
+}
+
+/* The methods are known to libcrypto under their names from binding on, and
+ * the engine can be initialized again after it was finished, so that they
+ * have to live as long as the engine itself. */
+static int dstu_engine_destroy(ENGINE *e)
+{
+    unsigned long long i = 0;
+    (void) e; // Unused
+
+    OBJ_NAME_remove(OBJ_nid2sn(NID_dstu28147_cfb), OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(OBJ_nid2ln(NID_dstu28147_cfb), OBJ_NAME_TYPE_CIPHER_METH);
+    OBJ_NAME_remove(OBJ_nid2sn(NID_dstu34311), OBJ_NAME_TYPE_MD_METH);
+    OBJ_NAME_remove(OBJ_nid2ln(NID_dstu34311), OBJ_NAME_TYPE_MD_METH);
+
     dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
     dstu_digest_free(dstu_md);
+    dstu_md = NULL;
+
+    /* Freed by libcrypto together with the engine */
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        dstu_pkey_methods[i] = NULL;
+        dstu_asn1_methods[i] = NULL;
+    }
 
     ERR_unload_DSTU_strings();
 
@@ -191,6 +217,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
-- 
2.43.0


From 1cf08ebce8c318435dacc0373ff6a1366552f993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:18 +0000
Subject: [PATCH 29/29] fix: create the key methods when the engine is bound,
 concurrent lookups raced and lost one

---
 engine/dstu.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/engine/dstu.c b/engine/dstu.c
index ce19e72..f771870 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -230,6 +230,9 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_register_pkey_asn1_meths(e) ||
         !dstu_md_get() || !EVP_add_digest(dstu_md_get()) ||
         !dstu_cipher_get() || !EVP_add_cipher(dstu_cipher_get()) ||
+        /* Several threads may look the methods up at once, so that they are created here */
+        !dstu_pkey_meth_get(NID_dstu4145le) || !dstu_pkey_meth_get(NID_dstu4145be) ||
+        !dstu_asn1_meth_get(NID_dstu4145le) || !dstu_asn1_meth_get(NID_dstu4145be) ||
         !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL)) /* Adding our algorithms to support PBKDF2 */
     {
         DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
-- 
2.43.0

