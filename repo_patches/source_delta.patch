From fd4c59c901814514a8abd83fd1ca23483a7a40a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 01/14] fix: random: a short read left the rest of the buffer
 unfilled

---
 src/random.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random.c b/src/random.c
index f763266..0e5cf67 100644
--- a/src/random.c
+++ b/src/random.c
@@ -56,11 +56,13 @@ void fingera_os_rand_bytes(void *buf, size_t buf_size) {
   if (fd < 0) {
     FINGERA_FATAL("open /dev/urandom");
   }
+  char *out = (char *)buf;
   while (buf_size != 0) {
-    int r = read(fd, buf, buf_size);
+    int r = read(fd, out, buf_size);
     if (r <= 0) {
       FINGERA_FATAL("read /dev/urandom %d", r);
     }
+    out += r;
     buf_size -= (size_t)r;
   }
   close(fd);
-- 
2.43.0


From 297539c0a465bf51a020c0b8deb59315483c4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 02/14] fix: base32: decoder read past str_len, indexed its
 table with negative chars and accepted illegal tail characters

---
 src/base32.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/base32.c b/src/base32.c
index 36d3e7f..9a5a135 100644
--- a/src/base32.c
+++ b/src/base32.c
@@ -185,7 +185,7 @@ size_t fingera_to_base32_raw(const void *buf, size_t buf_size, void *out) {
 }
 
 static inline size_t base32_strlen(const char *str, size_t str_len) {
-  const char *str_end = strchr(str, '=');
+  const char *str_end = (const char *)memchr(str, '=', str_len);
   if (!str_end) return str_len;
   return str_end - str;
 }
@@ -203,21 +203,22 @@ size_t fingera_from_base32_raw_length(size_t new_len) {
 
 static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
                                    int is_raw) {
-  size_t new_len = base32_strlen(str, str_len);
+  size_t new_len = is_raw ? str_len : base32_strlen(str, str_len);
   size_t tail = new_len % 8;
   size_t blocks = new_len / 8;
-  const char *tail_str = str + blocks * 8;
+  const uint8_t *input = (const uint8_t *)str;
+  const uint8_t *tail_str = input + blocks * 8;
   uint8_t *out = (uint8_t *)buf;
   const uint8_t *decode_string = is_raw ? BASE32_DECODE_RAW : BASE32_DECODE;
   for (size_t i = 0; i < blocks; i++) {
-    uint8_t byte1 = decode_string[str[i * 8 + 0]];
-    uint8_t byte2 = decode_string[str[i * 8 + 1]];
-    uint8_t byte3 = decode_string[str[i * 8 + 2]];
-    uint8_t byte4 = decode_string[str[i * 8 + 3]];
-    uint8_t byte5 = decode_string[str[i * 8 + 4]];
-    uint8_t byte6 = decode_string[str[i * 8 + 5]];
-    uint8_t byte7 = decode_string[str[i * 8 + 6]];
-    uint8_t byte8 = decode_string[str[i * 8 + 7]];
+    uint8_t byte1 = decode_string[input[i * 8 + 0]];
+    uint8_t byte2 = decode_string[input[i * 8 + 1]];
+    uint8_t byte3 = decode_string[input[i * 8 + 2]];
+    uint8_t byte4 = decode_string[input[i * 8 + 3]];
+    uint8_t byte5 = decode_string[input[i * 8 + 4]];
+    uint8_t byte6 = decode_string[input[i * 8 + 5]];
+    uint8_t byte7 = decode_string[input[i * 8 + 6]];
+    uint8_t byte8 = decode_string[input[i * 8 + 7]];
     if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
         byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
       return out - (uint8_t *)buf;
@@ -234,17 +235,21 @@ static size_t _fingera_from_base32(const char *str, size_t str_len, void *buf,
   if (tail_bytes > 0) {
     uint8_t byte1 = decode_string[tail_str[0]];
     uint8_t byte2 = decode_string[tail_str[1]];
+    if (byte1 == 0xFF || byte2 == 0xFF) return out - (uint8_t *)buf;
     *out++ = (byte1 << 3) | (byte2 >> 2);
     if (tail_bytes > 1) {
       uint8_t byte3 = decode_string[tail_str[2]];
       uint8_t byte4 = decode_string[tail_str[3]];
+      if (byte3 == 0xFF || byte4 == 0xFF) return out - (uint8_t *)buf;
       *out++ = (byte2 << 6) | (byte3 << 1) | (byte4 >> 4);
       if (tail_bytes > 2) {
         uint8_t byte5 = decode_string[tail_str[4]];
+        if (byte5 == 0xFF) return out - (uint8_t *)buf;
         *out++ = (byte4 << 4) | (byte5 >> 1);
         if (tail_bytes > 3) {
           uint8_t byte6 = decode_string[tail_str[5]];
           uint8_t byte7 = decode_string[tail_str[6]];
+          if (byte6 == 0xFF || byte7 == 0xFF) return out - (uint8_t *)buf;
           *out++ = (byte5 << 7) | (byte6 << 2) | (byte7 >> 3);
         }
       }
-- 
2.43.0


From abecce12f0f9c4678c6681fa9c2d90c96fad3d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 03/14] fix: base64: '=' in the middle of the text decoded as a
 zero digit

---
 src/base64.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.c b/src/base64.c
index 25f9780..978e652 100644
--- a/src/base64.c
+++ b/src/base64.c
@@ -12,7 +12,7 @@ static const unsigned char BASE64_STANDARD_DECODE[256] = {
     0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x3E,
     0xFF, 0xFF, 0xFF, 0x3F,  // +/
     0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3A, 0x3B, 0x3C, 0x3D, 0xFF,
-    0xFF, 0xFF, 0x00, 0xFF, 0xFF,  // 0-9 =
+    0xFF, 0xFF, 0xFF, 0xFF, 0xFF,  // 0-9
     0xFF, 0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09,
     0x0A, 0x0B, 0x0C, 0x0D, 0x0E,  // A-O
     0x0F, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19,
-- 
2.43.0


From 9319cce1489d3686f3448e40e594f0b5cb979078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 04/14] fix: base58: decoder ignored str_len and could write
 more than the documented maximum

---
 include/fingera_libc/base58.h |  3 ++-
 src/base58.c                  | 14 +++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/fingera_libc/base58.h b/include/fingera_libc/base58.h
index df53f33..6ed8268 100644
--- a/include/fingera_libc/base58.h
+++ b/include/fingera_libc/base58.h
@@ -33,7 +33,8 @@ static inline size_t fingera_to_base58_length(size_t buf_size) {
  * @return size_t 最大长度
  */
 static inline size_t fingera_from_base58_length(size_t str_len) {
-  return str_len * 733 / 1000 + 2;
+  // 每个前导'1'解码为一个字节，其余字符每个不足一个字节
+  return str_len;
 }
 
 /**
diff --git a/src/base58.c b/src/base58.c
index f056964..21b0a21 100644
--- a/src/base58.c
+++ b/src/base58.c
@@ -73,21 +73,21 @@ size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
 size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
   const char *str_end = str + str_len;
   // Skip leading spaces.
-  while (*str && isspace(*str)) {
+  while (str != str_end && isspace((unsigned char)*str)) {
     str++;
   }
   int zeroes = 0;
   int length = 0;
-  while (*str == '1') {
+  while (str != str_end && *str == '1') {
     zeroes++;
     str++;
   }
 
-  int size = (int)(str_end - str) * 733 / 1000 + 1;
+  size_t size = (size_t)(str_end - str) * 733 / 1000 + 1;
   DECLARE_BUFFER(uint8_t, b256, size);
   memset(b256, 0, size);
 
-  while (*str && !isspace(*str)) {
+  while (str != str_end && *str && !isspace((unsigned char)*str)) {
     // Decode base58 character
     int carry = BASE58_DECODE[(uint8_t)*str];
     if (carry == -1) {
@@ -96,7 +96,7 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
       return 0;
     }
     int i = 0;
-    for (int it = size - 1; (carry != 0 || i < length) && (it >= 0);
+    for (int it = (int)size - 1; (carry != 0 || i < length) && (it >= 0);
          --it, ++i) {
       carry += 58 * b256[it];
       b256[it] = carry % 256;
@@ -107,8 +107,8 @@ size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
     str++;
   }
   // Skip trailing spaces.
-  while (isspace(*str)) str++;
-  if (*str != 0) {
+  while (str != str_end && isspace((unsigned char)*str)) str++;
+  if (str != str_end && *str != 0) {
     fingera_cleanse(b256, size);
     FREE_BUFFER(b256);
     return 0;
-- 
2.43.0


From 3677b745665f24b5fb652d2cc9a1c7724e669c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 05/14] fix: key: decoding an over-long WIF string overflowed
 the stack and the decoded key was never wiped

---
 src/btc/key.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 8f764c4..987c222 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -4,8 +4,10 @@
 #include <fingera_libc/cleanse.h>
 #include <fingera_libc/endian.h>
 #include <fingera_libc/random.h>
+#include <fingera_libc/sl/buffer.h>
 #include <secp256k1.h>
 #include <stdint.h>
+#include <stdlib.h>
 #include <string.h>
 
 /** This function is taken from the libsecp256k1 distribution and implements
@@ -376,26 +378,22 @@ size_t fingera_btc_key_to_string(const void* key32, char* key_str,
 int fingera_btc_key_from_string(const char* key_str, size_t str_len,
                                 void* key32, int* is_compressed,
                                 const chain_parameters* param) {
-  uint8_t buf[32 + 8];
+  size_t buf_len = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, buf, buf_len);
+  int result = 0;
   assert(param->prefix_secret_key_size <= 8);
+  size_t prefix_size = param->prefix_secret_key_size;
   size_t size = fingera_from_base58_check(key_str, str_len, buf);
-  if (size <= 32) return 0;
-  size_t pre_size = size - 32;
-  if (param->prefix_secret_key_size != pre_size) {
-    if (param->prefix_secret_key_size != pre_size - 1) {
-      return 0;
-    }
-    if (buf[size - 1] != 1) {
-      return 0;
-    }
-    *is_compressed = 1;
-  } else {
-    *is_compressed = 0;
-  }
-  if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)
-    return 0;
-  memcpy(key32, buf + param->prefix_secret_key_size, 32);
-  return 1;
+  int compressed = size == prefix_size + 33 && buf[size - 1] == 1;
+  if ((compressed || size == prefix_size + 32) &&
+      memcmp(buf, param->prefix_secret_key, prefix_size) == 0) {
+    *is_compressed = compressed;
+    memcpy(key32, buf + prefix_size, 32);
+    result = 1;
+  }
+  fingera_cleanse(buf, buf_len);
+  FREE_BUFFER(buf);
+  return result;
 }
 
 int fingera_btc_key_derive(const void* key32, const void* chain32,
-- 
2.43.0


From 3204dc9f80395ee2d4c90daced7d87fa523514c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 06/14] fix: exkey: decoding an over-long xprv/xpub overflowed
 the stack, failed decodes left the key unwiped and a non-zero xprv pad byte
 was accepted

---
 src/btc/exkey.c | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 7e0475e..429b3e4 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -5,6 +5,7 @@
 #include <fingera_libc/endian.h>
 #include <fingera_libc/hash/sha2.h>
 #include <fingera_libc/sl/buffer.h>
+#include <stdlib.h>
 #include <string.h>
 
 void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
@@ -101,18 +102,21 @@ size_t fingera_exkey_to_string(const fingera_ex_key *key, char *str,
 int fingera_exkey_from_string(const char *str, size_t str_len,
                               fingera_ex_key *key,
                               const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
+  size_t buf_len = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, buf_len);
+  int result = 0;
   assert(param->prefix_ext_secret_key_size <= 8);
+  size_t prefix_size = param->prefix_ext_secret_key_size;
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_secret_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_secret_key, prefix_size) != 0) return 0;
-  fingera_exkey_decode(extkey + prefix_size, key);
-  fingera_cleanse(extkey, sizeof(extkey));
-  return 1;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_secret_key, prefix_size) == 0 &&
+      extkey[prefix_size + 41] == 0) {
+    fingera_exkey_decode(extkey + prefix_size, key);
+    result = 1;
+  }
+  fingera_cleanse(extkey, buf_len);
+  FREE_BUFFER(extkey);
+  return result;
 }
 
 void fingera_expubkey_encode(const fingera_ex_pubkey *pubkey, void *extkey74) {
@@ -139,15 +143,17 @@ size_t fingera_expubkey_to_string(const fingera_ex_pubkey *pubkey, char *str,
 int fingera_expubkey_from_string(const char *str, size_t str_len,
                                  fingera_ex_pubkey *pub,
                                  const chain_parameters *param) {
-  uint8_t extkey[BIP32_EXTKEY_SIZE + 8];
+  size_t buf_len = fingera_from_base58_check_length(str_len);
+  DECLARE_BUFFER(uint8_t, extkey, buf_len);
+  int result = 0;
   assert(param->prefix_ext_public_key_size <= 8);
+  size_t prefix_size = param->prefix_ext_public_key_size;
   size_t size = fingera_from_base58_check(str, str_len, extkey);
-  assert(size <= sizeof(extkey));
-  if (size <= BIP32_EXTKEY_SIZE || size > sizeof(extkey))
-    return 0;  // no prefix or Overflow
-  size_t prefix_size = size - BIP32_EXTKEY_SIZE;
-  if (prefix_size != param->prefix_ext_public_key_size) return 0;
-  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;
-  fingera_expubkey_decode(extkey + prefix_size, pub);
-  return 1;
+  if (size == prefix_size + BIP32_EXTKEY_SIZE &&
+      memcmp(extkey, param->prefix_ext_public_key, prefix_size) == 0) {
+    fingera_expubkey_decode(extkey + prefix_size, pub);
+    result = 1;
+  }
+  FREE_BUFFER(extkey);
+  return result;
 }
\ No newline at end of file
-- 
2.43.0


From f1de25fdc3f1ef3a9b47c85865f8d5df3f341e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 07/14] fix: exkey: deriving below depth 255 wrapped the depth
 to 0

---
 src/btc/exkey.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/btc/exkey.c b/src/btc/exkey.c
index 429b3e4..8381800 100644
--- a/src/btc/exkey.c
+++ b/src/btc/exkey.c
@@ -24,6 +24,7 @@ void fingera_exkey_init(fingera_ex_key *key, const void *seed, size_t len) {
 
 int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                          uint32_t child, uint32_t fingerprint) {
+  if (key->ext.depth == 0xFF) return 0;  // depth overflow
   int r = fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                                  derived->ext.chain_code, child);
   if (r) {
@@ -37,6 +38,7 @@ int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
 int fingera_expubkey_derive(const fingera_ex_pubkey *pubkey,
                             fingera_ex_pubkey *derived, uint32_t child,
                             uint32_t fingerprint) {
+  if (pubkey->ext.depth == 0xFF) return 0;  // depth overflow
   if (!fingera_btc_pubkey_derive(pubkey->c_pubkey, pubkey->ext.chain_code,
                                  derived->c_pubkey, derived->ext.chain_code,
                                  child))
-- 
2.43.0


From 73f7a1788de1f061d41976994187df71617173d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 08/14] fix: key: deriving from a malformed public key aborted,
 and with NDEBUG a hardened child was derived from a public key

---
 src/btc/key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/btc/key.c b/src/btc/key.c
index 987c222..5035488 100644
--- a/src/btc/key.c
+++ b/src/btc/key.c
@@ -462,8 +462,8 @@ int fingera_btc_pubkey_derive(const void* encoded_pubkey33, const void* chain32,
                               void* out_pubkey33, void* out_chain32,
                               uint32_t child) {
   assert((child >> 31) == 0);
+  if ((child >> 31) != 0) return 0;
   const uint8_t* pubkey33 = (const uint8_t*)encoded_pubkey33;
-  assert(pubkey33[0] == 2 || pubkey33[0] == 3);
   uint8_t out[64];
   secp256k1_pubkey pubkey;
   if (!fingera_btc_pubkey_decode(encoded_pubkey33, 33, &pubkey)) return 0;
-- 
2.43.0


From 43b069ce3ea5a626a8cb76cce218667e27f009e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 09/14] fix: bech32: the separator search ran past str_len

---
 src/btc/bech32.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/btc/bech32.c b/src/btc/bech32.c
index 27272c0..1579169 100644
--- a/src/btc/bech32.c
+++ b/src/btc/bech32.c
@@ -112,7 +112,10 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                           size_t *hrp_size, void *b32) {
   if (is_illegal(str, str_len)) return -1;
 
-  const char *pos = strrchr(str, '1');
+  const char *pos = NULL;
+  for (size_t i = 0; i < str_len; i++) {
+    if (str[i] == '1') pos = str + i;
+  }
   if (!pos || str_len > 90 || pos == str || pos + 7 > str + str_len ||
       str_len <= 7) {
     return -2;
@@ -120,7 +123,8 @@ int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
   if (*hrp_size < (size_t)(pos - str)) return -3;
   *hrp_size = pos - str;
   for (size_t i = 0; i < *hrp_size; i++) {
-    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];
+    unsigned char c = (unsigned char)str[i];
+    hrp[i] = isupper(c) ? tolower(c) : c;
   }
   pos++;
   int8_t *out = (int8_t *)b32;
-- 
2.43.0


From 7e7a8484ee3294c0e0754e641f16d53d3aa67a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 10/14] fix: address: witness programs with non-canonical
 5-to-8 bit padding were accepted

---
 src/btc/address.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/btc/address.c b/src/btc/address.c
index 9cc02dc..eeaca3c 100644
--- a/src/btc/address.c
+++ b/src/btc/address.c
@@ -92,10 +92,17 @@ size_t fingera_to_address_witness_unknown(const void *version_and_program,
   return result_size;
 }
 
+// 8位转5位后最后不足8位的填充必须少于5位且全为0(BIP173)
+static int is_padding_valid(const uint8_t *b32, size_t b32_size) {
+  size_t pad_bits = b32_size * 5 % 8;
+  if (pad_bits >= 5) return 0;
+  return b32_size == 0 || (b32[b32_size - 1] & ((1 << pad_bits) - 1)) == 0;
+}
+
 static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                          void *out, size_t *out_size,
                                          const chain_parameters *param) {
-  DECLARE_BUFFER(char, buffer, str_len - 7);
+  DECLARE_BUFFER(char, buffer, str_len);
 
   char bech32_hrp[16];
   size_t hrp_size = sizeof(bech32_hrp);
@@ -103,7 +110,8 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
       fingera_bech32_decode(str, str_len, bech32_hrp, &hrp_size, buffer);
 
   if (bech32_size < 1 || hrp_size != param->bech32_hrp_size ||
-      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0) {
+      memcmp(bech32_hrp, param->bech32_hrp, hrp_size) != 0 ||
+      !is_padding_valid((const uint8_t *)buffer + 1, bech32_size - 1)) {
     FREE_BUFFER(buffer);
     return BTC_BAD_ADDRESS;
   }
@@ -123,6 +131,10 @@ static fingera_btc_address decode_bech32(const char *str, size_t str_len,
         return BTC_BAD_ADDRESS;
       }
     }
+    if (*out_size < fingera_from_base32_raw_length(bech32_size - 1) + 1) {
+      FREE_BUFFER(buffer);
+      return BTC_BAD_ADDRESS;
+    }
     *(int8_t *)out = version;
     *out_size =
         fingera_from_base32_raw(buffer + 1, bech32_size - 1, (char *)out + 1);
-- 
2.43.0


From 586a4ad20a53a49c44157a3f4ced83974a04c3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 11/14] fix: varint: encodings of values above 2^64-1 were
 accepted and wrapped

---
 src/compress_integer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index 067d696..f937cda 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -27,8 +27,10 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
   if (size > 10) size = 10;
   for (size_t i = 0; i < size; i++) {
     uint8_t byte = *in++;
+    if (*out > (UINT64_MAX >> 7)) return 0;  // overflow
     *out = (*out << 7) | (byte & 0x7F);
     if (byte & 0x80) {
+      if (*out == UINT64_MAX) return 0;  // overflow
       (*out)++;
     } else {
       return in - (uint8_t *)buf;
-- 
2.43.0


From c5c33160f8c14ac396241d0cdca29cf63f247826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 12/14] fix: zigzag: INT64_MIN was encoded through an undefined
 llabs and decoded as 0

---
 src/compress_integer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compress_integer.c b/src/compress_integer.c
index f937cda..2d2e1ab 100644
--- a/src/compress_integer.c
+++ b/src/compress_integer.c
@@ -40,7 +40,7 @@ size_t fingera_decode_varint(const void *buf, size_t size, uint64_t *out) {
 }
 
 size_t fingera_encode_zigzag(int64_t value, void *buf) {
-  uint64_t uvalue = (uint64_t)llabs(value);
+  uint64_t uvalue = value < 0 ? 0 - (uint64_t)value : (uint64_t)value;
   uint64_t sign = value < 0 ? 1 : 0;
   uvalue <<= 1;
   uvalue |= sign;
@@ -55,7 +55,8 @@ size_t fingera_decode_zigzag(const void *buf, size_t size, int64_t *out) {
     sign = uvalue & 1;
     uvalue >>= 1;
     if (sign) {
-      *out = -(int64_t)uvalue;
+      // INT64_MIN编码为"负零"
+      *out = uvalue ? -(int64_t)uvalue : INT64_MIN;
     } else {
       *out = (int64_t)uvalue;
     }
-- 
2.43.0


From 3529bde13f75ea821882aa53bfec44f764d7d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 13/14] fix: hmac: the key blocks were left on the stack

---
 src/hash/sha2.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hash/sha2.c b/src/hash/sha2.c
index f89c394..224a6bb 100644
--- a/src/hash/sha2.c
+++ b/src/hash/sha2.c
@@ -800,6 +800,9 @@ void fingera_hmac_sha256(const void *key, size_t key_len, const void *msg,
 
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
 
 void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
@@ -846,4 +849,7 @@ void fingera_hmac_sha512(const void *key, size_t key_len, const void *msg,
   }
   fingera_cleanse(digest_outter, sizeof(digest_outter));
   fingera_cleanse(digest_inner, sizeof(digest_inner));
+  fingera_cleanse(buffer, sizeof(buffer));
+  fingera_cleanse(key_inner, sizeof(key_inner));
+  fingera_cleanse(key_outter, sizeof(key_outter));
 }
-- 
2.43.0


From 94e377f2cb4ad2b80f5eddf9480747dbad836078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:44 +0000
Subject: [PATCH 14/14] fix: buffer: a failed scratch allocation was used as if
 it had succeeded

---
 include/fingera_libc/sl/buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fingera_libc/sl/buffer.h b/include/fingera_libc/sl/buffer.h
index 811b5b3..3f6d3dd 100644
--- a/include/fingera_libc/sl/buffer.h
+++ b/include/fingera_libc/sl/buffer.h
@@ -8,6 +8,9 @@
 #ifndef _FINGERA_LIBC_SL_BUFFER_H_
 #define _FINGERA_LIBC_SL_BUFFER_H_
 
+#include <fingera_libc/error.h>
+#include <stdlib.h>
+
 #define DEFAULT_STACK_BUFFER 128
 
 #define DECLARE_BUFFER(type, name, real_size)      \
@@ -19,6 +22,7 @@
     name##_in_heap = 0;                            \
   } else {                                         \
     name = (type *)malloc(real_size);              \
+    if (!name) FINGERA_FATAL("out of memory");     \
     name##_in_heap = 1;                            \
   }
 
-- 
2.43.0

