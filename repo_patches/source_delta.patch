From addcd47b0696e234dad68e71e2835f9eaa16c8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 01/16] fix: Rust keccak_absorb hashes the remaining message,
 not its prefix, after a full block

---
 src/rust_wrapper/xmss_alt/fips202.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/fips202.rs b/src/rust_wrapper/xmss_alt/fips202.rs
index a81ba05..4575df4 100644
--- a/src/rust_wrapper/xmss_alt/fips202.rs
+++ b/src/rust_wrapper/xmss_alt/fips202.rs
@@ -334,7 +334,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
         }
         keccak_f1600_state_permute(s);
         mlen -= r as u64;
-        m_clone = &m_clone[r as usize..m.len()];
+        m_clone = &m_clone[r as usize..];
     }
 
     for i in 0..r {
@@ -342,7 +342,7 @@ fn keccak_absorb(s: &mut [u64], r: usize, m: &[u8], mut mlen: u64, p: u8) {
     }
 
     for i in 0..mlen {
-        t[i as usize] = m[i as usize];
+        t[i as usize] = m_clone[i as usize];
     }
 
     t[mlen as usize] = p;
-- 
2.43.0


From f8a6ed5a96ccdceaffba29d5b9098ca646e1de2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 02/16] fix: descriptor decoding keeps the signature type
 nibble and refuses unknown hash functions and signature types

---
 src/qrl/qrlDescriptor.h                | 10 +++++++++-
 src/rust_wrapper/qrl/qrl_descriptor.rs |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/qrl/qrlDescriptor.h b/src/qrl/qrlDescriptor.h
index 626a8e5..1bfb64f 100644
--- a/src/qrl/qrlDescriptor.h
+++ b/src/qrl/qrlDescriptor.h
@@ -64,8 +64,16 @@ public:
             throw std::invalid_argument("Descriptor size should be 3 bytes");
         }
 
+        if ((bytes[0] & 0x0F) > eHashFunction::SHAKE_256) {
+            throw std::invalid_argument("Unknown hash function");
+        }
+
+        if (((bytes[0] >> 4) & 0x0F) != eSignatureType::XMSS) {
+            throw std::invalid_argument("Unknown signature type");
+        }
+
         auto hashFunction = static_cast<eHashFunction>(bytes[0] & 0x0F);
-        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0xF0);
+        auto signatureType = static_cast<eSignatureType>((bytes[0] >> 4) & 0x0F);
         auto height = static_cast<uint8_t>((bytes[1] & 0x0F) << 1 );
         auto addrFormatType = static_cast<eAddrFormatType>((bytes[1] & 0xF0) >> 4 );
 
diff --git a/src/rust_wrapper/qrl/qrl_descriptor.rs b/src/rust_wrapper/qrl/qrl_descriptor.rs
index f50c5a2..465b691 100644
--- a/src/rust_wrapper/qrl/qrl_descriptor.rs
+++ b/src/rust_wrapper/qrl/qrl_descriptor.rs
@@ -64,7 +64,7 @@ impl QRLDescriptor {
                 ))
             }
         };
-        let signature_type: SignatureType = match (bytes[0] >> 4) & 0xF0 {
+        let signature_type: SignatureType = match (bytes[0] >> 4) & 0x0F {
             0 => SignatureType::XMSS,
             _ => {
                 return Err(QRLError::FailedConversion(
-- 
2.43.0


From 6a6e0a018643ea3ae22feb1c4531e0e13f2503b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 03/16] fix: XmssBasic refuses to sign once every one-time key
 of the tree has been used

---
 src/qrl/xmssBasic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrl/xmssBasic.cpp b/src/qrl/xmssBasic.cpp
index 895a7be..8b9bde1 100644
--- a/src/qrl/xmssBasic.cpp
+++ b/src/qrl/xmssBasic.cpp
@@ -50,6 +50,10 @@ XmssBasic::XmssBasic(const TSEED &seed,
 
 
 TSIGNATURE XmssBasic::sign(const TMESSAGE &message) {
+    if (getIndex() >= getNumberSignatures()) {
+        throw std::invalid_argument("index too high");
+    }
+
     auto signature = TSIGNATURE(getSignatureSize(params.wots_par.w), 0);
 
     xmss_Signmsg(_hashFunction,
-- 
2.43.0


From fb7538721f7d820ade48a407b1a8837a419e0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:08 +0000
Subject: [PATCH 04/16] fix: refuse tree heights above 30, which the descriptor
 cannot hold and 1 << height cannot represent

---
 src/qrl/xmssBase.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index a5b8c32..12e1ecb 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -18,7 +18,8 @@
 
 //constexpr size_t SIGNATURE_BASE_SIZE  = 4+32+67*32;
 
-constexpr size_t XMSS_MAX_HEIGHT=254;
+// Largest height the key descriptor can hold; also keeps 2^height within 32 bits
+constexpr size_t XMSS_MAX_HEIGHT=30;
 
 // FIXME: Use a union for this
 constexpr size_t OFFSET_IDX = 0;
@@ -45,7 +46,7 @@ XmssBase::XmssBase(const TSEED& seed,
     }
 
     if (height>XMSS_MAX_HEIGHT) {
-        throw std::invalid_argument("Height should be <= 254");
+        throw std::invalid_argument("Height should be <= 30");
     }
 }
 
@@ -213,7 +214,7 @@ bool XmssBase::verify(const TMESSAGE& message,
         const uint32_t SIGNATURE_BASE_SIZE = calculateSignatureBaseSize(wotsParamW);
         if (signature.size()>SIGNATURE_BASE_SIZE+XMSS_MAX_HEIGHT*32)
         {
-            throw std::invalid_argument("invalid signature size. Height<=254");
+            throw std::invalid_argument("invalid signature size. Height<=30");
         }
 
         auto desc = QRLDescriptor::fromExtendedPK(extended_pk);
-- 
2.43.0


From da02ead83a02f4d4639b8aca39e37793f7289933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 05/16] fix: WOTS+ checksum keeps its high byte when its bits
 fill whole bytes (w = 256)

---
 src/rust_wrapper/xmss_alt/wots.rs | 4 ++--
 src/xmss-alt/wots.c               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust_wrapper/xmss_alt/wots.rs b/src/rust_wrapper/xmss_alt/wots.rs
index b1f5a33..16ea6ed 100644
--- a/src/rust_wrapper/xmss_alt/wots.rs
+++ b/src/rust_wrapper/xmss_alt/wots.rs
@@ -179,7 +179,7 @@ pub fn wots_sign(
         csum += params.w as i32 - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params.len_2 * params.log_w) % 8));
+    csum = csum << ((8 - ((params.len_2 * params.log_w) % 8)) % 8);
 
     let len_2_bytes = ((params.len_2 * params.log_w) + 7) / 8;
 
@@ -242,7 +242,7 @@ pub fn wots_pk_from_sig(
         csum += XMSS_WOTS_W - 1 - basew[i] as u32;
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(
         &mut csum_bytes,
diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index bb02e9d..2062c38 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -134,7 +134,7 @@ void wots_sign(eHashFunction hash_func,
         csum += params->w - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((params->len_2 * params->log_w) % 8));
+    csum = csum << ((8 - ((params->len_2 * params->log_w) % 8)) % 8);
 
     uint32_t len_2_bytes = ((params->len_2 * params->log_w) + 7) / 8;
 
@@ -183,7 +183,7 @@ void wots_pkFromSig(eHashFunction hash_func,
         csum += XMSS_WOTS_W - 1 - basew[i];
     }
 
-    csum = csum << (8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8));
+    csum = csum << ((8 - ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) % 8)) % 8);
 
     to_byte(csum_bytes, csum, ((XMSS_WOTS_LEN2 * XMSS_WOTS_LOG_W) + 7) / 8);
     base_w(csum_basew, XMSS_WOTS_LEN2, csum_bytes, wotsParams);
-- 
2.43.0


From 6f7b35ad1a28576f6d635cd0947f8176d5f19546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 06/16] fix: refuse Winternitz parameters base_w cannot encode
 instead of crashing or signing unsoundly

---
 src/xmss-alt/wots.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xmss-alt/wots.c b/src/xmss-alt/wots.c
index 2062c38..eafa863 100644
--- a/src/xmss-alt/wots.c
+++ b/src/xmss-alt/wots.c
@@ -14,9 +14,15 @@ Public domain.
 #include "xmss_common.h"
 #include "hash.h"
 #include "hash_address.h"
+#include <stdexcept>
 
 
 void wots_set_params(wots_params *params, int n, int w) {
+    // base_w reads whole digits out of bytes, so log2(w) has to divide 8
+    if (w != 2 && w != 4 && w != 16 && w != 256) {
+        throw std::invalid_argument("Unsupported Winternitz parameter");
+    }
+
     params->n = n;
     params->w = w;
     params->log_w = (int) log2(w);
-- 
2.43.0


From d5793d42d64f8d5e8fe1faa2d88683e8f0786f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 07/16] fix: signing keys can be moved but no longer copied, so
 an index cannot be used twice through a copy

---
 src/qrl/xmssBase.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qrl/xmssBase.h b/src/qrl/xmssBase.h
index 956028d..d25d399 100644
--- a/src/qrl/xmssBase.h
+++ b/src/qrl/xmssBase.h
@@ -36,6 +36,12 @@ public:
 
     virtual ~XmssBase() = default;
 
+    // A copy would sign with the same one-time keys (and share the traversal buffers)
+    XmssBase(const XmssBase &) = delete;
+    XmssBase &operator=(const XmssBase &) = delete;
+    XmssBase(XmssBase &&) = default;
+    XmssBase &operator=(XmssBase &&) = default;
+
     virtual TSIGNATURE sign(const TMESSAGE &message) = 0;
 
     static bool verify(const TMESSAGE &message,
-- 
2.43.0


From e7a9c8c3ad13fed7e097ce3466691f33e82ad268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 08/16] fix: hash input buffer moved from the stack to the
 heap, long messages overflowed the stack

---
 src/xmss-alt/hash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xmss-alt/hash.c b/src/xmss-alt/hash.c
index ca85d75..e6ee868 100644
--- a/src/xmss-alt/hash.c
+++ b/src/xmss-alt/hash.c
@@ -10,6 +10,7 @@ This code was taken from the XMSS reference implementation by Andreas Hülsing a
 #include "fips202.h"
 #include "shasha.h"
 #include <cstdio>
+#include <vector>
 
 unsigned char *addr_to_byte(unsigned char *bytes, const uint32_t addr[8]) {
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
@@ -32,7 +33,9 @@ int core_hash(eHashFunction hash_func,
               unsigned long long inlen,
               unsigned int n) {
     unsigned long long i = 0;
-    unsigned char buf[inlen + n + keylen];
+    // On the heap: inlen is the length of the caller's message
+    std::vector<unsigned char> buf_storage(inlen + n + keylen);
+    unsigned char *buf = buf_storage.data();
 
     // Input is (toByte(X, 32) || KEY || M)
 
-- 
2.43.0


From a793d9744d57bc25dcfd866da10c6b2383397a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:53 +0000
Subject: [PATCH 09/16] fix: authentication path tree moved from the stack to
 the heap, heights from 18 overflowed the stack

---
 src/xmss-alt/algsxmss.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xmss-alt/algsxmss.c b/src/xmss-alt/algsxmss.c
index 65e6fad..3a172b1 100644
--- a/src/xmss-alt/algsxmss.c
+++ b/src/xmss-alt/algsxmss.c
@@ -5,6 +5,7 @@
 
 #include "algsxmss.h"
 #include <cstring>
+#include <vector>
 
 #include "hash.h"
 #include "hash_address.h"
@@ -124,7 +125,8 @@ static void compute_authpath_wots(eHashFunction hash_func,
     uint32_t n = params->n;
     uint32_t h = params->h;
 
-    unsigned char tree[2 * (1 << h) * n];
+    std::vector<unsigned char> tree_storage(2 * (static_cast<size_t>(1) << h) * n);
+    unsigned char *tree = tree_storage.data();
 
     uint32_t ots_addr[8];
     uint32_t ltree_addr[8];
-- 
2.43.0


From f9628217e7890c7e01c5c7d225d33b0e8cd8debb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 10/16] fix: refuse unknown hash functions instead of
 generating a key from uninitialised memory

---
 src/qrl/xmssBase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qrl/xmssBase.cpp b/src/qrl/xmssBase.cpp
index 12e1ecb..6cc20ce 100644
--- a/src/qrl/xmssBase.cpp
+++ b/src/qrl/xmssBase.cpp
@@ -45,6 +45,10 @@ XmssBase::XmssBase(const TSEED& seed,
         throw std::invalid_argument("Seed should be 48 bytes. Other values are not currently supported");
     }
 
+    if (static_cast<unsigned int>(hashFunction)>eHashFunction::SHAKE_256) {
+        throw std::invalid_argument("Unknown hash function");
+    }
+
     if (height>XMSS_MAX_HEIGHT) {
         throw std::invalid_argument("Height should be <= 30");
     }
-- 
2.43.0


From c9994f742ea21012fb3cdbe4f282cf8221ae8668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:15 +0000
Subject: [PATCH 11/16] fix: mnemonic2bin counts words instead of spaces,
 refusing odd word counts whatever the spacing

---
 src/qrl/misc.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/qrl/misc.cpp b/src/qrl/misc.cpp
index 0c71133..54dd278 100644
--- a/src/qrl/misc.cpp
+++ b/src/qrl/misc.cpp
@@ -86,10 +86,18 @@ std::string bin2mnemonic(const std::vector<unsigned char> &vec)
 
 std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
 {
-    auto word_count = std::count(mnemonic.cbegin(), mnemonic.cend(), ' ') + 1;
-    if (word_count%2!=0)
+    std::stringstream ss(mnemonic);
+    std::string word;
+
+    // Count words rather than separators: there may be several of them, or none at all
+    std::vector<std::string> words;
+    while (ss >> word) {
+        words.push_back(word);
+    }
+
+    if (words.size()%2!=0)
     {
-        throw std::invalid_argument("word count = " + std::to_string(word_count) + " must be even ");
+        throw std::invalid_argument("word count = " + std::to_string(words.size()) + " must be even ");
     }
 
     // Prepare lookup
@@ -100,16 +108,13 @@ std::vector<unsigned char> mnemonic2bin(const std::string &mnemonic)
         word_lookup[w] = count++;
     }
 
-    std::stringstream ss(mnemonic);
-    std::string word;
-
     std::vector<unsigned char> result;
 
     int current = 0;
     int buffering = 0;
 
-    while (ss >> word) {
-        auto it = word_lookup.find(word);
+    for (auto &w: words) {
+        auto it = word_lookup.find(w);
         if (it == word_lookup.end()) {
             throw std::invalid_argument("invalid word in mnemonic");
         }
-- 
2.43.0


From 5b5bc54997a1c099005c45900e910a552ea6ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 12/16] fix: Dilithium wrapper checks key and signed message
 sizes before use

---
 src/dilithium/dilithium.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/dilithium/dilithium.cpp b/src/dilithium/dilithium.cpp
index ade7d34..164beac 100644
--- a/src/dilithium/dilithium.cpp
+++ b/src/dilithium/dilithium.cpp
@@ -3,6 +3,7 @@
 
 #include <string>
 #include <vector>
+#include <stdexcept>
 #include <cstdint>
 #include "dilithium.h"
 
@@ -18,7 +19,15 @@ Dilithium::Dilithium(const std::vector<uint8_t> &pk, const std::vector<uint8_t>
     _pk(pk),
     _sk(sk)
 {
-    // TODO: Verify sizes - CRYPTO_SECRETKEYBYTES / CRYPTO_PUBLICKEYBYTES
+    if (_pk.size() != CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
+    if (_sk.size() != CRYPTO_SECRETKEYBYTES)
+    {
+        throw std::invalid_argument("sk. Invalid size");
+    }
 }
 
 std::vector<uint8_t> Dilithium::sign(const std::vector<uint8_t> &message)
@@ -44,6 +53,11 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
                           const std::vector<uint8_t> &message_signed,
                           const std::vector<uint8_t> &pk)
 {
+    if (pk.size() != CRYPTO_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("pk. Invalid size");
+    }
+
     auto message_size = message_signed.size();
     message_output.resize(message_size);
 
@@ -60,10 +74,20 @@ bool Dilithium::sign_open(std::vector<uint8_t> &message_output,
 
 std::vector<uint8_t> Dilithium::extract_message(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size() < CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin() + CRYPTO_BYTES, message_output.end());
 }
 
 std::vector<uint8_t> Dilithium::extract_signature(std::vector<uint8_t> &message_output)
 {
+    if (message_output.size() < CRYPTO_BYTES)
+    {
+        throw std::invalid_argument("message. Invalid size");
+    }
+
     return std::vector<uint8_t>(message_output.begin(), message_output.begin() + CRYPTO_BYTES);
 }
-- 
2.43.0


From 7a730fa19fb5299412379f4f5c48b7e9c6661ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 13/16] fix: Kyber wrapper checks public key and ciphertext
 sizes before use

---
 src/kyber/kyber.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kyber/kyber.cpp b/src/kyber/kyber.cpp
index 5478ea2..ecf89c7 100644
--- a/src/kyber/kyber.cpp
+++ b/src/kyber/kyber.cpp
@@ -34,7 +34,10 @@ Kyber::Kyber()
 
 bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 {
-    // TODO: Verify sizes (other_pk)
+    if (other_pk.size()!=KYBER_PUBLICKEYBYTES)
+    {
+        throw std::invalid_argument("other_pk. Invalid size");
+    }
 
     _key.resize(KYBER_SYMBYTES);
     _ct.resize(KYBER_CIPHERTEXTBYTES);
@@ -48,7 +51,11 @@ bool Kyber::kem_encode(const std::vector<uint8_t> &other_pk)
 
 bool Kyber::kem_decode(const std::vector<uint8_t> &cyphertext)
 {
-    // TODO: Verify sizes (other_pk)
+    if (cyphertext.size()!=KYBER_CIPHERTEXTBYTES)
+    {
+        throw std::invalid_argument("cyphertext. Invalid size");
+    }
+
     _key.resize(KYBER_SYMBYTES);
 
     auto validation_error = crypto_kem_dec(_key.data(),
-- 
2.43.0


From e2d4e26c21913bf5b2ce160882281c080b78d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 14/16] fix: JS Dilithium sign_open returns no message when
 verification fails

---
 src/jswrapper/jsdilwrapper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index 079d2a9..de80f4f 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -59,7 +59,11 @@ namespace {
         { 
             std::vector<uint8_t> vec;
             vec.assign(message_output.begin(), message_output.end());
-            Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk));
+            if (!Dilithium::sign_open( vec, hstr2bin(message_signed), hstr2bin(pk)))
+            {
+                // empty: a verified output always has the size of the signed message
+                return "";
+            }
             return bin2hstr(vec);
         }
 
-- 
2.43.0


From 486b0f1acd52d2eef7e2c9ab9691f20d95efb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:44 +0000
Subject: [PATCH 15/16] fix: JS Dilithium extract_message reads one decoded
 buffer instead of iterators of two temporaries

---
 src/jswrapper/jsdilwrapper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jswrapper/jsdilwrapper.cpp b/src/jswrapper/jsdilwrapper.cpp
index de80f4f..957ec6f 100644
--- a/src/jswrapper/jsdilwrapper.cpp
+++ b/src/jswrapper/jsdilwrapper.cpp
@@ -69,8 +69,7 @@ namespace {
 
         static std::string extract_message(const std::string& message_output)
         {
-            std::vector<uint8_t> vec;
-            vec.assign( hstr2bin(message_output).begin(), hstr2bin(message_output).end());
+            std::vector<uint8_t> vec = hstr2bin(message_output);
             return bin2hstr( Dilithium::extract_message( vec ) );
         }
 
-- 
2.43.0


From acf1b112b873d4edbf1b014c50f4411f320a1e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 16/16] fix: getRandomSeed accepts only an integer size

A size such as [48] or 48.5 passed the check, but the array filled by
getRandomValues then has fewer bytes than the loop copies, and the
missing ones end up as zero in the seed.
---
 src/jswrapper/getRandomSeed.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jswrapper/getRandomSeed.js b/src/jswrapper/getRandomSeed.js
index 7ba5c5a..f7a1f26 100644
--- a/src/jswrapper/getRandomSeed.js
+++ b/src/jswrapper/getRandomSeed.js
@@ -11,7 +11,7 @@ Module['getRandomSeed'] = function (size) {
     if (size === undefined) {
         size = 48;
     }
-    if (!(size > 0)) {
+    if (!(Number.isInteger(size) && size > 0)) {
         throw new Error('getRandomSeed: size must be a positive integer');
     }
 
-- 
2.43.0

