From 1da7f2ac467fa7a881f2f5d646e037cbee3a4e92 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 15:54:45 +0000
Subject: [PATCH 01/10] fix: SaberX4 accepts key and ciphertext buffers at any
 address

Packing the secret polynomials stored straight into the caller's sk, and unpacking loaded straight
from the caller's sk, with aligned vector instructions, so crypto_kem_keypair and crypto_kem_dec
crashed for buffers that were not 16-byte aligned.
---
 Variants/SaberX4_avx2/pack_unpack.c | 32 ++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..eeef7ce 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From 5a5fbcc53ec35cd3d42b49198213118ae1bf03c2 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:04:15 +0000
Subject: [PATCH 02/10] fix: shake128x4 squeezes its last block into buffers of
 a whole SHAKE128 block

The four temporary buffers had SHAKE256_RATE (136) bytes, but keccak_squeezeblocks4x writes
SHAKE128_RATE (168) bytes to each, overrunning the stack in every batch operation.
---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From b6de966dc4fda8422540b1aafd018e262742354b Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 16:24:28 +0000
Subject: [PATCH 03/10] fix: uSaber-90s/avx2 stops when the library cannot
 compute a hash

SHA256() and SHA512() return NULL without writing the digest when an allocation inside the library
fails; the result was ignored, so keys and shared secrets were derived from stale bytes.
---
 Variants/uSaber-90s/avx2/symmetric.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Variants/uSaber-90s/avx2/symmetric.h b/Variants/uSaber-90s/avx2/symmetric.h
index bd26ae4..e22e7fc 100644
--- a/Variants/uSaber-90s/avx2/symmetric.h
+++ b/Variants/uSaber-90s/avx2/symmetric.h
@@ -7,10 +7,12 @@ void saber_aes256ctr_prf(unsigned char *output, unsigned long long outlen, const
 
 #ifdef Saber90s
 
+    #include <stdlib.h>
     #include <openssl/sha.h>
 
-    #define hash_h(OUT, IN, INBYTES) SHA256(IN, INBYTES, OUT)
-    #define hash_g(OUT, IN, INBYTES) SHA512(IN, INBYTES, OUT)
+    // SHA256() and SHA512() return NULL without writing the digest if the library fails: never go on without it
+    #define hash_h(OUT, IN, INBYTES) do { if (SHA256(IN, INBYTES, OUT) == NULL) abort(); } while (0)
+    #define hash_g(OUT, IN, INBYTES) do { if (SHA512(IN, INBYTES, OUT) == NULL) abort(); } while (0)
 
 	#define prf(OUT, OUTLEN, IN, INLEN) saber_aes256ctr_prf(OUT, OUTLEN, IN)
 
-- 
2.43.0


From 2e8cbc33f1bfb501d289818cb0bfb616e232799d Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:37:07 +0000
Subject: [PATCH 04/10] fix: Cortex-M0 hashes bytes into and out of the
 bit-interleaved Keccak state

asm_KeccakF-1600.S permutes a bit-interleaved state, but fips202.c loaded and
stored plain 64-bit lanes, so sha3_256, sha3_512 and shake128 on the board
computed something other than SHA-3 and keys did not match the scheme.
---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 52 +++----------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index c502789..e28167d 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -12,42 +12,9 @@
 #define NROUNDS 24
 #define ROL(a, offset) ((a << offset) ^ (a >> (64-offset)))
 
-/*************************************************
-* Name:        load64
-*
-* Description: Load 8 bytes into uint64_t in little-endian order
-*
-* Arguments:   - const unsigned char *x: pointer to input byte array
-*
-* Returns the loaded 64-bit unsigned integer
-**************************************************/
-static uint64_t load64(const unsigned char *x)
-{
-  unsigned long long r = 0, i;
-
-  for (i = 0; i < 8; ++i) {
-    r |= (unsigned long long)x[i] << 8 * i;
-  }
-  return r;
-}
-
-/*************************************************
-* Name:        store64
-*
-* Description: Store a 64-bit integer to a byte array in little-endian order
-*
-* Arguments:   - uint8_t *x: pointer to the output byte array
-*              - uint64_t u: input 64-bit unsigned integer
-**************************************************/
-static void store64(uint8_t *x, uint64_t u)
-{
-  unsigned int i;
-
-  for(i=0; i<8; ++i) {
-    x[i] = u;
-    u >>= 8;
-  }
-}
+/* asm_KeccakF-1600.S keeps the state in bit-interleaved form: bytes go in and out through these */
+void KeccakF1600_StateXORBytes(void *state, const unsigned char *data, unsigned int offset, unsigned int length);
+void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned int offset, unsigned int length);
 
 #include <string.h>
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
@@ -79,9 +46,7 @@ void keccak_absorb(uint64_t *s,
 
   while (mlen >= r)
   {
-    for (i = 0; i < r / 8; ++i)
-      s[i] ^= load64(m + 8 * i);
-
+    KeccakF1600_StateXORBytes(s, m, 0, r);
     KeccakF1600_StatePermute(s);
     mlen -= r;
     m += r;
@@ -93,8 +58,7 @@ void keccak_absorb(uint64_t *s,
     t[i] = m[i];
   t[i] = p;
   t[r - 1] |= 128;
-  for (i = 0; i < r / 8; ++i)
-    s[i] ^= load64(t + 8 * i);
+  KeccakF1600_StateXORBytes(s, t, 0, r);
 }
 
 
@@ -114,14 +78,10 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
                                  uint64_t *s,
                                  unsigned int r)
 {
-  unsigned int i;
   while(nblocks > 0)
   {
     KeccakF1600_StatePermute(s);
-    for(i=0;i<(r>>3);i++)
-    {
-      store64(h+8*i, s[i]);
-    }
+    KeccakF1600_StateExtractBytes(s, h, 0, r);
     h += r;
     nblocks--;
   }
-- 
2.43.0


From 6c1920cafae22a7b3399089c0aedbfa3d927580b Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:39:04 +0000
Subject: [PATCH 05/10] fix: Cortex-M0 decryption packs the message bits before
 they are hashed

indcpa_kem_dec let ExtractKeyBits write 256 unpacked uint16_t into the caller's
64-byte buffer and left out POL2MSG, so decapsulation overran its stack buffer
and never arrived at the shared secret of the encapsulation.
---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..1c1a041 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -331,6 +331,7 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 	uint16_t sksv[SABER_K][SABER_N]; //secret key of the server
 
 	uint16_t v[SABER_N];
+	uint16_t message_dec_unpacked[SABER_N];
 
 	BS2POLVECq(sk, sksv); //sksv is the secret-key
 
@@ -346,11 +347,11 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec_unpacked);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(message_dec_unpacked, message_dec);
 }
 
 
-- 
2.43.0


From 3a6a7a6b24ca94be07348a111c9c53150afd1488 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:41:34 +0000
Subject: [PATCH 06/10] fix: Cortex-M0 randombytes uses all sixteen bits of
 each generator word

The union took the word apart into halfwords, so every second random byte was
zero and half of the bits the generator delivers were dropped.
---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
index 3ad8581..268448e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
@@ -37,7 +37,7 @@ void randombytes(unsigned char *x,unsigned long long xlen)
 {
     union
     {
-        uint16_t aschar[2];
+        uint8_t aschar[2];
         uint32_t asint;
     } random;
 
-- 
2.43.0


From a025027e555d1f4477730ff0a3425729344600ec Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 17:43:40 +0000
Subject: [PATCH 07/10] fix: Cortex-M0 tick count is right when the timer is
 stopped in the tick it wraps

The overflow interrupt then came in after the timer had been stopped, counted a
period that SYST_CVR (0) already stands for and the report was one period
(16777215 ticks) too long.
---
 .../Cortex-M0/saber-ref-mem/src/benchmark.c                | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c
index fa4ffc4..e545ba6 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/benchmark.c
@@ -8,8 +8,11 @@ static uint32_t timer_overflow = 0;
 
 void SysTick_Handler()
 {
-	timer_overflow++;
-	SYST_CVR = 0x00FFFFFF;
+	// SYST_CVR is 0 here only if the timer was stopped in the very tick of the
+	// wrap: it then still stands for the whole period
+	if (SYST_CVR != 0) {
+		timer_overflow++;
+	}
 }
 
 void
-- 
2.43.0


From 9560b8f20946da0f7e7c2f6ff4dff1e8c9e9189a Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 21:46:58 +0000
Subject: [PATCH 08/10] fix: Cortex-M0 stack measurement overwrites the frame
 of main

WRITE_CANARY fills downwards from a local variable and so through whatever
the compiler keeps below it in main's own frame; with -O3 that is the
address the count starts from, and the MEMSIZE firmware ends in a fault
before its first report. Start at the stack pointer.
---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
index f4ae16d..aea4f7d 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
@@ -126,7 +126,8 @@ static unsigned int stack_count(unsigned char canaryv,volatile unsigned char *a)
   return c;
 } 
 
-#define WRITE_CANARY(X) {p=X;while(p>= (X-MAXSTACK)) *(p--) = canary;}
+// from the stack pointer down: what lies above it, up to X, is main's own frame
+#define WRITE_CANARY(X) {asm volatile ("mov %0, sp" : "=r" (p));while(--p >= (X-MAXSTACK)) *p = canary;}
  
 int main(void)
 {
-- 
2.43.0


From 6789c0b158e7afc3f5b531f5ca3dbd4f96479027 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 09/10] fix: Cortex-M0 cSHAKE absorbed the customisation for
 nothing: keccak_absorb zeroed the state again

---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 56 ++++++++++++-------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index e28167d..99e53fb 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -20,19 +20,8 @@ void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned in
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
 
 
-/*************************************************
-* Name:        keccak_absorb
-*
-* Description: Absorb step of Keccak;
-*              non-incremental, starts by zeroeing the state.
-*
-* Arguments:   - uint64_t *s:             pointer to (uninitialized) output Keccak state
-*              - unsigned int r:          rate in bytes (e.g., 168 for SHAKE128)
-*              - const unsigned char *m:  pointer to input to be absorbed into s
-*              - unsigned long long mlen: length of input in bytes
-*              - unsigned char p:         domain-separation byte for different Keccak-derived functions
-**************************************************/
-void keccak_absorb(uint64_t *s,
+/* Absorbs a message on top of the full blocks that the state has absorbed before */
+static void absorb_message(uint64_t *s,
                           unsigned int r,
                           const unsigned char *m, unsigned long long int mlen,
                           unsigned char p)
@@ -40,10 +29,6 @@ void keccak_absorb(uint64_t *s,
   unsigned long long i;
   unsigned char t[200];
 
-  // Zero state
-  for (i = 0; i < 25; ++i)
-    s[i] = 0;
-
   while (mlen >= r)
   {
     KeccakF1600_StateXORBytes(s, m, 0, r);
@@ -62,6 +47,33 @@ void keccak_absorb(uint64_t *s,
 }
 
 
+/*************************************************
+* Name:        keccak_absorb
+*
+* Description: Absorb step of Keccak;
+*              non-incremental, starts by zeroeing the state.
+*
+* Arguments:   - uint64_t *s:             pointer to (uninitialized) output Keccak state
+*              - unsigned int r:          rate in bytes (e.g., 168 for SHAKE128)
+*              - const unsigned char *m:  pointer to input to be absorbed into s
+*              - unsigned long long mlen: length of input in bytes
+*              - unsigned char p:         domain-separation byte for different Keccak-derived functions
+**************************************************/
+void keccak_absorb(uint64_t *s,
+                          unsigned int r,
+                          const unsigned char *m, unsigned long long int mlen,
+                          unsigned char p)
+{
+  unsigned int i;
+
+  // Zero state
+  for (i = 0; i < 25; ++i)
+    s[i] = 0;
+
+  absorb_message(s, r, m, mlen, p);
+}
+
+
 /*************************************************
 * Name:        keccak_squeezeblocks
 *
@@ -91,7 +103,7 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
 
 void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -107,10 +119,11 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE128_RATE, in, inlen, 0x04);
+  absorb_message(s, SHAKE128_RATE, in, inlen, 0x04);
 }
 
 
@@ -298,7 +311,7 @@ void sha3_512(unsigned char *output, const unsigned char *input,  unsigned long
 
 void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -314,10 +327,11 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE256_RATE, in, inlen, 0x04);
+  absorb_message(s, SHAKE256_RATE, in, inlen, 0x04);
 }
 
 
-- 
2.43.0


From 17536b8f617e05226628181b49505b7f53d1d745 Mon Sep 17 00:00:00 2001
From: verif <verif@example.org>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 10/10] fix: AES-256 counter mode lost the carry when a group
 of blocks ended exactly at the wrap of the low half

---
 Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
index b363ecc..88d0012 100644
--- a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
+++ b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
@@ -183,7 +183,7 @@ static inline void incle(unsigned char n[16]) {
     long long nl = *(long long*)&n[8];                                  \
     MAKEN(NVxV_DEC);                                                    \
     /* check for nonce wraparound */                                    \
-    if ((nl < 0) && (nl + (N-1)) >= 0) {                                \
+    if ((nl < 0) && (nl + N) >= 0) {                                    \
       int wrapnumber = (int)(N - (nl+N));                               \
       MAKEN(NVxV_WRAP);                                                 \
       _mm_storeu_si128((__m128i*)n, _mm_add_epi64(nv0i, _mm_set_epi64x(N,1))); \
-- 
2.43.0

