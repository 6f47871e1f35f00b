From 7d10652328025061f0ba931eead7f7645389370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 1/4] fix: report failure of the random source in key
 generation and signing

rand_bytes reports when it could not deliver randomness, but keygen and sign
ignored its return value and went on with whatever was in the buffer.
---
 faest_param.c.in | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/faest_param.c.in b/faest_param.c.in
index b433613..fa5ce24 100644
--- a/faest_param.c.in
+++ b/faest_param.c.in
@@ -32,7 +32,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_keygen(uint8_t* pk, uint8_t* sk) {
 
   bool done = false;
   while (!done) {
-    rand_bytes(sk, @SK_SIZE@);
+    if (rand_bytes(sk, @SK_SIZE@) != 0) {
+      return -1;
+    }
     // declassify OWF input
     faest_declassify(SK_INPUT(sk), @PK_SIZE@ / 2);
     done = faest_@PARAM_L@_owf(SK_KEY(sk), SK_INPUT(sk), PK_OUTPUT(pk));
@@ -86,7 +88,9 @@ int FAEST_CALLING_CONVENTION faest_@PARAM_L@_sign(const uint8_t* sk, const uint8
   }
 
   uint8_t rho[FAEST_@PARAM@_LAMBDA / 8];
-  rand_bytes(rho, sizeof(rho));
+  if (rand_bytes(rho, sizeof(rho)) != 0) {
+    return -1;
+  }
 
   return faest_@PARAM_L@_sign_with_randomness(sk, message, message_len, rho, sizeof(rho), signature, signature_len);
 }
-- 
2.43.0


From cee20debfa547f560ce70301600760bddba74386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 2/4] fix: do not loop forever when the random device delivers
 no data

In the /dev/urandom fallback of rand_bytes, a read that returns 0 (end of
file) made no progress and was repeated without end.
---
 randomness.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/randomness.c b/randomness.c
index 039ebdb..31d6636 100644
--- a/randomness.c
+++ b/randomness.c
@@ -109,6 +109,11 @@ int rand_bytes(uint8_t* dst, size_t len) {
       close(fd);
       return -1;
     }
+    if (ret == 0) {
+      // end of file
+      close(fd);
+      return -1;
+    }
 
     dst += ret;
     len -= ret;
-- 
2.43.0


From 11e8bd61d1b9562b74b1c622bc99232e544333dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 3/4] fix: absorb and squeeze requests of 4 GiB and more
 correctly

The size of a partial block was computed with the remaining length truncated to
unsigned int, and its sum with the position in the block could wrap around:
hashing 2^32 bytes or slightly less or more in one call corrupted memory or
never ended (the same defect as CVE-2022-37454 in XKCP).
---
 sha3/KeccakSponge.inc       | 10 ++++++----
 sha3/KeccakSpongetimes4.inc | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sha3/KeccakSponge.inc b/sha3/KeccakSponge.inc
index 7008092..308e2ed 100644
--- a/sha3/KeccakSponge.inc
+++ b/sha3/KeccakSponge.inc
@@ -187,9 +187,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char *data, size_t dat
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             #ifdef KeccakReference
             displayBytes(1, "Block to be absorbed (part)", curData, partialBlock);
             #endif
@@ -281,9 +282,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char *data, size_t dataByte
                 SnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             SnP_ExtractBytes(instance->state, curData, instance->byteIOIndex, partialBlock);
diff --git a/sha3/KeccakSpongetimes4.inc b/sha3/KeccakSpongetimes4.inc
index 080e2e5..710c858 100644
--- a/sha3/KeccakSpongetimes4.inc
+++ b/sha3/KeccakSpongetimes4.inc
@@ -96,9 +96,10 @@ int SpongeAbsorb(SpongeInstance *instance, const unsigned char **data, size_t da
         }
         else {
             /* normal lane: using the message queue */
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
@@ -179,9 +180,10 @@ int SpongeSqueeze(SpongeInstance *instance, unsigned char **data, size_t dataByt
                 PlSnP_Permute(instance->state);
                 instance->byteIOIndex = 0;
             }
-            partialBlock = (unsigned int)(dataByteLen - i);
-            if (partialBlock+instance->byteIOIndex > rateInBytes)
+            if (dataByteLen - i > rateInBytes - instance->byteIOIndex)
                 partialBlock = rateInBytes-instance->byteIOIndex;
+            else
+                partialBlock = (unsigned int)(dataByteLen - i);
             i += partialBlock;
 
             for(unsigned int instanceIndex = 0; instanceIndex < 4; instanceIndex++) {
-- 
2.43.0


From f7c1832bd1efb3d0205fcec43aeac23c697ba90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 4/4] fix: refuse aligned allocations whose padded size
 overflows

---
 compat.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/compat.c b/compat.c
index 1619941..96c481a 100644
--- a/compat.c
+++ b/compat.c
@@ -44,7 +44,7 @@ static_assert((sizeof(void*) & (sizeof(void*) - 1)) == 0, "sizeof void* is not a
  * of use for others as well. */
 void* faest_aligned_alloc(size_t alignment, size_t size) {
   /* check alignment (power of 2) and size (multiple of alignment) */
-  if (alignment & (alignment - 1) || size & (alignment - 1)) {
+  if (!alignment || alignment & (alignment - 1) || size & (alignment - 1)) {
     errno = EINVAL;
     return NULL;
   }
@@ -53,6 +53,10 @@ void* faest_aligned_alloc(size_t alignment, size_t size) {
   /* check alignment (needs to be multiple of sizeof(void*)); posix_memalign has this additional
    * requirement */
   if (alignment < sizeof(void*)) {
+    if (size > SIZE_MAX - (sizeof(void*) - 1)) {
+      errno = ENOMEM;
+      return NULL;
+    }
     alignment = sizeof(void*);
     /* fix up size; needs to be a multiple of alignment, i.e., sizeof(void*) */
     size = (size + sizeof(void*) - 1) & ~(sizeof(void*) - 1);
@@ -75,7 +79,11 @@ void* faest_aligned_alloc(size_t alignment, size_t size) {
     return NULL;
   }
   const size_t offset = alignment - 1 + sizeof(uint8_t);
-  uint8_t* buffer     = malloc(size + offset);
+  if (size > SIZE_MAX - offset) {
+    errno = ENOMEM;
+    return NULL;
+  }
+  uint8_t* buffer = malloc(size + offset);
   if (!buffer) {
     return NULL;
   }
-- 
2.43.0

