From 3d411a7c9df51da241bcea9b5257abbaa964710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:51 +0000
Subject: [PATCH 01/30] fix: keep the accuracy of lc3_exp2f() with clang
 -ffast-math

The compiler is allowed to reassociate 'x - (v - C)' into '(x - v) + C',
which loses the fractional bits of x (relative error up to 0.4%).
Force the intermediate value through the volatile.
---
 src/fastmath.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 86cbdfa..6f289e4 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -98,7 +98,8 @@ static inline float lc3_exp2f(float x)
 
     v.f = x + 0x1.8p20f;
     int k = v.s;
-    x -= v.f - 0x1.8p20f;
+    v.f -= 0x1.8p20f;
+    x -= v.f;
 
     /* --- Compute 2^x, with |x| < 1 ---
      * Perform polynomial approximation in range -0.5/8 to 0.5/8,
-- 
2.43.0


From 8035bad9930971fc1a1fb24904721de7cb61ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:03 +0000
Subject: [PATCH 02/30] fix: undefined shift reading past the end of a frame

accu_load() shifts the 32 bits accumulator by its width, when all bits
have been consumed and the frame has no byte left.
---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 881258b..df2902a 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -327,7 +327,7 @@ static inline void accu_load(struct lc3_bits_accu *accu,
 
     if (accu->n >= 8) {
         accu->nover = LC3_MIN(accu->nover + accu->n, LC3_ACCU_BITS);
-        accu->v >>= accu->n;
+        accu->v = accu->n < LC3_ACCU_BITS ? accu->v >> accu->n : 0;
         accu->n = 0;
     }
 }
-- 
2.43.0


From 9dfe1ef1e0d4f6ae98745e54f5d37debf46f1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:03 +0000
Subject: [PATCH 03/30] fix: saturate decoded samples before the conversion to
 integer

The conversion of a sample out of the range of an int is undefined,
a large positive value is stored as the negative limit on x86.
---
 src/lc3.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..6cc77e2 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -484,8 +484,8 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
-        *pcm = LC3_SAT16(s);
+        float x = fminf(fmaxf(*xs, INT16_MIN), INT16_MAX);
+        *pcm = x >= 0 ? (int)(x + 0.5f) : (int)(x - 0.5f);
     }
 }
 
@@ -506,8 +506,8 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = lc3_ldexpf(fminf(fmaxf(*xs, -32768.f), 32768.f), 8);
+        int32_t s = x >= 0 ? (int32_t)(x + 0.5f) : (int32_t)(x - 0.5f);
         *pcm = LC3_SAT24(s);
     }
 }
@@ -529,8 +529,8 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        float x = lc3_ldexpf(fminf(fmaxf(*xs, -32768.f), 32768.f), 8);
+        int32_t s = x >= 0 ? (int32_t)(x + 0.5f) : (int32_t)(x - 0.5f);
 
         s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
-- 
2.43.0


From 60cfbd6a4daaa39718bf45d36a746b461dbc9933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:13 +0000
Subject: [PATCH 04/30] fix: overflow of the bits estimation in high-resolution
 mode

The sum over the spectrum exceeds 31 bits at low gains; once negative,
the gain retained is too low, and the spectrum is truncated.
---
 src/spec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..96ec0e3 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
-- 
2.43.0


From 967673f05ca46e96cfcbe13b72f457bd82e394e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:40 +0000
Subject: [PATCH 05/30] fix: code the first pair of coefficients when none is
 significant

The frame signals at least 2 coefficients, so a pair is read by the decoder.
When the spectrum is fully truncated to stay in the budget, none was written
and random low-frequency coefficients were decoded.
---
 src/spec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec.c b/src/spec.c
index 96ec0e3..73f8be9 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -333,7 +333,7 @@ LC3_HOT static int compute_nbits(
     uint8_t state = 0;
 
     int nbits_end = 0;
-    int n_end = 0;
+    int n_end = 2;
 
     nbits_budget = nbits_budget ? nbits_budget * 2048 : INT_MAX;
 
-- 
2.43.0


From fd0b764d75701220e9613ee8ca0f19d9f8c4983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:37 +0000
Subject: [PATCH 06/30] fix: refuse the high-resolution mode when it is not
 built

With LC3_PLUS_HR=0, the high-resolution parameters were accepted as those
of the standard mode.
---
 src/lc3.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index 6cc77e2..ccf2f7f 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -72,7 +72,8 @@ static enum lc3_dt resolve_dt(int us, bool hrmode)
  */
 static enum lc3_srate resolve_srate(int hz, bool hrmode)
 {
-    hrmode = LC3_PLUS_HR && hrmode;
+    if (hrmode && !LC3_PLUS_HR)
+        return LC3_NUM_SRATE;
 
     return !hrmode && hz ==  8000 ? LC3_SRATE_8K     :
            !hrmode && hz == 16000 ? LC3_SRATE_16K    :
-- 
2.43.0


From 7715ff5f6527c0662f86043bc80fc55c7685ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:12 +0000
Subject: [PATCH 07/30] fix: size of frame blocks of 2.5 ms at the maximum
 bitrate

The bitrate was limited to 8 x 672 kbps before being converted, whereas
2.5 ms frames of 400 bytes are at 1280 kbps: the maximum size was not
returned for blocks of 5 channels or more.
---
 src/lc3.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index ccf2f7f..d216006 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -116,9 +116,7 @@ LC3_EXPORT int lc3_hr_frame_block_bytes(
             || nchannels < 1 || nchannels > 8 || bitrate < 0)
         return -1;
 
-    bitrate = LC3_CLIP(bitrate, 0, 8*LC3_HR_MAX_BITRATE);
-
-    return LC3_CLIP((bitrate * (int)(1 + dt)) / 3200,
+    return LC3_CLIP((int)(((int64_t)bitrate * (int)(1 + dt)) / 3200),
         nchannels * lc3_min_frame_bytes(dt, sr),
         nchannels * lc3_max_frame_bytes(dt, sr) );
 }
-- 
2.43.0


From 816f69c4d82679632d139188b7c7ddb42f351889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:09 +0000
Subject: [PATCH 08/30] fix: reading of 32 bits fields

The mask of a field of 32 bits, as documented, was an undefined shift.
---
 src/bits.c | 2 +-
 src/bits.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bits.c b/src/bits.c
index df2902a..31cdcc9 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -346,7 +346,7 @@ LC3_HOT unsigned lc3_get_bits_generic(struct lc3_bits *bits, int n)
     accu_load(accu, buffer);
 
     int n1 = LC3_MIN(LC3_ACCU_BITS - accu->n, n);
-    unsigned v = (accu->v >> accu->n) & ((1u << n1) - 1);
+    unsigned v = (accu->v >> accu->n) & (~0u >> (LC3_ACCU_BITS - n1));
     accu->n += n1;
 
     /* --- Second round --- */
diff --git a/src/bits.h b/src/bits.h
index de65c93..88d9d24 100644
--- a/src/bits.h
+++ b/src/bits.h
@@ -244,7 +244,7 @@ LC3_HOT static inline unsigned lc3_get_bits(struct lc3_bits *bits, int n)
     struct lc3_bits_accu *accu = &bits->accu;
 
     if (accu->n + n <= LC3_ACCU_BITS) {
-        int v = (accu->v >> accu->n) & ((1u << n) - 1);
+        int v = (accu->v >> accu->n) & (~0u >> (LC3_ACCU_BITS - n));
         return (accu->n += n), v;
     }
     else {
-- 
2.43.0


From 1bdfab956aa2f2804d97bf27d40dc9376b51b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:47 +0000
Subject: [PATCH 09/30] fix: C++ decoding in 32 bits words is not packed

Decoder::Decode(..., int32_t *) selected the packed 24 bits format.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From 4823ceab92b7fed21c2c835411f169d9fca9f1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:47 +0000
Subject: [PATCH 10/30] fix: size of C++ contexts with a negative PCM rate

The setup falls back to the coded rate when the PCM rate is not positive,
when the size is 0 for a negative one: the setup wrote outside the memory.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 6542660..5438b5d 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -53,7 +53,7 @@ class Base {
   Base(int dt_us, int sr_hz, int sr_pcm_hz, size_t nchannels, bool hrmode)
       : dt_us_(dt_us),
         sr_hz_(sr_hz),
-        sr_pcm_hz_(sr_pcm_hz == 0 ? sr_hz : sr_pcm_hz),
+        sr_pcm_hz_(sr_pcm_hz <= 0 ? sr_hz : sr_pcm_hz),
         nchannels_(nchannels),
         hrmode_(hrmode) {
     states.reserve(nchannels_);
-- 
2.43.0


From bb6ff67edab0c9ec4a1a71202b32f1f477cfeb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:47 +0000
Subject: [PATCH 11/30] fix: C++ decoding of a lost block with several channels

Without input, the second channel was given an invalid pointer.
---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 5438b5d..dc7c3d6 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -219,7 +219,7 @@ class Decoder : public Base<struct lc3_decoder> {
       ret |= lc3_decode(states[ich].get(), in_ptr, frame_size,
                         cfmt, pcm + ich, nchannels_);
 
-      in_ptr += frame_size;
+      if (in_ptr) in_ptr += frame_size;
     }
 
     return ret;
-- 
2.43.0


From 8ad52383f74e5ffb1db250fdec65ea0b9d8b7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:53 +0000
Subject: [PATCH 12/30] fix: padding of short float input in Python

The padding did not depend on the length of the input: mono short input was
refused, instead of being padded with zeros.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..8b46a47 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -345,7 +345,7 @@ class Encoder(_Base):
             if not abs(sum(pcm_buffer)) / frame_samples < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0


From bd2ca10250cb3687c4ca7e6b90cd04540e4b1674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:53 +0000
Subject: [PATCH 13/30] fix: range check of float input in Python

The sum over the channels was compared to the level of one: valid full scale
input of several channels was refused. Out of range samples of opposite signs
were accepted.
---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8b46a47..6391089 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -342,7 +342,7 @@ class Encoder(_Base):
             pcm_buffer = array.array("f", pcm)
 
             # Invert test to catch NaN
-            if not abs(sum(pcm_buffer)) / frame_samples < 2:
+            if not all(abs(sample) < 2 for sample in pcm_buffer):
                 raise InvalidArgumentError("Out of range PCM input")
 
             padding = max(pcm_len - len(pcm_buffer), 0)
-- 
2.43.0


From 30868e4aec0ce3082b7c6b949e0c6fc2c5938bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:53 +0000
Subject: [PATCH 14/30] fix: refuse a PCM rate below the sample rate in Python

With a negative one, the setup wrote in a context of size 0.
---
 python/lc3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lc3.py b/python/lc3.py
index 6391089..55b7243 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -76,6 +76,11 @@ class _Base:
         if self.sample_rate_hz not in allowed_samplerate:
             raise InvalidArgumentError(f"Invalid sample rate: {sample_rate_hz} Hz")
 
+        if self.pcm_sample_rate_hz < self.sample_rate_hz:
+            raise InvalidArgumentError(
+                f"Invalid PCM sample rate: {pcm_sample_rate_hz} Hz"
+            )
+
         if libpath is None:
             mesonpy_lib = glob.glob(
                 os.path.join(os.path.dirname(__file__), ".lc3py.mesonpy.libs", "*lc3*")
-- 
2.43.0


From 68fd1b5a2b52e442ecb4a8d7810e800b9913de24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:21:53 +0000
Subject: [PATCH 15/30] fix: release the contexts in Python

The generators were not consumed, and the contexts never freed.
---
 python/lc3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index 55b7243..a24d532 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -305,7 +305,8 @@ class Encoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(encoder) for encoder in self.__encoders)
+            for encoder in self.__encoders:
+                self.free(encoder)
         finally:
             return
 
@@ -471,7 +472,8 @@ class Decoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(decoder) for decoder in self.__decoders)
+            for decoder in self.__decoders:
+                self.free(decoder)
         finally:
             return
 
-- 
2.43.0


From f4e3509fc83b72df0869effca1417c42f043533a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:22:05 +0000
Subject: [PATCH 16/30] fix: Python interface with a library without
 high-resolution interface

The pointers to the contexts were truncated to 32 bits, and the size of the
frames was always the one for 2 channels.
---
 python/lc3.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index a24d532..687dff6 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -112,7 +112,7 @@ class _Base:
             )
             lc3_hr_frame_block_bytes = (
                 lambda hrmode, dt_us, sr_hz, num_channels, bitrate: num_channels
-                * lib.lc3_frame_bytes(dt_us, bitrate // 2)
+                * lib.lc3_frame_bytes(dt_us, bitrate // num_channels)
             )
             lc3_hr_resolve_bitrate = (
                 lambda hrmode, dt_us, sr_hz, nbytes: lib.lc3_resolve_bitrate(
@@ -269,6 +269,9 @@ class Encoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+            lib.lc3_setup_encoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_encoder.restype = self.c_encoder_t
+
             setattr(lib, "lc3_hr_encoder_size", lc3_hr_encoder_size)
             setattr(lib, "lc3_hr_setup_encoder", lc3_hr_setup_encoder)
 
@@ -436,6 +439,9 @@ class Decoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+            lib.lc3_setup_decoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_decoder.restype = self.c_decoder_t
+
             setattr(lib, "lc3_hr_decoder_size", lc3_hr_decoder_size)
             setattr(lib, "lc3_hr_setup_decoder", lc3_hr_setup_decoder)
 
-- 
2.43.0


From 00e6ee7c064c6a32ea644cc35390c8ef8f6d3153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 17/30] fix: reading of wave headers with extended format or
 extra chunks

The end of an extended format chunk was skipped backward, the padding of the
chunks of odd size ignored, and nothing skipped when reading from a pipe.
---
 tools/wave.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tools/wave.c b/tools/wave.c
index 126f913..a1dbf3a 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -87,6 +87,14 @@ struct wave_data {
 };
 
 
+/**
+ * Skip bytes of a file, which can be a pipe
+ */
+static void skip(FILE *fp, int64_t count)
+{
+    while (count-- > 0 && getc(fp) != EOF);
+}
+
 /**
  * Read WAVE file header
  */
@@ -104,6 +112,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
 
     if (fread(&format, sizeof(format), 1, fp) != 1
             || format.id         != WAVE_FORMAT_ID
+            || format.size       <  sizeof(format) - 8
             || ( format.fmt      != WAVE_FORMAT_PCM &&
                  format.fmt      != WAVE_FORMAT_EXT   )
             || format.channels   <= 0
@@ -112,10 +121,10 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    skip(fp, (int64_t)format.size + (format.size & 1) + 8 - sizeof(format));
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
-          ; fseek(fp, data.size, SEEK_CUR) );
+          ; skip(fp, (int64_t)data.size + (data.size & 1)) );
 
     if (feof(fp))
       return -1;
-- 
2.43.0


From c48eb803cfd4f40c65c485f4744f160e4d6cbf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 18/30] fix: undefined shift reading the number of samples of
 coded files

---
 tools/lc3bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 97ae82b..79602c1 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -61,7 +61,7 @@ int lc3bin_read_header(FILE *fp,
     *nchannels = hdr.channels;
     *frame_us = hdr.frame_10us * 10;
     *srate_hz = hdr.srate_100hz * 100;
-    *nsamples = hdr.nsamples_low | (hdr.nsamples_high << 16);
+    *nsamples = hdr.nsamples_low | ((uint32_t)hdr.nsamples_high << 16);
     *hrmode = hdr_hrmode != 0;
 
     if (hdr.epmode)
-- 
2.43.0


From 63b406bd86335af40597f07961c3cf90ec3649bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 19/30] fix: skip the end of larger headers when reading coded
 files from a pipe

---
 tools/lc3bin.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 79602c1..73b0fbe 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -67,7 +67,10 @@ int lc3bin_read_header(FILE *fp,
     if (hdr.epmode)
       return -1;
 
-    fseek(fp, hdr.header_size, SEEK_SET);
+    int nskip = hdr.header_size - sizeof(hdr)
+        - (num_extended_params >= 1 ? sizeof(hdr_hrmode) : 0);
+
+    while (nskip-- > 0 && getc(fp) != EOF);
 
     return 0;
 }
-- 
2.43.0


From 477569efd32c964334efaeb040dc926b8728c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 20/30] fix: number of samples decoded from streams shorter
 than a frame

The samples of the delay were not deduced: more samples were written than
the stream has.
---
 tools/dlc3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8c22ba1..8e2a17b 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -251,8 +251,8 @@ int main(int argc, char *argv[])
         }
 
         int pcm_offset = i > 0 ? 0 : encode_samples - pcm_samples;
-        int pcm_nwrite = MIN(frame_samples - pcm_offset,
-            encode_samples - i*frame_samples);
+        int pcm_nwrite = MIN(frame_samples,
+            encode_samples - i*frame_samples) - pcm_offset;
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
-- 
2.43.0


From d997d95c118d2a6b281c3850a23bf72d7eca4ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 21/30] fix: conceal the frames of unsupported size of coded
 files

Samples of the previous frame, or uninitialized ones were written.
---
 tools/dlc3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8e2a17b..c85e32a 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -245,6 +245,10 @@ int main(int argc, char *argv[])
                 int res = lc3_decode(dec[ich], in_ptr, frame_bytes,
                     pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
 
+                if (res < 0)
+                    lc3_decode(dec[ich], NULL, 0,
+                        pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
+
                 nerr += (res != 0);
                 in_ptr += frame_bytes;
             }
-- 
2.43.0


From 7b486f679a6251fa37d17610be861756ca7dd5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 22/30] fix: refuse the null output bitdepth

It gives a wave file without samples.
---
 tools/dlc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index c85e32a..bef3c0a 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -155,7 +155,7 @@ int main(int argc, char *argv[])
     if (p.fname_out && (fp_out = fopen(p.fname_out, "wb")) == NULL)
         error(errno, "%s", p.fname_out);
 
-    if (p.bitdepth && p.bitdepth != 16 && p.bitdepth != 24)
+    if (p.bitdepth != 16 && p.bitdepth != 24)
         error(EINVAL, "Bitdepth %d", p.bitdepth);
 
     /* --- Check parameters --- */
-- 
2.43.0


From 5aa5b2aa64d59c22aa9b73e643b0e84b4548a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 23/30] fix: do not encode what follows the data of wave files

The chunks after the data were encoded as samples.
---
 tools/elc3.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/elc3.c b/tools/elc3.c
index dec8bb0..14ea05d 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -33,6 +33,14 @@
 
 #define MAX_CHANNELS 2
 
+#ifndef MIN
+#define MIN(a, b)  ( (a) < (b) ? (a) : (b) )
+#endif
+
+#ifndef MAX
+#define MAX(a, b)  ( (a) > (b) ? (a) : (b) )
+#endif
+
 
 /**
  * Error handling
@@ -239,7 +247,9 @@ int main(int argc, char *argv[])
 
     for (int i = 0; i * frame_samples < encode_samples; i++) {
 
-        int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels, frame_samples, pcm);
+        int nleft = MAX(nsamples - i * frame_samples, 0);
+        int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels,
+            MIN(frame_samples, nleft), pcm);
 
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
-- 
2.43.0


From f531d63502b0dbac5d8ab045af7fd70b899da816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:43 +0000
Subject: [PATCH 24/30] fix: overflow of the number of samples of long streams

It was undefined for progress after 2^31 us, and an endless loop was possible
with the number of samples near 2^31.
---
 tools/dlc3.c | 4 ++--
 tools/elc3.c | 6 +++---
 tools/wave.c | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index bef3c0a..aa15b69 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -197,7 +197,7 @@ int main(int argc, char *argv[])
     lc3_decoder_t dec[2];
 
     int frame_samples = lc3_hr_frame_samples(hrmode, frame_us, pcm_srate_hz);
-    int encode_samples = pcm_samples +
+    int64_t encode_samples = (int64_t)pcm_samples +
         lc3_hr_delay_samples(hrmode, frame_us, pcm_srate_hz);
     enum lc3_pcm_format pcm_fmt =
         pcm_sbits == 24 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S16;
@@ -219,7 +219,7 @@ int main(int argc, char *argv[])
     int nerr = 0;
     unsigned t0 = clock_us();
 
-    for (int i = 0; i * frame_samples < encode_samples; i++) {
+    for (int64_t i = 0; i * frame_samples < encode_samples; i++) {
 
         int block_bytes = lc3bin_read_data(fp_in, nchannels, in);
 
diff --git a/tools/elc3.c b/tools/elc3.c
index 14ea05d..65e2e9a 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -223,7 +223,7 @@ int main(int argc, char *argv[])
 
     int frame_samples = lc3_hr_frame_samples(
         p.hrmode, frame_us, srate_hz);
-    int encode_samples = nsamples + lc3_hr_delay_samples(
+    int64_t encode_samples = (int64_t)nsamples + lc3_hr_delay_samples(
         p.hrmode, frame_us, srate_hz);
     enum lc3_pcm_format pcm_fmt =
         pcm_sbytes == 32/8 ? LC3_PCM_FORMAT_S24 :
@@ -245,9 +245,9 @@ int main(int argc, char *argv[])
     int nsec = 0;
     unsigned t0 = clock_us();
 
-    for (int i = 0; i * frame_samples < encode_samples; i++) {
+    for (int64_t i = 0; i * frame_samples < encode_samples; i++) {
 
-        int nleft = MAX(nsamples - i * frame_samples, 0);
+        int64_t nleft = MAX(nsamples - i * frame_samples, 0);
         int nread = wave_read_pcm(fp_in, pcm_sbytes, nchannels,
             MIN(frame_samples, nleft), pcm);
 
diff --git a/tools/wave.c b/tools/wave.c
index a1dbf3a..874298e 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -159,7 +159,7 @@ void wave_write_header(FILE *fp, int bitdepth, int samplesize,
         struct wave_data data;
     } header;
 
-    long data_size = nchannels * nframes * samplesize;
+    long data_size = (long)nchannels * nframes * samplesize;
     long file_size = sizeof(header) + data_size;
 
     header.file = (struct wave_file){
-- 
2.43.0


From 1e8d6f5a65b0c011e48915735d6a666289003069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:11 +0000
Subject: [PATCH 25/30] fix: refuse coded files with a number of samples out of
 range

It was negative from 2^31 samples.
---
 tools/dlc3.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index aa15b69..beb93e0 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -184,9 +184,12 @@ int main(int argc, char *argv[])
     int pcm_sbytes = pcm_sbits / 8;
 
     int pcm_srate_hz = !p.srate_hz ? srate_hz : p.srate_hz;
-    int pcm_samples = !p.srate_hz ? nsamples :
+    int64_t pcm_samples = !p.srate_hz ? nsamples :
         ((int64_t)nsamples * pcm_srate_hz) / srate_hz;
 
+    if (pcm_samples < 0 || pcm_samples > INT32_MAX)
+        error(EINVAL, "Number of samples");
+
     wave_write_header(fp_out,
           pcm_sbits, pcm_sbytes, pcm_srate_hz, nchannels, pcm_samples);
 
@@ -197,7 +200,7 @@ int main(int argc, char *argv[])
     lc3_decoder_t dec[2];
 
     int frame_samples = lc3_hr_frame_samples(hrmode, frame_us, pcm_srate_hz);
-    int64_t encode_samples = (int64_t)pcm_samples +
+    int64_t encode_samples = pcm_samples +
         lc3_hr_delay_samples(hrmode, frame_us, pcm_srate_hz);
     enum lc3_pcm_format pcm_fmt =
         pcm_sbits == 24 ? LC3_PCM_FORMAT_S24_3LE : LC3_PCM_FORMAT_S16;
-- 
2.43.0


From 836bb80b195198c9928c5ce87519b8b75e516887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:11 +0000
Subject: [PATCH 26/30] fix: frame durations of 2.5 and 7.5 ms of the Python
 encoder tool

---
 python/tools/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index 3246c4c..e7a3454 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -57,7 +57,7 @@ stream_length = wavfile.getnframes()
 # --- Setup encoder ---
 
 enc = lc3.Encoder(
-    int(args.frame_duration)*1000, samplerate, nchannels, libpath=args.libpath)
+    int(args.frame_duration*1000), samplerate, nchannels, libpath=args.libpath)
 frame_size = enc.get_frame_bytes(args.bitrate)
 frame_length = enc.get_frame_samples()
 bitrate = enc.resolve_bitrate(frame_size)
-- 
2.43.0


From ccc5849a5aee21cc3f4b4fd745b2889068bab200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:36:11 +0000
Subject: [PATCH 27/30] fix: end of stream of the Python encoder tool

The frames holding the last samples, delayed, were not written.
---
 python/tools/encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/tools/encoder.py b/python/tools/encoder.py
index e7a3454..8a7f04c 100755
--- a/python/tools/encoder.py
+++ b/python/tools/encoder.py
@@ -72,7 +72,7 @@ f_lc3.write(struct.pack(
 
 # --- Encoding loop ---
 
-for i in range(0, stream_length, frame_length):
+for i in range(0, stream_length + enc.get_delay_samples(), frame_length):
 
     f_lc3.write(struct.pack('=H', frame_size))
 
-- 
2.43.0


From be3f6a3273c0f68c3a791297d71321ab5ba71e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:03:56 +0000
Subject: [PATCH 28/30] fix: overflow of the pitch analysis high-pass filter on
 full scale samples

---
 src/ltpf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ltpf.c b/src/ltpf.c
index 08cbae6..8dfecd8 100644
--- a/src/ltpf.c
+++ b/src/ltpf.c
@@ -189,7 +189,12 @@ LC3_HOT static inline int32_t filter_hp50(
     const int32_t a1 = -2110217691, a2 = 1037111617;
     const int32_t b1 = -2110535566, b2 = 1055267782;
 
-    yn       = (hp50->s1 + (int64_t)xn * b2) >> 30;
+    /* The response to full scale samples can exceed 32 bits, limit it,
+     * and keep the margin needed to round it on 16 bits */
+
+    int64_t y = (hp50->s1 + (int64_t)xn * b2) >> 30;
+
+    yn       = LC3_CLIP(y, INT32_MIN, INT32_MAX - (1 << 15));
     hp50->s1 = (hp50->s2 + (int64_t)xn * b1 - (int64_t)yn * a1);
     hp50->s2 = (           (int64_t)xn * b2 - (int64_t)yn * a2);
 
-- 
2.43.0


From e114c74a67891a5c4b91e3632afdfe6688ee4da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:05:36 +0000
Subject: [PATCH 29/30] fix: Python encoder and decoder without channel are
 refused

---
 python/lc3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/lc3.py b/python/lc3.py
index 687dff6..d8176ae 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -69,6 +69,9 @@ class _Base:
                 f"Invalid frame duration: {self.frame_duration_us} us ({self.frame_duration_us / 1000:.1f} ms)"
             )
 
+        if self.num_channels < 1:
+            raise InvalidArgumentError(f"Invalid number of channels: {num_channels}")
+
         allowed_samplerate = (
             [8000, 16000, 24000, 32000, 48000] if not self.hrmode else [48000, 96000]
         )
-- 
2.43.0


From 102484af2e3c889c0d52a34cbfb66270d54de8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:40 +0000
Subject: [PATCH 30/30] fix: the size of a lost frame is ignored

A large size, given along a lost frame, leads to a signed overflow in
the LTPF synthesis.
---
 src/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index d216006..36f574e 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -761,7 +761,7 @@ LC3_EXPORT int lc3_decode(struct lc3_decoder *decoder,
 
     int ret = !in || (decode(decoder, in, nbytes, &side) < 0);
 
-    synthesize(decoder, ret ? NULL : &side, nbytes);
+    synthesize(decoder, ret ? NULL : &side, ret ? 0 : nbytes);
 
     store[fmt](decoder, pcm, stride);
 
-- 
2.43.0

