From 9eb2e833f0462b604a19c768ed36982172e6bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 01/36] fix: keep the divisor while normalising a Cauchy matrix

The divisor was overwritten by 1 before the rest of its row or column was
divided, so the matrix was no longer a scaled Cauchy matrix and some sets of k
fragments could not be decoded.
---
 src/vec_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index f3a7e5c..ffa48e9 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -417,14 +417,16 @@ void Matrix<T>::cauchy()
     /* do optimise */
     // convert 1st row to all 1s
     for (j = 0; j < n_cols; j++) {
+        const T divisor = get(0, j);
         for (i = 0; i < n_rows; i++) {
-            set(i, j, rn->div(get(i, j), get(0, j)));
+            set(i, j, rn->div(get(i, j), divisor));
         }
     }
     // convert 1st element of each row to 1
     for (i = 1; i < n_rows; i++) {
+        const T divisor = get(i, 0);
         for (j = 0; j < n_cols; j++) {
-            set(i, j, rn->div(get(i, j), get(i, 0)));
+            set(i, j, rn->div(get(i, j), divisor));
         }
     }
 }
-- 
2.43.0


From d42359743fff17a83a64d40f45b62f8144a218f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 02/36] fix: zero-fill exactly the unused part of serialized
 properties

The last word was never initialised, and with a full buffer the fill started
past its own end and ran over the memory behind the buffer.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index 2fc6a56..aa146fa 100644
--- a/src/property.h
+++ b/src/property.h
@@ -112,7 +112,7 @@ class Properties {
             dwords[i++] = htonl(narrow_cast<uint32_t>(item.first));
         }
         dwords[1] = htonl(i - 2);
-        std::fill(dwords + i, dwords + n_dwords - 1, htonl(0));
+        std::fill(dwords + i, dwords + n_dwords, htonl(0));
 
         return 0;
     }
-- 
2.43.0


From 9e2872840f95e968401dc94b5617d1bded0c72de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 03/36] fix: avoid overflow when checking the number of
 serialized properties

An announced count close to 2^32 wrapped around and passed the check.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index aa146fa..fe86d99 100644
--- a/src/property.h
+++ b/src/property.h
@@ -132,7 +132,7 @@ class Properties {
             return -1;
         }
         uint32_t _n_dwords = ntohl(dwords[1]);
-        if ((2 + _n_dwords) > n_dwords) {
+        if (_n_dwords > n_dwords - 2) {
             return -1;
         }
         for (unsigned i = 0; i < _n_dwords; i++) {
-- 
2.43.0


From 15fd477382c79b943af4712bc78758ac1c785641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 04/36] fix: do not index parity properties by data index in C
 decode

parities_props has n_outputs entries, fewer than n_data for a systematic code
with more data than parities.
---
 src/quadiron_c.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3400eeb..9a38467 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -216,10 +216,11 @@ int quadiron_fnt32_decode(
         return -1;
 
     // reset metadata of data
+    quadiron::Properties null_prop;
+
     for (unsigned i = 0; i < fec->n_data; i++) {
-        parities_props[i].clear();
         uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
-        int ret = parities_props[i].fnt_serialize(metadata, metadata_size / 4);
+        int ret = null_prop.fnt_serialize(metadata, metadata_size / 4);
         if (ret == -1) {
             return -1;
         }
-- 
2.43.0


From 4bfcf1ab9c20a4be9693529bbf41ededa1799f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 05/36] fix: give C reconstruct a wish list of n_data entries
 for a data target

The list of n_outputs entries was indexed up to n_data, out of bounds when there
are more data than parities.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 9a38467..e6d13ec 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -293,13 +293,13 @@ int quadiron_fnt32_reconstruct(
          * Easy case where the target is a data then simply decode
          */
         if (destination_idx < fec->n_data) {
-            wanted_idxs_vec[destination_idx] = true;
+            wanted_data_vec[destination_idx] = true;
             res = fec->decode_blocks_vertical(
                 data_vec,
                 parities_vec,
                 parities_props,
                 missing_idxs_vec,
-                wanted_idxs_vec,
+                wanted_data_vec,
                 block_size);
             if (!res) {
                 return -1;
-- 
2.43.0


From 9e67224d6c3d9a07b7e090ec16dc7bdf3c2c42ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 06/36] fix: accept NULL entries for unwanted parities in C
 encode

The documentation asks callers to pass NULL for them, but their metadata was
written all the same.
---
 src/quadiron_c.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index e6d13ec..f7162ae 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -94,7 +94,9 @@ int quadiron_fnt32_encode(
             data_vec[i] = data[i] + metadata_size;
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
-            parities_vec[i] = parity[i] + metadata_size;
+            if (wanted_idxs_vec[i]) {
+                parities_vec[i] = parity[i] + metadata_size;
+            }
         }
     } else {
         for (unsigned i = 0; i < fec->n_data; i++) {
@@ -102,7 +104,9 @@ int quadiron_fnt32_encode(
             parities_vec[i] = data[i] + metadata_size;
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
-            parities_vec[fec->n_data + i] = parity[i] + metadata_size;
+            if (wanted_idxs_vec[fec->n_data + i]) {
+                parities_vec[fec->n_data + i] = parity[i] + metadata_size;
+            }
         }
     }
 
@@ -120,6 +124,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs_vec[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -137,6 +144,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs_vec[fec->n_data + i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret = parities_props[fec->n_data + i].fnt_serialize(
                 metadata, metadata_size / 4);
-- 
2.43.0


From c3c54a8b010354d37a95bc713fe00656773c2c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:58 +0000
Subject: [PATCH 07/36] fix: do not offset NULL block pointers in C reconstruct

Missing entries may be NULL; arithmetic on a null pointer is undefined.
---
 src/quadiron_c.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index f7162ae..d0f71a7 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -261,7 +261,9 @@ int quadiron_fnt32_reconstruct(
 
     if (fec->type == quadiron::fec::FecType::SYSTEMATIC) {
         for (unsigned i = 0; i < fec->n_data; i++) {
-            data_vec[i] = data[i] + metadata_size;
+            if (data[i] != nullptr) {
+                data_vec[i] = data[i] + metadata_size;
+            }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
             if (!missing_idxs[fec->n_data + i]) {
@@ -271,7 +273,9 @@ int quadiron_fnt32_reconstruct(
                 if (ret == -1)
                     return -1;
             }
-            parities_vec[i] = parity[i] + metadata_size;
+            if (parity[i] != nullptr) {
+                parities_vec[i] = parity[i] + metadata_size;
+            }
         }
     } else {
         for (unsigned i = 0; i < fec->n_data; i++) {
@@ -282,7 +286,9 @@ int quadiron_fnt32_reconstruct(
                 if (ret == -1)
                     return -1;
             }
-            parities_vec[i] = data[i] + metadata_size;
+            if (data[i] != nullptr) {
+                parities_vec[i] = data[i] + metadata_size;
+            }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
             if (!missing_idxs[fec->n_data + i]) {
@@ -292,7 +298,9 @@ int quadiron_fnt32_reconstruct(
                 if (ret == -1)
                     return -1;
             }
-            parities_vec[fec->n_data + i] = parity[i] + metadata_size;
+            if (parity[i] != nullptr) {
+                parities_vec[fec->n_data + i] = parity[i] + metadata_size;
+            }
         }
     }
 
-- 
2.43.0


From 453ee5cbad905c8b746d91cc5d3b586749c9c23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 08/36] fix: use vectorized arithmetic only for the fields it
 implements

Vectorized operations hard-code F_257 for 16-bit and F_65537 for 32-bit elements,
but were used for every 16-bit and 32-bit field. In particular the C interface
with a word size of 1 (F_257 stored on 32 bits) returned wrong data.
---
 src/fft_2n.h           |  3 ++-
 src/gf_ring.cpp        | 60 ++++++++++++++++++++++++++++++++++++++++++
 src/simd/definitions.h | 21 +++++++++++++++
 3 files changed, 83 insertions(+), 1 deletion(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 559df84..b3e05c1 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -202,7 +202,8 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
 
     // Indices used for accelerated functions
     const unsigned ratio = simd::countof<T>();
-    simd_vec_len = this->pkt_size / ratio;
+    simd_vec_len =
+        simd::is_supported_card<T>(card) ? this->pkt_size / ratio : 0;
     simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
     simd_offset = simd_vec_len * ratio;
 }
diff --git a/src/gf_ring.cpp b/src/gf_ring.cpp
index da1ed53..edce427 100644
--- a/src/gf_ring.cpp
+++ b/src/gf_ring.cpp
@@ -40,12 +40,24 @@ namespace gf {
 template <>
 void RingModN<uint16_t>::neg(size_t n, uint16_t* x) const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < n; i++) {
+            x[i] = neg(x[i]);
+        }
+        return;
+    }
     simd::neg(n, x, this->_card);
 }
 
 template <>
 void RingModN<uint32_t>::neg(size_t n, uint32_t* x) const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < n; i++) {
+            x[i] = neg(x[i]);
+        }
+        return;
+    }
     simd::neg(n, x, this->_card);
 }
 
@@ -56,6 +68,12 @@ void RingModN<uint32_t>::mul_coef_to_buf(
     uint32_t* dest,
     size_t len) const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < len; i++) {
+            dest[i] = mul(a, src[i]);
+        }
+        return;
+    }
     simd::mul_coef_to_buf(a, src, dest, len, this->_card);
 }
 
@@ -63,6 +81,12 @@ template <>
 void RingModN<uint32_t>::add_two_bufs(uint32_t* src, uint32_t* dest, size_t len)
     const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < len; i++) {
+            dest[i] = add(src[i], dest[i]);
+        }
+        return;
+    }
     simd::add_two_bufs(src, dest, len, this->_card);
 }
 
@@ -73,6 +97,12 @@ void RingModN<uint32_t>::sub_two_bufs(
     uint32_t* res,
     size_t len) const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < len; i++) {
+            res[i] = sub(bufa[i], bufb[i]);
+        }
+        return;
+    }
     simd::sub_two_bufs(bufa, bufb, res, len, this->_card);
 }
 
@@ -83,6 +113,12 @@ void RingModN<uint16_t>::mul_coef_to_buf(
     uint16_t* dest,
     size_t len) const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < len; i++) {
+            dest[i] = mul(a, src[i]);
+        }
+        return;
+    }
     simd::mul_coef_to_buf(a, src, dest, len, this->_card);
 }
 
@@ -90,6 +126,12 @@ template <>
 void RingModN<uint16_t>::add_two_bufs(uint16_t* src, uint16_t* dest, size_t len)
     const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < len; i++) {
+            dest[i] = add(src[i], dest[i]);
+        }
+        return;
+    }
     simd::add_two_bufs(src, dest, len, this->_card);
 }
 
@@ -100,6 +142,12 @@ void RingModN<uint16_t>::sub_two_bufs(
     uint16_t* res,
     size_t len) const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (size_t i = 0; i < len; i++) {
+            res[i] = sub(bufa[i], bufb[i]);
+        }
+        return;
+    }
     simd::sub_two_bufs(bufa, bufb, res, len, this->_card);
 }
 
@@ -107,6 +155,12 @@ template <>
 void RingModN<uint16_t>::hadamard_mul(int n, uint16_t* x_u16, uint16_t* y_u16)
     const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (int i = 0; i < n; i++) {
+            x_u16[i] = mul(x_u16[i], y_u16[i]);
+        }
+        return;
+    }
     simd::mul_two_bufs(y_u16, x_u16, n, this->_card);
 }
 
@@ -114,6 +168,12 @@ template <>
 void RingModN<uint32_t>::hadamard_mul(int n, uint32_t* x_u32, uint32_t* y_u32)
     const
 {
+    if (!simd::is_supported_card(this->_card)) {
+        for (int i = 0; i < n; i++) {
+            x_u32[i] = mul(x_u32[i], y_u32[i]);
+        }
+        return;
+    }
     simd::mul_two_bufs(y_u32, x_u32, n, this->_card);
 }
 
diff --git a/src/simd/definitions.h b/src/simd/definitions.h
index 50617a3..65dedbf 100644
--- a/src/simd/definitions.h
+++ b/src/simd/definitions.h
@@ -60,6 +60,27 @@
 namespace quadiron {
 namespace simd {
 
+/** Tell if vectorized modular arithmetic supports a given cardinal.
+ *
+ * Vectorized operations are only implemented for elements of `F_257` stored on
+ * 16 bits, and of `F_65537` stored on 32 bits.
+ */
+template <typename T>
+inline bool is_supported_card(T /* card */)
+{
+    return false;
+}
+template <>
+inline bool is_supported_card(uint16_t card)
+{
+    return card == 257;
+}
+template <>
+inline bool is_supported_card(uint32_t card)
+{
+    return card == 65537;
+}
+
 /// Supported instruction set.
 enum class InstructionSet {
     NONE, ///< No SIMD instruction (fallback).
-- 
2.43.0


From 1b3b5f3f85dd278f2458e8d844c6dc9c57b9bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 09/36] fix: recognise trivial coefficients by their field
 value in mul_vec_to_vecp

The largest element is not -1 in an extension field, and 1 is not the unit when
several elements are packed in a word.
---
 src/gf_ring.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 935edce..33baf8f 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -381,21 +381,22 @@ inline void RingModN<T>::mul_vec_to_vecp(
     int i;
     int n = u.get_n();
     size_t len = src.get_size();
-    T h = this->card_minus_one();
+    const T one = this->replicate(1);
+    const T minus_one = this->neg(one);
     const std::vector<T*>& src_mem = src.get_mem();
     const std::vector<T*>& dest_mem = dest.get_mem();
     T* coef_vec = u.get_mem();
     for (i = 0; i < n; i++) {
         T coef = coef_vec[i];
-        if (coef > 1 && coef < h) {
-            this->mul_coef_to_buf(coef, src_mem[i], dest_mem[i], len);
-        } else if (coef == 1) {
-            dest.copy(i, src_mem[i]);
-        } else if (coef == 0) {
+        if (coef == 0) {
             dest.fill(i, 0);
-        } else if (coef == h) {
+        } else if (coef == one) {
+            dest.copy(i, src_mem[i]);
+        } else if (coef == minus_one) {
             dest.copy(i, src_mem[i]);
             this->neg(len, dest_mem[i]);
+        } else {
+            this->mul_coef_to_buf(coef, src_mem[i], dest_mem[i], len);
         }
     }
 }
-- 
2.43.0


From 71a8d4e4ad12ef0de1d45e234ba1a795660633a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:19 +0000
Subject: [PATCH 10/36] fix: remove a negative shift in reverse_bitwise

The bit of weight len is never set and was shifted by -1.
---
 src/fft_2n.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index b3e05c1..7774fa2 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -48,9 +48,9 @@
  */
 inline unsigned reverse_bitwise(unsigned x, unsigned len, unsigned bit_len)
 {
-    unsigned mask = len;
+    unsigned mask = len / 2;
     unsigned res = 0;
-    unsigned bit_num = bit_len;
+    unsigned bit_num = bit_len - 1;
     while (mask > 0) {
         unsigned char bit = (x & mask) >> bit_num;
         res |= (bit << (bit_len - 1 - bit_num)); // NOLINT
-- 
2.43.0


From e7e2e286be5f250dfc887d36820ced216971d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 11/36] fix: do not process uninitialized rows in the inverse
 FFT of short inputs

While Q = c * P is performed for groups larger than the input, only the
first ceil2(input_len) rows of a group are set. Reading the other ones
breaks the operand assertions of the fields on recycled memory.
---
 src/fft_2n.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 7774fa2..c2751ba 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -541,7 +541,8 @@ void Radix2<T>::fft_inv(vec::Buffers<T>& output, vec::Buffers<T>& input)
         // For Q are zeros only => Q = c * P
         for (; m >= input_len; m /= 2) {
             unsigned doubled_m = 2 * m;
-            for (unsigned j = 0; j < m; ++j) {
+            // rows from `input_len_power_2` to `m` are not set yet
+            for (unsigned j = 0; j < input_len_power_2; ++j) {
                 const T r = inv_W->get(j * len / doubled_m);
                 butterfly_gs_step_simple(output, r, j, m, doubled_m);
             }
@@ -683,10 +684,11 @@ OpCounter Radix2<T>::ifft_op_counter(size_t input_len)
 
     size_t m = len / 2;
     if (input_len < len) {
+        const size_t input_len_power_2 = arith::ceil2<unsigned>(input_len);
         // For Q are zeros only => Q = c * P
         for (; m >= input_len; m /= 2) {
             const size_t step = 2 * m;
-            for (size_t start = 0; start < m; ++start) {
+            for (size_t start = 0; start < input_len_power_2; ++start) {
                 const T coef = inv_W->get(start * len / step);
                 // one butterfly_gs_step_simple operation
                 // butterfly_gs_step_simple(output, coef, start, m, step)
-- 
2.43.0


From aadd360bc3b6fc3fd4e43789206881562783edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 12/36] fix: compute modular exponentiation on the double-size
 type

The products overflowed for moduli wider than half the type, e.g. 65537 on
uint32_t, which also broke the Solovay-Strassen test.
---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index fab8c64..9c48b1d 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -183,10 +183,10 @@ T exp_mod(T base, T exponent, T modulus)
     base = base % modulus;
     while (exponent > 0) {
         if (exponent % 2 == 1) {
-            result = (result * base) % modulus;
+            result = static_cast<T>((DoubleSizeVal<T>(result) * base) % modulus);
         }
         exponent = exponent >> 1;
-        base = (base * base) % modulus;
+        base = static_cast<T>((DoubleSizeVal<T>(base) * base) % modulus);
     }
 
     return result;
-- 
2.43.0


From fb2332b40b44a3a7cc212bdd29b26c449817b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 13/36] fix: 0 and 1 are not prime numbers

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 9c48b1d..761881d 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -470,8 +470,8 @@ bool solovay_strassen(T n, T (*rand_func)(T n))
 template <typename T>
 bool is_prime(T n)
 {
-    if (n == 2)
-        return true;
+    if (n < 2)
+        return false;
 
     T root = sqrt<T>(n);
     for (T i = 2; i <= root; i++) {
-- 
2.43.0


From 86f2be6876512987e91ede1ebd61600d4c5eb807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 14/36] fix: list the square root of a number once among its
 divisors

---
 src/arith.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arith.h b/src/arith.h
index 761881d..aa604e4 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -625,7 +625,9 @@ std::vector<T> get_all_divisors(T n)
         // While `i` divides `nb`, get `i` and divide `nb/i`.
         if (n % i == 0) {
             divisors.push_back(i);
-            n_div_i.push_back(n / i);
+            if (i != n / i) {
+                n_div_i.push_back(n / i);
+            }
         }
     }
     divisors.insert(divisors.end(), n_div_i.rbegin(), n_div_i.rend());
-- 
2.43.0


From ca1df919dad522a9e726b41d73d2f4a42541d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 15/36] fix: return the smallest code length when it exceeds
 the square root

get_code_len(209, 12) returned 209 instead of 19.
---
 src/arith.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index aa604e4..ee6018b 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -667,6 +667,12 @@ T get_code_len(T order, T n)
             return i;
         }
     }
+    // no divisor in [n, sqrt(order)]: the co-divisor of the greatest one below
+    for (i = n - 1; i > 1; i--) {
+        if (order % i == 0) {
+            return order / i;
+        }
+    }
     // order is prime
     return order;
 }
-- 
2.43.0


From ad7654b7cb5e1c132161da4e89a05a8234013d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 16/36] fix: support a requested length of 1 in
 get_code_len_high_compo

---
 src/arith.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index ee6018b..5d819ca 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -701,6 +701,9 @@ template <typename T>
 T get_code_len_high_compo(const std::vector<T>& factors, T n)
 {
     T x = 1;
+    if (n <= x) {
+        return x;
+    }
     typename std::vector<T>::size_type i, j;
     // forward to get a divisor of (q-1) >= n and of highly composited
     for (i = 0; i != factors.size(); ++i) {
-- 
2.43.0


From c5ca79dbf74b1fa86aff6915c9aff0c8059f0144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:44 +0000
Subject: [PATCH 17/36] fix: avoid overflow in the Chinese remaindering

The terms were accumulated without reduction, so that large moduli
overflowed the signed double-size type.
---
 src/arith.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 5d819ca..07c4a09 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -345,23 +345,20 @@ T chinese_remainder(int n_mod, T a[], T n[])
 
         N[i] = acc / n[i];
         extended_gcd<T>(N[i], n[i], bezout, nullptr);
-        M[i] = bezout[0]; // XXX % n[i];
+        M[i] = bezout[0] % n[i];
+        if (M[i] < 0) {
+            M[i] += n[i];
+        }
     }
 
     x = 0;
     for (int i = 0; i < n_mod; i++) {
-        x += N[i] * M[i] * a[i];
+        x = (x + N[i] * M[i] * (a[i] % n[i])) % acc;
     }
 
     delete[] N;
     delete[] M;
 
-    x = x % acc;
-
-    if (x < 0) {
-        x = acc + x;
-    }
-
     return x;
 }
 
-- 
2.43.0


From c475c9cd9d999988d2913f2e1ba477ce7ac75954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 18/36] fix: do not free the tables of a moved binary field
 twice

---
 src/gf_bin_ext.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/gf_bin_ext.h b/src/gf_bin_ext.h
index faf0f2a..bc028ec 100644
--- a/src/gf_bin_ext.h
+++ b/src/gf_bin_ext.h
@@ -57,12 +57,12 @@ class BinExtension : public gf::Field<T> {
     T log(T a, T b) const override;
     void hadamard_mul(int n, T* x, T* y) const override;
 
-    BinExtension(BinExtension&&) = default;
+    BinExtension(BinExtension&& other) noexcept;
 
   private:
     T n;
     T my_card;
-    T sgroup_nb;
+    T sgroup_nb = 0;
     T primitive_poly;
     T first_bit;
     T tab_nb;
@@ -172,6 +172,22 @@ BinExtension<T>::BinExtension(T n) : gf::Field<T>(2, n)
     }
 }
 
+template <typename T>
+BinExtension<T>::BinExtension(BinExtension&& other) noexcept
+    : gf::Field<T>(std::move(other)), n(other.n), my_card(other.my_card),
+      sgroup_nb(other.sgroup_nb), primitive_poly(other.primitive_poly),
+      first_bit(other.first_bit), tab_nb(other.tab_nb), gflog(other.gflog),
+      gfilog(other.gfilog), gfsplit(other.gfsplit), mask(other.mask),
+      restricted(other.restricted), mul_type(other.mul_type),
+      div_type(other.div_type), inv_type(other.inv_type)
+{
+    // The tables now belong to this field.
+    other.gflog = nullptr;
+    other.gfilog = nullptr;
+    other.gfsplit = nullptr;
+    other.mask = nullptr;
+}
+
 template <typename T>
 BinExtension<T>::~BinExtension()
 {
-- 
2.43.0


From 2a9b453f2401b8403fd13ed469b36c72301d3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 19/36] fix: keep the scratch space of a moved NF4 field

---
 src/gf_nf4.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/gf_nf4.h b/src/gf_nf4.h
index ab6025c..bc704d2 100644
--- a/src/gf_nf4.h
+++ b/src/gf_nf4.h
@@ -56,7 +56,9 @@ class NF4 : public gf::Field<T> {
     NF4(NF4&& other)
     noexcept
         : Field<T>(std::move(other)), unit(other.unit), q(other.q), h(other.h),
-          sub_field(std::move(other.sub_field))
+          sub_field(std::move(other.sub_field)),
+          scratch16(std::move(other.scratch16)),
+          scratch32(std::move(other.scratch32))
     {
     }
 
@@ -127,8 +129,8 @@ NF4<T>::NF4(unsigned n) : gf::Field<T>(T(65537), n)
     q = NF4<T>::replicate(T(65537));
     h = NF4<T>::replicate(T(65536));
 
-    scratch16.reserve(this->n);
-    scratch32.reserve(this->n);
+    scratch16.resize(this->n);
+    scratch32.resize(this->n);
 }
 
 template <typename T>
-- 
2.43.0


From 39cf7079c6d56a061fbcc2a6cd7190c90d187aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 20/36] fix: detect elements of half the given order in
 check_order_naive

---
 src/gf_ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 33baf8f..e51cb1c 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -761,7 +761,7 @@ bool RingModN<T>::check_order_naive(T nb, T order) const
 
     T i = 1;
     T tmp = nb;
-    while (i < order - 1) {
+    while (i < order) {
         // std::cout << i << ":" << tmp << std::endl;
         if (tmp == 1)
             return false;
-- 
2.43.0


From 0ef59cd37373d065c0f345d8a933a9636b148838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:54 +0000
Subject: [PATCH 21/36] fix: 0 and 1 are not primitive roots

---
 src/gf_ring.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index e51cb1c..1f47e1d 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -605,6 +605,10 @@ bool RingModN<T>::is_primitive_root(T nb) const
     bool ok = true;
     typename std::vector<T>::size_type i;
     T h = this->card_minus_one();
+    // 0 is not in the group, 1 generates only the trivial one.
+    if (nb == 0 || (nb == 1 && h != 1)) {
+        return false;
+    }
     // Check nb^divisor == 1.
     for (i = 0; i != this->proper_divisors.size(); ++i) {
         if (this->exp(nb, this->proper_divisors[i]) == 1) {
-- 
2.43.0


From 1a404eec7d04b5fa6428e051cf85e1b74b35347b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 22/36] fix: give copied Buffers their memory length

---
 src/vec_buffers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index d31c69d..c7f9c88 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -189,11 +189,11 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->size = vec.get_size();
     this->n = (n == 0) ? vec_n : n;
-    this->mem_len = n * size;
+    this->mem_len = this->n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-    mem.reserve(n);
+    mem.reserve(this->n);
     for (i = 0; i < this->n; i++) {
         mem.push_back(this->allocator.allocate(size));
     }
-- 
2.43.0


From 0766eb978a7d919e4d5a4bb0b53eb511ff325795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 23/36] fix: size the vector of shuffled Buffers and zero its
 unmapped entries

---
 src/vec_buffers.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index c7f9c88..2305374 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -299,8 +299,8 @@ Buffers<T>::Buffers(
     unsigned n)
 {
     const unsigned map_len = map.get_n();
-    const unsigned vec_n = vec.get_n();
     assert(map_len <= n);
+    assert(map_len <= static_cast<unsigned>(vec.get_n()));
 
     this->n = n;
     this->size = vec.get_size();
@@ -309,8 +309,10 @@ Buffers<T>::Buffers(
     const std::vector<T*> vec_mem = vec.get_mem();
     // output is sliced & shuffled from `vec`
     mem.reserve(this->n);
-    if (vec_n >= n) {
+    if (map_len == n) {
         this->mem_alloc_case = BufMemAlloc::SLICE;
+
+        mem.resize(this->n, nullptr);
     } else { // output is zero-extended & shuffled from `vec`
         this->mem_alloc_case = BufMemAlloc::ZERO_EXTEND;
 
-- 
2.43.0


From 5b2bdf0dfa1c4c1d9ea68272b38ffdf3ae10536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:16 +0000
Subject: [PATCH 24/36] fix: do not free memory that Buffers does not own

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 2305374..ae77db0 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -378,7 +378,7 @@ inline void Buffers<T>::set(int i, T* buf)
 {
     assert(i >= 0 && i < n);
 
-    if ((mem_alloc_case == BufMemAlloc::NONE) && (mem[i] != nullptr))
+    if ((mem_alloc_case == BufMemAlloc::FULL) && (mem[i] != nullptr))
         this->allocator.deallocate(mem[i], size);
 
     mem[i] = buf;
-- 
2.43.0


From b5396f7707384eaeb3b4b394bf9b049c5da78c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 25/36] fix: support the zero polynomial

---
 src/vec_poly.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index b6234e8..8a439cf 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -143,6 +143,9 @@ void Poly<T>::derivative()
     for (int deg = 1; deg <= degree; ++deg) {
         buf[deg - 1] = field->mul(deg % field_characteristic, buf[deg]);
     }
+    if (degree < 0) {
+        return;
+    }
     buf[degree] = 0;
     degree--;
 }
@@ -155,6 +158,9 @@ void Poly<T>::derivative_nf4()
         const T _deg = field->replicate(deg % field_characteristic);
         buf[deg - 1] = field->mul(_deg, buf[deg]);
     }
+    if (degree < 0) {
+        return;
+    }
     buf[degree] = 0;
     degree--;
 }
@@ -162,6 +168,10 @@ void Poly<T>::derivative_nf4()
 template <typename T>
 T Poly<T>::eval(T x)
 {
+    if (degree < 0) {
+        return 0;
+    }
+
     int i = degree;
     T result = buf[i];
 
@@ -219,6 +229,10 @@ void Poly<T>::mul_to_x_plus_coef(T coef)
 {
     assert(field->check(coef));
 
+    if (degree < 0) {
+        return;
+    }
+
     const T val = buf[degree];
     for (int deg = degree; deg > 0; deg--) {
         buf[deg] = field->add(buf[deg - 1], field->mul(buf[deg], coef));
@@ -238,6 +252,7 @@ template <typename T>
 void Poly<T>::zero_fill()
 {
     std::memset(buf, 0, this->n * sizeof(*buf));
+    degree = -1;
 }
 
 template <typename T>
-- 
2.43.0


From cccb18363888ee98d787b1c0b64d47086af150a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 26/36] fix: maintain the degree of a product of polynomials

---
 src/vec_poly.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index 8a439cf..d52c877 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -202,13 +202,22 @@ void Poly<T>::mul(Poly<T>* b, int deg_out)
             const T val_a = buf[deg_a];
             if (val_a > 0) {
                 const int deg_b = deg - deg_a;
-                const T val_b = b->get(deg_b);
+                const T val_b = (deg_b <= b->get_deg()) ? b->get(deg_b) : 0;
                 if (val_b > 0)
                     val = field->add(val, field->mul(val_a, val_b));
             }
         }
         buf[deg] = val;
     }
+
+    // Forget the elements that are out of the result.
+    for (int deg = deg_out + 1; deg <= degree; deg++) {
+        buf[deg] = 0;
+    }
+    degree = deg_out;
+    while (degree >= 0 && buf[degree] == 0) {
+        degree--;
+    }
 }
 
 /** Multiply to polynomial \f$(X + coef)\f$
-- 
2.43.0


From 94312105c7e8b2849a981b41555621a9d590a1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 27/36] fix: pad inputs of any length to a power of 2 in the
 radix-2 FFT

---
 src/fft_2n.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index c2751ba..9b6114f 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -184,7 +184,8 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
     w = gf.get_nth_root(n);
     inv_w = gf.inv(w);
     this->pkt_size = pkt_size;
-    this->data_len = data_len > 0 ? data_len : n;
+    // groups of the shortened FFT have a power-of-2 size
+    this->data_len = data_len > 0 ? arith::ceil2<unsigned>(data_len) : n;
     buf_size = pkt_size * sizeof(T);
 
     W = std::unique_ptr<vec::Vector<T>>(new vec::Vector<T>(gf, n));
@@ -272,8 +273,9 @@ void Radix2<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
     const unsigned len = this->n;
     const unsigned input_len = input.get_n();
     // to support FFT on input vectors of length greater than from `data_len`
-    const unsigned group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    const unsigned padded_len =
+        (input_len > data_len) ? arith::ceil2<unsigned>(input_len) : data_len;
+    const unsigned group_len = len / padded_len;
 
     for (unsigned idx = 0; idx < input_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
@@ -283,7 +285,7 @@ void Radix2<T>::fft(vec::Vector<T>& output, vec::Vector<T>& input)
             output.set(i, a);
         }
     }
-    for (unsigned idx = input_len; idx < data_len; ++idx) {
+    for (unsigned idx = input_len; idx < padded_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
         const unsigned end = rev[idx] + group_len;
         for (unsigned i = rev[idx]; i < end; ++i) {
@@ -368,8 +370,9 @@ void Radix2<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
     assert(data_len > 0);
 
     // to support FFT on input vectors of length greater than from `data_len`
-    const unsigned group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    const unsigned padded_len =
+        (input_len > data_len) ? arith::ceil2<unsigned>(input_len) : data_len;
+    const unsigned group_len = len / padded_len;
 
     const std::vector<T*>& i_mem = input.get_mem();
     const std::vector<T*>& o_mem = output.get_mem();
@@ -380,7 +383,7 @@ void Radix2<T>::fft(vec::Buffers<T>& output, vec::Buffers<T>& input)
             memcpy(o_mem[i], i_mem[idx], buf_size);
         }
     }
-    for (unsigned idx = input_len; idx < data_len; ++idx) {
+    for (unsigned idx = input_len; idx < padded_len; ++idx) {
         // set output  = scramble(input), i.e. bit reversal ordering
         for (unsigned i = rev[idx]; i < rev[idx] + group_len; ++i) {
             memset(o_mem[i], 0, buf_size);
@@ -647,8 +650,9 @@ OpCounter Radix2<T>::fft_op_counter(size_t input_len)
     assert(data_len > 0);
 
     const size_t len = this->n;
-    const size_t group_len =
-        (input_len > data_len) ? len / input_len : len / data_len;
+    const size_t padded_len =
+        (input_len > data_len) ? arith::ceil2<unsigned>(input_len) : data_len;
+    const size_t group_len = len / padded_len;
     const T card_minus_one = this->gf->card_minus_one();
 
     OpCounter counter;
-- 
2.43.0


From ddc9975a93b69074d994cf682b30d811346b7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 28/36] fix: access vectors through their elements in the
 radix-2 inverse FFT

---
 src/fft_2n.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 9b6114f..8b1fefe 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -226,7 +226,9 @@ void Radix2<T>::bit_rev_permute(vec::Vector<T>& vec)
 {
     for (unsigned i = 0; i < static_cast<unsigned>(this->n); ++i) {
         if (rev[i] < i) {
-            vec.swap(i, rev[i]);
+            const T tmp = vec.get(i);
+            vec.set(i, vec.get(rev[i]));
+            vec.set(rev[i], tmp);
         }
     }
 }
@@ -325,7 +327,11 @@ void Radix2<T>::fft_inv(vec::Vector<T>& output, vec::Vector<T>& input)
 {
     const unsigned len = this->n;
 
-    output.copy(&input);
+    // rows that the input does not have are zero
+    const unsigned input_len = input.get_n();
+    for (unsigned i = 0; i < len; ++i) {
+        output.set(i, i < input_len ? input.get(i) : 0);
+    }
 
     for (unsigned m = len / 2; m >= 1; m /= 2) {
         unsigned doubled_m = 2 * m;
-- 
2.43.0


From 50d3a1b490c95e5533fd3e5ace850470d81dcb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 29/36] fix: do not scale by the characteristic-2 length in
 naive inverse FFT of buffers

---
 src/fft_naive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fft_naive.h b/src/fft_naive.h
index cf312f2..cff547c 100644
--- a/src/fft_naive.h
+++ b/src/fft_naive.h
@@ -190,7 +190,8 @@ void Naive<T>::ifft(vec::Buffers<T>& output, vec::Buffers<T>& input)
     fft_inv(output, input);
 
     // We need to divide output to `N` for the inverse formular
-    this->gf->mul_vec_to_vecp(*(this->vec_inv_n), output, output);
+    if (this->inv_n_mod_p > 1)
+        this->gf->mul_vec_to_vecp(*(this->vec_inv_n), output, output);
 }
 
 } // namespace fft
-- 
2.43.0


From 166f10a6acb18186c1d66ff03464f1299ced2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:49 +0000
Subject: [PATCH 30/36] fix: limit the memory of a slice to its elements

---
 src/vec_slice.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec_slice.h b/src/vec_slice.h
index 7aefda8..3c793a0 100644
--- a/src/vec_slice.h
+++ b/src/vec_slice.h
@@ -83,6 +83,7 @@ Slice<T>::Slice(Vector<T>* vec, int n, int offset)
             ? n
             : (this->base_len > this->offset ? this->base_len - this->offset
                                              : 0);
+    this->set_mem(this->mem_offset, this->n);
 }
 
 template <typename T>
-- 
2.43.0


From 5781b81b1b259c5031a83042a1d8e63504eec383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:47 +0000
Subject: [PATCH 31/36] fix: compute the matrix of the naive FFT in packed
 fields

---
 src/fft_naive.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fft_naive.h b/src/fft_naive.h
index cff547c..3e2de58 100644
--- a/src/fft_naive.h
+++ b/src/fft_naive.h
@@ -100,9 +100,12 @@ Naive<T>::~Naive()
 template <typename T>
 void Naive<T>::compute_W(vec::Matrix<T>* _W, T _w)
 {
+    vec::Vector<T> powers(*this->gf, this->n);
+    this->gf->compute_omegas(powers, this->n, _w);
+
     for (int i = 0; i <= this->n - 1; i++) {
         for (int j = 0; j <= this->n - 1; j++) {
-            _W->set(i, j, this->gf->exp(_w, (i * j) % this->n));
+            _W->set(i, j, powers.get((i * j) % this->n));
         }
     }
     // _W->dump();
-- 
2.43.0


From d3c6d9d1693bb6707f5ea883116c9d6878064c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:28 +0000
Subject: [PATCH 32/36] fix: do not bind a reference to a transform that the
 additive-FFT code lacks

---
 src/fec_base.h            | 2 +-
 src/fec_context.h         | 4 ++--
 src/fec_rs_gf2n_fft_add.h | 2 +-
 src/fec_rs_nf4.h          | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fec_base.h b/src/fec_base.h
index 4dcf7f0..9e67ac9 100644
--- a/src/fec_base.h
+++ b/src/fec_base.h
@@ -781,7 +781,7 @@ std::unique_ptr<DecodeContext<T>> FecCode<T>::init_context_dec(
     return std::make_unique<DecodeContext<T>>(
         *gf,
         *fft,
-        *fft_2k,
+        fft_2k.get(),
         fragments_ids,
         input_props,
         vx,
diff --git a/src/fec_context.h b/src/fec_context.h
index 0e15326..5f6b14a 100644
--- a/src/fec_context.h
+++ b/src/fec_context.h
@@ -66,7 +66,7 @@ class DecodeContext {
     DecodeContext(
         const gf::Field<T>& gf,
         fft::FourierTransform<T>& fft,
-        fft::FourierTransform<T>& fft_2k,
+        fft::FourierTransform<T>* fft_2k,
         const vec::Vector<T>& fragments_ids,
         std::vector<Properties>& input_props,
         const vec::Vector<T>& vx,
@@ -82,7 +82,7 @@ class DecodeContext {
         this->size = size;
         this->gf = &gf;
         this->fft = &fft;
-        this->fft_2k = &fft_2k;
+        this->fft_2k = fft_2k;
         this->vx_zero = vx_zero;
 
         this->len_2k = this->gf->get_code_len_high_compo(2 * this->k);
diff --git a/src/fec_rs_gf2n_fft_add.h b/src/fec_rs_gf2n_fft_add.h
index 80f8f6b..ceaa070 100644
--- a/src/fec_rs_gf2n_fft_add.h
+++ b/src/fec_rs_gf2n_fft_add.h
@@ -148,7 +148,7 @@ class RsGf2nFftAdd : public FecCode<T> {
             std::unique_ptr<DecodeContext<T>>(new DecodeContext<T>(
                 *(this->gf),
                 *fft,
-                *(this->fft_2k),
+                this->fft_2k.get(),
                 fragments_ids,
                 input_props,
                 vx,
diff --git a/src/fec_rs_nf4.h b/src/fec_rs_nf4.h
index 6789340..7263187 100644
--- a/src/fec_rs_nf4.h
+++ b/src/fec_rs_nf4.h
@@ -202,7 +202,7 @@ class RsNf4 : public FecCode<T> {
             std::unique_ptr<DecodeContext<T>>(new DecodeContext<T>(
                 *(this->gf),
                 *(this->fft),
-                *(this->fft_2k),
+                this->fft_2k.get(),
                 fragments_ids,
                 input_props,
                 vx,
-- 
2.43.0


From 30791330a8813ddf4a80ebb9db8c0d0363135441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:28 +0000
Subject: [PATCH 33/36] fix: give the matrix codes a decoding context instead
 of dereferencing none

---
 src/fec_context.h | 10 ++++++++++
 src/fec_rs_gf2n.h |  5 ++---
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fec_context.h b/src/fec_context.h
index 5f6b14a..757b9ef 100644
--- a/src/fec_context.h
+++ b/src/fec_context.h
@@ -141,6 +141,16 @@ class DecodeContext {
         init(vx);
     }
 
+    /** Context of codes that decode without transforms */
+    DecodeContext(
+        const gf::Field<T>& gf,
+        const vec::Vector<T>& fragments_ids)
+        : vx_zero(-1), k(fragments_ids.get_n()), n(k), len_2k(0), max_n_2k(0),
+          size(0), gf(&gf), fft(nullptr), fft_2k(nullptr),
+          fragments_ids(&fragments_ids)
+    {
+    }
+
     ~DecodeContext() = default;
 
     unsigned get_len_2k() const
diff --git a/src/fec_rs_gf2n.h b/src/fec_rs_gf2n.h
index 9de949a..4572562 100644
--- a/src/fec_rs_gf2n.h
+++ b/src/fec_rs_gf2n.h
@@ -145,13 +145,12 @@ class RsGf2n : public FecCode<T> {
     }
 
     std::unique_ptr<DecodeContext<T>> init_context_dec(
-        vec::Vector<T>&,
+        vec::Vector<T>& fragments_ids,
         std::vector<Properties>&,
         size_t,
         vec::Buffers<T>*) override
     {
-        std::unique_ptr<DecodeContext<T>> context;
-        return context;
+        return std::make_unique<DecodeContext<T>>(*(this->gf), fragments_ids);
     }
 
   private:
-- 
2.43.0


From b43b493ce561984079f60633a788956f8f73c0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 34/36] fix: print the smallest 128-bit signed integer without
 overflow

---
 src/misc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/misc.cpp b/src/misc.cpp
index 8b3f5b8..2b1db7e 100644
--- a/src/misc.cpp
+++ b/src/misc.cpp
@@ -57,7 +57,10 @@ std::ostream& operator<<(std::ostream& dest, __int128_t value)
 {
     std::ostream::sentry s(dest);
     if (s) {
-        __uint128_t tmp = value < 0 ? -value : value;
+        __uint128_t tmp = value;
+        if (value < 0) {
+            tmp = -tmp;
+        }
         char buffer[128];
         char* d = std::end(buffer);
         do {
-- 
2.43.0


From 3e0ab6d4f69a8447503b97d5f2ec23dc718a6a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 35/36] fix: do not dump elements of empty Buffers

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index ae77db0..acf2d24 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -484,7 +484,7 @@ void Buffers<T>::dump(void)
 {
     for (int i = 0; i < n; i++) {
         std::cout << "\n\t" << i << ": ";
-        for (size_t j = 0; j < size - 1; j++) {
+        for (size_t j = 0; j + 1 < size; j++) {
             std::cout << (get(i))[j] << "-";
         }
         if (size > 0) {
-- 
2.43.0


From 6758d0f3c7af9f8b7452dc654f50957204687704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 36/36] fix: make the assignment operators of Vector and Poly
 usable

---
 src/vec_poly.h   | 12 ++++++++++++
 src/vec_vector.h |  4 +++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index d52c877..cd4415f 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -49,6 +49,7 @@ class Poly : public Vector<T> {
   public:
     Poly(const gf::Field<T>& field, int n);
     Poly(const Poly<T>& a);
+    Poly& operator=(const Poly<T>& a);
     int get_deg() const;
     void set_deg(int exponent);
     const T& get(int exponent) const override;
@@ -89,6 +90,17 @@ Poly<T>::Poly(const Poly<T>& a) : Vector<T>(a.get_gf(), a.get_n())
     this->degree = a.get_deg();
 }
 
+template <typename T>
+Poly<T>& Poly<T>::operator=(const Poly<T>& a)
+{
+    Vector<T>::operator=(a);
+    this->field = a.field;
+    this->field_characteristic = a.field_characteristic;
+    this->buf = this->get_mem();
+    this->degree = a.degree;
+    return *this;
+}
+
 template <typename T>
 int Poly<T>::get_deg() const
 {
diff --git a/src/vec_vector.h b/src/vec_vector.h
index a0ddc0e..dc85364 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -184,6 +184,8 @@ Vector<T>::Vector(Vector&& other) noexcept
 template <typename T>
 Vector<T>& Vector<T>::operator=(const Vector<T>& other)
 {
+    using std::swap;
+
     Vector<T> tmp(other);
     swap(*this, tmp);
     return *this;
@@ -194,7 +196,7 @@ Vector<T>& Vector<T>::operator=(Vector<T>&& other) noexcept
 {
     this->destroy();
     this->rn = other.rn;
-    this->n = other.rn;
+    this->n = other.n;
     this->mem = std::exchange(other.mem, nullptr);
     this->mem_len = other.mem_len;
     this->new_mem = other.new_mem;
-- 
2.43.0

