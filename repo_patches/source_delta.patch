From 83f472655a641d620d881908eb6aab84ff80ead0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:57 +0000
Subject: [PATCH 01/35] fix: radix-4 plans (dit4, dif4, stockham dit4) rotate
 by the wrong sign and do not compute the DFT

---
 src/neo/fft/reference/c2c_dit4_plan.hpp          | 4 ++--
 src/neo/fft/reference/c2c_stockham_dit4_plan.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 3a9f7d1..118ad68 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -58,7 +58,7 @@ private:
     {
         using Float = value_type_t<Complex>;
 
-        auto const z = Complex{Float(0), sign};
+        auto const z = Complex{Float(0), -sign};
 
         auto length   = 4UL;
         auto w_stride = ipow<size_type(4)>(order - 1UL);
@@ -139,7 +139,7 @@ private:
     {
         using Float = value_type_t<Complex>;
 
-        auto const z = Complex{Float(0), sign};
+        auto const z = Complex{Float(0), -sign};
 
         auto length   = ipow<size_type(4)>(order);
         auto w_stride = 1UL;
diff --git a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
index 96af1f8..e66935a 100644
--- a/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dit4_plan.hpp
@@ -41,7 +41,7 @@ struct c2c_stockham_dit4_plan
         auto const y = _work.to_mdspan();
 
         auto const sign = dir == direction::forward ? Float(-1) : Float(+1);
-        auto const i    = Complex{Float(0), sign};
+        auto const i    = Complex{Float(0), -sign};
         // auto const w    = dir == direction::forward
         //                     ? stdex::submdspan(_w.to_mdspan(), 0, stdex::full_extent, stdex::full_extent)
         //                     : stdex::submdspan(_w.to_mdspan(), 1, stdex::full_extent, stdex::full_extent);
-- 
2.43.0


From ce34c7924816388ba38ac08fee1612dfbd434de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:57 +0000
Subject: [PATCH 02/35] fix: stockham dif2 plans swap forward and backward
 direction

---
 src/neo/fft/reference/c2c_stockham_dif2_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
index 041fa2b..8e5b800 100644
--- a/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
+++ b/src/neo/fft/reference/c2c_stockham_dif2_plan.hpp
@@ -107,7 +107,7 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 1>>(n / 2);
         for (std::size_t i = 0; i < w.size(); i++) {
-            w(i) = twiddle<Complex>(n, i, fft::direction::backward);
+            w(i) = twiddle<Complex>(n, i, fft::direction::forward);
         }
         return w;
     }
@@ -194,8 +194,8 @@ private:
     {
         auto w = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n / 2};
         for (std::size_t i = 0; i < w.extent(1); i++) {
-            w(0, i) = twiddle<Complex>(n, i, fft::direction::backward);
-            w(1, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(0, i) = twiddle<Complex>(n, i, fft::direction::forward);
+            w(1, i) = twiddle<Complex>(n, i, fft::direction::backward);
         }
         return w;
     }
-- 
2.43.0


From dd015328e74e8d6fdd5ac7321bb9c2b5c24c3480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:57 +0000
Subject: [PATCH 03/35] fix: c2c_dit2_v4 runs the only stage of a size-2
 transform twice

---
 src/neo/fft/reference/kernel/c2c_dit2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index 1ed0ba7..e973564 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -194,6 +194,10 @@ struct c2c_dit2_v4
             }
         }
 
+        if (order < 2) {
+            return;
+        }
+
         for (auto stage{1ULL}; stage < order - 1; ++stage) {
 
             auto const stage_length = ipow<2ULL>(stage);
-- 
2.43.0


From 237c1672500c7e5e5758a3c2df6cf10d68184a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:25 +0000
Subject: [PATCH 04/35] fix: size-1 (order 0) radix-2 transforms access one
 element past the end

---
 src/neo/fft/fallback/fallback_split_fft_plan.hpp | 2 +-
 src/neo/fft/reference/kernel/c2c_dit2.hpp        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/neo/fft/fallback/fallback_split_fft_plan.hpp b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
index 65c5074..1c83b10 100644
--- a/src/neo/fft/fallback/fallback_split_fft_plan.hpp
+++ b/src/neo/fft/fallback/fallback_split_fft_plan.hpp
@@ -56,7 +56,7 @@ private:
         static constexpr auto const stage_length = 1;  // ipow<2>(0)
         static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-        for (auto k{0}; k < static_cast<int>(size()); k += stride) {
+        for (auto k{0}; k + stage_length < static_cast<int>(size()); k += stride) {
             auto const i1 = k;
             auto const i2 = k + stage_length;
 
diff --git a/src/neo/fft/reference/kernel/c2c_dit2.hpp b/src/neo/fft/reference/kernel/c2c_dit2.hpp
index e973564..0430adc 100644
--- a/src/neo/fft/reference/kernel/c2c_dit2.hpp
+++ b/src/neo/fft/reference/kernel/c2c_dit2.hpp
@@ -30,7 +30,7 @@ struct c2c_dit2_v1
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -81,7 +81,7 @@ struct c2c_dit2_v2
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -135,7 +135,7 @@ struct c2c_dit2_v3
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
@@ -184,7 +184,7 @@ struct c2c_dit2_v4
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
-- 
2.43.0


From ea5bffc05fe6f4798e7d332216c4f97b973a34fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 05/35] fix: overlap_save history is corrupted when the
 transform size is not a multiple of the block size

---
 src/neo/convolution/overlap_save.hpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/neo/convolution/overlap_save.hpp b/src/neo/convolution/overlap_save.hpp
index fb2ff9e..6c4bd4a 100644
--- a/src/neo/convolution/overlap_save.hpp
+++ b/src/neo/convolution/overlap_save.hpp
@@ -36,15 +36,9 @@ struct overlap_save
 private:
     auto slide_window_left(auto window) -> void
     {
-        auto const step      = static_cast<int>(block_size());
-        auto const num_steps = static_cast<int>(window.extent(0)) / step;
-        for (auto i{0}; i < num_steps - 1; ++i) {
-            auto const dest_idx = i * step;
-            auto const src_idx  = dest_idx + step;
-
-            auto const src_block  = stdex::submdspan(window, std::tuple{src_idx, src_idx + step});
-            auto const dest_block = stdex::submdspan(window, std::tuple{dest_idx, src_idx});
-            copy(src_block, dest_block);
+        auto const step = block_size();
+        for (auto i{step}; i < transform_size(); ++i) {
+            window[i - step] = window[i];
         }
     }
 
-- 
2.43.0


From eb36628ae7c829071fdc4e5319518bb3cc0683cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 06/35] fix: overlap_add drops the tail of filters longer than
 one block and overruns short windows

---
 src/neo/convolution/overlap_add.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/neo/convolution/overlap_add.hpp b/src/neo/convolution/overlap_add.hpp
index 0472aeb..9d4bb32 100644
--- a/src/neo/convolution/overlap_add.hpp
+++ b/src/neo/convolution/overlap_add.hpp
@@ -4,7 +4,6 @@
 
 #include <neo/config.hpp>
 
-#include <neo/algorithm/add.hpp>
 #include <neo/algorithm/copy.hpp>
 #include <neo/algorithm/fill.hpp>
 #include <neo/algorithm/scale.hpp>
@@ -14,6 +13,7 @@
 #include <neo/fft/rfft.hpp>
 #include <neo/math/idiv.hpp>
 
+#include <algorithm>
 #include <cassert>
 #include <functional>
 
@@ -47,7 +47,7 @@ private:
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _window{_rfft.size()};
     stdex::mdarray<complex_type, stdex::dextents<size_t, 1>> _spectrum{_rfft.size() / 2 + 1};
-    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_block_size};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size() - _block_size};
 };
 
 template<complex Complex>
@@ -81,7 +81,7 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
 
     auto const window   = _window.to_mdspan();
     auto const signal   = stdex::submdspan(window, std::tuple{0, block_size()});
-    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), block_size() * 2U});
+    auto const padding  = stdex::submdspan(window, std::tuple{block_size(), transform_size()});
     auto const spectrum = _spectrum.to_mdspan();
     auto const overlap  = _overlap.to_mdspan();
 
@@ -100,10 +100,16 @@ auto overlap_add<Complex>::operator()(inout_vector auto block, auto callback) ->
     scale(1.0F / static_cast<real_type>(_rfft.size()), window);
 
     // Copy to output
-    add(signal, overlap, block);
+    copy(signal, block);
+    for (size_type i{0}; i < std::min(block_size(), overlap.extent(0)); ++i) {
+        block[i] += overlap[i];
+    }
 
     // Save overlap for next iteration
-    copy(padding, overlap);
+    for (size_type i{0}; i < overlap.extent(0); ++i) {
+        auto const next = i + block_size();
+        overlap[i]      = padding[i] + (next < overlap.extent(0) ? overlap[next] : real_type(0));
+    }
 }
 
 }  // namespace neo::convolution
-- 
2.43.0


From 9122f84b748399adec2f3d5084b23a3606343133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 07/35] fix: overlap_add_convolver keeps stale positions when a
 new filter is loaded

---
 src/neo/convolution/overlap_add_convolver.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index a15fced..431c4ed 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -54,8 +54,10 @@ private:
 template<complex Complex, typename Fdl, typename Filter>
 auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> auto f) -> void
 {
-    _block_size   = f.extent(1) - 1;
-    _num_segments = f.extent(0);
+    _block_size      = f.extent(1) - 1;
+    _num_segments    = f.extent(0);
+    _input_pos       = 0;
+    _current_segment = 0;
 
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
-- 
2.43.0


From fd65c829292ba9eefabcc4c407fc73c79c61849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:17 +0000
Subject: [PATCH 08/35] fix: overlap_add_convolver loses the start of a block
 that is completed by a later chunk

---
 src/neo/convolution/overlap_add_convolver.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/neo/convolution/overlap_add_convolver.hpp b/src/neo/convolution/overlap_add_convolver.hpp
index 431c4ed..0e308cd 100644
--- a/src/neo/convolution/overlap_add_convolver.hpp
+++ b/src/neo/convolution/overlap_add_convolver.hpp
@@ -41,6 +41,7 @@ private:
     fft::rfft_plan<real_type> _rfft{fft::from_order, fft::next_order(size_type(4))};
 
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _real_window{_rfft.size()};
+    stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _output{_rfft.size()};
     stdex::mdarray<real_type, stdex::dextents<size_t, 1>> _overlap{_rfft.size()};
     stdex::mdarray<Complex, stdex::dextents<size_t, 1>> _complex_window{_rfft.size() / 2 + 1};
 
@@ -62,6 +63,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::filter(in_matrix_of<Complex> a
     _rfft           = fft::rfft_plan<real_type>{fft::from_order, fft::next_order(_block_size * 2U)};
     _complex_window = stdex::mdarray<Complex, stdex::dextents<size_t, 1>>{_rfft.size() / 2 + 1};
     _real_window    = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
+    _output         = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
     _overlap        = stdex::mdarray<real_type, stdex::dextents<size_t, 1>>{_rfft.size()};
 
     _fdl             = Fdl{f.extents()};
@@ -79,6 +81,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
     auto num_processed     = size_type(0);
 
     auto real_window     = _real_window.to_mdspan();
+    auto output          = _output.to_mdspan();
     auto complex_window  = _complex_window.to_mdspan();
     auto overlap         = _overlap.to_mdspan();
     auto accumulator     = _accumulator.to_mdspan();
@@ -113,11 +116,12 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
         _filter(_fdl[_current_segment], 0, accumulator);
         copy(accumulator, complex_window);
 
-        irfft(_rfft, complex_window, real_window);
-        scale(real_type(1) / static_cast<real_type>(_rfft.size()), real_window);
+        irfft(_rfft, complex_window, output);
+        scale(real_type(1) / static_cast<real_type>(_rfft.size()), output);
 
+        auto sub_output  = stdex::submdspan(output, std::tuple{_input_pos, _input_pos + num_to_process});
         auto sub_overlap = stdex::submdspan(overlap, std::tuple{_input_pos, _input_pos + num_to_process});
-        add(sub_window, sub_overlap, sub_inout);
+        add(sub_output, sub_overlap, sub_inout);
 
         _input_pos += num_to_process;
 
@@ -125,7 +129,7 @@ auto overlap_add_convolver<Complex, Fdl, Filter>::operator()(inout_vector_of<rea
             _input_pos = 0;
 
             copy(
-                stdex::submdspan(real_window, std::tuple{_block_size, _block_size * 2}),
+                stdex::submdspan(output, std::tuple{_block_size, _block_size * 2}),
                 stdex::submdspan(overlap, std::tuple{0, _block_size})
             );
             fill(real_window, real_type{});
-- 
2.43.0


From feb579022021f452fa8a6cef31d61cfc748113ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 09/35] fix: csr_matrix::insert stores a second entry for a
 position that is already occupied

---
 src/neo/container/csr_matrix.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neo/container/csr_matrix.hpp b/src/neo/container/csr_matrix.hpp
index c267467..09ebd76 100644
--- a/src/neo/container/csr_matrix.hpp
+++ b/src/neo/container/csr_matrix.hpp
@@ -147,6 +147,11 @@ auto csr_matrix<T, IndexType, ValueContainer, IndexContainer>::insert(index_type
         idx++;
     }
 
+    if (idx < _row_indices[row + 1] && _colum_indices[idx] == col) {
+        _values[idx] = value;
+        return;
+    }
+
     auto const pidx = static_cast<std::ptrdiff_t>(idx);
     _values.insert(std::next(_values.begin(), pidx), value);
     _colum_indices.insert(std::next(_colum_indices.begin(), pidx), col);
-- 
2.43.0


From dbaeb8ecf7e61acd285bc9b26e0195849685ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 10/35] fix: copy from split_complex to interleaved complex
 does not compile

---
 src/neo/algorithm/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/algorithm/copy.hpp b/src/neo/algorithm/copy.hpp
index b431dc1..c1b9086 100644
--- a/src/neo/algorithm/copy.hpp
+++ b/src/neo/algorithm/copy.hpp
@@ -54,7 +54,7 @@ constexpr auto copy(split_complex<InVec> in, OutVec out) noexcept -> void
 
     using Complex = value_type_t<OutVec>;
 
-    for (auto i = std::size_t(0); i < static_cast<std::size_t>(in.extent(0)); ++i) {
+    for (auto i = std::size_t(0); i < static_cast<std::size_t>(out.extent(0)); ++i) {
         out[i] = Complex{in.real[i], in.imag[i]};
     }
 }
-- 
2.43.0


From 5630686ab1fdea67879fe82a5a26603334438783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 11/35] fix: vectorized fixed_point multiply shifts negative
 products logically

---
 src/neo/fixed_point/simd.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index c04a7b4..ed5299c 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -44,12 +44,12 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
     auto const lowLeft    = _mm_cvtepi8_epi16(lhs);
     auto const lowRight   = _mm_cvtepi8_epi16(rhs);
     auto const lowProduct = _mm_mullo_epi16(lowLeft, lowRight);
-    auto const lowShifted = _mm_srli_epi16(lowProduct, FractionalBits);
+    auto const lowShifted = _mm_srai_epi16(lowProduct, FractionalBits);
 
     auto const highLeft    = _mm_cvtepi8_epi16(_mm_srli_si128(lhs, 8));
     auto const highRight   = _mm_cvtepi8_epi16(_mm_srli_si128(rhs, 8));
     auto const highProduct = _mm_mullo_epi16(highLeft, highRight);
-    auto const highShifted = _mm_srli_epi16(highProduct, FractionalBits);
+    auto const highShifted = _mm_srai_epi16(highProduct, FractionalBits);
 
     return _mm_packs_epi16(lowShifted, highShifted);
 };
@@ -62,12 +62,12 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
         auto const low_product = _mm_mullo_epi32(low_left, low_right);
-        auto const low_shifted = _mm_srli_epi32(low_product, FractionalBits);
+        auto const low_shifted = _mm_srai_epi32(low_product, FractionalBits);
 
         auto const high_left    = _mm_cvtepi16_epi32(_mm_srli_si128(lhs, 8));
         auto const high_right   = _mm_cvtepi16_epi32(_mm_srli_si128(rhs, 8));
         auto const high_product = _mm_mullo_epi32(high_left, high_right);
-        auto const high_shifted = _mm_srli_epi32(high_product, FractionalBits);
+        auto const high_shifted = _mm_srai_epi32(high_product, FractionalBits);
 
         return _mm_packs_epi32(low_shifted, high_shifted);
     }
-- 
2.43.0


From 304b5ab6b1b6a9390321d7863705d556ec577e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 12/35] fix: vectorized q15 multiply wraps -1 * -1 to -1
 instead of saturating

---
 src/neo/fixed_point/simd.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/neo/fixed_point/simd.hpp b/src/neo/fixed_point/simd.hpp
index ed5299c..ce9ced8 100644
--- a/src/neo/fixed_point/simd.hpp
+++ b/src/neo/fixed_point/simd.hpp
@@ -19,6 +19,8 @@
 #endif
 
 #include <cassert>
+#include <cstdint>
+#include <limits>
 
 namespace neo {
 
@@ -57,7 +59,9 @@ inline constexpr auto const mul_kernel_s8 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product that overflows, saturate 0x8000 to 0x7fff
+        auto const product = _mm_mulhrs_epi16(lhs, rhs);
+        return _mm_xor_si128(product, _mm_cmpeq_epi16(product, _mm_set1_epi16(std::numeric_limits<std::int16_t>::min())));
     } else {
         auto const low_left    = _mm_cvtepi16_epi32(lhs);
         auto const low_right   = _mm_cvtepi16_epi32(rhs);
@@ -79,7 +83,9 @@ inline constexpr auto const mul_kernel_s16 = [](__m128i lhs, __m128i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm256_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product that overflows, saturate 0x8000 to 0x7fff
+        auto const product = _mm256_mulhrs_epi16(lhs, rhs);
+        return _mm256_xor_si256(product, _mm256_cmpeq_epi16(product, _mm256_set1_epi16(std::numeric_limits<std::int16_t>::min())));
     } else {
         assert(false);
     }
@@ -92,7 +98,11 @@ inline constexpr auto const mul_kernel_avx2_s16 = [](__m256i lhs, __m256i rhs) {
 template<int FractionalBits>
 inline constexpr auto const mul_kernel_avx512_s16 = [](__m512i lhs, __m512i rhs) {
     if constexpr (FractionalBits == 15) {
-        return _mm512_mulhrs_epi16(lhs, rhs);
+        // -1 * -1 is the only product that overflows, saturate 0x8000 to 0x7fff
+        auto const min_v   = _mm512_set1_epi16(std::numeric_limits<std::int16_t>::min());
+        auto const max_v   = _mm512_set1_epi16(std::numeric_limits<std::int16_t>::max());
+        auto const product = _mm512_mulhrs_epi16(lhs, rhs);
+        return _mm512_mask_mov_epi16(product, _mm512_cmpeq_epi16_mask(product, min_v), max_v);
     } else {
         assert(false);
     }
-- 
2.43.0


From 00396f77f9e9e4bffebf5b2c3caf63c9ee4c1d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:33 +0000
Subject: [PATCH 13/35] fix: fixed_point construction from large floating point
 values overflows instead of saturating

---
 src/neo/fixed_point/fixed_point.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fixed_point/fixed_point.hpp b/src/neo/fixed_point/fixed_point.hpp
index 8103073..ab73f29 100644
--- a/src/neo/fixed_point/fixed_point.hpp
+++ b/src/neo/fixed_point/fixed_point.hpp
@@ -44,7 +44,11 @@ struct fixed_point
 
     template<std::floating_point Float>
     explicit constexpr fixed_point(Float val) noexcept
-        : _value{detail::saturate<storage_type>(static_cast<std::int32_t>(static_cast<float>(val) * scale))}
+        : _value{static_cast<storage_type>(std::clamp(
+            static_cast<float>(val) * scale,
+            static_cast<float>(std::numeric_limits<storage_type>::min()),
+            static_cast<float>(std::numeric_limits<storage_type>::max())
+        ))}
     {}
 
     constexpr fixed_point([[maybe_unused]] underlying_value_t tag, storage_type val) noexcept : _value{val} {}
-- 
2.43.0


From f0e1e6f672992b6e949e048f0d3933d7f03615a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:04 +0000
Subject: [PATCH 14/35] fix: experimental real FFT of size 2 accesses memory
 past the end

---
 src/neo/fft/experimental/rfft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index bb556bb..436e8d8 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -33,7 +33,7 @@ struct c2c_kernel
             static constexpr auto const stage_length = 1;  // ipow<2>(0)
             static constexpr auto const stride       = 2;  // ipow<2>(0 + 1)
 
-            for (auto k{0}; k < static_cast<int>(size); k += stride) {
+            for (auto k{0}; k + stage_length < static_cast<int>(size); k += stride) {
                 auto const i1 = k;
                 auto const i2 = k + stage_length;
 
-- 
2.43.0


From 793674b9184b4643b507a7fa1d251eecd8e8e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:16 +0000
Subject: [PATCH 15/35] fix: experimental real FFT combines the half spectra
 with the wrong rotation

---
 src/neo/fft/experimental/rfft.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neo/fft/experimental/rfft.hpp b/src/neo/fft/experimental/rfft.hpp
index 436e8d8..f7b6a89 100644
--- a/src/neo/fft/experimental/rfft.hpp
+++ b/src/neo/fft/experimental/rfft.hpp
@@ -156,7 +156,7 @@ struct rfft_plan
         auto const c2    = dir == direction::forward ? Float(-0.5) : Float(0.5);
         auto const theta = [=] {
             auto const t = static_cast<Float>(std::numbers::pi) / static_cast<Float>(n >> 1);
-            return dir == direction::forward ? t : -t;
+            return dir == direction::forward ? -t : t;
         }();
 
         if (dir == direction::forward) {
@@ -190,6 +190,10 @@ struct rfft_plan
             wi             = wi * wpr + tmp * wpi + wi;
         }
 
+        if (n >= 4) {
+            x[n / 2 + 1] = -x[n / 2 + 1];
+        }
+
         auto const h1r = x[0];
         if (dir == direction::forward) {
             x[0] = h1r + x[1];
-- 
2.43.0


From 36ce4d214fe045011b4a0d3d74047800a40ec6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:32 +0000
Subject: [PATCH 16/35] fix: IPP split FFT plan left strided views
 untransformed

For views that are not contiguous the branch evaluated a constant and did
nothing, so the output was never written. Go through the (so far unused)
buffer of the plan.
---
 src/neo/fft/backend/ipp.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/backend/ipp.hpp b/src/neo/fft/backend/ipp.hpp
index 1d77245..c79cd7f 100644
--- a/src/neo/fft/backend/ipp.hpp
+++ b/src/neo/fft/backend/ipp.hpp
@@ -334,7 +334,12 @@ struct intel_ipp_split_fft_plan
         if constexpr (always_vectorizable<InOutVec>) {
             transform(x.real.data_handle(), x.imag.data_handle(), _handle, _work_buf.get());
         } else {
-            always_false<InOutVec>;
+            auto const buf = buffer();
+            copy(x.real, buf.real);
+            copy(x.imag, buf.imag);
+            transform(buf.real.data_handle(), buf.imag.data_handle(), _handle, _work_buf.get());
+            copy(buf.real, x.real);
+            copy(buf.imag, x.imag);
         }
     }
 
@@ -356,11 +361,25 @@ struct intel_ipp_split_fft_plan
                 _work_buf.get()
             );
         } else {
-            always_false<InVec>;
+            auto const buf = buffer();
+            copy(in.real, buf.real);
+            copy(in.imag, buf.imag);
+            (*this)(buf, dir);
+            copy(buf.real, out.real);
+            copy(buf.imag, out.imag);
         }
     }
 
 private:
+    [[nodiscard]] auto buffer() noexcept
+    {
+        auto const extents = stdex::dextents<size_t, 1>{size()};
+        return split_complex{
+            stdex::mdspan{_buffer.data(), extents},
+            stdex::mdspan{_buffer.data() + size(), extents},
+        };
+    }
+
     struct setup_f32
     {
         using handle_type                      = ::IppsFFTSpec_C_32f;
-- 
2.43.0


From d90dc14df9c011114c626fa073da94146c516c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:32 +0000
Subject: [PATCH 17/35] fix: vDSP split FFT plan left strided views
 untransformed

For views that are not contiguous the branch evaluated a constant and did
nothing, so the output was never written. Go through the (so far unused)
buffers of the plan.
---
 src/neo/fft/backend/vdsp.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/neo/fft/backend/vdsp.hpp b/src/neo/fft/backend/vdsp.hpp
index 217c4e1..759fd95 100644
--- a/src/neo/fft/backend/vdsp.hpp
+++ b/src/neo/fft/backend/vdsp.hpp
@@ -261,7 +261,15 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(split_complex<InOutVec> x, dir
             vDSP_fft_zipD(_plan, &split_x, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
-        always_false<InOutVec>;
+        auto const extents   = stdex::dextents<size_t, 1>{_size};
+        auto const real_view = stdex::mdspan{&_input(0, 0), extents};
+        auto const imag_view = stdex::mdspan{&_input(1, 0), extents};
+
+        copy(x.real, real_view);
+        copy(x.imag, imag_view);
+        (*this)(neo::split_complex{real_view, imag_view}, dir);
+        copy(real_view, x.real);
+        copy(imag_view, x.imag);
     }
 }
 
@@ -291,7 +299,15 @@ auto apple_vdsp_split_fft_plan<Float>::operator()(
             vDSP_fft_zopD(_plan, &split_in, 1, &split_out, 1, static_cast<vDSP_Length>(_order), sign);
         }
     } else {
-        always_false<InVec>;
+        auto const extents   = stdex::dextents<size_t, 1>{_size};
+        auto const real_view = stdex::mdspan{&_output(0, 0), extents};
+        auto const imag_view = stdex::mdspan{&_output(1, 0), extents};
+
+        copy(in.real, real_view);
+        copy(in.imag, imag_view);
+        (*this)(neo::split_complex{real_view, imag_view}, dir);
+        copy(real_view, out.real);
+        copy(imag_view, out.imag);
     }
 }
 
-- 
2.43.0


From 916f39d0be85df8c52cf45a903ab1e05613a1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:46 +0000
Subject: [PATCH 18/35] fix: clear the block adapter's buffers when it is
 prepared

juce::AudioBuffer::setSize() leaves new memory uninitialised and does nothing
if the size is unchanged: the first frameSize - 1 output samples after
prepare() were whatever the memory held, or audio from the previous run.
---
 extra/plugin/src/dsp/ConstantOverlapAdd.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
index a771fe6..b13b6f5 100644
--- a/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
+++ b/extra/plugin/src/dsp/ConstantOverlapAdd.hpp
@@ -65,6 +65,12 @@ void ConstantOverlapAdd<Float>::prepare(juce::dsp::ProcessSpec const& spec)
     int const m  = k * _hopSize + (_frameSize - _hopSize);
 
     _output.setSize((int)spec.numChannels, m + bufferSize - 1);
+
+    // setSize() does not initialise new memory and keeps old data if the size does not change
+    _unusedInput.clear();
+    _frame.clear();
+    _output.clear();
+
     _outputOffset     = _frameSize - 1;
     _unusedInputCount = 0;
 
-- 
2.43.0


From daf469a146f8a1d6104f1fdddfc2d6965de7358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 19/35] fix: reset of the plugin's convolution forgets the past

resetFrame() was empty: after reset() the tail of the audio played before was
still heard.
---
 extra/plugin/src/dsp/DenseConvolution.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/extra/plugin/src/dsp/DenseConvolution.cpp b/extra/plugin/src/dsp/DenseConvolution.cpp
index fc9f3ca..d26137f 100644
--- a/extra/plugin/src/dsp/DenseConvolution.cpp
+++ b/extra/plugin/src/dsp/DenseConvolution.cpp
@@ -73,7 +73,14 @@ auto DenseConvolution::processFrame(juce::dsp::ProcessContextReplacing<float> co
     }
 }
 
-auto DenseConvolution::resetFrame() -> void {}
+auto DenseConvolution::resetFrame() -> void
+{
+    // loading a filter forgets everything a convolver was fed before
+    for (auto ch{0U}; ch < _convolvers.size(); ++ch) {
+        auto channel = stdex::submdspan(_filter.to_mdspan(), ch, stdex::full_extent, stdex::full_extent);
+        _convolvers[ch].filter(channel);
+    }
+}
 
 auto DenseConvolution::updateImpulseResponse() -> void
 {
-- 
2.43.0


From 9c3c27ddc6b47af66948fbe55d2a9a58afe93857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:18 +0000
Subject: [PATCH 20/35] fix: python convolve() checks the dimension of both
 arguments

The check looked at in1 twice: a 2-D second argument was convolved as if its
first column were the patch.
---
 extra/python/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 77cebc0..224aa9e 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -170,7 +170,7 @@ template<neo::convolution::method Method, std::floating_point Float>
 [[nodiscard]] auto
 convolve(py::array_t<Float> in1, py::array_t<Float> in2, neo::convolution::mode mode) -> py::array_t<Float>
 {
-    if (in1.ndim() != 1 or in1.ndim() != 1) {
+    if (in1.ndim() != 1 or in2.ndim() != 1) {
         throw std::runtime_error{"unsupported dimension: in1 and in2 must be 1-D"};
     }
 
-- 
2.43.0


From c3043931ee19646fa186864cc7081653ca0c3fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 21/35] fix: python fft(x, n) crops or pads the input to n
 samples

With n different from len(x) the transform read and wrote out of bounds
(or ran into an assertion).
---
 extra/python/src/main.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/extra/python/src/main.cpp b/extra/python/src/main.cpp
index 224aa9e..1dc63b2 100644
--- a/extra/python/src/main.cpp
+++ b/extra/python/src/main.cpp
@@ -13,11 +13,13 @@
 #include <pybind11/pybind11.h>
 #include <pybind11/stl.h>
 
+#include <algorithm>
 #include <bit>
 #include <complex>
 #include <cstdio>
 #include <iostream>
 #include <optional>
+#include <tuple>
 #include <typeindex>
 
 namespace py = pybind11;
@@ -144,14 +146,19 @@ auto fft(py::array_t<Complex> array, std::optional<std::size_t> n, neo::fft::nor
         {
             auto no_gil = py::gil_scoped_release{};
 
+            // the input is cropped or padded with zeros to the size of the transform
+            auto const used = std::tuple{std::size_t(0), std::min(size, std::size_t(input.extent(0)))};
+            neo::fill(out, Complex{});
+            neo::copy(stdex::submdspan(input, used), stdex::submdspan(out, used));
+
             auto plan = neo::fft::fft_plan<Complex>{neo::fft::from_order, order};
             if constexpr (Dir == neo::fft::direction::forward) {
-                neo::fft::fft(plan, input, out);
+                neo::fft::fft(plan, out);
                 if (norm == neo::fft::norm::forward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
             } else {
-                neo::fft::ifft(plan, input, out);
+                neo::fft::ifft(plan, out);
                 if (norm == neo::fft::norm::backward) {
                     neo::scale(Float(1) / Float(size), out);
                 }
-- 
2.43.0


From ec2ac55d08ac52052c0ab80d8ffe2e2bbbf0cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:20 +0000
Subject: [PATCH 22/35] fix: command-line convolver fails if a file cannot be
 read or is empty

---
 extra/cli/src/convolver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index 95579e9..da3dea4 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -72,6 +72,10 @@ auto main(int argc, char** argv) -> int
     auto const output_length_seconds = static_cast<double>(output_length) / signal_sr;
     auto const block_size            = 8192 * 4;
 
+    if (signal.size() == 0 or filter.size() == 0) {
+        fmt::println("Nothing to convolve: signal or filter could not be read or is empty");
+        return EXIT_FAILURE;
+    }
     if (signal.extent(0) != filter.extent(0)) {
         fmt::println("Channel mismatch: signal = {} filter = {}", int(signal.extent(0)), int(filter.extent(0)));
         return EXIT_FAILURE;
-- 
2.43.0


From 9af9621b5edd96389aafbaa15280d9198ab5bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:21 +0000
Subject: [PATCH 23/35] fix: command-line convolver fails if the output cannot
 be written

---
 extra/cli/src/convolver.cpp | 12 +++++++++---
 extra/cli/src/wav.hpp       | 13 +++++++++----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/extra/cli/src/convolver.cpp b/extra/cli/src/convolver.cpp
index da3dea4..b7d30c4 100644
--- a/extra/cli/src/convolver.cpp
+++ b/extra/cli/src/convolver.cpp
@@ -108,7 +108,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "UPOLA32: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
@@ -123,7 +125,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "SPLIT_UPOLA32: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
@@ -139,7 +143,9 @@ auto main(int argc, char** argv) -> int
         auto const runtime = std::chrono::duration_cast<std::chrono::duration<double>>(stop - start);
 
         neo::normalize_peak(output.to_mdspan());
-        neo::write_wav_file(output, signal_sr, args[3]);
+        if (not neo::write_wav_file(output, signal_sr, args[3])) {
+            return EXIT_FAILURE;
+        }
         fmt::println(
             "SPLIT_UPOLA16: {:.2f} sec / {:.1f} x real-time",
             runtime.count(),
diff --git a/extra/cli/src/wav.hpp b/extra/cli/src/wav.hpp
index 1a85a89..eba4135 100644
--- a/extra/cli/src/wav.hpp
+++ b/extra/cli/src/wav.hpp
@@ -85,8 +85,8 @@ template<std::floating_point Float>
     }
 }
 
-inline auto
-write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesystem::path const& path) -> void
+[[nodiscard]] inline auto
+write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesystem::path const& path) -> bool
 {
     auto format          = drwav_data_format{};
     format.container     = drwav_container_riff;
@@ -97,8 +97,13 @@ write_wav_file(audio_buffer<float> const& buffer, double sampleRate, std::filesy
 
     auto path_str = path.string();
     auto wav_file = drwav{};
-    drwav_init_file_write(&wav_file, path_str.c_str(), &format, nullptr);
-    drwav_write_pcm_frames(&wav_file, buffer.extent(1), buffer.data());
+    if (not drwav_init_file_write(&wav_file, path_str.c_str(), &format, nullptr)) {
+        fmt::println("Could not write wav-file at: {}", path_str.c_str());
+        return false;
+    }
+
+    auto const written = drwav_write_pcm_frames(&wav_file, buffer.extent(1), buffer.data());
     drwav_uninit(&wav_file);
+    return written == buffer.extent(1);
 }
 }  // namespace neo
-- 
2.43.0


From 84fe07b069cf31380b43cc1dc21675f9fc2b1e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:09 +0000
Subject: [PATCH 24/35] fix: plugin does not resample a file that could not be
 read

---
 extra/plugin/src/dsp/AudioFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/plugin/src/dsp/AudioFile.cpp b/extra/plugin/src/dsp/AudioFile.cpp
index 44163c6..d8f7e25 100644
--- a/extra/plugin/src/dsp/AudioFile.cpp
+++ b/extra/plugin/src/dsp/AudioFile.cpp
@@ -23,6 +23,9 @@ auto loadAndResample(juce::AudioFormatManager& formats, juce::File const& file,
     -> BufferWithSampleRate<float>
 {
     auto result = load(formats, file);
+    if (result.sampleRate <= 0.0) {
+        return result;
+    }
     if (not juce::exactlyEqual(result.sampleRate, sampleRate)) {
         return resample(result, sampleRate);
     }
-- 
2.43.0


From cf78a9f1c825ed21cf0b6945ac4db7bf7d76ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:13 +0000
Subject: [PATCH 25/35] fix: plugin spectrogram weights each bin by its own
 frequency

---
 extra/plugin/src/dsp/Spectrum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extra/plugin/src/dsp/Spectrum.cpp b/extra/plugin/src/dsp/Spectrum.cpp
index 01bf96a..da2d80a 100644
--- a/extra/plugin/src/dsp/Spectrum.cpp
+++ b/extra/plugin/src/dsp/Spectrum.cpp
@@ -27,8 +27,8 @@ auto powerSpectrumImage(
         return 1.0F / max;
     }();
 
-    auto const fillPixel = [=](auto& img, int x, int y, auto bin) {
-        auto const weight     = weighting(static_cast<std::size_t>(y));
+    auto const fillPixel = [=](auto& img, int x, int y, int binIdx, auto bin) {
+        auto const weight     = weighting(static_cast<std::size_t>(binIdx));
         auto const power      = bin * bin;
         auto const normalized = power * scale;
         auto const dB         = neo::amplitude_to_db(normalized, -144.0F) * 0.5F + weight;
@@ -44,7 +44,7 @@ auto powerSpectrumImage(
     for (auto frameIdx{0}; frameIdx < numFrames; ++frameIdx) {
         for (auto binIdx{0}; binIdx < numBins; ++binIdx) {
             auto const bin = frames(frameIdx, binIdx);
-            fillPixel(img, frameIdx, numBins - binIdx - 1, std::abs(bin));
+            fillPixel(img, frameIdx, numBins - binIdx - 1, binIdx, std::abs(bin));
         }
     }
 
-- 
2.43.0


From 7ebb2cfd4fa416dc84be4040122d912c43f25ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:57 +0000
Subject: [PATCH 26/35] fix: plugin replaces an existing recording instead of
 appending to it

---
 extra/plugin/src/dsp/AudioFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extra/plugin/src/dsp/AudioFile.cpp b/extra/plugin/src/dsp/AudioFile.cpp
index d8f7e25..4cfbb02 100644
--- a/extra/plugin/src/dsp/AudioFile.cpp
+++ b/extra/plugin/src/dsp/AudioFile.cpp
@@ -46,6 +46,10 @@ auto writeToWavFile(
 
     auto wav    = juce::WavAudioFormat{};
     auto out    = file.createOutputStream();
+    if (out != nullptr) {
+        out->setPosition(0);  // the stream of an existing file starts at its end
+        out->truncate();
+    }
     auto writer = std::unique_ptr<juce::AudioFormatWriter>{wav.createWriterFor(out.get(), sr, ch, bits, {}, 0)};
 
     auto channels = std::vector<float const*>(ch);
-- 
2.43.0


From 678b8e296db3f09481301d64a1fa98300bb177b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:25 +0000
Subject: [PATCH 27/35] fix: an empty signal has no short-time frames

The number of frames was computed as ceil((n - hop) / hop) + 1 in unsigned
arithmetic. An empty signal wrapped around to an enormous number of frames.
ceil(n / hop) is the same for every other length.
---
 src/neo/fft/stft.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/fft/stft.hpp b/src/neo/fft/stft.hpp
index c017577..5a5168f 100644
--- a/src/neo/fft/stft.hpp
+++ b/src/neo/fft/stft.hpp
@@ -21,7 +21,7 @@ namespace detail {
 [[nodiscard]] constexpr auto
 num_sftf_frames(std::size_t signal_size, std::size_t frame_size, std::size_t overlap_size) noexcept
 {
-    return idiv(signal_size - frame_size + overlap_size, frame_size - overlap_size) + 1;
+    return idiv(signal_size, frame_size - overlap_size);
 }
 
 }  // namespace detail
-- 
2.43.0


From b75275e0174662a3575106e97ffebb4243feece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:25 +0000
Subject: [PATCH 28/35] fix: idiv does not overflow for large dividends

x + y - 1 wraps around (or is undefined) close to the maximum of the type.
---
 src/neo/math/idiv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neo/math/idiv.hpp b/src/neo/math/idiv.hpp
index e8989fc..cf30cb1 100644
--- a/src/neo/math/idiv.hpp
+++ b/src/neo/math/idiv.hpp
@@ -10,7 +10,7 @@ namespace neo {
 template<std::integral T>
 [[nodiscard]] constexpr auto idiv(T x, T y) noexcept -> T
 {
-    return (x + y - 1) / y;
+    return static_cast<T>(x / y + T(x % y > 0));
 }
 
 }  // namespace neo
-- 
2.43.0


From f51f8ab5a59f7467e1be50dfa5d6b5683425e9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:27 +0000
Subject: [PATCH 29/35] fix: DCT-II of a single sample is that sample, not zero

---
 src/neo/fft/dct.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/neo/fft/dct.hpp b/src/neo/fft/dct.hpp
index 728ca98..848d521 100644
--- a/src/neo/fft/dct.hpp
+++ b/src/neo/fft/dct.hpp
@@ -47,6 +47,9 @@ struct fallback_dct2_plan
             buf[i]   = x[src];
             buf[top] = x[src + 1];
         }
+        if (len % 2U != 0U) {
+            buf[len / 2U] = x[len - 1U];
+        }
 
         _fft(buf, direction::forward);
 
-- 
2.43.0


From a2afdab08eae00657a25090315d3d2b14f92ba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:27 +0000
Subject: [PATCH 30/35] fix: radix-4 plans of order 0 stay inside their buffers

---
 src/neo/fft/reference/c2c_dit4_plan.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neo/fft/reference/c2c_dit4_plan.hpp b/src/neo/fft/reference/c2c_dit4_plan.hpp
index 118ad68..4530083 100644
--- a/src/neo/fft/reference/c2c_dit4_plan.hpp
+++ b/src/neo/fft/reference/c2c_dit4_plan.hpp
@@ -61,7 +61,7 @@ private:
         auto const z = Complex{Float(0), -sign};
 
         auto length   = 4UL;
-        auto w_stride = ipow<size_type(4)>(order - 1UL);
+        auto w_stride = x.size() / 4UL;
         auto krange   = 1UL;
         auto block    = x.size() / 4UL;
         auto base     = 0UL;
@@ -189,11 +189,11 @@ private:
 
     [[nodiscard]] static auto make_twiddle_lut(size_type n)
     {
-        auto kmax  = 3UL * (n / 4UL - 1UL);
+        auto count = n < 4UL ? 0UL : 3UL * (n / 4UL - 1UL) + 1UL;
         auto w     = stdex::mdarray<Complex, stdex::dextents<std::size_t, 2>>{2, n};
         auto w_fwd = stdex::submdspan(w.to_mdspan(), 0, stdex::full_extent);
         auto w_bwd = stdex::submdspan(w.to_mdspan(), 1, stdex::full_extent);
-        for (auto i{0U}; i < kmax + 1; ++i) {
+        for (auto i{0U}; i < count; ++i) {
             w_fwd[i] = twiddle<Complex>(n, i, direction::forward);
             w_bwd[i] = twiddle<Complex>(n, i, direction::backward);
         }
-- 
2.43.0


From bdd42da9c2bc0dd426f2eef387187746e26a1095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:28 +0000
Subject: [PATCH 31/35] fix: plugin saves parameter changes that are still
 pending

---
 extra/plugin/src/PluginProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra/plugin/src/PluginProcessor.cpp b/extra/plugin/src/PluginProcessor.cpp
index b7c0cb0..9a4a129 100644
--- a/extra/plugin/src/PluginProcessor.cpp
+++ b/extra/plugin/src/PluginProcessor.cpp
@@ -92,7 +92,7 @@ auto PluginProcessor::createEditor() -> juce::AudioProcessorEditor* { return new
 auto PluginProcessor::getStateInformation(juce::MemoryBlock& destData) -> void
 {
     juce::MemoryOutputStream stream(destData, false);
-    _valueTree.state.writeToStream(stream);
+    _valueTree.copyState().writeToStream(stream);
 }
 
 auto PluginProcessor::setStateInformation(void const* data, int sizeInBytes) -> void
-- 
2.43.0


From 7139e36d3fc3eb7bf738be5933a195a586b82f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 32/35] fix: plugin: accept impulse responses without a tail

An impulse of at most 512 samples made an out-of-range slice of the filter
matrix, or a percentage of nothing.
---
 extra/plugin/src/ui/BenchmarkTab.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index c5c932d..343824e 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -187,9 +187,10 @@ auto BenchmarkTab::setImpulseResponseFile(juce::File const& file) -> void
     auto impulse = to_mdarray(_impulse.buffer);
     neo::convolution::normalize_impulse(impulse.to_mdspan());
 
-    auto const blockSize = 512ULL;
+    auto const blockSize = std::size_t(512);
+    auto const tailStart = std::min(blockSize, impulse.extent(1));  // an impulse may be shorter than a block
     _partitions          = neo::convolution::uniform_partition(
-        stdex::submdspan(impulse.to_mdspan(), stdex::full_extent, std::tuple{blockSize, impulse.extent(1)}),
+        stdex::submdspan(impulse.to_mdspan(), stdex::full_extent, std::tuple{tailStart, impulse.extent(1)}),
         blockSize
     );
 
@@ -315,6 +316,10 @@ auto BenchmarkTab::runBenchmarks() -> void
 
 auto BenchmarkTab::runWeightingTests() -> void
 {
+    if (_partitions.size() == 0) {
+        return;
+    }
+
     auto const scale = [filter = _partitions.to_mdspan()] {
         auto max = 0.0F;
         for (auto ch{0U}; ch < filter.extent(0); ++ch) {
-- 
2.43.0


From 3851befba98ba85c6acd6ce1d3e55d0e21cf7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 33/35] fix: plugin: ignore an impulse response that cannot be
 read

The tab went on with an empty impulse and read beyond its matrices.
---
 extra/plugin/src/ui/BenchmarkTab.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index 343824e..5dfafc2 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -178,7 +178,12 @@ auto BenchmarkTab::setImpulseResponseFile(juce::File const& file) -> void
         return;
     }
 
-    _impulse     = loadAndResample(_formatManager, file, _spec.sampleRate);
+    auto loaded = loadAndResample(_formatManager, file, _spec.sampleRate);
+    if (loaded.buffer.getNumChannels() == 0 or loaded.buffer.getNumSamples() == 0) {
+        return;
+    }
+
+    _impulse     = std::move(loaded);
     _impulseFile = file;
 
     auto const filterMatrix = to_mdarray(_impulse.buffer);
-- 
2.43.0


From 757faaca2a699bae8dae15e0e80c5cbaf09402e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 34/35] fix: plugin: render nothing while no impulse response
 is chosen

Rendering a signal without an impulse read the channels of an empty filter.
---
 extra/plugin/src/ui/BenchmarkTab.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index 5dfafc2..932b638 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -277,6 +277,9 @@ auto BenchmarkTab::runBenchmarks() -> void
     if (_signal.buffer.getNumChannels() == 0 or _signal.buffer.getNumSamples() == 0) {
         return;
     }
+    if (_impulse.buffer.getNumChannels() == 0 or _impulse.buffer.getNumSamples() == 0) {
+        return;
+    }
 
     using Complex = std::complex<float>;
 
-- 
2.43.0


From c4ac1025afc64d28f4df01d950e9fe7946a2e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:22 +0000
Subject: [PATCH 35/35] fix: plugin: drop messages of a render tab that was
 closed

A job that ended while the editor was closing posted a message that used the
destroyed tab.
---
 extra/plugin/src/ui/BenchmarkTab.cpp | 14 +++++++-------
 extra/plugin/src/ui/BenchmarkTab.hpp | 14 +++++++++++++-
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/extra/plugin/src/ui/BenchmarkTab.cpp b/extra/plugin/src/ui/BenchmarkTab.cpp
index 932b638..c295b62 100644
--- a/extra/plugin/src/ui/BenchmarkTab.cpp
+++ b/extra/plugin/src/ui/BenchmarkTab.cpp
@@ -384,7 +384,7 @@ auto BenchmarkTab::runJuceConvolutionBenchmark() -> void
     neo::normalize_peak(output.to_mdspan());
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
+    callAsyncWhileOpen([this, elapsed] {
         _fileInfo.moveCaretToEnd(false);
         _fileInfo.insertTextAtCaret("JUCE-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
     });
@@ -406,7 +406,7 @@ auto BenchmarkTab::runNeoConvolutionBenchmark() -> void
     neo::normalize_peak(output.to_mdspan());
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
+    callAsyncWhileOpen([this, elapsed] {
         _fileInfo.moveCaretToEnd(false);
         _fileInfo.insertTextAtCaret("NEO-CONVOLUTION: " + juce::String{elapsed.count()} + "\n");
     });
@@ -442,7 +442,7 @@ auto BenchmarkTab::runDenseConvolutionBenchmark() -> void
     auto const end = std::chrono::system_clock::now();
 
     auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
-    juce::MessageManager::callAsync([this, elapsed] {
+    callAsyncWhileOpen([this, elapsed] {
         _fileInfo.moveCaretToEnd(false);
         _fileInfo.insertTextAtCaret("TCONV2-DENSE: " + juce::String{elapsed.count()} + "\n");
     });
@@ -469,7 +469,7 @@ auto BenchmarkTab::runSparseConvolverBenchmark() -> void
     auto const elapsed       = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
     auto const thresholdText = juce::String(juce::roundToInt(std::abs(thresholdDB) * 100));
 
-    juce::MessageManager::callAsync([this, elapsed, thresholdText] {
+    callAsyncWhileOpen([this, elapsed, thresholdText] {
         auto const line = "TCONV-SPARSE(" + thresholdText + "): " + juce::String{elapsed.count()} + "\n";
         _fileInfo.moveCaretToEnd(false);
         _fileInfo.insertTextAtCaret(line);
@@ -522,7 +522,7 @@ auto BenchmarkTab::runSparseQualityTests() -> void
         return maxChannelRMSError(denseSpectogram, sparseSpectogram);
     };
 
-    juce::MessageManager::callAsync([this] { _fileInfo.moveCaretToEnd(false); });
+    callAsyncWhileOpen([this] { _fileInfo.moveCaretToEnd(false); });
 
     for (auto i{180}; i > 0; --i) {
         auto const range = juce::jmap(static_cast<double>(i), 1.0, 180.0, 1.0, 90.0);
@@ -530,10 +530,10 @@ auto BenchmarkTab::runSparseQualityTests() -> void
         auto const text  = "SPARSE-QUALITY(" + juce::String{range} + "): rmse = " + juce::String{rmse, 7}
                         + " rmse(dB) = " + juce::String{amplitude_to_db(rmse)} + "\n";
 
-        juce::MessageManager::callAsync([this, text] { _fileInfo.insertTextAtCaret(text); });
+        callAsyncWhileOpen([this, text] { _fileInfo.insertTextAtCaret(text); });
     }
 
-    juce::MessageManager::callAsync([this] { _fileInfo.insertTextAtCaret("SPARSE-QUALITY: Done\n"); });
+    callAsyncWhileOpen([this] { _fileInfo.insertTextAtCaret("SPARSE-QUALITY: Done\n"); });
 }
 
 auto BenchmarkTab::updateImages() -> void
diff --git a/extra/plugin/src/ui/BenchmarkTab.hpp b/extra/plugin/src/ui/BenchmarkTab.hpp
index 863d1d8..a176777 100644
--- a/extra/plugin/src/ui/BenchmarkTab.hpp
+++ b/extra/plugin/src/ui/BenchmarkTab.hpp
@@ -44,6 +44,18 @@ private:
     auto runConvolverTests() -> void;
     auto runSparseQualityTests() -> void;
 
+    /// Runs the function on the message thread, unless the tab is gone by then.
+    template<typename Function>
+    auto callAsyncWhileOpen(Function function) -> void
+    {
+        auto self = juce::Component::SafePointer<BenchmarkTab>{this};
+        juce::MessageManager::callAsync([self, function] {
+            if (self != nullptr) {
+                function();
+            }
+        });
+    }
+
     template<typename Convolver>
     auto runDenseBenchmark(juce::String const& name) -> void
     {
@@ -56,7 +68,7 @@ private:
 
         auto const elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(end - start);
 
-        juce::MessageManager::callAsync([this, elapsed, name] {
+        callAsyncWhileOpen([this, elapsed, name] {
             _fileInfo.moveCaretToEnd(false);
             _fileInfo.insertTextAtCaret(name + ": " + juce::String{elapsed.count()} + "\n");
         });
-- 
2.43.0

