From c16a4103044cc0c0ca353a1fa0474e5a2ec0cf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:06 +0000
Subject: [PATCH 1/8] fix: IIR filters with an odd number of coefficients never
 settle with SSE

The unused lane of the last SSE stage was an all-pass with coefficient 1,
whose pole is on the unit circle: rounding errors accumulated in its state
forever. Pass that lane through unchanged, as the scalar code does.
---
 include/pandaresampler/hiir/Downsampler2xSse.hpp |  8 ++++----
 include/pandaresampler/hiir/StageProcSseV2.h     |  2 +-
 include/pandaresampler/hiir/StageProcSseV2.hpp   | 11 ++++++++++-
 include/pandaresampler/hiir/Upsampler2xSse.hpp   |  4 ++--
 4 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index be91346..c999919 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -110,7 +110,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 	assert (in_ptr != nullptr);
 
 	auto           x  = _mm_loadu_ps (in_ptr);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
 
@@ -146,7 +146,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
 		out_ptr [pos] = _mm_cvtss_f32 (x);
@@ -181,7 +181,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 	assert (in_ptr != nullptr);
 
 	auto           x  = _mm_loadu_ps (in_ptr);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
 	low  = _mm_cvtss_f32 (_mm_add_ss (xr, x));
@@ -229,7 +229,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
 		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
-		StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+		StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
 		out_l_ptr [pos] = _mm_cvtss_f32 (_mm_add_ss (xr, x));
diff --git a/include/pandaresampler/hiir/StageProcSseV2.h b/include/pandaresampler/hiir/StageProcSseV2.h
index 33bf828..0536b48 100644
--- a/include/pandaresampler/hiir/StageProcSseV2.h
+++ b/include/pandaresampler/hiir/StageProcSseV2.h
@@ -50,7 +50,7 @@ class StageProcSseV2
 public:
 
 	static hiir_FORCEINLINE void
-	               process_sample_pos (__m128 &x, StageDataSse *stage_arr);
+	               process_sample_pos (const int nbr_coefs, __m128 &x, StageDataSse *stage_arr);
 	static hiir_FORCEINLINE void
 	               process_sample_neg (__m128 &x, StageDataSse *stage_arr);
 
diff --git a/include/pandaresampler/hiir/StageProcSseV2.hpp b/include/pandaresampler/hiir/StageProcSseV2.hpp
index df31cea..fc44d2a 100644
--- a/include/pandaresampler/hiir/StageProcSseV2.hpp
+++ b/include/pandaresampler/hiir/StageProcSseV2.hpp
@@ -36,9 +36,18 @@ namespace hiir
 
 
 template <int CUR>
-void  StageProcSseV2 <CUR>::process_sample_pos (__m128 &x, StageDataSse *stage_arr)
+void  StageProcSseV2 <CUR>::process_sample_pos (const int nbr_coefs, __m128 &x, StageDataSse *stage_arr)
 {
   StageProcSseV2 <CUR>::process_sample_pos_rec (x, stage_arr);
+
+	if ((nbr_coefs & 1) != 0)
+	{
+		// The low lane of the last stage has no coefficient, so its input (just
+		// stored by the recursion) must be passed through unchanged. An all-pass
+		// with a coefficient of 1 isn't good enough: its pole is on the unit
+		// circle, so rounding errors would accumulate and never decay.
+		x = _mm_move_ss (x, _mm_load_ps (stage_arr [CUR - 1]._mem));
+	}
 	_mm_store_ps (stage_arr [CUR]._mem, x);
 }
 
diff --git a/include/pandaresampler/hiir/Upsampler2xSse.hpp b/include/pandaresampler/hiir/Upsampler2xSse.hpp
index 0b72838..bf005ed 100644
--- a/include/pandaresampler/hiir/Upsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Upsampler2xSse.hpp
@@ -113,7 +113,7 @@ template <int NC>
 void	Upsampler2xSse <NC>::process_sample (float &out_0, float &out_1, float input)
 {
 	auto           x = _mm_set1_ps (input);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 	out_1 = _mm_cvtss_f32 (x);
 	x = _mm_shuffle_ps (x, x, 1);
 	out_0 = _mm_cvtss_f32 (x);
@@ -150,7 +150,7 @@ void	Upsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr []
 		process_sample (out_ptr [pos * 2], out_ptr [pos * 2 + 1], in_ptr [pos]);
 #else
 	auto           x = _mm_set1_ps (in_ptr [pos]);
-	StageProcSseV2 <_nbr_stages>::process_sample_pos (x, &_filter [0]);
+	StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 	x = _mm_shuffle_ps (x, x, 1);
 	_mm_storel_pi (reinterpret_cast <__m64 *> (out_ptr + pos * 2), x);
 #endif
-- 
2.43.0


From 4919bbe00afba30ff8ec2478f729f281a988780c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 2/8] fix: SSE IIR downsampler reads two samples past the end
 of its input

Each output sample needs two input samples, but four were loaded (the upper
two were never used), so the last output read 8 bytes beyond the input block.
---
 include/pandaresampler/hiir/Downsampler2xSse.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/hiir/Downsampler2xSse.hpp b/include/pandaresampler/hiir/Downsampler2xSse.hpp
index c999919..101162b 100644
--- a/include/pandaresampler/hiir/Downsampler2xSse.hpp
+++ b/include/pandaresampler/hiir/Downsampler2xSse.hpp
@@ -109,7 +109,7 @@ float	Downsampler2xSse <NC>::process_sample (const float in_ptr [2])
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 	x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 	x = _mm_mul_ss (x, _mm_set_ss (0.5f));
@@ -145,7 +145,7 @@ void	Downsampler2xSse <NC>::process_block (float out_ptr [], const float in_ptr
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 		x = _mm_add_ss (x, _mm_shuffle_ps (x, x, 1));
 		x = _mm_mul_ss (x, half);
@@ -180,7 +180,7 @@ void	Downsampler2xSse <NC>::process_sample_split (float &low, float &high, const
 {
 	assert (in_ptr != nullptr);
 
-	auto           x  = _mm_loadu_ps (in_ptr);
+	auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr));
 	StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 	x = _mm_mul_ps (x, _mm_set1_ps (0.5f));
 	const auto     xr = _mm_shuffle_ps (x, x, 1);
@@ -228,7 +228,7 @@ void	Downsampler2xSse <NC>::process_block_split (float out_l_ptr [], float out_h
 	const auto     half = _mm_set1_ps (0.5f);
 	for (long pos = 0; pos < nbr_spl; ++pos)
 	{
-		auto           x  = _mm_loadu_ps (in_ptr + pos * 2);
+		auto           x  = _mm_loadl_pi (_mm_setzero_ps (), reinterpret_cast <const __m64 *> (in_ptr + pos * 2));
 		StageProcSseV2 <_nbr_stages>::process_sample_pos (NBR_COEFS, x, &_filter [0]);
 		x = _mm_mul_ps (x, half);
 		const auto     xr = _mm_shuffle_ps (x, x, 1);
-- 
2.43.0


From 0190a1bd48dfade07aea3fb4ddcec51fc1eae891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 3/8] fix: IIR process_block accesses memory for empty blocks

hiir's block functions require at least one sample (some of them are do/while
loops), so an empty block read one input sample, wrote output samples that the
caller did not ask for and advanced the filter state.
---
 include/pandaresampler/pandaresampler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index ae6bbd1..aefd57c 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -1086,7 +1086,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir doesn't support empty blocks */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1123,7 +1124,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir doesn't support empty blocks */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
@@ -1163,7 +1165,8 @@ public:
   {
     const uint n_output_samples = n_input_samples / 2;
 
-    downs.process_block (output, input, n_output_samples);
+    if (n_output_samples) /* hiir doesn't support empty blocks */
+      downs.process_block (output, input, n_output_samples);
   }
   uint
   order() const override
@@ -1200,7 +1203,8 @@ public:
   void
   process_block (const float *input, uint n_input_samples, float *output) override
   {
-    ups.process_block (output, input, n_input_samples);
+    if (n_input_samples) /* hiir doesn't support empty blocks */
+      ups.process_block (output, input, n_input_samples);
   }
   uint
   order() const override
-- 
2.43.0


From 79cfd2fcc37b7f25659ac8385439b6b0ac6900b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 4/8] fix: order() and sse_enabled() crash for ratio 1

A resampler with ratio 1 is valid, but has no filter stages.
---
 include/pandaresampler.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index c7fba41..2a84d60 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -255,7 +255,7 @@ public:
   uint
   order() const
   {
-    return impl_x2->order(); // FIXME
+    return impl_x2 ? impl_x2->order() : 0; // FIXME
   }
   /**
    * Return the delay introduced by the resampler. This delay is guaranteed to
@@ -312,7 +312,7 @@ public:
   bool
   sse_enabled() const
   {
-    return impl_x2->sse_enabled();
+    return impl_x2 ? impl_x2->sse_enabled() : false;
   }
 protected:
   /* Creates implementation from filter coefficients and Filter implementation class
-- 
2.43.0


From 90cb648875c61471f586633220590d6916312b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:41 +0000
Subject: [PATCH 5/8] fix: copying an AlignedArray frees its memory twice

The implicitly defined copy operations only copied the pointers. Copy the
elements instead.
---
 include/pandaresampler.hh | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/pandaresampler.hh b/include/pandaresampler.hh
index 2a84d60..0632dac 100644
--- a/include/pandaresampler.hh
+++ b/include/pandaresampler.hh
@@ -75,6 +75,25 @@ public:
   {
     std::copy (elements.begin(), elements.end(), data);
   }
+  AlignedArray (const AlignedArray& other) :
+    n_elements (other.n_elements)
+  {
+    allocate_aligned_data();
+    for (size_t i = 0; i < n_elements; i++)
+      new (data + i) T (other.data[i]);
+  }
+  AlignedArray&
+  operator= (const AlignedArray& other)
+  {
+    if (this != &other)
+      {
+        AlignedArray copy (other);
+        std::swap (unaligned_mem, copy.unaligned_mem);
+        std::swap (data, copy.data);
+        std::swap (n_elements, copy.n_elements);
+      }
+    return *this;
+  }
   ~AlignedArray()
   {
     /* C++ destruction order: last allocated element is deleted first */
-- 
2.43.0


From e692001bc57cc11b0b1976565eea2cecf7a19daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:50 +0000
Subject: [PATCH 6/8] fix: IIR designer reports success if the group delay was
 not reached

conv_flag is true as long as the group delay is off by more than prec, so the
convergence check after the bisection was inverted.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index bf4c479..4133cf9 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -309,7 +309,7 @@ PolyphaseIir2Designer::ResCode	PolyphaseIir2Designer::compute_coefs_spec_order_g
 		while (conv_flag && nbr_it < max_it);
 
 		// Checks convergence
-		if (nbr_it >= max_it && ! conv_flag)
+		if (conv_flag)
 		{
 			ret_val = ResCode_FAIL_CONV;
 		}
-- 
2.43.0


From 536eb8d5897378182a88c8bf22d56e0555be6a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 7/8] fix: IIR designer returns negative number of coefficients

For attenuations of less than 1 dB and narrow transition bands the order that
compute_order() estimates is negative, so that compute_nbr_coefs_from_proto()
and compute_coefs() returned a negative number of coefficients.
---
 include/pandaresampler/hiir/PolyphaseIir2Designer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
index 4133cf9..f6b876e 100644
--- a/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
+++ b/include/pandaresampler/hiir/PolyphaseIir2Designer.cpp
@@ -492,7 +492,7 @@ int	PolyphaseIir2Designer::compute_order (double attenuation, double q)
 	{
 		++ order;
 	}
-	if (order == 1)
+	if (order < 3)
 	{
 		order = 3;
 	}
-- 
2.43.0


From 92d1e2641a96c1eefc5ec21b3b482575a9352f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:19 +0000
Subject: [PATCH 8/8] fix: FIR Upsampler2 index overflow for blocks of 2^31
 samples or more

---
 include/pandaresampler/pandaresampler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pandaresampler/pandaresampler.cc b/include/pandaresampler/pandaresampler.cc
index aefd57c..86d0bfc 100644
--- a/include/pandaresampler/pandaresampler.cc
+++ b/include/pandaresampler/pandaresampler.cc
@@ -388,7 +388,7 @@ protected:
                          uint         n_input_samples,
 			 float       *output)
   {
-    uint i = 0;
+    size_t i = 0; /* with uint, 2 * i and i + 6 overflow for large blocks */
     if (USE_SSE)
       {
         /* (i + 6) -> need to take into account that the filter needs to access
@@ -412,7 +412,7 @@ protected:
                            uint         n_input_samples,
 			   float       *output)
   {
-    uint i = 0;
+    size_t i = 0;
     if (USE_SSE)
       {
 	while ((reinterpret_cast<ptrdiff_t> (&input[i]) & 15) && i < n_input_samples)
-- 
2.43.0

