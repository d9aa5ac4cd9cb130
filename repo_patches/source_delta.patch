From 0fcfd2315076390b1fce20be425973d33a0249b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 01/88] fix: reject memory slices which extend beyond the end
 of the source array

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index b2de041..3f4b1d4 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -265,7 +265,10 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
     for (int32_t i = 0; i < num_dims_slice; ++i)
     {
         const int32_t i_dim_slice = num_dims_slice - 1 - i;
-        if (slice_shape[i_dim_slice] > src->shape[src->num_dims - 1 - i])
+        const int32_t i_dim_src = src->num_dims - 1 - i;
+        if (slice_shape[i_dim_slice] < 0 ||
+                slice_shape[i_dim_slice] >
+                src->shape[i_dim_src] - slice_offsets[i_dim_src])
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             SDP_LOG_CRITICAL(
-- 
2.43.0


From 18de09d0a74421e28689072fa50bf27f151bdc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 02/88] fix: aliases and slices of read-only memory are
 read-only

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 3f4b1d4..3324612 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -295,6 +295,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
             src->type, src->location, num_dims_slice, slice_shape, stride,
             status
     );
+    mem->is_read_only = src->is_read_only;
     free(stride);
     return mem;
 }
@@ -306,6 +307,7 @@ sdp_Mem* sdp_mem_create_alias(const sdp_Mem* src)
     sdp_Mem* mem = sdp_mem_create_wrapper(src->data, src->type, src->location,
             src->num_dims, src->shape, src->stride, &status
     );
+    mem->is_read_only = src->is_read_only;
     return mem;
 }
 
-- 
2.43.0


From 024ba9fbda677f3e113202f58eebdce635ca1b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 03/88] fix: clear only the elements of a strided array, and
 all of them

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 3324612..ab3bd85 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -88,6 +88,19 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Return the offset, in bytes, of the element at the given (C-ordered) index.
+int64_t element_offset(const sdp_Mem* mem, int64_t index)
+{
+    int64_t offset = 0;
+    for (int32_t i = mem->num_dims - 1; i >= 0; --i)
+    {
+        offset += (index % mem->shape[i]) * mem->stride[i];
+        index /= mem->shape[i];
+    }
+    return offset;
+}
+
+
 // Multiply all elements of an array by the specified value.
 template<typename T>
 void scale_real(sdp_Mem* mem, double value)
@@ -330,6 +343,19 @@ sdp_Mem* sdp_mem_create_copy(
 void sdp_mem_clear_contents(sdp_Mem* mem, sdp_Error* status)
 {
     if (*status || !mem || mem->num_elements == 0) return;
+    if (mem->location == SDP_MEM_CPU && mem->num_dims > 0 &&
+            !mem->is_c_contiguous)
+    {
+        // Don't touch memory between the elements.
+        const size_t element_size = sdp_mem_type_size(mem->type);
+        for (int64_t i = 0; mem->data && i < mem->num_elements; ++i)
+        {
+            memset((char*) (mem->data) + element_offset(mem, i),
+                    0, element_size
+            );
+        }
+        return;
+    }
     sdp_mem_clear_portion(mem, 0, mem->num_elements, status);
 }
 
-- 
2.43.0


From 1aea6dec6ebbf0950c9d95d159154609ec7f3c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 04/88] fix: deep copy of a strided array copies its elements
 into its own memory

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index ab3bd85..0297d94 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -331,10 +331,35 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
+    // Strides of the copy are always those of a standard contiguous C array.
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
-            src->num_dims, src->shape, src->stride, status
+            src->num_dims, src->shape, 0, status
     );
     sdp_mem_alloc(mem, status);
+    if (src->num_dims > 0 && !src->is_c_contiguous &&
+            src->location == SDP_MEM_CPU)
+    {
+        if (location == SDP_MEM_CPU)
+        {
+            // Gather the elements of the strided array.
+            const size_t element_size = sdp_mem_type_size(src->type);
+            for (int64_t i = 0; src->data && !*status &&
+                    i < src->num_elements; ++i)
+            {
+                memcpy((char*) (mem->data) + i * element_size,
+                        (const char*) (src->data) + element_offset(src, i),
+                        element_size
+                );
+            }
+        }
+        else
+        {
+            sdp_Mem* src_cpu = sdp_mem_create_copy(src, SDP_MEM_CPU, status);
+            sdp_mem_copy_contents(mem, src_cpu, 0, 0, src->num_elements, status);
+            sdp_mem_free(src_cpu);
+        }
+        return mem;
+    }
     sdp_mem_copy_contents(mem, src, 0, 0, src->num_elements, status);
     return mem;
 }
-- 
2.43.0


From 7d2e7c5a03a8446488a1324e26adde664450d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 05/88] fix: reject copies which are out of range of the source
 or destination

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 30 ++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 0297d94..214f3ca 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -88,6 +88,24 @@ void sdp_mem_alloc(sdp_Mem* mem, sdp_Error* status)
 }
 
 
+// Check that the elements to copy are within both arrays.
+int32_t is_copy_in_range(
+        const sdp_Mem* dst,
+        const sdp_Mem* src,
+        int64_t offset_dst,
+        int64_t offset_src,
+        int64_t num_elements
+)
+{
+    const int64_t size_src = sdp_mem_type_size(src->type);
+    const int64_t size_dst = sdp_mem_type_size(dst->type);
+    return offset_dst >= 0 && offset_src >= 0 && num_elements >= 0 &&
+           offset_src + num_elements <= src->num_elements &&
+           (offset_dst + num_elements) * size_src <=
+           dst->num_elements * size_dst;
+}
+
+
 // Return the offset, in bytes, of the element at the given (C-ordered) index.
 int64_t element_offset(const sdp_Mem* mem, int64_t index)
 {
@@ -512,6 +530,12 @@ void sdp_mem_copy_contents(
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
+    if (!is_copy_in_range(dst, src, offset_dst, offset_src, num_elements))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Elements to copy are out of range");
+        return;
+    }
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
     const size_t bytes        = element_size * num_elements;
@@ -573,6 +597,12 @@ void sdp_mem_copy_contents_async(
     if (*status || !dst || !src || !dst->data || !src->data) return;
     if (src->num_elements == 0 || num_elements == 0) return;
     const int64_t element_size = sdp_mem_type_size(src->type);
+    if (!is_copy_in_range(dst, src, offset_dst, offset_src, num_elements))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Elements to copy are out of range");
+        return;
+    }
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
     const size_t bytes        = element_size * num_elements;
-- 
2.43.0


From 712c435b6d9748a9e301b5c24ea5bbebc60b703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 06/88] fix: reject clearing elements which are out of range of
 the array

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 214f3ca..be2fb45 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -411,6 +411,13 @@ void sdp_mem_clear_portion(
 )
 {
     if (*status || !mem || num_elements == 0) return;
+    if (start_index < 0 || num_elements < 0 ||
+            start_index + num_elements > mem->num_elements)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Elements to clear are out of range");
+        return;
+    }
     const size_t offset = start_index * sdp_mem_type_size(mem->type);
     const size_t size = num_elements * sdp_mem_type_size(mem->type);
     if (mem->location == SDP_MEM_CPU)
-- 
2.43.0


From 06786fcdff2f10bdee753b27d1fb4e42dbf9f845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 07/88] fix: FFT convolution of odd-sized arrays (padded row
 length and overflow of the output)

---
 .../numeric_functions/sdp_fft_convolution.cpp | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 65866b2..cbb915f 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -62,12 +62,11 @@ inline void sdp_pad_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t padded_cols
 )
 {
     int64_t i = 0, j = 0;
-    // int64_t padded_rows = rows + 2*pad_rows;
-    int64_t padded_cols = cols + 2 * pad_cols;
 
     for (i = 0; i < rows; i++)
     {
@@ -87,21 +86,21 @@ inline void sdp_remove_padding_2d(
         int64_t rows,
         int64_t cols,
         int64_t pad_rows,
-        int64_t pad_cols
+        int64_t pad_cols,
+        int64_t original_rows,
+        int64_t original_cols
 )
 {
     int64_t i = 0, j = 0;
-    int64_t original_rows = rows - 2 * pad_rows;
-    int64_t original_cols = cols - 2 * pad_cols;
 
     for (i = 0; i < original_rows; i++)
     {
+        // The first element wraps around if there is no padding in front of it.
+        const int64_t i_pad = (i + (pad_rows - 1) + rows) % rows;
         for (j = 0; j < original_cols; j++)
         {
-            data[i * original_cols +
-                    j] =
-                    padded_data[(i + (pad_rows - 1)) * cols +
-                            (j + (pad_cols - 1))];
+            const int64_t j_pad = (j + (pad_cols - 1) + cols) % cols;
+            data[i * original_cols + j] = padded_data[i_pad * cols + j_pad];
         }
     }
 }
@@ -162,7 +161,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
 
     // pad in1
-    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1);
+    sdp_pad_2d<T>(in1, in1_pad_ptr, in1_dim, in1_dim, extra_in1, extra_in1,
+            pad_dim
+    );
 
     // create memory to save padded input in2
     sdp_Mem* in2_pad_mem = sdp_mem_create(data_type,
@@ -178,7 +179,9 @@ static void sdp_fft_convolution_cpu(
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
 
     // pad in2
-    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2);
+    sdp_pad_2d<T>(in2, in2_pad_ptr, in2_dim, in2_dim, extra_in2, extra_in2,
+            pad_dim
+    );
 
     // get FFT of padded in1
     sdp_Fft* in1_fft_plan = sdp_fft_create(in1_pad_mem,
@@ -235,7 +238,9 @@ static void sdp_fft_convolution_cpu(
             pad_dim,
             pad_dim,
             extra_in1,
-            extra_in1
+            extra_in1,
+            in1_dim,
+            in1_dim
     );
 
     sdp_mem_ref_dec(in1_pad_mem);
-- 
2.43.0


From 3efe92273ebf4fdfa95a8e71b33e8e2bb6566a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 08/88] fix: reject an FFT over fewer than one dimension

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index 1d11978..b47ffb0 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -343,6 +343,13 @@ static void check_params(
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Unsupported data types");
+        return;
+    }
+    if (num_dims_fft < 1)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Number of FFT dimensions must be at least 1");
+        return;
     }
     if (num_dims_fft != sdp_mem_num_dims(input) &&
             num_dims_fft != sdp_mem_num_dims(input) - 1)
-- 
2.43.0


From 623f00888647c989e22ee8f2cc066386772ca1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:51 +0000
Subject: [PATCH 09/88] fix: release the data layout held by an FFT plan

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index b47ffb0..ad173bc 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -619,9 +619,6 @@ void sdp_fft_create_pocketfft(
     const int32_t num_dims = sdp_mem_num_dims(input);
 
     // Allocate information about data layout.
-    // (Note that this is a std::vector, but was originally allocated
-    //  using calloc. There's a chance this might cause problems with
-    //  certain standard library implementations!)
     for (int i = 0; i < num_dims; i++)
     {
         fft->shape.push_back(sdp_mem_shape_dim(input, i));
@@ -832,7 +829,7 @@ sdp_Fft* sdp_fft_create(
     if (*status) return NULL;
 
     // Allocate space for a plan.
-    sdp_Fft* fft = (sdp_Fft*) calloc(1, sizeof(sdp_Fft));
+    sdp_Fft* fft = new sdp_Fft();
     fft->input = sdp_mem_create_alias(input);
     fft->output = sdp_mem_create_alias(output);
     fft->num_dims = num_dims_fft;
@@ -964,7 +961,7 @@ void sdp_fft_free(sdp_Fft* fft)
     sdp_mem_ref_dec(fft->input);
     sdp_mem_ref_dec(fft->output);
     sdp_mem_free(fft->temp);
-    free(fft);
+    delete fft;
 }
 
 
-- 
2.43.0


From c53fba03afd8d37c86cddec15c76702406abad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 10/88] fix: PSWF generation sets every element of odd-sized
 arrays

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 8d3bb47..c67d844 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -586,7 +586,7 @@ static inline void generate_pswf(
     pswf_(size / 2) = sdp_pswf_aswfa(m, m, c, ck, 0);
 
     // Get remaining values
-    for (int i = 1; i < size / 2; i++)
+    for (int i = 1; i < (size + 1) / 2; i++)
     {
         // Get value (plus derivative)
         const double x = 2 * ((double)i) / size;
-- 
2.43.0


From 6a058b2146d5c893f00fac66f8f4ae3d306c1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 11/88] fix: PSWF expansion coefficients are initialised when
 the size parameter is zero

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index c67d844..3a40fd3 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -632,7 +632,7 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     pswf_segv(&plan->m, &n, &plan->c, &kd, &cv, eg);
 
     // Calculate expansion coefficients
-    double df[200];
+    double df[200] = {0.0};
     pswf_sdmn(&plan->m, &n, &plan->c, &cv, &kd, df);
     pswf_sckb(plan->m, n, plan->c, df, plan->coeff_p);
     return plan;
-- 
2.43.0


From 7f86a721f3cdda607bd627a3e60841afa213c472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 12/88] fix: release the SwiFTly plan itself when it is
 destroyed

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 2843db9..e762fe3 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -150,6 +150,7 @@ void sdp_swiftly_free(sdp_SwiFTly* swiftly)
     {
         sdp_mem_free(swiftly->Fb);
         sdp_mem_free(swiftly->Fn);
+        free(swiftly);
     }
 }
 
-- 
2.43.0


From b525d0ebc1ade1d80623bd508a0969eca4638981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 13/88] fix: SwiFTly finish_subgrid_inplace_2d uses the strides
 of its temporary

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index e762fe3..ed02f73 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -700,7 +700,7 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     const pocketfft::stride_t stride_tmp = {
         xM_size* cpx_size, cpx_size
     };
-    pocketfft::c2c(shape, stride, stride, { 0, 1 }, pocketfft::BACKWARD,
+    pocketfft::c2c(shape, stride, stride_tmp, { 0, 1 }, pocketfft::BACKWARD,
             sg.ptr, tmp.ptr, 1. / xM_size / xM_size
     );
 
-- 
2.43.0


From e1005fc5c49a1824fcd6058ae5897214d382fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 14/88] fix: SwiFTly facet offsets may be negative in every
 operation

---
 .../fourier_transforms/sdp_swiftly.cpp            | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index ed02f73..5e41524 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -423,11 +423,13 @@ void sdp_swiftly_add_to_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
@@ -876,7 +878,8 @@ void sdp_swiftly_extract_from_subgrid(
     for (int64_t i0 = 0; i0 < bc0_size; i0++)
     {
         // Calculate facet offsets (in xM_size resolution).
-        const int64_t fct_offs = facet_offset / (image_size / xM_size);
+        const int64_t fct_offs =
+                mod_p(facet_offset, image_size) / (image_size / xM_size);
         const int64_t offs = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs,
                 xM_size
         );
@@ -940,11 +943,13 @@ void sdp_swiftly_extract_from_subgrid_2d(
     if (*status) return;
 
     // Calculate facet offsets (in xM_size resolution).
-    const int64_t fct_offs0 = facet_offset0 / (image_size / xM_size);
+    const int64_t fct_offs0 =
+            mod_p(facet_offset0, image_size) / (image_size / xM_size);
     const int64_t offs0 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs0,
             xM_size
     );
-    const int64_t fct_offs1 = facet_offset1 / (image_size / xM_size);
+    const int64_t fct_offs1 =
+            mod_p(facet_offset1, image_size) / (image_size / xM_size);
     const int64_t offs1 = mod_p(-xM_yN_size / 2 + xM_size / 2 + fct_offs1,
             xM_size
     );
-- 
2.43.0


From d5e151949900393b6572afe0f8f82224ff2a61c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 15/88] fix: SwiFTly 2D operations check both dimensions of
 their arrays

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 5e41524..a9f0037 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -414,9 +414,11 @@ void sdp_swiftly_add_to_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution, &contrib, status);
+    sdp_mem_check_shape_dim(contribution, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution, 1, xM_yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(subgrid_image_inout, &out, status);
+    sdp_mem_check_shape_dim(subgrid_image_inout, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image_inout, 1, xM_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
@@ -934,9 +936,11 @@ void sdp_swiftly_extract_from_subgrid_2d(
     const int64_t xM_yN_size = (xM_size * swiftly->yN_size) / image_size;
     sdp_MemViewCpu<const std::complex<double>, 2> sg_img;
     sdp_mem_check_and_view(subgrid_image, &sg_img, status);
+    sdp_mem_check_shape_dim(subgrid_image, 0, xM_size, status);
     sdp_mem_check_shape_dim(subgrid_image, 1, xM_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> contrib;
     sdp_mem_check_and_view(contribution_out, &contrib, status);
+    sdp_mem_check_shape_dim(contribution_out, 0, xM_yN_size, status);
     sdp_mem_check_shape_dim(contribution_out, 1, xM_yN_size, status);
     sdp_MemViewCpu<double, 1> Fn;
     sdp_mem_check_and_view(swiftly->Fn, &Fn, status);
-- 
2.43.0


From 32d078293fa3ca9fcf1165498c0f9599d4ac8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 16/88] fix: SwiFTly prepare_subgrid undoes finish_subgrid for
 odd offsets as well

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index a9f0037..264fd66 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -774,8 +774,8 @@ void sdp_swiftly_prepare_subgrid_inplace(
         for (int64_t i0 = 0; i0 < bc0_size; i0++)
         {
             std::complex<double> tmp = sg(i0, i);
-            sg(i0, i) = phasor * sg(i0, i + xM_size / 2);
-            sg(i0, i + xM_size / 2) = phasor * step2 * tmp;
+            sg(i0, i) = phasor * step2 * sg(i0, i + xM_size / 2);
+            sg(i0, i + xM_size / 2) = phasor * tmp;
         }
     }
 }
@@ -833,15 +833,16 @@ void sdp_swiftly_prepare_subgrid_inplace_2d(
         {
             std::complex<double> tmp = sg(i0, i1);
             sg(i0, i1) =
-                    phasor1 * sg(i0 + xM_size / 2, i1 + xM_size / 2);
+                    phasor1 * step0_2 * step1_2 *
+                    sg(i0 + xM_size / 2, i1 + xM_size / 2);
             sg(i0 + xM_size / 2, i1 + xM_size / 2) =
-                    phasor1 * step0_2 * step1_2 * tmp;
+                    phasor1 * tmp;
 
             std::complex<double> tmp2 = sg(i0 + xM_size / 2, i1);
             sg(i0 + xM_size / 2, i1) =
-                    phasor1 * step0_2 * sg(i0, i1 + xM_size / 2);
+                    phasor1 * step1_2 * sg(i0, i1 + xM_size / 2);
             sg(i0, i1 + xM_size / 2) =
-                    phasor1 * step1_2 * tmp2;
+                    phasor1 * step0_2 * tmp2;
         }
     }
 }
-- 
2.43.0


From 7a5e8a487846197c8351d86361cfd5563e3fad15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 17/88] fix: SwiFTly contributions of odd size are centred like
 the facets and subgrids

---
 .../fourier_transforms/sdp_swiftly.cpp        | 40 +++++++++----------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 264fd66..1848ada 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -386,12 +386,12 @@ void sdp_swiftly_add_to_subgrid(
         for (i = 0; i < stop1; i++)
         {
             out(i0, i + offs) += Fn(i) *
-                    contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size);
+                    contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size);
         }
         for (; i < xM_yN_size; i++)
         {
             out(i0, i + offs - xM_size) += Fn(i) *
-                    contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size);
+                    contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size);
         }
     }
 }
@@ -449,15 +449,15 @@ void sdp_swiftly_add_to_subgrid_2d(
         for (; i1 < stop1; i1++)
         {
             out(i0 + offs0, i1 + offs1) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
         for (; i1 < xM_yN_size; i1++)
         {
             out(i0 + offs0, i1 + offs1 - xM_size) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
     }
@@ -468,15 +468,15 @@ void sdp_swiftly_add_to_subgrid_2d(
         for (; i1 < stop1; i1++)
         {
             out(i0 + offs0 - xM_size, i1 + offs1) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
         for (; i1 < xM_yN_size; i1++)
         {
             out(i0 + offs0 - xM_size, i1 + offs1 - xM_size) += fn0 * Fn(i1) *
-                    contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+                    contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
                     );
         }
     }
@@ -891,12 +891,12 @@ void sdp_swiftly_extract_from_subgrid(
         int64_t i = 0;
         for (; i < stop1; i++)
         {
-            contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size) =
+            contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size) =
                     sg_img(i0, i + offs) * Fn(i);
         }
         for (; i < xM_yN_size; i++)
         {
-            contrib(i0, (i + fct_offs + xM_yN_size / 2) % xM_yN_size) =
+            contrib(i0, (i + fct_offs + (xM_yN_size + 1) / 2) % xM_yN_size) =
                     sg_img(i0, i + offs - xM_size) * Fn(i);
         }
     }
@@ -971,15 +971,15 @@ void sdp_swiftly_extract_from_subgrid_2d(
         int64_t i1 = 0;
         for (; i1 < stop1; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0, i1 + offs1);
         }
         for (; i1 < xM_yN_size; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0, i1 + offs1 - xM_size);
         }
@@ -990,15 +990,15 @@ void sdp_swiftly_extract_from_subgrid_2d(
         int64_t i1 = 0;
         for (; i1 < stop1; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0 - xM_size, i1 + offs1);
         }
         for (; i1 < xM_yN_size; i1++)
         {
-            contrib((i0 + fct_offs0 + xM_yN_size / 2) % xM_yN_size,
-                    (i1 + fct_offs1 + xM_yN_size / 2) % xM_yN_size
+            contrib((i0 + fct_offs0 + (xM_yN_size + 1) / 2) % xM_yN_size,
+                    (i1 + fct_offs1 + (xM_yN_size + 1) / 2) % xM_yN_size
             ) =
                     fn0 * Fn(i1) * sg_img(i0 + offs0 - xM_size,
                     i1 + offs1 - xM_size
-- 
2.43.0


From 30899572b071b7c94f6fc24034891857c0f79137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 18/88] fix: count non-zero pixels of images which are not
 square

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 0a8c1a8..2225ab0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -107,13 +107,14 @@ template<typename FLUX_TYPE>
 int64_t count_nonzero_pixels(const sdp_Mem* image, sdp_Error* status)
 {
     int64_t num_sources = 0;
-    const int image_size = (int) sdp_mem_shape_dim(image, 0);
     sdp_MemViewCpu<const FLUX_TYPE, 2> image_;
     sdp_mem_check_and_view(image, &image_, status);
     if (*status) return 0;
-    for (int il = 0; il < image_size; ++il)
+    const int size_l = (int) image_.shape[0];
+    const int size_m = (int) image_.shape[1];
+    for (int il = 0; il < size_l; ++il)
     {
-        for (int im = 0; im < image_size; ++im)
+        for (int im = 0; im < size_m; ++im)
         {
             if (image_(il, im) != (FLUX_TYPE) 0) num_sources++;
         }
-- 
2.43.0


From 8dfd0663a6ac9af38dd3195594823c78f7225e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 19/88] fix: shift stacks of sub-grids which are not square

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 2225ab0..cc86f94 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -535,13 +535,14 @@ void shift_subgrids(sdp_Mem* subgrids, sdp_Error* status)
     sdp_mem_check_and_view(subgrids, &subgrids_, status);
     if (*status) return;
     const int w_support = subgrids_.shape[0];
-    const int subgrid_size = subgrids_.shape[1];
+    const int num_rows = subgrids_.shape[1];
+    const int num_cols = subgrids_.shape[2];
     for (int k = 0; k < w_support - 1; ++k)
     {
         #pragma omp parallel for
-        for (int j = 0; j < subgrid_size; ++j)
+        for (int j = 0; j < num_rows; ++j)
         {
-            for (int i = 0; i < subgrid_size; ++i)
+            for (int i = 0; i < num_cols; ++i)
             {
                 subgrids_(k, j, i) = subgrids_(k + 1, j, i);
             }
-- 
2.43.0


From 1b5a5b237ba283028a2bbfc4d14e3d8e97ec8643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 20/88] fix: PSWF kernels in single precision (end value
 written as a double)

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index cc86f94..2fdfa63 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1346,7 +1346,17 @@ void sdp_gridder_make_pswf_kernel(
             sdp_mem_type(kernel), SDP_MEM_CPU, 1, pswf_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), pswf, status);
-    if (vr_size % 2 == 0) ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+    if (!*status && vr_size % 2 == 0)
+    {
+        if (sdp_mem_type(pswf) == SDP_MEM_FLOAT)
+        {
+            ((float*) sdp_mem_data(pswf))[0] = 1e-15f;
+        }
+        else
+        {
+            ((double*) sdp_mem_data(pswf))[0] = 1e-15;
+        }
+    }
     sdp_gridder_make_kernel(pswf, kernel, status);
     sdp_mem_free(pswf);
 }
-- 
2.43.0


From 66a926533e1f7523ab78615347639aaeb5789735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 21/88] fix: direct degridding in single precision (type of the
 fluxes was not looked at)

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 2fdfa63..b668f55 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1060,7 +1060,7 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
-    const sdp_MemType flux_type = sdp_mem_type(lmn);
+    const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
     const sdp_MemType vis_type = sdp_mem_type(vis);
-- 
2.43.0


From d9cb0409365f5f9aee4198a50f0ceb1d77c01635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:31 +0000
Subject: [PATCH 22/88] fix: direct (de)gridding uses only the given range of
 channels of each row

---
 .../grid_data/sdp_gridder_utils.cpp           | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index b668f55..10f87a0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <cstdlib>
@@ -182,11 +183,15 @@ void dft(
     #pragma omp parallel for
     for (int64_t i = 0; i < num_uvw; ++i)
     {
-        // Skip if there's no visibility to degrid.
-        if (start_chs && end_chs && start_chs_(i) >= end_chs_(i)) continue;
+        // Get the range of channels to degrid for this row.
+        const bool use_range = (start_chs && end_chs);
+        const int start_ch = use_range ? std::max(start_chs_(i), 0) : 0;
+        const int end_ch = (
+            use_range ? std::min(end_chs_(i), num_chan) : num_chan
+        );
 
         // Loop over channels.
-        for (int c = 0; c < num_chan; ++c)
+        for (int c = start_ch; c < end_ch; ++c)
         {
             const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
@@ -282,14 +287,15 @@ void idft(
             // Loop over uvw values.
             for (int64_t i = 0; i < num_uvw; ++i)
             {
-                // Skip if there's no visibility to grid.
-                if (start_chs && end_chs && start_chs_(i) >= end_chs_(i))
-                {
-                    continue;
-                }
+                // Get the range of channels to grid for this row.
+                const bool use_range = (start_chs && end_chs);
+                const int start_ch = use_range ? std::max(start_chs_(i), 0) : 0;
+                const int end_ch = (
+                    use_range ? std::min(end_chs_(i), num_chan) : num_chan
+                );
 
                 // Loop over channels.
-                for (int c = 0; c < num_chan; ++c)
+                for (int c = start_ch; c < end_ch; ++c)
                 {
                     const double inv_wave = (freq0_hz + dfreq_hz * c) / C_0;
 
-- 
2.43.0


From e6020ea3bd73eb8a29dedba720d0de6626363db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 23/88] fix: clamp channels against ranges with distant or
 infinite bounds

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 46 +++++++++----------
 .../grid_data/sdp_gridder_clamp_channels.h    | 29 +++++++-----
 2 files changed, 39 insertions(+), 36 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index f218a78..c0824b0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -6,6 +6,13 @@
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Round up to a channel index, limited to the range of an integer.
+inline int ceil_to_channel(double x)
+{
+    return (int) ceil(MAX(-2147483645.0, MIN(x, 2147483645.0)));
+}
+
+
 template<typename UVW_TYPE>
 void clamp_channels_single(
         const sdp_Mem* uvws,
@@ -38,16 +45,13 @@ void clamp_channels_single(
     {
         const double u0 = uvws_(i, dim) * (freq0_hz / C_0);
         const double du = uvws_(i, dim) * (dfreq_hz / C_0);
-        const double rel_min_u = fabs(min_u - u0);
-        const double rel_max_u = fabs(max_u - u0);
-        const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
-        if (fabs(du) > eta_u) // Use a safe value for eta.
+        if (du != 0.0)
         {
-            const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-            const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
+            const int mins = ceil_to_channel((min_u - u0) / du);
+            const int maxs = ceil_to_channel((max_u - u0) / du);
             const int is_positive = du > 0;
-            const int start_ch_ = is_positive ? (int) mins : (int) maxs;
-            const int end_ch_ = is_positive ? (int) maxs : (int) mins;
+            const int start_ch_ = is_positive ? mins : maxs;
+            const int end_ch_ = is_positive ? maxs : mins;
             start_chs_out_(i) = MAX(start_chs_in_(i), start_ch_);
             end_chs_out_(i) = MIN(end_chs_in_(i), end_ch_);
         }
@@ -99,16 +103,13 @@ void clamp_channels_uv(
     {
         const double u0 = uvws_(i, 0) * (freq0_hz / C_0);
         const double du = uvws_(i, 0) * (dfreq_hz / C_0);
-        const double rel_min_u = fabs(min_u - u0);
-        const double rel_max_u = fabs(max_u - u0);
-        const double eta_u = MAX(rel_min_u, rel_max_u) / 2147483645.0;
-        if (fabs(du) > eta_u) // Use a safe value for eta.
+        if (du != 0.0)
         {
-            const int64_t mins = (int64_t) (ceil((min_u - u0) / du));
-            const int64_t maxs = (int64_t) (ceil((max_u - u0) / du));
+            const int mins = ceil_to_channel((min_u - u0) / du);
+            const int maxs = ceil_to_channel((max_u - u0) / du);
             const int is_positive = du > 0;
-            const int start_ch_ = is_positive ? (int) mins : (int) maxs;
-            const int end_ch_ = is_positive ? (int) maxs : (int) mins;
+            const int start_ch_ = is_positive ? mins : maxs;
+            const int end_ch_ = is_positive ? maxs : mins;
             start_chs_out_(i) = MAX(start_chs_in_(i), start_ch_);
             end_chs_out_(i) = MIN(end_chs_in_(i), end_ch_);
         }
@@ -127,16 +128,13 @@ void clamp_channels_uv(
 
         const double v0 = uvws_(i, 1) * (freq0_hz / C_0);
         const double dv = uvws_(i, 1) * (dfreq_hz / C_0);
-        const double rel_min_v = fabs(min_v - v0);
-        const double rel_max_v = fabs(max_v - v0);
-        const double eta_v = MAX(rel_min_v, rel_max_v) / 2147483645.0;
-        if (fabs(dv) > eta_v) // Use a safe value for eta.
+        if (dv != 0.0)
         {
-            const int64_t mins = (int64_t) (ceil((min_v - v0) / dv));
-            const int64_t maxs = (int64_t) (ceil((max_v - v0) / dv));
+            const int mins = ceil_to_channel((min_v - v0) / dv);
+            const int maxs = ceil_to_channel((max_v - v0) / dv);
             const int is_positive = dv > 0;
-            const int start_ch_ = is_positive ? (int) mins : (int) maxs;
-            const int end_ch_ = is_positive ? (int) maxs : (int) mins;
+            const int start_ch_ = is_positive ? mins : maxs;
+            const int end_ch_ = is_positive ? maxs : mins;
             start_chs_out_(i) = MAX(start_chs_out_(i), start_ch_);
             end_chs_out_(i) = MIN(end_chs_out_(i), end_ch_);
         }
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
index 76fc2ad..0edef31 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h
@@ -127,29 +127,34 @@ void sdp_gridder_clamp_channels_inline(
     const double u0 = freq0_hz * u / C_0;
     const double du = dfreq_hz * u / C_0;
 
-    // We want to calculate (min_u - u0) / du and (max_u - u0) / du
-    // but that has a chance of overflowing integers. So here we
-    // "smartly" calculate lower bounds for du to make this safe.
-    const double min_u_rel = fabs(min_u - u0);
-    const double max_u_rel = fabs(max_u - u0);
-    const double eta = MAX(min_u_rel, max_u_rel) / 2147483645.0;
+    // Values of (min_u - u0) / du and (max_u - u0) / du could overflow
+    // integers if du is small, so limit them before they are converted.
+    const double limit = 2147483645.0;
 
     // Note the symmetry below: we get precisely the same expression
     // for maximum and minimum, however start_ch is inclusive but
     // end_ch is exclusive. This means that two calls to
     // clamp_channels where any min_uvw is equal to any max_uvw will
     // never return overlapping channel ranges.
-    if (du > eta)
+    if (du > 0.0)
     {
-        const int64_t start_ch_ = int64_t(ceil((min_u - u0) / du));
-        const int64_t end_ch_ = int64_t(ceil((max_u - u0) / du));
+        const int64_t start_ch_ = int64_t(
+                ceil(MAX(-limit, MIN((min_u - u0) / du, limit)))
+        );
+        const int64_t end_ch_ = int64_t(
+                ceil(MAX(-limit, MIN((max_u - u0) / du, limit)))
+        );
         *start_ch = MAX(*start_ch, start_ch_);
         *end_ch = MIN(*end_ch, end_ch_);
     }
-    else if (du < -eta)
+    else if (du < 0.0)
     {
-        const int64_t start_ch_ = int64_t(ceil((max_u - u0) / du));
-        const int64_t end_ch_ = int64_t(ceil((min_u - u0) / du));
+        const int64_t start_ch_ = int64_t(
+                ceil(MAX(-limit, MIN((max_u - u0) / du, limit)))
+        );
+        const int64_t end_ch_ = int64_t(
+                ceil(MAX(-limit, MIN((min_u - u0) / du, limit)))
+        );
         *start_ch = MAX(*start_ch, start_ch_);
         *end_ch = MIN(*end_ch, end_ch_);
     }
-- 
2.43.0


From efd2a42c567d81fd30841a9c1d180063868742e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 24/88] fix: w-towers bounds check uses the footprint of each
 visibility

The check on the first and last channel of a row assumed they are in
ascending order, and did not allow for the size of the kernel, so rows with
negative coordinates or near the edge could go outside the sub-grid.
---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 50 +++++++++----------
 .../grid_data/sdp_gridder_wtower_uvw.cu       | 50 +++++++++----------
 2 files changed, 48 insertions(+), 52 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 26cee24..8c18d8f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -81,6 +81,7 @@ void degrid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const double max_sg_ov = (plan->subgrid_size - support + 1) * oversample;
 
     // Loop over rows. Each row contains visibilities for all channels.
     #pragma omp parallel for schedule(dynamic, 500)
@@ -109,17 +110,6 @@ void degrid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
-        {
-            continue;
-        }
-
         // Loop over selected channels.
         for (int64_t c = start_ch; c < end_ch; c++)
         {
@@ -127,11 +117,20 @@ void degrid(
             const double v = uvw0[1] + c * duvw[1];
             const double w = uvw0[2] + c * duvw[2];
 
+            // Bounds check: skip visibility if the kernel does not fit.
+            const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+            const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+            if (!(u_ov >= 0.0 && u_ov < max_sg_ov &&
+                    v_ov >= 0.0 && v_ov < max_sg_ov))
+            {
+                continue;
+            }
+
             // Determine top-left corner of grid region centred approximately
             // on visibility in oversampled coordinates (this is subgrid-local,
             // so should be safe for overflows).
-            const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-            const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+            const int iu0_ov = int(u_ov);
+            const int iv0_ov = int(v_ov);
             const int iw0_ov = int(round(w * w_step_ov));
             const int iu0 = iu0_ov / oversample;
             const int iv0 = iv0_ov / oversample;
@@ -388,6 +387,7 @@ void grid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
+    const double max_sg_ov = (plan->subgrid_size - support + 1) * oversample;
 
     // Loop over rows. Each row contains visibilities for all channels.
     for (int64_t i_row = start_row; i_row < end_row; ++i_row)
@@ -415,17 +415,6 @@ void grid(
         uvw0[1] -= subgrid_offset_v / theta;
         uvw0[2] -= ((subgrid_offset_w + w_plane - 1) * w_step);
 
-        // Bounds check.
-        const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-        const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-        const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-        const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-        if (u_min < -half_subgrid || u_max >= half_subgrid ||
-                v_min < -half_subgrid || v_max >= half_subgrid)
-        {
-            continue;
-        }
-
         // Loop over selected channels.
         for (int64_t c = start_ch; c < end_ch; c++)
         {
@@ -433,11 +422,20 @@ void grid(
             const double v = uvw0[1] + c * duvw[1];
             const double w = uvw0[2] + c * duvw[2];
 
+            // Bounds check: skip visibility if the kernel does not fit.
+            const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+            const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+            if (!(u_ov >= 0.0 && u_ov < max_sg_ov &&
+                    v_ov >= 0.0 && v_ov < max_sg_ov))
+            {
+                continue;
+            }
+
             // Determine top-left corner of grid region centred approximately
             // on visibility in oversampled coordinates (this is subgrid-local,
             // so should be safe for overflows).
-            const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-            const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+            const int iu0_ov = int(u_ov);
+            const int iv0_ov = int(v_ov);
             const int iw0_ov = int(round(w * w_step_ov));
             const int iu0 = iu0_ov / oversample;
             const int iv0 = iv0_ov / oversample;
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
index 985b9bb..6e5a5e2 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cu
@@ -67,17 +67,7 @@ __global__ void sdp_gridder_wtower_degrid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
-
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
-    {
-        return;
-    }
+    const double max_sg_ov = (subgrid_size - support + 1) * oversample;
 
     // Loop over selected channels.
     for (int64_t c = start_ch; c < end_ch; c++)
@@ -86,11 +76,20 @@ __global__ void sdp_gridder_wtower_degrid(
         const double v = uvw0[1] + c * duvw[1];
         const double w = uvw0[2] + c * duvw[2];
 
+        // Bounds check: skip visibility if the kernel does not fit.
+        const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+        const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+        if (!(u_ov >= 0.0 && u_ov < max_sg_ov &&
+                v_ov >= 0.0 && v_ov < max_sg_ov))
+        {
+            continue;
+        }
+
         // Determine top-left corner of grid region centred approximately
         // on visibility in oversampled coordinates (this is subgrid-local,
         // so should be safe for overflows).
-        const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-        const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+        const int iu0_ov = int(u_ov);
+        const int iv0_ov = int(v_ov);
         const int iw0_ov = int(round(w * w_step_ov));
         const int iu0 = iu0_ov / oversample;
         const int iv0 = iv0_ov / oversample;
@@ -182,17 +181,7 @@ __global__ void sdp_gridder_wtower_grid(
     const double theta_ov = theta * oversample;
     const double w_step_ov = 1.0 / w_step * w_oversample;
     const int half_sg_size_ov = (half_subgrid - support / 2 + 1) * oversample;
-
-    // Bounds check.
-    const double u_min = floor(theta * (uvw0[0] + start_ch * duvw[0]));
-    const double u_max = ceil(theta * (uvw0[0] + (end_ch - 1) * duvw[0]));
-    const double v_min = floor(theta * (uvw0[1] + start_ch * duvw[1]));
-    const double v_max = ceil(theta * (uvw0[1] + (end_ch - 1) * duvw[1]));
-    if (u_min < -half_subgrid || u_max >= half_subgrid ||
-            v_min < -half_subgrid || v_max >= half_subgrid)
-    {
-        return;
-    }
+    const double max_sg_ov = (subgrid_size - support + 1) * oversample;
 
     // Loop over selected channels.
     for (int64_t c = start_ch; c < end_ch; c++)
@@ -201,11 +190,20 @@ __global__ void sdp_gridder_wtower_grid(
         const double v = uvw0[1] + c * duvw[1];
         const double w = uvw0[2] + c * duvw[2];
 
+        // Bounds check: skip visibility if the kernel does not fit.
+        const double u_ov = round(u * theta_ov) + half_sg_size_ov;
+        const double v_ov = round(v * theta_ov) + half_sg_size_ov;
+        if (!(u_ov >= 0.0 && u_ov < max_sg_ov &&
+                v_ov >= 0.0 && v_ov < max_sg_ov))
+        {
+            continue;
+        }
+
         // Determine top-left corner of grid region centred approximately
         // on visibility in oversampled coordinates (this is subgrid-local,
         // so should be safe for overflows).
-        const int iu0_ov = int(round(u * theta_ov)) + half_sg_size_ov;
-        const int iv0_ov = int(round(v * theta_ov)) + half_sg_size_ov;
+        const int iu0_ov = int(u_ov);
+        const int iv0_ov = int(v_ov);
         const int iw0_ov = int(round(w * w_step_ov));
         const int iu0 = iu0_ov / oversample;
         const int iv0 = iv0_ov / oversample;
-- 
2.43.0


From 706e940b6a0183bb6a02e9277d94c30edded8195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:50 +0000
Subject: [PATCH 25/88] fix: w-towers with no visibilities (range of w-planes
 is empty, not infinite)

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index 8c18d8f..c5e282e 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -780,6 +780,8 @@ void sdp_gridder_wtower_uvw_degrid(
     sdp_gridder_uvw_bounds_all(
             uvws, freq0_hz, dfreq_hz, start_chs, end_chs, c_min, c_max, status
     );
+    if (*status) return;
+    if (c_min[2] > c_max[2]) return; // There are no visibilities to use.
 
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
@@ -989,6 +991,8 @@ void sdp_gridder_wtower_uvw_grid(
     sdp_gridder_uvw_bounds_all(
             uvws, freq0_hz, dfreq_hz, start_chs, end_chs, c_min, c_max, status
     );
+    if (*status) return;
+    if (c_min[2] > c_max[2]) return; // There are no visibilities to use.
 
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
-- 
2.43.0


From f0aad60551b0959ee21ebe99b3b38e98b6e69369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 26/88] fix: weighting ignores visibilities below the grid as
 it does those above it

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 18 ++++++++++++++----
 src/ska-sdp-func/visibility/sdp_weighting.cu  | 12 ++++++++----
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index c8e4788..ca2f256 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -50,7 +50,11 @@ static void weights_grid_write(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size)
+                {
+                    continue;
+                }
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -110,7 +114,11 @@ static void sum_weights_calc(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u >= grid_size || idx_v >= grid_size) continue;
+                if (idx_u < 0 || idx_u >= grid_size ||
+                        idx_v < 0 || idx_v >= grid_size)
+                {
+                    continue;
+                }
                 const int64_t i_pol_s = INDEX_3D(
                         grid_size,
                         grid_size,
@@ -181,7 +189,8 @@ static void uniform_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
@@ -245,7 +254,8 @@ static void briggs_weights_grid_read(
                 const int64_t idx_v =
                         (int64_t) (floor(grid_v / max_abs_uv * half_grid_size) +
                         half_grid_size);
-                if (idx_u < grid_size && idx_v < grid_size)
+                if (idx_u >= 0 && idx_u < grid_size &&
+                        idx_v >= 0 && idx_v < grid_size)
                 {
                     const int64_t i_pol_s = INDEX_3D(
                             grid_size,
diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cu b/src/ska-sdp-func/visibility/sdp_weighting.cu
index 9f529ad..9e7cb99 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cu
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cu
@@ -57,7 +57,8 @@ __global__ void grid_write_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -138,7 +139,8 @@ __global__ void calc_sum_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -207,7 +209,8 @@ __global__ void grid_briggs_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
@@ -282,7 +285,8 @@ __global__ void grid_uniform_read_gpu(
     const int idx_v =
             (int)(floor(grid_v / max_abs_uv * half_grid_size) + half_grid_size);
 
-    if (idx_u < grid_size && idx_v < grid_size)
+    if (idx_u >= 0 && idx_u < grid_size &&
+            idx_v >= 0 && idx_v < grid_size)
     {
         const int i_pol_s = INDEX_3D(grid_size,
                 grid_size,
-- 
2.43.0


From f0352e49f4b00c923623f12654105c4348e3df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 27/88] fix: weighting checks the shapes, types and layout of
 all its arrays

---
 src/ska-sdp-func/visibility/sdp_weighting.cpp | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_weighting.cpp b/src/ska-sdp-func/visibility/sdp_weighting.cpp
index ca2f256..cd73371 100644
--- a/src/ska-sdp-func/visibility/sdp_weighting.cpp
+++ b/src/ska-sdp-func/visibility/sdp_weighting.cpp
@@ -343,6 +343,21 @@ void sdp_weighting_uniform(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_num_dims(freq_hz, 1, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
+    sdp_mem_check_c_contiguity(output_weight, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
@@ -575,6 +590,21 @@ void sdp_weighting_briggs(
     int64_t grid_size = sdp_mem_shape_dim(weights_grid_uv, 0);
     // Checking that grid is square
     sdp_mem_check_dim_size(weights_grid_uv, 1, grid_size, status);
+    sdp_mem_check_dim_size(weights_grid_uv, 2, num_pols, status);
+    sdp_mem_check_num_dims(freq_hz, 1, status);
+    sdp_mem_check_dim_size(freq_hz, 0, num_channels, status);
+    sdp_data_model_check_weights(input_weight,
+            weights_type,
+            weights_location,
+            num_times,
+            num_baselines,
+            num_channels,
+            num_pols,
+            status
+    );
+    sdp_mem_check_c_contiguity(output_weight, status);
+    sdp_mem_check_c_contiguity(weights_grid_uv, status);
+    sdp_mem_check_c_contiguity(freq_hz, status);
     if (*status) return;
 
     // Call the appropriate version of the kernel.
-- 
2.43.0


From 2d7adfea5b8e6d0cd9c4014fb45388f98be8ec7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 28/88] fix: flagger takes the median of an odd number of
 values from their middle (read beyond the end for one value)

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 6668977..d37fa29 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -82,7 +82,7 @@ static void filler(AA* arr, VL val, int length)
 
 static double median_calc(double* arr, int n)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double median = arr[mid];
     return median;
 }
@@ -90,7 +90,7 @@ static double median_calc(double* arr, int n)
 
 static double median_dev_calc(double* arr, int n, double median)
 {
-    int mid = int(round(0.5 * n));
+    int mid = n / 2;
     double* devs = new double[n];
     for (int i = 0; i < n; i++)
     {
-- 
2.43.0


From c88b6eca1207c838627c7f69ec62ad3f8a1a74c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 29/88] fix: flagger extends flags down to channel zero

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index d37fa29..5b2aad4 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -229,7 +229,7 @@ static void flagger_dynamic_threshold(
                             {
                                 for (int w = 0; w < window; w++)
                                 {
-                                    if (c - w - 1 > 0)
+                                    if (c - w - 1 >= 0)
                                     {
                                         pos = baseline_pos + (c - w - 1) *
                                                 num_pols + p;
@@ -314,7 +314,7 @@ static void flagger_dynamic_threshold(
                                 {
                                     for (int w = 0; w < window; w++)
                                     {
-                                        if (c - w - 1 > 0)
+                                        if (c - w - 1 >= 0)
                                         {
                                             pos = baseline_pos + (c - w - 1) *
                                                     num_pols + p;
-- 
2.43.0


From 0cc21eec3c22ffe33b0b699a90bf1be132eb62a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 30/88] fix: flagger refuses flags of another shape and
 parameters it cannot use

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 5b2aad4..d04c453 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -47,6 +47,12 @@ static void check_params_dynamic(
         return;
     }
 
+    for (int i = 0; i < 4; ++i)
+    {
+        sdp_mem_check_dim_size(flags, i, sdp_mem_shape_dim(vis, i), status);
+    }
+    if (*status) return;
+
     if (sdp_mem_location(vis) != sdp_mem_location(flags))
     {
         *status = SDP_ERR_MEM_LOCATION;
@@ -371,6 +377,16 @@ void sdp_flagger_dynamic_threshold(
     const int num_channels      = (int) sdp_mem_shape_dim(vis, 2);
     const int num_pols   = (int) sdp_mem_shape_dim(vis, 3);
 
+    if (sampling_step < 1 || sampling_step > num_channels ||
+            window_median_history < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The sampling step must be at least 1 and at most the "
+                "number of channels, and the median history at least 1."
+        );
+        return;
+    }
+
     if (sdp_mem_location(vis) == SDP_MEM_CPU)
     {
         if (sdp_mem_type(vis) == SDP_MEM_COMPLEX_FLOAT &&
-- 
2.43.0


From d5d16e1ac64b06a7ef61d096ffd8490aa37dfcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 31/88] fix: phase rotation refuses arrays which are not C
 contiguous (they were taken to be)

---
 src/ska-sdp-func/visibility/sdp_phase_rotate.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
index 9803612..dcb3dbd 100644
--- a/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
+++ b/src/ska-sdp-func/visibility/sdp_phase_rotate.cpp
@@ -107,6 +107,7 @@ void sdp_phase_rotate_uvw(
             &num_baselines,
             status
     );
+    sdp_mem_check_c_contiguity(uvw_in, status);
     sdp_data_model_check_uvw(
             uvw_out,
             uvw_type,
@@ -234,6 +235,7 @@ void sdp_phase_rotate_vis(
             &num_pols,
             status
     );
+    sdp_mem_check_c_contiguity(vis_out, status);
     sdp_data_model_check_vis(
             vis_in,
             vis_out_type,
-- 
2.43.0


From aebbdc5a3ef2ef50fd633be261e4be38469d7d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 32/88] fix: DFT refuses source directions which are not
 two-dimensional

---
 src/ska-sdp-func/visibility/sdp_dft.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/visibility/sdp_dft.cpp b/src/ska-sdp-func/visibility/sdp_dft.cpp
index 4f0876c..f70886c 100644
--- a/src/ska-sdp-func/visibility/sdp_dft.cpp
+++ b/src/ska-sdp-func/visibility/sdp_dft.cpp
@@ -380,6 +380,7 @@ static void check_params_v01(
     sdp_mem_check_location(source_directions, vis_location, status);
     sdp_mem_check_c_contiguity(source_directions, status);
     const int64_t num_components = sdp_mem_shape_dim(source_directions, 0);
+    sdp_mem_check_num_dims(source_directions, 2, status);
     sdp_mem_check_dim_size(source_directions, 1, 3, status);
 
     // Check metadata for source fluxes.
-- 
2.43.0


From 4ad6e4fa745b3b84b56120ee6f64fc24a029d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 33/88] fix: tiled functions start at the first tile in u of
 each visibility (all tiles from the first one were used)

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 26629dc..aa3875d 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -82,7 +82,7 @@ static void sdp_tile_count_simple(
                     int tile_v_max = 0;
 
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -187,7 +187,7 @@ static void sdp_bucket_sort_simple(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
@@ -274,7 +274,7 @@ static void tiled_indexing(
                     int tile_v_min = 0;
                     int tile_v_max = 0;
                     TILE_RANGES(support,
-                            tile_v_min,
+                            tile_u_min,
                             tile_u_max,
                             tile_v_min,
                             tile_v_max
-- 
2.43.0


From c9676697d3c84ada4a399413256549abc4387acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 34/88] fix: tile counting checks its status and arguments
 before using them

---
 .../visibility/sdp_tiled_functions.cpp        | 67 +++++++++++++++++--
 1 file changed, 63 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index aa3875d..bcb1451 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -299,6 +299,46 @@ static void tiled_indexing(
 }
 
 
+// Check that the tile parameters can be used.
+static void check_tile_params(
+        const int grid_size,
+        const int64_t tile_size_u,
+        const int64_t tile_size_v,
+        const int64_t support,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    if (grid_size < 1 || tile_size_u < 1 || tile_size_v < 1 || support < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Grid and tile sizes must be positive");
+    }
+}
+
+
+// Check that an array is one-dimensional, writeable and large enough.
+static void check_array(
+        sdp_Mem* mem,
+        const sdp_MemType type,
+        const sdp_MemLocation location,
+        const int64_t min_size,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_writeable(mem, status);
+    sdp_mem_check_type(mem, type, status);
+    sdp_mem_check_location(mem, location, status);
+    sdp_mem_check_num_dims(mem, 1, status);
+    sdp_mem_check_c_contiguity(mem, status);
+    if (!*status && sdp_mem_shape_dim(mem, 0) < min_size)
+    {
+        *status = SDP_ERR_RUNTIME;
+        SDP_LOG_ERROR("Array is too small");
+    }
+}
+
+
 void sdp_count_and_prefix_sum(
         const sdp_Mem* uvw,
         const sdp_Mem* freqs,
@@ -315,10 +355,8 @@ void sdp_count_and_prefix_sum(
         sdp_Error* status
 )
 {
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(tile_offsets, status);
-    sdp_mem_clear_contents(num_points_in_tiles, status);
-    sdp_mem_clear_contents(num_skipped, status);
+    check_tile_params(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -361,6 +399,27 @@ void sdp_count_and_prefix_sum(
             num_baselines,
             status
     );
+    sdp_mem_check_num_dims(freqs, 1, status);
+    sdp_mem_check_dim_size(freqs, 0, num_channels, status);
+    sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    check_array(tile_offsets, SDP_MEM_INT, vis_location, num_tiles + 1, status);
+    check_array(num_points_in_tiles, SDP_MEM_INT, vis_location, num_tiles,
+            status
+    );
+    check_array(num_skipped, SDP_MEM_INT, vis_location, 1, status);
+    if (!*status && vis_location == SDP_MEM_CPU &&
+            (uvw_type != SDP_MEM_DOUBLE || freq_type != SDP_MEM_DOUBLE))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type(s)");
+    }
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(tile_offsets, status);
+    sdp_mem_clear_contents(num_points_in_tiles, status);
+    sdp_mem_clear_contents(num_skipped, status);
 
     if (vis_location == SDP_MEM_CPU)
     {
-- 
2.43.0


From 02a2838b1dbb94b70b404d94981c08d82ea6cd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 35/88] fix: bucket sort copies complex visibilities (they were
 taken as real) and checks its arguments

---
 .../visibility/sdp_tiled_functions.cpp        | 60 +++++++++++++++----
 1 file changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index bcb1451..6f4edbd 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -569,12 +569,8 @@ void sdp_bucket_sort(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_uu, status);
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_weight, status);
-    sdp_mem_clear_contents(sorted_vis, status);
+    check_tile_params(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation vis_location = sdp_mem_location(vis);
     sdp_MemType vis_type = sdp_mem_type(vis);
@@ -629,6 +625,46 @@ void sdp_bucket_sort(
             num_pols,
             status
     );
+    sdp_mem_check_num_dims(freqs, 1, status);
+    sdp_mem_check_dim_size(freqs, 0, num_channels, status);
+    sdp_mem_check_location(freqs, vis_location, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    check_array(tile_offsets, SDP_MEM_INT, vis_location, num_tiles + 1, status);
+    if (num_pols != 1 && !*status)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Only one polarisation is supported");
+    }
+    if (!*status && vis_location == SDP_MEM_CPU)
+    {
+        const int64_t total =
+                ((const int*) sdp_mem_data_const(tile_offsets))[num_tiles];
+        check_array(sorted_uu, uvw_type, vis_location, total, status);
+        check_array(sorted_vv, uvw_type, vis_location, total, status);
+        check_array(sorted_weight, weight_type, vis_location, total, status);
+        check_array(sorted_tile, SDP_MEM_INT, vis_location, total, status);
+        check_array(sorted_vis, vis_type, vis_location, total, status);
+        if (!*status && !(uvw_type == SDP_MEM_DOUBLE &&
+                weight_type == SDP_MEM_DOUBLE &&
+                freq_type == SDP_MEM_DOUBLE &&
+                vis_type == SDP_MEM_COMPLEX_DOUBLE) &&
+                !(uvw_type == SDP_MEM_FLOAT &&
+                weight_type == SDP_MEM_FLOAT &&
+                freq_type == SDP_MEM_FLOAT &&
+                vis_type == SDP_MEM_COMPLEX_FLOAT))
+        {
+            *status = SDP_ERR_DATA_TYPE;
+            SDP_LOG_ERROR("Unsupported data type(s)");
+        }
+    }
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_uu, status);
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_weight, status);
+    sdp_mem_clear_contents(sorted_vis, status);
 
     if (vis_location == SDP_MEM_CPU)
     {
@@ -636,7 +672,7 @@ void sdp_bucket_sort(
                 weight_type == SDP_MEM_DOUBLE &&
                 freq_type == SDP_MEM_DOUBLE)
         {
-            sdp_bucket_sort_simple<double, double, double, double>(
+            sdp_bucket_sort_simple<double, double, std::complex<double>, double>(
                     support,
                     num_times,
                     num_baselines,
@@ -646,7 +682,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const double*) sdp_mem_data_const(uvw),
                     (const double*)sdp_mem_data_const(freqs),
-                    (const double*)sdp_mem_data_const(vis),
+                    (const std::complex<double>*)sdp_mem_data_const(vis),
                     (const double*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -654,7 +690,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (double*)sdp_mem_data(sorted_uu),
                     (double*)sdp_mem_data(sorted_vv),
-                    (double*)sdp_mem_data(sorted_vis),
+                    (std::complex<double>*)sdp_mem_data(sorted_vis),
                     (double*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -664,7 +700,7 @@ void sdp_bucket_sort(
                 weight_type == SDP_MEM_FLOAT &&
                 freq_type == SDP_MEM_FLOAT)
         {
-            sdp_bucket_sort_simple<float, float, float, float>(
+            sdp_bucket_sort_simple<float, float, std::complex<float>, float>(
                     support,
                     num_times,
                     num_baselines,
@@ -674,7 +710,7 @@ void sdp_bucket_sort(
                     inv_tile_size_v,
                     (const float*) sdp_mem_data_const(uvw),
                     (const float*)sdp_mem_data_const(freqs),
-                    (const float*)sdp_mem_data_const(vis),
+                    (const std::complex<float>*)sdp_mem_data_const(vis),
                     (const float*)sdp_mem_data_const(weights),
                     num_tiles_u,
                     top_left_u,
@@ -682,7 +718,7 @@ void sdp_bucket_sort(
                     (int*)sdp_mem_data(tile_offsets),
                     (float*)sdp_mem_data(sorted_uu),
                     (float*)sdp_mem_data(sorted_vv),
-                    (float*)sdp_mem_data(sorted_vis),
+                    (std::complex<float>*)sdp_mem_data(sorted_vis),
                     (float*)sdp_mem_data(sorted_weight),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From 47a7669960de0982e8e6aa41955cd53b3174dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 36/88] fix: tiled indexing checks its arguments before using
 them

---
 .../visibility/sdp_tiled_functions.cpp        | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 6f4edbd..f9db5cc 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -824,11 +824,8 @@ void sdp_tiled_indexing(
 )
 {
     if (*status) return;
-    // Initialise arrays to zero
-    sdp_mem_clear_contents(sorted_tile, status);
-    sdp_mem_clear_contents(sorted_vis_index, status);
-    sdp_mem_clear_contents(sorted_vv, status);
-    sdp_mem_clear_contents(sorted_uu, status);
+    check_tile_params(grid_size, tile_size_u, tile_size_v, support, status);
+    if (*status) return;
 
     sdp_MemLocation uvw_loc = sdp_mem_location(uvw);
     sdp_MemType uvw_type = sdp_mem_type(uvw);
@@ -841,6 +838,8 @@ void sdp_tiled_indexing(
     const float inv_tile_size_u = 1.0 / tile_size_u;
     const float inv_tile_size_v = 1.0 / tile_size_v;
     int64_t num_tiles_u = (grid_size + tile_size_u - 1) / tile_size_u;
+    int64_t num_tiles_v = (grid_size + tile_size_v - 1) / tile_size_v;
+    int64_t num_tiles = num_tiles_u * num_tiles_v;
     int64_t top_left_u = grid_centre - ctile_u * tile_size_u - tile_size_u / 2;
     int64_t top_left_v = grid_centre - ctile_v * tile_size_v - tile_size_v / 2;
 
@@ -853,6 +852,31 @@ void sdp_tiled_indexing(
             num_baselines,
             status
     );
+    sdp_mem_check_num_dims(freqs, 1, status);
+    sdp_mem_check_dim_size(freqs, 0, num_channels, status);
+    sdp_mem_check_location(freqs, uvw_loc, status);
+    sdp_mem_check_c_contiguity(freqs, status);
+    check_array(tile_offsets, SDP_MEM_INT, uvw_loc, num_tiles + 1, status);
+    if (!*status && uvw_loc == SDP_MEM_CPU)
+    {
+        const int64_t total =
+                ((const int*) sdp_mem_data_const(tile_offsets))[num_tiles];
+        check_array(sorted_tile, SDP_MEM_INT, uvw_loc, total, status);
+        check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, total, status);
+        if (!*status && !(uvw_type == freq_type &&
+                (uvw_type == SDP_MEM_DOUBLE || uvw_type == SDP_MEM_FLOAT)))
+        {
+            *status = SDP_ERR_DATA_TYPE;
+            SDP_LOG_ERROR("Unsupported data type(s)");
+        }
+    }
+    if (*status) return;
+
+    // Initialise arrays to zero
+    sdp_mem_clear_contents(sorted_tile, status);
+    sdp_mem_clear_contents(sorted_vis_index, status);
+    sdp_mem_clear_contents(sorted_vv, status);
+    sdp_mem_clear_contents(sorted_uu, status);
 
     if (uvw_loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From 2c96f167329441935d5ecd9be0b4429f8d576dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 37/88] fix: tiled indexing fills the sorted coordinates on the
 CPU as it does on the GPU

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index f9db5cc..851b686 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -230,6 +230,8 @@ static void tiled_indexing(
         const int64_t top_left_u,
         const int64_t top_left_v,
         int* tile_offsets,
+        UVW_TYPE* sorted_uu,
+        UVW_TYPE* sorted_vv,
         int* sorted_vis_index,
         int* sorted_tile,
         const double cell_size_rad
@@ -285,6 +287,8 @@ static void tiled_indexing(
                         {
                             int off = tile_offsets[pu + pv * num_tiles_u];
                             tile_offsets[pu + pv * num_tiles_u] += 1;
+                            sorted_uu[off] = pos_u;
+                            sorted_vv[off] = pos_v;
                             for (int i = 0; i < num_pol; i++)
                             {
                                 sorted_vis_index[off] = i_vis + i;
@@ -862,6 +866,8 @@ void sdp_tiled_indexing(
         const int64_t total =
                 ((const int*) sdp_mem_data_const(tile_offsets))[num_tiles];
         check_array(sorted_tile, SDP_MEM_INT, uvw_loc, total, status);
+        check_array(sorted_uu, uvw_type, uvw_loc, total, status);
+        check_array(sorted_vv, uvw_type, uvw_loc, total, status);
         check_array(sorted_vis_index, SDP_MEM_INT, uvw_loc, total, status);
         if (!*status && !(uvw_type == freq_type &&
                 (uvw_type == SDP_MEM_DOUBLE || uvw_type == SDP_MEM_FLOAT)))
@@ -897,6 +903,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (double*)sdp_mem_data(sorted_uu),
+                    (double*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
@@ -919,6 +927,8 @@ void sdp_tiled_indexing(
                     top_left_u,
                     top_left_v,
                     (int*)sdp_mem_data(tile_offsets),
+                    (float*)sdp_mem_data(sorted_uu),
+                    (float*)sdp_mem_data(sorted_vv),
                     (int*)sdp_mem_data(sorted_vis_index),
                     (int*)sdp_mem_data(sorted_tile),
                     cell_size_rad
-- 
2.43.0


From cda9f55bdeb391806a9b833e309a8e89620869fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 38/88] fix: custom degridding centres the v axis of a grid
 which is not square

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 8 +++++---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 2a25e3d..b3b0f86 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -20,7 +20,8 @@ using std::complex;
 
 
 static inline void calculate_coordinates(
-        int64_t grid_size, // dimension of the image's subgrid grid_size x grid_size x 4?
+        int64_t grid_size_x, // dimensions of the image's subgrid
+        int64_t grid_size_y,
         int kernel_stride, // padding of the gcf kernel
         int oversample, // oversampling of the uv kernel
         int wkernel_stride, // padding of the gcf w kernel
@@ -39,13 +40,13 @@ static inline void calculate_coordinates(
 {
     // u or x coordinate
     const double ox = theta * u * oversample;
-    const int iox = (int)round(ox) + (grid_size / 2 + 1) * oversample - 1;
+    const int iox = (int)round(ox) + (grid_size_x / 2 + 1) * oversample - 1;
     const int home_x = iox / oversample;
     const int frac_x = oversample - 1 - (iox % oversample);
 
     // v or y coordinate
     const double oy = theta * v * oversample;
-    const int ioy = (int)round(oy) + (grid_size / 2 + 1) * oversample - 1;
+    const int ioy = (int)round(oy) + (grid_size_y / 2 + 1) * oversample - 1;
     const int home_y = ioy / oversample;
     const int frac_y = oversample - 1 - (ioy % oversample);
 
@@ -110,6 +111,7 @@ static void degrid_uvw_custom(
                 int grid_coord_x = 0, grid_coord_y = 0;
                 calculate_coordinates(
                         x_size,
+                        y_size,
                         uv_kernel_size,
                         uv_kernel_oversampling,
                         w_kernel_size,
diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
index 0d14a40..ef78904 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
@@ -12,7 +12,8 @@
 
 
 __device__ __inline__ void calculate_coordinates(
-        int64_t grid_size, // dimension of the image's subgrid grid_size x grid_size x 4?
+        int64_t grid_size_x, // dimensions of the image's subgrid
+        int64_t grid_size_y,
         int kernel_stride, // padding of the gcf kernel
         int oversample, // oversampling of the uv kernel
         int wkernel_stride, // padding of the gcf w kernel
@@ -32,14 +33,14 @@ __device__ __inline__ void calculate_coordinates(
     // u or x coordinate
     const double ox = theta * u * oversample;
     int iox = __double2int_rn(ox); // round to nearest
-    iox += (grid_size / 2 + 1) * oversample - 1;
+    iox += (grid_size_x / 2 + 1) * oversample - 1;
     const int home_x = iox / oversample;
     const int frac_x = oversample - 1 - (iox % oversample);
 
     // v or y coordinate
     const double oy = theta * v * oversample;
     int ioy = __double2int_rn(oy);
-    ioy += (grid_size / 2 + 1) * oversample - 1;
+    ioy += (grid_size_y / 2 + 1) * oversample - 1;
     const int home_y = ioy / oversample;
     const int frac_y = oversample - 1 - (ioy % oversample);
 
@@ -107,6 +108,7 @@ __global__ void degrid_uvw_custom(
     int grid_coord_x = 0, grid_coord_y = 0;
     calculate_coordinates(
             x_size,
+            y_size,
             uv_kernel_size,
             uv_kernel_oversampling,
             w_kernel_size,
-- 
2.43.0


From d86b701eac880069b482ec03c6d04a22b569fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 39/88] fix: custom degridding stays within the w kernel for
 large negative w

---
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp | 4 +++-
 src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index b3b0f86..8313f71 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -53,7 +53,9 @@ static inline void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = (int)round(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    const int rem_z = ioz % oversample_w; // (Negative if ioz is negative.)
+    const int frac_z = oversample_w - 1 -
+            (rem_z < 0 ? rem_z + oversample_w : rem_z);
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
index ef78904..2509088 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cu
@@ -47,7 +47,9 @@ __device__ __inline__ void calculate_coordinates(
     // w or z coordinate
     const double oz = (1.0 + w / wstep) * oversample_w;
     const int ioz = __double2int_rn(oz) + oversample_w - 1;
-    const int frac_z = oversample_w - 1 - (ioz % oversample_w);
+    const int rem_z = ioz % oversample_w; // (Negative if ioz is negative.)
+    const int frac_z = oversample_w - 1 -
+            (rem_z < 0 ? rem_z + oversample_w : rem_z);
 
     *sub_offset_x = kernel_stride * frac_x;
     *sub_offset_y = kernel_stride * frac_y;
-- 
2.43.0


From 43c754999a357cad8ffe92cc67d9f5bc93b5ea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 40/88] fix: custom degridding checks its kernels and the
 layout of its arrays

---
 .../grid_data/sdp_degrid_uvw_custom.cpp            | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
index 8313f71..9427c74 100644
--- a/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_degrid_uvw_custom.cpp
@@ -234,8 +234,22 @@ void sdp_degrid_uvw_custom(
         num_channels, z_size, y_size, x_size, num_pols
     };
     sdp_mem_check_shape(grid, 5, expected_grid_shape, status);
+    sdp_mem_check_num_dims(uv_kernel, 2, status);
+    sdp_mem_check_num_dims(w_kernel, 2, status);
+    sdp_mem_check_c_contiguity(grid, status);
+    sdp_mem_check_c_contiguity(uv_kernel, status);
+    sdp_mem_check_c_contiguity(w_kernel, status);
+    sdp_mem_check_c_contiguity(vis, status);
     if (*status) return;
 
+    if (uv_kernel_oversampling < 1 || w_kernel_oversampling < 1 ||
+            w_kernel_size > z_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Kernels must not be empty, or larger than the grid");
+        return;
+    }
+
     if (sdp_mem_location(grid) != vis_location ||
             sdp_mem_location(uv_kernel) != vis_location ||
             sdp_mem_location(w_kernel) != vis_location)
-- 
2.43.0


From e28d4b8c5f1148456f0506d6487351bc505ab6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 41/88] fix: element beams check the types, sizes and layout of
 their arrays

---
 .../station_beam/sdp_element_dipole.cpp       | 23 ++++++++++++++++
 .../sdp_element_spherical_wave_harp.cpp       | 26 +++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
index d394a1c..611da57 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_dipole.cpp
@@ -131,6 +131,29 @@ void sdp_element_beam_dipole(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType precision =
+            sdp_mem_is_double(element_beam) ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    sdp_mem_check_type(theta_rad, precision, status);
+    sdp_mem_check_type(phi_rad, precision, status);
+    sdp_mem_check_writeable(element_beam, status);
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_rad, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
+    if (*status) return;
+    const int64_t first = index_offset_element_beam;
+    const int64_t last =
+            first + (int64_t) (num_points - 1) * stride_element_beam;
+    const int64_t num_out = sdp_mem_num_elements(element_beam) -
+            (element_beam_is_complex4 ? 1 : 0);
+    if (num_points > sdp_mem_num_elements(theta_rad) ||
+            num_points > sdp_mem_num_elements(phi_rad) ||
+            (num_points > 0 && (first < 0 || first >= num_out ||
+            last < 0 || last >= num_out)))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the number of points");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
diff --git a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
index d98815e..bd2c578 100644
--- a/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_element_spherical_wave_harp.cpp
@@ -156,6 +156,32 @@ void sdp_element_beam_spherical_wave_harp(
         SDP_LOG_ERROR("Element beam array must be of complex type");
         return;
     }
+    const sdp_MemType precision =
+            sdp_mem_is_double(element_beam) ? SDP_MEM_DOUBLE : SDP_MEM_FLOAT;
+    sdp_mem_check_type(theta_rad, precision, status);
+    sdp_mem_check_type(phi_x_rad, precision, status);
+    sdp_mem_check_type(phi_y_rad, precision, status);
+    sdp_mem_check_type(coeffs, type, status);
+    sdp_mem_check_writeable(element_beam, status);
+    sdp_mem_check_c_contiguity(theta_rad, status);
+    sdp_mem_check_c_contiguity(phi_x_rad, status);
+    sdp_mem_check_c_contiguity(phi_y_rad, status);
+    sdp_mem_check_c_contiguity(coeffs, status);
+    sdp_mem_check_c_contiguity(element_beam, status);
+    if (*status) return;
+    const int64_t last = (int64_t) index_offset_element_beam + num_points;
+    const int64_t num_coeffs = 4 * ((int64_t) l_max * ((int64_t) l_max + 2));
+    if (num_points > sdp_mem_num_elements(theta_rad) ||
+            num_points > sdp_mem_num_elements(phi_x_rad) ||
+            num_points > sdp_mem_num_elements(phi_y_rad) ||
+            (l_max > 0 && num_coeffs > sdp_mem_num_elements(coeffs)) ||
+            index_offset_element_beam < 0 ||
+            4 * last > sdp_mem_num_elements(element_beam))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Arrays are too small for the number of points");
+        return;
+    }
     if (location == SDP_MEM_CPU)
     {
         if (element_beam_is_complex4)
-- 
2.43.0


From d8368bbcebdde3e382903f76025027f972577a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:08 +0000
Subject: [PATCH 42/88] fix: station beam checks the types, sizes, layout and
 location of its arrays and the element beam indices

---
 src/ska-sdp-func/station_beam/sdp_station.cpp | 58 +++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/ska-sdp-func/station_beam/sdp_station.cpp b/src/ska-sdp-func/station_beam/sdp_station.cpp
index 0e9ea04..669bf16 100644
--- a/src/ska-sdp-func/station_beam/sdp_station.cpp
+++ b/src/ska-sdp-func/station_beam/sdp_station.cpp
@@ -220,6 +220,64 @@ void sdp_station_beam_aperture_array(
         return;
     }
     const int is_complex4 = sdp_mem_is_complex4(station_beam);
+    const sdp_MemType complex_type = (sdp_MemType)
+            (precision | SDP_MEM_COMPLEX);
+    const sdp_Mem* required[] = {
+        element_weights, element_x, element_y, element_z, point_x, point_y,
+        point_z, element_beam, element_beam_index, station_beam
+    };
+    const sdp_MemType required_type[] = {
+        complex_type, precision, precision, precision, precision, precision,
+        precision, complex_type, SDP_MEM_INT, complex_type
+    };
+    const int num_pol = is_complex4 ? 4 : 1;
+    const int64_t num_beams = sdp_mem_data_const(element_beam_index) ?
+                1 : num_elements;
+    const int64_t num_coords = (int64_t) index_offset_points + num_points;
+    const int64_t required_size[] = {
+        num_elements, num_elements, num_elements, num_elements,
+        num_coords, num_coords, num_coords,
+        num_beams * num_points * num_pol, num_elements,
+        num_pol * ((int64_t) index_offset_station_beam + num_points)
+    };
+    sdp_mem_check_writeable(station_beam, status);
+    for (int i = 0; i < 10; ++i)
+    {
+        // These arrays are optional.
+        if (i > 5 && i < 9 && !sdp_mem_data_const(required[i])) continue;
+        sdp_mem_check_type(required[i], required_type[i], status);
+        sdp_mem_check_location(required[i], location, status);
+        sdp_mem_check_c_contiguity(required[i], status);
+        if (*status) return;
+        if (sdp_mem_num_elements(required[i]) < required_size[i])
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Arrays are too small for the station beam");
+            return;
+        }
+    }
+    if (index_offset_points < 0 || index_offset_station_beam < 0)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Array offsets must not be negative");
+        return;
+    }
+    if (location == SDP_MEM_CPU && sdp_mem_data_const(element_beam_index) &&
+            sdp_mem_data_const(element_beam))
+    {
+        const int* index = (const int*)sdp_mem_data_const(element_beam_index);
+        const int64_t beam_size = (int64_t) num_pol * num_points;
+        for (int i = 0; i < num_elements; ++i)
+        {
+            if (index[i] < 0 || (index[i] + 1) * beam_size >
+                    sdp_mem_num_elements(element_beam))
+            {
+                *status = SDP_ERR_INVALID_ARGUMENT;
+                SDP_LOG_ERROR("Element beam index is out of range");
+                return;
+            }
+        }
+    }
     if (location == SDP_MEM_CPU)
     {
         if (precision == SDP_MEM_FLOAT && !is_complex4)
-- 
2.43.0


From be8e480fde78f41a777175ee8350f1dba42996bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 43/88] fix: FFT convolution checks the shape, type, location
 and layout of all its arrays

---
 .../numeric_functions/sdp_fft_convolution.cpp  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index cbb915f..18196fe 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -599,6 +599,24 @@ void sdp_fft_convolution(
         return;
     }
 
+    const int64_t in1_shape[] = {in1_dim_0, in1_dim_0};
+    const int64_t in2_shape[] = {in2_dim_0, in2_dim_0};
+    sdp_mem_check_shape(in1, 2, in1_shape, status);
+    sdp_mem_check_shape(in2, 2, in2_shape, status);
+    sdp_mem_check_shape(out, 2, in1_shape, status);
+    sdp_mem_check_type(in2, data_type, status);
+    sdp_mem_check_location(in2, location, status);
+    sdp_mem_check_c_contiguity(in1, status);
+    sdp_mem_check_c_contiguity(in2, status);
+    sdp_mem_check_c_contiguity(out, status);
+    if (*status) return;
+    if (in1_dim_0 < 1 || in2_dim_0 < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Input arrays must not be empty");
+        return;
+    }
+
     if (location == SDP_MEM_CPU)
     {
         if (data_type == SDP_MEM_COMPLEX_DOUBLE)
-- 
2.43.0


From f970bfc6c78b71f24982dded2dd73e469fba77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:47 +0000
Subject: [PATCH 44/88] fix: Hogbom CLEAN checks all its arrays and the size of
 the clean beam

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 37 +++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index e30a947..d90f6f9 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -843,6 +843,43 @@ void sdp_hogbom_clean(
         return;
     }
 
+    const int64_t image_shape[] = {dirty_img_dim, dirty_img_dim};
+    const int64_t psf_shape[] = {psf_dim, psf_dim};
+    sdp_mem_check_shape(dirty_img, 2, image_shape, status);
+    sdp_mem_check_shape(psf, 2, psf_shape, status);
+    sdp_mem_check_c_contiguity(dirty_img, status);
+    sdp_mem_check_c_contiguity(psf, status);
+    sdp_mem_check_location(psf, location, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_location(cbeam_details, SDP_MEM_CPU, status);
+    sdp_mem_check_c_contiguity(cbeam_details, status);
+    sdp_Mem* outputs[] = {clean_model, residual, skymodel};
+    for (int i = 0; i < 3; ++i)
+    {
+        sdp_mem_check_writeable(outputs[i], status);
+        sdp_mem_check_type(outputs[i], data_type, status);
+        sdp_mem_check_location(outputs[i], location, status);
+        sdp_mem_check_shape(outputs[i], 2, image_shape, status);
+        sdp_mem_check_c_contiguity(outputs[i], status);
+    }
+    if (*status) return;
+    if (data_type != SDP_MEM_DOUBLE && data_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+    const double cbeam_size = data_type == SDP_MEM_DOUBLE ?
+                ((const double*)sdp_mem_data_const(cbeam_details))[3] :
+                ((const float*)sdp_mem_data_const(cbeam_details))[3];
+    if (!(cbeam_size >= 1.0 && cbeam_size <= 32767.0))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Size of the CLEAN beam is out of range");
+        return;
+    }
+
     if (cycle_limit < 1)
     {
         *status = SDP_ERR_RUNTIME;
-- 
2.43.0


From 658f24cc4932bbccc8d7e2ff2b5a5d3e7aa6bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 45/88] fix: multi-scale CLEAN checks all its arrays (and no
 longer ignores arrays on a GPU)

---
 .../clean/sdp_ms_clean_cornwell.cpp           | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index cf22b90..c9e54f9 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -870,6 +870,43 @@ void sdp_ms_clean_cornwell(
         return;
     }
 
+    const int64_t image_shape[] = {dirty_img_dim, dirty_img_dim};
+    const int64_t psf_shape[] = {dirty_img_dim * 2, dirty_img_dim * 2};
+    sdp_mem_check_location(dirty_img, SDP_MEM_CPU, status);
+    sdp_mem_check_shape(dirty_img, 2, image_shape, status);
+    sdp_mem_check_shape(psf, 2, psf_shape, status);
+    sdp_mem_check_num_dims(cbeam_details, 1, status);
+    sdp_mem_check_type(cbeam_details, data_type, status);
+    sdp_mem_check_num_dims(scale_list, 1, status);
+    const sdp_Mem* inputs[] = {dirty_img, psf, cbeam_details, scale_list};
+    for (int i = 0; i < 4; ++i)
+    {
+        sdp_mem_check_location(inputs[i], location, status);
+        sdp_mem_check_c_contiguity(inputs[i], status);
+    }
+    sdp_Mem* outputs[] = {clean_model, residual, skymodel};
+    for (int i = 0; i < 3; ++i)
+    {
+        sdp_mem_check_writeable(outputs[i], status);
+        sdp_mem_check_type(outputs[i], data_type, status);
+        sdp_mem_check_location(outputs[i], location, status);
+        sdp_mem_check_shape(outputs[i], 2, image_shape, status);
+        sdp_mem_check_c_contiguity(outputs[i], status);
+    }
+    if (*status) return;
+    if (data_type != SDP_MEM_DOUBLE && data_type != SDP_MEM_FLOAT)
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+        return;
+    }
+    if (dirty_img_dim < 1 || scale_dim < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("The dirty image and scale list must not be empty");
+        return;
+    }
+
     // copy dirty image to starting residual
     sdp_mem_copy_contents(residual, dirty_img, 0, 0,
             (dirty_img_dim * dirty_img_dim), status
-- 
2.43.0


From 5d97df798f9cde0d27ee89239fefececd134a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:03 +0000
Subject: [PATCH 46/88] fix: creating a direct gridder after an error or with
 an invalid size returns nothing instead of crashing

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 0c48cba..2cb3f51 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -52,6 +52,11 @@ sdp_GridderDirect* sdp_gridder_direct_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, pswf_sg_shape, status
     );
     sdp_generate_pswf(0, support * (M_PI / 2), plan->pswf_sg, status);
+    if (*status)
+    {
+        sdp_gridder_direct_free(plan);
+        return 0;
+    }
     ((double*)sdp_mem_data(plan->pswf_sg))[0] = 1e-15;
     return plan;
 }
-- 
2.43.0


From 7a858108ca4621ab1695b5a6ea7f207089de65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 47/88] fix: direct gridder correction does nothing when an
 error is already set

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 2cb3f51..3c52fce 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -113,6 +113,7 @@ void sdp_gridder_direct_degrid_correct(
         sdp_Error* status
 )
 {
+    if (*status) return;
     sdp_gridder_grid_correct_pswf(plan->image_size, plan->theta, plan->w_step,
             plan->shear_u, plan->shear_v, plan->support, 0,
             facet, facet_offset_l, facet_offset_m, status
@@ -177,6 +178,7 @@ void sdp_gridder_direct_grid_correct(
         sdp_Error* status
 )
 {
+    if (*status) return;
     sdp_gridder_grid_correct_pswf(plan->image_size, plan->theta, plan->w_step,
             plan->shear_u, plan->shear_v, plan->support, 0,
             facet, facet_offset_l, facet_offset_m, status
-- 
2.43.0


From d23e55cb6a90fe9d2015af47afa54326b2b032ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 48/88] fix: example functions check their sizes and the layout
 of their arrays

---
 .../examples/sdp_function_example_a.cpp            | 14 +++++++++++---
 src/ska-sdp-func/examples/sdp_vector_add.cpp       |  4 ++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 14c0fc7..1672ac6 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -23,6 +23,12 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
 )
 {
     if (*status) return NULL;
+    if (a < 1 || b < 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Parameters a and b must be positive");
+        return NULL;
+    }
     if (a == 10)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -37,7 +43,7 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
     plan->a = a;
     plan->b = b;
     plan->c = c;
-    plan->workarea = (float*) calloc(a * b, sizeof(float));
+    plan->workarea = (float*) calloc((size_t) a * b, sizeof(float));
     SDP_LOG_INFO("Created sdp_FunctionExampleA");
     return plan;
 }
@@ -68,8 +74,10 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
-    const int64_t num_elements = sdp_mem_num_elements(output);
-    if (num_elements < (plan->a * plan->b))
+    sdp_mem_check_c_contiguity(output, status);
+    if (*status) return;
+    const int64_t num_elements = (int64_t) plan->a * plan->b;
+    if (sdp_mem_num_elements(output) < num_elements)
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not big enough");
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index 10d3064..f60ece5 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,6 +57,10 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
+    sdp_mem_check_c_contiguity(input_a, status);
+    sdp_mem_check_c_contiguity(input_b, status);
+    sdp_mem_check_c_contiguity(output, status);
+    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From 23e26fcfbe7d5e88ea1a9f5885dda79d99d103b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 49/88] fix: PSWF generation refuses an empty array, and
 freeing no PSWF does nothing

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index 3a40fd3..d113835 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -699,6 +699,7 @@ double sdp_pswf_par_m(const sdp_Pswf* plan)
 
 void sdp_pswf_free(sdp_Pswf* plan)
 {
+    if (!plan) return;
     sdp_mem_free(plan->pswf);
     sdp_mem_free(plan->pswf_gpu);
     sdp_mem_free(plan->coeff);
@@ -719,7 +720,7 @@ void sdp_pswf_generate(
     sdp_Mem* out_ptr = out;
     if (out && size == 0)
     {
-        if (sdp_mem_num_dims(out) != 1)
+        if (sdp_mem_num_dims(out) != 1 || sdp_mem_shape_dim(out, 0) < 1)
         {
             *status = SDP_ERR_INVALID_ARGUMENT;
             return;
-- 
2.43.0


From a8e74cf9c887fb8d2224409ad8f4f3d46db6d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 50/88] fix: SwiFTly refuses facets without columns (they read
 outside the facet)

---
 src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index 1848ada..c4ad30a 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -192,6 +192,7 @@ void sdp_swiftly_prepare_facet(
     }
     sdp_MemViewCpu<const std::complex<double>, 2> fct;
     sdp_mem_check_and_view(facet, &fct, status);
+    if (!*status && fct.shape[1] < 1) *status = SDP_ERR_INVALID_ARGUMENT;
     sdp_MemViewCpu<std::complex<double>, 2> out;
     sdp_mem_check_and_view(prep_facet_out, &out, status);
     sdp_mem_check_shape_dim(prep_facet_out, 1, yN_size, status);
@@ -1112,6 +1113,7 @@ void sdp_swiftly_finish_facet(
     sdp_mem_check_shape_dim(prep_facet_inout, 1, yN_size, status);
     sdp_MemViewCpu<std::complex<double>, 2> fct;
     sdp_mem_check_and_view(facet_out, &fct, status);
+    if (!*status && fct.shape[1] < 1) *status = SDP_ERR_INVALID_ARGUMENT;
     sdp_mem_check_same_shape(facet_out, 0, prep_facet_inout, 0, status);
     sdp_MemViewCpu<double, 1> Fb;
     sdp_mem_check_and_view(swiftly->Fb, &Fb, status);
-- 
2.43.0


From 5b0717e1b5b1cc4ee8f879d4048e665c7756aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 51/88] fix: gridder utilities check the shapes and locations
 of all their arrays

---
 .../grid_data/sdp_gridder_utils.cpp           | 114 +++++++++++++++++-
 .../grid_data/sdp_gridder_utils.h             |  24 ++++
 2 files changed, 136 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 10f87a0..7bbd784 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -32,6 +32,7 @@ void accum_scale_array(
     sdp_MemViewCpu<const IN1_TYPE, 2> in1_;
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 0 || !in2)
@@ -350,6 +351,7 @@ void image_to_flmn(
         sdp_MemViewCpu<FLUX_TYPE, 1> flux_;
         sdp_mem_check_and_view(image, &image_, status);
         sdp_mem_check_and_view(flux, &flux_, status);
+        if (*status) return;
         for (int il = 0; il < size_l; ++il)
         {
             const double l = (il - size_l / 2) * theta / size_l;
@@ -506,6 +508,7 @@ void scale_inv_array(
     sdp_mem_check_and_view(out, &out_, status);
     sdp_mem_check_and_view(in1, &in1_, status);
     sdp_mem_check_and_view(in2, &in2_, status);
+    if (*status) return;
     const int shape0 = (int) out_.shape[0];
     const int shape1 = (int) out_.shape[1];
     if (exponent == 1)
@@ -578,6 +581,8 @@ void subgrid_add(
     // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (grid_size_u < 1 || grid_size_v < 1) *status = SDP_ERR_INVALID_ARGUMENT;
+    if (*status) return;
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
@@ -627,6 +632,8 @@ void subgrid_cut_out(
     // The "while" loops below really are needed.
     const int64_t sub_size_u = sub_.shape[0], sub_size_v = sub_.shape[1];
     const int64_t grid_size_u = grid_.shape[0], grid_size_v = grid_.shape[1];
+    if (grid_size_u < 1 || grid_size_v < 1) *status = SDP_ERR_INVALID_ARGUMENT;
+    if (*status) return;
     #pragma omp parallel for
     for (int64_t i = 0; i < sub_size_u; ++i)
     {
@@ -671,7 +678,7 @@ void sum_diff(
     sdp_mem_check_and_view(a, &a_, status);
     sdp_mem_check_and_view(b, &b_, status);
     if (*status) return;
-    if (a_.shape[0] != b_.shape[0])
+    if (a_.shape[0] != b_.shape[0] || end_row > a_.shape[0])
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         return;
@@ -747,6 +754,18 @@ void sdp_gridder_accumulate_scaled_arrays(
     sdp_MemType type1 = sdp_mem_type(in1);
     sdp_MemType type2 = in2 ? sdp_mem_type(in2) : SDP_MEM_COMPLEX_DOUBLE;
     if (!in2) exponent = 0;
+    const int64_t shape[] = {
+        sdp_mem_shape_dim(out, 0), sdp_mem_shape_dim(out, 1)
+    };
+    sdp_mem_check_shape(out, 2, shape, status);
+    sdp_mem_check_shape(in1, 2, shape, status);
+    if (exponent != 0)
+    {
+        sdp_mem_check_location(in2, loc, status);
+        sdp_mem_check_shape(in2, 2, shape, status);
+    }
+    sdp_mem_check_writeable(out, status);
+    if (*status) return;
     if (loc == SDP_MEM_CPU)
     {
         if (type_out == SDP_MEM_COMPLEX_DOUBLE &&
@@ -992,6 +1011,45 @@ void sdp_gridder_accumulate_scaled_arrays(
 }
 
 
+void sdp_gridder_check_vis_arrays(
+        const sdp_Mem* uvws,
+        const sdp_Mem* vis,
+        const sdp_Mem* start_chs,
+        const sdp_Mem* end_chs,
+        int64_t start_row,
+        int64_t end_row,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    const sdp_MemLocation loc = sdp_mem_location(uvws);
+    const int64_t uvw_count = sdp_mem_shape_dim(uvws, 0);
+    const int64_t uvw_shape[] = {uvw_count, 3};
+    sdp_mem_check_shape(uvws, 2, uvw_shape, status);
+    if (vis)
+    {
+        sdp_mem_check_location(vis, loc, status);
+        sdp_mem_check_num_dims(vis, 2, status);
+        sdp_mem_check_dim_size(vis, 0, uvw_count, status);
+    }
+    if (start_chs)
+    {
+        sdp_mem_check_location(start_chs, loc, status);
+        sdp_mem_check_shape(start_chs, 1, &uvw_count, status);
+    }
+    if (end_chs)
+    {
+        sdp_mem_check_location(end_chs, loc, status);
+        sdp_mem_check_shape(end_chs, 1, &uvw_count, status);
+    }
+    if (!*status && (start_row < 0 || end_row > uvw_count))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Range of rows is outside the data");
+    }
+}
+
+
 int64_t sdp_gridder_count_nonzero_pixels(
         const sdp_Mem* image,
         sdp_Error* status
@@ -1066,6 +1124,15 @@ void sdp_gridder_dft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
+    const int64_t num_sources = sdp_mem_shape_dim(flux, 0);
+    const int64_t lmn_shape[] = {num_sources, 3};
+    sdp_gridder_check_vis_arrays(uvws, vis, start_chs, end_chs, 0, 0, status);
+    sdp_mem_check_location(flux, loc, status);
+    sdp_mem_check_location(lmn, loc, status);
+    sdp_mem_check_shape(flux, 1, &num_sources, status);
+    sdp_mem_check_shape(lmn, 2, lmn_shape, status);
+    sdp_mem_check_writeable(vis, status);
+    if (*status) return;
     const sdp_MemType flux_type = sdp_mem_type(flux);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
@@ -1128,6 +1195,21 @@ void sdp_gridder_idft(
 {
     if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(vis);
+    const int64_t image_size = sdp_mem_shape_dim(image, 0);
+    const int64_t image_shape[] = {image_size, image_size};
+    const int64_t lmn_shape[] = {image_size * image_size, 3};
+    sdp_gridder_check_vis_arrays(uvws, vis, start_chs, end_chs, 0, 0, status);
+    sdp_mem_check_location(lmn, loc, status);
+    sdp_mem_check_location(image, loc, status);
+    sdp_mem_check_shape(lmn, 2, lmn_shape, status);
+    sdp_mem_check_shape(image, 2, image_shape, status);
+    if (image_taper_1d)
+    {
+        sdp_mem_check_location(image_taper_1d, loc, status);
+        sdp_mem_check_shape(image_taper_1d, 1, &image_size, status);
+    }
+    sdp_mem_check_writeable(image, status);
+    if (*status) return;
     const sdp_MemType img_type = sdp_mem_type(image);
     const sdp_MemType dir_type = sdp_mem_type(lmn);
     const sdp_MemType uvw_type = sdp_mem_type(uvws);
@@ -1258,6 +1340,22 @@ void sdp_gridder_image_to_flmn(
         sdp_Error* status
 )
 {
+    if (*status) return;
+    const int64_t size_l = sdp_mem_shape_dim(image, 0);
+    const int64_t size_m = sdp_mem_shape_dim(image, 1);
+    const int64_t num_pixels = (
+        flux ? sdp_gridder_count_nonzero_pixels(image, status) :
+            size_l * size_m
+    );
+    const int64_t lmn_shape[] = {num_pixels, 3};
+    sdp_mem_check_num_dims(image, 2, status);
+    sdp_mem_check_shape(lmn, 2, lmn_shape, status);
+    if (flux) sdp_mem_check_shape(flux, 1, &num_pixels, status);
+    if (image_taper_1d)
+    {
+        sdp_mem_check_shape(image_taper_1d, 1, &size_l, status);
+        sdp_mem_check_shape(image_taper_1d, 1, &size_m, status);
+    }
     if (*status) return;
     const sdp_MemType image_type = sdp_mem_type(image);
     const sdp_MemType flux_type = flux ? sdp_mem_type(flux) : SDP_MEM_DOUBLE;
@@ -1381,6 +1479,8 @@ void sdp_gridder_make_w_pattern(
     if (*status) return;
     sdp_MemViewCpu<complex<double>, 2> w_pattern_;
     sdp_mem_check_and_view(w_pattern, &w_pattern_, status);
+    const int64_t shape[] = {subgrid_size, subgrid_size};
+    sdp_mem_check_shape(w_pattern, 2, shape, status);
     const int half_size = subgrid_size / 2;
     if (*status) return;
     #pragma omp parallel for
@@ -1572,6 +1672,14 @@ void sdp_gridder_scale_inv_array(
         *status = SDP_ERR_MEM_LOCATION;
         return;
     }
+    const int64_t shape[] = {
+        sdp_mem_shape_dim(out, 0), sdp_mem_shape_dim(out, 1)
+    };
+    sdp_mem_check_shape(out, 2, shape, status);
+    sdp_mem_check_shape(in1, 2, shape, status);
+    sdp_mem_check_shape(in2, 2, shape, status);
+    sdp_mem_check_writeable(out, status);
+    if (*status) return;
     if (loc == SDP_MEM_CPU)
     {
         if (sdp_mem_type(out) == SDP_MEM_COMPLEX_DOUBLE &&
@@ -2000,7 +2108,7 @@ void sdp_gridder_sum_diff(
         sdp_Mem* result_cpu = sdp_mem_create_copy(
                 result_gpu, SDP_MEM_CPU, status
         );
-        *result = *((int*) sdp_mem_data(result_cpu));
+        if (!*status) *result = *((int*) sdp_mem_data(result_cpu));
         sdp_mem_free(result_cpu);
         sdp_mem_free(result_gpu);
     }
@@ -2019,6 +2127,8 @@ void sdp_gridder_uvw_bounds_all(
 )
 {
     if (*status) return;
+    sdp_gridder_check_vis_arrays(uvws, NULL, start_chs, end_chs, 0, 0, status);
+    if (*status) return;
 
     // Initialise the output values.
     uvw_min[0] = uvw_min[1] = uvw_min[2] = INFINITY;
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.h b/src/ska-sdp-func/grid_data/sdp_gridder_utils.h
index 90e8929..e060257 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.h
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.h
@@ -45,6 +45,30 @@ void sdp_gridder_accumulate_scaled_arrays(
         sdp_Error* status
 );
 
+/**
+ * @brief Checks that arrays describing a set of visibilities are consistent.
+ *
+ * All arrays must be in the same memory space and have the same number of
+ * rows, and the range of rows must be within them.
+ *
+ * @param uvws ``float[uvw_count, 3]`` UVW coordinates of visibilities (in m).
+ * @param vis ``complex[uvw_count, ch_count]`` Visibilities. May be NULL.
+ * @param start_chs ``int[uvw_count]`` First channel per uvw. May be NULL.
+ * @param end_chs ``int[uvw_count]`` Channel at which to stop. May be NULL.
+ * @param start_row First row to use.
+ * @param end_row Row at which to stop.
+ * @param status Error status.
+ */
+void sdp_gridder_check_vis_arrays(
+        const sdp_Mem* uvws,
+        const sdp_Mem* vis,
+        const sdp_Mem* start_chs,
+        const sdp_Mem* end_chs,
+        int64_t start_row,
+        int64_t end_row,
+        sdp_Error* status
+);
+
 /**
  * @brief Count non-zero pixels in an image.
  *
-- 
2.43.0


From e9150ad00d99809d806d68ca977105ad23cecf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 52/88] fix: clamping channels checks the shapes of its arrays,
 the dimension and the rows

---
 .../grid_data/sdp_gridder_clamp_channels.cpp  | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
index c0824b0..40b7ed5 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_clamp_channels.cpp
@@ -1,6 +1,7 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
 #include "ska-sdp-func/grid_data/sdp_gridder_clamp_channels.h"
+#include "ska-sdp-func/grid_data/sdp_gridder_utils.h"
 #include "ska-sdp-func/utility/sdp_mem_view.h"
 
 // Begin anonymous namespace for file-local functions.
@@ -39,6 +40,7 @@ void clamp_channels_single(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -97,6 +99,7 @@ void clamp_channels_uv(
     sdp_mem_check_and_view(end_ch_in, &end_chs_in_, status);
     sdp_mem_check_and_view(start_ch_out, &start_chs_out_, status);
     sdp_mem_check_and_view(end_ch_out, &end_chs_out_, status);
+    if (*status) return;
 
     #pragma omp parallel for
     for (int64_t i = start_row; i < end_row; ++i)
@@ -172,6 +175,18 @@ void sdp_gridder_clamp_channels_single(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    if (dim < 0 || dim > 2)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        return;
+    }
+    sdp_gridder_check_vis_arrays(
+            uvws, NULL, start_ch_in, end_ch_in, start_row, end_row, status
+    );
+    sdp_gridder_check_vis_arrays(
+            uvws, NULL, start_ch_out, end_ch_out, start_row, end_row, status
+    );
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
@@ -271,6 +286,13 @@ void sdp_gridder_clamp_channels_uv(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    sdp_gridder_check_vis_arrays(
+            uvws, NULL, start_ch_in, end_ch_in, start_row, end_row, status
+    );
+    sdp_gridder_check_vis_arrays(
+            uvws, NULL, start_ch_out, end_ch_out, start_row, end_row, status
+    );
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(uvws);
     if (loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From cb3ee682f5254caf1296702cfcf14c5ceab86b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 53/88] fix: direct gridder checks the shape of its image

---
 src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
index 3c52fce..66dd88a 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_direct.cpp
@@ -78,6 +78,9 @@ void sdp_gridder_direct_degrid(
 )
 {
     if (*status) return;
+    const int64_t image_shape[] = {plan->subgrid_size, plan->subgrid_size};
+    sdp_mem_check_shape(subgrid_image, 2, image_shape, status);
+    if (*status) return;
 
     // Count nonzero pixels in image.
     int64_t num_src = sdp_gridder_count_nonzero_pixels(subgrid_image, status);
@@ -144,6 +147,9 @@ void sdp_gridder_direct_grid(
 )
 {
     if (*status) return;
+    const int64_t image_shape[] = {plan->subgrid_size, plan->subgrid_size};
+    sdp_mem_check_shape(subgrid_image, 2, image_shape, status);
+    if (*status) return;
 
     // Allocate space for coordinates of all pixels in the image.
     int64_t num_src = sdp_mem_num_elements(subgrid_image);
-- 
2.43.0


From d5ed5ed31f38a912fb55bf935814b3013cf9e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 54/88] fix: grid correction refuses facets which are not
 inside the image

---
 .../grid_data/sdp_gridder_grid_correct.cpp    | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index 9d72536..eb25157 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -14,6 +14,32 @@ using std::complex;
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Check that the facet is two-dimensional and inside the image.
+void check_facet(
+        int64_t image_size,
+        const sdp_Mem* facet,
+        int facet_offset_l,
+        int facet_offset_m,
+        sdp_Error* status
+)
+{
+    sdp_mem_check_num_dims(facet, 2, status);
+    for (int dim = 0; dim < 2; ++dim)
+    {
+        if (*status) return;
+        const int64_t size = sdp_mem_shape_dim(facet, dim);
+        const int64_t start = image_size / 2 - size / 2 + (
+            dim == 0 ? facet_offset_l : facet_offset_m
+        );
+        if (start < 0 || start + size > image_size)
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Facet is not inside the image");
+        }
+    }
+}
+
+
 // Local function to apply grid correction for the PSWF.
 template<typename T>
 void grid_corr_pswf(
@@ -130,6 +156,8 @@ void sdp_gridder_grid_correct_pswf(
         sdp_Error* status
 )
 {
+    if (*status) return;
+    check_facet(image_size, facet, facet_offset_l, facet_offset_m, status);
     if (*status) return;
     sdp_Pswf* pswf_n = sdp_pswf_create(0, w_support * (M_PI / 2));
     sdp_Pswf* pswf_lm = sdp_pswf_create(0, support * (M_PI / 2));
-- 
2.43.0


From 31960a7273c63e23357a539ebf9cf120d6ad899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 55/88] fix: w-towers check the shapes and types of their
 arrays and the channel ranges

---
 .../grid_data/sdp_gridder_wtower_uvw.cpp      | 79 +++++++++++++++++++
 1 file changed, 79 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
index c5e282e..9e1e5d1 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_uvw.cpp
@@ -40,6 +40,52 @@ struct sdp_GridderWtowerUVW
 // Begin anonymous namespace for file-local functions.
 namespace {
 
+// Check the data types, and that all channel ranges are within the data.
+void check_data(
+        const sdp_Mem* uvws,
+        const sdp_Mem* start_chs,
+        const sdp_Mem* end_chs,
+        const sdp_Mem* vis,
+        int64_t start_row,
+        int64_t end_row,
+        sdp_Error* status
+)
+{
+    const sdp_MemType vis_type = sdp_mem_type(vis);
+    const sdp_MemType uvw_type = sdp_mem_type(uvws);
+    sdp_mem_check_type(start_chs, SDP_MEM_INT, status);
+    sdp_mem_check_type(end_chs, SDP_MEM_INT, status);
+    if (*status) return;
+    if (!((vis_type == SDP_MEM_COMPLEX_DOUBLE &&
+            uvw_type == SDP_MEM_DOUBLE) ||
+            (vis_type == SDP_MEM_COMPLEX_FLOAT &&
+            (uvw_type == SDP_MEM_DOUBLE || uvw_type == SDP_MEM_FLOAT))))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data types: uvws has type %s; vis has type %s",
+                sdp_mem_type_name(uvw_type), sdp_mem_type_name(vis_type)
+        );
+        return;
+    }
+    if (sdp_mem_location(vis) != SDP_MEM_CPU) return;
+    const int64_t num_chan = sdp_mem_shape_dim(vis, 1);
+    sdp_MemViewCpu<const int, 1> start_chs_, end_chs_;
+    sdp_mem_check_and_view(start_chs, &start_chs_, status);
+    sdp_mem_check_and_view(end_chs, &end_chs_, status);
+    if (*status) return;
+    for (int64_t i = start_row; i < end_row; ++i)
+    {
+        if (start_chs_(i) < end_chs_(i) &&
+                (start_chs_(i) < 0 || end_chs_(i) > num_chan))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Range of channels is outside the data");
+            return;
+        }
+    }
+}
+
+
 // Local function to do the degridding.
 template<typename SUBGRID_TYPE, typename UVW_TYPE, typename VIS_TYPE>
 void degrid(
@@ -755,6 +801,14 @@ void sdp_gridder_wtower_uvw_degrid(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    const int64_t image_shape[] = {plan->subgrid_size, plan->subgrid_size};
+    sdp_mem_check_shape(subgrid_image, 2, image_shape, status);
+    sdp_gridder_check_vis_arrays(
+            uvws, vis, start_chs, end_chs, start_row, end_row, status
+    );
+    sdp_mem_check_writeable(vis, status);
+    check_data(uvws, start_chs, end_chs, vis, start_row, end_row, status);
+    if (*status) return;
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
@@ -782,6 +836,14 @@ void sdp_gridder_wtower_uvw_degrid(
     );
     if (*status) return;
     if (c_min[2] > c_max[2]) return; // There are no visibilities to use.
+    const double max_planes = 1e8;
+    if (!(c_max[2] < max_planes * plan->w_step &&
+            c_min[2] > -max_planes * plan->w_step))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Range of w-coordinates is too large");
+        return;
+    }
 
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
@@ -966,6 +1028,15 @@ void sdp_gridder_wtower_uvw_grid(
         start_row = 0;
         end_row = sdp_mem_shape_dim(uvws, 0);
     }
+    const int64_t image_shape[] = {plan->subgrid_size, plan->subgrid_size};
+    sdp_mem_check_shape(subgrid_image, 2, image_shape, status);
+    sdp_gridder_check_vis_arrays(
+            uvws, vis, start_chs, end_chs, start_row, end_row, status
+    );
+    if (!sdp_mem_is_complex(subgrid_image)) *status = SDP_ERR_DATA_TYPE;
+    sdp_mem_check_writeable(subgrid_image, status);
+    check_data(uvws, start_chs, end_chs, vis, start_row, end_row, status);
+    if (*status) return;
 
     // Copy internal arrays to GPU memory as required.
     sdp_Mem* w_pattern_ptr = plan->w_pattern;
@@ -993,6 +1064,14 @@ void sdp_gridder_wtower_uvw_grid(
     );
     if (*status) return;
     if (c_min[2] > c_max[2]) return; // There are no visibilities to use.
+    const double max_planes = 1e8;
+    if (!(c_max[2] < max_planes * plan->w_step &&
+            c_min[2] > -max_planes * plan->w_step))
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Range of w-coordinates is too large");
+        return;
+    }
 
     // Get subgrid at first w-plane.
     const double eta = 1e-5;
-- 
2.43.0


From bdc1b360771ab0b979284832f42a7899e85560fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 56/88] fix: whole-image gridding checks its arrays, and
 reports failures instead of ending the process

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      | 68 +++++++++++++++++--
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index 5e77046..e1ef266 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -62,6 +62,58 @@ struct sdp_SubgridTask
 };
 
 
+// Check that all arrays have supported data types and consistent shapes.
+void check_data(
+        const sdp_Mem* image,
+        const sdp_Mem* vis,
+        const sdp_Mem* uvw,
+        sdp_Error* status
+)
+{
+    const int64_t image_size = sdp_mem_shape_dim(image, 0);
+    const int64_t image_shape[] = {image_size, image_size};
+    const sdp_MemType vis_type = sdp_mem_type(vis);
+    const sdp_MemType uvw_type = sdp_mem_type(uvw);
+    sdp_gridder_check_vis_arrays(uvw, vis, NULL, NULL, 0, 0, status);
+    sdp_mem_check_shape(image, 2, image_shape, status);
+    if (*status) return;
+    if ((!sdp_mem_is_floating_point(image) && !sdp_mem_is_complex(image)) ||
+            !((vis_type == SDP_MEM_COMPLEX_DOUBLE &&
+            uvw_type == SDP_MEM_DOUBLE) ||
+            (vis_type == SDP_MEM_COMPLEX_FLOAT &&
+            (uvw_type == SDP_MEM_DOUBLE || uvw_type == SDP_MEM_FLOAT))))
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data types");
+    }
+}
+
+
+// Check that the coordinates span a usable number of sub-grids or planes.
+void check_bounds(
+        double uvw_min[3],
+        double uvw_max[3],
+        double eff_sg_dist,
+        double w_stack_dist,
+        sdp_Error* status
+)
+{
+    if (*status) return;
+    for (int i = 0; i < 3; ++i)
+    {
+        // Nothing to do if there are no visibilities.
+        if (uvw_min[i] > uvw_max[i]) uvw_min[i] = uvw_max[i] = 0.0;
+        const double limit = 1e4 * (i < 2 ? eff_sg_dist : w_stack_dist);
+        if (!(uvw_min[i] > -limit && uvw_max[i] < limit))
+        {
+            *status = SDP_ERR_INVALID_ARGUMENT;
+            SDP_LOG_ERROR("Range of (u,v,w)-coordinates is too large");
+            return;
+        }
+    }
+}
+
+
 // Count visibilities in each sub-grid, create and return a list of tasks.
 vector<sdp_SubgridTask> count_visibilities(
         const sdp_Mem* uvw,
@@ -251,6 +303,9 @@ void sdp_grid_wstack_wtower_degrid_all(
         SDP_LOG_ERROR("Visibilities and (u,v,w)-coordinates must be 2D");
         return;
     }
+    sdp_mem_check_writeable(vis, status);
+    check_data(image, vis, uvw, status);
+    if (*status) return;
     if (w_tower_height == 0.0)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -319,6 +374,7 @@ void sdp_grid_wstack_wtower_degrid_all(
     sdp_gridder_uvw_bounds_all(
             uvw, freq0_hz, dfreq_hz, start_ch, end_ch, uvw_min, uvw_max, status
     );
+    check_bounds(uvw_min, uvw_max, eff_sg_dist, w_stack_dist, status);
     int64_t min_iu = int64_t(floor(uvw_min[0] / eff_sg_dist + 0.5 - eta));
     int64_t max_iu = int64_t(floor(uvw_max[0] / eff_sg_dist + 0.5 + eta));
     int64_t min_iv = int64_t(floor(uvw_min[1] / eff_sg_dist + 0.5 - eta));
@@ -439,12 +495,12 @@ void sdp_grid_wstack_wtower_degrid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            *status = SDP_ERR_RUNTIME;
         }
     }
 
@@ -508,6 +564,9 @@ void sdp_grid_wstack_wtower_grid_all(
         SDP_LOG_ERROR("Visibilities and (u,v,w)-coordinates must be 2D");
         return;
     }
+    sdp_mem_check_writeable(image, status);
+    check_data(image, vis, uvw, status);
+    if (*status) return;
     if (w_tower_height == 0.0)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -577,6 +636,7 @@ void sdp_grid_wstack_wtower_grid_all(
     sdp_gridder_uvw_bounds_all(
             uvw, freq0_hz, dfreq_hz, start_ch, end_ch, uvw_min, uvw_max, status
     );
+    check_bounds(uvw_min, uvw_max, eff_sg_dist, w_stack_dist, status);
     int64_t min_iu = int64_t(floor(uvw_min[0] / eff_sg_dist + 0.5 - eta));
     int64_t max_iu = int64_t(floor(uvw_max[0] / eff_sg_dist + 0.5 + eta));
     int64_t min_iv = int64_t(floor(uvw_min[1] / eff_sg_dist + 0.5 - eta));
@@ -691,12 +751,12 @@ void sdp_grid_wstack_wtower_grid_all(
             }
         }
         sdp_mutex_free(mutex);
-        if (vis_count_check != num_vis)
+        if (!*status && vis_count_check != num_vis)
         {
             SDP_LOG_CRITICAL("Processed %d but expected %d visibilities",
                     (int) vis_count_check, (int) num_vis
             );
-            exit(1);
+            *status = SDP_ERR_RUNTIME;
         }
 
         // Do image correction / w-stacking.
-- 
2.43.0


From 98347c58a2eea78fa82464dc3f886ec613206425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 57/88] fix: worst-case image refuses a field of view which is
 empty or outside the image

---
 .../grid_data/sdp_gridder_wtower_height.cpp       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 70241f1..e52eb02 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -291,11 +291,22 @@ void sdp_gridder_worst_case_image(
     // divide the subgrid size equally (then there's a good chance we're
     // operating on-grid, and therefore not actually testing the window
     // function).
-    int fov_edge = int(image_size / theta * fov / 2);
-    while (image_size % fov_edge == 0)
+    const double fov_edge_max = image_size / theta * fov / 2;
+    int fov_edge = fov_edge_max <= image_size ? int(fov_edge_max) : 0;
+    while (fov_edge > 0 && image_size % fov_edge == 0)
     {
         fov_edge -= 1;
     }
+    if (fov_edge < 1 || fov_edge >= (image_size + 1) / 2)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Field of view must be inside the image");
+        return;
+    }
+    sdp_mem_check_writeable(image, status);
+    sdp_mem_check_location(image, SDP_MEM_CPU, status);
+    sdp_mem_check_type(image, SDP_MEM_COMPLEX_DOUBLE, status);
+    if (*status) return;
 
     // Put sources into corners, careful not to generate actual symmetries.
     sdp_mem_clear_contents(image, status);
-- 
2.43.0


From c438d6525e45f3eac16d33a06dd2de6e5ab9630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 58/88] fix: flagger limits the window to the number of
 channels

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index d04c453..0ac7059 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -387,6 +387,9 @@ void sdp_flagger_dynamic_threshold(
         return;
     }
 
+    // A window cannot extend beyond all the channels.
+    const int max_window = window < num_channels ? window : num_channels;
+
     if (sdp_mem_location(vis) == SDP_MEM_CPU)
     {
         if (sdp_mem_type(vis) == SDP_MEM_COMPLEX_FLOAT &&
@@ -400,7 +403,7 @@ void sdp_flagger_dynamic_threshold(
                     threshold_variations,
                     threshold_broadband,
                     sampling_step,
-                    window,
+                    max_window,
                     window_median_history,
                     num_timesamples,
                     num_baselines,
@@ -419,7 +422,7 @@ void sdp_flagger_dynamic_threshold(
                     threshold_variations,
                     threshold_broadband,
                     sampling_step,
-                    window,
+                    max_window,
                     window_median_history,
                     num_timesamples,
                     num_baselines,
-- 
2.43.0


From 9e8f6a20369af982c94841ddd551b22866c4a2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 59/88] fix: bucket sort refuses visibilities which are not C
 contiguous

---
 src/ska-sdp-func/visibility/sdp_tiled_functions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
index 851b686..a32d37d 100644
--- a/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
+++ b/src/ska-sdp-func/visibility/sdp_tiled_functions.cpp
@@ -633,6 +633,7 @@ void sdp_bucket_sort(
     sdp_mem_check_dim_size(freqs, 0, num_channels, status);
     sdp_mem_check_location(freqs, vis_location, status);
     sdp_mem_check_c_contiguity(freqs, status);
+    sdp_mem_check_c_contiguity(vis, status);
     check_array(tile_offsets, SDP_MEM_INT, vis_location, num_tiles + 1, status);
     if (num_pols != 1 && !*status)
     {
-- 
2.43.0


From 7df6692b6fa028b244246cb2f01d947dcc27e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 60/88] fix: handles which were not created and earlier errors
 are tolerated by slices, aliases, copies and shape checks

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index be2fb45..37e71f7 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -228,7 +228,7 @@ sdp_Mem* sdp_mem_create_wrapper(
     const int64_t element_size = sdp_mem_type_size(type);
     if (element_size <= 0)
     {
-        *status = SDP_ERR_DATA_TYPE;
+        if (!*status) *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_CRITICAL("Unsupported data type");
         return mem;
     }
@@ -270,6 +270,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
         sdp_Error* status
 )
 {
+    if (*status || !src) return 0;
     if (num_dims_slice > src->num_dims)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -334,6 +335,7 @@ sdp_Mem* sdp_mem_create_wrapper_for_slice(
 
 sdp_Mem* sdp_mem_create_alias(const sdp_Mem* src)
 {
+    if (!src) return 0;
     sdp_Error status = SDP_SUCCESS;
     sdp_Mem* mem = sdp_mem_create_wrapper(src->data, src->type, src->location,
             src->num_dims, src->shape, src->stride, &status
@@ -349,6 +351,11 @@ sdp_Mem* sdp_mem_create_copy(
         sdp_Error* status
 )
 {
+    if (!src)
+    {
+        if (!*status) *status = SDP_ERR_RUNTIME;
+        return 0;
+    }
     // Strides of the copy are always those of a standard contiguous C array.
     sdp_Mem* mem = sdp_mem_create_wrapper(0, src->type, location,
             src->num_dims, src->shape, 0, status
@@ -1493,6 +1500,8 @@ void sdp_mem_check_same_shape_at(
         int line
 )
 {
+    if (*status) return;
+
     // Skip the check if the memory object has fewer dimension - we
     // assume there will be an sdp_mem_check_num_dims that will
     // already have objected to the wrong dimensionality.
-- 
2.43.0


From 38797e88bb799cf42215c149093d64fc15e01cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 61/88] fix: precision conversion stops if the array cannot be
 copied or created

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 37e71f7..112d78e 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -479,6 +479,11 @@ sdp_Mem* sdp_mem_convert_precision(
             output_type, SDP_MEM_CPU, src->num_dims, src->shape, status
     );
     const int64_t num_elements = sdp_mem_num_elements(src);
+    if (*status)
+    {
+        sdp_mem_free(src_temp);
+        return output;
+    }
     if (input_type == SDP_MEM_COMPLEX_DOUBLE &&
             output_type == SDP_MEM_COMPLEX_FLOAT)
     {
-- 
2.43.0


From e1d922fda9da2ad8bfeae85cb9f76a2ebeaaf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:43 +0000
Subject: [PATCH 62/88] fix: clearing, copying to, scaling and random filling
 refuse read-only arrays, and random filling other arrays it cannot fill

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 112d78e..5844172 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -393,6 +393,8 @@ sdp_Mem* sdp_mem_create_copy(
 void sdp_mem_clear_contents(sdp_Mem* mem, sdp_Error* status)
 {
     if (*status || !mem || mem->num_elements == 0) return;
+    sdp_mem_check_writeable(mem, status);
+    if (*status) return;
     if (mem->location == SDP_MEM_CPU && mem->num_dims > 0 &&
             !mem->is_c_contiguous)
     {
@@ -425,6 +427,8 @@ void sdp_mem_clear_portion(
         SDP_LOG_ERROR("Elements to clear are out of range");
         return;
     }
+    sdp_mem_check_writeable(mem, status);
+    if (*status) return;
     const size_t offset = start_index * sdp_mem_type_size(mem->type);
     const size_t size = num_elements * sdp_mem_type_size(mem->type);
     if (mem->location == SDP_MEM_CPU)
@@ -555,6 +559,8 @@ void sdp_mem_copy_contents(
         SDP_LOG_ERROR("Elements to copy are out of range");
         return;
     }
+    sdp_mem_check_writeable(dst, status);
+    if (*status) return;
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
     const size_t bytes        = element_size * num_elements;
@@ -622,6 +628,8 @@ void sdp_mem_copy_contents_async(
         SDP_LOG_ERROR("Elements to copy are out of range");
         return;
     }
+    sdp_mem_check_writeable(dst, status);
+    if (*status) return;
     const int64_t start_dst   = element_size * offset_dst;
     const int64_t start_src   = element_size * offset_src;
     const size_t bytes        = element_size * num_elements;
@@ -812,6 +820,9 @@ int64_t sdp_mem_num_elements(const sdp_Mem* mem)
 
 void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
 {
+    if (*status) return;
+    sdp_mem_check_writeable(mem, status);
+    sdp_mem_check_c_contiguity(mem, status);
     if (*status) return;
     if (mem->location != SDP_MEM_CPU)
     {
@@ -840,6 +851,11 @@ void sdp_mem_random_fill(sdp_Mem* mem, sdp_Error* status)
             data[i] = (double)rand() / (double)RAND_MAX;
         }
     }
+    else
+    {
+        *status = SDP_ERR_DATA_TYPE;
+        SDP_LOG_ERROR("Unsupported data type");
+    }
 }
 
 
@@ -866,6 +882,8 @@ void sdp_mem_scale_real(sdp_Mem* mem, double value, sdp_Error* status)
         SDP_LOG_ERROR("Array must be C contiguous");
         return;
     }
+    sdp_mem_check_writeable(mem, status);
+    if (*status) return;
     const sdp_MemLocation loc = sdp_mem_location(mem);
     if (loc == SDP_MEM_CPU)
     {
-- 
2.43.0


From dc7e5a14963dc8f7a4b0da57f37a00df3d6bdd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 63/88] Revert "fix: example functions check their sizes and
 the layout of their arrays"

The examples directory is to stay as it was; the defects are recorded as known findings.
---
 .../examples/sdp_function_example_a.cpp            | 14 +++-----------
 src/ska-sdp-func/examples/sdp_vector_add.cpp       |  4 ----
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/ska-sdp-func/examples/sdp_function_example_a.cpp b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
index 1672ac6..14c0fc7 100644
--- a/src/ska-sdp-func/examples/sdp_function_example_a.cpp
+++ b/src/ska-sdp-func/examples/sdp_function_example_a.cpp
@@ -23,12 +23,6 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
 )
 {
     if (*status) return NULL;
-    if (a < 1 || b < 1)
-    {
-        *status = SDP_ERR_INVALID_ARGUMENT;
-        SDP_LOG_ERROR("Parameters a and b must be positive");
-        return NULL;
-    }
     if (a == 10)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
@@ -43,7 +37,7 @@ sdp_FunctionExampleA* sdp_function_example_a_create_plan(
     plan->a = a;
     plan->b = b;
     plan->c = c;
-    plan->workarea = (float*) calloc((size_t) a * b, sizeof(float));
+    plan->workarea = (float*) calloc(a * b, sizeof(float));
     SDP_LOG_INFO("Created sdp_FunctionExampleA");
     return plan;
 }
@@ -74,10 +68,8 @@ void sdp_function_example_a_exec(
         SDP_LOG_ERROR("Output is not writable");
         return;
     }
-    sdp_mem_check_c_contiguity(output, status);
-    if (*status) return;
-    const int64_t num_elements = (int64_t) plan->a * plan->b;
-    if (sdp_mem_num_elements(output) < num_elements)
+    const int64_t num_elements = sdp_mem_num_elements(output);
+    if (num_elements < (plan->a * plan->b))
     {
         *status = SDP_ERR_RUNTIME;
         SDP_LOG_ERROR("Output is not big enough");
diff --git a/src/ska-sdp-func/examples/sdp_vector_add.cpp b/src/ska-sdp-func/examples/sdp_vector_add.cpp
index f60ece5..10d3064 100644
--- a/src/ska-sdp-func/examples/sdp_vector_add.cpp
+++ b/src/ska-sdp-func/examples/sdp_vector_add.cpp
@@ -57,10 +57,6 @@ void sdp_vector_add(
         SDP_LOG_ERROR("All vectors must have the same number of elements");
         return;
     }
-    sdp_mem_check_c_contiguity(input_a, status);
-    sdp_mem_check_c_contiguity(input_b, status);
-    sdp_mem_check_c_contiguity(output, status);
-    if (*status) return;
     if (location == SDP_MEM_CPU)
     {
         if (type == SDP_MEM_DOUBLE)
-- 
2.43.0


From b413267181963dfe95d57984c15fa1614051acd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 64/88] fix: timers use the monotonic clock where it is
 available

On Linux _POSIX_MONOTONIC_CLOCK is defined as 0 (supported, check at run
time), so timers fell back to the wall clock and jumped when it was set.
---
 src/ska-sdp-func/utility/sdp_timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_timer.cpp b/src/ska-sdp-func/utility/sdp_timer.cpp
index 1e2b74d..e40cf8b 100644
--- a/src/ska-sdp-func/utility/sdp_timer.cpp
+++ b/src/ska-sdp-func/utility/sdp_timer.cpp
@@ -48,7 +48,7 @@ static double sdp_get_wtime(sdp_Timer* timer)
     LARGE_INTEGER cntr;
     QueryPerformanceCounter(&cntr);
     return (double)(cntr.QuadPart) / timer->freq;
-#elif _POSIX_MONOTONIC_CLOCK > 0
+#elif defined(_POSIX_MONOTONIC_CLOCK) && _POSIX_MONOTONIC_CLOCK >= 0
     /* Use monotonic clock if available. */
     struct timespec ts;
     (void)timer;
-- 
2.43.0


From 888c75011fba44bee22a4c0b4d5fc879af9ce398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 65/88] fix: creating a set of timers enlarges an existing
 timer of that name

A timer already used by one thread kept its single slot, and the other
threads then wrote beyond it.
---
 src/ska-sdp-func/utility/sdp_timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/utility/sdp_timer.cpp b/src/ska-sdp-func/utility/sdp_timer.cpp
index e40cf8b..e33e46f 100644
--- a/src/ska-sdp-func/utility/sdp_timer.cpp
+++ b/src/ska-sdp-func/utility/sdp_timer.cpp
@@ -362,7 +362,7 @@ sdp_TimerNode* sdp_timers_create_set(
     sdp_TimerNode* node = sdp_TimerNode::get(
             name, parent ? parent : timers->current_node
     );
-    if (node->tmr.size() == 0) node->tmr.resize(num, NULL);
+    if ((int) node->tmr.size() < num) node->tmr.resize(num, NULL);
     return node;
 }
 
-- 
2.43.0


From 4c878536d4fb82b662ed3689a4ec630a5b51f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:33 +0000
Subject: [PATCH 66/88] fix: log message time stamps come from one reading of
 the clock

Seconds and milliseconds were read separately, so a message logged as the
second changed was stamped a second early.
---
 src/ska-sdp-func/utility/sdp_logging.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index c8eefc1..099144e 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -61,9 +61,9 @@ void sdp_log_message(
     // Get timestamp, as a string.
     char time_str[48];
     struct timeval tv;
-    const time_t unix_time = time(0);
-    struct tm* timeinfo = gmtime(&unix_time);
     gettimeofday(&tv, 0);
+    const time_t unix_time = tv.tv_sec;
+    struct tm* timeinfo = gmtime(&unix_time);
     if (snprintf(time_str, sizeof(time_str),
             "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
             timeinfo->tm_year + 1900, timeinfo->tm_mon + 1, timeinfo->tm_mday,
-- 
2.43.0


From 473c9004de80ebdff72f358e480204842ebef082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:35 +0000
Subject: [PATCH 67/88] fix: convolution stops if its working arrays cannot be
 created

---
 .../numeric_functions/sdp_fft_convolution.cpp  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
index 18196fe..9f2f3ad 100644
--- a/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
+++ b/src/ska-sdp-func/numeric_functions/sdp_fft_convolution.cpp
@@ -156,6 +156,11 @@ static void sdp_fft_convolution_cpu(
     );
     complex<T>* in1_pad_ptr = (complex<T>*)sdp_mem_data(in1_pad_mem);
     sdp_mem_clear_contents(in1_pad_mem, status);
+    if (*status)
+    {
+        sdp_mem_ref_dec(in1_pad_mem);
+        return;
+    }
 
     // calculate the number of extra columns and rows need to reach padded length
     int64_t extra_in1 = (pad_dim - in1_dim) / 2;
@@ -174,6 +179,12 @@ static void sdp_fft_convolution_cpu(
     );
     complex<T>* in2_pad_ptr = (complex<T>*)sdp_mem_data(in2_pad_mem);
     sdp_mem_clear_contents(in2_pad_mem, status);
+    if (*status)
+    {
+        sdp_mem_ref_dec(in1_pad_mem);
+        sdp_mem_ref_dec(in2_pad_mem);
+        return;
+    }
 
     // calculate the number of extra columns and rows need to reach padded length
     int64_t extra_in2 = (pad_dim - in2_dim) / 2;
@@ -212,6 +223,13 @@ static void sdp_fft_convolution_cpu(
     );
     complex<T>* multiply_ptr = (complex<T>*)sdp_mem_data(multiply_mem);
     sdp_mem_clear_contents(multiply_mem, status);
+    if (*status)
+    {
+        sdp_mem_ref_dec(in1_pad_mem);
+        sdp_mem_ref_dec(in2_pad_mem);
+        sdp_mem_ref_dec(multiply_mem);
+        return;
+    }
 
     // multiply FFTs together
     for (int i = 0; i < pad_size; i++)
-- 
2.43.0


From 526d09b73c026bc9182e7e6c05f09940228a1668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 68/88] fix: Hogbom CLEAN stops if its working arrays cannot be
 created

---
 src/ska-sdp-func/clean/sdp_hogbom_clean.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
index d90f6f9..7696282 100644
--- a/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
+++ b/src/ska-sdp-func/clean/sdp_hogbom_clean.cpp
@@ -171,6 +171,12 @@ static void sdp_hogbom_clean_cpu(
             clean_comp_complex_mem
     );
     sdp_mem_clear_contents(clean_comp_complex_mem, status);
+    if (*status)
+    {
+        sdp_mem_ref_dec(cbeam_mem);
+        sdp_mem_ref_dec(clean_comp_complex_mem);
+        return;
+    }
 
     // set up some loop variables
     int cur_cycle = 0;
@@ -255,6 +261,13 @@ static void sdp_hogbom_clean_cpu(
             convolution_result_mem,
             status
     );
+    if (*status)
+    {
+        sdp_mem_ref_dec(cbeam_mem);
+        sdp_mem_ref_dec(clean_comp_complex_mem);
+        sdp_mem_ref_dec(convolution_result_mem);
+        return;
+    }
 
     // complex result to real for the output
     sdp_create_copy_real<T>(convolution_result_ptr, dirty_img_size, skymodel);
-- 
2.43.0


From 02af5611d645ef325209c0737a57c36c89d3f876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 69/88] fix: multi-scale CLEAN stops if its working arrays
 cannot be created

---
 .../clean/sdp_ms_clean_cornwell.cpp           | 60 +++++++++++++------
 1 file changed, 41 insertions(+), 19 deletions(-)

diff --git a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
index c9e54f9..c1151e6 100755
--- a/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
+++ b/src/ska-sdp-func/clean/sdp_ms_clean_cornwell.cpp
@@ -389,6 +389,34 @@ static void ms_clean_cornwell(
     int* y_per_scale_ptr = (int*)sdp_mem_data(y_per_scale_mem);
     sdp_mem_clear_contents(y_per_scale_mem, status);
 
+    sdp_Mem* convolution_result_mem = 0;
+    const auto release = [&]()
+    {
+        sdp_mem_ref_dec(psf_complex_mem);
+        sdp_mem_ref_dec(clean_comp_complex_mem);
+        sdp_mem_ref_dec(residual_complex_mem);
+        sdp_mem_ref_dec(cbeam_mem);
+        sdp_mem_ref_dec(cur_scaled_residual_mem);
+        sdp_mem_ref_dec(scaled_residuals_mem);
+        sdp_mem_ref_dec(scaled_psf_mem);
+        sdp_mem_ref_dec(cur_scaled_psf_mem);
+        sdp_mem_ref_dec(cur_scaled_psf_pre_mem);
+        sdp_mem_ref_dec(scale_kern_list_mem);
+        sdp_mem_ref_dec(cur_1_scale_kern_mem);
+        sdp_mem_ref_dec(cur_2_scale_kern_mem);
+        sdp_mem_ref_dec(coupling_matrix_mem);
+        sdp_mem_ref_dec(peak_per_scale_mem);
+        sdp_mem_ref_dec(index_per_scale_mem);
+        sdp_mem_ref_dec(x_per_scale_mem);
+        sdp_mem_ref_dec(y_per_scale_mem);
+        sdp_mem_ref_dec(convolution_result_mem);
+    };
+    if (*status)
+    {
+        release();
+        return;
+    }
+
     // Convolution code only works with complex input, so make residual and psf complex
     sdp_create_copy_complex<T>(residual_ptr,
             dirty_img_size,
@@ -515,6 +543,12 @@ static void ms_clean_cornwell(
         }
     }
 
+    if (*status)
+    {
+        release();
+        return;
+    }
+
     // evaluate the coupling matrix
     SDP_LOG_DEBUG("Evaluate coupling matrix");
     double max_scaled_psf = 0;
@@ -702,7 +736,7 @@ static void ms_clean_cornwell(
     }
 
     // convolve clean components with clean beam
-    sdp_Mem* convolution_result_mem = sdp_mem_create(complex_data_type,
+    convolution_result_mem = sdp_mem_create(complex_data_type,
             SDP_MEM_CPU,
             2,
             dirty_img_shape,
@@ -717,6 +751,11 @@ static void ms_clean_cornwell(
             convolution_result_mem,
             status
     );
+    if (*status)
+    {
+        release();
+        return;
+    }
 
     // complex result to real for the output
     sdp_create_copy_real(convolution_result_ptr, dirty_img_size, skymodel_ptr);
@@ -749,24 +788,7 @@ static void ms_clean_cornwell(
     }
 
     // release memory
-    sdp_mem_ref_dec(psf_complex_mem);
-    sdp_mem_ref_dec(clean_comp_complex_mem);
-    sdp_mem_ref_dec(residual_complex_mem);
-    sdp_mem_ref_dec(cbeam_mem);
-    sdp_mem_ref_dec(cur_scaled_residual_mem);
-    sdp_mem_ref_dec(scaled_residuals_mem);
-    sdp_mem_ref_dec(scaled_psf_mem);
-    sdp_mem_ref_dec(cur_scaled_psf_mem);
-    sdp_mem_ref_dec(cur_scaled_psf_pre_mem);
-    sdp_mem_ref_dec(scale_kern_list_mem);
-    sdp_mem_ref_dec(cur_1_scale_kern_mem);
-    sdp_mem_ref_dec(cur_2_scale_kern_mem);
-    sdp_mem_ref_dec(coupling_matrix_mem);
-    sdp_mem_ref_dec(peak_per_scale_mem);
-    sdp_mem_ref_dec(index_per_scale_mem);
-    sdp_mem_ref_dec(x_per_scale_mem);
-    sdp_mem_ref_dec(y_per_scale_mem);
-    sdp_mem_ref_dec(convolution_result_mem);
+    release();
 }
 
 
-- 
2.43.0


From bda495ba8bf13aa323e62037738b791efcb763b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 70/88] fix: window functions report when their arrays cannot
 be created

---
 src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp      | 11 +++++++++++
 .../grid_data/sdp_gridder_grid_correct.cpp            |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
index d113835..ffa5555 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_pswf.cpp
@@ -621,6 +621,11 @@ sdp_Pswf* sdp_pswf_create(int m, double c)
     plan->coeff = sdp_mem_create(
             SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, coeff_shape, &status
     );
+    if (status)
+    {
+        sdp_pswf_free(plan);
+        return 0;
+    }
     plan->coeff_p = (double*) sdp_mem_data(plan->coeff);
     plan->m = m;
     plan->c = c;
@@ -717,6 +722,11 @@ void sdp_pswf_generate(
 )
 {
     if (*status) return;
+    if (!plan)
+    {
+        *status = SDP_ERR_MEM_ALLOC_FAILURE;
+        return;
+    }
     sdp_Mem* out_ptr = out;
     if (out && size == 0)
     {
@@ -742,6 +752,7 @@ void sdp_pswf_generate(
                 SDP_MEM_DOUBLE, SDP_MEM_CPU, 1, shape, status
         );
         out_ptr = plan->pswf;
+        if (*status) return;
     }
     else
     {
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
index eb25157..ab7fef4 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_grid_correct.cpp
@@ -162,6 +162,13 @@ void sdp_gridder_grid_correct_pswf(
     sdp_Pswf* pswf_n = sdp_pswf_create(0, w_support * (M_PI / 2));
     sdp_Pswf* pswf_lm = sdp_pswf_create(0, support * (M_PI / 2));
     sdp_pswf_generate(pswf_lm, 0, image_size, 1, status);
+    if (!*status && !pswf_n) *status = SDP_ERR_MEM_ALLOC_FAILURE;
+    if (*status)
+    {
+        sdp_pswf_free(pswf_n);
+        sdp_pswf_free(pswf_lm);
+        return;
+    }
 
     // Apply grid correction for the appropriate data type.
     const sdp_MemLocation loc = sdp_mem_location(facet);
-- 
2.43.0


From 36cbb6d871852f14ef286e51ee8ff320c8f55fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 71/88] fix: SwiFTly releases its arrays if one of them cannot
 be created

---
 .../fourier_transforms/sdp_swiftly.cpp        | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
index c4ad30a..228cb85 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_swiftly.cpp
@@ -81,7 +81,7 @@ sdp_SwiFTly* sdp_swiftly_create(
             &yN_size,
             status
     );
-    if (*status) return NULL;
+    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
     sdp_generate_pswf(0, W * (M_PI / 2), Fb_mem, status);
     if (*status) { sdp_mem_free(Fb_mem); return NULL; }
 
@@ -93,7 +93,12 @@ sdp_SwiFTly* sdp_swiftly_create(
             &xM_yN_size,
             status
     );
-    if (*status) { sdp_mem_free(Fb_mem); return NULL; }
+    if (*status)
+    {
+        sdp_mem_free(Fb_mem);
+        sdp_mem_free(Fn_mem);
+        return NULL;
+    }
 
     // Generate Fn
     const double* pswf = static_cast<double*>(sdp_mem_data(Fb_mem));
@@ -517,7 +522,11 @@ void sdp_swiftly_finish_subgrid_inplace(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
+    if (*status)
+    {
+        sdp_mem_free(tmp_mem);
+        return;
+    }
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
     assert(!*status);
@@ -583,7 +592,11 @@ void sdp_swiftly_finish_subgrid(
     sdp_Mem* buf_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg_img.shape, status
     );
-    if (*status) return;
+    if (*status)
+    {
+        sdp_mem_free(buf_mem);
+        return;
+    }
     sdp_MemViewCpu<std::complex<double>, 2> buf;
     sdp_mem_check_and_view(buf_mem, &buf, status);
     assert(!*status);
@@ -689,7 +702,11 @@ void sdp_swiftly_finish_subgrid_inplace_2d(
     sdp_Mem* tmp_mem = sdp_mem_create(SDP_MEM_COMPLEX_DOUBLE, SDP_MEM_CPU,
             2, sg.shape, status
     );
-    if (*status) return;
+    if (*status)
+    {
+        sdp_mem_free(tmp_mem);
+        return;
+    }
     sdp_MemViewCpu<std::complex<double>, 2> tmp;
     sdp_mem_check_and_view(tmp_mem, &tmp, status);
     assert(!*status);
-- 
2.43.0


From 391b1ccdc7e64d2ce40b3c0a4558f6982f1bc2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:52 +0000
Subject: [PATCH 72/88] fix: array views took strides which are not multiples
 of the element size to be so

---
 .../grid_data/sdp_grid_wstack_wtower.cpp      |  8 ++++++++
 .../grid_data/sdp_gridder_utils.cpp           |  1 +
 .../grid_data/sdp_gridder_wtower_height.cpp   |  3 ++-
 src/ska-sdp-func/utility/sdp_mem_view.h       | 20 +++++++++++++++++++
 4 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
index e1ef266..27d0fc2 100644
--- a/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_grid_wstack_wtower.cpp
@@ -85,6 +85,14 @@ void check_data(
     {
         *status = SDP_ERR_DATA_TYPE;
         SDP_LOG_ERROR("Unsupported data types");
+        return;
+    }
+    const int64_t element_size = sdp_mem_type_size(sdp_mem_type(image));
+    if (sdp_mem_stride_bytes_dim(image, 0) % element_size ||
+            sdp_mem_stride_bytes_dim(image, 1) % element_size)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("Image strides must be multiples of the element size");
     }
 }
 
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 7bbd784..59fcd45 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -50,6 +50,7 @@ void accum_scale_array(
     {
         sdp_MemViewCpu<const IN2_TYPE, 2> in2_;
         sdp_mem_check_and_view(in2, &in2_, status);
+        if (*status) return;
         if (exponent == 1)
         {
             #pragma omp parallel for
diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index e52eb02..4dee7c0 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -309,11 +309,12 @@ void sdp_gridder_worst_case_image(
     if (*status) return;
 
     // Put sources into corners, careful not to generate actual symmetries.
-    sdp_mem_clear_contents(image, status);
     if (sdp_mem_type(image) == SDP_MEM_COMPLEX_DOUBLE)
     {
         sdp_MemViewCpu<complex<double>, 2> image_;
         sdp_mem_check_and_view(image, &image_, status);
+        sdp_mem_clear_contents(image, status);
+        if (*status) return;
         image_(image_size / 2 + fov_edge, image_size / 2 + fov_edge) = 0.3;
         image_(image_size / 2 - fov_edge, image_size / 2 - fov_edge) = 0.2;
         image_(image_size / 2 + fov_edge, image_size / 2 - fov_edge - 1) = 0.3;
diff --git a/src/ska-sdp-func/utility/sdp_mem_view.h b/src/ska-sdp-func/utility/sdp_mem_view.h
index 1142c0b..1c4820c 100644
--- a/src/ska-sdp-func/utility/sdp_mem_view.h
+++ b/src/ska-sdp-func/utility/sdp_mem_view.h
@@ -363,6 +363,16 @@ void sdp_mem_check_and_view_at(
     int32_t dim;
     for (dim = 0; dim < num_dims; dim++)
     {
+        // Elements can be addressed only if strides are multiples of their size.
+        if (!*status && sdp_mem_shape_dim(mem, dim) > 1 &&
+                sdp_mem_stride_bytes_dim(mem, dim) % (int64_t) sizeof(num_t))
+        {
+            sdp_log_message(SDP_LOG_LEVEL_ERROR, stderr, func, file, line,
+                    "%s: Expected stride of dimension %d of '%s' to be a "
+                    "multiple of the element size!", func, (int) dim, expr
+            );
+            *status = SDP_ERR_INVALID_ARGUMENT;
+        }
         view->shape[dim] = *status ? 0 : sdp_mem_shape_dim(mem, dim);
         view->stride[dim] = *status ? 0 : sdp_mem_stride_elements_dim(mem, dim);
     }
@@ -415,6 +425,16 @@ void sdp_mem_check_and_view_at(
     view->ptr = static_cast<const num_t*>(sdp_mem_data_const(mem));
     for (int32_t dim = 0; dim < num_dims; dim++)
     {
+        // Elements can be addressed only if strides are multiples of their size.
+        if (!*status && sdp_mem_shape_dim(mem, dim) > 1 &&
+                sdp_mem_stride_bytes_dim(mem, dim) % (int64_t) sizeof(num_t))
+        {
+            sdp_log_message(SDP_LOG_LEVEL_ERROR, stderr, func, file, line,
+                    "%s: Expected stride of dimension %d of '%s' to be a "
+                    "multiple of the element size!", func, (int) dim, expr
+            );
+            *status = SDP_ERR_INVALID_ARGUMENT;
+        }
         view->shape[dim] = *status ? 0 : sdp_mem_shape_dim(mem, dim);
         view->stride[dim] = *status ? 0 : sdp_mem_stride_elements_dim(mem, dim);
     }
-- 
2.43.0


From 4003adf025459b87bcb3033b3417819e3de81630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 73/88] fix: the range of uv coordinates left out v

---
 src/ska_sdp_func/visibility/weighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska_sdp_func/visibility/weighting.py b/src/ska_sdp_func/visibility/weighting.py
index 46662eb..fa29ccd 100644
--- a/src/ska_sdp_func/visibility/weighting.py
+++ b/src/ska_sdp_func/visibility/weighting.py
@@ -54,7 +54,7 @@ def get_uv_range(uvw, freq_hz):
     :returns max_abs_uv: Maximum absolute value of UV coordinates
                          in wavelength units, real-valued
     """
-    max_abs_uv = numpy.amax(numpy.abs(uvw[:, :, 0:1]))
+    max_abs_uv = numpy.amax(numpy.abs(uvw[:, :, 0:2]))
     max_abs_uv *= freq_hz[-1] / 299792458.0
 
     return max_abs_uv
-- 
2.43.0


From 7041226ad8ac435ef2e0caf7f3d01875badd741e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 74/88] fix: copies of sky coordinates lost their epoch

---
 src/ska_sdp_func/utility/sky_coord.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska_sdp_func/utility/sky_coord.py b/src/ska_sdp_func/utility/sky_coord.py
index 0b631c1..2e83e27 100644
--- a/src/ska_sdp_func/utility/sky_coord.py
+++ b/src/ska_sdp_func/utility/sky_coord.py
@@ -68,6 +68,8 @@ class SkyCoord(StructWrapper):
         super().__init__(
             Lib.sdp_sky_coord_create, create_args, Lib.sdp_sky_coord_free
         )
+        if len(args) == 1 and isinstance(args[0], SkyCoord):
+            self.set_epoch(args[0].epoch())
 
     def epoch(self) -> float:
         """Returns the value of the coordinate epoch"""
-- 
2.43.0


From f557f5d621d734b02bab9364ed10f6226afb1941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 75/88] fix: array handles did not keep the memory of their
 array

---
 src/ska_sdp_func/utility/mem.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ska_sdp_func/utility/mem.py b/src/ska_sdp_func/utility/mem.py
index c26f646..15bf71d 100644
--- a/src/ska_sdp_func/utility/mem.py
+++ b/src/ska_sdp_func/utility/mem.py
@@ -42,6 +42,8 @@ class Mem(StructWrapper):
         passed as the first argument.
         """
         obj = args[0] if len(args) == 1 else None
+        # The array must exist for as long as this handle does.
+        self._array = obj
         if isinstance(obj, numpy.ndarray):
             if obj.dtype in (numpy.int8, numpy.byte):
                 mem_type = self.MemType.SDP_MEM_CHAR
-- 
2.43.0


From 4724a5804b3ef4fbe2beb3b384bac96ee7dc69fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:47 +0000
Subject: [PATCH 76/88] fix: SwiFTly functions failed if given arguments by
 name

---
 src/ska_sdp_func/fourier_transforms/swiftly.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ska_sdp_func/fourier_transforms/swiftly.py b/src/ska_sdp_func/fourier_transforms/swiftly.py
index ca6c495..836be72 100644
--- a/src/ska_sdp_func/fourier_transforms/swiftly.py
+++ b/src/ska_sdp_func/fourier_transforms/swiftly.py
@@ -88,22 +88,22 @@ def auto_wrap_method(c_fn_name, add_handle=True, add_error_status=True):
 
             # Gather + wrap parameters
             bound = sig.bind(self, *args, **kwargs)
-            args = []
+            c_args = []
             if add_handle:
-                args.append(self.handle())
+                c_args.append(self.handle())
             for par in list(sig.parameters)[1:]:
                 wrap_fn = WRAPPER_FNS[anns[par]][1]
-                args.append(wrap_fn(bound.arguments[par]))
+                c_args.append(wrap_fn(bound.arguments[par]))
 
             # Call, passing an additional error status if requested
             if add_error_status:
-                error_checking(function)(*args)
+                error_checking(function)(*c_args)
             else:
-                function(*args)
+                function(*c_args)
 
             # Finally call original function, in case there's any
             # additional action to take.
-            return orig_fn(*args, **kwargs)
+            return orig_fn(self, *args, **kwargs)
 
         return wrapped_fn
 
-- 
2.43.0


From bad42df5e441803f517c990683088f0dee15fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 03:44:42 +0000
Subject: [PATCH 77/88] fix: first calls of a function by several threads could
 break it

---
 src/ska_sdp_func/utility/lib.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ska_sdp_func/utility/lib.py b/src/ska_sdp_func/utility/lib.py
index 5f1bd86..8d86fe2 100644
--- a/src/ska_sdp_func/utility/lib.py
+++ b/src/ska_sdp_func/utility/lib.py
@@ -154,10 +154,12 @@ class Lib(metaclass=LibMeta):
             raise KeyError(msg) from err
 
         func.restype = restype
-        func.argtypes = argtypes
         if check_errcode:
-            func.argtypes.append(ERROR_CODE_ARGTYPE)
+            # The list is shared by all threads getting here: don't modify it.
+            func.argtypes = argtypes + [ERROR_CODE_ARGTYPE]
             func = error_checking(func)
+        else:
+            func.argtypes = argtypes
         setattr(Lib, func_name, func)
 
     @staticmethod
-- 
2.43.0


From c8a2b80d02377405b5c4afc38ee29f0c47120c77 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 78/88] fix: worst-case image wrote outside images of odd size
 whose field of view reaches the edge

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 4dee7c0..4ecf5a6 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -297,7 +297,7 @@ void sdp_gridder_worst_case_image(
     {
         fov_edge -= 1;
     }
-    if (fov_edge < 1 || fov_edge >= (image_size + 1) / 2)
+    if (fov_edge < 1 || fov_edge >= image_size / 2)
     {
         *status = SDP_ERR_INVALID_ARGUMENT;
         SDP_LOG_ERROR("Field of view must be inside the image");
-- 
2.43.0


From 9b2bf50184ee4256b5267d6381223f37af24a571 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:50:49 +0000
Subject: [PATCH 79/88] fix: w-tower height search refuses numbers of samples
 which do not span the sub-grid

---
 src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
index 4ecf5a6..9a7df9c 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_wtower_height.cpp
@@ -203,6 +203,12 @@ double sdp_gridder_determine_max_w_tower_height(
 )
 {
     if (*status) return 0.0;
+    if (num_samples < 0 || num_samples == 1)
+    {
+        *status = SDP_ERR_INVALID_ARGUMENT;
+        SDP_LOG_ERROR("At least two samples are needed in u and v");
+        return 0.0;
+    }
 
     // Create a gridding kernel to use for the assessment.
     sdp_GridderWtowerUVW* kernel = sdp_gridder_wtower_uvw_create(
-- 
2.43.0


From 0b514de31ce20111a6f1ae6f082d4a443c51ced0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:53:57 +0000
Subject: [PATCH 80/88] fix: choice of the gridding kernel read past its table
 for large images

---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
index 4eba31b..029c8d4 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
@@ -1,5 +1,6 @@
 /* See the LICENSE file at the top-level directory of this distribution. */
 
+#include <climits>
 #include <cmath>
 #include <stdint.h>
 
@@ -511,7 +512,7 @@ void sdp_calculate_params_from_epsilon(
         }
     }
 
-    int min_nu = 80000, min_idx = num_kernels;
+    int min_nu = INT_MAX, min_idx = num_kernels - 1;
 
     for (int i = 0; i < num_opts; ++i)
     {
-- 
2.43.0


From 5cac3683d727f88c0324a43b40b9577de94cbbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:54:10 +0000
Subject: [PATCH 81/88] fix: iteration for Legendre roots stopped whenever a
 root was approached from above

---
 src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
index 029c8d4..4935083 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_uvw_es_fft_utils.cpp
@@ -98,7 +98,7 @@ double sdp_calculate_legendre_root(
         next_estimate = estimate - p_n / derivative;
         iterations++;
     }
-    while (fdim(next_estimate, estimate) > accuracy &&
+    while (fabs(next_estimate - estimate) > accuracy &&
             iterations < MAX_NEWTON_RAPHSON_ITERATIONS);
 
     // Gauss-Legendre quadrature weight for x
-- 
2.43.0


From a971e2efaaf9fe153091e27b70e5cdb51fe19693 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 04:57:30 +0000
Subject: [PATCH 82/88] fix: time stamps of messages logged by several threads
 at once were mixed up

---
 src/ska-sdp-func/utility/sdp_logging.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_logging.c b/src/ska-sdp-func/utility/sdp_logging.c
index 099144e..da98e6b 100644
--- a/src/ska-sdp-func/utility/sdp_logging.c
+++ b/src/ska-sdp-func/utility/sdp_logging.c
@@ -63,11 +63,12 @@ void sdp_log_message(
     struct timeval tv;
     gettimeofday(&tv, 0);
     const time_t unix_time = tv.tv_sec;
-    struct tm* timeinfo = gmtime(&unix_time);
+    struct tm timeinfo;
+    (void) gmtime_r(&unix_time, &timeinfo);
     if (snprintf(time_str, sizeof(time_str),
             "%04d-%02d-%02dT%02d:%02d:%02d.%03dZ",
-            timeinfo->tm_year + 1900, timeinfo->tm_mon + 1, timeinfo->tm_mday,
-            timeinfo->tm_hour, timeinfo->tm_min, timeinfo->tm_sec,
+            timeinfo.tm_year + 1900, timeinfo.tm_mon + 1, timeinfo.tm_mday,
+            timeinfo.tm_hour, timeinfo.tm_min, timeinfo.tm_sec,
             (int)(tv.tv_usec) / 1000
             ) >= (int) sizeof(time_str))
     {
-- 
2.43.0


From df05af0a8546723697640c8338a02f8372fe34bf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 05:48:10 +0000
Subject: [PATCH 83/88] fix: setting the values of an array of more than 2^31
 elements had no effect

---
 src/ska-sdp-func/utility/sdp_mem.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_mem.cpp b/src/ska-sdp-func/utility/sdp_mem.cpp
index 5844172..3ea99dd 100644
--- a/src/ska-sdp-func/utility/sdp_mem.cpp
+++ b/src/ska-sdp-func/utility/sdp_mem.cpp
@@ -139,9 +139,9 @@ void set_value_1d(sdp_Mem* mem, int value, sdp_Error* status)
 {
     sdp_MemViewCpu<T, 1> mem_;
     sdp_mem_check_and_view(mem, &mem_, status);
-    const int shape0 = (int) mem_.shape[0];
+    const int64_t shape0 = mem_.shape[0];
     #pragma omp parallel for
-    for (int i = 0; i < shape0; ++i)
+    for (int64_t i = 0; i < shape0; ++i)
     {
         mem_(i) = (T) value;
     }
@@ -154,12 +154,12 @@ void set_value_2d(sdp_Mem* mem, int value, sdp_Error* status)
 {
     sdp_MemViewCpu<T, 2> mem_;
     sdp_mem_check_and_view(mem, &mem_, status);
-    const int shape0 = (int) mem_.shape[0];
-    const int shape1 = (int) mem_.shape[1];
+    const int64_t shape0 = mem_.shape[0];
+    const int64_t shape1 = mem_.shape[1];
     #pragma omp parallel for
-    for (int i = 0; i < shape0; ++i)
+    for (int64_t i = 0; i < shape0; ++i)
     {
-        for (int j = 0; j < shape1; ++j)
+        for (int64_t j = 0; j < shape1; ++j)
         {
             mem_(i, j) = (T) value;
         }
@@ -173,15 +173,15 @@ void set_value_3d(sdp_Mem* mem, int value, sdp_Error* status)
 {
     sdp_MemViewCpu<T, 3> mem_;
     sdp_mem_check_and_view(mem, &mem_, status);
-    const int shape0 = (int) mem_.shape[0];
-    const int shape1 = (int) mem_.shape[1];
-    const int shape2 = (int) mem_.shape[2];
+    const int64_t shape0 = mem_.shape[0];
+    const int64_t shape1 = mem_.shape[1];
+    const int64_t shape2 = mem_.shape[2];
     #pragma omp parallel for
-    for (int i = 0; i < shape0; ++i)
+    for (int64_t i = 0; i < shape0; ++i)
     {
-        for (int j = 0; j < shape1; ++j)
+        for (int64_t j = 0; j < shape1; ++j)
         {
-            for (int k = 0; k < shape2; ++k)
+            for (int64_t k = 0; k < shape2; ++k)
             {
                 mem_(i, j, k) = (T) value;
             }
-- 
2.43.0


From 2b0d16d1dab255988316e8d523e3c471a719a8bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:22:13 +0000
Subject: [PATCH 84/88] fix: flagging more than 2^31 visibilities used indices
 which overflow

---
 src/ska-sdp-func/visibility/sdp_flagger.cpp | 28 ++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_flagger.cpp b/src/ska-sdp-func/visibility/sdp_flagger.cpp
index 0ac7059..24a042a 100644
--- a/src/ska-sdp-func/visibility/sdp_flagger.cpp
+++ b/src/ska-sdp-func/visibility/sdp_flagger.cpp
@@ -139,10 +139,10 @@ static void flagger_dynamic_threshold(
         const int sampling_step,
         const int window,
         const int window_median_history,
-        const int num_timesamples,
-        const int num_baselines,
-        const int num_channels,
-        const int num_pols
+        const int64_t num_timesamples,
+        const int64_t num_baselines,
+        const int64_t num_channels,
+        const int64_t num_pols
 )
 {
 #pragma omp parallel
@@ -167,9 +167,9 @@ static void flagger_dynamic_threshold(
                 for (int t = 0; t < num_timesamples; t++)
                 {
                     int situation = 0;
-                    int time_block = num_baselines * num_channels * num_pols;
-                    int baseline_block = num_channels * num_pols;
-                    int baseline_pos = t * time_block + b * baseline_block;
+                    int64_t time_block = num_baselines * num_channels * num_pols;
+                    int64_t baseline_block = num_channels * num_pols;
+                    int64_t baseline_pos = t * time_block + b * baseline_block;
 
                     int medwindow = std::min(t + 1, window_median_history);
                     double* medarray = new double[medwindow];
@@ -179,7 +179,7 @@ static void flagger_dynamic_threshold(
 
                     for (int s = 0; s < num_samples; s++)
                     {
-                        int pos = baseline_pos + (s * sampling_step) *
+                        int64_t pos = baseline_pos + (s * sampling_step) *
                                 num_pols + p;
                         samples[s] = abs(visibilities[pos]);
                     }
@@ -219,7 +219,7 @@ static void flagger_dynamic_threshold(
 
                     for (int c = 0; c < num_channels; c++)
                     {
-                        int pos = baseline_pos + c * num_pols + p;
+                        int64_t pos = baseline_pos + c * num_pols + p;
                         double vis1 = abs(visibilities[pos]);
                         double zscore_mags = modified_zscore(median,
                                 mediandev,
@@ -258,12 +258,12 @@ static void flagger_dynamic_threshold(
 
                     if (t > 0)
                     {
-                        int baseline_pos_minus_one = (t - 1) * time_block + b *
+                        int64_t baseline_pos_minus_one = (t - 1) * time_block + b *
                                 baseline_block;
                         for (int c = 0; c < num_channels; c++)
                         {
-                            int pos0 = baseline_pos + c * num_pols + p;
-                            int pos1 = (t - 1) * time_block + b *
+                            int64_t pos0 = baseline_pos + c * num_pols + p;
+                            int64_t pos1 = (t - 1) * time_block + b *
                                     baseline_block + c * num_pols + p;
                             double vis0 = abs(visibilities[pos0]);
                             double vis1 = abs(visibilities[pos1]);
@@ -302,8 +302,8 @@ static void flagger_dynamic_threshold(
 
                         for (int c = 0; c < num_channels; c++)
                         {
-                            int pos = baseline_pos + c * num_pols + p;
-                            int pos_minus_one = baseline_pos_minus_one + c *
+                            int64_t pos = baseline_pos + c * num_pols + p;
+                            int64_t pos_minus_one = baseline_pos_minus_one + c *
                                     num_pols + p;
                             double ts = abs(transit_score[c]);
                             double zscore_vars = modified_zscore(medianvar,
-- 
2.43.0


From faa08f6670985f922c3cfe93c19614ade6fbc4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:22:13 +0000
Subject: [PATCH 85/88] fix: predicting more than 2^32 visibilities used
 indices which overflow

---
 src/ska-sdp-func/visibility/sdp_dft.cpp | 36 ++++++++++++-------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/ska-sdp-func/visibility/sdp_dft.cpp b/src/ska-sdp-func/visibility/sdp_dft.cpp
index f70886c..217ed3b 100644
--- a/src/ska-sdp-func/visibility/sdp_dft.cpp
+++ b/src/ska-sdp-func/visibility/sdp_dft.cpp
@@ -24,11 +24,11 @@ template<
         typename VIS_TYPE
 >
 static void dft_point_v00(
-        const int num_components,
-        const int num_pols,
-        const int num_channels,
-        const int num_baselines,
-        const int num_times,
+        const int64_t num_components,
+        const int64_t num_pols,
+        const int64_t num_channels,
+        const int64_t num_baselines,
+        const int64_t num_times,
         const DIR_TYPE* const __restrict__ source_directions,
         const complex<FLUX_TYPE>* const __restrict__ source_fluxes,
         const UVW_TYPE* const __restrict__ uvw_lambda,
@@ -47,7 +47,7 @@ static void dft_point_v00(
                 vis_local[0] = vis_local[1] = vis_local[2] = vis_local[3] = 0;
 
                 // Load uvw-coordinates.
-                const unsigned int i_uvw = INDEX_4D(
+                const int64_t i_uvw = INDEX_4D(
                         num_times, num_baselines, num_channels, 3,
                         i_time, i_baseline, i_channel, 0
                 );
@@ -59,7 +59,7 @@ static void dft_point_v00(
                 for (int i_component = 0;
                         i_component < num_components; ++i_component)
                 {
-                    const unsigned int i_dir = 3 * i_component;
+                    const int64_t i_dir = 3 * i_component;
                     const DIR_TYPE l = source_directions[i_dir];
                     const DIR_TYPE m = source_directions[i_dir + 1];
                     const DIR_TYPE n = source_directions[i_dir + 2];
@@ -69,7 +69,7 @@ static void dft_point_v00(
                     const complex<VIS_TYPE> phasor(cos_phase, sin_phase);
 
                     // Multiply by flux in each polarisation and accumulate.
-                    const unsigned int i_pol_start = INDEX_3D(
+                    const int64_t i_pol_start = INDEX_3D(
                             num_components, num_channels, num_pols,
                             i_component, i_channel, 0
                     );
@@ -86,7 +86,7 @@ static void dft_point_v00(
                 // Write out local visibility.
                 for (int i_pol = 0; i_pol < num_pols; ++i_pol)
                 {
-                    const unsigned int i_out = INDEX_4D(
+                    const int64_t i_out = INDEX_4D(
                             num_times, num_baselines, num_channels, num_pols,
                             i_time, i_baseline, i_channel, i_pol
                     );
@@ -257,11 +257,11 @@ template<
         typename VIS_TYPE
 >
 static void dft_point_v01(
-        const int num_components,
-        const int num_pols,
-        const int num_channels,
-        const int num_baselines,
-        const int num_times,
+        const int64_t num_components,
+        const int64_t num_pols,
+        const int64_t num_channels,
+        const int64_t num_baselines,
+        const int64_t num_times,
         const DIR_TYPE* const __restrict__ source_directions,
         const complex<FLUX_TYPE>* const __restrict__ source_fluxes,
         const UVW_TYPE* const __restrict__ uvw_metres,
@@ -276,7 +276,7 @@ static void dft_point_v01(
         for (int i_baseline = 0; i_baseline < num_baselines; ++i_baseline)
         {
             // Load uvw-coordinates.
-            const unsigned int i_uvw = INDEX_3D(
+            const int64_t i_uvw = INDEX_3D(
                     num_times, num_baselines, 3,
                     i_time, i_baseline, 0
             );
@@ -298,7 +298,7 @@ static void dft_point_v01(
                 for (int i_component = 0;
                         i_component < num_components; ++i_component)
                 {
-                    const unsigned int i_dir = 3 * i_component;
+                    const int64_t i_dir = 3 * i_component;
                     const DIR_TYPE l = source_directions[i_dir];
                     const DIR_TYPE m = source_directions[i_dir + 1];
                     const DIR_TYPE n = source_directions[i_dir + 2];
@@ -307,7 +307,7 @@ static void dft_point_v01(
                     const complex<VIS_TYPE> phasor(cos(phase), sin(phase));
 
                     // Multiply by flux in each polarisation and accumulate.
-                    const unsigned int i_pol_start = INDEX_3D(
+                    const int64_t i_pol_start = INDEX_3D(
                             num_components, num_channels, num_pols,
                             i_component, i_channel, 0
                     );
@@ -324,7 +324,7 @@ static void dft_point_v01(
                 // Write out local visibility.
                 for (int i_pol = 0; i_pol < num_pols; ++i_pol)
                 {
-                    const unsigned int i_out = INDEX_4D(
+                    const int64_t i_out = INDEX_4D(
                             num_times, num_baselines, num_channels, num_pols,
                             i_time, i_baseline, i_channel, i_pol
                     );
-- 
2.43.0


From bba5e61d3a419c6dc290446a468a105053839cce Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 06:24:35 +0000
Subject: [PATCH 86/88] fix: interquartile range of a set of timers was wrong
 unless their number is a multiple of four

The index of the upper quartile was three times the truncated index of the
lower one: for seven timers it was the median, and for two or three timers
the range was always zero.
---
 src/ska-sdp-func/utility/sdp_timer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/utility/sdp_timer.cpp b/src/ska-sdp-func/utility/sdp_timer.cpp
index e33e46f..33362cc 100644
--- a/src/ska-sdp-func/utility/sdp_timer.cpp
+++ b/src/ska-sdp-func/utility/sdp_timer.cpp
@@ -280,7 +280,7 @@ struct sdp_TimerNode
             sum += elapsed;
             if (node.tmr.size() > 1)
             {
-                const int num = (int) node.tmr.size(), quart = num / 4;
+                const int num = (int) node.tmr.size();
                 vector<double> time(num);
                 for (int i = 0; i < num; ++i)
                 {
@@ -293,7 +293,7 @@ struct sdp_TimerNode
                 WRITE_LINE("Maximum", time[num - 1]);
                 WRITE_LINE("Median",  time[num / 2]);
                 WRITE_TIME("Interquartile range",
-                        (time[3 * quart] - time[quart])
+                        (time[3 * num / 4] - time[num / 4])
                 );
             }
             if (node.child.size() > 0)
-- 
2.43.0


From d61ede770eb7fb486e19c6957c5dac14de4ff4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:18:49 +0000
Subject: [PATCH 87/88] fix: normalising an image of more than 2^31 pixels used
 a factor which overflowed

---
 src/ska-sdp-func/fourier_transforms/sdp_fft.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
index ad173bc..4645670 100644
--- a/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
+++ b/src/ska-sdp-func/fourier_transforms/sdp_fft.cpp
@@ -973,7 +973,7 @@ static void fft_norm(sdp_Mem* data, sdp_Error* status)
     sdp_mem_check_and_view(data, &data_, status);
     const int num_x = (int) data_.shape[0];
     const int num_y = (int) data_.shape[1];
-    const double factor = 1.0 / (num_x * num_y);
+    const double factor = 1.0 / ((double) num_x * num_y);
     #pragma omp parallel for
     for (int ix = 0; ix < num_x; ++ix)
     {
@@ -1010,7 +1010,7 @@ void sdp_fft_norm(sdp_Mem* data, sdp_Error* status)
         const int num_y = sdp_mem_shape_dim(data, 1);
         num_blocks[0] = (num_x + num_threads[0] - 1) / num_threads[0];
         num_blocks[1] = (num_y + num_threads[1] - 1) / num_threads[1];
-        const double factor = 1.0 / (num_x * num_y);
+        const double factor = 1.0 / ((double) num_x * num_y);
         sdp_MemViewGpu<complex<double>, 2> data_dbl;
         sdp_MemViewGpu<complex<float>, 2> data_flt;
         const char* kernel_name = 0;
-- 
2.43.0


From 19ad241592154f619ff72307e799a91a9b35fbaf Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Fri, 20 Nov 2026 07:18:49 +0000
Subject: [PATCH 88/88] fix: RMS difference of images of more than 2^31 pixels
 was not a number

---
 src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
index 59fcd45..29a429f 100644
--- a/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
+++ b/src/ska-sdp-func/grid_data/sdp_gridder_utils.cpp
@@ -479,7 +479,7 @@ double rms_diff(const sdp_Mem* a, const sdp_Mem* b, sdp_Error* status)
     double sum_sq_diff = 0.0;
     const int num_x = (int) a_.shape[0];
     const int num_y = (int) a_.shape[1];
-    const int size = num_x * num_y;
+    const double size = (double) num_x * num_y;
     #pragma omp parallel for reduction(+:sum_sq_diff) collapse(2)
     for (int i = 0; i < num_x; ++i)
     {
-- 
2.43.0

