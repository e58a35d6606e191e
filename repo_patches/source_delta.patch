From c7fa92c9b2e7d81c54f15287029ee182ab085825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:30 +0000
Subject: [PATCH 01/32] fix: soa_grid::swap() needs to exchange all three
 dimensions and extents

---
 include/libflatarray/soa_grid.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 65ce0d7..14fa180 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -120,11 +120,11 @@ public:
     {
         using std::swap;
         swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_dim_x, other.my_dim_x);
-        swap(my_extent_x, other.my_extent_x);
-        swap(my_extent_x, other.my_extent_x);
+        swap(my_dim_y, other.my_dim_y);
+        swap(my_dim_z, other.my_dim_z);
         swap(my_extent_x, other.my_extent_x);
+        swap(my_extent_y, other.my_extent_y);
+        swap(my_extent_z, other.my_extent_z);
         swap(my_byte_size, other.my_byte_size);
         swap(my_data, other.my_data);
         swap(cell_staging_buffer, other.cell_staging_buffer);
-- 
2.43.0


From cf51639b24d77464eabb202d4be16c9dfec2d3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:45 +0000
Subject: [PATCH 02/32] fix: integer short_vec operator/= needs to truncate
 like operator/ does

---
 .../detail/short_vec_avx512_int_16.hpp           |  2 +-
 .../detail/short_vec_avx512_int_32.hpp           |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_16.hpp |  4 ++--
 .../libflatarray/detail/short_vec_avx_int_32.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_avx_int_8.hpp  |  2 +-
 .../libflatarray/detail/short_vec_sse_int_16.hpp |  8 ++++----
 .../libflatarray/detail/short_vec_sse_int_32.hpp | 16 ++++++++--------
 .../libflatarray/detail/short_vec_sse_int_4.hpp  |  2 +-
 8 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_avx512_int_16.hpp b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
index 3c4c47b..abee972 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_16.hpp
@@ -130,7 +130,7 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
+        val = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val),
                                                 _mm512_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx512_int_32.hpp b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
index ee87547..7f48fec 100644
--- a/include/libflatarray/detail/short_vec_avx512_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx512_int_32.hpp
@@ -138,9 +138,9 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 0]),
                                                 _mm512_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm512_cvtps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm512_cvttps_epi32(_mm512_div_ps(_mm512_cvtepi32_ps(val[ 1]),
                                                 _mm512_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_16.hpp b/include/libflatarray/detail/short_vec_avx_int_16.hpp
index e409af1..90f3b28 100644
--- a/include/libflatarray/detail/short_vec_avx_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_16.hpp
@@ -140,9 +140,9 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_32.hpp b/include/libflatarray/detail/short_vec_avx_int_32.hpp
index 2819b04..5213944 100644
--- a/include/libflatarray/detail/short_vec_avx_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_32.hpp
@@ -158,13 +158,13 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 0]),
                                                 _mm256_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 1]),
                                                 _mm256_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 2]),
                                                 _mm256_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val[ 3]),
                                                 _mm256_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_avx_int_8.hpp b/include/libflatarray/detail/short_vec_avx_int_8.hpp
index 91a2918..b801ee5 100644
--- a/include/libflatarray/detail/short_vec_avx_int_8.hpp
+++ b/include/libflatarray/detail/short_vec_avx_int_8.hpp
@@ -132,7 +132,7 @@ public:
     inline
     void operator/=(const short_vec<int, 8>& other)
     {
-        val = _mm256_cvtps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
+        val = _mm256_cvttps_epi32(_mm256_div_ps(_mm256_cvtepi32_ps(val),
                                                 _mm256_cvtepi32_ps(other.val)));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_16.hpp b/include/libflatarray/detail/short_vec_sse_int_16.hpp
index 6eb61e3..29139e8 100644
--- a/include/libflatarray/detail/short_vec_sse_int_16.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_16.hpp
@@ -236,13 +236,13 @@ public:
     inline
     void operator/=(const short_vec<int, 16>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_32.hpp b/include/libflatarray/detail/short_vec_sse_int_32.hpp
index 6896002..cdf2c56 100644
--- a/include/libflatarray/detail/short_vec_sse_int_32.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_32.hpp
@@ -336,21 +336,21 @@ public:
     inline
     void operator/=(const short_vec<int, 32>& other)
     {
-        val[ 0] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
+        val[ 0] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 0]),
                                           _mm_cvtepi32_ps(other.val[ 0])));
-        val[ 1] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
+        val[ 1] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 1]),
                                           _mm_cvtepi32_ps(other.val[ 1])));
-        val[ 2] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
+        val[ 2] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 2]),
                                           _mm_cvtepi32_ps(other.val[ 2])));
-        val[ 3] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
+        val[ 3] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 3]),
                                           _mm_cvtepi32_ps(other.val[ 3])));
-        val[ 4] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
+        val[ 4] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 4]),
                                           _mm_cvtepi32_ps(other.val[ 4])));
-        val[ 5] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
+        val[ 5] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 5]),
                                           _mm_cvtepi32_ps(other.val[ 5])));
-        val[ 6] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
+        val[ 6] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 6]),
                                           _mm_cvtepi32_ps(other.val[ 6])));
-        val[ 7] = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
+        val[ 7] = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val[ 7]),
                                           _mm_cvtepi32_ps(other.val[ 7])));
     }
 
diff --git a/include/libflatarray/detail/short_vec_sse_int_4.hpp b/include/libflatarray/detail/short_vec_sse_int_4.hpp
index 80b70d6..879818b 100644
--- a/include/libflatarray/detail/short_vec_sse_int_4.hpp
+++ b/include/libflatarray/detail/short_vec_sse_int_4.hpp
@@ -165,7 +165,7 @@ public:
     inline
     void operator/=(const short_vec<int, 4>& other)
     {
-        val = _mm_cvtps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
+        val = _mm_cvttps_epi32(_mm_div_ps(_mm_cvtepi32_ps(val),
                                           _mm_cvtepi32_ps(other.val)));
     }
 
-- 
2.43.0


From e57a176876f64afab047db2bcf5dbc67d5776984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:45 +0000
Subject: [PATCH 03/32] fix: sign-extend 32-bit gather offsets before using
 them as 64-bit index register

---
 include/libflatarray/detail/short_vec_helpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_helpers.hpp b/include/libflatarray/detail/short_vec_helpers.hpp
index 0a7ef9a..34a1186 100644
--- a/include/libflatarray/detail/short_vec_helpers.hpp
+++ b/include/libflatarray/detail/short_vec_helpers.hpp
@@ -93,7 +93,7 @@
 #define SHORTVEC_INSERT_PS(a, base, offset, idx)                        \
     do {                                                                \
         asm volatile ("insertps %1, (%q2, %q3, 4), %0\n"                \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
@@ -112,7 +112,7 @@
 #define SHORTVEC_INSERT_PS_AVX(a, base, offset, idx)                    \
     do {                                                                \
         asm volatile ("vinsertps %1, (%q2, %q3, 4), %0, %0\n"           \
-                      : "+x" (a) : "N" (idx), "r" (base), "r" (offset) : "memory"); \
+                      : "+x" (a) : "N" (idx), "r" (base), "r" (static_cast<long long>(offset)) : "memory"); \
     } while (0)
 
 #endif
-- 
2.43.0


From bd2194a332ad6df6660ceeb21156e60388a284c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:21 +0000
Subject: [PATCH 04/32] fix: loop_peeler must not run scalar iterations beyond
 the end of the loop

If begin and end lie within the same SIMD chunk, the initial scalar loop was
run up to the next multiple of the arity, even if that's behind the end.
---
 include/libflatarray/loop_peeler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 0319c87..488a46e 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -85,6 +85,9 @@
         COUNTER_TYPE next_stop = remainder ?                            \
             (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
             (X);                                                        \
+        if (next_stop > (END_X)) {                                      \
+            next_stop = (END_X);                                        \
+        }                                                               \
         COUNTER_TYPE last_stop = (END_X) -                              \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
@@ -109,6 +112,9 @@ void loop_peeler(COUNTER_TYPE1 *counter, const COUNTER_TYPE2& end, const LAMBDA&
     COUNTER_TYPE2 next_stop = remainder ?
         (*counter) + COUNTER_TYPE2(lfa_local_short_vec::ARITY) - remainder :
         (*counter);
+    if (next_stop > end) {
+        next_stop = end;
+    }
     COUNTER_TYPE2 last_stop = end - end % COUNTER_TYPE2(lfa_local_short_vec::ARITY);
 
     lambda(lfa_local_scalar(),    counter, next_stop);
-- 
2.43.0


From b27a6121c1d2c4512f0e503e521293712026f3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:21 +0000
Subject: [PATCH 05/32] fix: soa_array c-tor must reject more elements than fit
 its capacity

Initializing elements behind the array's capacity corrupts memory.
---
 include/libflatarray/soa_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 8a10c38..7fa6a9d 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -62,6 +62,11 @@ public:
     explicit soa_array(std::size_t elements = 0, const value_type& value = value_type()) :
         elements(elements)
     {
+#ifndef __CUDA_ARCH__
+        if (elements > SIZE) {
+            throw std::out_of_range("capacity exceeded");
+        }
+#endif
         construct_all_instances();
         for (soa_accessor<value_type, SIZE, 1, 1, 0> accessor(my_data, 0); accessor.index() < int(elements); accessor += 1) {
             accessor << value;
-- 
2.43.0


From 434ccccb909d0d5cea58fef4240dde8807d6a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:21 +0000
Subject: [PATCH 06/32] fix: copies of soa_arrays of same size need to copy
 members individually

The implicit c-tor and assignment operator copied the raw bytes, which breaks
non-trivial members: both arrays would then own (and destroy) the same data.
---
 include/libflatarray/soa_array.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 7fa6a9d..dab66cd 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -73,6 +73,17 @@ public:
         }
     }
 
+    // templates are never used as copy c-tors, and the implicit one
+    // would duplicate the members bytewise (although they get destroyed
+    // individually):
+    inline
+    __host__ __device__
+    soa_array(const soa_array& other)
+    {
+        construct_all_instances();
+        copy_in(other);
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
@@ -102,6 +113,14 @@ public:
 
     }
 
+    inline
+    __host__ __device__
+    soa_array& operator=(const soa_array& other)
+    {
+        copy_in(other);
+        return *this;
+    }
+
     template<int OTHER_SIZE>
     inline
     __host__ __device__
-- 
2.43.0


From 38bbfb495a926dd2761222ebc39fb42ff6d0efee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:21 +0000
Subject: [PATCH 07/32] fix: soa_vector::reserve() must not shrink the vector

A reserve() below the current size reallocated a smaller grid and then copied
all elements to it, writing behind its end.
---
 include/libflatarray/soa_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 34877f1..01bbcfd 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -112,6 +112,10 @@ public:
     __host__ __device__
     void reserve(std::size_t new_count)
     {
+        if (new_count <= capacity()) {
+            return;
+        }
+
         soa_grid<T, ALLOCATOR, USE_CUDA_FUNCTORS> new_grid(new_count, 1, 1);
         new_grid.resize(new_grid.extent_x(), 1, 1);
 
-- 
2.43.0


From 99e0aefef8698180ec67c2aad772168d2ad38db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:21 +0000
Subject: [PATCH 08/32] fix: soa_vector::push_back() must not place elements
 behind its capacity

Elements between dim_x and extent_x were neither constructed nor considered
for copying and destruction. Also, growing by 20% is a no-op for less than 5
elements.
---
 include/libflatarray/soa_vector.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 01bbcfd..6b35995 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -19,6 +19,7 @@
 #pragma warning( disable : 4514 )
 #endif
 
+#include <algorithm>
 #include <stdexcept>
 
 #ifdef _MSC_BUILD
@@ -146,9 +147,11 @@ public:
     __host__ __device__
     void push_back(const T& element)
     {
-        if (count == grid.extent_x()) {
+        // only elements within the capacity have been constructed and
+        // will be copied/destroyed by the grid:
+        if (count >= capacity()) {
             // fixme: make this configurable
-            reserve(static_cast<std::size_t>(count * 1.2));
+            reserve((std::max)(count + 1, static_cast<std::size_t>(count * 1.2)));
         }
         set(count, element);
         ++count;
-- 
2.43.0


From d0c517201326667f832e5e3262c9b55a08e63915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:55 +0000
Subject: [PATCH 09/32] fix: soa_grid c-tors need to set extents and byte size

Copies of grids and empty grids reported (and swapped, and in case of copied
soa_vectors: used) uninitialized values.
---
 include/libflatarray/soa_grid.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index 14fa180..c0323fe 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -88,6 +88,10 @@ public:
         my_dim_x(0),
         my_dim_y(0),
         my_dim_z(0),
+        my_extent_x(0),
+        my_extent_y(0),
+        my_extent_z(0),
+        my_byte_size(0),
         my_data(0)
     {
         resize(dim_x, dim_y, dim_z);
@@ -97,6 +101,9 @@ public:
         my_dim_x(other.my_dim_x),
         my_dim_y(other.my_dim_y),
         my_dim_z(other.my_dim_z),
+        my_extent_x(other.my_extent_x),
+        my_extent_y(other.my_extent_y),
+        my_extent_z(other.my_extent_z),
         my_byte_size(other.byte_size()),
         my_data(ALLOCATOR().allocate(other.byte_size()))
     {
-- 
2.43.0


From 96ac2a116c6797f6dbb80610d19a3f4df9dd4754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:21 +0000
Subject: [PATCH 10/32] fix: soa_grid::resize() needs to support empty grids
 and must leave the grid intact on failure

Assigning or copying an empty grid, or resizing to an unsupported size, threw
std::out_of_range after the old memory had been released, so the d-tor would
release it again.
---
 include/libflatarray/soa_grid.hpp | 59 +++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index c0323fe..c8ac7c2 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -105,8 +105,13 @@ public:
         my_extent_y(other.my_extent_y),
         my_extent_z(other.my_extent_z),
         my_byte_size(other.byte_size()),
-        my_data(ALLOCATOR().allocate(other.byte_size()))
+        my_data(0)
     {
+        if (is_empty(my_dim_x, my_dim_y, my_dim_z)) {
+            return;
+        }
+
+        my_data = ALLOCATOR().allocate(byte_size());
         init();
         copy_in(other);
     }
@@ -119,7 +124,9 @@ public:
     soa_grid& operator=(const soa_grid& other)
     {
         resize(other.my_dim_x, other.my_dim_y, other.my_dim_z);
-        copy_in(other);
+        if (!is_empty(my_dim_x, my_dim_y, my_dim_z)) {
+            copy_in(other);
+        }
         return *this;
     }
 
@@ -149,19 +156,37 @@ public:
             return;
         }
 
+        std::size_t new_byte_size = 0;
+        std::size_t new_extent_x = 0;
+        std::size_t new_extent_y = 0;
+        std::size_t new_extent_z = 0;
+        if (!is_empty(new_dim_x, new_dim_y, new_dim_z)) {
+            // we need select_sizes to round up our grid size. This will
+            // throw for unsupported sizes, hence the current contents
+            // may only be discarded afterwards.
+            detail::flat_array::set_byte_size_functor<value_type> functor(
+                &new_byte_size,
+                &new_extent_x,
+                &new_extent_y,
+                &new_extent_z);
+            api_traits::select_sizes<value_type>()(my_data, functor, new_dim_x, new_dim_y, new_dim_z);
+        }
+
         destroy_and_deallocate();
+        if (new_byte_size != 0) {
+            my_data = ALLOCATOR().allocate(new_byte_size);
+        }
 
         my_dim_x = new_dim_x;
         my_dim_y = new_dim_y;
         my_dim_z = new_dim_z;
-        // we need callback() to round up our grid size
-        callback(detail::flat_array::set_byte_size_functor<value_type>(
-                     &my_byte_size,
-                     &my_extent_x,
-                     &my_extent_y,
-                     &my_extent_z));
-        my_data = ALLOCATOR().allocate(byte_size());
-        init();
+        my_extent_x = new_extent_x;
+        my_extent_y = new_extent_y;
+        my_extent_z = new_extent_z;
+        my_byte_size = new_byte_size;
+        if (my_data != 0) {
+            init();
+        }
     }
 
     template<typename FUNCTOR>
@@ -470,6 +495,20 @@ private:
 
         callback(detail::flat_array::destroy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
         ALLOCATOR().deallocate(my_data, byte_size());
+
+        my_dim_x = 0;
+        my_dim_y = 0;
+        my_dim_z = 0;
+        my_extent_x = 0;
+        my_extent_y = 0;
+        my_extent_z = 0;
+        my_byte_size = 0;
+        my_data = 0;
+    }
+
+    static bool is_empty(std::size_t dim_x, std::size_t dim_y, std::size_t dim_z)
+    {
+        return (dim_x == 0) && (dim_y == 0) && (dim_z == 0);
     }
 
     void copy_in(const soa_grid& other)
-- 
2.43.0


From 472986f433043de4698fd97e12b05fb470fa708e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:50 +0000
Subject: [PATCH 11/32] fix: const operations of soa_grid must not modify the
 grid

get() and save() routed their target pointer through a member of the (const)
grid, so concurrent readers would write to each other's targets.
---
 include/libflatarray/soa_grid.hpp | 36 +++++++++++++++++--------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index c8ac7c2..bfb1ef4 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -246,33 +246,35 @@ public:
     value_type get(std::size_t x, std::size_t y, std::size_t z) const
     {
         value_type cell;
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(1);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(&cell);
+        cell_staging_buffer_type buffer;
+        buffer.resize(1);
+        buffer.prep(&cell);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
                      1));
 
-        cell_staging_buffer.save(&cell);
+        buffer.save(&cell);
         return cell;
     }
 
     void get(std::size_t x, std::size_t y, std::size_t z, value_type *cells, std::size_t count) const
     {
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).resize(count);
-        const_cast<cell_staging_buffer_type&>(cell_staging_buffer).prep(cells);
+        cell_staging_buffer_type buffer;
+        buffer.resize(count);
+        buffer.prep(cells);
 
         callback(detail::flat_array::get_instance_functor<value_type, USE_CUDA_FUNCTORS>(
-                     const_cast<cell_staging_buffer_type&>(cell_staging_buffer).data(),
+                     buffer.data(),
                      x,
                      y,
                      z,
                      count));
 
-        cell_staging_buffer.save(cells);
+        buffer.save(cells);
     }
 
     /**
@@ -342,18 +344,19 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
+        char_staging_buffer_type buffer;
+        buffer.resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
                      iter,
                      iter + 1,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        buffer.save(target);
     }
 
     template<typename ITERATOR>
@@ -363,18 +366,19 @@ public:
         char *target,
         std::size_t count) const
     {
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).resize(
+        char_staging_buffer_type buffer;
+        buffer.resize(
             count *
             aggregated_member_size<value_type>::VALUE);
-        const_cast<char_staging_buffer_type&>(raw_staging_buffer).prep(target);
+        buffer.prep(target);
 
         callback(detail::flat_array::save_functor<value_type, ITERATOR, USE_CUDA_FUNCTORS>(
                      begin,
                      end,
-                     const_cast<char_staging_buffer_type&>(raw_staging_buffer).data(),
+                     buffer.data(),
                      count));
 
-        raw_staging_buffer.save(target);
+        buffer.save(target);
     }
 
     std::size_t byte_size() const
-- 
2.43.0


From 8ce0de058fcce4495f504b02d881000a58fb4e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:07 +0000
Subject: [PATCH 12/32] fix: aligned_allocator must not write in front of its
 chunk for alignments below 4 bytes

---
 include/libflatarray/aligned_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index efa3ed4..67fb444 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -76,7 +76,7 @@ public:
 
         std::size_t offset = reinterpret_cast<std::size_t>(chunk) % ALIGNMENT;
         std::size_t correction = ALIGNMENT - offset;
-        if (correction < sizeof(char*)) {
+        while (correction < sizeof(char*)) {
             correction += ALIGNMENT;
         }
         char *ret = chunk + correction;
-- 
2.43.0


From bb8c4d217467e8dd39c58f5e7440b54b9e3ea4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:44 +0000
Subject: [PATCH 13/32] fix: soa_grid and soa_vector must support copying,
 swapping, paired callbacks and growth with any allocator

---
 include/libflatarray/soa_grid.hpp | 39 +++++++++++++++++--------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index bfb1ef4..e598fbd 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -83,6 +83,8 @@ public:
     typedef detail::flat_array::staging_buffer<char,      USE_CUDA_FUNCTORS> char_staging_buffer_type;
 
     friend class TestAssignment1;
+    template<typename OTHER_T, typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    friend class soa_grid;
 
     explicit soa_grid(std::size_t dim_x = 0, std::size_t dim_y = 0, std::size_t dim_z = 0) :
         my_dim_x(0),
@@ -201,15 +203,15 @@ public:
         api_traits::select_sizes<value_type>()(my_data, functor, my_dim_x, my_dim_y, my_dim_z);
     }
 
-    template<typename FUNCTOR>
-    void callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor)
+    template<typename FUNCTOR, typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    void callback(soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS> *other_grid, const FUNCTOR& functor)
     {
         typedef typename api_traits::select_asymmetric_dual_callback<value_type>::value value;
         dual_callback(other_grid, functor, value());
     }
 
-    template<typename FUNCTOR>
-    void callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor) const
+    template<typename FUNCTOR, typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    void callback(soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS> *other_grid, const FUNCTOR& functor) const
     {
         typedef typename api_traits::select_asymmetric_dual_callback<value_type>::value value;
         dual_callback(other_grid, functor, value());
@@ -444,23 +446,23 @@ private:
     cell_staging_buffer_type cell_staging_buffer;
     char_staging_buffer_type raw_staging_buffer;
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::true_type)
+    template<typename FUNCTOR, typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS> *other_grid, const FUNCTOR& functor, api_traits::true_type)
     {
         detail::flat_array::dual_callback_helper()(this, other_grid, functor);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::true_type) const
+    template<typename FUNCTOR, typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS> *other_grid, const FUNCTOR& functor, api_traits::true_type) const
     {
         detail::flat_array::dual_callback_helper()(this, other_grid, functor);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, FUNCTOR& functor, api_traits::false_type) const
+    template<typename FUNCTOR, typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS> *other_grid, FUNCTOR& functor, api_traits::false_type) const
     {
         assert_same_grid_sizes(other_grid);
-        detail::flat_array::dual_callback_helper_symmetric<soa_grid<value_type>, FUNCTOR> helper(
+        detail::flat_array::dual_callback_helper_symmetric<soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS>, FUNCTOR> helper(
             other_grid, functor);
 
         api_traits::select_sizes<value_type>()(
@@ -471,11 +473,11 @@ private:
             my_dim_z);
     }
 
-    template<typename FUNCTOR>
-    void dual_callback(soa_grid<value_type> *other_grid, const FUNCTOR& functor, api_traits::false_type) const
+    template<typename FUNCTOR, typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    void dual_callback(soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS> *other_grid, const FUNCTOR& functor, api_traits::false_type) const
     {
         assert_same_grid_sizes(other_grid);
-        detail::flat_array::const_dual_callback_helper_symmetric<soa_grid<value_type>, FUNCTOR> helper(
+        detail::flat_array::const_dual_callback_helper_symmetric<soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS>, FUNCTOR> helper(
             other_grid, functor);
 
         api_traits::select_sizes<value_type>()(
@@ -520,7 +522,8 @@ private:
         other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
     }
 
-    void assert_same_grid_sizes(const soa_grid<value_type> *other_grid) const
+    template<typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
+    void assert_same_grid_sizes(const soa_grid<value_type, OTHER_ALLOCATOR, OTHER_USE_CUDA_FUNCTORS> *other_grid) const
     {
         if ((my_dim_x != other_grid->my_dim_x) ||
             (my_dim_y != other_grid->my_dim_y) ||
@@ -536,8 +539,10 @@ private:
 #pragma warning( disable : 4711 )
 #endif
 
-template<typename value_type>
-void swap(soa_grid<value_type>& a, soa_grid<value_type>& b)
+template<typename value_type, typename ALLOCATOR, bool USE_CUDA_FUNCTORS>
+void swap(
+    soa_grid<value_type, ALLOCATOR, USE_CUDA_FUNCTORS>& a,
+    soa_grid<value_type, ALLOCATOR, USE_CUDA_FUNCTORS>& b)
 {
     a.swap(b);
 }
-- 
2.43.0


From 3fe5a620b2125c3c88a5b986b0581ef36a459ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:33 +0000
Subject: [PATCH 14/32] fix: copying a soa_array into a smaller one must not
 leave constructed members behind when it is refused

---
 include/libflatarray/soa_array.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index dab66cd..5c1d70c 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -89,6 +89,9 @@ public:
     __host__ __device__
     explicit soa_array(soa_array<value_type, OTHER_SIZE>& other)
     {
+        // needs to throw before any member is constructed, as the
+        // destructor won't run then:
+        check_capacity(other);
         construct_all_instances();
         copy_in(other);
     }
@@ -99,6 +102,9 @@ public:
     __host__ __device__
     explicit soa_array(const soa_array<value_type, OTHER_SIZE>& other)
     {
+        // needs to throw before any member is constructed, as the
+        // destructor won't run then:
+        check_capacity(other);
         construct_all_instances();
         copy_in(other);
     }
@@ -295,6 +301,16 @@ private:
     std::size_t elements;
     char my_data[BYTE_SIZE];
 
+    template<int OTHER_SIZE>
+    inline
+    __host__ __device__
+    static void check_capacity(const soa_array<value_type, OTHER_SIZE>& other)
+    {
+        if (other.size() > SIZE) {
+            throw std::out_of_range("insufficient capacity for copy (other soa_array too large)");
+        }
+    }
+
     inline
     __host__ __device__
     void construct_all_instances()
-- 
2.43.0


From 09808b667ee35da30707e966782d42bd1c127484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:11 +0000
Subject: [PATCH 15/32] fix: swap() of soa_arrays must not exchange members
 bytewise

---
 include/libflatarray/soa_array.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 5c1d70c..4a4a57a 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -342,9 +342,11 @@ private:
 template<typename value_type, int size>
 void swap(soa_array<value_type, size>& a, soa_array<value_type, size>& b)
 {
-    using std::swap;
-    swap(a.elements, b.elements);
-    swap(a.my_data,  b.my_data);
+    // members may refer to themselves (e.g. std::string), so exchanging
+    // the raw bytes won't do:
+    const soa_array<value_type, size> buf(a);
+    a = b;
+    b = buf;
 }
 
 }
-- 
2.43.0


From d07508bc3ebcf4e9385fd68f0315c511992d1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:53 +0000
Subject: [PATCH 16/32] fix: aligned_allocator must be convertible between
 value types

std::vector<bool, aligned_allocator<bool, 64> > did not compile: the
parameter of the converting c-tor could never be deduced (int vs.
std::size_t), and it was explicit.
---
 include/libflatarray/aligned_allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/aligned_allocator.hpp b/include/libflatarray/aligned_allocator.hpp
index 67fb444..af02783 100644
--- a/include/libflatarray/aligned_allocator.hpp
+++ b/include/libflatarray/aligned_allocator.hpp
@@ -46,8 +46,8 @@ public:
     inline aligned_allocator()
     {}
 
-    template<typename OTHER, int OTHER_ALIGNMENT>
-    inline explicit aligned_allocator(const aligned_allocator<OTHER, OTHER_ALIGNMENT>& /* other */)
+    template<typename OTHER, std::size_t OTHER_ALIGNMENT>
+    inline aligned_allocator(const aligned_allocator<OTHER, OTHER_ALIGNMENT>& /* other */)
     {}
 
     inline pointer address(reference x) const
-- 
2.43.0


From 708ed3f7ced1581e5df11b18e711103f4474d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:40 +0000
Subject: [PATCH 17/32] fix: relative access through const soa_accessors must
 compile

The operator returned a const_soa_accessor_light, which binds to a mutable
index and hence can't be built from a const accessor.
---
 include/libflatarray/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/macros.hpp b/include/libflatarray/macros.hpp
index 43d73d8..859fdad 100644
--- a/include/libflatarray/macros.hpp
+++ b/include/libflatarray/macros.hpp
@@ -217,10 +217,10 @@
         template<long X, long Y, long Z>                                \
         inline                                                          \
         __host__ __device__                                             \
-        const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[]( \
+        const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS> operator[](  \
             coord<X, Y, Z>) const                                       \
         {                                                               \
-            return const_soa_accessor_light<CELL_TYPE, LIBFLATARRAY_PARAMS>( \
+            return const_soa_accessor<CELL_TYPE, LIBFLATARRAY_PARAMS>(  \
                 my_data, my_index);                                     \
         }                                                               \
                                                                         \
-- 
2.43.0


From 62ca0219041a761a21efdecefcdf20014ca4041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:10 +0000
Subject: [PATCH 18/32] fix: api_traits::select_sizes must compile for constant
 data

The overloads for const char* created soa_accessors (which require mutable
data) in the end, so they could never be instantiated.
---
 include/libflatarray/detail/macros.hpp | 20 ++++++++----------
 include/libflatarray/soa_accessor.hpp  | 28 ++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/include/libflatarray/detail/macros.hpp b/include/libflatarray/detail/macros.hpp
index 65391db..a745840 100644
--- a/include/libflatarray/detail/macros.hpp
+++ b/include/libflatarray/detail/macros.hpp
@@ -329,33 +329,29 @@
 
 #define LIBFLATARRAY_CASE_DIM_Z(SIZE_INDEX, UNUSED, SIZE)               \
     if (dim_z <= SIZE) {                                                \
-        LibFlatArray::soa_accessor<CELL, DIM_X, DIM_Y, SIZE, 0>  accessor( \
-            data, 0);                                                   \
-        functor(accessor);                                              \
+        LibFlatArray::detail::flat_array::invoke_with_accessor<         \
+            CELL, DIM_X, DIM_Y, SIZE>(data, functor);                   \
         return;                                                         \
     }
 
 #define LIBFLATARRAY_CASE_DIM_MAX_3D(SIZE_INDEX, UNUSED, SIZE)          \
     if (maxDim <= SIZE) {                                               \
-        LibFlatArray::soa_accessor<CELL, SIZE, SIZE, SIZE, 0>  accessor( \
-            data, 0);                                                   \
-        functor(accessor);                                              \
+        LibFlatArray::detail::flat_array::invoke_with_accessor<         \
+            CELL, SIZE, SIZE, SIZE>(data, functor);                     \
         return;                                                         \
     }
 
 #define LIBFLATARRAY_CASE_DIM_MAX_2D(SIZE_INDEX, UNUSED, SIZE)          \
     if (maxDim <= SIZE) {                                               \
-        LibFlatArray::soa_accessor<CELL, SIZE, SIZE, 1, 0>  accessor(   \
-            data, 0);                                                   \
-        functor(accessor);                                              \
+        LibFlatArray::detail::flat_array::invoke_with_accessor<         \
+            CELL, SIZE, SIZE, 1>(data, functor);                        \
         return;                                                         \
     }
 
 #define LIBFLATARRAY_CASE_DIM_MAX_1D(SIZE_INDEX, UNUSED, SIZE)          \
     if (maxDim <= SIZE) {                                               \
-        LibFlatArray::soa_accessor<CELL, SIZE, 1, 1, 0>  accessor(      \
-            data, 0);                                                   \
-        functor(accessor);                                              \
+        LibFlatArray::detail::flat_array::invoke_with_accessor<         \
+            CELL, SIZE, 1, 1>(data, functor);                           \
         return;                                                         \
     }
 
diff --git a/include/libflatarray/soa_accessor.hpp b/include/libflatarray/soa_accessor.hpp
index eb92520..324c863 100644
--- a/include/libflatarray/soa_accessor.hpp
+++ b/include/libflatarray/soa_accessor.hpp
@@ -35,6 +35,34 @@ class soa_accessor_light;
 template<typename CELL, long DIM_X, long DIM_Y, long DIM_Z, long INDEX>
 class const_soa_accessor_light;
 
+namespace detail {
+
+namespace flat_array {
+
+/**
+ * Calls the functor with an accessor to the given data.
+ */
+template<typename CELL, long DIM_X, long DIM_Y, long DIM_Z, typename FUNCTOR>
+void invoke_with_accessor(char *data, FUNCTOR& functor)
+{
+    soa_accessor<CELL, DIM_X, DIM_Y, DIM_Z, 0> accessor(data, 0);
+    functor(accessor);
+}
+
+/**
+ * Same as above, but the accessor will not allow modifications.
+ */
+template<typename CELL, long DIM_X, long DIM_Y, long DIM_Z, typename FUNCTOR>
+void invoke_with_accessor(const char *data, FUNCTOR& functor)
+{
+    const_soa_accessor<CELL, DIM_X, DIM_Y, DIM_Z, 0> accessor(data, 0);
+    functor(accessor);
+}
+
+}
+
+}
+
 }
 
 #endif
-- 
2.43.0


From ef1c5ee9cd8151ed567e6ffdc585ae885cbaa2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:41 +0000
Subject: [PATCH 19/32] fix: const accessors must not grant write access to
 array members

The proxy for constant arrays existed, but wasn't used.
---
 include/libflatarray/detail/macros.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/libflatarray/detail/macros.hpp b/include/libflatarray/detail/macros.hpp
index a745840..7669f05 100644
--- a/include/libflatarray/detail/macros.hpp
+++ b/include/libflatarray/detail/macros.hpp
@@ -89,7 +89,7 @@
     }                                                                   \
     }
 
-#define LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER, CONST, INDEX_VAR) \
+#define LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER, CONST, REFERENCE, INDEX_VAR) \
     LIBFLATARRAY_ARRAY_CONDITIONAL(MEMBER, , template<int ARRAY_INDEX >) \
     inline                                                              \
     __host__ __device__                                                 \
@@ -115,27 +115,27 @@
         soa_array_member_copy_helper<DIM_PROD>::                        \
         template inner1<CELL>::                                         \
         template inner2<LIBFLATARRAY_ELEM(0, MEMBER)>::                 \
-        reference LIBFLATARRAY_ELEM(1, MEMBER)() CONST                  \
+        REFERENCE LIBFLATARRAY_ELEM(1, MEMBER)() CONST                  \
         {                                                               \
             return typename LibFlatArray::detail::                      \
                 soa_array_member_copy_helper<DIM_PROD>::                \
                 template inner1<CELL>::                                 \
                 template inner2<LIBFLATARRAY_ELEM(0, MEMBER)>::         \
-                reference((char*)&LIBFLATARRAY_ELEM(1, MEMBER)<0>());   \
+                REFERENCE((char*)&LIBFLATARRAY_ELEM(1, MEMBER)<0>());   \
         } )
 
 
 #define LIBFLATARRAY_DECLARE_SOA_MEMBER_CONST(MEMBER_INDEX, CELL, MEMBER) \
-    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER, const, my_index)
+    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER, const, const_reference, my_index)
 
 #define LIBFLATARRAY_DECLARE_SOA_MEMBER_NORMAL(MEMBER_INDEX, CELL, MEMBER) \
-    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER,      , my_index)
+    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER,      , reference, my_index)
 
 #define LIBFLATARRAY_DECLARE_SOA_MEMBER_LIGHT_CONST(MEMBER_INDEX, CELL, MEMBER) \
-    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER, const, *my_index)
+    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER, const, const_reference, *my_index)
 
 #define LIBFLATARRAY_DECLARE_SOA_MEMBER_LIGHT_NORMAL(MEMBER_INDEX, CELL, MEMBER) \
-    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER,      , *my_index)
+    LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER,      , reference, *my_index)
 
 #define LIBFLATARRAY_COPY_SOA_MEMBER_IN(MEMBER_INDEX, CELL, MEMBER)     \
     LIBFLATARRAY_ELEM(1, MEMBER)() = cell.LIBFLATARRAY_ELEM(1, MEMBER);
-- 
2.43.0


From d576014abd5c019d67e93e20d9b28dd35e5df1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:37 +0000
Subject: [PATCH 20/32] fix: local names of LIBFLATARRAY_LOOP_PEELER must not
 capture the caller's variables

A range given by a variable called remainder, next_stop or last_stop was
replaced by the (uninitialized) local variable of the macro.
---
 include/libflatarray/loop_peeler.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/libflatarray/loop_peeler.hpp b/include/libflatarray/loop_peeler.hpp
index 488a46e..0554930 100644
--- a/include/libflatarray/loop_peeler.hpp
+++ b/include/libflatarray/loop_peeler.hpp
@@ -80,19 +80,19 @@
             sibling_short_vec_switch<SHORT_VEC_TYPE, 1>::VALUE          \
             lfa_local_scalar;                                           \
                                                                         \
-        COUNTER_TYPE remainder = (X) %                                  \
+        COUNTER_TYPE lfa_local_remainder = (X) %                        \
             COUNTER_TYPE(lfa_local_short_vec::ARITY);                   \
-        COUNTER_TYPE next_stop = remainder ?                            \
-            (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - remainder : \
+        COUNTER_TYPE lfa_local_next_stop = lfa_local_remainder ?        \
+            (X) + COUNTER_TYPE(lfa_local_short_vec::ARITY) - lfa_local_remainder : \
             (X);                                                        \
-        if (next_stop > (END_X)) {                                      \
-            next_stop = (END_X);                                        \
+        if (lfa_local_next_stop > (END_X)) {                            \
+            lfa_local_next_stop = (END_X);                              \
         }                                                               \
-        COUNTER_TYPE last_stop = (END_X) -                              \
+        COUNTER_TYPE lfa_local_last_stop = (END_X) -                    \
             (END_X) % COUNTER_TYPE(lfa_local_short_vec::ARITY);         \
                                                                         \
-        FUNCTION<lfa_local_scalar   >(X, next_stop, __VA_ARGS__);       \
-        FUNCTION<lfa_local_short_vec>(X, last_stop, __VA_ARGS__);       \
+        FUNCTION<lfa_local_scalar   >(X, lfa_local_next_stop, __VA_ARGS__); \
+        FUNCTION<lfa_local_short_vec>(X, lfa_local_last_stop, __VA_ARGS__); \
         FUNCTION<lfa_local_scalar   >(X, (END_X),   __VA_ARGS__);       \
     }
 
-- 
2.43.0


From e216e9c12129fdb1882d157c29e7b4fc5dacf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:14 +0000
Subject: [PATCH 21/32] fix: members of registered classes may be called "cell"

The parameter of the accessors' copy functions hid the member function
of that name.
---
 include/libflatarray/detail/macros.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libflatarray/detail/macros.hpp b/include/libflatarray/detail/macros.hpp
index 7669f05..15b4b87 100644
--- a/include/libflatarray/detail/macros.hpp
+++ b/include/libflatarray/detail/macros.hpp
@@ -138,7 +138,7 @@
     LIBFLATARRAY_DECLARE_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER,      , reference, *my_index)
 
 #define LIBFLATARRAY_COPY_SOA_MEMBER_IN(MEMBER_INDEX, CELL, MEMBER)     \
-    LIBFLATARRAY_ELEM(1, MEMBER)() = cell.LIBFLATARRAY_ELEM(1, MEMBER);
+    this->LIBFLATARRAY_ELEM(1, MEMBER)() = cell.LIBFLATARRAY_ELEM(1, MEMBER);
 
 #define LIBFLATARRAY_COPY_SOA_ARRAY_MEMBER_IN(MEMBER_INDEX, CELL, MEMBER) \
     {                                                                   \
@@ -149,7 +149,7 @@
             template inner4<&CELL::LIBFLATARRAY_ELEM(1, MEMBER)>::      \
             template copy_in<LIBFLATARRAY_ARRAY_ARITY(MEMBER)>()(       \
                 cell,                                                   \
-                &LIBFLATARRAY_ELEM(1, MEMBER)<0>());                    \
+                &this->template LIBFLATARRAY_ELEM(1, MEMBER)<0>());     \
     }
 
 #define LIBFLATARRAY_COPY_SOA_GENERIC_MEMBER_IN(MEMBER_INDEX, CELL, MEMBER) \
@@ -171,7 +171,7 @@
             template inner4<&CELL::LIBFLATARRAY_ELEM(1, MEMBER)>::      \
             template copy_out<LIBFLATARRAY_ARRAY_ARITY(MEMBER)>()(      \
                 cell,                                                   \
-                &LIBFLATARRAY_ELEM(1, MEMBER)<0>());                    \
+                &this->template LIBFLATARRAY_ELEM(1, MEMBER)<0>());     \
     }
 
 #define LIBFLATARRAY_COPY_SOA_GENERIC_MEMBER_OUT(MEMBER_INDEX, CELL, MEMBER) \
-- 
2.43.0


From edc1692d08c5653edd49f9814a92883752b51388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 22/32] fix: NEON comparisons "==" and "<=" compared for "<"
 and for magnitudes

---
 include/libflatarray/detail/short_vec_neon_float_4.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_neon_float_4.hpp b/include/libflatarray/detail/short_vec_neon_float_4.hpp
index 39c6887..3ba41e1 100644
--- a/include/libflatarray/detail/short_vec_neon_float_4.hpp
+++ b/include/libflatarray/detail/short_vec_neon_float_4.hpp
@@ -169,13 +169,13 @@ public:
     inline
     uint32x4_t operator<=(const short_vec<float, 4>& other) const
     {
-        return vcaleq_f32(val, other.val);
+        return vcleq_f32(val, other.val);
     }
 
     inline
     uint32x4_t operator==(const short_vec<float, 4>& other) const
     {
-        return  vcltq_f32(val, other.val);
+        return  vceqq_f32(val, other.val);
     }
 
     inline
-- 
2.43.0


From 6c5da977566934b148a53d2d988d29bb94d11e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 23/32] fix: aligned accesses of MIC vectors require 64-byte
 alignment

---
 include/libflatarray/short_vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/short_vec.hpp b/include/libflatarray/short_vec.hpp
index dfd69f9..9fdcd79 100644
--- a/include/libflatarray/short_vec.hpp
+++ b/include/libflatarray/short_vec.hpp
@@ -253,7 +253,7 @@ public:
         class alignment
         {
         public:
-            const static int ALIGNMENT = 32;
+            const static int ALIGNMENT = 64;
         };
     };
 
-- 
2.43.0


From 7c0c2fbe502dc421d48e564b30dea89a7df5ac45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:18 +0000
Subject: [PATCH 24/32] fix: QPX operator*= added instead of multiplying

---
 .../detail/short_vec_qpx_double_16.hpp           |  8 ++++----
 .../detail/short_vec_qpx_double_32.hpp           | 16 ++++++++--------
 .../detail/short_vec_qpx_double_4.hpp            |  2 +-
 .../detail/short_vec_qpx_double_8.hpp            |  4 ++--
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_qpx_double_16.hpp b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
index 61c4267..5bb29da 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_16.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
@@ -128,10 +128,10 @@ public:
     inline
     void operator*=(const short_vec<double, 16>& other)
     {
-        val[ 0] = vec_add(val[ 0], other.val[ 0]);
-        val[ 1] = vec_add(val[ 1], other.val[ 1]);
-        val[ 2] = vec_add(val[ 2], other.val[ 2]);
-        val[ 3] = vec_add(val[ 3], other.val[ 3]);
+        val[ 0] = vec_mul(val[ 0], other.val[ 0]);
+        val[ 1] = vec_mul(val[ 1], other.val[ 1]);
+        val[ 2] = vec_mul(val[ 2], other.val[ 2]);
+        val[ 3] = vec_mul(val[ 3], other.val[ 3]);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_32.hpp b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
index a5a2230..9107915 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_32.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
@@ -156,14 +156,14 @@ public:
     inline
     void operator*=(const short_vec<double, 32>& other)
     {
-        val[ 0] = vec_add(val[ 0], other.val[ 0]);
-        val[ 1] = vec_add(val[ 1], other.val[ 1]);
-        val[ 2] = vec_add(val[ 2], other.val[ 2]);
-        val[ 3] = vec_add(val[ 3], other.val[ 3]);
-        val[ 4] = vec_add(val[ 4], other.val[ 4]);
-        val[ 5] = vec_add(val[ 5], other.val[ 5]);
-        val[ 6] = vec_add(val[ 6], other.val[ 6]);
-        val[ 7] = vec_add(val[ 7], other.val[ 7]);
+        val[ 0] = vec_mul(val[ 0], other.val[ 0]);
+        val[ 1] = vec_mul(val[ 1], other.val[ 1]);
+        val[ 2] = vec_mul(val[ 2], other.val[ 2]);
+        val[ 3] = vec_mul(val[ 3], other.val[ 3]);
+        val[ 4] = vec_mul(val[ 4], other.val[ 4]);
+        val[ 5] = vec_mul(val[ 5], other.val[ 5]);
+        val[ 6] = vec_mul(val[ 6], other.val[ 6]);
+        val[ 7] = vec_mul(val[ 7], other.val[ 7]);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_4.hpp b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
index fc06a46..ffbfb02 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_4.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
@@ -105,7 +105,7 @@ public:
     inline
     void operator*=(const short_vec<double, 4>& other)
     {
-        val = vec_add(val, other.val);
+        val = vec_mul(val, other.val);
     }
 
     inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_8.hpp b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
index 4bd8d9c..44fcb73 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_8.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
@@ -112,8 +112,8 @@ public:
     inline
     void operator*=(const short_vec<double, 8>& other)
     {
-        val[ 0] = vec_add(val[ 0], other.val[ 0]);
-        val[ 1] = vec_add(val[ 1], other.val[ 1]);
+        val[ 0] = vec_mul(val[ 0], other.val[ 0]);
+        val[ 1] = vec_mul(val[ 1], other.val[ 1]);
     }
 
     inline
-- 
2.43.0


From f656aac7f5d333cbf2f482ffdbd6556718dde1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:00 +0000
Subject: [PATCH 25/32] fix: QPX vectors did not compile

Syntax errors in the constructors from square roots, members declared
several times, missing friend declarations and strategy; the scalar
replacement for 32 floats was not available on QPX.
---
 .../detail/short_vec_qpx_double_16.hpp        | 14 ++++++---
 .../detail/short_vec_qpx_double_32.hpp        | 31 +++++++++----------
 .../detail/short_vec_qpx_double_4.hpp         |  6 ++++
 .../detail/short_vec_qpx_double_8.hpp         |  6 ++++
 .../detail/short_vec_scalar_float_32.hpp      |  3 +-
 5 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/include/libflatarray/detail/short_vec_qpx_double_16.hpp b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
index 5bb29da..cb8ba52 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_16.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_16.hpp
@@ -48,6 +48,12 @@ class short_vec<double, 16>
 {
 public:
     static const std::size_t ARITY = 16;
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 16>& vec);
 
     inline
     short_vec(const double data = 0) :
@@ -303,10 +309,10 @@ private:
 
 inline
 short_vec<double, 16>::short_vec(const sqrt_reference<double, 16>& other) :
-    val[ 0](vec_swsqrt(other.vec.val[ 0])),
-    val[ 1](vec_swsqrt(other.vec.val[ 1])),
-    val[ 2](vec_swsqrt(other.vec.val[ 2])),
-    val[ 3](vec_swsqrt(other.vec.val[ 3]))
+    val{vec_swsqrt(other.vec.val[ 0]),
+        vec_swsqrt(other.vec.val[ 1]),
+        vec_swsqrt(other.vec.val[ 2]),
+        vec_swsqrt(other.vec.val[ 3])}
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_32.hpp b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
index 9107915..d861d30 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_32.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
@@ -48,6 +48,12 @@ class short_vec<double, 32>
 {
 public:
     static const std::size_t ARITY = 32;
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 32>& vec);
 
     inline
     short_vec(const double data = 0) :
@@ -377,14 +383,7 @@ public:
     }
 
 private:
-    vector4double val[ 0];
-    vector4double val[ 1];
-    vector4double val[ 2];
-    vector4double val[ 3];
-    vector4double val[ 4];
-    vector4double val[ 5];
-    vector4double val[ 6];
-    vector4double val[ 7];
+    vector4double val[8];
 };
 
 #ifdef __ICC
@@ -414,14 +413,14 @@ private:
 
 inline
 short_vec<double, 32>::short_vec(const sqrt_reference<double, 32>& other) :
-    val[ 0](vec_swsqrt(other.vec.val[ 0])),
-    val[ 1](vec_swsqrt(other.vec.val[ 1])),
-    val[ 2](vec_swsqrt(other.vec.val[ 2])),
-    val[ 3](vec_swsqrt(other.vec.val[ 3])),
-    val[ 4](vec_swsqrt(other.vec.val[ 4])),
-    val[ 5](vec_swsqrt(other.vec.val[ 5])),
-    val[ 6](vec_swsqrt(other.vec.val[ 6])),
-    val[ 7](vec_swsqrt(other.vec.val[ 7]))
+    val{vec_swsqrt(other.vec.val[ 0]),
+        vec_swsqrt(other.vec.val[ 1]),
+        vec_swsqrt(other.vec.val[ 2]),
+        vec_swsqrt(other.vec.val[ 3]),
+        vec_swsqrt(other.vec.val[ 4]),
+        vec_swsqrt(other.vec.val[ 5]),
+        vec_swsqrt(other.vec.val[ 6]),
+        vec_swsqrt(other.vec.val[ 7])}
 {}
 
 inline
diff --git a/include/libflatarray/detail/short_vec_qpx_double_4.hpp b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
index ffbfb02..61745db 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_4.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_4.hpp
@@ -48,6 +48,12 @@ class short_vec<double, 4>
 {
 public:
     static const std::size_t ARITY = 4;
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 4>& vec);
 
     inline
     short_vec(const double data = 0) :
diff --git a/include/libflatarray/detail/short_vec_qpx_double_8.hpp b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
index 44fcb73..ed1da6e 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_8.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_8.hpp
@@ -48,6 +48,12 @@ class short_vec<double, 8>
 {
 public:
     static const std::size_t ARITY = 8;
+    typedef short_vec_strategy::qpx strategy;
+
+    template<typename _CharT, typename _Traits>
+    friend std::basic_ostream<_CharT, _Traits>& operator<<(
+        std::basic_ostream<_CharT, _Traits>& __os,
+        const short_vec<double, 8>& vec);
 
     inline
     short_vec(const double data = 0) :
diff --git a/include/libflatarray/detail/short_vec_scalar_float_32.hpp b/include/libflatarray/detail/short_vec_scalar_float_32.hpp
index ea8ade5..7eedf4e 100644
--- a/include/libflatarray/detail/short_vec_scalar_float_32.hpp
+++ b/include/libflatarray/detail/short_vec_scalar_float_32.hpp
@@ -9,7 +9,8 @@
 #ifndef FLAT_ARRAY_DETAIL_SHORT_VEC_SCALAR_FLOAT_32_HPP
 #define FLAT_ARRAY_DETAIL_SHORT_VEC_SCALAR_FLOAT_32_HPP
 
-#if (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_SCALAR)
+#if (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_SCALAR) ||  \
+    (LIBFLATARRAY_WIDEST_VECTOR_ISA == LIBFLATARRAY_QPX)
 
 #include <libflatarray/config.h>
 #include <libflatarray/short_vec_base.hpp>
-- 
2.43.0


From 418b1fd22c7c14fa00f4a531d03f59a7591b1e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:00 +0000
Subject: [PATCH 26/32] fix: printing QPX vectors of 32 doubles inserted a
 second "["

---
 include/libflatarray/detail/short_vec_qpx_double_32.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/detail/short_vec_qpx_double_32.hpp b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
index d861d30..a50b435 100644
--- a/include/libflatarray/detail/short_vec_qpx_double_32.hpp
+++ b/include/libflatarray/detail/short_vec_qpx_double_32.hpp
@@ -473,7 +473,7 @@ operator<<(std::basic_ostream<_CharT, _Traits>& __os,
          << ", " << data2[0] << ", " << data2[1] << ", " << data2[2] << ", " << data2[3]
          << ", " << data3[0] << ", " << data3[1] << ", " << data3[2] << ", " << data3[3]
          << ", " << data4[0] << ", " << data4[1] << ", " << data4[2] << ", " << data4[3]
-         << "["  << data5[0] << ", " << data5[1] << ", " << data5[2] << ", " << data5[3]
+         << ", " << data5[0] << ", " << data5[1] << ", " << data5[2] << ", " << data5[3]
          << ", " << data6[0] << ", " << data6[1] << ", " << data6[2] << ", " << data6[3]
          << ", " << data7[0] << ", " << data7[1] << ", " << data7[2] << ", " << data7[3]
          << ", " << data8[0] << ", " << data8[1] << ", " << data8[2] << ", " << data8[3]
-- 
2.43.0


From a26c1d1e1b70e44c87f316834d69d343d843839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:10 +0000
Subject: [PATCH 27/32] fix: ilp_to_arity did not compile on MIC and QPX

---
 include/libflatarray/ilp_to_arity.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/ilp_to_arity.hpp b/include/libflatarray/ilp_to_arity.hpp
index 34d5df9..0b0ca3a 100644
--- a/include/libflatarray/ilp_to_arity.hpp
+++ b/include/libflatarray/ilp_to_arity.hpp
@@ -40,9 +40,14 @@ public:
     static const int BIT_WIDTH = 128;
 #  endif
 
+    // Intel MIC:
+#  ifdef __MIC__
+    static const int BIT_WIDTH = 512;
+#  endif
+
     // Only the case of the IBM PC is complicated. No thanks to you,
     // history!
-#  if !defined(__CUDA_ARCH__) && !defined(__ARM_NEON__) && !defined(__MIC__)
+#  if !defined(__CUDA_ARCH__) && !defined(__VECTOR4DOUBLE__) && !defined(__ARM_NEON__) && !defined(__MIC__)
 #    ifdef LFA_AVX512_HELPER
     static const int BIT_WIDTH = 512;
 #    else
-- 
2.43.0


From 32bb063bd667056ff0b5020269d711a3cd5bd6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 28/32] fix: let every thread of set_kernel write its own cell
 for a source stride of zero

set_kernel multiplied the thread index by SOURCE_STRIDE before using it as
the target coordinate and for the bounds check. With a stride of 0, which is
what soa_grid::broadcast() uses, all threads wrote the first cell and the
rest of the row kept its old contents.
---
 include/libflatarray/detail/set_instance_functor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libflatarray/detail/set_instance_functor.hpp b/include/libflatarray/detail/set_instance_functor.hpp
index 4f07681..1a34785 100644
--- a/include/libflatarray/detail/set_instance_functor.hpp
+++ b/include/libflatarray/detail/set_instance_functor.hpp
@@ -79,7 +79,7 @@ template<typename CELL, long SOURCE_STRIDE, long DIM_X, long DIM_Y, long DIM_Z,
 __global__
 void set_kernel(const CELL *source, char *target, long count, long x, long y, long z)
 {
-    long offset = (blockDim.x * blockIdx.x + threadIdx.x) * SOURCE_STRIDE;
+    long offset = blockDim.x * blockIdx.x + threadIdx.x;
     if (offset >= count) {
         return;
     }
@@ -89,7 +89,7 @@ void set_kernel(const CELL *source, char *target, long count, long x, long y, lo
     long index = accessor_type::gen_index(x + offset, y, z);
     accessor_type accessor(target, index);
 
-    accessor << source[offset];
+    accessor << source[offset * SOURCE_STRIDE];
 }
 
 /**
-- 
2.43.0


From 93fe76038bd494cfc52efce007304895d25a738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 29/32] fix: copy grids in device memory with a kernel

Copy construction and assignment of soa_grid always used the host's
copy_functor, which dereferenced device pointers on the host if the grid was
instantiated with USE_CUDA_FUNCTORS. Add the CUDA specialization the other
functors have. Members are copied by assignment rather than std::copy(), which
isn't available in device code.
---
 include/libflatarray/detail/copy_functor.hpp | 78 +++++++++++++++++++-
 include/libflatarray/detail/macros.hpp       | 16 ++--
 include/libflatarray/soa_grid.hpp            |  2 +-
 3 files changed, 86 insertions(+), 10 deletions(-)

diff --git a/include/libflatarray/detail/copy_functor.hpp b/include/libflatarray/detail/copy_functor.hpp
index ff456cd..c965a8e 100644
--- a/include/libflatarray/detail/copy_functor.hpp
+++ b/include/libflatarray/detail/copy_functor.hpp
@@ -8,6 +8,10 @@
 #ifndef FLAT_ARRAY_DETAIL_COPY_FUNCTOR_HPP
 #define FLAT_ARRAY_DETAIL_COPY_FUNCTOR_HPP
 
+#include <libflatarray/config.h>
+#include <libflatarray/detail/generate_cuda_launch_config.hpp>
+#include <libflatarray/soa_accessor.hpp>
+
 namespace LibFlatArray {
 
 namespace detail {
@@ -20,7 +24,7 @@ namespace flat_array {
  * be C++ objects that need to run their copy c-tors for
  * allocation/deallocation
  */
-template<typename CELL>
+template<typename CELL, bool USE_CUDA_FUNCTORS = false>
 class copy_functor
 {
 public:
@@ -51,6 +55,78 @@ private:
     std::size_t dim_z;
 };
 
+#ifdef LIBFLATARRAY_WITH_CUDA
+#ifdef __CUDACC__
+
+template<typename CELL, long DIM_X, long DIM_Y, long DIM_Z, long INDEX>
+__global__
+void copy_kernel(const char *source, char *target, long dim_x, long dim_y, long dim_z)
+{
+    long x = blockDim.x * blockIdx.x + threadIdx.x;
+    long y = blockDim.y * blockIdx.y + threadIdx.y;
+    long z = blockDim.z * blockIdx.z + threadIdx.z;
+
+    if (x >= dim_x) {
+        return;
+    }
+
+    if (y >= dim_y) {
+        return;
+    }
+
+    if (z >= dim_z) {
+        return;
+    }
+
+    typedef const_soa_accessor_light<CELL, DIM_X, DIM_Y, DIM_Z, INDEX> source_accessor_type;
+    typedef       soa_accessor_light<CELL, DIM_X, DIM_Y, DIM_Z, INDEX> target_accessor_type;
+
+    long index = source_accessor_type::gen_index(x, y, z);
+    source_accessor_type source_accessor(source, index);
+    target_accessor_type target_accessor(target, index);
+    target_accessor.copy_members(source_accessor, 1);
+}
+
+/**
+ * Specialization for CUDA
+ */
+template<typename CELL>
+class copy_functor<CELL, true>
+{
+public:
+    copy_functor(
+        std::size_t dim_x,
+        std::size_t dim_y,
+        std::size_t dim_z) :
+        dim_x(dim_x),
+        dim_y(dim_y),
+        dim_z(dim_z)
+    {}
+
+    template<long DIM_X, long DIM_Y, long DIM_Z, long INDEX, typename ACCESSOR2>
+    void operator()(soa_accessor<CELL, DIM_X, DIM_Y, DIM_Z, INDEX>& source_accessor, ACCESSOR2& target_accessor) const
+    {
+        dim3 grid_dim;
+        dim3 block_dim;
+        generate_cuda_launch_config()(&grid_dim, &block_dim, dim_x, dim_y, dim_z);
+
+        copy_kernel<CELL, DIM_X, DIM_Y, DIM_Z, INDEX><<<grid_dim, block_dim>>>(
+            source_accessor.data(),
+            target_accessor.data(),
+            dim_x,
+            dim_y,
+            dim_z);
+    }
+
+private:
+    std::size_t dim_x;
+    std::size_t dim_y;
+    std::size_t dim_z;
+};
+
+#endif
+#endif
+
 }
 
 }
diff --git a/include/libflatarray/detail/macros.hpp b/include/libflatarray/detail/macros.hpp
index 15b4b87..ff033bb 100644
--- a/include/libflatarray/detail/macros.hpp
+++ b/include/libflatarray/detail/macros.hpp
@@ -249,19 +249,19 @@
 
 #define LIBFLATARRAY_COPY_SOA_MEMBER(MEMBER_INDEX, CELL, MEMBER)        \
     {                                                                   \
-        std::copy(                                                      \
-            &(other.LIBFLATARRAY_ELEM(1, MEMBER)()),                    \
-            &(other.LIBFLATARRAY_ELEM(1, MEMBER)()) + count,            \
-            &(this->LIBFLATARRAY_ELEM(1, MEMBER)()));                   \
+        for (std::size_t j = 0; j < count; ++j) {                       \
+            (&(this->LIBFLATARRAY_ELEM(1, MEMBER)()))[j] =              \
+                (&(other.LIBFLATARRAY_ELEM(1, MEMBER)()))[j];           \
+        }                                                               \
     }
 
 #define LIBFLATARRAY_COPY_SOA_ARRAY_MEMBER(MEMBER_INDEX, CELL, MEMBER)  \
     {                                                                   \
         for (std::size_t i = 0; i < LIBFLATARRAY_ARRAY_ARITY(MEMBER); ++i) { \
-            std::copy(                                                  \
-                &(other.LIBFLATARRAY_ELEM(1, MEMBER)()[i]),             \
-                &(other.LIBFLATARRAY_ELEM(1, MEMBER)()[i]) + count,     \
-                &(this->LIBFLATARRAY_ELEM(1, MEMBER)()[i]));            \
+            for (std::size_t j = 0; j < count; ++j) {                   \
+                (&(this->LIBFLATARRAY_ELEM(1, MEMBER)()[i]))[j] =       \
+                    (&(other.LIBFLATARRAY_ELEM(1, MEMBER)()[i]))[j];    \
+            }                                                           \
         }                                                               \
     }
 
diff --git a/include/libflatarray/soa_grid.hpp b/include/libflatarray/soa_grid.hpp
index e598fbd..bd2e290 100644
--- a/include/libflatarray/soa_grid.hpp
+++ b/include/libflatarray/soa_grid.hpp
@@ -519,7 +519,7 @@ private:
 
     void copy_in(const soa_grid& other)
     {
-        other.callback(this, detail::flat_array::copy_functor<value_type>(my_dim_x, my_dim_y, my_dim_z));
+        other.callback(this, detail::flat_array::copy_functor<value_type, USE_CUDA_FUNCTORS>(my_dim_x, my_dim_y, my_dim_z));
     }
 
     template<typename OTHER_ALLOCATOR, bool OTHER_USE_CUDA_FUNCTORS>
-- 
2.43.0


From 7952387437e511979647562dc092706ea08562bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:51 +0000
Subject: [PATCH 30/32] fix: no exceptions in the device code of soa_array

Copying and assigning a soa_array and load() are __host__ __device__, but
threw std::out_of_range unconditionally, so that no kernel using them
compiled. operator<<() and pop_back() already leave the check to the host.
---
 include/libflatarray/soa_array.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libflatarray/soa_array.hpp b/include/libflatarray/soa_array.hpp
index 4a4a57a..efff786 100644
--- a/include/libflatarray/soa_array.hpp
+++ b/include/libflatarray/soa_array.hpp
@@ -217,9 +217,11 @@ public:
     {
         using std::max;
         std::size_t new_elements = max(elements, num + offset);
+#ifndef __CUDA_ARCH__
         if (new_elements > SIZE) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+#endif
 
         at(offset).load(accessor.data(), num, std::size_t(accessor.index()), std::size_t(OTHER_SIZE));
         elements = new_elements;
@@ -306,9 +308,11 @@ private:
     __host__ __device__
     static void check_capacity(const soa_array<value_type, OTHER_SIZE>& other)
     {
+#ifndef __CUDA_ARCH__
         if (other.size() > SIZE) {
             throw std::out_of_range("insufficient capacity for copy (other soa_array too large)");
         }
+#endif
     }
 
     inline
@@ -325,9 +329,11 @@ private:
     __host__ __device__
     void copy_in(const soa_array<value_type, OTHER_SIZE>& other)
     {
+#ifndef __CUDA_ARCH__
         if (other.size() > SIZE) {
             throw std::out_of_range("insufficient capacity for assignment (other soa_array too large)");
         }
+#endif
 
         at(0).copy_members(other[0], other.size());
         elements = other.size();
-- 
2.43.0


From 3610dcaafaf2620030bd00d84d6661417393a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:02 +0000
Subject: [PATCH 31/32] fix: copy elements of a growing soa_vector within the
 memory of its grid

soa_vector::reserve() passed the storage of the old grid to
soa_grid::load(), which expects a buffer in host memory. If the grid
resides on a GPU, then the elements were copied from device memory with
cudaMemcpyHostToDevice.
---
 include/libflatarray/soa_vector.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index 6b35995..e8fc803 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -125,7 +125,14 @@ public:
             detail::flat_array::simple_streak()
         };
 
-        new_grid.load(iter + 0, iter + 1, grid.data(), grid.extent_x());
+        // both grids reside in the same memory (which may be the
+        // GPU's), hence no staging as in soa_grid::load():
+        new_grid.callback(
+            detail::flat_array::load_functor<T, detail::flat_array::simple_streak*, USE_CUDA_FUNCTORS>(
+                iter + 0,
+                iter + 1,
+                grid.data(),
+                grid.extent_x()));
         swap(new_grid, grid);
     }
 
-- 
2.43.0


From e50778df07fb1f5a2b1d7693daad4b1ee76c8c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:47 +0000
Subject: [PATCH 32/32] fix: soa_vector growth with cells whose sizes exceed
 one row

The members of a cell are DIM_X * DIM_Y * DIM_Z elements apart, but
soa_vector::reserve() assumed DIM_X. With custom sizes whose smallest
Y or Z dimension is larger than 1 all members except for the first were
read from the wrong place.
---
 include/libflatarray/soa_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libflatarray/soa_vector.hpp b/include/libflatarray/soa_vector.hpp
index e8fc803..3776ab3 100644
--- a/include/libflatarray/soa_vector.hpp
+++ b/include/libflatarray/soa_vector.hpp
@@ -132,7 +132,7 @@ public:
                 iter + 0,
                 iter + 1,
                 grid.data(),
-                grid.extent_x()));
+                grid.extent_x() * grid.extent_y() * grid.extent_z()));
         swap(new_grid, grid);
     }
 
-- 
2.43.0

