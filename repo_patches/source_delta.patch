From 58802d8cf9adfde6930fa4c5de32a1b0c8f5fb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:25 +0000
Subject: [PATCH 01/36] fix: reject array sizes that are empty, zero or not
 addressable

NDArray computed its storage size without checking it: a zero size divided by
zero, a 0-dimensional array read sizes[0] of an empty vector, and a product of
sizes that overflows allocated less storage than the indices address.
---
 src/NDArray.h | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index bb45f3c..c50147e 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -2,12 +2,12 @@
 #pragma once
 
 #include <algorithm>
+#include <limits>
 #include <stdexcept>
+#include <string>
 
 #include <vector>
-#if __cplusplus <= 201703l
 #include <cstddef>
-#endif
 #include <cstdint>
 #include <cassert>
 
@@ -39,14 +39,7 @@ public:
   NDArray(const std::vector<int64_t>& sizes, T* const storage)
     : m_dim(sizes.size()), m_sizes(sizes)
   {
-    assert(m_sizes.size());
-    m_storageSize = sizes[0];
-    assert(m_storageSize < MaxSize);
-    for (size_t i = 1; i < m_dim; ++i)
-    {
-      assert(sizes[i] < MaxSize);
-      m_storageSize *= sizes[i];
-    }
+    m_storageSize = checkedStorageSize(sizes);
     computeOffsets();
 
     m_data = storage;
@@ -113,17 +106,12 @@ public:
   {
     if (m_owned)
     {
+      const size_t newStorageSize = checkedStorageSize(sizes);
       m_dim = sizes.size();
       size_t oldStorageSize = m_storageSize;
 
       m_sizes = sizes;
-      m_storageSize = sizes[0];
-      assert(m_storageSize < MaxSize);
-      for (size_t i = 1; i < m_dim; ++i)
-      {
-        assert(sizes[i] < MaxSize);
-        m_storageSize *= sizes[i];
-      }
+      m_storageSize = newStorageSize;
 
       // no realloc if storageSize already big enough
       if (m_storageSize > oldStorageSize)
@@ -202,6 +190,25 @@ public:
 
 private:
 
+  // Total number of elements, provided that every dimension is valid and the total is addressable
+  static size_t checkedStorageSize(const std::vector<int64_t>& sizes)
+  {
+    if (sizes.empty())
+      throw std::runtime_error("array must have at least 1 dimension");
+    size_t limit = static_cast<size_t>(std::numeric_limits<std::ptrdiff_t>::max()) / sizeof(T);
+    size_t storageSize = 1;
+    for (size_t i = 0; i < sizes.size(); ++i)
+    {
+      if (sizes[i] < 1 || sizes[i] >= MaxSize)
+        throw std::runtime_error("array size " + std::to_string(sizes[i]) + " in dimension " + std::to_string(i) + " is not valid");
+      limit /= static_cast<size_t>(sizes[i]);
+      if (limit == 0)
+        throw std::runtime_error("array is too large");
+      storageSize *= static_cast<size_t>(sizes[i]);
+    }
+    return storageSize;
+  }
+
   void computeOffsets()
   {
     m_offsets.resize(m_dim);
-- 
2.43.0


From 60c6f904949a33f835e1aa60600bbcced43a0ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:17 +0000
Subject: [PATCH 02/36] fix: leave NDArray valid when (re)allocation fails

resize() freed the old storage before allocating the new one and kept the stale
pointer, so a std::bad_alloc led to a double free in the destructor.
---
 src/NDArray.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/NDArray.h b/src/NDArray.h
index c50147e..8bc77ab 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -40,7 +40,7 @@ public:
     : m_dim(sizes.size()), m_sizes(sizes)
   {
     m_storageSize = checkedStorageSize(sizes);
-    computeOffsets();
+    computeOffsets(m_storageSize);
 
     m_data = storage;
     m_owned = false;
@@ -108,18 +108,20 @@ public:
     {
       const size_t newStorageSize = checkedStorageSize(sizes);
       m_dim = sizes.size();
-      size_t oldStorageSize = m_storageSize;
-
       m_sizes = sizes;
-      m_storageSize = newStorageSize;
+      // everything else that can throw comes before the allocation, which would otherwise leak from the constructor
+      computeOffsets(newStorageSize);
 
       // no realloc if storageSize already big enough
-      if (m_storageSize > oldStorageSize)
+      if (newStorageSize > m_storageSize)
       {
         deallocate(m_data);
-        m_data = allocate(m_storageSize);
+        // don't leave a dangling pointer if the allocation fails
+        m_data = 0;
+        m_storageSize = 0;
+        m_data = allocate(newStorageSize);
       }
-      computeOffsets();
+      m_storageSize = newStorageSize;
     }
     else
     {
@@ -209,10 +211,9 @@ private:
     return storageSize;
   }
 
-  void computeOffsets()
+  void computeOffsets(size_t mult)
   {
     m_offsets.resize(m_dim);
-    size_t mult = m_storageSize;
     for (size_t i = 0; i < m_dim; ++i)
     {
       mult /= m_sizes[i];
-- 
2.43.0


From ccd22046d625b3ea348e9e397950a4d3e4b1bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:55 +0000
Subject: [PATCH 03/36] fix: read non-contiguous and unaligned numpy arrays
 correctly

Inputs were accepted with any strides but read as if they were contiguous and
row-major, so transposed or strided arrays gave wrong values and arrays with
negative strides were read out of bounds.
---
 src/module.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index e4e5cbc..d095eaf 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -20,6 +20,10 @@ using namespace py::literals;
 
 namespace hl {
 
+// Input arrays are read directly from memory, so they must be contiguous, row-major and aligned (numpy takes a copy if they are not)
+template<typename T>
+using input_array = py::array_t<T, py::array::c_style | py::array::forcecast | py::detail::npy_api::NPY_ARRAY_ALIGNED_>;
+
 template<typename T>
 T* begin(py::array_t<T>& a)
 {
@@ -35,21 +39,21 @@ T* end(py::array_t<T>& a)
 }
 
 template<typename T>
-const T* cbegin(const py::array_t<T>& a)
+const T* cbegin(const input_array<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr;
 }
 
 template<typename T>
-const T* cend(const py::array_t<T>& a)
+const T* cend(const input_array<T>& a)
 {
   //assert(a.itemsize() == sizeof(T));
   return (const T*)a.request().ptr + a.size();
 }
 
 template<typename T>
-std::vector<T> toVector(const py::array_t<T>& a)
+std::vector<T> toVector(const input_array<T>& a)
 {
   if (a.ndim() != 1)
   {
@@ -59,7 +63,7 @@ std::vector<T> toVector(const py::array_t<T>& a)
 }
 
 template<typename T>
-NDArray<T> toNDArray(const py::array_t<T>& np)
+NDArray<T> toNDArray(const input_array<T>& np)
 {
   const size_t dim = np.ndim();
   std::vector<int64_t> sizes(dim);
@@ -71,7 +75,7 @@ NDArray<T> toNDArray(const py::array_t<T>& np)
 }
 
 template<typename T>
-NDArray<T> asNDArray(const py::array_t<T>& np)
+NDArray<T> asNDArray(const input_array<T>& np)
 {
   // this is a bit iffy re: constness
   return NDArray<T>(std::vector<int64_t>(np.shape(), np.shape() + np.ndim()), const_cast<T*>(cbegin(np)));
@@ -85,7 +89,7 @@ py::array_t<T> fromNDArray(const NDArray<T>& a)
 
 }
 
-py::list flatten(const py::array_t<int64_t>& a)
+py::list flatten(const input_array<int64_t>& a)
 {
   const NDArray<int64_t> array = asNDArray<int64_t>(a);
 
@@ -107,7 +111,7 @@ py::list flatten(const py::array_t<int64_t>& a)
   return outer;
 }
 
-py::tuple integerise1d(py::array_t<double> frac_a, int pop)
+py::tuple integerise1d(const input_array<double>& frac_a, int pop)
 {
   if (pop < 0)
   {
@@ -161,7 +165,7 @@ private:
 
 
 
-py::tuple integerise(const py::array_t<double>& npseed)
+py::tuple integerise(const input_array<double>& npseed)
 {
   const NDArray<double> seed = asNDArray<double>(npseed); // shallow copy
   Integeriser integeriser(seed);
@@ -173,7 +177,7 @@ py::tuple integerise(const py::array_t<double>& npseed)
   return py::make_tuple(fromNDArray<int64_t>(integeriser.result()), stats);
 }
 
-py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::list& mlist)
+py::tuple ipf(const input_array<double>& seed, const py::list& ilist, const py::list& mlist)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -186,8 +190,8 @@ py::tuple ipf(const py::array_t<double>& seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<double> ma = mlist[i].cast<py::array_t<double>>();
+    const input_array<int64_t> ia = ilist[i].cast<input_array<int64_t>>();
+    const input_array<double> ma = mlist[i].cast<input_array<double>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.push_back(asNDArray<double>(ma));
   }
@@ -218,8 +222,8 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const input_array<int64_t> ia = ilist[i].cast<input_array<int64_t>>();
+    const input_array<int64_t> ma = mlist[i].cast<input_array<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -239,7 +243,7 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
   return py::make_tuple(fromNDArray<int64_t>(result), stats);
 }
 
-py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qisi(const input_array<double>& seed, const py::list& ilist, const py::list& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -252,8 +256,8 @@ py::tuple qisi(const py::array_t<double> seed, const py::list& ilist, const py::
 
   for (size_t i = 0; i < k; ++i)
   {
-    const py::array_t<int64_t> ia = ilist[i].cast<py::array_t<int64_t>>();
-    const py::array_t<int64_t> ma = mlist[i].cast<py::array_t<int64_t>>();
+    const input_array<int64_t> ia = ilist[i].cast<input_array<int64_t>>();
+    const input_array<int64_t> ma = mlist[i].cast<input_array<int64_t>>();
     indices[i] = toVector<int64_t>(ia);
     marginals.emplace_back(toNDArray<int64_t>(ma));
   }
@@ -324,7 +328,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qisi_docstr,
         "seed"_a, "indices"_a, "marginals"_a, "skips"_a)
    .def("qisi",
-        [](const py::array_t<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
+        [](const hl::input_array<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
         qisi2_docstr,
         "seed"_a, "indices"_a, "marginals"_a)
    .def("_unittest",
-- 
2.43.0


From 5dbb5d0cf0b1fc2a7a58d318d797e7661cc7f347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:00 +0000
Subject: [PATCH 04/36] fix: ipf keeps its own copy of the marginals

The marginals were shallow views of temporary arrays (any marginal that needed
conversion to float64, e.g. integers or lists), read after they were freed.
---
 src/module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index d095eaf..a3893f7 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -193,7 +193,8 @@ py::tuple ipf(const input_array<double>& seed, const py::list& ilist, const py::
     const input_array<int64_t> ia = ilist[i].cast<input_array<int64_t>>();
     const input_array<double> ma = mlist[i].cast<input_array<double>>();
     indices[i] = toVector<int64_t>(ia);
-    marginals.push_back(asNDArray<double>(ma));
+    // deep copy: ma may be a temporary that does not outlive this loop
+    marginals.push_back(toNDArray<double>(ma));
   }
 
   IPF<double> ipf(indices, marginals);
-- 
2.43.0


From 1da8699eb0cc0a7a82a5cae72198848f649c2c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:35 +0000
Subject: [PATCH 05/36] fix: reject a dimension repeated within one marginal

Repeating a dimension (e.g. indices [0,0]) was accepted: ipf then looped forever
and qis returned populations unrelated to the marginal.
---
 src/Microsynthesis.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index cc2ae9c..97057bd 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -8,6 +8,7 @@
 #include "Index.h"
 #include "Log.h"
 
+#include <algorithm>
 #include <vector>
 #include <map>
 
@@ -43,6 +44,8 @@ public:
       for (size_t j = 0; j < m_indices[k].size(); ++j)
       {
         int64_t dim = m_indices[k][j];
+        if (std::count(m_indices[k].begin(), m_indices[k].end(), dim) > 1)
+          throw std::runtime_error("dimension %% is repeated at index %%"s % dim % k);
         int64_t size = m_marginals[k].size(j);
         // check if already entered that size is same
         auto posit = dim_sizes.find(dim);
-- 
2.43.0


From 6fdfe28b4ffd33743723674c2cec326bd85df3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:04 +0000
Subject: [PATCH 06/36] fix: reject marginals that are not finite or whose
 total overflows

NaN and infinite values, and integer marginals summing to more than int64 can
hold, passed validation and gave a meaningless population flagged as converged.
---
 src/Microsynthesis.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index 97057bd..d886c5b 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <vector>
 #include <map>
+#include <numeric>
 
 #include <string>
 #include <stdexcept>
@@ -64,6 +65,10 @@ public:
     {
       if (min(m_marginals[k]) < 0)
         throw std::runtime_error("negative value in marginal %%: %%"s % k % min(m_marginals[k]));
+      // the total must be a valid population (this also excludes any non-finite values)
+      const double total = std::accumulate(m_marginals[k].begin(), m_marginals[k].end(), 0.0);
+      if (!(total < 9.0e18))
+        throw std::runtime_error("sum of marginal %% is not a valid population: %%"s % k % total);
     }
 
     m_dim = dim_sizes.size();
-- 
2.43.0


From 48482c30f14762271fd54427efa837dacc01d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:32 +0000
Subject: [PATCH 07/36] fix: reject negative and non-finite seed values

R already refused negative values; python accepted them, and NaN or infinite
values, and returned populations with negative or NaN states.
---
 src/IPF.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/IPF.h b/src/IPF.h
index 8fa5219..c0c0211 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -45,6 +45,12 @@ public:
         throw std::runtime_error("seed dimensions %% are inconsistent with that implied by marginals (%%)"s % seed.sizes() % this->m_array.sizes());
     }
 
+    for (size_t i = 0; i < seed.storageSize(); ++i)
+    {
+      if (!(seed.rawData()[i] >= 0.0) || std::isinf(seed.rawData()[i]))
+        throw std::runtime_error("negative or non-finite value in seed: %%"s % seed.rawData()[i]);
+    }
+
     Index index_main(this->m_array.sizes());
 
     std::vector<MappedIndex> mappings;
-- 
2.43.0


From e1fed65d11aa496d3cb5b98424d26eaef8b12745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:59 +0000
Subject: [PATCH 08/36] fix: ipf must not report convergence when the result is
 NaN

NaN deviations (e.g. from denormal seeds) were ignored by std::max, leaving the
maximum error at its initial value, below the tolerance.
---
 src/IPF.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/IPF.h b/src/IPF.h
index c0c0211..7e08979 100644
--- a/src/IPF.h
+++ b/src/IPF.h
@@ -120,7 +120,8 @@ private:
       {
         double e = std::fabs(diffs[k][index]);
         m_errors[k][index] = e;
-        m_maxError = std::max(m_maxError, e);
+        // std::max ignores NaN
+        m_maxError = std::max(m_maxError, std::isnan(e) ? std::numeric_limits<double>::infinity() : e);
       }
     }
 
-- 
2.43.0


From fe32211ee6b2ab23ea75668dd9062d891c7cc8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:22 +0000
Subject: [PATCH 09/36] fix: skipping more than 2^31 Sobol points never
 returned

The doubling loop overflowed to zero in 32 bits.
---
 src/SobolImpl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index 3f33f82..a0c5b1d 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -230,7 +230,7 @@ void nlopt_sobol_skip(SobolData* s, uint32_t n, uint32_t *x)
 {
   if (s)
   {
-	  uint32_t k = 1;
+	  uint64_t k = 1; /* 32 bits would overflow for n > 2^31 */
 	  while (k*2 < n) k *= 2;
 	  while (k-- > 0) sobol_gen(s, x);
   }
-- 
2.43.0


From 53c2f86dced92cf4eaebea552b9daf7a34d1d67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:46 +0000
Subject: [PATCH 10/36] fix: qis uses the first Sobol point when there are no
 skips, rejects invalid skips

skips=0 discarded the first point (exactly like skips=1), and negative or larger
than 32-bit values were silently truncated to 32 bits, a negative value then
generating up to 2^31 points.
---
 src/QIS.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 6185af4..d1bd930 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -2,6 +2,9 @@
 #include "QIS.h"
 #include "Index.h"
 #include "StatFuncs.h"
+#include "Log.h"
+
+#include <limits>
 
 // uncomment to sample from a (dynamic) state array rather than directly from marginals (can be slower for high dimensionality)
 //#define USE_STATE_SAMPLING
@@ -159,7 +162,11 @@ void sample(std::vector<int64_t>& dims, const std::vector<uint32_t>& seq, const
 QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
 : Microsynthesis(indices, marginals), m_sobolSeq(m_dim), m_conv(false)
 {
-  m_sobolSeq.skip(skips);
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::runtime_error("invalid number of skips: %%"s % skips);
+  // skip(0) is not a no-op
+  if (skips > 0)
+    m_sobolSeq.skip(skips);
   m_stateValues.resize(m_array.sizes());
   // compute initial state probabilities and keep a copy
   computeStateValues();
-- 
2.43.0


From fcf8837ff15db304c8605a57f7f14d91727cf4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:16 +0000
Subject: [PATCH 11/36] fix: qisi honours skips

solve() sampled from a local sequence and ignored the one that had been advanced
by the requested number of skips.
---
 src/QISI.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index 2cd9c93..c17b4e5 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -5,6 +5,8 @@
 #include "StatFuncs.h"
 #include "Log.h"
 
+#include <limits>
+
 namespace {
 
 // TODO move somewhere appropriate (doesnt need to be member) (copy&paste from QSIPF)
@@ -70,7 +72,11 @@ QISI::QISI(const index_list_t& indices, marginal_list_t& marginals, int64_t skip
   m_degeneracy(std::numeric_limits<double>::quiet_NaN()),
   m_conv(false)
 {
-  m_sobolSeq.skip(skips);
+  if (skips < 0 || skips > std::numeric_limits<uint32_t>::max())
+    throw std::runtime_error("invalid number of skips: %%"s % skips);
+  // skip(0) is not a no-op
+  if (skips > 0)
+    m_sobolSeq.skip(skips);
 }
 
 // control state of Sobol via arg?
@@ -101,11 +107,10 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
   const std::vector<MappedIndex>& mappedIndices = makeMarginalMappings(main_index);
   m_array.assign(0ll);
 
-  Sobol sobol_seq(m_dim);
   for (int64_t i = 0; i < m_population; ++i)
   {
     // map sobol to a point in state space, store in index
-    const std::vector<uint32_t>& seq = sobol_seq.buf();
+    const std::vector<uint32_t>& seq = m_sobolSeq.buf();
     // ...
     getIndex(m_ipfSolution, seq, main_index);
 
-- 
2.43.0


From 5a2bbb85ec62d54a01e6b78599860c068858e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:38 +0000
Subject: [PATCH 12/36] fix: check the dimension and the allocation of Sobol
 sequences

SobolSequence narrowed its dimension to 32 bits before validating it (2^32+1 was
accepted as 1), the buffer was allocated before the validation, and a failed
allocation left a null generator that was then dereferenced.
---
 src/Sobol.cpp  | 24 +++++++++++++++++++++---
 src/module.cpp |  2 +-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 3a0b8e5..14c4532 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -2,18 +2,35 @@
 #include "Log.h"
 
 #include <limits>
+#include <new>
 #include <stdexcept>
 #include <cstdint>
 
 
-Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(dim), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+namespace {
+
+size_t checkedDim(size_t dim)
 {
   if (dim < 1 || dim > 1111)
   {
     throw std::range_error("Dim %% is not in valid range [1,1111]"s % dim);
   }
+  return dim;
+}
+
+SobolData* create(uint32_t dim)
+{
+  SobolData* s = nlopt_sobol_create(dim);
+  if (!s)
+    throw std::bad_alloc();
+  return s;
+}
+
+}
 
-  m_s = nlopt_sobol_create(dim);
+Sobol::Sobol(size_t dim, uint32_t nSkip) : m_dim(checkedDim(dim)), m_buf(dim), m_pos(dim) // ensures m_buf gets populated on 1st access
+{
+  m_s = create(m_dim);
   if (nSkip > 0)
     skip(nSkip);
 }
@@ -50,8 +67,9 @@ void Sobol::skip(uint32_t n)
 
 void Sobol::reset(uint32_t nSkip)
 {
+  SobolData* s = create(m_dim);
   nlopt_sobol_destroy(m_s);
-  m_s = nlopt_sobol_create(m_dim);
+  m_s = s;
   if (nSkip > 0)
     skip(nSkip);
 }
diff --git a/src/module.cpp b/src/module.cpp
index a3893f7..135666f 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -137,7 +137,7 @@ py::tuple integerise1d(const input_array<double>& frac_a, int pop)
 class SobolGenerator
 {
 public:
-  SobolGenerator(uint32_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
+  SobolGenerator(size_t dim, uint32_t nSkip = 0) : m_sobol(dim, nSkip) { }
 
   py::array_t<double> next()
   {
-- 
2.43.0


From 1597c464f5db603394743c9b5fffd98b45a04fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:45 +0000
Subject: [PATCH 13/36] fix: Sobol reset and skip discard buffered components

operator() kept returning the rest of a partly consumed point from before the
reset or skip.
---
 src/Sobol.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 14c4532..553198a 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -62,6 +62,8 @@ uint32_t Sobol::operator()()
 void Sobol::skip(uint32_t n)
 {
   nlopt_sobol_skip(m_s, n, m_buf.data());
+  // discard anything left from before the skip
+  m_pos = m_dim;
 }
 
 
@@ -70,6 +72,7 @@ void Sobol::reset(uint32_t nSkip)
   SobolData* s = create(m_dim);
   nlopt_sobol_destroy(m_s);
   m_s = s;
+  m_pos = m_dim;
   if (nSkip > 0)
     skip(nSkip);
 }
-- 
2.43.0


From f8ffccb239af1677b1ce5a8dceac880843e87d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:04 +0000
Subject: [PATCH 14/36] fix: an exhausted SobolSequence raises StopIteration

The generation limit is signalled by std::out_of_range, which is not a
std::runtime_error, so next() raised IndexError.
---
 src/module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/module.cpp b/src/module.cpp
index 135666f..c819d66 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -148,7 +148,7 @@ public:
       std::transform(buf.cbegin(), buf.cend(), begin(sequence), [](uint32_t i) { return i * Sobol::SCALE; });
       return sequence;
     }
-    catch(const std::runtime_error&)
+    catch(const std::out_of_range&)
     {
       throw py::stop_iteration();
     }
-- 
2.43.0


From 030c4498a583facffd8a5925bdb2ea9c075b5846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 15/36] fix: validate the input of integerise and round the 1-d
 total

The total of a 1-d array was truncated rather than rounded (0.1 ten times gives
0.9999999999999999, i.e. 0, then division by zero), and zero-sum, negative, NaN
or unnormalised distributions gave undefined behaviour or garbage frequencies.
---
 src/Integerise.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/Integerise.cpp b/src/Integerise.cpp
index c98b899..d422012 100644
--- a/src/Integerise.cpp
+++ b/src/Integerise.cpp
@@ -5,7 +5,9 @@
 #include "Log.h"
 
 #include <algorithm>
+#include <limits>
 #include <numeric>
+#include <stdexcept>
 #include <cmath>
 //#include <iostream>
 
@@ -13,7 +15,8 @@ namespace {
 
 int64_t checked_round(double x, double tol=1e-4) // loose tolerance ~1/4 mantissa precision
 {
-  if (fabs(x - round(x)) > tol)
+  // also excludes values that are not finite or not representable
+  if (!(fabs(x - round(x)) <= tol) || fabs(x) > 9.0e18)
     throw std::runtime_error("Marginal or total value %% is not an integer (within tolerance %%)"s % x % tol);
   return (int64_t)round(x);
 }
@@ -26,6 +29,16 @@ std::vector<int> integeriseMarginalDistribution(const std::vector<double>& p, in
   std::vector<int> f(n);
   std::vector<double> r(n);
 
+  double total = 0.0;
+  for (size_t i = 0; i < n; ++i)
+  {
+    if (!(p[i] >= 0.0))
+      throw std::runtime_error("invalid value %% at index %%"s % p[i] % i);
+    total += p[i];
+  }
+  if (pop > 0 && !(fabs(total - 1.0) < 1e-3))
+    throw std::runtime_error("probabilities sum to %%, expected 1"s % total);
+
   for(size_t i = 0; i < n; ++i)
   {
     f[i] = p[i] * pop; // rounded down
@@ -62,9 +75,13 @@ Integeriser::Integeriser(const NDArray<double>& seed) : m_seed(seed)
   {
     // convert to vector (reduce 1-d special case)
     std::vector<double> p = reduce(seed, 0);
-    int pop = sum(seed);
+    const int64_t total = checked_round(sum(seed));
+    if (total > std::numeric_limits<int>::max())
+      throw std::runtime_error("total population %% is too large"s % total);
+    int pop = (int)total;
     // convert to probabilities
-    for (auto& x: p) x /= pop;
+    if (pop > 0)
+      for (auto& x: p) x /= pop;
     std::vector<int> tmp = integeriseMarginalDistribution(p, pop, m_rmse);
     m_result.resize({(int64_t)tmp.size()});
     std::copy(tmp.begin(), tmp.end(), m_result.begin());
-- 
2.43.0


From d097d4a2cab0d574e3f2d4b1b5eedd34fa4c7c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 16/36] fix: chi-squared is not NaN when there are impossible
 states

An unoccupied state with zero expected occupancy contributed 0/0.
---
 src/StatFuncs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatFuncs.h b/src/StatFuncs.h
index 2d5152c..03c699f 100644
--- a/src/StatFuncs.h
+++ b/src/StatFuncs.h
@@ -38,6 +38,9 @@ double chiSq(const NDArray<T>& sample, const NDArray<U>& reference)
   double chisq = 0.0;
   for (Index index(sample.sizes()); !index.end(); ++index)
   {
+    // impossible states that are (correctly) unoccupied contribute nothing
+    if (sample[index] == 0 && reference[index] == 0)
+      continue;
     // m is the mean population of this state
     chisq += (sample[index] - reference[index]) * (sample[index] - reference[index]) / reference[index];
   }
-- 
2.43.0


From 6f4242a21f33a94471e3ab3567d4b542ee64be0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:05 +0000
Subject: [PATCH 17/36] fix: p-value of a chi-squared statistic that is not
 finite

NaN gave p-value 1, and so did an infinite statistic.
---
 src/StatFuncs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 8705b6a..b52959a 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -333,6 +333,10 @@ std::pair<uint32_t, uint32_t> Cholesky::operator()(const std::vector<uint32_t>&
 
 std::pair<double, bool> pValue(uint32_t dof, double x)
 {
+  if (std::isnan(x))
+    return std::make_pair(x, false);
+  if (std::isinf(x))
+    return std::make_pair(x > 0.0 ? 0.0 : 1.0, x > 0.0);
   double k = dof * 0.5;
   int e = 0;
   double p = 1.0 - gamain(x/2.0, k, &e);
-- 
2.43.0


From 18e15ced58bdd5fce44c5e7cdc9c1f59149e80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:03 +0000
Subject: [PATCH 18/36] fix: qis expectation is zero, not NaN, when the
 population is zero

---
 src/QIS.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index d1bd930..3b4e5cc 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -172,7 +172,9 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   computeStateValues();
   NDArray<double>::copy(m_stateValues, m_expectedStateOccupancy);
   // scale to get expected occupancy
-  double scale = double(m_population) / sum(m_stateValues);
+  // (no scaling if nothing is expected anywhere, i.e. the population is zero)
+  const double total = sum(m_stateValues);
+  double scale = total > 0.0 ? double(m_population) / total : 0.0;
   for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
     m_expectedStateOccupancy[index] *= scale;
 #ifdef VERBOSE
-- 
2.43.0


From 6593dd964c76a160b6b3a93d6826b7ba93c9bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:52 +0000
Subject: [PATCH 19/36] fix: qis expectation when marginals have dimensions in
 common

The product of the marginals counts the shared dimensions more than once, so the
expectation did not reproduce the marginals and chi-squared was measured against
the wrong reference. It is the IPF solution for a unity seed.
---
 src/QIS.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/QIS.cpp b/src/QIS.cpp
index 3b4e5cc..dfe7757 100644
--- a/src/QIS.cpp
+++ b/src/QIS.cpp
@@ -1,5 +1,6 @@
 
 #include "QIS.h"
+#include "IPF.h"
 #include "Index.h"
 #include "StatFuncs.h"
 #include "Log.h"
@@ -177,6 +178,19 @@ QIS::QIS(const index_list_t& indices, marginal_list_t& marginals, int64_t skips)
   double scale = total > 0.0 ? double(m_population) / total : 0.0;
   for (Index index(m_expectedStateOccupancy.sizes()); !index.end(); ++index)
     m_expectedStateOccupancy[index] *= scale;
+
+  // the product of the marginals is not the expectation if they have dimensions in common
+  for (size_t d = 0; d < m_dim; ++d)
+  {
+    if (m_dim_lookup[d].size() > 1)
+    {
+      NDArray<double> unity(m_array.sizes());
+      unity.assign(1.0);
+      IPF<int64_t> ipf(m_indices, m_marginals);
+      NDArray<double>::copy(ipf.solve(unity), m_expectedStateOccupancy);
+      break;
+    }
+  }
 #ifdef VERBOSE
   // if (sum(m_expectedStateOccupancy) != m_population)
   //   throw std::logic_error("mismatch in expected state occupancy" + std::to_string(sum(m_expectedStateOccupancy)) + " vs " + std::to_string(m_population));
-- 
2.43.0


From a8a52377f0cc5b004ea4f3c60578fb03855d329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:17 +0000
Subject: [PATCH 20/36] fix: flatten rejects negative counts

They were included in the total that the table was sized by but not in the rows
written to it, which overflowed the heap.
---
 src/NDArrayUtils.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index 7995c21..a992f96 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -204,6 +204,16 @@ NDArray<T> slice(const NDArray<T>& outer, const std::vector<std::pair<int64_t, i
 template<typename T>
 std::vector<std::vector<int>> listify(const size_t pop, const NDArray<T>& t, int offset = 0)
 {
+  // ensure there is a row for every individual, and no individuals can be missing
+  size_t remaining = pop;
+  for (size_t i = 0; i < t.storageSize(); ++i)
+  {
+    const T n = t.rawData()[i];
+    if (n < 0 || static_cast<size_t>(n) > remaining)
+      throw std::runtime_error("invalid state occupancy " + std::to_string(n));
+    remaining -= n;
+  }
+
   // use offset = 1 for langauges where array indexing begins at 1 (e.g. R)
   std::vector<std::vector<int>> list(t.dim(), std::vector<int>(pop));
 
-- 
2.43.0


From 98ca3aa8f66d4b96e57f14f68b63cdcbf82be428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 21/36] fix: qisi and integerise return an approximate solution
 instead of throwing

Once sampling reached a point from which the marginals could not be met (typically
with zeros in the seed) the IPF recalculation failed, either on the negative
marginal or by leaving nothing to sample from. The documented behaviour is an
approximate array that is not flagged as converged.
---
 src/QISI.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/QISI.cpp b/src/QISI.cpp
index c17b4e5..111e420 100644
--- a/src/QISI.cpp
+++ b/src/QISI.cpp
@@ -133,7 +133,16 @@ const NDArray<int64_t>& QISI::solve(const NDArray<double>& seed, bool reset)
 #endif
     --m_ipfSolution[main_index];
     if (m_ipfSolution[main_index] < 0.0)
-      recomputeIPF(seed);
+    {
+      // there is no IPF solution once a marginal has been exceeded
+      if (m_conv)
+        recomputeIPF(seed);
+      else
+        m_ipfSolution[main_index] = 0.0;
+    }
+    // if no state can satisfy what remains of the marginals (e.g. the seed has zeros) carry on, approximately, from the initial solution
+    if (i < m_population - 1 && sum(m_ipfSolution) < 1e-8)
+      NDArray<double>::copy(m_expectedStateOccupancy, m_ipfSolution);
   }
   m_chiSq = ::chiSq(m_array, m_expectedStateOccupancy);
 
-- 
2.43.0


From 77f017d6b9cc0cf58f6433bddb154ff918395e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:47 +0000
Subject: [PATCH 22/36] fix: R API checks the number of dimensions of seeds and
 marginals

Reading a marginal with more dimensions than indices, or a seed with more
dimensions than the marginals define, ran past the end of the index and size
vectors.
---
 src/rcpp_api.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index bb9eb1b..41f2039 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -77,6 +77,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
     {
       colMajorSizes.push_back(mv.size());
     }
+    if (colMajorSizes.size() != static_cast<size_t>(iv.size()))
+      throw std::runtime_error("index/marginal dimension mismatch " + std::to_string(iv.size()) + " vs " + std::to_string(colMajorSizes.size()));
     for (size_t j = 0; j < colMajorSizes.size(); ++j)
     {
       lookup[iv[j]] = colMajorSizes[j];
@@ -92,6 +94,8 @@ std::vector<int64_t> getDimension(List indices, List marginals)
 void checkSeed(NumericVector seed, const std::vector<int64_t>& impliedDim)
 {
   const Dimension& seedDim = seed.attr("dim");
+  if (static_cast<size_t>(seedDim.size()) != impliedDim.size())
+    throw std::runtime_error("seed dimension " + std::to_string(seedDim.size()) + " is inconsistent with that implied by marginals (" + std::to_string(impliedDim.size()) + ")");
   for (size_t i = 0; i < static_cast<size_t>(seedDim.size()); ++i)
   {
     if (seedDim[i] != impliedDim[i])
-- 
2.43.0


From dd14e77b64566cfb12de1b921ab0d16db609540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:06 +0000
Subject: [PATCH 23/36] fix: R flatten with too few category names crashed

---
 src/rcpp_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 41f2039..6e6f7d5 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -489,6 +489,9 @@ DataFrame flatten(IntegerVector stateOccupancies, StringVector categoryNames)
   const NDArray<int64_t>& a = Rhelpers::convertArray<int64_t, IntegerVector>(stateOccupancies);
   int64_t pop = sum(a);
 
+  if (static_cast<size_t>(categoryNames.size()) < a.dim())
+    throw std::runtime_error("fewer category names than dimensions");
+
   // for R indices start at 1
   const std::vector<std::vector<int>>& list = listify(pop, a, 1);
 
-- 
2.43.0


From ad40c6f5af95cc5302fdc5cd84d48edc895ea47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:24 +0000
Subject: [PATCH 24/36] fix: R sobolSequence with a negative skip

It was converted to a huge unsigned value and effectively never returned.
---
 src/rcpp_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rcpp_api.cpp b/src/rcpp_api.cpp
index 6e6f7d5..4e6da7d 100644
--- a/src/rcpp_api.cpp
+++ b/src/rcpp_api.cpp
@@ -458,6 +458,9 @@ NumericMatrix sobolSequence(int dim, int n, int skip = 0)
 {
   static const double scale = 0.5 / (1ull<<31);
 
+  if (skip < 0)
+    throw std::runtime_error("cannot skip a negative number of variates");
+
   NumericMatrix m(n, dim);
 
   Sobol s(dim, skip);
-- 
2.43.0


From 4e13fd7babb7f6db7835e177fafd280be65967cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:59 +0000
Subject: [PATCH 25/36] fix: max() of an array returned its minimum

---
 src/NDArrayUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index a992f96..c960d5e 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -56,12 +56,12 @@ T min(const NDArray<T>& a)
 template<typename T>
 T max(const NDArray<T>& a)
 {
-  T minVal = std::numeric_limits<T>::max();
+  T maxVal = std::numeric_limits<T>::lowest();
   for (Index i(a.sizes()); !i.end(); ++i)
   {
-    minVal = std::min(minVal, a[i]);
+    maxVal = std::max(maxVal, a[i]);
   }
-  return minVal;
+  return maxVal;
 }
 
 // TODO move printing somehwere else
-- 
2.43.0


From 4942145bb8bfd91907737d79651422cdba687123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:36 +0000
Subject: [PATCH 26/36] fix: correlated variates at the ends of the range

invCumNorm(0) was NaN rather than the most negative value, and a cumulative
probability of 1 overflowed 32 bits to 0.
---
 src/StatFuncs.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index b52959a..79e9f0f 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -1,5 +1,6 @@
 
 #include "StatFuncs.h"
+#include <algorithm>
 #include <limits>
 #include <stdexcept>
 #include <string>
@@ -293,6 +294,9 @@ double invCumNorm(const double x)
   double z;
   if (x < x_low_ || x_high_ < x) {
     z = tail_value(x);
+    // limiting values cannot be refined
+    if (std::fabs(z) == std::numeric_limits<double>::max())
+      return z;
   } else {
     z = x - 0.5;
     double r = z*z;
@@ -323,12 +327,14 @@ Cholesky::Cholesky(double rho)
 std::pair<uint32_t, uint32_t> Cholesky::operator()(const std::vector<uint32_t>& uncorrelated) const
 {
   static const double scale = 0.5 / (1u << 31);
+  // cumNorm can be exactly 1
+  static const double max = std::numeric_limits<uint32_t>::max();
   // convert to normal
   double n0 = invCumNorm(uncorrelated[0] * scale);
   double n1 = invCumNorm(uncorrelated[1] * scale);
   // correlate and convert back to uniform
-  return std::make_pair(cumNorm(n0) / scale,
-                        cumNorm(n0 * m_data[0] + n1 * m_data[1]) / scale);
+  return std::make_pair(std::min(cumNorm(n0) / scale, max),
+                        std::min(cumNorm(n0 * m_data[0] + n1 * m_data[1]) / scale, max));
 }
 
 std::pair<double, bool> pValue(uint32_t dof, double x)
-- 
2.43.0


From 7ab85df520392f54b631efbf244af7ebf773bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:07 +0000
Subject: [PATCH 27/36] monitoring hooks, guarded by HUMANLEAGUE_MONITOR

Per-dimension index checks in NDArray, and control of the number of points a new
Sobol sequence believes it has generated.
---
 src/Monitor.h     | 36 ++++++++++++++++++++++++++++++++++++
 src/NDArray.h     |  4 ++++
 src/SobolImpl.cpp |  9 +++++++++
 3 files changed, 49 insertions(+)
 create mode 100644 src/Monitor.h

diff --git a/src/Monitor.h b/src/Monitor.h
new file mode 100644
index 0000000..34058a5
--- /dev/null
+++ b/src/Monitor.h
@@ -0,0 +1,36 @@
+// Monitor.h - instrumentation for runtime verification, only active if HUMANLEAGUE_MONITOR is defined
+
+#pragma once
+
+#ifdef HUMANLEAGUE_MONITOR
+
+#include <atomic>
+#include <cstddef>
+#include <cstdint>
+#include <cstdio>
+#include <cstdlib>
+
+extern "C"
+{
+// number of array element accesses checked (approximate if there are multiple threads)
+__attribute__((visibility("default"))) inline std::atomic<uint64_t> humanleague_monitor_accesses{0};
+}
+
+// every component of an index must be within the corresponding dimension (a wrong index can still be within the storage)
+inline void humanleague_monitor_index(size_t d, int64_t index, int64_t size)
+{
+  humanleague_monitor_accesses.store(humanleague_monitor_accesses.load(std::memory_order_relaxed) + 1, std::memory_order_relaxed);
+  if (index < 0 || index >= size)
+  {
+    std::fprintf(stderr, "HUMANLEAGUE_MONITOR: index %lld is out of range in dimension %zu of size %lld\n", (long long)index, d, (long long)size);
+    std::abort();
+  }
+}
+
+#define HUMANLEAGUE_MONITOR_INDEX(d, index, size) humanleague_monitor_index((d), (index), (size))
+
+#else
+
+#define HUMANLEAGUE_MONITOR_INDEX(d, index, size)
+
+#endif
diff --git a/src/NDArray.h b/src/NDArray.h
index 8bc77ab..e87cfa3 100644
--- a/src/NDArray.h
+++ b/src/NDArray.h
@@ -1,6 +1,8 @@
 
 #pragma once
 
+#include "Monitor.h"
+
 #include <algorithm>
 #include <limits>
 #include <stdexcept>
@@ -227,6 +229,7 @@ private:
     size_t ret = 0;
     for (size_t i = 0; i < m_dim; ++i)
     {
+      HUMANLEAGUE_MONITOR_INDEX(i, idx[i], m_sizes[i]);
       ret += m_offsets[i] * idx[i];
     }
     return ret;
@@ -238,6 +241,7 @@ private:
     size_t ret = 0;
     for (size_t i = 0; i < m_dim; ++i)
     {
+      HUMANLEAGUE_MONITOR_INDEX(i, *idx[i], m_sizes[i]);
       ret += m_offsets[i] * *idx[i];
     }
     return ret;
diff --git a/src/SobolImpl.cpp b/src/SobolImpl.cpp
index a0c5b1d..d393087 100644
--- a/src/SobolImpl.cpp
+++ b/src/SobolImpl.cpp
@@ -113,6 +113,11 @@ static int sobol_gen(SobolData *sd, uint32_t *x)
 
 #include "SobolData.h"
 
+#ifdef HUMANLEAGUE_MONITOR
+/* new sequences pretend that this many points have already been generated, so that exhaustion can be observed */
+__attribute__((visibility("default"))) uint32_t humanleague_monitor_sobol_start = 0;
+#endif
+
 static int sobol_init(SobolData *sd, uint32_t sdim)
 {
   uint32_t i,j;
@@ -177,7 +182,11 @@ static int sobol_init(SobolData *sd, uint32_t sdim)
     sd->b[i] = 0;
   }
 
+#ifdef HUMANLEAGUE_MONITOR
+  sd->n = humanleague_monitor_sobol_start;
+#else
   sd->n = 0;
+#endif
   sd->sdim = sdim;
 
   return 1;
-- 
2.43.0


From d0003b040e0e4ac4deaa961d821b3c9dc8093675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 28/36] fix: fitting to a marginal with all dimensions never
 returned

---
 src/Index.cpp      | 6 ++++++
 src/NDArrayUtils.h | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Index.cpp b/src/Index.cpp
index e7e72be..e79712e 100644
--- a/src/Index.cpp
+++ b/src/Index.cpp
@@ -105,6 +105,9 @@ MappedIndex::MappedIndex(const Index& idx, const std::vector<int64_t>& mappedDim
 
 const MappedIndex& MappedIndex::operator++()
 {
+  // there is only one element when no dimensions are mapped
+  if (m_dim == 0)
+    m_atEnd = true;
   for (int64_t i = m_dim - 1; i != -1ll; --i)
   {
     ++*m_mappedIndex[i];
@@ -170,6 +173,9 @@ FixedIndex::FixedIndex(const std::vector<int64_t>& sizes, const std::vector<std:
 
 const FixedIndex& FixedIndex::operator++()
 {
+  // there is only one element when all dimensions are fixed
+  if (m_freeDim == 0)
+    m_atEnd = true;
   for (int64_t i = m_freeDim - 1; i != -1ll; --i)
   {
     ++*m_freeIndex[i];
diff --git a/src/NDArrayUtils.h b/src/NDArrayUtils.h
index c960d5e..c9eaa67 100644
--- a/src/NDArrayUtils.h
+++ b/src/NDArrayUtils.h
@@ -136,13 +136,13 @@ std::vector<T> reduce(const NDArray<T>& input, size_t orient)
 }
 
 
-// Reduce n-D array to m-D sums (where m<n)
+// Reduce n-D array to m-D sums (where m<=n)
 template<typename T>
 NDArray<T> reduce(const NDArray<T>& input, const std::vector<int64_t>& preservedDims)
 {
   const size_t reducedDim = preservedDims.size();
   // check valid orientation
-  assert(reducedDim < input.dim());
+  assert(reducedDim <= input.dim());
 
   std::vector<int64_t> preservedSizes(reducedDim);
   for (size_t d = 0; d < reducedDim; ++d)
-- 
2.43.0


From b7c451db53d59d8de142d73dabc1958f68b1cbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:31 +0000
Subject: [PATCH 29/36] fix: overflow in ipf when the seed is very small

---
 src/Microsynthesis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index d886c5b..0017af0 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -9,6 +9,7 @@
 #include "Log.h"
 
 #include <algorithm>
+#include <cmath>
 #include <vector>
 #include <map>
 #include <numeric>
@@ -187,6 +188,12 @@ protected:
       {
         for (MappedIndex index(main_index, m_indices[k]); !index.end(); ++index)
         {
+          // the ratio of marginal to sum can overflow if the seed is very small
+          if (r[index] != 0.0 && std::isinf(m_marginals[k][index] / r[index]))
+          {
+            m_array[main_index] = m_array[main_index] / r[index] * m_marginals[k][index];
+            continue;
+          }
 #ifndef NDEBUG
           if (r[index] == 0.0 && m_marginals[k][index] != 0.0)
             throw std::runtime_error("div0 in rScale with m>0");
-- 
2.43.0


From 9e85a826bc42a24a12752ab43db6eacd139f35cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:47 +0000
Subject: [PATCH 30/36] fix: marginals with the same half-integral total were
 refused because of rounding errors

---
 src/Microsynthesis.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Microsynthesis.h b/src/Microsynthesis.h
index 0017af0..867fab8 100644
--- a/src/Microsynthesis.h
+++ b/src/Microsynthesis.h
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <limits>
 #include <vector>
 #include <map>
 #include <numeric>
@@ -226,11 +227,15 @@ protected:
     // more validation
 
     // check marginal sums all the same (round to nearest)
-    m_population = static_cast<int64_t>(sum(m_marginals[0]) + 0.5);
+    const M sum0 = sum(m_marginals[0]);
+    m_population = static_cast<int64_t>(sum0 + 0.5);
     for (size_t i = 1; i < m_marginals.size(); ++i)
     {
-      auto marginal_sum = static_cast<int64_t>(sum(m_marginals[i]) + 0.5);
-      if (marginal_sum != m_population)
+      const M sumi = sum(m_marginals[i]);
+      auto marginal_sum = static_cast<int64_t>(sumi + 0.5);
+      // rounding errors can tip totals that are half-integral either way (this only applies to floating-point marginals)
+      const double tol = std::max(1e-8, static_cast<double>(std::numeric_limits<M>::epsilon()) * (m_marginals[0].storageSize() + m_marginals[i].storageSize()) * sum0);
+      if (marginal_sum != m_population && (sumi > sum0 ? sumi - sum0 : sum0 - sumi) > tol)
         throw std::runtime_error("marginal sum mismatch at index %%: %% vs %%"s % i % marginal_sum % m_population);
     }
 
-- 
2.43.0


From 8f9ff4c76b3ec0ec31e0558737bf65ccc9a6f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:07 +0000
Subject: [PATCH 31/36] fix: indices and marginals had to be lists, other
 sequences were refused

---
 src/module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/module.cpp b/src/module.cpp
index c819d66..57d4ba2 100644
--- a/src/module.cpp
+++ b/src/module.cpp
@@ -177,7 +177,7 @@ py::tuple integerise(const input_array<double>& npseed)
   return py::make_tuple(fromNDArray<int64_t>(integeriser.result()), stats);
 }
 
-py::tuple ipf(const input_array<double>& seed, const py::list& ilist, const py::list& mlist)
+py::tuple ipf(const input_array<double>& seed, const py::sequence& ilist, const py::sequence& mlist)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -210,7 +210,7 @@ py::tuple ipf(const input_array<double>& seed, const py::list& ilist, const py::
 }
 
 
-py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qis(const py::sequence& ilist, const py::sequence& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -244,7 +244,7 @@ py::tuple qis(const py::list& ilist, const py::list& mlist, int64_t skips)
   return py::make_tuple(fromNDArray<int64_t>(result), stats);
 }
 
-py::tuple qisi(const input_array<double>& seed, const py::list& ilist, const py::list& mlist, int64_t skips)
+py::tuple qisi(const input_array<double>& seed, const py::sequence& ilist, const py::sequence& mlist, int64_t skips)
 {
   size_t k = ilist.size();
   if (k != mlist.size())
@@ -321,7 +321,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qis_docstr,
         "indices"_a, "marginals"_a, "skips"_a)
    .def("qis",
-        [](const py::list& indices, const py::list& marginals) { return hl::qis(indices, marginals, 0); },
+        [](const py::sequence& indices, const py::sequence& marginals) { return hl::qis(indices, marginals, 0); },
         qis2_docstr,
         "indices"_a, "marginals"_a)
    .def("qisi",
@@ -329,7 +329,7 @@ PYBIND11_MODULE(_humanleague, m) {
         qisi_docstr,
         "seed"_a, "indices"_a, "marginals"_a, "skips"_a)
    .def("qisi",
-        [](const hl::input_array<double>& seed, const py::list& indices, const py::list& marginals) { return hl::qisi(seed, indices, marginals, 0); },
+        [](const hl::input_array<double>& seed, const py::sequence& indices, const py::sequence& marginals) { return hl::qisi(seed, indices, marginals, 0); },
         qisi2_docstr,
         "seed"_a, "indices"_a, "marginals"_a)
    .def("_unittest",
-- 
2.43.0


From cd43aaabd3f6097a5ed72172a3a6eb0401fd555d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:08 +0000
Subject: [PATCH 32/36] fix: keep the precision of the cumulative normal
 function in the lower tail

---
 src/StatFuncs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 79e9f0f..5059a72 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -285,7 +285,8 @@ double tail_value(double x)
 
 double cumNorm(double x)
 {
-  return 0.5*(erf(x * rsqrt_2) + 1.0);
+  // NB 0.5*(erf(x) + 1.0) loses all precision in the lower tail
+  return 0.5 * erfc(-x * rsqrt_2);
 }
 
 
-- 
2.43.0


From 73a6c70acdf063d4be1c11d230085f8224e4193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:23 +0000
Subject: [PATCH 33/36] fix: invCumNorm returned NaN for denormal values

---
 src/StatFuncs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 5059a72..02b5afd 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -311,6 +311,9 @@ double invCumNorm(const double x)
 
   // error (cumNorm(z) - x) divided by the cumulative's derivative
   const double r = (cumNorm(z) - x) * sqrt_2 * sqrt_pi * exp(0.5 * z*z);
+  // nor can values where the derivative underflows
+  if (!std::isfinite(r))
+    return z;
   //  Halley's method
   z -= r/(1+0.5*z*r);
 
-- 
2.43.0


From 02e8d1260afa3d0ce109827c7d0fdafbf57bab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:36 +0000
Subject: [PATCH 34/36] fix: p-values lost convergence for more than about 5
 million degrees of freedom

---
 src/StatFuncs.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 02b5afd..714b0a5 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -63,7 +63,8 @@ namespace {
 
 double gamain ( double x, double p, int *ifault )
 {
-  const int maxIters = 10000;
+  // the number of terms needed near x = p grows with sqrt(p)
+  const int maxIters = 10000 + (int)(20.0 * sqrt(std::max(p, 0.0)));
   int iter;
   double a;
   static const double acu = 1.0E-08;
-- 
2.43.0


From 5995aac4b53def7cbe0d5404a36210e8c5614f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:30 +0000
Subject: [PATCH 35/36] fix: Cholesky accepted a correlation of NaN

---
 src/StatFuncs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatFuncs.cpp b/src/StatFuncs.cpp
index 714b0a5..0cb4880 100644
--- a/src/StatFuncs.cpp
+++ b/src/StatFuncs.cpp
@@ -323,7 +323,7 @@ double invCumNorm(const double x)
 
 Cholesky::Cholesky(double rho)
 {
-  if (std::fabs(rho) > 1.0)
+  if (!(std::fabs(rho) <= 1.0)) // NB also refuses NaN
     throw std::runtime_error("correlation is not in [-1,1]");
   m_data[0] = rho;
   m_data[1] = sqrt(1.0 - rho * rho);
-- 
2.43.0


From a5ff0ff09f2728f7a7542b6b278521d3821ecde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:07 +0000
Subject: [PATCH 36/36] fix: skipping no points of a Sobol sequence skipped one

---
 src/Sobol.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Sobol.cpp b/src/Sobol.cpp
index 553198a..e6332c2 100644
--- a/src/Sobol.cpp
+++ b/src/Sobol.cpp
@@ -61,6 +61,8 @@ uint32_t Sobol::operator()()
 // Skip largest 2^k-1 < n
 void Sobol::skip(uint32_t n)
 {
+  if (n == 0)
+    return;
   nlopt_sobol_skip(m_s, n, m_buf.data());
   // discard anything left from before the skip
   m_pos = m_dim;
-- 
2.43.0

