From 7ba84f811e6a66960a7e9d8a6b9b9cb55f5c2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 01/41] fix: releasing or re-admitting a block that owns its
 storage must not touch user storage

---
 src/ovxx/storage/manager.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/manager.hpp b/src/ovxx/storage/manager.hpp
index 455d71a..edce52e 100644
--- a/src/ovxx/storage/manager.hpp
+++ b/src/ovxx/storage/manager.hpp
@@ -206,7 +206,8 @@ public:
   }
   void admit(bool update=true)
   {
-    if (!admitted_ && !use_user_storage_ && update)
+    if (!admitted_ && !use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	host_storage_.put(i, user_storage_.get(i));
     admitted_ = true;
@@ -214,7 +215,8 @@ public:
   void release(bool update = true)
   {
     if (!admitted_) return;
-    if (!use_user_storage_ && update)
+    if (!use_user_storage_ && update &&
+	user_storage_.format() != no_user_format)
       for (index_type i = 0; i < host_storage_.size(); ++i)
 	user_storage_.put(i, host_storage_.get(i));
     admitted_ = false;
-- 
2.43.0


From 7bc56c0f639832facf0bcdf3838217bbd547945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 02/41] fix: blocks owning complex storage report null for both
 split user-storage pointers

---
 src/ovxx/storage/user.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/storage/user.hpp b/src/ovxx/storage/user.hpp
index e1d80a2..48cbe2d 100644
--- a/src/ovxx/storage/user.hpp
+++ b/src/ovxx/storage/user.hpp
@@ -74,13 +74,20 @@ class user_storage<complex<T> >
   friend struct detail::storage_cast;
 public:
   user_storage()
-    : format_(no_user_format), size_(0) { data_.a = 0;}
+    : format_(no_user_format), size_(0)
+  { data_.s.first = data_.s.second = 0;}
   user_storage(complex<T> *data, length_type size)
     : format_(data ? array_format : no_user_format), size_(size)
-  { data_.a = data;}
+  {
+    data_.s.second = 0;
+    data_.a = data;
+  }
   user_storage(T *data, length_type size)
     : format_(data ? interleaved_format : no_user_format), size_(size)
-  { data_.i = data;}
+  {
+    data_.s.second = 0;
+    data_.i = data;
+  }
   user_storage(std::pair<T*,T*> data, length_type size)
     : format_(data.first ? split_format : no_user_format), size_(size)
   {
-- 
2.43.0


From ed6ca186d36a38932a0ef4427a8861545b3e262a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 03/41] fix: column-major to row-major matrix copy swapped the
 extents for non-unit strides

---
 src/ovxx/assign/copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index 24bc4bd..f09a850 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -210,7 +210,7 @@ void copy(LHS &lhs, RHS const &rhs, row2_type, col2_type)
   {
     copy(lhs_data.ptr(), lhs_data.stride(0), lhs_data.stride(1),
 	 rhs_data.ptr(), rhs_data.stride(0), rhs_data.stride(1),
-	 lhs.size(2, 1), lhs.size(2, 0));
+	 lhs.size(2, 0), lhs.size(2, 1));
   }
 }
 
-- 
2.43.0


From 8191c1d7277c64ad78e73dfc96afa08fd49aa812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 04/41] fix: dividing a domain with a negative stride used
 unsigned division

---
 src/vsip/domain.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 683f6ba..262f47a 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -207,10 +207,16 @@ Domain<1>::Mem(Arg const a) VSIP_NOTHROW	      \
 OVXX_DEF_DOM1_MEMBER(impl_add_in, index_difference_type, index_, +=)
 OVXX_DEF_DOM1_MEMBER(impl_sub_out, index_difference_type, index_, -=)
 OVXX_DEF_DOM1_MEMBER(impl_mul_by, stride_scalar_type, stride_, *=)
-OVXX_DEF_DOM1_MEMBER(impl_div_by, stride_scalar_type, stride_, /=)
 
 #undef OVXX_DEF_DOM1_MEMBER
 
+inline void
+Domain<1>::impl_div_by(stride_scalar_type const a) VSIP_NOTHROW
+{
+  // The stride may be negative, so the division has to be signed.
+  this->stride_ /= static_cast<stride_type>(a);
+  assert(this->impl_is_valid());
+}
 
 inline bool 
 Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
-- 
2.43.0


From 474fa9b5e386282b1e8b66d313ff57f7f40ea8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 05/41] fix: domains containing the same single index compared
 unequal if their strides differed

---
 src/vsip/domain.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vsip/domain.hpp b/src/vsip/domain.hpp
index 262f47a..d532ee1 100644
--- a/src/vsip/domain.hpp
+++ b/src/vsip/domain.hpp
@@ -225,6 +225,10 @@ Domain<1>::element_conformant(Domain<1> const& d) const VSIP_NOTHROW
 inline bool 
 Domain<1>::impl_equals(Domain const& d) const VSIP_NOTHROW
 {
+  // The stride is irrelevant if there is at most one index.
+  if (this->length() <= 1)
+    return this->length() == d.length() &&
+      (this->length() == 0 || this->first() == d.first());
   return this->length() == d.length() &&
     ((this->stride() == d.stride() && this->first() == d.first()) ||
      (this->stride() == -d.stride() && 
-- 
2.43.0


From d26fc4be4d5d02e4df639013e850972793a1f3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 06/41] fix: intersecting with an empty domain reported common
 indices

---
 src/ovxx/domain_utils.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ovxx/domain_utils.hpp b/src/ovxx/domain_utils.hpp
index 6850044..c08db03 100644
--- a/src/ovxx/domain_utils.hpp
+++ b/src/ovxx/domain_utils.hpp
@@ -133,6 +133,8 @@ intersect(Domain<1> const &dom1,
 {
   OVXX_PRECONDITION(dom1.stride() == 1);
 
+  if (dom1.size() == 0 || dom2.size() == 0) return false;
+
   if (dom2.stride() == 1)
   {
     index_type first   = std::max(dom1.first(),     dom2.first());
-- 
2.43.0


From c6821cff57db2e39bc1d71eb31674f09a06ba09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 07/41] fix: patch_from_global_index returned the subblock
 instead of the patch

---
 src/ovxx/parallel/support.hpp    | 2 +-
 src/vsip/impl/replicated_map.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/support.hpp b/src/ovxx/parallel/support.hpp
index 4526ec5..0eee988 100644
--- a/src/ovxx/parallel/support.hpp
+++ b/src/ovxx/parallel/support.hpp
@@ -159,7 +159,7 @@ block_patch_from_global_index(B const &block, Index<D> const &idx)
   for (dimension_type d = 0; d < D; ++d)
     OVXX_PRECONDITION(idx[d] < block.size(D, d));
 
-  return block.map().template impl_subblock_from_global_index<D>(idx);
+  return block.map().template impl_patch_from_global_index<D>(idx);
 }
 
 template <typename B>
diff --git a/src/vsip/impl/replicated_map.hpp b/src/vsip/impl/replicated_map.hpp
index e919d59..4a0ec44 100644
--- a/src/vsip/impl/replicated_map.hpp
+++ b/src/vsip/impl/replicated_map.hpp
@@ -180,6 +180,11 @@ public:
     const VSIP_NOTHROW
   { return 0;}
 
+  template <dimension_type D1>
+  index_type impl_patch_from_global_index(Index<D1> const& /*idx*/)
+    const VSIP_NOTHROW
+  { return 0;}
+
   template <dimension_type D1>
   Domain<D> impl_local_from_global_domain(index_type /*sb*/,
 					  Domain<D1> const& dom)
-- 
2.43.0


From 8afb478e131a614684fbdb7ce83303c3a34b7ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:42 +0000
Subject: [PATCH 08/41] fix: global_from_local_index(view, dim, sb, idx) did
 not compile

---
 src/vsip/impl/parallel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/parallel.hpp b/src/vsip/impl/parallel.hpp
index ee91bde..8aa460f 100644
--- a/src/vsip/impl/parallel.hpp
+++ b/src/vsip/impl/parallel.hpp
@@ -276,7 +276,7 @@ typename ovxx::enable_if<ovxx::is_view_type<V>::value, index_type>::type
 global_from_local_index(V const &view, dimension_type dim,
 			index_type sb, index_type idx)
 {
-  return ovxx::parallel::block_global_from_local_index(view, dim, sb, idx);
+  return ovxx::parallel::block_global_from_local_index(view.block(), dim, sb, idx);
 }
 
 /// Determine VIEW's global index corresponding to local index L_IDX
-- 
2.43.0


From de5ffb1af1e70b4df85bba4aa61bf89329118990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 09/41] fix: slices of replicated views keep the processor set

---
 src/ovxx/expr/sliced.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index cad73b4..f0899ee 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -30,7 +30,8 @@ template <dimension_type D, dimension_type S>
 struct sliced_map<Replicated_map<D>, S>
 {
   typedef Replicated_map<D - 1> type;
-  static type convert_map(Replicated_map<D> const&, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type D, dimension_type S>
@@ -78,7 +79,8 @@ template <dimension_type D, dimension_type S1, dimension_type S2>
 struct sliced2_map<Replicated_map<D>, S1, S2>
 {
   typedef Replicated_map<D - 2> type;
-  static type convert_map(Replicated_map<D> const&, index_type, index_type) { return type();}
+  static type convert_map(Replicated_map<D> const &map, index_type, index_type)
+  { return type(map.processor_set());}
 }; 
 
 template <dimension_type S1, dimension_type S2>
-- 
2.43.0


From b5265aa4b444035bc812977ebd180c8392082eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 10/41] fix: receive into strided distributed vectors with the
 chained assignment

---
 src/ovxx/parallel/assign_fwd.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/parallel/assign_fwd.hpp b/src/ovxx/parallel/assign_fwd.hpp
index afadc0b..c2a8e0d 100644
--- a/src/ovxx/parallel/assign_fwd.hpp
+++ b/src/ovxx/parallel/assign_fwd.hpp
@@ -31,9 +31,13 @@ struct choose_par_assign_impl
   typedef typename LHS::map_type map1_type;
   typedef typename RHS::map_type map2_type;
 
+  // Blkvec_assign receives straight into the destination's storage,
+  // so that has to be known to be contiguous.
   static int const  is_blkvec = (D == 1) &&
     is_block_dist<0, map1_type>::value &&
-    is_block_dist<0, map2_type>::value;
+    is_block_dist<0, map2_type>::value &&
+    supports_dda<LHS>::value &&
+    is_packing_unit_stride<get_block_layout<LHS>::packing>::value;
 
   typedef typename conditional<is_blkvec, Blkvec_assign, Chained_assign>::type type;
 };
-- 
2.43.0


From 81b099edddcbfeac4c231059035a48d5ac8dd8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 11/41] fix: slices of distributed views keep the distributions
 of the remaining dimensions

---
 src/ovxx/parallel/map_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/parallel/map_utils.hpp b/src/ovxx/parallel/map_utils.hpp
index 203b1fa..d4d44a8 100644
--- a/src/ovxx/parallel/map_utils.hpp
+++ b/src/ovxx/parallel/map_utils.hpp
@@ -92,7 +92,7 @@ struct map_project_1<1, Map<D0, D1, D2> >
 					 fix_sb_1*num_sb_2      + sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 2));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D2>(map, 2));
   }
 };
 
@@ -136,7 +136,7 @@ struct map_project_1<2, Map<D0, D1, D2> >
 					 fix_sb_2);
     }
 
-    return type(pvec, copy_dist<D1>(map, 0), copy_dist<D2>(map, 1));
+    return type(pvec, copy_dist<D0>(map, 0), copy_dist<D1>(map, 1));
   }
 };
 
-- 
2.43.0


From 4e863235e254dce8cf43ab7c4bff20e789af8955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 12/41] fix: map of a distributed tensor's vector slices has
 the remaining distribution

---
 src/ovxx/parallel/map_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/parallel/map_utils.hpp b/src/ovxx/parallel/map_utils.hpp
index d4d44a8..054d5da 100644
--- a/src/ovxx/parallel/map_utils.hpp
+++ b/src/ovxx/parallel/map_utils.hpp
@@ -185,7 +185,7 @@ struct map_project_2<0, 1, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<0, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D1> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx0,
@@ -227,7 +227,7 @@ struct map_project_2<0, 2, Map<D0, D1, D2> >
 template <typename D0, typename D1, typename D2>
 struct map_project_2<1, 2, Map<D0, D1, D2> >
 {
-  typedef Map<D2> type;
+  typedef Map<D0> type;
 
   static type project(Map<D0, D1, D2> const& map,
 		      index_type idx1,
-- 
2.43.0


From 8db91f17bdef82a0c69b64187f2351dae6e65990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 13/41] fix: vector slices of distributed tensors are empty on
 processors that hold none of them

---
 src/ovxx/expr/sliced.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/expr/sliced.hpp b/src/ovxx/expr/sliced.hpp
index f0899ee..f8d1fe5 100644
--- a/src/ovxx/expr/sliced.hpp
+++ b/src/ovxx/expr/sliced.hpp
@@ -320,9 +320,10 @@ public:
   // The total size of a sliced block is the total size of the underlying
   // block, divided by the size of the bound index.
   length_type size() const VSIP_NOTHROW
-  { return block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);}
+  { return index1_ == no_index ? 0 :
+      block_->size() / block_->size(Block::dim, D1) / block_->size(Block::dim, D2);}
   length_type size(dimension_type block_d, dimension_type d) const VSIP_NOTHROW
-  { return block_->size(block_d + 2,
+  { return index1_ == no_index ? 0 : block_->size(block_d + 2,
 		      ovxx::detail::compare<dimension_type, D1>() > d     ? d   :
 		      ovxx::detail::compare<dimension_type, D2>() > (d+1) ? d+1 : d+2);
   }
@@ -558,10 +559,18 @@ get_local_block(expr::Sliced2<B, D1, D2> const &block)
   typedef expr::Sliced2<typename distributed_local_block<B>::type, D1, D2>
     local_block_type;
 
-  index_type idx1 = block.block().map().
-    impl_local_from_global_index(D1, block.index1());
-  index_type idx2 = block.block().map().
-    impl_local_from_global_index(D2, block.index2());
+  // This conversion is only valid if the local processor holds
+  // the subblock containing the slice.
+
+  index_type idx1 = no_index;
+  index_type idx2 = no_index;
+  if (block.map().subblock() != no_subblock)
+  {
+    idx1 = block.block().map().
+      impl_local_from_global_index(D1, block.index1());
+    idx2 = block.block().map().
+      impl_local_from_global_index(D2, block.index2());
+  }
 
   return local_block_type(get_local_block(block.block()), idx1, idx2);
 }
-- 
2.43.0


From 7cd26143c25d8754ca24a3be0fe406f94e8cd153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 14/41] fix: sum reductions of complex values over a
 communicator used an invalid MPI type

---
 src/ovxx/mpi/datatype.hpp | 22 +++-------------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/src/ovxx/mpi/datatype.hpp b/src/ovxx/mpi/datatype.hpp
index a6e7da9..2f4a20e 100644
--- a/src/ovxx/mpi/datatype.hpp
+++ b/src/ovxx/mpi/datatype.hpp
@@ -40,6 +40,9 @@ OVXX_DATATYPE(unsigned long,  MPI_UNSIGNED_LONG)
 OVXX_DATATYPE(float,          MPI_FLOAT)
 OVXX_DATATYPE(double,         MPI_DOUBLE)
 OVXX_DATATYPE(long double,    MPI_LONG_DOUBLE)
+OVXX_DATATYPE(std::complex<float>,       MPI_C_FLOAT_COMPLEX)
+OVXX_DATATYPE(std::complex<double>,      MPI_C_DOUBLE_COMPLEX)
+OVXX_DATATYPE(std::complex<long double>, MPI_C_LONG_DOUBLE_COMPLEX)
 
 template <dimension_type D>
 struct Datatype<Index<D> >
@@ -60,25 +63,6 @@ struct Datatype<Index<D> >
   }
 };
 
-template <typename T>
-struct Datatype<std::complex<T> >
-{
-  static MPI_Datatype value()
-  {
-    static bool first = true;
-    static MPI_Datatype datatype;
-
-    if (first)
-    {
-      first = false;
-      MPI_Type_contiguous(2, Datatype<T>::value(), &datatype);
-      MPI_Type_commit(&datatype);
-    }
-
-    return datatype;
-  }
-};
-
 template <>
 struct Datatype<bool>
 {
-- 
2.43.0


From 1c3f531862b672f43db24e8b5b725bc328d29f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:20 +0000
Subject: [PATCH 15/41] fix: histograms of integral values computed a truncated
 (possibly zero) bin width

---
 src/vsip/impl/signal/histo.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/vsip/impl/signal/histo.hpp b/src/vsip/impl/signal/histo.hpp
index b5660df..89ee751 100644
--- a/src/vsip/impl/signal/histo.hpp
+++ b/src/vsip/impl/signal/histo.hpp
@@ -27,6 +27,26 @@ hist_bin(T min, T max, T delta, length_type num, T value)
   else return (index_type)(((value - min) / delta) + 1);
 } 
 
+/// For integral values the bin width isn't integral in general, so
+/// scale the offset instead of dividing by a (truncated) width.
+template <typename T>
+inline typename ovxx::enable_if<ovxx::is_integral<T>::value, index_type>::type
+hist_bin(T min, T max, length_type num, T value)
+{
+  typedef unsigned long long wide;
+  if (value < min) return 0;
+  else if (value >= max) return num - 1;
+  else return (index_type)((wide(value) - wide(min)) * wide(num - 2) /
+			   (wide(max) - wide(min)) + 1);
+}
+
+template <typename T>
+inline typename ovxx::enable_if<!ovxx::is_integral<T>::value, index_type>::type
+hist_bin(T min, T max, length_type num, T value)
+{
+  return hist_bin(min, max, T((max - min) / (num - 2)), num, value);
+}
+
 template <dimension_type D>
 struct Histogram_accumulator;
 
@@ -37,11 +57,10 @@ struct Histogram_accumulator<1>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
 
     for (index_type i = 0; i < input.size(1, 0); ++i)
     {
-      index_type n = hist_bin(min, max, delta, num, input.get(i));
+      index_type n = hist_bin(min, max, num, input.get(i));
       hist.put(n, hist.get(n) + 1);
     }
   }
@@ -54,12 +73,11 @@ struct Histogram_accumulator<2>
   static void exec(T min, T max, HBlock &hist, DBlock const &input)
   {
     length_type num = hist.size();
-    T delta = (max - min) / (num - 2);
 
     for (index_type i = 0; i < input.size(2, 0); ++i)
       for (index_type j = 0; j < input.size(2, 1); ++j)
       {
-	index_type n = hist_bin(min, max, delta, num, input.get(i, j));
+	index_type n = hist_bin(min, max, num, input.get(i, j));
 	hist.put(n, hist.get(n) + 1);
       }
   }
-- 
2.43.0


From 3620d38519c59c40fbefa9aaf390e13a95863ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 16/41] fix: local parts of distributed element-wise
 expressions lost the state of their functors

---
 src/ovxx/expr/binary.hpp  | 3 ++-
 src/ovxx/expr/ternary.hpp | 3 ++-
 src/ovxx/expr/unary.hpp   | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ovxx/expr/binary.hpp b/src/ovxx/expr/binary.hpp
index bb4b930..3bfd954 100644
--- a/src/ovxx/expr/binary.hpp
+++ b/src/ovxx/expr/binary.hpp
@@ -289,7 +289,8 @@ get_local_block(expr::Binary<Operation, Arg1, Arg2, true> const &block)
 		       typename distributed_local_block<Arg2>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()));
 }
 
diff --git a/src/ovxx/expr/ternary.hpp b/src/ovxx/expr/ternary.hpp
index fef5ce6..57386fd 100644
--- a/src/ovxx/expr/ternary.hpp
+++ b/src/ovxx/expr/ternary.hpp
@@ -288,7 +288,8 @@ get_local_block(Ternary<O, B1, B2, B3, true> const &block)
 		  true>
     block_type;
 
-  return block_type(get_local_block(block.arg1()),
+  return block_type(block.operation(),
+		    get_local_block(block.arg1()),
 		    get_local_block(block.arg2()),
 		    get_local_block(block.arg3()));
 }
diff --git a/src/ovxx/expr/unary.hpp b/src/ovxx/expr/unary.hpp
index dceecec..fad0b18 100644
--- a/src/ovxx/expr/unary.hpp
+++ b/src/ovxx/expr/unary.hpp
@@ -199,7 +199,7 @@ get_local_block(expr::Unary<O, B, true> const &block)
   typedef expr::Unary<O, typename distributed_local_block<B>::type, true>
     block_type;
 
-  return block_type(get_local_block(block.arg()));
+  return block_type(block.operation(), get_local_block(block.arg()));
 }
 
 template <template <typename> class O, typename B>
-- 
2.43.0


From cadf0e7ad8f1e4c4f18a2187e17216085d05c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:24 +0000
Subject: [PATCH 17/41] fix: column-wise freqswap used the number of rows as
 the number of columns

---
 src/vsip/impl/signal/freqswap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/impl/signal/freqswap.hpp b/src/vsip/impl/signal/freqswap.hpp
index 3a58388..53bc6fc 100644
--- a/src/vsip/impl/signal/freqswap.hpp
+++ b/src/vsip/impl/signal/freqswap.hpp
@@ -62,7 +62,7 @@ freqswap(const_Matrix<T1, B1> in, Matrix<T2, B2> out)
   }
   else
   {
-    for (index_type c = 0; c != rows; ++c)
+    for (index_type c = 0; c != cols; ++c)
       freqswap(in.col(c), out.col(c));
   }
   return out;
-- 
2.43.0


From 3866209ceac5bd232eae8bae21f830e21a59a51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:27 +0000
Subject: [PATCH 18/41] fix: swap of matrices with different dimension orders
 permuted elements

---
 src/vsip/selgen.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vsip/selgen.hpp b/src/vsip/selgen.hpp
index 3682879..d71b90c 100644
--- a/src/vsip/selgen.hpp
+++ b/src/vsip/selgen.hpp
@@ -262,13 +262,15 @@ struct Swap
   static void apply(Block1 &block1, Block2 &block2)
   {
     assert(block1.size() == block2.size());
-    for (index_type i = 0; i != block1.size(); ++i)
+    // The blocks may have different dimension orders, so visit elements
+    // by (multi-dimensional) index.
+    ovxx::Length<Block1::dim> extent = ovxx::extent<Block1::dim>(block1);
+    for (Index<Block1::dim> i; ovxx::valid(extent, i); ovxx::next(extent, i))
     {
-      typename Block1::value_type tmp = block1.get(i);
-      block1.put(i, block2.get(i));
-      block2.put(i, tmp);
+      typename Block1::value_type tmp = ovxx::get(block1, i);
+      ovxx::put(block1, i, ovxx::get(block2, i));
+      ovxx::put(block2, i, tmp);
     }
-
   }
 };
 }
-- 
2.43.0


From 2201addffd61abf35856865fbc94e1be68bd6348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 19/41] fix: parallel evaluation of element-wise expressions
 lost the state of their functors

---
 src/ovxx/expr/transform.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/expr/transform.hpp b/src/ovxx/expr/transform.hpp
index b2985c1..b22c0cf 100644
--- a/src/ovxx/expr/transform.hpp
+++ b/src/ovxx/expr/transform.hpp
@@ -136,7 +136,8 @@ combine(F const &func, Binary<O, B1, B2, E> const &block)
     return_type<F, Binary<O, B1, B2, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()));
 }
 
@@ -181,7 +182,8 @@ combine(F const &func, Ternary<O, B1, B2, B3, E> const &block)
     return_type<F, Ternary<O, B1, B2, B3, E> const>::type
     block_type;
 
-  return block_type(combine(func, block.arg1()),
+  return block_type(block.operation(),
+		    combine(func, block.arg1()),
 		    combine(func, block.arg2()),
 		    combine(func, block.arg3()));
 }
@@ -230,16 +232,27 @@ struct return_type<F, Unary<O, B, E> >
 {};
 
 template <typename F,
-	  template <typename> class O, typename B, bool E>
-typename return_type<F, Unary<O, B, E> const>::type
-combine(F const &func, Unary<O, B, E> const &block)
+	  template <typename> class O, typename B>
+typename return_type<F, Unary<O, B, false> const>::type
+combine(F const &func, Unary<O, B, false> const &block)
 {
-  typedef typename return_type<F, Unary<O, B, E> const>::type
+  typedef typename return_type<F, Unary<O, B, false> const>::type
     block_type;
 
   return block_type(combine(func, block.arg()));
 }
 
+template <typename F,
+	  template <typename> class O, typename B>
+typename return_type<F, Unary<O, B, true> const>::type
+combine(F const &func, Unary<O, B, true> const &block)
+{
+  typedef typename return_type<F, Unary<O, B, true> const>::type
+    block_type;
+
+  return block_type(block.operation(), combine(func, block.arg()));
+}
+
 template <typename F,
 	  template <typename> class O, typename B, bool E>
 void
-- 
2.43.0


From a0f3149ad95cf3d091ebe40c1c692f818f78d407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:23 +0000
Subject: [PATCH 20/41] fix: long single-precision summations honour stride and
 magnitude

The sub-blocked summation of float vectors with 4096 or more elements walked
the storage of the view contiguously, whatever its stride, and computed the
mean of squares of complex vectors from val*val instead of |val|^2.
---
 src/ovxx/reductions/reductions.hpp | 92 ++++--------------------------
 1 file changed, 11 insertions(+), 81 deletions(-)

diff --git a/src/ovxx/reductions/reductions.hpp b/src/ovxx/reductions/reductions.hpp
index b61caf2..4597e81 100644
--- a/src/ovxx/reductions/reductions.hpp
+++ b/src/ovxx/reductions/reductions.hpp
@@ -18,6 +18,7 @@
 #include <ovxx/parallel/service.hpp>
 #include <ovxx/dispatch.hpp>
 #include <ovxx/length.hpp>
+#include <algorithm>
 #if OVXX_HAVE_CVSIP
 # include <ovxx/cvsip/reductions.hpp>
 #endif
@@ -131,66 +132,6 @@ template<> struct is_summation<Sum_sq_value> { static bool const value = true;};
 template<> struct is_summation<Mean_value> { static bool const value = true;};
 template<> struct is_summation<Mean_magsq_value> { static bool const value = true;};
 
-// Are intermediate values squared before summing?
-template <template <typename> class R>
-struct is_sum_squared_based { static bool const value = false;};
-
-template<> struct is_sum_squared_based<Sum_sq_value> { static bool const value = true;};
-template<> struct is_sum_squared_based<Mean_magsq_value> { static bool const value = true;};
-
-// Is the result averaged after summing?
-template <template <typename> class R>
-struct is_mean_based { static bool const value = false;};
-
-template<> struct is_mean_based<Mean_value> { static bool const value = true;};
-template<> struct is_mean_based<Mean_magsq_value> { static bool const value = true;};
-
-// Get either only the real part, or both real and imaginary parts, depending
-// on the destination value type.
-template <typename T1, typename T2>
-struct extract
-{
-  static void apply(T1 const& src, T2& dst) { dst = src;}
-};
-
-template <typename T1, typename T2>
-struct extract<complex<T1>, T2>
-{
-  static void apply(complex<T1> const& src, T2& dst) { dst = src.real();}
-};
-
-template <template <typename> class R, typename T>
-T partial_sum(T const *data, std::ptrdiff_t offset, length_type len)
-{
-  T result = T();
-  data += offset;
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-      result += data[i]*data[i];
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += data[i];
-  return result;
-}
-
-template <template <typename> class R, typename T>
-complex<T> partial_sum(std::pair<T const*, T const*> const &data, std::ptrdiff_t offset, length_type len)
-{
-  complex<T> result = complex<T>();
-  if (is_sum_squared_based<R>::value)
-    for (index_type i = 0; i < len; ++i)
-    {
-      complex<T> val = 
-        complex<T>(data.first[i + offset], data.second[i + offset]);
-      result += val*val;
-    }
-  else
-    for (index_type i = 0; i < len; ++i)
-      result += complex<T>(data.first[i + offset], data.second[i + offset]);
-
-  return result;
-}
-
 } // namespace ovxx::reduction
 
 template <template <typename> class R, typename V>
@@ -275,29 +216,18 @@ struct Evaluator<op::reduce<R>, be::generic,
       // them into smaller blocks and saving intermediate results.  This avoids
       // accuracy issues related to round-off error when single-precision
       // is used.
-      length_type const subblocks = length % max_length ?
-        length / max_length + 1 : length / max_length;
-      length_type const last_subblock_size = length % max_length ?
-        length % max_length : max_length;
-
-      vsip::dda::Data<B, vsip::dda::in> data(a);
-
-      typename B::value_type result = 0;
-      index_type sb = 0;
-      for (; sb < subblocks - 1; ++sb)
+      typedef typename B::value_type V;
+      typename R<V>::accum_type state = R<V>::initial();
+      for (index_type start = 0; start < length; start += max_length)
       {
-        result += partial_sum<R>(data.ptr(), sb * max_length, max_length);
+        index_type const end = std::min(length, start + max_length);
+        typename R<V>::accum_type partial = R<V>::initial();
+        PRAGMA_IVDEP
+          for (index_type i = start; i < end; ++i)
+            partial = R<V>::update(partial, a.get(i));
+        state = state + partial;
       }
-      result += partial_sum<R>(data.ptr(), sb * max_length, last_subblock_size);
-
-      // Partial sums are accumlated in the view's natural type, even
-      // for magnitude-of-squared values where the imaginary part is zero.
-      // The result type is real in those cases, so we extract the desired
-      // part depending on the type being returned.
-      extract<typename B::value_type, T>::apply(result, r);
-
-      if (is_mean_based<R>::value)
-        r /= length;
+      r = R<V>::value(state, length);
     }
   }
 };
-- 
2.43.0


From 164f8ed33e2d68c715491b2ebe6a17fb33cfdf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 21/41] fix: minmg of complex views yields real values

The functor was declared with the promoted (complex) type although the scalar
function, like maxmg, returns the scalar type; assigning the result to a real
view did not compile.
---
 src/ovxx/view/fns_elementwise.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/view/fns_elementwise.hpp b/src/ovxx/view/fns_elementwise.hpp
index 6ce8eda..020a3b4 100644
--- a/src/ovxx/view/fns_elementwise.hpp
+++ b/src/ovxx/view/fns_elementwise.hpp
@@ -447,7 +447,7 @@ OVXX_BINARY_FUNC(max, Max)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmg, Maxmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(maxmgsq, Maxmgsq)
 OVXX_BINARY_FUNC(min, Min)
-OVXX_BINARY_FUNC(minmg, Minmg)
+OVXX_BINARY_FUNC_SCALAR_RETN(minmg, Minmg)
 OVXX_BINARY_FUNC_SCALAR_RETN(minmgsq, Minmgsq)
 OVXX_BINARY_FUNC_RETN(ne, Ne, bool)
 OVXX_BINARY_FUNC(pow, Pow)
-- 
2.43.0


From 43f41e672f0447debcd8105ce6d76230d332b2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 22/41] fix: vsip::unary accepts a functor without explicit
 result type

The overload for functor classes passed the functor to std::ptr_fun, which
only takes functions, and so could never be instantiated.
---
 src/vsip/impl/fns_userelt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/impl/fns_userelt.hpp b/src/vsip/impl/fns_userelt.hpp
index 9f2ed6b..cabff29 100644
--- a/src/vsip/impl/fns_userelt.hpp
+++ b/src/vsip/impl/fns_userelt.hpp
@@ -231,12 +231,14 @@ typename ovxx::operators::unary<
 unary(F f, View<T, Block> v)
 {
   using namespace ovxx;
+  typedef typename userelt::unary_traits<typename F::result_type, F>::
+    template Type<T> Function;
   typedef operators::unary<
     userelt::unary_traits<typename F::result_type, F>::template Type,
     View, T, Block> type_traits;
   typedef typename type_traits::block_type block_type;
   typedef typename type_traits::view_type view_type;
-  return view_type(block_type(std::ptr_fun(f), v.block()));
+  return view_type(block_type(Function(f), v.block()));
 }
 
 template <typename R, typename F,
-- 
2.43.0


From 09d3dc077876c54c87b36b206cb98b5693300bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 23/41] fix: DDA of array-format complex blocks with
 interleaved layouts, and run-time DDA of split blocks, did not compile

---
 src/ovxx/dda/accessor.hpp | 5 +++--
 src/ovxx/pointer.hpp      | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index 6c97dc3..c49671f 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -597,10 +597,11 @@ public:
 
   int cost() const { return use_direct_ ? 0 : 2;}
 
+  // A block that is cast-compatible only (array vs. interleaved-complex) has a different pointer type.
   ptr_type ptr()
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  { return use_direct_ ? pointer_cast<ptr_type>(block_.ptr()) : ptr_type(storage_.ptr());}
   const_ptr_type ptr() const
-  { return use_direct_ ? block_.ptr() : storage_.ptr();}
+  { return use_direct_ ? pointer_cast<const_ptr_type>(block_.ptr()) : const_ptr_type(storage_.ptr());}
   stride_type stride(dimension_type d) const
   { return use_direct_ ? block_.stride(dim, d) : layout_.stride(d);}
   length_type size(dimension_type d) const
diff --git a/src/ovxx/pointer.hpp b/src/ovxx/pointer.hpp
index 2999ccf..1b3d9db 100644
--- a/src/ovxx/pointer.hpp
+++ b/src/ovxx/pointer.hpp
@@ -108,6 +108,8 @@ public:
   const_pointer(T const *ptr) : format_(interleaved_complex) { data_.i = ptr;}
   const_pointer(std::pair<T const *, T const *> const &ptr)
     : format_(split_complex) { data_.s.first = ptr.first, data_.s.second = ptr.second;}
+  const_pointer(std::pair<T *, T *> const &ptr)
+    : format_(split_complex) { data_.s.first = ptr.first, data_.s.second = ptr.second;}
   const_pointer(pointer<complex<T> > const &ptr)
     : format_(ptr.format()) 
   {
-- 
2.43.0


From 4db5d5df5defcc6ead9512d5382ff07e5d56fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 24/41] fix: aligned layouts of split-complex data computed the
 row padding from the size of the complex type

---
 src/ovxx/dda/accessor.hpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ovxx/dda/accessor.hpp b/src/ovxx/dda/accessor.hpp
index c49671f..c7a4f88 100644
--- a/src/ovxx/dda/accessor.hpp
+++ b/src/ovxx/dda/accessor.hpp
@@ -39,6 +39,12 @@ namespace dda
 {
 using namespace vsip::dda;
 
+/// The size (in bytes) of the unit in which strides are counted:
+/// split-complex data are two separate arrays of scalars.
+template <typename T>
+inline std::size_t stride_unit(storage_format_type f)
+{ return is_complex<T>::value && f == split_complex ? sizeof(T) / 2 : sizeof(T);}
+
 /// Determine if 'block' is compatible with
 /// the given layout 'L'.
 template <typename L, typename B>
@@ -100,12 +106,12 @@ is_compatible(B const &block)
       return block.stride(1, 0) == 1;
     else if (L::dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * stride_unit<value_type>(storage_format)) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * stride_unit<value_type>(storage_format)) % alignment == 0 &&
+	(block.stride(3, dim0) * stride_unit<value_type>(storage_format)) % alignment == 0;
   }
   else // any_packing
   {
@@ -178,12 +184,12 @@ is_compatible(B const &block, L const &layout)
       return block.stride(1, 0) == 1;
     else if (dim == 2)
       return block.stride(2, dim1) == 1 &&
-	((block.stride(2, dim0) * sizeof(value_type)) % alignment == 0);
+	((block.stride(2, dim0) * stride_unit<value_type>(layout_storage_format(layout))) % alignment == 0);
     else // L::dim == 3
       return 
 	block.stride(3, dim2) == 1 &&
-	(block.stride(3, dim1) * sizeof(value_type)) % alignment == 0 &&
-	(block.stride(3, dim0) * sizeof(value_type)) % alignment == 0;
+	(block.stride(3, dim1) * stride_unit<value_type>(layout_storage_format(layout))) % alignment == 0 &&
+	(block.stride(3, dim0) * stride_unit<value_type>(layout_storage_format(layout))) % alignment == 0;
   }
   else // any_packing
   {
@@ -644,7 +650,8 @@ public:
       use_direct_(!force_copy && is_compatible(b, rtl)),
       layout_(use_direct_ ?
 	      Applied_layout<Rt_layout<D> >(empty_layout) :
-	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					       stride_unit<value_type>(rtl.storage_format))),
       storage_(use_direct_ ? 0 : layout_.total_size(), rtl.storage_format)
   {
     sync_in();
@@ -656,7 +663,8 @@ public:
       use_direct_(!force_copy && is_compatible(b, rtl)),
       layout_(use_direct_ ?
 	      Applied_layout<Rt_layout<D> >(empty_layout) :
-	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+	      Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					       stride_unit<value_type>(rtl.storage_format))),
       storage_(use_direct_ ? 0 : layout_.total_size(),
 	       buffer ? buffer :
 	       // yuck !
@@ -732,7 +740,8 @@ public:
 
   Accessor(B &b, Rt_layout<D> const& rtl, bool /*force_copy*/)
     : block_(b),
-      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					       stride_unit<value_type>(rtl.storage_format))),
       storage_(layout_.total_size(), rtl.storage_format)
   {
     sync_in();
@@ -741,7 +750,8 @@ public:
   Accessor(B &b, Rt_layout<D> const &rtl, bool /*force_copy*/,
 	   non_const_ptr_type buffer, length_type buffer_size)
     : block_(b),
-      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b), sizeof(value_type))),
+      layout_(Applied_layout<Rt_layout<D> >(rtl, extent<dim>(b),
+					       stride_unit<value_type>(rtl.storage_format))),
       storage_(layout_.total_size(),
 	       buffer ? buffer :
 	       // yuck !
-- 
2.43.0


From 5e87efd35e004cd2ff2e57409e3e501c5def7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 25/41] fix: required_buffer_size(block) named a member that
 does not exist

---
 src/vsip/dda.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/dda.hpp b/src/vsip/dda.hpp
index e9c20d5..405c88e 100644
--- a/src/vsip/dda.hpp
+++ b/src/vsip/dda.hpp
@@ -67,7 +67,7 @@ length_type required_buffer_size(B const &b, bool forced_copy = false)
 template <typename B>
 length_type required_buffer_size(B const &b, bool forced_copy = false)
 {
-  return required_buffer_size<typename dda_block_layout<B>::type>(b, forced_copy);
+  return required_buffer_size<typename dda_block_layout<B>::layout_type>(b, forced_copy);
 }
 
 /// Direct (block) data accessor.
-- 
2.43.0


From 5f294ae75fc7ed34c355bd83358ffb7284901fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 26/41] fix: library initialisation and finalisation decided on
 the global count outside its lock

---
 src/ovxx/library.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ovxx/library.cpp b/src/ovxx/library.cpp
index 09338e5..299958a 100644
--- a/src/ovxx/library.cpp
+++ b/src/ovxx/library.cpp
@@ -52,10 +52,11 @@ void initialize(int &argc, char **&argv)
 {
   {
 #if defined(OVXX_ENABLE_THREADING)
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  // Hold the lock until the process-global services are up, so that no
+  // other thread uses (or initializes) them half-way.
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    ++global_count;
-  }
+  ++global_count;
   if (thread_local_count++) return;
 
   if (global_count == 1)
@@ -92,6 +93,7 @@ void initialize(int &argc, char **&argv)
     mpi::initialize(argc, argv);
 #endif
   }
+  }
 #ifdef OVXX_ENABLE_OMP
   if (global_count == 1)
   {
@@ -120,19 +122,17 @@ void finalize()
     omp_library = 0;
   }
 #endif
-  {
 #if OVXX_ENABLE_THREADING
-    std::lock_guard<std::mutex> lock(global_count_guard);
+  std::lock_guard<std::mutex> lock(global_count_guard);
 #endif
-    --global_count;
-  }
+  --global_count;
   --thread_local_count;
   if (!thread_local_count)
   {
 #if OVXX_HAVE_MPI
     mpi::finalize(global_count == 0);
-    allocator::finalize();
 #endif
+    allocator::finalize();
   }
   if (!global_count)
   {
-- 
2.43.0


From 6ef9e86c23e5ab8f59aab27cd702071a58db3086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:52 +0000
Subject: [PATCH 27/41] fix: the library left MPI with a freed send buffer and
 did not set it up again for the next library object

---
 src/ovxx/mpi/service.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/mpi/service.cpp b/src/ovxx/mpi/service.cpp
index 733f3de..c94667e 100644
--- a/src/ovxx/mpi/service.cpp
+++ b/src/ovxx/mpi/service.cpp
@@ -59,9 +59,20 @@ void finalize(bool final)
   communicator = 0;
   if (final)
   {
-    if (finalize_mpi)
-      MPI_Finalize();
+    // MPI must not be left with a buffer that no longer exists.
+    int finalized;
+    MPI_Finalized(&finalized);
+    if (!finalized)
+    {
+      void *attached;
+      int size;
+      MPI_Buffer_detach(&attached, &size);
+      if (finalize_mpi)
+        MPI_Finalize();
+    }
+    finalize_mpi = false;
     delete[] buffer;
+    buffer = 0;
   }
 }
 
-- 
2.43.0


From 50e752a8858831f24a70e787e568ef0f774eae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:52 +0000
Subject: [PATCH 28/41] fix: assigning a transposed split-complex matrix did
 not compile

---
 src/ovxx/assign/copy.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ovxx/assign/copy.hpp b/src/ovxx/assign/copy.hpp
index f09a850..6579396 100644
--- a/src/ovxx/assign/copy.hpp
+++ b/src/ovxx/assign/copy.hpp
@@ -58,6 +58,18 @@ transpose(T1 *lhs, stride_type lhs_col_stride,
       lhs[r+c*lhs_col_stride] = rhs[r*rhs_row_stride+c];
 }
 
+template <typename T1, typename T2>
+void
+transpose(std::pair<T1*, T1*> const &lhs, stride_type lhs_col_stride,
+	  std::pair<T2*, T2*> const &rhs, stride_type rhs_row_stride,
+	  length_type lhs_rows, length_type lhs_cols)
+{
+  transpose(lhs.first, lhs_col_stride,
+	    rhs.first, rhs_row_stride, lhs_rows, lhs_cols);
+  transpose(lhs.second, lhs_col_stride,
+	    rhs.second, rhs_row_stride, lhs_rows, lhs_cols);
+}
+
 template <typename T>
 void
 copy(T *lhs, stride_type lhs_stride,
-- 
2.43.0


From 678aaae81857d9068dce8e251814c9888cafa547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 29/41] fix: kron of const views did not compile

---
 src/vsip/impl/matvec.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vsip/impl/matvec.hpp b/src/vsip/impl/matvec.hpp
index 93f8e3c..100852b 100644
--- a/src/vsip/impl/matvec.hpp
+++ b/src/vsip/impl/matvec.hpp
@@ -220,7 +220,7 @@ template <typename T0,
           typename Block1,
           typename Block2>
 const_Matrix<typename Promotion<T0, typename Promotion<T1, T2>::type>::type>
-impl_kron(T0 alpha, Vector<T1, Block1> v, Vector<T2, Block2> w)
+impl_kron(T0 alpha, const_Vector<T1, Block1> v, const_Vector<T2, Block2> w)
     VSIP_NOTHROW
 {
   typedef Matrix<typename Promotion<T0, 
@@ -241,7 +241,7 @@ template <typename T0,
           typename Block1,
           typename Block2>
 const_Matrix<typename Promotion<T0, typename Promotion<T1, T2>::type>::type>
-impl_kron( T0 alpha, Matrix<T1, Block1> v, Matrix<T2, Block2> w)
+impl_kron( T0 alpha, const_Matrix<T1, Block1> v, const_Matrix<T2, Block2> w)
     VSIP_NOTHROW
 {
   typedef Matrix<typename Promotion<T0, 
-- 
2.43.0


From 0e488c6e9fdf48e2d1c3d76a2e55bcf60512373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 30/41] fix: dot of complex<double> vectors was rounded to
 single precision

---
 src/ovxx/lapack/blas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 8e9ba34..d0cacb9 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -70,7 +70,7 @@ F(int n,					\
 {						\
   if (incx < 0) x += incx * (n-1);		\
   if (incy < 0) y += incy * (n-1);		\
-  float __complex__ retn =			\
+  T __complex__ retn =				\
     B(&n,					\
       const_cast<complex<T>*>(x), &incx,	\
       const_cast<complex<T>*>(y), &incy); 	\
-- 
2.43.0


From ab18b721837b35418d11d9c54e5b0dc52e799f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 31/41] fix: BLAS matrix-vector products ignored the matrix'
 leading dimension and reversed vectors

---
 src/ovxx/lapack/blas.hpp | 62 +++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index d0cacb9..29df0fb 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -115,6 +115,10 @@ gemv(char transa,				\
      T const *x, int incx,			\
      T beta, T *y, int incy)			\
 {						\
+  int const lenx = transa == 'n' ? n : m;	\
+  int const leny = transa == 'n' ? m : n;	\
+  if (incx < 0) x += incx * (lenx-1);		\
+  if (incy < 0) y += incy * (leny-1);		\
   B(&transa,					\
     &m, &n,					\
     &alpha,					\
@@ -215,6 +219,17 @@ struct traits<complex<double> >
   static char const trans = 'c';
 };
 
+/// True if BLAS can access `data` as matrix, i.e., if its `minor`
+/// dimension is unit-stride, and its `major` stride a valid leading
+/// dimension.
+template <typename D>
+inline bool
+is_matrix(D const &data, dimension_type major, dimension_type minor)
+{
+  return data.stride(minor) == 1 &&
+    data.stride(major) >= static_cast<stride_type>(data.size(minor));
+}
+
 } // namespace ovxx::blas
 
 namespace dispatcher
@@ -428,11 +443,10 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    // Note: gemm is used for row type and b is restricted to unit stride.
-    // gemv is used for col type and can handle any stride for b.
+    // Note: gemv can handle any stride for b.
     bool is_a_row = is_same<order1_type, row2_type>::value;
-    return is_a_row ? ((data_a.stride(1) == 1) && (data_b.stride(0) == 1))
-                    : (data_a.stride(0) == 1);
+    return is_a_row ? blas::is_matrix(data_a, 0, 1)
+                    : blas::is_matrix(data_a, 1, 0);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -449,15 +463,13 @@ struct Evaluator<op::prod, be::blas,
 
     if (is_same<order1_type, row2_type>::value)
     {
-      blas::gemm('n', 'n',           // no trans
-		 1,                  // M
-		 a.size(2, 0),       // N
-		 a.size(2, 1),       // K
-		 1.0,                // alpha
-		 data_b.ptr(), data_b.stride(0),
-		 data_a.ptr(), a.size(2, 1),
-		 0.0,                // beta
-		 data_r.ptr(), data_r.stride(0));
+      blas::gemv('t',                            // trans,
+		 a.size(2, 1), a.size(2, 0),     // int m, int n,
+		 1.0,                            // T alpha,
+		 data_a.ptr(), data_a.stride(0), // T *a, int lda,
+		 data_b.ptr(), data_b.stride(0), // T *x, int incx,
+		 0.0,                            // T beta,
+		 data_r.ptr(), data_r.stride(0));// T *y, int incy)
     }
     else if (is_same<order1_type, col2_type>::value)
     {
@@ -497,12 +509,10 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
-    // Note: gemv is used for row type and can handle any stride for a.
-    // gemm is used for col type and a is restricted to unit stride.
-    // 
+    // Note: gemv can handle any stride for a.
     bool is_b_row = is_same<order2_type, row2_type>::value;
-    return is_b_row ? (data_b.stride(1) == 1) 
-                    : ((data_b.stride(0) == 1) && (data_a.stride(0) == 1));
+    return is_b_row ? blas::is_matrix(data_b, 0, 1)
+                    : blas::is_matrix(data_b, 1, 0);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -529,15 +539,13 @@ struct Evaluator<op::prod, be::blas,
     }
     else if (is_same<order2_type, col2_type>::value)
     {
-      blas::gemm('n', 'n',           // no trans
-		 1,                  // M
-		 b.size(2, 1),       // N
-		 b.size(2, 0),       // K
-		 1.0,                // alpha
-		 data_a.ptr(), data_a.stride(0),
-		 data_b.ptr(), b.size(2, 0),
-		 0.0,                // beta
-		 data_r.ptr(), data_r.stride(0));
+      blas::gemv('t',                             // trans,
+		 b.size(2, 0), b.size(2, 1),      // int m, int n,
+		 1.0,                             // T alpha,
+		 data_b.ptr(), data_b.stride(1),  // T *a, int lda,
+		 data_a.ptr(), data_a.stride(0),  // T *x, int incx,
+		 0.0,                             // T beta,
+		 data_r.ptr(), data_r.stride(0)); // T *y, int incy)
     }
     else assert(0);
   }
-- 
2.43.0


From f8af08a2d7de546d1778f87dcf06c36cea82681d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 32/41] fix: BLAS matrix products were used for layouts BLAS
 cannot access

---
 src/ovxx/lapack/blas.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/blas.hpp b/src/ovxx/lapack/blas.hpp
index 29df0fb..2bee152 100644
--- a/src/ovxx/lapack/blas.hpp
+++ b/src/ovxx/lapack/blas.hpp
@@ -571,19 +571,24 @@ struct Evaluator<op::prod, be::blas,
     dda::Data<B1, dda::in>::ct_cost == 0 &&
     dda::Data<B2, dda::in>::ct_cost == 0;
 
-  static bool rt_valid(B0 &, B1 const &a, B2 const &b)
+  static bool rt_valid(B0 &r, B1 const &a, B2 const &b)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
+    bool is_r_row = is_same<order0_type, row2_type>::value;
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return
+      blas::is_matrix(data_r, is_r_row ? 0 : 1, is_r_row ? 1 : 0) &&
+      blas::is_matrix(data_a, is_a_row ? 0 : 1, is_a_row ? 1 : 0) &&
+      blas::is_matrix(data_b, is_b_row ? 0 : 1, is_b_row ? 1 : 0);
   }
 
   static void exec(B0 &r, B1 const &a, B2 const &b)
@@ -657,19 +662,24 @@ struct Evaluator<op::gemp, be::blas,
     !is_split_block<B1>::value &&
     !is_split_block<B2>::value;
 
-  static bool rt_valid(B0 &, T1, B1 const &a, B2 const &b, T2)
+  static bool rt_valid(B0 &r, T1, B1 const &a, B2 const &b, T2)
   {
+    typedef typename get_block_layout<B0>::order_type order0_type;
     typedef typename get_block_layout<B1>::order_type order1_type;
     typedef typename get_block_layout<B2>::order_type order2_type;
 
+    dda::Data<B0, dda::out> data_r(r);
     dda::Data<B1, dda::in> data_a(a);
     dda::Data<B2, dda::in> data_b(b);
 
+    bool is_r_row = is_same<order0_type, row2_type>::value;
     bool is_a_row = is_same<order1_type, row2_type>::value;
     bool is_b_row = is_same<order2_type, row2_type>::value;
 
-    return (data_a.stride(is_a_row ? 1 : 0) == 1 &&
-            data_b.stride(is_b_row ? 1 : 0) == 1 );
+    return
+      blas::is_matrix(data_r, is_r_row ? 0 : 1, is_r_row ? 1 : 0) &&
+      blas::is_matrix(data_a, is_a_row ? 0 : 1, is_a_row ? 1 : 0) &&
+      blas::is_matrix(data_b, is_b_row ? 0 : 1, is_b_row ? 1 : 0);
   }
 
   static void exec(B0 &r, T1 alpha, B1 const &a, B2 const &b, T2 beta)
-- 
2.43.0


From 76ee63088286465a39bfd98e1b932aafd44cc0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 33/41] fix: assigning LU solvers did not compile, and Cholesky
 and QR assignment returned nothing

---
 src/ovxx/lapack/cholesky.hpp | 1 +
 src/ovxx/lapack/lu.hpp       | 4 +++-
 src/ovxx/lapack/qr.hpp       | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ovxx/lapack/cholesky.hpp b/src/ovxx/lapack/cholesky.hpp
index 6542708..8b3a55f 100644
--- a/src/ovxx/lapack/cholesky.hpp
+++ b/src/ovxx/lapack/cholesky.hpp
@@ -50,6 +50,7 @@ public:
     OVXX_PRECONDITION(length_ == other.length_);
     uplo_ = other.uplo_;
     data_ = other.data_;
+    return *this;
   }
 
   length_type length() const { return length_;}
diff --git a/src/ovxx/lapack/lu.hpp b/src/ovxx/lapack/lu.hpp
index 992057f..b852198 100644
--- a/src/ovxx/lapack/lu.hpp
+++ b/src/ovxx/lapack/lu.hpp
@@ -49,8 +49,10 @@ public:
     // TODO: At present assignment requires dimensions to match,
     //       as views aren't resizable.
     OVXX_PRECONDITION(length_ == other.length_);
-    ipiv_ = other.ipiv_;
+    for (index_type i = 0; i != length_; ++i)
+      ipiv_[i] = other.ipiv_[i];
     data_ = other.data_;
+    return *this;
   }
 
   length_type length()const VSIP_NOTHROW { return length_;}
diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index ffe7bb9..5a2b2b8 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -73,6 +73,7 @@ public:
       tau_[i] = other.tau_[i];
     for (index_type i = 0; i != work_.size(); ++i)
       work_[i] = other.work_[i];
+    return *this;
   }
 
   length_type rows() const VSIP_NOTHROW { return rows_;}
-- 
2.43.0


From 9b3ef0b73dcc0e059dee93f5f2b463dd9f7631a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 34/41] fix: assignment of SVD solvers was declared but not
 defined

---
 src/ovxx/lapack/svd.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ovxx/lapack/svd.hpp b/src/ovxx/lapack/svd.hpp
index cee3a65..1d52954 100644
--- a/src/ovxx/lapack/svd.hpp
+++ b/src/ovxx/lapack/svd.hpp
@@ -275,6 +275,27 @@ svd<T>::svd(svd const &other) VSIP_THROW((std::bad_alloc))
   }
 }
 
+template <typename T>
+svd<T> &
+svd<T>::operator=(svd const &other) VSIP_THROW((std::bad_alloc))
+{
+  // As for the other solvers, assignment requires dimensions (and
+  // storage) to match, as views aren't resizable.
+  OVXX_PRECONDITION(m_ == other.m_ && n_ == other.n_);
+  OVXX_PRECONDITION(ust_ == other.ust_ && vst_ == other.vst_);
+  data_ = other.data_;
+  q_ = other.q_;
+  pt_ = other.pt_;
+  for (index_type i = 0; i< p_; ++i)
+  {
+    b_d_[i]  = other.b_d_[i];
+    b_e_[i]  = other.b_e_[i];
+    tauq_[i] = other.tauq_[i];
+    taup_[i] = other.taup_[i];
+  }
+  return *this;
+}
+
 template <typename T>
 template <typename B0, typename B1>
 bool
-- 
2.43.0


From dc2f494a17bb5e3e65ee26240fd22c5b6780e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 35/41] fix: prodq multiplied by the wrong matrix when only the
 first columns of Q are saved

---
 src/ovxx/lapack/qr.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/ovxx/lapack/qr.hpp b/src/ovxx/lapack/qr.hpp
index 5a2b2b8..5450ad1 100644
--- a/src/ovxx/lapack/qr.hpp
+++ b/src/ovxx/lapack/qr.hpp
@@ -153,11 +153,15 @@ public:
       mqr_lwork = b.size(0);
     }
 
-    Matrix<T, data_block_type> b_int(b.size(0), b.size(1));
-    parallel::assign_local(b_int, b);
+    // The reflectors multiply by all of (square) Q. Multiplying by the
+    // columns saved pads the operand, or takes a part of the result.
+    length_type const i_rows = ps == mat_lside ? rows_ : b.size(0);
+    length_type const i_cols = ps == mat_lside ? b.size(1) : rows_;
+    Matrix<T, data_block_type> b_int(i_rows, i_cols, T());
+    parallel::assign_local(b_int(Domain<2>(b.size(0), b.size(1))), b);
 
     int work = lapack::mqr_work<T>(side, trans,
-				   b.size(0), b.size(1), k_reflectors);
+				   i_rows, i_cols, k_reflectors);
     mqr_lwork *= work;
     aligned_array<T> mqr_work(mqr_lwork);
     {
@@ -165,15 +169,15 @@ public:
       dda::Data<data_block_type, dda::in> a_data(data_.block());
       lapack::mqr(side,
 		  trans,
-		  b.size(0), b.size(1),
+		  i_rows, i_cols,
 		  k_reflectors,
 		  a_data.ptr(), rows_,
 		  tau_.get(),
-		  b_data.ptr(), b.size(0),
+		  b_data.ptr(), i_rows,
 		  mqr_work.get(), mqr_lwork);
 		
     }
-    parallel::assign_local(x, b_int);
+    parallel::assign_local(x, b_int(Domain<2>(x.size(0), x.size(1))));
     return true;
   }
 
-- 
2.43.0


From 234385c482e6a4b6d52ff638c2f5ac8b34a192a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 36/41] fix: toepsol did not report matrices that are not
 positive definite, and failed for a single element

---
 src/vsip/impl/solver/toepsol.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vsip/impl/solver/toepsol.hpp b/src/vsip/impl/solver/toepsol.hpp
index bac4900..247e7a9 100644
--- a/src/vsip/impl/solver/toepsol.hpp
+++ b/src/vsip/impl/solver/toepsol.hpp
@@ -59,11 +59,21 @@ VSIP_THROW((std::bad_alloc, computation_error))
   length_type n = t.size();
 
 
+  scalar_type scale = ovxx::math::impl_real(t.get(0));
+  if (!(scale > 0.0))
+  {
+    OVXX_DO_THROW(computation_error("TOEPSOL: not full rank"));
+  }
+  if (n == 1)
+  {
+    x.put(0, b.get(0) / scale);
+    return x;
+  }
+
   typename const_Vector<T, Block0>::subview_type r = t(Domain<1>(1, 1, n-1));
   Vector<T> tmpv(n);
 
   scalar_type beta  = 1.0;
-  scalar_type scale = ovxx::math::impl_real(t.get(0));
   T           alpha = ovxx::math::impl_conj(-r.get(0)/scale);
   T           tmps; 
   
@@ -75,7 +85,7 @@ VSIP_THROW((std::bad_alloc, computation_error))
   for (index_type k=1; k<n; ++k)
   {
     beta *= (1.0 - magsq(alpha));
-    if (beta == 0.0)
+    if (!(beta > 0.0))
     { 
       OVXX_DO_THROW(computation_error("TOEPSOL: not full rank"));
     } 
-- 
2.43.0


From 55dfe430556fe824e0046a12c198161de6a2a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 37/41] fix: LAPACK's block size query was called without the
 lengths of its character arguments

---
 src/ovxx/lapack/flapack.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/lapack/flapack.hpp b/src/ovxx/lapack/flapack.hpp
index 6374564..16d72c4 100644
--- a/src/ovxx/lapack/flapack.hpp
+++ b/src/ovxx/lapack/flapack.hpp
@@ -9,6 +9,7 @@
 #define ovxx_lapack_flapack_hpp_
 
 #include <vsip/support.hpp>
+#include <cstring>
 
 namespace ovxx
 {
@@ -69,13 +70,16 @@ extern "C"
   void dgetrs_(char*, int*, int*, double*, int*, int*, double*, int*, int*);
   void cgetrs_(char*, int*, int*, std::complex<float>*, int*, int*, std::complex<float>*, int*, int*);
   void zgetrs_(char*, int*, int*, std::complex<double>*, int*, int*, std::complex<double>*, int*, int*);
-  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*);
+  // The lengths of character arguments are passed last.
+  int ilaenv_(int*, char const *, char const *, int*, int*, int*, int*,
+	      std::size_t, std::size_t);
 }
 
 inline int
 ilaenv(int ispec, char const *name, char const *opts, int n1, int n2, int n3, int n4)
 {
-  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4);
+  return ilaenv_(&ispec, name, opts, &n1, &n2, &n3, &n4,
+		 std::strlen(name), std::strlen(opts));
 }
 
 #define OVXX_LAPACK_INVALID_ARG abort()
-- 
2.43.0


From 27c234d37f0f9138b396cc22f312b9f7321f43f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 38/41] fix: the first part of split storage was not given back
 when the second could not be allocated

---
 src/ovxx/storage/host.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ovxx/storage/host.hpp b/src/ovxx/storage/host.hpp
index a86100a..eb3028d 100644
--- a/src/ovxx/storage/host.hpp
+++ b/src/ovxx/storage/host.hpp
@@ -233,8 +233,15 @@ public:
   {
     if (own_data_ && !this->data_.first)
     {
-      this->data_.first = allocator_->allocate<T>(this->size_);
-      this->data_.second = allocator_->allocate<T>(this->size_);
+      ptr_type data;
+      data.first = allocator_->allocate<T>(this->size_);
+      try { data.second = allocator_->allocate<T>(this->size_);}
+      catch (...)
+      {
+	allocator_->deallocate(data.first, this->size_);
+	throw;
+      }
+      this->data_ = data;
     }
   }
   virtual void deallocate()
-- 
2.43.0


From 28a7b2671a22d91bd987eeb14a7a5f2a4c3a0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 39/41] fix: serialization::is_compatible ignored the number of
 dimensions for blocks of integers

---
 src/vsip/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 5f71220..93bdec1 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -145,7 +145,7 @@ struct block_compatibility<ovxx::Strided<D, T, Layout<D, O, dense, S>, Local_map
     // ...else we require strict type equality
     else if (type_info<T>::value != info.value_type)
       return false;
-    else if (D != info.dimensions)
+    if (D != info.dimensions)
       return false; // dimension mismatch
     
     // TODO: support non-dense layouts
-- 
2.43.0


From fb90c1f816dbf61bd286e80cb61707606e350c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:41 +0000
Subject: [PATCH 40/41] fix: serialization::is_compatible accepted
 three-dimensional data whose rows are not adjacent

---
 src/vsip/serialization.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index 93bdec1..d2f43f1 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -125,7 +125,9 @@ struct ordering_compatibility<tuple<D0, D1, D2> >
 	 static_cast<length_type>(info.stride[D0]) != info.size[D1])) return false;
     else if (info.dimensions == 3 && 
 	     (info.stride[D0] < 0 ||
-	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1])) return false;
+	      static_cast<length_type>(info.stride[D0]) != info.size[D2] * info.size[D1] ||
+	      info.stride[D1] < 0 ||
+	      static_cast<length_type>(info.stride[D1]) != info.size[D2])) return false;
     return true;
   }
 };
-- 
2.43.0


From f89e02551a250c3e3be7515164d6ad2d7d289d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:21 +0000
Subject: [PATCH 41/41] fix: serialization::is_compatible accepted storage
 formats that data of the element type cannot have

---
 src/vsip/serialization.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vsip/serialization.hpp b/src/vsip/serialization.hpp
index d2f43f1..75fe799 100644
--- a/src/vsip/serialization.hpp
+++ b/src/vsip/serialization.hpp
@@ -149,6 +149,12 @@ struct block_compatibility<ovxx::Strided<D, T, Layout<D, O, dense, S>, Local_map
       return false;
     if (D != info.dimensions)
       return false; // dimension mismatch
+    // Only complex data may be stored in split or interleaved form.
+    if (info.storage_format != array &&
+	!(ovxx::is_complex<T>::value &&
+	  (info.storage_format == split_complex ||
+	   info.storage_format == interleaved_complex)))
+      return false;
     
     // TODO: support non-dense layouts
     if (!ordering_compatibility<O>::check(info))
-- 
2.43.0

