From 3522554ecf8045ab786248a4ae7f39119b2b70eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 01/21] fix: make foreach() over sparse Hilbert spaces and
 compressed views reentrant

The set of integers enumerated by sparse_foreach_basis_state was kept in a
mutable member, so that nested or concurrent iterations over the same constant
object corrupted each other.
---
 .../libcommute/loperator/hilbert_space.hpp    | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index bb4d1cd..3f36160 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -50,10 +50,8 @@ class sparse_foreach_basis_state {
   // Total number of states
   sv_index_type n_states_;
   // jumps_[d] is the additional jump in the basis state index introduced when
-  // indices_[d] reaches sizes_[d] and indices_[d + 1] is incremented.
+  // the d-th integer reaches sizes_[d] and the (d + 1)-th one is incremented.
   std::vector<sv_index_type> jumps_;
-  // Current set of integers
-  std::vector<sv_index_type> mutable indices_;
 
   static std::vector<sv_index_type>
   init_jumps(std::vector<sv_index_type> const& sizes) {
@@ -78,8 +76,7 @@ public:
                                     sizes_.end(),
                                     1,
                                     std::multiplies<sv_index_type>())),
-      jumps_(init_jumps(sizes_)),
-      indices_(sizes_.size()) {}
+      jumps_(init_jumps(sizes_)) {}
 
   // Value semantics
   sparse_foreach_basis_state(sparse_foreach_basis_state const&) = default;
@@ -91,18 +88,20 @@ public:
   ~sparse_foreach_basis_state() = default;
 
   template <typename Function> inline void operator()(Function&& f) const {
-    std::fill(indices_.begin(), indices_.end(), 0);
+    // Current set of integers. It must be local to this call, so that multiple
+    // iterations over the same object can be nested or run concurrently.
+    std::vector<sv_index_type> indices(sizes_.size(), 0);
     sv_index_type state = 0;
     for(sv_index_type i = 0; i < n_states_; ++i) {
       std::forward<Function>(f)(state);
-      ++indices_[0];
+      ++indices[0];
       ++state;
 
       for(std::size_t d = 0;
-          d < indices_.size() - 1 && indices_[d] == sizes_[d];
+          d < indices.size() - 1 && indices[d] == sizes_[d];
           ++d) {
-        indices_[d] = 0;
-        ++indices_[d + 1];
+        indices[d] = 0;
+        ++indices[d + 1];
         state += jumps_[d];
       }
     }
-- 
2.43.0


From 6db5e012eefe32e0aae6e193a951a6bf71662324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 02/21] fix: make foreach() over N-fermion (multi)sector views
 reentrant

The views kept their stateful generators of unranked states as members. Nested
or concurrent iterations over the same view corrupted each other, and the
generator of a copied/moved n_fermion_multisector_view kept a reference to the
sector parameters of the original, possibly already destroyed, view.
---
 .../loperator/n_fermion_sector_view.hpp       | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 640d380..0103522 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -473,9 +473,6 @@ struct n_fermion_sector_view {
   // State ranking algorithm
   RankingAlgorithm ranking;
 
-  // Generator of unranked states
-  unranking_generator unranking;
-
   // Mask used to select fermionic modes
   sv_index_type f_mask;
 
@@ -490,7 +487,6 @@ struct n_fermion_sector_view {
     : state_vector(std::forward<SV>(sv)),
       sector_params(hs, N),
       ranking(sector_params),
-      unranking(sector_params),
       f_mask(detail::pow2(sector_params.M) - 1),
       M_nonfermion(hs.total_n_bits() - sector_params.M) {
     if(hs.is_sparse())
@@ -568,9 +564,11 @@ foreach(n_fermion_sector_view<StateVector, Ref, RankingAlgorithm> const& view,
   sv_index_type const dim_nonfermion = detail::pow2(view.M_nonfermion);
   sv_index_type sector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type const unranked = view.unranking.next();
+  // The generator is local to this call, so that multiple iterations over the
+  // same view can be nested or run concurrently.
+  unranking_generator const unranking(view.sector_params);
+  while(!unranking.done()) {
+    sv_index_type const unranked = unranking.next();
     for(sv_index_type index_nf = 0; index_nf < dim_nonfermion; ++index_nf) {
 
       // Emulate decltype(auto)
@@ -834,9 +832,6 @@ struct n_fermion_multisector_view {
   // Strides used to combine sector indices into a multisector index
   std::vector<sv_index_type> sector_strides;
 
-  // Generator of unranked states
-  detail::multisector_unranking_generator unranking;
-
   // The number of bits not belonging to the multisector
   unsigned int M_nonmultisector;
 
@@ -854,8 +849,7 @@ struct n_fermion_multisector_view {
     : state_vector(std::forward<SV>(sv)),
       sector_params(detail::make_sector_params(hs, sectors)),
       ranking(sector_params.begin(), sector_params.end()),
-      sector_strides(init_sector_strides(sector_params)),
-      unranking(sector_params) {
+      sector_strides(init_sector_strides(sector_params)) {
     if(hs.is_sparse())
       throw std::runtime_error("n_fermion_multisector_view: sparse Hilbert "
                                "spaces are not supported");
@@ -955,9 +949,11 @@ inline void foreach(
   sv_index_type const dim_nonmultisector = detail::pow2(view.M_nonmultisector);
   sv_index_type multisector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type unranked = view.unranking.next();
+  // The generator is local to this call, so that multiple iterations over the
+  // same view can be nested or run concurrently.
+  detail::multisector_unranking_generator const unranking(view.sector_params);
+  while(!unranking.done()) {
+    sv_index_type unranked = unranking.next();
     for(sv_index_type index_nms = 0; index_nms < dim_nonmultisector;
         ++index_nms) {
 
-- 
2.43.0


From e5d8e83491a1c22d6606060d0ac8ebbdc91bb6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 03/21] fix: copy algebra bit ranges along with a Hilbert
 space, allow self-assignment

A copied hilbert_space did not know about any algebra (has_algebra() was always
false), which made N-fermion sector views over it wrong. Assignment of
a hilbert_space to itself used to erase all of its elementary spaces.
---
 .../libcommute/loperator/hilbert_space.hpp    | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 3f36160..64ff552 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -232,7 +232,8 @@ public:
 
   // Value semantics
   hilbert_space(hilbert_space const& hs)
-    : bit_range_end_(hs.bit_range_end_),
+    : algebra_bit_ranges_(hs.algebra_bit_ranges_),
+      bit_range_end_(hs.bit_range_end_),
       dim_(hs.dim_),
       foreach_alg_(hs.foreach_alg_ ?
                        make_unique<detail::sparse_foreach_basis_state>(
@@ -246,19 +247,9 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
-    bit_range_end_ = hs.bit_range_end_;
-    elementary_spaces_.clear();
-    for(auto const& es : hs.elementary_spaces_) {
-      elementary_spaces_.emplace_hint(elementary_spaces_.end(),
-                                      es.first->clone(),
-                                      es.second);
-    }
-    dim_ = hs.dim_;
-    foreach_alg_ =
-        hs.foreach_alg_ ?
-            make_unique<detail::sparse_foreach_basis_state>(*hs.foreach_alg_) :
-            nullptr;
-    return *this;
+    // Copy-and-move: Safe in the case of self-assignment and leaves this object
+    // unchanged if making a copy of 'hs' fails.
+    return *this = hilbert_space(hs);
   }
   hilbert_space& operator=(hilbert_space&&) noexcept = default;
 
-- 
2.43.0


From 40a12251afa6254f719ef35a083c4a2e029baa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 04/21] fix: leave a Hilbert space unchanged when add() fails

A failed add() (hilbert_space_too_big or std::bad_alloc) left a half-updated
space with inconsistent size(), dim() and bit ranges behind.
---
 include/libcommute/loperator/hilbert_space.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 64ff552..3bfe1a7 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -274,11 +274,14 @@ public:
 
   // Append a new elementary space to the ordered product
   void add(elementary_space_t const& es) {
-    auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
+    // Work on a copy, so that a failure leaves this object unchanged
+    hilbert_space hs(*this);
+    auto r = hs.elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     if(!r.second) throw elementary_space_exists(es);
-    recompute_bit_ranges();
-    dim_ *= es.dim();
-    init_foreach_alg();
+    hs.recompute_bit_ranges();
+    hs.dim_ *= es.dim();
+    hs.init_foreach_alg();
+    *this = std::move(hs);
   }
 
   // Is a given elementary space found in this Hilbert space?
-- 
2.43.0


From 181b8837490028869ea94e00c80747a6aff74388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 05/21] fix: do not use an erased iterator in e += e and e -= e

When an expression is subtracted from itself, every monomial being iterated
over is erased before the iterator is advanced.
---
 include/libcommute/expression/expression.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index c56ad7f..1d28fb0 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -246,7 +246,10 @@ public:
 
   // Compound assignment/addition
   template <typename S> expression& operator+=(expression_t<S> const& expr) {
-    for(auto const& p : expr.get_monomials()) {
+    auto const& expr_mons = expr.get_monomials();
+    for(auto expr_it = expr_mons.begin(); expr_it != expr_mons.end();) {
+      // If 'expr' is '*this', *expr_it can be erased below. Advance now.
+      auto const& p = *(expr_it++);
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p);
@@ -261,7 +264,10 @@ public:
   // Compound assignment/subtraction
   template <typename S> expression& operator-=(expression_t<S> const& expr) {
     auto const z = scalar_traits<ScalarType>::make_const(0);
-    for(auto const& p : expr.get_monomials()) {
+    auto const& expr_mons = expr.get_monomials();
+    for(auto expr_it = expr_mons.begin(); expr_it != expr_mons.end();) {
+      // If 'expr' is '*this', *expr_it can be erased below. Advance now.
+      auto const& p = *(expr_it++);
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p.first, z - p.second);
-- 
2.43.0


From 2d43403a00e4f5ae8fac11999e73d7e521b81e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 06/21] fix: make merge_subspaces() merge all targets of merged
 subspaces

Connections were visited in the order of original subspace representatives,
and only targets of adjacent connections were merged. When two 'in' subspaces
not adjacent in that order had been merged, their targets stayed separate and
connections between the resulting subspaces were not one-to-one.
---
 .../libcommute/loperator/space_partition.hpp  | 30 ++++++++-----------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 429c8e1..e58f5d1 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -173,25 +173,21 @@ public:
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
     auto merge_conn_targets = [this](conn_t const& conn) -> bool {
-      if(conn.empty()) return false;
-
       bool subspaces_linked = false;
 
-      auto conn_it = conn.cbegin();
-      sv_index_type in_subspace = ds.find_root(conn_it->first);
-      sv_index_type out_subspace = ds.find_root(conn_it->second);
-      ++conn_it;
-      for(; conn_it != conn.cend(); ++conn_it) {
-        if(ds.find_root(conn_it->first) == ds.find_root(in_subspace)) {
-          sv_index_type out_subspace1 = ds.find_root(out_subspace);
-          sv_index_type out_subspace2 = ds.find_root(conn_it->second);
-          if(out_subspace1 != out_subspace2) {
-            ds.root_union(out_subspace1, out_subspace2);
-            subspaces_linked = true;
-          }
-        } else {
-          in_subspace = ds.find_root(conn_it->first);
-          out_subspace = ds.find_root(conn_it->second);
+      // One target of every 'in' subspace. Some of the 'in' subspaces stored in
+      // 'conn' may have been merged already, so their connections are not
+      // necessarily adjacent in 'conn'.
+      std::map<sv_index_type, sv_index_type> targets;
+
+      for(auto const& c : conn) {
+        auto r = targets.emplace(ds.find_root(c.first), c.second);
+        if(r.second) continue;
+        sv_index_type out_subspace1 = ds.find_root(r.first->second);
+        sv_index_type out_subspace2 = ds.find_root(c.second);
+        if(out_subspace1 != out_subspace2) {
+          ds.root_union(out_subspace1, out_subspace2);
+          subspaces_linked = true;
         }
       }
 
-- 
2.43.0


From 8be850dc2d7f44f892bd57cbe2f6e8359de963b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:39 +0000
Subject: [PATCH 07/21] fix: leave a space partition unchanged when
 merge_subspaces() fails

An exception thrown in the middle of merge_subspaces() (std::bad_alloc, an error
raised by a user-supplied scalar type) left subspaces partially merged and some
basis states without a subspace index.
---
 .../libcommute/loperator/space_partition.hpp  | 50 +++++++++++--------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index e58f5d1..16e2320 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -87,7 +87,7 @@ public:
       set_zeros(in_state);
     });
 
-    update_root_to_subspace();
+    update_root_to_subspace(std::move(ds));
   }
 
   // Partition Hilbert space `hs` using Hermitian operator `h`. Save
@@ -120,7 +120,7 @@ public:
       set_zeros(in_state);
     });
 
-    update_root_to_subspace();
+    update_root_to_subspace(std::move(ds));
   }
 
   // Perform Phase II of the automatic partition algorithm
@@ -145,20 +145,23 @@ public:
 
     sv_index_type d = get_vec_size(hs);
 
+    // Work on a copy, so that a failure leaves this partition unchanged
+    disjoint_sets new_ds(ds);
+
     // Fill connection multimaps
     sparse_state_vector<scalar_type> in_state(d);
     sparse_state_vector<scalar_type> out_state(d);
     foreach(hs, [&](sv_index_type in_index) {
       in_state[in_index] = scalar_traits<scalar_type>::make_const(1);
-      sv_index_type in_subspace = ds.find_root(in_index);
+      sv_index_type in_subspace = new_ds.find_root(in_index);
 
-      auto fill_conn = [&, this](loperator_t const& lop,
-                                 conn_t& conn,
-                                 matrix_elements_map<scalar_type>& elem) {
+      auto fill_conn = [&](loperator_t const& lop,
+                           conn_t& conn,
+                           matrix_elements_map<scalar_type>& elem) {
         lop(in_state, out_state);
         // Iterate over non-zero final amplitudes
         foreach(out_state, [&](sv_index_type out_index, scalar_type const& a) {
-          sv_index_type out_subspace = ds.find_root(out_index);
+          sv_index_type out_subspace = new_ds.find_root(out_index);
           conn.insert({in_subspace, out_subspace});
           if(store_matrix_elements) elem[{out_index, in_index}] = a;
         });
@@ -172,7 +175,7 @@ public:
 
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
-    auto merge_conn_targets = [this](conn_t const& conn) -> bool {
+    auto merge_conn_targets = [&new_ds](conn_t const& conn) -> bool {
       bool subspaces_linked = false;
 
       // One target of every 'in' subspace. Some of the 'in' subspaces stored in
@@ -181,12 +184,12 @@ public:
       std::map<sv_index_type, sv_index_type> targets;
 
       for(auto const& c : conn) {
-        auto r = targets.emplace(ds.find_root(c.first), c.second);
+        auto r = targets.emplace(new_ds.find_root(c.first), c.second);
         if(r.second) continue;
-        sv_index_type out_subspace1 = ds.find_root(r.first->second);
-        sv_index_type out_subspace2 = ds.find_root(c.second);
+        sv_index_type out_subspace1 = new_ds.find_root(r.first->second);
+        sv_index_type out_subspace2 = new_ds.find_root(c.second);
         if(out_subspace1 != out_subspace2) {
-          ds.root_union(out_subspace1, out_subspace2);
+          new_ds.root_union(out_subspace1, out_subspace2);
           subspaces_linked = true;
         }
       }
@@ -203,9 +206,9 @@ public:
       sl_C = merge_conn_targets(C_conn);
     } while(sl_Cd || sl_C);
 
-    update_root_to_subspace();
+    update_root_to_subspace(std::move(new_ds));
 
-    return {Cd_elements, C_elements};
+    return {std::move(Cd_elements), std::move(C_elements)};
   }
 
   // Hilbert space dimension
@@ -286,14 +289,19 @@ public:
   }
 
 private:
-  void update_root_to_subspace() {
-    ds.compress_sets();
-    ds.normalize_sets();
-
-    root_to_subspace.clear();
-    foreach(hs, [this](sv_index_type n) {
-      root_to_subspace.emplace(ds.find_root(n), root_to_subspace.size());
+  // Replace the basis partition and number the subspaces anew
+  void update_root_to_subspace(disjoint_sets new_ds) {
+    new_ds.compress_sets();
+    new_ds.normalize_sets();
+
+    std::map<sv_index_type, sv_index_type> new_root_to_subspace;
+    foreach(hs, [&](sv_index_type n) {
+      new_root_to_subspace.emplace(new_ds.find_root(n),
+                                   new_root_to_subspace.size());
     });
+
+    ds = std::move(new_ds);
+    root_to_subspace = std::move(new_root_to_subspace);
   }
 };
 
-- 
2.43.0


From 1599cc33221cef9198abeaba66d2e4954b02d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 08/21] fix: count states of large sparse spaces and
 multisectors in 64 bits

The products of sizes were accumulated in an int, so that foreach() visited
a wrong number of states (possibly none) when there are 2^31 or more of them.
---
 include/libcommute/loperator/hilbert_space.hpp         | 2 +-
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 3bfe1a7..337f966 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -74,7 +74,7 @@ public:
                     0 :
                     std::accumulate(sizes_.begin(),
                                     sizes_.end(),
-                                    1,
+                                    sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
       jumps_(init_jumps(sizes_)) {}
 
diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 0103522..bd33d6d 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -737,7 +737,7 @@ public:
       sector_gens(params.begin(), params.end()),
       total(std::accumulate(sector_gens.begin(),
                             sector_gens.end(),
-                            1,
+                            sv_index_type(1),
                             [](sv_index_type n, unranking_generator const& g) {
                               return n * g.size();
                             })),
-- 
2.43.0


From 157a03ecbda89d14c5aed62def1c91516fb2028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 09/21] fix: do not leave a spurious amplitude behind a failed
 update of a sparse vector

If assignment of a new amplitude threw, the element default-constructed by
unordered_map::operator[] stayed in the sparse_state_vector.
---
 include/libcommute/loperator/sparse_state_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/sparse_state_vector.hpp b/include/libcommute/loperator/sparse_state_vector.hpp
index fc73b3b..64cfa11 100644
--- a/include/libcommute/loperator/sparse_state_vector.hpp
+++ b/include/libcommute/loperator/sparse_state_vector.hpp
@@ -61,7 +61,7 @@ public:
     auto it = sv.data_.find(n);
     if(it == sv.data_.end()) {
       if(!scalar_traits<ScalarType>::is_zero(value))
-        sv.data_[n] = std::forward<T>(value);
+        sv.data_.emplace(n, std::forward<T>(value));
     } else {
       it->second += std::forward<T>(value);
       if(scalar_traits<ScalarType>::is_zero(it->second)) sv.data_.erase(it);
-- 
2.43.0


From 25779dcce51adf4b7dc529a35138c92f0d68fb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 10/21] fix: apply operators in the documented order in
 basis_mapper

basis_mapper(O_list, hs, N) collected basis states contributing to
O_M^{n_M} ... O_1^{n_1} |vac> instead of O_1^{n_1} ... O_M^{n_M} |vac>, which is
a different set when the operators do not commute.
---
 include/libcommute/loperator/mapped_basis_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 0e2a4ad..501a030 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -156,7 +156,8 @@ class basis_mapper {
     auto from_st = st;
     auto to_st = zeros_like(st);
     for(; sum_n < N; ++sum_n) {
-      O_list[m](from_st, to_st);
+      // O_M is the first operator to act on |vac>
+      O_list[O_list.size() - 1 - m](from_st, to_st);
       if(to_st.n_nonzeros() == 0) return;
       compositions_constructor_impl(O_list, to_st, m + 1, sum_n + 1, N);
       from_st = to_st;
-- 
2.43.0


From 786701040e2ca580042658b5685ddae71126e1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:35 +0000
Subject: [PATCH 11/21] fix: do not simplify products of spin generators of
 different multiplicities

S=1/2 generators were treated as if all spin generators with the same index
had spin 1/2, so that S+(0) * S1z(0) gave -1/2 S+(0).
---
 include/libcommute/expression/generator_spin.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 849c210..94a3197 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -96,7 +96,8 @@ public:
     // cppcheck-suppress-begin knownConditionTrueFalse
     auto const& g2_ = dynamic_cast<generator_spin const&>(g2);
     // cppcheck-suppress knownConditionTrueFalse
-    if(!base::equal(g2) || this->multiplicity_ != 2) return false;
+    if(!base::equal(g2) || this->multiplicity_ != 2 || g2_.multiplicity_ != 2)
+      return false;
 
     if(this->c_ == g2_.c_) {
       f.set(this->c_ == spin_component::z ? var_number(1, 4) : var_number(0));
-- 
2.43.0


From 9c52f219061bb1d486153aa5aac0fc4d5097d2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 12/21] fix: simplify pairs of generators brought together by
 the last swaps

Each pass of the sorting loop in normalize_and_store() covered one generator
less than the previous one, so that simplify_prod() was never called for the
pairs produced by the last swaps (e.g. in a product of two generators in the
wrong order).
---
 include/libcommute/expression/expression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 1d28fb0..af091ac 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -660,11 +660,12 @@ private:
         }
       };
 
-      std::size_t n_max = m.size() - 1;
       bool is_swapped = false;
       do {
         is_swapped = false;
-        for(std::size_t n = 1; n <= n_max; ++n) {
+        // Every pass covers the whole monomial, because a swap of two generators
+        // can produce a pair that still has to be simplified.
+        for(std::size_t n = 1; n < m.size(); ++n) {
           // Pick a pair of generators in m, m[n-1] and m[n]
           generator_t const& prev_gen = m[n - 1];
           generator_t const& cur_gen = m[n];
@@ -691,7 +692,6 @@ private:
             }
           }
         }
-        --n_max;
       } while(is_swapped);
 
       // Check that coefficient in front of this monomial is not zero
-- 
2.43.0


From 0c487c81d72e15b267138ec98723a53fd078e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 13/21] fix: do not pass moved-from arguments to coefficients
 of parametric_loperator

---
 include/libcommute/loperator/loperator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 9843151..642846f 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -226,8 +226,8 @@ public:
   at(CoeffArgs&&... args) const {
     loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...> lop;
     for(auto const& m : base::m_actions()) {
-      lop.add_monomial_action(m.first,
-                              m.second(std::forward<CoeffArgs>(args)...));
+      // Do not forward 'args': They are used once per monomial
+      lop.add_monomial_action(m.first, m.second(args...));
     }
     return lop;
   }
@@ -244,10 +244,11 @@ private:
     auto const& m_act = base::m_actions();
 
     // Evaluate coefficients
+    // Do not forward 'args': They are used once per monomial
     evaluated_coeffs.reserve(m_act.size());
     for(auto const& a : m_act)
       // cppcheck-suppress useStlAlgorithm
-      evaluated_coeffs.emplace_back(a.second(std::forward<CoeffArgs>(args)...));
+      evaluated_coeffs.emplace_back(a.second(args...));
 
     // Apply monomials
     foreach(
-- 
2.43.0


From 878af4664ae2c78de2c364b0bed96282d7c1284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 14/21] fix: do not lose allocation failures in messages about
 unknown generators

---
 include/libcommute/loperator/es_constructor.hpp  | 9 ++++-----
 include/libcommute/loperator/monomial_action.hpp | 7 +++----
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/libcommute/loperator/es_constructor.hpp b/include/libcommute/loperator/es_constructor.hpp
index 7b38ece..21bcbcb 100644
--- a/include/libcommute/loperator/es_constructor.hpp
+++ b/include/libcommute/loperator/es_constructor.hpp
@@ -23,8 +23,8 @@
 #include "elementary_space_spin.hpp"
 
 #include <memory>
-#include <sstream>
 #include <stdexcept>
+#include <string>
 #include <type_traits>
 #include <utility>
 
@@ -37,10 +37,9 @@ template <typename... IndexTypes>
 struct es_construction_failure : public std::runtime_error {
   std::shared_ptr<const generator<IndexTypes...>> generator_ptr;
   inline static std::string make_what(generator<IndexTypes...> const& g) {
-    std::stringstream ss;
-    ss << "Cannot construct elementary space associated with algebra generator "
-       << g;
-    return ss.str();
+    return "Cannot construct elementary space associated with algebra "
+           "generator " +
+           g.to_string();
   }
   explicit es_construction_failure(generator<IndexTypes...> const& g)
     : std::runtime_error(make_what(g)), generator_ptr(g.shared_from_this()) {}
diff --git a/include/libcommute/loperator/monomial_action.hpp b/include/libcommute/loperator/monomial_action.hpp
index 05808f4..2f053b1 100644
--- a/include/libcommute/loperator/monomial_action.hpp
+++ b/include/libcommute/loperator/monomial_action.hpp
@@ -20,8 +20,8 @@
 #include "state_vector.hpp"
 
 #include <memory>
-#include <sstream>
 #include <stdexcept>
+#include <string>
 
 //
 // Action of a monomial on a basis state
@@ -42,9 +42,8 @@ template <typename... IndexTypes>
 struct unknown_generator : public std::runtime_error {
   std::shared_ptr<const generator<IndexTypes...>> generator_ptr;
   inline static std::string make_what(generator<IndexTypes...> const& g) {
-    std::stringstream ss;
-    ss << "Action of generator " << g << " on a state vector is undefined";
-    return ss.str();
+    return "Action of generator " + g.to_string() +
+           " on a state vector is undefined";
   }
   explicit unknown_generator(generator<IndexTypes...> const& g)
     : std::runtime_error(make_what(g)), generator_ptr(g.shared_from_this()) {}
-- 
2.43.0


From 28412118babafd8c4084fa08d1281fb3dd2374a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:15 +0000
Subject: [PATCH 15/21] fix: keep masks of multisectors beyond the 32nd mode

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index bd33d6d..a302d64 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -97,7 +97,7 @@ private:
   }
 
   template <typename... IndexTypes>
-  static unsigned int
+  static sv_index_type
   init_mask(hilbert_space<IndexTypes...> const& hs,
             sector_descriptor<hilbert_space<IndexTypes...>> const& sector) {
     sv_index_type m = 0;
-- 
2.43.0


From f4824b139734c5258164e9dcb197c26481cdeb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:16 +0000
Subject: [PATCH 16/21] fix: avoid an overflow in sizes of large N-fermion
 sectors

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index a302d64..41fb662 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -54,8 +54,10 @@ inline sv_index_type binomial(unsigned int n, unsigned int k) {
   if(k > n) return 0;
   if(k > n / 2) k = n - k;
   sv_index_type C = 1;
-  for(unsigned int i = 0; i < k; ++i)
-    C = (C * (n - i)) / (i + 1);
+  for(unsigned int i = 0; i < k; ++i) {
+    // C * (n - i) / (i + 1) without an overflow in the intermediate product
+    C = (C / (i + 1)) * (n - i) + ((C % (i + 1)) * (n - i)) / (i + 1);
+  }
   return C;
 }
 
-- 
2.43.0


From b912859f3088d3a9f79a704068e496552e3bfd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 17/21] fix: check the range of basis state indices in
 space_partition

---
 include/libcommute/loperator/space_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 16e2320..9f5d26e 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -219,7 +219,8 @@ public:
 
   // Find what invariant subspace a given basis state belongs to
   sv_index_type operator[](sv_index_type index) const {
-    auto it = root_to_subspace.find(ds.find_root(index));
+    auto it = index < ds.size() ? root_to_subspace.find(ds.find_root(index)) :
+                                  root_to_subspace.end();
     if(it == root_to_subspace.end())
       throw std::out_of_range("Unexpected basis state index " +
                               std::to_string(index));
-- 
2.43.0


From 11cd3465ada9b09e152eba337d541f5f90389186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:13 +0000
Subject: [PATCH 18/21] fix: make multiplication of an expression by its own
 coefficient well defined

---
 include/libcommute/expression/expression.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index af091ac..0716355 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -385,9 +385,12 @@ public:
   expression& operator*=(S const& alpha) {
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
-    else
+    else {
+      // 'alpha' can be one of the coefficients being changed
+      remove_cvref_t<S> const alpha_copy(alpha);
       for(auto& p : monomials_)
-        mul_assign(p.second, alpha);
+        mul_assign(p.second, alpha_copy);
+    }
     return *this;
   }
 
-- 
2.43.0


From 56c2c910a46168878e55f2ce719bb79681746f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 19/21] fix: do not lose allocation failures in messages about
 incompatible constants

---
 include/libcommute/scalar_traits.hpp          | 1 +
 include/libcommute/scalars/boost_rational.hpp | 1 +
 include/libcommute/scalars/gmpxx.hpp          | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/include/libcommute/scalar_traits.hpp b/include/libcommute/scalar_traits.hpp
index 443644b..8a7341f 100644
--- a/include/libcommute/scalar_traits.hpp
+++ b/include/libcommute/scalar_traits.hpp
@@ -64,6 +64,7 @@ template <typename S> struct scalar_traits<S, with_trait<std::is_integral, S>> {
   static S make_const(var_number const& vn) {
     if(vn.number_type != var_number::integer) {
       std::stringstream ss;
+      ss.exceptions(std::ios_base::badbit);
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
                                " to an integral ScalarType");
diff --git a/include/libcommute/scalars/boost_rational.hpp b/include/libcommute/scalars/boost_rational.hpp
index aa53d42..b392513 100644
--- a/include/libcommute/scalars/boost_rational.hpp
+++ b/include/libcommute/scalars/boost_rational.hpp
@@ -47,6 +47,7 @@ template <typename IntType> struct scalar_traits<boost::rational<IntType>> {
       return {vn.numerator(), vn.denominator()};
     else {
       std::stringstream ss;
+      ss.exceptions(std::ios_base::badbit);
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
                                " to boost::rational");
diff --git a/include/libcommute/scalars/gmpxx.hpp b/include/libcommute/scalars/gmpxx.hpp
index 0f9ce71..77fced7 100644
--- a/include/libcommute/scalars/gmpxx.hpp
+++ b/include/libcommute/scalars/gmpxx.hpp
@@ -95,6 +95,7 @@ template <> struct scalar_traits<mpz_class> {
       return int(vn);
     else {
       std::stringstream ss;
+      ss.exceptions(std::ios_base::badbit);
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
                                " to mpz_class");
@@ -127,6 +128,7 @@ template <> struct scalar_traits<mpq_class> {
       return {vn.numerator(), vn.denominator()};
     else {
       std::stringstream ss;
+      ss.exceptions(std::ios_base::badbit);
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
                                " to mpq_class");
-- 
2.43.0


From 6dc500a8995548852be086fd8ce9c0d371c797ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 20/21] fix: move generators and elementary spaces instead of
 copying their indices

The indices were stored as const members, so that the noexcept move
constructors copied them. With a failing copy (a std::string index when
memory is exhausted, a user-supplied index type) moving a generator or an
elementary space terminated the program.
---
 include/libcommute/expression/generator.hpp       | 2 +-
 include/libcommute/loperator/elementary_space.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/generator.hpp b/include/libcommute/expression/generator.hpp
index d6d6deb..989780b 100644
--- a/include/libcommute/expression/generator.hpp
+++ b/include/libcommute/expression/generator.hpp
@@ -137,7 +137,7 @@ public:
   }
 
 private:
-  index_types const indices_;
+  index_types indices_;
 
 protected:
   // Check two generators of the same algebra for equality
diff --git a/include/libcommute/loperator/elementary_space.hpp b/include/libcommute/loperator/elementary_space.hpp
index a7f53dd..33b40c4 100644
--- a/include/libcommute/loperator/elementary_space.hpp
+++ b/include/libcommute/loperator/elementary_space.hpp
@@ -89,7 +89,7 @@ public:
   index_types const& indices() const { return indices_; }
 
 private:
-  index_types const indices_;
+  index_types indices_;
 
 protected:
   // Check two elementary spaces for equality
-- 
2.43.0


From f8f84e3133850d421a87ac4a123d45731a1e2f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:07 +0000
Subject: [PATCH 21/21] fix: do not add the previous term again when
 conjugating negligible coefficients

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 0716355..a5bf073 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -206,8 +206,8 @@ public:
           (*m_it).conj(f);
           m_contrib *= expression(f);
         }
+        res += m_contrib;
       }
-      res += m_contrib;
     }
     return res;
   }
-- 
2.43.0

