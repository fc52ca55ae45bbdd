From 228c14ce80109c7516490f5c3f2a0c150a6169de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 01/30] fix: do not simplify products of spin operators with
 different multiplicities

S=1/2 product rules were applied whenever the left factor was a spin-1/2
generator, even if the right factor acts on a different spin carrying the same
indices. Such generators commute and their products are not reducible.
---
 include/libcommute/expression/generator_spin.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 849c210..94a3197 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -96,7 +96,8 @@ public:
     // cppcheck-suppress-begin knownConditionTrueFalse
     auto const& g2_ = dynamic_cast<generator_spin const&>(g2);
     // cppcheck-suppress knownConditionTrueFalse
-    if(!base::equal(g2) || this->multiplicity_ != 2) return false;
+    if(!base::equal(g2) || this->multiplicity_ != 2 || g2_.multiplicity_ != 2)
+      return false;
 
     if(this->c_ == g2_.c_) {
       f.set(this->c_ == spin_component::z ? var_number(1, 4) : var_number(0));
-- 
2.43.0


From 7fd0fe3754abceafa3bb32a5179c0f0d537ff32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 02/30] fix: never store monomials with zero coefficients

---
 include/libcommute/expression/expression.hpp | 44 +++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index c56ad7f..9b501f9 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -57,6 +57,8 @@ private:
   // List of all monomials in this polynomial expression
   monomials_map_t monomials_;
 
+  template <typename S, typename... I> friend class expression;
+
   // Expression with only the IndexTypes fixed
   template <typename S> using expression_t = expression<S, IndexTypes...>;
 
@@ -128,6 +130,7 @@ public:
     monomials_.clear();
     for(auto const& y : x.get_monomials())
       monomials_.emplace(monomial_t(y.first), scalar_type(y.second));
+    erase_zeros();
     return *this;
   }
 
@@ -249,11 +252,10 @@ public:
     for(auto const& p : expr.get_monomials()) {
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
-        monomials_.emplace(p);
-      else {
+        it = monomials_.emplace(p).first;
+      else
         add_assign(it->second, p.second);
-        if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
-      }
+      if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
     }
     return *this;
   }
@@ -264,11 +266,10 @@ public:
     for(auto const& p : expr.get_monomials()) {
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
-        monomials_.emplace(p.first, z - p.second);
-      else {
+        it = monomials_.emplace(p.first, z - p.second).first;
+      else
         sub_assign(it->second, p.second);
-        if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
-      }
+      if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
     }
     return *this;
   }
@@ -379,9 +380,11 @@ public:
   expression& operator*=(S const& alpha) {
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
-    else
+    else {
       for(auto& p : monomials_)
         mul_assign(p.second, alpha);
+      erase_zeros();
+    }
     return *this;
   }
 
@@ -394,7 +397,8 @@ public:
       if(it == monomials_.end()) {
         auto val = scalar_traits<ScalarType>::make_const(0);
         add_assign(val, alpha);
-        monomials_.emplace_hint(monomials_.begin(), monomial_t{}, val);
+        if(!scalar_traits<ScalarType>::is_zero(val))
+          monomials_.emplace_hint(monomials_.begin(), monomial_t{}, val);
       } else {
         add_assign(it->second, alpha);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
@@ -411,7 +415,10 @@ public:
     if(!scalar_traits<s_t>::is_zero(alpha)) {
       auto it = monomials_.find(monomial_t{});
       if(it == monomials_.end()) {
-        monomials_.emplace_hint(monomials_.begin(), monomial_t{}, z - alpha);
+        it = monomials_.emplace_hint(monomials_.begin(),
+                                     monomial_t{},
+                                     z - alpha);
+        if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
       } else {
         sub_assign(it->second, alpha);
         if(scalar_traits<ScalarType>::is_zero(it->second)) monomials_.erase(it);
@@ -436,6 +443,16 @@ public:
   }
 
 private:
+  // Remove all monomials with vanishing coefficients
+  void erase_zeros() {
+    for(auto it = monomials_.begin(); it != monomials_.end();) {
+      if(scalar_traits<ScalarType>::is_zero(it->second))
+        it = monomials_.erase(it);
+      else
+        ++it;
+    }
+  }
+
   //
   // Implementation of arithmetic operations
   //
@@ -607,6 +624,7 @@ private:
   static void store_monomial(monomial_t&& m,
                              scalar_type const& coeff,
                              monomials_map_t& target) {
+    if(scalar_traits<ScalarType>::is_zero(coeff)) return;
     // C++17 structured bindings would be the real solution here
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
     bool is_new_monomial;
@@ -758,6 +776,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       mul_assign(p.second, alpha);
+    res.erase_zeros();
     return res;
   }
 
@@ -771,6 +790,7 @@ private:
     auto& res_mons = res.get_monomials();
     for(auto const& p : monomials_)
       res_mons.emplace_hint(res_mons.end(), p.first, p.second * alpha);
+    res.erase_zeros();
     return res;
   }
 
@@ -782,6 +802,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       p.second = alpha * p.second;
+    res.erase_zeros();
     return res;
   }
 
@@ -795,6 +816,7 @@ private:
     auto& res_mons = res.get_monomials();
     for(auto const& p : monomials_)
       res_mons.emplace_hint(res_mons.end(), p.first, alpha * p.second);
+    res.erase_zeros();
     return res;
   }
 
-- 
2.43.0


From 592002479b92bbfc4936e46ed572db44d4215076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:13 +0000
Subject: [PATCH 03/30] fix: conj() must not count a term twice after a
 vanishing coefficient

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 9b501f9..42918db 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -209,8 +209,8 @@ public:
           (*m_it).conj(f);
           m_contrib *= expression(f);
         }
+        res += m_contrib;
       }
-      res += m_contrib;
     }
     return res;
   }
-- 
2.43.0


From aba79e33a0f76965ea5ae9116dc4397af131618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 04/30] fix: compound assignments of an expression from itself
 or its own coefficient

---
 include/libcommute/expression/expression.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 42918db..4525aa8 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -249,7 +249,10 @@ public:
 
   // Compound assignment/addition
   template <typename S> expression& operator+=(expression_t<S> const& expr) {
-    for(auto const& p : expr.get_monomials()) {
+    auto const& mons = expr.get_monomials();
+    for(auto e_it = mons.begin(); e_it != mons.end();) {
+      // Advance before a possible erasure, 'expr' can be '*this'
+      auto const& p = *e_it++;
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         it = monomials_.emplace(p).first;
@@ -263,7 +266,10 @@ public:
   // Compound assignment/subtraction
   template <typename S> expression& operator-=(expression_t<S> const& expr) {
     auto const z = scalar_traits<ScalarType>::make_const(0);
-    for(auto const& p : expr.get_monomials()) {
+    auto const& mons = expr.get_monomials();
+    for(auto e_it = mons.begin(); e_it != mons.end();) {
+      // Advance before a possible erasure, 'expr' can be '*this'
+      auto const& p = *e_it++;
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         it = monomials_.emplace(p.first, z - p.second).first;
@@ -381,8 +387,9 @@ public:
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
     else {
+      S const a = alpha; // 'alpha' can be one of the coefficients
       for(auto& p : monomials_)
-        mul_assign(p.second, alpha);
+        mul_assign(p.second, a);
       erase_zeros();
     }
     return *this;
-- 
2.43.0


From e757e1f5e3c9bbb6900b25952b0e7cba1911bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 05/30] fix: check all neighbouring generators for a product
 simplification

---
 include/libcommute/expression/expression.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 4525aa8..dd99de9 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -679,7 +679,9 @@ private:
         }
       };
 
-      std::size_t n_max = m.size() - 1;
+      // Every pass has to visit all pairs: A swap of the last pair in a pass
+      // creates a new ordered pair, whose product may be simplifiable.
+      std::size_t const n_max = m.size() - 1;
       bool is_swapped = false;
       do {
         is_swapped = false;
@@ -710,7 +712,6 @@ private:
             }
           }
         }
-        --n_max;
       } while(is_swapped);
 
       // Check that coefficient in front of this monomial is not zero
-- 
2.43.0


From 464b8fb5e9f61d9917d9bb21f8cd71d1768478ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 06/30] fix: normalize monomials after reducing a power to a
 constant

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index dd99de9..138515d 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -747,7 +747,7 @@ private:
             auto v = scalar_traits<ScalarType>::make_const(f.const_term);
             // cppcheck-suppress knownConditionTrueFalse
             if(!scalar_traits<ScalarType>::is_zero(v))
-              reduce_powers_and_store(
+              normalize_and_store(
                   concatenate(std::make_pair(m.begin(), it - power + 2),
                               std::make_pair(next_it + 1, end_it)),
                   coeff * v,
-- 
2.43.0


From 1fe9560a2eac3fb975659ac276ac773c85520a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 07/30] fix: canonicalize mpq_class constants made from
 rational variant numbers

---
 include/libcommute/scalars/gmpxx.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/scalars/gmpxx.hpp b/include/libcommute/scalars/gmpxx.hpp
index 0f9ce71..e502ed4 100644
--- a/include/libcommute/scalars/gmpxx.hpp
+++ b/include/libcommute/scalars/gmpxx.hpp
@@ -124,7 +124,9 @@ template <> struct scalar_traits<mpq_class> {
     if(vn.number_type == var_number::integer)
       return int(vn);
     else if(vn.number_type == var_number::rational)
-      return {vn.numerator(), vn.denominator()};
+      // Unlike mpq_class{num, den}, division yields a canonical fraction, which
+      // is required by GMP's arithmetic functions and comparison operators.
+      return mpq_class(vn.numerator()) / mpq_class(vn.denominator());
     else {
       std::stringstream ss;
       ss << vn;
-- 
2.43.0


From 25004aa1b14a82b508bdf3a7bad2c13768e783e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 08/30] fix: copy bit ranges of algebras along with a Hilbert
 space

---
 include/libcommute/loperator/hilbert_space.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index bb4d1cd..2098b66 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -233,7 +233,8 @@ public:
 
   // Value semantics
   hilbert_space(hilbert_space const& hs)
-    : bit_range_end_(hs.bit_range_end_),
+    : algebra_bit_ranges_(hs.algebra_bit_ranges_),
+      bit_range_end_(hs.bit_range_end_),
       dim_(hs.dim_),
       foreach_alg_(hs.foreach_alg_ ?
                        make_unique<detail::sparse_foreach_basis_state>(
@@ -247,6 +248,8 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
+    if(this == &hs) return *this;
+    algebra_bit_ranges_ = hs.algebra_bit_ranges_;
     bit_range_end_ = hs.bit_range_end_;
     elementary_spaces_.clear();
     for(auto const& es : hs.elementary_spaces_) {
-- 
2.43.0


From f7d8f9bd4ae12c3218e8a82e9836a53400e6fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 09/30] fix: leave a Hilbert space intact when add() refuses an
 elementary space

---
 include/libcommute/loperator/hilbert_space.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 2098b66..ee9b2f8 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -287,8 +287,10 @@ public:
 
   // Append a new elementary space to the ordered product
   void add(elementary_space_t const& es) {
-    auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
-    if(!r.second) throw elementary_space_exists(es);
+    if(has(es)) throw elementary_space_exists(es);
+    int const new_n_bits = total_n_bits() + es.n_bits();
+    if(new_n_bits > max_n_bits) throw hilbert_space_too_big(new_n_bits);
+    elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     recompute_bit_ranges();
     dim_ *= es.dim();
     init_foreach_alg();
-- 
2.43.0


From f20e207ecb4defb95971ad7338f5e11e1005c7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 10/30] fix: do not truncate the number of states of a sparse
 Hilbert space to int

---
 include/libcommute/loperator/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index ee9b2f8..624c079 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -76,7 +76,7 @@ public:
                     0 :
                     std::accumulate(sizes_.begin(),
                                     sizes_.end(),
-                                    1,
+                                    sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
       jumps_(init_jumps(sizes_)),
       indices_(sizes_.size()) {}
-- 
2.43.0


From bd7889e80791493927397cb755d380c8f198eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 11/30] fix: make iteration over a sparse Hilbert space
 reentrant

---
 include/libcommute/loperator/hilbert_space.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 624c079..3f2dd3a 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -52,8 +52,6 @@ class sparse_foreach_basis_state {
   // jumps_[d] is the additional jump in the basis state index introduced when
   // indices_[d] reaches sizes_[d] and indices_[d + 1] is incremented.
   std::vector<sv_index_type> jumps_;
-  // Current set of integers
-  std::vector<sv_index_type> mutable indices_;
 
   static std::vector<sv_index_type>
   init_jumps(std::vector<sv_index_type> const& sizes) {
@@ -78,8 +76,7 @@ public:
                                     sizes_.end(),
                                     sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
-      jumps_(init_jumps(sizes_)),
-      indices_(sizes_.size()) {}
+      jumps_(init_jumps(sizes_)) {}
 
   // Value semantics
   sparse_foreach_basis_state(sparse_foreach_basis_state const&) = default;
@@ -91,18 +88,20 @@ public:
   ~sparse_foreach_basis_state() = default;
 
   template <typename Function> inline void operator()(Function&& f) const {
-    std::fill(indices_.begin(), indices_.end(), 0);
+    // Current set of integers. It is local to allow for nested and concurrent
+    // iterations over the same range.
+    std::vector<sv_index_type> indices(sizes_.size(), 0);
     sv_index_type state = 0;
     for(sv_index_type i = 0; i < n_states_; ++i) {
       std::forward<Function>(f)(state);
-      ++indices_[0];
+      ++indices[0];
       ++state;
 
       for(std::size_t d = 0;
-          d < indices_.size() - 1 && indices_[d] == sizes_[d];
+          d < indices.size() - 1 && indices[d] == sizes_[d];
           ++d) {
-        indices_[d] = 0;
-        ++indices_[d + 1];
+        indices[d] = 0;
+        ++indices[d + 1];
         state += jumps_[d];
       }
     }
-- 
2.43.0


From 0a364b1b95891db536205f0e7a4889483f22afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 12/30] fix: Hilbert spaces with different boson dimensions are
 not equal

---
 include/libcommute/loperator/hilbert_space.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 3f2dd3a..f3f8a18 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -276,7 +276,9 @@ public:
                       hs1.elementary_spaces_.end(),
                       hs2.elementary_spaces_.begin(),
                       [](value_type const& v1, value_type const& v2) {
-                        return *v1.first == *v2.first && v1.second == v2.second;
+                        return *v1.first == *v2.first &&
+                               v1.first->dim() == v2.first->dim() &&
+                               v1.second == v2.second;
                       });
   }
   inline friend bool operator!=(hilbert_space const& hs1,
-- 
2.43.0


From c47e712af1cf68e6ffdf5415b7b2b8e157dfe520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 13/30] fix: compute exact numbers of bits for bosonic spaces
 of large dimensions

---
 .../libcommute/loperator/elementary_space_boson.hpp   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/elementary_space_boson.hpp b/include/libcommute/loperator/elementary_space_boson.hpp
index 3ffd78c..cba24c5 100644
--- a/include/libcommute/loperator/elementary_space_boson.hpp
+++ b/include/libcommute/loperator/elementary_space_boson.hpp
@@ -20,7 +20,6 @@
 #include "elementary_space.hpp"
 
 #include <cassert>
-#include <cmath>
 
 namespace libcommute {
 
@@ -33,13 +32,21 @@ class elementary_space_boson : public elementary_space<IndexTypes...> {
 
   using base = elementary_space<IndexTypes...>;
 
+  // Floating-point logarithms are not accurate enough for large dimensions
+  static int ceil_log2(sv_index_type dim) {
+    int n_bits = 0;
+    for(--dim; dim != 0; dim >>= 1)
+      ++n_bits;
+    return n_bits;
+  }
+
 public:
   // Value semantics
   template <typename... Args>
   elementary_space_boson(sv_index_type dim, Args&&... indices)
     : base(std::forward<Args>(indices)...),
       dim_(dim),
-      n_bits_(std::ceil(std::log2(dim))) {
+      n_bits_(ceil_log2(dim)) {
     assert(dim > 0);
   }
   elementary_space_boson(elementary_space_boson const&) = default;
-- 
2.43.0


From 7172385b9af33e8629f22e9af59cb2a751001107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 14/30] fix: portable implementation of popcount() returned the
 wrong number of bits

---
 include/libcommute/loperator/bit_ops.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/libcommute/loperator/bit_ops.hpp b/include/libcommute/loperator/bit_ops.hpp
index b3e7c69..c6a6d7e 100644
--- a/include/libcommute/loperator/bit_ops.hpp
+++ b/include/libcommute/loperator/bit_ops.hpp
@@ -57,13 +57,10 @@ inline unsigned int popcount(std::uint64_t i) {
 #if defined(__GNUC__) || defined(__clang__)
   return __builtin_popcountll(i);
 #else
-  i ^= i >> 32;
-  i ^= i >> 16;
-  i ^= i >> 8;
-  i ^= i >> 4;
-  i ^= i >> 2;
-  i ^= i >> 1;
-  return i;
+  unsigned int n = 0;
+  for(; i != 0; i &= i - 1)
+    ++n;
+  return n;
 #endif
 }
 
-- 
2.43.0


From bfe4b40dc37c68c766ddcda394a3632ea64ee455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 15/30] fix: arguments of a parametric_loperator were forwarded
 to every coefficient in turn

---
 include/libcommute/loperator/loperator.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 9843151..46fbb43 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -225,9 +225,9 @@ public:
   inline loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...>
   at(CoeffArgs&&... args) const {
     loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...> lop;
+    // `args` are passed to more than one coefficient and must not be moved from
     for(auto const& m : base::m_actions()) {
-      lop.add_monomial_action(m.first,
-                              m.second(std::forward<CoeffArgs>(args)...));
+      lop.add_monomial_action(m.first, m.second(args...));
     }
     return lop;
   }
@@ -245,9 +245,10 @@ private:
 
     // Evaluate coefficients
     evaluated_coeffs.reserve(m_act.size());
+    // (`args` are passed to more than one coefficient and must not be moved from)
     for(auto const& a : m_act)
       // cppcheck-suppress useStlAlgorithm
-      evaluated_coeffs.emplace_back(a.second(std::forward<CoeffArgs>(args)...));
+      evaluated_coeffs.emplace_back(a.second(args...));
 
     // Apply monomials
     foreach(
-- 
2.43.0


From 5f8df9730d24c39ee079abe7f2474d49a9f6533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 16/30] fix: user-defined monomial_action was given generators
 of unsupported algebras

---
 include/libcommute/loperator/loperator.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 46fbb43..010c86e 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -23,6 +23,8 @@
 #include "monomial_action_spin.hpp"
 #include "state_vector.hpp"
 
+#include <algorithm>
+#include <initializer_list>
 #include <utility>
 #include <vector>
 
@@ -45,6 +47,10 @@ public:
   loperator_base(expression<scalar_type, IndexTypes...> const& expr,
                  hilbert_space<IndexTypes...> const& hs) {
     for(auto const& m : expr) {
+      // Monomial actions expect to see only generators of their own algebras
+      for(auto const& g : m.monomial)
+        if(!is_supported_algebra(g.algebra_id()))
+          throw unknown_generator<IndexTypes...>(g);
       // cppcheck-suppress useStlAlgorithm
       m_actions_.emplace_back(
           monomial_action_t(
@@ -68,6 +74,12 @@ public:
   ~loperator_base() = default;
 
 private:
+  // Is `algebra_id` one of the algebras supported by this linear operator?
+  static bool is_supported_algebra(int algebra_id) {
+    std::initializer_list<int> const ids = {AlgebraIDs...};
+    return std::find(ids.begin(), ids.end(), algebra_id) != ids.end();
+  }
+
   std::vector<std::pair<monomial_action_t, scalar_type>> m_actions_;
 
 protected:
-- 
2.43.0


From e91f7da59c392067a8a6cfe47e31567994c66d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 17/30] fix: bosonic monomials were not checked beyond a
 vanishing power

---
 include/libcommute/loperator/monomial_action_boson.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index d117e42..db06df9 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -97,10 +97,12 @@ public:
 
         sqr_roots_size = std::max(sqr_roots_size, n_max + 1);
 
-        // Application of this monomial would inevitably give 0. Skipping.
+        // Application of this monomial would inevitably give 0. The remaining
+        // generators still have to be checked.
         if(power > n_max) {
           vanishing_ = true;
-          return;
+          power = 1;
+          continue;
         }
 
         bool dagger =
-- 
2.43.0


From a8de7dbe4bbb511636a552989171a8dbe8185dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 18/30] fix: views of state vectors in one-dimensional Hilbert
 spaces visited no state

---
 include/libcommute/loperator/compressed_state_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/compressed_state_view.hpp b/include/libcommute/loperator/compressed_state_view.hpp
index 8a8032e..a50eef2 100644
--- a/include/libcommute/loperator/compressed_state_view.hpp
+++ b/include/libcommute/loperator/compressed_state_view.hpp
@@ -95,7 +95,8 @@ private:
             mask = 0;
           }
         });
-    if(dim != 1) {
+    // A product of one-dimensional elementary spaces has one basis state
+    if(dim != 1 || (sizes.empty() && hs.size() != 0)) {
       sizes.push_back(dim);
       masks.push_back(mask);
     }
-- 
2.43.0


From 206ae09fb32f84e1c81c941543731dca51af5243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 19/30] fix: basis_mapper applied the listed operators in the
 reverse order

---
 include/libcommute/loperator/mapped_basis_view.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 0e2a4ad..78d1986 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -136,7 +136,7 @@ class basis_mapper {
       std::vector<loperator<LOpScalarType, LOpAlgebraIDs...>> const& O_list,
       sparse_state_vector<typename loperator<LOpScalarType, LOpAlgebraIDs...>::
                               scalar_type> const& st,
-      int m,
+      std::size_t m,
       int sum_n,
       int N) {
 
@@ -149,16 +149,17 @@ class basis_mapper {
               });
     }
 
-    if(std::size_t(m) == O_list.size()) return;
+    if(m == 0) return;
 
-    compositions_constructor_impl(O_list, st, m + 1, sum_n, N);
+    // O_M^{n_M} is the first to act on |vac>, O_1^{n_1} is the last
+    compositions_constructor_impl(O_list, st, m - 1, sum_n, N);
 
     auto from_st = st;
     auto to_st = zeros_like(st);
     for(; sum_n < N; ++sum_n) {
-      O_list[m](from_st, to_st);
+      O_list[m - 1](from_st, to_st);
       if(to_st.n_nonzeros() == 0) return;
-      compositions_constructor_impl(O_list, to_st, m + 1, sum_n + 1, N);
+      compositions_constructor_impl(O_list, to_st, m - 1, sum_n + 1, N);
       from_st = to_st;
     }
   }
@@ -208,7 +209,7 @@ public:
         typename loperator<LOpScalarType, LOpAlgebraIDs...>::scalar_type;
     sparse_state_vector<scalar_type> vac(get_vec_size(hs));
     vac[0] = 1;
-    compositions_constructor_impl(O_list, vac, 0, 0, N);
+    compositions_constructor_impl(O_list, vac, O_list.size(), 0, N);
   }
 
   // Number of basis states in the mapping
-- 
2.43.0


From 0a41735fe51d6976b0f817892150fc5a0b0e6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:54 +0000
Subject: [PATCH 20/30] fix: avoid overflow of the intermediate product in
 binomial coefficients

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 640d380..0c5e759 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -54,8 +54,10 @@ inline sv_index_type binomial(unsigned int n, unsigned int k) {
   if(k > n) return 0;
   if(k > n / 2) k = n - k;
   sv_index_type C = 1;
-  for(unsigned int i = 0; i < k; ++i)
-    C = (C * (n - i)) / (i + 1);
+  for(unsigned int i = 0; i < k; ++i) {
+    // C = (C * (n - i)) / (i + 1) without overflowing the intermediate product
+    C = (C / (i + 1)) * (n - i) + ((C % (i + 1)) * (n - i)) / (i + 1);
+  }
   return C;
 }
 
-- 
2.43.0


From 511afcf989ceab7512db6bba629e1071064ef600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 21/30] fix: do not truncate bit masks of fermionic sectors to
 32 bits

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 0c5e759..385dd26 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -99,7 +99,7 @@ private:
   }
 
   template <typename... IndexTypes>
-  static unsigned int
+  static sv_index_type
   init_mask(hilbert_space<IndexTypes...> const& hs,
             sector_descriptor<hilbert_space<IndexTypes...>> const& sector) {
     sv_index_type m = 0;
-- 
2.43.0


From cb2322298b08264a884391d0f327178a8f790793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:02 +0000
Subject: [PATCH 22/30] fix: do not truncate the number of states of a
 multisector to int

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 385dd26..683d8f8 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -741,7 +741,7 @@ public:
       sector_gens(params.begin(), params.end()),
       total(std::accumulate(sector_gens.begin(),
                             sector_gens.end(),
-                            1,
+                            sv_index_type(1),
                             [](sv_index_type n, unranking_generator const& g) {
                               return n * g.size();
                             })),
-- 
2.43.0


From 28e06859f23d05b9a8e0aa5b48b451a014e2c668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 23/30] fix: make iteration over an N-fermion sector view
 reentrant

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 683d8f8..535ac05 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -570,9 +570,12 @@ foreach(n_fermion_sector_view<StateVector, Ref, RankingAlgorithm> const& view,
   sv_index_type const dim_nonfermion = detail::pow2(view.M_nonfermion);
   sv_index_type sector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type const unranked = view.unranking.next();
+  // Use a local generator to allow for nested and concurrent iterations over
+  // the same view.
+  unranking_generator const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type const unranked = unranking.next();
     for(sv_index_type index_nf = 0; index_nf < dim_nonfermion; ++index_nf) {
 
       // Emulate decltype(auto)
-- 
2.43.0


From a1af16337e2c643fe8244007fcfb13b9031cf828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:10 +0000
Subject: [PATCH 24/30] fix: make iteration over an N-fermion multisector view
 reentrant

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 535ac05..28fa068 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -960,9 +960,12 @@ inline void foreach(
   sv_index_type const dim_nonmultisector = detail::pow2(view.M_nonmultisector);
   sv_index_type multisector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type unranked = view.unranking.next();
+  // Use a local generator to allow for nested and concurrent iterations over
+  // the same view.
+  detail::multisector_unranking_generator const unranking = view.unranking;
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type unranked = unranking.next();
     for(sv_index_type index_nms = 0; index_nms < dim_nonmultisector;
         ++index_nms) {
 
-- 
2.43.0


From cedd0fea09c490a819c90c1c702ced44a56807fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 25/30] fix: copies of a multisector view referred to
 parameters stored in the original

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 28fa068..cdcf0bb 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -719,7 +719,7 @@ unsigned int make_nonmultisector_mask(HSType const& hs,
 class multisector_unranking_generator {
 
   // Parameters of sectors
-  detail::sector_params_vec_t const& sector_params;
+  detail::sector_params_vec_t sector_params;
 
   // State unranking generators for each sector
   std::vector<unranking_generator> sector_gens;
-- 
2.43.0


From 0ca3b543de30d718d3dc6c51d03f7899b5936c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 26/30] fix: disjoint_sets::compress_sets() left elements away
 from their roots, normalize_sets() missed smaller members

---
 include/libcommute/loperator/disjoint_sets.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/disjoint_sets.hpp b/include/libcommute/loperator/disjoint_sets.hpp
index 3287b38..1daac7c 100644
--- a/include/libcommute/loperator/disjoint_sets.hpp
+++ b/include/libcommute/loperator/disjoint_sets.hpp
@@ -108,12 +108,14 @@ public:
 
   // Compress all sets (make every element represented by its parent)
   void compress_sets() {
-    for(std::size_t x : parents_)
+    for(std::size_t x = 0; x < size(); ++x)
       find_root(x);
   }
 
   // Normalize all sets (make every representative be the smallest in its set)
   void normalize_sets() {
+    // The algorithm below expects every element to be a child of its root
+    compress_sets();
     for(std::size_t x = 0; x < size(); ++x) {
       std::size_t p = parents_[x];
       if(x > p || parents_[p] != p)
-- 
2.43.0


From 25da9ad74d26e3fcfe50a73e78a63571f5c5fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 27/30] fix: space_partition::operator[] read past the end for
 indices beyond the Hilbert space

---
 include/libcommute/loperator/space_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 429c8e1..366f762 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -220,7 +220,8 @@ public:
 
   // Find what invariant subspace a given basis state belongs to
   sv_index_type operator[](sv_index_type index) const {
-    auto it = root_to_subspace.find(ds.find_root(index));
+    auto it = index < ds.size() ? root_to_subspace.find(ds.find_root(index)) :
+                                  root_to_subspace.end();
     if(it == root_to_subspace.end())
       throw std::out_of_range("Unexpected basis state index " +
                               std::to_string(index));
-- 
2.43.0


From b0fba277da4f6611bd82b5f72dbf91b0cf54927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:38 +0000
Subject: [PATCH 28/30] fix: merge_subspaces() compared only neighbouring
 connections and left subspaces connected to several others

---
 .../libcommute/loperator/space_partition.hpp  | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 366f762..83c86e0 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -173,25 +173,18 @@ public:
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
     auto merge_conn_targets = [this](conn_t const& conn) -> bool {
-      if(conn.empty()) return false;
-
       bool subspaces_linked = false;
 
-      auto conn_it = conn.cbegin();
-      sv_index_type in_subspace = ds.find_root(conn_it->first);
-      sv_index_type out_subspace = ds.find_root(conn_it->second);
-      ++conn_it;
-      for(; conn_it != conn.cend(); ++conn_it) {
-        if(ds.find_root(conn_it->first) == ds.find_root(in_subspace)) {
-          sv_index_type out_subspace1 = ds.find_root(out_subspace);
-          sv_index_type out_subspace2 = ds.find_root(conn_it->second);
-          if(out_subspace1 != out_subspace2) {
-            ds.root_union(out_subspace1, out_subspace2);
-            subspaces_linked = true;
-          }
-        } else {
-          in_subspace = ds.find_root(conn_it->first);
-          out_subspace = ds.find_root(conn_it->second);
+      // One of the 'out' subspaces for each 'in' subspace
+      std::map<sv_index_type, sv_index_type> targets;
+
+      for(auto const& c : conn) {
+        sv_index_type out_subspace1 = ds.find_root(c.second);
+        auto it = targets.emplace(ds.find_root(c.first), out_subspace1).first;
+        sv_index_type out_subspace2 = ds.find_root(it->second);
+        if(out_subspace1 != out_subspace2) {
+          ds.root_union(out_subspace1, out_subspace2);
+          subspaces_linked = true;
         }
       }
 
-- 
2.43.0


From f4226607958f7234c99f034bd30cc6c0c2e3b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 29/30] fix: later calls to merge_subspaces() could break the
 one-to-one connections of the earlier operators

---
 .../libcommute/loperator/space_partition.hpp  | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 83c86e0..632c56b 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -55,6 +55,9 @@ template <typename HSType> class space_partition {
   disjoint_sets ds;
   // Map representative basis state to subspace index
   std::map<sv_index_type, sv_index_type> root_to_subspace;
+  // Connections generated by the operators passed to merge_subspaces() so far,
+  // one map per operator
+  std::vector<connections_map> merged_conns;
 
   template <typename LOpScalarType, int... LOpAlgebraIDs>
   using loperator_melem_t = matrix_elements_map<
@@ -140,12 +143,11 @@ public:
     using scalar_type = typename loperator_t::scalar_type;
     matrix_elements_map<scalar_type> Cd_elements, C_elements;
 
-    using conn_t = std::multimap<sv_index_type, sv_index_type>;
-    conn_t Cd_conn, C_conn;
+    connections_map Cd_conn, C_conn;
 
     sv_index_type d = get_vec_size(hs);
 
-    // Fill connection multimaps
+    // Fill connection maps
     sparse_state_vector<scalar_type> in_state(d);
     sparse_state_vector<scalar_type> out_state(d);
     foreach(hs, [&](sv_index_type in_index) {
@@ -153,7 +155,7 @@ public:
       sv_index_type in_subspace = ds.find_root(in_index);
 
       auto fill_conn = [&, this](loperator_t const& lop,
-                                 conn_t& conn,
+                                 connections_map& conn,
                                  matrix_elements_map<scalar_type>& elem) {
         lop(in_state, out_state);
         // Iterate over non-zero final amplitudes
@@ -172,7 +174,7 @@ public:
 
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
-    auto merge_conn_targets = [this](conn_t const& conn) -> bool {
+    auto merge_conn_targets = [this](connections_map const& conn) -> bool {
       bool subspaces_linked = false;
 
       // One of the 'out' subspaces for each 'in' subspace
@@ -191,14 +193,20 @@ public:
       return subspaces_linked;
     };
 
+    // Operators from the previous calls must keep generating one-to-one
+    // connections.
+    merged_conns.emplace_back(std::move(Cd_conn));
+    merged_conns.emplace_back(std::move(C_conn));
+
     // Repeatedly call merge_conn_targets() until no further subspaces can
     // be merged.
-    // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    bool sl_Cd, sl_C;
-    do {
-      sl_Cd = merge_conn_targets(Cd_conn);
-      sl_C = merge_conn_targets(C_conn);
-    } while(sl_Cd || sl_C);
+    bool subspaces_linked = true;
+    while(subspaces_linked) {
+      subspaces_linked = false;
+      for(auto const& conn : merged_conns) {
+        if(merge_conn_targets(conn)) subspaces_linked = true;
+      }
+    }
 
     update_root_to_subspace();
 
-- 
2.43.0


From d959df702e0bd1b842bd530eb520f4bf3012fc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:46 +0000
Subject: [PATCH 30/30] fix: do not store a constant that vanishes upon
 conversion

---
 include/libcommute/expression/expression.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 138515d..d82f70d 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -92,7 +92,11 @@ public:
     // NOLINTNEXTLINE(modernize-type-traits)
     static_assert(std::is_constructible<scalar_type, S>::value,
                   "Incompatible scalar type in construction");
-    if(!scalar_traits<S>::is_zero(x)) monomials_.emplace(monomial_t{}, x);
+    if(!scalar_traits<S>::is_zero(x)) {
+      monomials_.emplace(monomial_t{}, x);
+      // A nonzero 'x' can still become zero when converted to 'scalar_type'
+      erase_zeros();
+    }
   }
 
   // Construct from a monomial
-- 
2.43.0

