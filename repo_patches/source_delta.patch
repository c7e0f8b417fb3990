From 315d606347748470ad8a2e50953dd9232fd41d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 01/42] fix: order Kronecker deltas of a prefactor
 lexicographically

The comparator of order_kroneckers compared the second index of one delta
with the first index of the other, which is no strict weak ordering: equal
products of deltas were not brought to the same sequence.
---
 include/ieompp/symbolic/prefactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 3d26ea4..3d57197 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -69,7 +69,7 @@ namespace ieompp
                               if(a.a < b.a) {
                                   return true;
                               }
-                              if(a.b > b.a) {
+                              if(b.a < a.a) {
                                   return false;
                               }
                               return a.b < b.b;
-- 
2.43.0


From 0d554ef9d70cbdd17048a1999e7aa9ef70b53fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 02/42] fix: multiplying a symbolic prefactor with itself

operator*= appended the deltas of the right-hand side through iterators that
are invalidated while appending when both sides are the same object.
---
 include/ieompp/symbolic/prefactor.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 3d57197..782a3e9 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -30,15 +30,20 @@ namespace ieompp
 
             Prefactor& operator*=(const std::vector<Kronecker>& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(kroneckers));
+                // no iterators: rhs may be our own list
+                for(std::size_t i = 0, size = rhs.size(); i < size; ++i) {
+                    kroneckers.push_back(rhs[i]);
+                }
                 return *this;
             }
 
             template <typename Value_, typename Container_>
             Prefactor& operator*=(const Prefactor<Value_, Container_>& rhs)
             {
-                std::copy(rhs.kroneckers.begin(), rhs.kroneckers.end(),
-                          std::back_inserter(kroneckers));
+                // no iterators: rhs may be *this
+                for(std::size_t i = 0, size = rhs.kroneckers.size(); i < size; ++i) {
+                    kroneckers.push_back(rhs.kroneckers[i]);
+                }
                 value *= rhs.value;
 
                 return *this;
-- 
2.43.0


From 4df1037c1e9915f34be043e2aadb0d0f252544c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 03/42] fix: Term::conjugate iterates over the operators

A term is not a range itself, so the in-place conjugation of a term did not
compile.
---
 include/ieompp/algebra/term/term.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 31185e1..a38799e 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -24,7 +24,7 @@ namespace ieompp
             {
                 prefactor = types::conjugate(prefactor);
                 std::reverse(operators.begin(), operators.end());
-                for(auto& op : *this) {
+                for(auto& op : operators) {
                     op.conjugate();
                 }
             }
-- 
2.43.0


From 6bc830542cb9ae72798694f1f9bc80007f499aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 04/42] fix: total_spin uses the name of the index type trait

IndexType provides Type, not type, so total_spin did not compile.
---
 include/ieompp/algebra/term/checks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index 8885670..e0797f7 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -31,7 +31,7 @@ namespace ieompp
         int total_spin(const Term& t)
         {
             static_assert(
-                std::is_same<typename IndexType<Index, typename Term::Operator>::type, bool>::value,
+                std::is_same<typename IndexType<Index, typename Term::Operator>::Type, bool>::value,
                 "spin index must be a boolean");
 
             int spin = 0;
-- 
2.43.0


From 7f94b9056c1751a244d692ba0f6dc25ee481b66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 05/42] fix: multiplying a monomial or term with itself

operator*= appended the operators of the right-hand side through iterators
that are invalidated while appending when both sides are the same object.
---
 include/ieompp/algebra/monomial/monomial.hpp | 5 ++++-
 include/ieompp/algebra/term/term.hpp         | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/algebra/monomial/monomial.hpp b/include/ieompp/algebra/monomial/monomial.hpp
index b54cac3..8f12599 100644
--- a/include/ieompp/algebra/monomial/monomial.hpp
+++ b/include/ieompp/algebra/monomial/monomial.hpp
@@ -69,7 +69,10 @@ namespace ieompp
 
             Monomial& operator*=(const Monomial& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(*this));
+                // no iterators: rhs may be *this
+                for(std::size_t i = 0, size = rhs.size(); i < size; ++i) {
+                    this->push_back(rhs[i]);
+                }
                 return *this;
             }
 
diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index a38799e..e066d87 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -51,7 +51,9 @@ namespace ieompp
             Term& operator*=(const Term& rhs)
             {
                 prefactor *= rhs.prefactor;
-                std::copy(rhs.operators.begin(), rhs.operators.end(),
+                // rhs may be *this, appending would invalidate its iterators
+                const Container rhs_operators(rhs.operators);
+                std::copy(rhs_operators.begin(), rhs_operators.end(),
                           std::back_inserter(operators));
                 return *this;
             }
-- 
2.43.0


From b3a6f8138277d030358c836074f692777d7e9c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 06/42] fix: copy_as_unique_terms uses the name of the term
 comparison

Terms have have_same_operators, not same_operators, so the function did not
compile.
---
 include/ieompp/algebra/term/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/list.hpp b/include/ieompp/algebra/term/list.hpp
index 4e82522..ccb6be4 100644
--- a/include/ieompp/algebra/term/list.hpp
+++ b/include/ieompp/algebra/term/list.hpp
@@ -24,7 +24,7 @@ namespace ieompp
                     lst.push_back(t);
                     continue;
                 }
-                if(pos->same_operators(t)) {
+                if(pos->have_same_operators(t)) {
                     pos->prefactor += t.prefactor;
                 } else {
                     lst.insert(pos, t);
-- 
2.43.0


From baf7b3e82368550365f25ca8f03e786824c3c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 07/42] fix: IntegerIterator::operator-= subtracts

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 351d4c1..94a350c 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -149,7 +149,7 @@ namespace ieompp
         inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
         operator-=(const typename IntegerIterator<T, const_iterator>::difference_type& diff)
         {
-            _val += diff;
+            _val -= diff;
             return *this;
         }
 
-- 
2.43.0


From d66f031276ff6654c1c477f0ae144109e1539ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 08/42] fix: IntegerIterator increments and decrements return
 iterators

---
 include/ieompp/iterators/integer_iterator.hpp | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 94a350c..70f2e17 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -51,10 +51,10 @@ namespace ieompp
             IntegerIterator& operator=(const IntegerIterator&) = default;
             reference operator*();
             value_type operator[](const difference_type& diff);
-            reference operator++();
-            reference operator++(int);
-            reference operator--();
-            reference operator--(int);
+            IntegerIterator& operator++();
+            IntegerIterator operator++(int);
+            IntegerIterator& operator--();
+            IntegerIterator operator--(int);
             IntegerIterator& operator+=(const difference_type& diff);
             IntegerIterator& operator-=(const difference_type& diff);
             IntegerIterator operator+(const difference_type& diff) const;
@@ -110,31 +110,33 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator++()
+        inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
+        operator++()
         {
-            return ++_val;
+            ++_val;
+            return *this;
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator++(int)
+        inline IntegerIterator<T, const_iterator> IntegerIterator<T, const_iterator>::
+        operator++(int)
         {
-            return _val++;
+            return IntegerIterator<T, const_iterator>(_val++);
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator--()
+        inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
+        operator--()
         {
-            return --_val;
+            --_val;
+            return *this;
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
-            IntegerIterator<T, const_iterator>::operator--(int)
+        inline IntegerIterator<T, const_iterator> IntegerIterator<T, const_iterator>::
+        operator--(int)
         {
-            return _val--;
+            return IntegerIterator<T, const_iterator>(_val--);
         }
 
         template <typename T, bool const_iterator>
-- 
2.43.0


From afe07632a1c7836a3445ffe30b362cef53963e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 09/42] fix: n + iterator does not access private members

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 70f2e17..2fcca43 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -225,7 +225,7 @@ namespace ieompp
         operator+(const typename IntegerIterator<T, const_iterator>::difference_type& diff,
                   const IntegerIterator<T, const_iterator>& it)
         {
-            return IntegerIterator<T, const_iterator>(diff + it._val);
+            return it + diff;
         }
 
         template <typename T, bool const_iterator>
-- 
2.43.0


From f854dba145bcbf1c0db678ad62548c38a2a33952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 10/42] fix: PeriodicChain wraps coordinates at the end of the
 period

---
 include/ieompp/lattices/periodic_chain.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 3b88057..dbfa4e4 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -110,7 +110,7 @@ namespace ieompp
             while(v < _x_min - dx2) {
                 v += _x_length;
             }
-            while(v > _x_max + dx2) {
+            while(v > _x_min + _x_length - dx2) {
                 v -= _x_length;
             }
             Float min_dist = ((*this)[SiteIndex(0)] - v) * ((*this)[SiteIndex(0)] - v), dist;
@@ -249,7 +249,7 @@ namespace ieompp
             while(v < _x_min) {
                 v += _x_length;
             }
-            while(v > _x_max) {
+            while(v > _x_min + _x_length) {
                 v -= _x_length;
             }
             return SiteIndex(std::round((v - _x_min) / _dx)) % _size;
-- 
2.43.0


From 21d981b3aa9395a707d9d0b34252e740e2f6fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 11/42] fix: PeriodicSquareLattice numbers the sites of
 rectangular lattices consistently

---
 .../ieompp/lattices/periodic_square_lattice.hpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 91bbbef..f085991 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -114,26 +114,26 @@ namespace ieompp
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::index(const Index& x, const Index& y) const
         {
-            return x * _size_x + y;
+            return x * _size_y + y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::x_index(const Index& i) const
         {
-            return i / _size_x;
+            return i / _size_y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::y_index(const Index& i) const
         {
-            return i % _size_x;
+            return i % _size_y;
         }
 
         template <typename Float, typename Index>
         std::array<Index, 4> PeriodicSquareLattice<Float, Index>::neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                          index(i, (j == 0) ? _size_y - 1 : j - 1),
                                          index((i == _size_x - 1) ? 0 : i + 1, j),
@@ -145,7 +145,7 @@ namespace ieompp
         PeriodicSquareLattice<Float, Index>::unique_neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 2>{{index((i == _size_x - 1) ? 0 : i + 1, j),
                                          index(i, (j == _size_y - 1) ? 0 : j + 1)}};
         }
@@ -353,8 +353,8 @@ namespace ieompp
                                 typename PeriodicSquareLattice<Float, Index>::Vector>::type
             PeriodicSquareLattice<Float, Index>::operator[](const IndexT& idx) const
         {
-            const Index i = idx / _size_x;
-            const Index j = idx % _size_x;
+            const Index i = idx / _size_y;
+            const Index j = idx % _size_y;
             return Vector{_x_min + i * _dx, _y_min + j * _dy};
         }
 
@@ -376,7 +376,7 @@ namespace ieompp
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx));
             const auto j = Index(std::round((v[1] - _y_min) / _dy));
-            return i * _size_x + j;
+            return index(i % _size_x, j % _size_y);
         }
     } // namespace lattices
 } // namespace ieompp
-- 
2.43.0


From 727cc52090ecf9665ff7463d8280d7ef10a0b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 12/42] fix: PeriodicSquareLattice wraps coordinates at the end
 of the period

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index f085991..d7d907b 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -158,13 +158,13 @@ namespace ieompp
             while(v[0] < _x_min - dx2) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max + dx2) {
+            while(v[0] > _x_min + _x_length - dx2) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min - dy2) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max + dy2) {
+            while(v[1] > _y_min + _y_length - dy2) {
                 v[1] -= _y_length;
             }
             Float min_dist = types::dot_product(v - (*this)[Index(0)], v - (*this)[Index(0)]);
@@ -365,13 +365,13 @@ namespace ieompp
             while(v[0] < _x_min) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max) {
+            while(v[0] > _x_min + _x_length) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max) {
+            while(v[1] > _y_min + _y_length) {
                 v[1] -= _y_length;
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx));
-- 
2.43.0


From 42e3cc76d51c0a2912bd5e036f94482560abdf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 13/42] fix: include <numeric> for std::accumulate in
 FermiJump2D

---
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index b739c91..6693c12 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -8,6 +8,7 @@
 
 #include <cmath>
 #include <functional>
+#include <numeric>
 
 namespace ieompp
 {
-- 
2.43.0


From c6ab734f56ddc8e49c4da38c8c11e6eca5d1bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 14/42] fix: normal-ordered one-operator rows couple to the
 density and the three-operator element

---
 include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 71f1b7d..4e340ee 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -92,8 +92,8 @@ namespace ieompp
                     }
 
                     // clang-format off
-                    triplets.emplace_back(row, row, liouvillian.U);
-                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, row, liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U);
                     // clang-format on
 
                     triplets.sort();
-- 
2.43.0


From 1ad3e1541b1715465b2565d5096f2af53a0ce8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 15/42] fix: spin-up contractions of normal-ordered rows use
 the hole function

---
 .../ieompp/models/hubbard_real_space/blaze_sparse_no.hpp    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 4e340ee..74897a8 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -143,7 +143,7 @@ namespace ieompp
                     // clang-format off
                     triplets.emplace_back(row, r1, liouvillian.U * expectation_value(op2.index1, op1.index1) * expectation_value_conj(op3.index1, op1.index1));
                     triplets.emplace_back(row, r2, liouvillian.U * expectation_value_conj(op2.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
-                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
+                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value_conj(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
                     // clang-format on
 
                     // 3-operator monomials
@@ -152,8 +152,8 @@ namespace ieompp
                     triplets.emplace_back(row, basis.get_3op_index(r1, r1, r3), -liouvillian.U * expectation_value(op2.index1, op1.index1));
                     triplets.emplace_back(row, basis.get_3op_index(r1, r2, r1), liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     if(r2 != r3) {
-                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value(op2.index1, op1.index1));
-                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value(op3.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value_conj(op2.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     }
                     // clang-format on
 
-- 
2.43.0


From 7f6e382e91f385c1fe5b70a2275f8df5d4071b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 16/42] fix: SiteOccupation::expectation_value passes its
 arguments on

---
 include/ieompp/models/hubbard_real_space/site_occupation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index 4c6f0dd..c02dd58 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -234,7 +234,7 @@ namespace ieompp
                     if(b.size() == 1) {
                         return expectation_value_3_1(a, b);
                     }
-                    return expectation_value_3_3();
+                    return expectation_value_3_3(a, b);
                 }
 
                 template <typename Vector>
-- 
2.43.0


From cd0859cefd32f17890bd69e07f9b896a47aa1bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 17/42] fix: SiteOccupation tolerates rounding errors in the
 imaginary part

---
 .../models/hubbard_real_space/site_occupation.hpp  | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index c02dd58..0f0bf34 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -6,7 +6,11 @@
 #include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 
+#include <algorithm>
+#include <cmath>
+#include <complex>
 #include <functional>
+#include <limits>
 #include <numeric>
 #include <vector>
 
@@ -63,7 +67,10 @@ namespace ieompp
                     const auto result =
                         std::accumulate(results.begin(), results.end(), std::complex<Float>(0.));
 
-                    assert(types::IsZero(result.imag()));
+                    // the imaginary part cancels up to rounding errors
+                    assert(types::IsZero(result.imag(),
+                                         std::sqrt(std::numeric_limits<Float>::epsilon())
+                                             * std::max(Float(1.), std::abs(result.real()))));
                     return result.real();
                 }
             };
@@ -320,7 +327,10 @@ namespace ieompp
                     const auto result =
                         std::accumulate(results.begin(), results.end(), std::complex<Float>(0.));
 
-                    assert(types::IsZero(result.imag()));
+                    // the imaginary part cancels up to rounding errors
+                    assert(types::IsZero(result.imag(),
+                                         std::sqrt(std::numeric_limits<Float>::epsilon())
+                                             * std::max(Float(1.), std::abs(result.real()))));
 
                     return result.real();
                 }
-- 
2.43.0


From 4ac567ab7b92238123bebf385b1be25f41f0256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 18/42] fix: FermiJump does not keep the vector of an earlier
 evaluation

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 24eee95..7ec57dc 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -121,7 +121,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index 6693c12..e863e99 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -62,7 +62,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
-- 
2.43.0


From 2944f724dcdb7d634d80af6fadd0143951a8ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 19/42] fix: FermiJump stores its Fourier coefficients inside
 the vector

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 7ec57dc..e16ef72 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -45,7 +45,7 @@ namespace ieompp
                 FermiJump1D(const Lattice& lattice, ExpectationValueFunction expectation_value, const Float& k_F)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 69f7057..05311ad 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -49,7 +49,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
@@ -107,7 +107,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
-- 
2.43.0


From b3275431fdd4673a192f019798eba679b0f2897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 20/42] fix: matrix_check includes the number helpers it uses

---
 include/ieompp/types/matrix_check.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 456e94d..940714d 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_TYPES_MATRIX_CHECK_HPP_
 
 #include "ieompp/types/matrix.hpp"
+#include "ieompp/types/number.hpp"
 
 #include <type_traits>
 
-- 
2.43.0


From 19a1de60bdf8970bedf6f749c164201800c3c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 21/42] fix: is_hermitian compares with the transposed entry

---
 include/ieompp/types/matrix_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 940714d..199488f 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -49,7 +49,7 @@ namespace ieompp
             const Index N = MatrixDimensionInfo<Matrix>::rows(m);
             for(Index i = 0; i < N; ++i) {
                 for(Index j = 0; j <= i; ++j) {
-                    if(!IsEqual(m(i, j), conjugate(m(i, j)))) {
+                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
                         return false;
                     }
                 }
-- 
2.43.0


From 2542860141f860944b5db3adcad71ea8f9a42fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 22/42] fix: IsZero of a matrix looks at its entries

---
 include/ieompp/types/matrix_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 199488f..14b003d 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -66,7 +66,7 @@ namespace ieompp
             const auto cols = MatrixDimensionInfo<Matrix>::columns(m);
             for(Index i = 0; i < rows; ++i) {
                 for(Index j = 0; j < cols; ++j) {
-                    if(!IsZero(t(i, j))) {
+                    if(!IsZero(m(i, j))) {
                         return false;
                     }
                 }
-- 
2.43.0


From 4496f1fd76c029dc5b71412cf2ffdcc0c1a38fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 23/42] fix: make_columns_unique drops a vanishing last triplet

---
 include/ieompp/types/triplet.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/types/triplet.hpp b/include/ieompp/types/triplet.hpp
index bbd9178..f4fe7d7 100644
--- a/include/ieompp/types/triplet.hpp
+++ b/include/ieompp/types/triplet.hpp
@@ -47,7 +47,9 @@ namespace ieompp
                         triplet = *it;
                     }
                 }
-                filtered.push_back(triplet);
+                if(!types::IsZero(triplet.value)) {
+                    filtered.push_back(triplet);
+                }
                 return filtered;
             }
 
-- 
2.43.0


From 4a7690d476231a2fe976426d257fe352648773e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:35 +0000
Subject: [PATCH 24/42] fix: TripletList handles empty lists

---
 include/ieompp/types/triplet.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ieompp/types/triplet.hpp b/include/ieompp/types/triplet.hpp
index f4fe7d7..72c6faf 100644
--- a/include/ieompp/types/triplet.hpp
+++ b/include/ieompp/types/triplet.hpp
@@ -34,6 +34,9 @@ namespace ieompp
             TripletList make_columns_unique() const
             {
                 TripletList filtered;
+                if(this->empty()) {
+                    return filtered;
+                }
                 filtered.reserve(this->size());
 
                 auto triplet = this->front();
@@ -55,6 +58,9 @@ namespace ieompp
 
             bool has_unique_columns() const
             {
+                if(this->empty()) {
+                    return true;
+                }
                 for(auto it = this->begin() + 1; it != this->end(); ++it) {
                     if(it->column == (it - 1)->column) {
                         return false;
-- 
2.43.0


From 562caab12b1aa3668bb49f3c90c8a113cc5fdb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:47 +0000
Subject: [PATCH 25/42] fix: function matrices know their dimensions in RK4 and
 matrix checks

---
 include/ieompp/types/function_matrix.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/ieompp/types/function_matrix.hpp b/include/ieompp/types/function_matrix.hpp
index bcadade..83e213e 100644
--- a/include/ieompp/types/function_matrix.hpp
+++ b/include/ieompp/types/function_matrix.hpp
@@ -1,6 +1,7 @@
 #ifndef IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 #define IEOMPP_TYPES_FUNCTION_MATRIX_HPP_
 
+#include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 
 #include <functional>
@@ -76,6 +77,12 @@ namespace ieompp
             static constexpr bool value = true;
         };
 
+        template <typename Scalar, typename Index>
+        struct MatrixDimensionInfo<FunctionMatrix<Scalar, Index>> {
+            static Index rows(const FunctionMatrix<Scalar, Index>& m) { return m.rows(); }
+            static Index columns(const FunctionMatrix<Scalar, Index>& m) { return m.cols(); }
+        };
+
         template <typename Scalar, typename Index>
         std::ostream& operator<<(std::ostream& strm, const FunctionMatrix<Scalar, Index>& matrix)
         {
-- 
2.43.0


From 90b0bb75668ba5f6b5331f117320e2a81aeaa00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 26/42] fix: print every element of a tuple instead of
 repeating the last one

---
 include/ieompp/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/tuple.hpp b/include/ieompp/tuple.hpp
index 55cf820..35b4df1 100644
--- a/include/ieompp/tuple.hpp
+++ b/include/ieompp/tuple.hpp
@@ -13,7 +13,7 @@ namespace ieompp
         struct TuplePrinter {
             static void print(std::ostream& strm, const Tuple& t, const std::string& delimiter)
             {
-                strm << std::get<N>(t) << delimiter;
+                strm << std::get<I>(t) << delimiter;
                 TuplePrinter<Tuple, I + 1, N>::print(strm, t, delimiter);
             }
         };
-- 
2.43.0


From 23ad633e171b7ed55c84999bc1d0fc9dfc783fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 27/42] fix: print monomials and terms without operators

---
 include/ieompp/algebra/monomial/io.hpp | 3 +++
 include/ieompp/algebra/term/io.hpp     | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/monomial/io.hpp b/include/ieompp/algebra/monomial/io.hpp
index 56dce2b..5e28e2c 100644
--- a/include/ieompp/algebra/monomial/io.hpp
+++ b/include/ieompp/algebra/monomial/io.hpp
@@ -13,6 +13,9 @@ namespace ieompp
         template <typename Operator>
         std::ostream& operator<<(std::ostream& strm, const Monomial<Operator>& monomial)
         {
+            if(monomial.empty()) {
+                return strm;
+            }
             std::copy(monomial.begin(), --monomial.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << monomial.back();
diff --git a/include/ieompp/algebra/term/io.hpp b/include/ieompp/algebra/term/io.hpp
index c1c5d09..9e58af6 100644
--- a/include/ieompp/algebra/term/io.hpp
+++ b/include/ieompp/algebra/term/io.hpp
@@ -13,7 +13,11 @@ namespace ieompp
         template <typename Prefactor, typename Operator, typename Container>
         std::ostream& operator<<(std::ostream& strm, const Term<Prefactor, Operator, Container>& t)
         {
-            strm << t.prefactor << u8" ⋅ ";
+            strm << t.prefactor;
+            if(t.operators.empty()) {
+                return strm;
+            }
+            strm << u8" ⋅ ";
             std::copy(t.operators.begin(), --t.operators.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << t.operators.back();
-- 
2.43.0


From 4912aaf7537b2910013804a3b97a0ca119b1de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 28/42] fix: particle number of hubbard_trivial is the
 quadratic form h h^+

---
 src/hubbard/hubbard_trivial.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/hubbard_trivial.cpp b/src/hubbard/hubbard_trivial.cpp
index 1f02f9c..cbadede 100644
--- a/src/hubbard/hubbard_trivial.cpp
+++ b/src/hubbard/hubbard_trivial.cpp
@@ -24,14 +24,14 @@ complex<double> particle_number(const blaze::DynamicVector<complex<double>>& h)
             }
 
             if((i < 3) && (j < 3)) {
-                ev += (h[i] * h[j]) * pi_inv;
+                ev += (h[i] * conj(h[j])) * pi_inv;
                 continue;
             }
 
             if((i == 0) || (j == 0)) {
-                ev += (h[i] * h[j]) * 0.25;
+                ev += (h[i] * conj(h[j])) * 0.25;
             } else {
-                ev += (h[i] * h[j]) * 0.5 * pi_inv;
+                ev += (h[i] * conj(h[j])) * 0.5 * pi_inv;
             }
         }
     }
-- 
2.43.0


From e9263aad3eb103792049ade68ff7c3746663edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 29/42] fix: hubbard_real_1d_kinetic_theory uses the
 half-filled Fermi sea

---
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index f8e670f..80ba530 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -59,7 +59,7 @@ int main()
     }
 
     const hubbard::ExpectationValue1DHalfFilled<double, decltype(lattice)> expectation_value(
-        lattice, 1., 0.5);
+        lattice, 0.5, ieompp::HalfPi<double>::value);
 
     vector<vector<complex<double>>> results;
 #pragma omp parallel
-- 
2.43.0


From 2518acb7f7baf7d50c35427946862f1937ce0920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:31 +0000
Subject: [PATCH 30/42] fix: Platform::user() works without LOGNAME

---
 include/ieompp/platform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 8c543db..590621d 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -94,7 +94,8 @@ namespace ieompp
         {
 #if BOOST_OS_WINDOWS
 #else
-            return std::string(std::getenv("LOGNAME"));
+            const char* const name = std::getenv("LOGNAME");
+            return std::string(name == nullptr ? "" : name);
 #endif
         }
 
-- 
2.43.0


From db2df6da80fdaf63ce2580f4796424d666908f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 31/42] fix: next_line ends at the end of the stream

---
 include/ieompp/io/line.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 5d630a5..1115d49 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -17,12 +17,12 @@ namespace ieompp
         std::string next_line(std::istream& strm)
         {
             std::string buf;
-            do {
-                std::getline(strm, buf);
+            while(std::getline(strm, buf)) {
                 if(!is_skippable_line(buf)) {
                     return buf;
                 }
-            } while(true);
+            }
+            return std::string();
         }
     } // namespace io
 } // namespace ieompp
-- 
2.43.0


From 3495e54acb82651cba80cee5e33645e19df05f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 32/42] fix: clean_output_file keeps line breaks and ends at
 the end of the file

---
 src/hubbard/include/checkpoint.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index f24d4da..e30d458 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -68,12 +68,11 @@ void clean_output_file(const std::string& path, uint64_t entries)
     get_loggers().io->info("Start copying \"{}\" entries", entries);
     uint64_t counter = 0;
     std::string buffer;
-    while(counter < entries) {
-        std::getline(in_file, buffer);
+    while((counter < entries) && std::getline(in_file, buffer)) {
         if(!ieompp::io::is_skippable_line(buffer)) {
             ++counter;
         }
-        out_file << buffer;
+        out_file << buffer << '\n';
     }
     out_file.flush();
     get_loggers().io->info("Finished copying entries {}", entries);
-- 
2.43.0


From 123bd88008a0f9d32e8b3aa855048fe4058d8665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 33/42] fix: a missing response file is an error instead of an
 endless loop

---
 src/hubbard/include/cli.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 85ef551..042dd3f 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -30,14 +30,16 @@ void read_response_file(const std::string& path, VariablesMap& vm,
 {
     get_loggers().main->info("Reading response file \"{}\"", path);
     std::ifstream file(path.c_str());
+    if(!file) {
+        throw boost::program_options::reading_file(path.c_str());
+    }
     std::string buf;
     std::vector<std::string> args;
-    do {
-        getline(file, buf);
+    while(getline(file, buf)) {
         args.push_back(buf);
         boost::program_options::store(
             boost::program_options::command_line_parser(args).options(description).run(), vm);
-    } while(!file.eof());
+    }
     file.close();
     get_loggers().main->info("Finish reading response file \"{}\"", path);
 }
-- 
2.43.0


From 508cbeaf928af1103b1376f5478b88897b50474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 34/42] fix: output files list the parameters taken from a
 response file

---
 src/hubbard/include/application.hpp |  4 ++--
 src/hubbard/include/cli.hpp         | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index 40a5c9c..a6ecddb 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -27,7 +27,7 @@ struct Application {
 
     Application(int argc, char** argv)
     {
-        const auto all_options =
+        auto all_options =
             parse_command_line_options(argc, argv, options_description, variables);
 
         if(variables.count("help")) {
@@ -58,7 +58,7 @@ struct Application {
         if(variables.count("response_file") != 0u) {
             // read simulation parameters from response file
             read_response_file(variables["response_file"].as<std::string>(), variables,
-                               Application::options_description);
+                               Application::options_description, all_options);
         } else {
             // write a response file with simulation parameters
             get_loggers().io->info("Write response file \"{}\"", response_path);
diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 042dd3f..f447618 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -1,6 +1,7 @@
 #ifndef SRC_HUBBARD_CLI_HPP_
 #define SRC_HUBBARD_CLI_HPP_
 
+#include <algorithm>
 #include <fstream>
 #include <regex>
 #include <string>
@@ -26,7 +27,8 @@ auto make_value(const T& default_value)
 }
 
 void read_response_file(const std::string& path, VariablesMap& vm,
-                        const OptionsDescription& description)
+                        const OptionsDescription& description,
+                        std::vector<std::pair<std::string, std::string>>& all_options)
 {
     get_loggers().main->info("Reading response file \"{}\"", path);
     std::ifstream file(path.c_str());
@@ -37,9 +39,21 @@ void read_response_file(const std::string& path, VariablesMap& vm,
     std::vector<std::string> args;
     while(getline(file, buf)) {
         args.push_back(buf);
-        boost::program_options::store(
-            boost::program_options::command_line_parser(args).options(description).run(), vm);
     }
+
+    const auto options =
+        boost::program_options::command_line_parser(args).options(description).run();
+    for(const auto& option : options.options) {
+        const auto& current = vm[option.string_key];
+        if(option.value.empty() || !(current.empty() || current.defaulted())) continue;
+        all_options.erase(std::remove_if(all_options.begin(), all_options.end(),
+                                         [&option](const std::pair<std::string, std::string>& o) {
+                                             return o.first == option.string_key;
+                                         }),
+                          all_options.end());
+        all_options.push_back(std::make_pair(option.string_key, option.value.front()));
+    }
+    boost::program_options::store(options, vm);
     file.close();
     get_loggers().main->info("Finish reading response file \"{}\"", path);
 }
-- 
2.43.0


From 3aa6925133ea9e3fd7ea240e6da71f35a3cf86ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:45 +0000
Subject: [PATCH 35/42] fix: checkpoints keep the time in full precision

---
 src/hubbard/include/checkpoint.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index e30d458..cb8db40 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -2,6 +2,8 @@
 #define SRC_HUBBARD_CHECKOINT_HPP_
 
 #include <fstream>
+#include <iomanip>
+#include <limits>
 #include <string>
 
 #include <boost/filesystem.hpp>
@@ -31,7 +33,7 @@ void write_checkpoint_file(const std::string& prefix,
     path = prefix + std::to_string(check_point_number) + ".info";
     get_loggers().io->info("Create checkpoint info file \"{}\" for t={}", path, t);
     strm.open(path.c_str());
-    strm << t << '\n';
+    strm << std::setprecision(std::numeric_limits<Time>::max_digits10) << t << '\n';
     strm.close();
     get_loggers().io->info("Finished writing checkpoint info file \"{}\"", path);
 
-- 
2.43.0


From 2a84f4a5241f46d69728f7ffd3d726f0bbab7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:47 +0000
Subject: [PATCH 36/42] fix: ParticleNumber tolerates rounding errors in the
 imaginary part

---
 .../models/hubbard_momentum_space/particle_number.hpp  | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
index 5414dfb..cc3241d 100644
--- a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
+++ b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
@@ -6,6 +6,11 @@
 #include "ieompp/openmp.hpp"
 #include "ieompp/types/number.hpp"
 
+#include <algorithm>
+#include <cassert>
+#include <cmath>
+#include <complex>
+#include <limits>
 #include <numeric>
 
 namespace ieompp
@@ -54,7 +59,10 @@ namespace ieompp
                         }
                     }
 
-                    assert(types::IsZero(result.imag()));
+                    // the imaginary part cancels up to rounding errors
+                    assert(types::IsZero(result.imag(),
+                                         std::sqrt(std::numeric_limits<Float>::epsilon())
+                                             * std::max(Float(1.), std::abs(result.real()))));
 
                     return result.real();
                 }
-- 
2.43.0


From fe907276ebef00478104ecd1ea8cbac654555510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 37/42] fix: recognise long comments and comments with carriage
 returns

std::regex_match recurses once per character (a comment of 50000 characters
overflows the stack) and '.' does not match a carriage return.
---
 include/ieompp/io/line.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 1115d49..27f238a 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -2,7 +2,7 @@
 #define IEOMPP_IO_LINE_HPP_
 
 #include <istream>
-#include <regex>
+#include <string>
 
 namespace ieompp
 {
@@ -10,8 +10,8 @@ namespace ieompp
     {
         bool is_skippable_line(const std::string& str)
         {
-            static const std::regex reg(R"(^\s*(?:#.*)?$)");
-            return std::regex_match(str, reg);
+            const auto pos = str.find_first_not_of(" \t\n\v\f\r");
+            return (pos == std::string::npos) || (str[pos] == '#');
         }
 
         std::string next_line(std::istream& strm)
-- 
2.43.0


From db2f87e58d36690c1e34138136717930c1a34aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:58 +0000
Subject: [PATCH 38/42] fix: write output files with full precision

With six digits, neighbouring rows of long or finely resolved runs get the
same time.
---
 src/hubbard/include/application.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hubbard/include/application.hpp b/src/hubbard/include/application.hpp
index a6ecddb..ae1e39d 100644
--- a/src/hubbard/include/application.hpp
+++ b/src/hubbard/include/application.hpp
@@ -3,6 +3,7 @@
 
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <string>
 
 #include <boost/filesystem/convenience.hpp>
@@ -72,6 +73,7 @@ struct Application {
 
         get_loggers().io->info("Opening output file \"{}\"", output_path);
         output_file.open(output_path.c_str());
+        output_file.precision(std::numeric_limits<double>::digits10);
         get_loggers().io->info("File \"{}\" is now open", output_path);
 
         output_file << "# program     \t" << name << '\n';
-- 
2.43.0


From f2df0cba375822adcafdb591a7b4a16bf5719ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:49 +0000
Subject: [PATCH 39/42] fix: get_index for temporary operators with any number
 of indices

---
 include/ieompp/algebra/operator/get_index.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator/get_index.hpp b/include/ieompp/algebra/operator/get_index.hpp
index 5aaefeb..798857a 100644
--- a/include/ieompp/algebra/operator/get_index.hpp
+++ b/include/ieompp/algebra/operator/get_index.hpp
@@ -65,7 +65,7 @@ namespace ieompp
         constexpr typename std::tuple_element<I, typename Operator<IndexTypes...>::Indices>::type&&
         get_index(Operator<IndexTypes...>&& op)
         {
-            return std::get<I>(op.indices);
+            return std::get<I>(std::move(op.indices));
         }
 
         template <std::size_t I, typename Index>
-- 
2.43.0


From 7585d9f3fcd6fa8df00640f41aa9ba0912e0823d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:49 +0000
Subject: [PATCH 40/42] fix: HasIndexOfType starts at the last index

---
 include/ieompp/algebra/operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator.hpp b/include/ieompp/algebra/operator.hpp
index 75ecd3c..e863a1c 100644
--- a/include/ieompp/algebra/operator.hpp
+++ b/include/ieompp/algebra/operator.hpp
@@ -32,7 +32,7 @@ namespace ieompp
             static_assert(IsOperator<Op>::value, "Operator must be an operator");
 
             static constexpr bool value =
-                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices>::value;
+                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices - 1>::value;
         };
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From edb39bcb0ef4f6b01d58f7e431d35e5a3f20b516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:44 +0000
Subject: [PATCH 41/42] fix: printing a FunctionMatrix leaves the format of the
 stream as it was

---
 include/ieompp/types/function_matrix.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ieompp/types/function_matrix.hpp b/include/ieompp/types/function_matrix.hpp
index 83e213e..373c4b0 100644
--- a/include/ieompp/types/function_matrix.hpp
+++ b/include/ieompp/types/function_matrix.hpp
@@ -86,6 +86,8 @@ namespace ieompp
         template <typename Scalar, typename Index>
         std::ostream& operator<<(std::ostream& strm, const FunctionMatrix<Scalar, Index>& matrix)
         {
+            const auto flags     = strm.flags();
+            const auto precision = strm.precision();
             strm << std::fixed << std::setprecision(1) << std::showpos;
             for(Index row = 0; row < matrix.rows(); ++row) {
                 for(Index col = 0; col < matrix.cols(); ++col) {
@@ -93,6 +95,8 @@ namespace ieompp
                 }
                 strm << '\n';
             }
+            strm.flags(flags);
+            strm.precision(precision);
             return strm;
         }
 
-- 
2.43.0


From 46a05a42b261e9b0460fb5d621b1d5d79852cf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:51 +0000
Subject: [PATCH 42/42] fix: remove an older run's checkpoint info file before
 its vector file is overwritten

A run that overwrites the checkpoints of an earlier run and is interrupted
left the earlier run's time beside an incomplete or newer vector.
---
 src/hubbard/include/checkpoint.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index cb8db40..0d754e8 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -24,6 +24,8 @@ void write_checkpoint_file(const std::string& prefix,
     std::string path                   = prefix + std::to_string(check_point_number) + ".blaze";
     get_loggers().io->info("Create checkpoint file \"{}\" using vector with {} elements", path,
                            vector.size());
+    // an info file left by an earlier run does not belong to the vector that is written now
+    boost::filesystem::remove(prefix + std::to_string(check_point_number) + ".info");
     std::ofstream strm(path.c_str(), std::ofstream::binary);
     blaze::Archive<std::ofstream> archive(strm);
     archive << vector;
-- 
2.43.0

