From f6eca946c9451194a7466e8f9a740ce97be01867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 01/23] fix: Hecke word levels no longer skip levels when
 generators with the same key are interleaved

---
 permutations.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/permutations.py b/permutations.py
index 4ffe4af..4836047 100644
--- a/permutations.py
+++ b/permutations.py
@@ -503,16 +503,15 @@ class Permutation:
         key = (n, ascent_bound)
 
         def generate():
-            for level in HECKE_CACHE[key][:-1]:
+            level = None
+            for level in HECKE_CACHE[key]:
                 yield level
-            if HECKE_CACHE[key]:
-                level = HECKE_CACHE[key][-1]
-            else:
+            if level is None:
                 start = (cls.identity(), ())
                 level = {start}
+                yield level
             while level:
                 next_level = set()
-                yield level
                 for pi, w in level:
                     for i in range(1, n):
                         s = Permutation.s_i(i)
@@ -521,6 +520,8 @@ class Permutation:
                         if ascent_bound is None or Word.ascents(v) < ascent_bound:
                             next_level.add((sigma, v))
                 level = next_level
+                if level:
+                    yield level
 
         for i, level in enumerate(generate()):
             if i >= len(HECKE_CACHE[key]):
@@ -550,19 +551,18 @@ class Permutation:
         key = (n, ascent_bound, hecke)
 
         def generate():
-            for level in SYMPLECTIC_HECKE_CACHE[key][:-1]:
+            level = None
+            for level in SYMPLECTIC_HECKE_CACHE[key]:
                 yield level
-            if SYMPLECTIC_HECKE_CACHE[key]:
-                level = SYMPLECTIC_HECKE_CACHE[key][-1]
-            else:
+            if level is None:
                 a = cls.identity()
                 for i in range(1, n, 2):
                     a *= cls.s_i(i)
                 start = (a, ())
                 level = {start}
+                yield level
             while level:
                 next_level = set()
-                yield level
                 for pi, w in level:
                     for i in range(1, n):
                         s = Permutation.s_i(i)
@@ -573,6 +573,8 @@ class Permutation:
                                 if hecke or sigma != pi:
                                     next_level.add((sigma, v))
                 level = next_level
+                if level:
+                    yield level
 
         for i, level in enumerate(generate()):
             if i >= len(SYMPLECTIC_HECKE_CACHE[key]):
@@ -600,16 +602,15 @@ class Permutation:
         key = (n, peak_bound, hecke)
 
         def generate():
-            for level in ORTHOGONAL_HECKE_CACHE[key][:-1]:
+            level = None
+            for level in ORTHOGONAL_HECKE_CACHE[key]:
                 yield level
-            if ORTHOGONAL_HECKE_CACHE[key]:
-                level = ORTHOGONAL_HECKE_CACHE[key][-1]
-            else:
+            if level is None:
                 start = (cls.identity(), ())
                 level = {start}
+                yield level
             while level:
                 next_level = set()
-                yield level
                 for pi, w in level:
                     for i in range(n):
                         s = Permutation.s_i(i)
@@ -619,6 +620,8 @@ class Permutation:
                             if hecke or sigma != pi:
                                 next_level.add((sigma, v))
                 level = next_level
+                if level:
+                    yield level
 
         for i, level in enumerate(generate()):
             if i >= len(ORTHOGONAL_HECKE_CACHE[key]):
-- 
2.43.0


From 23326952f9756b7865bdec330beb2a9a73b8c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 02/23] fix: negative powers of a monomial with coefficient -1
 get the right sign

---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 1088159..65c5787 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -232,7 +232,7 @@ class Polynomial:
                     new_ind = ind.copy()
                     for key in new_ind:
                         new_ind[key] *= i
-                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]
+                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]**(-i)
                 return Polynomial(new_coeffs)
             return None
         return self * (self**(i - 1))
-- 
2.43.0


From 5e98da5a7a48f5136d113e535b2403e5bc483e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 03/23] fix: equal polynomials hash and print the same, however
 they were built

---
 polynomials.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 65c5787..cefed5b 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -287,7 +287,7 @@ class Polynomial:
     @classmethod
     def index_to_str(cls, ind):
         s = ''
-        for i in ind:
+        for i in sorted(ind, key=lambda t: (abs(t), t < 0)):
             if ind[i] != 0:
                 s = s + ' ' + cls.letters(i)
                 if ind[i] != 1:
@@ -308,7 +308,7 @@ class Polynomial:
             for i in sorted(index):
                 c += index[i]
                 ans += abs(index[i]) * [-i]
-            return (c,) + tuple(ans)
+            return (c,) + tuple(ans), sorted(index.items())
 
         s = ''
         filtered = filter(lambda x: self[x] != 0, self.coeffs)
@@ -324,7 +324,9 @@ class Polynomial:
         return s
 
     def __hash__(self):
-        return hash(str(self))
+        if self.is_integer():
+            return hash(self.constant_term())
+        return hash(frozenset((k, v) for k, v in self.coeffs.items() if v != 0))
 
     @classmethod
     def x(cls, i):
-- 
2.43.0


From a2a0dbbc8b3151e118745e003972e4394be801f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 04/23] fix: equal vectors hash the same, whatever their
 printers

---
 vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectors.py b/vectors.py
index eab211a..30f56b1 100644
--- a/vectors.py
+++ b/vectors.py
@@ -9,7 +9,7 @@ class Vector:
         self.multiplier = multiplier
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(frozenset(self.dictionary.items()))
 
     @classmethod
     def print_matrix(cls, matrix):
-- 
2.43.0


From 2002febdac89e755d9d4d8fd346317aa7f41fd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 05/23] fix: shifted row and column removal operators keep the
 coefficients of their argument

---
 operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.py b/operators.py
index f56efb6..8616576 100644
--- a/operators.py
+++ b/operators.py
@@ -67,7 +67,7 @@ def operator_shifted_row_remove(index):
                 mu = Partition.remove_shifted_inner_corner(mu, row)
                 if mu is None:
                     break
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 e += 1
         return ans
     return op
@@ -84,7 +84,7 @@ def operator_shifted_column_remove(index):
             while row is not None:
                 i = i + 1
                 mu = Partition.remove_inner_corner(mu, row)
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 row = Partition.find_shifted_inner_corner(mu, i)
                 e += 1
         return ans
-- 
2.43.0


From b6bd177440d9beaecae49bfe35141ba4624d2450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 06/23] fix: the zeroth power of a permutation is the identity

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4836047..861f963 100644
--- a/permutations.py
+++ b/permutations.py
@@ -919,7 +919,7 @@ class Permutation:
         if n < 0:
             return self.inverse().__pow__(-n)
         elif n == 0:
-            return Permutation.identity(self.rank)
+            return Permutation.identity()
         elif n == 1:
             return Permutation(*self.oneline)
         else:
-- 
2.43.0


From 725a8be46becebd9928bdf4a9fecdabae2028f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 07/23] fix: is_fpf_grassmannian rejects permutations that are
 not fixed-point-free involutions

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 861f963..fa40e78 100644
--- a/permutations.py
+++ b/permutations.py
@@ -343,7 +343,7 @@ class Permutation:
         return self.get_inv_grassmannian(*self.involution_shape()) == self
 
     def is_fpf_grassmannian(self):
-        if not self.is_unsigned() and self.is_fpf_involution():
+        if not (self.is_unsigned() and self.is_fpf_involution()):
             return False
         return self._fpf_grassmannian_shape() is not None
 
-- 
2.43.0


From 75078a14070fa7f591cab8470584a5c31f601d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:12 +0000
Subject: [PATCH 08/23] fix: involution Bruhat covers skip subwords that are
 not reduced

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index fa40e78..e3684d7 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1093,7 +1093,7 @@ class Permutation:
         word = self.get_involution_word()
         for i in range(len(word)):
             w = Permutation.from_involution_word(word[:i] + word[i + 1:])
-            if w.involution_length == self.involution_length - 1:
+            if w is not None and w.involution_length == self.involution_length - 1:
                 yield w
 
     def fpf_involution_bruhat_covers(self):
@@ -1101,7 +1101,7 @@ class Permutation:
         word = self.get_fpf_involution_word()
         for i in range(len(word)):
             w = Permutation.from_fpf_involution_word(word[:i] + word[i + 1:])
-            if w.fpf_involution_length == self.fpf_involution_length - 1:
+            if w is not None and w.fpf_involution_length == self.fpf_involution_length - 1:
                 yield w
 
     def tau(self, i, j):
-- 
2.43.0


From 112f45f9060f8163cb7eee335e577e6fc197eeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 09/23] fix: reading an absent key of a returned tableau count
 no longer alters later results

---
 tableaux.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tableaux.py b/tableaux.py
index fe09bf6..8b228e5 100644
--- a/tableaux.py
+++ b/tableaux.py
@@ -725,7 +725,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard(cls, max_entry, mu, nu=(), setvalued=False):  # noqa
-        return cls._count_semistandard(max_entry, mu, nu, setvalued)
+        return defaultdict(int, cls._count_semistandard(max_entry, mu, nu, setvalued))
 
     @cached_value(COUNT_SEMISTANDARD_CACHE)
     def _count_semistandard(cls, max_entry, mu, lam, setvalued):  # noqa
@@ -752,7 +752,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_marked(cls, max_entry, mu, nu=(), setvalued=False):  # noqa
-        return cls._count_semistandard_marked(max_entry, mu, nu, setvalued)
+        return defaultdict(int, cls._count_semistandard_marked(max_entry, mu, nu, setvalued))
 
     @cached_value(COUNT_SEMISTANDARD_MARKED_CACHE)
     def _count_semistandard_marked(cls, max_entry, mu, lam, setvalued):  # noqa
@@ -781,7 +781,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_shifted_marked(cls, max_entry, mu, nu=(), diagonal_primes=True, setvalued=False):  # noqa
-        return cls._count_semistandard_shifted_marked(max_entry, mu, nu, diagonal_primes, setvalued)
+        return defaultdict(int, cls._count_semistandard_shifted_marked(max_entry, mu, nu, diagonal_primes, setvalued))
 
     @cached_value(COUNT_SEMISTANDARD_SHIFTED_MARKED_CACHE)
     def _count_semistandard_shifted_marked(cls, max_entry, mu, lam, diagonal_primes, setvalued):  # noqa
@@ -811,7 +811,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_rpp(cls, max_entry, mu, nu=()):  # noqa
-        return cls._count_semistandard_rpp(max_entry, mu, nu)
+        return defaultdict(int, cls._count_semistandard_rpp(max_entry, mu, nu))
 
     @cached_value(COUNT_SEMISTANDARD_RPP_CACHE)
     def _count_semistandard_rpp(cls, max_entry, mu, lam):  # noqa
@@ -830,7 +830,7 @@ class Tableau:
 
     @classmethod
     def count_semistandard_marked_rpp(cls, max_entry, mu, nu=(), diagonal_nonprimes=True):  # noqa
-        return cls._count_semistandard_marked_rpp(max_entry, mu, nu, diagonal_nonprimes)
+        return defaultdict(int, cls._count_semistandard_marked_rpp(max_entry, mu, nu, diagonal_nonprimes))
 
     @cached_value(COUNT_SEMISTANDARD_MARKED_RPP_CACHE)
     def _count_semistandard_marked_rpp(cls, max_entry, mu, lam, diagonal_nonprimes):  # noqa
-- 
2.43.0


From 036b88127a095bdc6d13e8f0b3713c2cc06eb612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 10/23] fix: define the functions that the README documents

---
 utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils.py b/utils.py
index 3a68196..8a3f932 100644
--- a/utils.py
+++ b/utils.py
@@ -40,6 +40,15 @@ def shifted_ribbon(alpha):
     return tuple(mu), tuple(nu)
 
 
+schur = SymmetricPolynomial.schur
+schur_P = SymmetricPolynomial.schur_p # noqa
+schur_Q = SymmetricPolynomial.schur_q # noqa
+schur_S = SymmetricPolynomial.schur_s # noqa
+
+dual_grothendieck = SymmetricPolynomial.dual_stable_grothendieck
+dual_grothendieck_P = SymmetricPolynomial.dual_stable_grothendieck_p # noqa
+dual_grothendieck_Q = SymmetricPolynomial.dual_stable_grothendieck_q # noqa
+
 s = SymmetricPolynomial.schur
 P = SymmetricPolynomial.schur_p
 Q = SymmetricPolynomial.schur_q
-- 
2.43.0


From a54f3f13d2a2caedc2f8d96382e8de95bb5dbdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:42 +0000
Subject: [PATCH 11/23] fix: gs and js polynomials vanish when the inner shape
 is not inside the outer one

---
 symmetric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symmetric.py b/symmetric.py
index 74f5208..4d3dd6a 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -420,6 +420,8 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def dual_stable_grothendieck_s(cls, num_variables, mu, nu=()):  # noqa
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
         new_mu = tuple(mu[i] + n - i for i in range(n))
@@ -759,6 +761,8 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def slow_transposed_dual_stable_grothendieck_s(cls, num_variables, mu, nu=(), beta=-BETA):  # noqa
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
         new_mu = tuple(mu[i] + n - i for i in range(n))
-- 
2.43.0


From 88d1d2cf4fcfd9eef57ae82ec2d2ea3aa814e60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 12/23] fix: subtracting and comparing symmetric monomials with
 integers

---
 symmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symmetric.py b/symmetric.py
index 4d3dd6a..05faefe 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -104,10 +104,10 @@ class SymmetricMonomial:
             return self.symmetric_polynomial() + other
 
     def __rsub__(self, other):
-        return self.symmetric_polynomial() * -1 + other
+        return (self - other) * -1
 
     def __sub__(self, other):
-        return self.symmetric_polynomial() + (-1 * other)
+        return self + (-1 * other)
 
     def __rmul__(self, other):
         return self * other
-- 
2.43.0


From 5b843c065a5808d8e378e1179fbd1e93727efe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 13/23] fix: upper transitions of an involution include the
 index just beyond its rank

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index e3684d7..d8e33ee 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1168,7 +1168,7 @@ class Permutation:
         """Yields j > r such that self.tau(r, j) covers self in Bruhat order."""
         assert self.is_involution()
         n = self.rank
-        for i in range(r + 1, n + 1):
+        for i in range(r + 1, max(n, r) + 2):
             if self.tau(r, i).involution_length == self.involution_length + 1:
                 yield i
 
-- 
2.43.0


From 8130d159b48d5871a106fb2dd4cee46948583779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:25 +0000
Subject: [PATCH 14/23] fix: URT and MRT shifted crystal generators can be
 constructed

---
 crystals.py | 55 +++++++++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 29 deletions(-)

diff --git a/crystals.py b/crystals.py
index a700cf5..885ef1f 100644
--- a/crystals.py
+++ b/crystals.py
@@ -210,11 +210,23 @@ class ShiftedCrystalGenerator(CrystalMixin):
                 self.insertion_tableau = p
                 self.tableaux.append(q)
                 #
-                a = Tableau()
-                for j in range(len(w)):
-                    a = a.add(2, j + 1, w[j])
-                    a = a.add(1, j + 1, i[j])
-                self.arrays.append(a)
+                self.arrays.append(self._array(w, i))
+
+    @classmethod
+    def _array(cls, w, i):
+        a = Tableau()
+        for j in range(len(w)):
+            a = a.add(2, j + 1, w[j])
+            a = a.add(1, j + 1, i[j])
+        return a
+
+    def _setup_tableaux_from(self, insertion_tableau):
+        self.insertion_tableau = insertion_tableau
+        self.tableaux = [
+            t for t in Tableau.semistandard_shifted_marked_setvalued(self.rank, self.mu, diagonal_primes=False)
+            if len(t) == sum(self.mu) + self.excess
+        ]
+        self.arrays = [self._array(*self.backward(insertion_tableau, t)) for t in self.tableaux]
 
     def __init__(self, mu, rank, excess, multisetvalued=True, is_symplectic=False):
         self.mu = mu
@@ -261,20 +273,13 @@ class URTShiftedCrystalGenerator(ShiftedCrystalGenerator):
 
     def __init__(self, mu, rank, excess):
         super(URTShiftedCrystalGenerator, self).__init__(mu, rank, excess, False, False)
+
+    def _setup_tableaux(self):
         t = Tableau()
-        for i in range(len(mu)):
-            for j in range(mu[i]):
+        for i in range(len(self.mu)):
+            for j in range(self.mu[i]):
                 t = t.add(i + 1, i + j + 1, len(t) + 1)
-        self.insertion_tableau = t
-
-    @property
-    def tableaux(self):
-        if self._tableaux is None:
-            self._tableaux = [
-                t for t in Tableau.semistandard_shifted_marked_setvalued(self.rank, self.mu, diagonal_primes=False)
-                if len(t) == sum(self.mu) + self.excess
-            ]
-        return self._tableaux
+        self._setup_tableaux_from(t)
 
 
 class MRTShiftedCrystalGenerator(ShiftedCrystalGenerator):
@@ -288,6 +293,7 @@ class MRTShiftedCrystalGenerator(ShiftedCrystalGenerator):
     def __init__(self, mu, rank, excess):
         super(MRTShiftedCrystalGenerator, self).__init__(mu, rank, excess, False, self._SYMPLECTIC)
 
+    def _setup_tableaux(self):
         # t = Tableau()
         # for i in range(1, 1 + len(mu)):
         #     for j in range(1, 1 + i):
@@ -299,19 +305,10 @@ class MRTShiftedCrystalGenerator(ShiftedCrystalGenerator):
         #         t = t.add(k - j, i, m - j)
 
         t = Tableau()
-        for i in range(len(mu)):
-            for j in range(mu[i]):
+        for i in range(len(self.mu)):
+            for j in range(self.mu[i]):
                 t = t.add(i + 1, i + j + 1, 2 * i + j + 1 + int(self.is_symplectic))
-        self.insertion_tableau = t
-
-    @property
-    def tableaux(self):
-        if self._tableaux is None:
-            self._tableaux = [
-                t for t in Tableau.semistandard_shifted_marked_setvalued(self.rank, self.mu, diagonal_primes=False)
-                if len(t) == sum(self.mu) + self.excess
-            ]
-        return self._tableaux
+        self._setup_tableaux_from(t)
 
 
 class MRT_Symplectic_ShiftedCrystalGenerator(MRTShiftedCrystalGenerator): # noqa
-- 
2.43.0


From f4f07320addd34bb611a3ef3a0a4b11303374e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 15/23] fix: istrings follows the operators of the crystal
 itself

---
 crystals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crystals.py b/crystals.py
index 885ef1f..63197c3 100644
--- a/crystals.py
+++ b/crystals.py
@@ -7,7 +7,8 @@ import subprocess
 class CrystalMixin:
 
     def istrings(self, i):
-        ans = [[x] for x in range(len(self)) if self[x].e_crystal_operator(i) is None]
+        targets = {y for (x, y, j) in self.edges if i == j}
+        ans = [[x] for x in range(len(self)) if x not in targets]
         for j in range(len(ans)):
             while True:
                 x = self.f_crystal_operator(ans[j][-1], i)
-- 
2.43.0


From 08fd31b6621d7db82951a8d59190c57011748d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 16/23] fix: printables shows several diagrams side by side

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index d3acfbb..43db919 100644
--- a/partitions.py
+++ b/partitions.py
@@ -182,7 +182,7 @@ class Partition:
         gap = '   ->    '
         lines = []
         for mu in partitions:
-            diagram = cls.printable(mu, shifted).split('\n')
+            diagram = cls.printable(mu, shifted=shifted).split('\n')
             if lines:
                 m = max(len(lines), len(diagram))
                 if len(lines) < m:
-- 
2.43.0


From be4d2076f7e99517bd269518f8b424af410019db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 17/23] fix: from_skew of an empty set of positions terminates

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index 43db919..649a239 100644
--- a/partitions.py
+++ b/partitions.py
@@ -260,7 +260,7 @@ class Partition:
                 nu[i] = nu[i + 1] + (1 if shifted else 0)
                 mu[i] = nu[i]
         nu, mu = cls.trim(nu), cls.trim(mu)
-        while len(nu) == len(mu):
+        while nu and len(nu) == len(mu):
             nu, mu = cls.trim([a - 1 for a in nu]), cls.trim([a - 1 for a in mu])
         return nu, mu
 
-- 
2.43.0


From 01d69de4a3cd34655dac7323fc756ddefe715905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:57 +0000
Subject: [PATCH 18/23] fix: divide_linear finds the variables of the
 polynomial ring

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index cefed5b..840090e 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -138,8 +138,8 @@ class Polynomial:
 
     def divide_linear(self, i, c):
         # divide by x(i) + c
-        ans = self.substitute(i, x(i) - c) * self.monomial(i, -1)
-        return ans.substitute(i, x(i) + c)
+        ans = self.substitute(i, self.x(i) - c) * self.monomial(i, -1)
+        return ans.substitute(i, self.x(i) + c)
 
     def __getitem__(self, i):
         i = HashableDict(i)
-- 
2.43.0


From d3d2d6ad6c88f76da0be09c80f6520fd271b556c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:47 +0000
Subject: [PATCH 19/23] fix: box operators that annihilate their argument
 return the zero vector

---
 operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.py b/operators.py
index 8616576..c987da0 100644
--- a/operators.py
+++ b/operators.py
@@ -20,7 +20,7 @@ def operator_decorator(func):
 def operator_shifted_add(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             row = Partition.find_shifted_inner_corner(mu, abs(index))
             if row is not None:
@@ -57,7 +57,7 @@ def operator_AR(n, var=yvar):  # noqa
 def operator_shifted_row_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
@@ -76,7 +76,7 @@ def operator_shifted_row_remove(index):
 def operator_shifted_column_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
-- 
2.43.0


From 3dac37c35c195c7ebaa22e64d9ea7c02f5b5b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:17 +0000
Subject: [PATCH 20/23] fix: commutator of box operators can be computed

---
 boxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boxes.py b/boxes.py
index c937f47..68fd65b 100644
--- a/boxes.py
+++ b/boxes.py
@@ -1,5 +1,5 @@
 from vectors import Vector
-from polynomials import Polynomial, X
+from polynomials import Polynomial, X, Y
 
 
 def r(i):
@@ -59,7 +59,7 @@ class BoxOperator:
 
     @classmethod
     def commutator(cls, n):
-        x, y = X(1), X(-1)
+        x, y = X(1), Y(-1)
 
         lhs = BoxOperator(0)
         for i in range(n, -n - 1, -1):
-- 
2.43.0


From 6fd03d9a8ecd5e86793800dff8092e8a19c4cf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:35 +0000
Subject: [PATCH 21/23] fix: shifted_ribbons can be listed

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index 649a239..948048b 100644
--- a/partitions.py
+++ b/partitions.py
@@ -400,7 +400,7 @@ class Partition:
         for alpha in cls.compositions(n):
             nu, lam = cls.shifted_ribbon(alpha)
             if (tuple(nu), tuple(lam)) not in seen:
-                for x, y in generate(nu, lam):
+                for x, y in generate(list(nu), list(lam) + (len(nu) - len(lam)) * [0]):
                     x = cls.trim(x)
                     y = cls.trim(y)
                     if (x, y) not in seen:
-- 
2.43.0


From ddc6138dd0d113404d41d3671b6ea8dbb3a030d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:56 +0000
Subject: [PATCH 22/23] fix: read the letter and grouping of the lower box in
 ValuedSetTableau.in_same_group

---
 vst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vst.py b/vst.py
index 3983fe4..d42ce39 100644
--- a/vst.py
+++ b/vst.py
@@ -636,7 +636,7 @@ class ValuedSetTableau:
         if i == x and y + 1 == j:
             return self.in_same_group(x, y, i, j)
         if i + 1 == x and y == j:
-            return bool(self.grouping.get(i, j, default=False)) and self.tableau.get(i, j) < 0
+            return bool(self.grouping.get(x, y, default=False)) and self.tableau.get(x, y) < 0
         if i == x + 1 and y == j:
             return self.in_same_group(x, y, i, j)
         return False
-- 
2.43.0


From 2e2b7a7cde55f94d29f3263a4d0afb4db3742358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:56 +0000
Subject: [PATCH 23/23] fix: count boxes in Tableau.rpp_excess

---
 tableaux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tableaux.py b/tableaux.py
index 8b228e5..483d65b 100644
--- a/tableaux.py
+++ b/tableaux.py
@@ -436,7 +436,7 @@ class Tableau:
         return sum([len(v) - 1 for _, _, v in self])
 
     def rpp_excess(self):
-        return sum([(i, j) for i, j, v in self if v is self.get(i + 1, j)])
+        return len([(i, j) for i, j, v in self if v == self.get(i + 1, j, unpack=False)])
 
     COLUMN_SPACING_OFFSET = 2
 
-- 
2.43.0

