From 7397df431019c85fb1e8a98b8a2067bc95debeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 01/21] fix: zeroth power of a permutation raised TypeError

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4ffe4af..cdbf2a1 100644
--- a/permutations.py
+++ b/permutations.py
@@ -916,7 +916,7 @@ class Permutation:
         if n < 0:
             return self.inverse().__pow__(-n)
         elif n == 0:
-            return Permutation.identity(self.rank)
+            return Permutation()
         elif n == 1:
             return Permutation(*self.oneline)
         else:
-- 
2.43.0


From f8b6068dd98c6b7f521b199cb33a5be283bcc19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 02/21] fix: negative even powers of a monomial with
 coefficient -1 had the wrong sign

---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 1088159..14c0e0c 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -232,7 +232,7 @@ class Polynomial:
                     new_ind = ind.copy()
                     for key in new_ind:
                         new_ind[key] *= i
-                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]
+                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind] ** abs(i)
                 return Polynomial(new_coeffs)
             return None
         return self * (self**(i - 1))
-- 
2.43.0


From 0b1b23434770b34e299c2c2f34b8f1ecb1b48373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 03/21] fix: Polynomial.divide_linear referred to an undefined
 name

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 14c0e0c..b3a2446 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -138,8 +138,8 @@ class Polynomial:
 
     def divide_linear(self, i, c):
         # divide by x(i) + c
-        ans = self.substitute(i, x(i) - c) * self.monomial(i, -1)
-        return ans.substitute(i, x(i) + c)
+        ans = self.substitute(i, self.x(i) - c) * self.monomial(i, -1)
+        return ans.substitute(i, self.x(i) + c)
 
     def __getitem__(self, i):
         i = HashableDict(i)
-- 
2.43.0


From 915b1871512e33496176419f665d8722d978369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 04/21] fix: equal polynomials could print and hash differently

---
 polynomials.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index b3a2446..6d9b795 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -287,7 +287,7 @@ class Polynomial:
     @classmethod
     def index_to_str(cls, ind):
         s = ''
-        for i in ind:
+        for i in sorted(ind):
             if ind[i] != 0:
                 s = s + ' ' + cls.letters(i)
                 if ind[i] != 1:
@@ -308,7 +308,7 @@ class Polynomial:
             for i in sorted(index):
                 c += index[i]
                 ans += abs(index[i]) * [-i]
-            return (c,) + tuple(ans)
+            return (c,) + tuple(ans), sorted(index.items())
 
         s = ''
         filtered = filter(lambda x: self[x] != 0, self.coeffs)
@@ -324,7 +324,7 @@ class Polynomial:
         return s
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(frozenset((k, v) for k, v in self.coeffs.items() if v != 0))
 
     @classmethod
     def x(cls, i):
-- 
2.43.0


From 6c3bbff58704003a0ecac5cada30ec9314c2f267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 05/21] fix: shifted box removal operators ignored the
 coefficients of their argument

---
 operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.py b/operators.py
index f56efb6..8616576 100644
--- a/operators.py
+++ b/operators.py
@@ -67,7 +67,7 @@ def operator_shifted_row_remove(index):
                 mu = Partition.remove_shifted_inner_corner(mu, row)
                 if mu is None:
                     break
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 e += 1
         return ans
     return op
@@ -84,7 +84,7 @@ def operator_shifted_column_remove(index):
             while row is not None:
                 i = i + 1
                 mu = Partition.remove_inner_corner(mu, row)
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 row = Partition.find_shifted_inner_corner(mu, i)
                 e += 1
         return ans
-- 
2.43.0


From fcc20e6f43b56154151c97eafc81e577715c3a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 06/21] fix: box operators returned the int 0, which no
 operator accepts, for a zero result

---
 operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.py b/operators.py
index 8616576..c987da0 100644
--- a/operators.py
+++ b/operators.py
@@ -20,7 +20,7 @@ def operator_decorator(func):
 def operator_shifted_add(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             row = Partition.find_shifted_inner_corner(mu, abs(index))
             if row is not None:
@@ -57,7 +57,7 @@ def operator_AR(n, var=yvar):  # noqa
 def operator_shifted_row_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
@@ -76,7 +76,7 @@ def operator_shifted_row_remove(index):
 def operator_shifted_column_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
-- 
2.43.0


From d336b37af5df63d4c445ff8745da3b3fb78975c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 07/21] fix: Partition.printables and shifted_printables raised
 TypeError

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index d3acfbb..43db919 100644
--- a/partitions.py
+++ b/partitions.py
@@ -182,7 +182,7 @@ class Partition:
         gap = '   ->    '
         lines = []
         for mu in partitions:
-            diagram = cls.printable(mu, shifted).split('\n')
+            diagram = cls.printable(mu, shifted=shifted).split('\n')
             if lines:
                 m = max(len(lines), len(diagram))
                 if len(lines) < m:
-- 
2.43.0


From d90a58fcb1899c0cb97d1cc0a6077b10b82eb21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 08/21] fix: subtracting integers from SymmetricMonomial and
 comparing with them raised TypeError

---
 symmetric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symmetric.py b/symmetric.py
index 74f5208..5a7d71f 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -104,10 +104,10 @@ class SymmetricMonomial:
             return self.symmetric_polynomial() + other
 
     def __rsub__(self, other):
-        return self.symmetric_polynomial() * -1 + other
+        return -(self - other)
 
     def __sub__(self, other):
-        return self.symmetric_polynomial() + (-1 * other)
+        return self + (-1 * other)
 
     def __rmul__(self, other):
         return self * other
-- 
2.43.0


From f77bfb203c3a129132332c5d485104f7acd4fb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:38 +0000
Subject: [PATCH 09/21] fix: gp_free_expansion failed on polynomials with a
 constant term

---
 symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetric.py b/symmetric.py
index 5a7d71f..2de5963 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -535,7 +535,7 @@ class SymmetricPolynomial(Vector):
             mu = max(exp)
             n = max(f).n
             c = exp[mu]
-            g = 1
+            g = cls.dual_stable_grothendieck_p(n, ())
             for part in mu:
                 g *= cls.dual_stable_grothendieck_p(n, (part,))
             ans = cls.gp_free_expansion(f - c * g)
-- 
2.43.0


From edb03e4de9608bbcf892fac99ad15dec168266d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 10/21] fix: the functions documented in the README were not
 exported by utils

---
 utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils.py b/utils.py
index 3a68196..80343ef 100644
--- a/utils.py
+++ b/utils.py
@@ -40,6 +40,15 @@ def shifted_ribbon(alpha):
     return tuple(mu), tuple(nu)
 
 
+schur = SymmetricPolynomial.schur
+schur_P = SymmetricPolynomial.schur_p
+schur_Q = SymmetricPolynomial.schur_q
+schur_S = SymmetricPolynomial.schur_s
+
+dual_grothendieck = SymmetricPolynomial.dual_stable_grothendieck
+dual_grothendieck_P = SymmetricPolynomial.dual_stable_grothendieck_p
+dual_grothendieck_Q = SymmetricPolynomial.dual_stable_grothendieck_q
+
 s = SymmetricPolynomial.schur
 P = SymmetricPolynomial.schur_p
 Q = SymmetricPolynomial.schur_q
-- 
2.43.0


From 568053f4aa59f9afbd6c8aedb2ecbc2a33cea429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:38 +0000
Subject: [PATCH 11/21] fix: Hecke word generators skipped levels when another
 one ran while they were suspended

---
 permutations.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/permutations.py b/permutations.py
index cdbf2a1..2594a7e 100644
--- a/permutations.py
+++ b/permutations.py
@@ -503,10 +503,12 @@ class Permutation:
         key = (n, ascent_bound)
 
         def generate():
-            for level in HECKE_CACHE[key][:-1]:
+            # other generators may extend the cache while this one is suspended
+            levels = list(HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if HECKE_CACHE[key]:
-                level = HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
@@ -550,10 +552,12 @@ class Permutation:
         key = (n, ascent_bound, hecke)
 
         def generate():
-            for level in SYMPLECTIC_HECKE_CACHE[key][:-1]:
+            # other generators may extend the cache while this one is suspended
+            levels = list(SYMPLECTIC_HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if SYMPLECTIC_HECKE_CACHE[key]:
-                level = SYMPLECTIC_HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 a = cls.identity()
                 for i in range(1, n, 2):
@@ -600,10 +604,12 @@ class Permutation:
         key = (n, peak_bound, hecke)
 
         def generate():
-            for level in ORTHOGONAL_HECKE_CACHE[key][:-1]:
+            # other generators may extend the cache while this one is suspended
+            levels = list(ORTHOGONAL_HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if ORTHOGONAL_HECKE_CACHE[key]:
-                level = ORTHOGONAL_HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
-- 
2.43.0


From f87fcd398afaa500cf2445e782ea20da30a61244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 12/21] fix: involution_bruhat_covers and
 fpf_involution_bruhat_covers raised AttributeError on non-reduced subwords

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index 2594a7e..ef86675 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1096,7 +1096,7 @@ class Permutation:
         word = self.get_involution_word()
         for i in range(len(word)):
             w = Permutation.from_involution_word(word[:i] + word[i + 1:])
-            if w.involution_length == self.involution_length - 1:
+            if w is not None and w.involution_length == self.involution_length - 1:
                 yield w
 
     def fpf_involution_bruhat_covers(self):
@@ -1104,7 +1104,7 @@ class Permutation:
         word = self.get_fpf_involution_word()
         for i in range(len(word)):
             w = Permutation.from_fpf_involution_word(word[:i] + word[i + 1:])
-            if w.fpf_involution_length == self.fpf_involution_length - 1:
+            if w is not None and w.fpf_involution_length == self.fpf_involution_length - 1:
                 yield w
 
     def tau(self, i, j):
-- 
2.43.0


From f88bd528399a0c0281ca26394d048bc0612c91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:56 +0000
Subject: [PATCH 13/21] fix: istrings failed on words and used another operator
 than f_crystal_operator elsewhere

---
 crystals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crystals.py b/crystals.py
index a700cf5..3c80756 100644
--- a/crystals.py
+++ b/crystals.py
@@ -7,7 +7,8 @@ import subprocess
 class CrystalMixin:
 
     def istrings(self, i):
-        ans = [[x] for x in range(len(self)) if self[x].e_crystal_operator(i) is None]
+        raised = {y for (_, y, j) in self.edges if i == j}
+        ans = [[x] for x in range(len(self)) if x not in raised]
         for j in range(len(ans)):
             while True:
                 x = self.f_crystal_operator(ans[j][-1], i)
-- 
2.43.0


From 4fe965d8a028cceb438cb0b47e80755bd8c98155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 14/21] fix: URT and MRT crystal generators could not be
 constructed

---
 crystals.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crystals.py b/crystals.py
index 3c80756..8d9a9bb 100644
--- a/crystals.py
+++ b/crystals.py
@@ -262,11 +262,17 @@ class URTShiftedCrystalGenerator(ShiftedCrystalGenerator):
 
     def __init__(self, mu, rank, excess):
         super(URTShiftedCrystalGenerator, self).__init__(mu, rank, excess, False, False)
+
+    def _setup_tableaux(self):
         t = Tableau()
-        for i in range(len(mu)):
-            for j in range(mu[i]):
+        for i in range(len(self.mu)):
+            for j in range(self.mu[i]):
                 t = t.add(i + 1, i + j + 1, len(t) + 1)
         self.insertion_tableau = t
+        self._tableaux = None
+
+    def node_label(self, i):
+        return str(self[i])
 
     @property
     def tableaux(self):
@@ -289,6 +295,7 @@ class MRTShiftedCrystalGenerator(ShiftedCrystalGenerator):
     def __init__(self, mu, rank, excess):
         super(MRTShiftedCrystalGenerator, self).__init__(mu, rank, excess, False, self._SYMPLECTIC)
 
+    def _setup_tableaux(self):
         # t = Tableau()
         # for i in range(1, 1 + len(mu)):
         #     for j in range(1, 1 + i):
@@ -300,10 +307,14 @@ class MRTShiftedCrystalGenerator(ShiftedCrystalGenerator):
         #         t = t.add(k - j, i, m - j)
 
         t = Tableau()
-        for i in range(len(mu)):
-            for j in range(mu[i]):
+        for i in range(len(self.mu)):
+            for j in range(self.mu[i]):
                 t = t.add(i + 1, i + j + 1, 2 * i + j + 1 + int(self.is_symplectic))
         self.insertion_tableau = t
+        self._tableaux = None
+
+    def node_label(self, i):
+        return str(self[i])
 
     @property
     def tableaux(self):
-- 
2.43.0


From f137c4d3837b2cf8acf8de0d05a95b28240033cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:47 +0000
Subject: [PATCH 15/21] fix: from_skew did not terminate on the empty set

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index 43db919..fa071b0 100644
--- a/partitions.py
+++ b/partitions.py
@@ -260,7 +260,7 @@ class Partition:
                 nu[i] = nu[i + 1] + (1 if shifted else 0)
                 mu[i] = nu[i]
         nu, mu = cls.trim(nu), cls.trim(mu)
-        while len(nu) == len(mu):
+        while mu and len(nu) == len(mu):
             nu, mu = cls.trim([a - 1 for a in nu]), cls.trim([a - 1 for a in mu])
         return nu, mu
 
-- 
2.43.0


From 1837dcf0385e307cca5a1c4f9acf79077654a758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:24 +0000
Subject: [PATCH 16/21] fix: shifted_ribbons raised IndexError for every n > 0

---
 partitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/partitions.py b/partitions.py
index fa071b0..b20e7a4 100644
--- a/partitions.py
+++ b/partitions.py
@@ -388,9 +388,9 @@ class Partition:
     def shifted_ribbons(cls, n):
         def generate(nu, lam, ub=None):
             if len(nu) == 0:
-                yield nu, lam
+                yield [], []
             else:
-                lb = lam[0]
+                lb = lam[0] if lam else 0
                 ub = nu[0] if ub is None else min(nu[0], ub)
                 for a in range(lb, ub + 1):
                     for x, y in generate(nu[1:], lam[1:], a - 1):
-- 
2.43.0


From ce49d1ea955d6301a9cd0514c6214fee122496ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:54 +0000
Subject: [PATCH 17/21] fix: weight reversing transitions looked at boxes
 holding unrelated letters

---
 vst.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vst.py b/vst.py
index 3983fe4..856f8ff 100644
--- a/vst.py
+++ b/vst.py
@@ -362,6 +362,7 @@ class ValuedSetTableau:
     @cached_value(MIDDLE_TRANSITION_CACHE)
     def cached_middle_transition(cls, vst, value):  # noqa
         case = None
+        args = [value, -value, value + 1, -value - 1]
         tab, grp = vst.tableau.boxes.copy(), vst.grouping.boxes.copy()
         one_row_groups, two_row_groups, one_col_groups, two_col_groups = vst._get_blocks(value)
 
@@ -413,7 +414,7 @@ class ValuedSetTableau:
                         case = 'R5'
                         tab[x, x] = -value
                         tab[x + 1, x + 1] = value + 1
-                    if vst.grouping.get(x, x) and vst.grouping.get(x + 1, x + 2) is not None:
+                    if vst.grouping.get(x, x) and vst.tableau.get(x + 1, x + 2) in args:
                         assert case is None
                         case = 'R3'
                         grp[x, x] = 0
@@ -470,7 +471,7 @@ class ValuedSetTableau:
                         case = 'C5'
                         tab[x, x] = value + 1
                         tab[x - 1, x - 1] = -value
-                    if vst.grouping.get(x, x) and vst.grouping.get(x - 2, x - 1) is not None:
+                    if vst.grouping.get(x, x) and vst.tableau.get(x - 2, x - 1) in args:
                         assert case is None
                         case = 'C3'
                         grp[x, x] = 0
-- 
2.43.0


From a01973441eeeb29eff3511cb63780223ff5b0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:18 +0000
Subject: [PATCH 18/21] fix: in_same_group looked at the wrong box of vertical
 groups

---
 vst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vst.py b/vst.py
index 856f8ff..5ed1adc 100644
--- a/vst.py
+++ b/vst.py
@@ -637,7 +637,7 @@ class ValuedSetTableau:
         if i == x and y + 1 == j:
             return self.in_same_group(x, y, i, j)
         if i + 1 == x and y == j:
-            return bool(self.grouping.get(i, j, default=False)) and self.tableau.get(i, j) < 0
+            return bool(self.grouping.get(x, y, default=False)) and self.tableau.get(x, y) < 0
         if i == x + 1 and y == j:
             return self.in_same_group(x, y, i, j)
         return False
-- 
2.43.0


From bad98190a5ba6d4906feec9ae4ce1668333a6bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 19/21] fix: BoxOperator.commutator raised AssertionError for
 every n

---
 boxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boxes.py b/boxes.py
index c937f47..68fd65b 100644
--- a/boxes.py
+++ b/boxes.py
@@ -1,5 +1,5 @@
 from vectors import Vector
-from polynomials import Polynomial, X
+from polynomials import Polynomial, X, Y
 
 
 def r(i):
@@ -59,7 +59,7 @@ class BoxOperator:
 
     @classmethod
     def commutator(cls, n):
-        x, y = X(1), X(-1)
+        x, y = X(1), Y(-1)
 
         lhs = BoxOperator(0)
         for i in range(n, -n - 1, -1):
-- 
2.43.0


From b7fb722ad97f21fc173e1c2ec5af34a32121ed3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:05 +0000
Subject: [PATCH 20/21] fix: involution wiring diagrams drew wires that had
 already ended

---
 words.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/words.py b/words.py
index d023f87..e5b34e2 100644
--- a/words.py
+++ b/words.py
@@ -84,20 +84,21 @@ class Word:
                 n * [b + '   '],
             ]
 
-        def switch(n, i, index):
+        def descend(i, index, ended):
+            # the columns of the wires that end above, after passing below letter i
+            if i is None or index in commutations:
+                return ended
+            return {j + (1 if j == i else -1 if j == i + 1 else 0) for j in ended}
+
+        def switch(n, i, index, ended):
             base = baseline(n, index)
 
-            for jndex in commutations:
-                if jndex > index:
-                    j = commutations[jndex]
-                    base[0][j - 1] = '    '
-                    base[1][j - 1] = '    '
-                    base[2][j - 1] = '    '
-                    base[3][j - 1] = '    '
-                    base[0][j] = '    '
-                    base[1][j] = '    '
-                    base[2][j] = '    '
-                    base[3][j] = '    '
+            for j in ended:
+                base[0][j - 1] = '    '
+                base[1][j - 1] = '    '
+                base[2][j - 1] = '    '
+            for j in descend(i, index, ended):
+                base[3][j - 1] = '    '
 
             if i is not None:
                 if index in commutations:
@@ -126,8 +127,12 @@ class Word:
         numbers = '   '.join([str(i) for i in range(1, n + 1)])
         bullets = '   '.join(n * [b]) + '   '
         lines = ['', bullets]
+        ended = set()
         for index, i in enumerate(reversed(word)):
-            lines += switch(n, i, len(word) - index)
+            lines += switch(n, i, len(word) - index, ended)
+            ended = descend(i, len(word) - index, ended)
+            if len(word) - index in commutations:
+                ended = ended | {i, i + 1}
         lines += ['', numbers]
         return '\n'.join(lines) + '\n'
 
-- 
2.43.0


From 49094d76c6228b6f8e9a3da815c34f240d65a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 21/21] fix: TableauCrystalGenerator.all bounded the first part
 instead of the number of rows

---
 crystals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crystals.py b/crystals.py
index 8d9a9bb..8a84195 100644
--- a/crystals.py
+++ b/crystals.py
@@ -106,7 +106,7 @@ class TableauCrystalGenerator(CrystalMixin):
 
     @classmethod
     def all(cls, n, max_entry):
-        for mu in Partition.generate(n, max_entry):
+        for mu in Partition.generate(n, max_row=max_entry):
             cg = cls(mu, max_entry)
             if cg.edges:
                 cg.generate()
-- 
2.43.0

