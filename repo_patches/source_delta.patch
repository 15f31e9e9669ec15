From 974b4aaaff924e2dabbd9cddbd7a4dd1df120624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 1/8] fix: Polynomial.__pow__ with a negative exponent raises
 the coefficient to the power too

---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 1088159..2a27ed3 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -232,7 +232,7 @@ class Polynomial:
                     new_ind = ind.copy()
                     for key in new_ind:
                         new_ind[key] *= i
-                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]
+                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind] ** (-i)
                 return Polynomial(new_coeffs)
             return None
         return self * (self**(i - 1))
-- 
2.43.0


From 292253ffea9221f8988110e8cf42fa100b1e1997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 2/8] fix: equal polynomials hash equally, whatever order their
 terms and variables were inserted in

---
 polynomials.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 2a27ed3..3a5ab47 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -324,7 +324,9 @@ class Polynomial:
         return s
 
     def __hash__(self):
-        return hash(str(self))
+        if self.is_integer():
+            return hash(self.constant_term())
+        return hash(frozenset((i, c) for i, c in self.coeffs.items() if c != 0))
 
     @classmethod
     def x(cls, i):
-- 
2.43.0


From de1d38c39ba2981ad323a8c6d1375c12a819c0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:05 +0000
Subject: [PATCH 3/8] fix: equal vectors hash equally, whatever their printers
 and the order of their coefficients' terms

---
 vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vectors.py b/vectors.py
index eab211a..102a0a1 100644
--- a/vectors.py
+++ b/vectors.py
@@ -9,7 +9,7 @@ class Vector:
         self.multiplier = multiplier
 
     def __hash__(self):
-        return hash(str(self))
+        return hash(frozenset(self.items()))
 
     @classmethod
     def print_matrix(cls, matrix):
-- 
2.43.0


From 80ab053e4ac0a49b20e73ceafaf7be2257ba70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:02 +0000
Subject: [PATCH 4/8] fix: Permutation.__pow__(0) returns the identity instead
 of raising TypeError

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4ffe4af..c3903b4 100644
--- a/permutations.py
+++ b/permutations.py
@@ -916,7 +916,7 @@ class Permutation:
         if n < 0:
             return self.inverse().__pow__(-n)
         elif n == 0:
-            return Permutation.identity(self.rank)
+            return Permutation.identity()
         elif n == 1:
             return Permutation(*self.oneline)
         else:
-- 
2.43.0


From 6a51fb08fca76cc88b28f9ad1b6810e40a7f20ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 5/8] fix: Hecke word levels are not skipped when another
 enumeration extends the cache meanwhile

---
 permutations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/permutations.py b/permutations.py
index c3903b4..07520b8 100644
--- a/permutations.py
+++ b/permutations.py
@@ -503,10 +503,11 @@ class Permutation:
         key = (n, ascent_bound)
 
         def generate():
-            for level in HECKE_CACHE[key][:-1]:
+            levels = list(HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if HECKE_CACHE[key]:
-                level = HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
@@ -550,10 +551,11 @@ class Permutation:
         key = (n, ascent_bound, hecke)
 
         def generate():
-            for level in SYMPLECTIC_HECKE_CACHE[key][:-1]:
+            levels = list(SYMPLECTIC_HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if SYMPLECTIC_HECKE_CACHE[key]:
-                level = SYMPLECTIC_HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 a = cls.identity()
                 for i in range(1, n, 2):
@@ -600,10 +602,11 @@ class Permutation:
         key = (n, peak_bound, hecke)
 
         def generate():
-            for level in ORTHOGONAL_HECKE_CACHE[key][:-1]:
+            levels = list(ORTHOGONAL_HECKE_CACHE[key])
+            for level in levels[:-1]:
                 yield level
-            if ORTHOGONAL_HECKE_CACHE[key]:
-                level = ORTHOGONAL_HECKE_CACHE[key][-1]
+            if levels:
+                level = levels[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
-- 
2.43.0


From c7ab8a02ba39623c9de4447df975f8933d5bcba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:33 +0000
Subject: [PATCH 6/8] fix: (fpf) involution Bruhat covers skip subwords that
 are not reduced instead of raising AttributeError

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index 07520b8..f4e84c5 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1093,7 +1093,7 @@ class Permutation:
         word = self.get_involution_word()
         for i in range(len(word)):
             w = Permutation.from_involution_word(word[:i] + word[i + 1:])
-            if w.involution_length == self.involution_length - 1:
+            if w is not None and w.involution_length == self.involution_length - 1:
                 yield w
 
     def fpf_involution_bruhat_covers(self):
@@ -1101,7 +1101,7 @@ class Permutation:
         word = self.get_fpf_involution_word()
         for i in range(len(word)):
             w = Permutation.from_fpf_involution_word(word[:i] + word[i + 1:])
-            if w.fpf_involution_length == self.fpf_involution_length - 1:
+            if w is not None and w.fpf_involution_length == self.fpf_involution_length - 1:
                 yield w
 
     def tau(self, i, j):
-- 
2.43.0


From 71b3bc30624f32119f069eb7c09e855ecc6b5d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 7/8] fix: shifted row and column removal operators are linear:
 keep the coefficient of each term

---
 operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.py b/operators.py
index f56efb6..8616576 100644
--- a/operators.py
+++ b/operators.py
@@ -67,7 +67,7 @@ def operator_shifted_row_remove(index):
                 mu = Partition.remove_shifted_inner_corner(mu, row)
                 if mu is None:
                     break
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 e += 1
         return ans
     return op
@@ -84,7 +84,7 @@ def operator_shifted_column_remove(index):
             while row is not None:
                 i = i + 1
                 mu = Partition.remove_inner_corner(mu, row)
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 row = Partition.find_shifted_inner_corner(mu, i)
                 e += 1
         return ans
-- 
2.43.0


From e6f7e917b21ae87455374f37fbe0e9cd6e625c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:11 +0000
Subject: [PATCH 8/8] fix: shifted operators return the zero vector, so that
 they can be composed, instead of the integer 0

---
 operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.py b/operators.py
index 8616576..c987da0 100644
--- a/operators.py
+++ b/operators.py
@@ -20,7 +20,7 @@ def operator_decorator(func):
 def operator_shifted_add(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             row = Partition.find_shifted_inner_corner(mu, abs(index))
             if row is not None:
@@ -57,7 +57,7 @@ def operator_AR(n, var=yvar):  # noqa
 def operator_shifted_row_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
@@ -76,7 +76,7 @@ def operator_shifted_row_remove(index):
 def operator_shifted_column_remove(index):
     @operator_decorator
     def op(vector):
-        ans = 0
+        ans = Vector()
         for mu, coefficient in vector.items():
             e = 0
             i = abs(index)
-- 
2.43.0

