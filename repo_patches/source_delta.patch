From f16a207de027bdd4a3078ab3a4ddd7ed778d4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 01/17] fix: accept q1 and q2 as quantum parameters when a
 polynomial acts on a class

---
 schubertpy/abstract_grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..66adc32 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -192,8 +192,8 @@ class AbstractGrassmannian(ABC):
         # print("act_lc")
         lc = LinearCombination(lc)
 
-        q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        # q, q1 and q2 are quantum parameters, not special Schubert classes
+        vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From 837f1cba8c83089277212f4546f68061a6cbc351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:42 +0000
Subject: [PATCH 02/17] fix: clone isotropic and orthogonal Grassmannians with
 their own parameters

---
 schubertpy/abstract_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 66adc32..37dad97 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -100,7 +100,7 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
+        return self.__class__(*self.get_type_data()[4:6])
         
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
-- 
2.43.0


From 037d739164d8c7eb256aa506622b9b16d59f8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:48 +0000
Subject: [PATCH 03/17] fix: part2index of a list uses the space's own
 conversion

---
 schubertpy/grassmannian.py            | 2 +-
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..486b20b 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -101,7 +101,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..3101f67 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -114,7 +114,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..8bee014 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -154,7 +154,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
-- 
2.43.0


From 72056a64dd4dcd1d64783e809eb8392b0866a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 04/17] fix: type_swap of a list forwards k

---
 schubertpy/grassmannian.py            | 2 +-
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 486b20b..2128935 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -120,7 +120,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 3101f67..da18e47 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -133,7 +133,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 8bee014..00a7979 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -186,7 +186,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From b013dacd970a24b985218c4b1948a2265f378958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:03 +0000
Subject: [PATCH 05/17] fix: part2pair and pair2part of a list for orthogonal
 Grassmannians

---
 schubertpy/orthogonal_grassmannian.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 00a7979..186ebe6 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -137,7 +137,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
             return part2pair_inner(lc, self._k)
         else:
             lc = LinearCombination(lc)
@@ -146,7 +145,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
             return pair2part_inner(lc)
         else:
             lc = LinearCombination(lc)
-- 
2.43.0


From d170bcda6428cc5089a4420d387845ca73b4a785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:11 +0000
Subject: [PATCH 06/17] fix: heights and signs when several rim hooks are
 removed in qmult_rh

---
 schubertpy/grassmannian.py | 2 +-
 schubertpy/partition.py    | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 2128935..b42fb72 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -205,7 +205,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp)
+            sign = (-1)**abs(height - kp*q_num)
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..fca224f 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -98,6 +98,7 @@ class Partition:
         nrow, ncol = acceptable_grid
         current_partition = self.partition.copy()  # Use a copy to avoid modifying the original partition
         total_rim_hooks_removed = 0  # Initialize the rim hook count
+        total_height = 0  # Initialize the sum of the heights of the removed rim hooks
         
         while True:
             _partition = current_partition + [0]  # Append 0 to handle the difference calculation
@@ -131,18 +132,19 @@ class Partition:
                 # Accumulate the height of the removed rim hook
                 if not _is_non_increasing(_partition):
                     # The partition is not valid after modification
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 _partition = part_clip(_partition)
                 new_partition = Partition(_partition)
+                total_height += skew_partition_height(new_partition.partition, current_partition)
 
                 if new_partition.is_in_range(nrow, ncol):
                     # The new partition fits within the acceptable grid
-                    return new_partition, total_rim_hooks_removed, skew_partition_height(new_partition.partition, self.partition)
+                    return new_partition, total_rim_hooks_removed, total_height
 
                 if new_partition.partition == current_partition:
                     # No further changes can be made; exit the loop
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
+                    return Partition([]), total_rim_hooks_removed, total_height
 
                 # Update the partition for the next iteration
                 current_partition = new_partition.partition
-- 
2.43.0


From ad384e09d04263472a6c7f696f435d05009ab417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 07/17] fix: reject orthogonal Grassmannians of subspaces
 larger than half the space

---
 schubertpy/orthogonal_grassmannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 186ebe6..e026af4 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -37,6 +37,8 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise TypeError("Arguments must be integers")
         if m < 0 or n < 0:
             raise ValueError("Arguments must be non-negative")
+        if 2*m > n:
+            raise ValueError("m must not exceed half of n")
             
         if n % 2 == 1:
             self._type = "B"
-- 
2.43.0


From 0304d1b340f69525a330e67a63b3889885442d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:56 +0000
Subject: [PATCH 08/17] fix: classes and point class of Gr(n,n) and Gr(0,n)

---
 schubertpy/grassmannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index b42fb72..016e78d 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -67,7 +67,7 @@ class Grassmannian(AbstractGrassmannian):
             raise ValueError("Must set type with IG or OG or set_type functions.")
 
         mu = [self._k] * (self._n - self._k)
-        partitions = part_gen(mu)
+        partitions = part_gen(mu) or [[]]
         partitions.sort()
         res = [Schur(lam) for lam in partitions]
         res = unique_schur_list(res)
@@ -90,7 +90,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
-- 
2.43.0


From 46cf261ae34816cb943142852965d7dc86573205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 09/17] fix: schub_type of a Schur class

---
 schubertpy/orthogonal_grassmannian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index e026af4..5397a74 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -194,7 +194,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
-        if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
+        if isinstance(lam, Schur):
+            lam = lam.p
+        if self._type != "D" or not isinstance(lam, list):
             raise ValueError("No type defined.")
         
         if self._k not in lam:
-- 
2.43.0


From 7d37bd1ef6834ffd84ea3022777c47c64ffe2a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:26 +0000
Subject: [PATCH 10/17] fix: pieri of a list returns a LinearCombination in
 types B and C

---
 schubertpy/isotropic_grassmannian.py  | 2 +-
 schubertpy/orthogonal_grassmannian.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index da18e47..12f48b4 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -150,7 +150,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         result = sp.Integer(0)
         for x in pieri_set(i, lam, k, n, 0):
             result += 2**count_comps(lam, x, True, k, 0) * Schur(x)
-        return result
+        return LinearCombination(result)
 
 
     def qpieriC_inner(self, i: int, lam: List[int], k: int, n: int) -> LinearCombination:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 5397a74..9916e85 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -220,7 +220,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         pset = pieri_set(p, lam, k, n, 0)
         for mu in pset:
             result += 2**(count_comps(lam, mu, False, k, 0) - b) * Schur(mu)
-        return result
+        return LinearCombination(result)
 
     def qpieriB_inner(self, p: int, lam: List[int], k: int, n: int) -> LinearCombination:
         q = sp.Symbol('q')
-- 
2.43.0


From 3392fdebf3317ce1728709fc74ddbcd6181acb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 11/17] fix: difference of a linear combination and a number is
 a linear combination

---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..7c1de3d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -70,7 +70,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -79,7 +79,7 @@ class LinearCombination(object):
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
-- 
2.43.0


From c1b95cf3408052e549c32b27951e09d004649175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:53 +0000
Subject: [PATCH 12/17] fix: to_polinomial_str leaves the partition of the
 class alone

---
 schubertpy/schur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..42f58f0 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -164,7 +164,7 @@ class Schur(object):
         - sp.Expr: The polynomial expression.
 
         """
-        res = SchurPol(n, self.partition())
+        res = SchurPol(n, list(self.partition()))
         return str(res.expr).replace('_', '').replace('**', '^')
 
 def unique_schur_list(schur_list: List[Schur]):
-- 
2.43.0


From 3240769172553e963003ffb99ca50b8b3c2fedbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 13/17] fix: schur_expansion leaves out a single q term when
 asked to

---
 schubertpy/lc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 7c1de3d..c45978d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -278,6 +278,8 @@ class LinearCombination(object):
             return (int(expr),[])
         if isSchur(expr):
             return (1, toSchur(str(expr)).partition())
+        if not include_q and not isinstance(expr, sp.Add) and str(expr).__contains__('q'):
+            return []
         if isinstance(expr, sp.Mul):
             if self._count_Schur(expr) > 1:
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
-- 
2.43.0


From 60185c9e4d29db1dc7ecd1c46b8b052c0be52dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 14/17] fix: draw_ascii_partition draws combinations with the
 empty partition

---
 schubertpy/lc.py        | 5 +++--
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index c45978d..efc36dd 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -338,11 +338,12 @@ class LinearCombination(object):
         max_height = 0
         
         for coeff, part in expansion:
-            max_height = max(max_height, len(part))
+            # the empty partition takes a line too, for its coefficient
+            max_height = max(max_height, len(part), 1)
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..e255c00 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if res and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From b315c57b712c7e171683119bf0e72882ad291a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 15/17] fix: classes can be added to, multiplied by and raised
 to the zero combination

---
 schubertpy/schur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 42f58f0..e59ffad 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From c5a43d5b2d4bbaa679566b377f430483a06b4c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 16/17] fix: quantum Pieri of maximal orthogonal Grassmannians
 orders the parts of a class by size, not by set order

---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 9916e85..e91a559 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -298,7 +298,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0


From 9c5d64c6c7b51f8f573b4e76084fc61a3b9c6daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:51 +0000
Subject: [PATCH 17/17] fix: skew_partition_height does not count rows of
 length zero when the inner partition is empty

---
 schubertpy/partition.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index fca224f..1f8e0e6 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -185,9 +185,6 @@ def skew_partition_height(lambda_partition: List[int], mu_partition: List[int])
     2
     """
 
-    if len(lambda_partition) == 0:
-        return len(mu_partition)
-
     # Validation: Ensure lambda is contained within mu
     for i in range(len(lambda_partition)):
         if i >= len(mu_partition):
-- 
2.43.0

