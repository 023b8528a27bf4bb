From b8d57128fa248982bf4554af03e428686c97b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:48 +0000
Subject: [PATCH 01/74] fix: keep the sampling period when adding two State
 models

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 2bd1796..5edf548 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1979,7 +1979,7 @@ class State:
                 addb = np.vstack((self._b, other.b))
                 addc = np.hstack((self._c, other.c))
                 addd = self._d + other.d
-                return State(adda, addb, addc, addd)
+                return State(adda, addb, addc, addd, dt=self._dt)
             # One of them is SISO and needs to be broadcasted
             else:
                 if self._isSISO:
-- 
2.43.0


From ccd8f58c4e883fe3b7a72b23462286a613b6b3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:51 +0000
Subject: [PATCH 02/74] fix: adding a 1x1 array to a SISO State model recursed
 forever

---
 harold/_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5edf548..5f0a793 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2078,6 +2078,9 @@ class State:
                 if isinstance(s, float):
                     return State(self._a, self._b, self._c, self._d + s,
                                  dt=self._dt)
+                elif s.size == 1:
+                    return State(self._a, self._b, self._c, self._d + s,
+                                 dt=self._dt)
                 # 4
                 else:
                     # Broadcast and send to #6
-- 
2.43.0


From 7daf08c6da6187db82d46feefdc55c0f79d98694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:55 +0000
Subject: [PATCH 03/74] fix: static State plus Transfer returns a State like
 every other mix

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5f0a793..4e125eb 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2013,7 +2013,7 @@ class State:
             # If one of them is a static gain
             elif gainflag == 1:
                 if self._isgain:
-                    return self.to_array() + other
+                    return self.to_array() + transfer_to_state(other)
                 else:
                     return self + other.to_array()
             # No static gains, carry on
-- 
2.43.0


From 604ebe557b914a6e7f8744ccdab5c2ab6c7349d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:04 +0000
Subject: [PATCH 04/74] fix: leading zero coefficients of array and MIMO
 Transfer entries broke the model

---
 harold/_classes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4e125eb..733c03f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1327,6 +1327,21 @@ class Transfer:
         # End of the num, den for loop
         # =============================
 
+        # Leading zero coefficients carry no information, drop them in every
+        # entry no matter in which container it is given
+        def trim_leading_zeros(arr):
+            trimmed = np.trim_zeros(arr.ravel(), 'f')
+            return np.array(trimmed if trimmed.size else [0.], ndmin=2)
+
+        for ind, entry in enumerate(returned_numden_list):
+            if None_flags[ind]:
+                continue
+            elif MIMO_flags[ind]:
+                returned_numden_list[ind] = [[trim_leading_zeros(x)
+                                              for x in y] for y in entry]
+            else:
+                returned_numden_list[ind] = trim_leading_zeros(entry)
+
         # Now we have regularized and also derived the context for
         # both numerator and the denominator. Finally a decision
         # can be made about the intention of the user.
-- 
2.43.0


From 933e7780d5205ba9f14f2ccf9edc09f682ef1358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:05 +0000
Subject: [PATCH 05/74] fix: static State model times a scalar raised a
 TypeError

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 733c03f..1acaaf6 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2318,7 +2318,7 @@ class State:
                     mat = self.to_array() @ s
                 except ValueError:
                     # 1
-                    mat = self.to_array * s
+                    mat = self.to_array() * s
 
                 return State(mat, dt=self._dt)
 
-- 
2.43.0


From ea034b260955324a7dd497cee447d266728e53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:08 +0000
Subject: [PATCH 06/74] fix: product of a SISO and a MIMO static State model
 was rejected

---
 harold/_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 1acaaf6..f470177 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2156,6 +2156,9 @@ class State:
             # If both are static gains
             if gainflag == 2:
                 try:
+                    if self._isSISO or other._isSISO:
+                        return State(self.to_array()*other.to_array(),
+                                     dt=self._dt)
                     return State(self.to_array()@other.to_array(), dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
@@ -2235,6 +2238,9 @@ class State:
             # If both are static gains
             if gainflag == 2:
                 try:
+                    if self._isSISO or other._isSISO:
+                        return State(self.to_array()*other.to_array(),
+                                     dt=self._dt)
                     return State(self.to_array()@other.to_array(), dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
-- 
2.43.0


From a90a5b33ff82d90de43194c7df9b1844aa951be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:10 +0000
Subject: [PATCH 07/74] fix: static State times Transfer returns a State with
 the right gain

---
 harold/_classes.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f470177..a48a391 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2250,10 +2250,7 @@ class State:
 
             # If one of them is a static gain
             elif gainflag == 1:
-                if self._isgain:
-                    return self.to_array() @ other
-                else:
-                    return self @ other.to_array()
+                return self @ transfer_to_state(other)
 
             # No static gains, carry on
             else:
-- 
2.43.0


From c20fb1a9d97f35513e34abcb4c2ff4f964e80244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:13 +0000
Subject: [PATCH 08/74] fix: keep the operand order in Transfer times State
 products

---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index a48a391..d46f7e8 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -694,7 +694,7 @@ class Transfer:
             if not self._dt == other._dt:
                 raise ValueError('The sampling periods don\'t match '
                                  'so I cannot multiply these systems. ')
-            return other*transfer_to_state(self)
+            return transfer_to_state(self) * other
 
         elif isinstance(other, Transfer):
             if not self._dt == other._dt:
@@ -897,7 +897,7 @@ class Transfer:
                                  'so I cannot multiply these systems.')
 
             if isinstance(other, State):
-                return transfer_to_state(self) @ State
+                return transfer_to_state(self) @ other
 
             # 2.
             if other._isSISO:
-- 
2.43.0


From bfe6479cd765bbb49e5b819b9aa8e73df89b9bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:15 +0000
Subject: [PATCH 09/74] fix: use the static gain value, not the numerator, when
 scaling by a Transfer

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d46f7e8..d14b64a 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -705,7 +705,7 @@ class Transfer:
             # For gain, convert to ndarray and let previous case handle it
             if self._isgain:
                 if self._isSISO:
-                    return other * float(self._num)
+                    return other * float(self.to_array())
                 else:
                     # recast as a numpy array and multiply
                     # if denominator has non unity entries
-- 
2.43.0


From de2e610811139f4490fa50e8e517b2ddd1326287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:18 +0000
Subject: [PATCH 10/74] fix: sums of Transfer gains with SISO, row and column
 shapes

---
 harold/_classes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d14b64a..d50315f 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -462,9 +462,7 @@ class Transfer:
             # If both are static gains
             if gainflag == 2:
                 try:
-                    s = self.shape
-                    num = (self.to_array() +
-                           other.to_array()).reshape(*s, 1).tolist()
+                    num = (self.to_array() + other.to_array()).tolist()
                     return Transfer(num, dt=self._dt)
                 except ValueError:
                     raise ValueError('Shapes are not compatible for '
@@ -572,7 +570,7 @@ class Transfer:
                                      'shape is {0} but the array shape is {1}.'
                                      ''.format(self._shape, other.shape))
 
-                return Transfer(mat, dt=self._dt)
+                return Transfer(mat.tolist(), dt=self._dt)
 
             elif self._isSISO:
                 # 3
@@ -586,7 +584,8 @@ class Transfer:
             else:
                 # 5
                 if isinstance(s, float):
-                    return self + Transfer(np.ones(self.shape)*s, dt=self._dt)
+                    return self + Transfer((np.ones(self.shape)*s).tolist(),
+                                           dt=self._dt)
                 # 6
                 if self.shape != other.shape:
                     raise ValueError('Shapes are not compatible for '
-- 
2.43.0


From 671be983dd1ef5839706d611aabe296ad912cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:21 +0000
Subject: [PATCH 11/74] fix: adding SISO and MIMO Transfer models used missing
 attributes

---
 harold/_classes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index d50315f..9e9fdea 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -523,15 +523,15 @@ class Transfer:
             # One of them is SISO and will be broadcasted here
             else:
                 if self._isSISO:
-                    return other +\
-                        Transfer([[self._num]*other.m for n in range(other.p)],
-                                 [[self._den]*other.m for n in range(other.p)],
-                                 self._dt)
+                    p, m = other.shape
+                    return other + Transfer([[self._num]*m for n in range(p)],
+                                            [[self._den]*m for n in range(p)],
+                                            self._dt)
                 else:
-                    return self +\
-                        Transfer([[other.num]*other.m for n in range(other.p)],
-                                 [[other.den]*other.m for n in range(other.p)],
-                                 self._dt)
+                    p, m = self._shape
+                    return self + Transfer([[other.num]*m for n in range(p)],
+                                           [[other.den]*m for n in range(p)],
+                                           self._dt)
 
         # Regularize arrays and scalars and consistency checks
         elif isinstance(other, (int, float, np.ndarray)):
-- 
2.43.0


From 687ca6c0d9d2e26005f457bbfc81c072f1d37bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:24 +0000
Subject: [PATCH 12/74] fix: array times Transfer passed the sampling period as
 a denominator

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 9e9fdea..374fb02 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -955,7 +955,7 @@ class Transfer:
             else:
                 arr = other.real
 
-            return Transfer(arr.tolist(), self._dt) @ self
+            return Transfer(arr.tolist(), dt=self._dt) @ self
 
         elif isinstance(other, (int, float)):
             return self * other
-- 
2.43.0


From 63dc1766ad4e5a2cd2385fb9711eeb6e759e07f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:27 +0000
Subject: [PATCH 13/74] fix: Transfer times arrays with 1D and row or column
 gain shapes

---
 harold/_classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 374fb02..1643c21 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -868,7 +868,7 @@ class Transfer:
 
             # If self is gain, this is just matrix multiplication
             if self._isgain:
-                return Transfer(self.to_array() @ arr, dt=self._dt)
+                return Transfer((self.to_array() @ arr).tolist(), dt=self._dt)
 
             tp, tm = self._shape[0], arr.shape[1]
 
@@ -879,7 +879,7 @@ class Transfer:
                 for c in range(tm):
                     t_G = Transfer(0, 1, dt=self._dt)
                     for ind in range(self._m):
-                        t_G += self[r, ind] * other[ind, [c]]
+                        t_G += self[r, ind] * arr[ind, [c]]
                     newnum[r][c] = t_G.num
                     newden[r][c] = t_G.den
 
-- 
2.43.0


From 8517de835a262db5b61075d70665562274ae7332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:46:29 +0000
Subject: [PATCH 14/74] fix: array divided by a MIMO Transfer is a matrix
 product with the inverse

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 1643c21..f2bcf83 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -831,7 +831,7 @@ class Transfer:
             num_inv, den_inv = state_to_transfer((ai, bi, ci, di),
                                                  output='polynomials')
 
-            return other * Transfer(num_inv, den_inv, dt=self._dt)
+            return other @ Transfer(num_inv, den_inv, dt=self._dt)
 
     def __matmul__(self, other):
         # @-multiplication has the following rationale, first two items
-- 
2.43.0


From 60e0c62ff444652ed4d872b8f6edeac646e4b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:48:33 +0000
Subject: [PATCH 15/74] fix: 1D arrays multiplying State models from either
 side

---
 harold/_classes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index f2bcf83..120c291 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2298,7 +2298,8 @@ class State:
                     s = other.real
 
                 # Early shape check
-                if self._shape[1] != other.shape[0] and not self._isSISO:
+                if not (self._isSISO or isinstance(s, float)) and \
+                        self._shape[1] != s.shape[0]:
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. State shape is {0}'
                                      ' but the array shape is {1}.'
@@ -2388,7 +2389,8 @@ class State:
                     s = other.real
 
                 # Early shape check
-                if self._shape[0] != other.shape[1] and not self._isSISO:
+                if not (self._isSISO or isinstance(s, float)) and \
+                        self._shape[0] != s.shape[1]:
                     raise ValueError('Shapes are not compatible for '
                                      'multiplication. Model shape is {0} but'
                                      ' the array shape is {1}.'
-- 
2.43.0


From 6e9f41cdf140b791fd4a613e2527d4a69f960a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:02 +0000
Subject: [PATCH 16/74] fix: feedback of two static models when one of the
 gains is zero

---
 harold/_bd_algebra.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 2ad4499..810baad 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -88,8 +88,7 @@ def feedback(G, H, negative=True):
 
     # if both are static
     if g._isgain and h._isgain:
-        if np.any(d) and np.any(n):
-            mat = d + sign * (d @ solve(delta, n @ d))
+        mat = d + sign * (d @ solve(delta, n @ d))
 
         return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
     # if both are dynamic
-- 
2.43.0


From 5deebf2f80bddac8d12a8d73ac0d57527848a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:05 +0000
Subject: [PATCH 17/74] fix: feedback and state_to_transfer of row or column
 gains keep the shape

---
 harold/_bd_algebra.py | 3 ++-
 harold/_classes.py    | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/harold/_bd_algebra.py b/harold/_bd_algebra.py
index 810baad..574f7ae 100644
--- a/harold/_bd_algebra.py
+++ b/harold/_bd_algebra.py
@@ -90,7 +90,8 @@ def feedback(G, H, negative=True):
     if g._isgain and h._isgain:
         mat = d + sign * (d @ solve(delta, n @ d))
 
-        return Transfer(mat, dt=dt) if conv_tf else State(mat, dt=dt)
+        return (Transfer(mat.tolist(), dt=dt) if conv_tf
+                else State(mat, dt=dt))
     # if both are dynamic
     elif (not g._isgain) and (not h._isgain):
         acl = np.block([[a, np.zeros([n1, n2]), b],
diff --git a/harold/_classes.py b/harold/_classes.py
index 120c291..3ad6f15 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2848,7 +2848,7 @@ def state_to_transfer(state_or_abcd, output='system'):
     if it_is_gain:
         if output == 'p':
             return D, np.ones_like(D)
-        return Transfer(D, dt=dt)
+        return Transfer(D.tolist(), dt=dt)
 
     n = A.shape[0]
 
-- 
2.43.0


From 07523cf2f8ecbf37d96aae387fb231b081659728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:12 +0000
Subject: [PATCH 18/74] fix: reject sums of multichannel Transfer models with
 different shapes

---
 harold/_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 3ad6f15..e812b11 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -474,6 +474,11 @@ class Transfer:
 
             sisoflag = sum([self._isSISO, other._isSISO])
 
+            if sisoflag == 0 and self._shape != other.shape:
+                raise ValueError('Shapes are not compatible for '
+                                 'addition. Model shapes are {0} and'
+                                 ' {1}'.format(self._shape, other.shape))
+
             # Both SISO or both MIMO
             if sisoflag in [0, 2]:
 
-- 
2.43.0


From e9a83ab9034be180cc3cc2d5bc1ac96ed14f1a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:14 +0000
Subject: [PATCH 19/74] fix: haroldpolymul with array_like arguments and a
 leading zero polynomial

---
 harold/_polynomial_ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index b96a5dc..6fe4f3d 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -419,14 +419,14 @@ def haroldpolymul(*args, trim_zeros=True):
     """
 
     if trim_zeros:
-        trimmedargs = [np.trim_zeros(x.flatten(), 'f') for x in args]
+        trimmedargs = [np.trim_zeros(np.ravel(x), 'f') for x in args]
     else:
-        trimmedargs = args
+        trimmedargs = [np.asarray(x) for x in args]
 
     p = trimmedargs[0]
 
     for x in trimmedargs[1:]:
-        if x.size == 0:  # it was all zeros
+        if p.size == 0 or x.size == 0:  # it was all zeros
             p = []
             break
         p = np.convolve(p, x)
-- 
2.43.0


From d3810700d806ff880786688090a597665df3d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:17:17 +0000
Subject: [PATCH 20/74] fix: reject zero denominators in Transfer models

---
 harold/_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index e812b11..f0b4314 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -1346,6 +1346,12 @@ class Transfer:
             else:
                 returned_numden_list[ind] = trim_leading_zeros(entry)
 
+        if not None_flags[1]:
+            dens = (chain.from_iterable(returned_numden_list[1])
+                    if MIMO_flags[1] else returned_numden_list[1:])
+            if not all(np.any(x) for x in dens):
+                raise ValueError('The denominator entries cannot be zero.')
+
         # Now we have regularized and also derived the context for
         # both numerator and the denominator. Finally a decision
         # can be made about the intention of the user.
-- 
2.43.0


From 3564964a16e0c64829bc965d9ca92367ed3601e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:04 +0000
Subject: [PATCH 21/74] fix: haroldker returns the right singular vectors of
 the null space

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 540bda2..2872b1b 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -142,7 +142,7 @@ def haroldker(N, side='right'):
         # If full rank and not fat, return trivial zero
         return np.zeros((A.shape[1], 1))
     else:
-        return V[:, r:]
+        return V[r:, :].conj().T
 
 
 def pair_complex_numbers(a, tol=1e-9, realness_tol=1e-9,
-- 
2.43.0


From 98afb2c0794b38f5484d72287929d1ddc454c4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:07 +0000
Subject: [PATCH 22/74] fix: matrix_slice north-east corner uses the corner row
 count

---
 harold/_aux_linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_aux_linalg.py b/harold/_aux_linalg.py
index 2872b1b..c334a1f 100644
--- a/harold/_aux_linalg.py
+++ b/harold/_aux_linalg.py
@@ -434,7 +434,7 @@ def matrix_slice(M, corner_shape, corner='nw'):
     if corner == 'nw':
         p, m = z, w
     elif corner == 'ne':
-        p, m = x, y - w
+        p, m = z, y - w
     elif corner == 'sw':
         p, m = x - z, w
     else:
-- 
2.43.0


From 0fcc7a3ef4882eb46f1160bd6c131d8211d0d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:33 +0000
Subject: [PATCH 23/74] fix: return 1 as the gcd of a polynomial and constants

---
 harold/_polynomial_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index 6fe4f3d..adb9783 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -227,8 +227,9 @@ def haroldgcd(*args):
     if n == 0:
         return np.array([1])
 
+    # Constants have no common root with any polynomial
     if n > 0 and p == 0:
-        return arr_args.pop(max_degree_index)
+        return np.array([1])
 
     # pop out the max degree polynomial and zero pad
     # such that we have n+m columns
-- 
2.43.0


From c7a33e29bcab9fe424b0490086f3952e5495f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:36 +0000
Subject: [PATCH 24/74] fix: ignore leading zeros of the polynomials given to
 haroldlcm

---
 harold/_polynomial_ops.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_polynomial_ops.py b/harold/_polynomial_ops.py
index adb9783..8c564ce 100644
--- a/harold/_polynomial_ops.py
+++ b/harold/_polynomial_ops.py
@@ -78,6 +78,9 @@ def haroldlcm(*args, compute_multipliers=True, cleanup_threshold=1e-9):
     if not all([x.size > 0 for x in args]):
         raise ValueError('Empty arrays are not allowed.')
 
+    # Leading zeros don't count towards the degree
+    args = [np.trim_zeros(a, 'f') if a.any() else a for a in args]
+
     # All scalars
     if all([x.size == 1 for x in args]):
         if compute_multipliers:
-- 
2.43.0


From 121913804ff2ab3dcaa9de3cc74acb424c57fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:01 +0000
Subject: [PATCH 25/74] fix: undiscretize static gain models

---
 harold/_discrete_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 33fe0ce..2584283 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -268,13 +268,13 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
 
     if isinstance(G, Transfer):
         if G._isgain:
-            return Transfer(G.to_array)
+            return Transfer(G.to_array().tolist())
         T = transfer_to_state(G)
         undiscretized_args = _undiscretize(T, dt, method, prewarp_at, q)
         return state_to_transfer(State(*undiscretized_args))
     else:
         if G._isgain:
-            return State(G.to_array)
+            return State(G.to_array())
         undiscretized_args = _undiscretize(G, dt, method, prewarp_at, q)
         return State(*undiscretized_args)
 
-- 
2.43.0


From f29ea44519397ebbc727c9441bee9eb667e7112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:05 +0000
Subject: [PATCH 26/74] fix: keep the shape of row and column Transfer gains in
 discretize

---
 harold/_discrete_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 2584283..64f12ed 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -109,8 +109,8 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
 
     if G._isgain:
         # Method doesn't matter
-        Gd = Transfer(G.to_array(), dt=dt) if isinstance(G, Transfer) else \
-                                                    State(G.to_array(), dt=dt)
+        Gd = Transfer(G.to_array().tolist(), dt=dt) if \
+            isinstance(G, Transfer) else State(G.to_array(), dt=dt)
         Gd.SamplingPeriod = dt
     else:
         discretized_args = _discretize(T, dt, method, prewarp_at, q)
-- 
2.43.0


From 346e33de66aef9a059f6f2b78cea3f9484ff28e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:08 +0000
Subject: [PATCH 27/74] fix: invert the prewarped tustin map in undiscretize

---
 harold/_discrete_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 64f12ed..d9d14d7 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -361,7 +361,7 @@ def _undiscretize(T, dt, method, prewarp_at, q):
                                  ' allowed is {1} Hz.'.format(dt, 1/(2*dt)))
             prew_rps = 2 * np.pi * prewarp_at
             sq2tan = np.sqrt(2*np.tan(prew_rps * dt / 2)/prew_rps)
-            q = np.array([[-2/sq2tan**2, 1/sq2tan], [1/sq2tan, -1]])
+            q = np.array([[-2/sq2tan**2, 2/sq2tan], [2/sq2tan, -1]])
 
         Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
 
-- 
2.43.0


From 3701ef82ae6cf762d9b5a7570fd926cf0f43eb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:12 +0000
Subject: [PATCH 28/74] fix: undiscretize with the recorded prewarp frequency

---
 harold/_discrete_funcs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index d9d14d7..7d71bde 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -255,6 +255,8 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
             method = 'tustin'
         else:
             method = G.DiscretizedWith
+            if prewarp_at == 0. and G.PrewarpFrequency is not None:
+                prewarp_at = G.PrewarpFrequency
 
     if method == 'lft':
         if G.DiscretizationMatrix is None and q is None:
-- 
2.43.0


From eccbddf6a350368d2d35cecf6ea5329520b5b852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:40:40 +0000
Subject: [PATCH 29/74] fix: invert the lft discretization map in undiscretize

---
 harold/_discrete_funcs.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 7d71bde..8c3ede8 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -398,7 +398,15 @@ def _undiscretize(T, dt, method, prewarp_at, q):
         if q is None:
             raise ValueError('"lft" method requires a 2x2 interconnection '
                              'matrix "q" between s and z indeterminates.')
-        Ac, Bc, Cc, Dc = _simple_lft_connect(q, T.a, T.b, T.c, T.d)
+        q = np.asarray(q)
+        if q.shape != (2, 2):
+            raise ValueError('q must be exactly a 2x2 array')
+        # z = q11 + q12 s (1 - s q22)⁻¹ q21 solved for s
+        q11, q12, q21, q22 = q.ravel()
+        Aq = T.a - q11*eye(n)
+        M = solve(q22*Aq + q12*q21*eye(n), eye(n))
+        Ac, Bc, Cc = Aq @ M, q21*(M @ T.b), q12*(T.c @ M)
+        Dc = T.d - q22*(T.c @ M @ T.b)
 
     return Ac, Bc, Cc, Dc
 
-- 
2.43.0


From 834640ec69c84412531b7ba316e34589ed738748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:36 +0000
Subject: [PATCH 30/74] fix: discretize and undiscretize Transfers that cancel
 to a gain

---
 harold/_discrete_funcs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/harold/_discrete_funcs.py b/harold/_discrete_funcs.py
index 8c3ede8..a996962 100644
--- a/harold/_discrete_funcs.py
+++ b/harold/_discrete_funcs.py
@@ -107,10 +107,10 @@ def discretize(G, dt, method='tustin', prewarp_at=0., q=None):
     else:
         T = G
 
-    if G._isgain:
+    if T._isgain:
         # Method doesn't matter
-        Gd = Transfer(G.to_array().tolist(), dt=dt) if \
-            isinstance(G, Transfer) else State(G.to_array(), dt=dt)
+        Gd = Transfer(T.to_array().tolist(), dt=dt) if \
+            isinstance(G, Transfer) else State(T.to_array(), dt=dt)
         Gd.SamplingPeriod = dt
     else:
         discretized_args = _discretize(T, dt, method, prewarp_at, q)
@@ -269,9 +269,9 @@ def undiscretize(G, method=None, prewarp_at=0., q=None):
                 q = G.DiscretizationMatrix
 
     if isinstance(G, Transfer):
-        if G._isgain:
-            return Transfer(G.to_array().tolist())
         T = transfer_to_state(G)
+        if T._isgain:
+            return Transfer(T.to_array().tolist())
         undiscretized_args = _undiscretize(T, dt, method, prewarp_at, q)
         return state_to_transfer(State(*undiscretized_args))
     else:
-- 
2.43.0


From 1f8d05ad4083b219b533fa199b109b5a04a3b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:09 +0000
Subject: [PATCH 31/74] fix: accept the initial condition of single state
 models in simulations

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 7901fe6..098cd35 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -66,7 +66,7 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
         if isinstance(sys, Transfer):
             raise ValueError('Transfer models can\'t have initial conditions '
                              'set.')
-        x0 = np.asarray(x0, dtype=float).squeeze()
+        x0 = atleast_1d(np.asarray(x0, dtype=float).squeeze())
         if x0.ndim > 1:
             raise ValueError('Initial condition can only be a 1D array.')
         else:
-- 
2.43.0


From 486fc7537e9354d15290d3314c12562e998835d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:12 +0000
Subject: [PATCH 32/74] fix: simulate inputs with a single sample

---
 harold/_time_domain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 098cd35..c20dd57 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -85,7 +85,9 @@ def simulate_linear_system(sys, u, t=None, x0=None, per_channel=False):
     n, m = sys.NumberOfStates, sys.shape[1]
 
     is_discrete = sys.SamplingSet == 'Z'
-    u = np.asarray(u, dtype=float).squeeze()
+    u = np.asarray(u, dtype=float)
+    if u.ndim != 2 or u.shape[1] != m:
+        u = atleast_1d(u.squeeze())
     if u.ndim == 1:
         u = u[:, None]
 
-- 
2.43.0


From 3378d7e9b055613772a33270b4f803004111bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:15 +0000
Subject: [PATCH 33/74] fix: automatic time grid of discrete models with
 unstable negative real poles

---
 harold/_time_domain.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index c20dd57..60f3e17 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -330,8 +330,10 @@ def _compute_tfinal_and_dt(sys, is_step=True):
         p_u, p = p[m_u], p[~m_u]
         if p_u.size > 0:
             m_u = (p_u.real < 0) & (np.abs(p_u.imag) < sqrt_eps)
-            t_emp = np.max(log_decay_percent / np.abs(np.log(p_u[~m_u])/dt))
-            tfinal = max(tfinal, t_emp)
+            if not np.all(m_u):
+                t_emp = np.max(log_decay_percent /
+                               np.abs(np.log(p_u[~m_u])/dt))
+                tfinal = max(tfinal, t_emp)
 
         # zero - negligible effect on tfinal
         m_z = np.abs(p) < sqrt_eps
-- 
2.43.0


From 4a3005a47a5dcd751b1bfb9cb2afdbd6a9fe1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:18 +0000
Subject: [PATCH 34/74] fix: automatic time grid of discrete models with large
 sampling periods

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 60f3e17..ccaf711 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -362,7 +362,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
             tfinal = tfinal * 5
 
         # Make tfinal an integer multiple of dt
-        num_samples = tfinal // dt
+        num_samples = max(tfinal // dt, 1)
         if num_samples > max_points_z:
             tfinal = dt * max_points_z
         else:
-- 
2.43.0


From 32590d95feff23b0a41d52db9dcb2089f91d51f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:21 +0000
Subject: [PATCH 35/74] fix: return a copy of the time array from simulations

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index ccaf711..9ac6bd2 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -449,7 +449,7 @@ def _check_u_and_t_for_simulation(m, dt, u, t, isdiscrete):
             u_samples = len(u)
             t = np.linspace(0, (u_samples-1)*dt, num=u_samples)
     else:
-        t = np.asarray(t, dtype=float).squeeze()
+        t = np.array(t, dtype=float).squeeze()
         if t.ndim != 1:
             raise ValueError('Time array needs to be a 1D array.')
         t_diff = np.diff(t)
-- 
2.43.0


From b4dff30dd88638e43800412461ea2ec863775c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:57 +0000
Subject: [PATCH 36/74] fix: automatic time grid of discrete models with a pole
 at -1

---
 harold/_time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_time_domain.py b/harold/_time_domain.py
index 9ac6bd2..b390f22 100644
--- a/harold/_time_domain.py
+++ b/harold/_time_domain.py
@@ -363,7 +363,7 @@ def _compute_tfinal_and_dt(sys, is_step=True):
 
         # Make tfinal an integer multiple of dt
         num_samples = max(tfinal // dt, 1)
-        if num_samples > max_points_z:
+        if not num_samples <= max_points_z:
             tfinal = dt * max_points_z
         else:
             tfinal = dt * num_samples
-- 
2.43.0


From 80f9938020c08efad6db1717418ba2244b8898d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:04 +0000
Subject: [PATCH 37/74] fix: frequency response of static gains on the
 requested grid

---
 harold/_frequency_domain.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 3b623f0..6afbf4b 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -56,16 +56,9 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
 
     if G._isgain:
         if G._isSISO:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = array([1]*2)*G.num[0, 0]
-            else:
-                fr_arr = array([1]*2)*G.d[0, 0]
+            fr_arr = array([1]*len(w))*G.to_array()[0, 0]
         else:
-            if type(G).__name__ == 'Transfer':
-                fr_arr = zeros((2,)+G.shape) + G.to_array()
-            else:
-                fr_arr = zeros((2,)+G.shape) + G.d
-
+            fr_arr = zeros((len(w),)+G.shape) + G.to_array()
             fr_arr = rollaxis(fr_arr, 0, 3)
     else:
         p, m = G.shape
-- 
2.43.0


From fa7b178e8c098b579fbb123b163cda93a92f5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:07 +0000
Subject: [PATCH 38/74] fix: convert frequency units regardless of their letter
 case

---
 harold/_frequency_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index 6afbf4b..c43c62e 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -104,7 +104,7 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
                                 )
                 fr_arr = rollaxis(rollaxis(fr_arr, 0, 3), 1)
 
-    return fr_arr, w if output_unit == 'rad/s' else w/2/np.pi
+    return fr_arr, w if output_unit.lower() == 'rad/s' else w/2/np.pi
 
 
 def _State_freq_resp(mA, mb, sc, f, dt=None):
@@ -195,7 +195,7 @@ def _get_freq_grid(G, w, samples, iu, ou):
             raise ValueError('The frequency array should be a 1D float array')
 
         # convert the internal array to rad/s
-        if iu == 'Hz':
+        if iu.lower() == 'hz':
             w_u *= 2*np.pi
 
         # Discrete time behavior doesn't make sense beyond Nyquist freq.
-- 
2.43.0


From 631e320c3425efeafb5056bb2e2cc44a31fca7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:11 +0000
Subject: [PATCH 39/74] fix: avoid zero pivots in the frequency response of
 State models

---
 harold/_frequency_domain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index c43c62e..bec4dc2 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -145,6 +145,9 @@ def _State_freq_resp(mA, mb, sc, f, dt=None):
         U[:, :] = Ab  # Working copy
         U[imag_indices] += val*1j if dt is None else np.exp(dt*val*1j)
         for x in range(1, nn):
+            # Swap rows to avoid dividing by small pivots
+            if abs(U[x, x-1]) > abs(U[x-1, x-1]):
+                U[[x-1, x]] = U[[x, x-1]]
             U[x, x:] -= (U[x, x-1] / U[x-1, x-1]) * U[x-1, x:]
 
         r[ind, :] = U[-1, -m:] / U[-1, -1-m]
-- 
2.43.0


From 1d5a0bf50e789d7e47a6b9b5915c0c5ab6fe581e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:58 +0000
Subject: [PATCH 40/74] fix: integer right-hand sides were truncated in the
 Lyapunov solvers

---
 harold/_solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index bcdf78e..38581c5 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -203,7 +203,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -365,7 +365,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -528,7 +528,7 @@ def _solve_continuous_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
@@ -653,7 +653,7 @@ def _solve_discrete_lyapunov(A, Y):
     bz = bz[~np.isnan(bz)].astype(int)
     bs = [0] + np.cumsum(bz[:-1]).tolist() + [None]
     total_blk = bz.size
-    Xs = np.empty_like(Y)
+    Xs = np.empty_like(Ys)
 
     # =============================
     #  Main Loop
-- 
2.43.0


From 5dc3fb8919146a18cd8c06beeddbfa4a7e197328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:01 +0000
Subject: [PATCH 41/74] fix: generalized discrete Lyapunov solver overwrote its
 arguments

---
 harold/_solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index 38581c5..3ac0f13 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -349,7 +349,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     if A.shape[0] < 3:
         return mini_sylvester(A, E, Y)
 
-    As, Es, Q, Z = qz(A, E, overwrite_a=True, overwrite_b=True)
+    As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = As.shape[0]
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
-- 
2.43.0


From b1c627deedfe5bf80c891ea0f5ed1c4a29f1f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:04 +0000
Subject: [PATCH 42/74] fix: generalized Lyapunov solvers missed 2x2 blocks of
 small matrices

---
 harold/_solvers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/harold/_solvers.py b/harold/_solvers.py
index 3ac0f13..7589aae 100644
--- a/harold/_solvers.py
+++ b/harold/_solvers.py
@@ -119,7 +119,7 @@ def lyapunov_eq_solver(A, Y, E=None, form='c'):
     return X_sol
 
 
-def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
+def _solve_continuous_generalized_lyapunov(A, E, Y):
     '''
     Solves
 
@@ -193,7 +193,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     As, Es, Q, Z = qz(A, E)
     Ys = Z.T @ Y @ Z
     n = A.shape[0]
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > 0
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
@@ -284,7 +284,7 @@ def _solve_continuous_generalized_lyapunov(A, E, Y, tol=1e-12):
     return Q @ Xs @ Q.T
 
 
-def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
+def _solve_discrete_generalized_lyapunov(A, E, Y):
     '''
     Solves
 
@@ -355,7 +355,7 @@ def _solve_discrete_generalized_lyapunov(A, E, Y, tol=1e-12):
     # If there are nontrivial entries on the subdiagonal, we have a 2x2 block.
     # Based on that we have the block sizes `bz` and starting positions `bs`.
 
-    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > tol
+    subdiag_entries = np.abs(As[range(1, n), range(0, n-1)]) > 0
     subdiag_indices = [ind for ind, x in enumerate(subdiag_entries) if x]
     bz = np.ones(n)
     for x in subdiag_indices:
-- 
2.43.0


From 3735a944e8f93fcaa9818e709a486814e0ebfe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:21 +0000
Subject: [PATCH 43/74] fix: H2 norm of discrete models with feedthrough is
 finite

---
 harold/_system_props.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 28255fc..fba7b50 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -71,7 +71,8 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
     # 2-norm
     if p == 2:
         # Handle trivial infinities
-        if not np.allclose(T.d, np.zeros_like(T.d)) or (not T._isstable):
+        if not T._isstable or (T.SamplingSet == 'R' and
+                               not np.allclose(T.d, np.zeros_like(T.d))):
             return np.Inf
 
         if T.SamplingSet == 'R':
-- 
2.43.0


From af2ac35e2a188937747df8f3b873467dafedff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:24 +0000
Subject: [PATCH 44/74] fix: system norms of static gains

---
 harold/_system_props.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index fba7b50..49a1ebf 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -75,6 +75,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
                                not np.allclose(T.d, np.zeros_like(T.d))):
             return np.Inf
 
+        if T._isgain:
+            return norm(d)
+
         if T.SamplingSet == 'R':
             x = lyapunov_eq_solver(a.T, b @ b.T)
             return np.sqrt(np.trace(c @ x @ c.T))
@@ -86,6 +89,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if not T._isstable:
             return np.Inf
 
+        if T._isgain:
+            return norm(d, ord=2)
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
-- 
2.43.0


From 5e163aec199cf4aa7a491671575cc56cb1757e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:27 +0000
Subject: [PATCH 45/74] fix: Hinf norm of discrete models

---
 harold/_system_props.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 49a1ebf..4025193 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -6,6 +6,7 @@ from scipy.linalg import solve, norm, eigvals, qr
 from ._array_validators import _assert_2d, _assert_square, _assert_finite
 from ._frequency_domain import frequency_response
 from ._classes import Transfer, transfer_to_state
+from ._discrete_funcs import undiscretize
 from ._solvers import lyapunov_eq_solver
 from ._arg_utils import _check_for_state_or_transfer
 
@@ -92,6 +93,11 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         if T._isgain:
             return norm(d, ord=2)
 
+        # Bilinear transformation doesn't change the norm
+        if T.SamplingSet == 'Z':
+            T = undiscretize(T, method='tustin')
+            a, b, c, d = T.matrices
+
         # Initial gamma0 guess
         # Get the max of the largest svd of either
         #   - feedthrough matrix
-- 
2.43.0


From 399da2a82c96e7c88fab95b044c70b8e2acb499a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:13:31 +0000
Subject: [PATCH 46/74] fix: Hinf norm of models with zero response at the
 initial frequencies

---
 harold/_system_props.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 4025193..c87bacd 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -124,6 +124,15 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
         # Finally
         gamma_lb = np.max([lb, norm(d, ord=2)])
 
+        # Zero response at the initial frequencies, look at some others. The
+        # response can only vanish at finitely many points unless it is zero
+        if gamma_lb == 0.:
+            f, w = frequency_response(T, w=np.arange(1, 2*a.shape[0]+2),
+                                      w_unit='rad/s', output_unit='rad/s')
+            gamma_lb = np.max(np.abs(f))
+            if gamma_lb == 0.:
+                return 0.
+
         # Start a for loop with a definite end! Convergence is quartic!!
         for x in range(51):
 
-- 
2.43.0


From b41e99bd6c001fb24ab0acc08f0736815c5508e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:21 +0000
Subject: [PATCH 47/74] fix: Hinf norm missed imaginary eigenvalues of badly
 scaled Hamiltonians

---
 harold/_system_props.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index c87bacd..4d06a54 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -150,7 +150,9 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
             eigs_of_H = eigvals(mat)
 
             # (Step b3)
-            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= eig_tol]
+            # The accuracy of the eigenvalues is relative to the norm
+            tol = max(eig_tol, 10*np.spacing(1.)*norm(mat))
+            im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= tol]
             # If none left break
             if im_eigs.size == 0:
                 gamma_ub = test_gamma
@@ -159,7 +161,7 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
                 # Take the ones with positive imag part
                 w_i = np.sort(np.unique(np.abs(im_eigs.imag)))
                 # Evaluate the cubic interpolant
-                m_i = (w_i[1:] + w_i[:-1]) / 2
+                m_i = (w_i[1:] + w_i[:-1]) / 2 if w_i.size > 1 else w_i
                 f, w = frequency_response(T, w=m_i, w_unit='rad/s',
                                           output_unit='rad/s')
                 if T._isSISO:
-- 
2.43.0


From 9180709b9d8d909639246d32d033c533049b3198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:21:58 +0000
Subject: [PATCH 48/74] fix: Hinf norm iteration stops when it makes no
 progress

---
 harold/_system_props.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/harold/_system_props.py b/harold/_system_props.py
index 4d06a54..baf2d27 100644
--- a/harold/_system_props.py
+++ b/harold/_system_props.py
@@ -151,7 +151,7 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
 
             # (Step b3)
             # The accuracy of the eigenvalues is relative to the norm
-            tol = max(eig_tol, 10*np.spacing(1.)*norm(mat))
+            tol = max(eig_tol, 1000*np.spacing(1.)*norm(mat))
             im_eigs = eigs_of_H[np.abs(eigs_of_H.real) <= tol]
             # If none left break
             if im_eigs.size == 0:
@@ -165,9 +165,14 @@ def system_norm(G, p=np.inf, hinf_tol=1e-6, eig_tol=1e-8):
                 f, w = frequency_response(T, w=m_i, w_unit='rad/s',
                                           output_unit='rad/s')
                 if T._isSISO:
-                    gamma_lb = np.max(np.abs(f))
+                    lb = np.max(np.abs(f))
                 else:
-                    gamma_lb = np.max(norm(f, ord=2, axis=(0, 1)))
+                    lb = np.max(norm(f, ord=2, axis=(0, 1)))
+                # No progress, the eigenvalues are not really imaginary
+                gamma_ub = test_gamma
+                if lb <= test_gamma:
+                    break
+                gamma_lb = lb
 
         return (gamma_lb + gamma_ub)/2
 
-- 
2.43.0


From ad32813ad79fc9ef0c26f80408d9420cf6a99818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:37:34 +0000
Subject: [PATCH 49/74] fix: observability_matrix transformation and compressed
 controllability matrix orientation

---
 harold/_kalman_ops.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_kalman_ops.py b/harold/_kalman_ops.py
index e2d86a8..f04bb67 100644
--- a/harold/_kalman_ops.py
+++ b/harold/_kalman_ops.py
@@ -53,7 +53,7 @@ def controllability_matrix(G, compress=False):
 
     if compress:
         T, S, V, r = haroldsvd(Cc, also_rank=True)
-        return S.dot(V.T), T, r
+        return S.dot(V), T, r
 
     T, *_, r = haroldsvd(Cc, also_rank=True)
     return Cc, T, r
@@ -106,8 +106,8 @@ def observability_matrix(G, compress=False):
         T, S, V, r = haroldsvd(Co, also_rank=True)
         return T.dot(S), V.T, r
 
-    *_, T, r = haroldsvd(Co, also_rank=True)
-    return Co, T, r
+    *_, V, r = haroldsvd(Co, also_rank=True)
+    return Co, V.T, r
 
 
 def kalman_decomposition(G, compute_T=False, output='system',
-- 
2.43.0


From 7ebf90ee5a300bc42faf9c70f2ab457292d30e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:54 +0000
Subject: [PATCH 50/74] fix: swap input and output when the observer staircase
 is square

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 6890e09..2e281ce 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -96,7 +96,7 @@ def staircase(A, B, C, compute_T=False, form='c', invert=False,
         if invert:
             A0, B0, C0 = fliplr(flipud(A0)), flipud(B0), fliplr(C0)
             T = flipud(T)
-        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, B0.T, C0.T, T.T)
+        return (A0, B0, C0, T.T) if form == 'c' else (A0.T, C0.T, B0.T, T.T)
 
     next_, size_ = -m, m
     tol_from_A = n*norm(A, 1)*np.spacing(1.)
-- 
2.43.0


From 968bd351de9be8a2b04883f7ff527c1fef58047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:46:58 +0000
Subject: [PATCH 51/74] fix: keep feedthrough and gains in
 hessenberg_realization

---
 harold/_system_funcs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 2e281ce..41214cd 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -182,10 +182,12 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     else:
         _check_for_state_or_transfer(G)
         in_is_sys = True
+        if G._isgain:
+            return (G, np.empty((0, 0))) if compute_T else G
         if type(G).__name__ == 'Transfer':
-            a, b, c, _ = transfer_to_state(G, output='matrices')
+            a, b, c, d = transfer_to_state(G, output='matrices')
         else:
-            a, b, c = G.a, G.b, G.c
+            a, b, c, d = G.matrices
 
     if form == 'o':
         a, b, c = a.T, c.T, b.T
@@ -208,7 +210,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
 
     if output == 'system':
         if in_is_sys:
-            Gh = State(ah, bh, ch, dt=G.SamplingPeriod)
+            Gh = State(ah, bh, ch, d, dt=G.SamplingPeriod)
         else:
             Gh = State(ah, bh, ch)
         if compute_T:
-- 
2.43.0


From c5adb1fe88e4f7bbd27908102d32d38d51b0b581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:02 +0000
Subject: [PATCH 52/74] fix: transform the input matrix and T in
 hessenberg_realization

---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 41214cd..67aff84 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -195,7 +195,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     qq, bh = qr(b)
     ab, cb = qq.T @ a @ qq, c @ qq
     ah, qh = hessenberg(ab, calc_q=True)
-    ch = cb @ qh
+    bh, ch = qh.T @ bh, cb @ qh
 
     if compute_T:
         T = qq @ qh
@@ -203,7 +203,7 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     if invert:
         ah, bh, ch = fliplr(flipud(ah)), flipud(bh), fliplr(ch)
         if compute_T:
-            T = flipud(T)
+            T = fliplr(T)
 
     if form == 'o':
         ah, bh, ch = ah.T, ch.T, bh.T
-- 
2.43.0


From 5d27e82d3ed03b4af345cfa2f1a1b15ffb0f7f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:56 +0000
Subject: [PATCH 53/74] fix: hessenberg_realization of zero transfer models

---
 harold/_system_funcs.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 67aff84..1faffad 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -182,12 +182,11 @@ def hessenberg_realization(G, compute_T=False, form='c', invert=False,
     else:
         _check_for_state_or_transfer(G)
         in_is_sys = True
+        if type(G).__name__ == 'Transfer' and not G._isgain:
+            G = transfer_to_state(G)
         if G._isgain:
             return (G, np.empty((0, 0))) if compute_T else G
-        if type(G).__name__ == 'Transfer':
-            a, b, c, d = transfer_to_state(G, output='matrices')
-        else:
-            a, b, c, d = G.matrices
+        a, b, c, d = G.matrices
 
     if form == 'o':
         a, b, c = a.T, c.T, b.T
-- 
2.43.0


From d1d1dc02c7888574c3a94c4ba271e0c3e9a060c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:31 +0000
Subject: [PATCH 54/74] fix: minimal_realization of gains keeps shape and
 sampling period

---
 harold/_system_funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 1faffad..12d797d 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -336,7 +336,7 @@ def minimal_realization(G, tol=1e-6):
 
     if type(G).__name__ == 'State':
         if G._isgain:
-            return State(G.to_array())
+            return State(G.to_array(), dt=G.SamplingPeriod)
         else:
             A, B, C, D = G.matrices
             Am, Bm, Cm = _minimal_realization_state(A, B, C, tol=tol)
@@ -346,7 +346,7 @@ def minimal_realization(G, tol=1e-6):
                 return State(D, dt=G.SamplingPeriod)
     else:
         if G._isgain:
-            return Transfer(G.to_array())
+            return Transfer(G.to_array().tolist(), dt=G.SamplingPeriod)
         else:
             num, den = G.polynomials
             numm, denm = _minimal_realization_transfer(num, den, tol=tol)
-- 
2.43.0


From 2d2bcc2061871e476982fdcd98137d6f90ced8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:34 +0000
Subject: [PATCH 55/74] fix: real pole cancelling a complex zero in
 minimal_realization

---
 harold/_system_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 12d797d..81a1847 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -512,7 +512,7 @@ def _minimal_realization_simplify(num, den, tol):
                     plz = np.delete(plz, match_index)
                 else:
                     # It was a real/complex cancellation, make the zero real
-                    safe_z += np.real(z)
+                    safe_z += [np.real(z)]
 
             elif not bool_cz and bool_cp:
                 # Same with above but this time we convert the other pole
-- 
2.43.0


From 2cffe439859345a239a90cf063869410efd97da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:54:38 +0000
Subject: [PATCH 56/74] fix: minimal_realization removal of unobservable and
 all states

---
 harold/_system_funcs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/harold/_system_funcs.py b/harold/_system_funcs.py
index 81a1847..2947b8c 100644
--- a/harold/_system_funcs.py
+++ b/harold/_system_funcs.py
@@ -395,8 +395,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
             while kc <= tol:
                 Ac, Bc, Cc = (Ac[:-1, :-1], Bc[:-1, :], Cc[:, :-1])
                 if Ac.size == 0:
-                    A, B, C = [array([], dtype=float)]*3
-                    break
+                    return Ac, Bc, Cc
                 else:
                     kc, *_ = cancellation_distance(Ac, Bc)
             # Return the resulting matrices
@@ -414,7 +413,7 @@ def _minimal_realization_state(A, B, C, tol=1e-6):
                     A, B, C = [array([], dtype=float)]*3
                     break
                 else:
-                    ko, *_ = cancellation_distance(Ao, Bo)
+                    ko, *_ = cancellation_distance(Ao.T, Co.T)
 
             # Return the resulting matrices
             A, B, C = Ao, Bo, Co
-- 
2.43.0


From 490833604e2f34610e80ff73ca49ca1a9bc75f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:47 +0000
Subject: [PATCH 57/74] fix: frequency_response with use_minreal

---
 harold/_frequency_domain.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/harold/_frequency_domain.py b/harold/_frequency_domain.py
index bec4dc2..02747f3 100644
--- a/harold/_frequency_domain.py
+++ b/harold/_frequency_domain.py
@@ -66,13 +66,15 @@ def frequency_response(G, w=None, samples=None, w_unit='Hz', output_unit='Hz',
 
         if type(G).__name__ == 'State':
             for row in range(p):
-                aa, bb, cc = hessenberg_realization((G.a, G.b, G.c[[row], :]),
-                                                    form='o', invert=True,
-                                                    output='matrices')
+                aa, bb, cc = G.a, G.b, G.c[[row], :]
                 if use_minreal:
-                    aaa, bbb, ccc = _minimal_realization_state(aa, bb, cc)
-                else:
-                    aaa, bbb, ccc = aa, bb, cc
+                    aa, bb, cc = _minimal_realization_state(aa, bb, cc)
+                    if aa.size == 0:
+                        fr_arr[:, :, row] = 0.
+                        continue
+                aaa, bbb, ccc = hessenberg_realization((aa, bb, cc),
+                                                       form='o', invert=True,
+                                                       output='matrices')
                 dt = G.SamplingPeriod if G.SamplingSet == 'Z' else None
                 fr_arr[:, :, row] = _State_freq_resp(aaa, bbb, ccc[0, -1],
                                                      w, dt)
-- 
2.43.0


From 0ade5d356e75698359f948cdb667047a711c5a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:07 +0000
Subject: [PATCH 58/74] fix: lqr weight_on accepted partial words and ignored
 upper case

---
 harold/_static_ctrl_design.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index e88c030..afffd3e 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -79,7 +79,7 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         raise ValueError('State feedback design requires dynamic system'
                          ' representations. The argument is a static gain.')
 
-    if weight_on.lower() not in ('state, output'):
+    if weight_on.lower() not in ('state', 'output'):
         raise ValueError('"weight_on" keyword can either be "state" or'
                          ' "output" but received "{}"'.format(weight_on))
 
@@ -97,7 +97,7 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
     # Arrays, shape mismatches and sign definiteness are handled by
     # scipy riccati solver. So pass directly if not "output".
 
-    if weight_on == 'output':
+    if weight_on.lower() == 'output':
         Q = array(Q, dtype=float, ndmin=2)
         R = array(R, dtype=float, ndmin=2)
         for ind, (arg, rc, st) in enumerate(
-- 
2.43.0


From 1d592a7457564d3f6c6a88dffb63b220d65cc57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:11 +0000
Subject: [PATCH 59/74] fix: lqr cross weight given as a list

---
 harold/_static_ctrl_design.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index afffd3e..e22b7cf 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -122,6 +122,8 @@ def lqr(G, Q, R=None, S=None, weight_on='state'):
         Q, S, _, R = matrix_slice(fact, (m, m), corner='se')
         X = func(a=T.a, b=T.b, q=Q, r=R, s=S)
     else:
+        if S is not None:
+            S = array(S, dtype=float, ndmin=2)
         X = func(a=T.a, b=T.b, q=Q, r=R, s=S)
 
     if T.SamplingSet == 'R':
-- 
2.43.0


From 2efb1b737a847dd624a699f4bb04704f16f3f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:15 +0000
Subject: [PATCH 60/74] fix: ackermann accepts conjugate pairs and checks the
 number of poles

---
 harold/_static_ctrl_design.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/harold/_static_ctrl_design.py b/harold/_static_ctrl_design.py
index e22b7cf..0957e71 100644
--- a/harold/_static_ctrl_design.py
+++ b/harold/_static_ctrl_design.py
@@ -168,9 +168,15 @@ def ackermann(G, loc):
         raise ValueError('Ackermann method is only applicable to single input'
                          ' systems.')
 
-    loc = array(loc, dtype=float)
+    loc = array(loc, dtype=complex, ndmin=1)
     if loc.ndim > 1:
         raise ValueError('Pole location array must be 1D.')
+    if loc.size != n:
+        raise ValueError('The number of pole locations must match the number '
+                         'of states.')
+    if np.iscomplexobj(poly(loc)):
+        raise ValueError('Complex pole locations must come in conjugate '
+                         'pairs.')
 
     Cc, _, r = controllability_matrix((A, B), compress=False)
     # if not controllable
-- 
2.43.0


From 9c024b904d5c3c96ce69b83b98b041bb28560899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:23 +0000
Subject: [PATCH 61/74] fix: update the stability flag when the sampling period
 is assigned

---
 harold/_classes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index f0b4314..9d33a13 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -272,6 +272,10 @@ class Transfer:
             self._dt = None
             self._isdiscrete = False
 
+        # Already constructed, the stability region depends on the time domain
+        if hasattr(self, 'poles'):
+            self._set_stability()
+
     @num.setter
     def num(self, value):
 
@@ -1890,6 +1894,10 @@ class State:
             self._dt = None
             self._isdiscrete = False
 
+        # Already constructed, the stability region depends on the time domain
+        if hasattr(self, 'poles'):
+            self._set_stability()
+
     @DiscretizedWith.setter
     def DiscretizedWith(self, value):
         if value in _KnownDiscretizationMethods:
-- 
2.43.0


From 7c6ccfadbbf28663fa469ad0f57a35e586573712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:26 +0000
Subject: [PATCH 62/74] fix: update the gain flag when numerators or
 denominators are assigned

---
 harold/_classes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 9d33a13..19263e2 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -279,7 +279,8 @@ class Transfer:
     @num.setter
     def num(self, value):
 
-        user_num, _, user_shape = self.validate_arguments(value, self._den)[:3]
+        (user_num, user_den, user_shape,
+         user_gain) = self.validate_arguments(value, self._den)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -288,13 +289,15 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._num = user_num
+            self._num, self._den = user_num, user_den
+            self._isgain = user_gain
             self._recalc()
 
     @den.setter
     def den(self, value):
 
-        user_den, user_shape = self.validate_arguments(self._num, value)[1:3]
+        (user_num, user_den, user_shape,
+         user_gain) = self.validate_arguments(self._num, value)
 
         if not user_shape == self._shape:
             raise IndexError('Once created, the shape of the transfer '
@@ -303,7 +306,8 @@ class Transfer:
                              'the system has {2}x{3}.'
                              ''.format(*user_shape+self._shape))
         else:
-            self._den = user_den
+            self._num, self._den = user_num, user_den
+            self._isgain = user_gain
             self._recalc()
 
     @DiscretizedWith.setter
-- 
2.43.0


From 328e3a56ec39d134847579802f4b39dd14278951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:42 +0000
Subject: [PATCH 63/74] fix: keep only independent rows when the outputs are
 already compressed

---
 harold/_classes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 19263e2..347fe3e 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3290,6 +3290,8 @@ def _tzeros_reduce(A, B, C, D):
         q_of_c, *_, rho = haroldsvd(Ctilde.T, also_rank=1, rank_tol=m_eps)
         nu = n - rho
         if rho == 0:  # [C,D] happen to be compressed simultaneously
+            if sigma > 0:  # Only the independent rows
+                C, D = Cbar, r_of_d[:sigma, :]
             break
         elif nu == 0:  # [C, D] happen to form a invertible matrix
             A, B, C, D = np.array([]), np.array([]), np.array([]), np.array([])
-- 
2.43.0


From 78ed2ad49e96fd792dc1218118c871c385821934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:45 +0000
Subject: [PATCH 64/74] fix: scale the zero tolerance with the whole system
 matrix

---
 harold/_classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 347fe3e..5f6cf2d 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3269,7 +3269,8 @@ def _tzeros_reduce(A, B, C, D):
     Basic deflation loop until we get a full row rank feedthrough matrix.
     """
     m_eps = np.spacing(100 * np.sqrt((A.shape[0] + C.shape[0]) * (
-                       A.shape[1] + B.shape[1]))) * norm(A, 'fro')
+                       A.shape[1] + B.shape[1]))) * norm(
+                           np.r_[np.c_[A, B], np.c_[C, D]], 'fro')
 
     for x in range(A.shape[0]):  # At most!
         n, (p, m) = A.shape[0], D.shape
-- 
2.43.0


From aabd0812665ab0d21cdf5b905f4ffd1894144ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:35 +0000
Subject: [PATCH 65/74] fix: accept complex typed arrays with zero imaginary
 parts in Transfer arithmetic

---
 harold/_classes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 5f6cf2d..0684f81 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -557,7 +557,7 @@ class Transfer:
             if isinstance(other, np.ndarray):
                 if other.ndim == 1:
                     if other.size == 1:
-                        s = float(other)
+                        s = float(other.real)
                     else:
                         s = np.atleast_2d(other.real)
                 else:
@@ -605,7 +605,7 @@ class Transfer:
                                      'addition. Transfer shape is {0}'
                                      ' but the array shape is {1}.'
                                      ''.format(self._shape, other.shape))
-                return self + Transfer(other.tolist(), dt=self._dt)
+                return self + Transfer(s.tolist(), dt=self._dt)
         else:
             raise ValueError('I don\'t know how to add a {0} to a '
                              'Transfer representation (yet).'
@@ -657,7 +657,7 @@ class Transfer:
 
             # It still might be a scalar inside an array
             if other.size == 1:
-                return float(other) * self
+                return float(other.real) * self
 
             if other.ndim == 1:
                 arr = np.atleast_2d(other.real)
@@ -867,7 +867,7 @@ class Transfer:
 
             # It still might be a scalar inside an array
             if other.size == 1:
-                return self*float(other)
+                return self*float(other.real)
 
             if other.ndim == 1:
                 arr = np.atleast_2d(other.real).astype(float)
@@ -961,7 +961,7 @@ class Transfer:
 
             # It still might be a scalar inside an array
             if other.size == 1:
-                return self*float(other)
+                return self*float(other.real)
 
             if other.ndim == 1:
                 arr = np.atleast_2d(other.real)
@@ -2082,7 +2082,7 @@ class State:
             if isinstance(other, np.ndarray):
                 if other.ndim == 1:
                     if other.size == 1:
-                        s = float(other)
+                        s = float(other.real)
                     else:
                         s = np.atleast_2d(other.real)
                 else:
@@ -2314,7 +2314,7 @@ class State:
             if isinstance(other, np.ndarray):
                 if other.ndim == 1:
                     if other.size == 1:
-                        s = float(other)
+                        s = float(other.real)
                     else:
                         s = np.atleast_2d(other.real)
                 else:
@@ -2405,7 +2405,7 @@ class State:
             if isinstance(other, np.ndarray):
                 if other.ndim == 1:
                     if other.size == 1:
-                        s = float(other)
+                        s = float(other.real)
                     else:
                         s = np.atleast_2d(other.real)
                 else:
-- 
2.43.0


From a43ae528ef9b8a11889c821536e99aee74c81987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:38 +0000
Subject: [PATCH 66/74] fix: return Transfer arguments of state_to_transfer as
 documented

---
 harold/_classes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 0684f81..8dfbbeb 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2846,6 +2846,11 @@ def state_to_transfer(state_or_abcd, output='system'):
                          '"{0}"'.format(output))
 
     output = output.lower()[0]
+
+    if isinstance(state_or_abcd, Transfer):
+        return ((state_or_abcd.num, state_or_abcd.den) if output == 'p'
+                else state_or_abcd)
+
     # If a discrete time system is given this will be modified to the
     # SamplingPeriod later.
     dt = None
-- 
2.43.0


From 6df5b56d79d32581a9b3e870f67ea3fe4e78a339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:42 +0000
Subject: [PATCH 67/74] fix: treat the output keyword of transfer_to_state case
 insensitively

---
 harold/_classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/harold/_classes.py b/harold/_classes.py
index 8dfbbeb..4dfaeb8 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -2987,6 +2987,7 @@ def transfer_to_state(G, output='system'):
         raise ValueError('The output can either be "system" or "polynomials".'
                          '\nI don\'t know any option as "{0}"'.format(output))
 
+    output = output.lower()
     # mildly check if we have a transfer,state, or (num,den)
     if isinstance(G, tuple):
         num, den = G
-- 
2.43.0


From b41e2cc93bd805c42c9da28f7b31e18c85cb5d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:42 +0000
Subject: [PATCH 68/74] fix: use the own frequency grid of every model in
 bode_plot and nyquist_plot

---
 harold/_frequency_domain_plots.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c20b795..c493aba 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -87,7 +87,7 @@ def _get_common_freq_grid(syslist):
             lw1 = np.log10(w[-1])
             samples = (5 if syslist[ind]._isgain else
                        int(np.ceil((lmaxw - lw1) * ppd)))
-            W[ind] = np.hstack([w,
+            W[ind] = np.hstack([W[ind],
                                 np.logspace(start=lw1,
                                             stop=lmaxw,
                                             num=samples)])
@@ -178,17 +178,19 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     for ind, (G, sty) in enumerate(zip(syslist, style)):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wgrid = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wgrid /= 2*np.pi
+        else:
+            wgrid = w
 
         isDiscrete = True if G.SamplingSet == 'Z' else False
         if isDiscrete:
             dt = G.SamplingPeriod
             nyq = 1/(2*dt) if use_hz else np.pi/dt
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wgrid is not None:
+            fre, ww = frequency_response(G, wgrid, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
@@ -337,12 +339,14 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     for ind, (G, sty) in enumerate(zip(syslist, style)):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
-            w = W[ind]
+            wgrid = W[ind]
             if f_unit == 'Hz':
-                w /= 2*np.pi
+                wgrid /= 2*np.pi
+        else:
+            wgrid = w
 
-        if w is not None:
-            fre, ww = frequency_response(G, w, w_unit=f_unit,
+        if wgrid is not None:
+            fre, ww = frequency_response(G, wgrid, w_unit=f_unit,
                                          output_unit=f_unit)
         else:
             fre, ww = frequency_response(G, output_unit=f_unit)
-- 
2.43.0


From 6eb4355d319e9d3d0aca423fce9db860d2c15c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:45 +0000
Subject: [PATCH 69/74] fix: leave the phase of zero responses out of bode_plot

---
 harold/_frequency_domain_plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index c493aba..a4a862d 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -200,7 +200,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
 
         # Mask NaN values if any
         if np.isnan(fre).any():
-            pha = np.empty_like(fre, dtype=float)
+            pha = np.full_like(fre, np.nan, dtype=float)
             pha[~np.isnan(fre)] = np.unwrap(np.angle(fre[~np.isnan(fre)]))
         else:
             pha = np.unwrap(np.angle(fre))
-- 
2.43.0


From b2fac629f9ef29fa8978c9093844c6c5e324564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:50 +0000
Subject: [PATCH 70/74] fix: honour negative_freqs in nyquist_plot

---
 harold/_frequency_domain_plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index a4a862d..11635bc 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -367,7 +367,8 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
                     idata = ii[row, col, :]
 
                 axs[row, col].plot(rdata, idata, '-')
-                axs[row, col].plot(rdata, -idata, '-.')
+                if negative_freqs:
+                    axs[row, col].plot(rdata, -idata, '-.')
                 axs[row, col].plot([-1], [0], 'b+')
                 axs[row, col].grid(True, which='both')
                 # MIMO Labels and gridding
-- 
2.43.0


From b2daa6589dc01c33e8f4a6f42e71673f92b78cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:53 +0000
Subject: [PATCH 71/74] fix: apply the style argument in impulse_response_plot

---
 harold/_time_domain_plots.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index f057bc9..dfce3c7 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -186,14 +186,14 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys in syslist:
+    for sys, sty in zip(syslist, style):
         yout, tout = simulate_impulse_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
             if sys._isdiscrete:
-                axs[0, 0].step(tout, yout, where='post')
+                axs[0, 0].step(tout, yout, where='post', **sty)
             else:
-                axs[0, 0].plot(tout, yout)
+                axs[0, 0].plot(tout, yout, **sty)
 
             axs[0, 0].grid(visible=True)
         else:
@@ -207,7 +207,9 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
                 for col in range(ncols):
                     getattr(axs[row, col], ptype)(tout, yout[:, row, col]
                                                   if yout.ndim == 3
-                                                  else yout[:, row], **w_dict)
+                                                  else yout[:, row],
+                                                  **w_dict,
+                                                  **sty)
                     axs[row, col].grid(visible=True)
     axs[0, 0].set_xlim(left=0, right=tmin)
     fig.text(0, .5, 'Amplitude', ha='center', va='center', rotation='vertical')
-- 
2.43.0


From 0454c283206482b75f6a8af3ebf6a3e07a8c51da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:46:57 +0000
Subject: [PATCH 72/74] fix: draw every model in plots of more models than
 styles

---
 harold/_frequency_domain_plots.py | 5 +++--
 harold/_time_domain_plots.py      | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/harold/_frequency_domain_plots.py b/harold/_frequency_domain_plots.py
index 11635bc..bc328ac 100644
--- a/harold/_frequency_domain_plots.py
+++ b/harold/_frequency_domain_plots.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -175,7 +176,7 @@ def bode_plot(sys, w=None, use_db=False, use_hz=True, use_degree=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
             wgrid = W[ind]
@@ -336,7 +337,7 @@ def nyquist_plot(sys, w=None, use_hz=True, negative_freqs=True,
     if w is None and len(syslist) > 1:
         W = _get_common_freq_grid(syslist)
 
-    for ind, (G, sty) in enumerate(zip(syslist, style)):
+    for ind, (G, sty) in enumerate(zip(syslist, cycle(style))):
         # If multiple systems are given W is necessarily defined here.
         if w is None and len(syslist) > 1:
             wgrid = W[ind]
diff --git a/harold/_time_domain_plots.py b/harold/_time_domain_plots.py
index dfce3c7..46128c9 100644
--- a/harold/_time_domain_plots.py
+++ b/harold/_time_domain_plots.py
@@ -1,3 +1,4 @@
+from itertools import cycle
 import numpy as np
 import matplotlib.pyplot as plt
 import matplotlib as mpl
@@ -93,7 +94,7 @@ def step_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys, sty in zip(syslist, style):
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_step_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
@@ -186,7 +187,7 @@ def impulse_response_plot(sys, t=None, style=None, **kwargs):
     # compromise for the shorter ones. For now, just plot everything on top of
     # each other independently and cut to the shortest. Yes, it sucks; I know.
     tmin = np.inf
-    for sys, sty in zip(syslist, style):
+    for sys, sty in zip(syslist, cycle(style)):
         yout, tout = simulate_impulse_response(sys, t=t)
         tmin = np.min([tout[-1], tmin])
         if sys._isSISO:
-- 
2.43.0


From 6fce6c38b77a8f3aa0d02a1b7a41fb6fd25c3c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:14:45 +0000
Subject: [PATCH 73/74] fix: allow complex pole pairs in random models without
 stability request

---
 harold/_classes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4dfaeb8..4adc061 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3507,7 +3507,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
 
         p_type = choice(choose_from, 1, replace=True, p=pdist)
         if p_type == 0:
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             a[diag_i, diag_i] = pr
             diag_i += 1
@@ -3515,7 +3515,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
         elif p_type == 1:
             if diag_i >= n-1:
                 break
-            ps = choice([1, -1], 1)
+            ps = choice([1, -1])
             pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
             pi = exp(exp(rand()))
             a[[diag_i, diag_i, diag_i+1, diag_i+1],
@@ -3540,7 +3540,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
 
     # Complex didn't fit, fill the remaining
     if diag_i == n-1:
-        ps = choice([1, -1], 1)
+        ps = choice([1, -1])
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
 
-- 
2.43.0


From 5c339e615df80643e5eebcab383924191d1b3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:14:48 +0000
Subject: [PATCH 74/74] fix: fill the last state of random models with an
 integrator if real poles are excluded

---
 harold/_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/harold/_classes.py b/harold/_classes.py
index 4adc061..0251dd1 100644
--- a/harold/_classes.py
+++ b/harold/_classes.py
@@ -3539,7 +3539,7 @@ def random_state_model(n, p=1, m=1, dt=None, prob_dist=None, stable=True):
             break
 
     # Complex didn't fit, fill the remaining
-    if diag_i == n-1:
+    if diag_i == n-1 and (stable or pdist[0] > 0 or pdist[2] == 0):
         ps = choice([1, -1])
         pr = -exp(exp(rand())) if stable else ps*exp(exp(rand()))
         a[diag_i, diag_i] = pr
-- 
2.43.0

