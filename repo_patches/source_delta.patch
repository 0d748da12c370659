From 27757d5a8ed994d92da9072e291a6fa00debdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:32 +0000
Subject: [PATCH 01/37] fix: reduce byte strings modulo p when building a prime
 field element

---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 17babff..437594f 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -31,7 +31,7 @@ def IntegersModP(p):
     def __init__(self, n):
       try:
         if isinstance(n, bytes):
-          self.n = int.from_bytes(n, 'big')
+          self.n = int.from_bytes(n, 'big') % IntegerModP.p
         else:
           self.n = int(n) % IntegerModP.p
       except:
-- 
2.43.0


From 622d87959edd937e09cb308b3005703dc4cd5596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:32 +0000
Subject: [PATCH 02/37] fix: return the encoding from Polynomial.to_bytes

---
 starks/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4f224eb..1c8bbaa 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -164,7 +164,7 @@ def polynomials_over(ring=fractions.Fraction):
       return y
 
     def to_bytes(self):
-      coeff_bytes = [coeff.to_bytes(32, 'big') for coeff in self.coefficients]
+      return b''.join(coeff.to_bytes() for coeff in self.coefficients)
 
 
   def Zero():
-- 
2.43.0


From fec828ed9595601ab83cc047a734f90b47f08e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:32 +0000
Subject: [PATCH 03/37] fix: reduce byte strings modulo the field polynomial in
 Fq

---
 starks/finitefield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 9e8e609..aa96d2d 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -77,7 +77,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
     def __init__(self, poly):
       if isinstance(poly, bytes):
-        self.poly = Polynomial(poly)
+        self.poly = Polynomial(poly) % polynomialModulus
       elif type(poly) is Fq:
         self.poly = poly.poly
       elif type(poly) is int or type(poly) is Zp:
-- 
2.43.0


From b8ee93f0668d6d4ec60ef2374161ecd09f8d63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 04/37] fix: memoize constructors on every argument value, not
 on keyword names

---
 starks/numbertype.py | 6 +++++-
 starks/polynomial.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..cbaec60 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -1,6 +1,7 @@
 """
 These classes help speed up field computations by caching and introduce some useful types.
 """
+import inspect
 from typing import List
 
 
@@ -11,9 +12,12 @@ def memoize(f):
   never creating two separate instances of a number class.
   """
   cache = {}
+  signature = inspect.signature(f)
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
+    bound = signature.bind(*args, **kwargs)
+    bound.apply_defaults()
+    argTuple = tuple(bound.arguments.values())
     if argTuple not in cache:
       cache[argTuple] = f(*args, **kwargs)
     return cache[argTuple]
diff --git a/starks/polynomial.py b/starks/polynomial.py
index 1c8bbaa..b4ea217 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -77,6 +77,9 @@ def polynomials_over(ring=fractions.Fraction):
     def __len__(self):
       return len(self.coefficients)
 
+    def __hash__(self):
+      return hash(repr(self))
+
     def __sub__(self, other):
       return self + (-other)
 
-- 
2.43.0


From c30df4f5f540b2aeb0eab2c6ba016bc7080a83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:01 +0000
Subject: [PATCH 05/37] fix: store multivariate coefficients as ring elements

---
 starks/multivariate_polynomial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 44096e1..ac72c1e 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -82,8 +82,7 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
       elif isinstance(c, ring):
         self.coefficients = {(0,)*num_vars: c}
       elif isinstance(c, dict):
-        coefficients = remove_zero_coefficients(c)
-        self.coefficients = c
+        self.coefficients = {power_tup: ring(coeff) for (power_tup, coeff) in c.items()}
       elif isinstance(c, int):
         self.coefficients = {(0,)*num_vars: ring(c)}
       else:
-- 
2.43.0


From 20693dabc340eaeab0fc05651713c143c0d0bf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:09 +0000
Subject: [PATCH 06/37] fix: return a polynomial when converting the zero
 polynomial

---
 starks/poly_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..a65ed84 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -35,7 +35,7 @@ def make_multivar(poly: Poly, i: int, field: Field, width: int) -> MultiVarPoly:
   post = (0,) * (width - (i+1))
   index = pre + (1,) + post
   X_i = polysOver({index: field(1)})
-  up_poly = 0
+  up_poly = polysOver({})
   for degree, coeff in enumerate(poly.coefficients):
     up_poly += coeff * X_i**degree
   return up_poly
@@ -46,7 +46,7 @@ def project_to_univariate(multivar_poly: MultiVarPoly, i: int, field: Field, wid
   multiVarsOver = multivars.factory
   polysOver = polynomials_over(multivars).factory
   X = polysOver([0, 1])
-  out = 0 
+  out = polysOver([])
   for (term, coeff) in multivar_poly:
     # Remove i-th variable 
     term_minus_i = term[:i] + term[i+1:]
-- 
2.43.0


From 0edd2378a4e46c84929bfe1a787a82d94b580a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:27 +0000
Subject: [PATCH 07/37] fix: x is never a primitive polynomial

---
 starks/poly_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index a65ed84..35d0b18 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -232,6 +232,9 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   x = polysOver([0, 1])
   # This is 1 right?
   one = polysOver([1])
+  # 0 is not a unit, so x does not generate anything modulo x
+  if irred_poly % x == 0:
+    return False
   for i, factor in enumerate(prime_factors):
     power = (modulus**degree - 1) // factor
     l_x = (x**power) % irred_poly
-- 
2.43.0


From 56f0d67a399c5430b2cde3971b83f13cdea0ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:35 +0000
Subject: [PATCH 08/37] fix: leave zero field elements at zero in multi_inv

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 35d0b18..6b10fdc 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -317,7 +317,7 @@ def multi_inv(field, values):
   inv = 1 / partials[-1]
   outputs = [0] * len(values)
   for i in range(len(values), 0, -1):
-    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] else 0
+    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else 0
     if values[i-1] != 0:
       inv = inv * values[i - 1]
   return outputs
-- 
2.43.0


From bb75a58ae47e305d56c3e54fb4e92e5ac74b5c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:20 +0000
Subject: [PATCH 09/37] fix: arithmetize functions over every point of F_q^n

---
 starks/poly_utils.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 6b10fdc..d25e4fe 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -286,17 +286,14 @@ def construct_multivariate_coefficients(field: Field, step_fn: Callable, n:int)
   field_size = field.field_size
   # Finite field case
   if field.__name__[:2] == "F_":
-    p = field.p
-    m = field.m
+    elements = [field(coeffs) for coeffs in itertools.product(range(field.p), repeat=field.m)]
   elif field.__name__[:2] == "Z/":
-    p = field.p
-    m = 1
+    elements = [field(val) for val in range(field.p)]
   else:
     raise ValueError
-  # Iterate over field indices
-  field_indices = itertools.product(*[range(p) for _ in range(m)])
-  for index in field_indices:
-    index = [field(ind) for ind in list(index)]
+  # Iterate over all points of F_q^n
+  for index in itertools.product(elements, repeat=n):
+    index = list(index)
     term = construct_multivariate_dirac_delta(field, index, n)
     poly += step_fn(index) * term
   return poly
-- 
2.43.0


From 422d6ea4be3f68d2104d2170910b9a0dd5093edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:26 +0000
Subject: [PATCH 10/37] fix: evaluate odd-length halves directly in _fft

---
 starks/fft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 11a19d9..668aa7e 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -301,7 +301,7 @@ def _simple_ft(vals: List[FieldElement], roots_of_unity: FieldElement) -> List[F
 
 
 def _fft(vals: List[FieldElement], roots_of_unity: FieldElement) -> List[FieldElement]:
-  if len(vals) <= 4:
+  if len(vals) <= 4 or len(vals) % 2:
     #return vals
     return _simple_ft(vals, roots_of_unity)
   L = _fft(vals[::2], roots_of_unity[::2])
-- 
2.43.0


From 17e967daab2f3a2fe7898b4ca278564358aa9648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:46 +0000
Subject: [PATCH 11/37] fix: scale the inverse transform in mul_polys

---
 starks/fft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 668aa7e..6ebc592 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -342,4 +342,6 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
     b = b + [0] * (len(rootz) - len(b) - 1)
   x1 = _fft(a, rootz[:-1])
   x2 = _fft(b, rootz[:-1])
-  return _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])
+  # The inverse transform needs a factor of 1/len
+  invlen = 1 / (root_of_unity**0 * len(x1))
+  return [x * invlen for x in _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])]
-- 
2.43.0


From 683cbb91bbc3d3ea5693ef55c8c47d8a236d38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:13 +0000
Subject: [PATCH 12/37] fix: restore the smooth-subgroup FRI that starks.stark
 imports

---
 starks/fri.py   | 382 ++++++++++++++++++++++++------------------------
 starks/stark.py |   2 +-
 2 files changed, 192 insertions(+), 192 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 339ddc1..8ca7b7a 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -173,194 +173,194 @@ class AffineSubspaceFRI(object):
                              security_factor:int = 40) -> bool:
     raise NotImplementedError
 
-#class SmoothSubgroupFRI(object):
-#  """Implements Fast Reed Solomon Interactive Oracle Protocol
-#
-#  This class implements the FRI for a smooth multiplicative
-#  subgroup of a finite field. Recall that such a subgroup is
-#  of size 2^n and is a subgroup of the cyclic group of nonzero
-#  elements of the finite field.
-#
-#  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
-#  """
-#  def __init__(self, field):
-#    self.field = field
-#
-#  def generate_proximity_proof(self,
-#                               f: Poly,
-#                               root_of_unity: FieldElement,
-#                               maxdeg_plus_1: int,
-#                               exclude_multiples_of:int = 0,
-#                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
-#    """
-#    Generate an FRI proof that the polynomial that has the
-#    specified values at successive powers of the specified root
-#    of unity has a degree lower than maxdeg_plus_1
-#
-#    We use maxdeg+1 instead of maxdeg because it's more
-#    mathematically convenient in this case.
-#
-#    Note that if values is a n-degree polynomial, root_of_unity
-#    should be a n-th root of unity.
-#    """
-#    print("Generating proof. Degree %d" % maxdeg_plus_1)
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity)
-#    values = fft_solver.fft(f)
-#    # If the degree we are checking for is less than or equal
-#    # to 32, use the polynomial directly as a proof
-#    # TODO(rbharath): Why does this make sense?
-#    if maxdeg_plus_1 <= 16:
-#      print('Produced FRI proof')
-#      return [[x.to_bytes() for x in values]]
-#
-#    # Calculate the set of x coordinates
-#    xs = get_power_cycle(root_of_unity, self.field)
-#
-#    assert len(values) == len(xs)
-#
-#    # Put the values into a Merkle tree. This is the root that
-#    # the proof will be checked against. Note this is a list of
-#    # length 2*len(values) storing the complete merkle tree.
-#    m = merkelize(values)
-#
-#    # Select a pseudo-random x coordinate
-#    # This is the merkle-root of the polynomial.
-#    #special_x = int.from_bytes(m[1], 'big') % modulus
-#    special_x = self.field(m[1])
-#
-#    # Calculate the "column" at that x coordinate (see
-#    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
-#    # We calculate the column by Lagrange-interpolating each
-#    # row, and not directly from the polynomial, as this is more
-#    # efficient
-#    quarter_len = len(xs) // 4
-#    x_polys = multi_interp_4(self.field,
-#        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
-#        [[values[i + quarter_len * j]
-#          for j in range(4)]
-#        for i in range(quarter_len)])
-#    column = [p(special_x) for p in x_polys]
-#    m2 = merkelize(column)
-#
-#    # Pseudo-randomly select y indices to sample
-#    ys = get_pseudorandom_indices(
-#        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#    # Compute the Merkle branches for the values in the
-#    # polynomial and the column
-#    branches = []
-#    for y in ys:
-#      branches.append([mk_branch(m2, y)] +
-#                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
-#
-#    o = [m2[1], branches]
-#
-#    # Recurse...
-#    # Swapping the root of unity to get new polynomial
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
-#    column_poly = fft_solver.inv_fft(column)
-#    return [o] + self.generate_proximity_proof(
-#        column_poly,
-#        root_of_unity**4,
-#        maxdeg_plus_1 // 4,
-#        exclude_multiples_of=exclude_multiples_of)
-#
-#  def verify_proximity_proof(self,
-#                             proof: List[bytes],
-#                             merkle_root: bytes,
-#                             root_of_unity: FieldElement,
-#                             maxdeg_plus_1: int,
-#                             exclude_multiples_of:int = 0,
-#                             fri_spot_check_security_factor:int = 40) -> bool:
-#    """Verifies proximity of this function to this RS code."""
-#    # Calculate which root of unity we're working with
-#    testval = root_of_unity
-#    # roudeg is the power of the root of unity
-#    roudeg = 1
-#    while testval != 1:
-#      roudeg *= 2
-#      testval = (testval * testval)
-#
-#    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
-#    quartic_roots_of_unity = [
-#        1,
-#        root_of_unity**(roudeg // 4),
-#        root_of_unity**(roudeg // 2),
-#        root_of_unity**(roudeg * 3 // 4)
-#    ]
-#
-#    # Verify the recursive components of the proof
-#    for prf in proof[:-1]:
-#      root2, branches = prf
-#      print('Verifying degree <= %d' % maxdeg_plus_1)
-#
-#      # Calculate the pseudo-random x coordinate
-#      special_x = self.field(merkle_root)
-#
-#      # Calculate the pseudo-randomly sampled y indices
-#      ys = get_pseudorandom_indices(
-#          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#      # For each y coordinate, get the x coordinates on the row,
-#      # the values on the row, and the value at that y from the
-#      # column
-#      xcoords = []
-#      rows = []
-#      columnvals = []
-#      for i, y in enumerate(ys):
-#        # The x coordinates from the polynomial
-#        x1 = root_of_unity**y
-#        xcoords.append(
-#            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
-#
-#        # The values from the original polynomial
-#        row = [
-#            verify_branch(
-#                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
-#            for j, prf in zip(range(4), branches[i][1:])
-#        ]
-#        rows.append(row)
-#
-#        columnvals.append(
-#            verify_branch(root2, y, branches[i][0], output_as_int=True))
-#
-#      # Verify for each selected y coordinate that the four
-#      # points from the polynomial and the one point from the
-#      # column that are on that y coordinate are on the same deg
-#      # < 4 polynomial
-#      polys = multi_interp_4(self.field, xcoords, rows)
-#
-#      for p, c in zip(polys, columnvals):
-#        assert p(special_x) == c
-#
-#      # Update constants to check the next proof
-#      merkle_root = root2
-#      root_of_unity = root_of_unity**4
-#      maxdeg_plus_1 //= 4
-#      roudeg //= 4
-#
-#    # Verify the direct components of the proof
-#    data = [int.from_bytes(x, 'big') for x in proof[-1]]
-#    print('Verifying degree <= %d' % maxdeg_plus_1)
-#    assert maxdeg_plus_1 <= 16
-#
-#    # Check the Merkle root matches up
-#    mtree = merkelize(data)
-#    assert mtree[1] == merkle_root
-#
-#    # Check the degree of the data
-#    #powers = get_power_cycle(root_of_unity, modulus)
-#    powers = get_power_cycle(root_of_unity, self.field)
-#    if exclude_multiples_of:
-#      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
-#    else:
-#      pts = range(len(data))
-#
-#    poly = lagrange_interp(self.field,
-#            [powers[x] for x in pts[:maxdeg_plus_1]],
-#            [data[x] for x in pts[:maxdeg_plus_1]])
-#    for x in pts[maxdeg_plus_1:]:
-#      assert poly(powers[x]) == data[x]
-#
-#    print('FRI proof verified')
-#    return True
+class SmoothSubgroupFRI(object):
+  """Implements Fast Reed Solomon Interactive Oracle Protocol
+
+  This class implements the FRI for a smooth multiplicative
+  subgroup of a finite field. Recall that such a subgroup is
+  of size 2^n and is a subgroup of the cyclic group of nonzero
+  elements of the finite field.
+
+  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
+  """
+  def __init__(self, field):
+    self.field = field
+
+  def generate_proximity_proof(self,
+                               f: Poly,
+                               root_of_unity: FieldElement,
+                               maxdeg_plus_1: int,
+                               exclude_multiples_of:int = 0,
+                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
+    """
+    Generate an FRI proof that the polynomial that has the
+    specified values at successive powers of the specified root
+    of unity has a degree lower than maxdeg_plus_1
+
+    We use maxdeg+1 instead of maxdeg because it's more
+    mathematically convenient in this case.
+
+    Note that if values is a n-degree polynomial, root_of_unity
+    should be a n-th root of unity.
+    """
+    print("Generating proof. Degree %d" % maxdeg_plus_1)
+    fft_solver = NonBinaryFFT(self.field, root_of_unity)
+    values = fft_solver.fft(f)
+    # If the degree we are checking for is less than or equal
+    # to 32, use the polynomial directly as a proof
+    # TODO(rbharath): Why does this make sense?
+    if maxdeg_plus_1 <= 16:
+      print('Produced FRI proof')
+      return [[x.to_bytes() for x in values]]
+
+    # Calculate the set of x coordinates
+    xs = get_power_cycle(root_of_unity, self.field)
+
+    assert len(values) == len(xs)
+
+    # Put the values into a Merkle tree. This is the root that
+    # the proof will be checked against. Note this is a list of
+    # length 2*len(values) storing the complete merkle tree.
+    m = merkelize(values)
+
+    # Select a pseudo-random x coordinate
+    # This is the merkle-root of the polynomial.
+    #special_x = int.from_bytes(m[1], 'big') % modulus
+    special_x = self.field(m[1])
+
+    # Calculate the "column" at that x coordinate (see
+    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
+    # We calculate the column by Lagrange-interpolating each
+    # row, and not directly from the polynomial, as this is more
+    # efficient
+    quarter_len = len(xs) // 4
+    x_polys = multi_interp_4(self.field,
+        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
+        [[values[i + quarter_len * j]
+          for j in range(4)]
+        for i in range(quarter_len)])
+    column = [p(special_x) for p in x_polys]
+    m2 = merkelize(column)
+
+    # Pseudo-randomly select y indices to sample
+    ys = get_pseudorandom_indices(
+        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+    # Compute the Merkle branches for the values in the
+    # polynomial and the column
+    branches = []
+    for y in ys:
+      branches.append([mk_branch(m2, y)] +
+                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
+
+    o = [m2[1], branches]
+
+    # Recurse...
+    # Swapping the root of unity to get new polynomial
+    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
+    column_poly = fft_solver.inv_fft(column)
+    return [o] + self.generate_proximity_proof(
+        column_poly,
+        root_of_unity**4,
+        maxdeg_plus_1 // 4,
+        exclude_multiples_of=exclude_multiples_of)
+
+  def verify_proximity_proof(self,
+                             proof: List[bytes],
+                             merkle_root: bytes,
+                             root_of_unity: FieldElement,
+                             maxdeg_plus_1: int,
+                             exclude_multiples_of:int = 0,
+                             fri_spot_check_security_factor:int = 40) -> bool:
+    """Verifies proximity of this function to this RS code."""
+    # Calculate which root of unity we're working with
+    testval = root_of_unity
+    # roudeg is the power of the root of unity
+    roudeg = 1
+    while testval != 1:
+      roudeg *= 2
+      testval = (testval * testval)
+
+    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
+    quartic_roots_of_unity = [
+        1,
+        root_of_unity**(roudeg // 4),
+        root_of_unity**(roudeg // 2),
+        root_of_unity**(roudeg * 3 // 4)
+    ]
+
+    # Verify the recursive components of the proof
+    for prf in proof[:-1]:
+      root2, branches = prf
+      print('Verifying degree <= %d' % maxdeg_plus_1)
+
+      # Calculate the pseudo-random x coordinate
+      special_x = self.field(merkle_root)
+
+      # Calculate the pseudo-randomly sampled y indices
+      ys = get_pseudorandom_indices(
+          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+      # For each y coordinate, get the x coordinates on the row,
+      # the values on the row, and the value at that y from the
+      # column
+      xcoords = []
+      rows = []
+      columnvals = []
+      for i, y in enumerate(ys):
+        # The x coordinates from the polynomial
+        x1 = root_of_unity**y
+        xcoords.append(
+            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
+
+        # The values from the original polynomial
+        row = [
+            verify_branch(
+                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
+            for j, prf in zip(range(4), branches[i][1:])
+        ]
+        rows.append(row)
+
+        columnvals.append(
+            verify_branch(root2, y, branches[i][0], output_as_int=True))
+
+      # Verify for each selected y coordinate that the four
+      # points from the polynomial and the one point from the
+      # column that are on that y coordinate are on the same deg
+      # < 4 polynomial
+      polys = multi_interp_4(self.field, xcoords, rows)
+
+      for p, c in zip(polys, columnvals):
+        assert p(special_x) == c
+
+      # Update constants to check the next proof
+      merkle_root = root2
+      root_of_unity = root_of_unity**4
+      maxdeg_plus_1 //= 4
+      roudeg //= 4
+
+    # Verify the direct components of the proof
+    data = [int.from_bytes(x, 'big') for x in proof[-1]]
+    print('Verifying degree <= %d' % maxdeg_plus_1)
+    assert maxdeg_plus_1 <= 16
+
+    # Check the Merkle root matches up
+    mtree = merkelize(data)
+    assert mtree[1] == merkle_root
+
+    # Check the degree of the data
+    #powers = get_power_cycle(root_of_unity, modulus)
+    powers = get_power_cycle(root_of_unity, self.field)
+    if exclude_multiples_of:
+      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
+    else:
+      pts = range(len(data))
+
+    poly = lagrange_interp(self.field,
+            [powers[x] for x in pts[:maxdeg_plus_1]],
+            [data[x] for x in pts[:maxdeg_plus_1]])
+    for x in pts[maxdeg_plus_1:]:
+      assert poly(powers[x]) == data[x]
+
+    print('FRI proof verified')
+    return True
diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..ad9a2cc 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -10,7 +10,7 @@ from starks.merkle_tree import unpack_merkle_leaf
 from starks.polynomial import polynomials_over
 from starks.poly_utils import lagrange_interp_2
 from starks.fft import NonBinaryFFT
-from starks.fri import FRI
+from starks.fri import SmoothSubgroupFRI as FRI
 from starks.utils import generate_Xi_s
 from starks.utils import get_power_cycle
 from starks.utils import is_a_power_of_2
-- 
2.43.0


From 727a2594ba037f6a9aa3ee900ec73f1291f9a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:13 +0000
Subject: [PATCH 13/37] fix: interpolate zero inputs and outputs in the
 boundary polynomials

---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index ad9a2cc..1cd3fcf 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -92,8 +92,8 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    interpolant = lagrange_interp_2(field, [1, last_step_position],
+        [input_value, output_dim])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From 33fb91ef5cde16fcf3111b5d951090f3cc4f03a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:13 +0000
Subject: [PATCH 14/37] fix: draw any number of coefficients in
 get_pseudorandom_ks

---
 starks/stark.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 1cd3fcf..cdef27f 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -119,8 +119,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
     byte_list = [b'0x01', b'0x02', b'0x03', b'0x04']
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-  # Is the < 10 restriction needed
-  elif num < 10:
+  else:
     byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-- 
2.43.0


From 3daf5a5be49c0dc42624ee154710c8a90ec8f7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:13 +0000
Subject: [PATCH 15/37] fix: open as many spot checks as the STARK verifier
 asks for

---
 starks/stark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index cdef27f..3aecef0 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -261,7 +261,7 @@ class STARK(object):
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
-    branches = self.compute_merkle_spot_checks(mtree, l_mtree)
+    branches = self.compute_merkle_spot_checks(mtree, l_mtree, self.spot_check_security_factor)
 
     fri = FRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
-- 
2.43.0


From 1ee3c63964ce0bcd7dc8dd8af96d18bac9653d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:30 +0000
Subject: [PATCH 16/37] fix: check the committed linear combination in the
 STARK verifier

Without it the low-degree proof says nothing about the polynomials that the
spot checks open, so a proof of a false statement can be forged.
---
 starks/stark.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 3aecef0..0c3002a 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -370,14 +370,15 @@ class STARK(object):
       interpolant = lagrange_interp_2(field, [1, self.last_step_position], [input_value, output_dim])
       assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0
 
-    # TODO(rbharath): I'm commenting this out for now, but I think commenting
-    # out this check breaks security guarantees!! To fix this, we need a way
-    # of getting the dimensionwise l's, which might necessitate passing more
-    # merkle branches into the original proof. Will refactor in a subsequent
-    # PR.
-    # Check correctness of the linear combination
-    #assert (l_of_x - d_of_x - k1 * p_of_x - k2 * p_of_x * x_to_the_steps -
-    #        k3 * b_of_x - k4 * b_of_x * x_to_the_steps) % modulus == 0
+    # Check correctness of the linear combination. The power is the constant
+    # that compute_pseudorandom_linear_combination uses.
+    power = self.G2**(self.steps * (self.precision - 1))
+    l_ks = get_pseudorandom_ks(m_root, width)
+    expected_l = field(0)
+    for dim in range(width):
+      l_dim = d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * power + b_of_x[dim] * k3 + b_of_x[dim] * k4 * power
+      expected_l += l_dim + l_dim * l_ks[dim] * power
+    assert l_of_x == expected_l
 
 
   # TODO(rbharath): This method is poorly structured since it
-- 
2.43.0


From ae385b27fede361996e28c8aa8842bea19ff6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:30 +0000
Subject: [PATCH 17/37] fix: RationalModP.__ne__ referred to an undefined class

---
 starks/rationals_modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 6e547a1..269196d 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -78,7 +78,7 @@ def RationalsModP(p):
 
     @typecheck
     def __ne__(self, other):
-      return isinstance(other, IntegerModP) is False or (
+      return isinstance(other, RationalModP) is False or (
           (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)
 
     # TODO(rbharath): This should be possible to implement. Think more about it.
-- 
2.43.0


From fe0bbdc848103732e61802b750c3dc2674014dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 18/37] fix: floating point subtraction no longer flips the
 sign of its operand

---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From bc1d7ddcc75848b7bd45c99230224378ed4cd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 19/37] fix: use both significands when multiplying floating
 point numbers

---
 starks/floatingpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index a95b72f..c21964a 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -190,7 +190,7 @@ def FloatingPoint(field):
         p_c = field(polysOver([0]))
       else:
         p_c = self.p + other.p
-        p_c = p_c + num_to_binary_list(self.v.poly.degree() + self.v.poly.degree() - (self.v.m - 1))
+        p_c = p_c + num_to_binary_list(self.v.poly.degree() + other.v.poly.degree() - (self.v.m - 1))
  
       output = Fp(v_c, p_c, z_c, s_c)
       return output
-- 
2.43.0


From b92c63ff42f9659eae906efe89970fe647b93578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 20/37] fix: measure a peer's chain instead of trusting the
 length it reports

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..774f2e2 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -84,8 +84,8 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From 9b6cb41f533bc88e372655c26454b32610c54a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 21/37] fix: simulated transcripts carry the isomorphism the
 verifier checks

---
 misc/zero_knowledge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..ce1176d 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -182,7 +182,7 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ef672f984080b47dcaaacc4b7093a0ea568e14a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:13 +0000
Subject: [PATCH 22/37] fix: the 3-coloring verifier rejects a fourth color

---
 misc/zkp_3_coloring.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 0fd2419..9e22d55 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -83,6 +83,8 @@ class ZK3ColVerifier(object):
       revealed_colors.append(trueColor)
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
+      if trueColor not in (0, 1, 2):
+        return False
 
     return revealed_colors[0] != revealed_colors[1]
 
-- 
2.43.0


From cfdc93dff1267d2da304dbd2fe76693a62faf6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 23/37] fix: the graph isomorphism verifier rejects maps that
 merge vertices

---
 misc/zero_knowledge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index ce1176d..1e83e34 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -134,7 +134,11 @@ class ZKVerifier(object):
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
     is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))
-    return is_valid_isomorphism
+    # A map that merges vertices is not an isomorphism: it would take a graph
+    # of disjoint edges to any graph at all.
+    vertices = set(v for e in H for v in e)
+    is_injective = len(set(f(v) for v in vertices)) == len(vertices)
+    return is_valid_isomorphism and is_injective
 
 
 def run_protocol(G1, G2, isomorphism):
-- 
2.43.0


From 0575caf41a069ad1398fd1e346da5a82088efcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 24/37] fix: reject openings that do not cover every committed
 bit

---
 misc/commitment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..4871795 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,8 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    if not len(secrets) == len(bitCommitments) == len(self.verifiers):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From 37b8f86bbd782880c1ec4e5dced1e56e8c725ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 25/37] fix: import the names run_blockchain uses

---
 misc/run_blockchain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 6c2182b..e849506 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,9 @@
+from uuid import uuid4
+
+from flask import Flask, jsonify, request
+
+from blockchain import Blockchain
+
 # Instantiate the Node
 app = Flask(__name__)
 
-- 
2.43.0


From 28a60ff1c4ec32a4aa9dccd8798c85e57ef8ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:40 +0000
Subject: [PATCH 26/37] fix: mine only on the current tip when requests run in
 threads

---
 misc/run_blockchain.py | 49 ++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index e849506..9681d61 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,4 @@
+from threading import Lock
 from uuid import uuid4
 
 from flask import Flask, jsonify, request
@@ -13,24 +14,34 @@ node_identifier = str(uuid4()).replace('-', '')
 # Instantiate the Blockchain
 blockchain = Blockchain()
 
+# Flask serves requests in threads: one at a time may change the blockchain
+lock = Lock()
+
 
 @app.route('/mine', methods=['GET'])
 def mine():
-  # We run the proof of work algorithm to get the next proof...
-  last_block = blockchain.last_block
-  proof = blockchain.proof_of_work(last_block)
-
-  # We must receive a reward for finding the proof.
-  # The sender is "0" to signify that this node has mined a new coin.
-  blockchain.new_transaction(
-      sender="0",
-      recipient=node_identifier,
-      amount=1,
-  )
-
-  # Forge the new Block by adding it to the chain
-  previous_hash = blockchain.hash(last_block)
-  block = blockchain.new_block(proof, previous_hash)
+  block = None
+  while block is None:
+    # We run the proof of work algorithm to get the next proof...
+    last_block = blockchain.last_block
+    proof = blockchain.proof_of_work(last_block)
+
+    with lock:
+      # The proof is only good for the block it was searched on
+      if blockchain.last_block is not last_block:
+        continue
+
+      # We must receive a reward for finding the proof.
+      # The sender is "0" to signify that this node has mined a new coin.
+      blockchain.new_transaction(
+          sender="0",
+          recipient=node_identifier,
+          amount=1,
+      )
+
+      # Forge the new Block by adding it to the chain
+      previous_hash = blockchain.hash(last_block)
+      block = blockchain.new_block(proof, previous_hash)
 
   response = {
       'message': "New Block Forged",
@@ -52,8 +63,9 @@ def new_transaction():
     return 'Missing values', 400
 
   # Create a new Transaction
-  index = blockchain.new_transaction(values['sender'], values['recipient'],
-                                     values['amount'])
+  with lock:
+    index = blockchain.new_transaction(values['sender'], values['recipient'],
+                                       values['amount'])
 
   response = {'message': f'Transaction will be added to Block {index}'}
   return jsonify(response), 201
@@ -88,7 +100,8 @@ def register_nodes():
 
 @app.route('/nodes/resolve', methods=['GET'])
 def consensus():
-  replaced = blockchain.resolve_conflicts()
+  with lock:
+    replaced = blockchain.resolve_conflicts()
 
   if replaced:
     response = {
-- 
2.43.0


From 53cc8ed4b297c2fd4db554106b07ec1e1fcee790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:15 +0000
Subject: [PATCH 27/37] fix: build each APR boundary polynomial from its own
 register's constraints

---
 starks/apr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index b56e502..c0b50a1 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -212,6 +212,8 @@ class APR(object):
     for w in range(self.width):
       accum = self.polysOver([self.basePolys(1)])
       for (i, j, alpha) in B:
+        if j != w:
+          continue
         # x - g**i % zeta
         term = x - self.polysOver([((g**i) % self.zeta)])
         accum = accum * term
@@ -231,8 +233,8 @@ class APR(object):
     accums = []
     g = self.basePolys([0, 1])
     for w in range(self.width):
-      xs = [(g**i) % self.zeta for (i, _, _) in B]
-      ys = [alpha for (_, _, alpha) in B]
+      xs = [(g**i) % self.zeta for (i, j, _) in B if j == w]
+      ys = [alpha for (_, j, alpha) in B if j == w]
       # TODO(rbharath): This interpolation call is broken!
       interp = lagrange_interp(self.field, xs, ys)
       accums.append(interp)
-- 
2.43.0


From 0fe841a1817493ebfd87d4ac70b3400be19a41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:31 +0000
Subject: [PATCH 28/37] fix: the APR evaluation spaces are affine over the base
 field

---
 starks/apr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index c0b50a1..38eee5f 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -133,13 +133,13 @@ class APR(object):
     """Constructs the affine space L"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)] + [g**(1+self.k+self.R+self.t+self.d)*(1+g)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def construct_L_cmp(self,g):
     """Constructs the affine space Lcmp"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def compute_rho_js(self, Z_boundaries, L):
     """Computes rho_j
-- 
2.43.0


From 9fba88e4a5963abba092c9b2c6264d524dd957bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 29/37] fix: an unreachable node does not stop conflict
 resolution

---
 misc/blockchain.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 774f2e2..656afc2 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -81,7 +81,11 @@ class Blockchain:
 
     # Grab and verify the chains from all the nodes in our network
     for node in neighbours:
-      response = requests.get(f'http://{node}/chain')
+      try:
+        response = requests.get(f'http://{node}/chain')
+      except requests.RequestException:
+        # An unreachable node has no chain to offer
+        continue
 
       if response.status_code == 200:
         chain = response.json()['chain']
-- 
2.43.0


From ba2ee281a13aed1e88893c105eb082980b921cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 30/37] fix: registering a node does not disturb conflict
 resolution

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 656afc2..5eed14d 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -73,7 +73,8 @@ class Blockchain:
     :return: True if our chain was replaced, False if not
     """
 
-    neighbours = self.nodes
+    # Nodes may be registered while we wait for the answers
+    neighbours = list(self.nodes)
     new_chain = None
 
     # We're only looking for chains longer than ours
-- 
2.43.0


From df23b6604e77442c9f701e69dd5dad4ab473180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 31/37] fix: the verifiers reject a branch that opens an inner
 node as a leaf

---
 starks/fri.py         | 4 ++--
 starks/merkle_tree.py | 9 +++++++--
 starks/stark.py       | 7 ++++---
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 8ca7b7a..e6fb4cc 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -316,13 +316,13 @@ class SmoothSubgroupFRI(object):
         # The values from the original polynomial
         row = [
             verify_branch(
-                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
+                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True, num_leaves=roudeg)
             for j, prf in zip(range(4), branches[i][1:])
         ]
         rows.append(row)
 
         columnvals.append(
-            verify_branch(root2, y, branches[i][0], output_as_int=True))
+            verify_branch(root2, y, branches[i][0], output_as_int=True, num_leaves=roudeg // 4))
 
       # Verify for each selected y coordinate that the four
       # points from the polynomial and the one point from the
diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index 39f07ef..becbc05 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -68,8 +68,13 @@ def mk_branch(tree: List[FieldElement], index: int) -> List[FieldElement]:
   return o
 
 
-def verify_branch(root, index, proof, output_as_int=False):
-  """Verifies the proof and returns the leaf on the branch"""
+def verify_branch(root, index, proof, output_as_int=False, num_leaves=None):
+  """Verifies the proof and returns the leaf on the branch
+  
+  If the number of leaves of the tree is given, a branch that
+  opens an inner node instead of a leaf is rejected.
+  """
+  assert num_leaves is None or 2**len(proof) // 2 == num_leaves
   index = get_index_in_permuted(index, 2**len(proof) // 2)
   # I think this is a bug. Should be 2**len(proof) // 2
   # But I think it's OK since we're only doing parity checks
diff --git a/starks/stark.py b/starks/stark.py
index 0c3002a..ac949d2 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -327,17 +327,18 @@ class STARK(object):
     # Recall m is the merkle tree of the raw polynomials, and l
     # is the merkle tree of the pseudorandom combination
     # polynomial. Leaf node from m[pos]
-    mbranch1 = verify_branch(m_root, pos, branches[i * 3])
+    mbranch1 = verify_branch(m_root, pos, branches[i * 3], num_leaves=self.precision)
     unpacked_leaf1 = unpack_merkle_leaf(mbranch1, width, 3)
     # Leaf node from m[pos + extension_factor]
     mbranch2 = verify_branch(
         m_root,
         (pos + self.extension_factor) % self.precision,
-        branches[i * 3 + 1])
+        branches[i * 3 + 1],
+        num_leaves=self.precision)
     unpacked_leaf2 = unpack_merkle_leaf(mbranch2, width, 3)
     # Leaf node from l[pos]
     l_of_x = verify_branch(l_root, pos, branches[i * 3 + 2],
-        output_as_int=True)
+        output_as_int=True, num_leaves=self.precision)
 
     # This undoes the packing that's done in merkelize_polynomials
     p_of_x = [field(p_of_x_dim) for p_of_x_dim in unpacked_leaf1[:width]]
-- 
2.43.0


From 045858c65f6597ef5a03bb9db2ecc79774a80a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:40 +0000
Subject: [PATCH 32/37] fix: zero is not a power of two

---
 starks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/utils.py b/starks/utils.py
index c435ab9..cba469d 100644
--- a/starks/utils.py
+++ b/starks/utils.py
@@ -91,4 +91,4 @@ def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
 
 
 def is_a_power_of_2(x):
-  return True if x == 1 else False if x % 2 else is_a_power_of_2(x // 2)
+  return True if x == 1 else False if x < 1 or x % 2 else is_a_power_of_2(x // 2)
-- 
2.43.0


From 202023d3146ceceff655cfec07879ba146c49dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:17 +0000
Subject: [PATCH 33/37] fix: pass the FRI spot check security factor on to the
 deeper rounds

---
 starks/fri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fri.py b/starks/fri.py
index e6fb4cc..1d3fcc3 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -263,7 +263,8 @@ class SmoothSubgroupFRI(object):
         column_poly,
         root_of_unity**4,
         maxdeg_plus_1 // 4,
-        exclude_multiples_of=exclude_multiples_of)
+        exclude_multiples_of=exclude_multiples_of,
+        fri_spot_check_security_factor=fri_spot_check_security_factor)
 
   def verify_proximity_proof(self,
                              proof: List[bytes],
-- 
2.43.0


From 399d5d0a6bc6bbfa0ddf4f83c3a56ce09ffd307b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 34/37] fix: two_pow multiplies by 2^(2^i) for bit i, not
 2^(i+1)

---
 starks/finitefield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index aa96d2d..d5c4ddf 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -152,11 +152,13 @@ def FiniteField(p, m, polynomialModulus=None):
     #this function computes 2^x where x is a number in binary finite field representation and output is in in binary finite field representation
     def two_pow(self):
       num = Fq([1])
+      # 2^(2^i), starting with 2
+      power = Fq(num_to_binary_list_pow(1))
 
       for i in range(self.poly.degree()+1):
         if str(self.poly.coefficients[i])[0] == '1':
-          l = num_to_binary_list_pow(i+1)
-          num = num * Fq(l)
+          num = num * power
+        power = power * power
 
       return num
 
-- 
2.43.0


From f40e6f9f91528c7f342c32742042a25cb5654db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 35/37] fix: hash Merkle leaves and inner nodes apart, so
 openings cannot move bytes between siblings

---
 starks/merkle_tree.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index becbc05..cc0be87 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -8,6 +8,20 @@ from starks.numbertype import FieldElement
 from starks.numbertype import Poly
 
 
+def hash_leaf(leaf: bytes) -> bytes:
+  """Digest of a leaf.
+
+  Leaves and inner nodes are hashed with different prefixes, so that neither
+  can be taken for the other and bytes cannot move between two siblings.
+  """
+  return blake(b'\x00' + leaf)
+
+
+def hash_nodes(left: bytes, right: bytes) -> bytes:
+  """Digest of an inner node from the digests of its children."""
+  return blake(b'\x01' + left + right)
+
+
 def permute4(values: List) -> List:
   """Permutes the list by selecting elements a quarter down 
   
@@ -51,8 +65,9 @@ def merkelize(L: List[FieldElement]) -> List[bytes]:
       nodes.append(x)
     else:
       nodes.append(x.to_bytes())
+  digests = nodes[:len(L)] + [hash_leaf(leaf) for leaf in nodes[len(L):]]
   for i in range(len(L) - 1, 0, -1):
-    nodes[i] = blake(nodes[i * 2] + nodes[i * 2 + 1])
+    nodes[i] = digests[i] = hash_nodes(digests[i * 2], digests[i * 2 + 1])
   return nodes
 
 
@@ -80,12 +95,13 @@ def verify_branch(root, index, proof, output_as_int=False, num_leaves=None):
   # But I think it's OK since we're only doing parity checks
   #index += 2**len(proof)
   index += 2**len(proof) // 2
-  v = proof[0]
-  for p in proof[1:]:
+  v = hash_leaf(proof[0])
+  siblings = [hash_leaf(p) for p in proof[1:2]] + list(proof[2:])
+  for p in siblings:
     if index % 2:
-      v = blake(p + v)
+      v = hash_nodes(p, v)
     else:
-      v = blake(v + p)
+      v = hash_nodes(v, p)
     index //= 2
   assert v == root
   return int.from_bytes(proof[0], 'big') if output_as_int else proof[0]
-- 
2.43.0


From bd02a6af8884b49f5cfbbc359a6eb067bf7266a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:45 +0000
Subject: [PATCH 36/37] fix: verify_branch rejects positions outside of the
 tree

---
 starks/merkle_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index cc0be87..274016d 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -90,6 +90,8 @@ def verify_branch(root, index, proof, output_as_int=False, num_leaves=None):
   opens an inner node instead of a leaf is rejected.
   """
   assert num_leaves is None or 2**len(proof) // 2 == num_leaves
+  # A position outside of the tree would alias one inside
+  assert 0 <= index < 2**len(proof) // 2
   index = get_index_in_permuted(index, 2**len(proof) // 2)
   # I think this is a bug. Should be 2**len(proof) // 2
   # But I think it's OK since we're only doing parity checks
-- 
2.43.0


From 487a6e499b2e589e8b7aa2d907bcb487ea92f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:13 +0000
Subject: [PATCH 37/37] fix: valid_chain rejects blocks whose index is not
 their place in the chain

---
 misc/blockchain.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 5eed14d..e7a782c 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -45,8 +45,15 @@ class Blockchain:
     last_block = chain[0]
     current_index = 1
 
+    # Blocks are numbered from 1 on
+    if last_block['index'] != current_index:
+      return False
+
     while current_index < len(chain):
       block = chain[current_index]
+      if block['index'] != current_index + 1:
+        return False
+
       print(f'{last_block}')
       print(f'{block}')
       print("\n-----------\n")
-- 
2.43.0

