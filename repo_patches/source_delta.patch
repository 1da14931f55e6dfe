From 55d102a6bab1ceaedf6347d07bb09ade1aad577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 01/10] fix: WitherdenVincentQuadrature must not hand out its
 shared tables

The nodes and weights were the arrays of the module-level table themselves,
so that modifying one rule in place changed every rule built later.
---
 modepy/quadrature/witherden_vincent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/quadrature/witherden_vincent.py b/modepy/quadrature/witherden_vincent.py
index add2d29..c275237 100644
--- a/modepy/quadrature/witherden_vincent.py
+++ b/modepy/quadrature/witherden_vincent.py
@@ -64,5 +64,5 @@ class WitherdenVincentQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable(f"Unsupported order: {order}") from None
 
-        super().__init__(rule["points"], rule["weights"],
+        super().__init__(rule["points"].copy(), rule["weights"].copy(),
                          exact_to=rule["quad_degree"])
-- 
2.43.0


From c9d29a26704542ddf4e93f7af854b9d72fc6dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 02/10] fix: quadgk on semi-infinite intervals given in
 descending order

The transformation was selected by which end was infinite and not by the sign
of the infinite end, so that e.g. (inf, 0) integrated over (-inf, 0).
---
 modepy/quadrature/kronrod.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modepy/quadrature/kronrod.py b/modepy/quadrature/kronrod.py
index 35e98de..c64581d 100644
--- a/modepy/quadrature/kronrod.py
+++ b/modepy/quadrature/kronrod.py
@@ -486,10 +486,12 @@ def _do_quadgk(
         if inf1 or inf2:
             if inf1 and inf2:
                 g, sm = _transform_both_inf(f, s)
-            elif inf1:
-                g, sm = _transform_semi_inf_neg(f, s2, s)
             else:
-                g, sm = _transform_semi_inf_pos(f, s1, s)
+                s0, si = (s2, s1) if inf1 else (s1, s2)
+                if si < 0:
+                    g, sm = _transform_semi_inf_neg(f, s0, s)
+                else:
+                    g, sm = _transform_semi_inf_pos(f, s0, s)
             return _do_quadgk(g, sm, n, abstol, reltol, maxevals)
 
     x, w, gw = kronrod(n)
-- 
2.43.0


From 896c1bca6379a930066d4453d3be972325fc0e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:45 +0000
Subject: [PATCH 03/10] fix: make TensorProductShape and QN picklable and
 copyable

Their __new__ takes arguments that the pickle protocol was not given.
---
 modepy/shapes.py | 4 ++++
 modepy/spaces.py | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/modepy/shapes.py b/modepy/shapes.py
index 24f9363..6888a09 100644
--- a/modepy/shapes.py
+++ b/modepy/shapes.py
@@ -374,6 +374,10 @@ class TensorProductShape(Shape):
         super().__init__(dim)
         object.__setattr__(self, "bases", bases)
 
+    def __getnewargs__(self) -> tuple[Any, ...]:
+        # NOTE: ensures TensorProductShape is picklable
+        return (self.bases,)
+
     @property
     @override
     def nvertices(self) -> int:
diff --git a/modepy/spaces.py b/modepy/spaces.py
index e328c54..ae5aefd 100644
--- a/modepy/spaces.py
+++ b/modepy/spaces.py
@@ -272,6 +272,11 @@ class QN(TensorProductSpace):
     def __init__(self, spatial_dim: int, order: int) -> None:
         super().__init__((PN(1, order),) * spatial_dim)
 
+    @override
+    def __getnewargs__(self):
+        # Ensures QN is picklable
+        return (self.spatial_dim, self.order)
+
     @property
     @override
     def order(self):
-- 
2.43.0


From 09d7e630c705fdad9b440dbdd2bdaf00a0a41c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:01 +0000
Subject: [PATCH 04/10] fix: make the functions from Basis.derivatives
 picklable

Like those from functions and gradients, which are module-level or partials.
---
 modepy/modes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modepy/modes.py b/modepy/modes.py
index 9374a63..1b9c364 100644
--- a/modepy/modes.py
+++ b/modepy/modes.py
@@ -775,6 +775,11 @@ class BasisNotOrthonormal(Exception):
     """Exception raised when a :class:`Basis` is expected to be orthonormal."""
 
 
+def _evaluate_gradient_axis(
+            gradient: BasisGradient, axis: int, nodes: ArrayF) -> ArrayF:
+    return gradient(nodes)[axis]
+
+
 class Basis(ABC):
     @abstractmethod
     def orthonormality_weight(self) -> float:
@@ -831,7 +836,7 @@ class Basis(ABC):
         .. versionadded:: 2024.1.1
         """
         return tuple(
-            partial(lambda fi_inner, nodes: fi_inner(nodes)[axis], fi)
+            partial(_evaluate_gradient_axis, fi, axis)
             for fi in self.gradients
         )
 
-- 
2.43.0


From 0e759137401164493ebf8d19935fcaec58457111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:01 +0000
Subject: [PATCH 05/10] fix: spectral_diag_nodal_mass_matrix must not alias the
 rule's weights

Scaling the returned mass matrix in place silently changed the quadrature.
---
 modepy/matrices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modepy/matrices.py b/modepy/matrices.py
index 1e0547a..f658188 100644
--- a/modepy/matrices.py
+++ b/modepy/matrices.py
@@ -477,7 +477,7 @@ def spectral_diag_nodal_mass_matrix(
     if not all(quad.dim == 1 for quad in quadrature.quadratures):
         raise ValueError("constituent quadratures of TP quadrature must be 1D")
 
-    return quadrature.weights
+    return quadrature.weights.copy()
 
 
 # {{{ deprecated remove in 2026-ish
-- 
2.43.0


From 8c9f2c99effa015f8721d3c3d12d9c6530c79f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 06/10] fix: make the contrib rule converters emit loadable
 modules

The Festa-Sommariva template lost its string quotes and assigned to a read-only
property, and the other two used dict.iteritems and did not import numpy.
---
 contrib/weights-from-festa-sommariva.py | 6 +++---
 contrib/weights-from-fortran.py         | 4 ++--
 contrib/weights-from-txt.py             | 5 +++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/contrib/weights-from-festa-sommariva.py b/contrib/weights-from-festa-sommariva.py
index ca72046..b8cdc22 100644
--- a/contrib/weights-from-festa-sommariva.py
+++ b/contrib/weights-from-festa-sommariva.py
@@ -36,8 +36,8 @@ class FestaSommarivaQuadrature(Quadrature):
         except KeyError:
             raise QuadratureRuleUnavailable
 
-        super().__init__(rule["points"], rule["weights"])
-        self.exact_to = rule["quad_degree"]
+        super().__init__(rule["points"], rule["weights"],
+                         exact_to=rule["quad_degree"])
 
 
 def process_rules(rules):
@@ -101,7 +101,7 @@ def generate_festa_sommariva_quadrature_rules(outfile):
         print(f"degree {d} points {xw.shape[0]} / {(d + 1) * (d + 2) // 2}")
 
     from pprint import pformat
-    txt = (_PYTHON_TEMPLATE % pformat(rules, width=80)).replace('"', "")
+    txt = _PYTHON_TEMPLATE % pformat(rules, width=80)
 
     if outfile:
         with open(outfile, "w") as fd:
diff --git a/contrib/weights-from-fortran.py b/contrib/weights-from-fortran.py
index c918530..eb22f9a 100644
--- a/contrib/weights-from-fortran.py
+++ b/contrib/weights-from-fortran.py
@@ -79,9 +79,9 @@ quad_degree = "quad_degree"
 
 def process_rule(table):
     result = {{}}
-    for order, kv in table.iteritems():
+    for order, kv in table.items():
         result[order] = order_tbl = {{}}
-        for k, v in kv.iteritems():
+        for k, v in kv.items():
             if isinstance(v, list):
                 v = [i for i in v if not isinstance(i, list) or len(i)]
                 v = np.array(v)
diff --git a/contrib/weights-from-txt.py b/contrib/weights-from-txt.py
index e256af7..1c21f8e 100755
--- a/contrib/weights-from-txt.py
+++ b/contrib/weights-from-txt.py
@@ -34,11 +34,12 @@ while i < len(lines):
 from pprint import pformat
 
 
+print("import numpy\n\n")
 print(f"{rule_name} = {pformat(table)}")
 
 print(f"""
 
 {rule_name} = dict(
-    (order, dict((name, numpy.array(ary)) for name, ary in rule.iteritems()))
-    for order, rule in {rule_name}.iteritems())
+    (order, dict((name, numpy.array(ary)) for name, ary in rule.items()))
+    for order, rule in {rule_name}.items())
 """)
-- 
2.43.0


From 63eba995bc8016673c1d6b6ef537b7e64769cdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 07/10] fix: contrib/weights-from-womersley must not leave or
 accept partial files

An interrupted download was taken for the complete archive by every later run,
a short response body went unnoticed, an interrupted save left a torn output
file, and the exists check looked at a different name than np.savez writes to.
---
 contrib/weights-from-womersley.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/contrib/weights-from-womersley.py b/contrib/weights-from-womersley.py
index 3299f80..c9fb3a5 100644
--- a/contrib/weights-from-womersley.py
+++ b/contrib/weights-from-womersley.py
@@ -12,6 +12,7 @@ The quadrature rules were extracted from
 
 from __future__ import annotations
 
+import os
 import pathlib
 import re
 import sys
@@ -63,7 +64,8 @@ def download_from_web_if_not_present(url: str, local_name: str | None = None) ->
         downloaded = 0
         chunk_size = 8192
 
-        with open(local_name, "wb") as outf:
+        part_name = f"{local_name}.part"
+        with open(part_name, "wb") as outf:
             while True:
                 chunk = response.read(chunk_size)
                 if not chunk:
@@ -80,6 +82,11 @@ def download_from_web_if_not_present(url: str, local_name: str | None = None) ->
                     sys.stdout.write(f"\rDownloaded {downloaded / 1025}KB")
                 sys.stdout.flush()
 
+        if content_length is not None and downloaded != size:
+            raise OSError(f"incomplete download: got {downloaded} of {size} bytes")
+
+        # only ever leave a complete file behind under the final name
+        os.replace(part_name, local_name)
         print("\n")
 
 
@@ -129,6 +136,10 @@ def extract_womersley_quadrature_rules(
     *,
     force: bool = False,
 ) -> int:
+    if outfile.suffix != ".npz":
+        # this is where np.savez would put it
+        outfile = outfile.with_name(f"{outfile.name}.npz")
+
     if not force and outfile.exists():
         print(f"ERROR: File already exists (pass --force): '{outfile}'")
         return 1
@@ -137,7 +148,9 @@ def extract_womersley_quadrature_rules(
     sf_rules = extract_rules(WOMERSLEY_SF_URL, cwd=cwd)
     ss_rules = extract_rules(WOMERSLEY_SS_URL, cwd=cwd)
 
-    np.savez(outfile, sf_rules=sf_rules, ss_rules=ss_rules)
+    tmpfile = outfile.with_name(f"{outfile.stem}.part.npz")
+    np.savez(tmpfile, sf_rules=sf_rules, ss_rules=ss_rules)
+    os.replace(tmpfile, outfile)
 
     return 0
 
-- 
2.43.0


From 7ddbe578c459e95c324409869e56f9e765a787b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:56 +0000
Subject: [PATCH 08/10] fix: orthogonalize_basis without scipy

The general inverse leaves rounding errors above the diagonal, which made the
following assertion fail for larger bases.
---
 modepy/quadrature/construction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index 6a906a3..e5e182d 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -196,7 +196,8 @@ def orthogonalize_basis(
         from scipy.linalg import solve_triangular
     except ImportError:
         # *shrug* I guess? The triangular version is also O(n**3).
-        l_inv = la.inv(l_factor)
+        # It does not know about the triangular structure, though.
+        l_inv = np.tril(la.inv(l_factor))
     else:
         l_inv = solve_triangular(l_factor, np.eye(n), lower=True)
 
-- 
2.43.0


From c0881112183b42bf10a6422d67c7efb6411c2168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:41 +0000
Subject: [PATCH 09/10] fix: contrib converters must not take a torn download
 for the source

An interrupted or failed write of the downloaded archive left a partial file
under its final name, which every later run took for the complete one: the
Festa-Sommariva converter then wrote a table with rules missing and reported
success, the Witherden-Vincent one could not run any more.
---
 contrib/weights-from-festa-sommariva.py   | 13 ++++++++++---
 contrib/weights-from-witherden-vincent.py | 12 +++++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/contrib/weights-from-festa-sommariva.py b/contrib/weights-from-festa-sommariva.py
index b8cdc22..c7f437c 100644
--- a/contrib/weights-from-festa-sommariva.py
+++ b/contrib/weights-from-festa-sommariva.py
@@ -13,7 +13,9 @@ These rules are licensed under the GPL and are not included by default.
 """
 from __future__ import annotations
 
+import os
 import re
+import tempfile
 
 import numpy as np
 
@@ -56,9 +58,14 @@ square_data = process_rules(%s)"""
 
 def generate_festa_sommariva_quadrature_rules(outfile):
     filename = "set_amr_square.m"
-    download_from_web_if_not_present(
-            url=f"{_URL}",
-            local_name=filename)
+    if not os.path.exists(filename):
+        # only ever leave a complete file behind under the final name
+        with tempfile.TemporaryDirectory(dir=".") as tmpdir:
+            tmpname = os.path.join(tmpdir, filename)
+            download_from_web_if_not_present(
+                    url=f"{_URL}",
+                    local_name=tmpname)
+            os.replace(tmpname, filename)
 
     with open(filename) as fd:
         mfile = fd.read()
diff --git a/contrib/weights-from-witherden-vincent.py b/contrib/weights-from-witherden-vincent.py
index f4ae78c..0ce301f 100644
--- a/contrib/weights-from-witherden-vincent.py
+++ b/contrib/weights-from-witherden-vincent.py
@@ -12,6 +12,7 @@ They are available under a Creative Commons license.
 from __future__ import annotations
 
 import os
+import tempfile
 
 import numpy as np
 
@@ -52,9 +53,14 @@ hex_data = process_rules(%s)"""
 
 def generate_witherden_vincent_quadrature_rules(outfile):
     filename = "witherden_vincent.zip"
-    download_from_web_if_not_present(
-            url="https://ars.els-cdn.com/content/image/1-s2.0-S0898122115001224-mmc1.zip",
-            local_name=filename)
+    if not os.path.exists(filename):
+        # only ever leave a complete file behind under the final name
+        with tempfile.TemporaryDirectory(dir=".") as tmpdir:
+            tmpname = os.path.join(tmpdir, filename)
+            download_from_web_if_not_present(
+                    url="https://ars.els-cdn.com/content/image/1-s2.0-S0898122115001224-mmc1.zip",
+                    local_name=tmpname)
+            os.replace(tmpname, filename)
 
     import zipfile
     with zipfile.ZipFile(filename, "r") as zp:
-- 
2.43.0


From 93530ab53e3a1dffe3aca2f839013060270c1969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:33 +0000
Subject: [PATCH 10/10] fix: integrands must pass on a StopIteration raised by
 a function

---
 modepy/quadrature/construction.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/modepy/quadrature/construction.py b/modepy/quadrature/construction.py
index e5e182d..1ace269 100644
--- a/modepy/quadrature/construction.py
+++ b/modepy/quadrature/construction.py
@@ -59,7 +59,9 @@ class _ProductIntegrand:
     functions: Sequence[NodalFunction]
 
     def __call__(self, points: ArrayF) -> ArrayF:
-        return reduce(operator.mul, (f(points) for f in self.functions))
+        # not a generator expression: that would turn a StopIteration raised by a
+        # function into a RuntimeError
+        return reduce(operator.mul, [f(points) for f in self.functions])
 
 
 @dataclass(frozen=True)
@@ -97,10 +99,12 @@ class LinearCombinationIntegrand:
         """Evaluate the linear combination of :attr:`functions` with
         :attr:`coefficients` at *points*.
         """
-        return sum(
-            (coeff * func(points)
-                for coeff, func in zip(self.coefficients, self.functions, strict=True)),
-            np.zeros(()))
+        # not a generator expression, see _ProductIntegrand
+        result = np.zeros(())
+        for coeff, func in zip(self.coefficients, self.functions, strict=True):
+            result = result + coeff * func(points)
+
+        return result
 
 
 def linearly_combine(
-- 
2.43.0

