From 5daddd31d63702c16ba5274ba6c785bde5848079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 01/51] fix: record the exponent, not zero, in a signomial
 power's ast

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..12c5b08 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -236,10 +236,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = Signomial(1)
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From 5bbbb9052b14f4f375ec0899b39d4f1bb9968341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 02/51] fix: leaving a nested SignomialsEnabled restores the
 outer permission

---
 gpkit/globals.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..f36d3bf 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -65,9 +65,16 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
         >>> gpkit.Model(x, constraints).localsolve()
     """
     _true = False  # default signomial permissions
-    # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+
+    def __init__(self):
+        self._outer = []  # permissions in force at each entry
+
+    def __enter__(self):
+        self._outer.append(SignomialsEnabled._true)
+        SignomialsEnabled._true = True
+
+    def __exit__(self, type_, val, traceback):
+        SignomialsEnabled._true = self._outer.pop()
 
 
 class Vectorize:
-- 
2.43.0


From 3401edbc8483232fd84601ea2aef074011a11b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 03/51] fix: do not store one solve's arguments in the default
 solver arguments

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..4ab5d5c 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -189,7 +189,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
-        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {})
+        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {}).copy()
         solverargs.update(kwargs)
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
-- 
2.43.0


From 23b9f382582e7238755b17fb7e1757ceb495efe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 04/51] fix: infeasible programs without a model raise instead
 of calling None.debug

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 4ab5d5c..9fe3bab 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -224,7 +224,7 @@ class GeometricProgram:
             elif isinstance(infeasibility, UnknownInfeasible):
                 msg = "The solver failed for an unknown reason."
             if (verbosity > 0 and solver_out["soltime"] < 1
-                    and hasattr(self, "model")):  # fast, top-level model
+                    and self.model is not None):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
                 return self.model.debug(solver=solver)
-- 
2.43.0


From 69c3be96c61d0404c38fc0f6cd61e64a7af9af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:12 +0000
Subject: [PATCH 05/51] fix: a GeometricProgram cleans a copy of the caller's
 substitutions

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 9fe3bab..6aced7c 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -71,7 +71,7 @@ class GeometricProgram:
     _result = solve_log = solver_out = model = v_ss = nu_by_posy = None
 
     def __init__(self, cost, constraints, substitutions, *, checkbounds=True):
-        self.cost, self.substitutions = cost, substitutions
+        self.cost, self.substitutions = cost, dict(substitutions)
         for key, sub in self.substitutions.items():
             if isinstance(sub, FixedScalar):
                 sub = sub.value
-- 
2.43.0


From 99e396b51ac92b6d012346b3f0da673a23cf1c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 06/51] fix: deleting from a KeyDict leaves other copies,
 indexes, and lookups intact

---
 gpkit/keydict.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..f5eb45e 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -253,23 +253,24 @@ class KeyDict(KeyMap, dict):
             keys = self.keymap[key]
             if not keys:
                 raise KeyError(key)
-            for k in keys:
+            for k in list(keys):
                 del self[k]
         else:
-            key = key.key
-            veckey, idx = self.parse_and_index(key)
-            if idx is None:
-                super().__delitem__(key)
-            else:
-                super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
+            key, idx = self.parse_and_index(key)
+            if idx is not None:
+                self._copyonwrite(key)
+                super().__getitem__(key)[idx] = np.nan
+                if not isnan(super().__getitem__(key)).all():
+                    return  # other indexes still have values
+            super().__delitem__(key)
+            self.owned.discard(key)
+            self._unmapped_keys.discard(key)
             copiedonwrite = set()  # to save time, .update() does not copy
             mapkeys = set([key])
             if key.keys:
                 mapkeys.update(key.keys)
             for mapkey in mapkeys:
-                if mapkey in self.keymap:
+                if key in self.keymap.get(mapkey, ()):
                     if len(self.keymap[mapkey]) == 1:
                         del self.keymap[mapkey]
                         continue
-- 
2.43.0


From 670dc63976be2a130b8018797bf2e439d1dc83db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 07/51] fix: a KeyDict does not write into arrays handed to it

---
 gpkit/keydict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index f5eb45e..741e63c 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -142,7 +142,9 @@ class KeyDict(KeyMap, dict):
         if not hasattr(self, "owned"):  # backwards pickle compatibility
             self.owned = set()
         if key not in self.owned:
-            super().__setitem__(key, super().__getitem__(key).copy())
+            value = super().__getitem__(key)
+            if hasattr(value, "copy"):  # sweeps and functions don't need it
+                super().__setitem__(key, value.copy())
             self.owned.add(key)
 
     def update(self, *args, **kwargs):
@@ -244,7 +246,7 @@ class KeyDict(KeyMap, dict):
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
         super().__setitem__(key, value)
-        self.owned.add(key)
+        self.owned.discard(key)  # the value may be in use elsewhere
 
     def __delitem__(self, key):
         "Overloads del [] to work with all keys"
-- 
2.43.0


From eaa82ff5e6d45cd895c64906744547cb524b68e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 08/51] fix: writing to a KeyDict does not change copies made
 from it

---
 gpkit/keydict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 741e63c..2a8b378 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -153,6 +153,7 @@ class KeyDict(KeyMap, dict):
             super().update(args[0])
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
+            self.owned, args[0].owned = set(), set()  # values are now shared
         else:
             for k, v in dict(*args, **kwargs).items():
                 self[k] = v
-- 
2.43.0


From 2710fdd245c2ef1291b5586629c89073fade379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 09/51] fix: looking up an absent name does not make it appear
 contained

---
 gpkit/keydict.py        | 4 ++--
 gpkit/solution_array.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 2a8b378..bfd8432 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -253,7 +253,7 @@ class KeyDict(KeyMap, dict):
         "Overloads del [] to work with all keys"
         if not hasattr(key, "key"):  # not a keyed object
             self.update_keymap()
-            keys = self.keymap[key]
+            keys = self.keymap.get(key)
             if not keys:
                 raise KeyError(key)
             for k in list(keys):
@@ -297,4 +297,4 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
-        return self.keymap[key]
+        return self.keymap.get(key, set())
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..3f90e8f 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -343,7 +343,7 @@ class SolutionArray(DictOfLists):
             self._name_collision_varkeys = set()
             for key in list(keymap):
                 if hasattr(key, "key"):
-                    if len(keymap[key.str_without(["lineage", "vec"])]) > 1:
+                    if len(keymap.get(key.str_without(["lineage", "vec"]), ())) > 1:
                         self._name_collision_varkeys.add(key)
         return self._name_collision_varkeys
 
@@ -627,7 +627,7 @@ class SolutionArray(DictOfLists):
         showvars_out = set()
         for k in showvars:
             k, _ = self["variables"].parse_and_index(k)
-            keys = self["variables"].keymap[k]
+            keys = self["variables"].keymap.get(k, ())
             showvars_out.update(keys)
         return showvars_out
 
-- 
2.43.0


From 17143c9e35c7f0ae6542f6dd663f249f169ccc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 10/51] fix: sweeps restore zero, array, and absent
 substitutions, also when a solve fails

---
 gpkit/constraints/model.py | 14 ++++++++------
 gpkit/tools/autosweep.py   | 31 +++++++++++++++++--------------
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..f7d0c27 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -137,16 +137,18 @@ class Model(CostedConstraintSet):
         "Sweeps {var: values} pairs in sweeps. Returns swept solutions."
         sols = []
         for sweepvar, sweepvals in sweeps.items():
+            was_substituted = sweepvar in self.substitutions
             original_val = self.substitutions.get(sweepvar, None)
             self.substitutions.update({sweepvar: ('sweep', sweepvals)})
             try:
-                sols.append(self.solve(**solveargs))
-            except InvalidGPConstraint:
-                sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
+                try:
+                    sols.append(self.solve(**solveargs))
+                except InvalidGPConstraint:
+                    sols.append(self.localsolve(**solveargs))
+            finally:
                 del self.substitutions[sweepvar]
+                if was_substituted:
+                    self.substitutions[sweepvar] = original_val
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..c2aec5b 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -225,30 +225,33 @@ class SolutionOracle:
 
 def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     "Autosweep a model over one sweepvar"
+    was_substituted = sweepvar in model.substitutions
     original_val = model.substitutions.get(sweepvar, None)
     start_time = time()
     solvekwargs.setdefault("verbosity", 1)
     solvekwargs["verbosity"] -= 1
     sols = Count().next
     firstsols = []
-    for bound in bounds:
-        model.substitutions.update({sweepvar: bound})
-        try:
-            model.solve(**solvekwargs)
-            firstsols.append(model.program.result)
-        except InvalidGPConstraint:
-            raise InvalidGPConstraint("only GPs can be autoswept.")
-        sols()
-    bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
-    tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    try:
+        for bound in bounds:
+            model.substitutions.update({sweepvar: bound})
+            try:
+                model.solve(**solvekwargs)
+                firstsols.append(model.program.result)
+            except InvalidGPConstraint:
+                raise InvalidGPConstraint("only GPs can be autoswept.")
+            sols()
+        bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
+        tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    finally:
+        if sweepvar in model.substitutions:
+            del model.substitutions[sweepvar]
+        if was_substituted:
+            model.substitutions[sweepvar] = original_val
     bst.nsols = sols()  # pylint: disable=attribute-defined-outside-init
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From bd22a08cf5e46ea67cde365781e98402b7fcb1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 11/51] fix: debugging a model without substitutions

---
 gpkit/constraints/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index f7d0c27..fdc5bee 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -176,6 +176,7 @@ class Model(CostedConstraintSet):
         solveargs["process_result"] = False
 
         bounded = Bounded(self)
+        tants = None
         if self.substitutions:
             tants = ConstantsRelaxed(bounded)
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
@@ -189,7 +190,8 @@ class Model(CostedConstraintSet):
                 sol = feas.sp(use_pccp=False).localsolve(**solveargs)
             # limited results processing
             bounded.check_boundaries(sol)
-            tants.check_relaxed(sol)
+            if tants is not None:
+                tants.check_relaxed(sol)
         except Infeasible:
             if verbosity:
                 print("<DEBUG> Model is not feasible with relaxed constants"
-- 
2.43.0


From 9865924c06af7f6f7ddbc5e3c988e10828cd7250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 12/51] fix: format the unknown-operator error of relaxed()

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 12c5b08..4d5d332 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -389,7 +389,7 @@ class ScalarSingleEquationConstraint(SingleEquationConstraint):
             return [self.left <= relaxvar*self.right,
                     relaxvar*self.left >= self.right]
         raise ValueError(
-            "Constraint %s had unknown operator %s." % self.oper, self)
+            "Constraint %s had unknown operator %s." % (self, self.oper))
 
 
 # pylint: disable=too-many-instance-attributes, invalid-unary-operand-type
-- 
2.43.0


From 4c97b5da77eb2e8015bc13dffedc4f45f62dddf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:18 +0000
Subject: [PATCH 13/51] fix: unit division cache is keyed by units, not their
 (reusable) ids

---
 gpkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..08ad431 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,7 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        key = (numerator.units, denominator.units)
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From a36f8b123ce83b57d7057dd9100183f281c99742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:23 +0000
Subject: [PATCH 14/51] fix: hiding small values in a table does not erase them
 from the solution

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 3f90e8f..7bf9fa2 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -781,7 +781,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
-            v[np.abs(v) <= minval] = np.nan
+            v = np.where(np.abs(v) <= minval, np.nan, v)
         model = lineagestr(k.lineage) if sortbymodel else ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
-- 
2.43.0


From 97cc100a801a827e58b1031739506999d9e712ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:28 +0000
Subject: [PATCH 15/51] fix: strings without unnecessary lineage are not reused
 where it's necessary

---
 gpkit/repr_conventions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 1f07615..2c1b073 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -93,7 +93,9 @@ class ReprMixin:
         "Turns the AST of this object's construction into a faithful string"
         if self.cached_strs is None:
             self.cached_strs = {}
-        elif frozenset(excluded) in self.cached_strs:
+        elif (frozenset(excluded) in self.cached_strs
+              # which lineages are necessary depends on what's printed
+              and "unnecessary lineage" not in excluded):
             return self.cached_strs[frozenset(excluded)]
         aststr = None
         oper, values = self.ast  # pylint: disable=unpacking-non-sequence
-- 
2.43.0


From 393e55c672c0262ef22d6b167ee59fa1bc9fe3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 16/51] fix: lineage marks put on variables by a report are
 removed if it fails

---
 gpkit/constraints/set.py    | 15 +++----
 gpkit/interactive/sankey.py | 79 +++++++++++++++++-----------------
 gpkit/repr_conventions.py   | 14 ++++++
 gpkit/solution_array.py     | 85 +++++++++++++++++--------------------
 4 files changed, 98 insertions(+), 95 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 830d97b..871e7ce 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -5,7 +5,7 @@ from itertools import chain
 import numpy as np
 from ..keydict import KeySet, KeyDict
 from ..small_scripts import try_str_without
-from ..repr_conventions import ReprMixin
+from ..repr_conventions import ReprMixin, necessary_lineage
 from .single_equation import SingleEquationConstraint
 
 
@@ -215,17 +215,14 @@ class ConstraintSet(list, ReprMixin):
         root, rootlines = "root" not in excluded, []
         if root:
             excluded = excluded.union(["root"])
-            if "unnecessary lineage" in excluded:
-                for key in self.name_collision_varkeys():
-                    key.descr["necessarylineage"] = True
-            if hasattr(self, "_rootlines"):
+        mark = root and "unnecessary lineage" in excluded
+        with necessary_lineage(self.name_collision_varkeys() if mark else ()):
+            if root and hasattr(self, "_rootlines"):
                 rootlines = self._rootlines(excluded)  # pylint: disable=no-member
-        lines = recursively_line(self, excluded)
+            lines = recursively_line(self, excluded)
         indent = " " if getattr(self, "lineage", None) else ""
-        if root and "unnecessary lineage" in excluded:
+        if mark:
             indent += " "
-            for key in self.name_collision_varkeys():
-                del key.descr["necessarylineage"]
         return rootlines + [(indent+line).rstrip() for line in lines]
 
     def str_without(self, excluded=("unnecessary lineage", "units")):
diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 24c7f28..5fc4384 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -6,7 +6,7 @@ from collections.abc import Iterable
 import numpy as np
 from ipywidgets import Layout
 from ipysankeywidget import SankeyWidget
-from ..repr_conventions import lineagestr, unitstr
+from ..repr_conventions import lineagestr, unitstr, necessary_lineage
 from .. import Model, GPCOLORS
 from ..constraints.array import ArrayConstraint
 
@@ -153,46 +153,43 @@ class Sankey:
         self.maxlinks = maxlinks
         self.showconstraints = showconstraints
 
-        for key in self.solution.name_collision_varkeys():
-            key.descr["necessarylineage"] = True
-
-        if variable:
-            if not varlabel:
-                varlabel = variable.str_without(["unnecessary lineage"])
-                if len(varlabel) > 20:
-                    varlabel = variable.str_without(["lineage"])
-            self.nodes[varlabel] = {"id": varlabel, "title": varlabel}
-            csetnode = self.add_node(varlabel, self.csetlabel)
-            if variable.key in self.solution["sensitivities"]["cost"]:
-                costnode = self.add_node(varlabel, "[cost function]")
-                self.links[costnode, varlabel] = \
-                    self.solution["sensitivities"]["cost"][variable.key]
-        else:
-            csetnode = self.csetlabel
-            self.nodes[self.csetlabel] = {"id": self.csetlabel,
-                                          "title": self.csetlabel}
-        total_sens = self.link(self.cset, csetnode, variable)
-        if variable:
-            self.links[csetnode, varlabel] = total_sens
-
-        links, nodes = self._links_and_nodes()
-        out = SankeyWidget(nodes=nodes, links=links, margins=margins,
-                           layout=Layout(width=str(width), height=str(height)))
-
-        filename = self.csetlabel
-        if variable:
-            filename += "_" + variable.str_without(["unnecessary lineage",
-                                                    "units"])
-        if not os.path.isdir("sankey_autosaves"):
-            os.makedirs("sankey_autosaves")
-        filename = "sankey_autosaves" + os.path.sep + cleanfilename(filename)
-        out.auto_save_png(filename + ".png")
-        out.auto_save_svg(filename + ".svg")
-        out.on_node_clicked(self.onclick)
-        out.on_link_clicked(self.onclick)
-
-        for key in self.solution.name_collision_varkeys():
-            del key.descr["necessarylineage"]
+        with necessary_lineage(self.solution.name_collision_varkeys()):
+            if variable:
+                if not varlabel:
+                    varlabel = variable.str_without(["unnecessary lineage"])
+                    if len(varlabel) > 20:
+                        varlabel = variable.str_without(["lineage"])
+                self.nodes[varlabel] = {"id": varlabel, "title": varlabel}
+                csetnode = self.add_node(varlabel, self.csetlabel)
+                if variable.key in self.solution["sensitivities"]["cost"]:
+                    costnode = self.add_node(varlabel, "[cost function]")
+                    self.links[costnode, varlabel] = \
+                        self.solution["sensitivities"]["cost"][variable.key]
+            else:
+                csetnode = self.csetlabel
+                self.nodes[self.csetlabel] = {"id": self.csetlabel,
+                                              "title": self.csetlabel}
+            total_sens = self.link(self.cset, csetnode, variable)
+            if variable:
+                self.links[csetnode, varlabel] = total_sens
+
+            links, nodes = self._links_and_nodes()
+            out = SankeyWidget(nodes=nodes, links=links, margins=margins,
+                               layout=Layout(width=str(width),
+                                             height=str(height)))
+
+            filename = self.csetlabel
+            if variable:
+                filename += "_" + variable.str_without(["unnecessary lineage",
+                                                        "units"])
+            if not os.path.isdir("sankey_autosaves"):
+                os.makedirs("sankey_autosaves")
+            filename = ("sankey_autosaves" + os.path.sep
+                        + cleanfilename(filename))
+            out.auto_save_png(filename + ".png")
+            out.auto_save_svg(filename + ".svg")
+            out.on_node_clicked(self.onclick)
+            out.on_link_clicked(self.onclick)
         return out
 
     def _links_and_nodes(self, top_node=None):
diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 2c1b073..ba4eead 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -1,6 +1,7 @@
 "Repository for representation standards"
 import sys
 import re
+from contextlib import contextmanager
 import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
@@ -26,6 +27,19 @@ def lineagestr(lineage, modelnums=True):
                      for name, num in lineage]) if lineage else ""
 
 
+@contextmanager
+def necessary_lineage(keys):
+    "Marks the lineage of some varkeys as necessary to print, while in context"
+    marked = [key for key in keys if not key.necessarylineage]
+    try:
+        for key in marked:
+            key.descr["necessarylineage"] = True
+        yield
+    finally:
+        for key in marked:
+            key.descr.pop("necessarylineage", None)
+
+
 def unitstr(units, into="%s", options=UNIT_FORMATTING, dimless=""):
     "Returns the string corresponding to an object's units."
     if hasattr(units, "units") and isinstance(units.units, Quantity):
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 7bf9fa2..d9c9639 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -10,7 +10,7 @@ import numpy as np
 from .nomials import NomialArray
 from .small_classes import DictOfLists, Strings
 from .small_scripts import mag, try_str_without
-from .repr_conventions import unitstr, lineagestr
+from .repr_conventions import unitstr, lineagestr, necessary_lineage
 
 
 CONSTRSPLITPATTERN = re.compile(r"([^*]\*[^*])|( \+ )|( >= )|( <= )|( = )")
@@ -343,7 +343,8 @@ class SolutionArray(DictOfLists):
             self._name_collision_varkeys = set()
             for key in list(keymap):
                 if hasattr(key, "key"):
-                    if len(keymap.get(key.str_without(["lineage", "vec"]), ())) > 1:
+                    name = key.str_without(["lineage", "vec"])
+                    if len(keymap.get(name, ())) > 1:
                         self._name_collision_varkeys.add(key)
         return self._name_collision_varkeys
 
@@ -507,14 +508,11 @@ class SolutionArray(DictOfLists):
         "Returns list of variables, optionally with minimal unique names"
         if showvars:
             showvars = self._parse_showvars(showvars)
-        for key in self.name_collision_varkeys():
-            key.descr["necessarylineage"] = True
-        names = {}
-        for key in showvars or self["variables"]:
-            for k in self["variables"].keymap[key]:
-                names[k.str_without(exclude)] = k
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
+        with necessary_lineage(self.name_collision_varkeys()):
+            names = {}
+            for key in showvars or self["variables"]:
+                for k in self["variables"].keymap[key]:
+                    names[k.str_without(exclude)] = k
         return names
 
     def savemat(self, filename="solution.mat", showvars=None,
@@ -685,41 +683,38 @@ class SolutionArray(DictOfLists):
                 break
         if has_only_one_model:
             kwargs["sortbymodel"] = False
-        for key in self.name_collision_varkeys():
-            key.descr["necessarylineage"] = True
-        showvars = self._parse_showvars(showvars)
-        strs = []
-        for table in tables:
-            if table == "cost":
-                cost = self["cost"]  # pylint: disable=unsubscriptable-object
-                if kwargs.get("latex", None):  # cost is not printed for latex
-                    continue
-                strs += ["\n%s\n------------" % "Optimal Cost"]
-                if len(self) > 1:
-                    costs = ["%-8.3g" % c for c in mag(cost[:4])]
-                    strs += [" [ %s %s ]" % ("  ".join(costs),
-                                             "..." if len(self) > 4 else "")]
-                else:
-                    strs += [" %-.4g" % mag(cost)]
-                strs[-1] += unitstr(cost, into=" [%s]", dimless="")
-                strs += [""]
-            elif table in TABLEFNS:
-                strs += TABLEFNS[table](self, showvars, **kwargs)
-            elif table in self:
-                data = self[table]
-                if showvars:
-                    showvars = self._parse_showvars(showvars)
-                    data = {k: data[k] for k in showvars if k in data}
-                strs += var_table(data, self.table_titles[table], **kwargs)
-        if kwargs.get("latex", None):
-            preamble = "\n".join(("% \\documentclass[12pt]{article}",
-                                  "% \\usepackage{booktabs}",
-                                  "% \\usepackage{longtable}",
-                                  "% \\usepackage{amsmath}",
-                                  "% \\begin{document}\n"))
-            strs = [preamble] + strs + ["% \\end{document}"]
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
+        with necessary_lineage(self.name_collision_varkeys()):
+            showvars = self._parse_showvars(showvars)
+            strs = []
+            for table in tables:
+                if table == "cost":
+                    cost = self["cost"]  # pylint: disable=unsubscriptable-object
+                    if kwargs.get("latex", None):
+                        continue  # cost is not printed for latex
+                    strs += ["\n%s\n------------" % "Optimal Cost"]
+                    if len(self) > 1:
+                        costs = ["%-8.3g" % c for c in mag(cost[:4])]
+                        strs += [" [ %s %s ]" % (
+                            "  ".join(costs), "..." if len(self) > 4 else "")]
+                    else:
+                        strs += [" %-.4g" % mag(cost)]
+                    strs[-1] += unitstr(cost, into=" [%s]", dimless="")
+                    strs += [""]
+                elif table in TABLEFNS:
+                    strs += TABLEFNS[table](self, showvars, **kwargs)
+                elif table in self:
+                    data = self[table]
+                    if showvars:
+                        showvars = self._parse_showvars(showvars)
+                        data = {k: data[k] for k in showvars if k in data}
+                    strs += var_table(data, self.table_titles[table], **kwargs)
+            if kwargs.get("latex", None):
+                preamble = "\n".join(("% \\documentclass[12pt]{article}",
+                                      "% \\usepackage{booktabs}",
+                                      "% \\usepackage{longtable}",
+                                      "% \\usepackage{amsmath}",
+                                      "% \\begin{document}\n"))
+                strs = [preamble] + strs + ["% \\end{document}"]
         return "\n".join(strs)
 
     def plot(self, posys=None, axes=None):
-- 
2.43.0


From 0dc4cd5f47773d44c1c4665c0fb1e38e01991edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:58 +0000
Subject: [PATCH 17/51] fix: a plain Infeasible from a solver function no
 longer ends in an unbound local

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 6aced7c..e93100a 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -221,7 +221,7 @@ class GeometricProgram:
             elif isinstance(infeasibility, DualInfeasible):
                 msg = ("The model ran to an infinitely low cost;"
                        " bounding the right variables would prevent this.")
-            elif isinstance(infeasibility, UnknownInfeasible):
+            else:
                 msg = "The solver failed for an unknown reason."
             if (verbosity > 0 and solver_out["soltime"] < 1
                     and self.model is not None):  # fast, top-level model
-- 
2.43.0


From 6136dce36e6d2f09d5b70cbfac1c0ec7d116855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 18/51] fix: relaxing the constraints of nested or vector sets

---
 gpkit/constraints/relax.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..e99d446 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -82,13 +82,14 @@ class ConstraintsRelaxed(ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        self.flat_constraints = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.flat_constraints), "C")
 
         with SignomialsEnabled():
             relaxed_constraints = [
                 c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+                for i, c in enumerate(self.flat_constraints)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
@@ -105,7 +106,7 @@ class ConstraintsRelaxed(ConstraintSet):
                               range(len(self["relaxed constraints"])))
         for relaxval, i in relaxed:
             relax_percent = "%i%%" % (0.5+(relaxval-1)*100)
-            oldconstraint = self.original_constraints[i]
+            oldconstraint = self.flat_constraints[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
             relaxdleft = newconstraint.left.sub(subs)
-- 
2.43.0


From 3bddcbf0f20d25b9d37f731f5dd18e3a981d999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 19/51] fix: sweeps whose points give different warnings keep
 and align all of them

---
 gpkit/small_classes.py  |  4 ++++
 gpkit/solution_array.py | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..28dea2d 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -143,6 +143,10 @@ def _enray(d_in, d_out):
         else:
             if len(v) == 1:
                 v, = v
+            elif isinstance(v[0], list):  # of arbitrary length
+                lists, v = v, np.empty(len(v), dtype=object)
+                for i, vi in enumerate(lists):
+                    v[i] = vi
             else:
                 v = np.array(v)
             d_out[k] = v
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index d9c9639..2aa62a4 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,6 +237,8 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if len(data) == 0:
+                continue  # other points of the sweep have this warning
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
@@ -254,6 +256,8 @@ def warnings_table(self, _, **kwargs):
             else:
                 lines += [title] + ["-"*len(wtype)]
                 lines += [msg for msg, _ in data] + [""]
+    if len(lines) == 3:  # there were no warnings at this point of the sweep
+        return []
     lines[-1] = "~~~~~~~~"
     return lines + [""]
 
@@ -348,6 +352,19 @@ class SolutionArray(DictOfLists):
                         self._name_collision_varkeys.add(key)
         return self._name_collision_varkeys
 
+    def append(self, sol):
+        "Appends a result, lining up those warnings which only some have."
+        sol = dict(sol)
+        for key, none in (("warnings", list), ("boundedness", set)):
+            if len(self) and (key in self or key in sol):
+                held = self.setdefault(key, {})
+                sol[key] = dict(sol.get(key, {}))
+                for category in set(held).union(sol[key]):
+                    if category not in held:
+                        held[category] = [none() for _ in self["cost"]]
+                    sol[key].setdefault(category, none())
+        super().append(sol)
+
     def __len__(self):
         try:
             return len(self["cost"])
-- 
2.43.0


From 4ca4ac14d86790f7ea7738755cf72093298ea7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 20/51] fix: forget linked values of the previous sweep point
 before evaluating links

---
 gpkit/constraints/prog_factories.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..5b77e80 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,6 +11,8 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in linked:  # values from an earlier evaluation are not inputs
+        constants.pop(v, None)
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
     kdc_plain = None
-- 
2.43.0


From b6f0c54b4f08a271df1d6059b67e31a919012fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:22 +0000
Subject: [PATCH 21/51] fix: arrays put into a KeyDict are no longer shared
 with other KeyDicts

---
 gpkit/keydict.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bfd8432..71adf75 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -241,6 +241,7 @@ class KeyDict(KeyMap, dict):
                     goodvals = ~isnan(value)
                     super().__getitem__(key)[goodvals] = value[goodvals]
                     return  # successfully set only some indexes!
+                value = value.copy()  # another dictionary may write to it
             elif not is_sweepvar(value): # or needs to be made one?
                 if not hasattr(value, "__len__"):
                     value = np.full(key.shape, value, "f")
-- 
2.43.0


From 42b9ee034010334a8386f1f64318f1c19efc0fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:34 +0000
Subject: [PATCH 22/51] fix: copies of a KeyDict are KeyDicts that share
 nothing

---
 gpkit/keydict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 71adf75..5adebde 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -137,6 +137,12 @@ class KeyDict(KeyMap, dict):
     def get(self, key, *alternative):
         return alternative[0] if alternative and key not in self else self[key]
 
+    def copy(self):
+        "Returns an independent KeyDict with the same keys and values"
+        return self.__class__(self)
+
+    __copy__ = copy
+
     def _copyonwrite(self, key):
         "Copys arrays before they are written to"
         if not hasattr(self, "owned"):  # backwards pickle compatibility
-- 
2.43.0


From 63b01e9219d75ac423267964495ed56f094281c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 23/51] fix: dividing zero by a monomial raised an
 AttributeError

---
 gpkit/nomials/math.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 4d5d332..cb63755 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -228,7 +228,8 @@ class Signomial(Nomial):
         "Support the / operator in Python 2.x"
         if isinstance(other, Numbers):
             out = self*other**-1
-            out.ast = ("div", (self, other))
+            if isinstance(out, Signomial):  # products with zero are numbers
+                out.ast = ("div", (self, other))
             return out
         if isinstance(other, Monomial):
             return other.__rtruediv__(self)
@@ -313,7 +314,8 @@ class Monomial(Posynomial):
         "Divide other by this Monomial"
         if isinstance(other, Numbers + (Signomial,)):
             out = other * self**-1
-            out.ast = ("div", (other, self))
+            if isinstance(out, Signomial):  # products with zero are numbers
+                out.ast = ("div", (other, self))
             return out
         return NotImplemented
 
-- 
2.43.0


From 72f7cbef4a622b389df162891ebebc255dca6003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 24/51] fix: a product of sums was not parenthesized when
 divided by or raised

---
 gpkit/repr_conventions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index ba4eead..7bcd5bb 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -6,7 +6,7 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
-INSIDE_PARENS = re.compile(r"\(.*\)")
+INSIDE_PARENS = re.compile(r"\([^()]*\)")
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -86,7 +86,9 @@ def strify(val, excluded):
 
 def parenthesize(string, addi=True, mult=True):
     "Parenthesizes a string if it needs it and isn't already."
-    parensless = string if "(" not in string else INSIDE_PARENS.sub("", string)
+    parensless = string
+    for _ in range(string.count("(")):  # from the innermost group outwards
+        parensless = INSIDE_PARENS.sub("", parensless)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
     if parensless and (addi and bare_addi) or (mult and bare_mult):
-- 
2.43.0


From bd74ce24b6253796392b986093e23e5ffe2e1c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 25/51] fix: powers of powers and of negations were printed
 without parentheses

---
 gpkit/repr_conventions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 7bcd5bb..4b7f7e9 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -6,6 +6,7 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
+ENDS_IN_EXPONENT = re.compile(r"(\^-?[\d.]+|[²³⁴⁵⁶⁷⁸⁹])$")
 INSIDE_PARENS = re.compile(r"\([^()]*\)")
 
 if sys.platform[:3] == "win":  # pragma: no cover
@@ -144,6 +145,8 @@ class ReprMixin:
             aststr = "-%s" % parenthesize(strify(values, excluded), mult=False)
         elif oper == "pow":
             left = parenthesize(strify(values[0], excluded))
+            if left.startswith("-") or ENDS_IN_EXPONENT.search(left):
+                left = "(%s)" % left
             x = values[1]
             if left == "1":
                 aststr = "1"
-- 
2.43.0


From d994e7d5bebf023cc2648b9eafc199aad6b2d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:32 +0000
Subject: [PATCH 26/51] fix: an exponent vector kept its hash when loaded into
 another process

---
 gpkit/small_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 28dea2d..7922ef8 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -176,6 +176,12 @@ class HashVector(dict):
             self.hashvalue = reduce(xor, map(hash, self.items()), 0)
         return self.hashvalue
 
+    def __getstate__(self):
+        "Hashes differ between Python processes, so they're not pickled."
+        state = self.__dict__.copy()
+        state.pop("hashvalue", None)
+        return state
+
     def copy(self):
         "Return a copy of this"
         hv = self.__class__(self)
-- 
2.43.0


From 8d5b6f4efa67342f6d2d4c1058a6eb2def9a43cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 27/51] fix: a program's cached result no longer outlives the
 solve it came from

---
 gpkit/constraints/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index e93100a..dab8355 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -208,6 +208,7 @@ class GeometricProgram:
             self.solve_log = "\n".join(sys.stdout)
             sys.stdout = original_stdout
             self.solver_out = solver_out
+            self._result = None  # any cached result was of an earlier solve
 
         solver_out["solver"] = solvername
         solver_out["soltime"] = time() - starttime
-- 
2.43.0


From 3318778c5593878650743353660d336599ddb8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 28/51] fix: linked functions are given the values linked
 before them, not an early copy

---
 gpkit/constraints/prog_factories.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 5b77e80..b15a3f4 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -15,7 +15,6 @@ def evaluate_linked(constants, linked):
         constants.pop(v, None)
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
-    kdc_plain = None
     array_calulated = {}
     for v, f in linked.items():
         try:
@@ -38,9 +37,8 @@ def evaluate_linked(constants, linked):
                   " %s because %s was raised. Set `gpkit.settings"
                   "[\"ad_errors_raise\"] = True` to raise such Exceptions"
                   " directly.\n" % (v, repr(exception)))
-            if kdc_plain is None:
-                kdc_plain = KeyDict(constants)
-            constants[v] = f(kdc_plain)
+            # with the linked values so far, which others may depend on
+            constants[v] = f(KeyDict(constants))
             v.descr.pop("gradients", None)
 
 
-- 
2.43.0


From 6922e5cfd25617abd9c58d0b1958c33657828e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 29/51] fix: numpy has no float, so maximums of NomialArrays of
 numbers failed

---
 gpkit/nomials/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..c233ff1 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -128,7 +128,7 @@ class NomialArray(ReprMixin, np.ndarray):
         if out_arr.ndim:
             return np.ndarray.__array_wrap__(self, out_arr, context)  # pylint: disable=too-many-function-args
         val = out_arr.item()
-        return np.float(val) if isinstance(val, np.generic) else val
+        return float(val) if isinstance(val, np.generic) else val
 
     __eq__ = array_constraint("=", eq)
     __le__ = array_constraint("<=", le)
-- 
2.43.0


From e35712d7b20befa9ef71d902b17457071a93f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 30/51] fix: a variable declared without a name is reported as
 such

---
 gpkit/tools/docstring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 5105ca7..0594f57 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -187,6 +187,10 @@ PARSETIP = ("Is this line following the format `Name (optional Value) [Units]"
 
 def variable_declaration(nameval, units, label, line, errorcatch=True):
     "Turns parsed output into a Variable declaration"
+    if not nameval:
+        raise ValueError("while parsing the line '%s', no Name was found"
+                         " before the Units `%s`. %s"
+                         % (line, units, PARSETIP))
     if len(nameval) > 2:
         raise ValueError("while parsing the line '%s', additional fields"
                          " (separated by whitespace) were found between Value"
-- 
2.43.0


From b90605ef249b4dd8a3cbafd778dd9cbfbbea916d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 31/51] fix: cost_at reports unknown bounds instead of failing
 on an unbound local

---
 gpkit/tools/autosweep.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index c2aec5b..22d32d5 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -98,6 +98,9 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
                     splitcost = np.exp(bst.splitlb)
                 elif bound == "ub":
                     splitcost = np.exp(bst.splitub)
+                else:
+                    raise ValueError("bound must be 'lb' or 'ub', not '%s'."
+                                     % bound)
             else:
                 splitcost = np.exp((bst.splitlb + bst.splitub)/2)
             if value <= bst.splitval:
-- 
2.43.0


From df495c5bf6024634b49a51a2ae801e461e47a0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:25 +0000
Subject: [PATCH 32/51] fix: LaTeX tables with every model excluded failed on
 an unbound local

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 2aa62a4..e7c7ee0 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -816,7 +816,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
     if excluded_models:
         models = models.difference(excluded_models)
     decorated.sort()
-    previous_model, lines = None, []
+    previous_model, lines, coltitles = None, [], [title]
     for varlist in decorated:
         if sortbyvals:
             model, _, msenss, isvector, varstr, _, var, val = varlist
-- 
2.43.0


From da3c40bb329ff888d5211dceeeb711bcba6d41e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:40 +0000
Subject: [PATCH 33/51] fix: plotting a solution without a one-dimensional
 sweep says so

SolutionArray.plot read 'sweepvariables' unconditionally, so plotting the
solution of a solve that swept nothing ended in a KeyError, and one with
several swept variables printed the message and then failed unpacking.
---
 gpkit/solution_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index e7c7ee0..b46a8f4 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -736,8 +736,9 @@ class SolutionArray(DictOfLists):
 
     def plot(self, posys=None, axes=None):
         "Plots a sweep for each posy"
-        if len(self["sweepvariables"]) != 1:
-            print("SolutionArray.plot only supports 1-dimensional sweeps")
+        if len(self.get("sweepvariables", ())) != 1:
+            raise ValueError("SolutionArray.plot only supports"
+                             " 1-dimensional sweeps")
         if not hasattr(posys, "__len__"):
             posys = [posys]
         import matplotlib.pyplot as plt
-- 
2.43.0


From fa7c1e4f8c370236952cd7b37c49a3e20d2a1e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:00 +0000
Subject: [PATCH 34/51] fix: a solution saved without its constraints can be
 printed

save(saveconstraints=False) leaves out the constraints' sensitivities, which
the constraint tables (printed by default) read unconditionally: the loaded
solution's table() and summary() failed with KeyError.
---
 gpkit/solution_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index b46a8f4..2397293 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -134,6 +134,8 @@ def insenss_table(data, _, maxval=0.1, **kwargs):
 
 def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
     "Return constraint tightness lines"
+    if "constraints" not in self["sensitivities"]:
+        return []  # e.g. saved without its constraints
     title = "Most Sensitive Constraints"
     if len(self) > 1:
         title += " (in last sweep)"
@@ -149,6 +151,8 @@ def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
 
 def loose_table(self, _, min_senss=1e-5, **kwargs):
     "Return constraint tightness lines"
+    if "constraints" not in self["sensitivities"]:
+        return []  # e.g. saved without its constraints
     title = "Insensitive Constraints |below %+g|" % min_senss
     if len(self) > 1:
         title += " (in last sweep)"
-- 
2.43.0


From c965b3551a0087921e02511572d1b18cfbe4fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:33 +0000
Subject: [PATCH 35/51] fix: a solution saved without its constraints can be
 saved again

Loading it and saving it failed with KeyError: 'constraints', whether or not
the constraints were to be saved.
---
 gpkit/solution_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 2397293..17735af 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -41,21 +41,22 @@ class SolSavingEnvironment:
             for constraint_attr in ["bounded", "meq_bounded", "vks",
                                     "v_ss", "unsubbed", "varkeys"]:
                 store = {}
-                for constraint in self.solarray["sensitivities"]["constraints"]:
+                senss = self.solarray["sensitivities"]
+                for constraint in senss.get("constraints", ()):
                     if getattr(constraint, constraint_attr, None):
                         store[constraint] = getattr(constraint, constraint_attr)
                         delattr(constraint, constraint_attr)
                 self.attrstore[constraint_attr] = store
         else:
             self.constraintstore = \
-                self.solarray["sensitivities"].pop("constraints")
+                self.solarray["sensitivities"].pop("constraints", None)
 
     def __exit__(self, type_, val, traceback):
         if self.saveconstraints:
             for constraint_attr, store in self.attrstore.items():
                 for constraint, value in store.items():
                     setattr(constraint, constraint_attr, value)
-        else:
+        elif self.constraintstore is not None:
             self.solarray["sensitivities"]["constraints"] = self.constraintstore
 
 def msenss_table(data, _, **kwargs):
-- 
2.43.0


From 6952a909a9432869f6b5e5a145e286e339fc6dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:15 +0000
Subject: [PATCH 36/51] fix: sums of plain numbers and nomials with
 dimensionless units

x.to("dimensionless") + 1, or adding a dimensionless Quantity to x, failed
with a DimensionalityError although the units agree: an absence of units is
dimensionless.
---
 gpkit/nomials/map.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..ed90c5b 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -55,9 +55,10 @@ class NomialMap(HashVector):
     def __add__(self, other):
         "Adds NomialMaps together"
         if self.units != other.units:
-            try:
-                other *= float(other.units/self.units)
-            except (TypeError, AttributeError):  # if one of those is None
+            try:  # an absence of units is dimensionless
+                other *= float((other.units or DIMLESS_QUANTITY)
+                               / (self.units or DIMLESS_QUANTITY))
+            except DimensionalityError:
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
         hmap.units = self.units
-- 
2.43.0


From f7e7e94fb461abfe1dfd6f3889ecab07f8f09852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:39 +0000
Subject: [PATCH 37/51] fix: derivatives keep the conversion between their
 terms' units

The conversion factor was applied before there were any terms to convert, so
(m + c).diff(c), with m in meters and c in centimeters, gave 0.01 and not 1.
Monomial approximations differentiate magnitudes, as before.
---
 gpkit/nomials/map.py  | 5 +++--
 gpkit/nomials/math.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index ed90c5b..649e669 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -67,8 +67,6 @@ class NomialMap(HashVector):
     def diff(self, varkey):
         "Differentiates a NomialMap with respect to a varkey"
         out = NomialMap()
-        out.units_of_product(self.units,
-                             1/varkey.units if varkey.units else None)
         for exp in self:
             if varkey in exp:
                 x = exp[varkey]
@@ -81,6 +79,9 @@ class NomialMap(HashVector):
                     exp.hashvalue ^= hash((varkey, x)) ^ hash((varkey, x-1))
                     exp[varkey] = x-1
                 out[exp] = c
+        # after the terms, because it may convert them
+        out.units_of_product(self.units,
+                             1/varkey.units if varkey.units else None)
         return out
 
     def sub(self, substitutions, varkeys, parsedsubs=False):
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index cb63755..7e234f3 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -120,9 +120,10 @@ class Signomial(Nomial):
                              " into %s" % (psub, x0, self))
         c0, = psub.values()
         c, exp = c0, HashVector()
+        unitless = self.hmap.copy()  # to differentiate in terms of magnitudes
         for vk in self.vks:
             val = float(x0[vk])
-            diff, = self.hmap.diff(vk).sub(x0, self.vks,
+            diff, = unitless.diff(vk).sub(x0, self.vks,
                                            parsedsubs=True).values()
             e = val*diff/c0
             if e:
-- 
2.43.0


From 61ac82b1e72014d071dfacc5f27e0fde5e9ad476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:51 +0000
Subject: [PATCH 38/51] fix: monomial approximations accept points with units

The values of x0 were substituted with their units converted, and then used as
bare magnitudes of whatever units they came in: compatible units failed with a
DimensionalityError or a TypeError.
---
 gpkit/nomials/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 7e234f3..3f98d47 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -9,6 +9,7 @@ from ..globals import SignomialsEnabled
 from ..small_classes import Numbers
 from ..small_classes import HashVector, EMPTY_HV
 from ..varkey import VarKey
+from ..keydict import clean_value
 from ..small_scripts import mag
 from ..exceptions import (InvalidGPConstraint, InvalidPosynomial,
                           PrimalInfeasible, DimensionalityError)
@@ -114,6 +115,7 @@ class Signomial(Nomial):
         Monomial (unless self(x0) < 0, in which case a Signomial is returned)
         """
         x0, _, _ = parse_subs(self.vks, x0)  # use only varkey keys
+        x0 = {vk: clean_value(vk, val) for vk, val in x0.items()}
         psub = self.hmap.sub(x0, self.vks, parsedsubs=True)
         if EMPTY_HV not in psub or len(psub) > 1:
             raise ValueError("Variables %s remained after substituting x0=%s"
-- 
2.43.0


From e4de27b96e3e9e18ed3d532f63a90fe01ede08cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 39/51] fix: sums of arrays starting with a Quantity keep their
 units

NomialArray([1*ureg.cm, m]).sum() recorded a bare pint Unit, which later
products silently dropped.
---
 gpkit/nomials/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index c233ff1..081015f 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV
+from ..small_classes import HashVector, qty, EMPTY_HV
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -155,7 +155,7 @@ class NomialArray(ReprMixin, np.ndarray):
         hmap = NomialMap()
         for p in self.flat:  # pylint:disable=not-an-iterable
             if not hmap and hasattr(p, "units"):
-                hmap.units = p.units
+                hmap.units = p.units if hasattr(p, "hmap") else qty(p.units)
             if hasattr(p, "hmap"):
                 hmap += p.hmap
             else:
-- 
2.43.0


From 9907680b030f579f3662a529fc0f1db8f98b12ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:23 +0000
Subject: [PATCH 40/51] fix: inequalities lost terms that collided while being
 divided

x >= 0.5*x**2 + 0.3*x became 0.5*x <= 1: dividing by x in place wrote the
first term over the second before that was read. x >= x + 1 became x >= 1.
---
 gpkit/nomials/math.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 3f98d47..0cb5ead 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -461,9 +461,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        hmap = NomialMap()  # not in place, in which terms may collide
+        for exp, c in p_lt.hmap.items():
+            hmap[exp-m_exp] = c/m_c
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From ca22d3fefe2433114ddab696a610066a29103e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:29 +0000
Subject: [PATCH 41/51] fix: inequalities with no room for their other terms
 are infeasible

x >= x + y failed with ZeroDivisionError, or InvalidPosynomial when the
constant was within the feasibility tolerance, instead of PrimalInfeasible.
---
 gpkit/nomials/math.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 0cb5ead..7c8f008 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -433,8 +433,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
-            msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
+        if coeff <= 0:  # no room left for the other terms
+            msg = "'%s' is infeasible by %.2g%%" % (self, abs(coeff)*100)
             if fixed:
                 msg += " after substituting %s." % fixed
             raise PrimalInfeasible(msg)
-- 
2.43.0


From 9a2c6e3f790b66e4ea10718a7df8dd5fa40f64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:31 +0000
Subject: [PATCH 42/51] fix: sweeps over values with units convert them

A sweep over np.array([100, 200])*ureg.cm of a variable in meters solved for
100 and 200 meters.
---
 gpkit/nomials/substitution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..2afe3a3 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -2,7 +2,7 @@
 import warnings as pywarnings
 import numpy as np
 from ..small_scripts import splitsweep
-from ..keydict import KeySet
+from ..keydict import KeySet, clean_value
 
 
 def parse_subs(varkeys, substitutions, clean=False):
@@ -72,7 +72,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
         if hasattr(value, "__call__") and not hasattr(value, "key"):
             linkedsweep[key] = value
         elif sweepsub:
-            sweep[key] = value
+            sweep[key] = clean_value(key, value)  # numpy would strip units
         else:
             try:
                 assert np.isnan(value)
-- 
2.43.0


From b14085ad340d4aee19a40cc4ab6d571eb03fe459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:02 +0000
Subject: [PATCH 43/51] fix: linked functions returning Quantities have them
 converted

A variable in centimeters linked to c(a), 1 meter, was given the value 1:
automatic differentiation took the magnitude, and numpy strips the units of
lists of Quantities.
---
 gpkit/constraints/prog_factories.py | 9 +++++----
 gpkit/nomials/variables.py          | 4 ++--
 gpkit/small_scripts.py              | 7 +++++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index b15a3f4..7c5127d 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -4,8 +4,8 @@ import numpy as np
 from ad import adnumber
 from ..nomials import parse_subs
 from ..solution_array import SolutionArray
-from ..keydict import KeyDict
-from ..small_scripts import maybe_flatten
+from ..keydict import KeyDict, clean_value
+from ..small_scripts import element, maybe_flatten
 from ..exceptions import Infeasible
 
 
@@ -21,10 +21,11 @@ def evaluate_linked(constants, linked):
             if v.veckey and v.veckey.original_fn:
                 if v.veckey not in array_calulated:
                     ofn = v.veckey.original_fn
-                    array_calulated[v.veckey] = np.array(ofn(kdc))
-                out = array_calulated[v.veckey][v.idx]
+                    array_calulated[v.veckey] = ofn(kdc)
+                out = element(array_calulated[v.veckey], v.idx)
             else:
                 out = f(kdc)
+            out = clean_value(v, out)
             constants[v] = out.x
             v.descr["gradients"] = {adn.tag: grad
                                     for adn, grad in out.d().items()
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 5997dc9..920fc21 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -8,7 +8,7 @@ from .map import NomialMap
 from ..globals import NamedVariables, Vectorize
 from ..varkey import VarKey
 from ..small_classes import Strings, Numbers, HashVector
-from ..small_scripts import is_sweepvar
+from ..small_scripts import element, is_sweepvar
 
 
 def addmodelstodescr(descr, addtonamedvars=None):
@@ -182,7 +182,7 @@ def veclinkedfn(linkedfn, i):
     "Generate an indexed linking function."
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
-        return np.array(linkedfn(c))[i]
+        return element(linkedfn(c), i)
     return newlinkedfn
 
 
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..bd0c2d4 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -28,6 +28,13 @@ def maybe_flatten(value):
     return value
 
 
+def element(value, idx):
+    "Indexes into nested sequences or arrays, whose units numpy would strip"
+    for i in idx:
+        value = value[i]
+    return value
+
+
 def try_str_without(item, excluded, *, latex=False):
     "Try to call item.str_without(excluded); fall back to str(item)"
     if latex and hasattr(item, "latex"):
-- 
2.43.0


From 9760f094c5c98129c91326f03a0cdf9add527291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:20 +0000
Subject: [PATCH 44/51] fix: vectorized variables convert values with units

With Vectorize(2), Variable("x", 100*ureg.cm, "m") was given 100 meters:
numpy strips the units of a Quantity it fills an array with.
---
 gpkit/nomials/variables.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 920fc21..7a03676 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -8,7 +8,7 @@ from .map import NomialMap
 from ..globals import NamedVariables, Vectorize
 from ..varkey import VarKey
 from ..small_classes import Strings, Numbers, HashVector
-from ..small_scripts import element, is_sweepvar
+from ..small_scripts import element, is_sweepvar, mag
 
 
 def addmodelstodescr(descr, addtonamedvars=None):
@@ -141,7 +141,8 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         if value_option and not hasattr(values, "__call__"):
             if Vectorize.vectorization:
                 if not hasattr(values, "shape"):
-                    values = np.full(shape, values, "f")
+                    values = (np.full(shape, mag(values), "f")
+                              * getattr(values, "units", 1))
                 else:
                     values = np.broadcast_to(values, reversed(shape)).T
             elif not hasattr(values, "shape"):
-- 
2.43.0


From c6af4b4be0a3b8aef34c4a48c6da77cb9187045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 45/51] fix: Quantities set for part of a vector are converted

m.substitutions[x[1:]] = 100*ureg.cm set the elements of x to 100 meters:
numpy strips the units of a Quantity it fills an array with.
---
 gpkit/keydict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 5adebde..aca998d 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -203,7 +203,10 @@ class KeyDict(KeyMap, dict):
             if not hasattr(key, "shape"):
                 raise e
             if not hasattr(value, "shape"):
-                value = np.full(key.shape, value)
+                if isinstance(value, Quantity):  # whose units numpy strips
+                    value = value*np.ones(key.shape)
+                else:
+                    value = np.full(key.shape, value)
             elif key.shape != value.shape:
                 raise KeyError("Key and value have different shapes") from e
             for subkey, subval in zip(key.flat, value.flat):
-- 
2.43.0


From f13b397bb273efdf3a370b3a45807d7a7afbfb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:39 +0000
Subject: [PATCH 46/51] fix: autosweeps accept ends with units

Model.autosweep failed with a ValueError for ends that were Quantities.
---
 gpkit/constraints/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index fdc5bee..9d9812c 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -7,6 +7,7 @@ from .gp import GeometricProgram
 from .sgp import SequentialGeometricProgram
 from ..tools.autosweep import autosweep_1d
 from ..exceptions import InvalidGPConstraint
+from ..keydict import clean_value
 from .. import NamedVariables
 from ..tools.docstring import expected_unbounded
 from .set import add_meq_bounds
@@ -160,7 +161,7 @@ class Model(CostedConstraintSet):
         sols = []
         for sweepvar, sweepvals in sweeps.items():
             sweepvar = self[sweepvar].key
-            start, end = sweepvals
+            start, end = (clean_value(sweepvar, val) for val in sweepvals)
             bst = autosweep_1d(self, tol, sweepvar, [start, end], **solveargs)
             sols.append(bst.sample_at(np.linspace(start, end, samplepoints)))
         return sols if len(sols) > 1 else sols[0]
-- 
2.43.0


From 5ca9bc5171399d49c31b7c5abd57db9d7d4e138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:20 +0000
Subject: [PATCH 47/51] fix: the initial point of local solves is used

x0 was looked up by VarKeys alone, and so ignored whenever it was keyed by
Variables or names. Its units are now converted, and the values of constants
are not replaced by it.
---
 gpkit/constraints/sgp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..fa4dcf2 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -8,7 +8,7 @@ from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
 from ..keydict import KeyDict
 from ..nomials import Variable
 from .gp import GeometricProgram
-from ..nomials import PosynomialInequality, Posynomial
+from ..nomials import PosynomialInequality, Posynomial, parse_subs
 from .. import NamedVariables
 
 
@@ -149,7 +149,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
                     " iteration_limit=NEWLIMIT)`." % len(self.gps))
-            gp = self.gp(x0, cleanx0=True)
+            gp = self.gp(x0, cleanx0=bool(self.gps))  # the first is the user's
             self.gps.append(gp)  # NOTE: SIDE EFFECTS
             if verbosity > 1:
                 print("\nGP Solve %i" % len(self.gps))
@@ -217,8 +217,9 @@ solutions and can be solved with 'Model.solve()'.""")
         if not x0:
             return self._gp  # return last generated
         if not cleanx0:
-            x0 = KeyDict(x0)
-        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
+            x0, _, _ = parse_subs(self.sgpvks, x0)  # use only varkey keys
+        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks
+                            if vk in x0 and vk not in self._gp.substitutions})
         p_idx = 0
         for sgpc in self.sgpconstraints:
             for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-- 
2.43.0


From 398bf8c5b3f7b76980f43567e027569907e673e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:54 +0000
Subject: [PATCH 48/51] fix: debugging a model whose constants are all zero

---
 gpkit/constraints/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 9d9812c..19b59b1 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -177,9 +177,10 @@ class Model(CostedConstraintSet):
         solveargs["process_result"] = False
 
         bounded = Bounded(self)
-        tants = None
-        if self.substitutions:
-            tants = ConstantsRelaxed(bounded)
+        tants = ConstantsRelaxed(bounded) if self.substitutions else None
+        if tants is not None and not tants.relaxvars.size:
+            tants = None  # all constants are zero, which cannot be relaxed
+        if tants is not None:
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
         else:
             feas = Model(self.cost, bounded)
-- 
2.43.0


From 6d5542ad60e96b702dab2d27281eb720c8a92c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:14 +0000
Subject: [PATCH 49/51] fix: a failing point of a sweep is not debugged as the
 whole sweep

---
 gpkit/constraints/prog_factories.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 7c5127d..33e4165 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -55,12 +55,14 @@ def progify(program, return_attr=None):
     """
     def programfn(self, constants=None, **initargs):
         "Return program version of self"
-        if not constants:
+        own_constants = not constants
+        if own_constants:
             constants, _, linked = parse_subs(self.varkeys, self.substitutions)
             if linked:
                 evaluate_linked(constants, linked)
         prog = program(self.cost, self, constants, **initargs)
-        prog.model = self  # NOTE SIDE EFFECTS
+        if own_constants:  # else debugging self would not debug this program
+            prog.model = self  # NOTE SIDE EFFECTS
         if return_attr:
             return prog, getattr(prog, return_attr)
         return prog
-- 
2.43.0


From 67dbff7698d07f139e527f0ba554b01bee35799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:00 +0000
Subject: [PATCH 50/51] fix: a failure that debugging could not help with is
 raised

---
 gpkit/constraints/gp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index dab8355..eb553ac 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -228,7 +228,9 @@ class GeometricProgram:
                     and self.model is not None):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
-                return self.model.debug(solver=solver)
+                relaxed_sol = self.model.debug(solver=solver)
+                if relaxed_sol is not None:
+                    return relaxed_sol
             # else, raise a clarifying error
             msg += (" Running `.debug()` may pinpoint the trouble. You can"
                     " also try another solver, or increase the verbosity.")
-- 
2.43.0


From b14eea19b5e8df69966c8ab63f869762f0c9d117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:13 +0000
Subject: [PATCH 51/51] fix: a failed local solve leaves no earlier result

---
 gpkit/constraints/sgp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index fa4dcf2..a8aa21f 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -134,6 +134,7 @@ solutions and can be solved with 'Model.solve()'.""")
             A dictionary containing the translated solver result.
         """
         self.gps, self.solver_outs, self._results = [], [], []
+        self.result = None  # any earlier result was of another solve
         starttime = time()
         if verbosity > 0:
             print("Starting a sequence of GP solves")
-- 
2.43.0

