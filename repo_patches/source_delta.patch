From 0c5dc87dc8fc16b31cdd827fb998c4e629d1df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 01/53] fix: Intervals left ranges overlapping when one range
 reaches over several following ones

---
 kerncraft/intervals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index a2f77ee..83ce8ef 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -29,7 +29,8 @@ class Intervals(object):
 
                 # removed contained range
                 del self.data[i+1]
-            i += 1
+            else:
+                i += 1
 
     def __and__(self, other):
         """Combine two intervals, under the assumption that they are sane."""
-- 
2.43.0


From 2a614ba7dcc541ccaf2d313eb14f26ab2ca9529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 02/53] fix: Intervals altered the ranges of its operands and
 caller when merging

---
 kerncraft/intervals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/intervals.py b/kerncraft/intervals.py
index 83ce8ef..ac82a1d 100755
--- a/kerncraft/intervals.py
+++ b/kerncraft/intervals.py
@@ -7,7 +7,7 @@ class Intervals(object):
 
     def __init__(self, *args, **kwargs):
         """If keywords *sane* is True (default: False), checks will not be done on given data."""
-        self.data = list(args)
+        self.data = [list(d) for d in args]
         if not kwargs.get('sane', False):
             self.data = [d for d in self.data if d[1] > d[0]]
             self._enforce_order()
-- 
2.43.0


From 081ef8a7307cda076d1d20e2836a476459d6e104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 03/53] fix: prefixes T, P and E were ten times too large

---
 kerncraft/prefixedunit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index 8268a30..ac5f7e9 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -5,7 +5,7 @@ import ruamel.yaml
 
 
 class PrefixedUnit(ruamel.yaml.YAMLObject):
-    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e13, 'P': 1e16, 'E': 1e19, 'Z': 1e21, 'Y': 1e24,
+    PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24,
                 '': 1}
 
 
-- 
2.43.0


From f6bd57c1aa08fe89ca006f40308bebc1b571e0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 04/53] fix: clean_code lost track of its position after a
 comment (adjacent, long or final comments)

---
 kerncraft/pycparser_utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kerncraft/pycparser_utils.py b/kerncraft/pycparser_utils.py
index bd988a5..39a75ea 100644
--- a/kerncraft/pycparser_utils.py
+++ b/kerncraft/pycparser_utils.py
@@ -39,16 +39,20 @@ def clean_code(code, comments=True, macros=False, pragmas=False):
         while idx < len(code) - 1:
             if comment_start is None and code[idx:idx + 2] == '//':
                 end_idx = code.find('\n', idx)
+                if end_idx == -1:
+                    end_idx = len(code)
                 code = code[:idx] + code[end_idx:]
-                idx -= end_idx - idx
+                continue
             elif comment_start is None and code[idx:idx + 2] == '/*':
                 comment_start = idx
+                idx += 2
+                continue
             elif comment_start is not None and code[idx:idx + 2] == '*/':
-                code = (code[:comment_start] +
-                        '\n' * code[comment_start:idx].count('\n') +
-                        code[idx + 2:])
-                idx -= idx - comment_start
+                newlines = code[comment_start:idx].count('\n')
+                code = code[:comment_start] + '\n' * newlines + code[idx + 2:]
+                idx = comment_start + newlines
                 comment_start = None
+                continue
             idx += 1
 
     return code
-- 
2.43.0


From a97f5df34f68c53d853aab7b903f657eca00661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:21 +0000
Subject: [PATCH 05/53] fix: picklemerge used collections.Mapping, which
 current Pythons no longer have

---
 kerncraft/picklemerge.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index e2bf290..27eced4 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -2,7 +2,7 @@
 """Merge two pickle files containing dictionarys recursively."""
 import argparse
 import pickle
-import collections
+import collections.abc
 
 
 def update(d, u):
@@ -12,7 +12,7 @@ def update(d, u):
     Origin: http://stackoverflow.com/a/3233356/2754040
     """
     for k, v in u.items():
-        if isinstance(v, collections.Mapping):
+        if isinstance(v, collections.abc.Mapping):
             r = update(d.get(k, {}), v)
             d[k] = r
         else:
@@ -33,11 +33,11 @@ def main():
     args = parser.parse_args()
 
     result = pickle.load(args.destination)
-    assert isinstance(result, collections.Mapping), "only Mapping types can be handled."
+    assert isinstance(result, collections.abc.Mapping), "only Mapping types can be handled."
 
     for s in args.source:
         data = pickle.load(s)
-        assert isinstance(data, collections.Mapping), "only Mapping types can be handled."
+        assert isinstance(data, collections.abc.Mapping), "only Mapping types can be handled."
 
         update(result, data)
 
-- 
2.43.0


From 904cee17d5f8ebecd7b953f7697b07b84e440636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 06/53] fix: MachineModel.get_identifier failed on descriptions
 without a file

---
 kerncraft/machinemodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 173ae58..e17374b 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -406,7 +406,7 @@ class MachineModel(object):
         if self._path:
             return os.path.basename(self._path)
         else:
-            return hashlib.sha256(hashlib.sha256(repr(self._data).encode())).hexdigest()
+            return hashlib.sha256(repr(self._data).encode()).hexdigest()
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From 11d643248874055f383994a95f932fef49b86bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 07/53] fix: MachineModel.get_cachesim returned the simulator
 of an earlier core count

---
 kerncraft/machinemodel.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index e17374b..edd1ea7 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -422,21 +422,22 @@ class MachineModel(object):
 
         :param cores: core count (default: 1)
         """
-        if hasattr(self, '_cachesimulator'):
+        cache_dict = {}
+        for c in self['memory hierarchy']:
+            # Skip main memory
+            if 'cache per group' not in c:
+                continue
+            cache_dict[c['level']] = deepcopy(c['cache per group'])
+            cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
+            # Scale size of last cache according to cores (typically shared within NUMA domain)
+            if c['cores per group'] > 1:
+                cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
+
+        if getattr(self, '_cachesimulator_dict', None) == cache_dict:
             self._cachesimulator.mark_all_invalid()
             self._cachesimulator.reset_stats()
         else:
-            cache_dict = {}
-            for c in self['memory hierarchy']:
-                # Skip main memory
-                if 'cache per group' not in c:
-                    continue
-                cache_dict[c['level']] = deepcopy(c['cache per group'])
-                cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
-                # Scale size of last cache according to cores (typically shared within NUMA domain)
-                if c['cores per group'] > 1:
-                    cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
-
+            self._cachesimulator_dict = deepcopy(cache_dict)
             self._cachesimulator, caches, mem = cachesim.CacheSimulator.from_dict(cache_dict)
 
         return self._cachesimulator
-- 
2.43.0


From e802455d43954fa1ab6b460672f9f67cd2963ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 08/53] fix: substitutions cached before set_constant were
 still used after it

---
 kerncraft/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 2baa796..16de55b 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -262,6 +262,8 @@ class Kernel(object):
         # Ensure constants will always be sorted by keys
         self.constants = collections.OrderedDict(
             sorted(self.constants.items(), key=lambda i: str(i[0])))
+        # substitutions made with the previous constants are outdated
+        self.subs_consts.cache_clear()
 
     def set_variable(self, name, type_, size):
         """
-- 
2.43.0


From ed9f68ecee9cfce39e121a169ecc00ff0a16dc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 09/53] fix: global iteration numbers and loop indices did not
 match for steps other than one

---
 kerncraft/kernel.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 16de55b..98bb484 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -37,7 +37,7 @@ from . import kerncraft
 from . import incore_model
 from .pycparser_utils import clean_code, replace_id
 
-from kerncraft.symbolic.utils import int_ceil
+from kerncraft.symbolic.utils import int_ceil, int_floor
 
 @contextmanager
 def set_recursionlimit(new_limit):
@@ -481,15 +481,13 @@ class Kernel(object):
         base_loop_counters = {}
         global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
-        last_incr = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
             # This unspools the iterations:
             length = int_ceil((end-start), incr)
-            counter = start+(((global_iterator*last_incr) // total_length)*incr) % length
+            counter = start+((global_iterator // total_length) % length)*incr
             total_length = total_length*length
-            last_incr = incr
 
             base_loop_counters[loop_var] = sympy.lambdify(
                 global_iterator,
@@ -515,7 +513,7 @@ class Kernel(object):
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
             length = int_ceil((end-start), incr)
-            global_iterator += (loop_var - start) * total_length
+            global_iterator += int_floor(loop_var - start, incr) * total_length
             total_length *= length
         return global_iterator
 
-- 
2.43.0


From ccd3dbaf61c1ae1991505af62615f9579a4fbb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 10/53] fix: PrefixedUnit arithmetic failed without a unit and
 read prefixes into unit names

---
 kerncraft/prefixedunit.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index ac5f7e9..e778c63 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -114,7 +114,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)*float(other), unit)
+        v = self.__class__(float(self)*float(other), '', unit)
         return v.reduced()
 
     def __truediv__(self, other):
@@ -123,7 +123,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)/float(other), unit)
+        v = self.__class__(float(self)/float(other), '', unit)
         return v.reduced()
 
     __div__ = __truediv__
@@ -134,7 +134,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         else:
             unit = self.unit
 
-        v = self.__class__(float(self)//float(other), unit)
+        v = self.__class__(float(self)//float(other), '', unit)
         return v.reduced()
 
     def __sub__(self, other):
@@ -146,11 +146,11 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for subtraction.")
 
-        v = self.__class__(float(self)-float(other), unit)
+        v = self.__class__(float(self)-float(other), '', unit)
         return v.reduced()
 
     def __abs__(self):
-        v = self.__class__(abs(float(self)), self.unit)
+        v = self.__class__(abs(float(self)), '', self.unit)
         return v.reduced()
 
     def __add__(self, other):
@@ -162,7 +162,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for addition.")
 
-        v = self.__class__(float(self) + float(other), self.unit)
+        v = self.__class__(float(self) + float(other), '', self.unit)
         return v.reduced()
 
     def __mod__(self, other):
@@ -174,7 +174,7 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if self.unit != unit:
             raise ValueError("Units need to match for modulo.")
 
-        v = self.__class__(float(self) % float(other), self.unit)
+        v = self.__class__(float(self) % float(other), '', self.unit)
         return v.reduced()
 
     def __lt__(self, other):
-- 
2.43.0


From e5ed5c4a0786fe52cf825c637c360bad25e9cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 11/53] fix: printed quantities that are negative, unitless or
 above P could not be read back

---
 kerncraft/prefixedunit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index e778c63..a5e6ba3 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -26,11 +26,11 @@ class PrefixedUnit(ruamel.yaml.YAMLObject):
         if len(args) == 1:
             if isinstance(args[0], str):
                 m = re.match(
-                    r'^(?P<value>(?:[0-9]+(?:\.[0-9]+)?|inf)) (?P<prefix>[kMGTP])?(?P<unit>.*)$',
+                    r'^(?P<value>-?(?:[0-9]+(?:\.[0-9]+)?|inf))(?: (?P<prefix>[kMGTPEZY])?(?P<unit>.*))?$',
                     args[0])
                 assert m, "Could not parse unit parameter "+repr(args[0])
                 g = m.groups()
-                args = [float(g[0]), g[1], g[2]]
+                args = [float(g[0]), g[1], g[2] or '']
             else:
                 args = [float(args[0]), '', '']
 
-- 
2.43.0


From e00dd458874844f3b4bf9f645d4e1c71fdf28dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 12/53] fix: float() of a PrefixedUnit with an integer value
 and no prefix failed

---
 kerncraft/prefixedunit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/prefixedunit.py b/kerncraft/prefixedunit.py
index a5e6ba3..7c2f51d 100755
--- a/kerncraft/prefixedunit.py
+++ b/kerncraft/prefixedunit.py
@@ -6,7 +6,7 @@ import ruamel.yaml
 
 class PrefixedUnit(ruamel.yaml.YAMLObject):
     PREFIXES = {'k': 1e3, 'M': 1e6, 'G': 1e9, 'T': 1e12, 'P': 1e15, 'E': 1e18, 'Z': 1e21, 'Y': 1e24,
-                '': 1}
+                '': 1.0}
 
 
     yaml = ruamel.yaml.YAML()
-- 
2.43.0


From ec8a8f33b8ce04a9b108a69905d08bc2c4194871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 13/53] fix: ECM performance units disagreed (cy/It multiplied,
 'It/S', elements taken for iterations)

---
 kerncraft/models/ecm.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 663b9b6..a41a8ee 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -177,17 +177,17 @@ class ECMData(PerformanceModel):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
 
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    float(self.kernel.bytes_per_iteration))
         if cy_cl != 0:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
             it_s.unit = 'It/s'
         else:
-            it_s = PrefixedUnit('inf It/S')
+            it_s = PrefixedUnit('inf It/s')
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl/elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
@@ -352,17 +352,17 @@ class ECMCPU(PerformanceModel):
         if not isinstance(cy_cl, PrefixedUnit):
             cy_cl = PrefixedUnit(cy_cl, '', 'cy/CL')
         clock = self.machine['clock']
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(self.machine['cacheline size']) // element_size
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    float(self.kernel.bytes_per_iteration))
         if cy_cl == 0.0:
             it_s = PrefixedUnit(float('inf'))
         else:
-            it_s = clock/cy_cl*elements_per_cacheline
+            it_s = clock/cy_cl*iterations_per_cacheline
         it_s.unit = 'It/s'
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        cy_it = cy_cl*elements_per_cacheline
+        cy_it = cy_cl/iterations_per_cacheline
         cy_it.unit = 'cy/It'
 
         return {'It/s': it_s,
-- 
2.43.0


From 8f7a22e6fdf1aae7c4283dccb894670d0dad4860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 14/53] fix: ECM took any unknown duplexness of the memory
 interface for full-duplex

---
 kerncraft/models/ecm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index a41a8ee..3cb4a88 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -126,10 +126,14 @@ class ECMData(PerformanceModel):
                     cycles = float(loads[cache_level] + stores[cache_level]) * \
                              float(elements_per_cacheline) * float(element_size) * \
                              float(self.machine['clock']) / float(bw)
-                else:  # full-duplex
+                elif duplexness == 'full-duplex':
                     cycles = max(float(loads[cache_level]), float(stores[cache_level])) * \
                              float(elements_per_cacheline) * float(element_size) * \
                              float(self.machine['clock']) / float(bw)
+                else:
+                    raise ValueError("Duplexness of memory bandwidth may only be 'half-duplex'"
+                                     "or 'full-duplex', found {} in {}.".format(
+                        duplexness, cache_info['level']))
                 # add penalty cycles
 
                 if 'penalty cycles per cacheline load' in cache_info:
@@ -154,7 +158,7 @@ class ECMData(PerformanceModel):
                 else:
                     raise ValueError("Duplexness of cache throughput may only be 'half-duplex'"
                                      "or 'full-duplex', found {} in {}.".format(
-                        duplexness, cache_info['name']))
+                        duplexness, cache_info['level']))
 
             self.results['cycles'].append((cache_info['level'], cycles))
             self.results['penalty'] = penalty
-- 
2.43.0


From ad641ef28c35f778eb9b0bbbd89b5a929884b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 15/53] fix: ECM scaling reported one core too many when memory
 is exactly saturated

---
 kerncraft/models/ecm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/models/ecm.py b/kerncraft/models/ecm.py
index 3cb4a88..9abaecb 100755
--- a/kerncraft/models/ecm.py
+++ b/kerncraft/models/ecm.py
@@ -512,7 +512,7 @@ class ECM(PerformanceModel):
             utilization = [0]
             self.results['scaling cores'] = float('inf')
             for c in range(1, cores_per_numa_domain + 1):
-                if c * T_MEM > (T_ECM + utilization[c - 1] * (c - 1) * T_MEM / 2):
+                if c * T_MEM >= (T_ECM + utilization[c - 1] * (c - 1) * T_MEM / 2):
                     utilization.append(1.0)
                     self.results['scaling cores'] = min(self.results['scaling cores'], c)
                 else:
@@ -526,7 +526,7 @@ class ECM(PerformanceModel):
                 scaling = {'cores': cores, 'notes': [], 'performance': None,
                            'in-NUMA performance': None}
                 # Detailed scaling:
-                if cores <= self.results['scaling cores']:
+                if cores < self.results['scaling cores']:
                     # Is it purely in-cache?
                     innuma_rectp = PrefixedUnit(T_ECM / (T_ECM/T_MEM),
                                                 "cy/CL")
-- 
2.43.0


From 953215752cd002e8cdb522d3da6a4c98066b4055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 16/53] fix: RooflineFLOP compute limit ignored double
 precision and took FLOP/s for It/s

---
 kerncraft/models/roofline.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 91ab6a9..51e6bbb 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -99,8 +99,8 @@ class RooflineFLOP(PerformanceModel):
         # arithmetic intensity = Iterations / bytes loaded
         if total_loads == 0:
             # This happens in case of full-caching
-            arith_intens = None
-            it_s = None
+            arith_intens = float('inf')
+            it_s = PrefixedUnit(float('inf'), 'It/s')
         else:
             arith_intens = 1.0/(total_loads/elements_per_cacheline)
             it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
@@ -158,11 +158,15 @@ class RooflineFLOP(PerformanceModel):
 
     def analyze(self):
         """Run analysis."""
-        precision = 'DP' if self.kernel.datatype == 'double' else 'SP'
+        precision = 'DP' if 'double' in self.kernel.datatype else 'SP'
         self.calculate_cache_access()
 
-        self.results['max_perf'] = self.conv_perf(self.machine['clock'] * self.cores * \
-            self.machine['FLOPs per cycle'][precision]['total'])
+        max_flops = self.machine['clock'] * self.cores * \
+            self.machine['FLOPs per cycle'][precision]['total']
+        flops_per_it = sum(self.kernel._flops.values())
+        # without any floating-point operations, the compute units impose no limit
+        self.results['max_perf'] = self.conv_perf(PrefixedUnit(
+            float(max_flops)/flops_per_it if flops_per_it else float('inf'), 'It/s'))
 
     def conv_perf(self, it_s):
         """Convert performance (It/s) to other units, such as FLOP/s or cy/CL."""
-- 
2.43.0


From 2c0226bb08d9dbbe0b379452b8a5012c9f75a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 17/53] fix: Roofline had no bottleneck level when all levels
 are unlimited

---
 kerncraft/models/roofline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 51e6bbb..224c44f 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -327,7 +327,8 @@ class RooflineASM(RooflineFLOP):
             if level == 0:
                 # ignoring CPU-L1
                 continue
-            if bottleneck['performance']['It/s'] < self.results['min performance']['It/s']:
+            if self.results['bottleneck level'] is None or \
+                    bottleneck['performance']['It/s'] < self.results['min performance']['It/s']:
                 self.results['bottleneck level'] = level
                 self.results['min performance'] = bottleneck['performance']
 
-- 
2.43.0


From 871fed19c35b17af69fedde47c7edc9dcde39174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:02 +0000
Subject: [PATCH 18/53] fix: Roofline took elements for iterations in loops
 with steps other than one

---
 kerncraft/models/roofline.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/kerncraft/models/roofline.py b/kerncraft/models/roofline.py
index 224c44f..be9e628 100755
--- a/kerncraft/models/roofline.py
+++ b/kerncraft/models/roofline.py
@@ -67,6 +67,7 @@ class RooflineFLOP(PerformanceModel):
         element_size = self.kernel.datatypes_size[self.kernel.datatype]
         cacheline_size = float(self.machine['cacheline size'])
         elements_per_cacheline = int(cacheline_size // element_size)
+        iterations_per_cacheline = cacheline_size / float(self.kernel.bytes_per_iteration)
 
         total_flops = sum(self.kernel._flops.values())*elements_per_cacheline
 
@@ -140,7 +141,7 @@ class RooflineFLOP(PerformanceModel):
                 arith_intens = float('inf')
                 it_s = PrefixedUnit(float('inf'), 'It/s')
             else:
-                arith_intens = 1/(bytes_transfered/elements_per_cacheline)
+                arith_intens = 1/(bytes_transfered/iterations_per_cacheline)
                 it_s = PrefixedUnit(float(bw)*arith_intens, 'It/s')
 
             self.results['mem bottlenecks'].append({
@@ -174,9 +175,9 @@ class RooflineFLOP(PerformanceModel):
         flops_per_it = sum(self.kernel._flops.values())
         performance = it_s*flops_per_it
         performance.unit = 'FLOP/s'
-        element_size = self.kernel.datatypes_size[self.kernel.datatype]
-        elements_per_cacheline = int(float(self.machine['cacheline size'])) / element_size
-        cy_cl = clock/it_s*elements_per_cacheline
+        iterations_per_cacheline = (float(self.machine['cacheline size']) /
+                                    float(self.kernel.bytes_per_iteration))
+        cy_cl = clock/it_s*iterations_per_cacheline
         cy_cl.unit = 'cy/CL'
         cy_it = clock/it_s
         cy_it.unit = 'cy/It'
@@ -315,7 +316,7 @@ class RooflineASM(RooflineFLOP):
         if uops is not None:
             uops = uops*block_to_cl_ratio
         cl_throughput = block_throughput*block_to_cl_ratio
-        flops_per_element = sum(self.kernel._flops.values())
+        iterations_per_block = float(block_size) / float(self.kernel.bytes_per_iteration)
 
         # Overwrite CPU-L1 stats, because they are covered by In-Core Model
         self.results['mem bottlenecks'][0] = None
@@ -339,7 +340,7 @@ class RooflineASM(RooflineFLOP):
                 'cl throughput': cl_throughput,
                 'uops': uops,
                 'performance throughput': self.conv_perf(PrefixedUnit(
-                    self.machine['clock']/block_throughput*elements_per_block
+                    self.machine['clock']/block_throughput*iterations_per_block
                     * self.cores, "It/s")),
                 'in-core model output': incore_output}})
 
-- 
2.43.0


From 7841cd1aba380a8c5506b008790ba85599b95be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 19/53] fix: ++ and -- in expressions lost their operation
 counts and their write access

---
 kerncraft/kernel.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 98bb484..f0f2b34 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1146,7 +1146,16 @@ class KernelCode(Kernel):
             self._flops[stmt.op] = self._flops.get(stmt.op, 0)+1
         elif type(stmt) is c_ast.UnaryOp:
             self._p_sources(stmt.expr)
-            self._flops[stmt.op] = self._flops.get(stmt.op[-1], 0)+1
+            # -- and ++ count as subtraction and addition
+            op = stmt.op[-1]
+            self._flops[op] = self._flops.get(op, 0)+1
+            if stmt.op != '-':
+                # -- and ++ also write to their operand
+                assert type(stmt.expr) in [c_ast.ArrayRef, c_ast.ID], \
+                    "-- and ++ are only allowed on array elements and variables."
+                self.destinations.setdefault(self._get_basename(stmt.expr), set())
+                self.destinations[self._get_basename(stmt.expr)].add(
+                    self._get_offsets(stmt.expr))
 
         return sources
 
-- 
2.43.0


From 5d52df087ed54da20d8d8aede6aa309ef9ec9672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 20/53] fix: octal constants in kernel code were read as
 decimal numbers

---
 kerncraft/kernel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index f0f2b34..f180c00 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -960,7 +960,8 @@ class KernelCode(Kernel):
         if type(math_ast) is c_ast.ID:
             return symbol_pos_int(math_ast.name)
         elif type(math_ast) is c_ast.Constant:
-            return sympy.Integer(math_ast.value)
+            # base 0 follows C's prefixes and refuses octals, which sympy would take for decimals
+            return sympy.Integer(int(math_ast.value, 0))
         else:  # elif type(dim) is c_ast.BinaryOp:
             op = {
                 '*': operator.mul,
@@ -1039,7 +1040,7 @@ class KernelCode(Kernel):
             const_name = floop.cond.right.name
             iter_max = symbol_pos_int(const_name)
         elif type(floop.cond.right) is c_ast.Constant:
-            iter_max = sympy.Integer(floop.cond.right.value)
+            iter_max = sympy.Integer(int(floop.cond.right.value, 0))
         else:  # type(floop.cond.right) is c_ast.BinaryOp
             bop = floop.cond.right
             assert bop.op in '+-*', ('only addition (+), substraction (-) and multiplications (*) '
@@ -1055,7 +1056,7 @@ class KernelCode(Kernel):
             assert floop.next.lvalue.name == floop.cond.left.name == floop.init.decls[0].name, \
                 'initial, condition and next statement of for loop must act on same loop ' \
                 'counter variable'
-            step_size = int(floop.next.rvalue.value)
+            step_size = int(floop.next.rvalue.value, 0)
         else:
             assert type(floop.next.expr) is c_ast.ID, 'next operation may only act on loop counter'
             assert floop.next.expr.name == floop.cond.left.name == floop.init.decls[0].name, \
-- 
2.43.0


From 246a239bc4294f4114a70d32d4d97be5dd554e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 21/53] fix: negative iteration numbers were wrapped around
 instead of refused

---
 kerncraft/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index f180c00..aab4a2b 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -565,6 +565,8 @@ class Kernel(object):
         base_loop_counters = self.global_iterator_to_indices()
         total_length = self.iteration_length()
 
+        assert iteration.min() >= 0, \
+            "Iterations start at zero, found {}.".format(iteration.min())
         assert iteration.max() < self.subs_consts(total_length), \
             "Iterations go beyond what is possible in the original code ({} vs {}). " \
             "One common reason, is that the iteration length are unrealistically small.".format(
-- 
2.43.0


From 9b17a3b42b9cd0124e8e42fd8ada8ee05ed128a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 22/53] fix: BinaryDescription substituted outdated constants

---
 kerncraft/kernel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index aab4a2b..62528cb 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -2050,3 +2050,5 @@ class BinaryDescription(Kernel):
             self.constants[name] = value
         else:
             self.constants[symbol_pos_int(name)] = value
+        # substitutions made with the previous constants are outdated
+        self.subs_consts.cache_clear()
-- 
2.43.0


From 8463160da05d8248f55c88242c29ef837cbf8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 23/53] fix: cache simulation failed if the warm-up ended
 exactly at the last iteration

---
 kerncraft/cacheprediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 0d7c517..13df49c 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -570,7 +570,7 @@ class CacheSimulationPredictor(CachePredictor):
         while invalid_entries > 0 and step < max_steps and not complete_sweep:
             prev_warmup_iteration = warmup_iteration
             warmup_iteration = warmup_iteration + warmup_increment
-            if warmup_iteration > max_iterations:
+            if warmup_iteration >= max_iterations:
                 warmup_iteration = max_iterations
                 complete_sweep = True
 
-- 
2.43.0


From 21a7733ad2d78f30b8b1bead6d3a1be5059c23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 24/53] fix: different dependencies could map to the same path
 of intermediate files

---
 kerncraft/kernel.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 62528cb..68c643b 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -23,6 +23,7 @@ from contextlib import contextmanager
 import fcntl
 
 from math import floor
+from urllib.parse import quote
 
 import sympy
 from sympy.utilities.lambdify import implemented_function
@@ -206,6 +207,13 @@ def force_iterable(f):
     return wrapper
 
 
+def path_component(dependency):
+    """Turn any object into the name of a path component, different ones for different texts."""
+    # '%' alone is never the outcome of quoting and stands for an empty text
+    component = quote(str(dependency), safe=" -=+,:@()[]'") or '%'
+    return '%2E' + component[1:] if component[0] == '.' else component
+
+
 def reduce_path(path):
     """Reduce absolute path to relative (if shorter) for easier readability."""
     relative_path = os.path.relpath(path)
@@ -769,7 +777,7 @@ class KernelCode(Kernel):
         :param name: filename to use for caching
         :param machine_and_compiler_dependent: set to False if file content does not depend on
                                                machine file or compiler settings
-        :param other_dependencies: list of strings to use in path. slashes are stripped
+        :param other_dependencies: list of strings to use in path. slashes etc. are quoted
         """
         if self._filename:
             base_name = os.path.join(os.path.dirname(self._filename),
@@ -783,12 +791,12 @@ class KernelCode(Kernel):
 
         if machine_and_compiler_dependent:
             compiler, compiler_args = self._machine.get_compiler()
-            compiler_args = '_'.join(compiler_args).replace('/', '')
-            base_name += '/{}/{}/{}/'.format(
-                self._machine.get_identifier(), compiler, compiler_args)
-        
+            other_dependencies = [
+                self._machine.get_identifier(), compiler, ' '.join(compiler_args)
+            ] + list(other_dependencies)
+
         for i in other_dependencies:
-            base_name = os.path.join(base_name, str(i).replace('/', ''))
+            base_name = os.path.join(base_name, path_component(i))
 
         # Create dirs recursively
         os.makedirs(base_name, exist_ok=True)
-- 
2.43.0


From 3644cb1989fd34cce5af926823fff3c70b33b0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 25/53] fix: cached in-core analyses were used for other asm
 blocks and pointer increments

---
 kerncraft/kernel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 68c643b..4eb2cda 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1605,8 +1605,8 @@ class KernelCode(Kernel):
         Returns tuple of filename to binary file and shared lock file pointer
         """
         # Build file name
-        file_base_name = os.path.splitext(os.path.basename(in_filename))[0]
-        out_filename = self.get_intermediate_location(file_base_name + '.o')
+        # next to the input, whose location reflects all dependencies (block, increment, ...)
+        out_filename = os.path.splitext(in_filename)[0] + '.o'
         lock_mode, lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1719,7 +1719,7 @@ class KernelCode(Kernel):
         model_parameter = self._machine['in-core model'][model]
 
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter)])
+            other_dependencies=[model, str(model_parameter), asm_block, pointer_increment])
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
-- 
2.43.0


From 9fbc54e467ab8c41a5e50a665577e9d4caec9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 26/53] fix: generated code was reused for other sets of
 constants and cache line sizes

---
 kerncraft/kernel.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 4eb2cda..6804802 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1384,6 +1384,10 @@ class KernelCode(Kernel):
 
         return scalar_inits
 
+    def _get_code_dependencies(self):
+        """Return list of what generated code depends on, besides the kernel code."""
+        return [int(self._machine['cacheline size'])] + [c.name for c in self.constants]
+
     def get_kernel_header(self, name='kernel'):
         """
         Generate and store kernel.h
@@ -1392,7 +1396,8 @@ class KernelCode(Kernel):
         """
         file_name = 'kernel.h'
         file_path = self.get_intermediate_location(
-            file_name, machine_and_compiler_dependent=False)
+            file_name, machine_and_compiler_dependent=False,
+            other_dependencies=self._get_code_dependencies())
         lock_mode, lock_fp = self.lock_intermediate(file_path)
         if lock_mode == fcntl.LOCK_SH:
             # use cache
@@ -1425,7 +1430,8 @@ class KernelCode(Kernel):
             filename += '-omp'
         filename += '.c'
         file_path = self.get_intermediate_location(
-            filename, machine_and_compiler_dependent=False)
+            filename, machine_and_compiler_dependent=False,
+            other_dependencies=self._get_code_dependencies())
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1544,7 +1550,9 @@ class KernelCode(Kernel):
         assert self.kernel_ast is not None, "AST does not exist, this could be due to running " \
                                             "based on a kernel description rather than code."
 
-        file_path = self.get_intermediate_location('main.c', machine_and_compiler_dependent=False)
+        file_path = self.get_intermediate_location(
+            'main.c', machine_and_compiler_dependent=False,
+            other_dependencies=self._get_code_dependencies())
         lock_mode, lock_fp = self.lock_intermediate(file_path)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1650,7 +1658,8 @@ class KernelCode(Kernel):
             filename += '.s'
         else:
             filename += '.o'
-        out_filename = self.get_intermediate_location(filename)
+        out_filename = self.get_intermediate_location(
+            filename, other_dependencies=self._get_code_dependencies())
         lock_mode, out_lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
@@ -1719,7 +1728,8 @@ class KernelCode(Kernel):
         model_parameter = self._machine['in-core model'][model]
 
         analysis_filename = self.get_intermediate_location('incore_analysis.pickle.lzma',
-            other_dependencies=[model, str(model_parameter), asm_block, pointer_increment])
+            other_dependencies=[model, str(model_parameter), asm_block, pointer_increment] +
+                               self._get_code_dependencies())
         analysis_lock_mode, analysis_lock_fp = self.lock_intermediate(analysis_filename)
         if analysis_lock_mode == fcntl.LOCK_SH:
             # use cached analysis
@@ -1728,7 +1738,7 @@ class KernelCode(Kernel):
             return analysis, self.pointer_increment
         
         marked_filename = self.get_intermediate_location('kernel-marked.s',
-            other_dependencies=[asm_block, pointer_increment])
+            other_dependencies=[asm_block, pointer_increment] + self._get_code_dependencies())
         lock_mode, marked_lock_fp = self.lock_intermediate(marked_filename)
         if lock_mode == fcntl.LOCK_SH:
             # use cached maked assembly and extract asm_block and pointer_increment
@@ -1778,7 +1788,8 @@ class KernelCode(Kernel):
         filename = 'kernel'
         if openmp:
             filename += '-omp'
-        out_filename = self.get_intermediate_location(filename)
+        out_filename = self.get_intermediate_location(
+            filename, other_dependencies=self._get_code_dependencies())
         lock_mode, out_lock_fp = self.lock_intermediate(out_filename)
 
         if lock_mode == fcntl.LOCK_SH:
-- 
2.43.0


From f1ccf1a741440f06519f7a3dfed6b33fd7c12c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 27/53] fix: cached cache predictions were used for other
 machines

---
 kerncraft/cacheprediction.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 13df49c..7d6cf36 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -264,7 +264,8 @@ class LayerConditionPredictor(CachePredictor):
             # Make use of caching for symbolic LC representation:
             file_name = 'LC_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
-                file_name, machine_and_compiler_dependent=False, other_dependencies=[str(cores)])
+                file_name, machine_and_compiler_dependent=False,
+                other_dependencies=[machine.get_identifier(), str(cores)])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
@@ -517,7 +518,8 @@ class CacheSimulationPredictor(CachePredictor):
             file_name = 'CSIM_analysis.pickle.lzma'
             file_path = kernel.get_intermediate_location(
                 file_name, machine_and_compiler_dependent=False,
-                other_dependencies=[str(cores)]+[str(t) for t in self.kernel.constants.items()])
+                other_dependencies=[machine.get_identifier(), str(cores)] +
+                                   [str(t) for t in self.kernel.constants.items()])
             lock_mode, lock_fp = kernel.lock_intermediate(file_path)
             if lock_mode == fcntl.LOCK_SH:
                 # use cache
-- 
2.43.0


From 7e6adc8b47c1ac17b922fd052aa747e907ffb79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 28/53] fix: machine files of the same name shared their cached
 intermediates

---
 kerncraft/machinemodel.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index edd1ea7..82cd966 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -402,11 +402,12 @@ class MachineModel(object):
         )
 
     def get_identifier(self):
-        """Return identifier which is either the machine file name or sha256 checksum of data."""
+        """Return identifier: sha256 checksum of data, preceded by the machine file name if any."""
+        checksum = hashlib.sha256(repr(self._data).encode()).hexdigest()
         if self._path:
-            return os.path.basename(self._path)
+            return os.path.basename(self._path) + '-' + checksum[:16]
         else:
-            return hashlib.sha256(repr(self._data).encode()).hexdigest()
+            return checksum
 
     def get_last_modified_datetime(self):
         """Return datetime object of modified time of machine file. Return now if not a file."""
-- 
2.43.0


From d9e3aa0d85d08107c0b0ff553dbf751700aaf616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 29/53] fix: long compiler flags exceeded the limit on file
 names

---
 kerncraft/kernel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 6804802..6059e76 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -9,6 +9,7 @@ import subprocess
 import os
 import os.path
 import sys
+import hashlib
 import numbers
 import collections
 from datetime import datetime
@@ -211,6 +212,9 @@ def path_component(dependency):
     """Turn any object into the name of a path component, different ones for different texts."""
     # '%' alone is never the outcome of quoting and stands for an empty text
     component = quote(str(dependency), safe=" -=+,:@()[]'") or '%'
+    if len(component) > 200:
+        # stay below the common limit on file names
+        component = component[:120] + '%' + hashlib.sha256(component.encode()).hexdigest()
     return '%2E' + component[1:] if component[0] == '.' else component
 
 
-- 
2.43.0


From ee6e40a32b796c2c19403267d32cfabfcc0e7664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 30/53] fix: malformed parameter ranges were accepted up to
 their first error

---
 kerncraft/kerncraft.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 6e96958..da2deca 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -102,9 +102,9 @@ class AppendStringRange(argparse.Action):
         if len(values) != 2:
             message = 'requires 2 arguments'
         else:
-            m = re.match(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
-                         r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
-                         values[1])
+            m = re.fullmatch(r'(?P<start>\d+)(?:-(?P<stop>\d+)(?::(?P<num>\d+)'
+                             r'(:?(?P<log>log)(:?(?P<base>\d+))?)?)?)?',
+                             values[1])
             if m:
                 gd = m.groupdict()
                 if gd['stop'] is None:
-- 
2.43.0


From 5c9eda0bcdef3106b9fcac348e84284fa1f796fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 31/53] fix: large parameter ranges missed their end due to
 rounding errors

---
 kerncraft/kerncraft.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index da2deca..ea9254f 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -39,6 +39,7 @@ def space(start, stop, num, endpoint=True, log=False, base=10):
         "start, stop and num need to be intergers"
     assert num >= 2, "num has to be atleast 2"
 
+    first, last = start, stop
     if log:
         start = math.log(start, base)
         stop = math.log(stop, base)
@@ -50,7 +51,12 @@ def space(start, stop, num, endpoint=True, log=False, base=10):
 
     i = 0
     while i < num:
-        if log:
+        # start and end must not suffer from rounding errors
+        if i == 0:
+            yield first
+        elif endpoint and i == num - 1:
+            yield last
+        elif log:
             yield int(round(base ** (start + i * step_length)))
         else:
             yield int(round(start + i * step_length))
-- 
2.43.0


From 890194e58920cad73ae422c5582115452dd67ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 32/53] fix: parameter ranges leaked into later uses of the
 same parser

---
 kerncraft/kerncraft.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index ea9254f..0e01eed 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -128,10 +128,8 @@ class AppendStringRange(argparse.Action):
         if message:
             raise argparse.ArgumentError(self, message)
 
-        if hasattr(namespace, self.dest):
-            getattr(namespace, self.dest).append(values)
-        else:
-            setattr(namespace, self.dest, [values])
+        # never append in place, the list may be the parser's default
+        setattr(namespace, self.dest, list(getattr(namespace, self.dest, None) or []) + [values])
 
 
 class VersionAction(argparse.Action):
-- 
2.43.0


From f41b5e4d4bc672ca6c7bc0c1f861efc855e28a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 33/53] fix: kernels without constants could not be evaluated

---
 kerncraft/kerncraft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 0e01eed..3e2a823 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -374,7 +374,7 @@ def run(parser, args, output_file=sys.stdout):
             raise ValueError("Not all constants have been defined. Required are: {}".format(
                 required_consts))
     else:
-        define_product = [{}]
+        define_product = [()]
 
     for define in define_product:
         # Reset state of kernel
-- 
2.43.0


From 1d8b8b825e4137c1b2c4879219185c1cba50ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 34/53] fix: repeated values and defaults of constants were
 evaluated repeatedly or ignored

---
 kerncraft/kerncraft.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/kerncraft/kerncraft.py b/kerncraft/kerncraft.py
index 3e2a823..f836587 100755
--- a/kerncraft/kerncraft.py
+++ b/kerncraft/kerncraft.py
@@ -354,19 +354,18 @@ def run(parser, args, output_file=sys.stdout):
         args.define.sort()
         # Prefill with default value, if any is given
         if '.' in [n for n,v in args.define]:
-            default_const_values = dict(args.define)['.']
-            for name in required_consts:
-                name = str(name)
-                define_dict[str(name)] = [[str(name), v] for v in default_const_values]
+            default_const_values = uniquify(
+                [v for n, values in args.define if n == '.' for v in values])
+            # sorted, for reproducible result identifiers
+            for name in sorted([str(c) for c in required_consts]):
+                define_dict[name] = [[name, v] for v in default_const_values]
         for name, values in args.define:
             if name not in [str(n) for n in required_consts]:
                 # ignore
                 continue
-            if name not in define_dict:
-                define_dict[name] = [[name, v] for v in values]
-                continue
+            define_dict.setdefault(name, [])
             for v in values:
-                if v not in define_dict[name]:
+                if [name, v] not in define_dict[name]:
                     define_dict[name].append([name, v])
         define_product = list(itertools.product(*list(define_dict.values())))
         # Check that all consts have been defined
-- 
2.43.0


From b4ca0868ad2a3180040f36cd4e6a7b5122ba2939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:40 +0000
Subject: [PATCH 35/53] fix: bandwidth lookup took positions in the
 measurements for core counts

---
 kerncraft/machinemodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 82cd966..8811bd6 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -492,7 +492,9 @@ class MachineModel(object):
             # Choose maximum number of cores to get bandwidth for
             max_cores = min(self['memory hierarchy'][cache_level]['cores per group'],
                             self['cores per NUMA domain'])
-            bw = max(bw_measurements['results'][measurement_kernel][:max_cores])
+            bw = max([b for c, b in zip(bw_measurements['cores'],
+                                        bw_measurements['results'][measurement_kernel])
+                      if c <= max_cores])
 
         # Correct bandwidth due to miss-measurement of write allocation
         # TODO support non-temporal stores and non-write-allocate architectures
-- 
2.43.0


From 408a53536b5f8b0bf8808c7df82c068f811dc051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 36/53] fix: performance metrics confused counters whose text
 is part of another's

---
 kerncraft/machinemodel.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 8811bd6..0b3118a 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -17,6 +17,7 @@ from functools import lru_cache
 import psutil
 import ruamel.yaml
 import cachesim
+from sympy import Symbol
 from sympy.parsing.sympy_parser import parse_expr
 
 from .prefixedunit import PrefixedUnit
@@ -592,21 +593,19 @@ class MachineModel(object):
         """Return (sympy expressions, event names and symbols dict) from performance metric str."""
         metric = str(metric)
         # Find all perfs counter references
-        perfcounters = re.findall(r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*', metric)
-
-        # Build a temporary metric, with parser-friendly Symbol names
-        temp_metric = metric
-        temp_pc_names = {"SYM{}".format(re.sub("[\[\]\-|=:]", "_", pc)): pc
-                         for i, pc in enumerate(perfcounters)}
-        for var_name, pc in temp_pc_names.items():
-            temp_metric = temp_metric.replace(pc, var_name)
+        perfcounter_regex = r'[A-Z0-9_]+:[A-Z0-9\[\]|\-]+(?::[A-Za-z0-9\-_=]+)*'
+        perfcounters = re.findall(perfcounter_regex, metric)
+
+        # Build a temporary metric, with parser-friendly and unique Symbol names
+        temp_pc_names = {}
+        for pc in perfcounters:
+            temp_pc_names.setdefault(pc, "SYM{}".format(len(temp_pc_names)))
+        temp_metric = re.sub(perfcounter_regex, lambda m: temp_pc_names[m.group()], metric)
         # Parse temporary expression
         expr = parse_expr(temp_metric)
 
-        # Rename symbols to originals
-        for s in expr.free_symbols:
-            if s.name in temp_pc_names:
-                s.name = temp_pc_names[str(s)]
+        # Replace symbols by those named as in the original
+        expr = expr.xreplace({Symbol(name): Symbol(pc) for pc, name in temp_pc_names.items()})
 
         events = {s: MachineModel.parse_perfctr_event(s.name) for s in expr.free_symbols
                   if s.name in perfcounters}
-- 
2.43.0


From aad8cbd4afd8498ec78401b340c6e3c21333ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 37/53] fix: eventstr failed without event tuple and
 register_options on empty descriptions

---
 kerncraft/models/benchmark.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 9f6b840..0706e0b 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -108,6 +108,7 @@ def register_options(regdescr):
     """
     if not regdescr:
         yield None
+        return
     tokenizer = ('\[(?P<grp>[^]]+)\]|'
                  '(?P<chr>.)')
     for u in regdescr.split('|'):
@@ -144,7 +145,9 @@ def eventstr(event_tuple=None, event=None, register=None, parameters=None):
     >>> eventstr(event='DTLB_LOAD_MISSES_WALK_DURATION', register='PMC3')
     'DTLB_LOAD_MISSES_WALK_DURATION:PMC3'
     """
-    if len(event_tuple) == 3:
+    if event_tuple is None:
+        pass
+    elif len(event_tuple) == 3:
         event, register, parameters = event_tuple
     elif len(event_tuple) == 2:
         event, register = event_tuple
-- 
2.43.0


From 99de971fe989a27464d97a9d25e78233a0b74bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 38/53] fix: counters of one event measured in several runs
 were lost

---
 kerncraft/models/benchmark.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index 0706e0b..dc31fee 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -436,7 +436,12 @@ class Benchmark(PerformanceModel):
                 ctrs = ','.join([eventstr(e) for e in run])
                 r = self.perfctr([bench_filename] + [str(repetitions)] + args, group=ctrs)
                 raw_results.append(r)
-                measured_ctrs.update(r)
+                for name, value in r.items():
+                    if isinstance(value, dict):
+                        # Same event may have been measured on other registers in earlier runs
+                        measured_ctrs.setdefault(name, {}).update(value)
+                    else:
+                        measured_ctrs[name] = value
             bench_lock_fp.close()
             # Match measured counters to symbols
             event_counter_results = {}
-- 
2.43.0


From 50f186a6ad8fed18543e4ea02a43509b54feb2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:44 +0000
Subject: [PATCH 39/53] fix: benchmark took partial steps at the end of loops
 for fractions of iterations

---
 kerncraft/models/benchmark.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/kerncraft/models/benchmark.py b/kerncraft/models/benchmark.py
index dc31fee..871ca94 100755
--- a/kerncraft/models/benchmark.py
+++ b/kerncraft/models/benchmark.py
@@ -2,8 +2,6 @@
 """Benchmark model and helper functions."""
 import os
 import subprocess
-from functools import reduce
-import operator
 import sys
 from distutils.spawn import find_executable
 import re
@@ -315,7 +313,7 @@ class Benchmark(PerformanceModel):
             print("Info: phenological ECM model can only be created with a single core benchmark.",
                   file=sys.stderr)
             self.no_phenoecm = True
-        elif "INFORAMTION_REQUIRED" in ''.join(
+        elif "INFORMATION_REQUIRED" in ''.join(
                 [self.machine['overlapping model']['performance counter metric'],
                  self.machine['non-overlapping model']['performance counter metric']]):
             print("Info: disabled phenological ECM model, because definition is incomplete.",
@@ -395,11 +393,8 @@ class Benchmark(PerformanceModel):
 
         # Base metrics for further metric computations:
         # An iteration is equal to one high-level code inner-most-loop iteration
-        iterations_per_repetition = reduce(
-            operator.mul,
-            [self.kernel.subs_consts(max_ - min_) / self.kernel.subs_consts(step)
-             for idx, min_, max_, step in self.kernel._loop_stack],
-            1)
+        # (partial steps at the end of a loop are iterations, too)
+        iterations_per_repetition = self.kernel.iteration_length()
         iterations_per_cacheline = (float(self.machine['cacheline size']) /
                                     self.kernel.bytes_per_iteration)
         cys_per_repetition = time_per_repetition * float(self.machine['clock'])
-- 
2.43.0


From 4a3bd94596fbc500a83d39a775ff83fe63d18474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:58 +0000
Subject: [PATCH 40/53] fix: pointer increment ignored changes of other
 registers, scales and unknown instructions

---
 kerncraft/incore_model.py | 292 +++++++++++++++++++++-----------------
 1 file changed, 165 insertions(+), 127 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 80ed27e..99d612e 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -86,8 +86,70 @@ class ISA:
         """Return pointer increment."""
         raise NotImplementedError
 
+    @staticmethod
+    def normalize_to_register_str(register):
+        """Return same name for all registers which are part of the same (full) register."""
+        raise NotImplementedError
+
+    @classmethod
+    def is_constant_reload(cls, line, modified_registers, stored_references):
+        """Return True if line only loads a register from an address nothing is stored to."""
+        if not re.match(r"^(mov[lq]?|ldr)$", line.mnemonic) or len(line.operands) != 2:
+            return False
+        sources = [op for op in line.operands if isinstance(op, MemoryOperand)]
+        return (
+            len(sources) == 1
+            and any(isinstance(op, RegisterOperand) for op in line.operands)
+            and not sources[0].pre_indexed
+            and not sources[0].post_indexed
+            and cls.normalize_to_register_str(sources[0].base) not in modified_registers
+            and cls.normalize_to_register_str(sources[0].index) not in modified_registers
+            and sources[0] not in stored_references
+        )
+
+    @classmethod
+    def get_common_increment(cls, mem_references, modified_registers, increments):
+        """
+        Return increment of all references whose address changes, None if unknown or not equal.
+
+        :param mem_references: memory operands to consider
+        :param modified_registers: all modified registers
+        :param increments: increments of all registers with a known increment
+        """
+        mem_increments = []
+        for mref in mem_references:
+            regs = [
+                (cls.normalize_to_register_str(reg), scale)
+                for reg, scale in [(mref.base, 1), (mref.index, mref.scale)]
+                if cls.normalize_to_register_str(reg) in modified_registers
+            ]
+            if not all([reg in increments for reg, scale in regs]):
+                return None
+            mem_increment = sum([increments[reg] * scale for reg, scale in regs])
+            if mem_increment:
+                mem_increments.append(mem_increment)
+        if mem_increments and itemsEqual(mem_increments):
+            return mem_increments[0]
+        return None
+
 
 class x86(ISA):
+    @staticmethod
+    def normalize_to_register_str(register):
+        if register is None:
+            return None
+        name = register.name.lower()
+        for regex, full_name in [
+            (r"^[er]?([abcd])[xlh]$", "r{}x"),
+            (r"^[er]?(si|di|sp|bp)l?$", "r{}"),
+            (r"^r([0-9]+)[dwb]?$", "r{}"),
+            (r"^[xyz]mm([0-9]+)$", "zmm{}"),
+        ]:
+            m = re.match(regex, name)
+            if m:
+                return full_name.format(m.group(1))
+        return name
+
     @staticmethod
     def compute_block_metric(block):
         """Return comparable metric on block information."""
@@ -133,7 +195,18 @@ class x86(ISA):
         mem_references = []
         stores_only = False
 
-        modified_registers = []
+        # Count modifications of registers and collect all stores, including unknown instructions
+        modified_registers = defaultdict(int)
+        stored_references = []
+        for line in block:
+            for op in chain(
+                line.semantic_operands["destination"], line.semantic_operands["src_dst"]
+            ):
+                if isinstance(op, RegisterOperand):
+                    modified_registers[x86.normalize_to_register_str(op)] += 1
+                elif isinstance(op, MemoryOperand):
+                    stored_references.append(op)
+
         for line in block:
             # Skip non-instruction lines (e.g., comments)
             if line.mnemonic is None:
@@ -142,7 +215,9 @@ class x86(ISA):
             # Extract destination references, ignoring var(%rip)
             dst_mem_references = [
                 op
-                for op in line.semantic_operands["destination"]
+                for op in chain(
+                    line.semantic_operands["destination"], line.semantic_operands["src_dst"]
+                )
                 if isinstance(op, MemoryOperand) and (op.base is None or op.base.name != "rip")
             ]
             if dst_mem_references:
@@ -152,102 +227,63 @@ class x86(ISA):
                 mem_references += dst_mem_references
 
             # If no destination references were found sofar, include source references
-            if not stores_only:
+            # (lea does not access memory)
+            if not stores_only and not re.match(r"^lea[bwlq]?$", line.mnemonic):
                 mem_references += [
                     op for op in line.semantic_operands["source"] if isinstance(op, MemoryOperand)
                 ]
-            if re.match(r"^inc[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = 1
+
+            # Operands independent of AT&T or Intel order
+            regs = [
+                x86.normalize_to_register_str(op)
+                for op in line.operands
+                if isinstance(op, RegisterOperand)
+            ]
+            imms = [op for op in line.operands if isinstance(op, ImmediateOperand)]
+            mems = [op for op in line.operands if isinstance(op, MemoryOperand)]
+            if re.match(r"^inc[bwlq]?$", line.mnemonic) and regs:
+                increments[regs[0]] = 1
             elif (
                 re.match(r"^add[bwlq]?$", line.mnemonic)
-                and isinstance(line.operands[0], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
+                and len(imms) == 1
+                and len(regs) == 1
             ):
-                reg = line.operands[1].name
-                increments[reg] = int(line.operands[0].value)
-                modified_registers.append(reg)
-            elif re.match(r"^dec[bwlq]?$", line.mnemonic):
-                reg = line.operands[0].name
-                modified_registers.append(reg)
-                increments[reg] = -1
+                increments[regs[0]] = int(imms[0].value)
+            elif re.match(r"^dec[bwlq]?$", line.mnemonic) and regs:
+                increments[regs[0]] = -1
             elif (
                 re.match(r"^sub[bwlq]?$", line.mnemonic)
-                and isinstance(line.operands[0], ImmediateOperand)
-                and isinstance(line.operands[1], RegisterOperand)
+                and len(imms) == 1
+                and len(regs) == 1
+            ):
+                increments[regs[0]] = -int(imms[0].value)
+            elif (
+                re.match(r"^lea[bwlq]?$", line.mnemonic)
+                and len(regs) == 1
+                and len(mems) == 1
+                and isinstance(mems[0].offset, ImmediateOperand)
             ):
-                reg = line.operands[1].name
-                modified_registers.append(reg)
-                increments[reg] = -int(line.operands[0].value)
-            elif re.match(r"^lea[bwlq]?$", line.mnemonic):
+                base = x86.normalize_to_register_str(mems[0].base)
+                index = x86.normalize_to_register_str(mems[0].index)
                 # `lea 1(%r11), %r11` is the same as `add $1, %r11`
-                if (
-                    line.operands[0].base is not None
-                    and line.operands[0].base.name == line.operands[1].name
-                    and line.operands[0].index is None
-                ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
+                if base == regs[0] and index is None:
+                    increments[regs[0]] = int(mems[0].offset.value)
                 # `lea 1(,%r11), %r11` is the same as `add $1, %r11`
-                if (
-                    line.operands[0].index is not None
-                    and line.operands[0].index.name == line.operands[1].name
-                    and line.operands[0].base is None
-                ):
-                    reg = line.operands[1].name
-                    modified_registers.append(reg)
-                    increments[reg] = int(line.operands[0].offset.value)
-
-        # deduce loop increment from memory index register
-        pointer_increment = None  # default -> can not decide, let user choose
-        possible_idx_regs = None
-        if mem_references:
-            # we found memory references to work with
-            possible_idx_regs = list(
-                set(increments.keys()).intersection(
-                    set(
-                        [mref.base.name for mref in mem_references if mref.base is not None]
-                        + [mref.index.name for mref in mem_references if mref.index is not None]
-                    )
-                )
-            )
-            for mref in mem_references:
-                for reg in list(possible_idx_regs):
-                    # Only consider references with two registers, where one could be an
-                    # index
-                    if None not in [mref.base, mref.index]:
-                        # One needs to mach, other registers will be excluded
-                        if not (
-                            (mref.base is not None and reg == mref.base.name)
-                            or (mref.index is not None and reg == mref.index.name)
-                        ):
-                            # reg can not be it
-                            possible_idx_regs.remove(reg)
-
-            idx_reg = None
-            if len(possible_idx_regs) == 1:
-                # good, exactly one register was found
-                idx_reg = possible_idx_regs[0]
-            elif possible_idx_regs and itemsEqual(
-                [increments[pidxreg] for pidxreg in possible_idx_regs]
-            ):
-                # multiple were option found, but all have the same increment
-                # use first match:
-                idx_reg = possible_idx_regs[0]
-
-            if idx_reg and modified_registers.count(idx_reg) == 1:
-                mem_scales = [
-                    mref.scale
-                    for mref in mem_references
-                    if (mref.index is not None and idx_reg == mref.index.name)
-                    or (mref.base is not None and idx_reg == mref.base.name)
-                ]
+                if index == regs[0] and base is None and mems[0].scale == 1:
+                    increments[regs[0]] = int(mems[0].offset.value)
+            elif regs and x86.is_constant_reload(line, modified_registers, stored_references):
+                increments[regs[0]] = 0
+
+        # Increments of registers that are modified more than once are unknown
+        increments = {
+            reg: inc for reg, inc in increments.items() if modified_registers[reg] == 1
+        }
 
-                if itemsEqual(mem_scales):
-                    # good, all scales are equal
-                    pointer_increment = mem_scales[0] * increments[idx_reg]
+        # deduce loop increment from registers in memory references
+        # None -> can not decide, let user choose
+        pointer_increment = x86.get_common_increment(
+            mem_references, modified_registers, increments
+        )
 
         if pointer_increment is None:
             pointer_increment = find_increment_in_cache(block)
@@ -288,23 +324,30 @@ class AArch64(ISA):
     def normalize_to_register_str(register):
         if register is None:
             return None
-        prefix = register.prefix
-        if prefix in "wx":
+        prefix = register.prefix or ""
+        if prefix in ["w", "x"]:
             prefix = "x"
         return prefix + register.name
 
     @staticmethod
     def get_pointer_increment(block):
         """Return pointer increment."""
-        increments = defaultdict(int)
+        increments = {}
         mem_references = []
         stores_only = False
 
         # build dict of modified registers in block with count of number of modifications
         modified_registers = defaultdict(int)
-        for dests in [l.semantic_operands["destination"] for l in block]:
+        stored_references = []
+        for dests in [
+            chain(l.semantic_operands["destination"], l.semantic_operands["src_dst"])
+            for l in block
+        ]:
             for d in dests:
-                if isinstance(d, RegisterOperand):
+                if isinstance(d, MemoryOperand):
+                    stored_references.append(d)
+                # base registers of pre- and post-indexed references are handled below
+                if isinstance(d, RegisterOperand) and not (d.pre_indexed or d.post_indexed):
                     # if 'range' in d.register:
                     #    modified_registers[AArch64.normalize_to_register_str(d.register.range[0])] += 1
                     # else:
@@ -314,12 +357,14 @@ class AArch64(ISA):
                 if isinstance(d, MemoryOperand):
                     if d.post_indexed is not False or d.pre_indexed:
                         modified_registers[AArch64.normalize_to_register_str(d.base)] += 1
-                        inc = 1
-                        if isinstance(d.post_indexed, dict):
+                        # increment is unknown if it is a register
+                        inc = None
+                        if isinstance(d.post_indexed, dict) and "value" in d.post_indexed:
                             inc = int(d.post_indexed["value"])
-                        if d.pre_indexed:
+                        if d.pre_indexed and isinstance(d.offset, ImmediateOperand):
                             inc = int(d.offset.value)
-                        increments[AArch64.normalize_to_register_str(d.base)] = inc
+                        if inc is not None:
+                            increments[AArch64.normalize_to_register_str(d.base)] = inc
 
         for line in block:
             # Skip non-instruction lines (such as comments and labels)
@@ -382,6 +427,10 @@ class AArch64(ISA):
                 inc = -int(line.operands[2].value)
                 if reg_name in increments and increments[reg_name] == inc:
                     increments[reg_name] = inc
+            elif line.operands and AArch64.is_constant_reload(
+                line, modified_registers, stored_references
+            ):
+                increments[AArch64.normalize_to_register_str(line.operands[0])] = 0
 
         # Remove any increments that are modiefed more than once
         increments = {
@@ -412,10 +461,9 @@ class AArch64(ISA):
             # ADD|SUB dest_reg, const_reg, increment_reg (source registers may be switched)
             m = re.match(r"^(add|sub)[s]?$", line.mnemonic)
             if m:
-                if m.group(1) == "add":
-                    factor = 1
-                else:
-                    factor = -1
+                # operands with shift or extension are unknown
+                if re.search(r"\b(lsl|lsr|asr|[su]xt[bhwx])\b", line.line):
+                    continue
                 if not isinstance(line.operands[1], RegisterOperand) or not isinstance(
                     line.operands[2], RegisterOperand
                 ):
@@ -423,7 +471,13 @@ class AArch64(ISA):
                 for i, j in [(1, 2), (2, 1)]:
                     reg_i_name = AArch64.normalize_to_register_str(line.operands[i])
                     reg_j_name = AArch64.normalize_to_register_str(line.operands[j])
-                    if reg_i_name in increments and reg_j_name not in modified_registers:
+                    # subtrahend is decrementing the result
+                    factor = -1 if m.group(1) == "sub" and i == 2 else 1
+                    if (
+                        reg_i_name in increments
+                        and modified_registers[reg_i_name] == 1
+                        and reg_j_name not in modified_registers
+                    ):
                         reg_dest_name = AArch64.normalize_to_register_str(line.operands[0])
                         inc = factor * increments[reg_i_name]
                         if reg_dest_name in increments and increments[reg_dest_name] == inc:
@@ -454,34 +508,18 @@ class AArch64(ISA):
                         src_reg_name
                     ] * 2 ** int(line.operands[2].value)
 
-        # deduce loop increment from memory index register
-        address_registers = []
-        scales = defaultdict(lambda: 1)
-        for mref in mem_references:
-            # Assume base to be scaled
-            base_reg = AArch64.normalize_to_register_str(mref.base)
-            if mref.index is not None:
-                # If index register is used, check which is incremented
-                index_reg = AArch64.normalize_to_register_str(mref.index)
-                if index_reg in increments:
-                    reg = index_reg
-                    # If index is used, a scale other than 1 needs to be considered
-                    if mref.index.shift:
-                        scales[reg] = 2 ** int(mref.index.shift[0]["value"])
-                else:
-                    reg = base_reg
-            else:
-                reg = base_reg
-            # ignore all unmodiefed registers
-            if reg in modified_registers:
-                address_registers.append(reg)
-            increment = None
+        # Remove increments of registers that are modified otherwise, too
+        increments = {
+            reg_name: inc
+            for reg_name, inc in increments.items()
+            if modified_registers[reg_name] == 1
+        }
 
-        pointer_increment = None  # default -> can not decide, let user choose
-        if address_registers and all([reg in increments for reg in address_registers]):
-            if itemsEqual([increments[reg] for reg in address_registers]):
-                # good, all relevant increments are equal
-                pointer_increment = increments[address_registers[0]] * scales[address_registers[0]]
+        # deduce loop increment from registers in memory references
+        # None -> can not decide, let user choose
+        pointer_increment = AArch64.get_common_increment(
+            mem_references, modified_registers, increments
+        )
 
         # Check cache as last resort
         if pointer_increment is None:
-- 
2.43.0


From 84470cf91913e4663ce35e7446008f284d15417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 41/53] fix: selection of asm blocks by index failed

---
 kerncraft/incore_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index 99d612e..ae16a69 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -669,7 +669,7 @@ def asm_instrumentation(
 
     :param input_file: file-like object to read from
     :param output_file: file-like object to write to
-    :param block_selection: label of the assembly block to instrument, or 'auto' for automatically
+    :param block_selection: index of the assembly block to instrument, or 'auto' for automatically
                             using block with the
                             most vector instructions, or 'manual' to read index to prompt user
     :param pointer_increment: number of bytes the pointer is incremented after the loop or
@@ -698,7 +698,7 @@ def asm_instrumentation(
             loop_blocks, default=ISA.get_isa(isa).select_best_block(loop_blocks), debug=debug
         )
     elif isinstance(block_selection, int):
-        block_label = block_selection
+        block_label = list(loop_blocks)[block_selection]
     else:
         raise ValueError("block_selection has to be an integer, 'auto' or 'manual' ")
     block_lines = loop_blocks[block_label]
-- 
2.43.0


From 0d422c6c655124f1659dfa6b69156528566655c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 42/53] fix: the oldest instead of the latest remembered
 pointer increment was used

---
 kerncraft/incore_model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index ae16a69..b3c8202 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -590,15 +590,16 @@ def find_increment_in_cache(block, cache_file="~/.kerncraft/increment_cache"):
     if os.path.exists(cache_file):
         with open(cache_file) as f:
             cache = f.readlines()
-    for c in cache:
+    # Most recently stored increment is at the end
+    for c in reversed(cache):
         c_split = c.split()
         if len(c_split) < 2:
             continue
         hashstr, increment = c_split[:2]
         try:
             increment = int(increment)
-        except:
-            increment = None
+        except ValueError:
+            continue
         if hashstr == search_hash:
             return increment
     return None
-- 
2.43.0


From db4e16f843723924a956369262722f6e98def741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:50 +0000
Subject: [PATCH 43/53] fix: picklemerge failed on mappings in the place of
 other values

---
 kerncraft/picklemerge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kerncraft/picklemerge.py b/kerncraft/picklemerge.py
index 27eced4..2ca8278 100755
--- a/kerncraft/picklemerge.py
+++ b/kerncraft/picklemerge.py
@@ -13,7 +13,11 @@ def update(d, u):
     """
     for k, v in u.items():
         if isinstance(v, collections.abc.Mapping):
-            r = update(d.get(k, {}), v)
+            r = d.get(k)
+            if not isinstance(r, collections.abc.Mapping):
+                # Only mappings can be updated, anything else is replaced
+                r = {}
+            r = update(r, v)
             d[k] = r
         else:
             d[k] = u[k]
-- 
2.43.0


From d2b338b144879fd7305d7b6146c530a8b2537d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:59 +0000
Subject: [PATCH 44/53] fix: caches shared by less cores than a NUMA domain has
 were divided by too many cores

---
 kerncraft/machinemodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/machinemodel.py b/kerncraft/machinemodel.py
index 0b3118a..f0256eb 100755
--- a/kerncraft/machinemodel.py
+++ b/kerncraft/machinemodel.py
@@ -433,7 +433,8 @@ class MachineModel(object):
             cache_dict[c['level']]['cl_size'] = int(c['cache per group']['cl_size'])
             # Scale size of last cache according to cores (typically shared within NUMA domain)
             if c['cores per group'] > 1:
-                cache_dict[c['level']]['sets'] //= min(cores, self['cores per NUMA domain'])
+                cache_dict[c['level']]['sets'] //= min(
+                    cores, int(c['cores per group']), self['cores per NUMA domain'])
 
         if getattr(self, '_cachesimulator_dict', None) == cache_dict:
             self._cachesimulator.mark_all_invalid()
-- 
2.43.0


From ce5957023990efbdc4a137c6f750c313c4d36885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 45/53] fix: benchmarks could not be linked with compiler flags
 that do not inline aligned_malloc

---
 kerncraft/headers/kerncraft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kerncraft/headers/kerncraft.h b/kerncraft/headers/kerncraft.h
index 5624537..b12b0ed 100644
--- a/kerncraft/headers/kerncraft.h
+++ b/kerncraft/headers/kerncraft.h
@@ -6,7 +6,7 @@
 #define swap(a, b) {void* t = a; a = b; b = t;}
 
 
-inline void* aligned_malloc(size_t size, size_t align) {
+static inline void* aligned_malloc(size_t size, size_t align) {
     // Based on http://stackoverflow.com/q/16376942
     void *result;
     #if defined(_MSC_VER)
-- 
2.43.0


From c3674f22504e03f9a9a78389e51ad5107e8f1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 46/53] fix: code following an unbalanced closing brace in
 kernel code was silently ignored

---
 kerncraft/kernel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 6059e76..7df0e32 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -763,11 +763,13 @@ class KernelCode(Kernel):
         self._keep_intermediates = keep_intermediates
         parser = CParser()
         try:
-            self.kernel_ast = parser.parse(self._strip_comments(self._as_function()),
-                                           filename=filename).ext[0].body
+            ext = parser.parse(self._strip_comments(self._as_function()), filename=filename).ext
         except plyparser.ParseError as e:
             print('Error parsing kernel code:', e)
             sys.exit(1)
+        if len(ext) != 1:
+            raise ValueError("Kernel code must not contain anything beyond a single block.")
+        self.kernel_ast = ext[0].body
 
         self._process_code()
 
-- 
2.43.0


From e46596473105d3fc6285e8548754c714132c6ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 47/53] fix: kernels modifying their loop counters or constants
 were analyzed as if they would not

---
 kerncraft/kernel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 7df0e32..eea5714 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -967,6 +967,13 @@ class KernelCode(Kernel):
         self._p_for(loop_nest[-1])
         self.swaps = swaps
 
+        # Anything else, in particular loop counters, must not change during execution
+        indices = [l[0] for l in self._loop_stack]
+        for name in self.destinations:
+            if name not in self.variables or name in indices:
+                raise ValueError("Only declared arrays and scalars may be modified, found "
+                                 "{}.".format(name))
+
     def conv_ast_to_sym(self, math_ast):
         """
         Convert mathematical expressions to a sympy representation.
-- 
2.43.0


From 83f0f6f0f5facaceb2fd333ff14ea8a8c0a6561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:53 +0000
Subject: [PATCH 48/53] fix: iterations were converted to wrong loop indices
 due to floating-point division

---
 kerncraft/kernel.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index eea5714..5182309 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -13,7 +13,7 @@ import hashlib
 import numbers
 import collections
 from datetime import datetime
-from functools import reduce, lru_cache
+from functools import reduce, lru_cache, partial
 import string
 from collections import defaultdict
 from itertools import chain
@@ -485,33 +485,26 @@ class Kernel(object):
 
     def global_iterator_to_indices(self, git=None):
         """
-        Return sympy expressions translating global_iterator to loop indices.
+        Return functions translating global_iterator to loop indices.
 
         If global_iterator is given, an integer is returned
         """
         # unwind global iteration count into loop counters:
         base_loop_counters = {}
-        global_iterator = symbol_pos_int('global_iterator')
         total_length = 1
         for var_name, start, end, incr in reversed(self._loop_stack):
             loop_var = symbol_pos_int(var_name)
 
-            # This unspools the iterations:
+            # This unspools the iterations, with integers only (since sympy would turn the division
+            # into a multiplication with the inexact floating-point reciprocal):
             length = int_ceil((end-start), incr)
-            counter = start+((global_iterator // total_length) % length)*incr
+            counter = partial(
+                lambda start, incr, length, total_length, global_iterator:
+                    start + ((global_iterator // total_length) % length) * incr,
+                *[int(self.subs_consts(e)) for e in (start, incr, length, total_length)])
             total_length = total_length*length
 
-            base_loop_counters[loop_var] = sympy.lambdify(
-                global_iterator,
-                self.subs_consts(counter),
-                modules='numpy')
-
-            if git is not None:
-                try:  # Try to resolve to integer if global_iterator was given
-                    base_loop_counters[loop_var] = sympy.Integer(self.subs_consts(counter))
-                    continue
-                except (ValueError, TypeError):
-                    base_loop_counters[loop_var] = base_loop_counters[loop_var](git)
+            base_loop_counters[loop_var] = counter if git is None else counter(git)
 
         return base_loop_counters
 
-- 
2.43.0


From 1e24f487468dcd2dea0ea8b5b2200999e1a55909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 49/53] fix: benchmarks of kernels with swaps could not be
 linked

---
 kerncraft/kernel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 5182309..9be1599 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -1482,6 +1482,10 @@ class KernelCode(Kernel):
                 # remove all omp pragmas
                 code = re.sub('#pragma omp[^\n]*\n', '', code)
 
+            if self.swaps:
+                # swap is a macro
+                code = '#include "kerncraft.h"\n\n' + code
+
             # Store to file
             with open(file_path, 'w') as f:
                 f.write(code)
-- 
2.43.0


From e8e8831c67ddcd4fbcdc0f93fca29e45476f90ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 50/53] fix: generated code of kernels with initialized or
 qualified variables could not be compiled

---
 kerncraft/kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kerncraft/kernel.py b/kerncraft/kernel.py
index 9be1599..3023f93 100755
--- a/kerncraft/kernel.py
+++ b/kerncraft/kernel.py
@@ -945,9 +945,9 @@ class KernelCode(Kernel):
         for item in declarations:
             array = type(item.type) is c_ast.ArrayDecl
 
+            t = item.type
             if array:
                 dims = []
-                t = item.type
                 while type(t) is c_ast.ArrayDecl:
                     dims.append(self.conv_ast_to_sym(t.dim))
                     t = t.type
@@ -957,6 +957,9 @@ class KernelCode(Kernel):
             else:
                 self.set_variable(item.name, tuple(item.type.type.names), None)
 
+            # Generated code passes, initializes and assigns all variables on its own
+            item.init, item.quals, item.storage, t.quals = None, [], [], []
+
         self._p_for(loop_nest[-1])
         self.swaps = swaps
 
-- 
2.43.0


From ffe6a2c4a280a75d365ea98ee565f8ee5c858416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 51/53] fix: layer conditions of kernels without arrays could
 not be built

---
 kerncraft/cacheprediction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index 7d6cf36..df5a553 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -415,7 +415,8 @@ class LayerConditionPredictor(CachePredictor):
                    'distances_bytes': distances_bytes,
                    'cache': []}
 
-        sum_array_sizes = sum(self.kernel.array_sizes(in_bytes=True, subs_consts=False).values())
+        sum_array_sizes = sum(self.kernel.array_sizes(in_bytes=True, subs_consts=False).values(),
+                              sympy.Integer(0))
 
         for c in self.machine.get_cachesim(self.cores).levels(with_mem=False):
             # Assuming increasing order of cache sizes
-- 
2.43.0


From 6106d5331547ba981cfbe92a7c4414b4ac337df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:45 +0000
Subject: [PATCH 52/53] fix: reuse distances of arrays with numeric dimensions
 were taken from wrongly ordered accesses

---
 kerncraft/cacheprediction.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/kerncraft/cacheprediction.py b/kerncraft/cacheprediction.py
index df5a553..20de9bd 100755
--- a/kerncraft/cacheprediction.py
+++ b/kerncraft/cacheprediction.py
@@ -88,6 +88,17 @@ def sympy_expr_abs_distance_key(e):
     return key
 
 
+def sympy_expr_cmp(a, b):
+    """
+    Compare expressions by the sign of their difference for large values of all symbols.
+
+    Multiple variables are treated equal (N*M == N**2).
+    """
+    x = sympy.Dummy()
+    diff = (a - b).subs({s: x for s in (a - b).free_symbols}).expand()
+    return int(sympy.sign(sympy.LC(diff, x)))
+
+
 def dimension_from_factor(dimension_factor):
     """
     Extract dimension from sympy factor
@@ -396,6 +407,8 @@ class LayerConditionPredictor(CachePredictor):
             # Transform back into sympy expressions
             for i in range(len(acs)):
                 acs[i] = reduce(sympy.Add, [f*df for f, df in zip(acs[i], dimension_factors)])
+            # With numeric dimensions, constant offsets were all attributed to the last dimension
+            acs.sort(reverse=True, key=cmp_to_key(sympy_expr_cmp))
             # Create reuse distances by substracting accesses pairwise in decreasing order
             distances += [(acs[i-1]-acs[i]).simplify() for i in range(1, len(acs))]
             # Add infinity for each array
-- 
2.43.0


From e1189acd60c44be61f9e4ccf5f0fc4850db3821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:03 +0000
Subject: [PATCH 53/53] fix: increments through shifted registers only if these
 are changed once

---
 kerncraft/incore_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kerncraft/incore_model.py b/kerncraft/incore_model.py
index b3c8202..93c92cd 100755
--- a/kerncraft/incore_model.py
+++ b/kerncraft/incore_model.py
@@ -448,6 +448,7 @@ class AArch64(ISA):
                 re.match(r"^lsl$", line.mnemonic)
                 and isinstance(line.operands[2], ImmediateOperand)
                 and AArch64.normalize_to_register_str(line.operands[1]) in increments
+                and modified_registers[AArch64.normalize_to_register_str(line.operands[0])] == 1
             ):
                 increments[AArch64.normalize_to_register_str(line.operands[0])] = increments[
                     AArch64.normalize_to_register_str(line.operands[1])
-- 
2.43.0

